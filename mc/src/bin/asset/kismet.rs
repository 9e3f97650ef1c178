//! P14: bytecode. Every instruction, nested in every instruction, with every kind of operand.
use crate::properties::diff_toks;
use mc::core::*;
use mc::exports::*;
use mc::kismet::*;
use mc::pkg::*;
use mc::uasset::*;
use unreal_asset::exports::{Export, StructExport};
use unreal_asset::types::PackageIndex;

fn with_engine(mut v: Ver, e: i32) -> Ver {
    v.engine = e;
    v
}
pub fn versions(all: bool) -> Vec<Ver> {
    let mut o = vec![];
    let v = |obj, ue5, e| with_engine(Ver::versioned(obj, ue5, &CV_LATEST), e);
    o.extend([v(517, 0, 20), v(522, 0, 29), v(522, 1009, 32)]);
    if all {
        o.extend([v(302, 0, 18), v(303, 0, 18), v(518, 0, 27), v(522, 1003, 30), v(522, 1004, 30)]);
        o.push(with_engine(Ver::versioned(505, 0, &[]), 18));
    }
    o
}
fn code_of(e: &Export<PackageIndex>) -> Option<&StructExport<PackageIndex>> {
    match e {
        Export::FunctionExport(e) => Some(&e.struct_export),
        Export::ClassExport(e) => Some(&e.struct_export),
        Export::UserDefinedStructExport(e) => Some(&e.struct_export),
        _ => None,
    }
}
fn pkg(v: &Ver, kind: &Kind, names: &NamesRef, code: &mut dyn FnMut(&mut W) -> i32) -> Pkg {
    let mut w = W::new(names, v);
    w.rname("/Game/Path", 0);
    w.b.clear();
    let mut dc = Ch::new(&[]);
    body(&mut w, &mut dc, kind, Quirk::No, Some(&mut |w, _| code(w)));
    let e = Exp { class: -2, name: ("Export".into(), 0), flags: 1, body: w.b, toks: w.toks, ..Default::default() };
    Pkg {
        uexp: v.obj >= V_PRELOAD,
        imports: vec![imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"), imp("/Script/CoreUObject", "Class", -1, kind.classes()[0])],
        depends: Some(vec![vec![]]),
        exports: vec![e],
        ..Default::default()
    }
}
/// `opaque`: bytes that are not a sequence of whole instructions
pub fn judge(f: &File, p: &Pkg, v: &Ver, opaque: Option<&[u8]>) -> Option<String> {
    let a = match parse(f, v) {
        Ok(a) => a,
        Err(e) => return Some(format!("reading failed: {e}")),
    };
    let x = &a.asset_data.exports[0];
    if opaque.is_none() {
        let mut got = vec![];
        walk_export(&mut got, x, v, &mut |o, s| match &s.script_bytecode {
            Some(c) => {
                for e in c {
                    walk(o, e);
                }
            }
            None => o.push(Tok::T("not parsed".into())),
        });
        if let Some(d) = diff_toks(&got, &p.exports[0].toks) {
            return Some(d);
        }
    } else {
        match code_of(x) {
            Some(s) if s.script_bytecode.is_some() => return Some("accepted bytecode that is not a sequence of whole instructions".into()),
            Some(s) if s.script_bytecode_raw.as_deref() != opaque => return Some(format!("the bytes are given as {:?}", s.script_bytecode_raw.as_ref().map(|b| hex(b)))),
            None => return Some("the export is not recognised".into()),
            _ => {}
        }
        let mut got = vec![];
        walk_export(&mut got, x, v, &mut |_, _| {});
        if let Some(d) = diff_toks(&got, &p.exports[0].toks) {
            return Some(d);
        }
    }
    if table_of(&a) != f.names {
        return Some(format!("reading changed the name table: {:?} -> {:?}", f.names, table_of(&a)));
    }
    match write(&a) {
        Err(e) => Some(format!("writing failed: {e}")),
        Ok(w) => diff_files(&w, f).map(|d| format!("unchanged save differs: {d}")),
    }
}
/// Bytecode that cannot be understood stays as it is.
fn opaque(ctx: &Ctx, v: &Ver, kind: &Kind) {
    let known: Vec<u8> = OPS.iter().map(|o| o.0).collect();
    let mut cases: Vec<(String, Vec<u8>)> = vec![];
    for b in 0..=255u8 {
        if !known.contains(&b) {
            cases.push((format!("unknown opcode {b:#x}"), vec![0x0b, b, 0x53]));
        }
    }
    for (i, (op, f)) in OPS.iter().enumerate() {
        if f.is_empty() {
            continue;
        }
        // the last instruction is cut short: at every length
        let names = std::rc::Rc::new(std::cell::RefCell::new(Names::default()));
        let mut w = W::new(&names, v);
        expr(&mut w, &mut Ch::new(&[]), 1, Some(i), 0);
        for cut in 1..w.b.len() {
            cases.push((format!("opcode {op:#x} cut to {cut}"), w.b[..cut].to_vec()));
        }
    }
    cases.push(("not ascii".into(), vec![0x1f, 0xe9, 0, 0x53]));
    cases.push(("lone surrogate".into(), vec![0x34, 0, 0xd8, 0, 0, 0x53]));
    cases.push(("bad cast".into(), vec![0x38, 0x60, 0x17, 0x53]));
    cases.push(("bad event".into(), vec![0x6a, 17, 0x53]));
    cases.push(("bad text".into(), vec![0x29, 5, 0x53]));
    for (what, code) in cases {
        // what comes behind the code may look like the missing rest of it
        for mem in [77, 0] {
            let (f, p) = build(v, &Table::Natural, &mut |n| {
                pkg(v, kind, n, &mut |w| {
                    w.b.extend(&code);
                    mem
                })
            })
            .unwrap();
            ctx.state();
            ctx.step(2);
            if let Some(d) = judge(&f, &p, v, Some(&code)) {
                ctx.violation(&format!("opaque {what}"), format!("{} {kind:?}: {d}\ncode: {}", v.tag(), hex(&code)));
            }
        }
    }
    ctx.outcome("opaque code x version x kind");
}
pub fn script(v: &Ver, kind: &Kind, op: usize, c: &mut Ch, n: &NamesRef) -> Pkg {
    pkg(v, kind, n, &mut |w| {
        let m = expr(w, c, 2, Some(op), 0);
        w.u8(0x0b);
        w.u8(0x53);
        m + 2
    })
}
pub fn run(ctx: &Ctx) {
    let all = versions(true);
    let few = versions(false);
    ctx.bound(format!("all {} instructions as statement, each with every instruction as every operand (3 levels), operand values, list lengths 0..4; at most 1 deviation from default operands over {} versions, 2 over {} versions; in functions, classes and structs; every opcode not known and every truncation of every instruction kept as bytes", OPS.len(), all.len(), ctx.pick(few.len(), all.len())));
    ctx.assume("instrumentation events as the library lays them out (the engine does not serialize them in cooked code)");
    for kind in [Kind::Function, Kind::Class, Kind::UserDefinedStruct] {
        par_for(few.len(), |i| opaque(ctx, &few[i], &kind));
    }
    let jobs: Vec<(usize, &Ver, usize, Kind)> = OPS
        .iter()
        .enumerate()
        .flat_map(|(i, _)| {
            let mut l: Vec<(usize, &Ver, usize, Kind)> = vec![];
            for (n, v) in all.iter().enumerate() {
                l.push((i, v, if n < few.len() || ctx.pick(0, 1) == 1 { 2 } else { 1 }, Kind::Function));
                l.push((i, v, 0, Kind::Class));
                l.push((i, v, 0, Kind::UserDefinedStruct));
            }
            l
        })
        .collect();
    par_for(jobs.len(), |j| {
        let (op, v, k, kind) = &jobs[j];
        if ctx.stopped() {
            return;
        }
        deviations(*k, &mut |c| {
            let script = c.clone();
            let mut last = c.clone();
            let (f, p) = build(v, &Table::Natural, &mut |n| {
                last = script.clone();
                self::script(v, kind, *op, &mut last, n)
            })
            .unwrap();
            *c = last;
            ctx.state();
            ctx.step(2);
            ctx.trace();
            if let Some(d) = judge(&f, &p, v, None) {
                ctx.violation(&format!("opcode {:#x}", OPS[*op].0), format!("{} {kind:?} choices {:?}: {d}\nexport data: {}", v.tag(), script.script, hex(&p.exports[0].body)));
                return false;
            }
            !ctx.stopped()
        });
        ctx.outcome("instruction x version x kind");
        ctx.sample(|| format!("opcode {:#x} at {}", OPS[*op].0, v.tag()));
    });
}
