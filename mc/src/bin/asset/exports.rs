//! P15: every export kind over the version lattice; what one export declares for the others (map layouts).
use crate::properties::{bx, diff_toks, skip};
use mc::core::*;
use mc::exports::*;
use mc::pkg::*;
use mc::props::{Ty::*, *};
use mc::uasset::*;
use unreal_asset::exports::ExportNormalTrait;

pub fn versions() -> Vec<Ver> {
    let mut o = vec![];
    for obj in [214, 240, 241, 314, 315, 360, 361, 389, 390, 462, 463, 499, 500, 502, 503, 507, 508, 517, 518, 522] {
        o.push(Ver::versioned(obj, 0, &[]));
        o.push(Ver::versioned(obj, 0, &CV_LATEST));
    }
    for (g, n) in [CV_UFIELD_NEXT, CV_ENUM_PROPS, CV_FPROPS, CV_REP_COND] {
        for x in [n - 1, n] {
            for obj in [360, 389, 462, 522] {
                o.push(Ver::versioned(obj, 0, &[(g, x)]));
                let mut l = CV_LATEST.to_vec();
                for e in &mut l {
                    if e.0 == g {
                        e.1 = x;
                    }
                }
                o.push(Ver::versioned(obj, 0, &l));
            }
        }
    }
    for ue5 in [1000, 1003, 1004, 1006, 1007, 1009] {
        o.push(Ver::versioned(522, ue5, &[]));
        o.push(Ver::versioned(522, ue5, &CV_LATEST));
    }
    o
}
/// A typed export followed by an ordinary one.
pub fn describe(v: &Ver, kind: &Kind, class: &str, q: Quirk, c: &mut Ch, names: &NamesRef) -> Pkg {
    let mut w = W::new(names, v);
    w.rname("/Game/Path", 0);
    w.b.clear();
    body(&mut w, c, kind, q, None);
    let extra = c.of(&[vec![], vec![0u8; 4], vec![1, 2, 3], vec![0xff; 9]]);
    w.b.extend(&extra);
    let e = Exp { class: -2, name: ("Export".into(), 0), flags: 1, body: w.b, toks: w.toks, ..Default::default() };
    let mut w = W::new(names, v);
    let mut dc = Ch::new(&[]);
    w.t("Normal");
    list_as(&mut w, &mut dc, &[("Last", P("IntProperty"))]);
    w.ri32(0);
    let e2 = Exp { class: -3, name: ("Vector".into(), 0), flags: 1, body: w.b, toks: w.toks, ..Default::default() };
    let row = match kind {
        Kind::DataTable(s) => s,
        _ => "Other",
    };
    Pkg {
        uexp: v.obj >= V_PRELOAD,
        imports: vec![imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"), imp("/Script/CoreUObject", "Class", -1, class), imp("/Script/CoreUObject", "Class", -1, "SomeClass"), imp("/Script/CoreUObject", "ScriptStruct", -1, row)],
        depends: Some(vec![vec![], vec![]]),
        exports: vec![e, e2],
        ..Default::default()
    }
}
pub fn judge(f: &File, p: &Pkg, v: &Ver, first: bool, extra: &[usize], code: &mut dyn FnMut(&mut Vec<Tok>, &unreal_asset::exports::StructExport<unreal_asset::types::PackageIndex>)) -> Option<String> {
    let a = match parse(f, v) {
        Ok(a) => a,
        Err(e) => return Some(format!("reading failed: {e}")),
    };
    for (i, (x, e)) in a.asset_data.exports.iter().zip(&p.exports).enumerate() {
        if i == 0 && !first {
            continue;
        }
        let mut got = vec![];
        walk_export(&mut got, x, v, code);
        if let Some(d) = diff_toks(&got, &e.toks) {
            return Some(format!("export {}: {d}", i + 1));
        }
        let n = x.get_normal_export().unwrap();
        if n.extras.len() != extra[i] {
            return Some(format!("export {}: {} bytes left over instead of {}", i + 1, n.extras.len(), extra[i]));
        }
    }
    if table_of(&a) != f.names {
        return Some(format!("reading changed the name table: {:?} -> {:?}", f.names, table_of(&a)));
    }
    match write(&a) {
        Err(e) => Some(format!("writing failed: {e}")),
        Ok(w) => diff_files(&w, f).map(|d| format!("unchanged save differs: {d}")),
    }
}
/// Extra bytes the description put behind an export.
pub fn trailing(kind: &Kind, c: &Ch) -> usize {
    let base = if *kind == Kind::Normal { 4 } else { 0 };
    // the last choice of a description
    base + [0, 4, 3, 9][c.script.get(c.arity.len() - 1).copied().unwrap_or(0) as usize]
}
fn explore(ctx: &Ctx, v: &Ver, kind: &Kind, class: &str, q: Quirk, k: usize) {
    deviations(k, &mut |c| {
        let script = c.clone();
        let mut last = c.clone();
        let (f, p) = build(v, &Table::Natural, &mut |n| {
            last = script.clone();
            describe(v, kind, class, q, &mut last, n)
        })
        .unwrap();
        *c = last;
        ctx.state();
        ctx.step(2);
        ctx.trace();
        let ex = [trailing(kind, c), 4];
        if let Some(d) = judge(&f, &p, v, q == Quirk::No, &ex, &mut walk_raw_code) {
            ctx.outcome("violation");
            ctx.violation(&format!("{kind:?}:{q:?}"), format!("{} class {class} choices {:?}: {d}\nexport data: {}", v.tag(), script.script, hex(&p.exports[0].body)));
            return false;
        }
        !ctx.stopped()
    });
    ctx.outcome("kind x version");
    ctx.sample(|| format!("{kind:?} {q:?} at {}", v.tag()));
}
/// A blueprint class declares a map property of structs; an object after it holds such a map.
fn map_layouts(ctx: &Ctx) {
    let names = ["MapProp", "Keys2"];
    let keys = [P("NameProperty"), S("Guid"), S("MyStruct"), S("Vector")];
    let vals = [P("IntProperty"), S("LinearColor"), S("MyStruct"), S("Quat")];
    let mut n = 0;
    for v in versions().iter().filter(|v| v.has(CV_FPROPS) && v.obj >= 500) {
        for name in names {
            for kt in &keys {
                for vt in &vals {
                    if skip(v, name, kt) || skip(v, name, vt) {
                        continue;
                    }
                    let st = |t: &Ty| match t {
                        S(s) => s.to_string(),
                        _ => "Unused".into(),
                    };
                    let (ks, vs) = (st(kt), st(vt));
                    let r = build(v, &Table::Natural, &mut |nm| {
                        let mut w = W::new(nm, v);
                        w.rname("/Game/Path", 0);
                        w.b.clear();
                        let mut c = Ch::new(&[]);
                        class_with_map(&mut w, &mut c, name, (kt, -4), (vt, -5));
                        let e = Exp { class: -2, name: ("Export".into(), 0), flags: 1, body: w.b, toks: w.toks, ..Default::default() };
                        let mut w = W::new(nm, v);
                        w.t("Normal");
                        w.t("{");
                        tagged(&mut w, &mut c, name, &Map(bx(kt.clone()), bx(vt.clone())));
                        tagged(&mut w, &mut c, "After", &P("IntProperty"));
                        w.t("}");
                        w.rname("None", 0);
                        w.ri32(0);
                        let e2 = Exp { class: 1, name: ("Obj".into(), 0), flags: 1, body: w.b, toks: w.toks, ..Default::default() };
                        Pkg {
                            uexp: v.obj >= V_PRELOAD,
                            imports: vec![
                                imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"),
                                imp("/Script/CoreUObject", "Class", -1, "BlueprintGeneratedClass"),
                                imp("/Script/CoreUObject", "Class", -1, "SomeClass"),
                                imp("/Script/CoreUObject", "ScriptStruct", -1, &ks),
                                imp("/Script/CoreUObject", "ScriptStruct", -1, &vs),
                            ],
                            depends: Some(vec![vec![], vec![]]),
                            exports: vec![e, e2],
                            ..Default::default()
                        }
                    });
                    let (f, p) = r.unwrap();
                    ctx.state();
                    ctx.step(2);
                    ctx.trace();
                    n += 1;
                    if let Some(d) = judge(&f, &p, v, true, &[0, 4], &mut walk_raw_code) {
                        ctx.violation(&format!("map layout {kt:?} {vt:?}"), format!("{} map {name}: {d}", v.tag()));
                    }
                }
            }
        }
    }
    ctx.outcome_n("map layouts declared by a class", n);
}
pub fn run(ctx: &Ctx) {
    let (vs, kinds) = (versions(), Kind::all());
    let k = 2;
    ctx.bound(format!("{} export kinds (level, world, string table, data table of tagged/native rows, enum, function, struct, class, normal, {} reflected property types, {} FProperty types) x {} versions x class name aliases; every combination of at most {k} ({} for properties, enums, worlds, string tables) unusual field values; opaque bytecode", kinds.len(), UPROPS.len(), FPROPS.len(), vs.len(), ctx.pick(2, 3)));
    map_layouts(ctx);
    par_for(kinds.len() * vs.len(), |i| {
        let kind = &kinds[i / vs.len()];
        let v = &vs[i % vs.len()];
        if ctx.stopped() {
            return;
        }
        if let Kind::DataTable(s) = kind {
            if impossible(v, s) {
                return;
            }
        }
        for (j, class) in kind.classes().into_iter().enumerate() {
            explore(ctx, v, kind, class, Quirk::No, match (j, kind) {
                (0, Kind::Property(..) | Kind::Enum | Kind::World | Kind::StringTable) if ctx.thorough() => 3,
                (0, _) => k,
                _ => 0,
            });
        }
        for q in [Quirk::Guid(0), Quirk::Guid(1), Quirk::Guid(2)] {
            explore(ctx, v, kind, kind.classes()[0], q, k - 1);
        }
        if *kind == Kind::StringTable {
            explore(ctx, v, kind, kind.classes()[0], Quirk::NullStrings, k - 1);
        }
    });
}
