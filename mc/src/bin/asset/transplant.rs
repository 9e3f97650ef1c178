//! P23: exports copied from one package into another keep every name they use.
use crate::{exports as ex, kismet as kis, properties as pr};
use mc::core::*;
use mc::exports::*;
use mc::kismet::*;
use mc::pkg::*;
use mc::props::{Ty::*, *};
use mc::uasset::*;
use unreal_asset::exports::ExportBaseTrait;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Host {
    /// knows none of the names
    Foreign,
    /// knows all names, at other positions
    Shuffled,
    /// has the same names, but is another package
    Same,
}
fn host_pkg(v: &Ver, like: &Pkg, names: &NamesRef) -> Pkg {
    let mut p = Pkg { uexp: like.uexp, depends: like.depends.clone(), imports: vec![imp("/Script/HostPackage", "Package", 0, "HostObject")], ..Default::default() };
    for i in 0..like.exports.len() {
        let mut w = W::new(names, v);
        w.rname("/Game/Host", 0);
        w.b.clear();
        let mut c = Ch::new(&[]);
        list_as(&mut w, &mut c, &[("HostValue", P("IntProperty"))]);
        w.ri32(0);
        p.exports.push(Exp { class: -1, name: (format!("HostExport{i}"), 0), flags: 1, body: w.b, ..Default::default() });
    }
    p
}
/// `describe` lays out the donor. None when everything is as it should be.
fn transplant(v: &Ver, host: Host, describe: &mut dyn FnMut(&NamesRef) -> Pkg) -> Option<String> {
    let (fa, pa) = build(v, &Table::Natural, describe).unwrap();
    let a = match parse(&fa, v) {
        Ok(a) => a,
        Err(e) => return Some(format!("reading the donor failed: {e}")),
    };
    if let Some(x) = a.asset_data.exports.iter().find(|x| variant(x) == "Raw") {
        return Some(format!("the donor was not understood: {:?}", x.get_base_export().object_name.get_owned_content()));
    }
    let fb = match host {
        Host::Foreign => build(v, &Table::Natural, &mut |n| host_pkg(v, &pa, n)).unwrap().0,
        Host::Shuffled => build(v, &Table::Shuffled, describe).unwrap().0,
        Host::Same => build(v, &Table::Natural, describe).unwrap().0,
    };
    let mut b = match parse(&fb, v) {
        Ok(a) => a,
        Err(e) => return Some(format!("reading the host failed: {e}")),
    };
    let r = guard(move || {
        b.asset_data.exports = a.asset_data.exports.clone();
        b.imports = a.imports.clone();
        b.rebuild_name_map();
        (a, b)
    });
    let (mut a, mut b) = match r {
        Ok(x) => x,
        Err(p) => return Some(format!("rebuild_name_map: {p}")),
    };
    // the donor may be edited or go away
    let mut am = a.get_name_map();
    if table_of(&a) != fa.names {
        return Some("copying changed the donor's names".into());
    }
    for i in 0..fa.names.len() {
        am.get_mut().get_name_reference_mut(i as i32).push_str("_donor");
    }
    drop(am);
    a.asset_data.exports.clear();
    drop(a);
    let written = match write(&b) {
        Err(e) => return Some(format!("writing failed: {e}")),
        Ok(w) => w,
    };
    let names = table_of(&b);
    if names.len() < fb.names.len() || names[..fb.names.len()] != fb.names[..] {
        return Some(format!("rebuilding changed existing names: {:?} -> {names:?}", fb.names));
    }
    for (i, n) in names.iter().enumerate().skip(fb.names.len()) {
        if names[..i].contains(n) {
            return Some(format!("name {n} was added although it exists"));
        }
        if !fa.names.contains(n) {
            return Some(format!("name {n} was added although nothing uses it"));
        }
    }
    match build(v, &Table::Exact(names.clone()), describe) {
        None => return Some(format!("names used by the copied exports are missing from the name table {names:?}")),
        Some((want, _)) => {
            if let Some(d) = diff_files(&written, &want) {
                return Some(format!("saved copy differs: {d}"));
            }
        }
    }
    // rebuilding again changes nothing
    b.rebuild_name_map();
    if table_of(&b) != names {
        return Some("rebuilding twice adds names".into());
    }
    // names are shared by everything in the package now: renaming reaches the copied exports
    let mut nm = b.get_name_map();
    let i = names.iter().position(|n| n == "Export").unwrap();
    nm.get_mut().get_name_reference_mut(i as i32).push_str("New");
    let mem = b.asset_data.exports[0].get_base_export().object_name.get_owned_content();
    if mem != "ExportNew" {
        return Some(format!("renaming a name of the package does not reach the copied export ({mem})"));
    }
    None
}
fn go(ctx: &Ctx, key: &str, what: &str, v: &Ver, k: usize, gen: &mut dyn FnMut(&mut Ch, &NamesRef) -> Pkg) {
    let mut hosts = vec![Host::Foreign, Host::Shuffled];
    if k > 0 {
        hosts.push(Host::Same);
    }
    for h in hosts {
        deviations(k, &mut |c| {
            let script = c.clone();
            let mut last = c.clone();
            let r = transplant(v, h, &mut |n| {
                last = script.clone();
                gen(&mut last, n)
            });
            *c = last;
            ctx.state();
            ctx.step(5);
            ctx.trace();
            if let Some(d) = r {
                ctx.violation(&format!("{key} into {h:?}"), format!("{} {what} choices {:?}: {d}", v.tag(), script.script));
                return false;
            }
            !ctx.stopped()
        });
    }
}
pub fn run(ctx: &Ctx) {
    let l = &CV_LATEST;
    let vs: Vec<Ver> = vec![Ver::versioned(522, 0, l), Ver::versioned(522, 1009, l), Ver::versioned(366, 0, &[]), Ver::versioned(502, 0, l), Ver::versioned(522, 0, &[]), Ver::versioned(522, 1004, l)];
    let shapes = pr::shapes();
    ctx.bound(format!("{} property shapes, all export kinds, all {} instructions as donor content, at most {} deviation(s) from default values, {} versions; hosts that know none, all (elsewhere) or exactly the same names", shapes.len(), OPS.len(), ctx.pick(1, 2), vs.len()));
    let k = ctx.pick(1, 2);
    let few = ctx.pick(2, vs.len());
    par_for(shapes.len() * vs.len(), |i| {
        let (name, t, lenient) = &shapes[i / vs.len()];
        let (v, vi) = (&vs[i % vs.len()], i % vs.len());
        if ctx.stopped() || *lenient || pr::skip(v, name, t) {
            return;
        }
        let k = if pr::big(t) || vi >= few { 1 } else { k };
        go(ctx, &format!("{name}:{t:?}"), "property", v, k, &mut |c, n| pr::describe(v, name, t, c, n));
        ctx.outcome("property shape x version");
        ctx.sample(|| format!("{t:?} at {}", v.tag()));
    });
    let kinds = Kind::all();
    par_for(kinds.len() * vs.len(), |i| {
        let (kind, v, vi) = (&kinds[i / vs.len()], &vs[i % vs.len()], i % vs.len());
        if let Kind::DataTable(s) = kind {
            if impossible(v, s) {
                return;
            }
        }
        if ctx.stopped() {
            return;
        }
        go(ctx, &format!("{kind:?}"), "export", v, if vi < few { k } else { 1 }, &mut |c, n| ex::describe(v, kind, kind.classes()[0], Quirk::No, c, n));
        ctx.outcome("export kind x version");
    });
    let kv = kis::versions(false);
    par_for(OPS.len() * kv.len(), |i| {
        let (op, v) = (i / kv.len(), &kv[i % kv.len()]);
        if ctx.stopped() {
            return;
        }
        go(ctx, &format!("opcode {:#x}", OPS[op].0), "bytecode", v, k, &mut |c, n| kis::script(v, &Kind::Function, op, c, n));
        ctx.outcome("instruction x version");
    });
}
