//! P21: what an engine version stands for; unversioned packages of every engine release.
use crate::{exports as ex, kismet as kis, properties as pr};
use mc::core::*;
use mc::exports::*;
use mc::kismet::*;
use mc::pkg::*;
use mc::props::impossible;
use unreal_asset_base::custom_version::*;
use unreal_asset_base::engine_version::*;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::Guid;

/// Object versions of the releases 4.0 .. 5.2
const RELEASES: [(i32, i32); 31] = [
    (342, 0), (352, 0), (363, 0), (382, 0), (385, 0), (401, 0), (413, 0), (434, 0), (451, 0), (482, 0), (482, 0), (498, 0), (504, 0), (505, 0), (508, 0), (510, 0),
    (513, 0), (513, 0), (514, 0), (516, 0), (516, 0), (517, 0), (517, 0), (517, 0), (518, 0), (518, 0), (519, 0), (522, 0), (522, 1004), (522, 1008), (522, 1009),
];
/// Custom versions: (minor version of the first 4.x release with the number, number), newest first
const CUSTOM: [(G4, &[(i32, i32)]); 7] = [
    (FORTNITE, &[(27, 47), (26, 43), (24, 31), (23, 27), (22, 25), (21, 17), (20, 12), (0, 0)]),
    (FRAMEWORK, &[(25, 37), (24, 36), (22, 35), (20, 34), (19, 33), (18, 30), (17, 28), (16, 23), (15, 22), (14, 17), (13, 12), (12, 6), (0, 0)]),
    (CORE, &[(25, 4), (22, 3), (15, 2), (12, 1), (0, 0)]),
    (EDITOR, &[(26, 40), (25, 38), (24, 37), (23, 34), (22, 30), (21, 26), (20, 24), (19, 23), (17, 20), (16, 17), (15, 14), (14, 9), (13, 6), (12, 2), (0, 0)]),
    (ANIMPHYS, &[(20, 17), (19, 16), (18, 12), (17, 7), (16, 3), (0, 0)]),
    (RELEASE, &[(27, 43), (26, 38), (25, 30), (24, 28), (23, 23), (21, 20), (20, 17), (19, 13), (17, 10), (16, 9), (15, 7), (14, 4), (13, 3), (11, 1), (0, 0)]),
    (SEQUENCER, &[(27, 13), (25, 12), (22, 11), (20, 9), (19, 6), (16, 4), (15, 3), (14, 1), (0, 0)]),
];
const FIRST: i32 = 2;
fn customs(engine: i32) -> Vec<(G4, i32)> {
    CUSTOM.iter().map(|(g, l)| (*g, l.iter().find(|(m, _)| *m <= engine - FIRST).unwrap().1)).collect()
}
fn guid(g: G4) -> Guid {
    Guid::from_ints(g[0], g[1], g[2], g[3])
}
fn ev(e: i32) -> EngineVersion {
    EngineVersion::try_from(e).unwrap()
}
fn tables(ctx: &Ctx) {
    for (i, (obj, ue5)) in RELEASES.iter().enumerate() {
        let e = FIRST + i as i32;
        ctx.state();
        ctx.step(3);
        ctx.trace();
        let (o, u) = get_object_versions(ev(e));
        if (o as i32, u as i32) != (*obj, *ue5) {
            ctx.violation("object versions", format!("{:?}: {} / {} instead of {obj} / {ue5}", ev(e), o as i32, u as i32));
        }
        let mut got: Vec<(String, i32)> = CustomVersion::get_default_custom_version_container(ev(e)).iter().map(|c| (c.guid.to_string(), c.version)).collect();
        let mut want: Vec<(String, i32)> = customs(e).iter().map(|(g, n)| (guid(*g).to_string(), *n)).collect();
        got.sort();
        want.sort();
        if got != want {
            let d: Vec<String> = got.iter().chain(&want).filter(|x| !(got.contains(x) && want.contains(x))).map(|x| format!("{}={} {}", x.0, x.1, if got.contains(x) { "found" } else { "expected" })).collect();
            ctx.violation("default custom versions", format!("{:?}: {}", ev(e), d.join(", ")));
        }
        ctx.outcome("release");
    }
}
fn guesses(ctx: &Ctx) {
    // every subset of the custom versions a release writes: the guess has the formats of the file
    for (i, (obj, ue5)) in RELEASES.iter().enumerate() {
        let e = FIRST + i as i32;
        let (o, u) = (ObjectVersion::try_from(*obj).unwrap(), ObjectVersionUE5::try_from(*ue5).unwrap());
        let all = customs(e);
        for m in 0..1 << all.len() {
            let sub: Vec<(G4, i32)> = (0..all.len()).filter(|k| m & (1 << k) != 0).map(|k| all[k]).collect();
            let cv: Vec<CustomVersion> = sub.iter().map(|(g, n)| CustomVersion::new(guid(*g), *n)).collect();
            ctx.state();
            ctx.step(1);
            ctx.trace();
            match guard(|| guess_engine_version(o, u, &cv)) {
                Err(p) => ctx.violation("guess", format!("{:?} {sub:?}: {p}", ev(e))),
                Ok(g) => {
                    let gi = g as i32 - FIRST;
                    let ok = gi >= 0 && (gi as usize) < RELEASES.len() && RELEASES[gi as usize] == (*obj, *ue5) && sub.iter().all(|s| customs(g as i32).contains(s));
                    if !ok {
                        ctx.violation("guess", format!("a file of {:?} (object versions {obj}/{ue5}, custom versions {sub:?}) is taken for {g:?}", ev(e)));
                    }
                    ctx.outcome("guessed release");
                }
            }
        }
    }
    // any file: a release with its object versions, or unknown when there is none
    for obj in (0..=522).filter_map(|x| ObjectVersion::try_from(x).ok()) {
        for ue5 in (0..=1009).filter_map(|x| ObjectVersionUE5::try_from(x).ok()) {
            let mut sets: Vec<Vec<(G4, i32)>> = vec![vec![]];
            let gates = RELEASES.iter().any(|r| r.0 == obj as i32);
            for (g, _) in CUSTOM {
                for n in if gates { (-1..=62).chain([i32::MAX, i32::MIN]).collect::<Vec<_>>() } else { vec![i32::MAX, 0] } {
                    sets.push(vec![(g, n)]);
                    if ctx.thorough() && gates && ue5 as i32 == 0 {
                        for (h, l) in CUSTOM.iter().filter(|c| c.0 != g) {
                            sets.extend(l.iter().map(|x| vec![(g, n), (*h, x.1)]));
                        }
                    }
                }
            }
            sets.push(vec![([1, 2, 3, 4], 5)]);
            for s in sets {
                let cv: Vec<CustomVersion> = s.iter().map(|(g, n)| CustomVersion::new(guid(*g), *n)).collect();
                ctx.state();
                ctx.step(1);
                let known = RELEASES.iter().any(|r| *r == (obj as i32, ue5 as i32));
                match guard(|| guess_engine_version(obj, ue5, &cv)) {
                    Err(p) => ctx.violation("guess", format!("{obj:?} {ue5:?} {s:?}: {p}")),
                    Ok(g) => {
                        let gi = g as i32 - FIRST;
                        let ok = if known { gi >= 0 && (gi as usize) < RELEASES.len() && RELEASES[gi as usize] == (obj as i32, ue5 as i32) } else { g == EngineVersion::UNKNOWN };
                        if !ok {
                            ctx.violation("guess", format!("object versions {}/{} with custom versions {s:?} are taken for {g:?}", obj as i32, ue5 as i32));
                        }
                        ctx.outcome(if known { "versions of a release" } else { "versions of no release" });
                    }
                }
            }
        }
    }
}
pub fn unversioned(engine: i32) -> Ver {
    let (obj, ue5) = RELEASES[(engine - FIRST) as usize];
    Ver { obj, ue5, cv: customs(engine), unversioned: true, legacy: if ue5 > 0 { -8 } else { -7 }, engine }
}
pub fn run(ctx: &Ctx) {
    ctx.bound(format!("{} engine releases; every subset of their custom versions; every known pair of object versions with at most {} custom versions of any number; an unversioned package of every property shape, export kind and script instruction for every release with at most {} unusual value", RELEASES.len(), ctx.pick(1, 2), ctx.pick("1", "1 (properties: 2)")));
    ctx.assume("object and custom versions of the releases as published with the engine (UE5 custom versions are not modelled by the library)");
    tables(ctx);
    guesses(ctx);
    let shapes = pr::shapes();
    let kinds = Kind::all();
    par_for(RELEASES.len() * shapes.len(), |i| {
        let v = unversioned(FIRST + (i % RELEASES.len()) as i32);
        let (name, t, lenient) = &shapes[i / RELEASES.len()];
        if ctx.stopped() || pr::skip(&v, name, t) {
            return;
        }
        let k = if pr::big(t) { 1 } else { ctx.pick(1, 2) };
        go(ctx, &format!("unversioned {name}:{t:?}"), &v, k, &|c, n| pr::describe(&v, name, t, c, n), &|f, p, _| pr::judge(f, p, &v, *lenient));
    });
    par_for(RELEASES.len() * kinds.len(), |i| {
        let v = unversioned(FIRST + (i % RELEASES.len()) as i32);
        let kind = &kinds[i / RELEASES.len()];
        if ctx.stopped() || matches!(kind, Kind::DataTable(s) if impossible(&v, s)) {
            return;
        }
        // code is understood from 4.16 on
        if v.engine >= 18 && matches!(kind, Kind::Function | Kind::UserDefinedStruct | Kind::Class) {
            for op in 0..OPS.len() {
                go(ctx, &format!("unversioned {kind:?} opcode {:#x}", OPS[op].0), &v, 1, &|c, n| kis::script(&v, kind, op, c, n), &|f, p, _| kis::judge(f, p, &v, None));
            }
            return;
        }
        go(ctx, &format!("unversioned {kind:?}"), &v, 1, &|c, n| ex::describe(&v, kind, kind.classes()[0], Quirk::No, c, n), &|f, p, c| ex::judge(f, p, &v, true, &[ex::trailing(kind, c), 4], &mut walk_raw_code));
    });
}
fn go(ctx: &Ctx, key: &str, v: &Ver, k: usize, gen: &dyn Fn(&mut Ch, &NamesRef) -> Pkg, judge: &dyn Fn(&File, &Pkg, &Ch) -> Option<String>) {
    deviations(k, &mut |c| {
        let script = c.clone();
        let mut last = c.clone();
        let (f, p) = build(v, &Table::Natural, &mut |n| {
            last = script.clone();
            gen(&mut last, n)
        })
        .unwrap();
        *c = last;
        ctx.state();
        ctx.step(2);
        ctx.trace();
        if let Some(d) = judge(&f, &p, c) {
            ctx.violation(key, format!("{} choices {:?}: {d}\nexport data: {}", v.tag(), script.script, hex(&p.exports[0].body)));
            return false;
        }
        !ctx.stopped()
    });
    ctx.outcome("content x release");
}
