//! P12: package summary, name table, import/export maps and the tables behind them, over the whole
//! version lattice and every combination of up to k unusual fields.
use mc::core::*;
use mc::pkg::*;
use mc::uasset::*;

fn world_tile(w: &mut W, c: &mut Ch) {
    // position, bounds, layer, ...
    for _ in 0..if w.v.has(CV_TILE3D) { 3 } else { 2 } {
        let x = c.of(&[5, -1]);
        w.i32(x);
    }
    for i in 0..6 {
        let f = if i == 0 { c.of(&[1.5f32, -0.0, f32::INFINITY]) } else { i as f32 };
        w.fp(f);
    }
    let b = c.of(&[1u8, 0]);
    w.u8(b);
    let s = c.of(&[Some("Layer"), None, Some(""), Some("Schicht \u{e9}")]);
    w.str(s);
    w.i32(3);
    w.i32(4);
    w.i32(-5);
    if w.v.obj >= V_TILE_UPDATED {
        w.i32(50000);
    }
    if w.v.obj >= V_TILE_STREAM {
        let x = c.of(&[1, 0]);
        w.i32(x);
    }
    if w.v.obj >= V_TILE_UPDATED {
        let x = c.of(&[1, 0]);
        w.i32(x);
        let s = c.of(&[Some("/Game/Parent"), None, Some("")]);
        w.str(s);
    }
    if w.v.obj >= V_TILE_LOD {
        let n = c.of(&[2, 0, 1]);
        w.ri32(n);
        for i in 0..n {
            w.i32(100 + i);
            w.f32(0.25);
            w.f32(2.0);
            w.i32(7);
            w.i32(-8);
        }
    }
    if w.v.obj >= V_TILE_Z {
        let x = c.of(&[9, i32::MIN]);
        w.i32(x);
    }
}

fn tile_tokens(a: &A) -> Option<Vec<Tok>> {
    let t = a.asset_data.world_tile_info.as_ref()?;
    let mut o = vec![Tok::I(t.position.x as i64), Tok::I(t.position.y as i64)];
    if a.asset_data.summary.custom_versions.iter().any(|c| c.guid.0[..4] == FORTNITE[0].to_le_bytes() && c.version >= 1) {
        o.push(Tok::I(t.position.z as i64));
    }
    for v in [&t.bounds.v1, &t.bounds.v2] {
        for x in [v.value.x, v.value.y, v.value.z] {
            o.push(Tok::F(x.0.to_bits()));
        }
    }
    o.push(Tok::I(t.bounds.is_valid as i64));
    o.push(Tok::S(t.layer.name.clone()));
    o.push(Tok::I(t.layer.reserved_0 as i64));
    o.push(Tok::I(t.layer.reserved_1.value.x as i64));
    o.push(Tok::I(t.layer.reserved_1.value.y as i64));
    if let Some(x) = t.layer.streaming_distance {
        o.push(Tok::I(x as i64));
    }
    if let Some(x) = t.layer.distance_streaming_enabled {
        o.push(Tok::I(x as i64));
    }
    if let Some(x) = t.hide_in_tile_view {
        o.push(Tok::I(x as i64));
        o.push(Tok::S(t.parent_tile_package_name.clone()));
    }
    for l in t.lod_list.iter().flatten() {
        o.push(Tok::I(l.relative_streaming_distance as i64));
        o.push(Tok::F((l.reserved_0.0 as f64).to_bits()));
        o.push(Tok::F((l.reserved_1.0 as f64).to_bits()));
        o.push(Tok::I(l.reserved_2 as i64));
        o.push(Tok::I(l.reserved_3 as i64));
    }
    if let Some(x) = t.z_order {
        o.push(Tok::I(x as i64));
    }
    Some(o)
}

pub fn describe(v: &Ver, c: &mut Ch, names: &NamesRef) -> Pkg {
    let mut p = Pkg { uexp: v.obj >= V_PRELOAD && c.pick(2) == 0, ..Default::default() };
    let nimp = c.of(&[2usize, 0, 1, 3]);
    for i in 0..nimp {
        let mut m = imp("/Script/CoreUObject", ["Package", "Class", "Class"][i], [0, -1, -1][i], ["/Script/Engine", "Object", "Thing"][i]);
        if i == 1 {
            m.object_name.1 = c.of(&[0, 1, i32::MAX]);
            m.outer = c.of(&[-1, 1, 0, i32::MIN]);
            m.optional = c.pick(2) == 1;
        }
        p.imports.push(m);
    }
    let nexp = c.of(&[2usize, 0, 1, 3]);
    for i in 0..nexp {
        let mut w = W::new(names, v);
        w.rname("None", 0);
        let extra = c.of(&[4usize, 0, 1]);
        for k in 0..extra {
            w.ru8(k as u8 * 17);
        }
        // an object without content, and one that only this package's own code could read
        match c.pick(3) {
            1 => w = W::new(names, v),
            2 => {
                w = W::new(names, v);
                w.b.extend([0xff; 7]);
            }
            _ => {}
        }
        let mut e = Exp { class: if nimp >= 2 { -2 } else { 0 }, name: (format!("Export{i}"), 0), flags: 1, body: w.b, ..Default::default() };
        if i == 0 {
            e.sup = c.of(&[0, -1, 2]);
            e.template = c.of(&[0, -2, 1]);
            e.outer = c.of(&[0, 2, -1]);
            e.name.1 = c.of(&[0, 1, 7]);
            if c.pick(2) == 1 {
                e.name.0 = "Export\u{e9}".into();
            }
            e.flags = c.of(&[0x9, 0, 0x0004_0000]);
            for b in 0..7 {
                e.bools[b] = c.pick(2) == 1;
            }
            e.package_flags = c.of(&[0, 0x8000_0001]);
            e.guid = c.of(&[[0; 16], [0x5a; 16]]);
            for k in 0..4 {
                e.deps[k] = c.of(&[vec![k as i32 + 1], vec![], vec![-1, 2], vec![3, -2, 1]]);
            }
        } else if i == 1 {
            for k in 0..4 {
                e.deps[k] = c.of(&[vec![], vec![9 + k as i32]]);
            }
        }
        p.exports.push(e);
    }
    if nimp < 2 {
        // without a class the export cannot be typed: it is kept as raw bytes
        for e in &mut p.exports {
            e.class = 0;
        }
    }
    p.depends = match c.pick(4) {
        0 => Some(vec![vec![]; nexp]),
        1 => Some((0..nexp).map(|i| vec![i as i32 - 1; i + 1]).collect()),
        2 => Some(vec![vec![-2, 1]; nexp]),
        _ if !(V_PRELOAD..V_64BIT).contains(&v.obj) => None,
        _ => Some(vec![vec![]; nexp]),
    };
    if v.obj >= V_STRING_REFS {
        p.soft_refs = c.of(&[None, Some(vec![]), Some(vec!["/Game/A".to_string()]), Some(vec!["/Game/A".into(), "".into(), "/Game/\u{e9}".into()])]);
    }
    p.registry = c.pick(2) == 1;
    if v.obj >= V_WORLD_LEVEL_INFO && c.pick(2) == 1 {
        let mut w = W::new(names, v);
        world_tile(&mut w, c);
        p.tile = Some(w.b);
        p.tile_toks = w.toks;
    }
    p.folder = c.of(&["None", "", "/Game/Ordner\u{e9}"]).into();
    p.flags = c.of(&[0x8000_0200, 0, 0x2_0000]);
    p.generations = c.of(&[1, 0, 2, 3]);
    if v.obj >= V_ENGINE_VERSION {
        p.engine = c.of(&[(4, 27, 2, 18319896, Some("++UE4+Release-4.27".to_string())), (0, 0, 0, 0, None), (5, 1, 65535, u32::MAX, Some(String::new()))]);
    } else {
        p.engine.3 = c.of(&[1234567, 0, u32::MAX]);
    }
    p.compat = c.of(&[(4, 26, 1, 15973114, Some("++UE4+Release-4.26".to_string())), (0, 0, 0, 0, None)]);
    p.compression_flags = c.of(&[0, 1]);
    p.source = c.of(&[0x51f3_a10c, 0, u32::MAX]);
    p.chunks = if v.obj >= V_CHUNKIDS { c.of(&[vec![], vec![7], vec![1, -2, 3]]) } else { c.of(&[vec![7], vec![-1]]) };
    p.soft_paths = c.of(&[(0, 0), (2, 777)]);
    p.gatherable = c.of(&[(0, 0), (1, 555)]);
    p.searchable = c.of(&[0, 12]);
    p.thumbnail = c.of(&[0, 34]);
    p.names_ref = c.of(&[3, 0]);
    p.payload_toc = c.of(&[-1, 0x1_0000_0001]);
    p.data_resource = c.of(&[-1, 66]);
    p.guid = c.of(&[[7; 16], [0; 16]]);
    p.licensee = c.of(&[0, 5]);
    if v.obj >= V_NAME_HASH && c.pick(2) == 1 {
        p.zero_hashes = vec!["None".into()];
    }
    match c.pick(4) {
        0 => {}
        1 => {
            W::new(names, v).rname("Extra\u{e9}\u{1f600}", 0);
        }
        2 => {
            W::new(names, v).rname("", 0);
        }
        _ => {
            // a name stored twice in the table: both entries are kept, references keep their index
            let mut n = names.borrow_mut();
            if !n.frozen {
                n.list.push("DupName".into());
                n.list.push("DupName".into());
            }
        }
    }
    p
}

pub fn versions(ctx: &Ctx) -> Vec<Ver> {
    let latest: Vec<(G4, i32)> = CV_LATEST.to_vec();
    let mut out = vec![];
    // every object version the library knows, stored in the file
    for obj in 214..=522 {
        for cv in [&[][..], &latest[..]] {
            out.push(Ver::versioned(obj, 0, cv));
        }
    }
    for obj in [214, 223, 241, 277, 278, 325, 326, 384, 503, 510, 522] {
        for legacy in [-4, -5, -6, -8] {
            let mut v = Ver::versioned(obj, 0, if legacy >= -5 { &[] } else { &latest[..1] });
            v.legacy = legacy;
            out.push(v);
        }
    }
    for ue5 in 1000..=1010 {
        for obj in [510, 522] {
            for n in [0, 3, 7] {
                out.push(Ver::versioned(obj, ue5, &latest[..n]));
            }
        }
    }
    // one custom version at a time around its thresholds, and a guid nobody knows
    for (g, t) in CV_ALL {
        for d in [-1, 0] {
            out.push(Ver::versioned(522, 0, &[(g, t + d)]));
        }
    }
    out.push(Ver::versioned(522, 0, &[([1, 2, 3, 4], 77), (CORE, 4), ([9, 9, 9, 9], -1)]));
    // files that store their versions, opened with an engine version all the same
    for (obj, ue5) in [(342, 0), (510, 0), (522, 0), (522, 1005)] {
        for engine in [2, 10, 23, 29] {
            for n in [0, 1, 7] {
                let mut v = Ver::versioned(obj, ue5, &latest[..n]);
                v.engine = engine;
                out.push(v);
            }
        }
    }
    // unversioned files, opened with every engine version
    for engine in 2..=32i32 {
        use unreal_asset_base::engine_version::*;
        let (o, u) = get_object_versions(EngineVersion::try_from(engine).unwrap());
        for legacy in [-7, -8] {
            let cv = if engine >= 22 { vec![(FORTNITE, 1)] } else { vec![] };
            out.push(Ver { obj: o as i32, ue5: u as i32, cv, unversioned: true, legacy, engine });
        }
    }
    let _ = ctx;
    out
}

pub fn run(ctx: &Ctx) {
    let vs = versions(ctx);
    ctx.bound(format!("{} version configurations (every object version 214..522, every UE5 version, custom version thresholds, every engine version for unversioned files, legacy file versions -4..-8)", vs.len()));
    let special = |v: &Ver| v.ue5 > 0 || v.unversioned || v.legacy != -7 || [214, 223, 224, 268, 278, 316, 319, 326, 329, 336, 365, 384, 444, 459, 485, 503, 504, 507, 508, 510, 511, 522].contains(&v.obj);
    let (dq, ds) = ctx.pick((1, 2), (2, 2));
    ctx.bound(format!("per version: all packages with up to {dq} unusual field(s), {ds} for versions next to a layout change; up to 3 imports/exports"));
    par_for(vs.len(), |i| {
        let v = &vs[i];
        let k = if special(v) { ds } else { dq };
        deviations(k, &mut |c| {
            if ctx.stopped() {
                return false;
            }
            case(ctx, v, c);
            true
        });
    });
}

fn case(ctx: &Ctx, v: &Ver, c: &mut Ch) {
    let script = c.script.clone();
    let (f, p) = {
        let mut last = None;
        let r = build(v, &Table::Natural, &mut |n| {
            let mut cc = Ch::new(&script);
            let p = describe(v, &mut cc, n);
            last = Some(cc);
            p
        });
        *c = last.unwrap();
        r.expect("reference build")
    };
    ctx.state();
    ctx.step(2);
    let key = || format!("{} script {:?}", v.tag(), script);
    let fail = |m: String| ctx.violation(&key(), format!("{m}\nfile: {}\nuexp: {}", hex(&f.asset), f.uexp.as_ref().map(|u| hex(u)).unwrap_or_default()));
    let a = match parse(&f, v) {
        Ok(a) => a,
        Err(m) => return fail(format!("a well-formed package is not read: {m}")),
    };
    if let Some(m) = compare_tables(&a, &f, &p, v) {
        return fail(m);
    }
    if let Some(t) = tile_tokens(&a) {
        if t != p.tile_toks {
            return fail(format!("world tile info: read {t:?}, file says {:?}", p.tile_toks));
        }
    } else if p.tile.is_some() {
        return fail("world tile info not read".into());
    }
    match write(&a) {
        Ok(o) => {
            if let Some(m) = diff_files(&o, &f) {
                return fail(format!("writing the unchanged package: {m}"));
            }
        }
        Err(m) => return fail(format!("writing the unchanged package: {m}")),
    }
    ctx.trace();
    ctx.outcome(if p.uexp { "uasset+uexp" } else { "single file" });
    ctx.sample(key);
}
/// Packages with every optional table, single and split, for the damage check.
pub fn samples() -> Vec<(String, Ver, File)> {
    let mut o = vec![];
    let l = &CV_LATEST;
    for v in [Ver::versioned(522, 0, l), Ver::versioned(522, 1010, l), Ver::versioned(326, 0, &[]), Ver { legacy: -4, ..Ver::versioned(342, 0, &[]) }] {
        let mut all = vec![];
        deviations(1, &mut |c| {
            let script = c.script.clone();
            let f = build(&v, &Table::Natural, &mut |n| {
                let mut cc = Ch::new(&script);
                let p = describe(&v, &mut cc, n);
                *c = cc;
                p
            });
            all.push((script, f.unwrap().0));
            true
        });
        // the default and those that add a table
        let dl = all[0].1.asset.len();
        let mut seen = vec![];
        for (s, f) in all {
            let grow = f.asset.len() as i64 - dl as i64;
            if s.is_empty() || grow > 30 || (f.uexp.is_none() && !seen.contains(&-1)) {
                if seen.contains(&grow) {
                    continue;
                }
                seen.push(if f.uexp.is_none() { -1 } else { grow });
                o.push((format!("tables {s:?}"), v.clone(), f));
            }
        }
    }
    o
}
