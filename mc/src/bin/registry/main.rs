//! P17: the asset registry.
use mc::core::*;
use mc::iso::*;
use mc::pkg::*;
use mc::uasset::fname;
use std::io::Cursor;
use unreal_asset_base::containers::{Chain, IndexedMap, NameMap};
use unreal_asset_base::flags::EPackageFlags;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::RawReader;
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_registry::objects::asset_bundle_data::AssetBundleData;
use unreal_asset_registry::objects::asset_data::{AssetData, TopLevelAssetPath};
use unreal_asset_registry::objects::depends_node::{AssetIdentifier, DependsNode};
use unreal_asset_registry::objects::store::{Store, ValueId};
use unreal_asset_registry::AssetRegistryState;

const NAMES_OFFSET_AT: usize = 20;
const R_HARD_MANAGE: i32 = 5;
const R_COOKED_HASH: i32 = 6;
const R_FLAGS: i32 = 7;
const R_FIXED_TAGS: i32 = 8;
const R_WORKSPACE: i32 = 9;
const R_CLASSES: i32 = 10;
const R_SUMMARY: i32 = 11;
const R_CLASS_PATHS: i32 = 14;

#[derive(Clone, Copy, Debug)]
struct RV {
    reg: i32,
    obj: i32,
}
const NM: [(&str, i32); 5] = [("/Game/Thing", 0), ("Thing", 3), ("Other", 0), ("naïve名", 0), ("Thing", 0)];
fn nm(w: &mut W, c: &mut Ch, i: usize) {
    let k = c.pick(NM.len());
    let (s, n) = NM[(i + k) % NM.len()];
    w.name(s, n);
}
fn asset(w: &mut W, c: &mut Ch, r: RV, i: usize) {
    w.t("asset");
    nm(w, c, i); // object path
    nm(w, c, i + 1); // package path
    nm(w, c, i + 2); // class
    if r.reg >= R_CLASS_PATHS {
        nm(w, c, i + 1);
    }
    nm(w, c, i); // package name
    nm(w, c, i + 1); // asset name
    let n = c.of(&[1usize, 0, 2, 3]);
    w.i32(n as i32);
    for k in 0..n {
        w.name(["TagA", "TagB", "TagA"][k], if k == 2 { 4 } else { 0 });
        let s = c.of(&[Some("value"), None, Some("wïde"), Some(" ")]);
        w.str(s);
    }
    let n = c.of(&[0usize, 1, 3]);
    w.i32(n as i32);
    for k in 0..n {
        let x = c.of(&[0, 7, -1, i32::MAX]);
        w.i32(x + 0 * k as i32);
    }
    let f = c.of(&[0u32, 0x8000_0000, 0x0000_0001, 0x8002_0200]);
    w.u32(f);
}
/// sorted index lists over n nodes
fn subset(c: &mut Ch, n: usize) -> Vec<i32> {
    let m = c.pick(1 << n.min(3));
    (0..n.min(3) as i32).filter(|i| m & (1 << i) != 0).collect()
}
fn node(w: &mut W, c: &mut Ch, r: RV, n: usize) {
    w.t("node");
    let bits = c.of(&[1u8, 0, 2, 4, 8, 15, 10]);
    w.ru8(bits);
    for i in 0..4 {
        if bits & (1 << i) != 0 {
            w.name(["/Game/Thing", "Primary", "Object", "Value"][i], [0, 0, 2, 0][i]);
        } else {
            w.t("-");
        }
    }
    if r.reg < R_FLAGS {
        let l: Vec<Vec<i32>> = (0..6).map(|i| if i == 4 && r.reg < R_HARD_MANAGE { vec![] } else { subset(c, n) }).collect();
        for (i, x) in l.iter().enumerate() {
            if i == 4 && r.reg < R_HARD_MANAGE {
                continue;
            }
            w.ri32(x.len() as i32);
        }
        for x in &l {
            for y in x {
                w.ri32(*y);
            }
        }
        // hard, soft, name, soft manage, hard manage, referencers
        for i in [0, 1, 2, 4, 3, 5] {
            w.toks.push(Tok::I(l[i].len() as i64));
        }
        w.toks.push(Tok::S(None));
        w.toks.push(Tok::S(None));
        return;
    }
    let flagged = |w: &mut W, c: &mut Ch, width: usize| -> (i64, i64, Vec<bool>) {
        let l = subset(c, n);
        w.ri32(l.len() as i32);
        let mut bits = vec![];
        let (mut hard, mut soft) = (0, 0);
        for _ in &l {
            if width == 8 {
                // bit 7: hard, game and build; bit 6: game and build
                let f = c.of(&[0x80u8, 0x40, 0xc0, 0x01, 0x42]);
                bits.extend((0..8).map(|b| f & (1 << b) != 0));
                if f & 0x80 != 0 {
                    hard += 1
                } else {
                    soft += 1
                }
            } else {
                let f = c.of(&[true, false]);
                bits.push(f);
                if f {
                    hard += 1
                } else {
                    soft += 1
                }
            }
        }
        for i in &l {
            w.ri32(*i);
        }
        for word in bits.chunks(32) {
            let mut x = 0u32;
            for (i, b) in word.iter().enumerate() {
                x |= (*b as u32) << i;
            }
            w.ri32(x as i32);
        }
        (hard, soft, bits)
    };
    let (h, s, pf) = flagged(w, c, 8);
    let names = subset(c, n);
    w.ri32(names.len() as i32);
    names.iter().for_each(|i| w.ri32(*i));
    let (mh, ms, mf) = flagged(w, c, 1);
    let refs = subset(c, n);
    w.ri32(refs.len() as i32);
    refs.iter().for_each(|i| w.ri32(*i));
    for x in [h, s, names.len() as i64, mh, ms, refs.len() as i64] {
        w.toks.push(Tok::I(x));
    }
    for (f, width) in [(pf, 8), (mf, 1)] {
        // which flags belong to which dependency is compared through the written bytes
        let mut sets: Vec<String> = f.chunks(width).map(|s| s.iter().map(|b| if *b { '1' } else { '0' }).collect()).collect();
        sets.sort();
        w.toks.push(Tok::S(Some(sets.join(","))));
    }
}
fn package(w: &mut W, c: &mut Ch, r: RV, i: usize) {
    w.t("package");
    nm(w, c, i);
    let x = c.of(&[1234i64, 0, -1, i64::MAX]);
    w.i64(x);
    let g = c.of(&[[3u8; 16], [0; 16], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255]]);
    w.guid(g);
    if r.reg >= R_COOKED_HASH {
        let has = c.pick(2) == 0;
        w.ri32(has as i32);
        if has {
            let h = c.of(&[[9u8; 16], [0; 16], [255; 16]]);
            w.guid(h);
        } else {
            w.t("no hash");
        }
    }
    if r.reg >= R_WORKSPACE {
        let x = c.of(&[522, 0, -1]);
        w.i32(x);
        if r.reg >= R_SUMMARY {
            let x = c.of(&[1004, 0, -7]);
            w.i32(x);
        }
        let x = c.of(&[-1, 5]);
        w.i32(x);
        let x = c.of(&[0u32, 1, u32::MAX]);
        w.u32(x);
        let n = c.of(&[1usize, 0, 2]);
        w.i32(n as i32);
        for k in 0..n {
            w.guid(if k == 0 { [0x86, 0x18, 0x1d, 0x60, 0x84, 0x4f, 0x64, 0xac, 0xde, 0xd3, 0x16, 0xaa, 0xd6, 0xc7, 0xea, 0x0d] } else { [8; 16] });
            let x = c.of(&[21, 0, -3]);
            w.i32(x);
        }
    }
    if r.reg >= R_CLASSES {
        let n = c.of(&[1usize, 0, 2]);
        w.i32(n as i32);
        for k in 0..n {
            nm(w, c, k + i);
        }
    }
}
fn extra_asset(w: &mut W, r: RV, names: &[&str; 5]) {
    w.t("asset");
    for (i, n) in names.iter().enumerate() {
        if i == 2 && r.reg >= R_CLASS_PATHS {
            w.name("/Script/Engine", 0);
        }
        w.name(n, 0);
    }
    w.i32(2);
    w.name("NewTag", 0);
    w.str(Some("x"));
    w.name("TagA", 0);
    w.str(None);
    w.i32(1);
    w.i32(11);
    w.u32(0x8000_0000);
}
const EXTRA: [&str; 5] = ["/Game/New.New", "/Game", "Thing", "/Game/New", "New"];
/// what an edit does: nothing, append an asset, drop the first
#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    None,
    Append,
    DropAll,
    Gap(usize),
}
impl Edit {
    fn gap(self) -> usize {
        match self {
            Edit::Gap(n) => n,
            _ => 0,
        }
    }
}
fn content(w: &mut W, c: &mut Ch, r: RV, e: Edit) {
    let na = c.of(&[1usize, 0, 2]);
    let at = w.b.len();
    w.ri32(0);
    let mut count = na;
    for i in 0..na {
        let (b, t) = (w.b.len(), w.toks.len());
        asset(w, c, r, i);
        if e == Edit::DropAll {
            w.b.truncate(b);
            w.toks.truncate(t);
            count -= 1;
        }
    }
    if e == Edit::Append {
        extra_asset(w, r, &EXTRA);
        count += 1;
    }
    w.set_i32(at, count as i32);
    let nn = c.of(&[2usize, 0, 1, 3]);
    let sect = w.b.len();
    if r.reg >= R_FLAGS {
        w.ri64(0);
    }
    w.ri32(nn as i32);
    for _ in 0..nn {
        node(w, c, r, nn);
    }
    if r.reg >= R_FLAGS {
        // data of a later engine behind the nodes is skipped by the size of the section
        for _ in 0..e.gap() {
            w.b.push(0xa5);
        }
        let size = (w.b.len() - sect - 8) as i32;
        w.set_i32(sect, size);
    }
    let np = c.of(&[1usize, 0, 2]);
    w.ri32(np as i32);
    for i in 0..np {
        package(w, c, r, i);
    }
}
fn file(r: RV, c: &mut Ch, e: Edit, names: &NamesRef) -> (Vec<u8>, Vec<Tok>) {
    let v = Ver::versioned(r.obj, 0, &[]);
    let mut w = W::new(names, &v);
    for x in [0x717F9EE7u32, 0xE9B0493A, 0x88B39132, 0x1B388107] {
        w.b.extend(x.to_le_bytes());
    }
    w.ri32(r.reg);
    if r.reg < R_FIXED_TAGS {
        w.ri64(0);
    }
    content(&mut w, c, r, e);
    if r.reg < R_FIXED_TAGS {
        let off = w.b.len() as i32;
        w.set_i32(NAMES_OFFSET_AT, off);
        let l = names.borrow().list.clone();
        w.ri32(l.len() as i32);
        for s in &l {
            put_fstring(&mut w.b, Some(s));
            if r.obj >= V_NAME_HASH {
                w.b.extend(generate_hash(s).to_le_bytes());
            }
        }
    }
    (w.b, w.toks)
}
fn frozen(l: Vec<String>) -> NamesRef {
    let n: NamesRef = Default::default();
    n.borrow_mut().list = l;
    n.borrow_mut().frozen = true;
    n
}
fn collect(r: RV, c: &Ch) -> (Vec<String>, Ch) {
    let names: NamesRef = Default::default();
    let mut c = c.clone();
    file(r, &mut c, Edit::None, &names);
    let l = names.borrow().list.clone();
    (l, c)
}
fn read(bytes: &[u8], r: RV, names: &[String]) -> Result<AssetRegistryState, String> {
    let obj = ObjectVersion::try_from(r.obj).unwrap();
    let b = bytes.to_vec();
    let names = names.to_vec();
    match guard(move || {
        let mut nm = NameMap::new();
        if r.reg >= R_FIXED_TAGS {
            for n in names {
                nm.get_mut().add_name_reference(n, true);
            }
        }
        let mut raw: RawReader<PackageIndex, Cursor<Vec<u8>>> = RawReader::new(Chain::new(Cursor::new(b), None), obj, ObjectVersionUE5::UNKNOWN, false, nm);
        AssetRegistryState::new(&mut raw)
    }) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
fn write(s: &AssetRegistryState) -> Result<Vec<u8>, String> {
    match guard(|| {
        let mut o = Cursor::new(vec![]);
        s.write(&mut o).map(|_| o.into_inner())
    }) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
fn walk(s: &AssetRegistryState, r: RV) -> Vec<Tok> {
    let mut o = vec![];
    let int = |x: i64| Tok::I(x);
    for a in &s.assets_data {
        o.push(Tok::T("asset".into()));
        o.push(fname(&a.object_path));
        o.push(fname(&a.package_path));
        match (&a.asset_class, &a.asset_path) {
            (Some(c), None) => o.push(fname(c)),
            (None, Some(p)) => o.extend([fname(&p.package_name), fname(&p.asset_name)]),
            _ => o.push(Tok::T("class and path".into())),
        }
        o.push(fname(&a.package_name));
        o.push(fname(&a.asset_name));
        o.push(int(a.tags_and_values.len() as i64));
        for (_, k, v) in &a.tags_and_values {
            o.push(fname(k));
            o.push(Tok::S(v.clone()));
        }
        o.push(int(a.chunk_ids.len() as i64));
        o.extend(a.chunk_ids.iter().map(|x| int(*x as i64)));
        o.push(int(a.package_flags.bits() as i64));
    }
    for n in &s.depends_nodes {
        o.push(Tok::T("node".into()));
        let AssetIdentifier { package_name, primary_asset_type, object_name, value_name } = &n.identifier;
        for f in [package_name, primary_asset_type, object_name, value_name] {
            o.push(f.as_ref().map(fname).unwrap_or(Tok::T("-".into())));
        }
        for l in [&n.hard_dependencies, &n.soft_dependencies, &n.name_dependencies, &n.hard_manage_dependencies, &n.soft_manage_dependencies, &n.referencers] {
            o.push(int(l.len() as i64));
        }
        for (f, width) in [(&n.package_flags, 8), (&n.manage_flags, 1)] {
            o.push(Tok::S(f.as_ref().map(|f| {
                let bits: Vec<bool> = f.iter().by_vals().collect();
                let mut sets: Vec<String> = bits.chunks(width).map(|s| s.iter().map(|b| if *b { '1' } else { '0' }).collect()).collect();
                sets.sort();
                sets.join(",")
            })));
        }
    }
    for p in &s.package_data {
        o.push(Tok::T("package".into()));
        o.push(fname(&p.package_name));
        o.push(int(p.disk_size));
        o.push(Tok::G(p.package_guid.0.to_vec()));
        if let Some(h) = &p.cooked_hash {
            o.push(h.hash.map(|h| Tok::G(h.to_vec())).unwrap_or(Tok::T("no hash".into())));
        }
        if r.reg >= R_WORKSPACE {
            o.push(int(p.file_version as i64));
            if let Some(v) = p.ue5_version {
                o.push(int(v as i64));
            }
            o.push(int(p.file_version_licensee_ue as i64));
            o.push(int(p.flags as i64));
        }
        if let Some(l) = &p.custom_versions {
            o.push(int(l.len() as i64));
            for c in l {
                o.push(Tok::G(c.guid.0.to_vec()));
                o.push(int(c.version as i64));
            }
        }
        if let Some(l) = &p.imported_classes {
            o.push(int(l.len() as i64));
            o.extend(l.iter().map(fname));
        }
    }
    o
}
fn diff_toks(got: &[Tok], want: &[Tok]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let s = i.saturating_sub(4);
    Some(format!("item {i}: read ..{:?}, the file holds ..{:?}", &got[s.min(got.len())..(i + 3).min(got.len())], &want[s.min(want.len())..(i + 3).min(want.len())]))
}
fn judge(r: RV, c: &Ch, names: &[String]) -> Option<String> {
    let (bytes, toks) = file(r, &mut c.clone(), Edit::None, &frozen(names.to_vec()));
    let s = match read(&bytes, r, names) {
        Ok(s) => s,
        Err(e) => return Some(format!("reading failed: {e}\nfile: {}", hex(&bytes))),
    };
    if s.get_version() as i32 != r.reg {
        return Some(format!("version {}", s.get_version()));
    }
    if let Some(d) = diff_toks(&walk(&s, r), &toks) {
        return Some(format!("content: {d}"));
    }
    match write(&s) {
        Err(e) => Some(format!("writing failed: {e}")),
        Ok(w) if w != bytes => Some(format!("unchanged save differs: {}", mc::uasset::first_diff(&w, &bytes))),
        _ => None,
    }
}
/// A dependency section with more data than is understood: everything behind it is still found.
fn gap(r: RV, c: &Ch, names: &[String]) -> Option<String> {
    for n in [1, 4, 9] {
        let (bytes, toks) = file(r, &mut c.clone(), Edit::Gap(n), &frozen(names.to_vec()));
        let s = match read(&bytes, r, names) {
            Ok(s) => s,
            Err(e) => return Some(format!("reading with {n} more bytes in the dependency section failed: {e}")),
        };
        if let Some(d) = diff_toks(&walk(&s, r), &toks) {
            return Some(format!("{n} more bytes in the dependency section: {d}"));
        }
    }
    None
}
/// Edit and save: what is in the file is what was asked for.
fn edited(r: RV, c: &Ch, names: &[String], e: Edit) -> Option<String> {
    let (bytes, _) = file(r, &mut c.clone(), Edit::None, &frozen(names.to_vec()));
    let mut s = match read(&bytes, r, names) {
        Ok(s) => s,
        Err(e) => return Some(format!("reading failed: {e}")),
    };
    let mut names = names.to_vec();
    match e {
        Edit::DropAll => s.assets_data.clear(),
        Edit::Append => {
            let map = match s.assets_data.first() {
                Some(a) => match &a.object_path {
                    FName::Backed { name_map, .. } => name_map.clone(),
                    _ => return None,
                },
                None => return None,
            };
            let mut add = |n: &str| {
                let i = s.add_fname(n);
                if !names.iter().any(|x| x == n) {
                    names.push(n.to_string());
                }
                let f = map.get_ref().create_fname(i, 0);
                f
            };
            let l: Vec<FName> = EXTRA.iter().map(|n| add(n)).collect();
            let mut tags = IndexedMap::new();
            tags.insert(add("NewTag"), Some("x".to_string()));
            tags.insert(add("TagA"), None);
            let v = s.get_version();
            s.assets_data.push(AssetData::from_data(l[0].clone(), l[3].clone(), l[1].clone(), l[4].clone(), Some(l[2].clone()), None::<TopLevelAssetPath>, tags, AssetBundleData::default(), vec![11], EPackageFlags::from_bits(0x8000_0000).unwrap(), v));
        }
        _ => {}
    }
    let w = match write(&s) {
        Err(e) => return Some(format!("writing after {e:?} failed: {e}")),
        Ok(w) => w,
    };
    let fr = frozen(names.clone());
    let (want, _) = file(r, &mut c.clone(), e, &fr);
    if !fr.borrow().missing.is_empty() {
        return Some(format!("names {:?} are missing from {names:?}", fr.borrow().missing));
    }
    if w != want {
        return Some(format!("save after {e:?} differs: {}", mc::uasset::first_diff(&w, &want)));
    }
    None
}
// ---- damaged registries ------------------------------------------------------------------------
fn damage(ctx: &Ctx, rvs: &[RV]) {
    let mut cases: Vec<(RV, Vec<u8>, Vec<String>, String)> = vec![];
    for r in rvs {
        for script in [vec![], vec![0u16; 0]] {
            let c = Ch::new(&script);
            let (names, _) = collect(*r, &c);
            let (b, _) = file(*r, &mut c.clone(), Edit::None, &frozen(names.clone()));
            for n in 0..b.len() {
                cases.push((*r, b[..n].to_vec(), names.clone(), format!("cut to {n} bytes")));
            }
            for at in 0..b.len() {
                for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                    if b[at] != x {
                        let mut d = b.clone();
                        d[at] = x;
                        cases.push((*r, d, names.clone(), format!("byte {at} = {x}")));
                    }
                }
            }
            for at in 0..b.len().saturating_sub(3) {
                for x in [i32::MAX, i32::MIN, -1, 0x1000_0000] {
                    let mut d = b.clone();
                    d[at..at + 4].copy_from_slice(&x.to_le_bytes());
                    cases.push((*r, d, names.clone(), format!("word at {at} = {x}")));
                }
            }
        }
        if !ctx.thorough() {
            continue;
        }
        let (names, _) = collect(*r, &Ch::new(&[2]));
        let (b, _) = file(*r, &mut Ch::new(&[2]), Edit::None, &frozen(names.clone()));
        for at in 0..b.len() {
            for x in 0..=255u8 {
                let mut d = b.clone();
                d[at] = x;
                cases.push((*r, d, names.clone(), format!("byte {at} = {x}")));
            }
        }
    }
    isolated(
        ctx,
        cases.len(),
        |i| {
            let (r, b, names, what) = &cases[i];
            ctx.state();
            ctx.step(1);
            match read(b, *r, names) {
                Err(e) if e.starts_with("error:") => {
                    ctx.outcome("damaged: refused");
                    None
                }
                Err(e) => Some((format!("damaged registry v{}", r.reg), format!("{r:?} {what}: {e}\nfile: {}", hex(b)))),
                Ok(s) => {
                    ctx.outcome("damaged: still readable");
                    ctx.step(1);
                    match write(&s) {
                        Err(e) if !e.starts_with("error:") => Some((format!("damaged registry v{}", r.reg), format!("{r:?} {what}: write {e}"))),
                        _ => None,
                    }
                }
            }
        },
        |i| (format!("damaged registry v{}", cases[i].0.reg), format!("{:?} {}", cases[i].0, cases[i].3)),
    );
}
// ---- the tag store -----------------------------------------------------------------------------
fn store_bytes(c: &mut Ch) -> (Vec<u8>, Vec<Tok>) {
    let v = Ver::versioned(522, 0, &[]);
    let mut w = W::new(&frozen(NM.iter().map(|x| x.0.to_string()).collect()), &v);
    let first = c.pick(2) == 0;
    let cnt: Vec<usize> = (0..7).map(|_| c.of(&[1usize, 0, 2])).collect();
    let strs = ["plain", "", "x", "tail"];
    let wides = ["wïde", "", "名前", "\u{1F600}z", "\u{100}\u{2000}"];
    let texts = [Some("NSLOCTEXT(a)"), None, Some("ü")];
    let pick_a: Vec<&str> = (0..cnt[5]).map(|i| strs[(i + c.pick(strs.len())) % strs.len()]).collect();
    let pick_w: Vec<&str> = (0..cnt[6]).map(|i| wides[(i + c.pick(wides.len())) % wides.len()]).collect();
    let (mut ab, mut ao, mut wb, mut wo): (Vec<u8>, Vec<i32>, Vec<u16>, Vec<i32>) = Default::default();
    for s in &pick_a {
        ao.push(ab.len() as i32);
        ab.extend(s.as_bytes());
        ab.push(0);
    }
    for s in &pick_w {
        wo.push(wb.len() as i32);
        wb.extend(s.encode_utf16());
        wb.push(0);
    }
    let pairs = (c.of(&[1usize, 0, 2]), c.of(&[1usize, 0, 2]));
    w.b.extend(if first { 0x12345679u32 } else { 0x12345678 }.to_le_bytes());
    for x in [cnt[0], cnt[1], cnt[2], cnt[3], cnt[4], ao.len(), wo.len(), ab.len(), wb.len(), pairs.0, pairs.1] {
        w.ri32(x as i32);
    }
    let mut tt = vec![];
    let mut tb = vec![];
    for i in 0..cnt[4] {
        let s = texts[(i + c.pick(texts.len())) % texts.len()];
        put_fstring(&mut tb, s);
        tt.push(Tok::S(s.map(|x| x.to_string())));
    }
    if first {
        w.ri32(tb.len() as i32);
        w.b.extend(&tb);
    }
    let u = |c: &mut Ch| c.of(&[3u32, 0, u32::MAX]);
    for _ in 0..cnt[0] {
        let x = u(c);
        w.u32(x);
    }
    for i in 0..cnt[1] {
        nm(&mut w, c, i);
    }
    for _ in 0..cnt[2] * 3 {
        let x = u(c);
        w.u32(x);
    }
    for i in 0..cnt[3] * 3 {
        nm(&mut w, c, i);
    }
    if !first {
        w.b.extend(&tb);
    }
    w.toks.extend(tt);
    ao.iter().chain(&wo).for_each(|x| w.ri32(*x));
    w.b.extend(&ab);
    wb.iter().for_each(|x| w.b.extend(x.to_le_bytes()));
    w.toks.extend(pick_a.iter().chain(&pick_w).map(|s| Tok::S(Some(s.to_string()))));
    let id = |w: &mut W, c: &mut Ch| {
        let ty = c.pick(7) as u32;
        let ix = c.of(&[0u32, 1, (1 << 29) - 1]);
        w.ri32(((ix << 3) | ty) as i32);
        w.toks.push(Tok::I(ty as i64));
        w.toks.push(Tok::I(ix as i64));
    };
    for _ in 0..pairs.0 {
        let x = u(c);
        w.u32(x);
        id(&mut w, c);
    }
    for i in 0..pairs.1 {
        nm(&mut w, c, i);
        id(&mut w, c);
    }
    w.ri32(0x87654321u32 as i32);
    (w.b, w.toks)
}
fn read_store(b: &[u8]) -> Result<(Vec<Tok>, u64), String> {
    let b = b.to_vec();
    match guard(move || {
        let mut nmap = NameMap::new();
        for n in NM {
            nmap.get_mut().add_name_reference(n.0.to_string(), true);
        }
        let mut raw: RawReader<PackageIndex, Cursor<Vec<u8>>> = RawReader::new(Chain::new(Cursor::new(b), None), ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::UNKNOWN, false, nmap);
        let s = Store::new(&mut raw)?;
        let mut o = vec![];
        let u = |x: u32| Tok::I(x as i64);
        o.extend(s.numberless_names.iter().map(|x| u(*x)));
        o.extend(s.names.iter().map(fname));
        for p in &s.numberless_export_paths {
            o.extend([u(p.class), u(p.object), u(p.package)]);
        }
        for p in &s.export_paths {
            o.extend([fname(&p.class), fname(&p.object), fname(&p.package)]);
        }
        o.extend(s.texts.iter().map(|t| Tok::S(t.clone())));
        o.extend(s.ansi_strings.iter().chain(&s.wide_strings).map(|t| Tok::S(Some(t.clone()))));
        let id = |o: &mut Vec<Tok>, v: ValueId| {
            o.push(Tok::I(u32::from(v.value_type) as i64));
            o.push(Tok::I(v.index as i64));
        };
        for p in s.numberless_pairs {
            o.push(u(p.key));
            id(&mut o, p.value);
        }
        for p in s.pairs {
            o.push(fname(&p.key));
            id(&mut o, p.value);
        }
        let pos = unreal_asset_base::reader::ArchiveTrait::<PackageIndex>::position(&mut raw);
        Ok::<_, unreal_asset_base::Error>((o, pos))
    }) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
fn store(ctx: &Ctx) {
    
    deviations(ctx.pick(3, 4), &mut |c| {
        let script = c.clone();
        let (b, toks) = store_bytes(c);
        ctx.state();
        ctx.step(1);
        let d = match read_store(&b) {
            Err(e) => Some(format!("reading failed: {e}")),
            Ok((t, pos)) => diff_toks(&t, &toks).or((pos != b.len() as u64).then(|| format!("stopped at {pos} of {}", b.len()))),
        };
        if let Some(d) = d {
            ctx.violation("tag store", format!("choices {:?}: {d}\nstore: {}", script.script, hex(&b)));
            return false;
        }
        true
    });
    let (b, _) = store_bytes(&mut Ch::new(&[]));
    let mut cases = vec![];
    for n in 0..b.len() {
        cases.push(b[..n].to_vec());
    }
    for at in 0..b.len() {
        for x in [0u8, 1, 2, 0x7f, 0x80, 0xfe, 0xff] {
            let mut d = b.clone();
            d[at] = x;
            cases.push(d);
        }
        for x in [i32::MAX, i32::MIN, -1, 0x1000_0000] {
            if at + 4 <= b.len() {
                let mut d = b.clone();
                d[at..at + 4].copy_from_slice(&x.to_le_bytes());
                cases.push(d);
            }
        }
    }
    isolated(
        ctx,
        cases.len(),
        |i| {
            ctx.state();
            ctx.step(1);
            match read_store(&cases[i]) {
                Err(e) if !e.starts_with("error:") => Some(("damaged tag store".into(), format!("{e}\n{}", hex(&cases[i])))),
                _ => None,
            }
        },
        |i| ("damaged tag store".into(), hex(&cases[i])),
    );
}
fn run(ctx: &Ctx) {
    let mut rvs = vec![];
    for reg in [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14] {
        for obj in [503, 522] {
            if reg < R_FIXED_TAGS || obj == 522 {
                rvs.push(RV { reg, obj });
            }
        }
    }
    let k = ctx.pick(3, 4);
    ctx.bound(format!("registry versions 4..14 x name tables with and without hashes; 0..2 assets, 0..3 nodes with all dependency subsets and flag sets, 0..2 packages; at most {k} fields different from the default registry; edits: append, clear; every truncation and byte/word damage of a typical registry; tag stores with at most {k} deviations"));
    ctx.assume("from FixedTags on the layout is the one the library reads (loose tags, names of the surrounding archive)");
    let _ = DependsNode::new(0, unreal_asset_base::custom_version::FAssetRegistryVersionType::FixedTags);
    store(ctx);
    damage(ctx, &rvs);
    par_for(rvs.len(), |i| {
        let r = rvs[i];
        deviations(k, &mut |c| {
            let script = c.clone();
            let (names, used) = collect(r, c);
            *c = used;
            ctx.state();
            ctx.step(2);
            ctx.trace();
            let mut d = judge(r, &script, &names);
            if d.is_none() {
                let mut l: Vec<String> = names.iter().rev().cloned().collect();
                l.insert(0, "Unused".into());
                l.push("Thing".into());
                d = judge(r, &script, &l).map(|d| format!("other name order: {d}"));
            }
            if d.is_none() {
                d = edited(r, &script, &names, Edit::DropAll);
            }
            if d.is_none() && r.reg >= R_FLAGS {
                d = gap(r, &script, &names);
            }
            if d.is_none() && r.reg < R_FIXED_TAGS {
                d = edited(r, &script, &names, Edit::Append);
            }
            if let Some(d) = d {
                ctx.violation(&format!("registry v{}", r.reg), format!("{r:?} choices {:?}: {d}", script.script));
                return false;
            }
            !ctx.stopped()
        });
        ctx.outcome("registry version");
    });
}
fn main() {
    mc::core::main(&[("P17", run)])
}
