//! P34: packages opened together with a mapping file.
use crate::{exports as ex, properties as pr, versions as vn};
use mc::core::*;
use mc::exports::*;
use mc::iso::*;
use mc::pkg::*;
use mc::props::{impossible, Ty, Ty::*, LEAVES};
use mc::uasset::*;
use std::io::Cursor;
use unreal_asset::asset_archive_writer::AssetArchiveWriter;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::{ArchiveTrait, RawWriter};
use unreal_asset_base::types::PackageIndex;
use unreal_asset_base::unversioned::header::UnversionedHeader;
use unreal_asset_base::unversioned::Usmap;

/// A type as a mapping file declares it.
#[derive(Clone, Debug)]
enum M {
    Leaf(u8),
    Array(Box<M>),
    Set(Box<M>),
    Map(Box<M>, Box<M>),
    Struct(String),
    Enum(Box<M>, String),
}
const CODES: [&str; 28] = [
    "Byte", "Bool", "Int", "Float", "Object", "Name", "Delegate", "Double", "Array", "Struct", "Str", "Text", "Interface", "MulticastDelegate", "WeakObject", "LazyObject", "AssetObject", "SoftObject", "UInt64", "UInt32", "UInt16", "Int64",
    "Int16", "Int8", "Map", "Set", "Enum", "FieldPath",
];
fn declared(t: &Ty) -> M {
    match t {
        P("EnumProperty") => M::Enum(Box::new(M::Leaf(0)), "EEnum".into()),
        P(s) => {
            let s = s.trim_end_matches("Property").replace("MulticastSparse", "Multicast").replace("MulticastInline", "Multicast");
            M::Leaf(CODES.iter().position(|c| *c == s).map(|i| i as u8).unwrap_or(0xff))
        }
        S(s) | L(s, _) => M::Struct(s.to_string()),
        Arr(e) => M::Array(Box::new(declared(e))),
        Set(e) => M::Set(Box::new(declared(e))),
        Map(k, v) => M::Map(Box::new(declared(k)), Box::new(declared(v))),
    }
}
/// Schemas of the tagged structs a shape consists of.
fn schemas_of(t: &Ty, o: &mut Vec<Schema>) {
    match t {
        P(_) | S(_) => (),
        L(s, i) => {
            o.push(Schema::new(s, "", vec![("Inner", declared(i))]));
            schemas_of(i, o)
        }
        Arr(e) | Set(e) => schemas_of(e, o),
        Map(k, v) => {
            schemas_of(k, o);
            schemas_of(v, o)
        }
    }
}
#[derive(Clone, Debug)]
struct Schema {
    name: String,
    sup: String,
    count: u16,
    /// (number, array size, name, type)
    props: Vec<(u16, u8, String, M)>,
}
impl Schema {
    fn new(name: &str, sup: &str, props: Vec<(&str, M)>) -> Schema {
        Schema { name: name.into(), sup: sup.into(), count: props.len() as u16, props: props.into_iter().enumerate().map(|(i, (n, t))| (i as u16, 1, n.to_string(), t)).collect() }
    }
}
#[derive(Clone, Debug, Default)]
struct Mapping {
    versions: Option<(i32, i32, Vec<(G4, i32)>)>,
    enums: Vec<(String, Vec<String>)>,
    schemas: Vec<Schema>,
}
impl Mapping {
    fn bytes(&self) -> Vec<u8> {
        let mut names: Vec<String> = vec![];
        let mut o: Vec<u8> = vec![];
        fn id(o: &mut Vec<u8>, n: &mut Vec<String>, s: &str) {
            let i = n.iter().position(|x| x == s).unwrap_or_else(|| {
                n.push(s.into());
                n.len() - 1
            });
            o.extend((i as i32).to_le_bytes());
        }
        fn ty(o: &mut Vec<u8>, n: &mut Vec<String>, t: &M) {
            match t {
                M::Leaf(c) => o.push(*c),
                M::Array(e) => {
                    o.push(8);
                    ty(o, n, e)
                }
                M::Set(e) => {
                    o.push(25);
                    ty(o, n, e)
                }
                M::Map(k, v) => {
                    o.push(24);
                    ty(o, n, k);
                    ty(o, n, v)
                }
                M::Struct(s) => {
                    o.push(9);
                    id(o, n, s)
                }
                M::Enum(e, s) => {
                    o.push(26);
                    ty(o, n, e);
                    id(o, n, s)
                }
            }
        }
        o.extend((self.enums.len() as u32).to_le_bytes());
        for (e, vs) in &self.enums {
            id(&mut o, &mut names, e);
            o.push(vs.len() as u8);
            vs.iter().for_each(|v| id(&mut o, &mut names, v));
        }
        o.extend((self.schemas.len() as u32).to_le_bytes());
        for s in &self.schemas {
            id(&mut o, &mut names, &s.name);
            id(&mut o, &mut names, &s.sup);
            o.extend(s.count.to_le_bytes());
            o.extend((s.props.len() as u16).to_le_bytes());
            for (i, a, n, t) in &s.props {
                o.extend(i.to_le_bytes());
                o.push(*a);
                id(&mut o, &mut names, n);
                ty(&mut o, &mut names, t);
            }
        }
        let mut body = (names.len() as u32).to_le_bytes().to_vec();
        for n in &names {
            body.push(n.len() as u8 + 1);
            body.extend(n.bytes());
        }
        body.extend(o);
        let mut f = vec![0x30u8, 0xc4, self.versions.is_some() as u8];
        if let Some((a, b, cv)) = &self.versions {
            f.push(1);
            f.extend(a.to_le_bytes());
            f.extend(b.to_le_bytes());
            f.extend((cv.len() as i32).to_le_bytes());
            for (g, n) in cv {
                g.iter().for_each(|x| f.extend(x.to_le_bytes()));
                f.extend(n.to_le_bytes());
            }
            f.extend(0u32.to_le_bytes());
        }
        f.push(0);
        f.extend((body.len() as u32).to_le_bytes());
        f.extend((body.len() as u32).to_le_bytes());
        f.extend(body);
        f
    }
    fn load(&self) -> Usmap {
        Usmap::new(Cursor::new(self.bytes())).expect("mapping")
    }
}

const CLASS: &str = "SomeClass";
fn odd() -> M {
    M::Map(Box::new(M::Struct("Guid".into())), Box::new(M::Struct("Vector".into())))
}
/// Mappings a package with this property can meet: (what, mapping)
fn placements(name: &str, t: &Ty, needed: bool) -> Vec<(&'static str, Mapping)> {
    let mut inner = vec![];
    schemas_of(t, &mut inner);
    let decl = declared(t);
    let int = M::Leaf(2);
    let mut o = vec![];
    let mut push = |what, s: Vec<Schema>, rest: &[Schema]| o.push((what, Mapping { schemas: s.into_iter().chain(rest.iter().cloned()).collect(), enums: vec![("EEnum".into(), vec!["A".into()])], ..Default::default() }));
    push("own", vec![Schema::new(CLASS, "Base", vec![("Before", int.clone()), (name, decl.clone()), ("After", int.clone())])], &inner);
    push("inherited", vec![Schema::new(CLASS, "Mid", vec![("After", int.clone())]), Schema::new("Mid", "Base", vec![]), Schema::new("Base", "", vec![("X", int.clone()), (name, decl.clone())])], &inner);
    push("hidden", vec![Schema::new(CLASS, "Base", vec![(name, decl.clone())]), Schema::new("Base", "", vec![(name, odd()), ("Inner", odd())]), Schema::new("Other", CLASS, vec![(name, odd()), ("Inner", odd())])], &inner);
    if !needed {
        push("empty", vec![], &[]);
        let wrong: Vec<Schema> = inner.iter().map(|s| Schema::new(&s.name, CLASS, vec![("Inner", odd())])).collect();
        push("wrong", vec![Schema::new(CLASS, CLASS, vec![(name, odd()), ("After", odd()), ("Inner", odd())])], &wrong);
    }
    o
}
/// Does reading this need the mapping (a struct type which the file does not record)?
fn mapped_shapes() -> Vec<Ty> {
    let b = |t: &Ty| Box::new(t.clone());
    let mut m = vec![];
    let keys = [S("Guid"), S("MovieSceneTrackIdentifier"), S("MovieSceneSequenceID"), S("NiagaraVariable"), S("Vector"), S("IntPoint")];
    for k in &keys {
        m.push(Map(b(k), b(&P("IntProperty"))));
        m.push(Map(b(k), b(&S("MyStruct"))));
        m.push(Map(b(k), b(&S("LinearColor"))));
    }
    for l in LEAVES {
        m.push(Map(b(&P("NameProperty")), b(&S(l))));
    }
    let mut o = m.clone();
    for t in &m {
        o.push(L("Outer", b(t)));
        o.push(Arr(b(&L("Outer", b(t)))));
        o.push(Map(b(&P("NameProperty")), b(&L("Held", b(t)))));
        o.push(L("Outer", b(&L("Middle", b(t)))));
    }
    o
}
fn over_map(t: &Ty) -> bool {
    pr::uses(t, &|t| matches!(t, Map(k, v) if matches!(**k, S(_) | L(..)) || matches!(**v, S(_) | L(..))))
}
struct Job {
    name: &'static str,
    t: Ty,
    lenient: bool,
    needed: bool,
    v: Ver,
    k: usize,
    /// versions named by the mapping
    versions: Option<(i32, i32, Vec<(G4, i32)>)>,
}
fn read(ctx: &Ctx, jobs: &[Job]) {
    par_for(jobs.len(), |i| {
        let j = &jobs[i];
        if ctx.stopped() {
            return;
        }
        for (what, mut m) in placements(j.name, &j.t, j.needed) {
            if what == "wrong" && over_map(&j.t) {
                continue;
            }
            m.versions = j.versions.clone();
            let u = m.bytes();
            deviations(j.k, &mut |c| {
                let script = c.clone();
                let mut last = c.clone();
                let (f, p) = build(&j.v, &Table::Natural, &mut |n| {
                    last = script.clone();
                    pr::describe(&j.v, j.name, &j.t, &mut last, n)
                })
                .unwrap();
                *c = last;
                ctx.state();
                ctx.step(2);
                ctx.trace();
                let map = Usmap::new(Cursor::new(u.clone())).expect("mapping");
                if let Some(d) = pr::judge_opened(parse_mapped(&f.asset, f.uexp.as_deref(), j.v.engine, Some(map)), &f, &p, &j.v, j.lenient) {
                    ctx.violation(&format!("{}:{:?}", j.name, j.t), format!("{d}\n{} mapping {what}, choices {:?}, versions of the mapping {:?}\nexport data: {}", j.v.tag(), script.script, j.versions, hex(&p.exports[0].body)));
                    return false;
                }
                !ctx.stopped()
            });
            ctx.outcome(what);
        }
    });
}

/// An object with unversioned properties: fragments (skip, values, zeros) and a mask of zero values.
#[derive(Clone, Debug)]
struct Head {
    frags: Vec<(u8, u8, bool)>,
    mask: u8,
}
impl Head {
    fn masked(&self) -> usize {
        self.frags.iter().filter(|f| f.2).map(|f| f.1 as usize).sum()
    }
    fn mask_bytes(&self) -> Vec<u8> {
        let n = self.masked();
        let len = match n {
            0 => 0,
            1..=8 => 1,
            9..=16 => 2,
            _ => n.div_ceil(32) * 4,
        };
        (0..len).map(|i| if self.mask == 0x5a { 0x5a ^ (i as u8).wrapping_mul(29) } else { self.mask }).collect()
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for (i, (s, n, z)) in self.frags.iter().enumerate() {
            let w = *s as u16 | (*z as u16) << 7 | ((i + 1 == self.frags.len()) as u16) << 8 | (*n as u16) << 9;
            o.extend(w.to_le_bytes());
        }
        o.extend(self.mask_bytes());
        o
    }
    fn fits_mask(&self) -> bool {
        // the bits behind the last value are clear
        let (n, m) = (self.masked(), self.mask_bytes());
        (n..m.len() * 8).all(|i| m[i / 8] & (1 << (i % 8)) == 0)
    }
}
fn heads(n: usize) -> Vec<Head> {
    let mut frags = vec![];
    for s in [0u8, 1, 3, 126, 127] {
        for v in [0u8, 1, 2, 8, 9, 127] {
            frags.push((s, v, false));
            frags.push((s, v, true));
        }
    }
    let mut lists: Vec<Vec<(u8, u8, bool)>> = frags.iter().map(|f| vec![*f]).collect();
    for a in &frags {
        for b in &frags {
            lists.push(vec![*a, *b]);
            if n > 2 {
                frags.iter().for_each(|c| lists.push(vec![*a, *b, *c]));
            } else {
                [(0, 1, false), (127, 127, true), (1, 0, false)].iter().for_each(|c| lists.push(vec![*a, *b, *c]));
            }
        }
    }
    // objects with very many properties
    for k in [4usize, 10, 300, 600] {
        lists.push(vec![(127, 127, true); k]);
        lists.push(vec![(0, 127, false); k]);
        lists.push(vec![(127, 0, false); k]);
    }
    let mut o = vec![];
    for l in lists {
        for mask in [0u8, 0xff, 0x5a, 1] {
            let h = Head { frags: l.clone(), mask };
            if h.masked() == 0 && mask != 0 {
                continue;
            }
            o.push(h);
        }
    }
    o
}
/// Headers are read exactly and written back.
fn headers(ctx: &Ctx) {
    let v = Ver::versioned(522, 0, &CV_LATEST);
    let hs = heads(ctx.pick(2, 3));
    par_for(hs.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let h = &hs[i];
        ctx.state();
        ctx.step(2);
        ctx.trace();
        let b = h.bytes();
        let mut file = b.clone();
        file.extend([0xee; 5]);
        let r = guard(|| -> Result<(), String> {
            // a reader over a package whose flags declare unversioned properties, with the header behind the package
            let open = |flags: u32, tail: &[u8]| {
                let (f, _) = build(&v, &Table::Natural, &mut |n| Pkg { flags, ..object(&v, &[0, 1], n) }).unwrap();
                let mut uexp = f.uexp.clone().unwrap();
                let at = (f.asset.len() + uexp.len()) as u64;
                uexp.extend(tail);
                let mut a = parse_mapped(&f.asset, Some(&uexp), v.engine, None)?;
                std::io::Seek::seek(&mut a, std::io::SeekFrom::Start(at)).map_err(|e| e.to_string())?;
                Ok::<_, String>((a, at))
            };
            let (mut rd, from) = open(0, &file)?;
            if UnversionedHeader::new(&mut rd).map_err(|e| e.to_string())?.is_some() || rd.position() != from {
                return Err("a header where properties are not unversioned".into());
            }
            let (mut rd, from) = open(0x2000, &file)?;
            let x = UnversionedHeader::new(&mut rd).map_err(|e| e.to_string())?.ok_or("no header")?;
            let at = rd.position() - from;
            if at != b.len() as u64 {
                return Err(format!("stopped at {at} of {}", b.len()));
            }
            let mut first = 0i64;
            let mut want = vec![];
            for (k, (s, n, z)) in h.frags.iter().enumerate() {
                first += *s as i64;
                want.push((*s as i64, *n as i64, first, k + 1 == h.frags.len(), *z));
                first += *n as i64;
            }
            let got: Vec<_> = x.fragments.iter().map(|f| (i64::from(f.skip_num), i64::from(f.value_num), i64::from(f.first_num), f.is_last, f.has_zeros)).collect();
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("fragment {k}: {:?} instead of {:?}", got.get(k), want.get(k)));
            }
            if x.unversioned_property_index as i64 != want[0].2 {
                return Err(format!("starts at property {} instead of {}", x.unversioned_property_index, want[0].2));
            }
            let n = h.masked();
            let m = h.mask_bytes();
            if x.zero_mask.len() < n || (0..n).any(|i| x.zero_mask[i] != (m[i / 8] & (1 << (i % 8)) != 0)) {
                return Err("the zero mask differs".into());
            }
            if h.fits_mask() || n == m.len() * 8 {
                let some = h.frags.iter().any(|f| !f.2 && f.1 > 0) || (0..n).any(|i| m[i / 8] & (1 << (i % 8)) == 0);
                if n == m.len() * 8 && x.has_non_zero_values != some {
                    return Err(format!("has_non_zero_values is {}", x.has_non_zero_values));
                }
                if some && !x.has_non_zero_values {
                    return Err("values in the file are taken for zeros".into());
                }
            }
            let mut out = Cursor::new(vec![]);
            {
                let names = rd.get_name_map();
                let mut w = RawWriter::<PackageIndex, _>::new(&mut out, ObjectVersion::try_from(522).unwrap(), ObjectVersionUE5::UNKNOWN, true, names.clone());
                let mut w = AssetArchiveWriter::new(&mut w, &rd.asset_data, &rd.imports, names);
                x.write(&mut w).map_err(|e| e.to_string())?;
            }
            if out.get_ref() != &b {
                return Err(format!("written as {} instead of {}", hex(out.get_ref()), hex(&b)));
            }
            // cut short: an error
            for cut in 0..b.len().min(40) {
                let (mut rd, _) = open(0x2000, &b[..cut])?;
                if UnversionedHeader::new(&mut rd).is_ok() {
                    return Err(format!("cut to {cut} bytes it is still read"));
                }
            }
            Ok(())
        });
        let r = r.unwrap_or_else(Err);
        if let Err(e) = r {
            ctx.violation("header", format!("{h:?}\nbytes {}: {e}", hex(&b)));
        }
        ctx.outcome("header");
    });
}

fn leaf(n: &str) -> M {
    M::Leaf(CODES.iter().position(|c| *c == n).unwrap() as u8)
}
/// Mappings for objects with unversioned properties, from well-formed to hostile.
fn hostile() -> Vec<(String, Option<Mapping>)> {
    let mut o: Vec<(String, Option<Mapping>)> = vec![("none".into(), None), ("empty".into(), Some(Mapping::default()))];
    let enums = vec![("E".to_string(), vec!["E::A".to_string(), "E::B".to_string()])];
    let st = |s: &str| M::Struct(s.into());
    let mut types: Vec<M> = (0..28u8).filter(|c| ![8, 9, 24, 25, 26].contains(c)).chain([0xff]).map(M::Leaf).collect();
    types.extend(LEAVES.iter().map(|l| st(l)));
    types.extend([st("Rec"), st("Nowhere"), M::Enum(Box::new(leaf("Byte")), "E".into()), M::Enum(Box::new(leaf("Int")), "E".into()), M::Enum(Box::new(leaf("Byte")), "NoEnum".into())]);
    for t in types.clone() {
        types.push(M::Array(Box::new(t.clone())));
        types.push(M::Set(Box::new(t.clone())));
        types.push(M::Map(Box::new(leaf("Name")), Box::new(t.clone())));
        types.push(M::Map(Box::new(t), Box::new(leaf("Int"))));
    }
    for t in types {
        let rec = Schema::new("Rec", "", vec![("Prop", st("Rec")), ("Inner", t.clone())]);
        let props: Vec<(&str, M)> = ["A", "B", "C", "D"].iter().map(|n| (*n, t.clone())).collect();
        o.push((format!("{t:?}"), Some(Mapping { enums: enums.clone(), schemas: vec![Schema::new(CLASS, "Base", props), Schema::new("Base", "", vec![("Z", leaf("Int"))]), rec], ..Default::default() })));
    }
    let int = || leaf("Int");
    // relations between schemas
    for (count, props) in [(0u16, 0u16), (1, 0), (1, 1), (2, 1), (1, 3), (500, 2)] {
        for sup in [CLASS, "Base", ""] {
            for first in [0u16, 1] {
                let s = Schema { name: CLASS.into(), sup: sup.into(), count, props: (0..props).map(|i| (i + first, 1, format!("P{i}"), int())).collect() };
                let b = Schema { name: "Base".into(), sup: CLASS.into(), count, props: (0..props).map(|i| (i, 3, format!("Q{i}"), int())).collect() };
                o.push((format!("{count} properties, {props} listed from {first}, super {sup}"), Some(Mapping { schemas: vec![s, b], ..Default::default() })));
            }
        }
    }
    o
}
fn payloads() -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = vec![vec![]];
    for n in [3usize, 16, 60] {
        o.push(vec![0; n]);
        o.push(vec![0xff; n]);
        o.push((0..n as u8).collect());
        // plausible: small counts and names, then lengths without end
        o.push([1, 0, 0, 0, 0, 0, 0, 0].iter().cycle().take(n).copied().collect());
        o.push([0xff, 0xff, 0xff, 0x7f].iter().cycle().take(n).copied().collect());
        o.push([0, 0, 0, 0, 0xff, 0xff, 0xff, 0x7f].iter().cycle().take(n).copied().collect());
        o.push([1, 3].iter().cycle().take(n).copied().collect());
    }
    o
}
fn object(v: &Ver, body: &[u8], n: &NamesRef) -> Pkg {
    let mut w = W::new(n, v);
    w.rname("/Game/Path", 0);
    w.rname("None", 0);
    w.b.clear();
    let e = Exp { class: -2, name: ("Export".into(), 0), flags: 1, body: body.to_vec(), ..Default::default() };
    Pkg { uexp: v.obj >= V_PRELOAD, flags: 0x2000, imports: vec![imp("/Script/CoreUObject", "Package", 0, "/Script/Engine"), imp("/Script/CoreUObject", "Class", -1, CLASS)], depends: Some(vec![vec![]]), exports: vec![e], ..Default::default() }
}
fn unversioned(ctx: &Ctx) {
    let l = &CV_LATEST;
    let vs = [Ver::versioned(522, 0, l), Ver::versioned(522, 1009, l), vn::unversioned(29)];
    let vs = &vs[..ctx.pick(2, 3)];
    let (maps, pays) = (hostile(), payloads());
    let maps: Vec<(String, Option<Vec<u8>>)> = maps.into_iter().map(|(w, m)| (w, m.map(|m| m.bytes()))).collect();
    let hs: Vec<Head> = heads(2).into_iter().filter(|h| h.frags.len() <= ctx.pick(1, 2) && h.frags.iter().all(|f| [0, 1, 127].contains(&f.0) && [0, 1, 2, 127].contains(&f.1)) && h.mask != 1).chain([Head { frags: vec![(0, 1, false), (1, 0, false)], mask: 0 }, Head { frags: vec![(0, 0, false), (0, 4, false)], mask: 0 }, Head { frags: vec![(127, 127, true); 5], mask: 0x5a }]).collect();
    let mut bodies: Vec<Vec<u8>> = vec![];
    for h in &hs {
        for p in &pays {
            bodies.push([h.bytes(), p.clone()].concat());
        }
    }
    // the packages of all kinds of exports, declared to be unversioned
    let kinds = Kind::all();
    let per = bodies.len() + kinds.len();
    let n = vs.len() * maps.len() * per;
    let what = |i: usize| {
        let (v, m, b) = (&vs[i % vs.len()], &maps[i / vs.len() % maps.len()], i / vs.len() / maps.len());
        (v, m, b)
    };
    let file = |v: &Ver, b: usize| match bodies.get(b) {
        Some(x) => Some(build(v, &Table::Natural, &mut |n| object(v, x, n)).unwrap().0),
        None => {
            let kind = &kinds[b - bodies.len()];
            if matches!(kind, Kind::DataTable(s) if impossible(v, s)) {
                return None;
            }
            Some(
                build(v, &Table::Natural, &mut |n| {
                    let mut p = ex::describe(v, kind, kind.classes()[0], Quirk::No, &mut Ch::new(&[]), n);
                    p.flags |= 0x2000;
                    p
                })
                .unwrap()
                .0,
            )
        }
    };
    let tell = |i: usize| {
        let (v, m, b) = what(i);
        (format!("unversioned {}", m.0), format!("{} mapping {}, object {}", v.tag(), m.0, bodies.get(b).map(|b| hex(b)).unwrap_or_else(|| format!("{:?}", kinds[b - bodies.len()]))))
    };
    isolated(
        ctx,
        n,
        |i| {
            let (v, m, b) = what(i);
            let f = file(v, b)?;
            ctx.state();
            ctx.step(2);
            ctx.trace();
            let map = m.1.as_ref().map(|b| Usmap::new(Cursor::new(b.clone())).expect("mapping"));
            let r = match parse_mapped(&f.asset, f.uexp.as_deref(), v.engine, map) {
                Err(e) => Some(format!("reading failed: {e}")),
                Ok(a) => {
                    if table_of(&a) != f.names {
                        Some(format!("reading changed the name table: {:?} -> {:?}", f.names, table_of(&a)))
                    } else {
                        match write(&a) {
                            Err(e) => Some(format!("writing failed: {e}")),
                            Ok(w) => diff_files(&w, &f).map(|d| format!("unchanged save differs: {d}")),
                        }
                    }
                }
            };
            ctx.outcome("unversioned");
            r.map(|r| {
                let (k, d) = tell(i);
                (k, format!("{d}: {r}"))
            })
        },
        tell,
    );
}
pub fn run(ctx: &Ctx) {
    let mut jobs = vec![];
    let vs = pr::versions();
    let latest = CV_LATEST.to_vec();
    for v in &vs {
        for t in mapped_shapes() {
            if pr::uses(&t, &|t| matches!(t, S(s) if impossible(v, s))) || v.obj < V_INNER_TAG && pr::uses(&t, &|t| matches!(t, Arr(_))) {
                continue;
            }
            let k = if pr::big(&t) { ctx.pick(0, 1) } else { ctx.pick(1, 2) };
            jobs.push(Job { name: "Prop", t, lenient: false, needed: true, v: v.clone(), k, versions: Some((522, v.ue5, latest.clone())) });
        }
        for (name, t, lenient) in pr::shapes() {
            if pr::skip(v, name, &t) {
                continue;
            }
            jobs.push(Job { name, t, lenient, needed: false, v: v.clone(), k: ctx.pick(0, 1), versions: None });
        }
    }
    // what an unversioned package does not say is taken from the mapping
    let shapes: Vec<_> = pr::shapes().into_iter().filter(|s| matches!(s.1, P(_) | S(_) | Arr(_))).collect();
    for e in 2..=32 {
        let base = vn::unversioned(e);
        for (g, n) in CV_ALL {
            for x in [n - 1, n] {
                let mut v = base.clone();
                v.cv.retain(|c| c.0 != g);
                v.cv.push((g, x));
                for (name, t, lenient) in &shapes {
                    if !pr::skip(&v, name, t) && (ctx.thorough() || matches!(t, P(_) | S(_))) && (e >= 20 || ctx.thorough()) {
                        jobs.push(Job { name, t: t.clone(), lenient: *lenient, needed: true, v: v.clone(), k: 0, versions: Some((base.obj, base.ue5, vec![(g, x)])) });
                    }
                }
            }
        }
    }
    for ue5 in [1000, 1001, 1003, 1004, 1006, 1008, 1009] {
        let mut v = vn::unversioned(29);
        (v.ue5, v.legacy) = (ue5, -8);
        for (name, t, lenient) in &shapes {
            if !pr::skip(&v, name, t) {
                jobs.push(Job { name, t: t.clone(), lenient: *lenient, needed: true, v: v.clone(), k: 0, versions: Some((522, ue5, vec![])) });
            }
        }
    }
    // what a package says itself counts, whatever the mapping says
    for ue5 in [1000, 1001, 1004, 1009] {
        let v = Ver::versioned(522, ue5, &latest);
        for (obj, other) in [(522, 1009), (504, 1001), (0, 1000)] {
            for (name, t, lenient) in shapes.iter().filter(|s| other != ue5 && matches!(s.1, P(_) | S(_))) {
                if !pr::skip(&v, name, t) {
                    jobs.push(Job { name, t: t.clone(), lenient: *lenient, needed: false, v: v.clone(), k: 0, versions: Some((obj, other, vec![])) });
                }
            }
        }
    }
    ctx.bound(format!("headers of up to 3 of 60 fragments with 4 masks, and of 4 to 600 equal fragments; packages that declare unversioned properties: {} headers x all payloads and all export kinds, x all damaged and contradicting mappings, x {} versions", ctx.pick("1 fragment", "1-2 fragment"), ctx.pick(2, 3)));
    ctx.assume("the types a mapping declares for structs in maps are the real ones; the properties of objects with unversioned properties only have to be kept and saved unchanged, which is all the library supports");
    ctx.bound(format!("{} combinations of property shape, file version and versions named by the mapping, each with up to 5 mappings (own, inherited, hidden, empty, contradicting)", jobs.len()));
    read(ctx, &jobs);
    headers(ctx);
    unversioned(ctx);
}
