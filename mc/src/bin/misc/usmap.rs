//! P16: mapping files (.usmap): what a file says is what is loaded and looked up.
use mc::core::*;
use mc::pkg::{deviations, Ch, CORE, FORTNITE, G4};
use std::collections::BTreeMap;
use std::io::{Cursor, Write};
use unreal_asset_base::custom_version::CustomVersion;
use unreal_asset_base::types::FName;
use unreal_asset_base::unversioned::properties::{EPropertyType, UsmapProperty, UsmapPropertyData, UsmapPropertyDataTrait};
use unreal_asset_base::unversioned::{Ancestry, EUsmapCompressionMethod, EUsmapVersion, Usmap};

const LONG: &str = "LongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongLongxy";
const NAMES: [&str; 12] = ["Root", "Mid", "Leaf", "a", "b", "c", "E0", "E1", "v", "", "é字", LONG];
const NOWHERE: usize = 9; // the super type of a schema without one

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Leaf(u8),
    Array(Box<Ty>),
    Set(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(usize),
    Enum(Box<Ty>, usize),
}
const T: [&str; 28] = [
    "Byte", "Bool", "Int", "Float", "Object", "Name", "Delegate", "Double", "Array", "Struct", "Str", "Text", "Interface", "MulticastDelegate", "WeakObject", "LazyObject", "AssetObject", "SoftObject", "UInt64", "UInt32", "UInt16", "Int64",
    "Int16", "Int8", "Map", "Set", "Enum", "FieldPath",
];
fn leaf_codes() -> Vec<u8> {
    (0..28u8).filter(|c| ![8, 9, 24, 25, 26].contains(c)).chain([0xff]).collect()
}
fn type_name(c: u8) -> String {
    if c == 0xff {
        "Unknown".into()
    } else {
        format!("{}Property", T[c as usize])
    }
}
impl Ty {
    fn put(&self, o: &mut Vec<u8>, base: usize) {
        match self {
            Ty::Leaf(c) => o.push(*c),
            Ty::Array(t) => {
                o.push(8);
                t.put(o, base)
            }
            Ty::Set(t) => {
                o.push(25);
                t.put(o, base)
            }
            Ty::Map(k, v) => {
                o.push(24);
                k.put(o, base);
                v.put(o, base)
            }
            Ty::Struct(n) => {
                o.push(9);
                o.extend(((base + n) as i32).to_le_bytes())
            }
            Ty::Enum(t, n) => {
                o.push(26);
                t.put(o, base);
                o.extend(((base + n) as i32).to_le_bytes())
            }
        }
    }
    fn text(&self) -> String {
        match self {
            Ty::Leaf(c) => type_name(*c),
            Ty::Array(t) => format!("ArrayProperty({})", t.text()),
            Ty::Set(t) => format!("SetProperty({})", t.text()),
            Ty::Map(k, v) => format!("MapProperty({},{})", k.text(), v.text()),
            Ty::Struct(n) => format!("StructProperty({})", NAMES[*n]),
            Ty::Enum(t, n) => format!("EnumProperty({},{})", t.text(), NAMES[*n]),
        }
    }
}
fn data_text(d: &UsmapPropertyData) -> String {
    let t = d.get_property_type();
    let n = t.to_string();
    match d {
        UsmapPropertyData::UsmapArrayPropertyData(x) => format!("{n}({})", data_text(&x.inner_type)),
        UsmapPropertyData::UsmapSetPropertyData(x) => format!("{n}({})", data_text(&x.inner_type)),
        UsmapPropertyData::UsmapMapPropertyData(x) => format!("{n}({},{})", data_text(&x.inner_type), data_text(&x.value_type)),
        UsmapPropertyData::UsmapStructPropertyData(x) => format!("{n}({})", x.struct_type),
        UsmapPropertyData::UsmapEnumPropertyData(x) => format!("{n}({},{})", data_text(&x.inner_property), x.name),
        UsmapPropertyData::UsmapShallowPropertyData(x) => {
            if x.property_type != t {
                return format!("{n} and {}", x.property_type);
            }
            n
        }
    }
}

#[derive(Clone, Debug)]
struct Prop {
    index: u16,
    array: u8,
    name: usize,
    ty: Ty,
}
#[derive(Clone, Debug)]
struct Schema {
    name: usize,
    sup: usize,
    count: u16,
    props: Vec<Prop>,
}
#[derive(Clone, Debug)]
struct File {
    version: u8,
    versioning: Option<(i32, i32, Vec<(G4, i32)>, u32)>,
    comp: u8,
    pad: usize, // names before the used ones
    enums: Vec<(usize, Vec<usize>)>,
    schemas: Vec<Schema>,
    ext: Option<(u32, Vec<Option<String>>, Vec<usize>)>,
}
fn fstr(o: &mut Vec<u8>, s: &Option<String>) {
    match s {
        None => o.extend(0i32.to_le_bytes()),
        Some(s) if s.is_ascii() => {
            o.extend((s.len() as i32 + 1).to_le_bytes());
            o.extend(s.bytes());
            o.push(0);
        }
        Some(s) => {
            let u: Vec<u16> = s.encode_utf16().collect();
            o.extend((-(u.len() as i32) - 1).to_le_bytes());
            u.iter().for_each(|x| o.extend(x.to_le_bytes()));
            o.extend([0, 0]);
        }
    }
}
impl File {
    fn names(&self) -> Vec<String> {
        (0..self.pad).map(|i| format!("p{i}")).chain(NAMES.iter().map(|s| s.to_string())).collect()
    }
    fn body(&self) -> (Vec<u8>, usize) {
        let mut o = vec![];
        let n = self.names();
        o.extend((n.len() as u32).to_le_bytes());
        for s in n {
            o.push(s.len() as u8 + 1);
            o.extend(s.bytes());
        }
        let id = |o: &mut Vec<u8>, i: usize| o.extend(((i + self.pad) as i32).to_le_bytes());
        o.extend((self.enums.len() as u32).to_le_bytes());
        for (n, vs) in &self.enums {
            id(&mut o, *n);
            o.push(vs.len() as u8);
            vs.iter().for_each(|v| id(&mut o, *v));
        }
        o.extend((self.schemas.len() as u32).to_le_bytes());
        for s in &self.schemas {
            id(&mut o, s.name);
            id(&mut o, s.sup);
            o.extend(s.count.to_le_bytes());
            o.extend((s.props.len() as u16).to_le_bytes());
            for p in &s.props {
                o.extend(p.index.to_le_bytes());
                o.push(p.array);
                id(&mut o, p.name);
                p.ty.put(&mut o, self.pad);
            }
        }
        let end = o.len();
        if let Some((f, paths, of)) = &self.ext {
            o.extend(f.to_le_bytes());
            if f & 1 != 0 {
                o.extend((paths.len() as u16).to_le_bytes());
                paths.iter().for_each(|p| fstr(&mut o, p));
                for i in of {
                    if paths.len() > 255 {
                        o.extend((*i as u16).to_le_bytes());
                    } else {
                        o.push(*i as u8);
                    }
                }
            }
        }
        (o, end)
    }
    fn wrap(&self, body: &[u8]) -> Vec<u8> {
        let mut o = vec![0x30u8, 0xc4];
        o.push(self.version);
        if self.version >= 1 {
            o.push(self.versioning.is_some() as u8);
            if let Some((a, b, cv, cl)) = &self.versioning {
                o.extend(a.to_le_bytes());
                o.extend(b.to_le_bytes());
                o.extend((cv.len() as i32).to_le_bytes());
                for (g, v) in cv {
                    g.iter().for_each(|x| o.extend(x.to_le_bytes()));
                    o.extend(v.to_le_bytes());
                }
                o.extend(cl.to_le_bytes());
            }
        }
        o.push(self.comp);
        let c = match self.comp {
            2 => {
                let mut c = vec![];
                brotli::BrotliCompress(&mut Cursor::new(body), &mut c, &brotli::enc::BrotliEncoderParams::default()).unwrap();
                c
            }
            3 => {
                let mut e = zstd::stream::Encoder::new(vec![], 1).unwrap();
                e.write_all(body).unwrap();
                e.finish().unwrap()
            }
            _ => body.to_vec(),
        };
        o.extend((c.len() as u32).to_le_bytes());
        o.extend((body.len() as u32).to_le_bytes());
        o.extend(c);
        o
    }
    fn bytes(&self) -> Vec<u8> {
        self.wrap(&self.body().0)
    }
    /// An array that reaches past the last possible property number.
    fn impossible(&self) -> bool {
        self.schemas.iter().any(|s| s.props.iter().any(|p| p.index as usize + p.array as usize > 65536))
    }
    fn text(&self) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        m.insert("version".into(), self.version.to_string());
        let none = (0, 0, vec![], 0);
        let (a, b, cv, cl) = match &self.versioning {
            Some(v) if self.version >= 1 => v,
            _ => &none,
        };
        m.insert("versions".into(), format!("{a} {b} {cl}"));
        m.insert("custom".into(), cv.iter().map(|(g, v)| format!("{:?}", CustomVersion::new((g[0], g[1], g[2], g[3]).into(), *v))).collect::<Vec<_>>().join(" "));
        m.insert("compression".into(), self.comp.to_string());
        m.insert("names".into(), self.names().join("|"));
        m.insert("enums".into(), self.enums.iter().map(|(n, v)| format!("{}={}", NAMES[*n], v.iter().map(|x| NAMES[*x]).collect::<Vec<_>>().join("|"))).collect::<Vec<_>>().join(";"));
        let ext = self.ext.as_ref();
        m.insert("extension".into(), ext.map_or(0, |e| e.0).to_string());
        for (i, s) in self.schemas.iter().enumerate() {
            let path = ext.filter(|e| e.0 & 1 != 0).map(|e| e.1[e.2[i]].clone().unwrap_or_default());
            m.insert(format!("schema {i}"), format!("{} : {} count {} path {path:?}", NAMES[s.name], NAMES[s.sup], s.count));
            m.insert(format!("schema {i} properties"), s.expanded().iter().map(|(p, k, at)| format!("{}[{k}/{}]@{at} {}", NAMES[p.name], p.array, p.ty.text())).collect::<Vec<_>>().join("; "));
        }
        m
    }
}
impl Schema {
    /// every element of every property: (property, element, number)
    fn expanded(&self) -> Vec<(&Prop, u16, u16)> {
        self.props.iter().flat_map(|p| (0..p.array as u16).map(move |k| (p, k, p.index + k))).collect()
    }
}
fn loaded(u: &Usmap) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    m.insert("version".into(), u8::from(u.version).to_string());
    m.insert("versions".into(), format!("{} {} {}", u.object_version as i32, u.object_version_ue5 as i32, u.net_cl));
    m.insert("custom".into(), u.custom_versions.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(" "));
    m.insert("compression".into(), u8::from(u.compression_method).to_string());
    m.insert("names".into(), u.name_map.join("|"));
    m.insert("enums".into(), u.enum_map.iter().map(|(_, n, v)| format!("{n}={}", v.join("|"))).collect::<Vec<_>>().join(";"));
    m.insert("extension".into(), u.extension_version.bits().to_string());
    for (i, k, s) in u.schemas.iter() {
        let other = if k == &s.name { String::new() } else { format!("(filed under {k}) ") };
        m.insert(format!("schema {i}"), format!("{other}{} : {} count {} path {:?}", s.name, s.super_type, s.prop_count, s.module_path));
        m.insert(format!("schema {i} properties"), s.properties.values().map(|p| format!("{}[{}/{}]@{} {}", p.name, p.array_index, p.array_size, p.schema_index, data_text(&p.property_data))).collect::<Vec<_>>().join("; "));
    }
    m
}

/// What a lookup finds: schema, element and the number counted from the most derived schema.
fn find(f: &File, name: &str, chain: &[&str], dup: u32) -> Option<String> {
    let parent = chain.last()?;
    let mut at = f.schemas.iter().position(|s| NAMES[s.name] == *parent);
    let mut before = 0u32;
    let mut seen = vec![];
    while let Some(i) = at {
        if seen.contains(&i) {
            break;
        }
        seen.push(i);
        let s = &f.schemas[i];
        if let Some((p, k, n)) = s.expanded().into_iter().find(|(p, k, _)| NAMES[p.name] == name && *k as u32 == dup) {
            return Some(format!("{}[{k}]@{n} {} global {}", NAMES[p.name], p.ty.text(), before + n as u32));
        }
        before += s.count as u32;
        at = f.schemas.iter().position(|x| x.name == s.sup);
    }
    find(f, parent, &chain[..chain.len() - 1], dup)
}
fn shown(p: &UsmapProperty, g: u32) -> String {
    format!("{}[{}]@{} {} global {g}", p.name, p.array_index, p.schema_index, data_text(&p.property_data))
}

fn lookups(ctx: &Ctx, f: &File, u: &Usmap) -> Result<(), String> {
    let fname = |s: &str| FName::new_dummy(s.to_string(), 0);
    for s in &f.schemas {
        let (mut all, mut at, mut seen) = (vec![], Some(s), vec![]);
        while let Some(x) = at {
            if seen.contains(&x.name) {
                break;
            }
            seen.push(x.name);
            all.extend(x.expanded().iter().map(|(p, k, n)| format!("{}[{k}]@{n}", NAMES[p.name])));
            at = f.schemas.iter().find(|y| y.name == x.sup);
        }
        let got: Vec<String> = u.get_all_properties(NAMES[s.name]).iter().map(|p| format!("{}[{}]@{}", p.name, p.array_index, p.schema_index)).collect();
        if got != all {
            return Err(format!("all properties of {}: {got:?}, the file says {all:?}", NAMES[s.name]));
        }
        let own = u.schemas.get_by_key(NAMES[s.name]).ok_or("schema lost")?;
        for name in ["a", "b", "c"] {
            for dup in 0..4 {
                let e = s.expanded().into_iter().find(|(p, k, _)| NAMES[p.name] == name && *k as u32 == dup).map(|(_, k, n)| (k, n));
                let g = own.get_property(name, dup).map(|p| (p.array_index, p.schema_index));
                if g != e {
                    return Err(format!("element {dup} of {name} in {}: {g:?}, the file says {e:?}", NAMES[s.name]));
                }
            }
        }
    }
    let chains: [&[&str]; 8] = [&[], &["Root"], &["Leaf"], &["Mid"], &["Root", "a"], &["Leaf", "b"], &["Nope"], &["Root", "a", "0"]];
    for chain in chains {
        let mut anc = Ancestry::default();
        chain.iter().for_each(|c| anc = anc.with_parent(fname(c)));
        for name in ["a", "b", "c", "0", "Root"] {
            for dup in 0..3 {
                ctx.step(1);
                let e = find(f, name, chain, dup);
                let g = u.get_property_with_duplication_index(&fname(name), &anc, dup).map(|(p, g)| shown(p, g));
                if g != e {
                    return Err(format!("element {dup} of {name} below {chain:?}: {g:?}, the file says {e:?}"));
                }
                if dup == 0 {
                    let cut = |s: Option<String>| s.map(|s| s[..s.rfind(" global").unwrap()].to_string());
                    let g = u.get_property(&fname(name), &anc).map(|p| shown(p, 0));
                    if cut(g.clone()) != cut(e.clone()) {
                        return Err(format!("{name} below {chain:?}: {g:?}, the file says {e:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn judge(ctx: &Ctx, f: &File) -> Option<String> {
    let b = f.bytes();
    ctx.state();
    ctx.trace();
    let r = guard(|| -> Result<(), String> {
        let u = match Usmap::new(Cursor::new(b.clone())) {
            Ok(u) => u,
            Err(_) if f.impossible() => return Ok(()),
            Err(e) => return Err(format!("refused: {e}")),
        };
        if f.impossible() {
            return Err("an array that reaches past the last property number is accepted".into());
        }
        let (e, g) = (f.text(), loaded(&u));
        for k in e.keys().chain(g.keys()) {
            if e.get(k) != g.get(k) {
                return Err(format!("{k}: loaded {:?}, the file says {:?}", g.get(k), e.get(k)));
            }
        }
        lookups(ctx, f, &u)?;
        let again = Usmap::new(Cursor::new(b.clone())).map_err(|e| e.to_string())?;
        if again != u {
            return Err("a second load differs".into());
        }
        // an object that has already been used for another file
        let mut used = Usmap::new(Cursor::new(plain().bytes())).map_err(|e| e.to_string())?;
        used.parse_data(Cursor::new(b.clone())).map_err(|e| e.to_string())?;
        for k in ["names", "enums", "schema 0", "schema 0 properties"] {
            if loaded(&used).get(k) != g.get(k) {
                return Err(format!("{k} after another file: {:?}, expected {:?}", loaded(&used).get(k), g.get(k)));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) | Err(m) => Some(m),
    }
}
fn plain() -> File {
    File {
        version: 0,
        versioning: None,
        comp: 0,
        pad: 0,
        enums: vec![(6, vec![8, 3])],
        schemas: vec![
            Schema { name: 2, sup: 1, count: 3, props: vec![Prop { index: 0, array: 1, name: 3, ty: Ty::Leaf(2) }, Prop { index: 1, array: 2, name: 4, ty: Ty::Array(Box::new(Ty::Struct(0))) }] },
            Schema { name: 1, sup: 0, count: 1, props: vec![Prop { index: 0, array: 1, name: 4, ty: Ty::Enum(Box::new(Ty::Leaf(0)), 6) }] },
            Schema { name: 0, sup: NOWHERE, count: 2, props: vec![Prop { index: 1, array: 1, name: 5, ty: Ty::Map(Box::new(Ty::Leaf(5)), Box::new(Ty::Leaf(3))) }] },
        ],
        ext: None,
    }
}
fn ty(c: &mut Ch, depth: usize) -> Ty {
    let k = c.pick(if depth == 0 { 3 } else { 7 });
    match k {
        0 => Ty::Leaf(2),
        1 => Ty::Leaf(c.of(&leaf_codes())),
        2 => Ty::Struct(c.of(&[0, 10])),
        3 => Ty::Array(Box::new(ty(c, depth - 1))),
        4 => Ty::Set(Box::new(ty(c, depth - 1))),
        5 => Ty::Enum(Box::new(ty(c, depth - 1)), c.of(&[6, 7])),
        _ => Ty::Map(Box::new(ty(c, depth - 1)), Box::new(ty(c, depth - 1))),
    }
}
fn gen(c: &mut Ch) -> File {
    let version = c.pick(2) as u8;
    let versioning = if version == 1 && c.pick(2) == 1 {
        let cvs = match c.pick(3) {
            0 => vec![],
            1 => vec![(CORE, 3)],
            _ => vec![(FORTNITE, -1), ([1, 2, 3, 4], i32::MAX)],
        };
        Some((c.of(&[522, 0, 214, 518]), c.of(&[0, 1000, 1008]), cvs, c.of(&[0, 1, u32::MAX])))
    } else {
        None
    };
    let comp = c.of(&[0u8, 2, 3]);
    let pad = c.of(&[0usize, 1, 300]);
    let mut enums = vec![];
    for n in 0..c.of(&[1, 0, 2]) {
        enums.push((6 + n, c.of(&[vec![8, 3], vec![], vec![8], vec![3, 3, 10], (0..255).map(|i| i % 12).collect()])));
    }
    let mut schemas = vec![];
    let n = c.of(&[2, 0, 1, 3]);
    for i in 0..n {
        // Leaf, Mid, Root; the parent may come before or after, be missing or lead back
        let name = [2, 1, 0][i];
        let sup = c.of(&[[1, 0, NOWHERE][i], NOWHERE, 11, 2, 0]);
        let count = c.of(&[2u16, 0, 1, 5, 65535]);
        let mut props = vec![];
        for j in 0..c.of(&[1, 0, 2, 3]) {
            props.push(Prop { index: c.of(&[j as u16, 0, 7, 255, 256, 65534, 65535]), array: c.of(&[1, 0, 2, 3, 255]), name: c.of(&[[3, 4, 5][j], 3, 10, 11, 9]), ty: ty(c, 2) });
        }
        // the same element of the same property twice is not a mapping
        let mut keys: Vec<_> = vec![];
        props.retain(|p: &Prop| {
            let k = NAMES[p.name];
            let fresh = !keys.contains(&k);
            keys.push(k);
            fresh
        });
        schemas.push(Schema { name, sup, count, props });
    }
    let ext = match c.pick(5) {
        0 => None,
        1 => Some((0, vec![], vec![])),
        2 => Some((1, vec![Some("/Script/Engine".into()), None, Some("é".into())], (0..n).map(|_| c.pick(3)).collect())),
        3 => Some((1, (0..255).map(|i| Some(format!("m{i}"))).collect(), (0..n).map(|_| c.of(&[254, 0, 128])).collect())),
        _ => Some((1, (0..300).map(|i| Some(format!("m{i}"))).collect(), (0..n).map(|_| c.of(&[299, 255, 256, 1])).collect())),
    };
    File { version, versioning, comp, pad, enums, schemas, ext }
}
/// S0 derives from S1 and so on; every schema i has the property p<i> and counts i % 3 + 1 properties.
fn long_chain(ctx: &Ctx, n: usize, back: Option<usize>, turned: bool) -> Option<String> {
    let mut o = vec![];
    o.extend((2 * n as u32 + 1).to_le_bytes());
    for s in (0..n).map(|i| format!("S{i}")).chain((0..n).map(|i| format!("p{i}"))).chain([String::new()]) {
        o.push(s.len() as u8 + 1);
        o.extend(s.bytes());
    }
    o.extend(0u32.to_le_bytes());
    o.extend((n as u32).to_le_bytes());
    for k in 0..n {
        let i = if turned { n - 1 - k } else { k };
        let sup = if i + 1 < n { i + 1 } else { back.unwrap_or(2 * n) };
        o.extend((i as i32).to_le_bytes());
        o.extend((sup as i32).to_le_bytes());
        o.extend((i as u16 % 3 + 1).to_le_bytes());
        o.extend(1u16.to_le_bytes());
        o.extend(0u16.to_le_bytes());
        o.push(1);
        o.extend(((n + i) as i32).to_le_bytes());
        o.push(2);
    }
    let b = plain().wrap(&o);
    ctx.state();
    ctx.trace();
    let fname = |s: String| FName::new_dummy(s, 0);
    guard(|| -> Option<String> {
        let u = match Usmap::new(Cursor::new(b)) {
            Ok(u) => u,
            Err(e) => return Some(format!("refused: {e}")),
        };
        for from in 0..n {
            // the way up from here, once round a cycle
            let mut way: Vec<usize> = (from..n).collect();
            if let Some(b) = back {
                way.extend((b..n).filter(|i| *i < from));
            }
            let got: Vec<String> = u.get_all_properties(&format!("S{from}")).iter().map(|p| p.name.clone()).collect();
            let exp: Vec<String> = way.iter().map(|i| format!("p{i}")).collect();
            if got != exp {
                return Some(format!("S{from} has {} properties, not {}", got.len(), exp.len()));
            }
            let anc = Ancestry::new(fname(format!("S{from}")));
            let step = if n > 40 { 7 } else { 1 };
            for to in (0..n).step_by(step) {
                ctx.step(1);
                let e = way.iter().position(|i| *i == to).map(|k| way[..k].iter().map(|i| *i as u32 % 3 + 1).sum::<u32>());
                let g = u.get_property_with_duplication_index(&fname(format!("p{to}")), &anc, 0).map(|(_, g)| g);
                if g != e || u.get_property(&fname(format!("p{to}")), &anc).is_some() != e.is_some() {
                    return Some(format!("p{to} below S{from} is at {g:?}, not {e:?}"));
                }
            }
        }
        None
    })
    .unwrap_or_else(Some)
}
fn all_types(depth: usize, leaves: &[Ty]) -> Vec<Ty> {
    let mut v = leaves.to_vec();
    if depth > 0 {
        let inner = all_types(depth - 1, leaves);
        for t in &inner {
            v.push(Ty::Array(Box::new(t.clone())));
            v.push(Ty::Set(Box::new(t.clone())));
            v.push(Ty::Enum(Box::new(t.clone()), 7));
            for u in &inner {
                v.push(Ty::Map(Box::new(t.clone()), Box::new(u.clone())));
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    let k = ctx.pick(3, 4);
    ctx.bound(format!("mapping files of both versions with every combination of at most {k} unusual choices among version block, custom versions, compression (none, brotli, zstandard), name maps of 12/13/312 names, enums of 0/1/2/3/255 values, 0..3 schemas in an inheritance chain (missing, later, earlier, cyclic parents), 0..3 properties, property numbers and static array sizes up to their limits, inheritance chains of 1..40, 64, 128, 256 and 300 schemas, types nested to depth 2, module paths (3, 255, 300); all types of depth 1 over 25 leaves and of depth 2 over 3 leaves; every lookup of 5 names below 8 ancestries; every truncation and every byte replacement by 8 values of 4 files"));
    ctx.assume("two schemas, enums or elements with the same name in one file are not decided; version numbers 2 and 3 are reserved; Oodle is not built in");
    let mut script: Vec<File> = vec![];
    deviations(k, &mut |c| {
        script.push(gen(c));
        if script.len() == 20000 {
            sweep(ctx, &script);
            script.clear();
        }
        !ctx.stopped()
    });
    sweep(ctx, &script);
    let mut leaves: Vec<Ty> = leaf_codes().into_iter().map(Ty::Leaf).collect();
    leaves.push(Ty::Struct(1));
    let mut types = all_types(1, &leaves);
    types.extend(all_types(2, &[Ty::Leaf(0), Ty::Leaf(0xff), Ty::Struct(10)]));
    let files: Vec<File> = types
        .iter()
        .map(|t| {
            let mut f = plain();
            f.schemas[0].props[0].ty = t.clone();
            f
        })
        .collect();
    sweep(ctx, &files);
    ctx.outcome_n("types", files.len() as u64);
    // inheritance: every assignment of parents to three schemas
    let mut files = vec![];
    for a in [0, 1, 2, NOWHERE] {
        for b in [0, 1, 2, NOWHERE] {
            for c in [0, 1, 2, NOWHERE] {
                for order in 0..6usize {
                    let mut f = plain();
                    (f.schemas[0].sup, f.schemas[1].sup, f.schemas[2].sup) = (a, b, c);
                    f.schemas[1].props[0].array = 2;
                    let [x, y, z] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
                    f.schemas = vec![f.schemas[x].clone(), f.schemas[y].clone(), f.schemas[z].clone()];
                    files.push(f);
                }
            }
        }
    }
    sweep(ctx, &files);
    ctx.outcome_n("hierarchies", files.len() as u64);
    // long inheritance: a schema and all its ancestors, in either order in the file, ended or leading back
    let mut deep = 0;
    for n in (1..=40usize).chain([64, 128, 256, 300]) {
        for back in [None, Some(0), Some(n / 2), Some(n - 1)] {
            for turned in [false, true] {
                deep += 1;
                if let Some(m) = long_chain(ctx, n, back, turned) {
                    ctx.violation("long inheritance", format!("{n} schemas, the last one derived from {back:?}, reversed {turned}: {m}"));
                }
            }
        }
    }
    ctx.outcome_n("long-hierarchies", deep);
    // damage
    let mut ext = plain();
    ext.version = 1;
    ext.versioning = Some((522, 1008, vec![(CORE, 3)], 7));
    ext.ext = Some((1, vec![Some("/Script/A".into()), Some("é".into())], vec![0, 1, 1]));
    let mut br = ext.clone();
    br.comp = 2;
    let mut zs = ext.clone();
    zs.comp = 3;
    let files = [plain(), ext.clone(), br, zs];
    for (fi, f) in files.iter().enumerate() {
        let b = f.bytes();
        for i in 0..b.len() {
            ctx.state();
            ctx.trace();
            match guard(|| Usmap::new(Cursor::new(b[..i].to_vec())).is_ok()) {
                Ok(false) => {}
                Ok(true) => ctx.violation("cut file accepted", format!("the first {i} of {} bytes of file {fi} are accepted", b.len())),
                Err(p) => ctx.violation("cut file", format!("first {i} of {} bytes: {p}\n{}", b.len(), hex(&b[..i]))),
            }
        }
        if f.comp == 0 {
            let (body, end) = f.body();
            for i in 0..body.len() {
                ctx.state();
                ctx.trace();
                match guard(|| Usmap::new(Cursor::new(f.wrap(&body[..i]))).is_ok()) {
                    Ok(ok) if ok == (i == end && f.ext.is_some()) => {}
                    Ok(ok) => ctx.violation("cut content", format!("content cut to {i} of {} bytes: accepted {ok}", body.len())),
                    Err(p) => ctx.violation("cut content", format!("content cut to {i} of {} bytes: {p}", body.len())),
                }
            }
        }
        par_for(b.len(), |i| {
            for x in [0u8, 1, 2, 0x7f, 0x80, 0xff, b[i].wrapping_add(1), b[i].wrapping_sub(1)] {
                if x == b[i] {
                    continue;
                }
                ctx.state();
                ctx.trace();
                let mut d = b.clone();
                d[i] = x;
                let r = guard(|| {
                    if let Ok(u) = Usmap::new(Cursor::new(d.clone())) {
                        for s in u.schemas.keys() {
                            u.get_all_properties(s);
                        }
                        u.get_property_with_duplication_index(&FName::new_dummy("zz".into(), 0), &Ancestry::new(FName::new_dummy("Leaf".into(), 0)), 0);
                    }
                });
                if let Err(p) = r {
                    ctx.violation(&format!("damaged file {fi}"), format!("byte {i} changed from {:#x} to {x:#x}: {p}\n{}", b[i], hex(&d)));
                }
            }
        });
    }
    // things that are not mapping files this library can read
    let b = plain().bytes();
    for (at, what, vals) in [(0usize, "magic", vec![0u8, 0xc5, 0x30]), (1, "magic", vec![0, 0xc4]), (2, "version", vec![4, 5, 0x7f, 0xff]), (3, "compression", vec![1, 4, 5, 0x80, 0xfe, 0xff])] {
        for v in vals {
            let mut d = b.clone();
            d[at] = v;
            if d == b {
                continue;
            }
            ctx.state();
            match guard(|| Usmap::new(Cursor::new(d.clone())).is_err()) {
                Ok(true) => {}
                Ok(false) => ctx.violation(what, format!("{what} {v:#x} is accepted")),
                Err(p) => ctx.violation(what, format!("{what} {v:#x}: {p}")),
            }
        }
    }
    for c in 0..=255u8 {
        if EPropertyType::try_from(c).is_ok() != (c < 28 || c == 255) {
            ctx.violation("type code", format!("{c}"));
        }
    }
    let _ = (EUsmapVersion::Initial, EUsmapCompressionMethod::None);
}
fn sweep(ctx: &Ctx, files: &[File]) {
    let n = files.len();
    let chunk = 64;
    par_for(n.div_ceil(chunk), |b| {
        for f in &files[b * chunk..((b + 1) * chunk).min(n)] {
            if ctx.stopped() {
                return;
            }
            if let Some(d) = judge(ctx, f) {
                let key = d.split(['{', '(', '[', '"']).next().unwrap_or("").chars().take(40).collect::<String>();
                ctx.violation(&key, format!("{d}\n{f:?}"));
            }
        }
    });
    if let Some(f) = files.last() {
        ctx.sample(|| format!("{f:?}"));
    }
}
