//! Independent reference serializer for packages (.uasset/.uexp): writes the documented on-disk
//! layout from a description, never calling the code under test. Everything the explorers compare
//! the library against comes from here.
use std::cell::RefCell;
use std::rc::Rc;

// ---- choices ---------------------------------------------------------------------------------

/// One execution of a generator: a script of picks, default 0 beyond its end.
#[derive(Default, Clone)]
pub struct Ch {
    pub script: Vec<u16>,
    pub pos: usize,
    pub arity: Vec<u16>,
}
impl Ch {
    pub fn new(script: &[u16]) -> Ch {
        Ch { script: script.to_vec(), pos: 0, arity: vec![] }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        let v = self.script.get(self.pos).copied().unwrap_or(0) as usize;
        self.pos += 1;
        self.arity.push(n as u16);
        if v < n {
            v
        } else {
            0
        }
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.pick(xs.len());
        xs[i].clone()
    }
}

/// Every execution of `gen` with at most `k` picks different from the default one.
pub fn deviations(k: usize, gen: &mut dyn FnMut(&mut Ch) -> bool) -> u64 {
    fn go(script: Vec<u16>, from: usize, k: usize, gen: &mut dyn FnMut(&mut Ch) -> bool, n: &mut u64) -> bool {
        let mut c = Ch::new(&script);
        *n += 1;
        if !gen(&mut c) {
            return false;
        }
        if k == 0 {
            return true;
        }
        for p in from..c.arity.len() {
            for v in 1..c.arity[p] {
                let mut s: Vec<u16> = script.clone();
                s.resize(p, 0);
                s.push(v);
                if !go(s, p + 1, k - 1, gen, n) {
                    return false;
                }
            }
        }
        true
    }
    let mut n = 0;
    go(vec![], 0, k, gen, &mut n);
    n
}

// ---- versions --------------------------------------------------------------------------------

pub type G4 = [u32; 4];
pub const FORTNITE: G4 = [0x601D1886, 0xAC644F84, 0xAA16D3DE, 0x0DEAC7D6];
pub const FRAMEWORK: G4 = [0xCFFC743F, 0x43B04480, 0x939114DF, 0x171D2073];
pub const CORE: G4 = [0x375EC13C, 0x06E448FB, 0xB50084F0, 0x262A717E];
pub const EDITOR: G4 = [0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41];
pub const ANIMPHYS: G4 = [0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA];
pub const RELEASE: G4 = [0x9C54D522, 0xA8264FBE, 0x94210746, 0x61B482D0];
pub const SEQUENCER: G4 = [0x7B5AE74C, 0xD2704C10, 0xA9585798, 0x0B212A5A];

/// (guid, threshold): the custom version numbers at which a layout changes
pub const CV_TILE3D: (G4, i32) = (FORTNITE, 1);
pub const CV_FLOATCH_SHOW: (G4, i32) = (FORTNITE, 53);
pub const CV_UFIELD_NEXT: (G4, i32) = (FRAMEWORK, 29);
pub const CV_ENUM_PROPS: (G4, i32) = (CORE, 2);
pub const CV_FPROPS: (G4, i32) = (CORE, 4);
pub const CV_FONT_FACE: (G4, i32) = (EDITOR, 9);
pub const CV_MOVIE_META: (G4, i32) = (EDITOR, 19);
pub const CV_CULTURE_INV: (G4, i32) = (EDITOR, 32);
pub const CV_SMART_UID: (G4, i32) = (ANIMPHYS, 5);
pub const CV_SMART_REF: (G4, i32) = (ANIMPHYS, 10);
pub const CV_REP_COND: (G4, i32) = (RELEASE, 21);
pub const CV_FLOATCH: (G4, i32) = (SEQUENCER, 12);
pub const CV_ALL: [(G4, i32); 12] =
    [CV_TILE3D, CV_FLOATCH_SHOW, CV_UFIELD_NEXT, CV_ENUM_PROPS, CV_FPROPS, CV_FONT_FACE, CV_MOVIE_META, CV_CULTURE_INV, CV_SMART_UID, CV_SMART_REF, CV_REP_COND, CV_FLOATCH];
pub const CV_LATEST: [(G4, i32); 7] = [(FORTNITE, 61), (FRAMEWORK, 39), (CORE, 6), (EDITOR, 42), (ANIMPHYS, 19), (RELEASE, 46), (SEQUENCER, 14)];

pub const V_WORLD_LEVEL_INFO: i32 = 224;
pub const V_TEXT_NAMESPACE: i32 = 226;
pub const V_COOKED_UCLASS: i32 = 241;
pub const V_TILE_UPDATED: i32 = 268;
pub const V_CHUNKID: i32 = 278;
pub const V_SETARRAY: i32 = 303;
pub const V_NOTPLACEABLE: i32 = 315;
pub const V_TILE_LOD: i32 = 316;
pub const V_TILE_Z: i32 = 319;
pub const V_CHUNKIDS: i32 = 326;
pub const V_TILE_STREAM: i32 = 329;
pub const V_ENGINE_VERSION: i32 = 336;
pub const V_IFACES_AFTER: i32 = 361;
pub const V_LOAD_EDITOR_GAME: i32 = 365;
pub const V_RICH_CURVE: i32 = 366;
pub const V_TEXT_HISTORY: i32 = 368;
pub const V_STRING_REFS: i32 = 384;
pub const V_ENUM_CLASS: i32 = 390;
pub const V_STRUCT_GUID: i32 = 441;
pub const V_COMPAT_ENGINE: i32 = 444;
pub const V_TEXT_IN_PKG: i32 = 459;
pub const V_TIGHT_ENUMS: i32 = 463;
pub const V_IS_ASSET: i32 = 485;
pub const V_INNER_TAG: i32 = 500;
pub const V_PROP_GUID: i32 = 503;
pub const V_NAME_HASH: i32 = 504;
pub const V_PRELOAD: i32 = 507;
pub const V_TEMPLATE: i32 = 508;
pub const V_SEARCHABLE: i32 = 510;
pub const V_64BIT: i32 = 511;
pub const V_SOFT_PATH: i32 = 514;
pub const V_PKG_OWNER: i32 = 518;
pub const V_LATEST: i32 = 522;
pub const U_NAMES_REF: i32 = 1001;
pub const U_PAYLOAD: i32 = 1002;
pub const U_OPTIONAL: i32 = 1003;
pub const U_LWC: i32 = 1004;
pub const U_NO_GUID: i32 = 1005;
pub const U_INHERITED: i32 = 1006;
pub const U_SOFT_FNAMES: i32 = 1007;
pub const U_SOFT_LIST: i32 = 1008;
pub const U_DATA_RES: i32 = 1009;

#[derive(Clone, Debug)]
pub struct Ver {
    pub obj: i32,
    pub ue5: i32,
    /// custom versions as stored in (versioned) files
    pub cv: Vec<(G4, i32)>,
    /// 0 = file stores its versions
    pub unversioned: bool,
    pub legacy: i32,
    /// index of the engine version handed to the library (0 = unknown)
    pub engine: i32,
}
impl Ver {
    pub fn versioned(obj: i32, ue5: i32, cv: &[(G4, i32)]) -> Ver {
        Ver { obj, ue5, cv: cv.to_vec(), unversioned: false, legacy: if ue5 > 0 { -8 } else { -7 }, engine: 0 }
    }
    pub fn cv(&self, g: G4) -> i32 {
        self.cv.iter().find(|c| c.0 == g).map(|c| c.1).unwrap_or(0)
    }
    pub fn has(&self, t: (G4, i32)) -> bool {
        self.cv(t.0) >= t.1
    }
    pub fn lwc(&self) -> bool {
        self.ue5 >= U_LWC
    }
    pub fn tag(&self) -> String {
        let c: Vec<String> = self.cv.iter().map(|(g, v)| format!("{:08x}={v}", g[0])).collect();
        format!("obj{}/ue5-{}/legacy{}{}{}[{}]", self.obj, self.ue5, self.legacy, if self.unversioned { "/unversioned" } else { "" }, if self.engine != 0 { format!("/engine{}", self.engine) } else { String::new() }, c.join(","))
    }
}

// ---- names and the writer --------------------------------------------------------------------

#[derive(Default, Debug)]
pub struct Names {
    pub list: Vec<String>,
    pub frozen: bool,
    pub missing: Vec<String>,
}
pub type NamesRef = Rc<RefCell<Names>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    I(i64),
    F(u64),
    S(Option<String>),
    N(String, i32),
    G(Vec<u8>),
    /// marks the start of a node: type of property, export or expression
    T(String),
}

pub struct W<'v> {
    pub b: Vec<u8>,
    pub names: NamesRef,
    pub v: &'v Ver,
    pub toks: Vec<Tok>,
}
pub fn put_fstring(b: &mut Vec<u8>, s: Option<&str>) {
    match s {
        None => b.extend(0i32.to_le_bytes()),
        Some(s) if s.is_ascii() => {
            b.extend((s.len() as i32 + 1).to_le_bytes());
            b.extend(s.as_bytes());
            b.push(0);
        }
        Some(s) => {
            let u: Vec<u16> = s.encode_utf16().collect();
            b.extend((-(u.len() as i32) - 1).to_le_bytes());
            for x in u {
                b.extend(x.to_le_bytes());
            }
            b.extend([0, 0]);
        }
    }
}
impl<'v> W<'v> {
    pub fn new(names: &NamesRef, v: &'v Ver) -> W<'v> {
        W { b: vec![], names: names.clone(), v, toks: vec![] }
    }
    // raw (not recorded)
    pub fn ru8(&mut self, x: u8) {
        self.b.push(x)
    }
    pub fn ri32(&mut self, x: i32) {
        self.b.extend(x.to_le_bytes())
    }
    pub fn ri64(&mut self, x: i64) {
        self.b.extend(x.to_le_bytes())
    }
    pub fn rname(&mut self, s: &str, n: i32) {
        let mut nm = self.names.borrow_mut();
        let i = match nm.list.iter().position(|x| x == s) {
            Some(i) => i,
            None if nm.frozen => {
                nm.missing.push(s.to_string());
                0x7000_0000
            }
            None => {
                nm.list.push(s.to_string());
                nm.list.len() - 1
            }
        };
        drop(nm);
        self.ri32(i as i32);
        self.ri32(n);
    }
    pub fn set_i32(&mut self, at: usize, x: i32) {
        self.b[at..at + 4].copy_from_slice(&x.to_le_bytes())
    }
    pub fn t(&mut self, s: &str) {
        self.toks.push(Tok::T(s.into()))
    }
    // recorded
    pub fn u8(&mut self, x: u8) {
        self.b.push(x);
        self.toks.push(Tok::I(x as i64))
    }
    pub fn i8(&mut self, x: i8) {
        self.b.push(x as u8);
        self.toks.push(Tok::I(x as i64))
    }
    pub fn i16(&mut self, x: i16) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::I(x as i64))
    }
    pub fn u16(&mut self, x: u16) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::I(x as i64))
    }
    pub fn i32(&mut self, x: i32) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::I(x as i64))
    }
    pub fn u32(&mut self, x: u32) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::I(x as i64))
    }
    pub fn i64(&mut self, x: i64) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::I(x))
    }
    pub fn u64(&mut self, x: u64) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::I(x as i64))
    }
    pub fn f32(&mut self, x: f32) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::F((x as f64).to_bits()))
    }
    pub fn f64(&mut self, x: f64) {
        self.b.extend(x.to_le_bytes());
        self.toks.push(Tok::F(x.to_bits()))
    }
    /// a component that became double precision with large world coordinates
    pub fn fp(&mut self, x: f32) {
        if self.v.lwc() {
            self.f64(x as f64)
        } else {
            self.f32(x)
        }
    }
    pub fn name(&mut self, s: &str, n: i32) {
        self.rname(s, n);
        self.toks.push(Tok::N(s.into(), n))
    }
    pub fn str(&mut self, s: Option<&str>) {
        put_fstring(&mut self.b, s);
        self.toks.push(Tok::S(s.map(|x| x.to_string())))
    }
    pub fn guid(&mut self, g: [u8; 16]) {
        self.b.extend(g);
        self.toks.push(Tok::G(g.to_vec()))
    }
    pub fn raw(&mut self, g: &[u8]) {
        self.b.extend(g);
        self.toks.push(Tok::G(g.to_vec()))
    }
}

// ---- the package -----------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Imp {
    pub class_package: (String, i32),
    pub class_name: (String, i32),
    pub outer: i32,
    pub object_name: (String, i32),
    pub optional: bool,
}
pub fn imp(pkg: &str, class: &str, outer: i32, name: &str) -> Imp {
    Imp { class_package: (pkg.into(), 0), class_name: (class.into(), 0), outer, object_name: (name.into(), 0), optional: false }
}
#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub class: i32,
    pub sup: i32,
    pub template: i32,
    pub outer: i32,
    pub name: (String, i32),
    pub flags: u32,
    pub bools: [bool; 7], // forced, not client, not server, inherited, not always loaded, is asset, generate hash
    pub guid: [u8; 16],
    pub package_flags: u32,
    pub deps: [Vec<i32>; 4],
    pub body: Vec<u8>,
    pub toks: Vec<Tok>,
}
#[derive(Clone, Debug)]
pub struct Pkg {
    pub uexp: bool,
    pub imports: Vec<Imp>,
    pub exports: Vec<Exp>,
    pub depends: Option<Vec<Vec<i32>>>,
    pub soft_refs: Option<Vec<String>>,
    pub registry: bool,
    /// serialized world tile info
    pub tile: Option<Vec<u8>>,
    pub tile_toks: Vec<Tok>,
    pub folder: String,
    pub flags: u32,
    pub generations: usize,
    pub engine: (u16, u16, u16, u32, Option<String>),
    pub compat: (u16, u16, u16, u32, Option<String>),
    pub compression_flags: u32,
    pub source: u32,
    pub chunks: Vec<i32>,
    pub soft_paths: (i32, i32),
    pub gatherable: (i32, i32),
    pub searchable: i32,
    pub thumbnail: i32,
    pub names_ref: i32,
    pub payload_toc: i64,
    pub data_resource: i32,
    pub guid: [u8; 16],
    pub licensee: i32,
    pub zero_hashes: Vec<String>,
}
impl Pkg {
    /// the last generation describes the current package, earlier ones its history
    pub fn generation_counts(&self, nnames: usize) -> Vec<(i32, i32)> {
        (0..self.generations).map(|g| if g + 1 == self.generations { (self.exports.len() as i32, nnames as i32) } else { (40 + g as i32, 90 - g as i32) }).collect()
    }
}
impl Default for Pkg {
    fn default() -> Self {
        Pkg {
            uexp: false,
            imports: vec![],
            exports: vec![],
            depends: Some(vec![]),
            soft_refs: None,
            registry: false,
            tile: None,
            tile_toks: vec![],
            folder: "None".into(),
            flags: 0,
            generations: 1,
            engine: (4, 27, 2, 18319896, Some("++UE4+Release-4.27".into())),
            compat: (4, 27, 0, 17155196, Some("++UE4+Release-4.27".into())),
            compression_flags: 0,
            source: 0x51f3a10c,
            chunks: vec![7],
            soft_paths: (0, 0),
            gatherable: (0, 0),
            searchable: 0,
            thumbnail: 0,
            names_ref: 3,
            payload_toc: -1,
            data_resource: -1,
            guid: [7; 16],
            licensee: 0,
            zero_hashes: vec![],
        }
    }
}

fn put_guid4(b: &mut Vec<u8>, g: G4) {
    for x in g {
        b.extend(x.to_le_bytes())
    }
}
fn put_engine(b: &mut Vec<u8>, e: &(u16, u16, u16, u32, Option<String>)) {
    b.extend(e.0.to_le_bytes());
    b.extend(e.1.to_le_bytes());
    b.extend(e.2.to_le_bytes());
    b.extend(e.3.to_le_bytes());
    put_fstring(b, e.4.as_deref());
}
/// positions of fields in the produced .uasset (for damage and inspection)
#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub summary_end: usize,
    pub names: usize,
    pub imports: usize,
    pub exports: usize,
    pub header_end: usize,
}
pub struct File {
    pub asset: Vec<u8>,
    pub uexp: Option<Vec<u8>>,
    pub layout: Layout,
    pub names: Vec<String>,
}

/// CRC of a name as stored behind it (two 16-bit halves: case-folded djb-like CRC and the case preserving one).
pub use unreal_asset_base::crc::generate_hash;

fn emit(p: &Pkg, v: &Ver, names: &NamesRef) -> File {
    // summary, written twice: once to learn its size, once with the offsets
    let summary = |o: &[i32; 8], header_size: i32, bulk: i64, preload: (i32, i32), nnames: usize| -> Vec<u8> {
        let mut b: Vec<u8> = vec![0xc1, 0x83, 0x2a, 0x9e];
        let i = |b: &mut Vec<u8>, x: i32| b.extend(x.to_le_bytes());
        i(&mut b, v.legacy);
        if v.legacy != -4 {
            i(&mut b, if v.unversioned { 0 } else { 864 });
        }
        i(&mut b, if v.unversioned { 0 } else { v.obj });
        if v.legacy <= -8 {
            i(&mut b, if v.unversioned { 0 } else { v.ue5 });
        }
        i(&mut b, p.licensee);
        if v.legacy <= -2 {
            if v.unversioned {
                i(&mut b, 0);
            } else {
                i(&mut b, v.cv.len() as i32);
                for (g, n) in &v.cv {
                    put_guid4(&mut b, *g);
                    i(&mut b, *n);
                }
            }
        }
        i(&mut b, header_size);
        put_fstring(&mut b, Some(&p.folder));
        b.extend(p.flags.to_le_bytes());
        i(&mut b, nnames as i32);
        i(&mut b, o[0]);
        if v.ue5 >= U_SOFT_LIST {
            i(&mut b, p.soft_paths.0);
            i(&mut b, p.soft_paths.1);
        }
        if v.obj >= V_TEXT_IN_PKG {
            i(&mut b, p.gatherable.0);
            i(&mut b, p.gatherable.1);
        }
        i(&mut b, p.exports.len() as i32);
        i(&mut b, o[2]);
        i(&mut b, p.imports.len() as i32);
        i(&mut b, o[1]);
        i(&mut b, o[3]);
        if v.obj >= V_STRING_REFS {
            i(&mut b, p.soft_refs.as_ref().map(|x| x.len()).unwrap_or(0) as i32);
            i(&mut b, o[4]);
        }
        if v.obj >= V_SEARCHABLE {
            i(&mut b, p.searchable);
        }
        i(&mut b, p.thumbnail);
        b.extend(p.guid);
        i(&mut b, p.generations as i32);
        for (e, n) in p.generation_counts(nnames) {
            i(&mut b, e);
            i(&mut b, n);
        }
        if v.obj >= V_ENGINE_VERSION {
            put_engine(&mut b, &p.engine);
        } else {
            b.extend(p.engine.3.to_le_bytes());
        }
        if v.obj >= V_COMPAT_ENGINE {
            put_engine(&mut b, &p.compat);
        }
        b.extend(p.compression_flags.to_le_bytes());
        i(&mut b, 0);
        b.extend(p.source.to_le_bytes());
        i(&mut b, 0);
        if v.legacy > -7 {
            i(&mut b, 0);
        }
        i(&mut b, o[5]);
        b.extend(bulk.to_le_bytes());
        if v.obj >= V_WORLD_LEVEL_INFO {
            i(&mut b, o[6]);
        }
        if v.obj >= V_CHUNKIDS {
            i(&mut b, p.chunks.len() as i32);
            for c in &p.chunks {
                i(&mut b, *c);
            }
        } else if v.obj >= V_CHUNKID {
            i(&mut b, p.chunks[0]);
        }
        if v.obj >= V_PRELOAD {
            i(&mut b, preload.0);
            i(&mut b, preload.1);
        }
        if v.ue5 >= U_NAMES_REF {
            i(&mut b, p.names_ref);
        }
        if v.ue5 >= U_PAYLOAD {
            b.extend(p.payload_toc.to_le_bytes());
        }
        if v.ue5 >= U_DATA_RES {
            i(&mut b, p.data_resource);
        }
        b
    };
    // tables
    let mut w = W::new(names, v);
    for m in &p.imports {
        w.rname(&m.class_package.0, m.class_package.1);
        w.rname(&m.class_name.0, m.class_name.1);
        w.ri32(m.outer);
        w.rname(&m.object_name.0, m.object_name.1);
        if v.ue5 >= U_OPTIONAL {
            w.ri32(m.optional as i32);
        }
    }
    let imports = std::mem::take(&mut w.b);
    let mut size_at = vec![];
    let mut first_dep = 0;
    for e in &p.exports {
        w.ri32(e.class);
        w.ri32(e.sup);
        if v.obj >= V_TEMPLATE {
            w.ri32(e.template);
        }
        w.ri32(e.outer);
        w.rname(&e.name.0, e.name.1);
        w.ri32(e.flags as i32);
        size_at.push(w.b.len());
        if v.obj >= V_64BIT {
            w.ri64(0);
            w.ri64(0);
        } else {
            w.ri32(0);
            w.ri32(0);
        }
        for k in 0..3 {
            w.ri32(e.bools[k] as i32);
        }
        if v.ue5 < U_NO_GUID {
            w.b.extend(e.guid);
        }
        if v.ue5 >= U_INHERITED {
            w.ri32(e.bools[3] as i32);
        }
        w.ri32(e.package_flags as i32);
        if v.obj >= V_LOAD_EDITOR_GAME {
            w.ri32(e.bools[4] as i32);
        }
        if v.obj >= V_IS_ASSET {
            w.ri32(e.bools[5] as i32);
        }
        if v.ue5 >= U_OPTIONAL {
            w.ri32(e.bools[6] as i32);
        }
        if v.obj >= V_PRELOAD {
            w.ri32(if p.uexp { first_dep } else { -1 });
            for d in &e.deps {
                w.ri32(if p.uexp { d.len() as i32 } else { 0 });
                first_dep += d.len() as i32;
            }
        }
    }
    let mut exports = std::mem::take(&mut w.b);
    let mut depends = vec![];
    if let Some(d) = &p.depends {
        for k in 0..p.exports.len() {
            let l = d.get(k).cloned().unwrap_or_default();
            depends.extend((l.len() as i32).to_le_bytes());
            for x in l {
                depends.extend(x.to_le_bytes());
            }
        }
    }
    let mut soft = vec![];
    for s in p.soft_refs.iter().flatten() {
        put_fstring(&mut soft, Some(s.as_str()).filter(|s| !s.is_empty()));
    }
    let registry: Vec<u8> = if p.registry { vec![0; 4] } else { vec![] };
    let tile = p.tile.clone().unwrap_or_default();
    let mut preload = vec![];
    let mut npre = 0;
    if p.uexp {
        for e in &p.exports {
            for d in &e.deps {
                for x in d {
                    preload.extend(x.to_le_bytes());
                    npre += 1;
                }
            }
        }
    }
    let nm = names.borrow();
    let mut table = vec![];
    for s in &nm.list {
        put_fstring(&mut table, Some(s));
        if v.obj >= V_NAME_HASH {
            let h = if p.zero_hashes.contains(s) { 0 } else { generate_hash(s) };
            table.extend(h.to_le_bytes());
        }
    }
    let n = nm.list.len();
    let mut at = summary(&[0; 8], 0, 0, (0, 0), n).len();
    let summary_end = at;
    let mut pos = |x: usize, present: bool| -> i32 {
        let r = if present { at as i32 } else { 0 };
        at += x;
        r
    };
    let o_names = pos(table.len(), n > 0);
    let o_imp = pos(imports.len(), !p.imports.is_empty());
    let o_exp = pos(exports.len(), !p.exports.is_empty());
    let o_dep = pos(depends.len(), p.depends.is_some());
    let o_soft = pos(soft.len(), p.soft_refs.is_some() && v.obj >= V_STRING_REFS);
    let o_reg = pos(registry.len(), p.registry);
    let o_tile = pos(tile.len(), p.tile.is_some());
    let o_pre = pos(preload.len(), true);
    let header_end = at;
    let mut data = vec![];
    for (k, e) in p.exports.iter().enumerate() {
        let off = header_end + data.len();
        let a = size_at[k];
        if v.obj >= V_64BIT {
            exports[a..a + 8].copy_from_slice(&(e.body.len() as i64).to_le_bytes());
            exports[a + 8..a + 16].copy_from_slice(&(off as i64).to_le_bytes());
        } else {
            exports[a..a + 4].copy_from_slice(&(e.body.len() as i32).to_le_bytes());
            exports[a + 4..a + 8].copy_from_slice(&(off as i32).to_le_bytes());
        }
        data.extend(&e.body);
    }
    let bulk = (header_end + data.len()) as i64;
    let head = if p.exports.is_empty() { 0 } else { header_end as i32 };
    let mut b = summary(&[o_names, o_imp, o_exp, o_dep, o_soft, o_reg, o_tile, 0], head, bulk, (if p.uexp { npre } else { -1 }, o_pre), n);
    assert_eq!(b.len(), summary_end);
    for part in [&table, &imports, &exports, &depends, &soft, &registry, &tile, &preload] {
        b.extend(part.iter());
    }
    assert_eq!(b.len(), header_end);
    data.extend([0xc1, 0x83, 0x2a, 0x9e]);
    let uexp = if p.uexp {
        Some(data)
    } else {
        b.extend(data);
        None
    };
    let lay = Layout { summary_end, names: o_names as usize, imports: o_imp as usize, exports: o_exp as usize, header_end };
    File { asset: b, uexp, layout: lay, names: nm.list.clone() }
}

/// How the name table is arranged.
#[derive(Clone, Debug, PartialEq)]
pub enum Table {
    /// first use order
    Natural,
    /// reversed, with unrelated names before, between and after
    Shuffled,
    /// exactly this table; names that are missing from it make `build` return None
    Exact(Vec<String>),
}

/// Serialize a description. `describe` is run twice (once to collect the names).
pub fn build(v: &Ver, table: &Table, describe: &mut dyn FnMut(&NamesRef) -> Pkg) -> Option<(File, Pkg)> {
    let names: NamesRef = Default::default();
    if let Table::Exact(l) = table {
        names.borrow_mut().list = l.clone();
        names.borrow_mut().frozen = true;
    } else {
        let p = describe(&names);
        emit(&p, v, &names);
        let mut nm = names.borrow_mut();
        if *table == Table::Shuffled {
            let mut l = vec!["FillerA".to_string()];
            for s in nm.list.iter().rev() {
                l.push(s.clone());
                if l.len() == 3 {
                    l.push("FillerB".into());
                }
            }
            l.push("FillerC".into());
            nm.list = l;
        }
        nm.frozen = true;
    }
    let p = describe(&names);
    let f = emit(&p, v, &names);
    if names.borrow().missing.iter().any(|m| m != "/Game/Path") {
        return None;
    }
    Some((f, p))
}
