//! A world for the integrator: game paks, mods, baked mods, handlers; one run of it and what it left behind.
use crate::disk::{under, Plan};
use mc::core::guard;
use mc::pkg::*;
use mc::simple::*;
use mc::starter::*;
use mc::uasset::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fs::{self, File};
use std::io::{BufReader, Cursor};
use std::path::{Path, PathBuf};
use unreal_asset::engine_version::EngineVersion;
use unreal_mod_integrator::*;
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader};

pub const GAME: &str = "ExampleGame";
pub const VERSION: &str = "7.8.9";
pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    File,
    Dynamic,
    /// handed over as a baked mod
    Baked,
}
#[derive(Clone, Debug)]
pub struct Mod {
    pub id: String,
    pub kind: Kind,
    pub meta: Value,
    pub files: Files,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the pak of the last mod is cut short
    ModPakCut,
    ModWithoutMetadata,
    ModBadMetadata,
    /// the pak of the last mod is gone
    ModMissing,
    HandlerFails,
    DynamicFails,
    GamePakCut,
    NoGame,
    /// the output folder does not exist
    NoOutput,
}
#[derive(Clone, Debug)]
pub struct World {
    /// in the order they are handed over
    pub mods: Vec<Mod>,
    /// (mod, is core)
    pub baked: Vec<(Mod, bool)>,
    pub handlers: Vec<&'static str>,
    pub refuse: bool,
    pub game: Vec<Files>,
    /// files in the game folder that are not paks
    pub noise: bool,
    /// a pak from an earlier integration
    pub old: bool,
    pub fault: Fault,
}

#[derive(Debug)]
pub struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "boom")
    }
}
impl std::error::Error for Boom {}

pub fn pak(files: &Files) -> Vec<u8> {
    let mut m = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    for (n, d) in files {
        m.set_entry(n.clone(), d.clone());
    }
    let mut c = Cursor::new(vec![]);
    m.write(&mut c).unwrap();
    c.into_inner()
}
pub fn unpak(b: &[u8]) -> Result<Files, String> {
    let mut r = PakReader::new(Cursor::new(b));
    r.load_index().map_err(|e| e.to_string())?;
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    names.into_iter().map(|n| r.read_entry(&n).map(|d| (n.clone(), d)).map_err(|e| format!("{n}: {e}"))).collect()
}
pub fn mod_pak(m: &Mod) -> Vec<u8> {
    let mut f = m.files.clone();
    f.insert("metadata.json".into(), m.meta.to_string().into_bytes());
    pak(&f)
}

type Call = (String, Vec<Value>, Vec<String>);
thread_local! {
    /// (who, data handed over, mods whose paks were handed over)
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static GAMEPAKS: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}
fn note(who: &str, data: &[Value], integrated: &mut PakMemory, game: &mut [PakReader<BufReader<File>>], mods: &mut [PakReader<BufReader<File>>]) {
    let ids = mods.iter_mut().map(|p| p.read_entry(&"metadata.json".to_string()).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()).map(|v| v["mod_id"].as_str().unwrap_or("?").to_string()).unwrap_or("unreadable".into())).collect();
    integrated.set_entry(format!("by/{who}"), format!("{who}:{data:?}").into_bytes());
    GAMEPAKS.with(|g| g.borrow_mut().push(game.iter().filter(|p| !p.get_entry_names().is_empty()).count()));
    CALLS.with(|c| c.borrow_mut().push((who.into(), data.to_vec(), ids)));
}

struct Dyn(String, bool);
impl IntegratorModInfo for Dyn {
    fn get_mod_id(&self) -> String {
        self.0.clone()
    }
    fn get_priority(&self) -> u32 {
        1
    }
    fn is_core(&self) -> bool {
        false
    }
}
impl DynamicMod<Boom> for Dyn {
    fn integrate(&self, i: &mut PakMemory, g: &mut Vec<PakReader<BufReader<File>>>, m: &mut Vec<PakReader<BufReader<File>>>) -> Result<(), Boom> {
        note(&self.0, &[], i, g, m);
        if self.1 {
            Err(Boom)
        } else {
            Ok(())
        }
    }
}
struct Config {
    baked: Vec<(&'static [u8], String, &'static str, bool)>,
    handlers: Vec<&'static str>,
    fail: bool,
}
fn baked(b: &(&'static [u8], String, &'static str, bool)) -> BakedMod {
    BakedMod { data: b.0, mod_id: b.1.clone(), filename: b.2, priority: 800, is_core: b.3 }
}
static MARK: u32 = 77;
impl IntegratorConfig<'static, u32, Boom> for Config {
    fn get_data(&self) -> &'static u32 {
        &MARK
    }
    fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<u32, Boom>>> {
        let mut m: HashMap<String, Box<HandlerFn<u32, Boom>>> = HashMap::new();
        for h in self.handlers.clone() {
            let fail = self.fail;
            m.insert(
                h.to_string(),
                Box::new(move |d, i, g, m, v| {
                    assert_eq!(*d, MARK);
                    note(h, v, i, g, m);
                    if fail {
                        Err(Boom)
                    } else {
                        Ok(())
                    }
                }),
            );
        }
        m
    }
    fn get_baked_mods(&self) -> Vec<IntegratorMod<Boom>> {
        self.baked.iter().map(|b| baked(b).into()).collect()
    }
    const GAME_NAME: &'static str = GAME;
    const INTEGRATOR_VERSION: &'static str = VERSION;
    const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
}

pub struct Run {
    pub result: Result<(), String>,
    pub calls: Vec<Call>,
    pub game_paks: Vec<usize>,
    /// the output folder afterwards
    pub out: Option<Files>,
    pub game_changed: bool,
    pub mods_changed: bool,
}
pub fn snapshot(d: &Path) -> Option<Files> {
    Some(fs::read_dir(d).ok()?.map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().to_string(), fs::read(e.path()).unwrap_or_default())).collect())
}
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("mc-{tag}-{}-{:?}", std::process::id(), std::thread::current().id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
pub const OLD: &[u8] = b"an earlier pak";

pub fn run(w: &World) -> Run {
    run_on(w, Plan::Count).0
}
/// The run on a disk that does as planned, and the calls that reached the disk.
pub fn run_on(w: &World, plan: Plan) -> (Run, Vec<usize>) {
    let s = Scratch::new("integrate");
    let (game, mods, out) = (s.0.join("game"), s.0.join("mods"), s.0.join("out"));
    fs::create_dir(&game).unwrap();
    fs::create_dir(&mods).unwrap();
    if w.fault != Fault::NoOutput {
        fs::create_dir(&out).unwrap();
        if w.old {
            fs::write(out.join(INTEGRATOR_PAK_FILE_NAME), OLD).unwrap();
        }
    }
    if w.fault != Fault::NoGame {
        for (i, f) in w.game.iter().enumerate() {
            let mut b = pak(f);
            if w.fault == Fault::GamePakCut && i == 0 {
                b.truncate(b.len() / 2);
            }
            fs::write(game.join(format!("game{i}.pak")), b).unwrap();
        }
    }
    if w.noise {
        fs::write(game.join("game.sig"), b"not a pak").unwrap();
        for n in ["pak", "game.pak.bak", "game.pakx", "gamepak", "xpak.txt"] {
            fs::write(game.join(n), b"not a pak").unwrap();
        }
    }
    let leak = |b: Vec<u8>| -> &'static [u8] { Box::leak(b.into_boxed_slice()) };
    let mut leaked = vec![];
    let mut bake = |m: &Mod, core: bool| {
        let d = leak(mod_pak(m));
        let n: &'static str = Box::leak(format!("800-{}-1.0.0_P.pak", m.id).into_boxed_str());
        leaked.push((d as *const [u8], n as *const str));
        (d, m.id.clone(), n, core)
    };
    let cfg = Config { baked: w.baked.iter().map(|(m, c)| bake(m, *c)).collect(), handlers: w.handlers.clone(), fail: w.fault == Fault::HandlerFails };
    let last = w.mods.iter().rposition(|m| m.kind == Kind::File);
    let mut list: Vec<IntegratorMod<Boom>> = vec![];
    for (i, m) in w.mods.iter().enumerate() {
        list.push(match m.kind {
            Kind::Dynamic => IntegratorMod::Dynamic(Box::new(Dyn(m.id.clone(), w.fault == Fault::DynamicFails))),
            Kind::Baked => {
                let b = cfg.baked.iter().find(|b| b.1 == m.id).expect("harness: not baked");
                baked(b).into()
            }
            Kind::File => {
                let mut b = match (Some(i) == last, w.fault) {
                    (true, Fault::ModWithoutMetadata) => pak(&m.files),
                    (true, Fault::ModBadMetadata) => pak(&[("metadata.json".to_string(), b"{\"schema_version\":2,".to_vec())].into()),
                    _ => mod_pak(m),
                };
                if Some(i) == last && w.fault == Fault::ModPakCut {
                    b.truncate(b.len() / 2);
                }
                let path = mods.join(format!("{i:03}-{}-1.0.0_P.pak", m.id));
                if Some(i) != last || w.fault != Fault::ModMissing {
                    fs::write(&path, b).unwrap();
                }
                FileMod { path, mod_id: m.id.clone(), priority: i as u32 }.into()
            }
        });
    }
    let before = (snapshot(&game), snapshot(&mods));
    CALLS.with(|c| c.borrow_mut().clear());
    GAMEPAKS.with(|c| c.borrow_mut().clear());
    let (r, disk) = under(plan, || guard(|| integrate_mods(&cfg, &list, &out, &game, w.refuse).map_err(|e| format!("error: {e}"))));
    drop(list);
    drop(cfg);
    let run = Run {
        result: r.and_then(|x| x),
        calls: CALLS.with(|c| c.borrow().clone()),
        game_paks: GAMEPAKS.with(|c| c.borrow().clone()),
        out: snapshot(&out),
        game_changed: snapshot(&game) != before.0,
        mods_changed: snapshot(&mods) != before.1,
    };
    for (d, n) in leaked {
        // SAFETY: nothing refers to the baked data any more
        unsafe {
            drop(Box::from_raw(d as *mut [u8]));
            drop(Box::from_raw(n as *mut str));
        }
    }
    (run, disk)
}

/// The mods whose paks take part, in order.
pub fn taking_part(w: &World) -> Vec<&Mod> {
    let mut o: Vec<&Mod> = w.mods.iter().filter(|m| m.kind != Kind::Dynamic).collect();
    for core in [true, false] {
        for (b, c) in &w.baked {
            let handed = w.mods.iter().find(|m| m.id == b.id);
            let already = handed.map(|m| m.kind == Kind::Baked).unwrap_or(false);
            if *c == core && !already && (core || handed.is_some()) {
                o.push(b);
            }
        }
    }
    o
}
fn text(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
pub fn expected_row(m: &Mod) -> Row {
    let meta = &m.meta;
    let sync = match meta["sync"].as_str() {
        Some("server") => 2,
        Some("client") => 1,
        Some("none") => 0,
        _ => 3,
    };
    [text(&meta["name"]), text(&meta["author"]), text(&meta["description"]), text(&meta["version"]), text(&meta["game_build"]), format!("SyncMode::NewEnumerator{sync}"), text(&meta["homepage"])]
}
/// What the generated asset has to be, given the order its new names were added in.
pub fn expect_asset(files: &mut Files, name: &str, original: &[String], describe: &mut dyn FnMut(&NamesRef) -> Vec<Pkg>) -> Option<String> {
    let (n, u) = (format!("{name}.uasset"), format!("{name}.uexp"));
    let (n, u) = if files.contains_key(&n) { (n, u) } else { (name.to_string(), Path::new(name).with_extension("uexp").to_string_lossy().to_string()) };
    let Some(a) = files.remove(&n) else { return Some(format!("{n} is missing")) };
    let e = files.remove(&u);
    let v = ue4_23();
    let parsed = match parse_bytes(&a, e.as_deref(), v.engine) {
        Ok(p) => p,
        Err(x) => return Some(format!("{n} cannot be read back: {x}")),
    };
    let table = table_of(&parsed);
    if !table.starts_with(original) {
        return Some(format!("{n}: names of the package changed: {table:?}, were {original:?}"));
    }
    let mut first = None;
    let mut i = 0;
    loop {
        let mut more = false;
        let Some((want, _)) = build(&v, &Table::Exact(table.clone()), &mut |names| {
            let mut l = describe(names);
            more = i + 1 < l.len();
            l.swap_remove(i)
        }) else {
            return Some(format!("{n}: lacks a name it needs: {table:?}"));
        };
        match diff_files(&(a.clone(), e.clone()), &want) {
            None => return None,
            Some(d) => first = first.or(Some(format!("{n}: {d}\nread back as {}", show(&parsed)))),
        }
        i += 1;
        if !more {
            return first;
        }
    }
}
fn show(a: &A) -> String {
    use unreal_asset::exports::{ExportBaseTrait, ExportNormalTrait};
    let mut s = String::new();
    for (i, x) in a.imports.iter().enumerate() {
        s += &format!("\n  import {}: {} {} outer {} {}", -(i as i32) - 1, x.class_package.get_owned_content(), x.class_name.get_owned_content(), x.outer_index.index, x.object_name.get_owned_content());
    }
    for (i, x) in a.asset_data.exports.iter().enumerate() {
        let b = x.get_base_export();
        s += &format!("\n  export {}: {} {:?} class {} outer {} template {}", i + 1, variant(x), b.object_name.get_owned_content(), b.class_index.index, b.outer_index.index, b.template_index.index);
        if let Some(n) = x.get_normal_export() {
            s += &format!(" {} properties", n.properties.len());
        }
    }
    s
}
/// None when the run did what it should; `maps` describes the maps that have to be in the pak.
pub fn judge(w: &World, r: &Run, must_fail: bool, maps: &mut dyn FnMut(&mut Files) -> Option<String>) -> Option<String> {
    if r.game_changed || r.mods_changed {
        return Some("files of the game or of the mods were changed".into());
    }
    let Some(out) = &r.out else {
        return match (&r.result, w.fault) {
            (Err(e), _) if !e.starts_with("panic") => None,
            (Ok(()), _) if w.mods.is_empty() => None,
            x => Some(format!("no output folder, result {x:?}")),
        };
    };
    let old = out.get(INTEGRATOR_PAK_FILE_NAME);
    let kept = if w.old { old.map(|b| &b[..]) == Some(OLD) } else { old.is_none() };
    match &r.result {
        Err(e) if e.starts_with("panic") => return Some(e.clone()),
        Err(e) if !must_fail => return Some(e.clone()),
        Err(_) => return if kept { None } else { Some("a failed integration replaced or removed the pak".into()) },
        Ok(()) if must_fail => return Some("reported success".into()),
        Ok(()) => {}
    }
    // the baked mods that take part lie beside the pak, nothing else does
    let part = taking_part(w);
    let mut rest = out.clone();
    rest.remove(INTEGRATOR_PAK_FILE_NAME);
    for m in part.iter().filter(|m| w.baked.iter().any(|b| b.0.id == m.id) && !w.mods.iter().any(|x| x.id == m.id && x.kind == Kind::File && std::ptr::eq(x, **m))) {
        let n = format!("800-{}-1.0.0_P.pak", m.id);
        if rest.remove(&n) != Some(mod_pak(m)) {
            return Some(format!("baked mod {n} is missing from the output or differs"));
        }
    }
    if !rest.is_empty() {
        return Some(format!("unexpected files {:?}", rest.keys().collect::<Vec<_>>()));
    }
    if w.mods.is_empty() {
        return if kept { None } else { Some("nothing to integrate, but the pak changed".into()) };
    }
    let mut files = match old.map(|b| unpak(b)) {
        Some(Ok(f)) => f,
        Some(Err(e)) => return Some(format!("the generated pak is unreadable: {e}")),
        None => return Some("no pak was generated".into()),
    };
    // handlers and dynamic mods
    let ids: Vec<String> = part.iter().map(|m| m.id.clone()).collect();
    let mut want: Vec<Call> = w.mods.iter().filter(|m| m.kind == Kind::Dynamic).map(|m| (m.id.clone(), vec![], ids.clone())).collect();
    for h in &w.handlers {
        let data = part.iter().filter_map(|m| m.meta["integrator"].get(h).or(m.meta.get(h))).cloned().collect();
        want.push((h.to_string(), data, ids.clone()));
    }
    let mut calls = r.calls.clone();
    let nd = want.len() - w.handlers.len();
    if calls.len() >= nd {
        calls[nd..].sort_by_key(|c| w.handlers.iter().position(|h| *h == c.0));
    }
    if calls != want {
        return Some(format!("handlers and dynamic mods were called with {calls:?}, should be {want:?}"));
    }
    if r.game_paks.iter().any(|n| *n != w.game.len()) {
        return Some(format!("not every game pak was handed to the handlers: {:?}", r.game_paks));
    }
    for (who, data, _) in &want {
        if files.remove(&format!("by/{who}")) != Some(format!("{who}:{data:?}").into_bytes()) {
            return Some(format!("what {who} added is not in the pak"));
        }
    }
    // the table of mods and the static data
    let dir = format!("{GAME}/Content/Integrator");
    let v = ue4_23();
    let starters: Files = mc::starter::files().into_iter().collect();
    let original = |n: &str| table_of(&parse_bytes(&starters[&format!("{n}.uasset")], Some(&starters[&format!("{n}.uexp")]), v.engine).unwrap());
    let rows: Vec<((String, i32), Row)> = part.iter().map(|m| ((m.id.clone(), 0), expected_row(m))).collect();
    if let Some(e) = expect_asset(&mut files, &format!("{dir}/ListOfMods"), &original("ListOfMods"), &mut |n| vec![list_of_mods(n, &v, &rows)]) {
        return Some(e);
    }
    let own = [prop("IntegratorVersion", Val::Str(Some(VERSION.into()))), prop("RefuseMismatchedConnections", Val::Bool(w.refuse))];
    if let Some(e) = expect_asset(&mut files, &format!("{dir}/IntegratorStatics_BP"), &original("IntegratorStatics_BP"), &mut |n| vec![statics(n, &v, &own)]) {
        return Some(e);
    }
    for (n, b) in &starters {
        if n.starts_with("ListOfMods") || n.starts_with("IntegratorStatics_BP") {
            continue;
        }
        if files.remove(&format!("{dir}/{n}")).as_ref() != Some(b) {
            return Some(format!("{n} is missing from the pak or differs"));
        }
    }
    match files.remove("metadata.json").and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
        Some(m) if m["mod_id"].is_string() && m["schema_version"].is_number() => {}
        _ => return Some("the pak has no metadata".into()),
    }
    if let Some(e) = maps(&mut files) {
        return Some(e);
    }
    if !files.is_empty() {
        return Some(format!("unexpected entries {:?}", files.keys().collect::<Vec<_>>()));
    }
    None
}
pub fn meta(id: &str) -> Value {
    json!({"schema_version": 2, "name": format!("The {id}"), "mod_id": id, "version": "1.0.0", "author": "Someone", "description": "What it does", "game_build": "1.2.3.4", "homepage": "https://example.org", "sync": "serverclient"})
}
