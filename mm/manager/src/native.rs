//! P32: the game is started with the native code of the enabled mods, and with no other.
use crate::background_work::BackgroundThreadMessage as Msg;
use crate::config::InstallManager;
use crate::disk::{under, Plan};
use crate::game_platform_managers::{GetGameBuildTrait, ProtonInstallManager, LOADER_DLL_NAME, PROXY_DLL_NAME};
use crate::install::tree;
use crate::version::GameBuild;
use crate::world::*;
use crate::FileToProcess;
use mc::core::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::{Duration, Instant};
use unreal_cpp_bootstrapper::config::*;
use unreal_cpp_bootstrapper::{bootstrap, LOADER_DLL, PROXY_DLL};
use unreal_pak::{pakversion::PakVersion, PakMemory};

/// the platform of Windows only differs in where things are
mod windows {
    pub use crate::game_platform_managers::*;
    #[path = "/repo/unreal_mod_manager/src/game_platform_managers/steam.rs"]
    pub mod steam;
}
const APP: u32 = 361420;

#[derive(Debug)]
struct NoBuild;
impl<T> GetGameBuildTrait<T> for NoBuild {
    fn get_game_build(&self, _: &T) -> Option<GameBuild> {
        None
    }
}

// ---- taking the libraries out of the paks ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lib {
    A,
    B,
    /// same folder, other bytes, nothing in it
    Empty,
    Big,
    Spaced,
    /// the name of A in another folder
    Twin,
    Bare,
    Engine,
    Missing,
    /// a name that is not one
    Up,
    UpUp,
    Back,
}
impl Lib {
    fn declared(self) -> &'static str {
        match self {
            Lib::A => "/Game/Mods/One/a.dll",
            Lib::B => "/Game/b.dll",
            Lib::Empty => "/Game/Mods/One/empty.dll",
            Lib::Big => "/Game/Mods/big.v2.dll",
            Lib::Spaced => "/Game/Mods/One/Zwei ä.dll",
            Lib::Twin => "/Game/Mods/Two/a.dll",
            Lib::Bare => "bare.dll",
            Lib::Engine => "/Engine/e.dll",
            Lib::Missing => "/Game/Mods/missing.dll",
            Lib::Up => "/Game/Mods/..",
            Lib::UpUp => "/Game/Mods/../../../../evil.dll",
            Lib::Back => "/Game/..\\..\\evil.dll",
        }
    }
    fn entry(self) -> Option<String> {
        match self {
            Lib::Missing | Lib::Bare | Lib::Engine => None,
            l => l.declared().strip_prefix("/Game/").map(|r| format!("{GAME}/Content/{r}")),
        }
    }
    fn data(self) -> Vec<u8> {
        match self {
            Lib::Empty => vec![],
            Lib::Big => (0..200_000u32).map(|i| (i.wrapping_mul(i) / 7) as u8).collect(),
            l => format!("library {l:?}").into_bytes(),
        }
    }
    /// file it becomes; None: it is not for the loader
    fn file(self) -> Option<&'static str> {
        match self {
            Lib::Bare | Lib::Engine => None,
            l => l.declared().rsplit('/').next(),
        }
    }
}
#[derive(Clone, Debug)]
enum Pak {
    Mod(Vec<Lib>),
    /// a mod's libraries that it does not declare
    Undeclared(Vec<Lib>),
    NoMeta,
    BadMeta,
    V1,
    Garbage,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Before {
    Nothing,
    Stale,
    File,
    NoPaks,
}
fn meta(id: &str, libs: &[Lib]) -> Value {
    json!({"schema_version": 2, "name": id, "mod_id": id, "version": "1.0.0", "cpp_loader_dlls": libs.iter().map(|l| l.declared()).collect::<Vec<_>>()})
}
impl Pak {
    fn bytes(&self, id: &str, compressed: bool) -> Vec<u8> {
        let mut m = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
        let libs: &[Lib] = match self {
            Pak::Mod(l) | Pak::Undeclared(l) => l,
            _ => &[],
        };
        for l in libs {
            if let Some(e) = l.entry() {
                m.set_entry(e, l.data());
            }
            m.set_entry(format!("bare{l:?}.dll"), l.data());
        }
        match self {
            Pak::Mod(l) => m.set_entry("metadata.json".into(), meta(id, l).to_string().into_bytes()),
            Pak::Undeclared(_) => m.set_entry("metadata.json".into(), meta(id, &[]).to_string().into_bytes()),
            Pak::V1 => m.set_entry("metadata.json".into(), json!({"schema_version": 1, "name": id, "mod_id": id, "version": "1.0.0"}).to_string().into_bytes()),
            Pak::BadMeta => m.set_entry("metadata.json".into(), b"{".to_vec()),
            Pak::NoMeta => m.set_entry("x.uasset".into(), vec![1]),
            Pak::Garbage => return vec![7; 300],
        }
        let mut c = std::io::Cursor::new(vec![]);
        let mut w = unreal_pak::PakWriter::new(&mut c, PakVersion::FnameBasedCompressionMethod);
        for (n, d) in m.iter() {
            w.write_entry(n, d, compressed).unwrap();
        }
        w.finish_write().unwrap();
        c.into_inner()
    }
}
fn extraction(ctx: &Ctx, paks: &[Pak], before: Before, compressed: bool) -> Result<(), String> {
    let s = Scratch::new("nat");
    let dir = s.0.join("a").join("paks");
    let out = s.0.join("a").join("loader").join("mods");
    fs::create_dir_all(s.0.join("a")).unwrap();
    if before != Before::NoPaks {
        fs::create_dir(&dir).unwrap();
        for (i, p) in paks.iter().enumerate() {
            fs::write(dir.join(format!("{i:03}-M{i}-1.0.0_P.pak")), p.bytes(&format!("M{i}"), compressed && i % 2 == 0)).unwrap();
        }
    }
    match before {
        Before::Stale => {
            fs::create_dir_all(out.join("sub")).unwrap();
            fs::write(out.join("old.dll"), b"old").unwrap();
            fs::write(out.join("a.dll"), vec![9; 100]).unwrap();
            fs::write(out.join("sub").join("old.dll"), b"old").unwrap();
        }
        Before::File => {
            fs::create_dir_all(out.parent().unwrap()).unwrap();
            fs::write(&out, b"file").unwrap();
        }
        _ => {}
    }
    let mut was = Files::new();
    tree(&s.0, "", &mut was);
    let r = guard(|| bootstrap(GAME, &out, &dir)).map_err(|p| format!("panicked: {p}"))?;
    ctx.trace();
    ctx.step(paks.len() as u64 + 1);
    let mut now = Files::new();
    tree(&s.0, "", &mut now);
    let mut want: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
    let (mut must_fail, mut may_fail) = (before == Before::NoPaks, before == Before::File);
    for p in paks {
        match p {
            Pak::Garbage | Pak::BadMeta => must_fail = true,
            Pak::Mod(l) => {
                for l in l {
                    must_fail |= matches!(l, Lib::Missing | Lib::Up);
                    may_fail |= matches!(l, Lib::UpUp | Lib::Back);
                    if let Some(f) = l.file() {
                        want.entry(format!("/a/loader/mods/{f}")).or_default().insert(l.data());
                    }
                }
            }
            _ => {}
        }
    }
    // nothing else is touched
    for n in was.keys().chain(now.keys()) {
        if !n.starts_with("/a/loader/mods/") && was.get(n) != now.get(n) && !(n == "/a/loader/mods" && before == Before::File) {
            return Err(format!("{n} was changed"));
        }
    }
    for (n, b) in now.iter().filter(|n| n.0.starts_with("/a/loader/mods/")) {
        match want.get(n) {
            None => return Err(format!("{n} is no library of these mods")),
            Some(w) if !w.contains(b) && r.is_ok() => return Err(format!("{n} does not hold the library")),
            _ => {}
        }
    }
    match r {
        Ok(()) if must_fail => Err("no error".into()),
        Ok(()) => {
            ctx.outcome("extracted");
            match want.keys().find(|k| !now.contains_key(*k) && !k.contains("evil")) {
                Some(k) => Err(format!("{k} was not extracted")),
                None => Ok(()),
            }
        }
        Err(e) if !must_fail && !may_fail => Err(format!("error {e}")),
        Err(_) => {
            ctx.outcome("extraction reported");
            Ok(())
        }
    }
}

// ---- the game's settings ----

fn settings(i: usize) -> (GameSettings, Value) {
    let b = |k: usize| i >> k & 1 == 1;
    let ext = |s: &str| ExtendedPattern { pattern: s.into(), first_op_codes: 3, total_byte_instruction: 7 };
    let extj = |s: &str| json!({"pattern": s, "first_op_codes": 3, "total_byte_instruction": 7});
    let mut s = GameSettings {
        is_using_fchunked_fixed_uobject_array: b(0),
        uses_fname_pool: b(1),
        is_using_deferred_spawn: b(2),
        is_using_4_22: b(3),
        is_default_object_arrayed: b(4),
        delay_gui_spawn: b(5),
        ..Default::default()
    };
    let mut j = json!({"is_using_fchunked_fixed_uobject_array": b(0), "uses_fname_pool": b(1), "is_using_deferred_spawn": b(2), "is_using_4_22": b(3), "is_default_object_arrayed": b(4), "delay_gui_spawn": b(5),
        "begin_play_overwrite": null, "g_info_settings": null, "uobject_def_settings": null, "ufield_def_settings": null, "ustruct_def_settings": null, "ufunction_def_settings": null,
        "property_settings": null, "function_info_settings": null, "process_internal_function_settings": null, "static_construct_object_internal_info_settings": null});
    // each part present, alone and with the others
    let all = i / 64 == 11;
    let has = |k: usize| all || i / 64 == k;
    if has(1) {
        s.begin_play_overwrite = Some("over".into());
        j["begin_play_overwrite"] = json!("over");
    }
    if has(2) {
        s.g_info_settings = Some(GInfo::Patterns(GInfoPatterns { g_name: Some(ext("n")), g_object: None, g_world: Some(ext("w")) }));
        j["g_info_settings"] = json!({"Patterns": {"g_name": extj("n"), "g_object": null, "g_world": extj("w")}});
    }
    if has(3) {
        s.g_info_settings = Some(GInfo::Offsets(GInfoOffsets { g_name: None, g_object: Some(5), g_world: Some(u32::MAX) }));
        j["g_info_settings"] = json!({"Offsets": {"g_name": null, "g_object": 5, "g_world": u32::MAX}});
    }
    if has(4) {
        s.uobject_def_settings = Some(UObjectDef { index: 1, class: 2, name: 3, outer: 4 });
        j["uobject_def_settings"] = json!({"index": 1, "class": 2, "name": 3, "outer": 4});
    }
    if has(5) {
        s.ufield_def_settings = Some(UFieldDef { next: 5 });
        s.ustruct_def_settings = Some(UStructDef { super_struct: 6, children: 7, properties_size: 8 });
        j["ufield_def_settings"] = json!({"next": 5});
        j["ustruct_def_settings"] = json!({"super_struct": 6, "children": 7, "properties_size": 8});
    }
    if has(6) {
        s.ufunction_def_settings = Some(UFunctionDef { function_flags: 9, func: 10 });
        j["ufunction_def_settings"] = json!({"function_flags": 9, "func": 10});
    }
    if has(7) {
        s.property_settings = Some(Property { array_dim: 11, offset: 12, fproperty: Some(FField { name: 13, next: 14 }) });
        j["property_settings"] = json!({"array_dim": 11, "offset": 12, "fproperty": {"name": 13, "next": 14}});
    }
    if has(8) {
        s.function_info_settings = Some(FunctionInfo::Patterns(FunctionInfoPatterns {
            game_state_init: Some("a".into()),
            begin_play: Some("b".into()),
            static_load_object: Some("c".into()),
            spawn_actor_ftrans: Some("d".into()),
            call_function_by_name_with_arguments: Some("e".into()),
            process_event: Some("f".into()),
            create_default_object: None,
        }));
        j["function_info_settings"] = json!({"Patterns": {"game_state_init": "a", "begin_play": "b", "static_load_object": "c", "spawn_actor_ftrans": "d", "call_function_by_name_with_arguments": "e", "process_event": "f", "create_default_object": null}});
    }
    if has(9) {
        s.function_info_settings = Some(FunctionInfo::Offsets(FunctionInfoOffsets {
            game_state_init: Some(1),
            begin_play: Some(2),
            static_load_object: Some(3),
            spawn_actor_ftrans: None,
            call_function_by_name_with_arguments: Some(5),
            process_event: Some(6),
            create_default_object: Some(7),
        }));
        j["function_info_settings"] = json!({"Offsets": {"game_state_init": 1, "begin_play": 2, "static_load_object": 3, "spawn_actor_ftrans": null, "call_function_by_name_with_arguments": 5, "process_event": 6, "create_default_object": 7}});
    }
    if has(10) {
        s.process_internal_function_settings = Some(ProcessInternalFunction { process_internal: "p \"q\"".into() });
        s.static_construct_object_internal_info_settings = Some(StaticConstructObject_InternalInfo { is_using_updated_static_construct: true, static_construct_object_internal_function: "ä".into() });
        j["process_internal_function_settings"] = json!({"process_internal": "p \"q\""});
        j["static_construct_object_internal_info_settings"] = json!({"is_using_updated_static_construct": true, "static_construct_object_internal_function": "ä"});
    }
    (s, j)
}

// ---- from the list of mods to the running game ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Mod {
    Alpha,
    Beta,
    Plain,
    /// declares a library that is not the loader's
    Odd,
    /// declares a library it does not have
    Broken,
    Gamma,
}
const MODS: [Mod; 5] = [Mod::Alpha, Mod::Beta, Mod::Plain, Mod::Odd, Mod::Broken];
impl Mod {
    fn libs(self) -> &'static [Lib] {
        match self {
            Mod::Alpha => &[Lib::A],
            Mod::Beta => &[Lib::B, Lib::Empty],
            Mod::Plain => &[],
            Mod::Odd => &[Lib::Bare],
            Mod::Broken => &[Lib::Missing],
            Mod::Gamma => &[Lib::Spaced, Lib::Big],
        }
    }
    fn id(self) -> String {
        format!("{self:?}")
    }
    fn file(self) -> String {
        format!("{:03}-{self:?}-1.0.0_P.pak", self as usize * 7 + 1)
    }
    fn bytes(self) -> Vec<u8> {
        if self == Mod::Plain {
            Pak::Undeclared(vec![Lib::Twin]).bytes(&self.id(), false)
        } else {
            Pak::Mod(self.libs().to_vec()).bytes(&self.id(), false)
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Integrate,
    Launch,
    Remove(Mod),
    Import(Mod),
    Restart,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// no folder for the game's programs
    NoBinaries,
    /// there is a file where the loader's folder has to be
    LoaderFile,
    /// there is a folder where the proxy has to be
    ProxyDir,
    /// the game cannot be started
    NoOpen,
    NoSteam,
}
#[derive(Clone, Debug)]
struct Case {
    proton: bool,
    on: Vec<Mod>,
    steps: Vec<Step>,
    fault: Fault,
    settings: usize,
}
/// What there was when the game started.
#[derive(Debug, Clone)]
struct Seen {
    url: String,
    binaries: Files,
    config: Option<Vec<u8>>,
    libs: Files,
    registry: Option<Vec<u8>>,
}
fn registered(b: &[u8]) -> Result<(), String> {
    let text = match b {
        [0xff, 0xfe, rest @ ..] => String::from_utf16_lossy(&rest.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect::<Vec<_>>()),
        b => String::from_utf8_lossy(b).to_string(),
    };
    let mut lines = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
    let first = lines.next().unwrap_or("");
    if !["Windows Registry Editor Version 5.00", "REGEDIT4", "REGEDIT"].contains(&first) {
        return Err(format!("not a registry file: {text:?}"));
    }
    let mut section = String::new();
    for l in lines {
        if l.starts_with('[') {
            section = l.to_lowercase();
        } else if section == format!("[hkey_current_user\\software\\wine\\appdefaults\\{GAME}-Win64-Shipping.exe\\dlloverrides]").to_lowercase() && (l == "\"xinput1_3\"=\"native,builtin\"" || l == "\"xinput1_3\"=\"native\"") {
            return Ok(());
        }
    }
    Err(format!("the override is not registered: {text:?}"))
}
fn check(ctx: &Ctx, c: &Case) -> Result<(), String> {
    check_on(ctx, c, Plan::Count).map(|_| ())
}
/// The same on a disk that does as planned; answers with the calls that reached the disk.
fn check_on(ctx: &Ctx, c: &Case, plan: Plan) -> Result<Vec<usize>, String> {
    let steady = plan == Plan::Count;
    let mut disk_calls = vec![];
    BAKED.with(|b| b.borrow_mut().clear());
    let s = Scratch::new("nat");
    let steam = s.0.join("steam");
    let install = steam.join("steamapps").join("common").join(GAME);
    let binaries = install.join(GAME).join("Binaries").join("Win64");
    let prefix = steam.join("steamapps").join("compatdata").join(APP.to_string()).join("pfx");
    let user = prefix.join("drive_c").join("users").join("steamuser");
    let temp = if c.proton { user.join("Temp") } else { s.0.join("tmp") };
    let loader = temp.join("unrealmodding").join("cpp_loader");
    let game = install.join(GAME).join("Content").join("Paks");
    for d in [&game, &user.join("AppData").join("Local"), &temp, &s.mods()] {
        fs::create_dir_all(d).unwrap();
    }
    fs::write(game.join("game.pak"), pak(&[("g.uasset", vec![3])])).unwrap();
    if c.fault != Fault::NoBinaries {
        fs::create_dir_all(&binaries).unwrap();
        fs::write(binaries.join("Game.exe"), b"game").unwrap();
        fs::write(binaries.join(LOADER_DLL_NAME), b"from before").unwrap();
        if c.fault == Fault::ProxyDir {
            fs::create_dir_all(binaries.join(PROXY_DLL_NAME).join("x")).unwrap();
        } else {
            fs::write(binaries.join(PROXY_DLL_NAME), b"from before").unwrap();
        }
    }
    if c.fault == Fault::LoaderFile {
        fs::create_dir_all(loader.parent().unwrap()).unwrap();
        fs::write(&loader, b"file").unwrap();
    } else {
        fs::create_dir_all(loader.join("mods")).unwrap();
        fs::write(loader.join("mods").join("stale.dll"), b"stale").unwrap();
        fs::write(loader.join("config.json"), vec![b'x'; 9000]).unwrap();
    }
    let mut cfg = serde_json::Map::new();
    for m in MODS {
        fs::write(s.mods().join(m.file()), m.bytes()).unwrap();
        cfg.insert(m.id(), json!({"force_latest": true, "priority": 0, "enabled": c.on.contains(&m), "version": "1.0.0"}));
    }
    fs::write(s.mods().join("modconfig.json"), json!({"selected_game_platform": "Steam", "refuse_mismatched_connections": true, "current": {"mods": cfg}, "trusted_mods": [], "profiles": []}).to_string()).unwrap();

    let (set, doc) = settings(c.settings);
    let seen: Rc<RefCell<Vec<Seen>>> = Default::default();
    {
        let (seen, binaries, loader, registry, fails) = (seen.clone(), binaries.clone(), loader.clone(), prefix.join("registered"), c.fault == Fault::NoOpen);
        open::set(Some(Rc::new(move |url| {
            if fails {
                return Err(std::io::Error::from_raw_os_error(libc::ENOENT));
            }
            seen.borrow_mut().push(Seen { url: url.into(), binaries: snapshot(&binaries), config: fs::read(loader.join("config.json")).ok(), libs: snapshot(&loader.join("mods")), registry: fs::read(&registry).ok() });
            Ok(())
        })));
    }
    let tmpdir = std::env::var_os("TMPDIR");
    if !c.proton {
        std::env::set_var("TMPDIR", &temp);
    }
    let app = steamlocate::SteamApp { appid: APP, path: install.clone() };
    steamlocate::set((c.fault != Fault::NoSteam).then(|| steamlocate::SteamDir { path: steam.clone(), installed: [(APP, app)].into() }));
    let mut enabled: BTreeSet<Mod> = c.on.iter().cloned().collect();
    let mut have: BTreeSet<Mod> = MODS.into_iter().collect();
    let mut wanted_launches = 0;
    let mut result = Ok(());
    let mut messages = vec![];
    // what the game has to be started with at each launch; None: this life has not integrated, or could not
    let mut expected: Vec<Option<BTreeSet<Mod>>> = vec![];
    let mut installed: Option<BTreeSet<Mod>> = None;
    let mut any_broken = false;
    let mut launch_must_fail = false;
    let later = Instant::now() + Duration::from_secs(3600);
    let mut lives: Vec<(Vec<Msg>, usize, bool, bool)> = vec![];
    for (i, st) in c.steps.iter().chain([&Step::Restart]).enumerate() {
        match st {
            Step::Integrate => {
                messages.push(Msg::Integrate(later + Duration::from_secs(i as u64)));
                let native = enabled.iter().any(|m| !m.libs().is_empty());
                any_broken |= enabled.contains(&Mod::Broken) || (c.fault == Fault::LoaderFile && native);
                installed = Some(enabled.clone());
            }
            Step::Launch => {
                messages.push(Msg::LaunchGame);
                let native = installed.as_ref().map(|i| i.iter().any(|m| !m.libs().is_empty())).unwrap_or(false);
                let fails = match c.fault {
                    Fault::None => false,
                    Fault::NoOpen | Fault::NoSteam => true,
                    _ => native,
                };
                launch_must_fail |= fails;
                if !fails {
                    wanted_launches += 1;
                    expected.push(installed.clone().filter(|i| !i.contains(&Mod::Broken)));
                }
            }
            Step::Remove(m) => {
                messages.push(Msg::RemoveMod(m.id()));
                enabled.remove(m);
                have.remove(m);
            }
            Step::Import(m) => {
                let p = s.0.join(m.file());
                fs::write(&p, m.bytes()).unwrap();
                messages.push(Msg::Import(vec![FileToProcess::new(p, true)]));
                if have.insert(*m) {
                    enabled.insert(*m);
                }
            }
            Step::Restart => {
                // what an import switches on is kept when the settings are saved
                messages.push(Msg::WriteConfig);
                lives.push((std::mem::take(&mut messages), wanted_launches, any_broken, launch_must_fail));
                installed = None;
                any_broken = false;
                launch_must_fail = false;
            }
        }
    }
    let mut total = 0;
    for (messages, launches, broken, must_fail) in lives {
        ctx.step(messages.len() as u64);
        let ints = messages.iter().filter(|m| matches!(m, Msg::Integrate(_))).count();
        let platform: Box<dyn InstallManager> = if c.proton { Box::new(ProtonInstallManager::new(APP, GAME, Box::new(NoBuild))) } else { Box::new(windows::steam::SteamInstallManager::new(APP, GAME, Box::new(NoBuild))) };
        let (life, calls) = under(plan, || live_on(&s, [("Steam", platform)].into(), set.clone(), messages, None));
        disk_calls.extend(calls);
        let life = match life {
            Ok(l) => l,
            Err(e) => {
                result = Err(e);
                break;
            }
        };
        total = launches;
        let d = life.data.lock();
        let w: Vec<String> = d.warnings.iter().map(|w| w.to_string()).collect();
        if !steady {
            match seen.borrow().len() {
                0 if w.is_empty() => result = Err("the game is not started and there is no warning".into()),
                // what a failed integration leaves behind is left open
                1 if d.failed => expected.clear(),
                0 | 1 => {}
                n => result = Err(format!("the game was started {n} times")),
            }
            break;
        }
        let worked = ints == 0 || c.fault == Fault::NoSteam;
        if (must_fail || (broken && !worked)) && w.is_empty() {
            result = Err("a step failed and there is no warning".into());
        }
        if !must_fail && !broken && c.fault == Fault::None && (!w.is_empty() || d.failed) {
            result = Err(format!("warnings {w:?}, failed {}", d.failed));
        }
        if seen.borrow().len() != launches {
            result = Err(format!("the game was started {} times, expected {launches}; {w:?}", seen.borrow().len()));
        }
        if result.is_err() {
            break;
        }
    }
    if !c.proton {
        match tmpdir {
            Some(t) => std::env::set_var("TMPDIR", t),
            None => std::env::remove_var("TMPDIR"),
        }
    }
    open::set(None);
    steamlocate::set(None);
    ctx.trace();
    result?;
    let _ = total;
    for (k, (e, got)) in expected.iter().zip(seen.borrow().iter()).enumerate() {
        let at = |m: String| format!("launch {k}: {m}");
        if got.url != format!("steam://run/{APP}") {
            return Err(at(format!("opened {}", got.url)));
        }
        if c.fault != Fault::NoBinaries && got.binaries.get("Game.exe").map(|b| &b[..]) != Some(b"game") {
            return Err(at("the game's own files were changed".into()));
        }
        let Some(mods) = e else { continue };
        let libs: Files = mods.iter().flat_map(|m| m.libs()).filter_map(|l| Some((l.file()?.to_string(), l.data()))).collect();
        let dlls: Vec<(&String, &Vec<u8>)> = got.binaries.iter().filter(|b| b.0 != "Game.exe" && c.fault != Fault::ProxyDir).collect();
        if mods.iter().all(|m| m.libs().is_empty()) {
            if !dlls.is_empty() {
                return Err(at(format!("no mod has native code, but {:?} is there", dlls.iter().map(|d| d.0).collect::<Vec<_>>())));
            }
            ctx.outcome("started without the loader");
            continue;
        }
        ctx.outcome("started with the loader");
        if got.libs != libs {
            return Err(at(format!("libraries {:?}, expected {:?}", got.libs.keys(), libs.keys())));
        }
        let want: Vec<(String, Vec<u8>)> = vec![(LOADER_DLL_NAME.into(), LOADER_DLL.to_vec()), (PROXY_DLL_NAME.into(), PROXY_DLL.to_vec())];
        if dlls.iter().map(|d| (d.0.clone(), d.1.clone())).collect::<Vec<_>>() != want {
            return Err(at(format!("the loader is not in place: {:?}", dlls.iter().map(|d| d.0).collect::<Vec<_>>())));
        }
        match got.config.as_ref().map(|b| serde_json::from_slice::<Value>(b)) {
            Some(Ok(v)) if v == doc => {}
            v => return Err(at(format!("loader settings {v:?}, expected {doc}"))),
        }
        if c.proton {
            match &got.registry {
                None => return Err(at("nothing was registered with wine".into())),
                Some(b) => registered(b).map_err(at)?,
            }
        }
    }
    // after the last integration
    if c.steps.last() == Some(&Step::Integrate) && c.fault == Fault::None && !enabled.iter().any(|m| !m.libs().is_empty()) {
        let left: Vec<String> = snapshot(&binaries).into_keys().filter(|k| k != "Game.exe").collect();
        if !left.is_empty() {
            return Err(format!("{left:?} is left in the game's folder"));
        }
    }
    Ok(disk_calls)
}
/// A wine that only says which registry file it was given.
fn wine() -> Scratch {
    let s = Scratch::new("wine");
    let p = s.0.join("wine");
    fs::write(
        &p,
        r#"#!/bin/bash
[ "$1" = regedit ] || exit 1
shift
for a in "$@"; do
    case "$a" in
    [cC]:*) q="${a:2}"; f=$(find "$WINEPREFIX/drive_c" -ipath "$WINEPREFIX/drive_c${q//\\//}" -print -quit) ;;
    [zZ]:*) q="${a:2}"; f="${q//\\//}" ;;
    *) continue ;;
    esac
    [ -f "$f" ] || exit 1
    cat "$f" > "$WINEPREFIX/registered"
done
"#,
    )
    .unwrap();
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:{}", s.0.display(), std::env::var("PATH").unwrap_or_default()));
    s
}

pub fn run(ctx: &Ctx) {
    let _wine = wine();
    // extraction
    let libs = [Lib::A, Lib::B, Lib::Empty, Lib::Big, Lib::Spaced, Lib::Twin, Lib::Bare, Lib::Engine, Lib::Missing, Lib::Up, Lib::UpUp, Lib::Back];
    let mut paks: Vec<Pak> = vec![Pak::NoMeta, Pak::BadMeta, Pak::V1, Pak::Garbage, Pak::Undeclared(vec![Lib::A, Lib::Up, Lib::B]), Pak::Mod(vec![])];
    for n in 1..=2 {
        all_seqs(libs.len(), n, |q| {
            paks.push(Pak::Mod(q.iter().map(|i| libs[*i]).collect()));
            true
        });
    }
    let mut sets: Vec<(Vec<Pak>, Before, bool)> = vec![];
    for b in [Before::Nothing, Before::Stale, Before::File, Before::NoPaks] {
        for z in [false, true] {
            sets.push((vec![], b, z));
            sets.extend(paks.iter().map(|p| (vec![p.clone()], b, z)));
        }
    }
    let pairs = if ctx.thorough() { paks.len() } else { 18 };
    for (i, a) in paks[..pairs].iter().enumerate() {
        for (j, b) in paks[..pairs].iter().enumerate() {
            sets.push((vec![a.clone(), b.clone()], if (i + j) % 3 == 0 { Before::Nothing } else { Before::Stale }, (i + j) % 2 == 0));
        }
    }
    par_for(sets.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        let (p, b, z) = &sets[i];
        if let Err(e) = extraction(ctx, p, *b, *z) {
            ctx.violation(&format!("extract:{i}"), format!("{e} :: {p:?} {b:?} compressed {z}"));
        }
    });
    // settings
    for i in 0..12 * 64 {
        ctx.state();
        ctx.trace();
        let (s, j) = settings(i);
        let v = serde_json::to_value(&s).unwrap_or_default();
        if v != j {
            ctx.violation(&format!("settings:{i}"), format!("{v} expected {j}"));
        }
        match serde_json::from_value::<GameSettings>(j.clone()) {
            Ok(r) if r == s => {}
            r => ctx.violation(&format!("settings:{i}"), format!("{j} is read as {r:?}")),
        }
        let m = ModLoaderConfig { settings: s, mods_path: "C:\\x".into() };
        if serde_json::to_value(&m).unwrap_or_default() != json!({"settings": j, "mods_path": "C:\\x"}) {
            ctx.violation(&format!("settings:{i}"), format!("loader config {m:?}"));
        }
    }
    // histories
    let steps = [Step::Integrate, Step::Launch, Step::Remove(Mod::Alpha), Step::Remove(Mod::Beta), Step::Import(Mod::Gamma), Step::Restart];
    let mut cases: Vec<Case> = vec![];
    let ons: Vec<Vec<Mod>> = (0..32usize).map(|k| MODS.into_iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|m| m.1).collect()).collect();
    for n in 1..=ctx.pick(4, 5) {
        all_seqs(steps.len(), n, |q| {
            // only histories in which the game is started or that end with an integration say something
            if q[n - 1] > 1 || q.windows(2).any(|w| w[0] == w[1] && w[0] > 1) || q[0] == 5 {
                return true;
            }
            for (k, on) in ons.iter().enumerate() {
                if n >= 4 && (k > 8 || !q.contains(&0) || !q.contains(&1)) {
                    continue;
                }
                cases.push(Case { proton: true, on: on.clone(), steps: q.iter().map(|i| steps[*i]).collect(), fault: Fault::None, settings: (cases.len() * 7) % (12 * 64) });
            }
            true
        });
    }
    for fault in [Fault::NoBinaries, Fault::LoaderFile, Fault::ProxyDir, Fault::NoOpen, Fault::NoSteam] {
        for n in 1..=2 {
            all_seqs(2, n, |q| {
                for on in &ons {
                    cases.push(Case { proton: true, on: on.clone(), steps: q.iter().map(|i| steps[*i]).collect(), fault, settings: 0 });
                }
                true
            });
        }
    }
    par_for(cases.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        if let Err(e) = check(ctx, &cases[i]) {
            ctx.violation(&format!("start:{i}"), format!("{e} :: {:?}", cases[i]));
        }
    });
    // one call to the disk fails or writes only a part
    let shaky: Vec<Case> = ons.iter().filter(|o| o.iter().any(|m| !m.libs().is_empty()) && !o.contains(&Mod::Broken)).take(ctx.pick(4, 32)).map(|on| Case { proton: true, on: on.clone(), steps: vec![Step::Integrate, Step::Launch], fault: Fault::None, settings: 5 }).collect();
    let mut plans: Vec<(usize, Plan)> = vec![];
    for (i, c) in shaky.iter().enumerate() {
        match check_on(ctx, c, Plan::Count) {
            Ok(calls) => {
                for (k, n) in calls.iter().enumerate() {
                    plans.extend([libc::ENOSPC, libc::EACCES].map(|e| (i, Plan::Fail(k, e))));
                    if *n > 1 {
                        plans.push((i, Plan::Short(k)));
                    }
                }
            }
            Err(e) => ctx.violation(&format!("disk:{i}"), format!("{e} :: {c:?}")),
        }
    }
    par_for(plans.len(), |k| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        let (i, p) = plans[k];
        if let Err(e) = check_on(ctx, &shaky[i], p) {
            ctx.violation(&format!("disk:{i}:{p:?}"), format!("{e} :: {p:?} {:?}", shaky[i]));
        }
    });
    ctx.outcome_n("disk faults", plans.len() as u64);
    // the other platform finds its folders through the environment: one after another
    let windows: Vec<Case> = cases.iter().filter(|c| c.steps.len() <= 2 && c.fault != Fault::NoSteam && c.on.len() <= ctx.pick(2, 5)).map(|c| Case { proton: false, ..c.clone() }).collect();
    for (i, c) in windows.iter().enumerate() {
        if ctx.stopped() {
            break;
        }
        ctx.state();
        if let Err(e) = check(ctx, c) {
            ctx.violation(&format!("windows:{i}"), format!("{e} :: {c:?}"));
        }
    }
    ctx.outcome_n("histories", cases.len() as u64);
    ctx.bound(format!("{} sets of paks (12 kinds of declared libraries, up to 2 per mod and 2 mods, 4 states of the folder), 768 loader settings, histories of up to {} steps (integrate, start, remove, import, restart) from 32 sets of enabled mods, 5 faults", sets.len(), ctx.pick(4, 5)));
    ctx.assume("Steam, wine and the loader itself are stand-ins; a library without an extension and two libraries of one name are left open, as is what happens before the first integration of a session");
    ctx.sample(|| format!("{:?}", cases[cases.len() / 2]));
}
