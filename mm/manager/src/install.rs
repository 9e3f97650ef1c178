//! P31: integrating installs the enabled mods and what they depend on, and nothing else.
use crate::background_work::BackgroundThreadMessage as Msg;
use crate::disk::{under, Plan};
use crate::error::ModLoaderWarningKind as Kind;
use crate::world::*;
use crate::{FileToProcess, ModLoaderAppData};
use mc::core::*;
use semver::{Version, VersionReq};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use unreal_mod_integrator::{integrate_mods, FileMod, IntegratorMod, IntegratorModInfo, INTEGRATOR_PAK_FILE_NAME};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dep {
    id: &'static str,
    req: &'static str,
    /// says where its index file is
    via: bool,
}
fn dep(id: &'static str, req: &'static str) -> Dep {
    Dep { id, req, via: true }
}
fn bare(id: &'static str, req: &'static str) -> Dep {
    Dep { id, req, via: false }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    id: &'static str,
    ver: &'static str,
    prio: u32,
    deps: Vec<Dep>,
    dlls: bool,
    /// says where its own index file is
    index: bool,
}
fn ver(id: &'static str, ver: &'static str, prio: u32, deps: &[Dep]) -> Ver {
    Ver { id, ver, prio, deps: deps.to_vec(), dlls: false, index: false }
}
impl Ver {
    fn version(&self) -> Version {
        Version::parse(self.ver).unwrap()
    }
    fn file(&self) -> String {
        format!("{:03}-{}-{}_P.pak", self.prio, self.id, self.ver)
    }
    fn meta(&self, site: &Site) -> Value {
        let url = |id: &str| json!({"type": "index_file", "url": site.url(&format!("{id}.json"))});
        let deps: serde_json::Map<String, Value> = self.deps.iter().map(|d| (d.id.to_string(), if d.via { json!({"version": d.req, "download": url(d.id)}) } else { json!(d.req) })).collect();
        let mut m = json!({"schema_version": 2, "name": format!("{} {}", self.id, self.ver), "mod_id": self.id, "version": self.ver, "dependencies": deps, "integrator": {"rec": {"who": self.id, "v": self.ver}}});
        if self.index {
            m["download"] = url(self.id);
        }
        if self.dlls {
            m["cpp_loader_dlls"] = json!(["a.dll"]);
        }
        m
    }
    fn bytes(&self, site: &Site) -> Vec<u8> {
        pak(&[("metadata.json", self.meta(site).to_string().into_bytes()), ("x.uasset", format!("{}{}", self.id, self.ver).into_bytes())])
    }
}
/// How the server answers for the file of a version.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sent {
    Good,
    Status,
    /// an error that comes with a file
    StatusFile,
    Cut,
    Hang,
    Garbage,
    OtherId,
    OtherVersion,
    NoMeta,
    BadMeta,
}
/// Which file name the index file gives.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Named {
    Good,
    Up,
    Absolute,
    OtherId,
    OtherVersion,
    Odd,
    /// the name of a mod that is installed
    Theft,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ix {
    Good,
    Status,
    Garbage,
    NoMod,
    Hang,
    Cut,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Remote {
    id: &'static str,
    ix: Ix,
    latest: &'static str,
    versions: Vec<(Ver, Named, Sent)>,
}
fn remote(id: &'static str, vs: &[Ver]) -> Remote {
    let latest = vs.iter().max_by_key(|v| v.version()).map(|v| v.ver).unwrap_or("1.0.0");
    Remote { id, ix: Ix::Good, latest, versions: vs.iter().map(|v| (v.clone(), Named::Good, Sent::Good)).collect() }
}
impl Remote {
    fn serve(&self, site: &Site, outside: &Path) {
        let mut vs = serde_json::Map::new();
        for (v, named, sent) in &self.versions {
            let file = match named {
                Named::Good => v.file(),
                Named::Up => format!("../../{}", v.file()),
                Named::Absolute => outside.join(v.file()).to_string_lossy().to_string(),
                Named::OtherId => Ver { id: "Foreign", ..v.clone() }.file(),
                Named::OtherVersion => Ver { ver: "7.7.7", ..v.clone() }.file(),
                Named::Odd => format!("{}.exe", v.file()),
                Named::Theft => "100-Alpha-1.0.0_P.pak".into(),
            };
            let url = format!("{}-{}", v.id, v.ver);
            vs.insert(v.ver.into(), json!({"download_url": site.url(&url), "filename": file}));
            let good = v.bytes(site);
            site.set(
                &url,
                match sent {
                    Sent::Good => Answer::Ok(good),
                    Sent::Status => Answer::Status(500),
                    Sent::StatusFile => Answer::Not(404, good),
                    Sent::Cut => Answer::Cut(good[..good.len() / 2].to_vec()),
                    Sent::Hang => Answer::Hang,
                    Sent::Garbage => Answer::Ok(vec![9; 400]),
                    Sent::OtherId => Answer::Ok(Ver { id: "Foreign", ..v.clone() }.bytes(site)),
                    Sent::OtherVersion => Answer::Ok(Ver { ver: "7.7.7", ..v.clone() }.bytes(site)),
                    Sent::NoMeta => Answer::Ok(pak(&[("x.uasset", vec![1])])),
                    Sent::BadMeta => Answer::Ok(pak(&[("metadata.json", b"{".to_vec())])),
                },
            );
        }
        let doc = json!({"mods": {self.id: {"latest_version": self.latest, "versions": vs}}}).to_string();
        let doc = match self.ix {
            Ix::Good => Answer::Ok(doc.into_bytes()),
            Ix::Status => Answer::Status(404),
            Ix::Garbage => Answer::Ok(b"{".to_vec()),
            Ix::NoMod => Answer::Ok(b"{\"mods\":{}}".to_vec()),
            Ix::Hang => Answer::Hang,
            Ix::Cut => Answer::Cut(doc.as_bytes()[..doc.len() - 1].to_vec()),
        };
        site.set(&format!("{}.json", self.id), doc);
    }
    fn usable(&self) -> Vec<&(Ver, Named, Sent)> {
        if self.ix != Ix::Good {
            return vec![];
        }
        self.versions.iter().filter(|v| v.1 == Named::Good).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Local {
    v: Ver,
    enabled: bool,
    /// the user chose this version
    forced: bool,
}
fn on(v: Ver) -> Local {
    Local { v, enabled: true, forced: false }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Env {
    Normal,
    NoInstall,
    NoPaks,
    /// there is a file where the paks folder has to be
    PaksFile,
    NoGame,
    EmptyGame,
}
#[derive(Clone, Debug)]
pub enum Step {
    Integrate,
    /// clicked before the previous integration began
    Stale,
    Import(Vec<Ver>),
    Remove(&'static str),
}
#[derive(Clone, Debug)]
pub struct Case {
    local: Vec<Local>,
    remote: Vec<Remote>,
    baked: Vec<&'static str>,
    trusted: Vec<Ver>,
    refuse: bool,
    env: Env,
    steps: Vec<Step>,
    /// at every moment: switch off a mod / choose a version / delete a file
    ui: Option<Act>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Off(&'static str),
    On(&'static str),
    Pick(&'static str, &'static str),
    Delete(&'static str),
    /// agrees to all mods
    Trust,
}
fn case(local: Vec<Local>, remote: Vec<Remote>) -> Case {
    Case { local, remote, baked: vec![], trusted: vec![], refuse: true, env: Env::Normal, steps: vec![Step::Integrate], ui: None }
}

/// What has to be there.
#[derive(Debug, Default, Clone)]
struct Want {
    /// versions in the paks folder
    installed: BTreeMap<String, Ver>,
    /// dependencies without which it has to do
    missing: BTreeSet<String>,
    /// files that cannot be downloaded, index files that are wrong
    trouble: BTreeSet<String>,
    failed: bool,
    baked: BTreeSet<String>,
    /// the answer depends on the order of resolving
    open: bool,
    /// the resolved versions came from the server
    fetched: BTreeSet<String>,
}
/// a mod as the list of mods has it
#[derive(Debug, Clone)]
struct Entry {
    have: Vec<Ver>,
    enabled: bool,
    forced: Option<Ver>,
}
fn selected<'a>(c: &'a Case, id: &str, e: &Entry) -> (Ver, Option<&'a (Ver, Named, Sent)>) {
    let newest = e.forced.clone().unwrap_or_else(|| e.have.iter().max_by_key(|v| v.version()).unwrap().clone());
    if e.forced.is_none() && newest.index {
        if let Some(r) = c.remote.iter().find(|r| r.id == id) {
            if r.ix == Ix::Good {
                let l = r.versions.iter().find(|v| v.0.ver == r.latest && v.1 == Named::Good);
                if let Some(h) = e.have.iter().find(|v| v.ver == r.latest) {
                    return (h.clone(), None);
                }
                if let Some(l) = l {
                    return (l.0.clone(), Some(l));
                }
            }
        }
    }
    (newest, None)
}
fn model(c: &Case, mods: &BTreeMap<String, Entry>) -> Want {
    let mut w = Want::default();
    for (id, e) in mods.iter().filter(|m| m.1.enabled) {
        let (v, from) = selected(c, id, e);
        if let Some((_, _, sent)) = from {
            w.fetched.insert(id.clone());
            if *sent != Sent::Good {
                w.failed = true;
                w.trouble.insert(id.clone());
            }
        }
        w.installed.insert(id.clone(), v);
    }
    if w.failed || w.installed.is_empty() {
        return w;
    }
    let mut own = BTreeSet::new();
    for (id, e) in mods {
        // the index files of the mods in the list
        if let Some(r) = c.remote.iter().find(|r| r.id == id).filter(|_| e.have.iter().any(|v| v.index)) {
            let known = |l: &str| e.have.iter().any(|v| v.ver == l) || r.usable().iter().any(|v| v.0.ver == l);
            if r.ix != Ix::Good || r.versions.iter().any(|v| v.1 != Named::Good) || !known(r.latest) {
                own.insert(id.clone());
            }
        }
    }
    let first: BTreeSet<String> = w.installed.keys().cloned().collect();
    // requirements only grow, so the answer of the least fixpoint is the only one
    loop {
        let mut reqs: BTreeMap<&str, Vec<Dep>> = BTreeMap::new();
        for v in w.installed.values() {
            for d in &v.deps {
                reqs.entry(d.id).or_default().push(*d);
            }
        }
        let before = (w.installed.clone(), w.missing.clone(), w.baked.clone());
        w.missing.clear();
        w.trouble = own.clone();
        for (id, ds) in &reqs {
            let all = |v: &Version| ds.iter().all(|d| VersionReq::parse(d.req).unwrap().matches(v));
            if first.contains(*id) {
                if !all(&w.installed[*id].version()) {
                    w.missing.insert(id.to_string());
                }
                continue;
            }
            if c.baked.contains(id) {
                w.baked.insert(id.to_string());
                continue;
            }
            let r = c.remote.iter().find(|r| r.id == *id);
            let via = ds.iter().any(|d| d.via);
            let usable = r.filter(|_| via).map(|r| r.usable()).unwrap_or_default();
            if via && r.map(|r| r.ix != Ix::Good || r.versions.iter().any(|v| v.1 != Named::Good)).unwrap_or(true) {
                w.trouble.insert(id.to_string());
            }
            let best = usable.iter().filter(|v| all(&v.0.version())).max_by_key(|v| v.0.version());
            let each: BTreeSet<Option<Version>> = ds.iter().map(|d| VersionReq::parse(d.req).unwrap()).map(|q| usable.iter().map(|v| v.0.version()).filter(|v| q.matches(v)).max()).collect();
            if each.len() > 1 || ds.iter().any(|d| d.via) != ds.iter().all(|d| d.via) {
                w.open |= usable.iter().any(|v| v.2 != Sent::Good) || usable.windows(2).any(|v| v[0].0.deps != v[1].0.deps) || each.contains(&None);
            }
            match best {
                Some((v, _, Sent::Good)) => {
                    w.fetched.insert(id.to_string());
                    w.installed.insert(id.to_string(), v.clone());
                }
                Some(_) => {
                    w.trouble.insert(id.to_string());
                    w.missing.insert(id.to_string());
                    // another version may do instead
                    w.open |= usable.iter().filter(|v| all(&v.0.version())).count() > 1;
                }
                None => {
                    w.missing.insert(id.to_string());
                }
            }
        }
        if before == (w.installed.clone(), w.missing.clone(), w.baked.clone()) {
            return w;
        }
    }
}

struct World<'a> {
    s: Scratch,
    site: Site,
    c: &'a Case,
}
pub fn tree(d: &Path, at: &str, out: &mut Files) {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let n = format!("{at}/{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            tree(&e.path(), &n, out);
        } else {
            out.insert(n, fs::read(e.path()).unwrap_or_default());
        }
    }
}
fn entries(b: &[u8]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let mut r = unreal_pak::PakReader::new(std::io::Cursor::new(b));
    r.load_index().map_err(|e| e.to_string())?;
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    names.into_iter().map(|n| r.read_entry(&n).map(|d| (n, d)).map_err(|e| e.to_string())).collect()
}
impl World<'_> {
    fn new(c: &Case) -> World {
        let s = Scratch::new("inst");
        let site = Site::new();
        let w = World { s, site, c };
        let mods = w.s.mods();
        fs::create_dir_all(&mods).unwrap();
        fs::create_dir_all(w.s.0.join("outside")).unwrap();
        c.remote.iter().for_each(|r| r.serve(&w.site, &w.s.0.join("outside")));
        for l in &c.local {
            fs::write(mods.join(l.v.file()), l.v.bytes(&w.site)).unwrap();
        }
        let mut cfg = serde_json::Map::new();
        for l in &c.local {
            if l.forced || !cfg.contains_key(l.v.id) {
                cfg.insert(l.v.id.into(), json!({"force_latest": !l.forced, "priority": 0, "enabled": l.enabled, "version": l.v.ver}));
            }
        }
        let trusted: Vec<String> = c.trusted.iter().map(|v| hex::encode(Sha256::digest(v.bytes(&w.site)))).collect();
        fs::write(mods.join("modconfig.json"), json!({"selected_game_platform": "Steam", "refuse_mismatched_connections": c.refuse, "current": {"mods": cfg}, "trusted_mods": trusted, "profiles": []}).to_string()).unwrap();
        // something from before
        if c.env == Env::PaksFile {
            fs::create_dir_all(w.paks().parent().unwrap()).unwrap();
            fs::write(w.paks(), b"file").unwrap();
        } else {
            fs::create_dir_all(w.paks().join("sub")).unwrap();
            fs::write(w.paks().join("000-Stale-1.0.0_P.pak"), b"old").unwrap();
            fs::write(w.paks().join("sub").join("x"), b"old").unwrap();
        }
        if c.env != Env::NoGame {
            fs::create_dir_all(w.game()).unwrap();
            if c.env != Env::EmptyGame {
                fs::write(w.game().join("game.pak"), pak(&[("g.uasset", vec![3])])).unwrap();
            }
        }
        w
    }
    fn paks(&self) -> PathBuf {
        self.s.0.join("local").join(GAME).join("Saved").join("Paks")
    }
    fn install(&self) -> PathBuf {
        self.s.0.join("install")
    }
    fn game(&self) -> PathBuf {
        self.install().join(GAME).join("Content").join("Paks")
    }
    fn platform(&self) -> Platform {
        Platform { install: (self.c.env != Env::NoInstall).then(|| self.install()), paks: (self.c.env != Env::NoPaks).then(|| self.paks()), build: None, native: self.s.0.join("native") }
    }
    /// The paks folder that has to come out.
    fn expected(&self, w: &Want) -> Result<Files, String> {
        let dir = self.s.0.join("reference");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let mut list: Vec<IntegratorMod<Boom>> = vec![];
        for b in baked() {
            if w.baked.contains(&b.get_mod_id()) {
                list.push(b);
            }
        }
        for v in w.installed.values() {
            let path = dir.join(v.file());
            fs::write(&path, v.bytes(&self.site)).unwrap();
            list.push(FileMod { path, mod_id: v.id.into(), priority: v.prio }.into());
        }
        list.sort_by_key(|m| m.get_priority());
        integrate_mods(&Ic, &list, &dir, &self.game(), self.c.refuse).map_err(|e| format!("reference: {e}"))?;
        let r = snapshot(&dir);
        fs::remove_dir_all(&dir).unwrap();
        Ok(r)
    }
    fn same_paks(&self, got: &Files, want: &Files) -> Option<String> {
        let names = |f: &Files| f.keys().cloned().collect::<Vec<_>>();
        if names(got) != names(want) {
            return Some(format!("paks folder holds {:?}, expected {:?}", names(got), names(want)));
        }
        for (n, g) in got {
            if g == &want[n] {
                continue;
            }
            if n != INTEGRATOR_PAK_FILE_NAME {
                return Some(format!("{n} in the paks folder is not the mod's file"));
            }
            let (g, w) = match (entries(g), entries(&want[n])) {
                (Ok(g), Ok(w)) => (g, w),
                (g, w) => return Some(format!("generated pak: {:?} expected {:?}", g.err(), w.err())),
            };
            if g != w {
                let d: Vec<&String> = g.keys().chain(w.keys()).filter(|k| g.get(*k) != w.get(*k)).collect();
                return Some(format!("generated pak differs in {d:?}: {:?} expected {:?}", d.first().and_then(|d| g.get(*d)).map(|x| String::from_utf8_lossy(x).to_string()), d.first().and_then(|d| w.get(*d)).map(|x| String::from_utf8_lossy(x).to_string())));
            }
        }
        None
    }
}
/// says what is wrong with an index file or a download
fn explains(d: &ModLoaderAppData, id: &str) -> bool {
    d.warnings.iter().any(|w| w.mod_id.as_ref().map(|m| m == id || m.contains(&format!("-{id}-"))).unwrap_or(false))
}
fn mentions(d: &ModLoaderAppData, id: &str) -> bool {
    d.warnings.iter().any(|w| match (&w.kind, &w.mod_id) {
        (Kind::UnresolvedDependency(x, _), _) => x == id,
        (_, Some(m)) => m == id || m.contains(&format!("-{id}-")),
        _ => false,
    })
}
/// Files of the mods folder are complete and under their own name, and nothing is written elsewhere.
fn only_whole_files(w: &World, before: &Files, c: &Case, extra: &[Ver], temporary: bool, maybe_gone: Option<&String>) -> Result<(), String> {
    let mut now = Files::new();
    tree(&w.s.0, "", &mut now);
    let mods = format!("/local/{GAME}/Saved/Mods/");
    let paks = format!("/local/{GAME}/Saved/Paks/");
    for (n, b) in &now {
        if n.starts_with(&paks) || *n == format!("{mods}modconfig.json") || *n == format!("{mods}modconfig.json.tmp") {
            continue;
        }
        if before.get(n) == Some(b) || maybe_gone == Some(n) {
            continue;
        }
        let known = n.strip_prefix(&mods).and_then(|f| c.remote.iter().flat_map(|r| &r.versions).map(|v| &v.0).chain(extra).find(|v| v.file() == f));
        match known {
            Some(v) if v.bytes(&w.site) == *b => {}
            _ if temporary && !n.ends_with(".pak") && n.starts_with(&mods) => {}
            _ => return Err(format!("{n} was written ({} bytes)", b.len())),
        }
    }
    for n in before.keys() {
        if !now.contains_key(n) && !n.starts_with(&paks) {
            return Err(format!("{n} is gone"));
        }
    }
    Ok(())
}

fn check(ctx: &Ctx, c: &Case) -> Result<(), String> {
    BAKED.with(|b| *b.borrow_mut() = c.baked.iter().map(|id| (*id, baked_bytes(id))).collect());
    let mut at = 0;
    loop {
        let w = World::new(c);
        let mut before = Files::new();
        tree(&w.s.0, "", &mut before);
        // the list of mods at the first integration and at the last
        let mut mods: BTreeMap<String, Entry> = BTreeMap::new();
        for l in &c.local {
            let e = mods.entry(l.v.id.to_string()).or_insert(Entry { have: vec![], enabled: false, forced: None });
            e.have.push(l.v.clone());
            e.enabled |= l.enabled;
            if l.forced {
                e.forced = Some(l.v.clone());
            }
        }
        let mods0 = mods.clone();
        let mut want = Want::default();
        let mut integrated = false;
        let mut troubled = false;
        let mut open = false;
        let mut extra = vec![];
        let mut messages = vec![];
        let later = Instant::now() + Duration::from_secs(3600);
        let sooner = Instant::now().checked_sub(Duration::from_secs(1)).unwrap();
        let mut removed: BTreeSet<String> = BTreeSet::new();
        for (i, s) in c.steps.iter().enumerate() {
            match s {
                Step::Stale if integrated => messages.push(Msg::Integrate(sooner)),
                Step::Integrate | Step::Stale => {
                    messages.push(Msg::Integrate(later));
                    if matches!(c.env, Env::NoInstall | Env::NoPaks) {
                        continue;
                    }
                    integrated = true;
                    want = model(c, &mods);
                    if matches!(c.env, Env::NoGame | Env::EmptyGame | Env::PaksFile) && !want.installed.is_empty() {
                        want.failed = true;
                    }
                    troubled |= c.env == Env::PaksFile;
                    troubled |= want.failed || !want.missing.is_empty() || !want.trouble.is_empty();
                    open |= want.open;
                    // what a failed integration already fetched may stay
                    open |= want.failed && i + 1 < c.steps.len() && want.installed.values().any(|v| !v.deps.is_empty());
                    if !want.failed {
                        for id in &want.fetched {
                            let v = want.installed[id].clone();
                            let e = mods.entry(id.clone()).or_insert(Entry { have: vec![], enabled: true, forced: None });
                            e.enabled = true;
                            if !e.have.contains(&v) {
                                e.have.push(v.clone());
                            }
                            let s = selected(c, id, e).0;
                            if s != v {
                                e.forced = Some(v);
                            }
                        }
                    }
                }
                Step::Import(l) => {
                    let src = w.s.0.join(format!("src{i}"));
                    fs::create_dir(&src).unwrap();
                    let mut files = vec![];
                    for v in l {
                        let p = src.join(v.file());
                        fs::write(&p, v.bytes(&w.site)).unwrap();
                        files.push(FileToProcess::new(p, true));
                        let e = mods.entry(v.id.to_string()).or_insert(Entry { have: vec![], enabled: true, forced: None });
                        e.have.push(v.clone());
                        extra.push(v.clone());
                    }
                    messages.push(Msg::Import(files));
                }
                Step::Remove(id) => {
                    messages.push(Msg::RemoveMod(id.to_string()));
                    if let Some(e) = mods.remove(*id) {
                        removed.extend(e.have.iter().map(|v| v.file()));
                    }
                }
            }
        }
        tree(&w.s.0, "", &mut before);
        let act = |d: &mut ModLoaderAppData| apply(d, &c.ui.unwrap(), &[], &w);
        let platforms = [("Steam", w.platform())];
        let life = live(&w.s, &platforms, messages, c.ui.map(|_| Ui { at, act: &act, follow: false }))?;
        ctx.step(c.steps.len() as u64);
        ctx.trace();
        if life.working {
            return Err("still shown as busy".into());
        }
        let d = life.data.lock();
        if let Some(e) = &d.error {
            return Err(format!("error {e}"));
        }
        let gone: Vec<String> = removed.iter().map(|f| format!("/local/{GAME}/Saved/Mods/{f}")).chain(match c.ui {
            Some(Act::Delete(f)) => Some(format!("/local/{GAME}/Saved/Mods/{f}")),
            _ => None,
        }).collect();
        before.retain(|n, _| !gone.contains(n));
        if c.env != Env::PaksFile {
            only_whole_files(&w, &before, c, &extra, false, gone.iter().find(|_| matches!(c.ui, Some(Act::Delete(_)))))?;
        }
        if c.ui.is_none() {
            if !integrated {
                // nothing to integrate into: everything stays
                if !w.paks().join("000-Stale-1.0.0_P.pak").exists() {
                    return Err("the paks folder was changed".into());
                }
                return Ok(());
            }
            if d.failed != want.failed && !open {
                return Err(format!("failed: {}, expected {}; warnings {:?}", d.failed, want.failed, d.warnings));
            }
            if !troubled && !open && !d.warnings.is_empty() {
                return Err(format!("warnings {:?}", d.warnings));
            }
            if want.failed && !open {
                if d.warnings.is_empty() {
                    return Err("failed without a warning".into());
                }
                for id in &want.trouble {
                    if !explains(&d, id) {
                        return Err(format!("no warning about {id}: {:?}", d.warnings));
                    }
                }
                ctx.outcome("failed");
                return Ok(());
            }
            let got = snapshot(&w.paks());
            if !open {
                for id in want.missing.iter().chain(&want.trouble) {
                    if !mentions(&d, id) || want.trouble.contains(id) && !explains(&d, id) {
                        return Err(format!("no warning about {id}: {:?}", d.warnings));
                    }
                }
                let expected = if want.installed.is_empty() { Files::new() } else { w.expected(&want)? };
                if let Some(e) = w.same_paks(&got, &expected) {
                    return Err(e);
                }
                for (id, v) in &want.installed {
                    let Some(m) = d.game_mods.get(id) else { return Err(format!("{id} is not in the list")) };
                    let sel = m.selected_version.clone().unwrap();
                    if !m.enabled || sel != v.version() || !m.versions[&sel].downloaded || m.versions[&sel].file_name != v.file() {
                        return Err(format!("{id}: installed {}, list has enabled {} selected {} {:?}", v.ver, m.enabled, m.selected_version, m.versions.get(&sel)));
                    }
                }
                let on: BTreeSet<String> = d.game_mods.iter().filter(|m| m.1.enabled).map(|m| m.0.clone()).collect();
                if on != want.installed.keys().cloned().collect() {
                    return Err(format!("enabled {on:?}, expected {:?}", want.installed.keys()));
                }
                // which of them could run code that the user has not agreed to
                let mut u: Vec<(String, String)> = d.untrusted_mods.iter().map(|u| (u.name.clone(), hex(&u.hash))).collect();
                u.sort();
                let trusted: Vec<Vec<u8>> = c.trusted.iter().map(|v| v.bytes(&w.site)).collect();
                let mut e: Vec<(String, String)> = want.installed.values().filter(|v| v.dlls && !trusted.contains(&v.bytes(&w.site))).map(|v| (v.id.to_string(), hex(&Sha256::digest(v.bytes(&w.site))))).collect();
                e.sort();
                if u != e && !want.installed.is_empty() {
                    return Err(format!("untrusted {u:?}, expected {e:?}"));
                }
                for x in &d.untrusted_mods {
                    if !x.version.contains(want.installed[&x.name].ver) {
                        return Err(format!("untrusted {} {}, expected version {}", x.name, x.version, want.installed[&x.name].ver));
                    }
                }
                ctx.outcome(if want.missing.is_empty() { "complete" } else { "with missing dependencies" });
            } else {
                // whatever was chosen: what a mod needs is there or there is a warning
                safe(&w, c, &d, &got, &extra)?;
                ctx.outcome("order-dependent");
            }
            // what was chosen is still chosen after a restart
            let list = |d: &ModLoaderAppData| d.game_mods.iter().map(|(id, m)| (id.clone(), m.enabled, m.selected_version.clone().unwrap())).collect::<BTreeSet<_>>();
            let chosen = list(&d);
            drop(d);
            if !want.installed.is_empty() && (!open || ctx.thorough()) {
                let life = live(&w.s, &platforms, vec![], None).map_err(|e| format!("restarted: {e}"))?;
                let now = list(&life.data.lock());
                if now != chosen {
                    return Err(format!("after a restart {now:?}, before {chosen:?}"));
                }
            }
            if open || want.installed.is_empty() {
                return Ok(());
            }
            // after a restart, integrating again gives the same
            let single = c.remote.iter().all(|r| r.versions.len() < 2) || c.local.iter().all(|l| l.v.deps.len() < 2);
            if want.missing.is_empty() && single && want.trouble.is_empty() {
                let life = live(&w.s, &platforms, vec![Msg::Integrate(later), Msg::Integrate(later)], None).map_err(|e| format!("again: {e}"))?;
                let d = life.data.lock();
                if d.failed || !d.warnings.is_empty() {
                    return Err(format!("again: failed {} {:?}", d.failed, d.warnings));
                }
                if let Some(e) = w.same_paks(&snapshot(&w.paks()), &got) {
                    return Err(format!("again: {e}"));
                }
            }
            return Ok(());
        }
        // with the window in between: each state it was in is acceptable
        if !d.failed {
            let got = snapshot(&w.paks());
            safe(&w, c, &d, &got, &extra).map_err(|e| format!("moment {at}: {e}"))?;
            let choices: Vec<BTreeMap<String, Entry>> = {
                let mut m = mods0.clone();
                match c.ui.unwrap() {
                    Act::Off(id) => {
                        m.get_mut(id).map(|e| e.enabled = false);
                    }
                    Act::On(id) => {
                        m.get_mut(id).map(|e| e.enabled = true);
                    }
                    Act::Pick(id, v) => {
                        m.get_mut(id).map(|e| e.forced = e.have.iter().find(|x| x.ver == v).cloned());
                    }
                    Act::Delete(f) => {
                        m.values_mut().for_each(|e| e.have.retain(|v| v.file() != f));
                        m.retain(|_, e| !e.have.is_empty());
                    }
                    Act::Trust => {}
                }
                vec![mods0.clone(), m]
            };
            let ok: Vec<BTreeSet<String>> = choices.iter().map(|m| model(c, m)).map(|m| m.installed.values().map(|v| v.file()).chain([INTEGRATOR_PAK_FILE_NAME.to_string()]).filter(|_| !m.installed.is_empty()).collect()).collect();
            let mut ok = ok;
            if let Some(Act::Off(id)) = c.ui {
                let mut half = ok[1].clone();
                half.extend(ok[0].iter().filter(|n| n.contains(&format!("-{id}-"))).cloned());
                ok.push(half);
            }
            let names: BTreeSet<String> = got.keys().cloned().collect();
            if !ok.contains(&names) {
                return Err(format!("moment {at}: paks folder holds {names:?}, expected one of {ok:?}"));
            }
        } else if d.warnings.is_empty() {
            return Err(format!("moment {at}: failed without a warning"));
        } else if !matches!(c.ui, Some(Act::Delete(_))) {
            return Err(format!("moment {at}: failed: {:?}", d.warnings));
        }
        if !life.ui_done || at > 80 {
            return Ok(());
        }
        ctx.state();
        at += 1;
    }
}
/// Every file is a mod's own and whole; what a mod needs is there or there is a warning.
fn safe(w: &World, c: &Case, d: &ModLoaderAppData, got: &Files, extra: &[Ver]) -> Result<(), String> {
    let all: Vec<&Ver> = c.local.iter().map(|l| &l.v).chain(c.remote.iter().flat_map(|r| &r.versions).map(|v| &v.0)).chain(extra).collect();
    let mut there: Vec<&Ver> = vec![];
    for (n, b) in got {
        if n == INTEGRATOR_PAK_FILE_NAME || n.starts_with("800-") {
            continue;
        }
        let v = all.iter().find(|v| v.file() == *n && v.bytes(&w.site) == *b).ok_or(format!("{n} in the paks folder is not a mod's file"))?;
        if there.iter().any(|t| t.id == v.id) {
            return Err(format!("two versions of {} are installed", v.id));
        }
        there.push(v);
    }
    // a mod that is switched off while it is being installed is about to be removed again
    for v in there.iter().filter(|v| d.game_mods.get(v.id).map(|m| m.enabled).unwrap_or(true)) {
        for q in &v.deps {
            let r = VersionReq::parse(q.req).unwrap();
            if !there.iter().any(|t| t.id == q.id && r.matches(&t.version())) && !c.baked.contains(&q.id) && !mentions(d, q.id) {
                return Err(format!("{} {} needs {} {}, which is not there, and there is no warning", v.id, v.ver, q.id, q.req));
            }
        }
    }
    Ok(())
}
/// Something the user does.
fn apply(d: &mut ModLoaderAppData, act: &Act, hashes: &[Vec<u8>], w: &World) {
    match *act {
        Act::Off(id) => {
            d.game_mods.get_mut(id).map(|m| m.enabled = false);
        }
        Act::On(id) => {
            d.game_mods.get_mut(id).map(|m| m.enabled = true);
        }
        Act::Pick(id, v) => {
            let v = Version::parse(v).unwrap();
            if let Some(m) = d.game_mods.get_mut(id).filter(|m| m.versions.contains_key(&v)) {
                m.selected_version = crate::game_mod::SelectedVersion::Specific(v);
            }
        }
        Act::Delete(f) => {
            let _ = fs::remove_file(w.s.mods().join(f));
        }
        Act::Trust => d.trusted_mods = hashes.to_vec(),
    }
}
/// The window changes something while the manager works and asks for an integration: what it wants is there in the end.
fn followed(ctx: &Ctx, l: &[Local], act: Act) -> Result<(), String> {
    BAKED.with(|b| b.borrow_mut().clear());
    let c = case(l.to_vec(), vec![]);
    let mut at = 0;
    let mut moments = None;
    loop {
        let w = World::new(&c);
        let platforms = [("Steam", w.platform())];
        let hashes: Vec<Vec<u8>> = l.iter().map(|l| Sha256::digest(l.v.bytes(&w.site)).to_vec()).collect();
        let first = vec![Msg::Integrate(Instant::now())];
        let Some(n) = moments else {
            moments = Some(live(&w.s, &platforms, first, None)?.moments);
            continue;
        };
        if at >= n {
            return Ok(());
        }
        let change = |d: &mut ModLoaderAppData| apply(d, &act, &hashes, &w);
        let life = live(&w.s, &platforms, first, Some(Ui { at, act: &change, follow: true })).map_err(|e| format!("moment {at}: {e}"))?;
        ctx.state();
        ctx.trace();
        ctx.step(2);
        let d = life.data.lock();
        // before the mods are listed, the window cannot change them
        let early = !matches!(act, Act::Trust) && d.game_mods.iter().any(|(id, m)| match act {
            Act::Off(x) => id == x && m.enabled,
            Act::On(x) => id == x && !m.enabled,
            Act::Pick(x, v) => id == x && m.selected_version.clone().unwrap().to_string() != v,
            _ => false,
        });
        let trusted = d.trusted_mods.len() == hashes.len();
        if !early && (trusted || !matches!(act, Act::Trust)) {
            if d.failed || !d.warnings.is_empty() || life.working {
                return Err(format!("moment {at}: failed {} busy {} {:?}", d.failed, life.working, d.warnings));
            }
            let on: Vec<&Ver> = l.iter().map(|l| &l.v).filter(|v| d.game_mods[v.id].enabled && d.game_mods[v.id].selected_version.clone().unwrap().to_string() == v.ver).collect();
            let mut want: BTreeSet<String> = on.iter().map(|v| v.file()).collect();
            if !on.is_empty() {
                want.insert(INTEGRATOR_PAK_FILE_NAME.into());
            }
            let got: BTreeSet<String> = snapshot(&w.paks()).keys().cloned().collect();
            if got != want {
                return Err(format!("moment {at}: paks folder holds {got:?}, in the end {want:?} is chosen"));
            }
            let mut u: Vec<Vec<u8>> = d.untrusted_mods.iter().map(|u| u.hash.clone()).collect();
            let mut e: Vec<Vec<u8>> = on.iter().filter(|v| v.dlls).map(|v| Sha256::digest(v.bytes(&w.site)).to_vec()).filter(|h| !d.trusted_mods.contains(h)).collect();
            u.sort();
            e.sort();
            if u != e && !on.is_empty() {
                return Err(format!("moment {at}: untrusted {:?}, expected {} of {} mods", d.untrusted_mods.iter().map(|u| &u.name).collect::<Vec<_>>(), e.len(), on.len()));
            }
            ctx.outcome("change followed");
        }
        at += 1;
    }
}
/// The process ends at any point of an integration that downloads.
fn interrupted(ctx: &Ctx, c: &Case) -> Result<(), String> {
    BAKED.with(|b| b.borrow_mut().clear());
    let later = Instant::now() + Duration::from_secs(3600);
    let go = |plan: Plan| -> Result<(World, Files, Vec<usize>), String> {
        let w = World::new(c);
        let mut before = Files::new();
        tree(&w.s.0, "", &mut before);
        let platforms = [("Steam", w.platform())];
        let (r, calls) = under(plan, || live(&w.s, &platforms, vec![Msg::Integrate(later)], None).map(|_| ()));
        if let (Err(e), Plan::Count) = (&r, plan) {
            return Err(e.clone());
        }
        if let (Err(e), Plan::Fail(..)) = (&r, plan) {
            return Err(format!("{plan:?}: {e}"));
        }
        Ok((w, before, calls))
    };
    let (_, _, calls) = go(Plan::Count)?;
    let mut plans = vec![];
    for (k, bytes) in calls.iter().enumerate() {
        let mut at: BTreeSet<usize> = [0, 1, bytes / 2, bytes.saturating_sub(1), *bytes].into_iter().collect();
        if ctx.thorough() {
            at.extend((0..*bytes).step_by(97));
        }
        plans.extend(at.into_iter().map(|p| Plan::Crash(k, p)));
        plans.extend([libc::ENOSPC, libc::EACCES].map(|e| Plan::Fail(k, e)));
        plans.push(Plan::Short(k));
    }
    for p in plans {
        let (w, before, _) = go(p)?;
        ctx.state();
        ctx.trace();
        ctx.step(1);
        only_whole_files(&w, &before, c, &[], matches!(p, Plan::Crash(..)), None).map_err(|e| format!("{p:?} of {calls:?}: {e}"))?;
        // the next start and integration work as if nothing had happened
        let platforms = [("Steam", w.platform())];
        let life = live(&w.s, &platforms, vec![Msg::Integrate(later)], None).map_err(|e| format!("after {p:?}: {e}"))?;
        let d = life.data.lock();
        if d.failed || !d.warnings.is_empty() {
            return Err(format!("after {p:?} of {calls:?}: failed {} {:?}", d.failed, d.warnings));
        }
        let mut mods: BTreeMap<String, Entry> = BTreeMap::new();
        for l in &c.local {
            mods.insert(l.v.id.into(), Entry { have: vec![l.v.clone()], enabled: l.enabled, forced: None });
        }
        let want = model(c, &mods);
        if let Some(e) = w.same_paks(&snapshot(&w.paks()), &w.expected(&want)?) {
            return Err(format!("after {p:?}: {e}"));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mut cases: Vec<Case> = vec![];
    let alpha = |d: &[Dep]| ver("Alpha", "1.0.0", 100, d);
    // what Alpha needs
    let needs: Vec<Vec<Dep>> = vec![
        vec![],
        vec![dep("Dep", "^1")],
        vec![dep("Dep", ">=1")],
        vec![dep("Dep", "=2.0.0")],
        vec![dep("Dep", "^3")],
        vec![bare("Dep", "^1")],
        vec![bare("Kit", ">=0.1")],
        vec![dep("Dep", "*"), dep("Ext", ">=1"), bare("Kit", "*")],
        vec![dep("Alpha", "^1")],
        vec![dep("Ext", "^1"), dep("Dep", "<2")],
    ];
    let others: Vec<Vec<Local>> = vec![
        vec![],
        vec![on(ver("Beta", "1.0.0", 50, &[]))],
        vec![on(ver("Beta", "1.0.0", 200, &[dep("Dep", "<2")]))],
        vec![on(ver("Beta", "1.0.0", 200, &[bare("Alpha", "^1")]))],
        vec![on(ver("Beta", "1.0.0", 200, &[dep("Alpha", "^9")]))],
        vec![Local { enabled: false, ..on(ver("Beta", "1.0.0", 200, &[dep("Dep", "^1")])) }],
        vec![on(ver("Beta", "1.0.0", 90, &[dep("Ext", "*")]))],
    ];
    let dep_deps: Vec<Vec<Dep>> = vec![vec![], vec![dep("Ext", "^1")], vec![dep("Alpha", "^1")], vec![dep("Dep", "*")], vec![bare("Ext", "*")], vec![bare("Kit", "*"), dep("Ext", "=1.0.0")]];
    let dep_versions: Vec<Vec<&'static str>> = vec![vec!["1.0.0"], vec!["1.0.0", "2.0.0"], vec!["1.9.0", "1.10.0", "1.0.0"], vec!["0.9.0", "2.0.0", "1.0.0"]];
    let dep_local: Vec<Option<(&'static str, bool)>> = vec![None, Some(("1.0.0", false)), Some(("1.0.0", true)), Some(("2.0.0", true))];
    let ext_deps: Vec<Vec<Dep>> = vec![vec![], vec![dep("Dep", ">=1")]];
    for n in &needs {
        for o in &others {
            for dd in &dep_deps {
                for dv in &dep_versions {
                    for dl in &dep_local {
                        for ed in &ext_deps {
                            let k = cases.len();
                            let d = |v: &'static str| Ver { index: k % 2 == 1, ..ver("Dep", v, 300, dd) };
                            let mut l = o.clone();
                            l.push(on(alpha(n)));
                            if let Some((v, e)) = dl {
                                l.push(Local { enabled: *e, ..on(d(v)) });
                            }
                            let mut c = case(l, vec![remote("Dep", &dv.iter().map(|v| d(v)).collect::<Vec<_>>()), remote("Ext", &[ver("Ext", "1.0.0", 30, ed), ver("Ext", "0.1.0", 31, ed)])]);
                            c.baked = vec!["Kit", "Unused"];
                            c.refuse = k % 3 == 0;
                            cases.push(c);
                        }
                    }
                }
            }
        }
    }
    let graphs = cases.len();
    // what the server says
    let sent = [Sent::Good, Sent::Status, Sent::StatusFile, Sent::Cut, Sent::Hang, Sent::Garbage, Sent::OtherId, Sent::OtherVersion, Sent::NoMeta, Sent::BadMeta];
    let named = [Named::Good, Named::Up, Named::Absolute, Named::OtherId, Named::OtherVersion, Named::Odd, Named::Theft];
    let ixs = [Ix::Good, Ix::Status, Ix::Garbage, Ix::NoMod, Ix::Hang, Ix::Cut];
    for s in sent {
        for nm in named {
            for ix in ixs {
                for second in [None, Some((Named::Good, Sent::Good)), Some((Named::Good, Sent::Cut)), Some((Named::Up, Sent::Good))] {
                    for local in [None, Some(true), Some(false)] {
                        for who in [vec![dep("Dep", "^1")], vec![dep("Dep", ">=1"), dep("Ext", "*")]] {
                            if ix != Ix::Good && (s != Sent::Good || second.is_some()) {
                                continue;
                            }
                            let mut r = remote("Dep", &[ver("Dep", "1.0.0", 300, &[dep("Ext", "^1")])]);
                            r.ix = ix;
                            r.versions[0].1 = nm;
                            r.versions[0].2 = s;
                            if let Some((n2, s2)) = second {
                                r.versions.push((ver("Dep", "2.0.0", 301, &[dep("Ext", "^1")]), n2, s2));
                            }
                            let mut l = vec![on(alpha(&who))];
                            if let Some(e) = local {
                                l.push(Local { enabled: e, ..on(ver("Dep", "1.0.0", 300, &[dep("Ext", "^1")])) });
                            }
                            cases.push(case(l, vec![r, remote("Ext", &[ver("Ext", "1.0.0", 30, &[])])]));
                        }
                    }
                }
            }
        }
    }
    // a selected version that is not there yet
    for s in sent {
        for nm in named {
            for latest in ["1.0.0", "2.0.0"] {
                for n in [vec![], vec![dep("Dep", "^1")]] {
                    for forced in [false, true] {
                        for other in [false, true] {
                            let a = |v: &'static str, p, d: &[Dep]| Ver { index: true, ..ver("Alpha", v, p, d) };
                            let mut r = remote("Alpha", &[a("1.0.0", 100, &[]), a("2.0.0", 101, &n)]);
                            r.latest = latest;
                            r.versions[1].1 = nm;
                            r.versions[1].2 = s;
                            let mut l = vec![Local { forced, ..on(a("1.0.0", 100, &[])) }];
                            if other {
                                l.push(on(ver("Beta", "1.0.0", 50, &[])));
                            }
                            cases.push(case(l, vec![r, remote("Dep", &[ver("Dep", "1.0.0", 300, &[])])]));
                        }
                    }
                }
            }
        }
    }
    // code that needs the user's consent
    for who in 0..8usize {
        for trust in 0..8usize {
            for n in [0, 1] {
                let mk = |i: usize, v: Ver| Ver { dlls: who >> i & 1 == 1, ..v };
                let a2 = mk(0, Ver { index: true, ..ver("Alpha", "2.0.0", 100, &[dep("Dep", "*")]) });
                let a1 = Ver { index: true, ..ver("Alpha", "1.0.0", 101, &[dep("Dep", "*")]) };
                let d = mk(1, ver("Dep", "1.0.0", 300, &[]));
                let b = mk(2, ver("Beta", "1.0.0", 5, &[]));
                let l = vec![on(if n == 0 { a1.clone() } else { a2.clone() }), on(b.clone())];
                let mut c = case(l, vec![remote("Alpha", &[a1, a2.clone()]), remote("Dep", &[d.clone()])]);
                for (i, v) in [a2, d, b].into_iter().enumerate() {
                    if trust >> i & 1 == 1 {
                        c.trusted.push(v);
                    }
                }
                cases.push(c);
            }
        }
    }
    // versions and priorities
    for p in [[1, 2, 3], [3, 2, 1], [998, 0, 500], [10, 9, 100]] {
        for forced in 0..4usize {
            for en in 0..8usize {
                let vs = ["1.0.0", "1.9.0", "1.10.0"];
                let mut l: Vec<Local> = (0..3).map(|i| Local { enabled: en & 1 == 1, forced: forced == i + 1, v: ver("Alpha", vs[i], p[i] + 1, &[]) }).collect();
                l.push(Local { enabled: en & 2 == 2, ..on(ver("Beta", "1.0.0", p[1], &[])) });
                l.push(Local { enabled: en & 4 == 4, ..on(ver("Cee", "1.0.0", 400, &[dep("Dep", "*")])) });
                cases.push(case(l, vec![remote("Dep", &[ver("Dep", "1.0.0", 450, &[])])]));
            }
        }
    }
    for env in [Env::NoInstall, Env::NoPaks, Env::PaksFile, Env::NoGame, Env::EmptyGame] {
        for l in [vec![], vec![on(alpha(&[]))], vec![on(alpha(&[dep("Dep", "*")]))]] {
            let mut c = case(l, vec![remote("Dep", &[ver("Dep", "1.0.0", 300, &[])])]);
            c.env = env;
            cases.push(c);
        }
    }
    // histories
    let beta = ver("Beta", "1.0.0", 50, &[dep("Dep", "^1")]);
    let steps = [Step::Integrate, Step::Import(vec![beta.clone()]), Step::Import(vec![ver("Alpha", "1.5.0", 100, &[])]), Step::Remove("Alpha"), Step::Remove("Beta"), Step::Remove("Dep"), Step::Stale];
    for n in 1..=ctx.pick(3, 5) {
        all_seqs(steps.len(), n, |q| {
            for (k, l) in [vec![], vec![on(alpha(&[dep("Dep", ">=1")]))], vec![on(Ver { index: true, ..alpha(&[]) })]].into_iter().enumerate() {
                if k == 2 && q.contains(&2) {
                    continue;
                }
                let mut imports: Vec<usize> = q.iter().filter(|i| **i == 1 || **i == 2).cloned().collect();
                let twice = imports.len();
                imports.sort();
                imports.dedup();
                if imports.len() < twice {
                    continue;
                }
                let mut c = case(l, vec![remote("Dep", &[ver("Dep", "1.0.0", 300, &[])])]);
                if k == 2 {
                    // its newest version cannot be downloaded
                    let mut r = remote("Alpha", &[Ver { index: true, ..ver("Alpha", "2.0.0", 101, &[]) }]);
                    r.versions[0].2 = Sent::Status;
                    c.remote.push(r);
                }
                c.steps = q.iter().map(|i| steps[*i].clone()).collect();
                c.steps.push(Step::Integrate);
                cases.push(c);
            }
            true
        });
    }
    // the window in between
    for ui in [Act::Off("Alpha"), Act::Off("Beta"), Act::On("Cee"), Act::Pick("Alpha", "1.0.0"), Act::Pick("Alpha", "2.0.0"), Act::Delete("100-Alpha-1.0.0_P.pak"), Act::Delete("060-Beta-1.0.0_P.pak")] {
        for l in [
            vec![on(alpha(&[])), on(ver("Beta", "1.0.0", 60, &[])), Local { enabled: false, ..on(ver("Cee", "1.0.0", 70, &[])) }],
            vec![on(alpha(&[])), on(ver("Alpha", "2.0.0", 101, &[])), on(ver("Beta", "1.0.0", 60, &[]))],
            vec![on(alpha(&[dep("Dep", "*")])), on(ver("Beta", "1.0.0", 60, &[]))],
        ] {
            let mut c = case(l, vec![remote("Dep", &[ver("Dep", "1.0.0", 300, &[])])]);
            c.ui = Some(ui);
            cases.push(c);
        }
    }
    par_for(cases.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        if let Err(e) = check(ctx, &cases[i]) {
            ctx.violation(&format!("install:{i}"), format!("{e} :: {:?}", cases[i]));
        }
    });
    let crash = [
        case(vec![on(alpha(&[dep("Dep", "*")]))], vec![remote("Dep", &[ver("Dep", "1.0.0", 300, &[])])]),
        case(vec![on(Ver { index: true, ..alpha(&[]) })], vec![remote("Alpha", &[Ver { index: true, ..ver("Alpha", "2.0.0", 101, &[]) }])]),
        case(vec![on(alpha(&[dep("Dep", "*")])), on(ver("Dep", "1.0.0", 300, &[]))], vec![remote("Dep", &[ver("Dep", "1.0.0", 300, &[])])]),
    ];
    par_for(crash.len(), |i| {
        if ctx.stopped() {
            return;
        }
        if let Err(e) = interrupted(ctx, &crash[i]) {
            ctx.violation(&format!("interrupted:{i}"), format!("{e} :: {:?}", crash[i]));
        }
    });
    let mut changes = vec![];
    let dll = |v: Ver| Ver { dlls: true, ..v };
    for act in [Act::Off("Alpha"), Act::Off("Beta"), Act::On("Cee"), Act::Pick("Alpha", "1.0.0"), Act::Trust] {
        for l in [
            vec![on(alpha(&[])), on(ver("Beta", "1.0.0", 60, &[])), Local { enabled: false, ..on(ver("Cee", "1.0.0", 70, &[])) }],
            vec![on(alpha(&[])), on(ver("Alpha", "2.0.0", 101, &[])), on(dll(ver("Beta", "1.0.0", 60, &[])))],
            vec![on(dll(alpha(&[]))), on(dll(ver("Beta", "1.0.0", 60, &[]))), Local { enabled: false, ..on(dll(ver("Cee", "1.0.0", 70, &[]))) }],
            vec![on(dll(alpha(&[])))],
        ] {
            changes.push((l, act));
        }
    }
    par_for(changes.len(), |i| {
        if ctx.stopped() {
            return;
        }
        if let Err(e) = followed(ctx, &changes[i].0, changes[i].1) {
            ctx.violation(&format!("change:{i}"), format!("{e} :: {:?}", changes[i]));
        }
    });
    ctx.outcome_n("cases", cases.len() as u64);
    ctx.bound(format!("{graphs} dependency graphs over 4 mods (requirements, versions, cycles, states of the dependency), 10 answers for a file x 7 file names x 6 answers for an index file, selected versions that are not downloaded, 64 sets of consents, priorities, 5 broken environments, histories of {} steps, an action of the window at every moment, alone and followed by another integration, a stop or an error at every call of an integration that downloads", ctx.pick(3, 5)));
    ctx.assume("mods of distinct priorities; versions of a dependency that differ in their own dependencies while requirements disagree, and a dependency that is installed but disabled and cannot be downloaded, only have to be reported or be right; stand-in starter assets");
    ctx.sample(|| format!("{:?}", cases[cases.len() / 2]));
}
