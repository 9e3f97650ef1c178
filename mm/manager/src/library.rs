//! P29: the list of mods is what the files and index files say.
use crate::background_work::BackgroundThreadMessage as Msg;
use crate::game_mod::{GameMod, GameModVersion, SelectedVersion};
use crate::version::GameBuild;
use crate::disk::{under, Plan};
use crate::world::*;
use crate::{FileToProcess, ModLoaderAppData};
use mc::core::*;
use semver::Version;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use unreal_mod_metadata::{Metadata, SyncMode};

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Meta(Value),
    NoMeta,
    BadJson,
    NotPak,
    Empty,
    /// only the first part of the pak
    Cut(Value),
    /// a folder of that name
    Folder,
    /// imported from a place where there is nothing
    Missing,
}
#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub name: Vec<u8>,
    pub body: Body,
}
impl F {
    pub fn new(name: &str, body: Body) -> F {
        F { name: name.as_bytes().to_vec(), body }
    }
    fn id(&self) -> &str {
        match &self.body {
            Body::Meta(v) => v["mod_id"].as_str().unwrap_or(""),
            _ => "",
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let other = ("x.uasset", vec![1, 2, 3]);
        match &self.body {
            Body::Meta(v) => pak(&[("metadata.json", v.to_string().into_bytes()), other]),
            Body::NoMeta => pak(&[other]),
            Body::BadJson => pak(&[("metadata.json", b"{\"name\":".to_vec()), other]),
            Body::NotPak => vec![7; 300],
            Body::Empty | Body::Folder | Body::Missing => vec![],
            Body::Cut(v) => {
                let b = pak(&[("metadata.json", v.to_string().into_bytes()), other]);
                b[..b.len() - 10].to_vec()
            }
        }
    }
    pub fn put(&self, dir: &std::path::Path) -> PathBuf {
        let p = dir.join(OsString::from_vec(self.name.clone()));
        match self.body {
            Body::Folder => fs::create_dir_all(&p).unwrap(),
            Body::Missing => {}
            _ => fs::write(&p, self.bytes()).unwrap(),
        }
        p
    }
    /// (mod, version) of a well-formed mod file
    pub fn valid(&self) -> Option<(String, Version)> {
        let name = std::str::from_utf8(&self.name).ok()?;
        let (id, ver) = well_named(name)?;
        let Body::Meta(v) = &self.body else { return None };
        if ![json!(1), json!(2), Value::Null].contains(&v["schema_version"]) {
            return None;
        }
        (v["mod_id"] == id.as_str() && (v["version"] == ver.as_str() || v["mod_version"] == ver.as_str())).then_some(())?;
        Some((id, Version::parse(&ver).ok()?))
    }
}
/// 000-ModName.author-1.2.3_P.pak
pub fn well_named(n: &str) -> Option<(String, String)> {
    let rest = n.strip_suffix("_P.pak")?;
    let (prio, rest) = rest.split_once('-')?;
    let (id, ver) = rest.split_once('-')?;
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let parts: Vec<&str> = ver.split('.').collect();
    let good = prio.len() == 3 && digits(prio) && id.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.') && id.bytes().next()?.is_ascii_uppercase() && parts.len() == 3 && parts.iter().all(|p| digits(p)) && Version::parse(ver).is_ok();
    good.then(|| (id.to_string(), ver.to_string()))
}
pub fn meta(id: &str, ver: &str, kind: usize, index: Option<&str>) -> Value {
    let mut v = json!({"schema_version": 2, "name": format!("{id} {ver}"), "mod_id": id, "version": ver});
    if kind == 1 {
        v["author"] = json!(format!("by {ver}"));
        v["description"] = json!("text");
        v["game_build"] = json!("1.2.3.4");
        v["sync"] = json!("client");
        v["homepage"] = json!("http://h");
        v["dependencies"] = json!({"Dep": {"version": ">=1.0.0"}, "Own": "^2"});
    }
    if kind == 2 {
        v["game_build"] = json!("1.2.x.4");
        v["sync"] = json!("server");
    }
    if let Some(u) = index {
        v["download"] = json!({"type": "index_file", "url": u});
    }
    v
}

/// Which file name an index file gives.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Name {
    Own,
    Elsewhere,
    OtherMod,
    OtherVersion,
    Case,
}
use Name::*;
/// What the server says about a mod.
#[derive(Clone, Debug, PartialEq)]
pub enum Index {
    /// versions (with a well-formed file name or not) and the latest
    Good(Vec<(&'static str, Name)>, &'static str),
    /// the same at another address
    Moved(Vec<(&'static str, Name)>, &'static str),
    Garbage,
    BadVersion,
    BadLatest,
    NoMod,
    Status(u16),
    Cut,
    Hang,
    NoServer,
}
fn index_text(id: &str, vs: &[(&str, Name)], latest: &str) -> String {
    let m: serde_json::Map<String, Value> = vs.iter().map(|(v, ok)| (v.to_string(), json!({"download_url": format!("u/{v}"), "filename": index_file(id, v, *ok)}))).collect();
    json!({"mods": {id: {"latest_version": latest, "versions": m}, "Unrelated": {"latest_version": "9.0.0", "versions": {}}}}).to_string()
}
fn index_file(id: &str, v: &str, name: Name) -> String {
    match name {
        Own => format!("001-{id}-{v}_P.pak"),
        Elsewhere => format!("../../{id}-{v}.pak"),
        OtherMod => format!("001-{id}x-{v}_P.pak"),
        OtherVersion => format!("001-{id}-{v}1_P.pak"),
        Case => format!("001-{}-{v}_P.pak", id.to_uppercase()),
    }
}
impl Index {
    fn serve(&self, site: &Site, id: &str) -> String {
        let ok = |s: String| Answer::Ok(s.into_bytes());
        let a = match self {
            Index::Good(v, l) => ok(index_text(id, v, l)),
            Index::Moved(v, l) => ok(index_text(id, v, l).replace("\"u/", "\"w/")),
            Index::Garbage => ok("{\"mods\": 3".into()),
            Index::BadVersion => ok(index_text(id, &[("1.0.0", Own), ("2.x", Own)], "1.0.0")),
            Index::BadLatest => ok(index_text(id, &[("1.0.0", Own)], "newest")),
            Index::NoMod => ok(index_text("Elsewhere", &[("1.0.0", Own)], "1.0.0")),
            Index::Status(s) => Answer::Status(*s),
            Index::Cut => Answer::Cut(index_text(id, &[("1.0.0", Own)], "1.0.0").into_bytes()),
            Index::Hang => Answer::Hang,
            Index::NoServer => return "http://127.0.0.1:9/none".into(),
        };
        site.set(id, a);
        site.url(id)
    }
}

/// The list as it has to be.
#[derive(Default, Clone)]
pub struct Model {
    pub mods: BTreeMap<String, GameMod>,
    /// what warnings are about
    pub warnings: Vec<Option<String>>,
}
impl Model {
    fn fields(m: &mut GameMod) {
        let Some(v) = m.versions.get(&m.selected_version.clone().unwrap()) else { return };
        let Some(meta) = &v.metadata else { return };
        m.name = meta.name.clone();
        m.author = meta.author.clone();
        m.description = meta.description.clone();
        m.game_build = meta.game_build.as_ref().and_then(|b| {
            let n: Option<Vec<usize>> = b.split('.').map(|p| p.parse().ok()).collect();
            n.filter(|n| n.len() == 4).map(|n| GameBuild::new(n[0], n[1], n[2], n[3]))
        });
        m.sync = meta.sync.unwrap_or(SyncMode::ServerAndClient);
        m.homepage = meta.homepage.clone();
        m.download = meta.download.clone();
        m.dependencies = meta.dependencies.clone();
    }
    pub fn process(&mut self, files: &[&F], enabled: bool, indices: &BTreeMap<String, Index>) {
        let mut touched = BTreeSet::new();
        for f in files {
            let name = String::from_utf8_lossy(&f.name).to_string();
            let Some((id, ver)) = f.valid() else {
                self.warnings.push(Some(name));
                continue;
            };
            let Body::Meta(v) = &f.body else { unreachable!() };
            let metadata: Metadata = unreal_mod_metadata::from_slice(v.to_string().as_bytes()).unwrap();
            let m = self.mods.entry(id.clone()).or_insert_with(|| GameMod { enabled, ..Default::default() });
            m.versions.insert(ver, GameModVersion { mod_id: id.clone(), file_name: name, downloaded: true, download_url: None, metadata: Some(metadata) });
            touched.insert(id);
        }
        for m in self.mods.values_mut() {
            if let SelectedVersion::LatestIndirect(_) = m.selected_version {
                let newest = m.versions.keys().max().cloned();
                m.latest_version = newest.clone();
                m.selected_version = SelectedVersion::LatestIndirect(newest);
            }
        }
        for id in &touched {
            let m = self.mods.get_mut(id).unwrap();
            Self::fields(m);
            let size = |m: &mut GameMod| {
                let v = &m.versions[&m.selected_version.clone().unwrap()];
                if v.downloaded {
                    let f = F::new(&v.file_name, Body::Meta(serde_json::from_str(&raw(v)).unwrap()));
                    m.size = f.bytes().len() as u64;
                }
            };
            size(m);
            if m.download.is_none() {
                continue;
            }
            match &indices[id] {
                x @ (Index::Good(vs, latest) | Index::Moved(vs, latest)) => {
                    for (v, ok) in vs {
                        if *ok != Own {
                            self.warnings.push(Some(id.clone()));
                            continue;
                        }
                        let url = Some(format!("{}/{v}", if matches!(x, Index::Moved(..)) { "w" } else { "u" }));
                        m.versions
                            .entry(Version::parse(v).unwrap())
                            .and_modify(|e| e.download_url = url.clone())
                            .or_insert_with(|| GameModVersion { mod_id: id.clone(), file_name: index_file(id, v, Own), downloaded: false, download_url: url.clone(), metadata: None });
                    }
                    let latest = Version::parse(latest).unwrap();
                    if m.versions.contains_key(&latest) {
                        if !matches!(m.selected_version, SelectedVersion::Specific(_)) {
                            m.selected_version = SelectedVersion::Latest(latest.clone());
                        }
                        m.latest_version = Some(latest);
                    } else {
                        self.warnings.push(Some(id.clone()));
                    }
                    Self::fields(m);
                    size(m);
                }
                _ => self.warnings.push(Some(id.clone())),
            }
        }
    }
}
thread_local! { static RAW: std::cell::RefCell<BTreeMap<String, String>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
/// the metadata text of the file of a version
fn raw(v: &GameModVersion) -> String {
    RAW.with(|r| r.borrow()[&v.file_name].clone())
}

#[derive(Clone, Debug)]
pub enum Step {
    Import(Vec<F>),
    Remove(&'static str),
    /// delete a file behind the manager's back
    Again(Vec<F>),
}
#[derive(Clone, Debug)]
pub struct Case {
    pub start: Vec<F>,
    pub steps: Vec<Step>,
    pub indices: Vec<(&'static str, Index)>,
    /// the user picks a version / switches a mod at any moment
    pub ui: Option<(&'static str, Option<&'static str>)>,
}

/// `open`: a mod whose warnings depend on when the user acted
fn compare(d: &ModLoaderAppData, m: &Model, folder: &Files, want: &Files, open: Option<&str>) -> Option<String> {
    let ids = |x: &BTreeMap<String, GameMod>| x.keys().cloned().collect::<Vec<_>>();
    if ids(&d.game_mods) != ids(&m.mods) {
        return Some(format!("mods {:?}, expected {:?}", ids(&d.game_mods), ids(&m.mods)));
    }
    for (id, w) in &m.mods {
        let g = &d.game_mods[id];
        if g != w {
            let (g, w) = (format!("{g:#?}"), format!("{w:#?}"));
            let (g, w): (Vec<_>, Vec<_>) = (g.lines().collect(), w.lines().collect());
            let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap_or(0);
            return Some(format!("{id}: {:?}, expected {:?}", g.get(i.saturating_sub(2)..(i + 3).min(g.len())), w.get(i.saturating_sub(2)..(i + 3).min(w.len()))));
        }
    }
    let mut a: Vec<_> = d.warnings.iter().map(|w| w.mod_id.clone()).collect();
    let mut b = m.warnings.clone();
    a.retain(|w| open.is_none() || w.as_deref() != open);
    b.retain(|w| open.is_none() || w.as_deref() != open);
    a.sort();
    b.sort();
    if a != b {
        return Some(format!("warnings about {a:?}, expected {b:?}"));
    }
    let names = |f: &Files| f.iter().map(|e| (e.0.clone(), e.1.len())).collect::<Vec<_>>();
    if folder != want {
        return Some(format!("mods folder holds {:?}, expected {:?}", names(folder), names(want)));
    }
    if let Some(e) = &d.error {
        return Some(format!("error {e}"));
    }
    None
}

pub fn judge(ctx: &Ctx, c: &Case) -> Result<(), String> {
    let mut at = 0;
    loop {
        let s = Scratch::new("mods");
        let site = Site::new();
        let indices: BTreeMap<String, Index> = c.indices.iter().map(|(i, x)| (i.to_string(), x.clone())).collect();
        let urls: BTreeMap<String, String> = indices.iter().map(|(i, x)| (i.clone(), x.serve(&site, i))).collect();
        // put the addresses into the metadata
        let bind = |f: &F| -> F {
            let mut f = f.clone();
            if let Body::Meta(v) = &mut f.body {
                let id = v["mod_id"].as_str().unwrap_or("").to_string();
                if v.get("download").is_some() {
                    v["download"]["url"] = json!(urls.get(&id).cloned().unwrap_or("http://127.0.0.1:9/none".into()));
                }
                RAW.with(|r| r.borrow_mut().insert(String::from_utf8_lossy(&f.name).to_string(), v.to_string()));
            }
            f
        };
        let mods = s.mods();
        fs::create_dir_all(&mods).unwrap();
        let mut model = Model::default();
        let mut want = Files::new();
        let text = |f: &F| String::from_utf8_lossy(&f.name).to_string();
        let start: Vec<F> = c.start.iter().map(bind).collect();
        for f in &start {
            f.put(&mods);
            want.insert(text(f), f.bytes());
        }
        let seen: Vec<&F> = start.iter().filter(|f| std::str::from_utf8(&f.name).map(|n| n.ends_with("_P.pak")).unwrap_or(false)).collect();
        model.process(&seen, false, &indices);
        let mut messages = vec![];
        for (i, step) in c.steps.iter().enumerate() {
            match step {
                Step::Import(l) | Step::Again(l) => {
                    let src = s.0.join(format!("src{i}"));
                    fs::create_dir(&src).unwrap();
                    let l: Vec<F> = l.iter().map(bind).collect();
                    messages.push(Msg::Import(l.iter().map(|f| FileToProcess::new(f.put(&src), true)).collect()));
                    let copied: Vec<&F> = l.iter().filter(|f| !matches!(f.body, Body::Missing | Body::Folder)).collect();
                    l.iter().filter(|f| matches!(f.body, Body::Missing | Body::Folder)).for_each(|_| model.warnings.push(None));
                    model.process(&copied, true, &indices);
                    for f in copied {
                        if f.valid().is_some() {
                            want.insert(text(f), f.bytes());
                        } else {
                            want.remove(&text(f));
                        }
                    }
                }
                Step::Remove(id) => {
                    messages.push(Msg::RemoveMod(id.to_string()));
                    if let Some(m) = model.mods.remove(*id) {
                        for v in m.versions.values().filter(|v| v.downloaded) {
                            want.remove(&v.file_name);
                        }
                    }
                }
            }
        }
        let chosen = std::cell::RefCell::new(None);
        let act = |d: &mut ModLoaderAppData| {
            let (id, v) = c.ui.unwrap();
            if let Some(m) = d.game_mods.get_mut(id) {
                match v {
                    Some(v) => {
                        let v = Version::parse(v).unwrap();
                        if m.versions.contains_key(&v) {
                            m.selected_version = SelectedVersion::Specific(v.clone());
                            *chosen.borrow_mut() = Some(());
                        }
                    }
                    None => {
                        m.enabled = !m.enabled;
                        *chosen.borrow_mut() = Some(());
                    }
                }
            }
        };
        let platform = Platform { install: None, paks: None, build: None, ..Default::default() };
        let life = live(&s, &[("Steam", platform)], messages, c.ui.map(|_| Ui { at, act: &act, follow: false }))?;
        ctx.step(1 + c.steps.len() as u64);
        ctx.trace();
        if life.working {
            return Err("still shown as busy after the last message".into());
        }
        let d = life.data.lock();
        let mut folder = snapshot(&mods);
        folder.remove("modconfig.json");
        match c.ui {
            None => {
                return match compare(&d, &model, &folder, &want, None) {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            }
            Some((id, v)) => {
                // what the user did stays, everything else is as without it
                if chosen.borrow().is_some() && d.game_mods.contains_key(id) && !c.steps.iter().any(|s| matches!(s, Step::Remove(_))) {
                    let g = &d.game_mods[id];
                    let w = model.mods.get_mut(id).ok_or("a mod appeared")?;
                    match v {
                        Some(v) => {
                            let want = SelectedVersion::Specific(Version::parse(v).unwrap());
                            if g.selected_version != want {
                                return Err(format!("moment {at}: the user chose {want}, selected is {}", g.selected_version));
                            }
                        }
                        None => w.enabled = !w.enabled,
                    }
                    if v.is_some() {
                        *w = g.clone();
                    }
                }
                if let Some(e) = compare(&d, &model, &folder, &want, v.map(|_| id)) {
                    return Err(format!("moment {at}: {e}"));
                }
            }
        }
        if !life.ui_done || at > 60 {
            return Ok(());
        }
        ctx.state();
        at += 1;
    }
}

/// The server changes its mind at any moment: the list follows what it said last.
fn changing(ctx: &Ctx, start: &[F], imports: &[Vec<F>], x: &Index, y: &Index) -> Result<(), String> {
    let mut at = 0;
    loop {
        let s = Scratch::new("mods");
        let site = Site::new();
        let url = x.serve(&site, "Alpha");
        let bind = |f: &F| -> F {
            let mut f = f.clone();
            if let Body::Meta(v) = &mut f.body {
                v["download"]["url"] = json!(url);
                RAW.with(|r| r.borrow_mut().insert(String::from_utf8_lossy(&f.name).to_string(), v.to_string()));
            }
            f
        };
        let rounds: Vec<Vec<F>> = [start.to_vec()].iter().chain(imports).map(|l| l.iter().map(bind).collect()).collect();
        let mods = s.mods();
        fs::create_dir_all(&mods).unwrap();
        rounds[0].iter().for_each(|f| {
            f.put(&mods);
        });
        let mut messages = vec![];
        for (i, l) in rounds[1..].iter().enumerate() {
            let src = s.0.join(format!("src{i}"));
            fs::create_dir(&src).unwrap();
            messages.push(Msg::Import(l.iter().map(|f| FileToProcess::new(f.put(&src), true)).collect()));
        }
        let before = Cell::new(None);
        let act = |_: &mut ModLoaderAppData| {
            before.set(Some(site.asked("Alpha")));
            y.serve(&site, "Alpha");
        };
        let life = live(&s, &[("Steam", Platform::default())], messages, Some(Ui { at, act: &act, follow: false })).map_err(|e| format!("moment {at}: {e}"))?;
        ctx.state();
        ctx.trace();
        ctx.step(rounds.len() as u64);
        let asked = before.get().unwrap_or(usize::MAX);
        let mut model = Model::default();
        for (k, l) in rounds.iter().enumerate() {
            let now = if k < asked { x } else { y };
            model.process(&l.iter().collect::<Vec<_>>(), k > 0, &[("Alpha".to_string(), now.clone())].into_iter().collect());
        }
        let want: Files = rounds.iter().flatten().map(|f| (String::from_utf8_lossy(&f.name).to_string(), f.bytes())).collect();
        let mut folder = snapshot(&mods);
        folder.remove("modconfig.json");
        if let Some(e) = compare(&life.data.lock(), &model, &folder, &want, None) {
            return Err(format!("moment {at}, after {asked} questions: {e}"));
        }
        if !life.ui_done || at > 60 {
            return Ok(());
        }
        at += 1;
    }
}
/// A file of a mod disappears at any moment before the mod is removed: it is removed all the same.
fn lost(ctx: &Ctx, start: &[F], gone: &str) -> Result<(), String> {
    let mut at = 0;
    loop {
        let s = Scratch::new("mods");
        let mods = s.mods();
        fs::create_dir_all(&mods).unwrap();
        start.iter().for_each(|f| {
            f.put(&mods);
        });
        let act = |_: &mut ModLoaderAppData| {
            let _ = fs::remove_file(mods.join(gone));
        };
        let life = live(&s, &[("Steam", Platform::default())], vec![Msg::RemoveMod("Alpha".into())], Some(Ui { at, act: &act, follow: false })).map_err(|e| format!("moment {at}: {e}"))?;
        ctx.state();
        ctx.trace();
        ctx.step(2);
        let d = life.data.lock();
        let left: Vec<&String> = d.game_mods.keys().collect();
        if left.iter().any(|i| *i == "Alpha") || life.working {
            return Err(format!("moment {at}: mods {left:?} are listed, busy {}", life.working));
        }
        let want: Vec<String> = start.iter().map(|f| String::from_utf8_lossy(&f.name).to_string()).filter(|n| !n.contains("-Alpha-")).collect();
        let have: Vec<String> = snapshot(&mods).into_keys().filter(|n| n != "modconfig.json").collect();
        if have != want {
            return Err(format!("moment {at}: the mods folder holds {have:?}, expected {want:?}"));
        }
        drop(d);
        if !life.ui_done || at > 60 {
            return Ok(());
        }
        at += 1;
    }
}
/// A file that is in the mods folder already is imported again, however its path is written.
fn own(ctx: &Ctx, start: &[F], which: &F, spelling: usize) -> Result<(), String> {
    let s = Scratch::new("mods");
    let mods = s.mods();
    fs::create_dir_all(&mods).unwrap();
    start.iter().for_each(|f| {
        f.put(&mods);
    });
    let name = String::from_utf8_lossy(&which.name).to_string();
    let src = s.0.join("src");
    fs::create_dir(&src).unwrap();
    let path = match spelling {
        0 => mods.join(&name),
        1 => mods.join(".").join(&name),
        2 => mods.join("..").join("Mods").join(&name),
        3 => {
            std::os::unix::fs::symlink(mods.join(&name), src.join(&name)).unwrap();
            src.join(&name)
        }
        4 => {
            fs::hard_link(mods.join(&name), src.join(&name)).unwrap();
            src.join(&name)
        }
        _ => {
            std::os::unix::fs::symlink(&mods, src.join("link")).unwrap();
            src.join("link").join(&name)
        }
    };
    ctx.state();
    ctx.trace();
    ctx.step(3);
    let mut want = Files::new();
    let mut model = Model::default();
    start.iter().for_each(|f| {
        want.insert(String::from_utf8_lossy(&f.name).to_string(), f.bytes());
        if let Body::Meta(v) = &f.body {
            RAW.with(|r| r.borrow_mut().insert(String::from_utf8_lossy(&f.name).to_string(), v.to_string()));
        }
    });
    model.process(&start.iter().collect::<Vec<_>>(), false, &BTreeMap::new());
    model.process(&[which], true, &BTreeMap::new());
    let life = live(&s, &[("Steam", Platform::default())], vec![Msg::Import(vec![FileToProcess::new(path, true)])], None)?;
    let d = life.data.lock();
    let mut folder = snapshot(&mods);
    folder.remove("modconfig.json");
    match compare(&d, &model, &folder, &want, None) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
/// Something without a name is dropped on the window, together with a mod.
fn nameless(ctx: &Ctx, path: &str, f: &F, first: bool) -> Result<(), String> {
    let s = Scratch::new("mods");
    let src = s.0.join("src");
    fs::create_dir(&src).unwrap();
    let mut l = vec![FileToProcess::new(PathBuf::from(path), true), FileToProcess::new(f.put(&src), true)];
    if !first {
        l.reverse();
    }
    ctx.state();
    ctx.trace();
    ctx.step(2);
    if let Body::Meta(v) = &f.body {
        RAW.with(|r| r.borrow_mut().insert(String::from_utf8_lossy(&f.name).to_string(), v.to_string()));
    }
    let mut model = Model::default();
    model.warnings.push(None);
    model.process(&[f], true, &BTreeMap::new());
    let life = live(&s, &[("Steam", Platform::default())], vec![Msg::Import(l)], None)?;
    let d = life.data.lock();
    let want: Files = [(String::from_utf8_lossy(&f.name).to_string(), f.bytes())].into_iter().collect();
    let mut folder = snapshot(&s.mods());
    folder.remove("modconfig.json");
    match compare(&d, &model, &folder, &want, None) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
/// The machine stops or the disk fails at any point of an import.
fn disturbed(ctx: &Ctx, start: &[F], f: &F) -> Result<(), String> {
    let name = String::from_utf8_lossy(&f.name).to_string();
    let go = |plan: Plan| -> Result<(Scratch, Option<Life>, Vec<usize>), String> {
        let s = Scratch::new("mods");
        let mods = s.mods();
        fs::create_dir_all(&mods).unwrap();
        start.iter().for_each(|f| {
            f.put(&mods);
        });
        let src = s.0.join("src");
        fs::create_dir(&src).unwrap();
        let message = Msg::Import(vec![FileToProcess::new(f.put(&src), true)]);
        let (r, calls) = under(plan, || live(&s, &[("Steam", Platform::default())], vec![message], None));
        ctx.state();
        ctx.trace();
        ctx.step(2);
        match (r, plan) {
            // after the machine has stopped, what the program believes does not matter
            (_, Plan::Crash(..)) => Ok((s, None, calls)),
            (Ok(l), _) => Ok((s, Some(l), calls)),
            (Err(e), _) => Err(format!("{plan:?}: {e}")),
        }
    };
    let calls = go(Plan::Count)?.2;
    let mut plans = vec![];
    for (k, bytes) in calls.iter().enumerate() {
        let mut at = vec![0, 1, bytes / 2, bytes.saturating_sub(1)];
        at.retain(|p| *p == 0 || p < bytes);
        at.dedup();
        plans.extend(at.into_iter().map(|p| Plan::Crash(k, p)));
        plans.extend([libc::ENOSPC, libc::EACCES, libc::EIO].map(|e| Plan::Fail(k, e)));
        plans.push(Plan::Short(k));
    }
    for p in plans {
        let (s, life, calls) = go(p)?;
        let bad = |e: String| Err(format!("{p:?} of {calls:?}: {e}"));
        let have = snapshot(&s.mods());
        let old: Files = start.iter().map(|f| (String::from_utf8_lossy(&f.name).to_string(), f.bytes())).collect();
        for (n, b) in &old {
            if have.get(n) != Some(b) && !(*n == name && have.get(n) == Some(&f.bytes())) {
                return bad(format!("{n} is lost or damaged: {:?} bytes of {}", have.get(n).map(|b| b.len()), b.len()));
            }
        }
        let arrived = have.get(&name) == Some(&f.bytes());
        if let Some(b) = have.get(&name).filter(|b| **b != f.bytes() && old.get(&name) != Some(*b)) {
            return bad(format!("{name} is there with {} of {} bytes", b.len(), f.bytes().len()));
        }
        if let Some(l) = life {
            if let Some(n) = have.keys().find(|n| **n != name && !old.contains_key(*n) && !n.starts_with("modconfig")) {
                return bad(format!("{n} is left behind"));
            }
            let d = l.data.lock();
            if l.working {
                return bad("still busy".into());
            }
            if !arrived && d.warnings.is_empty() {
                return bad("nothing is said about the failure".into());
            }
        }
        // the next start
        let l = live(&s, &[("Steam", Platform::default())], vec![], None).map_err(|e| format!("{p:?}: after a restart: {e}"))?;
        let d = l.data.lock();
        let mut want: BTreeSet<&str> = start.iter().map(|f| f.id()).collect();
        if arrived {
            want.insert(f.id());
        }
        let ids: BTreeSet<&str> = d.game_mods.keys().map(|k| k.as_str()).collect();
        if ids != want || !d.warnings.is_empty() {
            return bad(format!("after a restart {ids:?} are listed, expected {want:?}; {} warnings", d.warnings.len()));
        }
    }
    Ok(())
}
pub fn run(ctx: &Ctx) {
    let good = |id: &str, ver: &str, k: usize, ix: bool| F::new(&format!("{}-{id}-{ver}_P.pak", ["000", "001", "999"][k]), Body::Meta(meta(id, ver, k, ix.then_some("?"))));
    let named = |n: &str, id: &str, ver: &str| F::new(n, Body::Meta(meta(id, ver, 0, None)));
    let valid: Vec<F> = vec![
        good("Alpha", "1.0.0", 0, false),
        good("Alpha", "1.2.0", 1, false),
        good("Alpha", "1.10.0", 2, false),
        good("Beta.x", "2.0.0", 1, false),
        good("Z", "0.0.1", 0, false),
        F::new("000-Old-3.0.0_P.pak", Body::Meta(json!({"schema_version": 1, "name": "o", "mod_id": "Old", "version": "3.0.0"}))),
        good("Alpha", "20.0.0", 1, false),
    ];
    let ok = "000-Bad-1.0.0_P.pak";
    let mut bad: Vec<F> = vec![
        F::new(ok, Body::NoMeta),
        F::new(ok, Body::BadJson),
        F::new(ok, Body::NotPak),
        F::new(ok, Body::Empty),
        F::new(ok, Body::Cut(meta("Bad", "1.0.0", 0, None))),
        F::new(ok, Body::Meta(meta("Other", "1.0.0", 0, None))),
        F::new(ok, Body::Meta(meta("Bad", "1.0.1", 0, None))),
        F::new(ok, Body::Meta(meta("bad", "1.0.0", 0, None))),
        F::new(ok, Body::Meta({
            let mut m = meta("Bad", "1.0.0", 0, None);
            m["schema_version"] = json!(3);
            m
        })),
        F::new(ok, Body::Folder),
        F::new(ok, Body::Missing),
    ];
    for (n, id, v) in [
        ("00-Bad-1.0.0_P.pak", "Bad", "1.0.0"),
        ("0000-Bad-1.0.0_P.pak", "Bad", "1.0.0"),
        ("a00-Bad-1.0.0_P.pak", "Bad", "1.0.0"),
        ("x000-Bad-1.0.0_P.pak", "Bad", "1.0.0"),
        ("000-bad-1.0.0_P.pak", "bad", "1.0.0"),
        ("000-1Bad-1.0.0_P.pak", "1Bad", "1.0.0"),
        ("000-.Bad-1.0.0_P.pak", ".Bad", "1.0.0"),
        ("000-B_d-1.0.0_P.pak", "B_d", "1.0.0"),
        ("000-B-d-1.0.0_P.pak", "B-d", "1.0.0"),
        ("000--1.0.0_P.pak", "", "1.0.0"),
        ("000-Bad-1.0_P.pak", "Bad", "1.0"),
        ("000-Bad-1.0.0.0_P.pak", "Bad", "1.0.0.0"),
        ("000-Bad-1x0x0_P.pak", "Bad", "1x0x0"),
        ("000-Bad-01.0.0_P.pak", "Bad", "01.0.0"),
        ("000-Bad-1.0.0-rc_P.pak", "Bad", "1.0.0-rc"),
        ("000-Bad-99999999999999999999.0.0_P.pak", "Bad", "99999999999999999999.0.0"),
        ("000-Bad-1.0.0_PXpak", "Bad", "1.0.0"),
        ("000-Bad-1.0.0_P.pak.bak", "Bad", "1.0.0"),
        ("000-Bad-1.0.0.pak", "Bad", "1.0.0"),
        ("\u{660}\u{660}\u{660}-Bad-1.0.0_P.pak", "Bad", "1.0.0"),
        ("000-Bad-\u{661}.0.0_P.pak", "Bad", "\u{661}.0.0"),
        ("000-\u{c9}d-1.0.0_P.pak", "\u{c9}d", "1.0.0"),
        ("metadata.json", "Bad", "1.0.0"),
    ] {
        bad.push(named(n, id, v));
    }
    bad.push(F { name: b"000-Bad\xff-1.0.0_P.pak".to_vec(), body: Body::Meta(meta("Bad", "1.0.0", 0, None)) });
    let all: Vec<F> = valid.iter().chain(&bad).cloned().collect();
    let mut cases: Vec<Case> = vec![];
    let no = |start: Vec<F>, steps: Vec<Step>| Case { start, steps, indices: vec![], ui: None };
    let distinct = |l: &[&F]| l.iter().map(|f| &f.name).collect::<BTreeSet<_>>().len() == l.len();
    // every pair of files at the start, then every file imported
    for (i, a) in all.iter().enumerate() {
        for b in &all[i..] {
            let start: Vec<F> = if a == b { vec![a.clone()] } else { vec![a.clone(), b.clone()] };
            if !distinct(&start.iter().collect::<Vec<_>>()) || start.iter().any(|f| f.body == Body::Missing) {
                continue;
            }
            cases.push(no(start.clone(), vec![]));
            for f in &all {
                if distinct(&[&start[..].iter().collect::<Vec<_>>()[..], &[f]].concat()) {
                    cases.push(no(start.clone(), vec![Step::Import(vec![f.clone()])]));
                }
            }
        }
    }
    // histories of the well-formed files and one broken
    let few: Vec<F> = vec![valid[0].clone(), valid[1].clone(), valid[2].clone(), valid[3].clone(), bad[0].clone()];
    let mut steps: Vec<Step> = vec![Step::Remove("Alpha"), Step::Remove("Beta.x"), Step::Remove("Nothing")];
    for m in 1..1usize << few.len() {
        if m.count_ones() <= 2 {
            let l: Vec<F> = (0..few.len()).filter(|i| m >> i & 1 == 1).map(|i| few[i].clone()).collect();
            let mut r = l.clone();
            r.reverse();
            if r.len() > 1 {
                steps.push(Step::Import(r));
            }
            steps.push(Step::Import(l));
        }
    }
    for (k, start) in [vec![], vec![valid[1].clone()], vec![valid[0].clone(), valid[2].clone(), valid[3].clone()]].into_iter().enumerate() {
        for n in 1..=if k == 2 { 3 } else { ctx.pick(2, 3) } {
            all_seqs(steps.len(), n, |q| {
                cases.push(no(start.clone(), q.iter().map(|i| steps[*i].clone()).collect()));
                true
            });
        }
    }
    // index files
    let ix: Vec<Index> = vec![
        Index::Good(vec![("1.0.0", Own), ("2.0.0", Own)], "2.0.0"),
        Index::Good(vec![("1.0.0", Own), ("2.0.0", Own), ("3.0.0-rc.1", Elsewhere)], "1.0.0"),
        Index::Good(vec![("1.2.0", Own)], "1.2.0"),
        Index::Good(vec![], "1.0.0"),
        Index::Good(vec![("1.0.0", Own), ("5.0.0", Elsewhere)], "5.0.0"),
        Index::Good(vec![("0.5.0", Own), ("9.0.0", Own)], "0.5.0"),
        Index::Good(vec![], "7.0.0"),
        Index::Good(vec![("1.0.0", OtherVersion), ("2.0.0", Own), ("3.0.0", OtherMod)], "2.0.0"),
        Index::Good(vec![("1.0.0", Case), ("2.0.0", OtherVersion), ("2.1.0", Case), ("2.2.0", OtherMod)], "2.0.0"),
        Index::Garbage,
        Index::BadVersion,
        Index::BadLatest,
        Index::NoMod,
        Index::Status(404),
        Index::Status(500),
        Index::Cut,
        Index::Hang,
        Index::NoServer,
    ];
    let a1 = good("Alpha", "1.0.0", 0, true);
    let a2 = good("Alpha", "1.2.0", 1, true);
    let a3 = good("Alpha", "1.10.0", 2, false);
    let b = good("Beta.x", "2.0.0", 1, true);
    let mut with_index = vec![];
    for x in &ix {
        for y in ix.iter().filter(|y| ctx.thorough() || **y == ix[0] || **y == ix[13]) {
            for start in [vec![], vec![a1.clone()], vec![a1.clone(), a2.clone()], vec![a2.clone(), a3.clone(), b.clone()]] {
                for st in [vec![], vec![Step::Import(vec![a2.clone()])], vec![Step::Import(vec![a3.clone()]), Step::Import(vec![b.clone(), a1.clone()])], vec![Step::Import(vec![a1.clone(), bad[1].clone()]), Step::Remove("Alpha"), Step::Import(vec![a2.clone()])]] {
                    if start.is_empty() && st.is_empty() {
                        continue;
                    }
                    with_index.push(Case { start: start.clone(), steps: st, indices: vec![("Alpha", x.clone()), ("Beta.x", y.clone())], ui: None });
                }
            }
        }
    }
    // the window in between
    let mut ui = vec![];
    for x in [&ix[0], &ix[1], &ix[9]] {
        for act in [("Alpha", Some("1.0.0")), ("Alpha", Some("2.0.0")), ("Alpha", None), ("Beta.x", None), ("Beta.x", Some("2.0.0"))] {
            for (start, st) in [
                (vec![a1.clone(), b.clone()], vec![]),
                (vec![a1.clone()], vec![Step::Import(vec![a2.clone()])]),
                (vec![a1.clone(), a3.clone(), b.clone()], vec![Step::Import(vec![a2.clone()]), Step::Import(vec![b.clone()])]),
                (vec![], vec![Step::Import(vec![a1.clone(), b.clone()]), Step::Import(vec![a2.clone()])]),
            ] {
                ui.push(Case { start, steps: st, indices: vec![("Alpha", x.clone()), ("Beta.x", ix[0].clone())], ui: Some(act) });
            }
        }
    }
    let counts = [cases.len(), with_index.len(), ui.len()];
    cases.extend(with_index);
    cases.extend(ui);
    par_for(cases.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        if let Err(e) = judge(ctx, &cases[i]) {
            let c = &cases[i];
            let n = |l: &[F]| l.iter().map(|f| format!("{} {}", String::from_utf8_lossy(&f.name), match &f.body { Body::Meta(_) => "".into(), b => format!("{b:?}").chars().take(12).collect::<String>() })).collect::<Vec<_>>();
            let st: Vec<String> = c.steps.iter().map(|s| match s { Step::Import(l) | Step::Again(l) => format!("import {:?}", n(l)), Step::Remove(x) => format!("remove {x}") }).collect();
            ctx.violation(&format!("library:{i}"), format!("start {:?} then {st:?} index files {:?} user {:?}: {e}", n(&c.start), c.indices, c.ui));
        }
    });
    let moved = |v: &Index| match v {
        Index::Good(a, b) => Index::Moved(a.clone(), b),
        x => x.clone(),
    };
    let mut changes = vec![];
    for x in ix.iter().filter(|x| **x != Index::NoServer) {
        for y in ix.iter().filter(|x| **x != Index::NoServer).map(moved) {
            for imports in [vec![vec![a2.clone()]], vec![vec![a1.clone()]], vec![vec![a2.clone()], vec![a1.clone()]]] {
                changes.push((x.clone(), y.clone(), imports));
            }
        }
    }
    par_for(changes.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let (x, y, imports) = &changes[i];
        if let Err(e) = changing(ctx, &[a1.clone()], imports, x, y) {
            ctx.violation(&format!("changing:{i}"), format!("index file {x:?}, then {y:?}, imports {:?}: {e}", imports.iter().flatten().map(|f| String::from_utf8_lossy(&f.name)).collect::<Vec<_>>()));
        }
    });
    let three = [valid[0].clone(), valid[1].clone(), valid[3].clone()];
    for f in &three {
        for n in [vec![three[0].clone()], three[..2].to_vec(), three.to_vec()] {
            let f = String::from_utf8_lossy(&f.name).to_string();
            if f.contains("-Alpha-") {
                if let Err(e) = lost(ctx, &n, &f) {
                    ctx.violation("lost", format!("{f} disappears: {e}"));
                }
            }
        }
    }
    let mut n = 0;
    for start in [vec![valid[0].clone()], valid[..4].to_vec()] {
        for f in &start {
            for spelling in 0..6 {
                n += 1;
                if let Err(e) = own(ctx, &start, f, spelling) {
                    ctx.violation("own", format!("importing {} from the mods folder itself (way {spelling}): {e}", String::from_utf8_lossy(&f.name)));
                }
            }
        }
    }
    for path in ["/", "..", "", "/..", "../.."] {
        for first in [true, false] {
            n += 1;
            if let Err(e) = nameless(ctx, path, &valid[0], first) {
                ctx.violation("nameless", format!("importing {path:?}: {e}"));
            }
        }
    }
    let mut newer = valid[0].clone();
    if let Body::Meta(v) = &mut newer.body {
        v["description"] = json!("rebuilt");
    }
    for (start, f) in [(vec![], &valid[0]), (vec![valid[3].clone()], &valid[0]), (vec![valid[0].clone()], &valid[1]), (vec![valid[0].clone(), valid[3].clone()], &newer)] {
        n += 1;
        if let Err(e) = disturbed(ctx, &start, f) {
            ctx.violation("disturbed", format!("{} files, then importing {}: {e}", start.len(), String::from_utf8_lossy(&f.name)));
        }
    }
    ctx.outcome_n("special imports", n);
    ctx.outcome_n("changing index files", changes.len() as u64);
    ctx.outcome_n("files", counts[0] as u64);
    ctx.outcome_n("index files", counts[1] as u64);
    ctx.outcome_n("window actions", counts[2] as u64);
    ctx.bound(format!("{} start folders of up to 2 of {} files with imports, histories of up to {} imports and removals; {} histories with 18 kinds of index file answers; {} histories with an action of the window at every moment the background thread does not hold the data; {} pairs of index files, the second from any moment on; files that disappear at any moment; imports of files of the mods folder itself in 6 spellings, of 5 paths without a name, and with a crash, an error or a short write at every disk call", counts[0], all.len(), 3, counts[1], counts[2], changes.len()));
    ctx.assume("importing a broken file over a mod file of the same name and two files for one version are not explored; the server is a loopback one");
    ctx.sample(|| format!("{:?}", cases[100]));
}
