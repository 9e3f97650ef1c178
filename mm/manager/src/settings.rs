//! P30: settings are what the file says, survive a restart, a crash at any point and a failing disk.
use crate::background_work::BackgroundThreadMessage as Msg;
use crate::disk::{under, Plan};
use crate::game_mod::SelectedVersion;
use crate::library::{meta, Body, F};
use crate::mod_config::write_config;
use crate::profile::{Profile, ProfileMod};
use crate::version::GameBuild;
use crate::world::*;
use crate::ModLoaderAppData;
use mc::core::*;
use mc::pkg::{deviations, Ch};
use semver::Version;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;

type Prof = (String, BTreeMap<String, (bool, u16, String)>);
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Set {
    pub platform: Option<String>,
    pub refuse: bool,
    /// enabled, follows the latest, version
    pub mods: BTreeMap<String, (bool, bool, String)>,
    pub trusted: Vec<Vec<u8>>,
    pub profiles: Vec<Prof>,
}
pub fn observe(d: &ModLoaderAppData) -> Set {
    Set {
        platform: d.selected_game_platform.clone(),
        refuse: d.refuse_mismatched_connections,
        mods: d.game_mods.iter().map(|(i, m)| (i.clone(), (m.enabled, m.selected_version.is_latest(), m.selected_version.clone().unwrap().to_string()))).collect(),
        trusted: d.trusted_mods.clone(),
        profiles: d.profiles.iter().map(|p| (p.name.clone(), p.mods.iter().map(|(i, m)| (i.clone(), (m.force_latest, m.priority, m.version.clone()))).collect())).collect(),
    }
}
fn platform(name: &str) -> Platform {
    let n = name.len();
    Platform { install: Some(PathBuf::from(format!("/nowhere/{name}"))), paks: Some(PathBuf::from(format!("/nowhere/{name}/paks"))), build: Some((n, 1, 2, 3)), ..Default::default() }
}
fn files(ids: &[(&str, &str)]) -> Vec<F> {
    ids.iter().map(|(i, v)| F::new(&format!("000-{i}-{v}_P.pak"), Body::Meta(meta(i, v, 0, None)))).collect()
}

#[derive(Clone, Debug)]
struct Case {
    folder: Vec<(&'static str, &'static str)>,
    platforms: Vec<&'static str>,
    /// None: no settings yet
    doc: Option<String>,
    want: Set,
}
/// The settings a manager starts with.
fn fresh(folder: &[(&str, &str)], platforms: &[&str]) -> Set {
    let mut mods = BTreeMap::new();
    for (i, v) in folder {
        let v = Version::parse(v).unwrap();
        let e = mods.entry(i.to_string()).or_insert(v.clone());
        *e = v.max(e.clone());
    }
    Set { platform: first(platforms), refuse: true, mods: mods.into_iter().map(|(i, v)| (i, (false, true, v.to_string()))).collect(), trusted: vec![], profiles: vec![] }
}
fn first(platforms: &[&str]) -> Option<String> {
    if platforms.contains(&"Steam") {
        Some("Steam".into())
    } else {
        platforms.iter().min().map(|s| s.to_string())
    }
}
fn gen(c: &mut Ch) -> Case {
    let folder = c.of(&[vec![("Alpha", "1.0.0"), ("Alpha", "1.2.0"), ("Beta.x", "2.0.0")], vec![], vec![("Alpha", "1.0.0")], vec![("Alpha", "1.0.0"), ("Alpha", "1.2.0"), ("Alpha", "1.10.0")]]);
    let platforms = c.of(&[vec!["Steam", "Other"], vec!["Other"], vec!["Steam"], vec!["Other", "Another"], vec![]]);
    let mut want = fresh(&folder, &platforms);
    let none = c.pick(2) == 1;
    let mut d = json!({});
    let p = c.pick(5);
    match p {
        0 => d["selected_game_platform"] = json!("Other"),
        1 => d["selected_game_platform"] = json!("Steam"),
        2 => d["selected_game_platform"] = Value::Null,
        3 => {}
        _ => d["selected_game_platform"] = json!("Gone"),
    }
    let refuse = c.of(&[false, true]);
    d["refuse_mismatched_connections"] = json!(refuse);
    let mut set = want.clone();
    if let Some(n) = d["selected_game_platform"].as_str() {
        if platforms.contains(&n) {
            set.platform = Some(n.into());
        }
    }
    set.refuse = refuse;
    let mut mods = json!({});
    for id in c.of(&[vec!["Alpha"], vec![], vec!["Beta.x"], vec!["Alpha", "Beta.x"], vec!["Unknown", "Alpha"], vec!["alpha"]]) {
        let force = c.of(&[Some(false), Some(true), None]);
        let enabled = c.of(&[true, false]);
        let version = c.of(&["1.0.0", "1.2.0", "2.0.0", "9.9.9", "x", "", "1.0"]);
        let priority = c.of(&[0, 1, 65535]);
        mods[id] = json!({"enabled": enabled, "version": version, "priority": priority});
        if let Some(f) = force {
            mods[id]["force_latest"] = json!(f);
        }
        if let Some(m) = set.mods.get_mut(id) {
            m.0 = enabled;
            if force == Some(false) && folder.iter().any(|(i, v)| *i == id && *v == version) {
                (m.1, m.2) = (false, version.into());
            }
        }
    }
    d["current"] = json!({ "mods": mods });
    let t = c.pick(6);
    if t != 1 {
        let l = [vec!["00ff"], vec![], vec![], vec!["zz", "AB01"], vec!["0", "", "0102"], vec!["11", "11", "22"]][t].clone();
        set.trusted = l.iter().filter_map(|h| (h.len() % 2 == 0).then(|| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()).flatten()).collect();
        d["trusted_mods"] = json!(l);
    }
    let m = |f: Option<bool>, p: u16, v: &str| {
        let mut x = json!({"priority": p, "version": v});
        if let Some(f) = f {
            x["force_latest"] = json!(f);
        }
        x
    };
    let pm = |f: bool, p: u16, v: &str| (f, p, v.to_string());
    let (doc, profiles): (Value, Vec<Prof>) = match c.pick(7) {
        0 => (json!([{"name": "one", "mods": {"Alpha": m(Some(false), 3, "1.0.0"), "Gone": m(None, 0, "z")}}]), vec![("one".into(), [("Alpha".to_string(), pm(false, 3, "1.0.0")), ("Gone".to_string(), pm(true, 0, "z"))].into())]),
        1 => (json!([]), vec![]),
        2 => (json!([{"name": "b", "mods": {}}, {"name": "a", "mods": {"Alpha": m(Some(true), 65535, "1.0.0")}}, {"name": "b", "mods": {}}]), vec![("b".into(), [].into()), ("a".into(), [("Alpha".to_string(), pm(true, 65535, "1.0.0"))].into()), ("b".into(), [].into())]),
        3 => {
            let mut e = m(None, 1, "1.0.0");
            e["enabled"] = json!(true);
            let mut o = m(Some(false), 1, "2.0.0");
            o["enabled"] = json!(false);
            let mut q = m(Some(false), 9, "2.0.0");
            q["enabled"] = json!(true);
            (json!({"old": {"mods": {"Alpha": e, "Beta.x": o, "Q": q}}}), vec![("old".into(), [("Alpha".to_string(), pm(true, 1, "1.0.0")), ("Q".to_string(), pm(false, 9, "2.0.0"))].into())])
        }
        4 => (json!(3), vec![]),
        5 => (json!({"x": 3}), vec![]),
        _ => (json!([{"name": "字\"\\", "mods": {"é": m(Some(true), 1, "\n")}}]), vec![("字\"\\".into(), [("é".to_string(), pm(true, 1, "\n"))].into())]),
    };
    d["profiles"] = doc;
    set.profiles = profiles;
    if c.pick(2) == 1 {
        d["added_later"] = json!({"x": [1]});
    }
    let text = if c.pick(2) == 1 { serde_json::to_string_pretty(&d).unwrap() } else { d.to_string() };
    if !none {
        want = set;
    }
    Case { folder, platforms, doc: (!none).then_some(text), want }
}

struct World {
    s: Scratch,
    platforms: Vec<(&'static str, Platform)>,
}
impl World {
    fn new(folder: &[(&'static str, &'static str)], platforms: &[&'static str], doc: Option<&[u8]>) -> World {
        let s = Scratch::new("set");
        let mods = s.mods();
        fs::create_dir_all(&mods).unwrap();
        files(folder).iter().for_each(|f| {
            f.put(&mods);
        });
        if let Some(d) = doc {
            fs::write(mods.join("modconfig.json"), d).unwrap();
        }
        World { s, platforms: platforms.iter().map(|p| (*p, platform(p))).collect() }
    }
    fn live(&self, m: Vec<Msg>, ui: Option<Ui>) -> Result<(Set, Life), String> {
        let l = live(&self.s, &self.platforms, m, ui)?;
        if l.working {
            return Err("still working after the last message".into());
        }
        let d = l.data.lock();
        let set = observe(&d);
        if let Some(p) = &set.platform {
            let w = platform(p);
            if (&d.game_install_path, &d.paks_path, d.game_build) != (&w.install, &w.paks, w.build.map(|b| GameBuild::new(b.0, b.1, b.2, b.3))) {
                return Err(format!("paths of another platform than {p}: {:?} {:?}", d.game_install_path, d.paks_path));
            }
        }
        if let Some(e) = &d.error {
            return Err(format!("error {e}"));
        }
        drop(d);
        Ok((set, l))
    }
}
fn case(ctx: &Ctx, c: &Case) -> Result<(), String> {
    let w = World::new(&c.folder, &c.platforms, c.doc.as_ref().map(|d| d.as_bytes()));
    let (got, _) = w.live(vec![], None)?;
    ctx.step(1);
    if got != c.want {
        return Err(format!("started with {got:?}, expected {:?}", c.want));
    }
    for m in [vec![], vec![Msg::WriteConfig], vec![]] {
        ctx.step(1);
        let (again, _) = w.live(m, None)?;
        if again != got {
            return Err(format!("after a restart {again:?}, before {got:?}"));
        }
    }
    Ok(())
}

type Edit = (&'static str, fn(&mut ModLoaderAppData));
fn edits() -> Vec<Edit> {
    fn v(s: &str) -> Version {
        Version::parse(s).unwrap()
    }
    vec![
        ("enable Alpha", |d| d.game_mods.get_mut("Alpha").unwrap().enabled ^= true),
        ("enable Beta.x", |d| d.game_mods.get_mut("Beta.x").unwrap().enabled ^= true),
        ("Alpha 1.0.0", |d| d.game_mods.get_mut("Alpha").unwrap().selected_version = SelectedVersion::Specific(v("1.0.0"))),
        ("Alpha 1.2.0", |d| d.game_mods.get_mut("Alpha").unwrap().selected_version = SelectedVersion::Specific(v("1.2.0"))),
        ("Alpha latest", |d| d.game_mods.get_mut("Alpha").unwrap().selected_version = SelectedVersion::LatestIndirect(Some(v("1.2.0")))),
        ("refuse", |d| d.refuse_mismatched_connections ^= true),
        ("trust", |d| d.trusted_mods.push(vec![0, 255, d.trusted_mods.len() as u8])),
        ("add profile", |d| {
            let n = d.profiles.len();
            d.profiles.push(Profile { name: format!("p{n}"), mods: [("Alpha".to_string(), ProfileMod { force_latest: n % 2 == 0, priority: n as u16, version: "1.0.0".into() })].into() })
        }),
        ("remove profile", |d| {
            if !d.profiles.is_empty() {
                d.profiles.remove(0);
            }
        }),
        ("platform Other", |d| d.set_game_platform("Other").unwrap()),
        ("platform Steam", |d| d.set_game_platform("Steam").unwrap()),
        ("platform none", |d| {
            if d.set_game_platform("None").is_ok() {
                panic!("unknown platform accepted")
            }
        }),
    ]
}

pub fn run(ctx: &Ctx) {
    let k = ctx.pick(3, 4);
    let mut cases = vec![];
    deviations(k, &mut |c| {
        cases.push(gen(c));
        true
    });
    let fail = |key: String, d: String| ctx.violation(&key, d);
    par_for(cases.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        ctx.trace();
        if let Err(e) = case(ctx, &cases[i]) {
            let c = &cases[i];
            fail(format!("start:{i}"), format!("mods {:?}, platforms {:?}, settings {:?}: {e}", c.folder, c.platforms, c.doc));
        }
    });
    ctx.outcome_n("settings files", cases.len() as u64);
    // histories of what the user does
    let folder = cases[0].folder.clone();
    let ed = edits();
    let mut hist: Vec<Vec<usize>> = vec![];
    for n in 1..=ctx.pick(3, 4) {
        all_seqs(ed.len(), n, |q| {
            hist.push(q.to_vec());
            true
        });
    }
    par_for(hist.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        ctx.trace();
        let r = (|| -> Result<(), String> {
            let w = World::new(&folder, &["Steam", "Other"], None);
            let after = std::cell::RefCell::new(Set::default());
            let act = |d: &mut ModLoaderAppData| {
                hist[i].iter().for_each(|e| (ed[*e].1)(d));
                *after.borrow_mut() = observe(d);
            };
            let (_, l) = w.live(vec![Msg::WriteConfig], None)?;
            let (_, l) = w.live(vec![Msg::WriteConfig], Some(Ui { at: l.moments - 1, act: &act, follow: false }))?;
            if !l.ui_done {
                return Err("harness: the user did nothing".into());
            }
            ctx.step(hist[i].len() as u64);
            let (got, _) = w.live(vec![], None)?;
            if got != *after.borrow() {
                return Err(format!("after a restart {got:?}, left as {:?}", after.borrow()));
            }
            Ok(())
        })();
        if let Err(e) = r {
            fail(format!("history:{i}"), format!("{:?}: {e}", hist[i].iter().map(|e| ed[*e].0).collect::<Vec<_>>()));
        }
    });
    ctx.outcome_n("histories", hist.len() as u64);
    // damaged files
    let docs: Vec<Vec<u8>> = vec![cases[0].doc.clone().unwrap().into_bytes(), serde_json::to_string_pretty(&serde_json::from_str::<Value>(cases[0].doc.as_ref().unwrap()).unwrap()).unwrap().into_bytes()];
    let mut dam: Vec<(Vec<u8>, bool)> = vec![(vec![], true), (b"null".to_vec(), true), (b"[]".to_vec(), true), (b"{}".to_vec(), true), (vec![0xff; 40], true), ([0xef, 0xbb, 0xbf].iter().chain(&docs[0]).copied().collect(), false)];
    for d in &docs[..ctx.pick(1, 2)] {
        for i in 0..d.len() {
            dam.push((d[..i].to_vec(), true));
            for v in [0u8, b'"', b'{', b'}', b'x', b'9', 0x80, 0xff] {
                let mut b = d.clone();
                if b[i] != v {
                    b[i] = v;
                    dam.push((b, false));
                }
            }
        }
    }
    let plain = fresh(&folder, &["Steam", "Other"]);
    par_for(dam.len(), |i| {
        if ctx.stopped() {
            return;
        }
        ctx.state();
        ctx.trace();
        let (b, broken) = &dam[i];
        let r = (|| -> Result<(), String> {
            let w = World::new(&folder, &["Steam", "Other"], Some(b));
            let (got, _) = w.live(vec![], None)?;
            if *broken && got != plain {
                return Err(format!("started with {got:?}"));
            }
            if !got.mods.keys().eq(plain.mods.keys()) || got.platform.is_none() {
                return Err(format!("mods or platform lost: {got:?}"));
            }
            let (again, _) = w.live(vec![], None)?;
            if got != again {
                return Err(format!("after a restart {again:?}, before {got:?}"));
            }
            Ok(())
        })();
        if let Err(e) = r {
            fail(format!("damage:{i}"), format!("settings {:?}: {e}", String::from_utf8_lossy(b)));
        }
    });
    ctx.outcome_n("damaged files", dam.len() as u64);
    // every crash point and every failing call while settings are saved
    let states: Vec<&Case> = cases.iter().filter(|c| c.platforms == ["Steam", "Other"] && c.doc.is_some()).step_by(ctx.pick(800, 60)).collect();
    let n = states.len();
    let mut pairs = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b && states[a].folder == states[b].folder {
                pairs.push((a, b));
            }
        }
    }
    par_for(pairs.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let (old, new) = (states[pairs[i].0], states[pairs[i].1]);
        let r = (|| -> Result<(), String> {
            // the newer settings in memory, the older ones on disk
            let w = World::new(&new.folder, &new.platforms, new.doc.as_ref().map(|d| d.as_bytes()));
            let (newer, l) = w.live(vec![], None)?;
            let at = w.s.mods().join("modconfig.json");
            let saved = |doc: &Case| -> Result<(Set, Vec<u8>), String> {
                let o = World::new(&doc.folder, &doc.platforms, doc.doc.as_ref().map(|d| d.as_bytes()));
                let (s, _) = o.live(vec![], None)?;
                Ok((s, fs::read(o.s.mods().join("modconfig.json")).map_err(|e| e.to_string())?))
            };
            let (older, text) = saved(old)?;
            let data = l.data.lock();
            let mut before: BTreeSet<String> = snapshot(&w.s.mods()).into_keys().collect();
            before.insert("modconfig.json".into());
            let go = |plan: Plan| -> Result<Vec<usize>, String> {
                for f in snapshot(&w.s.mods()).into_keys() {
                    if !before.contains(&f) {
                        fs::remove_file(w.s.mods().join(f)).unwrap();
                    }
                }
                fs::write(&at, &text).unwrap();
                ctx.state();
                ctx.trace();
                let (r, calls) = under(plan, || guard(|| write_config(&data)));
                r.map_err(|e| format!("{plan:?}: {e}"))?;
                Ok(calls)
            };
            let restart = |plan: Plan| -> Result<Set, String> {
                // the lock of the first life is held, the second one has its own data
                let l = live(&w.s, &w.platforms, vec![], None).map_err(|e| format!("{plan:?}: {e}"))?;
                let d = l.data.lock();
                Ok(observe(&d))
            };
            let calls = go(Plan::Count)?;
            if calls.is_empty() {
                return Err("harness: saving makes no calls".into());
            }
            if restart(Plan::Count)? != newer {
                return Err("saved settings differ".into());
            }
            let mut plans = vec![];
            for (k, bytes) in calls.iter().enumerate() {
                plans.push(Plan::Crash(k, 0));
                
                plans.extend((1..=*bytes).map(|p| Plan::Crash(k, p)));
                plans.extend([libc::ENOSPC, libc::EACCES, libc::EIO, libc::EROFS].map(|e| Plan::Fail(k, e)));
                plans.push(Plan::Short(k));
            }
            for p in plans {
                go(p)?;
                ctx.step(1);
                let got = restart(p)?;
                if got != older && got != newer {
                    return Err(format!("{p:?} of {calls:?}: started with {got:?}, saved before {older:?}, being saved {newer:?}"));
                }
                ctx.outcome(if got == older { "interrupted-old" } else { "interrupted-new" });
            }
            Ok(())
        })();
        if let Err(e) = r {
            fail(format!("save:{i}"), format!("{:?} over {:?}: {e}", new.doc, old.doc));
        }
    });
    ctx.outcome_n("interrupted saves", pairs.len() as u64);
    ctx.bound(format!("{} starts: every combination of at most {k} unusual choices among 4 mod folders, 5 sets of platforms, no settings, platform, flags, 6 sets of mod entries with 3x2x7x3 values, trusted hashes, 7 kinds of profiles, unknown fields, layout; 3 restarts each; {} histories of up to {} of {} user actions; {} damaged files; {} saves interrupted at every call and byte or failing at every call", cases.len(), hist.len(), ctx.pick(3, 4), ed.len(), dam.len(), pairs.len()));
    ctx.assume("a required field that is missing or of the wrong type may reset all settings; power loss (reordered writes) is not modelled, a stop of the process is");
    ctx.sample(|| format!("{:?}", cases[7]));
}
