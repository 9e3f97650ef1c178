//! P28: dependency resolution of the mod manager.
use crate::error::{ModLoaderWarning, ModLoaderWarningKind};
use crate::mod_processing::dependencies::{DependencyGraph, ModWithDependencies};
use mc::core::*;
use semver::{Version, VersionReq};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use unreal_mod_metadata::{Dependency, DownloadInfo, DownloadMode};

const VERSIONS: [&str; 5] = ["1.0.0", "1.2.0", "2.0.0", "2.0.0-rc.1", "0.1.0"];
const REQS: [&str; 7] = ["*", ">=1.1.0", "<2.0.0", "=1.0.0", "^2", ">=1, <1.2.0", "~1.2"];
const IDS: [&str; 4] = ["A", "B", "C", "X"]; // X is never added itself

/// (dependency, requirement, download)
type Dep = (usize, usize, usize);
#[derive(Clone, Debug, PartialEq)]
struct Mod {
    id: usize,
    versions: Vec<usize>,
    deps: Vec<Dep>,
}
fn info(d: usize) -> Option<DownloadInfo> {
    (d > 0).then(|| DownloadInfo { download_mode: DownloadMode::IndexFile, url: format!("u{d}") })
}
impl Mod {
    fn real(&self) -> ModWithDependencies {
        ModWithDependencies::new(
            IDS[self.id].into(),
            self.versions.iter().map(|v| Version::parse(VERSIONS[*v]).unwrap()).collect(),
            self.deps.iter().map(|(d, r, u)| (IDS[*d].to_string(), Dependency { version: VersionReq::parse(REQS[*r]).unwrap(), download: info(*u) })).collect(),
        )
    }
}
fn ok(req: usize, v: &Version) -> bool {
    VersionReq::parse(REQS[req]).unwrap().matches(v)
}
#[derive(Default)]
struct Model {
    versions: BTreeMap<usize, Vec<usize>>, // of mods that were added themselves
    edges: Vec<(usize, Dep)>,
    nodes: BTreeSet<usize>,
}
impl Model {
    fn dependents(&self, m: usize) -> BTreeSet<(String, String)> {
        self.edges.iter().filter(|(_, d)| d.0 == m).map(|(f, d)| (IDS[*f].to_string(), VersionReq::parse(REQS[d.1]).unwrap().to_string())).collect()
    }
    fn step(&mut self, batch: &[Mod]) -> BTreeSet<usize> {
        let mut asked = BTreeSet::new();
        for m in batch {
            self.nodes.insert(m.id);
            let v = self.versions.entry(m.id).or_default();
            if v.is_empty() {
                *v = m.versions.clone();
            }
            for d in &m.deps {
                self.nodes.insert(d.0);
                self.edges.push((m.id, *d));
                asked.insert(d.0);
            }
        }
        asked
    }
}
fn probes() -> Vec<Version> {
    ["0.0.1", "0.1.0", "1.0.0", "1.0.1", "1.1.0", "1.2.0", "1.3.0", "1.9.9", "2.0.0-rc.1", "2.0.0", "2.5.0", "3.0.0"].iter().map(|v| Version::parse(v).unwrap()).collect()
}

fn judge(ctx: &Ctx, history: &[Vec<Mod>], probes: &[Version]) -> Result<(), String> {
    let mut m = Model::default();
    let mut g = DependencyGraph::default();
    for batch in history {
        ctx.step(1);
        let real: Vec<_> = batch.iter().map(|x| x.real()).collect();
        let got: HashMap<String, (VersionReq, Vec<DownloadInfo>)> = g.add_mods(&real);
        let asked = m.step(batch);
        let want: BTreeSet<String> = asked.iter().map(|a| IDS[*a].to_string()).collect();
        let names: BTreeSet<String> = got.keys().cloned().collect();
        if names != want {
            return Err(format!("dependencies to look for: {names:?}, expected {want:?}"));
        }
        for a in asked {
            let (req, urls) = &got[IDS[a]];
            let reqs: Vec<usize> = m.edges.iter().filter(|(_, d)| d.0 == a).map(|(_, d)| d.1).collect();
            for v in probes {
                // a pre-release is only taken by a requirement that names one; none here does
                let all = reqs.iter().all(|r| ok(*r, v));
                if req.matches(v) != all && v.pre.is_empty() {
                    return Err(format!("{}: requirement {req} takes {v}: {}, the dependents' requirements: {all}", IDS[a], req.matches(v)));
                }
            }
            let mut got: Vec<String> = urls.iter().map(|u| u.url.clone()).collect();
            got.sort();
            let want: BTreeSet<String> = m.edges.iter().filter(|(_, d)| d.0 == a && d.2 > 0).map(|(_, d)| format!("u{}", d.2)).collect();
            if got != want.iter().cloned().collect::<Vec<_>>() {
                return Err(format!("{}: download locations {got:?}, expected {want:?}", IDS[a]));
            }
        }
    }
    let (found, warnings) = g.validate_graph();
    let mut warned: BTreeMap<String, BTreeSet<(String, String)>> = BTreeMap::new();
    for ModLoaderWarning { kind, .. } in &warnings {
        match kind {
            ModLoaderWarningKind::UnresolvedDependency(id, by) => {
                if warned.insert(id.clone(), by.iter().cloned().collect()).is_some() {
                    return Err(format!("two warnings about {id}"));
                }
            }
            k => return Err(format!("unexpected warning {k:?}")),
        }
    }
    for n in &m.nodes {
        let id = IDS[*n];
        let reqs: Vec<usize> = m.edges.iter().filter(|(_, d)| d.0 == *n).map(|(_, d)| d.1).collect();
        match (found.get(id), warned.get(id)) {
            (Some(_), Some(_)) | (None, None) => return Err(format!("{id} is neither resolved nor reported, or both")),
            _ => {}
        }
        if let Some(by) = warned.get(id) {
            let want = m.dependents(*n);
            let who = |s: &BTreeSet<(String, String)>| s.iter().map(|x| x.0.clone()).collect::<BTreeSet<_>>();
            // a mod that was added twice with different requirements may be listed with one of them
            let multi = who(&want).len() != want.len();
            if !by.is_subset(&want) || who(by) != who(&want) || (*by != want && !multi) {
                return Err(format!("{id} is reported as required by {by:?}, it is required by {:?}", m.dependents(*n)));
            }
        }
        if let Some(v) = m.versions.get(n).filter(|v| !v.is_empty()) {
            let fits: Vec<Version> = v.iter().map(|v| Version::parse(VERSIONS[*v]).unwrap()).filter(|v| reqs.iter().all(|r| ok(*r, v))).collect();
            // what requirements say about pre-releases is left open
            let open = v.iter().any(|v| VERSIONS[*v].contains('-'));
            match found.get(id) {
                Some(x) if !fits.contains(x) && !open => return Err(format!("{id} resolved to {x}, available and acceptable: {fits:?}")),
                Some(x) if !open && fits.iter().max() != Some(x) => return Err(format!("{id} resolved to {x}, newer and acceptable: {fits:?}")),
                Some(x) if !v.iter().any(|v| VERSIONS[*v] == x.to_string()) => return Err(format!("{id} resolved to {x}, which is not available")),
                None if !fits.is_empty() && !open => return Err(format!("{id} is reported as unresolved although {fits:?} would do")),
                _ => {}
            }
        }
    }
    if found.len() + warned.len() != m.nodes.len() {
        return Err("unknown mods in the result".into());
    }
    for (n, id) in IDS.iter().enumerate() {
        let d = m.dependents(n);
        let got: BTreeSet<String> = g.find_mod_dependents(id).into_iter().collect();
        if got != d.iter().map(|x| x.0.clone()).collect() {
            return Err(format!("dependents of {id}: {got:?}, expected {d:?}"));
        }
        let got: BTreeSet<(String, String)> = g.find_mod_dependents_with_version(id).into_iter().collect();
        let multi = d.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() != d.len();
        if got != d && !multi {
            return Err(format!("dependents of {id} with requirements: {got:?}, expected {d:?}"));
        }
    }
    Ok(())
}

fn specs(reqs: &[usize], urls: &[usize], versions: &[&[usize]], ids: usize) -> Vec<Mod> {
    let mut out = vec![];
    let one: Vec<Option<(usize, usize)>> = [None].into_iter().chain(reqs.iter().flat_map(|r| urls.iter().map(move |u| Some((*r, *u))))).collect();
    for id in 0..ids {
        let others: Vec<usize> = (0..4).filter(|o| *o != id && (*o < ids || *o == 3)).collect();
        for v in versions {
            let mut idx = vec![0usize; others.len()];
            loop {
                let deps: Vec<Dep> = others.iter().zip(&idx).filter_map(|(o, i)| one[*i].map(|(r, u)| (*o, r, u))).collect();
                out.push(Mod { id, versions: v.to_vec(), deps });
                let mut k = 0;
                while k < idx.len() {
                    idx[k] += 1;
                    if idx[k] < one.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
        }
    }
    out
}

pub fn run(ctx: &Ctx) {
    let p = probes();
    ctx.bound(format!("all histories of two steps over {} of the {} requirements, 2 download locations, 5 version sets and 3 mods of which one is never available; all histories of {} steps over small sets including cycles and self references, each step by itself and all in one step; requirements are compared on {} versions; 200 requirements on one mod", ctx.pick(3, 5), REQS.len(), ctx.pick(3, 4), p.len()));
    ctx.assume("the fate of mods nobody provides, and pre-release versions are left open");
    let check = |h: &[Vec<Mod>]| {
        ctx.state();
        ctx.trace();
        match guard(|| judge(ctx, h, &p)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => {
                let key: String = e.split([':', '{']).next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                ctx.violation(&key, format!("{e}\nhistory {h:?}"));
            }
        }
    };
    // two steps
    let reqs: &[usize] = if ctx.thorough() { &[0, 1, 2, 4, 5] } else { &[1, 2, 4] };
    let a = specs(reqs, &[0, 1], &[&[], &[2], &[0, 2], &[2, 1, 0], &[1, 3]], 2);
    par_for(a.len(), |i| {
        for b in &a {
            if ctx.stopped() {
                return;
            }
            check(&[vec![a[i].clone()], vec![b.clone()]]);
            check(&[vec![a[i].clone(), b.clone()]]);
        }
    });
    ctx.outcome_n("two steps", 2 * (a.len() * a.len()) as u64);
    // more steps, three mods
    let a = specs(&[1, 2], &[1], &[&[0], &[0, 2]], 3);
    let depth = ctx.pick(2, 3);
    par_for(a.len(), |i| {
        for b in &a {
            if ctx.stopped() {
                return;
            }
            check(&[vec![a[i].clone(), b.clone()], vec![a[i].clone()]]);
            if depth == 3 {
                for c in a.iter().filter(|c| c.versions.len() == 1) {
                    check(&[vec![a[i].clone()], vec![b.clone()], vec![c.clone()]]);
                }
            }
        }
    });
    let a = specs(&[1, 4], &[2], &[&[2]], 2);
    all_seqs(a.len(), ctx.pick(3, 4), |s| {
        let h: Vec<Vec<Mod>> = s.iter().map(|i| vec![a[*i].clone()]).collect();
        check(&h);
        !ctx.stopped()
    });
    // every single requirement, self references, many dependents
    for r in 0..REQS.len() {
        for r2 in 0..REQS.len() {
            for v in 0..VERSIONS.len() {
                let m = |id: usize, deps: Vec<Dep>| Mod { id, versions: vec![v], deps };
                check(&[vec![m(0, vec![(0, r, 1)])], vec![m(1, vec![(0, r2, 2)])]]);
                check(&[vec![m(0, vec![(1, r, 1)]), m(1, vec![(0, r2, 2)])]]);
                check(&[vec![m(0, vec![(2, r, 1)]), m(1, vec![(2, r2, 1)]), m(2, vec![])]]);
                check(&[vec![m(0, vec![(2, r, 1)])], vec![m(1, vec![(2, r2, 1)])], vec![Mod { id: 2, versions: (0..5).collect(), deps: vec![] }]]);
                for versions in [vec![2, 0], vec![0, 1, 2, 4], vec![1, 4, 0], vec![4, 2, 1, 0]] {
                    check(&[vec![m(0, vec![(2, r, 1)]), m(1, vec![(2, r2, 1)]), Mod { id: 2, versions, deps: vec![] }]]);
                }
            }
        }
    }
    for n in [1usize, 2, 31, 32, 33, 64, 200] {
        ctx.state();
        ctx.trace();
        let r = guard(|| -> Result<(), String> {
            let mut g = DependencyGraph::default();
            let dep = |r: &str| HashMap::from([("D".to_string(), Dependency { version: VersionReq::parse(r).unwrap(), download: None })]);
            let mut mods: Vec<ModWithDependencies> = (0..n).map(|i| ModWithDependencies::new(format!("M{i}"), vec![Version::new(1, 0, 0)], dep(if i % 2 == 0 { ">=1.0.0" } else { "<2.0.0" }))).collect();
            mods.push(ModWithDependencies::new("D".into(), vec![Version::new(1, 5, 0)], HashMap::new()));
            let q = g.add_mods(&mods);
            if !q["D"].0.matches(&Version::new(1, 5, 0)) || q["D"].0.matches(&Version::new(0, 5, 0)) {
                return Err("wrong combined requirement".into());
            }
            let (f, w) = g.validate_graph();
            if f.get("D") != Some(&Version::new(1, 5, 0)) || !w.is_empty() || g.find_mod_dependents("D").len() != n {
                return Err(format!("D resolved to {:?}, {} warnings", f.get("D"), w.len()));
            }
            Ok(())
        });
        if let Ok(Err(e)) | Err(e) = r {
            ctx.violation("many dependents", format!("{n} mods depend on one: {e}"));
        }
    }
}
