//! P04: the command line tool packs and unpacks directory trees faithfully and stays inside its output folder.
//! The tool runs as an unprivileged user in scratch folders, so a planted escape can reach nothing real.
use crate::refpak::*;
use crate::roundtrip::pattern;
use mc::core::*;
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const UID: u32 = 65534;

type Tree = BTreeMap<String, Option<Vec<u8>>>; // None = directory

fn snapshot(root: &Path) -> Tree {
    fn rec(root: &Path, d: &Path, t: &mut Tree) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            let n = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                t.insert(n, None);
                rec(root, &p, t);
            } else {
                t.insert(n, Some(std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    if root.is_dir() {
        rec(root, root, &mut t);
    }
    t
}
fn files(t: &Tree) -> BTreeMap<String, Vec<u8>> {
    t.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).collect()
}
fn own(p: &Path) {
    std::os::unix::fs::chown(p, Some(UID), Some(UID)).unwrap();
}
fn mkdir(p: &Path) {
    let mut cur = PathBuf::new();
    for c in p.components() {
        cur.push(c);
        if !cur.exists() {
            std::fs::create_dir(&cur).unwrap();
            own(&cur);
        }
    }
}
fn put(p: &Path, d: &[u8]) {
    mkdir(p.parent().unwrap());
    std::fs::write(p, d).unwrap();
    own(p);
}

fn clean(n: &str) -> PathBuf {
    Path::new(n).components().filter(|c| !matches!(c, std::path::Component::CurDir | std::path::Component::RootDir)).collect() // an absolute name may be taken relative to the output folder
}

struct Run {
    code: Option<i32>,
    err: String,
}
fn run(tool: &Path, cwd: &Path, args: &[&str]) -> Run {
    let args: Vec<&OsStr> = args.iter().map(OsStr::new).collect();
    run_limited(tool, cwd, &args, None)
}
/// `limit`: no file may grow beyond this size; writing beyond it fails like a full disk does.
fn run_limited(tool: &Path, cwd: &Path, args: &[&OsStr], limit: Option<u64>) -> Run {
    let mut c = Command::new(tool);
    if let Some(l) = limit {
        // async signal safe calls only
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                match libc::setrlimit(libc::RLIMIT_FSIZE, &r) {
                    0 => Ok(()),
                    _ => Err(std::io::Error::last_os_error()),
                }
            });
        }
    }
    let o = c
        .args(args)
        .current_dir(cwd)
        .env_clear()
        .uid(UID)
        .gid(UID)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .unwrap_or_else(|e| {
            eprintln!("check error: cannot run the tool as an unprivileged user: {e}");
            std::process::exit(3)
        });
    Run { code: o.status.code(), err: String::from_utf8_lossy(&o.stderr).to_string() }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn p04(ctx: &Ctx) {
    let root = std::env::temp_dir().join(format!("mc-p04-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir(&root).unwrap();
    let _keep = Scratch(root.clone());
    own(&root);
    let tool = root.join("unreal_pak_cli");
    std::fs::copy(verif_dir().join("target/release/unreal_pak_cli"), &tool).expect("tool built");
    std::fs::set_permissions(&tool, std::fs::Permissions::from_mode(0o755)).unwrap();

    // 1. create -> check -> extract over all small trees and all ways of naming the arguments
    let names = ["a.txt", "b/c.uasset", "b/d/e", "é 字.bin", ".hidden", "b/c.uexp"];
    let nn = ctx.pick(4, 6);
    let contents: Vec<Vec<u8>> = vec![vec![], pattern(1, 5), pattern(0, 100), pattern(2, ctx.pick(70000, 140000))];
    let mut trees: Vec<Vec<(usize, usize)>> = vec![];
    all_seqs(contents.len() + 1, nn, |s| {
        trees.push(s.iter().enumerate().filter(|(_, c)| **c > 0).map(|(i, c)| (i, c - 1)).collect());
        true
    });
    if ctx.thorough() {
        trees.retain(|t| t.len() <= 4);
    }
    // indir spelling, pak argument, extract argument
    let variants: Vec<(usize, usize, usize, bool)> = (0..5).flat_map(|i| (0..3).flat_map(move |p| (0..2).flat_map(move |e| [(i, p, e, false), (i, p, e, true)]))).collect();
    let full: usize = 40;
    let mut cases: Vec<(usize, usize)> = vec![];
    for t in 0..trees.len() {
        if t % full == 7 {
            (0..variants.len()).for_each(|v| cases.push((t, v)));
        } else {
            cases.push((t, t % variants.len()));
        }
    }
    par_for(cases.len(), |ci| {
        if ctx.stopped() {
            return;
        }
        let (t, v) = cases[ci];
        let (iv, pv, ev, nocomp) = variants[v];
        let dir = root.join(format!("c{ci}"));
        mkdir(&dir);
        let keep = Scratch(dir.clone());
        let src = dir.join("my in.d");
        mkdir(&src);
        let mut exp = BTreeMap::new();
        for (n, c) in &trees[t] {
            put(&src.join(names[*n]), &contents[*c]);
            exp.insert(names[*n].to_string(), contents[*c].clone());
        }
        mkdir(&dir.join("sub"));
        let abs = src.to_string_lossy().to_string();
        let indir = match iv {
            0 => abs.clone(),
            1 => "my in.d".into(),
            2 => "./my in.d/".into(),
            3 => "sub/../my in.d".into(),
            _ => format!("{abs}/"),
        };
        let pak: Option<String> = match pv {
            0 => None,
            1 => Some("sub/o.pak".into()),
            _ => Some(dir.join("x.y.pak").to_string_lossy().into()),
        };
        let pakfile = match pv {
            0 => dir.join("my in.d.pak"),
            1 => dir.join("sub/o.pak"),
            _ => dir.join("x.y.pak"),
        };
        if v % 2 == 1 {
            // an older, longer archive in the same place
            put(&pakfile, &pattern(2, 5000));
        }
        let key = format!("tree:{:?}:{:?}", trees[t], variants[v]);
        let fail = |m: String| ctx.violation(&key, format!("files {:?}\nindir {indir:?} pak {pak:?} no_compression {nocomp}\n{m}", exp.keys()));
        let mut args = vec!["create", &indir];
        if let Some(p) = &pak {
            args.push(p);
        }
        if nocomp {
            args.push("--no-compression");
        }
        let r = run(&tool, &dir, &args);
        ctx.step(1);
        ctx.state();
        if r.code != Some(0) {
            return fail(format!("create exited with {:?}: {}", r.code, r.err));
        }
        if files(&snapshot(&src)) != exp {
            return fail("create changed the input folder".into());
        }
        let bytes = std::fs::read(&pakfile).unwrap_or_default();
        match decode(V::V8b, &bytes, 32) {
            Ok((_, d, n)) => {
                if d != exp {
                    return fail(format!("archive holds {:?}", d.keys()));
                }
                let want = if nocomp { 0 } else { exp.values().filter(|d| d.len() >= 32).count() };
                if n != want {
                    return fail(format!("{n} compressed entries, {want} expected"));
                }
            }
            Err(e) => return fail(format!("reference decoder: {e}")),
        }
        let pk = pakfile.to_string_lossy().to_string();
        for sub in ["check", "check-header"] {
            let r = run(&tool, &dir, &[sub, &pk]);
            ctx.step(1);
            if r.code != Some(0) {
                return fail(format!("{sub} rejects the created archive: {:?} {}", r.code, r.err));
            }
        }
        let out = if ev == 0 { dir.join("out/deep") } else { pakfile.with_extension("") };
        let mut args = vec!["extract", &pk];
        if ev == 0 {
            args.push("out/deep");
        }
        // extracting into the input folder itself would be the identity; use a clean or partially filled folder
        let same = out == src;
        if v % 3 == 1 && !same {
            put(&out.join("a.txt"), &pattern(1, 9000));
        }
        let r = run(&tool, &dir, &args);
        ctx.step(1);
        ctx.trace();
        if r.code != Some(0) {
            return fail(format!("extract exited with {:?}: {}", r.code, r.err));
        }
        let mut got = files(&snapshot(&out));
        if pv == 1 && ev == 1 {
            // default output folder sub/o; nothing else inside
        }
        if v % 3 == 1 && !exp.contains_key("a.txt") {
            got.remove("a.txt");
        }
        if got != exp {
            return fail(format!("extracted {:?}", got.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>()));
        }
        drop(keep);
    });
    ctx.outcome_n("trees packed and unpacked", cases.len() as u64);

    // 2. hostile entry names, all archives of one or two entries
    let deep = "w/x/y/out";
    let hostile = |base: &str| -> Vec<String> {
        vec![
            "ok".into(),
            "d/ok".into(),
            "../e".into(),
            "../../e".into(),
            "../../../e".into(),
            "a/../../e".into(),
            "a/../e".into(),
            "./e".into(),
            "..".into(),
            ".".into(),
            "".into(),
            "d/".into(),
            "d//e".into(),
            format!("{base}/abs"),
            format!("/{base}/abs2"),
            "../out2/e".into(),
            "../outside/e".into(),
            "..\\e".into(),
            "...".into(),
            "a/./../../e".into(),
        ]
    };
    let nh = hostile("").len();
    let mut hc: Vec<(V, usize, Option<usize>, bool)> = vec![];
    let vers: Vec<V> = ctx.pick(vec![V::V8b, V::V11], ALL.to_vec());
    for v in vers {
        for i in 0..nh {
            for dflt in [false, true] {
                hc.push((v, i, None, dflt));
            }
            for j in 0..nh {
                if i != j {
                    hc.push((v, i, Some(j), false));
                }
            }
        }
    }
    par_for(hc.len(), |ci| {
        if ctx.stopped() {
            return;
        }
        let (v, i, j, dflt) = hc[ci];
        let dir = root.join(format!("h{ci}"));
        mkdir(&dir.join("w/x/y"));
        let keep = Scratch(dir.clone());
        let base = dir.join("w/x/z").to_string_lossy().to_string();
        mkdir(Path::new(&base));
        put(&dir.join("w/x/y/e"), b"original");
        put(&dir.join("w/x/y/outside/e"), b"original");
        let hs = hostile(&base);
        let mut ents = vec![Ent { name: hs[i].clone(), data: pattern(1, 40), compress: false }];
        if let Some(j) = j {
            ents.push(Ent { name: hs[j].clone(), data: pattern(2, 50), compress: false });
        }
        let b = encode(v, "../../../", &ents, 64, 0);
        let pak = dir.join("w/x/y/out.pak");
        put(&pak, &b.bytes);
        let out = dir.join(deep);
        let before = snapshot(&dir);
        let mut args = vec!["extract".to_string(), "w/x/y/out.pak".to_string()];
        if !dflt {
            args.push(deep.to_string());
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = run(&tool, &dir, &a);
        ctx.state();
        ctx.trace();
        ctx.step(1);
        let key = format!("hostile:{v:?}:{i}:{j:?}:{dflt}");
        let fail = |m: String| ctx.violation(&key, format!("entries {:?}\n{m}", ents.iter().map(|e| &e.name).collect::<Vec<_>>()));
        let mut after = snapshot(&dir);
        let inside = snapshot(&out);
        after.retain(|k, _| k != deep && !k.starts_with("w/x/y/out/"));
        if after != before {
            return fail("files outside of the output folder were created or changed".into());
        }
        match r.code {
            Some(0) => {
                ctx.outcome("hostile-extracted");
                // success means that every entry was delivered
                for e in &ents {
                    let norm = clean(&e.name);
                    if files(&inside).get(norm.to_string_lossy().as_ref()) != Some(&e.data) {
                        // two entries with the same target: the later one wins
                        let dup = ents.iter().filter(|o| clean(&o.name) == norm).count() > 1;
                        if !dup {
                            return fail(format!("exit code 0 but {:?} was not extracted", e.name));
                        }
                    }
                }
            }
            Some(1) => ctx.outcome("hostile-refused"),
            c => return fail(format!("the tool crashed: {c:?} {}", r.err)),
        }
        // harmless names are never refused
        let normal = |s: &str| !s.is_empty() && !s.ends_with('/') && s != "." && Path::new(s).components().all(|c| matches!(c, std::path::Component::Normal(_) | std::path::Component::CurDir));
        if ents.iter().all(|e| normal(&e.name)) && r.code != Some(0) {
            let n: Vec<PathBuf> = ents.iter().map(|e| clean(&e.name)).collect();
            let clash = n.len() == 2 && (n[0].starts_with(&n[1]) || n[1].starts_with(&n[0]));
            if !clash {
                return fail(format!("refused: {}", r.err));
            }
        }
        drop(keep);
    });
    ctx.outcome_n("hostile archives", hc.len() as u64);

    // 3. every truncation of small archives: a clean verdict that agrees with the content
    let mut tc = vec![];
    for v in [V::V3, V::V8b, V::V11] {
        let ents = vec![Ent { name: "a".into(), data: pattern(1, 40), compress: true }, Ent { name: "b/c".into(), data: pattern(2, 20), compress: false }];
        let b = encode(v, "../../../", &ents, 16, 0);
        for k in (0..b.bytes.len()).step_by(ctx.pick(3, 1)) {
            tc.push((v, b.bytes[..k].to_vec(), k));
        }
        let (_, s, e) = b.ranges[0].clone();
        for k in s..e {
            let mut x = b.bytes.clone();
            x[k] ^= 0x41;
            tc.push((v, x, 10_000 + k));
        }
    }
    par_for(tc.len(), |ci| {
        if ctx.stopped() {
            return;
        }
        let (v, b, k) = &tc[ci];
        let dir = root.join(format!("t{ci}"));
        mkdir(&dir);
        let keep = Scratch(dir.clone());
        put(&dir.join("p.pak"), b);
        // what the library can read decides what the tool must say
        let lib = guard(|| {
            let mut r = unreal_pak::PakReader::new(std::io::Cursor::new(b.clone()));
            r.load_index().ok()?;
            Some(r.iter().map(|(n, d)| (n.clone(), d.ok())).collect::<Vec<_>>())
        });
        let Ok(lib) = lib else { return };
        let good = lib.as_ref().is_some_and(|l| l.iter().all(|x| x.1.is_some()));
        ctx.state();
        ctx.trace();
        for (cmd, ok) in [("check-header", lib.is_some()), ("check", good), ("extract", good)] {
            let r = run(&tool, &dir, &[cmd, "p.pak"]);
            ctx.step(1);
            let want = if ok { 0 } else { 1 };
            if r.code != Some(want) {
                return ctx.violation(&format!("damaged:{v:?}:{k}:{cmd}"), format!("damaged archive: {cmd} exited with {:?}, expected {want}: {}", r.code, r.err));
            }
        }
        if good {
            let exp: BTreeMap<String, Vec<u8>> = lib.unwrap().into_iter().map(|(n, d)| (n, d.unwrap())).collect();
            if files(&snapshot(&dir.join("p"))) != exp {
                return ctx.violation(&format!("damaged:{v:?}:{k}:content"), "extracted content differs".into());
            }
        }
        drop(keep);
    });
    ctx.outcome_n("damaged archives", tc.len() as u64);
    failures(ctx, &root, &tool);
    ctx.bound(format!("{} create/check/extract runs over all trees of up to {nn} files x 4 contents, 60 argument spellings on every {full}th tree (one each otherwise); {} archives with 1 or 2 of {nh} hostile names; {} damaged archives; every size at which the disk fills up while packing and unpacking 3 trees; all combinations of one failing or unusual circumstance", cases.len(), hc.len(), tc.len()));
    ctx.assume("the tool runs as uid 65534 inside a scratch folder; backslashes in file names and symbolic links in the packed folder are not explored");
    ctx.sample(|| format!("tree {:?} with {:?}", trees[5], variants[5]));
}

/// 4. packing and unpacking that cannot succeed completely says so; an archive inside the packed folder is not packed.
fn failures(ctx: &Ctx, root: &Path, tool: &Path) {
    let trees: Vec<Vec<(&str, Vec<u8>)>> = vec![
        vec![("a", pattern(1, 3))],
        vec![("a", pattern(1, 40)), ("b/c", pattern(2, 90))],
        vec![("a", vec![]), ("b", pattern(2, 20)), ("c/d/e", pattern(0, 3000))],
    ];
    // a full disk at every size
    let mut full = vec![];
    for t in 0..trees.len() {
        for nocomp in [false, true] {
            let dir = root.join(format!("f{t}{nocomp}"));
            trees[t].iter().for_each(|(n, d)| put(&dir.join("in").join(n), d));
            let keep = Scratch(dir.clone());
            let mut args = vec!["create", "in", "o.pak"];
            if nocomp {
                args.push("--no-compression");
            }
            let r = run(tool, &dir, &args);
            if r.code != Some(0) {
                return ctx.violation(&format!("full:{t}:{nocomp}:create"), format!("create exited with {:?}: {}", r.code, r.err));
            }
            let bytes = std::fs::read(dir.join("o.pak")).unwrap_or_default();
            let step = if bytes.len() > 1000 { ctx.pick(7, 1) } else { 1 };
            let mut at: Vec<usize> = (0..bytes.len()).step_by(step).collect();
            at.extend(bytes.len() - 3..=bytes.len());
            at.iter().for_each(|k| full.push((t, nocomp, *k, bytes.clone())));
            drop(keep);
        }
    }
    par_for(full.len(), |ci| {
        if ctx.stopped() {
            return;
        }
        let (t, nocomp, k, bytes) = &full[ci];
        let dir = root.join(format!("g{ci}"));
        mkdir(&dir);
        let keep = Scratch(dir.clone());
        trees[*t].iter().for_each(|(n, d)| put(&dir.join("in").join(n), d));
        let mut args: Vec<&OsStr> = ["create", "in", "o.pak"].iter().map(OsStr::new).collect();
        if *nocomp {
            args.push(OsStr::new("--no-compression"));
        }
        let r = run_limited(tool, &dir, &args, Some(*k as u64));
        ctx.step(1);
        ctx.state();
        let want = if *k >= bytes.len() { 0 } else { 1 };
        if r.code != Some(want) {
            return ctx.violation(&format!("full:{t}:{nocomp}:create:{k}"), format!("packing {:?} into a disk that is full after {k} of {} bytes exited with {:?}, expected {want}: {}", trees[*t].iter().map(|e| e.0).collect::<Vec<_>>(), bytes.len(), r.code, r.err));
        }
        put(&dir.join("o.pak"), bytes);
        let args: Vec<&OsStr> = ["extract", "o.pak", "out"].iter().map(OsStr::new).collect();
        let r = run_limited(tool, &dir, &args, Some(*k as u64));
        ctx.step(1);
        ctx.trace();
        let fits = trees[*t].iter().all(|e| e.1.len() <= *k);
        if r.code != Some(if fits { 0 } else { 1 }) {
            return ctx.violation(&format!("full:{t}:{nocomp}:extract:{k}"), format!("unpacking {:?} into a disk that takes files of {k} bytes exited with {:?}: {}", trees[*t].iter().map(|e| (e.0, e.1.len())).collect::<Vec<_>>(), r.code, r.err));
        }
        drop(keep);
    });
    ctx.outcome_n("full disks", full.len() as u64);

    // circumstances: what is prepared, the arguments, the expected status, files the archive or the output folder must hold
    type Case = (&'static str, fn(&Path), Vec<&'static [u8]>, i32, Option<(&'static str, &'static [(&'static str, &'static [u8])])>);
    fn chmod(p: PathBuf, m: u32) {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
    }
    fn basic(d: &Path) {
        put(&d.join("in/a"), b"one");
        put(&d.join("in/s/b"), b"two");
    }
    const BOTH: &[(&str, &[u8])] = &[("a", b"one"), ("s/b", b"two")];
    let cases: Vec<Case> = vec![
        ("plain", basic, vec![b"create", b"in", b"o.pak"], 0, Some(("o.pak", BOTH))),
        ("missing input", |_| {}, vec![b"create", b"in", b"o.pak"], 1, None),
        ("missing input, default archive", |_| {}, vec![b"create", b"in"], 1, None),
        ("input is a file", |d| put(&d.join("in"), b"x"), vec![b"create", b"in", b"o.pak"], 1, None),
        ("unreadable file", |d| (basic(d), chmod(d.join("in/s/b"), 0)).1, vec![b"create", b"in", b"o.pak"], 1, None),
        ("unreadable folder", |d| (basic(d), chmod(d.join("in/s"), 0)).1, vec![b"create", b"in", b"o.pak"], 1, None),
        ("unreadable input", |d| (basic(d), chmod(d.join("in"), 0)).1, vec![b"create", b"in", b"o.pak"], 1, None),
        ("missing target folder", basic, vec![b"create", b"in", b"no/o.pak"], 1, None),
        ("target is a folder", |d| (basic(d), mkdir(&d.join("o.pak"))).1, vec![b"create", b"in", b"o.pak"], 1, None),
        ("default target is a folder", |d| (basic(d), mkdir(&d.join("in.pak"))).1, vec![b"create", b"in"], 1, None),
        ("target folder read only", |d| (basic(d), mkdir(&d.join("r")), chmod(d.join("r"), 0o555)).2, vec![b"create", b"in", b"r/o.pak"], 1, None),
        ("target file read only", |d| (basic(d), put(&d.join("o.pak"), b"old"), chmod(d.join("o.pak"), 0o444)).2, vec![b"create", b"in", b"o.pak"], 1, None),
        ("target in the input", basic, vec![b"create", b"in", b"in/o.pak"], 0, Some(("in/o.pak", BOTH))),
        ("old target in the input", |d| (basic(d), put(&d.join("in/o.pak"), &pattern(2, 9000))).1, vec![b"create", b"in", b"in/o.pak"], 0, Some(("in/o.pak", BOTH))),
        ("target deep in the input", basic, vec![b"create", b"./in/", b"in/s/../s/o.pak"], 0, Some(("in/s/o.pak", BOTH))),
        ("other archives in the input", |d| (basic(d), put(&d.join("in/x.pak"), b"other")).1, vec![b"create", b"in", b"o.pak"], 0, Some(("o.pak", &[("a", b"one"), ("s/b", b"two"), ("x.pak", b"other")]))),
        ("same name as the target elsewhere", |d| (basic(d), put(&d.join("in/s/o.pak"), b"other")).1, vec![b"create", b"in", b"in/o.pak"], 0, Some(("in/o.pak", &[("a", b"one"), ("s/b", b"two"), ("s/o.pak", b"other")]))),
        ("empty input", |d| mkdir(&d.join("in")), vec![b"create", b"in", b"o.pak"], 0, Some(("o.pak", &[]))),
        ("name that is no text", |d| (basic(d), put(&d.join("in").join(OsStr::from_bytes(b"x\xff")), b"y")).1, vec![b"create", b"in", b"o.pak"], 1, None),
        ("missing archive", |_| {}, vec![b"extract", b"o.pak", b"out"], 1, None),
        ("missing archive, check", |_| {}, vec![b"check", b"o.pak"], 1, None),
        ("archive is a folder", |d| mkdir(&d.join("o.pak")), vec![b"extract", b"o.pak", b"out"], 1, None),
        ("archive is the folder above", |_| {}, vec![b"extract", b".."], 1, None),
        ("output is a file", |d| (put(&d.join("o.pak"), &sample()), put(&d.join("out"), b"x")).1, vec![b"extract", b"o.pak", b"out"], 1, Some(("out", &[]))),
        ("output read only", |d| (put(&d.join("o.pak"), &sample()), mkdir(&d.join("out")), chmod(d.join("out"), 0o555)).2, vec![b"extract", b"o.pak", b"out"], 1, None),
        ("file where a folder is needed", |d| (put(&d.join("o.pak"), &sample()), put(&d.join("out/s"), b"x")).1, vec![b"extract", b"o.pak", b"out"], 1, None),
        ("folder where a file is needed", |d| (put(&d.join("o.pak"), &sample()), mkdir(&d.join("out/a"))).1, vec![b"extract", b"o.pak", b"out"], 1, None),
        ("no write permission on an old file", |d| (put(&d.join("o.pak"), &sample()), put(&d.join("out/a"), b"old"), chmod(d.join("out/a"), 0o444)).2, vec![b"extract", b"o.pak", b"out"], 1, None),
        ("unreadable archive", |d| (put(&d.join("o.pak"), &sample()), chmod(d.join("o.pak"), 0)).1, vec![b"extract", b"o.pak", b"out"], 1, None),
        ("plain extraction", |d| put(&d.join("o.pak"), &sample()), vec![b"extract", b"o.pak", b"out"], 0, Some(("out", BOTH))),
        ("archive without extension", |d| put(&d.join("arch"), &sample()), vec![b"extract", b"arch", b"out/"], 0, Some(("out", BOTH))),
    ];
    fn sample() -> Vec<u8> {
        encode(V::V8b, "../../../", &[Ent { name: "a".into(), data: b"one".to_vec(), compress: false }, Ent { name: "s/b".into(), data: b"two".to_vec(), compress: false }], 16, 0).bytes
    }
    par_for(cases.len(), |ci| {
        let (name, prepare, args, want, content) = &cases[ci];
        let dir = root.join(format!("h{ci}"));
        mkdir(&dir);
        let keep = Scratch(dir.clone());
        prepare(&dir);
        let args: Vec<&OsStr> = args.iter().map(|a| OsStr::from_bytes(a)).collect();
        let r = run_limited(tool, &dir, &args, None);
        ctx.step(1);
        ctx.state();
        ctx.trace();
        let fail = |m: String| ctx.violation(&format!("circumstance:{name}"), format!("{name}: {args:?} {m}"));
        if r.code != Some(*want) {
            return fail(format!("exited with {:?}, expected {want}: {}", r.code, r.err));
        }
        if let Some((at, files_)) = content {
            let want: BTreeMap<String, Vec<u8>> = files_.iter().map(|(n, d)| (n.to_string(), d.to_vec())).collect();
            let got = if at.ends_with("pak") {
                match decode(V::V8b, &std::fs::read(dir.join(at)).unwrap_or_default(), 32) {
                    Ok((_, d, _)) => d,
                    Err(e) => return fail(format!("left an unreadable archive: {e}")),
                }
            } else {
                files(&snapshot(&dir.join(at)))
            };
            if got != want {
                return fail(format!("gave {:?} instead of {:?}", got.keys(), want.keys()));
            }
        }
        drop(keep);
    });
    ctx.outcome_n("circumstances", cases.len() as u64);
}
