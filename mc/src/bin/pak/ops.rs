//! P03: the editable archive and the incremental writer/reader agree with a simple map after any history.
use crate::refpak::*;
use crate::roundtrip::{check_read, pattern};
use mc::core::*;
use std::collections::BTreeMap;
use std::io::{Cursor, Seek, SeekFrom, Write};
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader, PakWriter};

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, usize),
    LoadA,
    LoadZ,
    LoadBad,
    Version(V),
    Block(u32),
    Mount,
    SaveReload,
    SaveTwice,
}
const NAMES: [&str; 3] = ["a", "dir/b", "é"];
fn data(i: usize) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => pattern(1, 33),
        _ => pattern(0, 100),
    }
}

#[derive(Clone)]
struct Model {
    v: V,
    mount: String,
    zlib: bool,
    m: BTreeMap<String, Vec<u8>>,
}

fn check(p: &PakMemory, m: &Model) -> Result<(), String> {
    macro_rules! req { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } }; }
    req!(p.get_entry_names().into_iter().cloned().collect::<Vec<_>>() == m.m.keys().cloned().collect::<Vec<_>>(), "names {:?}", p.get_entry_names());
    for n in NAMES.iter().chain(["x", "dir/b2"].iter()) {
        let n = n.to_string();
        req!(p.get_entry(&n) == m.m.get(&n), "entry {n}");
        req!(p.contains_entry(&n) == m.m.contains_key(&n), "contains {n}");
    }
    req!(p.iter().eq(m.m.iter()), "iteration");
    req!(p.into_iter().eq(m.m.iter()), "into_iter");
    req!(p.mount_point == m.mount, "mount {:?} expected {:?}", p.mount_point, m.mount);
    req!(p.pak_version == m.v.api(), "version {:?} expected {:?}", p.pak_version, m.v);
    Ok(())
}

fn run(seq: &[Op], arch: &[(V, bool, Vec<u8>, BTreeMap<String, Vec<u8>>)], ctx: &Ctx) -> Result<(), String> {
    let mut p = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    let mut m = Model { v: V::V8b, mount: "../../../".into(), zlib: false, m: BTreeMap::new() };
    for (i, op) in seq.iter().enumerate() {
        ctx.step(1);
        match *op {
            Op::Set(n, d) => {
                p.set_entry(NAMES[n].into(), data(d));
                m.m.insert(NAMES[n].into(), data(d));
            }
            Op::LoadA | Op::LoadZ => {
                let (v, z, b, e) = &arch[if matches!(op, Op::LoadA) { 0 } else { 1 }];
                p.load(&mut Cursor::new(b.clone())).map_err(|e| format!("step {i} load: {e}"))?;
                m.v = *v;
                m.zlib = *z;
                m.mount = "mnt/".into();
                m.m.extend(e.clone());
            }
            Op::LoadBad => {
                if p.load(&mut Cursor::new(vec![0u8; 300])).is_ok() {
                    return Err(format!("step {i}: garbage loaded"));
                }
            }
            Op::Version(v) => {
                p.pak_version = v.api();
                m.v = v;
            }
            Op::Block(b) => p.block_size = b,
            Op::Mount => {
                p.mount_point = "é/x".into();
                m.mount = "é/x".into();
            }
            Op::SaveReload | Op::SaveTwice => {
                let mut o = Cursor::new(vec![]);
                let r = p.write(&mut o);
                let must_fail = m.zlib && !m.v.compresses() && m.m.values().any(|d| d.len() >= 32);
                match r {
                    Err(_) if must_fail => {
                        check(&p, &m).map_err(|e| format!("step {i} {op:?} failed save changed it: {e}"))?;
                        continue;
                    }
                    Err(e) => return Err(format!("step {i} save: {e}")),
                    Ok(()) if must_fail => return Err(format!("step {i}: save with compression into a version without it")),
                    Ok(()) => {}
                }
                let b = o.into_inner();
                let (mount, dec, _) = decode(m.v, &b, 32).map_err(|e| format!("step {i} reference decoder: {e}"))?;
                if mount != m.mount || dec != m.m {
                    return Err(format!("step {i}: saved archive holds other content"));
                }
                check_read(&b, &m.mount, &m.m, usize::MAX).map_err(|e| format!("step {i}: {e}"))?;
                if matches!(op, Op::SaveTwice) {
                    let mut o2 = Cursor::new(vec![]);
                    p.write(&mut o2).map_err(|e| e.to_string())?;
                    if o2.into_inner() != b {
                        return Err(format!("step {i}: saving twice gives different bytes"));
                    }
                } else {
                    p = PakMemory::load_from(&mut Cursor::new(b)).map_err(|e| format!("step {i} reload: {e}"))?;
                    m.zlib = m.zlib && m.v >= V::V8a;
                }
            }
        }
        check(&p, &m).map_err(|e| format!("after step {i} {op:?}: {e}"))?;
    }
    Ok(())
}

// ---- incremental writer histories with failing writes
struct FailAt<'a> {
    c: &'a mut Cursor<Vec<u8>>,
    left: u64,
}
impl Write for FailAt<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full"));
        }
        let n = (b.len() as u64).min(self.left) as usize;
        self.left -= n as u64;
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for FailAt<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

fn writer_history(v: V, seq: &[(usize, usize, bool)], ctx: &Ctx) -> Result<(), String> {
    let mut out = Cursor::new(vec![]);
    let mut exp = BTreeMap::new();
    let mut w = PakWriter::new(&mut out, v.api());
    w.block_size = 32;
    for (n, d, c) in seq {
        ctx.step(1);
        let r = w.write_entry(&NAMES[*n].to_string(), &data(*d), *c);
        let dup = exp.contains_key(NAMES[*n]);
        let nocomp = *c && data(*d).len() >= 32 && !v.compresses();
        match r {
            Ok(()) if dup => return Err("second write of the same name accepted".into()),
            Ok(()) if nocomp => return Err("compression accepted".into()),
            Ok(()) => {
                exp.insert(NAMES[*n].to_string(), data(*d));
            }
            Err(_) if dup || nocomp => {}
            Err(e) => return Err(format!("write_entry: {e}")),
        }
        if w.get_entry_names().into_iter().cloned().collect::<Vec<_>>() != exp.keys().cloned().collect::<Vec<_>>() {
            return Err("writer's entry list differs".into());
        }
    }
    w.finish_write().map_err(|e| format!("finish: {e}"))?;
    let b = out.into_inner();
    let (_, dec, _) = decode(v, &b, 32)?;
    if dec != exp {
        return Err("content differs".into());
    }
    check_read(&b, "../../../", &exp, usize::MAX)
}

// ---- reader histories
fn reader_history(b: &[u8], exp: &BTreeMap<String, Vec<u8>>, seq: &[usize], ctx: &Ctx) -> Result<(), String> {
    let mut r = PakReader::new(Cursor::new(b.to_vec()));
    let mut loaded = false;
    let names: Vec<&String> = exp.keys().collect();
    for op in seq {
        ctx.step(1);
        match *op {
            0 => {
                r.load_index().map_err(|e| e.to_string())?;
                loaded = true;
            }
            1 => {
                let k: Vec<(String, Vec<u8>)> = r.iter().map(|(n, d)| (n.clone(), d.unwrap_or_default())).collect();
                let e: Vec<(String, Vec<u8>)> = if loaded { exp.clone().into_iter().collect() } else { vec![] };
                if k != e {
                    return Err("iteration".into());
                }
            }
            2 => {
                // abandoned iteration
                let _ = r.iter().next();
            }
            k => {
                let n = names[k - 3];
                let g = r.read_entry(n).ok();
                let e = if loaded { Some(exp[n].clone()) } else { None };
                if g != e || r.contains_entry(n) != loaded {
                    return Err(format!("entry {n:?}"));
                }
            }
        }
        let want: Vec<String> = if loaded { exp.keys().cloned().collect() } else { vec![] };
        if r.get_entry_names().into_iter().cloned().collect::<Vec<_>>() != want {
            return Err("names".into());
        }
    }
    if r.into_inner().into_inner() != b {
        return Err("reader changed the archive".into());
    }
    Ok(())
}

pub fn p03(ctx: &Ctx) {
    let mk = |v: V, z: bool| {
        let ents = vec![
            Ent { name: "a".into(), data: pattern(2, 64), compress: z },
            Ent { name: "x".into(), data: pattern(1, 3), compress: false },
            Ent { name: "dir/b2".into(), data: pattern(0, 50), compress: z },
        ];
        let b = encode(v, "mnt/", &ents, 16, 0).bytes;
        (v, z && v >= V::V8a, b, ents.into_iter().map(|e| (e.name, e.data)).collect::<BTreeMap<_, _>>())
    };
    // a v8b/v9 archive always declares zlib in our encoder
    let mut a0 = mk(V::V5, true);
    a0.1 = false;
    let mut a1 = mk(V::V9, true);
    a1.1 = true;
    let arch = vec![a0, a1];
    let ops = [
        Op::Set(0, 1),
        Op::Set(0, 2),
        Op::Set(1, 0),
        Op::Set(2, 2),
        Op::LoadA,
        Op::LoadZ,
        Op::LoadBad,
        Op::Version(V::V2),
        Op::Version(V::V4),
        Op::Version(V::V8a),
        Op::Version(V::V7),
        Op::Block(16),
        Op::Mount,
        Op::SaveReload,
        Op::SaveTwice,
    ];
    let d = ctx.pick(4, 5);
    par_for(ops.len() * ops.len(), |p| {
        let pre = [ops[p / ops.len()], ops[p % ops.len()]];
        all_seqs(ops.len(), d - 2, |s| {
            let mut seq = pre.to_vec();
            seq.extend(s.iter().map(|i| ops[*i]));
            seq.push(Op::SaveReload); // every history ends with a save
            ctx.state();
            ctx.trace();
            match guard(|| run(&seq, &arch, ctx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => ctx.violation(&format!("pakmem:{seq:?}"), format!("history={seq:?}\n{m}")),
            }
            !ctx.stopped()
        });
    });
    ctx.sample(|| format!("{:?}", &ops[..6]));
    // writer
    let mut wops = vec![];
    for n in 0..3 {
        for dd in 0..3 {
            for c in [false, true] {
                if dd == 0 && c {
                    continue;
                }
                wops.push((n, dd, c));
            }
        }
    }
    let wd = ctx.pick(3, 4);
    par_for(WRITABLE.len(), |vi| {
        for l in 0..=wd {
            all_seqs(wops.len(), l, |s| {
                let seq: Vec<_> = s.iter().map(|i| wops[*i]).collect();
                ctx.state();
                ctx.trace();
                match guard(|| writer_history(WRITABLE[vi], &seq, ctx)) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) | Err(m) => ctx.violation(&format!("pakwriter:{:?}:{seq:?}", WRITABLE[vi]), format!("{:?} writes={seq:?}\n{m}", WRITABLE[vi])),
                }
                !ctx.stopped()
            });
        }
    });
    // reader histories
    let rd = ctx.pick(5, 6);
    par_for(ALL.len(), |vi| {
        let (_, _, b, e) = mk(ALL[vi], true);
        all_seqs(6, rd, |s| {
            ctx.state();
            ctx.trace();
            match guard(|| reader_history(&b, &e, s, ctx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => ctx.violation(&format!("pakreader:{:?}:{s:?}", ALL[vi]), format!("{:?} ops={s:?}: {m}", ALL[vi])),
            }
            !ctx.stopped()
        });
    });
    // a write fault at every byte is reported and never leaves an archive with wrong content
    for v in WRITABLE {
        let full = {
            let mut o = Cursor::new(vec![]);
            let mut w = PakWriter::new(&mut o, v.api());
            let _ = w.write_entry(&"a".to_string(), &data(1), v.compresses());
            let _ = w.write_entry(&"dir/b".to_string(), &data(2), false);
            w.finish_write().is_ok().then(|| o.into_inner().len()).unwrap_or(0)
        };
        for k in 0..full as u64 {
            ctx.state();
            ctx.trace();
            let mut o = Cursor::new(vec![]);
            let r = guard(|| {
                let mut w = PakWriter::new(FailAt { c: &mut o, left: k }, v.api());
                let a = w.write_entry(&"a".to_string(), &data(1), v.compresses());
                let b = w.write_entry(&"dir/b".to_string(), &data(2), false);
                a.is_ok() && b.is_ok() && w.finish_write().is_ok()
            });
            if r != Ok(false) {
                ctx.violation(&format!("writefault:{v:?}:{k}"), format!("a write error after {k} of {full} bytes was not reported: {r:?}"));
            }
        }
    }
    ctx.bound(format!("all editable-archive histories of length {d} over {} operations plus a final save/reload; all incremental-writer histories of length 0..={wd} over {} writes x 10 versions; all reader histories of length {rd} over 6 operations x 12 versions; a write error after every byte x 10 versions", ops.len(), wops.len()));
}
