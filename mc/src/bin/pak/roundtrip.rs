//! P01: whatever is put into an archive comes out unchanged, for every version and layout.
use crate::refpak::*;
use mc::core::*;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use unreal_pak::{PakMemory, PakReader, PakWriter};

/// A file that transfers at most `max` bytes per call.
pub struct Trickle<'a> {
    pub c: &'a mut Cursor<Vec<u8>>,
    pub max: usize,
}
impl Read for Trickle<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max);
        self.c.read(&mut b[..n])
    }
}
impl Write for Trickle<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max);
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Trickle<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

pub fn pattern(kind: usize, len: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; len],
        1 => (0..len).map(|i| i as u8).collect(),
        _ => {
            // incompressible
            let mut x = 0x9E3779B97F4A7C15u64 ^ len as u64;
            (0..len)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                })
                .collect()
        }
    }
}

/// Read the archive through both readers and compare with the expected content.
pub fn check_read(bytes: &[u8], mount: &str, exp: &BTreeMap<String, Vec<u8>>, max: usize) -> Result<(), String> {
    let (mut a, mut b) = (Cursor::new(bytes.to_vec()), Cursor::new(bytes.to_vec()));
    check_streams(Trickle { c: &mut a, max }, &mut b, mount, exp)
}
pub fn check_streams<A: Read + Seek, B: Read + Seek>(a: A, b: &mut B, mount: &str, exp: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    macro_rules! req { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } }; }
    let mut r = PakReader::new(a);
    r.load_index().map_err(|e| format!("load_index: {e}"))?;
    req!(r.mount_point == mount, "mount point {:?}", r.mount_point);
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    let en: Vec<String> = exp.keys().cloned().collect();
    req!(names == en, "names {names:?} expected {en:?}");
    for (n, d) in exp.iter().rev() {
        req!(r.contains_entry(n), "contains {n:?}");
        let got = r.read_entry(n).map_err(|e| format!("read_entry {n:?}: {e}"))?;
        req!(&got == d, "entry {n:?}: {} bytes {} expected {} bytes {}", got.len(), hex(&got), d.len(), hex(d));
    }
    req!(!r.contains_entry(&"no such".to_string()) && r.read_entry(&"no such".to_string()).is_err(), "missing entry found");
    for pass in 0..2 {
        let all: Vec<(String, Option<Vec<u8>>)> = if pass == 0 { r.iter().map(|(n, d)| (n.clone(), d.ok())).collect() } else { (&mut r).into_iter().map(|(n, d)| (n.clone(), d.ok())).collect() };
        let ea: Vec<(String, Option<Vec<u8>>)> = exp.iter().map(|(n, d)| (n.clone(), Some(d.clone()))).collect();
        req!(all == ea, "iteration differs");
    }
    let m = PakMemory::load_from(b).map_err(|e| format!("PakMemory: {e}"))?;
    req!(m.mount_point == mount, "memory mount point");
    let all: Vec<(&String, &Vec<u8>)> = m.iter().collect();
    let ea: Vec<(&String, &Vec<u8>)> = exp.iter().collect();
    req!(all == ea, "memory content differs");
    Ok(())
}

#[derive(Clone, Debug)]
struct Case {
    v: V,
    how: usize, // 0 writer no compression, 1 writer compression, 2 mixed, 3 memory
    bs: u32,
    mount: &'static str,
    ents: Vec<(&'static str, usize, usize)>, // name, pattern, len
    max: usize,
}

fn one(c: &Case, ctx: &Ctx) -> Result<(), String> {
    let mut exp: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut out = Cursor::new(vec![]);
    let mut wants_compress = 0;
    if c.how < 3 {
        let mut w = PakWriter::new(Trickle { c: &mut out, max: c.max }, c.v.api());
        w.block_size = c.bs;
        w.mount_point = c.mount.to_string();
        for (i, (n, k, l)) in c.ents.iter().enumerate() {
            let d = pattern(*k, *l);
            let comp = c.how == 1 || (c.how == 2 && i % 2 == 0);
            let r = w.write_entry(&n.to_string(), &d, comp);
            ctx.step(1);
            let must_fail = comp && d.len() >= 32 && !c.v.compresses();
            match r {
                Ok(()) if must_fail => return Err("compression accepted for a version without compression".into()),
                Err(_) if must_fail => {
                    continue;
                }
                Err(e) => return Err(format!("write_entry {n:?}: {e}")),
                Ok(()) => {}
            }
            if comp && d.len() >= 32 {
                wants_compress += 1;
            }
            exp.insert(n.to_string(), d);
        }
        let names: Vec<String> = w.get_entry_names().into_iter().cloned().collect();
        if names != exp.keys().cloned().collect::<Vec<_>>() {
            return Err(format!("writer lists {names:?}"));
        }
        w.finish_write().map_err(|e| format!("finish_write: {e}"))?;
    } else {
        let mut m = PakMemory::new(c.v.api());
        m.block_size = c.bs;
        m.mount_point = c.mount.to_string();
        for (n, k, l) in &c.ents {
            m.set_entry(n.to_string(), pattern(*k, *l));
            exp.insert(n.to_string(), pattern(*k, *l));
        }
        m.write(&mut Trickle { c: &mut out, max: c.max }).map_err(|e| format!("write: {e}"))?;
    }
    ctx.step(1);
    let bytes = out.into_inner();
    let (mount, dec, ncomp) = decode(c.v, &bytes, 32).map_err(|e| format!("reference decoder: {e}\n{}", hex(&bytes)))?;
    if mount != c.mount || dec != exp {
        return Err("reference decoder finds different content".into());
    }
    if c.how < 3 && ncomp != wants_compress {
        return Err(format!("{ncomp} entries compressed, {wants_compress} requested"));
    }
    check_read(&bytes, c.mount, &exp, c.max).map_err(|e| format!("{e}\n{}", hex(&bytes)))
}

pub fn p01(ctx: &Ctx) {
    let names = ["a", "b/c.txt", "é/字.uasset", "B", "x y/z", ""];
    let lens: Vec<usize> = ctx.pick(vec![0, 1, 31, 32, 33, 100], vec![0, 1, 7, 31, 32, 33, 63, 64, 65, 100, 199]);
    let bss: Vec<u32> = ctx.pick(vec![1, 16, 32, 0x10000], vec![1, 7, 16, 31, 32, 33, 64, 100, 0x10000]);
    let nn = ctx.pick(4, 6);
    let mut cases: Vec<Case> = vec![];
    for v in WRITABLE {
        for how in 0..4 {
            for &bs in &bss {
                if (how == 0 || how == 3) && bs != bss[0] {
                    continue;
                }
                let mut data = vec![];
                for k in 0..3 {
                    for &l in &lens {
                        if k > 0 && l == 0 {
                            continue;
                        }
                        data.push((k, l));
                    }
                }
                let base = |ents: Vec<(&'static str, usize, usize)>| Case { v, how, bs, mount: "../../../", ents, max: usize::MAX };
                cases.push(base(vec![]));
                for n in &names[..nn] {
                    for &(k, l) in &data {
                        cases.push(base(vec![(n, k, l)]));
                    }
                }
                for i in 0..nn {
                    for j in 0..nn {
                        if i == j {
                            continue;
                        }
                        for &(k, l) in &data {
                            for &(k2, l2) in &data {
                                if !ctx.thorough() && (i > 1 || j > 2) && (k, l) != (k2, l2) {
                                    continue;
                                }
                                cases.push(base(vec![(names[i], k, l), (names[j], k2, l2)]));
                            }
                        }
                    }
                }
                // three entries in every order, boundary lengths
                let d3 = [(1usize, 0usize), (1, 33), (2, 64)];
                let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
                for p in perm {
                    for q in perm {
                        for max in [1, 3, usize::MAX] {
                            let mut c = base((0..3).map(|i| (names[p[i]], d3[q[i]].0, d3[q[i]].1)).collect());
                            c.max = max;
                            cases.push(c);
                        }
                    }
                }
                for mount in ["", "é", "/Game/", "../../../"] {
                    let mut c = base(vec![("a", 1, 40), ("b", 2, 5)]);
                    c.mount = mount;
                    cases.push(c);
                }
            }
            // the default block size and its neighbourhood
            for l in [0xFFFFusize, 0x10000, 0x10001, 0x20000, 0x20001] {
                for k in 0..3 {
                    cases.push(Case { v, how, bs: 0x10000, mount: "../../../", ents: vec![("big", k, l), ("z", 1, 40)], max: usize::MAX });
                }
            }
            // many entries
            let mut c = Case { v, how, bs: 16, mount: "m", ents: vec![], max: usize::MAX };
            for (i, n) in ["00", "01", "02", "03", "04", "05", "06", "07", "08", "09", "0a", "0b"].iter().enumerate() {
                c.ents.push((n, i % 3, i * 7));
            }
            cases.push(c);
        }
    }
    // written archives of the current readers-only versions come from the reference encoder
    ctx.bound(format!("{} archives: 10 writable versions x 4 ways of writing x {} block sizes x all ordered sets of up to 2 entries over {nn} names and {} contents (plus all orders of 3, boundary sizes around the default block, 12-entry archives, 4 mount points, transfers of 1/3/unlimited bytes per call); 12 versions from the reference encoder for the readers, and names, mount points and contents full of the archive magic in every alignment", cases.len(), bss.len(), 3 * lens.len() - 2));
    let n = cases.len();
    let chunk = 64;
    par_for(n.div_ceil(chunk), |b| {
        for c in &cases[b * chunk..((b + 1) * chunk).min(n)] {
            if ctx.stopped() {
                return;
            }
            ctx.state();
            ctx.trace();
            match guard(|| one(c, ctx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => ctx.violation(&format!("pak:{c:?}"), format!("{c:?}\n{m}")),
            }
        }
    });
    ctx.sample(|| format!("{:?}", cases[n / 2]));
    ctx.outcome_n("written archives", n as u64);
    // readers against the reference encoder, including read-only versions
    let mut rc = vec![];
    for v in ALL {
        for comp in 0..4usize {
            for bs in [1usize, 16, 33, 2048, 0x10000] {
                for slot in 0..(if v >= V::V8b { 5 } else if v >= V::V8a { 4 } else { 1 }) {
                    for max in [1usize, usize::MAX] {
                        for (a, b) in [("a", "b/c"), ("é/1", "é/字"), ("d/e/f", "d/e/g"), ("x", "y")] {
                            for la in [0usize, 1, 40, 70] {
                                rc.push((v, comp, bs, slot, max, a, b, la));
                            }
                        }
                    }
                }
            }
        }
    }
    // every block size an encoded entry can name, and every order of magnitude it has to spell out
    for v in ALL {
        for bs in (1..=0x40usize).map(|k| k << 11).chain([2047, 2049, 0x1f7ff, 0x1f801, 0x20000, 0x100000, 0x7fffffff]) {
            for slot in 0..(if v >= V::V8b { 5 } else if v >= V::V8a { 4 } else { 1 }) {
                for la in [1usize, 40] {
                    rc.push((v, 1 + 2 * (la & 1), bs, slot, usize::MAX, "a", "b/c", la));
                }
            }
        }
    }
    let m = rc.len();
    par_for(m.div_ceil(chunk), |i| {
        for (v, comp, bs, slot, max, a, b, la) in &rc[i * chunk..((i + 1) * chunk).min(m)] {
            if ctx.stopped() {
                return;
            }
            ctx.state();
            ctx.trace();
            let mut ents = vec![Ent { name: a.to_string(), data: pattern(2, *la), compress: comp & 1 != 0 }, Ent { name: b.to_string(), data: pattern(1, 50), compress: comp & 2 != 0 }];
            if *la == 1 {
                ents.push(Ent { name: "third".into(), data: pattern(0, 5000), compress: true });
            }
            let built = encode(*v, "../../../", &ents, *bs, *slot);
            let exp = ents.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
            match guard(|| check_read(&built.bytes, "../../../", &exp, *max)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => ctx.violation(&format!("refpak:{v:?}:{comp}:{bs}:{slot}:{max}:{a}:{la}"), format!("{e}\narchive {}", hex(&built.bytes))),
            }
        }
    });
    ctx.outcome_n("reference archives", m as u64);
    // content and names that look like the end of an archive of another version
    let looks: Vec<u8> = b"\xe1\x12\x6f\x5a".repeat(120);
    let mut lk = vec![];
    for v in ALL {
        for phase in 0..4usize {
            for len in [40usize, 64, 100, 150, 200, 250, 300, 400] {
                for two in [false, true] {
                    lk.push((v, "../../../".to_string(), [("a".to_string(), looks[phase..phase + len].to_vec())].into_iter().chain(two.then(|| ("b".to_string(), looks[phase..phase + 20].to_vec()))).collect::<BTreeMap<_, _>>()));
                }
            }
            for n in [1usize, 10, 30, 40, 60, 80, 100] {
                let name = "\u{12e1}\u{5a6f}".repeat(n);
                for (nm, mt) in [(name.clone(), "m".repeat(phase)), ("a".to_string(), name.clone() + &"m".repeat(phase)), (format!("{}{name}", "m".repeat(phase)), "m".repeat(phase))] {
                    lk.push((v, mt, [(nm, vec![1, 2, 3])].into()));
                }
            }
        }
    }
    par_for(lk.len(), |i| {
        let (v, mount, exp) = &lk[i];
        let ents: Vec<Ent> = exp.iter().map(|(n, d)| Ent { name: n.clone(), data: d.clone(), compress: false }).collect();
        ctx.state();
        ctx.trace();
        let mut arcs = vec![encode(*v, mount, &ents, 16, 0).bytes];
        if WRITABLE.contains(v) {
            let mut o = Cursor::new(vec![]);
            let mut w = PakWriter::new(&mut o, v.api());
            w.mount_point = mount.clone();
            let r = exp.iter().try_for_each(|(n, d)| w.write_entry(n, d, false)).and_then(|_| w.finish_write());
            if let Err(e) = r {
                ctx.violation(&format!("magic:{i}"), format!("{v:?} {exp:?}: {e}"));
            }
            arcs.push(o.into_inner());
        }
        for a in arcs {
            if let Ok(Err(e)) | Err(e) = guard(|| check_read(&a, mount, exp, usize::MAX)) {
                ctx.violation(&format!("magic:{v:?}"), format!("content that looks like a footer: {e}\n{}", hex(&a)));
            }
        }
    });
    ctx.outcome_n("misleading archives", lk.len() as u64);
    // archives with parts beyond 2 and 4 GiB
    let holes = [0x7fff_0000u64, 0x8000_0000, 0xffff_ff00, 0x1_0000_0000, 0x1_2345_6789, 0x123_4567_89ab];
    let sparse = |b: &[u8], split: usize, hole: u64| Sparse { bytes: b.to_vec(), split: split as u64, hole, pos: 0 };
    let fixed = |n: usize| -> Vec<Ent> { [("a", 2, 40, true), ("b/c", 1, 50, false), ("b/d", 0, 5000, true)][..n].iter().map(|(n, k, l, c)| Ent { name: n.to_string(), data: pattern(*k, *l), compress: *c }).collect() };
    let nv = ALL.len();
    par_for(nv * holes.len(), |i| {
        let (v, hole) = (ALL[i % nv], holes[i / nv]);
        for n in 0..=3usize {
            let ents = fixed(n);
            let exp: BTreeMap<String, Vec<u8>> = ents.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
            for before in 0..=n {
                for bs in [16usize, 0x10000] {
                    ctx.state();
                    ctx.trace();
                    let x = encode_with_hole(v, "../../../", &ents, bs, 0, before, hole);
                    match guard(|| check_streams(sparse(&x.bytes, x.split, hole), &mut sparse(&x.bytes, x.split, hole), "../../../", &exp)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) | Err(e) => ctx.violation(&format!("large:{v:?}:{hole:x}:{n}:{before}:{bs}"), format!("{n} entries, {hole:#x} unused bytes before entry {before}: {e}")),
                    }
                }
            }
            if WRITABLE.contains(&v) {
                for memory in [false, true] {
                    ctx.state();
                    ctx.trace();
                    let mut o = Sparse { bytes: vec![], split: 0, hole, pos: hole };
                    let r = guard(|| -> Result<(), String> {
                        if memory {
                            let mut m = PakMemory::new(v.api());
                            ents.iter().for_each(|e| m.set_entry(e.name.clone(), e.data.clone()));
                            m.write(&mut o).map_err(|e| e.to_string())?;
                        } else {
                            let mut w = PakWriter::new(&mut o, v.api());
                            w.block_size = 16;
                            for e in &ents {
                                w.write_entry(&e.name, &e.data, e.compress && v.compresses()).map_err(|e| e.to_string())?;
                            }
                            w.finish_write().map_err(|e| e.to_string())?;
                        }
                        check_streams(sparse(&o.bytes, 0, hole), &mut sparse(&o.bytes, 0, hole), "../../../", &exp)
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) | Err(e) => ctx.violation(&format!("large write:{v:?}:{hole:x}:{n}:{memory}"), format!("{n} entries written at {hole:#x} (memory: {memory}): {e}")),
                    }
                }
            }
        }
    });
    ctx.outcome("large archives");
    // unsupported configurations are refused
    for v in [V::V10, V::V11] {
        let mut o = Cursor::new(vec![]);
        let r = guard(|| {
            let mut w = PakWriter::new(&mut o, v.api());
            w.write_entry(&"a".to_string(), &vec![1, 2, 3], false).and_then(|_| w.finish_write()).is_err()
        });
        // a version that can be written must also be readable; today it is refused
        if r != Ok(true) {
            let b = o.into_inner();
            let exp: BTreeMap<String, Vec<u8>> = [("a".to_string(), vec![1, 2, 3])].into();
            if let Ok(Err(e)) | Err(e) = guard(|| check_read(&b, "../../../", &exp, usize::MAX)) {
                ctx.violation(&format!("unsupported:{v:?}"), e);
            }
        }
    }
    for v in WRITABLE {
        let mut w = PakWriter::new(Cursor::new(vec![]), v.api());
        w.block_size = 0;
        if let Err(m) = guard(|| w.write_entry(&"a".to_string(), &vec![0; 64], true).is_ok()) {
            ctx.violation(&format!("zero block:{v:?}"), m);
        }
    }
}
