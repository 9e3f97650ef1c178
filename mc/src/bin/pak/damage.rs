//! P02: damaged archives never take the reader down, and damage stays local.
use crate::refpak::*;
use crate::roundtrip::pattern;
use mc::core::*;
use mc::iso::isolated;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_pak::{PakMemory, PakReader};

struct Arch {
    tag: String,
    b: Built,
    exp: BTreeMap<String, Vec<u8>>,
}

fn archives(thorough: bool) -> Vec<Arch> {
    let mut v = vec![];
    for ver in ALL {
        for comp in [false, true] {
            if comp && !ver.compresses() {
                continue;
            }
            let mut ents = vec![
                Ent { name: "a".into(), data: pattern(1, 40), compress: comp },
                Ent { name: "b/é".into(), data: pattern(2, 9), compress: false },
                Ent { name: "c".into(), data: pattern(0, 37), compress: comp },
            ];
            if thorough {
                ents.push(Ent { name: "d/e/f".into(), data: pattern(2, 100), compress: comp });
            }
            let b = encode(ver, "../../../", &ents, 16, 0);
            v.push(Arch { tag: format!("{ver:?}{}", if comp { "z" } else { "" }), b, exp: ents.into_iter().map(|e| (e.name, e.data)).collect() });
        }
        let b = encode(ver, "", &[], 16, 0);
        v.push(Arch { tag: format!("{ver:?}-empty"), b, exp: BTreeMap::new() });
    }
    v
}

/// Archives of longer entries, only cut and interrupted.
fn longer() -> Vec<Arch> {
    let mut v = vec![];
    for ver in ALL {
        for comp in [false, true] {
            if comp && !ver.compresses() {
                continue;
            }
            let ents: Vec<Ent> = [("a", 0u8, 70usize), ("b/c", 2, 300), ("d", 1, 100)].into_iter().map(|(n, p, l)| Ent { name: n.into(), data: pattern(p.into(), l), compress: comp }).collect();
            let b = encode(ver, "../../../", &ents, 128, 0);
            v.push(Arch { tag: format!("{ver:?}-long{}", if comp { "z" } else { "" }), b, exp: ents.into_iter().map(|e| (e.name, e.data)).collect() });
        }
    }
    v
}

/// everything a user can get out of the archive; None = index refused
fn read_all(bytes: &[u8]) -> Option<BTreeMap<String, Option<Vec<u8>>>> {
    let _ = PakMemory::load_from(&mut Cursor::new(bytes.to_vec())).map(|m| m.iter().count());
    let mut r = PakReader::new(Cursor::new(bytes.to_vec()));
    if r.load_index().is_err() {
        return None;
    }
    let names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    let mut m = BTreeMap::new();
    for n in names {
        m.insert(n.clone(), r.read_entry(&n).ok());
    }
    Some(m)
}

#[derive(Clone, Debug)]
enum Dmg {
    Cut(usize),
    Set(usize, u8),
    Field(usize, usize, u64), // offset, width, value
    Fault(u64),               // I/O error after that many bytes read
    Shrink(usize),            // the file is cut after its index was read
}

/// A file other programs can still write to.
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>, u64);
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let d = self.0.borrow();
        let at = (self.1 as usize).min(d.len());
        let n = b.len().min(d.len() - at);
        b[..n].copy_from_slice(&d[at..at + n]);
        self.1 += n as u64;
        Ok(n)
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let at = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.1 as i64 + x,
            SeekFrom::End(x) => self.0.borrow().len() as i64 + x,
        };
        if at < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.1 = at as u64;
        Ok(self.1)
    }
}

struct Faulty {
    c: Cursor<Vec<u8>>,
    left: u64,
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        let n = (b.len() as u64).min(self.left) as usize;
        let r = self.c.read(&mut b[..n])?;
        self.left -= r as u64;
        Ok(r)
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

pub fn p02(ctx: &Ctx) {
    let mut arcs = archives(ctx.thorough());
    let small = arcs.len();
    arcs.extend(longer());
    let vals: Vec<u8> = (0..=255).collect();
    let wide = [0u64, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, 0x0400_0000_0000];
    let mut cases: Vec<(usize, Dmg)> = vec![];
    for (ai, a) in arcs.iter().enumerate() {
        let n = a.b.bytes.len();
        for k in 0..n {
            cases.push((ai, Dmg::Cut(k)));
            cases.push((ai, Dmg::Shrink(k)));
            if ai >= small {
                continue;
            }
            for v in &vals {
                if a.b.bytes[k] != *v {
                    cases.push((ai, Dmg::Set(k, *v)));
                }
            }
            for w in [4usize, 8] {
                if k + w <= n {
                    for x in wide {
                        if w == 4 && x > u32::MAX as u64 {
                            continue;
                        }
                        cases.push((ai, Dmg::Field(k, w, x)));
                    }
                }
            }
        }
        for k in (0..3 * n as u64 + 60).step_by(ctx.pick(5, 1)) {
            cases.push((ai, Dmg::Fault(k)));
        }
    }
    ctx.bound(format!("{} archives of longer entries (to 300 bytes) cut at every length, before the index is read and after, and {} small archives (12 versions, compressed/plain/empty) x every truncation before and after, every offset x {} byte values, every offset x 4- and 8-byte boundary integers, an I/O error after every {} bytes read = {} damaged archives, each in a worker process limited to {} MB per allocation and 20 s", arcs.len() - small, small, vals.len(), ctx.pick(5, 1), cases.len(), mc::iso::ALLOC_LIMIT >> 20));
    let key = |i: usize| format!("{}:{:?}", arcs[cases[i].0].tag, cases[i].1);
    isolated(
        ctx,
        cases.len(),
        |i| {
            let (ai, d) = &cases[i];
            let a = &arcs[*ai];
            ctx.state();
            ctx.trace();
            let mut b = a.b.bytes.clone();
            let mut touched = (usize::MAX, 0);
            match d {
                Dmg::Cut(k) => b.truncate(*k),
                Dmg::Set(k, v) => {
                    b[*k] = *v;
                    touched = (*k, *k + 1);
                }
                Dmg::Field(k, w, x) => {
                    b[*k..*k + *w].copy_from_slice(&x.to_le_bytes()[..*w]);
                    touched = (*k, *k + *w);
                }
                Dmg::Fault(k) => {
                    let mut r = PakReader::new(Faulty { c: Cursor::new(b.clone()), left: *k });
                    ctx.step(1);
                    if r.load_index().is_ok() {
                        for (n, x) in &a.exp {
                            ctx.step(1);
                            if let Ok(g) = r.read_entry(n) {
                                if g != *x {
                                    return Some((key(i), format!("entry {n:?} wrong after an I/O error")));
                                }
                            }
                        }
                        ctx.outcome("io-fault-late");
                    } else {
                        ctx.outcome("io-fault-index");
                    }
                    let _ = PakMemory::load_from(&mut Faulty { c: Cursor::new(b), left: *k });
                    return None;
                }
                Dmg::Shrink(k) => {
                    let file = std::rc::Rc::new(std::cell::RefCell::new(b));
                    let mut r = PakReader::new(Shared(file.clone(), 0));
                    if let Err(e) = r.load_index() {
                        return Some((key(i), format!("intact archive refused: {e}")));
                    }
                    file.borrow_mut().truncate(*k);
                    for (n, x) in &a.exp {
                        ctx.step(1);
                        let whole = a.b.ranges.iter().any(|(m, _, e)| m == n && e <= k);
                        match r.read_entry(n) {
                            Ok(g) if g != *x => return Some((key(i), format!("entry {n:?} of a file that shrank is {} other bytes", g.len()))),
                            Err(e) if whole => return Some((key(i), format!("entry {n:?} lies before the cut but is refused: {e}"))),
                            Ok(_) => ctx.outcome("shrunk-read"),
                            Err(_) => ctx.outcome("shrunk-refused"),
                        }
                    }
                    return None;
                }
            }
            let r = read_all(&b);
            ctx.step(2);
            match (&r, d) {
                (None, _) => ctx.outcome("refused"),
                (Some(m), Dmg::Cut(_)) => {
                    ctx.outcome("accepted-cut");
                    for (n, x) in m {
                        if let Some(x) = x {
                            if a.exp.get(n) != Some(x) {
                                return Some((key(i), format!("truncated archive returned wrong data for {n:?}")));
                            }
                        }
                    }
                }
                (Some(m), _) => {
                    ctx.outcome("accepted-damaged");
                    // damage inside one entry leaves the others readable
                    for (n, s, e) in &a.b.ranges {
                        if touched.0 >= *s && touched.1 <= *e {
                            for (o, x) in &a.exp {
                                if o != n && m.get(o) != Some(&Some(x.clone())) {
                                    return Some((key(i), format!("damage inside {n:?} changed {o:?}")));
                                }
                            }
                        }
                    }
                }
            }
            if r.is_none() && !matches!(d, Dmg::Cut(_)) {
                for (n, s, e) in &a.b.ranges {
                    if touched.0 >= *s && touched.1 <= *e {
                        return Some((key(i), format!("damage inside {n:?} made the whole index unreadable")));
                    }
                }
            }
            None
        },
        |i| (key(i), format!("damaged archive {} {:?}: reader crashed", arcs[cases[i].0].tag, cases[i].1)),
    );
    ctx.sample(|| format!("{} {:?}", arcs[0].tag, cases[3].1));
}
