//! P22: damaged packages are refused or read, never fatal.
use crate::{exports as ex, kismet as kis, properties as pr, tables as tb};
use mc::core::*;
use mc::exports::*;
use mc::iso::*;
use mc::kismet::*;
use mc::pkg::*;
use mc::props::impossible;
use mc::uasset::*;

pub struct Base {
    pub what: String,
    pub v: Ver,
    pub f: File,
}
/// Mutations of a byte string: index -> damaged copy.
struct Plan {
    len: usize,
}
const BYTES: [u8; 6] = [0, 1, 2, 0x7f, 0x80, 0xff];
const WORDS: [i32; 5] = [i32::MAX, i32::MIN, -1, 0x1000_0000, 0x10_0000];
impl Plan {
    fn count(&self) -> usize {
        // truncations, byte values, bit flips of the low bit are within BYTES for most, words
        self.len + self.len * BYTES.len() + self.len * WORDS.len()
    }
    fn apply(&self, b: &[u8], i: usize) -> (Vec<u8>, String) {
        let n = self.len;
        if i < n {
            return (b[..i].to_vec(), format!("cut to {i} bytes"));
        }
        let i = i - n;
        let mut d = b.to_vec();
        if i < n * BYTES.len() {
            let (at, x) = (i / BYTES.len(), BYTES[i % BYTES.len()]);
            d[at] = x;
            return (d, format!("byte {at:#x} = {x:#x}"));
        }
        let i = i - n * BYTES.len();
        let (at, x) = (i / WORDS.len(), WORDS[i % WORDS.len()]);
        for (k, y) in x.to_le_bytes().iter().enumerate() {
            if at + k < n {
                d[at + k] = *y;
            }
        }
        (d, format!("word at {at:#x} = {x:#x}"))
    }
}
fn check(base: &Base, asset: &[u8], uexp: Option<&[u8]>, ctx: &Ctx) -> Option<String> {
    ctx.state();
    ctx.trace();
    ctx.step(1);
    match parse_bytes(asset, uexp, base.v.engine) {
        Err(e) if e.starts_with("error:") => {
            ctx.outcome("refused");
            None
        }
        Err(e) => Some(format!("reading: {e}")),
        Ok(mut a) => {
            ctx.outcome("still readable");
            ctx.step(2);
            if let Err(e) = write(&a) {
                if !e.starts_with("error:") {
                    return Some(format!("writing: {e}"));
                }
            }
            match guard(move || a.rebuild_name_map()) {
                Err(e) => Some(format!("rebuild_name_map: {e}")),
                _ => None,
            }
        }
    }
}
pub fn bases(ctx: &Ctx) -> Vec<Base> {
    let l = &CV_LATEST;
    let mut o = vec![];
    let vs = [Ver::versioned(522, 0, l), Ver::versioned(522, 1009, l), Ver::versioned(366, 0, &[])];
    let nv = 3;
    for (i, v) in vs.iter().enumerate().take(nv) {
        for (name, t, _) in pr::shapes() {
            if pr::skip(v, name, &t) || (i > 0 && !ctx.thorough() && pr::big(&t)) {
                continue;
            }
            let f = build(v, &Table::Natural, &mut |n| pr::describe(v, name, &t, &mut Ch::new(&[]), n)).unwrap().0;
            o.push(Base { what: format!("{name}:{t:?}"), v: v.clone(), f });
        }
        for kind in Kind::all() {
            if matches!(&kind, Kind::DataTable(s) if impossible(v, s)) {
                continue;
            }
            let f = build(v, &Table::Natural, &mut |n| ex::describe(v, &kind, kind.classes()[0], Quirk::No, &mut Ch::new(&[]), n)).unwrap().0;
            o.push(Base { what: format!("{kind:?}"), v: v.clone(), f });
        }
    }
    for v in kis::versions(false).iter().skip(1).take(2) {
        for op in 0..OPS.len() {
            let f = build(v, &Table::Natural, &mut |n| kis::script(v, &Kind::Function, op, &mut Ch::new(&[]), n)).unwrap().0;
            o.push(Base { what: format!("opcode {:#x}", OPS[op].0), v: v.clone(), f });
        }
    }
    for (what, v, f) in tb::samples() {
        o.push(Base { what, v, f });
    }
    o
}
pub fn run(ctx: &Ctx) {
    let bases = bases(ctx);
    // (base, damage the .uexp, first case)
    let mut parts: Vec<(usize, bool, usize)> = vec![];
    let mut n = 0;
    for (i, b) in bases.iter().enumerate() {
        // the tables in front of the export data are the same kind of bytes in most packages
        let tables = b.what.starts_with("tables") || i % 40 == 0 || ctx.thorough();
        if b.f.uexp.is_none() || tables {
            parts.push((i, false, n));
            n += Plan { len: b.f.asset.len() }.count();
        }
        if let Some(u) = &b.f.uexp {
            parts.push((i, true, n));
            n += Plan { len: u.len() }.count();
        }
    }
    ctx.bound(format!("{} packages (every property shape, export kind, instruction, table layout) x every truncation, every byte set to {} values and every 4 bytes to {} values: {n} damaged packages, each read, saved and its names rebuilt in a process of its own", bases.len(), BYTES.len(), WORDS.len()));
    ctx.assume("one damage at a time; a single allocation above 512 MB or 20 s without progress counts as fatal");
    let find = |i: usize| {
        let p = parts.partition_point(|p| p.2 <= i) - 1;
        let (b, u, s) = parts[p];
        let base = &bases[b];
        let bytes = if u { base.f.uexp.as_ref().unwrap() } else { &base.f.asset };
        let (d, what) = Plan { len: bytes.len() }.apply(bytes, i - s);
        (base, u, d, what)
    };
    let key = |b: &Base| format!("damaged {}", b.what);
    isolated(
        ctx,
        n,
        |i| {
            let (base, u, d, what) = find(i);
            let r = if u { check(base, &base.f.asset, Some(&d), ctx) } else { check(base, &d, base.f.uexp.as_deref(), ctx) };
            r.map(|r| (key(base), format!("{} {} {what}: {r}\ndamaged bytes: {}", base.v.tag(), if u { ".uexp" } else { ".uasset" }, hex(&d))))
        },
        |i| {
            let (base, u, d, what) = find(i);
            (key(base), format!("{} {} {what}\ndamaged bytes: {}", base.v.tag(), if u { ".uexp" } else { ".uasset" }, hex(&d)))
        },
    );
}
