//! P27: slow and failing streams under the reader and the writer of packages.
use crate::damage::{bases, Base};
use mc::core::*;
use std::cell::Cell;
use std::io::{Cursor, Error, ErrorKind, Read, Result as Io, Seek, SeekFrom, Write};
use std::rc::Rc;
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::Asset;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Clean,
    /// one byte per call
    Slow,
    /// the call of that number is interrupted
    Interrupted(u64),
    /// the call of that number fails
    Once(u64),
    /// and all after it
    From(u64),
}
#[derive(Debug)]
struct Stream {
    c: Cursor<Vec<u8>>,
    mode: Mode,
    calls: Rc<Cell<u64>>,
}
impl Stream {
    fn new(b: Vec<u8>, mode: Mode, calls: &Rc<Cell<u64>>) -> Self {
        Stream { c: Cursor::new(b), mode, calls: calls.clone() }
    }
    fn call(&mut self, seek: bool) -> Io<()> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        match self.mode {
            Mode::Interrupted(n) if n == k && !seek => Err(ErrorKind::Interrupted.into()),
            Mode::Once(n) if n == k => Err(Error::other("injected")),
            Mode::From(n) if n <= k => Err(Error::other("injected")),
            _ => Ok(()),
        }
    }
    fn len(&self, n: usize) -> usize {
        if self.mode == Mode::Slow {
            n.min(1)
        } else {
            n
        }
    }
}
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> Io<usize> {
        self.call(false)?;
        let n = self.len(b.len());
        self.c.read(&mut b[..n])
    }
}
impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> Io<usize> {
        self.call(false)?;
        let n = self.len(b.len());
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}
impl Seek for Stream {
    fn seek(&mut self, p: SeekFrom) -> Io<u64> {
        // asking for the position does not touch the medium
        if p != SeekFrom::Current(0) {
            self.call(true)?;
        }
        self.c.seek(p)
    }
}
type Bytes = (Vec<u8>, Option<Vec<u8>>);
fn open(b: &Base, mode: Mode, calls: &Rc<Cell<u64>>) -> Result<Asset<Stream>, String> {
    let e = EngineVersion::try_from(b.v.engine).map_err(|_| "harness: engine".to_string())?;
    match guard(|| Asset::new(Stream::new(b.f.asset.clone(), mode, calls), b.f.uexp.clone().map(|u| Stream::new(u, mode, calls)), e, None)) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
fn save(a: &Asset<Stream>, mode: Mode, calls: &Rc<Cell<u64>>) -> Result<Bytes, String> {
    let ed = a.asset_data.use_event_driven_loader;
    match guard(|| {
        let mut o = Stream::new(vec![], mode, calls);
        let mut u = Stream::new(vec![], mode, calls);
        let r = a.write_data(&mut o, if ed { Some(&mut u) } else { None });
        r.map(|_| (o.c.into_inner(), if ed { Some(u.c.into_inner()) } else { None }))
    }) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}
fn modes(n: u64) -> impl Iterator<Item = Mode> {
    [Mode::Slow].into_iter().chain((0..n).flat_map(|k| [Mode::Interrupted(k), Mode::Once(k), Mode::From(k)]))
}
fn harmless(m: Mode) -> bool {
    matches!(m, Mode::Clean | Mode::Slow | Mode::Interrupted(_))
}
fn explore(b: &Base, ctx: &Ctx) -> Result<(), String> {
    let calls = Rc::new(Cell::new(0));
    let zero = || {
        calls.set(0);
        &calls
    };
    let a = open(b, Mode::Clean, zero())?;
    let reads = calls.get();
    let want = save(&a, Mode::Clean, zero())?;
    let writes = calls.get();
    let mut bad = None;
    for m in modes(reads) {
        ctx.state();
        ctx.step(1);
        let (r, free) = (open(b, m, zero()), Rc::new(Cell::new(0)));
        let r = match r {
            Ok(a) => match save(&a, Mode::Clean, &free) {
                Ok(w) if w == want => Ok(true),
                Ok(w) => Err(format!("opened, but with other content: {} {}", mc::uasset::first_diff(&w.0, &want.0), mc::uasset::first_diff(w.1.as_deref().unwrap_or_default(), want.1.as_deref().unwrap_or_default()))),
                Err(e) => Err(format!("opened, but cannot be saved: {e}")),
            },
            Err(e) if e.starts_with("error:") && !harmless(m) => Ok(false),
            Err(e) => Err(e),
        };
        match r {
            Ok(ok) => ctx.outcome(if ok { "opened" } else { "open refused" }),
            Err(e) => bad = bad.or(Some(format!("opening, {m:?} of {reads} calls: {e}"))),
        }
    }
    for m in modes(writes) {
        ctx.state();
        ctx.step(1);
        let r = match save(&a, m, zero()) {
            Ok(w) if harmless(m) && w == want => Ok(true),
            Ok(_) if harmless(m) => Err("other bytes".to_string()),
            Ok(_) => Err("the failure is not reported".into()),
            Err(e) if e.starts_with("error:") && !harmless(m) => Ok(false),
            Err(e) => Err(e),
        };
        match r {
            Ok(ok) => ctx.outcome(if ok { "saved" } else { "save failed" }),
            Err(e) => bad = bad.or(Some(format!("saving, {m:?} of {writes} calls: {e}"))),
        }
    }
    ctx.trace();
    bad.map_or(Ok(()), Err)
}
pub fn run(ctx: &Ctx) {
    let bases = bases(ctx);
    ctx.bound(format!("{} packages (every property shape, export kind, instruction, table layout) x opened and saved with one byte per call, and with each single read, write or seek interrupted, failing, or failing from then on", bases.len()));
    ctx.assume("asking for the position of a stream does not fail");
    par_for(bases.len(), |i| {
        if ctx.stopped() {
            return;
        }
        let b = &bases[i];
        if let Err(e) = explore(b, ctx) {
            ctx.violation(&format!("streams {} {}", b.what, b.v.tag()), e);
        }
    });
}
