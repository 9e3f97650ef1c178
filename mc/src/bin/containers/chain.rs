//! P08: a chained reader over two files is indistinguishable from one reader over their concatenation.
use mc::core::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset_base::containers::Chain;

#[derive(Clone, Copy, Debug)]
enum Op {
    Read(usize),
    ReadExact(usize),
    Start(u64),
    Cur(i64),
    End(i64),
    Pos,
    Rewind,
    ReadToEnd,
}

/// A reader that returns at most `max` bytes per call (short reads are legal for Read).
struct Short {
    c: Cursor<Vec<u8>>,
    max: usize,
}
impl Read for Short {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.max);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Short {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

fn run(seq: &[Op], a: &[u8], b: Option<&[u8]>, max: usize, ctx: &Ctx) -> Result<(), String> {
    let mk = |v: &[u8]| Short { c: Cursor::new(v.to_vec()), max };
    let mut chain = Chain::new(mk(a), b.map(mk));
    let mut all = a.to_vec();
    if let Some(b) = b {
        all.extend_from_slice(b);
    }
    let mut pos: u64 = 0;
    let len = all.len() as u64;
    let rest = |pos: u64| -> &[u8] {
        if pos >= len {
            &[]
        } else {
            &all[pos as usize..]
        }
    };
    for (i, op) in seq.iter().enumerate() {
        ctx.step(1);
        let e = |m: String| Err(format!("step {i} {op:?}: {m}"));
        let seek_check = |r: std::io::Result<u64>, target: i128, pos: &mut u64| -> Result<(), String> {
            if target < 0 {
                if r.is_ok() {
                    return Err(format!("step {i} {op:?}: seek before start accepted: {r:?}"));
                }
            } else {
                match r {
                    Ok(p) if p as i128 == target => *pos = p,
                    r => return Err(format!("step {i} {op:?}: seek to {target} returned {r:?}")),
                }
            }
            Ok(())
        };
        match *op {
            Op::Read(n) => {
                let mut buf = vec![0xEE; n];
                match chain.read(&mut buf) {
                    Ok(k) => {
                        let r = rest(pos);
                        if k > n || k > r.len() || buf[..k] != r[..k] {
                            return e(format!("returned {k} bytes {:?}, expected prefix of {:?}", &buf[..k.min(n)], r));
                        }
                        if k == 0 && n > 0 && !r.is_empty() {
                            return e("premature end of file".into());
                        }
                        pos += k as u64;
                    }
                    Err(er) => return e(format!("read error {er}")),
                }
            }
            Op::ReadExact(n) => {
                let mut buf = vec![0xEE; n];
                let r = rest(pos);
                match chain.read_exact(&mut buf) {
                    Ok(()) => {
                        if r.len() < n || buf[..] != r[..n] {
                            return e(format!("read_exact gave {buf:?}, expected {:?}", r));
                        }
                        pos += n as u64;
                    }
                    Err(_) => {
                        if r.len() >= n {
                            return e("read_exact failed though enough bytes remain".into());
                        }
                        // position after a failed read_exact is unspecified: re-sync
                        chain.seek(SeekFrom::Start(pos)).map_err(|x| format!("resync {x}"))?;
                    }
                }
            }
            Op::ReadToEnd => {
                let mut v = vec![];
                match chain.read_to_end(&mut v) {
                    Ok(_) if v == rest(pos) => pos = pos.max(len),
                    r => return e(format!("read_to_end {r:?} {v:?}, expected {:?}", rest(pos))),
                }
            }
            Op::Start(p) => seek_check(chain.seek(SeekFrom::Start(p)), p as i128, &mut pos)?,
            Op::Cur(d) => seek_check(chain.seek(SeekFrom::Current(d)), pos as i128 + d as i128, &mut pos)?,
            Op::End(d) => seek_check(chain.seek(SeekFrom::End(d)), len as i128 + d as i128, &mut pos)?,
            Op::Pos => match chain.stream_position() {
                Ok(p) if p == pos => {}
                r => return e(format!("position {r:?}, expected {pos}")),
            },
            Op::Rewind => {
                chain.rewind().map_err(|x| x.to_string())?;
                pos = 0;
            }
        }
    }
    Ok(())
}

pub fn p08(ctx: &Ctx) {
    let depth = ctx.pick(4, 5);
    let maxlen = ctx.pick(3usize, 4);
    let ops = |total: usize| -> Vec<Op> {
        let t = total as i64;
        let mut v = vec![
            Op::Read(1),
            Op::Read(3),
            Op::Read(total + 2),
            Op::ReadExact(2),
            Op::Start(0),
            Op::Start(1),
            Op::Start(t as u64 / 2),
            Op::Start(t as u64),
            Op::Start(t as u64 + 2),
            Op::Cur(-1),
            Op::Cur(-2),
            Op::Cur(1),
            Op::Cur(3),
            Op::End(0),
            Op::End(-1),
            Op::End(-2),
            Op::End(-t - 1),
            Op::Pos,
            Op::ReadToEnd,
        ];
        if maxlen > 3 {
            v.push(Op::Rewind);
            v.push(Op::Read(0));
            v.push(Op::Start(2));
        }
        v
    };
    ctx.bound(format!(
        "all operation histories of length {depth} over 19..22 read/seek operations, first file 0..={maxlen} bytes, second file absent or 0..={maxlen} bytes, underlying short reads of 1 byte or unlimited"
    ));
    let mut configs = vec![];
    for l1 in 0..=maxlen {
        for l2 in -1..=(maxlen as i64) {
            for max in [1usize, usize::MAX] {
                configs.push((l1, l2, max));
            }
        }
    }
    par_for(configs.len(), |c| {
        let (l1, l2, max) = configs[c];
        let a: Vec<u8> = (0..l1 as u8).map(|x| x + 10).collect();
        let b: Option<Vec<u8>> = if l2 < 0 { None } else { Some((0..l2 as u8).map(|x| x + 100).collect()) };
        let ops = ops(l1 + l2.max(0) as usize);
        all_seqs(ops.len(), depth, |s| {
            let seq: Vec<Op> = s.iter().map(|i| ops[*i]).collect();
            ctx.state();
            ctx.trace();
            match guard(|| run(&seq, &a, b.as_deref(), max, ctx)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => ctx.violation(
                    &format!("chain:{l1}+{l2}:{max}:{seq:?}"),
                    format!("first={a:?} second={b:?} shortread={max} history={seq:?}\n{m}"),
                ),
            }
            !ctx.stopped()
        });
        ctx.sample(|| format!("first={a:?} second={b:?}"));
    });
    ctx.outcome("histories");
}
