//! P05: primitive stream codecs (strings, booleans, arrays) round trip and report their exact size.
use mc::core::*;
use std::io::Cursor;
use unreal_helpers::{read_ext::*, UnrealReadExt, UnrealWriteExt};

/// independent encoder of the documented layout
fn encode(s: Option<&str>) -> Vec<u8> {
    let mut o = vec![];
    match s {
        None => o.extend(0i32.to_le_bytes()),
        Some(s) if s.is_ascii() => {
            o.extend((s.len() as i32 + 1).to_le_bytes());
            o.extend(s.bytes());
            o.push(0);
        }
        Some(s) => {
            let u: Vec<u16> = s.encode_utf16().collect();
            o.extend((-(u.len() as i32) - 1).to_le_bytes());
            for x in u {
                o.extend(x.to_le_bytes());
            }
            o.extend([0, 0]);
        }
    }
    o
}

fn one(s: Option<&str>, damage: bool, ctx: &Ctx) -> Result<(), String> {
    macro_rules! req { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } }; }
    let e = encode(s);
    let mut w = vec![0xAAu8];
    let n = w.write_fstring(s).map_err(|e| format!("write failed: {e}"))?;
    req!(w[1..] == e[..], "wrote {} expected {}", hex(&w[1..]), hex(&e));
    req!(n == e.len(), "reported size {n}, wrote {}", e.len());
    w.extend([1, 2, 3]);
    let mut c = Cursor::new(&w);
    c.set_position(1);
    let back = c.read_fstring().map_err(|e| format!("read failed: {e}"))?;
    req!(back.as_deref() == s, "read back {back:?}");
    req!(c.position() as usize == 1 + e.len(), "reader stopped at {}", c.position());
    if let Some(t) = s {
        let wide = !t.is_ascii();
        let units = if wide { t.encode_utf16().count() } else { t.len() } as i32;
        let mut c = Cursor::new(&e[4..]);
        req!(read_fstring_len(&mut c, units + 1, wide).ok().flatten().as_deref() == s, "known-length read");
        req!(c.position() as usize == e.len() - 4, "known-length read position");
        let mut c = Cursor::new(&e[4..]);
        req!(read_fstring_len_noterm(&mut c, units, wide).ok().flatten().as_deref() == s, "unterminated read");
        req!(c.position() as usize == e.len() - 4 - if wide { 2 } else { 1 }, "unterminated read position");
    }
    if damage {
        for k in 0..e.len() {
            ctx.step(1);
            req!(Cursor::new(&e[..k]).read_fstring().is_err(), "truncation to {k} bytes accepted");
        }
        for k in 0..e.len() {
            for v in [0u8, 1, 0x7f, 0x80, 0xff, 0xd8] {
                let mut d = e.clone();
                if d[k] == v {
                    continue;
                }
                d[k] = v;
                ctx.step(1);
                let mut c = Cursor::new(&d);
                // must not panic; an accepted result must be justified by the bytes consumed
                if let Ok(r) = c.read_fstring() {
                    let used = &d[..c.position() as usize];
                    let len = i32::from_le_bytes(d[..4].try_into().unwrap());
                    let exp: Option<String> = if len == 0 {
                        None
                    } else if len > 0 {
                        Some(String::from_utf8(used[4..used.len() - 1].to_vec()).map_err(|_| "accepted bad utf8".to_string())?)
                    } else {
                        let u: Vec<u16> = used[4..used.len() - 2].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
                        Some(String::from_utf16(&u).map_err(|_| "accepted bad utf16".to_string())?)
                    };
                    let total = if len == 0 { 4 } else if len > 0 { 4 + len as usize } else { 4 + 2 * (-(len as i64)) as usize };
                    req!(r == exp && used.len() == total, "damaged input {} read as {r:?}", hex(&d));
                    if len != 0 {
                        let z = if len > 0 { 1 } else { 2 };
                        req!(used[used.len() - z..].iter().all(|x| *x == 0), "missing terminator accepted: {}", hex(&d));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn p05(ctx: &Ctx) {
    let alpha = ['a', 'Z', '\0', '\u{7f}', 'é', '字', '😀', '\u{ffff}'];
    let d = ctx.pick(5, 6);
    ctx.bound(format!("all strings of length 0..={d} over 8 characters (ASCII incl. NUL and DEL, 2/3/4-byte) plus the absent string; all truncations and 6 byte substitutions at every offset for strings up to length 3; all triples of 9 strings in one stream; lengths around the 131072 limit; every boundary length field; booleans 0..=255; arrays of 0..=5 elements"));
    for dd in 0..=d {
        par_for(if dd == 0 { 1 } else { alpha.len() }, |p| {
            all_seqs(alpha.len(), dd.max(1) - 1, |s| {
                let mut t = String::new();
                if dd > 0 {
                    t.push(alpha[p]);
                }
                t.extend(s.iter().map(|i| alpha[*i]));
                ctx.state();
                ctx.trace();
                match guard(|| one(Some(&t), dd <= 3, ctx)) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) | Err(m) => ctx.violation(&format!("fstring:{t:?}"), format!("string {t:?}: {m}")),
                }
                !ctx.stopped()
            });
        });
    }
    if let Ok(Err(m)) | Err(m) = guard(|| one(None, true, ctx)) {
        ctx.violation("fstring:None", m);
    }
    // long strings up to the documented limit
    for n in [127usize, 128, 129, 255, 256, 257, 65535, 65536, 131071, 131072] {
        for unit in ["x", "é"] {
            let t = unit.repeat(n);
            ctx.state();
            ctx.trace();
            if let Ok(Err(m)) | Err(m) = guard(|| one(Some(&t), false, ctx)) {
                ctx.violation(&format!("fstring:{unit}*{n}"), m);
            }
        }
    }
    // sequences in one stream
    let pool = [None, Some(""), Some("a"), Some("abc"), Some("é"), Some("字a"), Some("😀"), Some("\0"), Some("x y")];
    all_seqs(pool.len(), 3, |s| {
        ctx.state();
        ctx.trace();
        let mut w = vec![];
        let mut total = 0;
        for i in s {
            total += w.write_fstring(pool[*i]).unwrap_or(0);
        }
        let mut c = Cursor::new(&w);
        let got: Vec<Option<Option<String>>> = s.iter().map(|_| c.read_fstring().ok()).collect();
        let exp: Vec<Option<Option<String>>> = s.iter().map(|i| Some(pool[*i].map(|x| x.to_string()))).collect();
        if got != exp || total != w.len() || c.position() as usize != w.len() {
            ctx.violation(&format!("fstringseq:{s:?}"), format!("{exp:?} read as {got:?}, sizes {total} {}", w.len()));
        }
        !ctx.stopped()
    });
    // hostile length fields
    for len in [i32::MIN, i32::MIN + 1, -131075, -131074, -131073, -3, -1, 1, 2, 3, 131073, 131074, i32::MAX] {
        for tail in [vec![], vec![0u8], vec![0, 0], vec![b'a', 0], vec![0u8; 6], vec![b'a'; 6]] {
            ctx.state();
            ctx.trace();
            let mut d = len.to_le_bytes().to_vec();
            d.extend(&tail);
            match guard(|| Cursor::new(&d).read_fstring()) {
                Err(m) => ctx.violation(&format!("fstringlen:{len}:{}", hex(&tail)), m),
                Ok(Ok(s)) => {
                    let need = if len > 0 { len as i64 } else { 2 * -(len as i64) };
                    if need > tail.len() as i64 || len.unsigned_abs() > 131073 {
                        ctx.violation(&format!("fstringlen:{len}:{}", hex(&tail)), format!("accepted as {s:?}"));
                    }
                }
                Ok(Err(_)) => {}
            }
        }
    }
    // lengths beyond the limit, with all the bytes present: refused, or read in full
    for len in (131072..=131076i32).chain([140000, 262144, 262150]) {
        for sign in [1, -1] {
            for hole in [131070usize, 131071, 131072, 131073, 131074, usize::MAX] {
                let unit = if sign < 0 { 2 } else { 1 };
                let n = len as usize;
                let mut body = vec![0u8; n * unit];
                for i in 0..n - 1 {
                    body[i * unit] = if i == hole { 0 } else { b'a' };
                }
                let mut d = (len * sign).to_le_bytes().to_vec();
                d.extend(&body);
                d.extend([7u8; 8]);
                ctx.state();
                ctx.trace();
                let mut c = Cursor::new(&d);
                match guard(|| c.read_fstring()) {
                    Err(m) => ctx.violation(&format!("fstringlong:{}", len * sign), m),
                    Ok(Ok(s)) => {
                        let want: String = (0..n - 1).map(|i| if i == hole { '\0' } else { 'a' }).collect();
                        if s.as_deref() != Some(want.as_str()) || c.position() as usize != 4 + n * unit {
                            ctx.violation(&format!("fstringlong:{}", len * sign), format!("{} characters read, {} bytes consumed", s.map_or(0, |s| s.len()), c.position()));
                        }
                    }
                    Ok(Err(_)) => {}
                }
            }
        }
    }
    // booleans
    for b in 0..=255u8 {
        ctx.state();
        let r = Cursor::new([b]).read_bool().ok();
        if r != Some(b != 0) {
            ctx.violation(&format!("bool:{b}"), format!("{r:?}"));
        }
    }
    for b in [false, true] {
        let mut w = vec![];
        w.write_bool(b).unwrap();
        if w != [b as u8] {
            ctx.violation(&format!("boolw:{b}"), format!("{w:?}"));
        }
    }
    // arrays
    for n in 0..=5usize {
        let a: Vec<u8> = (0..n as u8).map(|x| x * 3 + 1).collect();
        let mut w = vec![];
        UnrealWriteExt::write_array(&mut w, &a, |w: &mut Vec<u8>, x| {
            w.push(*x);
            Ok(())
        })
        .unwrap();
        let mut exp = (n as i32).to_le_bytes().to_vec();
        exp.extend(&a);
        ctx.state();
        ctx.trace();
        let rd = |b: &[u8]| {
            let mut c = Cursor::new(b.to_vec());
            guard(|| UnrealReadExt::read_array(&mut c, |c: &mut Cursor<Vec<u8>>| c.read_vec(1).map(|v| v[0])))
        };
        let back = rd(&w);
        if w != exp || !matches!(&back, Ok(Ok(v)) if *v == a) {
            ctx.violation(&format!("array:{n}"), format!("{w:?} {back:?}"));
        }
        for k in 0..w.len() {
            if !matches!(rd(&w[..k]), Ok(Err(_))) {
                ctx.violation(&format!("arraycut:{n}:{k}"), "truncated array not rejected".into());
            }
        }
        // zero-sized elements: the stored count is honoured
        let mut c = Cursor::new(w.clone());
        let z = guard(|| UnrealReadExt::read_array(&mut c, |_| Ok(())).map(|v| v.len()));
        if !matches!(z, Ok(Ok(k)) if k == n) {
            ctx.violation(&format!("arrayunit:{n}"), format!("{z:?}"));
        }
    }
    ctx.sample(|| format!("\"a\\0é\" -> {}", hex(&encode(Some("a\0é")))));
}
