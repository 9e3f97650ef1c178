//! P06: GUID conversions are inverse to each other and parsing accepts exactly GUID syntax.
use mc::core::*;
use std::io::Cursor;
use std::str::FromStr;
use unreal_helpers::{Guid, UnrealReadExt, UnrealWriteExt};

fn expect_text(b: &[u8; 16]) -> String {
    if b.iter().all(|x| *x == 0) {
        return "0".into();
    }
    let h: Vec<String> = b.iter().map(|x| format!("{x:02X}")).collect();
    format!("{}-{}-{}-{}-{}", h[0..4].concat(), h[4..6].concat(), h[6..8].concat(), h[8..10].concat(), h[10..16].concat())
}

fn one(b: [u8; 16]) -> Result<(), String> {
    macro_rules! req { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } }; }
    let g = Guid::new(b);
    let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let t = (w(0), w(4), w(8), w(12));
    req!(<[u8; 16]>::from(g) == b && Guid::from(b) == g, "bytes");
    req!(<(u32, u32, u32, u32)>::from(g) == t, "to ints {:?} expected {t:?}", <(u32, u32, u32, u32)>::from(g));
    req!(Guid::from(t) == g, "from ints tuple");
    req!(Guid::from_ints(t.0, t.1, t.2, t.3) == g, "from_ints");
    let u = u128::from_le_bytes(b);
    req!(u128::from(g) == u, "to u128");
    req!(Guid::from(u) == g, "from u128");
    req!(g.is_zero() == (u == 0), "is_zero");
    let text = g.to_string();
    req!(text == expect_text(&b), "text {text} expected {}", expect_text(&b));
    for s in [
        text.clone(),
        text.to_lowercase(),
        format!("{{{text}}}"),
        format!(" {text} "),
        text.replace('-', ""),
        format!("{{{}}}", text.replace('-', "").to_lowercase()),
        b.iter().map(|x| format!("{x:02x}")).collect::<String>(),
    ] {
        match Guid::from_str(&s) {
            Ok(x) if x == g => {}
            r => return Err(format!("parse {s:?} gave {r:?}")),
        }
    }
    let j = serde_json::to_string(&g).map_err(|e| e.to_string())?;
    req!(j == format!("\"{text}\""), "json {j}");
    req!(serde_json::from_str::<Guid>(&j).ok() == Some(g), "json back");
    let mut v = vec![];
    v.write_guid(&g).map_err(|e| e.to_string())?;
    req!(v == b, "written bytes");
    req!(Cursor::new(&v).read_guid().ok() == Some(g), "read back");
    for k in 0..16 {
        req!(Cursor::new(&v[..k]).read_guid().is_err(), "truncated read accepted");
    }
    Ok(())
}

pub fn p06(ctx: &Ctx) {
    // every byte value at every position on several backgrounds, and all pairs of positions over an alphabet
    let bgs: Vec<[u8; 16]> = vec![[0; 16], [0xff; 16], core::array::from_fn(|i| 0x10 + i as u8), core::array::from_fn(|i| 0xf0 - 13 * i as u8)];
    let alpha: &[u8] = ctx.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x0a, 0xa0][..], &[0u8, 1, 2, 9, 0x0a, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xa0, 0xaf, 0xf0, 0xfe, 0xff][..]);
    ctx.bound(format!("4 background GUIDs x 16 positions x 256 byte values, and x all pairs of positions x {}^2 byte values; text syntax: 4 canonical layouts with every one of 11 characters substituted, inserted or deleted at every position (and every pair of positions on the bare layout)", alpha.len()));
    let mut inputs = vec![];
    for bg in &bgs {
        for p in 0..16 {
            for v in 0..=255u8 {
                let mut b = *bg;
                b[p] = v;
                inputs.push(b);
            }
            for q in 0..p {
                for x in alpha {
                    for y in alpha {
                        let mut b = *bg;
                        b[p] = *x;
                        b[q] = *y;
                        inputs.push(b);
                    }
                }
            }
        }
    }
    inputs.sort();
    inputs.dedup();
    let chunk = 512;
    par_for(inputs.len().div_ceil(chunk), |c| {
        for b in &inputs[c * chunk..((c + 1) * chunk).min(inputs.len())] {
            ctx.state();
            ctx.trace();
            ctx.step(16);
            match guard(|| one(*b)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => ctx.violation(&format!("guid:{}", hex(b)), m),
            }
        }
    });
    // syntax
    let base = "0123456789abcdefABCDEF9876543210";
    let dashed = "01234567-89ab-cdef-ABCD-EF9876543210";
    let subs = ["0", "f", "F", "g", "+", "-", "{", "}", " ", "é", "\0"];
    let mut texts: Vec<String> = vec!["".into(), "0".into(), "00".into(), "-".into(), "{}".into(), "{0}".into(), "1".into()];
    for t in [base.to_string(), dashed.to_string(), format!("{{{dashed}}}"), format!("{{{base}}}")] {
        let cs: Vec<char> = t.chars().collect();
        for i in 0..=cs.len() {
            for s in subs {
                let mut x: String = cs[..i].iter().collect();
                x.push_str(s);
                let ins: String = x.clone() + &cs[i..].iter().collect::<String>();
                texts.push(ins);
                if i < cs.len() {
                    texts.push(x + &cs[i + 1..].iter().collect::<String>());
                }
            }
            if i < cs.len() {
                texts.push(cs[..i].iter().collect::<String>() + &cs[i + 1..].iter().collect::<String>());
            }
        }
        texts.push(t);
    }
    let cs: Vec<char> = base.chars().collect();
    for i in 0..cs.len() {
        for j in 0..i {
            for s in subs {
                for u in subs {
                    let mut x: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
                    x[i] = s.into();
                    x[j] = u.into();
                    texts.push(x.concat());
                }
            }
        }
    }
    texts.sort();
    texts.dedup();
    for t in &texts {
        ctx.state();
        ctx.trace();
        let hexd: String = t.chars().filter(|c| c.is_ascii_hexdigit()).collect();
        let junk = t.chars().any(|c| !c.is_ascii_hexdigit() && !"-{} ".contains(c));
        match guard(|| Guid::from_str(t)) {
            Err(m) => ctx.violation(&format!("guidtext:{t:?}"), format!("parsing {t:?}: {m}")),
            Ok(Ok(g)) => {
                let full: String = g.0.iter().map(|b| format!("{b:02X}")).collect();
                let zero = g.is_zero() && hexd == "0";
                if junk || !(zero || full == hexd.to_uppercase()) {
                    ctx.violation(&format!("guidtext:{t:?}"), format!("parsing {t:?} accepted as {full}"));
                }
                ctx.outcome("accepted");
            }
            Ok(Err(_)) => {
                let plain = t.replace('-', "");
                if plain.len() == 32 && plain.chars().all(|c| c.is_ascii_hexdigit()) {
                    ctx.violation(&format!("guidtext:{t:?}"), format!("valid text {t:?} rejected"));
                }
                ctx.outcome("rejected");
            }
        }
    }
    ctx.sample(|| dashed.into());
    ctx.sample(|| hex(&inputs[77]));
}
