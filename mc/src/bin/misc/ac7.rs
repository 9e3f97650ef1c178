//! P18: the Ace Combat 7 package cipher.
use mc::core::*;
use unreal_asset::ac7::{self, AC7XorKey};

const KEY: &[u8] = include_bytes!("/repo/unreal_asset/vendor/AC7Key.bin");
const UE4: [u8; 4] = [0xc1, 0x83, 0x2a, 0x9e];

/// Reference: position of the first byte in the 217 x 1024 key table.
fn start(name: &str) -> (usize, usize) {
    let mut n: u32 = 0;
    for b in name.bytes() {
        n ^= b.to_ascii_uppercase() as u32;
        // bit 7 of n ^ 8n, inverted, is shifted in
        let bit = 1 ^ (((n ^ (n << 3)) >> 7) & 1);
        n = (n << 1) | bit;
    }
    (((n as u64 * 7 + 4) % 217) as usize, ((n as u64 * 11 + 4) % 1024) as usize)
}
struct Stream(usize, usize);
impl Stream {
    fn next(&mut self) -> u8 {
        let k = KEY[self.0 * 1024 + self.1] ^ 0x77;
        self.0 = (self.0 + 1) % 217;
        self.1 = (self.1 + 1) % 1024;
        k
    }
}
fn reference(name: &str, uasset: &[u8], uexp: &[u8], magic: &[u8; 4]) -> (Vec<u8>, Vec<u8>) {
    let (a, b) = start(name);
    let mut s = Stream(a, b);
    let mut o: Vec<u8> = magic.iter().take(uasset.len()).copied().collect();
    o.extend(uasset.iter().skip(4).map(|x| x ^ s.next()));
    (o, uexp.iter().map(|x| x ^ s.next()).collect())
}
fn package(len: usize, salt: u8) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(salt)).collect();
    for (i, b) in UE4.iter().enumerate().take(len) {
        v[i] = *b;
    }
    v
}
fn judge(name: &str, ua: usize, ue: usize) -> Option<String> {
    let (a, e) = (package(ua, 3), package(ue, 7).iter().map(|b| b.wrapping_add(1)).collect::<Vec<u8>>());
    let key = match guard(|| AC7XorKey::new(name)) {
        Ok(k) => k,
        Err(p) => return Some(format!("key: {p}")),
    };
    let enc = match guard(|| ac7::encrypt(&a, &e, key)) {
        Ok(x) => x,
        Err(p) => return Some(format!("encrypt: {p}")),
    };
    let want = reference(name, &a, &e, b"ACE7");
    if enc != want {
        return Some(format!("encrypted .uasset {} .uexp {}", at(&enc.0, &want.0), at(&enc.1, &want.1)));
    }
    let dec = match guard(|| ac7::decrypt(&enc.0, &enc.1, key)) {
        Ok(x) => x,
        Err(p) => return Some(format!("decrypt: {p}")),
    };
    if dec != (a.clone(), e.clone()) {
        return Some(format!("decrypting what was encrypted: .uasset {} .uexp {}", at(&dec.0, &a), at(&dec.1, &e)));
    }
    // one half after the other, with one key
    let parts = guard(|| {
        let mut k = AC7XorKey::new(&name.to_ascii_lowercase());
        let a1 = ac7::encrypt_uasset(&a, &mut k);
        let e1 = ac7::encrypt_uexp(&e, &mut k);
        let mut k = AC7XorKey::new(&name.to_ascii_uppercase());
        let a2 = ac7::decrypt_uasset(&a1, &mut k);
        let e2 = ac7::decrypt_uexp(&e1, &mut k);
        (a1, e1, a2, e2)
    });
    match parts {
        Err(p) => Some(format!("separate files: {p}")),
        Ok((a1, e1, a2, e2)) => (a1 != want.0 || e1 != want.1 || a2 != a || e2 != e).then(|| "separate files differ from both at once".to_string()),
    }
}
fn at(a: &[u8], b: &[u8]) -> String {
    if a == b {
        return "ok".into();
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("wrong from byte {i}"),
        None => format!("{} bytes instead of {}", a.len(), b.len()),
    }
}
pub fn run(ctx: &Ctx) {
    assert_eq!(KEY.len(), 217 * 1024);
    let n = ctx.pick(4, 5);
    let abc = ["a", "Z", "_", "9", "x", "/", "A"];
    let period = 217 * 1024;
    ctx.bound(format!("all names up to length {n} over {} characters and growing names up to length 80, x file lengths 0..9; every split of short data between the two files; the whole key stream ({period} bytes) and its wrap for 3 names", abc.len()));
    ctx.assume("for names outside ASCII only that letter case does not matter; the key position of a name is ((7k+4) mod 217, (11k+4) mod 1024) for its 32-bit name key k");
    let mut names = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = names.len();
        for i in from..to {
            for c in abc {
                names.push(format!("{}{c}", names[i]));
            }
        }
        from = to;
    }
    for base in ["plwp_", "ex02_IGC_03_Subtitle", "Zz", "~}{|", "Nimbus/Content/Blueprint/"] {
        let mut s = String::new();
        while s.len() < 80 {
            s.push(base.as_bytes()[s.len() % base.len()] as char);
            names.push(s.clone());
        }
    }
    // every character
    for c in 0x20u8..0x7f {
        names.push((c as char).to_string());
        names.push(format!("a{}b", c as char));
    }
    // upper and lower case spellings of a name are the same name
    for (lo, up) in [("\u{e9}", "\u{c9}"), ("\u{436}", "\u{416}"), ("\u{3c9}", "\u{3a9}"), ("\u{fc}", "\u{dc}")] {
        for (a, b) in [(lo.to_string(), up.to_string()), (format!("a{lo}b"), format!("A{up}B")), (format!("{lo}{lo}_1"), format!("{up}{lo}_1")), (format!("plwp{up}x"), format!("PLWP{lo}X"))] {
            ctx.state();
            ctx.step(2);
            match guard(|| (AC7XorKey::new(&a), AC7XorKey::new(&b))) {
                Ok((x, y)) if x == y => ctx.outcome("case"),
                Ok((x, y)) => ctx.violation("letter case", format!("{a:?} has key {x:?} and {b:?} has {y:?}")),
                Err(p) => ctx.violation("letter case", format!("{a:?} {b:?}: {p}")),
            }
        }
    }
    let mut lens = vec![];
    for a in 0..10 {
        for e in [0usize, 1, 2, 9] {
            lens.push((a, e));
        }
    }
    par_for(names.len(), |i| {
        for (a, e) in &lens {
            ctx.state();
            ctx.step(4);
            ctx.trace();
            if let Some(d) = judge(&names[i], *a, *e) {
                ctx.violation(if *a < 4 { "short file" } else { "cipher" }, format!("name {:?}, .uasset of {a} bytes, .uexp of {e} bytes: {d}", names[i]));
                return;
            }
        }
        ctx.outcome("name");
    });
    let long: Vec<(&str, usize, usize)> = {
        let mut l = vec![];
        for name in ["ex02_IGC_03_Subtitle", "", "b"] {
            for (a, e) in [(4, period + 10), (period + 10, 300), (period, period), (5, 2 * period + 1), (1028, 217), (221, 1024)] {
                l.push((name, a, e));
            }
            for a in 4..ctx.pick(300, 1100) {
                l.push((name, a, 1300 - a));
            }
        }
        l
    };
    par_for(long.len(), |i| {
        let (name, a, e) = long[i];
        ctx.state();
        ctx.step(4);
        ctx.trace();
        ctx.outcome("long file");
        if let Some(d) = judge(name, a, e) {
            ctx.violation("cipher", format!("name {name:?}, .uasset of {a} bytes, .uexp of {e} bytes: {d}"));
        }
    });
}
