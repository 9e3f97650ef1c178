//! P20: name hashes equal an independently computed reference for every name.
use mc::core::*;
use unreal_asset_base::crc::{cityhash64_to_lower, generate_hash};

fn crc_reflected(i: u32) -> u32 {
    let mut c = i;
    for _ in 0..8 {
        c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
    }
    c
}
fn crc_msb(i: u32) -> u32 {
    let mut c = i << 24;
    for _ in 0..8 {
        c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
    }
    c
}

fn ref_hash(s: &str, t0: &[u32; 256], t1: &[u32; 256]) -> u32 {
    let mut h = 0u32;
    for c in s.encode_utf16() {
        let c = if (0x61..=0x7a).contains(&c) { c - 32 } else { c };
        h = (h >> 8) ^ t1[((h ^ c as u32) & 0xff) as usize];
        if !s.is_ascii() {
            h = (h >> 8) ^ t1[((h ^ (c >> 8) as u32) & 0xff) as usize];
        }
    }
    let mut k = !0u32;
    for c in s.encode_utf16() {
        for b in (c as u32).to_le_bytes() {
            k = (k >> 8) ^ t0[((k ^ b as u32) & 0xff) as usize];
        }
    }
    (h & 0xffff) | (!k & 0xffff) << 16
}

// the 64-bit hash of the name batch is the third-party city hash of the lower-cased UTF-16LE text
fn ref_city_lower(s: &str) -> u64 {
    let mut b = vec![];
    for c in s.encode_utf16() {
        let c = if (0x41..=0x5a).contains(&c) { c + 32 } else { c };
        b.extend(c.to_le_bytes());
    }
    naive_cityhash::cityhash64(&b)
}

pub fn p20(ctx: &Ctx) {
    let t0: [u32; 256] = core::array::from_fn(|i| crc_reflected(i as u32));
    let t1: [u32; 256] = core::array::from_fn(|i| crc_msb(i as u32));
    let check = |s: &str| {
        ctx.state();
        ctx.trace();
        ctx.step(2);
        let e = (ref_hash(s, &t0, &t1), ref_city_lower(s));
        match guard(|| (generate_hash(s), cityhash64_to_lower(s))) {
            Ok(r) if r == e => {}
            r => ctx.violation(&format!("hash:{s:?}"), format!("name {s:?}: {r:x?}, reference {e:x?}")),
        }
    };
    // every single UTF-16 unit, alone and behind a prefix (every table entry of every round is reached)
    par_for(256, |hi| {
        for lo in 0..256u32 {
            if let Some(c) = char::from_u32((hi as u32) << 8 | lo) {
                let mut s = String::new();
                s.push(c);
                check(&s);
                check(&format!("aZ{c}"));
                check(&format!("{c}q"));
            }
        }
    });
    let alpha = ['a', 'z', 'A', 'Z', '@', '[', '`', '{', '0', '_', 'é', 'É', '字', '😀', 'ÿ', '/'];
    let d = ctx.pick(4, 5);
    for dd in 0..=d {
        par_for(if dd == 0 { 1 } else { alpha.len() }, |p| {
            all_seqs(alpha.len(), dd.max(1) - 1, |s| {
                let mut t = String::new();
                if dd > 0 {
                    t.push(alpha[p]);
                }
                t.extend(s.iter().map(|i| alpha[*i]));
                check(&t);
                !ctx.stopped()
            });
        });
    }
    // every length class
    for n in 0..=300usize {
        for pat in ["Ab", "xYé", "/Game/A_"] {
            let t: String = pat.chars().cycle().take(n).collect();
            check(&t);
        }
    }
    ctx.bound(format!("every one of the 63488 basic-plane characters alone and in two contexts; all names of length 0..={d} over 16 characters; lengths 0..=300 for 3 patterns"));
    ctx.sample(|| format!("None -> {:08x} {:016x}", ref_hash("None", &t0, &t1), ref_city_lower("None")));
}
