//! An independent encoder and decoder of the archive format, written from the format description.
use flate2::{read::ZlibDecoder, write::ZlibEncoder, Compression as Z};
use sha1::{Digest, Sha1};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use unreal_pak::pakversion::PakVersion;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum V {
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8a,
    V8b,
    V9,
    V10,
    V11,
}
pub const ALL: [V; 12] = [V::V1, V::V2, V::V3, V::V4, V::V5, V::V6, V::V7, V::V8a, V::V8b, V::V9, V::V10, V::V11];
pub const WRITABLE: [V; 10] = [V::V1, V::V2, V::V3, V::V4, V::V5, V::V6, V::V7, V::V8a, V::V8b, V::V9];
impl V {
    pub fn num(self) -> u32 {
        match self {
            V::V1 => 1,
            V::V2 => 2,
            V::V3 => 3,
            V::V4 => 4,
            V::V5 => 5,
            V::V6 => 6,
            V::V7 => 7,
            V::V8a | V::V8b => 8,
            V::V9 => 9,
            V::V10 => 10,
            V::V11 => 11,
        }
    }
    pub fn api(self) -> PakVersion {
        match self {
            V::V1 => PakVersion::Initial,
            V::V2 => PakVersion::NoTimestamps,
            V::V3 => PakVersion::CompressionEncryption,
            V::V4 => PakVersion::IndexEncryption,
            V::V5 => PakVersion::RelativeChunkOffsets,
            V::V6 => PakVersion::DeleteRecords,
            V::V7 => PakVersion::EncryptionKeyGuid,
            V::V8a => PakVersion::FnameBasedCompressionMethodInitial,
            V::V8b => PakVersion::FnameBasedCompressionMethod,
            V::V9 => PakVersion::FrozenIndex,
            V::V10 => PakVersion::PathHashIndex,
            V::V11 => PakVersion::Fnv64BugFix,
        }
    }
    pub fn compresses(self) -> bool {
        self >= V::V3
    }
    pub fn footer_len(self) -> usize {
        // magic, version, offset, size, hash
        44 + if self >= V::V4 { 1 } else { 0 }
            + if self >= V::V7 { 16 } else { 0 }
            + if self == V::V9 { 1 } else { 0 }
            + match self {
                V::V8a => 4 * 32,
                v if v >= V::V8b => 5 * 32,
                _ => 0,
            }
    }
}

pub fn sha(d: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(d);
    h.finalize().into()
}
pub fn fstr(o: &mut Vec<u8>, s: &str) {
    if s.is_ascii() {
        o.extend((s.len() as i32 + 1).to_le_bytes());
        o.extend(s.bytes());
        o.push(0);
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        o.extend((-(u.len() as i32) - 1).to_le_bytes());
        u.iter().for_each(|x| o.extend(x.to_le_bytes()));
        o.extend([0, 0]);
    }
}

#[derive(Clone)]
pub struct Ent {
    pub name: String,
    pub data: Vec<u8>,
    pub compress: bool,
}

struct Rec {
    offset: u64,
    csize: u64,
    size: u64,
    method: u32,
    hash: [u8; 20],
    blocks: Vec<(u64, u64)>, // as stored
    block_size: u32,
}

fn put_header(o: &mut Vec<u8>, v: V, r: &Rec, offset_field: u64) {
    o.extend(offset_field.to_le_bytes());
    o.extend(r.csize.to_le_bytes());
    o.extend(r.size.to_le_bytes());
    o.extend(r.method.to_le_bytes());
    if v == V::V1 {
        o.extend([0u8; 8]);
    }
    o.extend(r.hash);
    if v >= V::V3 {
        if r.method != 0 {
            o.extend((r.blocks.len() as u32).to_le_bytes());
            for b in &r.blocks {
                o.extend(b.0.to_le_bytes());
                o.extend(b.1.to_le_bytes());
            }
        }
        o.push(0);
        o.extend(r.block_size.to_le_bytes());
    }
}

/// Byte ranges of each entry (header and payload) for the isolation oracle.
pub struct Built {
    pub bytes: Vec<u8>,
    pub ranges: Vec<(String, usize, usize)>,
    pub split: usize,
}

/// A file with a hole of `hole` zero bytes at `split`; only the rest is stored.
pub struct Sparse {
    pub bytes: Vec<u8>,
    pub split: u64,
    pub hole: u64,
    pub pos: u64,
}
impl Sparse {
    fn len(&self) -> u64 {
        self.bytes.len() as u64 + self.hole
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() || self.pos >= self.len() {
            return Ok(0);
        }
        let n = if self.pos < self.split {
            let n = b.len().min((self.split - self.pos) as usize);
            b[..n].copy_from_slice(&self.bytes[self.pos as usize..self.pos as usize + n]);
            n
        } else if self.pos < self.split + self.hole {
            let n = (b.len() as u64).min(self.split + self.hole - self.pos) as usize;
            b[..n].fill(0);
            n
        } else {
            let p = (self.pos - self.hole) as usize;
            let n = b.len().min(self.bytes.len() - p);
            b[..n].copy_from_slice(&self.bytes[p..p + n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Sparse {
    /// only behind the hole
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.pos < self.split + self.hole {
            return Err(std::io::Error::other("write into the part before the start of the archive"));
        }
        let p = (self.pos - self.hole) as usize;
        if self.bytes.len() < p + b.len() {
            self.bytes.resize(p + b.len(), 0);
        }
        self.bytes[p..p + b.len()].copy_from_slice(b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// slot: index of the zlib method among the declared compression names (0-based), for v8+
pub fn encode(v: V, mount: &str, ents: &[Ent], block_size: usize, slot: usize) -> Built {
    encode_with_hole(v, mount, ents, block_size, slot, usize::MAX, 0)
}
/// `hole` unused bytes lie before entry number `before` (or before the index); they are not part of the returned bytes.
pub fn encode_with_hole(v: V, mount: &str, ents: &[Ent], block_size: usize, slot: usize, before: usize, hole: u64) -> Built {
    let mut o: Vec<u8> = vec![];
    let mut recs = vec![];
    let mut ranges = vec![];
    let mut split = None;
    for (i, e) in ents.iter().enumerate() {
        if i == before {
            split = Some(o.len());
        }
        let offset = o.len() as u64 + if i >= before { hole } else { 0 };
        let method = if e.compress && v.compresses() {
            if v >= V::V8a {
                slot as u32 + 1
            } else {
                1
            }
        } else {
            0
        };
        let mut payload = vec![];
        let mut blocks = vec![];
        if method != 0 {
            let n = e.data.chunks(block_size).count();
            let hl = 8 * 3 + 4 + 20 + 4 + 16 * n as u64 + 5;
            let base = if v < V::V5 { offset } else { 0 } + hl;
            for c in e.data.chunks(block_size) {
                let mut z = ZlibEncoder::new(vec![], Z::default());
                z.write_all(c).unwrap();
                let z = z.finish().unwrap();
                let s = base + payload.len() as u64;
                payload.extend(&z);
                blocks.push((s, base + payload.len() as u64));
            }
        } else {
            payload = e.data.clone();
        }
        let r = Rec { offset, csize: payload.len() as u64, size: e.data.len() as u64, method, hash: sha(&payload), blocks, block_size: if method == 0 { 0 } else { block_size as u32 } };
        put_header(&mut o, v, &r, 0);
        o.extend(payload);
        ranges.push((e.name.clone(), offset as usize, o.len()));
        recs.push((e.name.clone(), r));
    }
    let split = split.unwrap_or(o.len());
    let index_offset = o.len() as u64 + hole;
    let mut ix = vec![];
    fstr(&mut ix, mount);
    ix.extend((recs.len() as u32).to_le_bytes());
    let mut extra = vec![];
    if v < V::V10 {
        for (n, r) in &recs {
            fstr(&mut ix, n);
            put_header(&mut ix, v, r, r.offset);
        }
    } else {
        let mut enc = vec![];
        let mut dirs: BTreeMap<String, Vec<(String, u32)>> = BTreeMap::new();
        for (n, r) in &recs {
            let pos = enc.len() as u32;
            let (d, f) = match n.rfind('/') {
                Some(i) => (n[..=i].to_string(), n[i + 1..].to_string()),
                None => ("/".to_string(), n.clone()),
            };
            let d = if d == "/" { d } else { d };
            dirs.entry(d).or_default().push((f, pos));
            let mut bits = 0u32;
            let explicit = r.method != 0 && (r.block_size % 2048 != 0 || r.block_size >> 11 >= 0x3f);
            bits |= if explicit { 0x3f } else { r.block_size >> 11 };
            bits |= (r.blocks.len() as u32) << 6;
            bits |= r.method << 23;
            let wide = recs.len() % 2 == 1; // exercise both integer widths
            let far = wide || r.offset > u32::MAX as u64;
            if !wide {
                bits |= if far { 3 << 29 } else { 7 << 29 };
            }
            enc.extend(bits.to_le_bytes());
            if explicit {
                enc.extend(r.block_size.to_le_bytes());
            }
            let mut num = |x: u64, wide: bool| if wide { enc.extend(x.to_le_bytes()) } else { enc.extend((x as u32).to_le_bytes()) };
            num(r.offset, far);
            num(r.size, wide);
            if r.method != 0 {
                num(r.csize, wide);
            }
        }
        ix.extend(0x1234u64.to_le_bytes());
        let mut dir = vec![];
        dir.extend((dirs.len() as u32).to_le_bytes());
        for (d, fs) in &dirs {
            fstr(&mut dir, d);
            dir.extend((fs.len() as u32).to_le_bytes());
            for (f, p) in fs {
                fstr(&mut dir, f);
                dir.extend(p.to_le_bytes());
            }
        }
        let phi = vec![0u8; 8];
        let fixed = ix.len() + 2 * (4 + 8 + 8 + 20) + 4 + enc.len() + 4;
        let phi_off = index_offset + fixed as u64;
        let dir_off = phi_off + phi.len() as u64;
        for (off, d) in [(phi_off, &phi), (dir_off, &dir)] {
            ix.extend(1u32.to_le_bytes());
            ix.extend(off.to_le_bytes());
            ix.extend((d.len() as u64).to_le_bytes());
            ix.extend(sha(d));
        }
        ix.extend((enc.len() as u32).to_le_bytes());
        ix.extend(&enc);
        ix.extend(0u32.to_le_bytes());
        assert_eq!(ix.len(), fixed);
        extra.extend(phi);
        extra.extend(dir);
    }
    o.extend(&ix);
    o.extend(&extra);
    // footer
    if v >= V::V7 {
        o.extend([0u8; 16]);
    }
    if v >= V::V4 {
        o.push(0);
    }
    o.extend([0xE1, 0x12, 0x6F, 0x5A]);
    o.extend(v.num().to_le_bytes());
    o.extend(index_offset.to_le_bytes());
    o.extend((ix.len() as u64).to_le_bytes());
    o.extend(sha(&ix));
    if v == V::V9 {
        o.push(0);
    }
    if v >= V::V8a {
        let n = if v == V::V8a { 4 } else { 5 };
        for i in 0..n {
            let mut b = [0u8; 32];
            if i == slot {
                b[..4].copy_from_slice(b"Zlib");
            } else if i < slot {
                b[..5].copy_from_slice(b"Oodle");
            }
            o.extend(b);
        }
    }
    Built { bytes: o, ranges, split }
}

struct C<'a>(&'a [u8], usize);
impl C<'_> {
    fn n<const N: usize>(&mut self) -> Result<[u8; N], String> {
        let r = self.0.get(self.1..self.1 + N).ok_or("index ends early")?;
        self.1 += N;
        Ok(r.try_into().unwrap())
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.n()?))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.n()?))
    }
    fn fstr(&mut self) -> Result<String, String> {
        let l = i32::from_le_bytes(self.n()?);
        if l >= 0 {
            let r = self.0.get(self.1..self.1 + l as usize).ok_or("string ends early")?;
            self.1 += l as usize;
            if l == 0 {
                return Ok(String::new());
            }
            if r[l as usize - 1] != 0 {
                return Err("string not terminated".into());
            }
            String::from_utf8(r[..l as usize - 1].to_vec()).map_err(|e| e.to_string())
        } else {
            let n = -(l as i64) as usize;
            let mut u = vec![];
            for _ in 0..n {
                u.push(u16::from_le_bytes(self.n()?));
            }
            if u.pop() != Some(0) {
                return Err("string not terminated".into());
            }
            String::from_utf16(&u).map_err(|e| e.to_string())
        }
    }
}

fn get_header(c: &mut C, v: V) -> Result<Rec, String> {
    let offset = c.u64()?;
    let csize = c.u64()?;
    let size = c.u64()?;
    let method = c.u32()?;
    if v == V::V1 {
        c.u64()?;
    }
    let hash = c.n::<20>()?;
    let mut blocks = vec![];
    let mut block_size = 0;
    if v >= V::V3 {
        if method != 0 {
            for _ in 0..c.u32()? {
                blocks.push((c.u64()?, c.u64()?));
            }
        }
        if c.n::<1>()?[0] != 0 {
            return Err("encrypted flag set".into());
        }
        block_size = c.u32()?;
    }
    Ok(Rec { offset, csize, size, method, hash, blocks, block_size })
}

/// Strict decoder: checks every structural field of an archive of version v (<= 9).
pub fn decode(v: V, b: &[u8], min_compress: usize) -> Result<(String, BTreeMap<String, Vec<u8>>, usize), String> {
    let fl = v.footer_len();
    if b.len() < fl {
        return Err("shorter than its footer".into());
    }
    let mut c = C(b, b.len() - fl);
    if v >= V::V7 && c.n::<16>()? != [0; 16] {
        return Err("encryption key guid not zero".into());
    }
    if v >= V::V4 && c.n::<1>()? != [0] {
        return Err("index flagged as encrypted".into());
    }
    if c.n::<4>()? != [0xE1, 0x12, 0x6F, 0x5A] {
        return Err("magic missing".into());
    }
    if c.u32()? != v.num() {
        return Err("wrong version number".into());
    }
    let io = c.u64()? as usize;
    let is = c.u64()? as usize;
    let ih = c.n::<20>()?;
    if v == V::V9 && c.n::<1>()? != [0] {
        return Err("frozen index flag".into());
    }
    let mut methods: Vec<String> = vec![];
    if v >= V::V8a {
        for _ in 0..(if v == V::V8a { 4 } else { 5 }) {
            methods.push(String::from_utf8_lossy(&c.n::<32>()?).trim_end_matches('\0').to_string());
        }
    }
    if io + is + fl != b.len() {
        return Err(format!("index [{io},+{is}] does not end at the footer"));
    }
    let ix = &b[io..io + is];
    if sha(ix) != ih {
        return Err("index hash mismatch".into());
    }
    let mut c = C(ix, 0);
    let mount = c.fstr()?;
    let n = c.u32()?;
    let mut recs = vec![];
    for _ in 0..n {
        let name = c.fstr()?;
        recs.push((name, get_header(&mut c, v)?));
    }
    if c.1 != ix.len() {
        return Err("trailing bytes in index".into());
    }
    let mut out = BTreeMap::new();
    let mut spans = vec![];
    let mut compressed = 0;
    for (name, r) in recs {
        let mut h = C(b, r.offset as usize);
        let r2 = get_header(&mut h, v)?;
        if r2.offset != 0 {
            return Err("in-place header offset not zero".into());
        }
        if (r.csize, r.size, r.method, r.hash, &r.blocks, r.block_size) != (r2.csize, r2.size, r2.method, r2.hash, &r2.blocks, r2.block_size) {
            return Err(format!("{name}: index and in-place headers differ"));
        }
        let ps = h.1;
        let pe = ps + r.csize as usize;
        let payload = b.get(ps..pe).ok_or("payload out of file")?;
        if sha(payload) != r.hash {
            return Err(format!("{name}: payload hash mismatch"));
        }
        spans.push((r.offset as usize, pe));
        let data = if r.method == 0 {
            payload.to_vec()
        } else {
            compressed += 1;
            if v >= V::V8a {
                if methods.get(r.method as usize - 1).map(|s| s.as_str()) != Some("Zlib") {
                    return Err(format!("{name}: method {} is not declared as zlib ({methods:?})", r.method));
                }
            } else if r.method != 1 {
                return Err(format!("{name}: method number {}", r.method));
            }
            if r.size < min_compress as u64 {
                return Err(format!("{name}: small entry is compressed"));
            }
            let base = if v < V::V5 { 0 } else { r.offset };
            let mut expect = ps as u64;
            let mut d = vec![];
            for (i, (s, e)) in r.blocks.iter().enumerate() {
                if s + base != expect || e < s {
                    return Err(format!("{name}: block {i} [{s},{e}] does not start at {expect}"));
                }
                expect = e + base;
                let z = b.get((s + base) as usize..(e + base) as usize).ok_or("block out of file")?;
                let before = d.len();
                ZlibDecoder::new(z).read_to_end(&mut d).map_err(|e| e.to_string())?;
                let got = d.len() - before;
                let last = i + 1 == r.blocks.len();
                if (!last && got as u32 != r.block_size) || (last && got as u32 > r.block_size) {
                    return Err(format!("{name}: block {i} holds {got} bytes, block size {}", r.block_size));
                }
            }
            if expect != pe as u64 {
                return Err(format!("{name}: blocks end at {expect}, payload at {pe}"));
            }
            d
        };
        if data.len() as u64 != r.size {
            return Err(format!("{name}: size field {} but {} bytes", r.size, data.len()));
        }
        if out.insert(name.clone(), data).is_some() {
            return Err(format!("{name} listed twice"));
        }
    }
    spans.sort();
    let mut at = 0;
    for (s, e) in spans {
        if s != at {
            return Err(format!("gap or overlap between entries at {at}..{s}"));
        }
        at = e;
    }
    if at != io {
        return Err("gap before the index".into());
    }
    Ok((mount, out, compressed))
}
