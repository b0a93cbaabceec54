//! Deterministic generator, git encoders and scratch repositories.
//! Everything here is written from the git format documentation and shares no
//! code with the crate under test.
use flate2::{write::ZlibEncoder, Compression};
use sha1::{Digest, Sha1};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};

pub type Id20 = [u8; 20];

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn from(&mut self, set: &[u8], n: usize) -> Vec<u8> {
        (0..n).map(|_| set[self.below(set.len())]).collect()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn id(&mut self) -> Id20 {
        let mut a = [0; 20];
        for b in a.iter_mut() {
            *b = self.byte();
        }
        a
    }
}

pub fn sha1(b: &[u8]) -> Id20 {
    Sha1::digest(b).into()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn zlib(data: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn zlib_level(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
fn adler(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in data {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16) | a
}
/// A zlib stream made of stored blocks with exactly the given contents; empty
/// parts become empty stored blocks.
pub fn zlib_stored(parts: &[&[u8]]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let mut all = Vec::new();
    let parts = parts.iter().flat_map(|p| if p.is_empty() { vec![*p] } else { p.chunks(65535).collect() });
    for p in parts {
        out.push(0);
        out.extend((p.len() as u16).to_le_bytes());
        out.extend((!(p.len() as u16)).to_le_bytes());
        out.extend(p);
        all.extend(p);
    }
    out.extend([1, 0, 0, 0xff, 0xff]);
    out.extend(adler(&all).to_be_bytes());
    out
}
/// A zlib stream whose decoder yields `data` in pieces cut at `cuts`: between
/// two pieces there is more than one 8 KiB input buffer of empty blocks.
pub fn zlib_chunked(data: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = Vec::new();
    let mut last = 0;
    for &c in cuts {
        let c = c.min(data.len());
        if c <= last {
            continue;
        }
        parts.push(&data[last..c]);
        for _ in 0..3400 {
            parts.push(&[]);
        }
        last = c;
    }
    let mut rest = &data[last..];
    while !rest.is_empty() {
        let n = rest.len().min(65535);
        parts.push(&rest[..n]);
        rest = &rest[n..];
    }
    zlib_stored(&parts)
}

pub fn obj_raw(kind: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {}\0", kind, body.len()).into_bytes();
    v.extend(body);
    v
}

// ---- pack encoding --------------------------------------------------------

pub fn entry_header(ty: u8, len: u64) -> Vec<u8> {
    let mut v = Vec::new();
    let mut b = (ty << 4) | (len & 15) as u8;
    let mut rest = len >> 4;
    while rest != 0 {
        v.push(b | 0x80);
        b = (rest & 0x7f) as u8;
        rest >>= 7;
    }
    v.push(b);
    v
}
/// git's "offset encoding" for OFS_DELTA.
pub fn ofs_varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![(n & 0x7f) as u8];
    n >>= 7;
    while n != 0 {
        n -= 1;
        v.push(0x80 | (n & 0x7f) as u8);
        n >>= 7;
    }
    v.reverse();
    v
}
pub fn size_varint(mut n: u64) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

#[derive(Clone, Debug)]
pub enum Cmd {
    Copy { off: u32, len: u32 },
    Insert(Vec<u8>),
}
pub fn encode_cmd(c: &Cmd, out: &mut Vec<u8>) {
    match c {
        Cmd::Insert(d) => {
            assert!(!d.is_empty() && d.len() < 128);
            out.push(d.len() as u8);
            out.extend(d);
        }
        Cmd::Copy { off, len } => {
            let mut op = 0x80u8;
            let mut args = Vec::new();
            for i in 0..4 {
                let b = (off >> (8 * i)) as u8;
                if b != 0 {
                    op |= 1 << i;
                    args.push(b);
                }
            }
            let l = if *len == 0x10000 { 0 } else { *len };
            for i in 0..3 {
                let b = (l >> (8 * i)) as u8;
                if b != 0 {
                    op |= 0x10 << i;
                    args.push(b);
                }
            }
            out.push(op);
            out.extend(args);
        }
    }
}
pub fn encode_delta(base_len: u64, res_len: u64, cmds: &[Cmd]) -> Vec<u8> {
    let mut v = size_varint(base_len);
    v.extend(size_varint(res_len));
    for c in cmds {
        encode_cmd(c, &mut v);
    }
    v
}
pub fn apply_cmds(base: &[u8], cmds: &[Cmd]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in cmds {
        match c {
            Cmd::Insert(d) => out.extend(d),
            Cmd::Copy { off, len } => {
                out.extend(&base[*off as usize..*off as usize + *len as usize])
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum PEntry {
    Full { ty: u8, data: Vec<u8> },
    /// base given as index into the entry list
    Ofs { base: usize, delta: Vec<u8> },
    Ref { base: Id20, delta: Vec<u8> },
    Raw(Vec<u8>),
}
pub struct Pack {
    pub bytes: Vec<u8>,
    pub offsets: Vec<u64>,
    pub sum: Id20,
}
pub fn build_pack(entries: &[PEntry], gaps: &[usize], level: u32, version: u32) -> Pack {
    build_pack_with(entries, gaps, level, version, &mut |_| 0)
}
/// the length in a header may be written with more bytes than it needs
pub fn build_pack_with(entries: &[PEntry], gaps: &[usize], level: u32, version: u32, pad: &mut dyn FnMut(usize) -> usize) -> Pack {
    let mut entry_header = |ty: u8, len: u64| {
        let mut v = entry_header(ty, len);
        for _ in 0..pad(v.len()) {
            *v.last_mut().unwrap() |= 0x80;
            v.push(0);
        }
        v
    };
    let mut b = b"PACK".to_vec();
    b.extend(version.to_be_bytes());
    b.extend((entries.len() as u32).to_be_bytes());
    let mut offsets = Vec::new();
    for (i, e) in entries.iter().enumerate() {
        // padding lets tests choose delta distances
        b.extend(std::iter::repeat(0u8).take(gaps.get(i).copied().unwrap_or(0)));
        let off = b.len() as u64;
        offsets.push(off);
        match e {
            PEntry::Full { ty, data } => {
                b.extend(entry_header(*ty, data.len() as u64));
                b.extend(zlib_level(data, level));
            }
            PEntry::Ofs { base, delta } => {
                b.extend(entry_header(6, delta.len() as u64));
                b.extend(ofs_varint(off - offsets[*base]));
                b.extend(zlib_level(delta, level));
            }
            PEntry::Ref { base, delta } => {
                b.extend(entry_header(7, delta.len() as u64));
                b.extend(base);
                b.extend(zlib_level(delta, level));
            }
            PEntry::Raw(r) => b.extend(r),
        }
    }
    let sum = sha1(&b);
    b.extend(sum);
    Pack { bytes: b, offsets, sum }
}
pub fn fan_out(ids: &[Id20]) -> Vec<u8> {
    let mut v = Vec::new();
    for i in 0..256 {
        let n = ids.iter().filter(|x| (x[0] as usize) <= i).count() as u32;
        v.extend(n.to_be_bytes());
    }
    v
}
pub fn build_idx_v1(ents: &[(Id20, u64)], sum: &Id20) -> Vec<u8> {
    let mut e = ents.to_vec();
    e.sort();
    let ids: Vec<Id20> = e.iter().map(|x| x.0).collect();
    let mut v = fan_out(&ids);
    for (id, off) in &e {
        v.extend((*off as u32).to_be_bytes());
        v.extend(id);
    }
    v.extend(sum);
    let s = sha1(&v);
    v.extend(s);
    v
}
/// `large(i)` forces entry i (in sorted order) through the 64-bit table.
pub fn build_idx_v2(
    ents: &[(Id20, u64)],
    sum: &Id20,
    mut large: impl FnMut(usize, u64) -> bool,
) -> Vec<u8> {
    let mut e = ents.to_vec();
    e.sort();
    let ids: Vec<Id20> = e.iter().map(|x| x.0).collect();
    let mut v = b"\xfftOc\0\0\0\x02".to_vec();
    v.extend(fan_out(&ids));
    for id in &ids {
        v.extend(id);
    }
    for (i, _) in ids.iter().enumerate() {
        v.extend((0xC0DE_0000u32 ^ i as u32).to_be_bytes());
    }
    let mut big: Vec<u64> = Vec::new();
    for (i, (_, off)) in e.iter().enumerate() {
        if *off >= 0x8000_0000 || large(i, *off) {
            v.extend((0x8000_0000u32 | big.len() as u32).to_be_bytes());
            big.push(*off);
        } else {
            v.extend((*off as u32).to_be_bytes());
        }
    }
    for o in big {
        v.extend(o.to_be_bytes());
    }
    v.extend(sum);
    let s = sha1(&v);
    v.extend(s);
    v
}

// ---- scratch repositories -------------------------------------------------

pub struct Scratch {
    pub root: PathBuf,
}
static COUNTER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var_os("RG_SCRATCH")
            .map(PathBuf::from)
            .unwrap_or_else(std::env::temp_dir);
        let n = COUNTER.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let root = base.join(format!("rg-{}-{}", std::process::id(), n));
        fs::create_dir_all(root.join(".git/objects/pack")).unwrap();
        fs::create_dir_all(root.join(".git/refs/heads")).unwrap();
        fs::create_dir_all(root.join(".git/refs/tags")).unwrap();
        Scratch { root }
    }
    pub fn git(&self) -> PathBuf {
        self.root.join(".git")
    }
    pub fn open(&self) -> rusty_git::repository::Repository {
        rusty_git::repository::Repository::open(&self.root).unwrap()
    }
    pub fn loose_path(&self, id: &Id20) -> PathBuf {
        let h = hex(id);
        self.git().join("objects").join(&h[..2]).join(&h[2..])
    }
    pub fn put_loose_at(&self, id: &Id20, compressed: &[u8]) {
        let p = self.loose_path(id);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, compressed).unwrap();
    }
    pub fn put_file(&self, rel: &str, data: &[u8]) {
        let p = self.git().join(rel);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, data).unwrap();
    }
    pub fn put_pack(&self, name: &str, pack: &[u8], idx: &[u8]) {
        let d = self.git().join("objects/pack");
        fs::write(d.join(format!("{}.pack", name)), pack).unwrap();
        fs::write(d.join(format!("{}.idx", name)), idx).unwrap();
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
    }
}
pub fn rid(id: &Id20) -> rusty_git::object::Id {
    rusty_git::object::Id::from_bytes(id)
}
pub fn write(p: &Path, b: &[u8]) {
    fs::write(p, b).unwrap()
}
