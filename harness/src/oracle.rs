//! What each operation has to answer, written from the git formats and sharing
//! no code with the crate under test. `None` means: must be rejected.
use crate::case::{b, ob};
use crate::util::*;

thread_local!(static UNSURE: std::cell::Cell<bool> = std::cell::Cell::new(false));
pub fn unsure_reset() {
    UNSURE.with(|u| u.set(false))
}
/// The oracles say nothing about numbers written with a plus sign.
pub fn unsure() -> bool {
    UNSURE.with(|u| u.get())
}
fn plus(d: &[u8]) {
    if d.first() == Some(&b'+') {
        UNSURE.with(|u| u.set(true))
    }
}
pub fn is_hex(b: &[u8]) -> bool {
    b.iter().all(|c| c.is_ascii_hexdigit())
}
pub fn lower(b: &[u8]) -> String {
    String::from_utf8(b.to_ascii_lowercase()).unwrap()
}

/// `<kind> <decimal length>\0<body>`
pub fn envelope(raw: &[u8]) -> Option<(&'static str, &[u8])> {
    let nul = raw.iter().position(|&c| c == 0)?;
    if nul + 1 > 28 {
        return None;
    }
    let sp = raw[..nul].iter().position(|&c| c == b' ')?;
    let kind = match &raw[..sp] {
        b"commit" => "commit",
        b"tree" => "tree",
        b"blob" => "blob",
        b"tag" => "tag",
        _ => return None,
    };
    let len = decimal(&raw[sp + 1..nul])?;
    let body = &raw[nul + 1..];
    if body.len() as u64 != len {
        return None;
    }
    Some((kind, body))
}
pub fn decimal(d: &[u8]) -> Option<u64> {
    plus(d);
    if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
        return None;
    }
    d.iter().try_fold(0u64, |a, c| a.checked_mul(10)?.checked_add((c - b'0') as u64))
}
pub fn object(raw: &[u8]) -> Option<String> {
    let (k, body) = envelope(raw)?;
    body_text(k, body)
}
pub fn body_text(kind: &str, body: &[u8]) -> Option<String> {
    match kind {
        "blob" => Some(format!("ok blob {}", b(body))),
        "tree" => tree(body),
        "commit" => commit(body),
        "tag" => tag(body),
        _ => None,
    }
}
pub fn tree(body: &[u8]) -> Option<String> {
    let mut rest = body;
    let mut n = 0;
    let mut s = String::new();
    while !rest.is_empty() {
        let sp = rest.iter().position(|&c| c == b' ')?;
        let mode = octal(&rest[..sp])?;
        rest = &rest[sp + 1..];
        let nul = rest.iter().position(|&c| c == 0)?;
        let name = &rest[..nul];
        rest = &rest[nul + 1..];
        if rest.len() < 20 {
            return None;
        }
        s.push_str(&format!(" ({:o} {} {})", mode, b(name), hex(&rest[..20])));
        rest = &rest[20..];
        n += 1;
    }
    Some(format!("ok tree {}{}", n, s))
}
fn octal(d: &[u8]) -> Option<u16> {
    plus(d);
    if d.is_empty() {
        return None;
    }
    let mut v = 0u32;
    for c in d {
        if !(b'0'..=b'7').contains(c) {
            return None;
        }
        v = v * 8 + (c - b'0') as u32;
        if v > 0xffff {
            return None;
        }
    }
    Some(v as u16)
}
fn line<'a>(rest: &mut &'a [u8], prefix: &[u8]) -> Option<Option<&'a [u8]>> {
    if !rest.starts_with(prefix) {
        return Some(None);
    }
    let r = &rest[prefix.len()..];
    let nl = r.iter().position(|&c| c == b'\n')?;
    *rest = &r[nl + 1..];
    Some(Some(&r[..nl]))
}
fn id_line(rest: &mut &[u8], prefix: &[u8]) -> Option<Option<String>> {
    match line(rest, prefix)? {
        None => Some(None),
        Some(l) if l.len() == 40 && is_hex(l) => Some(Some(lower(l))),
        Some(_) => None,
    }
}
fn sig_line(rest: &mut &[u8], prefix: &[u8]) -> Option<Option<String>> {
    match line(rest, prefix)? {
        None => Some(None),
        Some(l) => Some(Some(signature(l)?)),
    }
}
fn padding(c: u8) -> bool {
    c <= 0x20 || b".,:;<>\"\\'".contains(&c)
}
/// The name is what comes before the last " <" which has a ">" after it, the
/// email what comes between that and the last ">"; both without leading crud.
pub fn signature_parts(l: &[u8]) -> Option<(&[u8], &[u8], Option<&[u8]>, Option<&[u8]>)> {
    let g = l.iter().rposition(|&c| c == b'>')?;
    let lt = (0..g).rev().find(|&i| i + 2 <= g && &l[i..i + 2] == b" <")?;
    let p0 = l.iter().take_while(|c| padding(**c)).count().min(lt);
    let e = &l[lt + 2..g];
    let p1 = e.iter().take_while(|c| padding(**c)).count();
    let rest = &l[g + 1..];
    let digits = |s: &[u8]| s.iter().take_while(|c| c.is_ascii_digit()).count();
    let (mut time, mut zone) = (None, None);
    if rest.first() == Some(&b' ') {
        let n = digits(&rest[1..]);
        if n > 0 {
            time = Some(&rest[1..1 + n]);
            let r = &rest[1 + n..];
            if r.len() > 2 && r[0] == b' ' && (r[1] == b'+' || r[1] == b'-') {
                let m = digits(&r[2..]);
                if m > 0 {
                    zone = Some(&r[1..2 + m]);
                }
            }
        }
    }
    Some((&l[p0..lt], &e[p1..], time, zone))
}
pub fn signature(l: &[u8]) -> Option<String> {
    let (n, e, t, z) = signature_parts(l)?;
    Some(format!("name {} email {} time {} zone {}", b(n), b(e), ob(t), ob(z)))
}
pub fn commit(body: &[u8]) -> Option<String> {
    let mut r = body;
    let tree = id_line(&mut r, b"tree ")??;
    let mut parents = vec![];
    while let Some(p) = id_line(&mut r, b"parent ")? {
        parents.push(p);
    }
    let author = sig_line(&mut r, b"author ")??;
    while sig_line(&mut r, b"author ")?.is_some() {}
    let committer = sig_line(&mut r, b"committer ")??;
    let mut encoding = None;
    while !r.starts_with(b"\n") {
        match line(&mut r, b"encoding ")? {
            Some(e) => encoding = Some(e),
            None => {
                line(&mut r, b"")??;
            }
        }
    }
    Some(format!(
        "ok commit tree {} parents {:?} author ({}) committer ({}) encoding {} message {}",
        tree,
        parents,
        author,
        committer,
        ob(encoding),
        b(&r[1..])
    ))
}
pub fn tag(body: &[u8]) -> Option<String> {
    let mut r = body;
    let object = id_line(&mut r, b"object ")??;
    let kind = match line(&mut r, b"type ")?? {
        b"commit" => "commit",
        b"tree" => "tree",
        b"blob" => "blob",
        b"tag" => "tag",
        _ => return None,
    };
    let name = line(&mut r, b"tag ")??;
    let tagger = sig_line(&mut r, b"tagger ")?;
    let message = if r.starts_with(b"\n") { Some(&r[1..]) } else { None };
    Some(format!(
        "ok tag {} object {} kind {} tagger ({}) message {}",
        b(name),
        object,
        kind,
        tagger.unwrap_or_else(|| "none".into()),
        ob(message)
    ))
}

// ---- packs ----------------------------------------------------------------

/// little-endian base 128: value and length
pub fn size_varint_dec(s: &[u8], max: usize) -> Option<(u64, usize)> {
    let n = s.iter().position(|c| c & 0x80 == 0)? + 1;
    if n > max {
        return None;
    }
    let mut v = 0u128;
    for (i, c) in s[..n].iter().enumerate() {
        v |= ((c & 0x7f) as u128) << (7 * i);
    }
    if v > u64::MAX as u128 {
        return None;
    }
    Some((v as u64, n))
}
pub fn entry_header_dec(s: &[u8]) -> Option<(u8, u64, usize)> {
    let n = s.iter().position(|c| c & 0x80 == 0)? + 1;
    if n > 10 {
        return None;
    }
    let kind = (s[0] >> 4) & 7;
    if kind == 0 || kind == 5 {
        return None;
    }
    let mut v = (s[0] & 15) as u128;
    for (i, c) in s[1..n].iter().enumerate() {
        v |= ((c & 0x7f) as u128) << (4 + 7 * i);
    }
    if v > u64::MAX as u128 {
        return None;
    }
    Some((kind, v as u64, n))
}
pub fn ofs_dec(s: &[u8]) -> Option<(u64, usize)> {
    let n = s.iter().position(|c| c & 0x80 == 0)? + 1;
    if n > 10 {
        return None;
    }
    let mut v = (s[0] & 0x7f) as u128;
    for c in &s[1..n] {
        v = ((v + 1) << 7) | (c & 0x7f) as u128;
    }
    Some((v.min(u64::MAX as u128) as u64, n))
}
pub fn delta(base: &[u8], d: &[u8]) -> Option<Vec<u8>> {
    let (bl, n) = size_varint_dec(d, 10)?;
    let (rl, m) = size_varint_dec(&d[n..], 10)?;
    if bl != base.len() as u64 {
        return None;
    }
    let mut s = &d[n + m..];
    let mut out: Vec<u8> = Vec::new();
    while let Some((&op, r)) = s.split_first() {
        s = r;
        if op == 0 {
            return None;
        }
        if op & 0x80 == 0 {
            let k = op as usize;
            if s.len() < k {
                return None;
            }
            out.extend(&s[..k]);
            s = &s[k..];
        } else {
            let mut get = |bit: u8| -> Option<usize> {
                if op & bit != 0 {
                    let (&x, r) = s.split_first()?;
                    s = r;
                    Some(x as usize)
                } else {
                    Some(0)
                }
            };
            let off = get(1)? | get(2)? << 8 | get(4)? << 16 | get(8)? << 24;
            let mut len = get(16)? | get(32)? << 8 | get(64)? << 16;
            if len == 0 {
                len = 0x10000;
            }
            if off + len > base.len() {
                return None;
            }
            out.extend(&base[off..off + len]);
        }
    }
    if out.len() as u64 != rl {
        return None;
    }
    Some(out)
}

// ---- references -------------------------------------------------------------

/// drop trailing unicode white space
pub fn trim_end(s: &[u8]) -> &[u8] {
    let mut n = s.len();
    'outer: while n > 0 {
        for k in 1..=3.min(n) {
            if let Ok(t) = std::str::from_utf8(&s[n - k..n]) {
                let mut cs = t.chars();
                if let (Some(c), None) = (cs.next(), cs.next()) {
                    if c.is_whitespace() {
                        n -= k;
                        continue 'outer;
                    }
                }
            }
        }
        break;
    }
    &s[..n]
}
pub enum Ref<'a> {
    Direct(String),
    Symbolic(&'a [u8], Option<String>),
}
pub fn reference(content: &[u8]) -> Option<Ref<'_>> {
    let l = content.split_inclusive(|&c| c == b'\n').find(|l| !b"\n #".contains(&l[0]))?;
    if let Some(n) = l.strip_prefix(b"ref: ") {
        let n = trim_end(n);
        return if n.is_empty() { None } else { Some(Ref::Symbolic(n, None)) };
    }
    let (peel, rest) = match l.iter().position(|&c| c == b' ') {
        Some(i) => (Some(trim_end(&l[..i])), &l[i + 1..]),
        None => (None, l),
    };
    let t = trim_end(rest);
    if rest.contains(&b'/') {
        let p = match peel {
            None => None,
            Some(p) if p.len() == 40 && is_hex(p) => Some(lower(p)),
            Some(_) => return None,
        };
        if t.is_empty() { None } else { Some(Ref::Symbolic(t, p)) }
    } else if t.len() == 40 && is_hex(t) {
        Some(Ref::Direct(lower(t)))
    } else {
        None
    }
}
pub fn ref_text(content: &[u8]) -> String {
    match reference(content) {
        None => "err invalid".into(),
        Some(Ref::Direct(h)) => format!("ok direct {}", h),
        Some(Ref::Symbolic(n, _)) => format!("ok symbolic {}", b(n)),
    }
}
