//! One campaign per property.
use crate::case::*;
use crate::gen::*;
use crate::oracle;
use crate::util::*;

pub type Gen = fn(&mut Rng) -> Case;

/// the generators of a property, with weights
pub fn gens(prop: &str) -> Vec<(Gen, usize)> {
    match prop {
        "P01" => vec![(write_read, 8), (write_object_parse, 4), (write_among, 3), (hash, 4)],
        "P02" => vec![(fault_write, 1)],
        "P03" => vec![(envelope, 6), (envelope_valid, 4), (envelope_hook, 12), (envelope_reject, 6)],
        "P04" => vec![(chunked_parse, 12), (chunked_error, 4), (chunked_loose, 2), (chunked_delta, 4), (chunked_small, 6), (chunked_delta_error, 3), (chunked_header_error, 1)],
        "P05" => vec![(tree_case, 6), (tree_mut, 6), (tree_hook, 8)],
        "P06" => vec![(commit_case, 5), (commit_mut, 6), (commit_hook, 8)],
        "P07" => vec![(tag_case, 5), (tag_mut, 6), (tag_hook, 8)],
        "P08" => vec![(signature_case, 10), (signature_wild, 10)],
        "P09" => vec![(id_round, 5), (id_text, 10), (direct_text_case, 3), (id_cmp, 3)],
        "P10" => vec![(short_cmp, 10), (short_text, 5), (id_cmp, 3), (index_short, 4)],
        "P11" => vec![(index_lookup, 6), (index_pack, 3), (index_short, 4)],
        "P12" => vec![(index_bad, 6), (index_bad_hook, 8)],
        "P13" => vec![(entry_header_case, 10), (offset_case, 10), (ofs_distance, 1)],
        "P14" => vec![(delta_hook, 8), (delta_mut, 10), (delta_public, 4), (delta_big, 1), (chunked_delta_error, 2)],
        "P15" => vec![(chain, 6), (chain_deep, 1), (chain_bad, 4)],
        "P16" => vec![(pack_bad, 8), (pack_versions, 2)],
        "P17" => vec![(lookup_some, 8), (lookup_errors, 5)],
        "P18" => vec![(ref_valid, 8), (ref_mut, 8), (ref_pieces, 3), (ref_db, 3)],
        "P19" => vec![(peel_chain, 8), (peel_cycle, 3), (peel_line, 3)],
        "P20" => vec![(names_case, 8), (names_missing, 2)],
        "P21" => vec![(ref_escape, 8), (ref_inside, 3)],
        "P22" => vec![(panic_objects, 10), (panic_objects_hook, 10), (panic_ids, 3)],
        "P23" => vec![(panic_packs, 8), (panic_packs_hook, 8)],
        "P24" => vec![(panic_refs, 10), (panic_ref_names, 4)],
        "P25" => vec![(memory_lengths, 6), (memory_inputs, 3)],
        _ => panic!("unknown property"),
    }
}
pub const ALL: [&str; 25] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23",
    "P24", "P25",
];
fn is(s: impl Into<String>) -> Expect {
    Expect::Is(s.into())
}
fn kind(r: &mut Rng) -> &'static str {
    *r.pick(&KINDS)
}

// ---- P01 / P02 ----------------------------------------------------------------

fn write_ops(c: &mut Case, data: &[u8], r: &mut Rng) -> Id20 {
    let id = sha1(data);
    c.op("write", &[data], is(format!("ok {}", hex(&id))));
    c.op("stored", &[&id], is(format!("ok {}", b(data))));
    let chunk = *r.pick(&[1usize, 3, 100, 8192, 70000]);
    let chunk = if data.len() > 5000 { chunk.max(100) } else { chunk };
    c.op("raw", &[&id, &num(chunk as u64)], is(format!("ok {}", b(data))));
    id
}
fn write_read(r: &mut Rng) -> Case {
    let mut c = Case::new("write any bytes, read them back by the id");
    let d = blob(r);
    let id = write_ops(&mut c, &d, r);
    if r.chance(1, 2) {
        c.op("reopen", &[], Expect::Any);
        c.op("raw", &[&id, &num(4096)], is(format!("ok {}", b(&d))));
    }
    if r.chance(1, 2) {
        write_ops(&mut c, &d, r);
    }
    c
}
fn write_object_parse(r: &mut Rng) -> Case {
    let mut c = Case::new("write an object, parse it back");
    let k = kind(r);
    let bd = body(r, k, false);
    let raw = obj_raw(k, &bd);
    let id = write_ops(&mut c, &raw, r);
    c.object(&id, expect_raw(&raw));
    c
}
fn write_among(r: &mut Rng) -> Case {
    let mut c = Case::new("write several things, read all of them");
    let mut all: Vec<(Id20, Vec<u8>)> = vec![];
    for _ in 0..r.range(2, 6) {
        let d = if r.chance(1, 4) && !all.is_empty() { r.pick(&all).1.clone() } else { small(r, 400) };
        let id = write_ops(&mut c, &d, r);
        all.push((id, d));
        if r.chance(1, 4) {
            c.op("reopen", &[], Expect::Any);
        }
    }
    for (id, d) in &all {
        c.op("raw", &[id, &num(64)], is(format!("ok {}", b(d))));
        c.op("stored", &[id], is(format!("ok {}", b(d))));
    }
    c
}
fn hash(r: &mut Rng) -> Case {
    let mut c = Case::new("the id of some bytes");
    let d = blob(r);
    c.op("id-hash", &[&d], is(format!("ok {}", hex(&sha1(&d)))));
    c
}
fn fault_write(r: &mut Rng) -> Case {
    let mut c = Case::new("stop or fail a write at each of its file operations");
    let mode = *r.pick(&["kill", "kill", "after", "eio", "nospc", "short", "intr", "full", "full", "dead", "race", "raceio"]);
    let n = *r.pick(&[0usize, 10, 300, 40_000, 200_000]);
    let d = r.bytes(n);
    let start = if mode.starts_with("race") { r.below(2) } else { r.below(4) } as u64;
    c.op("faults", &[&d, &num(start), mode.as_bytes()], Expect::OneOf(vec!["skipped".into()].into_iter().chain((1..4100).map(|n| format!("ok {}", n))).collect()));
    // the text of the expectation is long: only success matters
    c.ops[0].expect = Expect::Ok;
    c
}

// ---- P03 ------------------------------------------------------------------------

fn len_text(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(12) {
        0 => format!("{}", n + 1).into_bytes(),
        1 => format!("{}", n.wrapping_sub(1)).into_bytes(),
        2 => format!("0{}", n).into_bytes(),
        3 => format!("{} ", n).into_bytes(),
        4 => format!(" {}", n).into_bytes(),
        5 => format!("-{}", n).into_bytes(),
        6 => b"".to_vec(),
        7 => format!("{:x}", n).into_bytes(),
        8 => r.pick(&[&b"18446744073709551615"[..], b"18446744073709551616", b"99999999999999999999", b"9223372036854775808", b"4294967296", b"18446744073709551619", b"99999999999999999999999"]).to_vec(),
        _ => format!("{}", n).into_bytes(),
    }
}
fn envelope_raw(r: &mut Rng) -> Vec<u8> {
    let k: Vec<u8> = match r.below(8) {
        0 => r.pick(&[&b"blob2"[..], b"blo", b"Blob", b"commits", b"", b"tagg", b"trees", b"ofs-delta", b"blob\xff", b" blob", b"TAG", b"tag\0", b"Tag", b"BLOB", b"TREE", b"Tree", b"COMMIT", b"Commit", b"tre", b"commi", b"ta", b"blob\n", b"ref-delta", b"reserved", b"none"]).to_vec(),
        1 => b"blob".to_vec(),
        _ => kind(r).as_bytes().to_vec(),
    };
    // the body of the kind it is, or looks like
    let kn = KINDS.iter().find(|x| k.len() > 1 && x.as_bytes()[..2] == k[..2].to_ascii_lowercase()[..]).unwrap_or(&"blob");
    let mut bd = if *kn == "blob" { small(r, 60) } else { body(r, kn, false) };
    if bd.len() > 3000 {
        bd.truncate(3000);
    }
    let l = len_text(r, bd.len());
    let mut v = k;
    v.extend(match r.below(16) {
        0 => &b"  "[..],
        1 => b"",
        2 => b"\t",
        _ => b" ",
    });
    v.extend(l);
    if !r.chance(1, 20) {
        v.push(0);
    }
    v.extend(&bd);
    match r.below(8) {
        0 => v.push(r.byte()),
        1 => {
            let n = v.len();
            v.truncate(n - 1)
        }
        2 => mutate(r, &mut v),
        _ => (),
    }
    v
}
fn envelope(r: &mut Rng) -> Case {
    let mut c = Case::new("a loose object with any envelope");
    let id = r.id();
    let raw = envelope_raw(r);
    let z = compress(r, &raw);
    c.loose(&id, &z);
    c.object(&id, expect_raw(&raw));
    c
}
fn envelope_hook(r: &mut Rng) -> Case {
    let mut c = Case::new("an object with any envelope, from a reader");
    let raw = envelope_raw(r);
    let s = script(r, false);
    c.op("h-parse", &[&raw, &s], expect_raw(&raw));
    c
}
fn envelope_valid(r: &mut Rng) -> Case {
    let mut c = Case::new("a valid object of every kind");
    let k = kind(r);
    let bd = body(r, k, false);
    let id = r.id();
    store(r, &mut c, &id, k, &bd);
    c.object(&id, expect_body(k, &bd));
    c
}
fn envelope_reject(r: &mut Rng) -> Case {
    let mut c = Case::new("a blob whose declared length is not its length");
    let n = *r.pick(&[0usize, 1, 5, 100, 8000, 65_536, 70_000]);
    let extra = *r.pick(&[1usize, 1, 2, 7, 100, 9000, 65_536, 100_000]);
    let d = r.bytes(n);
    let raw = if r.chance(1, 2) {
        let mut v = format!("blob {}\0", n + extra).into_bytes();
        v.extend(&d);
        v
    } else {
        let mut v = format!("blob {}\0", n).into_bytes();
        v.extend(&d);
        v.extend(r.bytes(extra));
        v
    };
    let id = r.id();
    let z = compress(r, &raw);
    c.loose(&id, &z);
    c.object(&id, Expect::NotOk);
    // a pack entry whose header length differs from its data
    let declared = if r.chance(1, 2) { n + extra } else { n.saturating_sub(extra) };
    let mut e = entry_header(3, declared as u64);
    e.extend(zlib(&d));
    let same = declared == n;
    let p = build_pack(&[PEntry::Raw(e)], &[], 6, 2);
    let id2 = r.id();
    c.pack("p", &p.bytes, &build_idx_v2(&[(id2, p.offsets[0])], &p.sum, |_, _| false));
    c.op("reopen", &[], Expect::Any);
    if !same {
        c.object(&id2, Expect::NotOk);
    }
    c
}

// ---- P04 ------------------------------------------------------------------------

fn chunked_parse(r: &mut Rng) -> Case {
    let mut c = Case::new("the same object however its bytes arrive");
    let k = kind(r);
    let mut bd = body(r, k, false);
    if bd.len() > 5000 && k == "blob" {
        bd.truncate(5000);
    }
    let mut raw = obj_raw(k, &bd);
    if r.chance(1, 6) {
        mutate(r, &mut raw);
    }
    let e = expect_raw(&raw);
    for _ in 0..3 {
        let s = script(r, true);
        c.op("h-parse", &[&raw, &s], e.clone());
    }
    c
}
fn chunked_small(r: &mut Rng) -> Case {
    let mut c = Case::new("a small object cut at every place");
    let n = r.below(6);
    let d = r.bytes(n);
    let raw = obj_raw("blob", &d);
    for i in 1..raw.len() as u8 {
        c.op("h-parse", &[&raw, &[i]], expect_raw(&raw));
        c.op("h-parse", &[&raw, &[i, 0, 1, 0]], expect_raw(&raw));
        let j = r.range(1, 3) as u8;
        c.op("h-parse", &[&raw, &[i, j]], expect_raw(&raw));
    }
    c
}
fn chunked_error(r: &mut Rng) -> Case {
    let mut c = Case::new("a read error before the end is reported");
    let k = kind(r);
    let mut bd = body(r, k, false);
    if bd.len() > 2000 && k == "blob" {
        bd.truncate(2000);
    }
    let raw = obj_raw(k, &bd);
    if !matches!(expect_raw(&raw), Expect::Is(_)) {
        return c;
    }
    let mut s = vec![];
    let mut total = 0;
    for _ in 0..r.below(30) {
        let n = r.below(40);
        if total + n >= raw.len() {
            break;
        }
        total += n;
        s.push(n as u8);
    }
    let e = *r.pick(&[255, 255, 254, 253]);
    // for good
    s.extend([e; 8]);
    c.op("h-parse", &[&raw, &s], if e == 254 { Expect::NotOk } else { is("err io") });
    c
}
fn chunked_delta_error(r: &mut Rng) -> Case {
    let mut c = Case::new("a read error before the end of a delta is reported");
    let n = r.range(0, 600);
    let base = r.bytes(n);
    let (d, _) = delta_bytes(r, &base);
    let stop = if r.chance(1, 2) { d.len() } else { r.below(d.len() + 1) };
    let mut s = vec![];
    let mut total = 0;
    while total < stop && s.len() < 200 {
        let n = r.range(1, 100).min(stop - total);
        total += n;
        s.push(n as u8);
    }
    let e = *r.pick(&[255, 255, 254, 253]);
    s.extend([e; 8]);
    c.op("h-delta", &[&base, &d, &s], Expect::NotOk);
    c
}
fn chunked_header_error(r: &mut Rng) -> Case {
    let mut c = Case::new("a read error in the header of a pack entry is reported");
    let shift = r.below(60);
    let d = entry_header(*r.pick(&[1, 2, 3, 4, 6, 7]), (r.next() & (u64::MAX >> 4)) >> shift);
    let mut s: Vec<u8> = vec![];
    let n = r.below(d.len());
    if n > 0 {
        s.push(n as u8);
    }
    s.extend([*r.pick(&[255, 254, 253]); 8]);
    c.op("h-header", &[&d, &s], Expect::NotOk);
    c
}
fn chunked_loose(r: &mut Rng) -> Case {
    let mut c = Case::new("a stored object whose stream yields its data in pieces");
    let k = kind(r);
    let bd = body(r, k, false);
    let raw = obj_raw(k, &bd);
    let mut cuts: Vec<usize> = (0..r.range(1, 4)).map(|_| 1 + r.below(raw.len().min(24))).collect();
    cuts.sort();
    let id = r.id();
    c.loose(&id, &zlib_chunked(&raw, &cuts));
    c.object(&id, expect_raw(&raw));
    c
}
fn chunked_delta(r: &mut Rng) -> Case {
    let mut c = Case::new("the same delta however its bytes arrive");
    let n = r.range(0, 3000);
    let base = r.bytes(n);
    let (d, out) = delta_bytes(r, &base);
    for _ in 0..3 {
        let s = script(r, true);
        c.op("h-delta", &[&base, &d, &s], is(format!("ok {}", b(&out))));
    }
    c
}

// ---- P05 .. P08 -------------------------------------------------------------------

fn body_case(r: &mut Rng, k: &'static str, wild: bool, mutated: bool, hook: bool) -> Case {
    let mut c = Case::new(format!("decode a {}{}", k, if mutated { ", damaged" } else { "" }));
    let mut bd = body(r, k, wild);
    if mutated {
        mutate(r, &mut bd);
    }
    let e = expect_body(k, &bd);
    if hook {
        let raw = obj_raw(k, &bd);
        let s = script(r, false);
        c.op("h-parse", &[&raw, &s], e);
    } else {
        let id = r.id();
        store(r, &mut c, &id, k, &bd);
        c.object(&id, e);
    }
    c
}
fn tree_case(r: &mut Rng) -> Case {
    body_case(r, "tree", false, false, false)
}
fn tree_mut(r: &mut Rng) -> Case {
    body_case(r, "tree", false, true, false)
}
fn tree_hook(r: &mut Rng) -> Case {
    let m = r.chance(1, 2);
    body_case(r, "tree", false, m, true)
}
fn commit_case(r: &mut Rng) -> Case {
    body_case(r, "commit", false, false, false)
}
fn commit_mut(r: &mut Rng) -> Case {
    body_case(r, "commit", true, true, false)
}
fn commit_hook(r: &mut Rng) -> Case {
    let m = r.chance(1, 2);
    body_case(r, "commit", false, m, true)
}
fn tag_case(r: &mut Rng) -> Case {
    body_case(r, "tag", false, false, false)
}
fn tag_mut(r: &mut Rng) -> Case {
    body_case(r, "tag", true, true, false)
}
fn tag_hook(r: &mut Rng) -> Case {
    let m = r.chance(1, 2);
    body_case(r, "tag", false, m, true)
}
fn signature_obj(r: &mut Rng, wild: bool) -> Case {
    let mut c = Case::new("the fields of a signature");
    let (k, bd) = if r.chance(2, 3) {
        let mut v = b"tree aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\nauthor ".to_vec();
        v.extend(sig(r, wild));
        v.extend(b"\ncommitter ");
        v.extend(sig(r, wild));
        v.extend(b"\n\nm");
        ("commit", v)
    } else {
        let mut v = b"object aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\ntype tree\ntag v1\ntagger ".to_vec();
        v.extend(sig(r, wild));
        v.extend(b"\n\nm");
        ("tag", v)
    };
    let id = r.id();
    c.loose(&id, &zlib(&obj_raw(k, &bd)));
    c.object(&id, expect_body(k, &bd));
    c
}
fn signature_case(r: &mut Rng) -> Case {
    signature_obj(r, false)
}
fn signature_wild(r: &mut Rng) -> Case {
    signature_obj(r, true)
}

// ---- P09 / P10 ----------------------------------------------------------------------

fn id_round(r: &mut Rng) -> Case {
    let mut c = Case::new("an id as text and back");
    let id = r.id();
    c.op("id-bytes", &[&id], is(format!("ok {}", hex(&id))));
    c.op("short-full", &[&id], is(format!("ok {}", hex(&id))));
    c
}
fn hexish(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = r.from(b"0123456789abcdefABCDEF", n);
    if r.chance(1, 2) && n > 0 {
        let i = r.below(n);
        v[i] = match r.below(4) {
            0 => *r.pick(b"gG/:@`G \n\0+-xX"),
            1 => r.byte(),
            2 => *r.pick(&[0xb0, 0xc1, 0xff, 0x7f]),
            _ => v[i],
        };
    }
    v
}
fn id_text(r: &mut Rng) -> Case {
    let mut c = Case::new("any text as an id");
    let n = if r.chance(2, 3) { 40 } else { *r.pick(&[0usize, 1, 2, 20, 38, 39, 41, 42, 64, 80]) };
    let mut t = hexish(r, n);
    if r.chance(1, 6) {
        let k = r.below(3);
        t = t[..t.len().saturating_sub(k)].to_vec();
        t.extend(*r.pick(&[&b"\n"[..], b" ", b"\r\n", b"0", b"00", b"\t", b"\0", b""]));
    }
    if r.chance(1, 8) {
        let k = r.below(3).min(t.len());
        t.drain(..k);
        t.splice(0..0, r.pick(&[&b" "[..], b"\n", b"0x", b"+", b"+0", b"0", b"-", b"\xef\xbb\xbf"]).iter().cloned());
    }
    let e = if t.len() == 40 && oracle::is_hex(&t) { is(format!("ok {}", oracle::lower(&t))) } else { Expect::NotOk };
    c.op("id-hex", &[&t], e);
    c
}
fn direct_text_case(r: &mut Rng) -> Case {
    let mut c = Case::new("any text as a direct reference");
    let n = if r.chance(2, 3) { 40 } else { r.below(60) };
    let t = hexish(r, n);
    let e = if n == 40 && oracle::is_hex(&t) { is(format!("ok {}", oracle::lower(&t))) } else { Expect::NotOk };
    c.op("direct", &[&t], e);
    c
}
fn short_of(r: &mut Rng, id: &Id20) -> Vec<u8> {
    let n = r.range(2, 20);
    let mut v = id[..n].to_vec();
    if r.chance(1, 2) {
        let i = r.below(n);
        v[i] = match r.below(4) {
            0 => v[i].wrapping_add(1),
            1 => v[i].wrapping_sub(1),
            2 => r.byte(),
            _ => v[i] ^ 0x80,
        };
    }
    v
}
fn short_cmp(r: &mut Rng) -> Case {
    let mut c = Case::new("order of an abbreviated id and an id");
    let mut id = r.id();
    if r.chance(1, 3) {
        for i in 2..20 {
            if r.chance(1, 2) {
                id[i] = 0;
            }
        }
    }
    let s = short_of(r, &id);
    let o = match s[..].cmp(&id[..]) {
        std::cmp::Ordering::Less => "less",
        std::cmp::Ordering::Equal => "equal",
        std::cmp::Ordering::Greater => "greater",
    };
    c.op("short-cmp", &[hex(&s).as_bytes(), &id], is(format!("ok {}", o)));
    c
}
fn id_cmp(r: &mut Rng) -> Case {
    let mut c = Case::new("order of two ids");
    let v = ids(r, 2);
    let y = match r.below(4) {
        0 => v[0],
        1 => {
            let mut y = v[0];
            let i = r.below(20);
            y[i] = if r.chance(1, 2) { r.byte() } else { y[i].wrapping_add(1) };
            y
        }
        _ => v[1],
    };
    let o = match v[0].cmp(&y) {
        std::cmp::Ordering::Less => "less",
        std::cmp::Ordering::Equal => "equal",
        std::cmp::Ordering::Greater => "greater",
    };
    c.op("id-cmp", &[&v[0], &y], is(format!("ok {} {}", o, v[0] == y)));
    c
}
fn short_text(r: &mut Rng) -> Case {
    let mut c = Case::new("any text as an abbreviated id");
    let n = r.below(46);
    let t = hexish(r, n);
    let e = if n < 4 || n > 40 || !oracle::is_hex(&t) {
        Expect::NotOk
    } else if n % 2 == 1 {
        Expect::Any
    } else {
        is(format!("ok {}", oracle::lower(&t)))
    };
    c.op("short-hex", &[&t], e);
    c
}

// ---- P11 / P12 ------------------------------------------------------------------------

fn some_index(r: &mut Rng, max: usize) -> (Vec<(Id20, u64)>, Vec<u8>, Id20) {
    let n = match r.below(6) {
        0 => r.below(3),
        1 => r.range(100, 700.min(max.max(101))),
        _ => r.range(1, 40),
    };
    let v = ids(r, n);
    let v1 = r.chance(1, 2);
    let mut big = 0;
    let ents: Vec<(Id20, u64)> = v
        .iter()
        .map(|x| {
            let o = match r.below(6) {
                0 => *r.pick(&[0u64, 0x7fff_ffff, 12]),
                1 if !v1 && big + 1 < n => {
                    big += 1;
                    *r.pick(&[0x8000_0000u64, 0xffff_ffff, 0x1_0000_0000, u64::MAX, 0x1_8000_0001])
                }
                1 if v1 => *r.pick(&[0x8000_0000u64, 0xffff_ffff]),
                _ => r.next() & 0x7fff_ffff,
            };
            (*x, o)
        })
        .collect();
    let sum = r.id();
    let idx = if v1 { build_idx_v1(&ents, &sum) } else { build_idx_v2(&ents, &sum, |_, _| false) };
    (ents, idx, sum)
}
fn near(r: &mut Rng, ents: &[(Id20, u64)]) -> Id20 {
    if ents.is_empty() || r.chance(1, 8) {
        return r.id();
    }
    let mut x = r.pick(ents).0;
    match r.below(5) {
        0 => x[19] = x[19].wrapping_add(1),
        1 => x[19] = x[19].wrapping_sub(1),
        2 => x[0] = x[0].wrapping_add(1),
        3 => {
            let i = r.below(20);
            x[i] ^= 1 << r.below(8)
        }
        _ => x[0] = x[0].wrapping_sub(1),
    }
    x
}
fn index_lookup(r: &mut Rng) -> Case {
    let mut c = Case::new("find ids in an index");
    let (ents, idx, sum) = some_index(r, 700);
    c.file("i.idx", &idx);
    c.op("h-index-open", &[b"i.idx"], is(format!("ok {} {}", ents.len(), hex(&sum))));
    for _ in 0..12 {
        let id = if !ents.is_empty() && r.chance(2, 3) { r.pick(&ents).0 } else { near(r, &ents) };
        let e = match ents.iter().find(|x| x.0 == id) {
            Some((_, o)) => is(format!("ok {} {}", o, hex(&id))),
            None => is("err notfound"),
        };
        c.op("h-index", &[b"i.idx", hex(&id).as_bytes()], e);
    }
    c
}
fn index_short(r: &mut Rng) -> Case {
    let mut c = Case::new("find abbreviated ids in an index");
    let (ents, idx, _) = some_index(r, 300);
    c.file("i.idx", &idx);
    for _ in 0..12 {
        let id = if !ents.is_empty() && r.chance(4, 5) { r.pick(&ents).0 } else { near(r, &ents) };
        let k = if r.chance(1, 2) { r.range(2, 4) } else { r.range(2, 20) };
        let m: Vec<_> = ents.iter().filter(|x| x.0[..k] == id[..k]).collect();
        let e = match m.len() {
            0 => is("err notfound"),
            1 => is(format!("ok {} {}", m[0].1, hex(&m[0].0))),
            // a full prefix of several ids
            _ => is("err ambiguous"),
        };
        c.op("h-index", &[b"i.idx", hex(&id[..k]).as_bytes()], e);
    }
    c
}
fn index_pack(r: &mut Rng) -> Case {
    let mut c = Case::new("read every object of a pack through its index");
    let n = if r.chance(1, 6) { r.range(200, 400) } else { r.range(1, 30) };
    let v = ids(r, n);
    let entries: Vec<PEntry> = (0..n).map(|i| PEntry::Full { ty: 3, data: format!("object {}", i).into_bytes() }).collect();
    let ver = if r.chance(1, 4) { 3 } else { 2 };
    let p = build_pack_with(&entries, &[], 6, ver, &mut |n| if r.chance(1, 8) { r.below(10 - n.min(9)) } else { 0 });
    let ents: Vec<(Id20, u64)> = v.iter().cloned().zip(p.offsets.iter().cloned()).collect();
    let idx = index_for(r, &ents, &p.sum);
    c.pack("p", &p.bytes, &idx);
    for i in 0..n.min(60) {
        let i = if n > 60 { r.below(n) } else { i };
        c.object(&v[i], is(format!("ok blob {}", b(format!("object {}", i).as_bytes()))));
    }
    for _ in 0..6 {
        let id = near(r, &ents);
        if !v.contains(&id) {
            c.object(&id, is("err notfound"));
        }
    }
    c
}
/// Some(count) if this is an acceptable index
fn index_ok(d: &[u8]) -> Option<u64> {
    let (v2, rest) = if d.starts_with(b"\xfftOc") {
        if d.len() < 8 || d[4..8] != [0, 0, 0, 2] {
            return None;
        }
        (true, &d[8..])
    } else {
        (false, d)
    };
    if rest.len() < 1024 {
        return None;
    }
    let mut n = 0u32;
    for i in 0..256 {
        let x = u32::from_be_bytes(rest[4 * i..4 * i + 4].try_into().unwrap());
        if x < n {
            return None;
        }
        n = x;
    }
    let n = n as u64;
    let left = (rest.len() - 1024) as u64;
    let fixed = n * if v2 { 28 } else { 24 } + 40;
    if left < fixed {
        return None;
    }
    let extra = left - fixed;
    if !v2 && extra != 0 {
        return None;
    }
    if extra % 8 != 0 || extra / 8 > n.saturating_sub(1) {
        return None;
    }
    Some(n)
}
/// what an acceptable index says about an id
fn index_find(d: &[u8], id: &Id20) -> Expect {
    let v2 = d.starts_with(b"\xfftOc");
    let fan = if v2 { 8 } else { 0 };
    let at = |i: usize| u32::from_be_bytes(d[i..i + 4].try_into().unwrap());
    let n = at(fan + 1020) as usize;
    let from = if id[0] == 0 { 0 } else { at(fan + 4 * (id[0] as usize - 1)) as usize };
    let to = at(fan + 4 * id[0] as usize) as usize;
    let t = fan + 1024;
    let entry = |i: usize| if v2 { &d[t + 20 * i..t + 20 * i + 20] } else { &d[t + 24 * i + 4..t + 24 * i + 24] };
    if (from..to).any(|i| i + 1 < to && entry(i) >= entry(i + 1)) {
        return Expect::Any;
    }
    let i = match (from..to).find(|&i| entry(i) == id) {
        Some(i) => i,
        None => return is("err notfound"),
    };
    let off = if v2 { at(t + 24 * n + 4 * i) } else { at(t + 24 * i) };
    if !v2 || off & 0x8000_0000 == 0 {
        return is(format!("ok {} {}", off, hex(id)));
    }
    let l = t + 28 * n + 8 * (off & 0x7fff_ffff) as usize;
    if l + 8 > d.len() - 40 {
        return Expect::NotOk;
    }
    is(format!("ok {} {}", u64::from_be_bytes(d[l..l + 8].try_into().unwrap()), hex(id)))
}
fn damage_index(r: &mut Rng, idx: &mut Vec<u8>) {
    let v2 = idx.starts_with(b"\xfftOc");
    let fan = if v2 { 8 } else { 0 };
    match r.below(12) {
        10 | 11 if v2 => {
            // an offset that points at the table of long offsets
            let n = u32::from_be_bytes(idx[fan + 1020..fan + 1024].try_into().unwrap()) as usize;
            if n > 0 && idx.len() >= fan + 1024 + 28 * n {
                let at = fan + 1024 + 24 * n + 4 * r.below(n);
                let mut x = r.below(2) as u32;
                if r.chance(2, 3) {
                    x |= 1 << r.below(31);
                }
                idx[at..at + 4].copy_from_slice(&(0x8000_0000 | x).to_be_bytes());
            }
        }
        0 => {
            let n = r.below(idx.len() + 1);
            idx.truncate(n)
        }
        1 => {
            let n = *r.pick(&[1usize, 4, 7, 8, 9, 16, 20, 24, 40]);
            let at = idx.len() - 40;
            let z = r.bytes(n);
            idx.splice(at..at, z);
        }
        2 => {
            let n = *r.pick(&[1usize, 4, 8, 20, 24, 28]);
            let at = idx.len() - 40;
            let from = at.saturating_sub(n);
            idx.drain(from..at);
        }
        3 => {
            let i = r.below(256);
            let x = match r.below(4) {
                0 => 0u32,
                1 => u32::MAX,
                2 => 1,
                _ => r.next() as u32 % 64,
            };
            idx[fan + 4 * i..fan + 4 * i + 4].copy_from_slice(&x.to_be_bytes());
        }
        4 => {
            let x = *r.pick(&[u32::MAX, 0, 1, 2, 1 << 31, 1000]);
            for i in 250..256 {
                idx[fan + 4 * i..fan + 4 * i + 4].copy_from_slice(&x.to_be_bytes());
            }
        }
        5 if v2 => idx[7] = *r.pick(&[0u8, 1, 3, 4, 255]),
        6 if v2 => idx[r.below(4)] ^= 1,
        7 => {
            let i = fan + 1020;
            let mut x = u32::from_be_bytes(idx[i..i + 4].try_into().unwrap());
            x = if r.chance(1, 2) { x.wrapping_add(1) } else { x.wrapping_sub(1) };
            idx[i..i + 4].copy_from_slice(&x.to_be_bytes());
        }
        8 => {
            // swap two steps of the fan out
            let i = r.below(255);
            let (a, z) = (fan + 4 * i, fan + 4 * i + 4);
            for k in 0..4 {
                idx.swap(a + k, z + k);
            }
        }
        _ => mutate(r, idx),
    }
}
fn index_bad_hook(r: &mut Rng) -> Case {
    let mut c = Case::new("open a damaged index");
    let (ents, mut idx, _) = some_index(r, 40);
    damage_index(r, &mut idx);
    c.file("i.idx", &idx);
    let e = match index_ok(&idx) {
        Some(n) => is(format!("ok {} {}", n, hex(&idx[idx.len() - 40..idx.len() - 20]))),
        None => is("err invalid"),
    };
    let fine = index_ok(&idx).is_some();
    c.op("h-index-open", &[b"i.idx"], e);
    for _ in 0..3 {
        let id = if ents.is_empty() { r.id() } else { r.pick(&ents).0 };
        c.op("h-index", &[b"i.idx", hex(&id).as_bytes()], if fine { index_find(&idx, &id) } else { is("err invalid") });
    }
    c
}
fn index_bad(r: &mut Rng) -> Case {
    let mut c = Case::new("read from a pack with a damaged index");
    let n = r.range(1, 6);
    let v = ids(r, n);
    let entries: Vec<PEntry> = (0..n).map(|i| PEntry::Full { ty: 3, data: format!("object {}", i).into_bytes() }).collect();
    let p = build_pack(&entries, &[], 6, 2);
    let ents: Vec<(Id20, u64)> = v.iter().cloned().zip(p.offsets.iter().cloned()).collect();
    let mut idx = index_for(r, &ents, &p.sum);
    damage_index(r, &mut idx);
    c.pack("p", &p.bytes, &idx);
    let fine = index_ok(&idx).is_some();
    for id in &v {
        c.object(id, if fine { Expect::Any } else { is("err other") });
    }
    c
}

// ---- P13 ----------------------------------------------------------------------------------

fn entry_header_case(r: &mut Rng) -> Case {
    let mut c = Case::new("the header of a pack entry");
    let d = match r.below(4) {
        0 => r.bytes(12),
        1 => {
            let n = r.below(12);
            let mut v: Vec<u8> = r.bytes(n).iter().map(|x| x | 0x80).collect();
            v.push(r.byte() & 0x7f);
            v
        }
        2 => {
            let shift = r.below(64);
            let mut v = entry_header(*r.pick(&[1, 2, 3, 4, 6, 7]), r.next() >> shift);
            v.extend(r.bytes(5));
            v
        }
        _ => {
            let shift = r.below(64);
            let x = (1u64 << shift).wrapping_sub(r.below(3) as u64).wrapping_add(1);
            let mut v = entry_header(r.below(8) as u8, x);
            if r.chance(1, 4) {
                // a longer encoding of the same number
                let n = v.len();
                v[n - 1] |= 0x80;
                v.push(0);
            }
            v
        }
    };
    let e = match oracle::entry_header_dec(&d) {
        Some((k, l, p)) => is(format!("ok {} {} {}", k, l, p)),
        None => Expect::NotOk,
    };
    let s = script(r, true);
    c.op("h-header", &[&d, &s], e);
    c
}
fn offset_case(r: &mut Rng) -> Case {
    let mut c = Case::new("the distance to the base of a delta");
    let d = match r.below(3) {
        0 => {
            let n = r.below(12);
            let mut v: Vec<u8> = r.bytes(n).iter().map(|x| x | 0x80).collect();
            v.push(r.byte() & 0x7f);
            v
        }
        1 => {
            let shift = r.below(64);
            let mut v = ofs_varint(r.next() >> shift);
            v.extend(r.bytes(4));
            v
        }
        _ => {
            let x = *r.pick(&[0u64, 1, 127, 128, 129, 16511, 16512, 16513, 2113663, 2113664, 270549119, 270549120, u32::MAX as u64, 1 << 32, u64::MAX, u64::MAX - 1, u64::MAX / 2]);
            ofs_varint(x)
        }
    };
    let e = match oracle::ofs_dec(&d) {
        Some((o, p)) => is(format!("ok {} {}", o, p)),
        None => Expect::NotOk,
    };
    let s = script(r, true);
    c.op("h-offset", &[&d, &s], e);
    c
}
fn ofs_distance(r: &mut Rng) -> Case {
    let mut c = Case::new("a delta far from its base, an object with a long length");
    let n = *r.pick(&[0usize, 15, 16, 2047, 2048, 300_000]);
    let base: Vec<u8> = (0..n).map(|i| (i / 100) as u8).collect();
    let gap = *r.pick(&[0usize, 60, 100, 128, 16_300, 16_400, 16_500, 17_000, 40_000, 2_113_500, 2_113_700]);
    let (d, out) = delta_bytes(r, &base);
    let es = [PEntry::Full { ty: 3, data: base.clone() }, PEntry::Ofs { base: 0, delta: d }];
    let p = build_pack(&es, &[0, gap], 1, 2);
    let v = ids(r, 2);
    let ents = [(v[0], p.offsets[0]), (v[1], p.offsets[1])];
    c.pack("p", &p.bytes, &index_for(r, &ents, &p.sum));
    c.object(&v[1], is(format!("ok blob {}", b(&out))));
    c.object(&v[0], is(format!("ok blob {}", b(&base))));
    c
}

// ---- P14 ----------------------------------------------------------------------------------

fn delta_expect(base: &[u8], d: &[u8]) -> Expect {
    match oracle::delta(base, d) {
        Some(o) => is(format!("ok {}", b(&o))),
        None => Expect::NotOk,
    }
}
fn delta_base(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(16) {
        0 => *r.pick(&[65_536usize, 70_000]),
        1 | 2 => *r.pick(&[0usize, 1, 5000]),
        3 | 4 => *r.pick(&[10usize, 255, 256, 300]),
        _ => r.below(400),
    };
    r.bytes(n)
}
fn delta_hook(r: &mut Rng) -> Case {
    let mut c = Case::new("apply a delta");
    let base = delta_base(r);
    let (d, _) = delta_bytes(r, &base);
    let s = script(r, false);
    c.op("h-delta", &[&base, &d, &s], delta_expect(&base, &d));
    c
}
fn delta_mut(r: &mut Rng) -> Case {
    let mut c = Case::new("apply a damaged delta");
    let base = delta_base(r);
    let (mut d, out) = delta_bytes(r, &base);
    match r.below(6) {
        0 => {
            // wrong lengths
            let mut v = size_varint((base.len() as u64).wrapping_add(*r.pick(&[0u64, 1, u64::MAX, 1 << 32, 128])));
            v.extend(size_varint((out.len() as u64).wrapping_add(*r.pick(&[0u64, 1, u64::MAX, 1 << 32]))));
            let n = size_varint(base.len() as u64).len() + size_varint(out.len() as u64).len();
            v.extend(&d[n..]);
            d = v;
        }
        1 => {
            // copies around the end of the base
            let mut v = size_varint(base.len() as u64);
            let len = r.range(1, 300);
            let off = (base.len() + r.below(3)).saturating_sub(len).max(0);
            v.extend(size_varint(len as u64));
            let mut t = vec![];
            encode_cmd(&Cmd::Copy { off: off as u32, len: len as u32 }, &mut t);
            v.extend(t);
            d = v;
        }
        2 => {
            let op = r.byte();
            let k = r.below(8);
            d.push(op);
            d.extend(r.bytes(k));
        }
        _ => mutate(r, &mut d),
    }
    let s = script(r, false);
    c.op("h-delta", &[&base, &d, &s], delta_expect(&base, &d));
    c
}
fn delta_public(r: &mut Rng) -> Case {
    let mut c = Case::new("an object stored as a delta");
    let base = delta_base(r);
    let (mut d, _) = delta_bytes(r, &base);
    if r.chance(1, 2) {
        mutate(r, &mut d);
    }
    let e = match oracle::delta(&base, &d) {
        Some(o) => is(format!("ok blob {}", b(&o))),
        None => is("err other"),
    };
    let v = ids(r, 2);
    let second = if r.chance(1, 2) { PEntry::Ofs { base: 0, delta: d } } else { PEntry::Ref { base: v[0], delta: d } };
    let p = build_pack_with(&[PEntry::Full { ty: 3, data: base }, second], &[], 6, 2, &mut |n| if r.chance(1, 8) { r.below(10 - n.min(9)) } else { 0 });
    let ents = [(v[0], p.offsets[0]), (v[1], p.offsets[1])];
    c.pack("p", &p.bytes, &index_for(r, &ents, &p.sum));
    c.object(&v[1], e);
    c
}
fn delta_big(r: &mut Rng) -> Case {
    let mut c = Case::new("copies with large offsets and lengths");
    let n = if r.chance(1, 24) { 0x100_0010 } else { *r.pick(&[0x1_0000usize, 0x1_0001, 0x2_0300]) };
    let base: Vec<u8> = (0..n).map(|i| (i as u32).wrapping_mul(2654435761).to_be_bytes()[1]).collect();
    let mut cs = vec![];
    for _ in 0..r.range(1, 4) {
        let len = (*r.pick(&[1usize, 0xff, 0x100, 0x1_0000, 0xffff, 0x1_0001, 0x2_0000, 0xff_ff01])).min(n);
        let off = if r.chance(1, 2) { n - len } else { r.below(n - len + 1) };
        cs.push(Cmd::Copy { off: off as u32, len: len as u32 });
    }
    let out = apply_cmds(&base, &cs);
    let mut d = size_varint(n as u64);
    d.extend(size_varint(out.len() as u64));
    d.extend(encode_cmds(r, &cs));
    c.op("h-delta", &[&base, &d, &[]], is(format!("ok {}", b(&out))));
    let v = ids(r, 2);
    let p = build_pack(&[PEntry::Full { ty: 3, data: base }, PEntry::Ofs { base: 0, delta: d }], &[], 1, 2);
    let ents = [(v[0], p.offsets[0]), (v[1], p.offsets[1])];
    c.pack("p", &p.bytes, &index_for(r, &ents, &p.sum));
    c.object(&v[1], is(format!("ok blob {}", b(&out))));
    c
}

// ---- P15 ----------------------------------------------------------------------------------

fn chain_n(r: &mut Rng, n: usize, deep: bool) -> Case {
    let mut c = Case::new("objects stored as chains of deltas, read in some order");
    let (objs, es) = delta_pack(r, n, deep);
    let p = build_pack_with(&es, &[], 6, 2, &mut |n| if r.chance(1, 8) { r.below(10 - n.min(9)) } else { 0 });
    let ents: Vec<(Id20, u64)> = objs.iter().map(|o| o.id).zip(p.offsets.iter().cloned()).collect();
    c.pack("p", &p.bytes, &index_for(r, &ents, &p.sum));
    let mut order: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = r.below(n);
        order.swap(i, j);
    }
    if deep {
        order.insert(0, n - 1);
    }
    for i in order {
        let o = &objs[i];
        c.object(&o.id, expect_body(o.kind, &o.body));
        if r.chance(1, 3) {
            c.op("raw", &[&o.id, &num(100)], is(format!("ok {}", b(&o.body))));
        }
        if r.chance(1, 10) {
            c.op("reopen", &[], Expect::Any);
        }
    }
    c
}
fn chain(r: &mut Rng) -> Case {
    let n = r.range(2, 14);
    let deep = r.chance(1, 4);
    chain_n(r, n, deep)
}
fn chain_deep(r: &mut Rng) -> Case {
    let n = *r.pick(&[16usize, 17, 18, 40, 120]);
    chain_n(r, n, true)
}
fn chain_bad(r: &mut Rng) -> Case {
    let mut c = Case::new("deltas whose bases are missing or go around in a circle");
    let n = r.range(2, 6);
    let v = ids(r, n + 1);
    let good = b"good".to_vec();
    let mut es = vec![PEntry::Full { ty: 3, data: good.clone() }];
    let id_delta = |len: usize| encode_delta(len as u64, len as u64, &[Cmd::Copy { off: 0, len: len as u32 }]);
    let what = r.below(4);
    let mut bad = vec![];
    for i in 1..n {
        match what {
            // each the base of another
            0 => {
                let b = if i + 1 < n { i + 1 } else { 1 };
                es.push(PEntry::Ref { base: v[b], delta: id_delta(4) });
                bad.push(i);
            }
            1 => {
                es.push(PEntry::Ref { base: v[i], delta: id_delta(4) });
                bad.push(i);
            }
            2 => {
                es.push(PEntry::Ref { base: v[n], delta: id_delta(4) });
                bad.push(i);
            }
            _ => {
                // a distance that leaves the pack
                let mut e = entry_header(6, 6);
                e.extend(ofs_varint(*r.pick(&[1u64 << 40, u64::MAX, 100_000, 0])));
                e.extend(zlib(&id_delta(4)));
                es.push(PEntry::Raw(e));
                bad.push(i);
            }
        }
    }
    let p = build_pack(&es, &[], 6, 2);
    let ents: Vec<(Id20, u64)> = v[..n].iter().cloned().zip(p.offsets.iter().cloned()).collect();
    c.pack("p", &p.bytes, &index_for(r, &ents, &p.sum));
    for i in bad {
        c.object(&v[i], is("err other"));
        c.object(&v[0], is(format!("ok blob {}", b(&good))));
    }
    c
}

// ---- P16 ----------------------------------------------------------------------------------

fn pack_bad(r: &mut Rng) -> Case {
    let mut c = Case::new("a pack that doesn't match its index, or isn't one");
    let n = r.range(1, 4);
    let v = ids(r, n);
    let mut es: Vec<PEntry> = (0..n).map(|i| PEntry::Full { ty: 3, data: format!("object {}", i).into_bytes() }).collect();
    let p = build_pack(&es, &[], 6, 2);
    let ents: Vec<(Id20, u64)> = v.iter().cloned().zip(p.offsets.iter().cloned()).collect();
    let idx = index_for(r, &ents, &p.sum);
    let mut pk = p.bytes.clone();
    let mut missing = false;
    match r.below(9) {
        0 => pk[r.below(4)] ^= 1 << r.below(8),
        1 => {
            let x = *r.pick(&[0u32, 1, 4, 5, 0x0200_0000, 0x0102, 0x1_0002, u32::MAX]);
            pk[4..8].copy_from_slice(&x.to_be_bytes());
        }
        2 => {
            let k = *r.pick(&[0u32, n as u32 + 1, n as u32 - 1, u32::MAX, (n as u32) << 8, n as u32 + 0x1_0000]);
            let k = if k == n as u32 { k + 1 } else { k };
            pk[8..12].copy_from_slice(&k.to_be_bytes());
        }
        3 => {
            let i = pk.len() - 1 - r.below(20);
            pk[i] ^= 1 << r.below(8)
        }
        4 => {
            let k = r.below(20);
            pk.truncate(k)
        }
        5 => missing = true,
        6 => {
            // the pack of other objects
            es.push(PEntry::Full { ty: 3, data: b"x".to_vec() });
            pk = build_pack(&es, &[], 6, 2).bytes;
        }
        7 => {
            // same number of objects, another id
            es[0] = PEntry::Full { ty: 3, data: b"another".to_vec() };
            pk = build_pack(&es, &[], 6, 2).bytes;
        }
        _ => {
            let k = pk.len() - r.range(1, 19);
            pk.truncate(k)
        }
    }
    c.file("objects/pack/p.idx", &idx);
    if !missing {
        c.file("objects/pack/p.pack", &pk);
    }
    for id in &v {
        c.object(id, is("err other"));
    }
    c
}
fn pack_versions(r: &mut Rng) -> Case {
    let mut c = Case::new("packs of both versions, with other files around");
    let v = ids(r, 2);
    for i in 0..2 {
        let d = format!("object {}", i).into_bytes();
        let p = build_pack(&[PEntry::Full { ty: 3, data: d }], &[], 6, 2 + i as u32);
        let name = pack_name(r, i);
        c.pack(&name, &p.bytes, &index_for(r, &[(v[i], p.offsets[0])], &p.sum));
    }
    c.file("objects/pack/pack-0.keep", b"");
    c.file("objects/pack/tmp_idx_x", b"garbage");
    c.file("objects/pack/lonely.pack", b"garbage");
    for i in 0..2 {
        c.object(&v[i], is(format!("ok blob {}", b(format!("object {}", i).as_bytes()))));
    }
    c
}

/// Packs are mostly called after their checksums, but they need not be.
fn pack_name(r: &mut Rng, k: usize) -> String {
    match r.below(8) {
        0 => format!("pack-{}", k),
        1 => format!("other-{}", k),
        2 => format!("{}", k),
        3 => format!("pack.{}.old", k),
        4 => format!(".hidden-{}", k),
        5 => format!("Ein Päckchen {}", k),
        6 => format!("pack-{:0>200}", k),
        _ => format!("pack-{:0>40}", k),
    }
}

// ---- P17 ----------------------------------------------------------------------------------

fn lookup_where(r: &mut Rng) -> Case {
    let mut c = Case::new("objects in packs, loose, in both, and in neither");
    let packs = if r.chance(1, 8) { r.range(4, 14) } else { r.below(4) };
    let mut all: Vec<(Id20, Vec<u8>)> = vec![];
    for k in 0..packs {
        let n = r.range(1, 6);
        let mut v = ids(r, n);
        let mut data: Vec<Vec<u8>> = (0..n).map(|i| format!("pack {} object {}", k, i).into_bytes()).collect();
        if !all.is_empty() && r.chance(1, 2) {
            // the same object in two packs
            let x = r.pick(&all).clone();
            if !v.contains(&x.0) {
                v[0] = x.0;
                data[0] = x.1;
            }
        }
        let es: Vec<PEntry> = data.iter().map(|d| PEntry::Full { ty: 3, data: d.clone() }).collect();
        let p = build_pack(&es, &[], 6, 2);
        let ents: Vec<(Id20, u64)> = v.iter().cloned().zip(p.offsets.iter().cloned()).collect();
        c.pack(&pack_name(r, k), &p.bytes, &index_for(r, &ents, &p.sum));
        for (i, d) in v.iter().zip(data) {
            if !all.iter().any(|x| x.0 == *i) {
                all.push((*i, d));
            }
        }
    }
    if packs == 0 && r.chance(1, 2) {
        c.op("rmdir", &[b"objects/pack"], Expect::Any);
    }
    for i in 0..r.below(4) {
        let id = if !all.is_empty() && r.chance(1, 4) { r.pick(&all).0 } else { r.id() };
        let d = match all.iter().find(|x| x.0 == id) {
            Some(x) => x.1.clone(),
            None => format!("loose {}", i).into_bytes(),
        };
        c.loose(&id, &zlib(&obj_raw("blob", &d)));
        if !all.iter().any(|x| x.0 == id) {
            all.push((id, d));
        }
    }
    let mut later = vec![];
    let n = r.range(1, 10);
    for i in 0..n {
        if all.is_empty() || r.chance(1, 3) {
            let mut id = if all.is_empty() { r.id() } else { r.pick(&all).0 };
            let k = r.below(20);
            id[k] ^= 1 << r.below(8);
            if !all.iter().any(|x| x.0 == id) {
                c.object(&id, is("err notfound"));
                c.op("raw", &[&id, &num(64)], is("err notfound"));
                if r.chance(1, 3) {
                    // it appears after it was looked for
                    let d = format!("later {}", i).into_bytes();
                    c.loose(&id, &zlib(&obj_raw("blob", &d)));
                    c.object(&id, is(format!("ok blob {}", b(&d))));
                    later.push((id, d.clone()));
                    all.push((id, d));
                }
            }
        } else {
            let (id, d) = r.pick(&all).clone();
            c.object(&id, is(format!("ok blob {}", b(&d))));
        }
    }
    c
}
fn lookup_later(r: &mut Rng) -> Case {
    let mut c = Case::new("a pack which appears after its object was looked for");
    let v = ids(r, 3);
    let pack = |c: &mut Case, r: &mut Rng, k: usize| {
        let d = format!("pack {}", k).into_bytes();
        let p = build_pack(&[PEntry::Full { ty: 3, data: d }], &[], 6, 2);
        c.pack(&pack_name(r, k), &p.bytes, &index_for(r, &[(v[k], p.offsets[0])], &p.sum));
    };
    if r.chance(1, 2) {
        pack(&mut c, r, 0);
        if r.chance(1, 2) {
            c.object(&v[0], is(format!("ok blob {}", b(b"pack 0"))));
        }
    } else {
        c.op("rmdir", &[b"objects/pack"], Expect::Any);
    }
    c.object(&v[1], is("err notfound"));
    pack(&mut c, r, 0);
    pack(&mut c, r, 1);
    c.op("wait", &[], Expect::Any);
    c.object(&v[2], is("err notfound"));
    c.object(&v[1], is(format!("ok blob {}", b(b"pack 1"))));
    c.object(&v[0], is(format!("ok blob {}", b(b"pack 0"))));
    c
}
fn lookup_some(r: &mut Rng) -> Case {
    // waiting costs more than two seconds
    if r.chance(1, 400) {
        lookup_later(r)
    } else {
        lookup_where(r)
    }
}
fn lookup_errors(r: &mut Rng) -> Case {
    let mut c = Case::new("a damaged object is an error, not an absent object");
    let id = r.id();
    let mut other = r.id();
    // not in the same folder
    other[0] = id[0] ^ 0x10;
    let raw = obj_raw("blob", b"data data data data data");
    let z = zlib(&raw);
    if r.chance(1, 8) {
        // no list of the packs: nothing is known to be absent
        match r.below(2) {
            0 => {
                c.op("rmdir", &[b"objects/pack"], Expect::Any);
                c.file("objects/pack", b"x");
            }
            _ => {
                c.op("rmdir", &[b"objects/pack"], Expect::Any);
                c.op("link", &[b"objects/pack", b"pack"], Expect::Any);
            }
        }
        c.object(&other, is("err other"));
        return c;
    }
    match r.below(9) {
        6 => {
            // its name leads back to itself
            let h = hex(&id);
            let p = format!("objects/{}/{}", &h[..2], &h[2..]);
            c.op("link", &[p.as_bytes(), h[2..].as_bytes()], Expect::Any)
        }
        7 => {
            // its folder's name leads back to itself
            let h = hex(&id);
            c.op("link", &[format!("objects/{}", &h[..2]).as_bytes(), h[..2].as_bytes()], Expect::Any)
        }
        8 => {
            // a file in place of its folder
            c.file(&format!("objects/{}", &hex(&id)[..2]), b"x")
        }
        0 => c.loose(&id, &z[..r.below(z.len())]),
        1 => c.loose(&id, b""),
        2 => c.loose(&id, b"not zlib"),
        3 => c.loose(&id, &zlib(b"blob 9\0short")),
        4 => c.loose(&id, &zlib(&obj_raw("tree", b"bad"))),
        _ => {
            let h = hex(&id);
            // a folder in its place
            c.op("dir", &[format!("objects/{}/{}", &h[..2], &h[2..]).as_bytes()], Expect::Any)
        }
    };
    c.object(&id, is("err other"));
    c.object(&other, is("err notfound"));
    if r.chance(1, 2) {
        // a broken pack
        c.file("objects/pack/p.idx", b"junk");
        c.op("reopen", &[], Expect::Any);
        c.object(&id, is("err other"));
    }
    c
}

// ---- P18 ----------------------------------------------------------------------------------

fn ref_name(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => b"refs/heads/master".to_vec(),
        1 => "refs/heads/ünï".as_bytes().to_vec(),
        2 => {
            let mut v = b"refs/heads/".to_vec();
            let n = r.range(1, 8);
            v.extend(r.from(b"abc-._/ \xff\xa0", n));
            v
        }
        3 => b"refs/tags/v1.0".to_vec(),
        _ => b"HEAD".to_vec(),
    }
}
fn space(r: &mut Rng) -> &'static [u8] {
    if r.chance(5, 6) {
        b" "
    } else {
        *r.pick(&[&b"  "[..], b" \t", b"\t", b" \xc2\xa0", b" \r", b"   ", b" \xe3\x80\x80", b" \x0c", b""])
    }
}
fn ref_line(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(8) {
        0 | 1 => {
            let mut v = b"ref:".to_vec();
            v.extend(space(r));
            v.extend(ref_name(r));
            v
        }
        2 | 3 => hex_id(r),
        4 => {
            let mut v = hex_id(r);
            v.extend(space(r));
            v.extend(ref_name(r));
            v
        }
        5 => ref_name(r),
        6 => {
            let n = *r.pick(&[39usize, 40, 41, 4, 0]);
            let mut v = hexish(r, n);
            if r.chance(1, 2) {
                v.push(b' ');
                v.extend(ref_name(r));
            }
            v
        }
        _ => r.pick(&[&b"ref:refs/x"[..], b"ref: ", b"ref:  refs/heads/x", b"REF: refs/x", b"ref", b"ref: x y z", b"ref: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"^aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"ref: # not a comment"]).to_vec(),
    };
    match r.below(8) {
        0 => v.extend(b" "),
        1 => v.extend(b"\t"),
        2 => v.extend(b"\r"),
        3 => v.extend(*r.pick(&[&b"\xc2\xa0"[..], b"\xe3\x80\x80", b"\xe2\x80\xa8 ", b"\xa0", b"\x85", b"\xc2\x85", b"\x1c", b"\x0b\x0c"])),
        _ => (),
    }
    v
}
fn ref_content(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 => v.extend(b"\n"),
            1 => v.extend(b"# pack-refs with: peeled \n"),
            2 => v.extend(b" leading space\n"),
            3 => v.extend(b"#\n"),
            _ => (),
        }
    }
    v.extend(ref_line(r));
    if r.chance(3, 4) {
        v.push(b'\n');
        if r.chance(1, 3) {
            v.extend(ref_line(r));
        }
    }
    v
}
fn ref_ops(c: &mut Case, d: &[u8]) {
    c.op("ref", &[d], is(oracle::ref_text(d)));
    if let Some(oracle::Ref::Symbolic(n, p)) = oracle::reference(d) {
        c.op("ref-peeled", &[d, n, p.unwrap_or_default().as_bytes()], is("ok true"));
    }
}
fn ref_valid(r: &mut Rng) -> Case {
    let mut c = Case::new("the contents of a reference file");
    let d = ref_content(r);
    ref_ops(&mut c, &d);
    c
}
fn ref_mut(r: &mut Rng) -> Case {
    let mut c = Case::new("the contents of a damaged reference file");
    let mut d = ref_content(r);
    mutate(r, &mut d);
    ref_ops(&mut c, &d);
    c
}
fn ref_pieces(r: &mut Rng) -> Case {
    let mut c = Case::new("a reference however its bytes arrive");
    let d = ref_content(r);
    let s = script(r, true);
    c.op("ref-read", &[&d, &s], is(oracle::ref_text(&d)));
    let at = r.below(3);
    let mut s = vec![1; at];
    s.push(255);
    c.op("ref-read", &[&d, &s], if d.len() >= at { is("err invalid") } else { Expect::Any });
    c
}
fn ref_db(r: &mut Rng) -> Case {
    let mut c = Case::new("references in a repository");
    let d = ref_content(r);
    c.file("refs/heads/some/branch", &d);
    c.file("HEAD", &d);
    c.op("ref-get", &[b"refs/heads/some/branch"], is(oracle::ref_text(&d)));
    c.op("ref-parse", &[b"refs/heads/some/branch"], is(oracle::ref_text(&d)));
    c.op("ref-file", &[b"refs/heads/some/branch"], is(format!("ok {}", b(&d))));
    c.op("head", &[], is(oracle::ref_text(&d)));
    c.op("ref-get", &[b"refs/heads/other"], is("err ref-notfound"));
    c
}

// ---- P19 ----------------------------------------------------------------------------------

fn obj_for_peel(r: &mut Rng, c: &mut Case) -> (Id20, String) {
    let id = r.id();
    let k = kind(r);
    let bd = if k == "blob" { small(r, 50) } else { body(r, k, false) };
    store(r, c, &id, k, &bd);
    match expect_body(k, &bd) {
        Expect::Is(s) => (id, s),
        _ => {
            c.loose(&id, &zlib(&obj_raw("blob", b"x")));
            (id, "?".into())
        }
    }
}
fn peel_chain(r: &mut Rng) -> Case {
    let mut c = Case::new("follow symbolic references to an object");
    let (id, text) = obj_for_peel(r, &mut c);
    let links = if r.chance(3, 4) { r.below(5) } else { r.range(5, 14) };
    // r0 -> r1 -> ... -> r<links>, which is direct
    let broken = r.chance(1, 6);
    for i in 0..=links {
        let content = if i < links {
            format!("ref: refs/heads/r{}\n", i + 1)
        } else {
            format!("{}\n", hex(&id))
        };
        if !(broken && i == links) {
            c.file(&format!("refs/heads/r{}", i), content.as_bytes());
        }
    }
    let head = r.chance(1, 3) && links > 0;
    if head {
        c.file("HEAD", if links > 0 { &b"ref: refs/heads/r1\n"[..] } else { b"" });
    }
    let good = format!("ok {} {}", hex(&id), text);
    let deep = "err deep".to_string();
    let e = if text == "ok ?" || text == "?" {
        Expect::Any
    } else if broken {
        if links <= 4 { is("err ref-notfound") } else { Expect::NotOk }
    } else if links <= 4 {
        is(good)
    } else {
        Expect::OneOf(vec![good, deep])
    };
    if head {
        c.op("head-peel", &[], e);
    } else {
        c.op("ref-peel", &[b"refs/heads/r0"], e);
    }
    c
}
fn peel_cycle(r: &mut Rng) -> Case {
    let mut c = Case::new("symbolic references in a circle");
    let n = r.range(1, 5);
    for i in 0..n {
        c.file(&format!("refs/heads/r{}", i), format!("ref: refs/heads/r{}\n", (i + 1) % n).as_bytes());
    }
    c.file("HEAD", b"ref: refs/heads/r0\n");
    c.op("ref-peel", &[b"refs/heads/r0"], is("err deep"));
    c.op("head-peel", &[], is("err deep"));
    c
}
fn peel_line(r: &mut Rng) -> Case {
    let mut c = Case::new("a reference with the id it resolves to, and dangling ones");
    let (id, text) = obj_for_peel(r, &mut c);
    let gone = r.id();
    c.file("refs/heads/p", format!("{} refs/heads/nowhere\n", hex(&id)).as_bytes());
    c.file("refs/heads/d", format!("{}\n", hex(&gone)).as_bytes());
    c.file("refs/heads/s", b"ref: refs/heads/nowhere\n");
    c.file("refs/heads/bad", b"ref: refs/heads/worse\n");
    c.file("refs/heads/worse", b"junk\n");
    let e = if text == "?" { Expect::Any } else { is(format!("ok {} {}", hex(&id), text)) };
    c.op("ref-peel", &[b"refs/heads/p"], e);
    c.op("ref-peel", &[b"refs/heads/d"], is("err object notfound"));
    c.op("ref-peel", &[b"refs/heads/s"], is("err ref-notfound"));
    c.op("ref-peel", &[b"refs/heads/bad"], is("err invalid"));
    c
}

// ---- P20 / P21 --------------------------------------------------------------------------------

fn names_case(r: &mut Rng) -> Case {
    let mut c = Case::new("list the references of a repository");
    let mut names: Vec<Vec<u8>> = vec![];
    let mut linked: Vec<Vec<u8>> = vec![];
    let many = if r.chance(1, 20) { 80 } else { 10 };
    for _ in 0..r.below(many) {
        let top = *r.pick(&["heads", "tags", "remotes", "remotes/origin", "notes", "stash"]);
        let mut n = format!("refs/{}", top).into_bytes();
        for _ in 0..r.range(1, 3) {
            n.push(b'/');
            let k = r.range(1, 5);
            let mut part = r.from(b"ab.-_ \\\xfe\xc3\xbc~", k);
            if part.iter().all(|c| *c == b'.') {
                part = b"x".to_vec();
            }
            if r.chance(1, 4) {
                part = match r.below(3) {
                    0 => r.pick(&["HEAD", "master", "x.lock", ".hidden", "FETCH_HEAD", "tags", "heads", "remotes", "refs", "@", "x~", "tmp_x", ".git", "v1.0^{}", "-", "$x", "a.idx", "index"]).as_bytes().to_vec(),
                    1 => r.from(b"ABCXYZ019@#%+,;=[]{}()!*?:|<>\"'\n\t\r\x01\x7f", k),
                    _ => vec![b'l'; *r.pick(&[64usize, 200, 255])],
                };
            }
            n.extend(part);
        }
        // not below, and not above, another one
        let clash = names.iter().any(|m| {
            let mut a = m.clone();
            a.push(b'/');
            let mut z = n.clone();
            z.push(b'/');
            a.starts_with(&z) || z.starts_with(&a)
        });
        if !clash {
            names.push(n.clone());
            if r.chance(1, 10) {
                // not a folder, whatever it leads to
                let to: &[u8] = *r.pick(&[&b"."[..], b"..", b"absent", b"/dev/null"]);
                c.op("link", &[&n, to], Expect::Any);
                linked.push(n);
            } else {
                let x: &[u8] = if r.chance(1, 6) { *r.pick(&[&b""[..], b"ref: refs/heads/master\n", b"junk", b"\n"]) } else { b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\n" };
                c.op("file", &[&n, x], Expect::Any);
                if x.len() != 41 {
                    linked.push(n);
                }
            }
        }
    }
    if r.chance(1, 2) {
        c.op("dir", &[b"refs/heads/empty/dir"], Expect::Any);
    }
    names.sort();
    let of = |p: &[&str]| -> Vec<Vec<u8>> { names.iter().filter(|n| p.iter().any(|p| n.starts_with(p.as_bytes()))).cloned().collect() };
    c.op("names", &[b"heads"], is(names_text(&of(&["refs/heads/"]))));
    c.op("names", &[b"tags"], is(names_text(&of(&["refs/tags/"]))));
    c.op("names", &[b"remotes"], is(names_text(&of(&["refs/remotes/"]))));
    c.op("names", &[b"all"], is(names_text(&of(&["refs/heads/", "refs/tags/", "refs/remotes/"]))));
    for n in of(&["refs/"]).into_iter().filter(|n| !linked.contains(n)) {
        c.op("ref-get", &[&n], is("ok direct aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"));
    }
    c
}
fn names_missing(r: &mut Rng) -> Case {
    let mut c = Case::new("list the references when folders are missing");
    if r.chance(1, 2) {
        c.op("rmdir", &[b"refs/heads"], Expect::Any);
    }
    if r.chance(1, 2) {
        c.op("rmdir", &[b"refs/tags"], Expect::Any);
    }
    let all = r.chance(1, 4);
    if all {
        c.op("rmdir", &[b"refs"], Expect::Any);
    }
    let mut n = 0;
    if r.chance(1, 2) {
        c.file("refs/remotes/origin/x", b"x");
        n = 1;
    }
    let x: Vec<Vec<u8>> = if n == 1 { vec![b"refs/remotes/origin/x".to_vec()] } else { vec![] };
    c.op("names", &[b"heads"], is("ok 0"));
    c.op("names", &[b"tags"], is("ok 0"));
    c.op("names", &[b"remotes"], is(names_text(&x)));
    c.op("names", &[b"all"], is(names_text(&x)));
    c
}
fn ref_escape(r: &mut Rng) -> Case {
    let mut c = Case::new("names that lead out of the git directory");
    c.op("outside", &[b"secret", b"ref: refs/heads/leaked\n"], Expect::Any);
    c.op("outside", &[b"dir/secret", b"ref: refs/heads/leaked\n"], Expect::Any);
    c.file("HEAD", b"ref: refs/heads/master\n");
    c.file("refs/heads/x/y", b"ref: refs/heads/master\n");
    let names: [&[u8]; 14] = [
        b"../secret",
        b"../dir/secret",
        b"refs/../../secret",
        b"refs/heads/../../../secret",
        b"refs/heads/x/../../../../secret",
        b"./../secret",
        b"..//secret",
        b"/etc/passwd",
        b"/",
        b"..",
        b"",
        b"../.git/../secret",
        b"//etc/hostname",
        b"refs/heads/x/y/../../../../../secret",
    ];
    for _ in 0..3 {
        let n = *r.pick(&names);
        let t = *r.pick(&["ref-get", "ref-parse", "ref-file"]);
        c.op(t, &[n], Expect::NotOk);
    }
    // through the contents of a reference
    let n = *r.pick(&names[..6]);
    let mut s = b"ref: ".to_vec();
    s.extend(n);
    s.push(b'\n');
    c.file("refs/heads/evil", &s);
    c.op("ref-peel", &[b"refs/heads/evil"], is("err name"));
    c
}
fn ref_inside(r: &mut Rng) -> Case {
    let mut c = Case::new("names inside of the git directory");
    let mut names: Vec<Vec<u8>> = vec![b"HEAD".to_vec(), b"refs/heads/..x".to_vec(), b"refs/heads/a..b".to_vec(), b"refs/heads/...".to_vec(), b"refs/remotes/o/HEAD".to_vec(), b"refs/heads/\xff\xfe".to_vec()];
    names.push(ref_name(r));
    for n in &names {
        c.op("file", &[n, b"ref: refs/heads/ok\n"], Expect::Any);
    }
    let n = r.pick(&names).clone();
    let plain = n.split(|c| *c == b'/').all(|p| !p.is_empty() && p != b"." && p != b"..");
    if plain {
        c.op("ref-get", &[&n], is(format!("ok symbolic {}", b(b"refs/heads/ok"))));
    }
    c.op("ref-get", &[b"refs/heads/absent"], is("err ref-notfound"));
    c.op("ref-get", &[b"refs/heads"], Expect::NotOk);
    // a name is the whole path of its file
    for from in [&b"refs/"[..], b"refs/heads/", b"refs/tags/", b"refs/remotes/"] {
        if let Some(short) = n.strip_prefix(from) {
            if plain && !names.iter().any(|x| x == short) {
                c.op("ref-get", &[short], is("err ref-notfound"));
            }
        }
    }
    c
}

// ---- P22 .. P25 -------------------------------------------------------------------------------

fn panic_objects(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as a stored object");
    let id = r.id();
    let z = match r.below(5) {
        0 => {
            let n = r.below(200);
            r.bytes(n)
        }
        1 => {
            let raw = envelope_raw(r);
            let mut z = zlib(&raw);
            mutate(r, &mut z);
            z
        }
        _ => {
            let k = kind(r);
            let mut bd = body(r, k, true);
            bd.truncate(4000);
            mutate(r, &mut bd);
            let mut raw = obj_raw(k, &bd);
            if r.chance(1, 4) {
                mutate(r, &mut raw);
            }
            compress(r, &raw)
        }
    };
    c.loose(&id, &z);
    c.object(&id, Expect::Any);
    c
}
fn panic_objects_hook(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as an object, in any pieces");
    for _ in 0..3 {
        let k = kind(r);
        let mut bd = body(r, k, true);
        bd.truncate(3000);
        mutate(r, &mut bd);
        let mut raw = obj_raw(k, &bd);
        match r.below(6) {
            0 => mutate(r, &mut raw),
            1 => raw = envelope_raw(r),
            2 => {
                let n = r.below(60);
                raw = r.bytes(n)
            }
            _ => (),
        }
        let mut s = script(r, true);
        if r.chance(1, 4) {
            s.push(255);
        }
        c.op("h-parse", &[&raw, &s], Expect::Any);
    }
    c
}
fn panic_ids(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as an id");
    let n = r.below(64);
    let t = if r.chance(1, 2) { r.bytes(n) } else { hexish(r, n) };
    c.op("id-hex", &[&t], Expect::Any);
    c.op("short-hex", &[&t], Expect::Any);
    c.op("direct", &[&t], Expect::Any);
    c
}
fn panic_packs(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as a pack and its index");
    let n = r.range(1, 6);
    let deep = r.chance(1, 2);
    let (objs, mut es) = delta_pack(r, n, deep);
    for e in es.iter_mut() {
        if r.chance(1, 4) {
            let d = match e {
                PEntry::Full { data, .. } => data,
                PEntry::Ofs { delta, .. } => delta,
                PEntry::Ref { delta, .. } => delta,
                PEntry::Raw(x) => x,
            };
            d.truncate(4000);
            mutate(r, d);
        }
    }
    if r.chance(1, 4) {
        let i = r.below(n);
        let mut e = match r.below(3) {
            0 => r.bytes(14),
            1 => {
                let mut e = entry_header(6, r.next() >> r.clone().below(64));
                e.extend(ofs_varint(r.next() >> r.clone().below(64)));
                e
            }
            _ => {
                let mut e = entry_header(r.below(8) as u8, r.next() >> r.clone().below(64));
                e.extend(r.bytes(20));
                e
            }
        };
        let d = small(r, 30);
        e.extend(zlib(&d));
        if i > 0 || n > 0 {
            es[i] = PEntry::Raw(e);
        }
    }
    let mut p = build_pack(&es, &[], 6, 2);
    let mut ents: Vec<(Id20, u64)> = objs.iter().map(|o| o.id).zip(p.offsets.iter().cloned()).collect();
    if r.chance(1, 4) {
        let i = r.below(n);
        ents[i].1 = match r.below(4) {
            0 => u64::MAX,
            1 => p.bytes.len() as u64 - r.below(40) as u64,
            2 => 1 << 63,
            _ => r.below(p.bytes.len()) as u64,
        };
    }
    let mut idx = build_idx_v2(&ents, &p.sum, |_, _| false);
    if r.chance(1, 3) {
        idx = index_for(r, &ents, &p.sum);
    }
    match r.below(6) {
        0 => damage_index(r, &mut idx),
        1 => mutate(r, &mut p.bytes),
        2 => {
            // large offsets that lead nowhere
            let k = idx.len() - 40 - 4 * r.range(1, n);
            if k + 4 <= idx.len() {
                idx[k..k + 4].copy_from_slice(&(0x8000_0000u32 | r.below(3) as u32).to_be_bytes());
            }
        }
        _ => (),
    }
    c.pack("p", &p.bytes, &idx);
    for o in &objs {
        c.object(&o.id, Expect::Any);
    }
    c.object(&r.id(), Expect::Any);
    c
}
fn panic_packs_hook(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as a delta, a header, an index");
    match r.below(4) {
        0 => {
            let base = small(r, 40);
            let (mut d, _) = delta_bytes(r, &base);
            mutate(r, &mut d);
            let s = script(r, true);
            c.op("h-delta", &[&base, &d, &s], Expect::Any);
        }
        1 => {
            let n = r.below(30);
            let d = r.bytes(n);
            c.op("h-delta", &[&d, &d, &[]], Expect::Any);
            c.op("h-header", &[&d, &[]], Expect::Any);
            c.op("h-offset", &[&d, &[]], Expect::Any);
        }
        2 => {
            let d: Vec<u8> = (0..r.range(1, 30)).map(|_| r.byte() | 0x80).collect();
            let s = script(r, true);
            c.op("h-header", &[&d, &s], Expect::Any);
            c.op("h-offset", &[&d, &s], Expect::Any);
            c.op("h-delta", &[&[], &d, &s], Expect::Any);
        }
        _ => {
            let (ents, mut idx, _) = some_index(r, 20);
            for _ in 0..r.range(1, 3) {
                if idx.len() > 1100 {
                    damage_index(r, &mut idx);
                }
            }
            c.file("i.idx", &idx);
            for _ in 0..6 {
                let id = near(r, &ents);
                let k = r.range(2, 20);
                c.op("h-index", &[b"i.idx", hex(&id[..k]).as_bytes()], Expect::Any);
            }
        }
    }
    c
}
fn panic_refs(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as a reference");
    for _ in 0..4 {
        let mut d = if r.chance(1, 3) {
            let n = r.below(60);
            r.bytes(n)
        } else {
            ref_content(r)
        };
        if r.chance(2, 3) {
            mutate(r, &mut d);
        }
        c.op("ref", &[&d], Expect::Any);
        let s = script(r, true);
        c.op("ref-read", &[&d, &s], Expect::Any);
    }
    c
}
fn panic_ref_names(r: &mut Rng) -> Case {
    let mut c = Case::new("any bytes as the name of a reference");
    let n = r.below(20);
    let name = if r.chance(1, 2) { r.bytes(n) } else { r.from(b"./\\a\0\xff ", n) };
    let mut s = b"ref: ".to_vec();
    s.extend(&name);
    c.file("HEAD", &s);
    c.op("ref-get", &[&name], Expect::Any);
    c.op("ref-file", &[&name], Expect::Any);
    c.op("head-peel", &[], Expect::Any);
    c.op("names", &[b"all"], Expect::Any);
    c
}
const SMALL_INPUT_MEMORY: u64 = 4 << 20;
fn huge(r: &mut Rng) -> u64 {
    let base = *r.pick(&[16u64 << 20, 100 << 20, 1 << 30, 1 << 32, 1 << 40, 1 << 62, i64::MAX as u64, u64::MAX, u64::MAX - 8, u32::MAX as u64]);
    base - r.below(30) as u64
}
fn memory_lengths(r: &mut Rng) -> Case {
    let mut c = Case::new("a small input that declares a large length");
    let n = huge(r);
    let d = small(r, 100);
    let id = r.id();
    match r.below(6) {
        0 => {
            let k = kind(r);
            let mut raw = format!("{} {}\0", k, n).into_bytes();
            raw.extend(&d);
            c.loose(&id, &zlib(&raw));
        }
        1 => {
            let mut e = entry_header(*r.pick(&[1, 2, 3, 4]), n);
            e.extend(zlib(&d));
            let p = build_pack(&[PEntry::Raw(e)], &[], 6, 2);
            c.pack("p", &p.bytes, &index_for(r, &[(id, p.offsets[0])], &p.sum));
        }
        2 | 3 => {
            // a delta with a large result, or a large delta
            let base = b"base data".to_vec();
            let bl = if r.chance(1, 2) { base.len() as u64 } else { n };
            let mut delta = size_varint(bl);
            delta.extend(size_varint(n));
            delta.extend(&d);
            let mut e = entry_header(7, if r.chance(1, 2) { delta.len() as u64 } else { n });
            let bid = r.id();
            e.extend(bid);
            e.extend(zlib(&delta));
            let p = build_pack(&[PEntry::Full { ty: 3, data: base }, PEntry::Raw(e)], &[], 6, 2);
            c.pack("p", &p.bytes, &index_for(r, &[(bid, p.offsets[0]), (id, p.offsets[1])], &p.sum));
        }
        4 => {
            let p = build_pack(&[PEntry::Full { ty: 3, data: d }], &[], 6, 2);
            let mut idx = build_idx_v2(&[(id, p.offsets[0])], &p.sum, |_, _| false);
            let x = (n as u32).max(1 << 24);
            let from = r.below(256);
            for i in from..256 {
                idx[8 + 4 * i..12 + 4 * i].copy_from_slice(&x.to_be_bytes());
            }
            c.pack("p", &p.bytes, &idx);
        }
        _ => {
            let mut p = build_pack(&[PEntry::Full { ty: 3, data: d }], &[], 6, 2);
            let x = (n as u32).max(1 << 24);
            p.bytes[8..12].copy_from_slice(&x.to_be_bytes());
            c.pack("p", &p.bytes, &index_for(r, &[(id, p.offsets[0])], &p.sum));
        }
    }
    c.op("memory", &[b"object", &id], Expect::AtMost(SMALL_INPUT_MEMORY));
    c
}
fn memory_inputs(r: &mut Rng) -> Case {
    let mut c = Case::new("memory in proportion to the input");
    let id = r.id();
    let k = kind(r);
    let n = *r.pick(&[0usize, 1000, 100_000, 1_000_000]);
    let bd: Vec<u8> = match k {
        "tree" => {
            let mut v = vec![];
            while v.len() < n {
                v.extend(b"1 \0");
                v.extend(r.id());
            }
            v
        }
        "commit" => {
            let mut v = b"tree aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\n".to_vec();
            while v.len() < n / 2 {
                v.extend(b"parent aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\n");
            }
            v.extend(b"author A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\n\n");
            while v.len() < n {
                v.extend(b"message\n");
            }
            v
        }
        "tag" => {
            let mut v = b"object aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\ntype tree\ntag ".to_vec();
            v.extend(std::iter::repeat(b't').take(n));
            v.extend(b"\n\nm");
            v
        }
        _ => r.bytes(n),
    };
    c.loose(&id, &zlib(&obj_raw(k, &bd)));
    c.op("memory", &[b"object", &id], Expect::AtMost(SMALL_INPUT_MEMORY + 16 * bd.len() as u64));
    c
}
