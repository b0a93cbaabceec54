@mod object::database::packed::pack src=src/object/database/packed/pack.rs
use crate::shim::*;
use crate::shim::io::{self, Read};
use crate::shim::bytes::{Bytes, BytesMut};
use crate::shim::varint::*;
use crate::shim::zerocopy::*;
use crate::object::*;
use crate::object::kinds::*;
use crate::object::parse::ParseObjectError;
use crate::object::database::packed::delta::{DeltaError, delta_apply, apply_delta};
use crate::object::database::packed::index::{FindIndexOffsetError, IndexFile, index_ok, lemma_one_hit};
use crate::object::database::reader::ObjectReader;
use crate::shim::lock::{Lockable, Mutex};
use crate::shim::dashmap::*;
use crate::shim::smallvec::SmallVec;
use crate::shim::io::{Seek, SeekFrom, suffix, seek_pos};
use crate::shim::fs::File;
use crate::shim::path::{PathBuf, PathLike};
use crate::shim::world::held;
use crate::shim::zlib::{inflate, inflate_bad};
use crate::parse;
use crate::parse::buffer::{byte_pred, first_end, decides, huge};
use vstd::arithmetic::power2::*;
broadcast use {crate::shim::bits::masks, crate::shim::conv::lemma_sub_sub, crate::shim::varint::lemma_vint};
@enum ReadPackFileError
@enum PackFileVersion
@struct PackFileHeader frombytes
@struct PackFile
@struct ChainEntry
@type Chain
@const PackFile::SIGNATURE
@const PackFileHeader::LEN
@const ObjectHeader::MAX_PACKED_LEN
@const ObjectHeader::MAX_DELTA_OFFSET_LEN

/// the kinds which the header of an entry can name
pub open spec fn pack_kind(b: u8) -> Option<ObjectKind> {
    let k = (b / 16) % 8;
    if k == 1 { Some(ObjectKind::Commit) } else if k == 2 { Some(ObjectKind::Tree) } else if k == 3 { Some(ObjectKind::Blob) }
    else if k == 4 { Some(ObjectKind::Tag) } else if k == 6 { Some(ObjectKind::OfsDelta) } else if k == 7 { Some(ObjectKind::RefDelta) } else { None }
}
/// the header of the entry at the start of `s`: kind, length and how many bytes the header takes
pub open spec fn entry_header(s: Seq<u8>) -> Option<(ObjectKind, usize, int)> {
    match vint_len(s) {
        Some(n) => {
            let len = s[0] % 16 + 16 * le128(s.subrange(1, n));
            match pack_kind(s[0]) { Some(k) => if n <= 10 && len <= usize::MAX { Some((k, len as usize, n)) } else { None }, None => None }
        }
        None => None,
    }
}
/// the distance to the base, most significant byte first, where each byte but the last stands for one more than its bits
pub open spec fn ofs128(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s.len() == 1 { (s[0] & 0x7f) as nat } else { (ofs128(s.drop_last()) + 1) * 128 + (s.last() & 0x7f) as nat }
}
pub proof fn lemma_ofs(w: Seq<u8>, p: int)
    requires 1 < p <= w.len()
    ensures ofs128(w.subrange(0, p)) == (ofs128(w.subrange(0, p - 1)) + 1) * 128 + (w[p - 1] & 0x7f), w[p - 1] & 0x7f < 128, 1u64 << 7 == 128
{
    assert(1u64 << 7 == 128) by (bit_vector);
    assert(w.subrange(0, p).drop_last() =~= w.subrange(0, p - 1));
    let b = w[p - 1];
    assert(b & 0x7f < 128) by (bit_vector);
}
pub open spec fn delta_dist(s: Seq<u8>) -> Option<(u64, int)> {
    match vint_len(s) {
        Some(n) => if n <= 10 { Some((if ofs128(s.subrange(0, n)) <= u64::MAX { ofs128(s.subrange(0, n)) as u64 } else { u64::MAX }, n)) } else { None },
        None => None,
    }
}
pub proof fn lemma_kind_bits(b: u8)
    ensures (b & 0b0111_0000) >> 4 == (b / 16) % 8, b & 0b0000_1111 == b % 16
{ assert((b & 0b0111_0000) >> 4 == (b / 16) % 8 && b & 0b0000_1111 == b % 16) by (bit_vector); }

@fn Buffer::read_pack_file_header
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(h) => old(self).rem().len() >= 12 && PackFileHeader::zok(old(self).rem().subrange(0, 12), h),
            Err(ReadPackFileError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => old(self).rem().len() < 12 && !old(self).reader.broken(),
        }
@after let:range
    proof { assert(self.data().subrange(range.start as int, range.end as int) =~= old(self).rem().subrange(0, 12)); }
@end
@fn Buffer::read_pack_object_header
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(h) => entry_header(old(self).rem()) matches Some((k, len, n)) && h.kind == k && h.len == len && final(self).pos == old(self).pos + n
                && final(self).rem() == old(self).rem().subrange(n, old(self).rem().len() as int),
            Err(ReadPackFileError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => entry_header(old(self).rem()) is None,
        }
@start
    proof { assert(byte_pred(stop())); }
@closure 0
    |$0: &[u8]| -> (o: Option<usize>) requires $0@.len() <= 0x1000 ensures first_end($0@, stop(), o)
@closure 1
    |$0: &u8| -> (o: bool) ensures o == $body
@after let:range
    let ghost s = old(self).rem();
    let ghost n = range.end - range.start;
    let ghost w = s.subrange(0, n);
    proof {
        assert(self.data().subrange(range.start as int, range.end as int) =~= w);
        assert(vint_len(s) == Some(n));
        lemma_kind_bits(s[0]);
        assert(w.subrange(1, n) =~= s.subrange(1, n));
        assert(self.rem() =~= s.subrange(n, s.len() as int));
    }
@before let:shift
    proof {
        lemma2_to64();
        assert(parser.rem() =~= s.subrange(1, n));
    }
@loop 0 while
    invariant parser.wf(), parser.all() == w, w.len() == n, n <= 10, 1 <= parser.pos, shift == 4 + 7 * (parser.pos - 1), len < pow2(shift as nat),
        len + le128(parser.rem()) * pow2(shift as nat) == s[0] % 16 + 16 * le128(s.subrange(1, n)),
        vint_len(s) == Some(n), pack_kind(s[0]) == Some(kind), w == s.subrange(0, n), self.same(old(self)), s == old(self).rem(), self.pos == old(self).pos + n,
        self.rem() == s.subrange(n, s.len() as int),
    decreases parser.rem().len()
@loopstart 0
    let ghost r0 = parser.rem();
    proof { lemma_le128_step(len as int, r0, shift); }
@after let:bits
    proof {
        let r1 = parser.rem();
        assert(r1 =~= r0.skip(1));
        assert(bits == (r0[0] & 0x7f));
        assert(bits < 128) by { let b = r0[0]; assert(b & 0x7f < 128) by (bit_vector); }
        lemma_pow2_pos((shift + 7) as nat);
        assert(le128(r1) * pow2((shift + 7) as nat) >= 0) by (nonlinear_arith);
        if shift < 64 { lemma_shift_ok(bits, shift); }
        else { lemma_pow2_strictly_increases(63, shift as nat); lemma2_to64_rest(); }
    }
@after let:shifted
    proof { if shifted >> shift == bits { lemma_or_add(len, shifted, bits, shift); } }
@tail
    proof {
        assert(parser.rem().len() == 0 && le128(parser.rem()) == 0);
        assert(0nat * pow2(shift as nat) == 0) by (nonlinear_arith);
    }
@end
@fn Buffer::read_delta_offset
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(d) => delta_dist(old(self).rem()) matches Some((v, n)) && d == v && final(self).pos == old(self).pos + n
                && final(self).rem() == old(self).rem().subrange(n, old(self).rem().len() as int),
            Err(ReadPackFileError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => delta_dist(old(self).rem()) is None,
        }
@start
    proof { assert(byte_pred(stop())); }
@closure 0
    |$0: &[u8]| -> (o: Option<usize>) requires $0@.len() <= 0x1000 ensures first_end($0@, stop(), o)
@closure 1
    |$0: &u8| -> (o: bool) ensures o == $body
@after let:range
    let ghost s = old(self).rem();
    let ghost n = range.end - range.start;
    let ghost w = s.subrange(0, n);
    proof {
        assert(self.data().subrange(range.start as int, range.end as int) =~= w);
        assert(vint_len(s) == Some(n));
        assert(self.rem() =~= s.subrange(n, s.len() as int));
    }
@loop 0 while
    invariant parser.wf(), parser.all() == w, w.len() == n, n <= 10, 1 <= parser.pos, 
        offset == if ofs128(w.subrange(0, parser.pos as int)) <= u64::MAX { ofs128(w.subrange(0, parser.pos as int)) as u64 } else { u64::MAX },
        vint_len(s) == Some(n), w == s.subrange(0, n), self.same(old(self)), s == old(self).rem(), self.pos == old(self).pos + n,
        self.rem() == s.subrange(n, s.len() as int),
    decreases parser.rem().len()
@loopend 0
    proof {
        lemma_ofs(w, parser.pos as int);
    }
@tail
    proof { assert(w.subrange(0, n) =~= w); }
@end
@fn Buffer::read_delta_reference
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(id) => old(self).rem().len() >= 20 && id.view() == old(self).rem().subrange(0, 20) && final(self).pos == old(self).pos + 20,
            Err(ReadPackFileError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => old(self).rem().len() < 20 && !old(self).reader.broken(),
        }
@end

// ---------------------------------------------------------------- objects in a pack
/// where the data of the entry at `off` begins, and the entry its delta is based on (if it is one)
pub enum Base { None, At(int), Id(Seq<u8>) }
pub struct Ent { pub kind: ObjectKind, pub len: usize, pub base: Base, pub data: int }
pub open spec fn ent(w: Seq<u8>, off: int) -> Option<Ent> {
    match entry_header(suffix(w, off)) {
        None => None,
        Some((kind, len, n)) => {
            let t = suffix(w, off + n);
            if kind == ObjectKind::OfsDelta {
                match delta_dist(t) { Some((d, m)) => if d <= off { Some(Ent { kind, len, base: Base::At(off - d), data: off + n + m }) } else { None }, None => None }
            } else if kind == ObjectKind::RefDelta {
                if t.len() >= 20 { Some(Ent { kind, len, base: Base::Id(t.subrange(0, 20)), data: off + n + 20 }) } else { None }
            } else { Some(Ent { kind, len, base: Base::None, data: off + n }) }
        }
    }
}
/// the decompressed data of an entry
pub open spec fn ent_data(w: Seq<u8>, e: Ent) -> Option<Seq<u8>> {
    let z = suffix(w, e.data);
    if !huge(e.len) && !inflate_bad(z, false) && inflate(z).len() == e.len { Some(inflate(z)) } else { None }
}
pub open spec fn based(ix: IndexFile, e: Ent, boff: int) -> bool {
    match e.base { Base::None => false, Base::At(o) => boff == o, Base::Id(id) => 0 <= boff <= u64::MAX && ix.lists(id, boff as u64) }
}
/// the entry at `off` holds the object (k, d), with a chain of fewer than `n` deltas
pub open spec fn obj(n: nat, w: Seq<u8>, ix: IndexFile, off: int, k: ObjectKind, d: Seq<u8>) -> bool
    decreases n
{
    n > 0 && ent(w, off) is Some && ent_data(w, ent(w, off)->0) is Some && {
        let e = ent(w, off)->0;
        let z = ent_data(w, e)->0;
        if e.base is None { k == e.kind && d == z }
        else { exists|boff: int, b: Seq<u8>| #[trigger] wit(boff, b) && based(ix, e, boff) && obj((n - 1) as nat, w, ix, boff, k, b) && delta_apply(b, z) == Some(d) }
    }
}
pub open spec fn wit(boff: int, b: Seq<u8>) -> bool { true }
/// the entry at `off` holds the object (k, d)
pub open spec fn is_obj(w: Seq<u8>, ix: IndexFile, off: int, k: ObjectKind, d: Seq<u8>) -> bool { exists|n: nat| #[trigger] obj(n, w, ix, off, k, d) }
/// the entry at `off` cannot be read as an object with a chain of fewer than `n` deltas
pub open spec fn no_obj(n: nat, w: Seq<u8>, ix: IndexFile, off: int) -> bool { forall|k: ObjectKind, d: Seq<u8>| !#[trigger] obj(n, w, ix, off, k, d) }
pub proof fn lemma_unique(n: nat, m: nat, w: Seq<u8>, ix: IndexFile, off: int, k: ObjectKind, d: Seq<u8>, k2: ObjectKind, d2: Seq<u8>)
    requires ix.wf(), ix.good(), obj(n, w, ix, off, k, d), obj(m, w, ix, off, k2, d2)
    ensures k == k2, d == d2
    decreases n
{
    let e = ent(w, off)->0;
    let z = ent_data(w, e)->0;
    if !(e.base is None) {
        let (bo, b) = choose|bo: int, b: Seq<u8>| #[trigger] wit(bo, b) && based(ix, e, bo) && obj((n - 1) as nat, w, ix, bo, k, b) && delta_apply(b, z) == Some(d);
        let (bo2, b2) = choose|bo: int, b: Seq<u8>| #[trigger] wit(bo, b) && based(ix, e, bo) && obj((m - 1) as nat, w, ix, bo, k2, b) && delta_apply(b, z) == Some(d2);
        assert(bo == bo2) by { if e.base is Id { crate::object::database::packed::index::lemma_good(ix, e.base->Id_0, bo as u64, bo2 as u64); } }
        lemma_unique((n - 1) as nat, (m - 1) as nat, w, ix, bo, k, b, k2, b2);
    }
}
/// A cache that nothing was put into yet is one for the objects of this pack as seen through this
/// index, as a pack file is used with one index only.
pub broadcast axiom fn axiom_paired(p: PackFile, ix: IndexFile)
    requires p.cache.fresh()
    ensures #[trigger] p.cache_ok(ix);
impl PackFile {
    pub open spec fn bytes(&self) -> Seq<u8> { self.file.key().0 }
    pub open spec fn fails(&self) -> bool { self.file.key().1 }
    /// every object in the cache is the one at its offset
    pub open spec fn cache_ok(&self, ix: IndexFile) -> bool {
        forall|k: u64, v: (ObjectHeader, Bytes)| #[trigger] self.cache.ok(k, v) == (v.0.len == v.1.view().len() && is_obj(self.bytes(), ix, k as int, v.0.kind, v.1.view()))
    }
    /// `ix` is the index this pack file is used with
    pub open spec fn wf(&self, ix: IndexFile) -> bool { !self.file.key().2 && self.cache_ok(ix) && ix.wf() && self.bytes().len() <= i64::MAX }
}
/// the deltas in `c` lead from the entry at `off` to the one at `base`
pub open spec fn key_at(c: Seq<ChainEntry>, base: u64, i: int) -> u64 { if 0 <= i < c.len() { c[i].key } else { base } }
pub open spec fn link(w: Seq<u8>, ix: IndexFile, c: ChainEntry, base: u64) -> bool {
    ent(w, c.key as int) matches Some(e) && based(ix, e, base as int) && e.kind == c.header.kind && e.len == c.header.len && e.data == c.offset
}
pub open spec fn links(w: Seq<u8>, ix: IndexFile, c: Seq<ChainEntry>, off: u64, base: u64) -> bool {
    key_at(c, base, 0) == off && forall|i: int| 0 <= i < c.len() ==> #[trigger] link(w, ix, c[i], key_at(c, base, i + 1))
}
/// the deltas in `c` lead from the entry at `off` to the object (k, d)
pub open spec fn reach(w: Seq<u8>, ix: IndexFile, c: Seq<ChainEntry>, off: u64, k: ObjectKind, d: Seq<u8>) -> bool {
    exists|base: u64| #[trigger] links(w, ix, c, off, base) && is_obj(w, ix, base as int, k, d)
}
/// if the entry at `off` is an object then so is the one the chain has led to
pub open spec fn follows(w: Seq<u8>, ix: IndexFile, off: u64, len: int, base: u64) -> bool {
    forall|n: nat| #[trigger] no_obj(n, w, ix, off as int) || (n >= len && !no_obj((n - len) as nat, w, ix, base as int))
}
/// no chain of any length makes the entry at `off` an object
pub open spec fn never(w: Seq<u8>, ix: IndexFile, off: int) -> bool { forall|n: nat| #[trigger] no_obj(n, w, ix, off) }
pub proof fn lemma_based(ix: IndexFile, e: Ent, a: int, b: int)
    requires ix.wf(), ix.good(), based(ix, e, a), based(ix, e, b)
    ensures a == b
{ if e.base is Id { crate::object::database::packed::index::lemma_good(ix, e.base->Id_0, a as u64, b as u64); } }
/// a delta is an object only if its base is
pub proof fn lemma_under(n: nat, w: Seq<u8>, ix: IndexFile, off: int, e: Ent, boff: int)
    requires ix.wf(), ix.good(), ent(w, off) == Some(e), based(ix, e, boff), !no_obj(n, w, ix, off)
    ensures n > 0, !no_obj((n - 1) as nat, w, ix, boff)
{
    let (k, d) = choose|k: ObjectKind, d: Seq<u8>| #[trigger] obj(n, w, ix, off, k, d);
    let z = ent_data(w, e)->0;
    let (bo, b) = choose|bo: int, b: Seq<u8>| #[trigger] wit(bo, b) && based(ix, e, bo) && obj((n - 1) as nat, w, ix, bo, k, b) && delta_apply(b, z) == Some(d);
    lemma_based(ix, e, boff, bo);
}
pub proof fn lemma_follow(w: Seq<u8>, ix: IndexFile, off: u64, len: int, cur: u64, e: Ent, base: u64)
    requires ix.wf(), ix.good(), follows(w, ix, off, len, cur), ent(w, cur as int) == Some(e), based(ix, e, base as int), len >= 0
    ensures follows(w, ix, off, len + 1, base)
{
    assert forall|n: nat| #[trigger] no_obj(n, w, ix, off as int) || (n >= len + 1 && !no_obj((n - (len + 1)) as nat, w, ix, base as int)) by {
        if !no_obj(n, w, ix, off as int) {
            lemma_under((n - len) as nat, w, ix, cur as int, e, base as int);
            assert((n - len - 1) as nat == (n - (len + 1)) as nat);
        }
    }
}
/// an entry without an object at the end of a chain: there is none at its start
pub proof fn lemma_stuck(w: Seq<u8>, ix: IndexFile, off: u64, len: int, cur: u64, n: nat)
    requires follows(w, ix, off, len, cur), len >= 0, n <= len || never(w, ix, cur as int)
    ensures no_obj(n, w, ix, off as int)
{
    if !no_obj(n, w, ix, off as int) {
        assert(no_obj(0, w, ix, cur as int));
        assert(no_obj((n - len) as nat, w, ix, cur as int));
    }
}
pub proof fn lemma_no_ent(w: Seq<u8>, ix: IndexFile, off: int)
    requires ent(w, off) matches Some(e) ==> ent_data(w, e) is None || (!(e.base is None) && forall|b: int| !based(ix, e, b))
    ensures never(w, ix, off)
{ }
pub proof fn lemma_begin(w: Seq<u8>, ix: IndexFile, off: u64)
    ensures links(w, ix, Seq::empty(), off, off), follows(w, ix, off, 0, off)
{ assert forall|n: nat| #[trigger] no_obj(n, w, ix, off as int) || !no_obj((n - 0) as nat, w, ix, off as int) by { assert((n - 0) as nat == n); } }
pub proof fn lemma_plain(w: Seq<u8>, ix: IndexFile, off: int)
    requires ent(w, off) is Some, ent(w, off)->0.base is None, ent_data(w, ent(w, off)->0) is Some
    ensures is_obj(w, ix, off, ent(w, off)->0.kind, ent_data(w, ent(w, off)->0)->0)
{ assert(obj(1, w, ix, off, ent(w, off)->0.kind, ent_data(w, ent(w, off)->0)->0)); }
pub proof fn lemma_entry_header(s: Seq<u8>)
    ensures entry_header(s) matches Some((k, len, n)) ==> 0 < n <= s.len()
{ lemma_vint_pos(s); }
/// the data of an entry begins in the file
pub proof fn lemma_ent_in(w: Seq<u8>, off: int)
    ensures ent(w, off) matches Some(e) ==> off < e.data <= w.len()
{
    lemma_vint_pos(suffix(w, off));
    if let Some((k, len, n)) = entry_header(suffix(w, off)) { lemma_vint_pos(suffix(w, off + n)); }
}
pub proof fn lemma_push(w: Seq<u8>, ix: IndexFile, c: Seq<ChainEntry>, x: ChainEntry, off: u64, cur: u64, base: u64, n: nat)
    requires ix.wf(), links(w, ix, c, off, cur), x.key == cur, link(w, ix, x, base)
    ensures links(w, ix, c.push(x), off, base),
        ix.good() && follows(w, ix, off, c.len() as int, cur) ==> follows(w, ix, off, c.len() as int + 1, base) && (n <= c.len() + 1 ==> no_obj(n, w, ix, off as int))
{
    let d = c.push(x);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] link(w, ix, d[i], key_at(d, base, i + 1)) by { if i < c.len() { assert(link(w, ix, c[i], key_at(c, cur, i + 1))); } }
    if ix.good() && follows(w, ix, off, c.len() as int, cur) {
        lemma_follow(w, ix, off, c.len() as int, cur, ent(w, cur as int)->0, base);
        if n <= c.len() + 1 { lemma_stuck(w, ix, off, c.len() as int + 1, base, n); }
    }
}
/// the deltas of a chain
pub proof fn lemma_chain(w: Seq<u8>, ix: IndexFile, c: Seq<ChainEntry>, off: u64, base: u64, i: int)
    requires ix.wf(), ix.good(), links(w, ix, c, off, base), 0 <= i <= c.len(), never(w, ix, key_at(c, base, i) as int)
    ensures never(w, ix, off as int)
    decreases i
{
    if i > 0 {
        assert(link(w, ix, c[i - 1], key_at(c, base, (i - 1) + 1)));
        assert forall|n: nat| #[trigger] no_obj(n, w, ix, c[i - 1].key as int) by {
            if !no_obj(n, w, ix, c[i - 1].key as int) { lemma_under(n, w, ix, c[i - 1].key as int, ent(w, c[i - 1].key as int)->0, key_at(c, base, i) as int); }
        }
        lemma_chain(w, ix, c, off, base, i - 1);
    }
}
/// applying a delta to the object it is based on
pub proof fn lemma_delta(w: Seq<u8>, ix: IndexFile, c: ChainEntry, boff: u64, k: ObjectKind, b: Seq<u8>)
    requires ix.wf(), link(w, ix, c, boff), is_obj(w, ix, boff as int, k, b)
    ensures
        ent_data(w, ent(w, c.key as int)->0) matches Some(z) ==> (delta_apply(b, z) matches Some(d) ==> is_obj(w, ix, c.key as int, k, d)),
        ix.good() ==> (ent_data(w, ent(w, c.key as int)->0) matches Some(z) ==> delta_apply(b, z) is None) ==> never(w, ix, c.key as int)
{
    let e = ent(w, c.key as int)->0;
    let n = choose|n: nat| #[trigger] obj(n, w, ix, boff as int, k, b);
    if let Some(z) = ent_data(w, e) {
        if let Some(d) = delta_apply(b, z) { assert(wit(boff as int, b)); assert(obj((n + 1) as nat, w, ix, c.key as int, k, d)); }
    }
    if ix.good() && (ent_data(w, e) matches Some(z) ==> delta_apply(b, z) is None) {
        assert forall|m: nat| #[trigger] no_obj(m, w, ix, c.key as int) by {
            if !no_obj(m, w, ix, c.key as int) {
                let (k2, d2) = choose|k: ObjectKind, d: Seq<u8>| #[trigger] obj(m, w, ix, c.key as int, k, d);
                let z = ent_data(w, e)->0;
                let (bo, b2) = choose|bo: int, b: Seq<u8>| #[trigger] wit(bo, b) && based(ix, e, bo) && obj((m - 1) as nat, w, ix, bo, k2, b) && delta_apply(b, z) == Some(d2);
                lemma_based(ix, e, bo, boff as int);
                lemma_unique(n, (m - 1) as nat, w, ix, boff as int, k, b, k2, b2);
            }
        }
    }
}

@fn PackFile::open
    ensures match r {
        Ok(p) => p.bytes().len() >= 20 && !p.file.key().2 && be32(p.bytes()) == 0x5041434b
            && (be32(p.bytes().subrange(4, 8)) == 2 || be32(p.bytes().subrange(4, 8)) == 3)
            && p.count == be32(p.bytes().subrange(8, 12)) && p.id.view() == suffix(p.bytes(), p.bytes().len() - 20)
            && p.bytes().len() <= i64::MAX && p.cache.fresh() && held($1.pb(), p.bytes()),
        Err(_) => true,
    }
@tail
    proof { assert(file.t.fits(file.t.lkey())); }
@end
@fn PackFile::find_chain ;; alone
    requires self.wf(*$1)
    ensures match r {
        Ok((c, h, b)) => (c.view().len() < self.count || c.view().len() == 0) && h.len == b.view().len()
            && reach(self.bytes(), *$1, c.view(), $2, h.kind, b.view()),
        Err(_) => self.fails() || !$1.good() || no_obj(self.count as nat, self.bytes(), *$1, $2 as int),
    }
@start
    hide(IndexFile::off_at);
    hide(IndexFile::id_at);
    hide(index_ok);
    hide(entry_header);
    hide(delta_dist);
    hide(ent_data);
    hide(obj);
    hide(links);
    hide(is_obj);
    hide(reach);
    hide(follows);
    hide(no_obj);
    let ghost w = self.bytes();
    let ghost ix = *$1;
    let ghost off0 = $2;
    proof { lemma_begin(w, ix, off0); if ix.good() { lemma_one_hit(ix); } }
@loop 0 loop
    invariant buffer.wf(), buffer.lkey() == self.file.key(), links(w, ix, chain.view(), off0, offset), chain.view().len() < self.count || chain.view().len() == 0,
        ix.good() ==> follows(w, ix, off0, chain.view().len() as int, offset),
    decreases self.count + 1 - chain.view().len()
@loopstart 0
    let ghost c0 = chain.view();
    let ghost cur = offset;
    let ghost e0 = ent(w, cur as int);
    proof {
        lemma_entry_header(suffix(w, cur as int));
        assert forall|k: ObjectKind, d: Seq<u8>| #[trigger] is_obj(w, ix, cur as int, k, d) implies reach(w, ix, c0, off0, k, d) by { reveal(reach); }
        if ix.good() && (e0 matches Some(e) ==> ent_data(w, e) is None || (!(e.base is None) && forall|b: int| !based(ix, e, b))) {
            lemma_no_ent(w, ix, cur as int);
            lemma_stuck(w, ix, off0, c0.len() as int, cur, self.count as nat);
        }
        if e0 matches Some(e) && e.base is None && ent_data(w, e) is Some { lemma_plain(w, ix, cur as int); }
    }
@after call:seek
    proof { assert(buffer.rem() =~= suffix(w, cur as int)); }
@after let:header
    let ghost n = (entry_header(suffix(w, cur as int))->0).2;
    proof { assert(buffer.rem() =~= suffix(w, cur + n)); }
@before call:read_to_end
    proof { reveal(ent_data); }
@after call:push
    proof {
        assert(e0 is Some && based(ix, e0->0, base_offset as int));
        lemma_push(w, ix, c0, chain.view().last(), off0, cur, base_offset, self.count as nat);
        assert(chain.view() =~= c0.push(chain.view().last()));
    }
@end
/// what the pack file holds at an entry, and how the chain below it ends
@fn PackFile::apply_delta ;; alone
    requires exists|ix: IndexFile, boff: u64| self.wf(ix) && #[trigger] link(self.bytes(), ix, $3, boff) && is_obj(self.bytes(), ix, boff as int, $1, $2.view())
    ensures match r {
        Ok(x) => self.cache.ok($3.key, x),
        Err(_) => self.fails() || forall|ix: IndexFile, boff: u64| self.wf(ix) && ix.good() && #[trigger] link(self.bytes(), ix, $3, boff) && is_obj(self.bytes(), ix, boff as int, $1, $2.view())
            ==> never(self.bytes(), ix, $3.key as int),
    }
@start
    hide(obj);
    hide(is_obj);
    hide(no_obj);
    hide(never);
    hide(entry_header);
    hide(delta_dist);
    hide(delta_apply);
    let ghost w = self.bytes();
    let ghost c = $3;
    let ghost e = ent(w, c.key as int)->0;
    let ghost b = $2.view();
    proof {
        lemma_ent_in(w, c.key as int);
        assert forall|ix: IndexFile, boff: u64| self.wf(ix) && #[trigger] link(w, ix, c, boff) && is_obj(w, ix, boff as int, $1, b) implies
            (ent_data(w, e) matches Some(z) ==> (delta_apply(b, z) matches Some(d) ==> is_obj(w, ix, c.key as int, $1, d)))
            && (ix.good() ==> (ent_data(w, e) matches Some(z) ==> delta_apply(b, z) is None) ==> never(w, ix, c.key as int)) by { lemma_delta(w, ix, c, boff, $1, b); }
    }
@after call:seek
    proof { assert(buffer.rem() =~= suffix(w, e.data)); }
@after let:data
    proof { assert(ent_data(w, e) == Some(data.view())); }
@after let:result
    proof {
        assert(delta_apply(b, data.view()) == Some(result.1.view()));
        let (ix, boff) = choose|ix: IndexFile, boff: u64| self.wf(ix) && #[trigger] link(w, ix, c, boff) && is_obj(w, ix, boff as int, $1, b);
        assert(is_obj(w, ix, c.key as int, $1, result.1.view()));
        assert(self.cache.ok(c.key, result));
    }
@end
@fn PackFile::read_object ;; alone
    requires self.wf(*$1)
    ensures match r {
        Ok(o) => exists|k: ObjectKind, d: Seq<u8>| #[trigger] is_obj(self.bytes(), *$1, $2 as int, k, d) && o.holds(k, d) && !o.reader.can_fail(),
        Err(_) => self.fails() || !$1.good() || no_obj(self.count as nat, self.bytes(), *$1, $2 as int),
    }
@after call:find_chain
    let ghost w = self.bytes();
    let ghost ix = *$1;
    let ghost off = $2;
    let ghost c = chain.view();
    let ghost b0 = choose|b: u64| #[trigger] links(w, ix, c, off, b) && is_obj(w, ix, b as int, header.kind, base.view());
    let ghost mut i: int = c.len() as int;
@loop 0 for
    invariant self.wf(ix), w == self.bytes(), 0 <= i <= c.len(), __it.left() =~= c.subrange(0, i).reverse(), links(w, ix, c, off, b0),
        is_obj(w, ix, key_at(c, b0, i) as int, header.kind, base.view()), header.len == base.view().len(),
    decreases i
@loopstart 0
    proof {
        assert(link(w, ix, c[i - 1], key_at(c, b0, (i - 1) + 1)));
        if ix.good() && never(w, ix, c[i - 1].key as int) { lemma_chain(w, ix, c, off, b0, i - 1); }
    }
@loopend 0
    proof { i = i - 1; }
@end
@fn PackFile::count
    ensures r == self.count
@end
@fn PackFile::id
    ensures r == self.id
@end
