@mod object::database::packed::index src=src/object/database/packed/index.rs
use crate::shim::*;
use crate::shim::io;
use crate::shim::fs as fs_err;
use crate::shim::zerocopy::*;
use crate::shim::bytes::Bytes;
use crate::shim::iter::*;
use crate::shim::path::{PathBuf, PathLike};
use crate::shim::world::held;
use crate::object::*;
use crate::parse::Parser;
use core::ops::{Range, RangeFrom, RangeTo};
use core::cmp::Ordering;
broadcast use {crate::shim::bits::masks, crate::shim::conv::lemma_sub_sub};
@enum ReadIndexFileError
@enum FindIndexOffsetError
@enum Version
@struct IndexFile
@struct EntryV1 frombytes
@struct EntryV2 frombytes
@const IndexFile::SIGNATURE
@const IndexFile::HEADER_LEN
@const IndexFile::FAN_OUT_COUNT
@const IndexFile::FAN_OUT_LEN
@const IndexFile::ENTRY_LEN_V1
@const IndexFile::ENTRY_LEN_V2
@const IndexFile::TRAILER_LEN

/// an id is its 20 bytes
impl FromBytes for Id {
    open spec fn zsize() -> nat { 20 }
    open spec fn zalign() -> nat { 1 }
    open spec fn zok(b: Seq<u8>, v: Self) -> bool { v.view() == b }
}
// ---------------------------------------------------------------- the format
pub open spec fn is_v2(s: Seq<u8>) -> bool { s.len() >= 4 && be32(s) == 0xff744f63 }
/// what follows the header
pub open spec fn tables(s: Seq<u8>) -> Seq<u8> { if is_v2(s) { s.subrange(8, s.len() as int) } else { s } }
/// how many ids have a first byte of at most `i`
pub open spec fn fan(d: Seq<u8>, i: int) -> int { if i < 0 { 0 } else { be32(d.subrange(4 * i, 4 * i + 4)) as int } }
pub open spec fn fan_ok(d: Seq<u8>, n: int) -> bool { d.len() >= 4 * n && forall|i: int| 0 <= i < n ==> #[trigger] fan(d, i - 1) <= fan(d, i) }
pub open spec fn per(s: Seq<u8>) -> int { if is_v2(s) { 28 } else { 24 } }
/// a file that is a pack index
pub open spec fn index_ok(s: Seq<u8>) -> bool {
    let d = tables(s);
    let n = fan(d, 255);
    (is_v2(s) ==> s.len() >= 8 && be32(s.subrange(4, 8)) == 2)
    && d.len() >= 1024 && fan_ok(d, 256)
    && d.len() >= 1024 + n * per(s) + 40
    && (is_v2(s) ==> d.len() <= 1024 + n * 28 + 40 + 8 * (if n > 0 { n - 1 } else { 0 }) && (d.len() - (1024 + n * 28 + 40)) % 8 == 0)
    && (!is_v2(s) ==> d.len() == 1024 + n * 24 + 40)
}
impl IndexFile {
    pub open spec fn d(&self) -> Seq<u8> { tables(self.data.view()) }
    pub open spec fn wf(&self) -> bool {
        index_ok(self.data.view()) && self.count == fan(self.d(), 255) && ((self.version is V2) == is_v2(self.data.view())) && self.data.view().len() <= max_mem()
    }
    /// the id at position `p`, and the offset recorded for it
    /// the checksum of the pack it belongs to
    pub open spec fn pack_id(&self) -> Seq<u8> { self.data.view().subrange(self.data.view().len() - 40, self.data.view().len() - 20) }
    pub open spec fn id_at(&self, p: int) -> Seq<u8> {
        if self.version is V2 { self.d().subrange(1024 + 20 * p, 1024 + 20 * p + 20) } else { self.d().subrange(1024 + 24 * p + 4, 1024 + 24 * p + 24) }
    }
    pub open spec fn off_at(&self, p: int) -> Option<u64> {
        let d = self.d();
        let n = self.count as int;
        if self.version is V2 {
            let small = be32(d.subrange(1024 + 24 * n + 4 * p, 1024 + 24 * n + 4 * p + 4));
            if small < 0x8000_0000 { Some(small as u64) } else {
                let k = small - 0x8000_0000;
                if 1024 + 28 * n + 8 * k + 8 <= d.len() - 40 { Some(be64(d.subrange(1024 + 28 * n + 8 * k, 1024 + 28 * n + 8 * k + 8))) } else { None }
            }
        } else { Some(be32(d.subrange(1024 + 24 * p, 1024 + 24 * p + 4)) as u64) }
    }
    /// the tables agree with each other: the ids are in order, and in the range the fan-out table gives for their first byte
    #[verifier::opaque]
    pub open spec fn good(&self) -> bool {
        (forall|i: int, j: int| 0 <= i < j < self.count ==> lex(#[trigger] self.id_at(i), #[trigger] self.id_at(j)) is Less)
        && (forall|i: int| 0 <= i < self.count ==> fan(self.d(), self.id_at(i)[0] - 1) <= i < fan(self.d(), (#[trigger] self.id_at(i))[0] as int))
        && (forall|i: int| 0 <= i < self.count ==> #[trigger] self.off_at(i) is Some)
    }
    /// position `p` matches the full or abbreviated id `s`
    pub open spec fn hit(&self, p: int, s: Seq<u8>) -> bool { 0 <= p < self.count && starts_with_spec(self.id_at(p), s) }
    /// the index lists `id` with offset `off`
    pub open spec fn lists(&self, id: Seq<u8>, off: u64) -> bool { exists|p: int| #[trigger] self.hit(p, id) && id.len() == 20 && self.off_at(p) == Some(off) }
}
pub proof fn lemma_lex(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) is Equal <==> a == b, lex(b, a) == rev(lex(a, b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } } assert(a.skip(1).len() == b.skip(1).len()); } }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) is Less, lex(b, c) is Less
    ensures lex(a, c) is Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
/// a prefix sorts before what it is a prefix of
pub proof fn lemma_prefix_before(s: Seq<u8>, a: Seq<u8>)
    requires starts_with_spec(a, s)
    ensures lex(s, a) is Less || s == a
    decreases s.len()
{
    if s.len() > 0 {
        assert(a[0] == s[0]) by { assert(a.subrange(0, s.len() as int)[0] == s[0]); }
        assert(a.skip(1).subrange(0, s.len() - 1) =~= s.skip(1)) by {
            assert forall|i: int| 0 <= i < s.len() - 1 implies a.skip(1)[i] == s.skip(1)[i] by { assert(a.subrange(0, s.len() as int)[i + 1] == s[i + 1]); }
        }
        lemma_prefix_before(s.skip(1), a.skip(1));
        if s.skip(1) == a.skip(1) { assert(s =~= a) by { assert forall|i: int| 0 <= i < s.len() implies s[i] == a[i] by { if i > 0 { assert(s.skip(1)[i - 1] == a.skip(1)[i - 1]); } } assert(s.skip(1).len() == a.skip(1).len()); } }
    } else if a.len() == 0 { assert(s =~= a); }
}
/// what sorts between a prefix and something that has that prefix has it too
pub proof fn lemma_between(s: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(s, b) is Less, lex(b, c) is Less, starts_with_spec(c, s)
    ensures starts_with_spec(b, s)
    decreases s.len()
{
    if s.len() > 0 {
        assert(c.subrange(0, s.len() as int)[0] == s[0]);
        assert(c.skip(1).subrange(0, s.len() - 1) =~= s.skip(1)) by {
            assert forall|i: int| 0 <= i < s.len() - 1 implies c.skip(1)[i] == s.skip(1)[i] by { assert(c.subrange(0, s.len() as int)[i + 1] == s[i + 1]); }
        }
        lemma_between(s.skip(1), b.skip(1), c.skip(1));
        assert(b.subrange(0, s.len() as int) =~= s) by {
            assert forall|i: int| 0 <= i < s.len() implies b[i] == s[i] by { if i > 0 { assert(b.skip(1).subrange(0, s.len() - 1)[i - 1] == s.skip(1)[i - 1]); } }
        }
    } else { assert(b.subrange(0, 0) =~= s); }
}
pub proof fn lemma_full(a: Seq<u8>, s: Seq<u8>)
    requires a.len() == s.len(), starts_with_spec(a, s)
    ensures a == s
{ assert(a.subrange(0, s.len() as int) =~= a); }
pub proof fn lemma_mono(d: Seq<u8>, n: int, i: int, j: int)
    requires fan_ok(d, n), -1 <= i <= j < n
    ensures 0 <= fan(d, i) <= fan(d, j)
    decreases j - i
{
    if i < j { assert(fan(d, j - 1) <= fan(d, j)); lemma_mono(d, n, i, j - 1); }
}
pub proof fn lemma_fan(ix: IndexFile, i: int, j: int)
    requires ix.wf(), -1 <= i <= j < 256
    ensures 0 <= fan(ix.d(), i) <= fan(ix.d(), j) <= ix.count
{
    lemma_mono(ix.d(), 256, i, j);
    lemma_mono(ix.d(), 256, j, 255);
}
pub proof fn lemma_off(ix: IndexFile, p: int)
    requires ix.wf(), 0 <= p < ix.count, ix.good()
    ensures ix.off_at(p) is Some
{ reveal(IndexFile::good); }
/// an index whose tables agree has one offset for an id
pub proof fn lemma_good(ix: IndexFile, id: Seq<u8>, a: u64, b: u64)
    requires ix.wf(), ix.good(), ix.lists(id, a), ix.lists(id, b)
    ensures a == b
{
    reveal(IndexFile::good);
    let p = choose|p: int| #[trigger] ix.hit(p, id) && id.len() == 20 && ix.off_at(p) == Some(a);
    let q = choose|p: int| #[trigger] ix.hit(p, id) && id.len() == 20 && ix.off_at(p) == Some(b);
    lemma_fan(ix, 255, 255);
    lemma_full(ix.id_at(p), id);
    lemma_full(ix.id_at(q), id);
    lemma_lex(id, id);
    if p < q { assert(lex(ix.id_at(p), ix.id_at(q)) is Less); }
    if q < p { assert(lex(ix.id_at(q), ix.id_at(p)) is Less); }
}
/// an index whose tables agree lists an id once
pub proof fn lemma_one_hit(ix: IndexFile)
    requires ix.wf(), ix.good()
    ensures forall|id: Seq<u8>, p: int, q: int| id.len() == 20 && #[trigger] ix.hit(p, id) && #[trigger] ix.hit(q, id) ==> p == q
{
    reveal(IndexFile::good);
    lemma_fan(ix, 255, 255);
    assert forall|id: Seq<u8>, p: int, q: int| id.len() == 20 && #[trigger] ix.hit(p, id) && #[trigger] ix.hit(q, id) implies p == q by {
        lemma_full(ix.id_at(p), id);
        lemma_full(ix.id_at(q), id);
        lemma_lex(id, id);
        if p < q { assert(lex(ix.id_at(p), ix.id_at(q)) is Less); }
        if q < p { assert(lex(ix.id_at(q), ix.id_at(p)) is Less); }
    }
}

// ---------------------------------------------------------------- opening
@fn Version::entry_len
    ensures r == if *self is V2 { 20usize } else { 24usize }
@end
@fn IndexFile::parse ;; alone
    requires $1.wf(), $1.pos == 0, $1.all().len() <= max_mem()
    ensures match r {
        Ok(ix) => ix.wf() && ix.data == $1.buffer,
        Err(_) => !index_ok($1.all()),
    }
@start
    let ghost s = $1.all();
    let ghost buf = $1.buffer;
    let ghost h = if is_v2(s) { 8int } else { 0 };
    let ghost mut i: int = 0;
@after let:version:0
    proof { assert(is_v2(s) ==> parser.all().skip(4) =~= s.skip(4)); }
@loop 0 for
    invariant parser.wf(), parser.buffer == buf, parser.all() == s, 0 <= i <= 256, i == __i0, parser.pos == h + 4 * i, count == fan(tables(s), i - 1), fan_ok(tables(s), i),
        is_v2(s) ==> be32(s.subrange(4, 8)) == 2, (version is V2) == is_v2(s), h == if is_v2(s) { 8int } else { 0 }, h <= s.len(),
@loopstart 0
    proof { assert(parser.rem().len() >= 4 ==> be32(parser.rem()) == fan(tables(s), i)); }
@loopend 0
    proof { i = i + 1; }
@before call:into_inner
    proof {
        let d = tables(s);
        let n = fan(d, 255);
        assert(count == n && fan_ok(d, 256));
        assert(d.len() >= 1024 + n * per(s) + 40);
        assert(is_v2(s) ==> d.len() <= 1024 + n * 28 + 40 + 8 * (if n > 0 { n - 1 } else { 0 }) && (d.len() - (1024 + n * 28 + 40)) % 8 == 0);
        assert(!is_v2(s) ==> d.len() == 1024 + n * 24 + 40);
        assert(index_ok(s));
    }
@end
@fn IndexFile::open
    ensures r matches Ok(ix) ==> ix.wf() && held($1.pb(), ix.data.view())
@start
@end

// ---------------------------------------------------------------- looking up
pub trait Entry {
    spec fn eid(&self) -> Seq<u8>;
    proof fn eid_len(&self) ensures self.eid().len() == 20;
    fn id(&self) -> (r: &Id) ensures r.view() == self.eid();
}
@impl impl Entry for EntryV1
    open spec fn eid(&self) -> Seq<u8> { self.id.view() }
    proof fn eid_len(&self) { }
@fn <Entry for EntryV1>::id ;; traitfn
@end
@endimpl
@impl impl Entry for EntryV2
    open spec fn eid(&self) -> Seq<u8> { self.id.view() }
    proof fn eid_len(&self) { }
@fn <Entry for EntryV2>::id ;; traitfn
@end
@endimpl
pub open spec fn sorted<T: Entry>(e: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> lex(#[trigger] e[i].eid(), #[trigger] e[j].eid()) is Less }
pub open spec fn ehit<T: Entry>(e: Seq<T>, i: int, s: Seq<u8>) -> bool { 0 <= i < e.len() && starts_with_spec(e[i].eid(), s) }
/// `e` is the entries from `a` to `b`
pub open spec fn slice_of<T: Entry>(ix: IndexFile, e: Seq<T>, a: int, b: int) -> bool {
    0 <= a <= b <= ix.count && e.len() == b - a && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).eid() == ix.id_at(a + i)
}
pub proof fn lemma_slice<T: Entry>(ix: IndexFile, e: Seq<T>, a: int, b: int, s: Seq<u8>)
    requires ix.wf(), s.len() > 0, slice_of(ix, e, a, b), a == fan(ix.d(), s[0] - 1), b == fan(ix.d(), s[0] as int)
    ensures ix.good() ==> sorted(e), forall|i: int| #[trigger] ehit(e, i, s) ==> ix.hit(a + i, s) && e[i].eid() == ix.id_at(a + i),
        ix.good() ==> forall|q: int| #[trigger] ix.hit(q, s) ==> ehit(e, q - a, s)
{
    reveal(IndexFile::good);
    lemma_fan(ix, s[0] - 1, s[0] as int);
    if ix.good() {
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies lex(#[trigger] e[i].eid(), #[trigger] e[j].eid()) is Less by { assert(lex(ix.id_at(a + i), ix.id_at(a + j)) is Less); }
        assert forall|q: int| #[trigger] ix.hit(q, s) implies ehit(e, q - a, s) by {
            assert(ix.id_at(q).subrange(0, s.len() as int)[0] == s[0]);
            assert(e[q - a].eid() == ix.id_at(a + (q - a)));
        }
    }
}
/// the entries before `k` sort before `s`, and those from `k` on after it
pub open spec fn cut<T: Entry>(e: Seq<T>, s: Seq<u8>, k: int) -> bool {
    (forall|j: int| 0 <= j < k ==> lex(s, (#[trigger] e[j]).eid()) is Greater) && (forall|j: int| k <= j < e.len() ==> lex(s, (#[trigger] e[j]).eid()) is Less)
}
pub proof fn lemma_part<T: Entry>(e: Seq<T>, s: Seq<u8>, o: spec_fn(T) -> Ordering)
    requires sorted(e), forall|t: T| #[trigger] o(t) == rev(lex(s, t.eid()))
    ensures partitioned(e, o)
{
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies (o(#[trigger] e[j]) is Less ==> o(#[trigger] e[i]) is Less) && (o(e[i]) is Greater ==> o(e[j]) is Greater) by {
        lemma_lex(s, e[i].eid());
        lemma_lex(s, e[j].eid());
        assert(lex(e[i].eid(), e[j].eid()) is Less);
        if o(e[j]) is Less { lemma_lex_trans(e[i].eid(), e[j].eid(), s); }
        if o(e[i]) is Greater { lemma_lex_trans(s, e[i].eid(), e[j].eid()); }
    }
}
/// the hits, if there are any, begin at `k` and have no gap
pub proof fn lemma_hits<T: Entry>(e: Seq<T>, s: Seq<u8>, k: int)
    requires sorted(e), cut(e, s, k), k >= 0
    ensures forall|j: int| #[trigger] ehit(e, j, s) ==> j >= k, forall|i: int, j: int| k <= i < j && #[trigger] ehit(e, j, s) ==> #[trigger] ehit(e, i, s)
{
    assert forall|j: int| #[trigger] ehit(e, j, s) implies j >= k by { lemma_prefix_before(s, e[j].eid()); lemma_lex(s, e[j].eid()); }
    assert forall|i: int, j: int| k <= i < j && #[trigger] ehit(e, j, s) implies #[trigger] ehit(e, i, s) by {
        assert(lex(s, e[i].eid()) is Less && lex(e[i].eid(), e[j].eid()) is Less);
        lemma_between(s, e[i].eid(), e[j].eid());
    }
}
/// a full id has one hit
pub proof fn lemma_equal<T: Entry>(e: Seq<T>, s: Seq<u8>, k: int)
    requires 0 <= k < e.len(), lex(s, e[k].eid()) is Equal
    ensures ehit(e, k, s), sorted(e) ==> forall|j: int| #[trigger] ehit(e, j, s) ==> j == k
{
    lemma_lex(s, e[k].eid());
    assert(s.subrange(0, s.len() as int) =~= s);
    if sorted(e) {
        assert forall|j: int| #[trigger] ehit(e, j, s) implies j == k by {
            e[k].eid_len();
            e[j].eid_len();
            lemma_full(e[j].eid(), s);
            if j < k { assert(lex(e[j].eid(), e[k].eid()) is Less); }
            if k < j { assert(lex(e[k].eid(), e[j].eid()) is Less); }
        }
    }
}
@fn IndexFile::data
    requires self.wf()
    ensures r@ == self.d()
@end
@fn IndexFile::fan_out
    requires self.wf()
    ensures r@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] r@[i]).val() == fan(self.d(), i)
@end
@fn IndexFile::entries
    requires self.wf()
    ensures r@ == self.d().subrange(1024, 1024 + self.count * (if self.version is V2 { 20int } else { 24 }))
@end
@fn IndexFile::entries_v1
    requires self.wf(), self.version is V1
    ensures match r {
        Ok(s) => slice_of(*self, s@, $1.start as int, $1.end as int)
            && forall|i: int| 0 <= i < s@.len() ==> Some((#[trigger] s@[i]).offset.val() as u64) == self.off_at($1.start + i),
        Err(e) => e is ReadIndexFile && !($1.start <= $1.end <= self.count),
    }
@end
@fn IndexFile::entries_v2
    requires self.wf(), self.version is V2
    ensures match r {
        Ok(s) => slice_of(*self, s@, $1.start as int, $1.end as int),
        Err(e) => e is ReadIndexFile && !($1.start <= $1.end <= self.count),
    }
@end
@fn IndexFile::offsets
    requires self.wf(), self.version is V2
    ensures r.0@.len() == self.count, forall|i: int| 0 <= i < self.count ==> (#[trigger] r.0@[i]).val() == be32(self.d().subrange(1024 + 24 * self.count + 4 * i, 1024 + 24 * self.count + 4 * i + 4)),
        8 * r.1@.len() == self.d().len() - 40 - (1024 + 28 * self.count),
        forall|i: int| 0 <= i < r.1@.len() ==> (#[trigger] r.1@[i]).val() == be64(self.d().subrange(1024 + 28 * self.count + 8 * i, 1024 + 28 * self.count + 8 * i + 8)),
@end
@fn IndexFile::id
    requires self.wf()
    ensures r.view() == self.pack_id()
@end
@fn IndexFile::count
    requires self.wf()
    ensures r == self.count
@end
@fn FindIndexOffsetError::read_index_file
    ensures r is ReadIndexFile
@end
@fn IndexFile::find_offset/binary_search
    requires $2.wf()
    ensures match r {
        Ok((i, e)) => i < $1@.len() && *e == $1@[i as int] && ehit($1@, i as int, $2.view()) && (sorted($1@) ==> forall|j: int| #[trigger] ehit($1@, j, $2.view()) ==> j == i),
        Err(FindIndexOffsetError::NotFound) => sorted($1@) ==> forall|j: int| !#[trigger] ehit($1@, j, $2.view()),
        Err(FindIndexOffsetError::Ambiguous) => exists|i: int| #[trigger] ehit($1@, i, $2.view()) && ehit($1@, i + 1, $2.view()),
        Err(_) => false,
    }
@start
    broadcast use crate::shim::lemma_rev;
    let ghost o = |t: T| rev(lex($2.view(), t.eid()));
    let ghost e = $1@;
    let ghost s = $2.view();
    proof {
        assert(is_ord(o));
        if sorted(e) { lemma_part(e, s, o); }
        assert forall|k: int| 0 <= k < e.len() && #[trigger] o(e[k]) is Equal implies ehit(e, k, s) && (sorted(e) ==> forall|j: int| #[trigger] ehit(e, j, s) ==> j == k) by { lemma_equal(e, s, k); }
    }
@after let:matches
    proof {
        let k = index as int;
        if sorted(e) {
            assert(cut(e, s, k)) by { assert forall|j: int| 0 <= j < e.len() implies (j < k ==> lex(s, (#[trigger] e[j]).eid()) is Greater) && (k <= j ==> lex(s, e[j].eid()) is Less) by { assert(o(e[j]) == rev(lex(s, e[j].eid()))); } }
            lemma_hits(e, s, k);
        }
        let n = matches.left().len() as int;
        assert(n > 0 ==> ehit(e, k, s)) by { if n > 0 { assert(*matches.left()[0] == e.subrange(k, e.len() as int)[0]); } }
        assert(n > 1 ==> ehit(e, k + 1, s)) by { if n > 1 { assert(*matches.left()[1] == e.subrange(k, e.len() as int)[1]); } }
        assert(!ehit(e, k + n, s)) by { if k + n < e.len() { assert(e.subrange(k, e.len() as int)[n] == e[k + n]); } }
    }
@closure 0
    |$0: &T| -> (x: Ordering) ensures x == rev(lex($2.view(), $0.eid()))
@closure 1
    |$0: &&T| -> (x: bool) ensures x == starts_with_spec($0.eid(), $2.view())
@end
@fn IndexFile::find_offset ;; alone
    requires self.wf(), $1.wf()
    ensures match r {
        Ok((o, id)) => exists|p: int| #[trigger] self.hit(p, $1.view()) && id.view() == self.id_at(p) && self.off_at(p) == Some(o)
            && (self.good() ==> forall|q: int| #[trigger] self.hit(q, $1.view()) ==> q == p),
        Err(FindIndexOffsetError::NotFound) => self.good() ==> forall|q: int| !#[trigger] self.hit(q, $1.view()),
        Err(FindIndexOffsetError::Ambiguous) => exists|p: int, q: int| #[trigger] self.hit(p, $1.view()) && #[trigger] self.hit(q, $1.view()) && p != q,
        Err(_) => !self.good(),
    }
@start
    hide(sorted);
    hide(slice_of);
    hide(index_ok);
    hide(tables);
    hide(lex);
    hide(be32);
    hide(be64);
    proof {
        let s = $1.view();
        let a = fan(self.d(), s[0] - 1);
        let b = fan(self.d(), s[0] as int);
        lemma_fan(*self, s[0] - 1, s[0] as int);
        assert forall|e: Seq<EntryV1>| #[trigger] slice_of(*self, e, a, b) implies (self.good() ==> sorted(e)) && (forall|i: int| #[trigger] ehit(e, i, s) ==> self.hit(a + i, s) && e[i].eid() == self.id_at(a + i))
            && (self.good() ==> forall|q: int| #[trigger] self.hit(q, s) ==> ehit(e, q - a, s)) by { lemma_slice(*self, e, a, b, s); }
        assert forall|e: Seq<EntryV2>| #[trigger] slice_of(*self, e, a, b) implies (self.good() ==> sorted(e)) && (forall|i: int| #[trigger] ehit(e, i, s) ==> self.hit(a + i, s) && e[i].eid() == self.id_at(a + i))
            && (self.good() ==> forall|q: int| #[trigger] self.hit(q, s) ==> ehit(e, q - a, s)) by { lemma_slice(*self, e, a, b, s); }
        assert forall|x: u32| ((#[trigger] (x & 0x8000_0000)) == 0 <==> x < 0x8000_0000) by { assert(((x & 0x8000_0000) == 0 <==> x < 0x8000_0000)) by (bit_vector); }
        assert forall|x: u32| x >= 0x8000_0000 implies (#[trigger] (x & 0x7fff_ffff)) == x - 0x8000_0000 by { assert(x >= 0x8000_0000 ==> (x & 0x7fff_ffff) == x - 0x8000_0000) by (bit_vector); }
        if self.good() { assert forall|p: int| #[trigger] self.hit(p, s) implies self.off_at(p) is Some by { lemma_off(*self, p); } }
    }
@end
