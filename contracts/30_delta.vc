@mod object::database::packed::delta src=src/object/database/packed/delta.rs
use crate::shim::*;
use crate::shim::io::{self, Read};
use crate::shim::bytes::{Bytes, BytesMut};
use crate::shim::varint::*;
use crate::object::kinds::*;
use crate::parse;
use crate::parse::buffer::{byte_pred, first_end, decides, huge};
use vstd::arithmetic::power2::*;
broadcast use {crate::shim::bits::masks, crate::shim::conv::lemma_sub_sub, crate::shim::varint::lemma_vint};
@enum DeltaError
@enum Command
@struct DeltaHeader
@const DeltaError::MAX_VARINT_LEN

/// a length in a delta header: at most ten bytes, with a value that fits
pub open spec fn delta_len(s: Seq<u8>) -> Option<(usize, int)> {
    match vint_len(s) {
        Some(n) => if n <= 10 && le128(s.subrange(0, n)) <= usize::MAX { Some((le128(s.subrange(0, n)) as usize, n)) } else { None },
        None => None,
    }
}
pub proof fn lemma_delta_len(s: Seq<u8>)
    ensures delta_len(s) matches Some((v, n)) ==> 1 <= n <= s.len()
{ lemma_vint_pos(s); }
/// one more byte of a little-endian number
pub open spec fn unit(k: u64) -> int { if k == 0 { 1 } else if k == 8 { 0x100 } else if k == 16 { 0x1_0000 } else { 0x100_0000 } }
/// a byte that is put into a number above what is there
pub open spec fn joined(x: u64, b: u8, k: u64) -> bool {
    &&& k == 0 ==> (x | ((b as u64) << 0)) == x + b && (x | (b as u64)) == x + b && (x ^ (b as u64)) == x + b && ((b as u64) << 0) == b
    &&& k == 8 ==> (x | ((b as u64) << 8)) == x + b * 0x100 && (x ^ ((b as u64) << 8)) == x + b * 0x100 && ((b as u64) << 8) == b * 0x100
    &&& k == 16 ==> (x | ((b as u64) << 16)) == x + b * 0x1_0000 && (x ^ ((b as u64) << 16)) == x + b * 0x1_0000 && ((b as u64) << 16) == b * 0x1_0000
    &&& k == 24 ==> (x | ((b as u64) << 24)) == x + b * 0x100_0000 && (x ^ ((b as u64) << 24)) == x + b * 0x100_0000 && ((b as u64) << 24) == b * 0x100_0000
}
pub proof fn lemma_or_byte(x: u64, b: u8, k: u64)
    requires k == 0 || k == 8 || k == 16 || k == 24, x < unit(k)
    ensures joined(x, b, k)
{
    let c = b as u64;
    assert(c < 256);
    if k == 0 { assert((x | (c << 0)) == x + c && (x | c) == x + c && (x ^ c) == x + c && (c << 0) == c) by (bit_vector) requires x < 1, c < 256; }
    else if k == 8 { assert((x | (c << 8)) == x + c * 0x100 && (x ^ (c << 8)) == x + c * 0x100 && (c << 8) == c * 0x100) by (bit_vector) requires x < 0x100, c < 256; }
    else if k == 16 { assert((x | (c << 16)) == x + c * 0x1_0000 && (x ^ (c << 16)) == x + c * 0x1_0000 && (c << 16) == c * 0x1_0000) by (bit_vector) requires x < 0x1_0000, c < 256; }
    else { assert((x | (c << 24)) == x + c * 0x100_0000 && (x ^ (c << 24)) == x + c * 0x100_0000 && (c << 24) == c * 0x100_0000) by (bit_vector) requires x < 0x100_0000, c < 256; }
}
/// `intersects`
#[verifier::opaque]
pub open spec fn flag(op: u8, mask: u8) -> bool { op & mask != 0 }
/// an optional byte of a copy command, at `i`
#[verifier::opaque]
pub open spec fn opt_byte(op: u8, mask: u8, s: Seq<u8>, i: int) -> (int, int) {
    if flag(op, mask) { (if 0 <= i < s.len() { s[i] as int } else { 0 }, i + 1) } else { (0, i) }
}
pub broadcast proof fn lemma_opt_byte(op: u8, mask: u8, s: Seq<u8>, i: int)
    ensures 0 <= (#[trigger] opt_byte(op, mask, s, i)).0 < 256, i <= opt_byte(op, mask, s, i).1 <= i + 1,
        flag(op, mask) ==> opt_byte(op, mask, s, i).1 == i + 1 && (0 <= i < s.len() ==> opt_byte(op, mask, s, i).0 == s[i]),
        !flag(op, mask) ==> opt_byte(op, mask, s, i) == (0int, i),
{ reveal(opt_byte); }
pub enum Cmd { Copy(int, int), Insert(int) }
#[verifier::opaque]
/// the command at the start of `s`, and how many bytes it takes (without the inserted data)
pub open spec fn command(s: Seq<u8>) -> Option<(Cmd, int)> {
    if s.len() == 0 { None } else {
        let op = s[0];
        if flag(op, 0b1000_0000) {
            let o1 = opt_byte(op, 0b0000_0001, s, 1);
            let o2 = opt_byte(op, 0b0000_0010, s, o1.1);
            let o3 = opt_byte(op, 0b0000_0100, s, o2.1);
            let o4 = opt_byte(op, 0b0000_1000, s, o3.1);
            let l1 = opt_byte(op, 0b0001_0000, s, o4.1);
            let l2 = opt_byte(op, 0b0010_0000, s, l1.1);
            let l3 = opt_byte(op, 0b0100_0000, s, l2.1);
            if l3.1 > s.len() { None } else {
                let offset = o1.0 + 0x100 * o2.0 + 0x1_0000 * o3.0 + 0x100_0000 * o4.0;
                let len = l1.0 + 0x100 * l2.0 + 0x1_0000 * l3.0;
                Some((Cmd::Copy(offset, if len == 0 { 0x1_0000 } else { len }), l3.1))
            }
        } else if op != 0 { Some((Cmd::Insert(op as int), 1)) }
        else { None }
    }
}
/// what the commands in `s` produce from `base`
#[verifier::opaque]
pub open spec fn run(base: Seq<u8>, s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match command(s) {
            None => None,
            Some((c, n)) => if n < 1 || n > s.len() { None } else {
                match c {
                    Cmd::Copy(off, len) => if off + len <= base.len() { glue(base.subrange(off, off + len), run(base, s.subrange(n, s.len() as int))) } else { None },
                    Cmd::Insert(len) => if n + len <= s.len() && len > 0 { glue(s.subrange(n, n + len), run(base, s.subrange(n + len, s.len() as int))) } else { None },
                }
            },
        }
    }
}
pub open spec fn glue(a: Seq<u8>, o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(b) => Some(a + b), None => None } }
/// the object a delta produces from `base`
pub open spec fn delta_apply(base: Seq<u8>, d: Seq<u8>) -> Option<Seq<u8>> {
    match delta_len(d) { None => None, Some((bl, n)) => {
        let d1 = d.subrange(n, d.len() as int);
        match delta_len(d1) { None => None, Some((rl, m)) => {
            match run(base, d1.subrange(m, d1.len() as int)) {
                Some(out) => if bl == base.len() && rl == out.len() { Some(out) } else { None },
                None => None,
            }
        } }
    } }
}
pub proof fn lemma_top(op: u8)
    ensures flag(op, 0b1000_0000) == (op >= 128)
{ reveal(flag); assert((op & 0b1000_0000 != 0) == (op >= 128)) by (bit_vector); }
@fn intersects
    ensures r == flag($1, $2)
@start
    proof { reveal(flag); }
@end
/// `r` is what is left of `s` from `i` on
#[verifier::opaque]
pub open spec fn at(r: Seq<u8>, s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && r == s.subrange(i, s.len() as int) }
pub proof fn lemma_at_next(r: Seq<u8>, s: Seq<u8>, i: int)
    ensures at(r, s, i) && r.len() > 0 ==> i < s.len() && r[0] == s[i] && at(r.subrange(1, r.len() as int), s, i + 1),
        at(r, s, i) ==> r.len() == s.len() - i && 0 <= i
{
    reveal(at);
    if at(r, s, i) && r.len() > 0 { assert(r.subrange(1, r.len() as int) =~= s.subrange(i + 1, s.len() as int)); }
}
pub proof fn lemma_at_end(r: Seq<u8>, s: Seq<u8>, i: int)
    ensures at(r, s, i) ==> 0 <= i <= s.len() && r == s.subrange(i, s.len() as int)
{ reveal(at); }
@fn Buffer::read_byte
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(b) => old(self).rem().len() >= 1 && b == old(self).rem()[0] && final(self).rem() == old(self).rem().subrange(1, old(self).rem().len() as int)
                && final(self).pos == old(self).pos + 1,
            Err(parse::Error::InvalidLength) => old(self).rem().len() == 0 && !old(self).reader.broken(),
            Err(parse::Error::Io(_)) => old(self).reader.can_fail(),
            Err(_) => false,
        }
@end
@fn Buffer::read_delta_header_len
    requires old(self).wf(), 10 <= $1 <= 0x1000
    ensures final(self).same(old(self)),
        match r {
            Ok(n) => delta_len(old(self).rem()) matches Some((v, k)) && v == n && final(self).pos == old(self).pos + k
                && final(self).rem() == old(self).rem().subrange(k, old(self).rem().len() as int),
            Err(DeltaError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => delta_len(old(self).rem()) is None,
        }
@start
    proof { assert(byte_pred(stop())); }
@closure 0
    |$0: &[u8]| -> (o: Option<usize>) requires $0@.len() <= 0x1000 ensures first_end($0@, stop(), o)
@closure 1
    |$0: &u8| -> (o: bool) ensures o == $body
@after let:range
    let ghost s = old(self).rem();
    let ghost n = range.end - range.start;
    let ghost w = s.subrange(0, n);
    proof {
        assert(self.data().subrange(range.start as int, range.end as int) =~= w);
        assert(vint_len(s) == Some(n));
        lemma_pow2_pos(0); lemma2_to64();
        assert(pow2(0) == 1);
        assert(le128(w) * 1 == le128(w)) by (nonlinear_arith);
    }
@after let:parser
    proof { assert(parser.all() =~= w); assert(parser.rem() =~= w); }
@after let:shift
    proof { assert(pow2(shift as nat) == 1); assert(len + le128(parser.rem()) * pow2(shift as nat) == le128(w)); }
@loop 0 while
    invariant parser.wf(), parser.all() == w, w.len() == n, n <= 0x1000, shift == 7 * parser.pos, parser.pos <= 10, len < pow2(shift as nat),
        len + le128(parser.rem()) * pow2(shift as nat) == le128(w),
        vint_len(s) == Some(n), w == s.subrange(0, n), self.same(old(self)), s == old(self).rem(), self.pos == old(self).pos + n,
    decreases parser.rem().len()
@loopstart 0
    let ghost r0 = parser.rem();
    proof { lemma_le128_step(len as int, r0, shift); }
@after let:bits
    proof {
        let r1 = parser.rem();
        assert(r1 =~= r0.skip(1));
        assert(bits == (r0[0] & 0x7f));
        assert(bits < 128) by { let b = r0[0]; assert(b & 0x7f < 128) by (bit_vector); }
        lemma_pow2_pos((shift + 7) as nat);
        assert(le128(r1) * pow2((shift + 7) as nat) >= 0) by (nonlinear_arith);
        if shift < 64 { lemma_shift_ok(bits, shift); }
    }
@after let:shifted
    proof { if shifted >> shift == bits { lemma_or_add(len, shifted, bits, shift); } }
@tail
    proof {
        assert(self.rem() =~= s.subrange(n, s.len() as int));
        assert(parser.rem().len() == 0 && le128(parser.rem()) == 0);
        assert(0nat * pow2(shift as nat) == 0) by (nonlinear_arith);
    }
@end
@fn Buffer::read_delta_header
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(h) => delta_len(old(self).rem()) matches Some((bl, n)) && delta_len(old(self).rem().subrange(n, old(self).rem().len() as int)) matches Some((rl, m))
                && h.base_len == bl && h.result_len == rl
                && final(self).rem() == old(self).rem().subrange(n, old(self).rem().len() as int).subrange(m, old(self).rem().len() - n),
            Err(DeltaError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => match delta_len(old(self).rem()) { None => true, Some((bl, n)) => delta_len(old(self).rem().subrange(n, old(self).rem().len() as int)) is None },
        }
@end
@fn Buffer::read_command
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(None) => old(self).rem().len() == 0 && !old(self).reader.broken(),
            Ok(Some(c)) => command(old(self).rem()) matches Some((k, n))
                && final(self).rem() == old(self).rem().subrange(n, old(self).rem().len() as int) && 1 <= n <= old(self).rem().len()
                && (match c {
                    Command::CopyFromBase { offset, len } => k == Cmd::Copy(offset as int, len as int),
                    Command::CopyFromDelta { len } => k == Cmd::Insert(len as int) && 0 < len < 128,
                }),
            Err(DeltaError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => old(self).rem().len() > 0 && command(old(self).rem()) is None,
        }
@attrs
#[verifier::rlimit(30)]
@start
    hide(parse::Buffer::rem); hide(parse::Buffer::total);
    broadcast use lemma_opt_byte;
    proof { assert(at(old(self).rem(), old(self).rem(), 0)) by { reveal(at); assert(old(self).rem().subrange(0, old(self).rem().len() as int) =~= old(self).rem()); } }
    let ghost s = old(self).rem();
    let ghost len0 = s.len() as int;
    proof {
        if len0 > 0 { lemma_top(s[0]); }
        assert(len0 > 0 && !flag(s[0], 0b1000_0000) ==> command(s) == (if s[0] != 0 { Some((Cmd::Insert(s[0] as int), 1int)) } else { None })) by { reveal(command); }
    }
@before call:intersects:0
    let ghost top = flag(cmd, 0b1000_0000);
    proof { lemma_top(cmd); lemma_at_next(s, s, 0); }
    let ghost o1 = opt_byte(cmd, 0b0000_0001, s, 1int);
    let ghost o2 = opt_byte(cmd, 0b0000_0010, s, o1.1);
    let ghost o3 = opt_byte(cmd, 0b0000_0100, s, o2.1);
    let ghost o4 = opt_byte(cmd, 0b0000_1000, s, o3.1);
    let ghost l1 = opt_byte(cmd, 0b0001_0000, s, o4.1);
    let ghost l2 = opt_byte(cmd, 0b0010_0000, s, l1.1);
    let ghost l3 = opt_byte(cmd, 0b0100_0000, s, l2.1);
    let ghost off = o1.0 + 0x100 * o2.0 + 0x1_0000 * o3.0 + 0x100_0000 * o4.0;
    let ghost n0 = l1.0 + 0x100 * l2.0 + 0x1_0000 * l3.0;
    proof {
        assert(top ==> command(s) == (if l3.1 > len0 { None } else { Some((Cmd::Copy(off, if n0 == 0 { 0x1_0000 } else { n0 }), l3.1)) })) by { reveal(command); }
    }
@before call:intersects:1
    proof { lemma_at_next(self.rem(), s, 1int); lemma_or_byte(offset, s[1int], 0); }
@isolate call:intersects:1
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        o1 == opt_byte(cmd, 0b0000_0001, s, 1int), (if flag(cmd, 0b0000_0001) { o1.1 == 1int + 1 && (1int < len0 ==> o1.0 == s[1int]) } else { o1 == (0int, 1int) }), o1.1 <= l3.1, 0 <= 1int, at(self.rem(), s, 1int),
        self.rem().len() == len0 - 1int, offset == 0, flag(cmd, 0b0000_0001) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, 1int + 1) && self.rem()[0] == s[1int],
        1int < len0 ==> joined(offset, s[1int], 0),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, o1.1), offset == o1.0,
    decreases 0int
@before call:intersects:2
    proof { lemma_at_next(self.rem(), s, o1.1); lemma_or_byte(offset, s[o1.1], 8); }
@isolate call:intersects:2
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        o2 == opt_byte(cmd, 0b0000_0010, s, o1.1), (if flag(cmd, 0b0000_0010) { o2.1 == o1.1 + 1 && (o1.1 < len0 ==> o2.0 == s[o1.1]) } else { o2 == (0int, o1.1) }), o2.1 <= l3.1, 0 <= o1.1, at(self.rem(), s, o1.1),
        self.rem().len() == len0 - o1.1, offset == o1.0, flag(cmd, 0b0000_0010) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, o1.1 + 1) && self.rem()[0] == s[o1.1],
        o1.1 < len0 ==> joined(offset, s[o1.1], 8),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, o2.1), offset == o1.0 + o2.0 * 256,
    decreases 0int
@before call:intersects:3
    proof { lemma_at_next(self.rem(), s, o2.1); lemma_or_byte(offset, s[o2.1], 16); }
@isolate call:intersects:3
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        o3 == opt_byte(cmd, 0b0000_0100, s, o2.1), (if flag(cmd, 0b0000_0100) { o3.1 == o2.1 + 1 && (o2.1 < len0 ==> o3.0 == s[o2.1]) } else { o3 == (0int, o2.1) }), o3.1 <= l3.1, 0 <= o2.1, at(self.rem(), s, o2.1),
        self.rem().len() == len0 - o2.1, offset == o1.0 + o2.0 * 256, flag(cmd, 0b0000_0100) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, o2.1 + 1) && self.rem()[0] == s[o2.1],
        o2.1 < len0 ==> joined(offset, s[o2.1], 16),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, o3.1), offset == o1.0 + o2.0 * 256 + o3.0 * 65536,
    decreases 0int
@before call:intersects:4
    proof { lemma_at_next(self.rem(), s, o3.1); lemma_or_byte(offset, s[o3.1], 24); }
@isolate call:intersects:4
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        o4 == opt_byte(cmd, 0b0000_1000, s, o3.1), (if flag(cmd, 0b0000_1000) { o4.1 == o3.1 + 1 && (o3.1 < len0 ==> o4.0 == s[o3.1]) } else { o4 == (0int, o3.1) }), o4.1 <= l3.1, 0 <= o3.1, at(self.rem(), s, o3.1),
        self.rem().len() == len0 - o3.1, offset == o1.0 + o2.0 * 256 + o3.0 * 65536, flag(cmd, 0b0000_1000) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, o3.1 + 1) && self.rem()[0] == s[o3.1],
        o3.1 < len0 ==> joined(offset, s[o3.1], 24),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, o4.1), offset == o1.0 + o2.0 * 256 + o3.0 * 65536 + o4.0 * 16777216,
    decreases 0int
@before call:intersects:5
    proof { lemma_at_next(self.rem(), s, o4.1); lemma_or_byte(len, s[o4.1], 0); }
@isolate call:intersects:5
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        l1 == opt_byte(cmd, 0b0001_0000, s, o4.1), (if flag(cmd, 0b0001_0000) { l1.1 == o4.1 + 1 && (o4.1 < len0 ==> l1.0 == s[o4.1]) } else { l1 == (0int, o4.1) }), l1.1 <= l3.1, 0 <= o4.1, at(self.rem(), s, o4.1),
        self.rem().len() == len0 - o4.1, len == 0, flag(cmd, 0b0001_0000) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, o4.1 + 1) && self.rem()[0] == s[o4.1],
        o4.1 < len0 ==> joined(len, s[o4.1], 0),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, l1.1), len == l1.0,
    decreases 0int
@before call:intersects:6
    proof { lemma_at_next(self.rem(), s, l1.1); lemma_or_byte(len, s[l1.1], 8); }
@isolate call:intersects:6
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        l2 == opt_byte(cmd, 0b0010_0000, s, l1.1), (if flag(cmd, 0b0010_0000) { l2.1 == l1.1 + 1 && (l1.1 < len0 ==> l2.0 == s[l1.1]) } else { l2 == (0int, l1.1) }), l2.1 <= l3.1, 0 <= l1.1, at(self.rem(), s, l1.1),
        self.rem().len() == len0 - l1.1, len == l1.0, flag(cmd, 0b0010_0000) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, l1.1 + 1) && self.rem()[0] == s[l1.1],
        l1.1 < len0 ==> joined(len, s[l1.1], 8),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, l2.1), len == l1.0 + l2.0 * 256,
    decreases 0int
@before call:intersects:7
    proof { lemma_at_next(self.rem(), s, l2.1); lemma_or_byte(len, s[l2.1], 16); }
@isolate call:intersects:7
    invariant_except_break self.wf(), self.same(old(self)), cmd == s[0], s == old(self).rem(), 0 < len0 == s.len(), l3.1 > len0 ==> command(s) is None,
        l3 == opt_byte(cmd, 0b0100_0000, s, l2.1), (if flag(cmd, 0b0100_0000) { l3.1 == l2.1 + 1 && (l2.1 < len0 ==> l3.0 == s[l2.1]) } else { l3 == (0int, l2.1) }), l3.1 <= l3.1, 0 <= l2.1, at(self.rem(), s, l2.1),
        self.rem().len() == len0 - l2.1, len == l1.0 + l2.0 * 256, flag(cmd, 0b0100_0000) && self.rem().len() > 0 ==> at(self.rem().subrange(1, self.rem().len() as int), s, l2.1 + 1) && self.rem()[0] == s[l2.1],
        l2.1 < len0 ==> joined(len, s[l2.1], 16),
    ensures self.wf(), self.same(old(self)), at(self.rem(), s, l3.1), len == l1.0 + l2.0 * 256 + l3.0 * 65536,
    decreases 0int
@before call:try_from:0
    proof {
        lemma_at_end(self.rem(), s, l3.1);
        assert(offset == off);
        assert(len == (if n0 == 0 { 0x1_0000 } else { n0 }));
    }
@end
@fn apply_delta ;; alone
    requires old($3).wf()
    ensures
        match r {
            Ok((h, b)) => !old($3).reader.broken() && h.kind == $1 && h.len == b.view().len() && delta_apply($2@, old($3).rem()) == Some(b.view()),
            Err(DeltaError::Parse(parse::Error::Io(_))) => old($3).reader.can_fail(),
            Err(_) => delta_apply($2@, old($3).rem()) is None,
        }
@start
    proof { reveal(run); }
    let ghost d0 = old($3).rem();
@after let:header
    let ghost s2 = $3.rem();
    let ghost done = delta_apply($2@, d0);
    proof {
        lemma_delta_len(d0);
        let n = (delta_len(d0)->0).1;
        lemma_delta_len(d0.subrange(n, d0.len() as int));
        assert(header.base_len == $2@.len() ==> done == (match run($2@, s2) { Some(out) => if header.result_len == out.len() { Some(out) } else { None }, None => None }));
        assert(header.base_len != $2@.len() ==> done is None);
    }
@loop 0 while
    invariant $3.wf(), $3.reader.can_fail() == old($3).reader.can_fail(), $3.reader.broken() == old($3).reader.broken(), header.base_len == $2@.len(),
        run($2@, s2) == glue(result.view(), run($2@, $3.rem())),
        done == (match run($2@, s2) { Some(out) => if header.result_len == out.len() { Some(out) } else { None }, None => None }),
    decreases $3.rem().len()
@loopstart 0
    let ghost r0 = result.view();
@after let:src
    let ghost out = src@;
@after call:clear_buffer
    proof {
        assert(result.view() =~= r0 + out);
        if run($2@, $3.rem()) is Some {
            let x = run($2@, $3.rem())->0;
            assert(r0 + (out + x) =~= result.view() + x);
        }
    }
@tail
    proof { assert(result.view() + Seq::<u8>::empty() =~= result.view()); }
@end
