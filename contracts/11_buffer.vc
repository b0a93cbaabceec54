@mod parse::buffer src=src/parse/buffer.rs
use crate::shim::*;
use crate::shim::io::{self, Read, Seek, SeekFrom, seek_pos, suffix};
use crate::shim::lock::Lockable;
use crate::shim::zlib::*;
use crate::shim::bytes::{Bytes, BytesMut};
use crate::shim::memchr::*;
use crate::shim::varint::none_in;
use crate::object::*;
use crate::parse::{Error, Parser};
use core::ops::{Range, RangeFrom, RangeTo};
broadcast use crate::shim::memchr::find_lemmas;
@struct Buffer
impl<R> Buffer<R> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.buffer.view().len() <= max_mem() }
    pub open spec fn data(&self) -> Seq<u8> { self.buffer.view() }
}
impl<R: Read> Buffer<R> {
    /// what has been read so far, followed by what the reader has yet to deliver
    pub open spec fn total(&self) -> Seq<u8> { self.buffer.view() + self.reader.rest() }
    /// the bytes not yet consumed
    pub open spec fn rem(&self) -> Seq<u8> { self.total().subrange(self.pos as int, self.total().len() as int) }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.wf() && self.total() == o.total() && self.reader.can_fail() == o.reader.can_fail() && self.reader.broken() == o.reader.broken()
            && self.reader.whole() == o.reader.whole()
    }
}
impl<R: Read> Buffer<R> {
    pub open spec fn lkey(&self) -> (Seq<u8>, bool, bool) { (self.reader.whole(), self.reader.can_fail(), self.reader.broken()) }
}
impl<R: Read> Lockable for Buffer<R> {
    type Key = (Seq<u8>, bool, bool);
    open spec fn fits(&self, k: Self::Key) -> bool { self.wf() && self.lkey() == k }
}
/// `s` cannot be the length of anything in memory
pub open spec fn huge(s: usize) -> bool { s + max_mem() > usize::MAX }
/// marks the byte predicates which `Buffer::read_until` is used with
pub open spec fn byte_pred(p: spec_fn(u8) -> bool) -> bool { true }
/// `o` is the end of the first byte of `s` for which `p` holds
pub open spec fn first_end(s: Seq<u8>, p: spec_fn(u8) -> bool, o: Option<usize>) -> bool {
    match o {
        Some(n) => 1 <= n <= s.len() && p(s[n - 1]) && forall|j: int| 0 <= j < n - 1 ==> !p(#[trigger] s[j]),
        None => forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]),
    }
}
pub open spec fn decides<F: FnMut(&[u8]) -> Option<usize>>(f: F, p: spec_fn(u8) -> bool) -> bool {
    forall|s: &[u8], o: Option<usize>| #[trigger] f.ensures((s,), o) ==> first_end(s@, p, o)
}

@impl impl<R> Idx<Range<usize>> for Buffer<R>
    type Output = [u8];
    open spec fn idx_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self.buffer.view().len() }
    open spec fn idx_ens(&self, i: Range<usize>, r: &[u8]) -> bool { r@ == self.buffer.view().subrange(i.start as int, i.end as int) }
@fn <Index<I> for Buffer>::index ;; as=idx traitfn ty1=Range<usize> rettype=&[u8]
@end
@endimpl

@fn Buffer::new
    ensures r.reader == $1, r.pos == 0, r.buffer.view().len() == 0, r.wf(), r.rem() =~= $1.rest()
@end
@fn Buffer::with_capacity
    requires $2 <= max_fill()
    ensures r.reader == $1, r.pos == 0, r.buffer.view().len() == 0, r.wf()
@end
@fn Buffer::pos
    ensures r == self.pos
@end
@fn Buffer::clear_buffer
    requires old(self).wf()
    ensures final(self).wf(), final(self).pos == 0, final(self).rem() == old(self).rem(),
        final(self).reader == old(self).reader
@tail
    proof { assert(self.rem() =~= old(self).rem()); }
@end
@fn Buffer::parser ;; generics= ty1=Range<usize>
    requires $1.start <= $1.end <= self.buffer.view().len()
    ensures r.pos == 0, r.all() == self.buffer.view().subrange($1.start as int, $1.end as int), r.wf()
@end
@fn Buffer::read_exact_as_parser
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(p) => old(self).rem().len() >= $1 && p.wf() && p.pos == 0 && p.all() == old(self).rem().subrange(0, $1 as int)
                && final(self).pos == old(self).pos + $1,
            Err(Error::InvalidLength) => (old(self).rem().len() < $1 && !old(self).reader.broken()) || huge($1),
            Err(Error::Io(_)) => old(self).reader.can_fail(),
            Err(_) => false,
        }
@after let:range
    proof { assert(self.data().subrange(range.start as int, range.end as int) =~= old(self).rem().subrange(0, $1 as int)); }
@end
@fn Buffer::read_to_end_into_parser
    requires self.wf()
    ensures match r {
            Ok(p) => self.rem().len() == $1 && !self.reader.broken() && p.wf() && p.pos == self.pos && p.all() == self.total(),
            Err(Error::InvalidLength) => self.rem().len() != $1 || huge($1),
            Err(Error::Io(_)) => self.reader.can_fail(),
            Err(_) => false,
        }
@end
@fn Buffer::read_until
    requires old(self).wf(), $1 <= 0x1000, forall|s: &[u8]| s@.len() <= 0x1000 ==> $2.requires((s,)),
        exists|p: spec_fn(u8) -> bool| #[trigger] byte_pred(p) && decides($2, p),
    ensures final(self).same(old(self)),
        forall|p: spec_fn(u8) -> bool| #[trigger] byte_pred(p) && decides($2, p) ==> match r {
            Ok(Some(g)) => g.start == old(self).pos && g.start < g.end && g.end == final(self).pos && g.end - g.start <= $1 && g.end <= final(self).data().len()
                && p(final(self).total()[g.end - 1]) && none_in(old(self).total(), p, g.start as int, g.end - 1),
            Ok(None) => final(self).pos == old(self).pos && old(self).rem().len() >= $1
                && none_in(old(self).total(), p, old(self).pos as int, old(self).pos + $1),
            Err(Error::UnexpectedEof) => old(self).rem().len() < $1 && !old(self).reader.broken()
                && none_in(old(self).total(), p, old(self).pos as int, old(self).total().len() as int),
            Err(Error::Io(_)) => old(self).reader.can_fail(),
            Err(_) => false,
        }
@start
    let ghost pred0 = $2;
@loop 0 while
    invariant self.same(old(self)), start == old(self).pos, end == start + $1, start <= self.pos <= end, $2 == pred0,
        forall|s: &[u8]| s@.len() <= 0x1000 ==> $2.requires((s,)),
        forall|p: spec_fn(u8) -> bool| #[trigger] byte_pred(p) && decides($2, p) ==> none_in(old(self).total(), p, start as int, self.pos as int),
        $1 <= 0x1000, exists|p: spec_fn(u8) -> bool| #[trigger] byte_pred(p) && decides($2, p),
    decreases end - self.pos, self.reader.patience()
@loopstart 0
    let ghost p0 = self.pos as int;
@after let:buf
    proof {
        assert forall|j: int| p0 <= j < p0 + buf@.len() implies #[trigger] old(self).total()[j] == buf@[j - p0] by {}
    }
@end
@fn Buffer::read_until_byte
    requires old(self).wf(), $2 <= 0x1000
    ensures final(self).same(old(self)),
        match r {
            Ok(Some(g)) => g.start == old(self).pos && g.start < g.end && g.end == final(self).pos && g.end - g.start <= $2
                && g.end <= final(self).data().len()
                && find(old(self).rem(), $1) == Some(g.end - g.start - 1),
            Ok(None) => final(self).pos == old(self).pos && old(self).rem().len() >= $2
                && (find(old(self).rem(), $1) matches Some(n) ==> n >= $2),
            Err(Error::UnexpectedEof) => old(self).rem().len() < $2 && !old(self).reader.broken() && find(old(self).rem(), $1) is None,
            Err(Error::Io(_)) => old(self).reader.can_fail(),
            Err(_) => false,
        }
@start
    proof { assert(byte_pred(|b: u8| b == $1)); }
@after call:read_until
    let ghost t = __tail;
    proof {
        let s = old(self).rem();
        let p = old(self).pos as int;
        match t {
            Ok(Some(g)) => { assert(first_at(s, $1, g.end - g.start - 1)) by {
                assert forall|j: int| 0 <= j < g.end - g.start - 1 implies s[j] != $1 by { assert(s[j] == old(self).total()[p + j]); }
            } }
            Ok(None) => { if find(s, $1) is Some { let n = find(s, $1)->0; assert(first_at(s, $1, n)); assert(s[n] == old(self).total()[p + n]); } }
            Err(Error::UnexpectedEof) => { assert(absent(s, $1)) by {
                assert forall|j: int| 0 <= j < s.len() implies s[j] != $1 by { assert(s[j] == old(self).total()[p + j]); }
            } }
            _ => {}
        }
    }
@closure 0
    |$0: &[u8]| -> (o: Option<usize>) requires $0@.len() <= 0x1000 ensures first_end($0@, |b: u8| b == $1, o)
@end
@fn Buffer::read_exact
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(g) => g.start == old(self).pos && g.end == old(self).pos + $1 && final(self).pos == g.end
                && old(self).rem().len() >= $1,
            Err(Error::InvalidLength) => (old(self).rem().len() < $1 && !old(self).reader.broken()) || huge($1),
            Err(Error::Io(_)) => old(self).reader.can_fail(),
            Err(_) => false,
        }
@loop 0 while
    invariant self.same(old(self)), start == old(self).pos, end == start + $1, start <= self.pos <= end,
    decreases end - self.pos, self.reader.patience()
@end
@fn Buffer::read_to_end
    requires self.wf()
    ensures match r {
            Ok(b) => self.rem().len() == $1 && !huge($1) && !self.reader.broken() && b.view() == self.total(),
            Err(Error::InvalidLength) => self.rem().len() != $1 || huge($1),
            Err(Error::Io(_)) => self.reader.can_fail(),
            Err(_) => false,
        }
@loop 0 loop
    invariant __self.same(&self), __self.pos == self.pos + $1, __self.data().len() == __self.pos,
    decreases __self.reader.patience()
@end
@fn Buffer::fill_buf_to
    requires old(self).wf(), old(self).pos <= $1
    ensures final(self).same(old(self)), final(self).pos == old(self).pos,
        match r {
            Ok(s) => s@ == old(self).total().subrange(old(self).pos as int, old(self).pos + s@.len())
                && old(self).pos + s@.len() <= $1 && old(self).pos + s@.len() <= final(self).data().len()
                && (s@.len() == 0 && old(self).pos < $1 ==> old(self).rem().len() == 0 && !old(self).reader.broken()),
            Err(e) => (e.skind() == io::ErrorKind::Interrupted ==> final(self).reader.patience() < old(self).reader.patience())
                && (e.skind() != io::ErrorKind::Interrupted ==> old(self).reader.can_fail()),
        }
@after call:truncate:0
    proof {
        assert(self.total() =~= old(self).total());
        assert(self.buffer.view().subrange(self.pos as int, read_end as int) =~= old(self).total().subrange(self.pos as int, read_end as int));
    }
@after call:truncate:1
    proof { assert(self.total() =~= old(self).total()); }
@end
@fn Buffer::read_id
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(id) => old(self).rem().len() >= 20 && id.view() == old(self).rem().subrange(0, 20) && final(self).pos == old(self).pos + 20,
            Err(Error::InvalidLength) => old(self).rem().len() < 20 && !old(self).reader.broken(),
            Err(Error::Io(_)) => old(self).reader.can_fail(),
            Err(_) => false,
        }
@end
@fn Buffer::decompress
    requires old(self).wf()
    ensures final(self).wf(), final(self).lkey() == old(self).lkey(),
        r.wf(), r.pos == 0, r.total() == inflate(old(self).rem()),
        r.reader.broken() == inflate_bad(old(self).rem(), old(self).reader.broken()),
        r.reader.can_fail() == (old(self).reader.can_fail() || r.reader.broken()),
@after call:by_ref
    proof {
        assert(__tail.total() =~= __tail.reader.rest());
        assert(old(self).buffer.view().subrange(old(self).pos as int, old(self).buffer.view().len() as int) + old(self).reader.rest() =~= old(self).rem());
    }
@end
@fn <Seek for Buffer>::seek ;; impl=<R:~Read~+~Seek>~Buffer<R>
    requires old(self).wf()
    ensures final(self).wf(), final(self).lkey() == old(self).lkey(), final(self).pos == 0, final(self).reader.whole().len() <= i64::MAX,
        match r {
            Ok(n) => $1 is Current || (seek_pos($1, old(self).reader.whole().len() as int) == Some(n as int) && final(self).total() == suffix(old(self).reader.whole(), n as int)),
            Err(_) => old(self).reader.can_fail() || (seek_pos($1, old(self).reader.whole().len() as int) matches Some(k) ==> k > old(self).reader.whole().len()),
        }
@after call:seek
    proof { assert(self.total() =~= self.reader.rest()); }
@end
