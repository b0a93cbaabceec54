@mod parse src=src/parse.rs
use crate::shim::io;
use crate::object::ParseIdError;
pub use self::parser::Parser;
pub use self::buffer::Buffer;
@enum Error

@mod parse::parser src=src/parse/parser.rs
use crate::shim::*;
use crate::shim::memchr::*;
use crate::object::*;
use crate::object::fields::*;
use crate::parse::Error;
use core::ops::{Range, RangeFrom, RangeTo};
use crate::shim::zerocopy::*;
broadcast use {crate::shim::lemma_backed, crate::shim::memchr::find_lemmas, crate::shim::conv::lemma_sub_sub};
@struct Parser
impl<B: AsRef<[u8]>> Parser<B> {
    pub open spec fn all(&self) -> Seq<u8> { self.buffer.bview() }
    pub open spec fn wf(&self) -> bool { self.pos <= self.all().len() }
    /// the bytes not yet consumed
    pub open spec fn rem(&self) -> Seq<u8> { self.all().subrange(self.pos as int, self.all().len() as int) }
    /// `self` is `o` with `n` more bytes consumed
    pub open spec fn ate(&self, o: &Self, n: int) -> bool {
        self.buffer == o.buffer && self.pos == o.pos + n && self.wf()
    }
}
@impl impl<B: AsRef<[u8]>> Idx<Range<usize>> for Parser<B>
    type Output = [u8];
    open spec fn idx_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self.all().len() }
    open spec fn idx_ens(&self, i: Range<usize>, r: &[u8]) -> bool { r@ == self.all().subrange(i.start as int, i.end as int) }
@fn <Index<I> for Parser>::index ;; as=idx traitfn ty1=Range<usize> rettype=&[u8]
@end
@endimpl
@impl impl<B: AsRef<[u8]>> Idx<RangeFrom<usize>> for Parser<B>
    type Output = [u8];
    open spec fn idx_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self.all().len() }
    open spec fn idx_ens(&self, i: RangeFrom<usize>, r: &[u8]) -> bool { r@ == self.all().subrange(i.start as int, self.all().len() as int) }
@fn <Index<I> for Parser>::index ;; as=idx traitfn ty1=RangeFrom<usize> rettype=&[u8]
@end
@endimpl
@impl impl<B: AsRef<[u8]>> Idx<usize> for Parser<B>
    type Output = u8;
    open spec fn idx_req(&self, i: usize) -> bool { i < self.all().len() }
    open spec fn idx_ens(&self, i: usize, r: &u8) -> bool { *r == self.all()[i as int] }
@fn <Index<I> for Parser>::index ;; as=idx traitfn ty1=usize rettype=&u8
@end
@endimpl

@fn Parser::new
    ensures r.buffer == $1, r.pos == 0
@end
@fn Parser::with_position
    ensures r.buffer == $1, r.pos == $2
@end
@fn Parser::pos
    ensures r == self.pos
@end
@fn Parser::remaining_buffer
    requires self.wf()
    ensures r@ == self.rem(), r@.len() <= max_mem(), self.all().len() <= max_mem(), backed(r@.len() as int)
@end
@fn Parser::remaining
    requires self.wf()
    ensures r == self.rem().len(), self.all().len() <= max_mem(), backed(r as int)
@end
@fn Parser::finished
    requires self.wf()
    ensures r == (self.rem().len() == 0)
@end
@fn Parser::into_inner
    ensures r == self.buffer
@end
@fn Parser::advance
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        r == ($1 <= old(self).rem().len()),
        r ==> final(self).ate(old(self), $1 as int),
        !r ==> *final(self) == *old(self)
@end
@fn Parser::consume_bytes
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        r == starts_with_spec(old(self).rem(), $1@),
        r ==> final(self).ate(old(self), $1@.len() as int),
        !r ==> *final(self) == *old(self)
@end
@fn Parser::consume_until
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Some(g) => g.start == old(self).pos && first_at(old(self).rem(), $1, g.end - g.start) && g.start <= g.end
                && final(self).ate(old(self), g.end - g.start + 1),
            None => absent(old(self).rem(), $1) && *final(self) == *old(self),
        }
@end
@fn Parser::consume_u32
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        r == (old(self).rem().len() >= 4 && be32(old(self).rem()) == $1),
        r ==> final(self).ate(old(self), 4),
        !r ==> *final(self) == *old(self)
@end
@fn Parser::parse_id
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(id) => old(self).rem().len() >= 20 && final(self).ate(old(self), 20) && id.view() == old(self).rem().subrange(0, 20),
            Err(e) => old(self).rem().len() < 20 && e is UnexpectedEof && *final(self) == *old(self),
        }
@before call:from_bytes
    proof { assert(self.all().subrange(start as int, self.pos as int) =~= old(self).rem().subrange(0, 20)); }
@end
@fn Parser::parse_byte
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(b) => old(self).rem().len() >= 1 && final(self).ate(old(self), 1) && b == old(self).rem()[0],
            Err(e) => old(self).rem().len() == 0 && e is UnexpectedEof && *final(self) == *old(self),
        }
@end
@fn Parser::parse_prefix_line
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(None) => line_field(old(self).rem(), $1@) is Absent && *final(self) == *old(self),
            Ok(Some(g)) => g.start <= g.end <= old(self).all().len()
                && line_field(old(self).rem(), $1@) == Field::Good(old(self).all().subrange(g.start as int, g.end as int), final(self).rem())
                && final(self).rem().len() < old(self).rem().len(),
            Err(e) => e is UnexpectedEof && line_field(old(self).rem(), $1@) is Bad,
        }
@start
    proof { reveal(line_field); }
@after let:start
    proof { assert(self.rem() =~= old(self).rem().subrange($1@.len() as int, old(self).rem().len() as int)); }
@after let:end
    proof {
        let s = old(self).rem();
        let t = s.subrange($1@.len() as int, s.len() as int);
        let n = end - start;
        assert(self.rem() =~= t.subrange(n + 1, t.len() as int));
        assert(self.all().subrange(start as int, end as int) =~= t.subrange(0, n));
    }
@end
@fn Parser::parse_hex_id_line
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(None) => id_field(old(self).rem(), $1@) is Absent && *final(self) == *old(self),
            Ok(Some(g)) => hex_at(old(self).all(), g)
                && id_field(old(self).rem(), $1@) == Field::Good(id_at(old(self).all(), g), final(self).rem())
                && final(self).rem().len() < old(self).rem().len(),
            Err(e) => id_field(old(self).rem(), $1@) is Bad,
        }
@start
    proof { reveal(id_field); reveal(hex_at); reveal(id_at); }
@after let:start
    proof {
        let s = old(self).rem();
        assert(self.rem() =~= s.subrange($1@.len() as int, s.len() as int));
    }
@ret 1
    proof {
        let s = old(self).rem();
        let n = $1@.len() as int;
        if s.len() >= n + 41 && s[n + 40] == 10 {
            assert(self.rem() =~= s.subrange(n + 40, s.len() as int));
            assert(self.rem().subrange(0, 1) =~= seq![10u8]);
        }
    }
@before call:from_hex
    proof {
        let s = old(self).rem();
        let n = $1@.len() as int;
        assert(self.all().subrange(start as int, start + 40) =~= s.subrange(n, n + 40));
        assert(self.rem() =~= s.subrange(n + 41, s.len() as int));
        assert(s.subrange(n, s.len() as int).subrange(40, s.len() - n).subrange(0, 1)[0] == s[n + 40]);
    }
@end
@fn Parser::parse_struct
    requires old(self).wf(), T::zalign() == 1, T::zsize() <= max_mem()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(v) => old(self).rem().len() >= T::zsize() && final(self).ate(old(self), T::zsize() as int) && T::zok(old(self).rem().subrange(0, T::zsize() as int), *v),
            Err(e) => old(self).rem().len() < T::zsize() && e is UnexpectedEof && *final(self) == *old(self),
        }
@before let:value
    proof { assert(self.all().subrange(start as int, self.pos as int) =~= old(self).rem().subrange(0, len as int)); }
@end
@fn Parser::parse_u32
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(v) => old(self).rem().len() >= 4 && final(self).ate(old(self), 4) && v == be32(old(self).rem()),
            Err(e) => old(self).rem().len() < 4 && e is UnexpectedEof && *final(self) == *old(self),
        }
@end
