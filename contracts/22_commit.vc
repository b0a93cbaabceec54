@mod object::fields
@// The line formats commits and tags are made of (specification only).
use crate::shim::*;
use crate::shim::memchr::*;
use crate::object::*;
/// a line `prefix` + value, where it must start with the prefix: absent, or malformed, or the value and what follows the line
pub enum Field<T> { Absent, Bad, Good(T, Seq<u8>) }
/// `prefix`, 40 hex digits, a newline
pub open spec fn hex_id_line(s: Seq<u8>, p: Seq<u8>) -> bool {
    starts_with_spec(s, p) && s.len() >= p.len() + 41 && is_hex(s.subrange(p.len() as int, p.len() as int + 40)) && s[p.len() as int + 40] == 10
}
#[verifier::opaque]
pub open spec fn id_field(s: Seq<u8>, p: Seq<u8>) -> Field<Seq<u8>> {
    if !starts_with_spec(s, p) { Field::Absent }
    else if !hex_id_line(s, p) { Field::Bad }
    else { Field::Good(unhex(s.subrange(p.len() as int, p.len() as int + 40)), s.subrange(p.len() as int + 41, s.len() as int)) }
}
#[verifier::opaque]
pub open spec fn line_field(s: Seq<u8>, p: Seq<u8>) -> Field<Seq<u8>> {
    if !starts_with_spec(s, p) { Field::Absent } else {
        let t = s.subrange(p.len() as int, s.len() as int);
        match find(t, 10) {
            None => Field::Bad,
            Some(n) => Field::Good(t.subrange(0, n), t.subrange(n + 1, t.len() as int)),
        }
    }
}
#[verifier::opaque]
pub open spec fn hex_at(d: Seq<u8>, p: usize) -> bool { p + 40 <= d.len() && is_hex(d.subrange(p as int, p + 40)) }
#[verifier::opaque]
pub open spec fn id_at(d: Seq<u8>, p: usize) -> Seq<u8> { unhex(d.subrange(p as int, p + 40)) }
pub use crate::object::sigfields::sig_valid;
#[verifier::opaque]
pub open spec fn sig_field(s: Seq<u8>, p: Seq<u8>) -> Field<Seq<u8>> {
    match line_field(s, p) {
        Field::Good(l, rest) => if sig_valid(l) { Field::Good(l, rest) } else { Field::Bad },
        f => f,
    }
}

@mod object::signature src=src/object/signature.rs
use crate::shim::*;
use crate::shim::bstr::*;
use crate::shim::regex::{Regex, Captures};
use crate::object::sigfields::*;
use crate::object::fields::*;
use crate::shim::memchr::*;
use crate::parse::Parser;
use core::ops::{Range, RangeFrom, RangeTo};
broadcast use {crate::shim::fits, crate::object::sigfields::sig_lemmas, crate::shim::memchr::find_lemmas, crate::shim::conv::lemma_sub_sub};
@struct SignatureRaw noderive
@struct ParseSignatureError
@struct Signature noderive
impl SignatureRaw {
    pub open spec fn ok(&self, d: Seq<u8>) -> bool {
        self.range.start <= self.range.end <= d.len() && sig_valid(d.subrange(self.range.start as int, self.range.end as int)) && absent(d.subrange(self.range.start as int, self.range.end as int), 0x0a)
    }
    pub open spec fn line(&self, d: Seq<u8>) -> Seq<u8> { d.subrange(self.range.start as int, self.range.end as int) }
}
impl<'a> Signature<'a> {
    /// the line the fields are taken from
    pub open spec fn line(&self) -> Seq<u8> { self.captures.text() }
    pub open spec fn wf(&self) -> bool { fields_at(self.line(), self.captures.slots()) }
}
@fn Signature::regex ;; impl=~<'a>~Signature<'a>
    ensures r.prog() == p_all()
@start
    proof { lemma_program(); }
@end
@fn Signature::is_valid ;; impl=~<'a>~Signature<'a>
    requires absent($1@, 0x0a)
    ensures r == sig_valid($1@)
@end
@fn Signature::new
    requires $2.ok($1@)
    ensures r.line() == $2.line($1@), r.wf()
@end
@fn Signature::name
    requires self.wf()
    ensures r@ == sig_name(self.line())
@end
@fn Signature::email
    requires self.wf()
    ensures r@ == sig_email(self.line())
@end
@fn Signature::timestamp
    requires self.wf()
    ensures match r { Some(t) => sig_time(self.line()) == Some(t@), None => sig_time(self.line()) is None }
@end
@fn Signature::timezone
    requires self.wf()
    ensures match r { Some(t) => sig_zone(self.line()) == Some(t@), None => sig_zone(self.line()) is None }
@end
@fn Parser::parse_signature
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(None) => sig_field(old(self).rem(), $1@) is Absent && *final(self) == *old(self),
            Ok(Some(g)) => g.ok(old(self).all()) && sig_field(old(self).rem(), $1@) == Field::Good(g.line(old(self).all()), final(self).rem())
                && final(self).rem().len() < old(self).rem().len(),
            Err(_) => sig_field(old(self).rem(), $1@) is Bad,
        }
@start
    proof { reveal(sig_field); reveal(line_field); }
@end

@mod object::commit src=src/object/commit.rs
use crate::shim::*;
use crate::shim::bytes::Bytes;
use crate::shim::bstr::*;
use crate::shim::smallvec::SmallVec;
use crate::shim::sync::IterMap;
use crate::shim::memchr::*;
use crate::object::*;
use crate::object::fields::*;
use crate::object::signature::*;
use crate::parse::Parser;
use core::ops::{Range, RangeFrom, RangeTo};
broadcast use {crate::shim::fits, crate::shim::memchr::find_lemmas, crate::shim::conv::lemma_sub_sub};
@struct Commit noderive
@enum ParseCommitError
pub struct CommitV { pub tree: Seq<u8>, pub parents: Seq<Seq<u8>>, pub author: Seq<u8>, pub committer: Seq<u8>, pub encoding: Option<Seq<u8>>, pub message: Seq<u8> }
pub open spec fn p_tree() -> Seq<u8> { seq![116u8, 114, 101, 101, 32] }
pub open spec fn p_parent() -> Seq<u8> { seq![112u8, 97, 114, 101, 110, 116, 32] }
pub open spec fn p_author() -> Seq<u8> { seq![97u8, 117, 116, 104, 111, 114, 32] }
pub open spec fn p_committer() -> Seq<u8> { seq![99u8, 111, 109, 109, 105, 116, 116, 101, 114, 32] }
pub open spec fn p_encoding() -> Seq<u8> { seq![101u8, 110, 99, 111, 100, 105, 110, 103, 32] }
pub open spec fn p_nl() -> Seq<u8> { seq![10u8] }

/// `parent` lines, in order, and what follows them
pub open spec fn parents_of(s: Seq<u8>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> decreases s.len() {
    match id_field(s, p_parent()) {
        Field::Absent => Some((Seq::empty(), s)),
        Field::Bad => None,
        Field::Good(v, rest) => if rest.len() < s.len() { add_parent(v, parents_of(rest)) } else { None },
    }
}
pub open spec fn add_parent(v: Seq<u8>, o: Option<(Seq<Seq<u8>>, Seq<u8>)>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> {
    match o { Some((ps, rest)) => Some((seq![v] + ps, rest)), None => None }
}
pub open spec fn add_parents(a: Seq<Seq<u8>>, o: Option<(Seq<Seq<u8>>, Seq<u8>)>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> {
    match o { Some((ps, rest)) => Some((a + ps, rest)), None => None }
}
/// further `author` lines are ignored
pub open spec fn skip_authors(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    match sig_field(s, p_author()) {
        Field::Absent => Some(s),
        Field::Bad => None,
        Field::Good(v, rest) => if rest.len() < s.len() { skip_authors(rest) } else { None },
    }
}
/// header lines up to an empty line: the last `encoding`, and the message after the empty line
pub open spec fn headers_of(s: Seq<u8>, enc: Option<Seq<u8>>) -> Option<(Option<Seq<u8>>, Seq<u8>)> decreases s.len() {
    if starts_with_spec(s, p_nl()) { Some((enc, s.subrange(1, s.len() as int))) } else {
        match line_field(s, p_encoding()) {
            Field::Bad => None,
            Field::Good(v, rest) => if rest.len() < s.len() { headers_of(rest, Some(v)) } else { None },
            Field::Absent => match find(s, 10) {
                None => None,
                Some(n) => if 0 <= n < s.len() { headers_of(s.subrange(n + 1, s.len() as int), enc) } else { None },
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn commit_fields(s: Seq<u8>) -> Option<CommitV> {
    match id_field(s, p_tree()) { Field::Good(tree, s1) => match parents_of(s1) { Some((parents, s2)) =>
        match sig_field(s2, p_author()) { Field::Good(author, s3) => match skip_authors(s3) { Some(s4) =>
            match sig_field(s4, p_committer()) { Field::Good(committer, s5) => match headers_of(s5, None) { Some((encoding, message)) =>
                Some(CommitV { tree, parents, author, committer, encoding, message }),
            None => None }, _ => None },
        None => None }, _ => None },
    None => None }, _ => None }
}
pub open spec fn ids_at(d: Seq<u8>, ps: Seq<usize>) -> Seq<Seq<u8>> { Seq::new(ps.len(), |i: int| id_at(d, ps[i])) }
pub open spec fn hexes_at(d: Seq<u8>, ps: Seq<usize>) -> bool { forall|i: int| 0 <= i < ps.len() ==> hex_at(d, #[trigger] ps[i]) }
pub open spec fn opt_ok(d: Seq<u8>, o: Option<Range<usize>>) -> bool { o matches Some(g) ==> g.start <= g.end <= d.len() }
pub open spec fn opt_at(d: Seq<u8>, o: Option<Range<usize>>) -> Option<Seq<u8>> {
    match o { Some(g) => Some(d.subrange(g.start as int, g.end as int)), None => None }
}
impl Commit {
    pub open spec fn wf(&self) -> bool {
        let d = self.data.view();
        hex_at(d, self.tree) && hexes_at(d, self.parents.view()) && self.author.ok(d) && self.committer.ok(d)
            && opt_ok(d, self.encoding) && self.message <= d.len()
    }
    pub open spec fn view(&self) -> CommitV {
        let d = self.data.view();
        CommitV {
            tree: id_at(d, self.tree), parents: ids_at(d, self.parents.view()), author: self.author.line(d), committer: self.committer.line(d),
            encoding: opt_at(d, self.encoding), message: d.subrange(self.message as int, d.len() as int),
        }
    }
}
@fn Commit::parse ;; alone
    requires $1.wf()
    ensures match r { Ok(c) => c.wf() && commit_fields($1.rem()) == Some(c.view()), Err(_) => commit_fields($1.rem()) is None }
@start
    proof { reveal(commit_fields); }
    let ghost s0 = $1.rem();
    let ghost d = $1.all();
    proof {
        assert([116u8, 114, 101, 101, 32]@ =~= p_tree());
        assert([112u8, 97, 114, 101, 110, 116, 32]@ =~= p_parent());
        assert([97u8, 117, 116, 104, 111, 114, 32]@ =~= p_author());
        assert([99u8, 111, 109, 109, 105, 116, 116, 101, 114, 32]@ =~= p_committer());
        assert([101u8, 110, 99, 111, 100, 105, 110, 103, 32]@ =~= p_encoding());
        assert([10u8]@ =~= p_nl());
    }
@after let:tree
    let ghost s1 = parser.rem();
@loop 0 while
    invariant parser.wf(), parser.buffer == $1.buffer, d == parser.all(), hexes_at(d, parents.view()),
        parents_of(s1) == add_parents(ids_at(d, parents.view()), parents_of(parser.rem())),
    decreases parser.rem().len()
@loopstart 0
    let ghost sp = parser.rem();
@after call:push
    proof {
        let ps = parents.view().drop_last();
        let v = id_at(d, parents.view().last());
        assert(ids_at(d, parents.view()) =~= ids_at(d, ps).push(v));
        if parents_of(parser.rem()) is Some {
            let r = parents_of(parser.rem()).unwrap().0;
            assert(ids_at(d, ps) + (seq![v] + r) =~= ids_at(d, parents.view()) + r);
        }
    }
@after let:author
    let ghost s3 = parser.rem();
@loop 1 while
    invariant parser.wf(), parser.buffer == $1.buffer, d == parser.all(),
        skip_authors(s3) == skip_authors(parser.rem()),
    decreases parser.rem().len()
@after let:committer
    let ghost s5 = parser.rem();
@loop 2 while
    invariant parser.wf(), parser.buffer == $1.buffer, d == parser.all(),
        opt_ok(d, encoding),
        headers_of(s5, None) == headers_of(parser.rem(), opt_at(d, encoding)),
    decreases parser.rem().len()
@end
@fn Commit::tree
    requires self.wf()
    ensures r.view() == self.view().tree
@start
    proof { reveal(hex_at); reveal(id_at); let d = self.data.view(); assert(d.subrange(self.tree as int, d.len() as int).subrange(0, 40) =~= d.subrange(self.tree as int, self.tree + 40)); }
@end
@fn Commit::parents ;; rettype=Vec<Id>
    requires self.wf()
    ensures r@.len() == self.view().parents.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).view() == self.view().parents[i]
@start
    proof { reveal(hex_at); reveal(id_at); }
@closure 0
    |$0: &usize| -> (o: Id) requires hex_at(self.data.view(), *$0) ensures o.view() == id_at(self.data.view(), *$0)
@end
@fn Commit::author
    requires self.wf()
    ensures r.line() == self.view().author, r.wf()
@end
@fn Commit::committer
    requires self.wf()
    ensures r.line() == self.view().committer, r.wf()
@end
@fn Commit::encoding
    requires self.wf()
    ensures match r { Some(b) => self.view().encoding == Some(b@), None => self.view().encoding is None }
@end
@fn Commit::message
    requires self.wf()
    ensures r@ == self.view().message
@end
