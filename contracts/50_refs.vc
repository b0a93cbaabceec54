@// References: their files, what they lead to.
@mod shim
/// `contains` of a slice
pub trait VContains { type I; spec fn members(&self) -> Seq<Self::I>; fn vcontains(&self, x: &Self::I) -> (r: bool) ensures r == self.members().contains(*x); }
impl VContains for [u8] {
    type I = u8;
    open spec fn members(&self) -> Seq<u8> { self@ }
    fn vcontains(&self, x: &u8) -> (r: bool) {
        match crate::shim::memchr::memchr(*x, self) {
            Some(i) => { assert(self@[i as int] == *x); true }
            None => { assert(!self@.contains(*x)); false }
        }
    }
}
/// `to_owned`
pub trait VToOwned { type O; spec fn owns(&self, o: Self::O) -> bool; fn vto_owned(&self) -> (r: Self::O) ensures self.owns(r); }
impl VToOwned for [u8] {
    type O = Vec<u8>;
    open spec fn owns(&self, o: Vec<u8>) -> bool { o@ == self@ }
    fn vto_owned(&self) -> (r: Vec<u8>) { crate::shim::stdx::VToVec::vto_vec(self) }
}
impl VToOwned for str {
    type O = String;
    open spec fn owns(&self, o: String) -> bool { o@ == self@ }
    fn vto_owned(&self) -> (r: String) { self.to_owned() }
}
@mod shim::conv
pub broadcast proof fn lemma_sub_add(a: Seq<u8>, b: Seq<u8>, i: int, n: int)
    requires 0 <= i <= a.len(), n == a.len() + b.len()
    ensures #[trigger] (a + b).subrange(i, n) == a.subrange(i, a.len() as int) + b
{ assert((a + b).subrange(i, n) =~= a.subrange(i, a.len() as int) + b); }
@mod shim::bstr
/// how many bytes of white space (as Unicode has it) are at the end: 0 or one character
pub open spec fn white_end(s: Seq<u8>) -> int {
    let n = s.len() as int;
    if n >= 1 && white1(s[n - 1]) { 1 }
    else if n >= 2 && white2(s[n - 2], s[n - 1]) { 2 }
    else if n >= 3 && white3(s[n - 3], s[n - 2], s[n - 1]) { 3 }
    else { 0 }
}
pub open spec fn white1(a: u8) -> bool { 9 <= a <= 13 || a == 0x20 }
pub open spec fn white2(a: u8, b: u8) -> bool { a == 0xc2 && (b == 0x85 || b == 0xa0) }
pub open spec fn white3(a: u8, b: u8, c: u8) -> bool {
    ||| a == 0xe1 && b == 0x9a && c == 0x80
    ||| a == 0xe2 && b == 0x80 && (0x80 <= c <= 0x8a || c == 0xa8 || c == 0xa9 || c == 0xaf)
    ||| a == 0xe2 && b == 0x81 && c == 0x9f
    ||| a == 0xe3 && b == 0x80 && c == 0x80
}
pub open spec fn white_begin(s: Seq<u8>) -> int {
    let n = s.len() as int;
    if n >= 1 && white1(s[0]) { 1 }
    else if n >= 2 && white2(s[0], s[1]) { 2 }
    else if n >= 3 && white3(s[0], s[1], s[2]) { 3 }
    else { 0 }
}
/// `trim_end`: without the white space at the end
pub open spec fn trimmed(s: Seq<u8>) -> Seq<u8> decreases s.len() { if white_end(s) == 0 { s } else { trimmed(s.subrange(0, s.len() - white_end(s))) } }
/// `trim_start`
pub open spec fn trimmed_start(s: Seq<u8>) -> Seq<u8> decreases s.len() { if white_begin(s) == 0 { s } else { trimmed_start(s.skip(white_begin(s))) } }
pub broadcast proof fn lemma_trimmed(s: Seq<u8>)
    ensures (#[trigger] trimmed(s)).len() <= s.len(), trimmed(s) == s.subrange(0, trimmed(s).len() as int)
    decreases s.len()
{ if white_end(s) == 0 { assert(s =~= s.subrange(0, s.len() as int)); } else { let t = s.subrange(0, s.len() - white_end(s)); lemma_trimmed(t); assert(t.subrange(0, trimmed(t).len() as int) =~= s.subrange(0, trimmed(t).len() as int)); } }
@mod shim::io
/// `std::io::Cursor` over bytes, at their start
pub struct Cursor<T> { pub t: T, pub pos: usize }
impl<'a> Cursor<&'a [u8]> {
    pub fn new(t: &'a [u8]) -> (r: Cursor<&'a [u8]>) ensures r.t == t, r.pos == 0 { Cursor { t, pos: 0 } }
}
impl<'a> Read for Cursor<&'a [u8]> {
    open spec fn rest(&self) -> Seq<u8> { suffix(self.t@, self.pos as int) }
    open spec fn can_fail(&self) -> bool { false }
    open spec fn broken(&self) -> bool { false }
    open spec fn patience(&self) -> nat { 0 }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
}
/// `Read::read_to_end`
pub trait ReadAll: Read {
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>)
        ensures final(buf)@.len() <= max_mem(), match r { Ok(n) => !old(self).broken() && final(buf)@ == old(buf)@ + old(self).rest() && final(self).rest() == Seq::<u8>::empty(), Err(_) => old(self).can_fail() };
}
impl<R: Read> ReadAll for R {
    #[verifier::external_body]
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
}

@mod reference::parser src=src/reference/parser.rs
use crate::shim::*;
use crate::shim::io::{self, Read, ReadAll, Cursor};
use crate::shim::bstr::{ByteSlice, trimmed, lemma_trimmed};
use crate::shim::memchr::*;
use crate::object::{ParseIdError, is_hex, unhex};
use crate::reference::{ReferenceTarget};
use crate::reference::direct::Direct;
use crate::reference::symbolic::Symbolic;
use core::ops::Range;
broadcast use {crate::shim::memchr::find_lemmas, crate::shim::conv::lemma_sub_sub, crate::shim::conv::lemma_sub_add};
@const SYMBOLIC_PREFIX
@const INVALID_REFERENCE_START
@struct Parser
@enum ParseError
/// what the file of a reference says: an id, or a name, with the id it is said to lead to, if there is one
pub ghost enum Target { Direct(Seq<u8>), Symbolic(Seq<u8>, Option<Seq<u8>>) }
/// 40 hexadecimal digits
pub open spec fn is_id(s: Seq<u8>) -> bool { s.len() == 40 && is_hex(s) }
/// how long the first line is, with its end
pub open spec fn line_len(s: Seq<u8>) -> int { match find(s, 0x0a) { Some(n) => n + 1, None => s.len() as int } }
/// a line that counts does not begin with a line end, a space, or `#`
pub open spec fn counts(s: Seq<u8>) -> bool { s.len() > 0 && s[0] != 0x0a && s[0] != 0x20 && s[0] != 0x23 }
pub proof fn lemma_line_len(s: Seq<u8>) requires s.len() > 0 ensures 0 < line_len(s) <= s.len() { }
/// the first line that counts
pub open spec fn first_line(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len()
    via first_line_decreases
{
    if s.len() == 0 { None }
    else {
        let l = s.subrange(0, line_len(s));
        if counts(l) { Some(l) } else { first_line(s.subrange(line_len(s), s.len() as int)) }
    }
}
#[via_fn]
proof fn first_line_decreases(s: Seq<u8>) { if s.len() > 0 { lemma_line_len(s); } }
/// what that line says
pub open spec fn line_target(l: Seq<u8>) -> Option<Target> {
    let p = seq![0x72u8, 0x65, 0x66, 0x3a, 0x20];
    if starts_with_spec(l, p) {
        symbolic_of(trimmed(l.subrange(5, l.len() as int)), None)
    } else {
        let (peel, name) = match find(l, 0x20) {
            Some(n) => (Some(trimmed(l.subrange(0, n))), l.subrange(n + 1, l.len() as int)),
            None => (None::<Seq<u8>>, l),
        };
        if find(name, 0x2f) is Some { symbolic_of(trimmed(name), peel) }
        else if is_id(trimmed(name)) { Some(Target::Direct(unhex(trimmed(name)))) }
        else { None }
    }
}
pub open spec fn symbolic_of(name: Seq<u8>, peel: Option<Seq<u8>>) -> Option<Target> {
    if name.len() == 0 { None } else {
        match peel {
            None => Some(Target::Symbolic(name, None)),
            Some(p) => if is_id(p) { Some(Target::Symbolic(name, Some(unhex(p)))) } else { None },
        }
    }
}
pub open spec fn target_of(s: Seq<u8>) -> Option<Target> { match first_line(s) { Some(l) => line_target(l), None => None } }
impl<R> Parser<R> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.buffer@.len() && self.buffer@.len() <= max_mem() }
    pub open spec fn left(&self) -> Seq<u8> { self.buffer@.subrange(self.pos as int, self.buffer@.len() as int) }
}
@fn Parser::new
    ensures r.buffer@.len() == 0, r.pos == 0, r.reader == $1
@end
@fn Parser::finished
    requires self.wf()
    ensures r == (self.left().len() == 0)
@end
@fn Parser::remaining_buffer
    requires self.wf()
    ensures r@ == self.left()
@end
@fn Parser::parse
    requires self.wf()
    ensures match r {
        Ok(t) => !self.reader.broken() && target_of(self.left() + self.reader.rest()) == Some(t.view()),
        Err(ParseError::Io(_)) => self.reader.can_fail(),
        Err(_) => target_of(self.left() + self.reader.rest()) is None,
    }
@end
@fn Parser::read_until_valid_reference_line
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer, match r {
        Ok(Some(g)) => g.start <= g.end <= final(self).buffer@.len() && first_line(old(self).left()) == Some(final(self).buffer@.subrange(g.start as int, g.end as int)),
        Ok(None) => first_line(old(self).left()) is None,
        Err(_) => false,
    }
@loop 0 while
    invariant self.wf(), self.buffer == old(self).buffer, first_line(self.left()) == first_line(old(self).left()),
    decreases self.left().len()
@end
@fn Parser::reference_line_is_valid
    requires $1@.len() > 0
    ensures r == counts($1@)
@end
@fn Parser::consume_until
    requires old(self).wf()
    ensures final(self).wf(), final(self).buffer == old(self).buffer, match r {
        Some(b) => find(old(self).left(), $1) == Some(b@.len() as int) && final(self).pos == old(self).pos + b@.len() + 1,
        None => find(old(self).left(), $1) is None && final(self).pos == old(self).pos,
    }
@end
@mod reference::direct src=src/reference/direct.rs
use crate::shim::*;
use crate::shim::world::*;
use crate::object::{Object, Id, is_hex, unhex};
use crate::reference::{Error, at_object};
use crate::reference::parser::{ParseError, is_id};
use crate::repository::Repository;
@struct Direct noderive
@fn Direct::from_bytes
    ensures match r { Ok(d) => is_id($1@) && d.id.view() == unhex($1@), Err(e) => e is InvalidDirectIdentifier && !is_id($1@) }
@end
@fn Direct::object ;; world
    requires $1.wf()
    ensures final(world).on(old(world)), at_object(*$1, old(world).now(), final(world).now(), self.id.view(), r)
@end
@mod reference::symbolic src=src/reference/symbolic.rs
use crate::shim::*;
use crate::shim::bstr::*;
use crate::shim::world::*;
use crate::object::Object;
use crate::reference::direct::Direct;
use crate::reference::{Error, MAX_SYMBOLIC_DEPTH, peels, peeled, lemma_link, lemma_at, lemma_unlinked, lemma_too_deep, lemma_peels};
use crate::reference::parser::{ParseError, Target, is_id, symbolic_of};
use crate::repository::Repository;
@struct Symbolic noderive
impl Symbolic {
    pub open spec fn view(&self) -> Target { Target::Symbolic(self.data@, match self.direct_peel { Some(d) => Some(d.id.view()), None => None }) }
}
@fn Symbolic::from_bytes
    ensures match r { Ok(s) => symbolic_of($1@, match $2 { Some(p) => Some(p@), None => None }) == Some(s.view()), Err(e) => symbolic_of($1@, match $2 { Some(p) => Some(p@), None => None }) is None && !(e is Io) }
@end
@fn Symbolic::data
    ensures r@ == self.data@
@end
@fn Symbolic::peel ;; world
    requires $1.wf()
    ensures final(world).on(old(world)), peeled(*$1, old(world).now(), final(world).now(), self.view(), r)
@end
@fn Symbolic::peel_to_depth ;; world
    requires $1.wf()
    ensures final(world).on(old(world)), peels(*$1, old(world).now(), final(world).now(), self.view(), $2 as nat, r)
    decreases $2, 0nat
@start
    broadcast use {lemma_link, lemma_at, lemma_unlinked, lemma_too_deep, lemma_peels};
@end
@mod reference src=src/reference.rs
use crate::shim::*;
use crate::shim::io::{self, Read, Cursor};
use crate::shim::bstr::ByteSlice;
use crate::shim::path::PathLike;
use crate::shim::world::*;
use crate::object::{self, Object, ReadObjectError, ReadObjectErrorKind};
use crate::object::database::{ReadError, gives, lost, lemma_gives, lemma_lost_wider};
use crate::reference::database::{named, refers, garbled, looked_up, lemma_refers, lemma_garbled};
use crate::reference::parser::{ParseError, Parser, Target, target_of};
use crate::reference::direct::Direct;
use crate::reference::symbolic::Symbolic;
use crate::repository::Repository;
@enum ReferenceTarget noderive
@struct Reference
@enum Error
impl ReferenceTarget {
    pub open spec fn view(&self) -> Target { match self { ReferenceTarget::Direct(d) => Target::Direct(d.id.view()), ReferenceTarget::Symbolic(s) => s.view() } }
}
@const MAX_SYMBOLIC_DEPTH
/// where following symbolic references ends
pub ghost enum End { Id(Seq<u8>), TooDeep, Gone, BadName, Garbled, Unread }
/// Following the names, for at most `n` of them, from `g`, ends so. Each file is looked at at a time from `t` to `u`.
pub open spec fn ends(t: nat, u: nat, root: Seq<u8>, g: Target, n: nat, e: End) -> bool
    decreases n
{
    match g {
        Target::Direct(i) => e == End::Id(i),
        Target::Symbolic(_, Some(i)) => e == End::Id(i),
        Target::Symbolic(name, None) => if n == 0 { e is TooDeep } else {
            ||| e is BadName && !named(name)
            ||| e is Gone && named(name) && gone(t, u, crate::shim::path::path_join(root, name))
            ||| e is Garbled && garbled(t, u, root, name)
            ||| e is Unread && named(name)
            ||| exists|h: Target| #[trigger] refers(t, u, root, name, h) && ends(t, u, root, h, (n - 1) as nat, e)
        },
    }
}
pub broadcast proof fn lemma_ends(t: nat, u: nat, root: Seq<u8>, g: Target, n: nat, e: End, t2: nat, u2: nat)
    requires #[trigger] ends(t, u, root, g, n, e), t2 <= t, u <= u2
    ensures #[trigger] ends(t2, u2, root, g, n, e)
    decreases n
{
    broadcast use {group_times, lemma_refers, lemma_garbled};
    if let Target::Symbolic(name, None) = g {
        if n > 0 && exists|h: Target| #[trigger] refers(t, u, root, name, h) && ends(t, u, root, h, (n - 1) as nat, e) {
            let h = choose|h: Target| #[trigger] refers(t, u, root, name, h) && ends(t, u, root, h, (n - 1) as nat, e);
            lemma_ends(t, u, root, h, (n - 1) as nat, e, t2, u2);
            assert(refers(t2, u2, root, name, h));
        } else if n > 0 {
            if e is Gone { assert(gone(t, u, crate::shim::path::path_join(root, name))); assert(gone(t2, u2, crate::shim::path::path_join(root, name))); }
            if e is Garbled { assert(garbled(t2, u2, root, name)); }
        }
    }
}
/// it ends at an object, or the attempt to read one
pub open spec fn at_object(repo: Repository, t: nat, u: nat, id: Seq<u8>, r: Result<Object, Error>) -> bool {
    match r {
        Ok(ob) => gives(repo.object_database, t, u, id, ob),
        Err(Error::DereferencingFailed(e)) => e.id.view() == id && (e.kind matches ReadObjectErrorKind::Database(ReadError::NotFound) ==> lost(repo.object_database, t, u, id)),
        Err(_) => false,
    }
}
pub open spec fn fits(e: End, r: Result<Object, Error>) -> bool {
    match r {
        Ok(_) => e is Id,
        Err(Error::DereferencingFailed(_)) => e is Id,
        Err(Error::SymbolicReferenceTooDeep) => e is TooDeep,
        Err(Error::ReferenceNotFound) => e is Gone,
        Err(Error::ReferenceNameInvalidPath) => e is BadName,
        Err(Error::InvalidReference(ParseError::Io(_))) => e is Unread,
        Err(Error::InvalidReference(_)) => e is Garbled,
        Err(Error::Io(_)) => e is Unread,
        Err(_) => false,
    }
}
/// what peeling gives, if it follows `n` names
pub open spec fn peels(repo: Repository, t: nat, u: nat, g: Target, n: nat, r: Result<Object, Error>) -> bool {
    exists|e: End| #[trigger] ends(t, u, repo.reference_database.path.pb(), g, n, e) && fits(e, r) && (e matches End::Id(id) ==> at_object(repo, t, u, id, r))
}
pub broadcast proof fn lemma_peels(repo: Repository, t: nat, u: nat, g: Target, n: nat, r: Result<Object, Error>, t2: nat, u2: nat)
    requires #[trigger] peels(repo, t, u, g, n, r), t2 <= t, u <= u2
    ensures #[trigger] peels(repo, t2, u2, g, n, r)
{
    broadcast use {lemma_ends, lemma_gives, lemma_lost_wider};
    let e = choose|e: End| #[trigger] ends(t, u, repo.reference_database.path.pb(), g, n, e) && fits(e, r) && (e matches End::Id(id) ==> at_object(repo, t, u, id, r));
    assert(ends(t2, u2, repo.reference_database.path.pb(), g, n, e));
    if let End::Id(id) = e { assert(at_object(repo, t2, u2, id, r)); }
}
/// one name more
pub broadcast proof fn lemma_link(repo: Repository, t: nat, u: nat, name: Seq<u8>, h: Target, x: nat, y: nat, n: nat, r: Result<Object, Error>, g: Target, m: nat, t2: nat, u2: nat)
    requires #[trigger] refers(t, u, repo.reference_database.path.pb(), name, h), #[trigger] peels(repo, x, y, h, n, r), g == Target::Symbolic(name, None), m == n + 1, t2 <= t, u <= u2, t2 <= x, y <= u2
    ensures #[trigger] peels(repo, t2, u2, g, m, r)
{
    broadcast use {lemma_refers, lemma_peels};
    assert(peels(repo, t2, u2, h, n, r));
    let root = repo.reference_database.path.pb();
    let e = choose|e: End| #[trigger] ends(t2, u2, root, h, n, e) && fits(e, r) && (e matches End::Id(id) ==> at_object(repo, t2, u2, id, r));
    assert(refers(t2, u2, root, name, h));
    assert(ends(t2, u2, root, g, m, e));
}
pub broadcast proof fn lemma_at(repo: Repository, t: nat, u: nat, id: Seq<u8>, r: Result<Object, Error>, g: Target, n: nat, t2: nat, u2: nat)
    requires #[trigger] at_object(repo, t, u, id, r), g == Target::Direct(id) || (g matches Target::Symbolic(_, Some(i)) && i == id), t2 <= t, u <= u2
    ensures #[trigger] peels(repo, t2, u2, g, n, r)
{
    broadcast use lemma_peels;
    assert(ends(t, u, repo.reference_database.path.pb(), g, n, End::Id(id)));
    assert(peels(repo, t, u, g, n, r));
}
pub broadcast proof fn lemma_unlinked(repo: Repository, t: nat, u: nat, name: Seq<u8>, l: Result<Reference, Error>, g: Target, n: nat, r: Result<Object, Error>, t2: nat, u2: nat)
    requires #[trigger] looked_up(t, u, repo.reference_database.path.pb(), name, l), g == Target::Symbolic(name, None), n > 0, l is Err, r is Err, l->Err_0 == r->Err_0, t2 <= t, u <= u2
    ensures #[trigger] peels(repo, t2, u2, g, n, r)
{
    broadcast use lemma_peels;
    let root = repo.reference_database.path.pb();
    let e = match l->Err_0 { Error::ReferenceNameInvalidPath => End::BadName, Error::ReferenceNotFound => End::Gone, Error::InvalidReference(ParseError::Io(_)) => End::Unread, Error::InvalidReference(_) => End::Garbled, _ => End::Unread };
    assert(ends(t, u, root, g, n, e));
    assert(peels(repo, t, u, g, n, r));
}
pub broadcast proof fn lemma_too_deep(repo: Repository, t: nat, u: nat, g: Target, n: nat, r: Result<Object, Error>)
    requires g matches Target::Symbolic(_, None), n == 0, r matches Err(Error::SymbolicReferenceTooDeep)
    ensures #[trigger] peels(repo, t, u, g, n, r)
{
    assert(ends(t, u, repo.reference_database.path.pb(), g, n, End::TooDeep));
}
/// what peeling gives: at least four names are followed, and no great number
pub open spec fn peeled(repo: Repository, t: nat, u: nat, g: Target, r: Result<Object, Error>) -> bool {
    exists|n: nat| 4 <= n <= 1000 && #[trigger] peels(repo, t, u, g, n, r)
}
@fn ReferenceTarget::peel ;; world
    requires $1.wf()
    ensures final(world).on(old(world)), peeled(*$1, old(world).now(), final(world).now(), self.view(), r)
@end
@fn ReferenceTarget::peel_to_depth ;; world
    requires $1.wf()
    ensures final(world).on(old(world)), peels(*$1, old(world).now(), final(world).now(), self.view(), $2 as nat, r)
    decreases $2, 1nat
@start
    broadcast use {lemma_at, lemma_peels};
@end
@fn Reference::peel ;; world
    requires $1.wf()
    ensures final(world).on(old(world)), peeled(*$1, old(world).now(), final(world).now(), self.target.view(), r)
@end
@fn Reference::from_reader
    ensures match r {
        Ok(t) => !$1.broken() && target_of($1.rest()) == Some(t.target.view()),
        Err(Error::InvalidReference(ParseError::Io(_))) => $1.can_fail(),
        Err(Error::InvalidReference(_)) => target_of($1.rest()) is None,
        Err(_) => false,
    }
@end
@fn Reference::from_bytes
    ensures match r {
        Ok(t) => target_of($1@) == Some(t.target.view()),
        Err(Error::InvalidReference(_)) => target_of($1@) is None,
        Err(_) => false,
    }
@start
    proof { assert(crate::shim::io::suffix($1@, 0) =~= $1@); }
@end
@fn Reference::target
    ensures *r == self.target
@end
@fn Reference::name
    ensures match self.target.view() {
        Target::Symbolic(n, _) => match r { Some(s) => is_utf8(n) && str_bytes(s) == n, None => !is_utf8(n) },
        Target::Direct(_) => r is None,
    }
@end
@mod repository src=src/repository.rs
use crate::shim::*;
use crate::shim::path::*;
use crate::object::database::ObjectDatabase;
use crate::reference::database::ReferenceDatabase;
@struct Repository
impl Repository { pub open spec fn wf(&self) -> bool { self.object_database.wf() } }
@fn Repository::object_database
    ensures *r == self.object_database
@end
@fn Repository::reference_database
    ensures *r == self.reference_database
@end
@mod reference::database src=src/reference/database.rs
use crate::shim::*;
use crate::shim::io::{self, Read};
use crate::shim::path::*;
use crate::shim::world::*;
use crate::reference::{Error, Reference};
use crate::reference::parser::{ParseError, Target, target_of};
pub mod fs_err { pub use crate::shim::fs::*; }
pub mod fs { pub use crate::shim::fs::*; }
pub mod pathdiff { pub use crate::shim::path::diff_paths; }
use crate::shim::sync::IterMap;
use crate::shim::fs::{DirEntry, lists_all, no_dir, tree, weigh, lemma_listed, lemma_no_dir};
@world File::open fs::read_dir fs_err::read_dir .file_type
@const REFS
@const HEADS
@const TAGS
@const REMOTES
@const HEAD
@struct ReferenceDatabase
/// this may be the name of a reference: it does not lead out of the folder
pub open spec fn named(n: Seq<u8>) -> bool { n.len() > 0 && plain(n) }
/// the file of a reference, which says this, at some time
pub open spec fn refers(t: nat, u: nat, root: Seq<u8>, n: Seq<u8>, g: Target) -> bool {
    named(n) && exists|c: Seq<u8>| #[trigger] at_some(t, u, path_join(root, n), c) && target_of(c) == Some(g)
}
/// the file of a reference holds none
pub open spec fn garbled(t: nat, u: nat, root: Seq<u8>, n: Seq<u8>) -> bool {
    named(n) && exists|c: Seq<u8>| #[trigger] at_some(t, u, path_join(root, n), c) && target_of(c) is None
}
pub broadcast proof fn lemma_refers(t: nat, u: nat, root: Seq<u8>, n: Seq<u8>, g: Target, t2: nat, u2: nat)
    requires #[trigger] refers(t, u, root, n, g), t2 <= t, u <= u2
    ensures #[trigger] refers(t2, u2, root, n, g)
{
    broadcast use group_times;
    let c = choose|c: Seq<u8>| #[trigger] at_some(t, u, path_join(root, n), c) && target_of(c) == Some(g);
    assert(at_some(t2, u2, path_join(root, n), c));
}
pub broadcast proof fn lemma_garbled(t: nat, u: nat, root: Seq<u8>, n: Seq<u8>, t2: nat, u2: nat)
    requires #[trigger] garbled(t, u, root, n), t2 <= t, u <= u2
    ensures #[trigger] garbled(t2, u2, root, n)
{
    broadcast use group_times;
    let c = choose|c: Seq<u8>| #[trigger] at_some(t, u, path_join(root, n), c) && target_of(c) is None;
    assert(at_some(t2, u2, path_join(root, n), c));
}
/// what looking it up gives
pub open spec fn looked_up(t: nat, u: nat, root: Seq<u8>, n: Seq<u8>, r: Result<Reference, Error>) -> bool {
    match r {
        Ok(f) => refers(t, u, root, n, f.target.view()),
        Err(Error::ReferenceNameInvalidPath) => !named(n),
        Err(Error::ReferenceNotFound) => named(n) && gone(t, u, path_join(root, n)),
        Err(Error::InvalidReference(ParseError::Io(_))) => named(n),
        Err(Error::InvalidReference(_)) => garbled(t, u, root, n),
        Err(Error::Io(_)) => named(n),
        Err(_) => false,
    }
}
@fn ReferenceDatabase::open ;; ty1=PP generics=PP where=where~PP:~VInto<PathBuf>
    ensures r.path == <PP as VInto<PathBuf>>::vi($1)
@end
@fn ReferenceDatabase::head ;; world
    ensures final(world).on(old(world)), looked_up(old(world).now(), final(world).now(), self.path.pb(), seq![0x48u8, 0x45, 0x41, 0x44], r)
@end
@fn ReferenceDatabase::reference ;; world
    ensures final(world).on(old(world)), looked_up(old(world).now(), final(world).now(), self.path.pb(), $1@, r)
@end
@fn ReferenceDatabase::parse_reference ;; world
    ensures final(world).on(old(world)), looked_up(old(world).now(), final(world).now(), self.path.pb(), $1@, r)
@end
@fn ReferenceDatabase::read_head ;; world rettype=Result<fs_err::File,~Error>
    ensures final(world).on(old(world)), match r {
        Ok(f) => f.rest_() == f.whole_() && at_some(old(world).now(), final(world).now(), path_join(self.path.pb(), seq![0x48u8, 0x45, 0x41, 0x44]), f.whole_()),
        Err(Error::ReferenceNotFound) => gone(old(world).now(), final(world).now(), path_join(self.path.pb(), seq![0x48u8, 0x45, 0x41, 0x44])),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@end
@fn ReferenceDatabase::read_reference_file ;; world rettype=Result<fs_err::File,~Error>
    ensures final(world).on(old(world)), match r {
        Ok(f) => named($1@) && f.rest_() == f.whole_() && at_some(old(world).now(), final(world).now(), path_join(self.path.pb(), $1@), f.whole_()),
        Err(Error::ReferenceNameInvalidPath) => !named($1@),
        Err(Error::ReferenceNotFound) => named($1@) && gone(old(world).now(), final(world).now(), path_join(self.path.pb(), $1@)),
        Err(Error::Io(_)) => named($1@) && final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@closure 0
    |$0: Component<'_>| -> (b: bool) ensures b == $body
@end
/// `d` is this folder, or one which was `k` folders below it, each at some time from `t` to `u`
pub open spec fn reached(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>, k: nat) -> bool
    decreases k
{ if k == 0 { d == root } else { exists|e: Seq<u8>, x: nat| t <= x <= u && #[trigger] listed(x, e, d) && is_dir(x, d) && reached(t, u, root, e, (k - 1) as nat) } }
pub open spec fn below(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>) -> bool { exists|k: nat| #[trigger] reached(t, u, root, d, k) }
/// there was a file (or something else that is no folder) at this path below the folder
pub open spec fn file_seen(t: nat, u: nat, root: Seq<u8>, p: Seq<u8>) -> bool { exists|d: Seq<u8>, x: nat| t <= x <= u && #[trigger] listed(x, d, p) && !is_dir(x, p) && below(t, u, root, d) }
/// all the time
pub open spec fn steady(t: nat, u: nat, d: Seq<u8>, p: Seq<u8>, b: bool) -> bool { forall|x: nat| t <= x <= u ==> #[trigger] listed(x, d, p) && is_dir(x, p) == b }
pub open spec fn always(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>, k: nat) -> bool
    decreases k
{ if k == 0 { d == root } else { exists|e: Seq<u8>| #[trigger] steady(t, u, e, d, true) && always(t, u, root, e, (k - 1) as nat) } }
/// all the time there is a file at this path below the folder
pub open spec fn file_kept(t: nat, u: nat, root: Seq<u8>, p: Seq<u8>) -> bool { exists|d: Seq<u8>, k: nat| #[trigger] steady(t, u, d, p, false) && #[trigger] always(t, u, root, d, k) }
pub open spec fn holds(s: Seq<PathBuf>, p: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pb() == p }
pub open spec fn distinct(s: Seq<PathBuf>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).pb() != (#[trigger] s[j]).pb() }
pub open spec fn weight(s: Seq<PathBuf>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { weight(s.drop_last()) + tree(s.last().pb()) } }
pub proof fn lemma_push(s: Seq<PathBuf>, x: PathBuf)
    ensures forall|p: Seq<u8>| #[trigger] holds(s.push(x), p) <==> holds(s, p) || x.pb() == p, distinct(s) && !holds(s, x.pb()) ==> distinct(s.push(x)), weight(s.push(x)) == weight(s) + tree(x.pb())
{
    let w = s.push(x);
    assert(w.drop_last() =~= s);
    assert forall|p: Seq<u8>| #[trigger] holds(w, p) <==> holds(s, p) || x.pb() == p by {
        if holds(s, p) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pb() == p; assert(w[i].pb() == p); }
        if x.pb() == p { assert(w[s.len() as int].pb() == p); }
        if holds(w, p) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).pb() == p; if i < s.len() { assert(s[i].pb() == p); } }
    }
    if distinct(s) && !holds(s, x.pb()) {
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).pb() != (#[trigger] w[j]).pb() by { if j == s.len() { assert(s[i].pb() == w[i].pb()); } }
    }
}
/// the folder at `d` was looked into at time `x`, and all of it is in the lists
pub open spec fn done(x: nat, d: Seq<u8>, seen: Map<Seq<u8>, nat>, dirs: Seq<PathBuf>, files: Seq<PathBuf>) -> bool {
    forall|p: Seq<u8>| #[trigger] listed(x, d, p) ==> if is_dir(x, p) { seen.dom().contains(p) || holds(dirs, p) } else { holds(files, p) }
}
pub open spec fn parented(seen: Map<Seq<u8>, nat>, p: Seq<u8>) -> bool { exists|e: Seq<u8>| #[trigger] seen.dom().contains(e) && name_in(e, p) }
/// `at` is the folder which is being looked into, if one is; others that were are done
pub open spec fn walking(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, at: Option<Seq<u8>>) -> bool {
    &&& under(base, root) && solid(root)
    &&& forall|d: Seq<u8>| #[trigger] holds(dirs, d) ==> solid(d) && under(base, d) && d.len() >= root.len() && below(t, u, root, d) && !seen.dom().contains(d) && (d == root || parented(seen, d))
    &&& forall|d: Seq<u8>| #[trigger] seen.dom().contains(d) ==> solid(d) && d.len() >= root.len() && (d == root || parented(seen, d)) && t <= seen[d] <= u && (at != Some(d) ==> done(seen[d], d, seen, dirs, files))
    &&& forall|f: Seq<u8>| #[trigger] holds(files, f) ==> file_seen(t, u, root, f) && under(base, f) && parented(seen, f)
    &&& distinct(dirs) && distinct(files)
    &&& seen.dom().contains(root) || holds(dirs, root)
}
/// the entries of the folder at `d` before the `i`th are in the lists, the others are not
pub open spec fn midway(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int) -> bool {
    &&& walking(t, u, base, root, dirs, files, seen, Some(d))
    &&& seen.dom().contains(d) && lists_all(seen[d], d, s) && under(base, d) && below(t, u, root, d)
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok && if (s[j]->Ok_0).dir_() { holds(dirs, (s[j]->Ok_0).pb()) } else { holds(files, (s[j]->Ok_0).pb()) }
    &&& forall|j: int| i <= j < s.len() && (#[trigger] s[j]) is Ok ==> !holds(dirs, (s[j]->Ok_0).pb()) && !holds(files, (s[j]->Ok_0).pb()) && !seen.dom().contains((s[j]->Ok_0).pb())
}
pub proof fn lemma_reached(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>, k: nat, t2: nat, u2: nat)
    requires reached(t, u, root, d, k), t2 <= t, u <= u2
    ensures reached(t2, u2, root, d, k)
    decreases k
{
    if k > 0 {
        let (e, x) = choose|e: Seq<u8>, x: nat| t <= x <= u && #[trigger] listed(x, e, d) && is_dir(x, d) && reached(t, u, root, e, (k - 1) as nat);
        lemma_reached(t, u, root, e, (k - 1) as nat, t2, u2);
        assert(t2 <= x <= u2 && listed(x, e, d));
    }
}
pub broadcast proof fn lemma_below(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>, t2: nat, u2: nat)
    requires #[trigger] below(t, u, root, d), t2 <= t, u <= u2
    ensures #[trigger] below(t2, u2, root, d)
{ let k = choose|k: nat| #[trigger] reached(t, u, root, d, k); lemma_reached(t, u, root, d, k, t2, u2); }
pub broadcast proof fn lemma_seen(t: nat, u: nat, root: Seq<u8>, p: Seq<u8>, t2: nat, u2: nat)
    requires #[trigger] file_seen(t, u, root, p), t2 <= t, u <= u2
    ensures #[trigger] file_seen(t2, u2, root, p)
{
    let (d, x) = choose|d: Seq<u8>, x: nat| t <= x <= u && #[trigger] listed(x, d, p) && !is_dir(x, p) && below(t, u, root, d);
    lemma_below(t, u, root, d, t2, u2);
    assert(t2 <= x <= u2 && listed(x, d, p));
}
pub proof fn lemma_always(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>, k: nat, t2: nat, u2: nat)
    requires always(t, u, root, d, k), t <= t2, u2 <= u
    ensures always(t2, u2, root, d, k)
    decreases k
{
    if k > 0 {
        let e = choose|e: Seq<u8>| #[trigger] steady(t, u, e, d, true) && always(t, u, root, e, (k - 1) as nat);
        lemma_always(t, u, root, e, (k - 1) as nat, t2, u2);
        assert(steady(t2, u2, e, d, true));
    }
}
pub broadcast proof fn lemma_kept(t: nat, u: nat, root: Seq<u8>, p: Seq<u8>, t2: nat, u2: nat)
    requires #[trigger] file_kept(t, u, root, p), t <= t2, u2 <= u
    ensures #[trigger] file_kept(t2, u2, root, p)
{
    let (d, k) = choose|d: Seq<u8>, k: nat| #[trigger] steady(t, u, d, p, false) && #[trigger] always(t, u, root, d, k);
    lemma_always(t, u, root, d, k, t2, u2);
    assert(steady(t2, u2, d, p, false));
}
pub proof fn lemma_wider_walk(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, at: Option<Seq<u8>>, u2: nat)
    requires walking(t, u, base, root, dirs, files, seen, at), u <= u2
    ensures walking(t, u2, base, root, dirs, files, seen, at)
{
    broadcast use {lemma_below, lemma_seen};
    assert forall|d: Seq<u8>| #[trigger] holds(dirs, d) implies below(t, u2, root, d) by { assert(below(t, u, root, d)); }
    assert forall|f: Seq<u8>| #[trigger] holds(files, f) implies file_seen(t, u2, root, f) by { assert(file_seen(t, u, root, f)); }
}
/// a folder is taken from the list; `x` is when it is looked into
pub proof fn lemma_take(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, all: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, x: nat, u2: nat)
    requires walking(t, u, base, root, all, files, seen, None), all.len() > 0, t <= u <= u2, t <= x <= u2
    ensures ({ let d = all.last().pb(); walking(t, u2, base, root, all.drop_last(), files, seen.insert(d, x), Some(d)) && under(base, d) && below(t, u2, root, d)
        && forall|p: Seq<u8>| #[trigger] name_in(d, p) ==> !holds(all.drop_last(), p) && !holds(files, p) && !seen.insert(d, x).dom().contains(p) })
{
    let d = all.last().pb();
    let dirs = all.drop_last();
    let s2 = seen.insert(d, x);
    assert(dirs.push(all.last()) =~= all);
    lemma_push(dirs, all.last());
    lemma_wider_walk(t, u, base, root, all, files, seen, None, u2);
    assert(holds(all, d));
    assert forall|e: Seq<u8>| #[trigger] holds(dirs, e) implies e != d && holds(all, e) by {
        let i = choose|i: int| 0 <= i < dirs.len() && (#[trigger] dirs[i]).pb() == e;
        assert(all[i].pb() == e && all[all.len() - 1].pb() == d);
    }
    assert forall|p: Seq<u8>| parented(seen, p) implies #[trigger] parented(s2, p) by { let e = choose|e: Seq<u8>| #[trigger] seen.dom().contains(e) && name_in(e, p); assert(s2.dom().contains(e)); }
    assert(distinct(dirs)) by { assert forall|i: int, j: int| 0 <= i < j < dirs.len() implies (#[trigger] dirs[i]).pb() != (#[trigger] dirs[j]).pb() by { assert(all[i].pb() != all[j].pb()); } }
    assert forall|e: Seq<u8>| #[trigger] s2.dom().contains(e) && e != d implies done(s2[e], e, s2, dirs, files) by {
        assert(seen.dom().contains(e));
        assert(done(seen[e], e, seen, all, files));
    }
    assert forall|p: Seq<u8>| #[trigger] name_in(d, p) implies !holds(dirs, p) && !holds(files, p) && !s2.dom().contains(p) by {
        lemma_under(base, d, p);
        // whatever is in the lists was in another folder
        if holds(all, p) || holds(files, p) || seen.dom().contains(p) {
            if p != root {
                let e = choose|e: Seq<u8>| #[trigger] seen.dom().contains(e) && name_in(e, p);
                lemma_one_parent(d, e, p);
            }
        }
    }
}
pub proof fn lemma_enter(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, all: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, x: nat, u2: nat, s: Seq<Result<DirEntry, io::Error>>)
    requires walking(t, u, base, root, all, files, seen, None), all.len() > 0, t <= u <= u2, t <= x <= u2, lists_all(x, all.last().pb(), s)
    ensures midway(t, u2, base, root, all.drop_last(), files, seen.insert(all.last().pb(), x), all.last().pb(), s, 0)
{
    broadcast use lemma_listed;
    lemma_take(t, u, base, root, all, files, seen, x, u2);
    assert forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Ok implies name_in(all.last().pb(), (s[j]->Ok_0).pb()) by { assert(listed(x, all.last().pb(), (s[j]->Ok_0).pb())); }
}
pub proof fn lemma_missing(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, all: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, x: nat, u2: nat)
    requires walking(t, u, base, root, all, files, seen, None), all.len() > 0, t <= u <= u2, t <= x <= u2, no_dir(x, all.last().pb())
    ensures walking(t, u2, base, root, all.drop_last(), files, seen.insert(all.last().pb(), x), None)
{
    broadcast use lemma_no_dir;
    lemma_take(t, u, base, root, all, files, seen, x, u2);
}
pub proof fn lemma_entry(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int, u2: nat)
    requires midway(t, u, base, root, dirs, files, seen, d, s, i), i < s.len(), s[i] is Ok, u <= u2
    ensures ({ let e = s[i]->Ok_0; let p = e.pb(); walking(t, u2, base, root, dirs, files, seen, Some(d)) && below(t, u2, root, d) && solid(p) && under(base, p) && p.len() >= root.len() && parented(seen, p)
        && !holds(dirs, p) && !holds(files, p) && !seen.dom().contains(p) && (e.dir_() ==> below(t, u2, root, p)) && (!e.dir_() ==> file_seen(t, u2, root, p))
        && forall|j: int| i < j < s.len() && (#[trigger] s[j]) is Ok ==> (s[j]->Ok_0).pb() != p })
{
    broadcast use {lemma_listed, lemma_below};
    let e = s[i]->Ok_0;
    let p = e.pb();
    lemma_wider_walk(t, u, base, root, dirs, files, seen, Some(d), u2);
    assert(listed(seen[d], d, p));
    lemma_under(base, d, p);
    assert(parented(seen, p));
    assert(below(t, u2, root, d));
    if e.dir_() { let k = choose|k: nat| #[trigger] reached(t, u2, root, d, k); assert(reached(t, u2, root, p, k + 1)); } else { assert(file_seen(t, u2, root, p)); }
}
pub proof fn lemma_more(seen: Map<Seq<u8>, nat>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, dirs2: Seq<PathBuf>, files2: Seq<PathBuf>, g: Seq<u8>)
    requires done(seen[g], g, seen, dirs, files), forall|p: Seq<u8>| #[trigger] holds(dirs, p) ==> holds(dirs2, p), forall|p: Seq<u8>| #[trigger] holds(files, p) ==> holds(files2, p)
    ensures done(seen[g], g, seen, dirs2, files2)
{ }
pub proof fn lemma_step(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int, e: DirEntry, x: PathBuf, u2: nat)
    requires midway(t, u, base, root, dirs, files, seen, d, s, i), i < s.len(), s[i] == Ok::<DirEntry, io::Error>(e), x.pb() == e.pb(), u <= u2
    ensures e.dir_() ==> midway(t, u2, base, root, dirs.push(x), files, seen, d, s, i + 1), !e.dir_() ==> midway(t, u2, base, root, dirs, files.push(x), seen, d, s, i + 1)
{
    hide(below); hide(file_seen); hide(under); hide(solid); hide(parented); hide(distinct); hide(lists_all); hide(holds); hide(done);
    lemma_entry(t, u, base, root, dirs, files, seen, d, s, i, u2);
    lemma_push(dirs, x);
    lemma_push(files, x);
    let p = e.pb();
    if e.dir_() {
        assert forall|g: Seq<u8>| #[trigger] seen.dom().contains(g) && g != d implies done(seen[g], g, seen, dirs.push(x), files) by { lemma_more(seen, dirs, files, dirs.push(x), files, g); }
        assert(walking(t, u2, base, root, dirs.push(x), files, seen, Some(d)));
    } else {
        assert forall|g: Seq<u8>| #[trigger] seen.dom().contains(g) && g != d implies done(seen[g], g, seen, dirs, files.push(x)) by { lemma_more(seen, dirs, files, dirs, files.push(x), g); }
        assert(walking(t, u2, base, root, dirs, files.push(x), seen, Some(d)));
    }
}
pub proof fn lemma_left(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>)
    requires midway(t, u, base, root, dirs, files, seen, d, s, s.len() as int)
    ensures walking(t, u, base, root, dirs, files, seen, None)
{
    assert forall|p: Seq<u8>| #[trigger] listed(seen[d], d, p) implies (if is_dir(seen[d], p) { seen.dom().contains(p) || holds(dirs, p) } else { holds(files, p) }) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ok && (s[i]->Ok_0).pb() == p;
        assert(s[i] is Ok);
    }
    assert(done(seen[d], d, seen, dirs, files));
}
pub proof fn lemma_steady(t: nat, u: nat, d: Seq<u8>, p: Seq<u8>, b: bool, x: nat)
    requires steady(t, u, d, p, b), t <= x <= u
    ensures listed(x, d, p), is_dir(x, p) == b
{ assert(listed(x, d, p)); }
pub proof fn lemma_entered(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, e: Seq<u8>)
    requires walking(t, u, base, root, Seq::<PathBuf>::empty(), files, seen, None), seen.dom().contains(e)
    ensures t <= seen[e] <= u, done(seen[e], e, seen, Seq::<PathBuf>::empty(), files)
{ }
pub proof fn lemma_in_seen(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>, d: Seq<u8>, k: nat)
    requires walking(t, u, base, root, Seq::<PathBuf>::empty(), files, seen, None), always(t, u, root, d, k)
    ensures seen.dom().contains(d)
    decreases k
{
    if k > 0 {
        let e = choose|e: Seq<u8>| #[trigger] steady(t, u, e, d, true) && always(t, u, root, e, (k - 1) as nat);
        lemma_in_seen(t, u, base, root, files, seen, e, (k - 1) as nat);
        let x = seen[e];
        lemma_entered(t, u, base, root, files, seen, e);
        lemma_steady(t, u, e, d, true, x);
        assert(done(x, e, seen, Seq::<PathBuf>::empty(), files));
        assert(!holds(Seq::<PathBuf>::empty(), d));
    } else { assert(!holds(Seq::<PathBuf>::empty(), d)); }
}
/// every file below the folder, once
pub open spec fn walked(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, files: Seq<PathBuf>) -> bool {
    &&& distinct(files)
    &&& forall|f: Seq<u8>| #[trigger] holds(files, f) ==> file_seen(t, u, root, f) && under(base, f)
    &&& forall|f: Seq<u8>| #[trigger] file_kept(t, u, root, f) ==> holds(files, f)
}
pub proof fn lemma_walked(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, seen: Map<Seq<u8>, nat>)
    requires walking(t, u, base, root, dirs, files, seen, None), dirs.len() == 0
    ensures walked(t, u, base, root, files)
{
    assert(dirs =~= Seq::<PathBuf>::empty());
    assert forall|f: Seq<u8>| #[trigger] file_kept(t, u, root, f) implies holds(files, f) by {
        let (d, k) = choose|d: Seq<u8>, k: nat| #[trigger] steady(t, u, d, f, false) && #[trigger] always(t, u, root, d, k);
        lemma_in_seen(t, u, base, root, files, seen, d, k);
        let x = seen[d];
        lemma_entered(t, u, base, root, files, seen, d);
        lemma_steady(t, u, d, f, false, x);
        assert(done(x, d, seen, dirs, files));
    }
}
pub proof fn lemma_begin(t: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>)
    requires under(base, root), solid(root), dirs.len() == 1, dirs[0].pb() == root
    ensures walking(t, t, base, root, dirs, Seq::<PathBuf>::empty(), Map::<Seq<u8>, nat>::empty(), None)
{
    assert(reached(t, t, root, root, 0));
    assert(dirs[0].pb() == root);
    assert(holds(dirs, root));
    assert forall|d: Seq<u8>| #[trigger] holds(dirs, d) implies d == root by { }
}
/// `walking`, between two folders
pub open spec fn strolling(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>) -> bool { exists|seen: Map<Seq<u8>, nat>| #[trigger] walking(t, u, base, root, dirs, files, seen, None) }
pub open spec fn looking(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int) -> bool { exists|seen: Map<Seq<u8>, nat>| #[trigger] midway(t, u, base, root, dirs, files, seen, d, s, i) }
pub broadcast proof fn step_begin(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>)
    requires t == u, under(base, root), solid(root), dirs.len() == 1, dirs[0].pb() == root, files.len() == 0
    ensures #[trigger] strolling(t, u, base, root, dirs, files)
{ assert(files =~= Seq::<PathBuf>::empty()); lemma_begin(t, base, root, dirs); }
pub broadcast proof fn step_enter(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, all: Seq<PathBuf>, files: Seq<PathBuf>, x: nat, u2: nat, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, dirs: Seq<PathBuf>, i: int)
    requires #[trigger] strolling(t, u, base, root, all, files), #[trigger] lists_all(x, d, s), all.len() > 0, d == all.last().pb(), dirs == all.drop_last(), t <= u <= u2, t <= x <= u2, i == 0
    ensures #[trigger] looking(t, u2, base, root, dirs, files, d, s, i)
{
    let seen = choose|seen: Map<Seq<u8>, nat>| #[trigger] walking(t, u, base, root, all, files, seen, None);
    lemma_enter(t, u, base, root, all, files, seen, x, u2, s);
}
pub broadcast proof fn step_missing(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, all: Seq<PathBuf>, files: Seq<PathBuf>, x: nat, u2: nat, d: Seq<u8>, dirs: Seq<PathBuf>)
    requires #[trigger] strolling(t, u, base, root, all, files), #[trigger] no_dir(x, d), all.len() > 0, d == all.last().pb(), dirs == all.drop_last(), t <= u <= u2, t <= x <= u2
    ensures #[trigger] strolling(t, u2, base, root, dirs, files)
{
    let seen = choose|seen: Map<Seq<u8>, nat>| #[trigger] walking(t, u, base, root, all, files, seen, None);
    lemma_missing(t, u, base, root, all, files, seen, x, u2);
}
pub broadcast proof fn step_dir(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int, x: PathBuf, u2: nat, j: int)
    requires #[trigger] looking(t, u, base, root, dirs, files, d, s, i), j == i + 1, i < s.len(), s[i] is Ok, (s[i]->Ok_0).dir_(), x.pb() == (s[i]->Ok_0).pb(), u <= u2
    ensures #[trigger] looking(t, u2, base, root, dirs.push(x), files, d, s, j)
{
    let seen = choose|seen: Map<Seq<u8>, nat>| #[trigger] midway(t, u, base, root, dirs, files, seen, d, s, i);
    lemma_step(t, u, base, root, dirs, files, seen, d, s, i, s[i]->Ok_0, x, u2);
}
pub broadcast proof fn step_file(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int, x: PathBuf, u2: nat, j: int)
    requires #[trigger] looking(t, u, base, root, dirs, files, d, s, i), j == i + 1, i < s.len(), s[i] is Ok, !(s[i]->Ok_0).dir_(), x.pb() == (s[i]->Ok_0).pb(), u <= u2
    ensures #[trigger] looking(t, u2, base, root, dirs, files.push(x), d, s, j)
{
    let seen = choose|seen: Map<Seq<u8>, nat>| #[trigger] midway(t, u, base, root, dirs, files, seen, d, s, i);
    lemma_step(t, u, base, root, dirs, files, seen, d, s, i, s[i]->Ok_0, x, u2);
}
pub broadcast proof fn step_left(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>, d: Seq<u8>, s: Seq<Result<DirEntry, io::Error>>, i: int)
    requires #[trigger] looking(t, u, base, root, dirs, files, d, s, i), i == s.len()
    ensures #[trigger] strolling(t, u, base, root, dirs, files)
{
    let seen = choose|seen: Map<Seq<u8>, nat>| #[trigger] midway(t, u, base, root, dirs, files, seen, d, s, i);
    lemma_left(t, u, base, root, dirs, files, seen, d, s);
}
pub broadcast proof fn step_walked(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, dirs: Seq<PathBuf>, files: Seq<PathBuf>)
    requires #[trigger] strolling(t, u, base, root, dirs, files), dirs.len() == 0
    ensures walked(t, u, base, root, files)
{
    let seen = choose|seen: Map<Seq<u8>, nat>| #[trigger] walking(t, u, base, root, dirs, files, seen, None);
    lemma_walked(t, u, base, root, dirs, files, seen);
}
pub broadcast proof fn weight_push(s: Seq<PathBuf>, x: PathBuf) ensures #[trigger] weight(s.push(x)) == weight(s) + tree(x.pb()) { lemma_push(s, x); }
pub broadcast group steps { step_begin, step_enter, step_missing, step_dir, step_file, step_left, step_walked, weight_push }
@fn ReferenceDatabase::get_all_file_paths_from_dir ;; world alone
    requires under(self.path.pb(), $1.pb()), solid($1.pb())
    ensures final(world).on(old(world)), match r {
        Ok(v) => walked(old(world).now(), final(world).now(), self.path.pb(), $1.pb(), v@),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(walking); hide(midway); hide(looking); hide(strolling); hide(walked); hide(under); hide(solid);
    broadcast use steps;
@loop 0 while
    invariant world.on(old(world)), strolling(old(world).now(), world.now(), self.path.pb(), $1.pb(), dirs@, files@),
    decreases weight(dirs@), dirs@.len()
@after let:entries
    let ghost d0 = dirs@;
    let ghost s = entries.left();
@loop 1 for
    invariant world.on(old(world)), weight(dirs@) + weigh(__it.left()) <= weight(d0) + weigh(s),
        __it.left().len() <= s.len(), __it.left() == s.skip(s.len() - __it.left().len()),
        (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err) ==> world.fails() > old(world).fails(),
        looking(old(world).now(), world.now(), self.path.pb(), $1.pb(), dirs@, files@, dir.pb(), s, s.len() - __it.left().len()),
    decreases __it.left().len()
@end
/// the path from the folder
pub open spec fn rel_of(base: Seq<u8>, p: Seq<u8>) -> Seq<u8> { choose|r: Seq<u8>| #[trigger] normal(r) && p == path_join(base, r) }
@fn ReferenceDatabase::reference_name_from_file ;; map=Result
    requires under(self.path.pb(), $1.pb())
    ensures r matches Ok(n) && n@ =~= rel_of(self.path.pb(), $1.pb())
@closure 1
    |$0: &u8| -> (c: u8) ensures c == $body
@start
    proof { let rel = rel_of(self.path.pb(), $1.pb()); assert($1.pb() == path_join(self.path.pb(), rel) && normal(rel)); }
@end
pub open spec fn refs_() -> Seq<u8> { seq![0x72u8, 0x65, 0x66, 0x73] }
pub open spec fn heads_() -> Seq<u8> { seq![0x68u8, 0x65, 0x61, 0x64, 0x73] }
pub open spec fn tags_() -> Seq<u8> { seq![0x74u8, 0x61, 0x67, 0x73] }
pub open spec fn remotes_() -> Seq<u8> { seq![0x72u8, 0x65, 0x6d, 0x6f, 0x74, 0x65, 0x73] }
/// the folder of branches, of tags or of remote branches
pub open spec fn refs_dir(base: Seq<u8>, kind: Seq<u8>) -> Seq<u8> { path_join(path_join(base, refs_()), kind) }
pub open spec fn once(v: Seq<Vec<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@ }
pub open spec fn among(v: Seq<Vec<u8>>, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }
pub open spec fn seen_in(t: nat, u: nat, base: Seq<u8>, kinds: Set<Seq<u8>>, p: Seq<u8>) -> bool { exists|k: Seq<u8>| #[trigger] kinds.contains(k) && file_seen(t, u, refs_dir(base, k), p) }
pub open spec fn kept_in(t: nat, u: nat, base: Seq<u8>, kinds: Set<Seq<u8>>, p: Seq<u8>) -> bool { exists|k: Seq<u8>| #[trigger] kinds.contains(k) && file_kept(t, u, refs_dir(base, k), p) }
/// These are the names of all files in these folders: each name is that of a file which was there, and comes once;
/// and the name of every file which was there all the time is among them.
pub open spec fn lists(t: nat, u: nat, base: Seq<u8>, kinds: Set<Seq<u8>>, v: Seq<Vec<u8>>) -> bool {
    &&& once(v)
    &&& forall|n: Seq<u8>| #[trigger] among(v, n) ==> normal(n) && seen_in(t, u, base, kinds, path_join(base, n))
    &&& forall|n: Seq<u8>| normal(n) && kept_in(t, u, base, kinds, #[trigger] path_join(base, n)) ==> among(v, n)
}
/// The same for one folder, anywhere
pub open spec fn names(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, v: Seq<Vec<u8>>) -> bool {
    &&& once(v)
    &&& forall|n: Seq<u8>| #[trigger] among(v, n) ==> normal(n) && file_seen(t, u, root, path_join(base, n))
    &&& forall|n: Seq<u8>| normal(n) && file_kept(t, u, root, #[trigger] path_join(base, n)) ==> among(v, n)
}
pub broadcast proof fn lemma_names(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, files: Seq<PathBuf>, v: Seq<Vec<u8>>)
    requires #[trigger] walked(t, u, base, root, files), v.len() == files.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == rel_of(base, files[i].pb())
    ensures #[trigger] names(t, u, base, root, v)
{
    assert forall|i: int| 0 <= i < v.len() implies normal((#[trigger] v[i])@) && path_join(base, v[i]@) == files[i].pb() by { assert(holds(files, files[i].pb())); assert(under(base, files[i].pb())); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i])@ != (#[trigger] v[j])@ by { assert(files[i].pb() != files[j].pb()); }
    assert forall|n: Seq<u8>| #[trigger] among(v, n) implies normal(n) && file_seen(t, u, root, path_join(base, n)) by {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n;
        assert(holds(files, files[i].pb()));
    }
    assert forall|n: Seq<u8>| normal(n) && file_kept(t, u, root, #[trigger] path_join(base, n)) implies among(v, n) by {
        assert(holds(files, path_join(base, n)));
        let i = choose|i: int| 0 <= i < files.len() && (#[trigger] files[i]).pb() == path_join(base, n);
        assert(v[i]@ == v[i]@);
        lemma_join_inj(base, v[i]@, n);
    }
}
pub broadcast proof fn lemma_lists(t: nat, u: nat, base: Seq<u8>, root: Seq<u8>, v: Seq<Vec<u8>>, k: Seq<u8>)
    requires #[trigger] names(t, u, base, root, v), root == refs_dir(base, k)
    ensures #[trigger] lists(t, u, base, set![k], v)
{
    assert(set![k].contains(k));
    assert forall|n: Seq<u8>| #[trigger] among(v, n) implies seen_in(t, u, base, set![k], path_join(base, n)) by { assert(file_seen(t, u, root, path_join(base, n))); }
    assert forall|n: Seq<u8>| normal(n) && kept_in(t, u, base, set![k], #[trigger] path_join(base, n)) implies among(v, n) by { }
}
pub proof fn lemma_refs_dir(base: Seq<u8>, k: Seq<u8>)
    requires entry_name(k)
    ensures under(base, refs_dir(base, k)), solid(refs_dir(base, k)), refs_dir(base, k) == path_join(base, refs_().push(slash()) + k)
{
    assert(entry_name(refs_()));
    lemma_entry_normal(refs_());
    lemma_join_join(base, refs_(), k);
    lemma_normal_join(refs_(), k);
    let w = refs_().push(slash()) + k;
    assert(refs_dir(base, k).last() == w.last()) by { lemma_normal_plain(w); }
}
pub proof fn lemma_kinds() ensures entry_name(heads_()), entry_name(tags_()), entry_name(remotes_()), heads_()[0] == 0x68, tags_()[0] == 0x74, remotes_()[0] == 0x72 { }
@fn ReferenceDatabase::reference_names_from_dir ;; world
    requires under(self.path.pb(), $1.pb()), solid($1.pb())
    ensures final(world).on(old(world)), match r {
        Ok(v) => names(old(world).now(), final(world).now(), self.path.pb(), $1.pb(), v@),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(names);
    broadcast use lemma_names;
@closure 0
    |$0: &PathBuf| -> (x: Result<Vec<u8>, Error>) requires under(self.path.pb(), $0.pb()) ensures x matches Ok(n) && n@ == rel_of(self.path.pb(), $0.pb())
@after let:files
    proof { assert forall|i: int| 0 <= i < files@.len() implies under(self.path.pb(), (#[trigger] files@[i]).pb()) by { assert(holds(files@, files@[i].pb())); } }
@end
@fn ReferenceDatabase::head_reference_names ;; world
    ensures final(world).on(old(world)), match r {
        Ok(v) => lists(old(world).now(), final(world).now(), self.path.pb(), set![heads_()], v@),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(lists); hide(names); hide(under); hide(solid);
    broadcast use lemma_lists;
    proof { lemma_kinds(); lemma_refs_dir(self.path.pb(), heads_()); }
@end
@fn ReferenceDatabase::tag_reference_names ;; world
    ensures final(world).on(old(world)), match r {
        Ok(v) => lists(old(world).now(), final(world).now(), self.path.pb(), set![tags_()], v@),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(lists); hide(names); hide(under); hide(solid);
    broadcast use lemma_lists;
    proof { lemma_kinds(); lemma_refs_dir(self.path.pb(), tags_()); }
@end
@fn ReferenceDatabase::remote_reference_names ;; world
    ensures final(world).on(old(world)), match r {
        Ok(v) => lists(old(world).now(), final(world).now(), self.path.pb(), set![remotes_()], v@),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(lists); hide(names); hide(under); hide(solid);
    broadcast use lemma_lists;
    proof { lemma_kinds(); lemma_refs_dir(self.path.pb(), remotes_()); }
@end
pub open spec fn all_kinds() -> Set<Seq<u8>> { set![heads_(), tags_(), remotes_()] }
/// nothing is below both of two of the folders
pub proof fn lemma_reached_prefix(t: nat, u: nat, root: Seq<u8>, d: Seq<u8>, k: nat)
    requires reached(t, u, root, d, k), solid(root)
    ensures solid(d), d.len() >= root.len(), d.subrange(0, root.len() as int) =~= root
    decreases k
{
    broadcast use lemma_listed;
    if k > 0 {
        let (e, x) = choose|e: Seq<u8>, x: nat| t <= x <= u && #[trigger] listed(x, e, d) && is_dir(x, d) && reached(t, u, root, e, (k - 1) as nat);
        lemma_reached_prefix(t, u, root, e, (k - 1) as nat);
        lemma_named(e, d);
        assert forall|i: int| 0 <= i < root.len() implies d[i] == root[i] by { assert(e.subrange(0, root.len() as int)[i] == root[i]); assert(d[i] == e[i]); }
    }
}
pub proof fn lemma_named(e: Seq<u8>, d: Seq<u8>)
    requires solid(e), name_in(e, d)
    ensures solid(d), d.len() > e.len() + 1, d[e.len() as int] == slash(), d.subrange(0, e.len() as int) =~= e
{ }
pub proof fn lemma_seen_prefix(t: nat, u: nat, root: Seq<u8>, p: Seq<u8>)
    requires file_seen(t, u, root, p), solid(root)
    ensures p.len() > root.len() + 1, p.subrange(0, root.len() as int) =~= root
{
    broadcast use lemma_listed;
    let (d, x) = choose|d: Seq<u8>, x: nat| t <= x <= u && #[trigger] listed(x, d, p) && !is_dir(x, p) && below(t, u, root, d);
    let k = choose|k: nat| #[trigger] reached(t, u, root, d, k);
    lemma_reached_prefix(t, u, root, d, k);
    lemma_named(d, p);
    assert forall|i: int| 0 <= i < root.len() implies p[i] == root[i] by { assert(d.subrange(0, root.len() as int)[i] == root[i]); assert(p[i] == d[i]); }
}
pub proof fn lemma_apart(t: nat, u: nat, base: Seq<u8>, a: Seq<u8>, b: Seq<u8>, p: Seq<u8>, t2: nat, u2: nat)
    requires entry_name(a), entry_name(b), a[0] != b[0], file_seen(t, u, refs_dir(base, a), p)
    ensures !file_seen(t2, u2, refs_dir(base, b), p)
{
    if file_seen(t2, u2, refs_dir(base, b), p) {
        lemma_refs_dir(base, a);
        lemma_refs_dir(base, b);
        lemma_seen_prefix(t, u, refs_dir(base, a), p);
        lemma_seen_prefix(t2, u2, refs_dir(base, b), p);
        let x = path_join(base, refs_());
        lemma_entry_normal(refs_());
        lemma_join_join(base, refs_(), a);
        let n = x.len() as int;
        assert(a[0] != slash() && b[0] != slash());
        assert(refs_dir(base, a)[n + 1] == a[0]);
        assert(refs_dir(base, b)[n + 1] == b[0]);
        assert(p[n + 1] == p.subrange(0, refs_dir(base, a).len() as int)[n + 1]);
        assert(p[n + 1] == p.subrange(0, refs_dir(base, b).len() as int)[n + 1]);
    }
}
/// What three lists for different folders have is the list for the three.
pub proof fn lemma_part(t: nat, u: nat, base: Seq<u8>, k: Seq<u8>, v: Seq<Vec<u8>>, t2: nat, u2: nat)
    requires lists(t, u, base, set![k], v), t2 <= t, u <= u2
    ensures once(v), forall|n: Seq<u8>| #[trigger] among(v, n) ==> normal(n) && file_seen(t2, u2, refs_dir(base, k), path_join(base, n)),
        forall|n: Seq<u8>| normal(n) && #[trigger] file_kept(t2, u2, refs_dir(base, k), path_join(base, n)) ==> among(v, n)
{
    broadcast use {lemma_seen, lemma_kept};
    assert(set![k].contains(k));
    assert forall|n: Seq<u8>| #[trigger] among(v, n) implies normal(n) && file_seen(t2, u2, refs_dir(base, k), path_join(base, n)) by {
        assert(seen_in(t, u, base, set![k], path_join(base, n)));
        assert(file_seen(t, u, refs_dir(base, k), path_join(base, n)));
    }
    assert forall|n: Seq<u8>| normal(n) && #[trigger] file_kept(t2, u2, refs_dir(base, k), path_join(base, n)) implies among(v, n) by {
        assert(file_kept(t, u, refs_dir(base, k), path_join(base, n)));
        assert(kept_in(t, u, base, set![k], path_join(base, n)));
    }
}
pub proof fn lemma_among(x: Seq<Vec<u8>>, y: Seq<Vec<u8>>)
    ensures forall|n: Seq<u8>| #[trigger] among(x + y, n) <==> among(x, n) || among(y, n),
        once(x) && once(y) && (forall|n: Seq<u8>| #[trigger] among(x, n) ==> !among(y, n)) ==> once(x + y)
{
    let v = x + y;
    assert forall|n: Seq<u8>| among(x, n) || among(y, n) implies #[trigger] among(v, n) by {
        if among(x, n) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i])@ == n; assert(v[i]@ == n); }
        else { let i = choose|i: int| 0 <= i < y.len() && (#[trigger] y[i])@ == n; assert(v[x.len() + i]@ == n); }
    }
    assert forall|n: Seq<u8>| #[trigger] among(v, n) implies among(x, n) || among(y, n) by {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n;
        if i < x.len() { assert(x[i]@ == n); } else { assert(y[i - x.len()]@ == n); }
    }
    if once(x) && once(y) && (forall|n: Seq<u8>| #[trigger] among(x, n) ==> !among(y, n)) {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i])@ != (#[trigger] v[j])@ by {
            if j < x.len() { assert(x[i]@ != x[j]@); }
            else if i >= x.len() { assert(y[i - x.len()]@ != y[j - x.len()]@); }
            else { assert(x[i]@ == v[i]@); assert(among(x, v[i]@)); assert(y[j - x.len()]@ == v[j]@); assert(among(y, v[j]@)); }
        }
    }
}
pub broadcast proof fn lemma_all(t: nat, u: nat, base: Seq<u8>, v: Seq<Vec<u8>>, ta: nat, ua: nat, a: Seq<u8>, x: Seq<Vec<u8>>, tb: nat, ub: nat, b: Seq<u8>, y: Seq<Vec<u8>>, tc: nat, uc: nat, c: Seq<u8>, z: Seq<Vec<u8>>)
    requires #[trigger] lists(ta, ua, base, set![a], x), #[trigger] lists(tb, ub, base, set![b], y), #[trigger] lists(tc, uc, base, set![c], z),
        t <= ta, ua <= u, t <= tb, ub <= u, t <= tc, uc <= u, v == x + y + z, all_kinds() =~= set![a, b, c], a[0] != b[0], a[0] != c[0], b[0] != c[0], entry_name(a), entry_name(b), entry_name(c)
    ensures #[trigger] lists(t, u, base, all_kinds(), v)
{
    hide(file_seen); hide(file_kept); hide(normal); hide(lists);
    lemma_part(ta, ua, base, a, x, t, u);
    lemma_part(tb, ub, base, b, y, t, u);
    lemma_part(tc, uc, base, c, z, t, u);
    assert(all_kinds().contains(a) && all_kinds().contains(b) && all_kinds().contains(c));
    assert forall|n: Seq<u8>| #[trigger] among(x, n) implies !among(y, n) && !among(z, n) by { lemma_apart(t, u, base, a, b, path_join(base, n), t, u); lemma_apart(t, u, base, a, c, path_join(base, n), t, u); }
    assert forall|n: Seq<u8>| #[trigger] among(y, n) implies !among(z, n) by { lemma_apart(t, u, base, b, c, path_join(base, n), t, u); }
    lemma_among(x, y);
    lemma_among(x + y, z);
    assert(once(v));
    assert forall|n: Seq<u8>| #[trigger] among(v, n) implies normal(n) && seen_in(t, u, base, all_kinds(), path_join(base, n)) by { }
    assert forall|n: Seq<u8>| normal(n) && kept_in(t, u, base, all_kinds(), #[trigger] path_join(base, n)) implies among(v, n) by {
        let k = choose|k: Seq<u8>| #[trigger] all_kinds().contains(k) && file_kept(t, u, refs_dir(base, k), path_join(base, n));
        assert(k == a || k == b || k == c);
    }
    reveal(lists);
}
@fn ReferenceDatabase::reference_names ;; world
    ensures final(world).on(old(world)), match r {
        Ok(v) => lists(old(world).now(), final(world).now(), self.path.pb(), all_kinds(), v@),
        Err(Error::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(lists);
    broadcast use lemma_all;
    proof { lemma_kinds(); assert(all_kinds() =~= set![heads_(), tags_(), remotes_()]); }
@end
@fn ReferenceDatabase::path_to_bytes
    ensures r matches Ok(b) && b@ == $1.pb()
@end
@fn ReferenceDatabase::bytes_to_path
    ensures r matches Ok(p) && p.pb() == $1@
@end
