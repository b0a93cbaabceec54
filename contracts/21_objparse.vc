@mod object::kinds src=src/object.rs
use crate::shim::*;
use crate::object::*;
use crate::object::blob::Blob;
use crate::object::commit::Commit;
use crate::object::tree::Tree;
use crate::object::tag::Tag;
@enum ObjectKind copyonly
@enum ObjectData noderive
@struct ObjectHeader copyonly

@mod object::parse src=src/object/parse.rs
use crate::shim::*;
use crate::shim::str;
use crate::shim::io::{self, Read};
use crate::shim::bytes::Bytes;
use crate::shim::memchr::*;
use crate::parse::{self, Buffer, Parser};
use crate::parse::buffer::huge;
use crate::object::*;
use crate::object::kinds::*;
use crate::object::blob::*;
use crate::object::tree::*;
use crate::object::commit::*;
use crate::object::tag::*;
broadcast use {crate::shim::fits, crate::shim::memchr::find_lemmas, crate::shim::conv::lemma_sub_sub};
@enum ParseObjectError
@struct ParseObjectKindError
@enum ParseHeaderError
@const ObjectHeader::MAX_LEN

/// the names of the four kinds of object
pub open spec fn kind_name(k: ObjectKind) -> Seq<u8> {
    match k {
        ObjectKind::Commit => seq![99u8, 111, 109, 109, 105, 116],
        ObjectKind::Tree => seq![116u8, 114, 101, 101],
        ObjectKind::Blob => seq![98u8, 108, 111, 98],
        ObjectKind::Tag => seq![116u8, 97, 103],
        _ => Seq::empty(),
    }
}
pub open spec fn kind_of(s: Seq<u8>) -> Option<ObjectKind> {
    if s =~= kind_name(ObjectKind::Commit) { Some(ObjectKind::Commit) }
    else if s =~= kind_name(ObjectKind::Tree) { Some(ObjectKind::Tree) }
    else if s =~= kind_name(ObjectKind::Blob) { Some(ObjectKind::Blob) }
    else if s =~= kind_name(ObjectKind::Tag) { Some(ObjectKind::Tag) }
    else { None }
}
/// `<kind> <decimal length> NUL`: the kind, the length, and how many bytes the header takes
pub open spec fn header_of(s: Seq<u8>) -> Option<(ObjectKind, usize, int)> {
    match find(s, 32) {
        None => None,
        Some(sp) => match kind_of(s.subrange(0, sp)) {
            None => None,
            Some(k) => {
                let t = s.subrange(sp + 1, s.len() as int);
                match find(t, 0) {
                    None => None,
                    Some(n) => match dec_parse(t.subrange(0, n)) { None => None, Some(len) => Some((k, len, sp + n + 2)) },
                }
            },
        },
    }
}
/// the header at the start of an object: it ends within 28 bytes
pub open spec fn object_header(s: Seq<u8>) -> Option<(ObjectKind, usize, int)> {
    match find(s, 0) {
        Some(n) => if n < 28 { header_of(s.subrange(0, n + 1)) } else { None },
        None => None,
    }
}
/// the content of an object, decoded
pub open spec fn body_is(d: ObjectData, kind: ObjectKind, body: Seq<u8>) -> bool {
    match d {
        ObjectData::Blob(b) => kind is Blob && b.wf() && b.content() == body,
        ObjectData::Tree(t) => kind is Tree && t.wf() && tree_entries(body) == Some(t.view()),
        ObjectData::Commit(c) => kind is Commit && c.wf() && commit_fields(body) == Some(c.view()),
        ObjectData::Tag(t) => kind is Tag && t.wf() && tag_fields(body) == Some(t.view()),
    }
}
pub open spec fn body_ok(kind: ObjectKind, body: Seq<u8>) -> bool {
    match kind {
        ObjectKind::Blob => true,
        ObjectKind::Tree => tree_entries(body) is Some,
        ObjectKind::Commit => commit_fields(body) is Some,
        ObjectKind::Tag => tag_fields(body) is Some,
        _ => false,
    }
}
@impl impl VFrom<ParseHeaderError> for ParseObjectError
    open spec fn vf(err: ParseHeaderError) -> Self {
        match err { ParseHeaderError::Parse(parse::Error::Io(e)) => ParseObjectError::Io(e), e => ParseObjectError::InvalidHeader(e) }
    }
@fn <From<ParseHeaderError> for ParseObjectError>::from ;; as=vfrom traitfn
@end
@endimpl
@impl impl VFrom<parse::Error> for ParseHeaderError
    open spec fn vf(err: parse::Error) -> Self {
        match err { parse::Error::InvalidLength => ParseHeaderError::LengthMismatch, e => ParseHeaderError::Parse(e) }
    }
@fn <From<parse::Error> for ParseHeaderError>::from ;; as=vfrom traitfn
@end
@endimpl
@fn ObjectKind::from_bytes
    ensures match r { Ok(k) => kind_of($1@) == Some(k), Err(_) => kind_of($1@) is None }
@end
@fn Parser::parse_object_header
    requires old(self).wf(), old(self).pos == 0
    ensures final(self).wf(), final(self).buffer == old(self).buffer,
        match r {
            Ok(h) => match header_of(old(self).rem()) {
                Some((k, l, n)) => h.kind == k && h.len == l && final(self).ate(old(self), n),
                None => false,
            },
            Err(_) => header_of(old(self).rem()) is None,
        },
        (match r { Err(ParseHeaderError::Parse(parse::Error::Io(_))) => false, _ => true })
@after let:kind:0
    let ghost s = old(self).rem();
    proof {
        assert(s.subrange(0, kind.end - kind.start) =~= self.all().subrange(kind.start as int, kind.end as int));
        assert(self.rem() =~= s.subrange(kind.end + 1, s.len() as int));
    }
@after let:len:0
    let ghost t = self.all().subrange(len.start as int, len.end as int);
    proof {
        assert(self.rem() =~= self.all().subrange(len.end + 1, self.all().len() as int));
        assert(t =~= s.subrange(len.start as int, s.len() as int).subrange(0, len.end - len.start));
        if dec_parse(t) is Some {
            assert forall|i: int| 0 <= i < t.len() implies t[i] < 128 by {
                if t.len() > 1 && t[0] == 43 { if i > 0 { assert(dec_digits(t)[i - 1] == t[i]); } }
            }
            lemma_ascii_utf8(t);
        }
    }
@end
@fn Buffer::read_object_header
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(h) => match object_header(old(self).rem()) {
                Some((k, l, n)) => h.kind == k && h.len == l && final(self).pos == old(self).pos + n,
                None => false,
            },
            Err(ParseHeaderError::Parse(parse::Error::Io(_))) => old(self).reader.can_fail(),
            Err(_) => object_header(old(self).rem()) is None,
        }
@after let:range
    let ghost s = old(self).rem();
    let ghost n = range.end - range.start;
    proof {
        assert(self.data().subrange(range.start as int, range.end as int) =~= s.subrange(0, n));
        assert(first_at(s, 0, n - 1));
        let h = s.subrange(0, n);
        if find(h, 32) is Some {
            let sp = find(h, 32)->0;
            assert(first_at(h, 32, sp));
            assert(first_at(h.subrange(sp + 1, h.len() as int), 0, n - sp - 2));
        }
    }
@end
@fn Parser::parse_object_body
    requires self.wf()
    ensures match r {
        Ok(d) => body_is(d, $1, self.rem()),
        Err(ParseObjectError::Io(_)) => false,
        Err(_) => !body_ok($1, self.rem()),
    }
@end
@fn Buffer::read_object_body
    requires self.wf()
    ensures match r {
        Ok(d) => self.rem().len() == $1.len && !self.reader.broken() && body_is(d, $1.kind, self.rem()),
        Err(ParseObjectError::Io(_)) => self.reader.can_fail(),
        Err(_) => self.rem().len() != $1.len || huge($1.len) || !body_ok($1.kind, self.rem()),
    }
@end

@mod object::blob src=src/object/blob.rs
use crate::shim::*;
use crate::shim::bytes::Bytes;
use crate::shim::bstr::*;
use crate::parse::Parser;
@struct Blob noderive
#[verifier::external_body]
pub struct ParseBlobError { e: u8 }
impl Blob {
    pub open spec fn wf(&self) -> bool { self.pos <= self.data.view().len() }
    pub open spec fn content(&self) -> Seq<u8> { self.data.view().subrange(self.pos as int, self.data.view().len() as int) }
}
@fn Blob::parse
    requires $1.wf()
    ensures r matches Ok(b) && b.wf() && b.content() == $1.rem()
@end
@fn Blob::data
    requires self.wf()
    ensures r@ == self.content()
@end

@mod object::tree src=src/object/tree.rs
use crate::shim::*;
use crate::shim::str;
use crate::shim::bytes::Bytes;
use crate::shim::bstr::*;
use crate::shim::sync::*;
use crate::shim::memchr::*;
use crate::object::*;
use crate::parse::Parser;
use core::ops::{Range, RangeFrom, RangeTo};
broadcast use {crate::shim::fits, crate::shim::lemma_backed, crate::shim::memchr::find_lemmas, crate::shim::sync::axiom_arc_of};
@struct Tree noderive
@struct TreeEntry noderive
@struct ParseTreeError
@struct TreeEntryRaw noderive
pub struct EntryV { pub mode: u16, pub name: Seq<u8>, pub id: Seq<u8> }
/// `<octal mode> <name> NUL <20-byte id>`: the entry and the bytes it takes
pub open spec fn tree_entry(s: Seq<u8>) -> Option<(EntryV, int)> {
    match find(s, 32) {
        None => None,
        Some(sp) => match radix_parse(s.subrange(0, sp), 8, 0xffff) {
            None => None,
            Some(mode) => {
                let t = s.subrange(sp + 1, s.len() as int);
                match find(t, 0) {
                    None => None,
                    Some(n) => if t.len() < n + 21 { None } else {
                        Some((EntryV { mode: mode as u16, name: t.subrange(0, n), id: t.subrange(n + 1, n + 21) }, sp + n + 22))
                    },
                }
            },
        },
    }
}
#[verifier::opaque]
pub open spec fn tree_entries(s: Seq<u8>) -> Option<Seq<EntryV>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match tree_entry(s) {
            None => None,
            Some((e, n)) => if n <= 0 || n > s.len() { None } else { pre(seq![e], tree_entries(s.subrange(n, s.len() as int))) },
        }
    }
}
pub open spec fn pre<T>(a: Seq<T>, o: Option<Seq<T>>) -> Option<Seq<T>> { match o { Some(b) => Some(a + b), None => None } }
pub open spec fn raw_ok(e: TreeEntryRaw, d: Seq<u8>) -> bool { e.id + 20 <= d.len() && e.filename.start <= e.filename.end <= d.len() }
pub open spec fn raw_view(e: TreeEntryRaw, d: Seq<u8>) -> EntryV {
    EntryV { mode: e.mode, name: d.subrange(e.filename.start as int, e.filename.end as int), id: d.subrange(e.id as int, e.id + 20) }
}
pub open spec fn raw_views(e: Seq<TreeEntryRaw>, d: Seq<u8>) -> Seq<EntryV> { Seq::new(e.len(), |i: int| raw_view(e[i], d)) }
pub open spec fn raws_ok(e: Seq<TreeEntryRaw>, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] raw_ok(e[i], d) }
impl Tree {
    pub open spec fn wf(&self) -> bool { raws_ok(self.entries.view(), self.data.view()) }
    pub open spec fn view(&self) -> Seq<EntryV> { raw_views(self.entries.view(), self.data.view()) }
}
impl<'a> TreeEntry<'a> {
    pub open spec fn wf(&self) -> bool { raw_ok(self.entry, self.data@) }
    pub open spec fn view(&self) -> EntryV { raw_view(self.entry, self.data@) }
}
@fn Tree::parse ;; alone
    requires $1.wf()
    ensures match r { Ok(t) => t.wf() && tree_entries($1.rem()) == Some(t.view()), Err(_) => tree_entries($1.rem()) is None }
@start
    proof { reveal(tree_entries); }
    let ghost body = $1.rem();
@loop 0 while
    invariant parser.wf(), parser.buffer == $1.buffer, raws_ok(entries@, parser.all()),
        tree_entries(body) == pre(raw_views(entries@, parser.all()), tree_entries(parser.rem())),
    decreases parser.rem().len()
@loopstart 0
    let ghost s = parser.rem();
    let ghost es = entries@;
@after let:mode:0
    let ghost m = mode;
    let ghost sp = mode.end - mode.start;
    let ghost t = s.subrange(sp + 1, s.len() as int);
    proof {
        assert(parser.all().subrange(mode.start as int, mode.end as int) =~= s.subrange(0, sp));
        assert(parser.rem() =~= t);
        let q = s.subrange(0, sp);
        if radix_parse(q, 8, 0xffff) is Some {
            assert forall|i: int| 0 <= i < q.len() implies q[i] < 128 by {
                if q.len() > 1 && q[0] == 43 { if i > 0 { assert(dec_digits(q)[i - 1] == q[i]); } }
            }
            lemma_ascii_utf8(q);
        }
    }
@after let:filename
    let ghost n = filename.end - filename.start;
    let ghost fname = filename;
    proof { assert(parser.rem() =~= t.subrange(n + 1, t.len() as int)); }
@loopend 0
    proof {
        let d = parser.all();
        let e = es.push(entries@.last());
        assert(entries@ =~= e);
        assert(raw_view(e.last(), d).name =~= t.subrange(0, n));
        assert(raw_view(e.last(), d).id =~= t.subrange(n + 1, n + 21));
        let v = EntryV { mode: mode, name: t.subrange(0, n), id: t.subrange(n + 1, n + 21) };
        assert(tree_entry(s) == Some((v, sp + n + 22)));
        assert(parser.rem() =~= s.subrange(sp + n + 22, s.len() as int));
        assert(tree_entries(s) == pre(seq![v], tree_entries(parser.rem())));
        assert(raw_views(entries@, d) =~= raw_views(es, d).push(v));
        if tree_entries(parser.rem()) is Some {
            let r = tree_entries(parser.rem())->0;
            assert(raw_views(es, d) + (seq![v] + r) =~= raw_views(entries@, d) + r);
        }
    }
@tail
    proof { assert(raw_views(entries@, parser.all()) + Seq::<EntryV>::empty() =~= raw_views(entries@, parser.all())); }
@end
@fn Tree::entries ;; rettype=Vec<TreeEntry>
    requires self.wf()
    ensures r@.len() == self.view().len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wf() && r@[i].view() == self.view()[i]
@closure 0
    |$0: TreeEntryRaw| -> (o: TreeEntry) ensures o.entry == $0, o.data@ == self.data.view()
@end
@fn TreeEntry::mode
    ensures r == self.view().mode
@end
@fn TreeEntry::id
    requires self.wf()
    ensures r.view() == self.view().id
@tail
    proof { assert(self.data@.subrange(self.entry.id as int, self.data@.len() as int).subrange(0, 20) =~= self.view().id); }
@end
@fn TreeEntry::filename
    requires self.wf()
    ensures r@ == self.view().name
@end
