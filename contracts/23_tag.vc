@mod object::tag src=src/object/tag.rs
use crate::shim::*;
use crate::shim::bytes::Bytes;
use crate::shim::bstr::*;
use crate::shim::memchr::*;
use crate::object::*;
use crate::object::fields::*;
use crate::object::kinds::*;
use crate::object::signature::*;
use crate::object::commit::{opt_at, p_nl};
use crate::object::parse::{ParseObjectKindError, kind_of};
use crate::parse::Parser;
use core::ops::{Range, RangeFrom, RangeTo};
broadcast use {crate::shim::fits, crate::shim::memchr::find_lemmas, crate::shim::conv::lemma_sub_sub};
@struct Tag noderive
@enum ParseTagError
pub struct TagV { pub object: Seq<u8>, pub kind: ObjectKind, pub tag: Seq<u8>, pub tagger: Option<Seq<u8>>, pub message: Option<Seq<u8>> }
pub open spec fn p_object() -> Seq<u8> { seq![111u8, 98, 106, 101, 99, 116, 32] }
pub open spec fn p_type() -> Seq<u8> { seq![116u8, 121, 112, 101, 32] }
pub open spec fn p_tag() -> Seq<u8> { seq![116u8, 97, 103, 32] }
pub open spec fn p_tagger() -> Seq<u8> { seq![116u8, 97, 103, 103, 101, 114, 32] }
/// the message, if an empty line comes next
pub open spec fn tag_message(s: Seq<u8>) -> Option<Seq<u8>> {
    if starts_with_spec(s, p_nl()) { Some(s.subrange(1, s.len() as int)) } else { None }
}
#[verifier::opaque]
pub open spec fn tag_fields(s: Seq<u8>) -> Option<TagV> {
    match id_field(s, p_object()) { Field::Good(object, s1) => match line_field(s1, p_type()) { Field::Good(ty, s2) =>
        match kind_of(ty) { Some(kind) => match line_field(s2, p_tag()) { Field::Good(tag, s3) => match sig_field(s3, p_tagger()) {
            Field::Good(l, s4) => Some(TagV { object, kind, tag, tagger: Some(l), message: tag_message(s4) }),
            Field::Absent => Some(TagV { object, kind, tag, tagger: None, message: tag_message(s3) }),
            Field::Bad => None,
        }, _ => None }, None => None }, _ => None }, _ => None }
}
impl Tag {
    pub open spec fn wf(&self) -> bool {
        let d = self.data.view();
        hex_at(d, self.object) && self.tag.start <= self.tag.end <= d.len() && (self.tagger matches Some(t) ==> t.ok(d))
            && (self.message matches Some(m) ==> m <= d.len())
    }
    pub open spec fn view(&self) -> TagV {
        let d = self.data.view();
        TagV {
            object: id_at(d, self.object), kind: self.kind, tag: d.subrange(self.tag.start as int, self.tag.end as int),
            tagger: match self.tagger { Some(t) => Some(t.line(d)), None => None },
            message: match self.message { Some(m) => Some(d.subrange(m as int, d.len() as int)), None => None },
        }
    }
}
@fn Tag::parse
    requires $1.wf()
    ensures match r { Ok(t) => t.wf() && tag_fields($1.rem()) == Some(t.view()), Err(_) => tag_fields($1.rem()) is None }
@start
    proof { reveal(tag_fields); }
    let ghost s0 = $1.rem();
    let ghost d = $1.all();
    proof {
        assert([111u8, 98, 106, 101, 99, 116, 32]@ =~= p_object());
        assert([116u8, 121, 112, 101, 32]@ =~= p_type());
        assert([116u8, 97, 103, 32]@ =~= p_tag());
        assert([116u8, 97, 103, 103, 101, 114, 32]@ =~= p_tagger());
        assert([10u8]@ =~= p_nl());
    }
@after let:tagger
    let ghost s4 = parser.rem();
@after let:message
    proof { if message is Some { assert(d.subrange(message->0 as int, d.len() as int) =~= s4.subrange(1, s4.len() as int)); } }
@end
@fn Tag::tag
    requires self.wf()
    ensures r@ == self.view().tag
@end
@fn Tag::object
    requires self.wf()
    ensures r.view() == self.view().object
@start
    proof { reveal(hex_at); reveal(id_at); let d = self.data.view(); assert(d.subrange(self.object as int, d.len() as int).subrange(0, 40) =~= d.subrange(self.object as int, self.object + 40)); }
@end
@fn Tag::kind
    ensures r == self.view().kind
@end
@fn Tag::tagger
    requires self.wf()
    ensures match r { Some(s) => self.view().tagger == Some(s.line()) && s.wf(), None => self.view().tagger is None }
@end
@fn Tag::message
    requires self.wf()
    ensures match r { Some(b) => self.view().message == Some(b@), None => self.view().message is None }
@end
