@mod object::database::reader src=src/object/database/reader.rs
use crate::shim::*;
use crate::shim::io::{self, Read};
use crate::shim::bytes::{self, Bytes, BufExt};
use crate::shim::fs as fs_err;
use crate::shim::zlib::{BufReader, ZlibDecoder, inflate, inflate_bad};
use crate::object::*;
use crate::object::kinds::*;
use crate::object::parse::*;
use crate::parse;
use crate::parse::buffer::huge;
@struct ObjectReader
@enum ReaderKind
@impl impl Read for ReaderKind
    open spec fn rest(&self) -> Seq<u8> { match self { ReaderKind::File(f) => f.rest(), ReaderKind::Bytes(b) => b.rest() } }
    open spec fn can_fail(&self) -> bool { match self { ReaderKind::File(f) => f.can_fail(), ReaderKind::Bytes(b) => b.can_fail() } }
    open spec fn broken(&self) -> bool { match self { ReaderKind::File(f) => f.broken(), ReaderKind::Bytes(b) => b.broken() } }
    open spec fn patience(&self) -> nat { match self { ReaderKind::File(f) => f.patience(), ReaderKind::Bytes(b) => b.patience() } }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
@fn <Read for ReaderKind>::read ;; traitfn
@end
@endimpl
@fn ObjectReader::from_file ;; ty1=HH generics=HH where=where~HH:~VInto<Option<ObjectHeader>>
    ensures r.header == <HH as VInto<Option<ObjectHeader>>>::vi($1), r.reader.rest() == inflate($2.rest_()),
        r.reader.broken() == inflate_bad($2.rest_(), false), r.reader.can_fail() == ($2.fail_() || r.reader.broken()),
@end
@fn ObjectReader::from_bytes ;; ty1=HH generics=HH where=where~HH:~VInto<Option<ObjectHeader>>
    ensures r.header == <HH as VInto<Option<ObjectHeader>>>::vi($1), r.reader.rest() == $2.view(), !r.reader.can_fail(), !r.reader.broken()
@end
/// the object which a reader delivers: its kind and data
impl ObjectReader {
    pub open spec fn holds(&self, k: ObjectKind, d: Seq<u8>) -> bool {
        !self.reader.broken() && d.len() <= usize::MAX && match self.header {
            Some(h) => h.kind == k && h.len == d.len() && self.reader.rest() == d,
            None => object_header(self.reader.rest()) matches Some((k2, l, n)) && k2 == k && l == d.len() && self.reader.rest().subrange(n, self.reader.rest().len() as int) == d,
        }
    }
}
@fn ObjectReader::parse
    ensures match r {
        Ok(o) => exists|k: ObjectKind, d: Seq<u8>| #[trigger] self.holds(k, d) && body_is(o, k, d),
        Err(_) => self.reader.can_fail() || forall|k: ObjectKind, d: Seq<u8>| #[trigger] self.holds(k, d) ==> huge(d.len() as usize) || !body_ok(k, d),
    }
@after let:buffer
    proof { assert(buffer.rem() =~= self.reader.rest()); }
@before call:read_object_body
    proof {
        assert(self.header is None ==> buffer.rem() =~= self.reader.rest().subrange(buffer.pos as int, self.reader.rest().len() as int));
        assert(!buffer.reader.broken() && buffer.rem().len() == header.len ==> self.holds(header.kind, buffer.rem()));
    }
@end
@fn ObjectReader::reader ;; rettype=&mut~ReaderKind
    ensures *r == old(self).reader, *final(r) == final(self).reader, final(self).header == old(self).header
@end
