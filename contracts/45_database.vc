@// Errors of reading an object, and the database: packs first, then single files, then packs again.
@mod object src=src/object.rs
use crate::object::parse::ParseObjectError;
use crate::shim::io;
use crate::object::kinds::ObjectData;
@struct Object noderive
@struct ReadObjectError
@enum ReadObjectErrorKind
@impl impl VFrom<ParseObjectError> for ReadObjectErrorKind
    open spec fn vf(err: ParseObjectError) -> Self { match err { ParseObjectError::Io(e) => ReadObjectErrorKind::Io(e), e => ReadObjectErrorKind::Parse(e) } }
@fn <From<ParseObjectError> for ReadObjectErrorKind>::from ;; as=vfrom traitfn
@end
@endimpl
@impl impl VFrom<database::ReadError> for ReadObjectErrorKind
    open spec fn vf(err: database::ReadError) -> Self { ReadObjectErrorKind::Database(err) }
@fn <From<database::ReadError> for ReadObjectErrorKind>::from ;; as=vfrom traitfn
@end
@endimpl
@fn ReadObjectError::new ;; ty1=II ty2=KK generics=II,~KK where=where~II:~VInto<ShortId>,~KK:~VInto<ReadObjectErrorKind>
    ensures r.id == <II as VInto<ShortId>>::vi($1), r.kind == <KK as VInto<ReadObjectErrorKind>>::vi($2)
@end
/// the message names the id, in full
pub open spec fn says(a: Seq<u8>, b: Seq<u8>, id: Seq<u8>) -> bool { exists|p: Seq<u8>, q: Seq<u8>| b == a + #[trigger] (p + id + q) }
@fn <fmt::Display for ReadObjectError>::fmt ;; impl=~ReadObjectError as=fmt_display
    ensures r is Ok ==> says(old($1).out(), final($1).out(), enhex(self.id.view())), r is Err ==> final($1).refused()
@end
@fn ReadObjectError::id
    ensures r == self.id
@end
@fn ReadObjectError::is_ambiguous
    ensures r == self.kind matches ReadObjectErrorKind::Database(database::ReadError::Ambiguous)
@end
@fn ReadObjectError::is_not_found
    ensures r == (self.kind matches ReadObjectErrorKind::Database(database::ReadError::NotFound))
@end
@mod object::database src=src/object/database.rs
use crate::shim::*;
use crate::shim::io::Read;
use crate::shim::world::*;
use crate::shim::path::*;
use crate::shim::dashmap::*;
use crate::shim::sha1::sha1;
use crate::shim::store::*;
use crate::shim::zlib::{inflate, inflate_bad};
use crate::object::*;
use crate::object::kinds::ObjectKind;
use crate::object::parse::*;
use crate::object::database::loose::{of_file, lemma_of_file, LooseObjectDatabase, ReadLooseError, WriteLooseError};
use crate::object::database::packed::{PackedObjectDatabase, ReadPackedError, Entry};
use crate::object::database::reader::ObjectReader;
use crate::parse::buffer::huge;
use std::sync::Arc;
@struct ObjectDatabase
@enum ReadError
@struct WriteError
@enum WriteErrorKind
@impl impl VFrom<ReadLooseError> for ReadError
    open spec fn vf(err: ReadLooseError) -> Self { match err { ReadLooseError::NotFound => ReadError::NotFound, ReadLooseError::Ambiguous => ReadError::Ambiguous, e => ReadError::Loose(e) } }
@fn <From<ReadLooseError> for ReadError>::from ;; as=vfrom traitfn
@end
@endimpl
@impl impl VFrom<ReadPackedError> for ReadError
    open spec fn vf(err: ReadPackedError) -> Self { match err { ReadPackedError::NotFound => ReadError::NotFound, ReadPackedError::Ambiguous => ReadError::Ambiguous, e => ReadError::Packed(e) } }
@fn <From<ReadPackedError> for ReadError>::from ;; as=vfrom traitfn
@end
@endimpl
@impl impl VFrom<WriteLooseError> for WriteError
    open spec fn vf(err: WriteLooseError) -> Self { WriteError { kind: WriteErrorKind::Loose(err) } }
@fn <From<WriteLooseError> for WriteError>::from ;; as=vfrom traitfn
@end
@endimpl
impl ObjectDatabase {
    pub open spec fn wf(&self) -> bool { self.packed.wf() }
    /// the folder which holds it
    pub open spec fn of(&self, dotgit: Seq<u8>) -> bool {
        self.root() == path_join(dotgit, seq![0x6fu8, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x73])
        && self.packed.path.pb() == path_join(dotgit, seq![0x6fu8, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x73, 0x2f, 0x70, 0x61, 0x63, 0x6b])
    }
    /// the folder that has the files of single objects
    pub open spec fn root(&self) -> Seq<u8> { self.loose.path.pb() }
    /// what a pack has under this id
    pub open spec fn from_pack(&self, t0: nat, t: nat, id: Seq<u8>, o: ObjectReader) -> bool {
        exists|e: Arc<Entry>, p: int, kind: ObjectKind, d: Seq<u8>| packed::among(self.packed.packs.id(), t, e) && #[trigger] e.index.hit(p, id)
            && packed::sole(self.packed.packs.id(), t0, id, e.index.id_at(p)) && PackedObjectDatabase::object(*e, p, kind, d) && #[trigger] o.holds(kind, d) && !o.reader.can_fail()
    }
    /// At some time from `t0` to `t` it had no file, and after that no pack had it.
    pub open spec fn lost(&self, t0: nat, t: nat, id: Seq<u8>) -> bool {
        exists|x: nat| t0 <= x <= t && (#[trigger] content(x, object_path(self.root(), id))) is None && self.packed.absent(x, t, id)
    }
    pub open spec fn found(&self, t0: nat, t: nat, id: Seq<u8>, o: ObjectReader) -> bool { self.from_pack(t0, t, id, o) || of_file(t0, t, self.root(), id, o) }
}
pub proof fn lemma_absent(db: PackedObjectDatabase, x: nat, t3: nat, t4: nat, id: Seq<u8>)
    requires db.absent(t3, t4, id), x <= t3 <= t4
    ensures db.absent(x, t4, id)
{
    broadcast use {crate::shim::dashmap::lemma_has, packed::lemma_wider, packed::lemma_missing, packed::lemma_before};
    let m = db.packs.id();
    let dir = db.path.pb();
    assert forall|k: PathBuf, e: Arc<Entry>, p: int| #[trigger] has_at(m, x, k, e) && e.index.good() implies !#[trigger] e.index.hit(p, id) by { assert(has_at(m, t3, k, e)); }
    assert(db.none(x, id));
    if exists|u: nat| t3 <= u <= t4 && #[trigger] db.none(u, id) && packed::renewed(m, dir, t3, u) {
        let u = choose|u: nat| t3 <= u <= t4 && #[trigger] db.none(u, id) && packed::renewed(m, dir, t3, u);
        assert(packed::renewed(m, dir, x, u));
    } else {
        assert(packed::missing(dir, x, t4) || packed::recent(m, dir, x, t4));
    }
}
pub broadcast proof fn lemma_lost(db: ObjectDatabase, t1: nat, t2: nat, t3: nat, t4: nat, t0: nat, id: Seq<u8>, p: Seq<u8>)
    requires #[trigger] db.packed.absent(t3, t4, id), #[trigger] gone(t1, t2, p), p == object_path(db.root(), id), t0 <= t1, t2 <= t3 <= t4
    ensures #[trigger] db.lost(t0, t4, id)
{
    let x = choose|x: nat| t1 <= x <= t2 && (#[trigger] content(x, object_path(db.root(), id))) is None;
    lemma_absent(db.packed, x, t3, t4, id);
}
@fn ObjectDatabase::open
    ensures r.wf(), r.of($1.pb())
@end
@fn ObjectDatabase::read_object ;; world
    requires self.wf()
    ensures final(world).on(old(world)), match r {
        Ok(o) => self.found(old(world).now(), final(world).now(), $1.view(), o),
        Err(e) => e.id.view() == $1.view() && (e.kind is Database) && (e.kind matches ReadObjectErrorKind::Database(ReadError::NotFound) ==> self.lost(old(world).now(), final(world).now(), $1.view())),
    }
@start
    broadcast use {crate::shim::dashmap::lemma_has, lemma_of_file, lemma_lost};
    proof { assert(<ShortId as VFrom<Id>>::vf($1).view() =~= $1.view()); }
@end
/// at some time it had no file, and after that no pack had it
pub open spec fn lost(db: ObjectDatabase, t: nat, u: nat, id: Seq<u8>) -> bool { exists|x: nat, y: nat| t <= x <= y <= u && #[trigger] db.lost(x, y, id) }
pub broadcast proof fn lemma_lost_wider(db: ObjectDatabase, t: nat, u: nat, id: Seq<u8>, t2: nat, u2: nat)
    requires #[trigger] lost(db, t, u, id), t2 <= t, u <= u2
    ensures #[trigger] lost(db, t2, u2, id)
{ }
/// what is decoded is what is stored under this id
pub open spec fn gives(db: ObjectDatabase, t: nat, u: nat, id: Seq<u8>, ob: Object) -> bool {
    ob.id.view() == id && exists|x: nat, y: nat, o: ObjectReader, k: ObjectKind, d: Seq<u8>| t <= x <= y <= u && #[trigger] db.found(x, y, id, o) && #[trigger] o.holds(k, d) && body_is(ob.data, k, d)
}
pub broadcast proof fn lemma_gives(db: ObjectDatabase, t: nat, u: nat, id: Seq<u8>, ob: Object, t2: nat, u2: nat)
    requires #[trigger] gives(db, t, u, id, ob), t2 <= t, u <= u2
    ensures #[trigger] gives(db, t2, u2, id, ob)
{
    let (x, y, o, k, d) = choose|x: nat, y: nat, o: ObjectReader, k: ObjectKind, d: Seq<u8>| t <= x <= y <= u && #[trigger] db.found(x, y, id, o) && #[trigger] o.holds(k, d) && body_is(ob.data, k, d);
    assert(t2 <= x <= y <= u2 && db.found(x, y, id, o) && o.holds(k, d) && body_is(ob.data, k, d));
}
@fn ObjectDatabase::parse_object ;; world
    requires self.wf()
    ensures final(world).on(old(world)), match r {
        Ok(ob) => ob.id.view() == $1.view() && gives(*self, old(world).now(), final(world).now(), $1.view(), ob),
        Err(e) => e.id.view() == $1.view() && (!(e.kind is Database) ==> exists|o: ObjectReader| #[trigger] self.found(old(world).now(), final(world).now(), $1.view(), o)
            && (o.reader.can_fail() || forall|k: ObjectKind, d: Seq<u8>| #[trigger] o.holds(k, d) ==> huge(d.len() as usize) || !body_ok(k, d))) && (e.kind matches ReadObjectErrorKind::Database(ReadError::NotFound) ==> self.lost(old(world).now(), final(world).now(), $1.view())),
    }
@end
@fn ObjectDatabase::write_object ;; world
    ensures final(world).on(old(world)), match r {
        Ok(id) => id.view() == sha1($1@) && stored(old(world).now(), final(world).now(), self.root(), id.view()),
        Err(_) => final(world).fails() > old(world).fails(),
    }
@end
/// nobody takes an object's file away
pub open spec fn kept(root: Seq<u8>) -> bool {
    forall|t: nat, u: nat, id: Seq<u8>| id.len() == 20 && t <= u && (#[trigger] content(t, object_path(root, id))) is Some ==> (#[trigger] content(u, object_path(root, id))) is Some
}
/// Once a write has reported success, a read does not say that there is no such object, and what it
/// delivers hashes to the id. (This library itself keeps the folder so: see `may_name` and the operations
/// which change files.)
pub proof fn lemma_read_back(db: ObjectDatabase, t0: nat, t1: nat, t2: nat, t3: nat, id: Seq<u8>)
    requires id.len() == 20, stored(t0, t1, db.root(), id), t1 <= t2 <= t3, kept(db.root()), sound(db.root())
    ensures !db.lost(t2, t3, id),
        forall|o: ObjectReader| #[trigger] of_file(t2, t3, db.root(), id, o) ==> sha1(o.reader.rest()) == id && !o.reader.broken()
{
    let p = object_path(db.root(), id);
    let c = choose|c: Seq<u8>| #[trigger] at_some(t0, t1, p, c) && (sound(db.root()) ==> stores(c, id));
    let x = choose|x: nat| t0 <= x <= t1 && #[trigger] content(x, p) == Some(c);
    assert forall|y: nat| t2 <= y <= t3 implies (#[trigger] content(y, p)) is Some by { assert(content(x, object_path(db.root(), id)) is Some); assert(x <= y); }
}
