@mod object::database::packed src=src/object/database/packed.rs
use crate::shim::*;
use crate::shim::io::{self, Read, suffix};
use crate::shim::world::*;
use crate::shim::path::*;
use crate::shim::fs::{self as fs_err, lists_all, no_dir};
use crate::shim::time::{Duration, Instant};
use crate::shim::dashmap::*;
use crate::shim::lock::{Lockable, Mutex};
use crate::shim::iter::SeqIter;
use crate::object::*;
use crate::object::kinds::ObjectKind;
use crate::object::database::reader::ObjectReader;
use crate::object::database::packed::index::{FindIndexOffsetError, IndexFile, ReadIndexFileError};
use crate::object::database::packed::pack::{PackFile, ReadPackFileError, is_obj, no_obj};
use std::sync::Arc;
broadcast use {crate::shim::path::lemma_ext, crate::shim::dashmap::lemma_has};
@const PACKS_FOLDER
@const MAX_REFRESH_INTERVAL
@struct PackedObjectDatabase
@enum ReadPackedError
@struct ReadEntryError
@enum ReadEntryErrorKind
@struct Entry
@world ~.iter ~.entry .or_try_insert_with .elapsed Instant::now fs_err::read_dir fs::read_dir
impl Entry {
    /// the pack is the one the index belongs to, and everything read from it so far was
    pub open spec fn wf(&self) -> bool {
        let b = self.pack.bytes();
        self.index.wf() && self.pack.wf(self.index)
        && b.len() >= 20 && be32(b) == 0x5041434b && (be32(b.subrange(4, 8)) == 2 || be32(b.subrange(4, 8)) == 3)
        && self.pack.count == be32(b.subrange(8, 12)) && self.pack.id.view() == suffix(b, b.len() - 20)
        && self.pack.count == self.index.count && self.pack.id.view() == self.index.pack_id()
    }
    /// the files it was read from
    pub open spec fn of(&self, path: Seq<u8>) -> bool { held(path, self.index.data.view()) && held(path_with_ext(path, seq![0x70u8, 0x61, 0x63, 0x6b]), self.pack.bytes()) }
}
@fn Entry::open
    requires path_ext($1.pb()) is Some
    ensures match r {
        Ok(e) => e.wf() && e.of($1.pb()),
        Err(_) => true,
    }
@start
    broadcast use crate::object::database::packed::pack::axiom_paired;
@end

pub type PackMap = MapId<PathBuf, Arc<Entry>>;
pub open spec fn is_index(p: Seq<u8>) -> bool { path_ext(p) == Some(seq![0x69u8, 0x64, 0x78]) }
/// every index in the folder is in the map at time `t`, as the folder was at some time before
pub open spec fn complete(m: PackMap, dir: Seq<u8>, t: nat) -> bool { exists|t0: nat| t0 <= t && #[trigger] complete_at(m, dir, t0, t) }
pub open spec fn complete_at(m: PackMap, dir: Seq<u8>, t0: nat, t: nat) -> bool { forall|p: Seq<u8>| #[trigger] listed(t0, dir, p) && is_index(p) ==> known(m, t, p) }
/// the map has an entry for the index at this path at time `t`
pub open spec fn known(m: PackMap, t: nat, p: Seq<u8>) -> bool { exists|k: PathBuf, e: Arc<Entry>| #[trigger] has_at(m, t, k, e) && k.pb() == p }
impl Lockable for Option<Instant> {
    type Key = (PackMap, Seq<u8>);
    /// what it says about when the folder was last looked at is true
    open spec fn fits(&self, k: Self::Key) -> bool { *self matches Some(i) ==> complete(k.0, k.1, i.at()) }
}
/// A map that nothing was put into yet, and a lock that protects nothing yet, are those of this database.
pub broadcast axiom fn axiom_prepared(db: PackedObjectDatabase)
    requires db.packs.fresh(), db.last_refresh.fresh()
    ensures #[trigger] db.wf();
impl PackedObjectDatabase {
    pub open spec fn wf(&self) -> bool {
        (forall|k: PathBuf, e: Arc<Entry>| #[trigger] self.packs.ok(k, e) == (e.wf() && e.of(k.pb())))
        && self.last_refresh.key() == (self.packs.id(), self.path.pb())
    }
    /// none of the packs known at time `t` has an object of this id
    pub open spec fn none(&self, t: nat, id: Seq<u8>) -> bool {
        forall|k: PathBuf, e: Arc<Entry>, p: int| #[trigger] has_at(self.packs.id(), t, k, e) && e.index.good() ==> !#[trigger] e.index.hit(p, id)
    }
    /// no known pack has an object of this id, and packs were looked for again, or were not long ago
    pub open spec fn absent(&self, t0: nat, t: nat, id: Seq<u8>) -> bool {
        &&& self.none(t0, id)
        &&& missing(self.path.pb(), t0, t) || recent(self.packs.id(), self.path.pb(), t0, t) || exists|u: nat| t0 <= u <= t && #[trigger] self.none(u, id) && renewed(self.packs.id(), self.path.pb(), t0, u)
    }
    /// this pack has been found to be damaged
    pub open spec fn damaged(e: Entry, id: Seq<u8>) -> bool {
        e.pack.fails() || !e.index.good() || exists|p: int| #[trigger] e.index.hit(p, id) && e.index.off_at(p) is Some && no_obj(e.pack.count as nat, e.pack.bytes(), e.index, (e.index.off_at(p)->0) as int)
    }
    /// the object this pack has at place `p` of its index
    pub open spec fn object(e: Entry, p: int, k: ObjectKind, d: Seq<u8>) -> bool {
        e.index.off_at(p) is Some && is_obj(e.pack.bytes(), e.index, (e.index.off_at(p)->0) as int, k, d)
    }
}
@fn PackedObjectDatabase::open
    ensures r.packs.fresh(), r.last_refresh.fresh(), r.wf(), r.path.pb() == path_join($1.pb(), seq![0x6fu8, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x73, 0x2f, 0x70, 0x61, 0x63, 0x6b])
@start
    broadcast use axiom_prepared;
    proof { assert(None::<Instant>.fits(arbitrary::<(PackMap, Seq<u8>)>())); }
@end
/// some pack known at time `t` is `e`
pub open spec fn among(m: PackMap, t: nat, e: Arc<Entry>) -> bool { exists|k: PathBuf| #[trigger] has_at(m, t, k, e) }
/// this is where the object of the id `id` is in a pack known at time `t`
pub open spec fn lead(m: PackMap, t: nat, e: Arc<Entry>, off: u64, id: Seq<u8>, s: Seq<u8>) -> bool {
    among(m, t, e) && e.wf() && exists|p: int| #[trigger] e.index.hit(p, s) && e.index.off_at(p) == Some(off) && e.index.id_at(p) == id
}
/// this is the only id that starts with `s` which the packs known at time `t` have
pub open spec fn sole(m: PackMap, t: nat, s: Seq<u8>, id: Seq<u8>) -> bool {
    forall|k: PathBuf, e: Arc<Entry>, p: int| #[trigger] has_at(m, t, k, e) && e.index.good() && #[trigger] e.index.hit(p, s) ==> e.index.id_at(p) == id
}
/// the entry is one of those still to be looked at
pub open spec fn awaits(left: Seq<RefMulti<PathBuf, Arc<Entry>>>, k: PathBuf, e: Arc<Entry>) -> bool { exists|i: int| 0 <= i < left.len() && (#[trigger] left[i]).k() == k && left[i].v() == e }
pub broadcast proof fn lemma_awaits(left: Seq<RefMulti<PathBuf, Arc<Entry>>>, k: PathBuf, e: Arc<Entry>)
    requires left.len() > 0, #[trigger] awaits(left, k, e)
    ensures left[0].k() == k && left[0].v() == e || awaits(#[trigger] left.skip(1), k, e)
{
    let i = choose|i: int| 0 <= i < left.len() && (#[trigger] left[i]).k() == k && left[i].v() == e;
    if i > 0 { assert(left.skip(1)[i - 1] == left[i]); }
}
/// what has been found by looking at all the packs known at time `t0` but those still left
pub open spec fn searched(m: PackMap, t0: nat, t: nat, left: Seq<RefMulti<PathBuf, Arc<Entry>>>, s: Seq<u8>, result: Option<(Arc<Entry>, u64)>, found: Option<Id>) -> bool {
    &&& result is Some == found is Some
    &&& forall|k: PathBuf, e: Arc<Entry>, p: int| #[trigger] has_at(m, t0, k, e) && e.index.good() && #[trigger] e.index.hit(p, s) ==> awaits(left, k, e) || found is Some && e.index.id_at(p) == (found->0).view()
    &&& result is Some ==> lead(m, t, (result->0).0, (result->0).1, (found->0).view(), s)
}
@fn PackedObjectDatabase::try_read_object ;; world alone
    requires self.wf(), $1.wf()
    ensures final(world).on(old(world)), match r {
        Ok(o) => exists|e: Arc<Entry>, p: int, kind: ObjectKind, d: Seq<u8>| among(self.packs.id(), final(world).now(), e) && #[trigger] e.index.hit(p, $1.view())
            && sole(self.packs.id(), old(world).now(), $1.view(), e.index.id_at(p)) && Self::object(*e, p, kind, d) && #[trigger] o.holds(kind, d) && !o.reader.can_fail(),
        Err(ReadPackedError::NotFound) => self.none(old(world).now(), $1.view()),
        Err(ReadPackedError::Ambiguous) => exists|e: Arc<Entry>, p: int, e2: Arc<Entry>, q: int| among(self.packs.id(), final(world).now(), e) && among(self.packs.id(), final(world).now(), e2)
            && #[trigger] e.index.hit(p, $1.view()) && #[trigger] e2.index.hit(q, $1.view()) && (e.index.id_at(p) != e2.index.id_at(q) || e == e2 && p != q),
        Err(ReadPackedError::ReadEntry(_)) => exists|e: Arc<Entry>| #[trigger] among(self.packs.id(), final(world).now(), e) && Self::damaged(*e, $1.view()),
        Err(_) => false,
    }
@start
    broadcast use lemma_awaits;
    let ghost m = self.packs.id();
    let ghost s = $1.view();
    let ghost t0 = world.now();
@loopstart 0
    let ghost e = entry.v();
    let ghost t = world.now();
    proof { assert(has_at(m, t, entry.k(), e)); assert(e.wf()); assert(among(m, t, e)); }
@loop 0 for
    invariant self.wf(), $1.wf(), world.on(old(world)), m == self.packs.id(), s == $1.view(), t0 == old(world).now(),
        forall|i: int| 0 <= i < __it.left().len() ==> self.packs.ok((#[trigger] __it.left()[i]).k(), __it.left()[i].v()) && has_at(m, world.now(), __it.left()[i].k(), __it.left()[i].v()),
        searched(m, t0, world.now(), __it.left(), s, result, found_id),
    decreases __it.left().len()
@end
pub broadcast proof fn lemma_known(m: PackMap, t: nat, u: nat, p: Seq<u8>)
    requires #[trigger] known(m, t, p), t <= u
    ensures #[trigger] known(m, u, p)
{
    let (k, e) = choose|k: PathBuf, e: Arc<Entry>| #[trigger] has_at(m, t, k, e) && k.pb() == p;
    assert(has_at(m, u, k, e));
}
/// the folder was looked through, in full, within a minute before
pub open spec fn recent(m: PackMap, dir: Seq<u8>, t0: nat, t: nat) -> bool { exists|u: nat| u <= t && clock(t0) - clock(u) < 60_000_000_000 && #[trigger] complete(m, dir, u) }
/// there was no such folder at some time from `t0` to `t`
pub open spec fn missing(dir: Seq<u8>, t0: nat, t: nat) -> bool { exists|u: nat| t0 <= u <= t && #[trigger] no_dir(u, dir) }
/// every index in the folder at some time from `t0` on is in the map at time `t`
pub open spec fn renewed(m: PackMap, dir: Seq<u8>, t0: nat, t: nat) -> bool { exists|u: nat| t0 <= u <= t && #[trigger] complete_at(m, dir, u, t) }
pub open spec fn seen(m: PackMap, t: nat, l: Seq<core::result::Result<fs_err::DirEntry, io::Error>>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] l[i]) is Ok && (is_index((l[i]->Ok_0).pb()) ==> known(m, t, (l[i]->Ok_0).pb()))
}
pub broadcast proof fn lemma_seen(m: PackMap, t: nat, l: Seq<core::result::Result<fs_err::DirEntry, io::Error>>, n: int, t1: nat, dir: Seq<u8>)
    requires #[trigger] seen(m, t, l, n), n == l.len(), #[trigger] lists_all(t1, dir, l)
    ensures complete_at(m, dir, t1, t)
{
}
pub broadcast proof fn lemma_later(m: PackMap, dir: Seq<u8>, u: nat, t: nat, t2: nat)
    requires #[trigger] complete_at(m, dir, u, t), u <= t <= t2
    ensures #[trigger] complete(m, dir, t2), complete_at(m, dir, u, t2)
{
    broadcast use lemma_known;
    assert(complete_at(m, dir, u, t2));
}
pub broadcast proof fn lemma_renewed(m: PackMap, dir: Seq<u8>, u: nat, t: nat, t0: nat, t2: nat)
    requires #[trigger] complete_at(m, dir, u, t), t0 <= u <= t <= t2
    ensures #[trigger] renewed(m, dir, t0, t2)
{
    broadcast use lemma_known;
    assert(complete_at(m, dir, u, t2));
}
pub broadcast proof fn lemma_wider(m: PackMap, dir: Seq<u8>, t1: nat, t2: nat, t0: nat, t: nat)
    requires t0 <= t1, t2 <= t
    ensures #[trigger] recent(m, dir, t1, t2) ==> #[trigger] recent(m, dir, t0, t)
{
    broadcast use lemma_clock;
}
pub broadcast proof fn lemma_missing(dir: Seq<u8>, t1: nat, t2: nat, t0: nat, t: nat)
    requires t0 <= t1, t2 <= t
    ensures #[trigger] missing(dir, t1, t2) ==> #[trigger] missing(dir, t0, t)
{
}
pub broadcast proof fn lemma_before(m: PackMap, dir: Seq<u8>, t1: nat, t0: nat, t: nat)
    requires t0 <= t1, #[trigger] renewed(m, dir, t1, t)
    ensures #[trigger] renewed(m, dir, t0, t)
{
}
@fn PackedObjectDatabase::refresh ;; world map=Result alone
    requires self.wf()
    ensures final(world).on(old(world)), match r {
        Ok(true) => renewed(self.packs.id(), self.path.pb(), old(world).now(), final(world).now()),
        Ok(false) => recent(self.packs.id(), self.path.pb(), old(world).now(), final(world).now()) || missing(self.path.pb(), old(world).now(), final(world).now()),
        Err(e) => e is ReadEntry || e is Io,
    }
@start
    broadcast use {lemma_known, lemma_seen, lemma_later, lemma_renewed, lemma_wider};
    let ghost m = self.packs.id();
    let ghost dir = self.path.pb();
    let ghost mut n: int = 0;
@after let:entries
    let ghost l = entries.left();
    let ghost t1 = choose|t: nat| old(world).now() <= t <= world.now() && #[trigger] lists_all(t, dir, l);
@loopstart 0
    proof { n = n + 1; }
@loop 0 for
    invariant self.wf(), world.on(old(world)), t1 <= world.now(), m == self.packs.id(), dir == self.path.pb(), 0 <= n <= l.len(), __it.left() =~= l.skip(n), seen(m, world.now(), l, n),
    decreases l.len() - n
@end
@fn PackedObjectDatabase::read_object ;; world
    requires self.wf(), $1.wf()
    ensures final(world).on(old(world)), match r {
        Ok(o) => exists|e: Arc<Entry>, p: int, kind: ObjectKind, d: Seq<u8>| among(self.packs.id(), final(world).now(), e) && #[trigger] e.index.hit(p, $1.view())
            && sole(self.packs.id(), old(world).now(), $1.view(), e.index.id_at(p)) && Self::object(*e, p, kind, d) && #[trigger] o.holds(kind, d) && !o.reader.can_fail(),
        Err(ReadPackedError::NotFound) => self.absent(old(world).now(), final(world).now(), $1.view()),
        Err(ReadPackedError::Ambiguous) => exists|e: Arc<Entry>, p: int, e2: Arc<Entry>, q: int| among(self.packs.id(), final(world).now(), e) && among(self.packs.id(), final(world).now(), e2)
            && #[trigger] e.index.hit(p, $1.view()) && #[trigger] e2.index.hit(q, $1.view()) && (e.index.id_at(p) != e2.index.id_at(q) || e == e2 && p != q),
        Err(_) => true,
    }
@start
    broadcast use {lemma_wider, lemma_missing, lemma_before};
@end
