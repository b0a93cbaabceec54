@mod object::database::loose src=src/object/database/loose.rs
use crate::shim::*;
use crate::shim::io::{self, Read};
use crate::shim::world::*;
use crate::shim::path::*;
use crate::shim::sha1::{sha1, lemma_sha1_len};
use crate::shim::store::*;
use crate::shim::fsw::{group_names, FileTime, OpenOptions, ZlibEncoder, Compression, set_file_mtime};
use crate::shim::process::{self, AtomicUsize, Ordering};
use crate::shim::zlib::{inflate, inflate_bad};
use crate::object::*;
use crate::object::database::reader::ObjectReader;
pub mod fs_err { pub use crate::shim::fs::*; pub use crate::shim::fsw::*; }
@world File::open File::create .open .exists .write_all .write .flush .finish .try_finish fs_err::create_dir fs_err::create_dir_all fs_err::remove_file fs_err::rename fs_err::write
@const OBJECTS_FOLDER
@struct LooseObjectDatabase
@enum ReadLooseError
@enum WriteLooseError
@fn LooseObjectDatabase::open
    ensures r.path.pb() == path_join($1.pb(), seq![0x6fu8, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x73])
@end
@fn object_path_parts
    requires str_bytes($1).len() == 40, ascii(str_bytes($1))
    ensures str_bytes(r.0) == str_bytes($1).subrange(0, 2), str_bytes(r.1) == str_bytes($1).subrange(2, 40)
@end
pub proof fn lemma_path(root: Seq<u8>, i: Seq<u8>)
    requires i.len() == 20
    ensures enhex(i).len() == 40, ascii(enhex(i)), object_path(root, i) == path_join(path_join(root, enhex(i).subrange(0, 2)), enhex(i).subrange(2, 40))
{
    lemma_hex_roundtrip(i);
    let h = enhex(i);
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] h[k] < 0x80 by { assert(is_hexdigit(h[k])); }
}
/// only a file which holds the object may be given its name
pub proof fn lemma_may_name(r0: Seq<u8>, i: Seq<u8>)
    requires i.len() == 20
    ensures forall|from: Seq<u8>, c: Seq<u8>| #[trigger] settled(from, c) && stores(c, i) ==> may_name(from, object_path(r0, i))
{
    assert forall|from: Seq<u8>, c: Seq<u8>| #[trigger] settled(from, c) && stores(c, i) implies may_name(from, object_path(r0, i)) by {
        assert forall|root: Seq<u8>, id: Seq<u8>| id.len() == 20 && object_path(r0, i) == #[trigger] object_path(root, id) implies exists|c: Seq<u8>| #[trigger] settled(from, c) && stores(c, id) by { lemma_same(r0, i, root, id); }
    }
}
/// what the object's own file holds
pub open spec fn of_file(t: nat, u: nat, root: Seq<u8>, id: Seq<u8>, o: ObjectReader) -> bool {
    o.header is None && (exists|c: Seq<u8>| #[trigger] at_some(t, u, object_path(root, id), c) && o.reader.rest() == inflate(c) && o.reader.broken() == inflate_bad(c, false))
    && (sound(root) ==> sha1(o.reader.rest()) == id && !o.reader.broken())
}
pub broadcast proof fn lemma_of_file(t: nat, u: nat, root: Seq<u8>, id: Seq<u8>, o: ObjectReader, t2: nat, u2: nat)
    requires #[trigger] of_file(t, u, root, id, o), t2 <= t, u <= u2
    ensures #[trigger] of_file(t2, u2, root, id, o)
{
    let c = choose|c: Seq<u8>| #[trigger] at_some(t, u, object_path(root, id), c) && o.reader.rest() == inflate(c) && o.reader.broken() == inflate_bad(c, false);
    crate::shim::world::lemma_at_some(t, u, t2, u2, object_path(root, id), c);
}
@fn LooseObjectDatabase::read_object ;; world
    ensures final(world).on(old(world)), match r {
        Ok(o) => of_file(old(world).now(), final(world).now(), self.path.pb(), $1.view(), o),
        Err(ReadLooseError::NotFound) => gone(old(world).now(), final(world).now(), object_path(self.path.pb(), $1.view())),
        Err(ReadLooseError::Io(_)) => final(world).fails() > old(world).fails(),
        Err(_) => false,
    }
@start
    hide(enhex);
    hide(object_path);
    hide(path_join);
    proof { lemma_path(self.path.pb(), $1.view()); }
@end
@fn LooseObjectDatabase::write_object ;; world and_then=Result alone
    ensures final(world).on(old(world)), match r {
        Ok(id) => id.view() == sha1($1@) && stored(old(world).now(), final(world).now(), self.path.pb(), id.view()),
        Err(_) => final(world).fails() > old(world).fails(),
    }
@start
    hide(enhex);
    hide(object_path);
    hide(path_join);
    hide(object_named);
    hide(may_name);
    broadcast use crate::shim::store::group_stored;
    proof {
        let i = sha1($1@);
        lemma_sha1_len($1@);
        lemma_path(self.path.pb(), i);
        lemma_may_name(self.path.pb(), i);
    }
@end
@fn create_temp_file ;; world alone
    ensures final(world).on(old(world)), match r {
        Ok((f, p)) => f.fresh_() && f.path_() == p.pb() && !object_named(p.pb()),
        Err(_) => final(world).fails() > old(world).fails(),
    }
@start
    broadcast use group_names;
@loop 0 loop
    invariant world.on(old(world)),
    decreases world.patience()
@end
@fn write_compressed ;; world
    ensures final(world).on(old(world)), match r {
        Ok(_) => $1.fresh_() ==> exists|c: Seq<u8>| #[trigger] settled($1.path_(), c) && packs(c, $2@),
        Err(_) => final(world).fails() > old(world).fails(),
    }
@end
