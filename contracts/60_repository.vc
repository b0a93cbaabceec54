@// The repository: where its parts are.
@mod shim::fs
/// what `stat` tells
#[verifier::external_body]
pub struct Metadata { p: u8 }
impl Metadata {
    pub uninterp spec fn dir_(&self) -> bool;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r ==> !self.dir_() { unimplemented!() }
}
#[verifier::external_body]
pub fn metadata_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<Metadata, io::Error>)
    ensures final(world).on(old(world)), match r {
        Ok(m) => exists|t: nat| old(world).now() <= t <= final(world).now() && m.dir_() == #[trigger] is_dir(t, p.pb()),
        Err(e) => if e.skind() == io::ErrorKind::NotFound { exists|t: nat| old(world).now() <= t <= final(world).now() && !#[trigger] is_dir(t, p.pb()) }
            else { final(world).fails() > old(world).fails() },
    }
{ unimplemented!() }
@mod repository src=src/repository.rs
use crate::shim::io;
use crate::shim::world::*;
use crate::shim::fs::{self, self as fs_err};
@world fs_err::metadata fs::metadata
@const DOTGIT_FOLDER
@enum OpenError
pub open spec fn dotgit_of(w: Seq<u8>) -> Seq<u8> { path_join(w, seq![0x2eu8, 0x67, 0x69, 0x74]) }
/// whether the folder of this working tree was there, at some time
pub open spec fn was_dir(t: nat, u: nat, w: Seq<u8>, b: bool) -> bool {
    exists|v: nat, d: Seq<u8>| t <= v <= u && #[trigger] is_dir(v, d) == b && d =~= dotgit_of(w)
}
@fn Repository::open ;; world ty1=PP generics=PP where=where~PP:~VInto<PathBuf>
    ensures final(world).on(old(world)), ({
        let w = <PP as VInto<PathBuf>>::vi($1);
        match r {
            Ok(o) => o.object_database.wf() && o.object_database.of(dotgit_of(w.pb())) && o.reference_database.path.pb() == dotgit_of(w.pb())
                && was_dir(old(world).now(), final(world).now(), w.pb(), true),
            Err(OpenError::NotFound(p)) => p == w && was_dir(old(world).now(), final(world).now(), w.pb(), false),
            Err(_) => final(world).fails() > old(world).fails(),
        }
    })
@end
@mod object src=src/object.rs
@fn Object::data
    ensures *r == self.data
@end
