@// Files that are written: a write is only seen under a name once it is settled there.
@mod shim::fmt
use crate::shim::*;
/// where text is printed, and how (width, fill, precision)
#[verifier::external_body]
pub struct Formatter { d: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn how(&self) -> int;
    /// what is printed to did not take it
    pub uninterp spec fn refused(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, t: &str) -> (r: Result) ensures r is Ok ==> final(self).out() == old(self).out() + str_bytes(t), final(self).how() == old(self).how(), r is Err ==> final(self).refused() { unimplemented!() }
    #[verifier::external_body]
    pub fn pad(&mut self, t: &str) -> (r: Result) ensures r is Ok ==> final(self).out() == old(self).out() + padded(old(self).how(), str_bytes(t)), final(self).how() == old(self).how(), r is Err ==> final(self).refused() { unimplemented!() }
}
/// the fields of a value, one after the other: whatever they are printed as
#[verifier::external_body]
pub struct DebugFields { d: u8 }
impl Formatter {
    #[verifier::external_body]
    pub fn debug_struct(&mut self, n: &str) -> (r: DebugFields) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_tuple(&mut self, n: &str) -> (r: DebugFields) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_list(&mut self) -> (r: DebugFields) { unimplemented!() }
}
impl DebugFields {
    #[verifier::external_body]
    pub fn field<T: ?Sized>(&mut self, n: &str, t: &T) -> (r: &mut DebugFields) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<T: ?Sized>(&mut self, t: &T) -> (r: &mut DebugFields) { unimplemented!() }
    #[verifier::external_body]
    pub fn entries<T>(&mut self, t: T) -> (r: &mut DebugFields) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result) { unimplemented!() }
}
/// `write!` of text that was put together
#[verifier::external_body]
pub fn write_string(f: &mut Formatter, t: String) -> (r: Result) ensures r is Ok ==> final(f).out() == old(f).out() + string_bytes(t), final(f).how() == old(f).how(), r is Err ==> final(f).refused() { unimplemented!() }
pub struct Error { }
pub type Result = core::result::Result<(), Error>;
/// what the width, the fill and the precision make of a text
pub uninterp spec fn padded(how: int, t: Seq<u8>) -> Seq<u8>;
/// the text was printed, with regard to the width and so on or without
pub open spec fn printed(a: Formatter, b: Formatter, t: Seq<u8>) -> bool { b.out() == a.out() + padded(a.how(), t) || b.out() == a.out() + t }
pub trait Display {
    spec fn disp(&self) -> Seq<u8>;
    spec fn may_disp(&self) -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: Result)
        requires self.may_disp()
        ensures final(f).how() == old(f).how(), r is Ok ==> printed(*old(f), *final(f), self.disp()), r is Err ==> final(f).refused();
}
/// what a number is printed as
pub open spec fn digits(n: int) -> Seq<u8> decreases n { if n < 10 { seq![(0x30 + n % 10) as u8] } else { digits(n / 10).push((0x30 + n % 10) as u8) } }
pub broadcast proof fn lemma_digits(n: int)
    ensures (#[trigger] digits(n)).len() > 0, forall|i: int| 0 <= i < digits(n).len() ==> 0x30 <= #[trigger] digits(n)[i] <= 0x39
    decreases n
{ if n >= 10 { lemma_digits(n / 10); } }
impl Display for usize { open spec fn disp(&self) -> Seq<u8> { digits(*self as int) } open spec fn may_disp(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
impl Display for u32 { open spec fn disp(&self) -> Seq<u8> { digits(*self as int) } open spec fn may_disp(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
impl Display for u64 { open spec fn disp(&self) -> Seq<u8> { digits(*self as int) } open spec fn may_disp(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
impl Display for String { open spec fn disp(&self) -> Seq<u8> { string_bytes(*self) } open spec fn may_disp(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
impl Display for str { open spec fn disp(&self) -> Seq<u8> { str_bytes(self) } open spec fn may_disp(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
impl<T: Display + ?Sized> Display for &T { open spec fn disp(&self) -> Seq<u8> { (**self).disp() } open spec fn may_disp(&self) -> bool { (**self).may_disp() }
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { (**self).fmt(f) } }
#[verifier::external_body]
pub fn format0(a: &[u8]) -> (r: String) ensures string_bytes(r) == a@ { unimplemented!() }
#[verifier::external_body]
pub fn format1<X: Display>(a: &[u8], x: &X, b: &[u8]) -> (r: String) ensures string_bytes(r) == a@ + x.disp() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn format2<X: Display, Y: Display>(a: &[u8], x: &X, b: &[u8], y: &Y, c: &[u8]) -> (r: String) ensures string_bytes(r) == a@ + x.disp() + b@ + y.disp() + c@ { unimplemented!() }
#[verifier::external_body]
pub fn format3<X: Display, Y: Display, Z: Display>(a: &[u8], x: &X, b: &[u8], y: &Y, c: &[u8], z: &Z, d: &[u8]) -> (r: String) ensures string_bytes(r) == a@ + x.disp() + b@ + y.disp() + c@ + z.disp() + d@ { unimplemented!() }

@mod shim::process
use crate::shim::*;
#[verifier::external_body]
pub fn id() -> u32 { unimplemented!() }
/// a `static` in a function: whatever was last put there, by any thread
#[verifier::external_body]
pub fn shared<T>() -> T { unimplemented!() }
#[verifier::external_body]
pub struct AtomicUsize { p: u8 }
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl AtomicUsize {
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> usize { unimplemented!() }
}

@mod shim::store
use crate::shim::*;
use crate::shim::world::*;
use crate::shim::path::*;
use crate::shim::sha1::sha1;
use crate::shim::zlib::{inflate, inflate_bad};
use crate::object::{enhex, unhex, is_hex, hexdigit, is_hexdigit, lemma_hex_roundtrip};
/// the name of the file of an object: two digits, a slash, and thirty-eight digits
pub open spec fn object_path(root: Seq<u8>, id: Seq<u8>) -> Seq<u8> { path_join(path_join(root, enhex(id).subrange(0, 2)), enhex(id).subrange(2, 40)) }
/// the path is such a name
pub open spec fn object_named(p: Seq<u8>) -> bool { exists|root: Seq<u8>, id: Seq<u8>| id.len() == 20 && p == #[trigger] object_path(root, id) }
/// this is a complete zlib stream of `d`
pub open spec fn packs(c: Seq<u8>, d: Seq<u8>) -> bool { inflate(c) == d && !inflate_bad(c, false) }
/// this is what the file of the object of this id has to hold
pub open spec fn stores(c: Seq<u8>, id: Seq<u8>) -> bool { exists|d: Seq<u8>| #[trigger] packs(c, d) && sha1(d) == id }
/// every file that bears the name of an object holds that object
pub open spec fn sound(root: Seq<u8>) -> bool {
    forall|t: nat, id: Seq<u8>| id.len() == 20 && (#[trigger] content(t, object_path(root, id))) is Some ==> stores(content(t, object_path(root, id))->0, id)
}
/// there was a file of this name at some time from t to u
pub open spec fn there(t: nat, u: nat, p: Seq<u8>) -> bool { exists|c: Seq<u8>| #[trigger] at_some(t, u, p, c) }
/// At some time from t to u the object had a file under its name, and (if others only put what they should there) that holds it.
pub open spec fn stored(t: nat, u: nat, root: Seq<u8>, id: Seq<u8>) -> bool {
    exists|c: Seq<u8>| #[trigger] at_some(t, u, object_path(root, id), c) && (sound(root) ==> stores(c, id))
}
pub broadcast proof fn lemma_there(t: nat, u: nat, t2: nat, u2: nat, p: Seq<u8>, root: Seq<u8>, id: Seq<u8>)
    requires #[trigger] there(t, u, p), p == object_path(root, id), id.len() == 20, t2 <= t, u <= u2
    ensures #[trigger] stored(t2, u2, root, id)
{
    let c = choose|c: Seq<u8>| #[trigger] at_some(t, u, p, c);
    lemma_at_some(t, u, t2, u2, p, c);
    let x = choose|x: nat| t <= x <= u && #[trigger] content(x, p) == Some(c);
    assert(content(x, object_path(root, id)) is Some);
}
pub proof fn lemma_put(t: nat, u: nat, t2: nat, u2: nat, p: Seq<u8>, c: Seq<u8>, root: Seq<u8>, id: Seq<u8>)
    requires at_some(t, u, p, c), p == object_path(root, id), stores(c, id), t2 <= t, u <= u2
    ensures stored(t2, u2, root, id)
{
    lemma_at_some(t, u, t2, u2, p, c);
}
/// All that was written to the file of this name is this, and whoever wrote it is done.
pub uninterp spec fn settled(p: Seq<u8>, c: Seq<u8>) -> bool;
/// the file `from` was given the name `to`
pub open spec fn renamed(t: nat, u: nat, from: Seq<u8>, to: Seq<u8>) -> bool { forall|c: Seq<u8>| #[trigger] settled(from, c) ==> at_some(t, u, to, c) }
pub broadcast proof fn lemma_renamed(t: nat, u: nat, from: Seq<u8>, to: Seq<u8>, c: Seq<u8>, t2: nat, u2: nat, root: Seq<u8>, id: Seq<u8>)
    requires #[trigger] renamed(t, u, from, to), #[trigger] settled(from, c), stores(c, id), to == object_path(root, id), t2 <= t, u <= u2
    ensures #[trigger] stored(t2, u2, root, id)
{
    lemma_put(t, u, t2, u2, to, c, root, id);
}
pub broadcast group group_stored { lemma_there, lemma_renamed }
/// What must hold before a file is given the name `to`, whatever stops the process afterwards:
/// if it is the name of an object, the file is settled and holds that object.
pub open spec fn may_name(from: Seq<u8>, to: Seq<u8>) -> bool {
    forall|root: Seq<u8>, id: Seq<u8>| id.len() == 20 && to == #[trigger] object_path(root, id) ==> exists|c: Seq<u8>| #[trigger] settled(from, c) && stores(c, id)
}
pub open spec fn no_slash(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x2f }
pub proof fn lemma_shape(root: Seq<u8>, id: Seq<u8>)
    requires id.len() == 20
    ensures ({ let p = object_path(root, id); p.len() >= 41 && p[p.len() - 39] == 0x2f && forall|i: int| p.len() - 38 <= i < p.len() ==> is_hexdigit(#[trigger] p[i]) })
{
    hide(object_path);
    hide(enhex);
    lemma_hex_roundtrip(id);
    lemma_tail(root, id);
    let p = object_path(root, id);
    let h = enhex(id);
    assert forall|i: int| p.len() - 38 <= i < p.len() implies is_hexdigit(#[trigger] p[i]) by { let j = i - p.len() + 40; assert(p[p.len() - 40 + j] == h[j]); assert(is_hexdigit(h[j])); }
}
/// a name with something but hexadecimal digits in it is not that of an object
pub broadcast proof fn lemma_other(dir: Seq<u8>, name: Seq<u8>)
    requires no_slash(name), odd(name)
    ensures !object_named(#[trigger] path_join(dir, name))
{
    let k = choose|k: int| 0 <= k < name.len() && !is_hexdigit(#[trigger] name[k]);
    let p = path_join(dir, name);
    assert(!absolute(name)) by { assert(name[0] != 0x2f); }
    let n = p.len() - name.len();
    assert forall|i: int| 0 <= i < name.len() implies #[trigger] p[n + i] == name[i] by { }
    if object_named(p) {
        let (root, id) = choose|root: Seq<u8>, id: Seq<u8>| id.len() == 20 && p == #[trigger] object_path(root, id);
        lemma_shape(root, id);
        if name.len() >= 39 { assert(p[n + (name.len() - 39)] == name[name.len() - 39]); } else { assert(p[n + k] == name[k]); }
    }
}
/// there is something but hexadecimal digits in it
pub open spec fn odd(s: Seq<u8>) -> bool { exists|k: int| 0 <= k < s.len() && !is_hexdigit(#[trigger] s[k]) }
pub broadcast proof fn lemma_slash_add(s: Seq<u8>, t: Seq<u8>) requires no_slash(s), no_slash(t) ensures no_slash(#[trigger] (s + t)) { }
pub broadcast proof fn lemma_odd_add(s: Seq<u8>, t: Seq<u8>) requires odd(s) || odd(t) ensures odd(#[trigger] (s + t))
{
    if odd(s) { let k = choose|k: int| 0 <= k < s.len() && !is_hexdigit(#[trigger] s[k]); assert((s + t)[k] == s[k]); }
    else { let k = choose|k: int| 0 <= k < t.len() && !is_hexdigit(#[trigger] t[k]); assert((s + t)[s.len() + k] == t[k]); }
}
pub proof fn lemma_same(root: Seq<u8>, id: Seq<u8>, root2: Seq<u8>, id2: Seq<u8>)
    requires id.len() == 20, id2.len() == 20, object_path(root, id) == object_path(root2, id2)
    ensures id == id2
{
    let p = object_path(root, id);
    lemma_tail(root, id);
    lemma_tail(root2, id2);
    let h = enhex(id);
    let g = enhex(id2);
    assert forall|i: int| 0 <= i < 40 implies h[i] == g[i] by {
        if i < 2 { assert(p[p.len() - 41 + i] == h[i]); assert(p[p.len() - 41 + i] == g[i]); } else { assert(p[p.len() - 40 + i] == h[i]); assert(p[p.len() - 40 + i] == g[i]); }
    }
    assert(h =~= g);
    lemma_hex_roundtrip(id);
    lemma_hex_roundtrip(id2);
}
pub proof fn lemma_joined(root: Seq<u8>, h: Seq<u8>)
    requires h.len() == 40, h[0] != 0x2f, h[1] != 0x2f, h[2] != 0x2f
    ensures ({ let p = path_join(path_join(root, h.subrange(0, 2)), h.subrange(2, 40)); p.len() >= 41 && p[p.len() - 39] == 0x2f
        && (forall|i: int| 0 <= i < 2 ==> p[p.len() - 41 + i] == #[trigger] h[i]) && (forall|i: int| 2 <= i < 40 ==> p[p.len() - 40 + i] == #[trigger] h[i]) })
{
    let x = h.subrange(0, 2);
    let a = path_join(root, x);
    let f = h.subrange(2, 40);
    assert(x[0] == h[0] && x[1] == h[1] && f[0] == h[2] && x.len() == 2);
    assert(a.len() >= 2 && a[a.len() - 1] == h[1] && a[a.len() - 2] == h[0]);
    let p = path_join(a, f);
    assert(p == a.push(0x2f) + f);
    assert forall|i: int| 2 <= i < 40 implies p[p.len() - 40 + i] == #[trigger] h[i] by { assert(p[p.len() - 40 + i] == f[i - 2]); assert(f[i - 2] == h[i]); }
}
pub proof fn lemma_tail(root: Seq<u8>, id: Seq<u8>)
    requires id.len() == 20
    ensures ({ let p = object_path(root, id); let h = enhex(id); p.len() >= 41 && p[p.len() - 39] == 0x2f && (forall|i: int| 0 <= i < 2 ==> p[p.len() - 41 + i] == #[trigger] h[i]) && (forall|i: int| 2 <= i < 40 ==> p[p.len() - 40 + i] == #[trigger] h[i]) })
{
    lemma_hex_roundtrip(id);
    let h = enhex(id);
    assert(h.len() == 40 && is_hexdigit(h[0]) && is_hexdigit(h[1]) && is_hexdigit(h[2]));
    lemma_joined(root, h);
}

@mod shim::fsw
use crate::shim::*;
use crate::shim::io;
use crate::shim::path::*;
use crate::shim::world::*;
use crate::shim::fs::File;
use crate::shim::store::*;
impl File {
    /// where it was opened
    pub uninterp spec fn path_(&self) -> Seq<u8>;
    /// nothing has been written to it, and nobody else has it
    pub uninterp spec fn fresh_(&self) -> bool;
    pub fn from_parts(file: File, path: PathBuf) -> (r: File) ensures r == file { file }
    #[verifier::external_body]
    pub fn create_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<File, io::Error>)
        requires !object_named(p.pb())
        ensures final(world).on(old(world)), match r { Ok(f) => f.fresh_() && f.path_() == p.pb(), Err(_) => final(world).fails() > old(world).fails() }
    { unimplemented!() }
}
pub struct OpenOptions { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false }) { OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { read: b, ..self } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { write: b, ..self } }
    pub fn write_w(self, b: bool, world: &mut World) -> (r: OpenOptions) ensures r == (OpenOptions { write: b, ..self }), *final(world) == *old(world) { OpenOptions { write: b, ..self } }
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { append: b, ..self }) { OpenOptions { append: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { truncate: b, ..self }) { OpenOptions { truncate: b, ..self } }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, ..self } }
    pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create_new: b, ..self }) { OpenOptions { create_new: b, ..self } }
    /// An object's file is never opened to be written.
    #[verifier::external_body]
    pub fn open_w<P: PathLike>(self, p: P, world: &mut World) -> (r: core::result::Result<File, io::Error>)
        requires self.write || self.append ==> !object_named(p.pb())
        ensures final(world).on(old(world)), match r {
            Ok(f) => f.path_() == p.pb() && (self.write && (self.create_new || self.truncate) && !self.append ==> f.fresh_()),
            Err(e) => if e.skind() == io::ErrorKind::AlreadyExists { final(world).patience() < old(world).patience() } else { final(world).fails() > old(world).fails() },
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<(), io::Error>)
    ensures final(world).on(old(world)), r matches Err(e) ==> e.skind() == io::ErrorKind::AlreadyExists || final(world).fails() > old(world).fails()
{ unimplemented!() }
#[verifier::external_body]
pub fn create_dir_all_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<(), io::Error>)
    ensures final(world).on(old(world)), r matches Err(e) ==> final(world).fails() > old(world).fails()
{ unimplemented!() }
/// An object's file is never removed.
#[verifier::external_body]
pub fn remove_file_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<(), io::Error>)
    requires !object_named(p.pb())
    ensures final(world).on(old(world)), r matches Err(e) ==> final(world).fails() > old(world).fails()
{ unimplemented!() }
/// A file is given an object's name only if it holds that object.
#[verifier::external_body]
pub fn rename_w<P: PathLike, Q: PathLike>(from: P, to: Q, world: &mut World) -> (r: core::result::Result<(), io::Error>)
    requires may_name(from.pb(), to.pb()), !object_named(from.pb())
    ensures final(world).on(old(world)), match r {
        Ok(_) => renamed(old(world).now(), final(world).now(), from.pb(), to.pb()),
        Err(e) => final(world).fails() > old(world).fails(),
    }
{ unimplemented!() }
/// `fs::write`, which creates or replaces the file
#[verifier::external_body]
pub fn write_w<P: PathLike>(p: P, d: &[u8], world: &mut World) -> (r: core::result::Result<(), io::Error>)
    requires !object_named(p.pb())
    ensures final(world).on(old(world)), match r { Ok(_) => settled(p.pb(), d@), Err(e) => final(world).fails() > old(world).fails() }
{ unimplemented!() }
impl Path {
    #[verifier::external_body]
    pub fn exists_w(&self, world: &mut World) -> (r: bool)
        ensures final(world).on(old(world)), r ==> there(old(world).now(), final(world).now(), self.pb())
    { unimplemented!() }
}
#[verifier::external_body]
pub struct FileTime { p: u8 }
impl FileTime {
    #[verifier::external_body]
    pub fn now() -> FileTime { unimplemented!() }
}
#[verifier::external_body]
pub fn set_file_mtime<P: PathLike>(p: P, t: FileTime) -> core::result::Result<(), io::Error> { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Compression { pub level: u32 }
impl Compression {
    pub fn best() -> Compression { Compression { level: 9 } }
    pub fn fast() -> Compression { Compression { level: 1 } }
    pub fn default() -> Compression { Compression { level: 6 } }
    pub fn new(level: u32) -> Compression { Compression { level } }
}
#[verifier::external_body]
pub struct ZlibEncoder { p: u8 }
impl ZlibEncoder {
    pub uninterp spec fn path(&self) -> Seq<u8>;
    /// all that was given to it to compress, if nothing failed
    pub uninterp spec fn fed(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn new(f: File, c: Compression) -> (r: ZlibEncoder) ensures r.path() == f.path_(), r.fed() is Some ==> r.fed() == Some(Seq::<u8>::empty()), f.fresh_() ==> r.fed() is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all_w(&mut self, d: &[u8], world: &mut World) -> (r: core::result::Result<(), io::Error>)
        ensures final(world).on(old(world)), final(self).path() == old(self).path(), match r {
            Ok(_) => old(self).fed() matches Some(s) ==> final(self).fed() == Some(s + d@),
            Err(_) => final(world).fails() > old(world).fails(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_w(&mut self, d: &[u8], world: &mut World) -> (r: core::result::Result<usize, io::Error>)
        ensures final(world).on(old(world)), final(self).path() == old(self).path(), match r {
            Ok(n) => n <= d@.len() && (old(self).fed() matches Some(s) ==> final(self).fed() == Some(s + d@.subrange(0, n as int))),
            Err(_) => final(world).fails() > old(world).fails(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_w(&mut self, world: &mut World) -> (r: core::result::Result<(), io::Error>)
        ensures final(world).on(old(world)), final(self).path() == old(self).path(), match r {
            Ok(_) => final(self).fed() == old(self).fed(),
            Err(_) => final(world).fails() > old(world).fails(),
        }
    { unimplemented!() }
    /// only once it is finished is all of the stream in the file
    #[verifier::external_body]
    pub fn finish_w(self, world: &mut World) -> (r: core::result::Result<File, io::Error>)
        ensures final(world).on(old(world)), match r {
            Ok(f) => f.path_() == self.path() && (self.fed() matches Some(d) ==> exists|c: Seq<u8>| #[trigger] settled(self.path(), c) && packs(c, d)),
            Err(_) => final(world).fails() > old(world).fails(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_finish_w(&mut self, world: &mut World) -> (r: core::result::Result<(), io::Error>)
        ensures final(world).on(old(world)), match r {
            Ok(_) => final(self).path() == old(self).path() && (old(self).fed() matches Some(d) ==> exists|c: Seq<u8>| #[trigger] settled(old(self).path(), c) && packs(c, d)),
            Err(_) => final(world).fails() > old(world).fails(),
        }
    { unimplemented!() }
}
pub broadcast group group_names { lemma_other, lemma_slash_add, lemma_odd_add, crate::shim::fmt::lemma_digits }
