@// Trusted stand-ins used by the pack and index readers: zerocopy, zlib, seeking, locks, maps.
@mod shim::zerocopy
use crate::shim::*;
use vstd::prelude::*;
/// A type which is read by reinterpreting bytes.
pub trait FromBytes: Sized {
    spec fn zsize() -> nat;
    spec fn zalign() -> nat;
    /// `v` is what the bytes `b` stand for
    spec fn zok(b: Seq<u8>, v: Self) -> bool;
}
pub struct NetworkEndian { }
pub type BigEndian = NetworkEndian;
#[verifier::accept_recursive_types(O)]
pub struct U32<O> { pub b: [u8; 4], pub o: core::marker::PhantomData<O> }
#[verifier::accept_recursive_types(O)]
pub struct U64<O> { pub b: [u8; 8], pub o: core::marker::PhantomData<O> }
impl<O> Clone for U32<O> { fn clone(&self) -> (r: Self) ensures r == *self { U32 { b: self.b, o: core::marker::PhantomData } } }
impl<O> Clone for U64<O> { fn clone(&self) -> (r: Self) ensures r == *self { U64 { b: self.b, o: core::marker::PhantomData } } }
impl<O> Copy for U32<O> { }
impl<O> Copy for U64<O> { }
impl<O> U32<O> { pub open spec fn val(&self) -> u32 { be32(self.b@) } }
impl<O> U64<O> { pub open spec fn val(&self) -> u64 { be64(self.b@) } }
impl U32<NetworkEndian> { pub fn get(&self) -> (r: u32) ensures r == self.val() { be_read_u32(self.b.as_slice()) } }
impl U64<NetworkEndian> {
    pub fn get(&self) -> (r: u64) ensures r == self.val() {
        let b = self.b.as_slice();
        let (x, y) = (be_read_u32(&b[..4]), be_read_u32(&b[4..]));
        assert(b@.subrange(4, 8) =~= self.b@.subrange(4, 8));
        ((x as u64) << 32) | (y as u64)
    }
}
impl FromBytes for U32<NetworkEndian> {
    open spec fn zsize() -> nat { 4 }
    open spec fn zalign() -> nat { 1 }
    open spec fn zok(b: Seq<u8>, v: Self) -> bool { v.b@ == b }
}
impl FromBytes for U64<NetworkEndian> {
    open spec fn zsize() -> nat { 8 }
    open spec fn zalign() -> nat { 1 }
    open spec fn zok(b: Seq<u8>, v: Self) -> bool { v.b@ == b }
}
pub open spec fn be64(s: Seq<u8>) -> u64 { ((be32(s) as u64) << 32) | (be32(s.subrange(4, 8)) as u64) }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(B)]
pub struct LayoutVerified<B, T: ?Sized> { b: B, t: core::marker::PhantomData<Box<T>> }
impl<B, T: ?Sized> LayoutVerified<B, T> { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
impl<'a, T: FromBytes> LayoutVerified<&'a [u8], T> {
    #[verifier::external_body]
    pub fn new(b: &'a [u8]) -> (r: Option<LayoutVerified<&'a [u8], T>>)
        ensures T::zalign() == 1 ==> (r is Some <==> b@.len() == T::zsize()), r is Some ==> b@.len() == T::zsize() && r->0.bytes() == b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_ref(self) -> (r: &'a T) ensures T::zok(self.bytes(), *r) { unimplemented!() }
}
pub open spec fn zitem(b: Seq<u8>, size: nat, i: int) -> Seq<u8> { b.subrange(i * size, i * size + size) }
impl<'a, T: FromBytes> LayoutVerified<&'a [u8], [T]> {
    #[verifier::external_body]
    pub fn new_slice(b: &'a [u8]) -> (r: Option<LayoutVerified<&'a [u8], [T]>>)
        requires T::zsize() > 0
        ensures T::zalign() == 1 ==> (r is Some <==> b@.len() % T::zsize() == 0), r is Some ==> b@.len() % T::zsize() == 0 && r->0.bytes() == b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_slice(self) -> (r: &'a [T])
        ensures r@.len() * T::zsize() == self.bytes().len(), r@.len() == self.bytes().len() / T::zsize(),
            forall|i: int| 0 <= i < r@.len() ==> T::zok(zitem(self.bytes(), T::zsize(), i), #[trigger] r@[i])
    { unimplemented!() }
}

@mod shim::zlib
use crate::shim::*;
use crate::shim::io::{self, Read};
/// what decompressing a zlib stream delivers (up to where it is damaged or ends)
pub uninterp spec fn inflate(s: Seq<u8>) -> Seq<u8>;
/// whether the decoder fails on it: the stream is damaged, or it goes on where the source breaks
pub uninterp spec fn inflate_bad(s: Seq<u8>, broken: bool) -> bool;
#[verifier::external_body]
pub struct ByRef { p: u8 }
impl ByRef {
    pub uninterp spec fn rest_(&self) -> Seq<u8>;
    pub uninterp spec fn fail_(&self) -> bool;
    pub uninterp spec fn broken_(&self) -> bool;
    pub uninterp spec fn patience_(&self) -> nat;
}
impl Read for ByRef {
    open spec fn rest(&self) -> Seq<u8> { self.rest_() }
    open spec fn can_fail(&self) -> bool { self.fail_() }
    open spec fn broken(&self) -> bool { self.broken_() }
    open spec fn patience(&self) -> nat { self.patience_() }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
}
/// `Read::by_ref`: how much of the source is used up through it is not known
pub trait ReadByRef: Read + Sized {
    fn by_ref(&mut self) -> (r: ByRef)
        ensures r.rest_() == old(self).rest(), r.fail_() == old(self).can_fail(), r.broken_() == old(self).broken(),
            final(self).whole() == old(self).whole(), final(self).can_fail() == old(self).can_fail(), final(self).broken() == old(self).broken();
}
impl<R: Read> ReadByRef for R {
    #[verifier::external_body]
    fn by_ref(&mut self) -> (r: ByRef) { unimplemented!() }
}
pub trait ReadChain: Read + Sized {
    fn chain<N: Read>(self, next: N) -> (r: Chain<Self, N>)
        ensures r.rest() == self.rest() + next.rest(), r.can_fail() == (self.can_fail() || next.can_fail()), r.broken() == (self.broken() || next.broken());
}
impl<R: Read> ReadChain for R {
    fn chain<N: Read>(self, next: N) -> (r: Chain<R, N>) { Chain { a: self, b: next, second: false } }
}
/// `std::io::Chain`
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Chain<A, B> { pub a: A, pub b: B, pub second: bool }
impl<A: Read, B: Read> Read for Chain<A, B> {
    open spec fn rest(&self) -> Seq<u8> { if self.second { self.b.rest() } else { self.a.rest() + self.b.rest() } }
    open spec fn can_fail(&self) -> bool { self.a.can_fail() || self.b.can_fail() }
    open spec fn broken(&self) -> bool { if self.second { self.b.broken() } else { self.a.broken() || self.b.broken() } }
    open spec fn patience(&self) -> nat { if self.second { self.b.patience() } else { self.a.patience() + self.b.patience() } }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, io::Error>) {
        if !self.second {
            let n = self.a.read(buf)?;
            if n > 0 || buf.len() == 0 { assert(self.rest() =~= old(self).rest().skip(n as int)); return Ok(n); }
            self.second = true;
            assert(self.rest() =~= old(self).rest());
        }
        self.b.read(buf)
    }
}
/// `std::io::BufReader`
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { pub r: R }
impl<R: Read> BufReader<R> {
    pub open spec fn rest_(&self) -> Seq<u8> { self.r.rest() }
    pub open spec fn fail_(&self) -> bool { self.r.can_fail() }
    pub open spec fn broken_(&self) -> bool { self.r.broken() }
    pub fn new(r: R) -> (b: BufReader<R>) ensures b.rest_() == r.rest(), b.broken_() == r.broken(), b.fail_() == r.can_fail() { BufReader { r } }
}
impl<R: Read> Read for BufReader<R> {
    open spec fn rest(&self) -> Seq<u8> { self.r.rest() }
    open spec fn can_fail(&self) -> bool { self.r.can_fail() }
    open spec fn broken(&self) -> bool { self.r.broken() }
    open spec fn patience(&self) -> nat { self.r.patience() }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, io::Error>) { self.r.read(buf) }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct ZlibDecoder<R> { p: R }
impl<R> ZlibDecoder<R> {
    pub uninterp spec fn rest_(&self) -> Seq<u8>;
    pub uninterp spec fn fail_(&self) -> bool;
    pub uninterp spec fn broken_(&self) -> bool;
    pub uninterp spec fn patience_(&self) -> nat;
    #[verifier::external_body]
    pub fn new(r: R) -> (d: ZlibDecoder<R>) where R: Read
        ensures d.rest_() == inflate(r.rest()), d.broken_() == inflate_bad(r.rest(), r.broken()), d.fail_() == (r.can_fail() || d.broken_())
    { unimplemented!() }
}
impl<R> Read for ZlibDecoder<R> {
    open spec fn rest(&self) -> Seq<u8> { self.rest_() }
    open spec fn can_fail(&self) -> bool { self.fail_() }
    open spec fn broken(&self) -> bool { self.broken_() }
    open spec fn patience(&self) -> nat { self.patience_() }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
}

@mod shim::lock
use crate::shim::*;
/// What holds of a value whenever nobody holds the lock that protects it, and what about it never changes.
pub trait Lockable: Sized {
    type Key;
    spec fn fits(&self, k: Self::Key) -> bool;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { t: T }
impl<T: Lockable> Mutex<T> {
    pub uninterp spec fn key(&self) -> T::Key;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Mutex<T>) requires exists|k: T::Key| t.fits(k) ensures r.fresh(), t.fits(r.key()) { unimplemented!() }
    /// nothing is known to anyone about the key but that the first value fits it
    pub uninterp spec fn fresh(&self) -> bool;
    /// `lock().unwrap()`. A lock is poisoned only by a panic while it is held, which is proved absent.
    #[verifier::external_body]
    pub fn lock_now(&self) -> (r: Box<T>) ensures r.fits(self.key()) { unimplemented!() }
    /// `get_mut().unwrap()`
    #[verifier::external_body]
    pub fn get_now(&mut self) -> (r: &mut T)
        ensures (*r).fits(old(self).key()), (*final(r)).fits(old(self).key()) ==> final(self).key() == old(self).key()
    { unimplemented!() }
}
/// a mutex which nothing else has yet
pub struct Owned<T> { pub t: T }
impl<T: Lockable> Owned<T> {
    pub fn new(t: T) -> (r: Owned<T>) ensures r.t == t { Owned { t } }
    pub fn get_now(&mut self) -> (r: &mut T) ensures *r == old(self).t, final(self).t == *final(r) { &mut self.t }
    pub fn share(self) -> (r: Mutex<T>) requires exists|k: T::Key| self.t.fits(k) ensures r.fresh(), self.t.fits(r.key()) { Mutex::new(self.t) }
}
/// the end of a critical section
pub fn release<T: Lockable>(m: &Mutex<T>, g: &T) requires g.fits(m.key()) { }

@mod shim::world
use crate::shim::*;
/// The clock of the events in files and shared maps. What is so at a time is told by functions of
/// that time; each of the calls which get the clock takes some time, in which others may act as well.
#[verifier::external_body]
pub struct World { p: u8 }
impl World {
    pub uninterp spec fn now(&self) -> nat;
    /// how many file operations have failed so far
    pub uninterp spec fn fails(&self) -> nat;
    /// how often names that others have taken may still be tried
    pub uninterp spec fn patience(&self) -> nat;
    pub open spec fn on(&self, o: &World) -> bool { self.now() >= o.now() && self.fails() >= o.fails() }
}
/// what the file at a path holds at a time, if there is one
pub uninterp spec fn content(t: nat, path: Seq<u8>) -> Option<Seq<u8>>;
/// the file at this path held this at some time
pub open spec fn held(path: Seq<u8>, d: Seq<u8>) -> bool { exists|t: nat| #[trigger] content(t, path) == Some(d) }
/// the file holds this at some time from `t` to `u`
pub open spec fn at_some(t: nat, u: nat, p: Seq<u8>, c: Seq<u8>) -> bool { exists|x: nat| t <= x <= u && #[trigger] content(x, p) == Some(c) }
/// there is no such file at some time from `t` to `u`
pub open spec fn gone(t: nat, u: nat, p: Seq<u8>) -> bool { exists|x: nat| t <= x <= u && (#[trigger] content(x, p)) is None }
pub broadcast proof fn lemma_at_some(t: nat, u: nat, t2: nat, u2: nat, p: Seq<u8>, c: Seq<u8>)
    requires #[trigger] at_some(t, u, p, c), t2 <= t, u <= u2
    ensures #[trigger] at_some(t2, u2, p, c)
{ }
pub broadcast proof fn lemma_gone(t: nat, u: nat, t2: nat, u2: nat, p: Seq<u8>)
    requires #[trigger] gone(t, u, p), t2 <= t, u <= u2
    ensures #[trigger] gone(t2, u2, p)
{ }
pub broadcast group group_times { lemma_at_some, lemma_gone }
/// the folder at a path lists this entry at a time
#[verifier::opaque]
pub open spec fn listed(t: nat, dir: Seq<u8>, name: Seq<u8>) -> bool { entry(t, dir, name) && crate::shim::path::name_in(dir, name) && !crate::shim::fs::no_dir(t, dir) }
pub uninterp spec fn entry(t: nat, dir: Seq<u8>, name: Seq<u8>) -> bool;
pub uninterp spec fn is_dir(t: nat, path: Seq<u8>) -> bool;
/// the nanosecond on the clock at a time
#[verifier::opaque]
pub open spec fn clock(t: nat) -> int decreases t { if t == 0 { start() } else { clock((t - 1) as nat) + tick((t - 1) as nat) } }
pub uninterp spec fn start() -> int;
/// how many nanoseconds pass at an event
pub uninterp spec fn tick(t: nat) -> nat;
pub broadcast proof fn lemma_clock(t: nat, u: nat) requires t <= u ensures #[trigger] clock(t) <= #[trigger] clock(u) decreases u
{ reveal(clock); if t < u { lemma_clock(t, (u - 1) as nat); } }

@mod shim::path
use crate::shim::*;
use crate::shim::world::*;
#[verifier::external_body]
pub struct PathBuf { p: u8 }
#[verifier::external_body]
pub struct Path { p: u8 }
pub type OsStr = Path;
pub open spec fn slash() -> u8 { 0x2f }
pub open spec fn absolute(b: Seq<u8>) -> bool { b.len() > 0 && b[0] == slash() }
/// `Path::join`
pub open spec fn path_join(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    if absolute(b) { b } else if a.len() == 0 || a.last() == slash() { a + b } else { a.push(slash()) + b }
}
/// the name of an entry of a folder
pub open spec fn entry_name(n: Seq<u8>) -> bool { n.len() > 0 && (forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != slash()) && !(n.len() == 1 && n[0] == 0x2e) && !(n.len() == 2 && n[0] == 0x2e && n[1] == 0x2e) }
/// the path of an entry of a folder
pub open spec fn name_in(dir: Seq<u8>, p: Seq<u8>) -> bool { exists|n: Seq<u8>| #[trigger] entry_name(n) && p == path_join(dir, n) }
/// a part which starts here is the name of an entry
pub open spec fn part_ok(r: Seq<u8>, i: int) -> bool {
    i == 0 || r[i - 1] == slash() ==> r[i] != slash()
        && !(r[i] == 0x2e && (i + 1 == r.len() || r[i + 1] == slash()))
        && !(r[i] == 0x2e && i + 1 < r.len() && r[i + 1] == 0x2e && (i + 2 == r.len() || r[i + 2] == slash()))
}
/// names of entries with single slashes between them
pub open spec fn normal(r: Seq<u8>) -> bool { r.len() > 0 && r.last() != slash() && forall|i: int| 0 <= i < r.len() ==> #[trigger] part_ok(r, i) }
/// a path which does not end with a slash
pub open spec fn solid(d: Seq<u8>) -> bool { d.len() > 0 && d.last() != slash() }
/// the path of something in a folder, at any depth
pub open spec fn under(base: Seq<u8>, p: Seq<u8>) -> bool { exists|r: Seq<u8>| #[trigger] normal(r) && p == path_join(base, r) }
pub proof fn lemma_entry_normal(n: Seq<u8>) requires entry_name(n) ensures normal(n)
{
    assert(n[n.len() - 1] != slash());
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] part_ok(n, i) by { assert(n[i] != slash()); if i > 0 { assert(n[i - 1] != slash()); } if i + 1 < n.len() { assert(n[i + 1] != slash()); } if i + 2 < n.len() { assert(n[i + 2] != slash()); } }
}
pub proof fn lemma_normal_join(r: Seq<u8>, n: Seq<u8>) requires normal(r), entry_name(n) ensures normal(r.push(slash()) + n)
{
    let w = r.push(slash()) + n;
    lemma_entry_normal(n);
    assert(w.last() == n[n.len() - 1]);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] part_ok(w, i) by {
        if i < r.len() {
            assert(part_ok(r, i));
            if i > 0 { assert(w[i - 1] == r[i - 1]); }
            assert(w[i] == r[i]);
            if i + 1 < r.len() { assert(w[i + 1] == r[i + 1]); } else { assert(w[i + 1] == slash()); }
            if i + 2 < r.len() { assert(w[i + 2] == r[i + 2]); } else if i + 2 == r.len() { assert(w[i + 2] == slash()); }
        } else if i == r.len() {
            assert(w[i - 1] == r[i - 1]);
            assert(r.last() == r[i - 1]);
        } else {
            let j = i - r.len() - 1;
            assert(part_ok(n, j));
            assert(w[i] == n[j]);
            if j > 0 { assert(w[i - 1] == n[j - 1]); }
            if i + 1 < w.len() { assert(w[i + 1] == n[j + 1]); }
            if i + 2 < w.len() { assert(w[i + 2] == n[j + 2]); }
        }
    }
}
/// such a path leads nowhere else
pub broadcast proof fn lemma_normal_plain(r: Seq<u8>) requires #[trigger] normal(r) ensures plain(r), r.len() > 0, r[0] != slash()
{
    assert(part_ok(r, 0));
    assert forall|i: int| 0 <= i && i + 1 < r.len() && #[trigger] r[i] == 0x2e && r[i + 1] == 0x2e && (i == 0 || r[i - 1] == slash()) implies i + 2 < r.len() && r[i + 2] != slash() by { assert(part_ok(r, i)); }
}
pub proof fn lemma_join_join(base: Seq<u8>, r: Seq<u8>, n: Seq<u8>)
    requires normal(r), entry_name(n)
    ensures path_join(path_join(base, r), n) == path_join(base, r.push(slash()) + n), solid(path_join(base, r)), solid(path_join(base, n))
{
    lemma_normal_plain(r);
    let a = path_join(base, r);
    assert(a.last() == r.last());
    assert(n[0] != slash());
    assert(n[n.len() - 1] != slash());
    let w = r.push(slash()) + n;
    assert(w[0] == r[0]);
    assert(path_join(a, n) =~= path_join(base, w));
}
pub proof fn lemma_under(base: Seq<u8>, d: Seq<u8>, p: Seq<u8>)
    requires under(base, d), name_in(d, p)
    ensures under(base, p), solid(p), solid(d), p.len() > d.len()
{
    let r = choose|r: Seq<u8>| #[trigger] normal(r) && d == path_join(base, r);
    let n = choose|n: Seq<u8>| #[trigger] entry_name(n) && p == path_join(d, n);
    lemma_join_join(base, r, n);
    lemma_normal_join(r, n);
    assert(n[0] != slash());
    assert(normal(r.push(slash()) + n));
    lemma_entry_normal(n);
}
/// what is in a folder is in no other
pub proof fn lemma_one_parent(d: Seq<u8>, e: Seq<u8>, p: Seq<u8>)
    requires name_in(d, p), name_in(e, p), solid(d), solid(e)
    ensures d == e
{
    let m = choose|n: Seq<u8>| #[trigger] entry_name(n) && p == path_join(d, n);
    let n = choose|n: Seq<u8>| #[trigger] entry_name(n) && p == path_join(e, n);
    assert(m[0] != slash() && n[0] != slash());
    assert(p == d.push(slash()) + m);
    assert(p == e.push(slash()) + n);
    if m.len() < n.len() { assert(p[d.len() as int] == slash()); assert(p[d.len() as int] == n[d.len() - e.len() - 1]); }
    if n.len() < m.len() { assert(p[e.len() as int] == slash()); assert(p[e.len() as int] == m[e.len() - d.len() - 1]); }
    assert(d =~= e) by { assert forall|i: int| 0 <= i < d.len() implies d[i] == e[i] by { assert(p[i] == d[i]); assert(p[i] == e[i]); } }
}
pub proof fn lemma_join_inj(base: Seq<u8>, r: Seq<u8>, n: Seq<u8>)
    requires path_join(base, r) == path_join(base, n), normal(r), normal(n)
    ensures r == n
{
    lemma_normal_plain(r);
    lemma_normal_plain(n);
    let k = path_join(base, r).len() - r.len();
    assert(path_join(base, r).len() == path_join(base, n).len());
    assert(r =~= n) by { assert forall|i: int| 0 <= i < r.len() implies r[i] == n[i] by { assert(path_join(base, r)[k + i] == r[i]); assert(path_join(base, n)[k + i] == n[i]); } }
}
/// the way from `b` to `p`
pub open spec fn way(p: Seq<u8>, b: Seq<u8>, r: Option<PathBuf>) -> bool { forall|n: Seq<u8>| p == #[trigger] path_join(b, n) && normal(n) ==> (r matches Some(q) && q.pb() == n) }
/// `pathdiff::diff_paths`
#[verifier::external_body]
pub fn diff_paths<P: PathLike, Q: PathLike>(p: P, base: Q) -> (r: Option<PathBuf>) ensures way(p.pb(), base.pb(), r) { unimplemented!() }
pub uninterp spec fn path_name(a: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::opaque]
pub open spec fn path_ext(a: Seq<u8>) -> Option<Seq<u8>> { match path_name(a) { Some(n) => name_ext(n), None => None } }
/// what follows the last dot, unless that is the first byte
pub open spec fn name_ext(n: Seq<u8>) -> Option<Seq<u8>> {
    let d = last_dot(n);
    if d > 0 && n != seq![0x2eu8, 0x2eu8] { Some(n.skip(d + 1)) } else { None }
}
pub open spec fn last_dot(n: Seq<u8>) -> int decreases n.len() { if n.len() == 0 { -1 } else if n.last() == 0x2e { n.len() - 1 } else { last_dot(n.drop_last()) } }
pub uninterp spec fn path_with_ext(a: Seq<u8>, e: Seq<u8>) -> Seq<u8>;
/// the parts of a path are all names: it does not start at the root, no part is `..`, and the first is not `.`
pub open spec fn plain(s: Seq<u8>) -> bool {
    !absolute(s) && !(s.len() > 0 && s[0] == 0x2e && (s.len() == 1 || s[1] == slash()))
    && forall|i: int| 0 <= i && i + 1 < s.len() && #[trigger] s[i] == 0x2e && s[i + 1] == 0x2e && (i == 0 || s[i - 1] == slash()) ==> i + 2 < s.len() && s[i + 2] != slash()
}
pub broadcast proof fn lemma_ext(a: Seq<u8>) ensures (#[trigger] path_ext(a)) is Some ==> path_name(a) is Some { reveal(path_ext); }
pub enum Component<'a> { Prefix(&'a Path), RootDir, CurDir, ParentDir, Normal(&'a Path) }
pub trait PathLike { spec fn pb(&self) -> Seq<u8>; }
impl PathLike for PathBuf { uninterp spec fn pb(&self) -> Seq<u8>; }
impl PathLike for Path { uninterp spec fn pb(&self) -> Seq<u8>; }
impl PathLike for str { open spec fn pb(&self) -> Seq<u8> { str_bytes(self) } }
impl PathLike for String { open spec fn pb(&self) -> Seq<u8> { string_bytes(*self) } }
impl<T: PathLike + ?Sized> PathLike for &T { open spec fn pb(&self) -> Seq<u8> { (**self).pb() } }
impl core::ops::Deref for PathBuf {
    type Target = Path;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Path) ensures r.pb() == self.pb() { unimplemented!() }
}
impl VClone for PathBuf { open spec fn is_clone(&self, r: Self) -> bool { *self == r } #[verifier::external_body] fn vclone(&self) -> (r: PathBuf) { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body]
    pub fn push<P: PathLike>(&mut self, p: P) ensures final(self).pb() == path_join(old(self).pb(), p.pb()) { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn join<P: PathLike>(&self, p: P) -> (r: PathBuf) ensures r.pb() == path_join(self.pb(), p.pb()) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>) ensures match r { Some(n) => path_name(self.pb()) == Some(n.pb()), None => path_name(self.pb()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(n) => path_ext(self.pb()) == Some(n.pb()), None => path_ext(self.pb()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<P: PathLike>(&self, p: P) -> (r: PathBuf) ensures r.pb() == path_with_ext(self.pb(), p.pb()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> Lossy { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.pb() == self.pb() { unimplemented!() }
    #[verifier::external_body]
    pub fn new<P: PathLike + ?Sized>(p: &P) -> (r: &Path) ensures r.pb() == p.pb() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: &Path) ensures r.pb() == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.pb() { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Path) ensures r == self { self }
    pub fn as_os_str(&self) -> (r: &Path) ensures r == self { self }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.pb().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == absolute(self.pb()) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_root(&self) -> (r: bool) ensures r == absolute(self.pb()) { unimplemented!() }
    /// a path has an absolute part only at its start, and is empty only if it has no parts
    #[verifier::external_body]
    pub fn components(&self) -> (r: crate::shim::iter::SeqIter<Component<'_>>)
        ensures (forall|i: int| 0 <= i < r.left().len() ==> (#[trigger] r.left()[i]) is Normal) == plain(self.pb()), self.pb().len() == 0 ==> r.left().len() == 0
    { unimplemented!() }
}
/// a string literal, and its bytes
#[verifier::external_body]
pub fn lit(s: &'static str, b: &[u8]) -> (r: &'static OsStr) ensures r.pb() == b@ { unimplemented!() }
/// `a == b` for two paths, or strings of the system
pub trait VEq { spec fn veq_spec(&self, o: &Self) -> bool; fn veq(&self, o: &Self) -> (r: bool) ensures r == self.veq_spec(o); }
impl VEq for Option<&OsStr> {
    open spec fn veq_spec(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.pb() == b.pb(), (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}

@mod shim::time
use crate::shim::*;
use crate::shim::world::*;
#[derive(Clone, Copy)]
pub struct Duration { pub nanos: u128 }
impl Duration {
    pub const fn from_secs(s: u64) -> (r: Duration) ensures r.nanos == s * 1_000_000_000 { Duration { nanos: s as u128 * 1_000_000_000 } }
    pub const fn from_millis(s: u64) -> (r: Duration) ensures r.nanos == s * 1_000_000 { Duration { nanos: s as u128 * 1_000_000 } }
    pub fn lt(&self, o: &Duration) -> (r: bool) ensures r == (self.nanos < o.nanos) { self.nanos < o.nanos }
}
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Instant { p: u8 }
impl Instant {
    /// when it was taken
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn now_w(world: &mut World) -> (r: Instant) ensures final(world).on(old(world)), old(world).now() <= r.at() <= final(world).now() { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed_w(&self, world: &mut World) -> (r: Duration)
        ensures final(world).on(old(world)), r.nanos >= clock(old(world).now()) - clock(self.at()), self.at() <= final(world).now()
    { unimplemented!() }
}

@mod shim::fs
use crate::shim::*;
use crate::shim::io::{self, Read, Seek, SeekFrom};
use crate::shim::path::*;
use crate::shim::world::*;
use crate::shim::iter::SeqIter;
#[verifier::external_body]
pub struct File { p: u8 }
impl File {
    pub uninterp spec fn rest_(&self) -> Seq<u8>;
    pub uninterp spec fn whole_(&self) -> Seq<u8>;
    pub uninterp spec fn fail_(&self) -> bool;
    pub uninterp spec fn patience_(&self) -> nat;
    #[verifier::external_body]
    pub fn open<P: PathLike>(p: P) -> (r: core::result::Result<File, io::Error>)
        ensures match r { Ok(f) => f.rest_() == f.whole_() && held(p.pb(), f.whole_()), Err(_) => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn open_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<File, io::Error>)
        ensures final(world).on(old(world)), match r {
            Ok(f) => f.rest_() == f.whole_() && at_some(old(world).now(), final(world).now(), p.pb(), f.whole_()),
            Err(e) => if e.skind() == io::ErrorKind::NotFound { gone(old(world).now(), final(world).now(), p.pb()) }
                else { final(world).fails() > old(world).fails() },
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn read<P: PathLike>(p: P) -> (r: core::result::Result<Vec<u8>, io::Error>) ensures r matches Ok(v) ==> v@.len() <= max_mem() && held(p.pb(), v@) { unimplemented!() }
#[verifier::external_body]
pub struct DirEntry { p: u8 }
impl DirEntry {
    pub uninterp spec fn pb(&self) -> Seq<u8>;
    /// it was a folder itself when it was listed
    pub uninterp spec fn dir_(&self) -> bool;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r.pb() == self.pb() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type_w(&self, world: &mut World) -> (r: core::result::Result<FileType, io::Error>)
        ensures final(world).on(old(world)), match r { Ok(t) => t.dir_() == self.dir_(), Err(_) => final(world).fails() > old(world).fails() }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct FileType { p: u8 }
impl FileType {
    pub uninterp spec fn dir_(&self) -> bool;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.dir_() { unimplemented!() }
}
/// how many paths there are below a folder, so short that the folder can be listed
pub uninterp spec fn tree(dir: Seq<u8>) -> nat;
pub open spec fn weigh(s: Seq<core::result::Result<DirEntry, io::Error>>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { (match s[0] { Ok(e) => tree(e.pb()), Err(_) => 0 }) + weigh(s.skip(1)) } }
/// what a folder lists is in it, under a name which is no path
pub broadcast proof fn lemma_listed(t: nat, dir: Seq<u8>, p: Seq<u8>) requires #[trigger] listed(t, dir, p) ensures name_in(dir, p) { reveal(listed); }
pub broadcast proof fn lemma_no_dir(t: nat, dir: Seq<u8>, p: Seq<u8>) requires #[trigger] no_dir(t, dir) ensures !#[trigger] listed(t, dir, p) { reveal(listed); }
/// the entries of a folder at some time, of which some may fail to be read
#[verifier::external_body]
pub fn read_dir_w<P: PathLike>(p: P, world: &mut World) -> (r: core::result::Result<SeqIter<core::result::Result<DirEntry, io::Error>>, io::Error>)
    ensures final(world).on(old(world)), match r {
        Ok(it) => (exists|t: nat| old(world).now() <= t <= final(world).now() && #[trigger] lists_all(t, p.pb(), it.left()))
            && weigh(it.left()) < tree(p.pb()) && ((exists|i: int| 0 <= i < it.left().len() && (#[trigger] it.left()[i]) is Err) ==> final(world).fails() > old(world).fails()),
        Err(e) => if e.skind() == io::ErrorKind::NotFound { exists|t: nat| old(world).now() <= t <= final(world).now() && #[trigger] no_dir(t, p.pb()) }
            else { final(world).fails() > old(world).fails() },
    }
{ unimplemented!() }
pub uninterp spec fn no_dir(t: nat, path: Seq<u8>) -> bool;
/// these are the entries of the folder, unless one of them is an error
pub open spec fn lists_all(t: nat, dir: Seq<u8>, s: Seq<core::result::Result<DirEntry, io::Error>>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches Ok(e) ==> listed(t, dir, e.pb()) && e.dir_() == is_dir(t, e.pb())))
    && (forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]) is Ok && (#[trigger] s[j]) is Ok ==> (s[i]->Ok_0).pb() != (s[j]->Ok_0).pb())
    && ((forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) ==> forall|p: Seq<u8>| #[trigger] listed(t, dir, p) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ok && (s[i]->Ok_0).pb() == p)
}
impl Read for File {
    open spec fn rest(&self) -> Seq<u8> { self.rest_() }
    open spec fn can_fail(&self) -> bool { self.fail_() }
    open spec fn broken(&self) -> bool { false }
    open spec fn patience(&self) -> nat { self.patience_() }
    open spec fn whole(&self) -> Seq<u8> { self.whole_() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
}
impl Seek for File {
    #[verifier::external_body]
    fn seek(&mut self, pos: SeekFrom) -> (r: core::result::Result<u64, io::Error>) { unimplemented!() }
}

@mod shim::dashmap
use crate::shim::*;
use crate::shim::world::*;
use crate::shim::iter::SeqIter;
/// which map it is
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapId<K, V> { k: K, v: V }
/// the map has this entry at this time
/// (an entry which was added is there from then on: nobody removes one)
#[verifier::opaque]
pub open spec fn has_at<K, V>(m: MapId<K, V>, t: nat, k: K, v: V) -> bool { exists|s: nat| s <= t && #[trigger] added(m, s, k, v) }
pub uninterp spec fn added<K, V>(m: MapId<K, V>, t: nat, k: K, v: V) -> bool;
pub broadcast proof fn lemma_has<K, V>(m: MapId<K, V>, t: nat, u: nat, k: K, v: V)
    requires #[trigger] has_at(m, t, k, v), t <= u
    ensures #[trigger] has_at(m, u, k, v)
{ reveal(has_at); }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct RefMulti<K, V> { k: K, v: V }
impl<K, V> RefMulti<K, V> {
    pub uninterp spec fn k(&self) -> K;
    pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.k() { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: &V) ensures *r == self.v() { unimplemented!() }
}
impl<K, V> core::ops::Deref for RefMulti<K, V> {
    type Target = V;
    #[verifier::external_body]
    fn deref(&self) -> (r: &V) ensures *r == self.v() { unimplemented!() }
}
/// A concurrent map. `ok` is an invariant of its entries: whatever thread puts them in proves it.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DashMap<K, V> { k: K, v: V }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<K, V> { k: K, v: V }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<K, V> { k: K, v: V }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum DashMapEntry<K, V> { Occupied(OccupiedEntry<K, V>), Vacant(VacantEntry<K, V>) }
impl<K, V> OccupiedEntry<K, V> {
    pub uninterp spec fn value(&self) -> V;
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == self.value() { unimplemented!() }
}
impl<K, V> VacantEntry<K, V> {
    pub uninterp spec fn ok(&self, v: V) -> bool;
    #[verifier::external_body]
    pub fn insert(self, v: V) requires self.ok(v) { unimplemented!() }
    pub uninterp spec fn id(&self) -> MapId<K, V>;
    pub uninterp spec fn key(&self) -> K;
    #[verifier::external_body]
    pub fn insert_w(self, v: V, world: &mut World) requires self.ok(v)
        ensures final(world).on(old(world)), has_at(self.id(), final(world).now(), self.key(), v)
    { unimplemented!() }
}
impl<K, V> DashMap<K, V> {
    pub uninterp spec fn ok(&self, k: K, v: V) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: DashMap<K, V>) ensures r.fresh() { unimplemented!() }
    /// nothing is known to anyone about `ok`
    pub uninterp spec fn fresh(&self) -> bool;
    pub uninterp spec fn id(&self) -> MapId<K, V>;
    /// all that is in the map, in some order; others may add entries but nobody removes any
    #[verifier::external_body]
    pub fn iter_w(&self, world: &mut World) -> (r: SeqIter<RefMulti<K, V>>)
        ensures final(world).on(old(world)),
            forall|i: int| 0 <= i < r.left().len() ==> self.ok((#[trigger] r.left()[i]).k(), r.left()[i].v()) && has_at(self.id(), final(world).now(), r.left()[i].k(), r.left()[i].v()),
            forall|k: K, v: V| #[trigger] has_at(self.id(), old(world).now(), k, v) ==> exists|i: int| 0 <= i < r.left().len() && (#[trigger] r.left()[i]).k() == k && r.left()[i].v() == v
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_w(&self, k: K, world: &mut World) -> (r: DashMapEntry<K, V>)
        ensures final(world).on(old(world)), match r {
            DashMapEntry::Occupied(e) => self.ok(k, e.value()) && has_at(self.id(), final(world).now(), k, e.value()),
            DashMapEntry::Vacant(e) => (forall|v: V| e.ok(v) == self.ok(k, v)) && e.id() == self.id() && e.key() == k,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&self, k: K) -> (r: DashMapEntry<K, V>)
        ensures match r { DashMapEntry::Occupied(e) => self.ok(k, e.value()), DashMapEntry::Vacant(e) => forall|v: V| e.ok(v) == self.ok(k, v) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vget(&self, k: &K) -> (r: Option<&V>) ensures r matches Some(v) ==> self.ok(*k, *v) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, k: K, v: V) -> (r: Option<V>) requires self.ok(k, v) ensures r matches Some(o) ==> self.ok(k, o) { unimplemented!() }
}

@mod shim::iter
use crate::shim::*;
use crate::shim::smallvec::SmallVec;
/// what `for` and `.into_iter()` make of a value
pub fn into_iter<T>(x: SeqIter<T>) -> (r: SeqIter<T>) ensures r == x { x }
impl<T, const N: usize> SmallVec<[T; N]> {
    pub fn into_iter(self) -> (r: SeqIter<T>) ensures r.left() == self.view() { SeqIter::of(self.v) }
}
/// an iterator over owned items
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T> { v: Vec<T> }
impl<T> SeqIter<T> {
    pub closed spec fn left(&self) -> Seq<T> { self.v@ }
    pub fn of(v: Vec<T>) -> (r: SeqIter<T>) ensures r.left() == v@ { SeqIter { v } }
    pub fn rev(self) -> (r: SeqIter<T>) ensures r.left() == self.left().reverse() {
        let mut v = self.v;
        let mut w = Vec::new();
        while v.len() > 0
            invariant v@.len() + w@.len() == self.v@.len(), v@ == self.v@.take(v@.len() as int), w@ =~= self.v@.skip(v@.len() as int).reverse()
            decreases v@.len()
        {
            match v.pop() { Some(x) => w.push(x), None => { } }
        }
        SeqIter { v: w }
    }
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|t: T| f.requires((t,))
        ensures r ==> (forall|i: int| 0 <= i < old(self).left().len() ==> f.ensures((#[trigger] old(self).left()[i],), true)),
            !r ==> (exists|i: int| 0 <= i < old(self).left().len() && f.ensures((#[trigger] old(self).left()[i],), false))
    {
        let ghost s = self.v@;
        let ghost mut k: int = 0;
        while self.v.len() > 0
            invariant forall|t: T| f.requires((t,)), s == old(self).left(), 0 <= k <= s.len(), self.v@ =~= s.skip(k), forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] s[i],), true)
            decreases self.v@.len()
        {
            let x = self.v.remove(0);
            proof { assert(x == s[k]); }
            if !f(x) { return false; }
            proof { k = k + 1; }
        }
        true
    }
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|t: T| f.requires((t,))
        ensures !r ==> (forall|i: int| 0 <= i < old(self).left().len() ==> f.ensures((#[trigger] old(self).left()[i],), false)),
            r ==> (exists|i: int| 0 <= i < old(self).left().len() && f.ensures((#[trigger] old(self).left()[i],), true))
    {
        let ghost s = self.v@;
        let ghost mut k: int = 0;
        while self.v.len() > 0
            invariant forall|t: T| f.requires((t,)), s == old(self).left(), 0 <= k <= s.len(), self.v@ =~= s.skip(k), forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] s[i],), false)
            decreases self.v@.len()
        {
            let x = self.v.remove(0);
            proof { assert(x == s[k]); }
            if f(x) { return true; }
            proof { k = k + 1; }
        }
        false
    }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() }
    {
        if self.v.len() == 0 { return None; }
        let ghost s = self.v@;
        let x = self.v.remove(0);
        proof { assert(self.v@ =~= s.skip(1)); }
        Some(x)
    }
}
/// `[T]::binary_search_by(f)`
pub open spec fn is_ord<T>(o: spec_fn(T) -> core::cmp::Ordering) -> bool { true }
/// less, then equal, then greater
pub open spec fn partitioned<T>(s: Seq<T>, o: spec_fn(T) -> core::cmp::Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (o(#[trigger] s[j]) is Less ==> o(#[trigger] s[i]) is Less) && (o(s[i]) is Greater ==> o(s[j]) is Greater)
}
pub fn slice_binary_search_by<T, F: Fn(&T) -> core::cmp::Ordering>(s: &[T], f: F) -> (r: Result<usize, usize>)
    requires forall|t: &T| f.requires((t,))
    ensures s@.len() <= usize::MAX, match r { Ok(i) => i < s@.len(), Err(i) => i <= s@.len() },
        forall|o: spec_fn(T) -> core::cmp::Ordering| #[trigger] is_ord(o) && (forall|t: &T, x: core::cmp::Ordering| f.ensures((t,), x) ==> x == o(*t)) ==> match r {
            Ok(i) => o(s@[i as int]) is Equal,
            Err(i) => partitioned(s@, o) ==> (forall|j: int| 0 <= j < i ==> o(#[trigger] s@[j]) is Less) && (forall|j: int| i <= j < s@.len() ==> o(#[trigger] s@[j]) is Greater),
        }
{
    let (mut lo, mut hi) = (0usize, s.len());
    while lo < hi
        invariant lo <= hi <= s@.len(), forall|t: &T| f.requires((t,)),
            forall|o: spec_fn(T) -> core::cmp::Ordering| #[trigger] is_ord(o) && (forall|t: &T, x: core::cmp::Ordering| f.ensures((t,), x) ==> x == o(*t)) && partitioned(s@, o)
                ==> (forall|j: int| 0 <= j < lo ==> o(#[trigger] s@[j]) is Less) && (forall|j: int| hi <= j < s@.len() ==> o(#[trigger] s@[j]) is Greater)
        decreases hi - lo
    {
        let mid = lo + (hi - lo) / 2;
        let x = f(&s[mid]);
        match x {
            core::cmp::Ordering::Equal => { return Ok(mid); }
            core::cmp::Ordering::Less => { lo = mid + 1; }
            core::cmp::Ordering::Greater => { hi = mid; }
        }
    }
    Err(lo)
}
/// `[T].iter().take_while(f)`: the items before the first for which `f` gives false
pub fn slice_take_while<'a, T, F: Fn(&&'a T) -> bool>(s: &'a [T], f: F) -> (r: SeqIter<&'a T>)
    requires forall|t: &&T| f.requires((t,))
    ensures r.left().len() <= s@.len(),
        forall|i: int| 0 <= i < r.left().len() ==> *(#[trigger] r.left()[i]) == s@[i] && f.ensures((&&s@[i],), true),
        r.left().len() < s@.len() ==> f.ensures((&&s@[r.left().len() as int],), false)
{
    let mut v: Vec<&'a T> = Vec::new();
    let mut i = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == i, forall|t: &&T| f.requires((t,)), forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == s@[j] && f.ensures((&&s@[j],), true)
        decreases s@.len() - i
    {
        let x = &s[i];
        if !f(&x) { return SeqIter::of(v); }
        v.push(x);
        i = i + 1;
    }
    SeqIter::of(v)
}
