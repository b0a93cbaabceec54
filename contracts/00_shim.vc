@// Trusted stand-ins for the standard library and the dependencies. Everything in this file with
@// `external_body`, `uninterp` or `assume_specification` is an assumption (listed in the evidence).
@mod shim
pub use crate::shim::conv::*;
pub use crate::shim::get::*;
pub use crate::shim::iter::{slice_take_while, slice_binary_search_by};
use core::ops::{Range, RangeFrom, RangeTo, RangeFull};

global size_of usize == 8;

/// No buffer in memory is larger than the x86-64 user address space allows.
pub open spec fn max_mem() -> int { 0x1_0000_0000_0000 }
/// The most that may be allocated on the strength of a declared length alone.
pub open spec fn max_fill() -> int { 0x100_0000 }
/// What is in memory fits there, and is present.
pub axiom fn axiom_in_memory(s: &[u8]) ensures s@.len() <= max_mem(), backed(s@.len() as int);
/// at least this many bytes are present: stored, decompressed or produced
#[verifier::opaque]
pub open spec fn backed(n: int) -> bool { n <= present() }
/// how many bytes there are in the longest thing that is present
pub uninterp spec fn present() -> int;
pub broadcast proof fn lemma_backed(n: int, m: int)
    requires #[trigger] backed(n), 0 <= m <= n
    ensures #[trigger] backed(m)
{ reveal(backed); }
/// what may be allocated at once beyond what there is already
pub open spec fn fair(n: int) -> bool { n <= max_fill() || backed(n) }
/// `Vec::with_capacity`
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>) requires fair(n as int) ensures r@.len() == 0 { Vec::new() }
/// `vec![x; n]`
#[verifier::external_body]
pub fn vec_of<T>(x: T, n: usize) -> (r: Vec<T>) requires fair(n as int) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
pub fn vec0<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() }
pub fn vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); v }

// ---------------------------------------------------------------- vacuity support
#[verifier::external_body]
pub fn arb() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn never<T>() -> T requires false { unimplemented!() }

// ---------------------------------------------------------------- panics are obligations
pub fn rt_assert(b: bool) requires b { }
pub fn rt_panic<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
pub fn drop_value<T>(t: T) { }

// ---------------------------------------------------------------- conversions
pub trait VFrom<T>: Sized {
    spec fn vf(t: T) -> Self;
    fn vfrom(t: T) -> (r: Self) ensures r == Self::vf(t);
}
/// `Into`
pub trait VInto<U>: Sized {
    spec fn vi(self) -> U;
    fn vinto(self) -> (r: U) ensures r == self.vi();
}
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn vi(self) -> U { U::vf(self) }
    fn vinto(self) -> (r: U) { U::vfrom(self) }
}
/// `Clone`
pub trait VClone: Sized {
    spec fn is_clone(&self, r: Self) -> bool;
    fn vclone(&self) -> (r: Self) ensures self.is_clone(r);
}
impl<T> VClone for std::sync::Arc<T> { open spec fn is_clone(&self, r: Self) -> bool { *self == r } fn vclone(&self) -> (r: Self) { self.clone() } }
impl VClone for String { open spec fn is_clone(&self, r: Self) -> bool { *self == r } fn vclone(&self) -> (r: Self) { self.clone() } }
impl<A: VClone, B: VClone> VClone for (A, B) {
    open spec fn is_clone(&self, r: Self) -> bool { self.0.is_clone(r.0) && self.1.is_clone(r.1) }
    fn vclone(&self) -> (r: Self) { (self.0.vclone(), self.1.vclone()) }
}
impl<A: VClone> VClone for Option<A> {
    open spec fn is_clone(&self, r: Self) -> bool { match (*self, r) { (Some(a), Some(b)) => a.is_clone(b), (None, None) => true, _ => false } }
    fn vclone(&self) -> (r: Self) { match self { Some(a) => Some(a.vclone()), None => None } }
}
impl<T: Copy> VClone for core::ops::Range<T> {
    open spec fn is_clone(&self, r: Self) -> bool { r == *self }
    fn vclone(&self) -> (r: Self) { core::ops::Range { start: self.start, end: self.end } }
}
impl<T> VFrom<T> for Option<T> {
    open spec fn vf(t: T) -> Option<T> { Some(t) }
    fn vfrom(t: T) -> (r: Option<T>) { Some(t) }
}
impl<T> VFrom<T> for T {
    open spec fn vf(t: T) -> T { t }
    fn vfrom(t: T) -> (r: T) { t }
}

pub trait VTryFrom<T>: Sized {
    type E;
    spec fn vt(t: T) -> Option<Self>;
    fn vtry_from(t: T) -> (r: Result<Self, Self::E>)
        ensures match r { Ok(v) => Self::vt(t) == Some(v), Err(_) => Self::vt(t) is None };
}
pub trait VUnwrap: Sized {
    type T;
    spec fn vok(&self) -> bool;
    spec fn vval(&self) -> Self::T;
    fn vunwrap(self) -> (r: Self::T) requires self.vok() ensures r == self.vval();
}
pub trait VCmp {
    spec fn vord(&self, o: &Self) -> core::cmp::Ordering;
    fn vcmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures r == self.vord(o);
}

// ---------------------------------------------------------------- indexing
pub trait Idx<I> {
    type Output: ?Sized;
    spec fn idx_req(&self, i: I) -> bool;
    spec fn idx_ens(&self, i: I, r: &Self::Output) -> bool;
    fn idx(&self, i: I) -> (r: &Self::Output)
        requires self.idx_req(i),
        ensures self.idx_ens(i, r);
}
pub trait IdxMut<I> {
    spec fn idxm_req(&self, i: I) -> bool;
    spec fn idxm_pre(&self, i: I) -> Seq<u8>;
    spec fn idxm_post(&self, i: I, o: Seq<u8>, f: &Self) -> bool;
    fn idx_mut(&mut self, i: I) -> (r: &mut [u8])
        requires old(self).idxm_req(i),
        ensures r@ == old(self).idxm_pre(i), r@.len() <= max_mem(),
            final(r)@.len() == r@.len() ==> old(self).idxm_post(i, final(r)@, final(self));
}
impl<T> Idx<usize> for [T] {
    type Output = T;
    open spec fn idx_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn idx_ens(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    fn idx(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T> Idx<Range<usize>> for [T] {
    type Output = [T];
    open spec fn idx_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self@.len() }
    open spec fn idx_ens(&self, i: Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    fn idx(&self, i: Range<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> Idx<RangeFrom<usize>> for [T] {
    type Output = [T];
    open spec fn idx_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self@.len() }
    open spec fn idx_ens(&self, i: RangeFrom<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, self@.len() as int) }
    fn idx(&self, i: RangeFrom<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> Idx<RangeTo<usize>> for [T] {
    type Output = [T];
    open spec fn idx_req(&self, i: RangeTo<usize>) -> bool { i.end <= self@.len() }
    open spec fn idx_ens(&self, i: RangeTo<usize>, r: &[T]) -> bool { r@ == self@.subrange(0, i.end as int) }
    fn idx(&self, i: RangeTo<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> Idx<Range<usize>> for Vec<T> {
    type Output = [T];
    open spec fn idx_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self@.len() }
    open spec fn idx_ens(&self, i: Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    fn idx(&self, i: Range<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> Idx<RangeFrom<usize>> for Vec<T> {
    type Output = [T];
    open spec fn idx_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self@.len() }
    open spec fn idx_ens(&self, i: RangeFrom<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, self@.len() as int) }
    fn idx(&self, i: RangeFrom<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> Idx<usize> for Vec<T> {
    type Output = T;
    open spec fn idx_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn idx_ens(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    fn idx(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T, const N: usize> Idx<usize> for [T; N] {
    type Output = T;
    open spec fn idx_req(&self, i: usize) -> bool { i < N }
    open spec fn idx_ens(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    fn idx(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T, const N: usize> Idx<RangeTo<usize>> for [T; N] {
    type Output = [T];
    open spec fn idx_req(&self, i: RangeTo<usize>) -> bool { i.end <= N }
    open spec fn idx_ens(&self, i: RangeTo<usize>, r: &[T]) -> bool { r@ == self@.subrange(0, i.end as int) }
    fn idx(&self, i: RangeTo<usize>) -> (r: &[T]) { &self[i] }
}
impl<const N: usize> IdxMut<RangeTo<usize>> for [u8; N] {
    open spec fn idxm_req(&self, i: RangeTo<usize>) -> bool { i.end <= N }
    open spec fn idxm_pre(&self, i: RangeTo<usize>) -> Seq<u8> { self@.subrange(0, i.end as int) }
    open spec fn idxm_post(&self, i: RangeTo<usize>, o: Seq<u8>, f: &Self) -> bool { f@ == o + self@.subrange(i.end as int, N as int) }
    #[verifier::external_body]
    fn idx_mut(&mut self, i: RangeTo<usize>) -> (r: &mut [u8]) { &mut self[i] }
}

// ---------------------------------------------------------------- std functions
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] decreases a@.len() - i {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    assert(a@ =~= b@);
    true
}
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }

pub open spec fn starts_with_spec<T>(s: Seq<T>, p: Seq<T>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }

/// `[u8].iter().position(f)`
pub fn slice_position<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|b: &u8| f.requires((b,)),
    ensures match r {
        Some(i) => i < s@.len() && f.ensures((&s@[i as int],), true)
            && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((&#[trigger] s@[j],), false),
    }
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|b: &u8| f.requires((b,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), false)
        decreases s@.len() - i
    { if f(&s[i]) { return Some(i); } i = i + 1; }
    None
}

// ---------------------------------------------------------------- text
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn dec_value(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { dec_value(s.drop_last()) * 10 + (s.last() - 48) as nat }
}
/// What usize::from_str accepts: an optional `+`, then one or more digits, with a value that fits.
pub open spec fn dec_digits(s: Seq<u8>) -> Seq<u8> { if s.len() > 1 && s[0] == 43 { s.skip(1) } else { s } }
pub open spec fn dec_parse(s: Seq<u8>) -> Option<usize> {
    let d = dec_digits(s);
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_digit(d[i])) && dec_value(d) <= usize::MAX { Some(dec_value(d) as usize) } else { None }
}
pub open spec fn radix_digit(b: u8, radix: nat) -> Option<nat> {
    let v = if 48 <= b <= 57 { (b - 48) as nat } else if 97 <= b <= 122 { (b - 87) as nat } else if 65 <= b <= 90 { (b - 55) as nat } else { 99 };
    if v < radix { Some(v) } else { None }
}
pub open spec fn radix_value(s: Seq<u8>, radix: nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { radix_value(s.drop_last(), radix) * radix + radix_digit(s.last(), radix).unwrap_or(0) }
}
pub open spec fn radix_parse(s: Seq<u8>, radix: nat, max: nat) -> Option<nat> {
    let d = dec_digits(s);
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> radix_digit(d[i], radix) is Some) && radix_value(d, radix) <= max { Some(radix_value(d, radix)) } else { None }
}
pub open spec fn str_bytes(s: &str) -> Seq<u8> { vstd::string::StringSliceAdditionalSpecFns::spec_bytes(s) }
pub open spec fn string_bytes(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
/// `.split_at(n)`: for a string, not inside of a character
pub trait VSplitAt { fn vsplit_at(&self, n: usize) -> (r: (&Self, &Self)) requires self.may_split(n as int) ensures self.halves(n as int, r.0, r.1); spec fn may_split(&self, n: int) -> bool; spec fn halves(&self, n: int, a: &Self, b: &Self) -> bool; }
impl VSplitAt for str {
    open spec fn may_split(&self, n: int) -> bool { ascii(str_bytes(self)) && n <= str_bytes(self).len() }
    open spec fn halves(&self, n: int, a: &str, b: &str) -> bool { str_bytes(a) == str_bytes(self).subrange(0, n) && str_bytes(b) == str_bytes(self).subrange(n, str_bytes(self).len() as int) }
    #[verifier::external_body]
    fn vsplit_at(&self, n: usize) -> (r: (&str, &str)) { unimplemented!() }
}
impl VSplitAt for [u8] {
    open spec fn may_split(&self, n: int) -> bool { n <= self@.len() }
    open spec fn halves(&self, n: int, a: &[u8], b: &[u8]) -> bool { a@ == self@.subrange(0, n) && b@ == self@.subrange(n, self@.len() as int) }
    fn vsplit_at(&self, n: usize) -> (r: (&[u8], &[u8])) { (&self[..n], &self[n..]) }
}
pub struct ParseIntError { e: u8 }
proof fn lemma_dec_radix(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> is_digit(s[i])
    ensures dec_value(s) == radix_value(s, 10)
    decreases s.len()
{
    if s.len() > 0 {
        assert(is_digit(s[s.len() - 1]));
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(s.drop_last()[i]) by { assert(is_digit(s[i])); }
        lemma_dec_radix(s.drop_last());
        assert(radix_digit(s.last(), 10) == Some((s.last() - 48) as nat));
    }
}
proof fn lemma_radix_grows(s: Seq<u8>, n: int, radix: nat)
    requires 0 <= n <= s.len(), radix >= 1
    ensures radix_value(s.take(n), radix) <= radix_value(s, radix)
    decreases s.len() - n
{
    if n == s.len() { assert(s.take(n) =~= s); }
    else {
        lemma_radix_grows(s, n + 1, radix);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        let v = radix_value(s.take(n), radix);
        assert(v <= v * radix) by (nonlinear_arith) requires radix >= 1, v >= 0;
    }
}
fn radix_digit_of(b: u8, radix: u64) -> (r: Option<u64>)
    requires 2 <= radix <= 36
    ensures match r { Some(v) => radix_digit(b, radix as nat) == Some(v as nat) && v < radix, None => radix_digit(b, radix as nat) is None }
{
    let v: u64 = if 48 <= b && b <= 57 { (b - 48) as u64 } else if 97 <= b && b <= 122 { (b - 87) as u64 } else if 65 <= b && b <= 90 { (b - 55) as u64 } else { 99 };
    if v < radix { Some(v) } else { None }
}
/// the value of a number of digits
fn number_of(s: &str, radix: u64, max: u64) -> (r: Option<u64>)
    requires 2 <= radix <= 36
    ensures match r { Some(v) => radix_parse(str_bytes(s), radix as nat, max as nat) == Some(v as nat), None => radix_parse(str_bytes(s), radix as nat, max as nat) is None }
{
    let b = s.as_bytes();
    let mut i = if b.len() > 1 && b[0] == 43 { 1 } else { 0 };
    let ghost d = dec_digits(b@);
    let ghost k = i as int;
    proof { assert(d =~= b@.skip(k)); }
    let len = b.len();
    if i == len { return None; }
    let mut v: u64 = 0;
    while i < len
        invariant k <= i <= len, len == b@.len(), d == b@.skip(k), d == dec_digits(b@), d.len() == len - k, d.len() > 0, 2 <= radix <= 36, v <= max, b@ == str_bytes(s),
            v == radix_value(d.take(i - k), radix as nat), forall|j: int| 0 <= j < i - k ==> radix_digit(#[trigger] d[j], radix as nat) is Some
        decreases len - i
    {
        proof {
            assert(b@[i as int] == d[i - k]);
            assert(d.take(i - k + 1).drop_last() =~= d.take(i - k));
            assert(d.take(i - k + 1).last() == d[i - k]);
        }
        let g = match radix_digit_of(b[i], radix) { Some(g) => g, None => {
            proof { assert(radix_digit(d[i - k], radix as nat) is None); }
            return None
        } };
        proof { assert((v as int) * (radix as int) <= 0xffff_ffff_ffff_ffff * 36) by (nonlinear_arith) requires 0 <= v as int <= 0xffff_ffff_ffff_ffff, 0 <= radix as int <= 36; }
        let w: u128 = (v as u128) * (radix as u128) + (g as u128);
        proof {
            assert(w as int == radix_value(d.take(i - k + 1), radix as nat));
            lemma_radix_grows(d, i - k + 1, radix as nat);
        }
        if w > max as u128 { return None; }
        v = w as u64;
        i = i + 1;
    }
    proof { assert(d.take(len - k) =~= d); }
    Some(v)
}
pub fn usize_from_str(s: &str) -> (r: Result<usize, ParseIntError>)
    ensures match r { Ok(v) => dec_parse(str_bytes(s)) == Some(v), Err(_) => dec_parse(str_bytes(s)) is None }
{
    proof {
        let d = dec_digits(str_bytes(s));
        assert forall|i: int| 0 <= i < d.len() implies (radix_digit(d[i], 10) is Some <==> is_digit(d[i])) by { }
        if forall|i: int| 0 <= i < d.len() ==> is_digit(d[i]) { lemma_dec_radix(d); }
    }
    match number_of(s, 10, usize::MAX as u64) { Some(v) => Ok(v as usize), None => Err(ParseIntError { e: 0 }) }
}
pub fn u16_from_str_radix(s: &str, radix: u32) -> (r: Result<u16, ParseIntError>)
    requires 2 <= radix <= 36
    ensures match r { Ok(v) => radix_parse(str_bytes(s), radix as nat, 0xffff) == Some(v as nat), Err(_) => radix_parse(str_bytes(s), radix as nat, 0xffff) is None }
{ match number_of(s, radix as u64, 0xffff) { Some(v) => Ok(v as u16), None => Err(ParseIntError { e: 0 }) } }
pub fn u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
    requires 2 <= radix <= 36
    ensures match r { Ok(v) => radix_parse(str_bytes(s), radix as nat, 0xffff_ffff) == Some(v as nat), Err(_) => radix_parse(str_bytes(s), radix as nat, 0xffff_ffff) is None }
{ match number_of(s, radix as u64, 0xffff_ffff) { Some(v) => Ok(v as u32), None => Err(ParseIntError { e: 0 }) } }
/// what is there can be counted
pub broadcast proof fn lemma_slice_fits(s: &[u8]) ensures #[trigger] s@.len() <= usize::MAX { let n = vstd::slice::spec_slice_len(s); vstd::slice::axiom_spec_len(s); }
pub broadcast proof fn lemma_bytes_fits(b: &crate::shim::bytes::Bytes) ensures #[trigger] b.view().len() <= usize::MAX { vstd::std_specs::vec::axiom_spec_len(&b.d); }
pub broadcast group fits { lemma_slice_fits, lemma_bytes_fits }
pub open spec fn is_utf8(s: Seq<u8>) -> bool { vstd::utf8::valid_utf8(s) }
/// ASCII is UTF-8.
pub proof fn lemma_ascii_utf8(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] < 128
    ensures is_utf8(s)
{
    let c = Seq::new(s.len(), |i: int| s[i] as char);
    assert(vstd::utf8::is_ascii_chars(c));
    vstd::utf8::is_ascii_chars_encode_utf8(c);
    assert(vstd::utf8::encode_utf8(c) =~= s);
    vstd::utf8::encode_utf8_valid_utf8(c);
}
#[verifier::external_body]
pub struct Lossy { d: u8 }
#[verifier::external_body]
pub fn from_utf8_lossy(b: &[u8]) -> Lossy { unimplemented!() }
impl Lossy {
    #[verifier::external_body]
    pub fn into_owned(self) -> String { unimplemented!() }
}

// ---------------------------------------------------------------- big endian
pub open spec fn be32(s: Seq<u8>) -> u32 {
    ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32)
}
pub fn be_read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4 ensures r == be32(b@) { ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | (b[3] as u32) }
#[verifier::external_body]
pub fn vsize_of<T: crate::shim::zerocopy::FromBytes>() -> (r: usize) ensures r == T::zsize() { unimplemented!() }
#[verifier::external_body]
pub fn valign_of<T: crate::shim::zerocopy::FromBytes>() -> (r: usize) ensures r == T::zalign() { unimplemented!() }

pub fn bytes_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), v@ =~= s@.take(i as int) decreases s@.len() - i { v.push(s[i]); i = i + 1; }
    v
}
// ---------------------------------------------------------------- AsRef<[u8]>
pub trait ByteView {
    spec fn bv(&self) -> Seq<u8>;
}
impl ByteView for [u8] {
    open spec fn bv(&self) -> Seq<u8> { self@ }
}
pub trait AsRef<T: ?Sized + ByteView> {
    spec fn bview(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &T) ensures r.bv() == self.bview(), self.bview().len() <= max_mem(), backed(self.bview().len() as int);
}
impl AsRef<[u8]> for &[u8] {
    open spec fn bview(&self) -> Seq<u8> { self@ }
    fn as_ref(&self) -> (r: &[u8]) { proof { axiom_in_memory(*self); } *self }
}
impl AsRef<[u8]> for crate::shim::bytes::Bytes {
    open spec fn bview(&self) -> Seq<u8> { self.view() }
    fn as_ref(&self) -> (r: &[u8]) { let s = self.d.as_slice(); proof { axiom_in_memory(s); } s }
}
impl AsRef<[u8]> for crate::shim::bytes::BytesMut {
    open spec fn bview(&self) -> Seq<u8> { self.view() }
    fn as_ref(&self) -> (r: &[u8]) { let s = self.d.as_slice(); proof { axiom_in_memory(s); } s }
}

@mod shim::str
use crate::shim::*;
#[verifier::external_body]
pub struct Utf8Error { e: u8 }
#[verifier::external_body]
pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures match r { Ok(s) => is_utf8(b@) && str_bytes(s) == b@, Err(_) => !is_utf8(b@) }
{ unimplemented!() }

@mod shim::memchr
use crate::shim::*;
pub open spec fn first_at(s: Seq<u8>, c: u8, i: int) -> bool {
    0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c
}
pub open spec fn absent(s: Seq<u8>, c: u8) -> bool { forall|j: int| 0 <= j < s.len() ==> s[j] != c }
pub fn memchr(c: u8, s: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => first_at(s@, c, i as int), None => absent(s@, c) }
{
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), forall|j: int| 0 <= j < i ==> s@[j] != c decreases s@.len() - i
    { if s[i] == c { return Some(i); } i = i + 1; }
    None
}

/// the position of the first `c`
pub open spec fn find(s: Seq<u8>, c: u8) -> Option<int> {
    if exists|i: int| first_at(s, c, i) { Some(choose|i: int| first_at(s, c, i)) } else { None }
}
pub broadcast proof fn lemma_find_some(s: Seq<u8>, c: u8, i: int)
    requires #[trigger] first_at(s, c, i)
    ensures find(s, c) == Some(i)
{
    let k = find(s, c)->0;
    assert(first_at(s, c, k));
    if k < i { assert(s[k] != c); }
    if i < k { assert(s[i] != c); }
}
pub broadcast proof fn lemma_find_none(s: Seq<u8>, c: u8)
    requires #[trigger] absent(s, c)
    ensures find(s, c) is None
{
    if exists|i: int| first_at(s, c, i) { let i = choose|i: int| first_at(s, c, i); assert(s[i] != c); }
}
pub broadcast group find_lemmas { lemma_find_some, lemma_find_none }

@mod shim::bstr
use crate::shim::*;
pub type BStr = [u8];
pub trait ByteSlice { 
    spec fn bsv(&self) -> Seq<u8>;
    fn as_bstr(&self) -> (r: &[u8]) ensures r@ == self.bsv();
    fn to_str(&self) -> (r: Result<&str, crate::shim::str::Utf8Error>) ensures match r { Ok(s) => is_utf8(self.bsv()) && str_bytes(s) == self.bsv(), Err(_) => !is_utf8(self.bsv()) };
}
impl ByteSlice for [u8] {
    open spec fn bsv(&self) -> Seq<u8> { self@ }
    fn as_bstr(&self) -> (r: &[u8]) { self }
    #[verifier::external_body]
    fn to_str(&self) -> (r: Result<&str, crate::shim::str::Utf8Error>) { unimplemented!() }
}

@mod shim::sync
use crate::shim::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T: ?Sized> { p: Box<T> }
impl<T> Arc<[T]> {
    pub uninterp spec fn view(&self) -> Seq<T>;
}
pub uninterp spec fn arc_of<T>(s: Seq<T>) -> Arc<[T]>;
pub broadcast axiom fn axiom_arc_of<T>(s: Seq<T>) ensures (#[trigger] arc_of(s)).view() == s;
impl<T> VFrom<&[T]> for Arc<[T]> {
    open spec fn vf(t: &[T]) -> Arc<[T]> { arc_of(t@) }
    #[verifier::external_body]
    fn vfrom(t: &[T]) -> (r: Arc<[T]>) { unimplemented!() }
}
impl<T> VFrom<Vec<T>> for Arc<[T]> {
    open spec fn vf(t: Vec<T>) -> Arc<[T]> { arc_of(t@) }
    #[verifier::external_body]
    fn vfrom(t: Vec<T>) -> (r: Arc<[T]>) { unimplemented!() }
}
/// `.iter().map(f)` and `.iter().cloned().map(f)`: the items in order, each passed to `f`
pub trait IterMap<T> {
    spec fn items(&self) -> Seq<T>;
    fn iter_cloned_map<U, F: Fn(T) -> U>(&self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)),
        ensures r@.len() == self.items().len(),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.items()[i],), #[trigger] r@[i]);
    fn iter_map<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((& #[trigger] self.items()[i],)),
        ensures r@.len() == self.items().len(),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self.items()[i],), #[trigger] r@[i]);
}
impl<T> IterMap<T> for Arc<[T]> {
    open spec fn items(&self) -> Seq<T> { self.view() }
    #[verifier::external_body]
    fn iter_cloned_map<U, F: Fn(T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body]
    fn iter_map<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
}

impl<T> IterMap<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_cloned_map<U, F: Fn(T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
    fn iter_map<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { let mut v: Vec<U> = Vec::new(); let mut i = 0; while i < self.len() invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < self.items().len() ==> f.requires((&#[trigger] self.items()[k],)), forall|k: int| 0 <= k < i ==> f.ensures((&self@[k],), #[trigger] v@[k]) decreases self@.len() - i { { let ghost y = self.items()[i as int]; } v.push(f(&self[i])); i = i + 1; } v }
}
impl<T> IterMap<T> for [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_cloned_map<U, F: Fn(T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
    fn iter_map<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { let mut v: Vec<U> = Vec::new(); let mut i = 0; while i < self.len() invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < self.items().len() ==> f.requires((&#[trigger] self.items()[k],)), forall|k: int| 0 <= k < i ==> f.ensures((&self@[k],), #[trigger] v@[k]) decreases self@.len() - i { { let ghost y = self.items()[i as int]; } v.push(f(&self[i])); i = i + 1; } v }
}
/// `collect` of what an iterator gives
pub trait FromItems<U>: Sized { spec fn made_of(&self, s: Seq<U>) -> bool; fn from_items(v: Vec<U>) -> (r: Self) ensures r.made_of(v@); }
impl<U> FromItems<U> for Vec<U> {
    open spec fn made_of(&self, s: Seq<U>) -> bool { self@ == s }
    fn from_items(v: Vec<U>) -> (r: Vec<U>) { v }
}
/// the first error, or all of the values
impl<U, E> FromItems<core::result::Result<U, E>> for core::result::Result<Vec<U>, E> {
    open spec fn made_of(&self, s: Seq<core::result::Result<U, E>>) -> bool {
        match self {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<U, E>(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == Err::<U, E>(*e),
        }
    }
    fn from_items(v: Vec<core::result::Result<U, E>>) -> (r: core::result::Result<Vec<U>, E>) {
        let ghost all = v@;
        let mut v = v;
        let mut o: Vec<U> = Vec::new();
        while v.len() > 0
            invariant o@.len() + v@.len() == all.len(), v@ == all.skip(o@.len() as int), forall|k: int| 0 <= k < o@.len() ==> all[k] == Ok::<U, E>(#[trigger] o@[k])
            decreases v@.len()
        {
            let ghost n = o@.len() as int;
            let x = v.remove(0);
            assert(x == all[n]);
            match x { Ok(u) => { o.push(u); assert(v@ =~= all.skip(n + 1)); } Err(e) => { return Err(e); } }
        }
        Ok(o)
    }
}

@mod shim::smallvec
use crate::shim::*;
use crate::shim::sync::IterMap;
/// the elements of an array type
pub trait Arr { type Item; }
impl<T, const N: usize> Arr for [T; N] { type Item = T; }
pub struct SmallVec<A: Arr> { pub v: Vec<A::Item> }
impl<T, const N: usize> SmallVec<[T; N]> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn new() -> (r: Self) ensures r.view() == Seq::<T>::empty() { SmallVec { v: Vec::new() } }
    pub fn push(&mut self, t: T) ensures final(self).view() == old(self).view().push(t) { self.v.push(t) }
    pub fn len(&self) -> (r: usize) ensures r == self.view().len() { self.v.len() }
}
impl<T, const N: usize> IterMap<T> for SmallVec<[T; N]> {
    open spec fn items(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body]
    fn iter_cloned_map<U, F: Fn(T) -> U>(&self, f: F) -> (r: Vec<U>) { unimplemented!() }
    fn iter_map<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Vec<U>) { self.v.iter_map(f) }
}

@mod shim::bytes
use crate::shim::*;
use core::ops::{Range, RangeFrom, RangeTo, RangeFull};
pub struct Bytes { pub d: Vec<u8> }
impl Bytes {
    pub open spec fn view(&self) -> Seq<u8> { self.d@ }
    pub fn len(&self) -> (r: usize) ensures r == self.view().len(), r <= max_mem() { let s = self.d.as_slice(); proof { axiom_in_memory(s); } s.len() }
}
impl VClone for Bytes {
    open spec fn is_clone(&self, r: Bytes) -> bool { r.view() == self.view() }
    fn vclone(&self) -> (r: Bytes) { Bytes { d: bytes_to_vec(self.d.as_slice()) } }
}
/// `bytes::buf::ext::Reader`: what is after `at`
pub struct Reader<B> { pub b: B, pub at: usize }
pub mod buf { pub mod ext { pub use crate::shim::bytes::{BufExt, Reader}; } }
pub trait BufExt: Sized { fn reader(self) -> (r: Reader<Self>); }
impl Reader<Bytes> {
    pub open spec fn rest_(&self) -> Seq<u8> { if self.at <= self.b.view().len() { self.b.view().skip(self.at as int) } else { Seq::empty() } }
}
impl BufExt for Bytes {
    fn reader(self) -> (r: Reader<Bytes>) ensures r.rest_() == self.view() { let r = Reader { b: self, at: 0 }; assert(r.rest_() =~= self.view()); r }
}
impl crate::shim::io::Read for Reader<Bytes> {
    open spec fn rest(&self) -> Seq<u8> { self.rest_() }
    open spec fn can_fail(&self) -> bool { false }
    open spec fn broken(&self) -> bool { false }
    open spec fn patience(&self) -> nat { 0 }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, crate::shim::io::Error>) {
        if self.at > self.b.d.len() { return Ok(0); }
        let n = crate::shim::io::copy_to(&self.b.d.as_slice()[self.at..], buf);
        self.at = self.at + n;
        assert(self.rest_() =~= old(self).rest_().subrange(n as int, old(self).rest_().len() as int));
        Ok(n)
    }
}
impl VFrom<Vec<u8>> for Bytes {
    open spec fn vf(t: Vec<u8>) -> Bytes { Bytes { d: t } }
    fn vfrom(t: Vec<u8>) -> (r: Bytes) { Bytes { d: t } }
}
impl core::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> (r: &[u8]) ensures r@ == self.view() { self.d.as_slice() }
}
impl Idx<Range<usize>> for Bytes {
    type Output = [u8];
    open spec fn idx_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self.view().len() }
    open spec fn idx_ens(&self, i: Range<usize>, r: &[u8]) -> bool { r@ == self.view().subrange(i.start as int, i.end as int) }
    fn idx(&self, i: Range<usize>) -> (r: &[u8]) { &self.d.as_slice()[i] }
}
impl Idx<RangeTo<usize>> for Bytes {
    type Output = [u8];
    open spec fn idx_req(&self, i: RangeTo<usize>) -> bool { i.end <= self.view().len() }
    open spec fn idx_ens(&self, i: RangeTo<usize>, r: &[u8]) -> bool { r@ == self.view().subrange(0, i.end as int) }
    fn idx(&self, i: RangeTo<usize>) -> (r: &[u8]) { &self.d.as_slice()[i] }
}
impl Idx<RangeFrom<usize>> for Bytes {
    type Output = [u8];
    open spec fn idx_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self.view().len() }
    open spec fn idx_ens(&self, i: RangeFrom<usize>, r: &[u8]) -> bool { r@ == self.view().subrange(i.start as int, self.view().len() as int) }
    fn idx(&self, i: RangeFrom<usize>) -> (r: &[u8]) { &self.d.as_slice()[i] }
}
pub struct BytesMut { pub d: Vec<u8> }
impl BytesMut {
    pub open spec fn view(&self) -> Seq<u8> { self.d@ }
    pub fn new() -> (r: BytesMut) ensures r.view().len() == 0 { BytesMut { d: Vec::new() } }
    /// `capacity` bytes are allocated at once: a length read from the input must not end up here.
    pub fn with_capacity(capacity: usize) -> (r: BytesMut) requires fair(capacity as int) ensures r.view().len() == 0 { BytesMut { d: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self.view().len(), r <= max_mem() { let s = self.d.as_slice(); proof { axiom_in_memory(s); } s.len() }
    /// Allocates: growing the buffer by an unbounded amount at once is what a declared length must
    /// not be able to do.
    pub fn resize(&mut self, n: usize, b: u8)
        requires n <= old(self).view().len() + max_fill() || backed(n as int),
        ensures final(self).view().len() == n, n <= max_mem(),
            n >= old(self).view().len() ==> final(self).view().subrange(0, old(self).view().len() as int) == old(self).view(),
            n < old(self).view().len() ==> final(self).view() == old(self).view().subrange(0, n as int)
    {
        if n < self.d.len() { self.d.truncate(n); }
        while self.d.len() < n
            invariant self.d@.len() <= n || n < old(self).d@.len(), self.d@.len() >= n || self.d@.len() >= old(self).d@.len(),
                n < old(self).d@.len() ==> self.d@ == old(self).d@.take(n as int),
                n >= old(self).d@.len() ==> self.d@.take(old(self).d@.len() as int) == old(self).d@
            decreases n - self.d@.len()
        { self.d.push(b); assert(n >= old(self).d@.len() ==> self.d@.take(old(self).d@.len() as int) =~= old(self).d@); }
        let s = self.d.as_slice();
        proof { axiom_in_memory(s); }
    }
    pub fn reserve(&mut self, n: usize)
        requires n <= old(self).view().len() + max_fill() || backed(n as int),
        ensures final(self).view() == old(self).view()
    { }
    pub fn truncate(&mut self, n: usize)
        ensures n <= old(self).view().len() ==> final(self).view() == old(self).view().subrange(0, n as int),
            n > old(self).view().len() ==> final(self).view() == old(self).view()
    { if n <= self.d.len() { self.d.truncate(n); } }
    pub fn advance(&mut self, n: usize)
        requires n <= old(self).view().len(),
        ensures final(self).view() == old(self).view().subrange(n as int, old(self).view().len() as int)
    { let t = self.d.split_off(n); self.d = t; }
    pub fn clear(&mut self) ensures final(self).view().len() == 0 { self.d.clear(); }
    pub fn extend_from_slice(&mut self, s: &[u8]) ensures final(self).view() == old(self).view() + s@, final(self).view().len() <= max_mem() {
        let mut i = 0;
        while i < s.len() invariant i <= s@.len(), self.d@ =~= old(self).d@ + s@.take(i as int) decreases s@.len() - i { self.d.push(s[i]); i = i + 1; }
        let s = self.d.as_slice();
        proof { axiom_in_memory(s); }
    }
    pub fn freeze(self) -> (r: Bytes) ensures r.view() == self.view() { Bytes { d: self.d } }
}
impl Idx<Range<usize>> for BytesMut {
    type Output = [u8];
    open spec fn idx_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self.view().len() }
    open spec fn idx_ens(&self, i: Range<usize>, r: &[u8]) -> bool { r@ == self.view().subrange(i.start as int, i.end as int) }
    fn idx(&self, i: Range<usize>) -> (r: &[u8]) { &self.d.as_slice()[i] }
}
impl Idx<RangeFrom<usize>> for BytesMut {
    type Output = [u8];
    open spec fn idx_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self.view().len() }
    open spec fn idx_ens(&self, i: RangeFrom<usize>, r: &[u8]) -> bool { r@ == self.view().subrange(i.start as int, self.view().len() as int) }
    fn idx(&self, i: RangeFrom<usize>) -> (r: &[u8]) { &self.d.as_slice()[i] }
}
impl IdxMut<RangeFrom<usize>> for BytesMut {
    open spec fn idxm_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self.view().len() }
    open spec fn idxm_pre(&self, i: RangeFrom<usize>) -> Seq<u8> { self.view().subrange(i.start as int, self.view().len() as int) }
    open spec fn idxm_post(&self, i: RangeFrom<usize>, o: Seq<u8>, f: &Self) -> bool { f.view() == self.view().subrange(0, i.start as int) + o }
    #[verifier::external_body]
    fn idx_mut(&mut self, i: RangeFrom<usize>) -> (r: &mut [u8]) { unimplemented!() }
}

@mod shim::io
use crate::shim::*;
#[verifier::external_body]
pub struct Error { e: u8 }
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ErrorKind { NotFound, AlreadyExists, Interrupted, InvalidInput, UnexpectedEof, Other, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, WouldBlock, InvalidData, TimedOut, WriteZero, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StorageFull, FileTooLarge, Deadlock, Unsupported, OutOfMemory }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.skind() { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
/// A source of bytes. `rest` is what it has yet to deliver; how it cuts that into reads is up to
/// it. `broken` sources fail for good once `rest` is delivered, and never report the end of the
/// data. `patience` bounds how often in a row it reports Interrupted (an assumption: a source that
/// reports Interrupted for ever makes any retrying reader loop for ever).
pub trait Read {
    spec fn rest(&self) -> Seq<u8>;
    spec fn can_fail(&self) -> bool;
    spec fn broken(&self) -> bool;
    spec fn patience(&self) -> nat;
    /// identifies the source; for a file, all of its contents
    spec fn whole(&self) -> Seq<u8>;
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>)
        requires old(buf)@.len() <= max_mem(),
        ensures final(buf)@.len() == old(buf)@.len(),
            final(self).can_fail() == old(self).can_fail(),
            final(self).broken() == old(self).broken(),
            final(self).whole() == old(self).whole(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).rest().len()
                    && final(self).rest() == old(self).rest().subrange(n as int, old(self).rest().len() as int)
                    && (forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == old(self).rest()[i])
                    && (n == 0 ==> old(buf)@.len() == 0 || (old(self).rest().len() == 0 && !old(self).broken())),
                Err(e) => final(self).rest() == old(self).rest()
                    && (e.skind() == ErrorKind::Interrupted ==> final(self).patience() < old(self).patience())
                    && (e.skind() != ErrorKind::Interrupted ==> old(self).can_fail()),
            };
}

pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// where a seek in `len` bytes leads to, if that is known and not before the start
pub open spec fn seek_pos(p: SeekFrom, len: int) -> Option<int> {
    match p {
        SeekFrom::Start(n) => Some(n as int),
        SeekFrom::End(n) => if len + n >= 0 { Some(len + n) } else { None },
        SeekFrom::Current(_) => None,
    }
}
pub open spec fn suffix(s: Seq<u8>, at: int) -> Seq<u8> { if 0 <= at <= s.len() { s.subrange(at, s.len() as int) } else { Seq::empty() } }
/// What is read after a seek is what the file holds from there on: the file does not change while it is open.
pub trait Seek: Read {
    fn seek(&mut self, pos: SeekFrom) -> (r: core::result::Result<u64, Error>)
        ensures final(self).can_fail() == old(self).can_fail(),
            final(self).broken() == old(self).broken(),
            final(self).whole() == old(self).whole(),
            final(self).whole().len() <= i64::MAX,
            match r {
                Ok(n) => pos is Current || (seek_pos(pos, old(self).whole().len() as int) == Some(n as int) && final(self).rest() == suffix(old(self).whole(), n as int)),
                Err(_) => old(self).can_fail() || (seek_pos(pos, old(self).whole().len() as int) matches Some(k) ==> k > old(self).whole().len()),
            };
}

/// as many bytes as there are and there is room for
pub fn copy_to(s: &[u8], buf: &mut [u8]) -> (n: usize)
    ensures n == if s@.len() <= old(buf)@.len() { s@.len() as int } else { old(buf)@.len() as int }, final(buf)@.len() == old(buf)@.len(), forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == s@[i]
{
    let n = min_usize(s.len(), buf.len());
    let mut i = 0;
    while i < n invariant i <= n <= s@.len(), n <= buf@.len(), buf@.len() == old(buf)@.len(), forall|j: int| 0 <= j < i ==> #[trigger] buf@[j] == s@[j] decreases n - i { buf[i] = s[i]; i = i + 1; }
    n
}
impl Read for &[u8] {
    open spec fn rest(&self) -> Seq<u8> { self@ }
    open spec fn can_fail(&self) -> bool { false }
    open spec fn broken(&self) -> bool { false }
    open spec fn patience(&self) -> nat { 0 }
    open spec fn whole(&self) -> Seq<u8> { Seq::empty() }
    fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>) {
        let n = copy_to(*self, buf);
        let t = *self;
        *self = &t[n..];
        Ok(n)
    }
}

@mod shim::conv
use crate::shim::*;
use core::cmp::Ordering;
impl<T> VUnwrap for Option<T> {
    type T = T;
    open spec fn vok(&self) -> bool { self is Some }
    open spec fn vval(&self) -> T { self->0 }
    fn vunwrap(self) -> (r: T) { match self { Some(v) => v, None => rt_panic() } }
}
impl<T, E> VUnwrap for core::result::Result<T, E> {
    type T = T;
    open spec fn vok(&self) -> bool { self is Ok }
    open spec fn vval(&self) -> T { self->Ok_0 }
    fn vunwrap(self) -> (r: T) { match self { Ok(v) => v, Err(_) => rt_panic() } }
}
impl VFrom<u8> for usize { open spec fn vf(t: u8) -> usize { t as usize } fn vfrom(t: u8) -> (r: usize) { t as usize } }
impl VFrom<u16> for usize { open spec fn vf(t: u16) -> usize { t as usize } fn vfrom(t: u16) -> (r: usize) { t as usize } }
impl VFrom<u8> for u64 { open spec fn vf(t: u8) -> u64 { t as u64 } fn vfrom(t: u8) -> (r: u64) { t as u64 } }
impl VFrom<u16> for u64 { open spec fn vf(t: u16) -> u64 { t as u64 } fn vfrom(t: u16) -> (r: u64) { t as u64 } }
impl VFrom<u32> for u64 { open spec fn vf(t: u32) -> u64 { t as u64 } fn vfrom(t: u32) -> (r: u64) { t as u64 } }
impl VFrom<u8> for u32 { open spec fn vf(t: u8) -> u32 { t as u32 } fn vfrom(t: u8) -> (r: u32) { t as u32 } }
impl VFrom<u16> for u32 { open spec fn vf(t: u16) -> u32 { t as u32 } fn vfrom(t: u16) -> (r: u32) { t as u32 } }
impl VFrom<u8> for u16 { open spec fn vf(t: u8) -> u16 { t as u16 } fn vfrom(t: u8) -> (r: u16) { t as u16 } }
pub struct TryFromIntError { }
pub struct TryFromSliceError { }
impl VTryFrom<u32> for usize {
    type E = TryFromIntError;
    open spec fn vt(t: u32) -> Option<usize> { Some(t as usize) }
    fn vtry_from(t: u32) -> (r: Result<usize, TryFromIntError>) { Ok(t as usize) }
}
impl VTryFrom<u64> for usize {
    type E = TryFromIntError;
    open spec fn vt(t: u64) -> Option<usize> { Some(t as usize) }
    fn vtry_from(t: u64) -> (r: Result<usize, TryFromIntError>) { Ok(t as usize) }
}
impl VTryFrom<usize> for u32 {
    type E = TryFromIntError;
    open spec fn vt(t: usize) -> Option<u32> { if t <= u32::MAX { Some(t as u32) } else { None } }
    fn vtry_from(t: usize) -> (r: Result<u32, TryFromIntError>) { if t <= u32::MAX as usize { Ok(t as u32) } else { Err(TryFromIntError { }) } }
}
impl VTryFrom<u64> for u32 {
    type E = TryFromIntError;
    open spec fn vt(t: u64) -> Option<u32> { if t <= u32::MAX { Some(t as u32) } else { None } }
    fn vtry_from(t: u64) -> (r: Result<u32, TryFromIntError>) { if t <= u32::MAX as u64 { Ok(t as u32) } else { Err(TryFromIntError { }) } }
}
impl VTryFrom<&[u8]> for [u8; 20] {
    type E = TryFromSliceError;
    open spec fn vt(t: &[u8]) -> Option<[u8; 20]> { if t@.len() == 20 { Some(arr20(t@)) } else { None } }
    fn vtry_from(t: &[u8]) -> (r: Result<[u8; 20], TryFromSliceError>) {
        if t.len() != 20 { return Err(TryFromSliceError { }); }
        let r = [t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16], t[17], t[18], t[19]];
        assert(r@ =~= arr20(t@)@); assert(r =~= arr20(t@));
        Ok(r)
    }
}
/// the array with the given 20 elements
pub open spec fn arr20(s: Seq<u8>) -> [u8; 20] { [s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19]] }
pub broadcast proof fn lemma_arr20(s: Seq<u8>)
    requires s.len() == 20
    ensures (#[trigger] arr20(s))@ == s
{ assert(arr20(s)@ =~= s); }
pub assume_specification<I: Clone> [<core::ops::Range<I> as Clone>::clone](r: &core::ops::Range<I>) -> (o: core::ops::Range<I>)
    ensures vstd::pervasive::cloned(r.start, o.start), vstd::pervasive::cloned(r.end, o.end);
pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures (#[trigger] s.subrange(a, b).subrange(c, d)) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
/// lexicographic order
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}
pub open spec fn rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub broadcast proof fn lemma_rev(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] rev(lex(a, b)) == lex(b, a)
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_rev(a.skip(1), b.skip(1)); } }
impl VCmp for [u8] {
    open spec fn vord(&self, o: &Self) -> Ordering { lex(self@, o@) }
    fn vcmp(&self, o: &Self) -> (r: Ordering) {
        let mut i = 0;
        assert(self@.skip(0) =~= self@ && o@.skip(0) =~= o@);
        while i < self.len() && i < o.len()
            invariant i <= self@.len(), i <= o@.len(), lex(self@, o@) == lex(self@.skip(i as int), o@.skip(i as int))
            decreases self@.len() - i
        {
            assert(self@.skip(i as int).skip(1) =~= self@.skip(i + 1) && o@.skip(i as int).skip(1) =~= o@.skip(i + 1));
            if self[i] < o[i] { return Ordering::Less; }
            if self[i] > o[i] { return Ordering::Greater; }
            i = i + 1;
        }
        if i < o.len() { Ordering::Less } else if i < self.len() { Ordering::Greater } else { Ordering::Equal }
    }
}
pub assume_specification [core::cmp::Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == rev(o);
pub assume_specification [usize::checked_shl] (a: usize, b: u32) -> (r: Option<usize>)
    ensures b < 64 ==> r == Some((a << b) as usize), b >= 64 ==> r is None;

@mod shim::varint
use crate::shim::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
/// the last byte of a variable length number has its top bit clear
pub open spec fn stop() -> spec_fn(u8) -> bool { |b: u8| b & 0b1000_0000 == 0 }
/// how many bytes a variable length number takes
pub open spec fn vint_len(s: Seq<u8>) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s[0] & 0b1000_0000 == 0 { Some(1) } else {
        match vint_len(s.skip(1)) { Some(n) => Some(n + 1), None => None }
    }
}
pub open spec fn none_in(s: Seq<u8>, p: spec_fn(u8) -> bool, a: int, b: int) -> bool {
    forall|j: int| a <= j < b ==> !p(#[trigger] s[j])
}
pub broadcast proof fn lemma_vint(t: Seq<u8>, a: int, e: int)
    requires 0 <= a <= e <= t.len(), #[trigger] none_in(t, stop(), a, e)
    ensures vint_len(t.subrange(a, t.len() as int)) matches Some(n) ==> n > e - a,
        e < t.len() && stop()(t[e]) ==> vint_len(t.subrange(a, t.len() as int)) == Some(e + 1 - a),
        e == t.len() ==> vint_len(t.subrange(a, t.len() as int)) is None
    decreases e - a
{
    lemma_vint_pos(t.subrange(a, t.len() as int));
    let s = t.subrange(a, t.len() as int);
    if a < e {
        assert(!stop()(t[a]));
        assert(s[0] == t[a]);
        assert(s.skip(1) =~= t.subrange(a + 1, t.len() as int));
        assert(none_in(t, stop(), a + 1, e));
        lemma_vint(t, a + 1, e);
    } else if e < t.len() { assert(s[0] == t[a]); }
}
pub proof fn lemma_vint_pos(s: Seq<u8>)
    ensures vint_len(s) matches Some(n) ==> 1 <= n <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_vint_pos(s.skip(1)); } }
/// the value of the low seven bits of each byte, least significant first
pub open spec fn le128(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (s[0] & 0x7f) as nat + 128 * le128(s.skip(1)) } }
pub proof fn lemma_shift_ok(bits: usize, shift: u32)
    requires bits < 128, shift < 64
    ensures ((bits << shift) >> shift == bits) <==> bits * pow2(shift as nat) <= usize::MAX,
        bits * pow2(shift as nat) <= usize::MAX ==> (bits << shift) == bits * pow2(shift as nat)
{
    let b = bits as u64; let s = shift as u64;
    assert(bits << shift == b << s);
    assert((bits << shift) >> shift == (b << s) >> s);
    assert(((b << s) >> s == b) <==> b <= (0xffff_ffff_ffff_ffffu64 >> s)) by (bit_vector) requires s < 64, b < 128;
    lemma_u64_shr_is_div(0xffff_ffff_ffff_ffffu64, s);
    let p = pow2(shift as nat) as int;
    lemma_pow2_pos(shift as nat);
    let q = 0xffff_ffff_ffff_ffffint / p;
    assert((bits <= q) <==> (bits * p <= 0xffff_ffff_ffff_ffffint)) by (nonlinear_arith) requires q == 0xffff_ffff_ffff_ffffint / p, p > 0;
    if bits * p <= usize::MAX { lemma_u64_shl_is_mul(b, s); }
}
pub proof fn lemma_le128_step(len: int, s: Seq<u8>, shift: u32)
    requires s.len() > 0
    ensures len + le128(s) * pow2(shift as nat) == len + (s[0] & 0x7f) * pow2(shift as nat) + le128(s.skip(1)) * pow2((shift + 7) as nat)
{
    let p = pow2(shift as nat);
    lemma_pow2_adds(shift as nat, 7);
    lemma2_to64();
    let r = le128(s.skip(1));
    let b = (s[0] & 0x7f) as nat;
    assert((b + 128 * r) * p == b * p + r * (p * 128)) by (nonlinear_arith);
}
pub proof fn lemma_or_add(len: usize, sh: usize, bits: usize, shift: u32)
    requires shift < 64, bits < 128, len < pow2(shift as nat), sh == bits << shift, bits * pow2(shift as nat) <= usize::MAX
    ensures (len | sh) == len + bits * pow2(shift as nat), len + bits * pow2(shift as nat) < pow2((shift + 7) as nat)
{
    lemma_shift_ok(bits, shift);
    let p = pow2(shift as nat);
    let s = shift as u64;
    lemma_pow2_adds(shift as nat, 7);
    lemma2_to64();
    assert(pow2((shift + 7) as nat) == p * 128);
    assert(len + bits * p < p * 128) by (nonlinear_arith) requires len < p, bits <= 127, p > 0;
    assert(1u64 << s == p) by { lemma_pow2_strictly_increases(s as nat, 64);  lemma_u64_shl_is_mul(1, s); }
    let l = len as u64; let h = sh as u64; let b = bits as u64;
    assert(h == b << s);
    assert((l | h) == l + h) by (bit_vector) requires l < (1u64 << s), h == b << s, s < 64, b < 128;
    assert((len | sh) == (l | h));
}

@mod shim::bits
/// what masks and shifts of a byte are in numbers
pub broadcast proof fn u8_80(b: u8) ensures #[trigger] (b & 0x80) == (if b >= 128 { 128u8 } else { 0u8 }) { assert(b & 0x80 == (if b >= 128 { 128u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn u8_7f(b: u8) ensures #[trigger] (b & 0x7f) == b % 128 { assert(b & 0x7f == b % 128) by (bit_vector); }
pub broadcast proof fn u8_70(b: u8) ensures #[trigger] (b & 0x70) == (b / 16) % 8 * 16 { assert(b & 0x70 == (b / 16) % 8 * 16) by (bit_vector); }
pub broadcast proof fn u8_f0(b: u8) ensures #[trigger] (b & 0xf0) == b / 16 * 16 { assert(b & 0xf0 == b / 16 * 16) by (bit_vector); }
pub broadcast proof fn u8_0f(b: u8) ensures #[trigger] (b & 0x0f) == b % 16 { assert(b & 0x0f == b % 16) by (bit_vector); }
pub broadcast proof fn u8_07(b: u8) ensures #[trigger] (b & 0x07) == b % 8 { assert(b & 0x07 == b % 8) by (bit_vector); }
pub broadcast proof fn u8_shr4(b: u8) ensures #[trigger] (b >> 4) == b / 16 { assert(b >> 4 == b / 16) by (bit_vector); }
pub broadcast proof fn u8_shr7(b: u8) ensures #[trigger] (b >> 7) == b / 128 { assert(b >> 7 == b / 128) by (bit_vector); }
pub broadcast proof fn u32_hi(x: u32) ensures ((#[trigger] (x & 0x8000_0000)) == 0) == (x < 0x8000_0000), x & 0x8000_0000 == 0 || x & 0x8000_0000 == 0x8000_0000 { assert(((x & 0x8000_0000) == 0) == (x < 0x8000_0000) && (x & 0x8000_0000 == 0 || x & 0x8000_0000 == 0x8000_0000)) by (bit_vector); }
pub broadcast proof fn u32_lo(x: u32) ensures #[trigger] (x & 0x7fff_ffff) == (if x >= 0x8000_0000 { (x - 0x8000_0000) as u32 } else { x }) { assert((x & 0x7fff_ffff) == (if x >= 0x8000_0000 { sub(x, 0x8000_0000) } else { x })) by (bit_vector); }
pub broadcast proof fn u32_not_hi(x: u32) ensures #[trigger] (x & !0x8000_0000u32) == (if x >= 0x8000_0000 { (x - 0x8000_0000) as u32 } else { x }) { assert((x & !0x8000_0000u32) == (if x >= 0x8000_0000 { sub(x, 0x8000_0000) } else { x })) by (bit_vector); }
pub broadcast proof fn u32_xor_hi(x: u32) ensures #[trigger] (x ^ 0x8000_0000) == (if x >= 0x8000_0000 { (x - 0x8000_0000) as u32 } else { (x + 0x8000_0000) as u32 }) { assert((x ^ 0x8000_0000) == (if x >= 0x8000_0000 { sub(x, 0x8000_0000) } else { add(x, 0x8000_0000) })) by (bit_vector); }
pub broadcast proof fn u32_shr31(x: u32) ensures #[trigger] (x >> 31) == (if x >= 0x8000_0000 { 1u32 } else { 0u32 }) { assert((x >> 31) == (if x >= 0x8000_0000 { 1u32 } else { 0u32 })) by (bit_vector); }
pub broadcast group masks { u8_80, u8_7f, u8_70, u8_f0, u8_0f, u8_07, u8_shr4, u8_shr7, u32_hi, u32_lo, u32_not_hi, u32_xor_hi, u32_shr31 }

@mod shim::get
use crate::shim::*;
use core::ops::{Range, RangeFrom, RangeTo};
pub trait VGet<I> {
    type Output: ?Sized;
    spec fn get_is(&self, i: I, r: Option<&Self::Output>) -> bool;
    fn vget(&self, i: I) -> (r: Option<&Self::Output>) ensures self.get_is(i, r);
}
impl<T> VGet<usize> for [T] {
    type Output = T;
    open spec fn get_is(&self, i: usize, r: Option<&T>) -> bool { match r { Some(v) => i < self@.len() && *v == self@[i as int], None => i >= self@.len() } }
    fn vget(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
impl<T> VGet<Range<usize>> for [T] {
    type Output = [T];
    open spec fn get_is(&self, i: Range<usize>, r: Option<&[T]>) -> bool {
        match r { Some(v) => i.start <= i.end <= self@.len() && v@ == self@.subrange(i.start as int, i.end as int), None => !(i.start <= i.end <= self@.len()) }
    }
    fn vget(&self, i: Range<usize>) -> (r: Option<&[T]>) { if i.start <= i.end && i.end <= self.len() { Some(&self[i]) } else { None } }
}
impl<T> VGet<RangeFrom<usize>> for [T] {
    type Output = [T];
    open spec fn get_is(&self, i: RangeFrom<usize>, r: Option<&[T]>) -> bool {
        match r { Some(v) => i.start <= self@.len() && v@ == self@.subrange(i.start as int, self@.len() as int), None => i.start > self@.len() }
    }
    fn vget(&self, i: RangeFrom<usize>) -> (r: Option<&[T]>) { if i.start <= self.len() { Some(&self[i]) } else { None } }
}
impl<T> VGet<RangeTo<usize>> for [T] {
    type Output = [T];
    open spec fn get_is(&self, i: RangeTo<usize>, r: Option<&[T]>) -> bool {
        match r { Some(v) => i.end <= self@.len() && v@ == self@.subrange(0, i.end as int), None => i.end > self@.len() }
    }
    fn vget(&self, i: RangeTo<usize>) -> (r: Option<&[T]>) { if i.end <= self.len() { Some(&self[i]) } else { None } }
}
