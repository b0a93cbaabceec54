@// Further functions of the standard library and of other libraries, which the code does not call today
@// but which a change to it may. Where nothing is said of a result, it may be anything.
@mod shim::stdx
use crate::shim::*;
use core::cmp::Ordering;
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T> [Option::<Option<T>>::flatten] (a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match a { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E, F> [Result::<T, E>::or] (a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>) ensures r == (match a { Ok(x) => Ok(x), Err(_) => b });
pub assume_specification<T, E, U> [Result::<T, E>::and] (a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => b });
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification [Ordering::is_eq] (o: Ordering) -> (r: bool) ensures r == (o is Equal);
pub assume_specification [Ordering::is_ne] (o: Ordering) -> (r: bool) ensures r == !(o is Equal);
pub assume_specification [Ordering::is_lt] (o: Ordering) -> (r: bool) ensures r == (o is Less);
pub assume_specification [Ordering::is_gt] (o: Ordering) -> (r: bool) ensures r == (o is Greater);
pub assume_specification [Ordering::is_le] (o: Ordering) -> (r: bool) ensures r == !(o is Greater);
pub assume_specification [Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == !(o is Less);
pub assume_specification [Ordering::then] (o: Ordering, p: Ordering) -> (r: Ordering) ensures r == (if o is Equal { p } else { o });
// ---------------------------------------------------------------- numbers
pub assume_specification [u8::is_ascii] (a: &u8) -> (r: bool) ensures r == (*a < 0x80);
pub assume_specification [u8::is_ascii_digit] (a: &u8) -> (r: bool) ensures r == (0x30 <= *a <= 0x39);
pub assume_specification [u8::is_ascii_hexdigit] (a: &u8) -> (r: bool) ensures r == (0x30 <= *a <= 0x39 || 0x41 <= *a <= 0x46 || 0x61 <= *a <= 0x66);
pub assume_specification [u8::is_ascii_alphabetic] (a: &u8) -> (r: bool) ensures r == (0x41 <= *a <= 0x5a || 0x61 <= *a <= 0x7a);
pub assume_specification [u8::is_ascii_alphanumeric] (a: &u8) -> (r: bool) ensures r == (0x30 <= *a <= 0x39 || 0x41 <= *a <= 0x5a || 0x61 <= *a <= 0x7a);
pub assume_specification [u8::is_ascii_lowercase] (a: &u8) -> (r: bool) ensures r == (0x61 <= *a <= 0x7a);
pub assume_specification [u8::is_ascii_uppercase] (a: &u8) -> (r: bool) ensures r == (0x41 <= *a <= 0x5a);
pub assume_specification [u8::is_ascii_whitespace] (a: &u8) -> (r: bool) ensures r == (*a == 0x20 || *a == 9 || *a == 10 || *a == 12 || *a == 13);
pub assume_specification [u8::is_ascii_control] (a: &u8) -> (r: bool) ensures r == (*a < 0x20 || *a == 0x7f);
pub assume_specification [u8::is_ascii_graphic] (a: &u8) -> (r: bool) ensures r == (0x21 <= *a <= 0x7e);
pub assume_specification [u8::is_ascii_punctuation] (a: &u8) -> (r: bool) ensures r == (0x21 <= *a <= 0x2f || 0x3a <= *a <= 0x40 || 0x5b <= *a <= 0x60 || 0x7b <= *a <= 0x7e);
pub open spec fn lower(a: u8) -> u8 { if 0x41 <= a <= 0x5a { (a + 32) as u8 } else { a } }
pub open spec fn upper(a: u8) -> u8 { if 0x61 <= a <= 0x7a { (a - 32) as u8 } else { a } }
pub assume_specification [u8::to_ascii_lowercase] (a: &u8) -> (r: u8) ensures r == lower(*a);
pub assume_specification [u8::to_ascii_uppercase] (a: &u8) -> (r: u8) ensures r == upper(*a);
pub assume_specification [u8::eq_ignore_ascii_case] (a: &u8, b: &u8) -> (r: bool) ensures r == (lower(*a) == lower(*b));
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification [usize::checked_shr] (a: usize, b: u32) -> (r: Option<usize>) ensures r == (if b < usize::BITS { Some(a >> b) } else { None });
pub assume_specification [usize::wrapping_neg] (a: usize) -> (r: usize) ensures r == (if a == 0 { 0 } else { usize::MAX - a + 1 });
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a + b > usize::MAX), r.0 == (if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b });
pub assume_specification [usize::overflowing_sub] (a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a < b), r.0 == (if a < b { a - b + usize::MAX + 1 } else { a - b });
pub assume_specification [u8::count_ones] (a: u8) -> (r: u32) ensures r <= 8;
pub assume_specification [u8::reverse_bits] (a: u8) -> (r: u8);
pub assume_specification [u8::swap_bytes] (a: u8) -> (r: u8) ensures r == a;
pub assume_specification [u32::swap_bytes] (a: u32) -> (r: u32);
pub assume_specification [u64::swap_bytes] (a: u64) -> (r: u64);
pub assume_specification [u32::rotate_left] (a: u32, n: u32) -> (r: u32);
pub assume_specification [u32::rotate_right] (a: u32, n: u32) -> (r: u32);
pub assume_specification [u32::to_be] (a: u32) -> (r: u32);
pub assume_specification [u32::to_le] (a: u32) -> (r: u32) ensures r == a;
pub assume_specification [u32::count_ones] (a: u32) -> (r: u32) ensures r <= 32;
pub assume_specification [usize::count_ones] (a: usize) -> (r: u32) ensures r <= 64;
pub assume_specification [usize::leading_zeros] (a: usize) -> (r: u32) ensures r <= 64;
pub assume_specification [usize::trailing_zeros] (a: usize) -> (r: u32) ensures r <= 64;
pub assume_specification [usize::is_power_of_two] (a: usize) -> (r: bool);
pub assume_specification<T: Default> [core::mem::take] (a: &mut T) -> (r: T) ensures r == *old(a);
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
// ---------------------------------------------------------------- slices and text
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { Some((l, h)) => s@.len() > 0 && *l == s@.last() && h@ == s@.drop_last(), None => s@.len() == 0 };
pub assume_specification [<[u8]>::is_ascii] (s: &[u8]) -> (r: bool) ensures r == ascii(s@);
pub assume_specification [<[u8]>::eq_ignore_ascii_case] (s: &[u8], t: &[u8]) -> (r: bool) ensures s@ == t@ ==> r, r ==> s@.len() == t@.len();
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool) ensures str_bytes(s) == str_bytes(t) ==> r, r ==> str_bytes(s).len() == str_bytes(t).len();
/// what text is compared with
pub trait VPat { spec fn pat(&self) -> Seq<u8>; fn pat_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.pat(); }
impl VPat for str {
    open spec fn pat(&self) -> Seq<u8> { str_bytes(self) }
    #[verifier::external_body]
    fn pat_bytes(&self) -> (r: Vec<u8>) { self.as_bytes().to_vec() }
}
impl VPat for char {
    open spec fn pat(&self) -> Seq<u8> { vstd::utf8::encode_utf8(seq![*self]) }
    #[verifier::external_body]
    fn pat_bytes(&self) -> (r: Vec<u8>) { self.to_string().into_bytes() }
}
impl VPat for [u8] { open spec fn pat(&self) -> Seq<u8> { self@ } fn pat_bytes(&self) -> (r: Vec<u8>) { self.vto_vec() } }
impl<const N: usize> VPat for [u8; N] { open spec fn pat(&self) -> Seq<u8> { self@ } fn pat_bytes(&self) -> (r: Vec<u8>) { self.as_slice().vto_vec() } }
impl VPat for String {
    open spec fn pat(&self) -> Seq<u8> { string_bytes(*self) }
    #[verifier::external_body]
    fn pat_bytes(&self) -> (r: Vec<u8>) { self.as_bytes().to_vec() }
}
impl VPat for Vec<u8> { open spec fn pat(&self) -> Seq<u8> { self@ } fn pat_bytes(&self) -> (r: Vec<u8>) { self.as_slice().vto_vec() } }
impl<T: VPat + ?Sized> VPat for &T { open spec fn pat(&self) -> Seq<u8> { (**self).pat() } fn pat_bytes(&self) -> (r: Vec<u8>) { (**self).pat_bytes() } }
/// whether `p` stands in `s` at `i`
pub fn occurs_at(s: &[u8], p: &[u8], i: usize) -> (r: bool)
    ensures r == occurs(s@, p@, i as int)
{
    if i > s.len() || p.len() > s.len() - i { return false; }
    let mut n = 0;
    while n < p.len()
        invariant n <= p@.len(), i + p@.len() <= s@.len(), forall|j: int| 0 <= j < n ==> #[trigger] p@[j] == s@[i + j]
        decreases p@.len() - n
    {
        if s[i + n] != p[n] { assert(s@.subrange(i as int, i + p@.len())[n as int] != p@[n as int]); return false; }
        n = n + 1;
    }
    assert(s@.subrange(i as int, i + p@.len()) =~= p@);
    true
}
pub open spec fn ends_with_spec(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn begins(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn occurs(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn white_ascii(a: u8) -> bool { a == 9 || a == 10 || a == 12 || a == 13 || a == 0x20 }
pub open spec fn trimmed_ascii(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && white_ascii(s.last()) { trimmed_ascii(s.drop_last()) } else { s } }
pub open spec fn trimmed_ascii_start(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && white_ascii(s[0]) { trimmed_ascii_start(s.skip(1)) } else { s } }
pub open spec fn is_part(s: Seq<u8>, p: Seq<u8>) -> bool { exists|i: int| #[trigger] occurs(s, p, i) }
pub fn is_white1(a: u8) -> (r: bool) ensures r == crate::shim::bstr::white1(a) { 9 <= a && a <= 13 || a == 0x20 }
pub fn is_white2(a: u8, b: u8) -> (r: bool) ensures r == crate::shim::bstr::white2(a, b) { a == 0xc2 && (b == 0x85 || b == 0xa0) }
pub fn is_white3(a: u8, b: u8, c: u8) -> (r: bool) ensures r == crate::shim::bstr::white3(a, b, c) {
    a == 0xe1 && b == 0x9a && c == 0x80 || a == 0xe2 && b == 0x80 && (0x80 <= c && c <= 0x8a || c == 0xa8 || c == 0xa9 || c == 0xaf)
        || a == 0xe2 && b == 0x81 && c == 0x9f || a == 0xe3 && b == 0x80 && c == 0x80
}
pub fn is_white_ascii(a: u8) -> (r: bool) ensures r == white_ascii(a) { a == 9 || a == 10 || a == 12 || a == 13 || a == 0x20 }
/// text: a string, or bytes
pub trait VText {
    spec fn txt(&self) -> Seq<u8>;
    fn vstarts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == begins(self.txt(), p.pat());
    fn vends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == ends_with_spec(self.txt(), p.pat());
    fn vstrip_prefix<P: VPat>(&self, p: P) -> (r: Option<&Self>)
        ensures match r { Some(x) => begins(self.txt(), p.pat()) && x.txt() == self.txt().subrange(p.pat().len() as int, self.txt().len() as int), None => !begins(self.txt(), p.pat()) };
    fn vstrip_suffix<P: VPat>(&self, p: P) -> (r: Option<&Self>)
        ensures match r { Some(x) => ends_with_spec(self.txt(), p.pat()) && x.txt() == self.txt().subrange(0, self.txt().len() - p.pat().len()), None => !ends_with_spec(self.txt(), p.pat()) };
    fn vfind<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => occurs(self.txt(), p.pat(), i as int) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs(self.txt(), p.pat(), j), None => forall|j: int| !#[trigger] occurs(self.txt(), p.pat(), j) };
    fn vrfind<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => occurs(self.txt(), p.pat(), i as int) && forall|j: int| i < j ==> !#[trigger] occurs(self.txt(), p.pat(), j), None => forall|j: int| !#[trigger] occurs(self.txt(), p.pat(), j) };
    fn vtrim(&self) -> (r: &Self) ensures r.txt() == crate::shim::bstr::trimmed_start(crate::shim::bstr::trimmed(self.txt())), is_part(self.txt(), r.txt());
    fn vtrim_start(&self) -> (r: &Self) ensures r.txt() == crate::shim::bstr::trimmed_start(self.txt()), ends_with_spec(self.txt(), r.txt()), is_part(self.txt(), r.txt());
    fn vtrim_end(&self) -> (r: &Self) ensures r.txt() == crate::shim::bstr::trimmed(self.txt()), begins(self.txt(), r.txt());
    fn vtrim_ascii(&self) -> (r: &Self) ensures r.txt() == trimmed_ascii_start(trimmed_ascii(self.txt())), is_part(self.txt(), r.txt());
    fn vtrim_ascii_start(&self) -> (r: &Self) ensures r.txt() == trimmed_ascii_start(self.txt()), ends_with_spec(self.txt(), r.txt()), is_part(self.txt(), r.txt());
    fn vtrim_ascii_end(&self) -> (r: &Self) ensures r.txt() == trimmed_ascii(self.txt()), begins(self.txt(), r.txt());
    fn vtrim_end_matches<P: VPat>(&self, p: P) -> (r: &Self) ensures begins(self.txt(), r.txt());
    fn vtrim_start_matches<P: VPat>(&self, p: P) -> (r: &Self) ensures ends_with_spec(self.txt(), r.txt());
}
impl VText for str {
    open spec fn txt(&self) -> Seq<u8> { str_bytes(self) }
    #[verifier::external_body]
    fn vstarts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vstrip_prefix<P: VPat>(&self, p: P) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body]
    fn vstrip_suffix<P: VPat>(&self, p: P) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body]
    fn vfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vrfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim(&self) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_end(&self) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_start(&self) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_ascii(&self) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_ascii_start(&self) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_ascii_end(&self) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_end_matches<P: VPat>(&self, p: P) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn vtrim_start_matches<P: VPat>(&self, p: P) -> (r: &Self) { unimplemented!() }
}
impl VText for [u8] {
    open spec fn txt(&self) -> Seq<u8> { self@ }
    fn vstarts_with<P: VPat>(&self, p: P) -> (r: bool) {
        let q = p.pat_bytes();
        occurs_at(self, &q, 0)
    }
    fn vends_with<P: VPat>(&self, p: P) -> (r: bool) {
        let q = p.pat_bytes();
        q.len() <= self.len() && occurs_at(self, &q, self.len() - q.len())
    }
    fn vstrip_prefix<P: VPat>(&self, p: P) -> (r: Option<&Self>) {
        let q = p.pat_bytes();
        if occurs_at(self, &q, 0) { Some(&self[q.len()..]) } else { None }
    }
    fn vstrip_suffix<P: VPat>(&self, p: P) -> (r: Option<&Self>) {
        let q = p.pat_bytes();
        if q.len() <= self.len() && occurs_at(self, &q, self.len() - q.len()) { Some(&self[..self.len() - q.len()]) } else { None }
    }
    fn vfind<P: VPat>(&self, p: P) -> (r: Option<usize>) {
        let q = p.pat_bytes();
        if q.len() > self.len() { return None; }
        let mut i = 0;
        while i <= self.len() - q.len()
            invariant q@ == p.pat(), q@.len() <= self@.len(), i <= self@.len() - q@.len() + 1, forall|j: int| 0 <= j < i ==> !#[trigger] occurs(self@, q@, j)
            decreases self@.len() - i + 1
        {
            if occurs_at(self, &q, i) { return Some(i); }
            if i == self.len() - q.len() { return None; }
            i = i + 1;
        }
        None
    }
    fn vrfind<P: VPat>(&self, p: P) -> (r: Option<usize>) {
        let q = p.pat_bytes();
        if q.len() > self.len() { return None; }
        let mut i = self.len() - q.len();
        loop
            invariant q@ == p.pat(), i + q@.len() <= self@.len(), forall|j: int| i < j ==> !#[trigger] occurs(self@, q@, j)
            decreases i
        {
            if occurs_at(self, &q, i) { return Some(i); }
            if i == 0 { return None; }
            i = i - 1;
        }
    }
    fn vtrim(&self) -> (r: &Self) {
        let a = self.vtrim_end();
        let b = a.vtrim_start();
        assert(b@ =~= self@.subrange(a@.len() - b@.len(), a@.len() as int));
        assert(occurs(self@, b@, a@.len() - b@.len()));
        b
    }
    fn vtrim_end(&self) -> (r: &Self) {
        proof { assert(self@ =~= self@.subrange(0, self@.len() as int)); }
        let mut n = self.len();
        let mut k = 1usize;
        while k > 0
            invariant n <= self@.len(), crate::shim::bstr::trimmed(self@) == crate::shim::bstr::trimmed(self@.subrange(0, n as int)), k == 0 ==> crate::shim::bstr::white_end(self@.subrange(0, n as int)) == 0, n == n
            decreases n, k
        {
            k = if n >= 1 && is_white1(self[n - 1]) { 1 } else if n >= 2 && is_white2(self[n - 2], self[n - 1]) { 2 } else if n >= 3 && is_white3(self[n - 3], self[n - 2], self[n - 1]) { 3 } else { 0 };
            assert(k as int == crate::shim::bstr::white_end(self@.subrange(0, n as int)));
            proof { assert(self@.subrange(0, n as int).subrange(0, n - k) =~= self@.subrange(0, n - k)); }
            n = n - k;
        }
        &self[..n]
    }
    fn vtrim_start(&self) -> (r: &Self) {
        proof { assert(self@ =~= self@.skip(0)); }
        let mut n = 0;
        let mut k = 1usize;
        while k > 0
            invariant n <= self@.len(), crate::shim::bstr::trimmed_start(self@) == crate::shim::bstr::trimmed_start(self@.skip(n as int)), k == 0 ==> crate::shim::bstr::white_begin(self@.skip(n as int)) == 0
            decreases self@.len() - n, k
        {
            let m = self.len() - n;
            k = if m >= 1 && is_white1(self[n]) { 1 } else if m >= 2 && is_white2(self[n], self[n + 1]) { 2 } else if m >= 3 && is_white3(self[n], self[n + 1], self[n + 2]) { 3 } else { 0 };
            assert(k as int == crate::shim::bstr::white_begin(self@.skip(n as int)));
            proof { assert(self@.skip(n as int).skip(k as int) =~= self@.skip(n + k)); }
            n = n + k;
        }
        assert(occurs(self@, self@.skip(n as int), n as int));
        &self[n..]
    }
    fn vtrim_ascii(&self) -> (r: &Self) {
        let a = self.vtrim_ascii_end();
        let b = a.vtrim_ascii_start();
        assert(b@ =~= self@.subrange(a@.len() - b@.len(), a@.len() as int));
        assert(occurs(self@, b@, a@.len() - b@.len()));
        b
    }
    fn vtrim_ascii_start(&self) -> (r: &Self) {
        proof { assert(self@ =~= self@.skip(0)); }
        let mut n = 0;
        while n < self.len() && is_white_ascii(self[n])
            invariant n <= self@.len(), trimmed_ascii_start(self@) == trimmed_ascii_start(self@.skip(n as int))
            decreases self@.len() - n
        { proof { assert(self@.skip(n as int).skip(1) =~= self@.skip(n + 1)); } n = n + 1; }
        assert(occurs(self@, self@.skip(n as int), n as int));
        &self[n..]
    }
    fn vtrim_ascii_end(&self) -> (r: &Self) {
        proof { assert(self@ =~= self@.subrange(0, self@.len() as int)); }
        let mut n = self.len();
        while n > 0 && is_white_ascii(self[n - 1])
            invariant n <= self@.len(), trimmed_ascii(self@) == trimmed_ascii(self@.subrange(0, n as int))
            decreases n
        { proof { assert(self@.subrange(0, n as int).drop_last() =~= self@.subrange(0, n - 1)); } n = n - 1; }
        &self[..n]
    }
    fn vtrim_end_matches<P: VPat>(&self, p: P) -> (r: &Self) {
        proof { assert(self@ =~= self@.subrange(0, self@.len() as int)); }
        let q = p.pat_bytes();
        let mut n = self.len();
        while q.len() > 0 && q.len() <= n && occurs_at(self, &q, n - q.len())
            invariant n <= self@.len()
            decreases n
        { n = n - q.len(); }
        &self[..n]
    }
    fn vtrim_start_matches<P: VPat>(&self, p: P) -> (r: &Self) {
        let q = p.pat_bytes();
        let l = self.len();
        let mut n = 0;
        while q.len() > 0 && occurs_at(self, &q, n)
            invariant n <= l, l == self@.len()
            decreases l - n
        { n = n + q.len(); }
        &self[n..]
    }
}
/// owned copies
pub trait VToVec<T> { spec fn tov(&self) -> Seq<T>; fn vto_vec(&self) -> (r: Vec<T>) ensures r@ == self.tov(); }
impl<T: Copy> VToVec<T> for [T] {
    open spec fn tov(&self) -> Seq<T> { self@ }
    fn vto_vec(&self) -> (r: Vec<T>) {
        let mut v = Vec::new();
        let mut i = 0;
        while i < self.len() invariant i <= self@.len(), v@ == self@.take(i as int) decreases self@.len() - i { v.push(self[i]); i = i + 1; assert(v@ =~= self@.take(i as int)); }
        assert(v@ =~= self@);
        v
    }
}
impl Idx<core::ops::Range<usize>> for str {
    type Output = str;
    open spec fn idx_req(&self, i: core::ops::Range<usize>) -> bool { i.start <= i.end <= str_bytes(self).len() && ascii(str_bytes(self)) }
    open spec fn idx_ens(&self, i: core::ops::Range<usize>, r: &str) -> bool { str_bytes(r) == str_bytes(self).subrange(i.start as int, i.end as int) }
    #[verifier::external_body]
    fn idx(&self, i: core::ops::Range<usize>) -> (r: &str) { &self[i] }
}
impl Idx<core::ops::RangeFrom<usize>> for str {
    type Output = str;
    open spec fn idx_req(&self, i: core::ops::RangeFrom<usize>) -> bool { i.start <= str_bytes(self).len() && ascii(str_bytes(self)) }
    open spec fn idx_ens(&self, i: core::ops::RangeFrom<usize>, r: &str) -> bool { str_bytes(r) == str_bytes(self).subrange(i.start as int, str_bytes(self).len() as int) }
    #[verifier::external_body]
    fn idx(&self, i: core::ops::RangeFrom<usize>) -> (r: &str) { &self[i] }
}
impl Idx<core::ops::RangeTo<usize>> for str {
    type Output = str;
    open spec fn idx_req(&self, i: core::ops::RangeTo<usize>) -> bool { i.end <= str_bytes(self).len() && ascii(str_bytes(self)) }
    open spec fn idx_ens(&self, i: core::ops::RangeTo<usize>, r: &str) -> bool { str_bytes(r) == str_bytes(self).subrange(0, i.end as int) }
    #[verifier::external_body]
    fn idx(&self, i: core::ops::RangeTo<usize>) -> (r: &str) { &self[i] }
}
impl<T> Idx<core::ops::RangeFull> for [T] {
    type Output = [T];
    open spec fn idx_req(&self, i: core::ops::RangeFull) -> bool { true }
    open spec fn idx_ens(&self, i: core::ops::RangeFull, r: &[T]) -> bool { r@ == self@ }
    fn idx(&self, i: core::ops::RangeFull) -> (r: &[T]) { self }
}
impl<T, const N: usize> Idx<core::ops::RangeFull> for [T; N] {
    type Output = [T];
    open spec fn idx_req(&self, i: core::ops::RangeFull) -> bool { true }
    open spec fn idx_ens(&self, i: core::ops::RangeFull, r: &[T]) -> bool { r@ == self@ }
    fn idx(&self, i: core::ops::RangeFull) -> (r: &[T]) { proof { assert(self@.subrange(0, N as int) =~= self@); } &self[0..N] }
}
impl<T, const N: usize> Idx<core::ops::Range<usize>> for [T; N] {
    type Output = [T];
    open spec fn idx_req(&self, i: core::ops::Range<usize>) -> bool { i.start <= i.end <= N }
    open spec fn idx_ens(&self, i: core::ops::Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    fn idx(&self, i: core::ops::Range<usize>) -> (r: &[T]) { &self[i] }
}
impl<T, const N: usize> Idx<core::ops::RangeFrom<usize>> for [T; N] {
    type Output = [T];
    open spec fn idx_req(&self, i: core::ops::RangeFrom<usize>) -> bool { i.start <= N }
    open spec fn idx_ens(&self, i: core::ops::RangeFrom<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, N as int) }
    fn idx(&self, i: core::ops::RangeFrom<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> Idx<core::ops::RangeInclusive<usize>> for [T] {
    type Output = [T];
    open spec fn idx_req(&self, i: core::ops::RangeInclusive<usize>) -> bool { !i@.exhausted && i@.start <= i@.end + 1 && i@.end < self@.len() }
    open spec fn idx_ens(&self, i: core::ops::RangeInclusive<usize>, r: &[T]) -> bool { r@ == self@.subrange(i@.start as int, i@.end + 1) }
    #[verifier::external_body]
    fn idx(&self, i: core::ops::RangeInclusive<usize>) -> (r: &[T]) { &self[i] }
}
/// `[T].iter().any(f)` and `.all(f)`
pub fn slice_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|t: &T| f.requires((t,))
    ensures !r ==> (forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false)), r ==> (exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true))
{
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), forall|t: &T| f.requires((t,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), false) decreases s@.len() - i
    { if f(&s[i]) { return true; } i = i + 1; }
    false
}
pub fn slice_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|t: &T| f.requires((t,))
    ensures r ==> (forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), true)), !r ==> (exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), false))
{
    let mut i = 0;
    while i < s.len() invariant i <= s@.len(), forall|t: &T| f.requires((t,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), true) decreases s@.len() - i
    { if !f(&s[i]) { return false; } i = i + 1; }
    true
}
pub fn slice_rposition<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|b: &u8| f.requires((b,)),
    ensures match r {
        Some(i) => i < s@.len() && f.ensures((&s@[i as int],), true) && forall|j: int| i < j < s@.len() ==> f.ensures((&#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((&#[trigger] s@[j],), false),
    }
{
    let mut i = s.len();
    while i > 0 invariant i <= s@.len(), forall|b: &u8| f.requires((b,)), forall|j: int| i <= j < s@.len() ==> f.ensures((&#[trigger] s@[j],), false) decreases i
    { i = i - 1; if f(&s[i]) { return Some(i); } }
    None
}
@mod shim
pub use crate::shim::stdx::{slice_any, slice_all, slice_rposition, VText, VPat, VToVec};
@mod shim::time
impl Duration {
    pub const ZERO: Duration = Duration { nanos: 0 };
    pub const fn from_micros(s: u64) -> (r: Duration) ensures r.nanos == s * 1_000 { Duration { nanos: s as u128 * 1_000 } }
    pub const fn from_nanos(s: u64) -> (r: Duration) ensures r.nanos == s { Duration { nanos: s as u128 } }
    pub const fn as_secs(&self) -> (r: u64) requires self.nanos / 1_000_000_000 <= u64::MAX ensures r == self.nanos / 1_000_000_000 { (self.nanos / 1_000_000_000) as u64 }
    pub const fn as_millis(&self) -> (r: u128) ensures r == self.nanos / 1_000_000 { self.nanos / 1_000_000 }
    pub const fn as_micros(&self) -> (r: u128) ensures r == self.nanos / 1_000 { self.nanos / 1_000 }
    pub const fn as_nanos(&self) -> (r: u128) ensures r == self.nanos { self.nanos }
}
impl core::ops::Mul<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn mul(self, o: u32) -> (r: Duration) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<u32> for Duration {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u32) -> bool { self.nanos * o <= u128::MAX }
    open spec fn mul_spec(self, o: u32) -> Duration { Duration { nanos: (self.nanos * o) as u128 } }
}
impl core::ops::Div<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn div(self, o: u32) -> (r: Duration) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<u32> for Duration {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: u32) -> bool { o != 0 }
    open spec fn div_spec(self, o: u32) -> Duration { Duration { nanos: (self.nanos / o as u128) as u128 } }
}
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, o: Duration) -> (r: Instant) { unimplemented!() }
}
impl core::ops::Sub<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn sub(self, o: Duration) -> (r: Instant) { unimplemented!() }
}
impl Instant {
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<Instant>) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, d: Duration) -> (r: Option<Instant>) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r.nanos >= clock(self.at()) - clock(o.at()) { unimplemented!() }
}
@mod shim::dashmap
impl<K, V> DashMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) { unimplemented!() }
}
@mod shim::path
#[verifier::external_body]
pub struct StripPrefixError { e: u8 }
impl Path {
    #[verifier::external_body]
    pub fn is_dir(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_symlink(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures r matches Some(p) ==> p.pb().len() < self.pb().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures match r { Some(n) => n.pb().len() > 0 && path_name(self.pb()) is Some, None => path_name(self.pb()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => str_bytes(s) == self.pb(), None => !is_utf8(self.pb()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: PathLike>(&self, p: P) -> (r: bool) ensures self.pb() == p.pb() ==> r { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: PathLike>(&self, p: P) -> (r: bool) ensures self.pb() == p.pb() && p.pb().len() > 0 ==> r { unimplemented!() }
    #[verifier::external_body]
    pub fn vstrip_prefix<P: PathLike>(&self, p: P) -> (r: Result<&Path, StripPrefixError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file_name<P: PathLike>(&self, p: P) -> (r: PathBuf) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn set_extension<P: PathLike>(&mut self, p: P) -> (r: bool) ensures final(self).pb() == path_with_ext(old(self).pb(), p.pb()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool) ensures final(self).pb().len() <= old(self).pb().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.pb() == self.pb() { unimplemented!() }
}
@mod shim::fs
impl FileType {
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r ==> !self.dir_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_symlink(&self) -> (r: bool) ensures r ==> !self.dir_() { unimplemented!() }
}
impl DirEntry {
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: PathBuf) ensures path_name(self.pb()) == Some(r.pb()) { unimplemented!() }
}
