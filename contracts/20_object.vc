@mod object src=src/object.rs
use crate::shim::*;
use crate::shim::hex::{self, FromHex, FromHexError};
use crate::shim::fmt::{self, Display};
use crate::shim::sha1::*;
use crate::parse::Parser;
use core::cmp::Ordering;
broadcast use crate::shim::conv::lemma_arr20;
@const ID_LEN
@const ID_HEX_LEN
@const SHORT_ID_MIN_LEN
@const SHORT_ID_MIN_HEX_LEN
@enum ParseIdError
@struct Id copyonly
@struct ShortId copyonly
impl Id {
    pub open spec fn view(&self) -> Seq<u8> { self.0@ }
}
impl ShortId {
    /// every short id is made by `from_hex` or from an id, and has between 2 and 20 bytes
    pub open spec fn wf(&self) -> bool { SHORT_ID_MIN_LEN <= self.len <= ID_LEN }
    pub open spec fn view(&self) -> Seq<u8> { self.id@.subrange(0, self.len as int) }
}
/// hex digits
pub open spec fn is_hexdigit(b: u8) -> bool { 48 <= b <= 57 || 97 <= b <= 102 || 65 <= b <= 70 }
pub open spec fn hexval(b: u8) -> u8 { if b <= 57 { (b - 48) as u8 } else if b >= 97 { (b - 87) as u8 } else { (b - 55) as u8 } }
pub open spec fn is_hex(s: Seq<u8>) -> bool { s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> is_hexdigit(#[trigger] s[i]) }
pub open spec fn unhex(s: Seq<u8>) -> Seq<u8> { Seq::new((s.len() / 2) as nat, |i: int| (hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1])) as u8) }
pub open spec fn hexdigit(n: u8) -> u8 { if n < 10 { (n + 48) as u8 } else { (n + 87) as u8 } }
pub open spec fn enhex(s: Seq<u8>) -> Seq<u8> { Seq::new((s.len() * 2) as nat, |i: int| if i % 2 == 0 { hexdigit((s[i / 2] / 16) as u8) } else { hexdigit((s[i / 2] % 16) as u8) }) }

proof fn lemma_nibbles(b: u8)
    ensures is_hexdigit(hexdigit((b / 16) as u8)), is_hexdigit(hexdigit((b % 16) as u8)),
        (hexval(hexdigit((b / 16) as u8)) * 16 + hexval(hexdigit((b % 16) as u8))) as u8 == b
{
    let q = b / 16; let r = b % 16;
    assert(q < 16 && r < 16 && b == q * 16 + r) by (bit_vector) requires q == b / 16, r == b % 16;
}
/// Writing an id as hex and reading it back gives the id again; two ids with the same hex are the same.
pub proof fn lemma_hex_roundtrip(s: Seq<u8>)
    ensures is_hex(enhex(s)), unhex(enhex(s)) == s
{
    let h = enhex(s);
    assert forall|i: int| 0 <= i < h.len() implies is_hexdigit(#[trigger] h[i]) by {
        let b = s[i / 2];
        lemma_nibbles(b);
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] unhex(h)[i] == s[i] by {
        let b = s[i];
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1);
        assert(h[2 * i] == hexdigit((b / 16) as u8) && h[2 * i + 1] == hexdigit((b % 16) as u8));
        lemma_nibbles(b);
    }
    assert(unhex(h) =~= s);
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Id {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Id) -> bool { self.view() =~= o.view() }
}
@impl impl PartialEq for Id
@fn <PartialEq for Id>::eq ;; traitfn derived=Id:PartialEq
@end
@endimpl
/// the order of ids is that of their bytes
@impl impl Id
@fn <Ord for Id>::cmp ;; traitfn derived=Id:Ord
    ensures r == lex(self.view(), $1.view())
@end
@fn <PartialOrd for Id>::partial_cmp ;; traitfn derived=Id:PartialOrd
    ensures r == Some(lex(self.view(), $1.view()))
@end
@endimpl
@fn Id::from_bytes
    requires $1@.len() == 20
    ensures r.view() == $1@
@end
@fn Id::from_hash
    ensures r.view() == sha1($1@)
@end
@fn Id::from_hex
    ensures match r { Ok(id) => $1@.len() == 40 && is_hex($1@) && id.view() == unhex($1@), Err(_) => !($1@.len() == 40 && is_hex($1@)) }
@end
@fn Id::to_hex
    ensures string_bytes(r) == enhex(self.view())
@end
@fn Id::as_bytes
    ensures r@ == self.view(), r@.len() == 20
@end
@fn Id::starts_with
    requires $1.wf()
    ensures r == starts_with_spec(self.view(), $1.view())
@end
@fn Id::cmp_short
    requires $1.wf()
    ensures r == rev(lex($1.view(), self.view()))
@start
    broadcast use crate::shim::lemma_rev;
@end
@fn ShortId::first_byte
    requires self.wf()
    ensures r == self.view()[0]
@end
@fn ShortId::as_bytes
    requires self.wf()
    ensures r@ == self.view()
@end
@fn ShortId::cmp_id
    requires self.wf()
    ensures r == lex(self.view(), $1.view())
@start
    broadcast use crate::shim::lemma_rev;
@end
@fn ShortId::from_hex
    ensures match r {
        Ok(s) => s.wf() && 4 <= $1@.len() <= 40 && is_hex($1@) && s.view() == unhex($1@),
        Err(_) => !(4 <= $1@.len() <= 40 && is_hex($1@)),
    }
@end
@fn ShortId::to_hex
    requires self.wf()
    ensures string_bytes(r) == enhex(self.view())
@end
@impl impl VFrom<Id> for ShortId
    open spec fn vf(t: Id) -> Self { ShortId { id: t.0, len: 20 } }
@fn <From<Id> for ShortId>::from ;; as=vfrom traitfn
@end
@endimpl
@fn <FromStr for Id>::from_str ;; impl=~Id rettype=Result<Id,ParseIdError>
    ensures match r { Ok(id) => str_bytes($1).len() == 40 && is_hex(str_bytes($1)) && id.view() == unhex(str_bytes($1)), Err(_) => !(str_bytes($1).len() == 40 && is_hex(str_bytes($1))) }
@end
@fn <FromStr for ShortId>::from_str ;; impl=~ShortId rettype=Result<ShortId,ParseIdError>
    ensures match r { Ok(id) => id.wf() && 4 <= str_bytes($1).len() <= 40 && is_hex(str_bytes($1)) && id.view() == unhex(str_bytes($1)), Err(_) => !(4 <= str_bytes($1).len() <= 40 && is_hex(str_bytes($1))) }
@end
/// printed as its digits, aligned and cut as any other text
@impl impl fmt::Display for Id
    open spec fn disp(&self) -> Seq<u8> { enhex(self.view()) }
    open spec fn may_disp(&self) -> bool { true }
@fn <fmt::Display for Id>::fmt ;; traitfn
@end
@endimpl
@impl impl fmt::Display for ShortId
    open spec fn disp(&self) -> Seq<u8> { enhex(self.view()) }
    open spec fn may_disp(&self) -> bool { self.wf() }
@fn <fmt::Display for ShortId>::fmt ;; traitfn
@end
@endimpl
@fn <fmt::Debug for Id>::fmt ;; impl=~Id as=fmt_debug
    ensures r is Ok ==> fmt::printed(*old($1), *final($1), enhex(self.view())), r is Err ==> final($1).refused()
@end
@fn <fmt::Debug for ShortId>::fmt ;; impl=~ShortId as=fmt_debug
    requires self.wf()
    ensures r is Ok ==> fmt::printed(*old($1), *final($1), enhex(self.view())), r is Err ==> final($1).refused()
@end

@mod shim::hex
use crate::shim::*;
use crate::object::{is_hex, unhex, enhex, is_hexdigit, hexval, hexdigit};
pub enum FromHexError { InvalidHexCharacter { c: char, index: usize }, OddLength, InvalidStringLength }
pub trait FromHex: Sized {
    spec fn fh(h: Seq<u8>, r: Result<Self, FromHexError>) -> bool;
    fn from_hex(h: &[u8]) -> (r: Result<Self, FromHexError>) ensures Self::fh(h@, r);
}
impl FromHex for [u8; 20] {
    open spec fn fh(h: Seq<u8>, r: Result<Self, FromHexError>) -> bool {
        match r { Ok(a) => h.len() == 40 && is_hex(h) && a@ == unhex(h), Err(_) => !(h.len() == 40 && is_hex(h)) }
    }
    fn from_hex(h: &[u8]) -> (r: Result<Self, FromHexError>) {
        let mut a = [0u8; 20];
        match decode_into(h, &mut a) { Ok(_) => Ok(a), Err(e) => Err(e) }
    }
}
fn hex_value(b: u8) -> (r: Option<u8>)
    ensures match r { Some(v) => is_hexdigit(b) && v == hexval(b) && v < 16, None => !is_hexdigit(b) }
{
    if 48 <= b && b <= 57 { Some(b - 48) } else if 97 <= b && b <= 102 { Some(b - 87) } else if 65 <= b && b <= 70 { Some(b - 55) } else { None }
}
/// the digits of one byte after the other
fn decode_into<const N: usize>(h: &[u8], out: &mut [u8; N]) -> (r: Result<(), FromHexError>)
    ensures match r { Ok(_) => is_hex(h@) && h@.len() == 2 * N && final(out)@ == unhex(h@), Err(_) => !(is_hex(h@) && h@.len() == 2 * N) }
{
    if h.len() % 2 != 0 { return Err(FromHexError::OddLength); }
    if h.len() / 2 != N { return Err(FromHexError::InvalidStringLength); }
    let mut i = 0;
    while i < N
        invariant i <= N, h@.len() == 2 * N, forall|j: int| 0 <= j < 2 * i ==> is_hexdigit(#[trigger] h@[j]),
            forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == unhex(h@)[j]
        decreases N - i
    {
        let x = match hex_value(h[2 * i]) { Some(x) => x, None => return Err(FromHexError::InvalidStringLength) };
        let y = match hex_value(h[2 * i + 1]) { Some(y) => y, None => return Err(FromHexError::InvalidStringLength) };
        out[i] = x * 16 + y;
        i = i + 1;
    }
    proof { assert(out@ =~= unhex(h@)); }
    Ok(())
}
pub trait HexBytes { spec fn hb(&self) -> Seq<u8>; fn hex_bytes(&self) -> (r: &[u8]) ensures r@ == self.hb(); }
impl HexBytes for &[u8; 20] { open spec fn hb(&self) -> Seq<u8> { self@ } fn hex_bytes(&self) -> (r: &[u8]) { self.as_slice() } }
impl HexBytes for &[u8] { open spec fn hb(&self) -> Seq<u8> { self@ } fn hex_bytes(&self) -> (r: &[u8]) { self } }
/// `String::from_utf8` of ASCII characters
#[verifier::external_body]
fn text_of(v: Vec<u8>) -> (r: String) requires ascii(v@) ensures string_bytes(r) == v@ { unimplemented!() }
fn hex_digit(n: u8) -> (r: u8) requires n < 16 ensures r == hexdigit(n), r < 0x80 { if n < 10 { n + 48 } else { n + 87 } }
pub fn encode<T: HexBytes>(b: T) -> (r: String)
    ensures string_bytes(r) == enhex(b.hb())
{
    let s = b.hex_bytes();
    let mut v: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == 2 * i, s@ == b.hb(), ascii(v@), forall|j: int| 0 <= j < 2 * i ==> #[trigger] v@[j] == enhex(s@)[j]
        decreases s@.len() - i
    {
        v.push(hex_digit(s[i] / 16));
        v.push(hex_digit(s[i] % 16));
        i = i + 1;
    }
    assert(v@ =~= enhex(s@));
    text_of(v)
}
pub fn decode_to_slice(h: &[u8], out: &mut [u8]) -> (r: Result<(), FromHexError>)
    ensures final(out)@.len() == old(out)@.len(),
        match r { Ok(_) => is_hex(h@) && h@.len() == 2 * old(out)@.len() && final(out)@ == unhex(h@), Err(_) => !(is_hex(h@) && h@.len() == 2 * old(out)@.len()) }
{
    if h.len() % 2 != 0 { return Err(FromHexError::OddLength); }
    if h.len() / 2 != out.len() { return Err(FromHexError::InvalidStringLength); }
    let mut i = 0;
    while i < out.len()
        invariant i <= out@.len(), out@.len() == old(out)@.len(), h@.len() == 2 * out@.len(), forall|j: int| 0 <= j < 2 * i ==> is_hexdigit(#[trigger] h@[j]),
            forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == unhex(h@)[j]
        decreases out@.len() - i
    {
        let x = match hex_value(h[2 * i]) { Some(x) => x, None => return Err(FromHexError::InvalidStringLength) };
        let y = match hex_value(h[2 * i + 1]) { Some(y) => y, None => return Err(FromHexError::InvalidStringLength) };
        out[i] = x * 16 + y;
        i = i + 1;
    }
    proof { assert(out@ =~= unhex(h@)); }
    Ok(())
}

@mod shim::sha1
use crate::shim::*;
/// SHA-1
#[verifier::opaque]
pub open spec fn sha1(s: Seq<u8>) -> Seq<u8> { digest20(s)@ }
pub uninterp spec fn digest20(s: Seq<u8>) -> [u8; 20];
pub proof fn lemma_sha1_len(s: Seq<u8>) ensures sha1(s).len() == 20 { reveal(sha1); }
/// what the library computes of these bytes
#[verifier::external_body]
fn sha1_of(s: &[u8]) -> (r: [u8; 20]) ensures r == digest20(s@) { unimplemented!() }
pub struct Sha1 { v: Vec<u8> }
pub struct Output { a: [u8; 20] }
impl Sha1 {
    pub closed spec fn fed(&self) -> Seq<u8> { self.v@ }
    pub fn new() -> (r: Sha1) ensures r.fed() == Seq::<u8>::empty() { Sha1 { v: Vec::new() } }
    pub fn chain(self, b: &[u8]) -> (r: Sha1) ensures r.fed() == self.fed() + b@ { let mut v = self.v; v.extend_from_slice(b); assert(v@ =~= self.v@ + b@); Sha1 { v } }
    pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { self.v.extend_from_slice(b); assert(self.v@ =~= old(self).v@ + b@); }
    pub fn finalize(self) -> (r: Output) ensures r.digest() == sha1(self.fed()), r.digest().len() == 20 { reveal(sha1); Output { a: sha1_of(self.v.as_slice()) } }
}
impl Output { pub closed spec fn digest(&self) -> Seq<u8> { self.a@ } }
impl VFrom<Output> for [u8; 20] {
    open spec fn vf(t: Output) -> [u8; 20] { arr20(t.digest()) }
    fn vfrom(t: Output) -> (r: [u8; 20]) { t.a }
}
