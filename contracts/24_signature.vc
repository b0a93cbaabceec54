@// Signatures: what the regular expression makes of a line, and the fields that are taken from it.
@mod shim::regex
use crate::shim::*;
/// A regular expression, as a program of a backtracking matcher. The extractor makes it from the text of
/// the pattern. `Opt(n)`: the next `n` items or, if the match fails then, none of them.
pub ghost enum Item { One(Seq<(u8, u8)>), Star(Seq<(u8, u8)>), Lazy(Seq<(u8, u8)>), Open(nat), Close(nat), Opt(nat), OptLazy(nat), Begin, End }
pub open spec fn in_class(c: Seq<(u8, u8)>, b: u8) -> bool { exists|k: int| 0 <= k < c.len() && (#[trigger] c[k]).0 <= b <= c[k].1 }
/// how many bytes from `i` on are in the class
pub open spec fn run(c: Seq<(u8, u8)>, s: Seq<u8>, i: int) -> nat
    decreases s.len() - i
{ if 0 <= i < s.len() && in_class(c, s[i]) { 1 + run(c, s, i + 1) } else { 0 } }
/// The match which is preferred among those that begin at `i`: the slots in which the begins and the
/// ends of the groups are, -1 for groups which are not in the match.
pub open spec fn best(p: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>) -> Option<Seq<int>>
    decreases p.len(), 0nat
{
    if p.len() == 0 { Some(v) } else {
        let q = p.skip(1);
        match p[0] {
            Item::One(c) => if 0 <= i < s.len() && in_class(c, s[i]) { best(q, s, i + 1, v) } else { None },
            Item::Star(c) => best_most(q, s, i, run(c, s, i), v),
            Item::Lazy(c) => best_least(q, s, i, 0, run(c, s, i), v),
            Item::Open(k) => best(q, s, i, v.update(2 * k as int, i)),
            Item::Close(k) => best(q, s, i, v.update((2 * k + 1) as int, i)),
            Item::Opt(n) => if n <= q.len() { match best(q, s, i, v) { Some(r) => Some(r), None => best(q.skip(n as int), s, i, v) } } else { None },
            Item::OptLazy(n) => if n <= q.len() { match best(q.skip(n as int), s, i, v) { Some(r) => Some(r), None => best(q, s, i, v) } } else { None },
            Item::Begin => if i == 0 { best(q, s, i, v) } else { None },
            Item::End => if i == s.len() { best(q, s, i, v) } else { None },
        }
    }
}
pub open spec fn best_most(q: Seq<Item>, s: Seq<u8>, i: int, n: nat, v: Seq<int>) -> Option<Seq<int>>
    decreases q.len(), n + 1
{ match best(q, s, i + n, v) { Some(r) => Some(r), None => if n == 0 { None } else { best_most(q, s, i, (n - 1) as nat, v) } } }
pub open spec fn best_least(q: Seq<Item>, s: Seq<u8>, i: int, m: nat, n: nat, v: Seq<int>) -> Option<Seq<int>>
    decreases q.len(), (if m <= n { n + 1 - m } else { 1 })
{ match best(q, s, i + m, v) { Some(r) => Some(r), None => if m >= n { None } else { best_least(q, s, i, m + 1, n, v) } } }
pub open spec fn no_slots() -> Seq<int> { Seq::new(20, |k: int| -1) }
/// the match that begins first
pub open spec fn search(p: Seq<Item>, s: Seq<u8>, i: int) -> Option<Seq<int>>
    decreases s.len() + 1 - i
{ if i > s.len() { None } else { match best(p, s, i, no_slots()) { Some(r) => Some(r), None => search(p, s, i + 1) } } }
#[verifier::external_body]
pub struct Regex { p: u8 }
#[verifier::external_body]
pub struct RegexError { p: u8 }
#[verifier::external_body]
pub struct Captures<'t> { p: &'t [u8] }
#[verifier::external_body]
pub struct Match<'t> { p: &'t [u8] }
impl Regex {
    pub uninterp spec fn prog(&self) -> Seq<Item>;
    /// `Regex::new` of a pattern, with what the extractor makes of the pattern
    #[verifier::external_body]
    pub fn of(p: Ghost<Seq<Item>>) -> (r: Result<Regex, RegexError>) ensures r matches Ok(x) && x.prog() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &[u8]) -> (r: bool) ensures r == (search(self.prog(), s@, 0) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn captures<'t>(&self, s: &'t [u8]) -> (r: Option<Captures<'t>>)
        ensures match r { Some(c) => search(self.prog(), s@, 0) == Some(c.slots()) && c.text() == s@, None => search(self.prog(), s@, 0) is None }
    { unimplemented!() }
}
impl<'t> Captures<'t> {
    pub uninterp spec fn slots(&self) -> Seq<int>;
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn vget(&self, k: usize) -> (r: Option<Match<'t>>)
        ensures k < 10 ==> match r { Some(m) => self.slots()[2 * k + 1] >= 0 && m.view() == self.text().subrange(self.slots()[2 * k as int], self.slots()[2 * k + 1]), None => self.slots()[2 * k + 1] < 0 }
    { unimplemented!() }
}
impl<'t> VClone for Captures<'t> {
    open spec fn is_clone(&self, r: Self) -> bool { *self == r }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
impl<'t> Match<'t> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &'t [u8]) ensures r@ == self.view() { unimplemented!() }
}
/// the value of a `static`, made when it is first used
#[verifier::external_body]
pub fn once<T>(t: T) -> (r: &'static T) ensures *r == t { unimplemented!() }
// ---------------------------------------------------------------- how a match goes
pub proof fn lemma_run(c: Seq<(u8, u8)>, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i + run(c, s, i) <= s.len(), forall|k: int| i <= k < i + run(c, s, i) ==> in_class(c, #[trigger] s[k]), i + run(c, s, i) < s.len() ==> !in_class(c, s[i + run(c, s, i)])
    decreases s.len() - i
{
    if i < s.len() && in_class(c, s[i]) { lemma_run(c, s, i + 1); }
}
pub proof fn lemma_run_least(c: Seq<(u8, u8)>, s: Seq<u8>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= s.len(), forall|k: int| i <= k < i + n ==> in_class(c, #[trigger] s[k])
    ensures run(c, s, i) >= n
    decreases n
{
    if n > 0 {
        assert(in_class(c, s[i]));
        assert forall|k: int| i + 1 <= k < i + 1 + (n - 1) implies in_class(c, #[trigger] s[k]) by { }
        lemma_run_least(c, s, i + 1, n - 1);
    }
}
pub proof fn lemma_step(x: Item, q: Seq<Item>)
    ensures (seq![x] + q).skip(1) == q, (seq![x] + q)[0] == x, (seq![x] + q).len() == q.len() + 1
{ assert((seq![x] + q).skip(1) =~= q); }
pub proof fn lemma_most(q: Seq<Item>, s: Seq<u8>, i: int, n: nat, v: Seq<int>, m: nat)
    requires m <= n, best(q, s, i + m, v) is Some, forall|j: int| i + m < j <= i + n ==> (#[trigger] best(q, s, j, v)) is None
    ensures best_most(q, s, i, n, v) == best(q, s, i + m, v)
    decreases n
{
    if n > m { assert(best(q, s, i + n, v) is None); lemma_most(q, s, i, (n - 1) as nat, v, m); }
}
pub proof fn lemma_none(q: Seq<Item>, s: Seq<u8>, i: int, n: nat, v: Seq<int>)
    requires forall|j: int| i <= j <= i + n ==> (#[trigger] best(q, s, j, v)) is None
    ensures best_most(q, s, i, n, v) is None
    decreases n
{
    assert(best(q, s, i + n, v) is None);
    if n > 0 { lemma_none(q, s, i, (n - 1) as nat, v); }
}
/// a star takes `m` bytes, if more than that are of no use
pub proof fn lemma_star(c: Seq<(u8, u8)>, q: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>, m: int)
    requires 0 <= i, 0 <= m <= run(c, s, i), best(q, s, i + m, v) is Some, forall|j: int| i + m < j <= i + run(c, s, i) ==> (#[trigger] best(q, s, j, v)) is None
    ensures best(seq![Item::Star(c)] + q, s, i, v) == best(q, s, i + m, v)
{ lemma_step(Item::Star(c), q); lemma_most(q, s, i, run(c, s, i), v, m as nat); }
pub proof fn lemma_star_none(c: Seq<(u8, u8)>, q: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>)
    requires forall|j: int| i <= j <= i + run(c, s, i) ==> (#[trigger] best(q, s, j, v)) is None
    ensures best(seq![Item::Star(c)] + q, s, i, v) is None
{ lemma_step(Item::Star(c), q); lemma_none(q, s, i, run(c, s, i), v); }
pub proof fn lemma_one(c: Seq<(u8, u8)>, q: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>)
    ensures best(seq![Item::One(c)] + q, s, i, v) == (if 0 <= i < s.len() && in_class(c, s[i]) { best(q, s, i + 1, v) } else { None })
{ lemma_step(Item::One(c), q); }
pub proof fn lemma_open(k: nat, q: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>)
    ensures best(seq![Item::Open(k)] + q, s, i, v) == best(q, s, i, v.update(2 * k as int, i))
{ lemma_step(Item::Open(k), q); }
pub proof fn lemma_close(k: nat, q: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>)
    ensures best(seq![Item::Close(k)] + q, s, i, v) == best(q, s, i, v.update((2 * k + 1) as int, i))
{ lemma_step(Item::Close(k), q); }
pub proof fn lemma_opt(n: nat, q: Seq<Item>, s: Seq<u8>, i: int, v: Seq<int>)
    requires n <= q.len()
    ensures best(seq![Item::Opt(n)] + q, s, i, v) == (match best(q, s, i, v) { Some(r) => Some(r), None => best(q.skip(n as int), s, i, v) })
{ lemma_step(Item::Opt(n), q); }
pub proof fn lemma_class1(a: u8, b: u8, x: u8) ensures in_class(seq![(a, b)], x) == (a <= x <= b)
{ if a <= x <= b { assert(seq![(a, b)][0] == (a, b)); } }
pub proof fn lemma_class2(a: (u8, u8), b: (u8, u8), x: u8) ensures in_class(Seq::<(u8, u8)>::empty().push(a).push(b), x) == (a.0 <= x <= a.1 || b.0 <= x <= b.1)
{ let c = Seq::<(u8, u8)>::empty().push(a).push(b); if a.0 <= x <= a.1 { assert(c[0] == a); } if b.0 <= x <= b.1 { assert(c[1] == b); } }
@mod object::sigfields
use crate::shim::*;
use crate::shim::regex::*;
use crate::shim::memchr::*;
/// where the last `>` before `n` is, or -1
pub open spec fn last_gt(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { -1 } else if s[n - 1] == 0x3e { n - 1 } else { last_gt(s, n - 1) } }
/// where the last ` <` is that ends before `n`, or -1
pub open spec fn last_lt(s: Seq<u8>, n: int) -> int decreases n { if n <= 1 { -1 } else if s[n - 2] == 0x20 && s[n - 1] == 0x3c { n - 2 } else { last_lt(s, n - 1) } }
pub open spec fn gt_of(s: Seq<u8>) -> int { last_gt(s, s.len() as int) }
pub open spec fn lt_of(s: Seq<u8>) -> int { last_lt(s, gt_of(s)) }
/// what may be in front of a name without being part of it
pub open spec fn padding(b: u8) -> bool { b <= 0x20 || b == 0x22 || b == 0x27 || b == 0x2c || b == 0x2e || 0x3a <= b <= 0x3c || b == 0x3e || b == 0x5c }
/// how much padding there is from `i` on, up to `n`
pub open spec fn padded(s: Seq<u8>, i: int, n: int) -> nat decreases n - i { if 0 <= i < n && i < s.len() && padding(s[i]) { 1 + padded(s, i + 1, n) } else { 0 } }
pub open spec fn digits(s: Seq<u8>, i: int) -> nat decreases s.len() - i { if 0 <= i < s.len() && 0x30 <= s[i] <= 0x39 { 1 + digits(s, i + 1) } else { 0 } }
/// where the time ends which begins after the space at `i`
pub open spec fn time_end(s: Seq<u8>, i: int) -> Option<int> { if 0 <= i < s.len() && s[i] == 0x20 && digits(s, i + 1) > 0 { Some(i + 1 + digits(s, i + 1)) } else { None } }
pub open spec fn zone_end(s: Seq<u8>, i: int) -> Option<int> {
    if 0 <= i && i + 1 < s.len() && s[i] == 0x20 && (s[i + 1] == 0x2b || s[i + 1] == 0x2d) && digits(s, i + 2) > 0 { Some(i + 2 + digits(s, i + 2)) } else { None }
}
/// whether a signature line is acceptable: it has an e-mail in angle brackets after a space
pub open spec fn sig_valid(s: Seq<u8>) -> bool { lt_of(s) >= 0 }
pub open spec fn sig_name(s: Seq<u8>) -> Seq<u8> { s.subrange(padded(s, 0, lt_of(s)) as int, lt_of(s)) }
pub open spec fn sig_email(s: Seq<u8>) -> Seq<u8> { s.subrange(lt_of(s) + 2 + padded(s, lt_of(s) + 2, gt_of(s)), gt_of(s)) }
pub open spec fn sig_time(s: Seq<u8>) -> Option<Seq<u8>> { match time_end(s, gt_of(s) + 1) { Some(e) => Some(s.subrange(gt_of(s) + 2, e)), None => None } }
pub open spec fn sig_zone(s: Seq<u8>) -> Option<Seq<u8>> {
    match time_end(s, gt_of(s) + 1) { Some(t) => match zone_end(s, t) { Some(e) => Some(s.subrange(t + 1, e)), None => None }, None => None }
}
// ---------------------------------------------------------------- P08
/// a time and a zone as they are written after the e-mail
pub open spec fn written(time: Option<Seq<u8>>, zone: Option<Seq<u8>>) -> Seq<u8> {
    match time { Some(t) => seq![0x20u8] + t + (match zone { Some(z) => seq![0x20u8] + z, None => seq![] }), None => seq![] }
}
pub open spec fn all_digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 0x30 <= #[trigger] s[i] <= 0x39 }
/// no delimiter, and no padding in front
pub open spec fn plain_field(s: Seq<u8>) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x3c && s[i] != 0x3e && s[i] != 0x0a) && (s.len() > 0 ==> !padding(s[0])) }
pub open spec fn written_line(name: Seq<u8>, email: Seq<u8>, time: Option<Seq<u8>>, zone: Option<Seq<u8>>) -> Seq<u8> {
    name + seq![0x20u8, 0x3c] + email + seq![0x3eu8] + written(time, zone)
}
proof fn lemma_last_gt(s: Seq<u8>, n: int, g: int)
    requires 0 <= g < n <= s.len(), s[g] == 0x3e, forall|k: int| g < k < n ==> #[trigger] s[k] != 0x3e
    ensures last_gt(s, n) == g
    decreases n
{ if n - 1 > g { assert(s[n - 1] != 0x3e); lemma_last_gt(s, n - 1, g); } }
proof fn lemma_last_lt(s: Seq<u8>, n: int, l: int)
    requires 0 <= l, l + 2 <= n <= s.len(), s[l] == 0x20, s[l + 1] == 0x3c, forall|k: int| l + 1 < k < n ==> #[trigger] s[k] != 0x3c
    ensures last_lt(s, n) == l
    decreases n
{ if n - 2 > l { assert(s[n - 1] != 0x3c); lemma_last_lt(s, n - 1, l); } }
proof fn lemma_digits(s: Seq<u8>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= s.len(), forall|k: int| i <= k < i + n ==> 0x30 <= #[trigger] s[k] <= 0x39, i + n < s.len() ==> !(0x30 <= s[i + n] <= 0x39)
    ensures digits(s, i) == n
    decreases n
{ if n > 0 { assert(0x30 <= s[i] <= 0x39); lemma_digits(s, i + 1, n - 1); } }
pub open spec fn time_zone_ok(time: Option<Seq<u8>>, zone: Option<Seq<u8>>) -> bool {
    (time matches Some(t) ==> all_digits(t)) && (zone matches Some(z) ==> time is Some && z.len() > 1 && (z[0] == 0x2b || z[0] == 0x2d) && all_digits(z.skip(1)))
}
proof fn lemma_written(time: Option<Seq<u8>>, zone: Option<Seq<u8>>, k: int)
    requires time_zone_ok(time, zone), 0 <= k < written(time, zone).len()
    ensures ({ let w = written(time, zone); w[k] != 0x3e
        && (time matches Some(t) ==> (k == 0 ==> w[k] == 0x20) && (1 <= k <= t.len() ==> w[k] == t[k - 1] && 0x30 <= w[k] <= 0x39) && (k == t.len() + 1 ==> w[k] == 0x20)
            && (zone matches Some(z) ==> (k > t.len() + 1 ==> w[k] == z[k - t.len() - 2]) && (k > t.len() + 2 ==> 0x30 <= w[k] <= 0x39))) })
{
    let t = time->0;
    if zone is Some && k > t.len() + 2 { let z = zone->0; assert(z.skip(1)[k - t.len() - 3] == z[k - t.len() - 2]); }
}
proof fn lemma_after_email(s: Seq<u8>, g: int, time: Option<Seq<u8>>, zone: Option<Seq<u8>>)
    requires time_zone_ok(time, zone), 0 <= g, gt_of(s) == g, s.len() == g + 1 + written(time, zone).len(), forall|k: int| 0 <= k < written(time, zone).len() ==> #[trigger] s[g + 1 + k] == written(time, zone)[k]
    ensures sig_time(s) == time, sig_zone(s) == zone
{
    let w = written(time, zone);
    assert forall|k: int| g < k < s.len() implies #[trigger] s[k] == w[k - g - 1] by { assert(s[g + 1 + (k - g - 1)] == w[k - g - 1]); }
    if time is Some {
        let t = time->0;
        let e = g + 2 + t.len();
        lemma_written(time, zone, 0);
        assert(s[g + 1] == 0x20);
        assert forall|k: int| g + 2 <= k < e implies 0x30 <= #[trigger] s[k] <= 0x39 by { lemma_written(time, zone, k - g - 1); }
        if e < s.len() { lemma_written(time, zone, e - g - 1); assert(s[e] == 0x20); }
        lemma_digits(s, g + 2, t.len() as int);
        assert(time_end(s, g + 1) == Some(e));
        assert forall|k: int| 0 <= k < t.len() implies s[g + 2 + k] == #[trigger] t[k] by { lemma_written(time, zone, k + 1); }
        assert(s.subrange(g + 2, e) =~= t);
        if zone is Some {
            let z = zone->0;
            assert forall|k: int| 0 <= k < z.len() implies s[e + 1 + k] == #[trigger] z[k] by { lemma_written(time, zone, t.len() + 2 + k); }
            assert(s[e + 1] == z[0]);
            assert forall|k: int| e + 2 <= k < e + 1 + z.len() implies 0x30 <= #[trigger] s[k] <= 0x39 by { lemma_written(time, zone, k - g - 1); }
            lemma_digits(s, e + 2, z.len() - 1);
            assert(zone_end(s, e) == Some(e + 1 + z.len()));
            assert(s.subrange(e + 1, e + 1 + z.len()) =~= z);
        } else { assert(s.len() == e); assert(zone_end(s, e) is None); }
    } else { assert(time_end(s, g + 1) is None); }
}
/// What is written as a signature is read as it: name, e-mail, time and zone, whatever bytes they have.
pub proof fn lemma_signature(name: Seq<u8>, email: Seq<u8>, time: Option<Seq<u8>>, zone: Option<Seq<u8>>)
    requires plain_field(name), plain_field(email), time_zone_ok(time, zone),
    ensures ({ let s = written_line(name, email, time, zone); sig_valid(s) && sig_name(s) == name && sig_email(s) == email && sig_time(s) == time && sig_zone(s) == zone }),
{
    hide(written);
    let s = written_line(name, email, time, zone);
    let w = written(time, zone);
    let l = name.len() as int;
    let g = l + 2 + email.len();
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] s[g + 1 + k] == w[k] && w[k] != 0x3e by { lemma_written(time, zone, k); }
    assert forall|k: int| g < k < s.len() implies #[trigger] s[k] != 0x3e by { assert(s[g + 1 + (k - g - 1)] == w[k - g - 1]); }
    assert(s[g] == 0x3e);
    lemma_last_gt(s, s.len() as int, g);
    assert forall|k: int| l + 1 < k < g implies #[trigger] s[k] != 0x3c by { assert(s[k] == email[k - l - 2]); }
    assert(s[l] == 0x20 && s[l + 1] == 0x3c);
    lemma_last_lt(s, g, l);
    if l > 0 { assert(s[0] == name[0]); }
    assert(s.subrange(0, l) =~= name);
    if email.len() > 0 { assert(s[l + 2] == email[0]); }
    assert(s.subrange(l + 2, g) =~= email);
    lemma_after_email(s, g, time, zone);
}
// ---------------------------------------------------------------- what the pattern matches
pub open spec fn c_dig() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0x30u8, 0x39u8)) }
pub open spec fn c_dot() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0u8, 9u8)).push((11u8, 255u8)) }
pub open spec fn c_pad() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0u8, 0x20u8)).push((0x22u8, 0x22u8)).push((0x27u8, 0x27u8)).push((0x2cu8, 0x2cu8)).push((0x2eu8, 0x2eu8)).push((0x3au8, 0x3cu8)).push((0x3eu8, 0x3eu8)).push((0x5cu8, 0x5cu8)) }
pub open spec fn c_sp() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0x20u8, 0x20u8)) }
pub open spec fn c_lt() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0x3cu8, 0x3cu8)) }
pub open spec fn c_gt() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0x3eu8, 0x3eu8)) }
pub open spec fn c_sign() -> Seq<(u8, u8)> { Seq::<(u8, u8)>::empty().push((0x2bu8, 0x2bu8)).push((0x2du8, 0x2du8)) }
pub open spec fn p_fin() -> Seq<Item> { seq![Item::Close(0)] }
pub open spec fn p_zone() -> Seq<Item> { seq![Item::One(c_sp())] + (seq![Item::Open(4)] + (seq![Item::One(c_sign())] + (seq![Item::One(c_dig())] + (seq![Item::Star(c_dig())] + (seq![Item::Close(4)] + p_fin()))))) }
pub open spec fn p_zone_opt() -> Seq<Item> { seq![Item::Opt(6)] + p_zone() }
pub open spec fn p_time() -> Seq<Item> { seq![Item::One(c_sp())] + (seq![Item::Open(3)] + (seq![Item::One(c_dig())] + (seq![Item::Star(c_dig())] + (seq![Item::Close(3)] + p_zone_opt())))) }
pub open spec fn p_rest() -> Seq<Item> { seq![Item::Opt(12)] + p_time() }
pub open spec fn p_end() -> Seq<Item> { seq![Item::Star(c_pad())] + (seq![Item::One(c_gt())] + p_rest()) }
pub open spec fn p_email() -> Seq<Item> { seq![Item::Star(c_dot())] + (seq![Item::Close(2)] + p_end()) }
pub open spec fn p_mail() -> Seq<Item> { seq![Item::Star(c_pad())] + (seq![Item::Open(2)] + p_email()) }
pub open spec fn p_lt() -> Seq<Item> { seq![Item::One(c_sp())] + (seq![Item::One(c_lt())] + p_mail()) }
pub open spec fn p_mid() -> Seq<Item> { seq![Item::Star(c_pad())] + p_lt() }
pub open spec fn p_name() -> Seq<Item> { seq![Item::Star(c_dot())] + (seq![Item::Close(1)] + p_mid()) }
pub open spec fn p_all() -> Seq<Item> { seq![Item::Open(0)] + (seq![Item::Star(c_pad())] + (seq![Item::Open(1)] + p_name())) }
proof fn lemma_pad(x: u8) ensures in_class(c_pad(), x) == padding(x)
{
    let c = c_pad();
    assert(c[0] == (0u8, 0x20u8) && c[1] == (0x22u8, 0x22u8) && c[2] == (0x27u8, 0x27u8) && c[3] == (0x2cu8, 0x2cu8) && c[4] == (0x2eu8, 0x2eu8) && c[5] == (0x3au8, 0x3cu8) && c[6] == (0x3eu8, 0x3eu8) && c[7] == (0x5cu8, 0x5cu8));
}
/// the program of the pattern, item by item
pub proof fn lemma_program()
    ensures p_all() == seq![Item::Open(0), Item::Star(c_pad()), Item::Open(1), Item::Star(c_dot()), Item::Close(1), Item::Star(c_pad()), Item::One(c_sp()), Item::One(c_lt()), Item::Star(c_pad()), Item::Open(2), Item::Star(c_dot()), Item::Close(2), Item::Star(c_pad()), Item::One(c_gt()), Item::Opt(12), Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]
{
    let zone = p_zone();
    assert(zone =~= seq![Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
    let time = p_time();
    assert(time =~= seq![Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
    let end = p_end();
    assert(end =~= seq![Item::Star(c_pad()), Item::One(c_gt()), Item::Opt(12), Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
    let mail = p_mail();
    assert(mail =~= seq![Item::Star(c_pad()), Item::Open(2), Item::Star(c_dot()), Item::Close(2), Item::Star(c_pad()), Item::One(c_gt()), Item::Opt(12), Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
    let lt = p_lt();
    assert(lt =~= seq![Item::One(c_sp()), Item::One(c_lt()), Item::Star(c_pad()), Item::Open(2), Item::Star(c_dot()), Item::Close(2), Item::Star(c_pad()), Item::One(c_gt()), Item::Opt(12), Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
    let name = p_name();
    assert(name =~= seq![Item::Star(c_dot()), Item::Close(1), Item::Star(c_pad()), Item::One(c_sp()), Item::One(c_lt()), Item::Star(c_pad()), Item::Open(2), Item::Star(c_dot()), Item::Close(2), Item::Star(c_pad()), Item::One(c_gt()), Item::Opt(12), Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
    assert(p_all() =~= seq![Item::Open(0), Item::Star(c_pad()), Item::Open(1), Item::Star(c_dot()), Item::Close(1), Item::Star(c_pad()), Item::One(c_sp()), Item::One(c_lt()), Item::Star(c_pad()), Item::Open(2), Item::Star(c_dot()), Item::Close(2), Item::Star(c_pad()), Item::One(c_gt()), Item::Opt(12), Item::One(c_sp()), Item::Open(3), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(3), Item::Opt(6), Item::One(c_sp()), Item::Open(4), Item::One(c_sign()), Item::One(c_dig()), Item::Star(c_dig()), Item::Close(4), Item::Close(0)]);
}
proof fn lemma_run_dig(s: Seq<u8>, i: int)
    ensures run(c_dig(), s, i) == digits(s, i)
    decreases s.len() - i
{ if 0 <= i < s.len() { lemma_class1(0x30, 0x39, s[i]); lemma_run_dig(s, i + 1); } }
proof fn lemma_padded(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len()
    ensures padded(s, i, n) == (if run(c_pad(), s, i) < n - i { run(c_pad(), s, i) as int } else { n - i })
    decreases n - i
{ lemma_run(c_pad(), s, i); if i < n { lemma_pad(s[i]); lemma_padded(s, i + 1, n); } }
proof fn lemma_run_dot(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures run(c_dot(), s, i) == s.len() - i
    decreases s.len() - i
{ if i < s.len() { lemma_class2((0u8, 9u8), (11u8, 255u8), s[i]); assert(s[i] != 0x0a); lemma_run_dot(s, i + 1); } }
proof fn lemma_gt_last(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures -1 <= last_gt(s, n) < n, last_gt(s, n) >= 0 ==> s[last_gt(s, n)] == 0x3e, forall|k: int| last_gt(s, n) < k < n ==> #[trigger] s[k] != 0x3e
    decreases n
{ if n > 0 && s[n - 1] != 0x3e { lemma_gt_last(s, n - 1); } }
proof fn lemma_lt_last(s: Seq<u8>, n: int)
    requires n <= s.len()
    ensures -1 <= last_lt(s, n), last_lt(s, n) >= 0 ==> last_lt(s, n) + 2 <= n && s[last_lt(s, n)] == 0x20 && s[last_lt(s, n) + 1] == 0x3c,
        forall|k: int| #![trigger s[k]] last_lt(s, n) < k && 0 <= k && k + 2 <= n ==> !(s[k] == 0x20 && s[k + 1] == 0x3c)
    decreases n
{ if n > 1 && !(s[n - 2] == 0x20 && s[n - 1] == 0x3c) { lemma_lt_last(s, n - 1); } }
pub open spec fn zone_slots(s: Seq<u8>, i: int, v: Seq<int>) -> Seq<int> { match zone_end(s, i) { Some(e) => v.update(8, i + 1).update(9, e).update(1, e), None => v.update(1, i) } }
pub open spec fn time_slots(s: Seq<u8>, i: int, v: Seq<int>) -> Seq<int> { match time_end(s, i) { Some(e) => zone_slots(s, e, v.update(6, i + 1).update(7, e)), None => v.update(1, i) } }
proof fn lemma_fin(s: Seq<u8>, i: int, v: Seq<int>) ensures best(p_fin(), s, i, v) == Some(v.update(1, i))
{ assert(p_fin().skip(1) =~= Seq::<Item>::empty()); assert(best(p_fin().skip(1), s, i, v.update(1, i)) == Some(v.update(1, i))); }
proof fn lemma_zone(s: Seq<u8>, i: int, v: Seq<int>)
    requires i >= 0
    ensures best(p_zone_opt(), s, i, v) == Some(zone_slots(s, i, v))
{
    let q6 = seq![Item::Close(4)] + p_fin();
    let q5 = seq![Item::Star(c_dig())] + q6;
    let q4 = seq![Item::One(c_dig())] + q5;
    let q3 = seq![Item::One(c_sign())] + q4;
    let q2 = seq![Item::Open(4)] + q3;
    assert(p_zone().skip(6) =~= p_fin());
    lemma_opt(6, p_zone(), s, i, v);
    lemma_fin(s, i, v);
    lemma_one(c_sp(), q2, s, i, v);
    if i < s.len() { lemma_class1(0x20, 0x20, s[i]); }
    lemma_open(4, q3, s, i + 1, v);
    let v2 = v.update(8, i + 1);
    lemma_one(c_sign(), q4, s, i + 1, v2);
    if i + 1 < s.len() { lemma_class2((0x2bu8, 0x2bu8), (0x2du8, 0x2du8), s[i + 1]); }
    lemma_one(c_dig(), q5, s, i + 2, v2);
    if i + 2 < s.len() {
        lemma_class1(0x30, 0x39, s[i + 2]);
        lemma_run_dig(s, i + 3);
        let n = run(c_dig(), s, i + 3) as int;
        lemma_close(4, p_fin(), s, i + 3 + n, v2);
        lemma_fin(s, i + 3 + n, v2.update(9, i + 3 + n));
        lemma_star(c_dig(), q6, s, i + 3, v2, n);
    }
}
proof fn lemma_time(s: Seq<u8>, i: int, v: Seq<int>)
    requires i >= 0
    ensures best(p_rest(), s, i, v) == Some(time_slots(s, i, v))
{
    let q5 = seq![Item::Close(3)] + p_zone_opt();
    let q4 = seq![Item::Star(c_dig())] + q5;
    let q3 = seq![Item::One(c_dig())] + q4;
    let q2 = seq![Item::Open(3)] + q3;
    assert(p_time().skip(12) =~= p_fin());
    lemma_opt(12, p_time(), s, i, v);
    lemma_fin(s, i, v);
    lemma_one(c_sp(), q2, s, i, v);
    if i < s.len() { lemma_class1(0x20, 0x20, s[i]); }
    lemma_open(3, q3, s, i + 1, v);
    let v2 = v.update(6, i + 1);
    lemma_one(c_dig(), q4, s, i + 1, v2);
    if i + 1 < s.len() {
        lemma_class1(0x30, 0x39, s[i + 1]);
        lemma_run_dig(s, i + 2);
        let n = run(c_dig(), s, i + 2) as int;
        lemma_close(3, p_zone_opt(), s, i + 2 + n, v2);
        lemma_zone(s, i + 2 + n, v2.update(7, i + 2 + n));
        lemma_star(c_dig(), q5, s, i + 2, v2, n);
    }
}
/// after the e-mail: padding, `>`
proof fn lemma_end(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len()
    ensures i == gt_of(s) ==> best(p_end(), s, i, v) == Some(time_slots(s, i + 1, v)), i > gt_of(s) ==> best(p_end(), s, i, v) is None
{
    let g = gt_of(s);
    let q = seq![Item::One(c_gt())] + p_rest();
    lemma_gt_last(s, s.len() as int);
    lemma_run(c_pad(), s, i);
    assert forall|j: int| j >= i && j > g implies (#[trigger] best(q, s, j, v)) is None by {
        lemma_one(c_gt(), p_rest(), s, j, v);
        if j < s.len() { lemma_class1(0x3e, 0x3e, s[j]); assert(s[j] != 0x3e); }
    }
    if i == g {
        lemma_one(c_gt(), p_rest(), s, i, v);
        lemma_class1(0x3e, 0x3e, s[i]);
        lemma_time(s, i + 1, v);
        lemma_star(c_pad(), q, s, i, v, 0);
    }
    if i > g { lemma_star_none(c_pad(), q, s, i, v); }
}
proof fn lemma_email(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures i <= gt_of(s) ==> best(p_email(), s, i, v) == Some(time_slots(s, gt_of(s) + 1, v.update(5, gt_of(s)))), i > gt_of(s) ==> best(p_email(), s, i, v) is None
{
    let g = gt_of(s);
    let q = seq![Item::Close(2)] + p_end();
    lemma_gt_last(s, s.len() as int);
    lemma_run_dot(s, i);
    assert forall|j: int| i <= j <= s.len() && j > g implies (#[trigger] best(q, s, j, v)) is None by { lemma_close(2, p_end(), s, j, v); lemma_end(s, j, v.update(5, j)); }
    if i <= g {
        lemma_close(2, p_end(), s, g, v);
        lemma_end(s, g, v.update(5, g));
        lemma_star(c_dot(), q, s, i, v, g - i);
    } else { lemma_star_none(c_dot(), q, s, i, v); }
}
pub open spec fn mail_slots(s: Seq<u8>, i: int, v: Seq<int>) -> Seq<int> { time_slots(s, gt_of(s) + 1, v.update(4, i + padded(s, i, gt_of(s))).update(5, gt_of(s))) }
proof fn lemma_mail(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures i <= gt_of(s) ==> best(p_mail(), s, i, v) == Some(mail_slots(s, i, v)), i > gt_of(s) ==> best(p_mail(), s, i, v) is None
{
    let g = gt_of(s);
    let q = seq![Item::Open(2)] + p_email();
    lemma_gt_last(s, s.len() as int);
    lemma_run(c_pad(), s, i);
    assert forall|j: int| i <= j <= s.len() && j > g implies (#[trigger] best(q, s, j, v)) is None by { lemma_open(2, p_email(), s, j, v); lemma_email(s, j, v.update(4, j)); }
    if i <= g {
        lemma_padded(s, i, g);
        let m = padded(s, i, g) as int;
        lemma_open(2, p_email(), s, i + m, v);
        lemma_email(s, i + m, v.update(4, i + m));
        assert forall|j: int| i + m < j <= i + run(c_pad(), s, i) implies (#[trigger] best(q, s, j, v)) is None by { }
        lemma_star(c_pad(), q, s, i, v, m);
    } else { lemma_star_none(c_pad(), q, s, i, v); }
}
proof fn lemma_lt(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures i > lt_of(s) ==> best(p_lt(), s, i, v) is None, i == lt_of(s) ==> best(p_lt(), s, i, v) == Some(mail_slots(s, i + 2, v))
{
    lemma_gt_last(s, s.len() as int);
    lemma_lt_last(s, gt_of(s));
    let q = seq![Item::One(c_lt())] + p_mail();
    lemma_one(c_sp(), q, s, i, v);
    if i < s.len() { lemma_class1(0x20, 0x20, s[i]); }
    lemma_one(c_lt(), p_mail(), s, i + 1, v);
    if i + 1 < s.len() { lemma_class1(0x3c, 0x3c, s[i + 1]); lemma_mail(s, i + 2, v); assert(s[i] == s[i]); }
}
proof fn lemma_mid(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures i > lt_of(s) ==> best(p_mid(), s, i, v) is None, i == lt_of(s) ==> best(p_mid(), s, i, v) == Some(mail_slots(s, i + 2, v))
{
    lemma_run(c_pad(), s, i);
    assert forall|j: int| i <= j <= s.len() && j > lt_of(s) implies (#[trigger] best(p_lt(), s, j, v)) is None by { lemma_lt(s, j, v); }
    if i == lt_of(s) { lemma_lt(s, i, v); lemma_star(c_pad(), p_lt(), s, i, v, 0); }
    if i > lt_of(s) { lemma_star_none(c_pad(), p_lt(), s, i, v); }
}
proof fn lemma_name(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures i > lt_of(s) ==> best(p_name(), s, i, v) is None, i <= lt_of(s) ==> best(p_name(), s, i, v) == Some(mail_slots(s, lt_of(s) + 2, v.update(3, lt_of(s))))
{
    let l = lt_of(s);
    let q = seq![Item::Close(1)] + p_mid();
    lemma_gt_last(s, s.len() as int);
    lemma_lt_last(s, gt_of(s));
    lemma_run_dot(s, i);
    assert forall|j: int| i <= j <= s.len() && j > l implies (#[trigger] best(q, s, j, v)) is None by { lemma_close(1, p_mid(), s, j, v); lemma_mid(s, j, v.update(3, j)); }
    if i <= l {
        lemma_close(1, p_mid(), s, l, v);
        lemma_mid(s, l, v.update(3, l));
        lemma_star(c_dot(), q, s, i, v, l - i);
    } else { lemma_star_none(c_dot(), q, s, i, v); }
}
pub open spec fn all_slots(s: Seq<u8>, v: Seq<int>) -> Seq<int> { mail_slots(s, lt_of(s) + 2, v.update(0, 0).update(2, padded(s, 0, lt_of(s)) as int).update(3, lt_of(s))) }
proof fn lemma_all(s: Seq<u8>, i: int, v: Seq<int>)
    requires 0 <= i <= s.len(), absent(s, 0x0a)
    ensures lt_of(s) < 0 ==> best(p_all(), s, i, v) is None, 0 <= lt_of(s) && i == 0 ==> best(p_all(), s, i, v) == Some(all_slots(s, v))
{
    let l = lt_of(s);
    let q = seq![Item::Open(1)] + p_name();
    let q0 = seq![Item::Star(c_pad())] + q;
    lemma_gt_last(s, s.len() as int);
    lemma_lt_last(s, gt_of(s));
    lemma_run(c_pad(), s, i);
    lemma_open(0, q0, s, i, v);
    let v = v.update(0, i);
    assert forall|j: int| i <= j <= s.len() && j > l implies (#[trigger] best(q, s, j, v)) is None by { lemma_open(1, p_name(), s, j, v); lemma_name(s, j, v.update(2, j)); }
    if l < 0 { lemma_star_none(c_pad(), q, s, i, v); }
    else if i == 0 {
        lemma_padded(s, 0, l);
        let m = padded(s, 0, l) as int;
        lemma_open(1, p_name(), s, m, v);
        lemma_name(s, m, v.update(2, m));
        assert forall|j: int| m < j <= run(c_pad(), s, 0) implies (#[trigger] best(q, s, j, v)) is None by { }
        lemma_star(c_pad(), q, s, 0, v, m);
    }
}
proof fn lemma_no_match(s: Seq<u8>, i: int)
    requires 0 <= i, absent(s, 0x0a), lt_of(s) < 0
    ensures search(p_all(), s, i) is None
    decreases s.len() + 1 - i
{ if i <= s.len() { lemma_all(s, i, no_slots()); lemma_no_match(s, i + 1); } }
/// what the pattern finds in a line
pub broadcast proof fn lemma_search(s: Seq<u8>)
    requires absent(s, 0x0a)
    ensures #[trigger] search(p_all(), s, 0) == (if sig_valid(s) { Some(all_slots(s, no_slots())) } else { None })
{ lemma_gt_last(s, s.len() as int); lemma_lt_last(s, gt_of(s)); if sig_valid(s) { lemma_all(s, 0, no_slots()); } else { lemma_no_match(s, 0); } }
/// where the fields are
pub open spec fn fields_at(s: Seq<u8>, v: Seq<int>) -> bool {
    v[3] >= 0 && s.subrange(v[2], v[3]) == sig_name(s) && v[5] >= 0 && s.subrange(v[4], v[5]) == sig_email(s)
    && (match sig_time(s) { Some(t) => v[7] >= 0 && s.subrange(v[6], v[7]) == t, None => v[7] < 0 })
    && (match sig_zone(s) { Some(z) => v[9] >= 0 && s.subrange(v[8], v[9]) == z, None => v[9] < 0 })
}
pub broadcast proof fn lemma_fields(s: Seq<u8>)
    requires absent(s, 0x0a), sig_valid(s)
    ensures fields_at(s, #[trigger] all_slots(s, no_slots()))
{ lemma_gt_last(s, s.len() as int); lemma_lt_last(s, gt_of(s)); }
pub broadcast group sig_lemmas { lemma_search, lemma_fields }
