// Stand-ins for the parts of std the crate uses. Everything marked
// external_body / uninterp here is an ASSUMPTION about std, listed in the evidence.

// ---------------------------------------------------------------- text
#[verifier::external_body]
pub struct VStr { _x: u8 }
impl View for VStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

/// UTF-8 encoding of a sequence of chars.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// The char sequence a byte sequence is the UTF-8 encoding of, if any.
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| utf8(s) == b }
pub uninterp spec fn from_utf8(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_inverse(s: Seq<char>)
    ensures from_utf8(#[trigger] utf8(s)) == s
{ }
/// the encoding of ASCII characters is one byte each
#[verifier::external_body]
pub proof fn axiom_utf8_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128
    ensures utf8(s) == Seq::new(s.len(), |i: int| s[i] as u32 as u8)
{ }
/// two VStr with the same characters are the same value
#[verifier::external_body]
pub broadcast proof fn axiom_vstr_ext(a: VStr, b: VStr)
    requires #[trigger] a.view() == #[trigger] b.view()
    ensures a == b
{ }

#[verifier::external_body]
pub fn vstr_lit(cs: &[char]) -> (r: &'static VStr) ensures r@ == cs@ { unimplemented!() }

impl VStr {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VStr) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vto_owned(&self) -> (r: VStr) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &VStr) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == utf8(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == utf8(self@).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &VStr) -> (r: VStr) ensures r == *s { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &VStr) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(b: Vec<u8>) -> (r: Result<VStr, VUtf8Error>)
        ensures match r { Ok(s) => utf8(s@) == b@, Err(_) => !is_utf8(b@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &VStr) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: VIter<char>) ensures r.seq() == self@, r.idx() == 0 { unimplemented!() }
}
impl Clone for VStr {
    #[verifier::external_body]
    fn clone(&self) -> (r: VStr) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct VUtf8Error { _x: u8 }
impl PartialEq for VStr {
    #[verifier::external_body]
    fn eq(&self, o: &VStr) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for VStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VStr) -> bool { self@ == o@ }
}
impl PartialEq<&VStr> for VStr {
    #[verifier::external_body]
    fn eq(&self, o: &&VStr) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<&VStr> for VStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&VStr) -> bool { self@ == o@ }
}

/// std::convert::AsRef<str>
pub trait VAsRefStr: Sized {
    spec fn sv(&self) -> VStr;
    fn as_ref(&self) -> (r: &VStr) ensures *r == self.sv();
}
impl VAsRefStr for VStr {
    open spec fn sv(&self) -> VStr { *self }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &VStr) { unimplemented!() }
}
impl VAsRefStr for &VStr {
    open spec fn sv(&self) -> VStr { **self }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &VStr) { unimplemented!() }
}

// ---------------------------------------------------------------- char
pub open spec fn ascii_alnum(c: char) -> bool {
    ('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z')
}
pub open spec fn ascii(c: char) -> bool { (c as u32) < 128 }
pub uninterp spec fn uni_alnum(c: char) -> bool;   // alphanumeric beyond ASCII: left open
pub trait VChar: Sized {
    spec fn ch(&self) -> char;
    fn vis_ascii(&self) -> (r: bool) ensures r == ascii(self.ch());
    fn vis_alphanumeric(self) -> (r: bool) ensures r == (if ascii(self.ch()) { ascii_alnum(self.ch()) } else { uni_alnum(self.ch()) });
    fn is_ascii_alphanumeric(&self) -> (r: bool) ensures r == ascii_alnum(self.ch());
    fn is_ascii_alphabetic(&self) -> (r: bool) ensures r == (ascii_alnum(self.ch()) && !('0' <= self.ch() && self.ch() <= '9'));
    fn is_ascii_digit(&self) -> (r: bool) ensures r == ('0' <= self.ch() && self.ch() <= '9');
}
impl VChar for char {
    open spec fn ch(&self) -> char { *self }
    #[verifier::external_body]
    fn vis_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vis_alphanumeric(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
}

// ---------------------------------------------------------------- iterators
/// An iterator as the sequence of the items it will give and a position.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { _x: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    pub fn vhas_next(&self) -> (r: bool)
        requires 0 <= self.idx() <= self.seq().len()
        ensures r == (self.idx() < self.seq().len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vnext(&mut self) -> (r: T)
        requires 0 <= old(self).idx() < old(self).seq().len()
        ensures r == old(self).seq()[old(self).idx()], final(self).seq() == old(self).seq(), final(self).idx() == old(self).idx() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).idx() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            old(self).idx() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).idx()]) && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self).seq().len() ==> r is None && final(self).idx() == old(self).idx(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires self.idx() == 0 ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        requires self.idx() == 0
        ensures r == (if self.seq().len() > 0 { Some(self.seq().last()) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq().len() == self.seq().len(), forall|i: int| #![trigger r.seq()[i]] 0 <= i < r.seq().len() ==> r.seq()[i] == self.seq()[self.seq().len() - 1 - i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U, I: VIntoIter<U>>(self, o: I) -> (r: VIter<(T, U)>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq().len() == (if self.seq().len() <= o.items().len() { self.seq().len() } else { o.items().len() }),
            forall|i: int| #![trigger r.seq()[i]] 0 <= i < r.seq().len() ==> r.seq()[i] == (self.seq()[i], o.items()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(self, n: usize) -> (r: Option<T>)
        requires self.idx() == 0
        ensures r == (if n < self.seq().len() { Some(self.seq()[n as int]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
        ensures match r {
            Some(k) => k < self.seq().len() && call_ensures(f, (self.seq()[k as int],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] self.seq()[i],), false),
            None => forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],)),
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < self.seq().len() && #[trigger] self.seq()[k] == x && call_ensures(f, (&self.seq()[k],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] self.seq()[i],), false),
            None => forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (&#[trigger] self.seq()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
        ensures r ==> forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.seq().len() && call_ensures(f, (#[trigger] self.seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), false),
            r ==> exists|i: int| 0 <= i < self.seq().len() && call_ensures(f, (#[trigger] self.seq()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
        ensures r.idx() == 0, r.seq().len() == self.seq().len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger self.seq()[i]] 0 <= i < r.seq().len() ==> call_ensures(f, (self.seq()[i],), r.seq()[i])
    { unimplemented!() }
    /// the kept items, with the increasing positions they come from
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],)),
        ensures r.idx() == 0, exists|p: Seq<bool>| #[trigger] kept_by(self.seq(), p, r.seq())
            && forall|i: int| #![trigger p[i]] #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> call_ensures(f, (&self.seq()[i],), p[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn partition<F: Fn(&T) -> bool>(self, f: F) -> (r: (Vec<T>, Vec<T>))
        requires self.idx() == 0, forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],)),
        ensures exists|p: Seq<bool>| #[trigger] kept_by(self.seq(), p, r.0@) && kept_by(self.seq(), seq_not(p), r.1@)
            && forall|i: int| #![trigger p[i]] #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> call_ensures(f, (&self.seq()[i],), p[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq() == self.seq().skip(if n <= self.seq().len() { n as int } else { self.seq().len() as int }),
            forall|i: int| #![trigger self.seq()[i]] n <= i < self.seq().len() ==> r.seq()[i - n] == self.seq()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq() == self.seq().take(if n <= self.seq().len() { n as int } else { self.seq().len() as int }),
            forall|i: int| #![trigger self.seq()[i]] 0 <= i < self.seq().len() && i < n ==> r.seq()[i] == self.seq()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq().len() == self.seq().len(), self.seq().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == (i as usize, self.seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: VIntoIter<T>>(self, o: I) -> (r: VIter<T>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq() == self.seq() + o.items()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cycle(self) -> (r: VCycle<T>)
        requires self.idx() == 0
        ensures r.base() == self.seq()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires self.idx() == 0, fold_req(self.seq(), init, f)
        ensures fold_ens(self.seq(), init, f, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VFromIter<T>>(self) -> (r: C)
        requires self.idx() == 0
        ensures C::from_iter_ok(self.seq(), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto_iter(self) -> (r: VIter<T>) ensures r == self { unimplemented!() }
    /// rule R4: the iterator a for loop runs over
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.seq().len() - self.idx() { unimplemented!() }
}
pub open spec fn seq_not(p: Seq<bool>) -> Seq<bool> { p.map_values(|b: bool| !b) }
/// r is the subsequence of s at the positions where p holds
pub open spec fn kept_by<T>(s: Seq<T>, p: Seq<bool>, r: Seq<T>) -> bool {
    p.len() == s.len() && r == keep(s, p)
}
pub open spec fn keep<T>(s: Seq<T>, p: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if p.len() > 0 && p.last() { keep(s.drop_last(), p.drop_last()).push(s.last()) }
    else { keep(s.drop_last(), p.drop_last()) }
}
pub proof fn lemma_keep_empty<T>(s: Seq<T>, p: Seq<bool>)
    requires p.len() == s.len()
    ensures keep(s, p).len() == 0 <==> forall|i: int| 0 <= i < s.len() ==> !#[trigger] p[i]
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_empty(s.drop_last(), p.drop_last());
        if p.last() {
            assert(!(forall|i: int| 0 <= i < s.len() ==> !#[trigger] p[i])) by { assert(p[s.len() - 1]); }
        } else {
            assert forall|i: int| 0 <= i < s.len() && (forall|j: int| 0 <= j < s.drop_last().len() ==> !#[trigger] p.drop_last()[j]) implies !#[trigger] p[i] by {
                if i < s.len() - 1 { assert(!p.drop_last()[i]); }
            }
            assert forall|i: int| 0 <= i < s.drop_last().len() && (forall|j: int| 0 <= j < s.len() ==> !#[trigger] p[j]) implies !#[trigger] p.drop_last()[i] by {
                assert(!p[i]);
            }
        }
    }
}
pub proof fn lemma_keep_in<T>(s: Seq<T>, p: Seq<bool>)
    requires p.len() == s.len()
    ensures keep(s, p).len() <= s.len(), forall|i: int| 0 <= i < keep(s, p).len() ==> s.contains(#[trigger] keep(s, p)[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_in(s.drop_last(), p.drop_last());
        assert forall|i: int| 0 <= i < keep(s, p).len() implies s.contains(#[trigger] keep(s, p)[i]) by {
            if p.last() && i == keep(s, p).len() - 1 {
                assert(s[s.len() - 1] == s.last());
            } else {
                let x = keep(s.drop_last(), p.drop_last())[i];
                assert(s.drop_last().contains(x));
                let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == x;
                assert(s[j] == x);
            }
        }
    }
}
pub broadcast proof fn lemma_kept_empty<T>(s: Seq<T>, p: Seq<bool>, r: Seq<T>)
    ensures #[trigger] kept_by(s, p, r) ==> (r.len() == 0 <==> forall|i: int| #![trigger p[i]] #![trigger s[i]] 0 <= i < s.len() ==> !p[i])
{
    if p.len() == s.len() { lemma_keep_empty(s, p); }
}
pub broadcast proof fn lemma_kept_in<T>(s: Seq<T>, p: Seq<bool>, r: Seq<T>)
    ensures #[trigger] kept_by(s, p, r) ==> r.len() <= s.len()
{
    if p.len() == s.len() { lemma_keep_in(s, p); }
}
pub broadcast group group_keep { lemma_kept_empty, lemma_kept_in }
pub open spec fn fold_req<T, B, F: Fn(B, T) -> B>(s: Seq<T>, init: B, f: F) -> bool decreases s.len() {
    s.len() > 0 ==> call_requires(f, (init, s[0])) && forall|b: B| #[trigger] call_ensures(f, (init, s[0]), b) ==> fold_req(s.skip(1), b, f)
}
pub open spec fn fold_ens<T, B, F: Fn(B, T) -> B>(s: Seq<T>, init: B, f: F, r: B) -> bool decreases s.len() {
    if s.len() == 0 { r == init } else { exists|b: B| #[trigger] call_ensures(f, (init, s[0]), b) && fold_ens(s.skip(1), b, f, r) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VCycle<T> { _x: Vec<T> }
impl<T> VCycle<T> {
    pub uninterp spec fn base(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        requires self.base().len() > 0
        ensures r.idx() == 0, r.seq() == cyc(self.base(), n as int)
    { unimplemented!() }
}
/// the first n items of f repeated for ever
#[verifier::opaque]
pub open spec fn cyc<T>(f: Seq<T>, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| f[i % (f.len() as int)]) }
pub trait VFromIter<T>: Sized { spec fn from_iter_ok(s: Seq<T>, r: Self) -> bool; }
impl<T> VFromIter<T> for Vec<T> { open spec fn from_iter_ok(s: Seq<T>, r: Self) -> bool { r@ == s } }

/// things with .iter()
pub trait VSliceIter<T> {
    spec fn iseq(&self) -> Seq<T>;
    fn viter(&self) -> (r: VIter<&T>)
        ensures r.idx() == 0, r.seq().len() == self.iseq().len(), forall|i: int| #![trigger r.seq()[i]] #![trigger self.iseq()[i]] 0 <= i < r.seq().len() ==> *r.seq()[i] == self.iseq()[i];
}
impl<T> VSliceIter<T> for Vec<T> {
    open spec fn iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter(&self) -> (r: VIter<&T>) { unimplemented!() }
}
impl<T> VSliceIter<T> for [T] {
    open spec fn iseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn viter(&self) -> (r: VIter<&T>) { unimplemented!() }
}
/// things with .into_iter()
pub trait VIntoIter<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn vinto_iter(self) -> (r: VIter<T>) ensures r.idx() == 0, r.seq() == self.items();
}
impl<T> VIntoIter<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vinto_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<T> VIntoIter<T> for VIter<T> {
    open spec fn items(&self) -> Seq<T> { self.seq().skip(self.idx()) }
    #[verifier::external_body]
    fn vinto_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
/// what a for loop accepts (rule R4)
pub trait VLoop<T>: Sized {
    spec fn lseq_ok(&self, s: Seq<T>) -> bool;
    fn vloop(self) -> (r: VIter<T>) ensures r.idx() == 0, self.lseq_ok(r.seq());
}
impl<T> VLoop<T> for VIter<T> {
    open spec fn lseq_ok(&self, s: Seq<T>) -> bool { self.idx() == 0 ==> s == self.seq() }
    #[verifier::external_body]
    fn vloop(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<T> VLoop<T> for Vec<T> {
    open spec fn lseq_ok(&self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn vloop(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VLoop<&'a T> for &'a Vec<T> {
    open spec fn lseq_ok(&self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| #![trigger s[i]] #![trigger self@[i]] 0 <= i < s.len() ==> *s[i] == self@[i] }
    #[verifier::external_body]
    fn vloop(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VLoop<&'a T> for &'a [T] {
    open spec fn lseq_ok(&self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| #![trigger s[i]] #![trigger self@[i]] 0 <= i < s.len() ==> *s[i] == self@[i] }
    #[verifier::external_body]
    fn vloop(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub fn vinto<T, I: VLoop<T>>(i: I) -> (r: VIter<T>) ensures r.idx() == 0, i.lseq_ok(r.seq()) { i.vloop() }

// ---------------------------------------------------------------- slices, vectors
pub trait VSlice<T> {
    spec fn sseq(&self) -> Seq<T>;
    fn vto_vec(&self) -> (r: Vec<T>) ensures r@ == self.sseq();
    fn vto_owned(&self) -> (r: Vec<T>) ensures r@ == self.sseq();
}
impl<T> VSlice<T> for [T] {
    open spec fn sseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vto_owned(&self) -> (r: Vec<T>) { unimplemented!() }
}

// ---------------------------------------------------------------- cells
/// RefCell: a value read through shared references. Its snapshot (equality of
/// VRefCell values) includes the identity of the cell.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VRefCell<T> { _x: Vec<T> }
impl<T> VRefCell<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: VRefCell<T>) ensures r.val() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() }
}

// ---------------------------------------------------------------- numbers
pub fn cmp_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub trait VExtend<T> {
    spec fn eseq(&self) -> Seq<T>;
    fn vextend(&mut self, i: VIter<T>) requires i.idx() == 0 ensures final(self).eseq() == old(self).eseq() + i.seq();
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn eseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vextend(&mut self, i: VIter<T>) { unimplemented!() }
}
/// Rc::ptr_eq: the snapshot of a dimension includes the identity of its cells
#[verifier::external_body]
pub fn vrc_ptr_eq<T>(a: &Rc<T>, b: &Rc<T>) -> (r: bool) ensures r == (**a == **b) { unimplemented!() }
/// (a..b) used as an iterator
#[verifier::external_body]
pub fn vrange(a: usize, b: usize) -> (r: VIter<usize>)
    ensures r.idx() == 0, r.seq().len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == a + i
{ unimplemented!() }
/// cloning an Rc gives another handle of the same value
#[verifier::external_body]
pub broadcast proof fn axiom_rc_cloned<T>(a: Rc<T>, b: Rc<T>)
    ensures #[trigger] vstd::pervasive::cloned(a, b) ==> a == b
{ }

// ---------------------------------------------------------------- allocations sized by a count
/// somebody answers for so many bytes
pub uninterp spec fn alloc_ok(bytes: int) -> bool;
/// memory of the size of what is already in memory
pub broadcast axiom fn axiom_alloc_slice(n: int, s: &[u8])
    ensures n <= s@.len() ==> #[trigger] alloc_ok(n), #[trigger] s@.len() >= 0;
pub broadcast axiom fn axiom_alloc_vec<X>(n: int, s: Vec<X>)
    ensures n <= s@.len() ==> #[trigger] alloc_ok(n), #[trigger] s@.len() >= 0;
pub trait VSize: Sized { spec fn vsize() -> int; }
impl VSize for i8 { open spec fn vsize() -> int { 1 } }
impl VSize for u8 { open spec fn vsize() -> int { 1 } }
impl VSize for i16 { open spec fn vsize() -> int { 2 } }
impl VSize for i32 { open spec fn vsize() -> int { 4 } }
impl VSize for f32 { open spec fn vsize() -> int { 4 } }
impl VSize for f64 { open spec fn vsize() -> int { 8 } }
impl VSize for usize { open spec fn vsize() -> int { 8 } }
#[verifier::external_body]
pub fn valloc_repeat<X: VSize + Copy>(e: X, n: usize) -> (r: Vec<X>)
    requires alloc_ok(n * X::vsize())
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == e
{ vec![e; n] }
#[verifier::external_body]
pub fn valloc_capacity<X>(n: usize) -> (r: Vec<X>)
    requires alloc_ok(n as int)
    ensures r@ == Seq::<X>::empty()
{ Vec::with_capacity(n) }
