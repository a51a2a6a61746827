// ---------------------------------------------------------------- the parsers of nom (streaming)
/// what a decoder gives on bytes: a value and the number of bytes it took, not enough bytes, or bytes it refuses
pub enum PR<X> { Ok(X, int), Inc, Bad }
impl<X> PR<X> {
    pub open spec fn n(self) -> int { match self { PR::Ok(_, n) => n, _ => 0 } }
    pub open spec fn x(self) -> X { self->Ok_0 }
    pub open spec fn and<Y>(self, q: PR<Y>) -> PR<(X, Y)> {
        match self { PR::Ok(x, n) => match q { PR::Ok(y, m) => PR::Ok((x, y), n + m), PR::Inc => PR::Inc, PR::Bad => PR::Bad }, PR::Inc => PR::Inc, PR::Bad => PR::Bad }
    }
    /// takes no more than there is
    pub open spec fn within(self, b: Seq<u8>) -> bool { self matches PR::Ok(_, n) ==> 0 <= n <= b.len() }
}
pub type NomRes<'a, X> = Result<(&'a [u8], X), NomErr<(&'a [u8], NomErrorKind)>>;
/// a word of n bytes
pub open spec fn un32(b: Seq<u8>) -> int { b[0] as int * 0x100_0000 + b[1] as int * 0x1_0000 + b[2] as int * 0x100 + b[3] as int }
pub open spec fn un64(b: Seq<u8>) -> int { un32(b) * 0x1_0000_0000 + un32(b.skip(4)) }
pub open spec fn un_u8(b: Seq<u8>, x: u8) -> bool { x == b[0] }
pub open spec fn un_u32(b: Seq<u8>, x: u32) -> bool { x as int == un32(b) }
pub open spec fn un_i32(b: Seq<u8>, x: i32) -> bool { wrap(x as int, 0x1_0000_0000) == un32(b) }
pub open spec fn un_i64(b: Seq<u8>, x: i64) -> bool { wrap(x as int, 0x1_0000_0000_0000_0000) == un64(b) }
pub struct VVerify<P, F> { pub p: P, pub f: F }
pub fn verify<P, F>(p: P, f: F) -> (r: VVerify<P, F>) ensures r.p == p, r.f == f { VVerify { p, f } }
pub struct VMapRes<P, F> { pub p: P, pub f: F }
pub fn map_res<P, F>(p: P, f: F) -> (r: VMapRes<P, F>) ensures r.p == p, r.f == f { VMapRes { p, f } }
pub struct VMany<P> { pub m: usize, pub n: usize, pub p: P }
pub fn many_m_n<P>(m: usize, n: usize, p: P) -> (r: VMany<P>) ensures r.m == m, r.n == n, r.p == p { VMany { m, n, p } }
pub struct VTake { pub n: usize }
pub fn take(n: usize) -> (r: VTake) ensures r.n == n { VTake { n } }
pub open spec fn took(i: Seq<u8>, rest: Seq<u8>, n: int) -> bool { 0 <= n <= i.len() && rest == i.skip(n) }
impl VTake {
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, &'a [u8]>)
        ensures match r {
            Ok((rest, x)) => took(i@, rest@, self.n as int) && x@ == i@.take(self.n as int),
            Err(NomErr::Incomplete(_)) => i@.len() < self.n,
            _ => false }
    { unimplemented!() }
}
impl<F: Fn(&[u8]) -> bool> VVerify<VTake, F> {
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, &'a [u8]>)
        requires forall|x: &[u8]| #[trigger] self.f.requires((x,))
        ensures match r {
            Ok((rest, x)) => took(i@, rest@, self.p.n as int) && x@ == i@.take(self.p.n as int) && self.f.ensures((x,), true),
            Err(NomErr::Incomplete(_)) => i@.len() < self.p.n,
            Err(NomErr::Error(_)) => i@.len() >= self.p.n && exists|x: &[u8]| x@ == i@.take(self.p.n as int) && #[trigger] self.f.ensures((x,), false),
            _ => false }
    { unimplemented!() }
}
impl<F> VMapRes<VTake, F> {
    #[verifier::external_body]
    pub fn call<'a, X, E>(self, i: &'a [u8]) -> (r: NomRes<'a, X>) where F: Fn(&[u8]) -> Result<X, E>
        requires forall|x: &[u8]| #[trigger] self.f.requires((x,))
        ensures match r {
            Ok((rest, y)) => took(i@, rest@, self.p.n as int) && exists|x: &[u8]| x@ == i@.take(self.p.n as int) && #[trigger] self.f.ensures((x,), Ok(y)),
            Err(NomErr::Incomplete(_)) => i@.len() < self.p.n,
            Err(NomErr::Error(_)) => i@.len() >= self.p.n && exists|x: &[u8], e: E| x@ == i@.take(self.p.n as int) && #[trigger] self.f.ensures((x,), Err(e)),
            _ => false }
    { unimplemented!() }
}
@for T,n in u8:1 u32:4 i32:4 i64:8
#[allow(non_camel_case_types)]
pub struct be_%T%;
impl be_%T% {
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, %T%>)
        ensures match r { Ok((rest, x)) => took(i@, rest@, %n%) && un_%T%(i@, x), Err(NomErr::Incomplete(_)) => i@.len() < %n%, _ => false }
    { unimplemented!() }
}
impl<F: Fn(&%T%) -> bool> VVerify<be_%T%, F> {
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, %T%>)
        requires forall|x: &%T%| #[trigger] self.f.requires((x,))
        ensures match r {
            Ok((rest, x)) => took(i@, rest@, %n%) && un_%T%(i@, x) && self.f.ensures((&x,), true),
            Err(NomErr::Incomplete(_)) => i@.len() < %n%,
            Err(NomErr::Error(_)) => i@.len() >= %n% && exists|x: &%T%| un_%T%(i@, *x) && #[trigger] self.f.ensures((x,), false),
            _ => false }
    { unimplemented!() }
}
@endfor
@for T,n in i8:1 i16:2 f32:4 f64:8
#[allow(non_camel_case_types)]
pub struct be_%T%;
@endfor
@for T,n in i8:1 u8:1 i16:2 i32:4 f32:4 f64:8
impl VMany<be_%T%> {
    /// memory for m values is allocated first: they must be there
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, Vec<%T%>>)
        requires self.m == self.n, self.m * %n% <= i@.len()
        ensures match r {
            Ok((rest, x)) => took(i@, rest@, self.m * %n%) && x@.len() == self.m && be_all_%T%(x@) == i@.take(self.m * %n%),
            _ => false }
    { unimplemented!() }
}
@endfor
pub open spec fn differs(b: Seq<u8>, t: Seq<u8>) -> bool { exists|j: int| 0 <= j < b.len() && j < t.len() && #[trigger] b[j] != t[j] }
pub open spec fn d_tag(b: Seq<u8>, t: Seq<u8>) -> PR<()> { if differs(b, t) { PR::Bad } else if b.len() < t.len() { PR::Inc } else { PR::Ok((), t.len() as int) } }
impl<'b, const N: usize> VBytes for &'b [u8; N] { open spec fn bseq(&self) -> Seq<u8> { (**self)@ } }
impl<'b> VBytes for &'b [u8] { open spec fn bseq(&self) -> Seq<u8> { (**self)@ } }
#[verifier::external_body]
pub struct VTag { _x: u8 }
impl VTag {
    pub uninterp spec fn t(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, &'a [u8]>)
        ensures match r {
            Ok((rest, x)) => d_tag(i@, self.t()) is Ok && took(i@, rest@, self.t().len() as int) && x@ == self.t(),
            Err(NomErr::Incomplete(_)) => d_tag(i@, self.t()) is Inc,
            Err(NomErr::Error(_)) => d_tag(i@, self.t()) is Bad,
            _ => false }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn tag<T: VBytes>(t: T) -> (r: VTag) ensures r.t() == t.bseq() { unimplemented!() }
pub struct VAlt { pub a: VTag, pub b: VTag }
pub fn alt(p: (VTag, VTag)) -> (r: VAlt) ensures r.a == p.0, r.b == p.1 { VAlt { a: p.0, b: p.1 } }
impl VAlt {
    /// the second one is tried when the first one refuses, not when it lacks bytes
    #[verifier::external_body]
    pub fn call<'a>(self, i: &'a [u8]) -> (r: NomRes<'a, &'a [u8]>)
        ensures match r {
            Ok((rest, x)) => {
                ||| d_tag(i@, self.a.t()) is Ok && took(i@, rest@, self.a.t().len() as int) && x@ == self.a.t()
                ||| d_tag(i@, self.a.t()) is Bad && d_tag(i@, self.b.t()) is Ok && took(i@, rest@, self.b.t().len() as int) && x@ == self.b.t()
            },
            Err(NomErr::Incomplete(_)) => d_tag(i@, self.a.t()) is Inc || (d_tag(i@, self.a.t()) is Bad && d_tag(i@, self.b.t()) is Inc),
            Err(NomErr::Error(_)) => d_tag(i@, self.a.t()) is Bad && d_tag(i@, self.b.t()) is Bad,
            _ => false }
    { unimplemented!() }
}
#[verifier::external]
impl std::fmt::Debug for VStr { fn fmt(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { unimplemented!() } }

@for T in usize u64 i64
impl VIter<%T%> {
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<%T%>)
        requires self.idx() == 0
        ensures match r { None => self.seq().len() == 0, Some(m) => (exists|i: int| 0 <= i < self.seq().len() && #[trigger] self.seq()[i] == m) && forall|i: int| 0 <= i < self.seq().len() ==> m <= #[trigger] self.seq()[i] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<%T%>)
        requires self.idx() == 0
        ensures match r { None => self.seq().len() == 0, Some(m) => (exists|i: int| 0 <= i < self.seq().len() && #[trigger] self.seq()[i] == m) && forall|i: int| 0 <= i < self.seq().len() ==> m >= #[trigger] self.seq()[i] }
    { unimplemented!() }
}
@endfor
