// the target has 64-bit addresses
global size_of usize == 8;
// ---------------------------------------------------------------- numbers as bytes
pub open spec fn be16(x: int) -> Seq<u8> { seq![(x / 0x100 % 0x100) as u8, (x % 0x100) as u8] }
#[verifier::opaque]
pub open spec fn be32(x: int) -> Seq<u8> { be16(x / 0x10000) + be16(x % 0x10000) }
#[verifier::opaque]
pub open spec fn be64(x: int) -> Seq<u8> { be32(x / 0x1_0000_0000) + be32(x % 0x1_0000_0000) }
pub broadcast proof fn lemma_be32_len(x: int) ensures #[trigger] be32(x).len() == 4 { reveal(be32); }
pub broadcast proof fn lemma_be64_len(x: int) ensures #[trigger] be64(x).len() == 8 { reveal(be32); reveal(be64); }
/// two's complement
pub open spec fn wrap(x: int, m: int) -> int { if x < 0 { x + m } else { x } }
/// the bit patterns of floating-point values (left abstract)
pub uninterp spec fn f32_bits(x: f32) -> u32;
pub uninterp spec fn f64_bits(x: f64) -> u64;
pub trait VBe<const N: usize>: Sized {
    spec fn be(&self) -> Seq<u8>;
    fn vto_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be();
}
impl VBe<1> for i8 {
    open spec fn be(&self) -> Seq<u8> { seq![wrap(*self as int, 0x100) as u8] }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 1]) { unimplemented!() }
}
impl VBe<1> for u8 {
    open spec fn be(&self) -> Seq<u8> { seq![*self] }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 1]) { unimplemented!() }
}
impl VBe<2> for i16 {
    open spec fn be(&self) -> Seq<u8> { be16(wrap(*self as int, 0x10000)) }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
}
impl VBe<4> for i32 {
    open spec fn be(&self) -> Seq<u8> { be32(wrap(*self as int, 0x1_0000_0000)) }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
}
impl VBe<4> for u32 {
    open spec fn be(&self) -> Seq<u8> { be32(*self as int) }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
}
impl VBe<8> for i64 {
    open spec fn be(&self) -> Seq<u8> { be64(wrap(*self as int, 0x1_0000_0000_0000_0000)) }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
}
impl VBe<4> for f32 {
    open spec fn be(&self) -> Seq<u8> { be32(f32_bits(*self) as int) }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
}
impl VBe<8> for f64 {
    open spec fn be(&self) -> Seq<u8> { be64(f64_bits(*self) as int) }
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
}

// ---------------------------------------------------------------- io
/// std::io::ErrorKind (only the kinds the crate or an edit of it is likely to name)
pub enum IoErrorKind { NotFound, PermissionDenied, AlreadyExists, Interrupted, InvalidInput, InvalidData, UnexpectedEof, WriteZero, Other }
impl Clone for IoErrorKind {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct IoError { _x: u8 }
impl IoError {
    pub uninterp spec fn skind(&self) -> IoErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: IoErrorKind) ensures r == self.skind() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(k: IoErrorKind) -> (r: IoError) ensures r.skind() == k { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body]
pub struct VPath { _x: u8 }
/// std::convert::AsRef<Path>
pub trait VAsRefPath: Sized { spec fn pv(&self) -> VPath; }
impl VAsRefPath for VPath { open spec fn pv(&self) -> VPath { *self } }
impl VAsRefPath for &VPath { open spec fn pv(&self) -> VPath { **self } }
impl VPath {
    pub uninterp spec fn is_empty(self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: VPath) ensures r.is_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: VAsRefPath>(&mut self, p: P) ensures old(self).is_empty() ==> *final(self) == p.pv() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<P: VAsRefPath>(p: P) -> (r: VPath) ensures r == p.pv() { unimplemented!() }
}
impl Clone for VPath {
    #[verifier::external_body]
    fn clone(&self) -> (r: VPath) ensures r == *self { unimplemented!() }
}
pub struct Opts { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }
/// std::fs::OpenOptions
#[verifier::external_body]
pub struct VOpenOptions { _x: u8 }
impl VOpenOptions {
    pub uninterp spec fn o(&self) -> Opts;
    #[verifier::external_body]
    pub fn new() -> (r: VOpenOptions) ensures r.o() == (Opts { read: false, write: false, append: false, truncate: false, create: false, create_new: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, b: bool) -> (r: VOpenOptions) ensures r.o() == (Opts { read: b, ..self.o() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> (r: VOpenOptions) ensures r.o() == (Opts { write: b, ..self.o() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(self, b: bool) -> (r: VOpenOptions) ensures r.o() == (Opts { append: b, ..self.o() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(self, b: bool) -> (r: VOpenOptions) ensures r.o() == (Opts { truncate: b, ..self.o() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn create(self, b: bool) -> (r: VOpenOptions) ensures r.o() == (Opts { create: b, ..self.o() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_new(self, b: bool) -> (r: VOpenOptions) ensures r.o() == (Opts { create_new: b, ..self.o() }) { unimplemented!() }
    /// with create_new the file did not exist; with create_new or truncate it is empty;
    /// without write and append it is never modified
    #[verifier::external_body]
    pub fn open<P: VAsRefPath>(self, p: P) -> (r: Result<VFile, IoError>)
        ensures r is Ok ==> r->Ok_0.opts() == self.o() && r->Ok_0.opened_at() == p.pv() && r->Ok_0.out().pos == 0
            && ((self.o().create_new || self.o().truncate) ==> r->Ok_0.out().data.len() == 0),
            // a file that cannot be opened this way is refused; opening for reading and creating is refused by the system
            (self.o().create_new && path_exists(p.pv())) ==> r is Err,
            r is Ok && !self.o().create_new && !self.o().truncate && self.o().read && !self.o().create ==> r->Ok_0.out().data == content_at(p.pv()) && r->Ok_0.out().data.len() <= i64::MAX && r->Ok_0.sound() == readable_at(p.pv()),
            readable_at(p.pv()) && self.o() == (Opts { read: true, write: false, append: false, truncate: false, create: false, create_new: false }) ==> r is Ok,
    { unimplemented!() }
}
/// something is at this path when the call is made
pub uninterp spec fn path_exists(p: VPath) -> bool;
/// the bytes of the file at this path, which nobody else changes meanwhile
pub uninterp spec fn content_at(p: VPath) -> Seq<u8>;
/// there is a file, and the system refuses no call that reads it
pub uninterp spec fn readable_at(p: VPath) -> bool;

/// a byte stream that can be written: the bytes there and the position
pub struct Out { pub data: Seq<u8>, pub pos: nat }
impl Out {
    /// the byte at p, zero past the end (a hole)
    pub open spec fn at(self, p: int) -> u8 { if 0 <= p < self.data.len() { self.data[p] } else { 0 } }
}
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn put_data(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 { d } else {
        Seq::new(imax(d.len() as int, p + b.len()) as nat, |i: int| if p <= i < p + b.len() { b[i - p] } else if i < d.len() { d[i] } else { 0u8 })
    }
}
/// the stream after all of b is written at its position
pub open spec fn put(o: Out, b: Seq<u8>) -> Out { Out { data: put_data(o.data, o.pos as int, b), pos: (o.pos + b.len()) as nat } }
/// only bytes in lo..hi may differ
pub open spec fn only(o: Seq<u8>, n: Seq<u8>, lo: int, hi: int) -> bool {
    &&& n.len() >= o.len()
    &&& n.len() <= o.len() || n.len() <= hi
    &&& forall|i: int| #![trigger n[i]] 0 <= i < n.len() && !(lo <= i < hi) ==> n[i] == (if i < o.len() { o[i] } else { 0u8 })
}
pub trait VWrite: Sized {
    spec fn out(&self) -> Out;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures
            r is Ok ==> final(self).out() == put(old(self).out(), buf@),
            only(old(self).out().data, final(self).out().data, old(self).out().pos as int, old(self).out().pos as int + buf@.len());
    /// a plain write may transfer only a part
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures
            match r { Ok(n) => n <= buf@.len() && final(self).out() == put(old(self).out(), buf@.take(n as int)),
                Err(_) => final(self).out().data == old(self).out().data };
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).out() == old(self).out();
}
#[verifier::external_body]
pub struct VFile { _x: u8 }
impl VWrite for VFile {
    uninterp spec fn out(&self) -> Out;
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl VFile {
    pub uninterp spec fn opts(&self) -> Opts;
    pub uninterp spec fn opened_at(&self) -> VPath;
    /// the system refuses no call on this file while there is what it asks for
    pub uninterp spec fn sound(&self) -> bool;
    /// the largest position the file system lets a file be at
    pub uninterp spec fn max_pos(&self) -> int;
    pub open spec fn seek_to(&self, to: SeekFrom) -> int {
        match to { SeekFrom::Start(p) => p as int, SeekFrom::Current(d) => self.out().pos + d, SeekFrom::End(d) => self.out().data.len() + d }
    }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoError>)
        ensures final(self).out().data == old(self).out().data, final(self).opts() == old(self).opts(), final(self).opened_at() == old(self).opened_at(),
            final(self).sound() == old(self).sound(), final(self).max_pos() == old(self).max_pos(),
            r is Err ==> final(self).out() == old(self).out(),
            r is Ok ==> old(self).seek_to(to) >= 0 && final(self).out().pos == old(self).seek_to(to) && r->Ok_0 == final(self).out().pos,
            old(self).sound() && 0 <= old(self).seek_to(to) <= old(self).max_pos() ==> r is Ok,
    { unimplemented!() }
}
/// marks the state a sequence of writes starts from (keeps the rewriting below linear)
pub open spec fn base(o: Out) -> bool { true }
pub broadcast proof fn lemma_put_put(o: Out, a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger base(o), put(put(o, a), b)] put(put(o, a), b) == put(o, a + b)
{
    assert(put(put(o, a), b).data =~= put(o, a + b).data);
}
pub proof fn lemma_only_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, lo: int, hi: int)
    requires only(a, b, lo, hi), only(b, c, lo, hi)
    ensures only(a, c, lo, hi)
{ }
pub proof fn lemma_only_put(o: Out, b: Seq<u8>, lo: int, hi: int)
    requires 0 <= lo <= o.pos, o.pos + b.len() <= hi
    ensures only(o.data, put(o, b).data, lo, hi)
{ }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }

// ---------------------------------------------------------------- sets
/// BTreeSet
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VBTreeSet<T> { _x: Vec<T> }
impl<T> View for VBTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
pub open spec fn lists_set<T>(s: Seq<T>, x: Set<T>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> x.contains(#[trigger] s[i])
    &&& forall|k: T| #[trigger] x.contains(k) ==> s.contains(k)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}
pub open spec fn lists_refs<T>(s: Seq<&T>, x: Set<T>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> x.contains(*#[trigger] s[i])
    &&& forall|k: T| #[trigger] x.contains(k) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
}
/// x has exactly the items of s
pub open spec fn set_of<T>(s: Seq<T>, x: Set<T>) -> bool { forall|k: T| #[trigger] x.contains(k) <==> s.contains(k) }
impl<T> VBTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: VBTreeSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut VBTreeSet<T>) ensures final(self)@ == old(self)@.union(old(o)@), final(o)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vinto_iter(self) -> (r: VIter<T>) ensures r.idx() == 0, lists_set(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: VIter<&T>) ensures r.idx() == 0, lists_refs(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference(&self, o: &VBTreeSet<T>) -> (r: VIter<&T>) ensures r.idx() == 0, lists_refs(r.seq(), self@.difference(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vextend(&mut self, i: VIter<T>) requires i.idx() == 0 ensures final(self)@ == old(self)@.union(i.seq().to_set()) { unimplemented!() }
}
impl<T> VFromIter<T> for VBTreeSet<T> {
    open spec fn from_iter_ok(s: Seq<T>, r: Self) -> bool { set_of(s, r@) }
}
impl<'a, T> VIter<&'a T> {
    #[verifier::external_body]
    pub fn vcloned(self) -> (r: VIter<T>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.seq().len() == self.seq().len(), forall|i: int| #![trigger r.seq()[i]] #![trigger self.seq()[i]] 0 <= i < r.seq().len() ==> r.seq()[i] == *self.seq()[i]
    { unimplemented!() }
}
/// slice::sort_by_key
pub trait VSortBy<T> {
    spec fn sbseq(&self) -> Seq<T>;
    fn vsort_by_key<F: Fn(&T) -> usize>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).sbseq().len() ==> call_requires(f, (&#[trigger] old(self).sbseq()[i],)),
        ensures
            exists|p: Seq<int>, k: Seq<usize>| #[trigger] sorted_by(old(self).sbseq(), final(self).sbseq(), p, k)
                && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&final(self).sbseq()[i],), #[trigger] k[i]);
}
pub open spec fn sorted_by<T>(o: Seq<T>, n: Seq<T>, p: Seq<int>, k: Seq<usize>) -> bool {
    &&& n.len() == o.len() && p.len() == o.len() && k.len() == o.len()
    &&& forall|i: int| 0 <= i < n.len() ==> 0 <= #[trigger] p[i] < o.len() && n[i] == o[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]
    &&& forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] <= #[trigger] k[j]
}
impl<T> VSortBy<T> for Vec<T> {
    open spec fn sbseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vsort_by_key<F: Fn(&T) -> usize>(&mut self, f: F) { unimplemented!() }
}
/// E.iter_mut().find(f): the first item for which f holds, to be modified in place
#[verifier::external_body]
pub fn viter_mut_find<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],)),
    ensures match r {
        Some(m) => exists|k: int| 0 <= k < old(v)@.len() && #[trigger] old(v)@[k] == *m && call_ensures(f, (&old(v)@[k],), true)
            && (forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] old(v)@[i],), false)) && final(v)@ == old(v)@.update(k, *final(m)),
        None => final(v)@ == old(v)@ && forall|i: int| 0 <= i < old(v)@.len() ==> call_ensures(f, (&#[trigger] old(v)@[i],), false) }
{ unimplemented!() }
