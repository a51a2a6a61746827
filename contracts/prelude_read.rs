// ---------------------------------------------------------------- reading files
#[verifier::external_body]
pub struct VMeta { _x: u8 }
impl VMeta {
    pub uninterp spec fn slen(&self) -> u64;
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures r == self.slen() { unimplemented!() }
}
#[verifier::external_body]
pub fn fs_metadata<P: VAsRefPath>(p: P) -> (r: Result<VMeta, IoError>)
    ensures readable_at(p.pv()) ==> r is Ok, r is Ok ==> r->Ok_0.slen() == content_at(p.pv()).len()
{ unimplemented!() }
/// byteorder's marker types
pub trait VByteOrder { spec fn big() -> bool; }
pub struct BigEndian;
pub struct LittleEndian;
impl VByteOrder for BigEndian { open spec fn big() -> bool { true } }
impl VByteOrder for LittleEndian { open spec fn big() -> bool { false } }
/// n bytes at p
pub open spec fn bytes_at(d: Seq<u8>, p: int, n: int) -> Seq<u8> { d.subrange(p, p + n) }
impl VFile {
    #[verifier::external_body]
    pub fn open<P: VAsRefPath>(p: P) -> (r: Result<VFile, IoError>)
        ensures readable_at(p.pv()) ==> r is Ok,
            r is Ok ==> r->Ok_0.opened_at() == p.pv() && r->Ok_0.out().pos == 0 && r->Ok_0.out().data == content_at(p.pv()) && r->Ok_0.out().data.len() <= i64::MAX && r->Ok_0.sound() == readable_at(p.pv())
            && r->Ok_0.opts() == (Opts { read: true, write: false, append: false, truncate: false, create: false, create_new: false })
    { unimplemented!() }
    /// the size of the file the handle is on
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<VMeta, IoError>)
        ensures r is Ok ==> r->Ok_0.slen() == self.out().data.len(), self.sound() ==> r is Ok
    { unimplemented!() }
    /// all of the buffer or an error
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>)
        ensures final(self).same_file(*old(self)), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).holds(old(buf)@.len() as int) && final(buf)@ == old(self).next_bytes(old(buf)@.len() as int) && final(self).out().pos == old(self).out().pos + old(buf)@.len(),
            old(self).sound() && old(self).holds(old(buf)@.len() as int) ==> r is Ok,
    { unimplemented!() }
    /// a plain read may give only a part
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures final(self).same_file(*old(self)), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() && final(self).out().pos == old(self).out().pos + r->Ok_0 && old(self).holds(r->Ok_0 as int)
                && final(buf)@.take(r->Ok_0 as int) == old(self).next_bytes(r->Ok_0 as int) && final(buf)@.skip(r->Ok_0 as int) == old(buf)@.skip(r->Ok_0 as int),
    { unimplemented!() }
    /// the n bytes from the position on are in the file
    pub open spec fn holds(&self, n: int) -> bool { n == 0 || self.out().pos + n <= self.out().data.len() }
    pub open spec fn next_bytes(&self, n: int) -> Seq<u8> { if n == 0 { seq![] } else { bytes_at(self.out().data, self.out().pos as int, n) } }
    pub open spec fn same_file(&self, o: VFile) -> bool { self.out().data == o.out().data && self.opts() == o.opts() && self.opened_at() == o.opened_at() && self.sound() == o.sound() && self.max_pos() == o.max_pos() }
@for T,n in i16:2 i32:4 f32:4 f64:8
    #[verifier::external_body]
    pub fn read_%T%_into<E: VByteOrder>(&mut self, buf: &mut [%T%]) -> (r: Result<(), IoError>)
        ensures final(self).same_file(*old(self)), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).holds(old(buf)@.len() as int * %n%) && (E::big() ==> be_all_%T%(final(buf)@) == old(self).next_bytes(old(buf)@.len() as int * %n%)) && final(self).out().pos == old(self).out().pos + old(buf)@.len() as int * %n%,
            old(self).sound() && old(self).holds(old(buf)@.len() as int * %n%) ==> r is Ok,
    { unimplemented!() }
@endfor
    #[verifier::external_body]
    pub fn read_i8_into(&mut self, buf: &mut [i8]) -> (r: Result<(), IoError>)
        ensures final(self).same_file(*old(self)), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).holds(old(buf)@.len() as int) && be_all_i8(final(buf)@) == old(self).next_bytes(old(buf)@.len() as int) && final(self).out().pos == old(self).out().pos + old(buf)@.len(),
            old(self).sound() && old(self).holds(old(buf)@.len() as int) ==> r is Ok,
    { unimplemented!() }
}
/// memory of the size of the file at hand
pub broadcast axiom fn axiom_alloc_file(n: int, f: VFile)
    ensures n <= f.out().data.len() ==> #[trigger] alloc_ok(n), #[trigger] f.out().data.len() >= 0;
/// &mut v[a..b]
pub trait VSliceMut<T> {
    spec fn mseq(&self) -> Seq<T>;
    fn vslice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T])
        requires a <= b <= old(self).mseq().len()
        ensures r@ == old(self).mseq().subrange(a as int, b as int), final(r)@.len() == r@.len(),
            final(self).mseq().len() == old(self).mseq().len(), final(self).mseq().subrange(a as int, b as int) == final(r)@,
            forall|j: int| 0 <= j < old(self).mseq().len() && !(a <= j < b) ==> #[trigger] final(self).mseq()[j] == old(self).mseq()[j];
    fn vslice_mut_all(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).mseq(), final(self).mseq() == final(r)@;
}
impl<T> VSliceMut<T> for Vec<T> {
    open spec fn mseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vslice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { unimplemented!() }
    #[verifier::external_body]
    fn vslice_mut_all(&mut self) -> (r: &mut [T]) { unimplemented!() }
}
pub trait VBytes { spec fn bseq(&self) -> Seq<u8>; }
impl VBytes for [u8] { open spec fn bseq(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytes for [u8; N] { open spec fn bseq(&self) -> Seq<u8> { self@ } }
/// the comparison of a slice and an array
#[verifier::external_body]
pub fn vbytes_eq<A: VBytes + ?Sized, B: VBytes + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bseq() == b.bseq()) { unimplemented!() }

// ---------------------------------------------------------------- nom
#[verifier::external_body]
pub struct NomNeeded { _x: u8 }
impl Clone for NomNeeded {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub enum NomErrorKind { Tag, Eof, Verify, MapRes, ManyMN, Count, Other }
pub enum NomErr<E> { Incomplete(NomNeeded), Error(E), Failure(E) }
pub type NomError<'a> = NomErr<(&'a [u8], NomErrorKind)>;
/// a map with string keys
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VHashMap<K, V> { _k: std::marker::PhantomData<K>, _v: std::marker::PhantomData<V> }
impl<V> VHashMap<VStr, V> {
    pub uninterp spec fn m(&self) -> spec_fn(Seq<char>) -> Option<V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|n: Seq<char>| #[trigger] (r.m())(n) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures forall|n: Seq<char>| #[trigger] (r.m())(n) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: VStr, v: V) -> (r: Option<V>)
        ensures r == (old(self).m())(k@), forall|n: Seq<char>| #[trigger] (final(self).m())(n) == if n == k@ { Some(v) } else { (old(self).m())(n) }
    { unimplemented!() }
}
