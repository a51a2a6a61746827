// ---------------------------------------------------------------- values and counts as bytes (writer and reader)
pub open spec fn byte(x: int) -> Seq<u8> { seq![x as u8] }
pub open spec fn absent() -> Seq<u8> { zeros(8) }
pub open spec fn be_all_i8(d: Seq<i8>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { be_all_i8(d.drop_last()) + d.last().be() } }
pub open spec fn be_all_u8(d: Seq<u8>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { be_all_u8(d.drop_last()) + d.last().be() } }
pub open spec fn be_all_i16(d: Seq<i16>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { be_all_i16(d.drop_last()) + d.last().be() } }
pub open spec fn be_all_i32(d: Seq<i32>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { be_all_i32(d.drop_last()) + d.last().be() } }
pub open spec fn be_all_f32(d: Seq<f32>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { be_all_f32(d.drop_last()) + d.last().be() } }
pub open spec fn be_all_f64(d: Seq<f64>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { be_all_f64(d.drop_last()) + d.last().be() } }
pub open spec fn enc_values(d: DataVector) -> Seq<u8> { match d { DataVector::I8(v) => be_all_i8(v@), DataVector::U8(v) => be_all_u8(v@), DataVector::I16(v) => be_all_i16(v@),
    DataVector::I32(v) => be_all_i32(v@), DataVector::F32(v) => be_all_f32(v@), DataVector::F64(v) => be_all_f64(v@) } }
impl Offset { pub open spec fn val(self) -> int { match self { Offset::I32(x) => x as int, Offset::I64(x) => x as int } } }
pub broadcast proof fn lemma_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert(a + (b + c) =~= (a + b) + c); }
pub proof fn lemma_be_all_i8(d: Seq<i8>)
    ensures be_all_i8(d).len() == d.len() as int * 1
    decreases d.len()
{ broadcast use group_bytes; if d.len() > 0 { lemma_be_all_i8(d.drop_last()); } }
pub proof fn lemma_be_step_i8(d: Seq<i8>, k: int)
    requires 0 < k <= d.len()
    ensures be_all_i8(d.take(k)) == be_all_i8(d.take(k - 1)) + d[k - 1].be(), be_all_i8(d.take(k)).len() == k * 1, be_all_i8(d.take(k - 1)).len() == (k - 1) * 1
{ broadcast use group_bytes; assert(d.take(k).drop_last() =~= d.take(k - 1)); lemma_be_all_i8(d.take(k)); lemma_be_all_i8(d.take(k - 1)); }
pub proof fn lemma_be_all_u8(d: Seq<u8>)
    ensures be_all_u8(d).len() == d.len() as int * 1
    decreases d.len()
{ broadcast use group_bytes; if d.len() > 0 { lemma_be_all_u8(d.drop_last()); } }
pub proof fn lemma_be_step_u8(d: Seq<u8>, k: int)
    requires 0 < k <= d.len()
    ensures be_all_u8(d.take(k)) == be_all_u8(d.take(k - 1)) + d[k - 1].be(), be_all_u8(d.take(k)).len() == k * 1, be_all_u8(d.take(k - 1)).len() == (k - 1) * 1
{ broadcast use group_bytes; assert(d.take(k).drop_last() =~= d.take(k - 1)); lemma_be_all_u8(d.take(k)); lemma_be_all_u8(d.take(k - 1)); }
pub proof fn lemma_be_all_i16(d: Seq<i16>)
    ensures be_all_i16(d).len() == d.len() as int * 2
    decreases d.len()
{ broadcast use group_bytes; if d.len() > 0 { lemma_be_all_i16(d.drop_last()); } }
pub proof fn lemma_be_step_i16(d: Seq<i16>, k: int)
    requires 0 < k <= d.len()
    ensures be_all_i16(d.take(k)) == be_all_i16(d.take(k - 1)) + d[k - 1].be(), be_all_i16(d.take(k)).len() == k * 2, be_all_i16(d.take(k - 1)).len() == (k - 1) * 2
{ broadcast use group_bytes; assert(d.take(k).drop_last() =~= d.take(k - 1)); lemma_be_all_i16(d.take(k)); lemma_be_all_i16(d.take(k - 1)); }
pub proof fn lemma_be_all_i32(d: Seq<i32>)
    ensures be_all_i32(d).len() == d.len() as int * 4
    decreases d.len()
{ broadcast use group_bytes; if d.len() > 0 { lemma_be_all_i32(d.drop_last()); } }
pub proof fn lemma_be_step_i32(d: Seq<i32>, k: int)
    requires 0 < k <= d.len()
    ensures be_all_i32(d.take(k)) == be_all_i32(d.take(k - 1)) + d[k - 1].be(), be_all_i32(d.take(k)).len() == k * 4, be_all_i32(d.take(k - 1)).len() == (k - 1) * 4
{ broadcast use group_bytes; assert(d.take(k).drop_last() =~= d.take(k - 1)); lemma_be_all_i32(d.take(k)); lemma_be_all_i32(d.take(k - 1)); }
pub proof fn lemma_be_all_f32(d: Seq<f32>)
    ensures be_all_f32(d).len() == d.len() as int * 4
    decreases d.len()
{ broadcast use group_bytes; if d.len() > 0 { lemma_be_all_f32(d.drop_last()); } }
pub proof fn lemma_be_step_f32(d: Seq<f32>, k: int)
    requires 0 < k <= d.len()
    ensures be_all_f32(d.take(k)) == be_all_f32(d.take(k - 1)) + d[k - 1].be(), be_all_f32(d.take(k)).len() == k * 4, be_all_f32(d.take(k - 1)).len() == (k - 1) * 4
{ broadcast use group_bytes; assert(d.take(k).drop_last() =~= d.take(k - 1)); lemma_be_all_f32(d.take(k)); lemma_be_all_f32(d.take(k - 1)); }
pub proof fn lemma_be_all_f64(d: Seq<f64>)
    ensures be_all_f64(d).len() == d.len() as int * 8
    decreases d.len()
{ broadcast use group_bytes; if d.len() > 0 { lemma_be_all_f64(d.drop_last()); } }
pub proof fn lemma_be_step_f64(d: Seq<f64>, k: int)
    requires 0 < k <= d.len()
    ensures be_all_f64(d.take(k)) == be_all_f64(d.take(k - 1)) + d[k - 1].be(), be_all_f64(d.take(k)).len() == k * 8, be_all_f64(d.take(k - 1)).len() == (k - 1) * 8
{ broadcast use group_bytes; assert(d.take(k).drop_last() =~= d.take(k - 1)); lemma_be_all_f64(d.take(k)); lemma_be_all_f64(d.take(k - 1)); }
pub proof fn lemma_values_len(d: DataVector)
    ensures enc_values(d).len() == d.vlen() * d.dtype().esize(), enc_values(d).len() <= d.vlen() * 8,
        match d { DataVector::I8(v) => enc_values(d).len() == v@.len(), DataVector::U8(v) => enc_values(d).len() == v@.len(), DataVector::I16(v) => enc_values(d).len() == v@.len() * 2,
            DataVector::I32(v) => enc_values(d).len() == v@.len() * 4, DataVector::F32(v) => enc_values(d).len() == v@.len() * 4, DataVector::F64(v) => enc_values(d).len() == v@.len() * 8 }
{
    match d {
        DataVector::I8(v) => lemma_be_all_i8(v@), DataVector::U8(v) => lemma_be_all_u8(v@), DataVector::I16(v) => lemma_be_all_i16(v@),
        DataVector::I32(v) => lemma_be_all_i32(v@), DataVector::F32(v) => lemma_be_all_f32(v@), DataVector::F64(v) => lemma_be_all_f64(v@),
    }
}
impl vstd::std_specs::convert::FromSpecImpl<Offset> for i64 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Offset) -> Self { v.val() as i64 }
}
pub open spec fn num_recs(ds: DataSet) -> int { match ds.unlimited_dim { None => 0, Some(d) => (*d).sz() as int } }
pub open spec fn offset_ver(o: Offset) -> Version { match o { Offset::I32(_) => Version::Classic, Offset::I64(_) => Version::Offset64Bit } }
pub open spec fn has_at(n: Seq<u8>, p: int, b: Seq<u8>) -> bool { 0 <= p && p + b.len() <= n.len() && n.subrange(p, p + b.len()) == b }
pub proof fn lemma_num_recs(ds: DataSet, i: int)
    requires ds.wf(), 0 <= i < ds.vars@.len(), ds.vars@[i].is_rec()
    ensures ds.unlimited_dim is Some, ds.vars@[i].nrecs() == num_recs(ds)
{
    let v = ds.vars@[i];
    assert(dims_in(v, ds.dims@));
    assert(ds.dims@.contains(v.dims@[0]));
}
pub broadcast group group_bytes { lemma_be32_len, lemma_be64_len }
