// ---------------------------------------------------------------- C08: the NetCDF-3 grammar, as the bytes of each non-terminal
pub open spec fn enc_name(s: Seq<char>) -> Seq<u8> { be32(utf8(s).len() as int) + utf8(s) + zeros(pad4(utf8(s).len() as int)) }
pub open spec fn enc_dim(d: Dimension) -> Seq<u8> { enc_name(d.nm()) + be32(if d.unlim() { 0 } else { d.sz() as int }) }
pub open spec fn enc_dims_seq(d: Seq<Rc<Dimension>>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { seq![] } else { enc_dims_seq(d.drop_last()) + enc_dim(*d.last()) }
}
pub open spec fn enc_dims(d: Seq<Rc<Dimension>>) -> Seq<u8> {
    if d.len() == 0 { absent() } else { be32(0x0A) + be32(d.len() as int) + enc_dims_seq(d) }
}
pub open spec fn enc_attr(a: Attribute) -> Seq<u8> {
    enc_name(a.name@) + be32(a.data.dtype().code()) + be32(a.data.vlen() as int) + enc_values(a.data) + zeros(pad4(enc_values(a.data).len() as int))
}
pub open spec fn enc_attrs_seq(a: Seq<Attribute>) -> Seq<u8> decreases a.len() {
    if a.len() == 0 { seq![] } else { enc_attrs_seq(a.drop_last()) + enc_attr(a.last()) }
}
pub open spec fn enc_attrs(a: Seq<Attribute>) -> Seq<u8> {
    if a.len() == 0 { absent() } else { be32(0x0C) + be32(a.len() as int) + enc_attrs_seq(a) }
}
pub open spec fn enc_ids(d: Seq<usize>) -> Seq<u8> decreases d.len() { if d.len() == 0 { seq![] } else { enc_ids(d.drop_last()) + be32(d.last() as int) } }
/// counts above 2^31-1 are written as the indeterminate marker
pub open spec fn or_indeterminate(n: int) -> int { if n <= 0x7fff_ffff { n } else { 0xffff_ffff } }
pub open spec fn enc_offset(o: Offset) -> Seq<u8> { match o { Offset::I32(x) => x.be(), Offset::I64(x) => x.be() } }
pub open spec fn enc_var(v: Variable, m: ComputedVariableMetadata) -> Seq<u8> {
    enc_name(v.name@) + be32(v.dims@.len() as int) + enc_ids(m.dim_ids@) + enc_attrs(v.attrs@) + be32(v.data_type.code()) + be32(or_indeterminate(m.chunk_size as int)) + enc_offset(m.begin_offset)
}
pub open spec fn enc_vars_seq(v: Seq<(&Variable, ComputedVariableMetadata)>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { seq![] } else { enc_vars_seq(v.drop_last()) + enc_var(*v.last().0, v.last().1) }
}
pub open spec fn enc_vars(v: Seq<(&Variable, ComputedVariableMetadata)>) -> Seq<u8> {
    if v.len() == 0 { absent() } else { be32(0x0B) + be32(v.len() as int) + enc_vars_seq(v) }
}
/// counts the format can hold
pub open spec fn attr_fits(a: Attribute) -> bool { a.data.vlen() <= i32::MAX }
pub open spec fn attrs_fit(a: Seq<Attribute>) -> bool { a.len() <= i32::MAX && forall|i: int| 0 <= i < a.len() ==> attr_fits(#[trigger] a[i]) }
pub open spec fn dims_fit(d: Seq<Rc<Dimension>>) -> bool { d.len() <= i32::MAX }
pub open spec fn vars_fit(v: Seq<(&Variable, ComputedVariableMetadata)>) -> bool {
    v.len() <= i32::MAX && forall|i: int| 0 <= i < v.len() ==> var_fits(*(#[trigger] v[i]).0, v[i].1)
}
pub open spec fn var_fits(v: Variable, m: ComputedVariableMetadata) -> bool {
    v.wf() && attrs_fit(v.attrs@) && forall|k: int| 0 <= k < m.dim_ids@.len() ==> #[trigger] m.dim_ids@[k] <= i32::MAX
}
pub broadcast proof fn lemma_zero_pad(a: Seq<u8>)
    ensures #[trigger] (a + zeros(0)) == a
{ assert(a + zeros(0) =~= a); }
pub broadcast proof fn lemma_put_zeros(o: Out, b: Seq<u8>)
    ensures #![trigger put(o, b)] (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0) ==> b == zeros(b.len() as int)
{ if forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0 { assert(b =~= zeros(b.len() as int)); } }
pub broadcast group group_writer { lemma_put_put, lemma_zero_pad, lemma_put_zeros, lemma_be32_len, lemma_be64_len, axiom_question_io }
// ---------------------------------------------------------------- C10: the bytes of one record
#[verifier::opaque]
pub open spec fn chunk_i8(d: Seq<i8>) -> Seq<u8> { be_all_i8(d) + cyc(NC_FILL_I8.be(), pad4(d.len() as int * 1)) }
#[verifier::opaque]
pub open spec fn fillv_i8(n: int) -> Seq<i8> { Seq::new(n as nat, |i: int| NC_FILL_I8) }
pub open spec fn fill_i8(n: int) -> Seq<u8> { chunk_i8(fillv_i8(n)) }
pub proof fn lemma_fillv_i8(n: int)
    requires n >= 0
    ensures fillv_i8(n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fillv_i8(n)[i] == NC_FILL_I8
{ reveal(fillv_i8); }
pub proof fn lemma_chunk_len_i8(d: Seq<i8>)
    ensures chunk_i8(d).len() == round4(d.len() as int * 1), be_all_i8(d).len() == d.len() as int * 1,
        chunk_i8(d) == be_all_i8(d) + cyc(NC_FILL_I8.be(), pad4(d.len() as int * 1)),
        pad4(d.len() as int * 1) == 0 ==> chunk_i8(d) == be_all_i8(d)
{
    reveal(chunk_i8); reveal(cyc); lemma_be_all_i8(d);
    if pad4(d.len() as int * 1) == 0 { assert(chunk_i8(d) =~= be_all_i8(d)); }
}
#[verifier::opaque]
pub open spec fn chunk_u8(d: Seq<u8>) -> Seq<u8> { be_all_u8(d) + cyc(NC_FILL_U8.be(), pad4(d.len() as int * 1)) }
#[verifier::opaque]
pub open spec fn fillv_u8(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| NC_FILL_U8) }
pub open spec fn fill_u8(n: int) -> Seq<u8> { chunk_u8(fillv_u8(n)) }
pub proof fn lemma_fillv_u8(n: int)
    requires n >= 0
    ensures fillv_u8(n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fillv_u8(n)[i] == NC_FILL_U8
{ reveal(fillv_u8); }
pub proof fn lemma_chunk_len_u8(d: Seq<u8>)
    ensures chunk_u8(d).len() == round4(d.len() as int * 1), be_all_u8(d).len() == d.len() as int * 1,
        chunk_u8(d) == be_all_u8(d) + cyc(NC_FILL_U8.be(), pad4(d.len() as int * 1)),
        pad4(d.len() as int * 1) == 0 ==> chunk_u8(d) == be_all_u8(d)
{
    reveal(chunk_u8); reveal(cyc); lemma_be_all_u8(d);
    if pad4(d.len() as int * 1) == 0 { assert(chunk_u8(d) =~= be_all_u8(d)); }
}
#[verifier::opaque]
pub open spec fn chunk_i16(d: Seq<i16>) -> Seq<u8> { be_all_i16(d) + cyc(NC_FILL_I16.be(), pad4(d.len() as int * 2)) }
#[verifier::opaque]
pub open spec fn fillv_i16(n: int) -> Seq<i16> { Seq::new(n as nat, |i: int| NC_FILL_I16) }
pub open spec fn fill_i16(n: int) -> Seq<u8> { chunk_i16(fillv_i16(n)) }
pub proof fn lemma_fillv_i16(n: int)
    requires n >= 0
    ensures fillv_i16(n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fillv_i16(n)[i] == NC_FILL_I16
{ reveal(fillv_i16); }
pub proof fn lemma_chunk_len_i16(d: Seq<i16>)
    ensures chunk_i16(d).len() == round4(d.len() as int * 2), be_all_i16(d).len() == d.len() as int * 2,
        chunk_i16(d) == be_all_i16(d) + cyc(NC_FILL_I16.be(), pad4(d.len() as int * 2)),
        pad4(d.len() as int * 2) == 0 ==> chunk_i16(d) == be_all_i16(d)
{
    reveal(chunk_i16); reveal(cyc); lemma_be_all_i16(d);
    if pad4(d.len() as int * 2) == 0 { assert(chunk_i16(d) =~= be_all_i16(d)); }
}
#[verifier::opaque]
pub open spec fn chunk_i32(d: Seq<i32>) -> Seq<u8> { be_all_i32(d) + cyc(NC_FILL_I32.be(), pad4(d.len() as int * 4)) }
#[verifier::opaque]
pub open spec fn fillv_i32(n: int) -> Seq<i32> { Seq::new(n as nat, |i: int| NC_FILL_I32) }
pub open spec fn fill_i32(n: int) -> Seq<u8> { chunk_i32(fillv_i32(n)) }
pub proof fn lemma_fillv_i32(n: int)
    requires n >= 0
    ensures fillv_i32(n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fillv_i32(n)[i] == NC_FILL_I32
{ reveal(fillv_i32); }
pub proof fn lemma_chunk_len_i32(d: Seq<i32>)
    ensures chunk_i32(d).len() == round4(d.len() as int * 4), be_all_i32(d).len() == d.len() as int * 4,
        chunk_i32(d) == be_all_i32(d) + cyc(NC_FILL_I32.be(), pad4(d.len() as int * 4)),
        pad4(d.len() as int * 4) == 0 ==> chunk_i32(d) == be_all_i32(d)
{
    reveal(chunk_i32); reveal(cyc); lemma_be_all_i32(d);
    if pad4(d.len() as int * 4) == 0 { assert(chunk_i32(d) =~= be_all_i32(d)); }
}
#[verifier::opaque]
pub open spec fn chunk_f32(d: Seq<f32>) -> Seq<u8> { be_all_f32(d) + cyc(NC_FILL_F32.be(), pad4(d.len() as int * 4)) }
#[verifier::opaque]
pub open spec fn fillv_f32(n: int) -> Seq<f32> { Seq::new(n as nat, |i: int| NC_FILL_F32) }
pub open spec fn fill_f32(n: int) -> Seq<u8> { chunk_f32(fillv_f32(n)) }
pub proof fn lemma_fillv_f32(n: int)
    requires n >= 0
    ensures fillv_f32(n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fillv_f32(n)[i] == NC_FILL_F32
{ reveal(fillv_f32); }
pub proof fn lemma_chunk_len_f32(d: Seq<f32>)
    ensures chunk_f32(d).len() == round4(d.len() as int * 4), be_all_f32(d).len() == d.len() as int * 4,
        chunk_f32(d) == be_all_f32(d) + cyc(NC_FILL_F32.be(), pad4(d.len() as int * 4)),
        pad4(d.len() as int * 4) == 0 ==> chunk_f32(d) == be_all_f32(d)
{
    reveal(chunk_f32); reveal(cyc); lemma_be_all_f32(d);
    if pad4(d.len() as int * 4) == 0 { assert(chunk_f32(d) =~= be_all_f32(d)); }
}
#[verifier::opaque]
pub open spec fn chunk_f64(d: Seq<f64>) -> Seq<u8> { be_all_f64(d) + cyc(NC_FILL_F64.be(), pad4(d.len() as int * 8)) }
#[verifier::opaque]
pub open spec fn fillv_f64(n: int) -> Seq<f64> { Seq::new(n as nat, |i: int| NC_FILL_F64) }
pub open spec fn fill_f64(n: int) -> Seq<u8> { chunk_f64(fillv_f64(n)) }
pub proof fn lemma_fillv_f64(n: int)
    requires n >= 0
    ensures fillv_f64(n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fillv_f64(n)[i] == NC_FILL_F64
{ reveal(fillv_f64); }
pub proof fn lemma_chunk_len_f64(d: Seq<f64>)
    ensures chunk_f64(d).len() == round4(d.len() as int * 8), be_all_f64(d).len() == d.len() as int * 8,
        chunk_f64(d) == be_all_f64(d) + cyc(NC_FILL_F64.be(), pad4(d.len() as int * 8)),
        pad4(d.len() as int * 8) == 0 ==> chunk_f64(d) == be_all_f64(d)
{
    reveal(chunk_f64); reveal(cyc); lemma_be_all_f64(d);
    if pad4(d.len() as int * 8) == 0 { assert(chunk_f64(d) =~= be_all_f64(d)); }
}
pub proof fn lemma_dims_step(d: Seq<Rc<Dimension>>, k: int)
    requires 0 < k <= d.len()
    ensures enc_dims_seq(d.take(k)) == enc_dims_seq(d.take(k - 1)) + enc_dim(*d[k - 1]), enc_dims_seq(d.take(k)).len() <= enc_dims_seq(d).len()
    decreases d.len() - k
{
    assert(d.take(k).drop_last() =~= d.take(k - 1));
    if k < d.len() { lemma_dims_step(d, k + 1); } else { assert(d.take(k) =~= d); }
}
pub proof fn lemma_attrs_step(d: Seq<Attribute>, k: int)
    requires 0 < k <= d.len()
    ensures enc_attrs_seq(d.take(k)) == enc_attrs_seq(d.take(k - 1)) + enc_attr(d[k - 1]), enc_attrs_seq(d.take(k)).len() <= enc_attrs_seq(d).len()
    decreases d.len() - k
{
    assert(d.take(k).drop_last() =~= d.take(k - 1));
    if k < d.len() { lemma_attrs_step(d, k + 1); } else { assert(d.take(k) =~= d); }
}
pub proof fn lemma_vars_step(d: Seq<(&Variable, ComputedVariableMetadata)>, k: int)
    requires 0 < k <= d.len()
    ensures enc_vars_seq(d.take(k)) == enc_vars_seq(d.take(k - 1)) + enc_var(*d[k - 1].0, d[k - 1].1), enc_vars_seq(d.take(k)).len() <= enc_vars_seq(d).len()
    decreases d.len() - k
{
    assert(d.take(k).drop_last() =~= d.take(k - 1));
    if k < d.len() { lemma_vars_step(d, k + 1); } else { assert(d.take(k) =~= d); }
}
pub proof fn lemma_ids_step(d: Seq<usize>, k: int)
    requires 0 < k <= d.len()
    ensures enc_ids(d.take(k)) == enc_ids(d.take(k - 1)) + be32(d[k - 1] as int), enc_ids(d.take(k)).len() == k * 4
    decreases k
{
    broadcast use group_writer;
    assert(d.take(k).drop_last() =~= d.take(k - 1));
    if k > 1 { lemma_ids_step(d, k - 1); } else { assert(d.take(0) =~= Seq::empty()); }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for WriteError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Self { WriteError::IOErrorKind(v.skind()) }
}
/// the ? operator converts an error with From::from
pub broadcast axiom fn axiom_question_io(v: IoError, r: WriteError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<WriteError, IoError>(v, r) ==> r == WriteError::IOErrorKind(v.skind());
// ---------------------------------------------------------------- C08, C09: header size and layout
pub open spec fn len_var(v: Variable, ver: Version) -> int {
    enc_name(v.name@).len() + 4 + 4 * v.dims@.len() + enc_attrs(v.attrs@).len() + 8 + (match ver { Version::Classic => 4int, Version::Offset64Bit => 8 })
}
pub open spec fn len_vars_seq(v: Seq<Variable>, ver: Version) -> int decreases v.len() {
    if v.len() == 0 { 0 } else { len_vars_seq(v.drop_last(), ver) + len_var(v.last(), ver) }
}
pub open spec fn len_vars(v: Seq<Variable>, ver: Version) -> int { if v.len() == 0 { 8 } else { 8 + len_vars_seq(v, ver) } }
/// bytes of the header before the extension
pub open spec fn hdr_len(ds: DataSet, ver: Version) -> int { 8 + enc_dims(ds.dims@).len() + enc_attrs(ds.attrs@).len() + len_vars(ds.vars@, ver) }
/// bytes of the header with the extension: where the data starts
pub open spec fn hdr_size(ds: DataSet, ver: Version, hmin: int) -> int { round4(imax(hmin, hdr_len(ds, ver))) }
/// bytes of the fixed-size variables
pub open spec fn fix_sum(v: Seq<Variable>) -> int decreases v.len() {
    if v.len() == 0 { 0 } else { fix_sum(v.drop_last()) + (if v.last().is_rec() { 0 } else { v.last().rsize() }) }
}
/// where the first record of variable i is, after the header: the fixed-size variables
/// in definition order, then the record variables in definition order
pub open spec fn begin_rel(v: Seq<Variable>, i: int) -> int {
    if v[i].is_rec() { fix_sum(v) + rec_size(v.take(i)) } else { fix_sum(v.take(i)) }
}
/// the definition has sizes the format and the machine can represent
pub open spec fn def_fits(ds: DataSet, ver: Version, hmin: int) -> bool {
    &&& dims_fit(ds.dims@) && attrs_fit(ds.attrs@) && ds.vars@.len() <= i32::MAX
    &&& forall|i: int| 0 <= i < ds.vars@.len() ==> attrs_fit(#[trigger] ds.vars@[i].attrs@)
    &&& ds.sizes_ok()
    &&& 0 <= hmin <= i64::MAX
    &&& hdr_size(ds, ver, hmin) + fix_sum(ds.vars@) + rec_size(ds.vars@) <= i64::MAX
    &&& hdr_size(ds, ver, hmin) + fix_sum(ds.vars@) + num_recs(ds) * rec_size(ds.vars@) <= i64::MAX
}
pub open spec fn ids_ok(ds: DataSet, v: Variable, ids: Seq<usize>) -> bool {
    ids.len() == v.dims@.len() && forall|k: int| 0 <= k < ids.len() ==> (#[trigger] ids[k]) < ds.dims@.len() && ds.dims@[ids[k] as int] == v.dims@[k]
}
pub open spec fn meta_ok(ds: DataSet, i: int, m: ComputedVariableMetadata, ver: Version, hsize: int) -> bool {
    &&& ids_ok(ds, ds.vars@[i], m.dim_ids@)
    &&& m.chunk_size == ds.vars@[i].rsize()
    &&& offset_ver(m.begin_offset) == ver
    &&& m.begin_offset.val() == hsize + begin_rel(ds.vars@, i)
}
pub open spec fn metas_ok(ds: DataSet, m: ComputedDataSetMetadata, ver: Version, hmin: int) -> bool {
    &&& m.header_required_size == hdr_len(ds, ver)
    &&& m.header_zero_padding_size == hdr_size(ds, ver, hmin) - hdr_len(ds, ver)
    &&& m.vars_metadata@.len() == ds.vars@.len()
    &&& forall|i: int| 0 <= i < ds.vars@.len() ==> *(#[trigger] m.vars_metadata@[i]).0 == ds.vars@[i] && meta_ok(ds, i, m.vars_metadata@[i].1, ver, hdr_size(ds, ver, hmin))
}
pub proof fn lemma_len_vars_step(v: Seq<Variable>, ver: Version, k: int)
    requires 0 < k <= v.len()
    ensures len_vars_seq(v.take(k), ver) == len_vars_seq(v.take(k - 1), ver) + len_var(v[k - 1], ver), 0 <= len_vars_seq(v.take(k - 1), ver), len_vars_seq(v.take(k), ver) <= len_vars_seq(v, ver)
    decreases v.len() - k
{
    assert(v.take(k).drop_last() =~= v.take(k - 1));
    lemma_len_vars_nonneg(v.take(k - 1), ver);
    if k < v.len() { lemma_len_vars_step(v, ver, k + 1); } else { assert(v.take(k) =~= v); }
}
pub proof fn lemma_len_vars_nonneg(v: Seq<Variable>, ver: Version)
    ensures 0 <= len_vars_seq(v, ver)
    decreases v.len()
{ if v.len() > 0 { lemma_len_vars_nonneg(v.drop_last(), ver); } }
pub proof fn lemma_ids_len(d: Seq<usize>)
    ensures enc_ids(d).len() == d.len() * 4
{ if d.len() > 0 { lemma_ids_step(d, d.len() as int); assert(d.take(d.len() as int) =~= d); } }
pub proof fn lemma_sums_nonneg(v: Seq<Variable>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf()
    ensures fix_sum(v) >= 0, rec_size(v) >= 0
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i]).wf() by { assert(v[i].wf()); }
        lemma_sums_nonneg(v.drop_last());
        assert(v[v.len() - 1].wf());
        lemma_rsize_nonneg(v.last());
    }
}
pub proof fn lemma_var_len(ds: DataSet, i: int, m: ComputedVariableMetadata, ver: Version, h: int)
    requires meta_ok(ds, i, m, ver, h)
    ensures enc_var(ds.vars@[i], m).len() == len_var(ds.vars@[i], ver)
{
    broadcast use group_writer;
    lemma_ids_len(m.dim_ids@);
    let v = ds.vars@[i];
    let a = enc_name(v.name@) + be32(v.dims@.len() as int);
    let b = a + enc_ids(m.dim_ids@);
    let c = b + enc_attrs(v.attrs@);
    let d = c + be32(v.data_type.code());
    let e = d + be32(or_indeterminate(m.chunk_size as int));
    assert(enc_var(v, m) == e + enc_offset(m.begin_offset));
}
/// the variables part has the announced length
pub proof fn lemma_vars_len(ds: DataSet, ml: Seq<(&Variable, ComputedVariableMetadata)>, ver: Version, h: int, k: int)
    requires 0 <= k <= ml.len(), ml.len() == ds.vars@.len(),
        forall|i: int| 0 <= i < ds.vars@.len() ==> *(#[trigger] ml[i]).0 == ds.vars@[i] && meta_ok(ds, i, ml[i].1, ver, h),
    ensures enc_vars_seq(ml.take(k)).len() == len_vars_seq(ds.vars@.take(k), ver)
    decreases k
{
    if k > 0 {
        lemma_vars_len(ds, ml, ver, h, k - 1);
        lemma_vars_step(ml, k);
        lemma_len_vars_step(ds.vars@, ver, k);
        assert(*ml[k - 1].0 == ds.vars@[k - 1] && meta_ok(ds, k - 1, ml[k - 1].1, ver, h));
        lemma_var_len(ds, k - 1, ml[k - 1].1, ver, h);
    } else {
        assert(ml.take(0) =~= Seq::empty() && ds.vars@.take(0) =~= Seq::empty());
    }
}
// ---- layout of the variables
pub open spec fn enum_refs(rv: Seq<(usize, &Variable)>, v: Seq<Variable>) -> bool { rv.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] rv[i]).0 == i && *rv[i].1 == v[i] }
pub open spec fn csum(s: Seq<(usize, &Variable)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { csum(s.drop_last()) + s.last().1.rsize() } }
pub open spec fn psum(v: Seq<Variable>, p: Seq<bool>) -> int decreases v.len() {
    if v.len() == 0 { 0 } else { psum(v.drop_last(), p.drop_last()) + (if p.last() { v.last().rsize() } else { 0 }) }
}
pub proof fn lemma_csum_keep(rv: Seq<(usize, &Variable)>, v: Seq<Variable>, p: Seq<bool>)
    requires rv.len() == v.len(), p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] rv[i]).1 == v[i]
    ensures csum(keep(rv, p)) == psum(v, p)
    decreases v.len()
{
    if v.len() > 0 {
        lemma_csum_keep(rv.drop_last(), v.drop_last(), p.drop_last());
        if p.last() { assert(keep(rv, p).drop_last() =~= keep(rv.drop_last(), p.drop_last())); }
    }
}
pub proof fn lemma_psum(v: Seq<Variable>, p: Seq<bool>, want: bool)
    requires p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] p[i] == (v[i].is_rec() == want)
    ensures psum(v, p) == if want { rec_size(v) } else { fix_sum(v) }
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies #[trigger] p.drop_last()[i] == (v.drop_last()[i].is_rec() == want) by { assert(p[i] == (v[i].is_rec() == want)); }
        lemma_psum(v.drop_last(), p.drop_last(), want);
        assert(p[v.len() - 1] == (v[v.len() - 1].is_rec() == want));
    }
}
/// the m-th kept item comes from a position j before which exactly the first m were kept
pub proof fn lemma_keep_at<T>(s: Seq<T>, p: Seq<bool>, m: int) -> (j: int)
    requires p.len() == s.len(), 0 <= m < keep(s, p).len()
    ensures 0 <= j < s.len(), p[j], keep(s, p)[m] == s[j], keep(s, p).take(m) == keep(s.take(j), p.take(j))
    decreases s.len()
{
    let k1 = keep(s.drop_last(), p.drop_last());
    if p.last() && m == k1.len() {
        let j = s.len() - 1;
        assert(s.take(j) =~= s.drop_last() && p.take(j) =~= p.drop_last());
        assert(keep(s, p).take(m) =~= k1);
        j
    } else {
        let j = lemma_keep_at(s.drop_last(), p.drop_last(), m);
        assert(s.take(j) =~= s.drop_last().take(j) && p.take(j) =~= p.drop_last().take(j));
        assert(keep(s, p).take(m) =~= k1.take(m));
        j
    }
}
pub proof fn lemma_keep_len<T>(s: Seq<T>, p: Seq<bool>)
    requires p.len() == s.len()
    ensures keep(s, p).len() + keep(s, seq_not(p)).len() == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_keep_len(s.drop_last(), p.drop_last());
        assert(seq_not(p).drop_last() =~= seq_not(p.drop_last()));
    }
}
/// position m of the kept items belongs to variable j
pub proof fn lemma_keep_begin(rv: Seq<(usize, &Variable)>, v: Seq<Variable>, p: Seq<bool>, want: bool, m: int) -> (j: int)
    requires enum_refs(rv, v), p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] p[i] == (v[i].is_rec() == want), 0 <= m < keep(rv, p).len()
    ensures 0 <= j < v.len(), p[j], keep(rv, p)[m] == rv[j], csum(keep(rv, p).take(m)) == (if want { rec_size(v.take(j)) } else { fix_sum(v.take(j)) })
{
    let j = lemma_keep_at(rv, p, m);
    let (rv1, v1, p1) = (rv.take(j), v.take(j), p.take(j));
    assert forall|i: int| 0 <= i < v1.len() implies *(#[trigger] rv1[i]).1 == v1[i] by { assert(rv[i].0 == i); }
    lemma_csum_keep(rv1, v1, p1);
    assert forall|i: int| 0 <= i < v1.len() implies #[trigger] p1[i] == (v1[i].is_rec() == want) by { assert(p[i] == (v[i].is_rec() == want)); }
    lemma_psum(v1, p1, want);
    j
}
pub proof fn lemma_csum_add(a: Seq<(usize, &Variable)>, b: Seq<(usize, &Variable)>)
    ensures csum(a + b) == csum(a) + csum(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_csum_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
/// the chained order: sums, distinct positions, begin offsets
pub proof fn lemma_chain(rv: Seq<(usize, &Variable)>, v: Seq<Variable>, p: Seq<bool>, k: int) -> (j: int)
    requires enum_refs(rv, v), p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] p[i] == v[i].is_rec(), 0 <= k < v.len(), v.len() <= usize::MAX,
    ensures
        (keep(rv, seq_not(p)) + keep(rv, p)).len() == v.len(),
        0 <= j < v.len(), (keep(rv, seq_not(p)) + keep(rv, p))[k] == rv[j], csum((keep(rv, seq_not(p)) + keep(rv, p)).take(k)) == begin_rel(v, j),
        k < keep(rv, seq_not(p)).len() <==> !p[j],
        k < keep(rv, seq_not(p)).len() ==> keep(rv, seq_not(p)).take(k) == keep(rv.take(j), seq_not(p).take(j)),
        k >= keep(rv, seq_not(p)).len() ==> keep(rv, p).take(k - keep(rv, seq_not(p)).len()) == keep(rv.take(j), p.take(j)),
        csum(keep(rv, seq_not(p)) + keep(rv, p)) == fix_sum(v) + rec_size(v),
{
    let non = keep(rv, seq_not(p));
    let rec = keep(rv, p);
    let c = non + rec;
    lemma_keep_len(rv, p);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] seq_not(p)[i] == (v[i].is_rec() == false) by { assert(p[i] == v[i].is_rec()); }
    assert forall|i: int| 0 <= i < v.len() implies *(#[trigger] rv[i]).1 == v[i] by { assert(rv[i].0 == i); }
    lemma_csum_keep(rv, v, seq_not(p));
    lemma_csum_keep(rv, v, p);
    lemma_psum(v, seq_not(p), false);
    lemma_psum(v, p, true);
    lemma_csum_add(non, rec);
    if k < non.len() {
        let j = lemma_keep_begin(rv, v, seq_not(p), false, k);
        let j2 = lemma_keep_at(rv, seq_not(p), k);
        assert(rv[j].0 == j && rv[j2].0 == j2);
        assert(c.take(k) =~= non.take(k));
        assert(seq_not(p)[j] == !p[j]);
        j
    } else {
        let j = lemma_keep_begin(rv, v, p, true, k - non.len());
        let j2 = lemma_keep_at(rv, p, k - non.len());
        assert(rv[j].0 == j && rv[j2].0 == j2);
        assert(c.take(k) =~= non + rec.take(k - non.len()));
        lemma_csum_add(non, rec.take(k - non.len()));
        j
    }
}
pub proof fn lemma_chain_distinct(rv: Seq<(usize, &Variable)>, v: Seq<Variable>, p: Seq<bool>, k: int, l: int)
    requires enum_refs(rv, v), p.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] p[i] == v[i].is_rec(), 0 <= k < l < v.len(), v.len() <= usize::MAX,
    ensures (keep(rv, seq_not(p)) + keep(rv, p))[k].0 != (keep(rv, seq_not(p)) + keep(rv, p))[l].0
{
    let jk = lemma_chain(rv, v, p, k);
    let jl = lemma_chain(rv, v, p, l);
    assert(rv[jk].0 == jk && rv[jl].0 == jl);
    if jk == jl {
        let n = keep(rv, seq_not(p)).len();
        if k < n {
            assert(keep(rv, seq_not(p)).take(k).len() == k && keep(rv, seq_not(p)).take(l).len() == l);
        } else {
            assert(keep(rv, p).take(k - n).len() == k - n && keep(rv, p).take(l - n).len() == l - n);
        }
    }
}
pub proof fn lemma_csum_mono(c: Seq<(usize, &Variable)>, k: int)
    requires 0 <= k <= c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1.rsize() >= 0
    ensures 0 <= csum(c.take(k)) <= csum(c), k > 0 ==> csum(c.take(k)) == csum(c.take(k - 1)) + c[k - 1].1.rsize()
    decreases c.len()
{
    if c.len() == 0 { assert(c.take(k) =~= c); }
    else if k == c.len() {
        assert(c.take(k) =~= c);
        lemma_csum_mono(c.drop_last(), c.len() - 1);
        assert(c.drop_last().take(c.len() - 1) =~= c.drop_last());
        assert(c.take(k - 1) =~= c.drop_last());
    } else {
        lemma_csum_mono(c.drop_last(), k);
        assert(c.drop_last().take(k) =~= c.take(k));
        if k > 0 { assert(c.drop_last().take(k - 1) =~= c.take(k - 1)); }
    }
}
/// distinct keys below n, sorted: the i-th key is i
pub proof fn lemma_sorted_keys(k: Seq<usize>, i: int)
    requires 0 <= i < k.len(), forall|a: int| 0 <= a < k.len() ==> #[trigger] k[a] < k.len(), forall|a: int, b: int| 0 <= a < b < k.len() ==> #[trigger] k[a] < #[trigger] k[b]
    ensures k[i] == i
{
    lemma_keys_low(k, i);
    lemma_keys_high(k, i);
}
pub proof fn lemma_keys_low(k: Seq<usize>, i: int)
    requires 0 <= i < k.len(), forall|a: int, b: int| 0 <= a < b < k.len() ==> #[trigger] k[a] < #[trigger] k[b]
    ensures k[i] >= i
    decreases i
{ if i > 0 { lemma_keys_low(k, i - 1); assert(k[i - 1] < k[i]); } }
pub proof fn lemma_keys_high(k: Seq<usize>, i: int)
    requires 0 <= i < k.len(), forall|a: int| 0 <= a < k.len() ==> #[trigger] k[a] < k.len(), forall|a: int, b: int| 0 <= a < b < k.len() ==> #[trigger] k[a] < #[trigger] k[b]
    ensures k[i] <= i
    decreases k.len() - i
{ if i < k.len() - 1 { lemma_keys_high(k, i + 1); assert(k[i] < k[i + 1]); } }
/// the order the begin offsets are computed in
#[verifier::opaque]
pub open spec fn chain_inv(ds: DataSet, c: Seq<(usize, &Variable)>) -> bool {
    &&& ds.wf() && ds.sizes_ok()
    &&& c.len() == ds.vars@.len()
    &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).0 < c.len() && *c[k].1 == ds.vars@[c[k].0 as int] && csum(c.take(k)) == begin_rel(ds.vars@, c[k].0 as int)
    &&& forall|k: int, l: int| 0 <= k < l < c.len() ==> (#[trigger] c[k]).0 != (#[trigger] c[l]).0
    &&& csum(c) == fix_sum(ds.vars@) + rec_size(ds.vars@)
}
pub proof fn lemma_chain_step(ds: DataSet, c: Seq<(usize, &Variable)>, k: int)
    requires chain_inv(ds, c), 0 <= k < c.len()
    ensures c[k].0 < ds.vars@.len(), *c[k].1 == ds.vars@[c[k].0 as int], c[k].1.wf(), 0 <= c[k].1.rsize() <= usize::MAX, ds.hv(c[k].1.name@),
        csum(c.take(k)) == begin_rel(ds.vars@, c[k].0 as int), csum(c.take(k + 1)) == csum(c.take(k)) + c[k].1.rsize(),
        0 <= csum(c.take(k)), csum(c.take(k + 1)) <= fix_sum(ds.vars@) + rec_size(ds.vars@),
{
    reveal(chain_inv);
    let v = ds.vars@;
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).1.rsize() >= 0 by { assert(v[c[i].0 as int].wf()); lemma_rsize_nonneg(*c[i].1); }
    lemma_csum_mono(c, k);
    lemma_csum_mono(c, k + 1);
    assert(v[c[k].0 as int].wf() && v[c[k].0 as int].sizes_ok());
}
#[verifier::opaque]
pub open spec fn chain_done(ds: DataSet, c: Seq<(usize, &Variable)>, vm: Seq<(usize, (&Variable, ComputedVariableMetadata))>, ver: Version, h: int) -> bool {
    &&& vm.len() <= c.len()
    &&& forall|k: int| 0 <= k < vm.len() ==> (#[trigger] vm[k]).0 == c[k].0 && *vm[k].1.0 == ds.vars@[c[k].0 as int] && meta_ok(ds, c[k].0 as int, vm[k].1.1, ver, h)
}
pub proof fn lemma_ids_unique(ds: DataSet, i: int, j: int)
    requires ds.wf(), 0 <= i < ds.vars@.len(), 0 <= j < ds.vars@.len(), ds.vars@[i].name@ == ds.vars@[j].name@
    ensures i == j
{ if i < j { assert(ds.vars@[i].name@ != ds.vars@[j].name@); } else if j < i { assert(ds.vars@[j].name@ != ds.vars@[i].name@); } }
/// back in definition order
#[verifier::spinoff_prover]
pub proof fn lemma_sorted_back(ds: DataSet, c: Seq<(usize, &Variable)>, vm1: Seq<(usize, (&Variable, ComputedVariableMetadata))>, vm2: Seq<(usize, (&Variable, ComputedVariableMetadata))>, p: Seq<int>, k: Seq<usize>, ver: Version, h: int)
    requires chain_inv(ds, c), chain_done(ds, c, vm1, ver, h), vm1.len() == c.len(), sorted_by(vm1, vm2, p, k), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == vm2[i].0
    ensures vm2.len() == ds.vars@.len(), forall|i: int| 0 <= i < vm2.len() ==> *(#[trigger] vm2[i]).1.0 == ds.vars@[i] && meta_ok(ds, i, vm2[i].1.1, ver, h)
{
    let n = c.len();
    assert(n == ds.vars@.len() && vm1.len() == n) by { reveal(chain_inv); reveal(chain_done); }
    assert forall|x: int| 0 <= x < n implies (#[trigger] c[x]).0 < n && vm1[x].0 == c[x].0 && *vm1[x].1.0 == ds.vars@[c[x].0 as int] && meta_ok(ds, c[x].0 as int, vm1[x].1.1, ver, h) by {
        reveal(chain_inv); reveal(chain_done);
        assert(vm1[x].0 == c[x].0);
    }
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && x != y implies (#[trigger] c[x]).0 != (#[trigger] c[y]).0 by {
        reveal(chain_inv);
        if x < y { assert(c[x].0 != c[y].0); } else { assert(c[y].0 != c[x].0); }
    }
    assert forall|a: int| 0 <= a < k.len() implies #[trigger] k[a] < k.len() by { assert(0 <= p[a] < n); assert(vm1[p[a]].0 == c[p[a]].0); }
    assert forall|a: int, b: int| 0 <= a < b < k.len() implies #[trigger] k[a] < #[trigger] k[b] by {
        assert(p[a] != p[b] && 0 <= p[a] < n && 0 <= p[b] < n);
        assert(k[a] <= k[b]);
        assert(k[a] == vm2[a].0 && k[b] == vm2[b].0);
        assert(c[p[a]].0 != c[p[b]].0);
    }
    assert forall|i: int| 0 <= i < n implies *(#[trigger] vm2[i]).1.0 == ds.vars@[i] && meta_ok(ds, i, vm2[i].1.1, ver, h) by {
        lemma_sorted_keys(k, i);
        assert(0 <= p[i] < n);
        assert(vm2[i] == vm1[p[i]]);
        assert(c[p[i]].0 < n);
        assert(k[i] == vm2[i].0);
    }
}
/// c is the fixed-size variables then the record variables of rv, p telling which are which
#[verifier::opaque]
pub open spec fn parted(v: Seq<Variable>, rv: Seq<(usize, &Variable)>, p: Seq<bool>, c: Seq<(usize, &Variable)>) -> bool {
    enum_refs(rv, v) && p.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] p[i] == v[i].is_rec()) && c == keep(rv, seq_not(p)) + keep(rv, p) && v.len() <= usize::MAX
}
pub proof fn lemma_part_len(v: Seq<Variable>, rv: Seq<(usize, &Variable)>, p: Seq<bool>, c: Seq<(usize, &Variable)>)
    requires parted(v, rv, p, c)
    ensures c.len() == v.len(), csum(c) == fix_sum(v) + rec_size(v)
{
    reveal(parted);
    lemma_keep_len(rv, p);
    if v.len() > 0 { let j = lemma_chain(rv, v, p, 0); } else { assert(c =~= Seq::empty()); }
}
pub proof fn lemma_part_at(v: Seq<Variable>, rv: Seq<(usize, &Variable)>, p: Seq<bool>, c: Seq<(usize, &Variable)>, k: int)
    requires parted(v, rv, p, c), 0 <= k < v.len()
    ensures c[k].0 < v.len(), *c[k].1 == v[c[k].0 as int], csum(c.take(k)) == begin_rel(v, c[k].0 as int)
{
    reveal(parted);
    let j = lemma_chain(rv, v, p, k);
    assert(rv[j].0 == j);
}
pub proof fn lemma_part_distinct(v: Seq<Variable>, rv: Seq<(usize, &Variable)>, p: Seq<bool>, c: Seq<(usize, &Variable)>, k: int, l: int)
    requires parted(v, rv, p, c), 0 <= k < l < v.len()
    ensures c[k].0 != c[l].0
{
    reveal(parted);
    lemma_chain_distinct(rv, v, p, k, l);
}
#[verifier::spinoff_prover]
pub proof fn lemma_parted_chain(ds: DataSet, rv: Seq<(usize, &Variable)>, p: Seq<bool>, c: Seq<(usize, &Variable)>)
    requires ds.wf(), ds.sizes_ok(), parted(ds.vars@, rv, p, c)
    ensures chain_inv(ds, c)
{
    let v = ds.vars@;
    lemma_part_len(v, rv, p, c);
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k]).0 < v.len() && *c[k].1 == v[c[k].0 as int] && csum(c.take(k)) == begin_rel(v, c[k].0 as int) by { lemma_part_at(v, rv, p, c, k); }
    assert forall|k: int, l: int| 0 <= k < l < c.len() implies (#[trigger] c[k]).0 != (#[trigger] c[l]).0 by { lemma_part_distinct(v, rv, p, c, k, l); }
    assert(chain_inv(ds, c)) by { reveal(chain_inv); }
}
pub proof fn lemma_chain_inv(ds: DataSet, rv: Seq<(usize, &Variable)>, p: Seq<bool>, rec: Seq<(usize, &Variable)>, non: Seq<(usize, &Variable)>, c: Seq<(usize, &Variable)>)
    requires ds.wf(), ds.sizes_ok(), kept_by(rv, p, rec), kept_by(rv, seq_not(p), non), enum_refs(rv, ds.vars@), forall|i: int| 0 <= i < rv.len() ==> #[trigger] p[i] == (*rv[i].1).is_rec(),
        c == non + rec, rv.len() <= usize::MAX
    ensures chain_inv(ds, c)
{
    assert(parted(ds.vars@, rv, p, c)) by {
        reveal(parted);
        assert forall|i: int| 0 <= i < rv.len() implies #[trigger] p[i] == ds.vars@[i].is_rec() by { assert(rv[i].0 == i); }
    }
    lemma_parted_chain(ds, rv, p, c);
}
