// ---------------------------------------------------------------- the dataset a header defines (C15, C16)
pub open spec fn dun(d: Rc<Dimension>) -> bool { (*d).unlim() }
pub open spec fn dsz(d: Rc<Dimension>) -> int { (*d).sz() as int }
/// product of the sizes of the fixed dimensions
pub open spec fn fprod(s: Seq<Rc<Dimension>>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else if (*s.last()).unlim() { fprod(s.drop_last()) } else { fprod(s.drop_last()) * (*s.last()).sz() }
}
pub proof fn lemma_fprod_prod(s: Seq<Rc<Dimension>>)
    requires forall|i: int| 0 <= i < s.len() ==> !(*#[trigger] s[i]).unlim()
    ensures fprod(s) == prod(s)
    decreases s.len()
{ if s.len() > 0 { assert(!(*s[s.len() - 1]).unlim()); assert forall|i: int| 0 <= i < s.len() - 1 implies !(*#[trigger] s.drop_last()[i]).unlim() by { assert(s.drop_last()[i] == s[i]); } lemma_fprod_prod(s.drop_last()); } }
pub proof fn lemma_fprod_first(s: Seq<Rc<Dimension>>)
    requires s.len() > 0, (*s[0]).unlim(), unlim_first(s)
    ensures fprod(s) == prod(s.skip(1))
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty());
        assert(fprod(s) == fprod(s.drop_last())); assert(fprod(Seq::<Rc<Dimension>>::empty()) == 1);
    } else {
        let m = s.drop_last();
        assert forall|i: int| 1 <= i < m.len() implies !(*#[trigger] m[i]).unlim() by { assert(m[i] == s[i]); }
        lemma_fprod_first(m);
        assert(s.skip(1).drop_last() =~= m.skip(1));
        assert(s.skip(1).last() == s[s.len() - 1]);
        assert(!(*s[s.len() - 1]).unlim());
    }
}
/// the fixed dimensions of a variable give the number of values of a record
pub proof fn lemma_fprod(v: Variable)
    requires v.wf()
    ensures fprod(v.dims@) == v.rlen()
{
    if v.is_rec() { lemma_fprod_first(v.dims@); } else {
        assert(v.dims@.skip(0) =~= v.dims@);
        assert forall|i: int| 0 <= i < v.dims@.len() implies !(*#[trigger] v.dims@[i]).unlim() by { if i == 0 { assert(!v.is_rec()); } }
        lemma_fprod_prod(v.dims@);
    }
}
pub proof fn lemma_fprod_mono(s: Seq<Rc<Dimension>>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> (*#[trigger] s[i]).wf()
    ensures 1 <= fprod(s.take(k)) <= fprod(s)
    decreases s.len()
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        if k > 0 {
            let m = s.drop_last();
            assert forall|i: int| 0 <= i < m.len() implies (*#[trigger] m[i]).wf() by { assert(m[i] == s[i]); }
            lemma_fprod_mono(m, k - 1);
            assert(m.take(k - 1) =~= m);
            assert((*s[k - 1]).wf());
            if !dun(s.last()) { assert(fprod(s) >= 1) by (nonlinear_arith) requires fprod(s) == fprod(m) * (*s.last()).sz(), fprod(m) >= 1, (*s.last()).sz() >= 1; }
        }
    } else {
        let m = s.drop_last();
        assert forall|i: int| 0 <= i < m.len() implies (*#[trigger] m[i]).wf() by { assert(m[i] == s[i]); }
        lemma_fprod_mono(m, k);
        assert(m.take(k) =~= s.take(k));
        assert((*s[s.len() - 1]).wf());
        if !dun(s.last()) { assert(fprod(s) >= fprod(m)) by (nonlinear_arith) requires fprod(s) == fprod(m) * (*s.last()).sz(), fprod(m) >= 1, (*s.last()).sz() >= 1; }
    }
}
/// the next dimension of a variable
pub proof fn lemma_fprod_step(v: Variable, k: int)
    requires v.wf(), 0 <= k < v.dims@.len()
    ensures fprod(v.dims@.take(k + 1)) == if (*v.dims@[k]).unlim() { fprod(v.dims@.take(k)) } else { fprod(v.dims@.take(k)) * (*v.dims@[k]).sz() },
        (v.data_type.esize() * fprod(v.dims@.take(k))) * (*v.dims@[k]).sz() == v.data_type.esize() * (fprod(v.dims@.take(k)) * (*v.dims@[k]).sz()),
        v.data_type.esize() * fprod(v.dims@.take(k + 1)) <= v.rlen() * v.data_type.esize() <= v.rsize(), v.rsize() == round4(v.rlen() * v.data_type.esize()),
{
    assert(v.dims@.take(k + 1).drop_last() =~= v.dims@.take(k));
    assert(v.dims@.take(k + 1).last() == v.dims@[k]);
    lemma_fprod_mono(v.dims@, k + 1);
    lemma_fprod(v);
    lemma_rsize_nonneg(v);
    let (e, f, z, p, r) = (v.data_type.esize() as int, fprod(v.dims@.take(k)), dsz(v.dims@[k]), fprod(v.dims@.take(k + 1)), v.rlen());
    assert((e * f) * z == e * (f * z)) by (nonlinear_arith);
    assert(e * p <= r * e) by (nonlinear_arith) requires 1 <= p <= r, e >= 0;
}
pub proof fn lemma_fprod_end(v: Variable)
    requires v.wf()
    ensures v.data_type.esize() * fprod(v.dims@.take(v.dims@.len() as int)) == v.rlen() * v.data_type.esize(), v.rsize() == round4(v.rlen() * v.data_type.esize()), v.rsize() >= 4
{
    assert(v.dims@.take(v.dims@.len() as int) =~= v.dims@);
    lemma_fprod(v); lemma_rsize_nonneg(v);
    let (e, r) = (v.data_type.esize() as int, v.rlen());
    assert(e * r == r * e) by (nonlinear_arith);
}
/// the record size with one more variable
pub proof fn lemma_rec_size_step(v: Seq<Variable>, k: int)
    requires 0 <= k < v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf()
    ensures rec_size(v.take(k + 1)) == rec_size(v.take(k)) + (if v[k].is_rec() { v[k].rsize() } else { 0 }), 0 <= rec_size(v.take(k)) <= rec_size(v.take(k + 1)) <= rec_size(v)
{
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    assert(v.take(k + 1).last() == v[k]);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).rsize() >= 0 by { lemma_rsize_nonneg(v[i]); }
    lemma_rec_size_mono(v, k + 1);
    lemma_rec_size_mono(v, k);
}
pub proof fn lemma_mul_max(n: int, r: int)
    requires n >= 0, r >= 0
    ensures n >= 1 ==> r <= n * r, n == 0 ==> n * r == 0, r * n == n * r, 1 * r == r, r * 1 == r
{ assert(n >= 1 ==> r <= n * r) by (nonlinear_arith) requires n >= 0, r >= 0; assert(r * n == n * r) by (nonlinear_arith); }
impl ReadError { pub open spec fn inc(self) -> bool { self matches ReadError::ParseHeader(e) && e.inc() } }
// ------------------------------------------------ cells of a dataset that owns all its dimensions
pub open spec fn dim_after(d: Dimension, c: VRefCell<usize>, c2: VRefCell<usize>) -> Dimension {
    if d.size == DimensionSize::Unlimited(c) { Dimension { name: d.name, size: DimensionSize::Unlimited(c2) } } else { d }
}
pub open spec fn dims_after(e: Seq<Rc<Dimension>>, d: Seq<Rc<Dimension>>, c: VRefCell<usize>, c2: VRefCell<usize>) -> bool {
    e.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> *#[trigger] e[i] == dim_after(*d[i], c, c2)
}
pub open spec fn opt_after(e: Option<Rc<Dimension>>, d: Option<Rc<Dimension>>, c: VRefCell<usize>, c2: VRefCell<usize>) -> bool {
    match (e, d) { (Some(x), Some(y)) => *x == dim_after(*y, c, c2), (None, None) => true, _ => false }
}
pub open spec fn var_after(w: Variable, v: Variable, c: VRefCell<usize>, c2: VRefCell<usize>) -> bool {
    w.name == v.name && w.data_type == v.data_type && w.attrs == v.attrs && dims_after(w.dims@, v.dims@, c, c2) && opt_after(w.unlimited_dim, v.unlimited_dim, c, c2)
}
pub open spec fn ds_after(e: DataSet, d: DataSet, c: VRefCell<usize>, c2: VRefCell<usize>) -> bool {
    &&& dims_after(e.dims@, d.dims@, c, c2) && opt_after(e.unlimited_dim, d.unlimited_dim, c, c2) && e.attrs == d.attrs
    &&& e.vars@.len() == d.vars@.len() && forall|i: int| 0 <= i < d.vars@.len() ==> var_after(#[trigger] e.vars@[i], d.vars@[i], c, c2)
}
/// RefCell::replace on a cell of a dataset: every place sharing the cell sees the value
#[verifier::external_body]
pub fn vcell_replace(c: &VRefCell<usize>, v: usize, ds: &mut DataSet) -> (r: usize)
    ensures r == c.val(), exists|c2: VRefCell<usize>| c2.val() == v && #[trigger] ds_after(*final(ds), *old(ds), *c, c2)
{ unimplemented!() }
// ------------------------------------------------ what a header defines
pub open spec fn dim_is(d: Rc<Dimension>, x: (Seq<char>, int), n: int) -> bool {
    (*d).nm() == x.0 && if x.1 == 0 { (*d).unlim() && (*d).sz() == n } else { !(*d).unlim() && (*d).sz() == x.1 }
}
/// the first k dimensions
#[verifier::opaque]
pub open spec fn dims_are(d: Seq<Rc<Dimension>>, x: Seq<(Seq<char>, int)>, k: int, n: int) -> bool { d.len() == k && forall|i: int| 0 <= i < k ==> dim_is(#[trigger] d[i], x[i], n) }
pub open spec fn attr_is(a: Attribute, x: AV) -> bool { a.name@ == x.name && a.data.dtype() == x.ty && enc_values(a.data) == x.raw }
#[verifier::opaque]
pub open spec fn attrs_are(a: Seq<Attribute>, x: Seq<AV>, k: int) -> bool { a.len() == k && forall|i: int| 0 <= i < k ==> attr_is(#[trigger] a[i], x[i]) }
/// the variable and its first j attributes
#[verifier::opaque]
pub open spec fn var_is(v: Variable, x: VV, d: Seq<Rc<Dimension>>, j: int) -> bool {
    &&& v.name@ == x.name && v.data_type == x.ty && attrs_are(v.attrs@, x.attrs, j)
    &&& v.dims@.len() == x.ids.len() && forall|k: int| 0 <= k < x.ids.len() ==> 0 <= #[trigger] x.ids[k] < d.len() && v.dims@[k] == d[x.ids[k]]
}
#[verifier::opaque]
pub open spec fn vars_are(v: Seq<Variable>, x: Seq<VV>, k: int, d: Seq<Rc<Dimension>>) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> var_is(#[trigger] v[i], x[i], d, x[i].attrs.len() as int) }
pub open spec fn defs_are(ds: DataSet, h: HV, n: int) -> bool {
    dims_are(ds.dims@, h.dims, h.dims.len() as int, n) && attrs_are(ds.attrs@, h.attrs, h.attrs.len() as int) && vars_are(ds.vars@, h.vars, h.vars.len() as int, ds.dims@)
}
// ------------------------------------------------ what a header may define
pub open spec fn dims_valid(x: Seq<(Seq<char>, int)>) -> bool {
    &&& forall|i: int| 0 <= i < x.len() ==> valid_name(#[trigger] x[i].0) && x[i].1 <= 2147483644
    &&& forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).0 != (#[trigger] x[j]).0 && !(x[i].1 == 0 && x[j].1 == 0)
}
pub open spec fn attrs_valid(x: Seq<AV>) -> bool {
    &&& forall|i: int| 0 <= i < x.len() ==> valid_name(#[trigger] x[i].name)
    &&& forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).name != (#[trigger] x[j]).name
}
pub open spec fn var_valid(v: VV, d: Seq<(Seq<char>, int)>) -> bool {
    &&& valid_name(v.name) && attrs_valid(v.attrs)
    &&& v.ids.len() <= 1024
    &&& forall|k: int| 0 <= k < v.ids.len() ==> 0 <= #[trigger] v.ids[k] < d.len() && (k > 0 ==> d[v.ids[k]].1 != 0)
    &&& forall|k: int, l: int| 0 <= k < l < v.ids.len() ==> #[trigger] v.ids[k] != #[trigger] v.ids[l]
}
pub open spec fn vars_valid(x: Seq<VV>, d: Seq<(Seq<char>, int)>) -> bool {
    &&& forall|i: int| 0 <= i < x.len() ==> var_valid(#[trigger] x[i], d)
    &&& forall|i: int, j: int| 0 <= i < j < x.len() ==> (#[trigger] x[i]).name != (#[trigger] x[j]).name
}
pub open spec fn defs_valid(h: HV) -> bool { dims_valid(h.dims) && attrs_valid(h.attrs) && vars_valid(h.vars, h.dims) }
// ------------------------------------------------ the number of records (C16)
pub open spec fn vrec(v: VV, d: Seq<(Seq<char>, int)>) -> bool { v.ids.len() > 0 && d[v.ids[0]].1 == 0 }
/// where the record variables begin
pub open spec fn rec_begins(x: Seq<VV>, d: Seq<(Seq<char>, int)>) -> Seq<Offset> decreases x.len() {
    if x.len() == 0 { seq![] } else if vrec(x.last(), d) { rec_begins(x.drop_last(), d).push(x.last().begin) } else { rec_begins(x.drop_last(), d) }
}
pub open spec fn is_min(s: Seq<Offset>, m: int) -> bool { (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).val() == m) && forall|i: int| 0 <= i < s.len() ==> m <= (#[trigger] s[i]).val() }
/// n records of rs bytes fill the file from the first record variable on
pub open spec fn recs_fill(h: HV, size: int, rs: int, n: int) -> bool {
    let s = rec_begins(h.vars, h.dims);
    if s.len() == 0 { n == 0 } else { exists|m: int| #[trigger] is_min(s, m) && n >= 0 && m + n * rs == size }
}
/// n is the number of records the header and the file size give
pub open spec fn recs_are(h: HV, size: int, ds: DataSet, n: int) -> bool {
    match h.nrecs { Some(k) => n == k, None => ds.unlimited_dim is Some ==> recs_fill(h, size, rec_size(ds.vars@), n) }
}
pub open spec fn header_gives(h: HV, size: int, ds: DataSet) -> bool {
    ds.wf() && fits(ds) && exists|n: int| 0 <= n && #[trigger] defs_are(ds, h, n) && recs_are(h, size, ds, n)
}
pub open spec fn hrecs(h: HV) -> int { match h.nrecs { Some(k) => k, None => 0 } }
/// the header defines what a dataset cannot be, or sizes out of range, or a number of records that is no whole one
pub open spec fn refused(h: HV, size: int) -> bool {
    !defs_valid(h) || exists|ds: DataSet| ds.wf() && #[trigger] defs_are(ds, h, hrecs(h)) && (!fits(ds) || (h.nrecs is None && ds.unlimited_dim is Some && forall|n: int| !recs_fill(h, size, rec_size(ds.vars@), n)))
}
// ------------------------------------------------ steps of the construction
pub proof fn lemma_dims_none(d: Seq<Rc<Dimension>>, x: Seq<(Seq<char>, int)>, n: int)
    requires d.len() == 0
    ensures dims_are(d, x, 0, n)
{ reveal(dims_are); }
pub proof fn lemma_dims_next(d0: Seq<Rc<Dimension>>, d1: Seq<Rc<Dimension>>, x: Seq<(Seq<char>, int)>, k: int, n: int, nm: Seq<char>, sz: usize)
    requires dims_are(d0, x, k, n), 0 <= k < x.len(), x[k] == (nm, sz as int), d1.len() == d0.len() + 1, d1.drop_last() == d0, dim_is(d1.last(), x[k], n)
    ensures dims_are(d1, x, k + 1, n)
{
    reveal(dims_are);
    assert forall|i: int| 0 <= i < k + 1 implies dim_is(#[trigger] d1[i], x[i], n) by { if i < k { assert(d1[i] == d0[i]); assert(dim_is(d0[i], x[i], n)); } }
}
/// a dimension that is refused makes the header invalid
pub proof fn lemma_dims_err(ds: DataSet, x: Seq<(Seq<char>, int)>, k: int, n: int, nm: Seq<char>, sz: usize)
    requires ds.wf(), dims_are(ds.dims@, x, k, n), 0 <= k < x.len(), x[k] == (nm, sz as int)
    ensures forall|e: InvalidDataSet| sz != 0 && #[trigger] ds.e_add_dim(nm, sz, e) ==> !dims_valid(x), forall|e: InvalidDataSet| sz == 0 && #[trigger] ds.e_set_unlim(nm, e) ==> !dims_valid(x)
{
    reveal(dims_are);
    if dims_valid(x) {
        assert(valid_name(x[k].0));
        assert(!ds.hd(nm)) by {
            if ds.hd(nm) { let i = choose|i: int| 0 <= i < ds.dims@.len() && (*#[trigger] ds.dims@[i]).nm() == nm; assert(dim_is(ds.dims@[i], x[i], n)); assert(x[i].0 != x[k].0); }
        }
        assert(sz == 0 ==> ds.unlimited_dim is None) by {
            if sz == 0 && ds.unlimited_dim is Some { let u = ds.unlimited_dim->0; let i = choose|i: int| 0 <= i < ds.dims@.len() && ds.dims@[i] == u; assert(dim_is(ds.dims@[i], x[i], n)); assert(x[i].0 != x[k].0); }
        }
    }
}
pub proof fn lemma_attrs_none(a: Seq<Attribute>, x: Seq<AV>)
    requires a.len() == 0
    ensures attrs_are(a, x, 0)
{ reveal(attrs_are); }
pub proof fn lemma_attrs_next(a0: Seq<Attribute>, a1: Seq<Attribute>, x: Seq<AV>, k: int, nm: Seq<char>, d: DataVector)
    requires attrs_are(a0, x, k), 0 <= k < x.len(), x[k] == (AV { name: nm, ty: d.dtype(), raw: enc_values(d) }), attr_added(a1, a0, nm, d)
    ensures attrs_are(a1, x, k + 1)
{
    reveal(attrs_are);
    assert forall|i: int| 0 <= i < k + 1 implies attr_is(#[trigger] a1[i], x[i]) by { if i < k { assert(a1.drop_last()[i] == a0[i]); assert(attr_is(a0[i], x[i])); } }
}
pub proof fn lemma_attrs_err(a: Seq<Attribute>, x: Seq<AV>, k: int, nm: Seq<char>)
    requires attrs_are(a, x, k), 0 <= k < x.len(), x[k].name == nm
    ensures ahas(a, nm) || !valid_name(nm) ==> !attrs_valid(x)
{
    reveal(attrs_are);
    if attrs_valid(x) {
        assert(valid_name(x[k].name));
        if ahas(a, nm) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].name@ == nm; assert(attr_is(a[i], x[i])); assert(x[i].name != x[k].name); }
    }
}
pub proof fn lemma_vars_none(v: Seq<Variable>, x: Seq<VV>, d: Seq<Rc<Dimension>>)
    requires v.len() == 0
    ensures vars_are(v, x, 0, d)
{ reveal(vars_are); }
pub proof fn lemma_vars_next(v0: Seq<Variable>, v1: Seq<Variable>, x: Seq<VV>, k: int, d: Seq<Rc<Dimension>>)
    requires vars_are(v0, x, k, d), 0 <= k < x.len(), v1.len() == v0.len() + 1, v1.drop_last() == v0, var_is(v1.last(), x[k], d, x[k].attrs.len() as int)
    ensures vars_are(v1, x, k + 1, d)
{
    reveal(vars_are);
    assert forall|i: int| 0 <= i < k + 1 implies var_is(#[trigger] v1[i], x[i], d, x[i].attrs.len() as int) by { if i < k { assert(v1[i] == v0[i]); assert(var_is(v0[i], x[i], d, x[i].attrs.len() as int)); } }
}
/// a variable that is refused makes the header invalid
pub proof fn lemma_vars_err(ds: DataSet, xd: Seq<(Seq<char>, int)>, n: int, x: Seq<VV>, k: int, info: VariableParsedMetadata)
    requires ds.wf(), dims_are(ds.dims@, xd, xd.len() as int, n), vars_are(ds.vars@, x, k, ds.dims@), 0 <= k < x.len(), x[k] == var_v(info)
    ensures vars_valid(x, xd) ==> var_valid(x[k], xd), vars_valid(x, xd) ==> attrs_valid(x[k].attrs),
        vars_valid(x, xd) ==> forall|j: int| 0 <= j < info.dim_ids@.len() ==> #[trigger] info.dim_ids@[j] < ds.dims@.len(),
        vars_valid(x, xd) ==> forall|d: Seq<Rc<Dimension>>, e: InvalidDataSet| refs_by(d, ds.dims@, info.dim_ids@) ==> !#[trigger] ds.e_add_var_refs(info.name@, d, e),
{
    reveal(vars_are);
    assert(ds.dims@.len() == xd.len()) by { reveal(dims_are); }
    if vars_valid(x, xd) {
        assert(var_valid(x[k], xd));
        assert forall|j: int| 0 <= j < info.dim_ids@.len() implies #[trigger] info.dim_ids@[j] < ds.dims@.len() by { assert(x[k].ids[j] < xd.len()); }
        assert(!ds.hv(info.name@)) by {
            if ds.hv(info.name@) { let i = choose|i: int| 0 <= i < ds.vars@.len() && (#[trigger] ds.vars@[i]).name@ == info.name@; assert(var_is(ds.vars@[i], x[i], ds.dims@, x[i].attrs.len() as int)); reveal(var_is); assert(x[i].name != x[k].name); }
        }
        assert forall|d: Seq<Rc<Dimension>>, e: InvalidDataSet| refs_by(d, ds.dims@, info.dim_ids@) implies !#[trigger] ds.e_add_var_refs(info.name@, d, e) by {
            reveal(dims_are);
            assert forall|j: int| 1 <= j < d.len() implies !(*#[trigger] d[j]).unlim() by {
                assert(d[j] == ds.dims@[info.dim_ids@[j] as int]); assert(xd[x[k].ids[j]].1 != 0); assert(dim_is(ds.dims@[info.dim_ids@[j] as int], xd[x[k].ids[j]], n));
            }
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] *d[i] != #[trigger] *d[j] by {
                let (a, b) = (info.dim_ids@[i] as int, info.dim_ids@[j] as int);
                assert(d[i] == ds.dims@[a] && d[j] == ds.dims@[b]);
                assert(x[k].ids[i] != x[k].ids[j]);
                if a < b { assert((*ds.dims@[a]).nm() != (*ds.dims@[b]).nm()); } else { assert((*ds.dims@[b]).nm() != (*ds.dims@[a]).nm()); }
            }
            assert(nodup(d) && unlim_first(d) && d.len() <= 1024);
        }
    }
}
pub open spec fn same_vals(a: DataVector, b: DataVector) -> bool {
    match (a, b) {
        (DataVector::I8(x), DataVector::I8(y)) => x@ == y@, (DataVector::U8(x), DataVector::U8(y)) => x@ == y@, (DataVector::I16(x), DataVector::I16(y)) => x@ == y@,
        (DataVector::I32(x), DataVector::I32(y)) => x@ == y@, (DataVector::F32(x), DataVector::F32(y)) => x@ == y@, (DataVector::F64(x), DataVector::F64(y)) => x@ == y@,
        _ => false,
    }
}
@for T in i8 u8 i16 i32 f32 f64
pub broadcast axiom fn axiom_cloned_%T%(a: %T%, b: %T%)
    ensures #[trigger] vstd::pervasive::cloned(a, b) ==> a == b;
@endfor
pub broadcast group group_cloned { axiom_cloned_i8, axiom_cloned_u8, axiom_cloned_i16, axiom_cloned_i32, axiom_cloned_f32, axiom_cloned_f64 }
pub proof fn lemma_fit_all(ds: DataSet)
    requires ds.wf()
    ensures fits(ds) ==> ds.sizes_ok()
{
    if fits(ds) { assert forall|i: int| 0 <= i < ds.vars@.len() implies (#[trigger] ds.vars@[i]).sizes_ok() by { lemma_fit_var(ds, i); } }
}
/// the dimensions with the given indices
pub open spec fn refs_by(r: Seq<Rc<Dimension>>, d: Seq<Rc<Dimension>>, ids: Seq<usize>) -> bool { r.len() == ids.len() && forall|k: int| 0 <= k < ids.len() ==> ids[k] < d.len() && #[trigger] r[k] == d[ids[k] as int] }
pub proof fn lemma_var_new(v: Variable, info: VariableParsedMetadata, d: Seq<Rc<Dimension>>)
    requires v.name@ == info.name@, v.data_type == info.data_type, v.attrs@.len() == 0, refs_by(v.dims@, d, info.dim_ids@)
    ensures var_is(v, var_v(info), d, 0)
{
    reveal(var_is); reveal(attrs_are);
    let x = var_v(info);
    assert forall|k: int| 0 <= k < x.ids.len() implies 0 <= #[trigger] x.ids[k] < d.len() && v.dims@[k] == d[x.ids[k]] by { assert(v.dims@[k] == d[info.dim_ids@[k] as int]); }
}
pub proof fn lemma_var_of_rec(v: Variable, x: VV, d: Seq<Rc<Dimension>>, j: int, xd: Seq<(Seq<char>, int)>, n: int)
    requires var_is(v, x, d, j), dims_are(d, xd, xd.len() as int, n)
    ensures v.is_rec() == vrec(x, xd)
{ reveal(var_is); reveal(dims_are); if x.ids.len() > 0 { assert(v.dims@[0] == d[x.ids[0]]); assert(dim_is(d[x.ids[0]], xd[x.ids[0]], n)); } }
pub open spec fn last_var(ds: DataSet) -> Variable { ds.vars@.last() }
pub proof fn lemma_var_attr_err(ds: DataSet, x: VV, j: int, d: Seq<Rc<Dimension>>, nm: Seq<char>)
    requires ds.wf(), ds.vars@.len() > 0, var_is(last_var(ds), x, d, j), 0 <= j < x.attrs.len(), x.attrs[j].name == nm
    ensures attrs_valid(x.attrs) ==> forall|i: int, e: InvalidDataSet| 0 <= i < ds.vars@.len() && ds.vars@[i].name@ == x.name ==> !#[trigger] ds.vars@[i].e_add_attr(nm, e),
        forall|e: InvalidDataSet| !#[trigger] ds.e_no_var(x.name, e)
{
    reveal(var_is);
    lemma_attrs_err(last_var(ds).attrs@, x.attrs, j, nm);
    let l = ds.vars@.len() - 1;
    assert forall|i: int, e: InvalidDataSet| attrs_valid(x.attrs) && 0 <= i < ds.vars@.len() && ds.vars@[i].name@ == x.name implies !#[trigger] ds.vars@[i].e_add_attr(nm, e) by {
        if i < l { assert(ds.vars@[i].name@ != ds.vars@[l].name@); }
    }
    assert(ds.vars@[l].name@ == x.name);
    assert(ds.hv(x.name));
}
pub proof fn lemma_var_attr_next(d0: DataSet, d1: DataSet, x: VV, j: int, nm: Seq<char>, d: DataVector)
    requires d0.wf(), d0.vars@.len() > 0, var_is(last_var(d0), x, d0.dims@, j), 0 <= j < x.attrs.len(), x.attrs[j] == (AV { name: nm, ty: d.dtype(), raw: enc_values(d) }),
        exists|i: int, c: DataVector| d1.var_edited(d0, i) && d0.vars@[i].name@ == x.name && d1.vars@[i].same_but_attrs(d0.vars@[i]) && #[trigger] attr_added(d1.vars@[i].attrs@, d0.vars@[i].attrs@, nm, c) && same_vals(c, d),
    ensures d1.vars@.len() == d0.vars@.len(), d1.vars@.drop_last() == d0.vars@.drop_last(), d1.dims == d0.dims, d1.attrs == d0.attrs, var_is(last_var(d1), x, d1.dims@, j + 1)
{
    reveal(var_is);
    let (i, c) = choose|i: int, c: DataVector| d1.var_edited(d0, i) && d0.vars@[i].name@ == x.name && d1.vars@[i].same_but_attrs(d0.vars@[i]) && #[trigger] attr_added(d1.vars@[i].attrs@, d0.vars@[i].attrs@, nm, c) && same_vals(c, d);
    let l = d0.vars@.len() - 1;
    assert(last_var(d0) == d0.vars@[l]);
    if i < l { assert(d0.vars@[i].name@ != d0.vars@[l].name@); }
    assert(i == l);
    assert(d1.vars@.drop_last() =~= d0.vars@.drop_last());
    lemma_attrs_next(d0.vars@[l].attrs@, d1.vars@[l].attrs@, x.attrs, j, nm, c);
}
// ------------------------------------------------ stages of the header
pub open spec fn follows<X, Y>(p: PR<X>, q: PR<Y>) -> bool { (p is Inc ==> q is Inc) && (p is Bad ==> q is Bad) }
/// the parts up to the version / the number of records / the dimensions / the attributes are read, and rest is what follows
#[verifier::opaque]
pub open spec fn at1(b: Seq<u8>, rest: Seq<u8>) -> bool { d_magic(b) is Ok && rest == b.skip(d_magic(b).n()) && 0 <= d_magic(b).n() <= b.len() }
#[verifier::opaque]
pub open spec fn at2(b: Seq<u8>, rest: Seq<u8>, v: Version) -> bool {
    let m = d_magic(b);
    let mv = m.and(d_version(b.skip(m.n())));
    mv is Ok && mv.x().1 == v && rest == b.skip(mv.n()) && 0 <= mv.n() <= b.len()
}
#[verifier::opaque]
pub open spec fn at3(b: Seq<u8>, rest: Seq<u8>, v: Version, r: Option<int>) -> bool {
    let m = d_magic(b);
    let mv = m.and(d_version(b.skip(m.n())));
    let mvr = mv.and(d_optlen(b.skip(mv.n())));
    mvr is Ok && mvr.x().0.1 == v && mvr.x().1 == r && rest == b.skip(mvr.n()) && 0 <= mvr.n() <= b.len()
}
#[verifier::opaque]
pub open spec fn at4(b: Seq<u8>, rest: Seq<u8>, v: Version, r: Option<int>, d: Seq<(Seq<char>, int)>) -> bool {
    let m = d_magic(b);
    let mv = m.and(d_version(b.skip(m.n())));
    let mvr = mv.and(d_optlen(b.skip(mv.n())));
    let mvrd = mvr.and(d_dims(b.skip(mvr.n())));
    mvrd is Ok && mvrd.x().0.0.1 == v && mvrd.x().0.1 == r && mvrd.x().1 == d && rest == b.skip(mvrd.n()) && 0 <= mvrd.n() <= b.len()
}
#[verifier::opaque]
pub open spec fn at5(b: Seq<u8>, rest: Seq<u8>, v: Version, r: Option<int>, d: Seq<(Seq<char>, int)>, a: Seq<AV>) -> bool {
    let m = d_magic(b);
    let mv = m.and(d_version(b.skip(m.n())));
    let mvr = mv.and(d_optlen(b.skip(mv.n())));
    let mvrd = mvr.and(d_dims(b.skip(mvr.n())));
    let mvrda = mvrd.and(d_attrs(b.skip(mvrd.n())));
    mvrda is Ok && mvrda.x().0.0.0.1 == v && mvrda.x().0.0.1 == r && mvrda.x().0.1 == d && mvrda.x().1 == a && rest == b.skip(mvrda.n()) && 0 <= mvrda.n() <= b.len()
}
pub proof fn lemma_h0(b: Seq<u8>)
    ensures follows(d_magic(b), d_header(b))
{ reveal(d_header); }
pub proof fn lemma_h1(b: Seq<u8>, c: Seq<u8>)
    requires pr_ok(b, d_magic(b), c, ())
    ensures at1(b, c), follows(d_version(c), d_header(b))
{ reveal(d_header); reveal(at1); }
pub proof fn lemma_h2(b: Seq<u8>, b1: Seq<u8>, c: Seq<u8>, v: Version)
    requires at1(b, b1), pr_ok(b1, d_version(b1), c, v)
    ensures at2(b, c, v), follows(d_optlen(c), d_header(b))
{ reveal(d_header); reveal(at1); reveal(at2); broadcast use group_parse; }
pub proof fn lemma_h3(b: Seq<u8>, b2: Seq<u8>, c: Seq<u8>, v: Version, r: Option<int>)
    requires at2(b, b2, v), pr_ok(b2, d_optlen(b2), c, r)
    ensures at3(b, c, v, r), follows(d_dims(c), d_header(b))
{ reveal(d_header); reveal(at2); reveal(at3); broadcast use group_parse; }
pub proof fn lemma_h4(b: Seq<u8>, b3: Seq<u8>, c: Seq<u8>, v: Version, r: Option<int>, d: Seq<(Seq<char>, int)>)
    requires at3(b, b3, v, r), pr_ok(b3, d_dims(b3), c, d)
    ensures at4(b, c, v, r, d), follows(d_attrs(c), d_header(b))
{ reveal(d_header); reveal(at3); reveal(at4); broadcast use group_parse; }
pub proof fn lemma_h5(b: Seq<u8>, b4: Seq<u8>, c: Seq<u8>, v: Version, r: Option<int>, d: Seq<(Seq<char>, int)>, a: Seq<AV>)
    requires at4(b, b4, v, r, d), pr_ok(b4, d_attrs(b4), c, a)
    ensures at5(b, c, v, r, d, a), follows(d_vars(c, v), d_header(b))
{ reveal(d_header); reveal(at4); reveal(at5); broadcast use group_parse; }
pub proof fn lemma_h6(b: Seq<u8>, b5: Seq<u8>, c: Seq<u8>, h: HV)
    requires at5(b, b5, h.version, h.nrecs, h.dims, h.attrs), pr_ok(b5, d_vars(b5, h.version), c, h.vars)
    ensures d_header(b) is Ok, d_header(b).x() == h, begins_ok(h.vars)
{
    reveal(d_header); reveal(at5); broadcast use group_parse;
    reveal(begins_ok);
    let g = d_tag(b5, t_var());
    let k = d_len(b5.skip(g.n()));
    lemma_many_begins(h.version, b5.skip(g.n()).skip(k.n()), k.x());
}
#[verifier::opaque]
pub open spec fn begins_ok(x: Seq<VV>) -> bool { forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).begin.val() >= 0 }
pub proof fn lemma_many_begins(v: Version, b: Seq<u8>, k: int)
    ensures d_many(f_var(v), b, k) is Ok ==> begins_ok(d_many(f_var(v), b, k).x())
    decreases k
{
    reveal(begins_ok); reveal(d_many);
    if k > 0 { lemma_many_begins(v, b, k - 1); }
}

pub proof fn lemma_rec_begins_ok(x: Seq<VV>, d: Seq<(Seq<char>, int)>)
    requires begins_ok(x)
    ensures forall|i: int| 0 <= i < rec_begins(x, d).len() ==> (#[trigger] rec_begins(x, d)[i]).val() >= 0
    decreases x.len()
{
    reveal(begins_ok);
    if x.len() > 0 { assert(x.last().begin.val() >= 0); assert(begins_ok(x.drop_last())); lemma_rec_begins_ok(x.drop_last(), d);
        let s = rec_begins(x.drop_last(), d);
        assert forall|i: int| 0 <= i < rec_begins(x, d).len() implies (#[trigger] rec_begins(x, d)[i]).val() >= 0 by { if i < s.len() { assert(rec_begins(x, d)[i] == s[i]); } }
    }
}
pub proof fn lemma_rec_some(v: Seq<Variable>, x: Seq<VV>, d: Seq<Rc<Dimension>>, xd: Seq<(Seq<char>, int)>, n: int)
    requires vars_are(v, x, x.len() as int, d), dims_are(d, xd, xd.len() as int, n), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf()
    ensures rec_size(v) >= 0, rec_begins(x, xd).len() > 0 ==> rec_size(v) >= 4
    decreases x.len()
{
    reveal(vars_are);
    if x.len() > 0 {
        let l = x.len() - 1;
        assert(var_is(v[l], x[l], d, x[l].attrs.len() as int));
        lemma_var_of_rec(v[l], x[l], d, x[l].attrs.len() as int, xd, n);
        assert(v[l].wf());
        lemma_rsize_nonneg(v[l]);
        assert forall|i: int| 0 <= i < l implies var_is(#[trigger] v.drop_last()[i], x.drop_last()[i], d, x.drop_last()[i].attrs.len() as int) by { assert(var_is(v[i], x[i], d, x[i].attrs.len() as int)); }
        assert forall|i: int| 0 <= i < l implies (#[trigger] v.drop_last()[i]).wf() by { assert(v[i].wf()); }
        lemma_rec_some(v.drop_last(), x.drop_last(), d, xd, n);
    }
}
pub proof fn lemma_infos(ds: DataSet, vl: Seq<VariableParsedMetadata>, x: Seq<VV>)
    requires vars_are(ds.vars@, x, x.len() as int, ds.dims@), vars_v(vl) == x, begins_ok(x)
    ensures infos_ok(ds, vl)
{
    reveal(vars_are); reveal(begins_ok);
    assert(vl.len() == x.len());
    assert forall|i: int| 0 <= i < vl.len() implies (#[trigger] vl[i]).name@ == ds.vars@[i].name@ && vl[i].begin_offset.val() >= 0 by {
        assert(x[i] == var_v(vl[i]));
        assert(var_is(ds.vars@[i], x[i], ds.dims@, x[i].attrs.len() as int)); reveal(var_is);
        assert(x[i].begin.val() >= 0);
    }
}
/// the only unlimited dimension gets the number of records
pub proof fn lemma_set_recs(d0: DataSet, d1: DataSet, h: HV, c: VRefCell<usize>, c2: VRefCell<usize>)
    requires d0.wf(), fits(d0), defs_are(d0, h, 0), d0.unlimited_dim is Some, (*d0.unlimited_dim->0).size == DimensionSize::Unlimited(c), ds_after(d1, d0, c, c2),
        c2.val() * rec_size(d0.vars@) <= i64::MAX
    ensures d1.wf(), fits(d1), defs_are(d1, h, c2.val() as int), rec_size(d1.vars@) == rec_size(d0.vars@), d1.unlimited_dim is Some
{
    reveal(dims_are); reveal(vars_are); reveal(var_is);
    let n = c2.val() as int;
    assert forall|i: int| 0 <= i < d1.dims@.len() implies (*#[trigger] d1.dims@[i]).nm() == (*d0.dims@[i]).nm() && (*d1.dims@[i]).unlim() == (*d0.dims@[i]).unlim() && (*d1.dims@[i]).wf()
        && dim_is(d1.dims@[i], h.dims[i], n) by {
        assert((*d0.dims@[i]).wf()); assert(dim_is(d0.dims@[i], h.dims[i], 0));
        assert(*d1.dims@[i] == dim_after(*d0.dims@[i], c, c2));
        if (*d0.dims@[i]).unlim() {
            let j = choose|j: int| 0 <= j < d0.dims@.len() && d0.dims@[j] == d0.unlimited_dim->0;
            assert((*d0.dims@[j]).unlim());
            assert(i == j);
        }
    }
    assert(dims_are(d1.dims@, h.dims, h.dims.len() as int, n));
    assert(dims_ok(d1.dims@));
    let u = d1.unlimited_dim->0;
    assert(d1.dims@.contains(u)) by { let j = choose|j: int| 0 <= j < d0.dims@.len() && d0.dims@[j] == d0.unlimited_dim->0; assert(*d1.dims@[j] == *u); assert(d1.dims@[j] == u); }
    assert(unlim_is(d1.dims@, d1.unlimited_dim));
    assert forall|i: int| 0 <= i < d1.vars@.len() implies (#[trigger] d1.vars@[i]).wf() && dims_in(d1.vars@[i], d1.dims@) && d1.vars@[i].name@ == d0.vars@[i].name@
        && d1.vars@[i].rsize() == d0.vars@[i].rsize() && d1.vars@[i].is_rec() == d0.vars@[i].is_rec() && var_is(d1.vars@[i], h.vars[i], d1.dims@, h.vars[i].attrs.len() as int) by {
        let (v, w) = (d0.vars@[i], d1.vars@[i]);
        assert(var_after(w, v, c, c2));
        assert(var_is(v, h.vars[i], d0.dims@, h.vars[i].attrs.len() as int));
        assert(v.wf() && dims_in(v, d0.dims@));
        lemma_var_after(v, w, c, c2, d0.dims@, d1.dims@, h.vars[i].ids);
    }
    lemma_rec_size_same(d0.vars@, d1.vars@);
    assert(vars_wf(d1.vars@, d1.dims@));
    assert(num_recs(d1) == n);
    assert forall|i: int| 0 <= i < d1.vars@.len() implies (#[trigger] d1.vars@[i]).rsize() <= i64::MAX by { assert(d0.vars@[i].rsize() <= i64::MAX); }
}
pub proof fn lemma_rec_size_same(v: Seq<Variable>, w: Seq<Variable>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).rsize() == v[i].rsize() && w[i].is_rec() == v[i].is_rec()
    ensures rec_size(w) == rec_size(v)
    decreases v.len()
{
    if v.len() > 0 {
        assert(w[v.len() - 1].rsize() == v[v.len() - 1].rsize());
        assert forall|i: int| 0 <= i < v.len() - 1 implies (#[trigger] w.drop_last()[i]).rsize() == v.drop_last()[i].rsize() && w.drop_last()[i].is_rec() == v.drop_last()[i].is_rec() by { assert(w[i].rsize() == v[i].rsize()); }
        lemma_rec_size_same(v.drop_last(), w.drop_last());
    }
}
pub proof fn lemma_prod_same(s: Seq<Rc<Dimension>>, t: Seq<Rc<Dimension>>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (*#[trigger] t[i]).sz() == (*s[i]).sz()
    ensures prod(s) == prod(t)
    decreases s.len()
{
    if s.len() > 0 {
        assert((*t[s.len() - 1]).sz() == (*s[s.len() - 1]).sz());
        assert forall|i: int| 0 <= i < s.len() - 1 implies (*#[trigger] t.drop_last()[i]).sz() == (*s.drop_last()[i]).sz() by { assert((*t[i]).sz() == (*s[i]).sz()); }
        lemma_prod_same(s.drop_last(), t.drop_last());
    }
}
/// a variable after the write to the cell c, its dimensions being those of the dataset
pub proof fn lemma_var_after(v: Variable, w: Variable, c: VRefCell<usize>, c2: VRefCell<usize>, d0: Seq<Rc<Dimension>>, d1: Seq<Rc<Dimension>>, ids: Seq<int>)
    requires v.wf(), var_after(w, v, c, c2), dims_after(d1, d0, c, c2), ids.len() == v.dims@.len(), forall|k: int| 0 <= k < ids.len() ==> 0 <= #[trigger] ids[k] < d0.len() && v.dims@[k] == d0[ids[k]], dims_ok(d0),
        forall|i: int| 0 <= i < d1.len() ==> (*#[trigger] d1[i]).wf() && (*d1[i]).nm() == (*d0[i]).nm(),
    ensures w.wf(), dims_in(w, d1), w.rsize() == v.rsize(), w.is_rec() == v.is_rec(), forall|k: int| 0 <= k < ids.len() ==> 0 <= #[trigger] ids[k] < d1.len() && w.dims@[k] == d1[ids[k]]
{
    assert forall|k: int| 0 <= k < ids.len() implies 0 <= #[trigger] ids[k] < d1.len() && w.dims@[k] == d1[ids[k]] by {
        assert(v.dims@[k] == d0[ids[k]]);
        assert(*w.dims@[k] == dim_after(*v.dims@[k], c, c2));
        assert(*d1[ids[k]] == dim_after(*d0[ids[k]], c, c2));
    }
    assert forall|k: int| 0 <= k < w.dims@.len() implies (*#[trigger] w.dims@[k]).wf() && d1.contains(w.dims@[k]) && (*w.dims@[k]).unlim() == (*v.dims@[k]).unlim() && (*w.dims@[k]).nm() == (*v.dims@[k]).nm() by {
        assert(w.dims@[k] == d1[ids[k]]); assert((*d1[ids[k]]).wf()); assert(*w.dims@[k] == dim_after(*v.dims@[k], c, c2)); assert(d1.contains(d1[ids[k]]));
    }
    assert forall|i: int, j: int| 0 <= i < j < w.dims@.len() implies #[trigger] *w.dims@[i] != #[trigger] *w.dims@[j] by {
        assert(*v.dims@[i] != *v.dims@[j]);
        assert(w.dims@[i] == d1[ids[i]]); assert(w.dims@[j] == d1[ids[j]]);
        assert(v.dims@[i] == d0[ids[i]]); assert(v.dims@[j] == d0[ids[j]]);
        assert(ids[i] != ids[j]);
        let (a, b) = if ids[i] < ids[j] { (ids[i], ids[j]) } else { (ids[j], ids[i]) };
        assert((*d0[a]).nm() != (*d0[b]).nm());
        assert((*d1[a]).nm() == (*d0[a]).nm()); assert((*d1[b]).nm() == (*d0[b]).nm());
    }
    assert forall|i: int| 1 <= i < w.dims@.len() implies !(*#[trigger] w.dims@[i]).unlim() by { assert(!(*v.dims@[i]).unlim()); }
    assert(w.is_rec() == v.is_rec()) by { if w.dims@.len() > 0 { assert((*w.dims@[0]).unlim() == (*v.dims@[0]).unlim()); } }
    if v.is_rec() { assert(*(w.unlimited_dim->0) == *w.dims@[0]); assert(w.unlimited_dim->0 == w.dims@[0]); }
    let o = if v.is_rec() { 1int } else { 0 };
    let (s, t) = (v.dims@.skip(o), w.dims@.skip(o));
    assert forall|i: int| 0 <= i < s.len() implies (*#[trigger] t[i]).sz() == (*s[i]).sz() by {
        assert(*w.dims@[i + o] == dim_after(*v.dims@[i + o], c, c2));
        if i + o >= 1 { assert(!(*v.dims@[i + o]).unlim()); }
    }
    lemma_prod_same(s, t);
}
pub proof fn lemma_whole(size: int, m: int, rs: int)
    requires rs > 0, size >= m
    ensures (size - m) % rs == 0 ==> m + ((size - m) / rs) * rs == size, (size - m) % rs != 0 ==> forall|n: int| m + #[trigger] (n * rs) != size
{
    let a = size - m;
    assert(a == (a / rs) * rs + a % rs && 0 <= a % rs < rs) by (nonlinear_arith) requires rs > 0;
    if a % rs != 0 {
        assert forall|n: int| m + #[trigger] (n * rs) != size by {
            if m + n * rs == size {
                let (q, r) = (a / rs, a % rs);
                assert(0 <= r < rs);
                assert(r == (n - q) * rs) by (nonlinear_arith) requires n * rs == q * rs + r;
                assert(false) by (nonlinear_arith) requires r == (n - q) * rs, 0 < r < rs;
            }
        }
    }
}
pub proof fn lemma_max_recs(size: int, m: int, rs: int)
    requires rs > 0, 0 <= m <= size
    ensures 0 <= (size - m) / rs <= size, ((size - m) / rs) * rs <= size
{
    let a = size - m;
    assert(0 <= a / rs <= a && (a / rs) * rs <= a) by (nonlinear_arith) requires rs > 0, a >= 0;
}
pub proof fn lemma_min_same(s: Seq<Offset>)
    ensures forall|m: int, k: int| #[trigger] is_min(s, m) && #[trigger] is_min(s, k) ==> m == k
{ }
/// the dataset before and after the number of records is set
#[verifier::spinoff_prover]
pub proof fn lemma_end(d0: DataSet, d1: DataSet, h: HV, size: int, vl: Seq<VariableParsedMetadata>)
    requires d0.wf(), fits(d0), defs_are(d0, h, hrecs(h)), infos_ok(d0, vl), size <= i64::MAX, vars_v(vl) == h.vars, begins_ok(h.vars)
    ensures (h.nrecs is Some || d0.unlimited_dim is None) ==> hrecs(h) >= 0 ==> header_gives(h, size, d0),
        forall|c: VRefCell<usize>, c2: VRefCell<usize>| h.nrecs is None && d0.unlimited_dim is Some && (*d0.unlimited_dim->0).size == DimensionSize::Unlimited(c) && #[trigger] ds_after(d1, d0, c, c2)
            && recs_fill(h, size, rec_size(d0.vars@), c2.val() as int) ==> header_gives(h, size, d1) && infos_ok(d1, vl)
{
    if (h.nrecs is Some || d0.unlimited_dim is None) && hrecs(h) >= 0 { assert(defs_are(d0, h, hrecs(h))); assert(recs_are(h, size, d0, hrecs(h))); }
    assert forall|c: VRefCell<usize>, c2: VRefCell<usize>| h.nrecs is None && d0.unlimited_dim is Some && (*d0.unlimited_dim->0).size == DimensionSize::Unlimited(c) && #[trigger] ds_after(d1, d0, c, c2)
            && recs_fill(h, size, rec_size(d0.vars@), c2.val() as int) implies header_gives(h, size, d1) && infos_ok(d1, vl) by {
        let n = c2.val() as int;
        let rs = rec_size(d0.vars@);
        lemma_rec_begins_ok(h.vars, h.dims);
        assert(n * rs <= i64::MAX) by {
            let s = rec_begins(h.vars, h.dims);
            if s.len() > 0 { let m = choose|m: int| #[trigger] is_min(s, m) && n >= 0 && m + n * rs == size; assert(m >= 0); } else { assert(n * rs == 0) by (nonlinear_arith) requires n == 0; }
        }
        lemma_set_recs(d0, d1, h, c, c2);
        assert(defs_are(d1, h, n));
        assert(recs_are(h, size, d1, n));
        lemma_infos(d1, vl, h.vars);
    }
}
// ------------------------------------------------ more bytes change nothing once there are enough
pub open spec fn pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
/// what is decided on a is decided the same on b, and no more than a is taken
pub open spec fn keeps<X>(p: PR<X>, q: PR<X>, a: Seq<u8>) -> bool { (p is Inc || p == q) && p.within(a) }
pub open spec fn stable<X>(f: spec_fn(Seq<u8>) -> PR<X>) -> bool { forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) ==> keeps(f(a), f(b), a) }
pub broadcast proof fn lemma_pre_skip(a: Seq<u8>, b: Seq<u8>, n: int)
    requires pre(a, b), 0 <= n <= a.len()
    ensures #![trigger a.skip(n), b.skip(n)] pre(a.skip(n), b.skip(n))
{ assert(a.skip(n) =~= b.skip(n).take(a.len() - n)); }
pub proof fn lemma_s_len(a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b)
    ensures keeps(d_len(a), d_len(b), a), keeps(d_optlen(a), d_optlen(b), a), keeps(d_type(a), d_type(b), a), keeps(d_version(a), d_version(b), a), forall|v: Version| keeps(#[trigger] d_offset(a, v), d_offset(b, v), a)
{
    assert(forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]);
    if a.len() >= 8 { assert(a.skip(4).take(4) =~= b.skip(4).take(4)); assert(forall|i: int| 0 <= i < 4 ==> a.skip(4)[i] == b.skip(4)[i]); }
}
pub proof fn lemma_s_take(a: Seq<u8>, b: Seq<u8>, n: int)
    requires pre(a, b), n >= 0
    ensures keeps(d_zeros(a, n), d_zeros(b, n), a), keeps(d_str(a, n), d_str(b, n), a), a.len() >= n ==> a.take(n) == b.take(n)
{ if a.len() >= n { assert(a.take(n) =~= b.take(n)); } }
pub proof fn lemma_s_tag(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
    requires pre(a, b)
    ensures keeps(d_tag(a, t), d_tag(b, t), a)
{
    assert(forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]);
    if differs(a, t) { let j = choose|j: int| 0 <= j < a.len() && j < t.len() && #[trigger] a[j] != t[j]; assert(b[j] != t[j]); }
    else if a.len() >= t.len() { if differs(b, t) { let j = choose|j: int| 0 <= j < b.len() && j < t.len() && #[trigger] b[j] != t[j]; assert(a[j] != t[j]); } }
}
pub proof fn lemma_s_name(a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b)
    ensures keeps(d_name(a), d_name(b), a)
{
    lemma_s_len(a, b);
    let l = d_len(a);
    if l is Ok {
        lemma_pre_skip(a, b, l.n());
        lemma_s_take(a.skip(l.n()), b.skip(l.n()), l.x());
        let s = d_str(a.skip(l.n()), l.x());
        if s is Ok { lemma_pre_skip(a, b, l.n() + s.n()); lemma_s_take(a.skip(l.n() + s.n()), b.skip(l.n() + s.n()), pad4(l.x())); }
    }
}
pub proof fn lemma_s_vals(a: Seq<u8>, b: Seq<u8>, k: int, t: DataType)
    requires pre(a, b), k >= 0
    ensures keeps(d_vals(a, k, t), d_vals(b, k, t), a)
{
    let n = k * t.esize();
    assert(n >= 0) by (nonlinear_arith) requires n == k * t.esize(), k >= 0, t.esize() >= 0;
    lemma_s_take(a, b, n);
    if a.len() >= n { lemma_pre_skip(a, b, n); lemma_s_take(a.skip(n), b.skip(n), pad4(n)); }
}
pub proof fn lemma_s_dim(a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b)
    ensures keeps(d_dim(a), d_dim(b), a)
{
    lemma_s_name(a, b);
    let l = d_name(a);
    if l is Ok { lemma_pre_skip(a, b, l.n()); lemma_s_len(a.skip(l.n()), b.skip(l.n())); }
}
pub proof fn lemma_s_attr(a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b)
    ensures keeps(d_attr(a), d_attr(b), a)
{
    lemma_s_name(a, b);
    let n = d_name(a);
    if n is Ok {
        lemma_pre_skip(a, b, n.n()); lemma_s_len(a.skip(n.n()), b.skip(n.n()));
        let t = d_type(a.skip(n.n()));
        if t is Ok {
            let m = n.n() + t.n();
            lemma_pre_skip(a, b, m); lemma_s_len(a.skip(m), b.skip(m));
            let k = d_len(a.skip(m));
            if k is Ok { lemma_pre_skip(a, b, m + k.n()); lemma_s_vals(a.skip(m + k.n()), b.skip(m + k.n()), k.x(), t.x()); }
        }
    }
}
pub proof fn lemma_s_many<X>(f: spec_fn(Seq<u8>) -> PR<X>, a: Seq<u8>, b: Seq<u8>, k: int)
    requires pre(a, b), stable(f)
    ensures keeps(d_many(f, a, k), d_many(f, b, k), a)
    decreases k
{
    reveal(d_many);
    if k > 0 {
        lemma_s_many(f, a, b, k - 1);
        let h = d_many(f, a, k - 1);
        if h is Ok { lemma_pre_skip(a, b, h.n()); assert(keeps(f(a.skip(h.n())), f(b.skip(h.n())), a.skip(h.n()))); }
    }
}
pub proof fn lemma_s_counted<X>(f: spec_fn(Seq<u8>) -> PR<X>, a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b), stable(f)
    ensures keeps(d_counted(f, a), d_counted(f, b), a)
{
    lemma_s_len(a, b);
    let k = d_len(a);
    if k is Ok { lemma_pre_skip(a, b, k.n()); lemma_s_many(f, a.skip(k.n()), b.skip(k.n()), k.x()); }
}
pub proof fn lemma_s_list<X>(f: spec_fn(Seq<u8>) -> PR<X>, a: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
    requires pre(a, b), stable(f)
    ensures keeps(d_list(f, a, t), d_list(f, b, t), a)
{
    lemma_s_tag(a, b, absent());
    lemma_s_tag(a, b, t);
    let g = d_tag(a, t);
    if g is Ok { lemma_pre_skip(a, b, g.n()); lemma_s_counted(f, a.skip(g.n()), b.skip(g.n())); }
}
pub proof fn lemma_stable()
    ensures stable(f_dim()), stable(f_attr()), stable(f_id())
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_dim()(a), f_dim()(b), a) by { lemma_s_dim(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_attr()(a), f_attr()(b), a) by { lemma_s_attr(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_id()(a), f_id()(b), a) by { lemma_s_len(a, b); }
}
/// one part after the other
pub open spec fn pair<X, Y>(f: spec_fn(Seq<u8>) -> PR<X>, g: spec_fn(Seq<u8>) -> PR<Y>) -> spec_fn(Seq<u8>) -> PR<(X, Y)> { |b: Seq<u8>| f(b).and(g(b.skip(f(b).n()))) }
pub proof fn lemma_s_and<X, Y>(p: PR<X>, q: PR<X>, s: PR<Y>, t: PR<Y>, a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b), keeps(p, q, a), p is Ok ==> keeps(s, t, a.skip(p.n()))
    ensures keeps(p.and(s), q.and(t), a), p.and(s) is Ok ==> p is Ok && p.and(s).n() == p.n() + s.n()
{ }
pub proof fn lemma_s_pair<X, Y>(f: spec_fn(Seq<u8>) -> PR<X>, g: spec_fn(Seq<u8>) -> PR<Y>)
    requires stable(f), stable(g)
    ensures stable(pair(f, g))
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(pair(f, g)(a), pair(f, g)(b), a) by {
        let (p, q) = (f(a), f(b));
        assert(keeps(p, q, a));
        if p is Ok { lemma_pre_skip(a, b, p.n()); assert(keeps(g(a.skip(p.n())), g(b.skip(p.n())), a.skip(p.n()))); }
        lemma_s_and(p, q, g(a.skip(p.n())), g(b.skip(q.n())), a, b);
    }
}
pub open spec fn f_name() -> spec_fn(Seq<u8>) -> PR<Seq<char>> { |b: Seq<u8>| d_name(b) }
pub open spec fn f_ids() -> spec_fn(Seq<u8>) -> PR<Seq<int>> { |b: Seq<u8>| d_counted(f_id(), b) }
pub open spec fn f_attrs() -> spec_fn(Seq<u8>) -> PR<Seq<AV>> { |b: Seq<u8>| d_attrs(b) }
pub open spec fn f_dims() -> spec_fn(Seq<u8>) -> PR<Seq<(Seq<char>, int)>> { |b: Seq<u8>| d_dims(b) }
pub open spec fn f_type() -> spec_fn(Seq<u8>) -> PR<DataType> { |b: Seq<u8>| d_type(b) }
pub open spec fn f_opt() -> spec_fn(Seq<u8>) -> PR<Option<int>> { |b: Seq<u8>| d_optlen(b) }
pub open spec fn f_off(v: Version) -> spec_fn(Seq<u8>) -> PR<Offset> { |b: Seq<u8>| d_offset(b, v) }
pub open spec fn f_magic() -> spec_fn(Seq<u8>) -> PR<()> { |b: Seq<u8>| d_magic(b) }
pub open spec fn f_version() -> spec_fn(Seq<u8>) -> PR<Version> { |b: Seq<u8>| d_version(b) }
pub open spec fn f_vars(v: Version) -> spec_fn(Seq<u8>) -> PR<Seq<VV>> { |b: Seq<u8>| d_vars(b, v) }
pub proof fn lemma_s_parts()
    ensures stable(f_name()), stable(f_ids()), stable(f_attrs()), stable(f_dims()), stable(f_type()), stable(f_opt()), forall|v: Version| stable(#[trigger] f_off(v)), stable(f_magic()), stable(f_version())
{
    lemma_stable();
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_name()(a), f_name()(b), a) by { lemma_s_name(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_ids()(a), f_ids()(b), a) by { lemma_s_counted(f_id(), a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_attrs()(a), f_attrs()(b), a) by { lemma_s_list(f_attr(), a, b, t_attr()); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_dims()(a), f_dims()(b), a) by { lemma_s_list(f_dim(), a, b, t_dim()); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_type()(a), f_type()(b), a) by { lemma_s_len(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_opt()(a), f_opt()(b), a) by { lemma_s_len(a, b); }
    assert forall|v: Version| stable(#[trigger] f_off(v)) by { assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_off(v)(a), f_off(v)(b), a) by { lemma_s_len(a, b); assert(f_off(v)(a) == d_offset(a, v)); } }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_magic()(a), f_magic()(b), a) by { lemma_s_tag(a, b, seq![0x43u8, 0x44, 0x46]); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_version()(a), f_version()(b), a) by { lemma_s_len(a, b); }
}
pub open spec fn p_var(v: Version) -> spec_fn(Seq<u8>) -> PR<(((((Seq<char>, Seq<int>), Seq<AV>), DataType), Option<int>), Offset)> { pair(pair(pair(pair(pair(f_name(), f_ids()), f_attrs()), f_type()), f_opt()), f_off(v)) }
pub proof fn lemma_p_var(b: Seq<u8>, v: Version)
    ensures ({ let p = p_var(v)(b); d_var(b, v) == match p { PR::Ok((((((x, y), z), t), s), o), m) => PR::Ok(VV { name: x, ids: y, attrs: z, ty: t, vsize: s, begin: o }, m), PR::Inc => PR::Inc, PR::Bad => PR::Bad } })
{ }
pub proof fn lemma_s_var(a: Seq<u8>, b: Seq<u8>, v: Version)
    requires pre(a, b)
    ensures keeps(d_var(a, v), d_var(b, v), a)
{
    lemma_p_var(a, v); lemma_p_var(b, v);
    assert(keeps(p_var(v)(a), p_var(v)(b), a)) by {
        lemma_s_parts();
        let p = pair(f_name(), f_ids()); lemma_s_pair(f_name(), f_ids());
        let q = pair(p, f_attrs()); lemma_s_pair(p, f_attrs());
        let r = pair(q, f_type()); lemma_s_pair(q, f_type());
        let s = pair(r, f_opt()); lemma_s_pair(r, f_opt());
        lemma_s_pair(s, f_off(v));
    }
}
pub proof fn lemma_s_vars(a: Seq<u8>, b: Seq<u8>, v: Version)
    requires pre(a, b)
    ensures keeps(d_vars(a, v), d_vars(b, v), a)
{
    assert(stable(f_var(v))) by { assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_var(v)(a), f_var(v)(b), a) by { lemma_s_var(a, b, v); } }
    lemma_s_list(f_var(v), a, b, t_var());
}
pub open spec fn p_defs() -> spec_fn(Seq<u8>) -> PR<(((((), Version), Option<int>), Seq<(Seq<char>, int)>), Seq<AV>)> { pair(pair(pair(pair(f_magic(), f_version()), f_opt()), f_dims()), f_attrs()) }
pub open spec fn p_header(v: Version) -> spec_fn(Seq<u8>) -> PR<((((((), Version), Option<int>), Seq<(Seq<char>, int)>), Seq<AV>), Seq<VV>)> { pair(p_defs(), f_vars(v)) }
pub proof fn lemma_p_header(b: Seq<u8>)
    ensures ({ let d = p_defs()(b); d_header(b) == match d { PR::Ok(((((_, v), _), _), _), _) => match p_header(v)(b) { PR::Ok((((((_, v), r), d), a), w), n) => PR::Ok(HV { version: v, nrecs: r, dims: d, attrs: a, vars: w }, n), PR::Inc => PR::Inc, PR::Bad => PR::Bad }, PR::Inc => PR::Inc, PR::Bad => PR::Bad } })
{ reveal(d_header); }
/// the header decoded from a part of the file is the one of the file
pub proof fn lemma_s_header(a: Seq<u8>, b: Seq<u8>)
    requires pre(a, b)
    ensures keeps(d_header(a), d_header(b), a)
{
    lemma_p_header(a); lemma_p_header(b);
    assert(stable(p_defs())) by {
        lemma_s_parts();
        let p = pair(f_magic(), f_version()); lemma_s_pair(f_magic(), f_version());
        let q = pair(p, f_opt()); lemma_s_pair(p, f_opt());
        let r = pair(q, f_dims()); lemma_s_pair(q, f_dims());
        lemma_s_pair(r, f_attrs());
    }
    assert forall|v: Version| keeps(#[trigger] p_header(v)(a), p_header(v)(b), a) by {
        assert(stable(f_vars(v))) by { assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_vars(v)(a), f_vars(v)(b), a) by { lemma_s_vars(a, b, v); } }
        lemma_s_pair(p_defs(), f_vars(v));
    }
    assert(keeps(p_defs()(a), p_defs()(b), a));
}
/// opened for reading and nothing else
pub open spec fn ro() -> Opts { Opts { read: true, write: false, append: false, truncate: false, create: false, create_new: false } }
pub proof fn lemma_joined(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    requires a.len() <= b.len() <= d.len(), a == d.take(a.len() as int), forall|j: int| 0 <= j < a.len() ==> #[trigger] b[j] == a[j],
        b.subrange(a.len() as int, b.len() as int) == if a.len() == b.len() { seq![] } else { bytes_at(d, a.len() as int, b.len() - a.len()) }
    ensures b == d.take(b.len() as int), pre(b, d)
{
    assert forall|j: int| 0 <= j < b.len() implies b[j] == d[j] by {
        if j < a.len() { assert(a[j] == d[j]); } else { assert(b[j] == b.subrange(a.len() as int, b.len() as int)[j - a.len()]); }
    }
    assert(b =~= d.take(b.len() as int));
}
