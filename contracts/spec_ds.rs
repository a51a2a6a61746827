// ---------------------------------------------------------------- sizes (C07)
pub open spec fn pad4(n: int) -> int { (4 - n % 4) % 4 }
pub open spec fn round4(n: int) -> int { n + pad4(n) }

impl Dimension {
    pub open spec fn nm(self) -> Seq<char> { self.name.val()@ }
    pub open spec fn unlim(self) -> bool { self.size is Unlimited }
    pub open spec fn sz(self) -> usize { self.size.sz() }
    pub open spec fn wf(self) -> bool {
        valid_name(self.nm()) && match self.size { DimensionSize::Fixed(n) => 1 <= n <= 2147483644, _ => true }
    }
}
impl DimensionSize {
    pub open spec fn sz(self) -> usize { match self { DimensionSize::Unlimited(c) => c.val(), DimensionSize::Fixed(n) => n } }
    pub open spec fn ty(self) -> DimensionType { match self { DimensionSize::Unlimited(c) => DimensionType::UnlimitedSize, DimensionSize::Fixed(n) => DimensionType::FixedSize } }
}
pub open spec fn prod(s: Seq<Rc<Dimension>>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { prod(s.drop_last()) * (*s.last()).sz() }
}
impl Variable {
    pub open spec fn is_rec(self) -> bool { self.dims@.len() > 0 && (*self.dims@[0]).unlim() }
    /// number of values per record
    pub open spec fn rlen(self) -> int { prod(self.dims@.skip(if self.is_rec() { 1 } else { 0 })) }
    /// bytes per record, padding included
    pub open spec fn rsize(self) -> int { round4(self.rlen() * self.data_type.esize()) }
    pub open spec fn nrecs(self) -> int { if self.is_rec() { (*self.dims@[0]).sz() as int } else { 1 } }
    pub open spec fn total(self) -> int { self.nrecs() * self.rlen() }
    pub open spec fn sizes_ok(self) -> bool { self.rsize() <= usize::MAX && self.total() <= usize::MAX }

    /// what a variable satisfies on its own
    pub open spec fn wf(self) -> bool {
        &&& valid_name(self.name@)
        &&& dims_usable(self.dims@)
        &&& self.unlimited_dim == (if self.is_rec() { Some(self.dims@[0]) } else { None::<Rc<Dimension>> })
        &&& attrs_wf(self.attrs@)
    }
    pub open spec fn uses(self, n: Seq<char>) -> bool { exists|i: int| 0 <= i < self.dims@.len() && (*#[trigger] self.dims@[i]).nm() == n }
    pub open spec fn attr_has(self, n: Seq<char>) -> bool { ahas(self.attrs@, n) }
}
pub open spec fn nodup(dims: Seq<Rc<Dimension>>) -> bool { forall|i: int, j: int| 0 <= i < j < dims.len() ==> #[trigger] *dims[i] != #[trigger] *dims[j] }
pub open spec fn unlim_first(dims: Seq<Rc<Dimension>>) -> bool { forall|i: int| 1 <= i < dims.len() ==> !(*#[trigger] dims[i]).unlim() }
pub open spec fn dims_usable(dims: Seq<Rc<Dimension>>) -> bool {
    &&& dims.len() <= 1024
    &&& nodup(dims)
    &&& unlim_first(dims)
    &&& forall|i: int| 0 <= i < dims.len() ==> (*#[trigger] dims[i]).wf()
}
pub open spec fn attrs_wf(a: Seq<Attribute>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> valid_name(#[trigger] a[i].name@)
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i].name@ != #[trigger] a[j].name@
}
pub open spec fn ahas(a: Seq<Attribute>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] a[i].name@ == n }
pub open spec fn dhas(d: Seq<Rc<Dimension>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < d.len() && (*#[trigger] d[i]).nm() == n }
pub open spec fn vhas(v: Seq<Variable>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == n }

pub open spec fn dims_ok(d: Seq<Rc<Dimension>>) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> (*#[trigger] d[i]).wf()
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> (*#[trigger] d[i]).nm() != (*#[trigger] d[j]).nm()
    &&& forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && (*#[trigger] d[i]).unlim() && (*#[trigger] d[j]).unlim() ==> i == j
}
pub open spec fn unlim_is(d: Seq<Rc<Dimension>>, u: Option<Rc<Dimension>>) -> bool {
    match u {
        Some(x) => (*x).unlim() && d.contains(x),
        None => forall|i: int| 0 <= i < d.len() ==> !(*#[trigger] d[i]).unlim(),
    }
}
pub open spec fn vars_wf(v: Seq<Variable>, d: Seq<Rc<Dimension>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf()
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].name@ != #[trigger] v[j].name@
    &&& forall|i: int| 0 <= i < v.len() ==> dims_in(#[trigger] v[i], d)
}
pub open spec fn dims_in(v: Variable, d: Seq<Rc<Dimension>>) -> bool { forall|k: int| 0 <= k < v.dims@.len() ==> d.contains(#[trigger] v.dims@[k]) }
impl DataSet {
    /// the well-formedness every public operation preserves (C02, C03, C04)
    pub open spec fn wf(self) -> bool {
        &&& dims_ok(self.dims@)
        &&& unlim_is(self.dims@, self.unlimited_dim)
        &&& vars_wf(self.vars@, self.dims@)
        &&& attrs_wf(self.attrs@)
    }
    pub open spec fn sizes_ok(self) -> bool {
        &&& forall|i: int| 0 <= i < self.vars@.len() ==> (#[trigger] self.vars@[i]).sizes_ok()
        &&& rec_size(self.vars@) <= usize::MAX
    }
}
/// bytes of one record of all record variables
pub open spec fn rec_size(v: Seq<Variable>) -> int decreases v.len() {
    if v.len() == 0 { 0 } else { rec_size(v.drop_last()) + (if v.last().is_rec() { v.last().rsize() } else { 0 }) }
}
/// names of the variables using dimension n, in order
pub open spec fn users(v: Seq<Variable>, n: Seq<char>) -> Seq<VStr> decreases v.len() {
    if v.len() == 0 { seq![] } else if v.last().uses(n) { users(v.drop_last(), n).push(v.last().name) } else { users(v.drop_last(), n) }
}

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_prod_pos(s: Seq<Rc<Dimension>>)
    requires forall|i: int| 0 <= i < s.len() ==> (*#[trigger] s[i]).sz() >= 1
    ensures prod(s) >= 1
    decreases s.len()
{
    if s.len() > 0 {
        lemma_prod_pos(s.drop_last());
        assert(prod(s) >= 1) by (nonlinear_arith)
            requires prod(s) == prod(s.drop_last()) * (*s.last()).sz(), prod(s.drop_last()) >= 1, (*s.last()).sz() >= 1;
    }
}
pub proof fn lemma_prod_mono(s: Seq<Rc<Dimension>>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> (*#[trigger] s[i]).sz() >= 1
    ensures 1 <= prod(s.take(k)) <= prod(s)
    decreases s.len() - k
{
    lemma_prod_pos(s.take(k));
    if k < s.len() {
        lemma_prod_mono(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(prod(s.take(k + 1)) >= prod(s.take(k))) by (nonlinear_arith)
            requires prod(s.take(k + 1)) == prod(s.take(k)) * (*s[k]).sz(), prod(s.take(k)) >= 1, (*s[k]).sz() >= 1;
    } else {
        assert(s.take(k) =~= s);
    }
}
pub proof fn lemma_rec_size_mono(v: Seq<Variable>, k: int)
    requires 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).rsize() >= 0
    ensures 0 <= rec_size(v.take(k)) <= rec_size(v)
    decreases v.len()
{
    if v.len() == 0 {
        assert(v.take(k) =~= v);
    } else if k == v.len() {
        assert(v.take(k) =~= v);
        lemma_rec_size_mono(v.drop_last(), v.len() - 1);
        assert(v.drop_last().take(v.len() - 1) =~= v.drop_last());
    } else {
        lemma_rec_size_mono(v.drop_last(), k);
        assert(v.drop_last().take(k) =~= v.take(k));
    }
}
pub open spec fn refs_of<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] r[i] == s[i] }
/// the sum over the kept record variables is the record size
pub open spec fn ref_rec_sum(v: Seq<&Variable>) -> int decreases v.len() {
    if v.len() == 0 { 0 } else { ref_rec_sum(v.drop_last()) + v.last().rsize() }
}
pub proof fn lemma_keep_rec(rv: Seq<&Variable>, v: Seq<Variable>, p: Seq<bool>)
    requires rv.len() == v.len(), p.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> *#[trigger] rv[i] == v[i],
        forall|i: int| 0 <= i < v.len() ==> #[trigger] p[i] == v[i].is_rec(),
    ensures ref_rec_sum(keep(rv, p)) == rec_size(v)
    decreases v.len()
{
    if v.len() > 0 {
        assert(*rv[v.len() - 1] == v[v.len() - 1]);
        assert(p[v.len() - 1] == v[v.len() - 1].is_rec());
        assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] p.drop_last()[i] == v.drop_last()[i].is_rec() by { assert(p[i] == v[i].is_rec()); }
        lemma_keep_rec(rv.drop_last(), v.drop_last(), p.drop_last());
        if p.last() {
            assert(keep(rv, p).drop_last() =~= keep(rv.drop_last(), p.drop_last()));
        }
    }
}
pub proof fn lemma_ref_sum_mono(v: Seq<&Variable>, k: int)
    requires 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).rsize() >= 0
    ensures 0 <= ref_rec_sum(v.take(k)) <= ref_rec_sum(v)
    decreases v.len()
{
    if v.len() == 0 {
        assert(v.take(k) =~= v);
    } else if k == v.len() {
        assert(v.take(k) =~= v);
        lemma_ref_sum_mono(v.drop_last(), v.len() - 1);
        assert(v.drop_last().take(v.len() - 1) =~= v.drop_last());
    } else {
        lemma_ref_sum_mono(v.drop_last(), k);
        assert(v.drop_last().take(k) =~= v.take(k));
    }
}
pub proof fn lemma_rsize_nonneg(v: Variable)
    requires v.wf()
    ensures v.rlen() >= 1, v.rlen() * v.data_type.esize() >= 1, v.rsize() >= v.rlen() * v.data_type.esize(), v.rsize() % 4 == 0, v.rsize() >= 4
{
    let s = v.dims@.skip(if v.is_rec() { 1 } else { 0 });
    assert forall|i: int| 0 <= i < s.len() implies (*#[trigger] s[i]).sz() >= 1 by {
        let j = i + (if v.is_rec() { 1int } else { 0 });
        assert(s[i] == v.dims@[j]);
        assert((*v.dims@[j]).wf());
        if j >= 1 { assert(!(*v.dims@[j]).unlim()); }
    }
    lemma_prod_pos(s);
    assert(v.rlen() * v.data_type.esize() >= 1) by (nonlinear_arith) requires v.rlen() >= 1, v.data_type.esize() >= 1;
}
