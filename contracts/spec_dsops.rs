// ---------------------------------------------------------------- definition edits (C02, C03, C04)
impl DataSet {
    pub open spec fn dim_at(self, i: int, n: Seq<char>) -> bool { 0 <= i < self.dims@.len() && (*self.dims@[i]).nm() == n }
    pub open spec fn var_at(self, i: int, n: Seq<char>) -> bool { 0 <= i < self.vars@.len() && self.vars@[i].name@ == n }
    pub open spec fn attr_at(self, i: int, n: Seq<char>) -> bool { 0 <= i < self.attrs@.len() && self.attrs@[i].name@ == n }
    pub open spec fn same(self, o: DataSet) -> bool { self == o }
    pub open spec fn same_but_dims(self, o: DataSet) -> bool { self.vars == o.vars && self.attrs == o.attrs }
    pub open spec fn same_but_vars(self, o: DataSet) -> bool { self.dims == o.dims && self.unlimited_dim == o.unlimited_dim && self.attrs == o.attrs }
    pub open spec fn same_but_attrs(self, o: DataSet) -> bool { self.dims == o.dims && self.unlimited_dim == o.unlimited_dim && self.vars == o.vars }
    pub open spec fn hd(self, n: Seq<char>) -> bool { dhas(self.dims@, n) }
    pub open spec fn hv(self, n: Seq<char>) -> bool { vhas(self.vars@, n) }
    pub open spec fn ha(self, n: Seq<char>) -> bool { ahas(self.attrs@, n) }
    /// some variable uses the dimension named n
    pub open spec fn dim_used(self, n: Seq<char>) -> bool { exists|i: int| 0 <= i < self.vars@.len() && (#[trigger] self.vars@[i]).uses(n) }
    /// a conflict the documentation of each edit names, and the error that reports it
    pub open spec fn e_add_dim(self, n: Seq<char>, size: usize, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::DimensionAlreadyExists(x) => x@ == n && self.hd(n),
            InvalidDataSet::DimensionNameNotValid(x) => x@ == n && !valid_name(n),
            InvalidDataSet::FixedDimensionWithZeroSize(x) => x@ == n && size == 0,
            InvalidDataSet::MaximumFixedDimensionSizeExceeded{dim_name, get} => dim_name@ == n && get == size && size > 2147483644,
            _ => false,
        }
    }
    pub open spec fn e_set_unlim(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::UnlimitedDimensionAlreadyExists(x) => self.unlimited_dim is Some && x@ == (*self.unlimited_dim->0).nm(),
            InvalidDataSet::DimensionAlreadyExists(x) => x@ == n && self.hd(n),
            InvalidDataSet::DimensionNameNotValid(x) => x@ == n && !valid_name(n),
            _ => false,
        }
    }
    pub open spec fn e_remove_dim(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::DimensionNotDefined(x) => x@ == n && !self.hd(n),
            InvalidDataSet::DimensionYetUsed{var_names, dim_name} => dim_name@ == n && self.hd(n) && self.dim_used(n) && var_names@ == users(self.vars@, n),
            _ => false,
        }
    }
    pub open spec fn e_rename_dim(self, o: Seq<char>, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::DimensionNotDefined(x) => x@ == o && !self.hd(o),
            InvalidDataSet::DimensionAlreadyExists(x) => x@ == n && self.hd(n),
            InvalidDataSet::DimensionNameNotValid(x) => x@ == n && !valid_name(n),
            _ => false,
        }
    }
    pub open spec fn e_add_var<T: VAsRefStr>(self, n: Seq<char>, d: Seq<T>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::VariableAlreadyExists(x) => x@ == n && self.hv(n),
            InvalidDataSet::VariableNameNotValid(x) => x@ == n && !valid_name(n),
            InvalidDataSet::DimensionsNotDefined{var_name, undef_dim_names} => var_name@ == n && undef_dim_names@ == undef_names(self.dims@, d) && undef_dim_names@.len() > 0,
            InvalidDataSet::MaximumDimensionsPerVariableExceeded{var_name, num_dims} => var_name@ == n && num_dims == d.len() && d.len() > 1024,
            InvalidDataSet::UnlimitedDimensionMustBeDefinedFirst{var_name, unlim_dim_name, get_dim_names} => var_name@ == n
                && exists|i: int, j: int| 1 <= i < d.len() && 0 <= j < self.dims@.len() && (*#[trigger] self.dims@[j]).nm() == (#[trigger] d[i]).sv()@ && (*self.dims@[j]).unlim(),
            InvalidDataSet::DimensionsUsedMultipleTimes{var_name, get_dim_names} => var_name@ == n
                && exists|i: int, j: int| 0 <= i < j < d.len() && (#[trigger] d[i]).sv()@ == (#[trigger] d[j]).sv()@,
            _ => false,
        }
    }
    pub open spec fn e_add_var_refs(self, n: Seq<char>, d: Seq<Rc<Dimension>>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::VariableAlreadyExists(x) => x@ == n && self.hv(n),
            _ => e_new_var(n, d, e),
        }
    }
    pub open spec fn e_rename_var(self, o: Seq<char>, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::VariableNotDefined(x) => x@ == o && !self.hv(o),
            InvalidDataSet::VariableAlreadyExists(x) => x@ == n && self.hv(n),
            InvalidDataSet::VariableNameNotValid(x) => x@ == n && !valid_name(n),
            _ => false,
        }
    }
    pub open spec fn e_no_var(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e { InvalidDataSet::VariableNotDefined(x) => x@ == n && !self.hv(n), _ => false }
    }
    pub open spec fn e_add_gattr(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::GlobalAttributeAlreadyExists(x) => x@ == n && self.ha(n),
            InvalidDataSet::GlobalAttributeNameNotValid(x) => x@ == n && !valid_name(n),
            _ => false,
        }
    }
    pub open spec fn e_rename_gattr(self, o: Seq<char>, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::GlobalAttributeNotDefined(x) => x@ == o && !self.ha(o),
            InvalidDataSet::GlobalAttributeAlreadyExists(x) => x@ == n && self.ha(n),
            InvalidDataSet::GlobalAttributeNameNotValid(x) => x@ == n && !valid_name(n),
            _ => false,
        }
    }
    pub open spec fn e_no_gattr(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e { InvalidDataSet::GlobalAttributeNotDefined(x) => x@ == n && !self.ha(n), _ => false }
    }
    /// only variable i differs
    pub open spec fn var_edited(self, o: DataSet, i: int) -> bool {
        &&& self.same_but_vars(o)
        &&& 0 <= i < self.vars@.len() == o.vars@.len()
        &&& forall|j: int| 0 <= j < self.vars@.len() && j != i ==> #[trigger] self.vars@[j] == o.vars@[j]
    }
    /// what the file and the user see of the dimension names after the writes logged
    pub open spec fn wf_after(self, c: VRefCell<VStr>, n: VStr) -> bool {
        &&& forall|i: int| 0 <= i < self.dims@.len() ==> valid_name(nm_after(*#[trigger] self.dims@[i], c, n))
        &&& forall|i: int, j: int| 0 <= i < j < self.dims@.len() ==> nm_after(*#[trigger] self.dims@[i], c, n) != nm_after(*#[trigger] self.dims@[j], c, n)
    }
}
pub open spec fn nm_after(d: Dimension, c: VRefCell<VStr>, n: VStr) -> Seq<char> { if d.name == c { n@ } else { d.nm() } }
pub open spec fn e_new_var(n: Seq<char>, d: Seq<Rc<Dimension>>, e: InvalidDataSet) -> bool {
    match e {
        InvalidDataSet::VariableNameNotValid(x) => x@ == n && !valid_name(n),
        _ => e_dims(n, d, e),
    }
}
pub open spec fn e_dims(n: Seq<char>, d: Seq<Rc<Dimension>>, e: InvalidDataSet) -> bool {
    match e {
        InvalidDataSet::MaximumDimensionsPerVariableExceeded{var_name, num_dims} => var_name@ == n && num_dims == d.len() && d.len() > 1024,
        InvalidDataSet::UnlimitedDimensionMustBeDefinedFirst{var_name, unlim_dim_name, get_dim_names} => var_name@ == n && !unlim_first(d),
        InvalidDataSet::DimensionsUsedMultipleTimes{var_name, get_dim_names} => var_name@ == n && !nodup(d),
        _ => false,
    }
}
impl Variable {
    pub open spec fn same_but_attrs(self, o: Variable) -> bool { self.name == o.name && self.dims == o.dims && self.unlimited_dim == o.unlimited_dim && self.data_type == o.data_type }
    pub open spec fn e_add_attr(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::VariableAttributeAlreadyExists{var_name, attr_name} => var_name@ == self.name@ && attr_name@ == n && self.attr_has(n),
            InvalidDataSet::VariableAttributeNameNotValid{var_name, attr_name} => var_name@ == self.name@ && attr_name@ == n && !valid_name(n),
            _ => false,
        }
    }
    pub open spec fn e_no_attr(self, n: Seq<char>, e: InvalidDataSet) -> bool {
        match e {
            InvalidDataSet::VariableAttributeNotDefined{var_name, attr_name} => var_name@ == self.name@ && attr_name@ == n && !self.attr_has(n),
            _ => false,
        }
    }
    pub open spec fn e_rename_attr(self, o: Seq<char>, n: Seq<char>, e: InvalidDataSet) -> bool {
        self.e_no_attr(o, e) || self.e_add_attr(n, e)
    }
}
/// attribute (n, d) appended, the others unchanged
pub open spec fn attr_added(a1: Seq<Attribute>, a0: Seq<Attribute>, n: Seq<char>, d: DataVector) -> bool {
    a1.len() == a0.len() + 1 && a1.drop_last() =~= a0 && a1.last().name@ == n && a1.last().data == d
}
pub open spec fn attr_added_str(a1: Seq<Attribute>, a0: Seq<Attribute>, n: Seq<char>, d: Seq<char>) -> bool {
    a1.len() == a0.len() + 1 && a1.drop_last() =~= a0 && a1.last().name@ == n && match a1.last().data { DataVector::U8(v) => v@ == utf8(d), _ => false }
}
pub open spec fn attr_renamed(a1: Seq<Attribute>, a0: Seq<Attribute>, o: Seq<char>, n: Seq<char>) -> bool {
    exists|i: int| 0 <= i < a0.len() && (#[trigger] a0[i]).name@ == o && a1.len() == a0.len() && a1[i].name@ == n && a1[i].data == a0[i].data
        && forall|j: int| 0 <= j < a0.len() && j != i ==> #[trigger] a1[j] == a0[j]
}
pub open spec fn attr_removed(a1: Seq<Attribute>, a0: Seq<Attribute>, n: Seq<char>, x: Attribute) -> bool {
    exists|i: int| 0 <= i < a0.len() && #[trigger] a0[i] == x && x.name@ == n && a1 == a0.remove(i)
}
/// dims designated by names, in order
pub open spec fn named_dims<T: VAsRefStr>(r: Seq<Rc<Dimension>>, d: Seq<Rc<Dimension>>, n: Seq<T>) -> bool {
    r.len() == n.len() && forall|k: int| 0 <= k < n.len() ==> d.contains(#[trigger] r[k]) && (*r[k]).nm() == n[k].sv()@
}
pub open spec fn undef_names<T: VAsRefStr>(d: Seq<Rc<Dimension>>, n: Seq<T>) -> Seq<VStr> decreases n.len() {
    if n.len() == 0 { seq![] } else if dhas(d, n.last().sv()@) { undef_names(d, n.drop_last()) } else { undef_names(d, n.drop_last()).push(n.last().sv()) }
}
pub proof fn lemma_undef_names<T: VAsRefStr>(d: Seq<Rc<Dimension>>, n: Seq<T>)
    ensures undef_names(d, n).len() == 0 <==> forall|k: int| 0 <= k < n.len() ==> dhas(d, (#[trigger] n[k]).sv()@)
    decreases n.len()
{
    if n.len() > 0 {
        lemma_undef_names(d, n.drop_last());
        let m = n.drop_last();
        assert(forall|k: int| 0 <= k < m.len() ==> m[k] == n[k]);
        if undef_names(d, n).len() == 0 {
            assert forall|k: int| 0 <= k < n.len() implies dhas(d, (#[trigger] n[k]).sv()@) by { if k < m.len() { assert(dhas(d, m[k].sv()@)); } }
        } else if forall|k: int| 0 <= k < n.len() ==> dhas(d, (#[trigger] n[k]).sv()@) {
            assert(dhas(d, n[n.len() - 1].sv()@));
            assert forall|k: int| 0 <= k < m.len() implies dhas(d, (#[trigger] m[k]).sv()@) by { assert(dhas(d, n[k].sv()@)); }
        }
    }
}
/// the log of writes made through shared references (RefCell)
#[verifier::external_body]
pub struct VLog { _x: u8 }
impl VLog { pub uninterp spec fn log(&self) -> Seq<(VRefCell<VStr>, VStr)>; }
#[verifier::external_body]
pub fn vcell_set(c: &VRefCell<VStr>, v: VStr, _log: &mut VLog)
    ensures final(_log).log() == old(_log).log().push((*c, v))
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VHashSet<T> { _x: Vec<T> }
impl<T> VHashSet<T> {
    pub uninterp spec fn hset(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn from_iter(i: VIter<T>) -> (r: VHashSet<T>) requires i.idx() == 0 ensures r.hset() == i.seq().to_set() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.hset() == Set::<T>::empty()) { unimplemented!() }
}
pub proof fn lemma_users(v: Seq<Variable>, n: Seq<char>)
    ensures users(v, n).len() == 0 <==> forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).uses(n)
    decreases v.len()
{
    if v.len() > 0 {
        let m = v.drop_last();
        lemma_users(m, n);
        assert(forall|k: int| 0 <= k < m.len() ==> m[k] == v[k]);
        if users(v, n).len() == 0 {
            assert forall|i: int| 0 <= i < v.len() implies !(#[trigger] v[i]).uses(n) by { if i < m.len() { assert(!m[i].uses(n)); } }
        } else if forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).uses(n) {
            assert(!v[v.len() - 1].uses(n));
            assert forall|i: int| 0 <= i < m.len() implies !(#[trigger] m[i]).uses(n) by { assert(!v[i].uses(n)); }
        }
    }
}
pub broadcast proof fn lemma_dims_push(d: Seq<Rc<Dimension>>, x: Rc<Dimension>)
    ensures dims_ok(d) && (*x).wf() && !dhas(d, (*x).nm()) && (!(*x).unlim() || unlim_is(d, None)) ==> #[trigger] dims_ok(d.push(x))
{ }
pub broadcast proof fn lemma_unlim_push(d: Seq<Rc<Dimension>>, x: Rc<Dimension>, u: Option<Rc<Dimension>>)
    ensures unlim_is(d, u) && !(*x).unlim() || (*x).unlim() && u == Some(x) ==> #[trigger] unlim_is(d.push(x), u)
{
    assert(d.push(x)[d.len() as int] == x);
    if u is Some && d.contains(u->0) {
        let k = choose|k: int| 0 <= k < d.len() && d[k] == u->0;
        assert(d.push(x)[k] == u->0);
    }
}
pub broadcast proof fn lemma_vars_dims_push(v: Seq<Variable>, d: Seq<Rc<Dimension>>, x: Rc<Dimension>)
    ensures vars_wf(v, d) ==> #[trigger] vars_wf(v, d.push(x))
{
    assert(forall|k: int| 0 <= k < d.len() ==> d.push(x)[k] == d[k]);
    if vars_wf(v, d) {
        assert forall|i: int| 0 <= i < v.len() implies dims_in(#[trigger] v[i], d.push(x)) by {
            assert(dims_in(v[i], d));
            assert forall|k: int| 0 <= k < v[i].dims@.len() implies d.push(x).contains(#[trigger] v[i].dims@[k]) by {
                assert(d.contains(v[i].dims@[k]));
                let q = choose|q: int| 0 <= q < d.len() && d[q] == v[i].dims@[k];
                assert(d.push(x)[q] == v[i].dims@[k]);
            }
        }
    }
}
pub broadcast proof fn lemma_dims_remove(d: Seq<Rc<Dimension>>, i: int)
    ensures dims_ok(d) && 0 <= i < d.len() ==> #[trigger] dims_ok(d.remove(i))
{
    if 0 <= i < d.len() { assert(forall|k: int| 0 <= k < d.len() - 1 ==> d.remove(i)[k] == d[if k < i { k } else { k + 1 }]); }
}
pub broadcast proof fn lemma_unlim_remove(d: Seq<Rc<Dimension>>, i: int, u: Option<Rc<Dimension>>)
    ensures 0 <= i < d.len() && dims_ok(d) && (if (*d[i]).unlim() { u is None } else { unlim_is(d, u) }) ==> #[trigger] unlim_is(d.remove(i), u)
{
    if 0 <= i < d.len() {
        assert(forall|k: int| 0 <= k < d.len() - 1 ==> d.remove(i)[k] == d[if k < i { k } else { k + 1 }]);
        if u is Some && d.contains(u->0) && u->0 != d[i] {
            let k = choose|k: int| 0 <= k < d.len() && d[k] == u->0;
            assert(d.remove(i)[if k < i { k } else { k - 1 }] == u->0);
        }
    }
}
/// removing a dimension no variable uses keeps the variables well-formed
pub broadcast proof fn lemma_vars_dims_remove(vs: Seq<Variable>, d: Seq<Rc<Dimension>>, i: int)
    ensures dims_ok(d) && vars_wf(vs, d) && 0 <= i < d.len() && users(vs, (*d[i]).nm()).len() == 0 ==> #[trigger] vars_wf(vs, d.remove(i))
{
    if dims_ok(d) && vars_wf(vs, d) && 0 <= i < d.len() {
      let ghost nm: Seq<char> = rcnm(d[i]);
      if users(vs, nm).len() == 0 {
        let d2 = d.remove(i);
        lemma_users(vs, nm);
        assert(forall|k: int| 0 <= k < d2.len() ==> d2[k] == d[if k < i { k } else { k + 1 }]);
        assert forall|x: Rc<Dimension>| d.contains(x) && x != d[i] implies d2.contains(x) by {
            let k = choose|k: int| 0 <= k < d.len() && d[k] == x;
            assert(d2[if k < i { k } else { k - 1 }] == x);
        }
        assert forall|k: int| 0 <= k < vs.len() implies dims_in(#[trigger] vs[k], d2) by {
            let v = vs[k];
            assert(dims_in(v, d));
            assert(!v.uses((*d[i]).nm()));
            assert forall|q: int| 0 <= q < v.dims@.len() implies d2.contains(#[trigger] v.dims@[q]) by {
                assert(d.contains(v.dims@[q]));
                assert((*v.dims@[q]).nm() != (*d[i]).nm());
            }
        }
      }
    }
}
pub open spec fn rcnm(d: Rc<Dimension>) -> Seq<char> { (*d).nm() }
pub broadcast proof fn lemma_users_none(v: Seq<Variable>, n: Seq<char>)
    ensures (#[trigger] users(v, n)).len() == 0 <==> forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).uses(n)
{ lemma_users(v, n); }
pub broadcast group group_ds { lemma_dims_push, lemma_unlim_push, lemma_vars_dims_push, lemma_dims_remove, lemma_unlim_remove, lemma_vars_dims_remove, lemma_users_none, lemma_vars_push, lemma_vars_remove, lemma_hset_empty, group_keep }
pub broadcast proof fn lemma_vars_push(v: Seq<Variable>, w: Variable, d: Seq<Rc<Dimension>>)
    ensures vars_wf(v, d) && w.wf() && !vhas(v, w.name@) && dims_in(w, d) ==> #[trigger] vars_wf(v.push(w), d)
{
    if vars_wf(v, d) && w.wf() && !vhas(v, w.name@) && dims_in(w, d) {
        let u = v.push(w);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).wf() && dims_in(u[i], d) by { if i < v.len() { assert(u[i] == v[i]); } else { assert(u[i] == w); } }
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i].name@ != #[trigger] u[j].name@ by {
            assert(u[i] == v[i]);
            if j < v.len() { assert(u[j] == v[j]); assert(v[i].name@ != v[j].name@); } else { assert(u[j] == w); assert(v[i].name@ != w.name@); }
        }
    }
}
pub broadcast proof fn lemma_vars_remove(v: Seq<Variable>, i: int, d: Seq<Rc<Dimension>>)
    ensures vars_wf(v, d) && 0 <= i < v.len() ==> #[trigger] vars_wf(v.remove(i), d)
{
    if vars_wf(v, d) && 0 <= i < v.len() {
        let u = v.remove(i);
        assert(u.len() == v.len() - 1);
        assert forall|k: int| 0 <= k < u.len() implies #[trigger] u[k] == v[if k < i { k } else { k + 1 }] by { }
        assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k]).wf() && dims_in(u[k], d) by { assert(u[k] == v[if k < i { k } else { k + 1 }]); }
        assert forall|j: int, k: int| 0 <= j < k < u.len() implies #[trigger] u[j].name@ != #[trigger] u[k].name@ by {
            let (a, b) = (if j < i { j } else { j + 1 }, if k < i { k } else { k + 1 });
            assert(u[j] == v[a] && u[k] == v[b] && a < b); assert(v[a].name@ != v[b].name@);
        }
    }
}
pub broadcast proof fn lemma_hset_empty<T>(s: Seq<T>)
    ensures (#[trigger] s.to_set() == Set::<T>::empty()) <==> s.len() == 0
{
    if s.len() > 0 { assert(s.to_set().contains(s[0])) by { assert(s.contains(s[0])); } }
    else { assert(s.to_set() =~= Set::<T>::empty()); }
}
pub broadcast group group_hset { lemma_hset_empty }
/// one more dimension: duplicates among the first i+1 are those among the first i and those equal to the last
pub proof fn lemma_nodup_step(d: Seq<Rc<Dimension>>, i: int)
    requires 0 <= i < d.len()
    ensures nodup(d.take(i + 1)) <==> nodup(d.take(i)) && forall|j: int| 0 <= j < i ==> *#[trigger] d[j] != *d[i]
{
    let a = d.take(i + 1); let b = d.take(i);
    assert(forall|k: int| 0 <= k < i ==> a[k] == d[k] && b[k] == d[k]);
    assert(a[i] == d[i]);
    if nodup(a) {
        assert forall|p: int, q: int| 0 <= p < q < b.len() implies #[trigger] *b[p] != #[trigger] *b[q] by { assert(*a[p] != *a[q]); }
        assert forall|j: int| 0 <= j < i implies *#[trigger] d[j] != *d[i] by { assert(*a[j] != *a[i]); }
    }
    if nodup(b) && forall|j: int| 0 <= j < i ==> *#[trigger] d[j] != *d[i] {
        assert forall|p: int, q: int| 0 <= p < q < a.len() implies #[trigger] *a[p] != #[trigger] *a[q] by {
            if q < i { assert(*b[p] != *b[q]); } else { assert(*d[p] != *d[i]); }
        }
    }
}
impl Variable {
    pub open spec fn attr_at(self, i: int, n: Seq<char>) -> bool { 0 <= i < self.attrs@.len() && self.attrs@[i].name@ == n }
}
