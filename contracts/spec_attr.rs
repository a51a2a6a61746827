impl DataSet {
    pub open spec fn unchanged(self, o: DataSet) -> bool { self.dims == o.dims && self.unlimited_dim == o.unlimited_dim && self.attrs == o.attrs && self.vars@ == o.vars@ }
}
pub broadcast proof fn lemma_attrs_push(a: Seq<Attribute>, x: Attribute)
    ensures attrs_wf(a) && valid_name(x.name@) && !ahas(a, x.name@) ==> #[trigger] attrs_wf(a.push(x))
{
    if attrs_wf(a) && valid_name(x.name@) && !ahas(a, x.name@) {
        let b = a.push(x);
        assert forall|i: int| 0 <= i < b.len() implies valid_name(#[trigger] b[i].name@) by { if i < a.len() { assert(b[i] == a[i]); assert(valid_name(a[i].name@)); } else { assert(b[i] == x); } }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i].name@ != #[trigger] b[j].name@ by {
            assert(b[i] == a[i]);
            if j < a.len() { assert(b[j] == a[j]); assert(a[i].name@ != a[j].name@); } else { assert(b[j] == x); if a[i].name@ == x.name@ { assert(ahas(a, x.name@)); } }
        }
    }
}
pub broadcast proof fn lemma_attrs_remove(a: Seq<Attribute>, i: int)
    ensures attrs_wf(a) && 0 <= i < a.len() ==> #[trigger] attrs_wf(a.remove(i))
{
    if attrs_wf(a) && 0 <= i < a.len() {
        let b = a.remove(i);
        assert forall|k: int| 0 <= k < b.len() implies valid_name(#[trigger] b[k].name@) by { let q = if k < i { k } else { k + 1 }; assert(b[k] == a[q]); assert(valid_name(a[q].name@)); }
        assert forall|k: int, l: int| 0 <= k < l < b.len() implies #[trigger] b[k].name@ != #[trigger] b[l].name@ by {
            let q = if k < i { k } else { k + 1 };
            let t = if l < i { l } else { l + 1 };
            assert(b[k] == a[q]); assert(b[l] == a[t]); assert(a[q].name@ != a[t].name@);
        }
    }
}
pub broadcast proof fn lemma_attrs_update(a: Seq<Attribute>, i: int, x: Attribute)
    ensures attrs_wf(a) && 0 <= i < a.len() && valid_name(x.name@) && !ahas(a, x.name@) ==> #[trigger] attrs_wf(a.update(i, x))
{
    if attrs_wf(a) && 0 <= i < a.len() && valid_name(x.name@) && !ahas(a, x.name@) {
        let b = a.update(i, x);
        assert forall|k: int| 0 <= k < b.len() implies valid_name(#[trigger] b[k].name@) by { if k != i { assert(b[k] == a[k]); assert(valid_name(a[k].name@)); } else { assert(b[k] == x); } }
        assert forall|k: int, l: int| 0 <= k < l < b.len() implies #[trigger] b[k].name@ != #[trigger] b[l].name@ by {
            if k != i { assert(b[k] == a[k]); if a[k].name@ == x.name@ { assert(ahas(a, x.name@)); } } else { assert(b[k] == x); }
            if l != i { assert(b[l] == a[l]); if a[l].name@ == x.name@ { assert(ahas(a, x.name@)); } } else { assert(b[l] == x); }
            if k != i && l != i { assert(a[k].name@ != a[l].name@); }
        }
    }
}
pub broadcast proof fn lemma_vars_update(v: Seq<Variable>, i: int, w: Variable, d: Seq<Rc<Dimension>>)
    ensures vars_wf(v, d) && 0 <= i < v.len() && w.wf() && w.dims == v[i].dims && (w.name@ == v[i].name@ || !vhas(v, w.name@)) ==> #[trigger] vars_wf(v.update(i, w), d)
{
    if vars_wf(v, d) && 0 <= i < v.len() && w.wf() && w.dims == v[i].dims && (w.name@ == v[i].name@ || !vhas(v, w.name@)) {
        let u = v.update(i, w);
        assert(dims_in(v[i], d));
        assert(dims_in(w, d));
        assert forall|a: int| 0 <= a < u.len() implies (#[trigger] u[a]).wf() && dims_in(u[a], d) by { if a != i { assert(u[a] == v[a]); assert(v[a].wf() && dims_in(v[a], d)); } }
        assert forall|a: int, b: int| 0 <= a < b < u.len() implies #[trigger] u[a].name@ != #[trigger] u[b].name@ by {
            assert(v[a].name@ != v[b].name@);
            if a == i { assert(u[b] == v[b] && u[a] == w); assert(w.name@ != v[b].name@); }
            else if b == i { assert(u[a] == v[a] && u[b] == w); assert(w.name@ != v[a].name@); }
            else { assert(u[a] == v[a] && u[b] == v[b]); }
        }
    }
}
pub broadcast proof fn lemma_update_same<T>(v: Seq<T>, i: int)
    ensures 0 <= i < v.len() ==> #[trigger] v.update(i, v[i]) == v
{
    if 0 <= i < v.len() { assert(v.update(i, v[i]) =~= v); }
}
pub broadcast group group_attr { lemma_attrs_push, lemma_attrs_remove, lemma_attrs_update, lemma_vars_update, lemma_update_same, axiom_rc_cloned }
