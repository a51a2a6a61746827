// ---------------------------------------------------------------- C09, C10: where the records are
/// the variables, where the data starts and the number of records
pub struct Lay { pub v: Seq<Variable>, pub h: int, pub n: int }
/// the position of record r of variable i
pub open spec fn rec_at(l: Lay, i: int, r: int) -> int { l.h + begin_rel(l.v, i) + r * rec_size(l.v) }
pub open spec fn rec_end(l: Lay, i: int, r: int) -> int { rec_at(l, i, r) + l.v[i].rsize() }
pub open spec fn is_rec_of(l: Lay, i: int, r: int) -> bool { 0 <= i < l.v.len() && 0 <= r < l.v[i].nrecs() }
pub open spec fn in_rec(l: Lay, i: int, r: int, p: int) -> bool { rec_at(l, i, r) <= p < rec_end(l, i, r) }
pub open spec fn data_end(l: Lay) -> int { l.h + fix_sum(l.v) + l.n * rec_size(l.v) }
#[verifier::opaque]
pub open spec fn lay_ok(l: Lay) -> bool {
    &&& l.h >= 0 && l.h % 4 == 0 && l.n >= 0
    &&& forall|i: int| 0 <= i < l.v.len() ==> (#[trigger] l.v[i]).wf() && (l.v[i].is_rec() ==> l.v[i].nrecs() == l.n)
}
/// values per record of a variable, as bytes
pub type Recs = spec_fn(int, int) -> Option<Seq<u8>>;
pub open spec fn no_recs() -> Recs { |i: int, r: int| None }
pub open spec fn one_rec(i0: int, r0: int, b: Seq<u8>) -> Recs { |i: int, r: int| if i == i0 && r == r0 { Some(b) } else { None } }
pub open spec fn then_recs(a: Recs, b: Recs) -> Recs { |i: int, r: int| if b(i, r) is Some { b(i, r) } else { a(i, r) } }
pub open spec fn at0(o: Seq<u8>, p: int) -> u8 { if 0 <= p < o.len() { o[p] } else { 0 } }
pub open spec fn outside(l: Lay, m: Recs, p: int) -> bool { forall|i: int, r: int| (#[trigger] m(i, r)) is Some ==> !in_rec(l, i, r, p) }
/// file n is file o with the records of m stored, and nothing else changed
#[verifier::opaque]
pub open spec fn stored(l: Lay, o: Seq<u8>, n: Seq<u8>, m: Recs) -> bool {
    &&& forall|i: int, r: int| (#[trigger] m(i, r)) is Some ==> is_rec_of(l, i, r) && m(i, r)->0.len() == l.v[i].rsize() && has_at(n, rec_at(l, i, r), m(i, r)->0)
    &&& n.len() >= o.len()
    &&& n.len() == o.len() || exists|i: int, r: int| (#[trigger] m(i, r)) is Some && n.len() == rec_end(l, i, r)
    &&& forall|p: int| 0 <= p < n.len() && #[trigger] outside(l, m, p) ==> n[p] == at0(o, p)
}
/// file n is file o but for bytes in the records of variable i0 between r0 and r1
#[verifier::opaque]
pub open spec fn spoiled(l: Lay, o: Seq<u8>, n: Seq<u8>, m: spec_fn(int, int) -> bool) -> bool {
    &&& n.len() >= o.len()
    &&& n.len() == o.len() || exists|i: int, r: int| #[trigger] m(i, r) && is_rec_of(l, i, r) && n.len() <= rec_end(l, i, r)
    &&& forall|p: int| 0 <= p < n.len() && (forall|i: int, r: int| #[trigger] m(i, r) && is_rec_of(l, i, r) ==> !in_rec(l, i, r, p)) ==> #[trigger] n[p] == at0(o, p)
}
pub proof fn lemma_fix_take(v: Seq<Variable>, i: int)
    requires 0 <= i < v.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).wf()
    ensures fix_sum(v.take(i + 1)) == fix_sum(v.take(i)) + (if v[i].is_rec() { 0 } else { v[i].rsize() }),
        rec_size(v.take(i + 1)) == rec_size(v.take(i)) + (if v[i].is_rec() { v[i].rsize() } else { 0 }),
        v[i].rsize() >= 4, v[i].rsize() % 4 == 0
{
    assert(v.take(i + 1).drop_last() =~= v.take(i));
    lemma_rsize_nonneg(v[i]);
}
/// sums grow with the number of variables and are multiples of four
pub proof fn lemma_sums_mono(v: Seq<Variable>, i: int, j: int)
    requires 0 <= i <= j <= v.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).wf()
    ensures 0 <= fix_sum(v.take(i)) <= fix_sum(v.take(j)), 0 <= rec_size(v.take(i)) <= rec_size(v.take(j)),
        fix_sum(v.take(j)) % 4 == 0, rec_size(v.take(j)) % 4 == 0, fix_sum(v.take(i)) % 4 == 0, rec_size(v.take(i)) % 4 == 0,
    decreases j
{
    if j == 0 { assert(v.take(0) =~= Seq::empty()); }
    else {
        lemma_fix_take(v, j - 1);
        if i == j { lemma_sums_mono(v, i - 1, i - 1); } else { lemma_sums_mono(v, i, j - 1); }
    }
}
pub proof fn lemma_mul_le(a: int, b: int, s: int) requires a <= b, s >= 0 ensures a * s <= b * s { assert(a * s <= b * s) by (nonlinear_arith) requires a <= b, s >= 0; }
/// C09: every record lies between the header and the end, at a multiple of four
pub proof fn lemma_rec_in(l: Lay, i: int, r: int)
    requires lay_ok(l), is_rec_of(l, i, r)
    ensures 0 <= l.h <= rec_at(l, i, r), rec_at(l, i, r) + 4 <= rec_end(l, i, r) <= data_end(l), rec_at(l, i, r) % 4 == 0,
        l.v[i].is_rec() ==> rec_at(l, i, r) >= l.h + fix_sum(l.v) + r * rec_size(l.v) && rec_end(l, i, r) <= l.h + fix_sum(l.v) + (r + 1) * rec_size(l.v),
        !l.v[i].is_rec() ==> rec_end(l, i, r) <= l.h + fix_sum(l.v) && r == 0,
{
    reveal(lay_ok);
    let v = l.v;
    let s = rec_size(v);
    lemma_fix_take(v, i);
    lemma_sums_mono(v, i, v.len() as int);
    lemma_sums_mono(v, i + 1, v.len() as int);
    assert(v.take(v.len() as int) =~= v);
    let k = s / 4;
    assert(r * s == 4 * (r * k)) by (nonlinear_arith) requires s == 4 * k;
    lemma_mul_le(0, r, s);
    lemma_mul_le(0, l.n, s);
    if v[i].is_rec() {
        lemma_mul_le(r + 1, l.n, s);
        assert((r + 1) * s == r * s + s) by (nonlinear_arith);
    }
}
/// C09: the records of all the variables are pairwise disjoint
pub proof fn lemma_recs_disjoint(l: Lay, i: int, r: int, j: int, q: int)
    requires lay_ok(l), is_rec_of(l, i, r), is_rec_of(l, j, q), i != j || r != q
    ensures rec_end(l, i, r) <= rec_at(l, j, q) || rec_end(l, j, q) <= rec_at(l, i, r)
{
    lemma_rec_in(l, i, r);
    lemma_rec_in(l, j, q);
    reveal(lay_ok);
    let v = l.v;
    let s = rec_size(v);
    lemma_fix_take(v, i);
    lemma_fix_take(v, j);
    lemma_sums_mono(v, 0, v.len() as int);
    assert(v.take(v.len() as int) =~= v);
    if i < j { lemma_sums_mono(v, i + 1, j); } else if j < i { lemma_sums_mono(v, j + 1, i); }
    if v[i].is_rec() && v[j].is_rec() {
        if r < q { lemma_mul_le(r + 1, q, s); }
        if q < r { lemma_mul_le(q + 1, r, s); }
    } else if v[i].is_rec() {
        lemma_mul_le(0, r, s);
    } else if v[j].is_rec() {
        lemma_mul_le(0, q, s);
    }
}
pub proof fn lemma_find_fix(v: Seq<Variable>, k: int, p: int) -> (i: int)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf(), 0 <= k <= v.len(), 0 <= p < fix_sum(v.take(k))
    ensures 0 <= i < k, !v[i].is_rec(), fix_sum(v.take(i)) <= p < fix_sum(v.take(i)) + v[i].rsize()
    decreases k
{
    if k == 0 { assert(v.take(0) =~= Seq::empty()); }
    lemma_fix_take(v, k - 1);
    if p < fix_sum(v.take(k - 1)) { lemma_find_fix(v, k - 1, p) } else { k - 1 }
}
pub proof fn lemma_find_rec(v: Seq<Variable>, k: int, p: int) -> (i: int)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf(), 0 <= k <= v.len(), 0 <= p < rec_size(v.take(k))
    ensures 0 <= i < k, v[i].is_rec(), rec_size(v.take(i)) <= p < rec_size(v.take(i)) + v[i].rsize()
    decreases k
{
    if k == 0 { assert(v.take(0) =~= Seq::empty()); }
    lemma_fix_take(v, k - 1);
    if p < rec_size(v.take(k - 1)) { lemma_find_rec(v, k - 1, p) } else { k - 1 }
}
/// C09: every byte between the header and the end belongs to a record: no gap
pub proof fn lemma_recs_cover(l: Lay, p: int) -> (ir: (int, int))
    requires lay_ok(l), l.h <= p < data_end(l)
    ensures is_rec_of(l, ir.0, ir.1), in_rec(l, ir.0, ir.1, p)
{
    reveal(lay_ok);
    let v = l.v;
    let s = rec_size(v);
    assert(v.take(v.len() as int) =~= v);
    lemma_sums_mono(v, 0, v.len() as int);
    if p < l.h + fix_sum(v) {
        let i = lemma_find_fix(v, v.len() as int, p - l.h);
        assert(rec_at(l, i, 0) == l.h + fix_sum(v.take(i))) by (nonlinear_arith) requires rec_at(l, i, 0) == l.h + fix_sum(v.take(i)) + 0 * s;
        (i, 0)
    } else {
        let q = p - l.h - fix_sum(v);
        let n = l.n;
        assert(s > 0) by (nonlinear_arith) requires s >= 0, 0 <= q < n * s;
        let r = q / s;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, s);
        assert(q == r * s + q % s) by (nonlinear_arith) requires q == s * r + q % s;
        assert(0 <= q % s < s) by (nonlinear_arith) requires s > 0;
        assert(0 <= r < n) by (nonlinear_arith) requires q == r * s + q % s, 0 <= q % s < s, 0 <= q < n * s, s > 0;
        let i = lemma_find_rec(v, v.len() as int, q % s);
        (i, r)
    }
}
pub proof fn lemma_stored_none(l: Lay, o: Seq<u8>)
    ensures stored(l, o, o, no_recs())
{ reveal(stored); }
/// one more record stored
pub proof fn lemma_stored_put(l: Lay, o: Seq<u8>, n: Seq<u8>, m: Recs, i: int, r: int, b: Seq<u8>)
    requires lay_ok(l), stored(l, o, n, m), is_rec_of(l, i, r), b.len() == l.v[i].rsize()
    ensures stored(l, o, put_data(n, rec_at(l, i, r), b), then_recs(m, one_rec(i, r, b)))
{
    reveal(stored);
    let pos = rec_at(l, i, r);
    let n2 = put_data(n, pos, b);
    let one = one_rec(i, r, b);
    let m2 = then_recs(m, one);
    lemma_rec_in(l, i, r);
    assert forall|j: int, q: int| (#[trigger] m2(j, q)) is Some implies is_rec_of(l, j, q) && m2(j, q)->0.len() == l.v[j].rsize() && has_at(n2, rec_at(l, j, q), m2(j, q)->0) by {
        if j == i && q == r {
            assert(n2.subrange(pos, pos + b.len()) =~= b);
        } else {
            assert(m(j, q) is Some);
            lemma_recs_disjoint(l, i, r, j, q);
            let c = m(j, q)->0;
            let z = rec_at(l, j, q);
            assert forall|k: int| 0 <= k < c.len() implies n2[z + k] == c[k] by { assert(n.subrange(z, z + c.len())[k] == c[k]); }
            assert(n2.subrange(z, z + c.len()) =~= c);
        }
    }
    assert(m2(i, r) is Some);
    if n2.len() != o.len() && n2.len() != rec_end(l, i, r) {
        let (j, q) = choose|j: int, q: int| (#[trigger] m(j, q)) is Some && n.len() == rec_end(l, j, q);
        assert(m2(j, q) is Some);
    }
    assert forall|p: int| 0 <= p < n2.len() && #[trigger] outside(l, m2, p) implies n2[p] == at0(o, p) by {
        assert(!in_rec(l, i, r, p));
        assert(outside(l, m, p)) by { assert forall|j: int, q: int| (#[trigger] m(j, q)) is Some implies !in_rec(l, j, q, p) by { assert(m2(j, q) is Some); } }
    }
}
/// two groups of writes, one after the other
pub proof fn lemma_stored_then(l: Lay, o: Seq<u8>, n: Seq<u8>, n2: Seq<u8>, m: Recs, m2: Recs)
    requires lay_ok(l), stored(l, o, n, m), stored(l, n, n2, m2)
    ensures stored(l, o, n2, then_recs(m, m2))
{
    reveal(stored);
    let m3 = then_recs(m, m2);
    assert forall|j: int, q: int| (#[trigger] m3(j, q)) is Some implies is_rec_of(l, j, q) && m3(j, q)->0.len() == l.v[j].rsize() && has_at(n2, rec_at(l, j, q), m3(j, q)->0) by {
        if !(m2(j, q) is Some) {
            assert(m(j, q) is Some);
            let c = m(j, q)->0;
            let z = rec_at(l, j, q);
            assert forall|k: int| 0 <= k < c.len() implies n2[z + k] == c[k] by {
                assert(n.subrange(z, z + c.len())[k] == c[k]);
                assert(outside(l, m2, z + k)) by {
                    assert forall|i: int, r: int| (#[trigger] m2(i, r)) is Some implies !in_rec(l, i, r, z + k) by { lemma_recs_disjoint(l, i, r, j, q); }
                }
            }
            assert(n2.subrange(z, z + c.len()) =~= c);
        }
    }
    if n2.len() != o.len() {
        if n2.len() != n.len() {
            let (j, q) = choose|j: int, q: int| (#[trigger] m2(j, q)) is Some && n2.len() == rec_end(l, j, q);
            assert(m3(j, q) is Some);
        } else {
            let (j, q) = choose|j: int, q: int| (#[trigger] m(j, q)) is Some && n.len() == rec_end(l, j, q);
            assert(m3(j, q) is Some);
        }
    }
    assert forall|p: int| 0 <= p < n2.len() && #[trigger] outside(l, m3, p) implies n2[p] == at0(o, p) by {
        assert(outside(l, m, p)) by { assert forall|j: int, q: int| (#[trigger] m(j, q)) is Some implies !in_rec(l, j, q, p) by { assert(m3(j, q) is Some); } }
        assert(outside(l, m2, p)) by { assert forall|j: int, q: int| (#[trigger] m2(j, q)) is Some implies !in_rec(l, j, q, p) by { assert(m3(j, q) is Some); } }
    }
}
/// a write that fails after others
pub proof fn lemma_spoiled(l: Lay, o: Seq<u8>, n: Seq<u8>, n2: Seq<u8>, m: Recs, i: int, r: int, d: spec_fn(int, int) -> bool)
    requires lay_ok(l), stored(l, o, n, m), is_rec_of(l, i, r), only(n, n2, rec_at(l, i, r), rec_end(l, i, r)), d(i, r), forall|j: int, q: int| (#[trigger] m(j, q)) is Some ==> d(j, q)
    ensures spoiled(l, o, n2, d)
{
    reveal(stored);
    reveal(spoiled);
    assert(is_rec_of(l, i, r));
    if n2.len() != o.len() {
        if n2.len() > n.len() { assert(d(i, r) && n2.len() <= rec_end(l, i, r)); }
        else {
            let (j, q) = choose|j: int, q: int| (#[trigger] m(j, q)) is Some && n.len() == rec_end(l, j, q);
            assert(d(j, q) && is_rec_of(l, j, q));
        }
    }
    assert forall|p: int| 0 <= p < n2.len() && (forall|i: int, r: int| #[trigger] d(i, r) && is_rec_of(l, i, r) ==> !in_rec(l, i, r, p)) implies #[trigger] n2[p] == at0(o, p) by {
        assert(d(i, r) && !in_rec(l, i, r, p));
        assert(outside(l, m, p)) by { assert forall|j: int, q: int| (#[trigger] m(j, q)) is Some implies !in_rec(l, j, q, p) by { assert(d(j, q)); } }
    }
}
// ---------------------------------------------------------------- the writer
impl<'a> HeaderDefinition<'a> {
    pub open spec fn wf(self) -> bool {
        self.data_set.wf() && def_fits(*self.data_set, self.version, self.header_min_size as int) && metas_ok(*self.data_set, self.data_set_metadata, self.version, self.header_min_size as int)
    }
    pub open spec fn lay(self) -> Lay { Lay { v: self.data_set.vars@, h: hdr_size(*self.data_set, self.version, self.header_min_size as int), n: num_recs(*self.data_set) } }
}
/// C08: the header, up to the data
pub open spec fn header_bytes(d: HeaderDefinition) -> Seq<u8> {
    seq![0x43u8, 0x44, 0x46] + byte(d.version.code()) + be32(or_indeterminate(num_recs(*d.data_set))) + enc_dims(d.data_set.dims@) + enc_attrs(d.data_set.attrs@)
        + enc_vars(d.data_set_metadata.vars_metadata@) + zeros(d.data_set_metadata.header_zero_padding_size as int)
}
pub open spec fn wr_has(w: Seq<(&Variable, VBTreeSet<usize>)>, n: Seq<char>, r: int) -> bool {
    exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]).0.name@ == n && 0 <= r <= usize::MAX && w[k].1@.contains(r as usize)
}
pub open spec fn wr_ok(w: Seq<(&Variable, VBTreeSet<usize>)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < w.len() ==> (#[trigger] w[i]).0.name@ != (#[trigger] w[j]).0.name@
}
impl<'a> FileWriter<'a> {
    pub open spec fn bytes(self) -> Seq<u8> { self.output_file.out().data }
    pub open spec fn defined(self) -> bool { self.header_def is Some }
    pub open spec fn lay(self) -> Lay { self.header_def->0.lay() }
    pub open spec fn vars(self) -> Seq<Variable> { self.header_def->0.data_set.vars@ }
    /// what every public operation preserves
    pub open spec fn inv(self) -> bool {
        match self.header_def { None => self.written_records@.len() == 0 && self.bytes().len() == 0, Some(d) => d.wf() && wr_ok(self.written_records@) }
    }
    /// the records considered written
    pub open spec fn is_written(self, i: int, r: int) -> bool { is_rec_of(self.lay(), i, r) && wr_has(self.written_records@, self.vars()[i].name@, r) }
    pub open spec fn same_def(self, o: Self) -> bool { self.header_def == o.header_def && self.output_file_path == o.output_file_path }
    pub open spec fn same_written(self, o: Self) -> bool { self.written_records == o.written_records }
    pub open spec fn unchanged(self, o: Self) -> bool { self.same_def(o) && self.same_written(o) && self.bytes() == o.bytes() }
    pub open spec fn marked(self, o: Self, m: Recs) -> bool { forall|i: int, r: int| #![trigger self.is_written(i, r)] #![trigger m(i, r)] self.is_written(i, r) <==> o.is_written(i, r) || m(i, r) is Some }
    /// the definition is this one
    pub open spec fn is_new(self, ds: DataSet, ver: Version, hmin: int) -> bool {
        self.defined() && *self.header_def->0.data_set == ds && self.header_def->0.version == ver && self.header_def->0.header_min_size == hmin
    }
    // ---- C12
    pub open spec fn var_is(self, i: int, n: Seq<char>) -> bool { self.defined() && 0 <= i < self.vars().len() && self.vars()[i].name@ == n }
    pub open spec fn refuses_var(self, n: Seq<char>, ty: DataType, e: WriteError) -> bool {
        match e {
            WriteError::HeaderNotDefined => !self.defined(),
            WriteError::VariableNotDefined(x) => x@ == n && self.defined() && !vhas(self.vars(), n),
            WriteError::VariableMismatchDataType{var_name, req, get} => var_name@ == n && get == ty && req != ty && exists|i: int| #[trigger] self.var_is(i, n) && req == self.vars()[i].data_type,
            _ => false,
        }
    }
    pub open spec fn refuses_rec(self, n: Seq<char>, ty: DataType, r: int, len: int, e: WriteError) -> bool {
        match e {
            WriteError::RecordIndexExceeded{index, num_records} => index == r && r >= num_records && exists|i: int| #[trigger] self.var_is(i, n) && num_records == self.vars()[i].nrecs(),
            WriteError::RecordMismatchDataLength{var_name, req, get} => var_name@ == n && get == len && req != len && exists|i: int| #[trigger] self.var_is(i, n) && req == self.vars()[i].rlen(),
            _ => self.refuses_var(n, ty, e),
        }
    }
    pub open spec fn accepts_rec(self, i: int, n: Seq<char>, ty: DataType, r: int, len: int) -> bool {
        self.var_is(i, n) && self.vars()[i].data_type == ty && is_rec_of(self.lay(), i, r) && len == self.vars()[i].rlen()
    }
    pub open spec fn refuses_all(self, n: Seq<char>, ty: DataType, len: int, e: WriteError) -> bool {
        match e {
            WriteError::VariableMismatchDataLength{var_name, req, get} => var_name@ == n && get == len && req != len && exists|i: int| #[trigger] self.var_is(i, n) && req == self.vars()[i].total(),
            _ => self.refuses_var(n, ty, e),
        }
    }
    pub open spec fn accepts_all(self, i: int, n: Seq<char>, ty: DataType, len: int) -> bool {
        self.var_is(i, n) && self.vars()[i].data_type == ty && len == self.vars()[i].total()
    }
}
pub open spec fn only_rec(i0: int, r0: int) -> spec_fn(int, int) -> bool { |i: int, r: int| i == i0 && r == r0 }
pub open spec fn any_rec(i0: int) -> spec_fn(int, int) -> bool { |i: int, r: int| i == i0 }
pub proof fn lemma_lay_ok(d: HeaderDefinition)
    requires d.wf()
    ensures lay_ok(d.lay())
{
    reveal(lay_ok);
    let ds = *d.data_set;
    assert forall|i: int| 0 <= i < ds.vars@.len() && ds.vars@[i].is_rec() implies (#[trigger] ds.vars@[i]).nrecs() == num_recs(ds) by { lemma_num_recs(ds, i); }
    lemma_len_vars_nonneg(ds.vars@, d.version);
}
/// records rs of name nm added to the set at position k, or with a new set at the end
pub open spec fn wr_added(w0: Seq<(&Variable, VBTreeSet<usize>)>, w1: Seq<(&Variable, VBTreeSet<usize>)>, nm: Seq<char>, rs: Set<usize>) -> bool {
    if exists|k: int| 0 <= k < w0.len() && (#[trigger] w0[k]).0.name@ == nm {
        exists|k: int| 0 <= k < w0.len() && (#[trigger] w0[k]).0.name@ == nm && w1.len() == w0.len() && w1[k].0 == w0[k].0 && w1[k].1@ == w0[k].1@.union(rs)
            && forall|j: int| 0 <= j < w0.len() && j != k ==> #[trigger] w1[j] == w0[j]
    } else {
        w1.len() == w0.len() + 1 && w1.last().0.name@ == nm && w1.last().1@ == rs && forall|j: int| 0 <= j < w0.len() ==> #[trigger] w1[j] == w0[j]
    }
}
pub proof fn lemma_wr_added(w0: Seq<(&Variable, VBTreeSet<usize>)>, w1: Seq<(&Variable, VBTreeSet<usize>)>, nm: Seq<char>, rs: Set<usize>)
    requires wr_ok(w0), wr_added(w0, w1, nm, rs)
    ensures wr_ok(w1), forall|n: Seq<char>, q: int| #[trigger] wr_has(w1, n, q) <==> wr_has(w0, n, q) || (n == nm && 0 <= q <= usize::MAX && rs.contains(q as usize))
{
    if exists|k: int| 0 <= k < w0.len() && (#[trigger] w0[k]).0.name@ == nm {
        let k = choose|k: int| 0 <= k < w0.len() && (#[trigger] w0[k]).0.name@ == nm && w1.len() == w0.len() && w1[k].0 == w0[k].0 && w1[k].1@ == w0[k].1@.union(rs)
            && forall|j: int| 0 <= j < w0.len() && j != k ==> #[trigger] w1[j] == w0[j];
        assert forall|j: int| 0 <= j < w0.len() implies (#[trigger] w1[j]).0.name@ == w0[j].0.name@ by { if j != k { assert(w1[j] == w0[j]); } }
        assert forall|i: int, j: int| 0 <= i < j < w1.len() implies (#[trigger] w1[i]).0.name@ != (#[trigger] w1[j]).0.name@ by { assert(w0[i].0.name@ != w0[j].0.name@); }
        assert forall|n: Seq<char>, q: int| #[trigger] wr_has(w1, n, q) <==> wr_has(w0, n, q) || (n == nm && 0 <= q <= usize::MAX && rs.contains(q as usize)) by {
            if wr_has(w1, n, q) {
                let j = choose|j: int| 0 <= j < w1.len() && (#[trigger] w1[j]).0.name@ == n && 0 <= q <= usize::MAX && w1[j].1@.contains(q as usize);
                assert(w0[j].0.name@ == n);
            }
            if wr_has(w0, n, q) {
                let j = choose|j: int| 0 <= j < w0.len() && (#[trigger] w0[j]).0.name@ == n && 0 <= q <= usize::MAX && w0[j].1@.contains(q as usize);
                assert(w1[j].0.name@ == n && w1[j].1@.contains(q as usize));
            }
            if n == nm && 0 <= q <= usize::MAX && rs.contains(q as usize) { assert(w1[k].0.name@ == n && w1[k].1@.contains(q as usize)); }
        }
    } else {
        let l = w0.len() as int;
        assert forall|i: int, j: int| 0 <= i < j < w1.len() implies (#[trigger] w1[i]).0.name@ != (#[trigger] w1[j]).0.name@ by {
            assert(w1[i] == w0[i]);
            if j < l { assert(w1[j] == w0[j]); } else { assert(w1[j] == w1.last()); }
        }
        assert forall|n: Seq<char>, q: int| #[trigger] wr_has(w1, n, q) <==> wr_has(w0, n, q) || (n == nm && 0 <= q <= usize::MAX && rs.contains(q as usize)) by {
            if wr_has(w1, n, q) {
                let j = choose|j: int| 0 <= j < w1.len() && (#[trigger] w1[j]).0.name@ == n && 0 <= q <= usize::MAX && w1[j].1@.contains(q as usize);
                if j < l { assert(w0[j].0.name@ == n); }
            }
            if wr_has(w0, n, q) {
                let j = choose|j: int| 0 <= j < w0.len() && (#[trigger] w0[j]).0.name@ == n && 0 <= q <= usize::MAX && w0[j].1@.contains(q as usize);
                assert(w1[j].0.name@ == n && w1[j].1@.contains(q as usize));
            }
            if n == nm && 0 <= q <= usize::MAX && rs.contains(q as usize) { assert(w1[l].0.name@ == n && w1[l].1@.contains(q as usize)); }
        }
    }
}
pub proof fn lemma_header_parts(d: HeaderDefinition)
    requires d.wf()
    ensures vars_fit(d.data_set_metadata.vars_metadata@),
        enc_vars(d.data_set_metadata.vars_metadata@).len() == len_vars(d.data_set.vars@, d.version),
        8 + enc_dims(d.data_set.dims@).len() + enc_attrs(d.data_set.attrs@).len() + enc_vars(d.data_set_metadata.vars_metadata@).len() + d.data_set_metadata.header_zero_padding_size == d.lay().h,
        d.lay().h <= i64::MAX, header_bytes(d).len() == d.lay().h,
{
    broadcast use group_writer;
    let ds = *d.data_set;
    let ml = d.data_set_metadata.vars_metadata@;
    lemma_sums_nonneg(ds.vars@);
    assert forall|i: int| 0 <= i < ml.len() implies var_fits(*(#[trigger] ml[i]).0, ml[i].1) by {
        assert(*ml[i].0 == ds.vars@[i] && meta_ok(ds, i, ml[i].1, d.version, d.lay().h));
        assert(ds.vars@[i].wf() && attrs_fit(ds.vars@[i].attrs@));
    }
    lemma_vars_len(ds, ml, d.version, d.lay().h, ml.len() as int);
    assert(ml.take(ml.len() as int) =~= ml && ds.vars@.take(ml.len() as int) =~= ds.vars@);
    assert(be32(0x0B).len() == 4 && be32(ml.len() as int).len() == 4);
    let a = seq![0x43u8, 0x44, 0x46] + byte(d.version.code());
    let b = a + be32(or_indeterminate(num_recs(ds)));
    let c = b + enc_dims(ds.dims@) + enc_attrs(ds.attrs@);
    assert(header_bytes(d) == c + enc_vars(ml) + zeros(d.data_set_metadata.header_zero_padding_size as int));
}
pub broadcast proof fn lemma_put_one(o: Out, b: Seq<u8>)
    ensures #![trigger put(o, b)] b.len() == 1 ==> b == byte(b[0] as int)
{ if b.len() == 1 { assert(b =~= byte(b[0] as int)); } }
// ---------------------------------------------------------------- C10: one write
/// the records written by giving all the values of variable i0, rl values per record, up to record k
@for T in i8 u8 i16 i32 f32 f64
pub open spec fn var_recs_%T%(i0: int, rl: int, d: Seq<%T%>, k: int) -> Recs { |i: int, r: int| if i == i0 && 0 <= r < k { Some(chunk_%T%(d.subrange(r * rl, (r + 1) * rl))) } else { None } }
pub proof fn lemma_var_recs_%T%(i0: int, rl: int, d: Seq<%T%>, k: int)
    requires k >= 0
    ensures then_recs(var_recs_%T%(i0, rl, d, k), one_rec(i0, k, chunk_%T%(d.subrange(k * rl, (k + 1) * rl)))) == var_recs_%T%(i0, rl, d, k + 1), var_recs_%T%(i0, rl, d, 0) == no_recs()
{
    assert(then_recs(var_recs_%T%(i0, rl, d, k), one_rec(i0, k, chunk_%T%(d.subrange(k * rl, (k + 1) * rl)))) =~= var_recs_%T%(i0, rl, d, k + 1));
    assert(var_recs_%T%(i0, rl, d, 0) =~= no_recs());
}
@endfor
pub proof fn lemma_then_none(m: Recs) ensures then_recs(no_recs(), m) == m { assert(then_recs(no_recs(), m) =~= m); }
#[verifier::opaque]
pub open spec fn within(m: Recs, d: spec_fn(int, int) -> bool) -> bool { forall|i: int, r: int| (#[trigger] m(i, r)) is Some ==> d(i, r) }
/// what a failed seek, or a failed write of record r of variable i, leaves
pub proof fn lemma_failed(l: Lay, o: Seq<u8>, n: Seq<u8>, m: Recs, i: int, r: int, d: spec_fn(int, int) -> bool)
    requires lay_ok(l), stored(l, o, n, m), within(m, d), is_rec_of(l, i, r), d(i, r)
    ensures spoiled(l, o, n, d), fails_as(l, o, n, i, r, d)
{
    reveal(within); reveal(stored); reveal(spoiled); reveal(fails_as);
    if n.len() != o.len() {
        let (i, r) = choose|i: int, r: int| (#[trigger] m(i, r)) is Some && n.len() == rec_end(l, i, r);
        assert(d(i, r) && is_rec_of(l, i, r));
    }
    assert forall|p: int| 0 <= p < n.len() && (forall|i: int, r: int| #[trigger] d(i, r) && is_rec_of(l, i, r) ==> !in_rec(l, i, r, p)) implies #[trigger] n[p] == at0(o, p) by {
        assert(outside(l, m, p)) by { assert forall|i: int, r: int| (#[trigger] m(i, r)) is Some implies !in_rec(l, i, r, p) by { assert(d(i, r)); } }
    }
    assert forall|n2: Seq<u8>| #[trigger] only(n, n2, rec_at(l, i, r), rec_end(l, i, r)) implies spoiled(l, o, n2, d) by { lemma_spoiled(l, o, n, n2, m, i, r, d); }
}
#[verifier::opaque]
pub open spec fn fails_as(l: Lay, o: Seq<u8>, n: Seq<u8>, i: int, r: int, d: spec_fn(int, int) -> bool) -> bool {
    forall|n2: Seq<u8>| #[trigger] only(n, n2, rec_at(l, i, r), rec_end(l, i, r)) ==> spoiled(l, o, n2, d)
}
pub broadcast proof fn lemma_fails_as(l: Lay, o: Seq<u8>, n: Seq<u8>, i: int, r: int, d: spec_fn(int, int) -> bool, n2: Seq<u8>, lo: int, hi: int)
    ensures #![trigger fails_as(l, o, n, i, r, d), only(n, n2, lo, hi)] fails_as(l, o, n, i, r, d) && only(n, n2, lo, hi) && lo == rec_at(l, i, r) && hi == rec_end(l, i, r) ==> spoiled(l, o, n2, d)
{ reveal(fails_as); }
pub broadcast proof fn lemma_one_contains(s: Seq<usize>, x: usize)
    ensures s.len() == 1 ==> (#[trigger] s.contains(x) <==> x == s[0])
{ if s.len() == 1 && x == s[0] { assert(s.contains(s[0])); } }
pub broadcast group group_fw { lemma_fails_as, lemma_one_contains, lemma_range_contains }
/// where a record is, from the metadata of its variable
pub proof fn lemma_rec_pos(d: HeaderDefinition, i: int, r: int, b: int, rs: int)
    requires d.wf(), is_rec_of(d.lay(), i, r), b == d.lay().h + begin_rel(d.data_set.vars@, i), rs == (if d.data_set.unlimited_dim is Some { rec_size(d.data_set.vars@) } else { 0 })
    ensures rec_at(d.lay(), i, r) == b + r * rs, b >= 0, rs >= 0, 0 <= r * rs, 4 <= b + r * rs + d.data_set.vars@[i].rsize() == rec_end(d.lay(), i, r) <= i64::MAX, r * rs == rs * r, lay_ok(d.lay()), d.data_set.vars@[i].wf()
{
    lemma_lay_ok(d);
    lemma_rec_in(d.lay(), i, r);
    lemma_rec_in(d.lay(), i, 0);
    let v = d.data_set.vars@;
    lemma_sums_mono(v, 0, v.len() as int);
    assert(v.take(v.len() as int) =~= v);
    if v[i].is_rec() { lemma_num_recs(*d.data_set, i); } else { assert(r == 0); }
    assert(0 * rec_size(v) == 0 && 0 * rs == 0) by (nonlinear_arith);
    lemma_mul_le(0, r, rs);
    assert(r * rs == rs * r) by (nonlinear_arith);
}
impl<'a> FileWriter<'a> {
    /// after a write of the values of the records of m, as the variable at i
    pub open spec fn wrote(self, o: Self, m: Recs) -> bool { self.same_def(o) && self.inv() && self.marked(o, m) && stored(self.lay(), o.bytes(), self.bytes(), m) }
    pub open spec fn wrecked(self, o: Self, d: spec_fn(int, int) -> bool) -> bool { self.same_def(o) && self.inv() && self.same_written(o) && spoiled(self.lay(), o.bytes(), self.bytes(), d) }
}
/// what a call that writes one record needs to know, in terms of the writer before it
pub open spec fn before_rec(w: FileWriter, i: int, n: Seq<char>, r: int, b: Seq<u8>) -> bool {
    let d = w.header_def->0;
    let rs = if d.data_set.unlimited_dim is Some { rec_size(d.data_set.vars@) } else { 0 };
    let bg = d.lay().h + begin_rel(d.data_set.vars@, i);
    &&& lay_ok(w.lay()) && is_rec_of(w.lay(), i, r) && w.lay().v == w.vars() && w.lay().v[i] == w.vars()[i]
    &&& rec_at(w.lay(), i, r) == bg + rs * r && bg >= 0 && rs >= 0 && 0 <= rs * r == r * rs && rec_end(w.lay(), i, r) == rec_at(w.lay(), i, r) + b.len() && rec_end(w.lay(), i, r) <= i64::MAX
    &&& w.vars()[i].rsize() == b.len()
    &&& stored(w.lay(), w.bytes(), put_data(w.bytes(), rec_at(w.lay(), i, r), b), one_rec(i, r, b))
    &&& spoiled(w.lay(), w.bytes(), w.bytes(), only_rec(i, r)) && fails_as(w.lay(), w.bytes(), w.bytes(), i, r, only_rec(i, r))
    &&& forall|j: int| 0 <= j < w.vars().len() && (#[trigger] w.vars()[j]).name@ == n ==> j == i
}
#[verifier::spinoff_prover]
pub proof fn lemma_before_rec_i(w: FileWriter, i: int, n: Seq<char>, ty: DataType, r: int, len: int, b: Seq<u8>)
    requires w.inv(), b.len() == round4(len * ty.esize()), w.accepts_rec(i, n, ty, r, len)
    ensures before_rec(w, i, n, r, b)
{
    let d = w.header_def->0;
    let rs = if d.data_set.unlimited_dim is Some { rec_size(d.data_set.vars@) } else { 0 };
    let bg = d.lay().h + begin_rel(d.data_set.vars@, i);
    lemma_lay_ok(d);
    lemma_rec_pos(d, i, r, bg, rs);
    assert(rs * r == r * rs) by (nonlinear_arith);
    lemma_stored_none(w.lay(), w.bytes());
    lemma_stored_put(w.lay(), w.bytes(), w.bytes(), no_recs(), i, r, b);
    lemma_then_none(one_rec(i, r, b));
    assert(within(no_recs(), only_rec(i, r))) by { reveal(within); }
    lemma_failed(w.lay(), w.bytes(), w.bytes(), no_recs(), i, r, only_rec(i, r));
}
#[verifier::spinoff_prover]
pub proof fn lemma_before_rec(w: FileWriter, n: Seq<char>, ty: DataType, r: int, len: int, b: Seq<u8>)
    requires w.inv(), b.len() == round4(len * ty.esize())
    ensures forall|i: int| #[trigger] w.accepts_rec(i, n, ty, r, len) ==> before_rec(w, i, n, r, b),
        w.defined() ==> lay_ok(w.lay()) && w.header_def->0.data_set.wf() && w.header_def->0.data_set.sizes_ok(),
        forall|i: int| 0 <= i < w.vars().len() && w.defined() && (#[trigger] w.vars()[i]).name@ == n ==> w.var_is(i, n) && vhas(w.vars(), n) && w.vars()[i].wf() && w.vars()[i].rlen() <= usize::MAX && w.vars()[i].total() <= usize::MAX && (w.accepts_rec(i, n, ty, r, len) <==> w.vars()[i].data_type == ty && 0 <= r < w.vars()[i].nrecs() && len == w.vars()[i].rlen()),
{
    if w.defined() {
        lemma_lay_ok(w.header_def->0);
        assert forall|i: int| 0 <= i < w.vars().len() implies (#[trigger] w.vars()[i]).wf() && w.vars()[i].rlen() <= usize::MAX && w.vars()[i].total() <= usize::MAX by { lemma_rsize_nonneg(w.vars()[i]); }
    }
    assert forall|i: int| #[trigger] w.accepts_rec(i, n, ty, r, len) implies before_rec(w, i, n, r, b) by { lemma_before_rec_i(w, i, n, ty, r, len, b); }
}
pub broadcast proof fn lemma_range_contains(s: Seq<usize>, x: usize)
    ensures (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == k) ==> (#[trigger] s.contains(x) <==> x < s.len())
{ if (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == k) && x < s.len() { assert(s.contains(s[x as int])); } }
pub open spec fn rec_step(ds: DataSet) -> int { if ds.unlimited_dim is Some { rec_size(ds.vars@) } else { 0 } }
/// record r of variable i (of rl values): where its bytes and its values are
pub proof fn lemma_var_rec(w: FileWriter, n: Seq<char>, ty: DataType, len: int, i: int, r: int)
    requires w.inv(), w.accepts_all(i, n, ty, len), 0 <= r < w.vars()[i].nrecs()
    ensures ({
        let d = w.header_def->0;
        let rs = rec_step(*d.data_set);
        let bg = d.lay().h + begin_rel(d.data_set.vars@, i);
        let v = w.vars()[i];
        let rl = v.rlen();
        &&& lay_ok(w.lay()) && is_rec_of(w.lay(), i, r) && w.lay().v == w.vars() && v.wf()
        &&& rec_at(w.lay(), i, r) == bg + r * rs && bg >= 0 && rs >= 0 && 0 <= r * rs && rec_end(w.lay(), i, r) == rec_at(w.lay(), i, r) + v.rsize() && rec_end(w.lay(), i, r) <= i64::MAX
        &&& v.rsize() == round4(rl * ty.esize())
        &&& 1 <= rl && 0 <= r * rl && (r + 1) * rl == r * rl + rl && (r + 1) * rl <= len
        &&& !v.is_rec() ==> len == rl && r == 0
        &&& d.data_set.unlimited_dim is None ==> !v.is_rec()
    }),
{
    let d = w.header_def->0;
    let v = w.vars()[i];
    lemma_rec_pos(d, i, r, d.lay().h + begin_rel(d.data_set.vars@, i), rec_step(*d.data_set));
    lemma_rsize_nonneg(v);
    if v.is_rec() { lemma_num_recs(*d.data_set, i); }
    lemma_mul_le(0, r, v.rlen());
    lemma_mul_le(r + 1, v.nrecs(), v.rlen());
    assert((r + 1) * v.rlen() == r * v.rlen() + v.rlen()) by (nonlinear_arith);
}
pub proof fn lemma_before_var(w: FileWriter, n: Seq<char>, ty: DataType, len: int)
    requires w.inv(),
    ensures w.defined() ==> lay_ok(w.lay()) && w.header_def->0.data_set.wf() && w.header_def->0.data_set.sizes_ok(),
        forall|i: int| 0 <= i < w.vars().len() && w.defined() && (#[trigger] w.vars()[i]).name@ == n ==> w.var_is(i, n) && vhas(w.vars(), n) && w.vars()[i].wf() && w.vars()[i].rlen() <= usize::MAX && w.vars()[i].total() <= usize::MAX && (w.accepts_all(i, n, ty, len) <==> w.vars()[i].data_type == ty && len == w.vars()[i].total()),
        forall|i: int| #[trigger] w.accepts_all(i, n, ty, len) ==> (forall|j: int| 0 <= j < w.vars().len() && (#[trigger] w.vars()[j]).name@ == n ==> j == i)
            && w.vars()[i].wf() && w.vars()[i].rlen() <= usize::MAX && w.header_def->0.lay().h + begin_rel(w.vars(), i) >= 0 && (w.header_def->0.data_set.unlimited_dim is None ==> w.vars()[i].nrecs() == 1) && w.vars()[i].nrecs() >= 0,
{
    if w.defined() {
        lemma_lay_ok(w.header_def->0);
        assert forall|i: int| 0 <= i < w.vars().len() implies (#[trigger] w.vars()[i]).wf() && w.vars()[i].rlen() <= usize::MAX && w.vars()[i].total() <= usize::MAX by { lemma_rsize_nonneg(w.vars()[i]); }
    }
    assert forall|i: int| #[trigger] w.accepts_all(i, n, ty, len) implies (forall|j: int| 0 <= j < w.vars().len() && (#[trigger] w.vars()[j]).name@ == n ==> j == i)
            && w.vars()[i].wf() && w.vars()[i].rlen() <= usize::MAX && w.header_def->0.lay().h + begin_rel(w.vars(), i) >= 0 && (w.header_def->0.data_set.unlimited_dim is None ==> w.vars()[i].nrecs() == 1) && w.vars()[i].nrecs() >= 0 by {
        let v = w.vars();
        if v[i].is_rec() { lemma_num_recs(*w.header_def->0.data_set, i); }
        lemma_rsize_nonneg(v[i]);
        lemma_sums_mono(v, 0, v.len() as int);
        lemma_sums_mono(v, i, v.len() as int);
        assert(v.take(v.len() as int) =~= v);
    }
}
@for T,n in i8:1 u8:1 i16:2 i32:4 f32:4 f64:8
/// one more record of a variable, and the whole of one that has a single record
pub proof fn lemma_var_step_%T%(w: FileWriter, n: Seq<char>, ty: DataType, i: int, r: int, d: Seq<%T%>, b: Seq<u8>)
    requires w.inv(), w.accepts_all(i, n, ty, d.len() as int), 0 <= r < w.vars()[i].nrecs(), stored(w.lay(), w.bytes(), b, var_recs_%T%(i, w.vars()[i].rlen(), d, r)),
        ty.esize() == %n%,
    ensures ({
        let rl = w.vars()[i].rlen();
        let c = d.subrange(r * rl, (r + 1) * rl);
        &&& stored(w.lay(), w.bytes(), put_data(b, rec_at(w.lay(), i, r), chunk_%T%(c)), var_recs_%T%(i, rl, d, r + 1))
        &&& spoiled(w.lay(), w.bytes(), b, any_rec(i)) && fails_as(w.lay(), w.bytes(), b, i, r, any_rec(i))
        &&& chunk_%T%(c).len() == w.vars()[i].rsize()
        &&& w.vars()[i].nrecs() == 1 ==> c == d
    }),
{
    lemma_var_rec(w, n, ty, d.len() as int, i, r);
    let rl = w.vars()[i].rlen();
    let c = d.subrange(r * rl, (r + 1) * rl);
    assert(within(var_recs_%T%(i, rl, d, r), any_rec(i))) by { reveal(within); }
    lemma_failed(w.lay(), w.bytes(), b, var_recs_%T%(i, rl, d, r), i, r, any_rec(i));
    lemma_chunk_len_%T%(c);
    lemma_stored_put(w.lay(), w.bytes(), b, var_recs_%T%(i, rl, d, r), i, r, chunk_%T%(c));
    lemma_var_recs_%T%(i, rl, d, r);
    if w.vars()[i].nrecs() == 1 { assert(c =~= d); }
}
@endfor
// ---------------------------------------------------------------- C11: closing
pub open spec fn fill_of(v: Variable) -> Seq<u8> {
    match v.data_type { DataType::I8 => fill_i8(v.rlen()), DataType::U8 => fill_u8(v.rlen()), DataType::I16 => fill_i16(v.rlen()), DataType::I32 => fill_i32(v.rlen()), DataType::F32 => fill_f32(v.rlen()), DataType::F64 => fill_f64(v.rlen()) }
}
impl<'a> FileWriter<'a> {
    /// the fill values of every record not written
    pub open spec fn fills(self) -> Recs { |i: int, r: int| if is_rec_of(self.lay(), i, r) && !self.is_written(i, r) { Some(fill_of(self.vars()[i])) } else { None } }
    pub open spec fn not_written(self) -> spec_fn(int, int) -> bool { |i: int, r: int| !self.is_written(i, r) }
    /// u lists the records of variable i that are not written
    pub open spec fn lists_unwritten(self, i: int, u: Seq<usize>) -> bool {
        &&& forall|k: int| 0 <= k < u.len() ==> is_rec_of(self.lay(), i, (#[trigger] u[k]) as int) && !self.is_written(i, u[k] as int)
        &&& forall|r: int| is_rec_of(self.lay(), i, r) && !#[trigger] self.is_written(i, r) ==> u.contains(r as usize)
    }
    /// what is listed: all of the first k variables, and the first m of the next
    pub open spec fn filled(self, nw: Seq<(&Variable, Vec<usize>)>, k: int, m: int) -> Recs {
        |i: int, r: int| if is_rec_of(self.lay(), i, r) && i < nw.len() && (i < k && nw[i].1@.contains(r as usize) || i == k && nw[i].1@.take(m).contains(r as usize)) { Some(fill_of(self.vars()[i])) } else { None }
    }
}
#[verifier::opaque]
pub open spec fn all_unwritten(w: FileWriter, nw: Seq<(&Variable, Vec<usize>)>, n: int) -> bool {
    nw.len() == n && forall|j: int| 0 <= j < nw.len() ==> *(#[trigger] nw[j]).0 == w.vars()[j] && w.lists_unwritten(j, nw[j].1@)
}
pub proof fn lemma_fill_step(w: FileWriter, nw: Seq<(&Variable, Vec<usize>)>, k: int, m: int, b: Seq<u8>)
    requires w.inv(), w.defined(), all_unwritten(w, nw, w.vars().len() as int), 0 <= k < nw.len(), 0 <= m < nw[k].1@.len(), stored(w.lay(), w.bytes(), b, w.filled(nw, k, m)), fill_of(w.vars()[k]).len() == w.vars()[k].rsize(),
    ensures stored(w.lay(), w.bytes(), put_data(b, rec_at(w.lay(), k, nw[k].1@[m] as int), fill_of(w.vars()[k])), w.filled(nw, k, m + 1)), is_rec_of(w.lay(), k, nw[k].1@[m] as int),
        spoiled(w.lay(), w.bytes(), b, w.not_written()), fails_as(w.lay(), w.bytes(), b, k, nw[k].1@[m] as int, w.not_written()),
{
    lemma_lay_ok(w.header_def->0);
    lemma_filled_within(w, nw, k, m);
    reveal(all_unwritten);
    let u = nw[k].1@;
    let r = u[m] as int;
    assert(w.lists_unwritten(k, u));
    lemma_failed(w.lay(), w.bytes(), b, w.filled(nw, k, m), k, r, w.not_written());
    lemma_stored_put(w.lay(), w.bytes(), b, w.filled(nw, k, m), k, r, fill_of(w.vars()[k]));
    let m2 = then_recs(w.filled(nw, k, m), one_rec(k, r, fill_of(w.vars()[k])));
    assert forall|i: int, q: int| #[trigger] m2(i, q) == w.filled(nw, k, m + 1)(i, q) by {
        if i == k && is_rec_of(w.lay(), i, q) {
            let x = q as usize;
            if u.take(m).contains(x) { let t = u.take(m); let z = choose|z: int| 0 <= z < t.len() && #[trigger] t[z] == x; assert(u.take(m + 1)[z] == x); }
            if u.take(m + 1).contains(x) && x != u[m] { let t = u.take(m + 1); let z = choose|z: int| 0 <= z < t.len() && #[trigger] t[z] == x; assert(u.take(m)[z] == x); }
            if x == u[m] { assert(u.take(m + 1)[m] == x); }
        }
    }
    assert(m2 =~= w.filled(nw, k, m + 1));
}
pub proof fn lemma_filled_within(w: FileWriter, nw: Seq<(&Variable, Vec<usize>)>, k: int, m: int)
    requires w.inv(), w.defined(), all_unwritten(w, nw, w.vars().len() as int), 0 <= k <= nw.len(), 0 <= m, k < nw.len() ==> m <= nw[k].1@.len()
    ensures within(w.filled(nw, k, m), w.not_written())
{
    reveal(within); reveal(all_unwritten);
    assert forall|i: int, q: int| (#[trigger] w.filled(nw, k, m)(i, q)) is Some implies w.not_written()(i, q) by {
        assert(w.lists_unwritten(i, nw[i].1@));
        let u = nw[i].1@;
        let x = q as usize;
        if i == k { let t = u.take(m); let z = choose|z: int| 0 <= z < t.len() && #[trigger] t[z] == x; assert(u[z] == x); }
        else { let z = choose|z: int| 0 <= z < u.len() && #[trigger] u[z] == x; assert(u[z] == x); }
    }
}
/// all of a variable is filled: the next one
pub proof fn lemma_fill_next(w: FileWriter, nw: Seq<(&Variable, Vec<usize>)>, k: int)
    requires w.inv(), w.defined(), all_unwritten(w, nw, w.vars().len() as int), 0 <= k < nw.len()
    ensures w.filled(nw, k, nw[k].1@.len() as int) == w.filled(nw, k + 1, 0)
{
    let u = nw[k].1@;
    assert(u.take(u.len() as int) =~= u);
    let a = w.filled(nw, k, u.len() as int);
    let b = w.filled(nw, k + 1, 0);
    assert forall|i: int, q: int| #[trigger] a(i, q) == b(i, q) by { if 0 <= i < nw.len() { assert(nw[i].1@.take(0) =~= Seq::empty()); } }
    assert(a =~= b);
}
pub proof fn lemma_fill_ends(w: FileWriter, nw: Seq<(&Variable, Vec<usize>)>)
    requires w.inv(), w.defined(), all_unwritten(w, nw, w.vars().len() as int)
    ensures w.filled(nw, 0, 0) == no_recs(), w.filled(nw, nw.len() as int, 0) == w.fills(), stored(w.lay(), w.bytes(), w.bytes(), w.filled(nw, 0, 0)), lay_ok(w.lay())
{
    reveal(all_unwritten);
    lemma_lay_ok(w.header_def->0);
    lemma_stored_none(w.lay(), w.bytes());
    let a = w.filled(nw, 0, 0);
    assert forall|i: int, q: int| #[trigger] a(i, q) == no_recs()(i, q) by { if nw.len() > 0 { assert(nw[0].1@.take(0) =~= Seq::empty()); } }
    assert(a =~= no_recs());
    let b = w.filled(nw, nw.len() as int, 0);
    assert forall|i: int, q: int| #[trigger] b(i, q) == w.fills()(i, q) by {
        if is_rec_of(w.lay(), i, q) {
            assert(w.lists_unwritten(i, nw[i].1@));
            let u = nw[i].1@;
            let x = q as usize;
            w.vars()[i].nrecs_fits();
            if u.contains(x) { let z = choose|z: int| 0 <= z < u.len() && #[trigger] u[z] == x; assert(!w.is_written(i, u[z] as int)); }
        }
    }
    assert(b =~= w.fills());
}
impl Variable {
    pub proof fn nrecs_fits(self) ensures self.nrecs() <= usize::MAX { }
}
pub proof fn lemma_fill_len(v: Variable)
    requires v.wf()
    ensures fill_of(v).len() == v.rsize()
{
    lemma_rsize_nonneg(v);
    lemma_fillv_i8(v.rlen()); lemma_chunk_len_i8(fillv_i8(v.rlen())); lemma_fillv_u8(v.rlen()); lemma_chunk_len_u8(fillv_u8(v.rlen())); lemma_fillv_i16(v.rlen()); lemma_chunk_len_i16(fillv_i16(v.rlen()));
    lemma_fillv_i32(v.rlen()); lemma_chunk_len_i32(fillv_i32(v.rlen())); lemma_fillv_f32(v.rlen()); lemma_chunk_len_f32(fillv_f32(v.rlen())); lemma_fillv_f64(v.rlen()); lemma_chunk_len_f64(fillv_f64(v.rlen()));
}
/// what the records not listed as written are
pub proof fn lemma_unwritten(w: FileWriter, i: int, all: Set<usize>, sel: Set<usize>, u: Seq<usize>, wr: Option<Set<usize>>)
    requires w.inv(), w.defined(), 0 <= i < w.vars().len(), forall|x: usize| #[trigger] all.contains(x) <==> x < w.vars()[i].nrecs(),
        match wr { None => forall|k: int| 0 <= k < w.written_records@.len() ==> (#[trigger] w.written_records@[k]).0.name@ != w.vars()[i].name@,
            Some(s) => exists|k: int| 0 <= k < w.written_records@.len() && (#[trigger] w.written_records@[k]).0.name@ == w.vars()[i].name@ && w.written_records@[k].1@ == s },
        forall|k: int| 0 <= k < u.len() ==> all.contains(#[trigger] u[k]) && !(wr is Some && wr->0.contains(u[k])),
        sel == (match wr { None => all, Some(s) => all.difference(s) }),
        forall|x: usize| #[trigger] sel.contains(x) ==> exists|k: int| 0 <= k < u.len() && #[trigger] u[k] == x,
    ensures w.lists_unwritten(i, u)
{
    let nm = w.vars()[i].name@;
    assert forall|r: int| is_rec_of(w.lay(), i, r) implies #[trigger] w.is_written(i, r) == (wr is Some && wr->0.contains(r as usize)) by {
        w.vars()[i].nrecs_fits();
        assert(all.contains(r as usize));
        if w.is_written(i, r) {
            let k = choose|k: int| 0 <= k < w.written_records@.len() && (#[trigger] w.written_records@[k]).0.name@ == nm && 0 <= r <= usize::MAX && w.written_records@[k].1@.contains(r as usize);
            if let Some(s) = wr {
                let k2 = choose|k: int| 0 <= k < w.written_records@.len() && (#[trigger] w.written_records@[k]).0.name@ == nm && w.written_records@[k].1@ == s;
                if k < k2 { assert(w.written_records@[k].0.name@ != w.written_records@[k2].0.name@); }
                if k2 < k { assert(w.written_records@[k2].0.name@ != w.written_records@[k].0.name@); }
            }
        }
    }
    assert forall|k: int| 0 <= k < u.len() implies is_rec_of(w.lay(), i, (#[trigger] u[k]) as int) && !w.is_written(i, u[k] as int) by { assert(u.contains(u[k])); assert(all.contains(u[k])); }
    assert forall|r: int| is_rec_of(w.lay(), i, r) && !#[trigger] w.is_written(i, r) implies u.contains(r as usize) by { w.vars()[i].nrecs_fits(); assert(all.contains(r as usize)); assert(sel.contains(r as usize)); }
}
pub proof fn lemma_sums_ok(d: HeaderDefinition, i: int)
    requires d.wf(), 0 <= i < d.data_set.vars@.len()
    ensures d.lay().h + begin_rel(d.data_set.vars@, i) >= 0, d.data_set.vars@[i].wf(), d.data_set.vars@[i].rlen() <= usize::MAX, vhas(d.data_set.vars@, d.data_set.vars@[i].name@),
        forall|j: int| 0 <= j < d.data_set.vars@.len() && (#[trigger] d.data_set.vars@[j]).name@ == d.data_set.vars@[i].name@ ==> j == i,
{
    let v = d.data_set.vars@;
    lemma_rsize_nonneg(v[i]);
    lemma_sums_mono(v, 0, v.len() as int);
    lemma_sums_mono(v, i, v.len() as int);
    assert(v.take(v.len() as int) =~= v);
}
// ---------------------------------------------------------------- C10, C11: histories
/// w comes from w0 by the successful writes whose last values per record are m
pub open spec fn hist(w0: FileWriter, w: FileWriter, m: Recs) -> bool { w0.inv() && w.wrote(w0, m) }
pub proof fn lemma_hist_start(w: FileWriter)
    requires w.inv(), w.defined()
    ensures hist(w, w, no_recs())
{ lemma_stored_none(w.lay(), w.bytes()); }
/// one more successful write (any of the twelve): its values replace or join the others
pub proof fn lemma_hist_write(w0: FileWriter, w: FileWriter, w1: FileWriter, m: Recs, m1: Recs)
    requires w0.defined(), hist(w0, w, m), w1.wrote(w, m1)
    ensures hist(w0, w1, then_recs(m, m1))
{
    lemma_lay_ok(w0.header_def->0);
    lemma_stored_then(w0.lay(), w0.bytes(), w.bytes(), w1.bytes(), m, m1);
    let m2 = then_recs(m, m1);
    assert forall|i: int, r: int| w1.is_written(i, r) <==> w0.is_written(i, r) || (#[trigger] m2(i, r)) is Some by { assert(w.is_written(i, r) <==> w0.is_written(i, r) || m(i, r) is Some); assert(w1.is_written(i, r) <==> w.is_written(i, r) || m1(i, r) is Some); }
    assert forall|i: int, r: int| #[trigger] w1.is_written(i, r) <==> w0.is_written(i, r) || m2(i, r) is Some by { assert(m2(i, r) is Some || !(m2(i, r) is Some)); }
}
/// C12: a refused write leaves everything as it is
pub proof fn lemma_hist_refused(w0: FileWriter, w: FileWriter, w1: FileWriter, m: Recs)
    requires w0.defined(), hist(w0, w, m), w1.unchanged(w)
    ensures hist(w0, w1, m)
{ }
/// a file made of the header and of all the records
pub open spec fn complete(l: Lay, f: Seq<u8>, hdr: Seq<u8>, m: Recs) -> bool {
    &&& f.len() == data_end(l)
    &&& hdr.len() == l.h && forall|p: int| 0 <= p < l.h ==> #[trigger] f[p] == hdr[p]
    &&& forall|i: int, r: int| is_rec_of(l, i, r) ==> (#[trigger] m(i, r)) is Some && has_at(f, rec_at(l, i, r), m(i, r)->0) && m(i, r)->0.len() == l.v[i].rsize()
}
/// what the records hold in the end
pub open spec fn final_recs(l: Lay, m: Recs) -> Recs { |i: int, r: int| if is_rec_of(l, i, r) { if m(i, r) is Some { m(i, r) } else { Some(fill_of(l.v[i])) } } else { None } }
/// C11: after any writes, closing leaves the header and every record: the last values written, or the fill values
pub proof fn lemma_closed(w0: FileWriter, w: FileWriter, m: Recs, f: Seq<u8>)
    requires w0.inv(), w0.defined(), w0.written_records@.len() == 0, w0.bytes() == header_bytes(w0.header_def->0), hist(w0, w, m), stored(w.lay(), w.bytes(), f, w.fills())
    ensures complete(w0.lay(), f, header_bytes(w0.header_def->0), final_recs(w0.lay(), m))
{
    let d = w0.header_def->0;
    let l = w0.lay();
    let hdr = header_bytes(d);
    lemma_lay_ok(d);
    lemma_header_parts(d);
    lemma_stored_then(l, w0.bytes(), w.bytes(), f, m, w.fills());
    let a = then_recs(m, w.fills());
    let b = final_recs(l, m);
    reveal(stored);
    assert forall|i: int, r: int| is_rec_of(l, i, r) implies (#[trigger] b(i, r)) is Some && has_at(f, rec_at(l, i, r), b(i, r)->0) && b(i, r)->0.len() == l.v[i].rsize() && b(i, r) == a(i, r) by {
        assert(w.is_written(i, r) <==> w0.is_written(i, r) || m(i, r) is Some);
        assert(!w0.is_written(i, r));
        assert(a(i, r) is Some);
    }
    assert forall|p: int| 0 <= p < l.h implies #[trigger] f[p] == hdr[p] by {
        assert(outside(l, a, p)) by { assert forall|i: int, r: int| (#[trigger] a(i, r)) is Some implies !in_rec(l, i, r, p) by { lemma_rec_in(l, i, r); } }
    }
    lemma_data_end(l);
    if data_end(l) > l.h {
        let (i, r) = lemma_recs_cover(l, data_end(l) - 1);
        lemma_rec_in(l, i, r);
        assert(b(i, r) is Some);
    }
    if f.len() != l.h {
        let (i, r) = choose|i: int, r: int| (#[trigger] a(i, r)) is Some && f.len() == rec_end(l, i, r);
        lemma_rec_in(l, i, r);
    }
}
pub proof fn lemma_data_end(l: Lay)
    requires lay_ok(l)
    ensures data_end(l) >= l.h
{
    reveal(lay_ok);
    lemma_sums_mono(l.v, 0, l.v.len() as int);
    assert(l.v.take(l.v.len() as int) =~= l.v);
    lemma_mul_le(0, l.n, rec_size(l.v));
}
/// C11: the closed file is determined by the definition and the values of the records: order and repetition of the writes do not matter
pub proof fn lemma_complete_unique(l: Lay, f: Seq<u8>, g: Seq<u8>, hdr: Seq<u8>, m: Recs)
    requires lay_ok(l), complete(l, f, hdr, m), complete(l, g, hdr, m)
    ensures f == g
{
    assert forall|p: int| 0 <= p < f.len() implies f[p] == g[p] by {
        if p >= l.h {
            let (i, r) = lemma_recs_cover(l, p);
            let z = rec_at(l, i, r);
            let c = m(i, r)->0;
            assert(f.subrange(z, z + c.len())[p - z] == c[p - z]);
            assert(g.subrange(z, z + c.len())[p - z] == c[p - z]);
        } else { assert(f[p] == hdr[p]); assert(g[p] == hdr[p]); }
    }
    assert(f =~= g);
}
