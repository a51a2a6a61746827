// ---------------------------------------------------------------- C17: reading records
impl vstd::std_specs::convert::FromSpecImpl<IoError> for ReadError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Self { ReadError::IOErrorKind(v.skind()) }
}
impl vstd::std_specs::convert::FromSpecImpl<InvalidDataSet> for ReadError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidDataSet) -> Self { ReadError::DataSet(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<ParseHeaderError> for ReadError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseHeaderError) -> Self { ReadError::ParseHeader(v) }
}
/// the ? operator converts an error with From::from
pub broadcast axiom fn axiom_rquestion_io(v: IoError, r: ReadError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ReadError, IoError>(v, r) ==> r == ReadError::IOErrorKind(v.skind());
pub broadcast axiom fn axiom_rquestion_ds(v: InvalidDataSet, r: ReadError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ReadError, InvalidDataSet>(v, r) ==> r == ReadError::DataSet(v);
pub broadcast axiom fn axiom_rquestion_ph(v: ParseHeaderError, r: ReadError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<ReadError, ParseHeaderError>(v, r) ==> r == ReadError::ParseHeader(v);
pub broadcast group group_read { axiom_alloc_slice, axiom_alloc_vec, axiom_alloc_file, axiom_rquestion_io, axiom_rquestion_ds, axiom_rquestion_ph }

/// sizes the offsets of a file can hold
pub open spec fn fits(ds: DataSet) -> bool {
    &&& forall|i: int| 0 <= i < ds.vars@.len() ==> (#[trigger] ds.vars@[i]).rsize() <= i64::MAX
    &&& rec_size(ds.vars@) <= i64::MAX
    &&& num_recs(ds) * rec_size(ds.vars@) <= i64::MAX
}
pub open spec fn infos_ok(ds: DataSet, vi: Seq<VariableParsedMetadata>) -> bool {
    &&& vi.len() == ds.vars@.len()
    &&& forall|i: int| 0 <= i < vi.len() ==> (#[trigger] vi[i]).name@ == ds.vars@[i].name@ && vi[i].begin_offset.val() >= 0
}
/// what is read of a file
pub struct RLay { pub v: Seq<Variable>, pub b: Seq<VariableParsedMetadata>, pub d: Seq<u8> }
impl RLay {
    pub open spec fn at(self, i: int, r: int) -> int { self.b[i].begin_offset.val() + r * rec_size(self.v) }
    pub open spec fn nbytes(self, i: int) -> int { self.v[i].rlen() * self.v[i].data_type.esize() }
    /// record r of variable i is all in the file
    pub open spec fn has_rec(self, i: int, r: int) -> bool { self.at(i, r) + self.nbytes(i) <= self.d.len() }
    pub open spec fn is_var(self, i: int, n: Seq<char>) -> bool { 0 <= i < self.v.len() && self.v[i].name@ == n }
}
/// the values a..b as bytes
pub open spec fn part(d: DataVector, a: int, b: int) -> Seq<u8> {
    match d { DataVector::I8(v) => be_all_i8(v@.subrange(a, b)), DataVector::U8(v) => be_all_u8(v@.subrange(a, b)), DataVector::I16(v) => be_all_i16(v@.subrange(a, b)),
        DataVector::I32(v) => be_all_i32(v@.subrange(a, b)), DataVector::F32(v) => be_all_f32(v@.subrange(a, b)), DataVector::F64(v) => be_all_f64(v@.subrange(a, b)) }
}
/// record r of the values of variable i
pub open spec fn rec_part(l: RLay, i: int, d: DataVector, r: int) -> Seq<u8> { part(d, r * l.v[i].rlen(), (r + 1) * l.v[i].rlen()) }
/// d holds the first k records of variable i
#[verifier::opaque]
pub open spec fn holds_recs(l: RLay, i: int, d: DataVector, k: int) -> bool {
    &&& d.dtype() == l.v[i].data_type
    &&& forall|r: int| 0 <= r < k ==> #[trigger] holds_rec(l, i, d, r)
}
pub open spec fn holds_rec(l: RLay, i: int, d: DataVector, r: int) -> bool { l.has_rec(i, r) && rec_part(l, i, d, r) == bytes_at(l.d, l.at(i, r), l.nbytes(i)) }
/// d is the whole of variable i
pub open spec fn is_all(l: RLay, i: int, d: DataVector) -> bool { d.dtype() == l.v[i].data_type && d.vlen() == l.v[i].total() && holds_recs(l, i, d, l.v[i].nrecs()) }
/// d is record r of variable i
pub open spec fn is_one(l: RLay, i: int, r: int, d: DataVector) -> bool {
    &&& d.dtype() == l.v[i].data_type && d.vlen() == l.v[i].rlen()
    &&& l.has_rec(i, r) && enc_values(d) == bytes_at(l.d, l.at(i, r), l.nbytes(i))
}
impl FileReader {
    pub open spec fn lay(self) -> RLay { RLay { v: self.data_set.vars@, b: self.vars_info@, d: self.input_file.out().data } }
    pub open spec fn inv(self) -> bool { self.data_set.wf() && fits(self.data_set) && infos_ok(self.data_set, self.vars_info@) && self.input_file.out().data.len() <= i64::MAX }
    /// nothing but the position in the file differs
    pub open spec fn same(self, o: Self) -> bool {
        &&& self.data_set == o.data_set && self.version == o.version && self.input_file_path == o.input_file_path && self.vars_info == o.vars_info
        &&& self.input_file.same_file(o.input_file)
    }
    /// every position the reads of variable i go to is one the file system has
    pub open spec fn reachable(self, i: int) -> bool {
        self.input_file.sound() && self.lay().b[i].begin_offset.val() + imax(self.lay().v[i].rsize(), self.lay().v[i].nrecs() * rec_size(self.lay().v)) <= self.input_file.max_pos()
    }
    pub open spec fn e_read(self, n: Seq<char>, e: ReadError) -> bool {
        match e {
            ReadError::VariableNotDefined(x) => x@ == n && !self.data_set.hv(n),
            _ => false,
        }
    }
    pub open spec fn e_type(self, n: Seq<char>, t: DataType, e: ReadError) -> bool {
        match e {
            ReadError::VariableMismatchDataType{var_name, req, get} => var_name@ == n && get == t && t != req && exists|i: int| #[trigger] self.lay().is_var(i, n) && self.lay().v[i].data_type == req,
            _ => false,
        }
    }
    pub open spec fn e_index(self, n: Seq<char>, r: int, e: ReadError) -> bool {
        match e {
            ReadError::RecordIndexExceeded{index, num_records} => index == r && exists|i: int| #[trigger] self.lay().is_var(i, n) && self.lay().v[i].nrecs() == num_records && r >= num_records,
            _ => false,
        }
    }
    /// an input error is a failed call or missing data
    pub open spec fn e_io_all(self, n: Seq<char>, e: ReadError) -> bool {
        e is IOErrorKind && exists|i: int| #[trigger] self.lay().is_var(i, n) && (self.reachable(i) ==> exists|r: int| 0 <= r < self.lay().v[i].nrecs() && !#[trigger] self.lay().has_rec(i, r))
    }
    pub open spec fn e_io_one(self, n: Seq<char>, r: int, e: ReadError) -> bool {
        e is IOErrorKind && exists|i: int| #[trigger] self.lay().is_var(i, n) && (self.reachable(i) ==> !self.lay().has_rec(i, r))
    }
}
pub proof fn lemma_fit(ds: DataSet, i: int)
    requires ds.wf(), fits(ds), 0 <= i < ds.vars@.len()
    ensures ds.vars@[i].wf(), ds.vars@[i].sizes_ok(), ds.sizes_ok(), num_recs(ds) >= 0, rec_size(ds.vars@) >= 0,
        1 <= ds.vars@[i].data_type.esize() <= 8,
        1 <= ds.vars@[i].rlen() <= ds.vars@[i].rlen() * ds.vars@[i].data_type.esize() <= ds.vars@[i].rsize() <= i64::MAX,
        ds.vars@[i].rsize() == ds.vars@[i].rlen() * ds.vars@[i].data_type.esize() + pad4(ds.vars@[i].rlen() * ds.vars@[i].data_type.esize()),
        0 <= ds.vars@[i].total() <= i64::MAX, ds.vars@[i].nrecs() >= 0,
        0 <= ds.vars@[i].total() * ds.vars@[i].data_type.esize() <= i64::MAX,
        ds.vars@[i].is_rec() ==> ds.unlimited_dim is Some && ds.vars@[i].nrecs() == num_recs(ds) && ds.vars@[i].rsize() <= rec_size(ds.vars@),
        ds.vars@[i].nrecs() * rec_size(ds.vars@) >= 0,
        ds.vars@[i].is_rec() ==> ds.vars@[i].nrecs() * rec_size(ds.vars@) <= i64::MAX,
        !ds.vars@[i].is_rec() ==> ds.vars@[i].nrecs() == 1 && ds.vars@[i].total() == ds.vars@[i].rlen(),
{
    let v = ds.vars@[i];
    assert forall|k: int| 0 <= k < ds.vars@.len() implies (#[trigger] ds.vars@[k]).sizes_ok() && ds.vars@[k].wf() && ds.vars@[k].rsize() >= 0 by {
        lemma_fit_var(ds, k);
    }
    lemma_fit_var(ds, i);
    lemma_rec_size_mono(ds.vars@, 0);
    assert(v.nrecs() * rec_size(ds.vars@) >= 0) by (nonlinear_arith) requires v.nrecs() >= 0, rec_size(ds.vars@) >= 0;
}
pub proof fn lemma_fit_var(ds: DataSet, i: int)
    requires ds.wf(), fits(ds), 0 <= i < ds.vars@.len()
    ensures ds.vars@[i].wf(), ds.vars@[i].sizes_ok(), ds.vars@[i].rsize() >= 0,
        1 <= ds.vars@[i].rlen() <= ds.vars@[i].rlen() * ds.vars@[i].data_type.esize() <= ds.vars@[i].rsize() <= i64::MAX,
        0 <= ds.vars@[i].total() <= i64::MAX, 0 <= ds.vars@[i].total() * ds.vars@[i].data_type.esize() <= i64::MAX, ds.vars@[i].nrecs() >= 0,
        ds.vars@[i].is_rec() ==> ds.unlimited_dim is Some && ds.vars@[i].nrecs() == num_recs(ds) && ds.vars@[i].rsize() <= rec_size(ds.vars@),
{
    let v = ds.vars@[i];
    lemma_rsize_nonneg(v);
    let (n, rl, es, rs) = (v.nrecs(), v.rlen(), v.data_type.esize(), v.rsize());
    assert(rl <= rl * es) by (nonlinear_arith) requires rl >= 1, es >= 1;
    if v.is_rec() {
        lemma_num_recs(ds, i);
        assert forall|k: int| 0 <= k < ds.vars@.len() implies (#[trigger] ds.vars@[k]).rsize() >= 0 by { lemma_rsize_nonneg(ds.vars@[k]); }
        lemma_rec_size_mono(ds.vars@, i + 1);
        lemma_rec_size_mono(ds.vars@.take(i + 1), i);
        assert(ds.vars@.take(i + 1).drop_last() =~= ds.vars@.take(i));
        assert(ds.vars@.take(i + 1).take(i) =~= ds.vars@.take(i));
        assert(ds.vars@.take(i + 1).last() == v);
        let t = rec_size(ds.vars@);
        assert(rs <= t);
        assert(0 <= n * rl <= n * t && 0 <= (n * rl) * es <= n * t) by (nonlinear_arith) requires n >= 0, rl >= 1, es >= 1, rl * es <= rs, rs <= t, rl <= rl * es;
    } else {
        assert(n == 1);
        assert(n * rl == rl && (n * rl) * es == rl * es) by (nonlinear_arith) requires n == 1;
    }
}
pub proof fn lemma_be_u8_same(s: Seq<u8>)
    ensures be_all_u8(s) == s
    decreases s.len()
{ if s.len() > 0 { lemma_be_u8_same(s.drop_last()); assert(be_all_u8(s) =~= s); } else { assert(be_all_u8(s) =~= s); } }
pub proof fn lemma_enc_u8(d: DataVector)
    ensures d matches DataVector::U8(x) ==> enc_values(d) == x@, d.vlen() > 0 || d.vlen() == 0
{ match d { DataVector::U8(x) => { lemma_be_u8_same(x@); } _ => {} } }
pub proof fn lemma_part_u8(d: DataVector, a: int, b: int)
    ensures d matches DataVector::U8(x) ==> part(d, a, b) == x@.subrange(a, b)
{ match d { DataVector::U8(x) => { lemma_be_u8_same(x@.subrange(a, b)); } _ => {} } }
pub open spec fn kept_but<T>(x: Seq<T>, y: Seq<T>, a: int, b: int) -> bool { y.len() == x.len() && forall|j: int| 0 <= j < x.len() && !(a <= j < b) ==> #[trigger] y[j] == x[j] }
/// only the values a..b differ
pub open spec fn updated(d: DataVector, e: DataVector, a: int, b: int) -> bool {
    match (d, e) {
        (DataVector::I8(x), DataVector::I8(y)) => kept_but(x@, y@, a, b), (DataVector::U8(x), DataVector::U8(y)) => kept_but(x@, y@, a, b),
        (DataVector::I16(x), DataVector::I16(y)) => kept_but(x@, y@, a, b), (DataVector::I32(x), DataVector::I32(y)) => kept_but(x@, y@, a, b),
        (DataVector::F32(x), DataVector::F32(y)) => kept_but(x@, y@, a, b), (DataVector::F64(x), DataVector::F64(y)) => kept_but(x@, y@, a, b),
        _ => false,
    }
}
pub proof fn lemma_part_kept(d: DataVector, e: DataVector, a: int, b: int, p: int, q: int)
    requires updated(d, e, a, b), 0 <= p <= q <= a, q <= d.vlen()
    ensures part(e, p, q) == part(d, p, q)
{
    match (d, e) {
        (DataVector::I8(x), DataVector::I8(y)) => { assert(x@.subrange(p, q) =~= y@.subrange(p, q)); }
        (DataVector::U8(x), DataVector::U8(y)) => { assert(x@.subrange(p, q) =~= y@.subrange(p, q)); }
        (DataVector::I16(x), DataVector::I16(y)) => { assert(x@.subrange(p, q) =~= y@.subrange(p, q)); }
        (DataVector::I32(x), DataVector::I32(y)) => { assert(x@.subrange(p, q) =~= y@.subrange(p, q)); }
        (DataVector::F32(x), DataVector::F32(y)) => { assert(x@.subrange(p, q) =~= y@.subrange(p, q)); }
        (DataVector::F64(x), DataVector::F64(y)) => { assert(x@.subrange(p, q) =~= y@.subrange(p, q)); }
        _ => {}
    }
}
pub proof fn lemma_holds_none(l: RLay, i: int, d: DataVector)
    requires d.dtype() == l.v[i].data_type
    ensures holds_recs(l, i, d, 0)
{ reveal(holds_recs); }
pub proof fn lemma_holds_next(l: RLay, i: int, d: DataVector, e: DataVector, k: int)
    requires holds_recs(l, i, d, k), 0 <= k, l.v[i].rlen() >= 1, (k + 1) * l.v[i].rlen() <= d.vlen(),
        updated(d, e, k * l.v[i].rlen(), (k + 1) * l.v[i].rlen()), l.has_rec(i, k),
        part(e, k * l.v[i].rlen(), (k + 1) * l.v[i].rlen()) == bytes_at(l.d, l.at(i, k), l.nbytes(i)),
    ensures holds_recs(l, i, e, k + 1)
{
    reveal(holds_recs);
    let rl = l.v[i].rlen();
    assert(e.dtype() == d.dtype());
    assert forall|r: int| 0 <= r < k + 1 implies #[trigger] holds_rec(l, i, e, r) by {
        if r < k {
            assert(0 <= r * rl <= (r + 1) * rl && (r + 1) * rl <= k * rl && k * rl <= (k + 1) * rl) by (nonlinear_arith) requires 0 <= r < k, rl >= 1;
            lemma_part_kept(d, e, k * rl, (k + 1) * rl, r * rl, (r + 1) * rl);
            assert(holds_rec(l, i, d, r));
        } else { assert(r == k); assert(l.has_rec(i, r)); assert(rec_part(l, i, e, r) == part(e, k * rl, (k + 1) * rl)); }
    }
    assert(e.dtype() == l.v[i].data_type);
}
/// a variable with one record, read at once
pub proof fn lemma_holds_one(l: RLay, i: int, d: DataVector)
    requires l.v[i].nrecs() == 1, d.dtype() == l.v[i].data_type, d.vlen() == l.v[i].rlen(), l.has_rec(i, 0), enc_values(d) == bytes_at(l.d, l.at(i, 0), l.nbytes(i))
    ensures holds_recs(l, i, d, 1)
{
    reveal(holds_recs);
    let rl = l.v[i].rlen();
    assert forall|r: int| 0 <= r < 1 implies #[trigger] holds_rec(l, i, d, r) by {
        assert(r * rl == 0 && (r + 1) * rl == rl) by (nonlinear_arith) requires r == 0;
        lemma_part_all(d);
    }
}
pub proof fn lemma_part_all(d: DataVector)
    ensures part(d, 0, d.vlen() as int) == enc_values(d)
{
    match d {
        DataVector::I8(x) => { assert(x@.subrange(0, x@.len() as int) =~= x@); }
        DataVector::U8(x) => { assert(x@.subrange(0, x@.len() as int) =~= x@); }
        DataVector::I16(x) => { assert(x@.subrange(0, x@.len() as int) =~= x@); }
        DataVector::I32(x) => { assert(x@.subrange(0, x@.len() as int) =~= x@); }
        DataVector::F32(x) => { assert(x@.subrange(0, x@.len() as int) =~= x@); }
        DataVector::F64(x) => { assert(x@.subrange(0, x@.len() as int) =~= x@); }
    }
}
/// C17: one record is the slice of the whole variable (the same bytes)
pub proof fn lemma_record_is_slice(l: RLay, i: int, d: DataVector, r: int, e: DataVector)
    requires is_all(l, i, d), 0 <= r < l.v[i].nrecs(), is_one(l, i, r, e)
    ensures rec_part(l, i, d, r) == enc_values(e)
{ reveal(holds_recs); assert(holds_rec(l, i, d, r)); }
/// the last record in the file: all of them are, and the file is not smaller than the values
pub proof fn lemma_last_rec(l: RLay, i: int, n: int)
    requires n == l.v[i].nrecs(), n > 0, l.has_rec(i, n - 1), rec_size(l.v) >= 0, n > 1 ==> l.nbytes(i) <= rec_size(l.v), l.b[i].begin_offset.val() >= 0
    ensures forall|r: int| 0 <= r < n ==> #[trigger] l.has_rec(i, r), n * l.nbytes(i) <= l.d.len(), (n * l.v[i].rlen()) * l.v[i].data_type.esize() <= l.d.len()
{
    let rs = rec_size(l.v); let nb = l.nbytes(i);
    assert forall|r: int| 0 <= r < n implies #[trigger] l.has_rec(i, r) by {
        assert(r * rs <= (n - 1) * rs) by (nonlinear_arith) requires 0 <= r <= n - 1, rs >= 0;
    }
    assert(n * nb <= (n - 1) * rs + nb) by (nonlinear_arith) requires n >= 1, n > 1 ==> nb <= rs, rs >= 0;
    let (a, b) = (l.v[i].rlen(), l.v[i].data_type.esize());
    assert((n * a) * b == n * (a * b)) by (nonlinear_arith);
}
/// the first k variables and nothing else
#[verifier::opaque]
pub open spec fn read_some(l: RLay, m: spec_fn(Seq<char>) -> Option<DataVector>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> (m(#[trigger] l.v[i].name@) matches Some(d) && is_all(l, i, d))
    &&& forall|n: Seq<char>| (#[trigger] m(n)) is Some ==> exists|i: int| 0 <= i < k && #[trigger] l.is_var(i, n)
}
/// every variable and nothing else
pub open spec fn read_all(l: RLay, m: spec_fn(Seq<char>) -> Option<DataVector>) -> bool { read_some(l, m, l.v.len() as int) }
pub proof fn lemma_is_var_one(ds: DataSet, l: RLay, k: int, n: Seq<char>)
    requires ds.wf(), l.v == ds.vars@, l.is_var(k, n)
    ensures forall|i: int| #[trigger] l.is_var(i, n) ==> i == k
{
    assert forall|i: int| #[trigger] l.is_var(i, n) implies i == k by {
        let v = ds.vars@;
        assert(vars_wf(v, ds.dims@));
        assert(v[i].name@ == n && v[k].name@ == n);
        if i < k { assert(v[i].name@ != v[k].name@); }
        if k < i { assert(v[k].name@ != v[i].name@); }
    }
}
pub proof fn lemma_read_some(ds: DataSet, l: RLay, m0: spec_fn(Seq<char>) -> Option<DataVector>, m1: spec_fn(Seq<char>) -> Option<DataVector>, k: int, d: DataVector)
    requires ds.wf(), l.v == ds.vars@, 0 <= k < l.v.len(), read_some(l, m0, k), is_all(l, k, d),
        forall|n: Seq<char>| #[trigger] m1(n) == if n == l.v[k].name@ { Some(d) } else { m0(n) },
    ensures read_some(l, m1, k + 1)
{
    reveal(read_some);
    assert forall|i: int| 0 <= i < k + 1 implies (m1(#[trigger] l.v[i].name@) matches Some(d) && is_all(l, i, d)) by {
        if i < k { assert(m0(l.v[i].name@) is Some); if l.v[i].name@ == l.v[k].name@ { assert(l.is_var(i, l.v[i].name@)); lemma_is_var_one(ds, l, k, l.v[k].name@); } }
    }
    assert forall|n: Seq<char>| (#[trigger] m1(n)) is Some implies exists|i: int| 0 <= i < k + 1 && #[trigger] l.is_var(i, n) by {
        if n == l.v[k].name@ { assert(l.is_var(k, n)); } else { assert(m0(n) is Some); let i = choose|i: int| 0 <= i < k && #[trigger] l.is_var(i, n); assert(l.is_var(i, n)); }
    }
}
