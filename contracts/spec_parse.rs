// ---------------------------------------------------------------- the header as the format defines it (C15)
pub broadcast proof fn lemma_skip_skip(b: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= b.len()
    ensures #[trigger] b.skip(i).skip(j) == b.skip(i + j)
{ assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
pub broadcast proof fn lemma_skip_len(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures (#[trigger] b.skip(i)).len() == b.len() - i
{ }
pub broadcast group group_parse { lemma_skip_skip, lemma_skip_len, axiom_utf8_inverse }
pub open spec fn all_zero(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0 }
pub open spec fn d_zeros(b: Seq<u8>, n: int) -> PR<()> { if b.len() < n { PR::Inc } else if all_zero(b.take(n)) { PR::Ok((), n) } else { PR::Bad } }
/// a count
pub open spec fn d_len(b: Seq<u8>) -> PR<int> { if b.len() < 4 { PR::Inc } else if un32(b) > i32::MAX { PR::Bad } else { PR::Ok(un32(b), 4) } }
/// a count or the mark of an indeterminate one
pub open spec fn d_optlen(b: Seq<u8>) -> PR<Option<int>> {
    if b.len() < 4 { PR::Inc } else if un32(b) <= i32::MAX { PR::Ok(Some(un32(b)), 4) } else if un32(b) == u32::MAX { PR::Ok(None, 4) } else { PR::Bad }
}
pub open spec fn d_str(b: Seq<u8>, n: int) -> PR<Seq<char>> { if b.len() < n { PR::Inc } else if is_utf8(b.take(n)) { PR::Ok(from_utf8(b.take(n)), n) } else { PR::Bad } }
pub open spec fn d_name(b: Seq<u8>) -> PR<Seq<char>> {
    let l = d_len(b);
    let s = d_str(b.skip(l.n()), l.x());
    let z = d_zeros(b.skip(l.n() + s.n()), pad4(l.x()));
    match l.and(s).and(z) { PR::Ok(((_, x), _), n) => PR::Ok(x, n), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
pub open spec fn type_of(c: int) -> Option<DataType> {
    if c == 1 { Some(DataType::I8) } else if c == 2 { Some(DataType::U8) } else if c == 3 { Some(DataType::I16) } else if c == 4 { Some(DataType::I32) } else if c == 5 { Some(DataType::F32) } else if c == 6 { Some(DataType::F64) } else { None }
}
pub open spec fn d_type(b: Seq<u8>) -> PR<DataType> {
    match d_len(b) { PR::Ok(c, n) => match type_of(c) { Some(t) => PR::Ok(t, n), None => PR::Bad }, PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
/// k values of type t, as bytes
pub open spec fn d_vals(b: Seq<u8>, k: int, t: DataType) -> PR<Seq<u8>> {
    let n = k * t.esize();
    let v = if b.len() < n { PR::<Seq<u8>>::Inc } else { PR::Ok(b.take(n), n) };
    let z = d_zeros(b.skip(n), pad4(n));
    match v.and(z) { PR::Ok((x, _), m) => PR::Ok(x, m), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
pub open spec fn d_dim(b: Seq<u8>) -> PR<(Seq<char>, int)> { let n = d_name(b); n.and(d_len(b.skip(n.n()))) }
pub struct AV { pub name: Seq<char>, pub ty: DataType, pub raw: Seq<u8> }
pub open spec fn d_attr(b: Seq<u8>) -> PR<AV> {
    let n = d_name(b);
    let t = d_type(b.skip(n.n()));
    let k = d_len(b.skip(n.n() + t.n()));
    let v = d_vals(b.skip(n.n() + t.n() + k.n()), k.x(), t.x());
    match n.and(t).and(k).and(v) { PR::Ok((((x, y), _), z), m) => PR::Ok(AV { name: x, ty: y, raw: z }, m), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
#[verifier::opaque]
pub open spec fn d_many<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>, k: int) -> PR<Seq<X>> decreases k {
    if k <= 0 { PR::Ok(seq![], 0) } else {
        let h = d_many(f, b, k - 1);
        match h.and(f(b.skip(h.n()))) { PR::Ok((s, x), n) => PR::Ok(s.push(x), n), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
    }
}
pub open spec fn d_counted<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>) -> PR<Seq<X>> {
    let k = d_len(b);
    match k.and(d_many(f, b.skip(k.n()), k.x())) { PR::Ok((_, s), n) => PR::Ok(s, n), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
/// eight zero bytes, or a tag, a count and the elements
pub open spec fn d_list<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>, t: Seq<u8>) -> PR<Seq<X>> {
    match d_tag(b, absent()) {
        PR::Ok(_, n) => PR::Ok(seq![], n),
        PR::Inc => PR::Inc,
        PR::Bad => { let g = d_tag(b, t); match g.and(d_counted(f, b.skip(g.n()))) { PR::Ok((_, s), n) => PR::Ok(s, n), PR::Inc => PR::Inc, PR::Bad => PR::Bad } }
    }
}
pub open spec fn f_dim() -> spec_fn(Seq<u8>) -> PR<(Seq<char>, int)> { |b: Seq<u8>| d_dim(b) }
pub open spec fn f_attr() -> spec_fn(Seq<u8>) -> PR<AV> { |b: Seq<u8>| d_attr(b) }
pub open spec fn f_id() -> spec_fn(Seq<u8>) -> PR<int> { |b: Seq<u8>| d_len(b) }
pub open spec fn f_var(v: Version) -> spec_fn(Seq<u8>) -> PR<VV> { |b: Seq<u8>| d_var(b, v) }
pub open spec fn t_dim() -> Seq<u8> { seq![0u8, 0, 0, 0x0A] }
pub open spec fn t_var() -> Seq<u8> { seq![0u8, 0, 0, 0x0B] }
pub open spec fn t_attr() -> Seq<u8> { seq![0u8, 0, 0, 0x0C] }
pub open spec fn d_dims(b: Seq<u8>) -> PR<Seq<(Seq<char>, int)>> { d_list(f_dim(), b, t_dim()) }
pub open spec fn d_attrs(b: Seq<u8>) -> PR<Seq<AV>> { d_list(f_attr(), b, t_attr()) }
pub open spec fn d_offset(b: Seq<u8>, v: Version) -> PR<Offset> {
    match v {
        Version::Classic => if b.len() < 4 { PR::Inc } else if un32(b) > i32::MAX { PR::Bad } else { PR::Ok(Offset::I32(un32(b) as i32), 4) },
        Version::Offset64Bit => if b.len() < 8 { PR::Inc } else if un64(b) > i64::MAX { PR::Bad } else { PR::Ok(Offset::I64(un64(b) as i64), 8) },
    }
}
pub struct VV { pub name: Seq<char>, pub ids: Seq<int>, pub attrs: Seq<AV>, pub ty: DataType, pub vsize: Option<int>, pub begin: Offset }
pub open spec fn d_var(b: Seq<u8>, v: Version) -> PR<VV> {
    let n = d_name(b);
    let i = d_counted(f_id(), b.skip(n.n()));
    let ni = n.and(i);
    let a = d_attrs(b.skip(ni.n()));
    let nia = ni.and(a);
    let t = d_type(b.skip(nia.n()));
    let niat = nia.and(t);
    let s = d_optlen(b.skip(niat.n()));
    let niats = niat.and(s);
    let o = d_offset(b.skip(niats.n()), v);
    match niats.and(o) { PR::Ok((((((x, y), z), t), s), o), m) => PR::Ok(VV { name: x, ids: y, attrs: z, ty: t, vsize: s, begin: o }, m), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
pub open spec fn d_vars(b: Seq<u8>, v: Version) -> PR<Seq<VV>> { d_list(f_var(v), b, t_var()) }
pub open spec fn d_magic(b: Seq<u8>) -> PR<()> { d_tag(b, seq![0x43u8, 0x44, 0x46]) }
pub open spec fn d_version(b: Seq<u8>) -> PR<Version> { if b.len() < 1 { PR::Inc } else if b[0] == 1 { PR::Ok(Version::Classic, 1) } else if b[0] == 2 { PR::Ok(Version::Offset64Bit, 1) } else { PR::Bad } }
pub struct HV { pub version: Version, pub nrecs: Option<int>, pub dims: Seq<(Seq<char>, int)>, pub attrs: Seq<AV>, pub vars: Seq<VV> }
#[verifier::opaque]
pub open spec fn d_header(b: Seq<u8>) -> PR<HV> {
    let m = d_magic(b);
    let v = d_version(b.skip(m.n()));
    let mv = m.and(v);
    let r = d_optlen(b.skip(mv.n()));
    let mvr = mv.and(r);
    let d = d_dims(b.skip(mvr.n()));
    let mvrd = mvr.and(d);
    let a = d_attrs(b.skip(mvrd.n()));
    let mvrda = mvrd.and(a);
    let w = d_vars(b.skip(mvrda.n()), v.x());
    match mvrda.and(w) { PR::Ok((((((_, v), r), d), a), w), n) => PR::Ok(HV { version: v, nrecs: r, dims: d, attrs: a, vars: w }, n), PR::Inc => PR::Inc, PR::Bad => PR::Bad }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<NomErr<(&'a [u8], NomErrorKind)>> for InvalidBytes {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: NomErr<(&'a [u8], NomErrorKind)>) -> Self { arbitrary() }
}
// ------------------------------------------------ values of the parser as values of the format
pub open spec fn dim_v(d: (VStr, usize)) -> (Seq<char>, int) { (d.0@, d.1 as int) }
pub open spec fn attr_v(a: (VStr, DataVector)) -> AV { AV { name: a.0@, ty: a.1.dtype(), raw: enc_values(a.1) } }
pub open spec fn var_v(v: VariableParsedMetadata) -> VV {
    VV { name: v.name@, ids: ids_v(v.dim_ids@), attrs: attrs_v(v.attrs_list@), ty: v.data_type, vsize: match v._chunk_size { Some(n) => Some(n as int), None => None }, begin: v.begin_offset }
}
pub open spec fn dims_v(d: Seq<(VStr, usize)>) -> Seq<(Seq<char>, int)> { d.map_values(|x: (VStr, usize)| dim_v(x)) }
pub open spec fn attrs_v(d: Seq<(VStr, DataVector)>) -> Seq<AV> { d.map_values(|x: (VStr, DataVector)| attr_v(x)) }
pub open spec fn ids_v(d: Seq<usize>) -> Seq<int> { d.map_values(|x: usize| x as int) }
pub open spec fn vars_v(d: Seq<VariableParsedMetadata>) -> Seq<VV> { d.map_values(|x: VariableParsedMetadata| var_v(x)) }
impl ParseHeaderError { pub open spec fn inc(self) -> bool { self.invalid_bytes is Incomplete } }
pub open spec fn pr_ok<X>(b: Seq<u8>, p: PR<X>, rest: Seq<u8>, x: X) -> bool { p matches PR::Ok(y, n) && y == x && 0 <= n <= b.len() && rest == b.skip(n) }
pub open spec fn pr_err<X>(p: PR<X>, e: ParseHeaderError) -> bool { if e.inc() { p is Inc } else { p is Bad } }
/// d_many stops at the first element that is refused or lacks bytes
pub proof fn lemma_many_stuck<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>, j: int, k: int)
    requires 0 <= j <= k, !(d_many(f, b, j) is Ok)
    ensures d_many(f, b, j) is Inc ==> d_many(f, b, k) is Inc, d_many(f, b, j) is Bad ==> d_many(f, b, k) is Bad
    decreases k
{ reveal(d_many); if j < k { lemma_many_stuck(f, b, j, k - 1); } }
/// k elements are parsed, and the bytes after them are rest
#[verifier::opaque]
pub open spec fn many_at<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>, k: int, s: Seq<X>, rest: Seq<u8>) -> bool {
    d_many(f, b, k) is Ok && d_many(f, b, k).x() == s && 0 <= d_many(f, b, k).n() <= b.len() && rest == b.skip(d_many(f, b, k).n())
}
pub proof fn lemma_many_none<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>)
    ensures many_at(f, b, 0, Seq::<X>::empty(), b)
{ reveal(d_many); reveal(many_at); assert(b.skip(0) =~= b); assert(d_many(f, b, 0).x() =~= Seq::<X>::empty()); }
pub proof fn lemma_many_next<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>, k: int, n: int, s: Seq<X>, rest: Seq<u8>)
    requires many_at(f, b, k, s, rest), 0 <= k < n
    ensures match f(rest) {
        PR::Ok(x, m) => 0 <= m <= rest.len() ==> many_at(f, b, k + 1, s.push(x), rest.skip(m)),
        PR::Inc => d_many(f, b, n) is Inc,
        PR::Bad => d_many(f, b, n) is Bad }
{
    reveal(d_many); reveal(many_at);
    let h = d_many(f, b, k);
    assert(d_many(f, b, k + 1) == match h.and(f(b.skip(h.n()))) { PR::Ok((s, x), n) => PR::Ok(s.push(x), n), PR::Inc => PR::Inc, PR::Bad => PR::Bad });
    match f(rest) { PR::Ok(x, m) => { if 0 <= m <= rest.len() { lemma_skip_skip(b, h.n(), m); } } _ => { lemma_many_stuck(f, b, k + 1, n); } }
}
pub proof fn lemma_many_done<X>(f: spec_fn(Seq<u8>) -> PR<X>, b: Seq<u8>, k: int, s: Seq<X>, rest: Seq<u8>)
    requires many_at(f, b, k, s, rest)
    ensures pr_ok(b, d_many(f, b, k), rest, s)
{ reveal(many_at); }
