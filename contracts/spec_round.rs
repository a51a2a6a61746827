// ---------------------------------------------------------------- C18: reading back what was written
/// the decoder f takes all of e and gives x
pub open spec fn dec<X>(f: spec_fn(Seq<u8>) -> PR<X>, e: Seq<u8>, x: X) -> bool { f(e) == PR::Ok(x, e.len() as int) }
pub proof fn lemma_dec_more<X>(f: spec_fn(Seq<u8>) -> PR<X>, e: Seq<u8>, x: X, b: Seq<u8>)
    requires stable(f), dec(f, e, x), pre(e, b)
    ensures f(b) == PR::Ok(x, e.len() as int)
{ assert(keeps(f(e), f(b), e)); }
pub proof fn lemma_pre_add(a: Seq<u8>, b: Seq<u8>)
    ensures pre(a, a + b), (a + b).skip(a.len() as int) == b
{ assert(a =~= (a + b).take(a.len() as int)); assert((a + b).skip(a.len() as int) =~= b); }
pub proof fn lemma_dec_pair<X, Y>(f: spec_fn(Seq<u8>) -> PR<X>, g: spec_fn(Seq<u8>) -> PR<Y>, e1: Seq<u8>, e2: Seq<u8>, x: X, y: Y)
    requires stable(f), dec(f, e1, x), dec(g, e2, y)
    ensures dec(pair(f, g), e1 + e2, (x, y))
{ lemma_pre_add(e1, e2); lemma_dec_more(f, e1, x, e1 + e2); }
// ------------------------------------------------ words
pub proof fn lemma_un32(x: int)
    requires 0 <= x < 0x1_0000_0000
    ensures be32(x).len() == 4, un32(be32(x)) == x
{
    reveal(be32);
    let (h, l) = (x / 0x10000, x % 0x10000);
    assert(0 <= h < 0x10000 && 0 <= l < 0x10000 && x == h * 0x10000 + l) by (nonlinear_arith) requires 0 <= x < 0x1_0000_0000, h == x / 0x10000, l == x % 0x10000;
    assert(be32(x)[0] == be16(h)[0] && be32(x)[1] == be16(h)[1] && be32(x)[2] == be16(l)[0] && be32(x)[3] == be16(l)[1]);
}
pub proof fn lemma_un64(x: int)
    requires 0 <= x < 0x1_0000_0000_0000_0000
    ensures be64(x).len() == 8, un64(be64(x)) == x
{
    reveal(be64);
    let (h, l) = (x / 0x1_0000_0000, x % 0x1_0000_0000);
    assert(0 <= h < 0x1_0000_0000 && 0 <= l < 0x1_0000_0000 && x == h * 0x1_0000_0000 + l) by (nonlinear_arith) requires 0 <= x < 0x1_0000_0000_0000_0000, h == x / 0x1_0000_0000, l == x % 0x1_0000_0000;
    lemma_un32(h); lemma_un32(l);
    assert(be64(x).skip(4) =~= be32(l));
    assert(be64(x)[0] == be32(h)[0] && be64(x)[1] == be32(h)[1] && be64(x)[2] == be32(h)[2] && be64(x)[3] == be32(h)[3]);
}
pub proof fn lemma_dec_len(x: int)
    requires 0 <= x <= i32::MAX
    ensures dec(f_id(), be32(x), x), be32(x).len() == 4
{ lemma_un32(x); }
/// a count that may be marked as indeterminate
pub open spec fn opt_h(n: int) -> Option<int> { if n <= 0x7fff_ffff { Some(n) } else { None } }
pub proof fn lemma_dec_opt(x: int)
    requires 0 <= x
    ensures dec(f_opt(), be32(or_indeterminate(x)), opt_h(x))
{ lemma_un32(or_indeterminate(x)); }
pub proof fn lemma_dec_type(t: DataType)
    ensures dec(f_type(), be32(t.code()), t)
{ lemma_un32(t.code()); }
pub proof fn lemma_dec_off(o: Offset)
    requires o.val() >= 0
    ensures dec(f_off(offset_ver(o)), enc_offset(o), o)
{ match o { Offset::I32(x) => { lemma_un32(x as int); } Offset::I64(x) => { lemma_un64(x as int); } } }
pub proof fn lemma_dec_start(v: Version)
    ensures dec(f_magic(), seq![0x43u8, 0x44, 0x46], ()), dec(f_version(), byte(v.code()), v)
{ }
pub proof fn lemma_tags()
    ensures be32(0x0A) == t_dim(), be32(0x0B) == t_var(), be32(0x0C) == t_attr(), t_dim().len() == 4, t_var().len() == 4, t_attr().len() == 4, t_dim()[3] != 0, t_var()[3] != 0, t_attr()[3] != 0
{ reveal(be32); assert(be32(0x0A) =~= t_dim()); assert(be32(0x0B) =~= t_var()); assert(be32(0x0C) =~= t_attr()); }
// ------------------------------------------------ names, dimensions, attributes
pub proof fn lemma_dec_name(s: Seq<char>)
    requires valid_name(s)
    ensures dec(f_name(), enc_name(s), s)
{
    broadcast use group_parse;
    let u = utf8(s);
    let n = u.len() as int;
    let b = enc_name(s);
    lemma_un32(n);
    lemma_pre_add(be32(n), u + zeros(pad4(n)));
    lemma_pre_add(u, zeros(pad4(n)));
    assert(b == be32(n) + (u + zeros(pad4(n)))) by { broadcast use lemma_add_assoc; }
    lemma_dec_len(n); lemma_stable();
    lemma_dec_more(f_id(), be32(n), n, b);
    assert(d_len(b) == PR::Ok(n, 4));
    assert(b.skip(4).take(n) =~= u);
    assert(is_utf8(u));
    assert(b.skip(4 + n) =~= zeros(pad4(n)));
    assert(zeros(pad4(n)).take(pad4(n)) =~= zeros(pad4(n)));
    assert(d_str(b.skip(4), n) == PR::Ok(s, n));
    assert(d_zeros(b.skip(4 + n), pad4(n)) == PR::Ok((), pad4(n)));
}
pub open spec fn dim_h(d: Dimension) -> (Seq<char>, int) { (d.nm(), if d.unlim() { 0 } else { d.sz() as int }) }
pub open spec fn dims_h(d: Seq<Rc<Dimension>>) -> Seq<(Seq<char>, int)> { Seq::new(d.len(), |i: int| dim_h(*d[i])) }
pub open spec fn attr_h(a: Attribute) -> AV { AV { name: a.name@, ty: a.data.dtype(), raw: enc_values(a.data) } }
pub open spec fn attrs_h(a: Seq<Attribute>) -> Seq<AV> { Seq::new(a.len(), |i: int| attr_h(a[i])) }
pub open spec fn ids_h(d: Seq<usize>) -> Seq<int> { Seq::new(d.len(), |i: int| d[i] as int) }
pub open spec fn var_h(v: Variable, m: ComputedVariableMetadata) -> VV {
    VV { name: v.name@, ids: ids_h(m.dim_ids@), attrs: attrs_h(v.attrs@), ty: v.data_type, vsize: opt_h(m.chunk_size as int), begin: m.begin_offset }
}
pub open spec fn vars_h(v: Seq<(&Variable, ComputedVariableMetadata)>) -> Seq<VV> { Seq::new(v.len(), |i: int| var_h(*v[i].0, v[i].1)) }
pub open spec fn rc_enc(d: Rc<Dimension>) -> Seq<u8> { enc_dim(*d) }
pub open spec fn rc_h(d: Rc<Dimension>) -> (Seq<char>, int) { dim_h(*d) }
pub proof fn lemma_dec_dim(d: Rc<Dimension>)
    requires (*d).wf()
    ensures dec(f_dim(), rc_enc(d), rc_h(d))
{
    let (x, n) = rc_h(d);
    lemma_dec_name(x); lemma_dec_len(n); lemma_s_parts(); lemma_stable();
    lemma_dec_pair(f_name(), f_id(), enc_name(x), be32(n), x, n);
    assert(f_dim()(rc_enc(d)) == pair(f_name(), f_id())(rc_enc(d)));
}
pub proof fn lemma_dec_vals(d: DataVector)
    ensures d_vals(enc_values(d) + zeros(pad4(enc_values(d).len() as int)), d.vlen() as int, d.dtype()) == PR::Ok(enc_values(d), enc_values(d).len() + pad4(enc_values(d).len() as int))
{
    lemma_values_len(d);
    let e = enc_values(d);
    let z = zeros(pad4(e.len() as int));
    lemma_pre_add(e, z);
    assert((e + z).take(e.len() as int) =~= e);
    assert(z.take(pad4(e.len() as int)) =~= z);
}
pub proof fn lemma_dec_attr(a: Attribute)
    requires valid_name(a.name@), attr_fits(a)
    ensures dec(f_attr(), enc_attr(a), attr_h(a))
{
    broadcast use group_parse;
    let (e1, e2, e3, e4) = (enc_name(a.name@), be32(a.data.dtype().code()), be32(a.data.vlen() as int), enc_values(a.data) + zeros(pad4(enc_values(a.data).len() as int)));
    let b = enc_attr(a);
    assert(b == e1 + e2 + e3 + e4) by { broadcast use lemma_add_assoc; }
    lemma_dec_name(a.name@); lemma_dec_type(a.data.dtype()); lemma_dec_len(a.data.vlen() as int); lemma_dec_vals(a.data); lemma_s_parts(); lemma_stable();
    let (x, t, k) = (a.name@, a.data.dtype(), a.data.vlen() as int);
    let (n1, n2, n3) = (e1.len() as int, (e1.len() + e2.len()) as int, (e1.len() + e2.len() + e3.len()) as int);
    assert(b == e1 + (e2 + e3 + e4) && e2 + e3 + e4 == e2 + (e3 + e4)) by { broadcast use lemma_add_assoc; }
    lemma_pre_add(e1, e2 + e3 + e4); lemma_pre_add(e2, e3 + e4); lemma_pre_add(e3, e4);
    lemma_dec_more(f_name(), e1, x, b);
    lemma_dec_more(f_type(), e2, t, e2 + e3 + e4);
    lemma_dec_more(f_id(), e3, k, e3 + e4);
    assert(b.skip(n2) == e3 + e4) by { assert(b.skip(n2) =~= b.skip(n1).skip(e2.len() as int)); }
    assert(b.skip(n3) == e4) by { assert(b.skip(n3) =~= b.skip(n2).skip(e3.len() as int)); }
    assert(d_name(b) == PR::Ok(x, n1));
    assert(d_type(b.skip(n1)) == PR::Ok(t, e2.len() as int));
    assert(d_len(b.skip(n2)) == PR::Ok(k, e3.len() as int));
}
// ------------------------------------------------ lists
pub proof fn lemma_dec_none<X>(f: spec_fn(Seq<u8>) -> PR<X>)
    ensures d_many(f, Seq::<u8>::empty(), 0) == PR::Ok(Seq::<X>::empty(), 0)
{ reveal(d_many); }
pub proof fn lemma_dec_step<X>(f: spec_fn(Seq<u8>) -> PR<X>, a: Seq<u8>, k: int, s: Seq<X>, e: Seq<u8>, x: X)
    requires stable(f), k >= 0, d_many(f, a, k) == PR::Ok(s, a.len() as int), dec(f, e, x)
    ensures d_many(f, a + e, k + 1) == PR::Ok(s.push(x), (a + e).len() as int)
{
    lemma_pre_add(a, e);
    lemma_s_many(f, a, a + e, k);
    reveal(d_many);
    assert(d_many(f, a + e, k + 1) == match d_many(f, a + e, k).and(f((a + e).skip(a.len() as int))) { PR::Ok((s, x), n) => PR::Ok(s.push(x), n), PR::Inc => PR::Inc, PR::Bad => PR::Bad });
}
pub proof fn lemma_dec_counted<X>(f: spec_fn(Seq<u8>) -> PR<X>, e: Seq<u8>, s: Seq<X>)
    requires stable(f), s.len() <= i32::MAX, d_many(f, e, s.len() as int) == PR::Ok(s, e.len() as int)
    ensures d_counted(f, be32(s.len() as int) + e) == PR::Ok(s, (4 + e.len()) as int)
{
    let n = s.len() as int;
    lemma_dec_len(n); lemma_stable(); lemma_pre_add(be32(n), e);
    lemma_dec_more(f_id(), be32(n), n, be32(n) + e);
}
pub proof fn lemma_dec_absent<X>(f: spec_fn(Seq<u8>) -> PR<X>, t: Seq<u8>)
    ensures d_list(f, absent(), t) == PR::Ok(Seq::<X>::empty(), 8)
{ assert(!differs(absent(), absent())); }
pub proof fn lemma_dec_list<X>(f: spec_fn(Seq<u8>) -> PR<X>, t: Seq<u8>, e: Seq<u8>, s: Seq<X>)
    requires stable(f), s.len() <= i32::MAX, t.len() == 4, t[3] != 0, d_many(f, e, s.len() as int) == PR::Ok(s, e.len() as int)
    ensures d_list(f, t + be32(s.len() as int) + e, t) == PR::Ok(s, (8 + e.len()) as int)
{
    let c = be32(s.len() as int) + e;
    let b = t + be32(s.len() as int) + e;
    assert(b == t + c) by { broadcast use lemma_add_assoc; }
    lemma_dec_counted(f, e, s);
    lemma_dec_len(s.len() as int);
    lemma_pre_add(t, c);
    assert(b[3] == t[3] && absent()[3] == 0);
    assert(differs(b, absent()));
    assert(!differs(b, t)) by { assert(forall|j: int| 0 <= j < t.len() ==> b[j] == t[j]); }
}
pub proof fn lemma_many_dims(d: Seq<Rc<Dimension>>)
    requires forall|i: int| 0 <= i < d.len() ==> (*#[trigger] d[i]).wf()
    ensures d_many(f_dim(), enc_dims_seq(d), d.len() as int) == PR::Ok(dims_h(d), enc_dims_seq(d).len() as int)
    decreases d.len()
{
    if d.len() == 0 { lemma_dec_none(f_dim()); assert(dims_h(d) =~= Seq::empty()); } else {
        let p = d.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (*#[trigger] p[i]).wf() by { assert(p[i] == d[i]); }
        lemma_many_dims(p);
        assert((*d[d.len() - 1]).wf());
        lemma_dec_dim(d.last());
        lemma_stable();
        lemma_dec_step(f_dim(), enc_dims_seq(p), p.len() as int, dims_h(p), rc_enc(d.last()), rc_h(d.last()));
        assert(dims_h(d) =~= dims_h(p).push(rc_h(d.last())));
    }
}
pub proof fn lemma_many_attrs(d: Seq<Attribute>)
    requires forall|i: int| 0 <= i < d.len() ==> valid_name(#[trigger] d[i].name@) && attr_fits(d[i])
    ensures d_many(f_attr(), enc_attrs_seq(d), d.len() as int) == PR::Ok(attrs_h(d), enc_attrs_seq(d).len() as int)
    decreases d.len()
{
    if d.len() == 0 { lemma_dec_none(f_attr()); assert(attrs_h(d) =~= Seq::empty()); } else {
        let p = d.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies valid_name(#[trigger] p[i].name@) && attr_fits(p[i]) by { assert(p[i] == d[i]); assert(valid_name(d[i].name@)); }
        lemma_many_attrs(p);
        assert(valid_name(d[d.len() - 1].name@));
        lemma_dec_attr(d.last());
        lemma_stable();
        lemma_dec_step(f_attr(), enc_attrs_seq(p), p.len() as int, attrs_h(p), enc_attr(d.last()), attr_h(d.last()));
        assert(attrs_h(d) =~= attrs_h(p).push(attr_h(d.last())));
    }
}
pub proof fn lemma_many_ids(d: Seq<usize>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] <= i32::MAX
    ensures d_many(f_id(), enc_ids(d), d.len() as int) == PR::Ok(ids_h(d), enc_ids(d).len() as int)
    decreases d.len()
{
    if d.len() == 0 { lemma_dec_none(f_id()); assert(ids_h(d) =~= Seq::empty()); } else {
        let p = d.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] <= i32::MAX by { assert(p[i] == d[i]); }
        lemma_many_ids(p);
        assert(d[d.len() - 1] <= i32::MAX);
        lemma_dec_len(d.last() as int);
        lemma_stable();
        lemma_dec_step(f_id(), enc_ids(p), p.len() as int, ids_h(p), be32(d.last() as int), d.last() as int);
        assert(ids_h(d) =~= ids_h(p).push(d.last() as int));
    }
}
pub proof fn lemma_dec_dims(d: Seq<Rc<Dimension>>)
    requires dims_fit(d), forall|i: int| 0 <= i < d.len() ==> (*#[trigger] d[i]).wf()
    ensures dec(f_dims(), enc_dims(d), dims_h(d))
{
    lemma_tags(); lemma_stable(); lemma_many_dims(d); lemma_un32(d.len() as int);
    if d.len() == 0 { lemma_dec_absent(f_dim(), t_dim()); assert(dims_h(d) =~= Seq::empty()); } else { lemma_dec_list(f_dim(), t_dim(), enc_dims_seq(d), dims_h(d)); }
}
pub proof fn lemma_dec_attrs(d: Seq<Attribute>)
    requires attrs_fit(d), attrs_wf(d)
    ensures dec(f_attrs(), enc_attrs(d), attrs_h(d))
{
    assert forall|i: int| 0 <= i < d.len() implies valid_name(#[trigger] d[i].name@) && attr_fits(d[i]) by { }
    lemma_tags(); lemma_stable(); lemma_many_attrs(d); lemma_un32(d.len() as int);
    if d.len() == 0 { lemma_dec_absent(f_attr(), t_attr()); assert(attrs_h(d) =~= Seq::empty()); } else { lemma_dec_list(f_attr(), t_attr(), enc_attrs_seq(d), attrs_h(d)); }
}
/// what the encoding of a variable needs
pub open spec fn var_codes(v: Variable, m: ComputedVariableMetadata, ver: Version) -> bool {
    var_fits(v, m) && m.dim_ids@.len() == v.dims@.len() && offset_ver(m.begin_offset) == ver && m.begin_offset.val() >= 0
}
pub open spec fn at_enc(l: (&Variable, ComputedVariableMetadata)) -> Seq<u8> { enc_var(*l.0, l.1) }
pub open spec fn at_h(l: (&Variable, ComputedVariableMetadata)) -> VV { var_h(*l.0, l.1) }
pub open spec fn at_codes(l: (&Variable, ComputedVariableMetadata), ver: Version) -> bool { var_codes(*l.0, l.1, ver) }
#[verifier::spinoff_prover]
pub proof fn lemma_dec_var_at(l: (&Variable, ComputedVariableMetadata), ver: Version)
    requires at_codes(l, ver)
    ensures dec(f_var(ver), at_enc(l), at_h(l))
{
    let h = at_h(l);
    let (e1, e2, e3, e4, e5, e6) = (enc_name(l.0.name@), be32(l.0.dims@.len() as int) + enc_ids(l.1.dim_ids@), enc_attrs(l.0.attrs@), be32(l.0.data_type.code()), be32(or_indeterminate(l.1.chunk_size as int)), enc_offset(l.1.begin_offset));
    assert(at_enc(l) == e1 + e2 + e3 + e4 + e5 + e6) by { broadcast use lemma_add_assoc; }
    lemma_s_parts();
    lemma_dec_name(l.0.name@);
    lemma_stable(); lemma_many_ids(l.1.dim_ids@); lemma_dec_counted(f_id(), enc_ids(l.1.dim_ids@), h.ids); lemma_un32(l.0.dims@.len() as int);
    assert(dec(f_ids(), e2, h.ids));
    lemma_dec_attrs(l.0.attrs@); lemma_dec_type(l.0.data_type); lemma_dec_opt(l.1.chunk_size as int); lemma_dec_off(l.1.begin_offset);
    let p = pair(f_name(), f_ids()); lemma_s_pair(f_name(), f_ids());
    let q = pair(p, f_attrs()); lemma_s_pair(p, f_attrs());
    let r = pair(q, f_type()); lemma_s_pair(q, f_type());
    let s = pair(r, f_opt()); lemma_s_pair(r, f_opt());
    let y1 = (h.name, h.ids);
    lemma_dec_pair(f_name(), f_ids(), e1, e2, h.name, h.ids);
    let y2 = (y1, h.attrs);
    lemma_dec_pair(p, f_attrs(), e1 + e2, e3, y1, h.attrs);
    let y3 = (y2, h.ty);
    lemma_dec_pair(q, f_type(), e1 + e2 + e3, e4, y2, h.ty);
    let y4 = (y3, h.vsize);
    lemma_dec_pair(r, f_opt(), e1 + e2 + e3 + e4, e5, y3, h.vsize);
    lemma_dec_pair(s, f_off(ver), e1 + e2 + e3 + e4 + e5, e6, y4, h.begin);
    lemma_p_var(at_enc(l), ver);
}
pub proof fn lemma_s_fvar(ver: Version)
    ensures stable(f_var(ver)), stable(f_vars(ver))
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_var(ver)(a), f_var(ver)(b), a) by { lemma_s_var(a, b, ver); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] pre(a, b) implies keeps(f_vars(ver)(a), f_vars(ver)(b), a) by { lemma_s_vars(a, b, ver); }
}
pub proof fn lemma_many_vars(d: Seq<(&Variable, ComputedVariableMetadata)>, ver: Version)
    requires forall|i: int| 0 <= i < d.len() ==> var_codes(*(#[trigger] d[i]).0, d[i].1, ver)
    ensures d_many(f_var(ver), enc_vars_seq(d), d.len() as int) == PR::Ok(vars_h(d), enc_vars_seq(d).len() as int)
    decreases d.len()
{
    if d.len() == 0 { lemma_dec_none(f_var(ver)); assert(vars_h(d) =~= Seq::empty()); } else {
        let p = d.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies var_codes(*(#[trigger] p[i]).0, p[i].1, ver) by { assert(p[i] == d[i]); }
        lemma_many_vars(p, ver);
        let l = d[d.len() - 1];
        assert(at_codes(l, ver));
        lemma_dec_var_at(l, ver);
        lemma_s_fvar(ver);
        lemma_dec_step(f_var(ver), enc_vars_seq(p), p.len() as int, vars_h(p), at_enc(l), at_h(l));
        assert(vars_h(d) =~= vars_h(p).push(at_h(l)));
    }
}
pub proof fn lemma_dec_vars(d: Seq<(&Variable, ComputedVariableMetadata)>, ver: Version)
    requires d.len() <= i32::MAX, forall|i: int| 0 <= i < d.len() ==> var_codes(*(#[trigger] d[i]).0, d[i].1, ver)
    ensures dec(f_vars(ver), enc_vars(d), vars_h(d))
{
    lemma_tags(); lemma_s_fvar(ver); lemma_many_vars(d, ver); lemma_un32(d.len() as int);
    if d.len() == 0 { lemma_dec_absent(f_var(ver), t_var()); assert(vars_h(d) =~= Seq::empty()); } else { lemma_dec_list(f_var(ver), t_var(), enc_vars_seq(d), vars_h(d)); }
}
// ------------------------------------------------ the header
pub open spec fn hv_of(d: HeaderDefinition) -> HV {
    HV { version: d.version, nrecs: opt_h(num_recs(*d.data_set)), dims: dims_h(d.data_set.dims@), attrs: attrs_h(d.data_set.attrs@), vars: vars_h(d.data_set_metadata.vars_metadata@) }
}
pub proof fn lemma_codes(d: HeaderDefinition)
    requires d.wf()
    ensures forall|i: int| 0 <= i < d.data_set_metadata.vars_metadata@.len() ==> var_codes(*(#[trigger] d.data_set_metadata.vars_metadata@[i]).0, d.data_set_metadata.vars_metadata@[i].1, d.version)
{
    let ds = *d.data_set;
    let ml = d.data_set_metadata.vars_metadata@;
    lemma_header_parts(d);
    assert forall|i: int| 0 <= i < ml.len() implies var_codes(*(#[trigger] ml[i]).0, ml[i].1, d.version) by {
        assert(*ml[i].0 == ds.vars@[i] && meta_ok(ds, i, ml[i].1, d.version, d.lay().h));
        assert(var_fits(*ml[i].0, ml[i].1));
        lemma_sums_ok(d, i);
    }
}
/// any file that starts with the header written decodes to the definition
#[verifier::spinoff_prover]
pub proof fn lemma_dec_header(d: HeaderDefinition, f: Seq<u8>)
    requires d.wf(), pre(header_bytes(d), f)
    ensures d_header(f) is Ok, d_header(f).x() == hv_of(d)
{
    let ds = *d.data_set;
    let ml = d.data_set_metadata.vars_metadata@;
    let h = hv_of(d);
    let v = d.version;
    let (e1, e2, e3, e4, e5, e6, z) = (seq![0x43u8, 0x44, 0x46], byte(v.code()), be32(or_indeterminate(num_recs(ds))), enc_dims(ds.dims@), enc_attrs(ds.attrs@), enc_vars(ml), zeros(d.data_set_metadata.header_zero_padding_size as int));
    let b = e1 + e2 + e3 + e4 + e5 + e6;
    assert(header_bytes(d) == b + z);
    lemma_codes(d);
    lemma_s_parts(); lemma_s_fvar(v);
    lemma_dec_start(v); lemma_dec_opt(num_recs(ds)); lemma_dec_dims(ds.dims@); lemma_dec_attrs(ds.attrs@); lemma_dec_vars(ml, v);
    let p = pair(f_magic(), f_version()); lemma_s_pair(f_magic(), f_version());
    let q = pair(p, f_opt()); lemma_s_pair(p, f_opt());
    let r = pair(q, f_dims()); lemma_s_pair(q, f_dims());
    lemma_s_pair(r, f_attrs());
    let y1 = ((), v);
    lemma_dec_pair(f_magic(), f_version(), e1, e2, (), v);
    let y2 = (y1, h.nrecs);
    lemma_dec_pair(p, f_opt(), e1 + e2, e3, y1, h.nrecs);
    let y3 = (y2, h.dims);
    lemma_dec_pair(q, f_dims(), e1 + e2 + e3, e4, y2, h.dims);
    let y4 = (y3, h.attrs);
    lemma_dec_pair(r, f_attrs(), e1 + e2 + e3 + e4, e5, y3, h.attrs);
    lemma_dec_pair(p_defs(), f_vars(v), e1 + e2 + e3 + e4 + e5, e6, y4, h.vars);
    lemma_pre_add(e1 + e2 + e3 + e4 + e5, e6);
    lemma_dec_more(p_defs(), e1 + e2 + e3 + e4 + e5, y4, b);
    lemma_p_header(b);
    assert(d_header(b) == PR::Ok(h, b.len() as int));
    lemma_pre_add(b, z);
    assert(pre(b, f)) by { assert(f.take(b.len() as int) =~= header_bytes(d).take(b.len() as int)); }
    lemma_s_header(b, f);
}
// ------------------------------------------------ the same values, bit for bit
pub open spec fn bits_i8(x: i8) -> int { x as int }
pub open spec fn bits_u8(x: u8) -> int { x as int }
pub open spec fn bits_i16(x: i16) -> int { x as int }
pub open spec fn bits_i32(x: i32) -> int { x as int }
pub open spec fn bits_f32(x: f32) -> int { f32_bits(x) as int }
pub open spec fn bits_f64(x: f64) -> int { f64_bits(x) as int }
pub proof fn lemma_bits_i8(x: i8, y: i8) requires x.be() == y.be() ensures bits_i8(x) == bits_i8(y) {
    let (a, b) = (wrap(x as int, 0x100) as u8, wrap(y as int, 0x100) as u8);
    assert(x.be() == seq![a] && y.be() == seq![b]);
    assert(seq![a][0] == seq![b][0]);
}
pub proof fn lemma_bits_u8(x: u8, y: u8) requires x.be() == y.be() ensures bits_u8(x) == bits_u8(y) {
    assert(x.be() == seq![x] && y.be() == seq![y]);
    assert(seq![x][0] == seq![y][0]);
}
pub proof fn lemma_bits_i16(x: i16, y: i16) requires x.be() == y.be() ensures bits_i16(x) == bits_i16(y) {
    assert(x.be()[0] == y.be()[0] && x.be()[1] == y.be()[1]);
    let (a, b) = (wrap(x as int, 0x10000), wrap(y as int, 0x10000));
    assert(a / 0x100 % 0x100 == b / 0x100 % 0x100 && a % 0x100 == b % 0x100);
    assert(a == b) by (nonlinear_arith) requires 0 <= a < 0x10000, 0 <= b < 0x10000, a / 0x100 % 0x100 == b / 0x100 % 0x100, a % 0x100 == b % 0x100;
}
pub proof fn lemma_bits_i32(x: i32, y: i32) requires x.be() == y.be() ensures bits_i32(x) == bits_i32(y) { lemma_un32(wrap(x as int, 0x1_0000_0000)); lemma_un32(wrap(y as int, 0x1_0000_0000)); }
pub proof fn lemma_bits_f32(x: f32, y: f32) requires x.be() == y.be() ensures bits_f32(x) == bits_f32(y) { lemma_un32(f32_bits(x) as int); lemma_un32(f32_bits(y) as int); }
pub proof fn lemma_bits_f64(x: f64, y: f64) requires x.be() == y.be() ensures bits_f64(x) == bits_f64(y) { lemma_un64(f64_bits(x) as int); lemma_un64(f64_bits(y) as int); }
@for T,F,n in i8:I8:1 u8:U8:1 i16:I16:2 i32:I32:4 f32:F32:4 f64:F64:8
pub open spec fn same_%T%(a: Seq<%T%>, b: Seq<%T%>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> bits_%T%(#[trigger] a[i]) == bits_%T%(b[i]) }
/// bytes determine values
pub proof fn lemma_inj_%T%(a: Seq<%T%>, b: Seq<%T%>)
    requires be_all_%T%(a) == be_all_%T%(b)
    ensures same_%T%(a, b)
    decreases a.len()
{
    broadcast use group_bytes;
    lemma_be_all_%T%(a); lemma_be_all_%T%(b);
    assert(a.len() == b.len());
    if a.len() > 0 {
        let (p, q) = (a.drop_last(), b.drop_last());
        let (x, y) = (a.last(), b.last());
        lemma_be_all_%T%(p); lemma_be_all_%T%(q);
        lemma_pre_add(be_all_%T%(p), x.be()); lemma_pre_add(be_all_%T%(q), y.be());
        assert(be_all_%T%(a) == be_all_%T%(p) + x.be() && be_all_%T%(b) == be_all_%T%(q) + y.be());
        assert(be_all_%T%(p) == be_all_%T%(q));
        assert(x.be() == y.be());
        lemma_inj_%T%(p, q);
        lemma_bits_%T%(x, y);
        assert forall|i: int| 0 <= i < a.len() implies bits_%T%(#[trigger] a[i]) == bits_%T%(b[i]) by { if i < p.len() { assert(p[i] == a[i] && q[i] == b[i]); } }
    }
}
/// the values are at the start of the bytes of a record
pub proof fn lemma_chunk_take_%T%(d: Seq<%T%>)
    ensures chunk_%T%(d).take(d.len() as int * %n%) == be_all_%T%(d)
{
    lemma_chunk_len_%T%(d); lemma_be_all_%T%(d);
    lemma_pre_add(be_all_%T%(d), cyc(NC_FILL_%F%.be(), pad4(d.len() as int * %n%)));
}
@endfor
pub open spec fn same_bits(a: DataVector, b: DataVector) -> bool {
    match (a, b) {
        (DataVector::I8(x), DataVector::I8(y)) => same_i8(x@, y@), (DataVector::U8(x), DataVector::U8(y)) => same_u8(x@, y@), (DataVector::I16(x), DataVector::I16(y)) => same_i16(x@, y@),
        (DataVector::I32(x), DataVector::I32(y)) => same_i32(x@, y@), (DataVector::F32(x), DataVector::F32(y)) => same_f32(x@, y@), (DataVector::F64(x), DataVector::F64(y)) => same_f64(x@, y@),
        _ => false,
    }
}
pub proof fn lemma_same_bits(a: DataVector, b: DataVector)
    requires a.dtype() == b.dtype(), enc_values(a) == enc_values(b)
    ensures same_bits(a, b)
{
    match (a, b) {
        (DataVector::I8(x), DataVector::I8(y)) => lemma_inj_i8(x@, y@), (DataVector::U8(x), DataVector::U8(y)) => lemma_inj_u8(x@, y@), (DataVector::I16(x), DataVector::I16(y)) => lemma_inj_i16(x@, y@),
        (DataVector::I32(x), DataVector::I32(y)) => lemma_inj_i32(x@, y@), (DataVector::F32(x), DataVector::F32(y)) => lemma_inj_f32(x@, y@), (DataVector::F64(x), DataVector::F64(y)) => lemma_inj_f64(x@, y@),
        _ => (),
    }
}
// ------------------------------------------------ the same data set, n being the number of records
pub open spec fn same_dim(d: Dimension, e: Dimension, n: int) -> bool { d.nm() == e.nm() && d.unlim() == e.unlim() && d.sz() == if e.unlim() { n } else { e.sz() as int } }
pub open spec fn same_dims(d: Seq<Rc<Dimension>>, e: Seq<Rc<Dimension>>, n: int) -> bool { d.len() == e.len() && forall|i: int| 0 <= i < d.len() ==> same_dim(*#[trigger] d[i], *e[i], n) }
pub open spec fn same_attr(a: Attribute, b: Attribute) -> bool { a.name@ == b.name@ && same_bits(a.data, b.data) }
pub open spec fn same_attrs(a: Seq<Attribute>, b: Seq<Attribute>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_attr(#[trigger] a[i], b[i]) }
pub open spec fn same_var(v: Variable, w: Variable, n: int) -> bool { v.name@ == w.name@ && v.data_type == w.data_type && same_attrs(v.attrs@, w.attrs@) && same_dims(v.dims@, w.dims@, n) }
pub open spec fn same_ds(a: DataSet, b: DataSet, n: int) -> bool {
    &&& same_dims(a.dims@, b.dims@, n) && same_attrs(a.attrs@, b.attrs@)
    &&& a.vars@.len() == b.vars@.len() && forall|i: int| 0 <= i < a.vars@.len() ==> same_var(#[trigger] a.vars@[i], b.vars@[i], n)
    &&& (a.unlimited_dim is Some) == (b.unlimited_dim is Some)
    &&& num_recs(a) == if b.unlimited_dim is Some { n } else { 0 }
}
pub proof fn lemma_attrs_back(a: Seq<Attribute>, b: Seq<Attribute>)
    requires attrs_are(a, attrs_h(b), b.len() as int)
    ensures same_attrs(a, b)
{
    reveal(attrs_are);
    assert forall|i: int| 0 <= i < a.len() implies same_attr(#[trigger] a[i], b[i]) by { assert(attr_is(a[i], attrs_h(b)[i])); lemma_same_bits(a[i].data, b[i].data); }
}
pub proof fn lemma_dims_back(a: Seq<Rc<Dimension>>, b: Seq<Rc<Dimension>>, n: int)
    requires dims_are(a, dims_h(b), b.len() as int, n), dims_ok(b)
    ensures same_dims(a, b, n)
{
    reveal(dims_are);
    assert forall|i: int| 0 <= i < a.len() implies same_dim(*#[trigger] a[i], *b[i], n) by { assert(dim_is(a[i], dims_h(b)[i], n)); assert((*b[i]).wf()); }
}
pub proof fn lemma_var_back(v: Variable, d2: Seq<Rc<Dimension>>, w: Variable, d: Seq<Rc<Dimension>>, m: ComputedVariableMetadata, n: int)
    requires var_is(v, var_h(w, m), d2, w.attrs@.len() as int), same_dims(d2, d, n), m.dim_ids@.len() == w.dims@.len(), forall|k: int| 0 <= k < w.dims@.len() ==> #[trigger] m.dim_ids@[k] < d.len() && d[m.dim_ids@[k] as int] == w.dims@[k]
    ensures same_var(v, w, n)
{
    reveal(var_is);
    let x = var_h(w, m);
    lemma_attrs_back(v.attrs@, w.attrs@);
    assert forall|k: int| 0 <= k < v.dims@.len() implies same_dim(*#[trigger] v.dims@[k], *w.dims@[k], n) by {
        assert(x.ids[k] == m.dim_ids@[k]);
        assert(v.dims@[k] == d2[x.ids[k]]);
        assert(same_dim(*d2[x.ids[k]], *d[x.ids[k]], n));
    }
}
/// a data set with the definitions of the header is the one written
pub proof fn lemma_ds_back(d: HeaderDefinition, b: DataSet, n: int)
    requires d.wf(), b.wf(), defs_are(b, hv_of(d), n)
    ensures same_ds(b, *d.data_set, n)
{
    let ds = *d.data_set;
    let h = hv_of(d);
    let ml = d.data_set_metadata.vars_metadata@;
    lemma_dims_back(b.dims@, ds.dims@, n);
    lemma_attrs_back(b.attrs@, ds.attrs@);
    reveal(vars_are);
    assert forall|i: int| 0 <= i < b.vars@.len() implies same_var(#[trigger] b.vars@[i], ds.vars@[i], n) by {
        assert(*ml[i].0 == ds.vars@[i] && meta_ok(ds, i, ml[i].1, d.version, d.lay().h));
        assert(h.vars[i] == var_h(ds.vars@[i], ml[i].1));
        assert(var_is(b.vars@[i], h.vars[i], b.dims@, h.vars[i].attrs.len() as int));
        lemma_var_back(b.vars@[i], b.dims@, ds.vars@[i], ds.dims@, ml[i].1, n);
    }
    match b.unlimited_dim {
        Some(u) => { let i = choose|i: int| 0 <= i < b.dims@.len() && b.dims@[i] == u; assert(same_dim(*b.dims@[i], *ds.dims@[i], n)); }
        None => { }
    }
    match ds.unlimited_dim {
        Some(u) => { let i = choose|i: int| 0 <= i < ds.dims@.len() && ds.dims@[i] == u; assert(same_dim(*b.dims@[i], *ds.dims@[i], n)); }
        None => { }
    }
}
/// sizes do not depend on the number of records
pub proof fn lemma_same_sizes(v: Variable, w: Variable, n: int)
    requires v.wf(), w.wf(), same_var(v, w, n)
    ensures v.is_rec() == w.is_rec(), v.rlen() == w.rlen(), v.rsize() == w.rsize()
{
    if v.dims@.len() > 0 { assert(same_dim(*v.dims@[0], *w.dims@[0], n)); }
    let o = if v.is_rec() { 1int } else { 0 };
    let (s, t) = (v.dims@.skip(o), w.dims@.skip(o));
    assert forall|i: int| 0 <= i < s.len() implies (*#[trigger] t[i]).sz() == (*s[i]).sz() by {
        assert(same_dim(*v.dims@[i + o], *w.dims@[i + o], n));
        if i + o >= 1 { assert(!(*w.dims@[i + o]).unlim()); }
    }
    lemma_prod_same(s, t);
}
pub proof fn lemma_same_all(a: DataSet, b: DataSet, n: int)
    requires a.wf(), b.wf(), same_ds(a, b, n)
    ensures rec_size(a.vars@) == rec_size(b.vars@), forall|i: int| 0 <= i < a.vars@.len() ==> (#[trigger] a.vars@[i]).is_rec() == b.vars@[i].is_rec() && a.vars@[i].rlen() == b.vars@[i].rlen() && a.vars@[i].rsize() == b.vars@[i].rsize()
{
    assert forall|i: int| 0 <= i < a.vars@.len() implies (#[trigger] a.vars@[i]).is_rec() == b.vars@[i].is_rec() && a.vars@[i].rlen() == b.vars@[i].rlen() && a.vars@[i].rsize() == b.vars@[i].rsize() by {
        assert(same_var(a.vars@[i], b.vars@[i], n));
        assert(a.vars@[i].wf() && b.vars@[i].wf());
        lemma_same_sizes(a.vars@[i], b.vars@[i], n);
    }
    lemma_rec_size_same(b.vars@, a.vars@);
}
/// the definition is one a header may have
pub proof fn lemma_valid(d: HeaderDefinition)
    requires d.wf()
    ensures defs_valid(hv_of(d))
{
    let ds = *d.data_set;
    let h = hv_of(d);
    let ml = d.data_set_metadata.vars_metadata@;
    assert forall|i: int| 0 <= i < h.dims.len() implies valid_name(#[trigger] h.dims[i].0) && h.dims[i].1 <= 2147483644 by { assert((*ds.dims@[i]).wf()); }
    assert forall|i: int, j: int| 0 <= i < j < h.dims.len() implies (#[trigger] h.dims[i]).0 != (#[trigger] h.dims[j]).0 && !(h.dims[i].1 == 0 && h.dims[j].1 == 0) by {
        assert((*ds.dims@[i]).wf() && (*ds.dims@[j]).wf()); assert((*ds.dims@[i]).nm() != (*ds.dims@[j]).nm());
    }
    lemma_attrs_valid(ds.attrs@);
    assert forall|i: int| 0 <= i < h.vars.len() implies var_valid(#[trigger] h.vars[i], h.dims) && h.vars[i].name == ds.vars@[i].name@ by {
        let (v, m, x) = (ds.vars@[i], ml[i].1, h.vars[i]);
        assert(*ml[i].0 == v && meta_ok(ds, i, m, d.version, d.lay().h));
        assert(v.wf());
        lemma_attrs_valid(v.attrs@);
        assert forall|k: int| 0 <= k < x.ids.len() implies 0 <= #[trigger] x.ids[k] < h.dims.len() && (k > 0 ==> h.dims[x.ids[k]].1 != 0) by {
            assert(ds.dims@[m.dim_ids@[k] as int] == v.dims@[k]); assert((*v.dims@[k]).wf()); if k > 0 { assert(!(*v.dims@[k]).unlim()); }
        }
        assert forall|k: int, l: int| 0 <= k < l < x.ids.len() implies #[trigger] x.ids[k] != #[trigger] x.ids[l] by {
            assert(ds.dims@[m.dim_ids@[k] as int] == v.dims@[k]); assert(ds.dims@[m.dim_ids@[l] as int] == v.dims@[l]); assert(*v.dims@[k] != *v.dims@[l]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < h.vars.len() implies (#[trigger] h.vars[i]).name != (#[trigger] h.vars[j]).name by { assert(ds.vars@[i].name@ != ds.vars@[j].name@); }
}
pub proof fn lemma_attrs_valid(a: Seq<Attribute>)
    requires attrs_wf(a)
    ensures attrs_valid(attrs_h(a))
{
    assert forall|i: int| 0 <= i < a.len() implies valid_name(#[trigger] attrs_h(a)[i].name) by { assert(valid_name(a[i].name@)); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] attrs_h(a)[i]).name != (#[trigger] attrs_h(a)[j]).name by { assert(a[i].name@ != a[j].name@); }
}
// ------------------------------------------------ the number of records read back
pub open spec fn has_recs(v: Seq<Variable>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).is_rec() }
/// a count above the largest one of a header is found from the size of the file; without record variables nothing tells it
pub open spec fn recs_back(ds: DataSet) -> int { if num_recs(ds) <= 0x7fff_ffff || has_recs(ds.vars@) { num_recs(ds) } else { 0 } }
pub open spec fn all_from(s: Seq<Offset>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> m <= (#[trigger] s[i]).val() }
pub open spec fn some_at(s: Seq<Offset>, m: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).val() == m }
/// the record variables begin after the others, the first of them right there
pub proof fn lemma_begins(d: HeaderDefinition, k: int)
    requires d.wf(), 0 <= k <= d.data_set.vars@.len()
    ensures ({
        let s = rec_begins(hv_of(d).vars.take(k), hv_of(d).dims);
        let m = d.lay().h + fix_sum(d.data_set.vars@);
        &&& all_from(s, m)
        &&& s.len() == 0 ==> rec_size(d.data_set.vars@.take(k)) == 0 && forall|i: int| 0 <= i < k ==> !(#[trigger] d.data_set.vars@[i]).is_rec()
        &&& s.len() > 0 ==> some_at(s, m)
    })
    decreases k
{
    let ds = *d.data_set;
    let v = ds.vars@;
    let h = hv_of(d);
    let m = d.lay().h + fix_sum(v);
    if k > 0 {
        lemma_begins(d, k - 1);
        let i = k - 1;
        let p = rec_begins(h.vars.take(i), h.dims);
        let s = rec_begins(h.vars.take(k), h.dims);
        assert(h.vars.take(k).drop_last() =~= h.vars.take(i));
        assert(h.vars.take(k).last() == h.vars[i]);
        lemma_rec_size_step(v, i);
        let c = d.data_set_metadata.vars_metadata@[i].1;
        assert(*d.data_set_metadata.vars_metadata@[i].0 == v[i] && meta_ok(ds, i, c, d.version, d.lay().h));
        assert(vrec(h.vars[i], h.dims) == v[i].is_rec()) by {
            if v[i].dims@.len() > 0 { assert(h.vars[i].ids[0] == c.dim_ids@[0]); assert(ds.dims@[c.dim_ids@[0] as int] == v[i].dims@[0]); assert((*ds.dims@[c.dim_ids@[0] as int]).wf()); }
        }
        if v[i].is_rec() {
            assert(s == p.push(c.begin_offset));
            assert(c.begin_offset.val() == m + rec_size(v.take(i)));
            assert forall|j: int| 0 <= j < s.len() implies m <= (#[trigger] s[j]).val() by { if j < p.len() { assert(s[j] == p[j]); } }
            if p.len() == 0 { assert(s[0].val() == m); } else { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).val() == m; assert(s[j].val() == m); }
        }
    } else {
        assert(h.vars.take(0) =~= Seq::empty() && v.take(0) =~= Seq::empty());
    }
}
pub proof fn lemma_recs_back(d: HeaderDefinition)
    requires d.wf()
    ensures recs_fill(hv_of(d), data_end(d.lay()), rec_size(d.data_set.vars@), if has_recs(d.data_set.vars@) { num_recs(*d.data_set) } else { 0 }),
        forall|n: int| recs_fill(hv_of(d), data_end(d.lay()), rec_size(d.data_set.vars@), n) ==> n == if has_recs(d.data_set.vars@) { num_recs(*d.data_set) } else { 0 }
{
    let ds = *d.data_set;
    let v = ds.vars@;
    let h = hv_of(d);
    let s = rec_begins(h.vars, h.dims);
    let m = d.lay().h + fix_sum(v);
    let rs = rec_size(v);
    lemma_begins(d, v.len() as int);
    assert(h.vars.take(v.len() as int) =~= h.vars);
    assert(v.take(v.len() as int) =~= v);
    if s.len() > 0 {
        assert(has_recs(v)) by { if !has_recs(v) { lemma_no_recs(d, v.len() as int); } }
        assert(is_min(s, m));
        lemma_rs_pos(v);
        assert forall|n: int| recs_fill(h, data_end(d.lay()), rs, n) implies n == num_recs(ds) by {
            let m2 = choose|m2: int| #[trigger] is_min(s, m2) && n >= 0 && m2 + n * rs == data_end(d.lay());
            lemma_min_same(s);
            assert(n == num_recs(ds)) by (nonlinear_arith) requires n * rs == num_recs(ds) * rs, rs > 0;
        }
    } else {
        if has_recs(v) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).is_rec(); assert(!v[i].is_rec()); }
    }
}
pub proof fn lemma_no_recs(d: HeaderDefinition, k: int)
    requires d.wf(), 0 <= k <= d.data_set.vars@.len(), !has_recs(d.data_set.vars@)
    ensures rec_begins(hv_of(d).vars.take(k), hv_of(d).dims).len() == 0
    decreases k
{
    let ds = *d.data_set;
    let v = ds.vars@;
    let h = hv_of(d);
    if k > 0 {
        let i = k - 1;
        lemma_no_recs(d, i);
        assert(h.vars.take(k).drop_last() =~= h.vars.take(i));
        assert(h.vars.take(k).last() == h.vars[i]);
        let c = d.data_set_metadata.vars_metadata@[i].1;
        assert(*d.data_set_metadata.vars_metadata@[i].0 == v[i] && meta_ok(ds, i, c, d.version, d.lay().h));
        assert(!v[i].is_rec());
        if v[i].dims@.len() > 0 { assert(h.vars[i].ids[0] == c.dim_ids@[0]); assert(ds.dims@[c.dim_ids@[0] as int] == v[i].dims@[0]); assert((*ds.dims@[c.dim_ids@[0] as int]).wf()); }
    } else { assert(h.vars.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_rs_pos(v: Seq<Variable>)
    requires has_recs(v), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf()
    ensures rec_size(v) >= 4
{
    let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).is_rec();
    assert(v[i].wf());
    lemma_rec_size_step(v, i);
    lemma_rsize_nonneg(v[i]);
}
pub proof fn lemma_fits_back(d: HeaderDefinition, b: DataSet, n: int)
    requires d.wf(), b.wf(), same_ds(b, *d.data_set, n), 0 <= n <= num_recs(*d.data_set)
    ensures fits(b)
{
    let v = d.data_set.vars@;
    lemma_same_all(b, *d.data_set, n);
    lemma_sums_nonneg(v);
    assert forall|i: int| 0 <= i < b.vars@.len() implies (#[trigger] b.vars@[i]).rsize() <= i64::MAX by {
        assert(v[i].wf());
        lemma_rsize_nonneg(v[i]);
        lemma_fix_take(v, i);
        lemma_sums_mono(v, i, v.len() as int);
        lemma_sums_mono(v, i + 1, v.len() as int);
        assert(v.take(v.len() as int) =~= v);
    }
    lemma_mul_le(num_recs(b), num_recs(*d.data_set), rec_size(v));
    lemma_mul_le(0, num_recs(b), rec_size(v));
}
/// C18: the file written is opened, and gives the data set written
pub proof fn lemma_round_open(d: HeaderDefinition, f: Seq<u8>)
    requires d.wf(), pre(header_bytes(d), f), f.len() == data_end(d.lay())
    ensures d_header(f) is Ok, d_header(f).x() == hv_of(d), !refused(hv_of(d), f.len() as int),
        forall|b: DataSet| #[trigger] header_gives(hv_of(d), f.len() as int, b) ==> same_ds(b, *d.data_set, recs_back(*d.data_set))
{
    let ds = *d.data_set;
    let h = hv_of(d);
    let size = f.len() as int;
    lemma_dec_header(d, f);
    lemma_valid(d);
    lemma_recs_back(d);
    assert forall|b: DataSet| b.wf() && #[trigger] defs_are(b, h, hrecs(h)) implies fits(b) && (h.nrecs is None && b.unlimited_dim is Some ==> recs_fill(h, size, rec_size(b.vars@), if has_recs(ds.vars@) { num_recs(ds) } else { 0 })) by {
        lemma_ds_back(d, b, hrecs(h));
        lemma_fits_back(d, b, hrecs(h));
        lemma_same_all(b, ds, hrecs(h));
    }
    assert forall|b: DataSet| #[trigger] header_gives(h, size, b) implies same_ds(b, ds, recs_back(ds)) by {
        let n = choose|n: int| 0 <= n && #[trigger] defs_are(b, h, n) && recs_are(h, size, b, n);
        lemma_ds_back(d, b, n);
        lemma_same_all(b, ds, n);
        if h.nrecs is None { assert(ds.unlimited_dim is Some); }
    }
}
// ------------------------------------------------ reading the values back
/// what FileReader::open ensures, of the file f
pub open spec fn opened(rd: FileReader, f: Seq<u8>) -> bool {
    rd.inv() && rd.input_file.out().data == f && (d_header(f) matches PR::Ok(h, n) && rd.version == h.version && vars_v(rd.vars_info@) == h.vars && header_gives(h, f.len() as int, rd.data_set))
}
pub proof fn lemma_pre_of(d: HeaderDefinition, f: Seq<u8>, m: Recs)
    requires d.wf(), complete(d.lay(), f, header_bytes(d), m)
    ensures pre(header_bytes(d), f), lay_ok(d.lay())
{
    lemma_lay_ok(d);
    lemma_data_end(d.lay());
    let b = header_bytes(d);
    assert(b =~= f.take(b.len() as int));
}
/// C18: opening a closed file succeeds, with the version and the data set written
pub proof fn lemma_round_def(d: HeaderDefinition, f: Seq<u8>, m: Recs)
    requires d.wf(), complete(d.lay(), f, header_bytes(d), m)
    ensures d_header(f) matches PR::Ok(h, n) && !refused(h, f.len() as int),
        forall|rd: FileReader| #[trigger] opened(rd, f) ==> rd.version == d.version && same_ds(rd.data_set, *d.data_set, recs_back(*d.data_set))
{ lemma_pre_of(d, f, m); lemma_round_open(d, f); }
/// C18: what a reader of a closed file finds at a record is what the record holds
#[verifier::spinoff_prover]
pub proof fn lemma_round_at(d: HeaderDefinition, f: Seq<u8>, m: Recs, rd: FileReader, i: int, r: int)
    requires d.wf(), complete(d.lay(), f, header_bytes(d), m), opened(rd, f), is_rec_of(d.lay(), i, r)
    ensures rd.lay().v[i].name@ == d.data_set.vars@[i].name@, rd.lay().v[i].data_type == d.data_set.vars@[i].data_type, rd.lay().v[i].rlen() == d.data_set.vars@[i].rlen(), rd.lay().v[i].nrecs() == d.data_set.vars@[i].nrecs(),
        rd.lay().v.len() == d.data_set.vars@.len(),
        rd.lay().at(i, r) == rec_at(d.lay(), i, r), rd.lay().has_rec(i, r), 0 <= rd.lay().nbytes(i) <= m(i, r)->0.len(), rd.lay().nbytes(i) == d.data_set.vars@[i].rlen() * d.data_set.vars@[i].data_type.esize(),
        bytes_at(f, rd.lay().at(i, r), rd.lay().nbytes(i)) == m(i, r)->0.take(rd.lay().nbytes(i))
{
    let ds = *d.data_set;
    let (a, b) = (rd.data_set, ds);
    let n = recs_back(ds);
    lemma_pre_of(d, f, m);
    lemma_round_open(d, f);
    assert(same_ds(a, b, n));
    lemma_same_all(a, b, n);
    assert(same_var(a.vars@[i], b.vars@[i], n));
    assert(a.vars@[i].rlen() == b.vars@[i].rlen());
    assert(b.vars@[i].wf() && a.vars@[i].wf());
    if b.vars@[i].is_rec() { lemma_num_recs(b, i); lemma_num_recs(a, i); assert(has_recs(b.vars@)); }
    let c = d.data_set_metadata.vars_metadata@[i].1;
    assert(*d.data_set_metadata.vars_metadata@[i].0 == b.vars@[i] && meta_ok(ds, i, c, d.version, d.lay().h));
    assert(vars_v(rd.vars_info@)[i] == hv_of(d).vars[i]);
    assert(rd.vars_info@[i].begin_offset == c.begin_offset);
    lemma_rsize_nonneg(b.vars@[i]);
    lemma_rec_in(d.lay(), i, r);
    let (p, k, x) = (rec_at(d.lay(), i, r), rd.lay().nbytes(i), m(i, r)->0);
    assert(m(i, r) is Some);
    assert(f.subrange(p, p + x.len()) == x);
    assert(f.subrange(p, p + k) =~= x.take(k));
}
@for T,F,n in i8:I8:1 u8:U8:1 i16:I16:2 i32:I32:4 f32:F32:4 f64:F64:8
/// C18: reading a record gives the values last written, bit for bit
pub proof fn lemma_round_one_%T%(d: HeaderDefinition, f: Seq<u8>, m: Recs, rd: FileReader, i: int, r: int, s: Seq<%T%>, x: Vec<%T%>)
    requires d.wf(), complete(d.lay(), f, header_bytes(d), m), opened(rd, f), is_rec_of(d.lay(), i, r), m(i, r) == Some(chunk_%T%(s)), s.len() == d.data_set.vars@[i].rlen(),
        is_one(rd.lay(), i, r, DataVector::%F%(x)),
    ensures same_%T%(x@, s)
{
    lemma_round_at(d, f, m, rd, i, r);
    lemma_chunk_take_%T%(s);
    lemma_inj_%T%(x@, s);
}
/// C18: reading a variable gives, record by record, the values last written, bit for bit
pub proof fn lemma_round_all_%T%(d: HeaderDefinition, f: Seq<u8>, m: Recs, rd: FileReader, i: int, r: int, s: Seq<%T%>, x: Vec<%T%>)
    requires d.wf(), complete(d.lay(), f, header_bytes(d), m), opened(rd, f), is_rec_of(d.lay(), i, r), m(i, r) == Some(chunk_%T%(s)), s.len() == d.data_set.vars@[i].rlen(),
        is_all(rd.lay(), i, DataVector::%F%(x)),
    ensures x@.len() == d.data_set.vars@[i].total(), same_%T%(x@.subrange(r * d.data_set.vars@[i].rlen(), (r + 1) * d.data_set.vars@[i].rlen()), s)
{
    lemma_round_at(d, f, m, rd, i, r);
    lemma_chunk_take_%T%(s);
    reveal(holds_recs);
    assert(holds_rec(rd.lay(), i, DataVector::%F%(x), r));
    lemma_inj_%T%(x@.subrange(r * d.data_set.vars@[i].rlen(), (r + 1) * d.data_set.vars@[i].rlen()), s);
}
/// C18: what was not written is filled
pub proof fn lemma_round_fill_%T%(d: HeaderDefinition, m: Recs, i: int, r: int)
    requires d.wf(), is_rec_of(d.lay(), i, r), m(i, r) is None, d.data_set.vars@[i].data_type == DataType::%F%
    ensures final_recs(d.lay(), m)(i, r) == Some(chunk_%T%(fillv_%T%(d.data_set.vars@[i].rlen()))), fillv_%T%(d.data_set.vars@[i].rlen()).len() == d.data_set.vars@[i].rlen(),
        forall|k: int| 0 <= k < d.data_set.vars@[i].rlen() ==> #[trigger] fillv_%T%(d.data_set.vars@[i].rlen())[k] == NC_FILL_%F%
{
    assert(d.data_set.vars@[i].wf());
    lemma_rsize_nonneg(d.data_set.vars@[i]);
    lemma_fillv_%T%(d.data_set.vars@[i].rlen());
}
@endfor
/// C18: no read of a closed file is refused for lack of data
pub proof fn lemma_round_no_err(d: HeaderDefinition, f: Seq<u8>, m: Recs, rd: FileReader, i: int, e: ReadError)
    requires d.wf(), complete(d.lay(), f, header_bytes(d), m), opened(rd, f), 0 <= i < d.data_set.vars@.len(), rd.reachable(i)
    ensures !rd.e_read(d.data_set.vars@[i].name@, e), !rd.e_io_all(d.data_set.vars@[i].name@, e),
        forall|r: int| is_rec_of(d.lay(), i, r) ==> !#[trigger] rd.e_io_one(d.data_set.vars@[i].name@, r, e) && !rd.e_index(d.data_set.vars@[i].name@, r, e),
        !rd.e_type(d.data_set.vars@[i].name@, d.data_set.vars@[i].data_type, e),
{
    let nm = d.data_set.vars@[i].name@;
    lemma_pre_of(d, f, m); lemma_round_open(d, f);
    let n = recs_back(*d.data_set);
    lemma_same_all(rd.data_set, *d.data_set, n);
    assert(same_var(rd.data_set.vars@[i], d.data_set.vars@[i], n));
    assert(rd.lay().v[i].name@ == nm);
    assert(forall|j: int| #[trigger] rd.lay().is_var(j, nm) ==> j == i) by {
        assert forall|j: int| #[trigger] rd.lay().is_var(j, nm) implies j == i by { if j < i { assert(rd.lay().v[j].name@ != rd.lay().v[i].name@); } if i < j { assert(rd.lay().v[i].name@ != rd.lay().v[j].name@); } }
    }
    assert(rd.lay().v[i].nrecs() == d.data_set.vars@[i].nrecs()) by {
        assert(rd.data_set.vars@[i].is_rec() == d.data_set.vars@[i].is_rec());
        if d.data_set.vars@[i].is_rec() { lemma_num_recs(*d.data_set, i); lemma_num_recs(rd.data_set, i); assert(has_recs(d.data_set.vars@)); }
    }
    assert forall|r: int| is_rec_of(d.lay(), i, r) implies #[trigger] rd.lay().has_rec(i, r) by { lemma_round_at(d, f, m, rd, i, r); }
    assert forall|r: int| is_rec_of(d.lay(), i, r) implies !#[trigger] rd.e_io_one(nm, r, e) && !rd.e_index(nm, r, e) by { assert(rd.lay().has_rec(i, r)); }
}
/// C18: from the definition to the closed file, after any writes
pub proof fn lemma_round(w0: FileWriter, w: FileWriter, m: Recs, f: Seq<u8>)
    requires w0.inv(), w0.defined(), w0.written_records@.len() == 0, w0.bytes() == header_bytes(w0.header_def->0), hist(w0, w, m), stored(w.lay(), w.bytes(), f, w.fills())
    ensures complete(w0.lay(), f, header_bytes(w0.header_def->0), final_recs(w0.lay(), m)), d_header(f) matches PR::Ok(h, n) && !refused(h, f.len() as int),
        forall|rd: FileReader| #[trigger] opened(rd, f) ==> rd.version == w0.header_def->0.version && same_ds(rd.data_set, *w0.header_def->0.data_set, recs_back(*w0.header_def->0.data_set))
{
    lemma_closed(w0, w, m, f);
    lemma_round_def(w0.header_def->0, f, final_recs(w0.lay(), m));
}
