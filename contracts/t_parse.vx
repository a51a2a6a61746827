@allocs
@bcast group_parse
@c ------------------------------------------------ parsing the header (C14, C15)
@fn ParseHeaderError::new
@spec
    ensures r.kind == kind, r.inc() == (err is Incomplete),
@fn ParseHeaderError::header_is_incomplete
@spec
    ensures r == self.inc(),
@fn ReadError::header_is_incomplete
@spec
    ensures r == (self matches ReadError::ParseHeader(e) && e.inc()),
@fn <InvalidBytes as From<NomError<'a>>>::from
@spec
    ensures r is Incomplete == err is Incomplete,
@fn FileReader::parse_magic_word
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_magic(input@), rest@, ()), Err(e) => pr_err(d_magic(input@), e) },
@closure 0
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_version
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_version(input@), rest@, x), Err(e) => pr_err(d_version(input@), e) },
@closure 0
-> (b: bool) ensures b == (*ver_num == 1 || *ver_num == 2)
@closure 1
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_non_neg_i32
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_len(input@), rest@, x as int), Err(e) => pr_err(d_len(input@), e) },
@closure 0
-> (b: bool) ensures b == (*number >= 0)
@closure 1
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_as_usize
@spec
    ensures match r { Ok((rest, x)) => x <= i32::MAX && pr_ok(input@, d_len(input@), rest@, x as int), Err(e) => pr_err(d_len(input@), e) },
@fn FileReader::parse_as_u32
@spec
    ensures match r { Ok((rest, x)) => x <= i32::MAX && pr_ok(input@, d_len(input@), rest@, x as int), Err(e) => pr_err(d_len(input@), e) },
@fn FileReader::parse_as_usize_optional
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_optlen(input@), rest@, match x { Some(n) => Some(n as int), None => None }), Err(e) => pr_err(d_optlen(input@), e) },
@closure 0
-> (b: bool) ensures b == (*number <= i32::MAX as u32 || *number == u32::MAX)
@closure 1
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_name_string
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_name(input@), rest@, x@), Err(e) => pr_err(d_name(input@), e) },
@closure 0
-> (s: Result<VStr, VUtf8Error>) ensures match s { Ok(x) => utf8(x@) == bytes@, Err(_) => !is_utf8(bytes@) }
@closure 1
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_data_type
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_type(input@), rest@, x), Err(e) => pr_err(d_type(input@), e) },
@closure 0
-> (e: NomErr<(&[u8], NomErrorKind)>) ensures e is Error
@closure 1
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_typed_data_elements
@spec
    requires num_of_elements <= i32::MAX
    ensures match r { Ok((rest, x)) => x.dtype() == data_type && x.vlen() == num_of_elements && pr_ok(input@, d_vals(input@, num_of_elements as int, data_type), rest@, enc_values(x)), Err(e) => pr_err(d_vals(input@, num_of_elements as int, data_type), e) },
@closure 0
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@closure 1
-> (q: (&[u8], DataVector)) ensures q.0@ == _p1_0.0@, q.1 == DataVector::I8(_p1_0.1)
@closure 2
-> (q: (&[u8], DataVector)) ensures q.0@ == _p2_0.0@, q.1 == DataVector::U8(_p2_0.1)
@closure 3
-> (q: (&[u8], DataVector)) ensures q.0@ == _p3_0.0@, q.1 == DataVector::I16(_p3_0.1)
@closure 4
-> (q: (&[u8], DataVector)) ensures q.0@ == _p4_0.0@, q.1 == DataVector::I32(_p4_0.1)
@closure 5
-> (q: (&[u8], DataVector)) ensures q.0@ == _p5_0.0@, q.1 == DataVector::F32(_p5_0.1)
@closure 6
-> (q: (&[u8], DataVector)) ensures q.0@ == _p6_0.0@, q.1 == DataVector::F64(_p6_0.1)
@closure 7
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_zero_padding
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_zeros(input@, num_bytes as int), rest@, ()), Err(e) => pr_err(d_zeros(input@, num_bytes as int), e) },
@closure 0
-> (b: bool) ensures b == all_zero(padding_bytes@)
@closure 1
-> (b: bool) ensures b == (*byte == 0)
@closure 2
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@fn FileReader::parse_dims_list::parse_dim
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_dim(input@), rest@, dim_v(x)), Err(e) => pr_err(d_dim(input@), e) },
@fn FileReader::parse_dims_list
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_dims(input@), rest@, dims_v(x@)), Err(e) => pr_err(d_dims(input@), e) },
@closure 0
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@after let (input, dim_tag)
    let ghost b1 = input@;
    proof { assert(DIMENSION_TAG@ =~= t_dim()); assert(ABSENT_TAG@ =~= absent()); assert(dims_v(seq![]) =~= seq![]); assert(attrs_v(seq![]) =~= seq![]); assert(vars_v(seq![]) =~= seq![]); }
@after let (mut input, num_of_dims)
    let ghost b2 = input@;
    proof { lemma_many_none(f_dim(), b2); }
@loop 0
    #[verifier::loop_isolation(false)]
    invariant
        many_at(f_dim(), b2, _k0 as int, dims_v(dims_list@), input@),
@loopstart 0
    let ghost l0 = dims_list@;
    proof { lemma_many_next(f_dim(), b2, _k0 as int, num_of_dims as int, dims_v(dims_list@), input@); }
@loopend 0
    proof { assert(dims_v(dims_list@) =~= dims_v(l0).push(dim_v(dims_list@.last()))); }
@loopafter 0
    proof { lemma_many_done(f_dim(), b2, num_of_dims as int, dims_v(dims_list@), input@); }
@fn FileReader::parse_attrs_list::parse_attr
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_attr(input@), rest@, attr_v(x)), Err(e) => pr_err(d_attr(input@), e) },
@fn FileReader::parse_attrs_list
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_attrs(input@), rest@, attrs_v(x@)), Err(e) => pr_err(d_attrs(input@), e) },
@closure 0
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@after let (input, attr_tag)
    let ghost b1 = input@;
    proof { assert(ATTRIBUTE_TAG@ =~= t_attr()); assert(ABSENT_TAG@ =~= absent()); assert(dims_v(seq![]) =~= seq![]); assert(attrs_v(seq![]) =~= seq![]); assert(vars_v(seq![]) =~= seq![]); }
@after let (mut input, num_of_attrs)
    let ghost b2 = input@;
    proof { lemma_many_none(f_attr(), b2); }
@loop 0
    #[verifier::loop_isolation(false)]
    invariant
        many_at(f_attr(), b2, _k0 as int, attrs_v(attrs_list@), input@),
@loopstart 0
    let ghost l0 = attrs_list@;
    proof { lemma_many_next(f_attr(), b2, _k0 as int, num_of_attrs as int, attrs_v(attrs_list@), input@); }
@loopend 0
    proof { assert(attrs_v(attrs_list@) =~= attrs_v(l0).push(attr_v(attrs_list@.last()))); }
@loopafter 0
    proof { lemma_many_done(f_attr(), b2, num_of_attrs as int, attrs_v(attrs_list@), input@); }
@fn FileReader::parse_vars_list::parse_var
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_var(input@, version), rest@, var_v(x)), Err(e) => pr_err(d_var(input@, version), e) },
@fn FileReader::parse_vars_list
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_vars(input@, version), rest@, vars_v(x@)), Err(e) => pr_err(d_vars(input@, version), e) },
@closure 0
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
@after let (input, var_tag)
    let ghost b1 = input@;
    proof { assert(VARIABLE_TAG@ =~= t_var()); assert(ABSENT_TAG@ =~= absent()); assert(dims_v(seq![]) =~= seq![]); assert(attrs_v(seq![]) =~= seq![]); assert(vars_v(seq![]) =~= seq![]); }
@after let (mut input, num_of_vars)
    let ghost b2 = input@;
    proof { lemma_many_none(f_var(version), b2); }
@loop 0
    #[verifier::loop_isolation(false)]
    invariant
        many_at(f_var(version), b2, _k0 as int, vars_v(vars_list@), input@),
@loopstart 0
    let ghost l0 = vars_list@;
    proof { lemma_many_next(f_var(version), b2, _k0 as int, num_of_vars as int, vars_v(vars_list@), input@); }
@loopend 0
    proof { assert(vars_v(vars_list@) =~= vars_v(l0).push(var_v(vars_list@.last()))); }
@loopafter 0
    proof { lemma_many_done(f_var(version), b2, num_of_vars as int, vars_v(vars_list@), input@); }
@fn FileReader::parse_vars_list::parse_dim_ids_list
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_counted(f_id(), input@), rest@, ids_v(x@)), Err(e) => pr_err(d_counted(f_id(), input@), e) },
@after let (mut input, num_of_dims)
    let ghost b2 = input@;
    proof { lemma_many_none(f_id(), b2); }
    proof { assert(ids_v(seq![]) =~= seq![]); }
@loop 0
    #[verifier::loop_isolation(false)]
    invariant
        many_at(f_id(), b2, _k0 as int, ids_v(dim_ids_list@), input@),
@loopstart 0
    let ghost l0 = dim_ids_list@;
    proof { lemma_many_next(f_id(), b2, _k0 as int, num_of_dims as int, ids_v(dim_ids_list@), input@); }
@loopend 0
    proof { assert(ids_v(dim_ids_list@) =~= ids_v(l0).push(dim_ids_list@.last() as int)); }
@loopafter 0
    proof { lemma_many_done(f_id(), b2, num_of_dims as int, ids_v(dim_ids_list@), input@); }
@fn FileReader::parse_vars_list::parse_offset
@spec
    ensures match r { Ok((rest, x)) => pr_ok(input@, d_offset(input@, version), rest@, x), Err(e) => pr_err(d_offset(input@, version), e) },
@closure 0
-> (b: bool) ensures b == (*num_of_bytes >= 0)
@closure 1
-> (q: (&[u8], Offset)) ensures q.0@ == _p1_0.0@, q.1 == Offset::I32(_p1_0.1)
@closure 2
-> (b: bool) ensures b == (*num_of_bytes >= 0)
@closure 3
-> (q: (&[u8], Offset)) ensures q.0@ == _p3_0.0@, q.1 == Offset::I64(_p3_0.1)
@closure 4
-> (e: ParseHeaderError) ensures e.inc() == (err is Incomplete)
