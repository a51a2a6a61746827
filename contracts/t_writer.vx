@bcast group_writer
@c ------------------------------------------------ header bytes (C08)
@fn FileWriter::write_bytes
@spec
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), bytes@) && r->Ok_0 == bytes@.len(),
@start
    proof { assert(base(old(out_stream).out())); }
@fn FileWriter::write_name_string
@spec
    requires valid_name(name@),
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_name(name@)) && r->Ok_0 == enc_name(name@).len(),
@start
    proof { assert(base(old(out_stream).out())); }
@fn FileWriter::write_data_type
@spec
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), be32(data_type.code())) && r->Ok_0 == 4,
@start
    proof { assert(base(old(out_stream).out())); }
@fn FileWriter::write_dims_list::write_dim
@spec
    requires dim.wf(),
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_dim(**dim)) && r->Ok_0 == enc_dim(**dim).len(),
@start
    proof { assert(base(old(out_stream).out())); }
@fn FileWriter::write_dims_list
@spec
    requires dims_fit(dims_list@), forall|i: int| 0 <= i < dims_list@.len() ==> (*#[trigger] dims_list@[i]).wf(), enc_dims(dims_list@).len() <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_dims(dims_list@)) && r->Ok_0 == enc_dims(dims_list@).len(),
@start
    proof { assert(base(old(out_stream).out())); }
    proof { reveal(be32); assert(DIMENSION_TAG@ =~= be32(0x0A)); assert(ABSENT_TAG@ =~= absent()); }
@loopinit 0
    let ghost hd = be32(0x0A) + be32(dims_list@.len() as int);
    proof { assert(dims_list@.take(0) =~= Seq::empty()); assert(hd + enc_dims_seq(dims_list@.take(0)) =~= hd); }
@loop 0
    invariant base(old(out_stream).out()), 0 <= _it0.idx() <= _it0.seq().len(), dims_list@.len() > 0, _it0.seq().len() == dims_list@.len(), enc_dims(dims_list@).len() <= usize::MAX,
        forall|i: int| 0 <= i < dims_list@.len() ==> *#[trigger] _it0.seq()[i] == dims_list@[i],
        forall|i: int| 0 <= i < dims_list@.len() ==> (*#[trigger] dims_list@[i]).wf(),
        hd == be32(0x0A) + be32(dims_list@.len() as int),
        out_stream.out() == put(old(out_stream).out(), hd + enc_dims_seq(dims_list@.take(_it0.idx()))),
        num_bytes == (hd + enc_dims_seq(dims_list@.take(_it0.idx()))).len(),
@loopstart 0
    proof {
        let k = _it0.idx();
        lemma_dims_step(dims_list@, k);
        assert((hd + enc_dims_seq(dims_list@.take(k - 1))) + enc_dim(*dims_list@[k - 1]) =~= hd + enc_dims_seq(dims_list@.take(k)));
        assert(enc_dims(dims_list@).len() == hd.len() + enc_dims_seq(dims_list@).len());
    }
@loopafter 0
    proof { assert(dims_list@.take(_it0.idx()) =~= dims_list@); }
@for T,V,n in i8:I8:1 u8:U8:1 i16:I16:2 i32:I32:4 f32:F32:4 f64:F64:8
@fn FileWriter::write_elements_%T%
@spec
    requires slice@.len() as int * %n% <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), be_all_%T%(slice@)) && r->Ok_0 == be_all_%T%(slice@).len(),
@start
    proof { assert(base(old(out_stream).out())); }
    proof { lemma_chunk_len_%T%(slice@); lemma_be_all_%T%(slice@); }
@loopinit 0
    proof { assert(slice@.take(0) =~= Seq::empty()); }
@loop 0
    invariant base(old(out_stream).out()), 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq().len() == slice@.len(),
        forall|i: int| 0 <= i < slice@.len() ==> *#[trigger] _it0.seq()[i] == slice@[i],
        out_stream.out() == put(old(out_stream).out(), be_all_%T%(slice@.take(_it0.idx()))), slice@.len() as int * %n% <= usize::MAX,
@loopstart 0
    proof { lemma_be_step_%T%(slice@, _it0.idx()); }
@loopafter 0
    proof { assert(slice@.take(_it0.idx()) =~= slice@); }
@fn FileWriter::write_chunk_%T%
@spec
    requires round4(slice@.len() as int * %n%) <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), chunk_%T%(slice@)) && r->Ok_0 == chunk_%T%(slice@).len(),
        only(old(out_stream).out().data, final(out_stream).out().data, old(out_stream).out().pos as int, old(out_stream).out().pos + round4(slice@.len() as int * %n%)),
        chunk_%T%(slice@).len() == round4(slice@.len() as int * %n%),
@start
    proof { assert(base(old(out_stream).out())); }
    proof { lemma_chunk_len_%T%(slice@); lemma_be_all_%T%(slice@); }
@loopinit 0
    proof { assert(slice@.take(0) =~= Seq::empty()); }
@loop 0
    invariant base(old(out_stream).out()), 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq().len() == slice@.len(),
        forall|i: int| 0 <= i < slice@.len() ==> *#[trigger] _it0.seq()[i] == slice@[i],
        out_stream.out() == put(old(out_stream).out(), be_all_%T%(slice@.take(_it0.idx()))), round4(slice@.len() as int * %n%) <= usize::MAX,
        chunk_%T%(slice@).len() == round4(slice@.len() as int * %n%), be_all_%T%(slice@).len() == slice@.len() as int * %n%, be_all_%T%(slice@.take(_it0.idx())).len() == _it0.idx() * %n%,
@loopstart 0
    proof { lemma_be_step_%T%(slice@, _it0.idx()); }
@loopafter 0
    proof { assert(slice@.take(_it0.idx()) =~= slice@); }
@before write_all(&padding_bytes)
    proof { assert(padding_bytes@ =~= cyc(NC_FILL_%V%.be(), pad4(slice@.len() as int * %n%))); }
@fn FileWriter::write_chunk_nc_fill_%T%
@spec
    requires round4(num_values as int * %n%) <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), fill_%T%(num_values as int)) && r->Ok_0 == fill_%T%(num_values as int).len(),
        only(old(out_stream).out().data, final(out_stream).out().data, old(out_stream).out().pos as int, old(out_stream).out().pos + round4(num_values as int * %n%)),
        fill_%T%(num_values as int).len() == round4(num_values as int * %n%),
@start
    proof { assert(base(old(out_stream).out())); }
    let ghost fv = fillv_%T%(num_values as int);
    proof { lemma_fillv_%T%(num_values as int); }
    proof { lemma_chunk_len_%T%(fv); lemma_be_all_%T%(fv); assert(fv.take(0) =~= Seq::empty()); }
@loop 0
    invariant base(old(out_stream).out()), fv.len() == num_values, forall|i: int| 0 <= i < num_values ==> #[trigger] fv[i] == NC_FILL_%V%, bytes@ == NC_FILL_%V%.be(),
        out_stream.out() == put(old(out_stream).out(), be_all_%T%(fv.take(_k0 as int))), round4(num_values as int * %n%) <= usize::MAX,
        fill_%T%(num_values as int).len() == round4(num_values as int * %n%), be_all_%T%(fv).len() == num_values as int * %n%, be_all_%T%(fv.take(_k0 as int)).len() == _k0 * %n%,
@loopstart 0
    proof { lemma_be_step_%T%(fv, _k0 + 1); assert(fv[_k0 as int] == NC_FILL_%V%); }
@loopafter 0
    proof { assert(fv.take(num_values as int) =~= fv); }
@before write_all(&padding_bytes)
    proof { assert(padding_bytes@ =~= cyc(NC_FILL_%V%.be(), pad4(num_values as int * %n%))); }
@endfor
@fn FileWriter::write_attrs_list::write_attr
@spec
    requires valid_name(attr.name@), attr_fits(*attr),
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_attr(*attr)) && r->Ok_0 == enc_attr(*attr).len(),
@start
    proof { assert(base(old(out_stream).out())); }
    proof { lemma_values_len(attr.data); }
@fn FileWriter::write_attrs_list
@spec
    requires attrs_fit(attrs_list@), forall|i: int| 0 <= i < attrs_list@.len() ==> valid_name(#[trigger] attrs_list@[i].name@), enc_attrs(attrs_list@).len() <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_attrs(attrs_list@)) && r->Ok_0 == enc_attrs(attrs_list@).len(),
@start
    proof { assert(base(old(out_stream).out())); }
    proof { reveal(be32); assert(ATTRIBUTE_TAG@ =~= be32(0x0C)); assert(ABSENT_TAG@ =~= absent()); }
@loopinit 0
    let ghost hd = be32(0x0C) + be32(attrs_list@.len() as int);
    proof { assert(attrs_list@.take(0) =~= Seq::empty()); assert(hd + enc_attrs_seq(attrs_list@.take(0)) =~= hd); }
@loop 0
    invariant base(old(out_stream).out()), 0 <= _it0.idx() <= _it0.seq().len(), attrs_list@.len() > 0, _it0.seq().len() == attrs_list@.len(), enc_attrs(attrs_list@).len() <= usize::MAX, attrs_fit(attrs_list@),
        forall|i: int| 0 <= i < attrs_list@.len() ==> *#[trigger] _it0.seq()[i] == attrs_list@[i],
        forall|i: int| 0 <= i < attrs_list@.len() ==> valid_name(#[trigger] attrs_list@[i].name@),
        hd == be32(0x0C) + be32(attrs_list@.len() as int),
        out_stream.out() == put(old(out_stream).out(), hd + enc_attrs_seq(attrs_list@.take(_it0.idx()))),
        num_bytes == (hd + enc_attrs_seq(attrs_list@.take(_it0.idx()))).len(),
@loopstart 0
    proof {
        let k = _it0.idx();
        lemma_attrs_step(attrs_list@, k);
        assert((hd + enc_attrs_seq(attrs_list@.take(k - 1))) + enc_attr(attrs_list@[k - 1]) =~= hd + enc_attrs_seq(attrs_list@.take(k)));
        assert(enc_attrs(attrs_list@).len() == hd.len() + enc_attrs_seq(attrs_list@).len());
    }
@loopafter 0
    proof { assert(attrs_list@.take(_it0.idx()) =~= attrs_list@); }
@fn FileWriter::write_vars_list::write_var
@spec
    requires var_fits(*var, *var_metadata), enc_var(*var, *var_metadata).len() <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_var(*var, *var_metadata)) && r->Ok_0 == enc_var(*var, *var_metadata).len(),
        r is Err ==> r->Err_0 is IOErrorKind,
@loopinit 0
    let ghost ids = var_metadata.dim_ids@;
    let ghost hd = enc_name(var.name@) + be32(var.dims@.len() as int);
    proof { assert(ids.take(0) =~= Seq::empty()); assert(hd + enc_ids(ids.take(0)) =~= hd); }
@loop 0
    invariant base(old(out_stream).out()), 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq().len() == ids.len(), ids == var_metadata.dim_ids@, var_fits(*var, *var_metadata), enc_var(*var, *var_metadata).len() <= usize::MAX,
        forall|i: int| 0 <= i < ids.len() ==> *#[trigger] _it0.seq()[i] == ids[i],
        hd == enc_name(var.name@) + be32(var.dims@.len() as int),
        out_stream.out() == put(old(out_stream).out(), hd + enc_ids(ids.take(_it0.idx()))),
        num_bytes == (hd + enc_ids(ids.take(_it0.idx()))).len(),
        enc_ids(ids).len() == ids.len() * 4, enc_ids(ids.take(_it0.idx())).len() == _it0.idx() * 4,
@loopstart 0
    proof {
        let k = _it0.idx();
        lemma_ids_step(ids, k);
        assert((hd + enc_ids(ids.take(k - 1))) + be32(ids[k - 1] as int) =~= hd + enc_ids(ids.take(k)));
        assert(hd.len() + enc_ids(ids).len() <= enc_var(*var, *var_metadata).len());
    }
@loopafter 0
    proof { assert(ids.take(_it0.idx()) =~= ids); }
@start
    proof { assert(base(old(out_stream).out())); }
    proof { 
        let ids = var_metadata.dim_ids@;
        assert(ids.take(ids.len() as int) =~= ids);
        if ids.len() > 0 { lemma_ids_step(ids, ids.len() as int); }
    }
@fn FileWriter::write_vars_list
@spec
    requires vars_fit(vars_metadata_list@), enc_vars(vars_metadata_list@).len() <= usize::MAX,
    ensures r is Ok ==> final(out_stream).out() == put(old(out_stream).out(), enc_vars(vars_metadata_list@)) && r->Ok_0 == enc_vars(vars_metadata_list@).len(),
        r is Err ==> r->Err_0 is IOErrorKind,
@start
    proof { assert(base(old(out_stream).out())); }
    proof { reveal(be32); assert(VARIABLE_TAG@ =~= be32(0x0B)); assert(ABSENT_TAG@ =~= absent()); }
@loopinit 0
    let ghost ml = vars_metadata_list@;
    let ghost hd = be32(0x0B) + be32(ml.len() as int);
    proof { assert(ml.take(0) =~= Seq::empty()); assert(hd + enc_vars_seq(ml.take(0)) =~= hd); }
@loop 0
    invariant base(old(out_stream).out()), 0 <= _it0.idx() <= _it0.seq().len(), ml == vars_metadata_list@, ml.len() > 0, _it0.seq().len() == ml.len(), enc_vars(ml).len() <= usize::MAX, vars_fit(ml),
        forall|i: int| 0 <= i < ml.len() ==> *#[trigger] _it0.seq()[i] == ml[i],
        hd == be32(0x0B) + be32(ml.len() as int),
        out_stream.out() == put(old(out_stream).out(), hd + enc_vars_seq(ml.take(_it0.idx()))),
        num_bytes == (hd + enc_vars_seq(ml.take(_it0.idx()))).len(),
@loopstart 0
    proof {
        let k = _it0.idx();
        lemma_vars_step(ml, k);
        assert((hd + enc_vars_seq(ml.take(k - 1))) + enc_var(*ml[k - 1].0, ml[k - 1].1) =~= hd + enc_vars_seq(ml.take(k)));
        assert(enc_vars(ml).len() == hd.len() + enc_vars_seq(ml).len());
    }
@loopafter 0
    proof { assert(ml.take(_it0.idx()) =~= ml); }
@fn <WriteError as From<std::io::Error>>::from
@spec
    ensures r == WriteError::IOErrorKind(err.skind()),
@c ------------------------------------------------ header size and layout (C08, C09)
@fn ComputedDataSetMetadata::compute_header_required_size::compute_name_string_size
@spec
    requires valid_name(name@),
    ensures r == enc_name(name@).len(),
@fn ComputedDataSetMetadata::compute_header_required_size::compute_attrs_list_size
@spec
    requires attrs_fit(attrs_list@), forall|i: int| 0 <= i < attrs_list@.len() ==> valid_name(#[trigger] attrs_list@[i].name@), enc_attrs(attrs_list@).len() <= usize::MAX,
    ensures r == enc_attrs(attrs_list@).len(),
@loopinit 0
    proof { assert(attrs_list@.take(0) =~= Seq::empty()); }
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), attrs_list@.len() > 0, _it0.seq().len() == attrs_list@.len(), enc_attrs(attrs_list@).len() <= usize::MAX, attrs_fit(attrs_list@),
        forall|i: int| 0 <= i < attrs_list@.len() ==> *#[trigger] _it0.seq()[i] == attrs_list@[i],
        forall|i: int| 0 <= i < attrs_list@.len() ==> valid_name(#[trigger] attrs_list@[i].name@),
        num_bytes == 8 + enc_attrs_seq(attrs_list@.take(_it0.idx())).len(),
@loopstart 0
    proof {
        let k = _it0.idx();
        lemma_attrs_step(attrs_list@, k);
        lemma_values_len(attrs_list@[k - 1].data);
        assert(enc_attrs(attrs_list@).len() == 8 + enc_attrs_seq(attrs_list@).len());
    }
@loopafter 0
    proof { assert(attrs_list@.take(_it0.idx()) =~= attrs_list@); }
@fn ComputedDataSetMetadata::compute_header_required_size
@spec
    requires data_set.wf(), hdr_len(*data_set, version) <= usize::MAX, attrs_fit(data_set.attrs@), forall|i: int| 0 <= i < data_set.vars@.len() ==> attrs_fit(#[trigger] data_set.vars@[i].attrs@),
    ensures r == hdr_len(*data_set, version),
@start
    proof { lemma_len_vars_nonneg(data_set.vars@, version); }
@loopinit 0
    proof { assert(data_set.dims@.take(0) =~= Seq::empty()); }
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), data_set.wf(), data_set.dims@.len() > 0, _it0.seq().len() == data_set.dims@.len(),
        forall|i: int| 0 <= i < data_set.dims@.len() ==> *#[trigger] _it0.seq()[i] == data_set.dims@[i],
        num_bytes == 16 + enc_dims_seq(data_set.dims@.take(_it0.idx())).len(), 16 + enc_dims_seq(data_set.dims@).len() <= usize::MAX,
@loopstart 0
    proof { lemma_dims_step(data_set.dims@, _it0.idx()); }
@loopafter 0
    proof { assert(data_set.dims@.take(_it0.idx()) =~= data_set.dims@); }
@loopinit 1
    proof { assert(data_set.vars@.take(0) =~= Seq::empty()); }
@loop 1
    invariant 0 <= _it1.idx() <= _it1.seq().len(), data_set.wf(), data_set.vars@.len() > 0, _it1.seq().len() == data_set.vars@.len(), hdr_len(*data_set, version) <= usize::MAX,
        forall|i: int| 0 <= i < data_set.vars@.len() ==> attrs_fit(#[trigger] data_set.vars@[i].attrs@),
        forall|i: int| 0 <= i < data_set.vars@.len() ==> *#[trigger] _it1.seq()[i] == data_set.vars@[i],
        num_bytes == 8 + enc_dims(data_set.dims@).len() + enc_attrs(data_set.attrs@).len() + 8 + len_vars_seq(data_set.vars@.take(_it1.idx()), version),
@loopstart 1
    proof { lemma_len_vars_step(data_set.vars@, version, _it1.idx()); }
@loopafter 1
    proof { assert(data_set.vars@.take(_it1.idx()) =~= data_set.vars@); }
@fn ComputedDataSetMetadata::new
@spec
    requires data_set.wf(), def_fits(*data_set, version, header_min_size as int),
    ensures match r {
        Ok(m) => metas_ok(*data_set, m, version, header_min_size as int),
        Err(e) => e is ClassicVersionNotPossible && version is Classic
            && exists|i: int| 0 <= i < data_set.vars@.len() && hdr_size(*data_set, version, header_min_size as int) + #[trigger] begin_rel(data_set.vars@, i) > i32::MAX },
@closure 0
-> (b: bool) ensures b == (*_p0_0.1).is_rec()
@closure 1
-> (e: WriteError) ensures e is ClassicVersionNotPossible
@closure 2
-> (k: usize) ensures k == _p2_0.0
@closure 3
-> (y: (&'a Variable, ComputedVariableMetadata)) ensures y == x.1
@closures 4
@start
    proof { lemma_sums_nonneg(data_set.vars@); }
@loopinit 0
    let ghost h = hdr_size(*data_set, version, header_min_size as int);
    let ghost c = _it0.seq();
    proof {
        let (rv, p) = choose|rv: Seq<(usize, &Variable)>, p: Seq<bool>| #[trigger] kept_by(rv, p, record_vars@) && kept_by(rv, seq_not(p), non_record_vars@) && enum_refs(rv, data_set.vars@)
            && forall|i: int| 0 <= i < rv.len() ==> #[trigger] p[i] == (*rv[i].1).is_rec();
        lemma_chain_inv(*data_set, rv, p, record_vars@, non_record_vars@, c);
        assert(c.take(0) =~= Seq::empty());
        assert(chain_done(*data_set, c, vars_metadata@, version, h)) by { reveal(chain_done); }
    }
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq() == c, data_set.wf(), h + fix_sum(data_set.vars@) + rec_size(data_set.vars@) <= i64::MAX,
        h == hdr_size(*data_set, version, header_min_size as int), h >= 0,
        chain_inv(*data_set, c), chain_done(*data_set, c, vars_metadata@, version, h),
        begin_offset == h + csum(c.take(_it0.idx())),
        vars_metadata@.len() == _it0.idx(),
@loopstart 0
    let ghost vm0 = vars_metadata@;
    let ghost j0 = header_part_pos as int;
    proof { lemma_chain_step(*data_set, c, _it0.idx() - 1); assert(h + begin_rel(data_set.vars@, j0) == begin_offset); }
@before begin_offset += chunk_size
    proof {
        let md = vars_metadata@.last().1.1;
        let i = choose|i: int| 0 <= i < data_set.vars@.len() && (#[trigger] data_set.vars@[i]).name@ == var.name@ && ids_ok(*data_set, data_set.vars@[i], md.dim_ids@);
        lemma_ids_unique(*data_set, i, j0);
        assert(meta_ok(*data_set, j0, md, version, h));
        assert(chain_done(*data_set, c, vars_metadata@, version, h)) by {
            reveal(chain_done);
            assert forall|k: int| 0 <= k < vars_metadata@.len() implies (#[trigger] vars_metadata@[k]).0 == c[k].0 && *vars_metadata@[k].1.0 == data_set.vars@[c[k].0 as int]
                && meta_ok(*data_set, c[k].0 as int, vars_metadata@[k].1.1, version, h) by { if k < vm0.len() { assert(vars_metadata@[k] == vm0[k]); } }
        }
    }
@loopafter 0
    let ghost vm1 = vars_metadata@;
    proof { assert(c.len() == data_set.vars@.len()) by { reveal(chain_inv); } }
@after sort_by_key
    proof {
        let (p, k) = choose|p: Seq<int>, k: Seq<usize>| #[trigger] sorted_by(vm1, vars_metadata@, p, k) && forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] == vars_metadata@[i].0;
        lemma_sorted_back(*data_set, c, vm1, vars_metadata@, p, k, version, h);
    }
@fn HeaderDefinition::new
@spec
    requires data_set.wf(), def_fits(*data_set, version, header_min_size as int),
    ensures match r {
        Ok(d) => *d.data_set == *data_set && d.version == version && d.header_min_size == header_min_size && metas_ok(*data_set, d.data_set_metadata, version, header_min_size as int),
        Err(e) => e is ClassicVersionNotPossible && version is Classic
            && exists|i: int| 0 <= i < data_set.vars@.len() && hdr_size(*data_set, version, header_min_size as int) + #[trigger] begin_rel(data_set.vars@, i) > i32::MAX },
