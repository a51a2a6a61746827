@allocs
@bcast group_read group_cloned
@c ------------------------------------------------ opening files (C15, C16)
@fn FileReader::check_data_sizes
@spec
    requires data_set.wf(),
    ensures r is Ok <==> fits(*data_set), r matches Err(e) ==> !e.inc(),
@start
    proof { assert(data_set.vars@.take(0) =~= Seq::empty()); }
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), refs_of(_it0.seq(), data_set.vars@), data_set.wf(),
        forall|i: int| 0 <= i < _it0.idx() ==> (#[trigger] data_set.vars@[i]).rsize() <= i64::MAX,
        record_size == rec_size(data_set.vars@.take(_it0.idx())),
@loopstart 0
    proof { let k = _it0.idx() - 1; assert(*var == data_set.vars@[k]); assert(data_set.vars@[k].wf()); lemma_rec_size_step(data_set.vars@, k); assert(var.dims@.take(0) =~= Seq::empty()); lemma_fprod_end(*var); }
@loop 1
    invariant 0 <= _it1.idx() <= _it1.seq().len(), refs_of(_it1.seq(), var.dims@), var.wf(),
        !fits(*data_set) || var.rsize() <= i64::MAX,
        chunk_size == var.data_type.esize() * fprod(var.dims@.take(_it1.idx())),
@loopstart 1
    proof { lemma_fprod_step(*var, _it1.idx() - 1); }
@loopafter 0
    proof { assert(data_set.vars@.take(_it0.idx()) =~= data_set.vars@); lemma_mul_max(num_recs(*data_set), rec_size(data_set.vars@)); }
@fn FileReader::parse_header
@attr #[verifier::spinoff_prover]
@cells data_set
@spec
    requires total_file_size <= i64::MAX,
    ensures match r {
        Ok((ds, version, infos)) => d_header(input@) matches PR::Ok(h, n) && version == h.version && vars_v(infos@) == h.vars && infos_ok(ds, infos@) && header_gives(h, total_file_size as int, ds),
        Err(e) => if e.inc() { d_header(input@) is Inc } else { d_header(input@) is Bad || (d_header(input@) matches PR::Ok(h, n) && refused(h, total_file_size as int)) } },
@closure 0
-> (x: usize) requires begin_offset.val() >= 0 ensures x == begin_offset.val()
@start
    let ghost b0 = input@;
    proof { lemma_h0(b0); }
@after let (input, _)
    let ghost b1 = input@;
    proof { lemma_h1(b0, b1); }
@after let (input, version)
    let ghost b2 = input@;
    proof { lemma_h2(b0, b1, b2, version); }
@after let (input, num_records)
    let ghost gr = match num_records { Some(k) => Some(k as int), None => None::<int> };
    let ghost b3 = input@;
    proof { lemma_h3(b0, b2, b3, version, gr); }
@after let (input, dims_list)
    let ghost b4 = input@;
    proof { lemma_h4(b0, b3, b4, version, gr, dims_v(dims_list@)); }
@after let (input, global_attrs_list)
    let ghost b5 = input@;
    proof { lemma_h5(b0, b4, b5, version, gr, dims_v(dims_list@), attrs_v(global_attrs_list@)); }
@after let (_input, var_info_list)
    let ghost h = HV { version: version, nrecs: gr, dims: dims_v(dims_list@), attrs: attrs_v(global_attrs_list@), vars: vars_v(var_info_list@) };
    proof { lemma_h6(b0, b5, _input@, h); }
    let ghost nn = hrecs(h);
    let ghost dl = dims_list@; let ghost al = global_attrs_list@; let ghost vl = var_info_list@;
@loop 0
    #[verifier::loop_isolation(false)]
    invariant 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq() == dl, data_set.wf(), data_set.vars@.len() == 0, data_set.attrs@.len() == 0,
        dims_are(data_set.dims@, h.dims, _it0.idx(), nn),
@loopinit 0
    proof { lemma_dims_none(data_set.dims@, h.dims, nn); }
@loopstart 0
    let ghost d0 = data_set; let ghost nm = dim_name@; let ghost sz = dim_size;
    proof { lemma_dims_err(data_set, h.dims, _it0.idx() - 1, nn, nm, sz); }
@loopend 0
    proof { lemma_dims_next(d0.dims@, data_set.dims@, h.dims, _it0.idx() - 1, nn, nm, sz); }
@loop 1
    #[verifier::loop_isolation(false)]
    invariant 0 <= _it1.idx() <= _it1.seq().len(), _it1.seq() == al, data_set.wf(), data_set.vars@.len() == 0,
        dims_are(data_set.dims@, h.dims, h.dims.len() as int, nn), attrs_are(data_set.attrs@, h.attrs, _it1.idx()),
@loopinit 1
    proof { lemma_attrs_none(data_set.attrs@, h.attrs); }
@loopstart 1
    let ghost d1 = data_set; let ghost nm = attr_name@; let ghost ad = attr_data;
    proof { lemma_attrs_err(data_set.attrs@, h.attrs, _it1.idx() - 1, nm); }
@loopend 1
    proof { lemma_attrs_next(d1.attrs@, data_set.attrs@, h.attrs, _it1.idx() - 1, nm, ad); }
@loop 2
    #[verifier::loop_isolation(false)]
    invariant 0 <= _it2.idx() <= _it2.seq().len(), refs_of(_it2.seq(), vl), data_set.wf(),
        dims_are(data_set.dims@, h.dims, h.dims.len() as int, nn), attrs_are(data_set.attrs@, h.attrs, h.attrs.len() as int),
        vars_are(data_set.vars@, h.vars, _it2.idx(), data_set.dims@),
        record_var_begin_offsets@ == rec_begins(h.vars.take(_it2.idx()), h.dims),
@loopinit 2
    proof { lemma_vars_none(data_set.vars@, h.vars, data_set.dims@); assert(h.vars.take(0) =~= seq![]); }
@loopstart 2
    let ghost d2 = data_set; let ghost x = h.vars[_it2.idx() - 1];
    proof { lemma_vars_err(data_set, h.dims, nn, h.vars, _it2.idx() - 1, *var_info); assert(h.vars.take(_it2.idx()).drop_last() =~= h.vars.take(_it2.idx() - 1)); }
@after let dim_refs
    proof { assert(refs_by(dim_refs@, data_set.dims@, var_info.dim_ids@)); }
@loop 3
    #[verifier::loop_isolation(false)]
    invariant 0 <= _it3.idx() <= _it3.seq().len(), refs_of(_it3.seq(), var_info.attrs_list@), data_set.wf(),
        data_set.dims == d2.dims, data_set.attrs == d2.attrs, data_set.vars@.len() == d2.vars@.len() + 1, data_set.vars@.drop_last() == d2.vars@,
        var_is(data_set.vars@.last(), x, data_set.dims@, _it3.idx()),
@loopinit 3
    proof { lemma_var_new(data_set.vars@.last(), *var_info, data_set.dims@); lemma_var_of_rec(data_set.vars@.last(), x, data_set.dims@, 0, h.dims, nn); }
@loopstart 3
    let ghost d3 = data_set;
    proof { lemma_var_attr_err(data_set, x, _it3.idx() - 1, data_set.dims@, attr_name@); }
@loopend 3
    proof { lemma_var_attr_next(d3, data_set, x, _it3.idx() - 1, attr_name@, *attr_data); }
@loopend 2
    proof { lemma_vars_next(d2.vars@, data_set.vars@, h.vars, _it2.idx() - 1, data_set.dims@); }
@loopafter 2
    let ghost rb = record_var_begin_offsets@; let ghost dz = data_set;
    proof { assert(h.vars.take(_it2.idx()) =~= h.vars); assert(defs_are(dz, h, nn)); lemma_rec_begins_ok(h.vars, h.dims); lemma_fit_all(dz); lemma_rec_some(dz.vars@, h.vars, dz.dims@, h.dims, nn); lemma_infos(dz, vl, h.vars); }
@before let record_size
    let ghost m0 = first_begin_offset;
    proof { lemma_min_same(rb); assert(is_min(rb, m0 as int)); }
@after let num_rem_bytes
    proof { lemma_whole(total_file_size as int, m0 as int, record_size as int); lemma_max_recs(total_file_size as int, m0 as int, record_size as int); }
@before Ok((data_set, version, var_info_list))
    proof { lemma_end(dz, data_set, h, total_file_size as int, vl); }
@fn FileReader::open
@spec
    ensures match r {
        Ok(f) => f.inv() && f.input_file_path == input_file_path.pv() && f.input_file.opened_at() == input_file_path.pv() && f.input_file.opts() == ro() && f.input_file.out().data == content_at(input_file_path.pv())
            && f.input_file.sound() == readable_at(input_file_path.pv())
            && (d_header(f.input_file.out().data) matches PR::Ok(h, n) && f.version == h.version && vars_v(f.vars_info@) == h.vars && header_gives(h, f.input_file.out().data.len() as int, f.data_set)),
        Err(e) => readable_at(input_file_path.pv()) ==> !(d_header(content_at(input_file_path.pv())) matches PR::Ok(h, n) && !refused(h, content_at(input_file_path.pv()).len() as int)) },
@start
    let ghost pt = input_file_path.pv();
@loop 0
    #[verifier::loop_isolation(false)]
    invariant buffer@.len() <= file_size, buffer@ == content_at(pt).take(buffer@.len() as int), file_size == content_at(pt).len(), file_size <= i64::MAX,
        input_file.out().data == content_at(pt), input_file.out().pos == buffer@.len(), input_file.opened_at() == pt, input_file.opts() == ro(), input_file.sound() == readable_at(pt),
    decreases file_size - buffer@.len(),
@loopstart 0
    let ghost b0 = buffer@;
@before let parsing_result
    proof { lemma_joined(b0, buffer@, content_at(pt)); lemma_s_header(buffer@, content_at(pt)); assert(content_at(pt).take(content_at(pt).len() as int) =~= content_at(pt)); }
