@allocs
@bcast group_read
@c ------------------------------------------------ reading (C17)
@fn <ReadError as From<std::io::Error>>::from
@spec
    ensures r == ReadError::IOErrorKind(err.skind()),
@fn <ReadError as From<InvalidDataSet>>::from
@spec
    ensures r == ReadError::DataSet(err),
@fn <ReadError as From<ParseHeaderError>>::from
@spec
    ensures r == ReadError::ParseHeader(err),
@fn FileReader::data_set
@spec
    ensures *r == self.data_set,
@fn FileReader::version
@spec
    ensures r == self.version,
@fn FileReader::file_path
@spec
    ensures *r == self.input_file_path,
@fn FileReader::close
@spec
    ensures r.0 == self.data_set, r.1 == self.version,
@fn FileReader::find_var_info
@spec
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < self.vars_info@.len() && #[trigger] self.vars_info@[i] == *x && x.name@ == var_name@ && forall|j: int| 0 <= j < i ==> (#[trigger] self.vars_info@[j]).name@ != var_name@,
        None => forall|i: int| 0 <= i < self.vars_info@.len() ==> (#[trigger] self.vars_info@[i]).name@ != var_name@ },
@closure 0
-> (b: bool) ensures b == ((**var_info).name@ == var_name@)
@fn FileReader::check_data_in_file
@spec
    requires self.data_set.wf(), self.data_set.sizes_ok(), num_chunks > 0 ==> (num_chunks - 1) * (if self.data_set.unlimited_dim is Some { rec_size(self.data_set.vars@) } else { 0 }) + num_chunk_bytes <= u64::MAX,
    ensures match r {
        Ok(_) => num_chunks == 0 || begin_offset + (num_chunks - 1) * (if self.data_set.unlimited_dim is Some { rec_size(self.data_set.vars@) } else { 0 }) + num_chunk_bytes <= self.input_file.out().data.len(),
        Err(e) => e is IOErrorKind && (self.input_file.sound() ==> num_chunks > 0 && begin_offset + (num_chunks - 1) * (if self.data_set.unlimited_dim is Some { rec_size(self.data_set.vars@) } else { 0 }) + num_chunk_bytes > self.input_file.out().data.len()) },
@start
    proof {
        let rs = if self.data_set.unlimited_dim is Some { rec_size(self.data_set.vars@) } else { 0 };
        if num_chunks > 0 {
            assert forall|k: int| 0 <= k < self.data_set.vars@.len() implies (#[trigger] self.data_set.vars@[k]).rsize() >= 0 by { lemma_rsize_nonneg(self.data_set.vars@[k]); }
            lemma_rec_size_mono(self.data_set.vars@, 0);
            assert((num_chunks - 1) * rs >= 0) by (nonlinear_arith) requires num_chunks > 0, rs >= 0;
        }
    }
@fn FileReader::read_record
@spec
    requires old(self).inv(),
    ensures final(self).same(*old(self)), final(self).inv(),
        match r {
            Ok(d) => exists|i: int| #[trigger] old(self).lay().is_var(i, var_name@) && record_index < old(self).lay().v[i].nrecs() && is_one(old(self).lay(), i, record_index as int, d),
            Err(e) => old(self).e_read(var_name@, e) || old(self).e_index(var_name@, record_index as int, e) || old(self).e_io_one(var_name@, record_index as int, e) },
@closure 0
-> (e: ReadError) ensures e matches ReadError::VariableNotDefined(x) && x@ == var_name@
@after let (_var_index, var)
    let ghost vi = _var_index as int;
    proof { lemma_fit(self.data_set, vi); assert(self.lay().is_var(vi, var_name@)); }
@before let var_info: &VariableParsedMetadata
    proof {
        let (rs, n, r) = (rec_size(self.data_set.vars@), var.nrecs(), record_index as int);
        assert(0 <= r * rs <= n * rs && (r + 1) * rs <= n * rs) by (nonlinear_arith) requires 0 <= r < n, rs >= 0;
        assert(r * 0 == 0);
        if !var.is_rec() { assert(r == 0); assert(r * rs == 0) by (nonlinear_arith) requires r == 0; }
        assert(self.vars_info@[vi].name@ == var_name@);
    }
@before let mut data_vec: DataVector
    proof { assert(var.rlen() * var.data_type.esize() <= self.input_file.out().data.len()); }
@before return Ok(data_vec)
    proof {
        lemma_values_len(data_vec);
        lemma_enc_u8(data_vec);
        assert(is_one(old(self).lay(), vi, record_index as int, data_vec));
    }
@fn FileReader::read_var
@spec
    requires old(self).inv(),
    ensures final(self).same(*old(self)), final(self).inv(),
        match r {
            Ok(d) => exists|i: int| #[trigger] old(self).lay().is_var(i, var_name@) && is_all(old(self).lay(), i, d),
            Err(e) => old(self).e_read(var_name@, e) || old(self).e_io_all(var_name@, e) },
@closure 0
-> (e: ReadError) ensures e matches ReadError::VariableNotDefined(x) && x@ == var_name@
@after let (_, var)
    let ghost vi = choose|i: int| 0 <= i < self.data_set.vars@.len() && #[trigger] self.data_set.vars@[i] == *var && self.lay().is_var(i, var_name@);
    let ghost l = self.lay();
    let ghost rl = var.rlen(); let ghost es = var.data_type.esize(); let ghost rs = rec_size(self.data_set.vars@); let ghost n = var.nrecs();
    proof { lemma_fit(self.data_set, vi); assert(l.is_var(vi, var_name@)); }
@before let data_type: DataType
    proof {
        assert(self.vars_info@[vi].name@ == var_name@);
        assert(n > 0 ==> 0 <= (n - 1) * rs <= n * rs) by (nonlinear_arith) requires n >= 0, rs >= 0;
        if !var.is_rec() { assert((n - 1) * rs == 0) by (nonlinear_arith) requires n == 1; }
    }
@before self.check_data_in_file
    proof { assert(n > 0 ==> l.has_rec(vi, n - 1) == (begin_offset + (n - 1) * rs + rl * es <= l.d.len())); }
@before input.seek(SeekFrom::Start(begin_offset))
    proof {
        if n > 0 { lemma_last_rec(l, vi, n); }
        assert(n * rl == var.total());
        if n == 0 { assert(n * rl == 0 && (n * rl) * es == 0) by (nonlinear_arith) requires n == 0; }
        assert(0 * rs == 0) by (nonlinear_arith);
        if n == 1 { assert((n - 1) * rs == 0) by (nonlinear_arith) requires n == 1; }
    }
@before let mut data_vec
    proof { assert(var.total() * es <= l.d.len()); }
@before if padding_size > 0
    proof { lemma_enc_u8(data_vec); lemma_holds_one(l, vi, data_vec); assert(is_all(l, vi, data_vec)); }
@before for i in
    proof { lemma_holds_none(l, vi, data_vec); }
@loop 0
    invariant
        *final(input) == after_borrow(*self).input_file,
        l.is_var(vi, var_name@), num_records == l.v[vi].nrecs(), l.v[vi].nrecs() == n, rl == l.v[vi].rlen(), es == l.v[vi].data_type.esize(), rs == rec_size(l.v), rl >= 1,
        data_vec.dtype() == l.v[vi].data_type, data_vec.vlen() == n * rl,
        holds_recs(l, vi, data_vec, i as int), chunk_len == rl, n * rl <= i64::MAX,
        forall|r: int| 0 <= r < n ==> l.has_rec(vi, r),
        input.out().data == l.d, input.out().pos == l.at(vi, i as int), offset_size == rs - rl * es,
        self.data_set == old(self).data_set, self.version == old(self).version, self.input_file_path == old(self).input_file_path, self.vars_info == old(self).vars_info, old(self).inv(),
        old(self).reachable(vi) ==> l.b[vi].begin_offset.val() + n * rs <= input.max_pos() && input.sound(),
        input.same_file(old(self).input_file), l == old(self).lay(), l.b[vi].begin_offset.val() >= 0, rs >= rl * es,
@loopstart 0
    let ghost dv0 = data_vec; let ghost in0 = input.out();
    proof {
        assert(0 <= i * rl <= (i + 1) * rl && (i + 1) * rl <= n * rl) by (nonlinear_arith) requires 0 <= i < n, rl >= 1;
        assert((i + 1) * rl - i * rl == rl) by (nonlinear_arith);
        assert(l.has_rec(vi, i as int));
        assert(in0.pos + rl * es <= l.d.len());
    }
@before input.seek(SeekFrom::Current(offset_size))
    proof {
        assert(l.has_rec(vi, i as int));
        lemma_part_u8(data_vec, i * rl, (i + 1) * rl);
        assert(updated(dv0, data_vec, i * rl, (i + 1) * rl));
        assert(in0.pos == l.at(vi, i as int) && l.nbytes(vi) == rl * es && es == data_vec.dtype().esize());
        assert(part(data_vec, i * rl, (i + 1) * rl) == bytes_at(l.d, in0.pos as int, rl * es));
        lemma_holds_next(l, vi, dv0, data_vec, i as int);
        assert((i + 1) * rs == i * rs + rs && (i + 1) * rs <= n * rs && 0 <= i * rs) by (nonlinear_arith) requires 0 <= i < n, rs >= 0;
    }
@before Ok(data_vec)
    proof { assert(is_all(l, vi, data_vec)); }
@for T,V in i8:I8 u8:U8 i16:I16 i32:I32 f32:F32 f64:F64
@fn FileReader::read_var_%T%
@spec
    requires old(self).inv(),
    ensures final(self).same(*old(self)), final(self).inv(),
        match r {
            Ok(d) => exists|i: int| #[trigger] old(self).lay().is_var(i, var_name@) && is_all(old(self).lay(), i, DataVector::%V%(d)),
            Err(e) => old(self).e_read(var_name@, e) || old(self).e_type(var_name@, DataType::%V%, e) || old(self).e_io_all(var_name@, e) },
@closure 0
-> (e: ReadError) ensures e matches ReadError::VariableNotDefined(x) && x@ == var_name@
@after let (_var_index, var)
    proof { assert(self.lay().is_var(_var_index as int, var_name@)); }
@fn FileReader::read_record_%T%
@spec
    requires old(self).inv(),
    ensures final(self).same(*old(self)), final(self).inv(),
        match r {
            Ok(d) => exists|i: int| #[trigger] old(self).lay().is_var(i, var_name@) && record_index < old(self).lay().v[i].nrecs() && is_one(old(self).lay(), i, record_index as int, DataVector::%V%(d)),
            Err(e) => old(self).e_read(var_name@, e) || old(self).e_type(var_name@, DataType::%V%, e) || old(self).e_index(var_name@, record_index as int, e) || old(self).e_io_one(var_name@, record_index as int, e) },
@closure 0
-> (e: ReadError) ensures e matches ReadError::VariableNotDefined(x) && x@ == var_name@
@after let (_var_index, var)
    proof { assert(self.lay().is_var(_var_index as int, var_name@)); }
@endfor
@fn FileReader::read_all_vars
@spec
    requires old(self).inv(),
    ensures final(self).same(*old(self)), final(self).inv(),
        match r {
            Ok(h) => read_all(old(self).lay(), h.m()),
            Err(e) => exists|n: Seq<char>| old(self).data_set.hv(n) && #[trigger] old(self).e_io_all(n, e) },
@loop 0
    invariant
        0 <= _it0.idx() <= _it0.seq().len(), _it0.seq().len() == self.data_set.vars@.len(),
        forall|i: int| 0 <= i < _it0.seq().len() ==> (#[trigger] _it0.seq()[i])@ == self.data_set.vars@[i].name@,
        self.same(*old(self)), self.inv(), old(self).inv(),
        read_some(old(self).lay(), vcoll.m(), _it0.idx() as int),
@loopbefore 0
    proof { reveal(read_some); assert(read_some(old(self).lay(), vcoll.m(), 0)); }
@loopstart 0
    let ghost m0 = vcoll.m(); let ghost nm = var_name@; let ghost k = _it0.idx() - 1;
    proof {
        assert(old(self).data_set.vars@[k].name@ == nm); assert(old(self).data_set.hv(nm));
        assert(self.lay() == old(self).lay());
        assert forall|e: ReadError| #[trigger] self.e_io_all(nm, e) implies old(self).e_io_all(nm, e) by {
            let i = choose|i: int| #[trigger] self.lay().is_var(i, nm) && (self.reachable(i) ==> exists|r: int| 0 <= r < self.lay().v[i].nrecs() && !#[trigger] self.lay().has_rec(i, r));
            assert(old(self).lay().is_var(i, nm));
            assert(self.reachable(i) == old(self).reachable(i));
        }
    }
@before vcoll.insert
    let ghost vd = var_data;
    proof { lemma_is_var_one(old(self).data_set, old(self).lay(), k, nm); }
@loopend 0
    proof { lemma_read_some(old(self).data_set, old(self).lay(), m0, vcoll.m(), k, vd); }
