@bcast group_writer
@c ------------------------------------------------ the writer (C08-C12, C19)
@fn HeaderDefinition::get_var_metadata
@spec
    requires self.wf(), vhas(self.data_set.vars@, var.name@),
    ensures r is Ok, exists|i: int| 0 <= i < self.data_set.vars@.len() && (#[trigger] self.data_set.vars@[i]).name@ == var.name@ && *r->Ok_0 == self.data_set_metadata.vars_metadata@[i].1
        && meta_ok(*self.data_set, i, *r->Ok_0, self.version, self.lay().h),
@closure 0
-> (b: bool) ensures b == (_p0_0.0.name@ == var.name@)
@closure 1
-> (m: &ComputedVariableMetadata) ensures *m == _p1_0.1
@start
    proof {
        let i = choose|i: int| 0 <= i < self.data_set.vars@.len() && #[trigger] self.data_set.vars@[i].name@ == var.name@;
        assert(*self.data_set_metadata.vars_metadata@[i].0 == self.data_set.vars@[i]);
    }
@fn FileWriter::update_written_records
@spec
    requires wr_ok(old(self).written_records@),
    ensures r is Ok, wr_ok(final(self).written_records@), final(self).header_def == old(self).header_def, final(self).output_file == old(self).output_file, final(self).output_file_path == old(self).output_file_path,
        forall|n: Seq<char>, q: int| #[trigger] wr_has(final(self).written_records@, n, q) <==> wr_has(old(self).written_records@, n, q) || (n == var.name@ && 0 <= q <= usize::MAX && records@.contains(q as usize)),
@closure 0
-> (y: usize) ensures y == *index
@closure 1
-> (b: bool) ensures b == (_p1_0.0.name@ == var.name@)
@closure 2
-> (w: &mut VBTreeSet<usize>) ensures *w == old(_p2_0).1, final(_p2_0).1 == *final(w), final(_p2_0).0 == old(_p2_0).0
@before let ref mut written_records
    let ghost rs = records_set@;
    proof { assert forall|k: usize| rs.contains(k) <==> records@.contains(k) by {
        let m = choose|m: Seq<usize>| #[trigger] set_of(m, rs) && m.len() == records@.len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == records@[i]);
        assert(m =~= records@);
    } }
@before Ok(())
    proof { assert(wr_added(old(self).written_records@, self.written_records@, var.name@, rs)); lemma_wr_added(old(self).written_records@, self.written_records@, var.name@, rs); }
@fn FileWriter::write_header
@spec
    requires old(self).inv(),
    ensures final(self).same_def(*old(self)), final(self).same_written(*old(self)),
        match r {
            Ok(n) => old(self).defined() && final(self).bytes() == put_data(old(self).bytes(), 0, header_bytes(old(self).header_def->0)),
            Err(e) => e is IOErrorKind || !old(self).defined() && e is HeaderNotDefined && final(self).unchanged(*old(self)) },
@start
    broadcast use lemma_put_one;
    proof {
        if self.defined() { lemma_header_parts(self.header_def->0); lemma_len_vars_nonneg(self.vars(), self.header_def->0.version); }
        axiom_utf8_ascii(seq!['C', 'D', 'F']);
        assert(utf8(seq!['C', 'D', 'F']) =~= seq![0x43u8, 0x44, 0x46]);
    }
@after seek(SeekFrom::Start(0))
    let ghost o = self.output_file.out();
    proof { assert(base(o)); }
@loopbefore 0
    let ghost hb = seq![0x43u8, 0x44, 0x46] + byte(header_def.version.code()) + be32(or_indeterminate(num_recs(*header_def.data_set))) + enc_dims(header_def.data_set.dims@) + enc_attrs(header_def.data_set.attrs@)
        + enc_vars(header_def.data_set_metadata.vars_metadata@);
    proof { assert(self.output_file.out() == put(o, hb)); assert(hb + zeros(0) =~= hb); }
@loop 0
    invariant base(o), self.output_file.out() == put(o, hb + zeros(_k0 as int)), *header_def == old(self).header_def->0, self.header_def == old(self).header_def, self.output_file_path == old(self).output_file_path,
        self.written_records == old(self).written_records, zero_padding_size == header_def.data_set_metadata.header_zero_padding_size, num_bytes == hb.len() + _k0, hb.len() + *zero_padding_size <= i64::MAX,
@loopend 0
    proof { assert((hb + zeros(_k0 as int)) + zeros(1) =~= hb + zeros(_k0 + 1)); }
@fn FileWriter::set_def
@spec
    requires old(self).inv(), !old(self).defined() ==> data_set.wf() && def_fits(*data_set, version, header_min_size as int),
    ensures final(self).inv(), final(self).output_file_path == old(self).output_file_path,
        match r {
            Ok(_) => !old(self).defined() && final(self).is_new(*data_set, version, header_min_size as int) && final(self).bytes() == header_bytes(final(self).header_def->0) && final(self).written_records@.len() == 0,
            Err(e) => match e {
                WriteError::HeaderAlreadyDefined => old(self).defined() && final(self).unchanged(*old(self)),
                WriteError::ClassicVersionNotPossible => !old(self).defined() && version is Classic && final(self).unchanged(*old(self))
                    && exists|i: int| 0 <= i < data_set.vars@.len() && hdr_size(*data_set, version, header_min_size as int) + #[trigger] begin_rel(data_set.vars@, i) > i32::MAX,
                WriteError::IOErrorKind(_) => !old(self).defined() && final(self).is_new(*data_set, version, header_min_size as int) && final(self).written_records@.len() == 0,
                _ => false } },
@before let _ = self.write_header()
    proof { let d = self.header_def->0; lemma_header_parts(d); assert(put_data(Seq::empty(), 0, header_bytes(d)) =~= header_bytes(d)); assert(old(self).bytes() =~= Seq::empty()); }
@fn FileWriter::header_is_defined
@spec
    ensures r == self.defined(),
@fn FileWriter::data_set
@spec
    ensures match r { None => !self.defined(), Some(d) => self.defined() && *d == *self.header_def->0.data_set },
@closure 0
-> (d: &'a DataSet) ensures d == header_def.data_set
@fn FileWriter::version
@spec
    ensures match r { None => !self.defined(), Some(v) => self.defined() && v == self.header_def->0.version },
@closure 0
-> (v: Version) ensures v == header_def.version
@fn FileWriter::header_min_size
@spec
    ensures match r { None => !self.defined(), Some(v) => self.defined() && v == self.header_def->0.header_min_size },
@closure 0
-> (v: usize) ensures v == header_def.header_min_size
@fn FileWriter::file_path
@spec
    ensures *r == self.output_file_path,
@fn FileWriter::open
@spec
    ensures match r { Ok(w) => w.inv() && !w.defined() && w.output_file_path == output_file_path.pv() && w.output_file.opened_at() == output_file_path.pv()
            && w.output_file.opts().write && !w.output_file.opts().append && w.output_file.opts().truncate && w.output_file.opts().create,
        Err(e) => e is IOErrorKind },
@fn FileWriter::create_new
@spec
    ensures match r { Ok(w) => w.inv() && !w.defined() && w.output_file_path == output_file_path.pv() && w.output_file.opened_at() == output_file_path.pv()
            && w.output_file.opts().write && !w.output_file.opts().append && w.output_file.opts().create_new,
        Err(e) => e is IOErrorKind },
        path_exists(output_file_path.pv()) ==> r is Err,
@for T,V,n in i8:I8:1 u8:U8:1 i16:I16:2 i32:I32:4 f32:F32:4 f64:F64:8
@fn FileWriter::write_record_%T%
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_def(*old(self)),
        match r {
            Ok(_) => exists|i: int| #[trigger] old(self).accepts_rec(i, var_name@, DataType::%V%, record_index as int, record@.len() as int) && final(self).wrote(*old(self), one_rec(i, record_index as int, chunk_%T%(record@))),
            Err(e) => match e {
                WriteError::IOErrorKind(_) => exists|i: int| #[trigger] old(self).accepts_rec(i, var_name@, DataType::%V%, record_index as int, record@.len() as int) && final(self).wrecked(*old(self), only_rec(i, record_index as int)),
                _ => old(self).refuses_rec(var_name@, DataType::%V%, record_index as int, record@.len() as int, e) && final(self).unchanged(*old(self)) } },
@closure 0
-> (e: WriteError) ensures e matches WriteError::VariableNotDefined(x) && x@ == var_name@
@start
    broadcast use group_fw;
    proof { lemma_chunk_len_%T%(record@); lemma_before_rec(*old(self), var_name@, DataType::%V%, record_index as int, record@.len() as int, chunk_%T%(record@)); }
@fn FileWriter::write_var_%T%
@spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_def(*old(self)),
        match r {
            Ok(_) => exists|i: int| #[trigger] old(self).accepts_all(i, var_name@, DataType::%V%, data@.len() as int) && final(self).wrote(*old(self), var_recs_%T%(i, old(self).vars()[i].rlen(), data@, old(self).vars()[i].nrecs())),
            Err(e) => match e {
                WriteError::IOErrorKind(_) => exists|i: int| #[trigger] old(self).accepts_all(i, var_name@, DataType::%V%, data@.len() as int) && final(self).wrecked(*old(self), any_rec(i)),
                _ => old(self).refuses_all(var_name@, DataType::%V%, data@.len() as int, e) && final(self).unchanged(*old(self)) } },
@closure 0
-> (e: WriteError) ensures e matches WriteError::VariableNotDefined(x) && x@ == var_name@
@start
    broadcast use group_fw;
    let ghost w = *old(self);
    let ghost gi = choose|i: int| #[trigger] w.accepts_all(i, var_name@, DataType::%V%, data@.len() as int);
    let ghost (l, rl) = (w.lay(), w.vars()[gi].rlen());
    proof {
        lemma_before_var(w, var_name@, DataType::%V%, data@.len() as int);
        if w.accepts_all(gi, var_name@, DataType::%V%, data@.len() as int) {
            lemma_var_recs_%T%(gi, rl, data@, 0);
            lemma_stored_none(l, w.bytes());
            if w.vars()[gi].nrecs() > 0 {
                lemma_var_rec(w, var_name@, DataType::%V%, data@.len() as int, gi, 0);
                lemma_var_step_%T%(w, var_name@, DataType::%V%, gi, 0, data@, w.bytes());
            }
        }
    }
@loop 0
    invariant w.inv(), w.accepts_all(gi, var_name@, DataType::%V%, data@.len() as int), w == *old(self), l == w.lay(), rl == w.vars()[gi].rlen(), lay_ok(l),
        self.same_def(w), self.same_written(w), *var == w.vars()[gi], num_chunks == var.nrecs(), chunk_len == rl, data@.len() <= usize::MAX,
        record_size == rec_step(*w.header_def->0.data_set), begin_offset == l.h + begin_rel(l.v, gi),
        stored(l, w.bytes(), self.bytes(), var_recs_%T%(gi, rl, data@, i as int)),
@loopstart 0
    broadcast use group_fw;
    proof {
        lemma_var_rec(w, var_name@, DataType::%V%, data@.len() as int, gi, i as int);
        lemma_var_step_%T%(w, var_name@, DataType::%V%, gi, i as int, data@, self.bytes());
    }
@endfor
@fn FileWriter::close
@selfref
@spec
    requires old(self).inv(),
    ensures final(self).same_def(*old(self)),
        match r {
            Ok(_) => if old(self).defined() { stored(old(self).lay(), old(self).bytes(), final(self).bytes(), old(self).fills()) } else { final(self).bytes() == old(self).bytes() },
            Err(e) => e is IOErrorKind && old(self).defined() && spoiled(old(self).lay(), old(self).bytes(), final(self).bytes(), old(self).not_written()) },
@closure 0
-> (b: bool) ensures b == (var.name@ == _p0_0.0.name@)
@closure 1
-> (w: &VBTreeSet<usize>) ensures *w == _p1_0.1
@start
    broadcast use group_fw;
    let ghost w = *old(self);
    proof { if w.defined() { lemma_lay_ok(w.header_def->0); } }
@loop 0
    invariant w == *old(self), w.inv(), w.defined(), *self == w, *header_def == w.header_def->0, 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq().len() == w.vars().len(),
        forall|i: int| 0 <= i < w.vars().len() ==> *#[trigger] _it0.seq()[i] == w.vars()[i],
        all_unwritten(w, not_written_records@, _it0.idx()),
@loopinit 0
    proof { reveal(all_unwritten); }
@loopstart 0
    broadcast use group_fw;
    let ghost nw0 = not_written_records@;
@before not_written_records.push
    proof {
        let i = _it0.idx() - 1;
        let wr = match written_records { None => None, Some(x) => Some(x@) };
        let sel = match written_records { None => all_set, Some(x) => all_set.difference(x@) };
        lemma_unwritten(w, i, all_set, sel, not_written_record@, wr);
    }
@loopend 0
    proof { reveal(all_unwritten); assert forall|j: int| 0 <= j < not_written_records@.len() implies *(#[trigger] not_written_records@[j]).0 == w.vars()[j] && w.lists_unwritten(j, not_written_records@[j].1@) by { if j < nw0.len() { assert(not_written_records@[j] == nw0[j]); } } }
@after let all_records
    let ghost all_set = all_records@;
@loopinit 1
    let ghost nw = not_written_records@;
    proof { lemma_fill_ends(w, nw); assert(nw.len() == w.vars().len()) by { reveal(all_unwritten); } }
@loop 1
    invariant w == *old(self), w.inv(), w.defined(), lay_ok(w.lay()), self.same_def(w), self.same_written(w), *header_def == w.header_def->0, record_size == rec_step(*w.header_def->0.data_set),
        0 <= _it1.idx() <= _it1.seq().len(), _it1.seq() == nw, nw.len() == w.vars().len(), all_unwritten(w, nw, w.vars().len() as int), stored(w.lay(), w.bytes(), self.bytes(), w.filled(nw, _it1.idx(), 0)),
@loopstart 1
    broadcast use group_fw;
    let ghost k = _it1.idx() - 1;
    let ghost u = not_written_records@;
    proof { reveal(all_unwritten); assert(*nw[k].0 == w.vars()[k]); lemma_fill_len(w.vars()[k]); lemma_sums_ok(w.header_def->0, k); }
@loop 2
    invariant w == *old(self), w.inv(), w.defined(), lay_ok(w.lay()), self.same_def(w), self.same_written(w), *header_def == w.header_def->0, record_size == rec_step(*w.header_def->0.data_set),
        0 <= k < nw.len(), nw.len() == w.vars().len(), all_unwritten(w, nw, w.vars().len() as int), *var == w.vars()[k], u == nw[k].1@, chunk_len == var.rlen(), begin_offset == w.lay().h + begin_rel(w.vars(), k),
        0 <= _it2.idx() <= _it2.seq().len(), _it2.seq() == u, stored(w.lay(), w.bytes(), self.bytes(), w.filled(nw, k, _it2.idx())), fill_of(w.vars()[k]).len() == w.vars()[k].rsize(), var.wf(),
@loopstart 2
    broadcast use group_fw;
    proof {
        let m = _it2.idx() - 1;
        lemma_fill_step(w, nw, k, m, self.bytes());
        lemma_rec_pos(w.header_def->0, k, u[m] as int, begin_offset as int, record_size as int);
        lemma_rsize_nonneg(*var);
    }
@loopafter 2
    proof { lemma_fill_next(w, nw, k); }
