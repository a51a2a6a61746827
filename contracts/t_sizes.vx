@c ------------------------------------------------ sizes (C07)
@fn compute_padding_size
@spec
    ensures r == pad4(num_bytes as int),
@fn DimensionSize::new
@spec
    ensures r.sz() == size, r.ty() == r#type, match r#type { DimensionType::FixedSize => r == DimensionSize::Fixed(size), _ => r is Unlimited },
@fn DimensionSize::size
@spec
    ensures r == self.sz(),
@fn DimensionSize::r#type
@spec
    ensures r == self.ty(),
@fn Dimension::size
@spec
    ensures r == self.sz(),
@fn Dimension::dim_type
@spec
    ensures r == self.size.ty(),
@fn Dimension::is_unlimited
@spec
    ensures r == self.unlim(),
@fn Dimension::is_fixed
@spec
    ensures r == !self.unlim(),
@fn Dimension::name
@spec
    ensures r == self.name.val(),
@fn Variable::is_record_var
@spec
    ensures r == self.is_rec(),
@fn Variable::num_chunks
@spec
    ensures r == self.nrecs(),
@fn Variable::chunk_len
@spec
    requires self.wf(), self.rlen() <= usize::MAX,
    ensures r == self.rlen(),
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), self.wf(), self.rlen() <= usize::MAX,
        _it0.seq().len() == dseq.len(),
        dseq == self.dims@.skip(if self.is_rec() { 1 } else { 0 }),
        forall|i: int| 0 <= i < dseq.len() ==> *#[trigger] _it0.seq()[i] == dseq[i],
        forall|i: int| 0 <= i < dseq.len() ==> (*#[trigger] dseq[i]).sz() >= 1,
        product == prod(dseq.take(_it0.idx())),
@loopinit 0
    let ghost dseq = self.dims@.skip(if self.is_rec() { 1 } else { 0 });
    proof {
        assert forall|i: int| 0 <= i < dseq.len() implies (*#[trigger] dseq[i]).sz() >= 1 by {
            let j = i + (if self.is_rec() { 1int } else { 0 });
            assert((*self.dims@[j]).wf());
        }
        assert(dseq.take(0) =~= Seq::empty());
    }
@loopstart 0
    proof {
        let k = _it0.idx();
        assert(*_it0.seq()[k - 1] == dseq[k - 1]);
        lemma_prod_mono(dseq, k);
        assert(dseq.take(k).drop_last() =~= dseq.take(k - 1));
        assert(dseq.take(k).last() == dseq[k - 1]);
    }
@loopafter 0
    proof { assert(dseq.take(_it0.idx()) =~= dseq); }
@fn Variable::chunk_size
@spec
    requires self.wf(), self.rsize() <= usize::MAX,
    ensures r == self.rsize(),
@start
    proof {
        lemma_rsize_nonneg(*self);
        assert(self.rlen() <= self.rlen() * self.data_type.esize()) by (nonlinear_arith) requires self.rlen() >= 1, self.data_type.esize() >= 1;
    }
@fn Variable::len
@spec
    requires self.wf(), self.total() <= usize::MAX, self.rlen() <= usize::MAX,
    ensures r == self.total(),
@fn Variable::data_type
@spec
    ensures r == self.data_type,
@fn Variable::name
@spec
    ensures *r == self.name,
@fn Variable::num_dims
@spec
    ensures r == self.dims@.len(),
@fn DataSet::has_unlimited_dim
@spec
    ensures r == (self.unlimited_dim is Some),
@fn DataSet::num_records
@spec
    ensures r == (match self.unlimited_dim { None => None::<usize>, Some(d) => Some((*d).sz()) }),
@fn DataSet::record_size
@spec
    requires self.wf(), self.sizes_ok(),
    ensures match r { None => self.unlimited_dim is None, Some(n) => self.unlimited_dim is Some && n == rec_size(self.vars@) },
@closure 0
-> (b: bool) ensures b == (**var).is_rec()
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), self.wf(), self.sizes_ok(),
        forall|i: int| 0 <= i < _it0.seq().len() ==> (#[trigger] _it0.seq()[i]).wf() && _it0.seq()[i].sizes_ok(),
        ref_rec_sum(_it0.seq()) == rec_size(self.vars@),
        sum == ref_rec_sum(_it0.seq().take(_it0.idx())),
@loopinit 0
    proof {
        let fin = _it0.seq();
        let (rv, p) = choose|rv: Seq<&Variable>, p: Seq<bool>| #[trigger] kept_by(rv, p, fin) && refs_of(rv, self.vars@)
            && forall|i: int| 0 <= i < rv.len() ==> #[trigger] p[i] == (*rv[i]).is_rec();
        assert forall|i: int| 0 <= i < self.vars@.len() implies #[trigger] p[i] == self.vars@[i].is_rec() by { assert(*rv[i] == self.vars@[i]); }
        lemma_keep_rec(rv, self.vars@, p);
        lemma_keep_in(rv, p);
        assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).wf() && fin[i].sizes_ok() by {
            let j = choose|j: int| 0 <= j < rv.len() && rv[j] == fin[i];
            assert(*rv[j] == self.vars@[j]);
        }
        assert(fin.take(0) =~= Seq::empty());
    }
@loopstart 0
    proof {
        let k = _it0.idx();
        let fin = _it0.seq();
        assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).rsize() >= 0 by { lemma_rsize_nonneg(*fin[i]); }
        lemma_ref_sum_mono(fin, k);
        assert(fin.take(k).drop_last() =~= fin.take(k - 1));
        assert(fin.take(k).last() == fin[k - 1]);
        assert(fin[k - 1].wf() && fin[k - 1].sizes_ok());
    }
@loopafter 0
    proof { assert(_it0.seq().take(_it0.idx()) =~= _it0.seq()); }
