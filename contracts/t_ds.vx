@c ------------------------------------------------ dimensions (C02)
@fn Dimension::check_dim_name
@spec
    ensures match r { Ok(_) => valid_name(dim_name@), Err(e) => match e { InvalidDataSet::DimensionNameNotValid(x) => x@ == dim_name@ && !valid_name(dim_name@), _ => false } },
@fn Dimension::new_fixed_size
@spec
    ensures match r {
        Ok(d) => valid_name(name@) && d.nm() == name@ && d.size == DimensionSize::Fixed(size) && 1 <= size <= 2147483644,
        Err(e) => match e {
            InvalidDataSet::DimensionNameNotValid(x) => x@ == name@ && !valid_name(name@),
            InvalidDataSet::FixedDimensionWithZeroSize(x) => x@ == name@ && size == 0,
            InvalidDataSet::MaximumFixedDimensionSizeExceeded{dim_name, get} => dim_name@ == name@ && get == size && size > 2147483644,
            _ => false } },
@fn Dimension::new_unlimited_size
@spec
    ensures match r {
        Ok(d) => valid_name(name@) && d.nm() == name@ && d.unlim() && d.sz() == size,
        Err(e) => match e { InvalidDataSet::DimensionNameNotValid(x) => x@ == name@ && !valid_name(name@), _ => false } },
@fn DataSet::new
@spec
    ensures r.wf(), r.dims@.len() == 0, r.vars@.len() == 0, r.attrs@.len() == 0, r.unlimited_dim is None,
@fn DataSet::find_dim_from_name
@spec
    ensures match r { Some((i, d)) => i < self.dims@.len() && *d == self.dims@[i as int] && self.dim_at(i as int, dim_name@), None => !self.hd(dim_name@) },
@closure 0
-> (b: bool) ensures b == ((**dim).nm() == dim_name@)
@closure 1
-> (p: (usize, &Rc<Dimension>)) requires index < self.dims@.len() ensures p.0 == index, *p.1 == self.dims@[index as int]
@fn DataSet::add_fixed_dim
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_dims(*old(self)),
        match r {
            Ok(_) => !old(self).hd(dim_name.sv()@) && valid_name(dim_name.sv()@) && 1 <= dim_size <= 2147483644
                && final(self).unlimited_dim == old(self).unlimited_dim
                && final(self).dims@.len() == old(self).dims@.len() + 1 && final(self).dims@.drop_last() == old(self).dims@
                && (*final(self).dims@.last()).nm() == dim_name.sv()@ && (*final(self).dims@.last()).size == DimensionSize::Fixed(dim_size),
            Err(e) => *final(self) == *old(self) && old(self).e_add_dim(dim_name.sv()@, dim_size, e) },
@closure 0
-> (b: bool) ensures b == ((**dim).nm() == dim_name@)
@fn DataSet::set_unlimited_dim
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_dims(*old(self)),
        match r {
            Ok(_) => !old(self).hd(dim_name.sv()@) && valid_name(dim_name.sv()@) && old(self).unlimited_dim is None
                && final(self).dims@.len() == old(self).dims@.len() + 1 && final(self).dims@.drop_last() == old(self).dims@
                && (*final(self).dims@.last()).nm() == dim_name.sv()@ && (*final(self).dims@.last()).unlim() && (*final(self).dims@.last()).sz() == dim_size
                && final(self).unlimited_dim == Some(final(self).dims@.last()),
            Err(e) => *final(self) == *old(self) && old(self).e_set_unlim(dim_name.sv()@, e) },
@closure 0
-> (b: bool) ensures b == ((**dim).nm() == dim_name@)
@fn DataSet::remove_dim
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_dims(*old(self)),
        match r {
            Ok(d) => (*d).nm() == dim_name@ && !old(self).dim_used(dim_name@)
                && (exists|i: int| 0 <= i < old(self).dims@.len() && #[trigger] old(self).dims@[i] == d && final(self).dims@ == old(self).dims@.remove(i))
                && final(self).unlimited_dim == (if (*d).unlim() { None } else { old(self).unlimited_dim }),
            Err(e) => *final(self) == *old(self) && old(self).e_remove_dim(dim_name@, e) },
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), refs_of(_it0.seq(), self.vars@), *self == *old(self), self.wf(),
        variables_using_removed_dim@ == users(self.vars@.take(_it0.idx()), dim_name@),
@loopinit 0
    proof { assert(self.vars@.take(0) =~= Seq::empty()); }
@loopstart 0
    proof { assert(self.vars@.take(_it0.idx()).drop_last() =~= self.vars@.take(_it0.idx() - 1)); }
@loopafter 0
    proof {
        assert(self.vars@.take(_it0.idx()) =~= self.vars@);
    }
@fn DataSet::rename_dim
@params _log: &mut VLog
@spec
    requires old(self).wf(),
    ensures *final(self) == *old(self),
        match r {
            Ok(_) => if old_dim_name@ == new_dim_name@ { final(_log).log() == old(_log).log() } else {
                exists|i: int, v: VStr| 0 <= i < old(self).dims@.len() && (*#[trigger] old(self).dims@[i]).nm() == old_dim_name@ && #[trigger] v@ == new_dim_name@
                    && final(_log).log() == old(_log).log().push(((*old(self).dims@[i]).name, v))
                    && old(self).wf_after((*old(self).dims@[i]).name, v) && !old(self).hd(new_dim_name@) && valid_name(new_dim_name@)
            },
            Err(e) => final(_log).log() == old(_log).log() && old(self).e_rename_dim(old_dim_name@, new_dim_name@, e) },
@fn Variable::use_dim
@spec
    ensures r == self.uses(dim_name@),
@closure 0
-> (b: bool) ensures b == ((**dim).nm() == dim_name@)
@fn DataSet::get_dims_from_dim_ids
@spec
    ensures match r {
        Ok(d) => d@.len() == dim_ids@.len() && forall|k: int| 0 <= k < dim_ids@.len() ==> dim_ids@[k] < self.dims@.len() && #[trigger] d@[k] == self.dims@[dim_ids@[k] as int],
        Err(e) => match e {
            InvalidDataSet::DimensionIdsNotFound{defined, searched, not_found} => (exists|k: int| 0 <= k < dim_ids@.len() && #[trigger] dim_ids@[k] >= self.dims@.len())
                && searched@ == dim_ids@ && defined@.len() == self.dims@.len(),
            _ => false } },
@closure 0
-> (b: bool) ensures b == (**dim_id >= self.dims@.len())
@closure 1
-> (k: usize) ensures k == *i
@closure 2
-> (d: Rc<Dimension>) requires *dim_id < self.dims@.len() ensures d == self.dims@[*dim_id as int]
@c ------------------------------------------------ variables (C03)
@fn Variable::check_var_name
@spec
    ensures match r { Ok(_) => valid_name(var_name@), Err(e) => match e { InvalidDataSet::VariableNameNotValid(x) => x@ == var_name@ && !valid_name(var_name@), _ => false } },
@fn Variable::check_dims_validity
@spec
    ensures match r { Ok(_) => dims@.len() <= 1024 && nodup(dims@) && unlim_first(dims@), Err(e) => e_dims(var_name@, dims@, e) },
@closure 0
-> (b: bool) ensures b == (***dim).unlim()
@closure 1
-> (s: VStr) ensures s == (**dim).name.val()
@closure 2
-> (b: bool) ensures b == (***ref_dim_2 == **ref_dim_1)
@closure 3
-> (s: VStr) ensures s == (**ref_dim_2).name.val()
@closure 4
-> (s: VStr) ensures s == (**dim).name.val()
@closures 5
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq().len() == dims@.len() - 1, dims@.len() <= 1024, unlim_first(dims@),
        forall|k: int| 0 <= k < _it0.seq().len() ==> (#[trigger] _it0.seq()[k]).0 == k + 1 && *_it0.seq()[k].1 == dims@[k + 1],
        repeated_dim_names@.len() == 0 <==> nodup(dims@.take(_it0.idx() + 1)),
@loopstart 0
    proof {
        assert(*_it0.seq()[i - 1].1 == dims@[i as int]);
        lemma_nodup_step(dims@, i as int);
    }
@loopafter 0
    proof { assert(dims@.take(_it0.idx() + 1) =~= dims@); }
@fn Variable::new
@spec
    requires forall|i: int| 0 <= i < var_dims@.len() ==> (*#[trigger] var_dims@[i]).wf(),
    ensures match r {
        Ok(v) => v.wf() && v.name@ == var_name@ && v.dims@ == var_dims@ && v.data_type == data_type && v.attrs@.len() == 0,
        Err(e) => e_new_var(var_name@, var_dims@, e) },
@fn DataSet::find_var_from_name
@spec
    ensures match r { Ok((i, v)) => i < self.vars@.len() && *v == self.vars@[i as int] && self.var_at(i as int, var_name@), Err(e) => self.e_no_var(var_name@, e) },
@closure 0
-> (b: bool) ensures b == (var.name@ == var_name@)
@closure 1
-> (p: (usize, &Variable)) requires var_index < self.vars@.len() ensures p.0 == var_index, *p.1 == self.vars@[var_index as int]
@fn DataSet::add_var_using_dim_refs
@spec
    requires old(self).wf(), forall|k: int| 0 <= k < var_dims@.len() ==> old(self).dims@.contains(#[trigger] var_dims@[k]),
    ensures match r {
            Ok(v) => *v == final(self).vars@.last() && final(self).wf() && final(self).same_but_vars(*old(self)) && !old(self).hv(var_name@) && final(self).vars@.len() == old(self).vars@.len() + 1
                && final(self).vars@.drop_last() == old(self).vars@
                && final(self).vars@.last().name@ == var_name@ && final(self).vars@.last().data_type == data_type && final(self).vars@.last().attrs@.len() == 0
                && final(self).vars@.last().dims@ == var_dims@,
            Err(e) => *final(self) == *old(self) && old(self).e_add_var_refs(var_name@, var_dims@, e) },
@fn DataSet::add_var
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), refs_of(_it0.seq(), dims_name@), *self == *old(self), self.wf(),
        undefined_dims@ == undef_names(self.dims@, dims_name@.take(_it0.idx())),
        undefined_dims@.len() == 0 ==> var_dims@.len() == _it0.idx()
            && forall|k: int| 0 <= k < _it0.idx() ==> self.dims@.contains(*#[trigger] var_dims@[k]) && (**var_dims@[k]).nm() == dims_name@[k].sv()@,
@loopinit 0
    proof { assert(dims_name@.take(0) =~= Seq::empty()); }
@loopstart 0
    proof { assert(dims_name@.take(_it0.idx()).drop_last() =~= dims_name@.take(_it0.idx() - 1)); }
@loopafter 0
    proof { assert(dims_name@.take(_it0.idx()) =~= dims_name@); lemma_undef_names(self.dims@, dims_name@); }
@closure 0
-> (d: Rc<Dimension>) ensures d == *_p0_0
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_vars(*old(self)),
        match r {
            Ok(_) => !old(self).hv(var_name@) && final(self).vars@.len() == old(self).vars@.len() + 1 && final(self).vars@.drop_last() == old(self).vars@
                && final(self).vars@.last().name@ == var_name@ && final(self).vars@.last().data_type == data_type && final(self).vars@.last().attrs@.len() == 0
                && named_dims(final(self).vars@.last().dims@, old(self).dims@, dims_name@),
            Err(e) => *final(self) == *old(self) && old(self).e_add_var(var_name@, dims_name@, e) },
@for p,V in i8:I8 u8:U8 i16:I16 i32:I32 f32:F32 f64:F64
@fn DataSet::add_var_%p%
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_vars(*old(self)),
        match r {
            Ok(_) => !old(self).hv(var_name@) && final(self).vars@.len() == old(self).vars@.len() + 1 && final(self).vars@.drop_last() == old(self).vars@
                && final(self).vars@.last().name@ == var_name@ && final(self).vars@.last().data_type == DataType::%V% && final(self).vars@.last().attrs@.len() == 0
                && named_dims(final(self).vars@.last().dims@, old(self).dims@, dims_name@),
            Err(e) => *final(self) == *old(self) && old(self).e_add_var(var_name@, dims_name@, e) },
@endfor
@fn DataSet::rename_var
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(_) => if old_var_name@ == new_var_name@ { *final(self) == *old(self) } else {
                !old(self).hv(new_var_name@) && valid_name(new_var_name@)
                && exists|i: int| 0 <= i < old(self).vars@.len() && (#[trigger] old(self).vars@[i]).name@ == old_var_name@ && final(self).var_edited(*old(self), i)
                    && final(self).vars@[i] == (Variable { name: final(self).vars@[i].name, ..old(self).vars@[i] }) && final(self).vars@[i].name@ == new_var_name@
            },
            Err(e) => *final(self) == *old(self) && old(self).e_rename_var(old_var_name@, new_var_name@, e) },
@fn DataSet::remove_var
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(v) => final(self).same_but_vars(*old(self)) && exists|i: int| 0 <= i < old(self).vars@.len() && #[trigger] old(self).vars@[i] == v && v.name@ == var_name@ && final(self).vars@ == old(self).vars@.remove(i),
            Err(e) => *final(self) == *old(self) && old(self).e_no_var(var_name@, e) },
@fn DataSet::get_var_dim_ids
@spec
    requires self.wf(),
    ensures match r {
        None => !self.hv(var_name@),
        Some(ids) => exists|i: int| 0 <= i < self.vars@.len() && (#[trigger] self.vars@[i]).name@ == var_name@ && ids@.len() == self.vars@[i].dims@.len()
            && forall|k: int| 0 <= k < ids@.len() ==> (#[trigger] ids@[k]) < self.dims@.len() && self.dims@[ids@[k] as int] == self.vars@[i].dims@[k] },
@closure 0
-> (k: usize) requires self.dims@.contains(*var_dim) ensures k < self.dims@.len(), self.dims@[k as int] == *var_dim
@closure 1
-> (b: bool) ensures b == (**data_set_dim == **var_dim)
