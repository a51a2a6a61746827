@c ------------------------------------------------ queries (C05)
@fn DataSet::num_dims
@spec
    ensures r == self.dims@.len(),
@fn DataSet::has_dim
@spec
    ensures r == self.hd(dim_name@),
@fn DataSet::get_dim
@spec
    ensures match r { Some(d) => exists|i: int| #[trigger] self.dim_at(i, dim_name@) && d == self.dims@[i], None => !self.hd(dim_name@) },
@closure 0
-> (d: Rc<Dimension>) ensures d == *_p0_0.1
@fn DataSet::get_dims
@spec
    ensures r@.len() == self.dims@.len(), forall|i: int| 0 <= i < self.dims@.len() ==> #[trigger] r@[i] == self.dims@[i],
@closure 0
-> (d: Rc<Dimension>) ensures d == *dim
@fn DataSet::dim_names
@spec
    ensures dim_names_are(r@, self.dims@),
@closure 0
-> (s: VStr) ensures s@ == (**dim).nm()
@fn DataSet::get_unlimited_dim
@spec
    ensures r == self.unlimited_dim,
@closure 0
-> (d: Rc<Dimension>) ensures d == *rc_dim
@fn DataSet::dim_size
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.dim_at(i, dim_name@) && x == (*self.dims@[i]).sz(), None => !self.hd(dim_name@) },
@closure 0
-> (x: usize) ensures x == (**_p0_0.1).sz()
@fn DataSet::dim_type
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.dim_at(i, dim_name@) && x == (*self.dims@[i]).size.ty(), None => !self.hd(dim_name@) },
@closure 0
-> (x: DimensionType) ensures x == (**_p0_0.1).size.ty()
@fn Variable::get_dims
@spec
    ensures r@.len() == self.dims@.len(), forall|i: int| 0 <= i < self.dims@.len() ==> #[trigger] r@[i] == self.dims@[i],
@fn Variable::dim_names
@spec
    ensures dim_names_are(r@, self.dims@),
@closure 0
-> (s: VStr) ensures s@ == (**dim).nm()
@fn Variable::num_attrs
@spec
    ensures r == self.attrs@.len(),
@fn Variable::has_attr
@spec
    ensures r == self.attr_has(attr_name@),
@fn Variable::get_attrs
@spec
    ensures lists(r@, self.attrs@),
@fn Variable::get_attr_names
@spec
    ensures attr_names_are(r@, self.attrs@),
@closure 0
-> (s: VStr) ensures s@ == attr.name@
@fn Variable::get_attr
@spec
    ensures match r { Some(a) => exists|i: int| #[trigger] self.attr_at(i, attr_name@) && *a == self.attrs@[i], None => !self.attr_has(attr_name@) },
@closure 0
-> (a: &Attribute) ensures a == result.1
@fn Variable::get_attr_i8
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::I8(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_var_attr_i8
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::I8(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_global_attr_i8
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::I8(d) => r is Some && r->0@ == d@, _ => r is None },
@fn Variable::get_attr_u8
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::U8(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_var_attr_u8
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::U8(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_global_attr_u8
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::U8(d) => r is Some && r->0@ == d@, _ => r is None },
@fn Variable::get_attr_i16
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::I16(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_var_attr_i16
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::I16(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_global_attr_i16
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::I16(d) => r is Some && r->0@ == d@, _ => r is None },
@fn Variable::get_attr_i32
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::I32(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_var_attr_i32
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::I32(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_global_attr_i32
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::I32(d) => r is Some && r->0@ == d@, _ => r is None },
@fn Variable::get_attr_f32
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::F32(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_var_attr_f32
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::F32(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_global_attr_f32
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::F32(d) => r is Some && r->0@ == d@, _ => r is None },
@fn Variable::get_attr_f64
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::F64(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_var_attr_f64
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::F64(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataSet::get_global_attr_f64
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::F64(d) => r is Some && r->0@ == d@, _ => r is None },
@fn Variable::get_attr_as_string
@spec
    ensures (!self.attr_has(attr_name@) ==> r is None), self.attr_has(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::U8(d) => match r { Some(s) => utf8(s@) == d@, None => !is_utf8(d@) }, _ => r is None },
@fn DataSet::get_var_attr_as_string
@spec
    requires self.wf(),
    ensures (!self.hva(var_name@, attr_name@) ==> r is None), self.hva(var_name@, attr_name@) ==> exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && match self.vars@[i].attrs@[j].data { DataVector::U8(d) => match r { Some(s) => utf8(s@) == d@, None => !is_utf8(d@) }, _ => r is None },
@fn DataSet::get_global_attr_as_string
@spec
    ensures (!self.ha(attr_name@) ==> r is None), self.ha(attr_name@) ==> exists|i: int| #[trigger] self.attr_at(i, attr_name@) && match self.attrs@[i].data { DataVector::U8(d) => match r { Some(s) => utf8(s@) == d@, None => !is_utf8(d@) }, _ => r is None },
@fn DataSet::num_vars
@spec
    ensures r == self.vars@.len(),
@fn DataSet::has_var
@spec
    ensures r == self.hv(var_name@),
@fn DataSet::is_record_var
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && x == self.vars@[i].is_rec(), None => !self.hv(var_name@) },
@closure 0
-> (x: bool) ensures x == _p0_0.1.is_rec()
@fn DataSet::var_len
@spec
    requires self.wf(), forall|k: int| 0 <= k < self.vars@.len() ==> (#[trigger] self.vars@[k]).total() <= usize::MAX && self.vars@[k].rlen() <= usize::MAX,
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && x == self.vars@[i].total(), None => !self.hv(var_name@) },
@closure 0
-> (x: usize) requires _p0_0.1.wf(), _p0_0.1.total() <= usize::MAX, _p0_0.1.rlen() <= usize::MAX ensures x == _p0_0.1.total()
@fn DataSet::var_data_type
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && x == self.vars@[i].data_type, None => !self.hv(var_name@) },
@closure 0
-> (x: DataType) ensures x == _p0_0.1.data_type
@fn DataSet::get_var
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && *x == self.vars@[i], None => !self.hv(var_name@) },
@closure 0
-> (x: &Variable) ensures x == _p0_0.1
@fn DataSet::get_var_mut
@spec
    ensures final(self).dims == old(self).dims && final(self).attrs == old(self).attrs,
        match r {
            Some(v) => exists|i: int| #[trigger] old(self).var_at(i, var_name@) && *v == old(self).vars@[i] && final(self).vars@ == old(self).vars@.update(i, *final(v)),
            None => !old(self).hv(var_name@) && final(self).vars@ == old(self).vars@ },
@closure 0
-> (i: usize) ensures i == _p0_0.0
@fn DataSet::get_vars
@spec
    ensures lists(r@, self.vars@),
@fn DataSet::get_var_names
@spec
    ensures r@.len() == self.vars@.len(), forall|i: int| 0 <= i < self.vars@.len() ==> (#[trigger] r@[i])@ == self.vars@[i].name@,
@closure 0
-> (s: VStr) ensures s@ == var.name@
@fn DataSet::find_var_attr_from_name
@spec
    ensures match r {
        Ok(((i, v), (j, a))) => self.var_attr_at(i as int, j as int, var_name@, attr_name@) && *v == self.vars@[i as int] && *a == v.attrs@[j as int],
        Err(e) => self.e_no_var(var_name@, e) || exists|i: int| #[trigger] self.var_at(i, var_name@) && self.vars@[i].e_no_attr(attr_name@, e) },
@fn DataSet::get_var_attr
@spec
    requires self.wf(),
    ensures match r { Some(x) => exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && *x == self.vars@[i].attrs@[j], None => !self.hva(var_name@, attr_name@) },
@closure 0
-> (x: &Attribute) ensures x == _p0_0.1.1
@fn DataSet::get_var_attr_len
@spec
    requires self.wf(),
    ensures match r { Some(x) => exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && x == self.vars@[i].attrs@[j].data.vlen(), None => !self.hva(var_name@, attr_name@) },
@closure 0
-> (x: usize) ensures x == _p0_0.1.1.data.vlen()
@fn DataSet::get_var_attr_data_type
@spec
    requires self.wf(),
    ensures match r { Some(x) => exists|i: int, j: int| #[trigger] self.var_attr_at(i, j, var_name@, attr_name@) && x == self.vars@[i].attrs@[j].data.dtype(), None => !self.hva(var_name@, attr_name@) },
@closure 0
-> (x: DataType) ensures x == _p0_0.1.1.data.dtype()
@fn DataSet::get_var_attrs
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && lists(x@, self.vars@[i].attrs@), None => !self.hv(var_name@) },
@closure 0
-> (x: &Variable) ensures x == _p0_0.1
@closure 1
-> (x: Vec<&Attribute>) ensures lists(x@, ref_var.attrs@)
@fn DataSet::has_var_attr
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && x == self.vars@[i].attr_has(attr_name@), None => !self.hv(var_name@) },
@closure 0
-> (x: bool) ensures x == _p0_0.1.attr_has(attr_name@)
@fn DataSet::num_var_attrs
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.var_at(i, var_name@) && x == self.vars@[i].attrs@.len(), None => !self.hv(var_name@) },
@closure 0
-> (x: usize) ensures x == _p0_0.1.attrs@.len()
@fn DataSet::get_global_attr
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.attr_at(i, attr_name@) && *x == self.attrs@[i], None => !self.ha(attr_name@) },
@closure 0
-> (x: &Attribute) ensures x == _p0_0.1
@fn DataSet::get_global_attrs
@spec
    ensures lists(r@, self.attrs@),
@fn DataSet::get_global_attr_len
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.attr_at(i, attr_name@) && x == self.attrs@[i].data.vlen(), None => !self.ha(attr_name@) },
@closure 0
-> (x: usize) ensures x == _p0_0.1.data.vlen()
@fn DataSet::get_global_attr_data_type
@spec
    ensures match r { Some(x) => exists|i: int| #[trigger] self.attr_at(i, attr_name@) && x == self.attrs@[i].data.dtype(), None => !self.ha(attr_name@) },
@closure 0
-> (x: DataType) ensures x == _p0_0.1.data.dtype()
@fn DataSet::num_global_attrs
@spec
    ensures r == self.attrs@.len(),
@fn DataSet::has_global_attr
@spec
    ensures r == self.ha(attr_name@),
@fn DataSet::get_global_attr_names
@spec
    ensures attr_names_are(r@, self.attrs@),
@closure 0
-> (s: VStr) ensures s@ == attr.name@
