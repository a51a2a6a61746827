@c ------------------------------------------------ attributes (C04)
@fn Attribute::check_attr_name
@spec
    ensures match r { Ok(_) => valid_name(attr_name@), Err(x) => x@ == attr_name@ && !valid_name(attr_name@) },
@fn Attribute::new
@spec
    ensures match r { Ok(a) => valid_name(name@) && a.name@ == name@ && a.data == data, Err(x) => x@ == name@ && !valid_name(name@) },
@for p,V in i8:I8 u8:U8 i16:I16 i32:I32 f32:F32 f64:F64
@fn Attribute::new_%p%
@spec
    ensures match r { Ok(a) => valid_name(name@) && a.name@ == name@ && a.data == DataVector::%V%(data), Err(x) => x@ == name@ && !valid_name(name@) },
@fn Variable::add_attr_%p%
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => !old(self).attr_has(attr_name@) && valid_name(attr_name@) && attr_added(final(self).attrs@, old(self).attrs@, attr_name@, DataVector::%V%(%p%_data)),
            Err(e) => *final(self) == *old(self) && old(self).e_add_attr(attr_name@, e) },
@closure 0
-> (e: InvalidDataSet) ensures match e { InvalidDataSet::VariableAttributeNameNotValid{var_name, attr_name} => var_name@ == self.name@ && attr_name == var_attr_name, _ => false }
@fn DataSet::add_var_attr_%p%
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(_) => valid_name(attr_name@) && exists|i: int| final(self).var_edited(*old(self), i) && (#[trigger] old(self).vars@[i]).name@ == var_name@ && !old(self).vars@[i].attr_has(attr_name@)
                && final(self).vars@[i].same_but_attrs(old(self).vars@[i]) && attr_added(final(self).vars@[i].attrs@, old(self).vars@[i].attrs@, attr_name@, DataVector::%V%(var_attr_value)),
            Err(e) => old(self).unchanged(*final(self)) && (old(self).e_no_var(var_name@, e)
                || exists|i: int| 0 <= i < old(self).vars@.len() && (#[trigger] old(self).vars@[i]).name@ == var_name@ && old(self).vars@[i].e_add_attr(attr_name@, e)) },
@fn DataSet::add_global_attr_%p%
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => !old(self).ha(attr_name@) && valid_name(attr_name@) && attr_added(final(self).attrs@, old(self).attrs@, attr_name@, DataVector::%V%(attr_data)),
            Err(e) => *final(self) == *old(self) && old(self).e_add_gattr(attr_name@, e) },
@closure 0
-> (e: InvalidDataSet) ensures match e { InvalidDataSet::GlobalAttributeNameNotValid(x) => x == invalid_attr_name, _ => false }
@endfor
@fn Variable::find_attr_from_name
@spec
    ensures match r { Ok((i, a)) => i < self.attrs@.len() && *a == self.attrs@[i as int] && self.attr_at(i as int, attr_name@), Err(e) => self.e_no_attr(attr_name@, e) },
@closure 0
-> (b: bool) ensures b == (attr.name@ == attr_name@)
@closure 1
-> (p: (usize, &Attribute)) requires index < self.attrs@.len() ensures p.0 == index, *p.1 == self.attrs@[index as int]
@fn Variable::add_attr
@spec
    requires old(self).wf(), valid_name(new_attr.name@),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => !old(self).attr_has(new_attr.name@) && final(self).attrs@ == old(self).attrs@.push(new_attr),
            Err(e) => *final(self) == *old(self) && old(self).e_add_attr(new_attr.name@, e) },
@fn Variable::add_attr_string
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => !old(self).attr_has(attr_name@) && valid_name(attr_name@) && attr_added_str(final(self).attrs@, old(self).attrs@, attr_name@, str_data.sv()@),
            Err(e) => *final(self) == *old(self) && old(self).e_add_attr(attr_name@, e) },
@fn Variable::rename_attr
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => if old_attr_name@ == new_attr_name@ { *final(self) == *old(self) } else {
                valid_name(new_attr_name@) && !old(self).attr_has(new_attr_name@) && attr_renamed(final(self).attrs@, old(self).attrs@, old_attr_name@, new_attr_name@) },
            Err(e) => *final(self) == *old(self) && old(self).e_rename_attr(old_attr_name@, new_attr_name@, e) },
@closure 0
-> (e: InvalidDataSet) ensures match e { InvalidDataSet::VariableAttributeNameNotValid{var_name, attr_name} => var_name@ == self.name@ && attr_name == var_attr_name, _ => false }
@fn Variable::remove_attr
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(a) => attr_removed(final(self).attrs@, old(self).attrs@, attr_name@, a),
            Err(e) => *final(self) == *old(self) && old(self).e_no_attr(attr_name@, e) },
@fn DataSet::add_var_attr_string
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(_) => valid_name(attr_name@) && exists|i: int| final(self).var_edited(*old(self), i) && (#[trigger] old(self).vars@[i]).name@ == var_name@ && !old(self).vars@[i].attr_has(attr_name@)
                && final(self).vars@[i].same_but_attrs(old(self).vars@[i]) && attr_added_str(final(self).vars@[i].attrs@, old(self).vars@[i].attrs@, attr_name@, var_attr_value.sv()@),
            Err(e) => old(self).unchanged(*final(self)) && (old(self).e_no_var(var_name@, e)
                || exists|i: int| 0 <= i < old(self).vars@.len() && (#[trigger] old(self).vars@[i]).name@ == var_name@ && old(self).vars@[i].e_add_attr(attr_name@, e)) },
@fn DataSet::rename_var_attr
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(_) => exists|i: int| final(self).var_edited(*old(self), i) && (#[trigger] old(self).vars@[i]).name@ == var_name@
                && if old_attr_name@ == new_attr_name@ { final(self).vars@[i] == old(self).vars@[i] } else {
                    final(self).vars@[i].same_but_attrs(old(self).vars@[i]) && valid_name(new_attr_name@) && !old(self).vars@[i].attr_has(new_attr_name@)
                    && attr_renamed(final(self).vars@[i].attrs@, old(self).vars@[i].attrs@, old_attr_name@, new_attr_name@) },
            Err(e) => old(self).unchanged(*final(self)) && (old(self).e_no_var(var_name@, e)
                || exists|i: int| 0 <= i < old(self).vars@.len() && (#[trigger] old(self).vars@[i]).name@ == var_name@ && old(self).vars@[i].e_rename_attr(old_attr_name@, new_attr_name@, e)) },
@fn DataSet::remove_var_attr
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(a) => exists|i: int| final(self).var_edited(*old(self), i) && (#[trigger] old(self).vars@[i]).name@ == var_name@
                && final(self).vars@[i].same_but_attrs(old(self).vars@[i])
                && attr_removed(final(self).vars@[i].attrs@, old(self).vars@[i].attrs@, attr_name@, a),
            Err(e) => old(self).unchanged(*final(self)) && (old(self).e_no_var(var_name@, e)
                || exists|i: int| 0 <= i < old(self).vars@.len() && (#[trigger] old(self).vars@[i]).name@ == var_name@ && old(self).vars@[i].e_no_attr(attr_name@, e)) },
@fn DataSet::find_global_attr_from_name
@spec
    ensures match r { Ok((i, a)) => i < self.attrs@.len() && *a == self.attrs@[i as int] && self.attr_at(i as int, attr_name@), Err(e) => self.e_no_gattr(attr_name@, e) },
@closure 0
-> (b: bool) ensures b == (ref_attr.name@ == attr_name@)
@closure 1
-> (p: (usize, &Attribute)) requires attr_index < self.attrs@.len() ensures p.0 == attr_index, *p.1 == self.attrs@[attr_index as int]
@fn DataSet::add_global_attr_string
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => !old(self).ha(attr_name@) && valid_name(attr_name@) && attr_added_str(final(self).attrs@, old(self).attrs@, attr_name@, attr_data.sv()@),
            Err(e) => *final(self) == *old(self) && old(self).e_add_gattr(attr_name@, e) },
@fn DataSet::rename_global_attr
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(_) => if old_attr_name@ == new_attr_name@ { *final(self) == *old(self) } else {
                valid_name(new_attr_name@) && !old(self).ha(new_attr_name@) && attr_renamed(final(self).attrs@, old(self).attrs@, old_attr_name@, new_attr_name@) },
            Err(e) => *final(self) == *old(self) && old(self).e_rename_gattr(old_attr_name@, new_attr_name@, e) },
@closure 0
-> (e: InvalidDataSet) ensures match e { InvalidDataSet::GlobalAttributeNameNotValid(x) => x == invalid_attr_name, _ => false }
@fn DataSet::remove_global_attr
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_but_attrs(*old(self)),
        match r {
            Ok(a) => attr_removed(final(self).attrs@, old(self).attrs@, attr_name@, a),
            Err(e) => *final(self) == *old(self) && old(self).e_no_gattr(attr_name@, e) },
