@c ------------------------------------------------ data types and vectors (C06)
@fn DataType::size_of
@spec
    ensures r == self.esize(),
@fn DataType::c_api_name
@spec
    ensures r@ == self.cname(),
@fn <DataType as TryFrom<u32>>::try_from
@spec
    ensures match r { Ok(t) => t.code() == value, Err(_) => !(1 <= value <= 6) },
@fn <Version as TryFrom<u8>>::try_from
@spec
    ensures match r { Ok(v) => v.code() == value, Err(_) => !(1 <= value <= 2) },
@fn DataVector::new
@allocs
@spec
    requires alloc_ok(length * data_type.esize()),
    ensures r.dtype() == data_type, r.vlen() == length, r.is_zero(),
@fn DataVector::data_type
@spec
    ensures r == self.dtype(),
@fn DataVector::len
@spec
    ensures r == self.vlen(),
@for p,V in i8:I8 u8:U8 i16:I16 i32:I32 f32:F32 f64:F64
@fn DataVector::get_%p%
@spec
    ensures match self { DataVector::%V%(d) => r is Some && r->0@ == d@, _ => r is None },
@fn DataVector::get_%p%_into
@spec
    ensures match self { DataVector::%V%(d) => r == Ok::<Vec<%p%>, DataVector>(d), _ => r == Err::<Vec<%p%>, DataVector>(self) },
@fn Attribute::get_%p%
@spec
    ensures match self.data { DataVector::%V%(d) => r is Some && r->0@ == d@, _ => r is None },
@endfor
@fn DataVector::get_as_string
@spec
    ensures match self { DataVector::U8(d) => match r { Some(s) => utf8(s@) == d@, None => !is_utf8(d@) }, _ => r is None },
@fn Attribute::get_as_string
@spec
    ensures match self.data { DataVector::U8(d) => match r { Some(s) => utf8(s@) == d@, None => !is_utf8(d@) }, _ => r is None },
@fn Attribute::data_type
@spec
    ensures r == self.data.dtype(),
@fn Attribute::len
@spec
    ensures r == self.data.vlen(),
@fn Attribute::name
@spec
    ensures *r == self.name,
@c ------------------------------------------------ names (C01)
@fn is_special_1
@spec
    ensures r == (chr == '_' || chr == '.' || chr == '@' || chr == '+' || chr == '-'),
@fn is_special_2
@spec
    ensures r == (ascii(chr) && 0x20 <= chr as u32 && chr as u32 <= 0x7e && !ascii_alnum(chr) && chr != '/'
        && chr != '_' && chr != '.' && chr != '@' && chr != '+' && chr != '-'),
@fn is_valid_name
@spec
    ensures r == valid_name(name@),
@loop 0
    invariant 0 <= _it0.idx() <= _it0.seq().len(), _it0.seq() == name@.skip(1), name@.len() > 0, utf8(name@).len() <= 256,
        first_ok(name@[0]),
        forall|i: int| 1 <= i <= _it0.idx() ==> rest_ok(#[trigger] name@[i]),
