//! Compares a real `DataSet` with the model through the public API. Each mismatch carries the property it concerns.
use crate::model::*;
use netcdf3::*;
use std::rc::Rc;
pub type Mis = Vec<(&'static str, String)>;

pub fn ty_of(t: &DataType) -> u32 { match t { DataType::I8 => 1, DataType::U8 => 2, DataType::I16 => 3, DataType::I32 => 4, DataType::F32 => 5, DataType::F64 => 6 } }
pub fn ty_to(t: u32) -> DataType { match t { 1 => DataType::I8, 2 => DataType::U8, 3 => DataType::I16, 4 => DataType::I32, 5 => DataType::F32, _ => DataType::F64 } }
pub fn dv(d: &DataVector) -> Data {
    match d { DataVector::I8(v) => Data::I8(v.clone()), DataVector::U8(v) => Data::U8(v.clone()), DataVector::I16(v) => Data::I16(v.clone()),
        DataVector::I32(v) => Data::I32(v.clone()), DataVector::F32(v) => Data::F32(v.clone()), DataVector::F64(v) => Data::F64(v.clone()) }
}
/// a vector with more capacity than values
pub fn spare<T: Clone>(v: &Vec<T>) -> Vec<T> { let mut w = Vec::with_capacity(v.len() + 5); w.extend_from_slice(v); w }
pub fn to_dv(d: &Data) -> DataVector {
    match d { Data::I8(v) => DataVector::I8(spare(v)), Data::U8(v) => DataVector::U8(spare(v)), Data::I16(v) => DataVector::I16(spare(v)),
        Data::I32(v) => DataVector::I32(spare(v)), Data::F32(v) => DataVector::F32(spare(v)), Data::F64(v) => DataVector::F64(spare(v)) }
}

macro_rules! ck { ($m:expr, $p:expr, $c:expr, $($t:tt)*) => { if !$c { $m.push(($p, format!($($t)*))); } } }

/// the data carried by typed accessors; every accessor of another type must refuse
macro_rules! typed_data { ($m:expr, $p:expr, $what:expr, $model:expr, $i8:expr, $u8:expr, $i16:expr, $i32:expr, $f32:expr, $f64:expr, $s:expr) => {{
    let md: &Data = $model;
    let got: Vec<Option<Data>> = vec![$i8.map(|x| Data::I8(x.to_vec())), $u8.map(|x| Data::U8(x.to_vec())), $i16.map(|x| Data::I16(x.to_vec())),
        $i32.map(|x| Data::I32(x.to_vec())), $f32.map(|x| Data::F32(x.to_vec())), $f64.map(|x| Data::F64(x.to_vec()))];
    for (k, g) in got.iter().enumerate() {
        let want = md.ty() == k as u32 + 1;
        let ok = match g { None => !want, Some(d) => want && d.same(md) };
        ck!($m, $p, ok, "{}: accessor of type {} answers {:?}, stored {:?}", $what, k + 1, g, md);
    }
    let ws: Option<String> = if let Data::U8(v) = md { String::from_utf8(v.clone()).ok() } else { None };
    let gs: Option<String> = $s;
    ck!($m, $p, gs == ws, "{}: as string {:?}, expected {:?}", $what, gs, ws);
}} }

pub fn cmp_attr(m: &mut Mis, own: &'static str, what: &str, a: &Attribute, w: &Attr) {
    ck!(m, own, a.name() == w.name, "{}: name {:?}, expected {:?}", what, a.name(), w.name);
    ck!(m, own, ty_of(&a.data_type()) == w.data.ty(), "{} {:?}: data type {:?}, expected {}", what, w.name, a.data_type(), w.data.ty());
    ck!(m, own, a.len() == w.data.len(), "{} {:?}: len {}, expected {}", what, w.name, a.len(), w.data.len());
    for p in [own, "C06"].iter() {
        typed_data!(m, *p, format!("{} {:?}", what, w.name), &w.data, a.get_i8(), a.get_u8(), a.get_i16(), a.get_i32(), a.get_f32(), a.get_f64(), a.get_as_string());
    }
}

fn cmp_attr_list(m: &mut Mis, what: &str, got: &[&Attribute], names: &[String], num: usize, want: &[Attr]) {
    let wn: Vec<&str> = want.iter().map(|a| a.name.as_str()).collect();
    let gn: Vec<&str> = got.iter().map(|a| a.name()).collect();
    ck!(m, "C04", gn == wn, "{}: attributes {:?}, expected {:?}", what, gn, wn);
    ck!(m, "C05", names.iter().map(|s| s.as_str()).collect::<Vec<_>>() == wn && num == wn.len() && gn == wn, "{}: listed {:?} (count {}), expected {:?}", what, names, num, wn);
    if gn == wn { for (a, w) in got.iter().zip(want) { cmp_attr(m, "C04", what, a, w); } }
}

pub fn cmp_var(m: &mut Mis, ds: &DataSet, md: &Ds, v: &Variable, w: &Var) {
    let n = &w.name;
    ck!(m, "C03", v.name() == *n, "variable name {:?}, expected {:?}", v.name(), n);
    ck!(m, "C03", ty_of(&v.data_type()) == w.ty, "variable {:?}: type {:?}, expected {}", n, v.data_type(), w.ty);
    let wd: Vec<String> = w.dims.iter().map(|u| md.dim(*u).name.clone()).collect();
    ck!(m, "C03", v.dim_names() == wd, "variable {:?}: dimensions {:?}, expected {:?}", n, v.dim_names(), wd);
    ck!(m, "C05", v.num_dims() == wd.len(), "variable {:?}: num_dims {}", n, v.num_dims());
    for (d, dn) in v.get_dims().iter().zip(wd.iter()) {
        let same = ds.get_dim(dn).map(|x| Rc::ptr_eq(&x, d)).unwrap_or(false);
        ck!(m, "C03", same, "variable {:?}: dimension {:?} is not the one of the data set", n, dn);
    }
    for d in &md.dims { ck!(m, "C05", v.use_dim(&d.name) == wd.contains(&d.name), "variable {:?}: use_dim({:?})", n, d.name); }
    ck!(m, "C07", v.is_record_var() == md.is_rec(w), "variable {:?}: is_record_var {}", n, v.is_record_var());
    ck!(m, "C07", v.chunk_len() == md.chunk_len(w), "variable {:?}: chunk_len {}, expected {}", n, v.chunk_len(), md.chunk_len(w));
    ck!(m, "C07", v.chunk_size() == md.chunk_size(w), "variable {:?}: chunk_size {}, expected {}", n, v.chunk_size(), md.chunk_size(w));
    ck!(m, "C07", v.num_chunks() == md.nchunks(w), "variable {:?}: num_chunks {}, expected {}", n, v.num_chunks(), md.nchunks(w));
    ck!(m, "C07", v.len() == md.len(w), "variable {:?}: len {}, expected {}", n, v.len(), md.len(w));
    cmp_attr_list(m, &format!("variable {:?}", n), &v.get_attrs(), &v.get_attr_names(), v.num_attrs(), &w.attrs);
    for a in &w.attrs {
        ck!(m, "C05", v.has_attr(&a.name) && v.get_attr(&a.name).map(|x| x.name() == a.name).unwrap_or(false), "variable {:?}: attribute {:?} not found", n, a.name);
        typed_data!(m, "C06", format!("variable {:?} attribute {:?}", n, a.name), &a.data, v.get_attr_i8(&a.name), v.get_attr_u8(&a.name), v.get_attr_i16(&a.name), v.get_attr_i32(&a.name), v.get_attr_f32(&a.name), v.get_attr_f64(&a.name), v.get_attr_as_string(&a.name));
    }
}

/// full comparison; `probe`: names looked up besides the defined ones
pub fn cmp_ds(ds: &DataSet, md: &Ds, probe: &[&str]) -> Mis {
    let mut m: Mis = vec![];
    // ---- dimensions
    let rd = ds.get_dims();
    let got: Vec<(String, usize, bool)> = rd.iter().map(|d| (d.name(), d.size(), d.is_unlimited())).collect();
    let want: Vec<(String, usize, bool)> = md.dims.iter().map(|d| (d.name.clone(), d.size, d.unlim)).collect();
    ck!(m, "C02", got == want, "dimensions {:?}, expected {:?}", got, want);
    ck!(m, "C02", ds.has_unlimited_dim() == md.unlim().is_some(), "has_unlimited_dim {}", ds.has_unlimited_dim());
    match (ds.get_unlimited_dim(), md.unlim()) {
        (None, None) => {},
        (Some(d), Some(w)) => {
            let listed = rd.iter().any(|x| Rc::ptr_eq(x, &d));
            ck!(m, "C02", d.name() == w.name && d.size() == w.size && listed, "unlimited dimension {:?} (listed: {}), expected {:?}", d, listed, w);
        },
        (a, b) => m.push(("C02", format!("unlimited dimension {:?}, expected {:?}", a, b))),
    }
    for d in &rd { ck!(m, "C05", d.is_fixed() != d.is_unlimited() && (d.dim_type() == DimensionType::FixedSize) == d.is_fixed(), "dimension {:?}: type", d.name()); }
    ck!(m, "C05", ds.num_dims() == want.len() && ds.dim_names() == want.iter().map(|d| d.0.clone()).collect::<Vec<_>>(), "dim listing {:?} {}", ds.dim_names(), ds.num_dims());
    ck!(m, "C07", ds.num_records() == md.numrecs(), "num_records {:?}, expected {:?}", ds.num_records(), md.numrecs());
    let wr = md.unlim().map(|_| md.rec_size());
    ck!(m, "C07", ds.record_size() == wr, "record_size {:?}, expected {:?}", ds.record_size(), wr);
    // ---- variables
    let rv = ds.get_vars();
    let gn: Vec<&str> = rv.iter().map(|v| v.name()).collect();
    let wn: Vec<&str> = md.vars.iter().map(|v| v.name.as_str()).collect();
    ck!(m, "C03", gn == wn, "variables {:?}, expected {:?}", gn, wn);
    ck!(m, "C05", ds.num_vars() == wn.len() && ds.get_var_names() == wn.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "variable listing {:?} {}", ds.get_var_names(), ds.num_vars());
    if gn == wn { for (v, w) in rv.iter().zip(&md.vars) { cmp_var(&mut m, ds, md, v, w); } }
    // ---- global attributes
    cmp_attr_list(&mut m, "global", &ds.get_global_attrs(), &ds.get_global_attr_names(), ds.num_global_attrs(), &md.attrs);
    if !m.iter().any(|x| ["C02", "C03", "C04"].contains(&x.0)) {
        let mut names: Vec<&str> = probe.to_vec();
        for d in &md.dims { names.push(&d.name) }
        for v in &md.vars { names.push(&v.name); for a in &v.attrs { names.push(&a.name) } }
        for a in &md.attrs { names.push(&a.name) }
        names.sort(); names.dedup();
        names.truncate(60);
        for n in &names { cmp_lookup(&mut m, ds, md, n, &names); }
    }
    m
}

fn cmp_lookup(m: &mut Mis, ds: &DataSet, md: &Ds, n: &str, names: &[&str]) {
    let d = md.dimx(n).map(|i| &md.dims[i]);
    ck!(m, "C05", ds.has_dim(n) == d.is_some(), "has_dim({:?})", n);
    ck!(m, "C05", ds.dim_size(n) == d.map(|d| d.size), "dim_size({:?}) {:?}, expected {:?}", n, ds.dim_size(n), d.map(|d| d.size));
    ck!(m, "C05", ds.dim_type(n).map(|t| t == DimensionType::UnlimitedSize) == d.map(|d| d.unlim), "dim_type({:?})", n);
    ck!(m, "C05", ds.get_dim(n).map(|x| (x.name(), x.size(), x.is_unlimited())) == d.map(|d| (d.name.clone(), d.size, d.unlim)), "get_dim({:?})", n);
    let v = md.var(n).map(|i| &md.vars[i]);
    ck!(m, "C05", ds.has_var(n) == v.is_some(), "has_var({:?})", n);
    ck!(m, "C05", ds.get_var(n).map(|x| x.name().to_string()) == v.map(|v| v.name.clone()), "get_var({:?})", n);
    ck!(m, "C05", ds.var_len(n) == v.map(|v| md.len(v)), "var_len({:?}) {:?}, expected {:?}", n, ds.var_len(n), v.map(|v| md.len(v)));
    ck!(m, "C05", ds.is_record_var(n) == v.map(|v| md.is_rec(v)), "is_record_var({:?})", n);
    ck!(m, "C05", ds.var_data_type(n).map(|t| ty_of(&t)) == v.map(|v| v.ty), "var_data_type({:?})", n);
    ck!(m, "C05", ds.num_var_attrs(n) == v.map(|v| v.attrs.len()), "num_var_attrs({:?})", n);
    ck!(m, "C05", ds.get_var_attrs(n).map(|l| l.iter().map(|a| a.name().to_string()).collect::<Vec<_>>()) == v.map(|v| v.attrs.iter().map(|a| a.name.clone()).collect::<Vec<_>>()), "get_var_attrs({:?})", n);
    for a in names {
        let wa = v.and_then(|v| v.attrs.iter().find(|x| x.name == *a));
        ck!(m, "C05", ds.has_var_attr(n, a) == v.map(|_| wa.is_some()), "has_var_attr({:?}, {:?})", n, a);
        if v.is_none() && *a != n { continue }
        ck!(m, "C05", ds.get_var_attr_len(n, a) == wa.map(|x| x.data.len()), "get_var_attr_len({:?}, {:?})", n, a);
        ck!(m, "C05", ds.get_var_attr_data_type(n, a).map(|t| ty_of(&t)) == wa.map(|x| x.data.ty()), "get_var_attr_data_type({:?}, {:?})", n, a);
        match (ds.get_var_attr(n, a), wa) {
            (None, None) => {},
            (Some(x), Some(w)) => cmp_attr(m, "C05", "get_var_attr", x, w),
            _ => m.push(("C05", format!("get_var_attr({:?}, {:?})", n, a))),
        }
        if let Some(w) = wa {
            for p in ["C05", "C06"].iter() {
                typed_data!(m, *p, format!("{:?}.{:?}", n, a), &w.data, ds.get_var_attr_i8(n, a), ds.get_var_attr_u8(n, a), ds.get_var_attr_i16(n, a), ds.get_var_attr_i32(n, a), ds.get_var_attr_f32(n, a), ds.get_var_attr_f64(n, a), ds.get_var_attr_as_string(n, a));
            }
        } else {
            let none = ds.get_var_attr_i8(n, a).is_none() && ds.get_var_attr_u8(n, a).is_none() && ds.get_var_attr_i16(n, a).is_none() && ds.get_var_attr_i32(n, a).is_none() && ds.get_var_attr_f32(n, a).is_none() && ds.get_var_attr_f64(n, a).is_none() && ds.get_var_attr_as_string(n, a).is_none();
            ck!(m, "C05", none, "typed get_var_attr({:?}, {:?}) answers for an undefined attribute", n, a);
        }
    }
    let ga = md.attrs.iter().find(|a| a.name == n);
    ck!(m, "C05", ds.has_global_attr(n) == ga.is_some(), "has_global_attr({:?})", n);
    ck!(m, "C05", ds.get_global_attr_len(n) == ga.map(|a| a.data.len()), "get_global_attr_len({:?})", n);
    ck!(m, "C05", ds.get_global_attr_data_type(n).map(|t| ty_of(&t)) == ga.map(|a| a.data.ty()), "get_global_attr_data_type({:?})", n);
    match (ds.get_global_attr(n), ga) {
        (None, None) => {},
        (Some(x), Some(w)) => cmp_attr(m, "C05", "get_global_attr", x, w),
        _ => m.push(("C05", format!("get_global_attr({:?})", n))),
    }
    if let Some(w) = ga {
        for p in ["C05", "C06"].iter() {
            typed_data!(m, *p, format!("global {:?}", n), &w.data, ds.get_global_attr_i8(n), ds.get_global_attr_u8(n), ds.get_global_attr_i16(n), ds.get_global_attr_i32(n), ds.get_global_attr_f32(n), ds.get_global_attr_f64(n), ds.get_global_attr_as_string(n));
        }
    } else {
        let none = ds.get_global_attr_i8(n).is_none() && ds.get_global_attr_u8(n).is_none() && ds.get_global_attr_i16(n).is_none() && ds.get_global_attr_i32(n).is_none() && ds.get_global_attr_f32(n).is_none() && ds.get_global_attr_f64(n).is_none() && ds.get_global_attr_as_string(n).is_none();
        ck!(m, "C05", none, "typed get_global_attr({:?}) answers for an undefined attribute", n);
    }
}
