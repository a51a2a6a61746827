//! Random edit histories on a real data set and on the model in lockstep.
use crate::{cmp::*, gen::*, model::*};
use netcdf3::*;
use std::convert::TryFrom;

#[derive(Debug, Clone)]
pub enum Op {
    AddDim(String, usize), SetUnlim(String, usize), RenDim(String, String), RmDim(String),
    AddVar(String, Vec<String>, u32, bool), RenVar(String, String), RmVar(String),
    AddG(String, Data, bool), RenG(String, String), RmG(String),
    AddA(String, String, Data, u8), RenA(String, String, String), RmA(String, String, bool),
}
fn rn(r: &mut Rng) -> String {
    match r.below(16) { 0 => (*r.pick(&BAD)).to_string(), 1 => "z".repeat(257), 2 => { let mut s = "é".repeat(127); s.push_str("ab"); if r.chance(1, 2) { s.push('c') } s }, _ => (*r.pick(&NAMES[..])).to_string() }
}
pub fn rop(r: &mut Rng, md: &Ds) -> Op {
    let ty = 1 + r.below(6) as u32;
    let n = if r.chance(1, 12) { 0 } else { r.below(5) };
    let mut d = rdata(r, ty, n);
    if ty == 2 && r.chance(1, 3) { d = Data::U8("αβ".bytes().collect()) }
    match r.below(22) {
        0 | 1 | 2 => { let big = md.dims.iter().any(|d| d.size > 1000);
            AddDimS(rn(r), match r.below(10) { 0 => 0, 1 if !big => 0x7fff_fffc, 2 => 0x7fff_fffd, 3 => usize::MAX, _ => 1 + r.below(4) }) },
        3 => Op::SetUnlim(rn(r), match r.below(6) { 0 => 0, _ => r.below(5) }),
        4 | 5 => Op::RenDim(rn(r), rn(r)),
        6 => Op::RmDim(rn(r)),
        7 | 8 | 9 | 10 => { let k = r.below(5);
            let dn = if r.chance(1, 3) { md.dims.iter().map(|d| d.name.clone()).take(k).collect() } else { (0..k).map(|_| if !md.dims.is_empty() && r.chance(9, 10) { r.pick(&md.dims).name.clone() } else { rn(r) }).collect() };
            let tm = r.chance(1, 2); Op::AddVar(rn(r), dn, ty, tm) },
        11 => Op::RenVar(rn(r), rn(r)),
        12 => Op::RmVar(rn(r)),
        13 | 14 => { let s = r.chance(1, 2); Op::AddG(rn(r), d, s) },
        15 => Op::RenG(rn(r), rn(r)),
        16 => Op::RmG(rn(r)),
        17 | 18 | 19 => { let m = r.below(4) as u8; Op::AddA(rv(r, md), rn(r), d, m) },
        20 => Op::RenA(rv(r, md), ra(r, md), rn(r)),
        _ => { let m = r.chance(1, 2); Op::RmA(rv(r, md), ra(r, md), m) },
    }
}
#[allow(non_snake_case)]
fn AddDimS(a: String, b: usize) -> Op { Op::AddDim(a, b) }
fn rv(r: &mut Rng, md: &Ds) -> String { if !md.vars.is_empty() && r.chance(4, 5) { r.pick(&md.vars).name.clone() } else { rn(r) } }
fn ra(r: &mut Rng, md: &Ds) -> String { let l: Vec<&Attr> = md.vars.iter().flat_map(|v| v.attrs.iter()).collect(); if !l.is_empty() && r.chance(3, 4) { r.pick(&l).name.clone() } else { rn(r) } }

use InvalidDataSet as E;
pub enum Exp { Ok, Err(Vec<E>), Any(Vec<E>) }
fn e(l: Vec<E>) -> Exp { if l.is_empty() { Exp::Ok } else { Exp::Err(l) } }

/// expected outcome and, when it is accepted, the model update
pub fn step_model(md: &mut Ds, op: &Op) -> (&'static str, Exp) {
    let mut l: Vec<E> = vec![];
    macro_rules! done { ($p:expr, $u:expr) => {{ if l.is_empty() { $u; } return ($p, e(l)) }} }
    match op {
        Op::AddDim(n, s) => {
            if md.dimx(n).is_some() { l.push(E::DimensionAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::DimensionNameNotValid(n.clone())) }
            if *s == 0 { l.push(E::FixedDimensionWithZeroSize(n.clone())) }
            if *s > 0x7fff_fffc { l.push(E::MaximumFixedDimensionSizeExceeded { dim_name: n.clone(), get: *s }) }
            done!("C02", { let uid = md.next; md.next += 1; md.dims.push(Dim { uid, name: n.clone(), unlim: false, size: *s }) })
        },
        Op::SetUnlim(n, s) => {
            if let Some(d) = md.unlim() { l.push(E::UnlimitedDimensionAlreadyExists(d.name.clone())) }
            if md.dimx(n).is_some() { l.push(E::DimensionAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::DimensionNameNotValid(n.clone())) }
            done!("C02", { let uid = md.next; md.next += 1; md.dims.push(Dim { uid, name: n.clone(), unlim: true, size: *s }) })
        },
        Op::RenDim(o, n) => {
            if o == n { return ("C02", if md.dimx(o).is_some() { Exp::Ok } else { Exp::Any(vec![E::DimensionNotDefined(o.clone())]) }) }
            let k = md.dimx(o);
            if k.is_none() { l.push(E::DimensionNotDefined(o.clone())) }
            if md.dimx(n).is_some() { l.push(E::DimensionAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::DimensionNameNotValid(n.clone())) }
            done!("C02", md.dims[k.unwrap()].name = n.clone())
        },
        Op::RmDim(n) => {
            match md.dimx(n) {
                None => l.push(E::DimensionNotDefined(n.clone())),
                Some(k) => { let u = md.dims[k].uid; let vs: Vec<String> = md.vars.iter().filter(|v| v.dims.contains(&u)).map(|v| v.name.clone()).collect();
                    if !vs.is_empty() { l.push(E::DimensionYetUsed { var_names: vs, dim_name: n.clone() }) } else { md.dims.remove(k); } },
            }
            ("C02", e(l))
        },
        Op::AddVar(n, ds, ty, _) => {
            let undef: Vec<String> = ds.iter().filter(|d| md.dimx(d).is_none()).cloned().collect();
            if !undef.is_empty() { l.push(E::DimensionsNotDefined { var_name: n.clone(), undef_dim_names: undef }) }
            if md.var(n).is_some() { l.push(E::VariableAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::VariableNameNotValid(n.clone())) }
            if ds.len() > 1024 { l.push(E::MaximumDimensionsPerVariableExceeded { var_name: n.clone(), num_dims: ds.len() }) }
            let defined: Vec<&Dim> = ds.iter().filter_map(|d| md.dimx(d)).map(|i| &md.dims[i]).collect();
            if defined.len() == ds.len() {
                if let Some(d) = defined.iter().skip(1).find(|d| d.unlim) { l.push(E::UnlimitedDimensionMustBeDefinedFirst { var_name: n.clone(), unlim_dim_name: d.name.clone(), get_dim_names: ds.clone() }) }
                if (1..ds.len()).any(|i| ds[..i].contains(&ds[i])) { l.push(E::DimensionsUsedMultipleTimes { var_name: n.clone(), get_dim_names: ds.clone() }) }
            }
            done!("C03", { let dims = defined.iter().map(|d| d.uid).collect(); md.vars.push(Var { name: n.clone(), dims, attrs: vec![], ty: *ty }) })
        },
        Op::RenVar(o, n) => {
            let k = md.var(o);
            if o == n { return ("C03", if k.is_some() { Exp::Ok } else { Exp::Any(vec![E::VariableNotDefined(o.clone())]) }) }
            if k.is_none() { l.push(E::VariableNotDefined(o.clone())) }
            if md.var(n).is_some() { l.push(E::VariableAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::VariableNameNotValid(n.clone())) }
            done!("C03", md.vars[k.unwrap()].name = n.clone())
        },
        Op::RmVar(n) => { let k = md.var(n); if k.is_none() { l.push(E::VariableNotDefined(n.clone())) } done!("C03", { md.vars.remove(k.unwrap()); }) },
        Op::AddG(n, d, _) => {
            if md.attrs.iter().any(|a| a.name == *n) { l.push(E::GlobalAttributeAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::GlobalAttributeNameNotValid(n.clone())) }
            done!("C04", md.attrs.push(Attr { name: n.clone(), data: d.clone() }))
        },
        Op::RenG(o, n) => {
            let k = md.attrs.iter().position(|a| a.name == *o);
            if o == n { return ("C04", if k.is_some() { Exp::Ok } else { Exp::Any(vec![E::GlobalAttributeNotDefined(o.clone())]) }) }
            if k.is_none() { l.push(E::GlobalAttributeNotDefined(o.clone())) }
            if md.attrs.iter().any(|a| a.name == *n) { l.push(E::GlobalAttributeAlreadyExists(n.clone())) }
            if !valid_name(n) { l.push(E::GlobalAttributeNameNotValid(n.clone())) }
            done!("C04", md.attrs[k.unwrap()].name = n.clone())
        },
        Op::RmG(n) => { let k = md.attrs.iter().position(|a| a.name == *n); if k.is_none() { l.push(E::GlobalAttributeNotDefined(n.clone())) } done!("C04", { md.attrs.remove(k.unwrap()); }) },
        Op::AddA(v, n, d, _) => {
            let k = md.var(v);
            if k.is_none() { l.push(E::VariableNotDefined(v.clone())) } else {
                if md.vars[k.unwrap()].attrs.iter().any(|a| a.name == *n) { l.push(E::VariableAttributeAlreadyExists { var_name: v.clone(), attr_name: n.clone() }) }
                if !valid_name(n) { l.push(E::VariableAttributeNameNotValid { var_name: v.clone(), attr_name: n.clone() }) }
            }
            done!("C04", md.vars[k.unwrap()].attrs.push(Attr { name: n.clone(), data: d.clone() }))
        },
        Op::RenA(v, o, n) => {
            let k = md.var(v);
            if k.is_none() { l.push(E::VariableNotDefined(v.clone())); return ("C04", e(l)) }
            let at = &md.vars[k.unwrap()].attrs;
            let j = at.iter().position(|a| a.name == *o);
            let nd = E::VariableAttributeNotDefined { var_name: v.clone(), attr_name: o.clone() };
            if o == n { return ("C04", if j.is_some() { Exp::Ok } else { Exp::Any(vec![nd]) }) }
            if j.is_none() { l.push(nd) }
            if at.iter().any(|a| a.name == *n) { l.push(E::VariableAttributeAlreadyExists { var_name: v.clone(), attr_name: n.clone() }) }
            if !valid_name(n) { l.push(E::VariableAttributeNameNotValid { var_name: v.clone(), attr_name: n.clone() }) }
            done!("C04", md.vars[k.unwrap()].attrs[j.unwrap()].name = n.clone())
        },
        Op::RmA(v, n, _) => {
            let k = md.var(v);
            if k.is_none() { l.push(E::VariableNotDefined(v.clone())); return ("C04", e(l)) }
            let j = md.vars[k.unwrap()].attrs.iter().position(|a| a.name == *n);
            if j.is_none() { l.push(E::VariableAttributeNotDefined { var_name: v.clone(), attr_name: n.clone() }) }
            done!("C04", { md.vars[k.unwrap()].attrs.remove(j.unwrap()); })
        },
    }
}
fn s_of(d: &Data) -> Option<String> { if let Data::U8(v) = d { String::from_utf8(v.clone()).ok() } else { None } }
pub fn add_global(ds: &mut DataSet, n: &str, d: &Data, as_str: bool) -> Result<(), E> {
    if as_str { if let Some(s) = s_of(d) { return ds.add_global_attr_string(n, s) } }
    match d.clone() { Data::I8(v) => ds.add_global_attr_i8(n, spare(&v)), Data::U8(v) => ds.add_global_attr_u8(n, spare(&v)), Data::I16(v) => ds.add_global_attr_i16(n, spare(&v)),
        Data::I32(v) => ds.add_global_attr_i32(n, spare(&v)), Data::F32(v) => ds.add_global_attr_f32(n, spare(&v)), Data::F64(v) => ds.add_global_attr_f64(n, spare(&v)) }
}
pub fn add_var_attr(ds: &mut DataSet, v: &str, n: &str, d: &Data, mode: u8) -> Result<(), E> {
    if mode == 1 { if let Some(s) = s_of(d) { return ds.add_var_attr_string(v, n, s) } }
    if mode >= 2 {
        if let Some(x) = ds.get_var_mut(v) {
            if mode == 3 { if let Some(s) = s_of(d) { return x.add_attr_string(n, s) } }
            return match d.clone() { Data::I8(w) => x.add_attr_i8(n, w), Data::U8(w) => x.add_attr_u8(n, w), Data::I16(w) => x.add_attr_i16(n, w),
                Data::I32(w) => x.add_attr_i32(n, w), Data::F32(w) => x.add_attr_f32(n, w), Data::F64(w) => x.add_attr_f64(n, w) }
        }
    }
    match d.clone() { Data::I8(w) => ds.add_var_attr_i8(v, n, spare(&w)), Data::U8(w) => ds.add_var_attr_u8(v, n, spare(&w)), Data::I16(w) => ds.add_var_attr_i16(v, n, spare(&w)),
        Data::I32(w) => ds.add_var_attr_i32(v, n, spare(&w)), Data::F32(w) => ds.add_var_attr_f32(v, n, spare(&w)), Data::F64(w) => ds.add_var_attr_f64(v, n, spare(&w)) }
}
pub fn add_var(ds: &mut DataSet, n: &str, dims: &[String], ty: u32, typed: bool) -> Result<(), E> {
    if !typed { return ds.add_var(n, dims, ty_to(ty)) }
    match ty { 1 => ds.add_var_i8(n, dims), 2 => ds.add_var_u8(n, dims), 3 => ds.add_var_i16(n, dims), 4 => ds.add_var_i32(n, dims), 5 => ds.add_var_f32(n, dims), _ => ds.add_var_f64(n, dims) }
}
/// runs the real operation; `m` gets mismatches on a returned item
pub fn step_real(ds: &mut DataSet, before: &Ds, op: &Op, m: &mut Mis) -> Result<(), E> {
    match op {
        Op::AddDim(n, s) => ds.add_fixed_dim(n, *s),
        Op::SetUnlim(n, s) => ds.set_unlimited_dim(n, *s),
        Op::RenDim(o, n) => ds.rename_dim(o, n),
        Op::RmDim(n) => ds.remove_dim(n).map(|d| { let w = before.dimx(n).map(|i| before.dims[i].clone());
            if w.as_ref().map(|w| (w.name.clone(), w.size, w.unlim)) != Some((d.name(), d.size(), d.is_unlimited())) { m.push(("C02", format!("removed dimension {:?}, expected {:?}", d, w))) } }),
        Op::AddVar(n, dd, t, ty) => add_var(ds, n, dd, *t, *ty),
        Op::RenVar(o, n) => ds.rename_var(o, n),
        Op::RmVar(n) => ds.remove_var(n).map(|v| { if v.name() != n { m.push(("C03", format!("removed variable {:?}, expected {:?}", v.name(), n))) } }),
        Op::AddG(n, d, s) => add_global(ds, n, d, *s),
        Op::RenG(o, n) => ds.rename_global_attr(o, n),
        Op::RmG(n) => ds.remove_global_attr(n).map(|a| match before.attrs.iter().find(|x| x.name == *n) { Some(w) => cmp_attr(m, "C04", "removed", &a, w), None => m.push(("C04", "removed an undefined attribute".into())) }),
        Op::AddA(v, n, d, k) => add_var_attr(ds, v, n, d, *k),
        Op::RenA(v, o, n) => ds.rename_var_attr(v, o, n),
        Op::RmA(v, n, viavar) => {
            let res = if *viavar && ds.has_var(v) { ds.get_var_mut(v).unwrap().remove_attr(n) } else { ds.remove_var_attr(v, n) };
            res.map(|a| match before.var(v).and_then(|k| before.vars[k].attrs.iter().find(|x| x.name == *n)) { Some(w) => cmp_attr(m, "C04", "removed", &a, w), None => m.push(("C04", "removed an undefined attribute".into())) })
        },
    }
}
pub fn judge(p: &'static str, exp: &Exp, got: &Result<(), E>, op: &dyn std::fmt::Debug, m: &mut Mis) {
    let ok = match (exp, got) { (Exp::Ok, Ok(())) => true, (Exp::Err(l), Err(x)) => l.contains(x), (Exp::Any(_), Ok(())) => true, (Exp::Any(l), Err(x)) => l.contains(x), _ => false };
    if !ok {
        let want = match exp { Exp::Ok => "Ok".to_string(), Exp::Err(l) => format!("Err in {:?}", l), Exp::Any(l) => format!("Ok or Err in {:?}", l) };
        let t = format!("{:?} returned {:?}, expected {}", op, got, want);
        if t.contains("NameNotValid") { m.push(("C01", t.clone())) }
        m.push((p, t));
    }
}
/// one history; returns mismatches and the description
pub fn history(r: &mut Rng) -> (Mis, String) {
    let mut md = Ds::default();
    let mut ds = DataSet::new();
    let mut log = String::new();
    let n = 4 + r.below(40);
    for _ in 0..n {
        let op = rop(r, &md);
        log.push_str(&format!("{:?}\n", op));
        let before = md.clone();
        let mut m: Mis = vec![];
        let (p, exp) = step_model(&mut md, &op);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut mm: Mis = vec![]; let g = step_real(&mut ds, &before, &op, &mut mm); (g, mm) }));
        match res {
            Ok((g, mm)) => { judge(p, &exp, &g, &op, &mut m); m.extend(mm) },
            Err(_) => { m.push((p, format!("{:?} panicked", op))); return (m, log) },
        }
        let probes = ["a", "b", "lat", "la", "nope", "A", ""];
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cmp_ds(&ds, &md, &probes))) {
            Ok(mm) => { if !m.is_empty() || !mm.is_empty() {
                // an edit that leaves a wrong state concerns the property of the edit as well
                if !mm.is_empty() && mm.iter().any(|x| ["C02", "C03", "C04"].contains(&x.0)) { m.push((p, format!("after {:?}: {}", op, mm[0].1))) }
                m.extend(mm); return (m, log) } },
            Err(_) => { m.push((p, format!("queries after {:?} panicked", op))); for q in ["C05", "C07"].iter() { m.push((q, format!("queries after {:?} panicked", op))) } return (m, log) },
        }
    }
    (vec![], log)
}
/// long dimension lists around the limit of 1024
pub fn many_dims(r: &mut Rng) -> (Mis, String) {
    let k = 1020 + r.below(8);
    let mut md = Ds::default(); let mut ds = DataSet::new();
    let mut names = vec![];
    let unl = r.below(4);
    for i in 0..k {
        let op = if (unl == 0 && i == 0) || (unl == 1 && i == k - 1) { Op::SetUnlim(format!("d{}", i), 2) } else { Op::AddDim(format!("d{}", i), 1 + (i % 97 == 3) as usize) };
        step_model(&mut md, &op); let _ = step_real(&mut ds, &Ds::default(), &op, &mut vec![]);
        names.push(format!("d{}", i));
    }
    if r.chance(1, 3) { let a = r.below(k); let b = r.below(k); names[a] = names[b].clone() }
    let op = Op::AddVar("v".into(), names, 1 + r.below(6) as u32, false);
    let before = md.clone();
    let mut m = vec![];
    let (p, exp) = step_model(&mut md, &op);
    let g = step_real(&mut ds, &before, &op, &mut m);
    judge(p, &exp, &g, &"add_var with about 1024 dimensions", &mut m);
    if ds.num_vars() != md.vars.len() { m.push(("C03", "wrong number of variables".into())) }
    if let (Some(v), Some(w)) = (ds.get_var("v"), md.vars.get(0)) { if v.chunk_len() != md.chunk_len(w) || v.num_dims() != w.dims.len() { m.push(("C07", "1024 dimensions: wrong size".into())) } }
    (m, format!("{} dimensions, {:?}", k, op))
}
// ------------------------------------------------------------------ C01
pub fn names_exhaustive() -> (Mis, usize) {
    let mut m = vec![]; let mut n = 0;
    for cp in 0..0x110000u32 { if let Some(c) = std::char::from_u32(cp) {
        for s in [c.to_string(), format!("a{}", c), format!("{}_", c), format!("é {}z", c)].iter() {
            n += 1;
            if is_valid_name(s) != valid_name(s) { m.push(("C01", format!("is_valid_name({:?}) = {}", s, is_valid_name(s)))); if m.len() > 3 { return (m, n) } }
        }
    } }
    (m, n)
}
pub fn names_random(r: &mut Rng) -> (Mis, String) {
    let mut m = vec![];
    let total = *r.pick(&[1usize, 2, 3, 5, 64, 65, 128, 254, 255, 256, 257, 258, 259, 300, 512, 513]);
    let mut s = String::new();
    let alpha: Vec<char> = match r.below(5) { 0 => "ab0_".chars().collect(), 1 => "aé".chars().collect(), 2 => "日x€".chars().collect(), 3 => "a_.@+- !\"#$%&'()*,:;<=>?[\\]^`{|}~/\u{7f}\t".chars().collect(), _ => "\u{1F600}\u{80}z".chars().collect() };
    let strict = r.chance(3, 4);
    while s.len() < total { let c = *r.pick(&alpha); if strict && (c == '/' || c == '\u{7f}' || c == '\t') { continue } if s.is_empty() && strict && c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_' { if alpha.iter().all(|c| c.is_ascii()) { s.push('q') } continue } s.push(c) }
    if r.chance(1, 5) { let p = r.below(s.chars().count() + 1); let i = s.char_indices().map(|x| x.0).chain(std::iter::once(s.len())).nth(p).unwrap(); s.insert(i, *r.pick(&['/', '\0', '\n', '\u{7f}', '\u{1f}'])) }
    let w = valid_name(&s);
    if is_valid_name(&s) != w { m.push(("C01", format!("is_valid_name({:?}) ({} bytes) = {}", s, s.len(), !w))) }
    let mut ds = DataSet::new();
    ds.add_fixed_dim("d", 1).unwrap(); ds.add_var_i8("v", &["d"]).unwrap(); ds.add_global_attr_i8("g", vec![]).unwrap(); ds.add_var_attr_i8("v", "h", vec![]).unwrap();
    let mut d2 = DataSet::new();
    d2.add_fixed_dim("d", 1).unwrap(); d2.add_var_i8("v", &["d"]).unwrap();
    for (what, g) in [("add_fixed_dim", d2.add_fixed_dim(&s, 2).is_ok()), ("add_var", d2.add_var_i8(&s, &["d"]).is_ok()), ("set_unlimited_dim", DataSet::new().set_unlimited_dim(&s, 2).is_ok()),
        ("rename_dim", ds.rename_dim("d", &s).is_ok()), ("add_global_attr", d2.add_global_attr_i8(&s, vec![]).is_ok()), ("add_global_attr_string", DataSet::new().add_global_attr_string(&s, "x").is_ok()),
        ("add_var_attr", d2.add_var_attr_f32("v", &s, vec![]).is_ok()), ("rename_global_attr", ds.rename_global_attr("g", &s).is_ok()), ("rename_var_attr", ds.rename_var_attr("v", "h", &s).is_ok()), ("rename_var", ds.rename_var("v", &s).is_ok())].iter() {
        let same = (*what == "rename_dim" && s == "d") || (*what == "rename_global_attr" && s == "g") || (*what == "rename_var_attr" && s == "h") || (*what == "rename_var" && s == "v");
        let taken = (*what == "add_fixed_dim" && s == "d") || (*what == "add_var" && s == "v");
        if *g != ((w && !taken) || same) { m.push(("C01", format!("{} with name {:?} ({} bytes): accepted = {}", what, s, s.len(), g))) }
    }
    (m, format!("name {:?}", s))
}
// ------------------------------------------------------------------ C06
pub fn typed(r: &mut Rng) -> (Mis, String) {
    let mut m: Mis = vec![];
    let ty = 1 + r.below(6) as u32;
    let n = rlen(r);
    let d = rdata(r, ty, n);
    let x = to_dv(&d);
    let mut bad = |c: bool, s: &str| if !c { m.push(("C06", format!("{}: {:?}", s, d))) };
    bad(x.len() == n, "len"); bad(ty_of(&x.data_type()) == ty, "data_type");
    let g: Vec<Option<Data>> = vec![x.get_i8().map(|v| Data::I8(v.to_vec())), x.get_u8().map(|v| Data::U8(v.to_vec())), x.get_i16().map(|v| Data::I16(v.to_vec())), x.get_i32().map(|v| Data::I32(v.to_vec())), x.get_f32().map(|v| Data::F32(v.to_vec())), x.get_f64().map(|v| Data::F64(v.to_vec()))];
    for (k, y) in g.iter().enumerate() { bad(match y { None => ty != k as u32 + 1, Some(y) => y.same(&d) }, "get"); }
    let g: Vec<Result<Data, DataVector>> = vec![x.clone().get_i8_into().map(Data::I8), x.clone().get_u8_into().map(Data::U8), x.clone().get_i16_into().map(Data::I16), x.clone().get_i32_into().map(Data::I32), x.clone().get_f32_into().map(Data::F32), x.clone().get_f64_into().map(Data::F64)];
    for (k, y) in g.iter().enumerate() { bad(match y { Err(o) => ty != k as u32 + 1 && dv(o).same(&d), Ok(y) => ty == k as u32 + 1 && y.same(&d) }, "get_into"); }
    bad(ty_to(ty).size_of() == size_of(ty), "size_of");
    bad(ty_to(ty) as u32 == ty, "code");
    for _ in 0..50 {
        let c = match r.below(3) { 0 => r.below(9) as u32, 1 => (r.below(9) as u32) << (8 * r.below(4)), _ => r.next() as u32 };
        let w = c >= 1 && c <= 6;
        bad(match DataType::try_from(c) { Ok(t) => w && t as u32 == c, Err(_) => !w }, &format!("DataType::try_from({})", c));
    }
    for c in 0..=255u8 { bad(match Version::try_from(c) { Ok(t) => (c == 1 || c == 2) && t as u8 == c, Err(_) => c != 1 && c != 2 }, &format!("Version::try_from({})", c)); }
    (m, format!("{:?}", d))
}
