//! Random files (valid, damaged, hostile) against the reference parser and the reference decoding.
use crate::{cmp::*, gen::*, model::*, sys};
use netcdf3::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;

const EXT: [u32; 26] = [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 255, 256, 257, 1023, 1024, 1025, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x7fff_fffc, 0x7fff_fffd, 0x4000_0000, 0x1000_0000];

/// raw file bytes
pub fn file(r: &mut Rng) -> (Vec<u8>, String) {
    let mut md = rds(r);
    let ver = 1 + r.below(2) as u8;
    if r.chance(1, 20) { for a in 0..r.below(40) { md.dims.push(Dim { uid: 1000 + a as u64, name: format!("extra{}", a), unlim: false, size: 1 }) } }
    // semantic damage
    let mut note = String::new();
    if r.chance(1, 4) {
        match r.below(10) {
            0 if md.dims.len() > 1 => { let n = md.dims[0].name.clone(); let k = 1 + r.below(md.dims.len() - 1); md.dims[k].name = n; note += "duplicate dimension " },
            1 if md.vars.len() > 1 => { let n = md.vars[0].name.clone(); let k = 1 + r.below(md.vars.len() - 1); md.vars[k].name = n; note += "duplicate variable " },
            2 if md.attrs.len() > 1 => { let n = md.attrs[0].name.clone(); let k = 1 + r.below(md.attrs.len() - 1); md.attrs[k].name = n; note += "duplicate attribute " },
            3 => { if let Some(v) = md.vars.iter_mut().find(|v| v.attrs.len() > 1) { v.attrs[1].name = v.attrs[0].name.clone(); note += "duplicate variable attribute " } },
            4 if !md.dims.is_empty() => { let k = r.below(md.dims.len()); md.dims[k].name = r.pick(&BAD).to_string(); note += "bad dimension name " },
            5 if !md.vars.is_empty() => { let k = r.below(md.vars.len()); md.vars[k].name = r.pick(&BAD).to_string(); note += "bad variable name " },
            6 if !md.attrs.is_empty() => { let k = r.below(md.attrs.len()); md.attrs[k].name = "z".repeat(256 + r.below(3)); note += "long attribute name " },
            7 => { if let Some(v) = md.vars.iter_mut().find(|v| v.dims.len() > 1) { let k = r.below(v.dims.len()); let j = r.below(v.dims.len()); if r.chance(1, 2) { v.dims.swap(j, k) } else { v.dims[j] = v.dims[k] } note += "dimension order or repetition " } },
            8 if md.dims.len() > 1 => { let k = r.below(md.dims.len()); let u = md.dims[k].uid; for d in md.dims.iter_mut() { if d.uid == u { d.unlim = true; d.size = 2 } } note += "second unlimited dimension " },
            _ => { let n = r.pick(&BAD).to_string(); for v in md.vars.iter_mut() { if let Some(a) = v.attrs.first_mut() { a.name = n.clone(); note += "bad attribute name "; break } } },
        }
    }
    // header length around the multiples of 1024
    if r.chance(1, 3) {
        let l = md.encode(ver, &vec![0; md.vars.len()], None).len();
        let goal = (1 + r.below(3)) * 1024 + 4 * r.below(5) - 8;
        let head = if md.attrs.is_empty() { 4 } else { 0 } ;
        let _ = head;
        if goal > l + 40 { let n = goal - l - 4 - 4 - 4 - 4 - if md.attrs.is_empty() { 0 } else { 0 }; md.attrs.push(Attr { name: "tune".into(), data: Data::U8(vec![b'x'; n]) }) }
    }
    let h = md.header_size(ver, if r.chance(1, 4) { r.below(3000) } else { 0 });
    // offsets: standard layout, or shuffled with gaps
    let mut off = md.layout(h);
    let mut end = h + md.vars.iter().map(|v| if md.is_rec(v) { 0 } else { md.chunk_size(v) }).sum::<usize>() + md.rec_size() * md.numrecs().unwrap_or(0);
    if r.chance(1, 4) {
        let mut order: Vec<usize> = (0..md.vars.len()).collect();
        for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j) }
        let mut p = h + r.below(9);
        for k in &order { if !md.is_rec(&md.vars[*k]) { off[*k] = p; p += md.chunk_size(&md.vars[*k]) + r.below(7) * r.below(2) } }
        let base = p;
        for k in &order { if md.is_rec(&md.vars[*k]) { off[*k] = p; p += md.chunk_size(&md.vars[*k]) } }
        end = base + md.rec_size() * md.numrecs().unwrap_or(0);
        note += "shuffled layout ";
    }
    if r.chance(1, 12) { for o in off.iter_mut() { if r.chance(1, 2) { *o = match r.below(4) { 0 => 0, 1 => end + r.below(20), 2 => 0x7fff_fff0, _ => r.below(end + 1) } } } note += "random offsets " }
    let nr = if r.chance(1, 4) { note += "indeterminate count "; Some(0xffff_ffff) } else if r.chance(1, 20) { Some(*r.pick(&EXT)) } else { None };
    let mut b = md.encode(ver, &off, nr);
    let hl = b.len();
    if b.len() < end { let n = end - b.len(); let fill0 = r.chance(1, 6); for _ in 0..n { b.push(if fill0 { 0 } else { r.next() as u8 }) } }
    // extra or missing data at the end
    match r.below(8) { 0 => { for _ in 0..r.below(30) { b.push(r.next() as u8) } }, 1 if b.len() > hl => { let k = hl + r.below(b.len() - hl); b.truncate(k) }, 2 if b.len() > hl => { let k = r.below(5).min(b.len() - hl); let n = b.len() - k; b.truncate(n) }, _ => {} }
    // damage of the bytes
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            if b.is_empty() { break }
            let l = hl.min(b.len()).max(1);
            match r.below(12) {
                0 | 1 | 2 | 3 => { let k = r.below(l) & !3; let v = *r.pick(&EXT); if k + 4 <= b.len() { b[k..k + 4].copy_from_slice(&v.to_be_bytes()) } note += &format!("word {} = {:#x} ", k, v) },
                4 | 5 => { let k = r.below(l); b[k] = r.next() as u8; note += &format!("byte {} ", k) },
                6 => { let k = r.below(l); b[k] ^= 1 << r.below(8); note += &format!("bit of byte {} ", k) },
                7 => { let k = r.below(l + 1); b.truncate(k); note += &format!("cut at {} ", k) },
                8 => { let k = r.below(l) & !3; b.drain(k..(k + 4).min(b.len())); note += &format!("word {} removed ", k) },
                9 => { let k = r.below(l) & !3; for x in r.pick(&EXT).to_be_bytes().iter().rev() { b.insert(k, *x) } note += &format!("word inserted at {} ", k) },
                10 => { let k = r.below(l); b[k] = *r.pick(&[0xffu8, 0xc3, 0, 0x2f, 0x80]); note += &format!("byte {} ", k) },
                _ => { let k = r.below(l.min(12)); b[k] = r.next() as u8 & 3; note += &format!("byte {} ", k) },
            }
        }
    }
    (b, format!("{:?}\nversion {}, offsets {:?}, {}\n", md, ver, off, note))
}
/// bytes without any structure, or a soup of tags
pub fn soup(r: &mut Rng) -> (Vec<u8>, String) {
    let mut b: Vec<u8> = vec![];
    if r.chance(9, 10) { b.extend_from_slice(b"CDF"); b.push(1 + r.below(2) as u8) }
    let n = r.below(60);
    for _ in 0..n { match r.below(8) { 0 => b.extend_from_slice(&[0; 8]), 1 => b.extend_from_slice(&[0, 0, 0, 10]), 2 => b.extend_from_slice(&[0, 0, 0, 11]), 3 => b.extend_from_slice(&[0, 0, 0, 12]),
        4 => b.extend_from_slice(b"\0\0\0\x01a\0\0\0"), 5 => b.extend_from_slice(&r.pick(&EXT).to_be_bytes()), 6 => b.extend_from_slice(&(r.below(8) as u32).to_be_bytes()), _ => { for _ in 0..r.below(6) { b.push(r.next() as u8) } } } }
    (b, String::new())
}
/// structured hostile headers: large products of dimensions, many records
pub fn hostile(r: &mut Rng) -> (Vec<u8>, String) {
    let mut md = Ds::default();
    let nd = 1 + r.below(6);
    let unl = if r.chance(1, 2) { 0 } else { 99 };
    for i in 0..nd { let size = match r.below(5) { 0 => 0x7fff_fffc, 1 => 0x10000, 2 => 0x4000_0000, 3 => 1 + r.below(10), _ => 0x7fff_fff8 }; md.dims.push(Dim { uid: i as u64, name: format!("d{}", i), unlim: i == unl, size: if i == unl { [0, 1, 0x7fff_ffff, 0x10000][r.below(4)] } else { size } }) }
    let ver = 1 + r.below(2) as u8;
    let nv = 1 + r.below(3);
    for i in 0..nv { let mut dims = vec![]; for j in 0..nd { if r.chance(1, 2) { dims.push(j as u64) } } md.vars.push(Var { name: format!("v{}", i), dims, attrs: vec![], ty: 1 + r.below(6) as u32 }) }
    // sizes may overflow: encode the vsize field by hand
    let mut o = b"CDF".to_vec(); o.push(ver);
    let nr: u32 = if r.chance(1, 4) { 0xffff_ffff } else { md.numrecs().unwrap_or(*r.pick(&[0usize, 1, 0x7fff_ffff])) as u32 };
    push_be(&mut o, nr as u64, 4);
    push_be(&mut o, 10, 4); push_be(&mut o, nd as u64, 4);
    for d in &md.dims { push_be(&mut o, 2, 4); o.extend_from_slice(d.name.as_bytes()); o.extend_from_slice(&[0, 0]); push_be(&mut o, if d.unlim { 0 } else { d.size as u64 }, 4) }
    push_be(&mut o, 0, 8);
    push_be(&mut o, 11, 4); push_be(&mut o, nv as u64, 4);
    for v in &md.vars { push_be(&mut o, 2, 4); o.extend_from_slice(v.name.as_bytes()); o.extend_from_slice(&[0, 0]); push_be(&mut o, v.dims.len() as u64, 4); for d in &v.dims { push_be(&mut o, *d, 4) }
        push_be(&mut o, 0, 8); push_be(&mut o, v.ty as u64, 4); push_be(&mut o, *r.pick(&[0u64, 4, 0x7fff_ffff, 0xffff_ffff]), 4);
        let b: u64 = match r.below(6) { 0 => 0, 1 => 0x7fff_ffff, 2 if ver == 2 => 0x7fff_ffff_ffff_ffff, 3 if ver == 2 => 0x7fff_ffff_ffff_fff0, _ => 200 }; push_be(&mut o, b, if ver == 1 { 4 } else { 8 }) }
    let extra = match r.below(4) { 0 => 0, 1 => r.below(50), 2 => 4096, _ => 40000 };
    for _ in 0..extra { o.push(r.next() as u8) }
    (o, format!("{:?}\nversion {} numrecs field {:#x}\n", md, ver, nr))
}
fn why_prop(w: &str) -> Option<&'static str> { match w { "dim name" | "attr name" | "var name" => Some("C01"), "dup dim" | "two unlimited" | "dim size" => Some("C02"), "dup var" | "repeated dim" | "unlimited not first" | "too many dims" | "dim id" => Some("C03"), "dup attr" => Some("C04"), "first record" | "remainder" => Some("C16"), "overflow" => Some("C14"), _ => None } }

pub fn check(b: &[u8], path: &Path, r: &mut Rng) -> Mis {
    let mut m: Mis = vec![];
    std::fs::write(path, b).unwrap();
    let lim = 64 * b.len() + (1 << 20);
    let want = parse(b, b.len());
    sys::MAX_ALLOC.store(0, SeqCst);
    let got = catch_unwind(AssertUnwindSafe(|| FileReader::open(path)));
    let peak = sys::MAX_ALLOC.load(SeqCst);
    if peak > lim { m.push(("C14", format!("opening a file of {} bytes allocated {} bytes at once", b.len(), peak))); return m }
    let got = match got { Ok(x) => x, Err(_) => { m.push(("C14", "opening the file panicked".into())); m.push(("C15", "opening the file panicked".into())); if let Err(PErr::Invalid(w)) = want { if let Some("C16") = why_prop(w) { m.push(("C16", "opening the file panicked".into())) } } return m } };
    let mut f = match (got, want.as_ref()) {
        (Err(e), Err(PErr::Incomplete)) => { if !e.header_is_incomplete() { m.push(("C15", format!("the header is cut short; reported as {:?}", e))) } return m },
        (Err(_), Err(PErr::Invalid(_))) => return m,
        (Ok(_), Err(w)) => {
            m.push(("C15", format!("accepted, although the header is not valid: {:?}", w)));
            if let PErr::Invalid(w) = w { if let Some(p) = why_prop(w) { m.push((p, format!("a file is accepted with: {}", w))) } }
            // whatever was accepted must still be readable without a crash
            if let Ok(Ok(mut f)) = catch_unwind(AssertUnwindSafe(|| FileReader::open(path))) {
                let names = f.data_set().get_var_names();
                for n in &names { if catch_unwind(AssertUnwindSafe(|| { let _ = f.read_var(n); let _ = f.read_record(n, 0); let _ = f.read_record(n, usize::MAX); })).is_err() { m.push(("C14", format!("reading {:?} panicked", n))) } }
                if sys::MAX_ALLOC.load(SeqCst) > lim { m.push(("C14", "reading allocated more than the file can hold".into())) }
            }
            return m },
        (Err(e), Ok(p)) => {
            m.push(("C15", format!("refused although valid: {:?}", e)));
            if p.indeterminate && e == ReadError::ComputationNumberOfRecords { m.push(("C16", format!("refused although the record count is {:?}", p.ds.numrecs()))) }
            if p.indeterminate && e == ReadError::Unexpected { m.push(("C16", format!("refused although the record count is {:?}", p.ds.numrecs()))) }
            let t = format!("{:?}", e);
            if t.contains("NameNotValid") { m.push(("C01", format!("refused: {}", t))) }
            return m },
        (Ok(f), Ok(_)) => f,
    };
    let p = want.unwrap();
    let ds = &p.ds;
    if f.version() as u8 != p.ver { m.push(("C15", format!("version {:?}, expected {}", f.version(), p.ver))) }
    if f.data_set().num_records() != ds.numrecs() { m.push(("C16", format!("{:?} records, expected {:?}", f.data_set().num_records(), ds.numrecs()))) }
    let c = match catch_unwind(AssertUnwindSafe(|| cmp_ds(f.data_set(), ds, &["nope", "d", "n0"]))) { Ok(c) => c, Err(_) => { m.push(("C14", "querying the data set panicked".into())); m.push(("C07", "querying the opened data set panicked".into())); return m } };
    for x in c { m.push(("C15", x.1.clone())); m.push((x.0, format!("after opening a file: {}", x.1))) }
    if !m.is_empty() { return m }
    // ---- reads
    let rs = if ds.unlim().is_some() { ds.rec_size() } else { 0 };
    let mut order: Vec<(usize, Option<usize>, bool)> = vec![];
    for k in 0..ds.vars.len() { for _ in 0..2 { let t = r.chance(1, 2); order.push((k, None, t)) } let nc = ds.nchunks(&ds.vars[k]);
        for i in [0, 1, nc.wrapping_sub(1), nc, nc + 1, usize::MAX, r.below(nc.max(1))].iter() { let t = r.chance(1, 2); order.push((k, Some(*i), t)) } if let Some(n) = ds.numrecs() { order.push((k, Some(n.wrapping_sub(1)), false)) } }
    for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j) }
    order.truncate(40);
    sys::MAX_ALLOC.store(0, SeqCst);
    for (k, idx, typed) in order {
        let v = &ds.vars[k];
        let (nc, cl, cb) = (ds.nchunks(v), ds.chunk_len(v), ds.chunk_len(v) as u128 * size_of(v.ty) as u128);
        let at = |i: usize| -> Option<&[u8]> { let a = p.off[k] as u128 + if ds.is_rec(v) { i as u128 * rs as u128 } else { 0 }; if a + cb <= b.len() as u128 { Some(&b[a as usize..(a + cb) as usize]) } else { None } };
        let what = format!("{}{} of {:?}{}", if idx.is_some() { "record " } else { "whole" }, idx.map(|i| i.to_string()).unwrap_or_default(), v.name, if typed { " (typed)" } else { "" });
        let exp: Result<Option<Data>, Option<ReadError>> = match idx {
            None => { let mut all = vec![]; let mut miss = false; if nc > 0 && at(nc - 1).is_none() { miss = true } else { for i in 0..nc { match at(i) { Some(x) => all.extend_from_slice(x), None => { miss = true; break } } } }
                if miss { Err(None) } else { Ok(Some(Data::from_bytes(v.ty, &all))) } },
            Some(i) if i >= nc => Err(Some(ReadError::RecordIndexExceeded { index: i, num_records: nc })),
            Some(i) => match at(i) { Some(x) => Ok(Some(Data::from_bytes(v.ty, x))), None => Err(None) },
        };
        let far = p.off[k] as u128 + (rs as u128) * (nc as u128 + 1) > 1 << 40 || p.off[k] > 1 << 40;
        let _ = cl;
        let got = catch_unwind(AssertUnwindSafe(|| -> Result<Data, ReadError> {
            match (idx, typed) {
                (None, false) => f.read_var(&v.name).map(|x| dv(&x)),
                (Some(i), false) => f.read_record(&v.name, i).map(|x| dv(&x)),
                (None, true) => Ok(match v.ty { 1 => Data::I8(f.read_var_i8(&v.name)?), 2 => Data::U8(f.read_var_u8(&v.name)?), 3 => Data::I16(f.read_var_i16(&v.name)?), 4 => Data::I32(f.read_var_i32(&v.name)?), 5 => Data::F32(f.read_var_f32(&v.name)?), _ => Data::F64(f.read_var_f64(&v.name)?) }),
                (Some(i), true) => Ok(match v.ty { 1 => Data::I8(f.read_record_i8(&v.name, i)?), 2 => Data::U8(f.read_record_u8(&v.name, i)?), 3 => Data::I16(f.read_record_i16(&v.name, i)?), 4 => Data::I32(f.read_record_i32(&v.name, i)?), 5 => Data::F32(f.read_record_f32(&v.name, i)?), _ => Data::F64(f.read_record_f64(&v.name, i)?) }),
            } }));
        let got = match got { Ok(g) => g, Err(_) => { for q in ["C14", "C17"].iter() { m.push((q, format!("reading {} panicked", what))) } return m } };
        if sys::MAX_ALLOC.load(SeqCst) > lim { m.push(("C14", format!("reading {} in a file of {} bytes allocated {} bytes at once", what, b.len(), sys::MAX_ALLOC.load(SeqCst)))); return m }
        let ok = match (&exp, &got) {
            (Ok(Some(d)), Ok(x)) => x.same(d),
            (Ok(Some(d)), Err(ReadError::IOErrorKind(_))) => d.len() == 0 || far,
            (Err(Some(e)), Err(g)) => e == g,
            (Err(None), Err(_)) => true,
            _ => false,
        };
        if !ok { m.push(("C17", format!("reading {}: {:?}, expected {:?}", what, got, exp))); return m }
        // a refused read: another type
        if r.chance(1, 3) {
            let t = 1 + r.below(6) as u32;
            if t != v.ty {
                let g = catch_unwind(AssertUnwindSafe(|| match t { 1 => f.read_var_i8(&v.name).err().into_iter().chain(f.read_record_i8(&v.name, 0).err()).collect::<Vec<_>>(), 2 => f.read_var_u8(&v.name).err().into_iter().chain(f.read_record_u8(&v.name, 0).err()).collect(),
                    3 => f.read_var_i16(&v.name).err().into_iter().chain(f.read_record_i16(&v.name, 0).err()).collect(), 4 => f.read_var_i32(&v.name).err().into_iter().chain(f.read_record_i32(&v.name, 0).err()).collect(),
                    5 => f.read_var_f32(&v.name).err().into_iter().chain(f.read_record_f32(&v.name, 0).err()).collect(), _ => f.read_var_f64(&v.name).err().into_iter().chain(f.read_record_f64(&v.name, 0).err()).collect() }));
                let e = ReadError::VariableMismatchDataType { var_name: v.name.clone(), req: ty_to(v.ty), get: ty_to(t) };
                match g { Ok(l) if l.len() == 2 && l.iter().all(|x| *x == e) => {}, g => { m.push(("C17", format!("reading {:?} as type {}: {:?}", v.name, t, g.map_err(|_| "panic")))); return m } }
            }
        }
    }
    for n in ["no such variable", ""].iter() {
        if ds.var(n).is_some() { continue }
        let e = Some(ReadError::VariableNotDefined(n.to_string()));
        if f.read_var(n).err() != e || f.read_record(n, 0).err() != e || f.read_var_f32(n).err() != e || f.read_record_i8(n, 0).err() != e { m.push(("C17", format!("reading the undefined variable {:?} is not refused properly", n))) }
    }
    let (d2, v2) = f.close();
    if v2 as u8 != p.ver || d2.num_vars() != ds.vars.len() { m.push(("C15", "close returns another data set or version".into())) }
    m
}

/// sparse files whose records and variables lie far apart: the values at the computed places are read
pub fn far(r: &mut Rng, path: &Path) -> (Mis, String) {
    let mut m: Mis = vec![];
    let mut md = Ds::default();
    let ver = if r.chance(3, 4) { 2 } else { 1 };
    let nrec = 1 + r.below(4);
    md.dims.push(Dim { uid: 0, name: "t".into(), unlim: true, size: nrec });
    md.dims.push(Dim { uid: 1, name: "x".into(), unlim: false, size: 1 + r.below(5) });
    let big = match r.below(5) { 0 => 1usize << 31, 1 => 1 << 30, 2 => 0x7fff_fff0, 3 => 1 << 29, _ => 1 + r.below(0x7fff_fffe) };
    md.dims.push(Dim { uid: 2, name: "big".into(), unlim: false, size: big.min(0x7fff_ffff) });
    let nv = 2 + r.below(3);
    let at = r.below(nv);
    for i in 0..nv {
        let dims = if i == at { vec![0, 2] } else { match r.below(4) { 0 => vec![1], 1 => vec![0], _ => vec![0, 1] } };
        md.vars.push(Var { name: format!("v{}", i), dims, attrs: vec![], ty: 1 + r.below(6) as u32 });
    }
    let hsize = md.header_size(ver, 0);
    let mut off = md.layout(hsize);
    if ver == 2 && r.chance(1, 2) { let d = [1usize << 31, 1 << 32, (1 << 32) + 8, 3 << 31][r.below(4)]; for o in off.iter_mut() { *o += d } }
    let log = format!("{:?}\nversion {} offsets {:?}\n", md, ver, off);
    if ver == 1 && off.iter().any(|o| *o > 0x7fff_ffff) { return (m, log) }
    use std::os::unix::fs::FileExt;
    let _ = std::fs::remove_file(path);
    let f = std::fs::File::create(path).unwrap();
    f.write_all_at(&md.encode(ver, &off, None), 0).unwrap();
    let rs = md.rec_size();
    let mut vals: Vec<Vec<Data>> = vec![];
    let mut end = 0usize;
    for (k, v) in md.vars.iter().enumerate() {
        let mut l = vec![];
        for i in 0..md.nchunks(v) {
            let p = off[k] + i * rs * (md.is_rec(v) as usize);
            if k != at { let d = rdata(r, v.ty, md.chunk_len(v)); if f.write_all_at(&d.bytes(), p as u64).is_err() { return (m, log) } l.push(d) }
            end = end.max(p + md.chunk_size(v));
        }
        vals.push(l);
    }
    if f.set_len(end as u64).is_err() { return (m, log) }
    let mut g = match catch_unwind(AssertUnwindSafe(|| FileReader::open(path))) { Ok(Ok(g)) => g, x => { m.push(("C15", format!("open: {:?}", x.map(|y| y.err()).ok()))); let _ = std::fs::remove_file(path); return (m, log) } };
    for (k, v) in md.vars.iter().enumerate() {
        if k == at { continue }
        let mut b = vec![];
        for (i, d) in vals[k].iter().enumerate() {
            b.extend(d.bytes());
            match catch_unwind(AssertUnwindSafe(|| crate::writer::read_rec(&mut g, &v.name, i))) { Ok(Ok(ref x)) if x.same(d) => {}, x => m.push(("C17", format!("record {} of {:?}: {:?}, expected {:?}", i, v.name, x.ok(), d))) }
        }
        let want = Data::from_bytes(v.ty, &b);
        match catch_unwind(AssertUnwindSafe(|| g.read_var(&v.name))) { Ok(Ok(ref x)) if dv(x).same(&want) => {}, x => m.push(("C17", format!("variable {:?}: {:?}, expected {:?}", v.name, x.ok(), want))) }
    }
    let _ = std::fs::remove_file(path);
    (m, log)
}
