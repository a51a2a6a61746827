//! Random writer scenarios against the model: header bytes, layout, writes, refusals, close, read-back.
use crate::{cmp::*, gen::*, hist::*, model::*, sys};
use netcdf3::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub fn build(md: &Ds, r: &mut Rng) -> DataSet {
    let mut ds = DataSet::new();
    for d in &md.dims { if d.unlim { ds.set_unlimited_dim(d.name.as_str(), d.size).unwrap() } else { ds.add_fixed_dim(d.name.as_str(), d.size).unwrap() } }
    for a in &md.attrs { let s = r.chance(1, 2); add_global(&mut ds, &a.name, &a.data, s).unwrap() }
    for v in &md.vars {
        let dn: Vec<String> = v.dims.iter().map(|u| md.dim(*u).name.clone()).collect();
        let t = r.chance(1, 2);
        add_var(&mut ds, &v.name, &dn, v.ty, t).unwrap();
        for a in &v.attrs { let k = r.below(4) as u8; add_var_attr(&mut ds, &v.name, &a.name, &a.data, k).unwrap() }
    }
    ds
}
pub fn write_var(w: &mut FileWriter, n: &str, d: &Data) -> Result<(), WriteError> {
    match d { Data::I8(v) => w.write_var_i8(n, v), Data::U8(v) => w.write_var_u8(n, v), Data::I16(v) => w.write_var_i16(n, v),
        Data::I32(v) => w.write_var_i32(n, v), Data::F32(v) => w.write_var_f32(n, v), Data::F64(v) => w.write_var_f64(n, v) }
}
pub fn write_record(w: &mut FileWriter, n: &str, i: usize, d: &Data) -> Result<(), WriteError> {
    match d { Data::I8(v) => w.write_record_i8(n, i, v), Data::U8(v) => w.write_record_u8(n, i, v), Data::I16(v) => w.write_record_i16(n, i, v),
        Data::I32(v) => w.write_record_i32(n, i, v), Data::F32(v) => w.write_record_f32(n, i, v), Data::F64(v) => w.write_record_f64(n, i, v) }
}
fn put(c: &mut Vec<u8>, off: usize, b: &[u8]) { if b.is_empty() { return } if c.len() < off + b.len() { c.resize(off + b.len(), 0) } c[off..off + b.len()].copy_from_slice(b) }
fn padded(d: &Data) -> Vec<u8> { let mut b = d.bytes(); let f = fill(d.ty()); let n = pad4(b.len()); for i in 0..n { b.push(f[i % f.len()]) } b }
fn ver_of(v: u8) -> Version { if v == 1 { Version::Classic } else { Version::Offset64Bit } }
fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = |x: &[u8]| x.iter().skip(k).take(16).map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ");
    format!("lengths {} / expected {}, first difference at byte {}: {} / expected {}", a.len(), b.len(), k, s(a), s(b))
}

pub fn scenario(r: &mut Rng, path: &Path) -> (Mis, String) { let md = rds(r); scenario_of(md, r, path) }
/// variables of many values (block sizes of buffers)
pub fn wide(r: &mut Rng, path: &Path) -> (Mis, String) { let md = rds_wide(r); scenario_of(md, r, path) }
fn rds_wide(r: &mut Rng) -> Ds {
    let mut md = rds(r);
    if md.numrecs().unwrap_or(0) > 8 || md.dims.len() > 30 { return md }
    let base = [1000usize, 1024, 2048, 4096, 8192, 10_000, 16_384, 65_536][r.below(8)];
    let size = (base + r.below(5)).saturating_sub(2) + if r.chance(1, 3) { r.below(base) } else { 0 };
    let uid = md.next; md.next += 1;
    let name = rname(r, 9001);
    if md.dims.iter().any(|d| d.name == name) { return md }
    md.dims.push(Dim { uid, name, unlim: false, size });
    md.vars.truncate(3);
    for i in 0..1 + r.below(2) {
        let name = rname(r, 9002 + i);
        if md.vars.iter().any(|v| v.name == name) { continue }
        let mut dims = vec![uid];
        if let Some(u) = md.unlim() { if r.chance(1, 2) { dims.insert(0, u.uid) } }
        let at = r.below(md.vars.len() + 1);
        md.vars.insert(at, Var { name, dims, attrs: vec![], ty: 1 + r.below(6) as u32 });
    }
    md
}
/// define, write, close, read: only what the library itself reads back is looked at
pub fn roundtrip(r: &mut Rng, path: &Path) -> (Mis, String) {
    let md = if r.chance(1, 15) { rds_wide(r) } else { rds(r) };
    let ver = 1 + r.below(2) as u8;
    let min = match r.below(4) { 0 => r.below(4000), _ => 0 };
    let mut log = format!("{:?}\nversion {} header_min_size {}\n", md, ver, min);
    let ds = build(&md, r);
    let mut values: Vec<Vec<Data>> = md.vars.iter().map(|v| (0..md.nchunks(v)).map(|_| fill_data(v.ty, md.chunk_len(v))).collect()).collect();
    let _ = std::fs::remove_file(path);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<String>, String> {
        let e = |e: WriteError| format!("{:?}", e);
        let mut w = FileWriter::create_new(path).map_err(|e| format!("{:?}", e))?;
        w.set_def(&ds, ver_of(ver), min).map_err(e)?;
        if !md.vars.is_empty() { for _ in 0..r.below(12) {
            let k = r.below(md.vars.len()); let v = &md.vars[k]; let (cl, nc) = (md.chunk_len(v), md.nchunks(v));
            if r.chance(1, 3) {
                let d = rdata(r, v.ty, cl * nc);
                log.push_str(&format!("write_var {:?} {:?}\n", v.name, d));
                for i in 0..nc { values[k][i] = d.slice(i * cl, (i + 1) * cl) }
                write_var(&mut w, &v.name, &d).map_err(e)?;
            } else if nc > 0 {
                let i = r.below(nc); let d = rdata(r, v.ty, cl);
                log.push_str(&format!("write_record {:?} {} {:?}\n", v.name, i, d));
                values[k][i] = d.clone();
                write_record(&mut w, &v.name, i, &d).map_err(e)?;
            }
        } }
        w.close().map_err(e)?;
        Ok(read_back(&md, ver, &values, path, r))
    }));
    let m = match res { Err(_) => vec![("C18", "panicked".to_string())], Ok(Err(e)) => vec![("C18", format!("refused: {}", e))], Ok(Ok(l)) => l.into_iter().map(|t| ("C18", t)).collect() };
    (m, log)
}
fn scenario_of(md: Ds, r: &mut Rng, path: &Path) -> (Mis, String) {
    let mut m: Mis = vec![];
    let ver = 1 + r.below(2) as u8;
    let need = md.header_size(ver, 0);
    let min = match r.below(6) { 0 | 1 => 0, 2 => r.below(need + 20), 3 => need + r.below(9), 4 => need + 100 + r.below(3000), _ => need.saturating_sub(r.below(6)) };
    let ds = build(&md, r);
    let mut log = format!("{:?}\nversion {} header_min_size {}\n", md, ver, min);
    let _ = std::fs::remove_file(path);
    let mut w = match if r.chance(1, 2) { FileWriter::create_new(path) } else { FileWriter::open(path) } { Ok(w) => w, Err(e) => { m.push(("C19", format!("the writer cannot be created: {:?}", e))); return (m, log) } };
    let mut content: Vec<u8> = vec![];          // expected content
    let mut off: Vec<usize> = vec![];           // offsets found in the header
    let mut defined = false;
    let mut written: Vec<BTreeSet<usize>> = md.vars.iter().map(|_| BTreeSet::new()).collect();
    let mut values: Vec<Vec<Data>> = md.vars.iter().map(|v| (0..md.nchunks(v)).map(|_| fill_data(v.ty, md.chunk_len(v))).collect()).collect();
    let recsize = md.rec_size();
    let n = r.below(14) + 1;
    let setat = if r.chance(1, 20) { usize::MAX } else if r.chance(1, 3) { r.below(3) } else { 0 };
    for step in 0..n {
        macro_rules! guard { ($props:expr, $what:expr, $e:expr) => { match catch_unwind(AssertUnwindSafe(|| $e)) { Ok(x) => x, Err(_) => { for p in $props.iter() { m.push((p, format!("{} panicked", $what))) } return (m, log) } } } }
        if w.header_is_defined() != defined || w.data_set().is_some() != defined || w.version() != (if defined { Some(ver_of(ver)) } else { None }) || w.header_min_size() != (if defined { Some(min) } else { None }) {
            m.push(("C12", format!("the writer {} a definition and reports {} {} {:?} {:?}", if defined { "has" } else { "has not" }, w.header_is_defined(), w.data_set().is_some(), w.version(), w.header_min_size()))); return (m, log)
        }
        if step == setat || (defined && r.chance(1, 12)) {
            let second = defined;
            log.push_str("set_def\n");
            let (v2, m2) = if second { (1 + r.below(2) as u8, r.below(5000)) } else { (ver, min) };
            let res = guard!(["C08", "C09", "C12"], "set_def", w.set_def(&ds, ver_of(v2), m2));
            let got = std::fs::read(path).unwrap();
            if second {
                if res != Err(WriteError::HeaderAlreadyDefined) { m.push(("C12", format!("second set_def returned {:?}", res))) }
                if got != content { m.push(("C12", format!("second set_def changed the file: {}", diff(&got, &content)))) }
                if w.version() != Some(ver_of(ver)) || w.header_min_size() != Some(min) { m.push(("C12", "second set_def changed the definition".into())) }
                if !m.is_empty() { return (m, log) }
                continue
            }
            if let Err(e) = res { for p in ["C12", "C08", "C09"].iter() { m.push((p, format!("set_def returned {:?}", e))) } return (m, log) }
            let hsize = md.header_size(ver, min);
            let lay = md.layout(hsize);
            match parse(&got, got.len()) {
                Ok(p) if p.off.len() == lay.len() => {
                    off = p.off.iter().map(|o| *o as usize).collect();
                    if off != lay { m.push(("C09", format!("begin offsets {:?}, expected {:?}", off, lay))) }
                },
                _ => off = lay,
            }
            let mut want = md.encode(ver, &off, None);
            want.resize(hsize, 0);
            if got != want { m.push(("C08", format!("header: {}", diff(&got, &want)))); if got.len() != want.len() { m.push(("C09", format!("the header ends at {}, expected {}", got.len(), want.len()))) } }
            if !m.is_empty() { return (m, log) }
            content = got;
            defined = true;
            continue
        }
        // a write
        let k = if md.vars.is_empty() { 0 } else { r.below(md.vars.len()) };
        let unknown = md.vars.is_empty() || r.chance(1, 25);
        let vname: String = if unknown { let n = if md.vars.is_empty() { "no_such_variable".into() } else { near(r, &md.vars[k].name) }; if md.vars.iter().any(|v| v.name == n) { "no_such_variable".into() } else { n } } else { md.vars[k].name.clone() };
        let (vty, cl, nc) = if unknown { (1 + r.below(6) as u32, 1, 1) } else { let v = &md.vars[k]; (v.ty, md.chunk_len(v), md.nchunks(v)) };
        let ty = if r.chance(1, 15) { 1 + r.below(6) as u32 } else { vty };
        let whole = r.chance(2, 5);
        let mut len = if whole { cl * nc } else { cl };
        if r.chance(1, 12) { len = match r.below(4) { 0 => len + 1, 1 => len.saturating_sub(1), 2 => 0, _ => cl * nc } }
        let idx = match r.below(14) { 0 => nc, 1 => nc + r.below(4), 2 => md.numrecs().unwrap_or(0), 3 if r.chance(1, 4) => usize::MAX, _ => r.below(nc.max(1)) };
        let data = rdata(r, ty, len);
        let mut errs: Vec<WriteError> = vec![];
        if !defined { errs.push(WriteError::HeaderNotDefined) }
        else if unknown { errs.push(WriteError::VariableNotDefined(vname.clone())) }
        else {
            if ty != vty { errs.push(WriteError::VariableMismatchDataType { var_name: vname.clone(), req: ty_to(vty), get: ty_to(ty) }) }
            if whole { if len != cl * nc { errs.push(WriteError::VariableMismatchDataLength { var_name: vname.clone(), req: cl * nc, get: len }) } }
            else {
                if idx >= nc { errs.push(WriteError::RecordIndexExceeded { index: idx, num_records: nc }) }
                if len != cl { errs.push(WriteError::RecordMismatchDataLength { var_name: vname.clone(), req: cl, get: len }) }
            }
        }
        let what = if whole { format!("write_var {:?} with {:?}", vname, data) } else { format!("write_record {:?} {} with {:?}", vname, idx, data) };
        log.push_str(&what); log.push('\n');
        let ps: &[&str] = if errs.is_empty() { &["C10", "C12"] } else { &["C12"] };
        let res = guard!(ps, what, if whole { write_var(&mut w, &vname, &data) } else { write_record(&mut w, &vname, idx, &data) });
        let got = std::fs::read(path).unwrap();
        if errs.is_empty() {
            if res.is_err() { m.push(("C12", format!("valid call {} returned {:?}", what, res))); m.push(("C10", format!("valid call {} returned {:?}", what, res))); return (m, log) }
            let w = size_of(ty);
            let _ = w;
            for i in if whole { 0..nc } else { idx..idx + 1 } {
                let d = if whole { data.slice(i * cl, (i + 1) * cl) } else { data.clone() };
                put(&mut content, off[k] + i * recsize * (md.is_rec(&md.vars[k]) as usize), &padded(&d));
                written[k].insert(i);
                values[k][i] = d;
            }
            if got != content { m.push(("C10", format!("{}: {}", what, diff(&got, &content)))); return (m, log) }
        } else {
            match &res { Err(e) if errs.contains(e) => {}, _ => m.push(("C12", format!("{} returned {:?}, expected one of {:?}", what, res, errs))) }
            if got != content { m.push(("C12", format!("refused call {} changed the file: {}", what, diff(&got, &content)))) }
            if !m.is_empty() { return (m, log) }
        }
    }
    if r.chance(1, 12) { return (m, log) }
    log.push_str("close\n");
    match catch_unwind(AssertUnwindSafe(move || w.close())) {
        Err(_) => { m.push(("C11", "close panicked".into())); return (m, log) },
        Ok(Err(e)) => { m.push(("C11", format!("close returned {:?}", e))); return (m, log) },
        Ok(Ok(())) => {},
    }
    let got = std::fs::read(path).unwrap();
    if !defined { if !got.is_empty() { m.push(("C19", "closing without a definition wrote to the file".into())); m.push(("C11", "closing without a definition wrote to the file".into())) } return (m, log) }
    for (k, v) in md.vars.iter().enumerate() { for i in 0..md.nchunks(v) { if !written[k].contains(&i) {
        put(&mut content, off[k] + i * recsize * (md.is_rec(v) as usize), &padded(&fill_data(v.ty, md.chunk_len(v)))); } } }
    if got != content { m.push(("C11", format!("after close: {}", diff(&got, &content)))); }
    // read back
    let props = ["C18"];
    match catch_unwind(AssertUnwindSafe(|| read_back(&md, ver, &values, path, r))) {
        Ok(l) => for t in l { m.push(("C18", t)) },
        Err(_) => for p in props.iter() { m.push((p, "read back panicked".into())) },
    }
    if std::fs::read(path).unwrap() != got { m.push(("C19", "reading modified the file".into())) }
    (m, log)
}
pub fn read_rec(f: &mut FileReader, v: &str, i: usize) -> Result<Data, ReadError> { f.read_record(v, i).map(|x| dv(&x)) }
fn read_back(md: &Ds, ver: u8, values: &[Vec<Data>], path: &Path, r: &mut Rng) -> Vec<String> {
    let mut l = vec![];
    let mut f = match FileReader::open(path) { Ok(f) => f, Err(e) => return vec![format!("the written file cannot be opened: {:?}", e)] };
    if f.version() != ver_of(ver) { l.push(format!("version {:?}", f.version())) }
    for x in cmp_ds(f.data_set(), md, &["nope"]) { l.push(format!("data set read back: {}", x.1)) }
    if !l.is_empty() { return l }
    for (k, v) in md.vars.iter().enumerate() {
        let mut b = vec![]; for x in &values[k] { b.extend(x.bytes()) }
        let want = Data::from_bytes(v.ty, &b);
        match f.read_var(&v.name) { Ok(x) if dv(&x).same(&want) => {}, x => l.push(format!("variable {:?} read back as {:?}, written {:?}", v.name, x, want)) }
        if !values[k].is_empty() { let i = r.below(values[k].len());
            match read_rec(&mut f, &v.name, i) { Ok(x) if x.same(&values[k][i]) => {}, x => l.push(format!("record {} of {:?} read back as {:?}, written {:?}", i, v.name, x, values[k][i])) } }
    }
    match f.read_all_vars() { Ok(h) => for (k, v) in md.vars.iter().enumerate() {
        let mut b = vec![]; for x in &values[k] { b.extend(x.bytes()) }
        if !h.get(&v.name).map(|x| dv(x).same(&Data::from_bytes(v.ty, &b))).unwrap_or(false) || h.len() != md.vars.len() { l.push(format!("read_all_vars: {:?}", v.name)) } },
        Err(e) => l.push(format!("read_all_vars: {:?}", e)) }
    l
}

/// data sets with large sizes: only the header and single records are written (sparse file)
pub fn large(r: &mut Rng, path: &Path) -> (Mis, String) {
    let mut m: Mis = vec![];
    let ver = if r.chance(2, 3) { 1 } else { 2 };
    let mut md = Ds::default();
    let nd = 1 + r.below(4);
    let unl = if r.chance(1, 2) { r.below(nd) } else { 99 };
    let target: usize = 1 << 31;
    let exact = r.chance(1, 2);
    for i in 0..nd {
        let size = if i == unl { match r.below(6) { 0 => 0x7fff_ffff, 1 => 0x8000_0000, 2 => 0xffff_fffe, 3 => 0x1_0000_0000, _ => r.below(1 << 20) } }
            else if exact { 1 + r.below(5) } else { match r.below(6) { 0 => 0x7fff_fffc, 1 => 0x7fff_fffb - r.below(8), 2 => 1 + r.below(100_000), 3 => 1 << 16, 4 => 1 << (10 + r.below(20)), _ => 1 + r.below(4) } };
        md.dims.push(Dim { uid: i as u64, name: format!("d{}", i), unlim: i == unl, size });
    }
    let nv = 1 + r.below(4);
    for i in 0..nv {
        let mut dims = vec![];
        for j in 0..nd { if j == unl { if r.chance(1, 2) { dims.insert(0, j as u64) } } else if r.chance(1, 2) && dims.len() < 3 { dims.push(j as u64) } }
        md.vars.push(Var { name: format!("v{}", i), dims, attrs: vec![], ty: 1 + r.below(6) as u32 });
    }
    if exact {
        // the first variable ends exactly around 2^31
        let h = 4096;
        let n = target - h - 8 + [0usize, 4, 8, 12][r.below(4)];
        md.dims.push(Dim { uid: nd as u64, name: "big".into(), unlim: false, size: n });
        let at = r.below(nv);
        md.vars.insert(at, Var { name: "vbig".into(), dims: vec![nd as u64], attrs: vec![], ty: 2 });
    }
    let min = if exact { 4096 } else { r.below(300) };
    let log = format!("{:?}\nversion {} header_min_size {}\n", md, ver, min);
    // representable?
    let mut tot: u128 = 0;
    for v in &md.vars { let mut n = size_of(v.ty) as u128; for u in &v.dims { let d = md.dim(*u); if !d.unlim { n = n.saturating_mul(d.size as u128) } }
        tot = tot.saturating_add(n.saturating_add(8).saturating_mul(std::cmp::max(1, md.numrecs().unwrap_or(1)) as u128)) }
    if tot > 1 << 62 { return (m, log) }
    let ds = build(&md, r);
    let hsize = md.header_size(ver, min);
    let lay = md.layout(hsize);
    let _ = std::fs::remove_file(path);
    let mut w = FileWriter::create_new(path).unwrap();
    let refuse = ver == 1 && lay.iter().any(|o| *o > 0x7fff_ffff);
    let res = match catch_unwind(AssertUnwindSafe(|| w.set_def(&ds, ver_of(ver), min))) { Ok(x) => x, Err(_) => { m.push(("C09", "set_def panicked".into())); m.push(("C08", "set_def panicked".into())); return (m, log) } };
    let got = std::fs::read(path).unwrap();
    if refuse {
        if res != Err(WriteError::ClassicVersionNotPossible) { m.push(("C09", format!("set_def returned {:?}; offsets {:?} do not fit", res, lay))) }
        if !got.is_empty() { m.push(("C09", "refused definition wrote to the file".into())) }
        if w.header_is_defined() { m.push(("C09", "refused definition is set".into())) }
        return (m, log)
    }
    if let Err(e) = res { m.push(("C09", format!("set_def returned {:?}; offsets {:?}", e, lay))); return (m, log) }
    let off: Vec<usize> = match parse(&got, got.len()) { Ok(p) => p.off.iter().map(|o| *o as usize).collect(), _ => {
        // the record count may be indeterminate: offsets are compared through the exact bytes below
        lay.clone() } };
    if off != lay { m.push(("C09", format!("begin offsets {:?}, expected {:?}", off, lay))) }
    let mut want = md.encode(ver, &off, None); want.resize(hsize, 0);
    if got != want { m.push(("C08", format!("header: {}", diff(&got, &want)))); if off == lay { m.push(("C09", format!("header: {}", diff(&got, &want)))) } }
    if !m.is_empty() { return (m, log) }
    for (k, v) in md.vars.iter().enumerate() {
        let cl = md.chunk_len(v); let nc = md.nchunks(v);
        if cl > 50_000 || nc == 0 { continue }
        let i = if r.chance(1, 2) { nc - 1 } else { r.below(nc) };
        let pos = lay[k] + i * md.rec_size() * (md.is_rec(v) as usize);
        if pos > 1 << 42 { continue }
        let d = rdata(r, v.ty, cl);
        match catch_unwind(AssertUnwindSafe(|| write_record(&mut w, &v.name, i, &d))) {
            Err(_) => { m.push(("C10", format!("write_record {:?} {} panicked", v.name, i))); return (m, log) },
            Ok(Err(WriteError::IOErrorKind(_))) => continue,
            Ok(Err(e)) => { for p in ["C10", "C12"].iter() { m.push((p, format!("write_record {:?} {} returned {:?}", v.name, i, e))) } return (m, log) },
            Ok(Ok(())) => {},
        }
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::open(path).unwrap();
        let b = padded(&d); let mut g = vec![0; b.len()];
        if f.read_exact_at(&mut g, pos as u64).is_err() || g != b { m.push(("C10", format!("record {} of {:?} is not at byte {}", i, v.name, pos))) }
        let mut g = vec![0; hsize];
        if f.read_exact_at(&mut g, 0).is_err() || g != want { m.push(("C10", format!("write_record {:?} {} changed the header", v.name, i))) }
        if !m.is_empty() { return (m, log) }
        // and read back, when the reader accepts the header as it is (determinate count)
        if md.numrecs().unwrap_or(0) <= 0x7fff_ffff {
            let x = catch_unwind(AssertUnwindSafe(|| FileReader::open(path).and_then(|mut f| read_rec(&mut f, &v.name, i))));
            match x { Ok(Ok(x)) if x.same(&d) => {}, x => { let t = format!("record {} of {:?} at byte {} read back as {:?}", i, v.name, pos, x.map_err(|_| "panic")); for p in ["C18", "C17"].iter() { m.push((p, t.clone())) } return (m, log) } }
        }
    }
    (m, log)
}

pub fn create(r: &mut Rng, path: &Path) -> (Mis, String) {
    let mut m: Mis = vec![];
    let n = r.below(5000);
    let old: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let log = format!("existing file of {} bytes", n);
    let _ = std::fs::remove_file(path);
    std::fs::write(path, &old).unwrap();
    if FileWriter::create_new(path).is_ok() { m.push(("C19", "create_new succeeded on an existing path".into())) }
    if std::fs::read(path).unwrap() != old { m.push(("C19", "create_new changed the existing file".into())) }
    let _ = FileReader::open(path);
    if std::fs::read(path).ok() != Some(old.clone()) { m.push(("C19", "FileReader::open changed the file".into())) }
    if !m.is_empty() { return (m, log) }
    // overwriting starts from an empty file
    let md = rds(r); let ds = build(&md, r);
    { let mut w = match FileWriter::open(path) { Ok(w) => w, Err(e) => { m.push(("C19", format!("open returned {:?}", e))); return (m, log) } };
      if std::fs::metadata(path).unwrap().len() != 0 { m.push(("C19", "FileWriter::open did not truncate".into())) }
      if r.chance(1, 2) {
        let rec = r.chance(1, 2);
        if w.set_def(&ds, Version::Offset64Bit, 0).is_ok() {
            if rec { for v in &md.vars { if md.nchunks(v) > 0 { let _ = write_record(&mut w, &v.name, 0, &rdata(r, v.ty, md.chunk_len(v))); } } }
            let h = md.header_size(2, 0);
            let end: usize = h + md.vars.iter().map(|v| md.chunk_size(v) * md.nchunks(v)).sum::<usize>();
            let _ = w.close();
            if std::fs::metadata(path).unwrap().len() as usize != end { m.push(("C19", format!("the overwritten file has {} bytes, expected {}", std::fs::metadata(path).unwrap().len(), end))) }
        }
      } else { let c = w.close(); if c.is_err() || std::fs::metadata(path).unwrap().len() != 0 { m.push(("C19", format!("close without definition: {:?}, {} bytes", c, std::fs::metadata(path).unwrap().len()))) } } }
    let _ = std::fs::remove_file(path);
    if FileReader::open(path).is_ok() || path.exists() { m.push(("C19", "reading an absent path".into())) }
    match FileWriter::create_new(path) { Ok(w) => { if std::fs::metadata(path).map(|x| x.len()).ok() != Some(0) { m.push(("C19", "create_new did not create an empty file".into())) }
        if w.close().is_err() || std::fs::metadata(path).map(|x| x.len()).ok() != Some(0) { m.push(("C19", "close without definition".into())) } },
        Err(e) => m.push(("C19", format!("create_new on an absent path returned {:?}", e))) }
    let _ = std::fs::remove_file(path);
    match FileWriter::open(path) { Ok(w) => { drop(w); if std::fs::metadata(path).map(|x| x.len()).ok() != Some(0) { m.push(("C19", "open did not create an empty file".into())) } }, Err(e) => m.push(("C19", format!("open on an absent path returned {:?}", e))) }
    (m, log)
}

// ------------------------------------------------------------------ C13
/// the filling at close of a file of more than 4 GiB: the writes go to a virtual file which compares and drops them
pub fn vfill(r: &mut Rng, path: &Path) -> (Mis, String) {
    let mut m: Mis = vec![];
    let mut md = Ds::default();
    let nrec = 3usize;
    let big = 190_000_000 + r.below(1000);
    md.dims.push(Dim { uid: 0, name: "t".into(), unlim: true, size: nrec });
    md.dims.push(Dim { uid: 1, name: "x".into(), unlim: false, size: big });
    md.dims.push(Dim { uid: 2, name: "y".into(), unlim: false, size: 3 });
    md.vars.push(Var { name: "small".into(), dims: vec![0, 2], attrs: vec![], ty: 3 });
    md.vars.push(Var { name: "big".into(), dims: vec![0, 1], attrs: vec![], ty: 6 });
    md.vars.push(Var { name: "last".into(), dims: vec![0], attrs: vec![], ty: 1 });
    md.vars.push(Var { name: "fixed".into(), dims: vec![2], attrs: vec![], ty: 4 });
    let log = format!("{:?}\nversion 2, nothing written, closed\n", md);
    let ds = build(&md, r);
    let lay = md.layout(md.header_size(2, 0));
    let rs = md.rec_size() as u64;
    let pats: Vec<Vec<u8>> = vec![(-32767i16).to_be_bytes().to_vec(), 9.969_209_968_386_869e36_f64.to_be_bytes().to_vec(), (-127i8).to_be_bytes().to_vec(), (-2147483647i32).to_be_bytes().to_vec()];
    let lens: Vec<u64> = vec![8, big as u64 * 8, 4, 12];
    let _ = std::fs::remove_file(path);
    let mut w = FileWriter::create_new(path).unwrap();
    if let Err(e) = w.set_def(&ds, Version::Offset64Bit, 0) { m.push(("C11", format!("set_def returned {:?}", e))); return (m, log) }
    let regs: Vec<sys::Region> = (0..4).map(|k| sys::Region { begin: lay[k] as u64, stride: if k == 3 { 1 << 40 } else { rs }, n: if k == 3 { 1 } else { nrec as u64 }, len: lens[k], pat: pats[k].clone() }).collect();
    let mut want: Vec<(u64, u64)> = regs.iter().flat_map(|x| (0..x.n).map(move |i| (x.begin + i * x.stride, x.begin + i * x.stride + x.len))).collect();
    want.sort();
    sys::virt_start(regs);
    let x = catch_unwind(AssertUnwindSafe(move || w.close()));
    let mut v = sys::virt_stop();
    match x { Ok(Ok(())) => {}, Ok(Err(e)) => { m.push(("C11", format!("close returned {:?}", e))); return (m, log) }, Err(_) => { m.push(("C11", "close panicked".into())); return (m, log) } }
    if let Some(b) = v.bad { m.push(("C11", b)); return (m, log) }
    v.runs.sort();
    let merge = |l: &Vec<(u64, u64)>| { let mut o: Vec<(u64, u64)> = vec![]; for x in l { match o.last_mut() { Some(y) if x.0 <= y.1 => y.1 = y.1.max(x.1), _ => o.push(*x) } } o };
    if merge(&v.runs) != merge(&want) { m.push(("C11", format!("the byte ranges filled are {:?}, not {:?}", merge(&v.runs), merge(&want)))) }
    (m, log)
}
pub fn faults(r: &mut Rng, path: &Path) -> (Mis, String) {
    let mut m: Mis = vec![];
    let mut md = rds(r);
    // keep the number of system calls moderate
    for a in md.attrs.iter_mut() { if a.data.len() > 8 { a.data = a.data.slice(0, 8) } }
    let ver = 1 + r.below(2) as u8;
    let ds = build(&md, r);
    // operations: 0 set_def, then some writes, then close
    let mut ops: Vec<(usize, Option<usize>, Data)> = vec![];
    for _ in 0..r.below(4) { if md.vars.is_empty() { break } let k = r.below(md.vars.len()); let v = &md.vars[k];
        if r.chance(1, 2) { ops.push((k, None, rdata(r, v.ty, md.len(v)))) } else if md.nchunks(v) > 0 { ops.push((k, Some(r.below(md.nchunks(v))), rdata(r, v.ty, md.chunk_len(v)))) } }
    let nops = ops.len() + 2;
    let min = r.below(40);
    let log0 = format!("{:?}\nversion {}\n{:?}\n", md, ver, ops);
    // Some((operation, call, kind)): the fault; returns the result of the faulted operation and the contents after it
    let run = |fault: Option<(usize, u64, u64)>, stop: usize| -> Result<(Result<(), WriteError>, Vec<u8>, u64), ()> {
        let _ = std::fs::remove_file(path);
        let mut w = Some(FileWriter::create_new(path).unwrap());
        let mut res = Ok(()); let mut cnt = 0;
        for j in 0..=stop {
            if j == stop { match fault { Some((_, at, kind)) => sys::arm(at, kind), None => sys::arm(u64::MAX, 0) } }
            let x = catch_unwind(AssertUnwindSafe(|| if j == 0 { w.as_mut().unwrap().set_def(&ds, ver_of(ver), min) } else if j == nops - 1 { w.take().unwrap().close() } else {
                let (k, i, d) = &ops[j - 1];
                match i { None => write_var(w.as_mut().unwrap(), &md.vars[*k].name, d), Some(i) => write_record(w.as_mut().unwrap(), &md.vars[*k].name, *i, d) } }));
            if j == stop { cnt = sys::disarm().0 }
            match x { Ok(x) => res = x, Err(_) => return Err(()) }
            if j < stop && res.is_err() { return Err(()) }
        }
        drop(w);
        Ok((res, std::fs::read(path).unwrap(), cnt))
    };
    for j in 0..nops {
        let (res, clean, cnt) = match run(None, j) { Ok(x) => x, Err(()) => return (m, log0) };
        if res.is_err() { return (m, log0) }
        for at in 0..cnt {
            if cnt > 24 && at > 8 && at + 6 < cnt && !r.chance(1, 8) { continue }
            for kind in [1u64, 2, 3, 4, 17, 18].iter() {
                if *kind != 2 && *kind != 1 && !r.chance(1, 3) { continue }
                match run(Some((j, at, *kind)), j) {
                    Err(()) => m.push(("C13", format!("operation {} panicked with fault kind {} at call {}", j, kind, at))),
                    Ok((Ok(()), c, _)) if c != clean => m.push(("C13", format!("operation {} of {} (0 = set_def, last = close) reported success although system call {} {}: {}", j, nops, at,
                        match kind & 15 { 1 => "failed (ENOSPC)", 2 => "transferred only a part", 3 => "was interrupted", _ => "transferred nothing" }, diff(&c, &clean)))),
                    _ => {},
                }
                if !m.is_empty() { return (m, log0) }
            }
        }
    }
    // ---- reading
    let bytes = { match run(None, nops - 1) { Ok(x) => x.1, _ => return (m, log0) } };
    std::fs::write(path, &bytes).unwrap();
    let rd = |fault: Option<(u64, u64)>| -> (Vec<String>, u64, bool) {
        match fault { Some((a, k)) => sys::arm(a, k), None => sys::arm(u64::MAX, 0) }
        let mut out = vec![]; let mut bad = false;
        let f = catch_unwind(AssertUnwindSafe(|| FileReader::open(path)));
        match f { Err(_) => bad = true, Ok(Err(_)) => out.push("E".to_string()), Ok(Ok(mut f)) => {
            out.push(format!("{:?} {:?}", f.data_set(), f.version()));
            for v in &md.vars { let x = catch_unwind(AssertUnwindSafe(|| f.read_var(&v.name))); match x { Err(_) => bad = true, Ok(Err(_)) => out.push("E".into()), Ok(Ok(d)) => out.push(format!("{} {:?}", v.ty, dv(&d).bytes())) }
                for i in 0..md.nchunks(v).min(2) { let x = catch_unwind(AssertUnwindSafe(|| f.read_record(&v.name, i))); match x { Err(_) => bad = true, Ok(Err(_)) => out.push("E".into()), Ok(Ok(d)) => out.push(format!("{} {:?}", v.ty, dv(&d).bytes())) } } }
        } }
        (out, sys::disarm().0, bad)
    };
    let (clean, cnt, _) = rd(None);
    for at in 0..cnt { if cnt > 40 && !r.chance(40, cnt as usize) { continue } for kind in [1u64, 2, 3, 4, 17, 18].iter() {
        let (o, _, bad) = rd(Some((at, *kind)));
        if bad { m.push(("C13", format!("reading panicked with fault kind {} at system call {}", kind, at))) }
        for (i, x) in o.iter().enumerate() { if x != "E" && clean.get(i) != Some(x) { m.push(("C13", format!("read operation {} succeeded with another result when system call {} got fault kind {}: {} / {:?}", i, at, kind, x, clean.get(i)))) } if x == "E" && i == 0 { break } }
        if !m.is_empty() { return (m, log0) }
    } }
    (m, log0)
}
