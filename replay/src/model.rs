//! Independent executable model: what the NetCDF-3 format and the documented API require.
//! Nothing here calls the crate under test.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Data { I8(Vec<i8>), U8(Vec<u8>), I16(Vec<i16>), I32(Vec<i32>), F32(Vec<f32>), F64(Vec<f64>) }
impl Data {
    pub fn ty(&self) -> u32 { match self { Data::I8(_) => 1, Data::U8(_) => 2, Data::I16(_) => 3, Data::I32(_) => 4, Data::F32(_) => 5, Data::F64(_) => 6 } }
    pub fn len(&self) -> usize { match self { Data::I8(v) => v.len(), Data::U8(v) => v.len(), Data::I16(v) => v.len(), Data::I32(v) => v.len(), Data::F32(v) => v.len(), Data::F64(v) => v.len() } }
    /// big-endian bytes, no padding
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            Data::I8(v) => for x in v { o.push(*x as u8) },
            Data::U8(v) => o.extend_from_slice(v),
            Data::I16(v) => for x in v { o.push((*x as u16 >> 8) as u8); o.push(*x as u16 as u8) },
            Data::I32(v) => for x in v { push_be(&mut o, *x as u32 as u64, 4) },
            Data::F32(v) => for x in v { push_be(&mut o, x.to_bits() as u64, 4) },
            Data::F64(v) => for x in v { push_be(&mut o, x.to_bits(), 8) },
        }
        o
    }
    pub fn from_bytes(ty: u32, b: &[u8]) -> Data {
        let w = size_of(ty);
        let n = b.len() / w;
        let g = |i: usize| -> u64 { b[i * w..(i + 1) * w].iter().fold(0u64, |a, x| (a << 8) | *x as u64) };
        match ty {
            1 => Data::I8((0..n).map(|i| g(i) as u8 as i8).collect()),
            2 => Data::U8((0..n).map(|i| g(i) as u8).collect()),
            3 => Data::I16((0..n).map(|i| g(i) as u16 as i16).collect()),
            4 => Data::I32((0..n).map(|i| g(i) as u32 as i32).collect()),
            5 => Data::F32((0..n).map(|i| f32::from_bits(g(i) as u32)).collect()),
            6 => Data::F64((0..n).map(|i| f64::from_bits(g(i))).collect()),
            _ => unreachable!(),
        }
    }
    pub fn same(&self, o: &Data) -> bool { self.ty() == o.ty() && self.bytes() == o.bytes() }
    pub fn slice(&self, a: usize, b: usize) -> Data { let w = size_of(self.ty()); Data::from_bytes(self.ty(), &self.bytes()[a * w..b * w]) }
}
pub fn push_be(o: &mut Vec<u8>, v: u64, n: usize) { for i in (0..n).rev() { o.push((v >> (8 * i)) as u8) } }
pub fn size_of(ty: u32) -> usize { [0, 1, 1, 2, 4, 4, 8][ty as usize] }
pub fn pad4(n: usize) -> usize { (4 - n % 4) % 4 }
/// one fill value, big-endian
pub fn fill(ty: u32) -> Vec<u8> {
    match ty { 1 => vec![0x81], 2 => vec![0], 3 => vec![0x80, 0x01], 4 => vec![0x80, 0, 0, 1],
        5 => vec![0x7c, 0xf0, 0, 0], 6 => vec![0x47, 0x9e, 0, 0, 0, 0, 0, 0], _ => unreachable!() }
}
pub fn fill_data(ty: u32, n: usize) -> Data { let mut b = vec![]; for _ in 0..n { b.extend(fill(ty)) } Data::from_bytes(ty, &b) }

#[derive(Clone, Debug)]
pub struct Attr { pub name: String, pub data: Data }
#[derive(Clone, Debug)]
pub struct Dim { pub uid: u64, pub name: String, pub unlim: bool, pub size: usize }
#[derive(Clone, Debug)]
pub struct Var { pub name: String, pub dims: Vec<u64>, pub attrs: Vec<Attr>, pub ty: u32 }
#[derive(Clone, Debug, Default)]
pub struct Ds { pub dims: Vec<Dim>, pub attrs: Vec<Attr>, pub vars: Vec<Var>, pub next: u64 }

pub fn valid_name(s: &str) -> bool {
    if s.is_empty() || s.len() > 256 { return false }
    for (i, c) in s.chars().enumerate() {
        if (c as u32) >= 128 { continue }
        let alnum = ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z');
        if alnum || c == '_' { continue }
        if i == 0 { return false }
        if !".@+- !\"#$%&'()*,:;<=>?[\\]^`{|}~".contains(c) { return false }
    }
    true
}

impl Ds {
    pub fn dim(&self, uid: u64) -> &Dim { self.dims.iter().find(|d| d.uid == uid).unwrap() }
    pub fn unlim(&self) -> Option<&Dim> { self.dims.iter().find(|d| d.unlim) }
    pub fn numrecs(&self) -> Option<usize> { self.unlim().map(|d| d.size) }
    pub fn is_rec(&self, v: &Var) -> bool { !v.dims.is_empty() && self.dim(v.dims[0]).unlim }
    pub fn chunk_len(&self, v: &Var) -> usize { v.dims.iter().map(|u| self.dim(*u)).filter(|d| !d.unlim).map(|d| d.size).product() }
    pub fn chunk_size(&self, v: &Var) -> usize { let n = self.chunk_len(v) * size_of(v.ty); n + pad4(n) }
    pub fn nchunks(&self, v: &Var) -> usize { if self.is_rec(v) { self.numrecs().unwrap() } else { 1 } }
    pub fn len(&self, v: &Var) -> usize { self.nchunks(v) * self.chunk_len(v) }
    pub fn rec_size(&self) -> usize { self.vars.iter().filter(|v| self.is_rec(v)).map(|v| self.chunk_size(v)).sum() }
    pub fn var(&self, n: &str) -> Option<usize> { self.vars.iter().position(|v| v.name == n) }
    pub fn dimx(&self, n: &str) -> Option<usize> { self.dims.iter().position(|d| d.name == n) }

    /// (begin offsets, end of the fixed part and of the first record) for a header of `hsize` bytes
    pub fn layout(&self, hsize: usize) -> Vec<usize> {
        let mut off = vec![0; self.vars.len()];
        let mut p = hsize;
        for rec in [false, true].iter() {
            for (i, v) in self.vars.iter().enumerate() {
                if self.is_rec(v) == *rec { off[i] = p; p += self.chunk_size(v); }
            }
        }
        off
    }
    pub fn header_size(&self, ver: u8, min: usize) -> usize {
        let n = self.encode(ver, &vec![0; self.vars.len()], None).len();
        let n = std::cmp::max(n, min);
        n + pad4(n)
    }
    /// unpadded header
    pub fn encode(&self, ver: u8, off: &[usize], numrecs_field: Option<u32>) -> Vec<u8> {
        let mut o = b"CDF".to_vec();
        o.push(ver);
        let n = self.numrecs().unwrap_or(0);
        push_be(&mut o, numrecs_field.unwrap_or(if n > 0x7fff_ffff { 0xffff_ffff } else { n as u32 }) as u64, 4);
        tag(&mut o, 10, self.dims.len());
        for d in &self.dims { name(&mut o, &d.name); push_be(&mut o, if d.unlim { 0 } else { d.size as u64 }, 4); }
        attrs(&mut o, &self.attrs);
        tag(&mut o, 11, self.vars.len());
        for (i, v) in self.vars.iter().enumerate() {
            name(&mut o, &v.name);
            push_be(&mut o, v.dims.len() as u64, 4);
            for u in &v.dims { push_be(&mut o, self.dims.iter().position(|d| d.uid == *u).unwrap() as u64, 4); }
            attrs(&mut o, &v.attrs);
            push_be(&mut o, v.ty as u64, 4);
            let cs = self.chunk_size(v);
            push_be(&mut o, if cs > 0x7fff_ffff { 0xffff_ffff } else { cs as u64 }, 4);
            push_be(&mut o, off[i] as u64, if ver == 1 { 4 } else { 8 });
        }
        o
    }
}
fn tag(o: &mut Vec<u8>, t: u64, n: usize) { push_be(o, if n == 0 { 0 } else { t }, 4); push_be(o, n as u64, 4) }
fn name(o: &mut Vec<u8>, s: &str) { push_be(o, s.len() as u64, 4); o.extend_from_slice(s.as_bytes()); o.extend(vec![0; pad4(s.len())]) }
fn attrs(o: &mut Vec<u8>, l: &[Attr]) {
    tag(o, 12, l.len());
    for a in l { name(o, &a.name); push_be(o, a.data.ty() as u64, 4); push_be(o, a.data.len() as u64, 4);
        let b = a.data.bytes(); o.extend_from_slice(&b); o.extend(vec![0; pad4(b.len())]); }
}

// ------------------------------------------------------------------ reference parser
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum PErr { Incomplete, Invalid(&'static str) }
pub struct Parsed { pub ds: Ds, pub ver: u8, pub off: Vec<u64>, pub end: usize, pub indeterminate: bool }
struct Cur<'a> { b: &'a [u8], p: usize }
type PR<T> = Result<T, PErr>;
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> PR<&'a [u8]> { if self.b.len() - self.p < n { return Err(PErr::Incomplete) } let r = &self.b[self.p..self.p + n]; self.p += n; Ok(r) }
    fn u32(&mut self) -> PR<u32> { Ok(self.take(4)?.iter().fold(0u32, |a, x| (a << 8) | *x as u32)) }
    fn nonneg(&mut self) -> PR<usize> { let v = self.u32()?; if v > 0x7fff_ffff { Err(PErr::Invalid("negative")) } else { Ok(v as usize) } }
    fn zeros(&mut self, n: usize) -> PR<()> { if self.take(n)?.iter().all(|x| *x == 0) { Ok(()) } else { Err(PErr::Invalid("padding")) } }
    fn name(&mut self) -> PR<String> {
        let n = self.nonneg()?;
        let b = self.take(n)?.to_vec();
        let s = String::from_utf8(b).map_err(|_| PErr::Invalid("utf8"))?;
        self.zeros(pad4(n))?;
        Ok(s)
    }
    /// ABSENT (eight zero bytes) or the tag and a count; None for absent
    fn list(&mut self, t: u8) -> PR<usize> {
        let rest = &self.b[self.p..];
        let absent = [0u8; 8]; let tg = [0, 0, 0, t];
        let k = rest.len().min(8);
        if rest[..k] == absent[..k] { if k < 8 { return Err(PErr::Incomplete) } self.p += 8; return Ok(0) }
        let k = rest.len().min(4);
        if rest[..k] == tg[..k] { if k < 4 { return Err(PErr::Incomplete) } self.p += 4; return self.nonneg() }
        Err(PErr::Invalid("tag"))
    }
    fn ty(&mut self) -> PR<u32> { let t = self.nonneg()?; if t >= 1 && t <= 6 { Ok(t as u32) } else { Err(PErr::Invalid("type")) } }
    fn attrs(&mut self) -> PR<Vec<Attr>> {
        let n = self.list(12)?;
        let mut l = vec![];
        for _ in 0..n {
            let nm = self.name()?; let t = self.ty()?; let k = self.nonneg()?;
            let b = self.take(k * size_of(t))?; let d = Data::from_bytes(t, b);
            self.zeros(pad4(b.len()))?;
            l.push(Attr { name: nm, data: d });
        }
        Ok(l)
    }
}
/// `total`: size of the file (used for an indeterminate number of records)
pub fn parse(b: &[u8], total: usize) -> PR<Parsed> {
    let mut c = Cur { b, p: 0 };
    let m = b"CDF"; let k = b.len().min(3);
    if b[..k] != m[..k] { return Err(PErr::Invalid("magic")) }
    if k < 3 { return Err(PErr::Incomplete) }
    c.p = 3;
    let ver = c.take(1)?[0];
    if ver != 1 && ver != 2 { return Err(PErr::Invalid("version")) }
    let nr = c.u32()?;
    if nr > 0x7fff_ffff && nr != 0xffff_ffff { return Err(PErr::Invalid("numrecs")) }
    let mut rawdims = vec![];
    for _ in 0..c.list(10)? { let n = c.name()?; let s = c.nonneg()?; rawdims.push((n, s)); }
    let gattrs = c.attrs()?;
    let mut rawvars = vec![];
    for _ in 0..c.list(11)? {
        let n = c.name()?;
        let nd = c.nonneg()?;
        let mut ids = vec![];
        for _ in 0..nd { ids.push(c.nonneg()?) }
        let at = c.attrs()?;
        let t = c.ty()?;
        let vs = c.u32()?;
        if vs > 0x7fff_ffff && vs != 0xffff_ffff { return Err(PErr::Invalid("vsize")) }
        let off = if ver == 1 { c.nonneg()? as u64 } else {
            let o = c.take(8)?.iter().fold(0u64, |a, x| (a << 8) | *x as u64);
            if o >> 63 != 0 { return Err(PErr::Invalid("offset")) } o };
        rawvars.push((n, ids, at, t, off));
    }
    // meaning
    let bad = |s| Err(PErr::Invalid(s));
    let mut ds = Ds::default();
    for (i, (n, s)) in rawdims.iter().enumerate() {
        if !valid_name(n) { return bad("dim name") }
        if ds.dimx(n).is_some() { return bad("dup dim") }
        if *s == 0 && ds.unlim().is_some() { return bad("two unlimited") }
        if *s > 0x7fff_fffc { return bad("dim size") }
        ds.dims.push(Dim { uid: i as u64, name: n.clone(), unlim: *s == 0, size: if *s == 0 { if nr == 0xffff_ffff { 0 } else { nr as usize } } else { *s } });
    }
    fn check_attrs(l: &[Attr]) -> PR<()> {
        for (i, a) in l.iter().enumerate() {
            if !valid_name(&a.name) { return Err(PErr::Invalid("attr name")) }
            if l[..i].iter().any(|b| b.name == a.name) { return Err(PErr::Invalid("dup attr")) }
        }
        Ok(())
    }
    check_attrs(&gattrs)?;
    ds.attrs = gattrs;
    let mut off = vec![];
    for (n, ids, at, t, o) in rawvars {
        if !valid_name(&n) { return bad("var name") }
        if ds.var(&n).is_some() { return bad("dup var") }
        if ids.len() > 1024 { return bad("too many dims") }
        let mut seen = BTreeMap::new();
        for (k, i) in ids.iter().enumerate() {
            if *i >= ds.dims.len() { return bad("dim id") }
            if seen.insert(*i, ()).is_some() { return bad("repeated dim") }
            if k > 0 && ds.dims[*i].unlim { return bad("unlimited not first") }
        }
        check_attrs(&at)?;
        ds.vars.push(Var { name: n, dims: ids.iter().map(|i| *i as u64).collect(), attrs: at, ty: t });
        off.push(o);
    }
    // sizes must be representable (63 bits)
    let lim: u128 = 1 << 63;
    let mut rs: u128 = 0;
    for v in &ds.vars {
        let mut n: u128 = size_of(v.ty) as u128;
        for u in &v.dims { let d = ds.dim(*u); if !d.unlim { n = n.saturating_mul(d.size as u128) } if n >= lim { return bad("overflow") } }
        if n + 3 >= lim { return bad("overflow") }
        if ds.is_rec(v) { rs += n + pad4((n % 4) as usize) as u128 }
    }
    if rs * std::cmp::max(1, ds.numrecs().unwrap_or(0)) as u128 >= lim { return bad("overflow") }
    if nr == 0xffff_ffff {
        if let Some(k) = ds.dims.iter().position(|d| d.unlim) {
            let firsts: Vec<u64> = (0..ds.vars.len()).filter(|i| ds.is_rec(&ds.vars[*i])).map(|i| off[i]).collect();
            if !firsts.is_empty() {
                let first = *firsts.iter().min().unwrap();
                if first > total as u64 { return bad("first record") }
                let n = total as u64 - first;
                if rs == 0 || n as u128 % rs != 0 { return bad("remainder") }
                ds.dims[k].size = (n as u128 / rs) as usize;
            }
        }
    }
    ds.next = ds.dims.len() as u64;
    Ok(Parsed { ds, ver, off, end: c.p, indeterminate: nr == 0xffff_ffff })
}
