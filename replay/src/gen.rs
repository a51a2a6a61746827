use crate::model::*;
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng { let mut r = Rng(a ^ b.wrapping_mul(0x9E3779B97F4A7C15) ^ c.wrapping_mul(0xD1B54A32D192ED03)); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T { &l[self.below(l.len())] }
}
pub const NAMES: [&str; 12] = ["a", "b", "c", "ab", "a_b", "lat", "longitude", "t", "été", "_x1", "0", "日本"];
pub const BAD: [&str; 8] = ["", "!x", " a", "a/b", "-q", "x\u{7f}", "a\nb", "~"];

pub fn rname(r: &mut Rng, uniq: usize) -> String {
    match r.below(10) {
        0 => format!("v{}_{}", uniq, "x".repeat(r.below(250))),
        1 => { let mut s = format!("{}", uniq); while s.len() < 256 { s.push('y') } s },
        2 => format!("é{}·{}", uniq, "ü".repeat(r.below(4))),
        3 => format!("{}", uniq),
        4 => format!("_{} +$\"#", uniq),
        _ => format!("n{}{}", uniq, "abc".chars().take(r.below(4)).collect::<String>()),
    }
}
/// a name close to another one: other letter case, a prefix, an extension, one character changed
pub fn near(r: &mut Rng, n: &str) -> String {
    let c: Vec<char> = n.chars().collect();
    match r.below(7) {
        0 => c.iter().map(|x| if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() }).collect(),
        1 => format!("{}x", n),
        2 => c[..c.len() - 1].iter().collect(),
        3 => { let mut d = c.clone(); d.reverse(); d.into_iter().collect() },
        4 => format!("{}_", n),
        5 => { let mut d = c.clone(); let k = d.len() - 1; d[k] = 'q'; d.into_iter().collect() },
        _ => { let mut d = c.clone(); if d[0] != '/' { d[0] = 'Z' } d.into_iter().collect() },
    }
}
pub fn name_ok(n: &str) -> bool { !n.is_empty() && n.len() <= 256 && !n.ends_with(' ') && n.chars().next().map(|c| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii()).unwrap_or(false) }
fn nearby(r: &mut Rng, names: &mut Vec<String>) {
    for i in 1..names.len() { if r.chance(1, 4) { let j = r.below(i); let n = near(r, &names[j]); if name_ok(&n) && !names.contains(&n) { names[i] = n } } }
}
pub fn rdata(r: &mut Rng, ty: u32, n: usize) -> Data {
    let w = size_of(ty);
    let mut b = vec![0u8; n * w];
    let mode = r.below(4);
    for k in 0..n {
        let v: u64 = match mode { 0 => r.next(), 1 => (k as u64) + 1, _ => match r.below(8) {
            0 => 0, 1 => u64::MAX, 2 => 0x8000_0000_0000_0000 >> (64 - 8 * w), 3 => 0x7ff8_0000_0000_0001 >> (64 - 8 * w as u32), 4 => fill(ty).iter().fold(0, |a, x| (a << 8) | *x as u64), 5 => 0x7fc0_0001, 6 => 0x80, _ => r.next() } };
        for j in 0..w { b[k * w + j] = (v >> (8 * (w - 1 - j))) as u8 }
    }
    Data::from_bytes(ty, &b)
}
pub fn rlen(r: &mut Rng) -> usize { match r.below(12) { 0 => 0, 1..=7 => r.below(10), 8 | 9 => r.below(40), 10 => r.below(300), _ => r.below(1500) } }
fn rattrs(r: &mut Rng, big: bool) -> Vec<Attr> {
    let n = match r.below(20) { 0..=7 => 0, 8..=11 => 1, 12..=15 => 2, 16 => r.below(20), _ => r.below(6) };
    let mut l: Vec<Attr> = (0..n).map(|i| { let ty = 1 + r.below(6) as u32; let l = if big { if r.chance(1, 150) { 8000 + r.below(70_000) } else { rlen(r) } } else { r.below(6) }; let mut data = rdata(r, ty, l);
        if ty == 2 && r.chance(1, 2) { data = Data::U8("text é".bytes().take(l).collect()) }
        Attr { name: rname(r, i), data } }).collect();
    let mut names: Vec<String> = l.iter().map(|a| a.name.clone()).collect();
    nearby(r, &mut names);
    for (a, n) in l.iter_mut().zip(names) { a.name = n }
    l
}
/// a small well-formed data set
pub fn rds(r: &mut Rng) -> Ds {
    let mut ds = Ds::default();
    let nd = if r.chance(1, 60) { r.below(40) } else { r.below(6) };
    let unl = if r.chance(2, 3) { r.below(nd.max(1)) } else { usize::MAX };
    for i in 0..nd {
        let unlim = i == unl;
        let size = if unlim { match r.below(40) { 0..=5 => 0, 6 => 250 + r.below(20), _ => r.below(6) } } else { 1 + match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.below(9), _ => r.below(5) } };
        let name = rname(r, i);
        ds.dims.push(Dim { uid: i as u64, name, unlim, size });
    }
    ds.next = nd as u64;
    ds.attrs = rattrs(r, true);
    let mut names: Vec<String> = ds.dims.iter().map(|d| d.name.clone()).collect();
    nearby(r, &mut names);
    for (d, n) in ds.dims.iter_mut().zip(names) { d.name = n }
    let nv = match r.below(60) { 0..=6 => 0, 7..=13 => 1, 14 => 8 + r.below(30), _ => 1 + r.below(7) };
    for i in 0..nv {
        let mut d: Vec<u64> = vec![];
        let k = r.below(4).min(nd);
        let mut cand: Vec<u64> = ds.dims.iter().filter(|d| !d.unlim).map(|d| d.uid).collect();
        if let Some(u) = ds.unlim() { if r.chance(1, 2) { d.push(u.uid) } }
        while d.len() < k && !cand.is_empty() { let j = r.below(cand.len()); d.push(cand.remove(j)); }
        // as in practice, a variable often has the name of a dimension
        let mut name = if nd > 0 && r.chance(1, 4) { ds.dims[r.below(nd)].name.clone() } else { rname(r, i) };
        if ds.vars.iter().any(|v| v.name == name) { name = rname(r, i) }
        if ds.vars.iter().any(|v| v.name == name) { continue }
        let attrs = rattrs(r, false);
        ds.vars.push(Var { name, dims: d, attrs, ty: 1 + r.below(6) as u32 });
    }
    let mut names: Vec<String> = ds.vars.iter().map(|v| v.name.clone()).collect();
    nearby(r, &mut names);
    for (v, n) in ds.vars.iter_mut().zip(names) { v.name = n }
    ds
}
