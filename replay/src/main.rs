//! netcdf3-replay PROP --seed N --secs S --scratch DIR --out FILE [--worker i --workers n] [--case MODE:INDEX] [--max N]
//! Runs the real code against the independent model. Exit 0: no mismatch for PROP; 1: mismatch (written to FILE);
//! 2: usage or internal error. PROP = ALL reports any property.
mod model; mod cmp; mod sys; mod gen; mod hist; mod writer; mod reader;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn modes(p: &str) -> Vec<(&'static str, usize)> {
    match p {
        "C01" => vec![("names", 4), ("history", 2), ("file", 2)],
        "C02" | "C04" | "C05" => vec![("history", 6), ("file", 2)],
        "C03" => vec![("history", 12), ("manydims", 1), ("file", 4)],
        "C06" => vec![("typed", 4), ("history", 2)],
        "C07" => vec![("history", 4), ("file", 3), ("manydims", 1)],
        "C08" => vec![("scenario", 5), ("large", 1), ("wide", 1)],
        "C09" => vec![("scenario", 2), ("large", 3)],
        "C10" => vec![("scenario", 6), ("large", 1), ("wide", 1)],
        "C11" | "C12" => vec![("scenario", 5), ("wide", 1)],
        "C13" => vec![("faults", 1)],
        "C14" => vec![("file", 3), ("soup", 2), ("hostile", 3)],
        "C15" => vec![("file", 6), ("soup", 1), ("hostile", 1)],
        "C16" => vec![("file", 3), ("hostile", 1)],
        "C17" => vec![("file", 6), ("large", 1), ("far", 1)],
        "C18" => vec![("scenario", 3), ("roundtrip", 4), ("large", 1)],
        "C19" => vec![("create", 3), ("scenario", 1)],
        "ALL" => vec![("names", 2), ("history", 4), ("typed", 1), ("scenario", 4), ("large", 2), ("wide", 1), ("roundtrip", 1), ("far", 1), ("create", 1), ("file", 4), ("soup", 1), ("hostile", 2)],
        _ => vec![],
    }
}
fn run(mode: &str, seed: u64, idx: u64, dir: &Path) -> (cmp::Mis, String) {
    let tag = mode.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut r = gen::Rng::new(seed, idx.wrapping_mul(64).wrapping_add(1), tag);
    let p = dir.join("f.nc");
    match mode {
        "names" => if idx == 0 { let (m, n) = hist::names_exhaustive(); (m, format!("{} one- and two-character names", n)) } else { hist::names_random(&mut r) },
        "history" => hist::history(&mut r),
        "manydims" => hist::many_dims(&mut r),
        "typed" => hist::typed(&mut r),
        "scenario" => writer::scenario(&mut r, &p),
        "wide" => writer::wide(&mut r, &p),
        "roundtrip" => writer::roundtrip(&mut r, &p),
        "far" => reader::far(&mut r, &p),
        "large" => writer::large(&mut r, &p),
        "create" => writer::create(&mut r, &p),
        "vfill" => writer::vfill(&mut r, &p),
        "faults" => writer::faults(&mut r, &p),
        "file" | "soup" | "hostile" => {
            let (b, mut s) = match mode { "file" => reader::file(&mut r), "soup" => reader::soup(&mut r), _ => reader::hostile(&mut r) };
            let m = reader::check(&b, &p, &mut r);
            if !m.is_empty() { s.push_str(&format!("file of {} bytes (first 4096): {}\n", b.len(), b.iter().take(4096).map(|x| format!("{:02x}", x)).collect::<String>())) }
            (m, s)
        },
        _ => panic!("mode"),
    }
}
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_IDX: AtomicU64 = AtomicU64::new(0);
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let prop = a.get(1).cloned().unwrap_or_default();
    let ms = modes(&prop);
    if ms.is_empty() { eprintln!("unknown property"); std::process::exit(2) }
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "3").parse().unwrap();
    let max: u64 = get("--max", "18446744073709551615").parse().unwrap();
    let (wk, wn): (u64, u64) = (get("--worker", "0").parse().unwrap(), get("--workers", "1").parse().unwrap());
    let out = PathBuf::from(get("--out", "/dev/null"));
    let scratch = PathBuf::from(get("--scratch", "/nonexistent"));
    let dir = scratch.join(format!("w{}_{}", std::process::id(), wk));
    std::fs::create_dir_all(&dir).expect("scratch");
    if std::env::var("REPLAY_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})) }
    let report = |mode: &str, idx: u64, txt: &str, log: &str| {
        let mut s = format!("property {}\ncase {}:{} seed {}\n{}\n--- input\n{}\n", prop, mode, idx, seed, txt, log);
        s.push_str(&format!("--- rerun\ncargo run --offline --manifest-path /verif/replay/Cargo.toml -- {} --seed {} --case {}:{} --scratch DIR\n", prop, seed, mode, idx));
        let _ = std::fs::File::create(&out).and_then(|mut f| f.write_all(s.as_bytes()));
        println!("FOUND {} {}:{} {}", prop, mode, idx, txt.lines().next().unwrap_or(""));
    };
    let one = |mode: &str, idx: u64| -> Option<(String, String)> {
        let (m, log) = match std::panic::catch_unwind(|| run(mode, seed, idx, &dir)) { Ok(x) => x, Err(_) => { sys::disarm(); if prop == "ALL" { (vec![("ALL", "harness panicked".into())], String::new()) } else { (vec![], String::new()) } } };
        let l: Vec<String> = m.iter().filter(|x| prop == "ALL" || x.0 == prop).map(|x| format!("{}: {}", x.0, x.1)).collect();
        if l.is_empty() { None } else { Some((l.join("\n"), log)) }
    };
    let c = get("--case", "");
    if !c.is_empty() {
        let mut it = c.split(':');
        let (mode, idx) = (it.next().unwrap().to_string(), it.next().unwrap().parse().unwrap());
        let x = one(&mode, idx);
        let _ = std::fs::remove_dir_all(&dir);
        match x { Some((t, l)) => { report(&mode, idx, &t, &l); println!("{}\n{}", t, l); std::process::exit(1) }, None => { println!("no mismatch"); std::process::exit(0) } }
    }
    // plan: the modes in proportion to their weights, interleaved
    let plan: Vec<&'static str> = { let mut v = vec![]; let t = ms.iter().map(|x| x.1).max().unwrap(); for k in 0..t { for (n, w) in &ms { if k < *w { v.push(*n) } } } v };
    let state = dir.join("state");
    // watchdog
    let t0 = Instant::now();
    { let dir = dir.clone(); let t0 = t0; let plan = plan.clone(); let prop = prop.clone();
      std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START.load(SeqCst); let now = t0.elapsed().as_millis() as u64 + 1;
        if s != 0 && now > s + 30_000 {
            let i = CASE_IDX.load(SeqCst);
            println!("HANG {} {}:{}", prop, plan[(i % plan.len() as u64) as usize], i);
            let _ = std::io::stdout().flush();
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(3);
        }
      }); }
    let mut n = 0u64;
    let mut i = wk;
    let mut per: std::collections::BTreeMap<&str, u64> = Default::default();
    use std::os::unix::fs::FileExt;
    let sf = std::fs::File::create(&state).unwrap();
    // one case of several seconds, for the longer runs only
    if prop == "C11" && secs >= 20.0 && wk == wn - 1 {
        CASE_START.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
        if let Some((t, l)) = one("vfill", 0) { report("vfill", 0, &t, &l); let _ = std::fs::remove_dir_all(&dir); std::process::exit(1) }
        CASE_START.store(0, SeqCst);
        per.insert("vfill", 1); n += 1;
    }
    while n < max && t0.elapsed().as_secs_f64() < secs {
        let mode = plan[(i % plan.len() as u64) as usize];
        CASE_IDX.store(i, SeqCst);
        CASE_START.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
        let line = format!("{}:{}                    ", mode, i);
        let _ = sf.write_all_at(&line.as_bytes()[..line.len().min(40)], 0);
        // the exhaustive part of "names" is the first case of worker 0 only
        let idx = if mode == "names" && i != 0 { i + 1 } else { i };
        if let Some((t, l)) = one(mode, idx) { CASE_START.store(0, SeqCst); report(mode, idx, &t, &l); let _ = std::fs::remove_dir_all(&dir); std::process::exit(1) }
        CASE_START.store(0, SeqCst);
        *per.entry(mode).or_insert(0) += 1;
        n += 1; i += wn;
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("DONE {} cases {:?}", n, per);
}
