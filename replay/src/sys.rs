//! Allocation monitor and system-call fault injection (this process only).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub struct Mon;
pub static MAX_ALLOC: AtomicUsize = AtomicUsize::new(0);
const BIG: usize = 512 << 20;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX_ALLOC.fetch_max(l.size(), SeqCst);
        if l.size() < BIG { return System.alloc(l) }
        // lazily committed: a huge request must not kill the monitor
        let p = mmap(std::ptr::null_mut(), l.size(), 3, 0x4022, -1, 0);
        if p as isize == -1 { std::ptr::null_mut() } else { p }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() < BIG { System.dealloc(p, l) } else { munmap(p, l.size()); } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() < BIG { MAX_ALLOC.fetch_max(l.size(), SeqCst); System.alloc_zeroed(l) } else { self.alloc(l) } }
}
#[global_allocator]
static A: Mon = Mon;

/// armed: 0 off, otherwise calls on fd > 2 are counted
static ARMED: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static AT: AtomicU64 = AtomicU64::new(u64::MAX);
static FIRED: AtomicU64 = AtomicU64::new(0);
/// 1 EIO, 2 short transfer, 3 EINTR, 4 zero bytes; +16: persistent
static KIND: AtomicU64 = AtomicU64::new(0);
pub fn arm(at: u64, kind: u64) { COUNT.store(0, SeqCst); FIRED.store(0, SeqCst); AT.store(at, SeqCst); KIND.store(kind, SeqCst); ARMED.store(1, SeqCst) }
pub fn disarm() -> (u64, bool) { ARMED.store(0, SeqCst); (COUNT.load(SeqCst), FIRED.load(SeqCst) > 0) }
pub fn pause() { ARMED.store(0, SeqCst) }
pub fn resume() { ARMED.store(1, SeqCst) }
fn hit(fd: i32) -> u64 {
    if fd <= 2 || ARMED.load(SeqCst) == 0 { return 0 }
    let c = COUNT.fetch_add(1, SeqCst);
    let k = KIND.load(SeqCst);
    let at = AT.load(SeqCst);
    if c == at || (k >= 16 && c > at) { FIRED.store(1, SeqCst); k & 15 } else { 0 }
}
unsafe fn fail(e: i32) -> isize { *__errno_location() = e; -1 }
/// a virtual file: the bytes written are compared with what is expected at their position and dropped
pub struct Region { pub begin: u64, pub stride: u64, pub n: u64, pub len: u64, pub pat: Vec<u8> }
pub struct Virt { pub pos: u64, pub regions: Vec<Region>, pub runs: Vec<(u64, u64)>, pub bad: Option<String>, cur: (u64, u64, usize, usize) }
static VON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut VF: Option<Virt> = None;
pub fn virt_start(regions: Vec<Region>) { unsafe { *std::ptr::addr_of_mut!(VF) = Some(Virt { pos: 0, regions, runs: vec![], bad: None, cur: (1, 0, 0, 0) }) } VON.store(true, SeqCst) }
pub fn virt_stop() -> Virt { VON.store(false, SeqCst); unsafe { (*std::ptr::addr_of_mut!(VF)).take().unwrap() } }
impl Virt {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        let (p, n) = (self.pos, b.len() as u64);
        self.pos += n;
        // fast path: goes on in the same record at a value boundary
        if let Some(l) = self.runs.last_mut() {
            if l.1 == p && p >= self.cur.0 && p + n <= self.cur.1 && self.cur.3 == 0 && b == &self.regions[self.cur.2].pat[..] { l.1 += n; return }
        }
        self.slow(p, b)
    }
    fn slow(&mut self, p: u64, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let q = p + i as u64;
            let f = self.regions.iter().position(|r| q >= r.begin && (q - r.begin) / r.stride < r.n && (q - r.begin) % r.stride < r.len);
            let k = match f { Some(k) => k, None => { if self.bad.is_none() { self.bad = Some(format!("a byte is written at {}, which belongs to no variable", q)) } return } };
            let (beg, len, stride, w) = (self.regions[k].begin, self.regions[k].len, self.regions[k].stride, self.regions[k].pat.len());
            let rb = beg + (q - beg) / stride * stride;
            let off = ((q - rb) % w as u64) as usize;
            if b[i] != self.regions[k].pat[off] { if self.bad.is_none() { self.bad = Some(format!("the byte written at {} is {:#x}, not the fill value", q, b[i])) } return }
            match self.runs.last_mut() { Some(l) if l.1 == q => l.1 += 1, _ => self.runs.push((q, q + 1)) }
            i += 1;
            self.cur = (rb, rb + len, k, (off + 1) % w);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd > 2 && VON.load(std::sync::atomic::Ordering::Relaxed) { if let Some(v) = (*std::ptr::addr_of_mut!(VF)).as_mut() { v.write(std::slice::from_raw_parts(b, n)); return n as isize } }
    match hit(fd) { 1 => fail(28), 2 => syscall(1, fd, b, n / 2) as isize, 3 => fail(4), 4 => 0, _ => syscall(1, fd, b, n) as isize }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    match hit(fd) { 1 => fail(5), 2 => syscall(0, fd, b, (n + 1) / 2) as isize, 3 => fail(4), 4 => 0, _ => syscall(0, fd, b, n) as isize }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
    if fd > 2 && VON.load(SeqCst) { if let Some(v) = (*std::ptr::addr_of_mut!(VF)).as_mut() { if w == 0 { if o < 0 { return fail(22) as i64 } v.pos = o as u64 } else if w == 1 { v.pos = (v.pos as i64 + o) as u64 } else { return fail(22) as i64 } return v.pos as i64 } }
    match hit(fd) { 1 | 3 => fail(29) as i64, _ => syscall(8, fd, o, w) }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, o: i64, w: i32) -> i64 { lseek64(fd, o, w) }
