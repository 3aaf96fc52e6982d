#![allow(warnings)]
//! replay <harness> <hex input> [param]...
//! Runs one harness natively, feeding it the given input bytes.
//! Exit 0: ran to its end.  3: the input does not satisfy the harness's assumptions.
//! 7: the property's assertion failed.  Anything else: panic, signal, sanitizer report.
#[path = "../../harness/src/lib.rs"]
mod harness;
use harness::*;
use std::sync::Mutex;

static INPUT: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
static PARAMS: Mutex<Vec<u64>> = Mutex::new(Vec::new());

fn next(n: usize) -> u64 {
    let mut g = INPUT.lock().unwrap();
    let mut v = 0u64;
    for k in 0..n {
        let p = g.1;
        let b = g.0.get(p).copied().unwrap_or(0);
        g.1 += 1;
        v |= (b as u64) << (8 * k);
    }
    v
}
#[no_mangle] extern "C" fn sym_u8() -> u8 { next(1) as u8 }
#[no_mangle] extern "C" fn sym_u16() -> u16 { next(2) as u16 }
#[no_mangle] extern "C" fn sym_u32() -> u32 { next(4) as u32 }
#[no_mangle] extern "C" fn sym_u64() -> u64 { next(8) }
#[no_mangle] extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n { unsafe { *p.add(i) = next(1) as u8 } }
}
#[no_mangle] extern "C" fn sym_assume(c: bool) {
    if !c { eprintln!("ASSUMPTION does not hold for this input"); std::process::exit(3) }
}
#[no_mangle] extern "C" fn sym_choice(n: u64) -> u64 {
    if n <= 1 { return 0 }
    let v = if n <= 256 { next(1) } else { next(2) };
    if v >= n { eprintln!("ASSUMPTION choice out of range"); std::process::exit(3) }
    v
}
#[no_mangle] extern "C" fn sym_cover(_id: u32) {}
#[no_mangle] extern "C" fn sym_param(i: u64) -> u64 { PARAMS.lock().unwrap().get(i as usize).copied().unwrap_or(0) }
#[no_mangle] extern "C" fn sym_conc(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn sym_active() -> bool { false }
struct Counting;
static LIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// With REPLAY_REUSE set: freed blocks are given out again in the way the engine does it (sym_reuse), which is what
/// an allocator may do, though the system's does it only for some sizes.
mod again {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    pub static HOW: AtomicU64 = AtomicU64::new(0);
    static BUSY: AtomicBool = AtomicBool::new(false);
    const ARENA: usize = 1 << 28; const MOST: usize = 1 << 16;
    struct Free { start: usize, used: usize, n: usize, list: [(usize, usize); MOST] }
    static mut FREE: Free = Free { start: 0, used: 0, n: 0, list: [(0, 0); MOST] };
    fn locked<T>(f: impl FnOnce(&mut Free) -> T) -> T {
        while BUSY.swap(true, SeqCst) { std::hint::spin_loop() }
        let r = f(unsafe { &mut *std::ptr::addr_of_mut!(FREE) });
        BUSY.store(false, SeqCst);
        r
    }
    pub fn take(n: usize, align: usize) -> *mut u8 {
        let how = HOW.load(SeqCst);
        if how == 0 || align > 64 || n == 0 { return std::ptr::null_mut() }
        locked(|f| {
            if f.start == 0 { f.start = unsafe { std::alloc::GlobalAlloc::alloc(&std::alloc::System, std::alloc::Layout::from_size_align(ARENA, 64).unwrap()) } as usize }
            for i in (0..f.n).rev() {
                let (p, m) = f.list[i];
                if if how > 1 { (m + 63) / 64 == (n + 63) / 64 } else { m == n } {
                    f.list.copy_within(i + 1..f.n, i);
                    f.n -= 1;
                    return p as *mut u8;
                }
            }
            let size = (n + 63) / 64 * 64 + 64;
            if f.start == 0 || f.used + size > ARENA { return std::ptr::null_mut() }
            let p = f.start + f.used;
            f.used += size;
            p as *mut u8
        })
    }
    pub fn give(p: *mut u8, n: usize) -> bool {
        if HOW.load(SeqCst) == 0 { return false }
        locked(|f| {
            let p = p as usize;
            if f.start == 0 || p < f.start || p >= f.start + ARENA { return false }
            if f.n < MOST { f.list[f.n] = (p, n); f.n += 1 }
            true
        })
    }
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = again::take(l.size(), l.align());
        if p.is_null() { std::alloc::System.alloc(l) } else { p }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        if !again::give(p, l.size()) { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = again::take(l.size(), l.align());
        if p.is_null() { std::alloc::System.alloc_zeroed(l) } else { p.write_bytes(0, l.size()); p }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if again::HOW.load(std::sync::atomic::Ordering::SeqCst) == 0 { return std::alloc::System.realloc(p, l, n) }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l) }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
#[no_mangle] extern "C" fn sym_live() -> u64 { LIVE.load(std::sync::atomic::Ordering::SeqCst) }
#[no_mangle] extern "C" fn sym_reuse(how: u64) {
    if std::env::var_os("REPLAY_REUSE").is_some() { again::HOW.store(how, std::sync::atomic::Ordering::SeqCst) }
}
#[no_mangle] extern "C" fn sym_log(p: *const u8, n: usize, v: u64) {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    eprintln!("LOG {s} {v:#x}");
}
#[no_mangle] extern "C" fn sym_fail(p: *const u8, n: usize) -> ! {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    println!("FAIL {s}");
    std::process::exit(7)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).map(String::as_str).unwrap_or("");
    let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    INPUT.lock().unwrap().0 = bytes;
    *PARAMS.lock().unwrap() = a.iter().skip(3).map(|x| x.parse().unwrap()).collect();
    let t = harness::table();
    let f = t.iter().find(|(n, _)| *n == a[1]).expect("no such harness").1;
    // a stack of ordinary size, so that endless recursion is seen as such
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || f()).unwrap();
    match h.join() {
        Ok(()) => println!("OK"),
        Err(_) => { println!("PANIC"); std::process::exit(101) }
    }
}
