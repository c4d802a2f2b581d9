//! Native replay runtime.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Default)]
struct St {
    ins: Vec<(u32, u64)>,
    pos: usize,
    obs: Vec<u64>,
    expect: u32,
    reached: Vec<u32>,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }

fn end(code: i32, msg: &str) -> ! {
    println!("{}", msg);
    std::process::exit(code)
}
fn obs() -> String {
    S.with(|s| s.borrow().obs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "))
}

pub unsafe fn vs_in(bits: u32) -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        match s.ins.get(p) {
            Some(&(b, v)) if b == bits => v,
            Some(&(b, _)) => end(5, &format!("DIVERGED input {} has {} bits, asked for {}", p, b, bits)),
            None => { s.ins.push((bits, 0)); 0 }
        }
    })
}
pub unsafe fn vs_assume(b: bool) { if !b { end(6, "ASSUME violated") } }
pub unsafe fn vs_assert(b: bool, id: u32) { if !b { end(1, &format!("FAIL assertion {}", id)) } }
pub unsafe fn vs_reach(id: u32) { S.with(|s| s.borrow_mut().reached.push(id)) }
pub unsafe fn vs_expect_panic(id: u32) { S.with(|s| s.borrow_mut().expect = id) }
pub unsafe fn vs_observe(v: u64) { S.with(|s| s.borrow_mut().obs.push(v)) }
pub unsafe fn vs_conc(v: u64) -> u64 { v }
pub unsafe fn vs_heap() -> u64 { LIVE.load(SeqCst) as u64 }
pub unsafe fn vs_log(v: u64) { eprintln!("log {:#x}", v) }

/// `replay HARNESS width:value ...` runs one witness
pub fn replay_main(tables: &[&[(&str, fn())]]) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.get(0).map_or(false, |n| n == "--list") {
        for t in tables { for x in t.iter() { println!("{}", x.0) } }
        return;
    }
    let f = match tables.iter().flat_map(|t| t.iter()).find(|x| a.get(0).map_or(false, |n| n == x.0)) { Some(f) => f.1, None => end(7, "no such harness") };
    let ins: Vec<(u32, u64)> = a[1..].iter().map(|s| { let (w, v) = s.split_once(':').unwrap(); (w.parse().unwrap(), v.parse().unwrap()) }).collect();
    S.with(|s| s.borrow_mut().ins = ins);
    S.with(|s| { let mut s = s.borrow_mut(); s.obs.reserve(4096); s.reached.reserve(4096); s.ins.reserve(256) });
    // a first panic message may allocate: keep it out of the counts
    let r = std::panic::catch_unwind(f);
    let (e, r) = (S.with(|s| s.borrow().expect), r.is_err());
    match (e, r) {
        (0, true) => end(1, "FAIL panic"),
        (0, false) => end(0, &format!("OK {}", obs())),
        (u32::MAX, false) => end(0, &format!("OK {}", obs())),
        (_, true) => end(0, &format!("PANIC {}", obs())),
        (k, false) => end(1, &format!("FAIL no panic where one is required ({})", k)),
    }
}
