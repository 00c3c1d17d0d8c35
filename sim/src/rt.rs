//! Bindings to the deterministic runtime (rt/simrt.c) and small helpers used inside simulated runs.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::sync::Mutex;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Dev { pub step: u64, pub arg: u64, pub kind: u32, pub tid: i32 }

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Cfg {
    pub seed_sched: u64, pub seed_data: u64, pub strategy: u64, pub preempt_1in: u64, pub wake_1in: u64,
    pub stall_1in: u64, pub stall_max_ns: u64, pub spurious_1in: u64, pub pct_depth: u64, pub pct_len: u64,
    pub tick_ns: u64, pub max_steps: u64, pub max_time_ns: u64, pub replay: u64, pub crash_step: u64, pub crash_group: u64,
}
pub const MAX_DEVS: usize = 400000;
pub const OUT_LEN: usize = 1 << 20;
#[repr(C)]
pub struct Shared {
    pub done: u64,
    pub steps: u64, pub switches: u64, pub now_ns: u64, pub stalls: u64, pub spurious: u64, pub crashes: u64,
    pub sched_hash: u64, pub event_hash: u64, pub nthreads: u64, pub atomics: u64,
    pub ndevs: u64, pub nreplay: u64, pub devs_overflow: u64,
    pub counters: [u64; 64],
    pub out_len: u64,
    pub out: [u8; OUT_LEN],
    pub devs: [Dev; MAX_DEVS],
    pub replay: [Dev; MAX_DEVS],
}

extern "C" {
    fn sim_alloc(n: usize, al: usize) -> *mut u8;
    fn sim_free(p: *mut u8, n: usize, al: usize);
    fn sim_now() -> u64;
    fn sim_step() -> u64;
    fn sim_rand() -> u64;
    fn sim_set_group(g: i32);
    fn sim_crash_group(g: i32);
    fn sim_die_if_crashed();
    fn sim_group() -> i32;
    fn sim_group_crashed(g: i32) -> i32;
    fn sim_event(v: u64);
    fn sim_trace(s: *const libc::c_char);
    fn sim_tracing() -> i32;
    fn sim_end_run() -> !;
    fn sim_yield();
    fn sim_set_faults(stall: u64, spur: u64);
    pub fn sim_reserve();
    fn sim_static(p: *mut u8, n: usize);
    fn sim_run(c: *const Cfg, s: *mut Shared, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void, cb: extern "C" fn(i32), tfd: i32) -> !;
    pub fn simnet_set_connect(cb: extern "C" fn(i32, i32) -> i32);
    pub fn simnet_poll_until(p: *mut libc::pollfd, n: libc::nfds_t, deadline: u64) -> i32;
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE += l.size() as i64; sim_alloc(l.size(), l.align()) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE -= l.size() as i64; sim_free(p, l.size(), l.align()) }
}
// Only one thread runs at a time, so this needs no synchronisation.
static mut LIVE: i64 = 0;
/// Bytes allocated and not freed.
pub fn live_bytes() -> i64 { unsafe { LIVE } }

pub fn now() -> u64 { unsafe { sim_now() } }
pub fn step() -> u64 { unsafe { sim_step() } }
pub fn rand() -> u64 { unsafe { sim_rand() } }
pub fn set_group(g: i32) { unsafe { sim_set_group(g) } }
pub fn crash_group(g: i32) { unsafe { sim_crash_group(g) } }
/// Ends the calling thread if its simulated process has crashed.
pub fn die_if_crashed() { unsafe { sim_die_if_crashed() } }
pub fn group_crashed(g: i32) -> bool { unsafe { sim_group_crashed(g) != 0 } }
pub fn group() -> i32 { unsafe { sim_group() } }
pub fn yield_now() { unsafe { sim_yield() } }
pub fn set_faults(stall: u64, spur: u64) { unsafe { sim_set_faults(stall, spur) } }
pub fn tracing() -> bool { unsafe { sim_tracing() != 0 } }
pub fn ev(a: u64, b: u64) { unsafe { sim_event(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b) } }

/// Application counters shown in the evidence (faults that actually fired, ...).
pub const COUNTERS: &[&str] = &["op_executed", "op_failed_transient", "op_failed_fatal", "op_panicked", "input_errors", "publish_failures",
    "cancelled_futures", "dropped_consumers", "aborts_sent", "directives", "net_delays", "net_fragments", "conn_cuts", "garbage_messages",
    "redeliveries", "slow_ops", "slow_inputs", "runtime_drops", "publish_cancelled", "consumer_cancelled", "frames", "ack_failures", "ack_cancelled", "worker_crashes", "connections", "queues_removed", "connects_refused", "leases_dropped", "rejected", "broker_restarts", "answered_twice", "chan_errors", "msgs_expired"];
pub fn count(name: &str) { count_n(name, 1) }
pub fn count_n(name: &str, n: u64) {
    let i = COUNTERS.iter().position(|c| *c == name).expect("counter");
    unsafe { if !OUT.p().is_null() { (*OUT.p()).counters[i] += n } }
}

pub struct OutPtr(UnsafeCell<*mut Shared>);
unsafe impl Sync for OutPtr {}
impl OutPtr { pub fn p(&self) -> *mut Shared { unsafe { *self.0.get() } } }
pub static OUT: OutPtr = OutPtr(UnsafeCell::new(std::ptr::null_mut()));

pub static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Adds a line to the run's event log (kept in replay files) and to the schedule trace.
pub fn log(s: String) {
    if tracing() { let c = std::ffi::CString::new(s.as_str()).unwrap_or_default(); unsafe { sim_trace(c.as_ptr()) } }
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    if l.len() < 2000 { l.push(format!("t={}us {}", now() / 1000, s)); }
}
#[macro_export]
macro_rules! slog { ($($a:tt)*) => { $crate::rt::log(format!($($a)*)) } }

#[derive(Clone, Debug, Default)]
pub struct Outcome { pub class: String, pub msg: String, pub nontrivial: bool }
impl Outcome {
    pub fn ok() -> Self { Outcome { nontrivial: true, ..Default::default() } }
    pub fn trivial() -> Self { Outcome::default() }
    pub fn bad(class: &str, msg: impl Into<String>) -> Self { Outcome { class: class.into(), msg: msg.into(), nontrivial: true } }
}
static RESULT: Mutex<Option<Outcome>> = Mutex::new(None);
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn write_out(o: &Outcome) {
    let s = OUT.p();
    if s.is_null() { return }
    let log = LOG.lock().map(|l| l.clone()).unwrap_or_default();
    let panics = PANICS.lock().map(|l| l.clone()).unwrap_or_default();
    let v = serde_json::json!({"class": o.class, "msg": o.msg, "nontrivial": o.nontrivial, "log": log, "panics": panics});
    let mut b = serde_json::to_vec(&v).unwrap();
    if b.len() > OUT_LEN { b = serde_json::to_vec(&serde_json::json!({"class": o.class, "msg": o.msg, "nontrivial": o.nontrivial, "log": [], "panics": []})).unwrap(); }
    unsafe { (&mut (*s).out)[..b.len()].copy_from_slice(&b); (*s).out_len = b.len() as u64; (*s).done = 1; }
}
/// What a run that cannot continue reports: the harness sets it to describe what was being waited for.
static WAITING: Mutex<String> = Mutex::new(String::new());
pub fn waiting(s: &str) { *WAITING.lock().unwrap_or_else(|e| e.into_inner()) = s.to_string(); }

extern "C" fn ended(why: i32) {
    // Locks may be held by threads that will never run again: only try.
    let w = WAITING.try_lock().map(|w| w.clone()).unwrap_or_default();
    let o = match why {
        0 => RESULT.try_lock().ok().and_then(|r| r.clone()).unwrap_or(Outcome::bad("harness", "no result")),
        1 => Outcome::bad("hang", format!("deadlock: no thread can run and no timer is pending; waiting for: {w}")),
        2 => Outcome::bad("livelock", format!("step limit reached; waiting for: {w}")),
        3 => Outcome::bad("hang", format!("simulated time limit reached; waiting for: {w}")),
        _ => Outcome::bad("harness", "too many threads"),
    };
    let s = OUT.p();
    let log = LOG.try_lock().map(|l| l.clone()).unwrap_or_default();
    let panics = PANICS.try_lock().map(|l| l.clone()).unwrap_or_default();
    let v = serde_json::json!({"class": o.class, "msg": o.msg, "nontrivial": o.nontrivial, "log": log, "panics": panics});
    let b = serde_json::to_vec(&v).unwrap();
    if b.len() > OUT_LEN { write_out(&o); return }
    unsafe { (&mut (*s).out)[..b.len()].copy_from_slice(&b); (*s).out_len = b.len() as u64; (*s).done = 1; }
}

pub type RunFn = fn(&serde_json::Value) -> Outcome;
struct Arg { case: String, f: RunFn }
extern "C" fn entry(a: *mut libc::c_void) -> *mut libc::c_void {
    let a = unsafe { &*(a as *const Arg) };
    let case: serde_json::Value = serde_json::from_str(&a.case).unwrap();
    let f = a.f;
    let o = match std::panic::catch_unwind(move || f(&case)) {
        Ok(o) => o,
        Err(_) => { let p = PANICS.lock().unwrap().last().cloned().unwrap_or_default(); Outcome::bad("panic", format!("panicked: {p}")) }
    };
    *RESULT.lock().unwrap() = Some(o);
    unsafe { sim_end_run() }
}
/// Runs one simulation in this (freshly forked) process. Never returns.
pub fn run_child(cfg: &Cfg, shared: *mut Shared, case: String, f: RunFn, trace_fd: i32) -> ! {
    unsafe { *OUT.0.get() = shared; }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let t = format!("{m} at {l}");
        if let Ok(mut p) = PANICS.lock() { if p.len() < 50 { p.push(t.clone()); } }
        log(format!("panic: {t}"));
    }));
    let arg = Box::leak(Box::new(Arg { case, f }));
    unsafe { sim_run(cfg, shared, entry, arg as *mut Arg as *mut libc::c_void, ended, trace_fd) }
}

/// SplitMix64-seeded generator for cases and schedules.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize].clone() }
}

/// Makes the mutable statics of paladin's crates separate for each simulated process.
pub fn separate_statics() -> Vec<String> {
    let Ok(b) = std::fs::read("/proc/self/exe") else { return vec![] };
    let u = |o: usize, n: usize| b.get(o..o + n).map_or(0, |s| s.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)) as usize;
    let text = |o: usize| { let e = b[o..].iter().position(|x| *x == 0).map_or(b.len(), |k| o + k); String::from_utf8_lossy(&b[o..e]).into_owned() };
    unsafe extern "C" fn first(i: *mut libc::dl_phdr_info, _: usize, o: *mut libc::c_void) -> i32 { unsafe { *(o as *mut usize) = (*i).dlpi_addr as usize; } 1 }
    let mut bias = 0usize;
    unsafe { libc::dl_iterate_phdr(Some(first), &mut bias as *mut usize as *mut libc::c_void); }
    let (shoff, shsz, shn, shstr) = (u(0x28, 8), u(0x3a, 2), u(0x3c, 2), u(0x3e, 2));
    let sec = |i: usize| shoff + i * shsz;
    let names = u(sec(shstr) + 0x18, 8);
    let sname = |i: usize| text(names + u(sec(i), 4));
    let mut found = vec![];
    for s in (0..shn).filter(|s| u(sec(*s) + 4, 4) == 2) {
        let (off, size, link) = (u(sec(s) + 0x18, 8), u(sec(s) + 0x20, 8), u(sec(s) + 0x28, 4));
        let strs = u(sec(link) + 0x18, 8);
        for y in (off..off + size).step_by(24) {
            let (kind, shndx, val, n) = (b[y + 4] & 15, u(y + 6, 2), u(y + 8, 8), u(y + 16, 8));
            if kind != 1 || n == 0 || shndx == 0 || shndx >= shn { continue }
            let name = text(strs + u(y, 4));
            // The crate that a static belongs to is the first one in its mangled name.
            let own = match name.find("Cs") { Some(p) if name.starts_with("_RN") => name[p + 2..].find('_').is_some_and(|k| name[p + 2 + k + 1..].starts_with("7paladin")), _ => name.starts_with("_ZN7paladin") };
            if !own || name.contains("CALLSITE") || !matches!(sname(shndx).as_str(), ".data" | ".bss") { continue }
            unsafe { sim_static((bias + val) as *mut u8, n); }
            found.push(name);
        }
    }
    found
}
