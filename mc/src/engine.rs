//! Bounded-exhaustive exploration engine.
//!
//! A `Space` is a finite, completely enumerable set of cases, decoded from an index. Every case runs the
//! real code and compares it with the reference model. The engine runs all cases of all spaces on all
//! cores, counts distinct concrete states and operation executions, and turns the lowest failing index
//! into a replay file. It runs in a child process so that an abort, a crash or a runaway allocation of
//! the code under test is observed (and confirmed by re-running the one case) by the parent.
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdH>>;

#[inline]
pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub type R = Result<(), String>;

/// Per-worker context of the running case.
pub struct Cx {
    pub transitions: u64,
    pub states: U64Set,
    pub verbose: bool,
    pub log: Vec<String>,
    pub op: &'static str,
}
impl Cx {
    fn new(verbose: bool) -> Cx {
        Cx { transitions: 0, states: U64Set::default(), verbose, log: vec![], op: "" }
    }
    /// One execution of a public operation of the code under test.
    #[inline]
    pub fn op(&mut self, name: &'static str) {
        self.transitions += 1;
        self.op = name;
        if self.verbose { self.log.push(format!("op: {name}")) }
    }
    /// A concrete state (stored object) that was visited.
    #[inline]
    pub fn see(&mut self, h: u64) { self.states.insert(h); }
    #[inline]
    pub fn say(&mut self, f: impl FnOnce() -> String) { if self.verbose { let s = f(); self.log.push(s) } }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Space {
    pub name: String,
    pub n: u64,
    pub f: Arc<dyn Fn(u64, &mut Cx) -> R + Sync + Send>,
}
pub fn space(name: impl Into<String>, n: u64, f: impl Fn(u64, &mut Cx) -> R + Sync + Send + 'static) -> Space {
    Space { name: name.into(), n, f: Arc::new(f) }
}

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} [{l}]"));
    }));
}
pub fn last_panic() -> String { PANIC_MSG.with(|p| p.borrow().clone()) }
/// Runs f; Err(message) when it panics.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn run_case(s: &Space, i: u64, cx: &mut Cx) -> R {
    cx.op = "";
    match attempt(|| (s.f)(i, cx)) {
        Ok(r) => r.map_err(|e| format!("{e} (operation: {})", cx.op)),
        Err(p) => Err(format!("panic in {}: {}", cx.op, p)),
    }
}

// ---- shared slots: what every worker is doing, visible to the parent after a crash --------------------
const SLOTS: usize = 64;
#[repr(C)]
pub struct Slot { space: AtomicU64, idx: AtomicU64, start_ms: AtomicU64 }
pub struct Shared(*const Slot);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn open(path: &str, create: bool) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).unwrap();
        let len = SLOTS * std::mem::size_of::<Slot>();
        if create { f.set_len(len as u64).unwrap(); }
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *const Slot)
    }
    fn slot(&self, i: usize) -> &Slot { unsafe { &*self.0.add(i) } }
    pub fn active(&self) -> Vec<(u64, u64)> {
        (0..SLOTS).filter_map(|i| { let s = self.slot(i); let sp = s.space.load(SeqCst); if sp > 0 { Some((sp - 1, s.idx.load(SeqCst))) } else { None } }).collect()
    }
}

pub struct Outcome {
    pub cases: u64,
    pub transitions: u64,
    pub states: u64,
    pub per_space: Vec<(String, u64, f64)>,
    pub samples: Vec<String>,
    pub failure: Option<(usize, u64, String, Vec<String>)>,
    pub known: Vec<String>,
}

/// `known(space, message)` returns the text of a listed finding that this failure is an instance of.
pub fn explore(spaces: &[Space], shared: &Shared, hang_s: u64, known: &(dyn Fn(&str, u64, &str) -> Option<String> + Sync)) -> Outcome {
    let threads = std::env::var("MC_THREADS").ok().and_then(|t| t.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16));
    let mut out = Outcome { cases: 0, transitions: 0, states: 0, per_space: vec![], samples: vec![], failure: None, known: vec![] };
    let all_states: Mutex<U64Set> = Mutex::new(U64Set::default());
    let t0 = Instant::now();
    let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
    for (si, s) in spaces.iter().enumerate() {
        let ts = Instant::now();
        let next = AtomicU64::new(0);
        let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let best_idx = AtomicU64::new(u64::MAX);
        let cases = AtomicU64::new(0);
        let trans = AtomicU64::new(0);
        let done = AtomicBool::new(false);
        let chunk = (s.n / (threads as u64 * 64)).clamp(1, 4096);
        let live = AtomicU64::new(threads as u64);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, best, best_idx, cases, trans, all_states, known_hits, live, done) =
                    (&next, &best, &best_idx, &cases, &trans, &all_states, &known_hits, &live, &done);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut cx = Cx::new(false);
                    let slot = shared.slot(t);
                    let mut nc = 0;
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= s.n { break }
                        for i in a..(a + chunk).min(s.n) {
                            if i >= best_idx.load(Relaxed) { break }
                            slot.idx.store(i, Relaxed);
                            slot.start_ms.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                            slot.space.store(si as u64 + 1, Release);
                            let r = run_case(s, i, &mut cx);
                            slot.space.store(0, Release);
                            nc += 1;
                            if let Err(m) = r {
                                if let Some(k) = known(&s.name, i, &m) { known_hits.lock().unwrap().push(k); continue }
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |x| i < x.0) { *b = Some((i, m)); best_idx.store(i, Relaxed); }
                            }
                        }
                    }
                    cases.fetch_add(nc, Relaxed);
                    trans.fetch_add(cx.transitions, Relaxed);
                    all_states.lock().unwrap().extend(cx.states.drain());
                    if live.fetch_sub(1, AcqRel) == 1 { done.store(true, Release) }
                }).unwrap();
            }
            // watchdog: a case that does not come back is a finding, not a time-out of the check
            let done = &done;
            sc.spawn(move || {
                let mut tick = 0u32;
                while !done.load(Acquire) {
                    std::thread::sleep(Duration::from_millis(if tick < 50 { 2 } else { 50 }));
                    tick += 1;
                    let now = t0.elapsed().as_millis() as u64;
                    for t in 0..threads {
                        let sl = shared.slot(t);
                        let (sp, idx, st) = (sl.space.load(Acquire), sl.idx.load(Relaxed), sl.start_ms.load(Relaxed));
                        if sp == si as u64 + 1 && now > st + hang_s * 1000 {
                            println!("HANG space={} case={}", s.name, idx);
                            // leave only the hanging case in the slots and die; the parent confirms it
                            for u in 0..SLOTS { if u != t { shared.slot(u).space.store(0, SeqCst) } }
                            unsafe { libc::_exit(97) }
                        }
                    }
                }
            });
        });
        out.cases += cases.load(Relaxed);
        out.transitions += trans.load(Relaxed);
        out.per_space.push((s.name.clone(), cases.load(Relaxed), ts.elapsed().as_secs_f64()));
        if let Some((i, m)) = best.into_inner().unwrap() {
            let mut cx = Cx::new(true);
            let again = run_case(s, i, &mut cx);
            if again.is_ok() { cx.log.push("note: a second run of the same case did not fail (the code under test behaves non-deterministically)".into()) }
            out.failure = Some((si, i, again.err().unwrap_or(m), cx.log));
            break;
        }
        // a sample of what was explored
        if s.n > 0 && out.samples.len() < 12 {
            let mut cx = Cx::new(true);
            let i = s.n / 2;
            let _ = run_case(s, i, &mut cx);
            let mut l = cx.log.join("; ");
            if l.len() > 700 { let mut e = 700; while !l.is_char_boundary(e) { e -= 1 } l.truncate(e); l.push_str("...") }
            out.samples.push(format!("{}#{}: {}", s.name, i, l));
        }
    }
    out.states = all_states.into_inner().unwrap().len() as u64;
    let mut k = known_hits.into_inner().unwrap();
    k.sort();
    k.dedup();
    out.known = k;
    out
}

pub fn replay_case(spaces: &[Space], name: &str, i: u64) -> (R, Vec<String>) {
    let s = spaces.iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no space {name}"));
    let mut cx = Cx::new(true);
    let r = run_case(s, i, &mut cx);
    (r, cx.log)
}
