//! A controlled scheduler for real threads: every call of the native library is a scheduling point, and between two
//! points exactly one thread runs. A thread that neither reaches a point nor ends but sleeps is blocked (on a lock of
//! the code under test).
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Running, AtPoint, Done }
struct State { st: Vec<St>, tid: Vec<i32>, grant: Option<usize>, calls: Vec<u32> }
pub struct Sched { s: Mutex<State>, cv: Condvar }
thread_local! { static ME: std::cell::RefCell<Option<(Arc<Sched>, usize)>> = std::cell::RefCell::new(None); }

impl Sched {
    fn point(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        s.st[me] = St::AtPoint;
        s.calls[me] += 1;
        self.cv.notify_all();
        while s.grant != Some(me) { s = self.cv.wait(s).unwrap() }
        s.grant = None;
        s.st[me] = St::Running;
    }
}
fn point() { let m = ME.with(|m| m.borrow().clone()); if let Some((s, me)) = m { s.point(me) } }

type P = *mut libc::c_void;
extern "C" {
    fn __real_dnaupd_(ido: P, bmat: P, n: P, which: P, nev: P, tol: P, resid: P, ncv: P, v: P, ldv: P, iparam: P, ipntr: P, workd: P, workl: P, lworkl: P, info: P, l1: usize, l2: usize);
    fn __real_dneupd_(rvec: P, howmny: P, select: P, dr: P, di: P, z: P, ldz: P, sigmar: P, sigmai: P, workev: P, bmat: P, n: P, which: P, nev: P, tol: P, resid: P, ncv: P, v: P, ldv: P, iparam: P, ipntr: P, workd: P, workl: P, lworkl: P, info: P, l1: usize, l2: usize, l3: usize);
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_dnaupd_(ido: P, bmat: P, n: P, which: P, nev: P, tol: P, resid: P, ncv: P, v: P, ldv: P, iparam: P, ipntr: P, workd: P, workl: P, lworkl: P, info: P, l1: usize, l2: usize) {
    point();
    CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    __real_dnaupd_(ido, bmat, n, which, nev, tol, resid, ncv, v, ldv, iparam, ipntr, workd, workl, lworkl, info, l1, l2)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_dneupd_(rvec: P, howmny: P, select: P, dr: P, di: P, z: P, ldz: P, sigmar: P, sigmai: P, workev: P, bmat: P, n: P, which: P, nev: P, tol: P, resid: P, ncv: P, v: P, ldv: P, iparam: P, ipntr: P, workd: P, workl: P, lworkl: P, info: P, l1: usize, l2: usize, l3: usize) {
    point();
    CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    __real_dneupd_(rvec, howmny, select, dr, di, z, ldz, sigmar, sigmai, workev, bmat, n, which, nev, tol, resid, ncv, v, ldv, iparam, ipntr, workd, workl, lworkl, info, l1, l2, l3)
}
pub static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// State letter of one of our own threads.
fn asleep(tid: i32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    match t.rfind(')') { Some(k) => t[k + 1..].trim_start().starts_with('S'), None => false }
}

pub struct Run<T> {
    pub results: Vec<Option<Result<T, String>>>,
    /// For every decision: the threads that could run, in order of preference, and the one that was chosen.
    pub trace: Vec<(Vec<usize>, usize)>,
    pub stuck: Option<String>,
    pub diverged: bool,
    pub blocked: u64,
}
/// Runs the jobs under the schedule that follows `prefix` (indexes into the list of runnable threads) and then always
/// continues the running thread.
pub fn run<T: Send + 'static>(jobs: Vec<Box<dyn FnOnce() -> T + Send>>, prefix: &[usize]) -> Run<T> {
    let n = jobs.len();
    let sc = Arc::new(Sched { s: Mutex::new(State { st: vec![St::Running; n], tid: vec![0; n], grant: None, calls: vec![0; n] }), cv: Condvar::new() });
    let res: Arc<Mutex<Vec<Option<Result<T, String>>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let mut hs = vec![];
    for (k, j) in jobs.into_iter().enumerate() {
        let (sc, res) = (sc.clone(), res.clone());
        hs.push(std::thread::spawn(move || {
            sc.s.lock().unwrap().tid[k] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
            ME.with(|m| *m.borrow_mut() = Some((sc.clone(), k)));
            sc.point(k);
            let r = crate::engine::attempt(j);
            ME.with(|m| *m.borrow_mut() = None);
            res.lock().unwrap()[k] = Some(r);
            let mut s = sc.s.lock().unwrap();
            s.st[k] = St::Done;
            sc.cv.notify_all();
        }));
    }
    let mut out = Run { results: vec![], trace: vec![], stuck: None, diverged: false, blocked: 0 };
    let mut last = usize::MAX;
    let mut idle_since: Option<Instant> = None;
    loop {
        // until every thread is at a point, has ended, or is blocked
        let mut seen = vec![0u32; n];
        let mut s = sc.s.lock().unwrap();
        let mut waited = 0u32;
        loop {
            if s.grant.is_none() {
                let mut quiet = true;
                for k in 0..n { if s.st[k] == St::Running { if s.tid[k] != 0 && asleep(s.tid[k]) { seen[k] += 1 } else { seen[k] = 0 } quiet &= seen[k] >= 4 } }
                if quiet { break }
            }
            waited += 1;
            s = sc.cv.wait_timeout(s, Duration::from_micros(if waited < 60 { 5 } else { 300 })).unwrap().0;
        }
        let runnable: Vec<usize> = (0..n).filter(|&k| s.st[k] == St::AtPoint).collect();
        let blocked: Vec<usize> = (0..n).filter(|&k| s.st[k] == St::Running).collect();
        if runnable.is_empty() {
            if blocked.is_empty() { break }
            // everything left is blocked: give it time before calling it a deadlock
            let t = *idle_since.get_or_insert_with(Instant::now);
            if t.elapsed() > Duration::from_secs(3) { out.stuck = Some(format!("threads {blocked:?} wait for ever")); break }
            drop(s);
            std::thread::sleep(Duration::from_millis(5));
            continue
        }
        idle_since = None;
        out.blocked += blocked.len() as u64;
        let mut order = vec![];
        if runnable.contains(&last) { order.push(last) }
        order.extend(runnable.iter().copied().filter(|&k| k != last));
        let d = out.trace.len();
        let pick = match prefix.get(d) { Some(&q) if q < order.len() => q, Some(_) => { out.diverged = true; 0 } None => 0 };
        last = order[pick];
        out.trace.push((order, pick));
        s.grant = Some(last);
        sc.cv.notify_all();
        drop(s);
    }
    if out.stuck.is_none() { for h in hs { let _ = h.join(); } }
    let mut r = res.lock().unwrap();
    out.results = r.iter_mut().map(|x| x.take()).collect();
    out
}
/// Number of preemptions in a schedule: switches away from a thread that could have gone on.
fn cost(trace: &[(Vec<usize>, usize)], upto: usize, pick: usize) -> usize {
    let mut c = 0;
    let mut last = usize::MAX;
    for (k, (o, p)) in trace.iter().enumerate().take(upto + 1) {
        let p = if k == upto { pick } else { *p };
        if p > 0 && o[0] == last { c += 1 }
        last = o[p];
    }
    c
}
/// The next unexplored schedule within the preemption bound, depth first.
pub fn next(trace: &[(Vec<usize>, usize)], bound: usize) -> Option<Vec<usize>> {
    for d in (0..trace.len()).rev() {
        let (o, p) = &trace[d];
        for q in p + 1..o.len() {
            if cost(trace, d, q) <= bound {
                let mut v: Vec<usize> = trace[..d].iter().map(|x| x.1).collect();
                v.push(q);
                return Some(v)
            }
        }
    }
    None
}
