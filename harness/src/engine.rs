//! Stateless model checker: exhaustive depth-first enumeration of every sequence of
//! answers to `choose`, run against the real code.
//!
//! A *space* is a closure whose only nondeterminism is `choose` / `deviate`. The explorer runs it
//! once for every leaf of its choice tree (no sampling, no pruning), in parallel, and stops at the
//! first violation. A prefix of choices identifies an execution, so every violation is replayable.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
/// Counts live and peak bytes per thread and refuses absurd requests, so that an allocation driven
/// by untrusted input is observed instead of taking the sandbox down.
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
const REFUSE: usize = 1 << 31;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note(l.size()) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if note(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > REFUSE {
            return std::ptr::null_mut();
        }
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        note(new);
        System.realloc(p, l, new)
    }
}
fn note(size: usize) -> bool {
    let _ = LARGEST.try_with(|c| c.set(c.get().max(size)));
    if size > REFUSE {
        return false;
    }
    let _ = LIVE.try_with(|c| {
        let v = c.get() + size as isize;
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    true
}
/// Runs `f` and returns its result with the largest single allocation it requested, in bytes.
pub fn largest_alloc<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LARGEST.with(|c| c.replace(0));
    let r = f();
    let largest = LARGEST.with(|c| c.get());
    LARGEST.with(|c| c.set(largest.max(before)));
    (r, largest)
}

/// Runs `f` and returns its result with the most memory it held at any time on this thread, in bytes.
pub fn peak_alloc<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let live = LIVE.with(|c| c.get());
    let before = PEAK.with(|c| c.replace(live));
    let r = f();
    let peak = PEAK.with(|c| c.get());
    PEAK.with(|c| c.set(peak.max(before)));
    (r, (peak - live).max(0) as usize)
}

// ---------------------------------------------------------------- context
#[derive(Default)]
struct Ctx {
    prefix: Vec<u32>,
    trail: Vec<(u32, u32)>,
    dev_left: u32,
    states: HashSet<u64>,
    tallies: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    sample_now: bool,
    last_panic: Option<(String, String)>,
}
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

/// One nondeterministic choice among `n` alternatives; every alternative is explored.
pub fn choose(n: usize) -> usize {
    assert!(n > 0, "choose(0)");
    if n == 1 {
        return 0;
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.trail.len();
        let v = if i < c.prefix.len() { c.prefix[i] } else { 0 };
        if v as usize >= n {
            eprintln!("MACHINERY: nondeterministic space (choice {v} of {n} at depth {i})");
            std::process::exit(3);
        }
        c.trail.push((v, n as u32));
        v as usize
    })
}
/// A choice made by the environment: 0 is the well-behaved answer, every other answer costs one
/// unit of the space's deviation budget. All placements of at most `budget` deviations are explored.
pub fn deviate(n: usize) -> usize {
    let left = CTX.with(|c| c.borrow().dev_left);
    if left == 0 {
        return 0;
    }
    let v = choose(n);
    if v != 0 {
        CTX.with(|c| c.borrow_mut().dev_left -= 1);
    }
    v
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
/// a length in lo..=hi followed by that many elements
pub fn seq<T>(lo: usize, hi: usize, mut f: impl FnMut(usize) -> T) -> Vec<T> {
    let n = lo + choose(hi - lo + 1);
    (0..n).map(|i| f(i)).collect()
}
/// Records a (model) state reached; distinct ones are counted.
pub fn visit<H: Hash>(h: &H) {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    let v = s.finish();
    CTX.with(|c| {
        c.borrow_mut().states.insert(v);
    })
}
/// Classifies the execution, for the evidence.
pub fn tally(label: &'static str) {
    CTX.with(|c| *c.borrow_mut().tallies.entry(label).or_default() += 1)
}
/// Offers a written-out case for the evidence (only evaluated for the few kept).
pub fn sample(f: impl FnOnce() -> String) {
    let now = CTX.with(|c| c.borrow().sample_now);
    if now {
        let s = f();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.samples.len() < 6 {
                let mut s = s;
                if s.len() > 600 {
                    let mut k = 600;
                    while !s.is_char_boundary(k) {
                        k -= 1
                    }
                    s.truncate(k);
                    s.push_str("...");
                }
                c.samples.push(s);
                c.sample_now = false;
            }
        })
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;
impl<E: std::error::Error> From<E> for Fail {
    fn from(e: E) -> Self {
        Fail { key: "unexpected-error".into(), msg: format!("unexpected error: {e}") }
    }
}
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($m:tt)*) => { if !($c) { return $crate::engine::fail($key, format!($($m)*)); } };
}
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $key:expr, $($m:tt)*) => {{
        let (g, w) = (&$got, &$want);
        if g != w { return $crate::engine::fail($key, format!("{}: got {:?}, expected {:?}", format!($($m)*), g, w)); }
    }};
}
/// Runs code under test; a panic becomes `Err`.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = CTX.with(|c| c.borrow_mut().last_panic.take()).unwrap_or_default();
            Err(Fail { key: format!("panic@{loc}"), msg: format!("{what} panicked at {loc}: {msg}") })
        }
    }
}

/// Runs `f` on a thread with a stack of `bytes`: exhausting it is reported like any other crash.
pub fn small_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> Res<T> {
    let tid = TID.with(|t| t.get());
    std::thread::scope(|s| {
        let run = move || {
            TID.with(|t| t.set(tid));
            guard("on a small stack", f)
        };
        let t = std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, run).expect("thread");
        t.join().unwrap_or_else(|_| fail("panic", "the thread panicked"))
    })
}

pub struct Space {
    pub name: &'static str,
    pub deviations: u32,
    pub run: Box<dyn Fn() -> Res + Sync>,
}
pub fn space(name: &'static str, run: impl Fn() -> Res + Sync + 'static) -> Space {
    Space { name, deviations: 0, run: Box::new(run) }
}
pub fn space_dev(name: &'static str, deviations: u32, run: impl Fn() -> Res + Sync + 'static) -> Space {
    Space { name, deviations, run: Box::new(run) }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
}
pub struct SpaceReport {
    pub name: String,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub exhaustive: bool,
    pub tallies: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub max_depth: usize,
    pub wall: f64,
}

// ---------------------------------------------------------------- crash breadcrumbs
const MAXT: usize = 64;
const MAXC: usize = 4096;
struct Crumb {
    n: AtomicUsize,
    c: [AtomicU64; MAXC],
    started_ms: AtomicU64, // 0 = idle
}
static CRUMBS: [Crumb; MAXT] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    #[allow(clippy::declare_interior_mutable_const)]
    const C: Crumb = Crumb { n: AtomicUsize::new(0), c: [Z; MAXC], started_ms: AtomicU64::new(0) };
    [C; MAXT]
};
thread_local! { static TID: Cell<usize> = const { Cell::new(MAXT) }; }
static CUR_SPACE: Mutex<String> = Mutex::new(String::new());
static mut SPACE_BYTES: [u8; 128] = [0; 128];
static mut REPLAY_PATH: [u8; 512] = [0; 512];
static mut VIOLATION_LINE: [u8; 1024] = [0; 1024];

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn creat(p: *const u8, mode: u32) -> i32;
}
fn zlen(b: *const u8) -> usize {
    let mut n = 0;
    unsafe {
        while *b.add(n) != 0 {
            n += 1
        }
    }
    n
}
unsafe fn put_num(fd: i32, mut v: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    write(fd, b.as_ptr().add(i), 20 - i);
}
unsafe fn dump_crumb(tid: usize, why: &[u8]) {
    let fd = creat(std::ptr::addr_of!(REPLAY_PATH) as *const u8, 0o644);
    if fd >= 0 {
        let s = std::ptr::addr_of!(SPACE_BYTES) as *const u8;
        write(fd, s, zlen(s));
        write(fd, b"\n".as_ptr(), 1);
        let k = CRUMBS[tid].n.load(Ordering::SeqCst).min(MAXC);
        for i in 0..k {
            put_num(fd, CRUMBS[tid].c[i].load(Ordering::SeqCst));
            write(fd, b" ".as_ptr(), 1);
        }
        write(fd, b"\n".as_ptr(), 1);
        write(fd, why.as_ptr(), why.len());
    }
    let l = std::ptr::addr_of!(VIOLATION_LINE) as *const u8;
    write(1, l, zlen(l));
}
extern "C" fn on_crash(_sig: i32) {
    unsafe {
        let tid = TID.with(|t| t.get());
        if tid >= MAXT {
            let m = b"MACHINERY: crash outside a worker\n";
            write(2, m.as_ptr(), m.len());
            _exit(3);
        }
        dump_crumb(tid, b"process crash (abort, stack overflow or refused allocation)\n");
        _exit(1)
    }
}
/// Arranges that a crash of the process while exploring is reported as a violation.
pub fn install(property: &str, replay_path: &str) {
    unsafe {
        let line = format!("VIOLATION property={property} replay={replay_path}\n");
        for (i, b) in replay_path.bytes().chain([0]).enumerate() {
            *(std::ptr::addr_of_mut!(REPLAY_PATH) as *mut u8).add(i) = b;
        }
        for (i, b) in line.bytes().chain([0]).enumerate() {
            *(std::ptr::addr_of_mut!(VIOLATION_LINE) as *mut u8).add(i) = b;
        }
        signal(6, on_crash as *const () as usize);
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                let f = f.split_once("/registry/src/").and_then(|x| x.1.split_once('/')).map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let stored = CTX.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.last_panic = Some((loc.clone(), msg.clone()));
                true
            } else {
                false
            }
        });
        if !stored || std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

// ---------------------------------------------------------------- explorer
struct Pool {
    tasks: Mutex<(Vec<Vec<u32>>, usize)>, // queue, number of idle workers
    cv: Condvar,
}
fn run_once(sp: &Space, prefix: Vec<u32>) -> (Vec<(u32, u32)>, Option<Fail>) {
    let tid = TID.with(|t| t.get());
    if tid < MAXT {
        let c = &CRUMBS[tid];
        for (i, v) in prefix.iter().take(MAXC).enumerate() {
            c.c[i].store(*v as u64, Ordering::Relaxed);
        }
        c.n.store(prefix.len(), Ordering::Relaxed);
        c.started_ms.store(now_ms(), Ordering::SeqCst);
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.prefix = prefix;
        c.trail.clear();
        c.dev_left = sp.deviations;
        c.last_panic = None;
    });
    let r = match catch_unwind(AssertUnwindSafe(|| (sp.run)())) {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => {
            let (loc, msg) = CTX.with(|c| c.borrow_mut().last_panic.take()).unwrap_or_default();
            Some(Fail { key: format!("panic@{loc}"), msg: format!("panic at {loc}: {msg}") })
        }
    };
    if tid < MAXT {
        CRUMBS[tid].started_ms.store(0, Ordering::SeqCst);
    }
    let trail = CTX.with(|c| std::mem::take(&mut c.borrow_mut().trail));
    (trail, r)
}
fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Explores every execution of `sp`. `known` classifies a failure as a listed finding.
pub fn explore(
    sp: &Space,
    deadline: Instant,
    known: &(dyn Fn(&Fail) -> bool + Sync),
    known_hits: &Mutex<BTreeMap<String, (u64, Violation)>>,
) -> (SpaceReport, Option<Violation>) {
    let t0 = Instant::now();
    *CUR_SPACE.lock().unwrap() = sp.name.to_string();
    unsafe {
        for (i, b) in sp.name.bytes().chain([0]).enumerate().take(127) {
            *(std::ptr::addr_of_mut!(SPACE_BYTES) as *mut u8).add(i) = b;
        }
    }
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let pool = Pool { tasks: Mutex::new((vec![vec![]], 0)), cv: Condvar::new() };
    let stop = AtomicBool::new(false);
    let timeout = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let edges = AtomicU64::new(0);
    let depth = AtomicUsize::new(0);
    let hungry = AtomicUsize::new(nthreads);
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let merged: Mutex<(HashSet<u64>, BTreeMap<&'static str, u64>, Vec<String>)> = Mutex::default();
    std::thread::scope(|s| {
        // watchdog: an execution that does not terminate is a violation
        let (done, stop) = (&done, &stop);
        s.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(25));
                let now = now_ms();
                for t in 0..nthreads {
                    let st = CRUMBS[t].started_ms.load(Ordering::SeqCst);
                    if st != 0 && now.saturating_sub(st) > 90_000 {
                        unsafe {
                            dump_crumb(t, b"execution did not terminate within 90 s\n");
                            _exit(1)
                        }
                    }
                }
            }
        });
        let mut hs = vec![];
        for tid in 0..nthreads {
            let (pool, timeout, execs, edges, depth, hungry, viol, merged) =
                (&pool, &timeout, &execs, &edges, &depth, &hungry, &viol, &merged);
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    TID.with(|t| t.set(tid));
                    CTX.with(|c| *c.borrow_mut() = Ctx::default());
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut nexec = 0u64;
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let task = match local.pop() {
                            Some(t) => t,
                            None => {
                                let mut g = pool.tasks.lock().unwrap();
                                g.1 += 1;
                                hungry.store(g.1, Ordering::Relaxed);
                                loop {
                                    if let Some(t) = g.0.pop() {
                                        g.1 -= 1;
                                        hungry.store(g.1, Ordering::Relaxed);
                                        break t;
                                    }
                                    if g.1 == nthreads || stop.load(Ordering::Relaxed) {
                                        stop.store(true, Ordering::Relaxed);
                                        pool.cv.notify_all();
                                        drop(g);
                                        break vec![u32::MAX];
                                    }
                                    g = pool.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                                }
                            }
                        };
                        if task == [u32::MAX] {
                            break;
                        }
                        let p = task.len();
                        // spread the written-out samples over the run
                        if nexec == 0 || (nexec.is_power_of_two() && nexec > 64) {
                            CTX.with(|c| c.borrow_mut().sample_now = true);
                        }
                        nexec += 1;
                        let (trail, r) = run_once(sp, task);
                        execs.fetch_add(1, Ordering::Relaxed);
                        depth.fetch_max(trail.len(), Ordering::Relaxed);
                        edges.fetch_add((trail.len() - p) as u64 + (p > 0) as u64, Ordering::Relaxed);
                        if let Some(f) = r {
                            let v = Violation {
                                space: sp.name.into(),
                                choices: trail.iter().map(|x| x.0).collect(),
                                key: f.key.clone(),
                                msg: f.msg.clone(),
                            };
                            if known(&f) {
                                let mut k = known_hits.lock().unwrap();
                                k.entry(f.key.clone()).or_insert((0, v)).0 += 1;
                            } else {
                                let mut g = viol.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(v);
                                }
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                        // last alternative first so that the order is lexicographic
                        for i in p..trail.len() {
                            for alt in (1..trail[i].1).rev() {
                                let mut t: Vec<u32> = trail[..i].iter().map(|x| x.0).collect();
                                t.push(alt);
                                local.push(t);
                            }
                        }
                        if hungry.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                            let k = (local.len() / 2).min(4096);
                            let give: Vec<_> = local.drain(..k).collect();
                            let mut g = pool.tasks.lock().unwrap();
                            g.0.extend(give);
                            pool.cv.notify_all();
                        }
                        if nexec % 64 == 0 && Instant::now() > deadline {
                            timeout.store(true, Ordering::SeqCst);
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    CTX.with(|c| {
                        let mut c = c.borrow_mut();
                        let mut m = merged.lock().unwrap();
                        m.0.extend(c.states.drain());
                        for (k, v) in std::mem::take(&mut c.tallies) {
                            *m.1.entry(k).or_default() += v;
                        }
                        m.2.append(&mut c.samples);
                    });
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let (states, tallies, mut samples) = merged.into_inner().unwrap();
    samples.sort();
    samples.dedup();
    if samples.len() > 4 {
        // keep a spread
        let n = samples.len();
        samples = (0..4).map(|i| samples[i * (n - 1) / 3].clone()).collect();
    }
    let v = viol.into_inner().unwrap();
    let rep = SpaceReport {
        name: sp.name.into(),
        executions: execs.into_inner(),
        transitions: edges.into_inner(),
        states: states.len() as u64,
        exhaustive: v.is_none() && !timeout.into_inner(),
        tallies,
        samples,
        max_depth: depth.into_inner(),
        wall: t0.elapsed().as_secs_f64(),
    };
    (rep, v)
}

/// Re-executes one recorded execution.
pub fn replay(sp: &Space, choices: Vec<u32>) -> Option<Fail> {
    run_once(sp, choices).1
}
