//! Supervision: scratch space, current-case slots, watchdog, panic capture, violations, evidence.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

// ---------------------------------------------------------------- scratch space

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
thread_local!(static TID: Cell<usize> = const { Cell::new(usize::MAX) });
static NEXT_TID: AtomicUsize = AtomicUsize::new(0);

pub fn tid() -> usize {
    TID.with(|t| {
        if t.get() == usize::MAX {
            t.set(NEXT_TID.fetch_add(1, SeqCst));
        }
        t.get()
    })
}

pub fn scratch_root() -> &'static PathBuf {
    SCRATCH.get_or_init(|| {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("rgmc-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
        let p = std::env::temp_dir().join(format!("rgmc-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        p
    })
}

/// A directory of this thread inside the scratch space.
pub fn scratch_dir() -> PathBuf {
    thread_local!(static D: RefCell<Option<PathBuf>> = const { RefCell::new(None) });
    D.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            let p = scratch_root().join(format!("t{}", tid()));
            std::fs::create_dir_all(&p).expect("scratch directory");
            *d = Some(p);
        }
        d.clone().unwrap()
    })
}

pub fn scratch_file(name: &str) -> PathBuf {
    scratch_dir().join(name)
}

pub fn cleanup() {
    if let Some(p) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(p);
    }
}

/// Call `f` with pairs of paths that must not get in each other's way: dots, blanks, case, non-ASCII and hidden names,
/// a name the other one starts with, equal names in two directories, and paths relative to the working directory.
/// Not to be used while other cases run, as it changes the working directory.
pub fn path_pairs(what: &str, f: &dyn Fn(&std::path::Path, &std::path::Path) -> Res) {
    let names = [
        ("g", "g.1"), ("g.1", "g"), ("g.1", "g.2"), ("a.b.c", "a.b.d"), ("a.bin", "a.csv"), ("x", "x_"), ("x_1", "x"), (".h", ".h2"), ("g.", "g"),
        ("\u{fc}ber", "uber"), ("a b", "a"), ("G", "g"), ("d1/g", "d2/g"), ("d.1/g", "d.2/g"), ("d.1/g.x", "d.1/g.y"), ("d1/../g", "d1/g"), ("-", "--"), ("0", "00"), ("a%20b", "a+b"), ("~", "$HOME"),
    ];
    for (a, b) in names {
        for relative in [false, true] {
            case(
                || format!("{} at {:?} and then at {:?}{}", what, a, b, if relative { ", relative paths" } else { "" }),
                || {
                    scratch_clear();
                    let d = scratch_dir();
                    for s in ["d1", "d2", "d.1", "d.2"] {
                        std::fs::create_dir_all(d.join(s)).expect("scratch");
                    }
                    if relative {
                        let back = std::env::current_dir().map_err(|e| e.to_string())?;
                        std::env::set_current_dir(&d).expect("scratch");
                        let r = guard(|| f(std::path::Path::new(a), std::path::Path::new(b)));
                        std::env::set_current_dir(&back).expect("working directory");
                        scratch_clear();
                        r.unwrap_or_else(|p| Err(panic_text(&p)))
                    } else {
                        let r = f(&d.join(a), &d.join(b));
                        scratch_clear();
                        r
                    }
                },
            );
        }
    }
}

/// Empty this thread's scratch directory.
pub fn scratch_clear() {
    let d = scratch_dir();
    if let Ok(rd) = std::fs::read_dir(&d) {
        for e in rd.flatten() {
            let p = e.path();
            let link = std::fs::symlink_metadata(&p).map(|m| m.file_type().is_dir()).unwrap_or(false);
            if link {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local!(static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) });

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} ({})", msg, loc)
            }
        });
    }));
}

/// Run `f`; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

// ---------------------------------------------------------------- global run state

pub struct Run {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    /// Wall-clock limit after which enumeration stops early (reported as not exhaustive).
    pub deadline: Instant,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub nontrivial: AtomicU64,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub samples: Mutex<Vec<String>>,
    pub parts: Mutex<Vec<(String, String)>>,
    pub bounds: Mutex<Vec<String>>,
    pub violation: Mutex<Option<(String, String)>>,
    pub known_hits: Mutex<BTreeMap<String, String>>,
    pub known: Vec<(String, String)>,
    pub only: Option<String>,
    pub only_hit: AtomicBool,
}

static RUN: OnceLock<Run> = OnceLock::new();

pub fn run() -> &'static Run {
    RUN.get().expect("run initialised")
}

pub fn init_run(property: &str, tier: &str, only: Option<String>) {
    let thorough = tier == "thorough";
    let secs: u64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 });
    let mut known = vec![];
    let kf = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    if let Ok(s) = std::fs::read_to_string(kf) {
        for l in s.lines() {
            // known: property=<id> key=<key> <text>
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut w = r.splitn(3, ' ');
                let p = w.next().unwrap_or("").to_string();
                let k = w.next().unwrap_or("").trim_start_matches("key=").to_string();
                if p == property {
                    known.push((k, w.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    let _ = RUN.set(Run {
        property: property.into(),
        tier: tier.into(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        start: Instant::now(),
        deadline: Instant::now() + Duration::from_secs(secs),
        evals: AtomicU64::new(0),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        validated: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        samples: Mutex::new(vec![]),
        parts: Mutex::new(vec![]),
        bounds: Mutex::new(vec![]),
        violation: Mutex::new(None),
        known_hits: Mutex::new(BTreeMap::new()),
        known,
        only,
        only_hit: AtomicBool::new(false),
    });
}

pub fn stopped() -> bool {
    let r = run();
    if r.stop.load(Relaxed) {
        return true;
    }
    if Instant::now() > r.deadline {
        r.capped.store(true, SeqCst);
        r.stop.store(true, SeqCst);
        return true;
    }
    false
}

pub fn thorough() -> bool {
    run().thorough
}

pub fn sample(f: impl FnOnce() -> String) {
    let mut s = run().samples.lock().unwrap();
    if s.len() < 12 {
        let t = f();
        s.push(t);
    }
}

pub fn part(name: &str, text: String) {
    run().parts.lock().unwrap().push((name.into(), text));
}

pub fn bound(text: impl Into<String>) {
    let t = text.into();
    let mut b = run().bounds.lock().unwrap();
    if !b.contains(&t) {
        b.push(t);
    }
}

// ---------------------------------------------------------------- current case, watchdog, crash handling

pub struct Slot {
    busy_since: AtomicU64, // ms since start + 1, 0 = idle
    crashed: AtomicI32,
    ex: AtomicBool,
    a: AtomicU64,
    b: AtomicU64,
    text: Mutex<String>,
}

const SLOTS: usize = 512;
static SLOT: [Slot; SLOTS] = [const {
    Slot {
        busy_since: AtomicU64::new(0),
        crashed: AtomicI32::new(0),
        ex: AtomicBool::new(false),
        a: AtomicU64::new(0),
        b: AtomicU64::new(0),
        text: Mutex::new(String::new()),
    }
}; SLOTS];

fn now_ms() -> u64 {
    run().start.elapsed().as_millis() as u64 + 1
}

fn slot() -> &'static Slot {
    &SLOT[tid() % SLOTS]
}

/// Resolves (parent, op) of an exploration case to the replay body.
pub type Resolver = dyn Fn(u64, u64) -> String + Send + Sync;
static RESOLVER: Mutex<Option<Arc<Resolver>>> = Mutex::new(None);

pub fn set_resolver(r: Option<Arc<Resolver>>) {
    *RESOLVER.lock().unwrap() = r;
}

pub fn enter_ex(a: u64, b: u64) {
    let s = slot();
    s.a.store(a, Relaxed);
    s.b.store(b, Relaxed);
    s.ex.store(true, Relaxed);
    s.busy_since.store(now_ms(), SeqCst);
}

pub fn leave() {
    slot().busy_since.store(0, SeqCst);
}

fn slot_case(s: &Slot) -> String {
    if s.ex.load(Relaxed) {
        let r = RESOLVER.lock().unwrap().clone();
        match r {
            Some(r) => r(s.a.load(Relaxed), s.b.load(Relaxed)),
            None => "case: unknown\n".into(),
        }
    } else {
        format!("case: {}\n", s.text.try_lock().map(|t| t.clone()).unwrap_or_else(|_| "unknown".into()))
    }
}

static HANG_MS: AtomicU64 = AtomicU64::new(60_000);
/// Set while huge inputs are worked on: being slow on these is no verdict, the run ends without one.
static HUGE: AtomicBool = AtomicBool::new(false);
const HUGE_MS: u64 = 240_000;
const TOTAL_MS: u64 = 860_000;

pub fn huge(on: bool) {
    HUGE.store(on, SeqCst);
}

pub fn set_hang_secs(s: u64) {
    HANG_MS.store(s * 1000, SeqCst);
}

pub fn start_watchdog() {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| loop {
            std::thread::sleep(Duration::from_millis(100));
            for s in SLOT.iter() {
                let sig = s.crashed.load(SeqCst);
                if sig != 0 {
                    let body = slot_case(s);
                    violation_now(&body, &format!("the process received signal {} ({})", sig, signame(sig)));
                }
                let t = s.busy_since.load(SeqCst);
                if HUGE.load(SeqCst) {
                    if t != 0 && (now_ms() > t + HUGE_MS || now_ms() > TOTAL_MS) {
                        let _g = REPORTING.lock().unwrap();
                        part("not finished", format!("{} (too slow, left without verdict)", slot_case(s).replace('\n', " ")));
                        run().capped.store(true, SeqCst);
                        finish();
                    }
                } else if t != 0 && now_ms() > t + HANG_MS.load(SeqCst) {
                    let body = slot_case(s);
                    violation_now(&body, &format!("the operation did not finish within {} s", HANG_MS.load(SeqCst) / 1000));
                }
            }
        })
        .unwrap();
}

fn signame(s: i32) -> &'static str {
    match s {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGABRT => "SIGABRT",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => "?",
    }
}

extern "C" fn on_signal(sig: i32) {
    // Only async-signal-safe work here: flag the slot of this thread and park; the watchdog reports.
    let t = TID.try_with(|t| t.get()).unwrap_or(usize::MAX);
    if t != usize::MAX && SLOT[t % SLOTS].busy_since.load(SeqCst) != 0 {
        SLOT[t % SLOTS].crashed.store(sig, SeqCst);
        loop {
            unsafe { libc::pause() };
        }
    }
    unsafe { libc::_exit(2) };
}

pub fn install_signals() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let zero = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &zero);
    }
}

// ---------------------------------------------------------------- violations

static REPORTING: Mutex<()> = Mutex::new(());

/// Record a violation; the first one stops the run.  Messages starting with `KNOWN[key] ` that are
/// listed in the known-findings file are noted and do not stop the run.
pub fn violate(body: &str, msg: &str) {
    let r = run();
    if let Some(rest) = msg.strip_prefix("KNOWN[") {
        if let Some((key, text)) = rest.split_once("] ") {
            if r.known.iter().any(|(k, _)| k == key) {
                r.known_hits.lock().unwrap().entry(key.into()).or_insert_with(|| text.to_string());
                return;
            }
        }
    }
    let mut v = r.violation.lock().unwrap();
    if v.is_none() {
        *v = Some((body.to_string(), msg.to_string()));
    }
    r.stop.store(true, SeqCst);
}

fn violation_now(body: &str, msg: &str) -> ! {
    let _g = REPORTING.lock().unwrap();
    violate(body, msg);
    finish();
}

pub fn fail_machinery(msg: &str) -> ! {
    println!("MACHINERY-ERROR {}", msg);
    eprintln!("machinery error: {}", msg);
    cleanup();
    unsafe { libc::_exit(2) };
}

/// One self-contained case of an enumeration: supervised, counted, filtered in replay mode.
pub fn case(text: impl FnOnce() -> String, f: impl FnOnce() -> Res) -> bool {
    let r = run();
    let s = slot();
    {
        let mut t = s.text.lock().unwrap();
        *t = text();
        if let Some(o) = &r.only {
            if *o != *t {
                return true;
            }
            r.only_hit.store(true, SeqCst);
        }
    }
    s.ex.store(false, Relaxed);
    s.busy_since.store(now_ms(), SeqCst);
    let n = r.evals.fetch_add(1, Relaxed);
    if n < 3 || (n < 100_000 && n.is_power_of_two() && n > 500) {
        sample(|| s.text.lock().unwrap().clone());
    }
    let out = match guard(f) {
        Ok(x) => x,
        Err(p) => Err(panic_text(&p)),
    };
    s.busy_since.store(0, SeqCst);
    if let Err(m) = out {
        let body = format!("case: {}\n", s.text.lock().unwrap());
        violate(&body, &m);
        return false;
    }
    true
}

pub fn panic_text(p: &str) -> String {
    format!("panicked: {}", p)
}

// ---------------------------------------------------------------- parallel loops

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

/// Run f(i) for all i in 0..n on all cores, in chunks.
pub fn par_for(n: usize, chunk: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let chunk = chunk.max(1);
    std::thread::scope(|sc| {
        for _ in 0..threads().min(n.div_ceil(chunk)).max(1) {
            sc.spawn(|| {
                slot_reset();
                loop {
                    if stopped() {
                        break;
                    }
                    let i = next.fetch_add(chunk, SeqCst);
                    if i >= n {
                        break;
                    }
                    for k in i..(i + chunk).min(n) {
                        if run().stop.load(Relaxed) {
                            break;
                        }
                        f(k);
                    }
                }
                // scratch of this thread is no longer needed
                let _ = std::fs::remove_dir_all(scratch_root().join(format!("t{}", tid())));
                tid_release();
            });
        }
    });
}

static FREE_TIDS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
fn slot_reset() {
    TID.with(|t| {
        if t.get() == usize::MAX {
            t.set(FREE_TIDS.lock().unwrap().pop().unwrap_or_else(|| NEXT_TID.fetch_add(1, SeqCst)));
        }
    });
    leave();
}
fn tid_release() {
    TID.with(|t| {
        FREE_TIDS.lock().unwrap().push(t.get());
    });
}

// ---------------------------------------------------------------- output

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

static META: OnceLock<Meta> = OnceLock::new();
pub fn set_meta(m: Meta) {
    let _ = META.set(m);
}

/// Write the evidence, print the verdict and end the process.
pub fn finish() -> ! {
    let r = run();
    let v = r.violation.lock().unwrap().clone();
    let meta = META.get();
    let level = meta.map_or("model_checking", |m| m.level);
    let wall = r.start.elapsed().as_secs_f64();
    let capped = r.capped.load(SeqCst);
    let mut c = String::new();
    let (st, tr, va, ev, nt) = (
        r.states.load(SeqCst),
        r.transitions.load(SeqCst),
        r.validated.load(SeqCst),
        r.evals.load(SeqCst),
        r.nontrivial.load(SeqCst),
    );
    if level == "model_checking" {
        let _ = write!(c, "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},", st, tr, va);
        if ev > 0 {
            let _ = write!(c, "\"cases\":{},", ev);
        }
    } else {
        let _ = write!(c, "\"evaluations\":{},\"distinct_nontrivial\":{},", ev, nt);
        if st > 0 {
            let _ = write!(c, "\"graph_states\":{},\"graph_transitions\":{},\"traces_replayed\":{},", st, tr, va);
        }
    }
    let _ = write!(c, "\"rule\":{},", jstr(meta.map_or("", |m| m.rule)));
    let _ = write!(c, "\"exhaustive\":{},", !capped && v.is_none());
    let list = |v: &Vec<String>| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let _ = write!(c, "\"bounds\":[{}],", list(&r.bounds.lock().unwrap()));
    let parts: Vec<String> =
        r.parts.lock().unwrap().iter().map(|(a, b)| format!("{{\"part\":{},\"covered\":{}}}", jstr(a), jstr(b))).collect();
    let _ = write!(c, "\"parts\":[{}],", parts.join(","));
    let _ = write!(c, "\"samples\":[{}]", list(&r.samples.lock().unwrap()));
    let assum: Vec<String> = meta.map_or(vec![], |m| m.assumptions.iter().map(|s| jstr(s)).collect());
    let kh = r.known_hits.lock().unwrap().clone();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"known_findings_seen\":{},\"violations\":{},\"wall_s\":{:.3}}}\n",
        jstr(&r.property), jstr(&r.tier), r.seed, jstr(level), c, assum.join(","), kh.len(), v.is_some() as u32, wall
    );
    if r.only.is_none() {
        let dir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, r.property), ev) {
            fail_machinery(&format!("cannot write evidence: {}", e));
        }
    }
    for (k, t) in &kh {
        let listed = r.known.iter().find(|(kk, _)| kk == k).map(|(_, t)| t.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} [seen: {}]", r.property, listed, t.replace('\n', " "));
    }
    let code = if let Some((body, msg)) = v {
        let dir = std::env::var("MC_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, r.property, r.tier);
        let text = format!(
            "# replay with: /verif/check.sh replay {}\nproperty: {}\ntier: {}\n{}failure: {}\n",
            path, r.property, r.tier, body, msg.replace('\n', "\n         ")
        );
        if r.only.is_none() {
            let _ = std::fs::write(&path, text);
        }
        println!("{}failure: {}", body, msg);
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!(
            "OK property={} tier={} states={} transitions={} cases={} validated={} exhaustive={} wall={:.1}s",
            r.property, r.tier, st, tr, r.evals.load(SeqCst), va, !capped, wall
        );
        for (a, b) in r.parts.lock().unwrap().iter() {
            println!("  {}: {}", a, b);
        }
        0
    };
    cleanup();
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) };
}

// ---------------------------------------------------------------- system-call interposition
//
// std and the library reach the operating system through these C symbols; defining them here puts the
// checker in control of hash seeds and of write failures.

thread_local!(pub static SEED_CTR: Cell<u64> = const { Cell::new(0) });

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let p = buf as *mut u8;
    for i in 0..len {
        *p.add(i) = (i as u8).wrapping_mul(31).wrapping_add(7);
    }
    len as libc::ssize_t
}

/// What the interposed write(2) does to the calls of this thread.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum WFault {
    /// Fail the n-th call (0-based) and later ones.
    From(usize),
    /// Fail only the n-th call.
    Once(usize),
    /// Accept only one byte in the n-th call.
    Short(usize),
    /// Interrupt the n-th call (EINTR).
    Intr(usize),
    /// The storage holds this many more bytes, then it is full.
    Budget(usize),
}

pub struct WCtl {
    pub fault: Option<WFault>,
    pub calls: usize,
}
thread_local!(pub static WCTL: Cell<Option<(Option<WFault>, usize, bool)>> = const { Cell::new(None) });

/// Start observing (and faulting) this thread's writes.
pub fn wctl_on(f: Option<WFault>) {
    WCTL.with(|w| w.set(Some((f, 0, false))));
}
/// Stop; returns (number of write calls seen, whether the fault fired).
pub fn wctl_off() -> (usize, bool) {
    WCTL.with(|w| w.replace(None)).map(|(_, n, f)| (n, f)).unwrap_or((0, false))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t) -> libc::ssize_t {
    let mut n = len;
    if fd > 2 {
        if let Ok(Some((Some(f), k, fired))) = WCTL.try_with(|w| w.get()) {
            let mut fire = false;
            let mut err = 0;
            match f {
                WFault::From(i) if k >= i => {
                    fire = true;
                    err = libc::ENOSPC
                }
                WFault::Once(i) if k == i => {
                    fire = true;
                    err = libc::ENOSPC
                }
                WFault::Short(i) if k == i => {
                    fire = true;
                    n = n.min(1)
                }
                WFault::Intr(i) if k == i => {
                    fire = true;
                    err = libc::EINTR
                }
                WFault::Budget(left) => {
                    if left < n {
                        fire = true;
                        n = left;
                        if left == 0 {
                            err = libc::ENOSPC
                        }
                    }
                    WCTL.with(|w| w.set(Some((Some(WFault::Budget(left - n.min(left))), k + 1, fired || fire))));
                }
                _ => {}
            }
            if !matches!(f, WFault::Budget(_)) {
                WCTL.with(|w| w.set(Some((Some(f), k + 1, fired || fire))));
            }
            if err != 0 {
                *libc::__errno_location() = err;
                return -1;
            }
        } else if let Ok(Some((None, k, fired))) = WCTL.try_with(|w| w.get()) {
            WCTL.with(|w| w.set(Some((None, k + 1, fired))));
        }
    }
    libc::syscall(libc::SYS_write, fd as libc::c_long, buf, n) as libc::ssize_t
}

// ---------------------------------------------------------------- pairs

/// All ordered pairs (i, j) of two lists of described items; `f` decides one pair.
pub fn pair_loop(name: &str, a: &[String], b: &[String], f: impl Fn(usize, usize) -> Res + Sync) {
    let r = run();
    let text = |i: usize, j: usize| format!("{} [{}] & [{}]", name, a[i], b[j]);
    let one = |i: usize, j: usize| -> bool {
        enter_ex(i as u64, j as u64);
        let out = match guard(|| f(i, j)) {
            Ok(x) => x,
            Err(p) => Err(panic_text(&p)),
        };
        leave();
        if let Err(m) = out {
            violate(&format!("case: {}\n", text(i, j)), &m);
            return false;
        }
        true
    };
    if let Some(o) = &r.only {
        let head = format!("{} [", name);
        if !o.starts_with(&head) {
            return;
        }
        for i in 0..a.len() {
            if o[head.len()..].starts_with(&a[i]) {
                for j in 0..b.len() {
                    if *o == text(i, j) {
                        r.only_hit.store(true, SeqCst);
                        one(i, j);
                    }
                }
            }
        }
        return;
    }
    {
        let (a, b, name) = (a.to_vec(), b.to_vec(), name.to_string());
        set_resolver(Some(Arc::new(move |i, j| format!("case: {} [{}] & [{}]\n", name, a[i as usize], b[j as usize]))));
    }
    let m = b.len();
    let done = AtomicU64::new(0);
    // blocks of a row, so that stopping is prompt and the load is even
    let blk = 512.min(m.max(1));
    let per_row = m.div_ceil(blk);
    par_for(a.len() * per_row, 4, |k| {
        let i = k / per_row;
        let lo = k % per_row * blk;
        let hi = (lo + blk).min(m);
        for j in lo..hi {
            if !one(i, j) {
                return;
            }
        }
        done.fetch_add((hi - lo) as u64, Relaxed);
    });
    set_resolver(None);
    let n = done.load(SeqCst);
    r.evals.fetch_add(n, SeqCst);
    r.transitions.fetch_add(n, SeqCst);
    if !a.is_empty() && m > 0 {
        sample(|| text(a.len() / 2, m / 3));
    }
    part(name, format!("{} x {} items, {} ordered pairs decided", a.len(), m, n));
}
