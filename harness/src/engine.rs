//! Exhaustive exploration engine.
//!
//! A property explorer enumerates its bounded state space as numbered *tasks* (run on all cores)
//! each made of numbered *cases*.  A case puts the implementation into one state, executes one or
//! more transitions (calls into the crate under test, through `T::imp`) and compares the successor
//! with the reference model.  Panics, hangs and crashes of the code under test are attributed to
//! the case that was in flight.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Viol {
    pub key: String,
    pub what: String,
    pub got: String,
}

const BITS: u64 = 1 << 30; // bitstate table: 2^30 bits = 128 MiB

pub struct Engine {
    pub prop: String,
    pub tier: Tier,
    pub threads: usize,
    pub only: Option<String>,
    report: String,
    start: Instant,
    cases: AtomicU64,
    transitions: AtomicU64,
    validated: AtomicU64,
    states: AtomicU64,
    table: Vec<AtomicU64>,
    stop: AtomicBool,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicU64,
    groups: Mutex<BTreeMap<String, (String, u64)>>,
    samples: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>,
    nknown: AtomicU64,
    hang_secs: u64,
    ngroup: AtomicUsize,
    shared: Option<usize>,
    finished: AtomicBool,
}

struct Slot {
    active: AtomicU64, // millis since start + 1, 0 = idle
    task: AtomicU64,
    case: AtomicU64,
    group: Mutex<String>,
    desc: Mutex<String>,
}

static SLOTS: [Slot; 64] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const S: Slot = Slot {
        active: AtomicU64::new(0),
        task: AtomicU64::new(0),
        case: AtomicU64::new(0),
        group: Mutex::new(String::new()),
        desc: Mutex::new(String::new()),
    };
    [S; 64]
};

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(63) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// index of the worker thread (63 outside the exploration)
pub fn slot_index() -> usize {
    SLOT.try_with(|s| s.get()).unwrap_or(63)
}

static CRASH_FD: AtomicUsize = AtomicUsize::new(0);

extern "C" fn crash_handler(sig: libc::c_int) {
    // async-signal-safe: format by hand
    let i = SLOT.try_with(|s| s.get()).unwrap_or(63);
    let s = &SLOTS[i];
    let mut buf = [0u8; 512];
    let mut n = 0usize;
    let mut put = |b: &[u8]| {
        for &c in b {
            if n < 510 {
                buf[n] = c;
                n += 1;
            }
        }
    };
    put(b"CRASH sig=");
    put(num(sig as u64, &mut [0u8; 20]));
    put(b" slot=");
    put(num(i as u64, &mut [0u8; 20]));
    put(b" task=");
    put(num(s.task.load(Relaxed), &mut [0u8; 20]));
    put(b" case=");
    put(num(s.case.load(Relaxed), &mut [0u8; 20]));
    put(b" group=");
    if let Ok(g) = s.group.try_lock() {
        put(g.as_bytes());
    }
    put(b" desc=");
    if let Ok(g) = s.desc.try_lock() {
        put(&g.as_bytes()[..g.len().min(300)]);
    }
    put(b"\n");
    unsafe {
        libc::write(2, buf.as_ptr() as *const _, n);
        let fd = CRASH_FD.load(Relaxed);
        if fd != 0 {
            libc::write(fd as i32, buf.as_ptr() as *const _, n);
        }
        libc::_exit(77);
    }
}

fn num(mut v: u64, b: &mut [u8; 20]) -> &[u8] {
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    &b[i..]
}

fn install_alt_stack() {
    unsafe {
        let sz = 1 << 16;
        let p = libc::mmap(
            std::ptr::null_mut(),
            sz,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}

fn install_crash_handlers() {
    install_alt_stack();
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = crash_handler as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0x9E37_79B9_7F4A_7C15 ^ (b.len() as u64).wrapping_mul(0xA24B_AED4_963E_E407);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        h = (h ^ v).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
        h ^= h >> 32;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0xC4CE_B9FE_1A85_EC53);
        h ^= h >> 29;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xFF51_AFD7_ED55_8CCD);
    h ^ (h >> 33)
}

pub struct T<'a> {
    pub eng: &'a Engine,
    pub group: String,
    pub task: u64,
    pub case: u64,
    transitions: u64,
    validated: u64,
    cases: u64,
}

impl Engine {
    pub fn new(prop: &str) -> Engine {
        let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        };
        let args: Vec<String> = std::env::args().collect();
        let report = args.get(1).cloned().unwrap_or_else(|| "/dev/stdout".into());
        let crash = format!("{}.crash", report);
        if report != "/dev/stdout" {
            let c = std::ffi::CString::new(crash).unwrap();
            let fd = unsafe { libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644) };
            if fd > 0 {
                CRASH_FD.store(fd as usize, Relaxed);
            }
        }
        install_crash_handlers();
        unsafe {
            let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
        }
        std::panic::set_hook(Box::new(|info| crate::guard::guarded(crate::guard::Mode::Off, || {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let m = format!("panic at {}: {}", loc, msg);
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = m);
        })));
        let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
        });
        let mut table = Vec::new();
        table.resize_with((BITS / 64) as usize, || AtomicU64::new(0));
        Engine {
            prop: prop.to_string(),
            tier,
            threads: threads.min(32),
            only: std::env::var("VH_ONLY").ok().filter(|s| !s.is_empty()),
            report,
            start: Instant::now(),
            cases: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            states: AtomicU64::new(0),
            table,
            stop: AtomicBool::new(false),
            viols: Mutex::new(Vec::new()),
            nviol: AtomicU64::new(0),
            groups: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            extra: Mutex::new(BTreeMap::new()),
            known: std::env::var("VH_KNOWN")
                .unwrap_or_default()
                .split('\u{1e}')
                .filter_map(|s| s.split_once('\u{1f}').map(|(a, b)| (a.to_string(), b.to_string())))
                .collect(),
            nknown: AtomicU64::new(0),
            ngroup: AtomicUsize::new(0),
            shared: std::env::var("VH_COUNTER").ok().and_then(|p| unsafe {
                let c = std::ffi::CString::new(p).ok()?;
                let fd = libc::open(c.as_ptr(), libc::O_RDWR);
                if fd < 0 {
                    return None;
                }
                let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
                if m == libc::MAP_FAILED { None } else { Some(m as usize) }
            }),
            hang_secs: std::env::var("VH_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(150),
            finished: AtomicBool::new(false),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick / thorough bound
    pub fn b<V>(&self, q: V, t: V) -> V {
        if self.thorough() { t } else { q }
    }

    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.into(), v.to_string());
    }

    /// Records a visited state (fingerprint) in the bitstate table; true if it was new.
    pub fn visit(&self, h: u64) -> bool {
        let bit = h & (BITS - 1);
        let m = 1u64 << (bit & 63);
        let w = &self.table[(bit >> 6) as usize];
        if w.load(Relaxed) & m != 0 {
            return false;
        }
        let new = w.fetch_or(m, Relaxed) & m == 0;
        if new {
            self.states.fetch_add(1, Relaxed);
        }
        new
    }

    pub fn violation(&self, key: String, what: String, got: String) {
        // a recorded finding (see known_findings.json) is counted apart and never stops the search
        if self.known.iter().any(|(a, b)| what.contains(a) && got.contains(b)) {
            self.nknown.fetch_add(1, Relaxed);
            return;
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < 40 {
            self.viols.lock().unwrap().push(Viol { key, what, got });
        }
        if n >= 200 {
            self.stop.store(true, Relaxed);
        }
    }

    /// Exhaustively runs tasks 0..n of `group` on all cores.
    pub fn par<F>(&self, group: &str, bound: &str, n: usize, f: F)
    where
        F: Fn(&mut T, usize) + Sync,
    {
        if let Some(o) = &self.only {
            if o.split('#').next() != Some(group) {
                return;
            }
        }
        let only_task: Option<usize> =
            self.only.as_ref().and_then(|o| o.split('#').nth(1)).and_then(|s| s.parse().ok());
        let own = AtomicUsize::new(0);
        // one of several processes sharing the tasks through a counter in a common file
        let next: &AtomicUsize = match &self.shared {
            Some(p) => unsafe { &*((*p + 8 * self.ngroup.fetch_add(1, Relaxed)) as *const AtomicUsize) },
            None => &own,
        };
        let before = self.cases.load(Relaxed);
        let watch_stop = AtomicBool::new(false);
        let nt = self.threads.min(n.max(1));
        std::thread::scope(|sc| {
            let wd = sc.spawn(|| self.watchdog(&watch_stop, nt));
            let hs: Vec<_> = (0..nt)
                .map(|w| {
                    let f = &f;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            install_alt_stack();
                            SLOT.with(|s| s.set(w));
                            *SLOTS[w].group.lock().unwrap() = group.to_string();
                            loop {
                                let i = next.fetch_add(1, Relaxed);
                                if i >= n || self.stop.load(Relaxed) {
                                    break;
                                }
                                if let Some(o) = only_task {
                                    if o != i {
                                        continue;
                                    }
                                }
                                let mut t = T {
                                    eng: self,
                                    group: group.to_string(),
                                    task: i as u64,
                                    case: 0,
                                    transitions: 0,
                                    validated: 0,
                                    cases: 0,
                                };
                                SLOTS[w].task.store(i as u64, Relaxed);
                                SLOTS[w].case.store(0, Relaxed);
                                SLOTS[w].active.store(self.ms() + 1, Relaxed);
                                let r = catch_unwind(AssertUnwindSafe(|| f(&mut t, i)));
                                SLOTS[w].active.store(0, Relaxed);
                                if r.is_err() {
                                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                                    self.violation(
                                        format!("{}#{}#setup", group, i),
                                        "panic while enumerating the task".into(),
                                        m,
                                    );
                                }
                                t.flush();
                            }
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            watch_stop.store(true, Relaxed);
            let _ = wd.join();
        });
        let after = self.cases.load(Relaxed);
        let mut g = self.groups.lock().unwrap();
        let e = g.entry(group.to_string()).or_insert((bound.to_string(), 0));
        e.1 += after - before;
    }

    fn ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    fn watchdog(&self, stop: &AtomicBool, nt: usize) {
        while !stop.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(20));
            let now = self.ms();
            for s in SLOTS.iter().take(nt) {
                let a = s.active.load(Relaxed);
                if a != 0 && now + 1 > a + self.hang_secs * 1000 {
                    let g = s.group.lock().map(|g| g.clone()).unwrap_or_default();
                    let d = s.desc.lock().map(|g| g.clone()).unwrap_or_default();
                    let key = format!("{}#{}#{}", g, s.task.load(Relaxed), s.case.load(Relaxed));
                    self.violation(key, d, format!("no progress for {} s (hang / livelock)", self.hang_secs));
                    self.write_report("hang");
                    unsafe { libc::_exit(1) };
                }
            }
        }
    }

    fn write_report(&self, status: &str) {
        let mut o = String::from("{");
        o += &format!("\"property\":{},\"status\":{},", js(&self.prop), js(status));
        o += &format!(
            "\"cases\":{},\"transitions\":{},\"validated\":{},\"states\":{},\"nviol\":{},\"nknown\":{},\"wall\":{:.3},\"threads\":{},",
            self.cases.load(Relaxed),
            self.transitions.load(Relaxed),
            self.validated.load(Relaxed),
            self.states.load(Relaxed),
            self.nviol.load(Relaxed),
            self.nknown.load(Relaxed),
            self.start.elapsed().as_secs_f64(),
            self.threads
        );
        o += "\"groups\":{";
        if let Ok(g) = self.groups.try_lock() {
            let mut first = true;
            for (k, (b, n)) in g.iter() {
                if !first {
                    o.push(',');
                }
                first = false;
                o += &format!("{}:{{\"bound\":{},\"cases\":{}}}", js(k), js(b), n);
            }
        }
        o += "},\"extra\":{";
        if let Ok(g) = self.extra.try_lock() {
            let mut first = true;
            for (k, v) in g.iter() {
                if !first {
                    o.push(',');
                }
                first = false;
                o += &format!("{}:{}", js(k), js(v));
            }
        }
        o += "},\"samples\":[";
        if let Ok(g) = self.samples.try_lock() {
            o += &g.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        }
        o += "],\"violations\":[";
        if let Ok(g) = self.viols.try_lock() {
            o += &g
                .iter()
                .map(|v| format!("{{\"key\":{},\"what\":{},\"got\":{}}}", js(&v.key), js(&v.what), js(&v.got)))
                .collect::<Vec<_>>()
                .join(",");
        }
        o += "]}\n";
        if self.report == "/dev/stdout" {
            print!("{}", o);
        } else {
            let _ = std::fs::write(&self.report, o);
        }
    }

    /// Writes the report and exits 0 (no violation) or 1.
    pub fn finish(self) -> ! {
        self.finished.store(true, Relaxed);
        self.write_report("done");
        let c = if self.nviol.load(Relaxed) > 0 { 1 } else { 0 };
        std::process::exit(c)
    }
}

/// Runs `f`; a panic becomes its message.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("the call panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// Lets a helper thread of the first worker report crashes in its name.
pub fn adopt() {
    install_alt_stack();
    SLOT.with(|s| s.set(0));
}

impl<'a> T<'a> {
    /// accounts executions made inside a case
    pub fn count(&mut self, transitions: u64, validated: u64) {
        self.transitions += transitions;
        self.validated += validated;
    }

    /// a long case makes progress
    pub fn beat(&self) {
        SLOTS[SLOT.with(|s| s.get())].active.store(self.eng.ms() + 1, Relaxed);
    }

    fn flush(&mut self) {
        self.eng.cases.fetch_add(self.cases, Relaxed);
        self.eng.transitions.fetch_add(self.transitions, Relaxed);
        self.eng.validated.fetch_add(self.validated, Relaxed);
        self.cases = 0;
        self.transitions = 0;
        self.validated = 0;
    }

    /// One transition of the implementation: calls the crate under test. `Err` = it panicked.
    pub fn try_imp<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.transitions += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Ok(r),
            Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
        }
    }

    /// As `try_imp`, where a panic is a violation of the property.
    pub fn imp<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.try_imp(f).map_err(|e| format!("the call panicked: {}", e))
    }

    /// One case: `desc` describes the state and transition, `f` runs it and compares with the model.
    pub fn case<D, F>(&mut self, desc: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce(&mut Self) -> Result<(), String>,
    {
        let n = self.case;
        self.case += 1;
        if self.eng.stop.load(Relaxed) {
            return;
        }
        if let Some(o) = &self.eng.only {
            if let Some(c) = o.split('#').nth(2) {
                if c.parse::<u64>().map(|c| c != n).unwrap_or(false) {
                    return;
                }
            }
        }
        let si = SLOT.with(|s| s.get());
        let s = &SLOTS[si];
        s.case.store(n, Relaxed);
        s.active.store(self.eng.ms() + 1, Relaxed); // watchdog stamp
        if self.task == 0 && n < 2 {
            let mut g = self.eng.samples.lock().unwrap();
            if g.len() < 60 {
                g.push(format!("{}#{}#{}: {}", self.group, self.task, n, desc()));
            }
        }
        self.cases += 1;
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
        };
        match r {
            Ok(()) => self.validated += 1,
            Err(e) => {
                let key = format!("{}#{}#{}", self.group, self.task, n);
                let d = catch_unwind(AssertUnwindSafe(&desc)).unwrap_or_else(|_| "?".into());
                self.eng.violation(key, d, e);
            }
        }
        if self.cases >= 4096 {
            self.flush();
        }
    }

    /// Makes the description available to the crash/hang handler (for cases that may crash).
    pub fn announce(&self, d: &str) {
        let si = SLOT.with(|s| s.get());
        if let Ok(mut g) = SLOTS[si].desc.lock() {
            g.clear();
            g.push_str(d);
        }
        SLOTS[si].active.store(self.eng.ms() + 1, Relaxed);
    }

    /// Marks a state as visited by fingerprint.
    pub fn seen(&self, tag: u64, bytes: &[u8]) -> bool {
        self.eng.visit(hash_bytes(tag, bytes))
    }
    pub fn seen_f32(&self, tag: u64, v: &[f32]) -> bool {
        let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 4) };
        self.eng.visit(hash_bytes(tag, b))
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
