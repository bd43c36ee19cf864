//! Controlled runtime: executes a set of caller strands and worker strands of a work-stealing pool
//! with exactly one of them running at any time.  Every scheduling decision is a numbered choice
//! point; a *plan* (list of deviations from the default choice) determines the execution.
//!
//! Choice points:
//!  * `Free`  - a strand cannot continue, finished a job, or made a job available (`join`): any
//!    runnable strand may go on, any waiting or idle worker may steal;
//!  * `Edge`  - a control-flow edge of instrumented code: the running strand may be preempted;
//!  * `Load`/`Store` - a memory access of instrumented code: the running strand may be preempted
//!    before it.
//! Blocking (std's Mutex, RwLock, Condvar, Once, park: all built on futex) is intercepted at the
//! futex call, so a blocked strand yields to the others and a state in which no strand can run is
//! reported as a deadlock.
#![allow(dangerous_implicit_autorefs)]
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Free,
    Edge,
    Load,
    Store,
    /// synchronisation of the pool itself (only in the log): a job is made available or finished /
    /// is taken or seen finished
    Rel,
    Acq,
    /// fresh heap memory (only in the log)
    Alloc,
}

/// one logged choice point
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub step: u64,
    pub kind: Kind,
    /// number of alternatives besides the default
    pub alt: u8,
    pub strand: u8,
    pub addr: usize,
    pub size: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// caller waiting for an injected job
    Job(*const Job),
    /// worker waiting in join for a stolen job; may steal meanwhile
    Wait(*const Job),
    Idle,
    Futex(usize, bool),
    Finished,
}

pub struct Job {
    f: *mut dyn FnMut(bool),
    done: bool,
}

struct Strand {
    go: AtomicU32,
    st: St,
    woken: bool,
    worker: Option<usize>,
    ran: bool,
    body: Option<*mut dyn FnMut()>,
}

pub struct Slot {
    strands: Vec<Strand>,
    nc: usize,
    threads: usize,
    high: bool,
    step: u64,
    next: u64,
    plan: Vec<(u64, u8)>,
    pi: usize,
    trace: u8,
    policy: u8,
    log: Vec<Pt>,
    busy: bool,
    cur: usize,
    deques: Vec<VecDeque<*mut Job>>,
    injector: VecDeque<*mut Job>,
    done: AtomicU32,
    dead: Option<&'static str>,
    last_switch: u64,
    pub switches: u64,
    pub steals: u64,
    pub joins: u64,
    sched: u64,
    max_steps: u64,
}

/// a strand that runs this many steps without a switch is taken to be spinning: another one goes on
const SPIN: u64 = 3_000_000;

thread_local! {
    static CUR: Cell<*mut Slot> = const { Cell::new(std::ptr::null_mut()) };
    static ME: Cell<usize> = const { Cell::new(0) };
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn fwait(w: &AtomicU32) {
    while w.load(Acquire) == 0 {
        unsafe { raw(libc::SYS_futex, w as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0) };
    }
    w.store(0, Relaxed);
}
fn fwake(w: &AtomicU32) {
    w.store(1, Release);
    unsafe { raw(libc::SYS_futex, w as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0) };
}

impl Slot {
    fn jobs_for(&self, i: usize) -> bool {
        !self.injector.is_empty() || self.deques.iter().enumerate().any(|(w, d)| !d.is_empty() && self.strands[i].worker != Some(w)) || self.strands[i].worker.map(|w| !self.deques[w].is_empty()).unwrap_or(false)
    }
    unsafe fn runnable(&self, i: usize) -> bool {
        match self.strands[i].st {
            St::Ready => true,
            St::Job(j) => (*j).done,
            St::Wait(j) => (*j).done || self.jobs_for(i),
            St::Idle => self.jobs_for(i),
            St::Futex(..) => self.strands[i].woken,
            St::Finished => false,
        }
    }
    /// runnable strands other than the running one, idle workers that never ran being symmetric
    unsafe fn others(&self) -> ([u8; 16], usize) {
        let mut v = [0u8; 16];
        let mut n = 0;
        let mut fresh = false;
        for i in 0..self.strands.len() {
            if i == self.cur || !self.runnable(i) {
                continue;
            }
            if self.strands[i].st == St::Idle && !self.strands[i].ran {
                if fresh {
                    continue;
                }
                fresh = true;
            }
            v[n] = i as u8;
            n += 1;
        }
        (v, n)
    }
    fn planned(&mut self) -> usize {
        let mut o = 0;
        while self.pi < self.plan.len() && self.plan[self.pi].0 <= self.step {
            if self.plan[self.pi].0 == self.step {
                o = self.plan[self.pi].1 as usize;
            }
            self.pi += 1;
        }
        self.arm();
        o
    }
    /// the planned or else the default choice among `total` at a free choice point
    fn pick(&mut self, total: usize) -> usize {
        let o = self.planned();
        if o > 0 {
            return o % total;
        }
        match self.policy {
            0 => 0,
            1 => total - 1,
            2 => 1 % total,
            3 => (self.step as usize) % total,
            _ => (self.step as usize / 7 + self.switches as usize) % total,
        }
    }
    fn arm(&mut self) {
        let d = if self.pi < self.plan.len() { self.plan[self.pi].0 } else { u64::MAX };
        self.next = if self.trace >= 2 { 0 } else { d.min(self.last_switch + SPIN).min(self.max_steps) };
    }
    fn push(&mut self, p: Pt) {
        self.busy = true;
        self.log.push(p);
        self.busy = false;
    }
    fn note(&mut self, kind: Kind, alt: usize, addr: usize) {
        if (alt > 0 || kind == Kind::Load || kind == Kind::Store) && (self.trace >= 2 || (self.trace == 1 && kind == Kind::Free)) {
            self.push(Pt { step: self.step, kind, alt: alt.min(255) as u8, strand: self.cur as u8, addr, size: 0 });
        }
    }
}

/// logs a synchronisation of strand `me` on job `j`
unsafe fn sync(s: *mut Slot, me: usize, kind: Kind, j: *const Job) {
    if (*s).trace >= 2 {
        let step = (*s).step;
        (*s).push(Pt { step, kind, alt: 0, strand: me as u8, addr: j as usize, size: 0 });
    }
}

/// hands the processor to strand `to` and waits to get it back
unsafe fn switch(s: *mut Slot, to: usize) {
    let me = ME.with(|m| m.get());
    if to == me {
        return;
    }
    (*s).cur = to;
    (*s).switches += 1;
    (*s).last_switch = (*s).step;
    (*s).sched = ((*s).sched ^ (*s).step.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ to as u64).wrapping_mul(0xFF51_AFD7_ED55_8CCD).rotate_left(23);
    (*s).arm();
    (*s).strands[to].ran = true;
    fwake(&(*s).strands[to].go);
    fwait(&(*s).strands[me].go);
}

unsafe fn stop(s: *mut Slot, why: &'static str) -> ! {
    (*s).dead = Some(why);
    fwake(&(*s).done);
    let never = AtomicU32::new(0);
    loop {
        fwait(&never);
    }
}

/// a free choice: the running strand (if `stay`) or any other runnable strand goes on
unsafe fn free(s: *mut Slot, stay: bool) {
    (*s).step += 1;
    let me = (*s).cur;
    let stay = stay || ((*s).strands[me].st != St::Finished && (*s).runnable(me));
    let (o, n) = (*s).others();
    let total = n + stay as usize;
    if total == 0 {
        if (*s).strands[..(*s).nc].iter().all(|x| x.st == St::Finished) {
            (*s).planned();
            fwake(&(*s).done);
            return;
        }
        // sleeping with a timeout: time passes
        for i in 0..(*s).strands.len() {
            if let St::Futex(_, true) = (*s).strands[i].st {
                (*s).strands[i].woken = true;
                if i != me {
                    switch(s, i);
                }
                return;
            }
        }
        stop(s, "deadlock: no thread can make progress");
    }
    let k = (*s).pick(total);
    (*s).note(Kind::Free, total - 1, 0);
    if stay {
        if k > 0 {
            switch(s, o[k - 1] as usize);
        }
    } else {
        switch(s, o[k] as usize);
    }
}

#[cold]
#[inline(never)]
unsafe fn slow(s: *mut Slot, kind: Kind, addr: usize) {
    if (*s).step >= (*s).max_steps {
        stop(s, "no termination within the step bound");
    }
    let (o, n) = (*s).others();
    if (*s).step >= (*s).last_switch + SPIN {
        (*s).last_switch = (*s).step;
        (*s).arm();
        if n > 0 {
            let me = (*s).cur;
            let to = o[..n].iter().copied().find(|&x| x as usize > me).unwrap_or(o[0]);
            switch(s, to as usize);
            return;
        }
    }
    let want = (*s).planned();
    (*s).note(kind, n, addr);
    if want > 0 && n > 0 {
        let to = o[(want - 1) % n] as usize;
        switch(s, to);
    }
}

#[inline(always)]
fn event(kind: Kind, addr: usize) {
    let s = CUR.with(|c| c.get());
    if s.is_null() {
        return;
    }
    unsafe {
        (*s).step += 1;
        if (*s).step >= (*s).next {
            slow(s, kind, addr);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    event(Kind::Edge, 0)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
/// the system's allocator; memory handed out is logged, so that two strands that use the same piece
/// of memory one after the other are not taken to share it
struct Heap;
#[global_allocator]
static HEAP: Heap = Heap;
#[inline(always)]
fn fresh(p: *mut u8, n: usize) -> *mut u8 {
    let s = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
    if !s.is_null() {
        unsafe {
            if (*s).trace >= 2 && !(*s).busy {
                let (step, strand) = ((*s).step, (*s).cur as u8);
                (*s).push(Pt { step, kind: Kind::Alloc, alt: 0, strand, addr: p as usize, size: n.min(u32::MAX as usize) as u32 });
            }
        }
    }
    p
}
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        fresh(std::alloc::System.alloc(l), l.size())
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        fresh(std::alloc::System.alloc_zeroed(l), l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, n);
        if q == p {
            if n > l.size() {
                fresh(q.wrapping_add(l.size()), n - l.size());
            }
            return q;
        }
        fresh(q, n)
    }
}

macro_rules! acc {
    ($($l:ident $s:ident),*) => { $(
        #[no_mangle] pub extern "C" fn $l(a: *mut u8) { event(Kind::Load, a as usize) }
        #[no_mangle] pub extern "C" fn $s(a: *mut u8) { event(Kind::Store, a as usize) }
    )* }
}
acc!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2, __sanitizer_cov_load4 __sanitizer_cov_store4,
     __sanitizer_cov_load8 __sanitizer_cov_store8, __sanitizer_cov_load16 __sanitizer_cov_store16);

/// atomic operations of instrumented code: a point of preemption before each, then the operation
macro_rules! atomics {
    ($($t:ty, $a:ident, $ld:ident $st:ident $xc:ident $ad:ident $su:ident $an:ident $na:ident $or:ident $xo:ident $cx:ident);*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $ld(p: *mut $t, _: i32) -> $t { event(Kind::Load, p as usize); (*(p as *const $a)).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $st(p: *mut $t, v: $t, _: i32) { event(Kind::Store, p as usize); (*(p as *const $a)).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xc(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $ad(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $su(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $an(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $na(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xo(p: *mut $t, v: $t, _: i32) -> $t { event(Kind::Store, p as usize); (*(p as *const $a)).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cx(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t { event(Kind::Store, p as usize); match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } }
    )* }
}
atomics!(
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_nand __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_nand __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_nand __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_nand __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_compare_exchange_val
);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}

/// std reaches the kernel's futex through libc's `syscall`; this definition takes its place
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let s = CUR.with(|c| c.get());
    if n == libc::SYS_futex && !s.is_null() {
        let op = b as i32 & 0x7f;
        let me = (*s).cur;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            (*s).strands[me].woken = false;
            (*s).strands[me].st = St::Futex(a, d != 0);
            let timed = d != 0;
            free(s, false);
            let x = &mut (*s).strands[me];
            x.st = St::Ready;
            if timed && x.woken && (*(a as *const AtomicU32)).load(SeqCst) == c as u32 {
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            let mut k = 0;
            for x in (*s).strands.iter_mut() {
                if k < c as i32 as i64 && matches!(x.st, St::Futex(y, _) if y == a) && !x.woken {
                    x.woken = true;
                    k += 1;
                }
            }
            let r = raw(n, a, b, c, d, e, f);
            return k + r.max(0);
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// std::thread::yield_now
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let s = CUR.with(|c| c.get());
    if s.is_null() {
        raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        return 0;
    }
    (*s).step += 1;
    let (o, n) = (*s).others();
    (*s).planned();
    if (*s).step >= (*s).max_steps {
        stop(s, "no termination within the step bound");
    }
    if n > 0 {
        let me = (*s).cur;
        let to = o[..n].iter().copied().find(|&x| x as usize > me).unwrap_or(o[0]);
        switch(s, to as usize);
    }
    0
}

// ---- the work-stealing pool

unsafe fn run_job(s: *mut Slot, me: usize, j: *mut Job, migrated: bool) {
    sync(s, me, Kind::Acq, j);
    (*(*j).f)(migrated);
    sync(s, me, Kind::Rel, j);
    (*j).done = true;
}

/// takes a job from the queues of others (oldest first) or from the injector
unsafe fn steal(s: *mut Slot, me: usize) -> Option<*mut Job> {
    let w = (*s).strands[me].worker.unwrap();
    let src: Vec<usize> = (0..(*s).deques.len()).filter(|&k| k != w && !(*s).deques[k].is_empty()).collect();
    let n = src.len() + !(*s).injector.is_empty() as usize;
    if n == 0 {
        return None;
    }
    (*s).step += 1;
    let k = (*s).pick(n);
    (*s).note(Kind::Free, n - 1, 0);
    (*s).steals += 1;
    if k < src.len() {
        (*s).deques[src[k]].pop_front()
    } else {
        (*s).injector.pop_front()
    }
}

#[cfg(feature = "parallel")]
struct H;
#[cfg(feature = "parallel")]
static HOOK: H = H;

#[cfg(feature = "parallel")]
unsafe fn join_on(s: *mut Slot, me: usize, a: &mut dyn FnMut(bool), b: &mut dyn FnMut(bool), injected: bool) {
    let w = (*s).strands[me].worker.unwrap();
    let mut job = Job { f: std::mem::transmute::<*mut (dyn FnMut(bool) + '_), *mut (dyn FnMut(bool) + 'static)>(b), done: false };
    let jp: *mut Job = &mut job;
    (*s).joins += 1;
    sync(s, me, Kind::Rel, jp);
    (*s).deques[w].push_back(jp);
    free(s, true);
    a(injected);
    // the second half may be stolen up to here
    free(s, true);
    loop {
        if (*jp).done {
            sync(s, me, Kind::Acq, jp);
            return;
        }
        if let Some(x) = (*s).deques[w].pop_back() {
            let own = x == jp;
            run_job(s, me, x, if own { injected } else { false });
            if own {
                return;
            }
            continue;
        }
        (*s).strands[me].st = St::Wait(jp);
        free(s, false);
        (*s).strands[me].st = St::Ready;
        if (*jp).done {
            sync(s, me, Kind::Acq, jp);
            return;
        }
        if let Some(x) = steal(s, me) {
            run_job(s, me, x, true);
        }
    }
}

#[cfg(feature = "parallel")]
impl rayon_core::vsched::Hook for H {
    fn join(&self, a: &mut dyn FnMut(bool), b: &mut dyn FnMut(bool)) {
        unsafe {
            let s = CUR.with(|c| c.get());
            let me = (*s).cur;
            if (*s).strands[me].worker.is_some() {
                return join_on(s, me, a, b, false);
            }
            let mut root = |_: bool| {
                let s = CUR.with(|c| c.get());
                join_on(s, (*s).cur, a, b, true)
            };
            let f: *mut (dyn FnMut(bool) + '_) = &mut root;
            let mut job = Job { f: std::mem::transmute::<*mut (dyn FnMut(bool) + '_), *mut (dyn FnMut(bool) + 'static)>(f), done: false };
            let jp: *mut Job = &mut job;
            sync(s, me, Kind::Rel, jp);
            (*s).injector.push_back(jp);
            (*s).strands[me].st = St::Job(jp);
            free(s, false);
            (*s).strands[me].st = St::Ready;
            sync(s, me, Kind::Acq, jp);
        }
    }
    fn num_threads(&self) -> usize {
        unsafe { (*CUR.with(|c| c.get())).threads }
    }
    fn thread_index(&self) -> Option<usize> {
        unsafe {
            let s = CUR.with(|c| c.get());
            // the strands stand for any of the pool's threads: the first ones or the last ones
            (*s).strands[(*s).cur].worker.map(|w| if (*s).high && w < (*s).threads { (*s).threads - 1 - w } else { w })
        }
    }
}

fn strand_main(s: *mut Slot, i: usize, init: fn()) {
    init();
    ME.with(|m| m.set(i));
    #[cfg(feature = "parallel")]
    rayon_core::vsched::set_hook(Some(&HOOK));
    unsafe {
        let worker = (*s).strands[i].worker.is_some();
        loop {
            fwait(&(*s).strands[i].go);
            if worker {
                // scheduled because there is work
                loop {
                    (*s).strands[i].st = St::Ready;
                    CUR.with(|c| c.set(s));
                    if let Some(j) = steal(s, i) {
                        run_job(s, i, j, true);
                    }
                    CUR.with(|c| c.set(std::ptr::null_mut()));
                    (*s).strands[i].st = St::Idle;
                    if !idle(s) {
                        break;
                    }
                }
            } else {
                CUR.with(|c| c.set(s));
                if let Some(b) = (*s).strands[i].body.take() {
                    (*b)();
                }
                CUR.with(|c| c.set(std::ptr::null_mut()));
                (*s).strands[i].st = St::Finished;
                idle(s);
            }
        }
    }
}

/// like `free` for a strand that returns to its top-level loop: it does not wait here and must not
/// touch the slot once another strand has been woken; true if it goes on itself
unsafe fn idle(s: *mut Slot) -> bool {
    (*s).step += 1;
    let me = (*s).cur;
    let stay = (*s).strands[me].st == St::Idle && (*s).runnable(me);
    let (o, n) = (*s).others();
    let total = n + stay as usize;
    if total == 0 {
        if (*s).strands[..(*s).nc].iter().all(|x| x.st == St::Finished) {
            (*s).cur = usize::MAX;
            fwake(&(*s).done);
            return false;
        }
        for i in 0..(*s).strands.len() {
            if let St::Futex(_, true) = (*s).strands[i].st {
                (*s).strands[i].woken = true;
                give(s, i);
                return false;
            }
        }
        stop(s, "deadlock: no thread can make progress");
    }
    let k = (*s).pick(total);
    (*s).note(Kind::Free, total - 1, 0);
    if stay {
        if k > 0 {
            give(s, o[k - 1] as usize);
            return false;
        }
        true
    } else {
        give(s, o[k] as usize);
        false
    }
}

unsafe fn give(s: *mut Slot, to: usize) {
    (*s).cur = to;
    (*s).switches += 1;
    (*s).last_switch = (*s).step;
    (*s).sched = ((*s).sched ^ (*s).step.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ to as u64).wrapping_mul(0xFF51_AFD7_ED55_8CCD).rotate_left(23);
    (*s).arm();
    (*s).strands[to].ran = true;
    fwake(&(*s).strands[to].go);
}

pub struct Outcome {
    pub steps: u64,
    pub dead: Option<&'static str>,
    pub log: Vec<Pt>,
    pub switches: u64,
    pub steals: u64,
    pub joins: u64,
    /// fingerprint of the schedule
    pub sched: u64,
}

pub struct Rt {
    s: *mut Slot,
    pub max_steps: u64,
    /// what an unplanned free choice does: 0 go on / first, 1 last, 2 second, 3 and 4 varying
    pub policy: u8,
    /// the strands are the last threads of the pool instead of the first
    pub high: bool,
    init: fn(),
}

// the slot is only touched by the strand that holds the token, or between runs
unsafe impl Send for Rt {}

impl Rt {
    /// `nc` callers and `nw` pool workers, each a thread of its own; `init` runs in each thread
    pub fn new(nc: usize, nw: usize, init: fn()) -> Rt {
        assert!(nc + nw <= 16);
        let s = Box::leak(Box::new(Slot {
            strands: (0..nc + nw)
                .map(|i| Strand { go: AtomicU32::new(0), st: St::Finished, woken: false, worker: if i < nc { None } else { Some(i - nc) }, ran: false, body: None })
                .collect(),
            nc,
            threads: nw.max(1),
            high: false,
            step: 0,
            next: u64::MAX,
            plan: vec![],
            pi: 0,
            trace: 0,
            policy: 0,
            log: vec![],
            busy: false,
            cur: usize::MAX,
            deques: vec![VecDeque::new(); nw],
            injector: VecDeque::new(),
            done: AtomicU32::new(0),
            dead: None,
            last_switch: 0,
            switches: 0,
            steals: 0,
            joins: 0,
            sched: 0,
            max_steps: u64::MAX,
        })) as *mut Slot;
        for i in 0..nc + nw {
            let p = s as usize;
            std::thread::Builder::new().stack_size(16 << 20).spawn(move || strand_main(p as *mut Slot, i, init)).expect("strand");
        }
        Rt { s, max_steps: 300_000_000, policy: 0, high: false, init }
    }

    /// executes the bodies under the plan; `trace`: 0 nothing, 1 free choices, 2 every choice point
    pub fn run(&mut self, plan: &[(u64, u8)], trace: u8, threads: usize, bodies: &mut [&mut dyn FnMut()]) -> Outcome {
        unsafe {
            let s = self.s;
            assert_eq!(bodies.len(), (*s).nc);
            for (i, x) in (*s).strands.iter_mut().enumerate() {
                x.ran = false;
                x.woken = false;
                x.st = if i < bodies.len() { St::Ready } else { St::Idle };
                x.body = if i < bodies.len() {
                    let b: *mut (dyn FnMut() + '_) = bodies[i];
                    Some(std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(b))
                } else {
                    None
                };
            }
            (*s).threads = threads;
            (*s).high = self.high;
            (*s).step = 0;
            (*s).plan = plan.to_vec();
            (*s).pi = 0;
            (*s).trace = trace;
            (*s).policy = self.policy;
            (*s).log = Vec::new();
            (*s).dead = None;
            (*s).last_switch = 0;
            (*s).switches = 0;
            (*s).steals = 0;
            (*s).joins = 0;
            (*s).sched = 0;
            (*s).max_steps = self.max_steps;
            (*s).cur = usize::MAX;
            (*s).arm();
            // which caller starts is the first free choice
            (*s).step = 1;
            let want = (*s).planned();
            let n = (*s).nc;
            if n > 1 && trace > 0 {
                (*s).log.push(Pt { step: 1, kind: Kind::Free, alt: (n - 1) as u8, strand: 0, addr: 0, size: 0 });
            }
            give(s, want % n);
            fwait(&(*s).done);
            let dead = (*s).dead;
            let r = Outcome { steps: (*s).step, dead, log: std::mem::take(&mut (*s).log), switches: (*s).switches, steals: (*s).steals, joins: (*s).joins, sched: (*s).sched };
            if dead.is_some() {
                // its threads are stuck for good: start afresh
                let (nc, nw) = ((*s).nc, (*s).strands.len() - (*s).nc);
                let (m, p, h) = (self.max_steps, self.policy, self.high);
                *self = Rt::new(nc, nw, self.init);
                self.max_steps = m;
                self.policy = p;
                self.high = h;
            }
            r
        }
    }
}

/// true on a thread executing a strand
pub fn controlled() -> bool {
    !CUR.with(|c| c.get()).is_null()
}

/// addresses with two accesses, one of them a write, that the pool's own synchronisation does not
/// order (vector clocks over the logged execution; other synchronisation is not taken into account,
/// so the set may be too large but not too small for the logged accesses)
pub fn conflicts(log: &[Pt]) -> std::collections::HashSet<usize> {
    use std::collections::{HashMap, HashSet};
    const N: usize = 16;
    type C = [u32; N];
    let join = |a: &mut C, b: &C| (0..N).for_each(|i| a[i] = a[i].max(b[i]));
    let mut clk: Vec<C> = (0..N).map(|i| { let mut c = [0; N]; c[i] = 1; c }).collect();
    let mut obj: HashMap<usize, C> = HashMap::new();
    // per granule: clock of the last write and last read of every strand
    let mut mem: HashMap<usize, (C, C)> = HashMap::new();
    let mut out = HashSet::new();
    for p in log {
        let t = p.strand as usize;
        match p.kind {
            Kind::Rel => {
                let c = clk[t];
                join(obj.entry(p.addr).or_insert([0; N]), &c);
                clk[t][t] += 1;
            }
            Kind::Acq => {
                if let Some(o) = obj.get(&p.addr) {
                    let o = *o;
                    join(&mut clk[t], &o);
                }
            }
            Kind::Alloc => {
                for g in p.addr >> 3..(p.addr + p.size as usize + 7) >> 3 {
                    mem.remove(&g);
                }
            }
            Kind::Load | Kind::Store => {
                let w = p.kind == Kind::Store;
                let m = mem.entry(p.addr >> 3).or_insert(([0; N], [0; N]));
                let c = &clk[t];
                for i in (0..N).filter(|&i| i != t) {
                    if m.0[i] > c[i] || (w && m.1[i] > c[i]) {
                        out.insert(p.addr >> 3);
                    }
                }
                if w {
                    m.0[t] = c[t];
                } else {
                    m.1[t] = c[t];
                }
            }
            _ => {}
        }
    }
    out
}
