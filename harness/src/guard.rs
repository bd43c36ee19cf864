//! Guard-page allocator: in a guarded section every heap block of the current thread lies directly
//! against an inaccessible page (after it, or before it) and is filled with a marker pattern.  Any
//! access outside a block therefore faults, and is attributed to the case in flight by the crash
//! handler.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct Guard;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    /// inaccessible page directly behind the block
    After,
    /// inaccessible page directly before the block
    Before,
}

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0xA5) };
}
pub static GUARDED_BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static UNGUARDED_BLOCKS: AtomicUsize = AtomicUsize::new(0);

const PAGE: usize = 4096;
const CLASSES: [usize; 5] = [1, 2, 4, 16, 80]; // pages per block
const SLOTS: usize = 64; // blocks per class and thread
const THREADS: usize = 32;
const CLASS_OFF: [usize; 5] = [0, 2 * SLOTS, 5 * SLOTS, 10 * SLOTS, 27 * SLOTS]; // in pages, each block preceded by a guard page
const THREAD_PAGES: usize = 108 * SLOTS + 1;
const RANGE: usize = THREADS * THREAD_PAGES * PAGE;

static BASE: AtomicUsize = AtomicUsize::new(0);
static READY: [AtomicBool; THREADS] = [const { AtomicBool::new(false) }; THREADS];
static USED: [[AtomicU64; 5]; THREADS] = [const { [const { AtomicU64::new(0) }; 5] }; THREADS];

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            RANGE,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        BASE.store(p as usize, SeqCst);
    }
}

fn block(t: usize, class: usize, slot: usize) -> usize {
    BASE.load(Relaxed) + (t * THREAD_PAGES + CLASS_OFF[class] + slot * (CLASSES[class] + 1) + 1) * PAGE
}

fn prepare(t: usize) {
    for class in 0..5 {
        for s in 0..SLOTS {
            unsafe {
                libc::mprotect(block(t, class, s) as *mut _, CLASSES[class] * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            }
        }
    }
    READY[t].store(true, SeqCst);
}

/// Byte pattern that fresh blocks of this thread are filled with.
pub fn set_fill(b: u8) {
    FILL.with(|f| f.set(b));
}

/// Runs `f` with guarded allocation on this thread.
pub fn guarded<R>(m: Mode, f: impl FnOnce() -> R) -> R {
    struct Reset(u8);
    impl Drop for Reset {
        fn drop(&mut self) {
            MODE.with(|c| c.set(self.0));
        }
    }
    let old = MODE.with(|c| c.replace(m as u8));
    let _r = Reset(old);
    f()
}

fn ours(p: *mut u8) -> bool {
    let base = BASE.load(Relaxed);
    base != 0 && (p as usize) >= base && (p as usize) < base + RANGE
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = MODE.try_with(|c| c.get()).unwrap_or(0);
        if m == 0 || l.size() == 0 {
            return System.alloc(l);
        }
        let t = crate::engine::slot_index();
        let pages = (l.size() + PAGE - 1) / PAGE;
        let class = CLASSES.iter().position(|&k| k >= pages);
        if t >= THREADS || l.align() > 64 || BASE.load(Relaxed) == 0 || class.is_none() {
            UNGUARDED_BLOCKS.fetch_add(1, Relaxed);
            return System.alloc(l);
        }
        if !READY[t].load(Relaxed) {
            prepare(t);
        }
        let class = class.unwrap();
        let used = &USED[t][class];
        let slot = loop {
            let u = used.load(Relaxed);
            let s = (!u).trailing_zeros() as usize;
            if s >= SLOTS {
                UNGUARDED_BLOCKS.fetch_add(1, Relaxed);
                return System.alloc(l);
            }
            if used.compare_exchange(u, u | 1 << s, SeqCst, Relaxed).is_ok() {
                break s;
            }
        };
        GUARDED_BLOCKS.fetch_add(1, Relaxed);
        let start = block(t, class, slot);
        let end = start + CLASSES[class] * PAGE;
        let fill = FILL.try_with(|f| f.get()).unwrap_or(0);
        if m == Mode::After as u8 {
            std::ptr::write_bytes((end - pages * PAGE) as *mut u8, fill, pages * PAGE);
            ((end - l.size()) & !(l.align() - 1)) as *mut u8
        } else {
            std::ptr::write_bytes(start as *mut u8, fill, pages * PAGE);
            start as *mut u8
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ours(p) {
            let page = (p as usize - BASE.load(Relaxed)) / PAGE;
            let (t, r) = (page / THREAD_PAGES, page % THREAD_PAGES);
            let class = (0..5).rev().find(|&c| r >= CLASS_OFF[c]).unwrap_or(0);
            let slot = (r - CLASS_OFF[class]) / (CLASSES[class] + 1);
            USED[t][class].fetch_and(!(1 << slot), SeqCst);
            return;
        }
        System.dealloc(p, l)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let m = MODE.try_with(|c| c.get()).unwrap_or(0);
        if m == 0 {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = MODE.try_with(|c| c.get()).unwrap_or(0);
        if m == 0 && !ours(p) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// What a call did, observed from outside in a forked copy of this process: used for calls whose arguments may make
/// a correct implementation ask for more memory than there is (which aborts). Only before other threads exist.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fate {
    Returned,
    Panicked,
    Aborted,
}

pub fn forked(f: impl FnOnce()) -> Fate {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            libc::alarm(60);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 2);
            for s in [libc::SIGABRT, libc::SIGSEGV] {
                libc::signal(s, libc::SIG_DFL);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 10 } else { 11 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match (libc::WIFEXITED(st), libc::WEXITSTATUS(st)) {
            (true, 10) => Fate::Returned,
            (true, 11) => Fate::Panicked,
            _ => Fate::Aborted,
        }
    }
}
