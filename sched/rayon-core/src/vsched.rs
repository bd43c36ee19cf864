//! Verification hook: on threads that belong to a schedule explorer, `join` is executed by the
//! explorer's controlled work-stealing runtime.  All other threads use the ordinary runtime.
use std::cell::Cell;

/// A controlled runtime.
pub trait Hook: Sync {
    /// Executes both closures exactly once; the flag tells a closure that it runs on another worker
    /// than the one that called `join` (or that `join` was called from outside the pool).
    fn join(&self, a: &mut dyn FnMut(bool), b: &mut dyn FnMut(bool));
    /// number of worker threads of the controlled pool
    fn num_threads(&self) -> usize;
    /// index of the calling worker
    fn thread_index(&self) -> Option<usize>;
}

thread_local! {
    static HOOK: Cell<Option<&'static dyn Hook>> = const { Cell::new(None) };
}

/// the runtime controlling this thread
pub fn hook() -> Option<&'static dyn Hook> {
    HOOK.with(|h| h.get())
}

/// puts the calling thread under control
pub fn set_hook(h: Option<&'static dyn Hook>) {
    HOOK.with(|c| c.set(h))
}
