//! Every control-flow edge of twiggy's own crates calls in here (they are
//! compiled with a coverage pass by rustc-wrap.sh).

use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

const MAX: usize = 1 << 17;

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU8 = AtomicU8::new(0);
static HIT: [AtomicU8; MAX] = [ZERO; MAX];
thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// What `f` gives, and how many edges this thread took in it.
pub fn work<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let from = STEPS.with(|s| s.get());
    let r = f();
    (r, STEPS.with(|s| s.get()) - from)
}

static LAST: AtomicU32 = AtomicU32::new(0);

/// # Safety
/// Called by the instrumentation with the bounds of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = LAST.fetch_add(1, Relaxed) + 1;
        start = start.add(1);
    }
}

/// # Safety
/// Called by the instrumentation with one of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize;
    if g < MAX {
        HIT[g].store(1, Relaxed);
    }
    let _ = STEPS.try_with(|s| s.set(s.get() + 1));
    crate::conc::yield_point();
}

pub fn total() -> u64 {
    u64::from(LAST.load(Relaxed))
}

pub fn hit() -> Vec<u64> {
    (0..MAX).filter(|&i| HIT[i].load(Relaxed) != 0).map(|i| i as u64).collect()
}
