//! Seams below the code under test, inside the simulator process: the
//! allocator, the source of hash seeds, and panics.

use crate::tape::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::Mutex;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(HUGE) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static RUNNING: Cell<bool> = const { Cell::new(false) };
    static HASH_DRAWS: Cell<u64> = const { Cell::new(0) };
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

static LAST: Mutex<String> = Mutex::new(String::new());

pub fn last_harness_panic() -> String {
    LAST.lock().map_or(String::new(), |l| l.clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let mut m = i.to_string().replace('\n', " ");
        if i.location().map_or(false, |l| !l.file().contains("/src/index.crates.io-") && l.file().contains("library/")) {
            m.push_str(&format!(" in {}", site()));
        }
        if let Ok(mut l) = LAST.lock() {
            *l = m.clone();
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = m);
    }));
}

/// No single request of a run may be larger than this.
const HUGE: usize = 64 << 20;

/// Where a run asked for too much memory at once.
pub static HUGE_SITE: Mutex<Option<(&'static str, String)>> = Mutex::new(None);

/// The innermost function that is not the standard library's or the simulator's.
fn site() -> String {
    // Nor does it count as the run's memory.
    let (live, peak, n) = (LIVE.with(|l| l.get()), PEAK.with(|l| l.get()), COUNT.with(|l| l.get()));
    let s = crate::conc::undisturbed(find_site);
    LIVE.with(|l| l.set(live));
    PEAK.with(|l| l.set(peak));
    COUNT.with(|l| l.set(n));
    s
}

fn find_site() -> String {
    // What is allocated here is ours.
    let busy = BUSY.try_with(|b| b.replace(true));
    let b = std::backtrace::Backtrace::force_capture().to_string();
    if let Ok(b) = busy {
        let _ = BUSY.try_with(|x| x.set(b));
    }
    for l in b.lines() {
        if let Some((n, f)) = l.trim().split_once(": ") {
            let f = f.trim_start_matches('<');
            if n.parse::<u32>().is_ok()
                && !["std::", "core::", "alloc::", "twsim::", "__", "rust_", "_"].iter().any(|p| f.starts_with(p))
            {
                return f.replace(&['<', '>'][..], "");
            }
        }
    }
    "an unknown place".into()
}

/// The run cannot go on, nor can it be unwound from here: stop its thread
/// for good and let the others know.
#[cold]
fn huge(size: usize) {
    if BUSY.try_with(|b| b.replace(true)).unwrap_or(true) {
        return;
    }
    if !RUNNING.try_with(|r| r.get()).unwrap_or(false) {
        let _ = BUSY.try_with(|b| b.set(false));
        return;
    }
    let _ = LIMIT.try_with(|l| l.set(usize::MAX));
    let s = format!("an allocation of {} bytes at once, requested by {}", size, site());
    give_up("C04", s)
}

/// Stop this thread for good, and let the others know why.
pub fn give_up(prop: &'static str, why: String) -> ! {
    crate::conc::undisturbed(|| {
        *HUGE_SITE.lock().unwrap() = Some((prop, why));
        loop {
            std::thread::sleep(std::time::Duration::from_secs(3600));
        }
    })
}

fn limit() -> usize {
    LIMIT.try_with(|l| l.get()).unwrap_or(HUGE)
}

/// Run `f` with a tighter limit on the size of single requests.
pub fn limited<T>(n: usize, f: impl FnOnce() -> T) -> T {
    let old = LIMIT.with(|l| l.replace(n));
    let r = f();
    LIMIT.with(|l| l.set(old));
    r
}

/// From here on this thread is a run.
pub fn running() {
    RUNNING.with(|r| r.set(true));
}

pub struct Alloc;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

fn count() {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    crate::conc::alloc_point();
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        if l.size() > limit() {
            huge(l.size());
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        if l.size() > limit() {
            huge(l.size());
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        if n > limit() {
            huge(n);
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Alloc = Alloc;

/// Run `f`; say how far the live heap of this thread grew meanwhile, and how
/// many allocations were made.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let n = COUNT.with(|c| c.get());
    let r = f();
    let peak = PEAK.with(|p| p.get()) - live;
    let n = COUNT.with(|c| c.get()) - n;
    (r, peak.max(0) as u64, n)
}

/// What this thread's hash maps are seeded from.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|h| h.set(s));
}

/// How often this thread asked for hash seeds.
pub fn hash_draws() -> u64 {
    HASH_DRAWS.with(|h| h.get())
}

/// The standard library seeds hash maps with this.
///
/// # Safety
/// As `getrandom(2)`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng(HASH_SEED.try_with(|h| h.get()).unwrap_or(0));
    crate::conc::yield_point();
    let _ = HASH_SEED.try_with(|h| h.set(h.get().wrapping_add(1)));
    let _ = HASH_DRAWS.try_with(|h| h.set(h.get() + 1));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}
