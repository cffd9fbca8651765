//! Several sessions at the same time, each on a thread of its own. Only the
//! thread that holds the baton runs; where it is passed on, and to whom, comes
//! from the tape. Yield points are allocations, writes, draws of hash seeds,
//! waits for locks, and the edges of twiggy's own control flow.

use crate::props::Outcome;
use crate::sess::{self, Profile, Sess, ANY};
use crate::tape::{mix, Tape};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

const NOBODY: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static WAITING: Cell<bool> = const { Cell::new(false) };
}

static BUDGET: AtomicU64 = AtomicU64::new(0);
/// Consecutive yields of threads that wait for something.
static STUCK: AtomicU64 = AtomicU64::new(0);

struct State {
    current: usize,
    live: Vec<usize>,
    tape: *mut Tape,
    quantum: u64,
    switches: u64,
    waits: u64,
    order: u64,
    /// Few long runs instead of many short ones, once there were this many.
    cap: u64,
}

unsafe impl Send for State {}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

impl State {
    fn tape(&mut self) -> &mut Tape {
        // The thread that owns it waits for all of us, and only the one with
        // the baton gets here.
        unsafe { &mut *self.tape }
    }
    fn refill(&mut self) {
        let q = if self.switches > self.cap { 1 << 40 } else { self.quantum };
        let b = 1 + self.tape().draw(2 * q);
        BUDGET.store(b, Relaxed);
    }
    fn next(&mut self, steps: u64) {
        let n = self.live.len() as u64;
        if n > 0 {
            let i = self.tape().draw(n) as usize;
            self.current = self.live[i];
        }
        self.switches += 1;
        self.order = mix(self.order, steps << 4 | self.current as u64);
        self.refill();
    }
}

/// The baton goes to somebody, perhaps to the same again.
fn switch(me: usize) {
    ME.with(|m| m.set(NOBODY));
    {
        let mut g = STATE.lock().unwrap();
        let st = g.as_mut().unwrap();
        st.next(STEPS.with(|s| s.get()));
        if WAITING.with(|w| w.get()) && st.live.len() > 1 {
            st.waits += 1;
            // Whoever waits cannot go on until another has run.
            if st.current == me {
                let at = st.live.iter().position(|&x| x == me).unwrap_or(0);
                st.current = st.live[(at + 1) % st.live.len()];
            }
        }
        TURN.notify_all();
        while g.as_ref().unwrap().current != me {
            g = TURN.wait(g).unwrap();
        }
    }
    ME.with(|m| m.set(me));
}

fn step() {
    let me = match ME.try_with(|m| m.get()) {
        Ok(m) if m != NOBODY => m,
        _ => return,
    };
    STEPS.with(|s| s.set(s.get() + 1));
    if WAITING.with(|w| w.replace(false)) {
        STUCK.store(0, Relaxed);
    }
    if BUDGET.fetch_sub(1, Relaxed) <= 1 {
        switch(me);
    }
}

pub fn yield_point() {
    step()
}

pub fn alloc_point() {
    step()
}

/// No switching while `f` runs.
pub fn undisturbed<T>(f: impl FnOnce() -> T) -> T {
    let me = ME.try_with(|m| m.replace(NOBODY)).unwrap_or(NOBODY);
    let r = f();
    let _ = ME.try_with(|m| m.set(me));
    r
}

/// The simulated scheduler's version of waiting for a lock: someone else runs.
/// Returns false for threads that really have to wait.
fn wait_point() -> bool {
    let me = match ME.try_with(|m| m.get()) {
        Ok(m) if m != NOBODY => m,
        _ => return false,
    };
    WAITING.with(|w| w.set(true));
    if STUCK.fetch_add(1, Relaxed) > 20_000 {
        let who = undisturbed(|| STATE.lock().unwrap().as_ref().map_or(0, |s| s.live.len()));
        crate::env::give_up("C07", format!("{} sessions wait for each other for ever", who));
    }
    switch(me);
    true
}

/// The standard library waits for locks through this.
///
/// # Safety
/// As `syscall(2)`.
#[no_mangle]
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && matches!(b & 0x7f, 0 | 9) && wait_point() {
        *libc::__errno_location() = libc::EINTR;
        return -1;
    }
    let mut r: i64 = n;
    core::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

struct Leave(usize);

impl Drop for Leave {
    fn drop(&mut self) {
        ME.with(|m| m.set(NOBODY));
        let mut g = STATE.lock().unwrap();
        let st = g.as_mut().unwrap();
        st.live.retain(|&x| x != self.0);
        if !st.live.is_empty() {
            st.next(STEPS.with(|s| s.get()));
        } else {
            st.current = NOBODY;
        }
        TURN.notify_all();
    }
}

fn join_in(me: usize) -> Leave {
    let mut g = STATE.lock().unwrap();
    while g.as_ref().unwrap().current != me {
        g = TURN.wait(g).unwrap();
    }
    drop(g);
    ME.with(|m| m.set(me));
    Leave(me)
}

fn profile(t: &mut Tape) -> Profile {
    Profile {
        damage: 15,
        built: 20,
        elf: 3,
        steps: 3,
        faulty: 2,
        oracle: false,
        limits: true,
        dups: true,
        panics: true,
        generics: t.chance(1, 3),
        hostile: t.chance(1, 4),
        max_funcs: 12,
        ..Profile::default()
    }
}

pub fn run(t: &mut Tape) -> Outcome {
    let n = 2 + t.small(2) as usize;
    let quantum = [1, 4, 20, 100, 700, 5000][t.below(6)];
    let hs = t.draw(1 << 32);
    let mut o = Outcome::default();
    // Each alone.
    let mut alone: Vec<(Vec<u64>, Profile, Sess, u64)> = vec![];
    for i in 0..n {
        let p = profile(t);
        // Some do exactly the same as others.
        if i > 0 && t.chance(1, 6) {
            let (rec, p, _, _) = &alone[i - 1];
            let (rec, p) = (rec.clone(), p.clone());
            let (s, _, steps) = crate::env::measured(|| sess::session(&mut quiet(rec.clone()), &p));
            alone.push((rec, p, s, steps));
            continue;
        }
        let from = t.rec.len();
        let (s, _, steps) = crate::env::measured(|| sess::session(t, &p));
        alone.push((t.rec[from..].to_vec(), p, s, steps));
    }
    for (i, (_, _, s, _)) in alone.iter().enumerate() {
        o.log.push(format!("-- session {} --", i));
        o.log.extend(s.log.iter().cloned());
        o.shape.extend(&s.shape);
        // Not ours to judge.
        if s.viols.iter().any(|v| v.props.contains(&ANY)) {
            o.viols.push((vec![ANY], s.viols[0].msg.clone()));
            return o;
        }
    }
    // All at once.
    *STATE.lock().unwrap() = Some(State {
        current: NOBODY,
        live: (0..n).collect(),
        tape: t,
        quantum,
        switches: 0,
        waits: 0,
        order: 1,
        cap: 4000,
    });
    STUCK.store(0, Relaxed);
    let threads: Vec<_> = alone
        .iter()
        .enumerate()
        .map(|(i, (rec, p, _, _))| {
            let mut tape = quiet(rec.clone());
            let p = p.clone();
            std::thread::Builder::new()
                .name(format!("c{}", i))
                .stack_size(8 << 20)
                .spawn(move || {
                    crate::env::running();
                    crate::env::set_hash_seed(mix(hs, i as u64));
                    let l = join_in(i);
                    let r = crate::env::measured(|| sess::session(&mut tape, &p));
                    drop(l);
                    (r.0, r.2)
                })
                .expect("thread")
        })
        .collect();
    {
        let mut g = STATE.lock().unwrap();
        g.as_mut().unwrap().next(0);
        TURN.notify_all();
    }
    let got: Vec<(Sess, u64)> = threads.into_iter().map(|h| h.join().expect("a session")).collect();
    let st = STATE.lock().unwrap().take().expect("state");
    o.stats.add("sessions at the same time", n as u64);
    o.stats.add("passes of the baton", st.switches);
    o.stats.add("waits for locks", st.waits);
    o.log.push(format!("-- together: {} passes of the baton, about every {} steps, {} waits --", st.switches, quantum, st.waits));
    o.shape.push(st.order);
    o.seen.push(st.order);
    for (i, ((s, steps), (_, _, a, alone_steps))) in got.iter().zip(&alone).enumerate() {
        o.seen.extend(&s.seen);
        for (k, v) in &s.stats.n {
            o.stats.add(k, *v);
        }
        if s.seen != a.seen {
            let at = s.seen.iter().zip(&a.seen).position(|(x, y)| x != y).unwrap_or(s.seen.len().min(a.seen.len()));
            o.log.push(format!("-- session {} among others --", i));
            o.log.extend(s.log.iter().cloned());
            o.viols.push((
                vec!["C07"],
                format!("session {}: observation {} of {} is different from when it ran alone ({} then)", i, at + 1, s.seen.len(), a.seen.len()),
            ));
        } else if s.viols.len() != a.viols.len() {
            let m = s.viols.first().map_or("no violation".into(), |v| v.msg.clone());
            o.log.extend(s.log.iter().cloned());
            o.viols.push((vec!["C07"], format!("session {}: found among others but not alone, or the other way round: {}", i, m)));
        }
        if *steps > 2 * alone_steps + 10_000 {
            o.viols.push((vec!["C07"], format!("session {} took {} allocations, but {} alone", i, steps, alone_steps)));
        }
    }
    o.nontrivial = st.switches > n as u64 && o.stats.n.get("reports").copied().unwrap_or(0) > 0;
    o
}

/// A tape that leaves the trace of the main one alone.
fn quiet(v: Vec<u64>) -> Tape {
    Tape::again(v)
}
