//! The simulated destination of an emission.

use crate::tape::{Rng, Tape};
use std::io;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    Once,
    Sticky,
}

/// What the destination does. `None`s and zeros make it behave.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub seed: u64,
    /// Per mille of writes that are cut short / interrupted.
    pub short: u64,
    pub interrupt: u64,
    /// A real error on the first write that would go beyond this many bytes.
    pub fault: Option<(u64, FaultKind, u8)>,
    /// An error from this many'th flush on.
    pub flush_fault: Option<u64>,
    /// The caller's own writer panics, once, on this many'th write.
    pub panic_at: Option<u64>,
}

pub const ERRS: [(&str, i32); 6] = [
    ("ENOSPC", libc::ENOSPC),
    ("EIO", libc::EIO),
    ("EPIPE", libc::EPIPE),
    ("EAGAIN", libc::EAGAIN),
    ("EDQUOT", libc::EDQUOT),
    ("zero-length write", 0),
];

impl Plan {
    /// Draw a plan for an emission of about `len` bytes.
    pub fn draw(t: &mut Tape, len: u64) -> Plan {
        let seed = t.draw(1 << 32);
        let short = [0, 100, 600, 1000][t.weighted(&[4, 2, 2, 2])];
        let interrupt = [0, 100, 500][t.weighted(&[4, 2, 2])];
        let fault = if t.chance(4, 5) {
            let at = match t.weighted(&[6, 3, 1, 1]) {
                0 => t.draw(len + 1),
                // The closing brackets and the last line.
                1 => len.saturating_sub(t.small(8)),
                2 => 0,
                _ => t.small(64).min(len),
            };
            let kind = if t.chance(1, 2) { FaultKind::Once } else { FaultKind::Sticky };
            Some((at, kind, t.below(ERRS.len()) as u8))
        } else {
            None
        };
        let flush_fault = if t.chance(1, 8) { Some(t.small(20)) } else { None };
        Plan { seed, short, interrupt, fault, flush_fault, panic_at: None }
    }
    /// Only short and interrupted writes.
    pub fn draw_benign(t: &mut Tape) -> Plan {
        let seed = t.draw(1 << 32);
        let short = [0, 100, 600, 1000][t.weighted(&[1, 1, 1, 1])];
        let interrupt = [0, 100, 500][t.weighted(&[1, 1, 1])];
        Plan { seed, short, interrupt, fault: None, flush_fault: None, panic_at: None }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("short {}‰, EINTR {}‰", self.short, self.interrupt);
        if let Some((at, k, e)) = self.fault {
            s.push_str(&format!(", {} {:?} at byte {}", ERRS[e as usize].0, k, at));
        }
        if let Some(n) = self.flush_fault {
            s.push_str(&format!(", flush fails from #{}", n));
        }
        if let Some(n) = self.panic_at {
            s.push_str(&format!(", panics at write {}", n));
        }
        s
    }
}

pub struct SimWriter {
    plan: Plan,
    rng: Rng,
    pub got: Vec<u8>,
    /// How many bytes had been accepted when the first real error was returned.
    pub first_err: Option<usize>,
    pub flush_errs: u64,
    pub n_short: u64,
    pub n_intr: u64,
    pub n_err: u64,
    flushes: u64,
    fired: bool,
    intr_run: u32,
    pub calls: u64,
    pub panicked: bool,
}

impl SimWriter {
    pub fn new(plan: Plan) -> SimWriter {
        let rng = Rng(plan.seed ^ 0x5157);
        SimWriter {
            plan,
            rng,
            got: vec![],
            first_err: None,
            flush_errs: 0,
            n_short: 0,
            n_intr: 0,
            n_err: 0,
            flushes: 0,
            fired: false,
            intr_run: 0,
            calls: 0,
            panicked: false,
        }
    }
}

impl io::Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        crate::conc::yield_point();
        if self.plan.panic_at == Some(self.calls) {
            self.panicked = true;
            panic!("the writer panics, as planned");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rng.next() % 1000 < self.plan.interrupt && self.intr_run < 20 {
            self.intr_run += 1;
            self.n_intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr_run = 0;
        let mut n = buf.len();
        if self.rng.next() % 1000 < self.plan.short {
            let m = 1 + (self.rng.next() % n as u64) as usize;
            if m < n {
                self.n_short += 1;
                n = m;
            }
        }
        if let Some((at, kind, e)) = self.plan.fault {
            let have = self.got.len() as u64;
            if !(self.fired && kind == FaultKind::Once) && have + n as u64 > at {
                if have < at {
                    // Like a disk that fills up: take what still fits first.
                    n = (at - have) as usize;
                    self.n_short += 1;
                } else {
                    self.fired = true;
                    self.n_err += 1;
                    if self.first_err.is_none() {
                        self.first_err = Some(self.got.len());
                    }
                    let (_, code) = ERRS[e as usize];
                    return if code == 0 { Ok(0) } else { Err(io::Error::from_raw_os_error(code)) };
                }
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if let Some(from) = self.plan.flush_fault {
            if self.flushes > from {
                self.flush_errs += 1;
                return Err(io::Error::from_raw_os_error(libc::EIO));
            }
        }
        Ok(())
    }
}
