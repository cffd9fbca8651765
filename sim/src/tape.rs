//! The single source of every choice in a simulated run.
//!
//! A run draws all of its choices (workload, fault kinds and positions,
//! schedules, hash seeds) from one tape. The tape is filled from a seeded
//! PRNG, or replayed from a recorded one; the recorded tape is the replay file
//! and the thing the minimiser shrinks. Zero is always the simplest choice.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub struct Tape {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Where draws are written as they happen, for runs that may not end well.
    trace: Option<std::fs::File>,
}

fn trace() -> Option<std::fs::File> {
    std::env::var_os("TWSIM_TRACE").map(|p| std::fs::File::create(p).expect("trace file"))
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { rng: Rng(seed), replay: None, pos: 0, rec: vec![], trace: trace() }
    }
    pub fn replay(tape: Vec<u64>) -> Tape {
        Tape { rng: Rng(0), replay: Some(tape), pos: 0, rec: vec![], trace: trace() }
    }
    /// Replays part of another tape; that one is traced already.
    pub fn again(tape: Vec<u64>) -> Tape {
        Tape { rng: Rng(0), replay: Some(tape), pos: 0, rec: vec![], trace: None }
    }
    /// A choice in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0) % n,
            None => self.rng.next() % n,
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// True with probability `num/den`; zero on the tape is `false`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Small numbers mostly, up to `max` sometimes.
    pub fn small(&mut self, max: u64) -> u64 {
        if max == 0 {
            self.draw(1);
            return 0;
        }
        let bits = self.draw(64 - max.leading_zeros() as u64 + 1);
        if bits == 0 {
            self.draw(1);
            return 0;
        }
        let hi = (1u64 << bits) - 1;
        self.draw(hi.min(max) + 1)
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        0
    }
}
