//! A simulated session: one caller that parses inputs, runs analyses and emits
//! their reports, over and over, while inputs are damaged and destinations
//! misbehave. Every choice comes from the tape.

use crate::gen::{self, Flaw, GMod, Knobs, Kind};
use crate::model::{self, Doms, Graph};
use crate::oracle::{self, Case, Outs, Viol};
use crate::spec::{Spec, What, ALL};
use crate::tape::Tape;
use crate::writer::{FaultKind, Plan, SimWriter, ERRS};
use std::collections::{BTreeMap, BTreeSet};
use twiggy_analyze as analyze;
use twiggy_ir as ir;
use twiggy_opt::Options;
use twiggy_traits::{Emit, OutputFormat, ParseMode};

/// Marks a violation of whatever property is being checked.
pub const ANY: &str = "*";

#[derive(Clone, Debug)]
pub struct Profile {
    pub damage: u64,
    /// Percent of sessions on a hand-built graph rather than a wasm file.
    pub built: u64,
    pub steps: u64,
    /// Weights of top, dominators, paths, monos, garbage, diff.
    pub what: [u64; 6],
    /// Faulty emissions per analysis, at most.
    pub faulty: u64,
    /// Percent of sessions whose faulty emissions see no real errors.
    pub oracle: bool,
    pub limits: bool,
    pub hostile: bool,
    pub dups: bool,
    pub generics: bool,
    pub dense: bool,
    pub max_funcs: u64,
    /// Percent of sessions on a damaged native object.
    pub elf: u64,
    /// Native objects are generated, and lose only what can be noticed.
    pub objects: bool,
    /// Writers of the caller's may panic.
    pub panics: bool,
}

impl Default for Profile {
    fn default() -> Profile {
        Profile {
            damage: 10,
            built: 10,
            steps: 4,
            what: [1; 6],
            faulty: 2,
            oracle: true,
            limits: true,
            hostile: false,
            dups: false,
            generics: false,
            dense: false,
            max_funcs: 0,
            elf: 0,
            objects: false,
            panics: false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.n.entry(k).or_insert(0) += n;
        }
    }
}

/// The log of the run in progress, for when it cannot hand it over itself.
pub static HISTORY: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

/// What a session did and found.
#[derive(Default)]
pub struct Sess {
    pub viols: Vec<Viol>,
    pub stats: Stats,
    /// What happened, for humans.
    pub log: Vec<String>,
    /// Everything observable, for comparing executions.
    pub seen: Vec<u64>,
    /// Distinguishes this history from others.
    pub shape: Vec<u64>,
    pub known_load_edges: u64,
}

fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 31)
}

impl Sess {
    fn bad(&mut self, v: Viol) {
        if self.viols.len() < 20 {
            self.log.push(format!("  !! [{}] {}", v.props.join(" "), v.msg));
            self.viols.push(v);
        }
    }
    fn viol(&mut self, props: &[&'static str], msg: String) {
        self.bad(Viol { props: props.to_vec(), msg })
    }
    /// Memory, and work as counted by allocations, stay in proportion.
    fn frugal(&mut self, what: &str, len: usize, peak: u64, allocs: u64) {
        let len = len as u64;
        if peak > (16 << 20) + 1000 * len {
            self.viol(&["C04"], format!("{} took {} bytes of memory for {} bytes of input", what, peak, len));
        }
        if allocs > 100_000 + 500 * len {
            self.viol(&["C04"], format!("{} took {} allocations for {} bytes of input", what, allocs, len));
        }
    }
    fn say(&mut self, s: String) {
        if self.log.len() < 400 {
            if let Ok(mut h) = HISTORY.lock() {
                h.push(s.clone());
            }
            self.log.push(s);
        }
    }
}

/// Where the items of a session come from.
#[derive(Clone)]
pub enum Source {
    Wasm { bytes: Vec<u8>, truth: Option<Box<GMod>> },
    Built(Box<Built>),
    Elf { bytes: Vec<u8>, truth: Option<Box<crate::dwarf::Object>> },
}

#[derive(Clone)]
pub struct Built {
    names: Vec<String>,
    sizes: Vec<u32>,
    kinds: Vec<Kind>,
    roots: Vec<usize>,
    edges: Vec<(usize, usize)>,
    /// Entry or section header, so that ids are not in order of insertion.
    ids: Vec<(usize, Option<usize>)>,
}

impl Built {
    fn draw(t: &mut Tape, k: &Knobs) -> Built {
        let n = 1 + t.draw(k.max_funcs * 2) as usize;
        let shape = t.below(6);
        let mut b = Built { names: vec![], sizes: vec![], kinds: vec![], roots: vec![], edges: vec![], ids: vec![] };
        let pool = ["a", "b", "c", "core::fmt::h1", "vec<int>::push", "f<x>(y)"];
        for i in 0..n {
            let name = if k.dup_names && t.chance(1, 2) { t.pick(&pool).to_string() } else { format!("item{}", i) };
            b.names.push(name);
            b.sizes.push(match t.weighted(&[1, 6, 2]) {
                0 => 0,
                1 => t.small(50) as u32,
                _ => t.small(100_000) as u32,
            });
            b.kinds.push(*t.pick(&[Kind::Code, Kind::Code, Kind::Data, Kind::Debug, Kind::Misc]));
            b.ids.push((i % 5, if i < 5 && t.chance(1, 2) { None } else { Some(i) }));
        }
        if b.sizes.iter().all(|&s| s == 0) {
            b.sizes[0] = 1;
        }
        // Sizes that fill the 32 bits they are kept in.
        if t.chance(1, 8) {
            let total: u64 = b.sizes.iter().map(|&s| s as u64).sum();
            let by = (u32::MAX as u64 / total) as u32;
            b.sizes.iter_mut().for_each(|s| *s *= by);
        }
        let nroots = 1 + t.small(4);
        for _ in 0..nroots {
            let r = t.below(n);
            b.roots.push(r);
        }
        let nedges = t.draw((n as u64) * if k.dense { 4 } else { 2 } + 1);
        for e in 0..nedges {
            let (x, y) = match shape {
                0 | 1 => (t.below(n), t.below(n)),
                // Chains with shortcuts.
                2 => {
                    let x = (e as usize) % n;
                    (x, (x + 1 + t.small(3) as usize) % n)
                }
                // Diamonds.
                3 => {
                    let x = t.below(n);
                    (x, (2 * x + 1 + t.below(2)) % n)
                }
                // Backward heavy.
                4 => {
                    let x = t.below(n);
                    (x, t.below(x + 1))
                }
                _ => {
                    let x = t.below(n);
                    (x, x + t.below(n - x))
                }
            };
            b.edges.push((x, y));
        }
        b
    }
    fn make(&self) -> ir::Items {
        let total: u32 = self.sizes.iter().sum();
        let mut b = ir::ItemsBuilder::new(total);
        let ids: Vec<ir::Id> = self
            .ids
            .iter()
            .map(|&(s, e)| match e {
                Some(e) => ir::Id::entry(s, e),
                None => ir::Id::section(s),
            })
            .collect();
        for i in 0..ids.len() {
            let name = self.names[i].clone();
            let kind: ir::ItemKind = match self.kinds[i] {
                Kind::Code => ir::Code::new(&name).into(),
                Kind::Data => ir::Data::new(None).into(),
                Kind::Debug => ir::DebugInfo::new().into(),
                Kind::Misc => ir::Misc::new().into(),
            };
            let it = ir::Item::new(ids[i], name, self.sizes[i], kind);
            if self.roots.contains(&i) {
                b.add_root(it);
            } else {
                b.add_item(it);
            }
        }
        for &(x, y) in &self.edges {
            b.add_edge(ids[x], ids[y]);
        }
        b.finish()
    }
}

impl Source {
    pub fn parse(&self) -> anyhow::Result<ir::Items> {
        match self {
            Source::Wasm { bytes, .. } => twiggy_parser::parse(bytes),
            Source::Built(b) => Ok(b.make()),
            Source::Elf { bytes, .. } => crate::elf::parse(bytes, ParseMode::Dwarf),
        }
    }
    fn len(&self) -> usize {
        match self {
            Source::Wasm { bytes, .. } => bytes.len(),
            Source::Built(b) => b.names.len() * 16,
            Source::Elf { bytes, .. } => bytes.len(),
        }
    }
}

/// Damage stored bytes the way disks and transfers do. Says what it did.
pub fn damage(t: &mut Tape, b: &mut Vec<u8>, section_starts: &[usize], stats: &mut Stats) -> String {
    let mut what = vec![];
    let n = 1 + [0, 1, 2, 6][t.weighted(&[8, 3, 2, 1])];
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let len = b.len();
        // Structure sits near section starts.
        let at = if !section_starts.is_empty() && t.chance(1, 2) {
            (section_starts[t.below(section_starts.len())] + t.small(12) as usize).min(len - 1)
        } else {
            t.below(len)
        };
        let wide = t.chance(1, 3);
        let span = (1 + t.small(if wide { 512 } else { 16 }) as usize).min(len - at);
        match t.weighted(&[6, 5, 4, 4, 3, 3, 3, 3, 3, 2]) {
            0 => {
                let bit = t.below(8);
                b[at] ^= 1 << bit;
                stats.add("damage: bit flip", 1);
                what.push(format!("bit {} of byte {} flipped", bit, at));
            }
            1 => {
                let x = *t.pick(&[0x00u8, 0x01, 0x7f, 0x80, 0xff, 0x0b, 0x10, 0x41, 0x60, 0x40]);
                b[at] = x;
                stats.add("damage: byte overwritten", 1);
                what.push(format!("byte {} set to {:#x}", at, x));
            }
            2 => {
                b.truncate(at);
                stats.add("damage: truncated", 1);
                what.push(format!("truncated to {}", at));
            }
            3 => {
                for x in &mut b[at..at + span] {
                    *x = 0;
                }
                stats.add("damage: lost write (zeroes)", 1);
                what.push(format!("{} bytes at {} zeroed", span, at));
            }
            4 => {
                for x in &mut b[at..] {
                    *x = 0;
                }
                stats.add("damage: torn tail", 1);
                what.push(format!("zeroes from {} on", at));
            }
            5 => {
                let block = b[at..at + span].to_vec();
                let to = t.below(len + 1);
                let tail = b.split_off(to);
                b.extend_from_slice(&block);
                b.extend_from_slice(&tail);
                stats.add("damage: block duplicated", 1);
                what.push(format!("{} bytes at {} inserted again at {}", span, at, to));
            }
            6 => {
                b.drain(at..at + span);
                stats.add("damage: block dropped", 1);
                what.push(format!("{} bytes at {} dropped", span, at));
            }
            7 => {
                // A corrupted length or count.
                let enc: &[u8] = *t.pick(&[
                    &[0xff, 0xff, 0xff, 0xff, 0x0f][..],
                    &[0xff, 0xff, 0xff, 0xff, 0x07],
                    &[0x80, 0x80, 0x80, 0x80, 0x08],
                    &[0xff, 0xff, 0x03],
                    &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80],
                    &[0xff, 0x7f],
                ]);
                let k = enc.len().min(len - at);
                b[at..at + k].copy_from_slice(&enc[..k]);
                stats.add("damage: length field corrupted", 1);
                what.push(format!("length bytes {:x?} at {}", &enc[..k], at));
            }
            8 => {
                // Whole sections out of order, repeated or replaced.
                if section_starts.len() >= 2 {
                    let i = t.below(section_starts.len());
                    let lo = section_starts[i].min(b.len());
                    let hi = section_starts.get(i + 1).copied().unwrap_or(b.len()).min(b.len());
                    let sec = b[lo..hi.max(lo)].to_vec();
                    let to = section_starts[t.below(section_starts.len())].min(b.len());
                    if t.chance(1, 2) {
                        let tail = b.split_off(to);
                        b.extend_from_slice(&sec);
                        b.extend_from_slice(&tail);
                        what.push(format!("section at {} repeated at {}", lo, to));
                    } else {
                        b.drain(lo..hi.max(lo));
                        let to = to.min(b.len());
                        let tail = b.split_off(to);
                        b.extend_from_slice(&sec);
                        b.extend_from_slice(&tail);
                        what.push(format!("section at {} moved to {}", lo, to));
                    }
                    stats.add("damage: section moved or repeated", 1);
                }
            }
            _ => {
                let k = 1 + t.small(40) as usize;
                let x = t.draw(256) as u8;
                b.extend(std::iter::repeat(x).take(k));
                stats.add("damage: bytes appended", 1);
                what.push(format!("{} bytes {:#x} appended", k, x));
            }
        }
    }
    what.join("; ")
}

pub const FORMATS: [OutputFormat; 3] = [OutputFormat::Text, OutputFormat::Json, OutputFormat::Csv];
pub const FORMAT_NAMES: [&str; 3] = ["text", "json", "csv"];

/// Run twiggy code; a panic comes back as a message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(crate::env::last_panic()),
    }
}

pub fn analyse(
    opts: &Options,
    items: &mut ir::Items,
    new: Option<&mut ir::Items>,
) -> anyhow::Result<Box<dyn Emit>> {
    match opts {
        Options::Top(o) => analyze::top(items, o),
        Options::Dominators(o) => analyze::dominators(items, o),
        Options::Paths(o) => analyze::paths(items, o),
        Options::Monos(o) => analyze::monos(items, o),
        Options::Garbage(o) => analyze::garbage(items, o),
        Options::Diff(o) => analyze::diff(items, new.expect("diff needs two"), o),
    }
}

fn emit_clean(rep: &dyn Emit, items: &ir::Items, f: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    match guard(|| rep.emit(items, &mut out, FORMATS[f])) {
        Ok(Ok(())) => Ok(out),
        Ok(Err(e)) => Err(format!("emitting {} to memory failed: {}", FORMAT_NAMES[f], e)),
        Err(p) => Err(format!("emitting {} to memory panicked: {}", FORMAT_NAMES[f], p)),
    }
}

fn emit_all(rep: &dyn Emit, items: &ir::Items) -> Result<Outs, String> {
    Ok(Outs {
        text: emit_clean(rep, items, 0)?,
        json: emit_clean(rep, items, 1)?,
        csv: emit_clean(rep, items, 2)?,
    })
}

fn by_format<'a>(o: &'a Outs, f: usize) -> &'a Vec<u8> {
    match f {
        0 => &o.text,
        1 => &o.json,
        _ => &o.csv,
    }
}

/// What a caller would get from freshly parsed inputs.
fn fresh(src: &Source, new: Option<&Source>, opts: &Options) -> Result<Result<Outs, String>, String> {
    guard(|| {
        let mut items = src.parse().map_err(|e| format!("parse error: {}", e))?;
        let mut ni = match new {
            Some(s) => Some(s.parse().map_err(|e| format!("parse error: {}", e))?),
            None => None,
        };
        let rep = analyse(opts, &mut items, ni.as_mut()).map_err(|e| format!("analysis error: {}", e))?;
        emit_all(&*rep, &items)
    })
}

pub fn where_differs(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &[u8]| {
        let lo = at.saturating_sub(20);
        let hi = (at + 40).min(s.len());
        String::from_utf8_lossy(&s[lo.min(s.len())..hi]).to_string()
    };
    format!("at byte {} of {}/{}: {:?} instead of {:?}", at, a.len(), b.len(), cut(a), cut(b))
}

struct Side {
    src: Source,
    items: ir::Items,
    g: Graph,
    d: Doms,
    intact: bool,
}

struct Kept {
    rep: Box<dyn Emit>,
    want: Outs,
    /// Reports of a diff are emitted with the old side, others with their own.
    side: usize,
    name: String,
}

pub fn session(t: &mut Tape, p: &Profile) -> Sess {
    let mut s = Sess::default();
    let mut k = Knobs::draw(t);
    if p.hostile {
        k.hostile = true;
        k.named = true;
    }
    if p.dups && t.chance(1, 2) {
        k.dup_names = true;
    }
    if p.generics {
        k.generics = true;
        k.named = true;
    }
    if p.dense && t.chance(1, 2) {
        k.dense = true;
    }
    if p.max_funcs > 0 {
        k.max_funcs = k.max_funcs.min(p.max_funcs);
    }
    let elf = p.elf > 0 && t.chance(p.elf, 100);
    let built = !elf && t.chance(p.built, 100);
    let damaged = t.chance(p.damage, 100);
    let two = p.what[5] > 0 && (!elf || p.objects) && t.chance(p.what[5] * 3, p.what.iter().sum::<u64>() * 2 + p.what[5]);

    // Inputs.
    let mut sides: Vec<Side> = vec![];
    let mut first: Option<GMod> = None;
    for i in 0..1 + two as usize {
        let mut intact = true;
        let mut flaw: Option<gen::Flaw> = None;
        let src = if elf && (p.objects || t.chance(1, 2)) {
            let o = crate::dwarf::object(t, &k, p.objects);
            s.say(format!("input {}: {}", i, o.desc));
            let mut bytes = o.bytes.clone();
            if !t.chance(1, 2) {
            } else if p.objects {
                let (b, d) = o.lose(t, &mut s.stats);
                s.say(format!("  {}", d));
                intact = b == bytes;
                bytes = b;
            } else {
                let d = damage(t, &mut bytes, &o.starts, &mut s.stats);
                s.say(format!("  damaged: {}", d));
                intact = bytes == o.bytes;
            }
            let truth = (intact || p.objects).then(|| Box::new(o));
            Source::Elf { bytes, truth }
        } else if elf {
            let mut bytes = crate::elf::fixture(t.below(crate::elf::COUNT));
            // Structure sits in the headers and at the starts of sections.
            let starts = crate::elf::offsets(&bytes);
            if !t.chance(1, 20) {
                intact = false;
                let d = damage(t, &mut bytes, &starts, &mut s.stats);
                s.say(format!("input {}: object file of {} B, {}", i, bytes.len(), d));
            }
            Source::Elf { bytes, truth: None }
        } else if built {
            let b = Built::draw(t, &k);
            s.say(format!("input {}: built graph of {} items, {} edges", i, b.names.len(), b.edges.len()));
            Source::Built(Box::new(b))
        } else {
            let m = match &first {
                Some(m) if t.chance(1, 8) => m.clone(),
                _ => gen::module(t, &k),
            };
            s.say(format!("input {}: {}", i, m.desc));
            first = Some(m.clone());
            if damaged && (i == 0 || t.chance(1, 2)) {
                let mut bytes = m.bytes.clone();
                if t.chance(1, 6) && !m.flaws.is_empty() {
                    let kinds: BTreeSet<&str> = m.flaws.iter().map(|f| f.what).collect();
                    let what = kinds.iter().nth(t.below(kinds.len())).unwrap();
                    let of: Vec<&Flaw> = m.flaws.iter().filter(|f| f.what == *what).collect();
                    let f = *of[t.below(of.len())];
                    bytes[f.at] = f.byte;
                    s.stats.add("damage: byte that must not pass unnoticed", 1);
                    s.say(format!("  damaged: {} at {}", f.what, f.at));
                    flaw = Some(f);
                } else {
                    let d = damage(t, &mut bytes, &m.section_starts, &mut s.stats);
                    s.say(format!("  damaged: {}", d));
                }
                intact = bytes == m.bytes;
                Source::Wasm { bytes, truth: None }
            } else {
                Source::Wasm { bytes: m.bytes.clone(), truth: Some(Box::new(m)) }
            }
        };
        s.stats.add("inputs", 1);
        s.shape.push(src.len() as u64);
        let own: &[&'static str] = if intact { &[ANY] } else { &["C04"] };
        let (parsed, peak, allocs) = crate::env::measured(|| crate::env::limited(8 << 20, || guard(|| src.parse())));
        s.frugal("parsing", src.len(), peak, allocs);
        let items = match parsed {
            Err(p) => {
                s.viol(own, format!("parsing panicked: {}", p));
                return s;
            }
            Ok(Err(e)) => {
                if intact {
                    s.viol(&[ANY], format!("an intact input is rejected: {}", e));
                } else {
                    s.say(format!("  rejected: {}", e));
                    s.stats.add("damaged inputs rejected", 1);
                    s.seen.push(hash(e.to_string().as_bytes()));
                    if e.to_string().trim().is_empty() {
                        s.viol(&["C04"], "a damaged input is rejected without a message".into());
                    }
                }
                return s;
            }
            Ok(Ok(i)) => i,
        };
        if !intact {
            s.stats.add("damaged inputs accepted", 1);
        }
        if let Some(f) = flaw {
            s.viol(f.props, format!("{} passes unnoticed", f.what));
        }
        let g = match Graph::of(&items) {
            Ok(g) => g,
            Err(e) => {
                s.viol(&["C08", "C10"], e);
                return s;
            }
        };
        if let Source::Wasm { bytes, truth } = &src {
            let sum: u64 = g.sizes.iter().sum();
            if sum != bytes.len() as u64 || g.file_size != bytes.len() as u64 {
                s.viol(
                    &["C08"],
                    format!("a file of {} bytes is said to have {}, its items add up to {}", bytes.len(), g.file_size, sum),
                );
            }
            if let Some(m) = truth {
                let d = model::compare(&g, m);
                s.known_load_edges += d.known_load_edges;
                if let Some(e) = d.items {
                    s.viol(&["C08", "C12", "C13"], e);
                }
                if let Some(e) = d.edges {
                    s.viol(&["C09", "C10", "C11"], e);
                }
            }
        }
        if let Source::Elf { bytes, truth: Some(o) } = &src {
            s.stats.add(if intact { "objects with known functions" } else { "damaged objects with known functions accepted" }, 1);
            if let Some(e) = o.differs(&g) {
                let cut = bytes.len() < o.bytes.len() && o.names.map_or(false, |at| bytes.len() > at);
                let what = if cut { "a PE file cut short in its table of names: " } else { "" };
                s.viol(&["C21"], format!("{}{}", what, e));
            }
            if g.file_size != bytes.len() as u64 {
                s.viol(&["C21"], format!("a file of {} bytes is said to have {}", bytes.len(), g.file_size));
            }
        }
        if let Source::Built(b) = &src {
            let sum: u64 = b.sizes.iter().map(|&x| u64::from(x)).sum();
            let roots: std::collections::BTreeSet<usize> = b.roots.iter().copied().collect();
            let edges: std::collections::BTreeSet<(usize, usize)> = b.edges.iter().copied().collect();
            let n: usize = g.succ.iter().map(|x| x.len()).sum();
            if g.len() != b.names.len() || g.roots.len() != roots.len() || n != edges.len() || g.file_size != sum {
                s.viol(&["C08", "C09", "C10", "C11"], "items, roots or references of a built graph were lost".into());
            }
        }
        let d = g.dominators();
        s.shape.push(g.len() as u64);
        s.shape.push(d.live.iter().filter(|&&x| x).count() as u64);
        sides.push(Side { src, items, g, d, intact });
    }

    let mut names: Vec<String> = sides.iter().flat_map(|x| x.g.names.iter().cloned()).collect();
    names.dedup();
    let mut generics: Vec<String> =
        sides.iter().flat_map(|x| x.g.generics.iter().flatten().cloned()).collect();
    generics.sort();
    generics.dedup();

    let mut kept: Vec<Kept> = vec![];
    let nsteps = 1 + t.draw(p.steps);
    for step in 0..nsteps {
        let side = if sides.len() == 2 && t.chance(1, 3) { 1 } else { 0 };
        match t.weighted(&[12, 3, 2, 1, 1]) {
            1 if !kept.is_empty() => {
                // A report held on to is emitted later.
                let i = t.below(kept.len());
                let f = t.below(3);
                s.stats.add("delayed emissions", 1);
                if p.faulty > 0 && t.chance(1, 3) {
                    // Right after an emission that fails half way.
                    let kp = &kept[t.below(kept.len())];
                    let g = if t.chance(1, 2) { f } else { t.below(3) };
                    let mut plan = Plan::draw(t, by_format(&kp.want, g).len() as u64);
                    if p.panics && t.chance(1, 4) {
                        plan.panic_at = Some(1 + t.small(60));
                    }
                    let mut wr = SimWriter::new(plan.clone());
                    let r = guard(|| kp.rep.emit(&sides[kp.side].items, &mut wr, FORMATS[g]).is_ok());
                    s.log.push(format!(
                        "{}: emit `{}` as {} ({}): {:?}, {} B accepted",
                        step, kp.name, FORMAT_NAMES[g], plan.describe(), r.unwrap_or(false), wr.got.len()
                    ));
                    s.stats.add("emissions under faults", 1);
                }
                let kp = &kept[i];
                let got = emit_clean(&*kp.rep, &sides[kp.side].items, f);
                let want = by_format(&kp.want, f);
                s.log.push(format!("{}: emit `{}` again as {}", step, kp.name, FORMAT_NAMES[f]));
                match got {
                    Ok(b) if &b == want => {}
                    Ok(b) => {
                        let m = format!("`{}` emitted later differs {}", kp.name, where_differs(&b, want));
                        s.viol(&["C06"], m);
                    }
                    Err(e) => s.viol(&["C06"], e),
                }
                continue;
            }
            2 => {
                let which = t.draw(16);
                s.say(format!("{}: compute facts {:04b} of side {}", step, which, side));
                let it = &mut sides[side].items;
                let r = guard(|| {
                    if which & 1 != 0 {
                        it.compute_predecessors();
                    }
                    if which & 2 != 0 {
                        it.compute_dominators();
                    }
                    if which & 4 != 0 {
                        it.compute_dominator_tree();
                    }
                    if which & 8 != 0 {
                        it.compute_retained_sizes();
                    }
                });
                s.shape.push(100 + which);
                if let Err(e) = r {
                    let ps: &[&'static str] = if sides[side].intact { &[ANY] } else { &["C04"] };
                    s.viol(ps, format!("computing graph facts panicked: {}", e));
                    return s;
                }
                continue;
            }
            3 => {
                // An analysis that must fail.
                let sp = Spec::failing(t);
                s.say(format!("{}: {} on side {}, must fail", step, sp.show(), side));
                let o = sp.options().expect("valid command line");
                s.stats.add("failing analyses", 1);
                match guard(|| analyse(&o, &mut sides[side].items, None).map(|_| ())) {
                    Ok(Err(_)) => {}
                    Ok(Ok(())) => s.viol(&["C06"], format!("{}: succeeds", sp.show())),
                    Err(e) => s.viol(&[ANY], format!("{}: panicked: {}", sp.show(), e)),
                }
                continue;
            }
            4 => {
                // Something else is parsed in between, and fails.
                if let Source::Wasm { bytes, .. } = &sides[side].src {
                    let cut = t.below(bytes.len() + 1);
                    let b = bytes[..cut].to_vec();
                    s.say(format!("{}: parse only the first {} bytes", step, cut));
                    s.stats.add("other parses", 1);
                    if let Err(e) = guard(|| twiggy_parser::parse(&b).map(|_| ())) {
                        s.viol(&["C04"], format!("parsing a truncated file panicked: {}", e));
                    }
                }
                continue;
            }
            _ => {}
        }

        let mut w = ALL[t.weighted(&p.what)];
        if w == What::Diff && sides.len() < 2 {
            w = What::Top;
        }
        let mut sp = Spec::draw(t, w, &names, &generics);
        if !p.limits {
            sp.limit = None;
            sp.limit2 = None;
        }
        let g = &sides[side].g;
        if w == What::Paths {
            // Paths multiply: keep reports small enough to look at.
            for (r, d) in [(None, None), (Some(3), Some(3)), (Some(1), Some(2))] {
                if sp.paths_cost(g, 1500) <= 1500 {
                    break;
                }
                sp.limit = r.or(sp.limit);
                sp.limit2 = d.or(sp.limit2);
            }
            if sp.paths_cost(g, 1500) > 1500 {
                continue;
            }
        }
        s.say(format!("{}: {} on side {}", step, sp.show(), side));
        let coded = t.chance(1, 8);
        let opts = match if coded { sp.coded(t) } else { sp.options() } {
            Ok(o) => o,
            Err(e) => {
                s.viol(&[ANY], format!("valid options are rejected: {}", e));
                continue;
            }
        };
        s.stats.add("analyses", 1);
        s.shape.push(w as u64 + 1);
        let other = 1 - side.min(1);
        let rep = {
            let (a, b) = sides.split_at_mut(1);
            let (me, new) = if side == 0 {
                (&mut a[0].items, b.get_mut(0).map(|x| &mut x.items))
            } else {
                (&mut b[0].items, Some(&mut a[0].items))
            };
            let new = if w == What::Diff { new } else { None };
            crate::env::measured(|| guard(|| analyse(&opts, me, new)))
        };
        let (rep, peak, allocs) = rep;
        let len = sides[side].src.len() + if w == What::Diff { sides[other].src.len() } else { 0 };
        s.frugal("the analysis", len, peak, allocs);
        let intact = sides[side].intact && (w != What::Diff || sides[other].intact);
        let rep = match rep {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => {
                s.viol(&[ANY], format!("{}: failed: {}", sp.show(), e));
                continue;
            }
            Err(e) => {
                s.viol(if intact { &[ANY] } else { &["C04"] }, format!("{}: panicked: {}", sp.show(), e));
                return s;
            }
        };
        let new_src = if w == What::Diff { Some(&sides[other].src) } else { None };
        let want = match fresh(&sides[side].src, new_src, &opts) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => {
                s.viol(if intact { &[ANY] } else { &["C04"] }, format!("{}: on fresh items: {}", sp.show(), e));
                continue;
            }
            Err(e) => {
                s.viol(if intact { &[ANY] } else { &["C04"] }, format!("{}: panicked on fresh items: {}", sp.show(), e));
                continue;
            }
        };

        // Emissions to destinations that misbehave.
        let nf = if p.faulty > 0 { t.draw(p.faulty + 1) } else { 0 };
        for _ in 0..nf {
            let f = t.below(3);
            let full = by_format(&want, f);
            let plan = if t.chance(1, 4) { Plan::draw_benign(t) } else { Plan::draw(t, full.len() as u64) };
            let mut plan = plan;
            if p.panics && t.chance(1, 4) {
                plan.panic_at = Some(1 + t.small(60));
            }
            let mut wr = SimWriter::new(plan.clone());
            let r = guard(|| rep.emit(&sides[side].items, &mut wr, FORMATS[f]).map_err(|e| e.to_string()));
            s.stats.add("emissions under faults", 1);
            s.stats.add("short writes", wr.n_short);
            s.stats.add("interrupted writes", wr.n_intr);
            s.stats.add("flush errors", wr.flush_errs);
            if let Some((_, kind, e)) = plan.fault {
                s.stats.add(
                    match (kind, ERRS[e as usize].1) {
                        (FaultKind::Once, 0) => "zero-length write once",
                        (FaultKind::Sticky, 0) => "zero-length writes for good",
                        (FaultKind::Once, _) => "write error once",
                        (FaultKind::Sticky, _) => "write errors for good",
                    },
                    wr.n_err.min(1),
                );
            }
            s.say(format!(
                "   emit {} ({}): {} of {} B accepted, first error at {:?}, {}",
                FORMAT_NAMES[f],
                plan.describe(),
                wr.got.len(),
                full.len(),
                wr.first_err,
                match &r {
                    Ok(Ok(())) => "ok".to_string(),
                    Ok(Err(e)) => format!("error: {}", e),
                    Err(e) => format!("PANIC: {}", e),
                }
            ));
            s.seen.push(hash(&wr.got));
            s.shape.push(wr.first_err.map_or(0, |x| x as u64 + 1) << 8 | wr.calls.min(255));
            let ps: &[&'static str] = if w == What::Garbage { &["C02"] } else { &["C02"] };
            let tag = format!("{} as {} ({})", sp.show(), FORMAT_NAMES[f], plan.describe());
            if wr.panicked {
                s.stats.add("panicking writers", 1);
                continue;
            }
            match r {
                Err(e) => {
                    s.viol(ps, format!("{}: panicked: {}", tag, e));
                }
                Ok(Ok(())) => {
                    if let Some(at) = wr.first_err {
                        s.viol(ps, format!("{}: a write failed after {} bytes, but the emission returned success", tag, at));
                    } else if &wr.got != full {
                        s.viol(ps, format!("{}: success, but the bytes accepted differ {}", tag, where_differs(&wr.got, full)));
                    }
                }
                Ok(Err(e)) => {
                    if wr.first_err.is_none() && wr.flush_errs == 0 {
                        s.viol(ps, format!("{}: failed although no write did: {}", tag, e));
                    }
                }
            }
            if let Some(at) = wr.first_err {
                if !full.starts_with(&wr.got[..at]) {
                    s.viol(
                        ps,
                        format!("{}: what was accepted before the first error is no beginning of the report: {}", tag, where_differs(&wr.got[..at], full)),
                    );
                }
            } else if !full.starts_with(&wr.got) && wr.flush_errs == 0 {
                s.viol(ps, format!("{}: the bytes accepted are no beginning of the report", tag));
            }
        }

        // What was made before is not disturbed by that.
        if nf > 0 && !kept.is_empty() && t.chance(1, 3) {
            let kp = &kept[t.below(kept.len())];
            let f = t.below(3);
            s.stats.add("delayed emissions", 1);
            let got = emit_clean(&*kp.rep, &sides[kp.side].items, f);
            let want = by_format(&kp.want, f);
            s.log.push(format!("   emit `{}` again as {}", kp.name, FORMAT_NAMES[f]));
            match got {
                Ok(b) if &b == want => {}
                Ok(b) => {
                    let m = format!("`{}` emitted later differs {}", kp.name, where_differs(&b, want));
                    s.viol(&["C06"], m);
                }
                Err(e) => s.viol(&["C06"], e),
            }
        }

        // An undisturbed emission of everything.
        let outs = match emit_all(&*rep, &sides[side].items) {
            Ok(o) => o,
            Err(e) => {
                s.viol(&["C06", "C02"], format!("{}: {}", sp.show(), e));
                continue;
            }
        };
        s.stats.add("reports", 3);
        for f in 0..3 {
            let (a, b) = (by_format(&outs, f), by_format(&want, f));
            s.seen.push(hash(a));
            s.shape.push(hash(a));
            if a != b {
                s.viol(
                    &["C06"],
                    format!("{} as {}: differs from a fresh run {}", sp.show(), FORMAT_NAMES[f], where_differs(a, b)),
                );
            }
        }
        if p.oracle && sides.iter().all(|x| !matches!(x.src, Source::Elf { truth: None, .. })) {
            let new = if w == What::Diff { Some(&sides[other].g) } else { None };
            let case = Case { g: &sides[side].g, d: &sides[side].d, spec: &sp, new };
            s.stats.add("reports checked against the model", 3);
            if let Err(e) = oracle::check(&case, &outs) {
                s.bad(e);
            }
            // Now without limits, on the same items.
            let limited = sp.limit.is_some() || sp.limit2.is_some();
            if p.limits && limited && s.viols.is_empty() {
                let mut full = sp.clone();
                if w == What::Paths || w == What::Monos {
                    full.limit = Some(u32::MAX);
                    full.limit2 = Some(u32::MAX);
                } else {
                    full.limit = Some(u32::MAX);
                    full.limit2 = if w == What::Dominators { Some(u32::MAX) } else { None };
                }
                if w != What::Paths || full.paths_cost(&sides[side].g, 1500) <= 1500 {
                    let new_src = if w == What::Diff { Some(&sides[other].src) } else { None };
                    let r = full.options().and_then(|o| match fresh(&sides[side].src, new_src, &o) {
                        Ok(Ok(o)) => Ok(o),
                        Ok(Err(e)) | Err(e) => Err(e),
                    });
                    match r {
                        Ok(fo) => {
                            s.stats.add("limited reports compared with unlimited ones", 1);
                            if let Err(e) = oracle::check_prefix(&sp, &outs, &fo) {
                                s.bad(e);
                            }
                        }
                        Err(e) => s.viol(&[ANY], format!("{}: {}", full.show(), e)),
                    }
                }
            }
        }
        if t.chance(1, 2) && kept.len() < 4 {
            kept.push(Kept { rep, want, side, name: sp.show() });
        }
        if !s.viols.is_empty() {
            break;
        }
    }
    s
}
