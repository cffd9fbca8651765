//! Linked native objects with known debug information: ELF and Mach-O in both
//! classes and byte orders, PE in both classes, DWARF 2 to 5, with the encodings
//! that compilers choose between.

use crate::gen::{func_name, Knobs};
use crate::tape::Tape;

/// A function as its debug information describes it. No name: none recorded.
#[derive(Clone, Debug)]
pub struct Func {
    pub name: Option<String>,
    pub generic: Option<String>,
    pub size: u64,
}

#[derive(Clone, Debug)]
pub struct Object {
    pub bytes: Vec<u8>,
    pub funcs: Vec<Func>,
    pub desc: String,
    /// Bytes that say something about functions.
    vital: Vec<(usize, usize)>,
    /// Where a section's size is stored, how wide, the size, and to which
    /// sizes the section cannot be cut without hiding the cut.
    cuts: Vec<(usize, usize, u64, Vec<u64>, &'static str)>,
    /// Offsets at which structures start; damage likes these.
    pub starts: Vec<usize>,
    /// Where section names of a PE file are, at its end.
    pub names: Option<usize>,
    be: bool,
}

#[derive(Clone, Default)]
struct B {
    v: Vec<u8>,
    be: bool,
}

impl B {
    fn new(be: bool) -> B {
        B { v: vec![], be }
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn put(&mut self, at: usize, n: usize, x: u64) {
        for i in 0..n {
            let sh = if self.be { n - 1 - i } else { i };
            self.v[at + i] = (x >> (8 * sh)) as u8;
        }
    }
    fn uint(&mut self, n: usize, x: u64) {
        let at = self.len();
        self.v.resize(at + n, 0);
        self.put(at, n, x);
    }
    fn uleb(&mut self, mut x: u64) {
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            self.v.push(if x == 0 { b } else { b | 0x80 });
            if x == 0 {
                break;
            }
        }
    }
    fn sleb(&mut self, mut x: i64) {
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            let end = (x == 0 && b & 0x40 == 0) || (x == -1 && b & 0x40 != 0);
            self.v.push(if end { b } else { b | 0x80 });
            if end {
                break;
            }
        }
    }
    fn cstr(&mut self, s: &str) {
        self.v.extend_from_slice(s.as_bytes());
        self.v.push(0);
    }
}

/// How an attribute's value is written after its form.
#[derive(Clone)]
enum Val {
    None,
    Int(usize, u64),
    Uleb(u64),
    Sleb(i64),
    Str(String),
    Raw(Vec<u8>),
    /// Filled in when the unit's tables have been placed.
    Later(Later),
}

#[derive(Clone, Copy)]
enum Later {
    StrBase,
    AddrBase,
    RngBase,
    /// Offset of a range list of this unit.
    List(usize),
    /// Offset of the next sibling.
    Sibling,
}

type Attr = (u64, u64, Val, Option<i64>);

struct Unit {
    ver: u64,
    wide: bool,
    asz: usize,
    start: usize,
    low: u64,
    abbrevs: Vec<(u64, bool, Vec<(u64, u64, Option<i64>)>)>,
    first_code: u64,
    strs: Vec<u64>,
    addrs: Vec<u64>,
    lists: Vec<Vec<u8>>,
    later: Vec<(usize, Later)>,
    siblings: Vec<usize>,
    /// What this producer is in the habit of.
    strx: bool,
    addrx: bool,
    rnglistx: bool,
    types: bool,
}

impl Unit {
    fn off(&self) -> usize {
        if self.wide { 8 } else { 4 }
    }
}

struct Gen<'a> {
    k: &'a Knobs,
    info: B,
    abbrev: B,
    strs: B,
    line_strs: B,
    str_offsets: B,
    addr: B,
    ranges: B,
    rnglists: B,
    funcs: Vec<Func>,
    next_pc: u64,
    budget: usize,
    count: usize,
    total: u64,
}

const SUBPROGRAM: u64 = 0x2e;

impl<'a> Gen<'a> {
    fn attr_int(form: u64, n: usize, name: u64, x: u64) -> Attr {
        (name, form, Val::Int(n, x), None)
    }

    fn string(&mut self, t: &mut Tape, u: &mut Unit, name: u64, s: &str) -> Attr {
        let indirect = t.chance(1, 30);
        let (form, val) = match t.weighted(&[3, 3, if u.ver >= 5 { 2 } else { 0 }, if u.strx { 8 } else { 0 }]) {
            0 => (0x08, Val::Str(s.to_string())),
            1 => {
                let at = self.strs.len() as u64;
                self.strs.cstr(s);
                (0x0e, Val::Int(u.off(), at))
            }
            2 => {
                let at = self.line_strs.len() as u64;
                self.line_strs.cstr(s);
                (0x1f, Val::Int(u.off(), at))
            }
            _ => {
                u.strs.push(self.strs.len() as u64);
                self.strs.cstr(s);
                let i = u.strs.len() as u64 - 1;
                Self::indexed(t, i, 0x1a, 0x25)
            }
        };
        if indirect {
            // The form itself is in the entry.
            let mut b = B::new(self.info.be);
            b.uleb(form);
            write_val(&mut b, &val);
            return (name, 0x16, Val::Raw(b.v), None);
        }
        (name, form, val, None)
    }

    /// An index into a table of the unit's: as LEB, or of a fixed width.
    fn indexed(t: &mut Tape, i: u64, uleb: u64, fixed: u64) -> (u64, Val) {
        match t.weighted(&[4, if i < 256 { 2 } else { 0 }, 1, 1, 1]) {
            0 => (uleb, Val::Uleb(i)),
            n => (fixed + n as u64 - 1, Val::Int(n, i)),
        }
    }

    fn address(&mut self, t: &mut Tape, u: &mut Unit, name: u64, a: u64) -> Attr {
        if u.addrx && t.chance(4, 5) {
            let i = match u.addrs.iter().position(|&x| x == a) {
                Some(i) => i,
                None => {
                    u.addrs.push(a);
                    u.addrs.len() - 1
                }
            };
            let (form, val) = Self::indexed(t, i as u64, 0x1b, 0x29);
            return (name, form, val, None);
        }
        (name, 0x01, Val::Int(u.asz, a), None)
    }

    /// Addresses for a piece of code.
    fn place(&mut self, t: &mut Tape, size: u64) -> u64 {
        let a = self.next_pc;
        self.next_pc += size + t.small(64);
        a
    }

    fn low_high(&mut self, t: &mut Tape, u: &mut Unit, size: u64, out: &mut Vec<Attr>) {
        let a = self.place(t, size);
        out.push(self.address(t, u, 0x11, a));
        let as_address = u.ver < 4 || t.chance(1, 5);
        if as_address {
            let hi = self.address(t, u, 0x12, a + size);
            out.push(hi);
            return;
        }
        let narrow = [size < 0x80, size < 0x8000, size < 0x8000_0000, true];
        let forms = [(0x0bu64, 1usize), (0x05, 2), (0x06, 4), (0x07, 8)];
        let pick = t.below(6);
        out.push(match pick {
            0..=3 if narrow[pick] => Self::attr_int(forms[pick].0, forms[pick].1, 0x12, size),
            4 => (0x12, 0x0f, Val::Uleb(size), None),
            5 if u.ver >= 5 => (0x12, 0x21, Val::None, Some(size as i64)),
            _ => Self::attr_int(0x06, 4, 0x12, size),
        });
    }

    /// Code in several pieces.
    fn pieces(&mut self, t: &mut Tape, u: &mut Unit, sizes: &[u64]) -> Attr {
        let places: Vec<(u64, u64)> = sizes.iter().map(|&s| (self.place(t, s), s)).collect();
        let (be, asz) = (self.info.be, u.asz);
        if u.ver < 5 {
            let at = self.ranges.len() as u64;
            let mut base = u.low;
            for &(a, s) in &places {
                if base > a || t.chance(1, 6) {
                    base = if t.chance(1, 2) { 0 } else { a - t.small(a.min(0x100)) };
                    self.ranges.uint(asz, if asz == 8 { !0 } else { 0xffff_ffff });
                    self.ranges.uint(asz, base);
                }
                if s == 0 && a == base {
                    // Would read as the end of the list.
                    continue;
                }
                self.ranges.uint(asz, a - base);
                self.ranges.uint(asz, a + s - base);
            }
            self.ranges.uint(asz, 0);
            self.ranges.uint(asz, 0);
            return match (u.ver, u.wide) {
                (4, _) => Self::attr_int(0x17, u.off(), 0x55, at),
                (_, false) => Self::attr_int(0x06, 4, 0x55, at),
                (_, true) => Self::attr_int(0x07, 8, 0x55, at),
            };
        }
        let mut b = B::new(be);
        let mut base = u.low;
        let index = |u: &mut Unit, a: u64| {
            u.addrs.push(a);
            u.addrs.len() as u64 - 1
        };
        for &(a, s) in &places {
            if base > a || t.chance(1, 4) {
                base = a - t.small(a.min(0x100));
                if u.addrx && t.chance(1, 2) {
                    b.v.push(1);
                    let i = index(u, base);
                    b.uleb(i);
                } else {
                    b.v.push(5);
                    b.uint(asz, base);
                }
            }
            match t.weighted(&[4, 1, 1, if u.addrx { 2 } else { 0 }, if u.addrx { 2 } else { 0 }]) {
                0 => {
                    b.v.push(4);
                    b.uleb(a - base);
                    b.uleb(a + s - base);
                }
                1 => {
                    b.v.push(6);
                    b.uint(asz, a);
                    b.uint(asz, a + s);
                }
                2 => {
                    b.v.push(7);
                    b.uint(asz, a);
                    b.uleb(s);
                }
                3 => {
                    b.v.push(2);
                    let (x, y) = (index(u, a), index(u, a + s));
                    b.uleb(x);
                    b.uleb(y);
                }
                _ => {
                    b.v.push(3);
                    let x = index(u, a);
                    b.uleb(x);
                    b.uleb(s);
                }
            }
        }
        b.v.push(0);
        u.lists.push(b.v);
        let n = u.lists.len() - 1;
        if u.rnglistx && t.chance(3, 4) {
            return (0x55, 0x23, Val::Uleb(n as u64), None);
        }
        (0x55, 0x17, Val::Later(Later::List(n)), None)
    }

    /// Attributes that say nothing about code.
    fn noise(&mut self, t: &mut Tape, u: &mut Unit, out: &mut Vec<Attr>) {
        let n = t.small(4);
        for _ in 0..n {
            let v4 = u.ver >= 4;
            let a: Attr = match t.below(11) {
                0 => Self::attr_int(0x0b, 1, 0x3a, 1),
                1 => Self::attr_int(0x05, 2, 0x3b, t.draw(60_000)),
                2 => Self::attr_int(0x0c, 1, 0x3f, 1),
                3 if v4 => (0x27, 0x19, Val::None, None),
                4 => Self::attr_int(0x13, 4, 0x49, 11 + t.draw(40)),
                5 if v4 => (0x40, 0x18, Val::Raw(vec![1, 0x9c]), None),
                6 => (0x40, 0x0a, Val::Raw(vec![2, 0x91, 0x70]), None),
                7 => (0x1c, 0x0d, Val::Sleb(t.draw(4000) as i64 - 2000), None),
                8 if u.ver >= 5 => (0x1c, 0x1e, Val::Raw((0..16).collect()), None),
                9 if u.ver >= 5 => (0x3a, 0x21, Val::None, Some(t.draw(300) as i64)),
                10 => (0x2117, 0x0c, Val::Int(1, 1), None),
                _ => Self::attr_int(0x0f - 4, 1, 0x39, 2),
            };
            if out.iter().all(|x| x.0 != a.0) {
                out.push(a);
            }
        }
    }

    fn die(&mut self, t: &mut Tape, u: &mut Unit, tag: u64, children: bool, mut attrs: Vec<Attr>, shuffle: bool) {
        if shuffle {
            for i in (1..attrs.len()).rev() {
                let j = t.below(i + 1);
                attrs.swap(i, j);
            }
        }
        let key = (tag, children, attrs.iter().map(|a| (a.0, a.1, a.3)).collect::<Vec<_>>());
        let i = match u.abbrevs.iter().position(|x| *x == key) {
            Some(i) => i,
            None => {
                u.abbrevs.push(key);
                u.abbrevs.len() - 1
            }
        };
        self.info.uleb(u.first_code + i as u64);
        for (_, _, val, _) in &attrs {
            match val {
                Val::Later(l) => {
                    let (n, at) = (if let Later::Sibling = l { 4 } else { u.off() }, self.info.len());
                    match l {
                        Later::Sibling => u.siblings.push(at),
                        l => u.later.push((at, *l)),
                    }
                    self.info.uint(n, 0);
                }
                v => write_val(&mut self.info, v),
            }
        }
    }

    fn subprogram(&mut self, t: &mut Tape, u: &mut Unit, depth: u32) {
        let mut attrs: Vec<Attr> = vec![];
        let code = !t.chance(1, 4) && !u.types;
        let i = self.count;
        self.count += 1;
        let (sym, shown, generic) = func_name(t, self.k, i);
        let (sym, shown) = (sym.replace('\0', "0"), shown.replace('\0', "0"));
        let named = t.weighted(&[5, 4, 1]);
        match named {
            0 => {
                let a = self.string(t, u, 0x03, &sym);
                attrs.push(a);
            }
            1 => {
                let a = self.string(t, u, 0x6e, &sym);
                attrs.push(a);
                if t.chance(4, 5) {
                    let b = self.string(t, u, 0x03, "plain");
                    attrs.push(b);
                }
            }
            _ => {}
        }
        if code {
            let room = 0x4000_0000u64.saturating_sub(self.total);
            let size = |t: &mut Tape| {
                let s = match t.weighted(&[1, 10, 3, 1]) {
                    0 => 0,
                    1 => 1 + t.small(300),
                    2 => 1 + t.small(100_000),
                    _ => 1 + t.small(room / 8),
                };
                s.min(room / 8)
            };
            let total;
            if t.chance(1, 4) {
                let sizes: Vec<u64> = (0..1 + t.small(4)).map(|_| size(t)).collect();
                total = sizes.iter().sum();
                let a = self.pieces(t, u, &sizes);
                attrs.push(a);
            } else {
                total = size(t);
                self.low_high(t, u, total, &mut attrs);
            }
            self.total += total;
            let (name, generic) = if named == 2 { (None, None) } else { (Some(shown), generic) };
            self.funcs.push(Func { name, generic, size: total });
        } else if t.chance(3, 4) {
            attrs.push(if u.ver >= 4 { (0x3c, 0x19, Val::None, None) } else { Self::attr_int(0x0c, 1, 0x3c, 1) });
        }
        self.noise(t, u, &mut attrs);
        let kids = t.chance(1, 3);
        let sibling = kids && t.chance(1, 2);
        if sibling {
            attrs.insert(0, (0x01, 0x13, Val::Later(Later::Sibling), None));
        }
        self.die(t, u, SUBPROGRAM, kids, attrs, true);
        if kids {
            self.children(t, u, depth + 1);
        }
        if sibling {
            let at = u.siblings.pop().expect("sibling");
            let x = (self.info.len() - u.start) as u64;
            self.info.put(at, 4, x);
        }
    }

    fn children(&mut self, t: &mut Tape, u: &mut Unit, depth: u32) {
        let n = if depth == 0 { t.small(self.budget as u64) } else { t.small(5) };
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let deep = depth < 5;
            let mut attrs: Vec<Attr> = vec![];
            let code = if u.types { 0 } else { 2 };
            let kind = t.weighted(&[12, 2, 2, 2, 2, code, code, 1, 1]);
            let (tag, kids) = match kind {
                0 => {
                    self.subprogram(t, u, depth);
                    continue;
                }
                1 => (0x39, deep && t.chance(3, 4)), // namespace
                2 => (0x13, deep && t.chance(3, 4)), // structure
                3 => (0x24, false),                  // base type
                4 => (0x34, false),                  // variable
                5 => {
                    // Blocks and inlined calls have code of their functions.
                    let s = 1 + t.small(40);
                    if t.chance(1, 3) {
                        let a = self.pieces(t, u, &[s, 3]);
                        attrs.push(a);
                    } else {
                        self.low_high(t, u, s, &mut attrs);
                    }
                    (*t.pick(&[0x0b, 0x1d]), deep && t.chance(1, 2))
                }
                6 => {
                    let a = self.address(t, u, 0x11, self.next_pc);
                    attrs.push(a);
                    (0x0a, false)
                }
                7 => (0x05, false),
                _ => (0x4107, t.chance(1, 3)),
            };
            if !matches!(tag, 0x0b | 0x1d) && t.chance(2, 3) {
                let a = self.string(t, u, 0x03, "thing");
                attrs.push(a);
            }
            self.noise(t, u, &mut attrs);
            self.die(t, u, tag, kids, attrs, true);
            if kids {
                self.children(t, u, depth + 1);
            }
        }
        self.info.v.push(0);
    }

    /// Writes a unit; returns what it is.
    fn unit(&mut self, t: &mut Tape, asz: usize) -> String {
        let ver = *t.pick(&[5u64, 4, 5, 3, 2]);
        let wide = ver >= 3 && t.chance(1, 8);
        let modern = ver >= 5;
        let mut u = Unit {
            ver,
            wide,
            asz,
            start: self.info.len(),
            low: 0,
            abbrevs: vec![],
            first_code: 1 + t.small(200),
            strs: vec![],
            addrs: vec![],
            lists: vec![],
            later: vec![],
            siblings: vec![],
            strx: modern && t.chance(1, 2),
            addrx: modern && t.chance(1, 2),
            rnglistx: modern && t.chance(1, 2),
            types: false,
        };
        let (off, be) = (u.off(), self.info.be);
        if wide {
            self.info.uint(4, 0xffff_ffff);
        }
        let len_at = self.info.len();
        self.info.uint(off, 0);
        let body = self.info.len();
        self.info.uint(2, ver);
        let abbrev_at = self.abbrev.len() as u64;
        if modern {
            let kind = *t.pick(&[1u64, 1, 1, 3, 2]);
            self.info.uint(1, kind);
            self.info.uint(1, asz as u64);
            self.info.uint(off, abbrev_at);
            if kind == 2 {
                // Types have no code.
                self.info.uint(8, 0x1234_5678_9abc_def0);
                self.info.uint(off, 0x20);
                u.types = true;
            }
        } else {
            self.info.uint(off, abbrev_at);
            self.info.uint(1, asz as u64);
        }
        // The root. Table bases come before what needs them.
        let mut attrs: Vec<Attr> = vec![];
        if u.strx {
            attrs.push((0x72, 0x17, Val::Later(Later::StrBase), None));
        }
        if u.addrx {
            attrs.push((0x73, 0x17, Val::Later(Later::AddrBase), None));
        }
        if u.rnglistx {
            attrs.push((0x74, 0x17, Val::Later(Later::RngBase), None));
        }
        let a = self.string(t, &mut u, 0x25, "simulated");
        attrs.push(a);
        let a = self.string(t, &mut u, 0x03, "unit.c");
        attrs.push(a);
        attrs.push(Self::attr_int(0x05, 2, 0x13, 0x0c));
        let base = self.next_pc;
        match t.below(3) {
            0 => {
                let a = self.address(t, &mut u, 0x11, base);
                attrs.push(a);
                u.low = base;
                attrs.push(if ver >= 4 {
                    Self::attr_int(0x06, 4, 0x12, 0x100)
                } else {
                    Self::attr_int(0x01, asz, 0x12, base + 0x100)
                });
            }
            1 => {
                attrs.push((0x11, 0x01, Val::Int(asz, 0), None));
                let s = [5 + t.small(40), 7];
                let a = self.pieces(t, &mut u, &s);
                attrs.push(a);
            }
            _ => {}
        }
        let kids = !t.chance(1, 12);
        let before = self.funcs.len();
        let tag = if u.types { 0x41 } else { 0x11 };
        self.die(t, &mut u, tag, kids, attrs, false);
        if kids {
            self.children(t, &mut u, 0);
        }
        for _ in 0..if t.chance(1, 6) { t.small(4) } else { 0 } {
            self.info.v.push(0);
        }
        let len = (self.info.len() - body) as u64;
        self.info.put(len_at, off, len);
        // Its abbreviations.
        let mut order: Vec<usize> = (0..u.abbrevs.len()).collect();
        if t.chance(1, 3) {
            order.reverse();
        }
        for i in order {
            let (tag, kids, specs) = &u.abbrevs[i];
            self.abbrev.uleb(u.first_code + i as u64);
            self.abbrev.uleb(*tag);
            self.abbrev.v.push(*kids as u8);
            for (name, form, implicit) in specs {
                self.abbrev.uleb(*name);
                self.abbrev.uleb(*form);
                if let Some(x) = implicit {
                    self.abbrev.sleb(*x);
                }
            }
            self.abbrev.v.extend_from_slice(&[0, 0]);
        }
        self.abbrev.v.push(0);
        // Its tables.
        let header = |b: &mut B, extra: usize, n: usize| {
            if wide {
                b.uint(4, 0xffff_ffff);
            }
            b.uint(off, (4 + extra + n) as u64);
            b.uint(2, 5);
        };
        header(&mut self.str_offsets, 0, u.strs.len() * off);
        self.str_offsets.uint(2, 0);
        let str_base = self.str_offsets.len() as u64;
        for &x in &u.strs {
            self.str_offsets.uint(off, x);
        }
        header(&mut self.addr, 0, u.addrs.len() * asz);
        self.addr.uint(1, asz as u64);
        self.addr.uint(1, 0);
        let addr_base = self.addr.len() as u64;
        for &x in &u.addrs {
            self.addr.uint(asz, x);
        }
        let bytes: usize = u.lists.iter().map(|l| l.len()).sum();
        let n = if u.rnglistx { u.lists.len() } else { 0 };
        header(&mut self.rnglists, 4, n * off + bytes);
        self.rnglists.uint(1, asz as u64);
        self.rnglists.uint(1, 0);
        self.rnglists.uint(4, n as u64);
        let rng_base = self.rnglists.len() as u64;
        let mut at = rng_base + (n * off) as u64;
        let mut places = vec![];
        for l in &u.lists {
            places.push(at);
            at += l.len() as u64;
        }
        for &p in places.iter().take(n) {
            self.rnglists.uint(off, p - rng_base);
        }
        for l in &u.lists {
            self.rnglists.v.extend_from_slice(l);
        }
        for &(at, l) in &u.later {
            let x = match l {
                Later::StrBase => str_base,
                Later::AddrBase => addr_base,
                Later::RngBase => rng_base,
                Later::List(i) => places[i],
                Later::Sibling => unreachable!(),
            };
            self.info.put(at, off, x);
        }
        let _ = be;
        format!(
            "DWARF {}{}{}{}{}, {} functions",
            ver,
            if wide { " 64-bit" } else { "" },
            if u.strx { " strx" } else { "" },
            if u.addrx { " addrx" } else { "" },
            if u.rnglistx { " rnglistx" } else { "" },
            self.funcs.len() - before
        )
    }
}

fn write_val(b: &mut B, v: &Val) {
    match v {
        Val::None => {}
        Val::Int(n, x) => b.uint(*n, *x),
        Val::Uleb(x) => b.uleb(*x),
        Val::Sleb(x) => b.sleb(*x),
        Val::Str(s) => b.cstr(s),
        Val::Raw(r) => b.v.extend_from_slice(r),
        Val::Later(_) => unreachable!(),
    }
}

/// zlib without compression.
fn zlib(data: &[u8]) -> Vec<u8> {
    let mut z = vec![0x78, 0x01];
    let mut chunks: Vec<&[u8]> = data.chunks(0xffff).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    for (i, c) in chunks.iter().enumerate() {
        z.push((i + 1 == chunks.len()) as u8);
        z.extend_from_slice(&(c.len() as u16).to_le_bytes());
        z.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        z.extend_from_slice(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for &x in data {
        a = (a + u32::from(x)) % 65521;
        b = (b + a) % 65521;
    }
    z.extend_from_slice(&(b << 16 | a).to_be_bytes());
    z
}

/// A section of the file to be.
struct Sec {
    name: String,
    kind: u64,
    flags: u64,
    data: Vec<u8>,
    vital: bool,
    cut: Option<&'static str>,
}

/// The file, and where things are in it.
struct File {
    bytes: Vec<u8>,
    vital: Vec<(usize, usize)>,
    starts: Vec<usize>,
    /// For each section: where its size is stored.
    sizes: Vec<usize>,
    /// How wide sizes are.
    w: usize,
    names: Option<usize>,
}

/// `any`: in any container, otherwise only ELF.
pub fn object(t: &mut Tape, k: &Knobs, any: bool) -> Object {
    let be = t.chance(1, 4);
    let wide = !t.chance(1, 3);
    let container = if any { t.weighted(&[4, 1, 1]) } else { 0 };
    let be = be && container != 2;
    let asz = if wide { 8 } else { 4 };
    let new = || B::new(be);
    let mut g = Gen {
        k,
        info: new(),
        abbrev: new(),
        strs: new(),
        line_strs: new(),
        str_offsets: new(),
        addr: new(),
        ranges: new(),
        rnglists: new(),
        funcs: vec![],
        next_pc: 0x1000 + t.small(0x10_0000),
        budget: 0,
        count: 0,
        total: 0,
    };
    // Offset 0 is a string of its own, as linkers do it.
    g.strs.cstr("");
    let nunits = 1 + t.small(4);
    let mut ends = vec![];
    let mut units = vec![];
    for _ in 0..nunits {
        g.budget = k.max_funcs.min(60) as usize * 2;
        units.push(g.unit(t, asz));
        ends.push(g.info.len() as u64);
    }
    let mut desc = format!(
        "{} {}-bit {}, {} units ({})",
        ["ELF", "Mach-O", "PE"][container],
        if wide { 64 } else { 32 },
        if be { "big-endian" } else { "little-endian" },
        nunits,
        units.join("; ")
    );
    // The file.
    let packed = if container > 0 { 0 } else { t.weighted(&[6, 1, 1]) };
    if packed > 0 {
        desc.push_str([", compressed", ", compressed the GNU way"][packed - 1]);
    }
    let debug: Vec<(&'static str, Vec<u8>)> = vec![
        ("info", g.info.v.clone()),
        ("abbrev", g.abbrev.v.clone()),
        ("str", g.strs.v.clone()),
        ("line_str", g.line_strs.v.clone()),
        ("str_offsets", g.str_offsets.v.clone()),
        ("addr", g.addr.v.clone()),
        ("ranges", g.ranges.v.clone()),
        ("rnglists", g.rnglists.v.clone()),
    ];
    let mut secs: Vec<Sec> = vec![];
    let filler = |t: &mut Tape| -> Vec<u8> { (0..t.small(600)).map(|i| (i * 7) as u8).collect() };
    let text = filler(t);
    secs.push(Sec { name: ".text".into(), kind: 1, flags: 6, data: text, vital: false, cut: None });
    let data = filler(t);
    secs.push(Sec { name: ".data".into(), kind: 1, flags: 3, data, vital: false, cut: None });
    for (name, data) in debug {
        // Sections that nothing refers to are left out by most producers.
        if data.is_empty() && t.chance(3, 4) {
            continue;
        }
        let (name, flags, data, cut) = match packed {
            1 => {
                let mut h = B::new(be);
                if wide {
                    h.uint(4, 1);
                    h.uint(4, 0);
                    h.uint(8, data.len() as u64);
                    h.uint(8, 1);
                } else {
                    h.uint(4, 1);
                    h.uint(4, data.len() as u64);
                    h.uint(4, 1);
                }
                h.v.extend(zlib(&data));
                (format!(".debug_{}", name), 0x800, h.v, None)
            }
            2 => {
                let mut h = b"ZLIB".to_vec();
                h.extend_from_slice(&(data.len() as u64).to_be_bytes());
                h.extend(zlib(&data));
                (format!(".zdebug_{}", name), 0, h, None)
            }
            _ => (format!(".debug_{}", name), 0, data, Some(name)),
        };
        secs.push(Sec { name, kind: 1, flags, data, vital: true, cut });
    }
    let comment = b"GCC: (simulated) 13.3.0\0".to_vec();
    secs.push(Sec { name: ".comment".into(), kind: 1, flags: 0x30, data: comment, vital: false, cut: None });
    for i in (1..secs.len()).rev() {
        let j = t.below(i + 1);
        secs.swap(i, j);
    }
    let file = match container {
        1 => macho(t, &secs, wide, be),
        2 => pe(t, &secs, wide),
        _ => elf(t, &secs, wide, be),
    };
    let mut cuts = vec![];
    for (s, &at) in secs.iter().zip(&file.sizes) {
        if let (Some(name), false) = (s.cut, s.data.is_empty()) {
            // A list of ranges may end with its section.
            let hidden = match name {
                "info" => ends.iter().copied().chain(Some(0)).collect(),
                "ranges" => (0..s.data.len() as u64).step_by(2 * asz).collect(),
                "rnglists" => continue,
                _ => vec![],
            };
            cuts.push((at, file.w, s.data.len() as u64, hidden, name));
        }
    }
    desc.push_str(&format!(", {} functions in {} bytes", g.funcs.len(), file.bytes.len()));
    Object {
        bytes: file.bytes,
        funcs: g.funcs,
        desc,
        vital: file.vital,
        cuts,
        starts: file.starts,
        names: file.names,
        be,
    }
}

fn elf(t: &mut Tape, secs: &[Sec], wide: bool, be: bool) -> File {
    let asz = if wide { 8 } else { 4 };
    let mut names = vec![0u8];
    let mut name_at = vec![];
    for s in secs {
        name_at.push(names.len() as u64);
        names.extend_from_slice(s.name.as_bytes());
        names.push(0);
    }
    // Most put it last.
    let strtab_at = if t.chance(1, 3) { t.below(secs.len() + 1) } else { secs.len() };
    name_at.insert(strtab_at, names.len() as u64);
    names.extend_from_slice(b".shstrtab\0");
    let strtab =
        Sec { name: ".shstrtab".into(), kind: 3, flags: 0, data: names, vital: true, cut: None };
    let mut secs: Vec<&Sec> = secs.iter().collect();
    secs.insert(strtab_at, &strtab);
    let (eh, sh) = if wide { (64, 64) } else { (52, 40) };
    let nsec = secs.len() + 1;
    let front = t.chance(1, 3);
    let mut f = B::new(be);
    f.v.resize(eh + if front { sh * nsec } else { 0 }, 0);
    let mut vital = vec![(0, eh)];
    let mut starts: Vec<usize> = (0..eh).step_by(4).collect();
    let mut place = vec![];
    for s in &secs {
        while t.chance(1, 3) || f.len() % asz != 0 {
            f.v.push(0xcc);
        }
        place.push(f.len());
        if s.vital {
            vital.push((f.len(), f.len() + s.data.len()));
            starts.extend((f.len()..f.len() + s.data.len()).step_by(6));
        }
        f.v.extend_from_slice(&s.data);
    }
    while f.len() % 8 != 0 {
        f.v.push(0xcc);
    }
    let table = if front { eh } else { f.len() };
    if !front {
        f.v.resize(table + sh * nsec, 0);
    }
    vital.push((table, table + sh * nsec));
    // The header.
    f.v[..8].copy_from_slice(&[0x7f, b'E', b'L', b'F', if wide { 2 } else { 1 }, if be { 2 } else { 1 }, 1, 0]);
    f.put(16, 2, *t.pick(&[2u64, 3]));
    f.put(18, 2, match (wide, be) {
        (true, false) => 62,
        (true, true) => 21,
        (false, false) => 3,
        (false, true) => 20,
    });
    f.put(20, 4, 1);
    let w = asz;
    let shoff_at = 24 + 2 * w;
    f.put(shoff_at, w, table as u64);
    let at = shoff_at + w + 4;
    for (i, x) in [eh as u64, 0, 0, sh as u64, nsec as u64, strtab_at as u64 + 1].iter().enumerate() {
        f.put(at + 2 * i, 2, *x);
    }
    let mut sizes = vec![];
    for (i, s) in secs.iter().enumerate() {
        let h = table + sh * (i + 1);
        starts.push(h);
        f.put(h, 4, name_at[i]);
        f.put(h + 4, 4, s.kind);
        f.put(h + 8, w, s.flags);
        f.put(h + 8 + w, w, 0);
        f.put(h + 8 + 2 * w, w, place[i] as u64);
        f.put(h + 8 + 3 * w, w, s.data.len() as u64);
        f.put(h + 8 + 4 * w + 8, w, 1);
        sizes.push(h + 8 + 3 * w);
    }
    sizes.remove(strtab_at);
    File { bytes: f.v, vital, starts, sizes, w, names: None }
}

/// Appends the sections' contents; returns where they are.
fn lay(t: &mut Tape, f: &mut B, secs: &[Sec], align: usize, vital: &mut Vec<(usize, usize)>) -> Vec<usize> {
    let mut place = vec![];
    for s in secs {
        let gap = t.small(3) as usize * align;
        f.v.resize((f.len() + align - 1) / align * align + gap, 0xcc);
        place.push(f.len());
        if s.vital {
            vital.push((f.len(), f.len() + s.data.len()));
        }
        f.v.extend_from_slice(&s.data);
    }
    place
}

/// An executable, or a file with the debug information of one.
fn macho(t: &mut Tape, secs: &[Sec], wide: bool, be: bool) -> File {
    let w = if wide { 8 } else { 4 };
    let (hs, cs, ss) = if wide { (32, 72, 80) } else { (28, 56, 68) };
    // Code and data in a segment of their own, as linkers do it.
    let (a, b): (Vec<usize>, Vec<usize>) = (0..secs.len()).partition(|&i| !secs[i].vital);
    let segs = [("__TEXT", a), ("__DWARF", b)];
    let uuid = t.chance(1, 2);
    let ncmds = 2 + uuid as usize;
    let cmds = 2 * cs + ss * secs.len() + if uuid { 24 } else { 0 };
    let mut f = B::new(be);
    f.v.resize(hs + cmds, 0);
    let mut vital = vec![(0, hs + cmds)];
    let place = lay(t, &mut f, secs, 4, &mut vital);
    f.put(0, 4, if wide { 0xfeed_facf } else { 0xfeed_face });
    f.put(4, 4, match (wide, be) {
        (true, false) => 0x0100_0007,
        (true, true) => 0x0100_0012,
        (false, false) => 7,
        (false, true) => 18,
    });
    f.put(8, 4, 3);
    f.put(12, 4, *t.pick(&[2u64, 6, 10]));
    f.put(16, 4, ncmds as u64);
    f.put(20, 4, cmds as u64);
    let mut at = hs;
    let mut sizes = vec![0; secs.len()];
    let name = |f: &mut B, at: usize, n: &str| {
        for (i, c) in n.bytes().take(16).enumerate() {
            f.v[at + i] = c;
        }
    };
    for (i, (seg, members)) in segs.iter().enumerate() {
        if uuid && i == 1 {
            f.put(at, 4, 0x1b);
            f.put(at + 4, 4, 24);
            at += 24;
        }
        let lo = members.iter().map(|&m| place[m]).min().unwrap_or(0) as u64;
        let hi = members.iter().map(|&m| place[m] + secs[m].data.len()).max().unwrap_or(0) as u64;
        f.put(at, 4, if wide { 0x19 } else { 1 });
        f.put(at + 4, 4, (cs + ss * members.len()) as u64);
        name(&mut f, at + 8, seg);
        for (j, x) in [0x1000 + lo, hi - lo, lo, hi - lo].iter().enumerate() {
            f.put(at + 24 + j * w, w, *x);
        }
        f.put(at + 24 + 4 * w, 4, 7);
        f.put(at + 28 + 4 * w, 4, 5);
        f.put(at + 32 + 4 * w, 4, members.len() as u64);
        at += cs;
        for &m in members {
            // Names have at most 16 bytes, and begin with two underscores.
            name(&mut f, at, &format!("__{}", &secs[m].name[1..]));
            name(&mut f, at + 16, seg);
            f.put(at + 32, w, 0x1000 + place[m] as u64);
            f.put(at + 32 + w, w, secs[m].data.len() as u64);
            sizes[m] = at + 32 + w;
            f.put(at + 32 + 2 * w, 4, place[m] as u64);
            at += ss;
        }
    }
    File { bytes: f.v, vital, starts: vec![], sizes, w, names: None }
}

/// An executable as MinGW links it: the longer names are in the string table
/// of the symbol table.
fn pe(t: &mut Tape, secs: &[Sec], wide: bool) -> File {
    let opt = if wide { 240 } else { 224 };
    let stub = 64 + 8 * t.small(8) as usize;
    let table = stub + 24 + opt;
    let mut f = B::new(false);
    f.v.resize(table + 40 * secs.len(), 0);
    let mut vital = vec![(0, table + 40 * secs.len())];
    f.v[..2].copy_from_slice(b"MZ");
    f.put(60, 4, stub as u64);
    f.v[stub..stub + 4].copy_from_slice(b"PE\0\0");
    let place = lay(t, &mut f, secs, 512, &mut vital);
    while f.len() % 512 != 0 {
        f.v.push(0);
    }
    let symbols = f.len();
    let mut strings = vec![0u8; 4];
    let mut sizes = vec![];
    let mut rva = 0x1000u64;
    for (i, s) in secs.iter().enumerate() {
        let h = table + 40 * i;
        let n = if s.name.len() <= 8 {
            s.name.clone()
        } else {
            let at = strings.len();
            strings.extend_from_slice(s.name.as_bytes());
            strings.push(0);
            format!("/{}", at)
        };
        f.v[h..h + n.len()].copy_from_slice(n.as_bytes());
        let len = s.data.len() as u64;
        // What is in the file fills whole blocks, zeros after the end.
        f.put(h + 8, 4, len);
        f.put(h + 12, 4, rva);
        rva += (len + 0xfff).max(1) / 0x1000 * 0x1000;
        f.put(h + 16, 4, (len + 511) / 512 * 512);
        f.put(h + 20, 4, place[i] as u64);
        f.put(h + 36, 4, if s.vital { 0x4200_0040 } else { 0x6000_0020 });
        sizes.push(h + 8);
    }
    let n = strings.len() as u32;
    strings[..4].copy_from_slice(&n.to_le_bytes());
    vital.push((symbols, symbols + strings.len()));
    f.v.extend_from_slice(&strings);
    f.put(stub + 4, 2, if wide { 0x8664 } else { 0x14c });
    f.put(stub + 6, 2, secs.len() as u64);
    f.put(stub + 12, 4, symbols as u64);
    f.put(stub + 20, 2, opt as u64);
    f.put(stub + 22, 2, if wide { 0x22 } else { 0x102 });
    let o = stub + 24;
    f.put(o, 2, if wide { 0x20b } else { 0x10b });
    f.put(o + if wide { 24 } else { 28 }, if wide { 8 } else { 4 }, 0x40_0000);
    f.put(o + 32, 4, 0x1000);
    f.put(o + 36, 4, 512);
    f.put(o + 56, 4, rva);
    f.put(o + 60, 4, (table + 40 * secs.len()) as u64);
    f.put(o + 68, 2, 3);
    f.put(o + if wide { 108 } else { 92 }, 4, 16);
    File { bytes: f.v, vital, starts: vec![], sizes, w: 4, names: Some(symbols) }
}

impl Object {
    /// Loses or garbles part of the file, so that either nothing that concerns
    /// functions is gone, or it can be told that something is.
    pub fn lose(&self, t: &mut Tape, stats: &mut crate::sess::Stats) -> (Vec<u8>, String) {
        let mut b = self.bytes.clone();
        match t.below(4) {
            3 if !self.cuts.is_empty() && self.names.is_none() => {
                // Longer than the file; where it ends may overflow.
                let (at, w, _, _, name) = t.pick(&self.cuts).clone();
                let max = if w == 8 { u64::MAX } else { u32::MAX as u64 };
                let to = match t.below(4) {
                    0 => max - t.small(2000),
                    1 => max / 2 + t.small(2000),
                    2 => b.len() as u64 + t.small(2000),
                    _ => b.len() as u64,
                };
                let mut f = B { v: b, be: self.be };
                f.put(at, w, to);
                stats.add("object: debug section said to be longer than the file", 1);
                return (f.v, format!(".debug_{} is said to have {} bytes", name, to));
            }
            0 if !self.cuts.is_empty() => {
                let (at, w, len, hidden, name) = t.pick(&self.cuts).clone();
                let to = if t.chance(1, 3) { len - 1 - t.small(len - 1) } else { t.draw(len) };
                if !hidden.contains(&to) {
                    let mut f = B { v: b, be: self.be };
                    f.put(at, w, to);
                    stats.add("object: debug section cut short", 1);
                    return (f.v, format!(".debug_{} ends after {} of {} bytes", name, to, len));
                }
            }
            1 => {
                let to = if t.chance(1, 3) { b.len() - 1 - t.small(b.len() as u64 - 1) as usize } else { t.below(b.len()) };
                b.truncate(to);
                stats.add("object: truncated", 1);
                return (b, format!("truncated to {} of {} bytes", to, self.bytes.len()));
            }
            _ => {}
        }
        let mut n = 0;
        for _ in 0..1 + t.small(4) {
            let at = t.below(b.len());
            let span = 1 + t.small(64) as usize;
            let x = *t.pick(&[0u8, 0xff, 0x7f, 1]);
            for i in at..(at + span).min(b.len()) {
                if !self.vital.iter().any(|&(lo, hi)| lo <= i && i < hi) && b[i] != x {
                    b[i] = x;
                    n += 1;
                }
            }
        }
        stats.add("object: other sections garbled", 1);
        (b, format!("{} bytes of other sections garbled", n))
    }

    /// Whether these are the functions, and all of them.
    pub fn differs(&self, g: &crate::model::Graph) -> Option<String> {
        if g.len() != self.funcs.len() {
            return Some(format!("{} functions are described, {} items are listed", self.funcs.len(), g.len()));
        }
        if g.succ.iter().any(|s| !s.is_empty()) || !g.roots.is_empty() || g.kinds.iter().any(|k| *k != crate::gen::Kind::Code) {
            return Some("an item is something other than a function on its own".into());
        }
        let mut left: Vec<usize> = (0..g.len()).collect();
        for f in self.funcs.iter().filter(|f| f.name.is_some()) {
            let name = f.name.as_ref().expect("named");
            let at = left.iter().position(|&i| g.names[i] == *name && g.sizes[i] == f.size && g.generics[i] == f.generic);
            match at {
                Some(p) => {
                    left.remove(p);
                }
                None => {
                    let got: Vec<_> = (0..g.len()).filter(|&i| g.names[i] == *name).map(|i| (g.sizes[i], &g.generics[i])).collect();
                    return Some(format!("`{}` of {} bytes ({:?}) is listed as {:?}", name, f.size, f.generic, got));
                }
            }
        }
        // The others have names made up for them, each its own.
        let mut want: Vec<u64> = self.funcs.iter().filter(|f| f.name.is_none()).map(|f| f.size).collect();
        let mut got: Vec<u64> = left.iter().map(|&i| g.sizes[i]).collect();
        want.sort_unstable();
        got.sort_unstable();
        if want != got {
            return Some(format!("functions without names have {:?} bytes, not {:?}", got, want));
        }
        let mut names: Vec<&String> = left.iter().map(|&i| &g.names[i]).collect();
        names.sort();
        names.dedup();
        if names.len() != left.len() || names.iter().any(|n| n.is_empty()) {
            return Some("functions without names cannot be told apart".into());
        }
        None
    }
}
