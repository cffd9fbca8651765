//! Generates wasm binaries together with the ground truth about them: which
//! items they consist of, how big each is, and which item refers to which.
//! Nothing in here looks at twiggy.

use crate::tape::Tape;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Code,
    Data,
    Debug,
    Misc,
}

#[derive(Clone, Debug)]
pub struct GItem {
    pub name: String,
    pub size: u64,
    pub kind: Kind,
    pub root: bool,
    pub generic: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub item: usize,
    pub start: Option<u64>,
    pub len: u64,
}

/// A byte that, stored wrong like this, leaves something that the tool needs to
/// read unreadable.
#[derive(Clone, Copy, Debug)]
pub struct Flaw {
    pub at: usize,
    pub byte: u8,
    pub what: &'static str,
    pub props: &'static [&'static str],
}

#[derive(Clone, Debug, Default)]
pub struct GMod {
    pub bytes: Vec<u8>,
    pub items: Vec<GItem>,
    /// References other than constant address loads.
    pub edges: BTreeSet<(usize, usize)>,
    /// Constant address loads: (code item, address).
    pub loads: Vec<(usize, u64)>,
    pub segs: Vec<Seg>,
    /// Offsets at which sections start; damage likes these.
    pub section_starts: Vec<usize>,
    pub flaws: Vec<Flaw>,
    pub desc: String,
}

/// What kind of module to make.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub max_funcs: u64,
    pub dup_names: bool,
    pub hostile: bool,
    pub generics: bool,
    pub dense: bool,
    pub padded_lebs: bool,
    pub big_bodies: bool,
    pub named: bool,
    /// What came after the first version of WebAssembly.
    pub modern: bool,
    /// Names longer than what a buffer holds.
    pub long: bool,
    /// A chain of calls, longer than the default depth of a report.
    pub deep: bool,
}

impl Knobs {
    pub fn draw(t: &mut Tape) -> Knobs {
        let max_funcs = [4, 8, 14, 24, 60, 200][t.weighted(&[30, 30, 20, 14, 5, 1])];
        Knobs {
            max_funcs,
            dup_names: t.chance(1, 4),
            hostile: t.chance(1, 4),
            generics: t.chance(1, 2),
            dense: t.chance(1, 6),
            padded_lebs: t.chance(1, 4),
            big_bodies: t.chance(1, 8),
            named: !t.chance(1, 5),
            modern: t.chance(1, 3),
            long: max_funcs < 60 && t.chance(1, 12),
            deep: t.chance(1, 16),
        }
    }
}

struct W {
    b: Vec<u8>,
    pad: bool,
    marks: Vec<(usize, &'static str)>,
}

impl W {
    fn new(pad: bool) -> W {
        W { b: vec![], pad, marks: vec![] }
    }
    fn u8(&mut self, x: u8) {
        self.b.push(x)
    }
    /// One of `n` things, by its index; where it is is kept in `marks`, if it
    /// can be damaged to be none of them.
    fn index(&mut self, t: &mut Tape, i: usize, n: usize, what: &'static str) {
        if n < 128 {
            self.marks.push((self.b.len(), what));
        }
        self.u32(t, i as u64);
    }
    fn leb_plain(&mut self, mut v: u64) {
        loop {
            let byte = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.b.push(byte);
                return;
            }
            self.b.push(byte | 0x80);
        }
    }
    fn u32(&mut self, t: &mut Tape, v: u64) {
        if self.pad && t.chance(1, 3) {
            // Padded encodings, like linkers leave behind for relocations.
            let len = t.range(2, 5) as usize;
            let mut need = 1;
            let mut x = v >> 7;
            while x > 0 {
                need += 1;
                x >>= 7;
            }
            let len = len.max(need);
            let mut x = v;
            for i in 0..len {
                let byte = (x & 0x7f) as u8;
                x >>= 7;
                self.b.push(if i + 1 == len { byte } else { byte | 0x80 });
            }
        } else {
            self.leb_plain(v);
        }
    }
    fn s32(&mut self, v: i32) {
        let mut v = v as i64;
        loop {
            let byte = (v & 0x7f) as u8;
            v >>= 7;
            let done = (v == 0 && byte & 0x40 == 0) || (v == -1 && byte & 0x40 != 0);
            if done {
                self.b.push(byte);
                return;
            }
            self.b.push(byte | 0x80);
        }
    }
    fn s64(&mut self, v: i64) {
        let mut v = v;
        loop {
            let byte = (v & 0x7f) as u8;
            v >>= 7;
            let done = (v == 0 && byte & 0x40 == 0) || (v == -1 && byte & 0x40 != 0);
            if done {
                self.b.push(byte);
                return;
            }
            self.b.push(byte | 0x80);
        }
    }
    /// A constant address in a 64-bit memory if `wide`, a 32-bit one if not.
    fn address(&mut self, wide: bool, a: u64) {
        self.u8(if wide { 0x42 } else { 0x41 });
        if wide {
            self.s64(a as i64);
        } else {
            self.s32(a as u32 as i32);
        }
    }
    fn name(&mut self, t: &mut Tape, s: &str) {
        self.u32(t, s.len() as u64);
        self.b.extend_from_slice(s.as_bytes());
    }
    fn len(&self) -> usize {
        self.b.len()
    }
}

const VALTYPES: [(u8, &str); 7] = [
    (0x7f, "i32"), (0x7e, "i64"), (0x7d, "f32"), (0x7c, "f64"),
    (0x7b, "v128"), (0x70, "funcref"), (0x6f, "externref"),
];

fn val_type(t: &mut Tape, k: &Knobs) -> (u8, &'static str) {
    VALTYPES[t.below(if k.modern { 7 } else { 4 })]
}

/// Limits of a table or memory.
fn limits(t: &mut Tape, k: &Knobs, w: &mut W, wide: bool) {
    let min = t.small(500);
    let max = k.modern && t.chance(1, 3);
    w.u8(max as u8 | if wide { 4 } else { 0 });
    w.u32(t, min);
    if max {
        w.u32(t, min + 7);
    }
}

const WORDS: [&str; 24] = [
    "alpha", "beta", "gamma", "delta", "write", "read", "core", "fmt", "alloc", "vec", "push", "pop",
    "init", "main", "drop", "clone", "next", "iter", "map", "fold", "panic", "abort", "memcpy", "zed",
];

/// Fragments that stress quoting in the output formats.
const HOSTILE: [&str; 21] = [
    "\"", "\\", ",", "\n", "\r", "\t", "\u{0}", "\u{1}", "\u{1f}", "\u{7f}", "é", "日本", "🦀", " ",
    "'", "{", "]", "\u{2028}", "\r\n", "/", "",
];

/// A function symbol: (symbol in the name section, displayed name, generic).
pub fn func_name(t: &mut Tape, k: &Knobs, i: usize) -> (String, String, Option<String>) {
    let uniq = |t: &mut Tape, k: &Knobs, s: String| -> String {
        if k.dup_names && t.chance(1, 2) {
            s
        } else {
            format!("{}{}", s, i)
        }
    };
    let style = if k.generics { t.weighted(&[3, 3, 2, 2, 2]) } else { t.weighted(&[9, 0, 1, 0, 0]) };
    let pool = if k.generics || k.dup_names { 4 } else { WORDS.len() };
    match style {
        // Plain.
        0 => {
            let w = t.below(pool);
            let mut s = uniq(t, k, WORDS[w].to_string());
            if k.hostile && t.chance(1, 2) {
                let h = *t.pick(&HOSTILE);
                match t.below(3) {
                    0 => s.push_str(h),
                    1 => s.insert_str(0, h),
                    _ => s = h.to_string(),
                }
            }
            if k.long && t.chance(1, 4) {
                let w = *t.pick(&["x", "ab\u{e9}", "\u{4e2d}", "\"", "a, "]);
                let n = t.range(1000, 12_000) as usize / w.len();
                s.push_str(&w.repeat(n));
            }
            (s.clone(), s, None)
        }
        // C++ template instance, already demangled.
        1 => {
            // Brackets that are no template arguments.
            if t.chance(1, 6) {
                let odd = *t.pick(&["operator<", "operator->", "operator<=", "<Foo as Bar>::baz", "x>y<z", "A::operator>>"]);
                let s = uniq(t, k, odd.to_string());
                return (s.clone(), s, None);
            }
            let g = WORDS[t.below(pool)].to_string();
            let arg = *t.pick(&["int", "char", "Foo<int>", "a, b"]);
            let tail = if k.dup_names && t.chance(1, 2) { String::new() } else { format!("({})", i) };
            let s = format!("{}<{}>{}", g, arg, tail);
            (s.clone(), s, Some(g))
        }
        // Legacy mangled Rust symbol.
        2 => {
            let a = WORDS[t.below(pool)];
            let b = WORDS[t.below(pool)];
            let h = if k.dup_names && t.chance(1, 2) { 0 } else { i as u64 };
            let hash = format!("{:016x}", 0x0123_4567_89ab_0000u64 + h);
            let sym = format!("_ZN{}{}{}{}17h{}E", a.len(), a, b.len(), b, hash);
            (sym, format!("{}::{}::h{}", a, b, hash), Some(format!("{}::{}", a, b)))
        }
        // Demangled Rust symbol.
        3 => {
            let a = WORDS[t.below(pool)];
            let b = WORDS[t.below(pool)];
            let h = if k.dup_names && t.chance(1, 2) { 0 } else { i as u64 };
            let s = format!("{}::{}::h{:04x}", a, b, h);
            (s.clone(), s, Some(format!("{}::{}", a, b)))
        }
        // Mangled C++ template instance.
        _ => {
            let a = WORDS[t.below(pool)];
            let (enc, dem) = *t.pick(&[("i", "int"), ("c", "char"), ("d", "double")]);
            if t.chance(1, 8) {
                let n = format!("T{}", i);
                let (op, dem) = *t.pick(&[("lt", "<"), ("rs", ">>"), ("gt", ">"), ("le", "<=")]);
                let sym = format!("_Z{}RK{}{}S1_", op, n.len(), n);
                return (sym, format!("operator{}({} const&, {} const&)", dem, n, n), None);
            }
            let sym = format!("_Z{}{}I{}EvT_", a.len(), a, enc);
            (sym, format!("void {}<{}>({})", a, dem, dem), Some(format!("void {}", a)))
        }
    }
}

/// Self-contained pieces of code; the first half is of the first version.
const NOISE: [&[u8]; 18] = [
    &[0x02, 0x40, 0x0c, 0x00, 0x0b],
    &[0x03, 0x7f, 0x41, 0x01, 0x0b, 0x1a],
    &[0x20, 0x00, 0x04, 0x40, 0x01, 0x05, 0x00, 0x0b],
    &[0x20, 0x00, 0x0e, 0x02, 0x00, 0x00, 0x00],
    &[0x42, 0x80, 0x80, 0x80, 0x80, 0x10, 0x1a],
    &[0x44, 0x10, 0x10, 0x28, 0x41, 0x41, 0x23, 0x24, 0x0b, 0x1a],
    &[0x41, 0x10, 0x41, 0x07, 0x36, 0x02, 0x00],
    &[0x3f, 0x00, 0x40, 0x00, 0x1a],
    &[0x41, 0x08, 0x41, 0x08, 0x6a, 0x28, 0x02, 0x00, 0x1a],
    // memory.copy, memory.fill
    &[0x41, 0x00, 0x41, 0x00, 0x41, 0x04, 0xfc, 0x0a, 0x00, 0x00],
    &[0x41, 0x00, 0x41, 0x00, 0x41, 0x04, 0xfc, 0x0b, 0x00],
    // v128.const
    &[0xfd, 0x0c, 0x10, 0x00, 0x28, 0x02, 0x10, 0x10, 0x41, 0x00, 0xfc, 0x0b, 0x0b, 0x0b, 0x23, 0x00, 0x00, 0x00, 0x1a],
    // ref.null, ref.is_null
    &[0xd0, 0x70, 0xd1, 0x1a],
    // i32.trunc_sat_f32_s, i32.extend8_s
    &[0x43, 0x00, 0x00, 0x28, 0x41, 0xfc, 0x00, 0xc0, 0x1a],
    // table.size, select with a type
    &[0xfc, 0x10, 0x00, 0x41, 0x01, 0x41, 0x00, 0x1c, 0x01, 0x7f, 0x1a],
    // i32.atomic.load
    &[0x41, 0x20, 0xfe, 0x10, 0x02, 0x00, 0x1a],
    // return_call_indirect
    &[0x41, 0x00, 0x13, 0x00, 0x00],
    // i64x2.splat of a constant
    &[0x42, 0x03, 0xfd, 0x12, 0x1a],
];

fn ext_name(t: &mut Tape, k: &Knobs, i: usize) -> String {
    let w = *t.pick(&WORDS);
    let mut s = if k.dup_names && t.chance(1, 3) { w.to_string() } else { format!("{}{}", w, i) };
    if k.hostile && t.chance(1, 3) {
        s.push_str(*t.pick(&HOSTILE));
    }
    s
}

struct Builder {
    m: GMod,
    pad: bool,
    /// In which entry of the section under construction, and where there.
    marks: Vec<(usize, usize, &'static str)>,
}

impl Builder {
    fn item(&mut self, name: String, size: usize, kind: Kind, root: bool) -> usize {
        self.m.items.push(GItem { name, size: size as u64, kind, root, generic: None });
        self.m.items.len() - 1
    }

    /// Append a section; returns the size of everything but `inner` bytes.
    fn section(&mut self, t: &mut Tape, id: u8, payload: &[u8]) -> usize {
        self.m.section_starts.push(self.m.bytes.len());
        let mut w = W::new(self.pad);
        w.u8(id);
        w.u32(t, payload.len() as u64);
        w.b.extend_from_slice(payload);
        let n = w.len();
        self.m.bytes.extend_from_slice(&w.b);
        n
    }

    /// The section that was just appended has `payload` bytes that start with
    /// how many entries follow.
    fn counted(&mut self, entries: usize, payload: usize) {
        let at = self.m.bytes.len() - payload;
        if entries >= 127 || self.m.bytes[at] != entries as u8 {
            return;
        }
        let props: &[&'static str] = &["C08", "C10", "C11"];
        self.m.flaws.push(Flaw { at, byte: entries as u8 + 1, what: "an entry too many in a section's count", props });
        if entries >= 1 {
            self.m.flaws.push(Flaw { at, byte: entries as u8 - 1, what: "an entry too few in a section's count", props });
        }
    }

    /// Of an entry that is about to be added to `entries`.
    fn mark(&mut self, entries: &[Vec<u8>], w: &W) {
        self.marks.extend(w.marks.iter().map(|&(at, what)| (entries.len(), at, what)));
    }

    /// An index that is none of those there are.
    fn none_such(&mut self, at: usize, what: &'static str) {
        let byte = self.m.bytes[at] | 0x7f;
        self.m.flaws.push(Flaw { at, byte, what, props: &["C10", "C11"] });
    }

    /// Append a section made of `entries`, whose items are already created.
    /// Adds the section's header item and returns it.
    fn list_section(&mut self, t: &mut Tape, id: u8, head: &str, entries: &[Vec<u8>]) -> usize {
        let mut p = W::new(self.pad);
        p.u32(t, entries.len() as u64);
        for e in entries {
            p.b.extend_from_slice(e);
        }
        let total = self.section(t, id, &p.b);
        self.counted(entries.len(), p.len());
        let inner: usize = entries.iter().map(|e| e.len()).sum();
        let mut starts = vec![self.m.bytes.len() - inner];
        for e in entries {
            starts.push(starts[starts.len() - 1] + e.len());
        }
        for (i, at, what) in std::mem::take(&mut self.marks) {
            self.none_such(starts[i] + at, what);
        }
        self.item(head.to_string(), total - inner, Kind::Misc, true)
    }

    fn custom(&mut self, t: &mut Tape, name: &str, data: &[u8]) {
        let mut p = W::new(self.pad);
        p.name(t, name);
        p.b.extend_from_slice(data);
        let total = self.section(t, 0, &p.b);
        self.item(format!("custom section '{}'", name), data.len(), Kind::Misc, false);
        self.item(
            format!("custom section '{}' headers", name),
            total - data.len(),
            Kind::Misc,
            true,
        );
    }

    fn maybe_custom(&mut self, t: &mut Tape, k: &Knobs) {
        if t.chance(1, 10) {
            let i = self.m.items.len();
            let n = ext_name(t, k, i);
            let len = t.small(300) as usize;
            let fill = t.draw(256) as u8;
            self.custom(t, &n, &vec![fill; len]);
        }
    }
}

pub fn module(t: &mut Tape, k: &Knobs) -> GMod {
    let mut b = Builder { m: GMod::default(), pad: k.padded_lebs, marks: vec![] };
    b.m.bytes.extend_from_slice(b"\0asm\x01\0\0\0");
    b.item("wasm magic bytes".into(), 8, Kind::Misc, true);

    let nfuncs = if k.deep { 11 } else { 1 } + t.draw(k.max_funcs) as usize;
    let ntypes = 1 + t.small(5) as usize;
    let nimports = t.small(6) as usize;
    let ntables = t.small(3) as usize;
    let nmems = t.draw(2) as usize;
    let nglobals = t.small(6) as usize;
    let nelems = t.small(4) as usize;
    let nsegs = t.small(6) as usize;
    let nexports = if t.chance(1, 12) { 0 } else { 1 + t.small((nfuncs as u64 / 2).min(8)) as usize };

    b.maybe_custom(t, k);

    // Types.
    let mut types = vec![];
    let mut entries = vec![];
    for i in 0..ntypes {
        let mut w = W::new(k.padded_lebs);
        w.u8(0x60);
        let mut name = format!("type[{}]: (", i);
        let np = t.small(4) as usize;
        w.u32(t, np as u64);
        for p in 0..np {
            let (c, n) = val_type(t, k);
            w.u8(c);
            if p > 0 {
                name.push_str(", ");
            }
            name.push_str(n);
        }
        name.push_str(") -> ");
        let nr = t.weighted(&[5, 5, 1]);
        w.u32(t, nr as u64);
        let mut rs = vec![];
        for _ in 0..nr {
            let (c, n) = val_type(t, k);
            w.u8(c);
            rs.push(n);
        }
        match rs.len() {
            0 => name.push_str("nil"),
            1 => name.push_str(rs[0]),
            _ => name.push_str(&format!("({})", rs.join(", "))),
        }
        types.push(b.item(name, w.len(), Kind::Misc, false));
        entries.push(w.b);
    }
    b.list_section(t, 1, "type section headers", &entries);
    b.maybe_custom(t, k);

    // Imports.
    let (mut funcs, mut tables, mut mems, mut globals) = (vec![], vec![], vec![], vec![]);
    let mut ntags = 0u64;
    // Addresses of 64 bits.
    let wide = k.modern && t.chance(1, 8);
    if nimports > 0 || t.chance(1, 20) {
        let mut entries = vec![];
        for i in 0..nimports {
            let module = t.pick(&["env", "js", "wbg"]).to_string();
            let field = ext_name(t, k, i);
            let mut w = W::new(k.padded_lebs);
            w.name(t, &module);
            w.name(t, &field);
            let kind = if k.modern { t.weighted(&[6, 1, 1, 2, 1]) } else { t.weighted(&[6, 1, 1, 2]) };
            w.u8(kind as u8);
            match kind {
                0 => {
                    let ty = t.below(ntypes);
                    w.u32(t, ty as u64)
                }
                1 => w.b.extend_from_slice(&[0x70, 0x00, 0x01]),
                2 => w.b.extend_from_slice(&[0x00, 0x01]),
                3 => w.b.extend_from_slice(&[0x7f, 0x00]),
                // A tag.
                _ => {
                    w.u8(0);
                    let ty = t.below(ntypes);
                    w.u32(t, ty as u64)
                }
            }
            let id = b.item(format!("import {}::{}", module, field), w.len(), Kind::Misc, false);
            match kind {
                0 => funcs.push(id),
                1 => tables.push(id),
                2 => mems.push(id),
                3 => globals.push(id),
                _ => ntags += 1,
            }
            entries.push(w.b);
        }
        b.list_section(t, 2, "import section headers", &entries);
    }
    let imported_funcs = funcs.len();

    // Functions (their entries become part of the code items).
    let mut func_entries = vec![];
    let mut func_types = vec![];
    for _ in 0..nfuncs {
        let ty = t.below(ntypes);
        let mut w = W::new(k.padded_lebs);
        w.u32(t, ty as u64);
        func_types.push(ty);
        func_entries.push(w.b);
    }
    let mut p = W::new(k.padded_lebs);
    p.u32(t, nfuncs as u64);
    for e in &func_entries {
        p.b.extend_from_slice(e);
    }
    let func_section_bytes = b.section(t, 3, &p.b);
    b.counted(nfuncs, p.len());

    // Function names.
    let mut func_syms: Vec<Option<(String, String, Option<String>)>> = vec![];
    for i in 0..imported_funcs + nfuncs {
        func_syms.push(if k.named && !t.chance(1, 8) { Some(func_name(t, k, i)) } else { None });
    }
    let mut code_items = vec![];
    for i in 0..nfuncs {
        let (name, generic) = match &func_syms[imported_funcs + i] {
            Some((_, display, generic)) => (display.clone(), generic.clone()),
            None => (format!("code[{}]", i), None),
        };
        let id = b.item(name, 0, Kind::Code, false);
        b.m.items[id].generic = generic;
        code_items.push(id);
        funcs.push(id);
        b.m.edges.insert((id, types[func_types[i]]));
    }

    // Tables, memories, globals.
    if ntables > 0 {
        let mut entries = vec![];
        for i in 0..ntables {
            let mut w = W::new(k.padded_lebs);
            w.u8(if k.modern && t.chance(1, 4) { 0x6f } else { 0x70 });
            limits(t, k, &mut w, false);
            tables.push(b.item(format!("table[{}]", i), w.len(), Kind::Misc, true));
            entries.push(w.b);
        }
        b.list_section(t, 4, "table section headers", &entries);
    }
    if nmems > 0 {
        let mut entries = vec![];
        for i in 0..nmems {
            let mut w = W::new(k.padded_lebs);
            limits(t, k, &mut w, wide);
            mems.push(b.item(format!("memory[{}]", i), w.len(), Kind::Misc, false));
            entries.push(w.b);
        }
        b.list_section(t, 5, "memory section headers", &entries);
    }
    b.maybe_custom(t, k);
    if nglobals > 0 {
        let mut entries = vec![];
        for i in 0..nglobals {
            let mut w = W::new(k.padded_lebs);
            let (ty, _) = val_type(t, k);
            w.u8(ty);
            w.u8(t.draw(2) as u8);
            let v = t.small(1 << 30);
            let mut refers = None;
            match ty {
                // Another global, or a function.
                0x7f if !globals.is_empty() && t.chance(1, 5) => {
                    let g = t.below(globals.len());
                    w.u8(0x23);
                    // Later globals are there, too.
                    w.index(t, g, globals.len() + nglobals - i, "a global that does not exist in a global");
                    refers = Some(globals[g]);
                }
                0x70 if t.chance(1, 2) => {
                    let f = t.below(funcs.len());
                    w.u8(0xd2);
                    w.index(t, f, funcs.len(), "a function that does not exist in a global");
                    refers = Some(funcs[f]);
                }
                0x7f => {
                    w.u8(0x41);
                    w.s32(v as i32);
                }
                0x7e => {
                    w.u8(0x42);
                    w.s64(v as i64);
                }
                0x7d => {
                    w.u8(0x43);
                    w.b.extend_from_slice(&[0; 4]);
                }
                0x7c => {
                    w.u8(0x44);
                    w.b.extend_from_slice(&[0; 8]);
                }
                0x7b => {
                    w.b.extend_from_slice(&[0xfd, 0x0c]);
                    w.b.extend_from_slice(&[3; 16]);
                }
                ty => w.b.extend_from_slice(&[0xd0, ty]),
            }
            w.u8(0x0b);
            let id = b.item(format!("global[{}]", i), w.len(), Kind::Data, false);
            globals.push(id);
            b.m.edges.extend(refers.map(|to| (id, to)));
            b.mark(&entries, &w);
            entries.push(w.b);
        }
        b.list_section(t, 6, "global section headers", &entries);
    }

    // Exports.
    {
        let mut entries = vec![];
        for i in 0..nexports {
            let field = ext_name(t, k, i);
            let mut w = W::new(k.padded_lebs);
            w.name(t, &field);
            if ntags > 0 && t.chance(1, 8) {
                w.u8(4);
                let i = t.draw(ntags);
                w.u32(t, i);
                b.item(format!("export \"{}\"", field), w.len(), Kind::Misc, true);
                entries.push(w.b);
                continue;
            }
            let kind = t.weighted(&[12, 1, 1, 2]);
            let pool = [&funcs, &tables, &mems, &globals][kind];
            let (kind, pool) = if pool.is_empty() { (0, &funcs) } else { (kind, pool) };
            let idx = t.below(pool.len());
            w.u8(kind as u8);
            w.index(t, idx, pool.len(), "an export of something that does not exist");
            let target = pool[idx];
            let id = b.item(format!("export \"{}\"", field), w.len(), Kind::Misc, true);
            b.m.edges.insert((id, target));
            b.mark(&entries, &w);
            entries.push(w.b);
        }
        if nexports > 0 {
            b.list_section(t, 7, "export section headers", &entries);
        }
    }

    // Start.
    if t.chance(1, 5) {
        let idx = t.below(funcs.len());
        let mut w = W::new(k.padded_lebs);
        w.index(t, idx, funcs.len(), "a start function that does not exist");
        let total = b.section(t, 8, &w.b);
        if let Some(&(at, what)) = w.marks.first() {
            b.none_such(b.m.bytes.len() - w.len() + at, what);
        }
        let id = b.item("start section headers".into(), total, Kind::Misc, true);
        b.m.edges.insert((id, funcs[idx]));
    }

    // Elements.
    if nelems > 0 {
        let mut entries = vec![];
        for i in 0..nelems {
            let mut w = W::new(k.padded_lebs);
            let mode = if tables.is_empty() { t.weighted(&[0, 0, 3, 1, 0]) } else { t.weighted(&[6, 2, 1, 1, 2]) };
            let n = t.small(6) as usize;
            let picks: Vec<usize> = (0..n).map(|_| t.below(funcs.len())).collect();
            let mut table = None;
            let off = t.small(100) as i32;
            let base = if globals.is_empty() || !t.chance(1, 6) { None } else { Some(t.below(globals.len())) };
            let place = |t: &mut Tape, w: &mut W| {
                match base {
                    Some(g) => {
                        w.u8(0x23);
                        w.index(t, g, globals.len(), "a global that does not exist in an element's offset");
                    }
                    None => {
                        w.u8(0x41);
                        w.s32(off);
                    }
                }
                w.u8(0x0b);
            };
            match mode {
                // Active, table 0.
                0 | 4 => {
                    w.u8(if mode == 0 { 0 } else { 4 });
                    place(t, &mut w);
                    table = Some(0);
                }
                // Active, explicit table.
                1 => {
                    let ti = t.below(tables.len());
                    w.u8(2);
                    w.index(t, ti, tables.len(), "an element of a table that does not exist");
                    place(t, &mut w);
                    w.u8(0);
                    table = Some(ti);
                }
                // Passive, declared.
                2 => {
                    w.u8(1);
                    w.u8(0);
                }
                _ => {
                    w.u8(3);
                    w.u8(0);
                }
            }
            w.u32(t, n as u64);
            let mut targets = vec![];
            for &f in &picks {
                if mode == 4 {
                    if t.chance(1, 4) {
                        w.b.extend_from_slice(&[0xd0, 0x70, 0x0b]);
                        continue;
                    }
                    w.u8(0xd2);
                    w.index(t, f, funcs.len(), "an element that does not exist");
                    w.u8(0x0b);
                } else {
                    w.index(t, f, funcs.len(), "an element that does not exist");
                }
                targets.push(funcs[f]);
            }
            let id = b.item(format!("elem[{}]", i), w.len(), Kind::Misc, false);
            if let Some(ti) = table {
                b.m.edges.insert((tables[ti], id));
                b.m.edges.extend(base.map(|g| (id, globals[g])));
            }
            for f in targets {
                b.m.edges.insert((id, f));
            }
            b.mark(&entries, &w);
            entries.push(w.b);
        }
        b.list_section(t, 9, "element section headers", &entries);
    }

    if nsegs > 0 && t.chance(1, 4) {
        let mut w = W::new(k.padded_lebs);
        w.u32(t, nsegs as u64);
        let total = b.section(t, 12, &w.b);
        b.item("data count section headers".into(), total, Kind::Misc, true);
    }

    // Lay out the data segments first: function bodies load from them.
    struct SegPlan {
        start: Option<u64>,
        data: Vec<u8>,
    }
    let top: u64 = if wide { u64::MAX } else { 1 << 32 };
    let mut at: u64 = match t.weighted(&[13, 2, 1, if wide { 8 } else { 0 }]) {
        0 => t.small(2000),
        1 => 0x8000_0000 - 64,
        // Up to the last byte there is.
        2 => top - t.small(400),
        // Around and beyond what 32 bits can address.
        _ => [(1u64 << 32) - 64, 1 << 32, 1 << 40, (1 << 63) - 64][t.below(4)],
    };
    let mut plans = vec![];
    for _ in 0..nsegs {
        let len = if t.chance(1, 12) { 0 } else { 1 + t.small(200) };
        let len = if at == top { len } else { len.min(top - at) };
        let fill = t.draw(256) as u8;
        let passive = t.chance(1, 6) || at == top;
        // Now and then on top of an earlier one: later segments overwrite.
        let earlier: Vec<(u64, u64)> = plans
            .iter()
            .filter_map(|p: &SegPlan| Some((p.start?, p.data.len() as u64)))
            .collect();
        let over = !passive && !earlier.is_empty() && t.chance(1, 8);
        let start = if over {
            let (start, l) = earlier[t.below(earlier.len())];
            start.saturating_add(if t.chance(1, 2) { 0 } else { t.draw(l + 1) }).min(top - len)
        } else {
            at
        };
        plans.push(SegPlan {
            start: if passive { None } else { Some(start) },
            data: vec![fill; len as usize],
        });
        if !passive && !over {
            at = (at + len).saturating_add(if t.chance(1, 3) { 0 } else { t.small(64) }).min(top);
        }
    }

    // Code.
    let shape = if k.deep { 2 } else { t.below(5) };
    let mut bodies: Vec<Vec<u8>> = vec![];
    // Where instructions are, from the start of the first body on.
    let (mut ops, mut lasts) = (vec![], vec![]);
    let mut indices = vec![];
    let mut before = 0;
    for i in 0..nfuncs {
        let mut w = W::new(k.padded_lebs);
        let nlocals = t.small(3);
        w.u32(t, nlocals);
        for _ in 0..nlocals {
            w.u32(t, 1);
            w.u8(0x7f);
        }
        let me = code_items[i];
        let ncalls = if k.dense { t.small(6) } else { t.small(3) }.max(k.deep as u64) as usize;
        for c in 0..ncalls {
            // Which function to call.
            let n = funcs.len();
            let callee = match shape {
                0 => t.below(n),
                // Mostly forward: a DAG.
                1 => {
                    let lo = (imported_funcs + i + 1).min(n - 1);
                    lo + t.below(n - lo)
                }
                // A chain.
                2 => {
                    if c == 0 {
                        (imported_funcs + i + 1).min(n - 1)
                    } else {
                        t.below(n)
                    }
                }
                // Mostly backward.
                3 => t.below(imported_funcs + i + 1),
                // A ring.
                _ => {
                    if c == 0 {
                        imported_funcs + (i + 1) % nfuncs
                    } else {
                        t.below(n)
                    }
                }
            };
            w.u8(if k.modern { [0x10, 0x10, 0x12, 0xd2][t.below(4)] } else { 0x10 });
            w.index(t, callee, funcs.len(), "a call of a function that does not exist");
            b.m.edges.insert((me, funcs[callee]));
        }
        let nops = t.small(8);
        for _ in 0..nops {
            match t.weighted(&[6, 3, 3, 2, 3, 2, if k.modern { 4 } else { 1 }]) {
                0 => {
                    // i32.const; drop
                    let v = t.small(1 << 20);
                    w.u8(0x41);
                    w.s32(v as i32);
                    w.u8(0x1a);
                }
                1 if !globals.is_empty() => {
                    let g = t.below(globals.len());
                    w.u8(if t.chance(1, 2) { 0x24 } else { 0x23 });
                    w.index(t, g, globals.len(), "a use of a global that does not exist");
                    b.m.edges.insert((me, globals[g]));
                }
                6 => {
                    // References to nothing that counts.
                    let n = if k.modern { 18 } else { 9 };
                    w.b.extend_from_slice(NOISE[t.below(n)]);
                }
                2 if !plans.is_empty() => {
                    // Load from a constant address, mostly near a segment.
                    let pl = &plans[t.below(plans.len())];
                    let start = pl.start.unwrap_or(16);
                    let len = pl.data.len() as u64;
                    let addr = match t.weighted(&[10, 2, 1, 1, 1]) {
                        0 => start,
                        1 => start.saturating_add(t.draw(len.max(1))),
                        2 => start.saturating_add(len),
                        3 => start.saturating_sub(1),
                        _ => t.small(5000),
                    };
                    let addr = addr.min(top - 1);
                    // Split the address between the operand and the offset.
                    let off = if t.chance(1, 3) { t.draw(addr + 1) } else { 0 };
                    let (op, align) = *t.pick(&[
                        (0x28u8, 2u64), (0x29, 3), (0x2a, 2), (0x2b, 3), (0x2c, 0), (0x2d, 0),
                        (0x2e, 1), (0x2f, 1), (0x30, 0), (0x31, 0), (0x32, 1), (0x33, 1),
                        (0x34, 2), (0x35, 2),
                    ]);
                    w.address(wide, addr - off);
                    w.u8(op);
                    w.u32(t, align);
                    w.u32(t, off);
                    w.u8(0x1a);
                    b.m.loads.push((me, addr));
                }
                3 if !tables.is_empty() => {
                    // Indirect calls are no references to anything.
                    let ty = t.below(ntypes);
                    w.u8(0x41);
                    w.s32(0);
                    w.u8(0x11);
                    w.u32(t, ty as u64);
                    w.u8(0);
                }
                4 => w.u8(0x01),
                5 => {
                    // Not a constant address: something else comes between.
                    let some = !plans.is_empty();
                    let start = if some { plans[t.below(plans.len())].start } else { None }.unwrap_or(8);
                    w.address(wide, start);
                    match t.below(7) {
                        0 => {
                            let f = t.below(funcs.len());
                            w.u8(0x10);
                            w.u32(t, f as u64);
                            b.m.edges.insert((me, funcs[f]));
                        }
                        1 if !globals.is_empty() => {
                            let g = t.below(globals.len());
                            w.u8(0x23);
                            w.u32(t, g as u64);
                            b.m.edges.insert((me, globals[g]));
                        }
                        // What is stored there is the address.
                        2 if some => {
                            w.b.extend_from_slice(&[0x28, 2, 0]);
                            b.m.loads.push((me, start));
                        }
                        // Beyond the last address.
                        3 if start > 0 => {
                            w.u8(0x28);
                            w.u8(2);
                            let below = t.range(1, start);
                            w.u32(t, if wide { below.wrapping_neg() } else { top - below });
                            w.u8(0x1a);
                            continue;
                        }
                        4 if !tables.is_empty() => w.b.extend_from_slice(&[0x11, 0, 0]),
                        5 => w.b.extend_from_slice(&[0x20, 0, 0x6a]),
                        _ => w.u8(0x01),
                    }
                    w.b.extend_from_slice(&[0x28, 2, 0, 0x1a]);
                }
                _ => {
                    w.u8(0x20);
                    w.u32(t, 0);
                    w.u8(0x1a);
                }
            }
        }
        let filler = if k.big_bodies && t.chance(1, 4) {
            t.small(20_000)
        } else {
            t.small(150)
        };
        let filled = w.len();
        for _ in 0..filler {
            w.u8(0x01);
        }
        w.u8(0x0b);
        let mut e = W::new(k.padded_lebs);
        e.u32(t, w.len() as u64);
        ops.push(before + e.len() + filled + (filler as usize) / 2);
        lasts.push(before + e.len() + w.len() - 1);
        if let Some(&(at, what)) = w.marks.get(t.below(w.marks.len().max(1))) {
            indices.push((before + e.len() + at, what));
        }
        before += e.len() + w.len();
        e.b.extend_from_slice(&w.b);
        b.m.items[me].size = (e.len() + func_entries[i].len()) as u64;
        bodies.push(e.b);
    }
    let mut p = W::new(k.padded_lebs);
    p.u32(t, nfuncs as u64);
    for e in &bodies {
        p.b.extend_from_slice(e);
    }
    let head = p.len() - before;
    let code_section_bytes = b.section(t, 10, &p.b);
    b.counted(nfuncs, p.len());
    let first = b.m.bytes.len() - p.len() + head;
    for (at, what) in indices {
        b.none_such(first + at, what);
    }
    let some = (0..nfuncs).step_by(1 + nfuncs / 8);
    for i in some {
        let props: &[&'static str] = &["C10", "C11"];
        b.m.flaws.push(Flaw { at: first + ops[i], byte: 0xff, what: "an instruction that does not exist", props });
        b.m.flaws.push(Flaw { at: first + lasts[i], byte: 0x10, what: "a call at a body's end that lacks its operand", props });
    }
    let inner: u64 = code_items.iter().map(|&i| b.m.items[i].size).sum();
    b.item(
        "code section headers".into(),
        code_section_bytes + func_section_bytes - inner as usize,
        Kind::Misc,
        true,
    );

    // Data.
    let mut data_names = vec![];
    if nsegs > 0 {
        let mut entries = vec![];
        for (i, pl) in plans.iter().enumerate() {
            let mut w = W::new(k.padded_lebs);
            let mut base = None;
            match pl.start {
                Some(s) => {
                    w.u8(0);
                    w.address(wide, s);
                    w.u8(0x0b);
                }
                None if !globals.is_empty() && t.chance(1, 2) => {
                    let g = t.below(globals.len());
                    w.u8(0);
                    w.u8(0x23);
                    w.index(t, g, globals.len(), "a global that does not exist in a segment's offset");
                    w.u8(0x0b);
                    base = Some(globals[g]);
                }
                None => w.u8(1),
            }
            w.u32(t, pl.data.len() as u64);
            w.b.extend_from_slice(&pl.data);
            let name = if k.named && t.chance(1, 4) {
                let n = ext_name(t, k, i);
                data_names.push((i, n.clone()));
                format!("data segment \"{}\"", n)
            } else {
                format!("data[{}]", i)
            };
            let id = b.item(name, w.len(), Kind::Data, false);
            b.m.edges.extend(base.map(|g| (id, g)));
            b.mark(&entries, &w);
            b.m.segs.push(Seg { item: id, start: pl.start, len: pl.data.len() as u64 });
            entries.push(w.b);
        }
        b.list_section(t, 11, "data section headers", &entries);
    }

    // Names.
    if k.named {
        let mut p = W::new(k.padded_lebs);
        p.name(t, "name");
        let mut inner = 0;
        let mut subs: Vec<(u8, String, Vec<u8>)> = vec![];
        if t.chance(1, 4) {
            let mut w = W::new(k.padded_lebs);
            w.name(t, "module");
            subs.push((0, "\"module name\" subsection".into(), w.b));
        }
        let mut w = W::new(k.padded_lebs);
        let named: Vec<usize> = (0..func_syms.len()).filter(|&i| func_syms[i].is_some()).collect();
        w.u32(t, named.len() as u64);
        for i in named {
            w.u32(t, i as u64);
            let sym = func_syms[i].as_ref().unwrap().0.clone();
            w.name(t, &sym);
        }
        subs.push((1, "\"function names\" subsection".into(), w.b));
        if t.chance(1, 6) {
            subs.push((2, "\"local names\" subsection".into(), vec![0]));
        }
        if t.chance(1, 6) {
            subs.push((4, "\"type names\" subsection".into(), vec![0]));
        }
        if k.modern {
            for (id, what) in [(5u8, "table"), (6, "memory"), (7, "global"), (8, "element")] {
                if t.chance(1, 6) {
                    let mut w = W::new(k.padded_lebs);
                    w.u32(t, 1);
                    w.u32(t, 0);
                    w.name(t, what);
                    subs.push((id, format!("\"{} names\" subsection", what), w.b));
                }
            }
        }
        if !data_names.is_empty() {
            let mut w = W::new(k.padded_lebs);
            w.u32(t, data_names.len() as u64);
            for (i, n) in &data_names {
                w.u32(t, *i as u64);
                w.name(t, n);
            }
            subs.push((9, "\"data names\" subsection".into(), w.b));
        }
        for (id, name, data) in subs {
            let mut s = W::new(k.padded_lebs);
            s.u8(id);
            s.u32(t, data.len() as u64);
            s.b.extend_from_slice(&data);
            inner += s.len();
            b.item(name, s.len(), Kind::Debug, true);
            p.b.extend_from_slice(&s.b);
        }
        let total = b.section(t, 0, &p.b);
        b.item("custom section 'name' headers".into(), total - inner, Kind::Misc, true);
    }
    b.maybe_custom(t, k);
    if t.chance(1, 8) {
        let len = t.small(60) as usize;
        b.custom(t, "producers", &vec![1; len]);
    }

    b.m.desc = format!(
        "wasm {} B, {} items, {} funcs ({} imported), {} segments, {} loads",
        b.m.bytes.len(),
        b.m.items.len(),
        funcs.len(),
        imported_funcs,
        nsegs,
        b.m.loads.len()
    );
    b.m
}
