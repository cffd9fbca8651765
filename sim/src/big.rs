//! Long inputs of simple shapes: what is said of every file holds for these
//! too, and the work they take is counted in control-flow edges of twiggy's
//! own code.

use crate::model::Graph;
use crate::props::Outcome;
use crate::sess::{analyse, guard, FORMATS, FORMAT_NAMES};
use crate::spec::{Spec, What};
use crate::tape::Tape;
use std::collections::BTreeMap;

struct Big {
    bytes: Vec<u8>,
    items: Vec<(String, u64)>,
    edges: Vec<(usize, usize)>,
    /// As deep as it has functions.
    deep: bool,
    desc: String,
}

impl Big {
    fn item(&mut self, name: String, size: usize) -> usize {
        self.items.push((name, size as u64));
        self.items.len() - 1
    }
    /// Returns the number of bytes the section has.
    fn section(&mut self, id: u8, payload: &[u8]) -> usize {
        let from = self.bytes.len();
        self.bytes.push(id);
        leb(payload.len() as u64, &mut self.bytes);
        self.bytes.extend_from_slice(payload);
        self.bytes.len() - from
    }
    fn list(&mut self, id: u8, what: &str, entries: &[Vec<u8>]) {
        if entries.is_empty() {
            return;
        }
        let mut p = vec![];
        leb(entries.len() as u64, &mut p);
        entries.iter().for_each(|e| p.extend_from_slice(e));
        let inner: usize = entries.iter().map(|e| e.len()).sum();
        let all = self.section(id, &p);
        self.item(format!("{} section headers", what), all - inner);
    }
}

fn module(t: &mut Tape, n: usize) -> Big {
    let mut b = Big { bytes: b"\0asm\x01\0\0\0".to_vec(), items: vec![], edges: vec![], deep: false, desc: String::new() };
    b.item("wasm magic bytes".into(), 8);
    let shape = t.below(9);
    b.deep = matches!(shape, 0 | 6 | 7);
    let ntypes = if t.chance(1, 2) { 1 } else { n };
    let nsegs = if t.chance(1, 3) { n } else { 0 };
    let nglobals = if t.chance(1, 4) { n } else { 0 };
    let table = t.chance(1, 3);
    let naming = t.below(4);
    let nexports = if t.chance(1, 3) { n } else { 1 };
    b.desc = format!(
        "{} functions, shape {}, {} types, {} segments, {} globals, naming {}, {} exports{}",
        n, shape, ntypes, nsegs, nglobals, naming, nexports, if table { ", a table" } else { "" }
    );

    let types: Vec<usize> = (0..ntypes).map(|i| b.item(format!("type[{}]: () -> nil", i), 3)).collect();
    b.list(1, "type", &vec![b"\x60\0\0".to_vec(); ntypes]);

    let mut p = vec![];
    leb(n as u64, &mut p);
    let mut heads = vec![];
    for i in 0..n {
        let from = p.len();
        leb((i % ntypes) as u64, &mut p);
        heads.push(p.len() - from);
    }
    let func_section = b.section(3, &p);
    let name = |i: usize| match naming {
        0 => format!("code[{}]", i),
        1 => format!("f{}", i),
        2 => format!("krate::gen::h{:016x}", i),
        _ => "same".to_string(),
    };
    let funcs: Vec<usize> = (0..n).map(|i| b.item(name(i), 0)).collect();
    for i in 0..n {
        b.edges.push((funcs[i], types[i % ntypes]));
    }
    let tab = if table {
        let x = b.item("table[0]".into(), 3);
        b.list(4, "table", &[vec![0x70, 0, 1]]);
        Some(x)
    } else {
        None
    };
    let mut globals = vec![];
    let mut entries = vec![];
    for i in 0..nglobals {
        entries.push(b"\x7f\x01\x41\x00\x0b".to_vec());
        globals.push(b.item(format!("global[{}]", i), 5));
    }
    b.list(6, "global", &entries);
    let mut entries = vec![];
    for i in 0..nexports {
        let field = format!("e{}", i);
        let mut e = vec![];
        leb(field.len() as u64, &mut e);
        e.extend_from_slice(field.as_bytes());
        e.push(0);
        leb(i as u64, &mut e);
        let x = b.item(format!("export \"{}\"", field), e.len());
        b.edges.push((x, funcs[i]));
        entries.push(e);
    }
    b.list(7, "export", &entries);
    if let Some(tab) = tab {
        let mut e = b"\0\x41\0\x0b".to_vec();
        leb(n as u64, &mut e);
        (0..n).for_each(|i| leb(i as u64, &mut e));
        let x = b.item("elem[0]".into(), e.len());
        b.edges.push((tab, x));
        b.edges.extend(funcs.iter().map(|&f| (x, f)));
        b.list(9, "element", &[e]);
    }

    // Code.
    let side = (1..).take_while(|x| x * x <= n).last().unwrap_or(1);
    let mut code = vec![];
    let mut inner = 0;
    leb(n as u64, &mut code);
    for i in 0..n {
        let callees: Vec<usize> = match shape {
            // A chain, a star, its reverse.
            0 => (i + 1..n.min(i + 2)).collect(),
            1 if i == 0 => (1..n).collect(),
            1 => vec![],
            2 => vec![n - 1],
            // Some call all of some, again and again.
            3 if i < side => (0..side).chain(0..side).collect(),
            3 => vec![i % side],
            // A binary tree.
            4 => [2 * i + 1, 2 * i + 2].into_iter().filter(|&x| x < n).collect(),
            // Anything.
            5 => (0..3).map(|k| (i * 7919 + k * 104_729 + 13) % n).collect(),
            // A ring.
            6 => vec![(i + 1) % n],
            // A ladder: as many paths as two to the power of its length.
            7 => [i / 2 * 2 + 2, i / 2 * 2 + 3].into_iter().filter(|&x| x < n).collect(),
            _ => vec![],
        };
        let mut c = vec![0];
        for f in callees {
            c.push(0x10);
            leb(f as u64, &mut c);
            b.edges.push((funcs[i], funcs[f]));
        }
        if nglobals > 0 {
            let g = (i * 31) % nglobals;
            c.push(0x23);
            leb(g as u64, &mut c);
            c.push(0x1a);
            b.edges.push((funcs[i], globals[g]));
        }
        if nsegs > 0 {
            // The first byte of segment i.
            c.push(0x41);
            sleb((16 * ((i * 17) % nsegs) + 16) as i64, &mut c);
            c.extend_from_slice(b"\x28\x02\x00\x1a");
        }
        c.push(0x0b);
        let from = code.len();
        leb(c.len() as u64, &mut code);
        code.extend_from_slice(&c);
        let size = code.len() - from + heads[i];
        b.items[funcs[i]].1 = size as u64;
        inner += size;
    }
    let code_section = b.section(10, &code);
    b.item("code section headers".into(), code_section + func_section - inner);

    let mut entries = vec![];
    let mut segs = vec![];
    for i in 0..nsegs {
        let mut e = b"\0\x41".to_vec();
        sleb(16 * i as i64 + 16, &mut e);
        e.extend_from_slice(b"\x0b\x04data");
        segs.push(b.item(format!("data[{}]", i), e.len()));
        entries.push(e);
    }
    for i in 0..n {
        if nsegs > 0 {
            b.edges.push((funcs[i], segs[(i * 17) % nsegs]));
        }
    }
    b.list(11, "data", &entries);

    if naming > 0 {
        let mut names = vec![];
        leb(n as u64, &mut names);
        for i in 0..n {
            leb(i as u64, &mut names);
            let s = name(i);
            leb(s.len() as u64, &mut names);
            names.extend_from_slice(s.as_bytes());
        }
        let mut p = b"\x04name\x01".to_vec();
        leb(names.len() as u64, &mut p);
        p.extend_from_slice(&names);
        let sub = p.len() - 5;
        b.item("\"function names\" subsection".into(), sub);
        let all = b.section(0, &p);
        b.item("custom section 'name' headers".into(), all - sub);
    }
    b
}

fn leb(mut v: u64, b: &mut Vec<u8>) {
    while v >= 128 {
        b.push(v as u8 | 128);
        v >>= 7;
    }
    b.push(v as u8);
}

fn sleb(mut v: i64, b: &mut Vec<u8>) {
    loop {
        let x = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && x & 0x40 == 0) || (v == -1 && x & 0x40 != 0) {
            b.push(x);
            return;
        }
        b.push(x | 0x80);
    }
}

/// What differs from what is known of the file.
fn differs(b: &Big, g: &Graph) -> Result<(), (Vec<&'static str>, String)> {
    let sorted = |mut v: Vec<(String, u64)>| {
        v.sort();
        v
    };
    let want = sorted(b.items.clone());
    let got = sorted(g.names.iter().cloned().zip(g.sizes.iter().copied()).collect());
    if want.len() != got.len() {
        return Err((vec!["C08"], format!("{} items, there should be {}", got.len(), want.len())));
    }
    if let Some((w, x)) = want.iter().zip(&got).find(|(w, x)| w != x) {
        return Err((vec!["C08"], format!("there is an item {:?}, but none {:?}", x, w)));
    }
    if g.file_size != b.bytes.len() as u64 {
        return Err((vec!["C08"], format!("a file of {} bytes is said to have {}", b.bytes.len(), g.file_size)));
    }
    // References by name, where names tell items apart.
    let mut of: BTreeMap<&str, Option<usize>> = BTreeMap::new();
    for (i, n) in g.names.iter().enumerate() {
        of.entry(n).and_modify(|x| *x = None).or_insert(Some(i));
    }
    let ps = vec!["C09", "C10", "C11"];
    let have: std::collections::BTreeSet<(usize, usize)> =
        g.succ.iter().enumerate().flat_map(|(i, to)| to.iter().map(move |&j| (i, j))).collect();
    let mut all = 0;
    let mut seen = std::collections::BTreeSet::new();
    for &(x, y) in &b.edges {
        if let (Some(x), Some(y)) = (of[b.items[x].0.as_str()], of[b.items[y].0.as_str()]) {
            if !have.contains(&(x, y)) {
                return Err((ps, format!("{:?} refers to {:?}, which goes unnoticed", g.names[x], g.names[y])));
            }
            all += u64::from(seen.insert((x, y)));
        }
    }
    let unique: Vec<bool> = g.names.iter().map(|n| of[n.as_str()].is_some()).collect();
    let got = have.iter().filter(|(i, j)| unique[*i] && unique[*j]).count() as u64;
    if got != all {
        return Err((ps, format!("{} references, there should be {}", got, all)));
    }
    Ok(())
}

pub fn run(t: &mut Tape) -> Outcome {
    let mut o = Outcome::default();
    let n = match t.weighted(&[24, 24, 12, 1]) {
        0 => t.range(200, 600),
        1 => t.range(600, 4000),
        2 => t.range(4000, 12_000),
        // More than 16 bits can number.
        _ => t.range(65_600, 70_000),
    } as usize;
    let b = module(t, n);
    o.log.push(format!("a long file: {} bytes, {} items, {} references, {}", b.bytes.len(), b.items.len(), b.edges.len(), b.desc));
    o.stats.add("long inputs", 1);
    o.shape.push(0xb16);
    o.shape.push(b.bytes.len() as u64);
    o.shape.push(b.edges.len() as u64);
    let (r, parse_work) = crate::edges::work(|| guard(|| twiggy_parser::parse(&b.bytes)));
    let mut items = match r {
        Ok(Ok(i)) => i,
        Ok(Err(e)) => {
            o.viols.push((vec![crate::sess::ANY], format!("an intact input is rejected: {}", e)));
            return o;
        }
        Err(p) => {
            o.viols.push((vec![crate::sess::ANY], format!("parsing panicked: {}", p)));
            return o;
        }
    };
    let size = (b.bytes.len() + b.items.len() + b.edges.len()) as u64;
    // About five, and one for most analyses, at the time of writing.
    let per = |w: u64, size: u64| w / (size * u64::from(64 - size.leading_zeros()));
    let frugal = |o: &mut Outcome, what: String, work: u64, size: u64, most: u64| {
        o.log.push(format!("  {}: {} steps, {} for each unit of size times its logarithm", what, work, per(work, size)));
        if per(work, size) > most {
            o.viols.push((
                vec!["C04"],
                format!("{} takes {} steps for {} bytes, items, references and bytes of report, out of proportion", what, work, size),
            ));
        }
    };
    frugal(&mut o, "parsing".into(), parse_work, size, 20);
    match Graph::of(&items) {
        Ok(g) => {
            if let Err(v) = differs(&b, &g) {
                o.viols.push(v);
            }
        }
        Err(e) => o.viols.push((vec!["C08", "C10"], e)),
    }
    let mut new = None;
    for _ in 0..1 + t.below(3) {
        let what = *t.pick(&crate::spec::ALL);
        let mut s = Spec::plain(what);
        let huge = n > 4000;
        match what {
            What::Top => {
                s.flag = t.chance(1, 2);
                s.limit = if t.chance(1, 2) { Some(t.small(50) as u32) } else { None };
            }
            What::Dominators => {
                s.limit = Some(t.small(50) as u32);
                s.limit2 = Some(t.small(50) as u32);
            }
            What::Paths => {
                s.limit = Some(t.below(3) as u32);
                s.limit2 = Some(t.below(if huge { 2 } else { 6 }) as u32);
                s.flag = t.chance(1, 2);
            }
            What::Monos => {
                s.all = t.chance(1, 2);
                s.flag = t.chance(1, 4);
            }
            What::Garbage | What::Diff => s.all = t.chance(1, 2),
        }
        // Finding dominators takes quadratic time at worst.
        let slow = what == What::Dominators || (what == What::Top && s.flag);
        if slow && (huge || b.deep && n > 2000) {
            continue;
        }
        if what == What::Diff && new.is_none() {
            let m = t.below(n) + 1;
            let m = if n > 12_000 { 500 } else { m };
            new = Some((module(t, m), m));
        }
        let opts = s.options().expect("valid command line");
        let mut other = match (&new, what) {
            (Some((m, _)), What::Diff) => match guard(|| twiggy_parser::parse(&m.bytes)) {
                Ok(Ok(i)) => Some(i),
                _ => continue,
            },
            _ => None,
        };
        let f = t.below(3);
        let (r, work) = crate::edges::work(|| {
            guard(|| {
                let rep = analyse(&opts, &mut items, other.as_mut()).map_err(|e| e.to_string())?;
                let mut out = vec![];
                rep.emit(&items, &mut out, FORMATS[f]).map_err(|e| e.to_string())?;
                Ok::<_, String>(out)
            })
        });
        let name = format!("`{}` as {}", s.show(), FORMAT_NAMES[f]);
        match r {
            Ok(Ok(out)) => {
                o.stats.add("reports", 1);
                o.nontrivial = true;
                o.shape.push(out.len() as u64);
                let more = new.as_ref().map_or(0, |(m, _)| m.bytes.len() + m.items.len());
                let size = size + out.len() as u64 + more as u64;
                frugal(&mut o, name, work, size, if slow { 60 } else { 10 });
            }
            Ok(Err(e)) => o.viols.push((vec![crate::sess::ANY], format!("{} of a long input fails: {}", name, e))),
            Err(p) => o.viols.push((vec![crate::sess::ANY], format!("{} of a long input panicked: {}", name, p))),
        }
    }
    o
}
