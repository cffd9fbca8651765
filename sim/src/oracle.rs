//! What reports must say, given the reference graph. Nothing here depends on
//! how ties between equal sizes or equal names are broken.

use crate::model::{Doms, Graph};
use crate::out::{self, J};
use crate::spec::{Spec, What};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outs {
    pub text: Vec<u8>,
    pub json: Vec<u8>,
    pub csv: Vec<u8>,
}

pub struct Case<'a> {
    pub g: &'a Graph,
    pub d: &'a Doms,
    pub spec: &'a Spec,
    /// The new side of a diff.
    pub new: Option<&'a Graph>,
}

type R = Result<(), Viol>;

fn v<T>(props: &[&'static str], msg: String) -> Result<T, Viol> {
    Err(Viol { props: props.to_vec(), msg })
}

fn c15<T>(r: Result<T, String>) -> Result<T, Viol> {
    r.map_err(|msg| Viol { props: vec!["C15"], msg })
}

fn pct_ok(got: f64, size: i64, total: u64) -> bool {
    let want = size as f64 / total as f64 * 100.0;
    (got - want).abs() <= 1e-9 * want.abs().max(1.0)
}

fn need_pct(props: &[&'static str], what: &str, got: f64, size: i64, total: u64) -> R {
    if pct_ok(got, size, total) {
        Ok(())
    } else {
        v(props, format!("{}: {} of {} bytes is given as {}%", what, size, total, got))
    }
}

#[derive(Clone, Debug)]
enum Cell {
    Int(i64),
    Signed(i64),
    /// The percentage that so many bytes are of the whole.
    Pct(i64),
    Str(String),
}

fn cell_ok(c: &Cell, got: &str, total: u64) -> bool {
    match c {
        Cell::Int(n) => got == n.to_string(),
        Cell::Signed(n) => got == format!("{:+}", n),
        Cell::Pct(n) => match got.strip_suffix('%').and_then(|p| p.parse::<f64>().ok()) {
            Some(p) => {
                let want = *n as f64 / total as f64 * 100.0;
                (p - want).abs() <= 0.005_000_01 && got.split('.').nth(1).map_or(0, |x| x.len()) == 3
            }
            None => false,
        },
        Cell::Str(s) => got == s,
    }
}

fn cell_show(c: &Cell) -> String {
    match c {
        Cell::Int(n) => n.to_string(),
        Cell::Signed(n) => format!("{:+}", n),
        Cell::Pct(n) => format!("the percentage of {} bytes", n),
        Cell::Str(s) => format!("{:?}", s),
    }
}

/// The text table must have exactly these rows.
fn text_rows(props: &[&'static str], text: &[u8], cols: usize, want: &[Vec<Cell>], total: u64) -> R {
    let (head, rows) = c15(out::table(text))?;
    if head.len() != cols {
        return v(&["C15"], format!("text: {} columns, expected {}", head.len(), cols));
    }
    let hostile = want.iter().any(|r| matches!(r.last(), Some(Cell::Str(s)) if s.contains('\n')));
    for (i, w) in want.iter().enumerate() {
        let r = match rows.get(i) {
            Some(r) => r,
            None => return v(props, format!("text: {} rows, expected {}", rows.len(), want.len())),
        };
        for (c, got) in w.iter().zip(r) {
            if !cell_ok(c, got, total) {
                return v(
                    props,
                    format!("text: row {} has {:?}, expected {}", i, got, cell_show(c)),
                );
            }
        }
    }
    let _ = hostile;
    if rows.len() != want.len() {
        return v(props, format!("text: {} rows, expected {}", rows.len(), want.len()));
    }
    Ok(())
}

/// CSV records by column name.
struct Csv {
    col: BTreeMap<String, usize>,
    rows: Vec<Vec<String>>,
}

impl Csv {
    fn read(b: &[u8], cols: &[&str]) -> Result<Csv, Viol> {
        let (head, rows) = c15(out::csv(b))?;
        if head.is_empty() {
            return Ok(Csv { col: cols.iter().enumerate().map(|(i, c)| (c.to_string(), i)).collect(), rows });
        }
        let col: BTreeMap<String, usize> =
            head.iter().enumerate().map(|(i, c)| (c.clone(), i)).collect();
        for c in cols {
            if !col.contains_key(*c) {
                return v(&["C15"], format!("CSV: no column {:?} in {:?}", c, head));
            }
        }
        Ok(Csv { col, rows })
    }
    fn get(&self, row: usize, col: &str) -> &str {
        &self.rows[row][self.col[col]]
    }
    fn len_is(&self, props: &[&'static str], n: usize) -> R {
        if self.rows.len() == n {
            Ok(())
        } else {
            v(props, format!("CSV: {} records, expected {}", self.rows.len(), n))
        }
    }
    fn is_str(&self, props: &[&'static str], row: usize, col: &str, want: &str) -> R {
        if self.get(row, col) == want {
            Ok(())
        } else {
            v(props, format!("CSV: record {} has {} {:?}, expected {:?}", row, col, self.get(row, col), want))
        }
    }
    fn is_int(&self, props: &[&'static str], row: usize, col: &str, want: i64) -> R {
        if self.get(row, col) == want.to_string() {
            Ok(())
        } else {
            v(props, format!("CSV: record {} has {} {:?}, expected {}", row, col, self.get(row, col), want))
        }
    }
    fn is_pct(&self, props: &[&'static str], row: usize, col: &str, size: i64, total: u64) -> R {
        match self.get(row, col).parse::<f64>() {
            Ok(p) if pct_ok(p, size, total) => Ok(()),
            _ => v(
                props,
                format!(
                    "CSV: record {} has {} {:?} for {} of {} bytes",
                    row,
                    col,
                    self.get(row, col),
                    size,
                    total
                ),
            ),
        }
    }
}

fn sorted_desc(props: &[&'static str], what: &str, keys: &[i64]) -> R {
    for w in keys.windows(2) {
        if w[0] < w[1] {
            return v(props, format!("{}: a row of {} comes before one of {}", what, w[0], w[1]));
        }
    }
    Ok(())
}

pub fn check(c: &Case, o: &Outs) -> R {
    let r = match c.spec.what {
        What::Top => top(c, o),
        What::Garbage => garbage(c, o),
        What::Dominators => dominators(c, o),
        What::Paths => paths(c, o),
        What::Monos => monos(c, o),
        What::Diff => diff(c, o),
    };
    r.map_err(|mut e| {
        e.msg = format!("{}: {}", c.spec.show(), e.msg);
        e
    })
}

/// The limited report must be the beginning of the unlimited one.
pub fn check_prefix(spec: &Spec, lim: &Outs, full: &Outs) -> R {
    let r = prefix(spec, lim, full);
    r.map_err(|mut e| {
        e.msg = format!("{}: {}", spec.show(), e.msg);
        e
    })
}

fn prefix(spec: &Spec, lim: &Outs, full: &Outs) -> R {
    let (jl, jf) = (c15(out::json(&lim.json))?, c15(out::json(&full.json))?);
    let arr = |j: &J| -> Result<Vec<J>, Viol> {
        match j {
            J::Arr(v) => Ok(v.clone()),
            _ => v(&["C15"], "JSON: not an array".into()),
        }
    };
    match spec.what {
        What::Top | What::Garbage | What::Diff => {
            let (l, f) = (arr(&jl)?, arr(&jf)?);
            // Remainder and totals come after the rows proper.
            let fixed = match spec.what {
                What::Top => 0,
                What::Diff => 1,
                _ => f.len().saturating_sub(f.iter().position(|x| x.str("name").map_or(false, |n| n.starts_with("Σ ["))).unwrap_or(0)),
            };
            let n = spec.rows().min(f.len() - fixed.min(f.len()));
            if l.len() < n || l[..n] != f[..n] {
                return v(
                    &["C14"],
                    format!("limited to {} rows, the report does not start like the unlimited one", n),
                );
            }
            Ok(())
        }
        What::Monos => {
            let (l, f) = (arr(&jl)?, arr(&jf)?);
            let n = spec.rows().min(f.len().saturating_sub(1));
            for i in 0..n {
                let same = |k: &str| l.get(i).and_then(|x| x.get(k)) == f[i].get(k);
                let il = c15(l.get(i).map_or(Err("row missing".into()), |x| x.arr("monomorphizations").map(|a| a.to_vec())))?;
                let fi = c15(f[i].arr("monomorphizations"))?;
                let m = if spec.flag { 0 } else { spec.depth().min(fi.len()) };
                // Equal sizes and bloats may be ordered by what is shown.
                let ties = f.iter().enumerate().any(|(j, y)| {
                    j != i
                        && y.get("total_size") == f[i].get("total_size")
                        && y.get("approximate_monomorphization_bloat_bytes")
                            == f[i].get("approximate_monomorphization_bloat_bytes")
                });
                if ties {
                    if !same("total_size") {
                        return v(&["C14"], format!("generic #{} differs from the unlimited report", i));
                    }
                    continue;
                }
                if !same("generic")
                    || !same("total_size")
                    || !same("approximate_monomorphization_bloat_bytes")
                    || il.len() < m
                    || il[..m] != fi[..m]
                {
                    return v(&["C14"], format!("generic #{} differs from the unlimited report", i));
                }
            }
            Ok(())
        }
        What::Paths => {
            fn prune(j: &J, d: usize, depth: usize, width: usize) -> J {
                match j {
                    J::Obj(fs) => J::Obj(
                        fs.iter()
                            .map(|(k, x)| match x {
                                J::Arr(kids) if k == "callers" => (
                                    k.clone(),
                                    J::Arr(if d < depth {
                                        kids.iter().take(width).map(|x| prune(x, d + 1, depth, width)).collect()
                                    } else {
                                        vec![]
                                    }),
                                ),
                                x => (k.clone(), x.clone()),
                            })
                            .collect(),
                    ),
                    x => x.clone(),
                }
            }
            let f = arr(&jf)?;
            let want: Vec<J> = f.iter().map(|x| prune(x, 0, spec.depth(), spec.rows())).collect();
            if arr(&jl)? != want {
                return v(&["C14"], "limiting the depth and the number of paths changes more than it hides".into());
            }
            Ok(())
        }
        What::Dominators => {
            let (_, f) = c15(out::table(&full.text))?;
            let (_, l) = c15(out::table(&lim.text))?;
            let deep = |name: &str| -> usize {
                let mut lead = 0;
                for ch in name.chars() {
                    match ch {
                        ' ' => lead += 1,
                        '⤷' => return 2 + (lead - 2) / 4,
                        _ => break,
                    }
                }
                1
            };
            let is_sum = |r: &Vec<String>| {
                r[2].starts_with('[') && r[2].ends_with(" Unreachable Items]")
            };
            let want: Vec<Vec<String>> = f
                .iter()
                .filter(|r| !is_sum(r) && deep(&r[2]) <= spec.depth())
                .take(spec.rows())
                .cloned()
                .chain(f.iter().filter(|r| is_sum(r)).cloned())
                .collect();
            let strip = |rows: &Vec<Vec<String>>| -> Vec<Vec<String>> {
                rows.iter().map(|r| r.iter().map(|c| c.trim_start_matches(' ').to_string()).collect()).collect()
            };
            if strip(&l) != strip(&want) {
                return v(
                    &["C14"],
                    format!("limiting rows and depth shows {} rows, expected the first {} of the report that are not too deep", l.len(), want.len()),
                );
            }
            Ok(())
        }
    }
}

fn top(c: &Case, o: &Outs) -> R {
    let g = c.g;
    let ret = c.spec.flag;
    let j = c15(out::json(&o.json))?;
    let rows = match &j {
        J::Arr(r) => r,
        _ => return v(&["C15"], "JSON: not an array".into()),
    };
    let n = g.len();
    let shown = c.spec.rows().min(n);
    if rows.len() != shown {
        return v(&["C14", "C08"], format!("{} rows for {} items with a limit of {}", rows.len(), n, c.spec.rows()));
    }
    let mut keys = vec![];
    let mut model: BTreeMap<(&str, i64), Vec<(bool, i64)>> = BTreeMap::new();
    for i in 0..n {
        model
            .entry((&g.names[i], g.sizes[i] as i64))
            .or_default()
            .push((c.d.live[i], c.d.retained[i] as i64));
    }
    let mut want_text = vec![];
    let (mut sum, mut parsed) = (0i64, vec![]);
    for r in rows {
        let name = c15(r.str("name"))?;
        let size = c15(r.int("shallow_size"))?;
        need_pct(&["C15", "C08"], name, c15(r.num("shallow_size_percent"))?, size, g.file_size)?;
        let retained = if ret { Some(c15(r.int("retained_size"))?) } else { None };
        if let Some(x) = retained {
            need_pct(&["C15", "C09"], name, c15(r.num("retained_size_percent"))?, x, g.file_size)?;
        }
        match model.get_mut(&(name, size)) {
            Some(l) if !l.is_empty() => match retained {
                None => {
                    l.pop();
                }
                Some(x) => {
                    let at = l.iter().position(|&(live, r)| live && r == x).or_else(|| l.iter().position(|&(live, _)| !live));
                    match at {
                        Some(k) => {
                            l.remove(k);
                        }
                        None => {
                            return v(&["C09"], format!("`{}` is said to retain {} bytes, should be {:?}", name, x, l))
                        }
                    }
                }
            },
            _ => return v(&["C08"], format!("`{}` of {} bytes is listed, but is no (further) item", name, size)),
        }
        let key = retained.unwrap_or(size);
        keys.push(key);
        sum += size;
        want_text.push(vec![Cell::Int(key), Cell::Pct(key), Cell::Str(name.to_string())]);
        parsed.push((name.to_string(), size, retained));
    }
    sorted_desc(&["C14"], "top", &keys)?;
    let mut sizes: Vec<i64> = g.sizes.iter().map(|&s| s as i64).collect();
    sizes.sort_by(|a, b| b.cmp(a));
    if !ret && keys[..] != sizes[..shown] {
        return v(&["C14"], format!("the {} largest items are not the ones listed", shown));
    }
    let total: i64 = sizes.iter().sum();
    let blank = || Cell::Str("...".into());
    if n > shown {
        let name = Cell::Str(format!("... and {} more.", n - shown));
        want_text.push(if ret { vec![blank(), blank(), name] } else { vec![Cell::Int(total - sum), Cell::Pct(total - sum), name] });
    }
    let name = Cell::Str(format!("Σ [{} Total Rows]", n));
    want_text.push(if ret { vec![blank(), blank(), name] } else { vec![Cell::Int(total), Cell::Pct(total), name] });
    let own = if ret { "C09" } else { "C08" };
    let ps: &[&'static str] = &["C14", "C15", own];
    text_rows(ps, &o.text, 3, &want_text, g.file_size)?;
    let ps: &[&'static str] = &["C15", own];
    let csv = Csv::read(&o.csv, &["Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent"])?;
    csv.len_is(&["C14", "C15", own], shown)?;
    for (i, (name, size, retained)) in parsed.iter().enumerate() {
        csv.is_str(ps, i, "Name", name)?;
        csv.is_int(&["C14", "C15", own], i, "ShallowSize", *size)?;
        csv.is_pct(ps, i, "ShallowSizePercent", *size, g.file_size)?;
        match retained {
            Some(r) => {
                csv.is_int(&["C14", "C15", own], i, "RetainedSize", *r)?;
                csv.is_pct(ps, i, "RetainedSizePercent", *r, g.file_size)?;
            }
            None => {
                csv.is_str(ps, i, "RetainedSize", "")?;
                csv.is_str(ps, i, "RetainedSizePercent", "")?;
            }
        }
    }
    Ok(())
}

fn garbage(c: &Case, o: &Outs) -> R {
    use crate::gen::Kind;
    let g = c.g;
    let dead: Vec<usize> = (0..g.len()).filter(|&i| !c.d.live[i]).collect();
    let (data, list): (Vec<usize>, Vec<usize>) =
        dead.iter().partition(|&&i| !c.spec.flag && g.kinds[i] == Kind::Data);
    let j = c15(out::json(&o.json))?;
    let rows = match &j {
        J::Arr(r) => r,
        _ => return v(&["C15"], "JSON: not an array".into()),
    };
    let n = list.len();
    let shown = c.spec.rows().min(n);
    let want_len = shown + (n > shown) as usize + 1 + (!data.is_empty()) as usize;
    let mut got = vec![];
    for r in rows {
        let name = c15(r.str("name"))?.to_string();
        let size = c15(r.int("bytes"))?;
        need_pct(&["C15", "C10"], &name, c15(r.num("size_percent"))?, size, g.file_size)?;
        got.push((name, size));
    }
    if got.len() != want_len {
        return v(
            &["C10", "C14"],
            format!(
                "{} rows; with {} unreachable items ({} data) and a limit of {} there should be {}: {:?}",
                got.len(),
                dead.len(),
                data.len(),
                c.spec.rows(),
                want_len,
                got
            ),
        );
    }
    let mut model: BTreeMap<(&str, i64), usize> = BTreeMap::new();
    for &i in &list {
        *model.entry((&g.names[i], g.sizes[i] as i64)).or_default() += 1;
    }
    let mut keys = vec![];
    for (name, size) in &got[..shown] {
        match model.get_mut(&(name.as_str(), *size)) {
            Some(k) if *k > 0 => *k -= 1,
            _ => return v(&["C10"], format!("`{}` of {} bytes is listed as garbage, but is not", name, size)),
        }
        keys.push(*size);
    }
    sorted_desc(&["C14"], "garbage", &keys)?;
    let mut sizes: Vec<i64> = list.iter().map(|&i| g.sizes[i] as i64).collect();
    sizes.sort_by(|a, b| b.cmp(a));
    if keys[..] != sizes[..shown] {
        return v(&["C14"], "the largest garbage items are not the ones listed".into());
    }
    let total: i64 = sizes.iter().sum();
    let mut want: Vec<(String, i64)> = got[..shown].to_vec();
    if n > shown {
        want.push((format!("... and {} more", n - shown), sizes[shown..].iter().sum()));
    }
    want.push((format!("Σ [{} Total Rows]", n), total));
    if !data.is_empty() {
        want.push((
            format!("{} potential false-positive data segments", data.len()),
            data.iter().map(|&i| g.sizes[i] as i64).sum(),
        ));
    }
    for (w, r) in want.iter().zip(&got) {
        if w != r {
            return v(&["C10", "C14"], format!("row {:?}, expected {:?}", r, w));
        }
    }
    let cells: Vec<Vec<Cell>> =
        want.iter().map(|(n, s)| vec![Cell::Int(*s), Cell::Pct(*s), Cell::Str(n.clone())]).collect();
    text_rows(&["C10", "C14", "C15"], &o.text, 3, &cells, g.file_size)?;
    let csv = Csv::read(&o.csv, &["Name", "Bytes", "SizePercent"])?;
    csv.len_is(&["C10", "C14", "C15"], want.len())?;
    for (i, (n, s)) in want.iter().enumerate() {
        csv.is_str(&["C10", "C15"], i, "Name", n)?;
        csv.is_int(&["C10", "C14", "C15"], i, "Bytes", *s)?;
        csv.is_pct(&["C10", "C15"], i, "SizePercent", *s, g.file_size)?;
    }
    Ok(())
}

const META: &str = "<meta root>";

/// A canonical description of a dominator (sub)tree.
fn tree_hash(name: &str, size: i64, ret: i64, mut kids: Vec<u64>) -> u64 {
    kids.sort();
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut eat = |x: u64| {
        for b in x.to_le_bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        h ^= h >> 29;
    };
    for b in name.bytes() {
        eat(u64::from(b));
    }
    eat(size as u64);
    eat(ret as u64);
    eat(kids.len() as u64);
    for k in kids {
        eat(k);
    }
    h
}

struct DomModel {
    kids: Vec<Vec<usize>>, // index n: meta root
    hash: Vec<u64>,
    retained: Vec<i64>,
}

fn dom_model(g: &Graph, d: &Doms) -> DomModel {
    let n = g.len();
    let mut kids = vec![vec![]; n + 1];
    for i in 0..n {
        if d.live[i] {
            kids[d.idom[i].unwrap_or(n)].push(i);
        }
    }
    let mut retained: Vec<i64> = d.retained.iter().map(|&r| r as i64).collect();
    retained.push((0..n).filter(|&i| d.live[i]).map(|i| g.sizes[i] as i64).sum());
    let mut hash = vec![0; n + 1];
    // Children before parents.
    let mut order = vec![n];
    let mut k = 0;
    while k < order.len() {
        order.extend(kids[order[k]].iter().copied());
        k += 1;
    }
    for i in (0..n).filter(|&i| !d.live[i]) {
        order.push(i);
    }
    for &i in order.iter().rev() {
        let ks = kids[i].iter().map(|&c| hash[c]).collect();
        let (name, size) = if i == n { (META, 0) } else { (g.names[i].as_str(), g.sizes[i] as i64) };
        hash[i] = tree_hash(name, size, retained[i], ks);
    }
    DomModel { kids, hash, retained }
}

struct Flat {
    name: String,
    size: i64,
    ret: i64,
    depth: usize,
    parent: Option<usize>,
}

fn dominators(c: &Case, o: &Outs) -> R {
    let g = c.g;
    let n = g.len();
    let m = dom_model(g, c.d);
    let j = c15(out::json(&o.json))?;
    let items = c15(j.arr("items"))?;

    // Read the trees.
    fn read(j: &J, depth: usize, parent: Option<usize>, total: u64, out: &mut Vec<Flat>) -> Result<u64, Viol> {
        let name = c15(j.str("name"))?;
        let size = c15(j.int("shallow_size"))?;
        let ret = c15(j.int("retained_size"))?;
        need_pct(&["C15", "C09"], name, c15(j.num("shallow_size_percent"))?, size, total)?;
        need_pct(&["C15", "C09"], name, c15(j.num("retained_size_percent"))?, ret, total)?;
        let me = out.len();
        out.push(Flat { name: name.into(), size, ret, depth, parent });
        let mut hs = vec![];
        if j.get("children").is_some() {
            let mut last = i64::MAX;
            for k in c15(j.arr("children"))? {
                let at = out.len();
                hs.push(read(k, depth + 1, Some(me), total, out)?);
                if out[at].ret > last {
                    return v(&["C14"], format!("below `{}`, an item retaining {} bytes comes before one retaining {}", name, last, out[at].ret));
                }
                last = out[at].ret;
            }
        }
        Ok(tree_hash(name, size, ret, hs))
    }
    let mut flat: Vec<Flat> = vec![];
    let mut tops = vec![]; // (index in flat, hash)
    for it in items {
        let at = flat.len();
        let is_meta = it.str("name").map_or(false, |x| x == META);
        let h = read(it, if is_meta { 0 } else { 1 }, None, g.file_size, &mut flat)?;
        tops.push((at, h));
    }

    // Compare with the model.
    let explain = |at: usize| -> String {
        // Find a reason that a human can follow.
        let f = &flat[at];
        format!("the tree below `{}` (retaining {} bytes)", f.name, f.ret)
    };
    let name_of = |i: usize| if i == n { META } else { g.names[i].as_str() };
    let diagnose = |i: usize, at: usize| -> String {
        // Walk down the model and the report together as long as names say how.
        let mut end = flat.len();
        for k in at + 1..flat.len() {
            if flat[k].depth <= flat[at].depth {
                end = k;
                break;
            }
        }
        let mut got: BTreeMap<(String, i64, String), i64> = BTreeMap::new();
        for f in &flat[at..end] {
            let p = f.parent.map_or(String::new(), |p| flat[p].name.clone());
            *got.entry((f.name.clone(), f.ret, p)).or_default() += 1;
        }
        let mut todo = vec![(i, String::new())];
        let mut want: BTreeMap<(String, i64, String), i64> = BTreeMap::new();
        while let Some((x, p)) = todo.pop() {
            *want.entry((name_of(x).to_string(), m.retained[x], p)).or_default() += 1;
            for &k in &m.kids[x] {
                todo.push((k, name_of(x).to_string()));
            }
        }
        for (k, c) in &want {
            if got.get(k) != Some(c) {
                let near: Vec<_> = got.keys().filter(|x| x.0 == k.0).collect();
                return format!("`{}` should retain {} bytes below `{}`; reported: {:?}", k.0, k.1, k.2, near);
            }
        }
        for k in got.keys() {
            if !want.contains_key(k) {
                return format!("`{}` is reported below `{}` retaining {} bytes, which is wrong", k.0, k.2, k.1);
            }
        }
        "the nesting is wrong".to_string()
    };
    let matches = |i: usize, at: usize, h: u64| -> bool {
        if i < n && !c.d.live[i] {
            // Retained sizes of unreachable items are not specified.
            flat[at].name == g.names[i] && flat[at].size == g.sizes[i] as i64
        } else {
            m.hash[i] == h
        }
    };
    if c.spec.args.is_empty() {
        if tops.len() != 1 || flat[0].name != META {
            return v(&["C09"], format!("{} trees are reported instead of the whole", tops.len()));
        }
        if !matches(n, 0, tops[0].1) {
            return v(&["C09"], diagnose(n, 0));
        }
    } else if c.spec.regex {
        let re = match c.spec.patterns() {
            Some(re) => re,
            None => return Ok(()),
        };
        let mut cand: Vec<usize> = (0..n).filter(|&i| re.is_match(&g.names[i])).collect();
        for &(at, h) in &tops {
            if flat[at].name == META {
                if !re.is_match(META) || !matches(n, at, h) {
                    return v(&["C09"], diagnose(n, at));
                }
                continue;
            }
            // Exact matches first, unspecified ones after.
            let k = cand
                .iter()
                .position(|&i| c.d.live[i] && matches(i, at, h))
                .or_else(|| cand.iter().position(|&i| matches(i, at, h)));
            match k {
                Some(k) => {
                    cand.remove(k);
                }
                None => {
                    return v(&["C09"], match cand.iter().find(|&&i| g.names[i] == flat[at].name) {
                        Some(&i) => diagnose(i, at),
                        None => format!("{} was not asked for", explain(at)),
                    })
                }
            }
        }
        if let Some(&i) = cand.first() {
            return v(&["C09"], format!("`{}` matches, but is not reported", g.names[i]));
        }
        let rets: Vec<i64> = tops.iter().map(|&(at, _)| flat[at].ret).collect();
        sorted_desc(&["C14"], "matching items", &rets)?;
    } else {
        let want: Vec<&String> = c
            .spec
            .args
            .iter()
            .filter(|a| a.as_str() == META || g.names.contains(*a))
            .collect();
        if want.len() != tops.len() {
            return v(&["C09"], format!("{} trees for {} existing items asked for", tops.len(), want.len()));
        }
        for (w, &(at, h)) in want.iter().zip(&tops) {
            if &flat[at].name != *w {
                return v(&["C09"], format!("asked for `{}`, got {}", w, explain(at)));
            }
            if !(0..=n).any(|i| name_of(i) == w.as_str() && matches(i, at, h)) {
                let i = (0..=n).find(|&i| name_of(i) == w.as_str()).unwrap();
                return v(&["C09"], diagnose(i, at));
            }
        }
    }

    // The unreachable rest.
    let dead: Vec<usize> = (0..n).filter(|&i| !c.d.live[i]).collect();
    let dead_size: i64 = dead.iter().map(|&i| g.sizes[i] as i64).sum();
    let dead_name = format!("[{} Unreachable Items]", dead.len());
    let summed = c.spec.args.is_empty() && dead_size > 0;
    match j.get("summary") {
        None if !summed => {}
        Some(J::Arr(s)) if summed && s.len() == 1 => {
            let name = c15(s[0].str("name"))?;
            let size = c15(s[0].int("retained_size"))?;
            need_pct(&["C15", "C09"], name, c15(s[0].num("retained_size_percent"))?, size, g.file_size)?;
            if name != dead_name || size != dead_size {
                return v(&["C09"], format!("the summary says {:?} of {} bytes, it should be {:?} of {}", name, size, dead_name, dead_size));
            }
        }
        x => return v(&["C09"], format!("summary is {:?}, with {} unreachable bytes", x, dead_size)),
    }

    // CSV: the same trees in preorder.
    let ps: &[&'static str] = &["C15", "C09"];
    let csv = Csv::read(
        &o.csv,
        &["Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize", "RetainedSizePercent", "ImmediateDominator"],
    )?;
    csv.len_is(&["C14", "C15", "C09"], flat.len() + summed as usize)?;
    let by_id: BTreeMap<String, usize> =
        g.ids.iter().enumerate().map(|(i, id)| (id.serializable().to_string(), i)).collect();
    for (i, f) in flat.iter().enumerate() {
        csv.is_str(ps, i, "Name", &f.name)?;
        csv.is_int(&["C14", "C15", "C09"], i, "ShallowSize", f.size)?;
        csv.is_pct(ps, i, "ShallowSizePercent", f.size, g.file_size)?;
        csv.is_int(&["C14", "C15", "C09"], i, "RetainedSize", f.ret)?;
        csv.is_pct(ps, i, "RetainedSizePercent", f.ret, g.file_size)?;
        let (id, dom) = (csv.get(i, "Id"), csv.get(i, "ImmediateDominator"));
        if let Some(p) = f.parent {
            if csv.get(p, "Id") != dom {
                return v(ps, format!("CSV: `{}` is below id {}, but its dominator is given as {}", f.name, csv.get(p, "Id"), dom));
            }
        }
        match by_id.get(id) {
            Some(&k) => {
                if g.names[k] != f.name || g.sizes[k] as i64 != f.size {
                    return v(ps, format!("CSV: id {} belongs to `{}`, not to `{}`", id, g.names[k], f.name));
                }
                if c.d.live[k] {
                    let ok = match c.d.idom[k] {
                        Some(p) => by_id.get(dom) == Some(&p),
                        None => !by_id.contains_key(dom),
                    };
                    if !ok || m.retained[k] != f.ret {
                        return v(ps, format!("CSV: `{}` has dominator {} and retains {}, should be {:?} and {}", f.name, dom, f.ret, c.d.idom[k].map(|p| &g.names[p]), m.retained[k]));
                    }
                }
            }
            None => {
                if f.name != META {
                    return v(ps, format!("CSV: `{}` has id {}, which no item has", f.name, id));
                }
            }
        }
    }
    if summed {
        let i = flat.len();
        csv.is_str(ps, i, "Name", &dead_name)?;
        csv.is_int(&["C14", "C15", "C09"], i, "ShallowSize", dead_size)?;
        csv.is_int(&["C14", "C15", "C09"], i, "RetainedSize", dead_size)?;
        csv.is_pct(ps, i, "RetainedSizePercent", dead_size, g.file_size)?;
    }

    // Text: the same, within limits.
    let mut want = vec![];
    for f in flat.iter().filter(|f| f.depth > 0 && f.depth <= c.spec.depth()).take(c.spec.rows()) {
        let mut label = String::new();
        for _ in 2..f.depth {
            label.push_str("    ");
        }
        if f.depth > 1 {
            label.push_str("  ⤷ ");
        }
        label.push_str(&f.name);
        want.push(vec![Cell::Int(f.ret), Cell::Pct(f.ret), Cell::Str(label)]);
    }
    if summed {
        want.push(vec![Cell::Int(dead_size), Cell::Pct(dead_size), Cell::Str(dead_name)]);
    }
    let ps: &[&'static str] = &["C14", "C15", "C09"];
    text_rows(ps, &o.text, 3, &want, g.file_size)
}

/// Maximum matching of `a` rows to `b` candidates; true if all rows match.
fn all_match(rows: usize, cands: usize, ok: &mut dyn FnMut(usize, usize) -> bool) -> bool {
    let mut adj = vec![vec![]; rows];
    for r in 0..rows {
        for c in 0..cands {
            if ok(r, c) {
                adj[r].push(c);
            }
        }
    }
    let mut of: Vec<Option<usize>> = vec![None; cands];
    fn aug(r: usize, adj: &[Vec<usize>], of: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for &c in &adj[r] {
            if seen[c] {
                continue;
            }
            seen[c] = true;
            if of[c].is_none() || aug(of[c].unwrap(), adj, of, seen) {
                of[c] = Some(r);
                return true;
            }
        }
        false
    }
    (0..rows).all(|r| aug(r, &adj, &mut of, &mut vec![false; cands]))
}

struct Pt {
    name: String,
    size: i64,
    kids: Vec<Pt>,
}

fn paths(c: &Case, o: &Outs) -> R {
    let g = c.g;
    let n = g.len();
    let desc = c.spec.flag;
    let (depth, width) = (c.spec.depth(), c.spec.rows());
    let j = c15(out::json(&o.json))?;
    let rows = match &j {
        J::Arr(r) => r,
        _ => return v(&["C15"], "JSON: not an array".into()),
    };
    fn read(j: &J, total: u64) -> Result<Pt, Viol> {
        let name = c15(j.str("name"))?.to_string();
        let size = c15(j.int("shallow_size"))?;
        need_pct(&["C15", "C11"], &name, c15(j.num("shallow_size_percent"))?, size, total)?;
        let kids = c15(j.arr("callers"))?.iter().map(|k| read(k, total)).collect::<Result<_, _>>()?;
        Ok(Pt { name, size, kids })
    }
    let trees: Vec<Pt> = rows.iter().map(|r| read(r, g.file_size)).collect::<Result<_, _>>()?;

    let name_of = |i: usize| if i == n { META } else { g.names[i].as_str() };
    let size_of = |i: usize| if i == n { 0 } else { g.sizes[i] as i64 };
    let next = |i: usize| -> Vec<usize> {
        if i == n {
            if desc {
                g.roots.iter().copied().collect()
            } else {
                vec![]
            }
        } else if desc {
            g.succ[i].clone()
        } else {
            g.pred[i].clone()
        }
    };
    struct M<'a> {
        next: &'a dyn Fn(usize) -> Vec<usize>,
        name_of: &'a dyn Fn(usize) -> &'a str,
        size_of: &'a dyn Fn(usize) -> i64,
        depth: usize,
        width: usize,
        desc: bool,
        why: Option<(usize, String)>,
    }
    impl<'a> M<'a> {
        fn fail(&mut self, d: usize, msg: String) -> bool {
            if self.why.as_ref().map_or(true, |w| w.0 <= d) {
                self.why = Some((d, msg));
            }
            false
        }
        fn ok(&mut self, p: &Pt, i: usize, on: &mut Vec<usize>, d: usize) -> bool {
            if p.name != (self.name_of)(i) || p.size != (self.size_of)(i) {
                return false;
            }
            let kids: Vec<usize> = (self.next)(i).into_iter().filter(|k| !on.contains(k)).collect();
            let want = if d < self.depth { kids.len().min(self.width) } else { 0 };
            let (name_of, dir) = (self.name_of, if self.desc { "references" } else { "is referenced by" });
            if p.kids.len() != want {
                let real: Vec<&str> = kids.iter().map(|&k| name_of(k)).collect();
                let got: Vec<&str> = p.kids.iter().map(|k| k.name.as_str()).collect();
                return self.fail(d, format!("`{}` {} {:?}, shown at depth {}: {:?}", p.name, dir, real, d, got));
            }
            on.push(i);
            // In order, usually.
            let saved = self.why.clone();
            let mut good = true;
            for (a, b) in p.kids.iter().zip(&kids) {
                if !self.ok(a, *b, on, d + 1) {
                    good = false;
                    break;
                }
            }
            if !good {
                let mut me = std::mem::replace(&mut self.why, saved);
                good = all_match(p.kids.len(), kids.len(), &mut |a, b| self.ok(&p.kids[a], kids[b], on, d + 1));
                if !good {
                    for k in &p.kids {
                        if !kids.iter().any(|&x| k.name == name_of(x)) {
                            me = Some((d + 1, format!("`{}` {} no `{}`, but it is shown", p.name, dir, k.name)));
                        }
                    }
                    if let Some((dd, m)) = me {
                        self.fail(dd, m);
                    } else {
                        self.fail(d, format!("the paths at `{}` are wrong", p.name));
                    }
                }
            }
            on.pop();
            good
        }
    }
    let mut mm = M { next: &next, name_of: &name_of, size_of: &size_of, depth, width, desc, why: None };

    let re = c.spec.patterns();
    let mut starts: Vec<usize> = vec![];
    if c.spec.args.is_empty() {
        starts = if desc { g.roots.iter().copied().collect() } else { (0..n).collect() };
        let keys: Vec<i64> = trees.iter().map(|t| t.size).collect();
        sorted_desc(&["C14"], "paths", &keys)?;
    } else if let Some(re) = &re {
        starts = (0..n).filter(|&i| re.is_match(&g.names[i])).collect();
        // The artificial root may be matched too.
        if re.is_match(META) && trees.len() == starts.len() + 1 {
            starts.push(n);
        }
    } else if c.spec.regex {
        return Ok(());
    } else {
        // One item per name.
        let names: Vec<&String> =
            c.spec.args.iter().filter(|a| a.as_str() == META || g.names.contains(*a)).collect();
        if names.len() != trees.len() {
            return v(&["C11"], format!("{} trees for {} existing items asked for", trees.len(), names.len()));
        }
        for (w, t) in names.iter().zip(&trees) {
            if !(0..=n).any(|i| name_of(i) == w.as_str() && mm.ok(t, i, &mut vec![], 0)) {
                return v(&["C11"], mm.why.map_or(format!("asked for `{}`, got `{}` of {} bytes", w, t.name, t.size), |w| w.1));
            }
        }
    }
    if c.spec.args.is_empty() || re.is_some() {
        if starts.len() != trees.len() {
            return v(&["C11"], format!("{} trees for {} starting items", trees.len(), starts.len()));
        }
        // Match within groups of equals.
        let mut groups: BTreeMap<(String, i64), (Vec<usize>, Vec<usize>)> = BTreeMap::new();
        for (k, t) in trees.iter().enumerate() {
            groups.entry((t.name.clone(), t.size)).or_default().0.push(k);
        }
        for &i in &starts {
            groups.entry((name_of(i).to_string(), size_of(i))).or_default().1.push(i);
        }
        for ((name, size), (ts, is)) in groups {
            if ts.len() != is.len() {
                return v(&["C11"], format!("`{}` of {} bytes is shown {} times, should be {}", name, size, ts.len(), is.len()));
            }
            if !all_match(ts.len(), is.len(), &mut |a, b| mm.ok(&trees[ts[a]], is[b], &mut vec![], 0)) {
                return v(&["C11"], mm.why.map_or(format!("the paths of `{}` are wrong", name), |w| w.1));
            }
        }
    }

    // The other formats say the same.
    fn flatten<'a>(p: &'a Pt, d: usize, out: &mut Vec<(&'a Pt, usize)>) {
        out.push((p, d));
        for k in &p.kids {
            flatten(k, d + 1, out);
        }
    }
    let mut flat = vec![];
    for t in &trees {
        flatten(t, 0, &mut flat);
    }
    let ps: &[&'static str] = &["C15", "C11"];
    let want: Vec<Vec<Cell>> = flat
        .iter()
        .map(|(p, d)| {
            let mut label = String::new();
            for _ in 1..*d {
                label.push_str("    ");
            }
            if *d > 0 {
                label.push_str(if desc { "  ↳ " } else { "  ⬑ " });
            }
            label.push_str(&p.name);
            if *d == 0 {
                vec![Cell::Int(p.size), Cell::Pct(p.size), Cell::Str(label)]
            } else {
                vec![Cell::Str("".into()), Cell::Str("".into()), Cell::Str(label)]
            }
        })
        .collect();
    text_rows(&["C14", "C15", "C11"], &o.text, 3, &want, g.file_size)?;
    let csv = Csv::read(&o.csv, &["Name", "ShallowSize", "ShallowSizePercent", "Path"])?;
    csv.len_is(&["C14", "C15", "C11"], flat.len())?;
    for (i, (p, _)) in flat.iter().enumerate() {
        csv.is_str(ps, i, "Name", &p.name)?;
        csv.is_int(&["C14", "C15", "C11"], i, "ShallowSize", p.size)?;
        csv.is_pct(ps, i, "ShallowSizePercent", p.size, g.file_size)?;
    }
    // Where names identify items: the direct neighbours, then the item.
    let mut by_name: BTreeMap<&str, usize> = BTreeMap::new();
    let unique = (0..n).all(|i| by_name.insert(&g.names[i], i).is_none());
    if unique {
        let mut on: Vec<usize> = vec![];
        for (i, (p, d)) in flat.iter().enumerate() {
            let me = by_name.get(p.name.as_str()).copied().unwrap_or(n);
            on.truncate(*d);
            let mut want: Vec<&str> =
                next(me).into_iter().filter(|k| !on.contains(k)).map(|k| name_of(k)).collect();
            on.push(me);
            let got = csv.get(i, "Path");
            if want.is_empty() {
                if !got.is_empty() {
                    return v(ps, format!("CSV: `{}` has path {:?}, but nothing to show", p.name, got));
                }
                continue;
            }
            want.push(&p.name);
            if got == want.join(" -> ") {
                continue;
            }
            let mut parts: Vec<&str> = got.split(" -> ").collect();
            parts.sort();
            want.sort();
            if parts != want {
                return v(ps, format!("CSV: `{}` has path {:?}, should name {:?}", p.name, got, want));
            }
        }
    }
    Ok(())
}

fn monos(c: &Case, o: &Outs) -> R {
    let g = c.g;
    let re = c.spec.patterns();
    let mut groups: BTreeMap<&str, Vec<(&str, i64)>> = BTreeMap::new();
    for i in 0..g.len() {
        if let Some(gen) = &g.generics[i] {
            let want = if c.spec.args.is_empty() {
                true
            } else if c.spec.regex {
                re.as_ref().map_or(false, |re| re.is_match(gen))
            } else {
                c.spec.args.contains(gen)
            };
            if want {
                groups.entry(gen).or_default().push((&g.names[i], g.sizes[i] as i64));
            }
        }
    }
    let j = c15(out::json(&o.json))?;
    let rows = match &j {
        J::Arr(r) => r,
        _ => return v(&["C15"], "JSON: not an array".into()),
    };
    let n = groups.len();
    let shown = c.spec.rows().min(n);
    let want_len = shown + (n > shown) as usize + 1;
    if rows.len() != want_len {
        return v(
            &["C12", "C14"],
            format!("{} rows, with {} generics and a limit of {} there should be {}", rows.len(), n, c.spec.rows(), want_len),
        );
    }
    struct Row {
        name: String,
        bloat: i64,
        size: i64,
        insts: Vec<(String, i64)>,
    }
    let mut got = vec![];
    for r in rows {
        let name = c15(r.str("generic"))?.to_string();
        let bloat = c15(r.int("approximate_monomorphization_bloat_bytes"))?;
        let size = c15(r.int("total_size"))?;
        let ps: &[&'static str] = &["C15", "C12"];
        need_pct(ps, &name, c15(r.num("approximate_monomorphization_bloat_percent"))?, bloat, g.file_size)?;
        need_pct(ps, &name, c15(r.num("total_size_percent"))?, size, g.file_size)?;
        let mut insts = vec![];
        for i in c15(r.arr("monomorphizations"))? {
            let name = c15(i.str("name"))?.to_string();
            let size = c15(i.int("shallow_size"))?;
            need_pct(ps, &name, c15(i.num("shallow_size_percent"))?, size, g.file_size)?;
            insts.push((name, size));
        }
        got.push(Row { name, bloat, size, insts });
    }
    let bloat = |insts: &[(&str, i64)]| -> i64 {
        let total: i64 = insts.iter().map(|x| x.1).sum();
        let max = insts.iter().map(|x| x.1).max().unwrap_or(0);
        let cnt = insts.len() as i64;
        (total / cnt * (cnt - 1)).min(total - max)
    };
    let inst_rows = |cnt: usize| -> usize {
        if c.spec.flag {
            0
        } else {
            cnt.min(c.spec.depth()) + (cnt > c.spec.depth()) as usize
        }
    };
    let mut seen: BTreeSet<&str> = BTreeSet::new();
    for r in &got[..shown] {
        let insts = match groups.get(r.name.as_str()) {
            Some(i) if seen.insert(&r.name) => i,
            _ => return v(&["C12"], format!("`{}` is listed, but is no (further) generic with instances", r.name)),
        };
        let total: i64 = insts.iter().map(|x| x.1).sum();
        if r.size != total || r.bloat != bloat(insts) {
            return v(
                &["C12"],
                format!("`{}` has {} instances {:?}: total {} and bloat {}, reported {} and {}", r.name, insts.len(), insts, total, bloat(insts), r.size, r.bloat),
            );
        }
        let k = if c.spec.flag { 0 } else { insts.len().min(c.spec.depth()) };
        if r.insts.len() != inst_rows(insts.len()) {
            return v(&["C12", "C14"], format!("`{}`: {} rows for {} instances with a limit of {}", r.name, r.insts.len(), insts.len(), c.spec.depth()));
        }
        let mut left = insts.clone();
        for (name, size) in &r.insts[..k] {
            match left.iter().position(|x| x == &(name.as_str(), *size)) {
                Some(p) => {
                    left.remove(p);
                }
                None => return v(&["C12"], format!("`{}` of {} bytes is no (further) instance of `{}`", name, size, r.name)),
            }
        }
        let keys: Vec<i64> = r.insts[..k].iter().map(|x| x.1).collect();
        sorted_desc(&["C14"], &r.name, &keys)?;
        if let (Some(l), Some(s)) = (left.iter().map(|x| x.1).max(), keys.last()) {
            if l > *s {
                return v(&["C14"], format!("`{}`: an instance of {} bytes is hidden, one of {} is not", r.name, l, s));
            }
        }
        if r.insts.len() > k {
            let rest: i64 = left.iter().map(|x| x.1).sum();
            let want = (format!("... and {} more.", left.len()), rest);
            if r.insts[k] != want {
                return v(&["C12", "C14"], format!("`{}`: remainder row {:?}, expected {:?}", r.name, r.insts[k], want));
            }
        }
    }
    let keys: Vec<i64> = got[..shown].iter().map(|r| r.bloat).collect();
    sorted_desc(&["C14"], "generics by bloat", &keys)?;
    for w in got[..shown].windows(2) {
        if w[0].bloat == w[1].bloat && w[0].size < w[1].size {
            return v(&["C14"], format!("`{}` of {} bytes comes before `{}` of {} with the same bloat", w[0].name, w[0].size, w[1].name, w[1].size));
        }
    }
    let hidden: Vec<(&&str, &Vec<(&str, i64)>)> = groups.iter().filter(|(k, _)| !seen.contains(**k)).collect();
    if let (Some(worst), Some(last)) = (hidden.iter().map(|h| bloat(h.1)).max(), keys.last()) {
        if worst > *last {
            return v(&["C14"], format!("a generic with bloat {} is hidden, one with {} is not", worst, last));
        }
    }
    let sums = |x: &mut dyn Iterator<Item = &Vec<(&str, i64)>>| -> (usize, i64, i64) {
        x.fold((0, 0, 0), |a, i| {
            (a.0 + 1 + inst_rows(i.len()), a.1 + i.iter().map(|x| x.1).sum::<i64>(), a.2 + bloat(i))
        })
    };
    let mut tail = vec![];
    if n > shown {
        let (k, s, b) = sums(&mut hidden.iter().map(|h| h.1));
        tail.push((format!("... and {} more.", k), s, b));
    }
    let (k, s, b) = sums(&mut groups.values());
    tail.push((format!("Σ [{} Total Rows]", k), s, b));
    for (w, r) in tail.iter().zip(&got[shown..]) {
        if (r.name.as_str(), r.size, r.bloat, r.insts.len()) != (w.0.as_str(), w.1, w.2, 0) {
            return v(&["C12", "C14"], format!("summary row {:?} of {} bytes with bloat {}, expected {:?}", r.name, r.size, r.bloat, w));
        }
    }

    // The other formats say the same.
    let ps: &[&'static str] = &["C15", "C12"];
    let mut want = vec![];
    for r in &got {
        want.push(vec![Cell::Int(r.bloat), Cell::Pct(r.bloat), Cell::Int(r.size), Cell::Pct(r.size), Cell::Str(r.name.clone())]);
        for (n, s) in &r.insts {
            want.push(vec![Cell::Str("".into()), Cell::Str("".into()), Cell::Int(*s), Cell::Pct(*s), Cell::Str(format!("    {}", n))]);
        }
    }
    text_rows(&["C14", "C15", "C12"], &o.text, 5, &want, g.file_size)?;
    let csv = Csv::read(
        &o.csv,
        &["Generic", "ApproximateMonomorphizationBloatBytes", "ApproximateMonomorphizationBloatPercent", "TotalSize", "TotalSizePercent", "Monomorphizations"],
    )?;
    csv.len_is(&["C14", "C15", "C12"], got.len())?;
    for (i, r) in got.iter().enumerate() {
        csv.is_str(ps, i, "Generic", &r.name)?;
        csv.is_int(&["C14", "C15", "C12"], i, "ApproximateMonomorphizationBloatBytes", r.bloat)?;
        csv.is_pct(ps, i, "ApproximateMonomorphizationBloatPercent", r.bloat, g.file_size)?;
        csv.is_int(&["C14", "C15", "C12"], i, "TotalSize", r.size)?;
        csv.is_pct(ps, i, "TotalSizePercent", r.size, g.file_size)?;
        let names: Vec<&str> = r.insts.iter().map(|x| x.0.as_str()).collect();
        csv.is_str(ps, i, "Monomorphizations", &names.join(", "))?;
    }
    Ok(())
}

fn diff(c: &Case, o: &Outs) -> R {
    let (old, new) = (c.g, c.new.expect("a diff has two sides"));
    let re = c.spec.patterns();
    let mut d: BTreeMap<&str, i64> = BTreeMap::new();
    for i in 0..old.len() {
        *d.entry(&old.names[i]).or_default() -= old.sizes[i] as i64;
    }
    for i in 0..new.len() {
        *d.entry(&new.names[i]).or_default() += new.sizes[i] as i64;
    }
    d.retain(|name, x| {
        *x != 0
            && if c.spec.args.is_empty() {
                true
            } else if c.spec.regex {
                re.as_ref().map_or(false, |re| re.is_match(name))
            } else {
                c.spec.args.iter().any(|a| a == name)
            }
    });
    let j = c15(out::json(&o.json))?;
    let rows = match &j {
        J::Arr(r) => r,
        _ => return v(&["C15"], "JSON: not an array".into()),
    };
    let n = d.len();
    let shown = c.spec.rows().min(n);
    let want_len = shown + (n > shown) as usize + 1;
    let mut got = vec![];
    for r in rows {
        got.push((c15(r.str("name"))?.to_string(), c15(r.int("delta_bytes"))?));
    }
    if got.len() != want_len {
        return v(
            &["C13", "C14"],
            format!("{} rows, with {} changed names and a limit of {} there should be {}", got.len(), n, c.spec.rows(), want_len),
        );
    }
    let mut left = d.clone();
    for (name, delta) in &got[..shown] {
        match left.remove(name.as_str()) {
            Some(x) if x == *delta => {}
            x => return v(&["C13"], format!("`{}` changed by {:?}, reported {}", name, x, delta)),
        }
    }
    let keys: Vec<i64> = got[..shown].iter().map(|x| x.1.abs()).collect();
    sorted_desc(&["C14"], "diff", &keys)?;
    if let (Some(l), Some(s)) = (left.values().map(|x| x.abs()).max(), keys.last()) {
        if l > *s {
            return v(&["C14"], format!("a change of {} is hidden, one of {} is not", l, s));
        }
    }
    let mut tail = vec![];
    if n > shown {
        tail.push((format!("... and {} more.", left.len()), left.values().sum::<i64>()));
    }
    let total = if c.spec.args.is_empty() {
        new.file_size as i64 - old.file_size as i64
    } else {
        d.values().sum::<i64>()
    };
    tail.push((format!("Σ [{} Total Rows]", n), total));
    for (w, r) in tail.iter().zip(&got[shown..]) {
        if w != r {
            return v(&["C13", "C14"], format!("summary row {:?}, expected {:?}", r, w));
        }
    }
    let ps: &[&'static str] = &["C15", "C13"];
    let want: Vec<Vec<Cell>> =
        got.iter().map(|(n, x)| vec![Cell::Signed(*x), Cell::Str(n.clone())]).collect();
    text_rows(&["C14", "C15", "C13"], &o.text, 2, &want, old.file_size)?;
    let csv = Csv::read(&o.csv, &["DeltaBytes", "Item"])?;
    csv.len_is(&["C14", "C15", "C13"], got.len())?;
    for (i, (n, x)) in got.iter().enumerate() {
        csv.is_str(ps, i, "DeltaBytes", &format!("{:+}", x))?;
        csv.is_str(ps, i, "Item", n)?;
    }
    Ok(())
}
