//! A small reference model of the reference graph, and the comparison of what
//! twiggy's IR says with the generator's ground truth.

use crate::gen::{GMod, Kind};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use twiggy_ir as ir;

/// The reference graph of one parsed binary, as twiggy's public IR shows it.
/// Node `n` is the meta root.
#[derive(Clone, Debug)]
pub struct Graph {
    pub ids: Vec<ir::Id>,
    pub names: Vec<String>,
    pub sizes: Vec<u64>,
    pub kinds: Vec<Kind>,
    pub generics: Vec<Option<String>>,
    pub roots: BTreeSet<usize>,
    pub succ: Vec<Vec<usize>>,
    pub pred: Vec<Vec<usize>>,
    pub file_size: u64,
}

fn kind(k: &ir::ItemKind) -> Kind {
    match k {
        ir::ItemKind::Code(_) => Kind::Code,
        ir::ItemKind::Data(_) => Kind::Data,
        ir::ItemKind::Debug(_) => Kind::Debug,
        ir::ItemKind::Misc(_) => Kind::Misc,
    }
}

impl Graph {
    pub fn of(items: &ir::Items) -> Result<Graph, String> {
        let meta = items.meta_root();
        let mut g = Graph {
            ids: vec![],
            names: vec![],
            sizes: vec![],
            kinds: vec![],
            generics: vec![],
            roots: BTreeSet::new(),
            succ: vec![],
            pred: vec![],
            file_size: items.size() as u64,
        };
        let mut at: HashMap<ir::Id, usize> = HashMap::new();
        let mut metas = 0;
        for it in items.iter() {
            if it.id() == meta {
                metas += 1;
                continue;
            }
            at.insert(it.id(), g.ids.len());
            g.ids.push(it.id());
            g.names.push(it.name().to_string());
            g.sizes.push(it.size() as u64);
            g.kinds.push(kind(it.kind()));
            g.generics.push(it.monomorphization_of().map(|s| s.to_string()));
        }
        if metas != 1 || at.len() != g.ids.len() {
            return Err("items are not distinct, or there is not exactly one meta root".into());
        }
        let n = g.ids.len();
        g.succ = vec![vec![]; n];
        g.pred = vec![vec![]; n];
        for i in 0..n {
            for to in items.neighbors(g.ids[i]) {
                match at.get(&to) {
                    Some(&j) => {
                        g.succ[i].push(j);
                        g.pred[j].push(i);
                    }
                    None => return Err(format!("`{}` refers to an item that does not exist", g.names[i])),
                }
            }
        }
        for to in items.neighbors(meta) {
            match at.get(&to) {
                Some(&j) => {
                    g.roots.insert(j);
                }
                None => return Err("a root does not exist".into()),
            }
        }
        Ok(g)
    }

    pub fn len(&self) -> usize {
        self.ids.len()
    }

    /// Everything reachable from the roots without going through `without`.
    pub fn reach(&self, without: Option<usize>) -> Vec<bool> {
        let mut seen = vec![false; self.len()];
        let mut todo: Vec<usize> = vec![];
        for &r in &self.roots {
            if Some(r) != without && !seen[r] {
                seen[r] = true;
                todo.push(r);
            }
        }
        while let Some(v) = todo.pop() {
            for &w in &self.succ[v] {
                if Some(w) != without && !seen[w] {
                    seen[w] = true;
                    todo.push(w);
                }
            }
        }
        seen
    }

    /// Dominators by definition: `d` dominates `v` if removing `d` makes `v`
    /// unreachable. Returns, per node, its retained size and its immediate
    /// dominator (`None`: the meta root, or unreachable).
    pub fn dominators(&self) -> Doms {
        let n = self.len();
        let live = self.reach(None);
        let mut dom_of: Vec<Vec<usize>> = vec![vec![]; n]; // strict dominators of v
        let mut retained = vec![0u64; n];
        for d in 0..n {
            if !live[d] {
                retained[d] = self.sizes[d];
                continue;
            }
            let without = self.reach(Some(d));
            for v in 0..n {
                if live[v] && !without[v] {
                    retained[d] += self.sizes[v];
                    if v != d {
                        dom_of[v].push(d);
                    }
                }
            }
        }
        // The immediate dominator is the strict dominator with the most
        // dominators of its own.
        let idom = (0..n)
            .map(|v| dom_of[v].iter().copied().max_by_key(|&d| dom_of[d].len()))
            .collect();
        Doms { live, retained, idom }
    }
}

#[derive(Clone, Debug)]
pub struct Doms {
    pub live: Vec<bool>,
    pub retained: Vec<u64>,
    pub idom: Vec<Option<usize>>,
}

/// Why the IR's graph differs from the ground truth.
#[derive(Debug, Default)]
pub struct TruthDiff {
    /// Sizes, names or the set of items are wrong.
    pub items: Option<String>,
    /// References or roots are wrong.
    pub edges: Option<String>,
    /// Times the known finding "data-load-edge" was needed to explain a graph.
    pub known_load_edges: u64,
}

pub fn compare(g: &Graph, m: &GMod) -> TruthDiff {
    let mut out = TruthDiff::default();
    // Match items by what is observable about them; equals are matched in order.
    let mut by_key: BTreeMap<(String, u64, Kind), Vec<usize>> = BTreeMap::new();
    for (i, it) in m.items.iter().enumerate() {
        by_key.entry((it.name.clone(), it.size, it.kind)).or_default().push(i);
    }
    let mut to_g = vec![usize::MAX; m.items.len()];
    let mut to_m = vec![usize::MAX; g.len()];
    let mut used: BTreeMap<(String, u64, Kind), usize> = BTreeMap::new();
    for i in 0..g.len() {
        let key = (g.names[i].clone(), g.sizes[i], g.kinds[i]);
        let u = used.entry(key.clone()).or_insert(0);
        match by_key.get(&key).and_then(|v| v.get(*u)) {
            Some(&mi) => {
                *u += 1;
                to_g[mi] = i;
                to_m[i] = mi;
            }
            None => {
                let near: Vec<String> = m
                    .items
                    .iter()
                    .filter(|x| x.name == key.0)
                    .map(|x| format!("{} B {:?}", x.size, x.kind))
                    .collect();
                out.items = Some(format!(
                    "reported an item `{}` of {} bytes ({:?}) that the file does not have (under that name it has: {:?})",
                    key.0, key.1, key.2, near
                ));
                return out;
            }
        }
    }
    if let Some(mi) = (0..m.items.len()).find(|&i| to_g[i] == usize::MAX) {
        out.items = Some(format!(
            "the file's `{}` of {} bytes is not reported",
            m.items[mi].name, m.items[mi].size
        ));
        return out;
    }
    for mi in 0..m.items.len() {
        if m.items[mi].root != g.roots.contains(&to_g[mi]) {
            out.edges = Some(format!(
                "`{}` is {}a root",
                m.items[mi].name,
                if m.items[mi].root { "not treated as " } else { "wrongly treated as " }
            ));
            return out;
        }
        if g.generics[to_g[mi]] != m.items[mi].generic {
            out.items = Some(format!(
                "`{}` is an instance of {:?}, reported as an instance of {:?}",
                m.items[mi].name,
                m.items[mi].generic,
                g.generics[to_g[mi]]
            ));
            return out;
        }
    }

    // References. Loads are judged separately below.
    let ambiguous = by_key.values().any(|v| v.len() > 1);
    let segs: BTreeMap<usize, &crate::gen::Seg> = m.segs.iter().map(|s| (s.item, s)).collect();
    let mut loads_of: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    for &(f, a) in &m.loads {
        loads_of.entry(f).or_default().push(a);
    }
    let name = |mi: usize| format!("`{}`", m.items[mi].name);
    for mi in 0..m.items.len() {
        let got: BTreeSet<usize> = g.succ[to_g[mi]].iter().map(|&j| to_m[j]).collect();
        let want: BTreeSet<usize> =
            m.edges.range((mi, 0)..(mi + 1, 0)).map(|&(_, to)| to).collect();
        let got_data: BTreeSet<usize> =
            got.iter().copied().filter(|j| segs.contains_key(j)).collect();
        let got_rest: BTreeSet<usize> = got.difference(&got_data).copied().collect();
        if got_rest != want {
            if ambiguous {
                // Indistinguishable items may have been matched up the wrong
                // way around: compare what is observable about the targets.
                let key = |s: &BTreeSet<usize>| {
                    let mut v: Vec<_> =
                        s.iter().map(|&j| (&m.items[j].name, m.items[j].size)).collect();
                    v.sort();
                    v.into_iter().map(|(n, s)| (n.clone(), s)).collect::<Vec<_>>()
                };
                let twins = &by_key[&(m.items[mi].name.clone(), m.items[mi].size, m.items[mi].kind)];
                let ok = twins.iter().any(|&tw| {
                    let w: BTreeSet<usize> =
                        m.edges.range((tw, 0)..(tw + 1, 0)).map(|&(_, to)| to).collect();
                    key(&w) == key(&got_rest)
                });
                if ok {
                    continue;
                }
            }
            let missing: Vec<String> = want.difference(&got_rest).map(|&j| name(j)).collect();
            let extra: Vec<String> = got_rest.difference(&want).map(|&j| name(j)).collect();
            out.edges = Some(format!(
                "references of {}: missing {:?}, made up {:?}",
                name(mi),
                missing,
                extra
            ));
            return out;
        }
        let twins = &by_key[&(m.items[mi].name.clone(), m.items[mi].size, m.items[mi].kind)];
        if twins.len() > 1 {
            continue;
        }
        // Loads.
        let empty = vec![];
        let loads = loads_of.get(&mi).unwrap_or(&empty);
        let mut justified: BTreeSet<usize> = BTreeSet::new();
        for &addr in loads {
            let truth: BTreeSet<usize> = m
                .segs
                .iter()
                .filter(|s| s.start.map_or(false, |st| st <= addr && addr < st + s.len))
                .map(|s| s.item)
                .collect();
            if truth.iter().any(|x| got_data.contains(x)) {
                justified.extend(truth.iter());
                continue;
            }
            if truth.is_empty() {
                // Correct if nothing is linked for it; whatever is there must
                // be justified by something else.
                continue;
            }
            // Known finding data-load-edge: an address inside a segment, but
            // not at its start, is looked up as if it started the next one.
            if m.segs.iter().any(|s| s.start == Some(addr) && s.len > 0) {
                out.edges = Some(format!(
                    "{} loads from address {}, where {} starts, but is not linked to it",
                    name(mi),
                    addr,
                    name(*truth.iter().next().unwrap())
                ));
                return out;
            }
            out.known_load_edges += 1;
        }
        for &d in got_data.difference(&justified) {
            // A made up link. The known finding links an address that is not
            // the start of a segment to the first segment that starts after it.
            let seg = segs[&d];
            let known = loads.iter().any(|&addr| {
                let some = m.segs.iter().filter(|s| s.len > 0);
                let next = some.filter_map(|s| s.start).filter(|&st| st >= addr).min();
                next.is_some() && next == seg.start && next != Some(addr)
            });
            let twins = m
                .segs
                .iter()
                .filter(|s| {
                    m.items[s.item].name == m.items[d].name && m.items[s.item].size == m.items[d].size
                })
                .count();
            if known || twins > 1 {
                out.known_load_edges += 1;
            } else {
                out.edges = Some(format!("{} is linked to {}, which it does not load from", name(mi), name(d)));
                return out;
            }
        }
    }
    out
}
