//! One analysis with its options, as a user would write it on a command line.

use crate::model::Graph;
use crate::tape::Tape;
use structopt::StructOpt;
use twiggy_opt as opt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum What {
    Top,
    Dominators,
    Paths,
    Monos,
    Garbage,
    Diff,
}

pub const ALL: [What; 6] =
    [What::Top, What::Dominators, What::Paths, What::Monos, What::Garbage, What::Diff];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Spec {
    pub what: What,
    /// Names or patterns.
    pub args: Vec<String>,
    pub regex: bool,
    /// `-n` (top, diff, garbage), `-m` (monos), `-r` (dominators, paths).
    pub limit: Option<u32>,
    /// `-d` (dominators, paths), `-n` (monos).
    pub limit2: Option<u32>,
    /// `-a`; of top, the retaining paths that it never shows.
    pub all: bool,
    /// monos `--all-generics`, `--all-monos`.
    pub all_generics: bool,
    pub all_monos: bool,
    /// top `--retained`, paths `--descending`, monos `-g`, garbage `--show-data-segments`.
    pub flag: bool,
}

impl Spec {
    pub fn plain(what: What) -> Spec {
        Spec {
            what,
            args: vec![],
            regex: false,
            limit: None,
            limit2: None,
            all: false,
            all_generics: false,
            all_monos: false,
            flag: false,
        }
    }

    /// An analysis that must fail.
    pub fn failing(t: &mut Tape) -> Spec {
        let mut s = Spec::plain(*t.pick(&[What::Dominators, What::Paths, What::Monos, What::Top]));
        if s.what == What::Top {
            s.all = true;
            s.flag = t.chance(1, 2);
        } else {
            s.args = vec!["ok".into(), "(".into()];
            s.regex = true;
        }
        s
    }

    fn draw_args(t: &mut Tape, names: &[String]) -> (Vec<String>, bool) {
        let n = [0, 1, 1, 2, 3][t.weighted(&[5, 3, 2, 2, 1])];
        if n == 0 {
            // A pattern flag without patterns means nothing.
            return (vec![], t.chance(1, 10));
        }
        let regex = t.chance(1, 2);
        let mut out = vec![];
        for _ in 0..n {
            let name = if names.is_empty() { String::new() } else { t.pick(names).clone() };
            let a = if regex {
                match t.weighted(&[6, 4, 2, 1, 1, 1, 3]) {
                    0 => format!("^{}$", regex::escape(&name)),
                    1 => {
                        let cs: Vec<char> = name.chars().collect();
                        let lo = t.below(cs.len().max(1));
                        let len = 1 + t.below(4);
                        let part: String = cs.iter().skip(lo).take(len).collect();
                        regex::escape(&part)
                    }
                    2 => ".*".to_string(),
                    3 => "[a-m]".to_string(),
                    4 => "nothing matches this".to_string(),
                    5 => format!("^(?:{}|data|elem|zed)", regex::escape(&name)),
                    // What hangs on details of the language of patterns.
                    _ => {
                        let cs: Vec<char> = name.chars().collect();
                        let some: String = cs.iter().take(1 + t.below(6)).collect();
                        let last: String = cs.iter().skip(cs.len().saturating_sub(1 + t.below(6))).collect();
                        let other: String =
                            some.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                        match t.below(9) {
                            0 => regex::escape(&other),
                            1 => format!("(?i){}", regex::escape(&other)),
                            2 => format!("^{}", regex::escape(&last)),
                            3 => format!("{}$", regex::escape(&last)),
                            4 => format!("{}|nothing else", regex::escape(&some)),
                            5 => format!("{}.+{}", regex::escape(&some), regex::escape(&last)),
                            6 => r"\d".into(),
                            7 => "^.{1,6}$".into(),
                            _ => String::new(),
                        }
                    }
                }
            } else {
                match t.weighted(&[10, 1, 1, 1]) {
                    0 => name,
                    1 => "no such item".to_string(),
                    3 => name.to_uppercase(),
                    _ => name.chars().take(3).collect(),
                }
            };
            out.push(a);
        }
        (out, regex)
    }

    /// `names`: item names, `generics`: names of generics.
    pub fn draw(t: &mut Tape, what: What, names: &[String], generics: &[String]) -> Spec {
        let mut s = Spec::plain(what);
        let lim = |t: &mut Tape| -> Option<u32> {
            match t.weighted(&[4, 3, 2, 1]) {
                0 => None,
                1 => Some(t.small(12) as u32),
                2 => Some(t.small(60) as u32),
                _ => Some(u32::MAX),
            }
        };
        match what {
            What::Top => {
                s.limit = lim(t);
                s.flag = t.chance(1, 2);
            }
            What::Dominators => {
                let (a, r) = Spec::draw_args(t, names);
                s.args = a;
                s.regex = r;
                s.limit = lim(t);
                s.limit2 = lim(t);
            }
            What::Paths => {
                let (a, r) = Spec::draw_args(t, names);
                s.args = a;
                s.regex = r;
                s.limit = lim(t);
                s.limit2 = lim(t);
                s.flag = t.chance(1, 2);
            }
            What::Monos => {
                let (a, r) = Spec::draw_args(t, generics);
                s.args = a;
                s.regex = r;
                s.limit = lim(t);
                s.limit2 = lim(t);
                s.flag = t.chance(1, 4);
                s.all = t.chance(1, 5);
                s.all_generics = t.chance(1, 5);
                s.all_monos = t.chance(1, 5);
            }
            What::Garbage => {
                s.limit = lim(t);
                s.all = t.chance(1, 4);
                s.flag = t.chance(1, 2);
            }
            What::Diff => {
                let (a, r) = Spec::draw_args(t, names);
                s.args = a;
                s.regex = r;
                s.limit = lim(t);
                s.all = t.chance(1, 4);
            }
        }
        s
    }

    pub fn sub(&self) -> &'static str {
        match self.what {
            What::Top => "top",
            What::Dominators => "dominators",
            What::Paths => "paths",
            What::Monos => "monos",
            What::Garbage => "garbage",
            What::Diff => "diff",
        }
    }

    /// Command line arguments after the program name.
    pub fn argv(&self, inputs: &[String], extra: &[String]) -> Vec<String> {
        let mut v = vec![self.sub().to_string()];
        let num = |v: &mut Vec<String>, flag: &str, x: Option<u32>| {
            if let Some(x) = x {
                v.push(flag.to_string());
                v.push(x.to_string());
            }
        };
        let on = |v: &mut Vec<String>, flag: &str, x: bool| {
            if x {
                v.push(flag.to_string());
            }
        };
        match self.what {
            What::Top => {
                num(&mut v, "-n", self.limit);
                on(&mut v, "--retained", self.flag);
                on(&mut v, "-r", self.all);
            }
            What::Dominators => {
                num(&mut v, "-r", self.limit);
                num(&mut v, "-d", self.limit2);
            }
            What::Paths => {
                num(&mut v, "-r", self.limit);
                num(&mut v, "-d", self.limit2);
                on(&mut v, "--descending", self.flag);
            }
            What::Monos => {
                num(&mut v, "-m", self.limit);
                num(&mut v, "-n", self.limit2);
                on(&mut v, "-g", self.flag);
                on(&mut v, "-a", self.all);
                on(&mut v, "--all-generics", self.all_generics);
                on(&mut v, "--all-monos", self.all_monos);
            }
            What::Garbage => {
                num(&mut v, "-n", self.limit);
                on(&mut v, "-a", self.all);
                on(&mut v, "--show-data-segments", self.flag);
            }
            What::Diff => {
                num(&mut v, "-n", self.limit);
                on(&mut v, "-a", self.all);
            }
        }
        on(&mut v, "--regex", self.regex);
        v.extend(extra.iter().cloned());
        v.push("--".into());
        v.extend(inputs.iter().cloned());
        v.extend(self.args.iter().cloned());
        v
    }

    /// The same, as it could also be written: forms of options, their order
    /// and place, defaults given or not.
    pub fn spell(
        &self,
        t: &mut Tape,
        inputs: &[String],
        fmt: Option<&str>,
        out: Option<&str>,
        mode: Option<&str>,
        guarded: bool,
    ) -> Vec<String> {
        let mut groups: Vec<Vec<String>> = vec![];
        let value = |t: &mut Tape, names: &[&str], v: &str| -> Vec<String> {
            let n = *t.pick(names);
            match t.below(3) {
                0 => vec![n.to_string(), v.to_string()],
                1 => vec![format!("{}={}", n, v)],
                _ if n.starts_with("--") => vec![n.to_string(), v.to_string()],
                _ => vec![format!("{}{}", n, v)],
            }
        };
        // Numbers, and what they are if they are not given.
        let nums: &[(&[&str], Option<u32>, Option<u32>)] = &match self.what {
            What::Top => vec![(&["-n"][..], self.limit, Some(u32::MAX))],
            What::Dominators => vec![(&["-r"][..], self.limit, None), (&["-d"][..], self.limit2, None)],
            What::Paths => vec![(&["-r"][..], self.limit, Some(10)), (&["-d"][..], self.limit2, Some(10))],
            What::Monos => vec![(&["-m", "--max-generics"][..], self.limit, Some(10)), (&["-n", "--max-monos"][..], self.limit2, Some(10))],
            What::Garbage => vec![(&["-n"][..], self.limit, Some(10))],
            What::Diff => vec![(&["-n"][..], self.limit, Some(20))],
        }[..];
        for &(names, v, usual) in nums {
            let v = match (v, usual) {
                (Some(v), u) if u == Some(v) && t.chance(1, 2) => None,
                (Some(v), _) => Some(v),
                (None, u) if t.chance(1, 3) => u,
                _ => None,
            };
            if let Some(v) = v {
                groups.push(value(t, names, &v.to_string()));
            }
        }
        let flags: &[(&[&str], bool)] = &match self.what {
            What::Top => vec![(&["--retained"][..], self.flag)],
            What::Dominators => vec![],
            What::Paths => vec![(&["--descending"][..], self.flag)],
            What::Monos => vec![
                (&["-g", "--only-generics"][..], self.flag),
                (&["-a", "--all"][..], self.all),
                (&["--all-generics"][..], self.all_generics),
                (&["--all-monos"][..], self.all_monos),
            ],
            What::Garbage => vec![(&["-a", "--all"][..], self.all), (&["--show-data-segments"][..], self.flag)],
            What::Diff => vec![(&["-a", "--all"][..], self.all)],
        }[..];
        for &(names, on) in flags {
            if on {
                groups.push(vec![t.pick(names).to_string()]);
            }
        }
        if self.regex {
            groups.push(vec!["--regex".into()]);
        }
        if let Some(f) = fmt {
            groups.push(value(t, &["-f", "--format"], f));
        }
        match out {
            Some(p) => groups.push(value(t, &["-o"], p)),
            None if t.chance(1, 5) => groups.push(value(t, &["-o"], "-")),
            None => {}
        }
        if let Some(m) = mode {
            let names: &[&str] = if self.what == What::Monos { &["-d", "--mode"] } else { &["--mode"] };
            groups.push(value(t, names, m));
        }
        // Two single letters in one word.
        if self.what == What::Monos && self.flag && self.all && t.chance(1, 2) {
            let one = |x: &str| groups.iter().position(|g| g.len() == 1 && g[0] == x);
            if let (Some(a), Some(b)) = (one("-g"), one("-a")) {
                groups[a] = vec![t.pick(&["-ga", "-ag"]).to_string()];
                groups.remove(b);
            }
        }
        for i in (1..groups.len()).rev() {
            let j = t.below(i + 1);
            groups.swap(i, j);
        }
        let mut v = vec![self.sub().to_string()];
        let places: Vec<String> = inputs.iter().chain(&self.args).cloned().collect();
        if guarded {
            v.extend(groups.into_iter().flatten());
            v.push("--".into());
            v.extend(places);
            return v;
        }
        // Options before, between and after what has no name.
        let late = t.chance(1, 2);
        let mut words: Vec<Vec<String>> = places.into_iter().map(|p| vec![p]).collect();
        for g in groups {
            let at = if late { t.below(words.len() + 1) } else { 0 };
            words.insert(at, g);
        }
        v.extend(words.into_iter().flatten());
        v
    }

    pub fn show(&self) -> String {
        let v = self.argv(&[], &[]);
        v.iter().map(|a| if a.chars().all(|c| c.is_ascii_graphic()) { a.clone() } else { format!("{:?}", a) }).collect::<Vec<_>>().join(" ")
    }

    pub fn options(&self) -> Result<opt::Options, String> {
        let inputs: Vec<String> = if self.what == What::Diff {
            vec!["old".into(), "new".into()]
        } else {
            vec!["in".into()]
        };
        let mut v = vec!["twiggy".to_string()];
        v.extend(self.argv(&inputs, &[]));
        opt::Options::from_iter_safe(v).map_err(|e| format!("{}", e))
    }

    /// The same options as `options`, but set in code: on the defaults if all
    /// that is asked for can be, else on what some other command line gave.
    pub fn coded(&self, t: &mut Tape) -> Result<opt::Options, String> {
        use opt::Options::*;
        let settable = match self.what {
            What::Top | What::Paths => true,
            What::Dominators | What::Diff => self.args.is_empty(),
            What::Monos => self.args.is_empty() && !self.regex,
            What::Garbage => !self.flag,
        };
        let fresh = settable && t.chance(1, 2);
        // What it starts from, as if it had been asked for.
        let mut was = Spec::plain(self.what);
        let lim = |t: &mut Tape| if t.chance(1, 2) { Some(t.small(60) as u32) } else { None };
        if !fresh {
            was.args = self.args.clone();
            was.regex = match self.what {
                What::Dominators | What::Paths | What::Diff => t.chance(1, 2),
                _ => self.regex,
            };
            was.limit = lim(t);
            was.limit2 = if self.what == What::Top { None } else { lim(t) };
            was.all = t.chance(1, 3);
            if self.what == What::Monos {
                was.all_generics = t.chance(1, 3);
                was.all_monos = t.chance(1, 3);
            }
            was.flag = if self.what == What::Garbage { self.flag } else { t.chance(1, 2) };
        }
        let mut o = if fresh {
            match self.what {
                What::Top => Top(opt::Top::new()),
                What::Dominators => Dominators(opt::Dominators::new()),
                What::Paths => {
                    let mut p = opt::Paths::new();
                    for a in &self.args {
                        p.add_function(a.clone());
                    }
                    Paths(p)
                }
                What::Monos => Monos(opt::Monos::new()),
                What::Garbage => Garbage(opt::Garbage::new()),
                What::Diff => Diff(opt::Diff::new()),
            }
        } else {
            was.options()?
        };
        // What is as it should be need not be set.
        let mut set = |same: bool| !same || t.chance(1, 2);
        let max = |n: usize| n.min(u32::MAX as usize) as u32;
        let (rows, depth) = (max(self.rows()), max(self.depth()));
        let (set_rows, set_depth) = (set(was.rows() == self.rows()), set(was.depth() == self.depth()));
        let (set_regex, set_flag) = (set(was.regex == self.regex), set(was.flag == self.flag));
        let set_all = set(was.all == self.all);
        let last = set(true);
        match &mut o {
            Top(x) => {
                if set_rows {
                    x.set_max_items(rows);
                }
                if set_flag {
                    x.set_retained(self.flag);
                }
                if set_all {
                    x.set_retaining_paths(self.all);
                }
            }
            Dominators(x) => {
                if set_rows {
                    x.set_max_rows(rows);
                }
                if set_depth {
                    x.set_max_depth(depth);
                }
                if set_regex {
                    x.set_using_regexps(self.regex);
                }
            }
            Paths(x) => {
                if set_depth {
                    x.set_max_depth(depth);
                }
                if set_rows {
                    x.set_max_paths(rows);
                }
                if set_flag {
                    x.set_descending(self.flag);
                }
                if set_regex {
                    x.set_using_regexps(self.regex);
                }
            }
            Monos(x) => {
                if set_flag {
                    x.set_only_generics(self.flag);
                }
                if set_rows && !last {
                    x.set_max_generics(rows);
                }
                if set_depth {
                    x.set_max_monos(depth);
                }
                if set_rows && last {
                    x.set_max_generics(rows);
                }
            }
            Garbage(x) => {
                if set_rows {
                    x.set_max_items(rows);
                }
            }
            Diff(x) => {
                if set_rows {
                    x.set_max_items(rows);
                }
                if set_regex {
                    x.set_using_regexps(self.regex);
                }
            }
        }
        Ok(o)
    }

    /// Effective limits.
    pub fn rows(&self) -> usize {
        let l = match self.what {
            What::Top => self.limit.unwrap_or(u32::MAX),
            What::Dominators => self.limit.unwrap_or(u32::MAX),
            What::Paths => self.limit.unwrap_or(10),
            What::Monos => {
                if self.all || self.all_generics {
                    u32::MAX
                } else {
                    self.limit.unwrap_or(10)
                }
            }
            What::Garbage => {
                if self.all {
                    u32::MAX
                } else {
                    self.limit.unwrap_or(10)
                }
            }
            What::Diff => {
                if self.all {
                    u32::MAX
                } else {
                    self.limit.unwrap_or(20)
                }
            }
        };
        l as usize
    }
    pub fn depth(&self) -> usize {
        match self.what {
            What::Paths => self.limit2.unwrap_or(10) as usize,
            What::Monos => {
                if self.all || self.all_monos {
                    u32::MAX as usize
                } else {
                    self.limit2.unwrap_or(10) as usize
                }
            }
            _ => self.limit2.unwrap_or(u32::MAX) as usize,
        }
    }

    /// Indices of the items that the arguments select, in no particular order;
    /// exact names select one (any) of the items of that name per argument.
    pub fn patterns(&self) -> Option<regex::RegexSet> {
        if self.regex {
            regex::RegexSet::new(&self.args).ok()
        } else {
            None
        }
    }

    /// How many rows a paths report would have, counted up to `cap`.
    pub fn paths_cost(&self, g: &Graph, cap: usize) -> usize {
        fn go(g: &Graph, desc: bool, v: usize, on: &mut Vec<bool>, d: usize, depth: usize, width: usize, n: &mut usize, cap: usize) {
            *n += 1;
            if *n > cap {
                return;
            }
            let next = if desc { &g.succ[v] } else { &g.pred[v] };
            let kids: Vec<usize> = next.iter().copied().filter(|&w| !on[w]).collect();
            let was = on[v];
            on[v] = true;
            for (i, &w) in kids.iter().enumerate() {
                if d < depth && i < width {
                    go(g, desc, w, on, d + 1, depth, width, n, cap);
                } else {
                    *n += 1;
                }
                if *n > cap {
                    break;
                }
            }
            on[v] = was;
        }
        let mut n = 0;
        let re = self.patterns();
        for v in 0..g.len() {
            let start = if self.args.is_empty() {
                !self.flag || g.roots.contains(&v)
            } else if let Some(re) = &re {
                re.is_match(&g.names[v])
            } else {
                self.args.contains(&g.names[v])
            };
            if start {
                let mut on = vec![false; g.len()];
                go(g, self.flag, v, &mut on, 0, self.depth(), self.rows(), &mut n, cap);
            }
            if n > cap {
                return n;
            }
        }
        n
    }
}

/// Make one mistake in a command line.
pub fn spoil(t: &mut Tape, what: What, v: &mut Vec<String>, guarded: bool) -> String {
    let number = match what {
        What::Top | What::Garbage | What::Diff => "-n",
        What::Dominators | What::Paths => ["-r", "-d"][t.below(2)],
        What::Monos => ["-m", "-n", "--max-monos", "--max-generics"][t.below(4)],
    };
    match t.below(8) {
        0 => {
            let bad = *t.pick(&["many", "-1", "4294967296", "1.5", "0x10", "", "1e3", "99999999999999999999", "5 ", "\u{661}"]);
            // Instead of what was said.
            v.retain(|w| !(w == number || w.starts_with(&format!("{}=", number))));
            v.insert(1, format!("{}={}", number, bad));
            if bad.is_empty() {
                v[1] = number.to_string();
                v.insert(2, String::new());
            }
            format!("{} is no number", bad)
        }
        1 => {
            let bad = *t.pick(&["xml", "JSON", "Text", "", "csv2", "dot", "html"]);
            v.insert(1, "-f".into());
            v.insert(2, bad.into());
            format!("{:?} is no format", bad)
        }
        2 => {
            let bad = *t.pick(&["WASM", "elf", "", "native", "Auto", "dwarf "]);
            v.retain(|w| !w.starts_with("--mode"));
            v.insert(1, "--mode".into());
            v.insert(2, bad.into());
            format!("{:?} is no mode", bad)
        }
        3 => {
            // Of another subcommand, or of none.
            let bad = match what {
                What::Top => &["--descending", "--only-generics", "-a", "--regex", "-d"][..],
                What::Dominators => &["--retained", "-n", "-a", "--descending"][..],
                What::Paths => &["--retained", "-n", "--all-monos", "-a"][..],
                What::Monos => &["--retained", "--show-data-segments", "-r"][..],
                What::Garbage => &["--regex", "--descending", "-r", "-d", "--all-generics"][..],
                What::Diff => &["--show-data-segments", "-r", "-g", "--retained"][..],
            };
            let bad = if t.chance(1, 3) { "--no-such-option" } else { *t.pick(bad) };
            v.insert(1, bad.into());
            format!("{} is no option of it", bad)
        }
        4 => {
            // One that may be given once.
            let (o, x) = *t.pick(&[("-f", "json"), ("-o", "elsewhere.txt"), ("--mode", "auto")]);
            let (o, x) = if t.chance(1, 3) { (number, "3") } else { (o, x) };
            for i in 0..2 {
                v.insert(1 + 2 * i, o.into());
                v.insert(2 + 2 * i, x.into());
            }
            format!("{} more than once", o)
        }
        5 => {
            let sub = v[0].clone();
            *v = match t.below(3) {
                0 => vec![],
                1 => vec![sub],
                _ => vec!["in.wasm".into()],
            };
            "something is missing".into()
        }
        6 => {
            v[0] = t.pick(&["tops", "Top", "size", "dominator", "--top", ""]).to_string();
            "no such subcommand".into()
        }
        _ if what == What::Top || what == What::Garbage => {
            v.push("one-too-many".into());
            "one argument too many".into()
        }
        _ => {
            // Somewhere else than at the beginning.
            let end = if guarded { v.iter().position(|w| w == "--").unwrap_or(v.len()) } else { v.len() };
            let at = 1 + t.below(end);
            let bad = *t.pick(&["--no-such-option", "-Z", "--format-xml", "--regexp"]);
            v.insert(at.min(end), bad.into());
            format!("{} is no option", bad)
        }
    }
}
