//! Which simulated runs decide which property.

use crate::sess::{self, Profile, Sess, Stats, ANY};
use crate::tape::{mix, Tape};
use std::collections::BTreeMap;

pub struct Prop {
    pub id: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub rule: &'static str,
    pub components: &'static str,
}

#[derive(Default)]
pub struct Outcome {
    /// Properties and message.
    pub viols: Vec<(Vec<&'static str>, String)>,
    pub stats: Stats,
    pub log: Vec<String>,
    pub seen: Vec<u64>,
    pub shape: Vec<u64>,
    pub known: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

pub const ASSUMPTIONS: &[&str] = &[
    "The reference model (sim/src/gen.rs, model.rs, oracle.rs) states the intended meaning of the reports; its generator covers the WebAssembly MVP features twiggy parses.",
    "Sampling: a clean batch of seeds is evidence, not proof.",
    "Runs in the simulator are built in the dev profile (overflow checks and debug assertions on), as /opt/vp/build.sh builds the tool.",
];

const LIB: &str = "real: twiggy-parser, twiggy-ir, twiggy-analyze, twiggy-opt and their dependencies, unmodified; simulated: the destination of every emission (short, interrupted, failing, zero-length writes, failing flushes), the stored input bytes (damage), hash seeds (getrandom), allocator (accounting)";

const fn lib(id: &'static str, rule: &'static str) -> Prop {
    Prop { id, quick_runs: 120_000, thorough_runs: 20_000_000, quick_secs: 60, thorough_secs: 1200, rule, components: LIB }
}

const TOOL: &str = "real: the twiggy binary, built from /repo's working tree; simulated by a preloaded shim: opens, reads, writes, size queries, kills, memory exhaustion, hash seeds, clock, process id; the report expected of it comes from the library in the simulator's own process";

const fn cli(id: &'static str, rule: &'static str) -> Prop {
    Prop { id, quick_runs: 40_000, thorough_runs: 2_000_000, quick_secs: 90, thorough_secs: 1200, rule, components: TOOL }
}

pub const PROPS: &[Prop] = &[
    cli("C01", "one run is a command line on generated inputs, executed up to three times with different short, interrupted and failing writes; non-trivial when the tool ran; distinct by system calls, bytes moved, outputs and status"),
    cli("C03", "one run is a command line that fails, runs out of memory or is killed at a drawn system call, with or without an existing output file; non-trivial when the tool ran; distinct by system calls, bytes moved, outputs and status"),
    cli("C16", "one run is a command line executed up to three times with short, interrupted and failing opens, size queries and reads; non-trivial when the tool ran; distinct by system calls, bytes moved, outputs and status"),
    cli("C19", "one run spells a drawn choice of options three times, once per format, in different ways, or makes one mistake in it, and calls the tool under short and interrupted reads and writes; non-trivial when the tool ran; distinct by system calls, bytes moved, outputs and status"),
    cli("C20", "one run calls the tool on files of drawn contents, names and modes, under short, interrupted and failing reads and wrong answers about the file; non-trivial when the tool ran; distinct by system calls, bytes moved, outputs and status"),
    lib("C02", "one run is a session on one or two generated inputs: analyses whose reports are emitted to a faulty writer; non-trivial when a report was produced; distinct by input sizes, sequence of operations, bytes of every report and where each fault hit"),
    lib("C04", "one run damages a stored input (WebAssembly or ELF), parses it and runs analyses on what is accepted; non-trivial when damage was applied; distinct by kinds of damage, outcome, and bytes of every report"),
    Prop {
        id: "C05",
        quick_runs: 40_000,
        thorough_runs: 8_000_000,
        quick_secs: 90,
        thorough_secs: 1200,
        rule: "one run is either a library session executed twice with different hash seeds and heap layouts, or a command line executed two or three times in different environments; distinct by inputs, operations and report bytes",
        components: "both: the library in the simulator's process with simulated hash seeds and destinations, and the twiggy binary under the preloaded shim (reads, writes, size queries, hash seeds, clock, process id, environment, directories, destination)",
    },
    lib("C06", "one run is a history of analyses, emissions (also failing ones), delayed emissions and failing analyses on shared items, compared with fresh ones; non-trivial when a report was produced; distinct by operations and report bytes"),
    Prop {
        id: "C07",
        quick_runs: 12_000,
        thorough_runs: 4_000_000,
        quick_secs: 90,
        thorough_secs: 1200,
        rule: "one run is two to four sessions, each executed alone and then all on threads of their own under a scheduler that passes the baton at yield points drawn from the tape; non-trivial when reports were produced and the baton went round; distinct by the sequence of who ran how far, operations and report bytes",
        components: "real: twiggy-parser, twiggy-ir, twiggy-analyze, twiggy-opt and their dependencies; simulated: the thread scheduler (one baton, passed at allocations, writes, control-flow edges of twiggy's crates and lock waits), destinations, stored bytes, hash seeds",
    },
    lib("C08", "one run parses a generated module (sometimes damaged) whose layout is known, and checks items before and after a history of analyses; distinct by input and operations"),
    lib("C09", "one run is a session of dominators and retained-size reports on a generated module or hand-built graph, checked against brute-force reachability; distinct by input, operations and report bytes"),
    lib("C10", "one run is a session of garbage reports on a generated module or graph, checked against reference reachability; distinct by input, operations and report bytes"),
    lib("C11", "one run is a session of paths reports on a generated module or graph, checked step by step against the reference graph; distinct by input, operations and report bytes"),
    lib("C12", "one run is a session of monos reports on a generated module rich in generics, recomputed from the reference items; distinct by input, operations and report bytes"),
    lib("C13", "one run is a session of diffs of generated pairs of modules, recomputed from the reference items; distinct by inputs, operations and report bytes"),
    lib("C14", "one run is a session of reports with limits, each compared with its unlimited counterpart; distinct by input, operations and report bytes"),
    Prop {
        id: "C17",
        quick_runs: 50_000,
        thorough_runs: 4_000_000,
        quick_secs: 60,
        thorough_secs: 1200,
        rule: "one run is a sequence of parses, analyses, failing analyses and frees through the web interface, on generated and damaged modules, sometimes with little memory; non-trivial when a report was compared; distinct by inputs, calls and report bytes",
        components: "real: twiggy-wasm-api and everything below it, built for wasm32 from /repo's working tree (dev profile), and the native library it is compared with; simulated: the host (web/web.js in node: marshalling by the module's own descriptors, the functions it imports, the limit on its memory)",
    },
    lib("C15", "one run is a session on a module with hostile names, each report parsed strictly in all formats and compared between them, also after failed emissions; distinct by input, operations and report bytes"),
    Prop {
        id: "C22",
        quick_runs: 20_000,
        thorough_runs: 2_000_000,
        quick_secs: 60,
        thorough_secs: 1200,
        rule: "one run is a call of the CI job runner, or of the release script, among programs that fail, are killed, are missing, or say a lot, with files of earlier runs about; non-trivial when it called a program; distinct by the sequence of programs called, how each ended, and the exit status",
        components: "real: job_runner, built from /repo's working tree, publish.sh and the shell; simulated: rustup, cargo, wasm-bindgen, cp, wasm-opt (played by the simulator, with their effects on files), the repository they work on",
    },
    lib("C21", "one run parses a generated native object whose functions are known, sometimes cut short or garbled where that can be noticed or does not matter, and reports on it; distinct by input, operations and report bytes"),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn first_violation(pid: &str, o: &Outcome) -> Option<String> {
    o.viols.iter().find(|(ps, _)| ps.iter().any(|p| *p == pid || *p == ANY)).map(|v| v.1.clone())
}

fn from_sess(pid: &str, s: Sess) -> Outcome {
    let mut o = Outcome {
        viols: s.viols.into_iter().map(|v| (v.props, v.msg)).collect(),
        stats: s.stats,
        log: s.log,
        seen: s.seen,
        shape: s.shape,
        known: BTreeMap::new(),
        nontrivial: false,
    };
    let n = |k: &str| o.stats.n.get(k).copied().unwrap_or(0);
    o.nontrivial = n("reports") > 0 || ((pid == "C04" || pid == "C21") && n("damaged inputs rejected") > 0);
    if s.known_load_edges > 0 && pid == "C10" {
        match known_list().iter().find(|(p, site, _)| p == pid && site == "constant-address-load") {
            Some((_, _, what)) => {
                o.known.insert(what.clone(), s.known_load_edges);
            }
            None => o.viols.push((vec!["C10"], "a load from inside a data segment is not linked to it".into())),
        }
    }
    o
}

pub fn profile(pid: &str) -> Profile {
    let d = Profile::default();
    match pid {
        "C02" => Profile { faulty: 5, elf: 2, hostile: true, ..d },
        "C04" => Profile { damage: 96, elf: 40, built: 0, steps: 5, faulty: 1, ..d },
        "C05" => Profile { what: [2, 1, 2, 4, 1, 5], dups: true, generics: true, elf: 3, faulty: 1, built: 10, oracle: false, ..d },
        "C06" => Profile { steps: 9, faulty: 2, elf: 2, damage: 8, ..d },
        "C08" => Profile { damage: 35, built: 5, dups: true, ..d },
        "C09" => Profile { what: [3, 6, 1, 0, 1, 0], built: 30, dense: true, ..d },
        "C10" => Profile { damage: 20, what: [1, 1, 1, 0, 6, 0], dense: true, ..d },
        "C11" => Profile { damage: 20, what: [1, 1, 6, 0, 1, 0], built: 25, dense: true, ..d },
        "C12" => Profile { what: [1, 0, 0, 6, 0, 1], generics: true, dups: true, built: 12, elf: 6, ..d },
        "C13" => Profile { what: [1, 0, 0, 0, 1, 8], dups: true, ..d },
        "C14" => Profile { limits: true, dups: true, ..d },
        "C15" => Profile { hostile: true, ..d },
        "C21" => Profile { elf: 100, objects: true, damage: 0, steps: 3, ..d },
        _ => d,
    }
}

pub fn run(pid: &str, t: &mut Tape) -> Outcome {
    crate::env::set_hash_seed(mix(t.draw(1 << 32), 0x68));
    // Some properties are about the tool, some about the library, some about both.
    let tool = match pid {
        "C01" | "C03" | "C16" | "C19" | "C20" => true,
        "C04" => t.chance(1, 6),
        "C05" => t.chance(1, 2),
        _ => false,
    };
    if tool {
        let mut o = crate::cli::run(pid, t);
        filter_known(pid, &mut o);
        return o;
    }
    let long = match pid {
        "C04" => 100,
        "C08" | "C10" | "C11" => 300,
        _ => 0,
    };
    if long > 0 && t.chance(1, long) {
        let mut o = crate::big::run(t);
        filter_known(pid, &mut o);
        return o;
    }
    let p = profile(pid);
    let mut o = match pid {
        "C05" => twice(t, &p),
        "C07" => crate::conc::run(t),
        "C17" => crate::web::run(t),
        "C22" => crate::jobs::run(t),
        _ => from_sess(pid, sess::session(t, &p)),
    };
    filter_known(pid, &mut o);
    o
}

/// The same session again, on another thread, with other hash seeds and
/// other memory addresses, must show the same.
fn twice(t: &mut Tape, p: &Profile) -> Outcome {
    let other = t.draw(1 << 32);
    let from = t.rec.len();
    let mut a = from_sess("C05", sess::session(t, p));
    a.stats.add("library: hash seeds drawn", crate::env::hash_draws());
    let rec = t.rec[from..].to_vec();
    let p = p.clone();
    let b = std::thread::Builder::new()
        .name("again".into())
        .stack_size(8 << 20)
        .spawn(move || {
            crate::env::running();
            crate::env::set_hash_seed(mix(other, 0x69));
            // Move the heap about.
            let junk: Vec<Vec<u8>> = (0..other % 50).map(|i| Vec::with_capacity(16 + (i as usize * 37) % 900)).collect();
            let s = sess::session(&mut Tape::again(rec), &p);
            drop(junk);
            s
        })
        .expect("thread")
        .join()
        .expect("the session runs again");
    a.stats.add("library: sessions repeated with other hash seeds", 1);
    a.viols.retain(|v| v.0.contains(&"C05") || v.0.contains(&ANY));
    if a.seen != b.seen {
        let at = a.seen.iter().zip(&b.seen).position(|(x, y)| x != y).unwrap_or(a.seen.len().min(b.seen.len()));
        a.log.push("-- the same with other hash seeds --".into());
        a.log.extend(b.log.iter().cloned());
        a.viols.push((
            vec!["C05"],
            format!("with other hash seeds the {}th of {} reports is different, or there are {} of them", at + 1, a.seen.len(), b.seen.len()),
        ));
    }
    a
}

/// Entries of known-findings.txt: `known: property=C04 <text that identifies it> | <what fails>`.
fn known_list() -> &'static Vec<(String, String, String)> {
    static L: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        std::fs::read_to_string(crate::driver::verif_dir().join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (pid, l) = l.split_once(' ')?;
                let (key, what) = l.split_once(" | ")?;
                Some((pid.to_string(), key.trim().strip_prefix("site=")?.to_string(), what.trim().to_string()))
            })
            .collect()
    })
}

/// Move violations that are recorded as findings out of the way.
pub fn filter_known(pid: &str, o: &mut Outcome) {
    let mut known = BTreeMap::new();
    o.viols.retain(|(ps, m)| {
        if !ps.iter().any(|p| *p == pid || *p == ANY) {
            return true;
        }
        match known_list().iter().find(|(p, site, _)| p == pid && m.contains(site.as_str())) {
            Some((_, site, what)) => {
                *known.entry(format!("{} (at {})", what, site)).or_insert(0u64) += 1;
                false
            }
            None => true,
        }
    });
    for (k, n) in known {
        *o.known.entry(k).or_insert(0) += n;
    }
}

/// Findings recorded in known-findings.txt that random inputs do not meet:
/// run the recorded input through the real tool.
pub fn known_probes(pid: &str) -> Vec<String> {
    if pid == "C17" {
        return known_list()
            .iter()
            .filter(|(p, site, _)| p == pid && crate::web::traps(site))
            .map(|(_, site, what)| format!("{} (at {})", what, site))
            .collect();
    }
    let all: [(&str, u64, &[&str]); 3] = [
        ("deep-chain/dominators-json", 20_000, &["dominators", "-f", "json"]),
        ("deep-chain/dominators-text", 20_000, &["dominators"]),
        ("deep-chain/paths-descending", 5_000, &["paths", "--descending", "-d", "4294967295"]),
    ];
    let probes: Vec<_> = all
        .iter()
        .filter_map(|&(site, n, args)| {
            let (_, _, what) = known_list().iter().find(|(p, s, _)| p == pid && s == site)?;
            let what = what.clone();
            Some(std::thread::spawn(move || crate::cli::overflows(n, args).then_some(format!("{} (at {})", what, site))))
        })
        .collect();
    probes.into_iter().filter_map(|h| h.join().ok().flatten()).collect()
}
