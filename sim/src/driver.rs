//! Runs many seeds in worker processes, minimises what fails, writes evidence.

use crate::props::{self, Outcome, Prop};
use crate::sess;
use crate::tape::{mix, Tape};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Longest a single run may take before it counts as hung. A run takes
/// milliseconds, so this is not a matter of how fast the machine is.
const HANG: Duration = Duration::from_secs(60);

pub fn verif_dir() -> PathBuf {
    std::env::var_os("TWSIM_VERIF").map_or_else(|| "/verif".into(), PathBuf::from)
}

pub fn seed_of(base: u64, pid: &str, idx: u64) -> u64 {
    let p = pid.bytes().fold(0u64, |a, b| a * 256 + u64::from(b));
    mix(mix(base, p), idx)
}

/// One run, in a thread of its own, so that nothing is left over from others.
pub fn run(pid: &str, tape: Tape) -> (Outcome, Vec<u64>) {
    let id = pid.to_string();
    let (tx, rx) = std::sync::mpsc::channel();
    sess::HISTORY.lock().unwrap().clear();
    std::thread::Builder::new()
        .name("run".into())
        .stack_size(8 << 20)
        .spawn(move || {
            crate::env::running();
            let mut t = tape;
            let out = props::run(&id, &mut t);
            let _ = tx.send((out, t.rec));
        })
        .expect("thread");
    loop {
        match rx.recv_timeout(Duration::from_millis(10)) {
            Ok(r) => return r,
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                eprintln!("twsim: the harness panicked: {}", crate::env::last_harness_panic());
                std::process::exit(3);
            }
            Err(_) => {
                if let Some((p, m)) = crate::env::HUGE_SITE.lock().unwrap().take() {
                    let mut o = Outcome { log: sess::HISTORY.lock().unwrap().clone(), ..Outcome::default() };
                    o.viols.push((vec![p], m));
                    o.stats.add("runs that could not go on", 1);
                    props::filter_known(pid, &mut o);
                    return (o, vec![]);
                }
            }
        }
    }
}

/// Seeded hash of a run's thread: everything observable about it.
fn digest(o: &Outcome) -> u64 {
    let mut h = 1;
    for l in &o.log {
        for b in l.bytes() {
            h = mix(h, u64::from(b));
        }
    }
    for &x in o.seen.iter().chain(&o.shape) {
        h = mix(h, x);
    }
    h
}

fn shape(o: &Outcome) -> u64 {
    o.shape.iter().fold(7, |h, &x| mix(h, x))
}

// ---- worker ----

pub fn worker(pid: &str, base: u64, shard: u64, n: u64, runs: u64, secs: u64, mark: &str) {
    let start = Instant::now();
    use std::os::unix::fs::FileExt;
    let mark = std::fs::OpenOptions::new().write(true).open(mark).expect("mark file");
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let (mut done, mut nontrivial, mut known) = (0u64, 0u64, BTreeMap::<String, u64>::new());
    let mut samples: Vec<String> = vec![];
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut idx = shard;
    while idx < runs {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        mark.write_all_at(&(idx + 1).to_le_bytes(), 0).expect("mark");
        let (o, _) = run(pid, Tape::seeded(seed_of(base, pid, idx)));
        done += 1;
        for (k, v) in &o.stats.n {
            *stats.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.known {
            *known.entry(k.clone()).or_insert(0) += v;
        }
        if o.nontrivial {
            nontrivial += 1;
            shapes.insert(shape(&o));
        }
        if samples.len() < 2 && o.nontrivial && o.log.len() > 2 {
            let mut s = format!("run {}: ", idx);
            s.push_str(&o.log.iter().take(12).map(|l| l.trim().to_string()).collect::<Vec<_>>().join(" | "));
            samples.push(s.chars().take(1500).collect());
        }
        if let Some(v) = props::first_violation(pid, &o) {
            writeln!(out, "V {} {}", idx, v.replace('\n', " ")).unwrap();
            break;
        }
        idx += n;
    }
    mark.write_all_at(&0u64.to_le_bytes(), 0).expect("mark");
    for (k, v) in stats {
        writeln!(out, "S {} {}", v, k).unwrap();
    }
    for (k, v) in known {
        writeln!(out, "K {} {}", v, k).unwrap();
    }
    for s in samples {
        writeln!(out, "L {}", s.replace('\n', " ")).unwrap();
    }
    writeln!(out, "E {} {}", crate::edges::total(), crate::edges::hit().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
    for h in shapes {
        writeln!(out, "H {}", h).unwrap();
    }
    writeln!(out, "D {} {}", done, nontrivial).unwrap();
    out.flush().unwrap();
    crate::elf::clean_scratch();
}

// ---- executing one tape in a process of its own ----

fn write_tape(p: &Path, tape: &[u64]) {
    let s: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    std::fs::write(p, s.join(" ")).expect("tape file");
}

pub fn read_tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

/// `twsim exec PID FILE`: prints `V message` for a violation; a trailing `T`
/// line has the tape as used.
pub fn exec(pid: &str, tape: Tape, show: bool) -> i32 {
    let (o, rec) = run(pid, tape);
    if show {
        for l in &o.log {
            println!("| {}", l.replace('\n', "\n| "));
        }
    }
    let v = props::first_violation(pid, &o);
    if let Some(v) = &v {
        println!("V {}", v.replace('\n', " "));
    }
    for k in o.known.keys() {
        println!("K {}", k);
    }
    println!("D {}", digest(&o));
    if !rec.is_empty() {
        println!("T {}", rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    crate::elf::clean_scratch();
    v.is_some() as i32
}

struct Ran {
    viol: Option<String>,
    log: Vec<String>,
    tape: Option<Vec<u64>>,
}

fn exec_child(pid: &str, how: &[&str], limit: Duration, tmp: &Path) -> Ran {
    let outp = tmp.join("exec.out");
    let f = std::fs::File::create(&outp).expect("exec.out");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(pid)
        .args(how)
        .env("TWSIM_TRACE", tmp.join("trace"))
        .stdin(Stdio::null())
        .stdout(f)
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let mut st = None;
    while t0.elapsed() < limit {
        if let Some(s) = c.try_wait().expect("wait") {
            st = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 10 }));
    }
    let mut r = Ran { viol: None, log: vec![], tape: None };
    for l in std::fs::read_to_string(&outp).unwrap_or_default().lines() {
        if let Some(v) = l.strip_prefix("V ") {
            r.viol = Some(v.to_string());
        } else if let Some(v) = l.strip_prefix("| ") {
            r.log.push(v.to_string());
        } else if let Some(v) = l.strip_prefix("T ") {
            r.tape = Some(read_tape(v));
        }
    }
    use std::os::unix::process::ExitStatusExt;
    match st {
        None => {
            let _ = c.kill();
            let _ = c.wait();
            r.viol = Some("the run does not come to an end".to_string());
        }
        Some(s) => {
            if let Some(sig) = s.signal() {
                r.viol = Some(format!("the process was killed by signal {} (abort, stack overflow or memory)", sig));
            } else if s.code() == Some(3) {
                r.viol = None;
            }
        }
    }
    let dead = format!("twsim-{}", c.id());
    let _ = std::fs::remove_dir_all(Path::new("/dev/shm").join(dead));
    if r.tape.is_none() {
        // The run did not get to say what it drew.
        r.tape = std::fs::read(tmp.join("trace"))
            .ok()
            .map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect());
    }
    r
}

/// A violation without its particulars.
fn class(m: &str) -> String {
    let mut out = String::new();
    let mut quoted: Option<char> = None;
    for c in m.chars() {
        match quoted {
            Some(q) => {
                if c == q {
                    quoted = None;
                }
            }
            None => match c {
                '`' | '"' => quoted = Some(c),
                '0'..='9' => {}
                _ => out.push(c),
            },
        }
    }
    // The head of a message names the command, whose options vary.
    let mut w: Vec<&str> = out.split(':').collect();
    if w.len() > 1 {
        w.remove(0);
    }
    w.join(":").chars().filter(|c| c.is_ascii_alphabetic()).take(40).collect()
}

fn minimise(pid: &str, tape: Vec<u64>, viol: &str, tmp: &Path, budget: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let want = class(viol);
    let f = tmp.join("try.tape");
    let mut tries = 0u64;
    let mut best = tape;
    let hang = viol.contains("does not come to an end");
    let limit = if hang { Duration::from_secs(20) } else { HANG };
    let mut attempt = |cand: &Vec<u64>, tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        write_tape(&f, cand);
        let r = exec_child(pid, &["tape", f.to_str().unwrap()], limit, tmp);
        match r.viol {
            Some(v) if class(&v) == want => {
                // What was really used may be shorter.
                let mut t = r.tape.unwrap_or_else(|| cand.clone());
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some(t)
            }
            _ => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| {
        (a.len(), a.iter().filter(|&&x| x != 0).count(), a.iter().map(|&x| u128::from(x)).sum::<u128>())
            < (b.len(), b.iter().filter(|&&x| x != 0).count(), b.iter().map(|&x| u128::from(x)).sum::<u128>())
    };
    loop {
        let before = best.clone();
        // Drop spans, from large to small.
        let mut span = (best.len() / 2).max(1);
        while span >= 1 {
            let mut at = 0;
            while at < best.len() {
                if t0.elapsed() > budget {
                    return (best, tries);
                }
                let mut c = best.clone();
                c.drain(at..(at + span).min(c.len()));
                match attempt(&c, &mut tries) {
                    Some(t) if better(&t, &best) => best = t,
                    _ => {
                        // Zero them instead.
                        let mut c = best.clone();
                        let hi = (at + span).min(c.len());
                        if c[at..hi].iter().any(|&x| x != 0) {
                            c[at..hi].iter_mut().for_each(|x| *x = 0);
                            match attempt(&c, &mut tries) {
                                Some(t) if better(&t, &best) => best = t,
                                _ => {}
                            }
                        }
                        at += span;
                    }
                }
            }
            span /= 2;
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() {
            for lower in [best[i] / 2, best.get(i).map_or(0, |x| x.saturating_sub(1))] {
                if t0.elapsed() > budget {
                    return (best, tries);
                }
                if i < best.len() && lower < best[i] {
                    let mut c = best.clone();
                    c[i] = lower;
                    match attempt(&c, &mut tries) {
                        Some(t) if better(&t, &best) => best = t,
                        _ => {}
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, tries);
        }
    }
}

fn report(pid: &str, base: u64, idx: Option<u64>, seed: u64, dir: &Path, first: &str) -> PathBuf {
    let tmp = crate::elf::scratch().to_path_buf();
    let r = exec_child(pid, &["seed", &seed.to_string()], HANG, &tmp);
    let viol = r.viol.clone().unwrap_or_else(|| first.to_string());
    let tape = r.tape.unwrap_or_default();
    let full = tape.len();
    let (small, tries) = minimise(pid, tape, &viol, &tmp, Duration::from_secs(60));
    let f = tmp.join("final.tape");
    write_tape(&f, &small);
    let last = exec_child(pid, &["tape", f.to_str().unwrap()], HANG, &tmp);
    let viol = last.viol.unwrap_or(viol);
    let path = dir.join(format!("{}-{:016x}.replay", pid, seed));
    let mut s = String::new();
    s.push_str("# A failing simulated run of twiggy. Replay with: /verif/check.sh replay <this file>\n");
    s.push_str(&format!("property: {}\n", pid));
    s.push_str(&format!("violation: {}\n", viol));
    s.push_str(&format!("VERIF_SEED: {}\nrun: {:?}\nseed: {}\n", base, idx, seed));
    s.push_str(&format!("minimised: from {} choices to {} in {} executions\n", full, small.len(), tries));
    s.push_str(&format!("tape: {}\n", small.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    s.push_str("history:\n");
    for l in &last.log {
        s.push_str(&format!("  {}\n", l));
    }
    std::fs::write(&path, s).expect("replay file");
    println!("{}", viol);
    for l in last.log.iter().take(40) {
        println!("  {}", l.chars().take(400).collect::<String>());
    }
    path
}

pub fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 3;
        }
    };
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string());
    let (pid, tape) = match (field("property:"), field("tape:")) {
        (Some(p), Some(t)) => (p, t),
        _ => {
            eprintln!("{}: not a replay file", file);
            return 3;
        }
    };
    let tmp = crate::elf::scratch().to_path_buf();
    let f = tmp.join("replay.tape");
    std::fs::write(&f, tape).expect("tape");
    let r = exec_child(&pid, &["tape", f.to_str().unwrap()], HANG, &tmp);
    for l in &r.log {
        println!("  {}", l);
    }
    crate::elf::clean_scratch();
    match r.viol {
        Some(v) => {
            println!("{}", v);
            println!("VIOLATION property={} replay={}", pid, file);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

// ---- parent ----

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum Ev {
    Line(usize, String),
    End(usize),
}

pub fn check(p: &Prop, thorough: bool, base: u64) -> i32 {
    let start = Instant::now();
    println!("VERIF_SEED={} property={} tier={}", base, p.id, if thorough { "thorough" } else { "quick" });
    let nw = std::env::var("TWSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let scale: f64 = std::env::var("TWSIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let runs = ((if thorough { p.thorough_runs } else { p.quick_runs }) as f64 * scale) as u64;
    let secs = std::env::var("TWSIM_SECS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { p.thorough_secs } else { p.quick_secs });
    let tmp = crate::elf::scratch().to_path_buf();
    let replays = verif_dir().join("build/replays");
    std::fs::create_dir_all(&replays).expect("replay directory");
    let (tx, rx) = std::sync::mpsc::channel();
    let mut kids = vec![];
    for w in 0..nw {
        let mark = tmp.join(format!("mark{}", w));
        std::fs::write(&mark, 0u64.to_le_bytes()).expect("mark");
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, &base.to_string(), &w.to_string(), &nw.to_string()])
            .args([runs.to_string(), secs.to_string(), mark.display().to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                let _ = tx.send(Ev::Line(w, l));
            }
            let _ = tx.send(Ev::End(w));
        });
        let se = c.stderr.take().unwrap();
        let errs = std::thread::spawn(move || {
            let mut keep = String::new();
            for l in std::io::BufReader::new(se).lines().map_while(Result::ok) {
                if keep.len() < 4000 {
                    keep.push_str(&l);
                    keep.push('\n');
                }
            }
            keep
        });
        kids.push((c, mark, (0u64, Instant::now()), Some(errs)));
    }
    drop(tx);
    let mut ended = vec![false; nw];
    let (mut done, mut nontrivial) = (0u64, 0u64);
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut edges: HashSet<u64> = HashSet::new();
    let mut edges_total = 0;
    let mut bad: Vec<(u64, String)> = vec![];
    let mut said_done = vec![false; nw];
    let read_mark = |m: &Path| std::fs::read(m).ok().and_then(|b| b.try_into().ok()).map_or(0, u64::from_le_bytes);
    let mut broken: Option<String> = None;
    let mut stop = false;
    while ended.iter().any(|e| !e) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ev::Line(w, l)) => {
                let (k, rest) = l.split_at(l.find(' ').unwrap_or(l.len()));
                let rest = rest.trim_start();
                let (n, tail) = rest.split_at(rest.find(' ').unwrap_or(rest.len()));
                let num: u64 = n.parse().unwrap_or(0);
                let tail = tail.trim_start();
                match k {
                    "V" => {
                        bad.push((num, tail.to_string()));
                        stop = true;
                    }
                    "S" => *stats.entry(tail.to_string()).or_insert(0) += num,
                    "K" => *known.entry(tail.to_string()).or_insert(0) += num,
                    "L" => {
                        if samples.len() < 4 {
                            samples.push(rest.to_string())
                        }
                    }
                    "E" => {
                        edges_total = num;
                        edges.extend(tail.split(' ').filter_map(|x| x.parse::<u64>().ok()));
                    }
                    "H" => {
                        shapes.insert(num);
                    }
                    "D" => {
                        done += num;
                        nontrivial += tail.parse::<u64>().unwrap_or(0);
                        said_done[w] = true;
                    }
                    _ => {}
                }
            }
            Ok(Ev::End(w)) => {
                ended[w] = true;
                let (c, mark, _, errs) = &mut kids[w];
                let st = c.wait().expect("wait");
                let errs = errs.take().map_or(String::new(), |e| e.join().unwrap_or_default());
                let at = read_mark(mark);
                if !said_done[w] && !stop {
                    use std::os::unix::process::ExitStatusExt;
                    if at > 0 && st.signal().is_some() {
                        let m = format!(
                            "run {} killed its process with signal {} (abort, stack overflow or memory): {}",
                            at - 1,
                            st.signal().unwrap(),
                            errs.replace('\n', " ")
                        );
                        bad.push((at - 1, m));
                        stop = true;
                    } else if broken.is_none() {
                        broken = Some(format!("worker {} ended with {:?} in run {}: {}", w, st, at, errs));
                    }
                }
                let _ = std::fs::remove_dir_all(Path::new("/dev/shm").join(format!("twsim-{}", c.id())));
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if stop {
            // The others need not go on for long; what they found first counts.
            for (w, k) in kids.iter_mut().enumerate() {
                if !ended[w] && start.elapsed().as_secs() < secs {
                    let _ = k.0.kill();
                }
            }
        }
        for w in 0..nw {
            if ended[w] {
                continue;
            }
            let m = read_mark(&kids[w].1);
            let seen = &mut kids[w].2;
            if m != seen.0 {
                *seen = (m, Instant::now());
            } else if m > 0 && seen.1.elapsed() > HANG {
                bad.push((m - 1, format!("run {} does not come to an end", m - 1)));
                stop = true;
                let _ = kids[w].0.kill();
            }
        }
    }
    if bad.is_empty() {
        if let Some(b) = broken {
            eprintln!("twsim: {}", b);
            crate::elf::clean_scratch();
            return 3;
        }
    }
    let sim_s = start.elapsed().as_secs_f64();
    bad.sort();
    let mut replay_path = None;
    if let Some((idx, m)) = bad.first() {
        let path = report(p.id, base, Some(*idx), seed_of(base, p.id, *idx), &replays, m);
        replay_path = Some(path);
    }
    for f in props::known_probes(p.id) {
        *known.entry(f).or_insert(0) += 1;
    }

    // Evidence.
    let wall = start.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    e.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(p.id), js(if thorough { "thorough" } else { "quick" }), base));
    e.push_str(" \"coverage\": {\n");
    e.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", done, shapes.len()));
    e.push_str(&format!("  \"rule\": {},\n", js(p.rule)));
    e.push_str("  \"samples\": [\n");
    e.push_str(&samples.iter().map(|s| format!("   {}", js(s))).collect::<Vec<_>>().join(",\n"));
    e.push_str("\n  ],\n");
    e.push_str(&format!(
        "  \"control_flow_edges_of_twiggy_reached\": {{\"reached\": {}, \"linked_in\": {}, \"note\": \"edges of the twiggy_* libraries as linked into the simulator; the tool process is not counted\"}},\n",
        edges.len(),
        edges_total
    ));
    e.push_str(&format!("  \"runs_that_were_nontrivial\": {},\n", nontrivial));
    e.push_str(&format!("  \"simulated_runs_per_hour\": {},\n", (done as f64 / sim_s * 3600.0) as u64));
    e.push_str(&format!("  \"seeds_per_hour\": {},\n", (done as f64 / sim_s * 3600.0) as u64));
    e.push_str("  \"simulated_time\": \"the code under test has no timers or clocks; the simulated clock only advances by events (see counters)\",\n");
    e.push_str("  \"counters\": {\n");
    e.push_str(&stats.iter().map(|(k, v)| format!("   {}: {}", js(k), v)).collect::<Vec<_>>().join(",\n"));
    e.push_str("\n  },\n");
    e.push_str(&format!("  \"components\": {},\n", js(p.components)));
    e.push_str(&format!("  \"worker_processes\": {},\n", nw));
    e.push_str("  \"known_findings_seen\": {");
    e.push_str(&known.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    e.push_str("}\n },\n");
    e.push_str(" \"assumptions\": [\n");
    e.push_str(&props::ASSUMPTIONS.iter().map(|a| format!("  {}", js(a))).collect::<Vec<_>>().join(",\n"));
    e.push_str("\n ],\n");
    e.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, bad.len()));
    let ev = verif_dir().join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence directory");
    std::fs::write(ev.join(format!("{}.json", p.id)), e).expect("evidence file");

    for k in known.keys() {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    println!(
        "{} runs ({} distinct histories) in {:.1} s, {} violating",
        done,
        shapes.len(),
        sim_s,
        bad.len()
    );
    crate::elf::clean_scratch();
    match replay_path {
        Some(r) => {
            println!("VIOLATION property={} replay={}", p.id, r.display());
            1
        }
        None => 0,
    }
}

/// `twsim log PID FROM TO`: one digest per seed, to compare executions.
pub fn log(pid: &str, from: u64, to: u64, step: u64) {
    let mut i = from;
    while i < to {
        let (o, rec) = run(pid, Tape::seeded(seed_of(1, pid, i)));
        let mut r = 5;
        for x in rec {
            r = mix(r, x);
        }
        println!("{} {:016x} {:016x}", i, digest(&o), r);
        i += step;
    }
    crate::elf::clean_scratch();
}

/// `twsim collect PID FROM TO STEP`: every kind of violation, for development.
pub fn collect(pid: &str, from: u64, to: u64, step: u64) {
    let mut kinds: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut i = from;
    while i < to {
        let (o, _) = run(pid, Tape::seeded(seed_of(1, pid, i)));
        if let Some(v) = props::first_violation(pid, &o) {
            let k = match (v.find("requested by "), v.find(" in "), v.find(".rs:")) {
                (Some(at), _, _) => v[at..].to_string(),
                (_, Some(at), Some(_)) if v.contains("library/") => v[at..].to_string(),
                (_, _, Some(at)) => v[..(at + 7).min(v.len())].to_string(),
                _ => class(&v),
            };
            kinds.entry(k).or_insert((0, i)).0 += 1;
        }
        i += step;
    }
    for (k, (n, i)) in kinds {
        println!("{} x{} e.g. run {}", k, n, i);
    }
    crate::elf::clean_scratch();
}
