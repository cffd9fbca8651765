//! The tools of those who maintain twiggy: the CI job runner and the release
//! script, real, among programs that are played by this one (`fake`).

use crate::props::Outcome;
use crate::tape::{mix, Tape};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// Where the played programs find their world.
pub const ENV: &str = "TWSIM_FAKE";

const PROGRAMS: [&str; 4] = ["rustup", "cargo", "cp", "wasm-opt"];
const STEPS: [&str; 9] = ["update", "target", "build", "version", "install", "bindgen", "cp", "opt", "publish"];
const TRIPLE: &str = "wasm32-unknown-unknown";

fn value<'a>(args: &'a [String], names: &[&str]) -> Option<&'a str> {
    for (i, a) in args.iter().enumerate() {
        for n in names {
            if a == n {
                return args.get(i + 1).map(|x| x.as_str());
            }
            if let Some(v) = a.strip_prefix(n).and_then(|r| r.strip_prefix('=')) {
                return Some(v);
            }
        }
    }
    None
}

fn has(args: &[String], what: &str) -> bool {
    args.iter().any(|a| a == what)
}

/// What a program that was called does. Nothing is drawn here: the plan says it.
pub fn fake(world: &str) -> i32 {
    let world = Path::new(world);
    let mut args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
    let me = PathBuf::from(args.remove(0));
    let name = me.file_name().and_then(|n| n.to_str()).unwrap_or("").to_string();
    let cwd = std::env::current_dir().expect("cwd");
    let step = match name.as_str() {
        "rustup" if has(&args, "update") => "update",
        "rustup" if has(&args, "target") => "target",
        "cargo" if has(&args, "install") => "install",
        "cargo" if has(&args, "build") => "build",
        "cargo" if has(&args, "publish") => "publish",
        "wasm-bindgen" if has(&args, "--version") || has(&args, "-V") => "version",
        "wasm-bindgen" => "bindgen",
        "cp" => "cp",
        "wasm-opt" => "opt",
        _ => "other",
    };
    let state = |n: &str| std::fs::read_to_string(world.join(n)).unwrap_or_default();
    let log = state("log");
    // How many calls of this kind there were.
    let nth = log.lines().filter(|l| l.starts_with(&format!("{}\t", step))).count();
    let plan = state("plan");
    let plan: Vec<&str> = plan
        .lines()
        .find(|l| l.starts_with(&format!("{} {} ", step, nth)))
        .map_or(vec![], |l| l.split(' ').collect());
    let how = plan.get(2).copied().unwrap_or("ok");
    let num = |i: usize| plan.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    let (out, err) = (num(3), num(4));

    // What it says, on both streams in turns.
    let (so, se) = (std::io::stdout(), std::io::stderr());
    let (mut so, mut se) = (so.lock(), se.lock());
    let mut say = |o: &[u8], e: &[u8]| {
        let _ = so.write_all(o).and_then(|()| so.flush());
        let _ = se.write_all(e);
    };
    let quiet = step == "version";
    if !quiet {
        say(format!("{} says so\n", step).as_bytes(), b"");
    }
    say(b"", format!("{} warns\n", step).as_bytes());
    let mut at = 0;
    while at < out.max(err) {
        let line = |n: usize| vec![b'.'; n.saturating_sub(at).min(3000)];
        say(&if quiet { vec![] } else { line(out) }, &line(err));
        at += 3000;
    }

    let r = if how == "ok" { act(world, step, &args, &cwd, &name) } else { Err(format!("{}: as planned", how)) };
    let r = r.map(|s| {
        say(s.as_bytes(), b"");
    });
    let line = format!("{}\t{}\t{}\t{}\n", step, if r.is_ok() { "ok" } else if how == "ok" { "refused" } else { "failed" }, cwd.display(), args.join(" "));
    std::fs::OpenOptions::new()
        .append(true)
        .create(true)
        .open(world.join("log"))
        .and_then(|mut f| f.write_all(line.as_bytes()))
        .expect("log");
    if let Some(n) = how.strip_prefix("kill:").and_then(|n| n.parse().ok()) {
        unsafe {
            libc::raise(n);
        }
    }
    match r {
        Ok(()) => 0,
        Err(e) => {
            say(b"", format!("{}: error: {}\n", step, e).as_bytes());
            how.strip_prefix("exit:").and_then(|n| n.parse().ok()).unwrap_or(1)
        }
    }
}

/// The effects of a call that goes well; what it prints.
fn act(world: &Path, step: &str, args: &[String], cwd: &Path, _name: &str) -> Result<String, String> {
    let e = |x: std::io::Error| x.to_string();
    let root = world.join("repo");
    let chain = |d: &str| args.iter().find_map(|a| a.strip_prefix('+')).unwrap_or(d).to_string();
    let state = |n: &str| std::fs::read_to_string(world.join(n)).unwrap_or_default();
    match step {
        "update" | "publish" | "other" => Ok(String::new()),
        "target" => {
            let chain = value(args, &["--toolchain"]).map_or_else(|| chain("stable"), |c| c.to_string());
            let mut t = state("targets");
            for a in args.iter().filter(|a| a.contains('-') && !a.starts_with('-')) {
                t.push_str(&format!("{} {}\n", chain, a));
            }
            std::fs::write(world.join("targets"), t).map_err(e)?;
            Ok(String::new())
        }
        "build" => {
            let target = value(args, &["--target"]).ok_or("this crate is for the web")?;
            if !state("targets").lines().any(|l| l == format!("{} {}", chain("stable"), target)) {
                return Err(format!("{} is not installed", target));
            }
            let here = cwd.ends_with("repo/wasm-api") || args.iter().any(|a| a.contains("wasm-api"));
            if !here {
                return Err("job_runner does not build for the web".into());
            }
            let profile = if has(args, "--release") || has(args, "-r") { "release" } else { "debug" };
            let d = root.join("target").join(target).join(profile);
            std::fs::create_dir_all(&d).map_err(e)?;
            std::fs::write(d.join("twiggy_wasm_api.wasm"), format!("{} {}", profile, state("nonce"))).map_err(e)?;
            Ok(String::new())
        }
        "install" => {
            let ver = value(args, &["--version", "--vers"]).ok_or("whatever is latest is not what was asked for")?;
            if !has(args, "wasm-bindgen-cli") {
                return Err("no such package".into());
            }
            let to = cwd.join(value(args, &["--root"]).unwrap_or("/nowhere")).join("bin");
            let bin = to.join("wasm-bindgen");
            if bin.symlink_metadata().is_ok() && !has(args, "-f") && !has(args, "--force") {
                return Err("binary `wasm-bindgen` already exists in destination".into());
            }
            std::fs::create_dir_all(&to).map_err(e)?;
            let _ = std::fs::remove_file(&bin);
            std::os::unix::fs::symlink(std::env::current_exe().map_err(e)?, &bin).map_err(e)?;
            std::fs::write(world.join("installed"), ver).map_err(e)?;
            std::fs::write(world.join("says"), format!("wasm-bindgen {}\n", ver)).map_err(e)?;
            Ok(String::new())
        }
        "version" => Ok(state("says")),
        "bindgen" => {
            let input = args.iter().find(|a| a.ends_with(".wasm")).ok_or("no input")?;
            let text = std::fs::read_to_string(cwd.join(input)).map_err(e)?;
            let d = cwd.join(value(args, &["--out-dir"]).ok_or("no --out-dir")?);
            std::fs::write(d.join("twiggy_wasm_api_bg.wasm"), format!("bound by {}: {}", state("installed"), text)).map_err(e)?;
            std::fs::write(d.join("twiggy_wasm_api.js"), "// glue\n").map_err(e)?;
            Ok(String::new())
        }
        "cp" => {
            let files: Vec<&String> = args.iter().filter(|a| !a.starts_with('-')).collect();
            let [from, to] = files[..] else { return Err("not two files".into()) };
            std::fs::copy(cwd.join(from), cwd.join(to)).map_err(e)?;
            Ok(String::new())
        }
        "opt" => {
            let to = value(args, &["-o", "--output"]).ok_or("no output")?;
            let from = args.iter().find(|a| a.ends_with(".wasm") && *a != to).or_else(|| args.iter().find(|a| a.ends_with(".wasm")));
            let text = std::fs::read_to_string(cwd.join(from.ok_or("no input")?)).map_err(e)?;
            std::fs::write(cwd.join(to), format!("optimized {}", text)).map_err(e)?;
            Ok(String::new())
        }
        _ => Err("what?".into()),
    }
}

struct Res {
    code: Option<i32>,
    signal: Option<i32>,
    timeout: bool,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}

fn call(world: &Path, program: &Path, args: &[&str], cwd: &Path) -> Res {
    let (so, se) = (world.join("stdout"), world.join("stderr"));
    let mut cmd = Command::new(program);
    cmd.args(args)
        .env_clear()
        .env("PATH", world.join("bin"))
        .env(ENV, world)
        .env("HOME", world)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).expect("stdout"))
        .stderr(std::fs::File::create(&se).expect("stderr"));
    // With all it starts, should it hang.
    cmd.process_group(0);
    let mut kid = cmd.spawn().expect("the job runner does not start");
    let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, kid.id() as libc::c_int, 0) } as i32;
    let mut timeout = false;
    let t0 = std::time::Instant::now();
    while kid.try_wait().expect("wait").is_none() {
        if t0.elapsed().as_secs() >= 40 {
            timeout = true;
            unsafe {
                libc::kill(-(kid.id() as libc::c_int), libc::SIGKILL);
            }
            break;
        }
        if pfd >= 0 {
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut p, 1, 40_000) };
        } else {
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
    }
    if pfd >= 0 {
        unsafe { libc::close(pfd) };
    }
    let st = kid.wait().expect("wait");
    let read = |p: &Path| std::fs::read(p).unwrap_or_default();
    Res { code: st.code(), signal: st.signal(), timeout, stdout: read(&so), stderr: read(&se) }
}

impl Res {
    fn how(&self) -> String {
        match (self.timeout, self.code, self.signal) {
            (true, _, _) => "it does not come to an end".into(),
            (_, Some(c), _) => format!("exit {}", c),
            (_, _, s) => format!("killed by signal {}", s.unwrap_or(0)),
        }
    }
    fn shown(&self, what: &str) -> bool {
        let has = |b: &[u8]| b.windows(what.len()).any(|w| w == what.as_bytes());
        has(&self.stdout) || has(&self.stderr)
    }
}

struct Step {
    what: String,
    ok: bool,
    /// It failed because what was asked of it cannot be done.
    refused: bool,
    cwd: String,
    args: String,
}

fn steps(world: &Path) -> Vec<Step> {
    let log = std::fs::read_to_string(world.join("log")).unwrap_or_default();
    log.lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            Step { what: f[0].into(), ok: f[1] == "ok", refused: f[1] == "refused", cwd: f[2].into(), args: f[3].into() }
        })
        .collect()
}

fn failure(t: &mut Tape, o: &mut Outcome) -> String {
    if t.chance(1, 3) {
        o.stats.add("program killed", 1);
        format!("kill:{}", [9, 15, 6, 11, 1][t.below(5)])
    } else {
        o.stats.add("program fails", 1);
        format!("exit:{}", [1, 2, 101, 127, 255][t.below(5)])
    }
}

fn noise(t: &mut Tape) -> u64 {
    [0, 50, 4_000, 70_000, 300_000][t.weighted(&[8, 4, 2, 1, 1])]
}

fn new_world() -> PathBuf {
    let w = crate::elf::scratch().join("jobs");
    let _ = std::fs::remove_dir_all(&w);
    std::fs::create_dir_all(w.join("bin")).expect("world");
    std::fs::create_dir_all(w.join("repo/wasm-api")).expect("world");
    w
}

fn play(at: &Path) {
    let me = std::env::current_exe().expect("the simulator");
    std::os::unix::fs::symlink(me, at).expect("a program");
}

fn repo() -> PathBuf {
    std::env::var_os("TWSIM_REPO").map_or_else(|| "/repo".into(), PathBuf::from)
}

const C22: &[&str] = &["C22"];

pub fn run(t: &mut Tape) -> Outcome {
    let mut o = Outcome::default();
    if t.chance(1, 6) && repo().join("publish.sh").exists() {
        release(t, &mut o);
    } else {
        ci(t, &mut o);
    }
    o.shape.push(mix(1, t.rec.len() as u64));
    o
}

fn version(t: &mut Tape) -> String {
    format!("0.{}.{}", t.range(1, 3), [80, 8, 7, 74, 0, 100][t.below(6)])
}

fn ci(t: &mut Tape, o: &mut Outcome) {
    let w = new_world();
    let repo = w.join("repo");
    let api = repo.join("wasm-api");
    let desired = version(t);
    let nonce = format!("{:08x}", t.draw(1 << 32));
    std::fs::write(w.join("nonce"), &nonce).expect("world");

    // What is there from before.
    let mut missing = vec![];
    for p in PROGRAMS {
        match t.weighted(&[30, 1, 1]) {
            0 => play(&w.join("bin").join(p)),
            1 => missing.push(p),
            _ => {
                std::fs::write(w.join("bin").join(p), "not a program").expect("world");
                missing.push(p);
            }
        }
    }
    if !missing.is_empty() {
        o.stats.add("program missing", missing.len() as u64);
        o.log.push(format!("missing: {}", missing.join(", ")));
    }
    let bin = api.join("bin/wasm-bindgen");
    let kind = t.weighted(&[3, 3, 4, 1, 1]);
    if kind > 0 {
        std::fs::create_dir_all(api.join("bin")).expect("world");
        let installed = match (kind, t.below(4)) {
            (1, _) => desired.clone(),
            (_, 0) => format!("{}0", desired),
            (_, 1) => desired[..desired.len() - 1].to_string(),
            (_, 2) => format!("1{}", desired),
            _ => format!("{}.9", &desired[..3]),
        };
        let end = ["\n", "\r\n", "", "\n\n"][t.weighted(&[6, 1, 1, 1])];
        let says = match kind {
            3 => ["", "\n", "wasm-bindgen\n", "error\n"][t.below(4)].to_string(),
            _ => format!("wasm-bindgen {}{}", installed, end),
        };
        std::fs::write(w.join("installed"), &installed).expect("world");
        std::fs::write(w.join("says"), &says).expect("world");
        if kind == 4 {
            std::fs::write(&bin, "not a program").expect("world");
            o.log.push("wasm-bindgen is there, but cannot be executed".into());
        } else {
            play(&bin);
            o.log.push(format!("wasm-bindgen {} is there, says {:?}", installed, says));
        }
    }
    let current = kind == 1;
    if t.chance(1, 2) {
        std::fs::write(w.join("targets"), format!("nightly {}\nstable {}\n", TRIPLE, TRIPLE)).expect("world");
    }
    for (f, what) in [
        ("target/wasm32-unknown-unknown/release/twiggy_wasm_api.wasm", "release old"),
        ("wasm-api/twiggy_wasm_api_bg.wasm", "bound by old: release old"),
        ("wasm-api/twiggy_wasm_api_bg2.wasm", "bound by old: release old"),
    ] {
        if t.chance(1, 3) {
            let p = repo.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).expect("world");
            std::fs::write(p, what).expect("world");
            o.log.push(format!("{} is there from before", f));
        }
    }
    let manifest = match t.weighted(&[24, 1, 1, 1]) {
        0 => {
            let form = [
                format!("[dependencies.wasm-bindgen]\nversion = \"{}\"\n", desired),
                format!("[dependencies]\nwasm-bindgen = {{ version = \"{}\" }}\n", desired),
                format!("[dependencies.twiggy-ir]\nversion = \"=0.9.9\"\npath = \"../ir\"\n\n[dependencies.wasm-bindgen]\nfeatures = [\"std\"]\nversion = \"{}\"\n", desired),
            ];
            Some(format!("[package]\nname = \"twiggy-wasm-api\"\nversion = \"0.7.0\"\n\n{}", form[t.below(3)]))
        }
        1 => Some("[package]\nname = \"twiggy-wasm-api\"\nversion = \"0.7.0\"\n".into()),
        2 => Some("[package\n".into()),
        _ => None,
    };
    let good = manifest.as_ref().map_or(false, |m| m.contains(&desired));
    if let Some(m) = &manifest {
        std::fs::write(api.join("Cargo.toml"), m).expect("world");
    }
    if !good {
        o.stats.add("manifest that does not say the version", 1);
        o.log.push("the manifest does not say which version".into());
    }

    // What will happen.
    let calm = t.chance(1, 4);
    let mut plan = String::new();
    for s in STEPS {
        let how = if !calm && s != "version" && t.chance(1, 8) { failure(t, o) } else { "ok".into() };
        let (a, b) = (noise(t), noise(t));
        if how != "ok" {
            o.log.push(format!("planned: {} {}", s, how));
        }
        plan.push_str(&format!("{} 0 {} {} {}\n", s, how, a, b));
    }
    std::fs::write(w.join("plan"), plan).expect("world");

    let args: &[&str] = match t.weighted(&[24, 2, 1, 1]) {
        0 => &["--wasm"],
        1 => &[],
        2 => &["--no-such-option"],
        _ => &["--wasm", "--no-such-option"],
    };
    let before = contents(&repo);
    let r = call(&w, &crate::driver::verif_dir().join("build/target/debug/job_runner"), args, &repo);
    let done = steps(&w);
    o.log.push(format!("job_runner {}: {}", args.join(" "), r.how()));
    for s in &done {
        let at = Path::new(&s.cwd).strip_prefix(&w).map_or(s.cwd.clone(), |p| p.display().to_string());
        o.log.push(format!("  {} {} in {} ({})", s.what, if s.ok { "went well" } else { "FAILED" }, at, s.args));
    }
    o.stats.add("job runs", 1);
    o.stats.add("programs played", done.len() as u64);
    o.nontrivial = !done.is_empty();
    for s in &done {
        o.shape.push(STEPS.iter().position(|x| *x == s.what).unwrap_or(99) as u64 * 2 + s.ok as u64);
    }
    o.shape.push(r.code.unwrap_or(-1) as u64);
    let packed = std::fs::read_to_string(api.join("twiggy_wasm_api_bg.wasm")).ok();
    o.seen.push(mix(r.code.unwrap_or(-1) as u64, done.len() as u64));
    o.seen.extend(packed.iter().flat_map(|p| p.bytes().map(u64::from)));

    let mut bad = |m: String| o.viols.push((C22.to_vec(), m));
    if r.timeout || r.signal.is_some() {
        return bad(format!("the job runner: {}", r.how()));
    }
    let fine = r.code == Some(0);
    if args != ["--wasm"] {
        let odd = has(&args.iter().map(|a| a.to_string()).collect::<Vec<_>>(), "--no-such-option");
        if fine == odd {
            bad(format!("called with {:?}: {}", args, r.how()));
        } else if !done.is_empty() || contents(&repo) != before {
            bad(format!("called with {:?}, it did something", args));
        }
        return;
    }
    let required = ["target", "build", "install", "bindgen"];
    let first = done.iter().position(|s| !s.ok && required.contains(&s.what.as_str()));
    if let Some(i) = first {
        let s = &done[i];
        if s.refused {
            return bad(format!("nothing kept {} from going well, but it was called in a way that cannot be", s.what));
        }
        if fine {
            return bad(format!("{} failed, but the job did not", s.what));
        }
        if let Some(n) = done[i + 1..].iter().find(|x| required.contains(&x.what.as_str()) && x.what != s.what) {
            return bad(format!("{} failed, but {} was called nevertheless", s.what, n.what));
        }
        if !r.shown(&format!("{} says so", s.what)) || !r.shown(&format!("{} warns", s.what)) {
            return bad(format!("{} failed, and what it said is not shown", s.what));
        }
    }
    let blocked = missing.contains(&"rustup") || missing.contains(&"cargo") || !good;
    if !fine {
        if first.is_none() && !blocked {
            return bad(format!("nothing it needs failed, but the job did: {}", String::from_utf8_lossy(&r.stderr[r.stderr.len().saturating_sub(200)..])));
        }
        if r.stderr.is_empty() {
            return bad("the job failed without a message".into());
        }
        return;
    }
    if blocked {
        return bad("what it needs is not there, but the job did not fail".into());
    }
    if let Some(s) = required.iter().find(|s| **s != "install" && !done.iter().any(|d| d.what == **s)) {
        return bad(format!("the job did not fail, but {} was never called", s));
    }
    if current && done.iter().any(|s| s.what == "install") {
        return bad("the version of wasm-bindgen that is there already was installed again".into());
    }
    let plain = format!("bound by {}: release {}", desired, nonce);
    let opt = format!("optimized {}", plain);
    let got = packed.unwrap_or_else(|| "nothing".into());
    let optimized = done.iter().any(|s| s.what == "opt" && s.ok);
    let known = !done.iter().any(|s| (s.what == "opt" || s.what == "cp") && !s.ok);
    if got != opt && (got != plain || optimized && known) {
        bad(format!("the job did not fail, but what was packed is {:?}, not {:?}", got, plain));
    }
}

fn contents(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.symlink_metadata().map_or(false, |m| m.is_dir()) {
                todo.push(p);
            } else {
                let c = std::fs::read(&p).ok().filter(|_| !p.ends_with("bin/wasm-bindgen"));
                out.insert(p, c.unwrap_or_default());
            }
        }
    }
    out
}

/// The crates of the workspace that are on crates.io, and what they depend on.
fn crates() -> BTreeMap<String, Vec<String>> {
    let mut out = BTreeMap::new();
    for d in ["ir", "traits", "parser", "opt", "analyze", "twiggy"] {
        let m = std::fs::read_to_string(repo().join(d).join("Cargo.toml")).unwrap_or_default();
        let mut section = "";
        let mut deps = vec![];
        for l in m.lines().map(|l| l.trim()) {
            if l.starts_with('[') {
                section = l;
                if let Some(x) = l.strip_prefix("[dependencies.twiggy-") {
                    deps.push(x.trim_end_matches(']').to_string());
                }
            } else if section == "[dependencies]" {
                if let Some(x) = l.strip_prefix("twiggy-") {
                    deps.push(x.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '-').collect());
                }
            }
        }
        out.insert(d.to_string(), deps);
    }
    out
}

fn release(t: &mut Tape, o: &mut Outcome) {
    let w = new_world();
    let root = w.join("repo");
    let crates = crates();
    for d in crates.keys() {
        std::fs::create_dir_all(root.join(d)).expect("world");
    }
    std::fs::copy(repo().join("publish.sh"), root.join("publish.sh")).expect("publish.sh");
    play(&w.join("bin/cargo"));
    // Nothing else is within its reach.
    for p in ["dirname", "env", "bash", "basename", "sed", "grep", "cat", "sleep", "realpath"] {
        if let Some(real) = ["/usr/bin", "/bin"].iter().map(|d| Path::new(d).join(p)).find(|p| p.exists()) {
            std::os::unix::fs::symlink(real, w.join("bin").join(p)).expect("world");
        }
    }
    let mut plan = String::new();
    for i in 0..crates.len() {
        let how = if t.chance(1, 8) { failure(t, o) } else { "ok".into() };
        if how != "ok" {
            o.log.push(format!("planned: publish {} {}", i, how));
        }
        plan.push_str(&format!("publish {} {} {} {}\n", i, how, noise(t), noise(t)));
    }
    std::fs::write(w.join("plan"), plan).expect("world");
    let script = root.join("publish.sh");
    let from = [root.clone(), root.join("ir"), w.clone()][t.below(3)].clone();
    let how = if from == root { "publish.sh".to_string() } else { script.display().to_string() };
    let r = call(&w, Path::new("/bin/bash"), &[&how], &from);
    let done = steps(&w);
    o.log.push(format!("publish.sh: {}", r.how()));
    let names: Vec<String> =
        done.iter().map(|s| Path::new(&s.cwd).file_name().map_or(String::new(), |n| n.to_string_lossy().into_owned())).collect();
    for (s, n) in done.iter().zip(&names) {
        o.log.push(format!("  {} {} {}", s.what, n, if s.ok { "went well" } else { "FAILED" }));
        o.shape.push(mix(s.ok as u64, n.bytes().map(u64::from).sum()));
    }
    o.stats.add("releases", 1);
    o.stats.add("programs played", done.len() as u64);
    o.nontrivial = !done.is_empty();
    o.shape.push(r.code.unwrap_or(-1) as u64);
    o.seen.push(mix(r.code.unwrap_or(-1) as u64, done.len() as u64));

    let mut bad = |m: String| o.viols.push((C22.to_vec(), m));
    if r.timeout || r.signal.is_some() {
        return bad(format!("the release script: {}", r.how()));
    }
    let failed = done.iter().position(|s| !s.ok);
    if (r.code == Some(0)) != failed.is_none() {
        return bad(format!("the release script: {}, but {}", r.how(), failed.map_or("nothing failed".into(), |i| format!("publishing {} failed", names[i]))));
    }
    if failed.map_or(false, |i| i + 1 < done.len()) {
        return bad("the release script went on after a crate could not be published".into());
    }
    for (i, n) in names.iter().enumerate() {
        let Some(deps) = crates.get(n) else { return bad(format!("the release script publishes {:?}", n)) };
        if names[..i].contains(n) {
            return bad(format!("the release script publishes {} twice", n));
        }
        if let Some(d) = deps.iter().find(|d| crates.contains_key(*d) && !names[..i].contains(d)) {
            return bad(format!("{} is published before {}, which it depends on", n, d));
        }
    }
    if failed.is_none() && names.len() < crates.len() {
        bad(format!("only {} are published", names.join(", ")));
    }
}
