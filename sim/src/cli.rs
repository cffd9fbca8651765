//! The real tool, run as a process whose every dealing with the operating
//! system goes through the preloaded shim (shim/shim.c).

use crate::gen::{self, Knobs};
use crate::model::Graph;
use crate::props::Outcome;
use crate::sess::{self, Stats, FORMATS, FORMAT_NAMES};
use crate::spec::{Spec, What, ALL};
use crate::tape::{mix, Tape};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use twiggy_traits::ParseMode;

/// Indices of the plan; in step with shim.c.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub seed: u64,
    pub rshort: u64,
    pub rintr: u64,
    pub wshort: u64,
    pub wintr: u64,
    /// Which input, at what offset, which error, for good.
    pub rfail: Option<(u64, u64, i32, bool)>,
    pub openfail: Option<(u64, i32, bool)>,
    /// Which input, what happens to questions about its size.
    pub stat: Option<(u64, u64)>,
    pub outfail: Option<i32>,
    /// Offset, error (0: a write of nothing), for good.
    pub wfail: Option<(u64, i32, bool)>,
    pub kill_at: u64,
    pub mfail_at: u64,
    pub hash: u64,
    pub clock: u64,
    pub pid: u64,
    pub wmax: u64,
    /// Which standard streams are terminals, and how wide.
    pub tty: Option<(u64, u64)>,
    pub cpus: u64,
    /// Seed for the values of variables asked for.
    pub env: u64,
}

impl Plan {
    fn line(&self) -> String {
        let r = self.rfail.unwrap_or((0, 0, 0, false));
        let o = self.openfail.unwrap_or((0, 0, false));
        let st = self.stat.unwrap_or((0, 0));
        let w = self.wfail.unwrap_or((0, 0, false));
        let v: Vec<u64> = vec![
            self.seed,
            self.rshort,
            self.rintr,
            self.wshort,
            self.wintr,
            r.0,
            r.1,
            r.2 as u64,
            r.3 as u64,
            o.0,
            o.1 as u64,
            o.2 as u64,
            st.0,
            st.1,
            self.outfail.unwrap_or(0) as u64,
            self.wfail.is_some() as u64,
            w.0,
            w.1 as u64,
            w.2 as u64,
            self.kill_at,
            self.mfail_at,
            self.hash,
            self.clock,
            self.pid,
            self.wmax,
            self.tty.map_or(0, |(which, cols)| which | cols << 8),
            self.cpus,
            self.env,
        ];
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
    }
    fn describe(&self) -> String {
        let mut s = vec![];
        let mut on = |c: bool, t: String| {
            if c {
                s.push(t)
            }
        };
        on(self.rshort > 0, format!("short reads {}‰", self.rshort));
        on(self.rintr > 0, format!("interrupted reads {}‰", self.rintr));
        on(self.wshort > 0, format!("short writes {}‰", self.wshort));
        on(self.wmax > 0, format!("writes of at most {} B", self.wmax));
        on(self.wintr > 0, format!("interrupted writes {}‰", self.wintr));
        let often = |b: bool| if b { "for good" } else { "once" };
        if let Some((w, at, e, st)) = self.rfail {
            on(true, format!("reading input {} fails at byte {} {} with {}", w, at, often(st), errname(e)));
        }
        if let Some((w, e, st)) = self.openfail {
            on(true, format!("opening input {} fails {} with {}", w, often(st), errname(e)));
        }
        if let Some((w, k)) = self.stat {
            let how = ["", "fails with EIO", "says 0", "says half of it", "says more", "fails with EACCES", "says it is a pipe"][k as usize % 7];
            on(true, format!("the size query on input {} {}", w, how));
        }
        if let Some(e) = self.outfail {
            on(true, format!("opening the output fails with {}", errname(e)));
        }
        if let Some((at, e, st)) = self.wfail {
            on(true, format!("writing fails at byte {} {} with {}", at, often(st), errname(e)));
        }
        if let Some((which, cols)) = self.tty {
            on(true, format!("terminals (mask {}) {} wide", which, cols));
        }
        on(self.cpus > 0, format!("{} processors", self.cpus));
        on(self.env > 0, format!("any variable may be set (seed {})", self.env));
        on(self.kill_at > 0, format!("killed at system call {}", self.kill_at));
        on(self.mfail_at > 0, format!("memory runs out at allocation {}", self.mfail_at));
        if s.is_empty() {
            "no faults".into()
        } else {
            s.join(", ")
        }
    }
}

fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EPIPE => "EPIPE",
        libc::EAGAIN => "EAGAIN",
        libc::EDQUOT => "EDQUOT",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::EACCES => "EACCES",
        libc::ENOENT => "ENOENT",
        libc::EINTR => "EINTR",
        libc::EROFS => "EROFS",
        libc::EISDIR => "EISDIR",
        libc::ENOMEM => "ENOMEM",
        libc::ESTALE => "ESTALE",
        libc::EINVAL => "EINVAL",
        libc::EFBIG => "EFBIG",
        0 => "a write of nothing",
        _ => "an error",
    }
}

macro_rules! trace {
    ($($f:ident),*) => {
        #[derive(Clone, Debug, Default)]
        pub struct Trace { $(pub $f: u64,)* pub path: String }
        impl Trace {
            fn read(p: &Path) -> Trace {
                let b = std::fs::read(p).unwrap_or_default();
                let mut at = 0;
                let mut word = || {
                    let w = b.get(at..at + 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()));
                    at += 8;
                    w
                };
                $(let $f = word();)*
                let path = b.get(at..).map_or(String::new(), |x| {
                    String::from_utf8_lossy(&x[..x.iter().position(|&c| c == 0).unwrap_or(0)]).to_string()
                });
                Trace { $($f,)* path }
            }
            fn words(&self) -> Vec<u64> { vec![$(self.$f),*] }
        }
    };
}
trace!(
    magic, calls, mallocs, killed, mfailed, reads, rbytes0, rbytes1, reof0, reof1, rshort, rintr, rerr, opens0, opens1,
    openerr, staterr, outopen, outerr, writes, wbytes, wshort, wintr, werr, wzero, stray, hash, clock, pid, alien,
    mallocs_at_out, calls_at_out, syncs, ebytes, huge, tty, cpus, env, pipe
);

#[derive(Debug)]
pub struct Res {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// The output file, if there is one.
    pub out: Option<Vec<u8>>,
    pub t: Trace,
    /// Files that are not as they were.
    pub touched: Vec<String>,
}

impl Res {
    fn how(&self) -> String {
        if self.timeout {
            return "does not end".into();
        }
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {}", c),
            (_, Some(s)) => format!("killed by signal {}", s),
            _ => "?".into(),
        }
    }
    fn said(&self) -> String {
        String::from_utf8_lossy(&self.stderr).trim().chars().take(200).collect()
    }
}

/// How the tool is called.
#[derive(Clone, Debug)]
pub struct Call {
    pub args: Vec<String>,
    /// As they appear in the arguments.
    pub inputs: Vec<String>,
    pub out: Option<String>,
    pub env: Vec<(String, String)>,
    pub cwd: PathBuf,
}

/// The files a run can see.
pub struct World {
    pub dir: PathBuf,
    files: Vec<(PathBuf, Vec<u8>)>,
}

fn tool() -> PathBuf {
    crate::driver::verif_dir().join("build/target/debug/twiggy")
}

impl World {
    pub fn new() -> World {
        let dir = crate::elf::scratch().join("world");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("work/sub")).expect("world");
        let mut w = World { dir, files: vec![] };
        w.put("work/bystander.wasm", b"\0asm\x01\0\0\0");
        w.put("work/sub/bystander.txt", b"do not touch\n");
        w
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.dir.join(p)
    }
    /// A file whose content must not change.
    pub fn put(&mut self, p: &str, b: &[u8]) -> PathBuf {
        let path = self.dir.join(p);
        std::fs::write(&path, b).expect("file");
        self.files.push((path.clone(), b.to_vec()));
        path
    }
    fn listing(&self) -> Vec<PathBuf> {
        let mut out = vec![];
        let mut todo = vec![self.dir.join("work")];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).expect("world").flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    out.push(p);
                }
            }
        }
        out.sort();
        out
    }
    pub fn run(&self, c: &Call, plan: &Plan) -> Res {
        let (so, se, tr) = (self.dir.join("stdout"), self.dir.join("stderr"), self.dir.join("trace"));
        let _ = std::fs::remove_file(&tr);
        let outpath = c.out.as_ref().map(|o| if o.starts_with('/') { PathBuf::from(o) } else { c.cwd.join(o) });
        let mut cmd = Command::new(tool());
        cmd.args(&c.args)
            .env_clear()
            .envs(c.env.iter().cloned())
            .env("LD_PRELOAD", crate::driver::verif_dir().join("build/bin/shim.so"))
            .env("TWSHIM_PLAN", plan.line())
            .env("TWSHIM_TRACE", &tr)
            .current_dir(&c.cwd)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&so).expect("stdout"))
            .stderr(std::fs::File::create(&se).expect("stderr"));
        for (i, p) in c.inputs.iter().enumerate() {
            cmd.env(format!("TWSHIM_IN{}", i), p);
        }
        if let Some(o) = &c.out {
            cmd.env("TWSHIM_OUT", o);
        }
        let mut kid = cmd.spawn().expect("the tool does not start");
        let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, kid.id() as libc::c_int, 0) } as i32;
        let mut timeout = false;
        let t0 = std::time::Instant::now();
        let limit = std::time::Duration::from_secs(50);
        loop {
            if pfd >= 0 {
                let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
                unsafe { libc::poll(&mut p, 1, 50_000) };
            }
            if kid.try_wait().expect("wait").is_some() {
                break;
            }
            if t0.elapsed() > limit {
                timeout = true;
                let _ = kid.kill();
                break;
            }
            if pfd < 0 {
                std::thread::sleep(std::time::Duration::from_micros(300));
            }
        }
        if pfd >= 0 {
            unsafe { libc::close(pfd) };
        }
        let st = kid.wait().expect("wait");
        let mut touched = vec![];
        for (p, b) in &self.files {
            match std::fs::read(p) {
                Ok(x) if &x == b => {}
                Ok(_) => touched.push(format!("{} was changed", p.display())),
                Err(_) => touched.push(format!("{} is gone", p.display())),
            }
        }
        for p in self.listing() {
            if Some(&p) != outpath.as_ref() && !self.files.iter().any(|(q, _)| *q == p) {
                touched.push(format!("{} was created", p.display()));
            }
        }
        let t = Trace::read(&tr);
        if t.magic != 0x74_7773_6869 {
            eprintln!("twsim: the shim was not loaded: {:?} {}", st, String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()));
            std::process::exit(3);
        }
        Res {
            code: st.code(),
            signal: st.signal(),
            timeout,
            stdout: std::fs::read(&so).unwrap_or_default(),
            stderr: std::fs::read(&se).unwrap_or_default(),
            out: outpath.and_then(|p| std::fs::read(p).ok()),
            t,
            touched,
        }
    }
}

/// What a simulated command line is about.
struct Scene {
    world: World,
    call: Call,
    spec: Spec,
    fmt: usize,
    /// The bytes of each input.
    inputs: Vec<Vec<u8>>,
    elf: bool,
    /// What the library makes of them.
    want: Result<Vec<u8>, String>,
    /// Allocations that parsing and analysing take in the library.
    work: u64,
    old_out: Option<Vec<u8>>,
}

/// An analysis of reasonable size.
fn affordable(t: &mut Tape, w: What, graphs: &[Graph]) -> Option<Spec> {
    let mut names: Vec<String> = graphs.iter().flat_map(|g| g.names.iter().cloned()).collect();
    names.dedup();
    let mut generics: Vec<String> = graphs.iter().flat_map(|g| g.generics.iter().flatten().cloned()).collect();
    generics.sort();
    generics.dedup();
    let mut spec = Spec::draw(t, w, &names, &generics);
    for a in &mut spec.args {
        if a.contains('\0') {
            *a = "nul".into();
        }
    }
    if w == What::Paths {
        if let Some(g) = graphs.first() {
            if spec.paths_cost(g, 800) > 800 {
                spec.limit = Some(2);
                spec.limit2 = Some(2);
            }
            if spec.paths_cost(g, 800) > 800 {
                return None;
            }
        }
    }
    Some(spec)
}

/// What the library reports on inputs that it has parsed.
fn expected(
    spec: &Spec,
    fmt: usize,
    parsed: Vec<Result<twiggy_ir::Items, String>>,
    o: &mut Outcome,
    work: &mut u64,
) -> Option<Result<Vec<u8>, String>> {
    reported(spec.options(), fmt, parsed, o, work)
}

fn reported(
    opts: Result<twiggy_opt::Options, String>,
    fmt: usize,
    parsed: Vec<Result<twiggy_ir::Items, String>>,
    o: &mut Outcome,
    work: &mut u64,
) -> Option<Result<Vec<u8>, String>> {
    let mut it = parsed.into_iter();
    let first = it.next().expect("an input");
    Some(match (first, it.next()) {
        (Err(e), _) | (_, Some(Err(e))) => Err(e),
        (Ok(mut a), b) => {
            let mut b = b.map(|x| x.expect("checked"));
            let opts = match opts {
                Ok(o) => o,
                Err(e) => {
                    o.viols.push((vec![sess::ANY], format!("valid options are rejected: {}", e)));
                    return None;
                }
            };
            let (rep, _, n) = crate::env::measured(|| sess::guard(|| sess::analyse(&opts, &mut a, b.as_mut())));
            *work += n;
            match rep {
                Err(p) => Err(format!("panic: {}", p)),
                Ok(Err(e)) => Err(e.to_string()),
                Ok(Ok(rep)) => {
                    let mut out = vec![];
                    match sess::guard(|| rep.emit(&a, &mut out, FORMATS[fmt])) {
                        Ok(Ok(())) => Ok(out),
                        Ok(Err(e)) => Err(e.to_string()),
                        Err(p) => Err(format!("panic: {}", p)),
                    }
                }
            }
        }
    })
}

const OLD: &[u8] = b"This report was here before.\nIt is precious.\n";

impl Scene {
    /// `damage`: percent of scenes with a damaged input.
    fn draw(t: &mut Tape, o: &mut Outcome, damage: u64, elf: u64) -> Option<Scene> {
        let k = Knobs::draw(t);
        let w = ALL[t.weighted(&[3, 2, 2, 2, 2, 3])];
        let n = if w == What::Diff { 2 } else { 1 };
        let elf = elf > 0 && t.chance(elf, 100);
        let mut inputs = vec![];
        let mut graphs = vec![];
        let damaged = t.chance(damage, 100);
        let which = t.below(n);
        for i in 0..n {
            let (mut bytes, starts) = if elf && t.chance(1, 2) {
                let x = crate::dwarf::object(t, &k, true);
                o.log.push(format!("input {}: {}", i, x.desc));
                (x.bytes, vec![])
            } else if elf {
                let b = crate::elf::fixture(t.below(crate::elf::COUNT));
                (b, vec![])
            } else {
                let m = gen::module(t, &k);
                o.log.push(format!("input {}: {}", i, m.desc));
                (m.bytes.clone(), m.section_starts.clone())
            };
            if damaged && i == which && !elf {
                let d = sess::damage(t, &mut bytes, &starts, &mut o.stats);
                o.log.push(format!("input {} damaged: {}", i, d));
            }
            inputs.push(bytes);
        }
        let mode = if elf { ParseMode::Dwarf } else { ParseMode::Wasm };
        let parse = |b: &Vec<u8>| -> Result<twiggy_ir::Items, String> {
            match sess::guard(|| if !elf { twiggy_parser::parse(b) } else { crate::elf::parse(b, mode) }) {
                Ok(Ok(i)) => Ok(i),
                Ok(Err(e)) => Err(e.to_string()),
                Err(p) => Err(format!("panic: {}", p)),
            }
        };
        let (parsed, _, mut work) = crate::env::measured(|| inputs.iter().map(parse).collect::<Vec<_>>());
        for p in parsed.iter().flatten() {
            if let Ok(g) = Graph::of(p) {
                graphs.push(g);
            }
        }
        let spec = affordable(t, w, &graphs)?;
        let fmt = t.below(3);
        let want = expected(&spec, fmt, parsed, o, &mut work)?;

        let mut world = World::new();
        let cwd = world.path("work");
        // Names that say what the file is, or leave it to its contents.
        let auto_ok = |b: &Vec<u8>| b.starts_with(b"\0asm") || b.starts_with(b"\x7fELF");
        let style = t.weighted(&[5, 3, 2]);
        let style = if style == 1 && !inputs.iter().all(auto_ok) { 2 } else { style };
        let style = if elf && style == 0 { 2 } else { style };
        let names: Vec<String> = (0..n)
            .map(|i| {
                let base = ["in", "new"][i];
                match style {
                    0 => format!("{}.wasm", base),
                    1 => base.to_string(),
                    _ => format!("{}.bin", base),
                }
            })
            .collect();
        let absolute = t.chance(1, 3);
        let mut paths = vec![];
        for (nm, b) in names.iter().zip(&inputs) {
            let p = world.put(&format!("work/{}", nm), b);
            paths.push(if absolute { p.display().to_string() } else { nm.clone() });
        }
        let mut extra: Vec<String> = vec![];
        if fmt > 0 || t.chance(1, 4) {
            extra.push("-f".into());
            extra.push(FORMAT_NAMES[fmt].into());
        }
        if style == 2 {
            extra.push("--mode".into());
            extra.push(if elf { "dwarf" } else { "wasm" }.into());
        }
        let dest = t.weighted(&[3, 3, 2]);
        let mut out = None;
        let mut old_out = None;
        if dest > 0 {
            let p = cwd.join("report.txt");
            if dest == 1 {
                let mut b = OLD.to_vec();
                // Longer than the new report, sometimes.
                if t.chance(1, 2) {
                    for _ in 0..300 {
                        b.extend_from_slice(OLD);
                    }
                }
                std::fs::write(&p, &b).expect("old report");
                old_out = Some(b);
            }
            out = Some(if absolute { p.display().to_string() } else { "report.txt".into() });
            extra.push("-o".into());
            extra.push(out.clone().expect("just set"));
        }
        let args = spec.argv(&paths, &extra);
        let call = Call { args, inputs: paths, out, env: vec![("LANG".into(), "C".into())], cwd };
        o.log.push(format!("twiggy {}", call.args.iter().map(|a| if a.chars().all(|c| c.is_ascii_graphic()) { a.clone() } else { format!("{:?}", a) }).collect::<Vec<_>>().join(" ")));
        match &want {
            Ok(w) => o.log.push(format!("  library: a report of {} B", w.len())),
            Err(e) => o.log.push(format!("  library: {}", e)),
        }
        Some(Scene { world, call, spec, fmt, inputs, elf, want, work, old_out })
    }

    /// Put the output back as it was before the first run.
    fn reset(&self) {
        if let Some(o) = &self.call.out {
            let p = self.call.cwd.join(o);
            match &self.old_out {
                Some(b) => std::fs::write(p, b).expect("old report"),
                None => {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
    }

    fn run(&self, plan: &Plan, o: &mut Outcome) -> Res {
        self.reset();
        let r = self.world.run(&self.call, plan);
        o.log.push(format!(
            "  {}: {}; read {} B in {} calls, wrote {} B in {}{}",
            plan.describe(),
            r.how(),
            r.t.rbytes0 + r.t.rbytes1,
            r.t.reads,
            r.t.wbytes,
            r.t.writes,
            if r.stderr.is_empty() { String::new() } else { format!("; said {:?}", r.said()) }
        ));
        count(&mut o.stats, &r);
        o.seen.extend(r.t.words());
        o.seen.push(fnv(&r.stdout) ^ fnv(&r.stderr).rotate_left(17) ^ r.out.as_ref().map_or(1, |b| fnv(b)));
        o.shape.extend([r.t.calls, r.t.wbytes, r.t.rbytes0, r.t.rbytes1, r.t.mfailed, fnv(&r.stdout), r.out.as_ref().map_or(1, |b| fnv(b)), r.code.unwrap_or(-1) as u64]);
        o.nontrivial = true;
        r
    }

    /// What was delivered to the chosen destination.
    fn got<'a>(&self, r: &'a Res) -> &'a [u8] {
        match self.call.out {
            Some(_) => r.out.as_deref().unwrap_or(&[]),
            None => &r.stdout,
        }
    }

    /// Nothing was put out at all.
    fn untouched(&self, r: &Res) -> Result<(), String> {
        if !r.stdout.is_empty() {
            return Err(format!("there are {} bytes on standard output: {:?}", r.stdout.len(), String::from_utf8_lossy(&r.stdout[..r.stdout.len().min(60)])));
        }
        if self.call.out.is_some() && r.out != self.old_out {
            return Err(match (&self.old_out, &r.out) {
                (None, Some(b)) => format!("an output file of {} bytes was created", b.len()),
                (Some(a), Some(b)) => format!("the existing output file of {} bytes now has {}", a.len(), b.len()),
                _ => "the existing output file is gone".into(),
            });
        }
        Ok(())
    }

    /// Properties of every run.
    fn always(&self, r: &Res, o: &mut Outcome) {
        for t in &r.touched {
            o.viols.push((vec!["C03"], format!("a file that is not the output was touched: {}", t)));
        }
        if r.t.stray > 0 {
            o.viols.push((vec!["C03"], format!("an attempt to touch a file that is not the output: {}", r.t.path)));
        }
        if r.timeout {
            o.viols.push((vec![sess::ANY], "the tool does not come to an end".into()));
        }
    }
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, &x| (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3))
}

fn count(s: &mut Stats, r: &Res) {
    s.add("tool runs", 1);
    s.add("tool: system calls seen", r.t.calls);
    s.add("tool: short reads", r.t.rshort);
    s.add("tool: interrupted reads", r.t.rintr);
    s.add("tool: read errors", r.t.rerr);
    s.add("tool: open errors", r.t.openerr);
    s.add("tool: size queries failed or wrong", r.t.staterr);
    s.add("tool: output open errors", r.t.outerr);
    s.add("tool: short writes", r.t.wshort);
    s.add("tool: interrupted writes", r.t.wintr);
    s.add("tool: write errors", r.t.werr - r.t.wzero);
    s.add("tool: zero-length writes", r.t.wzero);
    s.add("tool: kills", r.t.killed);
    s.add("tool: runs out of memory", r.t.mfailed.min(1));
    s.add("tool: hash seeds drawn", r.t.hash);
    s.add("tool: clock reads", r.t.clock);
    s.add("tool: variables asked for", r.t.env);
    s.add("tool: terminals asked for", r.t.tty);
    s.add("tool: questions about inputs that are pipes", r.t.pipe);
}

fn benign(t: &mut Tape, p: &mut Plan, reads: bool, writes: bool) {
    p.seed = t.draw(1 << 32);
    p.hash = t.draw(1 << 32);
    p.clock = 1_600_000_000_000;
    if reads {
        p.rshort = [0, 100, 700, 1000][t.weighted(&[3, 2, 2, 2])];
        p.rintr = [0, 100, 500][t.weighted(&[3, 2, 1])];
    }
    if writes {
        p.wshort = [0, 100, 700, 1000][t.weighted(&[3, 2, 2, 2])];
        p.wintr = [0, 100, 500][t.weighted(&[3, 2, 1])];
        p.wmax = [0, 1, 7, 64][t.weighted(&[8, 1, 1, 1])];
    }
}

const WERR: [i32; 7] = [libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN, libc::EDQUOT, libc::EFBIG, 0];
const RERR: [i32; 5] = [libc::EIO, libc::EISDIR, libc::ESTALE, libc::ENOMEM, libc::EINVAL];
const OERR: [i32; 6] = [libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOMEM];

/// The library and the tool have to agree when nothing goes wrong. Returns
/// whether the tool succeeded.
fn sound(sc: &Scene, r: &Res, props: &[&'static str], o: &mut Outcome) -> bool {
    sc.always(r, o);
    match &sc.want {
        Ok(w) => {
            if r.code != Some(0) {
                o.viols.push((props.to_vec(), format!("{}: the tool should succeed: {}, {:?}", sc.spec.show(), r.how(), r.said())));
                return false;
            }
            if sc.got(r) != w.as_slice() {
                o.viols.push((props.to_vec(), format!("{}: exit 0, but what was delivered differs {}", sc.spec.show(), sess::where_differs(sc.got(r), w))));
                return false;
            }
            if sc.call.out.is_some() && !r.stdout.is_empty() {
                o.viols.push((props.to_vec(), "something is on standard output although the report goes to a file".into()));
            }
            true
        }
        Err(e) => {
            if r.code == Some(0) || r.signal.is_some() || r.stderr.is_empty() {
                o.viols.push((vec!["C04", "C03"], format!("the library fails with {:?}, the tool: {}, {:?}", e, r.how(), r.said())));
            }
            false
        }
    }
}

fn c01(t: &mut Tape, o: &mut Outcome) {
    let sc = match Scene::draw(t, o, 0, 4) {
        Some(s) => s,
        None => return,
    };
    let len = sc.want.as_ref().map_or(0, |w| w.len() as u64);
    for _ in 0..1 + t.draw(3) {
        let mut p = Plan::default();
        let writes_benign = t.chance(2, 3);
        benign(t, &mut p, false, writes_benign);
        match t.weighted(&[2, 8, 1]) {
            0 => {}
            1 => {
                let at = match t.weighted(&[6, 3, 2]) {
                    0 => t.draw(len + 1),
                    1 => len.saturating_sub(1 + t.small(8)),
                    _ => 0,
                };
                p.wfail = Some((at, *t.pick(&WERR), t.chance(1, 2)));
            }
            _ => p.outfail = Some(*t.pick(&OERR)),
        }
        let r = sc.run(&p, o);
        sc.always(&r, o);
        let hard = r.t.werr + r.t.outerr > 0;
        let full = sc.want.as_ref().map_or(false, |w| sc.got(&r) == w.as_slice());
        let tag = format!("{} as {}, {}", sc.spec.show(), FORMAT_NAMES[sc.fmt], p.describe());
        if !hard {
            sound(&sc, &r, &["C01"], o);
        } else if r.signal.is_some() || r.code == Some(101) {
            o.viols.push((vec!["C01"], format!("{}: the tool crashed: {}, {:?}", tag, r.how(), r.said())));
        } else if r.code == Some(0) {
            if !full {
                let w = sc.want.as_ref().map_or(&[][..], |w| w.as_slice());
                o.viols.push((vec!["C01"], format!("{}: exit 0, but what was delivered differs {}", tag, sess::where_differs(sc.got(&r), w))));
            }
        } else if r.stderr.is_empty() {
            o.viols.push((vec!["C01"], format!("{}: {} without a message", tag, r.how())));
        }
    }
}

fn c16(t: &mut Tape, o: &mut Outcome) {
    let sc = match Scene::draw(t, o, 5, 4) {
        Some(s) => s,
        None => return,
    };
    let n = sc.inputs.len() as u64;
    for _ in 0..1 + t.draw(3) {
        let mut p = Plan::default();
        benign(t, &mut p, true, false);
        let who = t.draw(n);
        let len = sc.inputs[who as usize].len() as u64;
        match t.weighted(&[4, 5, 2, 3]) {
            0 => {}
            1 => {
                let at = match t.weighted(&[5, 3, 1]) {
                    0 => t.draw(len + 1),
                    1 => len.saturating_sub(t.small(6)),
                    _ => 0,
                };
                p.rfail = Some((who, at, *t.pick(&RERR), t.chance(2, 3)));
            }
            2 => p.openfail = Some((who, *t.pick(&OERR), t.chance(2, 3))),
            _ => {}
        }
        if t.chance(1, 3) {
            p.stat = Some((who, 1 + t.draw(6)));
        }
        let r = sc.run(&p, o);
        sc.always(&r, o);
        let tag = format!("{} as {}, {}", sc.spec.show(), FORMAT_NAMES[sc.fmt], p.describe());
        let hard = r.t.rerr + r.t.openerr > 0;
        if r.code == Some(0) {
            // Also after an error that was got over: only the whole report will do.
            if hard && (p.rfail.map_or(false, |f| f.3) || p.openfail.map_or(false, |f| f.2)) {
                o.viols.push((vec!["C16"], format!("{}: exit 0 although an input could not be read", tag)));
                continue;
            }
            sound(&sc, &r, &["C16"], o);
            continue;
        }
        if r.signal.is_some() || r.code == Some(101) {
            o.viols.push((vec!["C16"], format!("{}: the tool crashed: {}, {:?}", tag, r.how(), r.said())));
        }
        let failing_stat = p.stat.map_or(false, |s| s.1 == 1 || s.1 == 5) && r.t.staterr > 0;
        if !hard && !failing_stat {
            sound(&sc, &r, &["C16"], o);
            continue;
        }
        if r.stderr.is_empty() {
            o.viols.push((vec!["C16"], format!("{}: {} without a message", tag, r.how())));
        }
        if let Err(e) = sc.untouched(&r) {
            o.viols.push((vec!["C16"], format!("{}: {}, but {}", tag, r.how(), e)));
        }
    }
}

fn c03(t: &mut Tape, o: &mut Outcome) {
    let kind = t.weighted(&[3, 3, 2, 3, 2, 5, 6]);
    let mut sc = match Scene::draw(t, o, if kind == 0 { 100 } else { 0 }, 3) {
        Some(s) => s,
        None => return,
    };
    let n = sc.inputs.len() as u64;
    match kind {
        0 => {
            // A damaged input, or one that is still accepted.
            let mut p = Plan::default();
            benign(t, &mut p, true, true);
            let r = sc.run(&p, o);
            sc.always(&r, o);
            if sc.want.is_err() {
                if r.code == Some(0) {
                    o.viols.push((vec!["C03"], format!("{}: exit 0 on an input the library rejects", sc.spec.show())));
                } else if let Err(e) = sc.untouched(&r) {
                    o.viols.push((vec!["C03"], format!("{}: a damaged input: {}, but {}", sc.spec.show(), r.how(), e)));
                }
            }
        }
        1 => {
            // Bad options or patterns.
            let how = t.below(5);
            let mut a = sc.spec.clone();
            let bad = ["(", "[z-a]", "*", "(?P<x", "\\"];
            let mut args = match how {
                0 | 1 if sc.spec.what != What::Top && sc.spec.what != What::Garbage => {
                    a.args = vec!["ok".into(), bad[t.below(bad.len())].into()];
                    a.regex = true;
                    a.argv(&sc.call.inputs, &sc.extra())
                }
                0 | 1 if sc.spec.what == What::Top => {
                    a.all = true;
                    a.argv(&sc.call.inputs, &sc.extra())
                }
                2 => {
                    let mut v = sc.call.args.clone();
                    v.insert(1, "--no-such-option".into());
                    v
                }
                3 => {
                    let mut v = sc.call.args.clone();
                    v.insert(1, "-f".into());
                    v.insert(2, "xml".into());
                    v
                }
                _ => {
                    let mut v = sc.call.args.clone();
                    v.retain(|x| x != &sc.call.inputs[0]);
                    let at = 1.min(v.len());
                    v.insert(at, "-n=many".into());
                    v
                }
            };
            std::mem::swap(&mut sc.call.args, &mut args);
            o.log.push(format!("twiggy {}", sc.call.args.join(" ")));
            let p = Plan::default();
            let r = sc.run(&p, o);
            sc.always(&r, o);
            if r.code == Some(0) || r.stderr.is_empty() {
                o.viols.push((vec!["C03"], format!("invalid options: {}, {:?}", r.how(), r.said())));
            } else if let Err(e) = sc.untouched(&r) {
                o.viols.push((vec!["C03"], format!("invalid options ({}): {}, but {}", sc.call.args.join(" "), r.how(), e)));
            }
        }
        2 | 3 | 4 => {
            let mut p = Plan::default();
            benign(t, &mut p, true, true);
            let who = t.draw(n);
            match kind {
                2 => p.openfail = Some((who, *t.pick(&OERR), true)),
                3 => p.rfail = Some((who, t.draw(sc.inputs[who as usize].len() as u64 + 1), *t.pick(&RERR), true)),
                _ => {
                    p.openfail = Some((who, libc::EINTR, false));
                    p.stat = Some((who, 1));
                }
            }
            let r = sc.run(&p, o);
            sc.always(&r, o);
            if r.code != Some(0) {
                if let Err(e) = sc.untouched(&r) {
                    o.viols.push((vec!["C03"], format!("{}: {}: {}, but {}", sc.spec.show(), p.describe(), r.how(), e)));
                }
            }
        }
        5 => {
            // Memory runs out while the report is being prepared.
            let mut p = Plan::default();
            benign(t, &mut p, true, false);
            for _ in 0..1 + t.draw(3) {
                p.mfail_at = 1 + t.draw(sc.work);
                let r = sc.run(&p, o);
                sc.always(&r, o);
                if r.code == Some(0) {
                    continue;
                }
                if let Err(e) = sc.untouched(&r) {
                    o.viols.push((vec!["C03"], format!("{}: {}: {}, but {}", sc.spec.show(), p.describe(), r.how(), e)));
                }
            }
        }
        _ => {
            // Killed somewhere.
            let mut p = Plan::default();
            benign(t, &mut p, true, true);
            let dry = sc.run(&p, o);
            if !sound(&sc, &dry, &["C01"], o) {
                return;
            }
            let calls = dry.t.calls.max(1);
            let want = sc.want.clone().unwrap_or_default();
            for _ in 0..1 + t.draw(4) {
                p.kill_at = 1 + t.draw(calls);
                let r = sc.run(&p, o);
                sc.always(&r, o);
                if r.t.killed == 0 {
                    continue;
                }
                let all_read = r.t.reof0 > 0 && (n < 2 || r.t.reof1 > 0);
                let before = !all_read || (r.t.outopen == 0 && r.t.writes == 0);
                let tag = format!("{}: {}", sc.spec.show(), p.describe());
                if before {
                    if let Err(e) = sc.untouched(&r) {
                        o.viols.push((vec!["C03"], format!("{}, before its report was ready, but {}", tag, e)));
                    }
                } else if sc.call.out.is_none() || r.t.outopen > 0 {
                    // What is there now is the beginning of the report.
                    let got = sc.got(&r);
                    if !want.starts_with(got) && Some(got.to_vec()) != sc.old_out {
                        o.viols.push((vec!["C03", "C01"], format!("{}: what is left is no beginning of the report", tag)));
                    }
                }
            }
        }
    }
}

impl Scene {
    fn extra(&self) -> Vec<String> {
        let mut e = vec!["-f".into(), FORMAT_NAMES[self.fmt].into()];
        if let Some(out) = &self.call.out {
            e.push("-o".into());
            e.push(out.clone());
        }
        e.push("--mode".into());
        e.push(if self.elf { "dwarf" } else { "wasm" }.into());
        e
    }
}

fn c05(t: &mut Tape, o: &mut Outcome) {
    let sc = match Scene::draw(t, o, 10, 15) {
        Some(s) => s,
        None => return,
    };
    let mut results: Vec<(String, Vec<u8>, Option<i32>, Vec<u8>)> = vec![];
    let mut sc = sc;
    for i in 0..2 + t.draw(2) {
        let mut p = Plan::default();
        benign(t, &mut p, true, true);
        p.clock = t.draw(4_000_000_000_000);
        p.pid = t.draw(1 << 22);
        if t.chance(1, 4) {
            p.stat = Some((t.draw(sc.inputs.len() as u64), [2, 3, 4, 6][t.below(4)]));
        }
        if t.chance(1, 3) {
            p.tty = Some((t.draw(8), [80, 20, 1, 250][t.below(4)]));
        }
        p.cpus = [0, 1, 2, 64][t.below(4)];
        if t.chance(1, 2) {
            p.env = 1 + t.draw(1 << 32);
        }
        let mut env = vec![];
        let vars: [(&str, &[&str]); 9] = [
            ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
            ("LC_ALL", &["C", "en_US.UTF-8"]),
            ("TERM", &["dumb", "xterm-256color"]),
            ("NO_COLOR", &["1"]),
            ("COLUMNS", &["20", "500"]),
            ("TZ", &["UTC", "Asia/Tokyo"]),
            ("HOME", &["/", "/nonexistent"]),
            ("RUST_LOG", &["trace"]),
            ("TWIGGY_FORMAT", &["json"]),
        ];
        for (k, vs) in vars {
            if t.chance(1, 3) {
                env.push((k.to_string(), t.pick(vs).to_string()));
            }
        }
        sc.call.env = env;
        // Elsewhere, from elsewhere.
        if i > 0 && t.chance(1, 2) {
            let mut again = sc.call.clone();
            let to_abs = |c: &Call, x: &String| if x.starts_with('/') { x.clone() } else { c.cwd.join(x).display().to_string() };
            for k in 0..again.inputs.len() {
                let abs = to_abs(&sc.call, &again.inputs[k]);
                // Not among the patterns, which come last.
                let upto = again.args.len() - sc.spec.args.len();
                for a in again.args[..upto].iter_mut() {
                    if *a == again.inputs[k] {
                        *a = abs.clone();
                    }
                }
                again.inputs[k] = abs;
            }
            if let Some(out) = &again.out {
                let abs = to_abs(&sc.call, out);
                let upto = again.args.len() - sc.spec.args.len();
                for a in again.args[..upto].iter_mut() {
                    if a == out {
                        *a = abs.clone();
                    }
                }
                again.out = Some(abs);
            }
            again.cwd = sc.world.path("work/sub");
            sc.call = again;
        }
        // The same bytes under another name.
        if i > 0 && t.chance(1, 3) {
            let moded = sc.call.args.iter().any(|a| a == "--mode");
            for k in 0..sc.inputs.len() {
                let ext = Path::new(&sc.call.inputs[k]).extension().map(|e| e.to_string_lossy().to_string());
                let ext = match ext {
                    _ if moded => ["wasm", "o", "bin", ""][t.below(4)].to_string(),
                    e => e.unwrap_or_default(),
                };
                let stem = ["z", "A long name, with blanks", "old", "\u{e9}\u{4e2d}", "a.b", "report"][t.below(6)];
                let name = format!("{}{}{}{}", i, ["_", "-"][k], stem, if ext.is_empty() { String::new() } else { format!(".{}", ext) });
                // A name with a dot in it has an extension.
                let name = if ext.is_empty() { name.replace('.', "") } else { name };
                let b = sc.inputs[k].clone();
                let p = sc.world.put(&format!("work/sub/{}", name), &b).display().to_string();
                let upto = sc.call.args.len() - sc.spec.args.len();
                for a in sc.call.args[..upto].iter_mut() {
                    if *a == sc.call.inputs[k] {
                        *a = p.clone();
                    }
                }
                sc.call.inputs[k] = p;
            }
        }
        // Another kind of destination.
        if t.chance(1, 4) {
            let at = sc.call.args.iter().position(|a| a == "-o");
            match (at, &sc.call.out) {
                (Some(at), Some(_)) => {
                    sc.reset();
                    let p = sc.call.cwd.join(sc.call.out.clone().unwrap_or_default());
                    let _ = std::fs::remove_file(p);
                    sc.call.args.drain(at..at + 2);
                    sc.call.out = None;
                }
                _ => {
                    let at = 1;
                    sc.call.args.insert(at, "-o".into());
                    sc.call.args.insert(at + 1, "report.txt".into());
                    sc.call.out = Some("report.txt".into());
                    sc.old_out = None;
                }
            }
        }
        let r = sc.run(&p, o);
        sc.always(&r, o);
        if r.t.hash > 0 {
            o.stats.add("tool: runs with their own hash seeds", 1);
        }
        let env: Vec<String> = sc.call.env.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        results.push((format!("{} in {} with {}", sc.call.args.join(" "), sc.call.cwd.display(), env.join(" ")), if r.code == Some(0) { sc.got(&r).to_vec() } else { vec![] }, r.code, r.stderr.clone()));
    }
    if let Ok(w) = &sc.want {
        for (how, got, code, _) in &results {
            if *code != Some(0) || got != w {
                o.viols.push((vec!["C05"], format!("{}: status {:?}, differs from the library's report {}", how, code, sess::where_differs(got, w))));
            }
        }
    }
    for r in &results[1..] {
        if r.1 != results[0].1 || r.2 != results[0].2 {
            o.viols.push((
                vec!["C05"],
                format!("{} and {} differ: status {:?} and {:?}, {}", results[0].0, r.0, results[0].2, r.2, sess::where_differs(&r.1, &results[0].1)),
            ));
        }
    }
}

fn c04(t: &mut Tape, o: &mut Outcome) {
    if t.chance(1, 400) {
        return deep(t, o);
    }
    let sc = match Scene::draw(t, o, 100, 0) {
        Some(s) => s,
        None => return,
    };
    let mut p = Plan::default();
    benign(t, &mut p, true, true);
    let r = sc.run(&p, o);
    sc.always(&r, o);
    let tag = sc.spec.show();
    if r.signal.is_some() || r.code == Some(101) || r.timeout {
        o.viols.push((vec!["C04"], format!("{}: the tool crashed on a damaged input: {}, {:?}", tag, r.how(), r.said())));
    } else if r.t.huge > 0 {
        o.viols.push((vec!["C04"], format!("{}: a huge allocation on a damaged input", tag)));
    } else if r.code == Some(0) {
        if let Ok(w) = &sc.want {
            if sc.got(&r) != w.as_slice() {
                o.viols.push((vec!["C04", "C01"], format!("{}: exit 0, but the report differs from the library's", tag)));
            }
        } else {
            o.viols.push((vec!["C04"], format!("{}: exit 0 on an input the library rejects", tag)));
        }
    } else {
        if sc.want.is_ok() {
            o.viols.push((vec!["C04", "C01"], format!("{}: {} on an input the library accepts: {:?}", tag, r.how(), r.said())));
        }
        if r.stderr.is_empty() {
            o.viols.push((vec!["C04"], format!("{}: {} without a message", tag, r.how())));
        }
        if let Err(e) = sc.untouched(&r) {
            o.viols.push((vec!["C04", "C03"], format!("{}: {}, but {}", tag, r.how(), e)));
        }
    }
}

/// Calls that go tens of thousands of functions deep, on the stack a process
/// is given.
fn deep(t: &mut Tape, o: &mut Outcome) {
    use std::os::unix::process::CommandExt;
    let few = t.small(9).to_string();
    let (most, args): (u64, Vec<&str>) = match t.weighted(&[3, 1, 1, 1, 1, 1, 1]) {
        0 => (100_000, vec!["top", "--retained"]),
        1 => (60_000, vec!["top"]),
        2 => (60_000, vec!["garbage"]),
        3 => (60_000, vec!["monos"]),
        4 => (20_000, vec!["paths", "-d", &few]),
        5 => (60_000, vec!["paths", "--descending", "-d", &few]),
        _ => (40_000, vec!["dominators", "-d", &few]),
    };
    let n = t.range(most / 2, most);
    let fmt = *t.pick(&["text", "json", "csv"]);
    // Limits apply to no other format.
    let fmt = if args[0] == "dominators" { "text" } else { fmt };
    let p = crate::elf::scratch().join("deep.wasm");
    std::fs::write(&p, chain(n)).expect("scratch file");
    o.log.push(format!("a chain of {} functions: {} -f {}", n, args.join(" "), fmt));
    o.stats.add("long chains of calls", 1);
    o.shape.push(n);
    let mut cmd = Command::new(tool());
    cmd.args(&args).args(["-f", fmt]).arg(&p).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 150, rlim_max: 150 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
            libc::setrlimit(libc::RLIMIT_STACK, &l);
            Ok(())
        });
    }
    let r = cmd.spawn().and_then(|k| k.wait_with_output()).expect("the tool");
    o.nontrivial = true;
    if !r.status.success() {
        let said = String::from_utf8_lossy(&r.stderr).trim().replace('\n', " ");
        let m = format!("{} -f {} of a chain of {} functions: {}, {:?}", args.join(" "), fmt, n, r.status, said);
        o.viols.push((vec!["C04"], m));
    }
}

/// Parse as one kind, whatever the file is called.
fn parse_as(b: &Vec<u8>, wasm: bool) -> Result<twiggy_ir::Items, String> {
    match sess::guard(|| if wasm { twiggy_parser::parse(b) } else { crate::elf::parse(b, ParseMode::Dwarf) }) {
        Ok(Ok(i)) => Ok(i),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

fn shell(args: &[String]) -> String {
    args.iter().map(|a| if !a.is_empty() && a.chars().all(|c| c.is_ascii_graphic()) { a.clone() } else { format!("{:?}", a) }).collect::<Vec<_>>().join(" ")
}

/// What kind of file the input is taken for.
fn c20(t: &mut Tape, o: &mut Outcome) {
    let k = Knobs::draw(t);
    let w = ALL[t.weighted(&[6, 1, 1, 2, 2, 4])];
    let n = if w == What::Diff { 2 } else { 1 };
    let mode = [None, Some("auto"), Some("wasm"), Some("dwarf")][t.weighted(&[6, 2, 2, 2])];
    let mut world = World::new();
    std::fs::create_dir_all(world.path("work/dir.wasm")).expect("world");
    let mut inputs: Vec<Vec<u8>> = vec![];
    let mut paths: Vec<String> = vec![];
    let mut wasm = vec![];
    let absolute = t.chance(1, 4);
    // A diff is more telling if both sides can be parsed.
    let usual = t.chance(1, 2);
    for i in 0..n {
        let what = t.weighted(if usual { &[5, 0, 5, 0, 0, 0, 0, 0, 0] } else { &[6, 1, 4, 1, 1, 1, 1, 2, 2] });
        let (bytes, desc) = match what {
            0 | 1 => {
                let m = gen::module(t, &k);
                let mut b = m.bytes.clone();
                let mut d = m.desc.clone();
                if what == 1 {
                    d = sess::damage(t, &mut b, &m.section_starts, &mut o.stats);
                }
                (b, d)
            }
            2 => {
                let x = crate::dwarf::object(t, &k, true);
                (x.bytes, x.desc)
            }
            3 => {
                let x = crate::dwarf::object(t, &k, true);
                x.lose(t, &mut o.stats)
            }
            4 => (crate::elf::fixture(t.below(crate::elf::COUNT)), "an object file".to_string()),
            5 => (b"This is not a binary.\n".to_vec(), "text".to_string()),
            6 => (vec![], "nothing".to_string()),
            7 => {
                // The beginning of a module, or of none.
                let mut b = b"\0asm\x01\0\0\0".to_vec();
                b.truncate(t.below(9));
                if t.chance(1, 4) {
                    b.extend_from_slice(b"\0\x05\x01a\x01\x02\x03");
                }
                (b, "the beginning of a module".to_string())
            }
            _ => {
                // Almost a module, with the rest of one.
                let m = gen::module(t, &k);
                let mut b = m.bytes.clone();
                let at = t.below(8);
                b[at] ^= 1 << t.below(8);
                (b, format!("a module whose byte {} is wrong", at))
            }
        };
        let stem = ["in", "new"][i];
        let name = match t.weighted(&[6, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => format!("{}.wasm", stem),
            1 => stem.to_string(),
            2 => format!("{}.o", stem),
            3 => format!("{}.WASM", stem),
            4 => format!("{}.wasm.bak", stem),
            5 => format!("{}.", stem),
            6 => format!("dir.wasm/{}", stem),
            7 => format!("{}.wasm ", stem),
            8 => format!("{}.was", stem),
            9 => format!("{}.wasm.wasm", stem),
            10 => format!("{}wasm", stem),
            11 => format!("{}.so.wasm", stem),
            _ => format!("{}\u{e9}.wasm", stem),
        };
        let by_name = name.ends_with(".wasm");
        let as_wasm = match mode {
            Some("wasm") => true,
            Some("dwarf") => false,
            _ => by_name || bytes.starts_with(b"\0asm"),
        };
        o.log.push(format!("input {}: {:?}, {}; to be read as {}", i, name, desc, if as_wasm { "WebAssembly" } else { "a native object" }));
        let p = world.put(&format!("work/{}", name), &bytes);
        paths.push(if absolute { p.display().to_string() } else { name });
        inputs.push(bytes);
        wasm.push(as_wasm);
    }
    o.stats.add(
        match (mode, wasm[0]) {
            (Some("wasm"), _) => "kind: WebAssembly by option",
            (Some("dwarf"), _) => "kind: native by option",
            (_, true) if paths[0].ends_with(".wasm") => "kind: WebAssembly by name",
            (_, true) => "kind: WebAssembly by content",
            _ => "kind: native, for nothing else",
        },
        1,
    );
    let mut work = 0;
    let parsed: Vec<_> = inputs.iter().zip(&wasm).map(|(b, &w)| parse_as(b, w)).collect();
    let graphs: Vec<Graph> = parsed.iter().flatten().filter_map(|p| Graph::of(p).ok()).collect();
    let spec = match affordable(t, w, &graphs) {
        Some(s) => s,
        None => return,
    };
    let fmt = t.below(3);
    let want = match expected(&spec, fmt, parsed, o, &mut work) {
        Some(w) => w,
        None => return,
    };
    let cwd = world.path("work");
    let mut extra: Vec<String> = vec!["-f".into(), FORMAT_NAMES[fmt].into()];
    if let Some(m) = mode {
        extra.push(if w == What::Monos && t.chance(1, 2) { "-d" } else { "--mode" }.into());
        extra.push(m.into());
    }
    let mut out = None;
    let mut old_out = None;
    if t.chance(1, 2) {
        if t.chance(1, 2) {
            std::fs::write(cwd.join("report.txt"), OLD).expect("old report");
            old_out = Some(OLD.to_vec());
        }
        out = Some("report.txt".to_string());
        extra.push("-o".into());
        extra.push("report.txt".into());
    }
    let args = spec.argv(&paths, &extra);
    o.log.push(format!("twiggy {}", shell(&args)));
    let call = Call { args, inputs: paths, out, env: vec![("LANG".into(), "C".into())], cwd };
    let sc = Scene { world, call, spec, fmt, inputs, elf: !wasm[0], want, work, old_out };
    for _ in 0..1 + t.draw(2) {
        let mut p = Plan::default();
        benign(t, &mut p, true, true);
        if t.chance(1, 3) {
            // Said to be a pipe, or of another size.
            p.stat = Some((t.draw(n as u64), [2, 3, 4, 6][t.below(4)]));
        }
        if t.chance(1, 8) {
            p.rfail = Some((t.draw(n as u64), t.draw(8), *t.pick(&RERR), true));
        }
        let r = sc.run(&p, o);
        sc.always(&r, o);
        let tag = format!("{}: {}", shell(&sc.call.args), p.describe());
        if r.t.rerr > 0 {
            if r.code == Some(0) || r.signal.is_some() || r.code == Some(101) || r.stderr.is_empty() {
                o.viols.push((vec!["C20", "C16"], format!("{}: {}, {:?}", tag, r.how(), r.said())));
            } else if let Err(e) = sc.untouched(&r) {
                o.viols.push((vec!["C20", "C16"], format!("{}: {}, but {}", tag, r.how(), e)));
            }
            continue;
        }
        match &sc.want {
            Ok(w) if r.code != Some(0) => {
                let _ = w;
                o.viols.push((vec!["C20"], format!("{}: this kind of file is fine, but {}, {:?}", tag, r.how(), r.said())));
            }
            Ok(w) if sc.got(&r) != w.as_slice() => {
                o.viols.push((vec!["C20"], format!("{}: not the report for this kind of file {}", tag, sess::where_differs(sc.got(&r), w))));
            }
            Ok(_) => {}
            // What crashes the library is another property's business.
            Err(e) if e.starts_with("panic") => {}
            Err(e) => {
                if r.code == Some(0) || r.signal.is_some() || r.code == Some(101) || r.stderr.is_empty() {
                    o.viols.push((vec!["C20"], format!("{}: should fail with {:?}, but {}, {:?}", tag, e, r.how(), r.said())));
                } else if let Err(e) = sc.untouched(&r) {
                    o.viols.push((vec!["C20"], format!("{}: {}, but {}", tag, r.how(), e)));
                }
            }
        }
    }
}

/// What the command line says.
fn c19(t: &mut Tape, o: &mut Outcome) {
    let mut k = Knobs::draw(t);
    let w = *t.pick(&ALL);
    k.deep |= w == What::Paths && t.chance(1, 4);
    let n = if w == What::Diff { 2 } else { 1 };
    let elf = t.chance(1, 12);
    let mut inputs: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let (b, d) = if elf {
            let x = crate::dwarf::object(t, &k, true);
            (x.bytes, x.desc)
        } else {
            let m = gen::module(t, &k);
            (m.bytes.clone(), m.desc.clone())
        };
        o.log.push(format!("input {}: {}", i, d));
        inputs.push(b);
    }
    let parse = || inputs.iter().map(|b| parse_as(b, !elf)).collect::<Vec<_>>();
    let parsed = parse();
    let graphs: Vec<Graph> = parsed.iter().flatten().filter_map(|p| Graph::of(p).ok()).collect();
    if graphs.len() != n {
        return;
    }
    let mut spec = match affordable(t, w, &graphs) {
        Some(s) => s,
        None => return,
    };
    // Arguments that have to follow `--` are another form of their own.
    let guarded = t.chance(1, 4);
    if !guarded {
        for a in &mut spec.args {
            if a.is_empty() || a.starts_with('-') {
                *a = "zed".into();
            }
        }
    }
    let mut world = World::new();
    let cwd = world.path("work");
    let ext = if elf { "o" } else { *t.pick(&["wasm", "wasm", "bin"]) };
    let mut paths = vec![];
    for (i, b) in inputs.iter().enumerate() {
        let name = format!("{}.{}", ["in", "new"][i], ext);
        let p = world.put(&format!("work/{}", name), b);
        paths.push(if t.chance(1, 5) { p.display().to_string() } else { name });
    }
    let mut out = None;
    let mut old_out = None;
    if t.chance(1, 3) {
        if t.chance(2, 3) {
            std::fs::write(cwd.join("report.txt"), OLD).expect("old report");
            old_out = Some(OLD.to_vec());
        }
        out = Some("report.txt".to_string());
    }
    let call = Call { args: vec![], inputs: paths.clone(), out: out.clone(), env: vec![("LANG".into(), "C".into())], cwd };
    let mut sc = Scene { world, call, spec, fmt: 0, inputs: inputs.clone(), elf, want: Ok(vec![]), work: 0, old_out };
    let mut plan = Plan::default();
    benign(t, &mut plan, true, true);

    if t.chance(1, 4) {
        // Something is wrong with it.
        let mut words = sc.spec.spell(t, &paths, None, out.as_deref(), None, guarded);
        let how = crate::spec::spoil(t, w, &mut words, guarded);
        o.log.push(format!("twiggy {} ({})", shell(&words), how));
        o.stats.add("command lines with a mistake", 1);
        sc.call.args = words;
        let r = sc.run(&plan, o);
        sc.always(&r, o);
        let tag = format!("`{}` ({})", shell(&sc.call.args), how);
        if r.code == Some(0) {
            o.viols.push((vec!["C19"], format!("{}: is accepted", tag)));
        } else if r.signal.is_some() || r.code == Some(101) || r.stderr.is_empty() {
            o.viols.push((vec!["C19"], format!("{}: {}, {:?}", tag, r.how(), r.said())));
        } else if let Err(e) = sc.untouched(&r) {
            o.viols.push((vec!["C19"], format!("{}: {}, but {}", tag, r.how(), e)));
        }
        return;
    }
    // The same in every format, spelled differently every time.
    let mut outs = crate::oracle::Outs::default();
    let mut parsed = Some(parsed);
    for fmt in 0..3 {
        sc.fmt = fmt;
        let given = if fmt > 0 || t.chance(1, 2) { Some(FORMAT_NAMES[fmt]) } else { None };
        let mode = if t.chance(1, 3) { Some(*t.pick(&["auto", if elf { "dwarf" } else { "wasm" }])) } else { None };
        sc.call.args = sc.spec.spell(t, &paths, given, out.as_deref(), mode, guarded);
        o.log.push(format!("twiggy {}", shell(&sc.call.args)));
        o.stats.add("command lines spelled", 1);
        let p = parsed.take().unwrap_or_else(parse);
        let mut work = 0;
        // The library is told the same, in words or in code.
        let opts = if t.chance(1, 2) { sc.spec.options() } else { sc.spec.coded(t) };
        let want = match reported(opts, fmt, p, o, &mut work) {
            Some(Ok(w)) => w,
            _ => return,
        };
        let r = sc.run(&plan, o);
        sc.always(&r, o);
        let tag = format!("`{}`", shell(&sc.call.args));
        if r.code != Some(0) {
            o.viols.push((vec!["C19"], format!("{}: is not accepted: {}, {:?}", tag, r.how(), r.said())));
            return;
        }
        if sc.got(&r) != want.as_slice() {
            o.viols.push((vec!["C19"], format!("{}: is not what `{}` as {} gives {}", tag, sc.spec.show(), FORMAT_NAMES[fmt], sess::where_differs(sc.got(&r), &want))));
            return;
        }
        if out.is_some() && !r.stdout.is_empty() {
            o.viols.push((vec!["C19"], format!("{}: something is on standard output", tag)));
        }
        let got = sc.got(&r).to_vec();
        match fmt {
            0 => outs.text = got,
            1 => outs.json = got,
            _ => outs.csv = got,
        }
    }
    // And it is what these options should give.
    let d = graphs[0].dominators();
    let case = crate::oracle::Case { g: &graphs[0], d: &d, spec: &sc.spec, new: graphs.get(1) };
    o.stats.add("reports checked against the model", 3);
    if let Err(e) = crate::oracle::check(&case, &outs) {
        let mut ps = e.props.clone();
        ps.push("C19");
        o.viols.push((ps, format!("`{}`: {}", sc.spec.show(), e.msg)));
    }
}

pub fn run(pid: &str, t: &mut Tape) -> Outcome {
    let mut o = Outcome::default();
    match pid {
        "C01" => c01(t, &mut o),
        "C03" => c03(t, &mut o),
        "C04" => c04(t, &mut o),
        "C05" => c05(t, &mut o),
        "C19" => c19(t, &mut o),
        "C20" => c20(t, &mut o),
        _ => c16(t, &mut o),
    }
    o.shape.push(mix(1, t.rec.len() as u64));
    o
}

/// A module in which each of `n` functions calls the next.
fn chain(n: u64) -> Vec<u8> {
    fn leb(mut x: u64, b: &mut Vec<u8>) {
        while x >= 128 {
            b.push(x as u8 | 128);
            x >>= 7;
        }
        b.push(x as u8);
    }
    let mut out = b"\0asm\x01\0\0\0".to_vec();
    let mut section = |id: u8, count: u64, body: &[u8]| {
        let mut b = vec![];
        leb(count, &mut b);
        b.extend_from_slice(body);
        out.push(id);
        leb(b.len() as u64, &mut out);
        out.extend_from_slice(&b);
    };
    section(1, n, &b"\x60\0\0".repeat(n as usize));
    let mut f = vec![];
    (0..n).for_each(|i| leb(i, &mut f));
    section(3, n, &f);
    section(7, 1, b"\x01a\0\0");
    let mut code = vec![];
    for i in 0..n {
        let mut c = vec![0];
        if i + 1 < n {
            c.push(0x10);
            leb(i + 1, &mut c);
        }
        c.push(0x0b);
        leb(c.len() as u64, &mut code);
        code.extend_from_slice(&c);
    }
    section(10, n, &code);
    out
}

/// Does the tool overflow its stack on a chain of calls?
pub fn overflows(n: u64, args: &[&str]) -> bool {
    let p = crate::elf::scratch().join(format!("chain-{}-{}.wasm", n, args.len()));
    if std::fs::write(&p, chain(n)).is_err() {
        return false;
    }
    let kid = Command::new(tool()).args(args).arg(&p).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn();
    let r = kid.and_then(|k| k.wait_with_output());
    r.map_or(false, |o| o.status.signal().is_some() && String::from_utf8_lossy(&o.stderr).contains("overflowed its stack"))
}
