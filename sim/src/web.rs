//! Sessions of a JavaScript caller with the WebAssembly build, played by
//! web/web.js on an instance of its own, against the native library.

use crate::gen::{self, Knobs};
use crate::model::Graph;
use crate::out::{self, J};
use crate::props::Outcome;
use crate::sess::{analyse, damage, guard, where_differs};
use crate::spec::{Spec, What};
use crate::tape::{mix, Tape};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use twiggy_traits::OutputFormat;

struct Node {
    kid: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

static NODE: Mutex<Option<Node>> = Mutex::new(None);

fn node() -> Node {
    use std::os::unix::process::CommandExt;
    let v = crate::driver::verif_dir();
    let mut cmd = Command::new("node");
    cmd.arg("--expose-gc")
        .arg(v.join("web/web.js"))
        .arg(v.join("build/web/wasm32-unknown-unknown/debug/twiggy_wasm_api.wasm"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut kid = cmd.spawn().expect("node");
    let to = kid.stdin.take().expect("stdin");
    let from = BufReader::new(kid.stdout.take().expect("stdout"));
    Node { kid, to, from }
}

/// To be called on a thread that lives as long as the process.
pub fn start() {
    *NODE.lock().unwrap() = Some(node());
}

pub fn stop() {
    if let Some(mut n) = NODE.lock().unwrap().take() {
        let _ = n.kid.kill();
        let _ = n.kid.wait();
    }
}

fn play(session: &str) -> J {
    let mut g = NODE.lock().unwrap();
    let n = g.as_mut().expect("started");
    let mut line = vec![];
    n.to.write_all(session.as_bytes()).and_then(|()| n.to.write_all(b"\n")).expect("to node");
    n.to.flush().expect("to node");
    n.from.read_until(b'\n', &mut line).expect("from node");
    out::json(&line).unwrap_or_else(|e| panic!("node says {:?}: {}", String::from_utf8_lossy(&line), e))
}

/// Whether the smallest modules with a length near 4 GiB trap at `site`.
pub fn traps(site: &str) -> bool {
    const FUNCTION: &[u8] = b"\x01\x04\x01\x60\0\0\x03\x02\x01\x00\x0a\x04\x01\x02\x00\x0b";
    const LONG: &[u8] = b"\xff\xff\xff\xff\x0f";
    let modules: [[&[u8]; 3]; 3] =
        [[b"\x00", LONG, b"\x01a"], [b"\x00\x0b\x04name\x01", LONG, b""], [FUNCTION, b"\x0b\x07\x01\x01", LONG]];
    start();
    let all: Vec<String> = modules
        .iter()
        .map(|m| format!("\"{}\"", hex(&[&b"\0asm\x01\0\0\0"[..], m[0], m[1], m[2]].concat())))
        .collect();
    let hit = (0..all.len()).any(|i| {
        let a = play(&format!("{{\"files\":[{}],\"ops\":[{{\"parse\":{},\"into\":0}}]}}", all.join(","), i));
        let outs = a.arr("out").unwrap_or(&[]);
        matches!(outs.first().and_then(|x| string(x, "trap")), Some(m) if String::from_utf8_lossy(&m).contains(site))
    });
    stop();
    hit
}

fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if c < ' ' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// The setters that say what the command line of `s` says, and the getters
/// with what they should tell.
fn setters(t: &mut Tape, s: &Spec) -> (Vec<String>, Vec<(String, u64)>) {
    let mut set: Vec<(String, String)> = vec![];
    let mut get: Vec<(String, u64)> = vec![];
    let num = |set: &mut Vec<(String, String)>, get: &mut Vec<(String, u64)>, n: &str, x: Option<u32>| {
        if let Some(x) = x {
            set.push((format!("set_{}", n), x.to_string()));
            get.push((n.to_string(), u64::from(x)));
        }
    };
    let on = |set: &mut Vec<(String, String)>, get: &mut Vec<(String, u64)>, n: &str, x: bool| {
        if x {
            set.push((format!("set_{}", n), "true".into()));
        }
        get.push((n.to_string(), u64::from(x)));
    };
    match s.what {
        What::Top => {
            num(&mut set, &mut get, "max_items", s.limit);
            on(&mut set, &mut get, "retained", s.flag);
            on(&mut set, &mut get, "retaining_paths", s.all);
        }
        What::Dominators => {
            num(&mut set, &mut get, "max_rows", s.limit);
            num(&mut set, &mut get, "max_depth", s.limit2);
            on(&mut set, &mut get, "using_regexps", s.regex);
        }
        What::Paths => {
            num(&mut set, &mut get, "max_paths", s.limit);
            num(&mut set, &mut get, "max_depth", s.limit2);
            on(&mut set, &mut get, "descending", s.flag);
            on(&mut set, &mut get, "using_regexps", s.regex);
        }
        What::Monos => {
            num(&mut set, &mut get, "max_generics", s.limit);
            num(&mut set, &mut get, "max_monos", s.limit2);
            on(&mut set, &mut get, "only_generics", s.flag);
        }
        What::Diff | What::Garbage => {
            num(&mut set, &mut get, "max_items", s.limit);
            on(&mut set, &mut get, "using_regexps", s.regex);
        }
    }
    // In any order, sometimes set to something else first.
    let mut out = vec![];
    if t.chance(1, 4) {
        for (n, x) in &set {
            let other = match x.as_str() {
                "true" => "false".to_string(),
                _ => t.small(20).to_string(),
            };
            out.push((n.clone(), other));
        }
    }
    while !set.is_empty() {
        let i = t.below(set.len());
        out.push(set.remove(i));
    }
    for a in &s.args {
        let at = t.below(out.len() + 1);
        // Functions are added one by one, in order.
        let at = out.iter().rposition(|(n, _)| n == "add_function").map_or(at, |p| at.max(p + 1));
        out.insert(at, ("add_function".into(), quoted(a)));
    }
    (out.iter().map(|(n, v)| format!("[{},{}]", quoted(n), v)).collect(), get)
}

enum Want {
    /// The report, and what the getters tell.
    Json(Vec<u8>, Vec<(String, u64)>),
    Error(String),
    Done,
}

struct Op {
    show: String,
    want: Want,
    files: Vec<usize>,
}

fn native(a: &[u8], b: Option<&[u8]>, s: &Spec) -> Result<Want, String> {
    let o = s.options()?;
    guard(|| {
        let mut items = match twiggy_parser::parse(a) {
            Ok(i) => i,
            Err(e) => return Want::Error(e.to_string()),
        };
        let mut new = b.map(|b| twiggy_parser::parse(b).expect("parsed before"));
        match analyse(&o, &mut items, new.as_mut()) {
            Ok(r) => {
                let mut out = vec![];
                r.emit(&items, &mut out, OutputFormat::Json).expect("emission to memory");
                Want::Json(out, vec![])
            }
            Err(e) => Want::Error(e.to_string()),
        }
    })
}

fn string(b: &J, k: &str) -> Option<Vec<u8>> {
    match b.get(k) {
        Some(J::Str(s)) => Some(s.chars().map(|c| c as u32 as u8).collect()),
        _ => None,
    }
}

pub fn run(t: &mut Tape) -> Outcome {
    let mut o = Outcome::default();
    let v: &[&'static str] = &["C17"];

    // Inputs.
    struct File {
        bytes: Vec<u8>,
        g: Option<Graph>,
        error: Option<String>,
    }
    let mut files: Vec<File> = vec![];
    let n = 1 + t.below(3);
    for i in 0..n {
        let k = Knobs::draw(t);
        let m = gen::module(t, &k);
        let mut bytes = m.bytes.clone();
        o.log.push(format!("file {}: {}", i, m.desc));
        if t.chance(3, 10) {
            let d = damage(t, &mut bytes, &m.section_starts, &mut o.stats);
            o.log.push(format!("  damaged: {}", d));
        }
        let (g, error) = match guard(|| twiggy_parser::parse(&bytes)) {
            Ok(Ok(items)) => match Graph::of(&items) {
                Ok(g) => (Some(g), None),
                // Another property's business.
                Err(_) => return o,
            },
            Ok(Err(e)) => (None, Some(e.to_string())),
            Err(_) => return o,
        };
        o.shape.push(bytes.len() as u64);
        files.push(File { bytes, g, error });
    }

    // What the caller does, and what should come of it.
    let mut keys: Vec<Option<usize>> = vec![None; 4];
    let mut ops: Vec<Op> = vec![];
    let mut sent: Vec<String> = vec![];
    let nops = 2 + t.below(10);
    while ops.len() < nops {
        let live: Vec<usize> = (0..keys.len()).filter(|&k| keys[k].is_some()).collect();
        let what = if live.is_empty() { 1 } else { t.weighted(&[8, 3, 1, 1]) };
        match what {
            1 => {
                let Some(k) = keys.iter().position(|k| k.is_none()) else { continue };
                let f = t.below(files.len());
                sent.push(format!("{{\"parse\":{},\"into\":{}}}", f, k));
                let want = match &files[f].error {
                    Some(e) => Want::Error(e.clone()),
                    None => {
                        keys[k] = Some(f);
                        Want::Done
                    }
                };
                o.stats.add("web: parses", 1);
                ops.push(Op { show: format!("parse file {} as items {}", f, k), want, files: vec![f] });
            }
            2 => {
                let k = live[t.below(live.len())];
                keys[k] = None;
                sent.push(format!("{{\"free\":{}}}", k));
                o.stats.add("web: items freed", 1);
                ops.push(Op { show: format!("free items {}", k), want: Want::Done, files: vec![] });
            }
            _ => {
                let k = live[t.below(live.len())];
                let f = keys[k].expect("live");
                let g = files[f].g.as_ref().expect("parsed");
                let mut w = [What::Top, What::Dominators, What::Paths, What::Monos, What::Diff][t.below(5)];
                let others: Vec<usize> = live.iter().copied().filter(|&x| x != k).collect();
                if w == What::Diff && others.is_empty() {
                    w = What::Top;
                }
                let mut s = if what == 3 {
                    // Must fail; the interface offers patterns for paths only.
                    let mut s = Spec::failing(t);
                    if s.what != What::Top {
                        s.what = What::Paths;
                    }
                    s
                } else {
                    Spec::draw(t, w, &g.names, &[])
                };
                // What the interface does not offer.
                if s.what != What::Top {
                    s.all = false;
                }
                s.all_generics = false;
                s.all_monos = false;
                if s.what != What::Paths {
                    s.args.clear();
                }
                if s.what == What::Monos {
                    s.regex = false;
                }
                if what != 3 && s.what == What::Paths {
                    for (r, d) in [(None, None), (Some(3), Some(3)), (Some(1), Some(2)), (Some(0), Some(0))] {
                        if s.paths_cost(g, 800) <= 800 {
                            break;
                        }
                        s.limit = r.or(s.limit);
                        s.limit2 = d.or(s.limit2);
                    }
                    if s.paths_cost(g, 800) > 800 {
                        s = Spec::plain(What::Top);
                    }
                }
                let other = if s.what == What::Diff { Some(others[t.below(others.len())]) } else { None };
                let new = other.map(|x| keys[x].expect("live"));
                let want = match native(&files[f].bytes, new.map(|x| &files[x].bytes[..]), &s) {
                    Ok(w) => w,
                    // Panics are another property's business.
                    Err(_) => return o,
                };
                let (set, get) = setters(t, &s);
                let mut show = format!("{} on items {}", s.show(), k);
                if let Some(x) = other {
                    show.push_str(&format!(" and {}", x));
                }
                let names: Vec<String> = get.iter().map(|(n, _)| quoted(n)).collect();
                sent.push(format!(
                    "{{\"on\":{},\"run\":\"{}\",\"new\":{},\"set\":[{}],\"get\":[{}]}}",
                    k,
                    s.sub(),
                    other.unwrap_or(0),
                    set.join(","),
                    names.join(",")
                ));
                o.stats.add(if what == 3 { "web: failing analyses" } else { "web: analyses" }, 1);
                let want = match want {
                    Want::Json(b, _) => Want::Json(b, get),
                    w => w,
                };
                ops.push(Op { show, want, files: new.into_iter().chain(Some(f)).collect() });
                o.shape.push(s.what as u64 + 1);
            }
        }
    }
    // How many pages of memory there are beyond what the module starts with.
    let pages = if t.chance(1, 5) { Some([1u64, 0, 2, 4, 8, 16][t.below(6)]) } else { None };
    if let Some(p) = pages {
        o.log.push(format!("no more than {} pages of memory to grow by", p));
        o.stats.add("web: sessions with little memory", 1);
    }
    let hexes: Vec<String> = files.iter().map(|f| format!("\"{}\"", hex(&f.bytes))).collect();
    let session = format!(
        "{{\"files\":[{}],{}\"ops\":[{}]}}",
        hexes.join(","),
        pages.map_or(String::new(), |p| format!("\"pages\":{},", p)),
        sent.join(",")
    );
    if let Some(p) = std::env::var_os("TWSIM_SESSION") {
        std::fs::write(p, format!("{}\n", session)).expect("session file");
    }
    let answer = play(&session);
    if let Some(b) = string(&answer, "broken") {
        panic!("web.js: {}", String::from_utf8_lossy(&b));
    }
    let outs = answer.arr("out").expect("answers");
    o.stats.add("web: pages grown", answer.int("grown").unwrap_or(0) as u64);
    for (i, op) in ops.iter().enumerate() {
        let Some(a) = outs.get(i) else { break };
        let bad = |o: &mut Outcome, m: String| {
            o.log.push(format!("  !! {}", m));
            o.viols.push((v.to_vec(), m));
        };
        o.log.push(format!("{}: {}", i, op.show));
        if let Some(b) = string(a, "broken") {
            panic!("web.js: {}", String::from_utf8_lossy(&b));
        }
        if let Some(b) = string(a, "missing") {
            bad(&mut o, format!("the web interface lacks something: {}", String::from_utf8_lossy(&b)));
            break;
        }
        if let Some(b) = string(a, "trap") {
            let m = String::from_utf8_lossy(&b).to_string();
            if pages.is_some() {
                // Out of memory; there is no way to go on.
                o.stats.add("web: sessions that ran out of memory", 1);
                o.log.push("  out of memory".into());
                o.shape.push(99);
            } else {
                bad(&mut o, format!("the web interface trapped ({}) where the library does not: {}", m, op.show));
            }
            break;
        }
        let thrown = string(a, "thrown").map(|b| String::from_utf8_lossy(&b).to_string());
        let ok = string(a, "ok");
        match (&op.want, thrown, ok) {
            (Want::Error(e), Some(m), _) => {
                o.log.push(format!("  error: {}", e));
                o.stats.add("web: errors thrown", 1);
                o.seen.push(2);
                if m.trim().is_empty() {
                    bad(&mut o, format!("an error without a message: {}", op.show));
                }
            }
            (Want::Error(e), None, _) => {
                bad(&mut o, format!("{}: succeeds through the web interface, while the library says: {}", op.show, e))
            }
            (_, Some(m), _) => {
                if pages.is_some() && m.to_lowercase().contains("malloc") {
                    o.stats.add("web: sessions that ran out of memory", 1);
                    break;
                }
                bad(&mut o, format!("{}: the web interface throws {:?}, the library does not", op.show, m));
                break;
            }
            (Want::Done, None, _) => o.seen.push(1),
            (Want::Json(want, get), None, Some(got)) => {
                o.nontrivial = true;
                o.stats.add("web: reports compared", 1);
                o.stats.add("reports", 1);
                let h = got.iter().fold(3u64, |h, &b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3));
                o.seen.push(h);
                o.shape.push(h);
                if &got != want {
                    bad(&mut o, format!("{}: the web interface's report differs {}", op.show, where_differs(&got, want)));
                }
                let told = a.arr("got").unwrap_or(&[]);
                for (i, (n, x)) in get.iter().enumerate() {
                    if !matches!(told.get(i), Some(J::Num(y, _)) if *y == *x as f64) {
                        bad(&mut o, format!("{}: option {} is {:?}, not {}", op.show, n, told.get(i), x));
                    }
                }
            }
            (Want::Json(..), None, None) => panic!("web.js: odd answer {:?}", a),
        }
        o.shape.push(mix(i as u64, op.files.iter().sum::<usize>() as u64));
    }
    o
}
