//! Deterministic simulation of twiggy with fault injection. See DESIGN.md.

mod big;
mod cli;
mod conc;
mod driver;
mod dwarf;
mod elf;
mod edges;
mod env;
mod gen;
mod jobs;
mod model;
mod oracle;
mod out;
mod props;
mod sess;
mod spec;
mod tape;
mod web;
mod writer;

use tape::Tape;

fn main() {
    if let Ok(world) = std::env::var(jobs::ENV) {
        std::process::exit(jobs::fake(&world));
    }
    env::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let num = |s: &str| s.parse::<u64>().unwrap_or_else(|_| panic!("not a number: {}", s));
    if let ["worker" | "exec" | "log" | "collect", "C17", ..] = a.as_slice() {
        web::start();
    }
    let code = match a.as_slice() {
        ["check", pid] => {
            let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match props::find(pid) {
                Some(p) => driver::check(p, thorough, seed),
                None => {
                    eprintln!("no property {}", pid);
                    3
                }
            }
        }
        ["worker", pid, base, shard, n, runs, secs, mark] => {
            driver::worker(pid, num(base), num(shard), num(n), num(runs), num(secs), mark);
            0
        }
        ["exec", pid, "seed", s] => driver::exec(pid, Tape::seeded(num(s)), true),
        ["exec", pid, "run", n] => driver::exec(pid, Tape::seeded(driver::seed_of(1, pid, num(n))), true),
        ["exec", pid, "tape", f] => {
            let s = std::fs::read_to_string(f).expect("tape file");
            driver::exec(pid, Tape::replay(driver::read_tape(&s)), true)
        }
        ["log", pid, from, to, step] => {
            driver::log(pid, num(from), num(to), num(step));
            0
        }
        ["collect", pid, from, to, step] => {
            driver::collect(pid, num(from), num(to), num(step));
            0
        }
        ["replay", f] => driver::replay(f),
        _ => {
            eprintln!("usage: twsim check PID | replay FILE | exec PID seed N | log PID FROM TO STEP");
            3
        }
    };
    web::stop();
    std::process::exit(code);
}
