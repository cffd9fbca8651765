//! Native object files: fixtures to damage, and a scratch file to read them from.

use std::sync::OnceLock;
use twiggy_traits::ParseMode;

static FILES: [&[u8]; COUNT] = [
    include_bytes!("../fixtures/obj.o"),
    include_bytes!("../fixtures/gcc.elf"),
    include_bytes!("../fixtures/clang.elf"),
    include_bytes!("../fixtures/az.o"),
    include_bytes!("../fixtures/azg.o"),
    include_bytes!("../fixtures/m.o"),
    include_bytes!("../fixtures/c.obj"),
    include_bytes!("../fixtures/e32.o"),
    include_bytes!("../fixtures/ebe.o"),
];

pub const COUNT: usize = 9;

pub fn fixture(i: usize) -> Vec<u8> {
    FILES[i % COUNT].to_vec()
}

fn u(b: &[u8], at: usize, n: usize) -> usize {
    (0..n).rev().fold(0, |a, i| a << 8 | *b.get(at + i).unwrap_or(&0) as usize)
}

/// Where damage matters: headers, and the sections with debug information.
pub fn offsets(b: &[u8]) -> Vec<usize> {
    let mut o: Vec<usize> = (0..64).step_by(4).collect();
    if !b.starts_with(b"\x7fELF\x02\x01") {
        return (0..b.len()).step_by(6).collect();
    }
    let (shoff, n) = (u(b, 40, 8), u(b, 60, 2));
    for k in 0..n {
        let h = shoff + 64 * k;
        o.push(h);
        o.push(h + 24);
        o.push(h + 32);
        let (at, len, flags) = (u(b, h + 24, 8), u(b, h + 32, 8), u(b, h + 8, 8));
        // Sections that are not loaded hold the debug information.
        if flags & 2 == 0 && u(b, h + 4, 4) == 1 && at + len <= b.len() {
            o.extend((at..at + len).step_by(6));
        }
    }
    o.retain(|&x| x < b.len());
    o
}

/// A directory of this process's own, for files that have to be real.
pub fn scratch() -> &'static std::path::Path {
    static DIR: OnceLock<std::path::PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let base = std::env::var("TWSIM_SCRATCH").unwrap_or_else(|_| "/dev/shm".into());
        let d = std::path::Path::new(&base).join(format!("twsim-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
}

pub fn clean_scratch() {
    let d = scratch();
    if d.file_name().and_then(|n| n.to_str()).map_or(false, |n| n.starts_with("twsim-")) {
        let _ = std::fs::remove_dir_all(d);
    }
}

pub fn parse(bytes: &[u8], mode: ParseMode) -> anyhow::Result<twiggy_ir::Items> {
    let p = scratch().join(format!("obj-{}", std::thread::current().name().unwrap_or("x")));
    std::fs::write(&p, bytes)?;
    let r = twiggy_parser::read_and_parse(&p, mode);
    let _ = std::fs::remove_file(&p);
    r
}
