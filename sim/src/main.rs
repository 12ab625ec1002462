mod checks;
mod math;
mod refgen;
mod rng;
mod runner;
mod scenario;
mod tool;
mod world;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

fn usage() -> ! {
    eprintln!("vsim check <property> [--only N] [--limit N] [--verbose] | replay <file> | selftest | refgen <dir> <n> <n>");
    std::process::exit(2)
}
fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let me = argv[0].rsplit('/').next().unwrap_or("").to_string();
    if world::TOOLS.contains(&me.as_str()) {
        tool::main(&me, argv[1..].to_vec());
    }
    let a = &argv[1..];
    let verif = std::env::var("VSIM_VERIF").map(PathBuf::from).unwrap_or_else(|_| "/verif".into());
    let repo = std::env::var("VSIM_REPO").map(PathBuf::from).unwrap_or_else(|_| "/repo".into());
    let cmd = a.get(0).map(|s| s.as_str()).unwrap_or("");
    if cmd == "longgen" {
        return refgen::long_main(&a[1..]);
    }
    if cmd == "refgen" {
        return refgen::main(&a[1..]);
    }
    if !["check", "replay", "selftest"].contains(&cmd) {
        usage();
    }
    let val = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|x| x.parse::<u64>().ok());
    let node = verif.join("target/node/release/rust");
    let inst = verif.join("target/inst/release/rust");
    let base = if std::fs::create_dir_all("/dev/shm").is_ok() && std::fs::write("/dev/shm/.vsim-probe", b"x").is_ok() { "/dev/shm" } else { "/tmp" };
    let _ = std::fs::remove_file("/dev/shm/.vsim-probe");
    let root = runner::make_root(base, &repo, &node, if inst.exists() { Some(&inst) } else { None });
    let guard = runner::RootGuard(root.clone());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") || a.iter().any(|x| x == "--thorough");
    let cx = Arc::new(runner::Cx { root, refs: runner::load_refs(&verif.join("ref")), long: runner::load_long(&verif.join("ref")), thorough, seed, cache: Mutex::new(Default::default()) });
    let code = match cmd {
        "check" => {
            let op = runner::Opts {
                prop: a.get(1).cloned().unwrap_or_default(),
                verif,
                workers: val("--workers").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
                limit: val("--limit"),
                only: val("--only"),
                verbose: a.iter().any(|x| x == "--verbose"),
            };
            let build_s = std::env::var("VSIM_BUILD_S").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
            runner::check(cx, &op, build_s)
        }
        "replay" => runner::replay(cx, &PathBuf::from(a.get(1).cloned().unwrap_or_default())),
        _ => checks::selftest(&cx),
    };
    drop(guard);
    std::process::exit(code);
}
