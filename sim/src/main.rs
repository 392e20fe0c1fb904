//! Deterministic simulation checks for tket2. See /verif/DESIGN.md.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, clippy::all)]

pub mod circ;
pub mod cli;
pub mod conf;
pub mod qsim;
#[macro_use]
pub mod runner;
pub mod badger;
pub mod chunks;
pub mod dev;
pub mod device;
pub mod interp;
pub mod io;
pub mod jit;
pub mod mods;
pub mod procs;
pub mod prog;
pub mod pyt;
pub mod rules;
pub mod simfs;
pub mod simrt;
pub mod tape;

use runner::Prop;

#[global_allocator]
static ALLOC: simrt::SimAlloc = simrt::SimAlloc;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(badger::props());
    v.extend(chunks::props());
    v.extend(io::props());
    v.extend(dev::props());
    v.extend(conf::props());
    v.extend(procs::props());
    v.extend(cli::props());
    v.extend(mods::props());
    v
}

fn main() {
    runner::fix_process();
    let args: Vec<String> = std::env::args().filter(|a| !a.is_empty()).collect();
    let usage = || -> ! {
        eprintln!("usage: tketsim check ID | replay ID FILE | one ID SEED | selftest ID N | list");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage();
    }
    let all: &'static Vec<Prop> = Box::leak(Box::new(props()));
    if args[1] == "list" {
        for p in all {
            println!("{} {}", p.id, p.title);
        }
        return;
    }
    if args[1] == "stages" {
        procs::stages(&args[2]);
        return;
    }
    if args[1] == "guppy" {
        procs::guppy_report();
        return;
    }
    if args.len() < 3 {
        usage();
    }
    let Some(p) = all.iter().find(|p| p.id == args[2]) else { usage() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let code = match args[1].as_str() {
        "check" => runner::check(p, &verif, &tier, seed),
        "replay" => runner::replay(p, &args[3]),
        "one" => runner::one(p, args[3].parse().unwrap()),
        "run" => runner::one(p, runner::seed_for(seed, p.id, args[3].parse().unwrap())),
        "min" => runner::min(p, &verif, seed, args[3].parse().unwrap()),
        "tally" => runner::tally(p, seed, args[3].parse().unwrap()),
        "selftest" => runner::selftest(p, seed, args[3].parse().unwrap()),
        _ => usage(),
    };
    std::process::exit(code);
}
