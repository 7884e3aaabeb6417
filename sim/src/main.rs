//! Deterministic simulation of yason with fault injection. See /verif/DESIGN.md.

mod alloc;
mod ask;
mod builder;
mod codec;
mod coord;
mod ctx;
mod io;
mod model;
mod reader;
mod reffmt;
mod refpath;
mod run;
mod scen;
mod sched;
mod serdes;
mod shrink;
mod sysfake;
mod tape;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") => run::worker(&args[1..]),
        Some("one") => run::one(&args[1..]),
        Some("shrink") => shrink::main(&args[1..]),
        Some("check") => coord::check(&args[1..]),
        Some("replay") => coord::replay(&args[1..]),
        Some("hashes") => run::hashes(&args[1..]),
        _ => {
            eprintln!("usage: yason-sim check|replay|worker|one|shrink|hashes ...");
            2
        }
    };
    std::process::exit(code);
}
