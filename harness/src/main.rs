// open() is declared here with its mode argument, which is passed like a variadic one on x86-64
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod alloc;
mod ctx;
mod flight;
mod git;
mod model;
mod objgen;
mod obs;
mod props;
mod rng;
mod sched;
mod sha1;
mod sup;
mod sys;

#[global_allocator]
static A: alloc::Budget = alloc::Budget;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => sup::check(&args[2..]),
        Some("worker") => sup::worker(&args[2..]),
        Some("replay") => sup::replay(&args[2..]),
        Some("stress") => props::stress::main(&args[2..]),
        Some("selftest") => props::selftest(),
        _ => {
            eprintln!("usage: vmon check ID [--tier quick|thorough] [--out DIR] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
