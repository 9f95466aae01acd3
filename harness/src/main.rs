//! simcheck: deterministic simulation of moledyn programs.
//!   simcheck check  <property> --tier quick|thorough --seed N --out DIR
//!   simcheck replay <file>
//!   simcheck hashes <property> <seed> <from> <to>     (determinism audit)
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod jobs;
mod md;
mod meta;
mod programs;
mod props;
mod refan;
mod runner;
mod sim;

fn main() {
    std::process::exit(runner::main());
}
