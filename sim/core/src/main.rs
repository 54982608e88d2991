//! Deterministic simulation of callers of pgdatetime. See ../../DESIGN.md.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, static_mut_refs)]
mod case;
mod driver;
mod exec;
mod gen;
mod hooks;
mod minimize;
mod model;
mod oldrel;
mod props;
mod repl;
mod replgen;
mod rng;
mod runner;
mod sched;

fn main() {
    driver::main();
}
