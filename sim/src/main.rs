#![feature(alloc_error_hook)]
#![allow(dead_code, suspicious_runtime_symbol_definitions)]
//! Deterministic simulation of everything around the wavefront_obj library:
//! storage, transport, threads, memory, sinks, crashes. See ../../DESIGN.md.
mod canon;
mod ctx;
mod driver;
mod gen;
mod hist;
mod json;
mod mlog;
mod model;
mod oom;
mod merge;
mod parts;
mod replica;
mod pipe;
mod proc;
mod rng;
mod rt;
mod sess;
mod shrink;
mod sink;
mod thr;
mod truth;

fn main() {
    std::process::exit(driver::main(std::env::args().skip(1).collect()));
}
