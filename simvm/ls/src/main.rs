//! Simulation of the language server: the real server on the real tokio runtime, with its tasks, blocking threads,
//! timers and file reads under the simulator's schedule and clock; a simulated editor talks to it.
use drv::{Family, Registry, Rng, RunOut, Sched, oracle::Oracle, out, simulate};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

mod world;
mod fam {
    pub mod answers;
    pub mod published;
}

pub const REAL: [&str; 6] = [
    "cairo-m-ls (Backend, project, diagnostics and database controllers)",
    "tokio multi-thread runtime, its timers, channels and blocking pool",
    "cairo-m-project on real files",
    "cairo-m-compiler-semantic and -parser",
    "cairo-m-formatter",
    "salsa incremental database",
];
pub const STUB: [&str; 4] = [
    "the editor, and the JSON-RPC transport between it and the server: typed messages, up to four handled at a time, as tower-lsp does",
    "file watching: the simulator tells of changed manifests",
    "the thread scheduler, futexes, clocks, randomness and the order of directory listings: simulated",
    "tower-lsp, lsp-types, dashmap 5, notify, async-trait, stwo-prover's field arithmetic, sonic-rs, paste: small equivalents (no network)",
];
pub fn failed() -> bool {
    out(|o| o.violation.is_some())
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn main() {
    Registry::new().add(fam::published::F).add(fam::answers::F).main();
}
