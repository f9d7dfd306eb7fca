//! Simulation of the back half of the toolchain: the real compiler over its incremental database, and the real
//! virtual machine, on random programs.
use drv::{Family, Registry, Rng, RunOut, Sched, oracle::Oracle, out, simulate};
use prog::r#gen;
use prog::lang::*;
use prog::world::*;
use serde::{Deserialize, Serialize};

mod fam {
    pub mod means;
    pub mod same;
    pub mod scn;
    pub mod split;
}
pub const REAL: [&str; 6] = [
    "cairo-m-compiler (library)",
    "cairo-m-compiler-parser",
    "cairo-m-compiler-semantic",
    "cairo-m-compiler-mir",
    "cairo-m-compiler-codegen",
    "salsa incremental database",
];
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn failed() -> bool {
    out(|o| o.violation.is_some())
}
pub fn diff(a: &[String], b: &[String]) -> String {
    let mut s = String::new();
    for x in a.iter().filter(|x| !b.contains(x)).take(6) {
        s += &format!("\n  only observed: {x}");
    }
    for x in b.iter().filter(|x| !a.contains(x)).take(6) {
        s += &format!("\n  only expected: {x}");
    }
    if s.is_empty() {
        s = "\n  same lines in a different order".into();
    }
    s
}
fn main() {
    Registry::new().add(fam::same::F).add(fam::means::F).add(fam::split::F).main();
}
#[allow(unused_imports)]
use {Family as _, Oracle as _, simulate as _};
