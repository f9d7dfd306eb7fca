//! Simulation of the way from a program to a proof: the real compiler, virtual machine and prover adapter.
use drv::{Family, Registry, Rng, RunOut, Sched, out, simulate};
use prog::lang::*;
use prog::r#gen;
use prog::world::*;
use serde::{Deserialize, Serialize};
mod fam {
    pub mod record;
}
mod neutral;
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn main() {
    Registry::new().add(fam::record::F).main();
}
