//! Simulation of the analysis engine: the real parser, semantic analysis, incremental database and
//! formatter, driven through edit histories by simulated users and reader threads.
use ana::hist::{self, Hist, Kinds, Op};
use ana::obs::*;
use drv::{Family, Registry, Rng, RunOut, Sched, oracle::Oracle, out, simulate};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

mod fam {
    pub mod agree;
    pub mod concurrent;
    pub mod crash;
    pub mod delta;
    pub mod determinism;
    pub mod format;
    pub mod incremental;
    pub mod model;
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Scn {
    pub sched: Sched,
    pub hist: Hist,
    /// edit kinds the history is made of (for the evidence)
    #[serde(default)]
    pub kinds: Kinds,
    /// seed of choices made while running (orders, the reference engine's entropy)
    pub aux: u64,
}
pub const REAL: [&str; 5] =
    ["cairo-m-compiler-parser", "cairo-m-compiler-semantic", "cairo-m-compiler-diagnostics", "salsa incremental database", "cairo-m-formatter"];

pub fn describe(s: &Scn) -> String {
    let sets = s.hist.ops.iter().filter(|o| matches!(o, Op::Set(..))).count();
    let asks = s.hist.ops.iter().filter(|o| matches!(o, Op::Ask(..))).count();
    format!("{} modules at the start, {} edits, {} query points, kinds {:?}", s.hist.initial.len(), sets, asks, s.kinds)
}
pub fn note_kinds(o: &mut RunOut, k: &Kinds) {
    const FAULTS: [&str; 9] = [
        "torn_document", "lost_characters", "stray_characters", "duplicated_line", "lost_line", "emptied_document", "module_removed", "restart",
        "replaced_document",
    ];
    for (n, c) in k {
        if FAULTS.contains(&n.as_str()) {
            o.fault(n, *c);
        } else {
            *o.probes.entry(n.clone()).or_insert(0) += c;
        }
    }
}
pub fn shuffled(t: &Texts, seed: u64) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = t.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    Rng::new(seed, 77).shuffle(&mut v);
    v
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
/// Compare observations with the reference's; `ordered`: the order counts.
pub fn compare(class: &str, q: &Query, got: &[String], want: &[String], ordered: bool) -> bool {
    let (mut a, mut b) = (got.to_vec(), want.to_vec());
    if !ordered {
        a.sort();
        b.sort();
    }
    out(|o| o.comparisons += 1);
    simk::mix(hash_str(&format!("{q:?}{a:?}")));
    if a != b {
        out(|o| o.fail(class.to_string(), format!("{q:?}{}", diff(&a, &b))));
        return false;
    }
    true
}
pub fn shrink_scn(s: &Scn) -> Vec<Scn> {
    hist::shrink(&s.hist).into_iter().map(|h| Scn { hist: h, ..s.clone() }).collect()
}
/// Ask the reference; a reference that cannot answer is an error of the harness.
pub fn reference(o: &Oracle, texts: &Texts, seed: u64, queries: &[Query]) -> Vec<Vec<String>> {
    let a = Ask { texts: shuffled(texts, seed), entropy: Rng::new(seed, 78).next(), queries: queries.to_vec() };
    match ask(o, &a) {
        Some(v) => v,
        None => {
            out(|r| r.fail("harness-oracle", "the reference engine did not answer"));
            vec![vec![]; queries.len()]
        }
    }
}
pub fn failed() -> bool {
    out(|o| o.violation.is_some())
}

fn main() {
    Registry::new()
        .add(fam::incremental::F)
        .add(fam::delta::F)
        .add(fam::concurrent::F)
        .add(fam::determinism::F)
        .add(fam::crash::F)
        .add(fam::agree::F)
        .add(fam::model::F)
        .add(fam::format::F)
        .main();
}
#[allow(unused)]
fn keep(_: (Arc<Mutex<()>>, BTreeMap<(), ()>, BTreeSet<()>, &dyn Fn(&Sched) -> ())) {}
#[allow(unused_imports)]
use {Family as _, simulate as _};
