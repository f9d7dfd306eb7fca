//! The compiled program is a function of the sources: not of the hash seeds, the order in which modules were
//! registered, the edits that came before, or the threads that compile at the same time.
use super::scn::{self, *};
use crate::*;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P13"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        scn::random(&mut r, true)
    }
    fn run(&self, s: &Scn) -> RunOut {
        let oracle = Oracle::start(answer);
        let t = s.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            play(&t, |_, texts, _, lv, got, seed| {
                let a = Ask { texts: shuffled(texts, seed), entropy: Rng::new(seed, 5).next(), levels: vec![lv] };
                let Some(want) = ask(&oracle, &a) else {
                    out(|o| o.fail("harness-oracle", "the reference compiler did not answer"));
                    return false;
                };
                let lines = got.lines();
                simk::mix(hash_str(&format!("{lines:?}")));
                out(|o| {
                    o.comparisons += 1;
                    o.probe(got.kind());
                    o.nontrivial |= matches!(got, Outcome::Done(_));
                });
                if lines != want[0] {
                    out(|o| o.fail(format!("different-program ({})", got.kind()), format!("{lv:?}{}", diff(&lines, &want[0]))));
                }
                !failed()
            })
        });
        o.fault("hash_seed_changed", 1);
        o.fault("module_registration_order_changed", 1);
        o.summary = describe(s);
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        scn::shrink(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (4000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a program compiled after a history of edits, under its own hash seeds, order of modules and thread schedule, was compared instruction by instruction with what a fresh compiler in another process makes of the same sources; distinct by trace hash".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the user: versions of random programs are set module by module", "getrandom, the thread scheduler, futexes and clocks: simulated", "stwo-prover's field arithmetic, sonic-rs, paste: replaced by small equivalents (no network)"])
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the time of compilation recorded in the program is left out of the comparison".into(), "the order in which the table of entry points is stored in memory is left out: it is a hash table".into()]
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["compiled", "refused", "concurrent_compilations", "compiled_after_cancellation", "torn_document", "restart", "half_edited_project_compiled"]
    }
}
