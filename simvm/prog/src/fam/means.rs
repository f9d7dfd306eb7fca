//! The compiled program computes what its source says, at every optimisation level, however the run is cut into
//! segments, and whatever was compiled before in the same database.
use super::scn::{self, *};
use crate::*;
use std::collections::BTreeMap;
pub struct F;

/// (entry arguments) -> what the source says
type Meanings = BTreeMap<(usize, usize), Result<D, Stop>>;
fn meanings(s: &Scn) -> Meanings {
    let mut m = Meanings::new();
    for (k, v) in s.versions.iter().enumerate() {
        for (a, args) in v.args.iter().enumerate() {
            let mut i = Interp::new(&v.prog, 60_000);
            i.strict = s.strict;
            m.insert((k, a), i.call(0, args.iter().map(V::of).collect()).map(|v| v.deep()));
        }
    }
    m
}
fn expected_refusal(e: &str) -> bool {
    e.contains("Cast source is a literal") || e.contains("Division by zero")
}
fn skeleton(e: &str) -> String {
    e.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(90).collect()
}
/// Run the program and compare; false: stop the simulation.
fn judge_run(v: &Version, args: &[D], want: &Result<D, Stop>, program: &cairo_m_common::Program, lv: Lv, seed: u64) -> bool {
    let ins = inputs(&v.prog, args);
    let mut r = Rng::new(seed, 11);
    let mut cut: Option<usize> = None;
    for round in 0..2 {
        let options = match cut {
            None => Default::default(),
            Some(k) => cairo_m_runner::RunnerOptions { max_steps: k },
        };
        cairo_m_runner::sim::set_step_budget(3_000_000);
        let before = drv::panics().len();
        let got = {
            // the machine has one thread and takes no locks: nothing to schedule
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cairo_m_runner::run_cairo_program(program, "entry", &ins, options)))
        };
        let fail = |c: &str, d: String| {
            out(|o| o.fail(c.to_string(), format!("{lv:?}, arguments {args:?}, segments of {cut:?} steps: {d}\nsource says {want:?}\n{}", render(&v.prog).iter().map(|(m, t)| format!("--- {m}\n{t}")).collect::<String>())));
            false
        };
        out(|o| o.comparisons += 1);
        let steps;
        match (want, got) {
            (_, Err(_)) => {
                let p = drv::panics();
                if want.is_err() && p.get(before..).and_then(|s| s.last()).is_some_and(|p| p.message.contains("0 has no inverse")) {
                    // the repository's own tests expect division by zero in the field to end the process
                    out(|o| o.probe("field_division_by_zero"));
                    return true;
                }
                let d = p.get(before..).and_then(|s| s.last()).map(|p| format!("{} at {}", p.message, p.location)).unwrap_or_default();
                return fail("machine-panic", d);
            }
            (Err(Stop::GivesUp(_)), _) => return true,
            (Err(Stop::Fails(why)), Ok(r)) => {
                let dead = lv != Lv::None && !why.contains("assert");
                match r {
                    Err(e) if dead && e.to_string().contains("step budget") => out(|o| o.probe("dead_failure_removed")),
                    Err(e) if e.to_string().contains("step budget") => return fail("runs-on", e.to_string()),
                    Err(_) => out(|o| o.probe("failed_as_the_source_says")),
                    // an arithmetic failure whose result nobody needs may be optimised away
                    Ok(_) if dead => out(|o| o.probe("dead_failure_removed")),
                    Ok(x) => return fail("no-failure", format!("returned {:?}", outputs(&x.return_values))),
                }
                return true;
            }
            (Ok(_), Ok(Err(e))) if e.to_string().contains("step budget") => return fail("runs-on", e.to_string()),
            (Ok(_), Ok(Err(e))) => return fail("run-error", e.to_string()),
            (Ok(w), Ok(Ok(x))) => {
                let g = outputs(&x.return_values);
                simk::mix(hash_str(&format!("{g:?}")));
                if g != *w {
                    return fail("wrong-result", format!("returned {g:?}"));
                }
                steps = x.vm.segments.iter().map(|s| s.trace.len() - 1).sum::<usize>();
                out(|o| {
                    o.nontrivial = true;
                    o.probe("result_compared");
                    if x.vm.segments.len() > 1 {
                        o.fault("run_cut_into_segments", 1);
                    }
                });
            }
        }
        if round == 0 {
            cut = Some(match r.below(3) {
                0 => (steps / 30).max(1) + r.below(3),
                1 => r.range((steps / 30).max(1), steps.max(1) + 1),
                _ => steps.max(1),
            });
        }
    }
    true
}
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P14"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        scn::random(&mut r, false)
    }
    fn run(&self, s: &Scn) -> RunOut {
        let t = s.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let m = {
                let t = t.clone();
                // deep recursion in the interpreter: its own stack
                std::thread::Builder::new().stack_size(256 << 20).spawn(move || meanings(&t)).unwrap().join().unwrap_or_else(|_| panic!("interpreter: {:?}", drv::panics().first().map(|p| format!("{} at {}", p.message, p.location))))
            };
            for x in m.values() {
                out(|o| {
                    o.probe(match x {
                        Ok(_) => "meaning_known",
                        Err(Stop::Fails(_)) => "meaning_is_failure",
                        _ => "meaning_unknown",
                    })
                });
            }
            play(&t, |_, _, version, lv, got, seed| {
                let Some(v) = version else { return true };
                let k = t.versions.iter().position(|x| std::ptr::eq(x, v)).unwrap_or(0);
                let source = || render(&v.prog).iter().map(|(m, t)| format!("--- {m}\n{t}")).collect::<String>();
                match got {
                    Outcome::Refused(e) if v.typed => {
                        out(|o| o.fail(format!("refused: {}", skeleton(e[0].split_once("..").map(|x| x.1.split_once(' ').map_or("", |y| y.1)).unwrap_or(""))), format!("{lv:?} {e:#?}\n{}", source())));
                        false
                    }
                    Outcome::Refused(_) => true,
                    Outcome::Panicked(e) => {
                        out(|o| o.fail("compiler-panic", format!("{lv:?} {e}\n{}", source())));
                        false
                    }
                    Outcome::Failed(e) if (v.failing || !v.typed) && expected_refusal(e) => {
                        out(|o| o.probe("constant_failure_refused"));
                        true
                    }
                    Outcome::Failed(e) => {
                        out(|o| o.fail(format!("not-compiled: {}", skeleton(e)), format!("{lv:?} {e}\n{}", source())));
                        false
                    }
                    Outcome::Done(p) => {
                        for (a, args) in v.args.iter().enumerate() {
                            if !judge_run(v, args, &m[&(k, a)], p, lv, seed.wrapping_add(a as u64)) {
                                return false;
                            }
                        }
                        true
                    }
                }
            })
        });
        o.summary = describe(s);
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        scn::shrink(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (6000, 4_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a compiled program was run to its end and its return value was compared with that of an interpreter of the source language; distinct by trace hash over schedule and results".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        let mut r = REAL.to_vec();
        r.extend(["cairo-m-runner (virtual machine, argument and return value codec)", "cairo-m-common"]);
        (r, vec!["the user: versions of random programs are set module by module", "getrandom, the thread scheduler, futexes and clocks: simulated", "stwo-prover's field arithmetic, sonic-rs, paste: replaced by small equivalents (no network)"])
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the interpreter (simvm/prog/src/lang.rs) says what a program means; it gives up, and the run counts for nothing, on programs whose arrays outlive the frame or iteration that made them (known findings) and on programs longer than its fuel".into(),
            "an arithmetic failure (division by zero, cast out of range) whose result is not used may disappear at the Standard level".into(),
        ]
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["result_compared", "failed_as_the_source_says", "run_cut_into_segments", "concurrent_compilations", "torn_document"]
    }
}
