//! Trace files: one of states and one of accesses per segment, complete or reported as failed, and readable again.
use crate::tree::*;
use crate::*;
use adapt_low::adapter::io::{MemoryEntryFileIter, TraceFileIter};
use cairo_m_common::Program;
use cairo_m_runner::RunnerOptions;
use cairo_m_runner::vm::VM;
use drv::{Family, Rng, RunOut, Sched, out, simulate};
use prog::raw;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use stwo_prover::core::fields::m31::M31;
pub struct F;

#[derive(Clone, Serialize, Deserialize)]
pub struct TScn {
    pub sched: Sched,
    /// instructions, arguments, rounds of a loop to make it long
    pub code: Vec<Vec<u32>>,
    pub args: Vec<u32>,
    pub cut: usize,
    /// file names given, below the root of the run; the second for the accesses
    pub names: [String; 2],
    /// run with the directory of the files as current directory, and a relative name
    pub relative: bool,
    pub old: Vec<(String, u32)>,
    pub save: [Faults; 2],
    pub load: Faults,
}
type Files = BTreeMap<String, Option<Vec<u8>>>;
const DIRS: [&str; 6] = ["out", "out.v1", "a.b/c", "x\u{F8FF}y", "..hidden", "deep/er"];
const NAMES: [&str; 8] = ["trace.bin", "trace", "a.b.c", "my trace.dat", "t\u{F8FF}.bin", "ünï.bin", "x.tar.gz", "0.1"];

/// `<base>_segment_<index>.<extension>`
fn segment_name(given: &str, i: usize) -> String {
    let (d, f) = given.rsplit_once('/').map(|(d, f)| (format!("{d}/"), f)).unwrap_or((String::new(), given));
    match f.rfind('.') {
        Some(k) => format!("{d}{}_segment_{i}{}", &f[..k], &f[k..]),
        None => format!("{d}{f}_segment_{i}"),
    }
}
fn fail(c: &str, d: String) {
    out(|o| o.fail(c, d));
}
fn le(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
struct Fired {
    errors: Vec<String>,
    all: Vec<String>,
}
fn fired() -> Fired {
    let mut f = Fired { errors: vec![], all: vec![] };
    for (kind, a, what, path) in simk::fs_hits() {
        if let Some(n) = fault_name(kind, a, &what) {
            out(|o| o.fault(&n, 1));
            f.all.push(format!("{n} at {path}"));
            if is_error(kind, a, &what) {
                f.errors.push(format!("{n} at {path}"));
            }
        }
    }
    f
}
fn with<R>(v: &Faults, f: impl FnOnce() -> R) -> (R, Fired) {
    let v: Vec<simk::FsFault> = v.iter().map(|x| simk::FsFault { op: x.0, kind: x.1, pad: 0, arg: x.2 }).collect();
    simk::fs_begin(root().to_str().unwrap(), true, 0, &v);
    let r = f();
    simk::fs_end();
    (r, fired())
}
impl Family for F {
    type Scn = TScn;
    fn id(&self) -> &'static str {
        "P17"
    }
    fn generate(&self, seed: u64, index: u64) -> TScn {
        let mut r = Rng::new(seed, index);
        let sched = Sched::sequential(r.next());
        let (code, args) = if r.chance(1, 6) {
            // a loop: long traces
            let k = *r.pick(&[100, 600, 3000]);
            (vec![vec![9, k, 0], vec![9, 7, 1], vec![4, 0, 2147483646, 0], vec![14, 0, 2147483646], vec![0, 1, 2147483643, 2], vec![9, 1, 2147483644]], vec![5])
        } else {
            let v = raw::random(&mut r);
            let a = (0..r.below(5)).map(|_| (r.next() % 2147483647) as u32).collect();
            (v, a)
        };
        let dir = r.pick(&DIRS).to_string();
        let mut names: Vec<String> = (0..2).map(|_| format!("{dir}/{}", r.pick(&NAMES))).collect();
        if r.chance(1, 12) {
            names[0] = "missing/trace.bin".into();
        }
        if names[0] == names[1] {
            names[1] = format!("{dir}/memory.bin");
        }
        let mut old = vec![];
        for n in &names {
            for i in 0..3 {
                if r.chance(1, 6) {
                    old.push((segment_name(n, i), r.below(4000) as u32));
                }
            }
        }
        let save = [faults(&mut r, 24, false), faults(&mut r, 24, false)];
        let save = if r.chance(1, 4) { [vec![], vec![]] } else { save };
        let load = if r.chance(1, 3) { vec![] } else { faults(&mut r, 12, false) };
        TScn { sched, code, args, cut: *r.pick(&[1, 2, 3, 5, 10, 50, 1000, 100_000]), names: [names[0].clone(), names[1].clone()], relative: r.chance(1, 3), old, save, load }
    }
    fn run(&self, s: &TScn) -> RunOut {
        let mut t = Tree::new();
        for n in &s.names {
            let d = n.rsplit_once('/').map(|d| d.0).unwrap_or("");
            if !d.is_empty() && d != "missing" {
                t.insert(d.to_string(), Node::Dir);
            }
        }
        for (n, k) in &s.old {
            if !n.starts_with("missing") {
                t.insert(n.clone(), Node::File(Content::Text(*k, *k)));
            }
        }
        build(&t);
        let s2 = s.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let s = s2;
            let (words, at) = raw::words(&s.code);
            let program = Program { data: raw::data(&s.code), metadata: Default::default(), entrypoints: Default::default() };
            let args: Vec<M31> = s.args.iter().map(|x| M31::from(*x)).collect();
            let reach = prog::machine::run(&words, at.first().copied().unwrap_or(0), s.args.len() as u32 + 3, &s.args, 1, &[], 20_000);
            if reach.end == prog::machine::End::Unmodelled || reach.silent || reach.machine.mem.keys().any(|a| (60_000..prog::machine::TOP - 3000).contains(a)) {
                out(|o| o.probe("unmodelled"));
                return;
            }
            let cut = s.cut.max(reach.logs.len() / 30 + 1);
            let Ok(mut vm) = VM::try_from(&program) else { return };
            cairo_m_runner::sim::set_step_budget(25_000);
            let before = drv::panics().len();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r = vm.run_from_entrypoint(at.first().copied().unwrap_or(0), s.args.len() as u32 + 3, &args, 1, &RunnerOptions { max_steps: cut });
                (vm, r.is_ok())
            }));
            let Ok((vm, _)) = r else {
                let p = drv::panics();
                if p.get(before..).and_then(|s| s.last()).is_some_and(|p| p.message.contains("0 has no inverse")) {
                    return;
                }
                return fail("machine-panic", format!("{:?}", p.last().map(|p| p.message.clone())));
            };
            // what the files have to hold
            let mut want: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
            let mut states = 0;
            for g in &vm.segments {
                states += g.trace.len();
                want[0].push(le(&g.trace.iter().flat_map(|e| [e.fp.0, e.pc.0]).collect::<Vec<_>>()));
                let mut m = vec![words.len() as u32];
                m.extend(g.memory_trace.borrow().iter().flat_map(|e| {
                    let q = e.value.to_m31_array();
                    [e.addr.0, q[0].0, q[1].0, q[2].0, q[3].0]
                }));
                want[1].push(le(&m));
            }
            if !vm.segments.is_empty() && !reach.states.is_empty() && states < vm.segments.len() {
                return fail("empty-segment", format!("{states} states in {} segments", vm.segments.len()));
            }
            out(|o| {
                o.probe("executed");
                if vm.segments.len() > 1 {
                    o.fault("run_cut_into_segments", vm.segments.len() as u64 - 1);
                }
            });
            if s.relative {
                std::env::set_current_dir(root()).expect("chdir");
            }
            let path = |n: &str| -> PathBuf { if s.relative { PathBuf::from(os(n)) } else { root().join(os(n)) } };
            for which in 0..2 {
                let given = &s.names[which];
                let kind = ["states", "accesses"][which];
                let was: Files = snapshot();
                let p = path(given);
                let before = drv::panics().len();
                let (r, hit) = with(&s.save[which], || {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if which == 0 { vm.write_binary_trace(&p) } else { vm.write_binary_memory_trace(&p) }))
                });
                let note = |d: String| format!("saving {} segments of {kind} as {given:?}{}: {d}; failures: {:?}", vm.segments.len(), if s.relative { " (relative)" } else { "" }, hit.all);
                let now: Files = snapshot();
                simk::mix(prog_hash(&now));
                let names: Vec<String> = (0..vm.segments.len()).map(|i| segment_name(given, i)).collect();
                let r = match r {
                    Err(_) => return fail("save-panic", note(format!("{:?}", drv::panics().get(before..).and_then(|p| p.last()).map(|p| p.message.clone())))),
                    Ok(r) => r,
                };
                out(|o| o.comparisons += 1);
                for (n, c) in &was {
                    if !names.contains(n) && now.get(n) != Some(c) {
                        return fail("harmed", note(format!("{n:?} is no trace file of this run and has changed")));
                    }
                }
                for (n, c) in &now {
                    let Some(c) = c else { continue };
                    match names.iter().position(|m| m == n) {
                        None if !was.contains_key(n) => return fail("stray-file", note(format!("{n:?} was written; expected are {names:?}"))),
                        None => {}
                        Some(i) => {
                            let w = &want[which][i];
                            let kept = was.get(n).is_some_and(|x| x.as_ref() == Some(c));
                            if r.is_ok() && c != w {
                                return fail("success-but-wrong", note(format!("{n:?} has {} bytes that are not the {} expected ones", c.len(), w.len())));
                            }
                            if r.is_err() && !kept && !w.starts_with(c) {
                                return fail("failure-left-garbage", note(format!("{n:?} is neither a part of its content nor what was there")));
                            }
                        }
                    }
                }
                let there = given.starts_with("missing");
                match r {
                    Ok(()) => {
                        if let Some(n) = names.iter().find(|n| !now.contains_key(*n)) {
                            return fail("success-but-missing", note(format!("{n:?} is not there")));
                        }
                        if !hit.errors.is_empty() {
                            return fail("error-hidden", note("reported as saved".into()));
                        }
                        out(|o| {
                            o.probe("saved");
                            o.nontrivial |= !vm.segments.is_empty();
                            if !hit.all.is_empty() {
                                o.probe("saved_despite_disturbance");
                            }
                        });
                        // and back
                        for (i, n) in names.iter().enumerate() {
                            let q = path(n);
                            if let Err(d) = read_back(&q, which, &want[which][i], words.len(), &s.load) {
                                return fail("read-back", note(format!("{n:?}: {d}")));
                            }
                        }
                    }
                    Err(e) => {
                        if hit.errors.is_empty() && !there {
                            return fail("refused", note(e.to_string()));
                        }
                        out(|o| {
                            o.probe("failure_reported");
                            o.nontrivial = true;
                        });
                    }
                }
            }
        });
        clean();
        o.summary = format!("{} instructions in segments of {} steps, saved as {:?}, {} failures planned", s.code.len(), s.cut, s.names, s.save[0].len() + s.save[1].len() + s.load.len());
        o
    }
    fn shrink(&self, s: &TScn) -> Vec<TScn> {
        let mut v = vec![];
        for w in 0..2 {
            for f in shrink_faults(&s.save[w]) {
                let mut t = s.clone();
                t.save[w] = f;
                v.push(t);
            }
        }
        for f in shrink_faults(&s.load) {
            v.push(TScn { load: f, ..s.clone() });
        }
        for k in 0..s.old.len() {
            let mut t = s.clone();
            t.old.remove(k);
            v.push(t);
        }
        for k in 0..s.code.len() {
            let mut t = s.clone();
            t.code.remove(k);
            v.push(t);
        }
        if s.relative {
            v.push(TScn { relative: false, ..s.clone() });
        }
        for c in [100_000, 1000] {
            if s.cut < c {
                v.push(TScn { cut: c, ..s.clone() });
            }
        }
        for w in 0..2 {
            let plain = format!("out/{w}.bin");
            if s.names[w] != plain {
                let mut t = s.clone();
                t.names[w] = plain;
                v.push(t);
            }
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut TScn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (60_000, 6_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a recorded execution was saved (files compared byte by byte, then read back) or an injected failure was reported; distinct by hash of the file operations and the resulting files".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["cairo-m-runner (machine, trace files)", "cairo-m-common (serialisation)", "the adapter's trace readers", "the kernel's tmpfs"],
            vec!["failing, short and interrupted file operations: simulated", "field arithmetic, bytemuck: stand-ins of the same layout"],
        )
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["saved", "failure_reported", "saved_despite_disturbance", "read_back", "read_cut_short"]
    }
}
fn prog_hash(f: &Files) -> u64 {
    let mut h = 0xcbf29ce484222325;
    for (n, c) in f {
        mixs(&mut h, n);
        mixs(&mut h, &format!("{:?}", c.as_ref().map(|c| c.len())));
    }
    h
}
/// The entries of a complete file: all of them, or a beginning when reading failed.
fn read_back(p: &Path, which: usize, want: &[u8], program: usize, f: &Faults) -> Result<(), String> {
    let before = drv::panics().len();
    let (r, hit) = with(f, || {
        std::panic::catch_unwind(|| -> Result<Vec<u8>, String> {
            if which == 0 {
                let it = TraceFileIter::try_from(p).map_err(|e| e.to_string())?;
                Ok(it.flat_map(|e| le(&[e.fp, e.pc])).collect())
            } else {
                let it = MemoryEntryFileIter::try_from(p).map_err(|e| e.to_string())?;
                let mut v = le(&[it.program_length() as u32]);
                if it.program_length() != program {
                    return Err(format!("program length {} instead of {program}", it.program_length()));
                }
                v.extend(it.flat_map(|e| {
                    let mut w = vec![e.address];
                    w.extend(e.value);
                    le(&w)
                }));
                Ok(v)
            }
        })
    });
    let note = |d: String| format!("{d}; failures while reading: {:?}", hit.all);
    match r {
        Err(_) => Err(note(format!("panic {:?}", drv::panics().get(before..).and_then(|p| p.last()).map(|p| p.message.clone())))),
        Ok(Err(e)) if hit.errors.is_empty() => Err(note(e)),
        Ok(Err(_)) => {
            out(|o| o.probe("read_refused"));
            Ok(())
        }
        Ok(Ok(v)) if hit.errors.is_empty() && v != want => Err(note(format!("{} bytes of entries instead of {}", v.len(), want.len()))),
        Ok(Ok(v)) if !want.starts_with(&v) => Err(note("entries that are not in the file".into())),
        Ok(Ok(v)) => {
            out(|o| o.probe(if v.len() < want.len() { "read_cut_short" } else { "read_back" }));
            Ok(())
        }
    }
}
