//! The virtual machine follows its instruction set, however a run is cut into segments: every register state,
//! every memory access, every initial memory is that of a second machine which was written from the instruction
//! table, and failing programs fail at the same instruction.
use crate::*;
use cairo_m_common::Program;
use cairo_m_runner::RunnerOptions;
use cairo_m_runner::vm::VM;
use prog::machine::{self, End, NEAR, TOP, Word};
use prog::raw::{self, *};
use stwo_prover::core::fields::m31::M31;
pub struct F;

#[derive(Clone, Serialize, Deserialize)]
pub enum Source {
    /// instructions (as their field elements) and bare words, in order
    Raw(Vec<Vec<u32>>),
    Compiled(Box<Prog>, Vec<D>, Lv),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct MScn {
    pub sched: Sched,
    pub source: Source,
    /// where to start (index of an item), frame offset and arguments of a raw program
    pub start: usize,
    pub args: Vec<u32>,
    pub rets: u32,
    pub extra: u32,
    /// segment sizes to try
    pub cuts: Vec<usize>,
    /// abandon the run after so many steps
    pub limit: usize,
}
/// Everything the machine did, against the reference.
fn compare(vm: &VM, ok: Result<(), String>, want: &machine::Run, cut: usize) -> Result<(), (&'static str, String)> {
    let steps = want.logs.len();
    let done = match want.end {
        End::Fails(_) => steps - 1,
        _ => steps,
    };
    match (&want.end, &ok) {
        (End::Done, Err(e)) => return Err(("run-error", format!("the machine reports {e}; the program ends after {steps} steps"))),
        (End::Fails(w), Ok(())) => return Err(("no-failure", format!("the machine ends the run; it should fail ({w}) at step {steps}"))),
        (End::Running, Ok(())) => return Err(("ended-early", format!("the machine ends a run that goes on after {steps} steps"))),
        _ => {}
    }
    // register states
    let mut states: Vec<(u32, u32)> = vec![];
    let n = vm.segments.len();
    for (k, s) in vm.segments.iter().enumerate() {
        let t: Vec<(u32, u32)> = s.trace.iter().map(|s| (s.pc.0, s.fp.0)).collect();
        let last = k + 1 == n && ok.is_ok();
        if t.is_empty() || (!last && t.len() != cut + 1) || t.len() > cut + 1 {
            if !(last && steps == 0 && t.is_empty()) {
                return Err(("segment-length", format!("segment {k} of {n} has {} states, segments hold {cut} steps", t.len())));
            }
        }
        if k > 0 {
            if states.last() != t.first() {
                return Err(("segment-chain", format!("segment {k} starts in {:?}, the one before ended in {:?}", t.first(), states.last())));
            }
            states.pop();
        }
        states.extend(t);
    }
    let finished = states.len().saturating_sub(1);
    if !vm.trace.is_empty() {
        if n > 0 {
            states.pop();
        }
        states.extend(vm.trace.iter().map(|s| (s.pc.0, s.fp.0)));
    }
    for (k, (g, w)) in states.iter().zip(&want.states).enumerate() {
        if g != w {
            return Err(("wrong-state", format!("after {k} steps the registers are {g:?} instead of {w:?}")));
        }
    }
    if want.end == End::Done && states.len() != want.states.len() && steps > 0 {
        return Err(("wrong-length", format!("{} states instead of {}", states.len(), want.states.len())));
    }
    if states.len() < done {
        return Err(("wrong-length", format!("{} states instead of at least {done}", states.len())));
    }
    if want.silent {
        return Ok(());
    }
    // memory accesses
    let mut at = 0;
    for (k, s) in vm.segments.iter().enumerate() {
        let mine: Vec<(u32, Word)> = s.memory_trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect();
        let len = s.trace.len().saturating_sub(1);
        let theirs: Vec<(u32, Word)> = want.logs[at.min(steps)..(at + len).min(steps)].iter().flatten().copied().collect();
        if mine != theirs {
            let i = mine.iter().zip(&theirs).position(|(a, b)| a != b).unwrap_or(mine.len().min(theirs.len()));
            return Err(("wrong-access", format!("segment {k}: access {i} is {:?} instead of {:?} ({} and {} accesses)", mine.get(i), theirs.get(i), mine.len(), theirs.len())));
        }
        let bytes = s.serialize_segment_memory_trace();
        let expect: Vec<u8> = theirs.iter().flat_map(|(a, w)| [*a, w[0], w[1], w[2], w[3]]).flat_map(u32::to_le_bytes).collect();
        if bytes != expect {
            return Err(("wrong-bytes", format!("segment {k}: the memory trace is written differently from what it holds")));
        }
        let bytes = s.serialize_segment_trace();
        let expect: Vec<u8> = want.states[at..=at + len].iter().flat_map(|(p, f)| [*f, *p]).flat_map(u32::to_le_bytes).collect();
        if steps > 0 && bytes != expect {
            return Err(("wrong-bytes", format!("segment {k}: the trace is written differently from what it holds")));
        }
        at += len;
    }
    let pending: Vec<(u32, Word)> = vm.memory.trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect();
    let theirs: Vec<(u32, Word)> = want.logs[finished.min(steps)..].iter().flatten().copied().collect();
    let n = pending.len().min(theirs.len());
    if pending[..n] != theirs[..n] || (ok.is_ok() && n != pending.len()) {
        return Err(("wrong-access", format!("after the last complete segment: {:?} instead of {:?}", &pending[..n], &theirs[..n])));
    }
    // initial memories, replayed from the reference's accesses
    let mut mem = want.initial.mem.clone();
    let mut at = 0;
    for (k, s) in vm.segments.iter().enumerate() {
        for (a, w) in &mem {
            let got = s.initial_memory.get(&M31::from(*a)).map(|v| word(&v.0)).unwrap_or_default();
            if got != *w {
                return Err(("wrong-initial-memory", format!("segment {k}: cell {a} starts with {got:?} instead of {w:?}")));
            }
        }
        for (a, (v, c, m)) in &s.initial_memory {
            if mem.get(&a.0).copied().unwrap_or_default() != word(v) || c.0 != 0 || m.0 != 0 {
                return Err(("wrong-initial-memory", format!("segment {k}: cell {a} starts with {v} (clock {c}, multiplicity {m})")));
            }
        }
        let len = s.trace.len().saturating_sub(1);
        for (a, w) in want.logs[at.min(steps)..(at + len).min(steps)].iter().flatten() {
            mem.insert(*a, *w);
        }
        at += len;
    }
    // the memory at the end
    if ok.is_ok() {
        for (a, w) in &want.machine.mem {
            if w[1..] != [0, 0, 0] {
                continue;
            }
            let got = vm.memory.get_data_no_trace(M31::from(*a)).map(|m| m.0);
            if got.as_ref().ok() != Some(&w[0]) {
                return Err(("wrong-memory", format!("at the end cell {a} holds {got:?} instead of {}", w[0])));
            }
        }
    }
    Ok(())
}
impl Family for F {
    type Scn = MScn;
    fn id(&self) -> &'static str {
        "P15"
    }
    fn generate(&self, seed: u64, index: u64) -> MScn {
        let mut r = Rng::new(seed, index);
        let mut s = MScn { sched: Sched::sequential(r.next()), source: Source::Raw(vec![]), start: 0, args: vec![], rets: 0, extra: 0, cuts: vec![], limit: 2000 };
        if r.chance(1, 4) {
            let f = r#gen::Feat { ret_arrays: true, alias: true, ptrs: true, arrays: r.chance(2, 3), failing: true, nested_arrays: r.chance(1, 4), modules: 1 };
            let p = r#gen::random(&mut r, f, 4);
            let a = p.funs[0].params.iter().map(|q| r#gen::args(&mut r, &p, &q.1)).collect();
            let lv = *r.pick(&[Lv::None, Lv::Standard]);
            s.source = Source::Compiled(Box::new(p), a, lv);
            s.limit = 20_000;
        } else {
            let v = raw::random(&mut r);
            s.start = if r.chance(2, 3) { 0 } else { r.below(v.len()) };
            s.source = Source::Raw(v);
            s.args = (0..r.below(5)).map(|_| if r.chance(3, 4) { r.below(70000) as u32 } else { (r.next() % 2147483647) as u32 }).collect();
            s.rets = r.below(4) as u32;
            s.extra = if r.chance(1, 3) { r.below(6) as u32 } else { 0 };
        }
        s.cuts = (0..r.range(1, 3)).map(|_| *r.pick(&[1, 1, 2, 3, 5, 7, 10, 40, 200, 1000])).collect();
        s
    }
    fn run(&self, s: &MScn) -> RunOut {
        let t = s.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let program;
            let fp_offset;
            let (pc, w, argv, rets);
            match &t.source {
                Source::Raw(v) => {
                    let (ws, at) = words(v);
                    pc = at.get(t.start).copied().unwrap_or(0);
                    program = Program { data: data(v), metadata: Default::default(), entrypoints: Default::default() };
                    if program_words(&program) != ws {
                        out(|o| o.fail("wrong-encoding", format!("{v:?} is laid out in memory as {:?}", program_words(&program))));
                        return;
                    }
                    w = ws;
                    fp_offset = t.args.len() as u32 + t.rets + 2 + t.extra;
                    argv = t.args.clone();
                    rets = t.rets;
                }
                Source::Compiled(p, a, lv) => {
                    let texts: Vec<_> = render(p).into_iter().collect();
                    let world = World::new(&texts);
                    let Outcome::Done(c) = compile(&world.db, world.krate, *lv) else {
                        out(|o| o.probe("not_compiled"));
                        return;
                    };
                    program = (*c).clone();
                    w = program_words(&program);
                    let Some(e) = program.entrypoints.get("entry") else { return };
                    pc = e.pc as u32;
                    // scalar arguments, laid out by hand
                    let mut flat = vec![];
                    if !a.iter().all(|d| flatten(d, &mut flat)) {
                        out(|o| o.probe("array_arguments"));
                        flat.clear();
                        flat.resize(p.funs[0].params.iter().map(|q| slots(p, &q.1)).sum(), 0);
                    }
                    argv = flat;
                    rets = slots(p, &p.funs[0].ret) as u32;
                    fp_offset = argv.len() as u32 + rets + 2;
                }
            }
            let want = machine::run(&w, pc, fp_offset, &argv, rets, &[], t.limit);
            if want.end == End::Unmodelled {
                out(|o| o.probe("unmodelled"));
                return;
            }
            out(|o| {
                o.probe(match want.end {
                    End::Done => "run_to_the_end",
                    End::Fails(_) => "program_failed",
                    _ => "run_abandoned",
                });
                if let End::Fails(w) = want.end {
                    o.fault(&format!("program: {w}"), 1);
                }
                if want.machine.mem.keys().any(|a| *a > TOP - NEAR) {
                    o.probe("high_memory_used");
                }
            });
            for cut in &t.cuts {
                // every segment copies the memory
                let cut = if want.logs.len() / cut > 400 { want.logs.len() / 400 + 1 } else { *cut };
                let mut vm = match VM::try_from(&program) {
                    Ok(v) => v,
                    Err(e) => {
                        out(|o| o.fail("run-error", format!("cannot load: {e}")));
                        return;
                    }
                };
                // one budget unit per segment, one per step
                let units = match want.end {
                    End::Running => want.logs.len() + want.logs.len() / cut + 1,
                    _ => want.logs.len() * 2 + 50,
                };
                cairo_m_runner::sim::set_step_budget(units as u64);
                let a: Vec<M31> = argv.iter().map(|x| M31::from(*x)).collect();
                let before = drv::panics().len();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| vm.run_from_entrypoint(pc, fp_offset, &a, rets as usize, &RunnerOptions { max_steps: cut })));
                let r = match r {
                    Ok(r) => r.map_err(|e| e.to_string()),
                    Err(_) => {
                        let p = drv::panics();
                        let d = p.get(before..).and_then(|s| s.last()).map(|p| format!("{} at {}", p.message, p.location)).unwrap_or_default();
                        // the repository's own tests expect division by zero in the field to end the process
                        if want.end == End::Fails("division by zero") && d.contains("0 has no inverse") {
                            out(|o| o.probe("field_division_by_zero"));
                            Err(d)
                        } else {
                            out(|o| o.fail("machine-panic", format!("{d}; expected end: {:?}", want.end)));
                            return;
                        }
                    }
                };
                out(|o| {
                    o.comparisons += 1;
                    o.nontrivial |= want.logs.len() > 2;
                    if vm.segments.len() > 1 {
                        o.fault("run_cut_into_segments", vm.segments.len() as u64 - 1);
                    }
                });
                simk::mix(hash_str(&format!("{:?}{:?}", want.states.last(), want.logs.len())));
                if let Err((c, d)) = compare(&vm, r, &want, cut) {
                    let src = match &t.source {
                        Source::Raw(v) => format!("{v:?}"),
                        Source::Compiled(p, ..) => render(p).values().cloned().collect(),
                    };
                    out(|o| o.fail(c, format!("segments of {cut} steps, {:?} after {} steps: {d}\nstart {pc} arguments {argv:?} returns {rets}\n{src}", want.end, want.logs.len())));
                    return;
                }
            }
        });
        o.summary = match &s.source {
            Source::Raw(v) => format!("{} raw instructions, segments of {:?} steps", v.len(), s.cuts),
            Source::Compiled(p, _, l) => format!("compiled program of {} functions at {l:?}, segments of {:?} steps", p.funs.len(), s.cuts),
        };
        o
    }
    fn shrink(&self, s: &MScn) -> Vec<MScn> {
        let mut v = vec![];
        for k in 0..s.cuts.len() {
            if s.cuts.len() > 1 {
                let mut t = s.clone();
                t.cuts.remove(k);
                v.push(t);
            }
        }
        match &s.source {
            Source::Raw(i) => {
                for k in 0..i.len() {
                    let mut t = s.clone();
                    let mut j = i.clone();
                    j.remove(k);
                    if t.start > k {
                        t.start -= 1;
                    }
                    t.source = Source::Raw(j);
                    v.push(t);
                }
                for k in 0..s.args.len() {
                    let mut t = s.clone();
                    t.args.remove(k);
                    v.push(t);
                }
                for k in 0..i.len() {
                    for f in 1..i[k].len() {
                        if i[k][f] != 0 {
                            let mut t = s.clone();
                            let mut j = i.clone();
                            j[k][f] = 0;
                            t.source = Source::Raw(j);
                            v.push(t);
                        }
                    }
                }
            }
            Source::Compiled(p, a, l) => {
                for q in simpler(p) {
                    let mut t = s.clone();
                    t.source = Source::Compiled(Box::new(q), a.clone(), *l);
                    v.push(t);
                }
            }
        }
        v
    }
    fn sched<'a>(&self, _: &'a mut MScn) -> Option<&'a mut Sched> {
        None
    }
    fn budget(&self) -> (u64, u64) {
        (60_000, 20_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when more than two instructions were executed and every register state, memory access and segment boundary was compared with the reference machine; distinct by hash of the program's outcome and length".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        let mut r = REAL.to_vec();
        r.extend(["cairo-m-runner (virtual machine)", "cairo-m-common (instructions, segments)"]);
        (r, vec!["stwo-prover's field arithmetic, sonic-rs, paste: replaced by small equivalents (no network)"])
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "programs that touch memory further than 65536 words from both ends of the address space are not run".into(),
            "for a failing program the states and accesses up to the failing instruction are compared, not the text of the error".into(),
        ]
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["run_to_the_end", "program_failed", "run_abandoned", "high_memory_used", "run_cut_into_segments"]
    }
}
