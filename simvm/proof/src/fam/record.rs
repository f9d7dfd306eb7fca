//! From an executed program to the input of the prover: every instruction and every memory access is there, the
//! memory argument balances, the commitments are those of the memory before and after, segments follow on each
//! other, the public cells are the program, what was passed and what was returned; a damaged record is refused.
use crate::neutral::{self, Input};
use crate::*;
use cairo_m_common::execution::Segment;
use cairo_m_common::{Program, PublicAddressRanges};
use cairo_m_runner::RunnerOptions;
use cairo_m_runner::vm::VM;
use prog::machine::Word;
use prog::raw;
use std::collections::BTreeMap;
use stwo_prover::core::fields::m31::M31;
pub struct F;

#[derive(Clone, Serialize, Deserialize)]
pub enum Source {
    /// instructions, where to start, arguments, return slots
    Raw(Vec<Vec<u32>>, usize, Vec<u32>, u32),
    Compiled(Box<Prog>, Vec<D>, Lv),
    /// a loop of so many rounds of two steps, between two uses of a cell
    Long(u32),
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Damage {
    /// the record of memory accesses loses its end
    CutLog(usize),
    /// an instruction is not one any more
    BadOpcode(usize),
    NoTrace,
    /// one element of a recorded value is another
    Flip(usize, usize, u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct RScn {
    pub sched: Sched,
    pub source: Source,
    pub cut: usize,
    /// with a range check of 3 bits instead of 20
    pub low: bool,
    pub damage: Vec<(usize, Damage)>,
}
type Words = BTreeMap<u32, Word>;
fn memory(s: &Segment) -> Words {
    s.initial_memory.iter().map(|(a, v)| (a.0, neutral::word(&v.0))).collect()
}
fn guarded(low: bool, s: Segment, r: PublicAddressRanges) -> Result<Result<Input, String>, String> {
    let before = drv::panics().len();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if low { neutral::low(s, r) } else { neutral::full(s, r) }))
        .map_err(|_| drv::panics().get(before..).and_then(|s| s.last()).map(|p| format!("{} at {}", p.message, p.location)).unwrap_or_default())
}
fn damage(s: &mut Segment, d: &Damage) -> Option<bool> {
    // Some(true): must be refused
    let n = s.trace.len().saturating_sub(1);
    let log = s.memory_trace.get_mut();
    match d {
        Damage::CutLog(k) => {
            if log.is_empty() || n == 0 {
                return None;
            }
            let k = 1 + k % log.len();
            log.truncate(log.len() - k);
            Some(true)
        }
        Damage::BadOpcode(k) => {
            // the first access of a segment is that of an instruction
            if log.is_empty() || n == 0 {
                return None;
            }
            let _ = k;
            log[0].value.0.0 = M31(77);
            Some(true)
        }
        Damage::NoTrace => {
            s.trace.clear();
            Some(true)
        }
        Damage::Flip(k, j, v) => {
            if log.is_empty() {
                return None;
            }
            let k = k % log.len();
            let q = &mut log[k].value;
            match j % 4 {
                0 => q.0.0 = M31(*v),
                1 => q.0.1 = M31(*v),
                2 => q.1.0 = M31(*v),
                _ => q.1.1 = M31(*v),
            }
            Some(false)
        }
    }
}
/// The cells a value occupies in the given memory, against the value.
fn holds(p: &Prog, t: &Ty, d: &D, m: &Words, at: &mut u32, whole: &mut dyn FnMut(u32, u32)) -> Result<(), String> {
    let mut cell = |v: Option<u32>| {
        let a = *at;
        *at += 1;
        let got = m.get(&a).copied().unwrap_or_default();
        match v {
            Some(v) if got != [v, 0, 0, 0] => Err(format!("cell {a} holds {got:?} instead of {v}")),
            _ => Ok(got[0]),
        }
    };
    match (t, d) {
        (_, D::Felt(n)) => cell(Some(n % neutral::P)).map(|_| ()),
        (_, D::Bool(b)) => cell(Some(*b as u32)).map(|_| ()),
        (_, D::U32(n)) => {
            cell(Some(n & 0xffff))?;
            cell(Some(n >> 16)).map(|_| ())
        }
        (Ty::Tup(t), D::Agg(v)) => t.iter().zip(v).try_for_each(|(t, v)| holds(p, t, v, m, at, whole)),
        (Ty::St(k), D::Agg(v)) => p.structs[*k].fields.iter().zip(v).try_for_each(|(f, v)| holds(p, &f.1, v, m, at, whole)),
        (Ty::Arr(t, _), D::Arr(v)) => {
            let mut q = cell(None)?;
            let from = q;
            for v in v {
                holds(p, t, v, m, &mut q, whole)?;
            }
            whole(from, q);
            Ok(())
        }
        (_, D::Unit) => Ok(()),
        _ => {
            cell(None)?;
            Ok(())
        }
    }
}
fn fail(c: &str, d: String) {
    out(|o| o.fail(c.to_string(), d));
}
impl Family for F {
    type Scn = RScn;
    fn id(&self) -> &'static str {
        "P16"
    }
    fn generate(&self, seed: u64, index: u64) -> RScn {
        let mut r = Rng::new(seed, index);
        let sched = Sched::sequential(r.next());
        let low = r.chance(4, 5);
        let source = if r.chance(1, 400) {
            let k = 1 << 19;
            Source::Long(*r.pick(&[k - 1, k, 2 * k - 2, 2 * k - 1, 2 * k, 3 * k]) - r.below(9) as u32)
        } else if r.chance(1, 2) {
            let v = raw::random(&mut r);
            let start = if r.chance(2, 3) { 0 } else { r.below(v.len()) };
            let args = (0..r.below(5)).map(|_| if r.chance(3, 4) { r.below(70000) as u32 } else { (r.next() % 2147483647) as u32 }).collect();
            Source::Raw(v, start, args, r.below(4) as u32)
        } else {
            let arrays = r.chance(2, 3);
            let f = r#gen::Feat { ret_arrays: arrays && r.chance(1, 2), alias: true, ptrs: arrays && r.chance(1, 2), arrays, failing: r.chance(1, 4), nested_arrays: arrays && r.chance(1, 3), modules: 1 };
            let size = *r.pick(&[2, 4, 6]);
            let p = r#gen::random(&mut r, f, size);
            let a = p.funs[0].params.iter().map(|q| r#gen::args(&mut r, &p, &q.1)).collect();
            let lv = *r.pick(&[Lv::None, Lv::Standard]);
            Source::Compiled(Box::new(p), a, lv)
        };
        let long = matches!(source, Source::Long(_));
        let cut = if long { 1 << 24 } else { *r.pick(&[1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 40, 200, 100_000]) };
        let damage = (0..if long { 0 } else { r.below(3) })
            .map(|_| {
                let d = match r.below(5) {
                    0 | 1 => Damage::CutLog(r.below(50)),
                    2 => Damage::BadOpcode(r.below(50)),
                    3 => Damage::NoTrace,
                    _ => Damage::Flip(r.below(500), r.below(6), (r.next() % 60) as u32),
                };
                (r.below(8), d)
            })
            .collect();
        RScn { sched, source, cut, low: low && !long, damage }
    }
    fn run(&self, s: &RScn) -> RunOut {
        let t = s.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let mut cut = t.cut;
            let segments: Vec<Segment>;
            let ranges: PublicAddressRanges;
            let mut compiled = false;
            let mut finished = true;
            let text;
            // what the public cells have to hold: (address of the first, value, type)
            let mut returned = None;
            match &t.source {
                Source::Raw(..) | Source::Long(_) => {
                    let long;
                    let (v, start, args, rets) = match &t.source {
                        Source::Raw(v, s, a, n) => (v, *s, a.clone(), *n),
                        Source::Long(k) => {
                            // [fp] = k; [fp+1] = 7; loop: [fp] -= 1; while [fp] != 0; [fp+2] = [fp+1] + argument
                            let m = neutral::P;
                            long = vec![vec![9, *k, 0], vec![9, 7, 1], vec![4, 0, m - 1, 0], vec![14, 0, m - 1], vec![0, 1, m - 4, 2], vec![9, 1, m - 3]];
                            (&long, 0, vec![5], 1)
                        }
                        _ => unreachable!(),
                    };
                    let (w, at) = raw::words(v);
                    let program = Program { data: raw::data(v), metadata: Default::default(), entrypoints: Default::default() };
                    let budget = if matches!(t.source, Source::Long(_)) { 5_000_000 } else { 3000 };
                    // an odd number of steps: count them first, so that segments stay few
                    let go = |cut: usize| {
                        let mut vm = VM::try_from(&program).ok()?;
                        cairo_m_runner::sim::set_step_budget(budget);
                        let a: Vec<M31> = args.iter().map(|x| M31::from(*x)).collect();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            vm.run_from_entrypoint(at.get(start).copied().unwrap_or(0), args.len() as u32 + rets + 2, &a, rets as usize, &RunnerOptions { max_steps: cut })
                        }));
                        Some((vm.segments, r.is_ok_and(|r| r.is_ok())))
                    };
                    let reach = prog::machine::run(&w, at.get(start).copied().unwrap_or(0), args.len() as u32 + rets + 2, &args, rets, &[], 2500);
                    if reach.end == prog::machine::End::Unmodelled || reach.silent || reach.machine.mem.keys().any(|a| (3000..prog::machine::TOP - 3000).contains(a)) {
                        out(|o| o.probe("unmodelled"));
                        return;
                    }
                    if !matches!(t.source, Source::Long(_)) {
                        cut = cut.max(reach.logs.len() / 40 + 1);
                    }
                    let Some((sg, ok)) = go(cut) else { return };
                    segments = sg;
                    finished = ok;
                    // instructions are not to be written over: an access by data covers one element of a cell
                    if segments.iter().any(|s| s.memory_trace.borrow().iter().any(|e| w.get(e.addr.0 as usize).is_some_and(|w| *w != neutral::word(&e.value)))) {
                        out(|o| o.probe("rewrites_itself"));
                        return;
                    }
                    // nor are the second words of instructions to be used for anything else: they share a previous clock
                    let mut seconds: BTreeMap<u32, i64> = BTreeMap::new();
                    let mut uses: BTreeMap<u32, i64> = BTreeMap::new();
                    for s in &segments {
                        for x in s.trace.iter().take(s.trace.len().saturating_sub(1)) {
                            let op = w.get(x.pc.0 as usize).map_or(0, |w| w[0]);
                            if cairo_m_common::Instruction::size_in_m31s_for_opcode(op).is_some_and(|n| n > 4) {
                                *seconds.entry(x.pc.0 + 1).or_default() += 1;
                            }
                        }
                        for e in s.memory_trace.borrow().iter() {
                            *uses.entry(e.addr.0).or_default() += 1;
                        }
                    }
                    if seconds.iter().any(|(a, n)| uses.get(a) != Some(n)) {
                        out(|o| o.probe("overlapping_instructions"));
                        return;
                    }
                    ranges = PublicAddressRanges::new(w.len() as u32, args.len(), rets as usize);
                    text = format!("{v:?} from {start} arguments {args:?}");
                }
                Source::Compiled(p, a, lv) => {
                    let texts: Vec<_> = render(p).into_iter().collect();
                    text = format!("{lv:?} arguments {a:?}\n{}", texts.iter().map(|t| t.1.clone()).collect::<String>());
                    let world = World::new(&texts);
                    let Outcome::Done(c) = compile(&world.db, world.krate, *lv) else {
                        out(|o| o.probe("not_compiled"));
                        return;
                    };
                    let ins = inputs(p, a);
                    let go = |cut: usize| {
                        cairo_m_runner::sim::set_step_budget(60_000);
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cairo_m_runner::run_cairo_program(&c, "entry", &ins, RunnerOptions { max_steps: cut })))
                    };
                    let Ok(Ok(x)) = go(1 << 20) else {
                        out(|o| o.probe("program_failed"));
                        return;
                    };
                    let steps: usize = x.vm.segments.iter().map(|s| s.trace.len() - 1).sum();
                    cut = cut.max(steps / 40 + 1);
                    let Ok(Ok(x)) = go(cut) else {
                        fail("cut-run-fails", format!("segments of {cut} steps\n{text}"));
                        return;
                    };
                    segments = x.vm.segments;
                    ranges = x.public_address_ranges;
                    returned = Some((p.clone(), a.clone(), x.return_values, c.data.iter().flat_map(|d| d.to_qm31_vec()).map(|q| neutral::word(&q)).collect::<Vec<_>>()));
                    compiled = true;
                }
            }
            if segments.is_empty() || segments[0].trace.is_empty() {
                out(|o| o.probe("nothing_executed"));
                return;
            }
            out(|o| {
                o.probe(if compiled { "compiled_program" } else { "raw_program" });
                if segments.len() > 1 {
                    o.fault("run_cut_into_segments", segments.len() as u64 - 1);
                }
            });
            let n = segments.len();
            let first = memory(&segments[0]);
            let mut mem = first.clone();
            let mut last: Option<Input> = None;
            for (k, seg) in segments.iter().enumerate() {
                let name = || format!("segment {k} of {n} ({} steps), range check {}: ", seg.trace.len() - 1, if t.low { 3 } else { 20 });
                let p = match guarded(t.low, seg.clone(), ranges.clone()) {
                    Ok(Ok(p)) => p,
                    Ok(Err(e)) => return fail("refused", format!("{}{e}\n{text}", name())),
                    Err(e) => return fail("panic", format!("{}{e}\n{text}", name())),
                };
                out(|o| {
                    o.comparisons += 1;
                    o.nontrivial |= p.bundles.len() > 2;
                    if !p.updates.is_empty() {
                        o.probe("clock_updates");
                    }
                    if !t.low && !p.updates.is_empty() {
                        o.probe("clock_updates_of_20_bits");
                    }
                });
                match neutral::check(&p, seg, &mem, compiled) {
                    Ok(m) => mem = m,
                    Err(("padding", _)) => return out(|o| o.probe("instruction_not_canonical")),
                    Err((c, d)) => return fail(c, format!("{}{d}\n{text}", name())),
                }
                if let Some(l) = &last {
                    if l.roots[1] != p.roots[0] || l.regs[1] != p.regs[0] {
                        return fail("chain", format!("{}starts with root {:?} and registers {:?}, the one before ended with {:?} and {:?}\n{text}", name(), p.roots[0], p.regs[0], l.roots[1], l.regs[1]));
                    }
                }
                simk::mix(p.roots[1].unwrap_or(0) as u64);
                last = Some(p);
            }
            if let (Some((p, a, values, words)), true) = (&returned, finished) {
                let wrong = |d: String| fail("public-data", format!("public cells {ranges:?}: {d}\n{text}"));
                // the program
                let got: Vec<Word> = ranges.program.clone().map(|a| first.get(&a).copied().unwrap_or_default()).collect();
                if got != *words {
                    return wrong("those of the program do not hold it".into());
                }
                // the arguments: the last cells of the input are their slots, arrays lie before them
                let slots: usize = p.funs[0].params.iter().map(|q| raw::slots(p, &q.1)).sum();
                let mut at = ranges.input.end.wrapping_sub(slots as u32);
                let mut arrays = vec![];
                for (q, d) in p.funs[0].params.iter().zip(a) {
                    if let Err(e) = holds(p, &q.1, d, &first, &mut at, &mut |a, b| arrays.push((a, b))) {
                        return wrong(format!("arguments: {e}"));
                    }
                }
                if ranges.input.start != ranges.program.end || at != ranges.input.end {
                    return wrong("input".into());
                }
                for (a, b) in arrays {
                    out(|o| o.probe("array_argument"));
                    if a < ranges.input.start || b > ranges.input.end - slots as u32 {
                        return wrong(format!("the array passed in cells {a}..{b} is not public"));
                    }
                }
                // the results
                let d = outputs(values);
                let ret = &p.funs[0].ret;
                let mut at = ranges.output.start;
                let r = match (ret, &d) {
                    // several results are handed over like one tuple
                    _ => holds(p, ret, &d, &mem, &mut at, &mut |_, _| {}),
                };
                if let Err(e) = r {
                    return wrong(format!("results: {e}"));
                }
                if at != ranges.output.end || ranges.output.start != ranges.input.end {
                    return wrong("output".into());
                }
                out(|o| o.probe("public_cells_compared"));
            }
            // damaged records
            for (k, d) in &t.damage {
                let mut seg = segments[k % n].clone();
                let Some(refuse) = damage(&mut seg, d) else { continue };
                out(|o| o.fault(match d {
                    Damage::CutLog(_) => "truncated_access_record",
                    Damage::BadOpcode(_) => "corrupt_instruction",
                    Damage::NoTrace => "empty_trace",
                    Damage::Flip(..) => "corrupt_value",
                }, 1));
                match guarded(t.low, seg, ranges.clone()) {
                    Err(e) => return fail("damage-panic", format!("{d:?} in segment {}: {e}\n{text}", k % n)),
                    Ok(Ok(_)) if refuse => return fail("damage-accepted", format!("{d:?} in segment {} is accepted\n{text}", k % n)),
                    _ => {}
                }
            }
        });
        o.summary = match &s.source {
            Source::Raw(v, ..) => format!("{} raw instructions, segments of {} steps, damage {:?}", v.len(), s.cut, s.damage),
            Source::Compiled(p, _, l) => format!("compiled program of {} functions at {l:?}, segments of {} steps, damage {:?}", p.funs.len(), s.cut, s.damage),
            Source::Long(k) => format!("a loop of {k} rounds in one segment"),
        };
        o
    }
    fn shrink(&self, s: &RScn) -> Vec<RScn> {
        let mut v = vec![];
        for k in 0..s.damage.len() {
            let mut t = s.clone();
            t.damage.remove(k);
            v.push(t);
        }
        match &s.source {
            Source::Raw(i, st, a, n) => {
                for k in 0..i.len() {
                    let mut j = i.clone();
                    j.remove(k);
                    let mut t = s.clone();
                    t.source = Source::Raw(j, if *st > k { st - 1 } else { *st }, a.clone(), *n);
                    v.push(t);
                }
                for k in 0..a.len() {
                    let mut b = a.clone();
                    b.remove(k);
                    let mut t = s.clone();
                    t.source = Source::Raw(i.clone(), *st, b, *n);
                    v.push(t);
                }
                for k in 0..i.len() {
                    for f in 1..i[k].len() {
                        if i[k][f] != 0 {
                            let mut j = i.clone();
                            j[k][f] = 0;
                            let mut t = s.clone();
                            t.source = Source::Raw(j, *st, a.clone(), *n);
                            v.push(t);
                        }
                    }
                }
            }
            Source::Compiled(p, a, l) => {
                for q in simpler(p) {
                    let mut t = s.clone();
                    t.source = Source::Compiled(Box::new(q), a.clone(), *l);
                    v.push(t);
                }
            }
            Source::Long(k) => {
                for c in [k / 2, k - 1] {
                    let mut t = s.clone();
                    t.source = Source::Long(c.max(1));
                    if c < *k && c > 0 {
                        v.push(t);
                    }
                }
            }
        }
        v
    }
    fn sched<'a>(&self, _: &'a mut RScn) -> Option<&'a mut Sched> {
        None
    }
    fn budget(&self) -> (u64, u64) {
        (40_000, 20_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when the prover input of a segment of more than two steps was checked; distinct by hash of the final memory roots".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["cairo-m-prover's adapter (bundles, memory, Merkle trees), built from its own source files", "cairo-m-runner (virtual machine, argument layout, segments)", "cairo-m-common", "cairo-m-compiler and its crates (for compiled programs)"],
            vec!["Poseidon2: a cheap two-to-one hash", "the range check width: 3 bits in most runs, 20 in the others", "the constraint system and stwo: not run", "stwo-prover's field arithmetic, sonic-rs, paste: replaced by small equivalents (no network)"],
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the second word of a two-word instruction takes the previous clock of the first (as the constraint system does)".into(),
            "no instruction of a compiled program may read a cell twice (it may read a cell and then write it); hand-written ones may".into(),
            "damage to recorded values need not be noticed, only survived; truncation and invalid instructions must be refused".into(),
        ]
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["compiled_program", "raw_program", "clock_updates", "public_cells_compared", "array_argument", "run_cut_into_segments", "truncated_access_record", "corrupt_instruction"]
    }
}
