//! What the adapter makes of a segment, in plain numbers, and what it has to be.
use cairo_m_common::execution::Segment;
use cairo_m_common::{Instruction, PublicAddressRanges};
use prog::machine::Word;
use std::collections::{BTreeMap, HashMap};
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

pub const P: u32 = 2147483647;
pub type Cell = (Word, u32, i64);
pub struct Bundle {
    pub group: u32,
    pub op: u32,
    pub regs: (u32, u32),
    pub clock: u32,
    pub words: Vec<Word>,
    pub prev: u32,
    pub span: (usize, usize),
}
/// index, depth, then value and multiplicity of left, right and parent
pub type Node = (u32, u32, [(u32, i64); 3]);
pub struct Input {
    pub limit: u32,
    pub roots: [Option<u32>; 2],
    pub trees: [Vec<Node>; 2],
    pub memory: [BTreeMap<u32, Cell>; 2],
    pub updates: Vec<(u32, u32, Word)>,
    pub regs: [(u32, u32); 2],
    pub bundles: Vec<Bundle>,
    /// address, previous clock, previous value, value
    pub data: Vec<(u32, u32, u32, u32)>,
    pub ranges: PublicAddressRanges,
    pub hashes: Vec<Vec<u32>>,
}
pub fn signed(m: M31) -> i64 {
    if m.0 > P / 2 { m.0 as i64 - P as i64 } else { m.0 as i64 }
}
pub fn word(q: &QM31) -> Word {
    q.to_m31_array().map(|m| m.0)
}
pub fn words_of(i: &Instruction) -> Vec<Word> {
    i.to_qm31_vec().iter().map(word).collect()
}
macro_rules! import {
    ($name:ident, $c:ident) => {
        pub fn $name(s: Segment, r: PublicAddressRanges) -> Result<Input, String> {
            let p = $c::adapter::import_from_runner_output(s, r).map_err(|e| e.to_string())?;
            let node = |n: &$c::adapter::merkle::NodeData| {
                let v = |x: $c::adapter::merkle::MerkleValue| (x.value.0, signed(x.multiplicity));
                (n.index.0, n.depth as u32, [v(n.left_value), v(n.right_value), v(n.parent_value)])
            };
            let mem = |m: &HashMap<M31, (QM31, M31, M31)>| m.iter().map(|(a, (v, c, m))| (a.0, (word(v), c.0, signed(*m)))).collect();
            let mut bundles = vec![];
            for (g, v) in &p.instructions.states_by_opcodes {
                for b in v {
                    bundles.push(Bundle {
                        group: *g,
                        op: b.instruction.instruction.opcode_value(),
                        regs: (b.registers.pc.0, b.registers.fp.0),
                        clock: b.clock.0,
                        words: words_of(&b.instruction.instruction),
                        prev: b.instruction.prev_clock.0,
                        span: (b.access_span.start as usize, b.access_span.len as usize),
                    });
                }
            }
            bundles.sort_by_key(|b| b.clock);
            let s = |s: &cairo_m_common::State| (s.pc.0, s.fp.0);
            let t = &p.merkle_trees;
            Ok(Input {
                limit: $c::adapter::memory::RC20_LIMIT,
                roots: [t.initial_root.map(|m| m.0), t.final_root.map(|m| m.0)],
                trees: [t.initial_tree.iter().map(node).collect(), t.final_tree.iter().map(node).collect()],
                memory: [mem(&p.memory.initial_memory), mem(&p.memory.final_memory)],
                updates: p.memory.clock_update_data.iter().map(|(a, c, v)| (a.0, c.0, word(v))).collect(),
                regs: [s(&p.instructions.initial_registers), s(&p.instructions.final_registers)],
                bundles,
                data: p.instructions.data_accesses.iter().map(|d| (d.address.0, d.prev_clock.0, d.prev_value.0, d.value.0)).collect(),
                ranges: p.public_address_ranges.clone(),
                hashes: p.poseidon2_inputs.iter().map(|h| h.iter().map(|m| m.0).collect()).collect(),
            })
        }
    };
}
import!(low, adapt_low);
import!(full, adapt_full);

pub fn h(l: u32, r: u32) -> u32 {
    use adapt_low::adapter::merkle::MerkleHasher;
    adapt_low::poseidon2::Poseidon2Hash::hash(M31(l), M31(r)).0
}
/// The root of a memory in which every other cell is zero.
pub fn root(m: &BTreeMap<u32, Word>) -> u32 {
    let mut level: BTreeMap<u32, u32> = BTreeMap::new();
    for (a, w) in m {
        for (j, v) in w.iter().enumerate() {
            level.insert(4 * a + j as u32, *v);
        }
    }
    let mut default = 0;
    for _ in 0..30 {
        let mut up = BTreeMap::new();
        for i in level.keys().map(|k| k / 2) {
            if !up.contains_key(&i) {
                let g = |k: u32| level.get(&k).copied().unwrap_or(default);
                up.insert(i, h(g(2 * i), g(2 * i + 1)));
            }
        }
        default = h(default, default);
        level = up;
    }
    level.get(&0).copied().unwrap_or(default)
}
/// How many of the last accesses of an instruction are writes.
fn writes(op: u32) -> usize {
    match op {
        11..=14 | 46 | 47 | 50 => 0,
        18 | 22 => 4,
        10 | 15..=17 | 19 | 21 | 23 | 36..=41 => 2,
        _ => 1,
    }
}
type Fail = (&'static str, String);
/// Everything the proof system needs of one segment.  `before` is the memory before it; returns the memory after.
/// `distinct`: no instruction may read a cell twice.
pub fn check(p: &Input, s: &Segment, before: &BTreeMap<u32, Word>, distinct: bool) -> Result<BTreeMap<u32, Word>, Fail> {
    let trace: Vec<(u32, u32)> = s.trace.iter().map(|s| (s.pc.0, s.fp.0)).collect();
    let log: Vec<(u32, Word)> = s.memory_trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect();
    let n = trace.len() - 1;
    // the memory argument: what is put in is taken out again
    let mut sum: HashMap<(u32, u32, Word), i64> = HashMap::new();
    fn put(sum: &mut HashMap<(u32, u32, Word), i64>, k: (u32, u32, Word), m: i64) {
        let e = sum.entry(k).or_insert(0);
        *e += m;
        if *e == 0 {
            sum.remove(&k);
        }
    }
    for side in &p.memory {
        for (a, (w, c, m)) in side {
            put(&mut sum, (*a, *c, *w), *m);
        }
    }
    let entry = |side: usize, a: u32| p.memory[side].get(&a).map(|(w, c, _)| (a, *c, *w));
    for a in p.ranges.program.clone().chain(p.ranges.input.clone()) {
        if let Some(e) = entry(0, a) {
            put(&mut sum, e, 1);
        }
    }
    for a in p.ranges.output.clone() {
        if let Some(e) = entry(1, a) {
            put(&mut sum, e, -1);
        }
    }
    for (a, c, w) in &p.updates {
        put(&mut sum, (*a, *c, *w), -1);
        put(&mut sum, (*a, c + p.limit, *w), 1);
    }
    // one bundle per step, in order
    if p.bundles.len() != n {
        return Err(("steps", format!("{} execution steps for {n} executed instructions", p.bundles.len())));
    }
    if p.regs != [trace[0], trace[n]] {
        return Err(("registers", format!("boundary registers {:?} instead of {:?}", p.regs, [trace[0], trace[n]])));
    }
    let mut at = 0;
    let mut used = 0;
    let mut here: Vec<u32> = vec![];
    for (k, b) in p.bundles.iter().enumerate() {
        let what = || format!("step {}: opcode {} at {:?}", k + 1, b.op, b.regs);
        if b.clock != k as u32 + 1 || b.regs != trace[k] || b.group != b.op {
            return Err(("steps", format!("{}: clock {}, listed under opcode {}, expected registers {:?}", what(), b.clock, b.group, trace[k])));
        }
        here.clear();
        let mut access = |sum: &mut HashMap<(u32, u32, Word), i64>, a: u32, c0: u32, w0: Word, w: Word, write: bool| {
            let again = here.contains(&a);
            here.push(a);
            let c = b.clock;
            if again && (!distinct || write) {
                if c0 != c {
                    return Err(("clock-gap", format!("{}: cell {a} is accessed twice, the second time said to be last accessed at {c0}", what())));
                }
            } else if c0 >= c || c - c0 - 1 > p.limit {
                return Err(("clock-gap", format!("{}: cell {a} is accessed at clock {c}, said to be last accessed at {c0}; at most {} fits the range check", what(), p.limit + 1)));
            }
            put(sum, (a, c0, w0), -1);
            put(sum, (a, c, w), 1);
            Ok(())
        };
        let m = b.words.len();
        if at + m + b.span.1 > log.len() || (0..m).any(|j| log[at + j] != (b.regs.0 + j as u32, b.words[j])) {
            let (f, g): (Vec<u32>, Vec<u32>) = (b.words.concat(), log[at..log.len().min(at + m)].iter().flat_map(|x| x.1).collect());
            let size = Instruction::size_in_m31s_for_opcode(b.op).unwrap_or(0);
            if !distinct && f.get(..size) == g.get(..size) {
                return Err(("padding", String::new()));
            }
            return Err(("instruction", format!("{}: decoded as {:?}, recorded are {:?}", what(), b.words, &log[at..log.len().min(at + m)])));
        }
        for (j, w) in b.words.iter().enumerate() {
            access(&mut sum, b.regs.0 + j as u32, b.prev, *w, *w, false)?;
        }
        at += m;
        if b.span.0 != used || used + b.span.1 > p.data.len() {
            return Err(("accesses", format!("{}: data accesses {:?} of {}, expected to start at {used}", what(), b.span, p.data.len())));
        }
        for (j, d) in p.data[used..used + b.span.1].iter().enumerate() {
            if log[at] != (d.0, [d.3, 0, 0, 0]) {
                return Err(("accesses", format!("{}: data access {d:?}, recorded is {:?}", what(), log[at])));
            }
            access(&mut sum, d.0, d.1, [d.2, 0, 0, 0], [d.3, 0, 0, 0], j + writes(b.op) >= b.span.1)?;
            at += 1;
        }
        used += b.span.1;
    }
    if used != p.data.len() || at != log.len() {
        return Err(("accesses", format!("{used} of {} data accesses belong to a step; {at} of {} recorded accesses are accounted for", p.data.len(), log.len())));
    }
    if let Some((k, m)) = sum.iter().min() {
        let of: Vec<_> = log.iter().filter(|x| x.0 == k.0).take(6).collect();
        return Err(("memory-balance", format!("(cell, clock, value) {k:?} is left {m} times ({} such entries); accesses of the cell: {of:?}, updates {:?}, initially {:?}, finally {:?}", sum.len(), p.updates.iter().filter(|u| u.0 == k.0).take(4).collect::<Vec<_>>(), p.memory[0].get(&k.0), p.memory[1].get(&k.0))));
    }
    // the commitments
    let mut after = before.clone();
    for (a, w) in &log {
        after.insert(*a, *w);
    }
    for (side, m, name) in [(0, before, "before"), (1, &after, "after")] {
        let want = root(m);
        match p.roots[side] {
            None if p.memory[side].is_empty() => {}
            Some(r) if r == want => {}
            r => {
                let d: Vec<_> = p.memory[side].iter().filter(|(a, x)| m.get(a).copied().unwrap_or_default() != x.0).take(5).collect();
                return Err(("root", format!("the root of the memory {name} the segment is {r:?} instead of {want}; cells that differ: {d:?}")));
            }
        }
    }
    let mut sum: HashMap<(u32, u32, u32, u32), i64> = HashMap::new();
    let mut put = |k, m: i64| *sum.entry(k).or_insert(0) += m;
    let mut hashed = p.hashes.iter();
    for side in 0..2 {
        let Some(r) = p.roots[side] else { continue };
        put((0, 0, r, r), 1);
        for (i, d, [l, rr, q]) in &p.trees[side] {
            if h(l.0, rr.0) != q.0 || i % 2 != 0 || *d == 0 || [l, rr, q].iter().any(|x| !(0..=2).contains(&x.1)) {
                return Err(("tree", format!("node {i} at depth {d}: children {l:?} and {rr:?} under {q:?}")));
            }
            let mut x = vec![0; 16];
            x[0] = l.0;
            x[1] = rr.0;
            if hashed.next() != Some(&x) {
                return Err(("tree", format!("the hash of node {i} at depth {d} is not among those to prove")));
            }
            put((*i, *d, l.0, r), l.1);
            put((*i + 1, *d, rr.0, r), rr.1);
            put((*i / 2, *d - 1, q.0, r), -q.1);
        }
        for (a, (w, _, _)) in &p.memory[side] {
            for j in 0..4 {
                put((4 * a + j, 30, w[j as usize], r), -1);
            }
        }
        let public: Vec<u32> = if side == 0 { p.ranges.program.clone().chain(p.ranges.input.clone()).collect() } else { p.ranges.output.clone().collect() };
        for a in public {
            if let Some((_, _, w)) = entry(side, a) {
                for j in 0..4 {
                    put((4 * a + j, 30, w[j as usize], r), -1);
                }
            }
        }
    }
    if hashed.next().is_some() {
        return Err(("tree", "there are more hashes to prove than nodes".into()));
    }
    if let Some((k, m)) = sum.iter().filter(|e| *e.1 != 0).min() {
        return Err(("tree-balance", format!("(index, depth, value, root) {k:?} is left {m} times")));
    }
    Ok(after)
}
