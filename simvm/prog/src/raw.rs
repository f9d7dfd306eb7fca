//! Programs as bare instruction words, and their layout in memory.
use crate::lang::*;
use crate::machine::{self, Word};
use cairo_m_common::{Instruction, Program, ProgramData};
use drv::Rng;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

pub fn random(r: &mut Rng) -> Vec<Vec<u32>> {
    let n = r.range(1, 25);
    let neg = |k: u32| 2147483647 - k;
    let u32ish = r.chance(1, 3);
    let mut v: Vec<Vec<u32>> = vec![];
    // where each item will lie
    for k in 0..n {
        if r.chance(1, 40) {
            v.push(vec![r.below(60) as u32, r.below(5) as u32, r.below(5) as u32, r.below(5) as u32, 0]);
            continue;
        }
        let op = if u32ish && r.chance(1, 2) { *r.pick(&[15, 16, 17, 18, 19, 21, 22, 23, 24, 28, 30, 34, 36, 37, 38, 39, 40, 41]) } else { *r.pick(&machine::OPS) };
        let off = |r: &mut Rng| match r.below(12) {
            0..=6 => r.below(12) as u32,
            7..=9 => neg(r.range(1, 6) as u32),
            10 => neg(r.range(1, 40) as u32),
            _ => r.below(40) as u32,
        };
        let imm = |r: &mut Rng| match r.below(6) {
            0..=2 => r.below(20) as u32,
            3 => *r.pick(&[0xffff, 0x10000, 0x8000, 2147483646, 1 << 28, (1 << 28) - 1, (1 << 28) - 5]),
            4 => (r.next() % 65536) as u32,
            _ => (r.next() % 2147483647) as u32,
        };
        let jump = |r: &mut Rng| match r.below(8) {
            0 => neg(r.range(1, 8) as u32),
            1 => 0,
            _ => r.range(1, 5) as u32,
        };
        let limb = |r: &mut Rng| match r.below(8) {
            0 => *r.pick(&[0xffff, 0x10000]),
            1..=3 => r.below(4) as u32,
            _ => (r.next() % 65536) as u32,
        };
        let mut i = vec![op];
        match op {
            9 => i.extend([imm(r), off(r)]),
            43 => i.extend([if r.chance(1, 6) { imm(r) } else { off(r) }, off(r)]),
            10 => i.extend([r.range(0, 14) as u32, if r.chance(5, 6) { r.below(2 * n) as u32 } else { imm(r) }]),
            11 => {}
            12 => i.push(if r.chance(7, 8) { (k + r.below(6)) as u32 } else { imm(r) }),
            13 => i.push(jump(r)),
            14 => i.extend([off(r), jump(r)]),
            50 => i.extend([off(r), r.below(3) as u32]),
            4 | 6 | 48 => i.extend([off(r), imm(r), off(r)]),
            8 => i.extend([off(r), off(r), off(r)]),
            44 => i.extend([off(r), off(r), off(r)]),
            23 => i.extend([limb(r), limb(r), off(r)]),
            19 | 21 | 30 | 34 | 39..=41 => i.extend([off(r), limb(r), limb(r), off(r)]),
            22 => i.extend([off(r), limb(r), limb(r), off(r), off(r)]),
            18 => i.extend([off(r), off(r), off(r), off(r)]),
            46 | 47 => i.push(off(r)),
            _ => i.extend([off(r), off(r), off(r)]),
        }
        v.push(i);
    }
    v
}
pub fn words(v: &[Vec<u32>]) -> (Vec<Word>, Vec<u32>) {
    let mut w = vec![];
    let mut at = vec![];
    for i in v {
        at.push(w.len() as u32);
        // a bare word ends with a fifth, zero, element that no four-element instruction has
        let bare = machine::size(i[0]) != Some(i.len());
        for c in i[..if bare { 4.min(i.len()) } else { i.len() }].chunks(4) {
            let mut x = [0; 4];
            x[..c.len()].copy_from_slice(c);
            w.push(x);
        }
    }
    (w, at)
}
pub fn data(v: &[Vec<u32>]) -> Vec<ProgramData> {
    v.iter()
        .map(|i| {
            if machine::size(i[0]) == Some(i.len()) {
                let s: Result<Instruction, _> = i.iter().map(|x| M31::from(*x)).collect::<smallvec::SmallVec<_>>().try_into();
                if let Ok(x) = s {
                    return ProgramData::Instruction(x);
                }
            }
            let mut x = [0u32; 4];
            for (k, y) in i.iter().take(4).enumerate() {
                x[k] = *y;
            }
            ProgramData::Value(QM31::from_m31_array(x.map(M31::from)))
        })
        .collect()
}
pub fn word(q: &QM31) -> Word {
    q.to_m31_array().map(|m| m.0)
}
pub fn program_words(p: &Program) -> Vec<Word> {
    p.data.iter().flat_map(|d| d.to_qm31_vec()).map(|q| word(&q)).collect()
}
/// The memory cells of a value without arrays.
pub fn flatten(d: &D, v: &mut Vec<u32>) -> bool {
    match d {
        D::Felt(n) => v.push(*n),
        D::Bool(b) => v.push(*b as u32),
        D::U32(n) => v.extend([n & 0xffff, n >> 16]),
        D::Agg(x) => return x.iter().all(|d| flatten(d, v)),
        D::Unit => {}
        _ => return false,
    }
    true
}
pub fn slots(p: &Prog, t: &Ty) -> usize {
    match t {
        Ty::U32 => 2,
        Ty::Tup(v) => v.iter().map(|t| slots(p, t)).sum(),
        Ty::St(k) => p.structs[*k].fields.iter().map(|f| slots(p, &f.1)).sum(),
        Ty::Unit => 0,
        _ => 1,
    }
}
