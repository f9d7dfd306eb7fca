//! The instruction set, written down a second time: a machine over a plain map of memory words, which says the
//! register states, the memory accesses and the outcome of a run one instruction at a time.
use std::collections::BTreeMap;

pub const P: u64 = 2147483647;
pub const TOP: u32 = (1 << 28) - 1;
/// Memory further than this from both ends is not modelled (the real machine would allocate gigabytes).
pub const NEAR: u32 = 1 << 16;
pub type Word = [u32; 4];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
    /// the program is wrong
    Fails(&'static str),
    /// outside what is modelled
    Unmodelled,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Fails(&'static str),
    Unmodelled,
    /// the limit on steps was reached
    Running,
}
#[derive(Clone, Debug)]
pub struct Machine {
    pub mem: BTreeMap<u32, Word>,
    /// one more than the highest low address that was ever written
    pub low: u32,
    pub pc: u32,
    pub fp: u32,
    /// memory accesses of the current instruction
    pub log: Vec<(u32, Word)>,
    /// whether an instruction was executed whose accesses are not recorded
    pub silent: bool,
}
fn add(a: u32, b: u32) -> u32 {
    ((a as u64 + b as u64) % P) as u32
}
fn sub(a: u32, b: u32) -> u32 {
    ((a as u64 + P - b as u64) % P) as u32
}
fn mul(a: u32, b: u32) -> u32 {
    (a as u64 * b as u64 % P) as u32
}
fn inv(a: u32) -> u32 {
    let (mut b, mut e, mut r) = (a, P - 2, 1);
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
/// number of field elements of an instruction
pub fn size(op: u32) -> Option<usize> {
    Some(match op {
        11 => 1,
        12 | 13 | 46 | 47 => 2,
        9 | 10 | 14 | 43 | 50 => 3,
        0..=4 | 6 | 8 | 42 | 48 | 15..=17 | 23 | 24 | 28 | 36..=38 | 44 | 45 => 4,
        18 | 19 | 21 | 30 | 34 | 39..=41 => 5,
        22 => 6,
        _ => return None,
    })
}
pub const OPS: [u32; 40] = [
    0, 1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 28, 30, 34, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46,
    47, 48, 50, 0,
];
fn u32op(op: u32, a: u32, b: u32) -> u32 {
    match op {
        15 | 19 => a.wrapping_add(b),
        16 => a.wrapping_sub(b),
        17 | 21 => a.wrapping_mul(b),
        24 | 30 => (a == b) as u32,
        28 | 34 => (a < b) as u32,
        36 | 39 => a & b,
        37 | 40 => a | b,
        _ => a ^ b,
    }
}
impl Machine {
    pub fn new(words: &[Word]) -> Self {
        Machine {
            mem: words.iter().enumerate().map(|(k, w)| (k as u32, *w)).collect(),
            low: words.len() as u32,
            pc: 0,
            fp: words.len() as u32,
            log: vec![],
            silent: false,
        }
    }
    fn check(a: u32) -> Result<(), Why> {
        if a > TOP { Err(Why::Fails("address out of bounds")) } else { Ok(()) }
    }
    pub fn peek(&self, a: u32) -> Word {
        self.mem.get(&a).copied().unwrap_or_default()
    }
    pub fn put(&mut self, a: u32, w: Word) -> Result<(), Why> {
        Self::check(a)?;
        if a >= NEAR && a < TOP - NEAR {
            return Err(Why::Unmodelled);
        }
        if a < NEAR {
            self.low = self.low.max(a + 1);
        }
        self.mem.insert(a, w);
        Ok(())
    }
    fn get(&mut self, a: u32) -> Result<u32, Why> {
        Self::check(a)?;
        let w = self.peek(a);
        if w[1..] != [0, 0, 0] {
            return Err(Why::Fails("not a base field value"));
        }
        self.log.push((a, w));
        Ok(w[0])
    }
    fn set(&mut self, a: u32, v: u32) -> Result<(), Why> {
        let w = [v, 0, 0, 0];
        self.put(a, w)?;
        self.log.push((a, w));
        Ok(())
    }
    fn get32(&mut self, a: u32) -> Result<u32, Why> {
        let (l, h) = (self.get(a)?, self.get(add(a, 1))?);
        if l > 0xffff || h > 0xffff {
            return Err(Why::Fails("limb out of range"));
        }
        Ok(h << 16 | l)
    }
    fn set32(&mut self, a: u32, v: u32) -> Result<(), Why> {
        self.set(a, v & 0xffff)?;
        self.set(add(a, 1), v >> 16)
    }
    fn imm32(l: u32, h: u32) -> Result<u32, Why> {
        if l > 0xffff || h > 0xffff {
            return Err(Why::Fails("limb out of range"));
        }
        Ok(h << 16 | l)
    }
    /// One instruction; `log` holds its accesses afterwards, also when it fails.
    pub fn step(&mut self) -> Result<(), Why> {
        self.log.clear();
        let fetch = |m: &mut Self, a: u32| {
            if a >= m.low {
                return Err(Why::Fails("no instruction"));
            }
            let w = m.peek(a);
            m.log.push((a, w));
            Ok(w)
        };
        let pc = self.pc;
        let first = fetch(self, pc)?;
        let Some(n) = size(first[0]) else { return Err(Why::Fails("invalid opcode")) };
        let mut f = first[1..].to_vec();
        if n > 4 {
            f.extend(fetch(self, add(pc, 1))?);
        }
        let (op, a, b, c) = (first[0], f[0], f[1], f[2]);
        let fp = self.fp;
        let at = |o: u32| add(fp, o);
        let mut next = add(pc, n.div_ceil(4) as u32);
        match op {
            0..=3 => {
                let (x, y) = (self.get(at(a))?, self.get(at(b))?);
                let v = match op {
                    0 => add(x, y),
                    1 => sub(x, y),
                    2 => mul(x, y),
                    _ if y == 0 => return Err(Why::Fails("division by zero")),
                    _ => mul(x, inv(y)),
                };
                self.set(at(c), v)?;
            }
            4 | 6 | 48 => {
                let x = self.get(at(a))?;
                let v = match op {
                    4 => add(x, b),
                    6 => mul(x, b),
                    _ => (x <= b) as u32,
                };
                self.set(at(c), v)?;
            }
            50 => {
                if self.get(at(a))? != b {
                    return Err(Why::Fails("assertion"));
                }
            }
            8 => {
                let base = self.get(at(a))?;
                let v = self.get(add(base, b))?;
                self.set(at(c), v)?;
            }
            42 => {
                let base = self.get(at(a))?;
                let off = self.get(at(b))?;
                let v = self.get(add(base, off))?;
                self.set(at(c), v)?;
            }
            44 => {
                let base = self.get(at(a))?;
                let v = self.get(at(c))?;
                self.set(add(base, b), v)?;
            }
            45 => {
                let base = self.get(at(a))?;
                let off = self.get(at(b))?;
                let v = self.get(at(c))?;
                self.set(add(base, off), v)?;
            }
            9 => self.set(at(b), a)?,
            43 => self.set(at(b), add(fp, a))?,
            10 => {
                self.set(at(a), fp)?;
                self.set(add(at(a), 1), next)?;
                next = b;
                self.fp = add(at(a), 2);
            }
            11 => {
                next = self.get(sub(fp, 1))?;
                self.fp = self.get(sub(fp, 2))?;
            }
            12 => next = a,
            13 => next = add(pc, a),
            14 => {
                if self.get(at(a))? != 0 {
                    next = add(pc, b);
                }
            }
            15..=17 | 36..=38 => {
                let (x, y) = (self.get32(at(a))?, self.get32(at(b))?);
                self.set32(at(c), u32op(op, x, y))?;
            }
            24 | 28 => {
                let (x, y) = (self.get32(at(a))?, self.get32(at(b))?);
                self.set(at(c), u32op(op, x, y))?;
            }
            18 => {
                let (x, y) = (self.get32(at(a))?, self.get32(at(b))?);
                if y == 0 {
                    return Err(Why::Fails("division by zero"));
                }
                self.set32(at(c), x / y)?;
                self.set32(at(f[3]), x % y)?;
            }
            19 | 21 | 39..=41 => {
                let y = Self::imm32(b, c)?;
                let x = self.get32(at(a))?;
                self.set32(at(f[3]), u32op(op, x, y))?;
            }
            30 | 34 => {
                let y = Self::imm32(b, c)?;
                let x = self.get32(at(a))?;
                self.set(at(f[3]), u32op(op, x, y))?;
            }
            22 => {
                let y = Self::imm32(b, c)?;
                if y == 0 {
                    return Err(Why::Fails("division by zero"));
                }
                let x = self.get32(at(a))?;
                self.set32(at(f[3]), x / y)?;
                self.set32(at(f[4]), x % y)?;
            }
            23 => {
                let v = Self::imm32(a, b)?;
                self.set32(at(c), v)?;
            }
            _ => {
                // prints: reads that leave no trace
                self.silent = true;
                let k = self.log.len();
                if op == 46 {
                    self.get(at(a))?;
                } else {
                    self.get32(at(a))?;
                }
                self.log.truncate(k);
            }
        }
        self.pc = next;
        Ok(())
    }
}

/// A whole run: the states before each step and at the end, the accesses of each step, how it ended.
pub struct Run {
    pub states: Vec<(u32, u32)>,
    pub logs: Vec<Vec<(u32, Word)>>,
    pub end: End,
    pub silent: bool,
    pub machine: Machine,
    pub initial: Machine,
}
pub fn run(words: &[Word], pc: u32, fp_offset: u32, args: &[u32], rets: u32, cells: &[(u32, u32)], limit: usize) -> Run {
    let mut m = Machine::new(words);
    for (a, v) in cells {
        let _ = m.put(*a, [*v, 0, 0, 0]);
    }
    let last = words.len() as u32;
    let fp = add(last, fp_offset);
    let mut bad = None;
    for (i, v) in args.iter().enumerate() {
        if let Err(e) = m.put(sub(fp, args.len() as u32 + rets + 2 - i as u32), [*v, 0, 0, 0]) {
            bad = Some(e);
        }
    }
    m.pc = pc;
    m.fp = fp;
    for (o, v) in [(2, fp), (1, last)] {
        if let Err(e) = m.put(sub(fp, o), [v, 0, 0, 0]) {
            bad = Some(e);
        }
    }
    let initial = m.clone();
    let mut r = Run { states: vec![], logs: vec![], end: End::Running, silent: false, machine: m, initial };
    if let Some(e) = bad {
        r.end = match e {
            Why::Fails(w) => End::Fails(w),
            Why::Unmodelled => End::Unmodelled,
        };
        return r;
    }
    loop {
        let m = &mut r.machine;
        r.states.push((m.pc, m.fp));
        if m.pc == last || last == 0 {
            r.end = End::Done;
            break;
        }
        if r.logs.len() >= limit {
            break;
        }
        let e = m.step();
        r.logs.push(m.log.clone());
        match e {
            Ok(()) => {}
            Err(Why::Fails(w)) => {
                r.end = End::Fails(w);
                break;
            }
            Err(Why::Unmodelled) => {
                r.end = End::Unmodelled;
                break;
            }
        }
    }
    r.silent = r.machine.silent;
    r
}
