//! Random well-typed terminating programs.
use crate::lang::*;
use drv::Rng;

/// What the generated programs may contain.
#[derive(Clone, Copy)]
pub struct Feat {
    /// functions may return arrays (or values holding arrays)
    pub ret_arrays: bool,
    /// a second name for an array
    pub alias: bool,
    pub ptrs: bool,
    pub arrays: bool,
    /// operations that may fail at run time
    pub failing: bool,
    /// arrays in tuples and structs
    pub nested_arrays: bool,
    pub modules: usize,
}
struct Var {
    name: String,
    ty: Ty,
    fixed: bool,
}
struct G<'a> {
    r: &'a mut Rng,
    p: Prog,
    f: Feat,
    vars: Vec<Var>,
    uid: usize,
    fun: usize,
    loops: usize,
    /// inside a loop whose `continue` would skip the step
    no_continue: bool,
    calls_left: usize,
    /// mostly loops, branches and jumps
    control: bool,
}
const SMALL: [u32; 14] = [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 1000];
const EDGE: [u32; 12] = [0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fff_fffd, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xfffe_ffff, 0xffff_0000, 0xffff_ffff];
pub fn has_array(p: &Prog, t: &Ty) -> bool {
    match t {
        Ty::Arr(..) => true,
        Ty::Tup(v) => v.iter().any(|t| has_array(p, t)),
        Ty::St(k) => p.structs[*k].fields.iter().any(|f| has_array(p, &f.1)),
        _ => false,
    }
}
pub fn has_ptr(p: &Prog, t: &Ty) -> bool {
    match t {
        Ty::Ptr(..) => true,
        Ty::Arr(t, _) => has_ptr(p, t),
        Ty::Tup(v) => v.iter().any(|t| has_ptr(p, t)),
        Ty::St(k) => p.structs[*k].fields.iter().any(|f| has_ptr(p, &f.1)),
        _ => false,
    }
}
impl G<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.uid += 1;
        format!("{p}{}", self.uid)
    }
    fn num(&mut self) -> u32 {
        match self.r.below(8) {
            0..=4 => *self.r.pick(&SMALL),
            5 => *self.r.pick(&EDGE),
            _ => self.r.next() as u32,
        }
    }
    fn felt(&mut self) -> u32 {
        let n = self.num();
        if n as u64 >= P { n % 1000 } else { n }
    }
    fn scalar(&mut self) -> Ty {
        self.r.pick(&[Ty::Felt, Ty::U32, Ty::U32, Ty::Bool]).clone()
    }
    fn elem(&mut self) -> Ty {
        match self.r.below(8) {
            0..=4 => self.r.pick(&[Ty::Felt, Ty::U32]).clone(),
            5 => Ty::Bool,
            6 => {
                let t = Ty::Tup(vec![self.r.pick(&[Ty::Felt, Ty::U32]).clone(), self.scalar()]);
                t
            }
            _ => {
                let flat: Vec<usize> = (0..self.p.structs.len()).filter(|k| !has_array(&self.p, &Ty::St(*k)) && !has_ptr(&self.p, &Ty::St(*k))).collect();
                if flat.is_empty() { Ty::U32 } else { Ty::St(*self.r.pick(&flat)) }
            }
        }
    }
    fn ty(&mut self, d: usize, arrays: bool) -> Ty {
        match self.r.below(10) {
            6 if d > 0 => {
                let n = self.r.range(2, 3);
                Ty::Tup((0..n).map(|_| self.ty(d - 1, arrays && self.f.nested_arrays)).collect())
            }
            7 if !self.p.structs.is_empty() => {
                let ok: Vec<usize> = (0..self.p.structs.len()).filter(|k| arrays || !has_array(&self.p, &Ty::St(*k))).collect();
                if ok.is_empty() { self.scalar() } else { Ty::St(*self.r.pick(&ok)) }
            }
            8 if arrays && self.f.arrays => {
                let e = self.elem();
                Ty::Arr(Box::new(e), self.r.range(1, 5))
            }
            9 if arrays && self.f.ptrs => Ty::Ptr(Box::new(self.elem())),
            _ => self.scalar(),
        }
    }
    /// an expression reading an existing variable, if one leads to `t`
    fn from_vars(&mut self, t: &Ty, d: usize) -> Option<E> {
        let mut all: Vec<E> = vec![];
        let paths: Vec<(E, Ty)> = self.vars.iter().map(|v| (E::Var(v.name.clone()), v.ty.clone())).collect();
        let consts: Vec<(E, Ty)> = self.p.consts.iter().enumerate().map(|(k, c)| (E::Const(k), c.ty.clone())).collect();
        let mut work: Vec<(E, Ty, usize)> = paths.into_iter().chain(consts).map(|(e, t)| (e, t, 0)).collect();
        while let Some((e, ty, k)) = work.pop() {
            let constant = matches!(e, E::Const(_));
            if ty == *t && !(constant && matches!(ty, Ty::Arr(..) | Ty::Tup(_) | Ty::St(_))) && (self.f.alias || !has_array(&self.p, &ty)) {
                all.push(e.clone());
                if k > 0 {
                    all.push(e.clone());
                }
            }
            if k > 2 {
                continue;
            }
            match &ty {
                Ty::Tup(v) => v.iter().enumerate().for_each(|(i, t)| work.push((E::TupIx(Box::new(e.clone()), i), t.clone(), k + 1))),
                Ty::St(s) => self.p.structs[*s].fields.iter().enumerate().for_each(|(i, f)| work.push((E::Mem(Box::new(e.clone()), *s, i), f.1.clone(), k + 1))),
                Ty::Arr(el, n) => {
                    let i = self.ix(*n, d);
                    work.push((E::Ix(Box::new(e), Box::new(i)), (**el).clone(), k + 1))
                }
                Ty::Ptr(el) => {
                    // pointers are always made over 3 elements
                    let i = self.ix(3, d);
                    work.push((E::Ix(Box::new(e), Box::new(i)), (**el).clone(), k + 1))
                }
                _ => {}
            }
        }
        if all.is_empty() { None } else { Some(self.r.pick(&all).clone()) }
    }
    /// an index below `n`: a literal or a loop counter known to be small
    fn ix(&mut self, n: usize, _d: usize) -> E {
        let small: Vec<String> = self.vars.iter().filter(|v| v.fixed && v.name.starts_with('i') && v.ty == Ty::Felt && v.name.ends_with(&format!("_{}", n.min(9)))).map(|v| v.name.clone()).collect();
        if !small.is_empty() && self.r.chance(2, 3) {
            return E::Var(self.r.pick(&small).clone());
        }
        let lower: Vec<String> = self.vars.iter().filter(|v| v.fixed && v.ty == Ty::Felt && v.name.starts_with('i') && v.name.rsplit('_').next().and_then(|k| k.parse::<usize>().ok()).is_some_and(|k| k <= n)).map(|v| v.name.clone()).collect();
        if !lower.is_empty() && self.r.chance(1, 2) {
            return E::Var(self.r.pick(&lower).clone());
        }
        E::Plain(self.r.below(n) as u32)
    }
    fn lit(&mut self, t: &Ty) -> E {
        match t {
            Ty::Felt => E::Felt(self.felt()),
            Ty::U32 => E::U32(self.num()),
            Ty::Bool => E::Bool(self.r.chance(1, 2)),
            _ => unreachable!(),
        }
    }
    /// Arithmetic on plain literals, whose type comes from around it.
    fn plain(&mut self, t: &Ty, d: usize) -> E {
        let o = self.r.pick(&["+", "-", "*"]).to_string();
        let n = |g: &mut Self| if *t == Ty::U32 { g.num() } else { g.felt() };
        let l = if d > 0 && self.r.chance(1, 4) { self.plain(t, d - 1) } else { E::Plain(n(self)) };
        let r = match self.r.below(4) {
            0 if d > 0 => self.plain(t, d - 1),
            1 if d > 0 => E::Paren(Box::new(self.expr(t, d - 1))),
            _ => E::Plain(n(self)),
        };
        // a plain literal takes the type of the other side only around + and *, or from outside
        let o = if matches!(r, E::Plain(_)) || matches!(l, E::Plain(_)) && o != "-" { o } else { "+".to_string() };
        E::Paren(Box::new(if matches!(r, E::Plain(_)) || matches!(l, E::Plain(_)) { E::Bin(o, Box::new(l), Box::new(r)) } else { l }))
    }
    fn expr(&mut self, t: &Ty, d: usize) -> E {
        if self.r.chance(2, 5) || d == 0 {
            if let Some(e) = self.from_vars(t, d) {
                return e;
            }
        }
        if d > 0 && self.calls_left > 0 && self.r.chance(1, 5) {
            if let Some(e) = self.call(t, d) {
                return e;
            }
        }
        let b = |g: &mut Self, t: &Ty| Box::new(g.expr(t, d - 1));
        match t {
            Ty::Felt if d > 0 => match self.r.below(9) {
                0..=5 => {
                    let o = self.r.pick(&["+", "-", "*", "+", "-", "*", "/"]).to_string();
                    let l = b(self, t);
                    let r = if o == "/" && !(self.f.failing && self.r.chance(1, 6)) {
                        Box::new(E::Felt(self.felt().max(1)))
                    } else if o != "/" && self.r.chance(1, 10) {
                        Box::new(self.plain(t, d - 1))
                    } else if self.r.chance(1, 5) {
                        Box::new(E::Plain(self.felt()))
                    } else {
                        b(self, t)
                    };
                    E::Bin(o, l, r)
                }
                6 => { let x = b(self, t); if matches!(*x, E::Felt(_) | E::U32(_) | E::Plain(_) | E::Const(_)) { *x } else { E::Un('-', Box::new(E::Paren(x))) } },
                7 => {
                    let e = b(self, &Ty::U32);
                    // a cast fails beyond the field
                    E::Cast(if self.f.failing && self.r.chance(1, 4) { e } else { Box::new(E::Paren(Box::new(E::Bin("&".into(), e, Box::new(E::U32(*self.r.pick(&[1, 255, 0xffff, 0x3fff_ffff]))))))) })
                }
                _ => self.lit(t),
            },
            Ty::U32 if d > 0 => match self.r.below(10) {
                0..=7 => {
                    let o = self.r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "+", "*"]).to_string();
                    let l = b(self, t);
                    let r = if matches!(o.as_str(), "/" | "%") && !(self.f.failing && self.r.chance(1, 6)) {
                        Box::new(E::U32(self.num().max(1)))
                    } else if !matches!(o.as_str(), "/" | "%") && self.r.chance(1, 10) {
                        Box::new(self.plain(t, d - 1))
                    } else if self.r.chance(1, 5) {
                        Box::new(E::Plain(self.num()))
                    } else {
                        b(self, t)
                    };
                    let (l, r) = if matches!(o.as_str(), "&" | "|" | "^") { (paren(l), paren(r)) } else { (l, r) };
                    E::Bin(o, l, r)
                }
                8 => {
                    let x = b(self, t);
                    if matches!(*x, E::Felt(_) | E::U32(_) | E::Plain(_) | E::Const(_)) { *x } else { E::Un('-', Box::new(E::Paren(x))) }
                }
                _ => self.lit(t),
            },
            Ty::Bool if d > 0 => match self.r.below(10) {
                0..=3 => {
                    let o = self.r.pick(&["==", "!=", "<", "<=", ">", ">="]).to_string();
                    let l = b(self, &Ty::U32);
                    let r = if self.r.chance(1, 4) { Box::new(E::Plain(self.num())) } else { b(self, &Ty::U32) };
                    E::Bin(o, paren(l), paren(r))
                }
                4 | 5 => {
                    let o = self.r.pick(&["==", "!="]).to_string();
                    let (l, r) = (b(self, &Ty::Felt), b(self, &Ty::Felt));
                    E::Bin(o, paren(l), paren(r))
                }
                6 | 7 => {
                    let o = self.r.pick(&["&&", "||"]).to_string();
                    let (l, r) = (b(self, t), b(self, t));
                    E::Bin(o, paren(l), paren(r))
                }
                8 => E::Un('!', b(self, t)),
                _ => self.lit(t),
            },
            Ty::Felt | Ty::U32 | Ty::Bool => self.lit(t),
            Ty::Tup(v) => E::Tup(v.iter().map(|t| self.expr(t, d.saturating_sub(1))).collect()),
            Ty::St(k) => {
                let fs: Vec<Ty> = self.p.structs[*k].fields.iter().map(|f| f.1.clone()).collect();
                E::St(*k, fs.iter().map(|t| self.expr(t, d.saturating_sub(1))).collect())
            }
            Ty::Arr(t, n) => {
                if !has_array(&self.p, t) && self.r.chance(1, 3) {
                    E::Rep(Box::new(self.expr(t, d.saturating_sub(1))), *n)
                } else {
                    E::Arr((0..*n).map(|_| self.expr(t, d.saturating_sub(1))).collect())
                }
            }
            Ty::Ptr(t) => E::New((**t).clone(), 3),
            Ty::Unit => E::Tup(vec![]),
        }
    }
    fn call(&mut self, t: &Ty, d: usize) -> Option<E> {
        let me = self.fun;
        let c: Vec<usize> = (me + 1..self.p.funs.len()).filter(|k| self.p.funs[*k].ret == *t).collect();
        if c.is_empty() {
            return None;
        }
        self.calls_left -= 1;
        let k = *self.r.pick(&c);
        let ps: Vec<(String, Ty)> = self.p.funs[k].params.clone();
        Some(E::Call(
            k,
            ps.iter()
                .map(|(n, t)| {
                    if n == "fuel" {
                        E::Felt(self.r.below(5) as u32)
                    } else if matches!(t, Ty::Arr(..)) && self.r.chance(3, 4) {
                        // arrays go by reference
                        let v: Vec<String> = self.vars.iter().filter(|v| v.ty == *t).map(|v| v.name.clone()).collect();
                        if v.is_empty() { self.expr(t, d.saturating_sub(1)) } else { E::Var(self.r.pick(&v).clone()) }
                    } else {
                        self.expr(t, d.saturating_sub(1))
                    }
                })
                .collect(),
        ))
    }
    fn place(&mut self) -> Option<(E, Ty)> {
        let v: Vec<(String, Ty)> = self.vars.iter().filter(|v| !v.fixed).map(|v| (v.name.clone(), v.ty.clone())).collect();
        if v.is_empty() {
            return None;
        }
        let (n, mut t) = self.r.pick(&v).clone();
        let mut e = E::Var(n);
        loop {
            let go = self.r.chance(3, 4);
            match t.clone() {
                Ty::Tup(v) if go => {
                    let i = self.r.below(v.len());
                    e = E::TupIx(Box::new(e), i);
                    t = v[i].clone();
                }
                Ty::St(k) if go => {
                    let i = self.r.below(self.p.structs[k].fields.len());
                    e = E::Mem(Box::new(e), k, i);
                    t = self.p.structs[k].fields[i].1.clone();
                }
                Ty::Arr(el, n) if go || !self.f.alias => {
                    let i = self.ix(n, 1);
                    e = E::Ix(Box::new(e), Box::new(i));
                    t = *el;
                }
                Ty::Ptr(el) if go => {
                    let i = self.ix(3, 1);
                    e = E::Ix(Box::new(e), Box::new(i));
                    t = *el;
                }
                _ => break,
            }
        }
        Some((e, t))
    }
    fn scope<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let n = self.vars.len();
        let x = f(self);
        self.vars.truncate(n);
        x
    }
    fn body(&mut self, d: usize, most: usize) -> Vec<S> {
        self.scope(|g| {
            let n = g.r.range(1, most);
            let mut v = vec![];
            for _ in 0..n {
                g.stmt(d, &mut v);
            }
            v
        })
    }
    fn declare(&mut self, name: String, ty: Ty, fixed: bool) {
        self.vars.push(Var { name, ty, fixed });
    }
    fn stmt(&mut self, d: usize, v: &mut Vec<S>) {
        let most = if self.control { 3 } else { 2 };
        let k = if self.control && self.r.chance(1, 2) { *self.r.pick(&[5, 9, 11, 12, 12, 13, 13, 15]) } else { self.r.below(16) };
        match k {
            0..=3 => {
                let t = self.ty(2, true);
                let e = self.expr(&t, 3);
                let annotated = matches!(t, Ty::Ptr(_) | Ty::Arr(..)) || self.r.chance(1, 2);
                let e = match (&t, annotated) {
                    (Ty::U32, true) if self.r.chance(1, 6) => E::Plain(self.num()),
                    (Ty::Felt, _) if self.r.chance(1, 6) => E::Plain(self.felt()),
                    _ => e,
                };
                // an inner scope may hide an outer name
                let shadow: Vec<String> = self.vars.iter().filter(|x| !x.fixed && x.name.starts_with('h')).map(|x| x.name.clone()).collect();
                let name = if self.r.chance(1, 12) { self.fresh("h") } else { self.fresh("v") };
                let _ = shadow;
                v.push(S::Let(name.clone(), annotated.then(|| t.clone()), e));
                self.declare(name, t, false);
            }
            4 => {
                let n = self.r.range(2, 3);
                let ts: Vec<Ty> = (0..n).map(|_| self.ty(1, false)).collect();
                let e = self.expr(&Ty::Tup(ts.clone()), 3);
                let names: Vec<String> = ts.iter().map(|_| self.fresh("d")).collect();
                v.push(S::LetTup(names.clone(), e));
                for (n, t) in names.into_iter().zip(ts) {
                    self.declare(n, t, false);
                }
            }
            5..=8 => {
                if let Some((p, t)) = self.place() {
                    let e = self.expr(&t, 3);
                    v.push(S::Assign(p, e));
                }
            }
            9 | 10 if d > 0 => {
                let c = self.expr(&Ty::Bool, 2);
                let a = self.body(d - 1, 3);
                let b = self.r.chance(1, 2).then(|| self.body(d - 1, 3));
                v.push(S::If(c, a, b));
            }
            11 if d > 0 && self.loops < most => {
                // for over a small range, the counter usable as an index
                let n = self.r.range(1, if self.control { 3 } else { 5 });
                self.uid += 1;
                let i = format!("i{}_{n}", self.uid);
                self.loops += 1;
                let s = self.scope(|g| {
                    g.declare(i.clone(), Ty::Felt, true);
                    let nc = std::mem::replace(&mut g.no_continue, false);
                    let b = g.body(d - 1, 4);
                    g.no_continue = nc;
                    S::For(
                        Box::new(S::Let(i.clone(), None, E::Plain(0))),
                        E::Bin("!=".into(), Box::new(E::Var(i.clone())), Box::new(E::Plain(n as u32))),
                        Box::new(S::Assign(E::Var(i.clone()), E::Bin("+".into(), Box::new(E::Var(i)), Box::new(E::Plain(1))))),
                        b,
                    )
                });
                self.loops -= 1;
                v.push(s);
            }
            12 if d > 0 && self.loops < most => {
                // while / loop with a u32 counter counting down first
                let n = self.r.range(1, if self.control { 3 } else { 5 });
                let i = self.fresh("w");
                v.push(S::Let(i.clone(), Some(Ty::U32), E::Plain(n as u32)));
                self.declare(i.clone(), Ty::U32, true);
                self.loops += 1;
                let nc = std::mem::replace(&mut self.no_continue, false);
                let mut b = vec![S::Assign(E::Var(i.clone()), E::Bin("-".into(), Box::new(E::Var(i.clone())), Box::new(E::Plain(1))))];
                b.extend(self.body(d - 1, 3));
                self.no_continue = nc;
                self.loops -= 1;
                if self.r.chance(1, 2) {
                    v.push(S::While(E::Bin(">".into(), Box::new(E::Var(i)), Box::new(E::Plain(0))), b));
                } else {
                    b.insert(0, S::If(E::Bin("==".into(), Box::new(E::Var(i)), Box::new(E::Plain(0))), vec![S::Break], None));
                    v.push(S::Loop(b));
                }
            }
            13 if self.loops > 0 && (d > 0 || self.r.chance(2, 3)) => {
                let c = self.expr(&Ty::Bool, 2);
                let n = self.vars.len();
                let mut b = vec![];
                if self.r.chance(1, 3) {
                    self.stmt(0, &mut b);
                }
                let s = match self.r.below(8) {
                    0 => self.ret(),
                    k if k % 2 == 0 || self.no_continue => S::Break,
                    _ => S::Continue,
                };
                b.push(s);
                self.vars.truncate(n);
                let other = (self.r.chance(1, 3)).then(|| self.body(d.saturating_sub(1), 2));
                // the jump in the first branch or in the second
                let (b, other) = match other {
                    Some(o) if self.r.chance(1, 2) => (o, Some(b)),
                    o => (b, o),
                };
                v.push(S::If(c, b, other));
            }
            13 if d > 0 => {
                let c = self.expr(&Ty::Bool, 2);
                let r = self.ret();
                v.push(S::If(c, vec![r], None));
            }
            14 if self.calls_left > 0 => {
                let me = self.fun;
                if me + 1 < self.p.funs.len() {
                    let k = self.r.range(me + 1, self.p.funs.len() - 1);
                    let t = self.p.funs[k].ret.clone();
                    if let Some(e) = self.call(&t, 3) {
                        v.push(S::Expr(e));
                    }
                }
            }
            15 if self.f.failing && self.r.chance(1, 2) => {
                let c = self.expr(&Ty::Bool, 2);
                // mostly true
                let c = if self.r.chance(3, 4) { E::Bin("||".into(), Box::new(E::Paren(Box::new(c.clone()))), Box::new(E::Un('!', Box::new(E::Paren(Box::new(c)))))) } else { c };
                let _ = &c;
                v.push(S::Assert(c));
            }
            15 if d > 0 => {
                let b = self.body(d - 1, 3);
                v.push(S::Block(b));
            }
            _ => {
                let t = self.scalar();
                let e = self.expr(&t, 4);
                let n = self.fresh("v");
                v.push(S::Let(n.clone(), None, e));
                self.declare(n, t, false);
            }
        }
    }
    fn ret(&mut self) -> S {
        let t = self.p.funs[self.fun].ret.clone();
        if t == Ty::Unit { S::Return(None) } else { S::Return(Some(self.expr(&t, 3))) }
    }
}
fn paren(e: Box<E>) -> Box<E> {
    if matches!(*e, E::Bin(..)) { Box::new(E::Paren(e)) } else { e }
}
pub fn random(r: &mut Rng, f: Feat, size: usize) -> Prog {
    let mut g = G { r, p: Prog::default(), f, vars: vec![], uid: 0, fun: 0, loops: 0, no_continue: false, calls_left: 0, control: false };
    g.control = g.r.chance(1, 4);
    let nm = g.r.range(1, f.modules.max(1));
    g.p.modules = (0..nm).map(|k| if k == 0 { "main".into() } else { ["util", "geo", "math", "deep"][k - 1].to_string() }).collect();
    for k in 0..g.r.below(3) {
        let n = g.r.range(1, 3);
        let m = g.r.below(nm);
        let fields = (0..n).map(|i| (format!("f{i}"), g.ty(1, f.nested_arrays && i > 0))).collect();
        let name = format!("St{k}");
        g.p.structs.push(Struct { name, module: m, fields });
    }
    for k in 0..g.r.below(3) {
        let m = g.r.below(nm);
        let ty = if f.arrays && g.r.chance(1, 3) { Ty::Arr(Box::new(g.r.pick(&[Ty::Felt, Ty::U32]).clone()), g.r.range(1, 4)) } else { g.scalar() };
        let value = match &ty {
            Ty::Arr(t, n) => E::Arr((0..*n).map(|_| g.lit(t)).collect()),
            t => g.lit(t),
        };
        g.p.consts.push(Const { name: format!("C{k}"), module: m, ty, value });
    }
    let n = g.r.range(1, size);
    for k in 0..n {
        let np = g.r.below(4);
        let mut params: Vec<(String, Ty)> = (0..np)
            .map(|i| {
                let a = k > 0 || !f.ptrs;
                let t = g.ty(2, a);
                let t = if k == 0 && has_ptr(&g.p, &t) { Ty::U32 } else { t };
                (format!("p{i}"), t)
            })
            .collect();
        let ret = match g.r.below(8) {
            0 if k > 0 => Ty::Unit,
            _ => {
                let t = g.ty(2, f.ret_arrays && k > 0);
                if has_array(&g.p, &t) && !f.ret_arrays || k == 0 && has_ptr(&g.p, &t) { Ty::U32 } else { t }
            }
        };
        let rec = k > 0 && ret != Ty::Unit && g.r.chance(1, 6);
        if rec {
            params.insert(0, ("fuel".into(), Ty::Felt));
        }
        let module = if k == 0 { 0 } else { g.r.below(nm) };
        let name = if k == 0 { "entry".into() } else { format!("fun{k}") };
        g.p.funs.push(Fun { name, module, params, ret, body: vec![] });
    }
    // imports between modules must not form a circle: a module only uses modules after it
    for k in 1..n {
        let callers_max = g.p.funs[..k].iter().map(|f| f.module).max().unwrap_or(0);
        if g.p.funs[k].module < callers_max {
            g.p.funs[k].module = callers_max;
        }
    }
    let last = nm - 1;
    for s in &mut g.p.structs {
        s.module = last;
    }
    for c in &mut g.p.consts {
        c.module = last;
    }
    for k in (0..n).rev() {
        g.fun = k;
        g.calls_left = 4;
        g.loops = 0;
        g.vars = vec![];
        let ps = g.p.funs[k].params.clone();
        for (n, t) in ps {
            let fixed = n == "fuel";
            g.declare(n, t, fixed);
        }
        let mut body = vec![];
        let rec = g.p.funs[k].params.first().is_some_and(|p| p.0 == "fuel");
        if rec {
            let r = g.ret();
            body.push(S::If(E::Bin("==".into(), Box::new(E::Var("fuel".into())), Box::new(E::Plain(0))), vec![r], None));
        }
        for _ in 0..g.r.range(1, 6) {
            let d = if g.control { 3 } else { 2 };
            g.stmt(d, &mut body);
        }
        if rec {
            let ps = g.p.funs[k].params.clone();
            let mut args = vec![E::Bin("-".into(), Box::new(E::Var("fuel".into())), Box::new(E::Plain(1)))];
            args.extend(ps[1..].iter().map(|(_, t)| g.expr(t, 2)));
            let nme = g.fresh("r");
            body.push(S::Let(nme.clone(), None, E::Call(k, args)));
            let t = g.p.funs[k].ret.clone();
            g.declare(nme, t, false);
        }
        let r = g.ret();
        body.push(r);
        g.p.funs[k].body = body;
    }
    g.p
}
/// Arguments for function 0.
pub fn args(r: &mut Rng, p: &Prog, t: &Ty) -> D {
    let n = match r.below(4) {
        0 => *r.pick(&EDGE),
        1 => r.next() as u32,
        _ => *r.pick(&SMALL),
    };
    match t {
        Ty::Felt => D::Felt((n as u64 % P) as u32),
        Ty::U32 => D::U32(n),
        Ty::Bool => D::Bool(n & 1 == 1),
        Ty::Tup(v) => D::Agg(v.iter().map(|t| args(r, p, t)).collect()),
        Ty::St(k) => D::Agg(p.structs[*k].fields.iter().map(|f| args(r, p, &f.1)).collect()),
        Ty::Arr(t, n) => D::Arr((0..*n).map(|_| args(r, p, t)).collect()),
        _ => D::Unit,
    }
}
