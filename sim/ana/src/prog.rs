//! Random programs and a small reference model of what is wrong with them: a syntax tree of a subset of
//! the language, a generator of well-typed trees into which marked errors are planted, and a renderer
//! that resolves names, tracks uses and follows control flow by itself while it writes the text.
use serde::{Deserialize, Serialize};
use drv::Rng;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Ty {
    Felt,
    U32,
    Bool,
    Tup(Vec<Ty>),
    Arr(Box<Ty>, usize),
    St(usize),
    /// the type of functions without a declared one
    Unit,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum E {
    Lit(u32, u8),
    Bool(bool),
    Var(String),
    Bin(String, Box<E>, Box<E>),
    Un(char, Box<E>),
    Paren(Box<E>),
    Call(String, Vec<E>),
    Tup(Vec<E>),
    TupIx(Box<E>, usize),
    Arr(Vec<E>),
    Rep(Box<E>, usize),
    Ix(Box<E>, Box<E>),
    St(String, Vec<(String, E)>),
    Mem(Box<E>, String),
    /// a member that is not there; `on_object` when the object rather than the field is to blame
    NoMem(Box<E>, String, bool),
    Cast(Box<E>, Ty),
    /// something wrong with exactly this expression
    Bad(u32, Box<E>),
    /// call of `.0` with the wrong number of arguments or of something else
    BadCall(String, Vec<E>),
    /// a name that is not declared
    Undef(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum S {
    Let(Vec<String>, Option<T>, E),
    Const(String, Option<T>, E),
    Assign(E, E),
    Ret(Option<E>),
    /// a `return;` where a value is due
    BareRet,
    If(E, Vec<S>, Option<Box<S>>),
    While(E, Vec<S>),
    Loop(Vec<S>),
    For(Box<S>, E, Box<S>, Vec<S>),
    Block(Vec<S>),
    Expr(E),
    Break,
    Continue,
}
/// A written type.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum T {
    Ok(Ty),
    Unknown(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fun {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub ret: Ty,
    pub body: Vec<S>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Prog {
    /// fields by struct
    pub structs: Vec<(String, Vec<(String, Ty)>)>,
    pub consts: Vec<(String, Option<Ty>, E)>,
    pub funs: Vec<Fun>,
}

pub type Mark = (u32, usize, usize);
struct Def {
    name: String,
    span: (usize, usize),
    used: bool,
}
struct R<'a> {
    p: &'a Prog,
    out: String,
    marks: Vec<Mark>,
    defs: Vec<Def>,
    scopes: Vec<Vec<usize>>,
    missing: BTreeSet<String>,
    /// names that did not resolve although the generator meant them to (only while shrinking)
    dangling: bool,
    depth: usize,
}
fn prec(op: &str) -> u8 {
    match op {
        "*" | "/" | "%" => 9,
        "+" | "-" => 8,
        _ => 1,
    }
}
impl<'a> R<'a> {
    fn put(&mut self, s: &str) {
        self.out += s;
    }
    fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Felt => "felt".into(),
            Ty::U32 => "u32".into(),
            Ty::Bool => "bool".into(),
            Ty::Unit => "()".into(),
            Ty::Tup(v) if v.len() == 1 => format!("({},)", self.ty(&v[0])),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::Arr(t, n) => format!("[{}; {n}]", self.ty(t)),
            Ty::St(k) => self.p.structs[*k].0.clone(),
        }
    }
    fn written(&mut self, t: &T) {
        match t {
            T::Ok(t) => {
                let s = self.ty(t);
                self.put(&s)
            }
            T::Unknown(n) => {
                let a = self.out.len();
                self.put(n);
                self.marks.push((1009, a, self.out.len()));
            }
        }
    }
    fn define(&mut self, name: &str) {
        let a = self.out.len();
        self.put(name);
        self.defs.push(Def { name: name.into(), span: (a, a + name.len()), used: false });
    }
    fn open(&mut self, from: usize) {
        // definitions made since `from` become visible
        let new: Vec<usize> = (from..self.defs.len()).filter(|k| !self.scopes.iter().flatten().any(|x| x == k)).collect();
        self.scopes.last_mut().unwrap().extend(new);
    }
    fn lookup(&mut self, name: &str) -> bool {
        for s in self.scopes.iter().rev() {
            if let Some(&k) = s.iter().rev().find(|&&k| self.defs[k].name == name) {
                self.defs[k].used = true;
                return true;
            }
        }
        false
    }
    fn list(&mut self, v: &[E]) -> usize {
        let mut end = self.out.len();
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            end = self.expr(e);
        }
        end
    }
    /// Writes an expression; returns where its span ends (the spans of calls and of indexing stop short
    /// of the closing bracket).
    fn expr(&mut self, e: &E) -> usize {
        let start = self.out.len();
        match e {
            E::Lit(n, s) => {
                let t = format!("{n}{}", ["", "u32", "felt"][*s as usize]);
                self.put(&t)
            }
            E::Bool(b) => self.put(if *b { "true" } else { "false" }),
            E::Var(n) => {
                self.put(n);
                if !self.lookup(n) {
                    self.dangling = true;
                }
            }
            E::Undef(n) => {
                self.put(n);
                if self.missing.insert(n.clone()) {
                    self.marks.push((1001, start, self.out.len()));
                }
            }
            E::Bin(op, a, b) => {
                self.expr(a);
                self.put(&format!(" {op} "));
                return self.expr(b);
            }
            E::Un(op, a) => {
                self.put(&op.to_string());
                return self.expr(a);
            }
            E::Paren(a) => {
                self.put("(");
                self.expr(a);
                self.put(")");
            }
            E::Call(f, v) | E::BadCall(f, v) => {
                let bad = matches!(e, E::BadCall(..));
                self.put(f);
                if bad {
                    self.marks.push((2005, start, self.out.len()));
                    self.lookup(f);
                }
                self.put("(");
                let end = self.list(v);
                self.put(")");
                return if v.is_empty() { self.out.len() } else { end };
            }
            E::Tup(v) => {
                self.put("(");
                self.list(v);
                if v.len() == 1 {
                    self.put(",");
                }
                self.put(")");
            }
            E::TupIx(a, n) => {
                self.expr(a);
                self.put(&format!(".{n}"));
            }
            E::Arr(v) => {
                self.put("[");
                self.list(v);
                self.put("]");
            }
            E::Rep(a, n) => {
                self.put("[");
                self.expr(a);
                self.put(&format!("; {n}]"));
            }
            E::Ix(a, i) => {
                self.expr(a);
                self.put("[");
                let end = self.expr(i);
                self.put("]");
                return end;
            }
            E::St(n, fs) => {
                self.put(n);
                self.put(" { ");
                for (i, (f, e)) in fs.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.put(f);
                    self.put(": ");
                    self.expr(e);
                }
                self.put(" }");
            }
            E::Mem(a, f) => {
                self.expr(a);
                self.put(".");
                self.put(f);
            }
            E::NoMem(a, f, on_object) => {
                let end = self.expr(a);
                self.put(".");
                let k = self.out.len();
                self.put(f);
                self.marks.push(if *on_object { (2002, start, end) } else { (2002, k, self.out.len()) });
            }
            E::Cast(a, t) => {
                self.expr(a);
                let s = format!(" as {}", self.ty(t));
                self.put(&s);
            }
            E::Bad(code, a) => {
                let end = self.expr(a);
                self.marks.push((*code, start, end));
                return end;
            }
        }
        self.out.len()
    }
    fn names(&mut self, v: &[String]) {
        if v.len() == 1 {
            return self.define(&v[0]);
        }
        self.put("(");
        for (i, n) in v.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            self.define(n);
        }
        self.put(")");
    }
    fn body(&mut self, v: &[S]) {
        self.put("{ ");
        self.scopes.push(vec![]);
        self.seq(v);
        self.scopes.pop();
        self.put("}");
    }
    fn seq(&mut self, v: &[S]) {
        let mut over = false;
        for s in v {
            let a = self.out.len();
            let k = self.marks.len();
            self.stmt(s);
            if over {
                self.marks.insert(k, (3001, a, self.out.len()));
            }
            self.put(" ");
            over |= terminates(s, self.depth);
        }
    }
    fn stmt(&mut self, s: &S) {
        let start = self.out.len();
        match s {
            S::Let(ns, t, e) => {
                self.put("let ");
                let from = self.defs.len();
                self.names(ns);
                if let Some(t) = t {
                    self.put(": ");
                    self.written(t);
                }
                self.put(" = ");
                self.expr(e);
                self.put(";");
                self.open(from);
            }
            S::Const(n, t, e) => {
                self.put("const ");
                let from = self.defs.len();
                self.define(n);
                if let Some(t) = t {
                    self.put(": ");
                    self.written(t);
                }
                self.put(" = ");
                self.expr(e);
                self.put(";");
                self.open(from);
            }
            S::Assign(a, b) => {
                self.expr(a);
                self.put(" = ");
                self.expr(b);
                self.put(";");
            }
            S::Ret(None) => self.put("return;"),
            S::BareRet => {
                self.put("return;");
                self.marks.push((2011, start, self.out.len()));
            }
            S::Ret(Some(e)) => {
                self.put("return ");
                self.expr(e);
                self.put(";");
            }
            S::If(c, t, e) => {
                self.put("if ");
                self.expr(c);
                self.put(" ");
                self.body(t);
                if let Some(e) = e {
                    self.put(" else ");
                    match &**e {
                        S::Block(b) => self.body(b),
                        other => self.stmt(other),
                    }
                }
            }
            S::While(c, b) => {
                self.put("while ");
                self.expr(c);
                self.put(" ");
                self.depth += 1;
                self.body(b);
                self.depth -= 1;
            }
            S::Loop(b) => {
                self.put("loop ");
                self.depth += 1;
                self.body(b);
                self.depth -= 1;
            }
            S::For(i, c, st, b) => {
                self.put("for (");
                self.scopes.push(vec![]);
                self.stmt(i);
                self.put(" ");
                self.expr(c);
                self.put("; ");
                self.stmt(st);
                assert_eq!(self.out.pop(), Some(';'));
                self.put(") ");
                self.depth += 1;
                self.body(b);
                self.depth -= 1;
                self.scopes.pop();
            }
            S::Block(b) => self.body(b),
            S::Expr(e) => {
                self.expr(e);
                self.put(";");
            }
            S::Break | S::Continue => {
                self.put(if *s == S::Break { "break;" } else { "continue;" });
                if self.depth == 0 {
                    self.marks.push((if *s == S::Break { 3003 } else { 3004 }, start, self.out.len()));
                }
            }
        }
    }
}
/// Does control never get past this statement?
fn terminates(s: &S, depth: usize) -> bool {
    match s {
        S::Ret(_) | S::BareRet => true,
        S::Block(b) => b.iter().any(|s| terminates(s, depth)),
        S::If(_, t, Some(e)) => t.iter().any(|s| terminates(s, depth)) && terminates(e, depth),
        S::Loop(b) => !b.iter().any(leaves),
        S::Break | S::Continue => depth > 0,
        _ => false,
    }
}
/// Does it hold a `break` of the loop around it?
fn leaves(s: &S) -> bool {
    match s {
        S::Break => true,
        S::Block(b) => b.iter().any(leaves),
        S::If(_, t, e) => t.iter().any(leaves) || e.as_ref().is_some_and(|e| leaves(e)),
        _ => false,
    }
}

/// The text, what is wrong with it, and whether all names meant to resolve do.
pub fn render(p: &Prog) -> (String, Vec<Mark>, bool) {
    let mut r = R { p, out: String::new(), marks: vec![], defs: vec![], scopes: vec![vec![]], missing: Default::default(), dangling: false, depth: 0 };
    for (n, fs) in &p.structs {
        let t = format!("struct {n} {{ {} }}\n", fs.iter().map(|(f, t)| format!("{f}: {}", r.ty(t))).collect::<Vec<_>>().join(", "));
        r.put(&t);
    }
    for (n, t, e) in &p.consts {
        r.stmt(&S::Const(n.clone(), t.clone().map(T::Ok), e.clone()));
        r.put("\n");
    }
    for f in &p.funs {
        r.put("fn ");
        let at = r.out.len();
        r.put(&f.name);
        let named = r.out.len();
        r.put("(");
        r.scopes.push(vec![]);
        let from = r.defs.len();
        for (i, (n, t)) in f.params.iter().enumerate() {
            if i > 0 {
                r.put(", ");
            }
            r.define(n);
            let t = format!(": {}", r.ty(t));
            r.put(&t);
        }
        r.open(from);
        r.put(")");
        if f.ret != Ty::Unit {
            let t = format!(" -> {}", r.ty(&f.ret));
            r.put(&t);
        }
        r.put(" { ");
        if !f.body.iter().any(|s| terminates(s, 0)) {
            r.marks.push((3002, at, named));
        }
        r.seq(&f.body);
        r.scopes.pop();
        r.put("}\n");
    }
    for d in &r.defs {
        if !d.used && !d.name.starts_with('_') {
            r.marks.push((1002, d.span.0, d.span.1));
        }
    }
    (r.out, r.marks, !r.dangling)
}

// ---------------------------------------------------------------------------------------------

struct G<'r> {
    r: &'r mut Rng,
    uid: u32,
    k: u32,
    p: Prog,
    /// (name, type, constant)
    vars: Vec<(String, Ty, bool)>,
    ret: Ty,
    loops: usize,
    /// errors still to be planted in this function
    errors: usize,
    /// (name, parameters, result)
    sigs: Vec<(String, Vec<Ty>, Ty)>,
}
impl<'r> G<'r> {
    fn fresh(&mut self, p: &str) -> String {
        self.k += 1;
        format!("{p}{}_{}", self.k, self.uid)
    }
    fn scalar(&mut self) -> Ty {
        self.r.pick(&[Ty::Felt, Ty::Felt, Ty::U32, Ty::Bool]).clone()
    }
    fn some_ty(&mut self, d: usize) -> Ty {
        match self.r.below(if d == 0 { 5 } else { 9 }) {
            0..=4 => self.scalar(),
            5 => {
                let n = self.r.range(1, 4);
                Ty::Tup((0..n).map(|_| self.some_ty(d - 1)).collect())
            }
            6 => Ty::Arr(Box::new(self.scalar()), self.r.range(1, 4)),
            _ if !self.p.structs.is_empty() => Ty::St(self.r.below(self.p.structs.len())),
            _ => self.scalar(),
        }
    }
    /// Types that differ from `t` and are not arrays (whose literals are reported in several ways).
    fn other(&mut self, t: &Ty) -> Ty {
        loop {
            let o = self.scalar();
            if o != *t {
                return o;
            }
        }
    }
    /// Something of type `t` reachable from variables.
    fn from_vars(&mut self, t: &Ty) -> Option<E> {
        let mut found: Vec<E> = vec![];
        for (n, vt, konst) in &self.vars {
            let v = || Box::new(E::Var(n.clone()));
            if vt == t && !(*konst && matches!(t, Ty::Arr(..))) {
                found.push(*v());
            }
            match vt {
                Ty::Tup(ts) => {
                    for (i, x) in ts.iter().enumerate() {
                        if x == t {
                            found.push(E::TupIx(v(), i));
                        }
                    }
                }
                Ty::Arr(x, len) if **x == *t => found.push(E::Ix(v(), Box::new(E::Lit(self.k % *len as u32, 0)))),
                Ty::St(k) => {
                    for (f, x) in &self.p.structs[*k].1 {
                        if x == t {
                            found.push(E::Mem(v(), f.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
        if found.is_empty() {
            return None;
        }
        let mut e = self.r.pick(&found).clone();
        // index by a variable now and then
        if let E::Ix(_, i) = &mut e {
            let felts: Vec<&(String, Ty, bool)> = self.vars.iter().filter(|v| v.1 == Ty::Felt).collect();
            if !felts.is_empty() && self.r.chance(1, 3) {
                **i = E::Var(self.r.pick(&felts).0.clone());
            }
        }
        Some(e)
    }
    fn operand(&mut self, t: &Ty, d: usize, op: &str) -> Box<E> {
        let e = self.expr(t, d);
        let bare = match &e {
            E::Bin(o, ..) => prec(o) > prec(op) && prec(op) > 1,
            E::Cast(..) => false,
            _ => true,
        };
        Box::new(if bare && !self.r.chance(1, 12) { e } else { E::Paren(Box::new(e)) })
    }
    fn base(&mut self, e: E) -> Box<E> {
        Box::new(match e {
            E::Bin(..) | E::Un(..) | E::Cast(..) => E::Paren(Box::new(e)),
            e => e,
        })
    }
    /// A well-typed expression.
    fn expr(&mut self, t: &Ty, d: usize) -> E {
        if d == 0 || self.r.chance(1, 3) {
            if let Some(e) = if self.r.chance(3, 4) { self.from_vars(t) } else { None } {
                return e;
            }
        }
        let d1 = d.saturating_sub(1);
        if d > 0 && self.r.chance(1, 6) {
            let fs: Vec<(String, Vec<Ty>, Ty)> = self.sigs.iter().filter(|s| s.2 == *t).cloned().collect();
            if !fs.is_empty() {
                let (f, ps, _) = self.r.pick(&fs).clone();
                return E::Call(f, ps.iter().map(|p| self.direct(p, d1)).collect());
            }
        }
        if d > 0 && self.r.chance(1, 12) {
            // project out of something made for it
            return match self.r.below(2) {
                0 => {
                    let o = self.scalar();
                    E::TupIx(Box::new(E::Tup(vec![self.expr(&o, 0), self.expr(t, d1)])), 1)
                }
                _ => E::Paren(Box::new(self.expr(t, d1))),
            };
        }
        match t {
            Ty::Felt if d > 0 => match self.r.below(6) {
                0 => {
                    let a = self.expr(&Ty::U32, d1);
                    E::Cast(self.base(a), Ty::Felt)
                }
                1 => match self.from_vars(&Ty::Felt) {
                    Some(a) => E::Un('-', Box::new(a)),
                    None => E::Lit(self.r.below(100) as u32, 0),
                },
                2 => E::Lit(self.r.below(100) as u32, *self.r.pick(&[0, 0, 2])),
                _ => {
                    let op = *self.r.pick(&["+", "-", "*", "/"]);
                    E::Bin(op.into(), self.operand(t, d1, op), self.operand(t, d1, op))
                }
            },
            Ty::U32 if d > 0 => match self.r.below(6) {
                0 => E::Lit(self.r.below(100) as u32, 1),
                1 => {
                    let op = *self.r.pick(&["&", "|", "^"]);
                    E::Bin(op.into(), self.operand(t, d1, op), self.operand(t, d1, op))
                }
                _ => {
                    let op = *self.r.pick(&["+", "-", "*", "/", "%"]);
                    E::Bin(op.into(), self.operand(t, d1, op), self.operand(t, d1, op))
                }
            },
            Ty::Bool if d > 0 => match self.r.below(7) {
                0 => E::Bool(self.r.chance(1, 2)),
                1 => {
                    let a = self.expr(t, d1);
                    E::Un('!', self.base(a))
                }
                2 => {
                    let op = *self.r.pick(&["&&", "||"]);
                    E::Bin(op.into(), self.operand(t, d1, op), self.operand(t, d1, op))
                }
                3 | 4 => {
                    let op = *self.r.pick(&["<", ">", "<=", ">="]);
                    E::Bin(op.into(), self.operand(&Ty::U32, d1, op), self.operand(&Ty::U32, d1, op))
                }
                _ => {
                    let op = *self.r.pick(&["==", "!="]);
                    let x = self.scalar();
                    E::Bin(op.into(), self.operand(&x, d1, op), self.operand(&x, d1, op))
                }
            },
            Ty::Felt => E::Lit(self.r.below(1000) as u32, *self.r.pick(&[0, 0, 0, 2])),
            Ty::U32 => E::Lit(self.r.below(1000) as u32, 1),
            Ty::Bool => E::Bool(self.r.chance(1, 2)),
            Ty::Tup(v) => E::Tup(v.iter().map(|t| self.expr(t, d1)).collect()),
            Ty::Arr(x, n) => {
                if self.r.chance(1, 4) {
                    E::Rep(Box::new(self.expr(x, d1)), *n)
                } else {
                    E::Arr((0..*n).map(|_| self.expr(x, d1)).collect())
                }
            }
            Ty::St(k) => {
                let (n, mut fs) = self.p.structs[*k].clone();
                if self.r.chance(1, 4) {
                    self.r.shuffle(&mut fs);
                }
                E::St(n, fs.into_iter().map(|(f, t)| (f, self.direct(&t, d1))).collect())
            }
            Ty::Unit => E::Tup(vec![]),
        }
    }
    /// An expression whose type is declared by its surroundings: its literal needs no suffix.
    fn direct(&mut self, t: &Ty, d: usize) -> E {
        if *t == Ty::U32 && self.r.chance(1, 3) {
            return E::Lit(self.r.below(1000) as u32, 0);
        }
        self.expr(t, d)
    }
    /// An expression of type `t` that is not a bare literal (the same wrong literal is reported by two
    /// validators with different words) and has no context from which a literal in it takes its type.
    fn wrong(&mut self, t: &Ty) -> Option<E> {
        match self.from_vars(t) {
            Some(e) => Some(e),
            None => {
                let fs: Vec<String> = self.sigs.iter().filter(|s| s.2 == *t && s.1.is_empty()).map(|s| s.0.clone()).collect();
                if fs.is_empty() {
                    None
                } else {
                    Some(E::Call(self.r.pick(&fs).clone(), vec![]))
                }
            }
        }
    }
    fn cond(&mut self, d: usize) -> E {
        let e = self.expr(&Ty::Bool, d);
        E::Paren(Box::new(e))
    }
    fn scoped<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let saved = self.vars.clone();
        let x = f(self);
        self.vars = saved;
        x
    }
    fn stmts(&mut self, d: usize, least: usize) -> Vec<S> {
        let n = least + self.r.below(4);
        let mut v = vec![];
        self.scoped(|g| {
            for _ in 0..n {
                let s = g.stmt(d);
                v.push(s);
            }
        });
        v
    }
    fn name(&mut self) -> String {
        // sometimes a name that is taken, to shadow it
        if self.r.chance(1, 6) && !self.vars.is_empty() {
            return self.r.pick(&self.vars).0.clone();
        }
        if self.r.chance(1, 4) {
            self.fresh("_v")
        } else {
            self.fresh("v")
        }
    }
    fn planted(&mut self) -> Option<S> {
        let u = |g: &mut Self| g.fresh("_b");
        let t = self.scalar();
        let o = self.other(&t);
        match self.r.below(16) {
            0 => {
                let e = self.wrong(&o)?;
                Some(S::Let(vec![u(self)], Some(T::Ok(t)), E::Bad(2001, Box::new(e))))
            }
            1 => {
                let b = self.wrong(&Ty::U32)?;
                let a = self.wrong(&Ty::Felt)?;
                let op = *self.r.pick(&["+", "-", "*", "/"]);
                let (a, b) = if self.r.chance(1, 2) { (a, b) } else { (b, a) };
                Some(S::Let(vec![u(self)], None, E::Bin(op.into(), Box::new(a), Box::new(E::Bad(2001, Box::new(b))))))
            }
            2 => {
                let n = self.fresh("nowhere");
                let e = E::Undef(n);
                let t2 = t.clone();
                Some(match self.r.below(4) {
                    0 => S::Let(vec![u(self)], None, e),
                    1 => S::Let(vec![u(self)], Some(T::Ok(t2)), E::Paren(Box::new(e))),
                    2 => S::Expr(E::Paren(Box::new(e))),
                    _ => S::Let(vec![u(self)], None, E::Tup(vec![e, self.expr(&t, 1)])),
                })
            }
            3 => {
                let fs: Vec<(String, Vec<Ty>, Ty)> = self.sigs.iter().filter(|s| !s.1.is_empty()).cloned().collect();
                if fs.is_empty() {
                    return None;
                }
                let (f, ps, _) = self.r.pick(&fs).clone();
                let bad = self.r.below(ps.len());
                let mut args = vec![];
                for (i, p) in ps.iter().enumerate() {
                    args.push(if i == bad {
                        let o = self.other(p);
                        E::Bad(2001, Box::new(self.wrong(&o)?))
                    } else {
                        self.direct(p, 1)
                    });
                }
                Some(S::Expr(E::Call(f, args)))
            }
            4 => {
                if self.sigs.is_empty() {
                    return None;
                }
                let (f, ps, _) = self.r.pick(&self.sigs).clone();
                let n = if ps.is_empty() || self.r.chance(1, 2) { ps.len() + 1 } else { ps.len() - 1 };
                let args = (0..n).map(|i| ps.get(i).cloned().map(|p| self.expr(&p, 1)).unwrap_or(E::Bool(true))).collect();
                Some(S::Expr(E::BadCall(f, args)))
            }
            5 => {
                let o = self.other(&Ty::Bool);
                let e = E::Bad(2001, Box::new(self.wrong(&o)?));
                Some(match self.r.below(3) {
                    0 => S::If(e, self.stmts(0, 1), None),
                    1 => S::While(e, vec![S::Break]),
                    _ => S::Expr(E::Call("assert".into(), vec![e])),
                })
            }
            6 => {
                let n = self.fresh("Nowhere");
                let v = self.wrong(&t)?;
                Some(S::Let(vec![u(self)], Some(T::Unknown(n)), v))
            }
            7 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| matches!(v.1, Ty::St(_))).cloned().collect();
                if vs.is_empty() {
                    return None;
                }
                let v = self.r.pick(&vs).0.clone();
                let f = self.fresh("f");
                Some(S::Let(vec![u(self)], None, E::NoMem(Box::new(E::Var(v)), f, false)))
            }
            8 => {
                let e = self.wrong(&t)?;
                let f = self.fresh("f");
                Some(S::Let(vec![u(self)], None, E::NoMem(Box::new(e), f, true)))
            }
            9 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| v.2 && matches!(v.1, Ty::Felt | Ty::U32 | Ty::Bool)).cloned().collect();
                if vs.is_empty() {
                    return None;
                }
                let v = self.r.pick(&vs).clone();
                let e = self.direct(&v.1, 1);
                Some(S::Assign(E::Bad(2014, Box::new(E::Var(v.0))), e))
            }
            10 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| !v.2 && matches!(v.1, Ty::Felt | Ty::U32 | Ty::Bool)).cloned().collect();
                if vs.is_empty() {
                    return None;
                }
                let v = self.r.pick(&vs).clone();
                let o = self.other(&v.1);
                Some(S::Assign(E::Var(v.0), E::Bad(2001, Box::new(self.wrong(&o)?))))
            }
            11 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| matches!(v.1, Ty::Arr(..))).cloned().collect();
                if vs.is_empty() {
                    return None;
                }
                let v = self.r.pick(&vs).0.clone();
                let o = self.other(&Ty::Felt);
                let i = E::Bad(2009, Box::new(self.wrong(&o)?));
                Some(S::Let(vec![u(self)], None, E::Ix(Box::new(E::Var(v)), Box::new(i))))
            }
            12 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| matches!(v.1, Ty::Arr(..))).cloned().collect();
                if vs.is_empty() {
                    return None;
                }
                let v = self.r.pick(&vs).clone();
                let Ty::Arr(_, n) = v.1 else { unreachable!() };
                let i = E::Bad(2015, Box::new(E::Lit(n as u32 + self.r.below(3) as u32, 0)));
                Some(S::Let(vec![u(self)], None, E::Ix(Box::new(E::Var(v.0)), Box::new(i))))
            }
            13 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| matches!(v.1, Ty::Tup(..))).cloned().collect();
                if vs.is_empty() {
                    return None;
                }
                let v = self.r.pick(&vs).clone();
                let Ty::Tup(ts) = v.1 else { unreachable!() };
                let e = E::Bad(2012, Box::new(E::Var(v.0)));
                Some(S::Let(vec![u(self)], None, E::TupIx(Box::new(e), ts.len() + self.r.below(2))))
            }
            14 if self.loops == 0 => Some(if self.r.chance(1, 2) { S::Break } else { S::Continue }),
            _ => match self.ret.clone() {
                Ty::Unit => {
                    let e = self.wrong(&t)?;
                    Some(S::Ret(Some(E::Bad(2001, Box::new(e)))))
                }
                r => {
                    if self.r.chance(1, 3) {
                        return Some(S::BareRet);
                    }
                    let o = self.other(&r);
                    let e = self.wrong(&o)?;
                    Some(S::Ret(Some(E::Bad(2001, Box::new(e)))))
                }
            },
        }
    }
    fn stmt(&mut self, d: usize) -> S {
        if self.errors > 0 && self.r.chance(1, 4) {
            self.errors -= 1;
            if let Some(s) = self.planted() {
                return s;
            }
            self.errors += 1;
        }
        let roll = self.r.below(if d == 0 { 10 } else { 17 });
        match roll {
            0..=3 => {
                let t = self.some_ty(2);
                let annotated = self.r.chance(1, 3);
                let e = if annotated { self.direct(&t, 3) } else { self.expr(&t, 3) };
                let n = self.name();
                self.vars.retain(|v| v.0 != n);
                self.vars.push((n.clone(), t.clone(), false));
                S::Let(vec![n], if annotated { Some(T::Ok(t)) } else { None }, e)
            }
            4 => {
                let ts: Vec<Ty> = (0..self.r.range(2, 4)).map(|_| self.some_ty(1)).collect();
                let e = self.expr(&Ty::Tup(ts.clone()), 2);
                let ns: Vec<String> = ts.iter().map(|_| if self.r.chance(1, 4) { self.fresh("_d") } else { self.fresh("d") }).collect();
                for (n, t) in ns.iter().zip(&ts) {
                    self.vars.push((n.clone(), t.clone(), false));
                }
                S::Let(ns, None, e)
            }
            5 | 6 => {
                let vs: Vec<(String, Ty, bool)> = self.vars.iter().filter(|v| !v.2).cloned().collect();
                if vs.is_empty() {
                    return S::Expr(self.call());
                }
                let (n, t, _) = self.r.pick(&vs).clone();
                let v = Box::new(E::Var(n));
                let (lhs, t) = match &t {
                    Ty::Arr(x, len) if self.r.chance(2, 3) => (E::Ix(v, Box::new(E::Lit(self.r.below(*len) as u32, 0))), (**x).clone()),
                    Ty::St(k) if self.r.chance(2, 3) => {
                        let fs = self.p.structs[*k].1.clone();
                        let (f, ft) = self.r.pick(&fs).clone();
                        (E::Mem(v, f), ft)
                    }
                    Ty::Tup(ts) if self.r.chance(1, 2) => {
                        let i = self.r.below(ts.len());
                        (E::TupIx(v, i), ts[i].clone())
                    }
                    t => (*v, t.clone()),
                };
                let e = self.direct(&t, 2);
                S::Assign(lhs, e)
            }
            7 => {
                let k = *self.r.pick(&["C", "_C"]);
                let n = self.fresh(k);
                let t = self.scalar();
                let (t2, e) = match &t {
                    Ty::Felt => (Ty::Felt, E::Lit(self.r.below(100) as u32, 0)),
                    Ty::U32 => (Ty::U32, E::Lit(self.r.below(100) as u32, 1)),
                    _ => (Ty::Bool, E::Bool(true)),
                };
                self.vars.push((n.clone(), t2.clone(), true));
                S::Const(n, if self.r.chance(1, 2) { Some(T::Ok(t2)) } else { None }, e)
            }
            8 => S::Expr(self.call()),
            9 => {
                if self.loops > 0 && self.r.chance(1, 2) {
                    return if self.r.chance(1, 2) { S::Break } else { S::Continue };
                }
                if self.r.chance(1, 4) {
                    return self.ret();
                }
                let c = self.expr(&Ty::Bool, 2);
                S::Expr(E::Call("assert".into(), vec![c]))
            }
            10..=12 => {
                let c = self.cond(2);
                let t = self.stmts(d - 1, 1);
                let e = match self.r.below(4) {
                    0 | 1 => None,
                    2 => Some(Box::new(S::Block(self.stmts(d - 1, 1)))),
                    _ => {
                        let c2 = self.cond(1);
                        let (a, b) = (self.stmts(d - 1, 1), self.stmts(d - 1, 1));
                        Some(Box::new(S::If(c2, a, if self.r.chance(1, 2) { Some(Box::new(S::Block(b))) } else { None })))
                    }
                };
                S::If(c, t, e)
            }
            13 => {
                let c = self.cond(2);
                self.loops += 1;
                let b = self.stmts(d - 1, 1);
                self.loops -= 1;
                S::While(c, b)
            }
            14 => {
                self.loops += 1;
                let mut b = self.stmts(d - 1, 1);
                self.loops -= 1;
                if self.r.chance(2, 3) {
                    let c = self.cond(1);
                    // (not behind a statement that may shadow what the condition reads)
                    let free = b.iter().take_while(|s| !matches!(s, S::Let(..) | S::Const(..))).count();
                    let at = self.r.below(free + 1);
                    b.insert(at, S::If(c, vec![S::Break], None));
                }
                S::Loop(b)
            }
            15 => {
                let i = self.fresh("i");
                self.scoped(|g| {
                    g.vars.push((i.clone(), Ty::U32, false));
                    g.loops += 1;
                    let b = g.stmts(d - 1, 1);
                    g.loops -= 1;
                    let n = g.r.below(9) as u32;
                    S::For(
                        Box::new(S::Let(vec![i.clone()], Some(T::Ok(Ty::U32)), E::Lit(0, g.r.below(2) as u8))),
                        E::Bin("<".into(), Box::new(E::Var(i.clone())), Box::new(E::Lit(n, 1))),
                        Box::new(S::Assign(E::Var(i.clone()), E::Bin("+".into(), Box::new(E::Var(i.clone())), Box::new(E::Lit(1, 1))))),
                        b,
                    )
                })
            }
            _ => S::Block(self.stmts(d - 1, 1)),
        }
    }
    fn ret(&mut self) -> S {
        match self.ret.clone() {
            Ty::Unit => S::Ret(if self.r.chance(1, 6) { Some(E::Tup(vec![])) } else { None }),
            t => S::Ret(Some(self.direct(&t, 3))),
        }
    }
    fn call(&mut self) -> E {
        if self.sigs.is_empty() {
            return E::Tup(vec![]);
        }
        let (f, ps, _) = self.r.pick(&self.sigs).clone();
        E::Call(f, ps.iter().map(|p| self.direct(p, 2)).collect())
    }
}
/// A random program, all of whose names carry `uid`.
pub fn random(r: &mut Rng, uid: u32, errors: bool) -> Prog {
    let mut g = G { r, uid, k: 0, p: Prog::default(), vars: vec![], ret: Ty::Unit, loops: 0, errors: 0, sigs: vec![] };
    for _ in 0..g.r.below(3) {
        let n = g.fresh("S");
        let fs = (0..g.r.range(1, 4)).map(|_| (g.fresh("m"), g.some_ty(1))).collect();
        g.p.structs.push((n, fs));
    }
    for _ in 0..g.r.below(3) {
        let n = g.fresh("K");
        let t = g.scalar();
        let e = match t {
            Ty::Felt => E::Lit(g.r.below(100) as u32, 0),
            Ty::U32 => E::Lit(g.r.below(100) as u32, 1),
            _ => E::Bool(false),
        };
        let declared = if g.r.chance(1, 2) { Some(t.clone()) } else { None };
        g.p.consts.push((n, declared, e));
    }
    let nf = g.r.range(1, 5);
    for _ in 0..nf {
        let n = g.fresh("g");
        let ps = (0..g.r.below(4)).map(|_| g.some_ty(1)).collect();
        let t = if g.r.chance(1, 4) { Ty::Unit } else { g.some_ty(1) };
        g.sigs.push((n, ps, t));
    }
    for (n, ps, t) in g.sigs.clone() {
        g.vars = g.p.consts.clone().into_iter().map(|(n, t, e)| (n, t.unwrap_or(match e { E::Lit(_, 0) => Ty::Felt, E::Lit(..) => Ty::U32, _ => Ty::Bool }), true)).collect();
        let params: Vec<(String, Ty)> = ps.into_iter().map(|t| (if g.r.chance(1, 5) { g.fresh("_p") } else { g.fresh("p") }, t)).collect();
        g.vars.extend(params.iter().map(|(n, t)| (n.clone(), t.clone(), false)));
        g.ret = t.clone();
        g.errors = if errors { *g.r.pick(&[0, 0, 1, 1, 2]) } else { 0 };
        let mut body = vec![];
        for _ in 0..g.r.below(6) {
            let s = g.stmt(2);
            body.push(s);
        }
        if g.r.chance(9, 10) {
            let s = g.ret();
            body.push(s);
        }
        if body.is_empty() {
            body.push(S::Block(vec![S::Ret(None)]));
            if g.ret != Ty::Unit {
                let s = g.ret();
                body = vec![s];
            }
        }
        g.p.funs.push(Fun { name: n, params, ret: t, body });
    }
    g.p
}

fn defined(s: &S, out: &mut Vec<String>) {
    match s {
        S::Let(ns, ..) => out.extend(ns.iter().cloned()),
        S::Const(n, ..) => out.push(n.clone()),
        _ => {}
    }
}
fn mentions(text: &str, name: &str) -> bool {
    let b = text.as_bytes();
    let word = |c: Option<&u8>| c.is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_');
    text.match_indices(name).any(|(i, _)| !(i > 0 && word(b.get(i - 1))) && !word(b.get(i + name.len())))
}
/// Removes the `n`th statement (counted over all nesting); true when done.
fn drop_nth(v: &mut Vec<S>, n: &mut usize, gone: &mut Vec<String>) -> bool {
    let mut i = 0;
    while i < v.len() {
        if *n == 0 {
            defined(&v[i], gone);
            v.remove(i);
            return true;
        }
        *n -= 1;
        let done = match &mut v[i] {
            S::If(_, t, e) => {
                drop_nth(t, n, gone)
                    || match e.as_deref_mut() {
                        Some(S::Block(b)) => drop_nth(b, n, gone),
                        _ => false,
                    }
            }
            S::While(_, b) | S::Loop(b) | S::For(_, _, _, b) | S::Block(b) => drop_nth(b, n, gone),
            _ => false,
        };
        if done {
            return true;
        }
        i += 1;
    }
    false
}
fn empties(v: &[S]) -> bool {
    v.iter().any(|s| match s {
        S::If(_, t, e) => {
            t.is_empty()
                || empties(t)
                || match e.as_deref() {
                    Some(S::Block(b)) => empties(b),
                    Some(other) => empties(std::slice::from_ref(other)),
                    None => false,
                }
        }
        S::While(_, b) | S::Loop(b) | S::For(_, _, _, b) => b.is_empty() || empties(b),
        S::Block(b) => empties(b),
        _ => false,
    })
}
/// Smaller programs of which the model's predictions still hold.
pub fn shrink(p: &Prog) -> Vec<Prog> {
    let mut v = vec![];
    let keep = |q: Prog, gone: &[String], v: &mut Vec<Prog>| {
        let text = render(&q).0;
        if gone.iter().all(|g| !mentions(&text, g)) && !q.funs.iter().any(|f| empties(&f.body)) {
            v.push(q);
        }
    };
    for i in 0..p.funs.len() {
        let mut q = p.clone();
        let f = q.funs.remove(i);
        keep(q, &[f.name], &mut v);
    }
    for i in 0..p.consts.len() {
        let mut q = p.clone();
        let c = q.consts.remove(i);
        keep(q, &[c.0], &mut v);
    }
    if let Some((n, _)) = p.structs.last().cloned() {
        let rest: Vec<String> = render(p).0.lines().filter(|l| !l.starts_with(&format!("struct {n} "))).map(|l| l.to_string()).collect();
        if !mentions(&rest.join("\n"), &n) {
            let mut q = p.clone();
            q.structs.pop();
            keep(q, &[n], &mut v);
        }
    }
    for i in 0..p.funs.len() {
        for k in 0.. {
            let mut q = p.clone();
            let (mut n, mut gone) = (k, vec![]);
            if !drop_nth(&mut q.funs[i].body, &mut n, &mut gone) {
                break;
            }
            keep(q, &gone, &mut v);
        }
    }
    v
}
