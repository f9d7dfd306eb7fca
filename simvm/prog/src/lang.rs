//! Executable programs: a syntax tree of the language, a generator of well-typed terminating programs spread
//! over modules, a renderer, and a small interpreter that says what a call of a function returns.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const P: u64 = 2147483647;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Ty {
    Felt,
    U32,
    Bool,
    Tup(Vec<Ty>),
    St(usize),
    Arr(Box<Ty>, usize),
    Ptr(Box<Ty>),
    Unit,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum E {
    Felt(u32),
    U32(u32),
    /// without suffix, where the context says the type
    Plain(u32),
    Bool(bool),
    Var(String),
    Const(usize),
    Bin(String, Box<E>, Box<E>),
    Un(char, Box<E>),
    Call(usize, Vec<E>),
    Tup(Vec<E>),
    St(usize, Vec<E>),
    Arr(Vec<E>),
    Rep(Box<E>, usize),
    /// new T[n]
    New(Ty, usize),
    TupIx(Box<E>, usize),
    Mem(Box<E>, usize, usize),
    Ix(Box<E>, Box<E>),
    Cast(Box<E>),
    Paren(Box<E>),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum S {
    Let(String, Option<Ty>, E),
    LetTup(Vec<String>, E),
    Assign(E, E),
    If(E, Vec<S>, Option<Vec<S>>),
    While(E, Vec<S>),
    Loop(Vec<S>),
    For(Box<S>, E, Box<S>, Vec<S>),
    Block(Vec<S>),
    Expr(E),
    Assert(E),
    Return(Option<E>),
    Break,
    Continue,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fun {
    pub name: String,
    pub module: usize,
    pub params: Vec<(String, Ty)>,
    pub ret: Ty,
    pub body: Vec<S>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Const {
    pub name: String,
    pub module: usize,
    pub ty: Ty,
    pub value: E,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Struct {
    pub name: String,
    pub module: usize,
    pub fields: Vec<(String, Ty)>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Prog {
    pub modules: Vec<String>,
    pub structs: Vec<Struct>,
    pub consts: Vec<Const>,
    pub funs: Vec<Fun>,
    /// functions left out of the text (after shrinking)
    #[serde(default)]
    pub dead: BTreeSet<usize>,
}

// ------------------------------------------------------------------ writing

struct W<'a> {
    p: &'a Prog,
    out: String,
    module: usize,
    uses: BTreeSet<(usize, String)>,
    ind: usize,
}
fn prec(e: &E) -> u8 {
    match e {
        E::Bin(o, ..) => match o.as_str() {
            "*" | "/" | "%" => 9,
            "+" | "-" => 8,
            "==" | "!=" | "<" | "<=" | ">" | ">=" => 7,
            "&" | "|" | "^" => 6,
            "&&" => 5,
            _ => 4,
        },
        E::Cast(_) => 10,
        E::Un(..) => 11,
        _ => 12,
    }
}
impl W<'_> {
    fn use_(&mut self, m: usize, n: &str) {
        if m != self.module {
            self.uses.insert((m, n.to_string()));
        }
    }
    fn ty(&mut self, t: &Ty) -> String {
        match t {
            Ty::Felt => "felt".into(),
            Ty::U32 => "u32".into(),
            Ty::Bool => "bool".into(),
            Ty::Unit => "()".into(),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::Arr(t, n) => format!("[{}; {n}]", self.ty(t)),
            Ty::Ptr(t) => format!("{}*", self.ty(t)),
            Ty::St(k) => {
                let s = &self.p.structs[*k];
                self.use_(s.module, &s.name);
                s.name.clone()
            }
        }
    }
    fn list(&mut self, v: &[E]) -> String {
        v.iter().map(|e| self.e(e)).collect::<Vec<_>>().join(", ")
    }
    fn sub(&mut self, e: &E, min: u8) -> String {
        let s = self.e(e);
        if prec(e) < min { format!("({s})") } else { s }
    }
    fn e(&mut self, e: &E) -> String {
        match e {
            E::Felt(n) => format!("{}felt", digits(*n)),
            E::U32(n) => format!("{}u32", digits(*n)),
            E::Plain(n) => digits(*n),
            E::Bool(b) => b.to_string(),
            E::Var(v) => v.clone(),
            E::Const(k) => {
                let c = &self.p.consts[*k];
                self.use_(c.module, &c.name);
                c.name.clone()
            }
            E::Bin(o, a, b) => {
                // comparisons are written with parentheses around operands of the same rank
                let p = prec(e);
                let left = if matches!(p, 8 | 9) { p } else { p + 1 };
                let (a, b) = (self.sub(a, left), self.sub(b, p + 1));
                format!("{a} {o} {b}")
            }
            E::Un(o, a) => format!("{o}{}", self.sub(a, 12)),
            E::Call(f, a) => {
                let f = &self.p.funs[*f];
                self.use_(f.module, &f.name);
                format!("{}({})", f.name, self.list(a))
            }
            E::Tup(v) => format!("({})", self.list(v)),
            E::St(k, v) => {
                let s = &self.p.structs[*k];
                self.use_(s.module, &s.name);
                format!("{} {{ {} }}", s.name, s.fields.iter().zip(v).map(|(f, e)| format!("{}: {}", f.0, self.e(e))).collect::<Vec<_>>().join(", "))
            }
            E::Arr(v) => format!("[{}]", self.list(v)),
            E::Rep(v, n) => format!("[{}; {n}]", self.e(v)),
            E::New(t, n) => format!("new {}[{n}]", self.ty(t)),
            E::TupIx(a, k) => format!("{}.{k}", self.sub(a, 12)),
            E::Mem(a, s, k) => format!("{}.{}", self.sub(a, 12), self.p.structs[*s].fields[*k].0),
            E::Ix(a, i) => format!("{}[{}]", self.sub(a, 12), self.e(i)),
            E::Cast(a) => format!("{} as felt", self.sub(a, 11)),
            E::Paren(a) => format!("({})", self.e(a)),
        }
    }
    fn line(&mut self, s: &str) {
        self.out += &"    ".repeat(self.ind);
        self.out += s;
        self.out.push('\n');
    }
    /// A condition: one that begins with a parenthesis goes into a pair of them, as `if (a) < b {` reads
    /// `(a)` as the whole condition; so does one that ends in a name, as `if a == b {}` reads `b {}`.
    fn cond(&mut self, c: &E) -> String {
        let t = self.e(c);
        let last = t.rsplit(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("");
        let name = last.starts_with(|c: char| c.is_alphabetic() || c == '_');
        if t.starts_with('(') || name { format!("({t})") } else { t }
    }
    fn body(&mut self, v: &[S]) {
        self.ind += 1;
        for s in v {
            self.s(s);
        }
        self.ind -= 1;
    }
    fn simple(&mut self, s: &S) -> String {
        match s {
            S::Let(n, None, e) => format!("let {n} = {}", self.e(e)),
            S::Let(n, Some(t), e) => format!("let {n}: {} = {}", self.ty(t), self.e(e)),
            S::LetTup(n, e) => format!("let ({}) = {}", n.join(", "), self.e(e)),
            S::Assign(a, b) => format!("{} = {}", self.e(a), self.e(b)),
            S::Expr(e) => self.e(e),
            S::Assert(e) => format!("assert({})", self.e(e)),
            S::Return(None) => "return".into(),
            S::Return(Some(e)) => format!("return {}", self.e(e)),
            S::Break => "break".into(),
            S::Continue => "continue".into(),
            _ => unreachable!(),
        }
    }
    fn s(&mut self, s: &S) {
        match s {
            S::If(c, a, b) => {
                let c = self.cond(c);
                self.line(&format!("if {c} {{"));
                self.body(a);
                if let Some(b) = b {
                    self.line("} else {");
                    self.body(b);
                }
                self.line("}");
            }
            S::While(c, b) => {
                let c = self.cond(c);
                self.line(&format!("while {c} {{"));
                self.body(b);
                self.line("}");
            }
            S::Loop(b) => {
                self.line("loop {");
                self.body(b);
                self.line("}");
            }
            S::For(i, c, n, b) => {
                let h = format!("for ({}; {}; {}) {{", self.simple(i), self.e(c), self.simple(n));
                self.line(&h);
                self.body(b);
                self.line("}");
            }
            S::Block(b) => {
                self.line("{");
                self.body(b);
                self.line("}");
            }
            s => {
                let t = self.simple(s);
                self.line(&format!("{t};"));
            }
        }
    }
}
/// The text of each module.
/// A literal in some base, which depends on the number only.
fn digits(n: u32) -> String {
    match n.wrapping_mul(0x9e37_79b9) >> 27 {
        1 => format!("0x{n:x}"),
        2 => format!("0X{n:X}"),
        3 => format!("0x{n:X}"),
        4 => format!("0b{n:b}"),
        5 => format!("0B{n:b}"),
        6 => format!("0o{n:o}"),
        7 => format!("0O{n:o}"),
        _ => n.to_string(),
    }
}
pub fn render(p: &Prog) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    for (m, name) in p.modules.iter().enumerate() {
        let mut w = W { p, out: String::new(), module: m, uses: BTreeSet::new(), ind: 0 };
        for s in p.structs.iter().filter(|s| s.module == m) {
            let f = s.fields.iter().map(|(n, t)| format!("{n}: {}", w.ty(t))).collect::<Vec<_>>().join(", ");
            w.line(&format!("struct {} {{ {f} }}", s.name));
        }
        for c in p.consts.iter().filter(|c| c.module == m) {
            let s = format!("const {}: {} = {};", c.name, w.ty(&c.ty), w.e(&c.value));
            w.line(&s);
        }
        for (_, f) in p.funs.iter().enumerate().filter(|(k, f)| f.module == m && !p.dead.contains(k)) {
            let ps = f.params.iter().map(|(n, t)| format!("{n}: {}", w.ty(t))).collect::<Vec<_>>().join(", ");
            let r = if f.ret == Ty::Unit { String::new() } else { format!(" -> {}", w.ty(&f.ret)) };
            w.line(&format!("fn {}({ps}){r} {{", f.name));
            w.body(&f.body);
            w.line("}");
        }
        let mut by: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        for (m, n) in &w.uses {
            by.entry(*m).or_default().push(n.clone());
        }
        let head: String = by
            .into_iter()
            .map(|(m, v)| if v.len() == 1 { format!("use {}::{};\n", p.modules[m], v[0]) } else { format!("use {}::{{{}}};\n", p.modules[m], v.join(", ")) })
            .collect();
        r.insert(name.clone(), head + &w.out);
    }
    r
}

// ------------------------------------------------------------------ meaning

#[derive(Clone, Debug)]
pub enum V {
    Felt(u32),
    U32(u32),
    Bool(bool),
    Agg(Vec<V>),
    /// the elements, and the function call whose frame holds them (0: none)
    Arr(Rc<RefCell<Vec<V>>>, usize),
    Unit,
}
/// A value with arrays spelled out.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum D {
    Felt(u32),
    U32(u32),
    Bool(bool),
    Agg(Vec<D>),
    Arr(Vec<D>),
    Ptr,
    Unit,
}
impl V {
    pub fn deep(&self) -> D {
        match self {
            V::Felt(n) => D::Felt(*n),
            V::U32(n) => D::U32(*n),
            V::Bool(n) => D::Bool(*n),
            V::Agg(v) => D::Agg(v.iter().map(|v| v.deep()).collect()),
            V::Arr(v, _) => D::Arr(v.borrow().iter().map(|v| v.deep()).collect()),
            V::Unit => D::Unit,
        }
    }
    pub fn of(d: &D) -> V {
        match d {
            D::Felt(n) => V::Felt(*n),
            D::U32(n) => V::U32(*n),
            D::Bool(n) => V::Bool(*n),
            D::Agg(v) => V::Agg(v.iter().map(V::of).collect()),
            D::Arr(v) => V::Arr(Rc::new(RefCell::new(v.iter().map(V::of).collect())), 0),
            D::Ptr | D::Unit => V::Unit,
        }
    }
    fn has_array_of(&self, frame: usize) -> bool {
        match self {
            V::Arr(_, f) => *f == frame,
            V::Agg(v) => v.iter().any(|v| v.has_array_of(frame)),
            _ => false,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stop {
    /// the program fails
    Fails(String),
    /// the interpreter gives up: too long, too deep, or outside what it models
    GivesUp(String),
}
enum Flow {
    Next,
    Break,
    Continue,
    Return(V),
}
type Scopes = Vec<BTreeMap<String, V>>;
pub struct Interp<'a> {
    p: &'a Prog,
    pub fuel: u64,
    depth: u32,
    /// return type of the function being run
    ret: Ty,
    frame: usize,
    frames: usize,
    writes: u64,
    /// the arrays made last by each literal in each frame
    made: BTreeMap<(usize, usize), std::rc::Weak<RefCell<Vec<V>>>>,
    /// arrays live as long as somebody holds them: judge the known findings as well
    pub strict: bool,
}
/// The type of a value, as far as needed to type plain literals.
fn type_of(v: &V) -> Ty {
    match v {
        V::U32(_) => Ty::U32,
        V::Bool(_) => Ty::Bool,
        V::Agg(v) => Ty::Tup(v.iter().map(type_of).collect()),
        V::Arr(v, _) => Ty::Arr(Box::new(v.borrow().first().map_or(Ty::Felt, type_of)), v.borrow().len()),
        _ => Ty::Felt,
    }
}
fn inv(a: u64) -> u64 {
    let (mut b, mut e, mut r) = (a, P - 2, 1u64);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog, fuel: u64) -> Self {
        Interp { p, fuel, depth: 0, ret: Ty::Unit, frame: 0, frames: 0, writes: 0, made: BTreeMap::new(), strict: false }
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Felt => V::Felt(0),
            Ty::U32 => V::U32(0),
            Ty::Bool => V::Bool(false),
            Ty::Tup(v) => V::Agg(v.iter().map(|t| self.zero(t)).collect()),
            Ty::St(k) => V::Agg(self.p.structs[*k].fields.iter().map(|f| self.zero(&f.1)).collect()),
            _ => V::Unit,
        }
    }
    pub fn call(&mut self, f: usize, args: Vec<V>) -> Result<V, Stop> {
        self.depth += 1;
        if self.depth > 40 {
            return Err(Stop::GivesUp("depth".into()));
        }
        let f = &self.p.funs[f];
        let outer = self.frame;
        self.frames += 1;
        self.frame = self.frames;
        let ret = std::mem::replace(&mut self.ret, f.ret.clone());
        let mut sc: Scopes = vec![f.params.iter().map(|p| p.0.clone()).zip(args).collect()];
        let r = match self.block(&mut sc, &f.body)? {
            Flow::Return(v) => v,
            _ => V::Unit,
        };
        self.depth -= 1;
        if !self.strict && self.depth > 0 && r.has_array_of(self.frame) {
            return Err(Stop::GivesUp("returned array".into()));
        }
        self.frame = outer;
        self.ret = ret;
        Ok(r)
    }
    /// The array made by the literal `e`. Its elements live in the frame of the function, in the
    /// same place every time (see known_findings.json).
    fn literal(&mut self, sc: &Scopes, e: &E, v: Vec<V>) -> Result<V, Stop> {
        let v = Rc::new(RefCell::new(v));
        if sc.is_empty() {
            return Ok(V::Arr(v, 0));
        }
        if let Some(old) = self.made.insert((e as *const E as usize, self.frame), Rc::downgrade(&v)) {
            if !self.strict && old.upgrade().is_some() {
                return Err(Stop::GivesUp("array outlives iteration".into()));
            }
        }
        Ok(V::Arr(v, self.frame))
    }
    /// The second operand of `&&` and `||`, which may or may not be evaluated.
    fn maybe(&mut self, sc: &mut Scopes, e: &E) -> Result<bool, Stop> {
        let before = self.writes;
        match self.bool(sc, e) {
            Err(Stop::Fails(e)) => Err(Stop::GivesUp(format!("maybe {e}"))),
            _ if self.writes > before => Err(Stop::GivesUp("maybe writes".into())),
            r => r,
        }
    }
    fn tick(&mut self) -> Result<(), Stop> {
        if self.fuel == 0 {
            return Err(Stop::GivesUp("fuel".into()));
        }
        self.fuel -= 1;
        Ok(())
    }
    fn bool(&mut self, sc: &mut Scopes, e: &E) -> Result<bool, Stop> {
        match self.expr(sc, e, None)? {
            V::Bool(b) => Ok(b),
            v => Err(Stop::GivesUp(format!("not a bool: {v:?}"))),
        }
    }
    fn expr(&mut self, sc: &mut Scopes, e: &E, want: Option<&Ty>) -> Result<V, Stop> {
        self.tick()?;
        Ok(match e {
            E::Felt(n) => V::Felt((*n as u64 % P) as u32),
            E::U32(n) => V::U32(*n),
            E::Plain(n) => match want {
                Some(Ty::U32) => V::U32(*n),
                _ => V::Felt((*n as u64 % P) as u32),
            },
            E::Bool(b) => V::Bool(*b),
            E::Var(n) => match sc.iter().rev().find_map(|s| s.get(n)) {
                Some(v) => v.clone(),
                None => return Err(Stop::GivesUp(format!("no variable {n}"))),
            },
            E::Const(k) => {
                let c = &self.p.consts[*k];
                self.expr(&mut vec![], &c.value, Some(&c.ty))?
            }
            E::Paren(a) => self.expr(sc, a, want)?,
            E::Un('!', a) => V::Bool(!self.bool(sc, a)?),
            E::Un(_, a) => match self.expr(sc, a, want)? {
                V::Felt(n) => V::Felt(((P - n as u64) % P) as u32),
                V::U32(n) => V::U32(n.wrapping_neg()),
                v => v,
            },
            E::Bin(o, a, b) if o == "&&" => {
                let a = self.bool(sc, a)?;
                let b = if a { self.bool(sc, b)? } else { self.maybe(sc, b)? };
                V::Bool(a && b)
            },
            E::Bin(o, a, b) if o == "||" => {
                let a = self.bool(sc, a)?;
                let b = if a { self.maybe(sc, b)? } else { self.bool(sc, b)? };
                V::Bool(a || b)
            },
            E::Bin(o, a, b) => {
                let arith = matches!(o.as_str(), "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^");
                let a = self.expr(sc, a, if arith { want } else { None })?;
                let t = match a {
                    V::U32(_) => Ty::U32,
                    _ => Ty::Felt,
                };
                let b = self.expr(sc, b, Some(&t))?;
                match (a, b) {
                    (V::Felt(a), V::Felt(b)) => {
                        let (x, y) = (a as u64, b as u64);
                        match o.as_str() {
                            "+" => V::Felt(((x + y) % P) as u32),
                            "-" => V::Felt(((x + P - y) % P) as u32),
                            "*" => V::Felt((x * y % P) as u32),
                            "/" if y == 0 => return Err(Stop::Fails("felt division by zero".into())),
                            "/" => V::Felt((x * inv(y) % P) as u32),
                            "==" => V::Bool(a == b),
                            "!=" => V::Bool(a != b),
                            _ => return Err(Stop::GivesUp(format!("felt {o}"))),
                        }
                    }
                    (V::U32(a), V::U32(b)) => match o.as_str() {
                        "+" => V::U32(a.wrapping_add(b)),
                        "-" => V::U32(a.wrapping_sub(b)),
                        "*" => V::U32(a.wrapping_mul(b)),
                        "/" | "%" if b == 0 => return Err(Stop::Fails("u32 division by zero".into())),
                        "/" => V::U32(a / b),
                        "%" => V::U32(a % b),
                        "&" => V::U32(a & b),
                        "|" => V::U32(a | b),
                        "^" => V::U32(a ^ b),
                        "==" => V::Bool(a == b),
                        "!=" => V::Bool(a != b),
                        "<" => V::Bool(a < b),
                        "<=" => V::Bool(a <= b),
                        ">" => V::Bool(a > b),
                        ">=" => V::Bool(a >= b),
                        _ => return Err(Stop::GivesUp(format!("u32 {o}"))),
                    },
                    (V::Bool(a), V::Bool(b)) => match o.as_str() {
                        "==" => V::Bool(a == b),
                        "!=" => V::Bool(a != b),
                        _ => return Err(Stop::GivesUp(format!("bool {o}"))),
                    },
                    (a, b) => return Err(Stop::GivesUp(format!("{a:?} {o} {b:?}"))),
                }
            }
            E::Call(f, args) => {
                let tys: Vec<Ty> = self.p.funs[*f].params.iter().map(|p| p.1.clone()).collect();
                let mut v = vec![];
                for (a, t) in args.iter().zip(&tys) {
                    v.push(self.expr(sc, a, Some(t))?);
                }
                self.call(*f, v)?
            }
            E::Tup(v) => {
                let ts: Vec<Option<Ty>> = match want {
                    Some(Ty::Tup(t)) => t.iter().cloned().map(Some).collect(),
                    _ => vec![None; v.len()],
                };
                let mut r = vec![];
                for (e, t) in v.iter().zip(ts) {
                    r.push(self.expr(sc, e, t.as_ref())?);
                }
                V::Agg(r)
            }
            E::St(k, v) => {
                let mut r = vec![];
                for (i, e) in v.iter().enumerate() {
                    let Some(t) = self.p.structs[*k].fields.get(i).map(|f| f.1.clone()) else { return Err(Stop::GivesUp("fields".into())) };
                    r.push(self.expr(sc, e, Some(&t))?);
                }
                V::Agg(r)
            }
            E::Arr(v) => {
                let t = match want {
                    Some(Ty::Arr(t, _)) => Some((**t).clone()),
                    _ => None,
                };
                let mut r = vec![];
                for x in v {
                    r.push(self.expr(sc, x, t.as_ref())?);
                }
                self.literal(sc, e, r)?
            }
            E::Rep(v, n) => {
                let t = match want {
                    Some(Ty::Arr(t, _)) => Some((**t).clone()),
                    _ => None,
                };
                let v = self.expr(sc, v, t.as_ref())?;
                self.literal(sc, e, vec![v; *n])?
            }
            E::New(t, n) => V::Arr(Rc::new(RefCell::new(vec![self.zero(t); *n])), 0),
            E::TupIx(a, k) | E::Mem(a, _, k) => match self.expr(sc, a, None)? {
                V::Agg(v) if *k < v.len() => v[*k].clone(),
                v => return Err(Stop::GivesUp(format!("{v:?}.{k}"))),
            },
            E::Ix(a, i) => {
                let a = self.expr(sc, a, None)?;
                let i = self.index(sc, i)?;
                match a {
                    V::Arr(v, _) if i < v.borrow().len() => v.borrow()[i].clone(),
                    _ => return Err(Stop::GivesUp("index".into())),
                }
            }
            E::Cast(a) => match self.expr(sc, a, Some(&Ty::U32))? {
                V::U32(n) if (n as u64) < P => V::Felt(n),
                V::U32(_) => return Err(Stop::Fails("cast".into())),
                v => v,
            },
        })
    }
    fn index(&mut self, sc: &mut Scopes, i: &E) -> Result<usize, Stop> {
        match self.expr(sc, i, None)? {
            V::Felt(n) | V::U32(n) => Ok(n as usize),
            v => Err(Stop::GivesUp(format!("[{v:?}]"))),
        }
    }
    /// Runs `f` on the place `e` denotes.
    fn place(&mut self, sc: &mut Scopes, e: &E, f: &mut dyn FnMut(&mut V)) -> Result<(), Stop> {
        match e {
            E::Var(n) => match sc.iter_mut().rev().find_map(|s| s.get_mut(n)) {
                Some(v) => f(v),
                None => return Err(Stop::GivesUp("no variable".into())),
            },
            E::Paren(a) => self.place(sc, a, f)?,
            E::TupIx(a, k) | E::Mem(a, _, k) => {
                let k = *k;
                self.place(sc, a, &mut |v| {
                    if let V::Agg(v) = v {
                        if let Some(p) = v.get_mut(k) {
                            f(p)
                        }
                    }
                })?
            }
            E::Ix(a, i) => {
                let a = self.expr(sc, a, None)?;
                let i = self.index(sc, i)?;
                match a {
                    V::Arr(v, _) if i < v.borrow().len() => {
                        self.writes += 1;
                        f(&mut v.borrow_mut()[i])
                    }
                    _ => return Err(Stop::GivesUp("index".into())),
                }
            }
            _ => return Err(Stop::GivesUp("place".into())),
        }
        Ok(())
    }
    /// The type of a place, as far as needed to type plain literals.
    fn hint(&mut self, sc: &mut Scopes, e: &E) -> Option<Ty> {
        Some(type_of(&self.expr(sc, e, None).ok()?))
    }
    fn block(&mut self, sc: &mut Scopes, v: &[S]) -> Result<Flow, Stop> {
        sc.push(BTreeMap::new());
        for s in v {
            match self.stmt(sc, s)? {
                Flow::Next => {}
                f => {
                    sc.pop();
                    return Ok(f);
                }
            }
        }
        sc.pop();
        Ok(Flow::Next)
    }
    fn stmt(&mut self, sc: &mut Scopes, s: &S) -> Result<Flow, Stop> {
        self.tick()?;
        match s {
            S::Let(n, t, e) => {
                let v = self.expr(sc, e, t.as_ref())?;
                sc.last_mut().unwrap().insert(n.clone(), v);
            }
            S::LetTup(ns, e) => match self.expr(sc, e, None)? {
                V::Agg(v) => {
                    for (n, v) in ns.iter().zip(v) {
                        sc.last_mut().unwrap().insert(n.clone(), v);
                    }
                }
                v => return Err(Stop::GivesUp(format!("let () = {v:?}"))),
            },
            S::Assign(a, b) => {
                let t = self.hint(sc, a);
                let v = self.expr(sc, b, t.as_ref())?;
                self.place(sc, a, &mut |p| *p = v.clone())?;
            }
            S::If(c, a, b) => {
                if self.bool(sc, c)? {
                    return self.block(sc, a);
                } else if let Some(b) = b {
                    return self.block(sc, b);
                }
            }
            S::While(c, b) => {
                while self.bool(sc, c)? {
                    match self.block(sc, b)? {
                        Flow::Break => break,
                        Flow::Return(v) => return Ok(Flow::Return(v)),
                        _ => {}
                    }
                }
            }
            S::Loop(b) => loop {
                self.tick()?;
                match self.block(sc, b)? {
                    Flow::Break => break,
                    Flow::Return(v) => return Ok(Flow::Return(v)),
                    _ => {}
                }
            },
            S::For(i, c, n, b) => {
                sc.push(BTreeMap::new());
                self.stmt(sc, i)?;
                while self.bool(sc, c)? {
                    match self.block(sc, b)? {
                        Flow::Break => break,
                        Flow::Return(v) => {
                            sc.pop();
                            return Ok(Flow::Return(v));
                        }
                        _ => {}
                    }
                    self.stmt(sc, n)?;
                }
                sc.pop();
            }
            S::Block(b) => return self.block(sc, b),
            S::Expr(e) => {
                self.expr(sc, e, None)?;
            }
            S::Assert(e) => {
                if !self.bool(sc, e)? {
                    return Err(Stop::Fails("assert".into()));
                }
            }
            S::Return(None) => return Ok(Flow::Return(V::Unit)),
            S::Return(Some(e)) => {
                let t = self.ret.clone();
                return Ok(Flow::Return(self.expr(sc, e, Some(&t))?));
            }
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::Next)
    }
}

// ------------------------------------------------------------------ shrinking

fn each_expr(e: &mut E, f: &mut dyn FnMut(&mut E)) {
    f(e);
    match e {
        E::Bin(_, a, b) | E::Ix(a, b) => {
            each_expr(a, f);
            each_expr(b, f);
        }
        E::Un(_, a) | E::Rep(a, _) | E::TupIx(a, _) | E::Mem(a, ..) | E::Cast(a) | E::Paren(a) => each_expr(a, f),
        E::Call(_, v) | E::Tup(v) | E::St(_, v) | E::Arr(v) => v.iter_mut().for_each(|e| each_expr(e, f)),
        _ => {}
    }
}
fn each_list(v: &mut Vec<S>, f: &mut dyn FnMut(&mut Vec<S>)) {
    f(v);
    for s in v {
        match s {
            S::If(_, a, b) => {
                each_list(a, f);
                if let Some(b) = b {
                    each_list(b, f);
                }
            }
            S::While(_, b) | S::Loop(b) | S::For(_, _, _, b) | S::Block(b) => each_list(b, f),
            _ => {}
        }
    }
}
fn stmt_exprs(v: &mut [S], f: &mut dyn FnMut(&mut E)) {
    for s in v {
        match s {
            S::Let(_, _, e) | S::LetTup(_, e) | S::Expr(e) | S::Assert(e) | S::Return(Some(e)) => each_expr(e, f),
            S::Assign(a, b) => {
                each_expr(a, f);
                each_expr(b, f);
            }
            S::If(c, a, b) => {
                each_expr(c, f);
                stmt_exprs(a, f);
                if let Some(b) = b {
                    stmt_exprs(b, f);
                }
            }
            S::While(c, b) => {
                each_expr(c, f);
                stmt_exprs(b, f);
            }
            S::For(i, c, n, b) => {
                stmt_exprs(std::slice::from_mut(i), f);
                each_expr(c, f);
                stmt_exprs(std::slice::from_mut(n), f);
                stmt_exprs(b, f);
            }
            S::Loop(b) | S::Block(b) => stmt_exprs(b, f),
            _ => {}
        }
    }
}
pub fn for_exprs(v: &mut [S], f: &mut dyn FnMut(&mut E)) {
    stmt_exprs(v, f)
}
/// Programs one step simpler than `p`.
pub fn simpler(p: &Prog) -> Vec<Prog> {
    let mut r = vec![];
    // functions nobody calls
    let mut called = BTreeSet::from([0]);
    let mut work = vec![0];
    while let Some(k) = work.pop() {
        stmt_exprs(&mut p.funs[k].body.clone(), &mut |e| {
            if let E::Call(c, _) = e {
                if called.insert(*c) {
                    work.push(*c);
                }
            }
        });
    }
    for k in 0..p.funs.len() {
        if !called.contains(&k) && !p.dead.contains(&k) {
            let mut q = p.clone();
            q.dead.insert(k);
            r.push(q);
        }
    }
    for k in (0..p.funs.len()).filter(|k| !p.dead.contains(k)) {
        let mut lists = 0;
        each_list(&mut p.funs[k].body.clone(), &mut |v| lists += v.len());
        for at in 0..lists {
            for how in 0..3 {
                let mut q = p.clone();
                let mut n = 0;
                let mut ok = false;
                each_list(&mut q.funs[k].body, &mut |v| {
                    if at >= n && at < n + v.len() && !ok {
                        let i = at - n;
                        let inner = match (&v[i], how) {
                            (_, 0) => Some(vec![]),
                            (S::If(_, a, _), 1) => Some(a.clone()),
                            (S::If(_, _, Some(b)), 2) => Some(b.clone()),
                            (S::While(_, b) | S::Loop(b) | S::For(_, _, _, b) | S::Block(b), 1) => Some(b.clone()),
                            _ => None,
                        };
                        if let Some(x) = inner {
                            ok = true;
                            v.splice(i..=i, x);
                        }
                        n = usize::MAX / 2;
                        return;
                    }
                    n += v.len();
                });
                if ok {
                    r.push(q);
                }
            }
        }
        let mut exprs = 0;
        stmt_exprs(&mut p.funs[k].body.clone(), &mut |_| exprs += 1);
        for at in 0..exprs {
            for how in 0..8 {
                let mut q = p.clone();
                let mut n = 0;
                let mut ok = false;
                stmt_exprs(&mut q.funs[k].body, &mut |e| {
                    if n == at && !ok {
                        let new = match (&*e, how) {
                            (E::Felt(_) | E::U32(_) | E::Bool(_) | E::Plain(_) | E::Var(_), 3..) => None,
                            (E::Felt(n) | E::Plain(n) | E::U32(n), 0) if *n > 1 => Some(E::Plain(1)),
                            (_, 0) => None,
                            (E::Bin(_, a, _), 1) | (E::Un(_, a), 1) | (E::Paren(a), 1) | (E::Cast(a), 1) => Some((**a).clone()),
                            (E::TupIx(a, _) | E::Mem(a, ..), 1) => Some((**a).clone()),
                            (E::Bin(_, _, b), 2) => Some((**b).clone()),
                            (E::Call(_, v), 1) | (E::Tup(v), 1) if !v.is_empty() => Some(v[0].clone()),
                            (E::Call(_, v), 2) | (E::Tup(v), 2) if v.len() > 1 => Some(v[1].clone()),
                            (_, 3) => Some(E::Felt(1)),
                            (_, 4) => Some(E::U32(1)),
                            (_, 5) => Some(E::Bool(true)),
                            (_, 6) => Some(E::Bool(false)),
                            _ => None,
                        };
                        if let Some(x) = new {
                            ok = true;
                            *e = x;
                        }
                    }
                    n += 1;
                });
                if ok && q != *p {
                    r.push(q);
                }
            }
        }
    }
    r
}
