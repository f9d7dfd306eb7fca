//! Edit histories: what a user does to the modules of a project, and what the tool is asked in between.
use crate::catalog::{self, BROKEN, Inst, Kind, Module, SHARED, SHARED_EXTRA, WRAPS};
use crate::obs::Query;
use drv::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// a module gets this text (created if absent)
    Set(String, String),
    Remove(String),
    /// queries made at this point, in this order
    Ask(Vec<Query>),
    /// the process is restarted: only the texts survive
    Reopen(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Hist {
    pub initial: Vec<(String, String)>,
    pub ops: Vec<Op>,
}

pub const NAMES: [&str; 9] = ["main", "other", "util", "a", "b", "geo::shapes", "geo::deep::more", "prelude", "zz"];

pub const CORPUS: [&str; 10] = [
    include_str!("../corpus/sha256.cm"),
    include_str!("../corpus/all_opcodes.cm"),
    include_str!("../corpus/combination.cm"),
    include_str!("../corpus/u32_operations.cm"),
    include_str!("../corpus/loops_with_break_continue.cm"),
    include_str!("../corpus/mutual_recursion.cm"),
    include_str!("../corpus/tuple_destructuring.cm"),
    include_str!("../corpus/nested_loops.cm"),
    include_str!("../corpus/structs2.cm"),
    include_str!("../corpus/pointers2.cm"),
];

/// Declarations and statements that refer to each other in circles, shadow, clash and recurse.
const TANGLES: [&str; 26] = [
    "struct A { a: A }",
    "struct A { b: B* }\nstruct B { a: A }",
    "struct S { x: f }\nfn f(s: S) -> felt { return s.x; }",
    "struct T { x: K }\nconst K = T { x: 1 };",
    "const A = A;",
    "const A = B;\nconst B = A;",
    "const A: felt = f();\nfn f() -> felt { return A; }",
    "fn f() -> felt { return g(); }\nfn g() -> felt { return f(); }",
    "fn f(f: f) -> f { return f; }",
    "fn r() -> felt { let x = x; let x = x + x; return x; }",
    "fn r() -> felt { const Z: felt = Z; return Z; }",
    "fn g() { for (let i = i; i < i; i = i) { let i = i; } return; }",
    "fn t() { let (a, b) = (b, a); let (c, c) = c; return; }",
    "fn d() { return; }\nfn d() -> felt { return 1; }\nstruct d { x: d }\nconst d = d;",
    "fn n() -> felt { let f = n; return f(); }",
    "fn n() -> felt { return n; }",
    "fn m() { m() = 3; m().x = 4; m[0] = m; return m(); }",
    "struct P { x: felt, x: P*, y: (P, P) }",
    "fn p(x: P*) -> P { return x[0]; }",
    "fn a() -> [felt; 3] { return [a(); 3]; }",
    "fn w() { while w { loop { if w() { break; } } } return; }",
    "fn u(x: Undefined, y: Undefined*) -> (Undefined, felt) { return (x, y.z); }",
    "fn e() { }",
    "struct Empty { }\nfn mk() -> Empty { return Empty { }; }",
    "const ARR: [felt; 3] = [ARR[0], ARR[1], 3];",
    "fn big() -> felt { return 99999999999999999999999; }",
];
const TOKENS: [&str; 60] = [
    "fn", "let", "if", "else", "return", "struct", "use", "const", "while", "loop", "for", "break;", "continue;", "new", "as", "true", "{", "}",
    "(", ")", "[", "]", ";", ":", "::", ",", ".", "->", "=", "==", "&&", "||", "!", "-", "*", "+", "%", "&", "felt", "u32", "bool", "0", "1u32",
    "4294967296", "18446744073709551616", "x", "main", "\"s\"", "// c\n", "//! d\n", "/// e\n", "\r\n", "\t", "é", "🦀", "\u{0}", "@", "1felt", "a.0.1", "\u{feff}",
];

pub struct Doc {
    pub text: String,
    pub model: Option<Module>,
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub docs: BTreeMap<String, Doc>,
    pub past: Vec<(String, String)>,
    pub uid: u32,
    pub model_only: bool,
}
/// Kinds of edit actually made, counted.
pub type Kinds = BTreeMap<String, u64>;

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, model_only: bool) -> Self {
        Gen { r, docs: BTreeMap::new(), past: vec![], uid: 0, model_only }
    }
    pub fn inst(&mut self, imports_allowed: bool) -> Inst {
        let cat = catalog::all();
        loop {
            let snip = self.r.below(cat.len());
            let s = &cat[snip];
            if s.imports && !imports_allowed {
                continue;
            }
            self.uid += 1;
            let mut wraps = vec![];
            if s.kind != Kind::Item {
                for _ in 0..*self.r.pick(&[0, 0, 1, 1, 2, 3]) {
                    let w = *self.r.pick(&WRAPS);
                    if s.kind == Kind::NoLoop && w.is_loop() {
                        continue;
                    }
                    wraps.push(w);
                }
            }
            return Inst { snip, uid: self.uid, wraps };
        }
    }
    pub fn has_import(m: &Module) -> bool {
        m.insts.iter().any(|i| catalog::all()[i.snip].imports)
    }
    pub fn module(&mut self) -> Module {
        let mut m = Module { imported: self.r.chance(1, 2), ..Default::default() };
        for _ in 0..*self.r.pick(&[0, 1, 1, 2, 2, 3, 5]) {
            let i = self.inst(!Self::has_import(&m));
            m.insts.push(i);
        }
        if self.r.chance(1, 3) {
            m.progs.push(self.prog());
        }
        m
    }
    fn prog(&mut self) -> crate::prog::Prog {
        self.uid += 1;
        let errors = self.r.chance(2, 3);
        crate::prog::random(self.r, self.uid, errors)
    }
    pub fn put(&mut self, name: &str, m: Module) -> String {
        let text = catalog::render(name, &m, catalog::all()).0;
        self.docs.insert(name.into(), Doc { text: text.clone(), model: Some(m) });
        text
    }
    pub fn prelude(&mut self) -> String {
        let mut t = String::new();
        for _ in 0..self.r.below(3) {
            t += "// head\n";
        }
        t + &catalog::shared_module()
    }
    pub fn initial(&mut self) -> Vec<(String, String)> {
        let p = self.prelude();
        self.docs.insert("prelude".into(), Doc { text: p, model: None });
        let n = self.r.range(1, 5);
        let mut names: Vec<&str> = NAMES.iter().copied().filter(|n| *n != "prelude" && *n != "main").collect();
        self.r.shuffle(&mut names);
        names.truncate(n - 1);
        names.push("main");
        for n in names {
            let m = self.module();
            self.put(n, m);
        }
        let mut v: Vec<(String, String)> = self.docs.iter().map(|(k, d)| (k.clone(), d.text.clone())).collect();
        self.r.shuffle(&mut v);
        v
    }
    fn boundary(s: &str, mut i: usize) -> usize {
        i = i.min(s.len());
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        i
    }
    /// A model edit of module `name` (which must have a model).
    pub fn model_edit(&mut self, name: &str) -> String {
        let mut m = self.docs[name].model.clone().unwrap();
        match self.r.below(14) {
            10 if m.progs.len() < 2 => {
                let p = self.prog();
                m.progs.push(p);
            }
            11 if !m.progs.is_empty() => {
                m.progs.pop();
            }
            12 | 13 if !m.progs.is_empty() => {
                // edit one statement away, or back to another program with the same names
                let smaller = crate::prog::shrink(&m.progs[0]);
                m.progs[0] = if smaller.is_empty() { self.prog() } else { self.r.pick(&smaller).clone() };
            }
            0..=3 => {
                let i = self.inst(!Self::has_import(&m));
                let at = self.r.below(m.insts.len() + 1);
                m.insts.insert(at, i);
            }
            4 | 5 if !m.insts.is_empty() => {
                let at = self.r.below(m.insts.len());
                m.insts.remove(at);
            }
            6 => m.imported = !m.imported,
            7 => m.padding = self.r.below(4) as u32,
            8 => m.broken = if m.broken.is_some() { None } else { Some(self.r.below(BROKEN.len())) },
            _ => {
                if m.insts.len() > 1 {
                    let k = self.r.below(m.insts.len());
                    let i = m.insts.remove(k);
                    m.insts.push(i);
                } else {
                    m.broken = None;
                    let i = self.inst(!Self::has_import(&m));
                    m.insts.push(i);
                }
            }
        }
        self.put(name, m)
    }
    fn raw_edit(&mut self, name: &str) -> (String, &'static str) {
        let t = self.docs[name].text.clone();
        let len = t.len();
        let a = Self::boundary(&t, self.r.below(len + 1));
        match self.r.below(14) {
            0 => (t[..a].to_string(), "torn_document"),
            1 => (t[a..].to_string(), "torn_document"),
            2 | 3 => {
                let b = Self::boundary(&t, (a + self.r.below(12)).min(len));
                (format!("{}{}", &t[..a], &t[b..]), "lost_characters")
            }
            4 | 5 => {
                let tok = *self.r.pick(&TOKENS);
                (format!("{}{tok}{}", &t[..a], &t[a..]), "stray_characters")
            }
            6 => {
                let ls: Vec<&str> = t.lines().collect();
                let mut v: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
                if !v.is_empty() {
                    let k = self.r.below(v.len());
                    let l = v[k].clone();
                    v.insert(self.r.below(k + 1), l);
                }
                (v.join("\n") + "\n", "duplicated_line")
            }
            7 => {
                let mut v: Vec<String> = t.lines().map(|s| s.to_string()).collect();
                if !v.is_empty() {
                    let k = self.r.below(v.len());
                    v.remove(k);
                }
                (v.join("\n") + "\n", "lost_line")
            }
            8 | 9 => (format!("{}\n{}\n", t, self.r.pick(&TANGLES)), "tangled_declarations"),
            10 => (self.r.pick(&CORPUS).to_string(), "replaced_document"),
            11 => (String::new(), "emptied_document"),
            12 => {
                let to = *self.r.pick(&["felt", "u32", "bool", "Pt", "(felt, felt)", "felt*"]);
                let from = *self.r.pick(&["felt", "u32", "bool"]);
                let hits: Vec<usize> = t.match_indices(from).map(|x| x.0).collect();
                if hits.is_empty() {
                    (t, "type_changed")
                } else {
                    let h = *self.r.pick(&hits);
                    (format!("{}{to}{}", &t[..h], &t[h + from.len()..]), "type_changed")
                }
            }
            _ => {
                let to = *self.r.pick(&NAMES);
                let item = *self.r.pick(&["f", "main", "Pt", "get_felt", "A", "KF"]);
                (format!("use {to}::{item};\n{t}"), "import_added")
            }
        }
    }
    fn prelude_edit(&mut self) -> (String, &'static str) {
        let mut lines: Vec<String> = SHARED.iter().map(|s| s.1.to_string()).collect();
        match self.r.below(6) {
            0 => {
                let k = self.r.below(lines.len());
                lines.remove(k);
            }
            1 => {
                let k = self.r.below(lines.len());
                lines[k] = lines[k].replacen("felt", "u32", 1);
            }
            2 => {
                let k = self.r.below(lines.len());
                lines[k] = lines[k].replacen("u32", "felt", 1);
            }
            3 => self.r.shuffle(&mut lines),
            4 => {
                let to = *self.r.pick(&NAMES);
                lines.insert(0, format!("use {to}::main;"));
            }
            _ => {}
        }
        (lines.join("\n") + "\n" + SHARED_EXTRA, "shared_module_changed")
    }
    /// One edit; returns the operation, having updated the documents.
    pub fn edit(&mut self, kinds: &mut Kinds) -> Op {
        let names: Vec<String> = self.docs.keys().cloned().collect();
        let roll = self.r.below(100);
        let (name, text, kind): (String, String, &str);
        if self.model_only || roll < 45 {
            let with: Vec<&String> = names.iter().filter(|n| self.docs[*n].model.is_some()).collect();
            if with.is_empty() || (roll % 11 == 0 && names.len() < 7) {
                let n = NAMES.iter().find(|n| !self.docs.contains_key(**n)).copied().unwrap_or("main");
                let m = self.module();
                text = self.put(n, m);
                name = n.into();
                kind = "module_added";
            } else if self.model_only && roll % 17 == 0 {
                text = self.prelude();
                name = "prelude".into();
                kind = "shared_module_changed";
                self.docs.insert(name.clone(), Doc { text: text.clone(), model: None });
            } else if roll % 13 == 0 && with.len() > 1 {
                let n = self.r.pick(&with).to_string();
                self.docs.remove(&n);
                *kinds.entry("module_removed".into()).or_insert(0) += 1;
                return Op::Remove(n);
            } else {
                let n = self.r.pick(&with).to_string();
                text = self.model_edit(&n);
                name = n;
                kind = "model_edit";
            }
        } else if roll < 82 {
            name = self.r.pick(&names).clone();
            (text, kind) = self.raw_edit(&name);
            self.docs.insert(name.clone(), Doc { text: text.clone(), model: None });
        } else if roll < 88 {
            (text, kind) = self.prelude_edit();
            name = "prelude".into();
            self.docs.insert(name.clone(), Doc { text: text.clone(), model: None });
        } else if roll < 93 && !self.past.is_empty() {
            let (n, t) = self.r.pick(&self.past).clone();
            name = n;
            text = t;
            kind = "reverted";
            self.docs.insert(name.clone(), Doc { text: text.clone(), model: None });
        } else if roll < 96 && names.len() > 1 {
            let n = self.r.pick(&names).clone();
            self.docs.remove(&n);
            *kinds.entry("module_removed".into()).or_insert(0) += 1;
            return Op::Remove(n);
        } else {
            let n = *self.r.pick(&NAMES);
            let m = self.module();
            text = self.put(n, m);
            name = n.into();
            kind = "module_rewritten";
        }
        *kinds.entry(kind.into()).or_insert(0) += 1;
        if text.len() > 20_000 {
            let m = self.module();
            let t = self.put(&name, m);
            return Op::Set(name, t);
        }
        self.past.push((name.clone(), text.clone()));
        if self.past.len() > 12 {
            self.past.remove(0);
        }
        Op::Set(name, text)
    }
    pub fn some_queries(&mut self, n: usize, format: bool) -> Vec<Query> {
        let names: Vec<String> = self.docs.keys().cloned().collect();
        (0..n)
            .map(|_| {
                let m = if names.is_empty() || self.r.chance(1, 25) { "nowhere".to_string() } else { self.r.pick(&names).clone() };
                match self.r.below(if format { 14 } else { 13 }) {
                    0..=2 => Query::Batch,
                    3 => Query::Parse,
                    4..=6 => Query::Module(m),
                    7 => Query::ModuleParse(m),
                    8 => Query::ModuleSemantic(m),
                    9 => Query::Imports,
                    10..=12 => Query::Index(m),
                    _ => Query::Format(m),
                }
            })
            .collect()
    }
    pub fn all_queries(&mut self) -> Vec<Query> {
        let mut v = vec![Query::Batch, Query::Parse, Query::Imports];
        for n in self.docs.keys() {
            v.push(Query::Module(n.clone()));
            v.push(Query::Index(n.clone()));
        }
        self.r.shuffle(&mut v);
        v
    }
}

/// A random history of about `len` edits.
pub fn random(r: &mut Rng, len: usize, format: bool) -> (Hist, Kinds) {
    let mut kinds = Kinds::new();
    let mut g = Gen::new(r, false);
    let initial = g.initial();
    let mut ops = vec![];
    if g.r.chance(1, 2) {
        ops.push(Op::Ask(g.all_queries()));
    }
    for _ in 0..len {
        for _ in 0..*g.r.pick(&[1, 1, 1, 2, 4]) {
            ops.push(g.edit(&mut kinds));
        }
        if g.r.chance(1, 25) {
            ops.push(Op::Reopen(g.r.next()));
            *kinds.entry("restart".into()).or_insert(0) += 1;
        }
        if g.r.chance(3, 4) {
            let n = g.r.range(1, 5);
            ops.push(Op::Ask(g.some_queries(n, format)));
        }
    }
    ops.push(Op::Ask(g.all_queries()));
    (Hist { initial, ops }, kinds)
}

/// Smaller histories, most aggressive first.
pub fn shrink(h: &Hist) -> Vec<Hist> {
    let mut out = vec![];
    let n = h.ops.len();
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < n {
            let mut c = h.clone();
            c.ops.drain(i..(i + chunk).min(n));
            out.push(c);
            i += chunk;
        }
        if chunk == 1 {
            break;
        }
        chunk = chunk.div_ceil(2);
    }
    for i in 0..h.initial.len() {
        let mut c = h.clone();
        c.initial.remove(i);
        out.push(c);
    }
    for (i, op) in h.ops.iter().enumerate() {
        if let Op::Ask(q) = op {
            if q.len() > 1 {
                for k in 0..q.len() {
                    let mut c = h.clone();
                    if let Op::Ask(q) = &mut c.ops[i] {
                        q.remove(k);
                    }
                    out.push(c);
                }
            }
        }
    }
    // fewer lines
    let cut = |t: &str| -> Vec<String> {
        let ls: Vec<&str> = t.lines().collect();
        let mut v = vec![];
        let mut chunk = ls.len().div_ceil(2);
        while chunk >= 1 && ls.len() > 1 {
            let mut i = 0;
            while i < ls.len() {
                let mut l = ls.clone();
                l.drain(i..(i + chunk).min(ls.len()));
                v.push(l.join("\n") + "\n");
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        v
    };
    for i in 0..h.initial.len() {
        for t in cut(&h.initial[i].1) {
            let mut c = h.clone();
            c.initial[i].1 = t;
            out.push(c);
        }
    }
    for i in 0..n {
        if let Op::Set(m, t) = &h.ops[i] {
            for t in cut(t) {
                let mut c = h.clone();
                c.ops[i] = Op::Set(m.clone(), t);
                out.push(c);
            }
        }
    }
    out
}
