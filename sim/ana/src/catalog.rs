//! The reference model of what the analyser reports: a catalogue of small program fragments, each with
//! the problems it contains marked in its text (`⟪CODE|text⟫`), and the rules by which fragments
//! compose into modules and modules into projects.
use crate::obs::path_of;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// statements, anywhere in a function body
    Stmt,
    /// statements that must not be placed inside a loop
    NoLoop,
    /// top-level items
    Item,
}
#[derive(Clone, Debug)]
pub struct Snip {
    pub kind: Kind,
    /// text with `$` placeholders
    pub text: String,
    /// (code, start, end) in `text`
    pub marks: Vec<(u32, usize, usize)>,
    /// shared names it uses
    pub needs: Vec<&'static str>,
    /// imports something from the shared module itself
    pub imports: bool,
}

/// Shared declarations: (name, text, other shared names it needs)
pub const SHARED: &[(&str, &str, &[&str])] = &[
    ("Pt", "struct Pt { x: felt, y: felt }", &[]),
    ("Ctr", "struct Ctr { value: felt }", &[]),
    ("Cfg", "struct Cfg { on: bool, n: u32 }", &[]),
    ("Rect", "struct Rect { tl: Pt, w: u32, h: u32 }", &["Pt"]),
    ("Holder", "struct Holder { a: [u32; 2] }", &[]),
    ("get_felt", "fn get_felt() -> felt { return 42; }", &[]),
    ("id_felt", "fn id_felt(v: felt) -> felt { return v; }", &[]),
    ("add2", "fn add2(a: felt, b: felt) -> felt { return a + b; }", &[]),
    ("pair", "fn pair() -> (felt, felt) { return (10, 20); }", &[]),
    ("triple", "fn triple() -> (felt, u32, bool) { return (42, 100u32, true); }", &[]),
    ("sum3", "fn sum3(a: [felt; 3]) -> felt { return a[0] + a[1] + a[2]; }", &[]),
    ("sum_u2", "fn sum_u2(a: [u32; 2]) -> u32 { return a[0] + a[1]; }", &[]),
    ("noargs", "fn noargs() { return; }", &[]),
    ("dist", "fn dist(p1: Pt, p2: Pt) -> felt { return p1.x - p2.x; }", &["Pt"]),
    ("is_zero", "fn is_zero(x: felt) -> bool { return x == 0; }", &[]),
    ("KF", "const KF: felt = 7;", &[]),
    ("KARR", "const KARR: [u32; 3] = [1u32, 2u32, 3u32];", &[]),
    ("KA2", "const KA2: [u32; 2] = [1u32, 2u32];", &[]),
    ("KPT", "const KPT: Pt = Pt { x: 1, y: 2 };", &["Pt"]),
    ("KTUP", "const KTUP = (1u32, 2u32);", &[]),
];
/// What the shared module holds besides `SHARED`.
pub const SHARED_EXTRA: &str = "fn only_here(x: felt) -> felt { return x; }\nstruct OnlyS { v: felt }\nconst ONLYK: felt = 9;\nfn use_consts() -> felt { let _a = KARR; let _b = KA2; let _c = KPT; let _d = KTUP; let _e = ONLYK; return KF; }\n";

pub fn shared_module() -> String {
    let mut s = String::new();
    for (_, t, _) in SHARED {
        s += t;
        s += "\n";
    }
    s + SHARED_EXTRA
}

fn has_word(text: &str, w: &str) -> bool {
    let b = text.as_bytes();
    let ok = |c: Option<&u8>| !c.map(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'$').unwrap_or(false);
    text.match_indices(w).any(|(i, _)| ok(if i == 0 { None } else { b.get(i - 1) }) && ok(b.get(i + w.len())))
}

pub fn parse_line(line: &str) -> Snip {
    let kind = match &line[..1] {
        "S" => Kind::Stmt,
        "N" => Kind::NoLoop,
        _ => Kind::Item,
    };
    let mut text = String::new();
    let mut marks = vec![];
    let mut stack = vec![];
    let mut rest = &line[2..];
    while let Some(c) = rest.chars().next() {
        if c == '⟪' {
            let end = rest.find('|').expect("mark");
            let code: u32 = rest['⟪'.len_utf8()..end].parse().expect("code");
            stack.push((code, text.len()));
            rest = &rest[end + 1..];
        } else if c == '⟫' {
            let (code, start) = stack.pop().expect("mark");
            marks.push((code, start, text.len()));
            rest = &rest[c.len_utf8()..];
        } else {
            text.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    assert!(stack.is_empty());
    let imports = text.contains("use prelude::");
    let needs = SHARED.iter().map(|s| s.0).filter(|n| has_word(&text, n)).collect();
    Snip { kind, text, marks, needs, imports }
}
pub fn load(src: &str) -> Vec<Snip> {
    src.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(parse_line).collect()
}
pub fn all() -> &'static Vec<Snip> {
    static C: OnceLock<Vec<Snip>> = OnceLock::new();
    C.get_or_init(|| load(include_str!("../catalog/catalog.txt")))
}

/// How a statement fragment is nested, from the outside in.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Wrap {
    Block,
    Then,
    Else,
    While,
    Loop,
    For,
    After,
}
pub const WRAPS: [Wrap; 7] = [Wrap::Block, Wrap::Then, Wrap::Else, Wrap::While, Wrap::Loop, Wrap::For, Wrap::After];
impl Wrap {
    pub fn is_loop(self) -> bool {
        matches!(self, Wrap::While | Wrap::Loop | Wrap::For)
    }
    fn parts(self, k: usize) -> (String, String) {
        match self {
            Wrap::Block => ("{ ".into(), " }".into()),
            Wrap::Then => ("if true { ".into(), " }".into()),
            Wrap::Else => (format!("if false {{ let _e{k} = 1; }} else {{ "), " }".into()),
            Wrap::While => ("while true { ".into(), " }".into()),
            Wrap::Loop => ("loop { ".into(), " if true { break; } }".into()),
            Wrap::For => (format!("for (let i__{k}: u32 = 0; i__{k} < 3; i__{k} = i__{k} + 1) {{ "), " }".into()),
            Wrap::After => (format!("let _p{k} = {k}; "), format!(" let _q{k} = _p{k};")),
        }
    }
}

/// An occurrence of a fragment in a module.
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Inst {
    pub snip: usize,
    pub uid: u32,
    pub wraps: Vec<Wrap>,
}
/// A module, as the model knows it.
#[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Module {
    /// shared names come from the shared module (true) or are declared here
    pub imported: bool,
    pub insts: Vec<Inst>,
    /// lines put in front (comments, blank lines), shifts every location
    pub padding: u32,
    /// text that does not parse, appended
    pub broken: Option<usize>,
    /// random programs, after the fragments
    #[serde(default)]
    pub progs: Vec<crate::prog::Prog>,
}
pub const BROKEN: [&str; 12] = [
    "fn broken( {",
    "fn broken() { let x = ; }",
    "fn broken() { let = 5; return; }",
    "struct Broken { x felt }",
    "fn broken() { return 1 + ; }",
    "fn broken() { if { } }",
    "fn broken() { let s = \"text\"; return; }",
    "fn broken() { # }",
    "let x = 5;",
    "fn broken() -> { return; }",
    "const = 3;",
    "fn broken() { return;",
];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Expected {
    pub file: String,
    pub code: u32,
    pub start: usize,
    pub end: usize,
    pub text: String,
}

/// Text of a fragment occurrence and the positions of its marks in it.
pub fn render_inst(s: &Snip, inst: &Inst) -> (String, Vec<(u32, usize, usize)>) {
    let uid = format!("_{}", inst.uid);
    let mut head = String::new();
    let mut tail = String::new();
    if s.kind != Kind::Item {
        head += &format!("fn t{uid}() {{ ");
        let mut tails = vec![];
        for (k, w) in inst.wraps.iter().enumerate() {
            let (a, b) = w.parts(k);
            head += &a;
            tails.push(b);
        }
        for t in tails.into_iter().rev() {
            tail += &t;
        }
        tail += " return; }";
    }
    // substitute `$`, keeping positions
    let mut body = String::new();
    let mut map = vec![0usize; s.text.len() + 1];
    for (i, c) in s.text.char_indices() {
        map[i] = body.len();
        if c == '$' {
            body += &uid;
        } else {
            body.push(c);
        }
    }
    map[s.text.len()] = body.len();
    let marks = s.marks.iter().map(|&(c, a, b)| (c, head.len() + map[a], head.len() + map[b])).collect();
    (head + &body + &tail, marks)
}

/// Text of a module, and what must be reported about it provided that it and the shared module parse.
pub fn render(name: &str, m: &Module, cat: &[Snip]) -> (String, Vec<Expected>) {
    let mut text = String::new();
    let mut exp = vec![];
    for k in 0..m.padding {
        text += &format!("// padding {k} é✓\n");
    }
    let mut needs: BTreeMap<usize, &'static str> = BTreeMap::new();
    let mut todo: Vec<&str> = m.insts.iter().flat_map(|i| cat[i.snip].needs.iter().copied()).collect();
    while let Some(n) = todo.pop() {
        let ix = SHARED.iter().position(|s| s.0 == n).unwrap();
        if needs.insert(ix, SHARED[ix].0).is_none() && !m.imported {
            todo.extend(SHARED[ix].2);
        }
    }
    for ix in needs.keys() {
        if m.imported {
            text += &format!("use prelude::{};\n", SHARED[*ix].0);
        } else {
            text += SHARED[*ix].1;
            text += "\n";
        }
    }
    for inst in &m.insts {
        let (t, marks) = render_inst(&cat[inst.snip], inst);
        let at = text.len();
        for (code, a, b) in marks {
            exp.push(Expected { file: path_of(name), code, start: at + a, end: at + b, text: t[a..b].to_string() });
        }
        text += &t;
        text += "\n";
    }
    for p in &m.progs {
        let (t, marks, _) = crate::prog::render(p);
        let at = text.len();
        for (code, a, b) in marks {
            exp.push(Expected { file: path_of(name), code, start: at + a, end: at + b, text: t[a..b].to_string() });
        }
        text += &t;
    }
    if let Some(b) = m.broken {
        text += BROKEN[b];
        text += "\n";
    }
    exp.sort();
    (text, exp)
}
