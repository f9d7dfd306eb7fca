//! Format-on-save: in an editing session a saved document keeps its meaning and its comments, and
//! saving it again changes nothing; a document that does not parse is left alone.
use crate::*;
use cairo_m_compiler_parser::{SourceFile, parse_file};
use cairo_m_compiler_semantic::db::SemanticDatabaseImpl;
pub struct F;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Set(String, String),
    Remove(String),
    Save(String),
    Reopen(u64),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct FScn {
    sched: Sched,
    initial: Vec<(String, String)>,
    ops: Vec<FOp>,
    #[serde(default)]
    kinds: Kinds,
    /// readers that format the project's other modules while a document is saved
    readers: usize,
    aux: u64,
}

/// Ends of the tokens of a text: places at which a comment or white space may be put.
fn boundaries(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    let mut v = vec![0];
    let mut i = 0;
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        if b[i].is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if word(b[i]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        } else if ["->", "::", "==", "!=", "<=", ">=", "&&", "||"].iter().any(|o| b[i..].starts_with(o.as_bytes())) {
            i += 2;
        } else {
            i += 1;
            while i < b.len() && !t.is_char_boundary(i) {
                i += 1;
            }
        }
        v.push(i);
    }
    v
}
const REMARKS: [&str; 8] = ["// note $", "/// doc $", "// TODO($): é✓ fix", "//", "// fn f() { let x = 1; } $", "//$", "// trailing blanks $   ", "// a // b $"];
fn sprinkle(r: &mut Rng, t: &str, kinds: &mut Kinds) -> String {
    let mut t = t.to_string();
    let n = *r.pick(&[0, 1, 1, 2, 4, 9]);
    for _ in 0..n {
        let bs = boundaries(&t);
        // half of the time at the end of a line or statement, as people write them
        let likely: Vec<usize> = bs.iter().copied().filter(|&i| i > 0 && matches!(t.as_bytes()[i - 1], b';' | b'{' | b'}' | b',')).collect();
        let at = if r.chance(1, 2) && !likely.is_empty() { *r.pick(&likely) } else { *r.pick(&bs) };
        let (ins, kind) = match r.below(10) {
            0..=6 => {
                let c = r.pick(&REMARKS).replace('$', &r.below(1000).to_string());
                let before = *r.pick(&[" ", "\n", "\n\n", "", "  \n\t"]);
                (format!("{before}{c}{}", r.pick(&["\n", "\n", "\n\n", "\r\n"])), "comment_written")
            }
            7 => (" ".repeat(r.range(1, 5)), "white_space_added"),
            8 => ("\n\n\n".into(), "white_space_added"),
            _ => ("\r\n".into(), "white_space_added"),
        };
        *kinds.entry(kind.into()).or_insert(0) += 1;
        t.insert_str(at, &ins);
    }
    t
}
const EXPRS: [&str; 26] = [
    "a", "b", "1", "0xff", "7u32", "true", "(a + b) * 2", "a + b * c", "(a)", "((a))", "-a", "!(a == b)", "f(a, b)", "g()", "p.x", "t.0", "t.0.1", "v[0]", "v[a + 1]",
    "(a, b)", "(a,)", "()", "[a, b]", "[0u32; 3]", "Pt { x: a, y: b }", "new felt[n]",
];
const TYPES: [&str; 12] = ["felt", "u32", "bool", "Pt", "(felt, u32)", "(felt,)", "()", "[u32; 3]", "felt*", "Pt**", "(felt, (u32, bool))", "[(felt, felt); 2]"];
fn expr(r: &mut Rng, d: usize) -> String {
    if d == 0 || r.chance(1, 3) {
        return r.pick(&EXPRS).to_string();
    }
    let (a, b) = (expr(r, d - 1), expr(r, d - 1));
    let many = |r: &mut Rng, from: usize| {
        let n = *r.pick(&[0, 1, 1, 2, 3, 5, 7, 9]);
        (0..n.max(from)).map(|_| expr(r, d - 1)).collect::<Vec<_>>()
    };
    match r.below(20) {
        11 => {
            let v = many(r, 0);
            format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
        }
        12 => format!("{}({})", r.pick(&["f", "(f)", "p.f"]), many(r, 0).join(", ")),
        13 => format!("[{}]", many(r, 1).join(", ")),
        14 => {
            let v: Vec<String> = many(r, 0).into_iter().enumerate().map(|(k, e)| format!("x{k}: {e}")).collect();
            format!("Pt {{ {} }}", v.join(", "))
        }
        15 => format!("({a})[{b}]"),
        16 => format!("({a}).{}", r.pick(&["x", "0", "1"])),
        17 => format!("({a})({b})"),
        18 => format!("(({a}) as {}) {} {b}", r.pick(&TYPES[..3]), r.pick(&["+", "==", "<", "&&"])),
        19 => format!("({a}) as {}", r.pick(&TYPES)),
        0..=3 => format!("{a} {} {b}", r.pick(&["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^"])),
        4 => format!("({a})"),
        5 => format!("({a}, {b})"),
        6 => format!("f({a}, {b})"),
        7 => format!("{}({a})", r.pick(&["-", "!"])),
        8 => format!("({a}) as {}", r.pick(&TYPES[..3])),
        9 => format!("[{a}, {b}]"),
        _ => format!("Pt {{ x: {a}, y: {b} }}"),
    }
}
fn pattern(r: &mut Rng, d: usize) -> String {
    let n = *r.pick(&[2, 2, 3, 4, 7, 9]);
    let v: Vec<String> = (0..n).map(|k| if d > 0 && r.chance(1, 5) { pattern(r, d - 1) } else { format!("y{k}") }).collect();
    format!("({})", v.join(", "))
}
/// A condition, with or without parentheses around it or at its start.
fn condition(r: &mut Rng) -> String {
    let a = expr(r, 1);
    match r.below(6) {
        0 => format!("({a})"),
        1 => format!("({a}) {} {}", r.pick(&["==", "!=", "&&", "||", "<"]), expr(r, 1)),
        2 => format!("({a})[{}]", expr(r, 1)),
        3 => format!("({a}){}", r.pick(&[".x", ".0", "()", "(b)", " as bool"])),
        4 => r.pick(&["a", "p.x", "t.0", "v[0]", "K", "!a", "-a == b", "a == b", "a < K", "f()", "f(a)"]).to_string(),
        _ => format!("(({a}) {} b)", r.pick(&["==", "||"])),
    }
}
fn stmt(r: &mut Rng, d: usize) -> String {
    let e = expr(r, 3);
    let block = |r: &mut Rng| {
        let n = r.below(3);
        let s: Vec<String> = (0..n).map(|_| stmt(r, d.saturating_sub(1))).collect();
        format!("{{ {} }}", s.join(" "))
    };
    match r.below(if d == 0 { 6 } else { 12 }) {
        0 => format!("let x: {} = {e};", r.pick(&TYPES)),
        1 => format!("let {} = {e};", if r.chance(1, 3) { "x".into() } else { pattern(r, 2) }),
        2 => format!("x = {e};"),
        3 => format!("const K{}= {e};", r.pick(&[" ", ": felt ", ": [u32; 2] "])),
        4 => r.pick(&["return;", "break;", "continue;", "f(x);", "g();"]).to_string(),
        5 => format!("return {e};"),
        6 => {
            let (t, c) = (block(r), if r.chance(1, 2) { condition(r) } else { r.pick(&["a == b", "(a == b)", "(a) == (b)", "!(a)", "f(a)", "(a && b) || c"]).to_string() });
            match r.below(3) {
                0 => format!("if {c} {t}"),
                1 => format!("if {c} {t} else {}", block(r)),
                _ => format!("if {c} {t} else if {c} {} else {}", block(r), block(r)),
            }
        }
        7 => format!("while {} {}", condition(r), block(r)),
        8 => format!("loop {}", block(r)),
        9 => format!("for (let i = 0{}; i < 10; i = i + 1) {}", r.pick(&["", "u32"]), block(r)),
        _ => block(r),
    }
}
/// A document made of random syntax, mostly without meaning.
fn shapes(r: &mut Rng) -> String {
    let n = r.range(1, 5);
    (0..n)
        .map(|k| match r.below(8) {
            0 => format!("struct S{k} {{ a: {}, b: {} }}", r.pick(&TYPES), r.pick(&TYPES)),
            1 => format!("const C{k}{} = {};", r.pick(&["", ": felt", ": u32", ": (felt,)"]), expr(r, 2)),
            2 => r.pick(&["use prelude::{Pt, KF};", "use prelude::KF;", "use a::b::c;", "struct Nothing {}"]).to_string(),
            _ => {
                let b: Vec<String> = (0..r.below(5)).map(|_| stmt(r, 3)).collect();
                format!(
                    "fn f{k}({}){} {{{}{}}}",
                    r.pick(&["", "a: felt", "a: felt, b: u32", "a: (felt,), p: Pt*"]),
                    r.pick(&["", " -> ()", " -> felt", " -> (felt, u32)", " -> (felt,)"]),
                    if b.is_empty() { "" } else { " " },
                    b.join(" ")
                )
            }
        })
        .collect::<Vec<_>>()
        .join(*r.pick(&["\n", "\n\n", " "]))
}

impl Family for F {
    type Scn = FScn;
    fn id(&self) -> &'static str {
        "P08"
    }
    fn generate(&self, seed: u64, index: u64) -> FScn {
        let mut r = Rng::new(seed, index);
        let readers = *r.pick(&[0, 0, 0, 1, 2]);
        let sched = if readers > 0 { Sched::random(&mut r) } else { Sched::sequential(r.next()) };
        let aux = r.next();
        let len = *r.pick(&[2, 4, 8, 16]);
        let mut kinds = Kinds::new();
        let mut s = Rng::new(r.next(), 5);
        let mut g = hist::Gen::new(&mut r, false);
        let initial: Vec<(String, String)> = g.initial().into_iter().map(|(n, t)| (n, sprinkle(&mut s, &t, &mut kinds))).collect();
        let mut ops = vec![];
        for _ in 0..len {
            let name = match g.edit(&mut kinds) {
                Op::Set(n, t) => {
                    let t = match s.below(5) {
                        0..=2 => {
                            *kinds.entry("random_syntax".into()).or_insert(0) += 1;
                            shapes(&mut s)
                        }
                        _ => t,
                    };
                    ops.push(FOp::Set(n.clone(), sprinkle(&mut s, &t, &mut kinds)));
                    n
                }
                Op::Remove(n) => {
                    ops.push(FOp::Remove(n));
                    continue;
                }
                _ => continue,
            };
            if s.chance(4, 5) {
                ops.push(FOp::Save(name));
            } else if let Some((n, _)) = initial.get(s.below(initial.len().max(1))) {
                ops.push(FOp::Save(n.clone()));
            }
            if s.chance(1, 20) {
                ops.push(FOp::Reopen(s.next()));
                *kinds.entry("restart".into()).or_insert(0) += 1;
            }
        }
        FScn { sched, initial, ops, kinds, readers, aux }
    }
    fn run(&self, scn: &FScn) -> RunOut {
        let s = scn.clone();
        let mut o = simulate(&scn.sched, u64::MAX, move || go(&s));
        note_kinds(&mut o, &scn.kinds);
        o.summary = format!(
            "{} documents at the start, {} operations of which {} saves, {} concurrent readers",
            scn.initial.len(),
            scn.ops.len(),
            scn.ops.iter().filter(|o| matches!(o, FOp::Save(_))).count(),
            scn.readers
        );
        o
    }
    fn shrink(&self, s: &FScn) -> Vec<FScn> {
        // by way of the shrinker of plain histories
        let h = Hist {
            initial: s.initial.clone(),
            ops: s
                .ops
                .iter()
                .map(|o| match o {
                    FOp::Set(a, b) => Op::Set(a.clone(), b.clone()),
                    FOp::Remove(a) => Op::Remove(a.clone()),
                    FOp::Save(a) => Op::Ask(vec![Query::Format(a.clone())]),
                    FOp::Reopen(k) => Op::Reopen(*k),
                })
                .collect(),
        };
        let mut v: Vec<FScn> = hist::shrink(&h)
            .into_iter()
            .map(|h| FScn {
                initial: h.initial,
                ops: h
                    .ops
                    .into_iter()
                    .filter_map(|o| match o {
                        Op::Set(a, b) => Some(FOp::Set(a, b)),
                        Op::Remove(a) => Some(FOp::Remove(a)),
                        Op::Ask(q) => match q.into_iter().next() {
                            Some(Query::Format(a)) => Some(FOp::Save(a)),
                            _ => None,
                        },
                        Op::Reopen(k) => Some(FOp::Reopen(k)),
                    })
                    .collect(),
                ..s.clone()
            })
            .collect();
        if s.readers > 0 {
            v.insert(0, FScn { readers: 0, ..s.clone() });
        }
        // fewer tokens
        for (i, op) in s.ops.iter().enumerate() {
            if let FOp::Set(m, t) = op {
                if t.len() < 600 {
                    let b = boundaries(t);
                    for w in [24, 8, 3, 2, 1] {
                        for k in 0..b.len().saturating_sub(w) {
                            let mut c = s.clone();
                            c.ops[i] = FOp::Set(m.clone(), format!("{}{}", &t[..b[k]], &t[b[k + w]..]));
                            v.push(c);
                        }
                    }
                }
            }
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut FScn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (5000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when at least one document that parses was saved through the formatter and checked; distinct by trace hash over all results".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the editor: simulated users set module texts directly and save through the formatter", "reference: the parser's own syntax trees without positions, and the comments found by a scanner of the harness"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["saved_document", "saved_unparsable_document", "comment_written", "random_syntax", "concurrent_readers", "torn_document"]
    }
}

/// The syntax tree without positions.
fn tree(db: &SemanticDatabaseImpl, f: SourceFile) -> Option<String> {
    let p = parse_file(db, f);
    if !p.diagnostics.is_empty() {
        return None;
    }
    let s = format!("{:?}", p.module);
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let a = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if b[i..].starts_with(b"..") {
                i += 2;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                o.push('@');
            } else {
                o += &s[a..i];
            }
        } else {
            let a = i;
            while i < b.len() && !b[i].is_ascii_digit() {
                i += 1;
            }
            o += &s[a..i];
        }
    }
    Some(o)
}
fn remarks(t: &str) -> Vec<String> {
    let mut v: Vec<String> = t.lines().filter_map(|l| l.find("//").map(|i| l[i..].trim_end().to_string())).collect();
    v.sort();
    v
}
/// What is reported, without positions.
fn complaints(db: &SemanticDatabaseImpl, krate: cairo_m_compiler_semantic::db::Crate, q: &Query) -> Vec<String> {
    let mut v: Vec<String> = query(db, krate, q)
        .into_iter()
        .map(|l| {
            let mut o = String::new();
            let l = l.find("\" [").map(|i| &l[..i]).unwrap_or(&l);
            let mut it = l.split(' ');
            for w in it.by_ref() {
                let span = w.trim_start_matches(['[', '"']).split_once("..").map(|(a, b)| a.parse::<usize>().is_ok() && b.parse::<usize>().is_ok()) == Some(true);
                o += if span { "@" } else { w };
                o.push(' ');
            }
            o
        })
        .collect();
    v.sort();
    v
}
fn first_difference(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut lo = i.saturating_sub(60);
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        s[lo..].chars().take(140).collect::<String>()
    };
    format!("\n    before: …{}\n    after:  …{}", cut(a), cut(b))
}

fn go(s: &FScn) {
    let mut sess = Sess::new(&s.initial);
    for op in &s.ops {
        match op {
            FOp::Set(n, t) => sess.set_text(n, t.clone()),
            FOp::Remove(n) => sess.remove(n),
            FOp::Reopen(seed) => {
                let t = shuffled(&sess.texts(), *seed);
                sess = Sess::new(&t);
            }
            FOp::Save(n) => {
                let Some(file) = sess.files.get(n).copied() else { continue };
                let before = file.text(&sess.db).clone();
                let q = Query::Format(n.clone());
                // others format the project at the same time
                let hs: Vec<_> = (0..s.readers)
                    .map(|k| {
                        let (db, krate, q) = (sess.db.clone(), sess.krate, q.clone());
                        let names: Vec<String> = sess.files.keys().cloned().collect();
                        let pick = Rng::new(s.aux, k as u64).pick(&names).clone();
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn(move || {
                                query(&db, krate, &Query::Format(pick));
                                query(&db, krate, &q)
                            })
                            .unwrap()
                    })
                    .collect();
                let text = |lines: Vec<String>| lines.join("\n");
                let got = format_text(&sess.db, file);
                for h in hs {
                    out(|o| {
                        o.probe("concurrent_readers");
                        o.comparisons += 1;
                    });
                    let r = text(h.join().unwrap_or_default());
                    if r != got.lines().collect::<Vec<_>>().join("\n") {
                        out(|o| o.fail("format-race", format!("{n}: two requests to format the same document differ{}", first_difference(&got, &r))));
                    }
                }
                simk::mix(hash_str(&got));
                out(|o| o.comparisons += 1);
                if got.starts_with("PANIC") {
                    out(|o| o.fail("format-crash", format!("{n}: {got}")));
                    return;
                }
                let Some(old) = tree(&sess.db, file) else {
                    out(|o| o.probe("saved_unparsable_document"));
                    if got != before {
                        out(|o| o.fail("format-unparsable", format!("{n}: a document that does not parse was changed{}", first_difference(&before, &got))));
                        return;
                    }
                    continue;
                };
                out(|o| {
                    o.probe("saved_document");
                    o.nontrivial = true;
                });
                let queries = [Query::Module(n.clone()), Query::Batch];
                let reported: Vec<_> = queries.iter().map(|q| complaints(&sess.db, sess.krate, q)).collect();
                sess.set_text(n, got.clone());
                match tree(&sess.db, file) {
                    None => {
                        out(|o| o.fail("format-breaks", format!("{n}: the formatted document does not parse:\n{got}")));
                        return;
                    }
                    Some(new) if new != old => {
                        out(|o| o.fail("format-meaning", format!("{n}: the formatted document is a different program{}", first_difference(&old, &new))));
                        return;
                    }
                    _ => {}
                }
                let (a, b) = (remarks(&before), remarks(&got));
                if a != b {
                    out(|o| o.fail("format-comments", format!("{n}: comments{}", diff(&b, &a))));
                    return;
                }
                for (q, old) in queries.iter().zip(&reported) {
                    let new = complaints(&sess.db, sess.krate, q);
                    if &new != old {
                        out(|o| o.fail("format-diagnostics", format!("{n}: {q:?} after formatting{}", diff(&new, old))));
                        return;
                    }
                }
                let again = format_text(&sess.db, file);
                if again != got {
                    out(|o| o.fail("format-unstable", format!("{n}: formatting again changes the document{}", first_difference(&got, &again))));
                    return;
                }
            }
        }
    }
}
fn format_text(db: &SemanticDatabaseImpl, f: SourceFile) -> String {
    use cairo_m_compiler_parser::Upcast;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        cairo_m_formatter::format_source_file(db.upcast(), f, &cairo_m_formatter::FormatterConfig::default())
    }));
    match r {
        Ok(t) => t,
        Err(_) => {
            let p = drv::panics();
            format!("PANIC {}", p.last().map(|p| format!("{} at {}", p.message, p.location)).unwrap_or_default())
        }
    }
}
