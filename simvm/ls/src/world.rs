//! The editor's world: projects on a disk, documents in an editor, and a session with the server.
use crate::*;
use ana::hist::{Gen, Kinds};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::{Crate, SemanticDatabaseImpl, module_all_diagnostics};
use futures::StreamExt;
use futures::future::BoxFuture;
use lsp_types::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tower_lsp::{Client, LanguageServer, Sent};

/// What the server sees as the workspace.
pub const ROOT: &str = "/sim";
pub const MANIFEST: &str = "cairom.toml";

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Hover,
    Goto,
    Completion,
    Format,
    RangeFormat,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// the editor opens a document; what it shows is what is on disk
    Open(String),
    /// the user types
    Change(String, String),
    /// the document goes to disk
    Save(String),
    /// saved and closed
    Close(String),
    /// a file comes into being on disk
    Create(String, String),
    /// the manifest of a project is written anew (and the server told so)
    Manifest(String, String),
    /// a question about a place chosen by the number
    Ask(Kind, String, u64),
    Wait(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scn {
    pub sched: Sched,
    pub dirseed: u64,
    pub workers: usize,
    pub debounce: Option<u64>,
    /// the editor takes this long (ms) to take a message
    pub slow: u64,
    pub disk: BTreeMap<String, String>,
    /// (delay before it in ms, what happens)
    pub ops: Vec<(u64, Op)>,
    /// questions asked all at once when everything has been quiet
    #[serde(default)]
    pub finals: Vec<(Kind, String, u64)>,
    #[serde(default)]
    pub kinds: Kinds,
    pub aux: u64,
}

fn file_of(dir: &str, module: &str) -> String {
    if dir.is_empty() { format!("{}.cm", module.replace("::", "/")) } else { format!("{dir}/src/{}.cm", module.replace("::", "/")) }
}
pub fn manifest(name: &str) -> String {
    format!("name = \"{name}\"\nversion = \"0.1.0\"\nentry_point = \"main.cm\"\n")
}
/// A project of a few lines: functions, constants and structs that the modules take from one another,
/// whose names and types change, with characters outside ASCII in front of what questions ask about.
struct Tiny {
    mods: Vec<&'static str>,
    /// module -> (what it exports, of which kind, of which type)
    state: BTreeMap<&'static str, TinyMod>,
}
#[derive(Clone, Default)]
struct TinyMod {
    /// number of the name it exports, and of its type
    name: usize,
    ty: usize,
    form: usize,
    broken: usize,
    lines: usize,
    wide: usize,
    uses: Vec<&'static str>,
}
const TINY_TYPES: [(&str, &str); 3] = [("felt", "1"), ("u32", "2u32"), ("bool", "true")];
const TINY_WIDE: [&str; 5] = ["", "/* 😀😀 */ ", "/* é */ ", "/* 漢字 */ ", "/* 𝒳é😀 */ "];
impl Tiny {
    fn new(r: &mut Rng) -> Tiny {
        let mut mods = vec!["main"];
        for m in ["a", "b", "deep::c"] {
            if r.chance(2, 3) {
                mods.push(m);
            }
        }
        let mut t = Tiny { mods: mods.clone(), state: BTreeMap::new() };
        for m in mods {
            let uses = t.some_uses(r, m);
            t.state.insert(m, TinyMod { name: r.below(2), ty: r.below(3), form: r.below(3), broken: 0, lines: r.below(3), wide: r.below(TINY_WIDE.len()), uses });
        }
        t
    }
    fn some_uses(&self, r: &mut Rng, m: &str) -> Vec<&'static str> {
        // later modules use earlier ones, seldom the other way round (a cycle), seldom one that is not there
        let at = self.mods.iter().position(|x| *x == m).unwrap_or(0);
        let mut u: Vec<&'static str> = self.mods.iter().enumerate().filter(|(i, x)| **x != m && (*i > at || r.chance(1, 12))).map(|(_, x)| *x).collect();
        u.retain(|_| r.chance(2, 3));
        if r.chance(1, 10) {
            u.push("gone");
        }
        u
    }
    fn item(m: &str, n: usize) -> String {
        format!("{}_{n}", m.replace("::", "_"))
    }
    fn text(&self, r: &mut Rng, m: &str) -> String {
        let s = &self.state[m];
        let mut t = String::new();
        for i in 0..s.lines {
            t += &format!("// {i} {}\n", TINY_WIDE[(s.wide + i) % TINY_WIDE.len()]);
        }
        let w = TINY_WIDE[s.wide];
        let mut body = String::new();
        for u in &s.uses {
            let (name, form) = match self.state.get(u) {
                Some(o) => (if r.chance(1, 8) { 1 - o.name } else { o.name }, o.form),
                None => (0, 0),
            };
            let it = Self::item(u, name);
            t += &format!("{w}use {u}::{it};\n");
            let q = u.replace("::", "_");
            body += &match form {
                0 => format!("    {w}let _{q} = {it}();\n"),
                1 => format!("    {w}let _{q} = {it};\n"),
                _ => format!("    {w}let _{q} = {it} {{ v: 1 }};\n"),
            };
        }
        let (ty, val) = TINY_TYPES[s.ty];
        let it = Self::item(m, s.name);
        t += &match s.form {
            0 => format!("/// {w}gives\n{w}fn {it}() -> {ty} {{ {w}let q = {val}; {w}return q; }}\n"),
            1 => format!("{w}const {it}: {ty} = {val};\n"),
            _ => format!("{w}struct {it} {{ v: {ty} }}\n"),
        };
        t += &format!("fn main_{}() {{\n{body}    {w}let x = 1; {w}let y = x; {w}let _z = y;\n    return;\n}}\n", m.replace("::", "_"));
        match s.broken {
            1 => t += &format!("fn bad_{}() -> felt {{ return nothing; }}\n", m.replace("::", "_")),
            2 => t += "fn broken( {\n",
            3 => t += &format!("fn bad_{}() {{ let unused = 1; return 5; }}\n", m.replace("::", "_")),
            _ => {}
        }
        if s.lines == 2 && s.wide == 1 {
            t = t.replace('\n', "\r\n");
        }
        t
    }
    fn edit(&mut self, r: &mut Rng, kinds: &mut Kinds) -> (&'static str, String) {
        let m = *r.pick(&self.mods);
        let uses = self.some_uses(r, m);
        let s = self.state.get_mut(m).unwrap();
        let what = match r.below(9) {
            0 => {
                s.name = 1 - s.name;
                "exported_name_changed"
            }
            1 => {
                s.ty = r.below(3);
                "exported_type_changed"
            }
            2 => {
                s.form = r.below(3);
                "exported_kind_changed"
            }
            3 | 4 => {
                s.broken = *r.pick(&[1, 2, 3]);
                "breakage"
            }
            5 => {
                s.broken = 0;
                "repair"
            }
            6 => {
                s.uses = uses;
                "imports_changed"
            }
            7 => {
                s.wide = r.below(TINY_WIDE.len());
                "wide_characters"
            }
            _ => {
                s.lines = r.below(3);
                "lines_moved"
            }
        };
        *kinds.entry(what.into()).or_insert(0) += 1;
        (m, self.text(r, m))
    }
}
pub struct Feat {
    pub long_waits: bool,
    pub manifests: bool,
    pub creates: bool,
    pub closes: bool,
    pub asks: bool,
    pub finals: bool,
}
pub fn random(r: &mut Rng, f: &Feat) -> Scn {
    let mut disk = BTreeMap::new();
    let mut kinds = Kinds::new();
    let nproj = *r.pick(&[1, 1, 1, 2, 3]);
    let mut dirs: Vec<String> = vec![];
    for p in 0..nproj {
        // some projects lie within others
        let d = if p > 0 && r.chance(1, 4) { format!("{}/lib{p}", dirs[0]) } else { format!("p{p}") };
        dirs.push(d.clone());
        disk.insert(format!("{d}/{MANIFEST}"), manifest(&format!("p{p}")));
    }
    // one generator of documents per project
    let small = r.chance(1, 2);
    let tiny = r.chance(3, 5);
    if tiny {
        *kinds.entry("small_documents".into()).or_insert(0) += 1;
    }
    let mut streams: Vec<Vec<(String, String)>> = vec![];
    for d in &dirs {
        if tiny {
            let mut t = Tiny::new(r);
            for m in t.mods.clone() {
                disk.insert(file_of(d, m), t.text(r, m));
            }
            let mut st = vec![];
            for _ in 0..16 {
                let (m, text) = t.edit(r, &mut kinds);
                st.push((file_of(d, m), text));
            }
            streams.push(st);
            continue;
        }
        let mut g = Gen::new(r, false);
        let mut init = g.initial();
        if small {
            init.retain(|(m, _)| m == "main" || m == "prelude" || m == "a");
        }
        for (m, t) in &init {
            disk.insert(file_of(d, m), t.clone());
        }
        let mut st = vec![];
        for _ in 0..12 {
            if let ana::hist::Op::Set(m, t) = g.edit(&mut kinds) {
                st.push((file_of(d, &m), t));
            }
        }
        streams.push(st);
    }
    if r.chance(1, 4) {
        disk.insert("solo/alone.cm".into(), "fn main() -> felt { let x = y; return 1; }\n".into());
        streams.push(vec![
            ("solo/alone.cm".into(), "fn main() -> felt { let y = 1; return y; }\n".into()),
            ("solo/alone.cm".into(), "// 😀 é\nfn main() -> felt { /* */ return 😀; }\n".into()),
            ("solo/alone.cm".into(), "fn main() -> felt { return true; }\n".into()),
        ]);
    }
    let mut ops: Vec<(u64, Op)> = vec![];
    let mut open: BTreeSet<String> = BTreeSet::new();
    let mut there: BTreeSet<String> = disk.keys().filter(|k| k.ends_with(".cm")).cloned().collect();
    let len = *r.pick(&[2, 4, 8, 16]);
    let delay = |r: &mut Rng| *r.pick(&[0u64, 0, 0, 1, 20, 150, 299, 300, 301, 700, 2000]);
    let first = r.pick(&there.iter().cloned().collect::<Vec<_>>()).clone();
    open.insert(first.clone());
    ops.push((0, Op::Open(first)));
    for _ in 0..len {
        let d = delay(r);
        match r.below(20) {
            0..=9 => {
                let i = r.below(streams.len());
                if streams[i].is_empty() {
                    continue;
                }
                let (p, t) = streams[i].remove(0);
                if !there.contains(&p) {
                    if f.creates {
                        ops.push((d, Op::Create(p.clone(), t)));
                        *kinds.entry("file_created".into()).or_insert(0) += 1;
                        there.insert(p.clone());
                        open.insert(p.clone());
                        ops.push((delay(r), Op::Open(p)));
                    }
                    continue;
                }
                if open.insert(p.clone()) {
                    ops.push((d, Op::Open(p.clone())));
                }
                ops.push((delay(r), Op::Change(p, t)));
            }
            10..=12 => {
                let p = r.pick(&there.iter().cloned().collect::<Vec<_>>()).clone();
                if open.insert(p.clone()) {
                    ops.push((d, Op::Open(p)));
                }
            }
            13 if f.closes => {
                if let Some(p) = open.iter().next().cloned() {
                    open.remove(&p);
                    ops.push((d, Op::Close(p)));
                }
            }
            13 => {
                if let Some(p) = open.iter().next().cloned() {
                    ops.push((d, Op::Save(p)));
                }
            }
            14 if f.long_waits => {
                *kinds.entry("long_session".into()).or_insert(0) += 1;
                ops.push((d, Op::Wait(*r.pick(&[60_000u64, 299_000, 300_000, 301_000, 620_000]))))
            }
            15 if f.manifests => {
                let dir = r.pick(&dirs).clone();
                let good = r.chance(1, 2);
                *kinds.entry(if good { "manifest_rewritten" } else { "manifest_broken_for_a_while" }.into()).or_insert(0) += 1;
                if !good {
                    ops.push((d, Op::Manifest(dir.clone(), r.pick(&["", "name = ", "[[[", "version = \"1\"\n"]).to_string())));
                    let p = r.pick(&open.iter().cloned().collect::<Vec<_>>()).clone();
                    if let Some(i) = streams.iter().position(|s| s.iter().any(|(q, _)| *q == p)) {
                        let k = streams[i].iter().position(|(q, _)| *q == p).unwrap();
                        let (p, t) = streams[i].remove(k);
                        ops.push((delay(r), Op::Change(p, t)));
                    }
                }
                ops.push((delay(r), Op::Manifest(dir, manifest("again"))));
            }
            16..=18 if f.asks => {
                let p = r.pick(&open.iter().cloned().collect::<Vec<_>>()).clone();
                let k = *r.pick(&KINDS);
                ops.push((d, Op::Ask(k, p, r.next())));
            }
            _ => {}
        }
        if open.is_empty() {
            let p = r.pick(&there.iter().cloned().collect::<Vec<_>>()).clone();
            open.insert(p.clone());
            ops.push((0, Op::Open(p)));
        }
    }
    let mut finals = vec![];
    if f.finals {
        let o: Vec<String> = open.iter().cloned().collect();
        for _ in 0..r.range(1, 9) {
            finals.push((*r.pick(&KINDS), r.pick(&o).clone(), r.next()));
        }
    }
    let mut sched = Sched::random(r);
    if r.chance(1, 4) {
        sched = Sched::sequential(r.next());
    }
    Scn {
        sched,
        dirseed: r.next(),
        workers: r.range(1, 5),
        debounce: *r.pick(&[None, None, Some(0), Some(50), Some(1000)]),
        slow: *r.pick(&[0, 0, 0, 5, 100]),
        disk,
        ops,
        finals,
        kinds,
        aux: r.next(),
    }
}
pub const KINDS: [Kind; 7] = [Kind::Hover, Kind::Hover, Kind::Goto, Kind::Goto, Kind::Completion, Kind::Format, Kind::RangeFormat];
pub fn shrink(s: &Scn) -> Vec<Scn> {
    let mut out = vec![];
    let n = s.ops.len();
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < n {
            let mut c = s.clone();
            c.ops.drain(i..(i + chunk).min(n));
            out.push(c);
            i += chunk;
        }
        if chunk == 1 {
            break;
        }
        chunk = chunk.div_ceil(2);
    }
    for i in 0..s.finals.len() {
        let mut c = s.clone();
        c.finals.remove(i);
        out.push(c);
    }
    for k in s.disk.keys() {
        if !s.finals.iter().any(|(_, p, _)| p == k) && !s.ops.iter().any(|(_, o)| match o {
            Op::Open(p) | Op::Change(p, _) | Op::Save(p) | Op::Close(p) | Op::Create(p, _) | Op::Ask(_, p, _) => p == k,
            Op::Manifest(d, _) => k.starts_with(&format!("{d}/")) && k.ends_with(MANIFEST),
            _ => false,
        }) {
            let mut c = s.clone();
            c.disk.remove(k);
            out.push(c);
        }
    }
    let simple = |f: &dyn Fn(&mut Scn) -> bool| {
        let mut c = s.clone();
        f(&mut c).then_some(c)
    };
    out.extend(simple(&|c| std::mem::replace(&mut c.workers, 1) != 1));
    out.extend(simple(&|c| std::mem::replace(&mut c.slow, 0) != 0));
    out.extend(simple(&|c| std::mem::replace(&mut c.debounce, None).is_some()));
    for i in 0..n {
        if s.ops[i].0 != 0 {
            let mut c = s.clone();
            c.ops[i].0 = 0;
            out.push(c);
        }
    }
    // shorter texts
    let cuts = |t: &str| -> Vec<String> {
        let ls: Vec<&str> = t.lines().collect();
        let mut v = vec![];
        let mut chunk = ls.len() / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < ls.len() {
                let mut l = ls.clone();
                l.drain(i..(i + chunk).min(ls.len()));
                v.push(l.iter().map(|x| format!("{x}\n")).collect());
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        v
    };
    for (k, t) in &s.disk {
        if !k.ends_with(MANIFEST) {
            for t in cuts(t) {
                let mut c = s.clone();
                c.disk.insert(k.clone(), t);
                out.push(c);
            }
        }
    }
    for i in 0..n {
        if let Op::Change(p, t) | Op::Create(p, t) = &s.ops[i].1 {
            for t in cuts(t) {
                let mut c = s.clone();
                c.ops[i].1 = match &s.ops[i].1 {
                    Op::Change(..) => Op::Change(p.clone(), t),
                    _ => Op::Create(p.clone(), t),
                };
                out.push(c);
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------ files

static ELSEWHERE: Mutex<Option<PathBuf>> = Mutex::new(None);
pub fn set_scratch(p: &str) {
    *ELSEWHERE.lock().unwrap() = Some(PathBuf::from(p));
}
pub fn scratch() -> PathBuf {
    if let Some(p) = ELSEWHERE.lock().unwrap().clone() {
        return p;
    }
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{base}/vls-{:08}", std::process::id()))
}
pub fn clean() {
    let r = scratch();
    assert!(r.to_string_lossy().contains("/vls-"));
    let _ = std::fs::remove_dir_all(&r);
    let _ = std::fs::remove_dir_all(format!("{}-fresh", r.to_string_lossy()));
}
pub fn put(rel: &str, text: &str) {
    let p = scratch().join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
    let tmp = p.with_extension("tmp~");
    std::fs::write(&tmp, text).expect("scratch file");
    std::fs::rename(&tmp, &p).expect("scratch file");
}
pub fn url(rel: &str) -> Url {
    Url::from_file_path(format!("{ROOT}/{rel}")).expect("url")
}
pub fn rel(u: &Url) -> String {
    u.path().strip_prefix(&format!("{ROOT}/")).map(|s| s.to_string()).unwrap_or_else(|| u.to_string())
}

// ------------------------------------------------------------------------------------ the editor's view

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub text: String,
    pub version: i32,
    pub open: bool,
}
#[derive(Clone, Debug, Default)]
pub struct View {
    pub disk: BTreeMap<String, String>,
    pub docs: BTreeMap<String, Doc>,
    /// documents that were ever opened
    pub ever: BTreeSet<String>,
}
impl View {
    /// The text the user thinks of.
    pub fn text(&self, p: &str) -> Option<&String> {
        match self.docs.get(p) {
            Some(d) if d.open => Some(&d.text),
            _ => self.disk.get(p),
        }
    }
    /// The directory of the project a file belongs to.
    pub fn project(&self, p: &str) -> Option<String> {
        let mut d = p;
        while let Some(i) = d.rfind('/') {
            d = &d[..i];
            if self.disk.contains_key(&format!("{d}/{MANIFEST}")) {
                return Some(d.to_string());
            }
        }
        None
    }
    /// The modules of the project in `dir`: (name, file).
    pub fn modules(&self, dir: &str) -> Vec<(String, String)> {
        let src = format!("{dir}/src/");
        self.disk
            .keys()
            .filter(|k| k.starts_with(&src) && k.ends_with(".cm"))
            .map(|k| (k[src.len()..k.len() - 3].replace('/', "::"), k.clone()))
            .collect()
    }
    /// The groups of files that are analysed together, given what was opened.
    pub fn crates(&self) -> Vec<Vec<(String, String)>> {
        let dirs: BTreeSet<String> = self.ever.iter().filter_map(|p| self.project(p)).collect();
        let mut v: Vec<_> = dirs.iter().map(|d| self.modules(d)).collect();
        for p in &self.ever {
            if self.project(p).is_none() {
                let stem = Path::new(p).file_stem().unwrap().to_string_lossy().into_owned();
                v.push(vec![(stem, p.clone())]);
            }
        }
        v
    }
}
/// The words of a text: where they start, and what they are.
pub fn words(text: &str) -> Vec<(usize, &str)> {
    let mut v = vec![];
    let mut start = None;
    for (i, c) in text.char_indices().chain([(text.len(), ' ')]) {
        let part = c == '_' || c.is_ascii_alphanumeric();
        match (start, part) {
            (None, true) => start = Some(i),
            (Some(s), false) => {
                v.push((s, &text[s..i]));
                start = None;
            }
            _ => {}
        }
    }
    v
}
/// The place a number stands for: mostly within a word.
pub fn place(text: &str, n: u64) -> Position {
    let w: Vec<_> = words(text).into_iter().filter(|(_, w)| !w.starts_with(|c: char| c.is_ascii_digit())).collect();
    if w.is_empty() || n % 11 == 0 {
        return position(text, (n >> 8) as usize % (text.len() + 1));
    }
    let (s, w) = w[(n >> 8) as usize % w.len()];
    position(text, s + (n >> 40) as usize % w.len())
}
/// The offset of a place.
pub fn offset(text: &str, p: Position) -> Option<usize> {
    let mut start = 0;
    for _ in 0..p.line {
        start += text[start..].find('\n')? + 1;
    }
    let mut n = 0;
    for (i, c) in text[start..].char_indices() {
        if n >= p.character {
            return (n == p.character).then_some(start + i);
        }
        if c == '\n' {
            return None;
        }
        n += c.len_utf16() as u32;
    }
    (n == p.character).then_some(text.len())
}
/// Places as editors count them.
pub fn position(text: &str, offset: usize) -> Position {
    let mut offset = offset.min(text.len());
    while !text.is_char_boundary(offset) {
        offset -= 1;
    }
    let before = &text[..offset];
    let line = before.matches('\n').count();
    let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    Position { line: line as u32, character: before[start..].encode_utf16().count() as u32 }
}

// ------------------------------------------------------------------------------------ the reference

#[derive(Serialize, Deserialize)]
pub struct AskRef {
    pub entropy: u64,
    /// (module, file, text)
    pub krate: Vec<(String, String, String)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Diag {
    pub file: String,
    pub start: usize,
    pub end: usize,
    pub severity: i32,
    pub message: String,
}
/// What a fresh engine reports, module by module.
pub fn answer(req: &[u8]) -> Vec<u8> {
    let a: AskRef = serde_json::from_slice(req).expect("ask");
    let (cfg, devs) = Sched::sequential(a.entropy).cfg(u64::MAX);
    drv::install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            simk::begin(&cfg, &devs);
            let db = SemanticDatabaseImpl::default();
            let map: HashMap<String, SourceFile> =
                a.krate.iter().map(|(m, p, t)| (m.clone(), SourceFile::new(&db, t.clone(), url(p).to_string()))).collect();
            let krate = Crate::new(&db, map, "main".into(), PathBuf::from(ROOT), "x".into());
            let mut v = vec![];
            for (m, _, _) in &a.krate {
                for d in module_all_diagnostics(&db, krate, m.clone()).iter() {
                    let severity = match format!("{:?}", d.severity).as_str() {
                        "Error" => 1,
                        "Warning" => 2,
                        "Info" => 3,
                        _ => 4,
                    };
                    v.push(Diag { file: d.file_path.clone(), start: d.span.start, end: d.span.end, severity, message: d.message.clone() });
                }
            }
            simk::end();
            v
        })
        .expect("thread");
    serde_json::to_vec(&h.join().expect("oracle")).unwrap()
}

// ------------------------------------------------------------------------------------ the session

pub enum Msg {
    Initialize(InitializeParams),
    Initialized,
    Open(DidOpenTextDocumentParams),
    Change(DidChangeTextDocumentParams),
    Save(DidSaveTextDocumentParams),
    Close(DidCloseTextDocumentParams),
    Ask(u64, Kind, Url, Position),
}
/// A question, and the documents as they were when it was asked.
#[derive(Clone, Debug)]
pub struct Asked {
    pub id: u64,
    pub kind: Kind,
    pub file: String,
    pub at: Position,
    pub texts: Arc<BTreeMap<String, String>>,
    pub last: bool,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Reply {
    pub id: u64,
    pub value: serde_json::Value,
    pub error: Option<String>,
}
/// Everything that happened, as the editor saw it.
#[derive(Default)]
pub struct Record {
    pub published: BTreeMap<String, (Vec<Diagnostic>, Option<i32>)>,
    pub last_status: Option<String>,
    pub shown: Vec<String>,
    pub messages: u64,
    pub replies: Vec<Reply>,
    pub asked: Vec<Asked>,
    pub handled: u64,
    pub sent: u64,
}
type Rec = Arc<Mutex<Record>>;

fn handle(b: Arc<cairo_m_ls::Backend>, m: Msg, rec: Rec) -> BoxFuture<'static, ()> {
    Box::pin(async move {
        fn val<T: Serialize>(id: u64, r: tower_lsp::jsonrpc::Result<T>) -> Reply {
            match r {
                Ok(v) => Reply { id, value: serde_json::to_value(v).unwrap(), error: None },
                Err(e) => Reply { id, error: Some(format!("{e:?}")), ..Default::default() },
            }
        }
        let td = |u: Url| TextDocumentIdentifier { uri: u };
        match m {
            Msg::Initialize(p) => drop(b.initialize(p).await),
            Msg::Initialized => b.initialized(InitializedParams {}).await,
            Msg::Open(p) => b.did_open(p).await,
            Msg::Change(p) => b.did_change(p).await,
            Msg::Save(p) => b.did_save(p).await,
            Msg::Close(p) => b.did_close(p).await,
            Msg::Ask(id, k, u, pos) => {
                let at = TextDocumentPositionParams { text_document: td(u.clone()), position: pos };
                let w = WorkDoneProgressParams::default;
                let pr = PartialResultParams::default;
                let r = match k {
                    Kind::Hover => val(id, b.hover(HoverParams { text_document_position_params: at, work_done_progress_params: w() }).await),
                    Kind::Goto => val(id, b.goto_definition(GotoDefinitionParams { text_document_position_params: at, work_done_progress_params: w(), partial_result_params: pr() }).await),
                    Kind::Completion => val(id, b.completion(CompletionParams { text_document_position: at, work_done_progress_params: w(), partial_result_params: pr(), context: None }).await),
                    Kind::Format => val(id, b.formatting(DocumentFormattingParams { text_document: td(u), options: Default::default(), work_done_progress_params: w() }).await),
                    Kind::RangeFormat => val(
                        id,
                        b.range_formatting(DocumentRangeFormattingParams { text_document: td(u), range: Range { start: pos, end: pos }, options: Default::default(), work_done_progress_params: w() }).await,
                    ),
                };
                rec.lock().unwrap().replies.push(r);
            }
        }
        rec.lock().unwrap().handled += 1;
    })
}

/// Runs a session; `judge` is called by the editor once all has been quiet for long enough.
pub fn play(s: &Scn, judge: impl FnOnce(&View, &Record) + Send + 'static) {
    {
        let _f = simk::Frozen::new();
        for (p, t) in &s.disk {
            put(p, t);
        }
    }
    simk::fs_begin(ROOT, false, s.dirseed, &[]);
    simk::fs_alias(&scratch().to_string_lossy());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(s.workers).enable_time().build().expect("runtime");
    let (tx, rx) = futures::channel::mpsc::unbounded::<Msg>();
    let (client_tx, mut client_rx) = tokio::sync::mpsc::channel::<Sent>(1);
    let rec: Rec = Default::default();

    // what the server sends
    let slow = s.slow;
    let rec2 = rec.clone();
    let reader = std::thread::spawn(move || {
        while let Some(m) = client_rx.blocking_recv() {
            if slow > 0 {
                std::thread::sleep(Duration::from_millis(slow));
            }
            let mut r = rec2.lock().unwrap();
            r.messages += 1;
            match m {
                Sent::Diagnostics(u, d, v) => {
                    simk::mix(hash_str(&format!("{u}{d:?}")));
                    r.published.insert(rel(&u), (d, v));
                }
                Sent::Notification(_, v) => r.last_status = v.get("status").and_then(|s| s.as_str()).map(|s| s.to_string()),
                Sent::Show(_, m) => r.shown.push(m),
                Sent::Log(..) => {}
            }
        }
    });
    // what the editor does
    let t = s.clone();
    let rec3 = rec.clone();
    let editor = std::thread::spawn(move || {
        let mut view = View { disk: t.disk.clone(), ..Default::default() };
        let send = |m: Msg| {
            rec3.lock().unwrap().sent += 1;
            let _ = tx.unbounded_send(m);
        };
        let ask = |view: &View, k: Kind, p: &str, n: u64, last: bool| {
            let texts: BTreeMap<String, String> = {
                let _f = simk::Frozen::new();
                let all: BTreeSet<&String> = view.disk.keys().chain(view.docs.keys()).collect();
                all.into_iter().map(|q| (q.clone(), view.text(q).cloned().unwrap_or_default())).collect()
            };
            let at = place(&texts[p], n);
            let id = {
                let mut r = rec3.lock().unwrap();
                let id = r.asked.len() as u64;
                r.asked.push(Asked { id, kind: k, file: p.to_string(), at, texts: Arc::new(texts), last });
                id
            };
            send(Msg::Ask(id, k, url(p), at));
        };
        let opts = t.debounce.map(|d| serde_json::json!({ "debounce_ms": d }));
        send(Msg::Initialize(InitializeParams { process_id: None, root_uri: Url::from_file_path(ROOT).ok(), initialization_options: opts }));
        std::thread::sleep(Duration::from_millis(50));
        send(Msg::Initialized);
        let mut version = 0;
        for (delay, op) in &t.ops {
            if *delay > 0 {
                std::thread::sleep(Duration::from_millis(*delay));
            }
            match op {
                Op::Open(p) => {
                    let Some(text) = view.disk.get(p).cloned() else { continue };
                    if view.docs.get(p).is_some_and(|d| d.open) {
                        continue;
                    }
                    version += 1;
                    view.docs.insert(p.clone(), Doc { text: text.clone(), version, open: true });
                    view.ever.insert(p.clone());
                    send(Msg::Open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: url(p), language_id: "cairo-m".into(), version, text } }));
                }
                Op::Change(p, text) => {
                    let Some(d) = view.docs.get_mut(p).filter(|d| d.open) else { continue };
                    version += 1;
                    let event = |text: String| TextDocumentContentChangeEvent { range: None, range_length: None, text };
                    let mut changes = vec![event(text.clone())];
                    if hash_str(text) % 5 == 0 {
                        // several changes in one message: each is the whole document
                        changes.insert(0, event(d.text.clone()));
                    }
                    d.text = text.clone();
                    d.version = version;
                    send(Msg::Change(DidChangeTextDocumentParams {
                        text_document: VersionedTextDocumentIdentifier { uri: url(p), version },
                        content_changes: changes,
                    }));
                }
                Op::Save(p) | Op::Close(p) => {
                    let Some(d) = view.docs.get_mut(p).filter(|d| d.open) else { continue };
                    view.disk.insert(p.clone(), d.text.clone());
                    {
                        let _f = simk::Frozen::new();
                        put(p, &d.text);
                    }
                    send(Msg::Save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri: url(p) }, text: None }));
                    if matches!(op, Op::Close(_)) {
                        d.open = false;
                        send(Msg::Close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: url(p) } }));
                    }
                }
                Op::Create(p, text) => {
                    view.disk.insert(p.clone(), text.clone());
                    let _f = simk::Frozen::new();
                    put(p, text);
                }
                Op::Manifest(d, text) => {
                    let p = format!("{d}/{MANIFEST}");
                    {
                        let _f = simk::Frozen::new();
                        put(&p, text);
                    }
                    notify::sim::fire(&[PathBuf::from(format!("{ROOT}/{p}"))]);
                }
                Op::Ask(k, p, n) => {
                    if !view.docs.get(p).is_some_and(|d| d.open) {
                        continue;
                    }
                    ask(&view, *k, p, *n, false);
                }
                Op::Wait(ms) => std::thread::sleep(Duration::from_millis(*ms)),
            }
        }
        // quiet: long enough for timers, stalls and a slow editor to catch up
        simk::calm();
        let quiet = || {
            let mut last = (u64::MAX, u64::MAX);
            for _ in 0..200 {
                std::thread::sleep(Duration::from_secs(15));
                let r = rec3.lock().unwrap();
                let now = (r.messages, r.handled);
                if now == last && r.handled == r.sent {
                    break;
                }
                last = now;
            }
        };
        quiet();
        if !t.finals.is_empty() {
            for (k, p, n) in &t.finals {
                if view.docs.get(p).is_some_and(|d| d.open) {
                    ask(&view, *k, p, *n, true);
                }
            }
            quiet();
        }
        judge(&view, &rec3.lock().unwrap());
        drop(tx);
    });
    let rec4 = rec.clone();
    rt.block_on(async move {
        let backend = Arc::new(cairo_m_ls::Backend::new(Client::sim(client_tx)));
        rx.map(|m| handle(backend.clone(), m, rec4.clone())).buffer_unordered(4).for_each(|_| async {}).await;
    });
    let _ = editor.join();
    rt.shutdown_timeout(Duration::from_secs(100));
    let _ = reader.join();
    simk::fs_end();
}

/// What a run of any family ends with.
pub fn finish(s: &Scn, o: &mut RunOut) {
    clean();
    let p = drv::panics();
    if !p.is_empty() {
        o.violation = None;
        o.fail(format!("panic at {}", p[0].location), format!("{} at {}", p[0].message, p[0].location));
    }
    for (k, n) in &s.kinds {
        if k.contains("broken") || k.contains("torn") || k.contains("lost") || k.contains("stray") {
            o.fault(k, *n);
        } else {
            *o.probes.entry(k.clone()).or_insert(0) += n;
        }
    }
    if s.slow > 0 {
        o.fault("slow_editor", 1);
    }
}
