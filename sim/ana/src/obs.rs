//! Observations of the analysis engine: everything a user of the compiler front end can see,
//! rendered as text without engine-internal identities.
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCollection};
use cairo_m_compiler_parser::{SourceFile, Upcast};
use cairo_m_compiler_semantic::db::{
    Crate, SemanticDatabaseImpl, SemanticDb, module_all_diagnostics, module_parse_diagnostics, module_semantic_diagnostics,
    module_semantic_index, project_import_graph, project_parse_diagnostics, project_validate_semantics,
};
use cairo_m_compiler_semantic::definition::DefinitionKind;
use cairo_m_compiler_semantic::semantic_index::DefinitionId;
use cairo_m_compiler_semantic::type_resolution::{definition_semantic_type, expression_semantic_type};
use cairo_m_compiler_semantic::types::TypeId;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

pub type Texts = BTreeMap<String, String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Query {
    /// whole-project diagnostics, as the compiler reports them
    Batch,
    /// whole-project parse diagnostics
    Parse,
    /// all diagnostics of one module, as an editor shows them
    Module(String),
    ModuleParse(String),
    ModuleSemantic(String),
    Imports,
    /// definitions, uses, resolution targets, types
    Index(String),
    Format(String),
}

pub fn path_of(module: &str) -> String {
    format!("/proj/src/{}.cm", module.replace("::", "/"))
}

pub struct Sess {
    pub db: SemanticDatabaseImpl,
    pub files: BTreeMap<String, SourceFile>,
    pub krate: Crate,
}
impl Sess {
    pub fn new(texts: &[(String, String)]) -> Self {
        let db = SemanticDatabaseImpl::default();
        let mut files = BTreeMap::new();
        let mut map = HashMap::new();
        for (m, t) in texts {
            let f = SourceFile::new(&db, t.clone(), path_of(m));
            files.insert(m.clone(), f);
            map.insert(m.clone(), f);
        }
        let krate = Crate::new(&db, map, "main".into(), PathBuf::from("/proj/src/main.cm"), "proj".into());
        Sess { db, files, krate }
    }
    /// A further project in an existing database; its own `db` field is unused.
    pub fn within(db: &SemanticDatabaseImpl, texts: &[(String, String)]) -> Proj {
        let mut files = BTreeMap::new();
        let mut map = HashMap::new();
        for (m, t) in texts {
            let f = SourceFile::new(db, t.clone(), path_of(m));
            files.insert(m.clone(), f);
            map.insert(m.clone(), f);
        }
        let krate = Crate::new(db, map, "main".into(), PathBuf::from("/proj/src/main.cm"), "proj".into());
        Proj { files, krate }
    }
    pub fn texts(&self) -> Texts {
        self.files.iter().map(|(m, f)| (m.clone(), f.text(&self.db).clone())).collect()
    }
    pub fn set_modules(&mut self) {
        use salsa::Setter;
        let map: HashMap<String, SourceFile> = self.files.iter().map(|(k, v)| (k.clone(), *v)).collect();
        self.krate.set_modules(&mut self.db).to(map);
    }
    pub fn set_text(&mut self, m: &str, t: String) {
        use salsa::Setter;
        if let Some(f) = self.files.get(m).copied() {
            f.set_text(&mut self.db).to(t);
        } else {
            let f = SourceFile::new(&self.db, t, path_of(m));
            self.files.insert(m.to_string(), f);
            self.set_modules();
        }
    }
    pub fn remove(&mut self, m: &str) {
        if self.files.remove(m).is_some() {
            self.set_modules();
        }
    }
}

/// A project in a database that others own.
pub struct Proj {
    pub files: BTreeMap<String, SourceFile>,
    pub krate: Crate,
}
impl Proj {
    fn map(&self) -> HashMap<String, SourceFile> {
        self.files.iter().map(|(k, v)| (k.clone(), *v)).collect()
    }
    pub fn texts_in(&self, db: &SemanticDatabaseImpl) -> Texts {
        self.files.iter().map(|(m, f)| (m.clone(), f.text(db).clone())).collect()
    }
    pub fn set_text_in(&mut self, db: &mut SemanticDatabaseImpl, m: &str, t: String) {
        use salsa::Setter;
        if let Some(f) = self.files.get(m).copied() {
            f.set_text(db).to(t);
        } else {
            let f = SourceFile::new(db, t, path_of(m));
            self.files.insert(m.to_string(), f);
            self.krate.set_modules(db).to(self.map());
        }
    }
    pub fn remove_in(&mut self, db: &mut SemanticDatabaseImpl, m: &str) {
        use salsa::Setter;
        if self.files.remove(m).is_some() {
            self.krate.set_modules(db).to(self.map());
        }
    }
    pub fn redescribe(&mut self, db: &SemanticDatabaseImpl) {
        self.krate = Crate::new(db, self.map(), "main".into(), PathBuf::from("/proj/src/main.cm"), "proj".into());
    }
}

pub fn diag_line(d: &Diagnostic) -> String {
    let mut rel: Vec<String> = d.related_spans.iter().map(|(s, m)| format!("{}..{} {m}", s.start, s.end)).collect();
    rel.sort();
    format!("{:?} {:?} {} {}..{} {:?} {:?}", d.code, d.severity, d.file_path, d.span.start, d.span.end, d.message, rel)
}
pub fn diag_lines(c: &DiagnosticCollection) -> Vec<String> {
    c.iter().map(diag_line).collect()
}

fn kind_name(k: &DefinitionKind) -> &'static str {
    match k {
        DefinitionKind::Function(_) => "fn",
        DefinitionKind::Struct(_) => "struct",
        DefinitionKind::Const(_) => "const",
        DefinitionKind::Let(_) => "let",
        DefinitionKind::Parameter(_) => "param",
        DefinitionKind::Use(_) => "use",
        DefinitionKind::LoopVariable(_) => "loopvar",
    }
}

pub fn index_lines(db: &dyn SemanticDb, krate: Crate, m: &str, file: SourceFile) -> Vec<String> {
    let index = match module_semantic_index(db, krate, m.to_string()) {
        Ok(i) => i,
        Err(d) => return vec![format!("error {}", diag_line(&d))],
    };
    let mut v = vec![];
    for (i, d) in index.all_definitions() {
        let id = DefinitionId::new(db, file, i);
        let t = definition_semantic_type(db, krate, id);
        v.push(format!(
            "def {} {} {}..{} {}..{} {} used={}",
            d.name,
            kind_name(&d.kind),
            d.name_span.start,
            d.name_span.end,
            d.full_span.start,
            d.full_span.end,
            TypeId::format_type(db, t),
            index.is_definition_used(i)
        ));
    }
    for (n, u) in index.identifier_usages().iter().enumerate() {
        let local = index.get_use_definition(n).map(|d| format!("{}@{}", d.name, d.name_span.start));
        let far = index
            .resolve_name_with_imports_at_position(db, krate, file, &u.name, u.scope_id, u.span)
            .map(|(_, d, f)| format!("{}:{}@{}", f.file_path(db), d.name, d.name_span.start));
        v.push(format!("use {} {}..{} {:?} {:?}", u.name, u.span.start, u.span.end, local, far));
    }
    for (id, e) in index.all_expressions() {
        let t = expression_semantic_type(db, krate, file, id, None);
        v.push(format!("expr {}..{} {}", e.ast_span.start, e.ast_span.end, TypeId::format_type(db, t)));
    }
    v.sort();
    v
}

/// Evaluate one query.  A panic of the engine is an observation too; a cancellation is passed on.
pub fn query(db: &SemanticDatabaseImpl, krate: Crate, q: &Query) -> Vec<String> {
    let before = drv::panics().len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| query_raw(db, krate, q)));
    match r {
        Ok(v) => v,
        Err(e) => {
            if e.is::<salsa::Cancelled>() {
                std::panic::resume_unwind(e);
            }
            let p = drv::panics();
            let what = p
                .get(before..)
                .and_then(|s| s.last())
                .map(|p| format!("{} at {}", p.message.chars().take(300).collect::<String>(), p.location))
                .unwrap_or_else(|| "unknown panic".into());
            vec![format!("PANIC {what}")]
        }
    }
}
fn query_raw(db: &SemanticDatabaseImpl, krate: Crate, q: &Query) -> Vec<String> {
    match q {
        Query::Batch => diag_lines(&project_validate_semantics(db, krate)),
        Query::Parse => diag_lines(&project_parse_diagnostics(db, krate)),
        Query::Module(m) => diag_lines(&module_all_diagnostics(db, krate, m.clone())),
        Query::ModuleParse(m) => diag_lines(&module_parse_diagnostics(db, krate, m.clone())),
        Query::ModuleSemantic(m) => diag_lines(&module_semantic_diagnostics(db, krate, m.clone())),
        Query::Imports => {
            let g = project_import_graph(db, krate);
            let mut v: Vec<String> = g.iter().map(|(k, v)| format!("{k} -> {v:?}")).collect();
            v.sort();
            v
        }
        Query::Index(m) => match krate.modules(db).get(m).copied() {
            Some(f) => index_lines(db, krate, m, f),
            None => vec!["absent".into()],
        },
        Query::Format(m) => match krate.modules(db).get(m).copied() {
            Some(f) => {
                let t = cairo_m_formatter::format_source_file(db.upcast(), f, &cairo_m_formatter::FormatterConfig::default());
                t.lines().map(|s| s.to_string()).collect()
            }
            None => vec!["absent".into()],
        },
    }
}

// ---------------------------------------------------------------- reference answers

#[derive(Serialize, Deserialize)]
pub struct Ask {
    /// in the order in which the fresh engine is told about them
    pub texts: Vec<(String, String)>,
    pub entropy: u64,
    pub queries: Vec<Query>,
}
/// Answer from a fresh engine: sequential, from scratch, each query on the same fresh database.
pub fn answer(req: &[u8]) -> Vec<u8> {
    let a: Ask = serde_json::from_slice(req).expect("ask");
    let sched = drv::Sched::sequential(a.entropy);
    let (cfg, devs) = sched.cfg(u64::MAX);
    drv::install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            simk::begin(&cfg, &devs);
            let s = Sess::new(&a.texts);
            let r: Vec<Vec<String>> = a.queries.iter().map(|q| query(&s.db, s.krate, q)).collect();
            simk::end();
            r
        })
        .expect("thread");
    serde_json::to_vec(&h.join().expect("oracle")).unwrap()
}
pub fn ask(o: &drv::oracle::Oracle, a: &Ask) -> Option<Vec<Vec<String>>> {
    let _f = simk::Frozen::new();
    let b = o.ask(&serde_json::to_vec(a).unwrap())?;
    serde_json::from_slice(&b).ok()
}

/// Short textual difference of two observations.
pub fn diff(a: &[String], b: &[String]) -> String {
    let mut s = String::new();
    let only_a: Vec<&String> = a.iter().filter(|x| !b.contains(x)).take(6).collect();
    let only_b: Vec<&String> = b.iter().filter(|x| !a.contains(x)).take(6).collect();
    for x in &only_a {
        s += &format!("\n  only observed: {x}");
    }
    for x in &only_b {
        s += &format!("\n  only expected: {x}");
    }
    if only_a.is_empty() && only_b.is_empty() {
        let count = |v: &[String]| {
            let mut m = BTreeMap::new();
            for x in v {
                *m.entry(x.clone()).or_insert(0usize) += 1;
            }
            m
        };
        let (ca, cb) = (count(a), count(b));
        if ca == cb {
            s += "\n  same entries in a different order";
        } else {
            for (k, n) in &ca {
                if cb.get(k) != Some(n) {
                    s += &format!("\n  {n} times instead of {}: {k}", cb.get(k).copied().unwrap_or(0));
                }
            }
        }
    }
    s
}

/// (code, start, end) of a rendered diagnostic
pub fn parse_diag(line: &str) -> (u32, usize, usize, String) {
    // "{:?} {:?} {file} {start}..{end} {message:?} {related:?}"
    let mut it = line.splitn(5, ' ');
    let code = it.next().unwrap_or("");
    let _sev = it.next();
    let file = it.next().unwrap_or("").to_string();
    let span = it.next().unwrap_or("");
    let (a, b) = span.split_once("..").unwrap_or(("0", "0"));
    (code_number(code), a.parse().unwrap_or(0), b.parse().unwrap_or(0), file)
}
pub fn code_number(name: &str) -> u32 {
    const NAMES: &[(&str, u32)] = &[
        ("LexicalError", 1), ("SyntaxError", 2), ("UnexpectedToken", 3), ("UnexpectedEndOfFile", 4), ("InvalidCharacter", 5),
        ("UndeclaredVariable", 1001), ("UnusedVariable", 1002), ("DuplicateDefinition", 1003), ("UseBeforeDefinition", 1004),
        ("UnresolvedImport", 1005), ("DuplicateParameter", 1006), ("DuplicateStructField", 1007), ("DuplicatePatternIdentifier", 1008),
        ("UndeclaredType", 1009), ("UnresolvedModule", 1010), ("TypeMismatch", 2001), ("InvalidFieldAccess", 2002),
        ("InvalidIndexAccess", 2003), ("InvalidStructLiteral", 2004), ("InvalidFunctionCall", 2005), ("InvalidAssignment", 2006),
        ("InvalidReturnType", 2007), ("InvalidTypeDefinition", 2008), ("InvalidIndexType", 2009), ("UnreachableCode", 3001),
        ("MissingReturn", 3002), ("BreakOutsideLoop", 3003), ("ContinueOutsideLoop", 3004), ("InvalidAssignmentTarget", 2010),
        ("MissingReturnValue", 2011), ("TupleIndexOutOfBounds", 2012), ("InvalidTupleIndexAccess", 2013), ("AssignmentToConst", 2014),
        ("IndexOutOfBounds", 2015), ("TypeInferenceError", 2016), ("ConstArrayByPointer", 2017), ("InternalError", 9001),
    ];
    NAMES.iter().find(|n| n.0 == name).map(|n| n.1).unwrap_or(9998)
}
