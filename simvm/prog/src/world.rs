//! The compiler as its users see it: a database that lives through edits, and what compiling in it gives.
use crate::lang::*;
use cairo_m_common::abi_codec::InputValue;
use cairo_m_common::{CairoMValue, Program, ProgramData};
use cairo_m_compiler::db::CompilerDatabase;
use cairo_m_compiler_diagnostics::DiagnosticSeverity;
use cairo_m_compiler_mir::pipeline::{OptimizationLevel, PipelineConfig};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::Crate;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub type Texts = BTreeMap<String, String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Lv {
    None,
    Standard,
    /// the tracked query, which takes the default level
    Query,
}
pub const LEVELS: [Lv; 3] = [Lv::None, Lv::Standard, Lv::Query];

pub struct World {
    pub db: CompilerDatabase,
    pub files: BTreeMap<String, SourceFile>,
    pub krate: Crate,
}
fn path_of(m: &str) -> String {
    format!("/proj/src/{}.cm", m.replace("::", "/"))
}
impl World {
    /// The modules are registered in the order given.
    pub fn new(texts: &[(String, String)]) -> Self {
        Self::named(texts, "proj")
    }
    /// The name of the project has a say in the order in which registers are handed out.
    pub fn named(texts: &[(String, String)], name: &str) -> Self {
        let db = CompilerDatabase::new();
        let mut files = BTreeMap::new();
        let mut map = HashMap::new();
        for (m, t) in texts {
            let f = SourceFile::new(&db, t.clone(), path_of(m));
            files.insert(m.clone(), f);
            map.insert(m.clone(), f);
        }
        let krate = Crate::new(&db, map, "main".into(), "/proj/src/main.cm".into(), name.into());
        World { db, files, krate }
    }
    pub fn texts(&self) -> Texts {
        self.files.iter().map(|(m, f)| (m.clone(), f.text(&self.db).clone())).collect()
    }
    fn set_modules(&mut self) {
        use salsa::Setter;
        let map: HashMap<String, SourceFile> = self.files.iter().map(|(k, v)| (k.clone(), *v)).collect();
        self.krate.set_modules(&mut self.db).to(map);
    }
    pub fn set_text(&mut self, m: &str, t: String) {
        use salsa::Setter;
        if let Some(f) = self.files.get(m).copied() {
            if *f.text(&self.db) != t {
                f.set_text(&mut self.db).to(t);
            }
        } else {
            let f = SourceFile::new(&self.db, t, path_of(m));
            self.files.insert(m.to_string(), f);
            self.set_modules();
        }
    }
    pub fn remove(&mut self, m: &str) {
        if self.files.remove(m).is_some() {
            self.set_modules();
        }
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// errors of the front end
    Refused(Vec<String>),
    /// the back end reports an error
    Failed(String),
    Panicked(String),
    Done(Arc<Program>),
}
impl Outcome {
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Refused(_) => "refused",
            Outcome::Failed(_) => "failed",
            Outcome::Panicked(_) => "panicked",
            Outcome::Done(_) => "compiled",
        }
    }
    /// Everything there is to see of it, but for the time of compilation and the order of the entry point table.
    pub fn lines(&self) -> Vec<String> {
        match self {
            Outcome::Refused(v) => v.iter().map(|l| format!("refused: {l}")).collect(),
            Outcome::Failed(e) => vec![format!("failed: {e}")],
            Outcome::Panicked(e) => vec![format!("panicked: {e}")],
            Outcome::Done(p) => program_lines(p),
        }
    }
}
pub fn program_lines(p: &Program) -> Vec<String> {
    let mut v = vec![format!("version {:?} file {:?}", p.metadata.compiler_version, p.metadata.source_file)];
    let mut e: Vec<_> = p.entrypoints.iter().collect();
    e.sort_by_key(|e| e.0.clone());
    for (n, i) in e {
        v.push(format!("entry {n} {i:?}"));
    }
    for (k, d) in p.data.iter().enumerate() {
        v.push(match d {
            ProgramData::Instruction(i) => format!("{k}: {i:?}"),
            ProgramData::Value(q) => format!("{k}: value {:?}", q.to_m31_array().map(|m| m.0)),
        });
    }
    v
}

/// What a compiler run on the project says.  Cancellation is passed on.
pub fn compile(db: &CompilerDatabase, krate: Crate, lv: Lv) -> Outcome {
    let before = drv::panics().len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let ds = cairo_m_compiler_semantic::db::project_validate_semantics(db, krate);
        let errs: Vec<String> = ds
            .into_iter()
            .filter(|d| d.severity == DiagnosticSeverity::Error)
            .map(|d| format!("{:?} {} {}..{} {}", d.code, d.file_path, d.span.start, d.span.end, d.message))
            .collect();
        if !errs.is_empty() {
            return Outcome::Refused(errs);
        }
        let config = |l| PipelineConfig { optimization_level: l, debug: false };
        let r = match lv {
            Lv::None => cairo_m_compiler_codegen::db::compile_project_with_config(db, krate, config(OptimizationLevel::None)),
            Lv::Standard => cairo_m_compiler_codegen::db::compile_project_with_config(db, krate, config(OptimizationLevel::Standard)),
            Lv::Query => cairo_m_compiler_codegen::db::compile_project(db, krate),
        };
        match r {
            Ok(p) => Outcome::Done(p),
            Err(e) => Outcome::Failed(e.to_string()),
        }
    }));
    match r {
        Ok(o) => o,
        Err(e) => {
            if e.is::<salsa::Cancelled>() {
                std::panic::resume_unwind(e);
            }
            let p = drv::panics();
            Outcome::Panicked(
                p.get(before..)
                    .and_then(|s| s.last())
                    .map(|p| format!("{} at {}", p.message.chars().take(300).collect::<String>(), p.location))
                    .unwrap_or_else(|| "unknown panic".into()),
            )
        }
    }
}

// ---------------------------------------------------------------- reference answers

#[derive(Serialize, Deserialize)]
pub struct Ask {
    pub texts: Vec<(String, String)>,
    pub entropy: u64,
    pub levels: Vec<Lv>,
}
/// A fresh engine in a fresh process, one thread.
pub fn answer(req: &[u8]) -> Vec<u8> {
    let a: Ask = serde_json::from_slice(req).expect("ask");
    let (cfg, devs) = drv::Sched::sequential(a.entropy).cfg(u64::MAX);
    drv::install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            simk::begin(&cfg, &devs);
            let w = World::new(&a.texts);
            let r: Vec<Vec<String>> = a.levels.iter().map(|l| compile(&w.db, w.krate, *l).lines()).collect();
            simk::end();
            r
        })
        .expect("thread");
    serde_json::to_vec(&h.join().expect("oracle")).unwrap()
}
pub fn ask(o: &drv::oracle::Oracle, a: &Ask) -> Option<Vec<Vec<String>>> {
    let _f = simk::Frozen::new();
    let b = o.ask(&serde_json::to_vec(a).unwrap())?;
    serde_json::from_slice(&b).ok()
}
pub fn shuffled(t: &Texts, seed: u64) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = t.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    drv::Rng::new(seed, 77).shuffle(&mut v);
    v
}

// ---------------------------------------------------------------- values

pub fn input(p: &Prog, t: &Ty, d: &D) -> InputValue {
    match (t, d) {
        (_, D::Felt(n)) | (_, D::U32(n)) => InputValue::Number(*n as i64),
        (_, D::Bool(b)) => InputValue::Bool(*b),
        (Ty::Tup(t), D::Agg(v)) => InputValue::List(t.iter().zip(v).map(|(t, v)| input(p, t, v)).collect()),
        (Ty::St(k), D::Agg(v)) => InputValue::Struct(p.structs[*k].fields.iter().zip(v).map(|(f, v)| input(p, &f.1, v)).collect()),
        (Ty::Arr(t, _), D::Arr(v)) => InputValue::List(v.iter().map(|v| input(p, t, v)).collect()),
        _ => InputValue::Unit,
    }
}
pub fn inputs(p: &Prog, args: &[D]) -> Vec<InputValue> {
    p.funs[0].params.iter().zip(args).map(|(q, d)| input(p, &q.1, d)).collect()
}
pub fn output(v: &CairoMValue) -> D {
    match v {
        CairoMValue::Felt(m) => D::Felt(m.0),
        CairoMValue::U32(n) => D::U32(*n),
        CairoMValue::Bool(b) => D::Bool(*b),
        CairoMValue::Pointer(_) => D::Ptr,
        CairoMValue::Tuple(v) => D::Agg(v.iter().map(output).collect()),
        CairoMValue::Struct(v) => D::Agg(v.iter().map(|f| output(&f.1)).collect()),
        CairoMValue::Array(v) => D::Arr(v.iter().map(output).collect()),
        CairoMValue::Unit => D::Unit,
    }
}
pub fn outputs(v: &[CairoMValue]) -> D {
    let g: Vec<D> = v.iter().map(output).collect();
    if g.len() == 1 { g[0].clone() } else { D::Agg(g) }
}
