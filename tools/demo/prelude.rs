use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::*;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
struct Sess { db: SemanticDatabaseImpl, files: BTreeMap<String, SourceFile>, krate: Crate }
impl Sess {
    fn new(ms: &[(&str, &str)]) -> Sess {
        let db = SemanticDatabaseImpl::default();
        let files: BTreeMap<String, SourceFile> =
            ms.iter().map(|(n, t)| (n.to_string(), SourceFile::new(&db, t.to_string(), format!("/proj/src/{n}.cm")))).collect();
        let map: HashMap<String, SourceFile> = files.iter().map(|(a, b)| (a.clone(), *b)).collect();
        let krate = Crate::new(&db, map, "main".into(), PathBuf::from("/proj/src/main.cm"), "proj".into());
        Sess { db, files, krate }
    }
    fn set(&mut self, n: &str, t: &str) {
        use salsa::Setter;
        let f = self.files[n];
        f.set_text(&mut self.db).to(t.to_string());
    }
    fn batch(&self) -> Vec<String> { show(&project_validate_semantics(&self.db, self.krate)) }
    fn module(&self, m: &str) -> Vec<String> { show(&module_all_diagnostics(&self.db, self.krate, m.to_string())) }
}
fn show(c: &cairo_m_compiler_diagnostics::DiagnosticCollection) -> Vec<String> {
    c.iter().map(|d| format!("{:?} {} {}..{} {}", d.code, d.file_path, d.span.start, d.span.end, d.message)).collect()
}
