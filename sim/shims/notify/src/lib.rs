//! Stand-in for `notify` 6.1: events come from the simulator.
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, Default)]
pub struct Event {
    pub paths: Vec<PathBuf>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
type Handler = Box<dyn FnMut(Result<Event>) + Send>;
pub struct RecommendedWatcher {
    handler: Arc<Mutex<Handler>>,
}
pub trait Watcher {
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
}
impl Watcher for RecommendedWatcher {
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()> {
        sim::WATCHES.lock().unwrap().push((path.to_path_buf(), mode, self.handler.clone()));
        Ok(())
    }
}
pub trait EventHandler: Send + 'static {
    fn boxed(self) -> Handler;
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn boxed(self) -> Handler {
        Box::new(self)
    }
}
pub fn recommended_watcher<F: FnMut(Result<Event>) + Send + 'static>(f: F) -> Result<RecommendedWatcher> {
    Ok(RecommendedWatcher { handler: Arc::new(Mutex::new(f.boxed())) })
}
/// For the simulator.
pub mod sim {
    use super::*;
    pub static WATCHES: Mutex<Vec<(PathBuf, RecursiveMode, Arc<Mutex<Handler>>)>> = Mutex::new(vec![]);
    /// Something happened to `paths`; who watches a directory above them is told.
    pub fn fire(paths: &[PathBuf]) {
        let w: Vec<_> = WATCHES.lock().unwrap().iter().map(|(p, m, h)| (p.clone(), *m, h.clone())).collect();
        for (root, mode, h) in w {
            let mine: Vec<PathBuf> = paths
                .iter()
                .filter(|p| if mode == RecursiveMode::Recursive { p.starts_with(&root) } else { p.parent() == Some(&root) })
                .cloned()
                .collect();
            if !mine.is_empty() {
                (h.lock().unwrap())(Ok(Event { paths: mine }));
            }
        }
    }
}
