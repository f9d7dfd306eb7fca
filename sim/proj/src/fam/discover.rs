//! Every path inside a project leads to that project; a file outside of any is a project of its own.
use crate::r#gen;
use crate::world::*;
use cairo_m_compiler_semantic::db::{SemanticDatabaseImpl, crate_from_project};
use cairo_m_project::{discover_project, find_project_manifest};
use drv::{Family, Rng, RunOut, Sched, out, simulate};
use serde::{Deserialize, Serialize};
use std::path::{Component, Path, PathBuf};

#[derive(Clone, Serialize, Deserialize)]
pub struct Scn {
    pub sched: Sched,
    pub tree: Tree,
    /// the path discovery starts from, relative to the root of the run
    pub start: String,
    /// spelled relative to this directory, which is then the current one
    pub cwd: Option<String>,
    /// spell it with detours: `./`, `x/..`, a trailing slash
    pub spelling: u8,
    pub trouble: Trouble,
}
fn normal(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o
}
fn is_dir(t: &Tree, p: &str) -> bool {
    p.is_empty() || matches!(t.get(p), Some(Node::Dir)) || t.keys().any(|k| k.starts_with(&format!("{p}/")))
}
fn is_file(t: &Tree, p: &str) -> bool {
    matches!(t.get(p), Some(Node::File(_)))
}
fn parent(p: &str) -> Option<String> {
    if p.is_empty() { None } else { Some(p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default()) }
}
fn relative(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let v: Vec<&str> = std::iter::repeat_n("..", a.len() - k).chain(b[k..].iter().copied()).collect();
    if v.is_empty() { ".".into() } else { v.join("/") }
}
fn dirs_of(t: &Tree) -> Vec<String> {
    let mut v = vec![String::new()];
    for k in t.keys() {
        let mut p = if is_dir(t, k) { Some(k.clone()) } else { parent(k) };
        while let Some(d) = p {
            if !v.contains(&d) {
                v.push(d.clone());
            }
            p = parent(&d);
        }
    }
    v
}
pub fn grow(r: &mut Rng, t: &mut Tree, dir: &str, depth: usize, broken: bool) {
    let sub = |d: &str, n: &str| if d.is_empty() { n.to_string() } else { format!("{d}/{n}") };
    if r.chance(1, 3) {
        let n = r#gen::name(r);
        let m = if broken { r#gen::manifest(r, &n).0 } else { r#gen::good_manifest(r, &n) };
        t.insert(sub(dir, "cairom.toml"), Node::File(Content::Exact(m)));
    } else if broken && r.chance(1, 15) {
        t.insert(sub(dir, "cairom.toml"), r.pick(&[Node::Dir, Node::File(Content::Binary), Node::File(Content::Exact(String::new()))]).clone());
    }
    for _ in 0..r.below(3) {
        let f = sub(dir, &format!("{}.cm", r#gen::name(r)));
        let c = Content::Text(r.below(1000) as u32, r.range(1, 300) as u32);
        t.entry(f).or_insert(Node::File(c));
    }
    if depth > 0 && r.chance(1, 12) {
        let d = r#gen::chain(r, t, dir);
        if d != dir {
            grow(r, t, &d, 0, broken);
        }
    }
    if depth > 0 {
        for _ in 0..r.below(4) {
            let d = sub(dir, &r#gen::name(r));
            if t.get(&d).is_none() {
                t.insert(d.clone(), Node::Dir);
                grow(r, t, &d, depth - 1, broken);
            }
        }
    }
}
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P10"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let mut tree = Tree::new();
        let d = r.range(1, 5);
        grow(&mut r, &mut tree, "", d, true);
        let dirs = dirs_of(&tree);
        let all: Vec<String> = tree.keys().cloned().collect();
        let start = match r.below(6) {
            0 => r.pick(&dirs).clone(),
            1 => {
                let d = r.pick(&dirs).clone();
                let n = format!("{}new.cm", if r.chance(1, 3) { "none/" } else { "" });
                if d.is_empty() { n } else { format!("{d}/{n}") }
            }
            _ if !all.is_empty() => r.pick(&all).clone(),
            _ => String::new(),
        };
        let cwd = if r.chance(1, 2) { Some(r.pick(&dirs).clone()) } else { None };
        let ops = 8 * (start.matches('/').count() as u64 + 2) + 6;
        let trouble = trouble(&mut r, ops);
        Scn { sched: Sched::random(&mut r), tree, start, cwd, spelling: r.below(5) as u8, trouble }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        build(&scn.tree);
        let s = scn.clone();
        let mut o = simulate(&scn.sched, 400_000_000, move || {
            let t = &s.tree;
            let exists = is_dir(t, &s.start) || t.contains_key(&s.start);
            let mut spelled = match &s.cwd {
                Some(c) => PathBuf::from(os(&relative(c, &s.start))),
                None => root().join(os(&s.start)),
            };
            match s.spelling {
                0 if s.cwd.is_some() => spelled = Path::new(".").join(spelled),
                1 if is_dir(t, &s.start) => spelled.push(""),
                2 if is_dir(t, &s.start) => {
                    if let Some(sub) = t.keys().find(|k| is_dir(t, k) && parent(k).as_deref() == Some(&s.start)) {
                        spelled = spelled.join(os(sub.rsplit('/').next().unwrap())).join("..");
                    }
                }
                _ => {}
            }
            // a path that does not exist and climbs has no meaning of its own
            if !exists && spelled.components().any(|c| c == Component::ParentDir) {
                spelled = root().join(os(&s.start));
            }
            let cwd = root().join(os(s.cwd.as_deref().unwrap_or("")));
            std::env::set_current_dir(&cwd).expect("cwd");
            let (res, _) = disturbed(&s.trouble, true, || {
                std::panic::catch_unwind(|| {
                    let m = find_project_manifest(&spelled).map_err(|e| format!("{e:#}"));
                    let p = discover_project(&spelled).map_err(|e| format!("{e:#}"));
                    (m, p)
                })
            });
            let hit = errors_hit();
            out(|o| {
                note_faults(o, &s.trouble);
                o.comparisons += 1;
            });
            let (found, res) = match res {
                Ok(r) => r,
                Err(_) => {
                    let p = drv::panics();
                    return out(|o| o.fail("discovery-panics", p.last().map(|p| format!("{spelled:?}: {} at {}", p.message, p.location)).unwrap_or_default()));
                }
            };
            // the model
            let mut at = if is_file(t, &s.start) { parent(&s.start) } else { Some(s.start.clone()) };
            let mut home = None;
            while let Some(d) = at {
                if t.contains_key(&if d.is_empty() { "cairom.toml".to_string() } else { format!("{d}/cairom.toml") }) {
                    home = Some(d);
                    break;
                }
                at = parent(&d);
            }
            let manifest = home.as_ref().map(|d| if d.is_empty() { "cairom.toml".to_string() } else { format!("{d}/cairom.toml") });
            let place = |p: &Path| normal(&cwd.join(p));
            let note = format!("from {spelled:?} in {:?}, errors injected: {hit:?}", s.cwd);
            match &found {
                Ok(f) => {
                    let want = manifest.as_ref().map(|m| root().join(os(m)));
                    if f.as_ref().map(|f| place(f)) != want {
                        return out(|o| o.fail("wrong-manifest", format!("found {f:?} instead of {manifest:?} {note}")));
                    }
                }
                Err(e) if hit.is_empty() => return out(|o| o.fail("discovery-refused", format!("{e} {note}"))),
                Err(_) => {}
            }
            let says = manifest.as_ref().map(|m| match &t[m] {
                Node::File(Content::Exact(x)) => r#gen::says(x),
                _ => None,
            });
            match (&res, &says) {
                (Err(e), Some(Some(_)) | None) if hit.is_empty() && exists => out(|o| o.fail("discovery-refused", format!("{e} {note}"))),
                (Err(_), _) => out(|o| {
                    if !hit.is_empty() {
                        o.probe("error_reported");
                        o.nontrivial = true;
                    }
                    if matches!(says, Some(None)) {
                        o.probe("broken_manifest_reported");
                        o.nontrivial = true;
                    }
                }),
                (Ok(got), Some(None)) => out(|o| o.fail("broken-manifest-accepted", format!("{manifest:?} is broken, but gave {got:?} {note}"))),
                (Ok(None), _) => out(|o| o.fail("no-project", format!("no project {note}"))),
                (Ok(Some(p)), Some(Some((name, version, entry)))) => {
                    let base = root().join(os(home.as_ref().unwrap())).join("src").join(entry.strip_prefix("src/").unwrap_or(entry));
                    if p.name != *name || p.config.name != *name || p.config.version != *version || p.config.entry_point != *entry || place(&p.root_directory) != base {
                        return out(|o| o.fail("wrong-project", format!("{p:?} instead of name {name:?} version {version:?} entry {entry:?} root {base:?} {note}")));
                    }
                    if place(&p.source_directory()) != base.parent().unwrap() {
                        return out(|o| o.fail("wrong-project", format!("source directory {:?} {note}", p.source_directory())));
                    }
                    out(|o| {
                        o.nontrivial = true;
                        o.probe("found");
                        if s.cwd.is_some() {
                            o.probe("relative_start");
                        }
                        if home.as_deref() != parent(&s.start).as_deref() && home.as_deref() != Some(&s.start) {
                            o.probe("found_further_up");
                        }
                    });
                }
                (Ok(Some(p)), None) => {
                    // no manifest anywhere: a file is a project of its own (unless it lies in a directory
                    // called `src`, whose other files belong to it)
                    let in_src = parent(&s.start).map(|d| d == "src" || d.ends_with("/src")).unwrap_or(false);
                    let p2 = p.clone();
                    let r = std::panic::catch_unwind(|| {
                        let db = SemanticDatabaseImpl::default();
                        crate_from_project(&db, p2)
                            .map(|k| {
                                let mut v: Vec<(String, String)> = k.modules(&db).iter().map(|(n, f)| (n.clone(), f.text(&db).clone())).collect();
                                v.sort();
                                v
                            })
                            .map_err(|d| d.all().first().map(|d| d.message.clone()).unwrap_or_default())
                    });
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => {
                            let q = drv::panics();
                            return out(|o| o.fail("load-panics", q.last().map(|q| format!("{p:?}: {} at {} {note}", q.message, q.location)).unwrap_or_default()));
                        }
                    };
                    if in_src {
                        return;
                    }
                    let file = match t.get(&s.start) {
                        Some(Node::File(c)) => Some(c.bytes()),
                        _ => None,
                    };
                    let base = s.start.rsplit('/').next().unwrap().to_string();
                    let stem = base.strip_suffix(".cm").unwrap_or(&base).to_string();
                    match (r, file) {
                        (Ok(m), None) => out(|o| o.fail("project-out-of-nothing", format!("modules {m:?} {note}"))),
                        (Ok(m), Some(b)) => {
                            if m.len() != 1 || m[0].0 != stem || m[0].1.as_bytes() != b {
                                return out(|o| o.fail("wrong-standalone", format!("modules {:?} instead of {stem:?} {note}", m.iter().map(|m| &m.0).collect::<Vec<_>>())));
                            }
                            out(|o| {
                                o.nontrivial = true;
                                o.probe("standalone");
                            });
                        }
                        (Err(e), Some(_)) if hit.is_empty() && !s.start.contains('\u{F8FF}') => out(|o| o.fail("standalone-refused", format!("{e} {note}"))),
                        (Err(_), _) => {}
                    }
                }
            }
        });
        for l in simk::fs_log().lines() {
            o.trace_hash = l.bytes().fold(o.trace_hash, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        }
        o.summary = format!("from {:?} of {} entries, {} injected faults", scn.start, scn.tree.len(), scn.trouble.faults.len());
        let _ = std::env::set_current_dir("/");
        clean();
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v: Vec<Scn> = shrink_trouble(&s.trouble).into_iter().map(|t| Scn { trouble: t, ..s.clone() }).collect();
        for k in s.tree.keys() {
            let keep = |p: &str| p == k || p.starts_with(&format!("{k}/"));
            if keep(&s.start) || s.cwd.as_deref().is_some_and(keep) {
                continue;
            }
            let mut u = s.clone();
            u.tree.retain(|p, _| p != k && !p.starts_with(&format!("{k}/")));
            let d = dirs_of(&u.tree);
            if u.cwd.as_ref().is_none_or(|c| d.contains(c)) {
                v.push(u);
            }
        }
        if s.cwd.is_some() {
            v.push(Scn { cwd: None, ..s.clone() });
            v.push(Scn { cwd: Some(String::new()), ..s.clone() });
        }
        if s.spelling != 4 {
            v.push(Scn { spelling: 4, ..s.clone() });
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (60_000, 20_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a project or a stand-alone file was found and compared with the model, or a broken manifest or an injected error was reported; distinct by hash of the system-call trace".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (vec!["cairo-m-project", "cairo-m-compiler-semantic (crate construction)", "toml, std::fs", "the kernel's tmpfs"], vec!["failures and short reads of system calls: simulated"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["found", "relative_start", "found_further_up", "standalone", "error_reported", "broken_manifest_reported"]
    }
}
