//! Loading a project gives exactly its modules, or an error.
use crate::r#gen;
use crate::world::*;
use cairo_m_compiler_semantic::db::{SemanticDatabaseImpl, crate_from_project};
use cairo_m_project::discover_project;
use drv::{Family, Rng, RunOut, Sched, out, simulate};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;

#[derive(Clone, Serialize, Deserialize)]
pub struct Scn {
    pub sched: Sched,
    pub tree: Tree,
    /// directory of the project
    pub dir: String,
    pub trouble: Trouble,
}
type State = BTreeMap<String, Option<Vec<u8>>>;
/// The modules a state of the tree holds: module name -> (path, content); Err: it cannot be loaded.
/// `None` for the content: a text that is not UTF-8 or a link that leads nowhere.
fn modules(s: &State, src: &str) -> Vec<(String, String, Option<Vec<u8>>)> {
    let mut v = vec![];
    for (p, c) in s {
        let Some(rel) = p.strip_prefix(&format!("{src}/")) else { continue };
        if rel.split('/').any(|c| c.starts_with('.')) {
            continue;
        }
        let mut comps: Vec<String> = rel.split('/').map(str::to_string).collect();
        let last = comps.pop().unwrap();
        let Some(stem) = last.strip_suffix(".cm") else { continue };
        if stem.is_empty() {
            continue;
        }
        let is_dir = c.is_none() && root().join(os(p)).is_dir() && !root().join(os(p)).is_symlink();
        if is_dir {
            continue;
        }
        let content = c.clone().filter(|b| std::str::from_utf8(b).is_ok() && !stem.contains('\u{F8FF}'));
        let mut name: Vec<String> = comps.iter().map(|c| c.replace('\u{F8FF}', "\u{FFFD}")).collect();
        name.push(stem.to_string());
        v.push((name.join("::"), p.clone(), content));
    }
    v
}
fn loadable(s: &State, src: &str) -> bool {
    let m = modules(s, src);
    let names: BTreeSet<&String> = m.iter().map(|x| &x.0).collect();
    !m.is_empty() && names.len() == m.len() && m.iter().all(|x| x.2.is_some())
}
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P09"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let dir = r.pick(&["p", "ws/p", "src", "a b/ünï"]).to_string();
        loop {
            let mut tree = Tree::new();
            let depth = r.below(4);
            r#gen::sources(&mut r, &mut tree, &format!("{dir}/src"), depth);
            if r.chance(9, 10) {
                let c = r#gen::content(&mut r);
                tree.retain(|p, _| !p.starts_with(&format!("{dir}/src/main.cm/")));
                tree.insert(format!("{dir}/src/main.cm"), Node::File(c));
            }
            // most trees load when nothing goes wrong
            if tree.values().any(|n| *n == Node::File(Content::Binary) || matches!(n, Node::Link(_))) && r.chance(2, 3) {
                tree.retain(|_, n| *n != Node::File(Content::Binary) && !matches!(n, Node::Link(_)));
            }
            if tree.is_empty() {
                continue;
            }
            let name = r#gen::name(&mut r);
            let m = r#gen::good_manifest(&mut r, &name);
            tree.insert(format!("{dir}/cairom.toml"), Node::File(Content::Exact(m)));
            tree.insert(format!("{dir}/tests/other.cm"), Node::File(Content::Text(7, 10)));
            tree.insert(format!("{dir}/outside.cm"), Node::File(Content::Text(8, 10)));
            let ops = (tree.len() * 8 + 10) as u64;
            let mut t = trouble(&mut r, ops);
            if r.chance(1, 3) {
                let files: Vec<String> = tree.iter().filter(|(p, n)| matches!(n, Node::File(_)) && p.starts_with(&format!("{dir}/src/"))).map(|x| x.0.clone()).collect();
                let dirs: Vec<String> = tree.iter().filter(|(p, n)| **n == Node::Dir && p.starts_with(&format!("{dir}/src/"))).map(|x| x.0.clone()).chain([format!("{dir}/src")]).collect();
                for _ in 0..r.range(1, 4) {
                    let fresh = format!("{}/{}{}.cm", r.pick(&dirs), r#gen::name(&mut r), r.below(3));
                    let m = match r.below(6) {
                        0 | 1 if !files.is_empty() => Mut::Save(r.pick(&files).clone(), Content::Text(1000 + r.below(1000) as u32, r.range(1, 9000) as u32)),
                        2 if !files.is_empty() => Mut::Delete(r.pick(&files).clone()),
                        3 if !files.is_empty() => Mut::Rename(r.pick(&files).clone(), fresh),
                        4 => Mut::MkDir(format!("{}/new{}", r.pick(&dirs), r.below(3))),
                        _ => Mut::Save(fresh, Content::Text(2000 + r.below(1000) as u32, r.range(1, 300) as u32)),
                    };
                    t.muts.push((r.below(ops as usize) as u64, m));
                }
            }
            return Scn { sched: Sched::random(&mut r), tree, dir: dir.clone(), trouble: t };
        }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        build(&scn.tree);
        let s = scn.clone();
        let mut o = simulate(&scn.sched, 400_000_000, move || {
            let src = format!("{}/src", s.dir);
            let start = root().join(os(&s.dir));
            let (res, states) = disturbed(&s.trouble, false, || {
                std::panic::catch_unwind(|| {
                    let p = match discover_project(&start) {
                        Ok(Some(p)) => p,
                        Ok(None) => return Err("no project".to_string()),
                        Err(e) => return Err(format!("{e:#}")),
                    };
                    let db = SemanticDatabaseImpl::default();
                    let member = p.clone();
                    let k = crate_from_project(&db, p).map_err(|d| format!("{} diagnostics: {}", d.all().len(), d.all().first().map(|d| d.message.clone()).unwrap_or_default()))?;
                    let mut m: Vec<(String, String, String, bool)> = k
                        .modules(&db)
                        .iter()
                        .map(|(n, f)| (n.clone(), f.file_path(&db).clone(), f.text(&db).clone(), member.contains_path(&PathBuf::from(f.file_path(&db)))))
                        .collect();
                    m.sort();
                    Ok((k.name(&db).clone(), k.entry_point(&db), m))
                })
            });
            let hit = errors_hit();
            let changed = states.len() > 1;
            let describe = || format!("{:?}", if hit.is_empty() { "no error injected".to_string() } else { format!("errors injected: {hit:?}") });
            out(|o| note_faults(o, &s.trouble));
            let res = match res {
                Ok(r) => r,
                Err(_) => {
                    let p = drv::panics();
                    return out(|o| o.fail("load-panics", p.last().map(|p| format!("{} at {}", p.message, p.location)).unwrap_or_default()));
                }
            };
            let all: Vec<BTreeMap<String, (String, Option<Vec<u8>>)>> = states.iter().map(|st| modules(st, &src).into_iter().map(|(n, p, c)| (p, (n, c))).collect()).collect();
            let fine = states.iter().all(|st| loadable(st, &src));
            simk::mix(s.trouble.faults.len() as u64);
            match res {
                Err(e) => {
                    let racing = s.trouble.muts.iter().any(|m| matches!(m.1, Mut::Delete(_) | Mut::Rename(..)));
                    if fine && hit.is_empty() && !(changed && racing) {
                        out(|o| o.fail("load-refused", format!("a project that is in order was refused: {e}")));
                    }
                    out(|o| {
                        o.comparisons += 1;
                        if !hit.is_empty() {
                            o.probe("error_reported");
                            o.nontrivial = true;
                        }
                    });
                }
                Ok((name, entry, got)) => {
                    let want_name = match &s.tree.get(&format!("{}/cairom.toml", s.dir)) {
                        Some(Node::File(Content::Exact(t))) => r#gen::says(t),
                        _ => None,
                    };
                    if let Some((n, _, e)) = want_name {
                        let e = e.strip_prefix("src/").unwrap_or(&e).strip_suffix(".cm").unwrap().to_string();
                        if n != name || e != entry {
                            return out(|o| o.fail("wrong-project", format!("project {name:?} with entry point {entry:?} instead of {n:?} with {e:?}; {}", describe())));
                        }
                    }
                    for (n, path, text, member) in &got {
                        let p = back(PathBuf::from(path).strip_prefix(root()).unwrap_or(&PathBuf::from(path)));
                        // (a path that is not UTF-8 cannot be told apart from the text alone)
                        let versions: Vec<&(String, Option<Vec<u8>>)> = all.iter().filter_map(|m| m.get(&p).or_else(|| m.iter().find(|(q, _)| q.replace('\u{F8FF}', "\u{FFFD}") == p).map(|x| x.1))).collect();
                        if versions.is_empty() {
                            return out(|o| o.fail("stray-module", format!("module {n:?} from {p:?}, which is no source file of the project; {}", describe())));
                        }
                        if !versions.iter().any(|v| v.0 == *n) {
                            return out(|o| o.fail("misnamed-module", format!("{p:?} is module {n:?} instead of {:?}", versions[0].0)));
                        }
                        if !versions.iter().any(|v| v.1.as_deref() == Some(text.as_bytes())) {
                            let have = &versions[0].1;
                            return out(|o| {
                                o.fail(
                                    "wrong-content",
                                    format!("module {n:?}: {} bytes that are no version of {p:?} ({:?} bytes on disk); {}", text.len(), have.as_ref().map(|h| h.len()), describe()),
                                )
                            });
                        }
                        if !*member {
                            return out(|o| o.fail("not-a-member", format!("the project says {p:?} is not part of it")));
                        }
                        out(|o| o.comparisons += 1);
                    }
                    for (p, (n, _)) in &all[0] {
                        if all.iter().all(|m| m.contains_key(p)) && !got.iter().any(|g| g.0 == *n) {
                            return out(|o| o.fail("missing-module", format!("{p:?} (module {n:?}) was dropped without an error; {}", describe())));
                        }
                    }
                    if !changed && got.len() != all[0].len() {
                        return out(|o| o.fail("missing-module", format!("{} files became {} modules without an error; {}", all[0].len(), got.len(), describe())));
                    }
                    out(|o| {
                        o.nontrivial |= got.len() > 1;
                        o.probe("loaded");
                        if changed {
                            o.probe("tree_changed_during_load");
                        }
                        if got.iter().any(|g| g.0.contains("::")) {
                            o.probe("nested_module");
                        }
                    });
                }
            }
        });
        for l in simk::fs_log().lines() {
            o.trace_hash = l.bytes().fold(o.trace_hash, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        }
        o.summary = format!("{} entries, {} injected faults, {} changes by others", scn.tree.len(), scn.trouble.faults.len(), scn.trouble.muts.len());
        clean();
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        for t in shrink_trouble(&s.trouble) {
            v.push(Scn { trouble: t, ..s.clone() });
        }
        for k in s.tree.keys() {
            let mut u = s.clone();
            u.tree.retain(|p, _| p != k && !p.starts_with(&format!("{k}/")));
            v.push(u);
        }
        for (k, n) in &s.tree {
            if let Node::File(Content::Text(id, len)) = n {
                if *len > 4 {
                    let mut u = s.clone();
                    u.tree.insert(k.clone(), Node::File(Content::Text(*id, len / 2)));
                    v.push(u);
                }
            }
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (100_000, 20_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when at least two modules were loaded and compared with the tree, or an injected error was reported; distinct by hash of the system-call trace".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["cairo-m-project", "cairo-m-compiler-semantic (crate construction)", "ignore, toml, std::fs", "the kernel's tmpfs"],
            vec!["failures, short reads, directory order and entry types of system calls: simulated", "other users of the directory: simulated at system-call boundaries"],
        )
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["loaded", "error_reported", "nested_module", "tree_changed_during_load"]
    }
}
#[allow(unused)]
fn keep(p: &PathBuf) -> &[u8] {
    p.as_os_str().as_bytes()
}
