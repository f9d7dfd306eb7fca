//! Workspace discovery: every project once, the same for every listing order, no project harmed by another's
//! broken manifest.
use super::discover::grow;
use crate::r#gen;
use crate::world::*;
use cairo_m_project::{Workspace, discover_workspace};
use drv::{Family, Rng, RunOut, Sched, out, simulate};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

#[derive(Clone, Serialize, Deserialize)]
pub struct Scn {
    pub sched: Sched,
    pub tree: Tree,
    pub trouble: Trouble,
    pub other_order: u64,
}
type Seen = (BTreeMap<usize, (String, String, String, PathBuf)>, BTreeMap<String, usize>);
fn seen(w: &Workspace) -> Seen {
    (
        w.projects.iter().map(|(i, p)| (i.0, (p.name.clone(), p.config.version.clone(), p.config.entry_point.clone(), p.root_directory.clone()))).collect(),
        w.name_to_id.iter().map(|(n, i)| (n.clone(), i.0)).collect(),
    )
}
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P11"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let mut tree = Tree::new();
        for k in 0..r.range(1, 5) {
            let d = r.range(0, 3);
            let top = format!("m{k}");
            tree.insert(top.clone(), Node::Dir);
            let broken = r.chance(1, 2);
            grow(&mut r, &mut tree, &top, d, broken);
            if r.chance(1, 2) {
                let n = r.pick(&["one", "two", "a"]).to_string();
                let m = r#gen::good_manifest(&mut r, &n);
                tree.entry(format!("{top}/cairom.toml")).or_insert(Node::File(Content::Exact(m)));
            }
        }
        let ops = (tree.len() * 8 + 10) as u64;
        let trouble = trouble(&mut r, ops);
        Scn { sched: Sched::random(&mut r), tree, trouble, other_order: r.next() | 1 }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        build(&scn.tree);
        let s = scn.clone();
        let mut o = simulate(&scn.sched, 400_000_000, move || {
            // what the tree holds
            let mut want: BTreeMap<PathBuf, (String, (String, String, String))> = BTreeMap::new();
            for (p, n) in &s.tree {
                if (p == "cairom.toml" || p.ends_with("/cairom.toml")) && !p.split('/').any(|c| c.starts_with('.')) {
                    if let Node::File(Content::Exact(x)) = n {
                        if let Some((name, version, entry)) = r#gen::says(x) {
                            let base = root().join(os(p)).parent().unwrap().join("src").join(entry.strip_prefix("src/").unwrap_or(&entry));
                            want.insert(base, (p.clone(), (name, version, entry)));
                        }
                    }
                }
            }
            let calm = Trouble { dirseed: s.other_order, nodtype: !s.trouble.nodtype, ..Default::default() };
            let mut results: Vec<Seen> = vec![];
            for (k, t) in [&s.trouble, &calm].into_iter().enumerate() {
                let (res, _) = disturbed(t, false, || std::panic::catch_unwind(|| discover_workspace(&root()).map(|w| (seen(&w), w.root_directory)).map_err(|e| format!("{e:#}"))));
                let hit = errors_hit();
                out(|o| {
                    note_faults(o, t);
                    o.comparisons += 1;
                    for l in simk::fs_log().lines() {
                        simk::mix(l.bytes().fold(k as u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
                    }
                });
                let note = format!("errors injected: {hit:?}");
                let (got, names) = match res {
                    Err(_) => {
                        let q = drv::panics();
                        return out(|o| o.fail("discovery-panics", q.last().map(|q| format!("{} at {} {note}", q.message, q.location)).unwrap_or_default()));
                    }
                    Ok(Err(e)) => {
                        if hit.is_empty() {
                            return out(|o| o.fail("discovery-refused", format!("{e} {note}")));
                        }
                        out(|o| {
                            o.probe("error_reported");
                            o.nontrivial = true;
                        });
                        continue;
                    }
                    Ok(Ok((x, _))) => x,
                };
                let mut roots = BTreeSet::new();
                for (name, version, entry, rootdir) in got.values() {
                    match want.get(rootdir) {
                        Some((_, w)) if *w == (name.clone(), version.clone(), entry.clone()) => {}
                        w => return out(|o| o.fail("wrong-project", format!("{:?} instead of {w:?} {note}", (name, version, entry, rootdir)))),
                    }
                    if !roots.insert(rootdir.clone()) {
                        return out(|o| o.fail("project-twice", format!("{rootdir:?} {note}")));
                    }
                }
                for (w, (path, _)) in &want {
                    // a manifest that could not be read is skipped
                    let unread = hit.iter().any(|h| h.1.trim_start_matches('/') == path.replace('\u{F8FF}', "\u{FFFD}"));
                    if !roots.contains(w) && !unread {
                        return out(|o| o.fail("missing-project", format!("{path:?} {note}")));
                    }
                }
                for (name, id) in &names {
                    if got.get(id).map(|p| &p.0) != Some(name) {
                        return out(|o| o.fail("wrong-name", format!("{name:?} leads to {:?} {note}", got.get(id))));
                    }
                }
                if let Some(p) = got.values().find(|p| !names.contains_key(&p.0)) {
                    return out(|o| o.fail("lost-name", format!("{p:?} {note}")));
                }
                out(|o| {
                    if got.len() > 1 {
                        o.probe("several_projects");
                        o.nontrivial = true;
                    }
                    if names.len() < got.len() {
                        o.probe("equal_names");
                    }
                });
                if hit.is_empty() {
                    results.push((got, names));
                }
            }
            if results.len() == 2 && results[0] != results[1] {
                out(|o| o.fail("order-dependent", format!("{:?}\n  under another listing order: {:?}", results[0], results[1])));
            }
        });
        o.summary = format!("{} entries, {} injected faults", scn.tree.len(), scn.trouble.faults.len());
        clean();
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v: Vec<Scn> = shrink_trouble(&s.trouble).into_iter().map(|t| Scn { trouble: t, ..s.clone() }).collect();
        for k in s.tree.keys() {
            let mut u = s.clone();
            u.tree.retain(|p, _| p != k && !p.starts_with(&format!("{k}/")));
            v.push(u);
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (100_000, 20_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when several projects were found and compared with the tree under two listing orders, or an injected error was reported; distinct by hash of the system-call trace".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (vec!["cairo-m-project", "ignore, toml, std::fs", "the kernel's tmpfs"], vec!["failures, short reads, directory order and entry types of system calls: simulated"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["several_projects", "equal_names", "error_reported"]
    }
}
