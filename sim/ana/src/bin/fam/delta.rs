//! The editor's project diagnostics, computed through one long-lived tracker, are those a fresh
//! computation gives: across projects, module removal and database replacement.
use crate::*;
use cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker;
pub struct F;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Edit(usize, Op),
    /// ask the tracker about this project
    Ask(usize),
    /// all projects move to a new database
    Replace(u64),
    /// the project's crate is described anew in the same database
    Redescribe(usize),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct DScn {
    sched: Sched,
    initial: Vec<Vec<(String, String)>>,
    ops: Vec<DOp>,
    kinds: Kinds,
    aux: u64,
}
struct World {
    db: cairo_m_compiler_semantic::SemanticDatabaseImpl,
    projects: Vec<Proj>,
}
impl Family for F {
    type Scn = DScn;
    fn id(&self) -> &'static str {
        "P02"
    }
    fn generate(&self, seed: u64, index: u64) -> DScn {
        let mut r = Rng::new(seed, index);
        let n = *r.pick(&[1, 2, 2, 3]);
        let aux = r.next();
        let sched = Sched::sequential(r.next());
        let mut kinds = Kinds::new();
        let mut initial = vec![];
        let mut streams: Vec<Vec<Op>> = vec![];
        for _ in 0..n {
            let (h, k) = hist::random(&mut r, 6, false);
            initial.push(h.initial);
            streams.push(h.ops.into_iter().filter(|o| matches!(o, Op::Set(..) | Op::Remove(_))).collect());
            for (a, b) in k {
                *kinds.entry(a).or_insert(0) += b;
            }
        }
        let mut ops = vec![DOp::Ask(r.below(n))];
        while streams.iter().any(|s| !s.is_empty()) {
            let p = r.below(n);
            match r.below(10) {
                0..=4 if !streams[p].is_empty() => ops.push(DOp::Edit(p, streams[p].remove(0))),
                5..=7 => ops.push(DOp::Ask(p)),
                8 => {
                    ops.push(DOp::Redescribe(p));
                    ops.push(DOp::Ask(p));
                }
                9 if r.chance(1, 3) => {
                    ops.push(DOp::Replace(r.next()));
                    *kinds.entry("database_replaced".into()).or_insert(0) += 1;
                }
                _ => {}
            }
        }
        for p in 0..n {
            ops.push(DOp::Ask(p));
        }
        DScn { sched, initial, ops, kinds, aux }
    }
    fn run(&self, scn: &DScn) -> RunOut {
        let oracle = Oracle::start(answer);
        let s = scn.clone();
        let mut o = simulate(&scn.sched, u64::MAX, move || {
            let build = |all: &[Vec<(String, String)>]| {
                let db = cairo_m_compiler_semantic::SemanticDatabaseImpl::default();
                let projects = all.iter().map(|t| Sess::within(&db, t)).collect();
                World { db, projects }
            };
            let mut w = build(&s.initial);
            let mut tracker = DeltaDiagnosticsTracker::new();
            let mut asked = 0;
            for (n, op) in s.ops.iter().enumerate() {
                match op {
                    DOp::Edit(p, op) => {
                        // the project's handle must go before the database can be changed
                        let World { db, projects } = &mut w;
                        let sess = &mut projects[*p];
                        match op {
                            Op::Set(m, t) => sess.set_text_in(db, m, t.clone()),
                            Op::Remove(m) => sess.remove_in(db, m),
                            _ => {}
                        }
                    }
                    DOp::Redescribe(p) => {
                        let World { db, projects } = &mut w;
                        projects[*p].redescribe(db);
                    }
                    DOp::Replace(seed) => {
                        let all: Vec<Vec<(String, String)>> = w.projects.iter().map(|p| shuffled(&p.texts_in(&w.db), *seed)).collect();
                        w = build(&all);
                        out(|o| o.fault("database_replaced", 1));
                    }
                    DOp::Ask(p) => {
                        let texts = w.projects[*p].texts_in(&w.db);
                        let krate = w.projects[*p].krate;
                        let qs: Vec<Query> = texts.keys().map(|m| Query::Module(m.clone())).collect();
                        let want: Vec<String> = reference(&oracle, &texts, s.aux.wrapping_add(n as u64), &qs).concat();
                        if want.iter().any(|l| l.starts_with("PANIC")) {
                            return;
                        }
                        let db = &w.db;
                        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| diag_lines(&tracker.get_project_diagnostics(db, krate))));
                        let got = got.unwrap_or_else(|_| vec!["PANIC".into()]);
                        asked += 1;
                        if !compare("stale-project-diagnostics", &Query::Module(format!("* of project {p}")), &got, &want, false) {
                            return;
                        }
                        if asked > 1 && !got.is_empty() {
                            out(|o| o.nontrivial = true);
                        }
                    }
                }
            }
        });
        note_kinds(&mut o, &scn.kinds);
        o.summary = format!("{} projects, {} operations, kinds {:?}", scn.initial.len(), scn.ops.len(), scn.kinds);
        o
    }
    fn shrink(&self, s: &DScn) -> Vec<DScn> {
        let mut out = vec![];
        let n = s.ops.len();
        let mut chunk = n / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < n {
                let mut c = s.clone();
                c.ops.drain(i..(i + chunk).min(n));
                out.push(c);
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        for p in 0..s.initial.len() {
            for i in 0..s.initial[p].len() {
                let mut c = s.clone();
                c.initial[p].remove(i);
                out.push(c);
            }
        }
        out
    }
    fn sched<'a>(&self, s: &'a mut DScn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (1000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when the tracker, having answered before, gave a non-empty answer that was compared with a fresh computation; distinct by trace hash".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL[..4].to_vec(), vec!["the language server around the tracker (it is simulated in P12)"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["database_replaced", "module_removed", "torn_document"]
    }
}
