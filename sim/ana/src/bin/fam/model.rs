//! A problem introduced by an edit is reported, where it is, from that edit until it is gone; and
//! nothing else is reported.
use crate::*;
use ana::catalog::{self, Module};
use std::collections::BTreeMap as Map;
pub struct F;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Set(String, Module),
    Remove(String),
    Prelude { padding: u32, broken: Option<usize> },
    Ask { batch: bool, modules: Vec<String> },
    Reopen(u64),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct MScn {
    sched: Sched,
    ops: Vec<MOp>,
    aux: u64,
    /// parallel readers at query points
    readers: usize,
}
impl Family for F {
    type Scn = MScn;
    fn id(&self) -> &'static str {
        "P07"
    }
    fn generate(&self, seed: u64, index: u64) -> MScn {
        let mut r = Rng::new(seed, index);
        let readers = *r.pick(&[0, 0, 0, 2, 3]);
        let sched = if readers > 0 { Sched::random(&mut r) } else { Sched::sequential(r.next()) };
        let len = *r.pick(&[4, 8, 14, 24]);
        let aux = r.next();
        let mut ops = vec![];
        let mut g = hist::Gen::new(&mut r, true);
        g.initial();
        for (n, d) in &g.docs {
            if let Some(m) = &d.model {
                ops.push(MOp::Set(n.clone(), m.clone()));
            }
        }
        let mut kinds = Kinds::new();
        let ask = |g: &mut hist::Gen| {
            let mut modules: Vec<String> = g.docs.iter().filter(|(_, d)| d.model.is_some()).map(|(n, _)| n.clone()).collect();
            g.r.shuffle(&mut modules);
            let n = g.r.range(1, modules.len().max(1) + 1);
            modules.truncate(n);
            MOp::Ask { batch: g.r.chance(1, 2), modules }
        };
        for _ in 0..len {
            for _ in 0..*g.r.pick(&[1, 1, 2, 3]) {
                if g.r.chance(1, 12) {
                    let broken = if g.r.chance(1, 3) { Some(g.r.below(catalog::BROKEN.len())) } else { None };
                    ops.push(MOp::Prelude { padding: g.r.below(3) as u32, broken });
                    continue;
                }
                match g.edit(&mut kinds) {
                    Op::Set(n, _) => {
                        if let Some(m) = &g.docs[&n].model {
                            ops.push(MOp::Set(n.clone(), m.clone()))
                        }
                    }
                    Op::Remove(n) => ops.push(MOp::Remove(n)),
                    _ => {}
                }
            }
            if g.r.chance(1, 30) {
                ops.push(MOp::Reopen(g.r.next()));
            }
            if g.r.chance(4, 5) {
                let a = ask(&mut g);
                ops.push(a);
            }
        }
        let a = ask(&mut g);
        ops.push(a);
        MScn { sched, ops, aux, readers }
    }
    fn run(&self, scn: &MScn) -> RunOut {
        let s = scn.clone();
        let mut o = simulate(&scn.sched, u64::MAX, move || go(&s));
        o.summary = format!("{} operations, {} readers", scn.ops.len(), scn.readers);
        o
    }
    fn shrink(&self, s: &MScn) -> Vec<MScn> {
        let mut out = vec![];
        let n = s.ops.len();
        let mut chunk = n / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < n {
                let mut c = s.clone();
                c.ops.drain(i..(i + chunk).min(n));
                out.push(c);
                i += chunk;
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        for (i, op) in s.ops.iter().enumerate() {
            if let MOp::Set(m, d) = op {
                let mut with = |d: Module| {
                    let mut c = s.clone();
                    c.ops[i] = MOp::Set(m.clone(), d);
                    out.push(c);
                };
                for k in 0..d.insts.len() {
                    let mut e = d.clone();
                    e.insts.remove(k);
                    with(e);
                }
                for k in 0..d.insts.len() {
                    if !d.insts[k].wraps.is_empty() {
                        let mut e = d.clone();
                        e.insts[k].wraps.remove(0);
                        with(e);
                    }
                }
                for k in 0..d.progs.len() {
                    let mut e = d.clone();
                    e.progs.remove(k);
                    with(e);
                    for q in ana::prog::shrink(&d.progs[k]) {
                        let mut e = d.clone();
                        e.progs[k] = q;
                        with(e);
                    }
                }
                if d.padding > 0 {
                    with(Module { padding: 0, ..d.clone() });
                }
                if d.imported {
                    with(Module { imported: false, ..d.clone() });
                }
            }
        }
        if s.readers > 0 {
            out.insert(0, MScn { readers: 0, ..s.clone() });
        }
        out
    }
    fn sched<'a>(&self, s: &'a mut MScn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (5000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when at least one point of the history was reached at which the model predicts at least one problem and the prediction was compared with the answer; distinct by trace hash".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL[..4].to_vec(), vec!["the editor: simulated users set module texts directly", "reference: a catalogue of 480 program fragments with the problems they contain, and rules for composing them"])
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the catalogue's fragments compose: a problem of one function is unaffected by the other functions and modules (their names are disjoint)".into()]
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["predicted_problem", "predicted_clean", "problem_fixed", "parse_error_predicted", "concurrent_readers"]
    }
}
struct State {
    docs: Map<String, Module>,
    pre_padding: u32,
    pre_broken: Option<usize>,
}
impl State {
    fn prelude(&self) -> String {
        let mut t = String::new();
        for _ in 0..self.pre_padding {
            t += "// head\n";
        }
        t += &catalog::shared_module();
        if let Some(b) = self.pre_broken {
            t += catalog::BROKEN[b];
            t += "\n";
        }
        t
    }
    fn texts(&self) -> Texts {
        let mut t: Texts = self.docs.iter().map(|(n, m)| (n.clone(), catalog::render(n, m, catalog::all()).0)).collect();
        t.insert("prelude".into(), self.prelude());
        t
    }
    fn uses_prelude(&self, n: &str) -> bool {
        let m = &self.docs[n];
        let cat = catalog::all();
        m.insts.iter().any(|i| cat[i.snip].imports || (m.imported && !cat[i.snip].needs.is_empty()))
    }
}
type D = (u32, usize, usize, String);
fn show(v: &[D], text: &dyn Fn(&str) -> String) -> String {
    v.iter()
        .take(5)
        .map(|(c, a, b, f)| format!("\n    code {c} at {f} {a}..{b} {:?}", text(f).get(*a..*b).unwrap_or("?").chars().take(60).collect::<String>()))
        .collect()
}
fn minus(a: &[D], b: &[D]) -> Vec<D> {
    let mut b = b.to_vec();
    a.iter().filter(|x| !b.iter().position(|y| y == *x).map(|i| b.remove(i)).is_some()).cloned().collect()
}
fn judge(st: &State, q: &Query, got: &[String]) {
    let cat = catalog::all();
    let texts = st.texts();
    if let Some(p) = got.iter().find(|l| l.starts_with("PANIC")) {
        out(|o| o.fail("panic", format!("{q:?}: {p}")));
        return;
    }
    simk::mix(hash_str(&format!("{q:?}{got:?}")));
    let mut have: Vec<D> = got.iter().map(|l| parse_diag(l)).collect();
    have.sort();
    let scope: Vec<&String> = match q {
        Query::Batch => st.docs.keys().collect(),
        Query::Module(m) => vec![m],
        _ => unreachable!(),
    };
    let is_parse = |d: &D| d.0 < 1000;
    let broken: Vec<&String> = st.docs.iter().filter(|(_, m)| m.broken.is_some()).map(|x| x.0).collect();
    out(|o| o.comparisons += 1);
    let local = |f: &str| texts.iter().find(|(m, _)| path_of(m) == f).map(|x| x.1.clone()).unwrap_or_default();
    match q {
        Query::Batch if !broken.is_empty() || st.pre_broken.is_some() => {
            out(|o| {
                o.probe("parse_error_predicted");
                o.nontrivial = true
            });
            if let Some(d) = have.iter().find(|d| !is_parse(d)) {
                out(|o| o.fail("unexpected-problem", format!("{q:?}: while modules do not parse{}", show(&[d.clone()], &local))));
            }
            for b in broken.iter().map(|s| s.as_str()).chain(st.pre_broken.map(|_| "prelude")) {
                if !have.iter().any(|d| d.3 == path_of(b)) {
                    out(|o| o.fail("missing-problem", format!("{q:?}: no problem reported in {b}, which does not parse")));
                }
            }
            for d in &have {
                if !broken.iter().any(|b| path_of(b) == d.3) && !(st.pre_broken.is_some() && d.3 == path_of("prelude")) {
                    out(|o| o.fail("unexpected-problem", format!("{q:?}: parse error in a module that parses{}", show(&[d.clone()], &local))));
                }
            }
        }
        Query::Module(m) if st.docs[m].broken.is_some() => {
            out(|o| {
                o.probe("parse_error_predicted");
                o.nontrivial = true
            });
            if have.is_empty() || !have.iter().all(|d| is_parse(d) && d.3 == path_of(m)) {
                out(|o| o.fail("parse-problem", format!("{q:?}: the module does not parse, reported:{}", show(&have, &local))));
            }
        }
        Query::Module(m) if st.pre_broken.is_some() && st.uses_prelude(m) => {
            if let Some(d) = have.iter().find(|d| is_parse(d)) {
                out(|o| o.fail("unexpected-problem", format!("{q:?}: parse error in a module that parses{}", show(&[d.clone()], &local))));
            }
        }
        _ => {
            let mut want: Vec<D> = scope
                .iter()
                .flat_map(|m| catalog::render(m, &st.docs[*m], cat).1)
                .map(|e| (e.code, e.start, e.end, e.file))
                .collect();
            want.sort();
            out(|o| {
                o.probe(if want.is_empty() { "predicted_clean" } else { "predicted_problem" });
                o.nontrivial |= !want.is_empty();
            });
            let missing = minus(&want, &have);
            let extra = minus(&have, &want);
            if !missing.is_empty() {
                out(|o| o.fail("missing-problem", format!("{q:?}: not reported:{}\n  reported instead:{}", show(&missing, &local), show(&extra, &local))));
            } else if !extra.is_empty() {
                out(|o| o.fail("unexpected-problem", format!("{q:?}: reported, but not there:{}", show(&extra, &local))));
            }
        }
    }
}
fn go(s: &MScn) {
    let mut st = State { docs: Map::new(), pre_padding: 0, pre_broken: None };
    let mut sess = Sess::new(&shuffled(&st.texts(), s.aux));
    for op in &s.ops {
        match op {
            MOp::Set(n, m) => {
                let old = st.docs.insert(n.clone(), m.clone());
                let had = |m: &Module| m.broken.is_some() || !catalog::render("x", m, catalog::all()).1.is_empty();
                if old.as_ref().map(had).unwrap_or(false) && !had(m) {
                    out(|o| o.probe("problem_fixed"));
                }
                sess.set_text(n, catalog::render(n, m, catalog::all()).0);
            }
            MOp::Remove(n) => {
                st.docs.remove(n);
                sess.remove(n);
                out(|o| o.fault("module_removed", 1));
            }
            MOp::Prelude { padding, broken } => {
                st.pre_padding = *padding;
                st.pre_broken = *broken;
                sess.set_text("prelude", st.prelude());
                out(|o| o.fault("shared_module_broken", broken.is_some() as u64));
            }
            MOp::Reopen(seed) => {
                sess = Sess::new(&shuffled(&st.texts(), *seed));
                out(|o| o.fault("restart", 1));
            }
            MOp::Ask { batch, modules } => {
                let mut qs: Vec<Query> = modules.iter().filter(|m| st.docs.contains_key(*m)).map(|m| Query::Module(m.clone())).collect();
                if *batch {
                    let at = (s.aux as usize) % (qs.len() + 1);
                    qs.insert(at, Query::Batch);
                }
                if s.readers > 0 {
                    out(|o| o.probe("concurrent_readers"));
                    let hs: Vec<_> = (0..s.readers)
                        .map(|k| {
                            let (db, krate) = (sess.db.clone(), sess.krate);
                            let mut mine = qs.clone();
                            Rng::new(s.aux, k as u64).shuffle(&mut mine);
                            std::thread::Builder::new()
                                .stack_size(16 << 20)
                                .spawn(move || mine.iter().map(|q| (q.clone(), query(&db, krate, q))).collect::<Vec<_>>())
                                .unwrap()
                        })
                        .collect();
                    for h in hs {
                        for (q, r) in h.join().unwrap_or_default() {
                            judge(&st, &q, &r);
                        }
                    }
                } else {
                    for q in &qs {
                        let r = query(&sess.db, sess.krate, q);
                        judge(&st, q, &r);
                    }
                }
                if failed() {
                    return;
                }
            }
        }
    }
}
