//! The whole-project answer and the per-module answers describe the same problems, each once.
use crate::*;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P06"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let len = *r.pick(&[3, 6, 12]);
        let (hist, kinds) = hist::random(&mut r, len, false);
        Scn { sched: Sched::sequential(r.next()), hist, kinds, aux: r.next() }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        let s = scn.clone();
        let mut o = simulate(&scn.sched, u64::MAX, move || {
            let mut sess = Sess::new(&s.hist.initial);
            let mut rng = Rng::new(s.aux, 5);
            for op in &s.hist.ops {
                match op {
                    Op::Set(m, t) => sess.set_text(m, t.clone()),
                    Op::Remove(m) => sess.remove(m),
                    Op::Reopen(seed) => {
                        let t = shuffled(&sess.texts(), *seed);
                        sess = Sess::new(&t);
                    }
                    Op::Ask(_) => {
                        check(&sess, &mut rng);
                        if failed() {
                            return;
                        }
                    }
                }
            }
        });
        note_kinds(&mut o, &scn.kinds);
        o.summary = describe(scn);
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink_scn(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (8000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when the project had at least one problem at a point where the whole-project and per-module answers were compared; distinct by trace hash".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the editor: simulated users set module texts directly"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["with_parse_errors", "with_import_cycle", "with_semantic_problems", "clean"]
    }
}
fn once(what: &str, v: &[String]) {
    let mut seen = BTreeSet::new();
    for l in v {
        if !seen.insert(l) {
            out(|o| o.fail("reported-twice", format!("{what} reports more than once: {l}")));
            return;
        }
    }
}
fn expect(what: &str, mut a: Vec<String>, mut b: Vec<String>) {
    a.sort();
    b.sort();
    out(|o| o.comparisons += 1);
    if a != b {
        out(|o| o.fail("disagreement", format!("{what}{}", diff(&a, &b))));
    }
}
fn check(sess: &Sess, rng: &mut Rng) {
    let names: Vec<String> = sess.files.keys().cloned().collect();
    let mut qs = vec![Query::Batch, Query::Parse, Query::Imports];
    for n in &names {
        qs.extend([Query::Module(n.clone()), Query::ModuleParse(n.clone()), Query::ModuleSemantic(n.clone())]);
    }
    rng.shuffle(&mut qs);
    let mut a: BTreeMap<Query, Vec<String>> = BTreeMap::new();
    for q in &qs {
        let r = query(&sess.db, sess.krate, q);
        simk::mix(hash_str(&format!("{q:?}{r:?}")));
        if r.iter().any(|l| l.starts_with("PANIC")) {
            // another property
            return;
        }
        once(&format!("{q:?}"), &r);
        a.insert(q.clone(), r);
    }
    if failed() {
        return;
    }
    let all = |f: &dyn Fn(&String) -> Query| -> Vec<String> { names.iter().flat_map(|n| a[&f(n)].clone()).collect() };
    let parse = all(&|n| Query::ModuleParse(n.clone()));
    expect("the project's parse errors and those of its modules", a[&Query::Parse].clone(), parse.clone());
    for n in &names {
        let own = &a[&Query::ModuleParse(n.clone())];
        expect(
            &format!("all diagnostics of {n} and its parse or semantic diagnostics"),
            a[&Query::Module(n.clone())].clone(),
            if own.is_empty() { a[&Query::ModuleSemantic(n.clone())].clone() } else { own.clone() },
        );
        for l in &a[&Query::Module(n.clone())] {
            let f = parse_diag(l).3;
            if f != path_of(n) {
                out(|o| o.fail("misplaced", format!("the diagnostics of {n} hold one located in {f:?}: {l}")));
            }
        }
    }
    let batch = a[&Query::Batch].clone();
    if !parse.is_empty() {
        out(|o| {
            o.probe("with_parse_errors");
            o.nontrivial = true
        });
        expect("the whole project's answer and its parse errors", batch, parse);
        return;
    }
    // import graph
    let graph: BTreeMap<String, Vec<String>> = a[&Query::Imports]
        .iter()
        .filter_map(|l| l.split_once(" -> "))
        .map(|(m, v)| (m.to_string(), serde_json::from_str(v).unwrap_or_default()))
        .collect();
    let reach = |from: &String| -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from.clone()];
        while let Some(n) = todo.pop() {
            for m in graph.get(&n).into_iter().flatten() {
                if seen.insert(m.clone()) {
                    todo.push(m.clone());
                }
            }
        }
        seen
    };
    let cyclic: BTreeSet<&String> = names.iter().filter(|n| reach(n).contains(*n)).collect();
    if cyclic.is_empty() {
        let parts = all(&|n| Query::Module(n.clone()));
        out(|o| {
            o.probe(if parts.is_empty() { "clean" } else { "with_semantic_problems" });
            o.nontrivial |= !parts.is_empty();
        });
        expect("the whole project's answer and those of its modules", batch, parts);
        return;
    }
    out(|o| {
        o.probe("with_import_cycle");
        o.nontrivial = true
    });
    let is_cycle = |l: &String| l.contains("\"Cyclic import: ");
    if batch.len() != 1 || !is_cycle(&batch[0]) {
        out(|o| o.fail("disagreement", format!("the imports form a cycle through {cyclic:?}; the whole project's answer is {batch:?}")));
    }
    for n in &names {
        let v = &a[&Query::Module(n.clone())];
        let leads = cyclic.contains(n) || reach(n).iter().any(|m| cyclic.contains(m));
        let told = v.len() == 1 && is_cycle(&v[0]);
        let silent = !v.iter().any(is_cycle);
        if leads && !told || !leads && !silent {
            out(|o| o.fail("disagreement", format!("module {n} {} into an import cycle through {cyclic:?}; its answer is {v:?}", if leads { "leads" } else { "does not lead" })));
        }
    }
}
