//! No document history, however torn or tangled, makes an analysis query or the formatter fail.
use crate::*;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P05"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let len = *r.pick(&[4, 8, 16, 30]);
        let (hist, kinds) = hist::random(&mut r, len, true);
        Scn { sched: Sched::sequential(r.next()), hist, kinds, aux: r.next() }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        let s = scn.clone();
        let mut o = simulate(&scn.sched, u64::MAX, move || {
            let mut sess = Sess::new(&s.hist.initial);
            let mut rng = Rng::new(s.aux, 3);
            for op in &s.hist.ops {
                let mut qs = vec![];
                match op {
                    Op::Set(m, t) => {
                        sess.set_text(m, t.clone());
                        qs.push(Query::Module(m.clone()));
                        qs.push(Query::Index(m.clone()));
                        qs.push(Query::Format(m.clone()));
                        qs.push(Query::Batch);
                        rng.shuffle(&mut qs);
                        qs.truncate(rng.range(0, 3));
                    }
                    Op::Remove(m) => sess.remove(m),
                    Op::Reopen(seed) => {
                        let t = shuffled(&sess.texts(), *seed);
                        sess = Sess::new(&t);
                    }
                    Op::Ask(q) => qs = q.clone(),
                }
                for q in &qs {
                    let got = query(&sess.db, sess.krate, q);
                    simk::mix(hash_str(&format!("{q:?}{got:?}")));
                    out(|o| {
                        o.comparisons += 1;
                        o.nontrivial = true;
                    });
                    if let Some(p) = got.iter().find(|l| l.starts_with("PANIC")) {
                        out(|o| o.fail("panic", format!("{q:?}: {p}")));
                        return;
                    }
                }
            }
        });
        note_kinds(&mut o, &scn.kinds);
        o.summary = describe(scn);
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink_scn(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (4000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when at least one query was answered on a history with injected document damage; distinct by trace hash over all answers".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the editor: simulated users set module texts directly"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["torn_document", "lost_characters", "stray_characters", "tangled_declarations", "import_added", "module_removed"]
    }
}
