//! Whatever the history of edits, restarts and earlier queries, an answer is the one a fresh engine gives.
use crate::*;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P01"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let len = *r.pick(&[3, 6, 10, 16]);
        let (hist, kinds) = hist::random(&mut r, len, true);
        Scn { sched: Sched::sequential(r.next()), hist, kinds, aux: r.next() }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        let oracle = Oracle::start(answer);
        let s = scn.clone();
        let mut o = simulate(&scn.sched, u64::MAX, move || {
            let mut sess = Sess::new(&s.hist.initial);
            let mut touched = 0;
            for (n, op) in s.hist.ops.iter().enumerate() {
                match op {
                    Op::Set(m, t) => {
                        sess.set_text(m, t.clone());
                        touched += 1;
                    }
                    Op::Remove(m) => {
                        sess.remove(m);
                        touched += 1;
                    }
                    Op::Reopen(seed) => {
                        let t = shuffled(&sess.texts(), *seed);
                        sess = Sess::new(&t);
                    }
                    Op::Ask(qs) => {
                        let want = reference(&oracle, &sess.texts(), s.aux.wrapping_add(n as u64), qs);
                        for (q, w) in qs.iter().zip(&want) {
                            let got = query(&sess.db, sess.krate, q);
                            if !compare("stale-answer", q, &got, w, false) {
                                return;
                            }
                            if touched > 0 && !got.is_empty() {
                                out(|o| o.nontrivial = true);
                            }
                        }
                    }
                }
            }
        });
        note_kinds(&mut o, &scn.kinds);
        o.summary = describe(scn);
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink_scn(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (2500, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when, after at least one edit, a non-empty answer of the incremental engine was compared with the answer of an engine started from scratch in a pristine process on the same texts; distinct by trace hash over all answers".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the editor and the file system: simulated users set module texts directly"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["torn_document", "module_removed", "reverted", "tangled_declarations", "shared_module_changed", "restart", "import_added"]
    }
}
