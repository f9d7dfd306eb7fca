//! Same project, same output, byte for byte: whatever the hash seeds, the order in which modules were
//! discovered, the order of the queries, and the interleaving of the threads that ask them.
use crate::*;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P04"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let len = *r.pick(&[1, 2, 4]);
        let (hist, kinds) = hist::random(&mut r, len, true);
        Scn { sched: Sched::random(&mut r), hist, kinds, aux: r.next() }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        let oracle = Oracle::start(answer);
        let s = scn.clone();
        let mut o = simulate(&scn.sched, 400_000_000, move || {
            let mut sess = Sess::new(&s.hist.initial);
            let mut rng = Rng::new(s.aux, 9);
            for (n, op) in s.hist.ops.iter().enumerate() {
                match op {
                    Op::Set(m, t) => sess.set_text(m, t.clone()),
                    Op::Remove(m) => sess.remove(m),
                    Op::Reopen(seed) => sess = Sess::new(&shuffled(&sess.texts(), *seed)),
                    Op::Ask(qs) => {
                        let want = reference(&oracle, &sess.texts(), s.aux.wrapping_add(n as u64), qs);
                        let k = rng.range(1, 4);
                        let hs: Vec<_> = (0..k)
                            .map(|_| {
                                let (db, krate) = (sess.db.clone(), sess.krate);
                                let mut mine: Vec<usize> = (0..qs.len()).collect();
                                rng.shuffle(&mut mine);
                                let qs = qs.clone();
                                std::thread::Builder::new()
                                    .stack_size(16 << 20)
                                    .spawn(move || mine.iter().map(|i| (*i, query(&db, krate, &qs[*i]))).collect::<Vec<_>>())
                                    .unwrap()
                            })
                            .collect();
                        let all: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
                        for r in all {
                            for (i, got) in r.unwrap_or_default() {
                                if !compare("different-output", &qs[i], &got, &want[i], true) {
                                    return;
                                }
                                out(|o| {
                                    o.nontrivial |= !got.is_empty() && k > 1;
                                    if k > 1 {
                                        o.probe("concurrent_readers");
                                    }
                                });
                            }
                        }
                    }
                }
            }
        });
        note_kinds(&mut o, &scn.kinds);
        o.fault("hash_seed_changed", 1);
        o.fault("module_discovery_order_changed", 1);
        o.summary = describe(scn);
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink_scn(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (3000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when several threads got a non-empty answer that was compared, order included, with the answer of a fresh sequential engine under different hash seeds, module order and query order; distinct by trace hash".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the editor: simulated users set module texts directly", "getrandom, the thread scheduler, futexes and clocks: simulated"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["concurrent_readers", "hash_seed_changed"]
    }
}
