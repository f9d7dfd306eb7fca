//! Readers on clones of the database while a writer edits: every answer that is given is the answer
//! for the texts of its moment, whatever the interleaving; cancelled queries can be retried; everybody finishes.
use crate::*;
pub struct F;
#[derive(Clone, Serialize, Deserialize)]
pub struct CScn {
    s: Scn,
    /// queries of each reader, in order
    readers: Vec<Vec<Query>>,
    /// simulated microseconds the writer waits between edits
    pace: u64,
}
impl Family for F {
    type Scn = CScn;
    fn id(&self) -> &'static str {
        "P03"
    }
    fn generate(&self, seed: u64, index: u64) -> CScn {
        let mut r = Rng::new(seed, index);
        let mut kinds = Kinds::new();
        let sched = Sched::random(&mut r);
        let aux = r.next();
        let pace = *r.pick(&[0, 0, 1, 50, 5000]);
        let k = r.range(1, 5);
        let edits = r.range(1, 7);
        let mut g = hist::Gen::new(&mut r, false);
        let initial = g.initial();
        let mut ops = vec![];
        let mut readers = vec![vec![]; k];
        for _ in 0..edits {
            ops.push(g.edit(&mut kinds));
            for q in readers.iter_mut() {
                let n = g.r.range(1, 4);
                q.extend(g.some_queries(n, true));
            }
        }
        CScn { s: Scn { sched, hist: Hist { initial, ops }, kinds, aux }, readers, pace }
    }
    fn run(&self, scn: &CScn) -> RunOut {
        let oracle = Oracle::start(answer);
        let c = scn.clone();
        let mut o = simulate(&scn.s.sched, 400_000_000, move || {
            let sess = Sess::new(&c.s.hist.initial);
            let history: Arc<Mutex<Vec<Texts>>> = Arc::new(Mutex::new(vec![sess.texts()]));
            let shared = Arc::new(Mutex::new(sess));
            let mut hs = vec![];
            for qs in c.readers.iter() {
                let (shared, history, qs) = (shared.clone(), history.clone(), qs.clone());
                let body = move || {
                    let mut seen: Vec<(usize, Query, Vec<String>)> = vec![];
                    for q in qs {
                        let mut tries = 0;
                        loop {
                            let (db, krate, rev) = {
                                let s = shared.lock().unwrap();
                                let h = history.lock().unwrap();
                                (s.db.clone(), s.krate, h.len() - 1)
                            };
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| query(&db, krate, &q)));
                            drop(db);
                            match r {
                                Ok(v) => {
                                    seen.push((rev, q.clone(), v));
                                    if tries > 0 {
                                        out(|o| o.probe("answered_after_cancellation"));
                                    }
                                    break;
                                }
                                Err(_) => {
                                    tries += 1;
                                    out(|o| o.fault("query_cancelled", 1));
                                    if tries > 200 {
                                        out(|o| o.fail("no-progress", format!("{q:?} was cancelled {tries} times")));
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    seen
                };
                hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(body).unwrap());
            }
            for op in &c.s.hist.ops {
                if c.pace > 0 {
                    std::thread::sleep(std::time::Duration::from_micros(c.pace));
                }
                let mut s = shared.lock().unwrap();
                match op {
                    Op::Set(m, t) => s.set_text(m, t.clone()),
                    Op::Remove(m) => s.remove(m),
                    _ => {}
                }
                let t = s.texts();
                history.lock().unwrap().push(t);
            }
            let mut seen = vec![];
            for h in hs {
                match h.join() {
                    Ok(v) => seen.extend(v),
                    Err(_) => {
                        out(|o| o.fail("reader-died", "a reader thread ended with a panic"));
                        return;
                    }
                }
            }
            // what they saw against the reference, revision by revision
            let history = history.lock().unwrap();
            let mut by: BTreeMap<usize, Vec<(Query, Vec<String>)>> = BTreeMap::new();
            for (rev, q, v) in seen {
                by.entry(rev).or_default().push((q, v));
            }
            for (rev, v) in by {
                let mut qs: Vec<Query> = v.iter().map(|x| x.0.clone()).collect();
                qs.sort();
                qs.dedup();
                let want = reference(&oracle, &history[rev], c.s.aux.wrapping_add(rev as u64), &qs);
                for (q, got) in &v {
                    let i = qs.iter().position(|x| x == q).unwrap();
                    if !compare("wrong-answer", q, got, &want[i], false) {
                        return;
                    }
                    out(|o| o.nontrivial |= !got.is_empty());
                }
                if rev > 0 && rev + 1 < history.len() {
                    out(|o| o.probe("answered_between_edits"));
                }
            }
        });
        note_kinds(&mut o, &scn.s.kinds);
        o.summary = format!("{} readers, {} edits", scn.readers.len(), scn.s.hist.ops.len());
        o
    }
    fn shrink(&self, c: &CScn) -> Vec<CScn> {
        let mut out = vec![];
        for i in 0..c.readers.len() {
            if c.readers.len() > 1 {
                let mut d = c.clone();
                d.readers.remove(i);
                out.push(d);
            }
        }
        for i in 0..c.readers.len() {
            let n = c.readers[i].len();
            let mut chunk = n.div_ceil(2);
            while chunk >= 1 && n > 1 {
                let mut k = 0;
                while k < n {
                    let mut d = c.clone();
                    d.readers[i].drain(k..(k + chunk).min(n));
                    out.push(d);
                    k += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
        for h in hist::shrink(&c.s.hist) {
            let mut d = c.clone();
            d.s.hist = h;
            out.push(d);
        }
        out
    }
    fn sched<'a>(&self, c: &'a mut CScn) -> Option<&'a mut Sched> {
        Some(&mut c.s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (5000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a reader concurrent with the writer got a non-empty answer that was compared with the reference for the texts of its revision; distinct by trace hash over scheduling decisions and answers".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), vec!["the editor: simulated users set module texts directly", "the thread scheduler, futexes, clocks and getrandom: simulated"])
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["query_cancelled", "answered_after_cancellation", "answered_between_edits"]
    }
}
