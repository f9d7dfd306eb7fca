//! What the editor shows, once the user pauses, is what the current documents deserve.
use crate::world::*;
use crate::*;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P22"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let f = feat();
        random(&mut r, &f)
    }
    fn run(&self, s: &Scn) -> RunOut {
        clean();
        let oracle = Oracle::start(answer);
        let t = s.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let aux = t.aux;
            play(&t, move |view, rec| judge(view, rec, &oracle, aux));
        });
        clean();
        finish(s, &mut o);
        o.summary = format!("{} files, {} operations", s.disk.len(), s.ops.len());
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (3000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when after a session with at least one edit the diagnostics the editor shows were compared with those of a fresh engine for the same documents, and some were shown; distinct by trace hash".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), STUB.to_vec())
    }
}
pub fn feat() -> Feat {
    Feat { long_waits: true, manifests: true, creates: true, closes: true, asks: true, finals: false }
}
fn judge(view: &View, rec: &Record, oracle: &Oracle, aux: u64) {
    let show = |file: &str, a: Position, b: Position, sev: i32, m: &str| format!("{file} {}:{}-{}:{} {sev} {m}", a.line, a.character, b.line, b.character);
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (n, c) in view.crates().into_iter().enumerate() {
        let krate: Vec<(String, String, String)> = c.iter().map(|(m, p)| (m.clone(), p.clone(), view.text(p).cloned().unwrap_or_default())).collect();
        let q = AskRef { entropy: aux.wrapping_add(n as u64), krate };
        let Some(a) = oracle.ask(&serde_json::to_vec(&q).unwrap()) else {
            // the analysis itself cannot cope with these documents (that is judged elsewhere)
            return out(|o| o.probe("no_reference"));
        };
        for (_, p) in &c {
            want.entry(p.clone()).or_default();
        }
        for d in serde_json::from_slice::<Vec<Diag>>(&a).expect("reference") {
            let f = d.file.strip_prefix(&format!("file://{ROOT}/")).unwrap_or(&d.file).to_string();
            let text = view.text(&f).cloned().unwrap_or_default();
            let l = show(&f, position(&text, d.start), position(&text, d.end), d.severity, &d.message);
            want.entry(f).or_default().push(l);
        }
    }
    let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (f, (ds, _)) in &rec.published {
        for d in ds {
            let sev = serde_json::to_value(d.severity).unwrap().as_i64().unwrap_or(0) as i32;
            got.entry(f.clone()).or_default().push(show(f, d.range.start, d.range.end, sev, &d.message));
        }
    }
    if rec.handled != rec.sent {
        out(|o| o.fail("unhandled-message", format!("{} messages sent, {} handled", rec.sent, rec.handled)));
        return;
    }
    if rec.replies.len() != rec.asked.len() {
        out(|o| o.fail("unanswered-request", format!("{} asked, {} answered", rec.asked.len(), rec.replies.len())));
        return;
    }
    let files: BTreeSet<&String> = want.keys().chain(got.keys()).collect();
    // Nothing is promised about projects of which no file was opened: a manifest that was written may
    // have made the server load them.
    let known: BTreeSet<Option<String>> = view.ever.iter().map(|p| view.project(p)).collect();
    for f in files {
        if !want.contains_key(f) && !known.contains(&view.project(f)) {
            continue;
        }
        let mut a = got.get(f).cloned().unwrap_or_default();
        let mut b = want.get(f).cloned().unwrap_or_default();
        a.sort();
        b.sort();
        out(|o| o.comparisons += 1);
        if a != b {
            out(|o| o.fail("stale-or-wrong-diagnostics", format!("{f}{}\n(version {:?}, shown: {:?})", ana::obs::diff(&a, &b), rec.published.get(f).map(|x| x.1), rec.shown)));
            return;
        }
        if !a.is_empty() {
            out(|o| o.nontrivial = true);
        }
    }
    if rec.last_status.as_deref().is_some_and(|s| s != "AnalysisFinished" && s != "analysisFinished") {
        out(|o| o.fail("analysis-never-finishes", format!("last status: {:?}", rec.last_status)));
    }
}
use lsp_types::Position;
