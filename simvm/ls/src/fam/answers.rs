//! What the server answers depends on the documents alone, and makes sense for them.
use crate::world::*;
use crate::*;
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::SemanticDatabaseImpl;
use lsp_types::Position;
use serde_json::Value;
pub struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P23"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let mut f = super::super::fam::published::feat();
        f.finals = true;
        let mut s = random(&mut r, &f);
        // more questions, in the midst of everything
        for i in (0..s.ops.len()).rev() {
            if f.asks && r.chance(1, 2) {
                let p = match &s.ops[i].1 {
                    Op::Open(p) | Op::Change(p, _) => p.clone(),
                    _ => continue,
                };
                let k = *r.pick(&KINDS);
                s.ops.insert(i + 1, (*r.pick(&[0, 0, 0, 1, 300]), Op::Ask(k, p, r.next())));
            }
        }
        s
    }
    fn run(&self, s: &Scn) -> RunOut {
        clean();
        let oracle = Oracle::start(reference);
        let t = s.clone();
        let side = format!("{}-fresh", scratch().to_string_lossy());
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let t2 = t.clone();
            play(&t, move |view, rec| judge(&t2, view, rec, &oracle, side));
        });
        finish(s, &mut o);
        o.summary = format!("{} files, {} operations, {} questions in the end", s.disk.len(), s.ops.len(), s.finals.len());
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink(s)
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (3000, 2_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when at least one question got an answer that was compared with a fresh server's or checked against the text".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (REAL.to_vec(), STUB.to_vec())
    }
}

#[derive(Serialize, Deserialize)]
enum Req {
    /// what a server says that was started just now on these documents
    Fresh(Box<Scn>, String),
    Format(String),
}
fn reference(req: &[u8]) -> Vec<u8> {
    drv::install_panic_hook();
    let (cfg, devs) = Sched::sequential(1).cfg(u64::MAX);
    let req: Req = serde_json::from_slice(req).expect("question");
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            simk::begin(&cfg, &devs);
            let v = match req {
                Req::Format(text) => {
                    let db = SemanticDatabaseImpl::default();
                    let f = SourceFile::new(&db, text, "x.cm".into());
                    serde_json::to_vec(&cairo_m_formatter::format_source_file(&db, f, &Default::default())).unwrap()
                }
                Req::Fresh(s, dir) => {
                    set_scratch(&dir);
                    let (tx, rx) = std::sync::mpsc::channel();
                    play(&s, move |_, rec| {
                        let _ = tx.send(serde_json::to_vec(&rec.replies).unwrap());
                    });
                    clean();
                    rx.recv().unwrap()
                }
            };
            simk::end();
            v
        })
        .expect("thread")
        .join()
        .expect("reference")
}
fn normal(mut v: Value) -> Value {
    if let Value::Array(a) = &mut v {
        a.sort_by_key(|x| x.to_string());
    }
    v
}
fn judge(s: &Scn, view: &View, rec: &Record, oracle: &Oracle, side: String) {
    let bad = |c: &str, m: String| out(|o| o.fail(c, m));
    if rec.handled != rec.sent || rec.replies.len() != rec.asked.len() {
        return bad("unanswered-request", format!("{} messages, {} handled; {} asked, {} answered", rec.sent, rec.handled, rec.asked.len(), rec.replies.len()));
    }
    let by: BTreeMap<u64, &Reply> = rec.replies.iter().map(|r| (r.id, r)).collect();
    for a in &rec.asked {
        let r = by[&a.id];
        let text = &a.texts[&a.file];
        let what = format!("{:?} in {} at {}:{}", a.kind, a.file, a.at.line, a.at.character);
        if let Some(e) = &r.error {
            return bad("error-answer", format!("{what}: {e}"));
        }
        out(|o| o.probe(match (&a.kind, r.value.is_null() || r.value.as_array().is_some_and(|x| x.is_empty())) {
            (_, true) => "no_answer",
            (Kind::Hover, _) => "hover",
            (Kind::Goto, _) => "goto",
            (Kind::Completion, _) => "completion",
            (Kind::Format | Kind::RangeFormat, _) => "formatting",
        }));
        match a.kind {
            Kind::Format | Kind::RangeFormat => {
                let Some(want) = oracle.ask(&serde_json::to_vec(&Req::Format(text.clone())).unwrap()) else { continue };
                let want: String = serde_json::from_slice(&want).unwrap();
                let Some(edits) = r.value.as_array() else { return bad("no-formatting", format!("{what}: {}", r.value)) };
                let mut got = text.clone();
                for e in edits.iter().rev() {
                    let (Some(x), Some(y)) = (at(&e["range"]["start"], text), at(&e["range"]["end"], text)) else {
                        return bad("place-outside-the-document", format!("{what}: {}", e["range"]));
                    };
                    got.replace_range(x..y, e["newText"].as_str().unwrap_or(""));
                }
                out(|o| o.comparisons += 1);
                if got != want {
                    return bad("formatting-gives-another-text", format!("{what}\n{}", ana::obs::diff(&lines(&got), &lines(&want))));
                }
                out(|o| o.nontrivial = true);
            }
            Kind::Hover => {
                if let Some(v) = r.value["contents"]["value"].as_str() {
                    out(|o| o.comparisons += 1);
                    let here = word_at(text, a.at);
                    let name = v.strip_prefix("```cairo-m\n").and_then(|v| v.split(':').next()).unwrap_or("");
                    if here.as_deref() != Some(name) {
                        return bad("hover-about-something-else", format!("{what}, which is {here:?}: {v}"));
                    }
                    out(|o| o.nontrivial = true);
                }
            }
            Kind::Goto => {
                if let Some(u) = r.value["uri"].as_str() {
                    out(|o| o.comparisons += 1);
                    let file = u.strip_prefix(&format!("file://{ROOT}/")).unwrap_or(u);
                    let Some(there) = a.texts.get(file) else { return bad("goto-unknown-file", format!("{what}: {u}")) };
                    let range = &r.value["range"];
                    let (Some(x), Some(y)) = (at(&range["start"], there), at(&range["end"], there)) else {
                        return bad("place-outside-the-document", format!("{what}: {file} {range}"));
                    };
                    let here = word_at(text, a.at).unwrap_or_default();
                    let start_of_module = x == 0 && y == 0;
                    if !start_of_module && (x > y || there[x..y] != here) {
                        return bad("goto-leads-elsewhere", format!("{what}, which is {here:?}: {file} {range}: {:?}", there.get(x..y)));
                    }
                    out(|o| o.nontrivial = true);
                }
            }
            Kind::Completion => {
                let items: Vec<&str> = r.value.as_array().map(|v| v.iter().filter_map(|i| i["label"].as_str()).collect()).unwrap_or_default();
                let set: BTreeSet<&&str> = items.iter().collect();
                if set.len() != items.len() {
                    return bad("completion-repeats-itself", format!("{what}: {items:?}"));
                }
            }
        }
    }
    if s.finals.is_empty() || !rec.asked.iter().any(|a| a.last) {
        return;
    }
    // the same questions to a server that was started just now
    let mut fresh = s.clone();
    fresh.sched = Sched::sequential(1);
    fresh.slow = 0;
    fresh.workers = 1;
    fresh.disk = view.disk.keys().map(|p| (p.clone(), view.text(p).cloned().unwrap_or_default())).collect();
    fresh.ops = view.ever.iter().map(|p| (2000, Op::Open(p.clone()))).collect();
    let open = |p: &String| view.docs.get(p).is_some_and(|d| d.open);
    fresh.finals.retain(|(_, p, _)| open(p));
    let Some(v) = oracle.ask(&serde_json::to_vec(&Req::Fresh(Box::new(fresh), side)).unwrap()) else {
        return out(|o| o.probe("no_reference"));
    };
    let mut want: Vec<Reply> = serde_json::from_slice(&v).unwrap();
    want.sort_by_key(|r| r.id);
    let last: Vec<&Asked> = rec.asked.iter().filter(|a| a.last).collect();
    if want.len() != last.len() {
        return out(|o| o.probe("no_reference"));
    }
    for (a, w) in last.iter().zip(want) {
        out(|o| o.comparisons += 1);
        let (x, y) = (normal(by[&a.id].value.clone()), normal(w.value));
        if x != y {
            return bad("answer-depends-on-history", format!("{:?} in {} at {}:{}\n  answered: {x}\n  a fresh server: {y}", a.kind, a.file, a.at.line, a.at.character));
        }
        if !x.is_null() {
            out(|o| o.nontrivial = true);
        }
    }
}
fn at(p: &Value, text: &str) -> Option<usize> {
    offset(text, Position { line: p["line"].as_u64()? as u32, character: p["character"].as_u64()? as u32 })
}
fn lines(t: &str) -> Vec<String> {
    t.lines().map(|l| l.to_string()).chain([format!("({} bytes)", t.len())]).collect()
}
fn word_at(text: &str, p: Position) -> Option<String> {
    let o = offset(text, p)?;
    words(text).into_iter().find(|(s, w)| *s <= o && o <= s + w.len()).map(|(_, w)| w.to_string())
}
