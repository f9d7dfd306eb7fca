//! Calibration aid (not part of any check): runs every fragment of catalog/raw.txt in every context,
//! prints disagreements between contexts, and writes catalog/catalog.txt with the reported problems marked.
use ana::catalog::*;
use ana::obs::*;
use std::collections::BTreeMap;

type Marks = Vec<(u32, usize, usize)>;
fn main() {
    drv::install_panic_hook();
    let raw = include_str!("../../catalog/raw.txt");
    let mut out = String::from("# fragments with the problems they contain; written by `catalog`, reviewed by hand\n");
    for line in raw.lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
        let s = parse_line(line);
        let cat = vec![s.clone()];
        let mut contexts: Vec<Vec<Wrap>> = vec![vec![]];
        if s.kind != Kind::Item {
            for w in WRAPS {
                if s.kind == Kind::NoLoop && w.is_loop() {
                    continue;
                }
                contexts.push(vec![w]);
                contexts.push(vec![w, Wrap::Then]);
                if s.kind != Kind::NoLoop {
                    contexts.push(vec![Wrap::For, w]);
                }
            }
        }
        let mut seen: BTreeMap<String, (Marks, Vec<String>)> = BTreeMap::new();
        let mut first = None;
        for imported in [false, true] {
            for c in &contexts {
                for m in ["main", "other"] {
                    let inst = Inst { snip: 0, uid: 7, wraps: c.clone() };
                    let module = Module { imported, insts: vec![inst.clone()], padding: 0, broken: None, progs: vec![] };
                    let (text, _) = render(m, &module, &cat);
                    let (body, _) = render_inst(&s, &inst);
                    let mut probe = s.clone();
                    probe.marks = (0..s.text.len()).filter(|i| s.text.is_char_boundary(*i)).map(|i| (i as u32, i, s.text.len())).collect();
                    let (_, map) = render_inst(&probe, &inst);
                    let base = text.find(&body).unwrap();
                    let mut texts = vec![(m.to_string(), text.clone()), ("prelude".to_string(), shared_module())];
                    if m != "main" {
                        texts.push(("main".into(), "fn main() -> felt { return 1; }".into()));
                    }
                    let sess = Sess::new(&texts);
                    for q in [Query::Batch, Query::ModuleSemantic(m.into())] {
                        let lines = query(&sess.db, sess.krate, &q);
                        let mut marks = vec![];
                        for l in &lines {
                            let mut ok = false;
                            if l.contains(&path_of(m)) && !l.starts_with("PANIC") {
                                let d = parse_diag(l);
                                // back to fragment positions
                                let back = |p: usize| -> Option<usize> {
                                    if p == base + map[0].2 {
                                        return Some(s.text.len());
                                    }
                                    map.iter().find(|x| base + x.1 == p).map(|x| x.0 as usize)
                                };
                                if let (Some(a), Some(b)) = (back(d.1), back(d.2)) {
                                    marks.push((d.0, a, b));
                                    ok = true;
                                }
                            }
                            if !ok {
                                marks.push((9999, 0, 0));
                                println!("UNMAPPED {c:?} imported={imported} {q:?}: {l}\n    {text:?}");
                            }
                        }
                        marks.sort();
                        if first.is_none() {
                            first = Some(marks.clone());
                        }
                        seen.entry(format!("{marks:?}")).or_insert((marks, vec![])).1.push(format!("{c:?} imported={imported} {m} {q:?}"));
                    }
                }
            }
        }
        if seen.len() > 1 {
            println!("DIFFERS {line}");
            for (k, (_, v)) in &seen {
                println!("    {k}: {} contexts: {}", v.len(), v.iter().take(3).cloned().collect::<Vec<_>>().join(" / "));
            }
        }
        let marks = first.unwrap();
        // nested printing
        let mut ins: Vec<(usize, i32, String)> = vec![];
        let mut ms = marks.clone();
        ms.sort_by_key(|m| (m.1, std::cmp::Reverse(m.2)));
        for (c, a, b) in &ms {
            ins.push((*a, 1, format!("⟪{c}|")));
            ins.push((*b, 0, "⟫".into()));
        }
        let mut t = String::new();
        for i in 0..=s.text.len() {
            for (p, o, x) in &ins {
                if *p == i && *o == 0 {
                    t += x;
                }
            }
            for (p, o, x) in &ins {
                if *p == i && *o == 1 {
                    t += x;
                }
            }
            if let Some(c) = s.text[i..].chars().next() {
                t.push(c);
            }
        }
        out += &format!("{}|{t}\n", &line[..1]);
    }
    std::fs::write(std::env::args().nth(1).unwrap_or("/tmp/catalog.txt".into()), out).unwrap();
}
