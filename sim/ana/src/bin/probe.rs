//! Development aid: `probe FILE...` shows what the analyser says about projects.  A file holds modules, each
//! introduced by a line `--- name`.
use ana::obs::*;
fn main() {
    drv::install_panic_hook();
    for f in std::env::args().skip(1) {
        let mut texts: Vec<(String, String)> = vec![];
        for l in std::fs::read_to_string(&f).unwrap().lines() {
            if let Some(n) = l.strip_prefix("--- ") {
                texts.push((n.into(), String::new()));
            } else if let Some(t) = texts.last_mut() {
                t.1 += l;
                t.1 += "\n";
            }
        }
        println!("== {f}");
        let mut qs = vec![Query::Batch, Query::Imports];
        for (m, _) in &texts {
            qs.push(Query::Module(m.clone()));
            qs.push(Query::Index(m.clone()));
            qs.push(Query::Format(m.clone()));
        }
        for q in qs {
            let s = Sess::new(&texts);
            let r = query(&s.db, s.krate, &q);
            if matches!(q, Query::Index(_)) && std::env::var("V").is_err() && !r.iter().any(|l| l.starts_with("PANIC")) {
                println!("{q:?}: {} lines", r.len());
            } else {
                println!("{q:?}:");
                for l in r {
                    println!("    {l}");
                }
            }
        }
    }
}
