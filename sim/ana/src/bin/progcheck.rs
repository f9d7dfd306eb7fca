//! Development aid: compares the model's predictions for random programs with the analyser, and shows
//! minimised disagreements.  `progcheck FROM COUNT SHOW`
use ana::obs::*;
use ana::prog;
type D = (u32, usize, usize);
fn diff(p: &prog::Prog) -> (Vec<D>, Vec<D>, String) {
    let (t, mut want, _) = prog::render(p);
    let s = Sess::new(&[("main".into(), t.clone())]);
    let lines = query(&s.db, s.krate, &Query::Batch);
    let mut have: Vec<D> = lines.iter().map(|l| parse_diag(l)).map(|d| (d.0, d.1, d.2)).collect();
    want.sort();
    have.sort();
    let minus = |a: &[D], b: &[D]| {
        let mut b = b.to_vec();
        a.iter().filter(|x| b.iter().position(|y| y == *x).map(|i| b.remove(i)).is_none()).cloned().collect::<Vec<_>>()
    };
    (minus(&want, &have), minus(&have, &want), t)
}
fn main() {
    if std::env::var("HOOK").is_ok() { drv::install_panic_hook(); }
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut shown = 0;
    let mut bad = 0;
    for i in a[0]..a[0] + a[1] {
        let mut r = drv::Rng::new(i, 77);
        let mut p = prog::random(&mut r, 1, i % 3 != 0);
        let (m, e, t) = diff(&p);
        if std::env::var("ALL").is_ok() {
            println!("{t}");
        }
        if m.is_empty() && e.is_empty() {
            continue;
        }
        bad += 1;
        if shown < a[2] {
            shown += 1;
            let class = |m: &[D], e: &[D]| (m.first().map(|d| d.0), e.first().map(|d| d.0));
            let c = class(&m, &e);
            'again: loop {
                for q in prog::shrink(&p) {
                    let (m, e, _) = diff(&q);
                    if class(&m, &e) == c {
                        p = q;
                        continue 'again;
                    }
                }
                break;
            }
            let (m, e, t) = diff(&p);
            println!("--- {i}\n{t}");
            for (w, v) in [("not reported", &m), ("reported", &e)] {
                for d in v {
                    println!("  {w}: {} {}..{} {:?}", d.0, d.1, d.2, t.get(d.1..d.2));
                }
            }
            let s = Sess::new(&[("main".into(), t.clone())]);
            for l in query(&s.db, s.krate, &Query::Batch) {
                println!("     {}", l.chars().take(200).collect::<String>());
            }
        }
    }
    println!("{bad} of {}", a[1]);
}
