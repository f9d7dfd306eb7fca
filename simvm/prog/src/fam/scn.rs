//! Histories of a project: versions of a program, edits that lead from one to the next, compilations.
use crate::*;

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Op {
    /// Bring the project to version `k`, module after module in an order drawn from `order`; between the modules
    /// some are torn for a moment, and the half-edited project is compiled when `peek`.
    Load { k: usize, order: u64, torn: u8, peek: bool },
    /// One module loses its tail (until the next Load).
    Cut { module: usize, permille: usize },
    /// One line of a module is lost (until the next Load).
    Drop { module: usize, line: usize },
    /// The process is restarted: a new database from the current texts.
    Restart(u64),
    /// Compile at these levels, in as many threads when `parallel`; an edit may arrive meanwhile and be undone.
    Compile { levels: Vec<Lv>, parallel: bool, disturb: Option<u64> },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Version {
    pub prog: Prog,
    pub args: Vec<Vec<D>>,
    /// false: the change that led to it may have made it ill-typed
    pub typed: bool,
    /// contains operations that may fail
    pub failing: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Scn {
    pub sched: Sched,
    pub versions: Vec<Version>,
    pub ops: Vec<Op>,
    pub aux: u64,
    /// judge programs the known findings are about
    #[serde(default)]
    pub strict: bool,
}
fn tweak(r: &mut Rng, p: &Prog) -> Prog {
    let mut q = p.clone();
    let mut n = 0;
    for f in &mut q.funs {
        for_exprs(&mut f.body, &mut |e| {
            if let E::Felt(_) | E::U32(_) = e {
                n += 1
            }
        });
    }
    for _ in 0..r.range(1, 3) {
        let at = r.below(n.max(1));
        let v = *r.pick(&[0u32, 1, 2, 3, 5, 9, 17, 255, 65535, 65536, 2147483646]);
        let mut k = 0;
        for f in &mut q.funs {
            for_exprs(&mut f.body, &mut |e| {
                if let E::Felt(x) | E::U32(x) = e {
                    if k == at {
                        *x = v;
                    }
                    k += 1;
                }
            });
        }
    }
    q
}
pub fn random(r: &mut Rng, broken: bool) -> Scn {
    let sched = Sched::random(r);
    let arrays = r.chance(2, 3);
    let failing = r.chance(1, 3);
    let feat = r#gen::Feat {
        ret_arrays: arrays && r.chance(1, 2),
        alias: arrays && r.chance(1, 2),
        ptrs: arrays && r.chance(1, 2),
        arrays,
        failing,
        nested_arrays: arrays && r.chance(1, 3),
        modules: if r.chance(1, 2) { 4 } else { 1 },
    };
    let size = *r.pick(&[1, 1, 2, 2, 3, 4, 6]);
    let mut versions: Vec<Version> = vec![];
    let mut ops = vec![];
    let n = r.range(1, 4);
    for k in 0..n {
        let (prog, typed) = match (k, r.below(4)) {
            (0, _) | (_, 0) => (r#gen::random(r, feat, size), true),
            (_, 1) => (tweak(r, &versions[k - 1].prog), false),
            (_, _) => {
                let s = simpler(&versions[k - 1].prog);
                if s.is_empty() { (r#gen::random(r, feat, size), true) } else { (s[r.below(s.len())].clone(), false) }
            }
        };
        let args: Vec<Vec<D>> = (0..r.range(1, 3)).map(|_| prog.funs[0].params.iter().map(|q| r#gen::args(r, &prog, &q.1)).collect()).collect();
        versions.push(Version { prog, args, typed, failing });
        ops.push(Op::Load { k, order: r.next(), torn: if r.chance(1, 3) { r.range(1, 3) as u8 } else { 0 }, peek: r.chance(1, 3) });
        if broken && r.chance(1, 4) {
            ops.push(if r.chance(1, 2) { Op::Cut { module: r.below(4), permille: r.below(1000) } } else { Op::Drop { module: r.below(4), line: r.below(60) } });
        }
        if r.chance(1, 5) {
            ops.push(Op::Restart(r.next()));
        }
        let mut levels: Vec<Lv> = (0..r.range(1, 3)).map(|_| *r.pick(&LEVELS)).collect();
        if !broken {
            levels = vec![Lv::None, Lv::Standard];
            if r.chance(1, 2) {
                levels.reverse();
            }
        }
        ops.push(Op::Compile { levels, parallel: r.chance(1, 2), disturb: if r.chance(1, 4) { Some(r.next()) } else { None } });
    }
    Scn { sched, versions, ops, aux: r.next(), strict: false }
}
pub fn describe(s: &Scn) -> String {
    format!(
        "{} versions of a program of {} modules and {} functions, {} operations",
        s.versions.len(),
        s.versions[0].prog.modules.len(),
        s.versions[0].prog.funs.len(),
        s.ops.len()
    )
}
fn torn(t: &str, r: &mut Rng) -> String {
    let mut k = r.below(t.len() + 1);
    while !t.is_char_boundary(k) {
        k -= 1;
    }
    t[..k].to_string()
}
/// The history of one project, played against the engine; `judge` sees each compilation that ended.
pub fn play(s: &Scn, mut judge: impl FnMut(usize, &Texts, Option<&Version>, Lv, &Outcome, u64) -> bool) {
    let mut w: Option<World> = None;
    let mut current: Option<usize> = None;
    for (n, op) in s.ops.iter().enumerate() {
        let mut r = Rng::new(s.aux, n as u64);
        match op {
            Op::Load { k, order, torn: t, peek } => {
                let Some(v) = s.versions.get(*k) else { continue };
                let texts = render(&v.prog);
                let list = shuffled(&texts, *order);
                current = Some(*k);
                match &mut w {
                    None => w = Some(World::new(&list)),
                    Some(w) => {
                        let gone: Vec<String> = w.files.keys().filter(|m| !texts.contains_key(*m)).cloned().collect();
                        let late = r.chance(1, 2);
                        if !late {
                            for m in &gone {
                                w.remove(m);
                                out(|o| o.fault("module_removed", 1));
                            }
                        }
                        for (m, text) in &list {
                            if *t > 0 && r.chance(1, 2) {
                                for _ in 0..*t {
                                    w.set_text(m, torn(text, &mut r));
                                    out(|o| o.fault("torn_document", 1));
                                    if *peek {
                                        let _ = compile(&w.db, w.krate, *r.pick(&LEVELS));
                                        out(|o| o.probe("half_edited_project_compiled"));
                                    }
                                }
                            }
                            w.set_text(m, text.clone());
                            if *peek {
                                let _ = compile(&w.db, w.krate, *r.pick(&LEVELS));
                                out(|o| o.probe("half_edited_project_compiled"));
                            }
                        }
                        if late {
                            for m in &gone {
                                w.remove(m);
                                out(|o| o.fault("module_removed", 1));
                            }
                        }
                    }
                }
            }
            Op::Cut { module, permille } => {
                let Some(w) = &mut w else { continue };
                let names: Vec<String> = w.files.keys().cloned().collect();
                let m = &names[module % names.len()];
                let t = w.texts()[m].clone();
                let mut k = t.len() * permille / 1000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                w.set_text(m, t[..k].to_string());
                current = None;
                out(|o| o.fault("torn_document", 1));
            }
            Op::Drop { module, line } => {
                let Some(w) = &mut w else { continue };
                let names: Vec<String> = w.files.keys().cloned().collect();
                let m = &names[module % names.len()];
                let t = w.texts()[m].clone();
                let l: Vec<&str> = t.lines().collect();
                if !l.is_empty() {
                    let at = line % l.len();
                    let t: Vec<&str> = l.iter().enumerate().filter(|x| x.0 != at).map(|x| *x.1).collect();
                    w.set_text(m, t.join("\n"));
                    current = None;
                    out(|o| o.fault("lost_line", 1));
                }
            }
            Op::Restart(seed) => {
                if let Some(x) = &w {
                    w = Some(World::new(&shuffled(&x.texts(), *seed)));
                    out(|o| o.fault("restart", 1));
                }
            }
            Op::Compile { levels, parallel, disturb } => {
                let Some(w) = &mut w else { continue };
                let texts = w.texts();
                let mut got: Vec<(Lv, Option<Outcome>)> = vec![];
                if *parallel {
                    let hs: Vec<_> = levels
                        .iter()
                        .map(|l| {
                            let (db, krate, l) = (w.db.clone(), w.krate, *l);
                            std::thread::Builder::new()
                                .stack_size(64 << 20)
                                .spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compile(&db, krate, l))).ok())
                                .unwrap()
                        })
                        .collect();
                    if let Some(d) = disturb {
                        // somebody types while the compilation runs, and takes it back
                        let mut q = Rng::new(*d, 3);
                        std::thread::sleep(std::time::Duration::from_micros(*q.pick(&[0, 1, 100, 2000])));
                        let names: Vec<String> = w.files.keys().cloned().collect();
                        let m = q.pick(&names).clone();
                        let t = texts[&m].clone();
                        w.set_text(&m, torn(&t, &mut q));
                        w.set_text(&m, t);
                    }
                    for (l, h) in levels.iter().zip(hs) {
                        got.push((*l, h.join().ok().flatten()));
                    }
                    out(|o| {
                        if levels.len() > 1 {
                            o.probe("concurrent_compilations");
                        }
                    });
                } else {
                    for l in levels {
                        got.push((*l, Some(compile(&w.db, w.krate, *l))));
                    }
                }
                for (k, (l, o)) in got.into_iter().enumerate() {
                    let o = match o {
                        Some(o) => o,
                        None => {
                            out(|o| o.fault("compilation_cancelled", 1));
                            let o = compile(&w.db, w.krate, l);
                            out(|o| o.probe("compiled_after_cancellation"));
                            o
                        }
                    };
                    if !judge(n, &texts, current.map(|k| &s.versions[k]), l, &o, r.next().wrapping_add(k as u64)) {
                        return;
                    }
                }
            }
        }
    }
}
pub fn shrink(s: &Scn) -> Vec<Scn> {
    let mut v = vec![];
    for i in 0..s.ops.len() {
        let mut t = s.clone();
        t.ops.remove(i);
        v.push(t);
    }
    for i in 0..s.ops.len() {
        let mut t = s.clone();
        match &mut t.ops[i] {
            Op::Load { torn, peek, .. } if *torn > 0 || *peek => {
                *torn = 0;
                *peek = false;
                v.push(t);
            }
            Op::Compile { levels, parallel, disturb } => {
                for k in 0..levels.len() {
                    if levels.len() > 1 {
                        let mut t = s.clone();
                        if let Op::Compile { levels, .. } = &mut t.ops[i] {
                            levels.remove(k);
                        }
                        v.push(t);
                    }
                }
                if disturb.is_some() {
                    *disturb = None;
                    v.push(t);
                } else if *parallel {
                    *parallel = false;
                    v.push(t);
                }
            }
            _ => {}
        }
    }
    for (i, ver) in s.versions.iter().enumerate() {
        if ver.args.len() > 1 {
            for k in 0..ver.args.len() {
                let mut t = s.clone();
                t.versions[i].args.remove(k);
                v.push(t);
            }
        }
    }
    for (i, ver) in s.versions.iter().enumerate() {
        if !s.ops.iter().any(|o| matches!(o, Op::Load { k, .. } if *k == i)) {
            continue;
        }
        for p in simpler(&ver.prog) {
            let mut t = s.clone();
            t.versions[i].prog = p;
            t.versions[i].typed = false;
            v.push(t);
        }
    }
    v
}
