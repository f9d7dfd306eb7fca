//! The compile and run programs, as processes: success means a complete result, whatever happens to their files.
use crate::tree::*;
use crate::*;
use cairo_m_common::{Program, parse_cli_arg};
use drv::{Family, Rng, RunOut, Sched, simulate};
use prog::lang::*;
use prog::world::{Lv, Outcome, World, compile, inputs, program_lines};
use serde::{Deserialize, Serialize};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
pub struct F;

#[derive(Clone, Serialize, Deserialize)]
pub enum Layout {
    /// a project, given by: its directory, its manifest's directory with a trailing slash, its entry file, a directory inside
    Project(u32),
    /// one file, no manifest
    Single,
    /// nothing at the path given
    Nothing,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct PScn {
    pub sched: Sched,
    pub prog: Prog,
    pub args: Vec<D>,
    pub layout: Layout,
    /// a character of the main module that is lost
    pub typo: Option<usize>,
    pub level: u8,
    /// None: standard output; otherwise below the root of the run
    pub output: Option<String>,
    pub old: bool,
    pub compiling: Faults,
    pub dirseed: u64,
    /// the program file loses its end before it is run
    pub cut: Option<usize>,
    pub entry: String,
    /// how arguments are written, and what is done to them
    pub style: u64,
    pub spoil: Option<String>,
    pub running: Faults,
}
#[derive(Default)]
struct Ran {
    code: i32,
    out: String,
    err: String,
    /// (name, was it an error, operation and path)
    hits: Vec<(String, bool, String)>,
    log: String,
}
impl Ran {
    fn errors(&self) -> bool {
        self.hits.iter().any(|h| h.1)
    }
    fn killed(&self) -> bool {
        self.hits.iter().any(|h| h.0.starts_with("crash") || h.0.starts_with("torn"))
    }
    fn stdout_failed(&self) -> bool {
        self.hits.iter().any(|h| h.1 && h.2.contains("(standard output)"))
    }
}
fn tool(name: &str, args: &[std::ffi::OsString], f: &Faults, dirseed: u64, entropy: u64) -> Ran {
    let exe = std::fs::read_link("/proc/self/exe").expect("exe").with_file_name(name);
    let log = format!("{}.log", root().display());
    let plan: Vec<String> = f.iter().take(64).map(|x| format!("{}:{}:{}", x.0, x.1, x.2)).collect();
    let mut c = Command::new(exe);
    c.args(args).current_dir(root().join("home")).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env_clear()
        .env("LD_PRELOAD", env!("SIMK_PRELOAD_SO"))
        .env("SIMK_PLAN", format!("{}|{dirseed}|{entropy}|{}", root().display(), plan.join(",")))
        .env("SIMK_LOG", &log)
        .env("SIMK_STDOUT", "1")
        .env("RUST_BACKTRACE", "0")
        .env("PATH", "/usr/bin:/bin");
    unsafe {
        c.pre_exec(|| {
            // deep recursion is not what is examined here; runaway programs are ended
            let l = libc::rlimit { rlim_cur: 512 << 20, rlim_max: 512 << 20 };
            libc::setrlimit(libc::RLIMIT_STACK, &l);
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let o = c.output().expect("harness: cannot start the program");
    // the name of the scratch directory is no part of a run
    let plain = |b: &[u8]| String::from_utf8_lossy(b).replace(root().to_str().unwrap(), "");
    let log_text = plain(&std::fs::read(&log).unwrap_or_default());
    let _ = std::fs::remove_file(&log);
    let mut r = Ran {
        code: o.status.code().unwrap_or(-o.status.signal().unwrap_or(1)),
        out: plain(&o.stdout),
        err: plain(&o.stderr),
        ..Default::default()
    };
    for l in log_text.lines() {
        let mut w = l.splitn(3, ' ');
        let (Some(n), Some(what), Some(path)) = (w.next().and_then(|n| n.parse::<u64>().ok()), w.next(), w.next()) else { continue };
        if let Some((_, kind, a)) = f.iter().take(64).find(|x| x.0 == n) {
            if let Some(name) = fault_name(*kind, *a, what) {
                r.hits.push((name, is_error(*kind, *a, what), format!("{what} {path}")));
            }
        }
    }
    r.log = log_text;
    r
}
/// An argument as one writes it.
fn written(p: &Prog, t: &Ty, d: &D, r: &mut Rng) -> String {
    let sp = |r: &mut Rng| if r.chance(1, 4) { " ".repeat(1 + r.below(2)) } else { String::new() };
    let list = |v: Vec<String>, open: &str, close: &str, r: &mut Rng| {
        let mut s = open.to_string();
        for (k, x) in v.iter().enumerate() {
            if k > 0 {
                s += ",";
            }
            s += &sp(r);
            s += x;
            s += &sp(r);
        }
        s + close
    };
    match (t, d) {
        (Ty::Felt, D::Felt(n)) if r.chance(1, 6) => format!("{}", *n as i64 - P as i64),
        (_, D::Felt(n)) | (_, D::U32(n)) => format!("{}{n}", if r.chance(1, 10) { "0" } else { "" }),
        (_, D::Bool(b)) => b.to_string(),
        (Ty::Tup(ts), D::Agg(v)) => {
            let v = ts.iter().zip(v).map(|(t, d)| written(p, t, d, r)).collect();
            if r.chance(1, 2) { list(v, "(", ")", r) } else { list(v, "[", "]", r) }
        }
        (Ty::St(k), D::Agg(v)) => {
            let v = p.structs[*k].fields.iter().zip(v).map(|(f, d)| written(p, &f.1, d, r)).collect();
            list(v, "{", "}", r)
        }
        (Ty::Arr(t, _), D::Arr(v)) => {
            let v = v.iter().map(|d| written(p, t, d, r)).collect();
            list(v, "[", "]", r)
        }
        _ => "0".into(),
    }
}
fn home(l: &Layout) -> (&'static str, String) {
    match l {
        Layout::Project(k) => ("home/proj/src", ["proj", "proj/", "proj/src/main.cm", "proj/src", "./proj"][*k as usize % 5].to_string()),
        Layout::Single => ("home/single", "single/main.cm".into()),
        Layout::Nothing => ("home/proj/src", "elsewhere/main.cm".into()),
    }
}
type Reference = (Result<Arc<Program>, String>, Option<Result<String, String>>);
impl Family for F {
    type Scn = PScn;
    fn id(&self) -> &'static str {
        "P18"
    }
    fn generate(&self, seed: u64, index: u64) -> PScn {
        let mut r = Rng::new(seed, index);
        let sched = Sched::sequential(r.next());
        let arrays = r.chance(1, 3);
        let f = prog::r#gen::Feat { ret_arrays: false, alias: false, ptrs: false, arrays, failing: r.chance(1, 5), nested_arrays: arrays && r.chance(1, 3), modules: *r.pick(&[1, 2, 3]) };
        let layout = match r.below(12) {
            0 => Layout::Nothing,
            1 | 2 if f.modules == 1 => Layout::Single,
            _ => Layout::Project(r.below(5) as u32),
        };
        let size = *r.pick(&[1, 2, 4]);
        let prog = prog::r#gen::random(&mut r, f, size);
        let args: Vec<D> = prog.funs[0].params.iter().map(|q| prog::r#gen::args(&mut r, &prog, &q.1)).collect();
        let output = match r.below(10) {
            0..=1 => None,
            2 => Some("home/missing/program.json".to_string()),
            3 => Some("home/proj".to_string()),
            4 => Some("home/out.d/prögram".to_string()),
            _ => Some("home/program.json".to_string()),
        };
        let compiling = if r.chance(1, 4) { vec![] } else { faults(&mut r, 50, true) };
        let running = if r.chance(1, 3) { vec![] } else { faults(&mut r, 8, true) };
        let spoil = if r.chance(1, 8) { Some(r.pick(&["", "(", "[1", "{1,", "1 2", "tru", "--", "0x10", "1.5", "99999999999999999999", "[1,2,3,4,5,6,7,8,9]", "💥", "-", "1,", "[]", "()"]).to_string()) } else { None };
        PScn {
            sched,
            args,
            layout,
            typo: if r.chance(1, 8) { Some(r.below(4000)) } else { None },
            level: r.below(2) as u8,
            output,
            old: r.chance(1, 3),
            compiling,
            dirseed: r.next(),
            cut: if r.chance(1, 6) { Some(r.below(20000)) } else { None },
            entry: if r.chance(1, 12) { r.pick(&["missing", "", "Entry", "entry "]).to_string() } else { "entry".into() },
            style: r.next(),
            spoil,
            running,
            prog,
        }
    }
    fn run(&self, s: &PScn) -> RunOut {
        let (dir, input) = home(&s.layout);
        let mut texts = render(&s.prog);
        if let Some(k) = s.typo {
            let m = texts.get_mut("main").expect("main");
            let mut v: Vec<char> = m.chars().collect();
            v.remove(k % v.len());
            *m = v.into_iter().collect();
        }
        let mut t = Tree::new();
        t.insert("home/out.d".into(), Node::Dir);
        t.insert("home/proj".into(), Node::Dir);
        t.insert("home/proj/cairom.toml".into(), Node::File(Content::Exact("name = \"proj\"\nversion = \"0.1.0\"\n".into())));
        if let Ok(text) = std::fs::read_to_string("/repo/crates/cargo-cairo-m/templates/cairom.toml") {
            t.insert("home/proj/cairom.toml".into(), Node::File(Content::Exact(text.replace("{{name}}", "proj").replace("fibonacci.cm", "main.cm"))));
        }
        for (m, x) in &texts {
            t.insert(format!("{dir}/{}.cm", m.replace("::", "/")), Node::File(Content::Exact(x.clone())));
        }
        if s.old {
            if let Some(o) = s.output.as_ref().filter(|o| o.contains("program") && !o.contains("missing")) {
                t.insert(o.clone(), Node::File(Content::Text(7, 3000)));
            }
        }
        build(&t);
        // what it should come to
        let slot: Arc<Mutex<Option<Reference>>> = Arc::new(Mutex::new(None));
        let (s2, slot2, list) = (s.clone(), slot.clone(), texts.clone().into_iter().collect::<Vec<_>>());
        let lv = if s.level == 0 { Lv::None } else { Lv::Standard };
        let mut rng = Rng::new(s.style, 3);
        let mut words: Vec<String> = s.prog.funs[0].params.iter().zip(&s.args).map(|(q, d)| written(&s.prog, &q.1, d, &mut rng)).collect();
        if let Some(x) = &s.spoil {
            if words.is_empty() {
                words.push(x.clone());
            } else {
                let k = rng.below(words.len());
                words[k] = x.clone();
            }
        }
        let words2 = words.clone();
        let mut o = simulate(&s.sched, 1_000_000_000, move || {
            let s = s2;
            let w = World::named(&list, if matches!(s.layout, Layout::Single) { "main" } else { "proj" });
            let c = match compile(&w.db, w.krate, lv) {
                Outcome::Done(c) => Ok(c),
                x => Err(x.lines().join("\n")),
            };
            let mut run = None;
            if let Ok(c) = &c {
                let ins = match s.spoil {
                    None => Ok(inputs(&s.prog, &s.args)),
                    // as the run program reads it
                    Some(_) => words2.iter().map(|w| parse_cli_arg(w).map_err(|e| e.to_string())).collect(),
                };
                run = Some(match ins {
                    Err(e) => Err(e),
                    Ok(ins) => {
                        cairo_m_runner::sim::set_step_budget(60_000);
                        let before = drv::panics().len();
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cairo_m_runner::run_cairo_program(c, &s.entry, &ins, Default::default()))) {
                            Ok(Ok(x)) => Ok(format!("Run succeeded and returned: {:?}\n", x.return_values)),
                            Ok(Err(e)) => Err(e.to_string()),
                            Err(_) => Err(drv::panics().get(before..).and_then(|p| p.last()).map(|p| format!("panic: {}", p.message)).unwrap_or_default()),
                        }
                    }
                });
            }
            *slot2.lock().unwrap() = Some((c, run));
        });
        if o.violation.is_some() {
            return o;
        }
        let Some((want, run)) = slot.lock().unwrap().take() else { return o };
        judge(s, &mut o, want, run, &input, words);
        o.summary = format!("project of {} functions, level {}, output {:?}, {} and {} failures planned", s.prog.funs.len(), s.level, s.output, s.compiling.len(), s.running.len());
        clean();
        o
    }
    fn shrink(&self, s: &PScn) -> Vec<PScn> {
        let mut v = vec![];
        for f in shrink_faults(&s.compiling) {
            v.push(PScn { compiling: f, ..s.clone() });
        }
        for f in shrink_faults(&s.running) {
            v.push(PScn { running: f, ..s.clone() });
        }
        if s.typo.is_some() {
            v.push(PScn { typo: None, ..s.clone() });
        }
        if s.cut.is_some() {
            v.push(PScn { cut: None, ..s.clone() });
        }
        if s.spoil.is_some() {
            v.push(PScn { spoil: None, ..s.clone() });
        }
        if s.old {
            v.push(PScn { old: false, ..s.clone() });
        }
        for p in simpler(&s.prog) {
            v.push(PScn { prog: p, ..s.clone() });
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut PScn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (40_000, 4_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a program was compiled and run by the two tools and compared, or an injected failure, a damaged program file or wrong arguments were refused; distinct by hash of the system-call traces and results".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["the cairo-m-compiler and cairo-m-runner binaries with all their crates", "project discovery", "the kernel's tmpfs"],
            vec!["failing, short, interrupted, torn file operations, full disks, crashes: simulated at the system calls", "clock and entropy: simulated", "JSON: serde_json instead of sonic-rs", "field arithmetic: stand-in"],
        )
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["compiled", "compiled_despite_disturbance", "compile_error_reported", "refused_source", "ran", "run_error_reported", "damaged_program_refused", "wrong_arguments_refused", "killed"]
    }
}
fn json_of(s: &str) -> Option<&str> {
    // warnings come first
    if s.starts_with('{') { Some(s) } else { s.find("\n{").map(|k| &s[k + 1..]) }
}
fn judge(s: &PScn, o: &mut RunOut, want: Result<Arc<Program>, String>, run: Option<Result<String, String>>, input: &str, words: Vec<String>) {
    let mut args: Vec<std::ffi::OsString> = vec!["--input".into(), input.into(), format!("--opt-level={}", s.level).into()];
    if let Some(x) = &s.output {
        args.push("-o".into());
        args.push(os(x.strip_prefix("home/").unwrap_or(x)));
    }
    let before = snapshot();
    let c = tool("cairo-m-compiler", &args, &s.compiling, s.dirseed, s.style);
    let after = snapshot();
    mixs(&mut o.trace_hash, &c.log);
    mixs(&mut o.trace_hash, &format!("{} {}", c.code, c.err));
    for h in &c.hits {
        o.fault(&h.0, 1);
    }
    if s.dirseed != 0 {
        o.fault("listing_order_changed", 1);
    }
    o.comparisons += 1;
    let lossy: String = c.err.chars().take(600).collect();
    let note = |d: String| format!("compile {args:?}: exit {}: {d}\nfailures: {:?}\nit said: {lossy}", c.code, c.hits);
    for (n, x) in &before {
        if Some(n) != s.output.as_ref() && after.get(n) != Some(x) {
            return o.fail("harmed", note(format!("{n:?} has changed")));
        }
    }
    for n in after.keys() {
        if Some(n) != s.output.as_ref() && !before.contains_key(n) {
            return o.fail("stray-file", note(format!("{n:?} was made")));
        }
    }
    let old = s.output.as_ref().and_then(|n| before.get(n).cloned()).flatten();
    let file = s.output.as_ref().and_then(|n| after.get(n).cloned()).flatten();
    let possible = !matches!(s.layout, Layout::Nothing) && want.is_ok() && s.output.as_ref().is_none_or(|x| x.contains("program.json") && !x.contains("missing") || x.contains("prögram"));
    let mut program: Option<Vec<u8>> = None;
    if c.killed() {
        o.probe("killed");
        o.nontrivial = true;
        program = file.clone().filter(|f| Some(f) != old.as_ref());
    } else if c.code == 0 {
        let Ok(w) = &want else {
            return o.fail("accepted", note(format!("the source has errors: {}", want.as_ref().err().unwrap().chars().take(600).collect::<String>())));
        };
        let text = match &s.output {
            None => json_of(&c.out).map(|t| t.as_bytes().to_vec()),
            Some(_) => file.clone(),
        };
        let Some(text) = text else { return o.fail("success-without-program", note("no program".into())) };
        match serde_json::from_slice::<Program>(&text) {
            Err(e) => return o.fail("success-but-broken", note(format!("{} bytes that are no program: {e}", text.len()))),
            Ok(p) => {
                let (mut a, mut b) = (program_lines(&p), program_lines(w));
                // where it came from is not part of what it does
                a.remove(0);
                b.remove(0);
                if a != b {
                    let d: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(5).chain(b.iter().filter(|x| !a.contains(x)).take(5)).collect();
                    return o.fail("success-but-wrong", note(format!("the program is another one: {d:?}")));
                }
            }
        }
        if let Some(x) = &s.output {
            if !c.out.contains("Compilation successful") {
                return o.fail("success-unsaid", note(format!("{x}: {:?}", c.out)));
            }
        }
        o.probe("compiled");
        if !c.hits.is_empty() {
            o.probe("compiled_despite_disturbance");
        }
        o.nontrivial = true;
        program = Some(text);
    } else {
        if c.code < 0 || c.code == 101 && !c.stdout_failed() {
            return o.fail("compile-crash", note(String::new()));
        }
        if c.err.trim().is_empty() {
            return o.fail("silent-failure", note(String::new()));
        }
        if possible && !c.errors() {
            return o.fail("refused", note(String::new()));
        }
        if want.is_err() {
            o.probe("refused_source");
            if file != old {
                return o.fail("refused-but-written", note("the output file has changed".into()));
            }
        }
        if c.errors() {
            o.probe("compile_error_reported");
            o.nontrivial = true;
        }
        program = file.filter(|f| Some(f) != old.as_ref()).or(program);
    }
    // what is there is run
    let (Ok(w), Some(mut text)) = (&want, program) else { return };
    if let Some(k) = s.cut {
        text.truncate(k % (text.len() + 1));
        o.fault("program_file_cut_short", 1);
    }
    let whole = serde_json::from_slice::<Program>(&text).is_ok_and(|p| program_lines(&p)[1..] == program_lines(w)[1..]);
    let at = root().join("home/run me.json");
    std::fs::write(&at, &text).expect("scratch file");
    let mut args: Vec<std::ffi::OsString> = vec!["run me.json".into(), "--entrypoint".into(), s.entry.clone().into()];
    if !words.is_empty() {
        args.push("--arguments".into());
        args.extend(words.iter().map(|w| w.into()));
    }
    let run = run.expect("run");
    if run.as_ref().is_err_and(|e| e.contains("step budget")) {
        o.probe("endless");
        return;
    }
    let c = tool("cairo-m-runner", &args, &s.running, 0, s.style ^ 1);
    mixs(&mut o.trace_hash, &c.log);
    mixs(&mut o.trace_hash, &format!("{} {} {}", c.code, c.out, c.err));
    for h in &c.hits {
        o.fault(&h.0, 1);
    }
    o.comparisons += 1;
    let lossy: String = c.err.chars().take(600).collect();
    let note = |d: String| format!("run {args:?}: exit {}: {d}\nfailures: {:?}\nit said: {lossy}\nprogram: {}", c.code, c.hits, if whole { "complete" } else { "incomplete" });
    if c.killed() {
        o.probe("killed");
        return;
    }
    if c.code == 0 {
        if !whole {
            return o.fail("ran-incomplete", note(c.out.clone()));
        }
        match &run {
            Err(e) => return o.fail("ran-anyway", note(format!("{:?}; expected: {e}", c.out))),
            Ok(x) if *x != c.out => return o.fail("wrong-output", note(format!("{:?} instead of {x:?}", c.out))),
            Ok(_) => {}
        }
        o.probe("ran");
        o.nontrivial = true;
    } else {
        let division = c.err.contains("0 has no inverse") && run.as_ref().is_err_and(|e| e.contains("0 has no inverse"));
        if c.code < 0 || c.code == 101 && !c.stdout_failed() && !division {
            return o.fail("run-crash", note(String::new()));
        }
        if c.err.trim().is_empty() {
            return o.fail("silent-failure", note(String::new()));
        }
        if c.out.contains("Run succeeded") && !c.stdout_failed() {
            return o.fail("failure-says-success", note(c.out.clone()));
        }
        if whole && run.is_ok() && !c.errors() {
            return o.fail("run-refused", note(String::new()));
        }
        if !whole {
            o.probe("damaged_program_refused");
            o.nontrivial = true;
        }
        if s.spoil.is_some() {
            o.probe("wrong_arguments_refused");
        }
        if c.errors() {
            o.probe("run_error_reported");
            o.nontrivial = true;
        }
    }
}
