//! Simulation of `cargo-cairo-m init`: real processes of the real program, whose file-system calls are
//! granted one at a time, in an order the simulator chooses, and fail, are cut short or end the process
//! where it decides.
#[path = "../../proj/src/world.rs"]
#[allow(dead_code)]
mod world;
use drv::{Family, Rng, RunOut, Sched};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use world::*;

#[derive(Clone, Serialize, Deserialize)]
struct Proc {
    /// directory it runs in
    cwd: String,
    /// the argument; a leading '/' stands for the root of the run
    name: String,
    /// (operation of this process, kind, argument)
    faults: Vec<(u64, u32, u64)>,
}
#[derive(Clone, Serialize, Deserialize)]
struct Scn {
    sched: Sched,
    tree: Tree,
    procs: Vec<Proc>,
    /// what another user of the directory does, at some point in between: make a directory, or a link to one
    others: Vec<(String, Option<String>)>,
}
const TEMPLATES: [(&str, &str); 9] = [
    ("Cargo.toml", "Cargo.toml"),
    ("cairom.toml", "cairom.toml"),
    ("gitignore", ".gitignore"),
    ("rust-toolchain.toml", "rust-toolchain.toml"),
    ("cargo-config.toml", ".cargo/config.toml"),
    ("README.md", "README.md"),
    ("lib.rs", "src/lib.rs"),
    ("fibonacci.cm", "src/fibonacci.cm"),
    ("integration_test.rs", "tests/integration_test.rs"),
];
const MORE: [(i32, &str); 3] = [(libc::ENOSPC, "disk_full"), (libc::EROFS, "read_only"), (libc::EDQUOT, "over_quota")];

struct Running {
    child: Child,
    sock: std::fs::File,
    ops: u64,
    hits: Vec<String>,
    /// waits at this operation
    at: Option<String>,
    code: Option<i32>,
    stderr: String,
}
fn program() -> PathBuf {
    // (in the zygote the name of the program is made up)
    std::fs::read_link("/proc/self/exe").expect("exe").with_file_name("cargo-cairo-m")
}
fn arg(name: &str) -> String {
    match name.strip_prefix('/') {
        Some(r) => format!("{}/{r}", root().display()),
        None => name.to_string(),
    }
}
fn start(p: &Proc) -> Running {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()), 0);
    }
    let theirs = fds[1];
    let mut c = Command::new(program());
    c.arg("init").arg("--").arg(arg(&p.name)).current_dir(root().join(os(&p.cwd))).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    c.env_clear()
        .env("LD_PRELOAD", env!("SIMK_PRELOAD_SO"))
        .env("SIMK_PLAN", format!("{}|0|7|", root().display()))
        .env("SIMK_CTL", "60")
        .env("RUST_BACKTRACE", "0")
        .env("PATH", "/usr/bin:/bin");
    unsafe {
        c.pre_exec(move || {
            if libc::dup2(theirs, 60) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = c.spawn().expect("harness: cannot start cargo-cairo-m");
    unsafe {
        drop(OwnedFd::from_raw_fd(theirs));
    }
    let sock = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    Running { child, sock, ops: 0, hits: vec![], at: None, code: None, stderr: String::new() }
}
impl Running {
    /// Up to the next operation, or the end.
    fn advance(&mut self) {
        let mut line = vec![];
        let mut b = [0u8];
        loop {
            match self.sock.read(&mut b) {
                Ok(1) if b[0] == b'\n' => {
                    self.at = Some(String::from_utf8_lossy(&line).into_owned());
                    return;
                }
                Ok(1) => line.push(b[0]),
                _ => break,
            }
        }
        self.at = None;
        let mut e = vec![];
        let _ = self.child.stderr.take().unwrap().read_to_end(&mut e);
        self.stderr = String::from_utf8_lossy(&e).into_owned();
        let st = self.child.wait().expect("wait");
        self.code = Some(st.code().unwrap_or(-st.signal().unwrap_or(1)));
    }
    fn grant(&mut self, kind: u32, a: u64) {
        let f = simk::FsFault { op: 0, kind, pad: 0, arg: a };
        let bytes = unsafe { std::slice::from_raw_parts(&f as *const _ as *const u8, std::mem::size_of::<simk::FsFault>()) };
        unsafe { libc::send(self.sock.as_raw_fd(), bytes.as_ptr() as *const _, bytes.len(), libc::MSG_NOSIGNAL) };
        self.ops += 1;
        self.advance();
    }
}
fn mixs(h: &mut u64, s: &str) {
    for b in s.bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
}
/// Every entry with its kind and content.
fn picture() -> BTreeMap<String, Node> {
    fn walk(d: &Path, r: &Path, m: &mut BTreeMap<String, Node>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = back(p.strip_prefix(r).unwrap());
            let Ok(md) = std::fs::symlink_metadata(&p) else { continue };
            let n = if md.is_dir() {
                walk(&p, r, m);
                Node::Dir
            } else if md.is_symlink() {
                Node::Link(back(&std::fs::read_link(&p).unwrap_or_default()))
            } else {
                Node::File(Content::Exact(String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).into_owned()))
            };
            m.insert(name, n);
        }
    }
    let mut m = BTreeMap::new();
    walk(&root(), &root(), &mut m);
    m
}
fn complete(d: &Path, name: &str) -> Result<(), String> {
    for (t, at) in TEMPLATES {
        let Ok(text) = std::fs::read_to_string(format!("/repo/crates/cargo-cairo-m/templates/{t}")) else { continue };
        let want = match t {
            "Cargo.toml" => text.replace("cairo-m-template", name),
            "cairom.toml" | "README.md" => text.replace("{{name}}", name),
            _ => text,
        };
        match std::fs::read_to_string(d.join(at)) {
            Err(e) => return Err(format!("{at}: {e}")),
            Ok(have) if have != want => return Err(format!("{at} has {} bytes that are not the {} expected ones", have.len(), want.len())),
            Ok(_) => {}
        }
    }
    let cargo: toml::Table = std::fs::read_to_string(d.join("Cargo.toml")).map_err(|e| e.to_string())?.parse().map_err(|e| format!("Cargo.toml: {e}"))?;
    let n = cargo.get("package").and_then(|p| p.get("name")).and_then(|n| n.as_str());
    if n != Some(name) {
        return Err(format!("Cargo.toml names {n:?}"));
    }
    let p = cairo_m_project::discover_project(&d.join("src")).map_err(|e| format!("{e:#}"))?.ok_or("no project")?;
    if p.name != name {
        return Err(format!("the project is called {:?}", p.name));
    }
    let db = cairo_m_compiler_semantic::SemanticDatabaseImpl::default();
    let k = cairo_m_compiler_semantic::db::crate_from_project(&db, p).map_err(|e| format!("it does not load: {:?}", e.all().first().map(|d| &d.message)))?;
    if !k.modules(&db).contains_key(&k.entry_point(&db)) {
        return Err(format!("no module {:?}", k.entry_point(&db)));
    }
    let diags = cairo_m_compiler_semantic::db::project_validate_semantics(&db, k);
    if diags.all().iter().any(|d| d.severity == cairo_m_compiler_diagnostics::DiagnosticSeverity::Error) {
        return Err(format!("it does not compile: {:?}", diags.all().first().map(|d| &d.message)));
    }
    Ok(())
}
/// Is the name one that a project can have at all?
fn valid(name: &str) -> Option<String> {
    let last = Path::new(name).file_name()?.to_str()?.to_string();
    if name.is_empty() || last.len() > 255 || last.contains(|c: char| c == '"' || c == '\\' || c.is_control()) { None } else { Some(last) }
}
struct F;
impl Family for F {
    type Scn = Scn;
    fn id(&self) -> &'static str {
        "P12"
    }
    fn generate(&self, seed: u64, index: u64) -> Scn {
        let mut r = Rng::new(seed, index);
        let mut tree = Tree::new();
        tree.insert("home".into(), Node::Dir);
        tree.insert("home/work".into(), Node::Dir);
        tree.insert("home/README.md".into(), Node::File(Content::Text(1, 40)));
        tree.insert("home/src".into(), Node::Dir);
        tree.insert("home/src/lib.rs".into(), Node::File(Content::Text(2, 40)));
        tree.insert("precious".into(), Node::Dir);
        tree.insert("precious/cairom.toml".into(), Node::File(Content::Text(3, 40)));
        tree.insert("precious/src/fibonacci.cm".into(), Node::File(Content::Text(4, 40)));
        let mut names: Vec<String> = [
            "proj", "proj", "proj", "proj", "a/b/proj", "a/proj", "./proj", "proj/", "../proj", "work/proj", "x/../proj", "proj/..", "proj/.", ".", "..", "", "/home/proj",
            "/precious", "q\"uote", "back\\slash", "ünï", "with space", "{{name}}", "cairo-m-template", "line\nbreak", "-dash", "--help", "src", "README.md", "README.md/proj",
            "link", "dangling", "../precious/../home/proj", "tab\tname", "it's", "[x]", "a#b", "toml = 3",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        names.push("n".repeat(300));
        names.push("n".repeat(200));
        if r.chance(1, 4) {
            tree.insert("home/proj".into(), if r.chance(1, 2) { Node::Dir } else { Node::File(Content::Text(5, 10)) });
        }
        if r.chance(1, 6) {
            tree.insert("home/proj/src/lib.rs".into(), Node::File(Content::Text(6, 10)));
            tree.remove("home/proj");
        }
        tree.insert("home/link".into(), Node::Link("../precious".into()));
        tree.insert("home/dangling".into(), Node::Link("../nowhere".into()));
        let n = *r.pick(&[1, 1, 2, 2, 3]);
        let common = r.pick(&names).clone();
        let mut procs = vec![];
        for _ in 0..n {
            let name = if r.chance(2, 3) { common.clone() } else { r.pick(&names).clone() };
            let mut faults = vec![];
            for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
                let op = r.below(34) as u64;
                let all: Vec<i32> = ERRNOS.iter().chain(&MORE).map(|e| e.0).collect();
                faults.push(match r.below(8) {
                    0 => (op, simk::FSF_CRASH, 0),
                    1 => (op, simk::FSF_TORN, r.next() % 3000),
                    2 => (op, simk::FSF_CRASH_AFTER, 0),
                    3 => (op, simk::FSF_SHORT, r.next() % 3000),
                    _ => (op, simk::FSF_ERRNO, *r.pick(&all) as u64),
                });
            }
            if r.chance(1, 6) {
                // the disk is full from here on
                let from = r.below(30) as u64;
                faults.extend((from..40).map(|o| (o, simk::FSF_ERRNO, libc::ENOSPC as u64)));
            }
            procs.push(Proc { cwd: "home".into(), name, faults });
        }
        let mut others = vec![];
        if r.chance(1, 3) {
            let at = r.pick(&["home/proj", "home/a", "home/a/b", "home/a/b/proj", "proj", "home/work/proj"]).to_string();
            others.push((at, if r.chance(1, 2) { Some("/precious".to_string()) } else { None }));
        }
        Scn { sched: Sched::random(&mut r), tree, procs, others }
    }
    fn run(&self, scn: &Scn) -> RunOut {
        build(&scn.tree);
        let mut o = RunOut { trace_hash: 0xcbf29ce484222325, ..Default::default() };
        let before = picture();
        let mut rng = Rng::new(scn.sched.seed, 0);
        let mut step = 0u64;
        let mut devs = vec![];
        let mut choose = |n: usize| -> usize {
            step += 1;
            let c = match &scn.sched.devs {
                None => {
                    // runs of one process, and switches
                    if rng.chance(1, 3) { rng.below(n) } else { 0 }
                }
                Some(d) => d.iter().find(|d| d.0 == step).map(|d| d.2 as usize % n).unwrap_or(0),
            };
            if c != 0 {
                devs.push((step, simk::DEV_SWITCH, c as u64));
            }
            c
        };
        let mut procs: Vec<Running> = scn.procs.iter().map(start).collect();
        for p in &mut procs {
            p.advance();
        }
        let mut others = scn.others.clone();
        let mut theirs: BTreeSet<String> = BTreeSet::new();
        let mut last = 0;
        loop {
            let mut ready: Vec<usize> = (0..procs.len()).filter(|i| procs[*i].at.is_some()).collect();
            if ready.is_empty() {
                break;
            }
            // the one that ran last comes first
            ready.sort_by_key(|i| (*i != last, *i));
            let n = ready.len() + !others.is_empty() as usize;
            let c = choose(n);
            o.steps += 1;
            if c == ready.len() {
                let (at, to) = others.remove(0);
                let p = root().join(os(&at));
                let ok = match &to {
                    None => std::fs::create_dir(&p).is_ok(),
                    Some(t) => std::os::unix::fs::symlink(root().join(os(t.trim_start_matches('/'))), &p).is_ok(),
                };
                if ok {
                    theirs.insert(at.clone());
                    o.fault(if to.is_some() { "link_made_by_another" } else { "directory_made_by_another" }, 1);
                }
                mixs(&mut o.trace_hash, &format!("other {at} {ok}"));
                continue;
            }
            let i = ready[c];
            if i != last {
                o.switches += 1;
                if procs[last].at.is_some() {
                    o.preemptions += 1;
                }
                last = i;
            }
            let p = &mut procs[i];
            let at = p.at.clone().unwrap();
            mixs(&mut o.trace_hash, &format!("{i} {at}"));
            let (kind, a) = scn.procs[i].faults.iter().find(|f| f.0 == p.ops).map(|f| (f.1, f.2)).unwrap_or((0, 0));
            let (what, _) = at.split_once(' ').unwrap_or((&at, ""));
            let name = match kind {
                simk::FSF_ERRNO => format!("{what}_{}", ERRNOS.iter().chain(&MORE).find(|e| e.0 == a as i32).map(|e| e.1).unwrap_or("other_error")),
                simk::FSF_SHORT if what == "write" => "short_write".into(),
                simk::FSF_TORN if what == "write" => "torn_write".into(),
                simk::FSF_CRASH => "crash_before_operation".into(),
                simk::FSF_CRASH_AFTER => "crash_after_operation".into(),
                _ => String::new(),
            };
            if !name.is_empty() {
                o.fault(&name, 1);
                mixs(&mut o.trace_hash, &name);
                p.hits.push(format!("{name} at {at}"));
            }
            p.grant(kind, a);
            if p.ops > 5000 {
                let _ = p.child.kill();
                o.fail("no-progress", format!("process {i} made 5000 file-system calls and did not end; last: {at}"));
                break;
            }
        }
        o.threads = procs.len() as u64;
        let after = picture();
        // what was there stays as it was
        for (p, n) in &before {
            if after.get(p) != Some(n) {
                o.fail("harmed", format!("{p:?} was {n:?} and is now {:?}", after.get(p)));
            }
        }
        // new files only in new directories
        for (p, n) in &after {
            if before.contains_key(p) || *n == Node::Dir || theirs.contains(p) {
                continue;
            }
            let mut d = Path::new(p).parent().map(|d| back(d)).unwrap_or_default();
            // the directory of the project is new, and nobody else's
            for (_, at) in TEMPLATES {
                if let Some(x) = p.strip_suffix(&format!("/{at}")) {
                    d = x.to_string();
                    break;
                }
            }
            if d.is_empty() || before.contains_key(&d) || theirs.contains(&d) {
                o.fail("intruded", format!("{p:?} was written into {d:?}, which was there before"));
            }
        }
        let mut winners: BTreeMap<PathBuf, usize> = BTreeMap::new();
        for (i, p) in procs.iter().enumerate() {
            let spec = &scn.procs[i];
            let note = || format!("init {:?} (process {i}); disturbances: {:?}; it said: {}", spec.name, p.hits, p.stderr.trim());
            let code = p.code.unwrap_or(0);
            mixs(&mut o.trace_hash, &format!("{code}"));
            o.comparisons += 1;
            let crashed = p.hits.iter().any(|h| h.starts_with("crash") || h.starts_with("torn"));
            if crashed {
                o.probe("killed");
                o.nontrivial = true;
                continue;
            }
            let errors = p.hits.iter().any(|h| !h.starts_with("short"));
            match code {
                0 if spec.name == "--help" => {}
                0 => {
                    let full = root().join(os(&spec.cwd)).join(arg(&spec.name));
                    let d = match full.canonicalize() {
                        Ok(d) => d,
                        Err(e) => {
                            o.fail("success-without-project", format!("{full:?}: {e}; {}", note()));
                            continue;
                        }
                    };
                    let rel = back(d.strip_prefix(root().canonicalize().unwrap()).unwrap_or(&d));
                    if before.contains_key(&rel) || theirs.contains(&rel) {
                        o.fail("success-over-existing", format!("{rel:?} was there before; {}", note()));
                    }
                    if let Err(e) = complete(&d, Path::new(&spec.name).file_name().and_then(|s| s.to_str()).unwrap_or("")) {
                        o.fail("success-but-incomplete", format!("{e}; {}", note()));
                    }
                    if let Some(j) = winners.insert(d.clone(), i) {
                        o.fail("two-successes", format!("processes {j} and {i} both made {rel:?}"));
                    }
                    o.probe("created");
                    o.nontrivial = true;
                    if errors {
                        o.probe("created_despite_errors");
                    }
                    if procs.len() > 1 {
                        o.probe("created_among_several");
                    }
                }
                c if c < 0 || c == 101 => o.fail("crash", format!("exit {c}; {}", note())),
                _ => {
                    if p.stderr.trim().is_empty() {
                        o.fail("silent-failure", note());
                    }
                    let alone = procs.len() == 1 && scn.others.is_empty();
                    // (a name of which every part is plain and free)
                    let plain = valid(&spec.name).is_some() && !spec.name.contains("..") && !spec.name.ends_with("/.") && !spec.name.starts_with('/') && !spec.name.starts_with("README");
                    let free = plain && std::fs::symlink_metadata(root().join(os(&spec.cwd)).join(&spec.name)).is_err();
                    let was = before.contains_key(&format!("{}/{}", spec.cwd, spec.name.trim_start_matches("./").trim_end_matches('/')));
                    if alone && p.hits.is_empty() && plain && !was {
                        o.fail("refused", format!("free: {free}; {}", note()));
                    }
                    if was {
                        o.probe("existing_target_refused");
                    }
                    if errors {
                        o.probe("error_reported");
                        o.nontrivial = true;
                    }
                }
            }
        }
        o.devs = devs;
        o.summary = format!("{} of {:?}, {} faults hit", procs.len(), scn.procs.iter().map(|p| &p.name).collect::<Vec<_>>(), procs.iter().map(|p| p.hits.len()).sum::<usize>());
        drop(procs);
        clean();
        o
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        for i in 0..s.procs.len() {
            if s.procs.len() > 1 {
                let mut u = s.clone();
                u.procs.remove(i);
                v.push(u);
            }
            for k in 0..s.procs[i].faults.len() {
                let mut u = s.clone();
                u.procs[i].faults.remove(k);
                v.push(u);
            }
        }
        for i in 0..s.others.len() {
            let mut u = s.clone();
            u.others.remove(i);
            v.push(u);
        }
        for k in s.tree.keys() {
            if k == "home" {
                continue;
            }
            let mut u = s.clone();
            u.tree.retain(|p, _| p != k && !p.starts_with(&format!("{k}/")));
            v.push(u);
        }
        v
    }
    fn sched<'a>(&self, s: &'a mut Scn) -> Option<&'a mut Sched> {
        Some(&mut s.sched)
    }
    fn budget(&self) -> (u64, u64) {
        (80_000, 8_000_000)
    }
    fn rule(&self) -> String {
        "a run counts when a process created a project (then compared file by file), reported an injected error, or was killed at a chosen operation; distinct by hash of the interleaved system-call trace".into()
    }
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["the cargo-cairo-m binary (clap, std::fs), 1 to 3 processes of it", "the kernel's tmpfs", "as oracle of a complete project: cairo-m-project, the semantic analysis"],
            vec!["the order of the processes' system calls, their failures, short and torn writes, crashes: simulated", "another user of the directory: simulated at system-call boundaries"],
        )
    }
    fn required_probes(&self) -> Vec<&'static str> {
        vec!["created", "created_among_several", "error_reported", "killed", "existing_target_refused"]
    }
}
fn main() {
    drv::Registry::new().add(F).main()
}
