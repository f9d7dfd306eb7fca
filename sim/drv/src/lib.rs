//! Driver shared by all checks: process model, seeded search, minimisation, replay, evidence.
//!
//! driver process (threads, real time)
//!   └─ N zygotes (single threaded, address space not randomised, never run code under test)
//!        └─ one forked child per simulated run: every run starts from the same process image
//!             └─ optional oracle server, forked before the run: computes reference answers, one
//!                further fork per question, so that no process-wide state of the run leaks into them
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod oracle;
pub mod rng;
pub use rng::Rng;

#[global_allocator]
static ALLOC: simk::SimAlloc = simk::SimAlloc::new();

/// Schedule part of a scenario.  `devs: None`: draw the schedule from `seed`; `Some`: replay these deviations.
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Sched {
    pub seed: u64,
    pub mean_gap: u32,
    pub stall_permille: u32,
    pub spurious_permille: u32,
    pub max_stall_ns: u64,
    pub entropy: u64,
    /// (step, kind, arg)
    pub devs: Option<Vec<(u64, u32, u64)>>,
}
impl Sched {
    pub fn sequential(entropy: u64) -> Self {
        Sched { entropy, devs: Some(vec![]), ..Default::default() }
    }
    pub fn random(r: &mut Rng) -> Self {
        Sched {
            seed: r.next(),
            mean_gap: *r.pick(&[3, 20, 100, 400, 2000, 8000, 30000]),
            stall_permille: *r.pick(&[0, 0, 20, 200]),
            spurious_permille: *r.pick(&[0, 0, 50]),
            max_stall_ns: *r.pick(&[1_000_000, 100_000_000, 3_000_000_000]),
            entropy: r.next(),
            devs: None,
        }
    }
    pub fn cfg(&self, max_steps: u64) -> (simk::Cfg, Vec<simk::Dev>) {
        let devs: Vec<simk::Dev> =
            self.devs.iter().flatten().map(|&(step, kind, arg)| simk::Dev { step, kind, pad: 0, arg }).collect();
        (
            simk::Cfg {
                seed: self.seed,
                mode: match &self.devs {
                    None => 1,
                    Some(d) if d.is_empty() => 0,
                    Some(_) => 2,
                },
                mean_gap: self.mean_gap,
                stall_permille: self.stall_permille,
                spurious_permille: self.spurious_permille,
                max_stall_ns: self.max_stall_ns,
                max_steps,
                entropy: self.entropy,
                epoch_ns: 1_700_000_000 * 1_000_000_000,
            },
            devs,
        )
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Violation {
    /// stable class of the failure: minimisation keeps it
    pub class: String,
    pub detail: String,
}
impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        Violation { class: class.into(), detail: detail.into() }
    }
}

/// What a simulated run reports back.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub devs: Vec<(u64, u32, u64)>,
    pub trace_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub sim_ns: u64,
    /// fault kind -> times it fired
    pub faults: BTreeMap<String, u64>,
    /// "this rare condition was reached" probes and other counters
    pub probes: BTreeMap<String, u64>,
    /// number of oracle comparisons made
    pub comparisons: u64,
    /// whether the run did something that counts
    pub nontrivial: bool,
    /// short description of the case, for evidence samples
    pub summary: String,
}
impl RunOut {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(Violation::new(class, detail));
        }
    }
}

// ---------------------------------------------------------------- running inside the child

struct Global(std::cell::UnsafeCell<Option<RunOut>>);
unsafe impl Sync for Global {}
static CURRENT: Global = Global(std::cell::UnsafeCell::new(None));
/// Class reported when the simulation deadlocks / runs out of steps.
static SHARED: AtomicU64 = AtomicU64::new(0);
const SHARED_LEN: usize = 256 << 20;

/// Access to the report of the run in progress; only one simulated thread runs at a time.
pub fn out<R>(f: impl FnOnce(&mut RunOut) -> R) -> R {
    let _fr = simk::Frozen::new();
    // SAFETY: simulated threads run one at a time and are not preempted while frozen.
    let slot = unsafe { &mut *CURRENT.0.get() };
    f(slot.get_or_insert_with(RunOut::default))
}
fn finish_stats(o: &mut RunOut) {
    let s = simk::stats();
    o.trace_hash = s.trace_hash;
    o.steps = s.steps;
    o.switches = s.switches;
    o.preemptions = s.preemptions;
    o.threads = s.threads;
    o.sim_ns = s.now_ns;
    o.fault("clock_stall", s.stalls);
    o.fault("spurious_wakeup", s.spurious);
    o.devs = simk::devs().iter().map(|d| (d.step, d.kind, d.arg)).collect();
}
extern "C" fn on_fatal(reason: i32) {
    out(|o| {
        let name = match reason {
            simk::DEADLOCK => "deadlock",
            simk::STEPS => "no-progress",
            _ => "crash-point",
        };
        o.fail(name, format!("the simulation stopped: {name}"));
        finish_stats(o);
        publish(&serde_json::to_vec(o).unwrap_or_default());
    });
    unsafe { libc::_exit(0) }
}
fn publish(bytes: &[u8]) {
    let base = SHARED.load(Ordering::Relaxed) as *mut u8;
    if base.is_null() {
        return;
    }
    unsafe {
        let n = bytes.len().min(SHARED_LEN - 8);
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), base.add(8), n);
        std::ptr::write_volatile(base as *mut u64, n as u64);
    }
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub message: String,
    pub location: String,
    pub thread: i32,
}
struct Panics(std::cell::UnsafeCell<Vec<PanicInfo>>);
unsafe impl Sync for Panics {}
static PANICS: Panics = Panics(std::cell::UnsafeCell::new(Vec::new()));
/// Every panic seen so far in this process (simulated threads run one at a time).
pub fn panics() -> Vec<PanicInfo> {
    let _f = simk::Frozen::new();
    unsafe { (*PANICS.0.get()).clone() }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _f = simk::Frozen::new();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "Box<dyn Any>".into());
        let location = info.location().map(|l| format!("{}:{}", short_path(l.file()), l.line())).unwrap_or_default();
        unsafe { (*PANICS.0.get()).push(PanicInfo { message, location, thread: simk::thread_id() }) };
    }));
}
fn short_path(p: &str) -> String {
    match p.find("/crates/") {
        Some(i) => p[i + 1..].to_string(),
        None => match p.rfind("/src/") {
            Some(i) => {
                let head = &p[..i];
                let k = head.rfind('/').map(|k| k + 1).unwrap_or(0);
                p[k..].to_string()
            }
            None => p.to_string(),
        },
    }
}

/// Runs `f` as simulated thread 0 on a fresh OS thread (so that its thread-local hash keys come from
/// the simulated entropy source) with everything it spawns under the simulator's schedule.
pub fn simulate<F>(sched: &Sched, max_steps: u64, f: F) -> RunOut
where
    F: FnOnce() + Send + 'static,
{
    simk::set_fatal(on_fatal);
    install_panic_hook();
    let (cfg, devs) = sched.cfg(max_steps);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            simk::begin(&cfg, &devs);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                let p = panics();
                out(|o| {
                    let d = p.last().map(|p| format!("{} at {}", p.message, p.location)).unwrap_or_default();
                    o.fail("harness-panic", d)
                });
            }
            simk::end();
        })
        .expect("thread");
    let _ = h.join();
    out(|o| {
        finish_stats(o);
        std::mem::take(o)
    })
}

// ---------------------------------------------------------------- zygote

/// Serve requests on stdin: fork a child per request, which runs `handler`.
fn zygote_main(handler: fn(&[u8]) -> Vec<u8>) -> ! {
    unsafe {
        let shared = libc::mmap(
            std::ptr::null_mut(),
            SHARED_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        ) as *mut u8;
        let reqbuf = libc::mmap(
            std::ptr::null_mut(),
            SHARED_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        ) as *mut u8;
        SHARED.store(shared as u64, Ordering::Relaxed);
        let read_n = |p: *mut u8, n: usize| -> bool {
            let mut k = 0;
            while k < n {
                let r = libc::read(0, p.add(k) as *mut libc::c_void, n - k);
                if r <= 0 {
                    return false;
                }
                k += r as usize;
            }
            true
        };
        let write_n = |p: *const u8, n: usize| {
            let mut k = 0;
            while k < n {
                let r = libc::write(1, p.add(k) as *const libc::c_void, n - k);
                if r <= 0 {
                    libc::_exit(3);
                }
                k += r as usize;
            }
        };
        let mut len = [0u8; 8];
        loop {
            if !read_n(len.as_mut_ptr(), 8) {
                libc::_exit(0);
            }
            let n = u64::from_le_bytes(len) as usize;
            if n > SHARED_LEN || !read_n(reqbuf, n) {
                libc::_exit(0);
            }
            *(shared as *mut u64) = 0;
            let pid = libc::fork();
            if pid == 0 {
                libc::setpgid(0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(120);
                let dn = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(dn, 0);
                libc::dup2(dn, 1);
                let req = std::slice::from_raw_parts(reqbuf, n);
                let resp = handler(req);
                publish(&resp);
                libc::_exit(0);
            }
            let mut st: i32 = 0;
            if pid > 0 {
                while libc::waitpid(pid, &mut st, 0) < 0 {}
                libc::kill(-pid, libc::SIGKILL);
            } else {
                st = -1;
            }
            let m = *(shared as *const u64);
            write_n((st as i64).to_le_bytes().as_ptr(), 8);
            write_n(m.to_le_bytes().as_ptr(), 8);
            write_n(shared.add(8), m as usize);
            // give the pages back
            libc::madvise(shared as *mut libc::c_void, SHARED_LEN, libc::MADV_REMOVE);
        }
    }
}

/// Keep a zygote, and the runs it forks, on one processor: their threads run one at a time anyway, and handing the
/// token from processor to processor costs more than running them.
fn pin(pid: u32) {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[NEXT.fetch_add(1, Ordering::Relaxed) as usize % cpus.len()], &mut one);
        libc::sched_setaffinity(pid as libc::pid_t, std::mem::size_of_val(&one), &one);
    }
}

struct Zygote {
    child: Child,
}
impl Zygote {
    fn new() -> Self {
        let exe = std::env::current_exe().expect("current_exe");
        let child = Command::new("/proc/self/exe")
            .arg0_compat(&exe)
            .arg("--zygote")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn zygote");
        pin(child.id());
        Zygote { child }
    }
    fn call(&mut self, req: &[u8]) -> (i64, Vec<u8>) {
        let mut go = || -> std::io::Result<(i64, Vec<u8>)> {
            let w = self.child.stdin.as_mut().unwrap();
            w.write_all(&(req.len() as u64).to_le_bytes())?;
            w.write_all(req)?;
            w.flush()?;
            let r = self.child.stdout.as_mut().unwrap();
            let mut b = [0u8; 8];
            r.read_exact(&mut b)?;
            let st = i64::from_le_bytes(b);
            r.read_exact(&mut b)?;
            let mut v = vec![0u8; u64::from_le_bytes(b) as usize];
            r.read_exact(&mut v)?;
            Ok((st, v))
        };
        match go() {
            Ok(x) => x,
            Err(e) => {
                eprintln!("harness error: zygote died: {e}");
                std::process::exit(3)
            }
        }
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
trait Arg0 {
    fn arg0_compat(&mut self, p: &std::path::Path) -> &mut Self;
}
impl Arg0 for Command {
    fn arg0_compat(&mut self, p: &std::path::Path) -> &mut Self {
        use std::os::unix::process::CommandExt;
        self.arg0(p)
    }
}

// ---------------------------------------------------------------- families

/// A family of simulated runs that decides one property.
pub trait Family: Sync + Send + 'static {
    type Scn: Serialize + DeserializeOwned + Clone + Send + Sync + 'static;
    /// property id
    fn id(&self) -> &'static str;
    /// Derive a scenario from one integer.
    fn generate(&self, seed: u64, index: u64) -> Self::Scn;
    /// Execute it (in the forked child).
    fn run(&self, scn: &Self::Scn) -> RunOut;
    /// Smaller candidates, most aggressive first.
    fn shrink(&self, scn: &Self::Scn) -> Vec<Self::Scn>;
    fn sched<'a>(&self, scn: &'a mut Self::Scn) -> Option<&'a mut Sched>;
    /// number of runs for (quick, thorough)
    fn budget(&self) -> (u64, u64);
    fn rule(&self) -> String;
    fn real_and_stub(&self) -> (Vec<&'static str>, Vec<&'static str>);
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// probes that must be non-zero for the run to have meant anything
    fn required_probes(&self) -> Vec<&'static str> {
        vec![]
    }
}

trait Erased: Sync + Send {
    fn id(&self) -> &'static str;
    fn run_json(&self, scn: &[u8]) -> Vec<u8>;
    fn main(&self, args: &Args) -> i32;
}
impl<F: Family> Erased for F {
    fn id(&self) -> &'static str {
        Family::id(self)
    }
    fn run_json(&self, scn: &[u8]) -> Vec<u8> {
        let s: F::Scn = serde_json::from_slice(scn).expect("scenario");
        serde_json::to_vec(&self.run(&s)).unwrap()
    }
    fn main(&self, args: &Args) -> i32 {
        drive(self, args)
    }
}
pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub replay: Option<String>,
    pub runs: Option<u64>,
    pub digest: bool,
    pub secs: Option<u64>,
    pub verif: String,
    pub only: Option<u64>,
}
static FAMILIES: Mutex<Vec<&'static dyn Erased>> = Mutex::new(Vec::new());
pub struct Registry {
    list: Vec<&'static dyn Erased>,
}
impl Default for Registry {
    fn default() -> Self {
        Self::new()
    }
}
impl Registry {
    pub fn new() -> Self {
        Registry { list: vec![] }
    }
    pub fn add<F: Family>(mut self, f: F) -> Self {
        self.list.push(Box::leak(Box::new(f)));
        self
    }
    /// Entry point of every check binary.
    pub fn main(self) -> ! {
        *FAMILIES.lock().unwrap() = self.list.clone();
        let argv: Vec<String> = std::env::args().collect();
        if argv.get(1).map(String::as_str) == Some("--zygote") {
            unsafe {
                // same address-space layout in every process
                if libc::personality(0xffffffff) & libc::ADDR_NO_RANDOMIZE == 0 {
                    libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
                    let p = libc::personality(0xffffffff);
                    if p & libc::ADDR_NO_RANDOMIZE != 0 {
                        let a0 = c"simcheck";
                        let a1 = c"--zygote";
                        let av = [a0.as_ptr(), a1.as_ptr(), std::ptr::null()];
                        // a fixed environment: its size shifts the stack
                        let e0 = c"PATH=/usr/bin:/bin";
                        let ev = [e0.as_ptr(), std::ptr::null()];
                        libc::execve(c"/proc/self/exe".as_ptr(), av.as_ptr(), ev.as_ptr());
                    }
                }
            }
            zygote_main(|req| {
                let k = req.iter().position(|&b| b == b'\n').expect("request");
                let id = std::str::from_utf8(&req[..k]).expect("utf8");
                let fam = FAMILIES.lock().unwrap().clone();
                let f = fam.iter().find(|f| f.id() == id).expect("family");
                f.run_json(&req[k + 1..])
            });
        }
        simk::use_native_allocator();
        let mut a = Args {
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            workers: 8,
            replay: None,
            runs: None,
            digest: false,
            secs: None,
            verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
            only: None,
        };
        let mut id = None;
        let mut it = argv.into_iter().skip(1);
        while let Some(x) = it.next() {
            match x.as_str() {
                "--tier" => a.tier = it.next().unwrap(),
                "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
                "--workers" => a.workers = it.next().unwrap().parse().unwrap(),
                "--replay" => a.replay = it.next(),
                "--runs" => a.runs = it.next().unwrap().parse().ok(),
                "--secs" => a.secs = it.next().unwrap().parse().ok(),
                "--only" => a.only = it.next().unwrap().parse().ok(),
                "--digest" => a.digest = true,
                _ => id = Some(x),
            }
        }
        let id = id.unwrap_or_else(|| {
            eprintln!("usage: CHECK PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]");
            std::process::exit(2)
        });
        let Some(f) = self.list.iter().find(|f| f.id() == id) else {
            eprintln!("no such property here: {id}");
            std::process::exit(2)
        };
        std::process::exit(f.main(&a))
    }
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "S: Serialize + DeserializeOwned")]
struct ReplayFile<S> {
    property: String,
    seed: u64,
    index: u64,
    violation: Violation,
    trace_hash: u64,
    scenario: S,
}
#[derive(Deserialize, Clone)]
struct Known {
    property: String,
    id: String,
    what: String,
    /// a violation is this finding when its class equals `class` and its detail contains `detail`
    class: String,
    detail: String,
    /// file (relative to /verif) with the scenario that shows it
    replay: String,
}
#[derive(Deserialize, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<Known>,
}

fn run_one<F: Family>(f: &F, z: &mut Zygote, scn: &F::Scn) -> RunOut {
    let mut req = format!("{}\n", Family::id(f)).into_bytes();
    req.extend(serde_json::to_vec(scn).unwrap());
    let (st, bytes) = z.call(&req);
    if bytes.is_empty() {
        let mut o = RunOut::default();
        let sig = (st & 0x7f) as i32;
        if sig == libc::SIGALRM {
            o.fail("hang", "the run did not end within 120 s of real time (no scheduling point was reached)");
        } else if st >= 0 && (st & 0x7f) == 0 {
            o.fail("harness-exit", format!("the run's process exited with status {}", (st >> 8) & 0xff));
        } else {
            o.fail("process-abort", format!("the run's process was ended by signal {sig} (abort, stack overflow or memory fault)"));
        }
        return o;
    }
    match serde_json::from_slice(&bytes) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("harness error: bad report from a run: {e}");
            std::process::exit(3)
        }
    }
}

fn minimise<F: Family>(f: &F, z: &mut Zygote, scn: F::Scn, first: &RunOut, limit: Duration) -> (F::Scn, RunOut, u64) {
    let t0 = Instant::now();
    let class = first.violation.as_ref().unwrap().class.clone();
    let mut best = scn;
    let mut best_out = first.clone();
    let mut tries = 0u64;
    // `test` returns the scenario with its schedule pinned to what actually happened
    let mut test = |s: &F::Scn, z: &mut Zygote| -> Option<(F::Scn, RunOut)> {
        tries += 1;
        let o = run_one(f, z, s);
        if o.violation.as_ref().map(|v| v.class == class).unwrap_or(false) {
            Some((s.clone(), o))
        } else {
            None
        }
    };
    // 1. the plain schedule may be enough
    let mut s = best.clone();
    if let Some(sc) = f.sched(&mut s) {
        if sc.devs.as_ref().map(|d| !d.is_empty()).unwrap_or(true) {
            sc.devs = Some(vec![]);
            if let Some((b, o)) = test(&s, z) {
                best = b;
                best_out = o;
            }
        }
    }
    // 2. shrink operations; a random schedule is retried under a few seeds
    let mut progress = true;
    while progress && t0.elapsed() < limit {
        progress = false;
        for cand in f.shrink(&best) {
            if t0.elapsed() > limit {
                break;
            }
            let mut hit = test(&cand, z);
            if hit.is_none() {
                let mut c = cand.clone();
                let random = f.sched(&mut c).map(|s| s.devs.is_none()).unwrap_or(false);
                if random {
                    for k in 1..=4u64 {
                        let mut c = cand.clone();
                        if let Some(sc) = f.sched(&mut c) {
                            sc.seed = sc.seed.wrapping_add(k * 7919);
                        }
                        hit = test(&c, z);
                        if hit.is_some() {
                            break;
                        }
                    }
                }
            }
            if let Some((b, o)) = hit {
                best = b;
                best_out = o;
                progress = true;
                break;
            }
        }
    }
    // 3. pin the schedule, then drop deviations
    let mut s = best.clone();
    let pinned = match f.sched(&mut s) {
        Some(sc) if sc.devs.is_none() => {
            sc.devs = Some(best_out.devs.clone());
            true
        }
        Some(_) => true,
        None => false,
    };
    if pinned {
        if let Some((b, o)) = test(&s, z) {
            best = b;
            best_out = o;
            let get = |s: &mut F::Scn| f.sched(s).and_then(|s| s.devs.clone()).unwrap_or_default();
            let mut devs = get(&mut best);
            let mut chunk = devs.len().div_ceil(2).max(1);
            while !devs.is_empty() && t0.elapsed() < limit {
                let mut i = 0;
                let mut any = false;
                while i < devs.len() && t0.elapsed() < limit {
                    let mut d = devs.clone();
                    d.drain(i..(i + chunk).min(d.len()));
                    let mut s = best.clone();
                    f.sched(&mut s).unwrap().devs = Some(d.clone());
                    if let Some((b, o)) = test(&s, z) {
                        best = b;
                        best_out = o;
                        devs = d;
                        any = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 && !any {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
    }
    (best, best_out, tries)
}

fn is_harness_error(class: &str) -> bool {
    class.starts_with("harness")
}

fn drive<F: Family>(f: &F, args: &Args) -> i32 {
    let id = Family::id(f);
    let t0 = Instant::now();
    if let Some(path) = &args.replay {
        let text = match std::fs::read(path) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("cannot read {path}: {e}");
                return 2;
            }
        };
        let rf: ReplayFile<F::Scn> = serde_json::from_slice(&text).expect("replay file");
        let mut z = Zygote::new();
        let o = run_one(f, &mut z, &rf.scenario);
        return match &o.violation {
            Some(v) if v.class == rf.violation.class => {
                println!("replayed: {} (trace hash {:016x}, recorded {:016x})", v.class, o.trace_hash, rf.trace_hash);
                println!("{}", v.detail);
                println!("VIOLATION property={id} replay={path}");
                1
            }
            Some(v) => {
                println!("a different violation: {}: {}", v.class, v.detail);
                println!("VIOLATION property={id} replay={path}");
                1
            }
            None => {
                println!("no violation (trace hash {:016x}, recorded {:016x})", o.trace_hash, rf.trace_hash);
                0
            }
        };
    }
    if let Some(ix) = args.only {
        let scn = f.generate(args.seed, ix);
        println!("{}", serde_json::to_string_pretty(&scn).unwrap());
        let mut z = Zygote::new();
        let mut o = run_one(f, &mut z, &scn);
        o.devs.truncate(20);
        println!("{}", serde_json::to_string_pretty(&o).unwrap());
        return o.violation.is_some() as i32;
    }
    let (q, th) = f.budget();
    let thorough = args.tier == "thorough";
    let total = args.runs.unwrap_or(if thorough { th } else { q });
    let cap = Duration::from_secs(args.secs.unwrap_or(if thorough { 780 } else { 60 }));

    // known findings of this property
    let known: Vec<Known> = std::fs::read(format!("{}/known_findings.json", args.verif))
        .ok()
        .and_then(|b| serde_json::from_slice::<KnownFile>(&b).ok())
        .unwrap_or_default()
        .findings
        .into_iter()
        .filter(|k| k.property == id)
        .collect();
    let matches_known = |v: &Violation| known.iter().find(|k| k.class == v.class && v.detail.contains(&k.detail)).cloned();

    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    struct Agg {
        runs: u64,
        nontrivial: BTreeSet<u64>,
        hashes: BTreeSet<u64>,
        steps: u64,
        switches: u64,
        preemptions: u64,
        sim_ns: u64,
        max_threads: u64,
        comparisons: u64,
        faults: BTreeMap<String, u64>,
        probes: BTreeMap<String, u64>,
        samples: Vec<serde_json::Value>,
        known_hits: BTreeMap<String, u64>,
        violation: Option<(u64, Violation)>,
        digest: Vec<(u64, u64, u64)>,
    }
    let agg = Mutex::new(Agg {
        runs: 0,
        nontrivial: BTreeSet::new(),
        hashes: BTreeSet::new(),
        steps: 0,
        switches: 0,
        preemptions: 0,
        sim_ns: 0,
        max_threads: 0,
        comparisons: 0,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        samples: vec![],
        known_hits: BTreeMap::new(),
        violation: None,
        digest: vec![],
    });
    std::thread::scope(|sc| {
        for _ in 0..args.workers {
            let next = next.clone();
            let stop = stop.clone();
            let agg = &agg;
            let known = &matches_known;
            sc.spawn(move || {
                let mut z = Zygote::new();
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                        break;
                    }
                    let ix = next.fetch_add(1, Ordering::Relaxed);
                    if ix >= total {
                        break;
                    }
                    let scn = f.generate(args.seed, ix);
                    let o = run_one(f, &mut z, &scn);
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    a.hashes.insert(o.trace_hash);
                    if o.nontrivial {
                        a.nontrivial.insert(o.trace_hash);
                    }
                    a.steps += o.steps;
                    a.switches += o.switches;
                    a.preemptions += o.preemptions;
                    a.sim_ns += o.sim_ns;
                    a.max_threads = a.max_threads.max(o.threads);
                    a.comparisons += o.comparisons;
                    for (k, v) in &o.faults {
                        *a.faults.entry(k.clone()).or_insert(0) += v;
                    }
                    for (k, v) in &o.probes {
                        *a.probes.entry(k.clone()).or_insert(0) += v;
                    }
                    if args.digest {
                        let mut h = 0xcbf29ce484222325u64;
                        for b in serde_json::to_vec(&o).unwrap() {
                            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                        }
                        a.digest.push((ix, o.trace_hash, h));
                    }
                    if a.samples.len() < 4 && o.nontrivial {
                        a.samples.push(serde_json::json!({"index": ix, "summary": o.summary,
                            "steps": o.steps, "preemptions": o.preemptions, "trace_hash": format!("{:016x}", o.trace_hash)}));
                    }
                    if let Some(v) = o.violation {
                        if is_harness_error(&v.class) {
                            eprintln!("harness error in run {ix}: {}: {}", v.class, v.detail);
                            std::process::exit(3);
                        }
                        if let Some(k) = known(&v) {
                            *a.known_hits.entry(k.id).or_insert(0) += 1;
                        } else {
                            // keep the violation with the smallest index
                            if a.violation.as_ref().map(|(i, _)| ix < *i).unwrap_or(true) {
                                a.violation = Some((ix, v));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    if args.digest {
        a.digest.sort();
        for (i, t, h) in &a.digest {
            println!("{i} {t:016x} {h:016x}");
        }
    }
    let mut exit = 0;
    // listed findings: replayed, and reported while they still fail
    for k in &known {
        let path = format!("{}/{}", args.verif, k.replay);
        let Some(rf) = std::fs::read(&path).ok().and_then(|b| serde_json::from_slice::<ReplayFile<F::Scn>>(&b).ok()) else {
            eprintln!("harness error: cannot read the replay of known finding {}", k.id);
            return 3;
        };
        let mut z = Zygote::new();
        let o = run_one(f, &mut z, &rf.scenario);
        match o.violation {
            Some(v) if v.class == k.class && v.detail.contains(&k.detail) => {
                println!("KNOWN-FINDING: property={id} {} ({} runs of this search met it too)", k.what, a.known_hits.get(&k.id).unwrap_or(&0));
            }
            _ => println!("note: known finding {} no longer fails", k.id),
        }
    }
    let mut nviol = 0;
    if let Some((ix, v)) = &a.violation {
        nviol = 1;
        let mut z = Zygote::new();
        let scn = f.generate(args.seed, *ix);
        let mut first = run_one(f, &mut z, &scn);
        if first.violation.as_ref().map(|w| &w.class) != Some(&v.class) {
            // must not happen: one seed is one execution
            eprintln!("harness error: run {ix} did not reproduce: {:?} then {:?}", v, first.violation);
            return 3;
        }
        first.violation = Some(v.clone());
        let limit = if v.class == "hang" { Duration::from_secs(1) } else { Duration::from_secs(60) };
        let (best, o, tries) = minimise(f, &mut z, scn, &first, limit);
        let dir = format!("{}/replays", args.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{}-{ix}.json", args.seed);
        let v = o.violation.clone().unwrap_or_else(|| v.clone());
        let rf = ReplayFile { property: id.into(), seed: args.seed, index: *ix, violation: v.clone(), trace_hash: o.trace_hash, scenario: best };
        std::fs::write(&path, serde_json::to_vec_pretty(&rf).unwrap()).expect("write replay file");
        println!("seed {} run {ix}: {}", args.seed, v.class);
        println!("{}", v.detail);
        println!("minimised in {tries} runs; replay with: {} {id} --replay {path}", std::env::args().next().unwrap_or_default());
        println!("VIOLATION property={id} replay={path}");
        exit = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let (real, stub) = f.real_and_stub();
    let missing: Vec<&str> = f.required_probes().into_iter().filter(|p| !a.probes.contains_key(*p) && !a.faults.contains_key(*p)).collect();
    let ev = serde_json::json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": args.seed, "level": f.level(),
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": f.rule(),
            "samples": a.samples,
            "distinct_interleavings": a.hashes.len(),
            "interleaving_measure": "distinct hashes over the sequence of scheduling switches, thread starts and ends, file-system operations and workload events of a run",
            "oracle_comparisons": a.comparisons,
            "simulated_runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "scheduling_decisions": a.steps,
            "thread_switches": a.switches,
            "forced_preemptions": a.preemptions,
            "max_threads_in_a_run": a.max_threads,
            "faults_injected": a.faults,
            "probes": a.probes,
            "probes_at_zero": missing,
            "real_components": real,
            "stubbed_components": stub,
            "known_finding_hits": a.known_hits,
        },
        "assumptions": f.assumptions(),
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", args.verif));
    std::fs::write(format!("{}/evidence/{id}.json", args.verif), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{id} {}: {} runs, {} distinct interleavings, {} comparisons, {} preemptions, {:.1} s{}",
        args.tier,
        a.runs,
        a.hashes.len(),
        a.comparisons,
        a.preemptions,
        wall,
        if missing.is_empty() { String::new() } else { format!(", probes at zero: {missing:?}") }
    );
    a.samples.clear();
    exit
}
