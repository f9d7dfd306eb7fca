//! Simulation of what leaves the process: the compile and run programs as processes, and the trace files of a run.
#[path = "../../../sim/proj/src/world.rs"]
#[allow(dead_code)]
mod tree;
mod fam {
    pub mod tools;
    pub mod traces;
}
pub fn mixs(h: &mut u64, s: &str) {
    for b in s.bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
}
pub const MORE: [(i32, &str); 3] = [(libc::ENOSPC, "disk_full"), (libc::EROFS, "read_only"), (libc::EDQUOT, "over_quota")];
pub fn errname(e: i32) -> &'static str {
    tree::ERRNOS.iter().chain(&MORE).find(|x| x.0 == e).map(|x| x.1).unwrap_or("other_error")
}
pub type Faults = Vec<(u64, u32, u64)>;
/// Failures at random operations; some of them end the process.
pub fn faults(r: &mut drv::Rng, ops: usize, deadly: bool) -> Faults {
    let mut v: Faults = vec![];
    let all: Vec<i32> = tree::ERRNOS.iter().chain(&MORE).map(|e| e.0).collect();
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 4]) {
        let op = r.below(ops) as u64;
        v.push(match r.below(8) {
            0 if deadly => (op, simk::FSF_CRASH, 0),
            1 if deadly => (op, simk::FSF_TORN, r.next() % 20000),
            2 if deadly => (op, simk::FSF_CRASH_AFTER, 0),
            3 | 4 => (op, simk::FSF_SHORT, r.next() % 20000),
            _ => (op, simk::FSF_ERRNO, *r.pick(&all) as u64),
        });
    }
    if r.chance(1, 8) {
        let from = r.below(ops) as u64;
        v.extend((from..from + 20).map(|o| (o, simk::FSF_ERRNO, libc::ENOSPC as u64)));
    }
    if r.chance(1, 6) {
        let from = r.below(ops) as u64;
        v.extend((from..from + 20).map(|o| (o, simk::FSF_SHORT, r.next() % 300)));
    }
    v.sort();
    v.dedup_by_key(|f| f.0);
    v
}
pub fn shrink_faults(v: &Faults) -> Vec<Faults> {
    let mut r = vec![];
    if v.len() > 3 {
        r.push(v[..v.len() / 2].to_vec());
        r.push(v[v.len() / 2..].to_vec());
    }
    for k in 0..v.len() {
        let mut w = v.clone();
        w.remove(k);
        r.push(w);
    }
    r
}
/// Name of a fault that fired at an operation of this kind.
pub fn fault_name(kind: u32, a: u64, what: &str) -> Option<String> {
    Some(match kind {
        simk::FSF_ERRNO => format!("{what}_{}", errname(a as i32)),
        simk::FSF_SHORT if matches!(what, "read" | "write") => format!("short_{what}"),
        simk::FSF_TORN if what == "write" => "torn_write".into(),
        simk::FSF_CRASH => "crash_before_operation".into(),
        simk::FSF_CRASH_AFTER | simk::FSF_TORN => "crash_after_operation".into(),
        _ => return None,
    })
}
/// Does it make the operation fail (an interrupted call is made again)?
pub fn is_error(kind: u32, a: u64, what: &str) -> bool {
    kind == simk::FSF_ERRNO && !(a as i32 == libc::EINTR && matches!(what, "open" | "create" | "read" | "write"))
}
fn main() {
    drv::Registry::new().add(fam::traces::F).add(fam::tools::F).main();
}
