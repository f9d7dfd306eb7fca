//! Rust face of the simulation kernel (simk.c) and the simulation allocator.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Dev {
    pub step: u64,
    pub kind: u32,
    pub pad: u32,
    pub arg: u64,
}
pub const DEV_SWITCH: u32 = 1;
pub const DEV_STALL: u32 = 2;
pub const DEV_SPURIOUS: u32 = 3;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct FsFault {
    pub op: u64,
    pub kind: u32,
    pub pad: u32,
    pub arg: u64,
}
pub const FSF_ERRNO: u32 = 1;
pub const FSF_SHORT: u32 = 2;
pub const FSF_CRASH: u32 = 3;
pub const FSF_CRASH_AFTER: u32 = 4;
pub const FSF_TORN: u32 = 5;
pub const FSF_HOOK: u32 = 6;
pub const FSF_HOOK_AFTER: u32 = 7;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg {
    pub seed: u64,
    pub mode: u32,
    pub mean_gap: u32,
    pub stall_permille: u32,
    pub spurious_permille: u32,
    pub max_stall_ns: u64,
    pub max_steps: u64,
    pub entropy: u64,
    pub epoch_ns: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub threads: u64,
    pub now_ns: u64,
    pub trace_hash: u64,
    pub fs_ops: u64,
    pub fs_faults: u64,
    pub ndevs: u64,
}

pub const DEADLOCK: i32 = 1;
pub const STEPS: i32 = 2;
pub const CRASHPOINT: i32 = 3;

extern "C" {
    fn simk_begin(cfg: *const Cfg, devs: *const Dev, n: usize);
    fn simk_end();
    fn simk_stats_get(out: *mut Stats);
    fn simk_devs_get(out: *mut Dev, cap: usize) -> usize;
    fn simk_set_fatal(cb: extern "C" fn(i32));
    fn simk_point();
    fn simk_yield();
    fn simk_calm();
    fn simk_mix(v: u64);
    fn simk_now() -> u64;
    fn simk_steps() -> u64;
    fn simk_self() -> i32;
    fn simk_freeze(on: i32);
    fn simk_fs_begin(root: *const std::ffi::c_char, rel: i32, dirseed: u64, f: *const FsFault, n: usize);
    fn simk_fs_end();
    fn simk_fs_alias(real: *const std::ffi::c_char);
    fn simk_fs_hook(cb: extern "C" fn(u64, u64) -> i32);
    fn simk_fs_ops() -> u64;
    fn simk_fs_log(out: *mut u8, cap: usize) -> usize;
    fn simk_fs_kind_count(k: i32) -> u64;
    fn simk_fs_nodtype(on: i32);
    fn simk_fs_hits(out: *mut u8, cap: usize) -> usize;
}

pub fn begin(cfg: &Cfg, devs: &[Dev]) {
    unsafe { simk_begin(cfg, devs.as_ptr(), devs.len()) }
}
pub fn end() {
    unsafe { simk_end() }
}
pub fn stats() -> Stats {
    let mut s = Stats::default();
    unsafe { simk_stats_get(&mut s) };
    s
}
pub fn devs() -> Vec<Dev> {
    let mut v = vec![Dev::default(); 65536];
    let n = unsafe { simk_devs_get(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    v
}
pub fn set_fatal(cb: extern "C" fn(i32)) {
    unsafe { simk_set_fatal(cb) }
}
#[inline]
pub fn point() {
    unsafe { simk_point() }
}
/// Faults stop: no stall and no spurious wakeup is injected from here on.
pub fn calm() {
    unsafe { simk_calm() }
}
pub fn yield_now() {
    unsafe { simk_yield() }
}
pub fn mix(v: u64) {
    unsafe { simk_mix(v) }
}
/// Virtual nanoseconds since the start of the run.
pub fn now() -> u64 {
    unsafe { simk_now() }
}
pub fn steps() -> u64 {
    unsafe { simk_steps() }
}
pub fn thread_id() -> i32 {
    unsafe { simk_self() }
}
/// Harness code between `freeze(true)` and `freeze(false)` is not a scheduling point.
pub fn freeze(on: bool) {
    unsafe { simk_freeze(on as i32) }
}
pub struct Frozen;
impl Frozen {
    pub fn new() -> Self {
        freeze(true);
        Frozen
    }
}
impl Default for Frozen {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Frozen {
    fn drop(&mut self) {
        freeze(false)
    }
}
pub fn fs_begin(root: &str, rel: bool, dirseed: u64, faults: &[FsFault]) {
    let c = std::ffi::CString::new(root).unwrap();
    unsafe { simk_fs_begin(c.as_ptr(), rel as i32, dirseed, faults.as_ptr(), faults.len()) }
}
/// What the code under test sees as the watched root is this directory (call after `fs_begin`).
pub fn fs_alias(real: &str) {
    let c = std::ffi::CString::new(real).unwrap();
    unsafe { simk_fs_alias(c.as_ptr()) }
}
pub fn fs_end() {
    unsafe { simk_fs_end() }
}
pub fn fs_hook(cb: extern "C" fn(u64, u64) -> i32) {
    unsafe { simk_fs_hook(cb) }
}
pub fn fs_ops() -> u64 {
    unsafe { simk_fs_ops() }
}
pub fn fs_kind_count(kind: u32) -> u64 {
    unsafe { simk_fs_kind_count(kind as i32) }
}
/// Directory entries come without their types.
pub fn fs_nodtype(on: bool) {
    unsafe { simk_fs_nodtype(on as i32) }
}
/// The faults that fired: kind, argument, operation, path.
pub fn fs_hits() -> Vec<(u32, u64, String, String)> {
    let mut v = vec![0u8; 1 << 14];
    let n = unsafe { simk_fs_hits(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    String::from_utf8_lossy(&v)
        .lines()
        .filter_map(|l| {
            let mut i = l.splitn(4, ' ');
            Some((i.next()?.parse().ok()?, i.next()?.parse().ok()?, i.next()?.to_string(), i.next()?.replace('\u{1}', "\n")))
        })
        .collect()
}
pub fn fs_log() -> String {
    let mut v = vec![0u8; 1 << 18];
    let n = unsafe { simk_fs_log(v.as_mut_ptr(), v.len()) };
    v.truncate(n);
    String::from_utf8_lossy(&v).into_owned()
}

/// Deterministic allocator: power-of-two classes carved from one reserved region, so that addresses
/// depend only on the sequence of requests; every allocation inside a simulation is a scheduling point.
pub struct SimAlloc {
    inner: UnsafeCell<Inner>,
    lock: AtomicBool,
}
struct Inner {
    base: usize,
    cur: usize,
    end: usize,
    free: [usize; 64],
}
unsafe impl Sync for SimAlloc {}
pub static ALLOCATED: AtomicU64 = AtomicU64::new(0);
const REGION: usize = 24 << 30;
/// Set in a process that never simulates: its threads share the C library's allocator instead of a lock.
static NATIVE: AtomicBool = AtomicBool::new(false);
pub fn use_native_allocator() {
    NATIVE.store(true, Ordering::SeqCst);
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
impl Default for SimAlloc {
    fn default() -> Self {
        Self::new()
    }
}
impl SimAlloc {
    pub const fn new() -> Self {
        SimAlloc { inner: UnsafeCell::new(Inner { base: 0, cur: 0, end: 0, free: [0; 64] }), lock: AtomicBool::new(false) }
    }
    fn class(size: usize, align: usize) -> usize {
        let s = size.max(align).max(16);
        (usize::BITS - (s - 1).leading_zeros()) as usize
    }
    fn owns(&self, p: *mut u8) -> bool {
        // the region does not change any more once the native allocator is in use
        let i = unsafe { &*self.inner.get() };
        (i.base..i.end).contains(&(p as usize))
    }
    fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.inner.get() });
        self.lock.store(false, Ordering::Release);
        r
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if NATIVE.load(Ordering::Relaxed) {
            return std::alloc::System.alloc(l);
        }
        point();
        let c = Self::class(l.size(), l.align());
        self.with(|i| {
            let p = i.free[c];
            if p != 0 {
                i.free[c] = *(p as *const usize);
                return p as *mut u8;
            }
            if i.base == 0 {
                // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
                let p = mmap(std::ptr::null_mut(), REGION, 3, 0x2 | 0x20 | 0x4000, -1, 0);
                if p as isize == -1 {
                    return std::ptr::null_mut();
                }
                i.base = p as usize;
                i.cur = i.base;
                i.end = i.base + REGION;
            }
            let size = 1usize << c;
            let align = size.min(4096);
            let start = (i.cur + align - 1) & !(align - 1);
            if start + size > i.end {
                return std::ptr::null_mut();
            }
            i.cur = start + size;
            ALLOCATED.fetch_add(size as u64, Ordering::Relaxed);
            start as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if NATIVE.load(Ordering::Relaxed) && !self.owns(p) {
            return std::alloc::System.dealloc(p, l);
        }
        let c = Self::class(l.size(), l.align());
        self.with(|i| {
            *(p as *mut usize) = i.free[c];
            i.free[c] = p as usize;
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if NATIVE.load(Ordering::Relaxed) && !self.owns(p) {
            return std::alloc::System.realloc(p, l, new);
        }
        if Self::class(l.size(), l.align()) == Self::class(new, l.align()) {
            point();
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
