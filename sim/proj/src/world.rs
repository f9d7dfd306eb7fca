//! A directory tree that exists both as a model and, during a run, as files of a scratch directory; and the
//! disturbances of a run: failing system calls, short reads, directory order, and other users of the tree.
use drv::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

/// Paths are relative to the root of the run; the character U+F8FF stands for the byte FF (not UTF-8).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Node {
    Dir,
    File(Content),
    Link(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Content {
    /// generated text: identity and length
    Text(u32, u32),
    Exact(String),
    /// not UTF-8
    Binary,
}
impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Text(id, len) => {
                let mut s = String::new();
                let mut n = 0;
                while s.len() < *len as usize {
                    s += &format!("// {id} line {n} {}\n", ["ascii", "ünïcödé", "", "😀"][(*id as usize + n) % 4]);
                    n += 1;
                }
                s.into_bytes()
            }
            Content::Exact(s) => s.clone().into_bytes(),
            Content::Binary => vec![b'/', b'/', 0xff, 0xfe, b'\n'],
        }
    }
}
pub type Tree = BTreeMap<String, Node>;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// replace or create atomically (write elsewhere, rename)
    Save(String, Content),
    Delete(String),
    Rename(String, String),
    MkDir(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Trouble {
    pub dirseed: u64,
    pub nodtype: bool,
    /// (operation, kind, argument)
    pub faults: Vec<(u64, u32, u64)>,
    pub muts: Vec<(u64, Mut)>,
}

pub fn os(s: &str) -> OsString {
    let mut v = vec![];
    for c in s.chars() {
        if c == '\u{F8FF}' {
            v.push(0xff);
        } else {
            v.extend(c.to_string().as_bytes());
        }
    }
    OsString::from_vec(v)
}
pub fn back(p: &Path) -> String {
    let b = p.as_os_str().as_bytes();
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0xff {
            s.push('\u{F8FF}');
            i += 1;
            continue;
        }
        let n = (i..b.len()).find(|j| b[*j] == 0xff).unwrap_or(b.len());
        s += &String::from_utf8_lossy(&b[i..n]);
        i = n;
    }
    s
}
/// The root of this run's scratch directory.
pub fn root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{base}/vsim-{:08}", std::process::id()))
}
pub fn clean() {
    let r = root();
    assert!(r.to_string_lossy().contains("/vsim-"));
    let _ = std::fs::remove_dir_all(&r);
}
pub fn build(t: &Tree) {
    clean();
    let r = root();
    std::fs::create_dir_all(&r).expect("scratch directory");
    for (p, n) in t {
        put(&r.join(os(p)), n);
    }
}
pub fn put(p: &Path, n: &Node) {
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).expect("scratch directory");
    }
    match n {
        Node::Dir => std::fs::create_dir_all(p).expect("scratch directory"),
        Node::File(c) => std::fs::write(p, c.bytes()).expect("scratch file"),
        Node::Link(t) => {
            let t = if let Some(rel) = t.strip_prefix('/') { root().join(os(rel)) } else { PathBuf::from(os(t)) };
            std::os::unix::fs::symlink(t, p).expect("scratch link")
        }
    }
}
/// Applies a change to the files; the model follows in `apply`.
pub fn act(m: &Mut) {
    let r = root();
    match m {
        Mut::Save(p, c) => {
            let tmp = r.join(".saving");
            let to = r.join(os(p));
            if std::fs::write(&tmp, c.bytes()).is_ok() && std::fs::rename(&tmp, &to).is_err() {
                let _ = std::fs::remove_file(&tmp);
            }
        }
        Mut::Delete(p) => {
            let _ = std::fs::remove_file(r.join(os(p)));
        }
        Mut::Rename(a, b) => {
            let _ = std::fs::rename(r.join(os(a)), r.join(os(b)));
        }
        Mut::MkDir(a) => {
            let _ = std::fs::create_dir(r.join(os(a)));
        }
    }
}
/// What is on disk, read back (so that the model of a mutation is what the file system made of it).
pub fn snapshot() -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(d: &Path, r: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = back(p.strip_prefix(r).unwrap());
            let md = match std::fs::symlink_metadata(&p) {
                Ok(m) => m,
                Err(_) => continue,
            };
            if md.is_dir() {
                m.insert(name, None);
                walk(&p, r, m);
            } else {
                m.insert(name, std::fs::read(&p).ok());
            }
        }
    }
    let mut m = BTreeMap::new();
    let r = root();
    walk(&r, &r, &mut m);
    m
}

static mut HISTORY: Vec<BTreeMap<String, Option<Vec<u8>>>> = Vec::new();
static mut MUTS: Vec<Mut> = Vec::new();
extern "C" fn hook(_: u64, arg: u64) -> i32 {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(m) = MUTS.get(arg as usize) {
            act(m);
            HISTORY.push(snapshot());
        }
    }
    0
}
/// Runs `f` with the troubles; gives back its result and the states the tree went through.
pub fn disturbed<R>(t: &Trouble, rel: bool, f: impl FnOnce() -> R) -> (R, Vec<BTreeMap<String, Option<Vec<u8>>>>) {
    let mut v: Vec<simk::FsFault> = t.faults.iter().map(|(op, kind, arg)| simk::FsFault { op: *op, kind: *kind, pad: 0, arg: *arg }).collect();
    for (i, (op, _)) in t.muts.iter().enumerate() {
        v.insert(0, simk::FsFault { op: *op, kind: simk::FSF_HOOK, pad: 0, arg: i as u64 });
    }
    #[allow(static_mut_refs)]
    unsafe {
        MUTS = t.muts.iter().map(|m| m.1.clone()).collect();
        HISTORY = vec![snapshot()];
    }
    simk::fs_hook(hook);
    simk::fs_nodtype(t.nodtype);
    simk::fs_begin(root().to_str().unwrap(), rel, t.dirseed, &v);
    let r = f();
    simk::fs_end();
    simk::fs_nodtype(false);
    #[allow(static_mut_refs)]
    (r, unsafe { std::mem::take(&mut HISTORY) })
}
pub const ERRNOS: [(i32, &str); 6] = [
    (libc::EIO, "io_error"),
    (libc::EACCES, "permission_denied"),
    (libc::EMFILE, "too_many_files"),
    (libc::ENOMEM, "no_memory"),
    (libc::ESTALE, "stale_handle"),
    (libc::EINTR, "interrupted"),
];
pub fn note_faults(o: &mut drv::RunOut, t: &Trouble) {
    for (kind, arg, what, _) in simk::fs_hits() {
        if kind == simk::FSF_ERRNO {
            let n = ERRNOS.iter().find(|e| e.0 == arg as i32).map(|e| e.1).unwrap_or("other_error");
            o.fault(&format!("{what}_{n}"), 1);
        } else if kind == simk::FSF_SHORT {
            o.fault(&format!("short_{what}"), 1);
        }
    }
    if t.dirseed != 0 {
        o.fault("listing_order_changed", 1);
    }
    if t.nodtype {
        o.fault("entry_types_unknown", 1);
    }
}
/// Did an error reach the code (an interrupted or short call is no error)?
pub fn errors_hit() -> Vec<(String, String)> {
    simk::fs_hits()
        .into_iter()
        .filter(|h| h.0 == simk::FSF_ERRNO && !(h.1 as i32 == libc::EINTR && matches!(h.2.as_str(), "open" | "read")))
        .map(|h| (h.2, h.3))
        .collect()
}
pub fn trouble(r: &mut Rng, ops: u64) -> Trouble {
    let mut t = Trouble { dirseed: if r.chance(4, 5) { r.next() | 1 } else { 0 }, nodtype: r.chance(1, 6), ..Default::default() };
    let n = *r.pick(&[0, 0, 1, 1, 1, 2, 4]);
    for _ in 0..n {
        let op = r.below(ops as usize + 1) as u64;
        if r.chance(1, 4) {
            t.faults.push((op, simk::FSF_SHORT, r.next() % 5000));
        } else {
            t.faults.push((op, simk::FSF_ERRNO, r.pick(&ERRNOS).0 as u64));
        }
    }
    // a burst of short reads
    if r.chance(1, 5) {
        let a = r.below(ops as usize + 1) as u64;
        for k in 0..20 {
            t.faults.push((a + k, simk::FSF_SHORT, r.next() % 300));
        }
    }
    t
}
pub fn shrink_trouble(t: &Trouble) -> Vec<Trouble> {
    let mut v = vec![];
    for i in 0..t.faults.len() {
        let mut u = t.clone();
        u.faults.remove(i);
        v.push(u);
    }
    for i in 0..t.muts.len() {
        let mut u = t.clone();
        u.muts.remove(i);
        v.push(u);
    }
    if t.nodtype {
        v.push(Trouble { nodtype: false, ..t.clone() });
    }
    if t.dirseed != 0 {
        v.push(Trouble { dirseed: 0, ..t.clone() });
    }
    v
}
