//! Random trees of projects.
use crate::world::*;
use drv::Rng;

const NAMES: [&str; 16] =
    ["main", "util", "lib", "a", "b", "geo", "shapes", "x-y", "Ünï", "with space", "dot.ted", "deep", "q\"uote", "tab\tname", "back\\slash", "src"];
const ODD: [&str; 4] = ["\u{F8FF}x", "a::b", ".hidden", "line\nbreak"];
const DIRS: [&str; 12] =
    ["target", "tests", "build", "examples", "node_modules", "vendor", "out", "tmp", "bin", "lib.rs", "cairom", "cairom.toml.d"];
const EXTS: [&str; 8] = [".cm", ".cm", ".cm", ".cm", ".txt", ".cm.bak", ".CM", ""];

pub fn name(r: &mut Rng) -> String {
    if r.chance(1, 25) { r.pick(&ODD).to_string() } else { r.pick(&NAMES).to_string() }
}
/// A long chain of directories below `dir`.
pub fn chain(r: &mut Rng, t: &mut Tree, dir: &str) -> String {
    let mut d = dir.to_string();
    for _ in 0..*r.pick(&[3, 5, 8, 12, 20, 33]) {
        let n = if r.chance(1, 3) { r.pick(&DIRS).to_string() } else { r.pick(&NAMES).to_string() };
        d = if d.is_empty() { n } else { format!("{d}/{n}") };
        if d.len() > 600 {
            break;
        }
        if matches!(t.get(&d), Some(n) if *n != Node::Dir) {
            return dir.to_string();
        }
        t.insert(d.clone(), Node::Dir);
    }
    d
}
pub fn content(r: &mut Rng) -> Content {
    match r.below(30) {
        0 => Content::Text(0, 0),
        1 => Content::Binary,
        2 | 3 => Content::Text(r.below(1000) as u32, r.range(8000, 40000) as u32),
        4 => Content::Exact("\u{FEFF}fn main() {}\r\n".into()),
        _ => Content::Text(r.below(1000) as u32, r.range(1, 300) as u32),
    }
}
pub fn sources(r: &mut Rng, t: &mut Tree, dir: &str, depth: usize) {
    for _ in 0..r.below(5) {
        let f = format!("{dir}/{}{}", name(r), r.pick(&EXTS));
        let c = content(r);
        t.entry(f).or_insert(Node::File(c));
    }
    if depth > 0 {
        for _ in 0..r.below(4) {
            let mut d = format!("{dir}/{}", name(r));
            if r.chance(1, 20) {
                d += ".cm";
            }
            if t.get(&d).is_none() {
                t.insert(d.clone(), Node::Dir);
                sources(r, t, &d, depth - 1);
            }
        }
    }
    if depth > 0 && r.chance(1, 12) {
        let d = chain(r, t, dir);
        sources(r, t, &d, 0);
    }
    if r.chance(1, 30) {
        // two files that would be one module
        let (x, y) = r.pick(&[("a/b.cm", "a::b.cm"), ("a/b/deep.cm", "a/b::deep.cm"), ("\u{F8FF}x/b.cm", "\u{FFFD}x/b.cm")]);
        for f in [x, y] {
            let f = format!("{dir}/{f}");
            let c = content(r);
            if !t.keys().any(|k| f.starts_with(&format!("{k}/")) && t[k] != Node::Dir || k.starts_with(&format!("{f}/"))) {
                t.entry(f).or_insert(Node::File(c));
            }
        }
    }
    if depth > 1 && r.chance(1, 150) {
        // a crowd
        for i in 0..r.range(50, 300) {
            t.entry(format!("{dir}/m{i}.cm")).or_insert(Node::File(Content::Text(i as u32, 5)));
        }
    }
    if r.chance(1, 12) {
        let f = format!("{dir}/{}.cm", name(r));
        let to = r.pick(&["main.cm", "a.cm", "..", "missing.cm", "../main.cm"]).to_string();
        t.entry(f).or_insert(Node::Link(to));
    }
}
pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
/// What a manifest says: name, version, entry point; None: it is broken.
pub type Says = Option<(String, String, String)>;
pub fn manifest(r: &mut Rng, name: &str) -> (String, Says) {
    let entry = r.pick(&["main.cm", "main.cm", "src/main.cm", "lib.cm", "src/a.cm", "Ünï.cm", "src_a.cm", "srcery.cm", "src/src.cm", "a.b.cm"]).to_string();
    let (n, e) = (quoted(name), quoted(&entry));
    match r.below(12) {
        0 => (format!("name = {n}\nentry_point = {e}\n"), Some((name.into(), "0.1.0".into(), entry))),
        1 => (format!("# note\nentry_point={e}\nversion=\"2.0.0-β\"\nname={n}\nextra = 3\n[table]\nx = 1\n"), Some((name.into(), "2.0.0-β".into(), entry))),
        2 => (format!("name = {n}\nversion = \"1.2.3\"\n"), None),
        3 => (format!("version = \"1.2.3\"\nentry_point = {e}\n"), None),
        4 => (format!("name = {n}\nversion = 3\nentry_point = {e}\n"), None),
        5 => (format!("name = {n}\nversion = \"1.2.3\nentry_point = {e}\n"), None),
        _ => (format!("name = {n}\nversion = \"1.2.3\"\nentry_point = {e}\n"), Some((name.into(), "1.2.3".into(), entry))),
    }
}
/// What the text of a manifest file says (the generator's own few forms).
pub fn says(text: &str) -> Says {
    let mut name = None;
    let mut version = Some("0.1.0".to_string());
    let mut entry = None;
    let unquote = |s: &str| -> Option<String> {
        let s = s.trim().strip_prefix('"')?.strip_suffix('"')?;
        let mut o = String::new();
        let mut i = s.chars();
        while let Some(c) = i.next() {
            if c == '\\' {
                match i.next()? {
                    'u' => {
                        let h: String = (0..4).filter_map(|_| i.next()).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => o.push(c),
                }
            } else {
                o.push(c);
            }
        }
        Some(o)
    };
    for l in text.lines() {
        if let Some((k, v)) = l.split_once('=') {
            match k.trim() {
                "name" => name = unquote(v),
                "version" => version = unquote(v),
                "entry_point" => entry = unquote(v),
                _ => {}
            }
        }
    }
    Some((name?, version?, entry?))
}
pub fn good_manifest(r: &mut Rng, name: &str) -> String {
    loop {
        let (t, s) = manifest(r, name);
        if s.is_some() {
            return t;
        }
    }
}
