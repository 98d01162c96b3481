//! Collects the literals of the library's own code (tests excluded) as a dictionary for
//! workload generation: a text that names what the code names, or is as long as a number
//! in the code, is more likely to reach what depends on it. The dictionary steers the
//! search only; it is never part of a verdict, and replay files do not need it.
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::{Path, PathBuf};

fn main() {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    let toml = std::fs::read_to_string(here.join("Cargo.toml")).unwrap_or_default();
    let repo = toml.split("path = \"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("/repo").to_string();
    let mut files = vec![];
    walk(&Path::new(&repo).join("src"), &mut files);
    files.sort();
    let (mut strs, mut ints, mut floats) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let end = t.find("\n#[cfg(test)]\nmod ").unwrap_or(t.len());
        scan(&t[..end], &mut strs, &mut ints, &mut floats);
    }
    let mut o = String::new();
    let _ = writeln!(o, "pub const STRS: &[&str] = &{:?};", strs.iter().collect::<Vec<_>>());
    let _ = writeln!(o, "pub const INTS: &[u64] = &{:?};", ints.iter().collect::<Vec<_>>());
    let _ = writeln!(o, "pub const FLOATS: &[&str] = &{:?};", floats.iter().collect::<Vec<_>>());
    std::fs::write(PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("dict.rs"), o).unwrap();
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    for e in l.flatten() {
        let p = e.path();
        if p.is_dir() { walk(&p, out) } else if p.extension().map_or(false, |x| x == "rs") { out.push(p) }
    }
}

fn scan(t: &str, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>, floats: &mut BTreeSet<String>) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // the last integer and the operator after it, for 1 << 12 and 64 * 1024
    let mut held: Option<(u64, char)> = None;
    let mut last: Option<u64> = None;
    let mut prev = ' ';
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && at(i + 1) == '/' { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        if ch == '/' && at(i + 1) == '*' { i += 2; while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') { i += 1; } i += 2; continue; }
        if ch == '"' {
            let raw = prev == 'r' || prev == '#';
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && !raw { i += 1; s.push(match at(i) { 'n' => '\n', 'r' => '\r', 't' => '\t', '0' => '\0', x => x }); } else { s.push(c[i]); }
                i += 1;
            }
            i += 1;
            prev = '"';
            word(&s, strs);
            continue;
        }
        if ch == '\'' {
            let n = if at(i + 1) == '\\' { 3 } else { 2 };
            if at(i + n) == '\'' {
                if n == 2 { word(&at(i + 1).to_string(), strs); }
                i += n + 1;
                prev = '\'';
                continue;
            }
            i += 1;
            continue;
        }
        if ch.is_ascii_digit() && !(prev.is_alphanumeric() || prev == '_') {
            let st = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' || (at(i) == '.' && at(i + 1).is_ascii_digit()) || (matches!(at(i), '+' | '-') && matches!(at(i - 1), 'e' | 'E') && !c[st..i].contains(&'x')) { i += 1; }
            let mut s: String = c[st..i].iter().filter(|x| **x != '_').collect();
            for suf in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"] {
                if let Some(p) = s.strip_suffix(suf) { s = p.to_string(); break; }
            }
            let v = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else if let Some(h) = s.strip_prefix("0b") { u64::from_str_radix(h, 2).ok() } else { s.parse().ok() };
            match v {
                Some(v) => {
                    num(v, ints);
                    if let Some((h, op)) = held {
                        match op { '<' if v < 63 => num(h << v, ints), '*' => num(h.saturating_mul(v), ints), _ => {} }
                    }
                    last = Some(v);
                }
                None => { if s.parse::<f64>().is_ok() { floats.insert(s); } last = None; }
            }
            held = None;
            prev = '0';
            continue;
        }
        if ch == ':' && t_is(&c, i, "::MAX") {
            let ty: String = c[..i].iter().rev().take_while(|x| x.is_ascii_alphanumeric()).collect::<String>().chars().rev().collect();
            match ty.as_str() { "u8" => num(255, ints), "i8" => num(127, ints), "u16" => num(65535, ints), "i16" => num(32767, ints), "u32" => num(u32::MAX as u64, ints), "i32" => num(i32::MAX as u64, ints), _ => {} }
        }
        if ch == '<' && at(i + 1) == '<' { held = last.map(|v| (v, '<')); i += 1; }
        else if ch == '*' { held = last.map(|v| (v, '*')); }
        if !ch.is_whitespace() { last = None; if ch != '<' && ch != '*' { held = None; } prev = ch; }
        else if prev != ' ' { prev = ' '; }
        i += 1;
    }
}

fn t_is(c: &[char], i: usize, s: &str) -> bool { s.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x)) }

fn num(v: u64, ints: &mut BTreeSet<u64>) { if v >= 5 { ints.insert(v); } }

fn word(s: &str, strs: &mut BTreeSet<String>) {
    if s.is_empty() || s.len() > 40 || s.contains(|c: char| c.is_whitespace() || c == '{' || c == '`') { return; }
    strs.insert(s.to_string());
}
