//! Workload: OBJ and MTL texts as exporters produce them, with per-run (swarm) settings.
use crate::json::V;
use crate::rng::Rng;
use std::fmt::Write;

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

/// A number from the library's code, or next to one, up to `max`.
pub fn dict_int(r: &mut Rng, max: usize) -> Option<usize> {
    if INTS.is_empty() { return None; }
    let v = (*r.pick(INTS)).min(1 << 62) as i64 + r.irange(-1, 2);
    if v >= 0 && v <= max as i64 { Some(v as usize) } else { None }
}

/// One of `usual`, or a number the library's code mentions.
fn odd(r: &mut Rng, usual: &[usize], max: usize) -> usize {
    if !INTS.is_empty() && r.chance(1, 2) { if let Some(v) = dict_int(r, max) { return v; } }
    *r.pick(usual)
}

/// Rare choices are less rare when the library's code mentions numbers to try.
fn rare(r: &mut Rng, d: usize) -> bool {
    r.chance(if INTS.is_empty() { 1 } else { 3 }, d)
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub size: usize,
    /// out of 1000: a statement that is wrong from the start
    pub bad: usize,
    pub objects: usize,
    pub named_first: bool,
    pub negs: usize,
    pub forms: [usize; 4],
    pub poly: usize,
    pub w_v: usize,
    pub w_vt: usize,
    pub w_vn: usize,
    pub w_p: usize,
    pub w_l: usize,
    pub w_f: usize,
    pub w_g: usize,
    pub w_s: usize,
    pub w_use: usize,
    pub w_cmt: usize,
    pub w_blank: usize,
    pub float_style: usize,
    pub name_style: usize,
    pub sep_style: usize,
    pub eol: usize,
    pub joined: usize,
    pub last_newline: bool,
    pub libs: usize,
}

pub fn cfg(r: &mut Rng, size: usize) -> Cfg {
    let z = |r: &mut Rng, m: usize| if r.chance(1, 3) { 0 } else { r.range(1, m) };
    Cfg {
        size: if r.chance(1, 5) { r.range(0, 6) } else { r.range(1, size.max(2)) },
        bad: if r.chance(1, 2) { 0 } else { *r.pick(&[5, 20, 60]) },
        objects: if rare(r, 60) { odd(r, &[9, 17, 33], 300).max(1) } else { *r.pick(&[1, 1, 1, 2, 3, 5]) },
        named_first: r.chance(1, 2),
        negs: *r.pick(&[0, 0, 30, 100]),
        forms: [z(r, 4), z(r, 4), z(r, 4), z(r, 4)],
        poly: if rare(r, 80) { odd(r, &[70, 140, 300], 1200).max(3) } else { *r.pick(&[3, 4, 4, 6, 12, 40]) },
        w_v: r.range(2, 10),
        w_vt: z(r, 6),
        w_vn: z(r, 6),
        w_p: z(r, 3),
        w_l: z(r, 3),
        w_f: r.range(1, 8),
        w_g: z(r, 4),
        w_s: z(r, 4),
        w_use: z(r, 4),
        w_cmt: z(r, 2),
        w_blank: z(r, 2),
        float_style: r.below(4),
        name_style: r.below(6),
        sep_style: *r.pick(&[0, 0, 0, 1, 2]),
        eol: *r.pick(&[0, 0, 0, 0, 1, 2, 3]),
        joined: if r.chance(1, 6) { r.range(1, 30) } else { 0 },
        last_newline: !r.chance(1, 6),
        libs: *r.pick(&[0, 0, 1, 1, 2, 4]),
    }
}

const ODD_FLOATS: [&str; 40] = [
    "0", "-0", "1.", ".5", "-.5", "+1", "+.25e1", "1e0", "1E5", "1e-5", "1e+5", "nan", "NaN", "inf", "-inf", "+inf",
    "infinity", "-Infinity", "1e400", "-1e400", "1e-400", "4.9e-324", "2.2250738585072014e-308",
    "1.7976931348623157e308", "0.1", "0.30000000000000004", "9007199254740993", "123456789012345678901234567890",
    "1.00000000000000000000000000000000000000000001", "00012.50", "-1e-0", "5e-1", "1e00000000000000001",
    "0.000000000000000000000000000000000000000000001", "6.02214076e23", "-273.15", "3.0E+00", "65535", "65536.5",
    "4294967296",
];
const BAD_FLOATS: [&str; 22] = [
    "x", "1,5", "0x10", "1_000", "1f", "1.2.3", "--1", "+-1", "1e", "e5", ".", "-", "+", "1e1.5", "in", "na", "f",
    "1/2", "½", "１", "1e+", "∞",
];

pub fn float(r: &mut Rng, style: usize) -> String {
    if r.chance(1, 60) && !(FLOATS.is_empty() && INTS.is_empty()) {
        if !FLOATS.is_empty() && r.chance(1, 2) {
            let x: f64 = r.pick(FLOATS).parse().unwrap_or(0.5);
            return match r.below(4) { 0 => format!("-{}", x), 1 => format!("{}", f64::from_bits(x.to_bits() + 1)), 2 => format!("{}", f64::from_bits(x.to_bits().wrapping_sub(1))), _ => format!("{}", x) };
        }
        if let Some(v) = dict_int(r, 1 << 62) { return format!("{}{}{}", r.pick(&["", "-"]), v, r.pick(&["", ".0", ".5"])); }
    }
    match if r.chance(1, 12) { 3 } else { style } {
        4 => match r.below(6) { 4 | 5 => scientific(r), 0 | 1 => crate::truth::halfway(r), 2 => format!("{:e}", f64::from_bits(r.u64() & !(0x7ff << 52) | (r.below(2047) as u64) << 52)), _ => float(r, 3) },
        0 => format!("{:.6}", (r.below(20_000_001) as f64 - 1e7) / 1e6),
        1 => format!("{}", r.irange(-20, 20)),
        2 => {
            let m = r.u64() & ((1 << 52) - 1);
            let e = (1023 - 40 + r.below(80)) as u64;
            format!("{}", f64::from_bits((r.u64() >> 63) << 63 | e << 52 | m))
        }
        _ => match r.below(6) {
            5 => scientific(r),
            4 => {
                // more digits than a double holds
                let n = *r.pick(&[15, 17, 18, 19, 20, 25, 40, 80, 400, 800]);
                let point = if r.chance(1, 2) { r.below(n) } else { n };
                let mut s = String::from(*r.pick(&["", "-", "+"]));
                for i in 0..n { if i == point { s.push('.'); } s.push((b'0' + r.below(10) as u8) as char); }
                if r.chance(1, 4) { let _ = write!(s, "e{}", r.irange(-330, 330)); }
                s
            }
            0 => format!("{:e}", f64::from_bits(r.u64())),
            1 => format!("{:.*}", r.range(0, 24), (r.u64() as i64 as f64) / (1u64 << r.range(1, 63)) as f64),
            _ => r.pick(&ODD_FLOATS).to_string(),
        },
    }
}

/// A few digits and a moderate exponent, in the spellings writers use.
fn scientific(r: &mut Rng) -> String {
    let n = r.range(1, 19);
    let point = if r.chance(1, 2) { r.below(n + 1) } else { n };
    let mut s = String::from(*r.pick(&["", "", "-", "+"]));
    for i in 0..n { if i == point { s.push('.'); } s.push((b'0' + r.below(10) as u8) as char); }
    let e = r.range(0, 45);
    let _ = write!(s, "{}{}{}{}", r.pick(&["e", "e", "E"]), r.pick(&["", "", "-", "+"]), r.pick(&["", "", "0"]), e);
    s
}

pub fn bad_float(r: &mut Rng) -> String {
    r.pick(&BAD_FLOATS).to_string()
}

const WORDS: [&str; 28] = [
    "default", "off", "all", "v", "vt", "vn", "f", "l", "p", "o", "g", "s", "usemtl", "mtllib", "newmtl", "Ka", "1", "0",
    "-1", "1/2/3", "nan", "inf", "\"quoted\"", "a/b", "x.mtl", "C:", "end", "-",
];

pub fn name(r: &mut Rng, style: usize) -> String {
    if rare(r, 300) {
        let n = odd(r, &[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097], 9000);
        let c = if r.chance(1, 4) { "é" } else { "n" };
        return c.repeat(n.max(1));
    }
    if !STRS.is_empty() && r.chance(1, 40) {
        let w = r.pick(STRS);
        let w: String = match r.below(6) {
            0 => format!("{}{}", w, r.below(10)),
            1 => format!("{}{}", r.pick(&["x", "_", "1"]), w),
            2 => format!("{}_{}", w, r.pick(STRS)),
            3 => w.to_uppercase(),
            _ => w.to_string(),
        };
        let w: String = w.chars().filter(|c| !matches!(c, ' ' | '\t' | '\\' | '#' | '\n' | '\r')).collect();
        if !w.is_empty() { return w; }
    }
    match if r.chance(1, 8) { r.below(6) } else { style } {
        // a small pool: names come back after others were in force
        4 => r.pick(&["a", "b", "c", "default", "off"]).to_string(),
        // names that differ in case, length or one character
        5 => r.pick(&["Wood", "wood", "WOOD", "wood1", "wood10", "wood_1", "woo", "W", "wood/1", "wood.1"]).to_string(),
        0 => format!("{}{}", r.pick(&["mat", "group", "Object", "part", "tex"]), r.below(5)),
        1 => r.pick(&WORDS).to_string(),
        2 => {
            let n = r.range(1, 9);
            (0..n).map(|_| *r.pick(&['é', '世', '界', '🦀', 'ß', 'a', 'Z', '_', '-', '.', '/', '\u{85}', '\u{a0}', '\u{2028}', '\u{b}', '\u{c}', '\0', '\u{feff}', ':', '"']))
                .collect()
        }
        _ => {
            let n = r.range(1, 20);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}

pub fn file_name(r: &mut Rng, style: usize) -> String {
    format!("{}{}", name(r, style), r.pick(&[".mtl", ".png", ".jpg", ""]))
}

fn sep(r: &mut Rng, style: usize) -> &'static str {
    match style {
        0 => " ",
        1 => r.pick(&[" ", "  ", "\t", " \t ", "   "]),
        _ => r.pick(&[" ", "  ", "\\", " \\ ", "\t", "\\\t"]),
    }
}

fn eol(r: &mut Rng, style: usize) -> &'static str {
    match style {
        0 => "\n",
        1 => "\r\n",
        2 => "\r",
        _ => r.pick(&["\n", "\r\n", "\r"]),
    }
}

const BAD_INTS: [&str; 24] = [
    "0", "-0", "+0", "x", "1.0", "1e0", "", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
    "-9223372036854775809", "18446744073709551616", "18446744073709551617", "4294967297", "65537", "4294967296", "--1",
    "+", "-", "0x1", "1_", "²", "-4294967295", "-65535",
];

/// One index into items base+1..=base+count (file numbering).
pub fn index(r: &mut Rng, c: &Cfg, base: usize, count: usize) -> String {
    if count == 0 {
        return "1".into();
    }
    if r.chance(c.bad, 3000) {
        return match r.below(5) {
            // the same as a valid index in fewer bits
            4 => {
                let w = *r.pick(&[1u128 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64]);
                let k = (base + 1 + r.below(count)) as u128;
                if r.chance(1, 3) { format!("-{}", w.saturating_sub(r.range(1, count) as u128)) } else { format!("{}", w + k) }
            }
            0 => format!("{}", base + count + 1 + r.below(3)),
            1 => format!("{}", base as i64 - r.below(3) as i64),
            2 => format!("-{}", count + 1 + r.below(3)),
            _ => r.pick(&BAD_INTS).to_string(),
        };
    }
    let k = match r.below(8) {
        0 => 0,
        1 => count - 1,
        // a position the library's code mentions, from the end or from the start
        2 if count > 8 => match dict_int(r, count) { Some(v) if v > 0 => if r.chance(1, 2) { count - v } else { v - 1 }, _ => r.below(count) },
        _ => r.below(count),
    };
    if r.chance(c.negs, 100) {
        return format!("-{}", count - k);
    }
    match r.below(60) {
        0 => format!("+{}", base + k + 1),
        1 => format!("0{}", base + k + 1),
        2 => format!("000000000000000000000{}", base + k + 1),
        _ => format!("{}", base + k + 1),
    }
}

#[derive(Default, Clone)]
struct Counts {
    base: [usize; 3],
    n: [usize; 3],
}

fn corner(r: &mut Rng, c: &Cfg, k: &Counts, form: usize) -> String {
    let ix = |r: &mut Rng, i: usize| index(r, c, k.base[i], k.n[i]);
    match form {
        0 => match r.below(25) {
            0 => format!("{}/", ix(r, 0)),
            1 => format!("{}//", ix(r, 0)),
            _ => ix(r, 0),
        },
        1 => {
            let s = if r.chance(1, 20) { "/" } else { "" };
            format!("{}/{}{}", ix(r, 0), ix(r, 1), s)
        }
        2 => format!("{}//{}", ix(r, 0), ix(r, 2)),
        _ => format!("{}/{}/{}", ix(r, 0), ix(r, 1), ix(r, 2)),
    }
}

fn bad_stmt(r: &mut Rng, c: &Cfg, k: &Counts) -> Vec<String> {
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
    let f = |r: &mut Rng| float(r, c.float_style);
    match r.below(22) {
        0 => s(&["v"]),
        1 => vec!["v".into(), f(r)],
        2 => vec!["v".into(), f(r), f(r)],
        3 => {
            let mut v = vec!["v".to_string(), f(r), f(r), f(r)];
            let i = r.range(1, 3);
            v[i] = bad_float(r);
            v
        }
        4 => vec!["v".into(), f(r), f(r), f(r), bad_float(r)],
        5 => vec!["v".into(), f(r), f(r), f(r), f(r), f(r)],
        6 => vec!["vn".into(), f(r), f(r)],
        7 => vec!["vn".into(), f(r), f(r), f(r), f(r)],
        8 => vec!["vt".into()],
        9 => vec!["vt".into(), f(r), f(r), f(r), f(r)],
        10 => vec!["vt".into(), bad_float(r)],
        11 => s(&["f", "1", "2"]),
        12 => s(r.pick(&[&["f"][..], &["l"], &["p"], &["l", "1"], &["f", "1"]])),
        13 => s(r.pick(&[&["s"][..], &["s", "on"], &["s", "-1"], &["s", "1.5"], &["s", "Off"], &["s", "18446744073709551616"], &["s", "1", "2"]])),
        14 => s(r.pick(&[&["usemtl"][..], &["usemtl", "a", "b"], &["o"], &["o", "a", "b"]])),
        15 => s(r.pick(&[&["mtllib", "late.mtl"][..], &["vp", "1", "2"], &["curv", "0", "1"], &["V", "1", "2", "3"], &["fo", "1", "2", "3"], &["group", "x"], &["call", "x"], &["\u{feff}v", "1", "2", "3"]])),
        16 => {
            // mixed corner forms
            let n = r.range(3, 5);
            let mut v = vec![r.pick(&["f", "l"]).to_string()];
            for i in 0..n { v.push(corner(r, c, k, if i == n - 1 { 0 } else { 1 })); }
            if r.chance(1, 2) { let l = v.len(); v.swap(1, l - 1); }
            v
        }
        17 => {
            let mut v = vec!["f".to_string()];
            for _ in 0..r.range(3, 6) { v.push(corner(r, c, k, 0)); }
            let i = r.range(1, v.len() - 1);
            v[i] = r.pick(&["1/2/3/4", "/1", "//", "/1/1", "//1", "/", "1/x", "x/1", "1/1/x", "1/1/1/", "1//0", "1/0", "a", "1.0", "1\u{a0}2", "f"]).to_string();
            v
        }
        18 => vec!["p".into(), corner(r, c, k, 0), r.pick(&["1/1", "x", "0", "99999"]).to_string()],
        19 => vec!["l".into(), corner(r, c, k, 0), corner(r, c, k, 0), r.pick(&["x", "0", "1/1", "99999", "//1"]).to_string()],
        20 => vec![name(r, c.name_style)],
        _ => vec!["f".into(), index(r, c, k.base[0] + k.n[0], 5), corner(r, c, k, 0), corner(r, c, k, 0)],
    }
}

fn put(out: &mut String, r: &mut Rng, c: &Cfg, words: &[String], first_on_line: bool) {
    if c.sep_style > 0 && first_on_line && r.chance(1, 6) { out.push_str(sep(r, c.sep_style)); }
    if c.sep_style > 0 && rare(r, 300) { for _ in 0..odd(r, &[17, 65, 130, 260, 520], 5000) { out.push_str(sep(r, c.sep_style)); } }
    for (i, w) in words.iter().enumerate() {
        if i > 0 { out.push_str(sep(r, c.sep_style)); }
        out.push_str(w);
    }
    if c.sep_style > 0 && r.chance(1, 6) { out.push_str(sep(r, c.sep_style)); }
}

fn comment(r: &mut Rng, c: &Cfg) -> String {
    let mut s = String::from(*r.pick(&["#", "# ", "## ", "#v 1 2 3", "# f 1 2 3 ", "#\t", "#o x", "# \\", "#\\", "#/*", "#\""]));
    for _ in 0..r.below(4) { s.push_str(&name(r, c.name_style)); s.push(' '); }
    if rare(r, 200) { for _ in 0..odd(r, &[60, 130, 260, 1100], 9000) { s.push('-'); } }
    if r.chance(1, 12) { s.push('\\'); }
    s
}

fn line_end(out: &mut String, r: &mut Rng, c: &Cfg) {
    if c.w_cmt > 0 && r.chance(c.w_cmt, 20) {
        if r.chance(2, 3) { out.push(' '); }
        let s = comment(r, c);
        out.push_str(&s);
    }
    out.push_str(eol(r, c.eol));
    if c.w_blank > 0 && r.chance(c.w_blank, 20) {
        let n = if rare(r, 100) { odd(r, &[20, 130, 260], 5000) } else { r.range(1, 3) };
        for _ in 0..n { out.push_str(eol(r, c.eol)); }
    }
    if c.w_cmt > 0 && r.chance(c.w_cmt, 30) {
        let s = comment(r, c);
        out.push_str(&s);
        out.push_str(eol(r, c.eol));
    }
}

pub fn obj(r: &mut Rng, c: &Cfg) -> String {
    let mut out = String::new();
    let mut k = Counts::default();
    if c.w_cmt > 0 && r.chance(1, 3) { out.push_str(&comment(r, c)); out.push_str(eol(r, c.eol)); }
    for _ in 0..c.libs {
        if r.chance(1, 2) { continue; }
        let mut w = vec!["mtllib".to_string()];
        let m = if rare(r, 60) { odd(r, &[9, 17, 33], 1200) } else { r.below(3) };
        for _ in 0..m { w.push(file_name(r, c.name_style)); }
        put(&mut out, r, c, &w, true);
        line_end(&mut out, r, c);
    }
    let objects = if c.size == 0 { 0 } else { c.objects };
    // statements seen before come again
    let reuse = *r.pick(&[0, 0, 1, 5, 20]);
    let mut old: Vec<(usize, Vec<String>)> = vec![];
    let mut names: Vec<String> = vec![];
    for oi in 0..objects {
        if oi > 0 || c.named_first {
            let nm = if !names.is_empty() && r.chance(reuse, 40) { r.pick(&names).clone() } else { name(r, c.name_style) };
            names.push(nm.clone());
            put(&mut out, r, c, &["o".to_string(), nm], true);
            line_end(&mut out, r, c);
            for i in 0..3 { k.base[i] += k.n[i]; k.n[i] = 0; }
        }
        let n = r.range(0, (2 * c.size / objects).max(1));
        let mut first_on_line = true;
        let early = r.chance(1, 2);
        let mut n = n;
        let mut burst = 0;
        let mut si = 0;
        while si < n {
            si += 1;
            let si = si - 1;
            let boost = if early && si < n / 2 { 4 } else { 1 };
            let have = k.n[0] > 0;
            let w = [
                c.w_v * boost, c.w_vt * boost, c.w_vn * boost,
                if have { c.w_p } else { 0 }, if have { c.w_l } else { 0 }, if have { c.w_f } else { 0 },
                c.w_g, c.w_s, c.w_use,
            ];
            let mut words: Vec<String> = vec![];
            let mut line_bound = false;
            if r.chance(c.bad, 1000) {
                words = bad_stmt(r, c, &k);
                line_bound = true;
                if words[0] == "v" && words.len() >= 4 { k.n[0] += 1; }
                if words[0] == "vn" && words.len() >= 4 { k.n[2] += 1; }
            } else {
                // now and then one kind of statement comes many times over
                if burst == 0 && rare(r, 2000) { let m = odd(r, &[40, 70, 140, 270], 1200); burst = 16 * m + r.weighted(&w) + 1; n += m; }
                if reuse > 0 && !old.is_empty() && r.chance(reuse, 40) {
                    let (at, e): &(usize, Vec<String>) = r.pick(&old);
                    // elements name other items once the object changes
                    if *at == oi || !matches!(e[0].as_str(), "p" | "l" | "f") {
                        words = e.clone();
                        match e[0].as_str() { "v" => k.n[0] += 1, "vt" => k.n[1] += 1, "vn" => k.n[2] += 1, _ => {} }
                        line_bound = matches!(e[0].as_str(), "p" | "l" | "f" | "g");
                    }
                }
                let s = if !words.is_empty() { 99 } else if burst > 15 { burst -= 16; let s = burst % 16 - 1; if w[s] == 0 { burst = 0; r.weighted(&w) } else { s } } else { burst = 0; r.weighted(&w) };
                match s {
                    0 => {
                        words.push("v".into());
                        let m = if r.chance(1, 4) { 4 } else { 3 };
                        for _ in 0..m { words.push(float(r, c.float_style)); }
                        k.n[0] += 1;
                    }
                    1 => {
                        words.push("vt".into());
                        for _ in 0..r.range(1, 3) { words.push(float(r, c.float_style)); }
                        k.n[1] += 1;
                    }
                    2 => {
                        words.push("vn".into());
                        for _ in 0..3 { words.push(float(r, c.float_style)); }
                        k.n[2] += 1;
                    }
                    3 => {
                        words.push("p".into());
                        for _ in 0..(1 + r.skewed(c.poly)) { words.push(index(r, c, k.base[0], k.n[0])); }
                        line_bound = true;
                    }
                    4 | 5 => {
                        let mut fw = c.forms;
                        if k.n[1] == 0 { fw[1] = 0; fw[3] = 0; }
                        if k.n[2] == 0 { fw[2] = 0; fw[3] = 0; }
                        if fw.iter().sum::<usize>() == 0 { fw[0] = 1; }
                        let form = r.weighted(&fw);
                        let need = if s == 4 { 2 } else { 3 };
                        words.push(if s == 4 { "l" } else { "f" }.into());
                        for _ in 0..(need + r.skewed(c.poly - need)) { words.push(corner(r, c, &k, form)); }
                        line_bound = true;
                    }
                    6 => {
                        words.push("g".into());
                        let m = if rare(r, 150) { odd(r, &[9, 17, 33, 70], 1200) } else { *r.pick(&[0, 1, 1, 1, 2, 3, 5]) };
                        for _ in 0..m { words.push(name(r, c.name_style)); }
                        line_bound = true;
                    }
                    99 => {}
                    7 => {
                        words.push("s".into());
                        words.push(match r.below(6) {
                            0 if r.chance(1, 4) => dict_int(r, 1 << 62).map_or("off".into(), |v| v.to_string()),
                            0 => "off".into(),
                            1 => "0".into(),
                            2 => r.pick(&["18446744073709551615", "4294967296", "4294967297", "+7", "007", "65536", "65537", "255", "256", "257", "00", "+0", "2147483648", "9223372036854775808"]).to_string(),
                            _ => format!("{}", r.below(5)),
                        });
                    }
                    _ => { words.push("usemtl".into()); words.push(name(r, c.name_style)); }
                }
                if reuse > 0 && s != 99 && old.len() < 300 { old.push((oi, words.clone())); }
            }
            put(&mut out, r, c, &words, first_on_line);
            if !line_bound && si + 1 < n && r.chance(c.joined, 100) {
                out.push_str(sep(r, c.sep_style));
                first_on_line = false;
            } else {
                line_end(&mut out, r, c);
                first_on_line = true;
            }
        }
        if !first_on_line { line_end(&mut out, r, c); }
    }
    if !c.last_newline { while out.ends_with('\n') || out.ends_with('\r') { out.pop(); } }
    out
}

pub fn mtl(r: &mut Rng, c: &Cfg) -> String {
    let mut out = String::new();
    if c.w_cmt > 0 && r.chance(1, 3) { out.push_str(&comment(r, c)); out.push_str(eol(r, c.eol)); }
    let nmat = if c.size == 0 { 0 } else { r.range(1, 1 + c.objects * 2) };
    let mut mask: Vec<usize> = (0..18).map(|_| if r.chance(1, 3) { 0 } else { 1 }).collect();
    if r.chance(1, 3) { mask = vec![1; 18]; }
    if mask.iter().sum::<usize>() == 0 { mask[0] = 1; }
    let reuse = *r.pick(&[0, 0, 1, 4, 8]);
    let mut good: Vec<Vec<String>> = vec![];
    for _ in 0..nmat {
        let same = good.iter().filter(|g| g[0] == "newmtl").count();
        let nm = if same > 0 && r.chance(reuse, 30) { good.iter().filter(|g| g[0] == "newmtl").nth(r.below(same)).map(|g| g[1].clone()).unwrap() } else { name(r, c.name_style) };
        let mut stmts: Vec<Vec<String>> = vec![vec!["newmtl".into(), nm]];
        good.push(stmts[0].clone());
        let n = r.range(0, (c.size / nmat).clamp(1, 30));
        for _ in 0..n {
            if r.chance(c.bad, 1000) {
                let f = float(r, c.float_style);
                let s: Vec<&str> = match r.below(16) {
                    0 => vec!["Ka"],
                    1 => vec!["Kd", &f],
                    2 => vec!["Ks", &f, &f],
                    3 => vec!["Ke", &f, &f, "x"],
                    4 => vec!["Ka", &f, &f, &f, &f],
                    5 => vec!["d"],
                    6 => vec!["Ns", "x"],
                    7 => vec!["Ni", &f, &f],
                    8 => vec!["illum"],
                    9 => vec!["illum", *r.pick(&["3", "10", "-1", "1.0", "x", "18446744073709551616", "4294967296", "4294967297", "256", "257", "258", "65536", "65538", "18446744073709551617", "-0", "0x1", "4"])],
                    10 => vec!["newmtl"],
                    11 => vec![*r.pick(&["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal"])],
                    12 => vec!["map_Kd", "-s", "1", "x.png"],
                    13 => vec![*r.pick(&["Tf", "Tr", "sharpness", "refl", "map_bump", "Bump", "ka", "KA", "map_ka", "map_D", "norm"]), &f],
                    14 => vec!["newmtl", "a", "b"],
                    _ => vec!["d", "-halo", &f],
                };
                stmts.push(s.into_iter().map(String::from).collect());
                continue;
            }
            let s = r.weighted(&mask);
            let mut w: Vec<String> = vec![];
            // values seen before come again, under the same or another keyword
            if reuse > 0 && r.chance(reuse, 10) {
                let like = |k: &str| match k { "Ka" | "Kd" | "Ks" | "Ke" => 0, "d" | "Ns" | "Ni" => 1, "illum" => 2, _ => 3 };
                let key = ["Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal"][s];
                let old: Vec<&Vec<String>> = good.iter().filter(|g| like(&g[0]) == like(key) && (g[0] != "newmtl" || s > 7)).collect();
                if !old.is_empty() {
                    w = (*r.pick(&old)).clone();
                    w[0] = key.into();
                    good.push(w.clone());
                    stmts.push(w);
                    continue;
                }
            }
            match s {
                0..=3 => {
                    w.push(["Ka", "Kd", "Ks", "Ke"][s].into());
                    for _ in 0..3 { w.push(float(r, c.float_style)); }
                }
                4..=6 => { w.push(["d", "Ns", "Ni"][s - 4].into()); w.push(float(r, c.float_style)); }
                7 => { w.push("illum".into()); w.push(r.pick(&["0", "1", "2", "+1", "02", "0", "1", "2"]).to_string()); }
                _ => {
                    w.push(["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal"][s - 8].into());
                    w.push(file_name(r, c.name_style));
                }
            }
            if good.len() < 200 { good.push(w.clone()); }
            stmts.push(w);
        }
        let n = stmts.len();
        for (i, s) in stmts.iter().enumerate() {
            put(&mut out, r, c, s, true);
            if i + 1 < n && r.chance(c.joined, 100) { out.push_str(sep(r, c.sep_style)); } else { line_end(&mut out, r, c); }
        }
    }
    if !c.last_newline { while out.ends_with('\n') || out.ends_with('\r') { out.pop(); } }
    out
}

/// Statements [tag, arguments...] that sometimes carry the arguments of an earlier one of
/// the same sort.
pub fn repeat(r: &mut Rng, st: &mut [V]) {
    let much = *r.pick(&[0, 0, 1, 4, 8]);
    if much == 0 { return; }
    let sort = |v: &V| match v.arr().first().map_or("", |t| t.str()) {
        "Ka" | "Kd" | "Ks" | "Ke" => "K",
        "d" | "Ns" | "Ni" => "d",
        t @ ("disp" | "decal" | "bump") => { let _ = t; "map" }
        t if t.starts_with("map") => "map",
        "v" => "v", "vt" => "vt", "vn" => "vn", "g" => "g", "s" => "s", "usemtl" => "u", "o" => "o",
        "p" => "p", "l" => "l", "f" => "f",
        _ => "",
    };
    for i in 1..st.len() {
        if !r.chance(much, 12) { continue; }
        let k = sort(&st[i]);
        let old: Vec<usize> = (0..i).filter(|&j| sort(&st[j]) == k).collect();
        if k.is_empty() || old.is_empty() { continue; }
        let mut a = st[*r.pick(&old)].arr().to_vec();
        a[0] = st[i].arr()[0].clone();
        st[i] = V::Arr(a);
    }
}

/// A block size.
pub fn round(r: &mut Rng) -> usize {
    dict_int(r, 140_000).filter(|n| *n > 8 && r.chance(1, 2)).unwrap_or(*r.pick(&[16, 32, 64, 128, 256, 512, 1024, 4096, 4096, 8192, 65536]))
}

pub fn doc(r: &mut Rng, kind: char, c: &Cfg) -> String {
    let mut t = if kind == 'o' { obj(r, c) } else { mtl(r, c) };
    if c.w_cmt > 0 && r.chance(1, 40) && !t.is_empty() {
        // some token begins or ends at a block boundary
        let k = round(r);
        let from = r.below(t.len());
        let p = t.as_bytes()[from..].iter().position(|b| b.is_ascii_whitespace()).map_or(t.len(), |i| from + i + r.below(2));
        let pad = k + 2 - (p + 2) % k;
        t.insert_str(0, &format!("#{}\n", "-".repeat(pad.max(2) - 2)));
    }
    t
}

pub fn kind(r: &mut Rng) -> char {
    if r.chance(3, 5) { 'o' } else { 'm' }
}

/// A text the reference model accepts.
pub fn sound(r: &mut Rng, kind: char, c: &Cfg) -> String {
    let mut c = c.clone();
    c.bad = 0;
    for _ in 0..8 {
        let t = doc(r, kind, &c);
        if crate::model::run(kind, &t).is_ok() { return t; }
    }
    if kind == 'o' { "o a\nv 1 2 3\nv 4 5 6\nv 7 8 9\nf 1 2 3\n".into() } else { "newmtl a\nKa 1 2 3\n".into() }
}

/// Large texts of one repetitive shape; `n` repetitions.
pub const FAMILIES: usize = 30;
pub fn family(f: usize, n: usize) -> (char, String) {
    let mut s = String::new();
    let rep = |s: &mut String, x: &str| for _ in 0..n { s.push_str(x); };
    match f % FAMILIES {
        0 => { rep(&mut s, "v 1.0 2.0 3.0\n"); ('o', s) }
        1 => { s.push_str("v 1 2 3\n"); rep(&mut s, "f 1 1 1\n"); ('o', s) }
        2 => { s.push_str("v 1 2 3\nf"); rep(&mut s, " 1"); s.push('\n'); ('o', s) }
        3 => { s.push_str("v 1 2 3\nl"); rep(&mut s, " 1"); s.push('\n'); ('o', s) }
        4 => { s.push_str("v 1 2 3\np"); rep(&mut s, " 1"); s.push('\n'); ('o', s) }
        5 => { s.push_str("v 1 2 3\n"); for i in 0..n { let _ = write!(s, "g a{}\nf 1 1 1\n", i); } ('o', s) }
        6 => { s.push_str("v 1 2 3\n"); for i in 0..n { let _ = write!(s, "s {}\nf 1 1 1\n", i); } ('o', s) }
        7 => { s.push_str("v 1 2 3\n"); for i in 0..n { let _ = write!(s, "usemtl m{}\nf 1 1 1\n", i); } ('o', s) }
        8 => { for i in 0..n { let _ = write!(s, "o x{}\nv 1 2 3\nf -1 -1 -1\n", i); } ('o', s) }
        9 => { rep(&mut s, "\n"); ('o', s) }
        10 => { rep(&mut s, "# comment\n"); ('o', s) }
        11 => { rep(&mut s, "   \t\\ "); ('o', s) }
        12 => { s.push_str("g"); for i in 0..n { let _ = write!(s, " n{}", i); } s.push('\n'); ('o', s) }
        13 => { s.push_str("mtllib"); for i in 0..n { let _ = write!(s, " n{}.mtl", i); } s.push('\n'); ('o', s) }
        14 => { rep(&mut s, "mtllib a.mtl\n"); ('o', s) }
        15 => { rep(&mut s, "o x\n"); ('o', s) }
        16 => { for i in 0..n { let _ = write!(s, "v {} 2 3\nvt {}\nvn 0 0 {}\nf -1/-1/-1 -1/-1/-1 -1/-1/-1\n", i, i, i); } ('o', s) }
        17 => { rep(&mut s, "g a\n"); ('o', s) }
        18 => { rep(&mut s, "s off\nusemtl q\n"); ('o', s) }
        19 => { s.push_str("v 1 2 3\nf 1 1 1"); rep(&mut s, " 1"); s.push_str(" x\n"); ('o', s) }
        20 => { s.push_str("#"); rep(&mut s, "################"); ('o', s) }
        21 => { s.push_str("o "); rep(&mut s, "namename"); s.push('\n'); ('o', s) }
        22 => { for i in 0..n { let _ = write!(s, "newmtl m{}\nKa 1 2 3\n", i); } ('m', s) }
        23 => { s.push_str("newmtl a\n"); rep(&mut s, "map_Kd x.png\n"); ('m', s) }
        24 => { s.push_str("newmtl a\n"); rep(&mut s, "\n\r\n"); ('m', s) }
        25 => { s.push_str("newmtl a\n"); rep(&mut s, "Kd 1 2 3 "); ('m', s) }
        26 => { rep(&mut s, "#x\r"); s.push_str("newmtl a\nillum 7\n"); ('m', s) }
        27 => { s.push_str("newmtl a\nmap_Ka "); rep(&mut s, "tex/"); s.push('\n'); ('m', s) }
        28 => { s.push_str("v 1 2 3\n"); for i in 0..n { let _ = write!(s, "g a{} b\ns {}\nusemtl m{}\nl 1 1\n", i, i, i); } ('o', s) }
        _ => { s.push_str("newmtl a\nNs "); rep(&mut s, "1"); s.push('\n'); ('m', s) }
    }
}
