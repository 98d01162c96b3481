//! Reference model of the two formats: a line-oriented executable specification,
//! written independently of the library's lexer and parser.
//!
//! A text is split into lines (LF, CRLF or CR), a `#` starts a comment that runs
//! to the end of the line, words are separated by blanks, tabs and backslashes.

#[derive(Clone, Debug, PartialEq, Default)]
pub struct CObj {
    pub name: String,
    pub v: Vec<[u64; 4]>,
    pub vt: Vec<[u64; 3]>,
    pub vn: Vec<[u64; 3]>,
    pub groups: Vec<String>,
    pub smooth: Vec<u64>,
    pub elems: Vec<CElem>,
    pub shapes: Vec<(usize, Vec<usize>, usize)>,
    pub geoms: Vec<(Option<String>, Vec<usize>)>,
}

/// corners: (form, v, vt, vn); form 0=V 1=VT 2=VN 3=VTN
#[derive(Clone, Debug, PartialEq)]
pub struct CElem {
    pub kind: char,
    pub c: Vec<(u8, usize, usize, usize)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct CSet {
    pub libs: Vec<String>,
    pub objs: Vec<CObj>,
}

pub const NMAP: usize = 9;
pub const MAPS: [&str; NMAP] = ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "disp", "map_d", "decal"];

#[derive(Clone, Debug, PartialEq)]
pub struct CMat {
    pub name: String,
    /// ambient, diffuse, specular, emissive
    pub colors: [[u64; 3]; 4],
    pub ns: u64,
    pub d: u64,
    pub ni: Option<u64>,
    pub illum: u8,
    pub maps: [Option<String>; NMAP],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Canon {
    Obj(CSet),
    Mtl(Vec<CMat>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MErr {
    pub line: usize,
    /// what is wrong at that place; more than one entry when a statement has several defects
    pub kinds: Vec<&'static str>,
}

pub fn bits(x: f64) -> u64 {
    if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }
}

/// Lines without their terminators, plus whether each line was terminated.
pub fn lines(text: &str) -> Vec<(&str, bool)> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut st = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            out.push((&text[st..i], true));
            if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' { i += 1; }
            st = i + 1;
        }
        i += 1;
    }
    if st < b.len() { out.push((&text[st..], false)); }
    out
}

pub fn words(line: &str) -> impl Iterator<Item = &str> {
    let code = match line.find('#') { Some(i) => &line[..i], None => line };
    code.split(|c| c == ' ' || c == '\t' || c == '\\').filter(|w| !w.is_empty())
}

/// One token: a word, or the end of a line.
#[derive(Clone, Copy, PartialEq, Debug)]
enum T<'a> {
    W(&'a str),
    Eol,
    Eof,
}

struct Toks<'a> {
    v: Vec<(T<'a>, usize)>,
    p: usize,
    last_line: usize,
}

impl<'a> Toks<'a> {
    fn new(text: &'a str) -> Toks<'a> {
        let mut v = vec![];
        let mut last = 1;
        for (n, (l, term)) in lines(text).into_iter().enumerate() {
            for w in words(l) {
                v.push((T::W(w), n + 1));
                last = n + 1;
            }
            if term { v.push((T::Eol, n + 1)); last = n + 1; }
        }
        Toks { v, p: 0, last_line: last }
    }
    fn peek(&self) -> T<'a> { self.v.get(self.p).map_or(T::Eof, |x| x.0) }
    fn line(&self) -> usize { self.v.get(self.p).map_or(self.last_line, |x| x.1) }
    fn next(&mut self) -> (T<'a>, usize) {
        let r = (self.peek(), self.line());
        self.p += 1;
        r
    }
    fn skip_eols(&mut self) { while self.peek() == T::Eol { self.p += 1; } }
    /// words up to the end of the line
    fn rest(&mut self) -> Vec<(&'a str, usize)> {
        let mut r = vec![];
        while let T::W(w) = self.peek() {
            r.push((w, self.line()));
            self.p += 1;
        }
        r
    }
    fn float(&mut self) -> Result<f64, MErr> {
        match self.next() {
            (T::W(w), l) => num(w).ok_or_else(|| err(l, "ExpectedFloat")),
            (T::Eol, l) => Err(err(l, "ExpectedFloat")),
            (T::Eof, l) => Err(err(l, "EndOfFile")),
        }
    }
    fn opt_float(&mut self) -> Option<f64> {
        if let T::W(w) = self.peek() {
            if let Some(x) = num(w) {
                self.p += 1;
                return Some(x);
            }
        }
        None
    }
}

static EXACT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn num(w: &str) -> Option<f64> {
    if EXACT.load(std::sync::atomic::Ordering::Relaxed) { crate::truth::nearest(w) } else { w.parse().ok() }
}

/// The model with every number worked out exactly instead of by std.
pub fn run_exact(kind: char, text: &str) -> Result<Canon, MErr> {
    EXACT.store(true, std::sync::atomic::Ordering::Relaxed);
    let r = run(kind, text);
    EXACT.store(false, std::sync::atomic::Ordering::Relaxed);
    r
}

fn err(line: usize, k: &'static str) -> MErr { MErr { line, kinds: vec![k] } }

/// base..count are the 0-based global numbers of the items of the current object
fn resolve(w: &str, base: usize, count: usize) -> Result<usize, &'static str> {
    let n: i128 = w.parse::<i64>().map_err(|_| "ExpectedInteger")? as i128;
    let abs: i128 = if n > 0 { n - 1 } else if n < 0 { count as i128 + n } else { -1 };
    if abs >= base as i128 && abs < count as i128 { Ok((abs - base as i128) as usize) } else { Err("VTNIndexOutOfRange") }
}

#[derive(Clone, Copy)]
struct Span { base: usize, count: usize }

fn corner(w: &str, sp: &[Span; 3]) -> Result<(u8, usize, usize, usize), Vec<&'static str>> {
    let parts: Vec<&str> = w.split('/').collect();
    let mut bad = vec![];
    let mut got = [None; 3];
    for (i, p) in parts.iter().take(3).enumerate() {
        if p.is_empty() { continue; }
        match resolve(p, sp[i].base, sp[i].count) {
            Ok(x) => got[i] = Some(x),
            Err(k) => bad.push(k),
        }
    }
    if parts.len() > 3 || parts[0].is_empty() { bad.push("ExpectedVTNIndex"); }
    if !bad.is_empty() { return Err(bad); }
    let v = got[0].unwrap();
    Ok(match (got[1], got[2]) {
        (None, None) => (0, v, 0, 0),
        (Some(t), None) => (1, v, t, 0),
        (None, Some(n)) => (2, v, 0, n),
        (Some(t), Some(n)) => (3, v, t, n),
    })
}

pub fn obj(text: &str) -> Result<CSet, MErr> {
    let mut t = Toks::new(text);
    let mut set = CSet::default();
    t.skip_eols();
    while t.peek() == T::W("mtllib") {
        t.next();
        set.libs.extend(t.rest().into_iter().map(|x| x.0.to_string()));
        t.skip_eols();
    }
    let mut base = [0usize; 3];
    loop {
        t.skip_eols();
        if t.peek() == T::Eof { break; }
        let o = object(&mut t, base)?;
        base[0] += o.v.len();
        base[1] += o.vt.len();
        base[2] += o.vn.len();
        set.objs.push(o);
    }
    Ok(set)
}

fn object(t: &mut Toks, base: [usize; 3]) -> Result<CObj, MErr> {
    let mut o = CObj::default();
    if t.peek() == T::W("o") {
        t.next();
        match t.next() {
            (T::W(n), _) => o.name = n.to_string(),
            (T::Eol, l) => return Err(err(l, "InvalidObjectStatement")),
            (T::Eof, l) => return Err(err(l, "EndOfFile")),
        }
        match t.next() {
            (T::Eol, _) => {}
            (T::W(_), l) => return Err(err(l, "ExpectedTagStatement")),
            (T::Eof, l) => return Err(err(l, "EndOfFile")),
        }
    }
    let mut cur_groups: Vec<usize> = vec![];
    // the open material range: name and elements; None until a material or element appears
    let mut open: Option<(Option<String>, Vec<usize>)> = None;
    loop {
        let (tok, line) = (t.peek(), t.line());
        let w = match tok {
            T::Eol => { t.next(); continue; }
            T::Eof | T::W("o") => break,
            T::W(w) => w,
        };
        t.next();
        match w {
            "v" => {
                let (x, y, z) = (t.float()?, t.float()?, t.float()?);
                let w = t.opt_float().unwrap_or(1.0);
                o.v.push([bits(x), bits(y), bits(z), bits(w)]);
            }
            "vt" => {
                let u = t.float()?;
                let v = t.opt_float().unwrap_or(0.0);
                let w = t.opt_float().unwrap_or(0.0);
                o.vt.push([bits(u), bits(v), bits(w)]);
            }
            "vn" => {
                let (x, y, z) = (t.float()?, t.float()?, t.float()?);
                o.vn.push([bits(x), bits(y), bits(z)]);
            }
            "g" => {
                let mut names: Vec<String> = t.rest().into_iter().map(|x| x.0.to_string()).collect();
                if names.is_empty() && !o.groups.is_empty() { names.push("default".into()); }
                let st = o.groups.len();
                o.groups.extend(names);
                cur_groups = (st..o.groups.len()).collect();
            }
            "s" => match t.next() {
                (T::W("off"), _) => o.smooth.push(0),
                (T::W(n), l) => match n.parse::<u64>() {
                    Ok(n) => o.smooth.push(n),
                    Err(_) => return Err(err(l, "SmoothingGroupNameMustBeOffOrInteger")),
                },
                (_, l) => return Err(err(l, "SmoothingGroupDeclarationHasNoName")),
            },
            "usemtl" => match t.next() {
                (T::W(n), _) => {
                    if let Some(r) = open.take() {
                        if !r.1.is_empty() { o.geoms.push(r); }
                    }
                    open = Some((Some(n.to_string()), vec![]));
                }
                (_, l) => return Err(err(l, "MaterialStatementHasNoName")),
            },
            "p" | "l" | "f" => {
                let sp = [
                    Span { base: base[0], count: base[0] + o.v.len() },
                    Span { base: base[1], count: base[1] + o.vt.len() },
                    Span { base: base[2], count: base[2] + o.vn.len() },
                ];
                let first = o.elems.len();
                element(t, w, line, &sp, &mut o.elems)?;
                if o.groups.is_empty() {
                    o.groups.push("default".into());
                    cur_groups = vec![0];
                }
                if o.smooth.is_empty() { o.smooth.push(0); }
                let r = open.get_or_insert((None, vec![]));
                for i in first..o.elems.len() {
                    o.shapes.push((i, cur_groups.clone(), o.smooth.len() - 1));
                    r.1.push(i);
                }
            }
            _ => return Err(err(line, "InvalidObjectStatement")),
        }
    }
    if let Some(r) = open { o.geoms.push(r); }
    Ok(o)
}

fn element(t: &mut Toks, w: &str, line: usize, sp: &[Span; 3], out: &mut Vec<CElem>) -> Result<(), MErr> {
    let args = t.rest();
    // a line that ends too early
    let short_kind = if t.peek() == T::Eof { "EndOfFile" } else { "ExpectedInteger" };
    if w == "p" {
        if args.is_empty() { return Err(err(t.line(), short_kind)); }
        for (a, l) in args {
            let i = resolve(a, sp[0].base, sp[0].count).map_err(|k| err(l, k))?;
            out.push(CElem { kind: 'p', c: vec![(0, i, 0, 0)] });
        }
        return Ok(());
    }
    let need = if w == "l" { 2 } else { 3 };
    let mut cs = vec![];
    let mut bad: Option<MErr> = None;
    for (a, l) in &args {
        match corner(a, sp) {
            Ok(c) => cs.push(c),
            Err(mut ks) => {
                // further defects of the same statement are also a fair description
                if args.len() < need { ks.push(if w == "f" { "EveryFaceElementMustHaveAtLeastThreeVertices" } else { short_kind }); }
                if cs.windows(2).any(|p| p[0].0 != p[1].0) { ks.push("EveryVTNIndexMustHaveTheSameFormForAGivenElement"); }
                bad = Some(MErr { line: *l, kinds: ks });
                break;
            }
        }
    }
    if let Some(e) = bad { return Err(e); }
    let mixed = cs.windows(2).any(|p| p[0].0 != p[1].0);
    if cs.len() < need {
        let k = if w == "f" { "EveryFaceElementMustHaveAtLeastThreeVertices" } else { short_kind };
        let mut e = err(line, k);
        if mixed { e.kinds.push("EveryVTNIndexMustHaveTheSameFormForAGivenElement"); }
        return Err(e);
    }
    if mixed { return Err(err(line, "EveryVTNIndexMustHaveTheSameFormForAGivenElement")); }
    if w == "l" {
        for p in cs.windows(2) { out.push(CElem { kind: 'l', c: p.to_vec() }); }
    } else {
        for p in cs[1..].windows(2) { out.push(CElem { kind: 'f', c: vec![cs[0], p[0], p[1]] }); }
    }
    Ok(())
}

pub fn mtl(text: &str) -> Result<Vec<CMat>, MErr> {
    let mut t = Toks::new(text);
    let mut out: Vec<CMat> = vec![];
    loop {
        t.skip_eols();
        let (tok, line) = t.next();
        let w = match tok { T::Eof => break, T::W(w) => w, T::Eol => unreachable!() };
        if w == "newmtl" {
            let name = mname(&mut t)?;
            let z = bits(0.0);
            out.push(CMat {
                name, colors: [[z; 3]; 4], ns: z, d: bits(1.0), ni: None, illum: 2,
                maps: Default::default(),
            });
            continue;
        }
        let m = match out.last_mut() {
            Some(m) => m,
            None => return Err(err(line, "ExpectedEndOfInput")),
        };
        match w {
            "Ka" | "Kd" | "Ks" | "Ke" => {
                let c = [bits(t.float()?), bits(t.float()?), bits(t.float()?)];
                m.colors[match w { "Ka" => 0, "Kd" => 1, "Ks" => 2, _ => 3 }] = c;
            }
            "d" => m.d = bits(t.float()?),
            "Ns" => m.ns = bits(t.float()?),
            "Ni" => m.ni = Some(bits(t.float()?)),
            "illum" => match t.next() {
                (T::W(n), l) => match n.parse::<u64>() {
                    Ok(n) if n <= 2 => m.illum = n as u8,
                    Ok(_) => return Err(err(l, "UnknownIlluminationModel")),
                    Err(_) => return Err(err(l, "ExpectedInteger")),
                },
                (T::Eol, l) => return Err(err(l, "ExpectedInteger")),
                (T::Eof, l) => return Err(err(l, "EndOfFile")),
            },
            _ => {
                let w = if w == "bump" { "map_Bump" } else { w };
                match MAPS.iter().position(|&x| x == w) {
                    Some(i) => m.maps[i] = Some(mname(&mut t)?),
                    None => return Err(err(line, "ErrorParsingMaterial")),
                }
            }
        }
    }
    Ok(out)
}

fn mname(t: &mut Toks) -> Result<String, MErr> {
    match t.next() {
        (T::W(n), _) => Ok(n.to_string()),
        (T::Eol, l) => Err(err(l, "ErrorParsingMaterial")),
        (T::Eof, l) => Err(err(l, "EndOfFile")),
    }
}

pub fn run(kind: char, text: &str) -> Result<Canon, MErr> {
    if kind == 'o' { obj(text).map(Canon::Obj) } else { mtl(text).map(Canon::Mtl) }
}

/// Size of a result in items, for proportionality bounds.
pub fn out_size(c: &Canon) -> usize {
    match c {
        Canon::Obj(s) => s.libs.len() + s.objs.iter().map(|o| {
            8 + o.v.len() + o.vt.len() + o.vn.len() + o.groups.len() + o.smooth.len() + o.elems.len()
                + o.shapes.iter().map(|x| 1 + x.1.len()).sum::<usize>()
                + o.geoms.iter().map(|x| 1 + x.1.len()).sum::<usize>()
        }).sum::<usize>(),
        Canon::Mtl(m) => m.len() * 8,
    }
}
