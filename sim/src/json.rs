//! A small JSON value, so that the simulator builds without dependencies.
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    F(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(Cow<'static, str>, V)>),
}

impl From<i64> for V { fn from(x: i64) -> V { V::Int(x) } }
impl From<i32> for V { fn from(x: i32) -> V { V::Int(x as i64) } }
impl From<usize> for V { fn from(x: usize) -> V { V::Int(x as i64) } }
impl From<u64> for V { fn from(x: u64) -> V { V::Int(x as i64) } }
impl From<bool> for V { fn from(x: bool) -> V { V::Bool(x) } }
impl From<f64> for V { fn from(x: f64) -> V { V::F(x) } }
impl From<&str> for V { fn from(x: &str) -> V { V::Str(x.to_string()) } }
impl From<String> for V { fn from(x: String) -> V { V::Str(x) } }
impl From<Vec<V>> for V { fn from(x: Vec<V>) -> V { V::Arr(x) } }

#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => {
        $crate::json::V::Obj(vec![$((std::borrow::Cow::Borrowed($k), $crate::json::V::from($v))),*])
    };
}

impl V {
    pub fn get(&self, k: &str) -> &V {
        if let V::Obj(o) = self {
            for (kk, v) in o {
                if kk == k { return v; }
            }
        }
        &V::Null
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut V> {
        if let V::Obj(o) = self {
            for (kk, v) in o {
                if kk == k { return Some(v); }
            }
        }
        None
    }
    pub fn set(&mut self, k: &'static str, val: V) {
        if let V::Obj(o) = self {
            for (kk, v) in o.iter_mut() {
                if kk == k { *v = val; return; }
            }
            o.push((Cow::Borrowed(k), val));
        }
    }
    pub fn str(&self) -> &str { if let V::Str(s) = self { s } else { "" } }
    pub fn int(&self) -> i64 {
        match self { V::Int(i) => *i, V::F(f) => *f as i64, V::Bool(b) => *b as i64, _ => 0 }
    }
    pub fn us(&self) -> usize { self.int().max(0) as usize }
    pub fn boolean(&self) -> bool { matches!(self, V::Bool(true)) }
    pub fn arr(&self) -> &[V] { if let V::Arr(a) = self { a } else { &[] } }
    pub fn is_null(&self) -> bool { matches!(self, V::Null) }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, None, 0);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, Some(1), 0);
        s.push('\n');
        s
    }
    fn write(&self, out: &mut String, indent: Option<usize>, depth: usize) {
        match self {
            V::Null => out.push_str("null"),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => out.push_str(&i.to_string()),
            V::F(f) => {
                if f.is_finite() { out.push_str(&format!("{:.3}", f)) } else { out.push_str("0") }
            }
            V::Str(s) => write_str(s, out),
            V::Arr(a) => {
                let nl = indent.is_some() && a.iter().any(|x| matches!(x, V::Obj(_) | V::Arr(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    if nl { out.push('\n'); for _ in 0..=depth { out.push(' '); } }
                    x.write(out, if depth >= 2 { None } else { indent }, depth + 1);
                }
                if nl && !a.is_empty() { out.push('\n'); for _ in 0..depth { out.push(' '); } }
                out.push(']');
            }
            V::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    if indent.is_some() && depth < 2 { out.push('\n'); for _ in 0..=depth { out.push(' '); } }
                    write_str(k, out);
                    out.push(':');
                    if indent.is_some() { out.push(' '); }
                    x.write(out, indent, depth + 1);
                }
                if indent.is_some() && depth < 2 && !o.is_empty() { out.push('\n'); for _ in 0..depth { out.push(' '); } }
                out.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<V, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = pv(s, b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() { return Err(format!("trailing data at {}", p)); }
        Ok(v)
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') { *p += 1; }
}

fn pv(s: &str, b: &[u8], p: &mut usize) -> Result<V, String> {
    ws(b, p);
    if *p >= b.len() { return Err("eof".into()); }
    match b[*p] {
        b'n' => { *p += 4; Ok(V::Null) }
        b't' => { *p += 4; Ok(V::Bool(true)) }
        b'f' => { *p += 5; Ok(V::Bool(false)) }
        b'"' => Ok(V::Str(ps(s, b, p)?)),
        b'[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == b']' { *p += 1; return Ok(V::Arr(a)); }
                if !a.is_empty() {
                    if *p >= b.len() || b[*p] != b',' { return Err(format!("expected , at {}", p)); }
                    *p += 1;
                }
                a.push(pv(s, b, p)?);
            }
        }
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == b'}' { *p += 1; return Ok(V::Obj(o)); }
                if !o.is_empty() {
                    if *p >= b.len() || b[*p] != b',' { return Err(format!("expected , at {}", p)); }
                    *p += 1;
                    ws(b, p);
                }
                let k = ps(s, b, p)?;
                ws(b, p);
                if *p >= b.len() || b[*p] != b':' { return Err(format!("expected : at {}", p)); }
                *p += 1;
                let v = pv(s, b, p)?;
                o.push((Cow::Owned(k), v));
            }
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { *p += 1; }
            let t = &s[st..*p];
            if let Ok(i) = t.parse::<i64>() { return Ok(V::Int(i)); }
            t.parse::<f64>().map(V::F).map_err(|_| format!("bad number `{}` at {}", t, st))
        }
    }
}

fn ps(s: &str, b: &[u8], p: &mut usize) -> Result<String, String> {
    if *p >= b.len() || b[*p] != b'"' { return Err(format!("expected string at {}", p)); }
    *p += 1;
    let mut out = String::new();
    let mut st = *p;
    loop {
        if *p >= b.len() { return Err("eof in string".into()); }
        match b[*p] {
            b'"' => { out.push_str(&s[st..*p]); *p += 1; return Ok(out); }
            b'\\' => {
                out.push_str(&s[st..*p]);
                let c = *b.get(*p + 1).ok_or("eof")?;
                *p += 2;
                match c {
                    b'n' => out.push('\n'),
                    b'r' => out.push('\r'),
                    b't' => out.push('\t'),
                    b'u' => {
                        let h = u32::from_str_radix(s.get(*p..*p + 4).ok_or("eof")?, 16).map_err(|e| e.to_string())?;
                        *p += 4;
                        out.push(char::from_u32(h).unwrap_or('\u{fffd}'));
                    }
                    c => out.push(c as char),
                }
                st = *p;
            }
            _ => *p += 1,
        }
    }
}
