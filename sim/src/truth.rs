//! Checks on what a load that succeeded says: the printed summary (C16), polygons and
//! polylines (C21), lookups (C22), numbers (C24).
use crate::canon::Out;
use crate::ctx::{show, Ctx};
use crate::model::{self, Canon};
use crate::pipe::{hang_limit, kname};
use crate::rng::fnv;
use crate::rt::{self, Opt};
use lib::obj::{Object, ObjectSet, VTNIndex as I};
use std::cmp::Ordering;
use wavefront_obj as lib;

fn mesh(text: &str) -> Option<ObjectSet> {
    match rt::call(hang_limit(text.len()), || lib::obj::parse(text)).0 { Ok(Ok(s)) => Some(s), _ => None }
}

// ------------------------------------------------------------------ C16

/// What is left of a printed summary without its layout.
fn facts(t: &str) -> Vec<String> {
    crate::canon::own(t).split('\n').map(|l| l.trim_start_matches(' ')).filter(|l| !matches!(*l, "" | "}" | "}}" | "Object {" | "ObjectSet {")).map(String::from).collect()
}

fn set_facts<T: std::fmt::Display>(out: &mut Vec<String>, name: &str, set: &[T]) {
    out.push(format!("{} set:", name));
    out.push(match set { [] => "data: []".into(), [a] => format!("data: [({}) ... ({})]", a, a), [a, .., b] => format!("data: [({}) ... ({})]", a, b) });
    out.push(format!("length: {}", set.len()));
}

fn object_facts(o: &Object) -> Vec<String> {
    let mut f = vec![format!("name: {}", o.name)];
    set_facts(&mut f, "vertex", &o.vertex_set);
    set_facts(&mut f, "texture vertex", &o.texture_vertex_set);
    set_facts(&mut f, "normal vertex", &o.normal_vertex_set);
    set_facts(&mut f, "group", &o.group_set);
    set_facts(&mut f, "smoothing group", &o.smoothing_group_set);
    set_facts(&mut f, "element", &o.element_set);
    f
}

pub fn summary(text: &str, c: &mut Ctx) {
    let Some(s) = mesh(text) else { return };
    c.count("summaries", 1);
    let mut all = vec![];
    for (i, o) in s.objects.iter().enumerate() {
        let want = rt::outside(|| object_facts(o));
        // every object's part is looked at in the whole; some also on their own
        if i < 3 || i % 16 == 0 {
            match rt::call(Opt::default(), || format!("{}", o)).0 {
                Ok(t) => {
                    let got = facts(&t);
                    if got != want { return untrue(c, text, &format!("object {}", i), &got, &want); }
                }
                Err(e) => return c.fail("print-crash", format!("printing object {} of OBJ text {} ended with {:?}", i, show(text), e)),
            }
        }
        all.extend(want);
    }
    match rt::call(Opt::default(), || format!("{}", s)).0 {
        Ok(t) => {
            let got = facts(&t);
            if got != all { untrue(c, text, "the object set", &got, &all); }
        }
        Err(e) => c.fail("print-crash", format!("printing OBJ text {} ended with {:?}", show(text), e)),
    }
}

fn untrue(c: &mut Ctx, text: &str, what: &str, got: &[String], want: &[String]) {
    let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap_or(0);
    c.fail("untrue-summary", format!("OBJ text {}: {} prints {:?} where {:?} is true", show(text), what, got.get(i), want.get(i)));
}

// ------------------------------------------------------------------ C21

pub fn fans(text: &str, out: &Out, c: &mut Ctx) {
    let (Out::Ok(Canon::Obj(got)), Ok(Canon::Obj(want))) = (out, model::run('o', text)) else { return };
    c.count("polygons_checked", want.objs.iter().map(|o| o.elems.len() as u64).sum());
    if got.objs.len() != want.objs.len() { return; }
    for (i, (g, w)) in got.objs.iter().zip(&want.objs).enumerate() {
        // other differences are not about polygons
        if (g.v.len(), g.vt.len(), g.vn.len()) != (w.v.len(), w.vt.len(), w.vn.len()) { continue; }
        if g.elems != w.elems {
            let n = g.elems.iter().zip(&w.elems).take_while(|(a, b)| a == b).count();
            return c.fail("polygon-changed", format!("OBJ text {}: object {} has {} elements for {}; element {} is {:?}, the text says {:?}", show(text), i, g.elems.len(), w.elems.len(), n, g.elems.get(n), w.elems.get(n)));
        }
    }
}

// ------------------------------------------------------------------ C22

fn resolves(o: &Object, i: I) -> bool {
    let (v, t, n) = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
    match i {
        I::V(a) => a < v,
        I::VT(a, b) => a < v && b < t,
        I::VN(a, c) => a < v && c < n,
        I::VTN(a, b, c) => a < v && b < t && c < n,
    }
}

fn look(o: &Object, i: I) -> Result<(), String> {
    match rt::call(Opt::default(), || (o.get_vtn_triple(i).is_some(), crate::thr::lookup_ok(o, i))).0 {
        Err(e) => Err(format!("looking up {:?} ended with {:?}", i, e)),
        Ok((found, right)) => {
            if found != resolves(o, i) { Err(format!("looking up {:?} {} although the object {} it", i, if found { "found something" } else { "found nothing" }, if found { "does not hold" } else { "holds" })) }
            else if found && !right { Err(format!("looking up {:?} returned other data than the stored", i)) }
            else { Ok(()) }
        }
    }
}

pub fn lookups(text: &str, c: &mut Ctx) {
    let Some(mut s) = mesh(text) else { return };
    let mut h = fnv(3, text.as_bytes());
    let mut rnd = |n: usize| { h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (h >> 33) as usize % n.max(1) };
    let objects = s.objects.len();
    for oi in 0..objects {
        if oi >= 4 && rnd(8) != 0 { continue; }
        for cut in 0..2 {
            let o = &mut s.objects[oi];
            if cut == 1 {
                // the mesh after its user dropped some of its tail
                if rnd(3) != 0 { continue; }
                let k = rnd(o.vertex_set.len() + 1); o.vertex_set.truncate(k);
                let k = rnd(o.texture_vertex_set.len() + 1); o.texture_vertex_set.truncate(k);
                let k = rnd(o.normal_vertex_set.len() + 1); o.normal_vertex_set.truncate(k);
            }
            let o = &s.objects[oi];
            let mut probes: Vec<I> = vec![];
            for e in o.element_set.iter().take(60) {
                match *e { lib::obj::Element::Point(a) => probes.push(a), lib::obj::Element::Line(a, b) => probes.extend([a, b]), lib::obj::Element::Face(a, b, d) => probes.extend([a, b, d]) }
            }
            let near = |len: usize, k: usize| match k { 0 => 0, 1 => len.wrapping_sub(1), 2 => len, 3 => len + 1, 4 => usize::MAX, 5 => 1 << 32, 6 => len / 2, 7 => usize::MAX / 2 + 1, _ => len.wrapping_sub(2) };
            for _ in 0..12 {
                let (a, b, d) = (near(o.vertex_set.len(), rnd(9)), near(o.texture_vertex_set.len(), rnd(9)), near(o.normal_vertex_set.len(), rnd(9)));
                probes.push(match rnd(4) { 0 => I::V(a), 1 => I::VT(a, b), 2 => I::VN(a, d), _ => I::VTN(a, b, d) });
            }
            c.count("lookups", probes.len() as u64);
            for p in probes {
                if let Err(d) = look(o, p) {
                    return c.fail("lookup", format!("OBJ text {}, object {} with {} vertices, {} texture vertices, {} normals: {}", show(text), oi, o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len(), d));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C24

pub fn numbers(kind: char, text: &str, out: &Out, c: &mut Ctx) {
    let Out::Ok(got) = out else { return };
    let Ok(want) = model::run_exact(kind, text) else { return };
    let mut n = 0;
    let mut bad = None;
    let mut cmp = |what: String, g: &[u64], w: &[u64]| {
        if g.len() != w.len() { return; }
        for (a, b) in g.iter().zip(w) {
            n += 1;
            if a != b && bad.is_none() { bad = Some(format!("{}: stored {:e} ({:016x}), nearest is {:e} ({:016x})", what, f64::from_bits(*a), a, f64::from_bits(*b), b)); }
        }
    };
    match (got, &want) {
        (Canon::Obj(g), Canon::Obj(w)) => for (i, (a, b)) in g.objs.iter().zip(&w.objs).enumerate() {
            cmp(format!("object {} vertices", i), a.v.as_flattened(), b.v.as_flattened());
            cmp(format!("object {} texture vertices", i), a.vt.as_flattened(), b.vt.as_flattened());
            cmp(format!("object {} normals", i), a.vn.as_flattened(), b.vn.as_flattened());
        },
        (Canon::Mtl(g), Canon::Mtl(w)) if g.len() == w.len() => for (i, (a, b)) in g.iter().zip(w).enumerate() {
            cmp(format!("material {} colours", i), a.colors.as_flattened(), b.colors.as_flattened());
            cmp(format!("material {} scalars", i), &[a.ns, a.d], &[b.ns, b.d]);
            if let (Some(x), Some(y)) = (a.ni, b.ni) { cmp(format!("material {} optical density", i), &[x], &[y]); }
        },
        _ => {}
    }
    c.count("numbers_checked", n);
    if let Some(b) = bad { c.fail("not-nearest", format!("{} text {}: {}", kname(kind), show(text), b)); }
}

/// A natural number of any size, little end first.
#[derive(Clone)]
struct Big(Vec<u32>);

impl Big {
    fn of(x: u64) -> Big { let mut b = Big(vec![x as u32, (x >> 32) as u32]); b.trim(); b }
    fn trim(&mut self) { while self.0.last() == Some(&0) { self.0.pop(); } }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut k = a as u64;
        for d in &mut self.0 { k += *d as u64 * m as u64; *d = k as u32; k >>= 32; }
        if k > 0 { self.0.push(k as u32); }
    }
    fn pow10(&mut self, n: usize) {
        for _ in 0..n / 9 { self.mul_add(1_000_000_000, 0); }
        for _ in 0..n % 9 { self.mul_add(10, 0); }
    }
    fn shl(&mut self, n: usize) {
        for _ in 0..n % 32 { self.mul_add(2, 0); }
        if !self.0.is_empty() { let mut v = vec![0; n / 32]; v.append(&mut self.0); self.0 = v; }
    }
    fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    fn digits(mut self) -> String {
        let mut out = vec![];
        while !self.0.is_empty() {
            let mut k = 0u64;
            for d in self.0.iter_mut().rev() { k = k << 32 | *d as u64; *d = (k / 10) as u32; k %= 10; }
            out.push(b'0' + k as u8);
            self.trim();
        }
        if out.is_empty() { out.push(b'0'); }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
}

/// digits times ten to the exponent, for a plain decimal number
fn decimal(st: &str) -> Option<(bool, Vec<u8>, i64)> {
    let (neg, t) = match st.as_bytes().first()? { b'-' => (true, &st[1..]), b'+' => (false, &st[1..]), _ => (false, st) };
    let (m, e) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], t[i + 1..].parse::<i64>().unwrap_or(if t[i + 1..].starts_with('-') { -99999 } else { 99999 })), None => (t, 0) };
    let mut d: Vec<u8> = vec![];
    let mut exp = e.clamp(-99999, 99999);
    let mut point = false;
    for ch in m.bytes() {
        match ch { b'0'..=b'9' => { d.push(ch - b'0'); if point { exp -= 1; } } b'.' if !point => point = true, _ => return None }
    }
    if d.is_empty() { return None; }
    let lead = d.iter().take_while(|x| **x == 0).count();
    d.drain(..lead);
    Some((neg, d, exp))
}

/// Where the decimal lies against the numbers that round to this (non-negative) double.
fn place(d: &[u8], exp: i64, x: f64) -> Ordering {
    if d.is_empty() { return if x == 0.0 { Ordering::Equal } else { Ordering::Less }; }
    let top = d.len() as i64 + exp;
    if top > 400 { return if x == f64::INFINITY { Ordering::Equal } else { Ordering::Greater }; }
    if top < -400 { return if x == 0.0 { Ordering::Equal } else { Ordering::Less }; }
    let mut big = Big(vec![]);
    for c in d { big.mul_add(10, *c as u32); }
    big.trim();
    let against = |m: u64, k: i64| {
        let (mut l, mut r) = (big.clone(), Big::of(m));
        if exp >= 0 { l.pow10(exp as usize) } else { r.pow10(-exp as usize) }
        if k >= 0 { r.shl(k as usize) } else { l.shl(-k as usize) }
        l.cmp(&r)
    };
    let bits = x.to_bits();
    let (e, f) = ((bits >> 52) as i64, bits & ((1 << 52) - 1));
    if x == f64::INFINITY {
        // everything from halfway above the largest double on
        return if against((1 << 54) - 1, 970) == Ordering::Less { Ordering::Less } else { Ordering::Equal };
    }
    let (m, k) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let even = m % 2 == 0;
    match against(2 * m + 1, k - 1) { Ordering::Greater => return Ordering::Greater, Ordering::Equal if !even => return Ordering::Greater, _ => {} }
    if m > 0 {
        let lo = if f == 0 && e > 1 { against(4 * m - 1, k - 2) } else { against(2 * m - 1, k - 1) };
        match lo { Ordering::Less => return Ordering::Less, Ordering::Equal if !even => return Ordering::Less, _ => {} }
    }
    Ordering::Equal
}

/// The double nearest to a number the library's grammar has, worked out exactly.
pub fn nearest(st: &str) -> Option<f64> {
    let guess = st.parse::<f64>().ok()?;
    let Some((neg, d, exp)) = decimal(st) else { return Some(guess) };
    let mut x = guess.abs();
    for _ in 0..1000 {
        match place(&d, exp, x) {
            Ordering::Equal => break,
            Ordering::Less => x = f64::from_bits(x.to_bits() - 1),
            Ordering::Greater => x = f64::from_bits(x.to_bits() + 1),
        }
    }
    Some(if neg { -x } else { x })
}

/// A decimal exactly halfway between two doubles, or just beside it.
pub fn halfway(r: &mut crate::rng::Rng) -> String {
    let e = match r.below(5) { 0 => 0, 1 => r.range(1, 60), 2 => r.range(960, 1100), 3 => r.range(1075, 1200), _ => r.range(0, 2046) } as i64;
    let f = match r.below(4) { 0 => 0, 1 => (1u64 << 52) - 1, _ => r.u64() & ((1 << 52) - 1) };
    let (m, k) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let mut b = Big::of(2 * m + 1);
    let k = k - 1;
    let mut point = 0usize;
    if k >= 0 { b.shl(k as usize) } else { for _ in 0..-k { b.mul_add(5, 0); } point = -k as usize; }
    let mut s = b.digits();
    if point > 0 {
        while s.len() <= point { s.insert(0, '0'); }
        s.insert(s.len() - point, '.');
    }
    match r.below(4) {
        0 => { if point == 0 { s.push('.'); } for _ in 0..r.below(30) { s.push('0'); } s.push('1'); }
        1 => { let l = s.pop().unwrap(); s.push((l as u8 - 1) as char); s.push_str(if point > 0 { "9" } else { "" }); }
        _ => {}
    }
    // trim to what a sloppy writer keeps
    if r.chance(1, 6) && point > 0 { let n = s.find('.').unwrap() + 2 + r.below(25); s.truncate(n.min(s.len())); }
    if r.chance(1, 4) { s.insert(0, '-'); }
    s
}

pub fn load(kind: char, text: &str, out: &Out, c: &mut Ctx) {
    let prop = c.prop.clone();
    match (prop.as_str(), kind) {
        ("C16", 'o') => summary(text, c),
        ("C21", 'o') => fans(text, out, c),
        ("C22", 'o') => lookups(text, c),
        ("C24", _) => numbers(kind, text, out, c),
        _ => {}
    }
}
