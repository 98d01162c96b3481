//! World "sinks": values are printed to sinks that refuse bytes, take them in small
//! pieces, are interrupted or fill up.
use crate::canon::Raw;
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::obj;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, Opt};
use crate::thr::env;
use std::fmt::{self, Write as _};
use std::io::{self, Write as _};
use wavefront_obj as lib;

/// Refuses what does not fit its budget.
struct Pipe {
    got: String,
    budget: usize,
    partial: bool,
    transient: bool,
    failed: bool,
    after: usize,
}

impl fmt::Write for Pipe {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::outside(|| {
            if self.failed {
                if !s.is_empty() { self.after += 1; self.got.push_str(s); }
                return if self.transient { Ok(()) } else { Err(fmt::Error) };
            }
            let room = self.budget.saturating_sub(self.got.len());
            if s.len() <= room { self.got.push_str(s); return Ok(()); }
            if self.partial {
                let mut k = room;
                while !s.is_char_boundary(k) { k -= 1; }
                self.got.push_str(&s[..k]);
            }
            self.failed = true;
            Err(fmt::Error)
        })
    }
}

/// A byte sink: short writes of at most `step`, interruptions, then an error or a full disk.
struct Io {
    got: Vec<u8>,
    budget: usize,
    step: usize,
    intr: usize,
    calls: usize,
    full: bool,
    failed: bool,
    after: usize,
    intrs: u64,
}

impl io::Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        rt::outside(|| {
            if b.is_empty() { return Ok(0); }
            self.calls += 1;
            if self.failed { self.after += 1; }
            if self.intr > 0 && self.calls % self.intr == 0 {
                self.intrs += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let room = self.budget.saturating_sub(self.got.len());
            if room == 0 {
                self.failed = true;
                return if self.full { Ok(0) } else { Err(io::Error::from(io::ErrorKind::StorageFull)) };
            }
            let n = b.len().min(room).min(self.step.max(1));
            self.got.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

trait Shown: fmt::Display + fmt::Debug {}
impl<T: fmt::Display + fmt::Debug> Shown for T {}

/// Values that have only the debugging form.
struct Plain<'a, T>(&'a T);
impl<T: fmt::Debug> fmt::Display for Plain<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: fmt::Debug> fmt::Debug for Plain<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }

/// The formats a caller may ask for.
macro_rules! put {
    ($how:expr, $w:expr, $p:expr) => {
        match $how {
            1 => write!($w, "{:?}", $p),
            2 => write!($w, "{:#?}", $p),
            3 => write!($w, "{:#}", $p),
            4 => write!($w, "{:>60}", $p),
            5 => write!($w, "{:.3}", $p),
            6 => write!($w, "{:+08.1}", $p),
            7 => write!($w, "<{:^30}|{}>", $p, $p),
            _ => write!($w, "{}", $p),
        }
    };
}

fn whole(how: usize, p: &dyn Shown) -> String {
    let mut s = String::new();
    let _ = put!(how, s, p);
    s
}

fn plain(v: &Raw) -> Vec<Box<dyn Shown + '_>> {
    let mut boxes: Vec<Box<dyn Shown + '_>> = vec![];
    if let Raw::M(Ok(s)) = v {
        boxes.push(Box::new(Plain(s)));
        for m in s.materials.iter().take(3) { boxes.push(Box::new(Plain(m))); }
    }
    boxes
}

fn printables<'a>(v: &'a Raw, extra: &'a Extra, boxes: &'a [Box<dyn Shown + 'a>]) -> Vec<&'a dyn Shown> {
    let mut out: Vec<&dyn Shown> = vec![];
    match v {
        Raw::O(Ok(s)) => {
            out.push(s);
            for o in &s.objects {
                out.push(o);
                for x in o.vertex_set.iter().take(3) { out.push(x); }
                for x in o.texture_vertex_set.iter().take(3) { out.push(x); }
                for x in o.normal_vertex_set.iter().take(3) { out.push(x); }
                for x in o.group_set.iter().take(3) { out.push(x); }
                for x in o.smoothing_group_set.iter().take(3) { out.push(x); }
                for x in o.element_set.iter().take(6) { out.push(x); }
            }
        }
        Raw::O(Err(e)) => out.push(e),
        Raw::M(Err(e)) => out.push(e),
        Raw::M(Ok(_)) => for b in boxes.iter() { out.push(&**b) },
    }
    for x in &extra.idx { out.push(x); }
    for x in &extra.els { out.push(x); }
    for x in &extra.vs { out.push(x); }
    for x in &extra.ss { out.push(x); }
    out
}

struct Extra {
    idx: Vec<lib::obj::VTNIndex>,
    els: Vec<lib::obj::Element>,
    vs: Vec<lib::obj::Vertex>,
    ss: Vec<lib::obj::SmoothingGroup>,
}

fn extra() -> Extra {
    use lib::obj::*;
    let big = usize::MAX - 1;
    let i = vec![VTNIndex::V(0), VTNIndex::V(big), VTNIndex::VT(9, 99), VTNIndex::VN(999, big), VTNIndex::VTN(1, 22, 333)];
    Extra {
        els: vec![Element::Point(i[0]), Element::Line(i[2], i[2]), Element::Face(i[4], i[3], i[1])],
        idx: i,
        vs: vec![
            Vertex { x: f64::NAN, y: f64::INFINITY, z: -0.0, w: f64::MIN_POSITIVE / 2.0 },
            Vertex { x: f64::MAX, y: -1e-300, z: 0.1, w: 1.0 },
        ],
        ss: vec![SmoothingGroup(0), SmoothingGroup(usize::MAX)],
    }
}

pub fn exec(s: &V, c: &mut Ctx) {
    let e = env(s);
    let ex = extra();
    for o in s.get("ops").arr() {
        let a = o.arr();
        let g = |i: usize| a.get(i).map_or(0, |x| x.us());
        let v = match &e.vals[g(0) % e.vals.len()] { Ok(v) => v, Err(_) => continue };
        let boxes = plain(v);
        let ps = printables(v, &ex, &boxes);
        if ps.is_empty() { continue; }
        let p = ps[g(1) % ps.len()];
        let how = g(8) % 8;
        let full = match rt::call(Opt::default(), || whole(how, p)) {
            (Ok(t), _) => t,
            (Err(s), _) => { c.fail("panic", format!("printing ended with {:?}", s)); return; }
        };
        c.evals += 1;
        let budget = if g(3) == 0 { g(4) % (full.len() + 2) } else { full.len() + 1 };
        let what;
        let (res, got, failed, after);
        if g(2) == 0 {
            let mut w = Pipe { got: String::new(), budget, partial: g(5) % 2 == 1, transient: g(6) % 2 == 1, failed: false, after: 0 };
            let (r, m) = rt::call(Opt::default(), || put!(how, w, p));
            c.now += m.steps * 10;
            what = format!("{} to a text sink with room for {} of {} bytes", show(&full), budget, full.len());
            if w.failed { c.fault(if w.partial { "sink_takes_part_then_refuses" } else { "sink_refuses" }); if w.transient { c.fault("sink_recovers_after_refusal"); } }
            res = r.map(|x| x.is_ok());
            got = w.got.into_bytes();
            failed = w.failed;
            after = w.after;
        } else {
            let mut w = Io { got: vec![], budget, step: 1 + g(5) % 17, intr: if g(6) % 3 == 0 { 0 } else { 2 + g(6) % 5 }, calls: 0, full: g(7) % 2 == 1, failed: false, after: 0, intrs: 0 };
            let (r, m) = rt::call(Opt::default(), || put!(how, w, p));
            c.now += m.steps * 10;
            what = format!("{} to a byte sink with room for {} of {} bytes, {} at a time", show(&full), budget, full.len(), w.step);
            if w.failed { c.fault(if w.full { "write_returns_zero" } else { "storage_full" }); }
            c.count("fault.short_write", w.calls as u64);
            c.count("fault.write_interrupted", w.intrs);
            res = r.map(|x| x.is_ok());
            got = w.got;
            failed = w.failed;
            after = w.after;
        }
        c.ev("print", mix(fnv(1, &got), budget as u64), || format!("{} -> {:?}", what, res));
        if failed { c.distinct(mix(fnv(g(2) as u64, full.as_bytes()), budget as u64 * 64 + (g(5) % 32) as u64)); }
        match res {
            Err(s) => { c.fail("panic", format!("{} ended with {:?}", what, s)); return; }
            Ok(ok) => {
                if after > 0 { c.fail("wrote-after-failure", format!("{}: {} writes after the sink had failed", what, after)); return; }
                if !full.as_bytes().starts_with(&got) { c.fail("gap", format!("{}: the sink holds {:?}", what, String::from_utf8_lossy(&got))); return; }
                if ok && failed { c.fail("unreported", format!("{}: the sink refused bytes, printing reported success", what)); return; }
                if !ok && !failed { c.fail("false-failure", format!("{}: the sink took everything, printing reported failure", what)); return; }
                if ok && got.len() != full.len() { c.fail("short", format!("{}: only {} bytes arrived", what, got.len())); return; }
            }
        }
        match rt::call(Opt::default(), || whole(how, p)).0 {
            Ok(t) if t == full => {}
            x => { c.fail("reprint", format!("{}: printing again gave {:?}", what, x)); return; }
        }
    }
}

pub fn generate(r: &mut Rng) -> V {
    let nd = r.range(1, 2);
    let docs: Vec<V> = (0..nd).map(|_| {
        let k = if r.chance(4, 5) { 'o' } else { 'm' };
        let sz = *r.pick(&[6, 20, 40]);
        let mut c = gen::cfg(r, sz);
        if k == 'm' { c.bad = 100; }
        let t = if r.chance(4, 5) && k == 'o' { gen::sound(r, k, &c) } else { gen::doc(r, k, &c) };
        V::Arr(vec![V::from(k.to_string()), t.into()])
    }).collect();
    let n = r.range(2, 24);
    let ops: Vec<V> = (0..n).map(|_| {
        let big = r.chance(1, 3);
        let val = if big { 0 } else { r.below(200) };
        V::Arr(vec![r.below(nd).into(), val.into(), r.below(2).into(), (r.chance(1, 8) as usize).into(), r.below(1 << 16).into(), r.below(64).into(), r.below(64).into(), r.below(2).into(), (if r.chance(1, 3) { r.below(8) } else { 0 }).into()])
    }).collect();
    obj! { "docs": V::Arr(docs), "ops": V::Arr(ops) }
}
