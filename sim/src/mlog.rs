//! World "log": a mesh is logged record by record with the library's own printing,
//! synced now and then, the machine crashes, the log is repaired and loaded back.
use crate::canon::{self, Out};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::model::{bits, CElem, CObj, CSet, Canon};
use crate::obj;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, Opt};
use lib::obj::{Element, Group, NormalVertex, SmoothingGroup, TextureVertex, VTNIndex, Vertex};
use wavefront_obj as lib;

#[derive(Clone, Debug)]
enum Rec { V(Vertex), T(TextureVertex), N(NormalVertex), E(Element), G(Vec<String>), S(usize) }

fn print(r: &Rec) -> Result<String, rt::Stop> {
    rt::call(Opt::default(), || match r {
        Rec::V(x) => format!("{}", x),
        Rec::T(x) => format!("{}", x),
        Rec::N(x) => format!("{}", x),
        Rec::E(x) => format!("{}", x),
        Rec::G(x) => { let mut s = String::from("g"); for n in x { s += &format!(" {}", Group(n.clone())); } s }
        Rec::S(x) => format!("s {}", SmoothingGroup(*x)),
    }).0
}

fn corner(i: &VTNIndex) -> (u8, usize, usize, usize) {
    match *i { VTNIndex::V(v) => (0, v, 0, 0), VTNIndex::VT(v, t) => (1, v, t, 0), VTNIndex::VN(v, n) => (2, v, 0, n), VTNIndex::VTN(v, t, n) => (3, v, t, n) }
}

/// What the log says, computed from the records themselves.
fn expect(recs: &[Rec]) -> Canon {
    let mut o = CObj::default();
    let mut cur: Vec<usize> = vec![];
    for r in recs {
        match r {
            Rec::V(x) => o.v.push([bits(x.x), bits(x.y), bits(x.z), bits(x.w)]),
            Rec::T(x) => o.vt.push([bits(x.u), bits(x.v), bits(x.w)]),
            Rec::N(x) => o.vn.push([bits(x.x), bits(x.y), bits(x.z)]),
            Rec::G(n) => { let st = o.groups.len(); o.groups.extend(n.iter().cloned()); cur = (st..o.groups.len()).collect(); }
            Rec::S(n) => o.smooth.push(*n as u64),
            Rec::E(e) => {
                if o.groups.is_empty() { o.groups.push("default".into()); cur = vec![0]; }
                if o.smooth.is_empty() { o.smooth.push(0); }
                let i = o.elems.len();
                o.elems.push(match e {
                    Element::Point(a) => CElem { kind: 'p', c: vec![corner(a)] },
                    Element::Line(a, b) => CElem { kind: 'l', c: vec![corner(a), corner(b)] },
                    Element::Face(a, b, d) => CElem { kind: 'f', c: vec![corner(a), corner(b), corner(d)] },
                });
                o.shapes.push((i, cur.clone(), o.smooth.len() - 1));
                if o.geoms.is_empty() { o.geoms.push((None, vec![])); }
                o.geoms[0].1.push(i);
            }
        }
    }
    Canon::Obj(CSet { libs: vec![], objs: if recs.is_empty() { vec![] } else { vec![o] } })
}

fn word(s: &str) -> String {
    let w: String = s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\\' | '#' | '\n' | '\r')).collect();
    if w.is_empty() { "x".into() } else { w }
}

pub fn exec(s: &V, c: &mut Ctx) {
    let mut file: Vec<u8> = vec![];
    let mut synced = 0usize;
    // records with the file length after each
    let mut recs: Vec<(Rec, usize)> = vec![];
    for o in s.get("ops").arr() {
        let a = o.arr();
        let op = a.first().map_or("", |x| x.str());
        let f = |i: usize| f64::from_bits(a.get(i).map_or(0, |x| x.int()) as u64);
        let u = |i: usize| a.get(i).map_or(0, |x| x.us());
        let count = |k: u8| recs.iter().filter(|r| match r.0 { Rec::V(_) => k == 0, Rec::T(_) => k == 1, Rec::N(_) => k == 2, _ => false }).count();
        c.now += 1_000_000;
        let rec = match op {
            "v" => Rec::V(Vertex { x: f(1), y: f(2), z: f(3), w: f(4) }),
            "vt" => Rec::T(TextureVertex { u: f(1), v: f(2), w: f(3) }),
            "vn" => Rec::N(NormalVertex { x: f(1), y: f(2), z: f(3) }),
            "e" => {
                let (nv, nt, nn) = (count(0), count(1), count(2));
                if nv == 0 { continue; }
                let mut form = u(2) % 4;
                if nt == 0 && form % 2 == 1 { form -= 1; }
                if nn == 0 && form >= 2 { form -= 2; }
                let ix = |k: usize| {
                    let (v, t, n) = (u(3 + 3 * k) % nv, if nt > 0 { u(4 + 3 * k) % nt } else { 0 }, if nn > 0 { u(5 + 3 * k) % nn } else { 0 });
                    match form { 0 => VTNIndex::V(v), 1 => VTNIndex::VT(v, t), 2 => VTNIndex::VN(v, n), _ => VTNIndex::VTN(v, t, n) }
                };
                Rec::E(match u(1) % 3 { 0 => Element::Point(VTNIndex::V(u(3) % nv)), 1 => Element::Line(ix(0), ix(1)), _ => Element::Face(ix(0), ix(1), ix(2)) })
            }
            "g" => { let n: Vec<String> = a[1..].iter().map(|x| word(x.str())).collect(); if n.is_empty() { continue; } Rec::G(n) }
            "s" => Rec::S(a.get(1).map_or(0, |x| x.int()) as usize),
            "sync" => { synced = file.len(); c.ev("sync", synced as u64, || format!("{} bytes durable", synced)); continue; }
            "crash" => {
                let un = file.len() - synced;
                let keep = synced + u(1) % (un + 1);
                if keep < file.len() { c.fault("torn_or_lost_tail"); }
                c.fault("crash");
                file.truncate(keep);
                // an extending write may have got its length but not its data
                if u(2) % 4 == 0 && keep > synced { let z = (u(2) / 4) % (keep - synced + 1); let l = file.len(); for x in &mut file[l - z..] { *x = 0; } if z > 0 { c.fault("zero_filled_tail"); } }
                c.ev("crash", keep as u64, || format!("{} of {} bytes survive ({} synced)", keep, keep + un, synced));
                let torn = file.clone();
                // repair: drop the record the crash went through, and anything not intact after the synced part
                let mut end = file[..].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
                if let Some(z) = file[synced..].iter().position(|b| *b == 0).map(|z| z + synced) { end = end.min(file[..z].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1)); }
                file.truncate(end);
                let before = recs.len();
                recs.retain(|r| r.1 <= end);
                c.count("records_lost_unsynced", (before - recs.len()) as u64);
                if end < synced { c.fail("synced-lost", format!("harness error: {} of {} synced bytes remain", end, synced)); return; }
                synced = file.len();
                check(&recs, &torn, &file, c);
                if c.failed() { return; }
                continue;
            }
            "load" => { let t = file.clone(); check(&recs, &t, &file, c); if c.failed() { return; } continue; }
            "reexport" => { reexport(&recs, &file, c); if c.failed() { return; } continue; }
            _ => continue,
        };
        match print(&rec) {
            Ok(t) => {
                c.ev("append", fnv(0, t.as_bytes()), || t.clone());
                c.count("records", 1);
                file.extend_from_slice(t.as_bytes());
                file.push(b'\n');
                let l = file.len();
                recs.push((rec, l));
            }
            Err(s) => { c.fail("crash", format!("printing {:?} ended with {:?}", rec, s)); return; }
        }
    }
}

fn check(recs: &[(Rec, usize)], torn: &[u8], file: &[u8], c: &mut Ctx) {
    let want = expect(&recs.iter().map(|r| r.0.clone()).collect::<Vec<_>>());
    let text = String::from_utf8_lossy(file).into_owned();
    c.evals += 1;
    let (out, m) = canon::load('o', &text, Opt::default());
    c.count("library_steps", m.steps);
    c.count(if out.is_ok() { "outcome.ok" } else { "outcome.error" }, 1);
    c.ev("reload", fnv(m.steps, out.brief().as_bytes()), || out.brief());
    if !recs.is_empty() { c.distinct(mix(fnv(1, file), torn.len() as u64)); }
    match &out {
        Out::Ok(x) if *x == want => {}
        Out::Ok(x) => { c.fail("wrong-data", format!("log {} loads back differently: {}", show(&text), canon::diff(x, &want))); return; }
        o => { c.fail("unloadable", format!("log {} written by the library's own printing gave {}", show(&text), o.brief())); return; }
    }
    // without repair: an error, or nothing but additions
    if torn.len() > file.len() {
        let t = String::from_utf8_lossy(torn).into_owned();
        let (o2, _) = canon::load('o', &t, Opt::default());
        match o2 {
            Out::Ok(x) => if let Err(d) = crate::pipe::begins(&want, &x) { c.fail("torn-tail", format!("log with torn tail {}: {}", show(&t), d)); },
            Out::Err { .. } => {}
            Out::Stop(s) => c.fail("crash", format!("log with torn tail {} ended with {:?}", show(&t), s)),
        }
    }
}

/// Load, print everything that was loaded into a second log, load that.
fn reexport(recs: &[(Rec, usize)], file: &[u8], c: &mut Ctx) {
    let text = String::from_utf8_lossy(file).into_owned();
    let (r, _) = rt::call(Opt::default(), || lib::obj::parse(&text));
    let set = match r { Ok(Ok(s)) => s, _ => { if !recs.is_empty() { let t = file.to_vec(); check(recs, &t, file, c); } return; } };
    let Some(o) = set.objects.first() else { return };
    let (r, _) = rt::call(Opt::default(), || {
        let mut t = String::new();
        for x in &o.vertex_set { t += &format!("{}\n", x); }
        for x in &o.texture_vertex_set { t += &format!("{}\n", x); }
        for x in &o.normal_vertex_set { t += &format!("{}\n", x); }
        for s in &o.shape_set {
            t += "g";
            for g in &s.groups { t += &format!(" {}", o.group_set[*g]); }
            t += &format!("\ns {}\n{}\n", o.smoothing_group_set[s.smoothing_group], o.element_set[s.element]);
        }
        t
    });
    let t = match r { Ok(t) => t, Err(s) => { c.fail("crash", format!("printing what was loaded from {} ended with {:?}", show(&text), s)); return; } };
    let (r2, _) = rt::call(Opt::default(), || lib::obj::parse(&t));
    c.evals += 1;
    let b = match r2 {
        Ok(Ok(s)) => s,
        x => { c.fail("unloadable", format!("re-exported log {} gave {:?}", show(&t), x)); return; }
    };
    let empty = CObj::default();
    let (x, y) = (canon::object(o), b.objects.first().map_or(empty, canon::object));
    let view = |o: &CObj| -> Vec<(CElem, Vec<String>, u64)> {
        o.shapes.iter().filter(|s| s.0 < o.elems.len()).map(|s| (o.elems[s.0].clone(), s.1.iter().map(|g| o.groups.get(*g).cloned().unwrap_or_default()).collect(), o.smooth.get(s.2).copied().unwrap_or(u64::MAX))).collect()
    };
    if x.v != y.v || x.vt != y.vt || x.vn != y.vn || view(&x) != view(&y) {
        c.fail("reexport-differs", format!("log {} re-exported as {} loads back differently", show(&text), show(&t)));
    }
}

fn fbits(r: &mut Rng) -> V {
    let x = match r.below(8) {
        0 => f64::from_bits(r.u64()),
        1 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, 0.1, 1.0 / 3.0, 1e21, 1e16, 123456789.125, 9007199254740993.0]),
        2 => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff),
        3 => r.irange(-1000, 1000) as f64,
        4 => r.irange(-1_000_000, 1_000_000) as f64 / 1e6,
        5 => (r.irange(-1000, 1000) as f64) * 10f64.powi(r.irange(-30, 30) as i32),
        _ => (r.u64() as f64) / (1u64 << r.range(1, 63)) as f64,
    };
    V::Int(x.to_bits() as i64)
}

pub fn generate(r: &mut Rng) -> V {
    let most = if r.chance(1, 20) { 300 } else { 50 };
    let n = r.range(3, most);
    let style = r.below(4);
    let mut ops: Vec<V> = vec![];
    let sync = *r.pick(&[3, 10, 30]);
    let crash = *r.pick(&[0, 2, 6, 12]);
    for i in 0..n {
        let k = if i < n / 4 { r.below(40) } else { r.below(100) };
        let mut a: Vec<V> = vec![];
        match k {
            0..=19 => { a.push("v".into()); for _ in 0..4 { a.push(fbits(r)); } }
            20..=29 => { a.push("vt".into()); for _ in 0..3 { a.push(fbits(r)); } }
            30..=39 => { a.push("vn".into()); for _ in 0..3 { a.push(fbits(r)); } }
            40..=79 => { a.push("e".into()); a.push(r.below(3).into()); a.push(r.below(4).into()); for _ in 0..9 { a.push(r.below(1 << 12).into()); } }
            80..=89 => { a.push("g".into()); for _ in 0..r.range(1, 3) { a.push(gen::name(r, style).into()); } }
            _ => { a.push("s".into()); a.push(match r.below(6) { 0 => V::Int(0), 1 => V::Int(-1), 2 => V::Int(1 << 40), _ => r.below(9).into() }); }
        }
        ops.push(V::Arr(a));
        if r.chance(sync, 100) { ops.push(V::Arr(vec!["sync".into()])); }
        if r.chance(crash, 100) { ops.push(V::Arr(vec!["crash".into(), r.below(1 << 14).into(), r.below(64).into()])); }
        if r.chance(2, 100) { ops.push(V::Arr(vec!["load".into()])); }
    }
    if r.chance(1, 2) { ops.push(V::Arr(vec!["reexport".into()])); }
    ops.push(V::Arr(vec![(if crash > 0 && r.chance(1, 2) { "crash" } else { "load" }).into(), r.below(1 << 14).into(), r.below(64).into()]));
    obj! { "ops": V::Arr(ops) }
}
