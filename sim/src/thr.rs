//! World "threads": real threads, exactly one runnable at a time. Control passes only
//! at basic-block callbacks inside the library, at library locks, and between
//! operations, as an explicit schedule says. A schedule entry may stall a thread in
//! the middle of an operation until everybody else is done.
use crate::canon::{self, agrees, Out, Raw};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::model;
use crate::obj;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, raw, Opt, Stop, TS};
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Mutex;
use wavefront_obj as lib;

#[derive(Clone, Copy, PartialEq)]
enum St { Run, Blocked(usize, bool), TimedOut, Stalled, Done }

struct Sched {
    n: usize,
    st: [St; 8],
    sched: Vec<(u32, u32, bool)>,
    pos: usize,
    left: u32,
    hot: Vec<(u32, u32, bool)>,
    hpos: usize,
    hleft: u32,
    hots: u64,
    hash: u64,
    switches: u64,
    mid_op: u64,
    stalls: u64,
    blocks: u64,
    cold: bool,
    first_waits: u64,
}

static mut S: Sched = Sched {
    n: 0, st: [St::Done; 8], sched: vec![], pos: 0, left: 0, hot: vec![], hpos: 0, hleft: 0, hots: 0, hash: 0, switches: 0, mid_op: 0, stalls: 0, blocks: 0, cold: false, first_waits: 0,
};
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched { unsafe { &mut S } }

fn wait_turn(me: u32) {
    loop {
        let t = TURN.load(SeqCst);
        if t == me { return; }
        unsafe { raw(202, &TURN as *const _ as i64, 0x80, t as i64, 0, 0, 0); }
    }
}

fn give(to: usize) {
    TURN.store(to as u32, SeqCst);
    unsafe { raw(202, &TURN as *const _ as i64, 0x81, i32::MAX as i64, 0, 0, 0); }
}

/// Someone who can run, preferring others than `me`.
fn choose(me: usize, pick: u32) -> Option<usize> {
    let q = s();
    let can: Vec<usize> = rt::outside(|| (0..q.n).filter(|&i| i != me && q.st[i] == St::Run).collect());
    let r = if !can.is_empty() {
        Some(can[pick as usize % can.len()])
    } else if q.st[me] == St::Run {
        Some(me)
    } else if let Some(i) = (0..q.n).find(|&i| matches!(q.st[i], St::Blocked(_, true))) {
        // nobody else can run: the timeout of a timed wait passes
        q.st[i] = St::TimedOut;
        Some(i)
    } else if let Some(i) = (0..q.n).find(|&i| q.st[i] == St::Stalled) {
        if (0..q.n).any(|i| matches!(q.st[i], St::Blocked(..))) {
            // waiting for the first use of something to finish setting it up is no delay
            // one can blame on a load; whatever else waits does so in warm runs as well
            if !q.cold { rt::hang(rt::HANG_STALLED); }
            q.first_waits += 1;
        }
        q.st[i] = St::Run;
        Some(i)
    } else if (0..q.n).any(|i| matches!(q.st[i], St::Blocked(..))) {
        rt::hang(rt::HANG_DEADLOCK)
    } else {
        None
    };
    rt::outside(|| drop(can));
    r
}

fn switch(me: usize, pick: u32, place: u32) {
    let q = s();
    if let Some(t) = choose(me, pick) {
        if t == me { return; }
        q.switches += 1;
        q.hash = mix(q.hash, (me as u64) << 40 | (t as u64) << 32 | place as u64);
        give(t);
        wait_turn(me as u32);
    }
}

fn tick(me: usize, place: u32) {
    let q = s();
    if q.left > 0 { q.left -= 1; }
    if q.left > 0 { return; }
    let e = if q.pos < q.sched.len() { q.sched[q.pos] } else { (0, q.pos as u32, false) };
    q.pos += 1;
    q.left = if q.pos < q.sched.len() { q.sched[q.pos].0.max(1) } else { 20_000 };
    if place != 0 { q.mid_op += 1; }
    if e.2 && place != 0 {
        q.stalls += 1;
        q.st[me] = St::Stalled;
    }
    switch(me, e.1, place);
}

pub fn point(g: u32) {
    let me = TS.with(|t| t.sim.get());
    if me >= 0 { tick(me as usize, g.max(1)); }
}

/// A place where threads can see one another (fine build only).
pub fn hot(kind: u32) {
    let me = TS.with(|t| t.sim.get());
    if me < 0 { return; }
    let q = s();
    q.hots += 1;
    if q.hleft > 0 { q.hleft -= 1; }
    if q.hleft > 0 { return; }
    let e = if q.hpos < q.hot.len() { q.hot[q.hpos] } else { return };
    q.hpos += 1;
    q.hleft = if q.hpos < q.hot.len() { q.hot[q.hpos].0.max(1) } else { u32::MAX };
    q.mid_op += 1;
    if e.2 {
        q.stalls += 1;
        q.st[me as usize] = St::Stalled;
    }
    switch(me as usize, e.1, u32::MAX - 16 - kind);
}

pub fn yield_point() {
    let me = TS.with(|t| t.sim.get());
    if me >= 0 { switch(me as usize, s().pos as u32, u32::MAX); }
}

pub fn futex_wait(addr: usize, timed: bool) -> i64 {
    let me = TS.with(|t| t.sim.get()) as usize;
    let q = s();
    q.blocks += 1;
    q.st[me] = St::Blocked(addr, timed);
    switch(me, q.pos as u32, u32::MAX - 1);
    if q.st[me] == St::TimedOut {
        q.st[me] = St::Run;
        rt::CLOCK.fetch_add(1_000_000, Relaxed);
        return -110;
    }
    0
}

pub fn futex_wake(addr: usize, n: i64) {
    let q = s();
    let mut left = n;
    for i in 0..q.n {
        if left <= 0 { break; }
        if let St::Blocked(a, _) = q.st[i] {
            if a == addr { q.st[i] = St::Run; left -= 1; }
        }
    }
}

// ------------------------------------------------------------------ operations

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Outs(Vec<Out>),
    Text(String),
    Bool(bool),
    Stop(Stop),
}

impl Res {
    pub fn brief(&self) -> String {
        match self {
            Res::Outs(o) => o.iter().map(|x| x.brief()).collect::<Vec<_>>().join(", "),
            Res::Text(t) => format!("text {}", show(t)),
            Res::Bool(b) => b.to_string(),
            Res::Stop(s) => format!("{:?}", s),
        }
    }
}

pub struct Env {
    pub docs: Vec<(char, String)>,
    pub vals: Vec<Result<Raw, Stop>>,
}

pub fn env(s: &V) -> Env { env_of(s, None) }

/// The documents, and what each of them loads to (all of them, or those in use).
fn env_of(s: &V, used: Option<&[usize]>) -> Env {
    let mut docs: Vec<(char, String)> = s.get("docs").arr().iter().map(|d| {
        let a = d.arr();
        (a.first().map_or('o', |k| k.str().chars().next().unwrap_or('o')), a.get(1).map_or(String::new(), |t| t.str().to_string()))
    }).collect();
    if docs.is_empty() { docs.push(('o', String::new())); }
    let n = docs.len();
    let vals = docs.iter().enumerate().map(|(i, (k, t))| {
        if used.map_or(true, |u| u.iter().any(|d| d % n == i)) { canon::load_raw(*k, t, Opt::default()).0 } else { Err(Stop::Cancel) }
    }).collect();
    Env { docs, vals }
}

pub const OPS: [&str; 7] = ["parse", "sess", "print", "look", "clone", "debug", "eq"];

pub fn run_op(op: &str, d: usize, e: &Env, o: Opt) -> (Res, rt::Meter) {
    let d = d % e.docs.len();
    let (k, t) = (e.docs[d].0, e.docs[d].1.as_str());
    let val = match &e.vals[d] {
        Ok(v) => Some(v),
        Err(s) if matches!(op, "print" | "debug" | "look" | "clone" | "eq") => return (Res::Stop(s.clone()), rt::Meter::default()),
        Err(_) => None,
    };
    fn fin<T>((r, m): (Result<T, Stop>, rt::Meter), f: impl FnOnce(T) -> Res) -> (Res, rt::Meter) {
        (match r { Ok(x) => f(x), Err(s) => Res::Stop(s) }, m)
    }
    match op {
        "sess" if k == 'o' => fin(
            rt::call(o, || {
                let mut p = lib::obj::Parser::new(t);
                let mut q = p.clone();
                let a = p.parse_objset();
                let b = q.parse_objset();
                let mut r = p.clone();
                (a, b, p.parse_objset(), r.parse_objset())
            }),
            |(a, b, c, d)| Res::Outs([a, b, c, d].into_iter().map(|x| Raw::O(x).out()).collect()),
        ),
        "sess" => fin(
            rt::call(o, || { let mut p = lib::mtl::Parser::new(t); (p.parse_mtlset(), p.parse_mtlset()) }),
            |(a, b)| Res::Outs([a, b].into_iter().map(|x| Raw::M(x).out()).collect()),
        ),
        "print" => fin(
            rt::call(o, || match val.unwrap() {
                Raw::O(Ok(s)) => {
                    let mut t = format!("{}", s);
                    for ob in &s.objects {
                        for x in ob.vertex_set.iter().take(2) { t += &format!("{}\n", x); }
                        for x in ob.texture_vertex_set.iter().take(2) { t += &format!("{}\n", x); }
                        for x in ob.normal_vertex_set.iter().take(2) { t += &format!("{}\n", x); }
                        for x in ob.element_set.iter().take(4) { t += &format!("{}\n", x); }
                        for x in ob.group_set.iter().take(2) { t += &format!("{}\n", x); }
                        for x in ob.smoothing_group_set.iter().take(2) { t += &format!("{}\n", x); }
                        t += &format!("{}\n", ob);
                    }
                    t
                }
                Raw::O(Err(e)) => format!("{}", e),
                Raw::M(Ok(s)) => format!("{:?}", s),
                Raw::M(Err(e)) => format!("{}", e),
            }),
            Res::Text,
        ),
        "debug" => fin(
            rt::call(o, || match val.unwrap() {
                Raw::O(r) => format!("{:?}", r),
                Raw::M(r) => format!("{:?}", r),
            }),
            Res::Text,
        ),
        "look" => fin(
            rt::call(o, || {
                let mut ok = true;
                if let Raw::O(Ok(s)) = val.unwrap() {
                    for ob in &s.objects {
                        for el in &ob.element_set {
                            let i = match *el { lib::obj::Element::Point(a) | lib::obj::Element::Line(a, _) | lib::obj::Element::Face(a, _, _) => a };
                            ok &= lookup_ok(ob, i);
                        }
                    }
                }
                ok
            }),
            Res::Bool,
        ),
        "clone" => fin(
            rt::call(o, || match val.unwrap() {
                Raw::O(Ok(s)) => Raw::O(Ok(s.clone())),
                Raw::O(Err(e)) => Raw::O(Err(e.clone())),
                Raw::M(Ok(s)) => Raw::M(Ok(s.clone())),
                Raw::M(Err(e)) => Raw::M(Err(e.clone())),
            }),
            |x| Res::Outs(vec![x.out()]),
        ),
        "eq" => fin(
            rt::call(o, || match val.unwrap() {
                Raw::O(r) => Raw::O(lib::obj::parse(t)).out() == Raw::O(r.clone()).out(),
                Raw::M(r) => Raw::M(lib::mtl::parse(t)).out() == Raw::M(r.clone()).out(),
            }),
            Res::Bool,
        ),
        _ => {
            let (r, m) = canon::load(k, t, o);
            (match r { Out::Stop(s) => Res::Stop(s), x => Res::Outs(vec![x]) }, m)
        }
    }
}

pub fn lookup_ok(ob: &lib::obj::Object, i: lib::obj::VTNIndex) -> bool {
    use lib::obj::{VTNIndex as I, VTNTriple as T};
    let p = |a: *const lib::obj::Vertex, k: usize| ob.vertex_set.get(k).map_or(false, |x| std::ptr::eq(x, a));
    let pt = |a: *const lib::obj::TextureVertex, k: usize| ob.texture_vertex_set.get(k).map_or(false, |x| std::ptr::eq(x, a));
    let pn = |a: *const lib::obj::NormalVertex, k: usize| ob.normal_vertex_set.get(k).map_or(false, |x| std::ptr::eq(x, a));
    match (i, ob.get_vtn_triple(i)) {
        (I::V(a), Some(T::V(v))) => p(v, a),
        (I::VT(a, b), Some(T::VT(v, t))) => p(v, a) && pt(t, b),
        (I::VN(a, c), Some(T::VN(v, n))) => p(v, a) && pn(n, c),
        (I::VTN(a, b, c), Some(T::VTN(v, t, n))) => p(v, a) && pt(t, b) && pn(n, c),
        _ => false,
    }
}

/// Does a solo result agree with the reference model?
pub fn solo_ok(op: &str, d: usize, e: &Env, r: &Res) -> Result<(), String> {
    let d = d % e.docs.len();
    let want = model::run(e.docs[d].0, &e.docs[d].1);
    match r {
        Res::Stop(s) => Err(format!("{} ended with {:?}", op, s)),
        Res::Outs(o) => agrees(&o[0], &want),
        Res::Bool(b) => if *b { Ok(()) } else { Err(format!("{} gave wrong data", op)) },
        Res::Text(_) => Ok(()),
    }
}

// ------------------------------------------------------------------ execution

/// Sharing between threads is what is under test, so the compiler is not asked.
#[derive(Clone, Copy)]
struct Lend<'a>(&'a Env);
unsafe impl Send for Lend<'_> {}
impl<'a> Lend<'a> {
    fn get(self) -> &'a Env { self.0 }
}

trait Not { const YES: bool = false; }
struct IsShare<T>(std::marker::PhantomData<T>);
struct IsMove<T>(std::marker::PhantomData<T>);
impl<T> Not for IsShare<T> {}
impl<T> Not for IsMove<T> {}
#[allow(dead_code)]
impl<T: Sync> IsShare<T> { const YES: bool = true; }
#[allow(dead_code)]
impl<T: Send> IsMove<T> { const YES: bool = true; }

/// The types a program has to be able to share and hand over.
fn closed() -> Option<&'static str> {
    macro_rules! look {
        ($($t:ty)*) => { $(
            if !<IsShare<$t>>::YES { return Some(concat!(stringify!($t), " cannot be shared between threads")); }
            if !<IsMove<$t>>::YES { return Some(concat!(stringify!($t), " cannot be handed to another thread")); }
        )* };
    }
    look! { lib::obj::ObjectSet lib::obj::Object lib::obj::ParseError lib::mtl::MaterialSet lib::mtl::Material lib::mtl::ParseError }
    None
}

pub fn exec(sc: &V, c: &mut Ctx) {
    // cold: the threads are the first to do any of this
    let cold = sc.get("cold").int() != 0;
    let threads: Vec<Vec<(String, usize)>> = sc.get("threads").arr().iter().take(8).map(|t| {
        t.arr().iter().map(|o| (o.arr().first().map_or("parse", |x| x.str()).to_string(), o.arr().get(1).map_or(0, |x| x.us()))).collect()
    }).collect();
    let n = threads.len();
    if n == 0 { return; }
    let used: Vec<usize> = threads.iter().flatten().filter(|o| o.0 != "parse" && o.0 != "sess").map(|o| o.1).collect();
    let e = env_of(sc, cold.then_some(&used[..]));
    if let Some(x) = closed() {
        c.fail("not-shareable", x.to_string());
        return;
    }
    // what each operation gives on its own
    let mut steps = 0;
    let mut alone = |c: &mut Ctx| -> Option<Vec<Vec<Res>>> { let mut solo: Vec<Vec<Res>> = vec![]; for t in &threads {
        let mut v = vec![];
        for (op, d) in t {
            let (r, m) = run_op(op, *d, &e, Opt::default());
            steps += m.steps;
            if let Err(x) = solo_ok(op, *d, &e, &r) {
                // a text the library reads otherwise than the model, but always the same way?
                let (k, t) = &e.docs[*d % e.docs.len()];
                let same = match &r {
                    Res::Outs(o) => canon::pure(*k, t, &o[0]),
                    Res::Stop(s) => canon::pure(*k, t, &Out::Stop(s.clone())),
                    _ => true,
                };
                if !same {
                    c.fail("solo", format!("{} of {} without interruption: {}", op, show(t), x));
                    return None;
                }
                c.count("read_otherwise_than_model", 1);
            }
            v.push(r);
        }
        solo.push(v);
    } Some(solo) };
    let solo = if cold { None } else { match alone(c) { Some(s) => Some(s), None => return } };
    let q = s();
    q.n = n;
    q.st = [St::Done; 8];
    for i in 0..n { q.st[i] = St::Run; }
    let decisions = |k: &str| -> Vec<(u32, u32, bool)> {
        sc.get(k).arr().iter().map(|x| {
            let a = x.arr();
            let g = |i: usize| a.get(i).map_or(0, |v| v.us());
            (g(0) as u32, g(1) as u32, g(2) != 0)
        }).collect()
    };
    q.sched = decisions("sched");
    q.hot = decisions("hot");
    q.hpos = 0;
    q.hleft = q.hot.first().map_or(u32::MAX, |x| x.0.max(1));
    q.hots = 0;
    q.pos = 0;
    q.left = q.sched.first().map_or(20_000, |x| x.0.max(1));
    q.hash = 0; q.switches = 0; q.mid_op = 0; q.stalls = 0; q.blocks = 0; q.cold = cold; q.first_waits = 0;
    TURN.store(u32::MAX, SeqCst);
    let got: Mutex<Vec<(usize, usize, Res)>> = Mutex::new(vec![]);
    let size: usize = threads.iter().flatten().map(|o| e.docs[o.1 % e.docs.len()].1.len()).sum();
    let limit = Opt { limit: 3_000_000 + 40_000 * size as u64, ..Opt::default() };
    std::thread::scope(|sc2| {
        for (ti, ops) in threads.iter().enumerate() {
            let (e, got) = (Lend(&e), &got);
            sc2.spawn(move || {
                let e = e.get();
                TS.with(|t| { t.sim.set(ti as i32); t.rnd.set(77 + ti as u64); });
                wait_turn(ti as u32);
                for (oi, (op, d)) in ops.iter().enumerate() {
                    tick(ti, 0);
                    let (r, _) = run_op(op, *d, e, limit);
                    got.lock().unwrap().push((ti, oi, r));
                }
                let q = crate::thr::s();
                q.st[ti] = St::Done;
                TS.with(|t| t.sim.set(-1));
                match choose(ti, q.pos as u32) {
                    Some(t) if t != ti => { q.hash = mix(q.hash, t as u64); give(t) }
                    _ => {}
                }
            });
        }
        give(sc.get("first").us() % n);
    });
    let solo = match solo { Some(s) => s, None => match alone(c) { Some(s) => s, None => return } };
    c.evals += 1;
    c.now += steps * 10;
    c.count("library_steps", steps);
    if cold { c.count("cold_starts", 1); }
    c.count("switches", q.switches);
    c.count("fault.preempted_inside_operation", q.mid_op);
    c.count("fault.thread_stalled_inside_operation", q.stalls);
    c.count("lock_waits", q.blocks);
    if q.first_waits > 0 { c.count("waits_for_first_use", q.first_waits); }
    c.count("shared_state_accesses", q.hots);
    c.ev("threads", q.hash, || format!("{} threads, {} switches, {} stalls", n, q.switches, q.stalls));
    if q.mid_op > 0 { c.distinct(mix(q.hash, fnv(n as u64, e.docs[0].1.as_bytes()))); }
    let got = got.into_inner().unwrap();
    if let Some((ti, oi, r)) = got.into_iter().filter(|(ti, oi, r)| *r != solo[*ti][*oi]).min_by_key(|x| (x.0, x.1)) {
        let (op, d) = &threads[ti][oi];
        let d = *d % e.docs.len();
        c.fail("interference", format!("thread {} operation {} ({} of {} text {}) gave {} concurrently, {} alone",
            ti, oi, op, crate::pipe::kname(e.docs[d].0), show(&e.docs[d].1), r.brief(), solo[ti][oi].brief()));
    }
}

pub fn generate(r: &mut Rng, first: bool) -> V {
    let nd = r.range(1, 4);
    let mut docs = vec![];
    for i in 0..nd {
        let k = gen::kind(r);
        let sz = *r.pick(&[4, 12, 12, 40]);
        let c = gen::cfg(r, sz);
        let mut t = if r.chance(3, 4) { gen::sound(r, k, &c) } else { gen::doc(r, k, &c) };
        // near-identical texts expose sharing between loads
        if i > 0 && r.chance(1, 3) {
            let (pk, pt): (V, V) = { let a: &V = &docs[0]; (a.arr()[0].clone(), a.arr()[1].clone()) };
            t = vary(r, pt.str());
            docs.push(V::Arr(vec![pk, t.into()]));
            continue;
        }
        docs.push(V::Arr(vec![V::from(k.to_string()), t.into()]));
    }
    let n = r.range(2, 4);
    let threads: Vec<V> = (0..n).map(|_| {
        let m = r.range(1, 4);
        V::Arr((0..m).map(|_| {
            let op = if r.chance(2, 3) { "parse" } else { *r.pick(&OPS) };
            V::Arr(vec![op.into(), r.below(nd).into()])
        }).collect())
    }).collect();
    let cold = first || r.chance(1, 4);
    let style = r.below(if cold { 2 } else { 4 });
    let stall = if cold { *r.pick(&[0, 10, 40]) } else { *r.pick(&[0, 0, 5, 25]) };
    let m = *r.pick(&[2, 6, 20, 60, 200]);
    let sched: Vec<V> = (0..m).map(|_| {
        let gap = match style { 0 => r.range(1, 20), 1 => r.range(1, 300), 2 => 1 + r.skewed(8000), _ => 1 + r.skewed(600) };
        V::Arr(vec![gap.into(), r.below(4).into(), (r.chance(stall, 100) as usize).into()])
    }).collect();
    let hgap = *r.pick(&[1, 3, 12, 60]);
    let hot: Vec<V> = (0..*r.pick(&[0, 3, 12, 40])).map(|_| {
        V::Arr(vec![r.range(1, hgap).into(), r.below(4).into(), (r.chance(stall, 100) as usize).into()])
    }).collect();
    obj! { "hot": V::Arr(hot), "docs": V::Arr(docs), "threads": V::Arr(threads), "sched": V::Arr(sched), "first": r.below(n), "cold": cold as usize }
}

/// Change a few digits or letters, keeping the length.
pub fn vary(r: &mut Rng, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let at: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
    if at.is_empty() { return t.to_string(); }
    for _ in 0..r.range(1, 3) { let p = *r.pick(&at); b[p] = b'0' + r.below(10) as u8; }
    String::from_utf8(b).unwrap_or_else(|_| t.to_string())
}
