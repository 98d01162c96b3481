//! World "history": one process lives through good, bad, cancelled and memory-starved
//! loads on several threads, with chosen hash seeds and clock readings; every load is
//! compared with the reference model, and the heap must come back to where it was.
use crate::canon::{self, agrees};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::model;
use crate::obj;
use crate::pipe::kname;
use crate::rng::{fnv, Rng};
use crate::rt::{self, Opt, TS};
use std::sync::atomic::Ordering::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};
use wavefront_obj as lib;

type Job = Box<dyn FnOnce() + Send>;

/// A long-lived second thread that runs one job at a time, synchronously.
struct Helper {
    q: Arc<(Mutex<(Option<Job>, bool, bool)>, Condvar)>,
    h: Option<std::thread::JoinHandle<()>>,
}

impl Helper {
    fn new() -> Helper {
        let q: Arc<(Mutex<(Option<Job>, bool, bool)>, Condvar)> = Arc::new((Mutex::new((None, false, false)), Condvar::new()));
        let q2 = q.clone();
        let h = std::thread::spawn(move || loop {
            let job = {
                let mut g = q2.0.lock().unwrap();
                loop {
                    if g.2 { return; }
                    if let Some(j) = g.0.take() { break j; }
                    g = q2.1.wait(g).unwrap();
                }
            };
            job();
            q2.0.lock().unwrap().1 = true;
            q2.1.notify_all();
        });
        Helper { q, h: Some(h) }
    }
    fn run(&self, j: Job) {
        let mut g = self.q.0.lock().unwrap();
        g.0 = Some(j);
        g.1 = false;
        self.q.1.notify_all();
        while !g.1 { g = self.q.1.wait(g).unwrap(); }
    }
}

impl Drop for Helper {
    fn drop(&mut self) {
        self.q.0.lock().unwrap().2 = true;
        self.q.1.notify_all();
        let _ = self.h.take().unwrap().join();
    }
}

struct Late<F: FnOnce()>(Option<F>);
impl<F: FnOnce()> Drop for Late<F> {
    fn drop(&mut self) { if let Some(f) = self.0.take() { f() } }
}

struct Cancelling<'a>(&'a str, bool);
impl AsRef<str> for Cancelling<'_> {
    fn as_ref(&self) -> &str {
        if self.1 { rt::outside(|| std::panic::resume_unwind(Box::new(rt::Cancel))) }
        self.0
    }
}

/// What each text gave the first time.
type Seen = Mutex<BTreeMap<(char, String), canon::Out>>;

fn message(o: &canon::Out) -> String {
    match o { canon::Out::Err { disp, .. } => disp.clone(), _ => String::new() }
}

/// One operation; returns a complaint.
fn one(op: &str, kind: char, text: &str, k: i64, seen: &Seen) -> Option<(&'static str, String)> {
    let bad = |out: &canon::Out| {
        let mut seen = seen.lock().unwrap();
        // the same text must always give the same outcome, down to the message
        if let Some(first) = seen.get(&(kind, text.to_string())) {
            if first == out { return None; }
            return Some(("depends-on-history", format!("{} text {} gave {} ({}) first, now {} ({})", kname(kind), show(text), first.brief(), message(first), out.brief(), message(out))));
        }
        seen.insert((kind, text.to_string()), out.clone());
        let want = model::run(kind, text);
        let told = match (out, &want) { (canon::Out::Err { line, kind, .. }, Err(e)) => *line == e.line && e.kinds.contains(&kind.as_str()), _ => true };
        match agrees(out, &want) {
            Ok(()) if told => None,
            // a text the library reads otherwise than the model, but always the same way?
            _ if canon::pure(kind, text, out) => None,
            r => Some(("depends-on-history", format!("{} text {} gives {} here and something else in a fresh process {}", kname(kind), show(text), out.brief(), r.err().unwrap_or_default()))),
        }
    };
    match op {
        "oom" => {
            let (out, m) = canon::load(kind, text, Opt { fail: k.max(0), forever: k % 2 == 0, ..Opt::default() });
            if m.fired == 0 { return bad(&out); }
            None
        }
        "cancel" => {
            let c = Cancelling(text, true);
            let (r, _) = if kind == 'o' { rt::call(Opt::default(), || { let _ = lib::obj::parse(c); }) } else { rt::call(Opt::default(), || { let _ = lib::mtl::parse(c); }) };
            let _ = r;
            None
        }
        "abandon" => {
            // a parser used halfway (it stops at the first error) and dropped, a copy never used
            let _ = if kind == 'o' {
                rt::call(Opt::default(), || { let mut p = lib::obj::Parser::new(text); let q = p.clone(); let _ = p.parse_objset(); let _ = p.parse_objset(); drop(q); })
            } else {
                rt::call(Opt::default(), || { let mut p = lib::mtl::Parser::new(text); let _ = p.parse_mtlset(); })
            };
            None
        }
        "print" => {
            let (r, _) = canon::load_raw(kind, text, Opt::default());
            if let Ok(v) = r {
                let (a, _) = rt::call(Opt::default(), || match &v { canon::Raw::O(Ok(s)) => format!("{}", s), canon::Raw::O(Err(e)) => format!("{}", e), canon::Raw::M(r) => format!("{:?}", r) });
                let (b, _) = rt::call(Opt::default(), || match &v { canon::Raw::O(Ok(s)) => format!("{}", s), canon::Raw::O(Err(e)) => format!("{}", e), canon::Raw::M(r) => format!("{:?}", r) });
                if a != b { return Some(("print-depends-on-history", format!("printing {} twice gave different texts", show(text)))); }
                return bad(&v.out());
            }
            None
        }
        _ => bad(&canon::load(kind, text, Opt::default()).0),
    }
}

pub fn exec(s: &V, c: &mut Ctx) {
    // nothing is loaded before the first operation: what a process sees first matters
    let mut docs: Vec<(char, String)> = s.get("docs").arr().iter().map(|d| {
        let a = d.arr();
        (a.first().map_or('o', |k| k.str().chars().next().unwrap_or('o')), a.get(1).map_or(String::new(), |t| t.str().to_string()))
    }).collect();
    if docs.is_empty() { docs.push(('o', String::new())); }
    let ops: Vec<(String, usize, usize, i64)> = s.get("ops").arr().iter().map(|o| {
        let a = o.arr();
        (a.first().map_or("load", |x| x.str()).to_string(), a.get(1).map_or(0, |x| x.us()), a.get(2).map_or(0, |x| x.us()), a.get(3).map_or(0, |x| x.int()))
    }).collect();
    let passes = s.get("passes").us().clamp(1, 4);
    // the loader's reused input buffer: same address, different contents
    let cap = docs.iter().map(|d| d.1.len()).max().unwrap_or(0) + 40;
    let mut buf = String::with_capacity(cap);
    let helper = Helper::new();
    let mut growth = vec![];
    let seen: Arc<Seen> = Arc::default();
    let clock0 = rt::CLOCK.load(Relaxed);
    for pass in 1..=passes {
        let before = rt::live();
        for (i, (op, d, place, k)) in ops.iter().enumerate() {
            let (kind, t) = &docs[*d % docs.len()];
            if pass == 1 {
                c.evals += 1;
                c.ev(op, fnv(*k as u64, t.as_bytes()) ^ *place as u64, || format!("doc {} place {} arg {}", d, place, k));
                match op.as_str() { "oom" => c.fault("memory_starved_load"), "cancel" => c.fault("cancelled_load"), "abandon" => c.fault("abandoned_parser"), "clock" => c.fault("clock_jump"), "env" => c.fault("environment_changed"), "host" => c.fault("host_changed"), "seed" => c.fault("hash_seed_changed"), _ => {} }
                match place { 2 => c.fault("fresh_thread"), 3 => c.fault("named_thread"), 4 => c.fault("load_while_unwinding"), _ => {} }
            }
            match op.as_str() {
                "clock" => { rt::CLOCK.store((*k as u64).wrapping_mul(1_000_000_007), Relaxed); rt::clock_jumps(*k as usize >> 8); continue; }
                "env" => { rt::ENVIRON.store(*k as u32 % 6, Relaxed); continue; }
                "host" => { rt::HOST.store(*k as u32 % 60, Relaxed); continue; }
                "seed" => { TS.with(|t| t.rnd.set(*k as u64)); continue; }
                _ => {}
            }
            // mostly at one address, sometimes at an odd one
            let at = if op == "load" && *k == 2 { 1 + i % 15 } else { 0 };
            buf.clear();
            buf.push_str(&"################"[..at]);
            buf.push_str(t);
            // later passes use new texts that mean the same
            if pass > 1 { buf.push_str(["", "", "\n#2", "\n#3", "\n#4"][pass]); }
            let tailed = pass == 1 || !(t.is_empty() || model::words(model::lines(t).last().map_or("", |x| x.0)).next() == Some("o"));
            if !tailed { buf.truncate(at + t.len()); }
            let buf = &buf[at..];
            let bad = if op == "tiny" {
                let n = (*k).clamp(0, 80_000);
                let mut bad = None;
                for j in 0..n {
                    bad = one("load", *kind, buf, j, &seen);
                    if bad.is_some() { break; }
                }
                if pass == 1 { c.count("tiny_loads", n as u64); }
                bad
            } else {
                match place {
                    0 => one(op, *kind, buf, *k, &seen),
                    _ => {
                        let slot: Arc<Mutex<Option<(&'static str, String)>>> = Arc::new(Mutex::new(None));
                        let (s2, op2, kind2, k2, seen2) = (slot.clone(), op.clone(), *kind, *k, seen.clone());
                        // the reused buffer outlives the synchronous job
                        let text: &'static str = unsafe { &*(buf as *const str) };
                        let seed = (i as u64) << 8 | pass as u64;
                        let job = move || { TS.with(|t| t.rnd.set(seed.wrapping_mul(0x9E37_79B9))); let b = one(&op2, kind2, text, k2, &seen2); *s2.lock().unwrap() = b; };
                        match place {
                            1 => helper.run(Box::new(job)),
                            3 => { let _ = std::thread::Builder::new().name(["loader", "main", "worker-1"][*k as usize % 3].into()).spawn(job).map(|h| h.join()); }
                            // the load runs in a destructor while its thread unwinds
                            4 => { let _ = std::thread::spawn(move || { let _g = Late(Some(job)); std::panic::resume_unwind(Box::new(rt::Cancel)) }).join(); }
                            _ => { let _ = std::thread::spawn(job).join(); }
                        }
                        let b = slot.lock().unwrap().take();
                        b
                    }
                }
            };
            if let Some((class, d)) = bad {
                c.fail(class, format!("pass {} operation {} ({} on thread {}): {}", pass, i, op, place, d));
                rt::CLOCK.store(clock0, Relaxed);
                rt::ENVIRON.store(0, Relaxed);
    rt::HOST.store(0, Relaxed);
                return;
            }
        }
        seen.lock().unwrap().clear();
        growth.push(rt::live() - before);
    }
    rt::CLOCK.store(clock0, Relaxed);
    rt::ENVIRON.store(0, Relaxed);
    rt::HOST.store(0, Relaxed);
    c.count("passes", passes as u64);
    if !ops.is_empty() { c.distinct(fnv(ops.len() as u64, s.dump().as_bytes())); }
    if passes == 4 && growth[1..].iter().all(|g| *g > 0) {
        c.fail("leak", format!("live heap grows every time the same history is repeated: {:?} bytes per pass", growth));
    }
}

pub fn generate(r: &mut Rng, first: bool) -> V {
    let nd = r.range(1, 5);
    let mut docs: Vec<V> = vec![];
    for i in 0..nd {
        let k = gen::kind(r);
        let sz = *r.pick(&[6, 20, 40]);
        let c = gen::cfg(r, sz);
        if i > 0 && r.chance(1, 2) {
            let p = docs[r.below(docs.len())].clone();
            let t = crate::thr::vary(r, p.arr()[1].str());
            docs.push(V::Arr(vec![p.arr()[0].clone(), t.into()]));
            continue;
        }
        let t = if r.chance(2, 3) { gen::sound(r, k, &c) } else { gen::doc(r, k, &c) };
        // what a process sees first may be remembered
        let open = if i == 0 && r.chance(1, if first { 2 } else { 10 }) { *r.pick(&["\n", "\r\n", "\r", "#\n", "# x\r\n", " ", "\t", "\\\n", "\u{feff}", "mtllib a\n", "o\n", "newmtl a\r\n"]) } else { "" };
        docs.push(V::Arr(vec![V::from(k.to_string()), format!("{}{}", open, t).into()]));
    }
    let n = r.range(2, 24);
    let mut ops: Vec<V> = (0..n).map(|_| {
        let d = r.below(nd);
        let place = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 2, 3, 4]);
        match r.below(14) {
            7 => V::Arr(vec!["host".into(), d.into(), 0usize.into(), r.below(60).into()]),
            6 => V::Arr(vec!["env".into(), d.into(), 0usize.into(), r.below(6).into()]),
            0 => V::Arr(vec!["oom".into(), d.into(), place.into(), r.skewed(60).into()]),
            1 => V::Arr(vec!["cancel".into(), d.into(), place.into(), 0usize.into()]),
            2 => V::Arr(vec!["abandon".into(), d.into(), place.into(), 0usize.into()]),
            3 => V::Arr(vec!["clock".into(), d.into(), 0usize.into(), ((r.u64() >> 2) as i64 as u64).into()]),
            4 => V::Arr(vec!["seed".into(), d.into(), 0usize.into(), ((r.u64() >> 2) as i64 as u64).into()]),
            5 => V::Arr(vec!["print".into(), d.into(), place.into(), 0usize.into()]),
            _ => V::Arr(vec!["load".into(), d.into(), place.into(), r.below(3).into()]),
        }
    }).collect();
    if r.chance(1, 20) {
        let n = match gen::dict_int(r, 66_000) { Some(n) if r.chance(1, 2) => n as i64, _ => if r.chance(1, 6) { *r.pick(&[5000, 17_000, 66_000, 66_000]) } else { *r.pick(&[300, 1100]) } };
        let k = gen::kind(r);
        let t = match (k, r.below(4)) {
            ('o', 3) => "mtllib m\no b\nv 1 2 3\nvt 1\nvn 0 0 1\ng g\ns 1\nusemtl u\nf 1/1/1 1/1/1 1/1/1\nl 1 1\np 1\n",
            (_, 3) => "newmtl a\nKa 1 2 3\nKd 1 2 3\nKs 1 2 3\nKe 1 2 3\nd 1\nNs 1\nNi 1\nillum 2\nmap_Ka a\nmap_Kd b\nmap_Ks c\nmap_Ke d\nmap_Ns e\nmap_d f\nbump g\ndisp h\ndecal i\n",
            ('o', 0) => "v 1 2 3\nf 1 1 2\n",
            ('o', _) => "v 1 2 3\nf 1 1 1\n",
            (_, 0) => "newmtl a\nd x\n",
            (_, _) => "newmtl a\nd 1\n",
        };
        docs.push(V::Arr(vec![V::from(k.to_string()), t.into()]));
        let at = r.below(ops.len());
        ops.insert(at, V::Arr(vec!["tiny".into(), nd.into(), 0usize.into(), V::Int(n)]));
    }
    let passes = if r.chance(1, 3) { 4usize } else { 1 };
    obj! { "docs": V::Arr(docs), "ops": V::Arr(ops), "passes": passes }
}
