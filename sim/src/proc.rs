//! Running simulated scenarios in forked, throw-away processes.
use crate::ctx::{Ctx, Viol};
use crate::json::V;
use crate::obj;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, Shared, NGUARD, SHARED, SHBUF};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
}

/// Runs per process.
pub fn chunk_size(prop: &str) -> u64 { if matches!(prop, "C08" | "C09") { 8 } else { 64 } }
pub const WALL: Duration = Duration::from_secs(150);

pub fn scenario(prop: &str, seed: u64, run: u64) -> V {
    let mut r = Rng::new(mix(mix(seed, fnv(1, prop.as_bytes())), run));
    let mut s = generate(prop, &mut r, run);
    // sometimes the clocks stand still or jump
    if r.chance(1, 6) { if let V::Obj(o) = &mut s { o.push(("clk".into(), r.range(1, 5).into())); } }
    s
}

fn generate(prop: &str, r: &mut Rng, run: u64) -> V {
    match prop {
        "C08" => crate::thr::generate(r, run % chunk_size(prop) == 0),
        "C09" => crate::hist::generate(r, run % chunk_size(prop) == 0),
        "C10" => crate::oom::generate(r),
        "C11" => crate::sink::generate(r),
        "C13" => crate::sess::generate(r),
        "C14" => crate::mlog::generate(r),
        "C17" | "C18" => crate::parts::generate(prop, r),
        "C19" => crate::merge::generate(r),
        "C25" => crate::replica::generate(r),
        p => crate::pipe::generate(p, r, run),
    }
}

fn exec(prop: &str, s: &V, c: &mut Ctx) {
    // every run starts from the same seam state
    rt::CLOCK.store(1_700_000_000_000_000_000, SeqCst);
    rt::clock_jumps(s.get("clk").us());
    if s.get("clk").us() > 0 { c.fault("clock_jumps_during_calls"); }
    rt::ENVIRON.store(0, SeqCst);
    rt::TS.with(|t| { t.rnd.set(1); t.sim.set(-1); });
    let r = catch_unwind(AssertUnwindSafe(|| match prop {
        "C08" => crate::thr::exec(s, c),
        "C09" => crate::hist::exec(s, c),
        "C10" => crate::oom::exec(s, c),
        "C11" => crate::sink::exec(s, c),
        "C13" => crate::sess::exec(s, c),
        "C14" => crate::mlog::exec(s, c),
        "C17" | "C18" => crate::parts::exec(s, c),
        "C19" => crate::merge::exec(s, c),
        "C25" => crate::replica::exec(s, c),
        _ => crate::pipe::exec(s, c),
    }));
    if r.is_err() {
        let (at, what) = rt::PLACE.lock().map(|p| p.clone()).unwrap_or_default();
        if !rt::TS.with(|t| t.reading.replace(false)) {
            c.viol = Some(Viol { class: "HARNESS".into(), detail: format!("{} at {}", what, at) });
        } else {
            c.fail("panic", format!("the library panicked while its result was read: {} at {}", what, at));
        }
    }
}

/// What one process found out.
#[derive(Clone, Default, Debug)]
pub struct Report {
    pub runs: u64,
    pub evals: u64,
    pub now: u64,
    pub trace: u64,
    pub stats: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    /// run index, class, detail
    pub viol: Option<(u64, String, String)>,
    pub known: Vec<String>,
    pub log: Vec<String>,
    pub cov: Vec<u8>,
    pub timed_out: bool,
}

fn ints(x: &V) -> Vec<u64> { x.arr().iter().map(|v| v.int() as u64).collect() }

impl Report {
    fn encode(&self) -> String {
        obj! {
            "runs": self.runs, "evals": self.evals, "now": self.now, "trace": self.trace,
            "stats": V::Obj(self.stats.iter().map(|(k, v)| (std::borrow::Cow::Owned(k.clone()), V::from(*v))).collect()),
            "hashes": V::Arr(self.hashes.iter().map(|h| V::from(*h)).collect()),
            "viol": self.viol.as_ref().map_or(V::Null, |v| V::Arr(vec![V::from(v.0), v.1.clone().into(), v.2.clone().into()])),
            "known": V::Arr(self.known.iter().map(|k| V::from(k.clone())).collect()),
            "log": V::Arr(self.log.iter().map(|k| V::from(k.clone())).collect()),
        }.dump()
    }
    fn decode(s: &str) -> Option<Report> {
        let v = V::parse(s).ok()?;
        let mut stats = BTreeMap::new();
        if let V::Obj(o) = v.get("stats") { for (k, x) in o { stats.insert(k.to_string(), x.int() as u64); } }
        let strs = |x: &V| x.arr().iter().map(|s| s.str().to_string()).collect();
        let a = v.get("viol").arr();
        Some(Report {
            runs: v.get("runs").int() as u64, evals: v.get("evals").int() as u64, now: v.get("now").int() as u64,
            trace: v.get("trace").int() as u64, stats, hashes: ints(v.get("hashes")),
            viol: if a.len() == 3 { Some((a[0].int() as u64, a[1].str().into(), a[2].str().into())) } else { None },
            known: strs(v.get("known")), log: strs(v.get("log")), cov: vec![], timed_out: false,
        })
    }
    pub fn merge_stats(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
        for (k, v) in b {
            let e = a.entry(k.clone()).or_insert(0);
            if k.starts_with("max.") { *e = (*e).max(*v) } else { *e += v }
        }
    }
}

pub struct Slot { sh: *mut Shared, pid: i32, pub tag: u64, start: Instant }

impl Slot {
    pub fn new() -> Slot {
        let sh = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) } as *mut Shared;
        if sh as isize == -1 { eprintln!("mmap failed"); std::process::exit(2); }
        Slot { sh, pid: 0, tag: 0, start: Instant::now() }
    }
    pub fn busy(&self) -> bool { self.pid != 0 }

    fn spawn(&mut self, tag: u64, f: impl FnOnce(&Shared) -> Report) {
        let sh = unsafe { &mut *self.sh };
        sh.run.store(u64::MAX, SeqCst);
        sh.hang.store(0, SeqCst);
        sh.len.store(0, SeqCst);
        for c in sh.cov.iter() { c.store(0, Relaxed); }
        self.tag = tag;
        self.start = Instant::now();
        let pid = unsafe { fork() };
        if pid < 0 { eprintln!("fork failed"); std::process::exit(2); }
        if pid == 0 {
            unsafe { SHARED = self.sh; }
            // one harness failure must not unwind into the driver
            let code = match catch_unwind(AssertUnwindSafe(|| f(sh))) {
                Ok(mut r) => {
                    let mut s = r.encode();
                    if s.len() > SHBUF { r.hashes.clear(); r.log.truncate(200); s = r.encode(); }
                    if s.len() > SHBUF { 3 } else {
                        let dst = unsafe { &mut (*self.sh).buf };
                        dst[..s.len()].copy_from_slice(s.as_bytes());
                        sh.len.store(s.len(), SeqCst);
                        0
                    }
                }
                Err(_) => { eprintln!("harness panic: {:?}", rt::PLACE.lock().map(|p| p.clone())); 3 }
            };
            rt::exit_now(code);
        }
        self.pid = pid;
    }

    /// A finished process's report, if it has finished.
    pub fn poll(&mut self, prop: &str) -> Option<Report> {
        let mut st = 0;
        let r = unsafe { waitpid(self.pid, &mut st, 1) };
        let late = r == 0 && self.start.elapsed() > WALL;
        if r == 0 && !late { return None; }
        if late { unsafe { kill(self.pid, 9); waitpid(self.pid, &mut st, 0); } }
        self.pid = 0;
        let sh = unsafe { &*self.sh };
        let cov = sh.cov.iter().map(|c| c.load(Relaxed)).collect();
        let run = sh.run.load(SeqCst);
        let fail = |class: String, detail: String| Report { viol: Some((run, class, detail)), ..Report::default() };
        let mut rep = if late {
            Report { timed_out: true, ..fail(format!("{}.no-progress", prop), format!("no result after {} s", WALL.as_secs())) }
        } else if st & 0x7f == 0 && (st >> 8) & 0xff == 0 {
            let n = sh.len.load(SeqCst);
            match std::str::from_utf8(&sh.buf[..n]).ok().and_then(Report::decode) {
                Some(r) => r,
                None => fail("HARNESS".into(), "unreadable report".into()),
            }
        } else if st & 0x7f == 0 && (st >> 8) & 0xff == rt::HANG_EXIT {
            let steps = sh.hang_steps.load(SeqCst);
            let (k, d) = match sh.hang.load(SeqCst) {
                rt::HANG_STEPS => ("hang", format!("a call had not finished after {} steps", steps)),
                rt::HANG_LOCK => ("blocked", "a call waits for a lock nobody will release".to_string()),
                rt::HANG_DEADLOCK => ("deadlock", "threads wait for one another for ever".to_string()),
                rt::HANG_STALLED => ("waits-for-stalled", "a thread cannot finish because another one is stalled inside the library".to_string()),
                rt::HANG_MEMORY => ("runaway-memory", "a call allocates without end".to_string()),
                _ => ("hang", "?".to_string()),
            };
            fail(format!("{}.{}", prop, k), d)
        } else if st & 0x7f != 0 {
            fail(format!("{}.signal-{}", prop, st & 0x7f), format!("the process was ended by signal {} inside a load", st & 0x7f))
        } else {
            fail("HARNESS".into(), format!("exit code {}", st >> 8))
        };
        rep.cov = cov;
        Some(rep)
    }

    fn wait(&mut self, prop: &str) -> Report {
        let mut k = 0;
        loop {
            if let Some(r) = self.poll(prop) { return r; }
            k += 1;
            if k < 200 { std::thread::yield_now() } else { std::thread::sleep(Duration::from_micros(300)) }
        }
    }

    /// Start the runs `from..to` of a property.
    pub fn chunk(&mut self, prop: &str, seed: u64, from: u64, to: u64, skip: &[u64], known: &[String]) {
        self.spawn(from / chunk_size(prop), |sh| {
            let mut rep = Report::default();
            for run in from..to {
                if skip.contains(&run) { continue; }
                sh.run.store(run, SeqCst);
                let s = scenario(prop, seed, run);
                let mut c = Ctx::new(prop, false);
                exec(prop, &s, &mut c);
                rep.runs += 1;
                rep.evals += c.evals;
                rep.now += c.now;
                rep.trace = mix(rep.trace, c.trace ^ run);
                Report::merge_stats(&mut rep.stats, &c.stats);
                rep.hashes.extend(&c.hashes);
                if let Some(v) = c.viol {
                    if let Some(k) = known.iter().find(|k| v.detail.contains(k.as_str())) { rep.known.push(k.clone()); continue; }
                    rep.viol = Some((run, v.class, v.detail));
                    break;
                }
            }
            rep.hashes.sort_unstable();
            rep.hashes.dedup();
            rep
        });
    }

    /// Execute scenarios one after another in one fresh process.
    pub fn scenarios(&mut self, prop: &str, seq: &[V], log: bool) -> Report {
        self.spawn(0, |sh| {
            let mut rep = Report::default();
            for (i, s) in seq.iter().enumerate() {
                sh.run.store(i as u64, SeqCst);
                let mut c = Ctx::new(prop, log);
                exec(prop, s, &mut c);
                rep.runs += 1;
                rep.evals += c.evals;
                rep.now += c.now;
                rep.trace = mix(rep.trace, c.trace ^ i as u64);
                if let Some(l) = c.log { rep.log.extend(l); }
                if let Some(v) = c.viol { rep.viol = Some((i as u64, v.class, v.detail)); break; }
            }
            rep
        });
        self.wait(prop)
    }

    pub fn stop(&mut self) {
        if self.pid != 0 {
            let mut st = 0;
            unsafe { kill(self.pid, 9); waitpid(self.pid, &mut st, 0); }
            self.pid = 0;
        }
    }
}

impl Drop for Slot {
    fn drop(&mut self) {
        self.stop();
        unsafe { munmap(self.sh as *mut u8, std::mem::size_of::<Shared>()); }
    }
}

pub fn covered(total: &mut Vec<u8>, cov: &[u8]) {
    if total.len() < NGUARD { total.resize(NGUARD, 0); }
    for (a, b) in total.iter_mut().zip(cov) { *a |= *b; }
}
