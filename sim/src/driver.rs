//! Seeded search over simulated runs, minimisation, replay, evidence.
use crate::json::V;
use crate::obj;
use crate::proc::{covered, scenario, Report, Slot, chunk_size};
use crate::rt;
use crate::shrink::Shrinker;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub const PROPS: [&str; 23] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C24", "C25"];

/// simulated runs per tier
fn budget(prop: &str, tier: &str) -> (u64, Duration) {
    let q = match prop {
        "C02" => 120_000,
        "C03" | "C05" | "C13" | "C15" => 300_000,
        "C08" => 90_000,
        "C09" => 60_000,
        "C10" | "C14" => 150_000,
        "C12" => 30_000,
        "C17" => 120_000,
        "C18" => 700_000,
        "C25" => 800_000,
        _ => 200_000,
    };
    let second = second();
    let q = if second { q / 2 } else { q };
    match (tier, second) {
        ("thorough", false) => (q * 30, Duration::from_secs(430)),
        ("thorough", true) => (q * 30, Duration::from_secs(300)),
        (_, false) => (q, Duration::from_secs(150)),
        _ => (q, Duration::from_secs(100)),
    }
}

/// Is this the second of a check's two builds? It searches other runs than the first
/// and adds to its evidence.
fn second() -> bool { std::env::var_os("VSIM_SECOND").is_some() }

/// Properties that only speak about loads that end.
fn conditional(prop: &str) -> bool { matches!(prop, "C06" | "C07" | "C16" | "C17" | "C18" | "C19" | "C21" | "C22" | "C24" | "C25") }

/// Properties that compare a load with another load: when one of the texts of a run,
/// loaded alone in a fresh process, does not come back either, they have nothing to say.
fn blameless(prop: &str, s: &V) -> bool {
    if !matches!(prop, "C02" | "C03" | "C08" | "C09" | "C10" | "C11" | "C15") { return false; }
    s.get("docs").arr().iter().any(|d| {
        let a = d.arr();
        let k = a.first().map_or('o', |k| k.str().chars().next().unwrap_or('o'));
        crate::canon::fresh(k, a.get(1).map_or("", |t| t.str())).is_none()
    })
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn execv(p: *const i8, a: *const *const i8) -> i32;
}

fn fixed_addresses(args: &[String]) {
    if std::env::var_os("VSIM_FIXED").is_some() { return; }
    std::env::set_var("VSIM_FIXED", "1");
    unsafe {
        let p = personality(0xffff_ffff);
        if p < 0 || p & 0x0040_0000 != 0 || personality(p as u64 | 0x0040_0000) < 0 { return; }
        let Ok(exe) = std::env::current_exe() else { return };
        let mut a: Vec<std::ffi::CString> = vec![std::ffi::CString::new(exe.to_string_lossy().as_bytes()).unwrap()];
        for x in args { a.push(std::ffi::CString::new(x.as_bytes()).unwrap()); }
        let mut ptrs: Vec<*const i8> = a.iter().map(|x| x.as_ptr() as *const i8).collect();
        ptrs.push(std::ptr::null());
        execv(ptrs[0], ptrs.as_ptr());
    }
}

pub fn main(args: Vec<String>) -> i32 {
    fixed_addresses(&args);
    rt::init();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let seed = if second() { seed.wrapping_add(1 << 40) } else { seed };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let root = std::env::var("VSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    match a.as_slice() {
        ["check", prop, rest @ ..] if PROPS.contains(prop) => {
            let tier = rest.first().copied().unwrap_or("quick");
            check(prop, tier, seed, &root, rest.get(1).and_then(|s| s.parse().ok()))
        }
        ["replay", file] => replay(file),
        ["gen", prop, run] => { println!("{}", scenario(prop, seed, run.parse().unwrap_or(0)).pretty()); 0 }
        ["trace", prop, run] => {
            let s = scenario(prop, seed, run.parse().unwrap_or(0));
            let r = Slot::new().scenarios(prop, &[s], true);
            for l in &r.log { println!("{}", l); }
            println!("{:?}", r.viol);
            0
        }
        ["one", kind] => {
            use std::io::Read;
            let mut t = String::new();
            if std::io::stdin().read_to_string(&mut t).is_err() { return 2; }
            let k = kind.chars().next().unwrap_or('o');
            print!("{:?}", crate::canon::load(k, &t, crate::pipe::hang_limit(t.len())).0);
            0
        }
        ["text", kind, file] => {
            // what the library and the reference model make of one text
            let t = std::fs::read_to_string(file).unwrap_or_default();
            let k = kind.chars().next().unwrap_or('o');
            println!("library: {:?}", crate::canon::load(k, &t, rt::Opt::default()).0);
            println!("model:   {:?}", crate::model::run(k, &t));
            0
        }
        ["determinism", prop, n] => determinism(prop, seed, n.parse().unwrap_or(8)),
        _ => { eprintln!("usage: vsim check ID [quick|thorough] | replay FILE | gen ID RUN | trace ID RUN | text o|m FILE | determinism ID CHUNKS"); 2 }
    }
}

fn known_findings(root: &str, prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("open: ")?;
        let l = l.strip_prefix(&format!("property={} ", prop))?;
        let m = l.strip_prefix("match=\"")?;
        let (pat, what) = m.split_once("\" ")?;
        Some((pat.to_string(), what.to_string()))
    }).collect()
}

struct Totals {
    runs: u64,
    evals: u64,
    now: u64,
    stats: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    cov: Vec<u8>,
    known: BTreeMap<String, u64>,
    traces: BTreeMap<u64, u64>,
    skipped: u64,
}

fn jobs() -> usize {
    std::env::var("VSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())).clamp(1, 16)
}

fn check(prop: &str, tier: &str, seed: u64, root: &str, runs: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let (mut want, wall) = budget(prop, tier);
    if let Some(n) = runs { want = n; }
    let size = chunk_size(prop);
    let nchunks = (want + size - 1) / size;
    let known = known_findings(root, prop);
    let pats: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let mut tot = Totals { runs: 0, evals: 0, now: 0, stats: BTreeMap::new(), distinct: HashSet::new(), cov: vec![], known: BTreeMap::new(), traces: BTreeMap::new(), skipped: 0 };
    let mut slots: Vec<Slot> = (0..jobs()).map(|_| Slot::new()).collect();
    let mut next = 0;
    let mut stop_at = nchunks;
    let mut found: Option<(u64, String, String)> = None;
    let mut skips: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut redo: Vec<u64> = vec![];
    let mut late: HashSet<u64> = HashSet::new();
    loop {
        let mut idle = true;
        for s in &mut slots {
            if s.busy() {
                if s.tag > stop_at { s.stop(); continue; }
                let Some(rep) = s.poll(prop) else { continue };
                idle = false;
                let ch = s.tag;
                covered(&mut tot.cov, &rep.cov);
                if let Some((run, class, detail)) = rep.viol.clone() {
                    if class == "HARNESS" { eprintln!("harness error in run {}: {}", run, detail); return 2; }
                    if rep.timed_out && late.insert(ch) { redo.push(ch); continue; }
                    let abnormal = rep.runs == 0;
                    if abnormal && (conditional(prop) || blameless(prop, &scenario(prop, seed, run))) {
                        tot.skipped += 1;
                        if tot.skipped > 40 { stop_at = 0; continue; }
                        skips.entry(ch).or_default().push(run);
                        redo.push(ch);
                        continue;
                    }
                    if found.as_ref().map_or(true, |f| run < f.0) { found = Some((run, class, detail)); }
                    stop_at = stop_at.min(ch);
                    continue;
                }
                tot.runs += rep.runs;
                tot.evals += rep.evals;
                tot.now += rep.now;
                Report::merge_stats(&mut tot.stats, &rep.stats);
                tot.distinct.extend(&rep.hashes);
                tot.traces.insert(ch, rep.trace);
                for k in rep.known { *tot.known.entry(k).or_insert(0) += 1; }
            }
            let ch = if let Some(c) = redo.pop() { Some(c) }
                else if next < stop_at && t0.elapsed() < wall { next += 1; Some(next - 1) } else { None };
            if let Some(ch) = ch {
                if ch > stop_at { continue; }
                idle = false;
                let to = ((ch + 1) * size).min(want);
                s.chunk(prop, seed, ch * size, to, skips.get(&ch).map_or(&[], |v| v), &pats);
            }
        }
        if slots.iter().all(|s| !s.busy()) && redo.is_empty() && (next >= stop_at || t0.elapsed() >= wall) { break; }
        if idle { std::thread::sleep(Duration::from_micros(500)); }
    }
    let search = t0.elapsed();
    for (pat, what) in &known {
        if tot.known.contains_key(pat) || found.is_none() { println!("KNOWN-FINDING: property={} {}", prop, what); }
    }
    // the same seeds again: every event of every run must repeat
    let mut same = 0;
    let mut differ = vec![];
    if found.is_none() {
        let k = if tier == "quick" { 6 } else { 40 };
        let every = (tot.traces.len() as u64 / k).max(1);
        let again: Vec<(u64, u64)> = tot.traces.iter().map(|(a, b)| (*a, *b)).filter(|(c, _)| c % every == 0 && !skips.contains_key(c)).take(k as usize).collect();
        for (ch, tr) in again {
            let s = &mut slots[0];
            s.chunk(prop, seed, ch * size, ((ch + 1) * size).min(want), &[], &pats);
            let rep = loop { if let Some(r) = s.poll(prop) { break r; } std::thread::sleep(Duration::from_micros(300)); };
            if rep.trace == tr { same += 1 } else { differ.push(ch) }
        }
        if !differ.is_empty() { eprintln!("warning: chunks {:?} did not repeat exactly", differ); }
    }
    let code = match &found {
        None => 0,
        Some(f) => report(prop, seed, f, root, &mut slots[0]),
    };
    evidence(prop, tier, seed, root, &tot, want, search, t0.elapsed(), same, &differ, found.is_some(), &skips);
    if code == 0 {
        println!("{} {} ({} build): held on {} simulated runs ({} evaluations, {} distinct), {:.1} s", prop, tier, rt::BUILD, tot.runs, tot.evals, tot.distinct.len(), t0.elapsed().as_secs_f64());
    }
    code
}

/// Confirm, minimise and store a violation.
fn report(prop: &str, seed: u64, f: &(u64, String, String), root: &str, slot: &mut Slot) -> i32 {
    let (run, class, detail) = f;
    eprintln!("{}: run {} of seed {}: {}: {}", prop, run, seed, class, detail);
    let fails = |slot: &mut Slot, seq: &[V]| {
        let r = slot.scenarios(prop, seq, false);
        let i = r.viol.as_ref().map_or(0, |v| v.0 as usize);
        let gone = r.runs == 0;
        r.viol.map_or(false, |v| v.1 == *class) && !(gone && seq.get(i).map_or(false, |s| blameless(prop, s)))
    };
    let one = vec![scenario(prop, seed, *run)];
    let seq = if fails(slot, &one) { Some(one) } else {
        // the violation needs what the process did before
        let size = chunk_size(prop);
        let from = run / size * size;
        let all: Vec<V> = (from..=*run).map(|r| scenario(prop, seed, r)).collect();
        if fails(slot, &all) { Some(all) } else { None }
    };
    let Some(seq) = seq else {
        // seen once, in the run named here, but not again: keep the evidence as it is
        let path = store(root, prop, seed, *run, class, detail, &[scenario(prop, seed, *run)], &Report::default(), 0, false);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    };
    let (small, execs) = {
        let mut test = |s: &[V]| !s.is_empty() && fails(slot, s);
        let mut sh = Shrinker::new(&mut test);
        let small = sh.run(seq);
        let n = sh.execs;
        (small, n)
    };
    let rep = slot.scenarios(prop, &small, true);
    let (c, d) = rep.viol.clone().map_or((class.clone(), detail.clone()), |v| (v.1, v.2));
    eprintln!("{}: minimised in {} executions: {}: {}", prop, execs, c, d);
    let path = store(root, prop, seed, *run, &c, &d, &small, &rep, execs, true);
    println!("VIOLATION property={} replay={}", prop, path);
    1
}

fn store(root: &str, prop: &str, seed: u64, run: u64, class: &str, detail: &str, seq: &[V], rep: &Report, execs: usize, exact: bool) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-seed{}-run{}.json", dir, prop, rt::BUILD, seed, run);
    let v = obj! {
        "property": prop, "build": rt::BUILD, "seed": seed, "run": run, "class": class, "detail": detail,
        "minimised_in_executions": execs, "reproduces": exact, "trace_hash": rep.trace,
        "scenarios": V::Arr(seq.to_vec()),
        "trace": V::Arr(rep.log.iter().take(400).map(|s| V::from(s.clone())).collect()),
    };
    let _ = std::fs::write(&path, v.pretty());
    path
}

fn replay(file: &str) -> i32 {
    let v = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| V::parse(&t)) {
        Ok(v) => v,
        Err(e) => { eprintln!("{}: {}", file, e); return 2; }
    };
    let prop = v.get("property").str().to_string();
    let rep = Slot::new().scenarios(&prop, v.get("scenarios").arr(), true);
    for l in &rep.log { println!("{}", l); }
    match rep.viol {
        Some((i, class, detail)) => {
            if class == "HARNESS" { eprintln!("{}", detail); return 2; }
            println!("scenario {}: {}: {}", i, class, detail);
            println!("trace hash {} ({} recorded)", rep.trace as i64, v.get("trace_hash").int());
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        None => { println!("no violation"); 0 }
    }
}

fn determinism(prop: &str, seed: u64, n: u64) -> i32 {
    let size = chunk_size(prop);
    let mut s = Slot::new();
    for ch in 0..n {
        let mut t = vec![];
        for _ in 0..2 {
            s.chunk(prop, seed, ch * size, (ch + 1) * size, &[], &[]);
            t.push(loop { if let Some(r) = s.poll(prop) { break (r.trace, r.viol); } std::thread::sleep(Duration::from_micros(300)); });
        }
        println!("{} {} {:x} {:?}", prop, ch, t[0].0, t[0].1);
        if t[0] != t[1] { println!("DIFFERS"); return 1; }
    }
    0
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C04" | "C05" | "C06" | "C07" | "C16" | "C21" | "C22" | "C24" => "A run interleaves exporters, loaders, crashes and media damage over a simulated disk; every load is one evaluation. Non-trivial: the loaded text is longer than 2 bytes and at least one fault hit the disk before the load. Distinct by file kind and text.",
        "C02" | "C03" => "A run writes a sound file in pieces, crashes, tears, cuts and resumes it; every load is one evaluation. Non-trivial: at least one fault hit before the load and more than 2 bytes survived. Distinct by surviving text.",
        "C08" => "A run executes 2 to 4 simulated threads under one seeded schedule; one evaluation per run. Non-trivial: at least one preemption inside a library operation. Distinct by the sequence of (from, to, basic block) switches and the first text.",
        "C09" => "A run is a history of operations in one process (loads, starved, cancelled and abandoned loads, clock jumps, new hash seeds, other threads); one evaluation per operation. Distinct by history; non-trivial if it has operations.",
        "C10" => "One evaluation is one operation with one allocation failing. Non-trivial: the failure was actually delivered. Distinct by text, operation, allocation number and persistence.",
        "C11" => "One evaluation is one value printed to one faulty sink. Non-trivial: the sink refused. Distinct by text, sink kind, budget and piece size.",
        "C12" => "One evaluation is one metered load of a large or damaged text. Non-trivial: longer than 2 bytes. Distinct by text.",
        "C13" => "One evaluation is one session of interleaved calls on parsers and copies over one set of texts. Distinct by texts and call sequence.",
        "C14" => "One evaluation is one reload of a printed log after syncs and crashes. Non-trivial: it holds at least one record. Distinct by surviving log.",
        "C17" => "A run appends parts written by several exporters to one file, loses, repeats and reorders some; one evaluation is one load of what survived. Non-trivial: at least two parts survived. Distinct by file kind and text.",
        "C19" => "A run writes one file through several buffered writers whose flushes interleave, with crashes; one evaluation is one load of what is in the file. Distinct by file kind and text.",
        "C25" => "A run loads two replicas damaged independently and lets a copy drift away from its original; one evaluation is one comparison of whole results, item by item. Distinct by file kind and both texts.",
        "C18" => "A run damages a text and repairs it line by line as the reported errors say; every load is one evaluation. Distinct by file kind and damaged text.",
        _ => "One evaluation is one load of a rewritten text. Non-trivial: the rewriting changed the text. Distinct by rewritten text.",
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, root: &str, t: &Totals, want: u64, search: Duration, wall: Duration, same: u64, differ: &[u64], violated: bool, skips: &BTreeMap<u64, Vec<u64>>) {
    let hours = search.as_secs_f64() / 3600.0;
    let pick = |p: &str, strip: bool| V::Obj(t.stats.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (Cow::Owned(if strip { k[p.len()..].to_string() } else { k.clone() }), V::from(*v))).collect());
    let other = V::Obj(t.stats.iter().filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("outcome.") && !k.starts_with("error.")).map(|(k, v)| (Cow::Owned(k.clone()), V::from(*v))).collect());
    let guards = rt::GUARDS.load(std::sync::atomic::Ordering::Relaxed) as u64;
    let edges = t.cov.iter().filter(|c| **c != 0).count() as u64;
    let samples: Vec<V> = [0, want / 3, want * 2 / 3].iter().map(|&r| {
        let d = scenario(prop, seed, r).dump();
        let short: String = d.chars().take(1500).collect();
        obj! { "run": r, "scenario": short, "truncated": d.chars().count() > 1500 }
    }).collect();
    let path = format!("{}/evidence/{}.json", root, prop);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if second() {
        // add what this build covered to what the first one wrote
        let Ok(V::Obj(mut top)) = std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|t| V::parse(&t)) else {
            eprintln!("evidence: {} is missing", path);
            return;
        };
        for (k, x) in top.iter_mut() {
            match (k.as_ref(), x) {
                ("wall_s", x) => *x = V::F(match &*x { V::F(f) => *f, y => y.int() as f64 } + wall.as_secs_f64()),
                ("violations", x) => *x = V::Int(x.int() + violated as i64),
                ("coverage", V::Obj(c)) => c.push((Cow::Borrowed("second_build"), obj! {
                    "build": rt::BUILD, "seed": seed,
                    "evaluations": t.evals, "distinct_nontrivial": t.distinct.len(), "samples": V::Arr(samples.clone()),
                    "simulated_runs": t.runs, "runs_planned": want,
                    "simulated_runs_per_hour": (t.runs as f64 / hours.max(1e-9)) as u64,
                    "simulated_seconds": t.now as f64 / 1e9,
                    "faults_injected": pick("fault.", true), "outcomes": pick("outcome.", true),
                    "basic_blocks_reached": edges, "basic_blocks_total": guards,
                    "chunks_rerun_identical": same, "chunks_rerun_different": differ.len(),
                    "runs_skipped_as_crash_or_hang": skips.values().map(|v| v.len()).sum::<usize>(),
                })),
                _ => {}
            }
        }
        if let Err(e) = std::fs::write(&path, V::Obj(top).pretty()) { eprintln!("evidence: {}", e); }
        return;
    }
    let v = obj! {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": obj! {
            "build": rt::BUILD,
            "evaluations": t.evals,
            "distinct_nontrivial": t.distinct.len(),
            "rule": rule(prop),
            "samples": V::Arr(samples),
            "simulated_runs": t.runs,
            "runs_planned": want,
            "simulated_runs_per_hour": (t.runs as f64 / hours.max(1e-9)) as u64,
            "simulated_seconds": t.now as f64 / 1e9,
            "faults_injected": pick("fault.", true),
            "outcomes": pick("outcome.", true),
            "error_categories_seen": pick("error.", true),
            "counters": other,
            "basic_blocks_reached": edges,
            "basic_blocks_total": guards,
            "chunks_rerun_identical": same,
            "chunks_rerun_different": differ.len(),
            "runs_skipped_as_crash_or_hang": skips.values().map(|v| v.len()).sum::<usize>(),
            "real_components": V::Arr(vec!["wavefront_obj: lexer.rs, obj.rs, mtl.rs (compiled from /repo's working tree, unmodified)".into(), "Rust std collections, formatting and float parsing".into()]),
            "simulated_components": V::Arr(vec!["disk, page cache, rename, crash and media".into(), "readers and sinks".into(), "thread scheduling and futexes".into(), "allocator failures".into(), "clock and random source".into()]),
        },
        "assumptions": V::Arr(vec![
            "the reference model in /verif/sim/src/model.rs states the intended meaning of a text".into(),
            "preemption happens at basic-block boundaries of the library and at its lock operations".into(),
            "within a seed, a run is a function of (seed, property, run number)".into(),
        ]),
        "wall_s": wall.as_secs_f64(),
        "violations": violated as i64,
    };
    if let Err(e) = std::fs::write(&path, v.pretty()) { eprintln!("evidence: {}", e); }
}
