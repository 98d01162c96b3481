//! World "memory": any allocation the library makes may fail, once or from then on.
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::obj;
use crate::pipe::kname;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, Opt, Stop};
use crate::thr::{env, run_op, Res};

pub fn exec(s: &V, c: &mut Ctx) {
    let e = env(s);
    let sums: Vec<String> = e.docs.iter().map(|d| d.1.clone()).collect();
    for o in s.get("ops").arr() {
        let a = o.arr();
        let op = a.first().map_or("parse", |x| x.str());
        let d = a.get(1).map_or(0, |x| x.us()) % e.docs.len();
        let k = a.get(2).map_or(0, |x| x.us());
        let forever = a.get(3).map_or(false, |x| x.int() != 0);
        let (kind, text) = &e.docs[d];
        let (base, m0) = run_op(op, d, &e, Opt::default());
        // an operation that fails without any fault has no result to compare with
        if matches!(base, Res::Stop(_)) { c.count("fails_without_faults", 1); continue; }
        if m0.allocs == 0 { continue; }
        let k = (k as u64 % m0.allocs) as i64;
        let what = format!("{} of {} text {} with allocation {} of {} failing{}", op, kname(*kind), show(text), k, m0.allocs, if forever { " for good" } else { "" });
        c.evals += 1;
        let mut leaks = 0;
        let mut delta = 0;
        for attempt in 0..3 {
            let live = rt::live();
            let (r, m) = run_op(op, d, &e, Opt { fail: k, forever, ..Opt::default() });
            if attempt == 0 {
                c.now += m.steps * 10;
                c.count("library_steps", m.steps);
                c.ev(op, mix(m.steps, k as u64), || format!("{} -> {}", what, r.brief()));
                if m.fired > 0 {
                    c.fault(if forever { "allocations_fail_from_here" } else { "allocation_fails_once" });
                    c.distinct(fnv(k as u64, text.as_bytes()) ^ fnv(forever as u64, op.as_bytes()));
                }
            }
            match &r {
                Res::Stop(Stop::Oom) => { if attempt == 0 { c.count("outcome.allocation_failure", 1); } }
                Res::Stop(s) => { c.fail("panic", format!("{} ended with {:?}", what, s)); return; }
                r if *r == base => { if attempt == 0 && m.fired > 0 { c.count("outcome.full_result_despite_failure", 1); } }
                Res::Outs(o) if m.fired > 0 && o.iter().zip(outs(&base)).all(|(x, b)| x == b || !x.is_ok()) => { if attempt == 0 { c.count("outcome.error", 1); } }
                r => { c.fail("wrong-result", format!("{} returned {} instead of {}", what, r.brief(), base.brief())); return; }
            }
            drop(r);
            delta = rt::live() - live;
            if delta > 0 { leaks += 1; } else { break; }
        }
        if leaks == 3 {
            c.fail("leak", format!("{}: {} bytes are never released", what, delta));
            return;
        }
        if e.docs.iter().zip(&sums).any(|(a, b)| a.1 != *b) {
            c.fail("input-changed", format!("{} changed its input", what));
            return;
        }
        let (again, _) = run_op(op, d, &e, Opt::default());
        if again != base {
            c.fail("retry", format!("after {}, repeating it with memory available gave {} instead of {}", what, again.brief(), base.brief()));
            return;
        }
    }
}

fn outs(r: &Res) -> &[crate::canon::Out] {
    if let Res::Outs(o) = r { o } else { &[] }
}

pub fn generate(r: &mut Rng) -> V {
    let nd = r.range(1, 3);
    let docs: Vec<V> = (0..nd).map(|_| {
        let k = gen::kind(r);
        let sz = *r.pick(&[6, 20, 40]);
        let c = gen::cfg(r, sz);
        let t = if r.chance(4, 5) { gen::sound(r, k, &c) } else { gen::doc(r, k, &c) };
        V::Arr(vec![V::from(k.to_string()), t.into()])
    }).collect();
    let n = r.range(1, 16);
    let ops: Vec<V> = (0..n).map(|_| {
        let op = *r.pick(&["parse", "parse", "parse", "sess", "print", "clone", "debug"]);
        let k = if r.chance(1, 2) { r.below(24) } else { r.below(1 << 16) };
        V::Arr(vec![op.into(), r.below(nd).into(), k.into(), r.below(2).into()])
    }).collect();
    obj! { "docs": V::Arr(docs), "ops": V::Arr(ops) }
}
