//! World "sessions": parsers over damaged texts are created, called, copied and dropped
//! in any interleaving.
use crate::canon::{self, Out, Raw};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::model::{self, Canon};
use crate::obj;
use crate::pipe::kname;
use crate::rng::{fnv, mix, Rng};
use crate::rt::{self, Opt};
use crate::thr::env;
use wavefront_obj as lib;

enum P<'a> { O(lib::obj::Parser<'a>), M(lib::mtl::Parser<'a>) }

impl<'a> P<'a> {
    fn new(kind: char, t: &'a str) -> P<'a> {
        if kind == 'o' { P::O(lib::obj::Parser::new(t)) } else { P::M(lib::mtl::Parser::new(t)) }
    }
    fn call(&mut self, n: usize) -> Out {
        let o = Opt { limit: 5_000_000 + 3000 * n as u64, ..Opt::default() };
        let (r, _) = match self {
            P::O(p) => { let (r, m) = rt::call(o, || p.parse_objset()); (r.map(Raw::O), m) }
            P::M(p) => { let (r, m) = rt::call(o, || p.parse_mtlset()); (r.map(Raw::M), m) }
        };
        match r { Ok(r) => r.out(), Err(s) => Out::Stop(s) }
    }
}

fn empty(o: &Out) -> bool {
    match o {
        Out::Ok(Canon::Obj(s)) => s.libs.is_empty() && s.objs.is_empty(),
        Out::Ok(Canon::Mtl(m)) => m.is_empty(),
        _ => false,
    }
}

/// The outcomes of calling one parser over and over, alone.
fn baseline(kind: char, t: &str, c: &mut Ctx) -> Vec<Out> {
    let tokens: usize = model::lines(t).iter().map(|l| model::words(l.0).count() + 1).sum();
    let n = (tokens + 4).min(400);
    let mut p = P::new(kind, t);
    let mut out: Vec<Out> = vec![];
    let mut line = 0;
    let mut done = false;
    let name = format!("{} text {}", kname(kind), show(t));
    for i in 0..n {
        let o = p.call(t.len());
        if let Out::Stop(s) = &o { c.fail("crash", format!("{}: call {} ended with {:?}", name, i, s)); return out; }
        if done && !empty(&o) {
            c.fail("not-empty-after-end", format!("{}: call {} after the end gave {}", name, i, o.brief()));
            return out;
        }
        if let Out::Err { line: l, .. } = &o {
            if *l < line { c.fail("line-backwards", format!("{}: call {} reports line {} after line {}", name, i, l, line)); return out; }
            line = *l;
        }
        done |= o.is_ok();
        let same = i > 0 && out[i - 1] == o;
        out.push(o);
        // settled: three equal outcomes in a row can only repeat
        if same && i > 2 && out[i - 2] == out[i] && (done || i + 1 >= n.min(12)) { break; }
    }
    if tokens + 4 <= 400 && out.len() == n && n >= 3 && out[n - 1] != out[n - 2] {
        c.fail("never-settles", format!("{}: still changing after {} calls for {} tokens: {} then {}", name, n, tokens, out[n - 2].brief(), out[n - 1].brief()));
    }
    out
}

pub fn exec(s: &V, c: &mut Ctx) {
    let e = env(s);
    let mut base = vec![];
    for (k, t) in &e.docs {
        base.push(baseline(*k, t, c));
        if c.failed() { return; }
    }
    // (parser, doc, calls made)
    let mut pool: Vec<(P, usize, usize)> = vec![];
    for o in s.get("ops").arr() {
        let a = o.arr();
        let op = a.first().map_or("", |x| x.str());
        let i = a.get(1).map_or(0, |x| x.us());
        c.ev(op, i as u64, || o.dump());
        match op {
            "new" => {
                let d = i % e.docs.len();
                pool.push((P::new(e.docs[d].0, &e.docs[d].1), d, 0));
            }
            "clone" if !pool.is_empty() => {
                let k = i % pool.len();
                let (p, d, n) = &pool[k];
                if let P::O(p) = p {
                    if let (Ok(q), _) = rt::call(Opt::default(), || p.clone()) {
                        let x = (P::O(q), *d, *n);
                        pool.push(x);
                        c.count("fault.copied_mid_session", (pool[k].2 > 0) as u64);
                    }
                }
            }
            "drop" if !pool.is_empty() => { let k = i % pool.len(); pool.remove(k); c.fault("session_abandoned"); }
            "call" if !pool.is_empty() => {
                let k = i % pool.len();
                let (p, d, n) = &mut pool[k];
                let got = p.call(e.docs[*d].1.len());
                let b = &base[*d];
                let want = b.get(*n).unwrap_or(&b[b.len() - 1]);
                c.evals += 1;
                c.count(if got.is_ok() { "outcome.ok" } else { "outcome.error" }, 1);
                if *n > 0 && matches!(got, Out::Err { .. }) { c.fault("called_again_after_error"); }
                c.distinct(mix(fnv(*n as u64, e.docs[*d].1.as_bytes()), mix(pool.len() as u64, c.seq)));
                let (d, n) = { let x = &mut pool[k]; x.2 += 1; (x.1, x.2 - 1) };
                if got != *want {
                    c.fail("session-diverges", format!("{} text {}: call {} of session {} gave {}, alone it gives {}",
                        kname(e.docs[d].0), show(&e.docs[d].1), n, k, got.brief(), want.brief()));
                    return;
                }
            }
            _ => {}
        }
    }
    let _ = canon::hash_out;
}

pub fn generate(r: &mut Rng) -> V {
    let nd = r.range(1, 3);
    let docs: Vec<V> = (0..nd).map(|_| {
        let k = if r.chance(4, 5) { 'o' } else { 'm' };
        let sz = *r.pick(&[4, 10, 20, 40]);
        let mut c = gen::cfg(r, sz);
        if r.chance(2, 3) { c.bad = *r.pick(&[30, 100, 250]); }
        let t = gen::doc(r, k, &c);
        V::Arr(vec![V::from(k.to_string()), t.into()])
    }).collect();
    let mut ops: Vec<V> = vec![V::Arr(vec!["new".into(), 0usize.into()])];
    for _ in 0..r.range(3, 40) {
        let op = *r.pick(&["new", "call", "call", "call", "call", "clone", "clone", "drop"]);
        if op == "drop" && r.chance(2, 3) { continue; }
        ops.push(V::Arr(vec![op.into(), r.below(1 << 12).into()]));
    }
    obj! { "docs": V::Arr(docs), "ops": V::Arr(ops) }
}
