//! Bookkeeping of one simulated run.
use crate::rng::{fnv, mix};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable name of what went wrong, used to keep minimisation on one bug
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Ctx {
    pub prop: String,
    /// simulated nanoseconds
    pub now: u64,
    pub seq: u64,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    pub stats: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub evals: u64,
    pub viol: Option<Viol>,
}

impl Ctx {
    pub fn new(prop: &str, log: bool) -> Ctx {
        Ctx { prop: prop.into(), log: if log { Some(vec![]) } else { None }, ..Ctx::default() }
    }
    /// Record an event of the run: part of the trace that must repeat exactly.
    pub fn ev(&mut self, what: &str, a: u64, text: impl FnOnce() -> String) {
        self.seq += 1;
        self.trace = mix(self.trace, fnv(a, what.as_bytes()) ^ self.now);
        if let Some(l) = &mut self.log {
            l.push(format!("{:>6} t={}us {} {}", self.seq, self.now / 1000, what, text()));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 { return; }
        if let Some(v) = self.stats.get_mut(k) { *v += n; } else { self.stats.insert(k.to_string(), n); }
    }
    pub fn fault(&mut self, k: &str) {
        let k = format!("fault.{}", k);
        self.count(&k, 1);
    }
    pub fn distinct(&mut self, h: u64) {
        self.hashes.push(h);
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        self.ev("VIOLATION", 0, || format!("{}: {}", class, detail));
        if self.viol.is_none() {
            self.viol = Some(Viol { class: format!("{}.{}", self.prop, class), detail });
        }
    }
    pub fn failed(&self) -> bool { self.viol.is_some() }
}

/// A text for a message: bounded and escaped.
pub fn show(t: &str) -> String {
    // the library can hand out strings that are not UTF-8
    let t = &*String::from_utf8_lossy(t.as_bytes());
    if t.len() <= 400 { return format!("{:?}", t); }
    let mut a = 180;
    while !t.is_char_boundary(a) { a -= 1; }
    let mut b = t.len() - 180;
    while !t.is_char_boundary(b) { b += 1; }
    format!("{:?} ...({} bytes)... {:?}", &t[..a], t.len(), &t[b..])
}
