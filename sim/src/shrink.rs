//! Minimising a failing scenario sequence while it keeps failing the same way.
use crate::json::V;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    pub test: &'a mut dyn FnMut(&[V]) -> bool,
    pub execs: usize,
    pub until: Instant,
    pub max: usize,
}

enum Step { Key(usize), At(usize) }

fn at<'v>(v: &'v mut V, path: &[Step]) -> &'v mut V {
    let mut v = v;
    for s in path {
        v = match (v, s) {
            (V::Obj(o), Step::Key(i)) => &mut o[*i].1,
            (V::Arr(a), Step::At(i)) => &mut a[*i],
            _ => unreachable!(),
        };
    }
    v
}

/// Arrays that are lists (of events, operations, fates), not tuples.
fn is_list(a: &[V]) -> bool {
    if a.is_empty() { return false; }
    a.iter().all(|x| matches!(x, V::Arr(_))) || a.iter().all(|x| matches!(x, V::Obj(_))) || (a.len() > 6 && a.iter().all(|x| matches!(x, V::Int(_))))
}

fn paths(v: &V, want: &dyn Fn(&V) -> bool, cur: &mut Vec<(bool, usize)>, out: &mut Vec<Vec<Step>>) {
    if want(v) { out.push(cur.iter().map(|(k, i)| if *k { Step::Key(*i) } else { Step::At(*i) }).collect()); }
    match v {
        V::Obj(o) => for (i, (_, x)) in o.iter().enumerate() { cur.push((true, i)); paths(x, want, cur, out); cur.pop(); },
        V::Arr(a) => for (i, x) in a.iter().enumerate() { cur.push((false, i)); paths(x, want, cur, out); cur.pop(); },
        _ => {}
    }
}

impl<'a> Shrinker<'a> {
    pub fn new(test: &'a mut dyn FnMut(&[V]) -> bool) -> Shrinker<'a> {
        Shrinker { test, execs: 0, until: Instant::now() + Duration::from_secs(40), max: 4000 }
    }
    fn over(&self) -> bool { self.execs >= self.max || Instant::now() > self.until }
    fn try_it(&mut self, root: &V) -> bool {
        if self.over() { return false; }
        self.execs += 1;
        (self.test)(root.arr())
    }

    pub fn run(&mut self, seq: Vec<V>) -> Vec<V> {
        let mut root = V::Arr(seq);
        loop {
            let before = root.dump();
            self.lists(&mut root);
            self.strings(&mut root);
            self.numbers(&mut root);
            if self.over() || root.dump() == before { break; }
        }
        match root { V::Arr(a) => a, _ => vec![] }
    }

    /// Remove pieces of `items` as long as `build(rest)` still fails.
    fn ddmin<T: Clone>(&mut self, root: &mut V, path: &[Step], items: Vec<T>, build: &dyn Fn(&[T]) -> V) {
        let mut items = items;
        let mut size = items.len();
        while size >= 1 {
            let mut i = 0;
            while i < items.len() {
                if self.over() { return; }
                let mut rest = items[..i].to_vec();
                rest.extend_from_slice(&items[(i + size).min(items.len())..]);
                let old = std::mem::replace(at(root, path), build(&rest));
                if self.try_it(root) { items = rest; } else { *at(root, path) = old; i += size; }
            }
            size /= 2;
        }
    }

    fn lists(&mut self, root: &mut V) {
        let mut done = 0;
        loop {
            let mut ps = vec![];
            paths(root, &|v| matches!(v, V::Arr(a) if is_list(a)), &mut vec![], &mut ps);
            if done >= ps.len() || self.over() { return; }
            let p = ps.swap_remove(done);
            done += 1;
            // the whole sequence may not become empty
            let items = at(root, &p).arr().to_vec();
            self.ddmin(root, &p, items, &|x| V::Arr(x.to_vec()));
        }
    }

    fn strings(&mut self, root: &mut V) {
        let mut ps = vec![];
        paths(root, &|v| matches!(v, V::Str(s) if s.len() > 1), &mut vec![], &mut ps);
        for p in ps {
            // the operation name of an event is not data
            if let Some(Step::At(i)) = p.last() {
                if *i <= 1 && at(root, &p).str().chars().all(|c| c.is_ascii_lowercase()) && at(root, &p).str().len() < 12 { continue; }
            }
            let t = at(root, &p).str().to_string();
            let lines: Vec<String> = t.split_inclusive(['\n', '\r']).map(|x| x.to_string()).collect();
            if lines.len() > 1 { self.ddmin(root, &p, lines, &|x| V::Str(x.concat())); }
            let words: Vec<String> = at(root, &p).str().split_inclusive([' ', '\t', '\\', '\n', '\r']).map(|x| x.to_string()).collect();
            if words.len() > 1 { self.ddmin(root, &p, words, &|x| V::Str(x.concat())); }
            let chars: Vec<char> = at(root, &p).str().chars().collect();
            if chars.len() <= 600 { self.ddmin(root, &p, chars, &|x| V::Str(x.iter().collect())); }
        }
    }

    fn numbers(&mut self, root: &mut V) {
        let mut ps = vec![];
        paths(root, &|v| matches!(v, V::Int(i) if *i != 0), &mut vec![], &mut ps);
        for p in ps {
            let x = at(root, &p).int();
            for y in [0, 1, x / 2, x - x.signum()] {
                let cur = at(root, &p).int();
                if y == cur || y.unsigned_abs() > cur.unsigned_abs() { continue; }
                if self.over() { return; }
                *at(root, &p) = V::Int(y);
                if self.try_it(root) { break; }
                *at(root, &p) = V::Int(cur);
            }
        }
    }
}
