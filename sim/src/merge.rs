//! World "merge" (C19): the statements of a file come from several buffered writers (one
//! per kind of statement) whose flushes interleave as the scheduler says; a crash leaves
//! what was flushed, after which the writers go on in another order.
use crate::canon::{self, Out};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::obj;
use crate::pipe::{hang_limit, kname};
use crate::rng::{fnv, Rng};

const BAD_OBJ: [&str; 19] = ["q", "v 1 2", "v 1 2 x", "vt", "vt x", "vn 1 2", "f", "f x y z", "s", "s x", "s -1", "usemtl", "o", "p", "p x", "vp 1 2", "l", "f 0 0 0", "p 0"];
const BAD_MTL: [&str; 12] = ["q", "Ka 1 2", "Kd x 1 1", "illum", "illum 99", "illum x", "map_Kd", "Ns", "Ni x", "newmtl", "d", "bump"];
const MAPS: [&str; 9] = ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "disp", "decal", "bump"];

/// One statement: the writer it comes from, its text, and what has to be in the file before it.
struct St { writer: usize, text: String, need: [usize; 3], bad: bool }

const ELEM: usize = 3;

/// The statements of one object, in the order of the exporter, behind `base` items.
fn object(o: &V, base: &mut [usize; 3]) -> Vec<St> {
    let mut out: Vec<St> = vec![];
    let mut n = [0usize; 3];
    for l in o.get("st").arr() {
        let a = l.arr();
        let tag = a.first().map_or("", |x| x.str());
        let arg = a.get(1).map_or("", |x| x.str());
        let mut need = [0; 3];
        let (writer, text) = match tag {
            "v" | "vt" | "vn" => {
                let k = ["v", "vt", "vn"].iter().position(|x| *x == tag).unwrap();
                n[k] += 1;
                (k, format!("{} {}", tag, arg))
            }
            "g" | "s" | "usemtl" => (match tag { "g" => 4, "s" => 5, _ => 6 }, format!("{} {}", tag, arg)),
            "#" => (7, format!("#{}", arg)),
            "bulk" => {
                for i in 0..a.get(1).map_or(0, |x| x.us()).min(70_000) { n[0] += 1; out.push(St { writer: 0, text: format!("v {} 0 1", i), need, bad: false }); }
                continue;
            }
            "p" | "l" | "f" => {
                let form = if tag == "p" { 0 } else { a.get(1).map_or(0, |x| x.us()) % 4 };
                let at_least = match tag { "p" => 1, "l" => 2, _ => 3 };
                if n[0] == 0 || (form & 1 != 0 && n[1] == 0) || (form & 2 != 0 && n[2] == 0) || a.len() < 2 + at_least { continue; }
                let mut t = tag.to_string();
                for c in &a[2..] {
                    let c = c.arr();
                    let mut ix = |k: usize| {
                        let j = c.get(k).map_or(0, |x| x.us()) % n[k] + 1;
                        need[k] = need[k].max(j);
                        (base[k] + j).to_string()
                    };
                    t.push(' ');
                    t.push_str(&ix(0));
                    match form { 1 => { t.push('/'); t.push_str(&ix(1)) } 2 => { t.push_str("//"); t.push_str(&ix(2)) } 3 => { t.push('/'); t.push_str(&ix(1)); t.push('/'); t.push_str(&ix(2)) } _ => {} }
                }
                (ELEM, t)
            }
            _ => continue,
        };
        out.push(St { writer, text, need, bad: false });
    }
    for k in 0..3 { base[k] += n[k]; }
    out
}

/// The statements of one material.
fn material(o: &V) -> Vec<St> {
    o.get("st").arr().iter().filter_map(|l| {
        let a = l.arr();
        let tag = a.first().map_or("", |x| x.str());
        let arg = a.get(1).map_or("", |x| x.str());
        let writer = match tag { "Ka" => 0, "Kd" => 1, "Ks" => 2, "Ke" => 3, "d" => 4, "illum" => 5, "Ns" => 6, "#" => 7, "Ni" => 8, "map_Bump" => 17, _ => 9 + MAPS.iter().position(|m| *m == tag)? };
        Some(St { writer, text: if tag == "#" { format!("#{}", arg) } else { format!("{} {}", tag, arg) }, need: [0; 3], bad: false })
    }).collect()
}

/// The order in which the statements of one block reach the file.
fn interleave(st: &[St], kind: char, sched: &[V], at: &mut usize, c: &mut Ctx) -> Vec<usize> {
    const W: usize = 19;
    let mut queue: Vec<Vec<usize>> = vec![vec![]; W];
    for (i, s) in st.iter().enumerate().rev() { queue[s.writer.min(W - 1)].push(i); }
    let mut have = [0usize; 3];
    let mut out = vec![];
    let ready = |w: usize, queue: &Vec<Vec<usize>>, have: &[usize; 3]| -> bool {
        let i = match queue[w].last() { Some(&i) => i, None => return false };
        if kind != 'o' { return true; }
        match w {
            ELEM => (0..3).all(|k| st[i].need[k] <= have[k]) && (4..7).all(|x| queue[x].last().is_none_or(|&j| j > i)),
            4..=6 => queue[ELEM].last().is_none_or(|&j| j > i),
            _ => true,
        }
    };
    let mut stalled = false;
    while out.len() < st.len() && *at < sched.len() {
        let e = sched[*at].arr();
        *at += 1;
        let (w, n) = (e.first().map_or(0, |x| x.us()) % W, e.get(1).map_or(0, |x| x.us()));
        // an entry for a writer that has nothing left goes to the next one that has
        let w = match (0..W).map(|d| (w + d) % W).find(|&w| !queue[w].is_empty()) { Some(w) => w, None => break };
        for _ in 0..n {
            if !ready(w, &queue, &have) { break; }
            let i = queue[w].pop().unwrap();
            if kind == 'o' && w < 3 { have[w] += 1; }
            if out.last().is_some_and(|&l: &usize| l > i) { c.fault("flush_out_of_order"); }
            out.push(i);
        }
        if n >= 1000 { stalled = true; }
        c.ev("flush", w as u64 * 131 + n as u64, || format!("writer {} flushes {}", w, n));
        c.now += 40;
    }
    if stalled { c.fault("other_writers_stalled"); }
    // what is left comes in the exporter's order
    let mut rest: Vec<usize> = queue.into_iter().flatten().collect();
    rest.sort();
    out.extend(rest);
    out
}

fn load(kind: char, t: &str) -> Out { canon::load(kind, t, hang_limit(t.len())).0 }

pub fn exec(s: &V, c: &mut Ctx) {
    let kind = s.get("kind").str().chars().next().unwrap_or('o');
    let eol = ["\n", "\r\n", "\r"][s.get("eol").us() % 3];
    // blocks: an object or a material each; the first line of a block stays in front
    let mut base = [0; 3];
    let mut blocks: Vec<(String, Vec<St>)> = vec![];
    for (i, o) in s.get("blocks").arr().iter().enumerate() {
        let name = match o.get("name").str() { "" => "x", n => n };
        if kind == 'o' {
            let head = if i == 0 && s.get("unnamed").int() != 0 { String::new() } else { format!("o {}{}", name, eol) };
            blocks.push((head, object(o, &mut base)));
        } else {
            blocks.push((format!("newmtl {}{}", name, eol), material(o)));
        }
    }
    let write = |order: &[Vec<usize>], blocks: &[(String, Vec<St>)], cut: usize, bad: &mut Option<usize>| -> String {
        let mut t = String::new();
        let (mut lines, mut n) = (0, 0);
        for (b, (head, st)) in blocks.iter().enumerate() {
            if n >= cut && n > 0 { break; }
            t.push_str(head);
            lines += !head.is_empty() as usize;
            for &i in &order[b] {
                if n >= cut { break; }
                n += 1;
                lines += 1;
                if st[i].bad { *bad = Some(lines); }
                t.push_str(&st[i].text);
                t.push_str(eol);
            }
        }
        t
    };
    let plain = |blocks: &[(String, Vec<St>)]| -> Vec<Vec<usize>> { blocks.iter().map(|b| (0..b.1.len()).collect()).collect() };
    let total = |b: &[(String, Vec<St>)]| b.iter().map(|b| b.1.len()).sum::<usize>();
    let want = load(kind, &write(&plain(&blocks), &blocks, usize::MAX, &mut None));
    match want { Out::Ok(_) => {} Out::Stop(_) => { c.count("skipped_load_crashes", 1); return; } _ => { c.count("skipped_not_sound", 1); return; } }
    // one defect, in whichever place the scheduler lets it have
    let bad = s.get("bad").arr();
    let mut bad_kind = None;
    if let (Some(which), false) = (bad.first(), blocks.is_empty()) {
        let list: &[&str] = if kind == 'o' { &BAD_OBJ } else { &BAD_MTL };
        let b = bad.get(1).map_or(0, |x| x.us()) % blocks.len();
        let text = list[which.us() % list.len()].to_string();
        let at = bad.get(2).map_or(0, |x| x.us()) % (blocks[b].1.len() + 1);
        blocks[b].1.insert(at, St { writer: 18, text, need: [0; 3], bad: true });
        match load(kind, &write(&plain(&blocks), &blocks, usize::MAX, &mut None)) {
            Out::Err { kind, .. } => bad_kind = Some(kind),
            Out::Stop(_) => { c.count("skipped_load_crashes", 1); return; }
            Out::Ok(_) => { c.count("skipped_defect_accepted", 1); return; }
        }
    }
    for sched in s.get("scheds").arr() {
        let mut at = 0;
        let mut order: Vec<Vec<usize>> = vec![];
        for b in &blocks { order.push(interleave(&b.1, kind, sched.get("by").arr(), &mut at, c)); }
        let n = total(&blocks);
        let mut cuts = vec![];
        if !sched.get("crash").is_null() && n > 0 { cuts.push(sched.get("crash").us() % n); c.fault("crash"); }
        cuts.push(usize::MAX);
        for cut in cuts {
            // what is in the file, and the same statements in the exporter's order
            let mut bad_line = None;
            let text = write(&order, &blocks, cut, &mut bad_line);
            let want = if bad_line.is_some() { None } else if cut == usize::MAX { Some(&want).cloned() } else {
                let mut left = cut;
                let kept: Vec<Vec<usize>> = order.iter().map(|o| { let k = left.min(o.len()); left -= k; let mut x = o[..k].to_vec(); x.sort(); x }).collect();
                Some(load(kind, &write(&kept, &blocks, cut, &mut None)))
            };
            if matches!(want, Some(Out::Stop(_))) { c.count("skipped_load_crashes", 1); return; }
            c.evals += 1;
            let got = load(kind, &text);
            c.count("loaded_bytes", text.len() as u64);
            c.count(if got.is_ok() { "outcome.ok" } else { "outcome.error" }, 1);
            c.ev("load", fnv(text.len() as u64, got.brief().as_bytes()), || got.brief());
            c.distinct(fnv(kind as u64, text.as_bytes()));
            let ok = match (&got, &want, bad_line) {
                (Out::Err { line, kind, .. }, None, Some(l)) => *line == l && Some(kind) == bad_kind.as_ref(),
                (a, Some(b), _) => a == b,
                _ => false,
            };
            if !ok {
                let w = match (&want, bad_line) { (Some(w), _) => w.brief(), (_, Some(l)) => format!("Err({} at line {})", bad_kind.clone().unwrap_or_default(), l), _ => String::new() };
                let diff = match (&got, &want) {
                    (Out::Ok(a), Some(Out::Ok(b))) => format!("; got {}, not {}", show(&format!("{:?}", a)), show(&format!("{:?}", b))),
                    _ => String::new(),
                };
                c.fail("order-matters", format!("{} text {}{} gives {}, the same statements in their exporter's order give {}{}", kname(kind), show(&text), if cut == usize::MAX { "" } else { " (as the crash left it)" }, got.brief(), w, diff));
                return;
            }
        }
    }
}

fn gen_block(r: &mut Rng, kind: char) -> V {
    let (fs, ns) = (r.below(5), r.below(6));
    let float = |r: &mut Rng| gen::float(r, fs);
    let name = |r: &mut Rng| { let n = gen::name(r, ns); if n.is_empty() { "n".to_string() } else { n } };
    let two = |a: &str, b: String| V::Arr(vec![a.into(), b.into()]);
    let size = *r.pick(&[2, 6, 12, 30]);
    let mut st: Vec<V> = vec![];
    if kind == 'o' {
        let w: Vec<usize> = (0..8).map(|_| r.below(5)).collect();
        let w = [w[0] + 2, w[1], w[2], w[3], w[4], w[5], w[6] + 2, w[7] / 3];
        for _ in 0..r.range(0, size + 1) {
            st.push(match r.weighted(&w) {
                0 => { let mut x = format!("{} {} {}", float(r), float(r), float(r)); if r.chance(1, 3) { x += " "; x += &float(r); } two("v", x) }
                1 => { let k = r.range(1, 4).min(3); let x: Vec<String> = (0..k).map(|_| float(r)).collect(); two("vt", x.join(" ")) }
                2 => two("vn", format!("{} {} {}", float(r), float(r), float(r))),
                3 => { let k = *r.pick(&[0, 1, 1, 2, 3]); let x: Vec<String> = (0..k).map(|_| name(r)).collect(); two("g", x.join(" ")) }
                4 => two("s", if r.chance(1, 3) { "off".into() } else { r.below(40).to_string() }),
                5 => two("usemtl", name(r)),
                7 => two("#", " note".into()),
                _ => {
                    let tag = *r.pick(&["p", "l", "f", "f"]);
                    let k = match tag { "p" => r.range(1, 4), "l" => r.range(2, 5), _ => r.range(3, 7) };
                    let mut a: Vec<V> = vec![tag.into(), r.below(4).into()];
                    for _ in 0..k { a.push(V::Arr((0..3).map(|_| r.below(1000).into()).collect())); }
                    V::Arr(a)
                }
            });
        }
        if r.chance(1, 100) {
            let n = gen::dict_int(r, 70_000).unwrap_or(*r.pick(&[200, 300, 4100, 66_000]));
            let at = r.below(st.len() + 1);
            st.insert(at, V::Arr(vec!["bulk".into(), n.into()]));
        }
    } else {
        for _ in 0..r.range(0, size + 1) {
            st.push(match r.below(12) {
                0..=3 => two(r.pick(&["Ka", "Kd", "Ks", "Ke"]), format!("{} {} {}", float(r), float(r), float(r))),
                4 | 5 => two(r.pick(&["d", "Ns", "Ni"]), float(r)),
                6 => two("illum", r.below(11).to_string()),
                7 => two("#", " note".into()),
                _ => { let f = name(r); let m = if r.chance(1, 10) { "map_Bump" } else { *r.pick(&MAPS) }; two(m, f) }
            });
        }
    }
    gen::repeat(r, &mut st);
    obj! { "name": name(r), "st": V::Arr(st) }
}

pub fn generate(r: &mut Rng) -> V {
    let kind = if r.chance(2, 3) { 'o' } else { 'm' };
    let nb = *r.pick(&[1, 1, 1, 2, 3, 5]);
    let blocks: Vec<V> = (0..nb).map(|_| gen_block(r, kind)).collect();
    let scheds: Vec<V> = (0..r.range(1, 4)).map(|_| {
        let run = *r.pick(&[1, 1, 2, 5, 1000]);
        let by: Vec<V> = (0..r.range(1, 60)).map(|_| V::Arr(vec![r.below(if kind == 'o' { 8 } else { 19 }).into(), (if run == 1000 { 1000 } else { r.range(1, run + 1) }).into()])).collect();
        let crash = if r.chance(1, 2) { r.below(1000).into() } else { V::Null };
        obj! { "by": V::Arr(by), "crash": crash }
    }).collect();
    let bad = if r.chance(1, 8) { V::Arr(vec![r.below(100).into(), r.below(100).into(), r.below(100).into()]) } else { V::Arr(vec![]) };
    obj! { "kind": kind.to_string(), "eol": *r.pick(&[0usize, 0, 0, 1, 2]), "unnamed": r.below(2), "blocks": V::Arr(blocks), "scheds": V::Arr(scheds), "bad": bad }
}
