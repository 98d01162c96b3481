//! World "parts" (C17): several exporters append finished parts to one shared file,
//! crashes lose the unsynced ones, exporters that are not sure write theirs again.
//! World "salvage" (C18): a repair tool comments out what a rejected file is blamed on,
//! until it loads; crashes undo single repairs.
use crate::canon::{self, Out};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::model::{Canon, CSet};
use crate::obj;
use crate::pipe::{hang_limit, kname, line_fault, split_lines};
use crate::rng::{fnv, Rng};

fn load(kind: char, t: &str) -> Out { canon::load(kind, t, hang_limit(t.len())).0 }

/// Line endings in a text.
fn endings(t: &str) -> usize {
    let b = t.as_bytes();
    (0..b.len()).filter(|&i| b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n'))).count()
}

/// Items in front of an object.
type Base = [usize; 3];

/// The text of a part behind `base` items, and how many items it adds.
fn render(p: &V, base: Base) -> (String, Base) {
    let eol = ["\n", "\r\n", "\r"][p.get("eol").us() % 3];
    let mut t = String::from("o ");
    t.push_str(p.get("name").str());
    if t.len() == 2 { t.push('x'); }
    t.push_str(eol);
    let mut front = base;
    let mut n: Base = [0; 3];
    for l in p.get("lines").arr() {
        let a = l.arr();
        let tag = a.first().map_or("", |x| x.str());
        let arg = a.get(1).map_or("", |x| x.str());
        match tag {
            "v" | "vt" | "vn" | "g" | "s" | "usemtl" | "bad" => {
                if let Some(k) = ["v", "vt", "vn"].iter().position(|x| *x == tag) { n[k] += 1; }
                if tag != "bad" { t.push_str(tag); t.push(' '); }
                t.push_str(arg);
            }
            "#" => { t.push('#'); t.push_str(arg); }
            "o" => {
                for k in 0..3 { front[k] += n[k]; }
                n = [0; 3];
                t.push_str("o ");
                t.push_str(if arg.is_empty() { "x" } else { arg });
            }
            "bulk" => {
                for i in 0..a.get(1).map_or(0, |x| x.us()).min(80_000) { t.push_str(&format!("v {} 0 1{}", i, eol)); n[0] += 1; }
                continue;
            }
            "p" | "l" | "f" => {
                // [tag, form, relative, [v, t, n]...]
                let form = a.get(1).map_or(0, |x| x.us()) % 4;
                let rel = a.get(2).map_or(0, |x| x.us());
                let have = n[0] > 0 && (form & 1 == 0 || n[1] > 0) && (form & 2 == 0 || n[2] > 0);
                let at_least = match tag { "p" => 1, "l" => 2, _ => 3 };
                if !have || a.len() < 3 + at_least { continue; }
                t.push_str(tag);
                for (i, c) in a[3..].iter().enumerate() {
                    let c = c.arr();
                    let ix = |k: usize| {
                        let j = c.get(k).map_or(0, |x| x.us()) % n[k].max(1);
                        if rel == 1 || (rel == 2 && (i + k) % 2 == 0) { format!("-{}", n[k] - j) } else { format!("{}", front[k] + j + 1) }
                    };
                    t.push(' ');
                    t.push_str(&ix(0));
                    if tag == "p" { continue; }
                    match form { 1 => { t.push('/'); t.push_str(&ix(1)) } 2 => { t.push_str("//"); t.push_str(&ix(2)) } 3 => { t.push('/'); t.push_str(&ix(1)); t.push('/'); t.push_str(&ix(2)) } _ => {} }
                }
            }
            _ => continue,
        }
        t.push_str(eol);
    }
    for k in 0..3 { front[k] += n[k]; }
    (t, [front[0] - base[0], front[1] - base[1], front[2] - base[2]])
}

pub fn exec(s: &V, c: &mut Ctx) {
    if c.prop == "C18" { return salvage(s, c); }
    let kind = s.get("kind").str().chars().next().unwrap_or('o');
    let head = if kind == 'o' { s.get("head").str() } else { "" };
    let parts = s.get("parts").arr();
    if parts.is_empty() { return; }
    // what each part is on its own
    let text = |i: usize, base: Base| {
        if kind == 'o' { return render(&parts[i], base); }
        // a part starts with a material of its own
        let t = parts[i].str();
        (if t.starts_with("newmtl ") { format!("#{}\n{}\n", i, t) } else { format!("newmtl p{}\n{}\n", i, t) }, [0; 3])
    };
    let alone: Vec<Out> = (0..parts.len()).map(|i| load(kind, &text(i, [0; 3]).0)).collect();
    let libs = load(kind, head);
    if alone.iter().chain([&libs]).any(|o| matches!(o, Out::Stop(_))) || !libs.is_ok() { c.count("skipped_part_crashes", 1); return; }
    // what is in the file: parts in order; the first `synced` of them are durable
    let mut file: Vec<usize> = vec![];
    let mut synced = 0;
    for (k, e) in s.get("ev").arr().iter().enumerate() {
        let a = e.arr();
        let g = |i: usize| a.get(i).map_or(0, |x| x.us());
        let op = a.first().map_or("", |x| x.str());
        c.now += 1000 * (1 + g(2) as u64);
        c.ev(op, fnv(g(1) as u64, op.as_bytes()), || format!("{}", g(1)));
        match op {
            "append" => file.push(g(1) % parts.len()),
            "again" => if let Some(&l) = file.last() { file.push(l); c.fault("part_written_twice"); },
            "sync" => synced = file.len(),
            "crash" => {
                // the tail that was not synced is lost from some part on
                let keep = synced + g(1) % (file.len() - synced + 1);
                if keep < file.len() { c.fault("parts_lost"); }
                file.truncate(keep);
                synced = keep;
                c.fault("crash");
            }
            "swap" => if file.len() > 1 { let (i, j) = (g(1) % file.len(), g(1) / 7 % file.len()); file.swap(i, j); c.fault("parts_reordered"); },
            _ => {}
        }
        if op != "load" && k + 1 < s.get("ev").arr().len() { continue; }
        let mut t = head.to_string();
        let mut base = [0; 3];
        let mut want: Option<Out> = None;
        let mut sum = match &libs { Out::Ok(x) => x.clone(), _ => return };
        for &i in &file {
            let (x, n) = text(i, base);
            if want.is_none() {
                match (&alone[i], &mut sum) {
                    (Out::Ok(Canon::Obj(a)), Canon::Obj(CSet { objs, .. })) => objs.extend(a.objs.iter().cloned()),
                    (Out::Ok(Canon::Mtl(a)), Canon::Mtl(m)) => m.extend(a.iter().cloned()),
                    (Out::Err { line, kind, .. }, _) => want = Some(Out::Err { line: endings(&t) + line, kind: kind.clone(), disp: String::new() }),
                    _ => return,
                }
            }
            t.push_str(&x);
            for k in 0..3 { base[k] += n[k]; }
        }
        let want = want.unwrap_or(Out::Ok(sum));
        c.evals += 1;
        let got = load(kind, &t);
        c.count("loaded_bytes", t.len() as u64);
        c.count(if got.is_ok() { "outcome.ok" } else { "outcome.error" }, 1);
        c.ev("load", fnv(t.len() as u64, got.brief().as_bytes()), || got.brief());
        if file.len() > 1 { c.distinct(fnv(kind as u64, t.as_bytes())); }
        let same = match (&got, &want) {
            (Out::Err { line: a, kind: x, .. }, Out::Err { line: b, kind: y, .. }) => a == b && x == y,
            (a, b) => a == b,
        };
        if !same {
            let why = match (&got, &want) {
                (Out::Ok(Canon::Obj(a)), Out::Ok(Canon::Obj(b))) if a.libs != b.libs => format!("; libraries {:?} instead of {:?}", a.libs, b.libs),
                (Out::Ok(Canon::Obj(a)), Out::Ok(Canon::Obj(b))) => match (0..a.objs.len().max(b.objs.len())).find(|&i| a.objs.get(i) != b.objs.get(i)) {
                    Some(i) => format!("; object {}: {} instead of {}", i, show(&format!("{:?}", a.objs.get(i))), show(&format!("{:?}", b.objs.get(i)))), None => String::new() },
                (Out::Ok(Canon::Mtl(a)), Out::Ok(Canon::Mtl(b))) => match (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)) {
                    Some(i) => format!("; material {}: {:?} instead of {:?}", i, a.get(i), b.get(i)), None => String::new() },
                _ => String::new(),
            };
            c.fail("not-the-sum", format!("{} file of the parts {:?}, {}: gives {}, its parts one by one give {}{}", kname(kind), file, show(&t), got.brief(), want.brief(), why));
            return;
        }
    }
}

// ------------------------------------------------------------------ C18

pub fn damage(b: &mut Vec<u8>, e: &[V], c: &mut Ctx) {
    let g = |i: usize| e.get(i).map_or(0, |x| x.us());
    let op = e.first().map_or("", |x| x.str()).to_string();
    if b.is_empty() { return; }
    let at = g(1) % b.len();
    c.fault(match op.as_str() {
        "flip" => { b[at] ^= 1 << (g(2) % 7); "bit_flip" }
        "put" => { b[at] = g(2) as u8; "byte_damage" }
        "ins" => { b.insert(at, g(2) as u8); "byte_inserted" }
        "del" => { let n = (at + 1 + g(2) % 12).min(b.len()); b.drain(at..n); "bytes_lost" }
        "zero" => { for x in b.iter_mut().skip(at).take(1 + g(2) % 8) { *x = 0; } "zeroed_block" }
        "cut" => { b.truncate(at); "early_end" }
        "ldrop" => { line_fault(b, &op, g(1), g(2)); "record_lost" }
        "ldup" => { line_fault(b, &op, g(1), g(2)); "record_duplicated" }
        "lswap" | "lmove" => { line_fault(b, &op, g(1), g(2)); "record_reordered" }
        "ljoin" => { line_fault(b, &op, g(1), g(2)); "line_end_lost" }
        "lsplit" => { line_fault(b, &op, g(1), g(2)); "line_end_inserted" }
        _ => return,
    });
}

fn salvage(s: &V, c: &mut Ctx) {
    let d = match s.get("docs").arr().first() { Some(d) => d.arr(), None => return };
    let kind = d.first().map_or('o', |k| k.str().chars().next().unwrap_or('o'));
    let mut b = d.get(1).map_or("", |x| x.str()).as_bytes().to_vec();
    for e in s.get("dmg").arr() { damage(&mut b, e.arr(), c); }
    let mut text = String::from_utf8_lossy(&b).into_owned();
    let how = s.get("how").arr();
    let (mut last, mut repairs) = (0, 0);
    c.distinct(fnv(kind as u64, text.as_bytes()));
    loop {
        let out = load(kind, &text);
        c.evals += 1;
        c.now += 1_000_000;
        c.ev("load", fnv(text.len() as u64, out.brief().as_bytes()), || out.brief());
        let line = match &out {
            Out::Ok(_) => { c.count("outcome.ok", 1); break; }
            Out::Stop(_) => { c.count("skipped_load_crashes", 1); return; }
            Out::Err { line, kind, .. } => { c.count("outcome.error", 1); c.count(&format!("error.{}", kind), 1); *line }
        };
        let lines = split_lines(text.as_bytes());
        if line == 0 || line > lines.len() {
            c.fail("no-such-line", format!("{} text {} of {} lines is rejected at line {}", kname(kind), show(&text), lines.len(), line));
            return;
        }
        if line <= last {
            c.fail("no-progress", format!("{} text {}: line {} was taken out, the next load is rejected at line {} ({})", kname(kind), show(&text), last, line, out.brief()));
            return;
        }
        let part = String::from_utf8_lossy(&lines[..line - 1].concat()).into_owned();
        let cut = load(kind, &part);
        if !cut.is_ok() {
            if matches!(cut, Out::Stop(_)) { c.count("skipped_load_crashes", 1); return; }
            c.fail("front-not-loadable", format!("{} text {} is rejected at line {}, but the lines before it give {}", kname(kind), show(&text), line, cut.brief()));
            return;
        }
        let h = how.get(repairs % how.len().max(1)).map_or(0, |x| x.us());
        repairs += 1;
        if h & 4 != 0 && repairs < 400 {
            // the machine crashed before the repair was durable: the tool starts over
            c.fault("repair_lost_in_crash");
            let again = load(kind, &text);
            if again != out {
                c.fail("blame-moves", format!("{} text {} is rejected with {} first, then {}", kname(kind), show(&text), out.brief(), again.brief()));
                return;
            }
        }
        // the repair, in the spelling this run asks for and in another one
        let spell = |how: usize| {
            let l = &lines[line - 1];
            let end = l.len() - l.iter().rev().take_while(|x| matches!(x, b'\n' | b'\r')).count();
            let mut x = [&b"#"[..], b" ", b"# removed", b"\t#"][how % 4].to_vec();
            x.extend_from_slice(if how % 4 == 0 { &l[..] } else { &l[end..] });
            let mut b = lines[..line - 1].concat();
            b.extend_from_slice(&x);
            b.extend_from_slice(&lines[line..].concat());
            String::from_utf8_lossy(&b).into_owned()
        };
        if h & 8 != 0 {
            let (x, y) = (spell(h), spell(h + 1 + h / 16 % 3));
            let (a, b) = (load(kind, &x), load(kind, &y));
            if matches!(a, Out::Stop(_)) || matches!(b, Out::Stop(_)) { c.count("skipped_load_crashes", 1); return; }
            if a != b {
                c.fail("repairs-differ", format!("{} line {} taken out as {} gives {}, as {} gives {}", kname(kind), line, show(&x), a.brief(), show(&y), b.brief()));
                return;
            }
        }
        text = spell(h);
        last = line;
    }
    c.count("repairs", repairs as u64);
    if repairs > 0 { c.count("salvaged", 1); }
}

// ------------------------------------------------------------------ generation

fn gen_part(r: &mut Rng, bad: bool) -> V {
    let (fs, ns) = (r.below(5), r.below(6));
    let float = |r: &mut Rng| gen::float(r, fs);
    let name = |r: &mut Rng| { let n = gen::name(r, ns); if n.is_empty() { "n".to_string() } else { n } };
    let n = *r.pick(&[1, 4, 10, 25]);
    let w: Vec<usize> = (0..9).map(|_| r.below(5)).collect();
    let w = [w[0] + 2, w[1], w[2], w[3] / 2, w[4] / 2, w[5] / 2, w[6] + 1, w[7] / 3, w[8] / 4];
    let mut lines: Vec<V> = vec![];
    let rel = r.below(3);
    for _ in 0..r.range(0, n + 1) {
        let two = |a: &str, b: String| V::Arr(vec![a.into(), b.into()]);
        lines.push(match r.weighted(&w) {
            0 => { let mut x = format!("{} {} {}", float(r), float(r), float(r)); if r.chance(1, 3) { x += " "; x += &float(r); } two("v", x) }
            1 => { let k = r.range(1, 4).min(3); let x: Vec<String> = (0..k).map(|_| float(r)).collect(); two("vt", x.join(" ")) }
            2 => two("vn", format!("{} {} {}", float(r), float(r), float(r))),
            3 => { let k = r.below(4); let x: Vec<String> = (0..k).map(|_| name(r)).collect(); two("g", x.join(" ")) }
            4 => two("s", if r.chance(1, 3) { "off".into() } else { r.below(40).to_string() }),
            5 => two("usemtl", name(r)),
            7 => two("o", name(r)),
            8 => two("#", " comment".into()),
            _ => {
                let tag = *r.pick(&["p", "l", "f", "f", "f"]);
                let k = match tag { "p" => r.range(1, 4), "l" => r.range(2, 5), _ => r.range(3, 7) };
                let mut a: Vec<V> = vec![tag.into(), if tag == "p" { 0usize.into() } else { r.below(4).into() }, (if r.chance(1, 4) { r.below(3) } else { rel }).into()];
                for _ in 0..k { a.push(V::Arr((0..3).map(|_| r.below(1000).into()).collect())); }
                V::Arr(a)
            }
        });
    }
    gen::repeat(r, &mut lines);
    if r.chance(1, 60) {
        let n = gen::dict_int(r, 70_000).unwrap_or(*r.pick(&[200, 300, 4100, 4100, 66_000]));
        let at = r.below(lines.len() + 1);
        lines.insert(at, V::Arr(vec!["bulk".into(), n.into()]));
    }
    if bad {
        // nothing here depends on where in the file it stands
        let x = *r.pick(&["q", "v 1 2", "v 1 2 x", "vt", "vn 1 2", "f", "f -1", "f x y z", "s", "s x", "usemtl", "o", "p", "p x", "l -1", "mtllib a.mtl", "f -1/-1/-1/-1 1 1", "f -99999999 1 1", "vp 1 2", "f 0 0 0", "p 0"]);
        let at = r.below(lines.len() + 1);
        lines.insert(at, V::Arr(vec!["bad".into(), x.into()]));
    }
    obj! { "name": name(r), "eol": *r.pick(&[0usize, 0, 0, 1, 2]), "lines": V::Arr(lines) }
}

pub fn generate(prop: &str, r: &mut Rng) -> V {
    if prop == "C18" { return gen_salvage(r); }
    let kind = if r.chance(2, 3) { 'o' } else { 'm' };
    let np = if r.chance(1, 40) { r.range(10, 40) } else { r.range(1, 5) };
    let parts: Vec<V> = (0..np).map(|_| {
        let bad = r.chance(1, 12);
        if kind == 'o' { return gen_part(r, bad); }
        let sz = *r.pick(&[4, 10, 20]);
        let c = gen::cfg(r, sz);
        if bad { gen::doc(r, 'm', &c).into() } else { gen::sound(r, 'm', &c).into() }
    }).collect();
    let mut ev = vec![];
    for _ in 0..r.range(np, 3 * np + 3) {
        let op = *r.pick(&["append", "append", "append", "append", "again", "sync", "crash", "load", "swap"]);
        ev.push(V::Arr(vec![op.into(), r.below(1 << 16).into(), r.below(5000).into()]));
    }
    let head = *r.pick(&["", "", "mtllib a.mtl\n", "mtllib a.mtl b.mtl\r\nmtllib c.mtl\r\n", "# shared\n\n"]);
    obj! { "kind": kind.to_string(), "head": head, "parts": V::Arr(parts), "ev": V::Arr(ev) }
}

fn gen_salvage(r: &mut Rng) -> V {
    let kind = gen::kind(r);
    let sz = *r.pick(&[6, 15, 40, 80]);
    let mut c = gen::cfg(r, sz);
    if r.chance(1, 2) { c.bad = *r.pick(&[0, 20, 80, 250]); }
    let t = gen::doc(r, kind, &c);
    let ops = ["flip", "put", "ins", "del", "zero", "cut", "ldrop", "ldup", "lswap", "lmove", "ljoin", "lsplit"];
    let dmg: Vec<V> = (0..*r.pick(&[0, 1, 1, 2, 4, 10])).map(|_| V::Arr(vec![(*r.pick(&ops)).into(), r.below(1 << 20).into(), if r.chance(1, 2) { (*r.pick(b"\n\r #/\\-10vfo\t.e") as usize).into() } else { r.below(256).into() }])).collect();
    let how: Vec<V> = (0..r.range(1, 5)).map(|_| r.below(64).into()).collect();
    obj! { "docs": V::Arr(vec![V::Arr(vec![V::from(kind.to_string()), t.into()])]), "dmg": V::Arr(dmg), "how": V::Arr(how) }
}
