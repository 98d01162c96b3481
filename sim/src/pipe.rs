//! World "pipe": exporters write texts to a simulated disk, transports and media
//! damage them, the machine crashes, loaders read them back and hand what they got
//! to the real library. Everything is an explicit event list.
use crate::canon::{self, agrees, Out};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::model::{self, CSet, Canon};
use crate::obj;
use crate::rng::{fnv, Rng};
use crate::rt::{Opt, TS};
use wavefront_obj as lib;

// ------------------------------------------------------------------ simulated disk

#[derive(Clone, Debug)]
enum P {
    Write { ino: usize, off: usize, data: Vec<u8> },
    Trunc { ino: usize, len: usize },
    Rename { to: usize, ino: usize },
}

#[derive(Default, Clone)]
struct Ino {
    vol: Vec<u8>,
    dur: Vec<u8>,
}

struct Reader {
    ino: usize,
    file: usize,
    pos: usize,
    buf: Vec<u8>,
    open: bool,
    failed: bool,
}

struct Disk {
    ino: Vec<Ino>,
    dir: Vec<usize>,
    dir_dur: Vec<usize>,
    pend: Vec<P>,
}

fn pwrite(v: &mut Vec<u8>, off: usize, data: &[u8]) {
    if v.len() < off { v.resize(off, 0); }
    let n = data.len().min(v.len() - off);
    v[off..off + n].copy_from_slice(&data[..n]);
    v.extend_from_slice(&data[n..]);
}

impl Disk {
    fn new(n: usize) -> Disk {
        Disk { ino: vec![Ino::default(); n], dir: (0..n).collect(), dir_dur: (0..n).collect(), pend: vec![] }
    }
    fn apply(&mut self, p: &P) {
        match p {
            P::Write { ino, off, data } => pwrite(&mut self.ino[*ino].dur, *off, data),
            P::Trunc { ino, len } => self.ino[*ino].dur.truncate(*len),
            P::Rename { to, ino } => self.dir_dur[*to] = *ino,
        }
    }
    fn sync(&mut self, ino: usize) {
        let pend = std::mem::take(&mut self.pend);
        for p in pend {
            match &p {
                P::Write { ino: i, .. } | P::Trunc { ino: i, .. } if *i == ino => self.apply(&p),
                _ => self.pend.push(p),
            }
        }
    }
    fn dsync(&mut self) {
        let pend = std::mem::take(&mut self.pend);
        for p in pend {
            if matches!(p, P::Rename { .. }) { self.apply(&p) } else { self.pend.push(p) }
        }
    }
    /// Damage both the cached and the stored copy.
    fn both(&mut self, ino: usize, f: impl Fn(&mut Vec<u8>)) {
        f(&mut self.ino[ino].vol);
        f(&mut self.ino[ino].dur);
    }
}

pub fn split_lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut st = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) {
            out.push(b[st..=i].to_vec());
            st = i + 1;
        }
    }
    if st < b.len() { out.push(b[st..].to_vec()); }
    out
}

pub fn line_fault(b: &mut Vec<u8>, op: &str, i: usize, j: usize) {
    let mut l = split_lines(b);
    if l.is_empty() { return; }
    let n = l.len();
    let (i, j) = (i % n, j);
    match op {
        "ldrop" => { l.remove(i); }
        "ldup" => { let x = l[i].clone(); l.insert((i + 1 + j % 3).min(n), x); }
        "lswap" => { l.swap(i, j % n); }
        "lmove" => { let x = l.remove(i); let k = j % (l.len() + 1); l.insert(k, x); }
        "ljoin" => { while matches!(l[i].last(), Some(b'\n' | b'\r')) { l[i].pop(); } if j % 2 == 0 { l[i].push(b' '); } }
        "lsplit" => { let k = j % (l[i].len() + 1); l[i].insert(k, b'\n'); }
        _ => {}
    }
    *b = l.concat();
}

// ------------------------------------------------------------------ execution

pub struct World {
    kinds: Vec<char>,
    docs: Vec<(char, String)>,
    disk: Disk,
    readers: Vec<Reader>,
    faults: u64,
}

pub fn exec(s: &V, c: &mut Ctx) {
    let nf = s.get("files").arr().len().max(1);
    let kinds: Vec<char> = s.get("files").arr().iter().map(|k| k.str().chars().next().unwrap_or('o')).collect();
    let docs = s.get("docs").arr().iter().map(|d| {
        let a = d.arr();
        (a.first().map_or('o', |k| k.str().chars().next().unwrap_or('o')), a.get(1).map_or(String::new(), |t| t.str().to_string()))
    }).collect();
    let mut w = World {
        kinds: if kinds.is_empty() { vec!['o'] } else { kinds }, docs, disk: Disk::new(nf), readers: vec![], faults: 0,
    };
    for _ in 0..8 {
        w.readers.push(Reader { ino: 0, file: 0, pos: 0, buf: vec![], open: false, failed: false });
    }
    for e in s.get("ev").arr() {
        step(&mut w, e.arr(), c);
        if c.failed() { return; }
    }
}

fn step(w: &mut World, e: &[V], c: &mut Ctx) {
    let null = V::Null;
    let g = |i: usize| e.get(i).unwrap_or(&null);
    c.now += g(0).us() as u64;
    let nf = w.disk.dir.len();
    let op = g(1).str().to_string();
    let f = g(2).us() % nf;
    let ino = w.disk.dir[f];
    let r = g(2).us() % w.readers.len();
    c.ev(&op, fnv(g(2).int() as u64, format!("{:?}", &e[2.min(e.len())..]).as_bytes()), || V::Arr(e.to_vec()).dump());
    let len = w.disk.ino[ino].vol.len();
    let at = |x: usize| if len == 0 { 0 } else { x % len };
    match op.as_str() {
        "w" => {
            let data = g(4).str().as_bytes().to_vec();
            let off = if g(3).int() < 0 { len } else { g(3).us() };
            if off > 64 << 20 { return; }
            pwrite(&mut w.disk.ino[ino].vol, off, &data);
            w.disk.pend.push(P::Write { ino, off, data });
        }
        "tr" => {
            w.disk.ino[ino].vol.truncate(g(3).us());
            w.disk.pend.push(P::Trunc { ino, len: g(3).us() });
        }
        "sync" => w.disk.sync(ino),
        "dsync" => w.disk.dsync(),
        "mv" => {
            let to = g(3).us() % nf;
            w.disk.dir.swap(to, f);
            let (a, b) = (w.disk.dir[to], w.disk.dir[f]);
            w.disk.pend.push(P::Rename { to, ino: a });
            w.disk.pend.push(P::Rename { to: f, ino: b });
        }
        "crash" => {
            let fates = g(2).arr();
            let pend = std::mem::take(&mut w.disk.pend);
            let mut renames = vec![];
            for (i, p) in pend.iter().enumerate() {
                let fate = fates.get(i).map_or(-2, |x| x.int());
                match (fate, p) {
                    // renames come in pairs and are atomic
                    (_, P::Rename { .. }) => renames.push(p.clone()),
                    (-1, p) => w.disk.apply(p),
                    (-2, _) => { c.fault("lost_write"); w.faults += 1; }
                    (k, P::Write { ino, off, data }) => {
                        let k = k as usize % (data.len() + 1);
                        if k < data.len() { c.fault("torn_write"); w.faults += 1; }
                        w.disk.apply(&P::Write { ino: *ino, off: *off, data: data[..k].to_vec() });
                    }
                    (_, p) => w.disk.apply(p),
                }
            }
            if g(3).int() == 0 { for p in &renames { w.disk.apply(p); } } else if !renames.is_empty() { c.fault("lost_rename"); }
            w.disk.dir = w.disk.dir_dur.clone();
            for i in &mut w.disk.ino { i.vol = i.dur.clone(); }
            for r in &mut w.readers { r.open = false; r.buf.clear(); }
            c.fault("crash");
            w.faults += 1;
        }
        "flip" => {
            let (p, b) = (at(g(3).us()), g(4).us() % 8);
            w.disk.both(ino, |v| if let Some(x) = v.get_mut(p) { *x ^= 1 << b });
            c.fault("bit_flip");
            w.faults += 1;
        }
        "put" => {
            let (p, b) = (at(g(3).us()), g(4).us() as u8);
            w.disk.both(ino, |v| if let Some(x) = v.get_mut(p) { *x = b });
            c.fault("byte_damage");
            w.faults += 1;
        }
        "ins" => {
            let (p, b) = (at(g(3).us()), g(4).us() as u8);
            w.disk.both(ino, |v| if p <= v.len() { v.insert(p, b) });
            c.fault("byte_inserted");
            w.faults += 1;
        }
        "swell" => {
            // a stuck transport repeats one byte, the one at that place or another
            let (p, n) = (at(g(3).us()), g(5).us().min(200_000));
            let b = g(4).int();
            w.disk.both(ino, |v| if p < v.len() { let b = if b < 0 { v[p] } else { b as u8 }; v.splice(p..p, std::iter::repeat_n(b, n)); });
            c.fault("stuck_byte_run");
            w.faults += 1;
        }
        "wrap" => {
            // marks that editors and media leave around a file
            let n = g(4).us().min(10_000);
            let x = [&b"\xef\xbb\xbf"[..], b"\x1a", b"\0", b"\xff\xfe", b"\x0c", b"\r", b" ", b"\xe2\x80\xa8", b"\x04", b"\xc2\xa0", b"\x0b", b"\xc2\x85"][g(5).us() % 12].repeat(n);
            let p = match g(3).us() % 4 { 0 | 1 => 0, 2 => usize::MAX, _ => at(g(3).us() / 4) };
            w.disk.both(ino, |v| { let p = p.min(v.len()); v.splice(p..p, x.iter().copied()); });
            c.fault("foreign_mark");
            w.faults += 1;
        }
        "del" => {
            let (p, n) = (at(g(3).us()), g(4).us());
            w.disk.both(ino, |v| if p < v.len() { let e = (p + n).min(v.len()); v.drain(p..e); });
            c.fault("bytes_lost");
            w.faults += 1;
        }
        "zero" => {
            let (p, n) = (at(g(3).us()), g(4).us());
            w.disk.both(ino, |v| { let l = v.len(); let p = p.min(l); for x in &mut v[p..(p + n).min(l)] { *x = 0; } });
            c.fault("zeroed_block");
            w.faults += 1;
        }
        "blk" => {
            // one stale or misdirected block
            let (a, b, n) = (at(g(3).us()), at(g(4).us()), g(5).us());
            w.disk.both(ino, |v| { let l = v.len(); let (a, b) = (a.min(l), b.min(l)); let n = n.min(l - a.max(b)); v.copy_within(a..a + n, b); });
            c.fault("misdirected_block");
            w.faults += 1;
        }
        "cut" => {
            let n = if len == 0 { 0 } else { g(3).us() % (len + 1) };
            w.disk.both(ino, |v| v.truncate(n));
            c.fault("early_end");
            w.faults += 1;
        }
        "ldrop" | "ldup" | "lswap" | "lmove" | "ljoin" | "lsplit" => {
            let (i, j) = (g(3).us(), g(4).us());
            w.disk.both(ino, |v| line_fault(v, &op, i, j));
            c.fault(match op.as_str() {
                "ldrop" => "record_lost", "ldup" => "record_duplicated", "lswap" | "lmove" => "record_reordered",
                "ljoin" => "line_end_lost", _ => "line_end_inserted",
            });
            w.faults += 1;
        }
        "resume" => {
            // the exporter continues where the file ends
            let nd = w.docs.len();
            if nd > 0 {
                let d = w.docs[g(3).us() % nd].1.as_bytes().to_vec();
                let cur = &w.disk.ino[ino].vol;
                if d.starts_with(cur) {
                    let rest = d[cur.len()..].to_vec();
                    let off = cur.len();
                    pwrite(&mut w.disk.ino[ino].vol, off, &rest);
                    w.disk.pend.push(P::Write { ino, off, data: rest });
                }
            }
        }
        "open" => {
            let f = g(3).us() % nf;
            w.readers[r] = Reader { ino: w.disk.dir[f], file: f, pos: 0, buf: vec![], open: true, failed: false };
        }
        "rd" => {
            let rd = &mut w.readers[r];
            if !rd.open { return; }
            let src = &w.disk.ino[rd.ino].vol;
            let n = g(3).us();
            let a = rd.pos.min(src.len());
            let b = (a + n).min(src.len());
            rd.buf.extend_from_slice(&src[a..b]);
            rd.pos = b;
            if b - a < n { c.count("short_read", 1); }
        }
        "eintr" => { c.fault("read_interrupted"); }
        "eio" => {
            // the loader keeps what it has and stops reading
            if w.readers[r].open { w.readers[r].failed = true; c.fault("read_error"); w.faults += 1; }
        }
        "all" => {
            let rd = &mut w.readers[r];
            if !rd.open || rd.failed { return; }
            let src = &w.disk.ino[rd.ino].vol;
            let a = rd.pos.min(src.len());
            rd.buf.extend_from_slice(&src[a..]);
            rd.pos = src.len();
        }
        "load" => {
            if !w.readers[r].open { return; }
            let kind = w.kinds[w.readers[r].file % w.kinds.len()];
            let buf = std::mem::take(&mut w.readers[r].buf);
            w.readers[r].open = false;
            let text = match String::from_utf8(buf) {
                Ok(t) => t,
                Err(e) => {
                    if g(3).int() == 0 { c.count("refused_not_utf8", 1); return; }
                    String::from_utf8_lossy(e.as_bytes()).into_owned()
                }
            };
            check_load(w, kind, &text, c, g(4));
        }
        "family" => {
            let (kind, text) = gen::family(g(2).us(), g(3).us().min(400_000));
            let text = damage_family(text, g(4).arr());
            if c.prop == "C01" {
                // on a thread as std makes them, with the stack std gives them
                let seed = TS.with(|t| t.rnd.get());
                std::thread::scope(|s| {
                    let c = &mut *c;
                    let h = s.spawn(|| { TS.with(|t| t.rnd.set(seed)); check_load(w, kind, &text, c, &V::Null) });
                    if let Err(e) = h.join() { std::panic::resume_unwind(e) }
                });
                c.count("loads_on_2_mib_stack", 1);
            } else {
                check_load(w, kind, &text, c, &V::Null);
            }
        }
        "grow" => grow(e, c),
        "transit" => transit(w, e, c),
        _ => {}
    }
}

fn damage_family(text: String, d: &[V]) -> String {
    if d.is_empty() { return text; }
    let mut b = text.into_bytes();
    for x in d {
        let a = x.arr();
        if a.len() < 2 || b.is_empty() { continue; }
        let p = a[0].us() % b.len();
        match a[1].int() {
            -1 => b.truncate(p),
            v => b[p] = v as u8,
        }
    }
    String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
}

pub fn hang_limit(n: usize) -> Opt {
    Opt { limit: 5_000_000 + 3000 * n as u64, ..Opt::default() }
}

fn check_load(w: &World, kind: char, text: &str, c: &mut Ctx, arg: &V) {
    c.evals += 1;
    let (out, m) = canon::load_inside(kind, text, hang_limit(text.len()));
    c.ev("loaded", fnv(text.len() as u64, out.brief().as_bytes()) ^ m.steps, || format!("{} bytes -> {}", text.len(), out.brief()));
    c.count("library_steps", m.steps);
    c.count("loaded_bytes", text.len() as u64);
    c.count(if out.is_ok() { "outcome.ok" } else { "outcome.error" }, 1);
    if let Out::Err { kind, .. } = &out { c.count(&format!("error.{}", kind), 1); }
    if text.len() > 2 && (w.faults > 0 || matches!(c.prop.as_str(), "C12")) {
        c.distinct(fnv(kind as u64, text.as_bytes()));
    }
    match c.prop.clone().as_str() {
        "C01" => {
            if let Out::Stop(s) = &out {
                c.fail("crash", format!("loading {} text {} ended with {:?}", kname(kind), show(text), s));
                return;
            }
            again(kind, text, c);
        }
        "C02" | "C03" => prefix_check(w, kind, text, &out, c, arg),
        "C04" | "C05" => {
            let want = model::run(kind, text);
            if let Err(d) = agrees(&out, &want) {
                c.fail(class_of(&d), format!("{} text {}: {}", kname(kind), show(text), d));
            }
        }
        "C06" => {
            if kind == 'o' { consistency(text, c); }
        }
        "C07" => blame(kind, text, &out, c),
        "C12" => proportional(kind, text, &out, &m, c),
        _ => crate::truth::load(kind, text, &out, c),
    }
}

pub fn kname(k: char) -> &'static str { if k == 'o' { "OBJ" } else { "MTL" } }

fn class_of(d: &str) -> &'static str {
    if d.starts_with("loaded data") { "wrong-data" }
    else if d.starts_with("accepted") { "absorbed" }
    else if d.starts_with("rejected") { "refused-sound" }
    else { "crash" }
}

/// Calling the same parser again after whatever happened.
fn again(kind: char, text: &str, c: &mut Ctx) {
    let n = 4;
    let opt = Opt { limit: 4 * (5_000_000 + 3000 * text.len() as u64), ..Opt::default() };
    let (r, _) = if kind == 'o' {
        crate::rt::call(opt, || { let mut p = lib::obj::Parser::new(text); for _ in 0..n { let _ = p.parse_objset(); } })
    } else {
        crate::rt::call(opt, || { let mut p = lib::mtl::Parser::new(text); for _ in 0..n { let _ = p.parse_mtlset(); } })
    };
    if let Err(s) = r {
        c.fail("crash-again", format!("calling the parser again on {} text {} ended with {:?}", kname(kind), show(text), s));
    }
}

// ------------------------------------------------------------------ C02 / C03

fn prefix_check(w: &World, kind: char, text: &str, out: &Out, c: &mut Ctx, arg: &V) {
    if w.docs.is_empty() { return; }
    let (k, whole) = &w.docs[arg.us() % w.docs.len()];
    if *k != kind || !whole.starts_with(text) { return; }
    let wanted = match model::run(kind, whole) { Ok(x) => x, Err(_) => return };
    let full = match canon::load(kind, whole, hang_limit(whole.len())).0 {
        Out::Ok(x) => x,
        o => {
            c.fail("refused-sound", format!("intact text {} gave {}", show(whole), o.brief()));
            return;
        }
    };
    // where the library reads the whole file otherwise than the model does, only the two
    // loads are compared
    let trusted = full == wanted;
    c.count(if text.len() == whole.len() { "complete_reload" } else { "cut_loads" }, 1);
    // everything up to the last complete line must load, and be the beginning of the whole
    let done = text.rfind(|ch| ch == '\n' || ch == '\r').map_or(0, |i| i + 1);
    let (head, _) = canon::load(kind, &text[..done], hang_limit(done));
    let head = match head {
        Out::Ok(x) => x,
        o => {
            c.fail("cut-refused", format!("{} text cut between lines to {} gave {}", kname(kind), show(&text[..done]), o.brief()));
            return;
        }
    };
    if let Err(d) = begins(&head, &full) {
        c.fail("cut-lost", format!("{} text cut to {} of {}: {}", kname(kind), show(&text[..done]), show(whole), d));
        return;
    }
    if trusted {
        match model::run(kind, &text[..done]) {
            Ok(m) if m == head => {}
            Ok(m) => { c.fail("wrong-data", format!("{} text cut to {}: {}", kname(kind), show(&text[..done]), canon::diff(&head, &m))); return; }
            Err(_) => {}
        }
    }
    // the statement the cut went through: rejected, missing, or what is left of it
    match out {
        Out::Err { .. } => {}
        Out::Stop(s) => c.fail("crash", format!("{} text cut to {}: load ended with {:?}", kname(kind), show(text), s)),
        Out::Ok(x) => {
            if let Err(d) = begins(&head, x) {
                c.fail("cut-lost", format!("{} text cut to {}: the complete lines load differently: {}", kname(kind), show(text), d));
            } else if trusted && *x != head && model::run(kind, text).map_or(true, |m| m != *x) {
                let d = model::run(kind, text).map_or_else(|e| format!("what is left has {} at line {}", e.kinds[0], e.line), |m| canon::diff(x, &m));
                c.fail("invented", format!("{} text cut to {}: {}", kname(kind), show(text), d));
            }
        }
    }
}

fn pre<T: PartialEq>(what: &str, a: &[T], b: &[T]) -> Result<(), String> {
    if b.starts_with(a) { Ok(()) } else { Err(format!("{} of the cut file are not the first {} of the whole", what, a.len())) }
}

/// Is `a` what the whole result `b` looks like up to some statement?
pub fn begins(a: &Canon, b: &Canon) -> Result<(), String> {
    match (a, b) {
        (Canon::Obj(a), Canon::Obj(b)) => {
            pre("library names", &a.libs, &b.libs)?;
            let n = a.objs.len();
            if n == 0 { return Ok(()); }
            if n > b.objs.len() { return Err("the cut file has more objects".into()); }
            pre("objects", &a.objs[..n - 1], &b.objs)?;
            let (x, y) = (&a.objs[n - 1], &b.objs[n - 1]);
            if x.name != y.name { return Err(format!("object name {:?} vs {:?}", x.name, y.name)); }
            pre("vertices", &x.v, &y.v)?;
            pre("texture vertices", &x.vt, &y.vt)?;
            pre("normals", &x.vn, &y.vn)?;
            pre("groups", &x.groups, &y.groups)?;
            pre("smoothing groups", &x.smooth, &y.smooth)?;
            pre("elements", &x.elems, &y.elems)?;
            pre("shapes", &x.shapes, &y.shapes)?;
            let mut gs = &x.geoms[..];
            while let Some((last, rest)) = gs.split_last() {
                if last.1.is_empty() { gs = rest } else { break }
            }
            if let Some((last, rest)) = gs.split_last() {
                pre("material ranges", rest, &y.geoms)?;
                match y.geoms.get(rest.len()) {
                    Some(g) if g.0 == last.0 && g.1.starts_with(&last.1) => {}
                    g => return Err(format!("material range {:?} vs {:?}", last, g)),
                }
            }
            Ok(())
        }
        (Canon::Mtl(a), Canon::Mtl(b)) => {
            let n = a.len();
            if n == 0 { return Ok(()); }
            if n > b.len() { return Err("the cut file has more materials".into()); }
            pre("materials", &a[..n - 1], b)?;
            if a[n - 1].name != b[n - 1].name { return Err(format!("material name {:?} vs {:?}", a[n - 1].name, b[n - 1].name)); }
            Ok(())
        }
        _ => Err("kinds differ".into()),
    }
}

// ------------------------------------------------------------------ C06

fn consistency(text: &str, c: &mut Ctx) {
    let (r, _) = crate::rt::call(hang_limit(text.len()), || lib::obj::parse(text));
    let set = match r {
        Ok(Ok(s)) => s,
        _ => return,
    };
    c.count("accepted_checked", 1);
    if let Canon::Obj(cs) = canon::objset(&set) {
        if let Err(d) = consistent(&cs, &set) {
            c.fail("inconsistent", format!("OBJ text {} loads, but {}", show(text), d));
        }
    }
}

pub fn consistent(cs: &CSet, set: &lib::obj::ObjectSet) -> Result<(), String> {
    for (oi, (o, real)) in cs.objs.iter().zip(&set.objects).enumerate() {
        let at = |e: usize| format!("object {} element {}", oi, e);
        for (i, e) in o.elems.iter().enumerate() {
            let want = match e.kind { 'p' => 1, 'l' => 2, _ => 3 };
            if e.c.len() != want { return Err(format!("{} has {} corners", at(i), e.c.len())); }
            for k in &e.c {
                if k.0 != e.c[0].0 { return Err(format!("{} mixes corner forms", at(i))); }
                if k.1 >= o.v.len() { return Err(format!("{} refers to vertex {} of {}", at(i), k.1, o.v.len())); }
                if (k.0 & 1) != 0 && k.2 >= o.vt.len() { return Err(format!("{} refers to texture vertex {} of {}", at(i), k.2, o.vt.len())); }
                if k.0 >= 2 && k.3 >= o.vn.len() { return Err(format!("{} refers to normal {} of {}", at(i), k.3, o.vn.len())); }
            }
            let corners: Vec<lib::obj::VTNIndex> = match real.element_set[i] {
                lib::obj::Element::Point(a) => vec![a],
                lib::obj::Element::Line(a, b) => vec![a, b],
                lib::obj::Element::Face(a, b, d) => vec![a, b, d],
            };
            for k in corners {
                if real.get_vtn_triple(k).is_none() { return Err(format!("{}: corner {:?} does not resolve", at(i), k)); }
            }
        }
        if o.shapes.len() != o.elems.len() { return Err(format!("object {} has {} elements but {} shapes", oi, o.elems.len(), o.shapes.len())); }
        for (i, s) in o.shapes.iter().enumerate() {
            if s.0 != i { return Err(format!("object {} shape {} is for element {}", oi, i, s.0)); }
            if s.1.is_empty() { return Err(format!("{} belongs to no group", at(i))); }
            for g in &s.1 { if *g >= o.groups.len() { return Err(format!("{} belongs to group {} of {}", at(i), g, o.groups.len())); } }
            for (n, g) in s.1.iter().enumerate() { if s.1[..n].contains(g) { return Err(format!("{} lists group {} twice", at(i), g)); } }
            if s.2 >= o.smooth.len() { return Err(format!("{} belongs to smoothing group {} of {}", at(i), s.2, o.smooth.len())); }
        }
        let all: Vec<usize> = o.geoms.iter().flat_map(|g| g.1.iter().copied()).collect();
        if all.len() != o.elems.len() || all.iter().enumerate().any(|(i, x)| i != *x) {
            return Err(format!("object {}: material ranges list {:?} for {} elements", oi, &all[..all.len().min(20)], o.elems.len()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

pub fn blame(kind: char, text: &str, out: &Out, c: &mut Ctx) {
    if let Out::Err { line, kind: k, disp } = out {
        match model::run(kind, text) {
            Ok(_) => c.fail("false-blame", format!("{} text {} is sound but was blamed with {} at line {}", kname(kind), show(text), k, line)),
            Err(e) => {
                if e.line != *line {
                    c.fail("wrong-line", format!("{} text {}: reported line {} ({}), the defect is {} on line {}", kname(kind), show(text), line, k, e.kinds[0], e.line));
                } else if k != "" && !e.kinds.contains(&k.as_str()) {
                    c.fail("wrong-category", format!("{} text {}: reported {} at line {}, the defect is {:?}", kname(kind), show(text), k, line, e.kinds));
                } else if !mentions(disp, *line) {
                    c.fail("line-not-printed", format!("{} text {}: printed error {:?} lacks line {}", kname(kind), show(text), disp, line));
                }
            }
        }
    }
}

fn mentions(disp: &str, line: usize) -> bool {
    let l = line.to_string();
    disp.split(|ch: char| !ch.is_ascii_digit()).any(|w| w == l)
}

// ------------------------------------------------------------------ C12

/// steps, bytes and moves allowed for a text of n bytes and a result of `out` items
pub fn bounds(n: usize, out: usize) -> (u64, u64, u64) {
    let (n, out) = (n as u64, out as u64);
    (20_000 + 120 * n + 400 * out, 100_000 + 400 * n + 1200 * out, 100_000 + 200 * n + 800 * out)
}

fn proportional(kind: char, text: &str, out: &Out, m: &crate::rt::Meter, c: &mut Ctx) {
    let n = text.len();
    // a rejected text may have built most of its result before the defect
    let o = match out { Out::Ok(x) => model::out_size(x), _ => n / 2 };
    let (s, b, mv) = bounds(n, o);
    if n > 2000 {
        c.count("metered_large", 1);
        let unit = (n + o) as u64;
        for (k, v) in [("max.steps_per_unit_x100", m.steps * 100 / unit), ("max.bytes_per_unit_x100", m.bytes * 100 / unit), ("max.moved_per_unit_x100", m.moved * 100 / unit)] {
            let old = c.stats.get(k).copied().unwrap_or(0);
            if v > old { c.stats.insert(k.into(), v); }
        }
    }
    let what = format!("{} text {} ({} bytes, {} result items)", kname(kind), show(text), n, o);
    if m.steps > s { c.fail("steps", format!("{}: {} steps, bound {}", what, m.steps, s)); }
    else if m.bytes > b { c.fail("memory", format!("{}: {} bytes allocated, bound {}", what, m.bytes, b)); }
    else if m.moved > mv { c.fail("moves", format!("{}: {} bytes moved, bound {}", what, m.moved, mv)); }
    else if let Out::Stop(st) = out { c.fail("crash", format!("{}: {:?}", what, st)); }
}

/// ["grow", kind, head, [[line]...], tail, n]: a text of n repetitions and one of 8n.
/// What a unit of text and result costs must not depend on how many there are.
fn grow(e: &[V], c: &mut Ctx) {
    let null = V::Null;
    let g = |i: usize| e.get(i).unwrap_or(&null);
    let kind = g(2).str().chars().next().unwrap_or('o');
    let lines: Vec<&str> = g(4).arr().iter().map(|l| l.arr().first().map_or("", |x| x.str())).collect();
    let n = g(6).us().clamp(1, 4000);
    if lines.is_empty() { return; }
    let make = |n: usize| {
        let mut t = g(3).str().to_string();
        for i in 0..n { for l in &lines { if l.contains('%') { t.push_str(&l.replace('%', &i.to_string())) } else { t.push_str(l) } } }
        t.push_str(g(5).str());
        t
    };
    let mut cost: Vec<(usize, usize, [u64; 3])> = vec![];
    let mut oks = vec![];
    for n in [n, 8 * n] {
        let t = make(n);
        c.evals += 1;
        let (out, m) = canon::load(kind, &t, hang_limit(t.len()));
        c.ev("grown", fnv(t.len() as u64, out.brief().as_bytes()) ^ m.steps, || format!("{} bytes -> {}", t.len(), out.brief()));
        c.count("loaded_bytes", t.len() as u64);
        c.distinct(fnv(kind as u64, t.as_bytes()));
        proportional(kind, &t, &out, &m, c);
        if c.failed() { return; }
        let o = match &out { Out::Ok(x) => model::out_size(x), _ => 0 };
        oks.push(out.is_ok());
        cost.push((t.len(), o, [m.steps, m.bytes, m.moved]));
    }
    if cost[0].0 < 2000 || oks[0] != oks[1] { return; }
    c.count("growth_compared", 1);
    for (i, (what, fixed)) in [("steps", 4000), ("bytes allocated", 20_000), ("bytes moved", 20_000)].into_iter().enumerate() {
        let per = |k: usize| (cost[k].2[i] + fixed) as f64 / (cost[k].0 + cost[k].1) as f64;
        let ratio = per(1) / per(0);
        let key = ["max.growth_steps_x100", "max.growth_bytes_x100", "max.growth_moved_x100"][i];
        let old = c.stats.get(key).copied().unwrap_or(0);
        c.stats.insert(key.into(), old.max((ratio * 100.0) as u64));
        if ratio > 2.5 {
            c.fail("growth", format!("{} text of {} repetitions of {:?}: {} {} for {} bytes and {} result items, {} {} for {} and {}", kname(kind), n, lines.concat(),
                cost[0].2[i], what, cost[0].0, cost[0].1, cost[1].2[i], what, cost[1].0, cost[1].1));
            return;
        }
    }
}

fn gen_grow(r: &mut Rng) -> V {
    let kind = if r.chance(3, 4) { 'o' } else { 'm' };
    let pool: &[&str] = if kind == 'o' {
        &["v 1 2 3\n", "v 1.5 -2e3 3 1.0\n", "vt 0.5\n", "vt 1 2 3\n", "vn 0 0 1\n", "f 1 1 1\n", "f 1/1/1 1/1/1 1/1/1 1/1/1 1/1/1\n",
          "f -1//-1 -1//-1 -1//-1\n", "l 1 1\n", "l 1/1 1/1 1/1\n", "p 1\n", "p 1 1 1 1\n", "g\n", "g a%\n", "g a b\n", "g a% b%\n", "s off\n", "s 1\n", "s %\n",
          "usemtl m\n", "usemtl m%\n", "o x%\nv 1 2 3\nvt 1\nvn 0 0 1\n", "o same\nv 1 2 3\nvt 1\nvn 0 0 1\n", "\n", "\r\n", "\n\n\n\n\n\n\n\n", "# comment %\n", "#\r", "   \n", "f 1 1 1 # tail\n"]
    } else {
        &["newmtl m%\n", "newmtl same\n", "Ka 1 2 3\n", "Kd 0.5 0.25 1\n", "Ks 1 1 1\n", "Ke 0 0 0\n", "Ns 96.078431\n", "Ni 1.0\n", "d 1\n", "illum 2\n", "map_Kd t%.png\n",
          "map_Ka a.png\n", "map_bump b.png\n", "disp d.png\n", "decal e.png\n", "\n", "\r\n", "# comment\n", "  \t\n"]
    };
    let mut lines: Vec<V> = (0..r.range(1, 5)).map(|_| V::Arr(vec![r.pick(pool).to_string().into()])).collect();
    let (head, tail): (&str, &str) = if kind == 'o' {
        match r.below(8) {
            // one long statement instead of many
            0 => { lines = vec![V::Arr(vec![r.pick(&[" 1", "  1", " 1/1", " 1/1/1", " 1//1", "\t1", " \\ 1"]).to_string().into()])]; (*r.pick(&["v 1 2 3\nvt 1\nvn 0 0 1\nf", "v 1 2 3\nvt 1\nvn 0 0 1\nl", "v 1 2 3\nvt 1\nvn 0 0 1\np"]), *r.pick(&["\n", "", " x\n", " 2\n", "\nf 1 1 1\n"])) }
            1 => { lines = vec![V::Arr(vec![r.pick(&[" n%", " n", " "]).to_string().into()])]; (*r.pick(&["g", "v 1 2 3\ng", "mtllib"]), *r.pick(&["\n", "", "\no x\n"])) }
            2 => { lines = vec![V::Arr(vec![r.pick(&["x", "1", "é", "/", "-", "0", ".", "#"]).to_string().into()])]; (*r.pick(&["v 1 2 ", "o ", "g ", "s ", "usemtl ", "v 1 2 3\nf 1 1 ", "mtllib ", "#", "", "v 1 2 3."]), *r.pick(&["\n", "", "\nv 1 2 3\n"])) }
            3 => ("mtllib a.mtl\nmtllib b.mtl c.mtl\nv 1 2 3\nvt 1\nvn 0 0 1\n", *r.pick(&["v\n", "f 9999999 1 1\n", "q\n"])),
            _ => ("v 1 2 3\nvt 1\nvn 0 0 1\n", ""),
        }
    } else {
        match r.below(5) {
            0 => { lines = vec![V::Arr(vec![r.pick(&["x", "1", "/", "0", " ", "\t"]).to_string().into()])]; (*r.pick(&["newmtl ", "newmtl a\nNs ", "newmtl a\nmap_Kd ", "newmtl a\nKd 1 2 3", "#", ""]), *r.pick(&["\n", ""])) }
            1 => ("newmtl first\n", *r.pick(&["Kd\n", "illum 99\n", "q\n"])),
            _ => ("newmtl first\n", ""),
        }
    };
    let n = gen::dict_int(r, 4000).filter(|n| *n >= 100).unwrap_or(*r.pick(&[150, 400, 400, 800, 1500]));
    let e = ev(r, "grow", vec![kind.to_string().into(), head.into(), V::Arr(lines), tail.into(), n.into()]);
    obj! { "files": V::Arr(vec!["o".into()]), "docs": V::Arr(vec![]), "ev": V::Arr(vec![e]) }
}

// ------------------------------------------------------------------ C15

/// ["transit", doc, [[op, i, arg]...]]: a chain of agents rewrites the text.
fn transit(w: &mut World, e: &[V], c: &mut Ctx) {
    if w.docs.is_empty() { return; }
    let null = V::Null;
    let (kind, text) = w.docs[e.get(2).unwrap_or(&null).us() % w.docs.len()].clone();
    let (orig, m) = canon::load(kind, &text, hang_limit(text.len()));
    c.count("library_steps", m.steps);
    let mut l: Vec<(String, &'static str)> = vec![];
    {
        let b = text.as_bytes();
        let mut pos = 0;
        for (s, term) in model::lines(&text) {
            pos += s.len();
            let end = if !term { "" } else if b[pos] == b'\n' { "\n" } else if b.get(pos + 1) == Some(&b'\n') { "\r\n" } else { "\r" };
            pos += end.len();
            l.push((s.to_string(), end));
        }
    }
    for op in e.get(3).unwrap_or(&null).arr() {
        let a = op.arr();
        if a.len() < 3 { continue; }
        let (o, i, arg) = (a[0].str(), a[1].us(), &a[2]);
        let n = l.len();
        let ends = ["\n", "\r\n", "\r"];
        match o {
            "end" if n > 0 => { let x = &mut l[i % n]; if !x.1.is_empty() { x.1 = ends[arg.us() % 3]; } }
            "ends" => { for x in &mut l { if !x.1.is_empty() { x.1 = ends[arg.us() % 3]; } } }
            "blank" => l.insert(if n == 0 { 0 } else { i % n }, (arg.str().chars().filter(|c| *c == ' ' || *c == '\t').collect(), "\n")),
            "trail" if n > 0 => { let s: String = blanks(arg.str()); l[i % n].0.push_str(&s); }
            "lead" if n > 0 => { let s: String = blanks(arg.str()); l[i % n].0.insert_str(0, &s); }
            "gap" if n > 0 => {
                let x = &mut l[i % n].0;
                let code = x.find('#').unwrap_or(x.len());
                let at: Vec<usize> = x[..code].char_indices().filter(|(_, ch)| *ch == ' ' || *ch == '\t').map(|(p, _)| p).collect();
                if !at.is_empty() {
                    let p = at[arg.us() % at.len()];
                    if arg.us() % 2 == 0 { x.replace_range(p..p + 1, "\t"); } else { x.insert_str(p, match arg.us() % 64 { 1 => "                                                                                                    ", x if x % 4 == 1 => "  ", _ => "\t" }); }
                }
            }
            "cmt" if n > 0 => { let s = format!("{}#{}", if arg.str().starts_with(' ') { " " } else { "" }, cmt(arg.str())); l[i % n].0.push_str(&s); }
            "run" => { let at = if n == 0 { 0 } else { i % n }; for _ in 0..arg.us() % 70_000 { l.insert(at, (String::new(), "\n")); if l.len() > 80_000 { break; } } }
            // a very long comment, or very wide layout
            "fill" if n > 0 => {
                let k = (arg.us() / 8).min(200_000);
                let x = &mut l[i % n].0;
                match arg.us() % 8 {
                    0 | 1 => { let s = " ".repeat(k); x.push_str(&s); }
                    2 => { let s = "\t".repeat(k); x.insert_str(0, &s); }
                    3 => { let s = format!(" #{}", "=".repeat(k)); x.push_str(&s); }
                    4 => { let s = format!("#{}", " v 1".repeat(k / 4)); x.push_str(&s); }
                    5 => {
                        let code = x.find('#').unwrap_or(x.len());
                        if let Some(p) = x[..code].find([' ', '\t']) { let s = " ".repeat(k); x.insert_str(p, &s); }
                    }
                    6 => l.insert(i % n, (" ".repeat(k), "\n")),
                    _ => l.insert(i % n, (format!("#{}", "-".repeat(k)), "\n")),
                }
            }
            // a comment at the top moves a line end onto, or next to, a round offset
            "align" if n > 0 => {
                let end: usize = l[..=i % n].iter().map(|x| x.0.len() + x.1.len()).sum();
                let t = (arg.us() / 8).clamp(8, 200_000);
                let k = 2 * t + arg.us() % 8 - end % t - 4;
                let k = if k > t + 2 { k - t } else { k };
                if k >= 2 { l.insert(0, (format!("#{}", "-".repeat(k - 2)), "\n")); }
            }
            "cline" => l.insert(if n == 0 { 0 } else { i % n }, (format!("#{}", cmt(arg.str())), "\n")),
            "nofinal" if n > 0 => {
                let last = &mut l[n - 1];
                let words: Vec<&str> = model::words(&last.0).collect();
                if orig.is_ok() && !words.is_empty() && !words.contains(&"o") { last.1 = ""; }
            }
            _ => continue,
        }
        c.fault(&format!("rewrite_{}", o));
    }
    let new: String = l.iter().map(|(s, e)| format!("{}{}", s, e)).collect();
    c.evals += 1;
    let (out, m) = canon::load_inside(kind, &new, hang_limit(new.len()));
    c.count("library_steps", m.steps);
    c.count("loaded_bytes", new.len() as u64);
    c.count(if out.is_ok() { "outcome.ok" } else { "outcome.error" }, 1);
    c.ev("transit", fnv(m.steps, out.brief().as_bytes()), || format!("{} -> {}", orig.brief(), out.brief()));
    if new != text { c.distinct(fnv(kind as u64, new.as_bytes())); }
    let same = match (&orig, &out) {
        (Out::Ok(a), Out::Ok(b)) => a == b,
        (Out::Err { kind: a, .. }, Out::Err { kind: b, .. }) => a == b,
        (Out::Stop(_), Out::Stop(_)) => true,
        _ => false,
    };
    if !same {
        let d = match (&orig, &out) { (Out::Ok(a), Out::Ok(b)) => canon::diff(b, a), _ => String::new() };
        c.fail("rewriting-matters", format!("{} text {} gives {}, rewritten as {} gives {} {}", kname(kind), show(&text), orig.brief(), show(&new), out.brief(), d));
    }
    if c.failed() { return; }
    // the next agent in the chain continues from the rewritten text
    let i = e.get(2).unwrap_or(&null).us() % w.docs.len();
    w.docs[i].1 = new;
}

fn blanks(s: &str) -> String { s.chars().filter(|c| *c == ' ' || *c == '\t').collect() }
fn cmt(s: &str) -> String { s.chars().filter(|c| *c != '\n' && *c != '\r').collect() }

// ------------------------------------------------------------------ generation

struct Swarm {
    crash: bool,
    rot: bool,
    record: bool,
    reads: bool,
    live: bool,
    rename: bool,
}

fn ev(r: &mut Rng, op: &str, args: Vec<V>) -> V {
    let dt = if r.chance(1, 10) { r.below(50_000_000) } else { r.below(200_000) };
    let mut a = vec![V::from(dt), V::from(op)];
    a.extend(args);
    V::Arr(a)
}

fn chunks(r: &mut Rng, t: &str) -> Vec<String> {
    let mut out = vec![];
    let max = *r.pick(&[16, 64, 200, 512, 4096]);
    let mut st = 0;
    while st < t.len() {
        let mut e = (st + r.range(1, max)).min(t.len());
        while !t.is_char_boundary(e) { e += 1; }
        out.push(t[st..e].to_string());
        st = e;
        if out.len() > 30 { out.push(t[st..].to_string()); break; }
    }
    out
}

fn rot(r: &mut Rng, f: usize) -> V {
    let pos = r.below(1 << 20);
    if r.chance(1, 25) {
        let n = if r.chance(1, 20) { *r.pick(&[64, 512, 4096]) } else { r.range(1, 3) };
        let x = r.below(1 << 16);
        return ev(r, "wrap", vec![f.into(), pos.into(), n.into(), x.into()]);
    }
    if r.chance(1, 150) {
        let b = if r.chance(1, 2) { -1 } else { *r.pick(b" \t\n\r#/-+.019ex\\\0") as i64 };
        let n = gen::dict_int(r, 140_000).filter(|_| r.chance(1, 3)).unwrap_or(*r.pick(&[300, 1100, 5000, 33_000, 66_000, 66_000, 70_000, 140_000]));
        return ev(r, "swell", vec![f.into(), pos.into(), V::Int(b), n.into()]);
    }
    match r.below(9) {
        0 | 1 => { let b = r.below(8); ev(r, "flip", vec![f.into(), pos.into(), b.into()]) }
        2..=4 => {
            let b = *r.pick(b" \t\n\r#/-+.0123456789eEvtnfplogsu\\x\0\x7f\x80\xff\xc3,_");
            ev(r, "put", vec![f.into(), pos.into(), (b as usize).into()])
        }
        5 => {
            let b = *r.pick(b" \t\n\r#/-+.0123456789evtnfplogsu\\x");
            ev(r, "ins", vec![f.into(), pos.into(), (b as usize).into()])
        }
        6 => { let n = 1 + r.skewed(64); ev(r, "del", vec![f.into(), pos.into(), n.into()]) }
        7 => { let n = 1 + r.skewed(512); ev(r, "zero", vec![f.into(), pos.into(), n.into()]) }
        _ => { let (b, n) = (r.below(1 << 20), 1 + r.skewed(512)); ev(r, "blk", vec![f.into(), pos.into(), b.into(), n.into()]) }
    }
}

fn record(r: &mut Rng, f: usize) -> V {
    let op = *r.pick(&["ldrop", "ldrop", "ldup", "lswap", "lmove", "ljoin", "ljoin", "lsplit"]);
    let (i, j) = (r.below(1 << 16), r.below(1 << 16));
    ev(r, op, vec![f.into(), i.into(), j.into()])
}

fn crash(r: &mut Rng) -> V {
    let style = r.below(4);
    let fates: Vec<V> = (0..40).map(|_| V::Int(match style {
        0 => -1,
        1 => -2,
        2 => if r.chance(1, 2) { -1 } else { -2 },
        _ => match r.below(3) { 0 => -1, 1 => -2, _ => r.below(4096) as i64 },
    })).collect();
    let mv = r.below(2);
    ev(r, "crash", vec![V::Arr(fates), mv.into()])
}

fn size(r: &mut Rng) -> usize {
    match r.below(100) { 0..=79 => 40, 80..=97 => 120, _ => 600 }
}

pub fn generate(prop: &str, r: &mut Rng, run: u64) -> V {
    match prop {
        "C02" | "C03" => return gen_cut(prop, r),
        "C12" => return gen_work(r, run),
        "C15" => return gen_transit(r),
        _ => {}
    }
    let nf = r.range(1, 3);
    let kinds: Vec<char> = (0..nf).map(|_| match prop { "C04" | "C06" | "C16" | "C21" | "C22" => 'o', "C05" => 'm', _ => gen::kind(r) }).collect();
    let faultless = r.chance(1, 12);
    let mut on = |n, d| !faultless && r.chance(n, d);
    let sw = Swarm { crash: on(1, 2), rot: on(1, 2), record: on(1, 2), reads: on(1, 3), live: on(1, 3), rename: on(1, 4) };
    let sz = size(r);
    // rare very large texts: line numbers and counts beyond 8 and 16 bits
    if r.chance(if gen::INTS.is_empty() { 1 } else { 3 }, 400) && !faultless {
        return gen_big(r, prop);
    }
    let mut actors: Vec<Vec<V>> = vec![];
    for f in 0..nf {
        let mut c = gen::cfg(r, sz);
        if matches!(prop, "C07" | "C01") && r.chance(1, 2) { c.bad = c.bad.max(10); }
        if matches!(prop, "C06" | "C16" | "C21" | "C22" | "C24") && r.chance(2, 3) { c.bad = 0; }
        if prop == "C24" && r.chance(1, 2) { c.float_style = 4; }
        let mut a = vec![];
        // an older, intact version may already be there
        if r.chance(1, 3) {
            let old = gen::doc(r, kinds[f], &c);
            a.push(ev(r, "w", vec![f.into(), V::Int(-1), old.into()]));
            a.push(ev(r, "sync", vec![f.into()]));
            if r.chance(1, 2) { a.push(ev(r, "tr", vec![f.into(), 0usize.into()])); }
            else if r.chance(1, 2) { a.push(ev(r, "w", vec![f.into(), V::Int(-1), "\n".into()])); }
        }
        let doc = gen::doc(r, kinds[f], &c);
        let append = r.chance(4, 5);
        let mut off = 0;
        for ch in chunks(r, &doc) {
            let o = if append { V::Int(-1) } else { V::from(off) };
            off += ch.len();
            a.push(ev(r, "w", vec![f.into(), o, ch.into()]));
            if r.chance(1, 8) { a.push(ev(r, "sync", vec![f.into()])); }
        }
        if r.chance(2, 3) { a.push(ev(r, "sync", vec![f.into()])); }
        if sw.rename && nf > 1 {
            let t = (f + 1) % nf;
            if kinds[t] == kinds[f] {
                a.push(ev(r, "mv", vec![f.into(), t.into()]));
                if r.chance(1, 2) { a.push(ev(r, "dsync", vec![])); }
            }
        }
        actors.push(a);
    }
    if sw.live || sw.reads {
        for rd in 0..r.range(1, 3) {
            let mut a = vec![];
            for _ in 0..r.range(1, 3) {
                let f = r.below(nf);
                a.push(ev(r, "open", vec![rd.into(), f.into()]));
                for _ in 0..r.range(1, 5) {
                    let n = 1 + r.skewed(2048);
                    a.push(ev(r, "rd", vec![rd.into(), n.into()]));
                    if sw.reads && r.chance(1, 3) { a.push(ev(r, "eintr", vec![rd.into()])); }
                }
                if sw.reads && r.chance(1, 2) { a.push(ev(r, "eio", vec![rd.into()])); }
                if r.chance(1, 2) { a.push(ev(r, "all", vec![rd.into()])); }
                let lossy = r.below(2);
                a.push(ev(r, "load", vec![rd.into(), lossy.into()]));
            }
            actors.push(a);
        }
    }
    let mut faults = vec![];
    if sw.crash { for _ in 0..r.range(1, 2) { faults.push(crash(r)); } }
    // the seeded scheduler: which actor moves next
    let mut evs = vec![];
    let mut pos = vec![0; actors.len()];
    let mut cur = 0;
    loop {
        let left: Vec<usize> = (0..actors.len()).filter(|&i| pos[i] < actors[i].len()).collect();
        if left.is_empty() { break; }
        if !left.contains(&cur) || r.chance(1, 3) { cur = *r.pick(&left); }
        evs.push(actors[cur][pos[cur]].clone());
        pos[cur] += 1;
    }
    for f in faults {
        let at = r.range(evs.len() / 3, evs.len());
        evs.insert(at, f);
    }
    // damage at rest and in transport, each followed by a load
    let rounds = r.range(1, 5);
    for _ in 0..rounds {
        let f = r.below(nf);
        if sw.rot { for _ in 0..r.range(0, 2) { let e = rot(r, f); evs.push(e); } }
        if sw.record { for _ in 0..r.range(0, 2) { let e = record(r, f); evs.push(e); } }
        if sw.crash && r.chance(1, 6) { let n = r.below(1 << 20); evs.push(ev(r, "cut", vec![f.into(), n.into()])); }
        evs.push(ev(r, "open", vec![7usize.into(), f.into()]));
        evs.push(ev(r, "all", vec![7usize.into()]));
        let lossy = r.below(2);
        evs.push(ev(r, "load", vec![7usize.into(), lossy.into()]));
    }
    obj! {
        "files": V::Arr(kinds.iter().map(|k| V::from(k.to_string())).collect()),
        "docs": V::Arr(vec![]),
        "ev": V::Arr(evs),
    }
}

fn gen_big(r: &mut Rng, prop: &str) -> V {
    let mut evs = vec![];
    let n = match gen::dict_int(r, 70_000) { Some(n) if r.chance(2, 3) => n, _ => *r.pick(&[300, 1000, 5000, 20_000, 66_000, 70_000]) };
    let mut f = r.below(gen::FAMILIES);
    for _ in 0..60 {
        let k = gen::family(f, 1).0;
        let ok = match prop { "C04" | "C06" | "C16" | "C21" | "C22" => k == 'o', "C05" => k == 'm', _ => true };
        if ok { break; }
        f = (f + 1) % gen::FAMILIES;
    }
    let mut d = vec![];
    for _ in 0..r.below(3) {
        let p = r.below(1 << 22);
        let b = if r.chance(1, 4) { -1 } else { *r.pick(b"x/ \n#-09") as i64 };
        d.push(V::Arr(vec![p.into(), V::Int(b)]));
    }
    evs.push(ev(r, "family", vec![f.into(), n.into(), V::Arr(d)]));
    obj! { "files": V::Arr(vec!["o".into()]), "docs": V::Arr(vec![]), "ev": V::Arr(evs) }
}

fn gen_cut(prop: &str, r: &mut Rng) -> V {
    let kind = if prop == "C02" { 'o' } else { 'm' };
    let sz = size(r);
    let c = gen::cfg(r, sz);
    let doc = gen::sound(r, kind, &c);
    let mut evs = vec![];
    let cs = chunks(r, &doc);
    let crash_at = r.below(cs.len() + 1);
    let load = |r: &mut Rng, evs: &mut Vec<V>| {
        evs.push(ev(r, "open", vec![0usize.into(), 0usize.into()]));
        if r.chance(1, 3) { let n = 1 + r.skewed(4096); evs.push(ev(r, "rd", vec![0usize.into(), n.into()])); }
        if r.chance(1, 6) { evs.push(ev(r, "eio", vec![0usize.into()])); }
        evs.push(ev(r, "all", vec![0usize.into()]));
        evs.push(ev(r, "load", vec![0usize.into(), 0usize.into(), 0usize.into()]));
    };
    for (i, ch) in cs.iter().enumerate() {
        if i == crash_at {
            // in-order storage: writes survive up to a point, the one there is torn
            let keep = r.below(6);
            let mut fates: Vec<V> = (0..keep).map(|_| V::Int(-1)).collect();
            fates.push(V::Int(r.below(4096) as i64));
            evs.push(ev(r, "crash", vec![V::Arr(fates), 0usize.into()]));
            load(r, &mut evs);
            evs.push(ev(r, "resume", vec![0usize.into(), 0usize.into()]));
            load(r, &mut evs);
            break;
        }
        evs.push(ev(r, "w", vec![0usize.into(), V::Int(-1), ch.clone().into()]));
        if r.chance(1, 6) { evs.push(ev(r, "sync", vec![0usize.into()])); }
        if r.chance(1, 3) { load(r, &mut evs); }
    }
    // media that lose the tail: shorter and shorter
    for _ in 0..r.range(1, 5) {
        let n = r.below(1 << 20);
        evs.push(ev(r, "cut", vec![0usize.into(), n.into()]));
        load(r, &mut evs);
        if r.chance(1, 3) {
            evs.push(ev(r, "resume", vec![0usize.into(), 0usize.into()]));
            if r.chance(1, 3) { load(r, &mut evs); }
        }
    }
    obj! {
        "files": V::Arr(vec![V::from(kind.to_string())]),
        "docs": V::Arr(vec![V::Arr(vec![V::from(kind.to_string()), V::from(doc)])]),
        "ev": V::Arr(evs),
    }
}

fn gen_work(r: &mut Rng, run: u64) -> V {
    if run % 3 == 1 { return gen_grow(r); }
    let mut evs = vec![];
    if run % 3 == 0 {
        let f = r.below(gen::FAMILIES);
        let n = *r.pick(&[500, 2000, 2000, 5000, 10_000]);
        let mut d = vec![];
        for _ in 0..r.below(4) {
            let p = r.below(1 << 22);
            let b = if r.chance(1, 4) { -1 } else { *r.pick(b"x/ \n#-09\t\r\\") as i64 };
            d.push(V::Arr(vec![p.into(), V::Int(b)]));
        }
        evs.push(ev(r, "family", vec![f.into(), n.into(), V::Arr(d)]));
        return obj! { "files": V::Arr(vec!["o".into()]), "docs": V::Arr(vec![]), "ev": V::Arr(evs) };
    }
    let kind = gen::kind(r);
    let mut c = gen::cfg(r, 40);
    c.size = r.range(200, 1500);
    c.bad = 0;
    let doc = gen::doc(r, kind, &c);
    evs.push(ev(r, "w", vec![0usize.into(), V::Int(-1), doc.into()]));
    for _ in 0..r.range(1, 3) {
        evs.push(ev(r, "open", vec![0usize.into(), 0usize.into()]));
        evs.push(ev(r, "all", vec![0usize.into()]));
        evs.push(ev(r, "load", vec![0usize.into(), 1usize.into()]));
        for _ in 0..r.range(0, 2) { let e = rot(r, 0); evs.push(e); }
        for _ in 0..r.range(0, 2) { let e = record(r, 0); evs.push(e); }
        if r.chance(1, 5) { let n = r.below(1 << 20); evs.push(ev(r, "cut", vec![0usize.into(), n.into()])); }
    }
    obj! { "files": V::Arr(vec![V::from(kind.to_string())]), "docs": V::Arr(vec![]), "ev": V::Arr(evs) }
}

fn gen_transit(r: &mut Rng) -> V {
    let kind = gen::kind(r);
    let sz = size(r);
    let mut c = gen::cfg(r, sz);
    let doc = if r.chance(3, 4) { gen::sound(r, kind, &c) } else { c.bad = 80; gen::doc(r, kind, &c) };
    let mut evs = vec![];
    for _ in 0..r.range(1, 4) {
        let mut ops = vec![];
        let enabled: Vec<&str> = ["end", "ends", "blank", "trail", "lead", "gap", "cmt", "cline", "nofinal", "run"]
            .into_iter().filter(|_| r.chance(1, 2)).collect();
        if enabled.is_empty() { continue; }
        if r.chance(1, 60) {
            let k = gen::dict_int(r, 140_000).filter(|_| r.chance(1, 3)).unwrap_or(*r.pick(&[1100, 5000, 9000, 33_000, 66_000, 70_000, 140_000]));
            ops.push(V::Arr(vec!["fill".into(), r.below(1 << 16).into(), (8 * k + r.below(8)).into()]));
        }
        if r.chance(1, 12) {
            let t = gen::round(r);
            ops.push(V::Arr(vec!["align".into(), r.below(1 << 16).into(), (8 * t + r.below(8)).into()]));
        }
        for _ in 0..1 + r.skewed(12) {
            let o = *r.pick(&enabled);
            let i = r.below(1 << 16);
            let arg: V = match o {
                "end" | "ends" => r.below(3).into(),
                "gap" => r.below(1 << 10).into(),
                "run" => (if r.chance(1, 40) { gen::dict_int(r, 20_000).unwrap_or(*r.pick(&[127usize, 255, 256, 300, 1030])) } else { r.range(1, 12) }).into(),
                "cmt" | "cline" if r.chance(1, 3) => {
                    let mut t = String::from(*r.pick(&["", " "]));
                    for _ in 0..r.range(1, 3) { let st = r.below(6); t.push_str(&gen::name(r, st)); t.push_str(r.pick(&[" ", "#", "\t", ""])); }
                    if r.chance(1, 30) { let n = gen::dict_int(r, 9000).unwrap_or(*r.pick(&[60, 130, 260, 1030])); for _ in 0..n { t.push('='); } }
                    t.into()
                }
                "cmt" | "cline" => r.pick(&["", " x", "# #", " v 1 2 3", "v 1 2 3", " \\", "\\", " é世", "\t", " o x", "f 1 1 1"]).to_string().into(),
                _ if r.chance(1, 30) => { let n = gen::dict_int(r, 9000).unwrap_or(*r.pick(&[31, 63, 64, 65, 66, 127, 129, 255, 257, 600, 1030])); r.pick(&[" ", "\t"]).repeat(n).into() },
                _ => r.pick(&[" ", "\t", "  ", " \t", "                "]).to_string().into(),
            };
            ops.push(V::Arr(vec![o.into(), i.into(), arg]));
        }
        evs.push(ev(r, "transit", vec![0usize.into(), V::Arr(ops)]));
    }
    obj! {
        "files": V::Arr(vec![V::from(kind.to_string())]),
        "docs": V::Arr(vec![V::Arr(vec![V::from(kind.to_string()), V::from(doc)])]),
        "ev": V::Arr(evs),
    }
}
