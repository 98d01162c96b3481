//! World "replica" (C25): two replicas of a file are damaged independently, loaded and
//! compared with the library's own operators; results diverge in memory, are found to
//! differ, and are repaired by copying.
use crate::canon::{self, Raw};
use crate::ctx::{show, Ctx};
use crate::gen;
use crate::json::V;
use crate::obj;
use crate::parts::damage;
use crate::pipe::{hang_limit, kname};
use crate::rng::{fnv, Rng};
use lib::mtl::{Color, IlluminationModel, Material, MaterialSet};
use lib::obj::{Element, Geometry, Group, NormalVertex, Object, ObjectSet, ShapeEntry, SmoothingGroup, TextureVertex, VTNIndex, VTNTriple, Vertex};
use wavefront_obj as lib;

/// The same data, numbers compared as numbers. Does not use the library's operators.
trait Same { fn same(&self, o: &Self) -> bool; }
/// A small change in memory.
trait Diverge { fn diverge(&mut self, r: &mut Rng); }

impl Same for f64 { fn same(&self, o: &f64) -> bool { self == o } }
impl Same for usize { fn same(&self, o: &usize) -> bool { self == o } }
impl Same for String { fn same(&self, o: &String) -> bool { self.as_bytes() == o.as_bytes() } }
impl<T: Same> Same for Vec<T> { fn same(&self, o: &Vec<T>) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<T: Same> Same for Option<T> { fn same(&self, o: &Option<T>) -> bool { match (self, o) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } } }

impl Diverge for f64 {
    fn diverge(&mut self, r: &mut Rng) {
        *self = match r.below(6) {
            0 => -*self,
            1 => f64::from_bits(self.to_bits() ^ 1),
            2 => f64::from_bits(self.to_bits() ^ 1 << r.below(64)),
            3 => *r.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY]),
            4 => *self + *r.pick(&[1e-9, 1e-12, 1e-6]),
            _ => *self + 1.0,
        };
    }
}
impl Diverge for usize { fn diverge(&mut self, r: &mut Rng) { *self = match r.below(3) { 0 => self.wrapping_add(1), 1 => self.wrapping_sub(1), _ => *self ^ 1 << r.below(64) }; } }
impl Diverge for String {
    fn diverge(&mut self, r: &mut Rng) {
        match r.below(5) {
            0 => { self.pop(); }
            1 => self.push('a'),
            2 => { let u = if r.chance(1, 2) { self.to_uppercase() } else { self.to_lowercase() }; *self = u; }
            3 => *self = self.chars().rev().collect(),
            _ => self.insert(0, *r.pick(&[' ', 'x', '0'])),
        }
    }
}
impl<T: Diverge + Clone> Diverge for Vec<T> {
    fn diverge(&mut self, r: &mut Rng) {
        let n = self.len();
        match r.below(6) {
            0 => { self.pop(); }
            1 if n > 0 => { let x = self[r.below(n)].clone(); self.insert(r.below(n + 1), x); }
            2 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); self.swap(i, j); }
            _ if n > 0 => { let i = if r.chance(1, 3) { n - 1 } else { r.below(n) }; self[i].diverge(r); }
            _ => {}
        }
    }
}
impl<T: Diverge + Default> Diverge for Option<T> { fn diverge(&mut self, r: &mut Rng) { match self { Some(x) if r.chance(1, 2) => x.diverge(r), Some(_) => *self = None, None => *self = Some(T::default()) } } }

macro_rules! fields {
    ($t:ty, $($f:tt),*) => {
        impl Same for $t { fn same(&self, o: &$t) -> bool { true $(&& self.$f.same(&o.$f))* } }
        impl Diverge for $t {
            fn diverge(&mut self, r: &mut Rng) {
                let mut n = 0;
                $(let _ = stringify!($f); n += 1;)*
                let mut k = r.below(n);
                $(if k == 0 { self.$f.diverge(r); return; } k -= 1;)*
                let _ = k;
            }
        }
    };
}
fields!(Vertex, x, y, z, w);
fields!(TextureVertex, u, v, w);
fields!(NormalVertex, x, y, z);
fields!(Group, 0);
fields!(SmoothingGroup, 0);
fields!(ShapeEntry, element, groups, smoothing_group);
fields!(Geometry, material_name, shapes);
fields!(Object, name, vertex_set, texture_vertex_set, normal_vertex_set, group_set, smoothing_group_set, element_set, shape_set, geometry_set);
fields!(ObjectSet, material_libraries, objects, objects, objects);
fields!(Color, r, g, b);
fields!(Material, name, color_ambient, color_diffuse, color_specular, color_emissive, specular_exponent, dissolve, optical_density, illumination_model, map_ambient, map_diffuse, map_specular, map_emissive, map_specular_exponent, map_bump, map_displacement, map_dissolve, map_decal);
fields!(MaterialSet, materials);

fn model(m: IlluminationModel) -> usize { match m { IlluminationModel::Ambient => 0, IlluminationModel::AmbientDiffuse => 1, IlluminationModel::AmbientDiffuseSpecular => 2 } }
impl Same for IlluminationModel { fn same(&self, o: &Self) -> bool { model(*self) == model(*o) } }
impl Diverge for IlluminationModel { fn diverge(&mut self, r: &mut Rng) { *self = *r.pick(&[IlluminationModel::Ambient, IlluminationModel::AmbientDiffuse, IlluminationModel::AmbientDiffuseSpecular]); } }
fn corner(i: VTNIndex) -> (u8, usize, usize, usize) { match i { VTNIndex::V(a) => (0, a, 0, 0), VTNIndex::VT(a, b) => (1, a, b, 0), VTNIndex::VN(a, c) => (2, a, 0, c), VTNIndex::VTN(a, b, c) => (3, a, b, c) } }
impl Same for VTNIndex { fn same(&self, o: &Self) -> bool { corner(*self) == corner(*o) } }
impl Diverge for VTNIndex {
    fn diverge(&mut self, r: &mut Rng) {
        let (mut f, mut a, mut b, mut c) = corner(*self);
        match r.below(4) { 0 => f = r.below(4) as u8, 1 => a.diverge(r), 2 => b.diverge(r), _ => c.diverge(r) }
        *self = match f { 0 => VTNIndex::V(a), 1 => VTNIndex::VT(a, b), 2 => VTNIndex::VN(a, c), _ => VTNIndex::VTN(a, b, c) };
    }
}
fn corners(e: &Element) -> Vec<VTNIndex> { match *e { Element::Point(a) => vec![a], Element::Line(a, b) => vec![a, b], Element::Face(a, b, c) => vec![a, b, c] } }
impl Same for Element { fn same(&self, o: &Self) -> bool { corners(self).same(&corners(o)) } }
impl Diverge for Element {
    fn diverge(&mut self, r: &mut Rng) {
        let mut c = corners(self);
        match r.below(4) { 0 => { let x = c[0]; c.push(x); } 1 if c.len() > 1 => { c.pop(); } 2 => c.reverse(), _ => { let k = r.below(c.len()); c[k].diverge(r); } }
        *self = match c[..] { [a] => Element::Point(a), [a, b] => Element::Line(a, b), _ => Element::Face(c[0], c[1], c[2]) };
    }
}
impl Same for VTNTriple<'_> {
    fn same(&self, o: &Self) -> bool {
        use VTNTriple::*;
        match (self, o) {
            (V(a), V(x)) => a.same(x),
            (VT(a, b), VT(x, y)) => a.same(x) && b.same(y),
            (VN(a, c), VN(x, z)) => a.same(x) && c.same(z),
            (VTN(a, b, c), VTN(x, y, z)) => a.same(x) && b.same(y) && c.same(z),
            _ => false,
        }
    }
}

/// The operators against the data.
fn agree<T: Same + PartialEq + std::fmt::Debug>(a: &T, b: &T, c: &mut Ctx) -> bool {
    let want = a.same(b);
    let got = (a == b, b == a, !(a != b), !(b != a));
    c.count(if want { "compared_equal" } else { "compared_different" }, 1);
    if got == (want, want, want, want) { return true; }
    c.fail("comparison-wrong", format!("{} and {} {} the same data; a == b: {}, b == a: {}, a != b: {}, b != a: {}",
        show(&format!("{:?}", a)), show(&format!("{:?}", b)), if want { "hold" } else { "do not hold" }, got.0, got.1, !got.2, !got.3));
    false
}

fn pairs<T: Same + PartialEq + std::fmt::Debug>(a: &[T], b: &[T], c: &mut Ctx) -> bool {
    for (i, x) in a.iter().enumerate() {
        for y in b.iter().skip(i.saturating_sub(2)).take(5) { if !agree(x, y, c) { return false; } }
        if i > 12 { break; }
    }
    true
}

fn objects(a: &Object, b: &Object, c: &mut Ctx) -> bool {
    agree(a, b, c) && pairs(&a.vertex_set, &b.vertex_set, c) && pairs(&a.texture_vertex_set, &b.texture_vertex_set, c) && pairs(&a.normal_vertex_set, &b.normal_vertex_set, c)
        && pairs(&a.group_set, &b.group_set, c) && pairs(&a.smoothing_group_set, &b.smoothing_group_set, c) && pairs(&a.element_set, &b.element_set, c)
        && pairs(&a.shape_set, &b.shape_set, c) && pairs(&a.geometry_set, &b.geometry_set, c)
        && a.element_set.iter().zip(&b.element_set).take(12).all(|(x, y)| {
            let (p, q) = (corners(x), corners(y));
            if !pairs(&p, &q, c) { return false; }
            // what the corners stand for
            match (a.get_vtn_triple(p[0]), b.get_vtn_triple(q[0])) { (Some(s), Some(t)) => agree(&s, &t, c), _ => true }
        })
}

fn sets(a: &ObjectSet, b: &ObjectSet, c: &mut Ctx) -> bool {
    agree(a, b, c) && a.objects.iter().zip(&b.objects).take(6).all(|(x, y)| objects(x, y, c)) && (a.objects.len() < 2 || b.objects.is_empty() || objects(&a.objects[1], &b.objects[0], c))
}

fn mats(a: &MaterialSet, b: &MaterialSet, c: &mut Ctx) -> bool {
    agree(a, b, c) && pairs(&a.materials, &b.materials, c) && a.materials.iter().zip(&b.materials).take(12).all(|(x, y)| {
        for (p, q) in [(&x.color_ambient, &y.color_ambient), (&x.color_diffuse, &y.color_diffuse), (&x.color_specular, &y.color_emissive), (&x.color_ambient, &x.color_diffuse)] {
            if !agree(p, q, c) { return false; }
            // an order, too: one way or the other, and "equal" exactly where they are
            let (f, g) = (p.partial_cmp(q), q.partial_cmp(p));
            if f.map(|o| o.reverse()) != g || (f == Some(std::cmp::Ordering::Equal)) != p.same(q) {
                c.fail("order-wrong", format!("{:?} and {:?}: one way {:?}, the other {:?}", p, q, f, g));
                return false;
            }
        }
        let (i, j) = (x.illumination_model, y.illumination_model);
        if (i.cmp(&j) == std::cmp::Ordering::Equal) != i.same(&j) || i.cmp(&j).reverse() != j.cmp(&i) { c.fail("order-wrong", format!("{:?} and {:?} compare as {:?}", i, j, i.cmp(&j))); return false; }
        agree(&i, &j, c)
    })
}

/// Single items, and lists of them, repaired from other items.
fn patch<T: Clone + Diverge + std::fmt::Debug>(a: &[T], b: &[T], r: &mut Rng, c: &mut Ctx) -> bool {
    let said = |x: &[T]| format!("{:?}", x);
    // a list over a list of another length, and back
    for (x, y) in [(a, b), (b, a)] {
        let mut l = x.to_vec();
        if r.chance(1, 2) { l.diverge(r); }
        l.clone_from(&y.to_vec());
        if said(&l) != said(y) { return torn(&said(y), &said(&l), c); }
        if let (Some(p), false) = (x.first(), y.is_empty()) {
            let q = &y[r.below(y.len())];
            let mut one = x.get(r.below(x.len())).unwrap_or(p).clone();
            if r.chance(1, 2) { one.diverge(r); }
            one.clone_from(q);
            c.count("items_repaired", 1);
            let (w, g) = (format!("{:?}", q), format!("{:?}", one));
            if w != g { return torn(&w, &g, c); }
        }
    }
    true
}

fn torn(want: &str, got: &str, c: &mut Ctx) -> bool {
    c.fail("copy-differs", format!("{} copied over an item that differs gives {}", show(want), show(got)));
    false
}

fn patch_obj(a: &ObjectSet, b: &ObjectSet, r: &mut Rng, c: &mut Ctx) -> bool {
    if !patch(&a.objects, &b.objects, r, c) || !patch(&a.material_libraries, &b.material_libraries, r, c) { return false; }
    if a.objects.is_empty() || b.objects.is_empty() { return true; }
    let (x, y) = (&a.objects[r.below(a.objects.len())], &b.objects[r.below(b.objects.len())]);
    patch(&x.vertex_set, &y.vertex_set, r, c) && patch(&x.texture_vertex_set, &y.texture_vertex_set, r, c) && patch(&x.normal_vertex_set, &y.normal_vertex_set, r, c)
        && patch(&x.group_set, &y.group_set, r, c) && patch(&x.smoothing_group_set, &y.smoothing_group_set, r, c) && patch(&x.element_set, &y.element_set, r, c)
        && patch(&x.shape_set, &y.shape_set, r, c) && patch(&x.geometry_set, &y.geometry_set, r, c)
}

fn patch_mtl(a: &MaterialSet, b: &MaterialSet, r: &mut Rng, c: &mut Ctx) -> bool {
    let colors = |m: &MaterialSet| m.materials.iter().take(12).flat_map(|m| [m.color_ambient, m.color_diffuse, m.color_emissive]).collect::<Vec<_>>();
    patch(&a.materials, &b.materials, r, c) && patch(&colors(a), &colors(b), r, c)
}

/// A copy that drifts away from the original, is told apart from it, and is repaired.
fn drift<T: Clone + Same + Diverge + PartialEq + std::fmt::Debug>(a: &T, other: Option<&T>, canon: fn(&T) -> crate::model::Canon, cmp: fn(&T, &T, &mut Ctx) -> bool, s: &V, c: &mut Ctx) -> bool {
    let before = canon(a);
    let mut copy = a.clone();
    if canon(&copy) != before { c.fail("copy-differs", format!("{} copied gives {}", show(&format!("{:?}", before)), show(&format!("{:?}", canon(&copy))))); return false; }
    for d in s.get("div").arr() {
        let mut r = Rng::new(d.us() as u64);
        if d.us() % 3 != 0 { copy = a.clone(); }
        copy.diverge(&mut r);
        c.fault("memory_divergence");
        c.evals += 1;
        if !cmp(a, &copy, c) || !cmp(&copy, a, c) { return false; }
    }
    if canon(a) != before { c.fail("copy-shares", "changing a copy changed the original".into()); return false; }
    let from = other.unwrap_or(a);
    copy.clone_from(from);
    if canon(&copy) != canon(from) { c.fail("copy-differs", format!("{} copied over a result that differs gives {}", show(&format!("{:?}", canon(from))), show(&format!("{:?}", canon(&copy))))); return false; }
    if copy.same(&copy) { agree(&copy, from, c) } else { true }
}

pub fn exec(s: &V, c: &mut Ctx) {
    let kind = s.get("kind").str().chars().next().unwrap_or('o');
    let mut replica = |which: &str| {
        let mut b = s.get("text").str().as_bytes().to_vec();
        for e in s.get(which).arr() { damage(&mut b, e.arr(), c); }
        String::from_utf8_lossy(&b).into_owned()
    };
    let (ta, tb) = (replica("a"), replica("b"));
    let (a, b) = match (canon::load_raw(kind, &ta, hang_limit(ta.len())).0, canon::load_raw(kind, &tb, hang_limit(tb.len())).0) {
        (Ok(a), Ok(b)) => (a, b),
        _ => { c.count("skipped_load_crashes", 1); return; }
    };
    // strings that are not strings cannot be compared, or changed in memory
    canon::mangled();
    let _ = (a.out(), b.out());
    if canon::mangled() { c.count("skipped_not_utf8", 1); return; }
    c.now += 2_000_000;
    c.evals += 1;
    c.distinct(fnv(fnv(kind as u64, ta.as_bytes()), tb.as_bytes()));
    c.ev("compare", fnv(ta.len() as u64, tb.as_bytes()), || format!("{} {} with {}", kname(kind), a.out().brief(), b.out().brief()));
    c.count(if a.out().is_ok() && b.out().is_ok() { "outcome.both_load" } else { "outcome.rejected" }, 1);
    match (&a, &b) {
        (Raw::O(Ok(x)), Raw::O(Ok(y))) => { let _ = sets(x, y, c) && drift(x, Some(y), canon::objset, sets, s, c) && patch_obj(x, y, &mut Rng::new(ta.len() as u64 ^ tb.len() as u64), c); }
        (Raw::M(Ok(x)), Raw::M(Ok(y))) => { let _ = mats(x, y, c) && drift(x, Some(y), canon::mtlset, mats, s, c) && patch_mtl(x, y, &mut Rng::new(ta.len() as u64 ^ tb.len() as u64), c); }
        (Raw::O(Ok(x)), _) | (_, Raw::O(Ok(x))) => { drift(x, None, canon::objset, sets, s, c); }
        (Raw::M(Ok(x)), _) | (_, Raw::M(Ok(x))) => { drift(x, None, canon::mtlset, mats, s, c); }
        (Raw::O(Err(x)), Raw::O(Err(y))) => errors(x == y, y == x, x != y, a.out() == b.out(), a.out() == canon::oerr(&x.clone()), &a, &b, c),
        (Raw::M(Err(x)), Raw::M(Err(y))) => errors(x == y, y == x, x != y, a.out() == b.out(), a.out() == canon::merr(&x.clone()), &a, &b, c),
        _ => {}
    }
}

#[allow(clippy::too_many_arguments)]
fn errors(eq: bool, qe: bool, ne: bool, same: bool, copy: bool, a: &Raw, b: &Raw, c: &mut Ctx) {
    if !copy { c.fail("copy-differs", format!("the copy of the error {:?} says something else", a.out())); return; }
    if eq != same || qe != same || ne == same {
        c.fail("comparison-wrong", format!("the errors {:?} and {:?}: a == b: {}, b == a: {}, a != b: {}", a.out(), b.out(), eq, qe, ne));
    }
}

pub fn generate(r: &mut Rng) -> V {
    let kind = gen::kind(r);
    let size = if r.chance(1, 25) { 400 } else { *r.pick(&[4, 12, 30]) };
    let mut cf = gen::cfg(r, size);
    if r.chance(3, 4) { cf.bad = 0; }
    let text = gen::doc(r, kind, &cf);
    let ops = ["flip", "put", "ins", "del", "ldrop", "ldup", "lswap", "lmove", "ljoin", "lsplit", "cut"];
    let mut dmg = |r: &mut Rng| -> V {
        let n = *r.pick(&[0, 0, 1, 1, 2]);
        V::Arr((0..n).map(|_| V::Arr(vec![(*r.pick(&ops)).into(), r.below(1 << 20).into(), if r.chance(2, 3) { (*r.pick(b"0123456789-.e/ aA\n") as usize).into() } else { r.below(128).into() }])).collect())
    };
    let (a, b) = (dmg(r), dmg(r));
    let div: Vec<V> = (0..r.range(0, 7)).map(|_| r.below(1 << 30).into()).collect();
    obj! { "kind": kind.to_string(), "text": text, "a": a, "b": b, "div": V::Arr(div) }
}
