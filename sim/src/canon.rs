//! What the library returned, read field by field into the model's terms.
use crate::model::*;
use crate::rt::{self, Meter, Opt, Stop};
use wavefront_obj::{mtl, obj};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Canon),
    Err { line: usize, kind: String, disp: String },
    Stop(Stop),
}

impl Out {
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(Canon::Obj(s)) => format!(
                "Ok({} objects, {} elements)", s.objs.len(), s.objs.iter().map(|o| o.elems.len()).sum::<usize>()),
            Out::Ok(Canon::Mtl(m)) => format!("Ok({} materials)", m.len()),
            Out::Err { line, kind, .. } => format!("Err({} at line {})", kind, line),
            Out::Stop(s) => format!("{:?}", s),
        }
    }
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
}

fn corner(i: &obj::VTNIndex) -> (u8, usize, usize, usize) {
    match *i {
        obj::VTNIndex::V(v) => (0, v, 0, 0),
        obj::VTNIndex::VT(v, t) => (1, v, t, 0),
        obj::VTNIndex::VN(v, n) => (2, v, 0, n),
        obj::VTNIndex::VTN(v, t, n) => (3, v, t, n),
    }
}

/// A copy of a string of the library's, which may not be UTF-8 if the library is wrong.
pub fn own(s: &str) -> String {
    if std::str::from_utf8(s.as_bytes()).is_err() { MANGLED.with(|m| m.set(true)); }
    String::from_utf8_lossy(s.as_bytes()).into_owned()
}

thread_local!(static MANGLED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// Did a string copied since the last question turn out not to be UTF-8?
pub fn mangled() -> bool { MANGLED.with(|m| m.replace(false)) }

pub fn object(o: &obj::Object) -> CObj {
    CObj {
        name: own(&o.name),
        v: o.vertex_set.iter().map(|v| [bits(v.x), bits(v.y), bits(v.z), bits(v.w)]).collect(),
        vt: o.texture_vertex_set.iter().map(|v| [bits(v.u), bits(v.v), bits(v.w)]).collect(),
        vn: o.normal_vertex_set.iter().map(|v| [bits(v.x), bits(v.y), bits(v.z)]).collect(),
        groups: o.group_set.iter().map(|g| own(&g.0)).collect(),
        smooth: o.smoothing_group_set.iter().map(|s| s.0 as u64).collect(),
        elems: o.element_set.iter().map(|e| match e {
            obj::Element::Point(a) => CElem { kind: 'p', c: vec![corner(a)] },
            obj::Element::Line(a, b) => CElem { kind: 'l', c: vec![corner(a), corner(b)] },
            obj::Element::Face(a, b, c) => CElem { kind: 'f', c: vec![corner(a), corner(b), corner(c)] },
        }).collect(),
        shapes: o.shape_set.iter().map(|s| (s.element, s.groups.clone(), s.smoothing_group)).collect(),
        geoms: o.geometry_set.iter().map(|g| (g.material_name.as_deref().map(own), g.shapes.clone())).collect(),
    }
}

pub fn objset(s: &obj::ObjectSet) -> Canon {
    Canon::Obj(CSet { libs: s.material_libraries.iter().map(|l| own(l)).collect(), objs: s.objects.iter().map(object).collect() })
}

pub fn mtlset(s: &mtl::MaterialSet) -> Canon {
    let c = |c: &mtl::Color| [bits(c.r), bits(c.g), bits(c.b)];
    Canon::Mtl(s.materials.iter().map(|m| CMat {
        name: own(&m.name),
        colors: [c(&m.color_ambient), c(&m.color_diffuse), c(&m.color_specular), c(&m.color_emissive)],
        ns: bits(m.specular_exponent),
        d: bits(m.dissolve),
        ni: m.optical_density.map(bits),
        illum: match m.illumination_model {
            mtl::IlluminationModel::Ambient => 0,
            mtl::IlluminationModel::AmbientDiffuse => 1,
            mtl::IlluminationModel::AmbientDiffuseSpecular => 2,
        },
        maps: [
            m.map_ambient.as_deref().map(own), m.map_diffuse.as_deref().map(own), m.map_specular.as_deref().map(own), m.map_emissive.as_deref().map(own),
            m.map_specular_exponent.as_deref().map(own), m.map_bump.as_deref().map(own), m.map_displacement.as_deref().map(own),
            m.map_dissolve.as_deref().map(own), m.map_decal.as_deref().map(own),
        ],
    }).collect())
}

pub fn oerr(e: &obj::ParseError) -> Out {
    rt::reading(|| Out::Err { line: e.line_number, kind: format!("{:?}", e.kind), disp: own(&format!("{}", e)) })
}

/// The MTL error keeps its fields private: line from the text, kind from `Debug`.
pub fn merr(e: &mtl::ParseError) -> Out {
    let (disp, dbg) = rt::reading(|| (own(&format!("{}", e)), own(&format!("{:?}", e))));
    let digits = |s: &str| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>();
    let mut line = digits(disp.split("line ").nth(1).unwrap_or(""));
    if line.is_empty() { line = digits(disp.trim_start_matches(|c: char| !c.is_ascii_digit())); }
    let kind = dbg.split("kind: ").nth(1).unwrap_or("").chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    Out::Err { line: line.parse().unwrap_or(0), kind, disp }
}

pub enum Val {
    O(obj::ObjectSet),
    M(mtl::MaterialSet),
}

/// What a load returned, still in the library's own types.
pub enum Raw {
    O(Result<obj::ObjectSet, obj::ParseError>),
    M(Result<mtl::MaterialSet, mtl::ParseError>),
}

impl Raw {
    pub fn out(&self) -> Out {
        match self {
            Raw::O(Ok(s)) => Out::Ok(objset(s)),
            Raw::O(Err(e)) => oerr(e),
            Raw::M(Ok(s)) => Out::Ok(mtlset(s)),
            Raw::M(Err(e)) => merr(e),
        }
    }
}

pub fn load_raw(kind: char, text: &str, o: Opt) -> (Result<Raw, Stop>, Meter) {
    if kind == 'o' {
        let (r, m) = rt::call(o, || obj::parse(text));
        (r.map(Raw::O), m)
    } else {
        let (r, m) = rt::call(o, || mtl::parse(text));
        (r.map(Raw::M), m)
    }
}

pub fn load(kind: char, text: &str, o: Opt) -> (Out, Meter) {
    let (r, m) = load_raw(kind, text, o);
    (match r { Ok(r) => r.out(), Err(s) => Out::Stop(s) }, m)
}

/// A load of a text that is a piece of a longer buffer, at any alignment.
pub fn load_inside(kind: char, text: &str, o: Opt) -> (Out, Meter) {
    let h = crate::rng::fnv(7, text.as_bytes());
    let mut b = String::with_capacity(text.len() + 40);
    b.push_str(&"v 1 2 3\nnewmtl a\n"[..(h % 17) as usize]);
    let at = b.len();
    b.push_str(text);
    b.push_str(["", "1", "\n", "/1 2 3\n", "é", "#"][(h >> 8) as usize % 6]);
    load(kind, &b[at..at + text.len()], o)
}

/// What a process that has done nothing else makes of the text, printed; nothing if it
/// does not finish.
pub fn fresh(kind: char, text: &str) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().ok()?;
    let mut p = Command::new(exe).args(["one", &kind.to_string()]).env("VSIM_FIXED", "1")
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let _ = p.stdin.take()?.write_all(text.as_bytes());
    let o = p.wait_with_output().ok()?;
    if o.status.success() { String::from_utf8(o.stdout).ok() } else { None }
}

/// Is this outcome of a load what a fresh process gives, too?
pub fn pure(kind: char, text: &str, out: &Out) -> bool {
    fresh(kind, text).map_or(false, |f| f == format!("{:?}", out))
}

/// Does the outcome match the reference model (decision and content, not position)?
pub fn agrees(out: &Out, want: &Result<Canon, MErr>) -> Result<(), String> {
    match (out, want) {
        (Out::Ok(c), Ok(w)) if c == w => Ok(()),
        (Out::Ok(c), Ok(w)) => Err(format!("loaded data differ from the text: {}", diff(c, w))),
        (Out::Err { .. }, Err(_)) => Ok(()),
        (Out::Ok(_), Err(e)) => Err(format!("accepted a text with {} at line {}", e.kinds[0], e.line)),
        (Out::Err { line, kind, .. }, Ok(_)) => Err(format!("rejected a sound text: {} at line {}", kind, line)),
        (Out::Stop(s), _) => Err(format!("load ended with {:?}", s)),
    }
}

/// First difference in words.
pub fn diff(a: &Canon, b: &Canon) -> String {
    fn seq<T: PartialEq + std::fmt::Debug>(what: &str, a: &[T], b: &[T]) -> Option<String> {
        if a == b { return None; }
        let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        Some(format!("{}[{}]: got {:?}, expected {:?} (lengths {} / {})", what, i, a.get(i), b.get(i), a.len(), b.len()))
    }
    match (a, b) {
        (Canon::Obj(a), Canon::Obj(b)) => {
            if let Some(d) = seq("mtllib", &a.libs, &b.libs) { return d; }
            for (i, (x, y)) in a.objs.iter().zip(&b.objs).enumerate() {
                if x == y { continue; }
                if x.name != y.name { return format!("object {} name {:?} vs {:?}", i, x.name, y.name); }
                let d = seq("v", &x.v, &y.v).or(seq("vt", &x.vt, &y.vt)).or(seq("vn", &x.vn, &y.vn))
                    .or(seq("group", &x.groups, &y.groups)).or(seq("smooth", &x.smooth, &y.smooth))
                    .or(seq("element", &x.elems, &y.elems)).or(seq("shape", &x.shapes, &y.shapes))
                    .or(seq("geometry", &x.geoms, &y.geoms));
                return format!("object {}: {}", i, d.unwrap_or_default());
            }
            format!("{} objects vs {}", a.objs.len(), b.objs.len())
        }
        (Canon::Mtl(a), Canon::Mtl(b)) => seq("material", a, b).unwrap_or_default(),
        _ => "kinds differ".into(),
    }
}

pub fn hash_out(o: &Out) -> u64 {
    crate::rng::fnv(7, format!("{:?}", o).as_bytes())
}
