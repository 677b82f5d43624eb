//! Writing meshes to files and reading them back.
use super::c10::shapes;
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::vector::{Cross3, Vector, VectorOps};
use cgar::io::{obj, off, stl};
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64 as D;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::collections::BTreeSet;
use std::io;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Obj,
    Off,
    Stl,
}
use Kind::*;

/// A generic function over the scalar with all its bounds.
macro_rules! over {
    ($(#[$m:meta])* fn $n:ident<$T:ident>($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block) => {
        $(#[$m])*
        fn $n<$T: Scalar + From<F>>($($a: $t),*) $(-> $r)?
        where
            Point<$T, 3>: PointOps<$T, 3, Vector = Vector<$T, 3>>,
            Vector<$T, 3>: VectorOps<$T, 3> + Cross3<$T>,
            for<'a> &'a $T: Add<&'a $T, Output = $T>
                + Sub<&'a $T, Output = $T>
                + Mul<&'a $T, Output = $T>
                + Div<&'a $T, Output = $T>
                + Neg<Output = $T>,
        $b
    };
}

over! {
fn write<T>(kind: Kind, m: &Mesh<T, 3>, p: &std::path::Path) -> io::Result<()> {
    match kind {
        Obj => obj::write_obj(m, p),
        Off => off::write_off(m, p),
        Stl => stl::write_stl(m, p),
    }
}}
over! {
fn read<T>(kind: Kind, p: &std::path::Path) -> io::Result<Mesh<T, 3>> {
    match kind {
        Obj => obj::read_obj(p),
        Off => off::read_off(p),
        Stl => stl::read_stl(p),
    }
}}
over! {
fn through<T>(kind: Kind, m: &Mesh<T, 3>) -> Mesh<T, 3> {
    let p = scratch("mesh");
    let w = write(kind, m, &p).is_ok();
    let r = read(kind, &p);
    drop_file(&p);
    check(w, "the mesh can be written");
    match r {
        Ok(r) => r,
        Err(_) => fail_path("a written mesh can be read"),
    }
}}
over! {
fn used<T>(m: &Mesh<T, 3>) -> BTreeSet<usize> {
    live(m).values().flat_map(|t| t.iter().cloned()).collect()
}}
over! {
/// Same corners at the same positions, same faces turned the same way.
fn same<T>(kind: Kind, m: &Mesh<T, 3>, r: &Mesh<T, 3>, at: &[[Q; 3]]) {
    valid(r);
    // a list of facets knows no loose corners
    let have: Vec<usize> = match kind {
        Stl => used(m).into_iter().collect(),
        _ => (0..m.vertices.len()).filter(|&i| !m.vertices[i].removed).collect(),
    };
    let got: Vec<usize> = (0..r.vertices.len()).filter(|&i| !r.vertices[i].removed).collect();
    check(have.len() == got.len(), "reading back gives another number of vertices");
    let mut map = vec![usize::MAX; m.vertices.len()];
    for &i in &have {
        for &j in &got {
            if eqp(&at[i], &unpt(&r.vertices[j].position)) {
                map[i] = j;
            }
        }
        check(map[i] != usize::MAX, "a vertex is not read back where it was");
    }
    let want: BTreeSet<Tri> = tris(m).iter().map(|t| canon([map[t[0]], map[t[1]], map[t[2]]])).collect();
    check(want == tris(r) && live(r).len() == want.len(), "reading back gives other faces");
}}
fn built<T>(nv: usize, ts: &[Tri]) -> Mesh<T, 3>
where
    T: Scalar + From<F>,
    Point<T, 3>: PointOps<T, 3, Vector = Vector<T, 3>>,
    Vector<T, 3>: VectorOps<T, 3> + Cross3<T>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let mut m = fixed::<T, 3>(nv);
    for t in ts {
        m.add_triangle(t[0], t[1], t[2]);
    }
    m
}
over! {
/// Moves the vertices: one to any doubles in a small box, the others to fixed
/// places of the same size.
fn position<T>(m: &mut Mesh<T, 3>, scale: f64, which: usize) -> Vec<[Q; 3]> {
    let mut at = vec![];
    for i in 0..m.vertices.len() {
        let p = place(i);
        let c: [F; 3] = std::array::from_fn(|k| {
            let b = p[k] as f64 * scale;
            if i != which {
                return fconst(b);
            }
            let f = fvar(["x", "y", "z"][k]);
            let (lo, x) = (f_to_q(fconst(b)), f_to_q(f));
            assume_nonneg(&(&x - &lo));
            assume_nonneg(&(lo + frac(1, 1 << 20) - x));
            f
        });
        at.push(c.clone().map(f_to_q));
        m.vertices[i].position = Point { coords: c.map(|f| T::from(f)) };
    }
    at
}}
const SCALES: [f64; 4] = [1.0, 0.001, -4096.0, 123456.7];

over! {
/// Any corner of any shape anywhere.
fn plain<T>(kind: Kind) {
    let s = shapes();
    let (name, nv, ts) = &s[select("shape", s.len())];
    let mut m = built::<T>(*nv, ts);
    let which = select("which", *nv);
    let at = position(&mut m, SCALES[(which + name.len()) % 4], which);
    let r = through(kind, &m);
    same(kind, &m, &r, &at);
    reach(if *name == "tetrahedron" || *name == "octahedron" { "closed" } else { "open" });
}}
fn plain_obj() {
    plain::<D>(Obj);
}
fn plain_off() {
    plain::<D>(Off);
}
fn plain_stl() {
    plain::<D>(Stl);
}
over! {
/// After removing, putting back and collapsing.
fn changed<T>(kind: Kind) {
    let s = shapes();
    let (name, nv, ts) = &s[select("shape", s.len())];
    let mut m = built::<T>(*nv, ts);
    let ts: Vec<Tri> = live(&m).values().cloned().collect();
    // collapses are specified for surfaces only
    match select("change", if *name == "bow tie" || *name == "three fans" { 2 } else { 3 }) {
        0 => {
            let n = select("from", ts.len());
            let k = 1 + select("count", 3);
            for i in 0..k.min(ts.len() - n) {
                m.remove_triangle(n + i);
            }
            reach("removed");
        }
        1 => {
            let n = select("face", ts.len());
            let t = live(&m)[&n];
            m.remove_triangle(n);
            m.add_triangle(t[0], t[1], t[2]);
            reach("again");
        }
        _ => {
            let t = ts[select("face", ts.len())];
            let i = select("side", 3);
            if m.collapse_edge(t[i], t[(i + 1) % 3]).is_ok() {
                reach("collapsed");
            }
        }
    }
    let which = (0..*nv).find(|&i| !m.vertices[i].removed).unwrap();
    let at = position(&mut m, 1.0, which);
    let r = through(kind, &m);
    same(kind, &m, &r, &at);
}}
fn changed_obj() {
    changed::<R>(Obj);
}
fn changed_off() {
    changed::<R>(Off);
}
fn changed_stl() {
    changed::<R>(Stl);
}
/// The other number types.
fn exact() {
    let kind = [Obj, Off, Stl][select("kind", 3)];
    if select("lazy", 2) == 1 {
        plain::<L>(kind);
    } else {
        plain::<R>(kind);
    }
}

const OBJ: &str = "v 0 0 0\nv 4 0 0\nv 0 3 0\nv 4 3 1\nf 1 2 3\nf 2 4 3\n";
const OFF: &str = "OFF\n4 2 0\n0 0 0\n4 0 0\n0 3 0\n4 3 1\n3 0 1 2\n3 1 3 2\n";
const STL: &str = "solid a\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 4 0 0\nvertex 0 3 0\nendloop\nendfacet\nfacet normal 0 0 1\nouter loop\nvertex 4 0 0\nvertex 4 3 1\nvertex 0 3 0\nendloop\nendfacet\nendsolid a\n";
const KINDS: [(Kind, &str); 3] = [(Obj, OBJ), (Off, OFF), (Stl, STL)];

fn parse(kind: Kind, text: &str) -> io::Result<Mesh<R, 3>> {
    let p = scratch("text");
    put_file(&p, text);
    let r = read(kind, &p);
    drop_file(&p);
    r
}
fn corner(m: &Mesh<R, 3>, t: Tri) -> [[Q; 3]; 3] {
    t.map(|i| unpt(&m.vertices[i].position))
}
/// The two triangles of the sample files.
fn sample(m: &Mesh<R, 3>) {
    valid(m);
    check(m.vertices.len() == 4, "the file has four vertices");
    let a = [ipt([0, 0, 0]), ipt([4, 0, 0]), ipt([0, 3, 0]), ipt([4, 3, 1])];
    let want = [[0, 1, 2], [1, 3, 2]];
    check(live(m).len() == 2, "the file has two faces");
    for w in want {
        let found = live(m).values().any(|&t| {
            let c = corner(m, t);
            (0..3).any(|r| (0..3).all(|k| eqp(&c[(k + r) % 3], &a[w[k]])))
        });
        check(found, "a face of the file is missing");
    }
}
/// One word of a file left out or replaced: an error or a valid mesh.
fn damaged() {
    let (kind, text) = KINDS[select("kind", 3)];
    let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split(' ').collect()).collect();
    let n: usize = lines.iter().map(|l| l.len()).sum();
    let at = select("at", n);
    let with = ["", "x", "-1", "99", "0", "1e400000000", "7/7/7"][select("with", 7)];
    let mut k = 0;
    let mut out = String::new();
    for l in &lines {
        for w in l {
            out += if k == at { with } else { w };
            out += " ";
            k += 1;
        }
        out += "\n";
    }
    match parse(kind, &out) {
        Ok(m) => {
            valid(&m);
            check(live(&m).len() <= 2, "more faces than in the file");
            reach("read");
        }
        Err(_) => reach("refused"),
    }
}
/// The file ends early.
fn cut() {
    let (kind, text) = KINDS[select("kind", 3)];
    let n = select("length", text.len());
    match parse(kind, &text[..n]) {
        Ok(m) => {
            valid(&m);
            check(live(&m).len() <= 2, "more faces than in the file");
            reach("read");
        }
        Err(_) => reach("refused"),
    }
}
/// Blank lines, comments and records that are not used change nothing.
fn extras() {
    let (kind, text) = KINDS[select("kind", 3)];
    let more: &[&str] = match kind {
        Obj => &["", "# a comment", "vn 0 0 1", "vt 0 1", "g part", "  ", "usemtl m", "o name"],
        Off => &["", "# a comment", "   ", "#"],
        Stl => &["", "   ", "color 1 0 0"],
    };
    let extra = more[select("extra", more.len())];
    let lines: Vec<&str> = text.lines().collect();
    let at = select("at", lines.len() + 1);
    let indent = select("indent", 2) == 1;
    let mut out = String::new();
    for i in 0..=lines.len() {
        if i == at {
            out += extra;
            out += "\n";
        }
        if i < lines.len() {
            out += if indent { "  " } else { "" };
            out += lines[i];
            out += if indent { " \r\n" } else { "\n" };
        }
    }
    match parse(kind, &out) {
        Ok(m) => sample(&m),
        Err(_) => check(false, "unused lines are skipped"),
    }
    reach("end");
}
/// Faces of an OFF file that are not triangles are passed over.
fn polygons() {
    let faces = ["3 0 1 2", "3 1 3 2"];
    let (at, size) = (select("at", 3), [1, 2, 4, 5, 6][select("size", 5)]);
    let first = select("first", 4);
    let mut out = String::from("OFF\n4 3 0\n0 0 0\n4 0 0\n0 3 0\n4 3 1\n");
    for i in 0..3 {
        if i == at {
            out += &size.to_string();
            for k in 0..size {
                out += &format!(" {}", (first + k) % 4);
            }
            out += "\n";
        }
        if i < 2 {
            out += faces[i];
            out += "\n";
        }
    }
    match parse(Off, &out) {
        Ok(m) => sample(&m),
        Err(_) => check(false, "faces that are not triangles are passed over"),
    }
    reach("end");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C19", plain_obj, 0, ["closed", "open"], "9 shapes, one vertex at any doubles in a box of 2^-20, 4 sizes"),
        h!("C19", plain_off, 0, ["closed", "open"], "9 shapes, one vertex at any doubles in a box of 2^-20, 4 sizes"),
        h!("C19", plain_stl, 0, ["closed", "open"], "9 shapes, one vertex at any doubles in a box of 2^-20, 4 sizes"),
        h!("C19", changed_obj, 0, ["removed", "again", "collapsed"], "9 shapes after removing up to 3 faces, putting one back or collapsing an edge"),
        h!("C19", changed_off, 0, ["removed", "again", "collapsed"], "9 shapes after removing up to 3 faces, putting one back or collapsing an edge"),
        h!("C19", changed_stl, 0, ["removed", "again", "collapsed"], "9 shapes after removing up to 3 faces, putting one back or collapsing an edge"),
        h!("C19", exact, 0, ["closed", "open"], "as above with rational and lazy exact coordinates"),
        h!("C19", damaged, 0, ["read", "refused"], "one word of a two-face file of each format left out or replaced by 6 others"),
        h!("C19", cut, 0, ["read", "refused"], "a two-face file of each format cut off anywhere"),
        h!("C19", polygons, 0, ["end"], "a face of 1, 2, 4, 5 or 6 corners anywhere among the faces of an OFF file"),
        h!("C19", extras, 0, ["end"], "blank, comment and unused lines anywhere in a two-face file of each format"),
    ]
}
