//! Looking up a vertex by position.
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::edge_collapse::{CollapseOpts, Midpoint};
use cgar::numeric::cgar_f64::CgarF64 as D;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::ops::{Add, Div, Mul, Neg, Sub};

fn tol() -> Q {
    frac(1, 1_000_000)
}
/// Lengths are given in tenths of the tolerance; the lookup cell is nine.
fn unit() -> Q {
    frac(1, 10_000_000)
}
fn gap(a: &Q, b: &Q) -> Q {
    let d = a - b;
    if d.is_neg() {
        -d
    } else {
        d
    }
}
fn within<const N: usize>(a: &[Q; N], b: &[Q; N]) -> bool {
    (0..N).all(|i| gap(&a[i], &b[i]) <= tol())
}
/// A coordinate anywhere in [lo, hi] units.
fn coord(name: &str, lo: i32, hi: i32) -> Q {
    let x = var_at(name, lo + 3, 1);
    assume_nonneg(&(&x - &q(lo)));
    assume_nonneg(&(q(hi) - &x));
    x * unit()
}
/// What a request may answer, given what is already there.
fn judge<T: Scalar, const N: usize>(m: &Mesh<T, N>, had: &[[Q; N]], at: &[Q; N], got: (usize, bool)) {
    let (v, old) = got;
    check(v < m.vertices.len() && !m.vertices[v].removed, "the vertex exists");
    let p = unpt(&m.vertices[v].position);
    let exact = had.iter().any(|h| eqp(h, at));
    if old {
        check(v < had.len(), "an existing vertex is one that was there");
        check(m.vertices.len() == had.len(), "nothing is added when a vertex is reused");
        check(within(&p, at), "a reused vertex is within the tolerance");
        reach("reused");
    } else {
        check(!exact, "an exact match is always reused");
        check(v == had.len() && m.vertices.len() == had.len() + 1, "a new vertex is appended");
        check(eqp(&p, at), "a new vertex is at the requested place");
        reach("added");
    }
    if exact {
        check(eqp(&p, at) || old, "an exact match is found");
    }
    for (i, h) in had.iter().enumerate() {
        check(eqp(&unpt(&m.vertices[i].position), h), "no vertex moves");
    }
}
fn one<T: Scalar, const N: usize>(axis: usize, lo: i32, hi: i32, reach_: i32)
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let mut m = Mesh::<T, N>::new();
    let mut p: [Q; N] = std::array::from_fn(|i| frac(7 + i as i32, 1 << 24));
    p[axis] = coord("p", lo, hi);
    let mut at = p.clone();
    at[axis] = &p[axis] + &coord("d", -reach_, reach_);
    if select("how", 2) == 0 {
        m.add_vertex(pt::<T, N>(&p));
    } else {
        let got = m.get_or_insert_vertex(&pt::<T, N>(&p));
        judge(&m, &[], &p, got);
    }
    let got = m.get_or_insert_vertex(&pt::<T, N>(&at));
    judge(&m, &[p.clone()], &at, got);
    let mut had = vec![p];
    if !got.1 {
        had.push(at.clone());
    }
    // Asking again finds the same answer.
    let again = m.get_or_insert_vertex(&pt::<T, N>(&at));
    check(again == (got.0, true), "asking twice gives the same vertex");
    judge(&m, &had, &at, again);
    reach("end");
}
fn axis_x() {
    one::<R, 3>(0, -12, 12, 21)
}
fn axis_y() {
    one::<R, 3>(1, -12, 12, 21)
}
fn axis_z() {
    one::<R, 3>(2, -12, 12, 21)
}
fn plane_x() {
    one::<R, 2>(0, -12, 12, 21)
}
fn plane_y() {
    one::<R, 2>(1, -12, 12, 21)
}
fn lazy_x() {
    one::<L, 3>(0, -10, 10, 12)
}
/// Displaced along two axes at once, across a cell corner.
fn corner<T: Scalar, const N: usize>(a: usize, b: usize, width: i32, far: i32)
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let mut m = Mesh::<T, N>::new();
    let mut p: [Q; N] = std::array::from_fn(|i| frac(-7 + i as i32, 3) * unit());
    p[a] = coord("p", -width, width);
    p[b] = coord("r", -width, width);
    let mut at = p.clone();
    at[a] = &p[a] + &coord("d", -far, far);
    at[b] = &p[b] + &coord("e", -far, far);
    m.add_vertex(pt::<T, N>(&p));
    let got = m.get_or_insert_vertex(&pt::<T, N>(&at));
    judge(&m, &[p], &at, got);
    reach("end");
}
fn corner_xy() {
    corner::<R, 3>(0, 1, 9, 12)
}
fn corner_yz() {
    corner::<R, 3>(1, 2, 9, 12)
}
fn corner_zx() {
    corner::<R, 2>(1, 0, 9, 12)
}
/// Three requests in a row; the answers are judged against all that was there.
fn three<T: Scalar, const N: usize>(axis: usize)
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let mut m = Mesh::<T, N>::new();
    let mut had: Vec<[Q; N]> = vec![];
    let base: [Q; N] = std::array::from_fn(|i| frac(5 - 4 * i as i32, 3) * unit());
    for k in 0..3 {
        let mut at = base.clone();
        at[axis] = coord(&format!("p{}", k), -6, 13);
        let got = m.get_or_insert_vertex(&pt::<T, N>(&at));
        judge(&m, &had, &at, got);
        if !got.1 {
            had.push(at);
        }
    }
    reach("end");
}
fn three_x() {
    three::<R, 3>(0)
}
fn three_y() {
    three::<R, 2>(1)
}
/// Coordinates far from the origin, where keys are large.
fn far() {
    let big = [q(0), q(1000), q(-1000), q(1_000_000), q(-1_000_000)];
    let off = big[select("at", big.len())].clone();
    let mut m = Mesh::<R, 3>::new();
    let p = [&off + &coord("p", -3, 12), q(1), q(-1)];
    let at = [&p[0] + &coord("d", -12, 12), q(1), q(-1)];
    m.add_vertex(pt::<R, 3>(&p));
    let got = m.get_or_insert_vertex(&pt::<R, 3>(&at));
    judge(&m, &[p], &at, got);
    reach("end");
}
/// Vertices a whole lookup range apart share a key but are not merged.
fn wrap() {
    let cell = frac(9, 10) * tol();
    // 42-bit key lanes repeat after this length
    let turn = cell * q(1 << 21) * q(1 << 21);
    let mut m = Mesh::<R, 3>::new();
    let i = select("axis", 3);
    let p = [q(0), q(0), q(0)];
    let mut at = p.clone();
    at[i] = if select("sign", 2) == 0 { turn } else { -turn };
    m.add_vertex(pt::<R, 3>(&p));
    let got = m.get_or_insert_vertex(&pt::<R, 3>(&at));
    judge(&m, &[p], &at, got);
    check(!got.1, "far points stay apart");
    reach("added");
    reach("end");
}
/// A vertex that was removed is not handed out again.
fn after_collapse() {
    let mut m = fixed::<R, 3>(6);
    for t in [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let ends = [(0, 1), (1, 2), (3, 2), (4, 5), (5, 3)][select("edge", 5)];
    let plan = m.collapse_edge_begin_vertices(ends.0, ends.1, &Midpoint, &CollapseOpts::default());
    let Ok(plan) = plan else { return };
    if m.collapse_edge_commit(plan).is_err() {
        return;
    }
    let gone = unpt(&m.vertices[ends.1].position);
    let n = m.vertices.len();
    let got = m.get_or_insert_vertex(&pt::<R, 3>(&gone));
    check(got == (n, false), "the place of a removed vertex gets a new one");
    check(!m.vertices[got.0].removed, "a vertex handed out is live");
    reach("end");
}

pub fn all() -> Vec<Harness> {
    let span = "one vertex within 1.2 tolerances of the origin on either side, request within 2.1 tolerances of it along one axis, then repeated";
    vec![
        h!("C16", axis_x, 0, ["end", "reused", "added"], span),
        h!("C16", axis_y, 0, ["end", "reused", "added"], span),
        h!("C16", axis_z, 0, ["end", "reused", "added"], span),
        h!("C16", plane_x, 0, ["end", "reused", "added"], span),
        h!("C16", plane_y, 0, ["end", "reused", "added"], span),
        h!("C16", lazy_x, 0, ["end", "reused", "added"], "lazy numbers; vertex and displacement within about one tolerance"),
        h!("C16", corner_xy, 0, ["end", "reused", "added"], "vertex within a cell of the origin, displaced by up to 1.2 tolerances along two axes"),
        h!("C16", corner_yz, 0, ["end", "reused", "added"], "vertex within a cell of the origin, displaced by up to 1.2 tolerances along two axes"),
        h!("C16", corner_zx, 0, ["end", "reused", "added"], "vertex within a cell of the origin, displaced by up to 1.2 tolerances along two axes"),
        h!("C16", three_x, 0, ["end", "reused", "added"], "three requests anywhere over two cells"),
        h!("C16", three_y, 0, ["end", "reused", "added"], "three requests anywhere over two cells"),
        h!("C16", far, 0, ["end", "reused", "added"], "five offsets up to a million units, 1.2 tolerances around"),
        h!("C16", wrap, 0, ["end", "added"], "points one key period apart on each axis"),
        h!("C16", after_collapse, 0, ["end"], "an octahedron, five edges collapsed, the removed place requested"),
    ]
}
