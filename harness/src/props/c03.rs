//! Point in triangle.
use super::h;
use crate::geo::*;
use cgar::kernel::predicates::{self as kp, TrianglePoint};
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use rt::*;

#[derive(PartialEq, Clone, Copy)]
enum W {
    Off,
    Edge,
    Vertex,
    In,
}
fn of(t: TrianglePoint) -> W {
    match t {
        TrianglePoint::Off => W::Off,
        TrianglePoint::OnEdge => W::Edge,
        TrianglePoint::OnVertex => W::Vertex,
        TrianglePoint::In => W::In,
    }
}
fn mark(w: W) {
    reach(match w {
        W::Off => "off",
        W::Edge => "edge",
        W::Vertex => "vertex",
        W::In => "in",
    });
}
/// from barycentric signs
fn classify(u: &Q, v: &Q, w: &Q) -> W {
    let s = [u.sgn(), v.sgn(), w.sgn()];
    if s.iter().any(|&x| x < 0) {
        return W::Off;
    }
    match s.iter().filter(|&&x| x == 0).count() {
        0 => W::In,
        1 => W::Edge,
        _ => W::Vertex,
    }
}
fn tri_2() {
    let (a, b, c, p) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("c"), vpt::<2>("p"));
    let got = of(kp::point_in_or_on_triangle(&pt::<R, 2>(&p), &pt(&a), &pt(&b), &pt(&c)));
    let o = orient2(&a, &b, &c);
    let os = o.sgn();
    if os == 0 {
        reach("degenerate");
        check(got == W::Off, "a degenerate triangle contains a point");
        return;
    }
    let k = q(os);
    let want = classify(&(orient2(&b, &c, &p) * &k), &(orient2(&c, &a, &p) * &k), &(orient2(&a, &b, &p) * &k));
    mark(want);
    check(got == want, "2D point-in-triangle classification is wrong");
}
fn tri_3() {
    let (a, b, c) = (vpt::<3>("a"), vpt::<3>("b"), vpt::<3>("c"));
    let (v, w) = (var("v"), var("w"));
    let (e, f) = (sub(&b, &a), sub(&c, &a));
    let p = add(&a, &add(&scale(&e, &v), &scale(&f, &w)));
    let n = cross(&e, &f);
    assume(!is_zero_vec(&n));
    let want = classify(&(q(1) - &v - &w), &v, &w);
    mark(want);
    let got = of(kp::point_in_or_on_triangle(&pt::<R, 3>(&p), &pt(&a), &pt(&b), &pt(&c)));
    check(got == want, "3D point-in-triangle classification is wrong");
}
fn tri_3_degenerate() {
    // c = a + k (b-a)
    let (a, b, p) = (vpt::<3>("a"), vpt::<3>("b"), vpt::<3>("p"));
    let k = var("k");
    let c = add(&a, &scale(&sub(&b, &a), &k));
    let rot = choose("rot", 3);
    let t = [pt::<R, 3>(&a), pt::<R, 3>(&b), pt::<R, 3>(&c)];
    let got = of(kp::point_in_or_on_triangle(&pt::<R, 3>(&p), &t[rot], &t[(rot + 1) % 3], &t[(rot + 2) % 3]));
    reach("degenerate");
    check(got == W::Off, "a degenerate triangle contains a point");
}
fn tri_old<const N: usize>(a: [Q; N], b: [Q; N], c: [Q; N], f: impl Fn(&[Q; N], &[Q; N], &[Q; N], &[Q; N]) -> W) {
    let (v, w) = (var("v"), var("w"));
    let p = add(&a, &add(&scale(&sub(&b, &a), &v), &scale(&sub(&c, &a), &w)));
    assume(!collinear(&a, &b, &c));
    let want = classify(&(q(1) - &v - &w), &v, &w);
    mark(want);
    check(f(&p, &a, &b, &c) == want, "point-in-triangle classification (barycentric variant) is wrong");
}
fn tri_old_2() {
    tri_old::<2>(vpt("a"), vpt("b"), vpt("c"), |p, a, b, c| {
        of(kp::point_in_or_on_triangle_old(&pt::<R, 2>(p), &pt(a), &pt(b), &pt(c)))
    });
}
fn tri_old_3() {
    tri_old::<3>(vpt("a"), vpt("b"), vpt("c"), |p, a, b, c| {
        of(kp::point_in_or_on_triangle_old(&pt::<R, 3>(p), &pt(a), &pt(b), &pt(c)))
    });
}
/// lazy numbers
fn tri_2_lazy() {
    let (a, b, c, p) = (ipt([1, -1]), ipt([5, 2]), ipt([0, 3]), vpt::<2>("p"));
    let want = classify(&orient2(&b, &c, &p), &orient2(&c, &a, &p), &orient2(&a, &b, &p));
    mark(want);
    let got = of(kp::point_in_or_on_triangle(&pt::<L, 2>(&p), &pt(&a), &pt(&b), &pt(&c)));
    check(got == want, "2D point-in-triangle classification of lazy numbers is wrong");
}
/// orientation and starting corner do not matter
fn tri_sym<const N: usize>(f: impl Fn(&[Q; N], &[Q; N], &[Q; N], &[Q; N]) -> W, p: [Q; N], t: [[Q; N]; 3]) {
    let a = f(&p, &t[0], &t[1], &t[2]);
    let b = f(&p, &t[1], &t[2], &t[0]);
    let c = f(&p, &t[0], &t[2], &t[1]);
    mark(a);
    check(a == b, "the answer depends on the starting corner");
    check(a == c, "the answer depends on the orientation of the triangle");
}
fn tri_sym_2() {
    tri_sym::<2>(|p, a, b, c| of(kp::point_in_or_on_triangle(&pt::<R, 2>(p), &pt(a), &pt(b), &pt(c))), vpt("p"), [vpt("a"), vpt("b"), vpt("c")]);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C03", tri_2, 0, ["off", "edge", "vertex", "in", "degenerate"], "all eight coordinates any real"),
        h!("C03", tri_3, 0, ["off", "edge", "vertex", "in"], "any non-degenerate triangle in space, any point of its plane"),
        h!("C03", tri_3_degenerate, 0, ["degenerate"], "any degenerate triangle in space with two distinct or equal corners, any point"),
        h!("C03", tri_old_2, 0, ["off", "edge", "vertex", "in"], "barycentric variant: any non-degenerate triangle, any point"),
        h!("C03", tri_old_3, 0, ["off", "edge", "vertex", "in"], "barycentric variant: any non-degenerate triangle in space, any point of its plane"),
        h!("C03", tri_2_lazy, 0, ["off", "edge", "vertex", "in"], "lazy numbers: one triangle, any point"),
        h!("C03", tri_sym_2, 0, ["off", "edge", "vertex", "in"], "all eight coordinates any real"),
    ]
}
