//! Equality, collinearity, on-segment, degeneracy.
use super::h;
use crate::geo::*;
use cgar::geometry::canonical_edge::CanonicalEdge;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::kernel::predicates as kp;
use cgar::numeric::cgar_rational::CgarRational as R;
use rt::*;

fn equal_n<const N: usize>() {
    let (a, b) = (vpt::<N>("a"), vpt::<N>("b"));
    let got = kp::are_equal(&pt::<R, N>(&a), &pt::<R, N>(&b));
    let want = eqp(&a, &b);
    reach(if want { "equal" } else { "different" });
    check(got == want, "are_equal differs from coordinate equality");
}
fn equal_2() {
    equal_n::<2>()
}
fn equal_3() {
    equal_n::<3>()
}
fn collinear_n<const N: usize>() {
    let (a, b, c) = (vpt::<N>("a"), vpt::<N>("b"), vpt::<N>("c"));
    assume(!eqp(&a, &b));
    let got = kp::are_collinear(&pt::<R, N>(&a), &pt::<R, N>(&b), &pt::<R, N>(&c));
    let want = collinear(&a, &b, &c);
    reach(if want { "collinear" } else { "not collinear" });
    check(got == want, "are_collinear differs from rank of the difference vectors");
}
fn collinear_2() {
    collinear_n::<2>()
}
fn collinear_3() {
    collinear_n::<3>()
}
fn on_segment_n<const N: usize>() {
    let (a, b, p) = (vpt::<N>("a"), vpt::<N>("b"), vpt::<N>("p"));
    let seg = Segment::new(&pt::<R, N>(&a), &pt::<R, N>(&b));
    let got = kp::is_point_on_segment(&pt::<R, N>(&p), &seg);
    let want = on_segment(&p, &a, &b);
    reach(if want { "on" } else { "off" });
    check(got == want, "is_point_on_segment differs from the convex combination test");
}
fn on_segment_2() {
    on_segment_n::<2>()
}
fn on_segment_3() {
    on_segment_n::<3>()
}

fn seg_method_n<const N: usize>()
where
    Point<R, N>: PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: VectorOps<R, N>,
{
    let (a, u, v) = (vpt::<N>("a"), vpt::<N>("u"), vpt::<N>("v"));
    let (b, p) = (add(&a, &u), add(&a, &v));
    let seg = Segment::new(&pt::<R, N>(&a), &pt::<R, N>(&b));
    let got = seg.is_point_on(&pt::<R, N>(&p));
    let want = on_segment(&p, &a, &b);
    reach(if want { "on" } else { "off" });
    check(got == want, "Segment::is_point_on differs from the convex combination test");
    if want && !eqp(&a, &b) {
        let t = back(&seg.parameter_of_point(&pt::<R, N>(&p)));
        check(eqp(&lerp(&a, &b, &t), &p), "parameter_of_point does not reproduce the point");
    }
}
fn seg_method_2() {
    seg_method_n::<2>()
}
fn seg_method_3() {
    seg_method_n::<3>()
}
fn seg_basic_n<const N: usize>()
where
    Point<R, N>: PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: VectorOps<R, N>,
{
    let (a, b) = (vpt::<N>("a"), vpt::<N>("b"));
    let mut seg = Segment::new(&pt::<R, N>(&a), &pt::<R, N>(&b));
    let m = unpt(&seg.midpoint());
    check(eqp(&m, &lerp(&a, &b, &frac(1, 2))), "midpoint is not half way");
    let d = sub(&b, &a);
    check(back(&seg.length2()) == dot(&d, &d), "squared length");
    check((0..N).all(|i| back(&seg.direction()[i]) == d[i]), "direction");
    let inv = seg.inverse();
    check(eqp(&unpt(&inv.a), &b) && eqp(&unpt(&inv.b), &a), "inverse");
    seg.invert();
    check(eqp(&unpt(&seg.a), &b) && eqp(&unpt(&seg.b), &a), "invert");
    reach("all");
}
fn seg_basic_2() {
    seg_basic_n::<2>()
}
fn seg_basic_3() {
    seg_basic_n::<3>()
}
fn degenerate_n<const N: usize>() {
    let (a, u, v) = (vpt::<N>("a"), vpt::<N>("u"), vpt::<N>("v"));
    let (b, c) = (add(&a, &u), add(&a, &v));
    let got = kp::triangle_is_degenerate(&pt::<R, N>(&a), &pt::<R, N>(&b), &pt::<R, N>(&c));
    let want = collinear(&a, &b, &c);
    reach(if want { "flat" } else { "proper" });
    check(got == want, "triangle_is_degenerate differs from zero area");
}
fn degenerate_2() {
    degenerate_n::<2>()
}
fn degenerate_3() {
    degenerate_n::<3>()
}
fn param_n<const N: usize>()
where
    Point<R, N>: PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: VectorOps<R, N>,
{
    let (a, u, v) = (vpt::<N>("a"), vpt::<N>("u"), vpt::<N>("v"));
    let (b, p) = (add(&a, &u), add(&a, &v));
    let got = kp::point_u_on_segment(&pt::<R, N>(&a), &pt::<R, N>(&b), &pt::<R, N>(&p));
    let want = on_segment(&p, &a, &b);
    reach(if want { "on" } else { "off" });
    check(got.is_some() == want, "point_u_on_segment differs from the convex combination test");
    if let Some(t) = got {
        let t = back(&t);
        check(!t.is_neg() && !(q(1) - &t).is_neg(), "parameter outside [0,1]");
        check(eqp(&lerp(&a, &b, &t), &p), "parameter does not reproduce the point");
    }
}
fn param_2() {
    param_n::<2>()
}
fn param_3() {
    param_n::<3>()
}
/// The segment is a fixed direction scaled; the point and tolerance are free.
fn param_tol_n<const N: usize>(dirs: &[[i32; N]])
where
    Point<R, N>: PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: VectorOps<R, N>,
{
    let k = choose("direction", dirs.len());
    let a = vpt::<N>("a");
    let d: [Q; N] = ipt(dirs[k]);
    let v = vpt::<N>("v");
    let tol = var_at("tol", 1, 10);
    assume_pos(&tol);
    let (b, p) = (add(&a, &d), add(&a, &v));
    let got = kp::point_u_on_segment_with_tolerance(&pt::<R, N>(&a), &pt::<R, N>(&b), &pt::<R, N>(&p), &s::<R>(&tol));
    let l = dot(&d, &d);
    let (want, t) = if l.is_zero() {
        (!(tol.sq() - dot(&v, &v)).is_neg(), None)
    } else {
        let t = dot(&v, &d) / l;
        let tc = if t.is_neg() {
            q(0)
        } else if (&t - q(1)).is_pos() {
            q(1)
        } else {
            t.clone()
        };
        let e = sub(&v, &scale(&d, &tc));
        (!(tol.sq() - dot(&e, &e)).is_neg(), Some(t))
    };
    reach(if want { "near" } else { "far" });
    check(got.is_some() == want, "tolerance variant differs from the distance to the segment");
    if let (Some(g), Some(t)) = (got, t) {
        check(back(&g) == t, "parameter is not the projection onto the segment's line");
    }
}
fn param_tol_2() {
    param_tol_n::<2>(&[[1, 0], [0, -2], [3, 4], [0, 0], [-1, 2]])
}
fn param_tol_3() {
    param_tol_n::<3>(&[[1, 0, 0], [0, 0, -3], [1, -2, 2], [0, 0, 0]])
}
fn approx_equal() {
    let (a, u) = (vpt::<3>("a"), vpt::<3>("u"));
    let b = add(&a, &u);
    let got = kp::are_approximately_equal(&pt::<R, 3>(&a), &pt::<R, 3>(&b));
    let max = u.iter().map(|x| x.absq()).fold(q(0), |m, x| if x > m { x } else { m });
    if max < frac(9, 10_000_000) {
        reach("near");
        check(got, "points within the merge threshold are not approximately equal");
    } else if max > frac(11, 10_000_000) {
        reach("far");
        check(!got, "points farther apart than the merge threshold are approximately equal");
    }
}
fn canonical_n() {
    let (a, u, t) = (vpt::<3>("a"), vpt::<3>("u"), var("t"));
    let b = add(&a, &u);
    assume(!eqp(&a, &b));
    let swap = choose("swap", 2) == 1;
    let (pa, pb) = (pt::<R, 3>(&a), pt::<R, 3>(&b));
    let e = if swap { CanonicalEdge::new(&pb, &pa) } else { CanonicalEdge::new(&pa, &pb) };
    let (x, y) = (unpt(&e.a), unpt(&e.b));
    check((eqp(&x, &a) && eqp(&y, &b)) || (eqp(&x, &b) && eqp(&y, &a)), "endpoints of the canonical edge");
    let other = if swap { CanonicalEdge::new(&pa, &pb) } else { CanonicalEdge::new(&pb, &pa) };
    check(eqp(&unpt(&other.a), &x) && eqp(&unpt(&other.b), &y), "canonical edge depends on the direction");
    let p = lerp(&x, &y, &t);
    check(back(&e.parameter_t(&pt::<R, 3>(&p))) == t, "parameter along the canonical edge");
    reach("all");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C02", equal_2, 0, ["equal", "different"], "all coordinates real"),
        h!("C02", equal_3, 0, ["equal", "different"], "all coordinates real"),
        h!("C02", approx_equal, 0, ["near", "far"], "all coordinates real"),
        h!("C02", collinear_2, 0, ["collinear", "not collinear"], "all coordinates real, first two points different"),
        h!("C02", collinear_3, 0, ["collinear", "not collinear"], "all coordinates real, first two points different"),
        h!("C02", degenerate_2, 0, ["flat", "proper"], "all coordinates real"),
        h!("C02", degenerate_3, 0, ["flat", "proper"], "all coordinates real"),
        h!("C02", on_segment_2, 0, ["on", "off"], "all coordinates real"),
        h!("C02", on_segment_3, 0, ["on", "off"], "all coordinates real"),
        h!("C02", seg_method_2, 0, ["on", "off"], "all coordinates real"),
        h!("C02", seg_method_3, 0, ["on", "off"], "all coordinates real"),
        h!("C02", seg_basic_2, 0, ["all"], "all coordinates real"),
        h!("C02", seg_basic_3, 0, ["all"], "all coordinates real"),
        h!("C02", param_2, 0, ["on", "off"], "all coordinates real"),
        h!("C02", param_3, 0, ["on", "off"], "all coordinates real"),
        h!("C02", param_tol_2, 0, ["near", "far"], "5 segment vectors at any place, any point, any tolerance > 0"),
        h!("C02", param_tol_3, 0, ["near", "far"], "4 segment vectors at any place, any point, any tolerance > 0"),
        h!("C02", canonical_n, 0, ["all"], "all coordinates real, different endpoints"),
    ]
}
