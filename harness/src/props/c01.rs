//! Orientation and in-circle signs.
use super::h;
use crate::geo::*;
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::kernel::{orient, predicates as kp, Kernel2, Kernel3};
use cgar::numeric::cgar_f64::CgarF64 as F;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;

fn lbl(d: &Q) -> i32 {
    let s = d.sgn();
    reach(if s > 0 { "positive" } else if s < 0 { "negative" } else { "zero" });
    s
}
fn orient_free_2() {
    let (a, b, c) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("c"));
    let got = back(&orient(&[pt::<R, 2>(&a), pt(&b), pt(&c)]));
    let want = lbl(&orient2(&a, &b, &c));
    check(got.sgn() == want, "2D orientation has the wrong sign");
}
fn orient_free_3() {
    let (a, b, c, d) = (vpt::<3>("a"), vpt::<3>("b"), vpt::<3>("c"), vpt::<3>("d"));
    let got = back(&orient(&[pt::<R, 3>(&a), pt(&b), pt(&c), pt(&d)]));
    let want = lbl(&orient3(&a, &b, &c, &d));
    check(got.sgn() == want, "3D orientation has the wrong sign");
}
fn orient_free_lazy_2() {
    let (a, b, c) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("c"));
    let got = back(&orient(&[pt::<L, 2>(&a), pt(&b), pt(&c)]));
    let want = lbl(&orient2(&a, &b, &c));
    check(got.sgn() == want, "2D orientation of lazy numbers has the wrong sign");
}
fn rounding_noise(ps: &[&[Q]], det: &Q) -> bool {
    let mut m = q(1);
    for p in ps {
        for x in p.iter() {
            m = m + x.absq();
        }
    }
    let mut b = m.clone();
    for _ in 1..ps.len() - 1 {
        b = b * m.clone();
    }
    det.absq() * q(1_000_000_000) * q(1000) < b
}
fn orient_kernel() {
    let (a, b, c) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("c"));
    let got = f_to_q(F64Kernel::orient2d(&pt::<F, 2>(&a), &pt(&b), &pt(&c)).0);
    let want = lbl(&orient2(&a, &b, &c));
    let g = got.sgn();
    // outside symbolic execution doubles round: a sign may be lost within rounding error
    check(g == want || !SYMBOLIC && rounding_noise(&[&a[..], &b[..], &c[..]], &orient2(&a, &b, &c)), "kernel orient2d has the wrong sign");
}
fn orient_kernel_3() {
    let (a, b, c, d) = (vpt::<3>("a"), vpt::<3>("b"), vpt::<3>("c"), vpt::<3>("d"));
    let got = f_to_q(F64Kernel::orient3d(&pt::<F, 3>(&a), &pt(&b), &pt(&c), &pt(&d)).0);
    let want = lbl(&orient3(&a, &b, &c, &d));
    let g = got.sgn();
    check(g == want || !SYMBOLIC && rounding_noise(&[&a[..], &b[..], &c[..], &d[..]], &orient3(&a, &b, &c, &d)), "kernel orient3d has the wrong sign");
}
fn eps() -> Q {
    // the documented tolerance, 1e-10 as a double
    f_to_q(fconst(1e-10))
}
fn abssum(ps: &[&P2]) -> Q {
    let mut r = q(0);
    for p in ps {
        r = r + p[0].absq() + p[1].absq();
    }
    r
}
fn orient2d_n<T: Scalar>()
where
    for<'a> &'a T: std::ops::Sub<&'a T, Output = T> + std::ops::Mul<&'a T, Output = T> + std::ops::Add<&'a T, Output = T> + std::ops::Div<&'a T, Output = T> + std::ops::Neg<Output = T>,
{
    let (a, b, c) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("c"));
    let got = back(&kp::orient2d(&pt::<T, 2>(&a), &pt(&b), &pt(&c)));
    let det = orient2(&a, &b, &c);
    let g = got.sgn();
    reach(if g > 0 { "positive" } else if g < 0 { "negative" } else { "zero" });
    if g != 0 {
        check(det.sgn() == g, "orient2d reports the opposite sign");
    } else {
        let band = eps() * abssum(&[&a, &b, &c]);
        check(!(det.absq() - band).is_pos(), "orient2d reports zero outside the tolerance band");
    }
}
fn orient2d_exact() {
    orient2d_n::<R>()
}
fn orient2d_lazy() {
    orient2d_n::<L>()
}
fn orient2d_perm() {
    let (a, b, c) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("c"));
    let (pa, pb, pc) = (pt::<R, 2>(&a), pt::<R, 2>(&b), pt::<R, 2>(&c));
    let s0 = back(&kp::orient2d(&pa, &pb, &pc)).sgn();
    let s1 = back(&kp::orient2d(&pb, &pc, &pa)).sgn();
    let s2 = back(&kp::orient2d(&pb, &pa, &pc)).sgn();
    reach("all");
    check(s0 == s1, "a cyclic shift changes the orientation");
    check(s0 == -s2, "a swap does not reverse the orientation");
}
fn incircle_det(a: &P2, b: &P2, c: &P2, d: &P2) -> Q {
    let (u, v, w) = (sub(a, d), sub(b, d), sub(c, d));
    let (u2, v2, w2) = (dot(&u, &u), dot(&v, &v), dot(&w, &w));
    u2 * cross2(&v, &w) + v2 * cross2(&w, &u) + w2 * cross2(&u, &v)
}
/// One of the four points anywhere, the others fixed.
fn incircle_one() {
    let fixed: [[[(i32, i32); 2]; 3]; 3] = [
        [[(1, 1), (2, 1)], [(4, 1), (1, 1)], [(2, 1), (5, 1)]],
        [[(-3, 1), (1, 2)], [(1, 4), (-2, 1)], [(1, 1), (3, 1)]],
        [[(0, 1), (0, 1)], [(1, 3), (0, 1)], [(0, 1), (1, 7)]],
    ];
    let k = choose("which point is free", 4);
    let set = choose("fixed points", fixed.len());
    let x = vpt::<2>("x");
    let mut pts: Vec<P2> = fixed[set].iter().map(|r| [frac(r[0].0, r[0].1), frac(r[1].0, r[1].1)]).collect();
    pts.insert(k, x);
    incircle_check(&pts[0], &pts[1], &pts[2], &pts[3]);
}
/// A symbolic coordinate in two of the points.
fn incircle_mixed() {
    let k = choose("axes", 2);
    let v: Vec<Q> = (0..2).map(|i| var(&format!("x{}", i))).collect();
    let mk = |i: usize, c: Q| -> P2 { if k == 0 { [v[i].clone(), c] } else { [c, v[i].clone()] } };
    incircle_check(&mk(0, q(0)), &[q(2), q(5)], &mk(1, q(3)), &[q(-1), q(1)]);
}
fn incircle_check(a: &P2, b: &P2, c: &P2, d: &P2) {
    let got = back(&kp::incircle(&pt::<R, 2>(a), &pt(b), &pt(c), &pt(d)));
    let det = incircle_det(a, b, c, d);
    let g = got.sgn();
    reach(if g > 0 { "positive" } else if g < 0 { "negative" } else { "zero" });
    check(det.sgn() == g, "incircle reports a wrong sign");
}
/// d on a known circle through a, b, c: inside, on and outside by construction.
fn incircle_circle() {
    // circle around (p, s) through a=(p+r, s), b=(p, s+r), c=(p-r, s)
    let (p, sy, r) = (var("p"), var("s"), var_at("r", 2, 1));
    assume_pos(&(&r - q(1)));
    let d = vpt::<2>("d");
    let a = [&p + &r, sy.clone()];
    let b = [p.clone(), &sy + &r];
    let c = [&p - &r, sy.clone()];
    let got = back(&kp::incircle(&pt::<R, 2>(&a), &pt(&b), &pt(&c), &pt(&d))).sgn();
    let off = r.sq() - (&d[0] - &p).sq() - (&d[1] - &sy).sq();
    // keep clear of the band: |off| at least 1/1000, d within 10 radii
    let o = off.sgn();
    if o == 0 {
        reach("on");
        check(got == 0, "a point on the circle is not reported on it");
        return;
    }
    assume(off.absq() > frac(1, 1000));
    assume((&d[0] - &p).absq() < &r * q(10) && (&d[1] - &sy).absq() < &r * q(10));
    assume(r < q(100));
    reach(if o > 0 { "inside" } else { "outside" });
    check(got == o, "incircle disagrees with the distance to the centre");
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C01", orient_free_2, 0, ["positive", "negative", "zero"], "all six coordinates any real"),
        h!("C01", orient_free_3, 0, ["positive", "negative", "zero"], "all twelve coordinates any real"),
        h!("C01", orient_free_lazy_2, 0, ["positive", "negative", "zero"], "all six coordinates any real, lazy numbers"),
        h!("C01", orient_kernel, 0, ["positive", "negative", "zero"], "all six coordinates any real; double arithmetic taken without rounding"),
        h!("C01", orient_kernel_3, 0, ["positive", "negative", "zero"], "all twelve coordinates any real; double arithmetic taken without rounding"),
        h!("C01", orient2d_exact, 0, ["positive", "negative", "zero"], "all six coordinates any real"),
        h!("C01", orient2d_lazy, 0, ["positive", "negative", "zero"], "all six coordinates any real, lazy numbers"),
        h!("C01", orient2d_perm, 0, ["all"], "all six coordinates any real; all permutations follow from the cyclic shift and the swap"),
        h!("C01", incircle_one, 0, ["positive", "negative", "zero"], "each of the four points in turn anywhere, the other three from 3 fixed sets"),
        h!("C01", incircle_mixed, 0, ["positive", "negative", "zero"], "one free coordinate in two of the corners"),
        h!("C01", incircle_circle, 0, ["inside", "on", "outside"], "any centre, radius in (1,100), query within 10 radii"),
    ]
}
