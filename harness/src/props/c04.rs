//! Segment intersections.
use super::h;
use crate::geo::*;
use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
use cgar::geometry::intersection::*;
use cgar::geometry::segment::Segment;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::ops::{Add, Div, Mul, Sub};

#[derive(Clone, Debug)]
enum Got<const N: usize> {
    None,
    Point([Q; N]),
    Overlap([Q; N], [Q; N]),
}
fn inter2<T: Scalar>(a: &P2, b: &P2, c: &P2, d: &P2) -> Got<2>
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let r = segment_segment_intersection_2::<T>(&Segment::new(&pt(a), &pt(b)), &Segment::new(&pt(c), &pt(d)));
    match r {
        SegmentIntersection2::None => Got::None,
        SegmentIntersection2::Point(p) => Got::Point(unpt(&p)),
        SegmentIntersection2::Overlapping(s) => Got::Overlap(unpt(&s.a), unpt(&s.b)),
    }
}
fn inter3(a: &P3, b: &P3, c: &P3, d: &P3) -> Got<3> {
    match segment_segment_intersection_3::<R>(&Segment::new(&pt(a), &pt(b)), &Segment::new(&pt(c), &pt(d))) {
        SegmentIntersection3::None => Got::None,
        SegmentIntersection3::Point(p) => Got::Point(unpt(&p)),
        SegmentIntersection3::Overlapping(s) => Got::Overlap(unpt(&s.a), unpt(&s.b)),
    }
}
/// Whatever is reported is common to both segments.
fn sound<const N: usize>(g: &Got<N>, a: &[Q; N], b: &[Q; N], c: &[Q; N], d: &[Q; N]) {
    let both = |p: &[Q; N]| on_segment(p, a, b) && on_segment(p, c, d);
    match g {
        Got::None => reach("none"),
        Got::Point(p) => {
            reach("point");
            check(both(p), "reported point is not on both segments");
        }
        Got::Overlap(p, r) => {
            reach("overlap");
            check(both(p) && both(r), "reported overlap is not part of both segments");
        }
    }
}
/// x is a common point: it must be in what is reported.
fn complete<const N: usize>(g: &Got<N>, x: &[Q; N]) {
    match g {
        Got::None => check(false, "common point missed"),
        Got::Point(p) => {
            reach("point");
            check(eqp(p, x), "another point than the common one reported");
        }
        Got::Overlap(p, r) => {
            reach("overlap");
            check(on_segment(x, p, r), "common point outside the reported overlap");
        }
    }
}
fn unit(name: &str) -> Q {
    let t = var_at(name, 1, 3);
    assume_nonneg(&t);
    assume_nonneg(&(q(1) - &t));
    t
}
fn sound_2() {
    let (a, u, v, w) = (vpt::<2>("a"), vpt::<2>("u"), vpt::<2>("v"), vpt::<2>("w"));
    let (b, c) = (add(&a, &u), add(&a, &v));
    let d = add(&c, &w);
    sound(&inter2::<R>(&a, &b, &c, &d), &a, &b, &c, &d);
}
fn complete_2() {
    let (x, u, w) = (vpt::<2>("x"), vpt::<2>("u"), vpt::<2>("w"));
    let (s, t) = (unit("s"), unit("t"));
    let (a, c) = (sub(&x, &scale(&u, &s)), sub(&x, &scale(&w, &t)));
    let (b, d) = (add(&a, &u), add(&c, &w));
    complete(&inter2::<R>(&a, &b, &c, &d), &x);
}
/// Collinear segments as intervals on a common line.
fn collinear_2() {
    let (o, u) = (vpt::<2>("o"), vpt::<2>("u"));
    assume(!is_zero_vec(&u));
    let t: Vec<Q> = (0..4).map(|i| var(&format!("t{}", i))).collect();
    let p: Vec<P2> = t.iter().map(|t| add(&o, &scale(&u, t))).collect();
    let g = inter2::<R>(&p[0], &p[1], &p[2], &p[3]);
    interval(&g, &t, &|t| add(&o, &scale(&u, t)));
}
fn collinear_3() {
    let o = vpt::<3>("o");
    let dirs = [[1, 0, 0], [0, 0, -2], [1, -2, 3], [0, 1, 1]];
    let u: P3 = ipt(dirs[choose("direction", dirs.len())]);
    let t: Vec<Q> = (0..4).map(|i| var(&format!("t{}", i))).collect();
    let p: Vec<P3> = t.iter().map(|t| add(&o, &scale(&u, t))).collect();
    let g = inter3(&p[0], &p[1], &p[2], &p[3]);
    interval(&g, &t, &|t| add(&o, &scale(&u, t)));
}
fn interval<const N: usize>(g: &Got<N>, t: &[Q], at: &dyn Fn(&Q) -> [Q; N]) {
    let (l1, h1) = if t[0] < t[1] { (&t[0], &t[1]) } else { (&t[1], &t[0]) };
    let (l2, h2) = if t[2] < t[3] { (&t[2], &t[3]) } else { (&t[3], &t[2]) };
    let lo = if l1 < l2 { l2 } else { l1 };
    let hi = if h1 < h2 { h1 } else { h2 };
    let (pl, ph) = (at(lo), at(hi));
    match g {
        Got::None => {
            reach("none");
            check(hi < lo, "overlap of collinear segments missed");
        }
        Got::Point(p) => check(lo == hi && eqp(p, &pl), "a point reported for collinear segments that share more or less than it"),
        Got::Overlap(p, r) => {
            reach("overlap");
            check(lo <= hi, "overlap reported for disjoint collinear segments");
            check((eqp(p, &pl) && eqp(r, &ph)) || (eqp(p, &ph) && eqp(r, &pl)), "reported overlap is not the common part");
        }
    }
}
fn lazy_2() {
    let (a, b) = (ipt([0, 0]), ipt([4, 2]));
    let (c, d) = (vpt::<2>("c"), vpt::<2>("d"));
    if choose("fix", 2) == 0 {
        assume_zero(&(&c[0] - &q(1)));
    } else {
        assume_zero(&(&c[1] - &q(1)));
    }
    let g = inter2::<LazyExact>(&a, &b, &c, &d);
    sound(&g, &a, &b, &c, &d);
    if let Got::None = g {
        // both ends of each segment strictly on one side of the other, or parallel and apart
        let (o1, o2) = (orient2(&a, &b, &c).sgn(), orient2(&a, &b, &d).sgn());
        let (o3, o4) = (orient2(&c, &d, &a).sgn(), orient2(&c, &d, &b).sgn());
        let apart = o1 * o2 > 0 || o3 * o4 > 0;
        let line = o1 == 0 && o2 == 0;
        check(apart || line, "intersection missed");
        if line {
            check(!on_segment(&c, &a, &b) && !on_segment(&d, &a, &b) && !on_segment(&a, &c, &d), "overlap missed");
        }
    }
}
/// Swapping operands or reversing a segment changes nothing.
fn sym_2() {
    let fixed = [[0, 0, 3, 1], [0, 0, 0, 2], [1, 1, 1, 1]];
    let f = fixed[choose("fixed", fixed.len())];
    let (a, b) = (ipt([f[0], f[1]]), ipt([f[2], f[3]]));
    let (c, d) = (vpt::<2>("c"), vpt::<2>("d"));
    let g = inter2::<R>(&a, &b, &c, &d);
    for g2 in [inter2::<R>(&c, &d, &a, &b), inter2::<R>(&b, &a, &c, &d), inter2::<R>(&a, &b, &d, &c)] {
        let same = match (&g, &g2) {
            (Got::None, Got::None) => true,
            (Got::Point(p), Got::Point(r)) => eqp(p, r),
            (Got::Overlap(p, r), Got::Overlap(s, t)) => (eqp(p, s) && eqp(r, t)) || (eqp(p, t) && eqp(r, s)),
            _ => false,
        };
        check(same, "result depends on the order or direction of the operands");
    }
    reach(match g {
        Got::None => "none",
        Got::Point(_) => "point",
        Got::Overlap(..) => "overlap",
    });
}
const DIRS3: [[i32; 3]; 4] = [[1, 0, 0], [0, -2, 0], [1, 2, -1], [0, 0, 0]];
fn sound_3() {
    let u: P3 = ipt(DIRS3[choose("direction", DIRS3.len())]);
    let w: P3 = vpt::<3>("w");
    let (a, v) = (vpt::<3>("a"), vpt::<3>("v"));
    let (b, c) = (add(&a, &u), add(&a, &v));
    let d = add(&c, &w);
    sound(&inter3(&a, &b, &c, &d), &a, &b, &c, &d);
}
fn complete_3() {
    let u: P3 = ipt(DIRS3[choose("direction", DIRS3.len())]);
    let (x, w) = (vpt::<3>("x"), vpt::<3>("w"));
    let (s, t) = (unit("s"), unit("t"));
    let (a, c) = (sub(&x, &scale(&u, &s)), sub(&x, &scale(&w, &t)));
    let (b, d) = (add(&a, &u), add(&c, &w));
    complete(&inter3(&a, &b, &c, &d), &x);
}
fn edge_sound() {
    let (a, u, v, w) = (vpt::<2>("a"), vpt::<2>("u"), vpt::<2>("v"), vpt::<2>("w"));
    let (b, c) = (add(&a, &u), add(&a, &v));
    let d = add(&c, &w);
    match edge_edge_intersection_2(&pt::<R, 2>(&a), &pt(&b), &pt(&c), &pt(&d)) {
        None => reach("none"),
        Some(p) => {
            reach("point");
            let p = unpt(&p);
            check(on_segment(&p, &a, &b) && on_segment(&p, &c, &d), "reported point is not on both edges");
        }
    }
}
fn edge_complete() {
    let (x, u, w) = (vpt::<2>("x"), vpt::<2>("u"), vpt::<2>("w"));
    let (s, t) = (unit("s"), unit("t"));
    assume_nonzero(&cross2(&u, &w));
    let (a, c) = (sub(&x, &scale(&u, &s)), sub(&x, &scale(&w, &t)));
    let (b, d) = (add(&a, &u), add(&c, &w));
    match edge_edge_intersection_2(&pt::<R, 2>(&a), &pt(&b), &pt(&c), &pt(&d)) {
        None => check(false, "crossing of two edges missed"),
        Some(p) => {
            reach("point");
            check(eqp(&unpt(&p), &x), "wrong crossing point");
        }
    }
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C04", sound_2, 0, ["none", "point", "overlap"], "all eight coordinates any real"),
        h!("C04", complete_2, 0, ["point", "overlap"], "all pairs of segments with a common point, any real coordinates"),
        h!("C04", collinear_2, 0, ["none", "overlap"], "all pairs of segments on a common line, any real coordinates"),
        h!("C04", collinear_3, 0, ["none", "overlap"], "pairs of segments on a common line of 4 directions at any place"),
        h!("C04", lazy_2, 0, ["none", "point", "overlap"], "fixed segment against any segment with one fixed coordinate, lazy numbers"),
        h!("C04", sym_2, 0, ["none", "point", "overlap"], "3 fixed segments against any segment"),
        h!("C04", sound_3, 0, ["none", "point", "overlap"], "first segment of 4 vectors at any place, second segment any"),
        h!("C04", complete_3, 0, ["point", "overlap"], "first segment of 4 vectors at any place, second any segment meeting it"),
        h!("C04", edge_sound, 0, ["none", "point"], "all eight coordinates any real"),
        h!("C04", edge_complete, 0, ["point"], "all pairs of crossing segments, any real coordinates"),
    ]
}
