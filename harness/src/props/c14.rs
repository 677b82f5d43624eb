//! Delaunay triangulation of point sets.
use super::h;
use crate::geo::*;
use crate::mesh::select;
use cgar::geometry::Point2;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::operations::triangulation::delaunay::Delaunay;
use rt::*;

pub type P2 = [Q; 2];

pub fn job(pts: &[P2], segments: &[[usize; 2]]) -> FaceJobUV<R> {
    FaceJobUV {
        face_id: 0,
        verts_global: (0..pts.len()).collect(),
        points_uv: pts.iter().map(pt).collect(),
        segments: segments.to_vec(),
    }
}
fn triangulate(pts: &[P2], batch: bool) -> Vec<[usize; 3]> {
    let p: Vec<Point2<R>> = pts.iter().map(pt).collect();
    let d = if batch {
        let mut v = Delaunay::build_batch_with_constraints_bowyer_watson(&[job(pts, &[])], &Mesh::<R, 3>::new());
        check(v.len() == 1, "one result for one job");
        v.pop().unwrap()
    } else {
        Delaunay::build(&p)
    };
    check(d.points.len() == pts.len(), "the points are kept");
    for (a, b) in d.points.iter().zip(pts) {
        check(eqp(&unpt(a), b), "the points are kept");
    }
    d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect()
}
fn incircle(a: &P2, b: &P2, c: &P2, d: &P2) -> Q {
    let r = |x: &P2| {
        let v = sub(x, d);
        let s = dot(&v, &v);
        [v[0].clone(), v[1].clone(), s]
    };
    let (a, b, c) = (r(a), r(b), r(c));
    dot(&a, &cross(&b, &c))
}
/// Counter-clockwise triangles covering the convex hull exactly once: each
/// side is used once per direction, and every side without a partner has all
/// points on its left.
pub fn tiling(pts: &[P2], tris: &[[usize; 3]]) {
    let mut sides = vec![];
    for t in tris {
        check(t.iter().all(|&i| i < pts.len()), "triangles use the given points");
        check(orient2(&pts[t[0]], &pts[t[1]], &pts[t[2]]).is_pos(), "triangles are counter-clockwise");
        for i in 0..3 {
            sides.push((t[i], t[(i + 1) % 3]));
        }
    }
    for (i, s) in sides.iter().enumerate() {
        check(!sides[i + 1..].contains(s), "triangles overlap along a side");
        if !sides.contains(&(s.1, s.0)) {
            for p in pts {
                check(!orient2(&pts[s.0], &pts[s.1], p).is_neg(), "the triangles do not cover the hull");
            }
        }
    }
    let mut straight = true;
    for p in &pts[2..] {
        straight &= orient2(&pts[0], &pts[1], p).is_zero();
    }
    if straight {
        check(tris.is_empty(), "points on a line have no triangles");
        reach("straight");
    } else {
        for i in 0..pts.len() {
            check(tris.iter().any(|t| t.contains(&i)), "a point is no corner of any triangle");
        }
    }
}
fn delaunay(pts: &[P2], tris: &[[usize; 3]]) {
    tiling(pts, tris);
    for t in tris {
        for (i, p) in pts.iter().enumerate() {
            if !t.contains(&i) {
                check(
                    !incircle(&pts[t[0]], &pts[t[1]], &pts[t[2]], p).is_pos(),
                    "a point lies inside the circle of a triangle",
                );
            }
        }
    }
    match tris.len() {
        0 => reach("none"),
        1 => reach("one"),
        2 => reach("two"),
        3 => reach("three"),
        _ => reach("more"),
    }
}
/// The points are apart by 1/8 and no three are nearly, but not exactly, on a line.
pub fn spread(pts: &[P2], least: &Q) {
    for i in 0..pts.len() {
        for j in 0..i {
            let d = sub(&pts[i], &pts[j]);
            assume((0..2).any(|k| !(&d[k] - frac(1, 8)).is_neg() || !(&d[k] + frac(1, 8)).is_pos()));
            for k in 0..j {
                let o = orient2(&pts[i], &pts[j], &pts[k]);
                assume(o.is_zero() || !(&o - least).is_neg() || !(&o + least).is_pos());
            }
        }
    }
}
fn within(p: &P2, lo: i32, hi: i32) {
    for c in p {
        assume_nonneg(&(c - q(lo)));
        assume_nonneg(&(q(hi) - c));
    }
}
fn judge(mut pts: Vec<P2>, p: P2, least: Q) {
    let at = select("at", pts.len() + 1);
    pts.insert(at, p);
    spread(&pts, &least);
    let batch = select("batch", 2) == 1;
    let t = triangulate(&pts, batch);
    delaunay(&pts, &t);
}
/// One point moves along listed lines.
fn on_lines(base: &[[i32; 2]], least: Q) {
    let (a, d) = [([0, 1], [1, 0]), ([2, 0], [0, 1]), ([0, 0], [1, 1]), ([4, 1], [-1, 2]), ([0, 0], [1, 0])][select("line", 5)];
    let p = add(&ipt(a), &scale(&ipt(d), &var("t")));
    within(&p, -2, 6);
    judge(base.iter().map(|p| ipt(*p)).collect(), p, least);
}
fn three() {
    on_lines(&[[0, 0], [3, 1]], q(4));
}
fn four() {
    on_lines(&[[0, 0], [4, 0], [1, 3]], q(4));
}
fn five() {
    on_lines(&[[0, 0], [4, 0], [4, 4], [0, 4]], q(4));
}
fn five_line() {
    on_lines(&[[0, 0], [2, 0], [4, 0], [1, 4]], q(4));
}
fn six() {
    on_lines(&[[0, 0], [5, 0], [4, 4], [0, 3], [2, 1]], q(2));
}
/// A flat triangle: any three points off a line have one triangle.
fn sliver() {
    let h = var("h");
    assume_pos(&h);
    assume_nonneg(&(q(1) - &h));
    let pts = [ipt([0, 0]), ipt([4, 0]), [q(2), h.clone()]];
    let t = triangulate(&pts, false);
    check(!t.is_empty() || (h - frac(1, 100)).is_neg(), "a triangle is left out");
    check(!t.is_empty(), "a nearly straight triangle is left out");
    delaunay(&pts, &t);
}
/// A fixed arrangement moved and scaled.
fn placed() {
    let base = [[0, 0], [5, 0], [4, 4], [0, 3], [2, 2]];
    let mut d = vec![q(0), q(0)];
    let t = var("t");
    assume_nonneg(&(&t + q(1000)));
    assume_nonneg(&(q(1000) - &t));
    let way = select("way", 3);
    if way != 1 {
        d[0] = t.clone();
    }
    if way != 0 {
        d[1] = q(0) - t;
    }
    let pts: Vec<P2> = base.iter().map(|p| [q(p[0]) + &d[0], q(p[1]) + &d[1]]).collect();
    let t = triangulate(&pts, select("batch", 2) == 1);
    delaunay(&pts, &t);
}
fn scaled() {
    let base = [[0, 0], [5, 0], [4, 4], [0, 3], [2, 2]];
    let k = var("k");
    assume_nonneg(&(&k - frac(1, 100)));
    assume_nonneg(&(q(100) - &k));
    let pts: Vec<P2> = base.iter().map(|p| [q(p[0]) * &k, q(p[1]) * &k]).collect();
    let t = triangulate(&pts, select("batch", 2) == 1);
    delaunay(&pts, &t);
}
/// Several jobs at once: the results are in the order of the jobs.
fn batches() {
    let sets: [&[[i32; 2]]; 3] = [&[[0, 0], [1, 0]], &[[0, 0], [4, 0], [0, 3]], &[[0, 0], [4, 0], [4, 4], [0, 4]]];
    let pick: Vec<&[[i32; 2]]> = (0..3).map(|i| sets[select(&format!("set{}", i), 3)]).collect();
    let jobs: Vec<_> = pick.iter().map(|s| job(&s.iter().map(|p| ipt(*p)).collect::<Vec<_>>(), &[])).collect();
    let r = Delaunay::build_batch_with_constraints_bowyer_watson(&jobs, &Mesh::<R, 3>::new());
    check(r.len() == 3, "one result for each job");
    for (s, d) in pick.iter().zip(&r) {
        check(d.points.len() == s.len() && d.triangles.len() == s.len() - 2, "each result belongs to its job");
    }
    reach("end");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C14", three, 0, ["none", "one", "straight"], "3 points, one moving along 5 lines"),
        h!("C14", four, 0, ["two", "three"], "4 points, one moving along 5 lines"),
        h!("C14", five, 0, ["three", "more"], "square and one point moving along 5 lines"),
        h!("C14", five_line, 0, ["three", "more"], "three collinear points, one more, and one moving along 5 lines"),
        h!("C14", six, 1, ["more"], "five points and one moving along 5 lines"),
        h!("C14", sliver, 0, ["one"], "3 points, the third at any height up to 1 above the line of the others"),
        h!("C14", placed, 0, ["more"], "5 points translated by up to 1000 along 3 directions"),
        h!("C14", scaled, 0, ["more"], "5 points scaled by 1/100 to 100"),
        h!("C14", batches, 0, ["end"], "3 jobs of 2, 3 or 4 points"),
    ]
}
