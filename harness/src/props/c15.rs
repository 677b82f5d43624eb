//! Triangulation with constraint segments.
use super::c14::{job, spread, tiling, P2};
use super::h;
use crate::geo::*;
use crate::mesh::select;
use cgar::geometry::Point2;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::mesh::basic_types::Triangle;
use cgar::operations::triangulation::delaunay::{triangles_inside_for_job, Delaunay};
use rt::*;

fn cross_strictly(a: &P2, b: &P2, c: &P2, d: &P2) -> bool {
    let s = |x: Q| x.sgn();
    s(orient2(a, b, c)) * s(orient2(a, b, d)) < 0 && s(orient2(c, d, a)) * s(orient2(c, d, b)) < 0
}
/// Constraints may meet in points, but not cross.
fn compatible(pts: &[P2], cs: &[[usize; 2]]) {
    for (i, c) in cs.iter().enumerate() {
        for d in &cs[i + 1..] {
            assume(!cross_strictly(&pts[c[0]], &pts[c[1]], &pts[d[0]], &pts[d[1]]));
        }
    }
}
/// Each constraint is an edge or a chain of edges through the points on it.
fn kept(pts: &[P2], cs: &[[usize; 2]], tris: &[[usize; 3]]) {
    let has = |a: usize, b: usize| tris.iter().any(|t| t.contains(&a) && t.contains(&b));
    for c in cs {
        if has(c[0], c[1]) {
            reach("edge");
            continue;
        }
        // follow edges along the segment from one end to the other
        let mut at = c[0];
        let mut steps = 0;
        while at != c[1] {
            let next = (0..pts.len()).find(|&k| {
                k != at && has(at, k) && on_segment(&pts[k], &pts[at], &pts[c[1]])
            });
            match next {
                Some(k) => at = k,
                None => {
                    check(false, "a constraint is missing");
                }
            }
            steps += 1;
        }
        check(steps > 1, "a constraint is missing");
        reach("chain");
    }
}
fn constrained(pts: &[P2], cs: &[[usize; 2]], batch: bool) -> Vec<[usize; 3]> {
    let p: Vec<Point2<R>> = pts.iter().map(pt).collect();
    let j = job(pts, cs);
    let mesh = Mesh::<R, 3>::new();
    let d = if batch {
        Delaunay::build_batch_with_constraints_bowyer_watson(&[j], &mesh).pop().unwrap()
    } else {
        Delaunay::build_with_constraints_bowyer_watson(&p, cs, &mesh, &j)
    };
    d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect()
}
/// The batch builder orders the pieces of constraints by length in whole
/// numbers; it is used where that order is fixed.
fn judge(pts: &[P2], cs: &[[usize; 2]]) {
    compatible(pts, cs);
    let mut pieces = cs.len();
    for c in cs {
        for k in 0..pts.len() {
            if k != c[0] && k != c[1] && on_segment(&pts[k], &pts[c[0]], &pts[c[1]]) {
                pieces += 1;
            }
        }
    }
    let t = constrained(pts, cs, pieces == 1 && select("batch", 2) == 1);
    kept(pts, cs, &t);
    tiling(pts, &t);
}
fn moving() -> P2 {
    let (a, d) = [([0, 1], [1, 0]), ([2, 0], [0, 1]), ([0, 0], [1, 1]), ([4, 1], [-1, 2]), ([0, 0], [1, 0])][select("line", 5)];
    let p = add(&ipt(a), &scale(&ipt(d), &var("t")));
    for c in &p {
        assume_nonneg(&(c + q(2)));
        assume_nonneg(&(q(6) - c));
    }
    p
}
/// Each pair of points in turn.
fn pair(n: usize) -> [usize; 2] {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..i {
            v.push(if (i + j) % 2 == 0 { [i, j] } else { [j, i] });
        }
    }
    v[select("pair", v.len())]
}
fn four() {
    let mut pts: Vec<P2> = [[0, 0], [4, 0], [1, 3]].iter().map(|p| ipt(*p)).collect();
    pts.push(moving());
    spread(&pts, &q(4));
    let c = pair(4);
    judge(&pts, &[c]);
}
fn five() {
    let mut pts: Vec<P2> = [[0, 0], [4, 0], [4, 4], [0, 4]].iter().map(|p| ipt(*p)).collect();
    pts.push(moving());
    spread(&pts, &q(4));
    let c = pair(5);
    judge(&pts, &[c]);
}
fn ipts(p: &[[i32; 2]]) -> Vec<P2> {
    p.iter().map(|p| ipt(*p)).collect()
}
/// A coordinate in [lo, hi].
fn range(name: &str, lo: i32, hi: i32) -> Q {
    let y = var_at(name, 2 * lo + 1, 2);
    assume_nonneg(&(&y - q(lo)));
    assume_nonneg(&(q(hi) - &y));
    y
}
/// An upright or level segment crossed by an edge, with a further point on
/// its line.
fn in_line() {
    let y = if select("end", 2) == 0 { range("y", 7, 12) } else { range("y", -6, -1) };
    let mut pts = ipts(&[[0, 0], [0, 6], [-2, 3], [2, 3], [0, 9], [-7, 4], [7, 4]]);
    pts[4][1] = y;
    if select("level", 2) == 1 {
        for p in &mut pts {
            *p = [-&p[1], p[0].clone()];
        }
    }
    spread(&pts, &q(4));
    judge(&pts, &[[[0, 1], [1, 0]][select("way", 2)]]);
}
/// Segments across several triangles.
fn zigzag() {
    let mut pts = ipts(&[[0, 0], [12, 0], [3, 2], [6, -2], [9, 2]]);
    pts[2 + select("which", 3)][1] = range("y", -4, 4);
    spread(&pts, &q(4));
    judge(&pts, &[[0, 1]]);
}
fn zigzag_long() {
    let mut pts = ipts(&[[0, 0], [18, 1], [3, 2], [6, -2], [9, 3], [12, -3], [15, 3]]);
    pts[2 + select("which", 5)][1] = range("y", -4, 4);
    spread(&pts, &q(4));
    judge(&pts, &[[0, 1]]);
}
/// Points close to the segment before and behind far ones: no flip is
/// possible at first sight.
fn pinched() {
    let mut pts = ipts(&[[0, 0], [16, 0], [4, -1], [3, 8], [13, -8], [12, 1]]);
    pts[2 + select("which", 4)][1] = range("y", -9, 9);
    spread(&pts, &q(4));
    judge(&pts, &[[0, 1]]);
}
/// Several constraints at once.
fn several() {
    let mut pts = ipts(&[[0, 0], [12, 0], [12, 8], [0, 8], [5, 3], [8, 5]]);
    pts[4 + select("which", 2)][0] = range("x", 1, 11);
    spread(&pts, &q(4));
    let cs: &[&[[usize; 2]]] = &[
        &[[0, 2], [1, 5]],
        &[[0, 5], [4, 2]],
        &[[0, 4], [4, 2], [2, 5], [5, 0]],
        &[[3, 4], [4, 1], [3, 5]],
        &[[0, 1], [1, 2], [2, 3], [3, 0], [3, 1]],
    ];
    judge(&pts, cs[select("set", cs.len())]);
}
/// The triangles of a face: those inside the first three points.
fn face(extra: &[[i32; 2]], moved: &[usize]) {
    let mut pts = ipts(&[[0, 0], [12, 0], [0, 12]]);
    pts.extend(ipts(extra));
    let k = moved[select("which", moved.len())];
    match k {
        // along the first side
        3 => pts[3][0] = range("s", 1, 11),
        // along the slanted side
        4 => {
            let s = range("s", 1, 11);
            pts[4] = [s.clone(), q(12) - s];
        }
        // in the plane
        _ => pts[k][1] = range("s", -4, 9),
    }
    let turned = select("turned", 2) == 1;
    if turned {
        pts.swap(1, 2);
    }
    spread(&pts, &q(4));
    let sides = [[0, 1], [1, 2], [2, 0]];
    let t = constrained(&pts, &sides, false);
    kept(&pts, &sides, &t);
    tiling(&pts, &t);
    let p: Vec<Point2<R>> = pts.iter().map(pt).collect();
    let all: Vec<_> = t.iter().map(|t| Triangle(t[0], t[1], t[2])).collect();
    let got = triangles_inside_for_job(&p, &all, &sides);
    for (i, t) in t.iter().enumerate() {
        // no triangle crosses a side, so its middle tells
        let m: P2 = std::array::from_fn(|k| (&pts[t[0]][k] + &pts[t[1]][k] + &pts[t[2]][k]) * frac(1, 3));
        let inside = (0..3).all(|k| orient2(&pts[k], &pts[(k + 1) % 3], &m).sgn() == if turned { -1 } else { 1 });
        check(got.contains(&i) == inside, "the triangles of a face are those inside it");
        reach(if inside { "inside" } else { "outside" });
    }
}
fn face_border() {
    face(&[[5, 0], [7, 5], [3, 4]], &[3, 4, 5]);
}
fn face_outside() {
    face(&[[5, 0], [7, 5], [3, 4], [9, 9]], &[3, 4, 5, 6]);
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C15", four, 0, ["edge", "chain"], "4 points, one moving along 5 lines, any one constraint"),
        h!("C15", five, 0, ["edge", "chain"], "5 points, one moving along 5 lines, any one constraint"),
        h!("C15", in_line, 0, ["edge"], "an upright or level segment crossed by an edge and a point on its line at any distance up to 6 from it"),
        h!("C15", zigzag, 0, ["edge", "chain"], "a segment passing three points, one of them moving"),
        h!("C15", zigzag_long, 0, ["edge", "chain"], "a segment passing five points, one of them moving"),
        h!("C15", pinched, 0, ["edge", "chain"], "a segment between near and far points, one of them moving"),
        h!("C15", several, 0, ["edge", "chain"], "5 sets of constraints on 6 points, one moving"),
        h!("C15", face_border, 0, ["edge", "chain", "inside", "outside"], "a face with points on two sides and inside, one moving"),
        h!("C15", face_outside, 0, ["edge", "chain", "inside", "outside"], "the same with a point outside the face"),
    ]
}
