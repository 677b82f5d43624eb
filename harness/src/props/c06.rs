//! Triangle against triangle in space.
use super::h;
use crate::geo::*;
use crate::mesh::select;
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use cgar::geometry::tri_tri_intersect::*;
use cgar::numeric::cgar_rational::CgarRational as R;
use rt::*;

type P3 = [Q; 3];
type Tri3 = [P3; 3];

/// Pairs of triangle shapes; only their relative placement is symbolic.
fn pairs() -> Vec<([[i32; 3]; 3], [[i32; 3]; 3])> {
    vec![
        // crossing, nothing parallel
        ([[0, 0, 0], [4, 0, 0], [0, 4, 0]], [[0, 0, -3], [3, 1, 2], [-1, 2, 3]]),
        // an edge parallel to the other plane and to one of its edges
        ([[0, 0, 0], [4, 0, 0], [0, 4, 0]], [[0, 0, 0], [3, 0, 0], [1, 1, 2]]),
        // upright, in a plane through an edge direction
        ([[0, 0, 0], [4, 0, 0], [0, 4, 0]], [[0, 0, 0], [2, 0, 0], [1, 0, 3]]),
        // both tilted
        ([[3, 0, 0], [0, 3, 0], [0, 0, 3]], [[0, 1, 0], [2, -1, 1], [1, 1, 4]]),
        // parallel planes: z, x and y constant
        ([[0, 0, 0], [4, 0, 0], [0, 4, 0]], [[0, 0, 0], [2, 1, 0], [1, 3, 0]]),
        ([[0, 0, 0], [0, 4, 0], [0, 0, 4]], [[0, 0, 0], [0, 3, 0], [0, 1, -2]]),
        ([[0, 0, 0], [4, 0, 0], [0, 0, 4]], [[0, 0, 0], [0, 0, -2], [2, 0, 0]]),
        // parallel tilted planes
        ([[3, 0, 0], [0, 3, 0], [0, 0, 3]], [[0, 0, 0], [2, -1, -1], [-1, 2, -1]]),
        ([[2, 0, 0], [0, 3, 0], [0, 0, 6]], [[0, 0, 0], [2, -3, 0], [2, 0, -6]]),
    ]
}
fn flat(k: usize) -> bool {
    k >= 4
}
enum Found {
    Nothing,
    Piece(P3, P3),
    Polygon(Vec<(P3, P3)>),
}
fn contact(c: &ContactOnTri<R>, t: &Tri3, x: &P3) {
    let at = match c {
        ContactOnTri::Vertex(i) => t[*i].clone(),
        ContactOnTri::Edge { e, u } => {
            let u = back(u);
            check(!u.is_neg() && !(q(1) - &u).is_neg(), "the place on an edge is within the edge");
            lerp(&t[e.0], &t[e.1], &u)
        }
        ContactOnTri::Interior { bary } => {
            let l = [back(&bary.0), back(&bary.1), back(&bary.2)];
            check(!l.iter().any(|x| x.is_neg()), "the weights of an inner place are not negative");
            add(&add(&scale(&t[0], &l[0]), &scale(&t[1], &l[1])), &scale(&t[2], &l[2]))
        }
    };
    check(near(&at, x), "the place on a triangle is the point itself");
}
/// Equal up to the distance below which points are merged.
fn near(a: &P3, b: &P3) -> bool {
    let d = sub(a, b);
    is_zero_vec(&d) || !(dot(&d, &d) - merge2()).is_pos()
}
/// Square of twice the distance below which points are merged.
fn merge2() -> Q {
    frac(4, 1_000_000) * frac(1, 1_000_000)
}
fn ask_code(p: &Tri3, t: &Tri3, how: usize) -> Found {
    let pp: [Point<R, 3>; 3] = [pt(&p[0]), pt(&p[1]), pt(&p[2])];
    let qq: [Point<R, 3>; 3] = [pt(&t[0]), pt(&t[1]), pt(&t[2])];
    let (pr, qr) = ([&pp[0], &pp[1], &pp[2]], [&qq[0], &qq[1], &qq[2]]);
    let seg = |s: &Segment<R, 3>| (unpt(&s.a), unpt(&s.b));
    let plain = |r: TriTriIntersectionResult<R, 3>| match r {
        TriTriIntersectionResult::None => Found::Nothing,
        TriTriIntersectionResult::Proper(s) | TriTriIntersectionResult::Coplanar(s) => {
            let (a, b) = seg(&s);
            Found::Piece(a, b)
        }
        TriTriIntersectionResult::CoplanarPolygon(s) => Found::Polygon(s.iter().map(seg).collect()),
    };
    match how {
        0 => plain(tri_tri_intersection(&pr, &qr)),
        1 => plain(tri_tri_intersection_with_precomp_p(&pr, &qr, &TriPrecomp::new(&pr))),
        _ => {
            let mut ends = vec![];
            match tri_tri_intersection_detailed(&pr, &qr) {
                TriTriIntersectionDetailed::None => return Found::Nothing,
                TriTriIntersectionDetailed::Proper { ends: e } => ends.push(e),
                TriTriIntersectionDetailed::Coplanar { segs } => ends.extend(segs),
            }
            let mut out = vec![];
            for e in &ends {
                for x in e {
                    let at = unpt(&x.point);
                    contact(&x.on_p, p, &at);
                    contact(&x.on_q, t, &at);
                }
                out.push((unpt(&e[0].point), unpt(&e[1].point)));
            }
            if out.len() == 1 {
                let (a, b) = out.pop().unwrap();
                Found::Piece(a, b)
            } else {
                Found::Polygon(out)
            }
        }
    }
}
fn of(t: &[[i32; 3]; 3]) -> Tri3 {
    [ipt(t[0]), ipt(t[1]), ipt(t[2])]
}
fn moved(t: &Tri3, d: &P3) -> Tri3 {
    [add(&t[0], d), add(&t[1], d), add(&t[2], d)]
}
fn turned(t: &Tri3, k: usize) -> Tri3 {
    let o = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][k];
    [t[o[0]].clone(), t[o[1]].clone(), t[o[2]].clone()]
}
fn inside(x: &P3, t: &Tri3) -> bool {
    let n = cross(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]));
    dot(&n, &sub(x, &t[0])).is_zero()
        && (0..3).all(|i| {
            let (a, b) = (&t[i], &t[(i + 1) % 3]);
            !dot(&n, &cross(&sub(b, a), &sub(x, a))).is_neg()
        })
}
fn weights(name: &str) -> [Q; 3] {
    let (a, b) = (var_at(&format!("{}0", name), 1, 4), var_at(&format!("{}1", name), 1, 4));
    let c = q(1) - &a - &b;
    for x in [&a, &b, &c] {
        assume_nonneg(x);
    }
    [a, b, c]
}
fn mix(t: &Tri3, l: &[Q; 3]) -> P3 {
    add(&add(&scale(&t[0], &l[0]), &scale(&t[1], &l[1])), &scale(&t[2], &l[2]))
}
/// Within the merge distance of the segment.
fn on(x: &P3, a: &P3, b: &P3) -> bool {
    let d = sub(b, a);
    let c = cross(&d, &sub(x, a));
    let line = is_zero_vec(&c) || !(dot(&c, &c) - merge2() * dot(&d, &d)).is_pos();
    line && !dot(&d, &sub(x, a)).is_neg() && !dot(&d, &sub(b, x)).is_neg() || near(x, a) || near(x, b)
}
/// x is one common point of the triangles, on the border of what they share:
/// it must be reported.
fn holds(f: &Found, x: &P3) {
    match f {
        Found::Nothing => check(false, "triangles with a common point are reported disjoint"),
        Found::Piece(a, b) => check(on(x, a, b), "a common point is missing from the reported segment"),
        Found::Polygon(s) => check(s.iter().any(|(a, b)| on(x, a, b)), "a corner is missing from the reported polygon"),
    }
}
/// In a common plane, no corner is very close to a side line of the other
/// triangle without lying on it, so that no two contacts are merged.
fn apart(p: &Tri3, t: &Tri3) {
    let n = cross(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]));
    if !dot(&n, &sub(&p[0], &t[0])).is_zero() {
        return;
    }
    for (a, b) in [(p, t), (t, p)] {
        for x in a {
            for i in 0..3 {
                let f = dot(&n, &cross(&sub(&b[(i + 1) % 3], &b[i]), &sub(x, &b[i])));
                assume(f.is_zero() || !(&f - frac(1, 8)).is_neg() || !(&f + frac(1, 8)).is_pos());
            }
        }
    }
}
/// Triangles in one plane: every corner of what they share is reported.
fn corners(f: &Found, p: &Tri3, t: &Tri3) {
    let n = cross(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]));
    if !dot(&n, &sub(&p[0], &t[0])).is_zero() {
        return;
    }
    for (a, b) in [(p, t), (t, p)] {
        for x in a {
            if inside(x, b) {
                holds(f, x);
            }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&p[i], &t[j]);
            let (da, db, d) = (sub(&p[(i + 1) % 3], a), sub(&t[(j + 1) % 3], b), sub(b, a));
            let den = dot(&n, &cross(&da, &db));
            if den.is_zero() {
                continue;
            }
            let (u, v) = (dot(&n, &cross(&d, &db)) / &den, dot(&n, &cross(&d, &da)) / &den);
            if u.is_pos() && v.is_pos() && (q(1) - &u).is_pos() && (q(1) - &v).is_pos() {
                holds(f, &lerp(a, &p[(i + 1) % 3], &u));
            }
        }
    }
    if let Found::Polygon(s) = f {
        for (i, (_, b)) in s.iter().enumerate() {
            check(eqp(b, &s[(i + 1) % s.len()].0), "the sides of the common polygon form a ring");
        }
    }
}
/// Everything reported belongs to both triangles.
fn sound(f: &Found, p: &Tri3, t: &Tri3) {
    let each = |x: &P3| check(inside(x, p) && inside(x, t), "a reported point is not in both triangles");
    match f {
        Found::Nothing => reach("nothing"),
        Found::Piece(a, b) => {
            each(a);
            each(b);
            reach("segment");
        }
        Found::Polygon(s) => {
            for (a, b) in s {
                each(a);
                each(b);
            }
            reach("polygon");
        }
    }
}
/// Both triangles pass through a fixed point, at any place of either.
fn complete(ks: &[usize], turns: usize) {
    let k = ks[select("pair", ks.len())];
    let (t, p) = pairs()[k];
    let (mut t, mut p) = (of(&t), of(&p));
    let (a, b) = (weights("a"), weights("b"));
    let x = ipt([1, 2, -1]);
    p = moved(&p, &sub(&x, &mix(&p, &a)));
    t = moved(&t, &sub(&x, &mix(&t, &b)));
    let how = select("variant", 3);
    let o = select("order", turns);
    let (p, t) = (turned(&p, o / 2), t);
    let f = if o % 2 == 0 { ask_code(&p, &t, how) } else { ask_code(&t, &p, how) };
    holds(&f, &x);
    reach("end");
}
/// One triangle fixed, the other moved anywhere.
fn correct(ks: &[usize], turns: usize, all: bool) {
    let k = ks[select("pair", ks.len())];
    let (t, p) = pairs()[k];
    let (t, p) = (of(&t), of(&p));
    let d = vpt::<3>("d");
    let p = moved(&p, &d);
    let how = select("variant", 3);
    let o = select("order", turns);
    if all && flat(k) {
        apart(&p, &t);
    }
    let p = turned(&p, o / 2);
    let f = if o % 2 == 0 { ask_code(&p, &t, how) } else { ask_code(&t, &p, how) };
    sound(&f, &p, &t);
    if all && flat(k) {
        corners(&f, &p, &t);
    }
    reach("end");
}
fn complete_cross() {
    complete(&[0, 1, 2, 3], 2)
}
fn correct_cross() {
    correct(&[0, 1, 2, 3], 2, true)
}
fn correct_flat() {
    correct(&[4, 5, 6, 7, 8], 2, true)
}
fn complete_cross_turned() {
    complete(&[0, 3], 12)
}
fn correct_cross_turned() {
    correct(&[0, 3], 12, true)
}
fn correct_flat_turned() {
    correct(&[4, 8], 12, true)
}
/// As correct_flat with the placements excluded there, without completeness.
fn close_flat() {
    correct(&[4, 5, 6, 7, 8], 2, false)
}
/// Two corners fixed on either side of a plane, the third anywhere.
fn corner() {
    let t = of(&[[0, 0, 0], [4, 0, 0], [0, 4, 0]]);
    let base = [([1, 1, -1], [2, 1, 3]), ([0, 0, 0], [1, 1, 2]), ([1, 0, 0], [3, 0, 0]), ([1, 1, 1], [2, 3, 1])];
    let (a, b) = base[select("base", base.len())];
    let p = [ipt(a), ipt(b), vpt::<3>("c")];
    assume(!is_zero_vec(&cross(&sub(&p[1], &p[0]), &sub(&p[2], &p[0]))));
    let how = select("variant", 3);
    if select("order", 2) == 0 {
        sound(&ask_code(&p, &t, how), &p, &t);
    } else {
        sound(&ask_code(&t, &p, how), &t, &p);
    }
    reach("end");
}
/// An edge in the plane of the other triangle, one end anywhere in that plane.
fn in_plane() {
    let t = turned(&of(&[[0, 0, 0], [4, 0, 0], [0, 4, 0]]), select("turn", 6));
    let a = ipt([[1, 1, 0], [-1, 2, 0], [5, -2, 0]][select("from", 3)]);
    let b = [var_at("x", 3, 1), var_at("y", 3, 1), q(0)];
    for c in &b[..2] {
        assume_nonneg(&(c + q(8)));
        assume_nonneg(&(q(8) - c));
    }
    // contacts are not within the merge distance of each other
    let d = sub(&b, &a);
    assume((0..2).any(|i| !(&d[i] - frac(1, 8)).is_neg() || !(&d[i] + frac(1, 8)).is_pos()));
    for x in &t {
        let f = &d[0] * (&x[1] - &a[1]) - &d[1] * (&x[0] - &a[0]);
        assume(f.is_zero() || !(&f - frac(1, 8)).is_neg() || !(&f + frac(1, 8)).is_pos());
    }
    let p = [a.clone(), b.clone(), ipt([1, 1, 5])];
    let how = select("variant", 3);
    let f = if select("order", 2) == 0 { ask_code(&p, &t, how) } else { ask_code(&t, &p, how) };
    sound(&f, &p, &t);
    for x in [&a, &b] {
        if inside(x, &t) {
            holds(&f, x);
        }
    }
    for i in 0..3 {
        let e = sub(&t[(i + 1) % 3], &t[i]);
        let den = &d[0] * &e[1] - &d[1] * &e[0];
        if den.is_zero() {
            continue;
        }
        let g = sub(&t[i], &a);
        let (u, v) = ((&g[0] * &e[1] - &g[1] * &e[0]) / &den, (&g[0] * &d[1] - &g[1] * &d[0]) / &den);
        if u.is_pos() && v.is_pos() && (q(1) - &u).is_pos() && (q(1) - &v).is_pos() {
            holds(&f, &lerp(&a, &b, &u));
        }
    }
    reach("end");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C06", complete_cross, 0, ["end"], "4 pairs of shapes in crossing planes, every relative translation with a common point, 3 entry points, both orders"),
        h!("C06", correct_cross, 0, ["end", "nothing", "segment"], "4 pairs of shapes in crossing planes, every relative translation, 3 entry points, both orders"),
        h!("C06", correct_flat, 0, ["end", "nothing", "segment", "polygon"], "5 pairs of shapes in parallel planes, every relative translation, 3 entry points, both orders"),
        h!("C06", close_flat, 1, ["end", "nothing", "segment", "polygon"], "5 pairs of shapes in parallel planes, every relative translation including contacts closer than the merge distance: what is reported belongs to both"),
        h!("C06", complete_cross_turned, 1, ["end"], "2 pairs of shapes in crossing planes, all corner orders"),
        h!("C06", correct_cross_turned, 1, ["end", "nothing", "segment"], "2 pairs of shapes in crossing planes, all corner orders"),
        h!("C06", correct_flat_turned, 1, ["end", "nothing", "segment", "polygon"], "2 pairs of shapes in parallel planes, all corner orders"),
        h!("C06", in_plane, 0, ["end", "nothing", "segment"], "a triangle with an edge in the plane of the other, from 3 places to anywhere in a square of side 16, all corner orders, 3 entry points, both orders"),
        h!("C06", corner, 0, ["end", "nothing", "segment", "polygon"], "4 fixed edges, third corner anywhere, against a fixed triangle"),
    ]
}
