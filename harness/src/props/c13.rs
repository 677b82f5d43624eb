//! Rays, inside/outside and locating points on meshes.
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::vector::Vector;
use cgar::mesh::basic_types::{IntersectionHit, IntersectionResult, Mesh, PointInMeshResult};
use cgar::mesh::topology::{FindFaceResult, VertexRayResult, ray_segment_intersection_2d};
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::scalar::Scalar;
use rt::*;

type Solid = (Vec<[i32; 3]>, Vec<Tri>);

/// Convex closed surfaces first, then others.
fn tetra() -> Solid {
    (vec![[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, 4]], vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]])
}
fn pyramid() -> Solid {
    (
        vec![[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [1, 2, 3]],
        vec![[0, 2, 1], [0, 3, 2], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    )
}
fn cube() -> Solid {
    let v = (0..8).map(|i| [2 * (i & 1), 2 * (i >> 1 & 1), 2 * (i >> 2 & 1)]).collect();
    (
        v,
        vec![
            [0, 3, 1], [0, 2, 3], [4, 5, 7], [4, 7, 6], [0, 1, 5], [0, 5, 4],
            [2, 7, 3], [2, 6, 7], [0, 4, 6], [0, 6, 2], [1, 3, 7], [1, 7, 5],
        ],
    )
}
/// Two parallel triangles and a slanted one, open.
fn sheets() -> Solid {
    (
        vec![[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 2], [4, 0, 2], [0, 4, 2], [0, 0, 5]],
        vec![[0, 1, 2], [3, 4, 5], [4, 6, 5]],
    )
}
fn build<const N: usize>(sh: &(Vec<[i32; N]>, Vec<Tri>)) -> Mesh<R, N>
where
    cgar::geometry::point::Point<R, N>: cgar::geometry::point::PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: cgar::geometry::vector::VectorOps<R, N>,
{
    let mut m = Mesh::<R, N>::new();
    for p in &sh.0 {
        m.add_vertex(pt(&ipt(*p)));
    }
    for t in &sh.1 {
        m.add_triangle(t[0], t[1], t[2]);
    }
    m.build_boundary_loops();
    m
}
fn corners(sh: &Solid) -> Vec<[P3; 3]> {
    sh.1.iter().map(|t| [ipt(sh.0[t[0]]), ipt(sh.0[t[1]]), ipt(sh.0[t[2]])]).collect()
}
fn normal(t: &[P3; 3]) -> P3 {
    cross(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]))
}
fn covers(t: &[P3; 3], x: &P3) -> bool {
    let n = normal(t);
    (0..3).all(|i| !dot(&n, &cross(&sub(&t[(i + 1) % 3], &t[i]), &sub(x, &t[i]))).is_neg())
}
fn shoot(sh: &Solid, o: &P3, d: &P3, exact: bool) {
    let faces = corners(sh);
    let mut best: Option<Q> = None;
    for t in &faces {
        let n = normal(t);
        let (den, off) = (dot(&n, d), dot(&n, &sub(&t[0], o)));
        if den.is_zero() {
            assume(!off.is_zero());
            continue;
        }
        let at = off / &den;
        if at.is_neg() || !covers(t, &add(o, &scale(d, &at))) {
            continue;
        }
        if best.as_ref().is_none_or(|b| (&at - b).is_neg()) {
            best = Some(at);
        }
    }
    let m = build(sh);
    let tree = m.build_face_tree();
    let tol = if exact { Some(s::<R>(&q(0))) } else { None };
    let dir = Vector::<R, 3>::from_vals([s::<R>(&d[0]), s(&d[1]), s(&d[2])]);
    match (m.cast_ray_3(&pt(o), &dir, &tree, &tol), best) {
        (IntersectionResult::Miss, None) => reach("miss"),
        (IntersectionResult::Miss, Some(_)) => check(false, "a ray that meets the surface is reported to miss"),
        (IntersectionResult::Hit(..), None) => check(false, "a ray that misses the surface is reported to hit"),
        (IntersectionResult::Hit(hit, t), Some(b)) => {
            let t = back(&t);
            check((&t - &b).is_zero(), "the hit is the nearest one");
            let x = add(o, &scale(d, &b));
            let at = match hit {
                IntersectionHit::Vertex(v) => {
                    reach("vertex");
                    ipt(sh.0[v])
                }
                IntersectionHit::Edge(a, b, u) => {
                    reach("edge");
                    let side = sh.1.iter().any(|t| t.contains(&a) && t.contains(&b));
                    check(a != b && side, "the edge hit is an edge of the mesh");
                    let u = back(&u);
                    check(u.is_pos() && (q(1) - &u).is_pos(), "the place of an edge hit is inside the edge");
                    lerp(&ipt(sh.0[a]), &ipt(sh.0[b]), &u)
                }
                IntersectionHit::Face(f, w) => {
                    reach("face");
                    let w = [back(&w.0), back(&w.1), back(&w.2)];
                    check(w.iter().all(|x| x.is_pos()), "the weights of a face hit are positive");
                    check((&w[0] + &w[1] + &w[2] - q(1)).is_zero(), "the weights of a face hit add up to one");
                    let [i, j, k] = m.face_vertices(f).map(|v| ipt(sh.0[v]));
                    add(&add(&scale(&i, &w[0]), &scale(&j, &w[1])), &scale(&k, &w[2]))
                }
            };
            let e = sub(&at, &x);
            let close = is_zero_vec(&e) || !exact && !(dot(&e, &e) - frac(1, 1_000_000)).is_pos();
            check(close, "the hit is where the ray meets the surface");
        }
    }
    reach("end");
}
fn dirs() -> [[i32; 3]; 6] {
    [[1, 0, 0], [0, 0, -1], [1, 2, -3], [-1, 1, 1], [2, -1, 5], [0, -1, 1]]
}
fn near(o: &P3) {
    for c in o {
        assume_nonneg(&(c + q(100)));
        assume_nonneg(&(q(100) - c));
    }
}
/// Any origin, listed directions.
fn from_any(sh: &Solid) {
    let d = ipt(dirs()[select("dir", 6)]);
    let o = vpt::<3>("o");
    near(&o);
    shoot(sh, &o, &d, true);
}
fn ray_tetra() {
    from_any(&tetra())
}
fn ray_pyramid() {
    from_any(&pyramid())
}
fn ray_cube() {
    from_any(&cube())
}
fn ray_sheets() {
    from_any(&sheets())
}
/// Listed origins, any direction.
fn ray_turn() {
    let sh = [tetra(), pyramid(), sheets()][select("shape", 3)].clone();
    let o = ipt([[1, 1, 1], [5, 5, 3], [-1, 2, 1], [1, 1, -2]][select("origin", 4)]);
    let d = vpt::<3>("d");
    for c in &d {
        assume_nonneg(&(c + q(8)));
        assume_nonneg(&(q(8) - c));
    }
    // not so slow that the surface is beyond what a ray reaches
    assume((0..3).any(|i| !(&d[i] - q(1)).is_neg() || !(&d[i] + q(1)).is_pos()));
    shoot(&sh, &o, &d, true);
}
/// With the tolerance the library uses by default.
fn ray_loose() {
    let sh = tetra();
    let d = ipt(dirs()[2 + select("dir", 3)]);
    let o = vpt::<3>("o");
    near(&o);
    shoot(&sh, &o, &d, false);
}
/// Inside, on or outside a convex solid, from any point.
fn solid(sh: &Solid) {
    let p = vpt::<3>("p");
    near(&p);
    let m = build(sh);
    let tree = m.build_face_tree();
    let (mut out, mut on) = (false, false);
    for t in corners(sh) {
        let o = dot(&normal(&t), &sub(&p, &t[0]));
        out |= o.is_pos();
        on |= o.is_zero();
    }
    let want = match (out, on) {
        (true, _) => {
            reach("outside");
            PointInMeshResult::Outside
        }
        (_, true) => {
            reach("on");
            PointInMeshResult::OnSurface
        }
        _ => {
            reach("inside");
            PointInMeshResult::Inside
        }
    };
    check(m.point_in_mesh_3(&tree, &pt(&p)) == want, "inside, on or outside a convex solid");
    reach("end");
}
fn solid_tetra() {
    solid(&tetra())
}
fn solid_pyramid() {
    solid(&pyramid())
}
fn solid_cube() {
    solid(&cube())
}
/// Planar meshes: inside or outside, for points not on the border.
fn planar() {
    let meshes: [(Vec<[i32; 2]>, Vec<Tri>); 4] = [
        (vec![[0, 0], [4, 0], [1, 3]], vec![[0, 1, 2]]),
        (vec![[0, 0], [4, 0], [4, 4], [0, 4]], vec![[0, 1, 2], [0, 2, 3]]),
        // not convex
        (vec![[0, 0], [4, 0], [1, 1], [0, 4]], vec![[0, 1, 2], [0, 2, 3]]),
        // a fan around an inner corner
        (vec![[0, 0], [4, 0], [4, 4], [0, 4], [1, 2]], vec![[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]),
    ];
    let sh = &meshes[select("mesh", meshes.len())];
    let p = vpt::<2>("p");
    let mut inside = false;
    for t in &sh.1 {
        let mut neg = false;
        for i in 0..3 {
            let (a, b) = (t[i], t[(i + 1) % 3]);
            let o = orient2(&ipt(sh.0[a]), &ipt(sh.0[b]), &p);
            neg |= o.is_neg();
            let border = !sh.1.iter().any(|t| (0..3).any(|i| (t[i], t[(i + 1) % 3]) == (b, a)));
            if border && o.is_zero() {
                assume(!on_segment(&p, &ipt(sh.0[a]), &ipt(sh.0[b])));
            }
        }
        inside |= !neg;
    }
    let m = build(sh);
    check(m.point_in_mesh_2(&pt(&p)) == inside, "inside or outside a planar mesh");
    if inside {
        reach("inside");
    } else {
        reach("outside");
    }
}
/// From a corner of a face across it, in any direction.
fn from_corner() {
    let sh = [tetra(), sheets()][select("shape", 2)].clone();
    let m = build(&sh);
    let f = select("face", 3);
    let vs = m.face_vertices(f);
    let k = select("corner", 3);
    let (v, a, b) = (vs[k], vs[(k + 1) % 3], vs[(k + 2) % 3]);
    let d = vpt::<3>("d");
    let [pv, pa, pb] = [v, a, b].map(|i| ipt(sh.0[i]));
    // weights of the direction along the two sides
    let (e, g) = (sub(&pa, &pv), sub(&pb, &pv));
    let n = cross(&e, &g);
    let n2 = dot(&n, &n);
    let (x, y) = (dot(&n, &cross(&d, &g)) / &n2, dot(&n, &cross(&e, &d)) / &n2);
    let dir = Vector::<R, 3>::from_vals([s::<R>(&d[0]), s(&d[1]), s(&d[2])]);
    let r = if select("variant", 2) == 0 {
        m.cast_ray_from_vertex_in_triangle(f, v, &dir)
    } else {
        m.cast_ray_from_vertex_in_triangle_3(f, v, &dir)
    };
    match r {
        None => {
            check(!(x.is_pos() && !y.is_neg() || y.is_pos() && !x.is_neg()), "a ray into the face is lost");
            reach("none");
        }
        Some(VertexRayResult::CollinearWithEdge(he)) => {
            let (p, r) = (m.half_edges[m.half_edges[he].prev].vertex, m.half_edges[he].vertex);
            let ok = p == v && (r == a && y.is_zero() && x.is_pos() || r == b && x.is_zero() && y.is_pos())
                || r == v && (p == a && y.is_zero() && x.is_neg() || p == b && x.is_zero() && y.is_neg());
            check(ok, "a ray along an edge");
            reach("along");
        }
        Some(VertexRayResult::EdgeIntersection { half_edge, distance, edge_parameter }) => {
            check(x.is_pos() && y.is_pos(), "a ray leaves the face through the opposite edge");
            let (p, r) = (m.half_edges[m.half_edges[half_edge].prev].vertex, m.half_edges[half_edge].vertex);
            check((p, r) == (a, b), "the opposite edge of the face");
            let (t, u) = (back(&distance), back(&edge_parameter));
            let hit = add(&pv, &scale(&add(&scale(&e, &x), &scale(&g, &y)), &t));
            check(t.is_pos() && eqp(&hit, &lerp(&pa, &pb, &u)), "the crossing is on the ray and on the edge");
            reach("across");
        }
    }
}
/// A ray and a segment in the plane.
fn ray_segment() {
    let o = vpt::<2>("o");
    let d = ipt([[1, 0], [1, 2], [-2, 1], [0, 0]][select("dir", 4)]);
    let (a, b) = [([0, 0], [4, 0]), ([1, 1], [2, 3]), ([0, 0], [-2, 1])][select("segment", 3)];
    let (a, b) = (ipt(a), ipt(b));
    let dir = Vector::<R, 2>::from_vals([s::<R>(&d[0]), s(&d[1])]);
    let r = ray_segment_intersection_2d::<R>(&pt(&o), &dir, &pt(&a), &pt(&b));
    let ab = sub(&b, &a);
    let den = cross2(&d, &ab);
    let ao = sub(&a, &o);
    let want = if is_zero_vec(&d) {
        None
    } else if den.is_zero() {
        if cross2(&ao, &d).is_zero() {
            let (t, w) = (dot(&ao, &d) / dot(&d, &d), dot(&sub(&b, &o), &d) / dot(&d, &d));
            let (lo, hi) = if (&t - &w).is_pos() { (w, t) } else { (t, w) };
            if hi.is_neg() {
                None
            } else if lo.is_neg() {
                Some(q(0))
            } else {
                Some(lo)
            }
        } else {
            None
        }
    } else {
        let (t, u) = (cross2(&ao, &ab) / &den, cross2(&ao, &d) / &den);
        if t.is_neg() || u.is_neg() || (&u - q(1)).is_pos() { None } else { Some(t) }
    };
    match (r, want) {
        (None, None) => reach("miss"),
        (Some((t, u)), Some(w)) => {
            let (t, u) = (back(&t), back(&u));
            check((&t - &w).is_zero(), "the nearest common point");
            check(!u.is_neg() && !(&u - q(1)).is_pos(), "the place on the segment is within it");
            check(eqp(&add(&o, &scale(&d, &t)), &lerp(&a, &b, &u)), "the point is on both");
            reach("hit");
        }
        _ => check(false, "a ray meets a segment exactly when they share a point"),
    }
}
/// Where on a face a point of its plane lies.
fn on_face() {
    let sh = tetra();
    let m = build(&sh);
    let f = select("face", 4);
    let vs = m.face_vertices(f);
    let at = vs.map(|i| ipt::<3>(sh.0[i]));
    let (x, y) = (var("x"), var("y"));
    let w = [q(1) - &x - &y, x, y];
    let p = add(&add(&scale(&at[0], &w[0]), &scale(&at[1], &w[1])), &scale(&at[2], &w[2]));
    let inside = w.iter().all(|x| !x.is_neg());
    match m.barycentric_coords_on_face(f, &pt(&p)) {
        None => {
            check(!inside, "a point of the face has weights");
            reach("off");
        }
        Some(b) => {
            check(inside, "a point off the face has no weights");
            let b = [back(&b.0), back(&b.1), back(&b.2)];
            check((0..3).all(|i| (&b[i] - &w[i]).is_zero()), "the weights reproduce the point");
            match m.location_on_face(f, &pt(&p)) {
                FindFaceResult::Inside { f: g, bary } => {
                    let b = [back(&bary.0), back(&bary.1), back(&bary.2)];
                    check(g == f && (0..3).all(|i| w[i].is_pos() && (&b[i] - &w[i]).is_zero()), "inside the face");
                    reach("inside");
                }
                FindFaceResult::OnEdge { f: g, he, u } => {
                    let (a, c) = (m.half_edges[m.half_edges[he].prev].vertex, m.half_edges[he].vertex);
                    let e = lerp(&ipt(sh.0[a]), &ipt(sh.0[c]), &back(&u));
                    check(g == f && m.half_edges[he].face == Some(f) && eqp(&e, &p), "on an edge of the face");
                    check(w.iter().filter(|x| x.is_zero()).count() == 1, "inside an edge");
                    reach("edge");
                }
                FindFaceResult::OnVertex { f: g, v } => {
                    check(g == f && eqp(&ipt(sh.0[v]), &p), "at a corner of the face");
                    reach("vertex");
                }
            }
        }
    }
    let on = m.point_is_on_some_half_edge(f, &pt(&p));
    match on {
        None => check(!inside || w.iter().all(|x| x.is_pos()), "a border point is on some edge"),
        Some((he, u)) => {
            let (a, c) = (m.half_edges[m.half_edges[he].prev].vertex, m.half_edges[he].vertex);
            check(inside && eqp(&lerp(&ipt(sh.0[a]), &ipt(sh.0[c]), &back(&u)), &p), "the edge a point is on");
        }
    }
}
/// Faces around a point, found through the box tree.
fn around() {
    let sh = [tetra(), sheets()][select("shape", 2)].clone();
    let m = build(&sh);
    let mut tree = m.build_face_tree();
    let p = vpt::<3>("p");
    near(&p);
    let got = m.faces_containing_point_aabb(&mut tree, &pt(&p));
    for (f, t) in corners(&sh).iter().enumerate() {
        let n = normal(t);
        let off = dot(&n, &sub(&p, &t[0]));
        let n2 = dot(&n, &n);
        let within = (0..3).all(|i| dot(&n, &cross(&sub(&t[(i + 1) % 3], &t[i]), &sub(&p, &t[i]))).is_pos());
        if got.contains(&f) {
            check(within, "a face found around a point covers it");
            check(!(&off * &off - frac(1, 100_000) * frac(1, 100_000) * &n2).is_pos(), "a face found around a point is near it");
            reach("found");
        } else {
            check(!(within && off.is_zero()), "a face containing the point is missed");
            reach("not");
        }
    }
    check(got.iter().all(|f| *f < sh.1.len()), "found faces are faces of the mesh");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C13", ray_tetra, 0, ["end", "miss", "vertex", "edge", "face"], "tetrahedron, 6 directions, every origin within 100"),
        h!("C13", ray_pyramid, 0, ["end", "miss", "vertex", "edge", "face"], "square pyramid, 6 directions, every origin within 100"),
        h!("C13", ray_cube, 0, ["end", "miss", "vertex", "edge", "face"], "cube of 12 faces, 6 directions, every origin within 100"),
        h!("C13", ray_sheets, 0, ["end", "miss", "vertex", "edge", "face"], "three open triangles behind each other, 6 directions, every origin within 100"),
        h!("C13", ray_turn, 0, ["end", "miss", "vertex", "edge", "face"], "3 surfaces, 4 origins, every direction of length 1 to 8"),
        h!("C13", ray_loose, 0, ["end", "miss", "vertex", "edge", "face"], "tetrahedron, 3 directions, every origin, default tolerance"),
        h!("C13", solid_tetra, 0, ["end", "inside", "on", "outside"], "tetrahedron, every point within 100"),
        h!("C13", solid_pyramid, 0, ["end", "inside", "on", "outside"], "square pyramid, every point within 100"),
        h!("C13", solid_cube, 0, ["end", "inside", "on", "outside"], "cube, every point within 100"),
        h!("C13", planar, 0, ["inside", "outside"], "4 planar meshes, every point off the border"),
        h!("C13", from_corner, 0, ["none", "along", "across"], "6 faces, every corner, every direction"),
        h!("C13", ray_segment, 0, ["miss", "hit"], "4 directions, 3 segments, every origin"),
        h!("C13", on_face, 0, ["off", "inside", "edge", "vertex"], "4 faces, every point of their planes"),
        h!("C13", around, 0, ["found", "not"], "2 surfaces, every point within 100"),
    ]
}
