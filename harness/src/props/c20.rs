//! What a mesh reports about its vertices, edges and faces.
use super::c10::{built, shapes};
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::{Add, Div, Mul, Neg, Sub};

type M = Mesh<R, 3>;

/// The third corner of the live face that has the directed side.
fn third(w: &Model, a: usize, b: usize) -> Option<usize> {
    w.faces.values().find(|t| Model::sides(**t).contains(&(a, b))).map(|t| *t.iter().find(|x| **x != a && **x != b).unwrap())
}
fn turns(m: &M, w: &Model, v: usize) {
    let ring = m.vertex_ring_ccw(v);
    let n = ring.neighbors_ccw.len();
    check(ring.center == v, "the ring is that of the vertex");
    check(ring.halfedges_ccw.len() == n && ring.faces_ccw.len() == n, "a ring has as many edges as faces and neighbours");
    check(n == w.ring(v).len(), "a ring visits every neighbour once");
    for i in 0..n {
        let (a, b) = (ring.neighbors_ccw[i], ring.neighbors_ccw[(i + 1) % n]);
        let h = ring.halfedges_ccw[i];
        check(m.half_edge_between(v, a) == Some(h), "the edges of a ring lead to its neighbours");
        check(m.source(h) == v && m.target(h) == a, "the edges of a ring start at the vertex");
        match ring.faces_ccw[i] {
            Some(f) => {
                check(w.faces.get(&f) == Some(&canon([v, a, b])), "a ring turns with its faces");
            }
            None => check(third(w, v, a).is_none(), "a ring has a gap only where a face is missing"),
        }
    }
    let gaps = ring.faces_ccw.iter().filter(|f| f.is_none()).count();
    check(gaps == w.on_border(v) as usize, "a ring has one gap at the border and none inside");
    check(ring.is_border == (gaps > 0), "the ring knows a border vertex");
    let out = m.outgoing_half_edges(v);
    check(out.len() == n, "every outgoing edge is listed once");
    check(out.into_iter().collect::<BTreeSet<_>>() == ring.halfedges_ccw.iter().cloned().collect(), "the outgoing edges");
    let near: BTreeSet<usize> = m.faces_around_vertex(v).into_iter().collect();
    check(near == w.around(v), "the faces around a vertex");
    check(m.incident_faces(v).into_iter().collect::<BTreeSet<_>>() == w.around(v), "the incident faces");
    for &f in w.faces.keys() {
        check(m.vertex_touches_face(v, f) == w.around(v).contains(&f), "a vertex touches its faces");
    }
}
fn pair(m: &M, w: &Model, a: usize, b: usize) {
    let linked = w.ring(a).contains(&b);
    check(m.are_vertices_connected(a, b) == linked, "connected vertices");
    let h = m.vertices_connection(a, b);
    check((h != usize::MAX) == linked, "the connection of two vertices");
    let both = m.edge_half_edges(a, b);
    check(both.is_some() == linked, "the two directions of an edge");
    let r = m.ring_pair(a, b);
    if !linked {
        check(r.is_none(), "no common ring without an edge");
        check(!m.collapse_link_condition_triangle(a, b), "no link without an edge");
        return;
    }
    check(m.target(h) == b && m.source(h) == a, "the connection leads from one vertex to the other");
    check(both == Some((h, m.vertices_connection(b, a))), "the two directions of an edge");
    let s = m.segment_from_half_edge(h);
    let [x, y] = [a, b].map(|v| unpt(&m.vertices[v].position));
    check(eqp(&unpt(&s.a), &x) && eqp(&unpt(&s.b), &y), "the segment of an edge");
    if w.fans(a) > 1 || w.fans(b) > 1 {
        return;
    }
    check(r.is_some(), "an edge has a common ring");
    let Some(r) = r else { return };
    let (x, y) = (third(w, a, b), third(w, b, a));
    check(r.opposite_a == x && r.opposite_b == y, "the corners opposite an edge");
    check(r.is_border_edge == (x.is_none() || y.is_none()), "border edges");
    check(r.idx_v1_in_ring0.map(|i| r.ring0.neighbors_ccw[i]) == Some(b), "the place of one end in the ring of the other");
    check(r.idx_v0_in_ring1.map(|i| r.ring1.neighbors_ccw[i]) == Some(a), "the place of one end in the ring of the other");
    let (mut p, mut q) = (w.ring(a), w.ring(b));
    p.remove(&b);
    q.remove(&a);
    let common: BTreeSet<usize> = p.intersection(&q).cloned().collect();
    check(r.common_neighbors.iter().cloned().collect::<BTreeSet<_>>() == common, "the common neighbours");
    check(r.union_neighbors.iter().cloned().collect::<BTreeSet<_>>() == p.union(&q).cloned().collect(), "the neighbours of either");
    let expected: BTreeSet<usize> = x.into_iter().chain(y).collect();
    check(m.collapse_link_condition_triangle(a, b) == (common == expected), "the link condition");
}
fn next_to(w: &Model, f: usize) -> BTreeSet<usize> {
    let t = w.faces[&f];
    let touch = |u: &Tri| Model::sides(*u).iter().any(|&(a, b)| Model::sides(t).contains(&(b, a)));
    w.faces.iter().filter(|(&g, u)| g != f && touch(u)).map(|(g, _)| *g).collect()
}
fn reports(m: &M, w: &Model) {
    let n = m.vertices.len();
    for v in 0..n {
        match w.fans(v) {
            0 => {
                reach("bare");
                check(m.vertex_ring_ccw(v).neighbors_ccw.is_empty(), "a bare vertex has an empty ring");
            }
            1 => {
                reach(if w.on_border(v) { "border" } else { "inner" });
                turns(m, w, v);
            }
            _ => reach("bow tie"),
        }
        for u in 0..n {
            if u != v {
                pair(m, w, v, u);
            }
        }
    }
    let border: BTreeSet<usize> = (0..n).filter(|&v| w.on_border(v)).collect();
    if (0..n).all(|v| w.fans(v) <= 1) {
        let got = m.boundary_vertices();
        check(got.len() == border.len(), "border vertices are listed once");
        check(got.into_iter().collect::<BTreeSet<_>>() == border, "the border vertices");
    }
    let graph = m.build_face_adjacency_graph();
    for f in 0..m.faces.len() {
        let got: Vec<usize> = graph.get(&f).cloned().unwrap_or_default();
        let direct: BTreeSet<usize> = m.adjacent_faces(f).collect();
        let want = if w.faces.contains_key(&f) { next_to(w, f) } else { BTreeSet::new() };
        check(direct == want, "the faces next to a face");
        check(got.into_iter().collect::<BTreeSet<_>>() == want, "the faces next to a face in the graph");
    }
    for (&f, t) in &w.faces {
        let hs: Vec<(usize, usize)> = m.face_half_edges(f).iter().map(|&h| (m.source(h), m.target(h))).collect();
        check(hs.len() == 3, "a face has three edges");
        check(hs.iter().all(|s| Model::sides(*t).contains(s)), "the edges of a face");
        if t.iter().all(|&v| w.fans(v) == 1) {
            let twins = w.faces.values().filter(|u| t.iter().all(|v| u.contains(v))).count();
            let g = m.face_from_vertices(t[0], t[1], t[2]);
            check(if twins == 1 { g == f } else { w.faces.contains_key(&g) }, "the face with given corners");
        }
    }
}
/// Shapes with faces removed and put back.
fn shape(removals: usize, backs: usize) {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let (mut m, mut w) = built(*nv, ts);
    let mut gone = vec![];
    for k in 0..removals {
        let left: Vec<usize> = w.faces.keys().cloned().collect();
        let i = select(&format!("rem{}", k), left.len() + 1);
        if i < left.len() {
            gone.push(w.faces[&left[i]]);
            m.remove_triangle(left[i]);
            w.faces.remove(&left[i]);
        }
    }
    for k in 0..backs.min(gone.len()) {
        let i = select(&format!("back{}", k), gone.len() + 1);
        if i < gone.len() {
            let t = gone.remove(i);
            let f = m.add_triangle(t[0], t[1], t[2]);
            check(f + 1 == m.faces.len(), "the face fits again");
            w.faces.insert(f, t);
        }
    }
    check(live(&m) == w.faces, "the live faces");
    reports(&m, &w);
    reach("end");
}
/// A mesh changed by flipping, splitting and collapsing.
fn edited(steps: usize) {
    let all = shapes();
    let (_, nv, ts) = &all[[1, 2, 3, 7][select("shape", 4)]];
    let (mut m, _) = built(*nv, ts);
    for k in 0..steps {
        let edges: BTreeMap<(usize, usize), usize> = m.edge_map.iter().filter(|(e, _)| e.0 < e.1).map(|(e, h)| (*e, *h)).collect();
        let i = select(&format!("edge{}", k), edges.len());
        let (&(a, b), &h) = edges.iter().nth(i).unwrap();
        match select(&format!("how{}", k), 3) {
            0 => {
                if m.flip_edge(h).is_ok() {
                    reach("flipped");
                }
            }
            1 => {
                let mut tree = m.build_face_tree();
                let [x, y] = [a, b].map(|v| unpt(&m.vertices[v].position));
                if m.split_edge(&mut tree, h, &pt(&lerp(&x, &y, &frac(1, 2))), true).is_ok() {
                    reach("split");
                }
            }
            _ => {
                if m.collapse_edge(a, b).is_ok() {
                    reach("collapsed");
                }
            }
        }
    }
    let w = Model { faces: live(&m) };
    reports(&m, &w);
}
fn edited_once() {
    edited(1)
}
fn edited_twice() {
    edited(2)
}
fn around() {
    shape(2, 1)
}
fn around_more() {
    shape(3, 2)
}

/// One triangle with a corner that moves along a line, on axes and off them.
fn corner<const N: usize>() -> [[Q; N]; 3] {
    let t = var_at("t", 1, 3);
    assume_nonneg(&(q(1000) - &t));
    assume_nonneg(&(q(1000) + &t));
    let lines: [([i32; 3], [i32; 3]); 4] = [([0, 0, 0], [1, 0, 0]), ([2, 1, -1], [0, 1, 1]), ([-3, 2, 5], [1, -2, 2]), ([1, 1, 1], [3, 1, 0])];
    let (o, d) = lines[select("line", lines.len())];
    let at = |p: [i32; 3]| -> [Q; N] { std::array::from_fn(|i| q(p[i])) };
    let x = add(&at(o), &scale(&at(d), &t));
    let (y, z) = (at([7, 3, 2]), at([-2, 5, 11]));
    match select("turn", 3) {
        0 => [x, y, z],
        1 => [z, x, y],
        _ => [y, z, x],
    }
}
fn near(a: &Q, b: &Q) -> bool {
    let d = a - b;
    !(frac(1, 1 << 20) - &d).is_neg() && !(frac(1, 1 << 20) + &d).is_neg()
}
/// What does not depend on the dimension; returns the mesh and the corners.
fn common<T: Scalar, const N: usize>(p: &[[Q; N]; 3]) -> Mesh<T, N>
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T> + Neg<Output = T>,
{
    let mut m = Mesh::<T, N>::new();
    for k in 0..3 {
        m.add_vertex(pt(&std::array::from_fn(|i| q(place(k)[i]))));
    }
    check(m.add_triangle(0, 1, 2) == 0, "the face is added");
    for k in 0..3 {
        m.vertices[k].position = pt(&p[k]);
    }
    let third = frac(1, 3);
    let c: [Q; N] = scale(&add(&add(&p[0], &p[1]), &p[2]), &third);
    let got = m.face_centroid(0);
    for i in 0..N {
        check((back(&got[i]) - &c[i]).is_zero(), "the centre of a face");
    }
    let got = unpt(&m.face_centroid_fast(0));
    for i in 0..N {
        check(near(&got[i], &c[i]), "the quick centre of a face");
    }
    let b = m.face_aabb(0);
    let (lo, hi) = (unpt(b.min()), unpt(b.max()));
    for i in 0..N {
        let (mut l, mut h) = (p[0][i].clone(), p[0][i].clone());
        for x in &p[1..] {
            if x[i] < l {
                l = x[i].clone();
            }
            if h < x[i] {
                h = x[i].clone();
            }
        }
        check(near(&lo[i], &l) && near(&hi[i], &h), "the box of a face");
    }
    m
}
fn flat<T: Scalar>()
where
    Point<T, 2>: PointOps<T, 2, Vector = Vector<T, 2>>,
    Vector<T, 2>: VectorOps<T, 2>,
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T> + Neg<Output = T>,
{
    let p = corner::<2>();
    let m = common::<T, 2>(&p);
    let o = orient2(&p[0], &p[1], &p[2]);
    reach(if o.is_zero() { "thin" } else { "wide" });
    let o = if o.is_neg() { q(0) - &o } else { o };
    check((back(&m.face_area(0)) * q(2) - &o).is_zero(), "the area of a face");
}
fn flat_r() {
    flat::<R>()
}
fn flat_l() {
    flat::<L>()
}
macro_rules! space {
    ($name:ident, $t:ty) => {
        fn $name() {
            let p = corner::<3>();
            let m = common::<$t, 3>(&p);
            let n = cross(&sub(&p[1], &p[0]), &sub(&p[2], &p[0]));
            reach(if is_zero_vec(&n) { "thin" } else { "wide" });
            let got = m.face_normal(0);
            let got: [Q; 3] = std::array::from_fn(|i| back(&got[i]));
            check(is_zero_vec(&sub(&got, &n)), "the normal of a face");
            check((back(&m.face_area(0)) * q(4) - dot(&n, &n)).is_zero(), "the squared area of a face");
            let s = m.plane_from_face(0);
            let u: [Q; 3] = std::array::from_fn(|i| back(&s.normal[i]));
            check(is_zero_vec(&cross(&u, &n)), "the plane of a face has its normal");
            if !is_zero_vec(&n) {
                check(dot(&u, &n).is_pos(), "the plane of a face looks its way");
                for x in &p {
                    check((dot(&u, x) + back(&s.d)).is_zero(), "the plane of a face holds its corners");
                }
            }
            let k = select("moved", 3);
            let to = ipt([5, -4, 6]);
            let mut r = p.clone();
            r[k] = to.clone();
            let n = cross(&sub(&r[1], &r[0]), &sub(&r[2], &r[0]));
            let got = back(&m.area2x4_after_move(0, k, &pt(&to)));
            check((got - dot(&n, &n)).is_zero(), "the area after moving a corner");
        }
    };
}
space!(space_r, R);
space!(space_l, L);
/// A point along an edge of a face.
fn along() {
    let p = corner::<3>();
    let m = common::<R, 3>(&p);
    let u = var_at("u", 1, 4);
    assume_nonneg(&(q(3) - &u));
    assume_nonneg(&(q(3) + &u));
    let k = select("edge", 3);
    let (a, b) = (k, (k + 1) % 3);
    if eqp(&p[a], &p[b]) {
        return;
    }
    let h = m.vertices_connection(a, b);
    let got = m.point_on_half_edge(h, &pt(&lerp(&p[a], &p[b], &u)));
    if u.is_neg() || (q(1) - &u).is_neg() {
        check(got.is_none(), "a point beyond the ends is not on the edge");
        reach("beyond");
    } else {
        check(got.is_some_and(|x| (back(&x) - &u).is_zero()), "the place of a point on an edge");
        reach("on");
    }
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C20", around, 0, ["end", "bare", "border", "inner", "bow tie", "refused"], "9 starting meshes of up to 8 faces, any 2 removals, one face put back"),
        h!("C20", around_more, 1, ["end", "bare", "border", "inner", "bow tie", "refused"], "9 starting meshes of up to 8 faces, any 3 removals, up to 2 faces put back"),
        h!("C20", edited_once, 0, ["bare", "border", "inner", "flipped", "split", "collapsed"], "4 starting meshes, any edge flipped, split or collapsed"),
        h!("C20", edited_twice, 0, ["bare", "border", "inner", "flipped", "split", "collapsed"], "4 starting meshes, any two edges in turn flipped, split or collapsed"),
        h!("C20", flat_r, 0, ["thin", "wide"], "a triangle in the plane, one corner along 4 lines up to 1000 away, exact numbers"),
        h!("C20", flat_l, 0, ["thin", "wide"], "a triangle in the plane, one corner along 4 lines up to 1000 away, lazy numbers"),
        h!("C20", space_r, 0, ["wide"], "a triangle in space, one corner along 4 lines up to 1000 away, any corner moved, exact numbers"),
        h!("C20", space_l, 0, ["wide"], "a triangle in space, one corner along 4 lines up to 1000 away, any corner moved, lazy numbers"),
        h!("C20", along, 0, ["on", "beyond"], "edges of a triangle with one moving corner, places from -3 to 3 along the edge"),
    ]
}
