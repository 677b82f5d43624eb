//! Splitting edges and faces.
use super::c10::shapes;
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::mesh::basic_types::{Mesh, SplitResult, SplitResultKind};
use cgar::mesh::topology::FindFaceResult;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::{Add, Div, Mul, Neg, Sub};

type Tree<T, const N: usize> = AabbTree<T, N, Point<T, N>, usize>;

fn positions<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Vec<[Q; N]> {
    m.vertices.iter().map(|v| unpt(&v.position)).collect()
}
/// Faces that replace t when its directed edge (x, y) is split at w.
fn halves(t: Tri, x: usize, y: usize, w: usize) -> Option<[Tri; 2]> {
    (0..3).find(|&i| t[i] == x && t[(i + 1) % 3] == y).map(|i| {
        let z = t[(i + 2) % 3];
        [canon([x, w, z]), canon([w, y, z])]
    })
}
fn listed(r: &SplitResult) -> BTreeSet<usize> {
    r.new_faces.iter().cloned().filter(|&f| f != usize::MAX).collect()
}
/// The faces after a split: the old ones without `gone`, plus `new`, and the
/// result must name exactly the new ones.
fn replaced<T: Scalar, const N: usize>(m: &Mesh<T, N>, w: &mut Model, gone: &[usize], new: Vec<Tri>, r: &SplitResult) {
    valid(m);
    let now = live(m);
    let mut kept = w.faces.clone();
    for f in gone {
        kept.remove(f);
    }
    for (f, t) in &kept {
        check(now.get(f) == Some(t), "faces away from the split are untouched");
    }
    let added: BTreeMap<usize, Tri> = now.iter().filter(|(f, _)| !kept.contains_key(f)).map(|(f, t)| (*f, *t)).collect();
    let mut a: Vec<Tri> = added.values().cloned().collect();
    let mut b = new;
    a.sort();
    b.sort();
    check(a == b, "the new faces cover the split ones with the same orientation");
    check(added.keys().cloned().collect::<BTreeSet<_>>() == listed(r), "the result names the new faces");
    w.faces = now;
}
fn split_edge_at<T: Scalar, const N: usize>(m: &mut Mesh<T, N>, tree: &mut Tree<T, N>, w: &mut Model, he: usize, at: &[Q; N], upd: bool)
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let before = positions(m);
    let (x, y) = (m.half_edges[m.half_edges[he].twin].vertex, m.half_edges[he].vertex);
    let r = m.split_edge(tree, he, &pt::<T, N>(at), upd);
    let Ok(r) = r else {
        check(false, "an edge can be split");
        return;
    };
    check(matches!(r.kind, SplitResultKind::SplitEdge), "the edge is split");
    check(r.vertex == before.len() && m.vertices.len() == before.len() + 1, "one vertex is added");
    let now = positions(m);
    check(eqp(&now[r.vertex], at), "the new vertex is at the given place");
    for i in 0..before.len() {
        check(eqp(&before[i], &now[i]), "no other vertex moves");
    }
    let (mut gone, mut new) = (vec![], vec![]);
    for (f, t) in &w.faces {
        for (a, b) in [(x, y), (y, x)] {
            if let Some(h) = halves(*t, a, b, r.vertex) {
                gone.push(*f);
                new.extend(h);
            }
        }
    }
    if gone.len() == 1 {
        reach("border edge");
    } else {
        reach("inner edge");
    }
    replaced(m, w, &gone, new, &r);
}
fn split_face_at<T: Scalar, const N: usize>(m: &mut Mesh<T, N>, tree: &mut Tree<T, N>, w: &mut Model, f: usize, at: &[Q; N], upd: bool)
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let before = positions(m);
    let r = m.split_face(tree, f, &pt::<T, N>(at), upd);
    let Ok(r) = r else {
        check(false, "a face can be split");
        return;
    };
    check(matches!(r.kind, SplitResultKind::SplitFace), "the face is split");
    check(r.vertex == before.len() && m.vertices.len() == before.len() + 1, "one vertex is added");
    let now = positions(m);
    check(eqp(&now[r.vertex], at), "the new vertex is at the given place");
    for i in 0..before.len() {
        check(eqp(&before[i], &now[i]), "no other vertex moves");
    }
    let t = w.faces[&f];
    let v = r.vertex;
    replaced(m, w, &[f], vec![canon([t[0], t[1], v]), canon([t[1], t[2], v]), canon([t[2], t[0], v])], &r);
    reach("face");
}
fn around<T: Scalar, const N: usize>(ps: &[[Q; N]]) -> Aabb<T, N, Point<T, N>>
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let mut lo = ps[0].clone();
    let mut hi = ps[0].clone();
    for p in ps {
        for i in 0..N {
            if p[i] < lo[i] {
                lo[i] = p[i].clone();
            }
            if p[i] > hi[i] {
                hi[i] = p[i].clone();
            }
        }
    }
    Aabb::new(pt::<T, N>(&lo), pt::<T, N>(&hi))
}
/// The face tree finds each live face where it is and no split face anywhere.
fn tree_agrees(m: &Mesh<R, 3>, tree: &Tree<R, 3>, w: &Model) {
    let at = positions(m);
    let mut out = vec![];
    tree.query_valid(&around::<R, 3>(&at), &mut out);
    let got: BTreeSet<usize> = out.into_iter().cloned().collect();
    check(got == w.faces.keys().cloned().collect(), "the tree holds the live faces");
    for (f, t) in &w.faces {
        let mut out = vec![];
        tree.query_valid(&around::<R, 3>(&[at[t[0]].clone(), at[t[1]].clone(), at[t[2]].clone()]), &mut out);
        check(out.contains(&f), "the tree finds a face at its place");
    }
}
/// Any sequence of edge and face splits from each starting mesh.
fn sequence(steps: usize, upd: bool) {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let mut m = fixed::<R, 3>(*nv);
    for t in ts {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let mut w = Model { faces: live(&m) };
    let mut tree = m.build_face_tree();
    for k in 0..steps {
        let at = positions(&m);
        let fs: Vec<usize> = w.faces.keys().cloned().collect();
        let i = select(&format!("step{}", k), 4 * fs.len());
        let f = fs[i / 4];
        if i % 4 == 3 {
            let t = w.faces[&f];
            let c = scale(&add(&add(&at[t[0]], &at[t[1]]), &at[t[2]]), &frac(1, 3));
            split_face_at(&mut m, &mut tree, &mut w, f, &c, upd);
        } else {
            let mut he = m.faces[f].half_edge;
            for _ in 0..i % 4 {
                he = m.half_edges[he].next;
            }
            // a border edge can be named from its open side too
            let twin = m.half_edges[he].twin;
            if m.half_edges[twin].face.is_none() && select(&format!("side{}", k), 2) == 1 {
                he = twin;
            }
            let (x, y) = (m.half_edges[m.half_edges[he].twin].vertex, m.half_edges[he].vertex);
            let c = lerp(&at[x], &at[y], &frac(1, 3));
            split_edge_at(&mut m, &mut tree, &mut w, he, &c, upd);
        }
    }
    if upd {
        tree_agrees(&m, &tree, &w);
    }
    reach("end");
}
fn once() {
    sequence(1, true)
}
fn twice() {
    sequence(2, true)
}
fn thrice() {
    sequence(3, false)
}
/// Where on its edge the new vertex lies makes no difference: the end points
/// are anywhere, the split position is any point between them.
fn anywhere() {
    let mut m = fixed::<R, 3>(5);
    for t in [[0, 1, 2], [1, 0, 3], [1, 3, 4]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let mut w = Model { faces: live(&m) };
    let edge = [(0, 1), (1, 0), (1, 2), (3, 1), (1, 3)][select("edge", 5)];
    let mut tree = m.build_face_tree();
    let at = ipt([1, -2, 3]);
    let d = vpt::<3>("d");
    let t = var_at("t", 1, 2);
    assume_pos(&t);
    assume_pos(&(q(1) - &t));
    assume(!is_zero_vec(&d));
    m.vertices[edge.0].position = pt(&sub(&at, &scale(&d, &t)));
    m.vertices[edge.1].position = pt(&add(&at, &scale(&d, &(q(1) - &t))));
    let he = m.half_edge_between(edge.0, edge.1).unwrap();
    split_edge_at(&mut m, &mut tree, &mut w, he, &at, false);
    // The parts are where they should be.
    let (a, b) = (unpt(&m.vertices[edge.0].position), unpt(&m.vertices[edge.1].position));
    check(on_segment(&unpt(&m.vertices[5].position), &a, &b), "the new vertex lies on the edge");
    reach("end");
}
/// Asking for a split where a vertex already is.
fn at_vertex() {
    let mut m = fixed::<R, 3>(4);
    for t in [[0, 1, 2], [1, 0, 3]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let before = snap(&m);
    let mut tree = m.build_face_tree();
    let he = select("edge", m.half_edges.len());
    if m.half_edges[he].face.is_none() {
        return;
    }
    let v = if select("end", 2) == 0 { m.half_edges[he].vertex } else { m.half_edges[m.half_edges[he].twin].vertex };
    let p = m.vertices[v].position.clone();
    let r = m.split_edge(&mut tree, he, &p, true).unwrap();
    check(matches!(r.kind, SplitResultKind::NoSplit) && r.vertex == v, "splitting at an end point gives that vertex");
    check(snap(&m) == before, "splitting at an end point changes nothing");
    let r = m.split_face(&mut tree, m.half_edges[he].face.unwrap(), &p, true).unwrap();
    check(matches!(r.kind, SplitResultKind::NoSplit) && r.vertex == v, "splitting a face at a corner gives that vertex");
    check(snap(&m) == before, "splitting a face at a corner changes nothing");
    reach("end");
}

/// A found place must really contain the point.
fn judge_place<T: Scalar, const N: usize>(m: &Mesh<T, N>, r: &FindFaceResult<T>, p: &[Q; N]) {
    let at = positions(m);
    match r {
        FindFaceResult::Inside { f, bary } => {
            check(!m.faces[*f].removed, "the face found is live");
            let t = face_of(m, *f);
            let l = [back(&bary.0), back(&bary.1), back(&bary.2)];
            let sum = add(&add(&scale(&at[t[0]], &l[0]), &scale(&at[t[1]], &l[1])), &scale(&at[t[2]], &l[2]));
            check(eqp(&sum, p), "the weights reproduce the point");
            check(l.iter().all(|x| x.is_pos()), "the point is strictly inside the face found");
            reach("inside");
        }
        FindFaceResult::OnEdge { f, he, u } => {
            check(!m.half_edges[*he].removed && m.half_edges[*he].face == Some(*f), "the edge found is an edge of the face found");
            let (x, y) = (m.half_edges[m.half_edges[*he].twin].vertex, m.half_edges[*he].vertex);
            let u = back(u);
            check(eqp(&lerp(&at[x], &at[y], &u), p), "the edge parameter reproduces the point");
            check(u.is_pos() && (q(1) - &u).is_pos(), "the point is strictly inside the edge found");
            reach("on edge");
        }
        FindFaceResult::OnVertex { f, v } => {
            check(eqp(&at[*v], p), "the vertex found is at the point");
            check(face_of(m, *f).contains(v), "the vertex found is a corner of the face found");
            reach("on vertex");
        }
    }
}
fn face_of<T: Scalar, const N: usize>(m: &Mesh<T, N>, f: usize) -> Tri {
    let a = m.faces[f].half_edge;
    let b = m.half_edges[a].next;
    let c = m.half_edges[b].next;
    [m.half_edges[c].vertex, m.half_edges[a].vertex, m.half_edges[b].vertex]
}
/// Weights of a point of a closed triangle.
fn weights() -> [Q; 3] {
    let (a, b) = (var_at("l0", 1, 4), var_at("l1", 1, 4));
    let c = q(1) - &a - &b;
    for x in [&a, &b, &c] {
        assume_nonneg(x);
    }
    [a, b, c]
}
fn mix<const N: usize>(at: &[[Q; N]], t: Tri, l: &[Q; 3]) -> [Q; N] {
    add(&add(&scale(&at[t[0]], &l[0]), &scale(&at[t[1]], &l[1])), &scale(&at[t[2]], &l[2]))
}
fn flat() -> Mesh<R, 2> {
    let mut m = Mesh::<R, 2>::new();
    for p in [[0, 0], [6, 0], [0, 6], [7, 6], [3, -5]] {
        m.add_vertex(pt(&ipt(p)));
    }
    for t in [[0, 1, 2], [1, 3, 2], [0, 4, 1]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    m
}
/// Every point of a face that was split is found again from the old face.
fn find_flat(kind: usize) {
    let mut m = flat();
    let at = positions(&m);
    let t = face_of(&m, 0);
    let p = mix(&at, t, &weights());
    let mut tree = m.build_face_tree();
    match kind {
        0 => {
            m.split_face(&mut tree, 0, &pt(&ipt([2, 2])), true).unwrap();
        }
        1 => {
            let he = m.half_edge_between(1, 2).unwrap();
            m.split_edge(&mut tree, he, &pt(&ipt([2, 4])), true).unwrap();
        }
        _ => {
            m.split_face(&mut tree, 0, &pt(&ipt([2, 2])), true).unwrap();
            let he = m.half_edge_between(0, 1).unwrap();
            m.split_edge(&mut tree, he, &pt(&ipt([2, 0])), true).unwrap();
        }
    }
    valid(&m);
    let r = m.find_valid_face(0, &pt(&p));
    judge_place(&m, &r, &p);
    reach("end");
}
fn find_flat_face() {
    find_flat(0)
}
fn find_flat_edge() {
    find_flat(1)
}
fn find_flat_both() {
    find_flat(2)
}
/// From a neighbouring face the walk arrives at the right one.
fn find_walk() {
    let m = flat();
    let at = positions(&m);
    let goal = select("goal", 3);
    let start = select("start", 3);
    let p = mix(&at, face_of(&m, goal), &weights());
    let r = m.find_valid_face(start, &pt(&p));
    judge_place(&m, &r, &p);
    reach("end");
}
fn tetra() -> Mesh<R, 3> {
    let mut m = Mesh::<R, 3>::new();
    for p in [[0, 0, 0], [6, 0, 0], [0, 6, 0], [1, 1, 6]] {
        m.add_vertex(pt(&ipt(p)));
    }
    for t in [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    m
}
/// In space too: a point of a split face of a closed surface.
fn find_solid() {
    let mut m = tetra();
    let f = select("face", 4);
    let at = positions(&m);
    let t = face_of(&m, f);
    let p = mix(&at, t, &weights());
    let mut tree = m.build_face_tree();
    let third = frac(1, 3);
    let c = mix(&at, t, &[third.clone(), third.clone(), third]);
    m.split_face(&mut tree, f, &pt(&c), true).unwrap();
    valid(&m);
    let r = m.find_valid_face(f, &pt(&p));
    judge_place(&m, &r, &p);
    reach("end");
}
/// From one face of a closed surface to a point of another.
fn walk_solid() {
    let m = tetra();
    let (f, g) = (select("face", 4), select("start", 4));
    let at = positions(&m);
    let p = mix(&at, face_of(&m, f), &weights());
    let r = m.find_valid_face(g, &pt(&p));
    judge_place(&m, &r, &p);
    reach("end");
}
/// Every point of an edge that was split is found again from the old edge.
fn find_edge_flat() {
    let mut m = flat();
    let (x, y) = [(1, 2), (2, 1), (2, 0), (0, 1)][select("edge", 4)];
    let he = m.half_edge_between(x, y).unwrap();
    let at = positions(&m);
    let mut tree = m.build_face_tree();
    m.split_edge(&mut tree, he, &pt(&lerp(&at[x], &at[y], &frac(1, 3))), true).unwrap();
    edge_found(&m, he, &at[x], &at[y]);
}
fn find_edge_solid() {
    let mut m = tetra();
    let (x, y) = [(0, 1), (1, 2), (2, 0), (3, 0), (1, 3), (3, 2)][select("edge", 6)];
    let he = m.half_edge_between(x, y).unwrap();
    let at = positions(&m);
    let mut tree = m.build_face_tree();
    m.split_edge(&mut tree, he, &pt(&lerp(&at[x], &at[y], &frac(1, 3))), true).unwrap();
    if select("again", 2) == 1 {
        let he = m.half_edge_between(4, y).unwrap();
        m.split_edge(&mut tree, he, &pt(&lerp(&at[x], &at[y], &frac(1, 2))), true).unwrap();
    }
    edge_found(&m, he, &at[x], &at[y]);
}
fn edge_found<const N: usize>(m: &Mesh<R, N>, he: usize, a: &[Q; N], b: &[Q; N])
where
    Point<R, N>: PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: VectorOps<R, N>,
{
    valid(m);
    let u = var_at("u", 1, 5);
    assume_nonneg(&u);
    assume_nonneg(&(q(1) - &u));
    let p = lerp(a, b, &u);
    let r = m.find_valid_half_edge(he, &pt(&p));
    check(!m.half_edges[r].removed, "the edge found is live");
    let at = positions(m);
    let (x, y) = (m.half_edges[m.half_edges[r].twin].vertex, m.half_edges[r].vertex);
    check(on_segment(&p, &at[x], &at[y]), "the edge found contains the point");
    reach("end");
}
/// Splitting a face at any point of it, the triangle being any triangle: the
/// point decides whether a face, an edge or nothing is split.
fn any_triangle() {
    let mut m = fixed::<R, 2>(4);
    m.add_triangle(0, 1, 2);
    m.add_triangle(2, 1, 3);
    let at = ipt([1, -2]);
    let (d, e) = (vpt::<2>("d"), vpt::<2>("e"));
    assume_pos(&cross2(&d, &e));
    let l = weights();
    // a + l1 d + l2 e = at
    let a = sub(&at, &add(&scale(&d, &l[1]), &scale(&e, &l[2])));
    let b = add(&a, &d);
    let c = add(&a, &e);
    m.vertices[0].position = pt(&a);
    m.vertices[1].position = pt(&b);
    m.vertices[2].position = pt(&c);
    m.vertices[3].position = pt(&add(&b, &e));
    let mut w = Model { faces: live(&m) };
    let mut tree = m.build_face_tree();
    let n = m.vertices.len();
    let before = snap(&m);
    let r = m.split_face(&mut tree, 0, &pt(&at), false).unwrap();
    let zeros: Vec<usize> = (0..3).filter(|&i| l[i].is_zero()).collect();
    match zeros.len() {
        0 => {
            check(matches!(r.kind, SplitResultKind::SplitFace) && r.vertex == n, "an inner point splits the face");
            replaced(&m, &mut w, &[0], vec![canon([0, 1, n]), canon([1, 2, n]), canon([2, 0, n])], &r);
            reach("face");
        }
        1 => {
            check(matches!(r.kind, SplitResultKind::SplitEdge) && r.vertex == n, "a point on an edge splits the edge");
            let z = zeros[0];
            let (x, y) = ((z + 1) % 3, (z + 2) % 3);
            let (mut gone, mut new) = (vec![], vec![]);
            for (f, t) in &w.faces {
                for (a, b) in [(x, y), (y, x)] {
                    if let Some(h) = halves(*t, a, b, n) {
                        gone.push(*f);
                        new.extend(h);
                    }
                }
            }
            replaced(&m, &mut w, &gone, new, &r);
            reach("edge");
        }
        _ => {
            let v = (0..3).find(|i| !zeros.contains(i)).unwrap();
            check(matches!(r.kind, SplitResultKind::NoSplit) && r.vertex == v, "a corner splits nothing");
            check(snap(&m) == before, "a corner splits nothing");
            reach("corner");
        }
    }
    if zeros.len() < 2 {
        check(eqp(&unpt(&m.vertices[n].position), &at), "the new vertex is at the given place");
    }
    reach("end");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C11", once, 0, ["end", "face", "border edge", "inner edge"], "9 starting meshes of up to 8 faces, one split of any edge or face, face tree kept up to date"),
        h!("C11", twice, 0, ["end", "face", "border edge", "inner edge"], "9 starting meshes, any 2 splits, face tree kept up to date"),
        h!("C11", thrice, 1, ["end", "face", "border edge", "inner edge"], "9 starting meshes, any 3 splits"),
        h!("C11", anywhere, 0, ["end", "border edge", "inner edge"], "3 faces, edges with any end points, any position strictly between them (the place itself fixed, the ends relative to it free)"),
        h!("C11", at_vertex, 0, ["end"], "2 faces, split requested at the end points of every edge"),
        h!("C11", find_flat_face, 0, ["end", "inside", "on edge", "on vertex"], "planar mesh of 3 fixed faces, one split at a face point, every point of the old face"),
        h!("C11", find_flat_edge, 0, ["end", "inside", "on edge", "on vertex"], "planar mesh of 3 fixed faces, one inner edge split, every point of the old face"),
        h!("C11", find_flat_both, 0, ["end", "inside", "on edge", "on vertex"], "planar mesh of 3 fixed faces, face and edge split, every point of the old face"),
        h!("C11", find_walk, 0, ["end", "inside", "on edge", "on vertex"], "planar mesh of 3 fixed faces, every start face, every point"),
        h!("C11", find_solid, 0, ["end", "inside", "on edge", "on vertex"], "fixed tetrahedron, any face split at its centroid, every point of the old face"),
        h!("C11", walk_solid, 0, ["end", "inside", "on edge", "on vertex"], "fixed tetrahedron, every start face, every point of every face"),
        h!("C11", find_edge_flat, 0, ["end"], "planar mesh of 3 fixed faces, inner and border edges split, every point of the old edge"),
        h!("C11", find_edge_solid, 0, ["end"], "fixed tetrahedron, every edge split once or twice, every point of the old edge"),
        h!("C11", any_triangle, 0, ["end", "face", "edge", "corner"], "any counter-clockwise planar triangle with a neighbour, any point of it"),
    ]
}
