//! Adding and removing triangles: connectivity and face list.
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64 as D;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};

type M = Mesh<R, 3>;

fn same(m: &M, w: &Model) {
    valid(m);
    check(live(m) == w.faces, "the live faces are those added and not removed");
}
fn triples(n: usize) -> Vec<Tri> {
    let mut r = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                r.push([a, b, c]);
                r.push([a, c, b]);
            }
        }
    }
    r
}
fn do_add(m: &mut M, w: &mut Model, t: Tri) {
    let before = snap(m);
    let f = m.add_triangle(t[0], t[1], t[2]);
    match w.fits(t) {
        None => {
            check(f == usize::MAX, "a third face on an edge is refused");
            check(snap(m) == before, "a refused face leaves the mesh as it was");
            reach("refused");
        }
        Some(u) => {
            check(f == before.1.len(), "the new face gets the next number");
            w.faces.insert(f, u);
            if u != canon(t) {
                reach("reversed");
            }
        }
    }
    same(m, w);
}
fn do_remove(m: &mut M, w: &mut Model, f: usize) {
    m.remove_triangle(f);
    w.faces.remove(&f);
    same(m, w);
}
/// Queries that depend on the connectivity, against the face list.
fn queries(m: &M, w: &Model) {
    for v in 0..m.vertices.len() {
        let near = w.ring(v);
        for u in 0..m.vertices.len() {
            let linked = near.contains(&u);
            check(m.are_vertices_connected(v, u) == linked, "two vertices are connected when an edge joins them");
            check(m.half_edge_between(v, u).is_some() == linked, "the half-edge between two vertices");
        }
        let fans = w.fans(v);
        if fans == 0 {
            check(m.vertices[v].half_edge.is_none(), "an isolated vertex has no half-edge");
            continue;
        }
        for (&f, _) in &w.faces {
            let touches = m.vertex_touches_face(v, f);
            check(!touches || w.around(v).contains(&f), "a vertex touches only its faces");
        }
        if fans > 1 {
            reach("bow tie");
            continue;
        }
        let got: BTreeSet<usize> = m.one_ring_neighbors(v).into_iter().collect();
        check(got == near, "one-ring neighbours");
        let got: Vec<usize> = m.faces_around_vertex(v);
        check(got.len() == w.around(v).len(), "faces around a vertex are listed once");
        check(got.into_iter().collect::<BTreeSet<_>>() == w.around(v), "faces around a vertex");
        let got: BTreeSet<usize> = m.incident_faces(v).into_iter().collect();
        check(got == w.around(v), "incident faces");
        check(m.is_boundary_vertex(v) == w.on_border(v), "border vertices");
        let ring = m.vertex_ring_ccw(v);
        check(ring.is_border == w.on_border(v), "the ring knows a border vertex");
        check(ring.neighbors_ccw.len() == near.len(), "the ring visits every neighbour once");
        check(ring.neighbors_ccw.iter().cloned().collect::<BTreeSet<_>>() == near, "the ring visits the neighbours");
    }
    for (&f, &t) in &w.faces {
        check(canon(m.face_vertices(f)) == t, "the corners of a face");
        let near: BTreeSet<usize> = w
            .faces
            .iter()
            .filter(|(&g, u)| g != f && Model::sides(**u).iter().any(|&(a, b)| Model::sides(t).contains(&(b, a))))
            .map(|(g, _)| *g)
            .collect();
        check(m.adjacent_faces(f).collect::<BTreeSet<_>>() == near, "the faces across the edges of a face");
        for (&g, _) in &w.faces {
            if g != f {
                check(m.are_faces_adjacent(f, g) == near.contains(&g), "adjacency of two faces");
            }
        }
    }
    m.validate_connectivity();
    m.validate_half_edges();
}
/// One free step: add any of the triples, or remove any face ever added.
fn step(m: &mut M, w: &mut Model, k: usize, all: &[Tri]) {
    let nf = m.faces.len();
    let i = select(&format!("step{}", k), all.len() + nf);
    if i < all.len() {
        do_add(m, w, all[i]);
    } else {
        do_remove(m, w, i - all.len());
    }
}
fn history(nv: usize, steps: usize) {
    let mut m = fixed::<R, 3>(nv);
    let mut w = Model::default();
    do_add(&mut m, &mut w, [0, 1, 2]);
    let all = triples(nv);
    for k in 0..steps {
        step(&mut m, &mut w, k, &all);
    }
    queries(&m, &w);
    reach("end");
}
fn history_4() {
    history(4, 4)
}
fn history_4_full() {
    history(4, 5)
}
fn history_5() {
    history(5, 3)
}
fn history_5_full() {
    history(5, 4)
}
fn history_6() {
    history(6, 2)
}
fn history_6_full() {
    history(6, 3)
}

/// Starting meshes with closed, open, fan-shaped and pinched connectivity.
pub fn shapes() -> Vec<(&'static str, usize, Vec<Tri>)> {
    let octa = vec![[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]];
    let mut grid = vec![];
    for y in 0..2 {
        for x in 0..2 {
            let a = y * 3 + x;
            grid.push([a, a + 1, a + 4]);
            grid.push([a, a + 4, a + 3]);
        }
    }
    vec![
        ("tetrahedron", 4, vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]),
        ("octahedron", 6, octa.clone()),
        ("grid", 9, grid),
        ("fan", 6, vec![[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5]]),
        ("bow tie", 5, vec![[0, 1, 2], [0, 3, 4]]),
        ("three fans", 7, vec![[0, 1, 2], [0, 3, 4], [0, 5, 6]]),
        ("strip", 6, vec![[0, 1, 2], [1, 3, 2], [2, 3, 4], [3, 5, 4]]),
        ("ring", 6, vec![[0, 1, 3], [1, 4, 3], [1, 2, 4], [2, 5, 4], [2, 0, 5], [0, 3, 5]]),
        ("band", 5, vec![[0, 1, 2], [1, 3, 2], [2, 3, 4], [3, 0, 4], [4, 0, 1]]),
    ]
}
pub(super) fn built(nv: usize, ts: &[Tri]) -> (M, Model) {
    let mut m = fixed::<R, 3>(nv);
    let mut w = Model::default();
    for &t in ts {
        do_add(&mut m, &mut w, t);
    }
    (m, w)
}
/// Remove some faces of a shape in any order, then put them back in any order
/// and either orientation.
fn shape(removals: usize, backs: usize) {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let (mut m, mut w) = built(*nv, ts);
    queries(&m, &w);
    let mut gone = vec![];
    for k in 0..removals {
        let left: Vec<usize> = w.faces.keys().cloned().collect();
        if left.is_empty() {
            break;
        }
        let f = left[select(&format!("rem{}", k), left.len())];
        gone.push(w.faces[&f]);
        do_remove(&mut m, &mut w, f);
        // Removing it again does nothing.
        let before = snap(&m);
        m.remove_triangle(f);
        check(snap(&m) == before, "removing a removed face does nothing");
    }
    queries(&m, &w);
    for k in 0..backs {
        if gone.is_empty() {
            break;
        }
        let i = select(&format!("back{}", k), 2 * gone.len());
        let t = gone.remove(i / 2);
        do_add(&mut m, &mut w, if i % 2 == 0 { t } else { flipped(t) });
    }
    queries(&m, &w);
    reach("end");
}
fn shape_quick() {
    shape(2, 2)
}
fn shape_full() {
    shape(3, 2)
}
/// Border rings can be rebuilt at any time without changing them.
fn loops() {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let (mut m, mut w) = built(*nv, ts);
    for k in 0..2 {
        let left: Vec<usize> = w.faces.keys().cloned().collect();
        let i = select(&format!("rem{}", k), left.len() + 1);
        if i < left.len() {
            do_remove(&mut m, &mut w, left[i]);
        }
    }
    let before = snap(&m);
    m.build_boundary_loops();
    same(&m, &w);
    check(snap(&m) == before, "rebuilding the border rings finds the same rings");
    reach("end");
}
/// Adding several faces at once gives the same faces as one at a time.
fn deferred_add() {
    let nv = 5;
    let mut m = fixed::<R, 3>(nv);
    let mut w = Model::default();
    let all = triples(nv);
    do_add(&mut m, &mut w, [0, 1, 2]);
    if select("hole", 2) == 1 {
        do_remove(&mut m, &mut w, 0);
    }
    let (a, b) = (all[select("a", all.len())], all[select("b", all.len())]);
    let got = m.add_triangles_deferred(&[(a[0], a[1], a[2]), (b[0], b[1], b[2])]);
    let mut k = 0;
    for t in [a, b] {
        if let Some(u) = w.fits(t) {
            let f = 1 + k;
            check(got.get(k) == Some(&f), "the new faces are listed in order");
            w.faces.insert(f, u);
            k += 1;
        } else {
            reach("refused");
        }
    }
    check(got.len() == k, "refused faces are not listed");
    same(&m, &w);
    queries(&m, &w);
    reach("end");
}
/// A face that repeats a corner is refused.
fn repeated() {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let (mut m, w) = built(*nv, ts);
    let (a, b) = (select("a", *nv), select("b", *nv));
    let t = [[a, a, b], [a, b, a], [b, a, a]][select("turn", 3)];
    let before = snap(&m);
    if select("deferred", 2) == 1 {
        check(m.add_triangles_deferred(&[(t[0], t[1], t[2])]).is_empty(), "a face that repeats a corner is refused");
    } else {
        check(m.add_triangle(t[0], t[1], t[2]) == usize::MAX, "a face that repeats a corner is refused");
    }
    check(snap(&m) == before, "a refused face leaves the mesh as it was");
    same(&m, &w);
    reach("end");
}
/// Removing several faces at once, then closing the borders.
fn deferred_remove() {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let (mut m, mut w) = built(*nv, ts);
    let (a, b) = (select("a", w.faces.len()), select("b", w.faces.len()));
    let (starts, verts) = m.remove_triangles_deferred(&[a, b]);
    m.weld_border_components_from(&starts);
    m.fix_vertices_outgoing_for(&verts);
    w.faces.remove(&a);
    w.faces.remove(&b);
    same(&m, &w);
    queries(&m, &w);
    if select("again", 2) == 1 {
        let t = ts[a];
        do_add(&mut m, &mut w, t);
    }
    reach("end");
}
/// Cleaning up renumbers but keeps every live face.
fn cleanup() {
    let all = shapes();
    let (_, nv, ts) = &all[select("shape", all.len())];
    let (mut m, mut w) = built(*nv, ts);
    for k in 0..2 {
        let left: Vec<usize> = w.faces.keys().cloned().collect();
        let i = select(&format!("rem{}", k), left.len() + 1);
        if i < left.len() {
            do_remove(&mut m, &mut w, left[i]);
        }
    }
    let at: Vec<[Q; 3]> = m.vertices.iter().map(|v| unpt(&v.position)).collect();
    let how = select("how", 3);
    if how == 0 {
        m.remove_invalidated_faces();
    } else {
        m.remove_unused_vertices();
        if how == 2 {
            check(m.remove_duplicate_vertices() == 0, "no duplicates to remove");
            m.remove_invalidated_faces();
        }
        let used: BTreeSet<usize> = w.faces.values().flatten().cloned().collect();
        check(m.vertices.len() == used.len(), "unused vertices are gone");
    }
    valid(&m);
    // Same triangles by position, in the same order.
    let now: Vec<Tri> = live(&m).values().cloned().collect();
    let was: Vec<Tri> = w.faces.values().cloned().collect();
    check(now.len() == was.len(), "no face is lost or invented");
    for (n, o) in now.iter().zip(&was) {
        for k in 0..3 {
            check(unpt(&m.vertices[n[k]].position) == at[o[k]], "corners keep their places");
        }
    }
    reach("end");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C10", history_4, 0, ["end", "refused", "reversed"], "4 vertices, first face fixed, then any 4 of: add any of 8 directed triples, remove any face"),
        h!("C10", history_4_full, 1, ["end", "refused", "reversed"], "4 vertices, first face fixed, then any 5 adds/removals"),
        h!("C10", history_5, 0, ["end", "refused", "reversed", "bow tie"], "5 vertices, first face fixed, then any 3 adds/removals"),
        h!("C10", history_5_full, 1, ["end", "refused", "reversed", "bow tie"], "5 vertices, first face fixed, then any 4 adds/removals"),
        h!("C10", history_6, 0, ["end", "refused", "reversed", "bow tie"], "6 vertices, first face fixed, then any 2 adds/removals"),
        h!("C10", history_6_full, 1, ["end", "refused", "reversed", "bow tie"], "6 vertices, first face fixed, then any 3 adds/removals"),
        h!("C10", repeated, 0, ["end", "refused"], "9 starting meshes, any face with a repeated corner"),
        h!("C10", shape_quick, 0, ["end", "refused", "reversed", "bow tie"], "9 starting meshes of up to 8 faces, any 2 removals, any re-adding in either orientation"),
        h!("C10", shape_full, 0, ["end", "refused", "reversed", "bow tie"], "9 starting meshes of up to 8 faces, any 3 removals, any 2 re-added"),
        h!("C10", loops, 0, ["end", "refused"], "9 starting meshes, up to 2 removals, border rings rebuilt"),
        h!("C10", deferred_add, 0, ["end", "refused", "bow tie"], "5 vertices, any two triples added at once, with and without a removed face before"),
        h!("C10", deferred_remove, 0, ["end", "refused", "bow tie"], "9 starting meshes, any two faces removed at once, optionally one added back"),
        h!("C10", cleanup, 0, ["end", "refused"], "9 starting meshes, up to 2 removals, then each clean-up"),
    ]
}
