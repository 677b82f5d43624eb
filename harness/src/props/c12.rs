//! Edge flips and edge collapses.
use super::c10::shapes;
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::edge_collapse::{CollapseOpts, Placement};
use cgar::numeric::cgar_rational::CgarRational as R;
use rt::*;
use std::collections::BTreeSet;

type M = Mesh<R, 3>;

/// A placement policy: anywhere the caller likes.
struct At(Point<R, 3>);
impl Placement<R, 3> for At {
    fn place(&self, _: &Mesh<R, 3>, _: usize, _: usize) -> Point<R, 3> {
        self.0.clone()
    }
}
fn positions(m: &M) -> Vec<[Q; 3]> {
    m.vertices.iter().map(|v| unpt(&v.position)).collect()
}
fn normal(p: &[[Q; 3]], t: Tri) -> [Q; 3] {
    cross(&sub(&p[t[1]], &p[t[0]]), &sub(&p[t[2]], &p[t[0]]))
}
fn has(w: &Model, e: (usize, usize)) -> bool {
    w.faces.values().any(|t| Model::sides(*t).contains(&e))
}
fn corners(w: &Model, c: [usize; 3]) -> bool {
    let mut c = c;
    c.sort();
    w.faces.values().any(|t| {
        let mut t = *t;
        t.sort();
        t == c
    })
}
/// Third corners of the faces on the edge.
fn wings(w: &Model, u: usize, v: usize) -> Vec<usize> {
    w.faces
        .values()
        .filter(|t| t.contains(&u) && t.contains(&v))
        .map(|t| t.iter().cloned().find(|x| *x != u && *x != v).unwrap())
        .collect()
}
/// The ends share no neighbours beyond the faces on the edge, and the result
/// is a surface.
fn linked(w: &Model, u: usize, v: usize) -> bool {
    let opp = wings(w, u, v);
    let set: BTreeSet<usize> = opp.iter().cloned().collect();
    let common: BTreeSet<usize> = w.ring(u).intersection(&w.ring(v)).cloned().collect();
    if common != set || set.len() != opp.len() {
        return false;
    }
    // Joining two border vertices over an inner edge pinches the surface,
    // unless one side is a face that nothing else touches.
    let open = |x: usize, y: usize| !(has(w, (x, y)) && has(w, (y, x)));
    let lone = |x: usize| open(u, x) && open(v, x);
    match opp.len() {
        2 => {
            let (a, b) = (opp[0], opp[1]);
            let pinch = w.on_border(u) && w.on_border(v) && !lone(a) && !lone(b);
            !pinch && !(corners(w, [u, a, b]) && corners(w, [v, a, b]))
        }
        n => n == 1,
    }
}
/// What the options say about the shape afterwards: Some(false) refuse,
/// Some(true) carry out, None on the limit between the two.
fn shape_allows(w: &Model, p: &[[Q; 3]], u: usize, v: usize, star: &[Q; 3], eps: &Q, flips: bool) -> Option<bool> {
    let mut after = p.to_vec();
    after[u] = star.clone();
    after[v] = star.clone();
    let mut limit = false;
    for t in w.faces.values() {
        let (a, b) = (t.contains(&u), t.contains(&v));
        if a == b {
            continue;
        }
        let n = normal(&after, *t);
        // The square of the area is a quarter of the square of the normal.
        if !(dot(&n, &n) - q(4) * eps).is_pos() {
            return Some(false);
        }
        if flips {
            let d = dot(&normal(p, *t), &n);
            if d.is_neg() {
                return Some(false);
            }
            limit |= d.is_zero();
        }
    }
    if limit {
        None
    } else {
        Some(true)
    }
}
struct Opts {
    eps: Q,
    no_border: bool,
    no_flip: bool,
}
impl Opts {
    fn get(&self) -> CollapseOpts<R> {
        CollapseOpts { area_eps2: s(&self.eps), forbid_border: self.no_border, forbid_normal_flip: self.no_flip }
    }
}
fn plain() -> Opts {
    Opts { eps: q(0), no_border: false, no_flip: true }
}
/// Collapse v into u and judge the outcome.
fn do_collapse(m: &mut M, w: &mut Model, u: usize, v: usize, star: Option<&[Q; 3]>, o: &Opts, by_edge: bool) {
    let before = snap(m);
    let at = positions(m);
    let edge = has(w, (u, v)) || has(w, (v, u));
    let mid = scale(&add(&at[u], &at[v]), &frac(1, 2));
    let goal = star.unwrap_or(&mid).clone();
    let topo = edge && linked(w, u, v) && !(o.no_border && wings(w, u, v).len() == 1);
    let ok = match star {
        None => m.collapse_edge(u, v).is_ok(),
        Some(p) => {
            let place = At(pt(p));
            let plan = if by_edge {
                m.collapse_edge_begin_he(m.half_edge_between(u, v).unwrap(), &place, &o.get())
            } else {
                m.collapse_edge_begin_vertices(u, v, &place, &o.get())
            };
            check(snap(m) == before, "planning a collapse changes nothing");
            match plan {
                Ok(plan) => {
                    check((plan.v_keep, plan.v_gone) == (u, v), "the plan keeps and removes the right vertices");
                    m.collapse_edge_commit(plan).is_ok()
                }
                Err(_) => false,
            }
        }
    };
    let now = positions(m);
    if !ok {
        check(snap(m) == before && (0..at.len()).all(|i| eqp(&at[i], &now[i])), "a refused collapse changes nothing");
        if topo && shape_allows(w, &at, u, v, &goal, &o.eps, o.no_flip) == Some(true) {
            check(false, "an allowed collapse is carried out");
        }
        reach("refused");
        return;
    }
    check(topo, "a collapse that breaks the surface is refused");
    check(
        shape_allows(w, &at, u, v, &goal, &o.eps, o.no_flip) != Some(false),
        "a collapse that spoils a face is refused",
    );
    valid(m);
    w.faces.retain(|_, t| !(t.contains(&u) && t.contains(&v)));
    for t in w.faces.values_mut() {
        *t = canon(t.map(|x| if x == v { u } else { x }));
    }
    for i in 0..m.vertices.len() {
        check(w.fans(i) <= 1, "the result is a surface");
    }
    check(live(m) == w.faces, "the faces on the edge go, the others keep their corners");
    for i in 0..m.vertices.len() {
        let was = before.2[i].1;
        check(m.vertices[i].removed == (was || i == v), "exactly one vertex is removed");
        if i != v && !was {
            check(eqp(&now[i], if i == u { &goal } else { &at[i] }), "the kept vertex is at the chosen place and no other moves");
        }
    }
    reach("collapsed");
}
fn do_flip(m: &mut M, w: &mut Model, he: usize) {
    let before = snap(m);
    let at = positions(m);
    let twin = m.half_edges[he].twin;
    let (a, b) = (m.half_edges[twin].vertex, m.half_edges[he].vertex);
    let third = |x: usize, y: usize| {
        w.faces.values().find_map(|t| {
            (0..3).find(|&i| t[i] == x && t[(i + 1) % 3] == y).map(|i| t[(i + 2) % 3])
        })
    };
    let may = match (third(a, b), third(b, a)) {
        (Some(c), Some(d)) => {
            let free = c != d && !has(w, (c, d)) && !has(w, (d, c));
            if free
                && !is_zero_vec(&normal(&at, [a, d, c]))
                && !is_zero_vec(&normal(&at, [b, c, d]))
            {
                Some((c, d))
            } else {
                None
            }
        }
        _ => None,
    };
    let ok = m.flip_edge(he).is_ok();
    check(ok == may.is_some(), "an edge is flipped exactly when the flip gives a surface");
    let now = positions(m);
    check((0..at.len()).all(|i| eqp(&at[i], &now[i])), "a flip moves no vertex");
    if !ok {
        check(snap(m) == before, "a refused flip changes nothing");
        reach("not flipped");
        return;
    }
    let Some((c, d)) = may else { return };
    valid(m);
    let gone: Vec<usize> =
        w.faces.iter().filter(|(_, t)| t.contains(&a) && t.contains(&b)).map(|(f, _)| *f).collect();
    let got = live(m);
    let mut kept = w.faces.clone();
    kept.retain(|f, _| !gone.contains(f));
    for (f, t) in &kept {
        check(got.get(f) == Some(t), "faces away from the flip are untouched");
    }
    let new: BTreeSet<Tri> = got.iter().filter(|(f, _)| !kept.contains_key(f)).map(|(_, t)| *t).collect();
    check(got.len() == kept.len() + 2, "two faces become two faces");
    check(new == BTreeSet::from([canon([a, d, c]), canon([b, c, d])]), "a flip joins the opposite corners");
    w.faces = got;
    reach("flipped");
}
/// Manifold starting meshes.
fn surfaces() -> Vec<(usize, Vec<Tri>)> {
    let mut r: Vec<(usize, Vec<Tri>)> =
        shapes().into_iter().filter(|(n, _, _)| !["bow tie", "three fans", "band"].contains(n)).map(|(_, n, t)| (n, t)).collect();
    r.push((3, vec![[0, 1, 2]]));
    r.push((4, vec![[0, 1, 2], [1, 0, 3]]));
    // Two tetrahedra glued on a face: a three-edge loop that is not a face.
    r.push((5, vec![[0, 1, 3], [1, 2, 3], [2, 0, 3], [1, 0, 4], [2, 1, 4], [0, 2, 4]]));
    // A disc whose two inner vertices are joined.
    r.push((8, vec![[0, 1, 2], [1, 0, 3], [0, 2, 4], [0, 4, 5], [0, 5, 3], [1, 3, 6], [1, 6, 7], [1, 7, 2]]));
    r
}
fn start(limit: usize) -> (M, Model) {
    let all: Vec<_> = surfaces().into_iter().filter(|x| x.1.len() <= limit).collect();
    let (nv, ts) = &all[select("shape", all.len())];
    let mut m = fixed::<R, 3>(*nv);
    for t in ts {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let w = Model { faces: live(&m) };
    (m, w)
}
fn step(m: &mut M, w: &mut Model, k: usize) {
    let hs: Vec<usize> = (0..m.half_edges.len()).filter(|&h| !m.half_edges[h].removed).collect();
    if hs.is_empty() {
        return;
    }
    let i = select(&format!("step{}", k), 2 * hs.len());
    let he = hs[i / 2];
    if i % 2 == 0 {
        do_flip(m, w, he);
    } else {
        let (u, v) = (m.half_edges[m.half_edges[he].twin].vertex, m.half_edges[he].vertex);
        do_collapse(m, w, u, v, None, &plain(), false);
    }
}
fn sequence(steps: usize, limit: usize) {
    let (mut m, mut w) = start(limit);
    for k in 0..steps {
        step(&mut m, &mut w, k);
    }
    reach("end");
}
fn once() {
    sequence(1, 8)
}
fn twice() {
    sequence(2, 8)
}
fn thrice() {
    sequence(3, 6)
}
/// The connectivity conditions alone: the kept vertex goes where no face is
/// spoiled, options of every kind.
fn options() {
    let (mut m, mut w) = start(8);
    let hs: Vec<usize> = (0..m.half_edges.len()).filter(|&h| !m.half_edges[h].removed).collect();
    let he = hs[select("edge", hs.len())];
    let (u, v) = (m.half_edges[m.half_edges[he].twin].vertex, m.half_edges[he].vertex);
    let k = select("options", 8);
    let o = Opts { eps: q(0), no_border: k & 1 == 1, no_flip: k & 2 == 2 };
    let star = ipt([-3, 5, 2]);
    do_collapse(&mut m, &mut w, u, v, Some(&star), &o, k & 4 == 4);
    reach("end");
}
/// Vertices that share no edge, the same vertex twice, removed handles.
fn strangers() {
    let (mut m, mut w) = start(8);
    let n = m.vertices.len();
    let (u, v) = (select("keep", n), select("gone", n));
    if u == v || w.ring(u).contains(&v) {
        let before = snap(&m);
        if u == v {
            check(m.collapse_edge(u, v).is_err() && snap(&m) == before, "a vertex cannot be collapsed into itself");
        }
        check(m.flip_edge(m.half_edges.len()).is_err() && snap(&m) == before, "an unknown edge is not flipped");
        reach("refused");
        reach("end");
        return;
    }
    do_collapse(&mut m, &mut w, u, v, None, &plain(), false);
    reach("end");
}
/// A disc around an inner edge, flat at first; the kept vertex goes anywhere
/// in the plane.
fn disc() -> (M, Model) {
    let mut m = fixed::<R, 3>(8);
    let at = [[-1, 0], [1, 0], [0, 2], [0, -2], [-2, 2], [-2, -2], [2, -2], [2, 2]];
    for (i, p) in at.iter().enumerate() {
        m.vertices[i].position = pt(&ipt([p[0], p[1], 0]));
    }
    for t in [[0, 1, 2], [1, 0, 3], [0, 2, 4], [0, 4, 5], [0, 5, 3], [1, 3, 6], [1, 6, 7], [1, 7, 2]] {
        m.add_triangle(t[0], t[1], t[2]);
    }
    let w = Model { faces: live(&m) };
    (m, w)
}
fn plane_place() {
    let (mut m, mut w) = disc();
    let (x, y) = (var_at("x", 1, 8), var_at("y", 1, 4));
    let o = Opts { eps: q(0), no_border: false, no_flip: select("flips", 2) == 1 };
    let (u, v) = [(0, 1), (1, 0), (4, 5), (0, 3)][select("edge", 4)];
    do_collapse(&mut m, &mut w, u, v, Some(&[x, y, q(0)]), &o, true);
    reach("end");
}
/// One free end: every place of the kept vertex in space, with one surviving
/// face of any shape and any area limit.
fn space_place() {
    let mut m = fixed::<R, 3>(4);
    m.add_triangle(0, 1, 2);
    m.add_triangle(2, 1, 3);
    let mut w = Model { faces: live(&m) };
    let d = [var_at("dx", 3, 1), var_at("dy", 2, 1)];
    m.vertices[1].position = pt(&ipt([0, 0, 0]));
    m.vertices[2].position = pt(&ipt([1, 0, 0]));
    m.vertices[3].position = pt(&[d[0].clone(), d[1].clone(), q(0)]);
    m.vertices[0].position = pt(&ipt([2, -3, 1]));
    let star = vpt::<3>("s");
    let eps = var_at("eps", 1, 16);
    assume_nonneg(&eps);
    let o = Opts { eps, no_border: false, no_flip: select("flips", 2) == 1 };
    let (u, v) = [(0, 1), (1, 0), (2, 0)][select("edge", 3)];
    do_collapse(&mut m, &mut w, u, v, Some(&star), &o, false);
    reach("end");
}
/// The usual placement, with the ends of the edge anywhere.
fn midpoint() {
    let (mut m, mut w) = disc();
    let d = vpt::<3>("d");
    let c = [frac(1, 4), frac(1, 3), q(0)];
    m.vertices[0].position = pt(&sub(&c, &d));
    m.vertices[1].position = pt(&add(&c, &d));
    do_collapse(&mut m, &mut w, 0, 1, None, &plain(), false);
    reach("end");
}
/// Flips of an edge between two faces of any shape.
fn flip_space() {
    let mut m = fixed::<R, 3>(4);
    m.add_triangle(0, 1, 2);
    m.add_triangle(1, 0, 3);
    let mut w = Model { faces: live(&m) };
    let (c, d) = (vpt::<3>("c"), vpt::<3>("d"));
    m.vertices[0].position = pt(&ipt([0, 0, 0]));
    m.vertices[1].position = pt(&ipt([1, 0, 0]));
    m.vertices[2].position = pt(&c);
    m.vertices[3].position = pt(&d);
    let (x, y) = [(0, 1), (1, 0), (1, 2)][select("edge", 3)];
    let he = m.half_edge_between(x, y).unwrap();
    do_flip(&mut m, &mut w, he);
    reach("end");
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C12", once, 0, ["end", "flipped", "not flipped", "collapsed", "refused"], "10 manifold starting meshes of up to 8 faces, one flip or collapse of any edge"),
        h!("C12", twice, 0, ["end", "flipped", "not flipped", "collapsed", "refused"], "10 manifold starting meshes of up to 8 faces, any 2 flips and collapses"),
        h!("C12", thrice, 1, ["end", "flipped", "not flipped", "collapsed", "refused"], "7 manifold starting meshes of up to 6 faces, any 3 flips and collapses"),
        h!("C12", options, 0, ["end", "collapsed", "refused"], "10 manifold starting meshes, every edge, every combination of options, kept vertex at a fixed far place"),
        h!("C12", strangers, 0, ["end", "refused"], "10 manifold starting meshes, every pair of vertices without a common edge"),
        h!("C12", plane_place, 0, ["end", "collapsed", "refused"], "flat disc of 8 faces, 4 edges, kept vertex anywhere in the plane, turned faces allowed or not"),
        h!("C12", space_place, 0, ["end", "collapsed", "refused"], "2 faces, kept vertex anywhere in space, any shape of the surviving face, any area limit"),
        h!("C12", midpoint, 0, ["end", "collapsed", "refused"], "disc of 8 faces, ends of the inner edge anywhere symmetric about a fixed point"),
        h!("C12", flip_space, 0, ["end", "flipped", "not flipped"], "2 faces sharing a fixed edge, the other two corners anywhere in space"),
    ]
}
