//! Boolean operations of solids.
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::boolean::BooleanOp;
use cgar::numeric::cgar_rational::CgarRational as R;
use rt::*;
use std::collections::BTreeSet;

type P = [Q; 3];
/// Corners and faces (outward) of a convex solid.
struct Solid {
    at: Vec<P>,
    ts: Vec<Tri>,
}
impl Solid {
    fn mesh(&self) -> Mesh<R, 3> {
        let mut m = Mesh::<R, 3>::new();
        for p in &self.at {
            m.add_vertex(pt(p));
        }
        for t in &self.ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        m
    }
    /// Positive outside the plane of a face.
    fn side(&self, t: Tri, p: &P) -> Q {
        let [a, b, c] = t.map(|i| &self.at[i]);
        dot(&cross(&sub(b, a), &sub(c, a)), &sub(p, a))
    }
    fn volume(&self) -> Q {
        volume(&self.at, &self.ts)
    }
    fn on_surface(&self, p: &P) -> bool {
        let s: Vec<i32> = self.ts.iter().map(|t| self.side(*t, p).sgn()).collect();
        s.iter().all(|x| *x <= 0) && s.contains(&0)
    }
}
fn volume(at: &[P], ts: &[Tri]) -> Q {
    let mut v = q(0);
    for t in ts {
        v = v + dot(&at[t[0]], &cross(&at[t[1]], &at[t[2]]));
    }
    v * frac(1, 6)
}
/// Six times the part of the volume of the common body that the faces of `a`
/// inside `b` contribute.
fn share(a: &Solid, b: &Solid) -> Q {
    let mut v = q(0);
    for t in &a.ts {
        let mut poly: Vec<P> = t.iter().map(|i| a.at[*i].clone()).collect();
        for f in &b.ts {
            let s: Vec<Q> = poly.iter().map(|p| b.side(*f, p)).collect();
            let mut next = vec![];
            for i in 0..poly.len() {
                let j = (i + 1) % poly.len();
                if !s[i].is_pos() {
                    next.push(poly[i].clone());
                }
                if s[i].sgn() * s[j].sgn() < 0 {
                    let u = &s[i] / (&s[i] - &s[j]);
                    next.push(lerp(&poly[i], &poly[j], &u));
                }
            }
            poly = next;
        }
        for i in 1..poly.len().saturating_sub(1) {
            v = v + dot(&poly[0], &cross(&poly[i], &poly[i + 1]));
        }
    }
    v
}
fn common(a: &Solid, b: &Solid) -> Q {
    (share(a, b) + share(b, a)) * frac(1, 6)
}
fn block(lo: &P, size: [i32; 3]) -> Solid {
    let at = (0..8).map(|k: i32| std::array::from_fn(|i| if k >> i & 1 == 1 { &lo[i] + q(size[i]) } else { lo[i].clone() })).collect();
    let ts = vec![
        [0, 2, 1], [1, 2, 3], [4, 5, 6], [5, 7, 6], [0, 1, 4], [1, 5, 4],
        [2, 6, 3], [3, 6, 7], [0, 4, 2], [2, 4, 6], [1, 3, 5], [3, 7, 5],
    ];
    Solid { at, ts }
}
fn tetra(o: &P, c: [[i32; 3]; 3]) -> Solid {
    let mut at = vec![o.clone()];
    at.extend(c.iter().map(|d| add(o, &ipt(*d))));
    Solid { at, ts: vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]] }
}
fn closed(m: &Mesh<R, 3>) -> bool {
    let t = tris(m);
    let e: Vec<(usize, usize)> = t.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
    let d: BTreeSet<(usize, usize)> = e.iter().cloned().collect();
    d.len() == e.len() && d.iter().all(|x| d.contains(&(x.1, x.0)))
}
fn combine(a: &Solid, b: &Solid) -> &'static str {
    combine_meshes(a, b, a.mesh(), b.mesh())
}
/// The meshes have the shapes of the solids, with any further vertices.
fn combine_meshes(a: &Solid, b: &Solid, mut ma: Mesh<R, 3>, mut mb: Mesh<R, 3>) -> &'static str {
    let both = common(a, b);
    let (op, want) = match select("op", 3) {
        0 => (BooleanOp::Union, a.volume() + b.volume() - &both),
        1 => (BooleanOp::Intersection, both.clone()),
        _ => (BooleanOp::Difference, a.volume() - &both),
    };
    let given: Vec<P> = ma.vertices.iter().chain(&mb.vertices).map(|v| unpt(&v.position)).collect();
    let m = ma.corefine_and_boolean(&mut mb, op);
    valid(&m);
    check(closed(&m), "the result is closed");
    let at: Vec<P> = m.vertices.iter().map(|v| unpt(&v.position)).collect();
    let ts: Vec<Tri> = tris(&m).into_iter().collect();
    check((volume(&at, &ts) - &want).is_zero(), "the result has the volume of the set operation");
    let used: BTreeSet<usize> = ts.iter().flatten().cloned().collect();
    for i in used {
        let p = &at[i];
        let corner = given.iter().any(|c| eqp(c, p));
        check(corner || a.on_surface(p) && b.on_surface(p), "corners of the result are corners of the operands or common points");
    }
    if both.is_zero() { "apart" } else { "overlap" }
}
/// A small way along a line.
fn nudge(dir: [i32; 3]) -> P {
    let t = var_at("t", 1, 1 << 26);
    assume_nonneg(&t);
    assume_nonneg(&(frac(1, 1 << 24) - &t));
    scale(&ipt(dir), &t)
}
fn at60(p: [i32; 3]) -> P {
    p.map(|x| frac(x, 60))
}
fn pick(places: &[[i32; 3]], dir: [i32; 3]) -> P {
    add(&at60(places[select("place", places.len())]), &nudge(dir))
}
fn two_blocks(places: &[[i32; 3]]) {
    let lo = pick(places, [1, 2, 3]);
    reach(combine(&block(&ipt([0, 0, 0]), [1, 1, 1]), &block(&lo, [1, 1, 1])));
}
fn blocks() {
    two_blocks(&[[-19, -28, 11], [17, 11, 13], [90, 7, 5]]);
}
fn blocks_more() {
    two_blocks(&[[33, -13, -9], [-31, 25, 37], [40, 41, 47]]);
}
/// Edges through faces, a corner inside, a corner outside.
fn two_tetras(places: &[[i32; 3]]) {
    let o = pick(places, [2, 1, 1]);
    let a = tetra(&ipt([0, 0, 0]), [[2, 0, 0], [0, 2, 0], [0, 0, 2]]);
    reach(combine(&a, &tetra(&o, [[2, 1, 0], [0, 3, 1], [-1, 1, 2]])));
}
fn tetras() {
    two_tetras(&[[7, 5, 11], [25, -11, 4], [70, 50, 60]]);
}
fn tetras_more() {
    two_tetras(&[[-17, 13, 19], [-13, -23, 31]]);
}
fn block_and_tetra(places: &[[i32; 3]]) {
    let o = pick(places, [1, -1, 2]);
    let a = block(&ipt([0, 0, 0]), [1, 1, 1]);
    reach(combine(&a, &tetra(&o, [[2, 1, 0], [0, 3, 1], [-1, 1, 2]])));
}
fn mixed() {
    block_and_tetra(&[[-40, -35, -50], [70, 80, 50]]);
}
fn mixed_more() {
    block_and_tetra(&[[23, -31, 41], [13, 17, 29], [-70, 11, 8]]);
}
/// One solid inside the other, in either order.
fn inside() {
    let o = add(&at60([13, 17, 29]), &nudge([1, 2, 3]));
    let big = block(&ipt([0, 0, 0]), [3, 3, 3]);
    let small = block(&o, [1, 1, 1]);
    if select("order", 2) == 0 {
        reach(combine(&big, &small));
    } else {
        reach(combine(&small, &big));
    }
}
/// Changes the faces of a mesh but not its shape: leaves removed faces, edges
/// and vertices behind.
fn wear(m: &mut Mesh<R, 3>, how: usize) {
    let mut tree = m.build_face_tree();
    let middle = |m: &Mesh<R, 3>, f: usize| {
        let [a, b, c] = m.face_vertices(f).map(|v| unpt(&m.vertices[v].position));
        pt(&scale(&add(&add(&a, &b), &c), &frac(1, 3)))
    };
    match how {
        0 => {
            let [a, b, c] = m.face_vertices(1);
            m.remove_triangle(1);
            m.add_triangle(a, b, c);
        }
        1 => {
            let [a, b] = [1, 2].map(|v| unpt(&m.vertices[v].position));
            m.split_edge(&mut tree, m.edge_map[&(1, 2)], &pt(&lerp(&a, &b, &frac(2, 5))), true).unwrap();
        }
        _ => {
            let c = middle(m, 0);
            let first = m.split_face(&mut tree, 0, &c, true).unwrap().vertex;
            if how == 2 {
                return;
            }
            let f = m.faces.len() - 1;
            let c = middle(m, f);
            let second = m.split_face(&mut tree, f, &c, true).unwrap().vertex;
            m.collapse_edge(first, second).unwrap();
        }
    }
}
/// An operand that was changed before.
fn changed(which: impl Fn(usize) -> usize) {
    let o = add(&at60([7, 5, 11]), &nudge([2, 1, 1]));
    let a = tetra(&ipt([0, 0, 0]), [[2, 0, 0], [0, 2, 0], [0, 0, 2]]);
    let b = tetra(&o, [[2, 1, 0], [0, 3, 1], [-1, 1, 2]]);
    let (mut ma, mut mb) = (a.mesh(), b.mesh());
    let how = select("how", 4);
    wear(if which(how) == 0 { &mut ma } else { &mut mb }, how);
    reach(combine_meshes(&a, &b, ma, mb));
}
fn used() {
    changed(|how| 1 - how / 2);
}
fn used_more() {
    changed(|_| select("which", 2));
}
/// Cubes with a side in common plane.
fn flush() {
    reach("flush");
    let places = [[-8, 17, 0], [0, 11, 13], [20, 0, 31]];
    let lo = at60(places[select("place", places.len())]);
    combine(&block(&ipt([0, 0, 0]), [1, 1, 1]), &block(&lo, [1, 1, 1]));
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C17", mixed, 0, ["overlap", "apart"], "a cube and a tetrahedron, 2 relative placements, each moved by up to 2^-24 along a line"),
        h!("C17", tetras, 0, ["overlap", "apart"], "two tetrahedra, 3 relative placements, each moved by up to 2^-24 along a line"),
        h!("C17", blocks, 0, ["overlap", "apart"], "two unit cubes, 3 relative placements, each moved by up to 2^-24 along a line"),
        h!("C17", inside, 0, ["overlap"], "a cube within a cube, in either order, moved by up to 2^-24 along a line"),
        h!("C17", used, 0, ["overlap"], "two tetrahedra, one of them with a face remade, an edge split, a face split, or two vertices collapsed, moved by up to 2^-24 along a line"),
        h!("C17", flush, 0, ["flush"], "cubes with sides in a common plane, 3 fixed placements"),
        h!("C17", used_more, 1, ["overlap"], "as used, either operand changed in each way"),
        h!("C17", mixed_more, 1, ["overlap"], "a cube and a tetrahedron, 3 more placements"),
        h!("C17", tetras_more, 1, ["overlap"], "two tetrahedra, 2 more placements"),
        h!("C17", blocks_more, 1, ["overlap"], "two unit cubes, 3 more placements"),
    ]
}
