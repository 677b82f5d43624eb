//! Meshes: an independent connectivity checker and a model that only knows
//! the list of live faces.
use crate::geo::*;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::{Add, Div, Mul, Neg, Sub};

/// A case selector: a solver variable in [0, n) whose integer part is the
/// choice.  The cases are split by comparisons decided by the solver.
pub fn select(name: &str, n: usize) -> usize {
    let s = var_at(name, 1, 2);
    assume_nonneg(&s);
    assume_pos(&(q(n as i32) - &s));
    // Halving keeps the number of comparisons per case logarithmic.
    let (mut lo, mut hi) = (0, n);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if s < q(mid as i32) {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    lo
}

pub type Tri = [usize; 3];

/// Same triangle, smallest corner first, orientation kept.
pub fn canon(t: Tri) -> Tri {
    let m = (0..3).min_by_key(|&i| t[i]).unwrap();
    [t[m], t[(m + 1) % 3], t[(m + 2) % 3]]
}
pub fn flipped(t: Tri) -> Tri {
    [t[0], t[2], t[1]]
}

/// Corners of every live face, read by walking the half-edges.
pub fn live<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> BTreeMap<usize, Tri> {
    let mut r = BTreeMap::new();
    for (f, face) in m.faces.iter().enumerate() {
        if face.removed {
            continue;
        }
        let a = face.half_edge;
        let b = m.half_edges[a].next;
        let c = m.half_edges[b].next;
        r.insert(f, canon([m.half_edges[c].vertex, m.half_edges[a].vertex, m.half_edges[b].vertex]));
    }
    r
}
pub fn tris<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> BTreeSet<Tri> {
    live(m).values().cloned().collect()
}

/// The connectivity invariant; the first defect found is returned.
pub fn broken<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Option<&'static str> {
    let n = m.half_edges.len();
    let ok = |h: usize| h < n && !m.half_edges[h].removed;
    let mut alive = 0;
    for (i, h) in m.half_edges.iter().enumerate() {
        if h.removed {
            continue;
        }
        alive += 1;
        if !ok(h.next) || !ok(h.prev) || !ok(h.twin) {
            return Some("a live half-edge names a dead next, previous or twin");
        }
        if h.vertex >= m.vertices.len() || m.vertices[h.vertex].removed {
            return Some("a live half-edge ends at a dead vertex");
        }
        if m.half_edges[h.next].prev != i || m.half_edges[h.prev].next != i {
            return Some("next and previous are not inverse");
        }
        let t = &m.half_edges[h.twin];
        if h.twin == i || t.twin != i {
            return Some("twins do not point at each other");
        }
        let tail = t.vertex;
        if tail == h.vertex {
            return Some("a half-edge starts where it ends");
        }
        if m.half_edges[h.prev].vertex != tail {
            return Some("a half-edge does not start where its predecessor ends");
        }
        if m.edge_map.get(&(tail, h.vertex)) != Some(&i) {
            return Some("the edge lookup misses a live half-edge");
        }
        match h.face {
            None => {
                if t.face.is_none() {
                    return Some("an edge without a face");
                }
                if m.half_edges[h.next].face.is_some() {
                    return Some("a border continues into a face");
                }
            }
            Some(f) => {
                if f >= m.faces.len() || m.faces[f].removed {
                    return Some("a live half-edge names a dead face");
                }
                let a = m.faces[f].half_edge;
                if !ok(a) {
                    return Some("a live face names a dead half-edge");
                }
                let b = m.half_edges[a].next;
                let c = m.half_edges[b].next;
                if m.half_edges[c].next != a {
                    return Some("a face loop does not close after three steps");
                }
                if i != a && i != b && i != c {
                    return Some("a half-edge is not in the loop of its face");
                }
            }
        }
    }
    if m.edge_map.len() != alive {
        return Some("the edge lookup holds a dead half-edge");
    }
    for (f, face) in m.faces.iter().enumerate() {
        if face.removed {
            continue;
        }
        let mut h = face.half_edge;
        for _ in 0..3 {
            if !ok(h) || m.half_edges[h].face != Some(f) {
                return Some("a live face names a half-edge that is not its own");
            }
            let v = m.half_edges[h].vertex;
            match m.vertices[v].half_edge {
                Some(o) if ok(o) && m.half_edges[m.half_edges[o].twin].vertex == v => {}
                _ => return Some("a vertex of a live face has no live outgoing half-edge"),
            }
            h = m.half_edges[h].next;
        }
        if h != face.half_edge {
            return Some("a face loop does not close after three steps");
        }
    }
    None
}
pub fn valid<T: Scalar, const N: usize>(m: &Mesh<T, N>) {
    if let Some(e) = broken(m) {
        check(false, e);
    }
}

/// Everything but positions, to compare a mesh before and after.
pub type Snap = (
    Vec<(usize, Option<usize>, usize, usize, usize, bool)>,
    Vec<(usize, bool)>,
    Vec<(Option<usize>, bool)>,
    BTreeMap<(usize, usize), usize>,
);
pub fn snap<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Snap {
    (
        m.half_edges.iter().map(|h| (h.vertex, h.face, h.next, h.prev, h.twin, h.removed)).collect(),
        m.faces.iter().map(|f| (f.half_edge, f.removed)).collect(),
        m.vertices.iter().map(|v| (v.half_edge, v.removed)).collect(),
        m.edge_map.iter().map(|(k, v)| (*k, *v)).collect(),
    )
}

/// Places far apart on the unit scale, no three collinear, no four coplanar.
pub fn place(i: usize) -> [i32; 3] {
    let i = i as i32 + 1;
    [i, i * i, i * i * i]
}
pub fn fixed<T: Scalar, const N: usize>(n: usize) -> Mesh<T, N>
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: Add<&'a T, Output = T>
        + Sub<&'a T, Output = T>
        + Mul<&'a T, Output = T>
        + Div<&'a T, Output = T>
        + Neg<Output = T>,
{
    let mut m = Mesh::<T, N>::new();
    for i in 0..n {
        let p = place(i);
        m.add_vertex(Point { coords: std::array::from_fn(|k| T::from(p[k])) });
    }
    m
}

/// The list of live faces, with the add rule: keep the orientation when every
/// directed side is free, reverse when that makes it fit, refuse otherwise.
#[derive(Clone, Default)]
pub struct Model {
    pub faces: BTreeMap<usize, Tri>,
}
impl Model {
    pub fn sides(t: Tri) -> [(usize, usize); 3] {
        [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
    }
    pub fn free(&self, t: Tri) -> bool {
        let s = Self::sides(t);
        !self.faces.values().any(|&u| Self::sides(u).iter().any(|e| s.contains(e)))
    }
    pub fn fits(&self, t: Tri) -> Option<Tri> {
        if self.free(t) {
            Some(canon(t))
        } else if self.free(flipped(t)) {
            Some(canon(flipped(t)))
        } else {
            None
        }
    }
    /// Neighbours of v along edges of live faces.
    pub fn ring(&self, v: usize) -> BTreeSet<usize> {
        self.faces.values().filter(|t| t.contains(&v)).flatten().cloned().filter(|&u| u != v).collect()
    }
    pub fn around(&self, v: usize) -> BTreeSet<usize> {
        self.faces.iter().filter(|(_, t)| t.contains(&v)).map(|(f, _)| *f).collect()
    }
    /// Number of fans at v: more than one is a bow tie.
    pub fn fans(&self, v: usize) -> usize {
        let mut left: Vec<Tri> = self.faces.values().filter(|t| t.contains(&v)).cloned().collect();
        let mut n = 0;
        while let Some(t) = left.pop() {
            n += 1;
            let mut front = vec![t];
            while let Some(t) = front.pop() {
                let (near, far): (Vec<Tri>, Vec<Tri>) =
                    left.into_iter().partition(|u| u.iter().any(|&x| x != v && t.contains(&x)));
                front.extend(near);
                left = far;
            }
        }
        n
    }
    pub fn on_border(&self, v: usize) -> bool {
        self.faces.values().flat_map(|t| Self::sides(*t)).any(|(a, b)| {
            (a == v || b == v) && !self.faces.values().any(|u| Self::sides(*u).contains(&(b, a)))
        })
    }
}
