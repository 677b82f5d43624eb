//! Remeshing and smoothing.
use super::h;
use crate::geo::*;
use crate::mesh::*;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::remesh::RemeshOptions;
use cgar::numeric::cgar_f64::CgarF64 as D;
use cgar::numeric::scalar::Scalar;
use cgar::numeric::cgar_rational::CgarRational as R;
use rt::*;
use std::collections::BTreeSet;

type M<T> = Mesh<T, 3>;

macro_rules! mesh {
    ($t:ty, $at:expr, $ts:expr) => {{
        let mut m = fixed::<$t, 3>($at.len());
        for t in $ts {
            m.add_triangle(t[0], t[1], t[2]);
        }
        for (i, p) in $at.iter().enumerate() {
            m.vertices[i].position = pt(p);
        }
        m
    }};
}
fn positions<T: Scalar>(m: &M<T>) -> Vec<[Q; 3]> {
    m.vertices.iter().map(|v| unpt(&v.position)).collect()
}
fn normal(p: &[[Q; 3]], t: Tri) -> [Q; 3] {
    cross(&sub(&p[t[1]], &p[t[0]]), &sub(&p[t[2]], &p[t[0]]))
}
fn edges<T: Scalar>(m: &M<T>) -> BTreeSet<(usize, usize)> {
    tris(m).iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).map(|(a, b)| (a.min(b), a.max(b))).collect()
}
fn border<T: Scalar>(m: &M<T>) -> Vec<(usize, usize)> {
    let d: BTreeSet<(usize, usize)> = tris(m).iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
    d.iter().filter(|e| !d.contains(&(e.1, e.0))).cloned().collect()
}
/// Euler characteristic and number of border loops.
fn topology<T: Scalar>(m: &M<T>) -> (i64, usize) {
    let t = tris(m);
    let v: BTreeSet<usize> = t.iter().flatten().cloned().collect();
    let mut next: std::collections::BTreeMap<usize, usize> = border(m).into_iter().collect();
    let mut loops = 0;
    while let Some((&s, _)) = next.iter().next() {
        let mut x = s;
        while let Some(y) = next.remove(&x) {
            x = y;
        }
        loops += 1;
    }
    (v.len() as i64 - edges(m).len() as i64 + t.len() as i64, loops)
}
fn len2(p: &[[Q; 3]], e: (usize, usize)) -> Q {
    let d = sub(&p[e.0], &p[e.1]);
    dot(&d, &d)
}
/// Flat pieces (z = 0, facing up) and closed solids.
fn shapes() -> Vec<(&'static str, Vec<[i32; 3]>, Vec<Tri>)> {
    let grid: Vec<Tri> =
        vec![[0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [3, 4, 7], [3, 7, 6], [4, 5, 8], [4, 8, 7]];
    vec![
        ("pair", vec![[0, 0, 0], [6, 1, 0], [7, 6, 0], [-1, 4, 0]], vec![[0, 1, 2], [0, 2, 3]]),
        (
            "grid",
            vec![[0, 0, 0], [5, -1, 0], [10, 0, 0], [-1, 4, 0], [4, 5, 0], [11, 6, 0], [0, 10, 0], [6, 9, 0], [10, 11, 0]],
            grid,
        ),
        ("tetrahedron", vec![[0, 0, 0], [6, 0, 1], [1, 7, 0], [2, 1, 5]], vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]),
        (
            "octahedron",
            vec![[0, 0, 6], [5, 0, 0], [0, 4, 1], [-6, 1, 0], [0, -5, 0], [1, 0, -5]],
            vec![[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]],
        ),
    ]
}
fn options<T: Scalar>(target: &Q, n: usize) -> RemeshOptions<T>
where
    for<'a> &'a T: std::ops::Mul<&'a T, Output = T> + std::ops::Div<&'a T, Output = T>,
{
    let mut o = RemeshOptions::new(s::<T>(target));
    o.max_iterations = n;
    o
}
/// All target lengths on fixed shapes.
fn target(n: usize, torn: bool) {
    let all = shapes();
    let (name, p, ts) = &all[select("shape", all.len())];
    let at: Vec<[Q; 3]> = p.iter().map(|p| ipt(*p)).collect();
    let mut m = mesh!(D, at, ts);
    if torn {
        // one of the faces was taken away before; the rest hangs together
        let cut = [0, ts.len() - 1];
        m.remove_triangle(cut[select("cut", 2)]);
    }
    let t = var_at("target", 4, 1);
    assume_nonneg(&(&t - frac(3, 2)));
    assume_nonneg(&(q(20) - &t));
    let (hi, lo) = (f_to_q(fconst(1.45)) * &t, f_to_q(fconst(0.75)) * &t);
    let (hi, lo) = (&hi * &hi, &lo * &lo);
    // floats are compared up to a tolerance
    let band = frac(1, 1000000000);
    let (mut long, mut short, mut close) = (false, false, false);
    let mut l: Vec<Q> = edges(&m).into_iter().map(|e| len2(&at, e)).collect();
    l.sort_by(|x, y| x.partial_cmp(y).unwrap());
    long |= l[l.len() - 1] > hi;
    close |= (&l[l.len() - 1] - &hi).absq() <= band;
    short |= l[0] < &lo + &band;
    let before = topology(&m);
    check(m.isotropic_remesh(&options(&t, n)).is_ok(), "remeshing succeeds");
    valid(&m);
    if tris(&m).is_empty() {
        // the halves of long edges may be short
        check(short || long, "a piece vanishes only when its edges are short");
        reach("vanished");
    } else {
        check(topology(&m) == before, "remeshing keeps the topology");
    }
    let now = positions(&m);
    if p.iter().all(|p| p[2] == 0) {
        for t in tris(&m) {
            check(t.iter().all(|&i| now[i][2].is_zero()), "a flat mesh stays flat");
            check(normal(&now, t)[2].is_pos(), "no face of a flat mesh is turned over");
        }
        reach("flat");
    } else {
        reach("solid");
    }
    let gone = m.vertices.iter().filter(|v| v.removed).count();
    if n == 1 {
        check(close || (m.vertices.len() > at.len()) == long, "edges are split when longer than the bound");
        if !long && !close {
            check(gone == 0 || short, "edges are collapsed when shorter than the bound");
        }
        if m.vertices.len() > at.len() {
            reach("split");
        }
    }
    if gone > 0 {
        reach("collapsed");
    }
    let _ = name;
}
fn target_once() {
    target(1, false);
}
fn target_twice() {
    target(2, false);
}
fn target_often() {
    target(4, false);
}
fn torn() {
    target(1, true);
}
fn torn_twice() {
    target(2, true);
}
/// Two triangles whose common edge may be exchanged: one corner moves.
fn exchange() {
    let mut at: Vec<[Q; 3]> = [[0, 20, 0], [0, 53, 0], [-23, 0, 0], [23, 0, 0]].iter().map(|p| ipt(*p)).collect();
    let y = var_at("y", 20, 1);
    assume_nonneg(&(&y + q(5)));
    assume_nonneg(&(q(23) - &y));
    at[0][1] = y;
    let ts = [[0, 1, 2], [1, 0, 3]];
    let mut m = mesh!(R, at, &ts);
    // lengths between 3/4 and 1.45 of the target are left alone
    check(m.isotropic_remesh(&options(&q(40), 1)).is_ok(), "remeshing succeeds");
    valid(&m);
    let now = positions(&m);
    for t in tris(&m) {
        check(normal(&now, t)[2].is_pos(), "no face of a flat mesh is turned over");
    }
    reach(if tris(&m).contains(&canon([0, 1, 2])) { "kept" } else { "changed" });
}
/// Smoothing one vertex of a flat ring.
fn smooth_flat() {
    let n = 3 + select("n", 3);
    // all around, or with a notch
    let rim = if select("notch", 2) == 0 {
        [[6, 0], [2, 6], [-5, 4], [-6, -3], [1, -6]]
    } else {
        [[1, 0], [9, 8], [-5, 4], [-6, -3], [9, -9]]
    };
    let mut at: Vec<[Q; 3]> = vec![[var_at("x", 0, 1), q(0), q(0)]];
    if select("line", 2) == 1 {
        let x = at[0][0].clone();
        at[0][1] = x * frac(1, 3) + q(1);
    }
    let mut ts = vec![];
    for i in 0..n {
        at.push(ipt([rim[i * 5 / n][0], rim[i * 5 / n][1], 0]));
        ts.push([0, 1 + i, 1 + (i + 1) % n]);
    }
    for t in &ts {
        assume_pos(&normal(&at, *t)[2]);
    }
    let mut m = mesh!(R, at, &ts);
    let alpha = [frac(1, 4), frac(1, 2), q(1)][select("alpha", 3)].clone();
    let max = var_at("max", 100, 1);
    assume_pos(&max);
    let v = select("v", n + 1);
    let before = snap(&m);
    let moved = m.smooth_tangential(v, s(&alpha), &s(&max));
    check(snap(&m) == before, "smoothing leaves the connectivity alone");
    let now = positions(&m);
    for i in 0..=n {
        if i != v || !moved {
            check(eqp(&now[i], &at[i]), "smoothing moves one vertex at most");
        }
    }
    if v > 0 {
        check(!moved, "border vertices stay");
        reach("border");
        return;
    }
    // towards the mean of the neighbours
    let mut mean = [q(0), q(0), q(0)];
    for p in &at[1..] {
        mean = add(&mean, p);
    }
    let mean = scale(&mean, &frac(1, n as i32));
    let want = lerp(&at[0], &mean, &alpha);
    let mut fits = (1..=n).all(|i| {
        let d = sub(&want, &at[i]);
        dot(&d, &d) <= max
    });
    let mut after = at.clone();
    after[0] = want.clone();
    if fits && ts.iter().any(|t| !normal(&after, *t)[2].is_pos()) {
        fits = false;
        reach("would fold");
    }
    check(moved == fits, "a move is refused when an edge becomes too long or a face is turned over");
    if moved {
        check(eqp(&now[0], &want), "the vertex moves towards the mean of its neighbours");
        reach("moved");
    } else {
        reach("refused");
    }
}
/// Smoothing a whole flat ring, several times over.
fn smooth_all() {
    let n = 3 + select("n", 3);
    let rim = [[6, 0], [2, 6], [-5, 4], [-6, -3], [1, -6]];
    let mut at: Vec<[Q; 3]> = vec![[var_at("x", 0, 1), frac(1, 2), q(0)]];
    let mut ts = vec![];
    for i in 0..n {
        at.push(ipt([rim[i * 5 / n][0], rim[i * 5 / n][1], 0]));
        ts.push([0, 1 + i, 1 + (i + 1) % n]);
    }
    for t in &ts {
        assume_pos(&normal(&at, *t)[2]);
    }
    let mut m = mesh!(R, at, &ts);
    let max = var_at("max", 20, 1);
    assume_pos(&max);
    let rounds = 1 + select("rounds", 2);
    let count = m.smooth_vertices(rounds, &s(&max));
    let now = positions(&m);
    let mut mean = [q(0), q(0), q(0)];
    for p in &at[1..] {
        mean = add(&mean, p);
    }
    let mean = scale(&mean, &frac(1, n as i32));
    let mut want = at[0].clone();
    let mut moves = 0;
    for _ in 0..rounds {
        let next = lerp(&want, &mean, &frac(1, 2));
        let fits = (1..=n).all(|i| {
            let d = sub(&next, &at[i]);
            dot(&d, &d) <= &max * &max
        });
        if fits {
            want = next;
            moves += 1;
        }
    }
    check(count == moves, "smoothing reports the number of moves");
    check(eqp(&now[0], &want), "each round moves the vertex half of the way to the mean");
    check((1..=n).all(|i| eqp(&now[i], &at[i])), "border vertices stay");
    reach(["none", "one", "two"][moves]);
}
/// Smoothing the top of a pyramid: the move lies in the tangent plane.
fn smooth_peak() {
    let n = 3 + select("n", 3);
    let rim = [[6, 0], [2, 6], [-5, 4], [-6, -3], [1, -6]];
    let mut at: Vec<[Q; 3]> = vec![[q(1), q(2), var_at("h", 1, 1)]];
    let mut ts = vec![];
    for i in 0..n {
        at.push(ipt([rim[i * 5 / n][0], rim[i * 5 / n][1], if i == 0 { 1 } else { 0 }]));
        ts.push([0, 1 + i, 1 + (i + 1) % n]);
    }
    let mut m = mesh!(R, at, &ts);
    let alpha = frac(1, 2);
    let moved = m.smooth_tangential(0, s(&alpha), &s(&q(1000000)));
    let now = positions(&m);
    let mut sum = [q(0), q(0), q(0)];
    let mut mean = [q(0), q(0), q(0)];
    for i in 0..n {
        sum = add(&sum, &normal(&at, ts[i]));
        mean = add(&mean, &sub(&at[1 + i], &at[0]));
    }
    let mean = scale(&mean, &frac(1, n as i32));
    let d = sub(&now[0], &at[0]);
    if moved {
        check(dot(&d, &sum).is_zero(), "the move lies in the tangent plane");
        // what is missing from the way to the mean is along the normal
        let rest = sub(&scale(&mean, &alpha), &d);
        check(is_zero_vec(&cross(&rest, &sum)), "the move is the tangential part of the way to the mean");
        reach("moved");
    } else {
        check(is_zero_vec(&d), "a refused move changes nothing");
        reach("refused");
    }
}

pub fn all() -> Vec<Harness> {
    vec![
        h!("C18", target_once, 0, ["flat", "solid", "split", "collapsed", "vanished"], "4 shapes, any target length from 3/2 to 20, one round"),
        h!("C18", target_twice, 0, ["flat", "solid", "collapsed", "vanished"], "4 shapes, any target length from 3/2 to 20, two rounds"),
        h!("C18", torn, 0, ["flat", "solid", "split", "collapsed", "vanished"], "the shapes without one of their faces, any target length from 3/2 to 20, one round"),
        h!("C18", torn_twice, 0, ["flat", "solid", "collapsed", "vanished"], "the shapes without one of their faces, any target length from 3/2 to 20, two rounds"),
        h!("C18", target_often, 1, ["flat", "solid", "collapsed", "vanished"], "4 shapes, any target length from 3/2 to 20, four rounds"),
        h!("C18", smooth_all, 0, ["none", "one", "two"], "flat rings of 3 to 5, centre on a line, any length limit, 1 or 2 rounds"),
        h!("C18", exchange, 0, ["kept", "changed"], "two flat triangles, one corner moving on a line"),
        h!("C18", smooth_flat, 0, ["border", "moved", "refused", "would fold"], "flat rings of 3 to 5, centre on two lines, 3 weights, any length limit"),
        h!("C18", smooth_peak, 0, ["moved", "refused"], "pyramids of 3 to 5 sides, any height"),
    ]
}
