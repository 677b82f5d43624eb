//! Bounding boxes and the box tree.
use super::h;
use crate::geo::*;
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;
use cgar::numeric::cgar_f64::CgarF64 as D;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;
use std::ops::{Add, Div, Mul, Sub};

type B<T, const N: usize> = Aabb<T, N, Point<T, N>>;
type Tree<T, const N: usize> = AabbTree<T, N, Point<T, N>, usize>;

fn min(a: &Q, b: &Q) -> Q {
    if a < b {
        a.clone()
    } else {
        b.clone()
    }
}
fn max(a: &Q, b: &Q) -> Q {
    if a < b {
        b.clone()
    } else {
        a.clone()
    }
}
fn lohi<T: Scalar, const N: usize>(b: &B<T, N>) -> ([Q; N], [Q; N]) {
    (unpt(b.min()), unpt(b.max()))
}
fn vbox<const N: usize>(name: &str) -> ([Q; N], [Q; N]) {
    let lo: [Q; N] = std::array::from_fn(|i| var(&format!("{}{}", name, i)));
    let w: [Q; N] = std::array::from_fn(|i| var(&format!("{}w{}", name, i)));
    for x in &w {
        assume_nonneg(x);
    }
    let hi = add(&lo, &w);
    (lo, hi)
}
fn mk<T: Scalar, const N: usize>(b: &([Q; N], [Q; N])) -> B<T, N> {
    Aabb::new(pt::<T, N>(&b.0), pt::<T, N>(&b.1))
}
fn share<const N: usize>(a: &([Q; N], [Q; N]), b: &([Q; N], [Q; N])) -> bool {
    (0..N).all(|i| a.0[i] <= b.1[i] && b.0[i] <= a.1[i])
}

fn from_points<T: Scalar, const N: usize>()
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let (a, b) = (vpt::<N>("a"), vpt::<N>("b"));
    let x: B<T, N> = Aabb::from_points(&pt::<T, N>(&a), &pt::<T, N>(&b));
    let (lo, hi) = lohi(&x);
    for i in 0..N {
        check(lo[i] == min(&a[i], &b[i]), "lower corner of two points");
        check(hi[i] == max(&a[i], &b[i]), "upper corner of two points");
    }
    reach("end");
}
fn points_2() {
    from_points::<R, 2>()
}
fn points_3() {
    from_points::<R, 3>()
}
fn points_lazy() {
    from_points::<L, 2>()
}
fn union<T: Scalar, const N: usize>()
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let (a, b) = (vbox::<N>("a"), vbox::<N>("b"));
    let (lo, hi) = lohi(&mk::<T, N>(&a).union(&mk::<T, N>(&b)));
    for i in 0..N {
        check(lo[i] == min(&a.0[i], &b.0[i]), "lower corner of a union");
        check(hi[i] == max(&a.1[i], &b.1[i]), "upper corner of a union");
    }
    reach("end");
}
fn union_2() {
    union::<R, 2>()
}
fn union_3() {
    union::<R, 3>()
}
fn meet<T: Scalar, const N: usize>()
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let (a, b) = (vbox::<N>("a"), vbox::<N>("b"));
    let (x, y) = (mk::<T, N>(&a), mk::<T, N>(&b));
    let want = share(&a, &b);
    check(x.intersects(&y) == want, "box intersection");
    check(y.intersects(&x) == want, "box intersection, other order");
    if let Some(g) = x.intersects_approx(&y) {
        check(!g && !want, "approximate box intersection");
        reach("decided early");
    }
    if want {
        reach("meet")
    } else {
        reach("apart")
    }
}
fn meet_2() {
    meet::<R, 2>()
}
fn meet_3() {
    meet::<R, 3>()
}
fn meet_lazy() {
    meet::<L, 2>()
}
/// Machine numbers have a tolerance: boxes that share a point are never reported apart.
fn meet_f64() {
    let (a, b) = (vbox::<2>("a"), vbox::<2>("b"));
    let (x, y) = (mk::<D, 2>(&a), mk::<D, 2>(&b));
    if share(&a, &b) {
        check(x.intersects(&y), "box intersection");
        reach("meet");
    } else if SYMBOLIC {
        let t = frac(1, 1_000_000);
        if (0..2).any(|i| &a.0[i] - &b.1[i] > t || &b.0[i] - &a.1[i] > t) {
            check(!x.intersects(&y), "distant boxes meet");
            reach("apart");
        }
    }
}
fn shape() {
    let a = vbox::<3>("a");
    let x = mk::<R, 3>(&a);
    for i in 0..3 {
        check(&back(&x.center(i)) * &q(2) == &a.0[i] + &a.1[i], "centre");
    }
    let ax = x.longest_axis();
    let e: Vec<Q> = (0..3).map(|i| &a.1[i] - &a.0[i]).collect();
    check(ax < 3 && e.iter().all(|w| *w <= e[ax]), "longest axis");
    let d = var("d");
    let (lo, hi) = lohi(&x.inflated(&s::<R>(&d)));
    for i in 0..3 {
        check(lo[i] == &a.0[i] - &d && hi[i] == &a.1[i] + &d, "inflated box");
    }
    let (lo, hi) = lohi(&x.inflated_query_tol());
    for i in 0..3 {
        check(lo[i] <= a.0[i] && hi[i] >= a.1[i], "box inflated by the tolerance is smaller");
    }
    reach("end");
}

/// Answers of both queries against the list of (box, live).
fn ask<T: Scalar, const N: usize>(t: &Tree<T, N>, items: &[(([Q; N], [Q; N]), bool)], query: &([Q; N], [Q; N]))
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let qb = mk::<T, N>(query);
    let mut out = vec![];
    t.query_valid(&qb, &mut out);
    let mut all = vec![];
    t.query(&qb, &mut all);
    for (k, (b, live)) in items.iter().enumerate() {
        let n = out.iter().filter(|d| ***d == k).count();
        let m = all.iter().filter(|d| ***d == k).count();
        if share(b, query) {
            if *live {
                check(n == 1, "live item that meets the query box is missing or repeated");
                check(m == 1, "item that meets the query box is missing or repeated");
                reach("hit");
            } else {
                check(n == 0, "removed item is returned");
            }
        } else {
            check(n == 0 && m == 0, "item away from the query box is returned");
            reach("miss");
        }
    }
    check(out.iter().all(|d| **d < items.len()), "unknown item");
}
/// Positive, to keep the sign cases of the pruning bounds apart from the rest.
fn place(name: &str) -> Q {
    let x = var_at(name, 5, 1);
    assume_pos(&x);
    x
}
/// Item k: symbolic position along one axis, fixed elsewhere.
fn item(k: usize, axis: usize, x: &Q) -> ([Q; 2], [Q; 2]) {
    let w = [q(2), q(3), q(1), q(5), q(2)][k % 5].clone();
    let y = [q(1), q(4), q(2), q(1), q(3)][k % 5].clone();
    let h = [q(3), q(1), q(2), q(9), q(4)][k % 5].clone();
    let (a, b) = ([x.clone(), y.clone()], [x + &w, &y + &h]);
    if axis == 0 {
        (a, b)
    } else {
        ([y.clone(), x.clone()], [&y + &h, x + &w])
    }
}
fn build<T: Scalar>(n: usize)
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let axis = choose("axis", 2);
    let items: Vec<_> = (0..n).map(|k| (item(k, axis, &place(&format!("x{}", k))), true)).collect();
    let (qx, qw) = (place("qx"), var("qw"));
    assume_nonneg(&qw);
    let query = if axis == 0 { ([qx.clone(), q(2)], [&qx + &qw, q(3)]) } else { ([q(2), qx.clone()], [q(3), &qx + &qw]) };
    let t: Tree<T, 2> = AabbTree::build(items.iter().enumerate().map(|(k, i)| (mk::<T, 2>(&i.0), k)).collect());
    ask(&t, &items, &query);
    for (k, i) in items.iter().enumerate() {
        match t.get_aabb(k) {
            Some(b) => {
                let (lo, hi) = lohi(b);
                check(eqp(&lo, &i.0 .0) && eqp(&hi, &i.0 .1), "stored box");
            }
            None => check(false, "stored box is missing"),
        }
    }
}
fn build_1() {
    build::<R>(1)
}
fn build_2() {
    build::<R>(2)
}
fn build_3() {
    build::<R>(3)
}
fn build_4() {
    build::<R>(4)
}
fn build_lazy() {
    build::<L>(2)
}
/// Concrete boxes on a grid, symbolic query: deeper trees.
fn grid() {
    let n = [5, 7, 8][choose("n", 3)];
    let items: Vec<_> = (0..n)
        .map(|k| {
            let (x, y) = ((k * 5) % 8 + 1, (k * 3) % 7 + 1);
            ((([q(x), q(y)]), ([q(x + 1 + k % 2), q(y + 1 + k % 3)])), true)
        })
        .collect();
    let (x, w, h) = (place("x"), place("w"), place("h"));
    let query = ([x.clone(), q(3)], [&x + &w, &q(3) + &h]);
    let (t, lookup) = Tree::<R, 2>::build_with_lookup(items.iter().enumerate().map(|(k, i)| (mk::<R, 2>(&i.0), k)).collect());
    for (k, i) in items.iter().enumerate() {
        let (lo, hi) = lohi(&lookup[k]);
        check(eqp(&lo, &i.0 .0) && eqp(&hi, &i.0 .1), "looked-up box");
    }
    ask(&t, &items, &query);
}
/// Bounded histories: start with one to three items, then insert, remove and rebuild.
fn history(steps: usize, most: usize, axes: usize) {
    let n = 1 + choose("n", most);
    let axis = choose("axis", axes);
    // fixed places for the first items, symbolic ones for the inserted
    let mut items: Vec<_> = (0..n).map(|k| (item(k, axis, &q(1 + 4 * k as i32)), true)).collect();
    let mut t: Tree<R, 2> = AabbTree::build(items.iter().enumerate().map(|(k, i)| (mk::<R, 2>(&i.0), k)).collect());
    for st in 0..steps {
        match choose(&format!("step{}", st), 3) {
            0 => {
                let k = items.len();
                let x = if k == n { place("x") } else { q(6) };
                let b = item(k, axis, &x);
                t.insert(mk::<R, 2>(&b), k);
                items.push((b, true));
                reach("insert");
            }
            1 => {
                let k = choose(&format!("rm{}", st), items.len());
                let was = items[k].1;
                let r = t.invalidate(&k);
                check(r == was as usize, "number of removed items");
                items[k].1 = false;
                reach("remove");
            }
            _ => match t.compact() {
                Some(c) => {
                    check(items.iter().any(|i| i.1), "rebuilt from nothing");
                    t = c;
                    reach("rebuild");
                }
                None => {
                    check(items.iter().all(|i| !i.1), "live items lost by a rebuild");
                    reach("empty");
                    return;
                }
            },
        }
    }
    let (qx, qw) = (place("qx"), var("qw"));
    assume_nonneg(&qw);
    let query = if axis == 0 { ([qx.clone(), q(2)], [&qx + &qw, q(3)]) } else { ([q(2), qx.clone()], [q(3), &qx + &qw]) };
    let qb = mk::<R, 2>(&query);
    let mut out = vec![];
    t.query_valid(&qb, &mut out);
    for (k, (b, live)) in items.iter().enumerate() {
        let n = out.iter().filter(|d| ***d == k).count();
        if *live && share(b, &query) {
            check(n == 1, "live item that meets the query box is missing or repeated");
        } else {
            check(n == 0, "removed or distant item is returned");
        }
    }
    reach("end");
}
fn history_2() {
    history(2, 3, 2)
}
fn history_3() {
    history(3, 2, 1)
}
fn history_3_full() {
    history(3, 3, 2)
}

/// Coordinates that are not machine numbers; every rounding of the approximations used to prune.
fn coord<T: Scalar>(name: &str) -> (T, Q)
where
    for<'a> &'a T: Add<&'a T, Output = T>,
{
    let x = var(name);
    if !SYMBOLIC {
        let a = x.absq();
        assume(a.is_zero() || (a > f_to_q(fconst(1e-60)) && a < f_to_q(fconst(1e60))));
    }
    (s::<T>(&x), x)
}
fn pruned<T: Scalar>(expr: bool)
where
    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
{
    let z = || T::from(0i32);
    let (lo, lq) = coord::<T>("lo");
    let (mut hi, mut hq) = coord::<T>("hi");
    if expr {
        // a sum: its approximation is not the nearest double
        let (u, uq) = coord::<T>("u");
        assume_pos(&lq);
        assume_pos(&hq);
        assume_pos(&uq);
        hi = &hi + &u;
        hq = &hq + &uq;
    }
    // item from `lo` upwards, query up to `hi`, or the other way round
    let far = T::from(1000i32);
    let (ip, qp) = if choose("side", 2) == 0 {
        let item = Aabb::new(Point { coords: [lo.clone(), z()] }, Point { coords: [&lo + &far, z()] });
        let query = Aabb::new(Point { coords: [&hi - &far, z()] }, Point { coords: [hi.clone(), z()] });
        (item, query)
    } else {
        let item = Aabb::new(Point { coords: [&hi - &far, z()] }, Point { coords: [hi.clone(), z()] });
        let query = Aabb::new(Point { coords: [lo.clone(), z()] }, Point { coords: [&lo + &far, z()] });
        (item, query)
    };
    assume_pos(&(&(&hq - &lq) + &frac(1, 2)));
    assume_pos(&(&(&lq - &hq) + &frac(1, 2)));
    let t: Tree<T, 2> = AabbTree::build(vec![(ip, 0usize)]);
    let mut out = vec![];
    t.query_valid(&qp, &mut out);
    let mut all = vec![];
    t.query(&qp, &mut all);
    let want = (hq >= lq) as usize;
    check(out.len() == want, "item that meets the query box is missing, or the converse");
    check(all.len() == want, "item that meets the query box is missing, or the converse");
    if want == 1 {
        reach("hit")
    } else {
        reach("miss")
    }
}
fn pruned_rational() {
    pruned::<R>(false)
}
fn pruned_lazy() {
    pruned::<L>(false)
}
fn pruned_sum() {
    pruned::<L>(true)
}

pub fn all() -> Vec<Harness> {
    let b = "all coordinates";
    let rd = "all coordinates, every rounding of the approximations; one item, box ends within 1/2 of each other";
    vec![
        h!("C07", points_2, 0, ["end"], b),
        h!("C07", points_3, 0, ["end"], b),
        h!("C07", points_lazy, 0, ["end"], b),
        h!("C07", union_2, 0, ["end"], b),
        h!("C07", union_3, 1, ["end"], b),
        h!("C07", meet_2, 0, ["meet", "apart", "decided early"], b),
        h!("C07", meet_3, 0, ["meet", "apart", "decided early"], b),
        h!("C07", meet_lazy, 0, ["meet", "apart", "decided early"], b),
        h!("C07", meet_f64, 0, ["meet", "apart"], "all coordinates; reported meeting when sharing a point, apart when further than 1e-6"),
        h!("C07", shape, 0, ["end"], b),
        h!("C07", build_1, 0, ["hit", "miss"], "tree of 1 item, position and query along one axis symbolic and positive"),
        h!("C07", build_2, 0, ["hit", "miss"], "tree of 2 items, positions and query along one axis symbolic and positive"),
        h!("C07", build_3, 0, ["hit", "miss"], "tree of 3 items, positions and query along one axis symbolic and positive"),
        h!("C07", build_4, 1, ["hit", "miss"], "tree of 4 items, positions and query along one axis symbolic and positive"),
        h!("C07", build_lazy, 0, ["hit", "miss"], "tree of 2 items, lazy numbers"),
        h!("C07", grid, 0, ["hit", "miss"], "trees of 5, 7 and 8 fixed boxes, any query box with a fixed lower side"),
        h!("C07", history_2, 0, ["insert", "remove", "rebuild", "empty", "end"], "1 to 3 fixed items, then 2 steps of insert (the first at a symbolic positive place), remove, rebuild; symbolic query"),
        h!("C07", history_3_full, 1, ["insert", "remove", "rebuild", "empty", "end"], "1 to 3 fixed items, then 3 steps of insert (the first at a symbolic positive place), remove, rebuild; symbolic query"),
        h!("C07", history_3, 0, ["insert", "remove", "rebuild", "empty", "end"], "1 or 2 fixed items, then 3 steps of insert (the first at a symbolic positive place), remove, rebuild; symbolic query"),
        Harness { rounding: true, ..h!("C07", pruned_rational, 0, ["hit", "miss"], rd) },
        Harness { rounding: true, ..h!("C07", pruned_lazy, 0, ["hit", "miss"], rd) },
        Harness { rounding: true, ..h!("C07", pruned_sum, 0, ["hit", "miss"], "as above, one end a sum of positive numbers") },
    ]
}
