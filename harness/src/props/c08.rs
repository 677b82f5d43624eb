//! Lazily evaluated exact numbers against exact arithmetic.
use super::h;
use crate::geo::*;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use cgar::operations::{Abs, One, Zero};
use rt::*;
use std::cmp::Ordering;

type N = (L, Q);

fn ord(x: &Q, y: &Q) -> Ordering {
    match (x - y).sgn() {
        -1 => Ordering::Less,
        0 => Ordering::Equal,
        _ => Ordering::Greater,
    }
}
/// Every way of combining two numbers; None where undefined.
fn apply(k: usize, a: &N, b: &N) -> Option<N> {
    let (x, y) = (&a.1, &b.1);
    Some(match k {
        0 => (&a.0 + &b.0, x + y),
        1 => (&a.0 - &b.0, x - y),
        2 => (&a.0 * &b.0, x * y),
        3 => {
            if y.is_zero() {
                return None;
            }
            (&a.0 / &b.0, x / y)
        }
        4 => (-&a.0, -x),
        5 => (a.0.abs(), x.absq()),
        6 => {
            let mut z = a.0.clone();
            z += &b.0;
            (z, x + y)
        }
        _ => {
            let mut z = a.0.clone();
            z -= &b.0;
            (z, x - y)
        }
    })
}
fn by_value(k: usize, a: &N, b: &N) -> L {
    let (x, y) = (a.0.clone(), b.0.clone());
    match k {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        3 => x / y,
        _ => -x,
    }
}
/// The questions a number answers by itself.
fn ask1(n: &N) {
    let k = n.1.sgn();
    check(n.0.sign() as i32 == k, "sign");
    check(Zero::is_zero(&n.0) == (k == 0), "zero test");
    check(n.0.is_positive() == (k > 0), "positive test");
    check(n.0.is_negative() == (k < 0), "negative test");
    check(n.0.is_positive_or_zero() == (k >= 0), "not negative test");
    check(n.0.is_negative_or_zero() == (k <= 0), "not positive test");
    check(L::is_zero(&n.0) == (k == 0), "own zero test");
    let o = match k {
        -1 => Ordering::Less,
        0 => Ordering::Equal,
        _ => Ordering::Greater,
    };
    check(n.0.cmp_zero() == o, "comparison with zero");
}
/// The questions about a pair.
fn ask2(a: &N, b: &N) {
    let o = ord(&a.1, &b.1);
    check(a.0.partial_cmp(&b.0) == Some(o), "partial_cmp");
    check(L::cmp_ref(&a.0, &b.0) == o, "cmp_ref");
    if let Some(f) = a.0.cmp_fast(&b.0) {
        check(f == o, "cmp_fast");
    }
    check(L::cmp_exact(&a.0, &b.0) as i32 == (&a.1 - &b.1).sgn(), "cmp_exact");
    check((a.0 == b.0) == (o == Ordering::Equal), "equality");
    check((a.0 < b.0) == (o == Ordering::Less), "less");
    check((a.0 >= b.0) == (o != Ordering::Less), "not less");
    let lo = if o == Ordering::Less { &a.1 } else { &b.1 };
    let hi = if o == Ordering::Less { &b.1 } else { &a.1 };
    check(back(&Scalar::min(a.0.clone(), b.0.clone())) == *lo, "minimum");
    check(back(&Scalar::max(a.0.clone(), b.0.clone())) == *hi, "maximum");
}
fn exact(n: &N, what: &str) {
    check(back(&n.0) == n.1, what);
}
/// A double, a rational (over 3, never a double unless zero), an integer.
fn leaves() -> Vec<N> {
    let (f, x) = (fvar("f"), var("x"));
    let fq = f_to_q(f);
    vec![
        (L::from_f64(f), fq),
        (L::from_rug_rational(x.0.clone()), x),
        (L::from_i32(2), q(2)),
        (L::zero(), q(0)),
        (L::one(), q(1)),
        (L::from_f64(fconst(-0.0)), q(0)),
    ]
}
fn leaf() {
    let l = leaves();
    let i = choose("i", l.len());
    let j = choose("j", l.len());
    ask2(&l[i], &l[j]);
    ask1(&l[i]);
    exact(&l[i], "exact value of a leaf");
    ask2(&l[i], &l[j]);
    ask1(&l[i]);
    if let Some(v) = l[i].0.as_f64_if_exact() {
        check(f_to_q(v) == l[i].1, "exact double");
        reach("exact double");
    }
    reach("end");
}
/// One operation on every pair of leaves.
fn one() {
    let l = leaves();
    let i = choose("i", l.len());
    let j = choose("j", l.len());
    let k = choose("op", 8);
    if choose("early", 2) == 1 {
        l[i].0.force_exact();
        check(l[i].0.has_exact(), "forced value is missing");
    }
    if let Some(n) = apply(k, &l[i], &l[j]) {
        if k < 5 {
            exact(&(by_value(k, &l[i], &l[j]), n.1.clone()), "exact value, operands moved");
        }
        ask1(&n);
        ask2(&n, &l[j]);
        exact(&n, "exact value");
        ask1(&n);
        ask2(&l[i], &n);
        exact(&l[i], "operand changed");
        exact(&l[j], "operand changed");
        reach("end");
    } else {
        reach("undefined");
    }
}
fn two_ops(k1: usize, k2: usize, full: bool) {
    let l = leaves();
    // operands of the first step: double with rational in both orders, double with itself,
    // with an integer and with zero
    let (i, j) = [(0, 1), (1, 0), (0, 0), (0, 2), (5, 1), (0, 3)][choose("ij", if full { 6 } else { 3 })];
    let n1 = match apply(k1, &l[i], &l[j]) {
        Some(n) => n,
        None => return,
    };
    match choose("early", if full { 4 } else { 2 }) {
        0 => {}
        1 => n1.0.force_exact(),
        2 => ask1(&n1),
        _ => {
            let _ = n1.0.approx();
            let _ = n1.0.double_interval();
        }
    }
    let shared = n1.clone();
    // second operand: a leaf, the first result, or the first result shared
    let ops = [l[0].clone(), l[1].clone(), l[4].clone(), shared];
    let o = choose("second", 4);
    let swap = choose("swap", 2) == 1;
    let n2 = if swap { apply(k2, &ops[o], &n1) } else { apply(k2, &n1, &ops[o]) };
    if let Some(n2) = n2 {
        ask1(&n2);
        ask2(&n2, &n1);
        exact(&n2, "exact value");
        ask1(&n2);
        exact(&n1, "operand changed");
        reach("end");
    }
}
fn two_sum() {
    two_ops(choose("op1", 2), choose("op2", 8), false)
}
fn two_prod() {
    two_ops(2, choose("op2", 8), false)
}
fn two_quot() {
    two_ops(3, choose("op2", 8), false)
}
fn two_abs() {
    two_ops([4, 5, 6, 7][choose("op1", 4)], choose("op2", 8), false)
}
fn two_sum_full() {
    two_ops(choose("op1", 2), choose("op2", 8), true)
}
fn two_prod_full() {
    two_ops(2, choose("op2", 8), true)
}
fn two_quot_full() {
    two_ops(3, choose("op2", 8), true)
}
fn two_abs_full() {
    two_ops([4, 5, 6, 7][choose("op1", 4)], choose("op2", 8), true)
}
/// Longer than the depth at which expressions are folded.
fn deep() {
    let f = fvar("f");
    let fq = f_to_q(f);
    let a = L::from_f64(f);
    let step = L::from_f64(fconst(0.5));
    let kind = choose("kind", 3);
    let n = 1030;
    let mut x = a.clone();
    let mut v = fq.clone();
    for k in 0..n {
        match kind {
            0 => {
                x = &x + &step;
                v = &v + &frac(1, 2);
            }
            1 => {
                x = &step - &x;
                v = &frac(1, 2) - &v;
            }
            _ => {
                x = if k % 2 == 0 { &x * &step } else { &x / &step };
                v = if k % 2 == 0 { &v * &frac(1, 2) } else { &v / &frac(1, 2) };
            }
        }
    }
    check(x.sign() as i32 == v.sgn(), "sign of a deep expression");
    exact(&(x.clone(), v.clone()), "exact value of a deep expression");
    ask2(&(x, v), &(a, fq));
    reach("end");
}
/// Sorting and rounding helpers of the scalar interface.
fn consts() {
    let f = fvar("f");
    let l = L::from_f64(f);
    check(back(&L::from_num_den(3, 7)) == frac(3, 7), "fraction");
    check(back(&L::tolerance()).is_zero(), "tolerance of exact numbers");
    check(back(&L::zero()).is_zero() && back(&L::one()) == q(1), "constants");
    check(back(&L::default()).is_zero(), "default");
    let c = l.clone();
    c.force_exact();
    check(l.has_exact(), "clone is not shared");
    check(back(&l) == f_to_q(f), "value of a shared number");
    let g = l.approx().0;
    check(g == f, "approximation of a double");
    reach("end");
}

fn small(x: &Q) {
    if !SYMBOLIC {
        let a = x.absq();
        assume(a.is_zero() || (a > f_to_q(fconst(1e-60)) && a < f_to_q(fconst(1e60))));
    }
}
fn leaf_r(name: &str) -> N {
    if choose(&format!("kind{}", name), 2) == 0 {
        let f = fvar(name);
        small(&f_to_q(f));
        (L::from_f64(f), f_to_q(f))
    } else {
        let x = var(name);
        small(&x);
        (L::from_rug_rational(x.0.clone()), x)
    }
}
/// Answers do not depend on how the approximations are rounded.
fn rounded() {
    let (a, b) = (leaf_r("a"), leaf_r("b"));
    ask1(&a);
    ask2(&a, &b);
    if let Some(v) = a.0.as_f64_if_exact() {
        check(f_to_q(v) == a.1, "exact double");
        reach("exact double");
    }
    exact(&a, "exact value");
    reach("end");
}
fn rounded_op() {
    rounded_ops(choose("op", 3))
}
fn rounded_div() {
    rounded_ops(3)
}
fn rounded_ops(k: usize) {
    let (a, b) = (leaf_r("a"), leaf_r("b"));
    if let Some(n) = apply(k, &a, &b) {
        ask1(&n);
        check(L::cmp_ref(&n.0, &b.0) == ord(&n.1, &b.1), "cmp_ref");
        check(n.0.partial_cmp(&b.0) == Some(ord(&n.1, &b.1)), "partial_cmp");
        exact(&n, "exact value");
        reach("end");
    }
}

pub fn all() -> Vec<Harness> {
    let b = "leaves: every double, every rational, 0, 1, 2, -0.0";
    vec![
        h!("C08", leaf, 0, ["end", "exact double"], b),
        h!("C08", one, 0, ["end", "undefined"], "one operation on all pairs of leaves (every double, every rational, 0, 1, 2, -0.0), with and without early evaluation"),
        h!("C08", two_sum, 0, ["end"], "sum or difference, then any operation; three operand pairs, with and without early evaluation, operands shared"),
        h!("C08", two_prod, 0, ["end"], "product, then any operation; operands as for two_sum"),
        h!("C08", two_quot, 0, ["end"], "quotient, then any operation; operands as for two_sum"),
        h!("C08", two_abs, 0, ["end"], "negation, absolute value or in-place sum, then any operation; operands as for two_sum"),
        h!("C08", two_sum_full, 1, ["end"], "sum or difference, then any operation; six operand pairs, four ways of early evaluation, operands shared"),
        h!("C08", two_prod_full, 1, ["end"], "product, then any operation; operands as for two_sum"),
        h!("C08", two_quot_full, 1, ["end"], "quotient, then any operation; operands as for two_sum"),
        h!("C08", two_abs_full, 1, ["end"], "negation, absolute value or in-place sum, then any operation; operands as for two_sum"),
        Harness { rounding: true, ..h!("C08", rounded, 0, ["end", "exact double"], "pairs of any doubles and rationals; every rounding of the approximations") },
        Harness { rounding: true, ..h!("C08", rounded_op, 0, ["end"], "a sum, difference or product of any doubles and rationals; every rounding of the approximations") },
        Harness { rounding: true, ..h!("C08", rounded_div, 1, ["end"], "a quotient of any doubles and rationals; every rounding of the approximations") },
        h!("C08", deep, 0, ["end"], "three chains of 1030 operations over one symbolic double"),
        h!("C08", consts, 0, ["end"], "constants and shared clones; any double"),
    ]
}
