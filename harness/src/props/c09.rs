//! Centre/radius intervals under rounding. Every floating operation of the lifted code yields a
//! fresh value within half a unit of the exact one, so the verdict covers every rounding.
use crate::geo::*;
use cgar::numeric::ball::Ball;
use cgar::numeric::cgar_rational::CgarRational as R;
use cgar::numeric::lazy_exact::LazyExact as L;
use cgar::numeric::scalar::Scalar;
use rt::*;

macro_rules! hr {
    ($name:ident, $tier:expr, [$($r:literal),*], $bounds:expr) => {
        rt::Harness { prop: "C09", name: concat!("C09_", stringify!($name)), tier: $tier, run: $name, reach: &[$($r),*], bounds: $bounds, rounding: true, panics: false }
    };
}

/// A double away from the ends of the exponent range.
fn dbl(name: &str) -> F {
    let f = fvar(name);
    if !SYMBOLIC {
        let a = f_to_q(f).absq();
        assume(a.is_zero() || (a > f_to_q(fconst(1e-60)) && a < f_to_q(fconst(1e60))));
    }
    f
}
fn rad(name: &str) -> F {
    let f = dbl(name);
    assume_nonneg(&f_to_q(f));
    f
}
fn ball(i: u32) -> (Ball, Q, Q) {
    let (m, r) = (dbl(&format!("m{}", i)), rad(&format!("r{}", i)));
    (Ball { m, r }, f_to_q(m), f_to_q(r))
}
/// Any number in the ball.
fn member(i: u32, m: &Q, r: &Q) -> Q {
    let mut d = var(&format!("d{}", i));
    if !SYMBOLIC {
        // keep the offset inside when the radius was moved to a nearby double
        if d > *r {
            d = r.clone();
        }
        if d < -r {
            d = -r;
        }
    }
    assume_nonneg(&(r - &d));
    assume_nonneg(&(r + &d));
    m + &d
}
/// The bounds of a product or quotient over a box are taken at its corners.
fn corner(i: u32, m: &Q, r: &Q) -> Q {
    if choose(&format!("side{}", i), 2) == 0 {
        m + r
    } else {
        m - r
    }
}
fn encloses(b: &Ball, x: &Q, what: &str) {
    if !f_finite(b.r) {
        return;
    }
    let (m, r) = (f_to_q(b.m), f_to_q(b.r));
    check(!r.is_neg(), "negative radius");
    check(*x <= &m + &r, what);
    check(*x >= &m - &r, what);
}

fn add() {
    let (a, ma, ra) = ball(0);
    let (b, mb, rb) = ball(1);
    let (x, y) = (member(0, &ma, &ra), member(1, &mb, &rb));
    if choose("op", 2) == 0 {
        encloses(&a.add(b), &(&x + &y), "sum outside the interval");
        reach("add");
    } else {
        encloses(&a.sub(b), &(&x - &y), "difference outside the interval");
        reach("sub");
    }
}
fn neg() {
    let (a, ma, ra) = ball(0);
    let x = member(0, &ma, &ra);
    encloses(&a.neg(), &-&x, "negation outside the interval");
    let f = dbl("f");
    encloses(&Ball::from_f64(f), &f_to_q(f), "leaf outside the interval");
    check(!f_finite(Ball::unknown().r), "unknown interval is bounded");
    reach("end");
}
fn sign() {
    let (a, ma, ra) = ball(0);
    let x = member(0, &ma, &ra);
    match a.sign_if_certain() {
        Some(k) => {
            check(x.sgn() == k as i32, "certain sign is wrong");
            if k > 0 {
                reach("positive")
            } else {
                reach("negative")
            }
        }
        None => reach("uncertain"),
    }
    check(Ball::unknown().sign_if_certain().is_none(), "sign of an unknown value");
}
fn mul() {
    let (a, ma, ra) = ball(0);
    let (b, mb, rb) = ball(1);
    let (x, y) = (corner(0, &ma, &ra), corner(1, &mb, &rb));
    encloses(&a.mul(b), &(&x * &y), "product outside the interval");
    reach("end");
}
/// 1 / b for every b.
fn recip() {
    let (b, mb, rb) = ball(1);
    let one = Ball::from_f64(fconst(1.0));
    let y = corner(1, &mb, &rb);
    let c = one.div(b);
    if mb.absq() <= rb {
        check(!f_finite(c.r), "quotient by an interval around zero is bounded");
        reach("around zero");
        return;
    }
    encloses(&c, &(&q(1) / &y), "reciprocal outside the interval");
    reach("end");
}
/// a / b with exact divisor.
fn div_exact() {
    let (a, ma, ra) = ball(0);
    let m = dbl("m1");
    assume_nonzero(&f_to_q(m));
    let x = corner(0, &ma, &ra);
    encloses(&a.div(Ball::from_f64(m)), &(&x / &f_to_q(m)), "quotient outside the interval");
    reach("end");
}
/// a / b for all a and b.
fn div() {
    let (a, ma, ra) = ball(0);
    let (b, mb, rb) = ball(1);
    let (x, y) = (corner(0, &ma, &ra), corner(1, &mb, &rb));
    assume_pos(&(&mb.absq() - &rb));
    encloses(&a.div(b), &(&x / &y), "quotient outside the interval");
    reach("end");
}
/// Interval of a rational leaf and of expressions over leaves.
fn leaf() {
    let x = var("x");
    if !SYMBOLIC {
        let a = x.absq();
        assume(a.is_zero() || (a > f_to_q(fconst(1e-60)) && a < f_to_q(fconst(1e60))));
    }
    let l = L::from_rug_rational(x.0.clone());
    encloses(l.ball_ref(), &x, "rational outside its interval");
    encloses((-&l).ball_ref(), &-&x, "negated rational outside its interval");
    let f = dbl("f");
    encloses(L::from_f64(f).ball_ref(), &f_to_q(f), "double outside its interval");
    reach("end");
}
fn outer() {
    let x = var("x");
    if !SYMBOLIC {
        let a = x.absq();
        assume(a.is_zero() || (a > f_to_q(fconst(1e-60)) && a < f_to_q(fconst(1e60))));
    }
    let (lo, hi) = if choose("kind", 2) == 0 {
        reach("lazy");
        L::from_rug_rational(x.0.clone()).double_interval().unwrap()
    } else {
        reach("rational");
        s::<R>(&x).double_interval().unwrap()
    };
    check(f_to_q(lo) <= x, "lower bound above the number");
    check(f_to_q(hi) >= x, "upper bound below the number");
}
/// Two operations on leaves: doubles f, g and a rational x.
fn expr() {
    let (f, g) = (dbl("f"), dbl("g"));
    let x = var("x");
    if !SYMBOLIC {
        let a = x.absq();
        assume(a.is_zero() || (a > f_to_q(fconst(1e-60)) && a < f_to_q(fconst(1e60))));
    }
    let (a, b, c) = (L::from_f64(f), L::from_f64(g), L::from_rug_rational(x.0.clone()));
    let (p, r, t) = (f_to_q(f), f_to_q(g), x);
    let (e, v) = match choose("expr", 6) {
        0 => (&(&a + &b) + &c, &(&p + &r) + &t),
        1 => (&(&a - &c) - &b, &(&p - &t) - &r),
        2 => (&(&a * &b) - &c, &(&p * &r) - &t),
        3 => (&(&a - &b) * &c, &(&p - &r) * &t),
        4 => (-&(&a * &c), -&(&p * &t)),
        _ => (&(-&a) - &(&b + &c), &(-&p) - &(&r + &t)),
    };
    encloses(e.ball_ref(), &v, "expression outside its interval");
    if let Some(k) = e.ball_ref().sign_if_certain() {
        check(v.sgn() == k as i32, "certain sign of an expression is wrong");
    }
    reach("end");
}

pub fn all() -> Vec<Harness> {
    let b = "all centres, radii and members; every rounding to nearest; no overflow or underflow";
    vec![
        hr!(add, 0, ["add", "sub"], b),
        hr!(neg, 0, ["end"], b),
        hr!(sign, 0, ["positive", "negative", "uncertain"], b),
        hr!(mul, 0, ["end"], b),
        hr!(recip, 0, ["end", "around zero"], b),
        hr!(div_exact, 0, ["end"], "exact divisor; all dividends; every rounding to nearest; no overflow or underflow"),
        hr!(div, 1, ["end"], b),
        hr!(leaf, 0, ["end"], "all rationals and doubles in range"),
        hr!(outer, 0, ["lazy", "rational"], "all rationals in range"),
        hr!(expr, 0, ["end"], "six two-operation expressions over two doubles and a rational"),
    ]
}
