//! Symbolic replacement for f64.
use crate::engine::*;
use crate::poly::Poly;
use rug::{Integer, Rational};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy)]
pub enum F {
    C(f64),
    S(u32),
}

pub const fn lit(x: f64) -> F {
    F::C(x)
}

/// Exact rational of a finite double.
pub fn rat(x: f64) -> Rational {
    Rational::from_f64(x).unwrap()
}

pub fn val_const(c: Rational) -> Val {
    Val { c, f: Factors::new() }
}

pub fn mk(v: Val) -> F {
    if v.f.is_empty() {
        let d = v.c.to_f64();
        if d.is_finite() && rat(d) == v.c {
            return F::C(d);
        }
    }
    F::S(eng().push_val(v))
}

/// Formula stating that the sign of v is in mask m.
pub fn fm_sign(v: &Val, m: u8) -> Fm {
    let e = eng();
    if v.f.is_empty() {
        let s = if v.c > 0 {
            POS
        } else if v.c < 0 {
            NEG
        } else {
            ZER
        };
        return if s & m != 0 { Fm::And(vec![]) } else { Fm::Or(vec![]) };
    }
    let neg = v.c < 0;
    let mm = if neg { (m & ZER) | ((m & NEG) << 2) | ((m & POS) >> 2) } else { m };
    // one polynomial with the same sign
    let mut p = Poly::constant(Integer::from(1));
    for &(q, x) in &v.f {
        let k = if x % 2 != 0 {
            1
        } else if x > 0 {
            2
        } else {
            0
        };
        p = p.mul(&e.polys[q as usize].pow(k));
    }
    let (k, p) = p.primitive();
    debug_assert!(k > 0);
    if p.as_const().is_some() {
        return if mm & POS != 0 { Fm::And(vec![]) } else { Fm::Or(vec![]) };
    }
    let i = e.intern(p);
    Fm::Atom(i, mm)
}

/// A fresh variable within relative distance u of the exact value.
pub fn perturb(v: &Val, u: Rational, w: Option<Rational>, name: &str) -> Val {
    let e = eng();
    let id = e.new_var(name, None, true);
    let r = e.var_val(id);
    let one = Rational::from(1);
    let hi = val_const(Rational::from(&one + &u));
    let lo = val_const(Rational::from(&one - &u));
    let vh = e.mul(v, &hi);
    let vl = e.mul(v, &lo);
    let nvh = e.neg(&vh);
    let nvl = e.neg(&vl);
    let dh = e.add(&r, &nvh);
    let dl = e.add(&r, &nvl);
    let c = Fm::Or(vec![
        Fm::And(vec![fm_sign(v, POS | ZER), fm_sign(&dh, NEG | ZER), fm_sign(&dl, POS | ZER)]),
        Fm::And(vec![fm_sign(v, NEG), fm_sign(&dh, POS | ZER), fm_sign(&dl, NEG | ZER)]),
    ]);
    e.wit[id as usize] = w;
    e.add_constraint(c);
    r
}


/// Result of a floating point operation whose exact value is v: the nearest double,
/// so within u/(1+u) of it and the same for every operation with that exact value.
fn rounded(v: Val) -> F {
    if v.f.is_empty() {
        // constant: round as the hardware would in Relative mode
        let d = v.c.to_f64();
        if eng().rounding == Rounding::Relative {
            return F::C(nearest(&v.c).to_f64());
        }
        if rat_eq(&v.c, d) {
            return F::C(d);
        }
        return F::S(eng().push_val(v));
    }
    if eng().rounding == Rounding::Real {
        return mk(v);
    }
    // multiplication by a power of two of a plain variable is exact
    if v.f.len() == 1 && v.f[0].1 == 1 && is_pow2(&v.c) && eng().polys[v.f[0].0 as usize].t.len() == 1 && is_float_var(v.f[0].0) {
        return mk(v);
    }
    if let Some(r) = eng().fl_of.get(&v) {
        return mk(r.clone());
    }
    let nv = eng().neg(&v);
    if let Some(r) = eng().fl_of.get(&nv).cloned() {
        let r = eng().neg(&r);
        return mk(r);
    }
    let w = eng().eval_val(&v).map(|x| nearest(&x));
    let u = Rational::from((Integer::from(1), (Integer::from(1) << 53) + 1));
    let r = perturb(&v, u, w, "fl");
    eng().fl_of.insert(v, r.clone());
    mk(r)
}

/// x + y is the last step of the error-free sum of two doubles: its exact value.
fn two_sum_error(x: &Val, y: &Val) -> Option<Val> {
    let e = eng();
    let get = |v: &Val| e.sum_of.get(v).cloned();
    for (x, y) in [(x, y), (y, x)] {
        // x = a - (s - bb), y = b - bb, bb = s - a, s = a + b
        if let (Some((a, nx1)), Some((b, nbb))) = (get(x), get(y)) {
            let x1 = e.neg(&nx1);
            let bb = e.neg(&nbb);
            let na = e.neg(&a);
            if let (Some((s, nbb2)), Some((s2, na2))) = (get(&x1), get(&bb)) {
                if nbb2 == nbb && s2 == s && na2 == na && (get(&s) == Some((a.clone(), b.clone())) || get(&s) == Some((b.clone(), a.clone()))) {
                    let t = e.add(&a, &b);
                    let ns = e.neg(&s);
                    return Some(e.add(&t, &ns));
                }
            }
        }
    }
    None
}

/// Distance from v to the neighbouring double of larger (or smaller) magnitude.
pub fn ulp(v: &Val, larger: bool) -> Val {
    let e = eng();
    if let Some(g) = e.ulp_of.get(&(v.clone(), larger)) {
        return g.clone();
    }
    let id = e.new_var("ulp", None, true);
    let g = e.var_val(id);
    let u = |k: i32| Rational::from((Integer::from(k), Integer::from(1) << 53));
    let mut alt = vec![];
    for (m, s) in [(POS | ZER, 1), (NEG, -1)] {
        let lo = e.mul(v, &val_const(u(s)));
        let hi = e.mul(v, &val_const(u(2 * s)));
        let (nl, nh) = (e.neg(&lo), e.neg(&hi));
        let (dl, dh) = (e.add(&g, &nl), e.add(&g, &nh));
        alt.push(Fm::And(vec![fm_sign(v, m), fm_sign(&dl, POS | ZER), fm_sign(&dh, NEG | ZER)]));
    }
    let c = Fm::Or(alt);
    e.wit[id as usize] = e.eval_val(v).map(|q| {
        let d = q.to_f64().abs();
        if d == 0.0 {
            return Rational::new();
        }
        rat(d) - rat(next(d, if larger { 1 } else { -1 }))
    });
    if let Some(w) = e.wit[id as usize].take() {
        e.wit[id as usize] = Some(w.abs());
    }
    if !e.wit_ok(&c) {
        e.wit[id as usize] = None;
    }
    e.add_constraint(c);
    e.ulp_of.insert((v.clone(), larger), g.clone());
    g
}

/// v truncated to a double: of smaller or equal magnitude, by less than the gap to the next one.
pub fn truncated(v: &Val) -> Val {
    let e = eng();
    if let Some(r) = e.tr_of.get(v) {
        return r.clone();
    }
    let w = e.eval_val(v).map(|x| rat(x.to_f64()));
    let id = e.new_var("tof64", w, true);
    let r = e.var_val(id);
    let g = ulp(&r, true);
    let (nv, ng) = (e.neg(v), e.neg(&g));
    let d = e.add(&r, &nv);
    let dp = e.add(&d, &g);
    let dm = e.add(&d, &ng);
    e.add_constraint(Fm::Or(vec![
        Fm::And(vec![fm_sign(v, POS), fm_sign(&r, POS), fm_sign(&d, NEG | ZER), fm_sign(&dp, POS)]),
        Fm::And(vec![fm_sign(v, NEG), fm_sign(&r, NEG), fm_sign(&d, POS | ZER), fm_sign(&dm, NEG)]),
        Fm::And(vec![fm_sign(v, ZER), fm_sign(&r, ZER)]),
    ]));
    e.tr_of.insert(v.clone(), r.clone());
    r
}

fn nearest(x: &Rational) -> Rational {
    // round to nearest double, as rug's to_f64 truncates
    let d = x.to_f64();
    let c = [d, next(d, 1), next(d, -1)];
    c.iter()
        .filter(|y| y.is_finite())
        .map(|y| rat(*y))
        .min_by(|a, b| {
            let da = Rational::from(a - x).abs();
            let db = Rational::from(b - x).abs();
            da.cmp(&db)
        })
        .unwrap()
}

fn next(d: f64, k: i64) -> f64 {
    if d == 0.0 {
        return d;
    }
    f64::from_bits((d.to_bits() as i64 + k) as u64)
}

fn is_float_var(p: u32) -> bool {
    let e = eng();
    let m = &e.polys[p as usize].t[0];
    m.0.len() == 1 && m.0[0].1 == 1
}

fn is_pow2(c: &Rational) -> bool {
    let n = c.numer().clone().abs();
    let d = c.denom();
    n.is_power_of_two() && d.is_power_of_two()
}

fn rat_eq(c: &Rational, d: f64) -> bool {
    d.is_finite() && rat(d) == *c
}

pub fn abs_val(v: &Val) -> Val {
    let e = eng();
    let mut r = val_const(v.c.clone().abs());
    for &(p, x) in &v.f.clone() {
        let m = e.mask[p as usize];
        let base = e.polys[p as usize].clone();
        let mut f = Factors::new();
        if x % 2 == 0 || m & NEG == 0 {
            f.push((p, x));
            r = e.mul(&r, &Val { c: Rational::from(1), f });
        } else if m & POS == 0 {
            f.push((p, x));
            r = e.mul(&r, &Val { c: Rational::from(-1), f });
        } else {
            let id = match e.abs_var.get(&p) {
                Some(&i) => i,
                None => {
                    let w = e.eval_poly(p).map(|q| q.abs());
                    let i = e.new_var(&format!("abs{}", p), w, true);
                    let a = e.intern(Poly::var(i));
                    e.abs_var.insert(p, i);
                    e.abs_of.insert(a, (p, i));
                    e.mask[a as usize] = if m & ZER == 0 { POS } else { ZER | POS };
                    let one = Integer::from(1);
                    let mone = Integer::from(-1);
                    let (kd, d) = base.lin(&one, &Poly::var(i), &mone).primitive(); // base - a
                    let (_ks, s) = base.lin(&one, &Poly::var(i), &one).primitive(); // base + a
                    let _ = kd;
                    let di = e.intern(d);
                    let si = e.intern(s);
                    let def = Fm::Or(vec![
                        Fm::And(vec![Fm::Atom(p, POS | ZER), Fm::Atom(di, ZER)]),
                        Fm::And(vec![Fm::Atom(p, NEG), Fm::Atom(si, ZER)]),
                    ]);
                    if e.univariate(p) {
                        e.pending.insert(i, (p, def));
                    } else {
                        e.add_constraint(def);
                    }
                    i
                }
            };
            let a = e.intern(Poly::var(id));
            f.push((a, x));
            r = e.mul(&r, &Val { c: Rational::from(1), f });
        }
    }
    r
}

/// Largest integer not above v, decided by case splitting.
pub fn floor_val(v: &Val) -> Integer {
    let mut n = 0;
    loop {
        let e = eng();
        let w = match e.eval_val(v) {
            Some(w) => w,
            None => {
                // ask the solver for some value
                let z = e.possible_value(v);
                match z {
                    Some(w) => w,
                    None => e.fail("cannot choose an integer part"),
                }
            }
        };
        let k = Integer::from(w.floor_ref());
        let lo = val_const(Rational::from(-&k));
        let k1 = Integer::from(&k + 1u32);
        let hi = val_const(-Rational::from(&k1));
        let a = e.add(v, &lo);
        let b = e.add(v, &hi);
        if e.ask(&a, POS | ZER) && e.ask(&b, NEG) {
            return k;
        }
        n += 1;
        if n > 64 {
            sh().pinned.fetch_add(1, SeqCst);
            e.leave();
        }
    }
}

impl Eng {
    pub fn possible_value(&mut self, v: &Val) -> Option<Rational> {
        let f = fm_sign(v, ANY);
        if let Sat::Sat(m) = self.solve(&f) {
            self.apply(m);
        }
        self.eval_val(v)
    }
    pub fn apply(&mut self, m: Vec<(u16, Option<Rational>)>) {
        self.apply_model_pub(m)
    }
}

pub enum K {
    Fin(Val),
    Non(f64),
}

impl F {
    pub const INFINITY: F = F::C(f64::INFINITY);
    pub const NEG_INFINITY: F = F::C(f64::NEG_INFINITY);
    pub const NAN: F = F::C(f64::NAN);
    pub const MAX: F = F::C(f64::MAX);
    pub const MIN: F = F::C(f64::MIN);
    pub const EPSILON: F = F::C(f64::EPSILON);
    pub const MIN_POSITIVE: F = F::C(f64::MIN_POSITIVE);
    pub const DIGITS: u32 = f64::DIGITS;
    pub const MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS;

    pub fn k(self) -> K {
        match self {
            F::C(x) if x.is_finite() => K::Fin(val_const(rat(x))),
            F::C(x) => K::Non(x),
            F::S(i) => K::Fin(eng().vals[i as usize].clone()),
        }
    }
    pub fn val(self) -> Val {
        match self.k() {
            K::Fin(v) => v,
            K::Non(_) => val_const(Rational::from(1)),
        }
    }
    fn is_sym(self) -> bool {
        matches!(self, F::S(_))
    }
    fn ask(self, s: u8) -> bool {
        let v = self.val();
        eng().ask(&v, s)
    }
    /// Representative double used only for operations with non-finite constants.
    fn sign_f64(self) -> f64 {
        match self {
            F::C(x) => x,
            F::S(_) => {
                if self.ask(POS) {
                    1.0
                } else if self.ask(ZER) {
                    0.0
                } else {
                    -1.0
                }
            }
        }
    }
    fn cmp_sym(self, o: F) -> Option<Ordering> {
        match (self, o) {
            (F::C(a), F::C(b)) => return a.partial_cmp(&b),
            _ => {}
        }
        match (self.k(), o.k()) {
            (K::Non(a), K::Fin(_)) => a.partial_cmp(&0.0),
            (K::Fin(_), K::Non(b)) => 0.0f64.partial_cmp(&b),
            (K::Non(a), K::Non(b)) => a.partial_cmp(&b),
            (K::Fin(a), K::Fin(b)) => {
                let e = eng();
                let nb = e.neg(&b);
                let d = e.add(&a, &nb);
                if e.ask(&d, NEG) {
                    Some(Ordering::Less)
                } else if e.ask(&d, ZER) {
                    Some(Ordering::Equal)
                } else {
                    Some(Ordering::Greater)
                }
            }
        }
    }
    fn rel(self, o: F, s: u8) -> bool {
        match (self, o) {
            (F::C(a), F::C(b)) => {
                return match a.partial_cmp(&b) {
                    Some(Ordering::Less) => s & NEG != 0,
                    Some(Ordering::Equal) => s & ZER != 0,
                    Some(Ordering::Greater) => s & POS != 0,
                    None => false,
                }
            }
            _ => {}
        }
        match (self.k(), o.k()) {
            (K::Fin(a), K::Fin(b)) => {
                let e = eng();
                let nb = e.neg(&b);
                let d = e.add(&a, &nb);
                e.ask(&d, s)
            }
            (K::Non(a), _) => match a.partial_cmp(&0.0) {
                Some(Ordering::Less) => s & NEG != 0,
                Some(Ordering::Greater) => s & POS != 0,
                _ => false,
            },
            (_, K::Non(b)) => match 0.0f64.partial_cmp(&b) {
                Some(Ordering::Less) => s & NEG != 0,
                Some(Ordering::Greater) => s & POS != 0,
                _ => false,
            },
        }
    }
    pub fn abs(self) -> F {
        match self {
            F::C(x) => F::C(x.abs()),
            F::S(_) => {
                let v = self.val();
                mk(abs_val(&v))
            }
        }
    }
    pub fn sqrt(self) -> F {
        match self {
            F::C(x) => F::C(x.sqrt()),
            F::S(_) => {
                if self.ask(NEG) {
                    return F::NAN;
                }
                if self.ask(ZER) {
                    return F::C(0.0);
                }
                let v = self.val();
                let e = eng();
                let w = e.eval_val(&v).and_then(|q| {
                    let (n, d) = (q.numer().clone(), q.denom().clone());
                    if n.is_perfect_square() && d.is_perfect_square() {
                        Some(Rational::from((n.sqrt(), d.sqrt())))
                    } else {
                        None
                    }
                });
                let id = e.new_var("sqrt", w, true);
                let s = e.var_val(id);
                e.assume_nofork(&s, POS);
                let s2 = e.mul(&s, &s);
                let nv = e.neg(&v);
                let d = e.add(&s2, &nv);
                let f = fm_sign(&d, ZER);
                e.add_constraint(f);
                mk(s)
            }
        }
    }
    pub fn min(self, o: F) -> F {
        if let F::C(x) = self {
            if x.is_nan() {
                return o;
            }
        }
        if let F::C(x) = o {
            if x.is_nan() {
                return self;
            }
        }
        if let (F::C(a), F::C(b)) = (self, o) {
            return F::C(a.min(b));
        }
        if self.rel(o, NEG | ZER) {
            self
        } else {
            o
        }
    }
    pub fn max(self, o: F) -> F {
        if let F::C(x) = self {
            if x.is_nan() {
                return o;
            }
        }
        if let F::C(x) = o {
            if x.is_nan() {
                return self;
            }
        }
        if let (F::C(a), F::C(b)) = (self, o) {
            return F::C(a.max(b));
        }
        if self.rel(o, POS | ZER) {
            self
        } else {
            o
        }
    }
    pub fn clamp(self, a: F, b: F) -> F {
        if self < a {
            a
        } else if self > b {
            b
        } else {
            self
        }
    }
    pub fn floor(self) -> F {
        match self {
            F::C(x) => F::C(x.floor()),
            F::S(_) => {
                let v = self.val();
                mk(val_const(Rational::from(floor_val(&v))))
            }
        }
    }
    pub fn ceil(self) -> F {
        -((-self).floor())
    }
    pub fn round(self) -> F {
        match self {
            F::C(x) => F::C(x.round()),
            F::S(_) => {
                if self.ask(NEG) {
                    -((-self) + F::C(0.5)).floor()
                } else {
                    (self + F::C(0.5)).floor()
                }
            }
        }
    }
    pub fn trunc(self) -> F {
        match self {
            F::C(x) => F::C(x.trunc()),
            F::S(_) => {
                if self.ask(NEG) {
                    -((-self).floor())
                } else {
                    self.floor()
                }
            }
        }
    }
    pub fn fract(self) -> F {
        self - self.trunc()
    }
    pub fn signum(self) -> F {
        match self {
            F::C(x) => F::C(x.signum()),
            F::S(_) => {
                if self.ask(NEG) {
                    F::C(-1.0)
                } else {
                    F::C(1.0)
                }
            }
        }
    }
    pub fn copysign(self, s: F) -> F {
        if s.is_sign_negative() {
            -self.abs()
        } else {
            self.abs()
        }
    }
    pub fn is_nan(self) -> bool {
        matches!(self, F::C(x) if x.is_nan())
    }
    pub fn is_finite(self) -> bool {
        match self {
            F::C(x) => x.is_finite(),
            _ => true,
        }
    }
    pub fn is_infinite(self) -> bool {
        matches!(self, F::C(x) if x.is_infinite())
    }
    pub fn is_normal(self) -> bool {
        match self {
            F::C(x) => x.is_normal(),
            _ => !self.ask(ZER),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        match self {
            F::C(x) => x.is_sign_positive(),
            _ => self.ask(POS | ZER),
        }
    }
    pub fn is_sign_negative(self) -> bool {
        match self {
            F::C(x) => x.is_sign_negative(),
            _ => self.ask(NEG),
        }
    }
    pub fn mul_add(self, a: F, b: F) -> F {
        if let (F::C(x), F::C(y), F::C(z)) = (self, a, b) {
            return F::C(x.mul_add(y, z));
        }
        match (self.k(), a.k(), b.k()) {
            (K::Fin(x), K::Fin(y), K::Fin(z)) => {
                let e = eng();
                let p = e.mul(&x, &y);
                let s = e.add(&p, &z);
                // error of a rounded product: exact
                let nz = e.neg(&z);
                let np = e.neg(&p);
                if e.fl_of.get(&p) == Some(&nz) || e.fl_of.get(&np) == Some(&z) {
                    return mk(s);
                }
                rounded(s)
            }
            _ => self * a + b,
        }
    }
    pub fn powi(self, n: i32) -> F {
        if let F::C(x) = self {
            return F::C(x.powi(n));
        }
        let mut r = F::C(1.0);
        for _ in 0..n.abs() {
            r = r * self;
        }
        if n < 0 {
            F::C(1.0) / r
        } else {
            r
        }
    }
    pub fn recip(self) -> F {
        F::C(1.0) / self
    }
    pub fn hypot(self, o: F) -> F {
        (self * self + o * o).sqrt()
    }
    pub fn to_bits(self) -> Bits {
        Bits { base: self, delta: 0 }
    }
    pub fn from_bits<B: Into<Bits>>(b: B) -> F {
        let b: Bits = b.into();
        if b.delta == 0 {
            return b.base;
        }
        match b.base {
            F::C(x) => F::C(f64::from_bits((x.to_bits() as i64).wrapping_add(b.delta) as u64)),
            F::S(_) => {
                // neighbouring double: magnitude changes by delta units in the last place
                let v = b.base.val();
                let e = eng();
                if e.rounding == Rounding::Real || b.delta.abs() != 1 {
                    let one = Rational::from(1);
                    let u = Rational::from((Integer::from(b.delta), Integer::from(1) << 52));
                    let m = val_const(one + u);
                    let r = e.mul(&v, &m);
                    mk(r)
                } else {
                    let g = ulp(&v, b.delta > 0);
                    let e = eng();
                    // magnitude grows with the bits
                    let up = (b.delta > 0) == e.ask(&v, POS | ZER);
                    let g = if up { g } else { e.neg(&g) };
                    let r = e.add(&v, &g);
                    mk(r)
                }
            }
        }
    }
    pub fn total_cmp(&self, o: &F) -> Ordering {
        match (*self, *o) {
            (F::C(a), F::C(b)) => a.total_cmp(&b),
            _ => self.cmp_sym(*o).unwrap_or(Ordering::Equal),
        }
    }
    pub fn div_euclid(self, o: F) -> F {
        (self / o).floor()
    }
    pub fn rem_euclid(self, o: F) -> F {
        self - (self / o).floor() * o
    }
    fn unsupported(self, what: &str, f: fn(f64) -> f64) -> F {
        match self {
            F::C(x) => F::C(f(x)),
            F::S(_) => eng().fail(&format!("unsupported floating operation {} on a symbolic value", what)),
        }
    }
    pub fn exp(self) -> F {
        self.unsupported("exp", f64::exp)
    }
    pub fn ln(self) -> F {
        self.unsupported("ln", f64::ln)
    }
    pub fn log2(self) -> F {
        self.unsupported("log2", f64::log2)
    }
    pub fn log10(self) -> F {
        self.unsupported("log10", f64::log10)
    }
    pub fn sin(self) -> F {
        self.unsupported("sin", f64::sin)
    }
    pub fn cos(self) -> F {
        self.unsupported("cos", f64::cos)
    }
    pub fn tan(self) -> F {
        self.unsupported("tan", f64::tan)
    }
    pub fn asin(self) -> F {
        self.unsupported("asin", f64::asin)
    }
    pub fn acos(self) -> F {
        self.unsupported("acos", f64::acos)
    }
    pub fn atan(self) -> F {
        self.unsupported("atan", f64::atan)
    }
    pub fn cbrt(self) -> F {
        self.unsupported("cbrt", f64::cbrt)
    }
    pub fn to_degrees(self) -> F {
        self * F::C(180.0 / std::f64::consts::PI)
    }
    pub fn to_radians(self) -> F {
        self * F::C(std::f64::consts::PI / 180.0)
    }
    pub fn atan2(self, o: F) -> F {
        match (self, o) {
            (F::C(a), F::C(b)) => F::C(a.atan2(b)),
            _ => eng().fail("unsupported floating operation atan2 on a symbolic value"),
        }
    }
    pub fn powf(self, o: F) -> F {
        match (self, o) {
            (F::C(a), F::C(b)) => F::C(a.powf(b)),
            _ => eng().fail("unsupported floating operation powf on a symbolic value"),
        }
    }
    pub fn next_up(self) -> F {
        match self {
            F::C(x) => F::C(x.next_up()),
            _ => {
                if self.ask(POS) {
                    F::from_bits(self.to_bits() + 1)
                } else if self.ask(ZER) {
                    F::C(f64::from_bits(1))
                } else {
                    F::from_bits(self.to_bits() - 1)
                }
            }
        }
    }
    pub fn next_down(self) -> F {
        -((-self).next_up())
    }
    /// Conversion to f32 and back.
    pub fn to_f32(self) -> F {
        match self {
            F::C(x) => F::C(x as f32 as f64),
            F::S(_) => {
                let v = self.val();
                let w = eng().eval_val(&v).map(|x| rat(x.to_f64() as f32 as f64));
                let u = Rational::from((Integer::from(1), Integer::from(1) << 23));
                mk(perturb(&v, u, w, "f32"))
            }
        }
    }
}

impl Eng {
    /// Constrain the sign of a fresh variable.
    pub fn assume_nofork(&mut self, v: &Val, m: u8) {
        let p = v.f[0].0;
        self.mask[p as usize] &= m;
        self.add_constraint(Fm::Atom(p, m));
    }
}

#[derive(Clone, Copy)]
pub struct Bits {
    pub base: F,
    pub delta: i64,
}
impl From<u64> for Bits {
    fn from(x: u64) -> Bits {
        Bits { base: F::C(f64::from_bits(x)), delta: 0 }
    }
}
impl Bits {
    fn f(self) -> F {
        F::from_bits(self)
    }
    fn raw(self) -> u64 {
        match self.f() {
            F::C(x) => x.to_bits(),
            F::S(_) => eng().fail("bit pattern of a symbolic float used as an integer"),
        }
    }
    pub fn wrapping_add(self, k: u64) -> Bits {
        self + k
    }
    pub fn wrapping_sub(self, k: u64) -> Bits {
        self - k
    }
    pub fn cmp(&self, o: &Bits) -> Ordering {
        self.partial_cmp(o).unwrap()
    }
}
impl Add<u64> for Bits {
    type Output = Bits;
    fn add(self, k: u64) -> Bits {
        Bits { base: self.base, delta: self.delta + k as i64 }
    }
}
impl Sub<u64> for Bits {
    type Output = Bits;
    fn sub(self, k: u64) -> Bits {
        Bits { base: self.base, delta: self.delta - k as i64 }
    }
}
impl AddAssign<u64> for Bits {
    fn add_assign(&mut self, k: u64) {
        *self = *self + k
    }
}
impl SubAssign<u64> for Bits {
    fn sub_assign(&mut self, k: u64) {
        *self = *self - k
    }
}
impl BitXor<u64> for Bits {
    type Output = u64;
    fn bitxor(self, k: u64) -> u64 {
        self.raw() ^ k
    }
}
impl BitAnd<u64> for Bits {
    type Output = u64;
    fn bitand(self, k: u64) -> u64 {
        self.raw() & k
    }
}
impl Shr<u32> for Bits {
    type Output = u64;
    fn shr(self, k: u32) -> u64 {
        if k == 63 {
            return self.f().is_sign_negative() as u64;
        }
        self.raw() >> k
    }
}
impl PartialEq for Bits {
    fn eq(&self, o: &Bits) -> bool {
        match (self.f(), o.f()) {
            (F::C(a), F::C(b)) => a.to_bits() == b.to_bits(),
            (a, b) => a == b,
        }
    }
}
impl Eq for Bits {}
impl PartialOrd for Bits {
    fn partial_cmp(&self, o: &Bits) -> Option<Ordering> {
        match (self.f(), o.f()) {
            (F::C(a), F::C(b)) => Some(a.to_bits().cmp(&b.to_bits())),
            _ => eng().fail("bit patterns of symbolic floats compared"),
        }
    }
}
impl std::hash::Hash for Bits {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        // equal values must collide; distinct ones may
        h.write_u8(0)
    }
}

fn fadd(a: F, b: F) -> F {
    match (a, b) {
        (F::C(x), F::C(y)) => F::C(x + y),
        _ => match (a.k(), b.k()) {
            (K::Fin(x), K::Fin(y)) => {
                if x.c == 0 {
                    return b;
                }
                if y.c == 0 {
                    return a;
                }
                let e = eng();
                let s = e.add(&x, &y);
                if e.rounding == Rounding::Relative {
                    if let Some(v) = two_sum_error(&x, &y) {
                        return mk(v);
                    }
                    let r = rounded(s);
                    eng().sum_of.insert(r.val(), (x, y));
                    return r;
                }
                rounded(s)
            }
            (K::Non(x), K::Non(y)) => F::C(x + y),
            (K::Non(x), _) => F::C(x),
            (_, K::Non(y)) => F::C(y),
        },
    }
}
fn fmul(a: F, b: F) -> F {
    match (a, b) {
        (F::C(x), F::C(y)) => F::C(x * y),
        _ => match (a.k(), b.k()) {
            (K::Fin(x), K::Fin(y)) => {
                if x.c == 0 || y.c == 0 {
                    return F::C(0.0);
                }
                if x.f.is_empty() && x.c == 1 {
                    return b;
                }
                if y.f.is_empty() && y.c == 1 {
                    return a;
                }
                let e = eng();
                let s = e.mul(&x, &y);
                rounded(s)
            }
            _ => F::C(a.sign_f64() * b.sign_f64()),
        },
    }
}
fn fdiv(a: F, b: F) -> F {
    match (a, b) {
        (F::C(x), F::C(y)) => F::C(x / y),
        _ => {
            if b.is_sym() && b.ask(ZER) {
                return F::C(a.sign_f64() / 0.0);
            }
            match (a.k(), b.k()) {
                (K::Fin(x), K::Fin(y)) => {
                    if y.c == 0 {
                        return F::C(a.sign_f64() / b.sign_f64());
                    }
                    if x.c == 0 {
                        return F::C(0.0);
                    }
                    if y.f.is_empty() && y.c == 1 {
                        return a;
                    }
                    let e = eng();
                    let i = e.inv(&y);
                    let s = e.mul(&x, &i);
                    rounded(s)
                }
                (K::Fin(_), K::Non(y)) => F::C(0.0 / y),
                (K::Non(x), _) => F::C(x / b.sign_f64()),
            }
        }
    }
}
fn frem(a: F, b: F) -> F {
    match (a, b) {
        (F::C(x), F::C(y)) => F::C(x % y),
        _ => a - (a / b).trunc() * b,
    }
}
fn fsub(a: F, b: F) -> F {
    match (a, b) {
        (F::C(x), F::C(y)) => F::C(x - y),
        _ => fadd(a, -b),
    }
}

macro_rules! ops {
    ($tr:ident $m:ident $f:ident $tra:ident $ma:ident) => {
        impl $tr<F> for F {
            type Output = F;
            #[inline]
            fn $m(self, o: F) -> F {
                $f(self, o)
            }
        }
        impl<'a> $tr<&'a F> for F {
            type Output = F;
            fn $m(self, o: &'a F) -> F {
                $f(self, *o)
            }
        }
        impl<'a> $tr<F> for &'a F {
            type Output = F;
            fn $m(self, o: F) -> F {
                $f(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b F> for &'a F {
            type Output = F;
            fn $m(self, o: &'b F) -> F {
                $f(*self, *o)
            }
        }
        impl $tra<F> for F {
            fn $ma(&mut self, o: F) {
                *self = $f(*self, o)
            }
        }
        impl<'a> $tra<&'a F> for F {
            fn $ma(&mut self, o: &'a F) {
                *self = $f(*self, *o)
            }
        }
    };
}
ops!(Add add fadd AddAssign add_assign);
ops!(Sub sub fsub SubAssign sub_assign);
ops!(Mul mul fmul MulAssign mul_assign);
ops!(Div div fdiv DivAssign div_assign);
ops!(Rem rem frem RemAssign rem_assign);

impl Neg for F {
    type Output = F;
    fn neg(self) -> F {
        match self {
            F::C(x) => F::C(-x),
            F::S(_) => {
                let v = self.val();
                let n = eng().neg(&v);
                mk(n)
            }
        }
    }
}
impl<'a> Neg for &'a F {
    type Output = F;
    fn neg(self) -> F {
        -*self
    }
}
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.rel(*o, ZER)
    }
    fn ne(&self, o: &F) -> bool {
        !self.rel(*o, ZER)
    }
}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &F) -> Option<Ordering> {
        self.cmp_sym(*o)
    }
    fn lt(&self, o: &F) -> bool {
        self.rel(*o, NEG)
    }
    fn le(&self, o: &F) -> bool {
        self.rel(*o, NEG | ZER)
    }
    fn gt(&self, o: &F) -> bool {
        self.rel(*o, POS)
    }
    fn ge(&self, o: &F) -> bool {
        self.rel(*o, POS | ZER)
    }
}
impl Default for F {
    fn default() -> F {
        F::C(0.0)
    }
}
impl std::iter::Sum for F {
    fn sum<I: Iterator<Item = F>>(it: I) -> F {
        it.fold(F::C(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a F> for F {
    fn sum<I: Iterator<Item = &'a F>>(it: I) -> F {
        it.fold(F::C(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for F {
    fn product<I: Iterator<Item = F>>(it: I) -> F {
        it.fold(F::C(1.0), |a, b| a * b)
    }
}
macro_rules! fromint {
    ($($t:ty)*) => {$(
        impl From<$t> for F { fn from(x: $t) -> F { F::C(x as f64) } }
    )*};
}
fromint!(i8 i16 i32 u8 u16 u32 f32 f64);

fn fmt_sym(i: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if let Some(p) = f.precision() {
        let v = eng().vals[i as usize].clone();
        // decimal rounding to p places: a fresh value at most half a unit away
        let e = eng();
        let half = Rational::from((Integer::from(1), Integer::from(2) * Integer::from(10).pow_u(p as u32)));
        let id = e.new_var("dec", None, true);
        let r = e.var_val(id);
        let nv = e.neg(&v);
        let d = e.add(&r, &nv);
        let d1 = e.add(&d, &val_const(half.clone()));
        let d2 = e.add(&d, &val_const(-half));
        let c = Fm::And(vec![fm_sign(&d1, POS | ZER), fm_sign(&d2, NEG | ZER)]);
        if let Some(q) = e.eval_val(&v) {
            let s = Integer::from(10).pow_u(p as u32);
            let k = Integer::from((q * Rational::from(&s) + Rational::from((1, 2))).floor_ref());
            e.wit[id as usize] = Some(Rational::from((k, s)));
        }
        e.add_constraint(c);
        let j = match mk(r) {
            F::S(j) => j,
            _ => i,
        };
        return write!(f, "sym{}", j);
    }
    write!(f, "sym{}", i)
}
trait PowU {
    fn pow_u(self, p: u32) -> Integer;
}
impl PowU for Integer {
    fn pow_u(self, p: u32) -> Integer {
        use rug::ops::Pow;
        self.pow(p)
    }
}
impl fmt::Display for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            F::C(x) => fmt::Display::fmt(x, f),
            F::S(i) => fmt_sym(*i, f),
        }
    }
}
impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            F::C(x) => fmt::Debug::fmt(x, f),
            F::S(i) => fmt_sym(*i, f),
        }
    }
}
impl fmt::LowerExp for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            F::C(x) => fmt::LowerExp::fmt(x, f),
            F::S(i) => fmt_sym(*i, f),
        }
    }
}
impl std::str::FromStr for F {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<F, Self::Err> {
        if let Some(i) = s.strip_prefix("sym").and_then(|x| x.parse::<u32>().ok()) {
            return Ok(F::S(i));
        }
        s.parse::<f64>().map(F::C)
    }
}

// ---------- casts ----------
pub trait ToF {
    fn to_f(self) -> F;
}
impl ToF for F {
    fn to_f(self) -> F {
        self
    }
}
macro_rules! tof {
    ($($t:ty)*) => {$( impl ToF for $t { fn to_f(self) -> F { F::C(self as f64) } } )*};
}
tof!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);
pub fn to_f<T: ToF>(x: T) -> F {
    x.to_f()
}
pub fn to_f32<T: ToF>(x: T) -> F {
    x.to_f().to_f32()
}
pub trait CastTo<U> {
    fn cast_to(self) -> U;
}
pub fn cast<U, T: CastTo<U>>(x: T) -> U {
    x.cast_to()
}
macro_rules! castint {
    ($($t:ty)*) => {$(
        castint!(@ $t; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
        impl CastTo<$t> for bool { #[inline] fn cast_to(self) -> $t { self as $t } }
        impl CastTo<$t> for char { #[inline] fn cast_to(self) -> $t { self as u32 as $t } }
        impl CastTo<$t> for F {
            fn cast_to(self) -> $t {
                match self.trunc() {
                    F::C(x) => x as $t,
                    F::S(i) => {
                        let v = eng().vals[i as usize].clone();
                        let k = floor_val(&v);
                        if let Some(x) = k.to_i128() { x as $t } else { eng().fail("huge integer cast") }
                    }
                }
            }
        }
        impl CastTo<$t> for Bits { fn cast_to(self) -> $t { self.raw() as $t } }
    )*};
    (@ $t:ty; $($u:ty)*) => {$( impl CastTo<$t> for $u { #[inline] fn cast_to(self) -> $t { self as $t } } )*};
}
castint!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
