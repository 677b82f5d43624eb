//! Symbolic replacement for the parts of `rug` that cgar uses.
use crate::engine::*;
use crate::f::*;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

type RR = ::rug::Rational;
type RI = ::rug::Integer;

macro_rules! number {
    ($N:ident) => {
        #[derive(Clone)]
        pub enum $N {
            C(RR),
            S(u32),
        }
        impl $N {
            pub fn val(&self) -> Val {
                match self {
                    $N::C(c) => val_const(c.clone()),
                    $N::S(i) => eng().vals[*i as usize].clone(),
                }
            }
            pub fn of(v: Val) -> $N {
                if v.f.is_empty() {
                    $N::C(v.c)
                } else {
                    $N::S(eng().push_val(v))
                }
            }
            pub fn new() -> $N {
                $N::C(RR::new())
            }
            pub fn ask(&self, s: u8) -> bool {
                match self {
                    $N::C(c) => {
                        let m = match c.cmp0() {
                            Ordering::Less => NEG,
                            Ordering::Equal => ZER,
                            Ordering::Greater => POS,
                        };
                        m & s != 0
                    }
                    $N::S(_) => {
                        let v = self.val();
                        eng().ask(&v, s)
                    }
                }
            }
            pub fn diff(&self, o: &$N) -> $N {
                self.clone() - o
            }
            pub fn is_zero(&self) -> bool {
                self.ask(ZER)
            }
            pub fn is_positive(&self) -> bool {
                self.ask(POS)
            }
            pub fn is_negative(&self) -> bool {
                self.ask(NEG)
            }
            pub fn cmp0(&self) -> Ordering {
                if self.ask(NEG) {
                    Ordering::Less
                } else if self.ask(ZER) {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            }
            pub fn abs(self) -> $N {
                match &self {
                    $N::C(c) => $N::C(c.clone().abs()),
                    $N::S(_) => $N::of(abs_val(&self.val())),
                }
            }
            pub fn abs_ref(&self) -> $N {
                self.clone().abs()
            }
            pub fn abs_mut(&mut self) {
                *self = self.clone().abs()
            }
            pub fn signum(self) -> $N {
                match self.cmp0() {
                    Ordering::Less => $N::C(RR::from(-1)),
                    Ordering::Equal => $N::C(RR::new()),
                    Ordering::Greater => $N::C(RR::from(1)),
                }
            }
            pub fn square(self) -> $N {
                let s = self.clone();
                s * &self
            }
            pub fn to_f64(&self) -> F {
                match self {
                    $N::C(c) => F::C(c.to_f64()),
                    $N::S(i) => {
                        if eng().rounding == Rounding::Real {
                            F::S(*i)
                        } else {
                            let v = self.val();
                            mk(truncated(&v))
                        }
                    }
                }
            }
            pub fn to_f32(&self) -> F {
                self.to_f64().to_f32()
            }
            pub fn cmp(&self, o: &$N) -> Ordering {
                self.diff(o).cmp0()
            }
            pub fn max(self, o: $N) -> $N {
                if self > o {
                    self
                } else {
                    o
                }
            }
            pub fn min(self, o: $N) -> $N {
                if self < o {
                    self
                } else {
                    o
                }
            }
        }
        impl Default for $N {
            fn default() -> $N {
                $N::new()
            }
        }
        impl PartialEq for $N {
            fn eq(&self, o: &$N) -> bool {
                match (self, o) {
                    ($N::C(a), $N::C(b)) => a == b,
                    _ => self.diff(o).ask(ZER),
                }
            }
        }
        impl Eq for $N {}
        impl PartialOrd for $N {
            fn partial_cmp(&self, o: &$N) -> Option<Ordering> {
                Some(self.diff(o).cmp0())
            }
            fn lt(&self, o: &$N) -> bool {
                self.diff(o).ask(NEG)
            }
            fn le(&self, o: &$N) -> bool {
                self.diff(o).ask(NEG | ZER)
            }
            fn gt(&self, o: &$N) -> bool {
                self.diff(o).ask(POS)
            }
            fn ge(&self, o: &$N) -> bool {
                self.diff(o).ask(POS | ZER)
            }
        }
        impl Ord for $N {
            fn cmp(&self, o: &$N) -> Ordering {
                self.diff(o).cmp0()
            }
        }
        impl PartialEq<i32> for $N {
            fn eq(&self, o: &i32) -> bool {
                *self == $N::C(RR::from(*o))
            }
        }
        impl PartialOrd<i32> for $N {
            fn partial_cmp(&self, o: &i32) -> Option<Ordering> {
                self.partial_cmp(&$N::C(RR::from(*o)))
            }
        }
        impl std::hash::Hash for $N {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                h.write_u8(0)
            }
        }
        impl Neg for $N {
            type Output = $N;
            fn neg(self) -> $N {
                match self {
                    $N::C(c) => $N::C(-c),
                    $N::S(_) => {
                        let v = self.val();
                        let n = eng().neg(&v);
                        $N::of(n)
                    }
                }
            }
        }
        impl<'a> Neg for &'a $N {
            type Output = $N;
            fn neg(self) -> $N {
                -self.clone()
            }
        }
        impl fmt::Debug for $N {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    $N::C(c) => fmt::Debug::fmt(c, f),
                    $N::S(i) => write!(f, "sym{}", i),
                }
            }
        }
        impl fmt::Display for $N {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    $N::C(c) => fmt::Display::fmt(c, f),
                    $N::S(i) => write!(f, "sym{}", i),
                }
            }
        }
        number!(@op $N Add add AddAssign add_assign |a: &Val, b: &Val| eng().add(a, b), |a: &RR, b: &RR| RR::from(a + b));
        number!(@op $N Sub sub SubAssign sub_assign |a: &Val, b: &Val| { let e = eng(); let n = e.neg(b); e.add(a, &n) }, |a: &RR, b: &RR| RR::from(a - b));
        number!(@op $N Mul mul MulAssign mul_assign |a: &Val, b: &Val| eng().mul(a, b), |a: &RR, b: &RR| RR::from(a * b));
        number!(@from $N i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    };
    (@op $N:ident $tr:ident $m:ident $tra:ident $ma:ident $fv:expr, $fc:expr) => {
        impl<'a, 'b> $tr<&'b $N> for &'a $N {
            type Output = $N;
            fn $m(self, o: &'b $N) -> $N {
                match (self, o) {
                    ($N::C(a), $N::C(b)) => $N::C($fc(a, b)),
                    _ => {
                        let (a, b) = (self.val(), o.val());
                        $N::of($fv(&a, &b))
                    }
                }
            }
        }
        impl<'b> $tr<&'b $N> for $N {
            type Output = $N;
            fn $m(self, o: &'b $N) -> $N {
                (&self).$m(o)
            }
        }
        impl<'a> $tr<$N> for &'a $N {
            type Output = $N;
            fn $m(self, o: $N) -> $N {
                self.$m(&o)
            }
        }
        impl $tr<$N> for $N {
            type Output = $N;
            fn $m(self, o: $N) -> $N {
                (&self).$m(&o)
            }
        }
        impl $tr<i32> for $N {
            type Output = $N;
            fn $m(self, o: i32) -> $N {
                (&self).$m(&$N::C(RR::from(o)))
            }
        }
        impl $tra<$N> for $N {
            fn $ma(&mut self, o: $N) {
                *self = (&*self).$m(&o)
            }
        }
        impl<'b> $tra<&'b $N> for $N {
            fn $ma(&mut self, o: &'b $N) {
                *self = (&*self).$m(o)
            }
        }
        impl $tra<i32> for $N {
            fn $ma(&mut self, o: i32) {
                *self = (&*self).$m(&$N::C(RR::from(o)))
            }
        }
    };
    (@from $N:ident $($t:ty)*) => {$( impl From<$t> for $N { fn from(x: $t) -> $N { $N::C(RR::from(x)) } } )*};
}

number!(Rational);
number!(Integer);

fn div_val(a: &Val, b: &Val) -> Val {
    let e = eng();
    if e.ask(b, ZER) {
        panic!("division by zero");
    }
    let i = e.inv(b);
    e.mul(a, &i)
}
number!(@op Rational Div div DivAssign div_assign div_val, |a: &RR, b: &RR| { assert!(*b != 0, "division by zero"); RR::from(a / b) });

impl Rational {
    pub fn from_f64(x: F) -> Option<Rational> {
        match x {
            F::C(c) => RR::from_f64(c).map(Rational::C),
            F::S(i) => Some(Rational::S(i)),
        }
    }
    pub fn recip(self) -> Rational {
        Rational::from(1) / &self
    }
    /// The positive denominator of a symbolic fraction: a fresh positive number per value.
    fn den_val(i: u32) -> Val {
        let e = eng();
        let id = match e.memo.get(&(1, i, 0)) {
            Some(&v) => v as u16,
            None => {
                let id = e.new_var("den", Some(RR::from(1)), true);
                let v = e.var_val(id);
                e.assume_nofork(&v, POS);
                e.memo.insert((1, i, 0), id as u32);
                id
            }
        };
        e.var_val(id)
    }
    pub fn denom(&self) -> Integer {
        match self {
            Rational::C(c) => Integer::C(RR::from(c.denom())),
            Rational::S(i) => Integer::of(Rational::den_val(*i)),
        }
    }
    pub fn numer(&self) -> Integer {
        match self {
            Rational::C(c) => Integer::C(RR::from(c.numer())),
            Rational::S(i) => {
                let d = Rational::den_val(*i);
                let w = self.val();
                let r = eng().mul(&w, &d);
                Integer::of(r)
            }
        }
    }
    pub fn is_integer(&self) -> bool {
        match self {
            Rational::C(c) => c.is_integer(),
            Rational::S(_) => eng().fail("is_integer on a symbolic rational"),
        }
    }
    pub fn floor(self) -> Rational {
        match &self {
            Rational::C(c) => Rational::C(c.clone().floor()),
            Rational::S(_) => Rational::C(RR::from(floor_val(&self.val()))),
        }
    }
    pub fn mutate_numer_denom<T>(&mut self, _: T) {
        eng().fail("mutate_numer_denom")
    }
    pub fn real(&self) -> Option<RR> {
        match self {
            Rational::C(c) => Some(c.clone()),
            _ => None,
        }
    }
}
impl Integer {
    pub fn to_digits<T: Default>(&self, _: integer::Order) -> Vec<T> {
        vec![T::default()]
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            Integer::C(c) => c.numer().to_i64(),
            _ => eng().fail("to_i64 on a symbolic integer"),
        }
    }
    pub fn significant_bits(&self) -> u32 {
        match self {
            Integer::C(c) => c.numer().significant_bits(),
            _ => eng().fail("significant_bits on a symbolic integer"),
        }
    }
}
impl From<RI> for Integer {
    fn from(x: RI) -> Integer {
        Integer::C(RR::from(x))
    }
}
impl From<Integer> for Rational {
    fn from(x: Integer) -> Rational {
        match x {
            Integer::C(c) => Rational::C(c),
            Integer::S(i) => Rational::S(i),
        }
    }
}
impl From<&Integer> for Rational {
    fn from(x: &Integer) -> Rational {
        Rational::from(x.clone())
    }
}
impl From<&Rational> for Rational {
    fn from(x: &Rational) -> Rational {
        x.clone()
    }
}
impl From<RR> for Rational {
    fn from(x: RR) -> Rational {
        Rational::C(x)
    }
}
impl From<(Integer, Integer)> for Rational {
    fn from(x: (Integer, Integer)) -> Rational {
        Rational::from(x.0) / Rational::from(x.1)
    }
}
macro_rules! frompair { ($($t:ty)*) => {$( impl From<($t, $t)> for Rational { fn from(x: ($t, $t)) -> Rational { Rational::C(RR::from((x.0, x.1))) } } )*} }
frompair!(i32 i64 u32 u64);
impl From<(i32, u32)> for Rational {
    fn from(x: (i32, u32)) -> Rational {
        Rational::C(RR::from(x))
    }
}

pub mod integer {
    #[derive(Clone, Copy)]
    pub enum Order {
        Lsf,
        LsfLe,
        LsfBe,
        Msf,
        MsfLe,
        MsfBe,
    }
}
#[derive(Clone, Debug)]
pub struct Float(pub Rational);
impl Float {
    pub fn to_rational(&self) -> Option<Rational> {
        Some(self.0.clone())
    }
}

macro_rules! mixed {
    ($N:ident $($t:ty)*) => {$(
        impl PartialEq<$t> for $N {
            fn eq(&self, o: &$t) -> bool {
                *self == $N::C(RR::from(*o))
            }
        }
        impl PartialOrd<$t> for $N {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                self.partial_cmp(&$N::C(RR::from(*o)))
            }
        }
        mixed!(@op $N $t, Add add);
        mixed!(@op $N $t, Sub sub);
        mixed!(@op $N $t, Mul mul);
    )*};
    (@op $N:ident $t:ty, $tr:ident $m:ident) => {
        impl $tr<$t> for $N {
            type Output = $N;
            fn $m(self, o: $t) -> $N {
                (&self).$m(&$N::C(RR::from(o)))
            }
        }
    };
}
mixed!(Rational i64 u32 u64 usize);
mixed!(Integer i64 u32 u64 usize);
impl PartialEq<F> for Rational {
    fn eq(&self, o: &F) -> bool {
        Rational::from_f64(*o).map_or(false, |r| *self == r)
    }
}
impl PartialOrd<F> for Rational {
    fn partial_cmp(&self, o: &F) -> Option<Ordering> {
        match Rational::from_f64(*o) {
            Some(r) => self.partial_cmp(&r),
            None => match o {
                F::C(x) => 0f64.partial_cmp(x),
                F::S(_) => unreachable!(),
            },
        }
    }
}
impl Rational {
    pub fn ceil(self) -> Rational {
        -((-self).floor())
    }
    pub fn trunc(self) -> Rational {
        if self.is_negative() {
            self.ceil()
        } else {
            self.floor()
        }
    }
    pub fn into_numer_denom(self) -> (Integer, Integer) {
        (self.numer(), self.denom())
    }
}
