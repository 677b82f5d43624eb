// Exact numbers for harnesses and oracles. Shared by the symbolic and the concrete runtime.
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Debug)]
pub struct Q(pub Rat);

pub fn q(n: i32) -> Q {
    Q(Rat::from(n))
}
pub fn frac(n: i32, d: i32) -> Q {
    Q(Rat::from((n, d)))
}
impl Q {
    pub fn zero() -> Q {
        q(0)
    }
    pub fn is_zero(&self) -> bool {
        self.0.cmp0z()
    }
    pub fn is_pos(&self) -> bool {
        self.0.is_positive()
    }
    pub fn is_neg(&self) -> bool {
        self.0.is_negative()
    }
    pub fn sgn(&self) -> i32 {
        if self.is_pos() {
            1
        } else if self.is_zero() {
            0
        } else {
            -1
        }
    }
    pub fn sq(&self) -> Q {
        self * self
    }
    pub fn absq(&self) -> Q {
        if self.is_neg() {
            -self
        } else {
            self.clone()
        }
    }
}
macro_rules! qops {
    ($tr:ident $m:ident $op:tt) => {
        impl<'a, 'b> $tr<&'b Q> for &'a Q {
            type Output = Q;
            fn $m(self, o: &'b Q) -> Q {
                let mut r = self.0.clone();
                r $op &o.0;
                Q(r)
            }
        }
        impl<'b> $tr<&'b Q> for Q {
            type Output = Q;
            fn $m(self, o: &'b Q) -> Q {
                (&self).$m(o)
            }
        }
        impl<'a> $tr<Q> for &'a Q {
            type Output = Q;
            fn $m(self, o: Q) -> Q {
                self.$m(&o)
            }
        }
        impl $tr<Q> for Q {
            type Output = Q;
            fn $m(self, o: Q) -> Q {
                (&self).$m(&o)
            }
        }
    };
}
qops!(Add add +=);
qops!(Sub sub -=);
qops!(Mul mul *=);
qops!(Div div /=);
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q(-self.0)
    }
}
impl<'a> Neg for &'a Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q(-self.0.clone())
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &Q) -> bool {
        self.0.lt(&o.0)
    }
    fn le(&self, o: &Q) -> bool {
        self.0.le(&o.0)
    }
    fn gt(&self, o: &Q) -> bool {
        self.0.gt(&o.0)
    }
    fn ge(&self, o: &Q) -> bool {
        self.0.ge(&o.0)
    }
}
trait Cmp0Z {
    fn cmp0z(&self) -> bool;
}
impl Cmp0Z for Rat {
    fn cmp0z(&self) -> bool {
        self.is_zero()
    }
}
