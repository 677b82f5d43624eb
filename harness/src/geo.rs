//! Oracle geometry, written independently of cgar on exact numbers.
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::scalar::{RefInto, Scalar};
use rt::*;

pub type P2 = [Q; 2];
pub type P3 = [Q; 3];

pub fn s<T: Scalar>(x: &Q) -> T {
    T::from(x.0.clone())
}
pub fn back<T: Scalar>(x: &T) -> Q {
    let r: CgarRational = RefInto::<CgarRational>::ref_into(x);
    Q(r.0)
}
pub fn pt<T: Scalar, const N: usize>(p: &[Q; N]) -> Point<T, N> {
    Point { coords: std::array::from_fn(|i| s::<T>(&p[i])) }
}
pub fn unpt<T: Scalar, const N: usize>(p: &Point<T, N>) -> [Q; N] {
    std::array::from_fn(|i| back(&p.coords[i]))
}
pub fn vpt<const N: usize>(name: &str) -> [Q; N] {
    std::array::from_fn(|i| var(&format!("{}{}", name, ["x", "y", "z"][i])))
}
pub fn ipt<const N: usize>(v: [i32; N]) -> [Q; N] {
    std::array::from_fn(|i| q(v[i]))
}
pub fn sub<const N: usize>(a: &[Q; N], b: &[Q; N]) -> [Q; N] {
    std::array::from_fn(|i| &a[i] - &b[i])
}
pub fn add<const N: usize>(a: &[Q; N], b: &[Q; N]) -> [Q; N] {
    std::array::from_fn(|i| &a[i] + &b[i])
}
pub fn scale<const N: usize>(a: &[Q; N], k: &Q) -> [Q; N] {
    std::array::from_fn(|i| &a[i] * k)
}
pub fn lerp<const N: usize>(a: &[Q; N], b: &[Q; N], t: &Q) -> [Q; N] {
    std::array::from_fn(|i| &a[i] + &(&(&b[i] - &a[i]) * t))
}
pub fn dot<const N: usize>(a: &[Q; N], b: &[Q; N]) -> Q {
    let mut r = q(0);
    for i in 0..N {
        r = r + &a[i] * &b[i];
    }
    r
}
pub fn cross(a: &P3, b: &P3) -> P3 {
    [
        &a[1] * &b[2] - &a[2] * &b[1],
        &a[2] * &b[0] - &a[0] * &b[2],
        &a[0] * &b[1] - &a[1] * &b[0],
    ]
}
pub fn cross2(a: &P2, b: &P2) -> Q {
    &a[0] * &b[1] - &a[1] * &b[0]
}
/// Twice the signed area of abc.
pub fn orient2(a: &P2, b: &P2, c: &P2) -> Q {
    cross2(&sub(b, a), &sub(c, a))
}
/// Six times the signed volume of abcd, positive when d is on the side of the normal of abc.
pub fn orient3(a: &P3, b: &P3, c: &P3, d: &P3) -> Q {
    dot(&cross(&sub(b, a), &sub(c, a)), &sub(d, a))
}
pub fn eqp<const N: usize>(a: &[Q; N], b: &[Q; N]) -> bool {
    (0..N).all(|i| a[i] == b[i])
}
pub fn is_zero_vec<const N: usize>(a: &[Q; N]) -> bool {
    (0..N).all(|i| a[i].is_zero())
}
/// a, b, c on a common line
pub fn collinear<const N: usize>(a: &[Q; N], b: &[Q; N], c: &[Q; N]) -> bool {
    let u = sub(b, a);
    let v = sub(c, a);
    for i in 0..N {
        for j in i + 1..N {
            if !(&u[i] * &v[j] - &u[j] * &v[i]).is_zero() {
                return false;
            }
        }
    }
    true
}
/// p = a + t (b - a) for some t in [0, 1]
pub fn on_segment<const N: usize>(p: &[Q; N], a: &[Q; N], b: &[Q; N]) -> bool {
    if !collinear(a, b, p) {
        return false;
    }
    if eqp(a, b) {
        return eqp(a, p);
    }
    let d = dot(&sub(p, a), &sub(b, a));
    if d.is_neg() {
        return false;
    }
    let l = dot(&sub(b, a), &sub(b, a));
    !(l - d).is_neg()
}
