//! Vector, matrix and plane algebra.
use super::h;
use crate::geo::*;
use cgar::geometry::matrix::Matrix;
use cgar::geometry::plane::{Plane, PlaneOps};
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::vector::*;
use cgar::numeric::cgar_rational::CgarRational as R;
use rt::*;

fn v<const N: usize>(p: &[Q; N]) -> Vector<R, N> {
    Vector(pt::<R, N>(p))
}
fn uv<const N: usize>(x: &Vector<R, N>) -> [Q; N] {
    unpt(&x.0)
}
fn vn<const N: usize>(name: &str) -> [Q; N] {
    std::array::from_fn(|i| var(&format!("{}{}", name, i)))
}
fn neg<const N: usize>(a: &[Q; N]) -> [Q; N] {
    scale(a, &q(-1))
}
fn vec_n<const N: usize>()
where
    Vector<R, N>: VectorOps<R, N>,
{
    let (a, b, k) = (vn::<N>("a"), vn::<N>("b"), var("k"));
    let (x, y, s) = (v(&a), v(&b), s::<R>(&k));
    check(back(&x.dot(&y)) == dot(&a, &b), "dot product");
    check(back(&x.norm2()) == dot(&a, &a), "squared norm");
    check(eqp(&uv(&x.scale(&s)), &scale(&a, &k)), "scale");
    check(eqp(&uv(&(&x + &y)), &add(&a, &b)), "sum");
    check(eqp(&uv(&(&x - &y)), &sub(&a, &b)), "difference");
    check(eqp(&uv(&(x.clone() + y.clone())), &add(&a, &b)), "sum by value");
    check(eqp(&uv(&(x.clone() - y.clone())), &sub(&a, &b)), "difference by value");
    check(eqp(&uv(&-x.clone()), &neg(&a)), "negation");
    let mut z = x.clone();
    z.axpy(&s, &y);
    check(eqp(&uv(&z), &add(&a, &scale(&b, &k))), "axpy");
    if N > 2 {
        check(eqp(&uv(&x.lerp(&y, &s)), &lerp(&a, &b, &k)), "lerp");
    }
    reach("all");
}
fn vec_2() {
    vec_n::<2>()
}
fn vec_3() {
    vec_n::<3>()
}
fn vec_4() {
    vec_n::<4>()
}
fn crosses() {
    let (a, b) = (vn::<3>("a"), vn::<3>("b"));
    check(eqp(&uv(&Cross3::cross(&v(&a), &v(&b))), &cross(&a, &b)), "3D cross product");
    check(eqp(&uv(&vector_cross(&v(&a), &v(&b))), &cross(&a, &b)), "3D vector_cross");
    let (c, d) = ([a[0].clone(), a[1].clone()], [b[0].clone(), b[1].clone()]);
    check(back(&Cross2::cross(&v(&c), &v(&d))) == cross2(&c, &d), "2D cross product");
    check(dot(&uv(&vector_cross(&v(&c), &v(&d))), &c).is_zero(), "2D vector_cross is not perpendicular");
    reach("all");
}
fn perp_3() {
    let a = vn::<3>("a");
    assume(!is_zero_vec(&a));
    let p = uv(&v(&a).any_perpendicular());
    check(dot(&p, &a).is_zero(), "any_perpendicular is not perpendicular");
    check(!is_zero_vec(&p), "any_perpendicular of a non-zero vector is zero");
    reach("all");
}
fn perp_4() {
    let a = vn::<4>("a");
    assume(!is_zero_vec(&a));
    let p = uv(&v(&a).any_perpendicular());
    check(dot(&p, &a).is_zero(), "any_perpendicular is not perpendicular");
    check(!is_zero_vec(&p), "any_perpendicular of a non-zero vector is zero");
    reach("all");
}
fn point_n<const N: usize>()
where
    Point<R, N>: PointOps<R, N, Vector = Vector<R, N>>,
    Vector<R, N>: VectorOps<R, N>,
{
    let (a, b) = (vn::<N>("a"), vn::<N>("b"));
    let (x, y) = (pt::<R, N>(&a), pt::<R, N>(&b));
    check(eqp(&unpt(&PointOps::sub(&x, &y)), &sub(&a, &b)), "point difference");
    check(eqp(&unpt(&(&x - &y)), &sub(&a, &b)), "point difference operator");
    check(eqp(&unpt(&(&x + &y)), &add(&a, &b)), "point sum operator");
    check(eqp(&uv(&x.as_vector()), &a), "point as vector");
    check(eqp(&unpt(&x.add_vector(&v(&b))), &add(&a, &b)), "point plus vector");
    check(eqp(&uv(&x.vector_to(&y)), &sub(&b, &a)), "vector between points");
    check(eqp(&unpt(&x.midpoint(&y)), &lerp(&a, &b, &frac(1, 2))), "midpoint");
    check((x == y) == eqp(&a, &b), "point equality");
    // lexicographic order
    let mut want = std::cmp::Ordering::Equal;
    for i in 0..N {
        if a[i] != b[i] {
            want = if a[i] < b[i] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
            break;
        }
    }
    check(x.partial_cmp(&y) == Some(want), "point order is not lexicographic");
    check(v(&a).partial_cmp(&v(&b)) == Some(want), "vector order is not lexicographic");
    check((v(&a) == v(&b)) == eqp(&a, &b), "vector equality");
    reach("all");
}
fn point_2() {
    point_n::<2>()
}
fn point_3() {
    point_n::<3>()
}
type M<const A: usize, const B: usize> = [[Q; B]; A];
fn mvar<const A: usize, const B: usize>(name: &str) -> M<A, B> {
    std::array::from_fn(|i| std::array::from_fn(|j| var(&format!("{}{}{}", name, i, j))))
}
fn mm<const A: usize, const B: usize>(m: &M<A, B>) -> Matrix<R, A, B> {
    Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| s::<R>(&m[i][j]))))
}
fn um<const A: usize, const B: usize>(m: &Matrix<R, A, B>) -> M<A, B> {
    std::array::from_fn(|i| std::array::from_fn(|j| back(&m[i][j])))
}
fn meq<const A: usize, const B: usize>(a: &M<A, B>, b: &M<A, B>) -> bool {
    (0..A).all(|i| (0..B).all(|j| a[i][j] == b[i][j]))
}
fn mprod<const A: usize, const B: usize, const C: usize>(a: &M<A, B>, b: &M<B, C>) -> M<A, C> {
    std::array::from_fn(|i| {
        std::array::from_fn(|k| {
            let mut r = q(0);
            for j in 0..B {
                r = r + &a[i][j] * &b[j][k];
            }
            r
        })
    })
}
fn ident<const N: usize>() -> M<N, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| q((i == j) as i32)))
}
/// Determinant as the sum over permutations.
fn leibniz<const N: usize>(m: &M<N, N>) -> Q {
    fn go<const N: usize>(m: &M<N, N>, row: usize, used: &mut Vec<usize>) -> Q {
        if row == N {
            return q(1);
        }
        let mut r = q(0);
        for j in 0..N {
            if used.contains(&j) {
                continue;
            }
            let inv = used.iter().filter(|&&u| u > j).count();
            used.push(j);
            let t = &m[row][j] * &go(m, row + 1, used);
            used.pop();
            r = if inv % 2 == 0 { r + t } else { r - t };
        }
        r
    }
    go(m, 0, &mut vec![])
}
fn mat_basic() {
    let (a, b, k) = (mvar::<2, 3>("a"), mvar::<2, 3>("b"), var("k"));
    let (x, y) = (mm(&a), mm(&b));
    let zip = |f: &dyn Fn(&Q, &Q) -> Q| -> M<2, 3> { std::array::from_fn(|i| std::array::from_fn(|j| f(&a[i][j], &b[i][j]))) };
    check(meq(&um(&(&x + &y)), &zip(&|p, r| p + r)), "matrix sum");
    check(meq(&um(&(&x - &y)), &zip(&|p, r| p - r)), "matrix difference");
    check(meq(&um(&(x.clone() + y.clone())), &zip(&|p, r| p + r)), "matrix sum by value");
    check(meq(&um(&(x.clone() - y.clone())), &zip(&|p, r| p - r)), "matrix difference by value");
    check(meq(&um(&x.scale(&s::<R>(&k))), &zip(&|p, _| p * &k)), "matrix scale");
    check(meq(&um(&-x.clone()), &zip(&|p, _| q(0) - p)), "matrix negation");
    check(meq(&um(&x.lerp(&y, &s::<R>(&k))), &zip(&|p, r| p + &(&(r - p) * &k))), "matrix lerp");
    let t = um(&x.transpose());
    check((0..2).all(|i| (0..3).all(|j| t[j][i] == a[i][j])), "transpose");
    for i in 0..2 {
        check(eqp(&uv(&x.row(i)), &a[i]), "row");
    }
    for j in 0..3 {
        let c: [Q; 2] = std::array::from_fn(|i| a[i][j].clone());
        check(eqp(&uv(&x.col(j)), &c), "col");
    }
    let m: Matrix<R, 3, 2> = Matrix::from_cols(std::array::from_fn(|j| std::array::from_fn(|i| s::<R>(&a[j][i]))));
    check((0..2).all(|i| (0..3).all(|j| back(&m[j][i]) == a[i][j])), "from_cols");
    check(meq(&um(&Matrix::from_rows(x.0.clone())), &a), "from_rows");
    check((0..2).all(|i| (0..3).all(|j| back(&Matrix::<R, 2, 3>::splat(s::<R>(&k))[i][j]) == k)), "splat");
    let (p, r) = (vn::<2>("p"), vn::<3>("r"));
    let o = um(&Matrix::outer(&v(&p), &v(&r)));
    check((0..2).all(|i| (0..3).all(|j| o[i][j] == &p[i] * &r[j])), "outer product");
    check((x == y) == meq(&a, &b), "matrix equality");
    reach("all");
}
fn mat_mul() {
    let (a, b, c) = (mvar::<2, 3>("a"), mvar::<3, 2>("b"), vn::<2>("c"));
    let got = um(&(&mm(&a) * &mm(&b)));
    check(meq(&got, &mprod(&a, &b)), "matrix product");
    check(meq(&um(&(mm(&a) * mm(&b))), &mprod(&a, &b)), "matrix product by value");
    // (AB) c = A (B c)
    let l = uv(&(&(&mm(&a) * &mm(&b)) * &v(&c)));
    let r = uv(&(&mm(&a) * &(&mm(&b) * &v(&c))));
    check(eqp(&l, &r), "product does not agree with composition");
    let bc: M<3, 1> = mprod(&b, &std::array::from_fn(|i| [c[i].clone()]));
    let g = uv(&(mm(&b) * v(&c)));
    check((0..3).all(|i| g[i] == bc[i][0]), "matrix times vector");
    check(meq(&um(&Matrix::<R, 3, 3>::identity()), &ident::<3>()), "identity");
    reach("all");
}
fn det_n<const N: usize>() {
    let a = mvar::<N, N>("a");
    check(back(&mm(&a).det()) == leibniz(&a), "determinant");
    reach("all");
}
fn det_1() {
    det_n::<1>()
}
fn det_2() {
    det_n::<2>()
}
fn det_3() {
    det_n::<3>()
}
fn det_4() {
    det_n::<4>()
}
/// Larger determinants with a sparse symbolic part.
fn det_5() {
    let a: M<5, 5> = std::array::from_fn(|i| {
        std::array::from_fn(|j| if (i + 2 * j) % 3 == 0 { var(&format!("a{}{}", i, j)) } else { q((3 * i as i32 + 5 * j as i32) % 7 - 3) })
    });
    check(back(&mm(&a).det()) == leibniz(&a), "determinant");
    reach("all");
}
fn inv_2() {
    let a = mvar::<2, 2>("a");
    let d = leibniz(&a);
    match mm(&a).inverse() {
        None => {
            reach("singular");
            check(d.is_zero(), "inverse of a regular matrix refused");
        }
        Some(m) => {
            reach("regular");
            check(!d.is_zero(), "inverse of a singular matrix returned");
            check(meq(&mprod(&a, &um(&m)), &ident()), "A times its inverse is not the identity");
        }
    }
}
fn inv_3() {
    let a = mvar::<3, 3>("a");
    let d = leibniz(&a);
    match mm(&a).inverse() {
        None => {
            reach("singular");
            check(d.is_zero(), "inverse of a regular matrix refused");
        }
        Some(m) => {
            reach("regular");
            check(!d.is_zero(), "inverse of a singular matrix returned");
            check(meq(&mprod(&a, &um(&m)), &ident()), "A times its inverse is not the identity");
        }
    }
}
fn offset<const N: usize>(pl: &Plane<R, N>, x: &[Q; N]) -> Q {
    dot(&uv(&pl.normal), x) + back(&pl.d)
}
fn plane_3() {
    let p: Vec<P3> = ["a", "b", "c"].iter().map(|n| vpt::<3>(n)).collect();
    let x = vpt::<3>("x");
    let pp: Vec<Point<R, 3>> = p.iter().map(|p| pt(p)).collect();
    let pl = Plane::<R, 3>::from_points([&pp[0], &pp[1], &pp[2]]);
    for y in &p {
        check(offset(&pl, y).is_zero(), "plane does not contain a defining point");
    }
    check(offset(&pl, &x) == orient3(&p[0], &p[1], &p[2], &x), "side of the plane");
    reach("all");
}
fn plane_3_frame() {
    let (n, d) = (vpt::<3>("n"), var("d"));
    assume(!is_zero_vec(&n));
    let pl = Plane::<R, 3>::new(v(&n), s::<R>(&d));
    check(offset(&pl, &unpt(&pl.origin())).is_zero(), "origin of the plane is not on it");
    let (e, f) = pl.basis();
    let (e, f) = (uv(&e), uv(&f));
    check(dot(&e, &n).is_zero() && dot(&f, &n).is_zero(), "basis is not in the plane");
    check(!is_zero_vec(&cross(&e, &f)), "basis does not span the plane");
    check(dot(&cross(&e, &f), &n).is_neg() || dot(&cross(&e, &f), &n).is_pos(), "basis is degenerate");
    reach("all");
}
fn plane_2() {
    let (a, b, x) = (vpt::<2>("a"), vpt::<2>("b"), vpt::<2>("x"));
    let (pa, pb) = (pt::<R, 2>(&a), pt::<R, 2>(&b));
    let pl = Plane::<R, 2>::from_points([&pa, &pb]);
    check(offset(&pl, &a).is_zero() && offset(&pl, &b).is_zero(), "line does not contain a defining point");
    check(offset(&pl, &x) == orient2(&a, &b, &x), "side of the line");
    if !eqp(&a, &b) {
        check(offset(&pl, &unpt(&pl.origin())).is_zero(), "origin of the line is not on it");
        let (e, _) = pl.basis();
        check(dot(&uv(&e), &uv(&pl.normal)).is_zero() && !is_zero_vec(&uv(&e)), "tangent of the line");
        reach("proper");
    }
}
fn canonical() {
    let (n, d, k) = (vpt::<3>("n"), var("d"), var_at("k", -2, 1));
    assume(!is_zero_vec(&n));
    assume_nonzero(&k);
    let c1 = Plane::<R, 3>::new(v(&n), s::<R>(&d)).canonicalized();
    let c2 = Plane::<R, 3>::new(v(&scale(&n, &k)), s::<R>(&(&d * &k))).canonicalized();
    check(c1 == c2, "proportional planes have different canonical forms");
    let (cn, cd) = (uv(&c1.normal), back(&c1.d));
    // same plane: proportional to the original
    check((0..3).all(|i| &cn[i] * &d == &n[i] * &cd), "canonical form is another plane");
    check(is_zero_vec(&cross(&cn, &n)), "canonical form has another direction");
    let first = cn.iter().find(|x| !x.is_zero());
    check(first.map_or(false, |f| *f == q(1)), "first coefficient of the canonical form is not one");
    reach("all");
}

pub fn all() -> Vec<Harness> {
    const ANY: &str = "all components any real";
    vec![
        h!("C05", vec_2, 0, ["all"], ANY),
        h!("C05", vec_3, 0, ["all"], ANY),
        h!("C05", vec_4, 0, ["all"], ANY),
        h!("C05", crosses, 0, ["all"], ANY),
        h!("C05", perp_3, 0, ["all"], ANY),
        h!("C05", perp_4, 0, ["all"], ANY),
        h!("C05", point_2, 0, ["all"], ANY),
        h!("C05", point_3, 0, ["all"], ANY),
        h!("C05", mat_basic, 0, ["all"], "2x3 matrices, all components any real"),
        h!("C05", mat_mul, 0, ["all"], "2x3 times 3x2, all components any real"),
        h!("C05", det_1, 0, ["all"], ANY),
        h!("C05", det_2, 0, ["all"], ANY),
        h!("C05", det_3, 0, ["all"], ANY),
        h!("C05", det_4, 0, ["all"], ANY),
        h!("C05", det_5, 0, ["all"], "5x5, nine components any real, the others fixed"),
        h!("C05", inv_2, 0, ["singular", "regular"], ANY),
        h!("C05", inv_3, 0, ["singular", "regular"], ANY),
        h!("C05", plane_3, 0, ["all"], ANY),
        h!("C05", plane_3_frame, 0, ["all"], ANY),
        h!("C05", plane_2, 0, ["proper"], ANY),
        h!("C05", canonical, 0, ["all"], ANY),
    ]
}
