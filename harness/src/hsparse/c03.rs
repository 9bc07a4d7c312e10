use harness::{Case, Ctx, Rng, no_panic};
use num_complex::Complex64;
use russell_lab::*;
use russell_sparse::{NumCooMatrix, NumCscMatrix, NumCsrMatrix, Sym};

type Z = Complex64;
type R = Result<(), &'static str>;

/// Operation under observation: `base` maps free sizes to compatible operand dimensions,
/// `call` runs the operation with operands of the given dimensions and tells whether every output is untouched
pub struct Op {
    pub name: &'static str,
    pub np: usize,
    pub base: fn(&[usize]) -> Vec<usize>,
    compat: Option<fn(&[usize]) -> bool>,
    pub call: fn(&[usize], &mut Rng) -> (R, bool),
}

fn v(n: usize, g: &mut Rng) -> Vector {
    Vector::from(&(0..n).map(|_| g.f(0.5, 1.5)).collect::<Vec<_>>())
}
fn zv(n: usize, g: &mut Rng) -> ComplexVector {
    ComplexVector::from(&(0..n).map(|_| Z::new(g.f(0.5, 1.5), g.sym())).collect::<Vec<_>>())
}
fn m(r: usize, c: usize, g: &mut Rng) -> Matrix {
    let mut a = Matrix::new(r, c);
    for i in 0..r {
        for j in 0..c {
            a.set(i, j, g.sym() + if i == j { 10.0 + i as f64 } else { 0.0 });
        }
    }
    a
}
fn zm(r: usize, c: usize, g: &mut Rng) -> ComplexMatrix {
    let mut a = ComplexMatrix::new(r, c);
    for i in 0..r {
        for j in 0..c {
            let z = if i == j { Z::new(10.0 + i as f64, 0.0) } else { Z::new(g.sym() * 0.5, g.sym() * 0.5) };
            a.set(i, j, z);
        }
    }
    a
}

/// Compares outputs with their copies
macro_rules! out {
    ($res:expr, $($x:ident = $c:ident),+) => {{
        let r = $res;
        (r, true $(&& $x.as_data().iter().zip($c.as_data().iter()).all(|(a, b)| a == b))+)
    }};
}

macro_rules! op {
    ($list:ident, $name:expr, $np:expr, |$p:ident| $base:expr, |$d:ident, $g:ident| $body:expr) => {
        $list.push(Op { name: $name, np: $np, base: |$p| $base, compat: None, call: |$d, $g| $body });
    };
}
macro_rules! opc {
    ($list:ident, $name:expr, $np:expr, |$p:ident| $base:expr, |$q:ident| $compat:expr, |$d:ident, $g:ident| $body:expr) => {
        $list.push(Op { name: $name, np: $np, base: |$p| $base, compat: Some(|$q| $compat), call: |$d, $g| $body });
    };
}

fn square(p: &[usize], k: usize) -> Vec<usize> {
    vec![p[0]; k]
}

fn coo<T: crate::common::Sc>(r: usize, c: usize, g: &mut Rng) -> NumCooMatrix<T> {
    let mut a = NumCooMatrix::new(r, c, r * c + 1, Sym::No).unwrap();
    for i in 0..r {
        for j in 0..c {
            if g.chance(0.7) {
                a.put(i, j, T::gen_any(g)).unwrap();
            }
        }
    }
    a.put(r - 1, c - 1, T::gen_any(g)).unwrap();
    a
}

fn nv<T: crate::common::Sc>(n: usize, g: &mut Rng) -> NumVector<T> {
    NumVector::from(&(0..n).map(|_| T::gen_any(g)).collect::<Vec<_>>())
}

pub fn ops() -> Vec<Op> {
    let mut l: Vec<Op> = Vec::new();
    // ------------------------------------------------ vectors
    op!(l, "vec_add", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (v(d[0], g), v(d[1], g), v(d[2], g)); let k = w.clone(); out!(vec_add(&mut w, 2.0, &a, 3.0, &b), w = k) });
    op!(l, "vec_plus", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (v(d[0], g), v(d[1], g), v(d[2], g)); let k = w.clone(); out!(vec_plus(&mut w, &a, &b), w = k) });
    op!(l, "vec_minus", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (v(d[0], g), v(d[1], g), v(d[2], g)); let k = w.clone(); out!(vec_minus(&mut w, &a, &b), w = k) });
    op!(l, "vec_copy", 1, |p| square(p, 2), |d, g| { let (mut w, a) = (v(d[0], g), v(d[1], g)); let k = w.clone(); out!(vec_copy(&mut w, &a), w = k) });
    op!(l, "vec_copy_scaled", 1, |p| square(p, 2), |d, g| { let (mut w, a) = (v(d[0], g), v(d[1], g)); let k = w.clone(); out!(vec_copy_scaled(&mut w, 2.0, &a), w = k) });
    op!(l, "vec_update", 1, |p| square(p, 2), |d, g| { let (mut w, a) = (v(d[0], g), v(d[1], g)); let k = w.clone(); out!(vec_update(&mut w, 2.0, &a), w = k) });
    op!(l, "vec_max_abs_diff", 1, |p| square(p, 2), |d, g| (vec_max_abs_diff(&v(d[0], g), &v(d[1], g)).map(|_| ()), true));
    op!(l, "complex_vec_add", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (zv(d[0], g), zv(d[1], g), zv(d[2], g)); let k = w.clone(); out!(complex_vec_add(&mut w, cpx!(2.0, 0.0), &a, cpx!(0.0, 3.0), &b), w = k) });
    op!(l, "complex_vec_plus", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (zv(d[0], g), zv(d[1], g), zv(d[2], g)); let k = w.clone(); out!(complex_vec_plus(&mut w, &a, &b), w = k) });
    op!(l, "complex_vec_minus", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (zv(d[0], g), zv(d[1], g), zv(d[2], g)); let k = w.clone(); out!(complex_vec_minus(&mut w, &a, &b), w = k) });
    op!(l, "complex_vec_copy", 1, |p| square(p, 2), |d, g| { let (mut w, a) = (zv(d[0], g), zv(d[1], g)); let k = w.clone(); out!(complex_vec_copy(&mut w, &a), w = k) });
    op!(l, "complex_vec_update", 1, |p| square(p, 2), |d, g| { let (mut w, a) = (zv(d[0], g), zv(d[1], g)); let k = w.clone(); out!(complex_vec_update(&mut w, cpx!(2.0, 1.0), &a), w = k) });
    op!(l, "complex_vec_zip", 1, |p| square(p, 3), |d, g| { let (mut w, a, b) = (zv(d[0], g), v(d[1], g), v(d[2], g)); let k = w.clone(); out!(complex_vec_zip(&mut w, &a, &b), w = k) });
    op!(l, "complex_vec_unzip", 1, |p| square(p, 3), |d, g| { let (mut a, mut b, w) = (v(d[0], g), v(d[1], g), zv(d[2], g)); let (ka, kb) = (a.clone(), b.clone()); out!(complex_vec_unzip(&mut a, &mut b, &w), a = ka, b = kb) });
    // ------------------------------------------------ matrices, element-wise
    op!(l, "mat_add", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (m(d[0], d[1], g), m(d[2], d[3], g), m(d[4], d[5], g)); let k = w.clone(); out!(mat_add(&mut w, 2.0, &a, 3.0, &b), w = k) });
    op!(l, "mat_plus", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (m(d[0], d[1], g), m(d[2], d[3], g), m(d[4], d[5], g)); let k = w.clone(); out!(mat_plus(&mut w, &a, &b), w = k) });
    op!(l, "mat_minus", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (m(d[0], d[1], g), m(d[2], d[3], g), m(d[4], d[5], g)); let k = w.clone(); out!(mat_minus(&mut w, &a, &b), w = k) });
    op!(l, "mat_copy", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a) = (m(d[0], d[1], g), m(d[2], d[3], g)); let k = w.clone(); out!(mat_copy(&mut w, &a), w = k) });
    op!(l, "mat_update", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a) = (m(d[0], d[1], g), m(d[2], d[3], g)); let k = w.clone(); out!(mat_update(&mut w, 2.0, &a), w = k) });
    op!(l, "mat_max_abs_diff", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| (mat_max_abs_diff(&m(d[0], d[1], g), &m(d[2], d[3], g)).map(|_| ()), true));
    op!(l, "complex_mat_add", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (zm(d[0], d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g)); let k = w.clone(); out!(complex_mat_add(&mut w, cpx!(2.0, 0.0), &a, cpx!(0.0, 3.0), &b), w = k) });
    op!(l, "complex_mat_plus", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (zm(d[0], d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g)); let k = w.clone(); out!(complex_mat_plus(&mut w, &a, &b), w = k) });
    op!(l, "complex_mat_minus", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (zm(d[0], d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g)); let k = w.clone(); out!(complex_mat_minus(&mut w, &a, &b), w = k) });
    op!(l, "complex_mat_copy", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = w.clone(); out!(complex_mat_copy(&mut w, &a), w = k) });
    op!(l, "complex_mat_update", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = w.clone(); out!(complex_mat_update(&mut w, cpx!(2.0, 1.0), &a), w = k) });
    op!(l, "complex_mat_zip", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut w, a, b) = (zm(d[0], d[1], g), m(d[2], d[3], g), m(d[4], d[5], g)); let k = w.clone(); out!(complex_mat_zip(&mut w, &a, &b), w = k) });
    op!(l, "complex_mat_unzip", 2, |p| vec![p[0], p[1], p[0], p[1], p[0], p[1]], |d, g| { let (mut a, mut b, w) = (m(d[0], d[1], g), m(d[2], d[3], g), zm(d[4], d[5], g)); let (ka, kb) = (a.clone(), b.clone()); out!(complex_mat_unzip(&mut a, &mut b, &w), a = ka, b = kb) });
    // ------------------------------------------------ products
    op!(l, "mat_mat_mul", 3, |p| vec![p[0], p[1], p[0], p[2], p[2], p[1]], |d, g| { let (mut c, a, b) = (m(d[0], d[1], g), m(d[2], d[3], g), m(d[4], d[5], g)); let k = c.clone(); out!(mat_mat_mul(&mut c, 2.0, &a, &b, 0.5), c = k) });
    op!(l, "mat_t_mat_mul", 3, |p| vec![p[0], p[1], p[2], p[0], p[2], p[1]], |d, g| { let (mut c, a, b) = (m(d[0], d[1], g), m(d[2], d[3], g), m(d[4], d[5], g)); let k = c.clone(); out!(mat_t_mat_mul(&mut c, 2.0, &a, &b, 0.5), c = k) });
    op!(l, "complex_mat_mat_mul", 3, |p| vec![p[0], p[1], p[0], p[2], p[2], p[1]], |d, g| { let (mut c, a, b) = (zm(d[0], d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g)); let k = c.clone(); out!(complex_mat_mat_mul(&mut c, cpx!(2.0, 1.0), &a, &b, cpx!(0.5, 0.0)), c = k) });
    op!(l, "complex_mat_t_mat_mul", 3, |p| vec![p[0], p[1], p[2], p[0], p[2], p[1]], |d, g| { let (mut c, a, b) = (zm(d[0], d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g)); let k = c.clone(); out!(complex_mat_t_mat_mul(&mut c, cpx!(2.0, 1.0), &a, &b, cpx!(0.5, 0.0)), c = k) });
    op!(l, "mat_sym_rank_op (A At)", 2, |p| vec![p[0], p[0], p[0], p[1]], |d, g| { let (mut c, a) = (m(d[0], d[1], g), m(d[2], d[3], g)); let k = c.clone(); out!(mat_sym_rank_op(&mut c, &a, 2.0, 0.5, true, false), c = k) });
    op!(l, "mat_sym_rank_op (At A)", 2, |p| vec![p[0], p[0], p[1], p[0]], |d, g| { let (mut c, a) = (m(d[0], d[1], g), m(d[2], d[3], g)); let k = c.clone(); out!(mat_sym_rank_op(&mut c, &a, 2.0, 0.5, false, true), c = k) });
    op!(l, "complex_mat_sym_rank_op (A At)", 2, |p| vec![p[0], p[0], p[0], p[1]], |d, g| { let (mut c, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = c.clone(); out!(complex_mat_sym_rank_op(&mut c, &a, cpx!(2.0, 1.0), cpx!(0.5, 0.0), true, false), c = k) });
    op!(l, "complex_mat_sym_rank_op (At A)", 2, |p| vec![p[0], p[0], p[1], p[0]], |d, g| { let (mut c, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = c.clone(); out!(complex_mat_sym_rank_op(&mut c, &a, cpx!(2.0, 1.0), cpx!(0.5, 0.0), false, true), c = k) });
    op!(l, "complex_mat_herm_rank_op (A Ah)", 2, |p| vec![p[0], p[0], p[0], p[1]], |d, g| { let (mut c, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = c.clone(); out!(complex_mat_herm_rank_op(&mut c, &a, 2.0, 0.5, true, false), c = k) });
    op!(l, "complex_mat_herm_rank_op (Ah A)", 2, |p| vec![p[0], p[0], p[1], p[0]], |d, g| { let (mut c, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = c.clone(); out!(complex_mat_herm_rank_op(&mut c, &a, 2.0, 0.5, false, true), c = k) });
    op!(l, "mat_vec_mul", 2, |p| vec![p[0], p[0], p[1], p[1]], |d, g| { let (mut w, a, u) = (v(d[0], g), m(d[1], d[2], g), v(d[3], g)); let k = w.clone(); out!(mat_vec_mul(&mut w, 2.0, &a, &u), w = k) });
    op!(l, "mat_vec_mul_update", 2, |p| vec![p[0], p[0], p[1], p[1]], |d, g| { let (mut w, a, u) = (v(d[0], g), m(d[1], d[2], g), v(d[3], g)); let k = w.clone(); out!(mat_vec_mul_update(&mut w, 2.0, &a, &u, 0.5), w = k) });
    op!(l, "vec_mat_mul", 2, |p| vec![p[1], p[0], p[0], p[1]], |d, g| { let (mut w, u, a) = (v(d[0], g), v(d[1], g), m(d[2], d[3], g)); let k = w.clone(); out!(vec_mat_mul(&mut w, 2.0, &u, &a), w = k) });
    op!(l, "complex_mat_vec_mul", 2, |p| vec![p[0], p[0], p[1], p[1]], |d, g| { let (mut w, a, u) = (zv(d[0], g), zm(d[1], d[2], g), zv(d[3], g)); let k = w.clone(); out!(complex_mat_vec_mul(&mut w, cpx!(2.0, 1.0), &a, &u), w = k) });
    op!(l, "complex_vec_mat_mul", 2, |p| vec![p[1], p[0], p[0], p[1]], |d, g| { let (mut w, u, a) = (zv(d[0], g), zv(d[1], g), zm(d[2], d[3], g)); let k = w.clone(); out!(complex_vec_mat_mul(&mut w, cpx!(2.0, 1.0), &u, &a), w = k) });
    op!(l, "vec_outer", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| { let (mut a, x, y) = (m(d[0], d[1], g), v(d[2], g), v(d[3], g)); let k = a.clone(); out!(vec_outer(&mut a, 2.0, &x, &y), a = k) });
    op!(l, "vec_outer_update", 2, |p| vec![p[0], p[1], p[0], p[1]], |d, g| { let (mut a, x, y) = (m(d[0], d[1], g), v(d[2], g), v(d[3], g)); let k = a.clone(); out!(vec_outer_update(&mut a, 2.0, &x, &y), a = k) });
    op!(l, "mat_sum_rows", 2, |p| vec![p[1], p[0], p[1]], |d, g| { let (mut w, a) = (v(d[0], g), m(d[1], d[2], g)); let k = w.clone(); out!(mat_sum_rows(&mut w, &a), w = k) });
    op!(l, "mat_sum_cols", 2, |p| vec![p[0], p[0], p[1]], |d, g| { let (mut w, a) = (v(d[0], g), m(d[1], d[2], g)); let k = w.clone(); out!(mat_sum_cols(&mut w, &a), w = k) });
    // ------------------------------------------------ decompositions and solves
    op!(l, "solve_lin_sys", 1, |p| square(p, 3), |d, g| { let (mut b, mut a) = (v(d[0], g), m(d[1], d[2], g)); let (kb, ka) = (b.clone(), a.clone()); out!(solve_lin_sys(&mut b, &mut a), b = kb, a = ka) });
    op!(l, "complex_solve_lin_sys", 1, |p| square(p, 3), |d, g| { let (mut b, mut a) = (zv(d[0], g), zm(d[1], d[2], g)); let (kb, ka) = (b.clone(), a.clone()); out!(complex_solve_lin_sys(&mut b, &mut a), b = kb, a = ka) });
    op!(l, "mat_cholesky", 1, |p| square(p, 2), |d, g| { let mut a = m(d[0], d[1], g); let k = a.clone(); out!(mat_cholesky(&mut a, g.bool()), a = k) });
    op!(l, "complex_mat_cholesky", 1, |p| square(p, 2), |d, g| { let mut a = zm(d[0], d[1], g); let k = a.clone(); out!(complex_mat_cholesky(&mut a, g.bool()), a = k) });
    op!(l, "mat_inverse", 1, |p| square(p, 4), |d, g| { let (mut b, a) = (m(d[0], d[1], g), m(d[2], d[3], g)); let k = b.clone(); out!(mat_inverse(&mut b, &a).map(|_| ()), b = k) });
    op!(l, "complex_mat_inverse", 1, |p| square(p, 4), |d, g| { let (mut b, a) = (zm(d[0], d[1], g), zm(d[2], d[3], g)); let k = b.clone(); out!(complex_mat_inverse(&mut b, &a).map(|_| ()), b = k) });
    op!(l, "mat_pseudo_inverse", 2, |p| vec![p[1], p[0], p[0], p[1]], |d, g| { let (mut b, mut a) = (m(d[0], d[1], g), m(d[2], d[3], g)); let (kb, ka) = (b.clone(), a.clone()); out!(mat_pseudo_inverse(&mut b, &mut a), b = kb, a = ka) });
    op!(l, "mat_svd", 2, |p| vec![p[0].min(p[1]), p[0], p[0], p[1], p[1], p[0], p[1]], |d, g| { let (mut s, mut u, mut w, mut a) = (v(d[0], g), m(d[1], d[2], g), m(d[3], d[4], g), m(d[5], d[6], g)); let (k0, k1, k2, k3) = (s.clone(), u.clone(), w.clone(), a.clone()); out!(mat_svd(&mut s, &mut u, &mut w, &mut a), s = k0, u = k1, w = k2, a = k3) });
    op!(l, "complex_mat_svd", 2, |p| vec![p[0].min(p[1]), p[0], p[0], p[1], p[1], p[0], p[1]], |d, g| { let (mut s, mut u, mut w, mut a) = (v(d[0], g), zm(d[1], d[2], g), zm(d[3], d[4], g), zm(d[5], d[6], g)); let (k0, k1, k2, k3) = (s.clone(), u.clone(), w.clone(), a.clone()); out!(complex_mat_svd(&mut s, &mut u, &mut w, &mut a), s = k0, u = k1, w = k2, a = k3) });
    op!(l, "mat_eigenvalues", 1, |p| square(p, 4), |d, g| { let (mut x, mut y, mut a) = (v(d[0], g), v(d[1], g), m(d[2], d[3], g)); let (k0, k1, k2) = (x.clone(), y.clone(), a.clone()); out!(mat_eigenvalues(&mut x, &mut y, &mut a), x = k0, y = k1, a = k2) });
    op!(l, "mat_eigen_sym", 1, |p| square(p, 3), |d, g| { let (mut x, mut a) = (v(d[0], g), m(d[1], d[2], g)); let (k0, k1) = (x.clone(), a.clone()); out!(mat_eigen_sym(&mut x, &mut a, g.bool()), x = k0, a = k1) });
    op!(l, "complex_mat_eigen_herm", 1, |p| square(p, 3), |d, g| { let (mut x, mut a) = (v(d[0], g), zm(d[1], d[2], g)); let (k0, k1) = (x.clone(), a.clone()); out!(complex_mat_eigen_herm(&mut x, &mut a, g.bool()), x = k0, a = k1) });
    op!(l, "mat_eigen_sym_jacobi", 1, |p| square(p, 5), |d, g| {
        let (mut x, mut w, mut a) = (v(d[0], g), m(d[1], d[2], g), m(d[3], d[4], g));
        for i in 0..d[3].min(d[4]) { for j in 0..i { let t = a.get(i, j); a.set(j, i, t); } }
        let (k0, k1, k2) = (x.clone(), w.clone(), a.clone());
        out!(mat_eigen_sym_jacobi(&mut x, &mut w, &mut a).map(|_| ()), x = k0, w = k1, a = k2)
    });
    op!(l, "mat_eigen", 1, |p| square(p, 8), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3, mut a4) = (v(d[0], g), v(d[1], g), m(d[2], d[3], g), m(d[4], d[5], g), m(d[6], d[7], g));
        let (k0, k1, k2, k3, k4) = (a0.clone(), a1.clone(), a2.clone(), a3.clone(), a4.clone());
        out!(mat_eigen(&mut a0, &mut a1, &mut a2, &mut a3, &mut a4), a0 = k0, a1 = k1, a2 = k2, a3 = k3, a4 = k4)
    });
    op!(l, "mat_eigen_lr", 1, |p| square(p, 12), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3, mut a4, mut a5, mut a6) = (v(d[0], g), v(d[1], g), m(d[2], d[3], g), m(d[4], d[5], g), m(d[6], d[7], g), m(d[8], d[9], g), m(d[10], d[11], g));
        let (k0, k1, k2, k3, k4, k5, k6) = (a0.clone(), a1.clone(), a2.clone(), a3.clone(), a4.clone(), a5.clone(), a6.clone());
        out!(mat_eigen_lr(&mut a0, &mut a1, &mut a2, &mut a3, &mut a4, &mut a5, &mut a6), a0 = k0, a1 = k1, a2 = k2, a3 = k3, a4 = k4, a5 = k5, a6 = k6)
    });
    op!(l, "complex_mat_eigen", 1, |p| square(p, 5), |d, g| {
        let (mut a0, mut a1, mut a2) = (zv(d[0], g), zm(d[1], d[2], g), zm(d[3], d[4], g));
        let (k0, k1, k2) = (a0.clone(), a1.clone(), a2.clone());
        out!(complex_mat_eigen(&mut a0, &mut a1, &mut a2), a0 = k0, a1 = k1, a2 = k2)
    });
    op!(l, "complex_mat_eigen_lr", 1, |p| square(p, 7), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3) = (zv(d[0], g), zm(d[1], d[2], g), zm(d[3], d[4], g), zm(d[5], d[6], g));
        let (k0, k1, k2, k3) = (a0.clone(), a1.clone(), a2.clone(), a3.clone());
        out!(complex_mat_eigen_lr(&mut a0, &mut a1, &mut a2, &mut a3), a0 = k0, a1 = k1, a2 = k2, a3 = k3)
    });
    op!(l, "mat_gen_eigen", 1, |p| square(p, 9), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3, mut a4, mut a5) = (v(d[0], g), v(d[1], g), v(d[2], g), m(d[3], d[4], g), m(d[5], d[6], g), m(d[7], d[8], g));
        let (k0, k1, k2, k3, k4, k5) = (a0.clone(), a1.clone(), a2.clone(), a3.clone(), a4.clone(), a5.clone());
        out!(mat_gen_eigen(&mut a0, &mut a1, &mut a2, &mut a3, &mut a4, &mut a5), a0 = k0, a1 = k1, a2 = k2, a3 = k3, a4 = k4, a5 = k5)
    });
    op!(l, "mat_gen_eigen_lr", 1, |p| square(p, 11), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3, mut a4, mut a5, mut a6) = (v(d[0], g), v(d[1], g), v(d[2], g), m(d[3], d[4], g), m(d[5], d[6], g), m(d[7], d[8], g), m(d[9], d[10], g));
        let (k0, k1, k2, k3, k4, k5, k6) = (a0.clone(), a1.clone(), a2.clone(), a3.clone(), a4.clone(), a5.clone(), a6.clone());
        out!(mat_gen_eigen_lr(&mut a0, &mut a1, &mut a2, &mut a3, &mut a4, &mut a5, &mut a6), a0 = k0, a1 = k1, a2 = k2, a3 = k3, a4 = k4, a5 = k5, a6 = k6)
    });
    op!(l, "complex_mat_gen_eigen", 1, |p| square(p, 8), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3, mut a4) = (zv(d[0], g), zv(d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g), zm(d[6], d[7], g));
        let (k0, k1, k2, k3, k4) = (a0.clone(), a1.clone(), a2.clone(), a3.clone(), a4.clone());
        out!(complex_mat_gen_eigen(&mut a0, &mut a1, &mut a2, &mut a3, &mut a4), a0 = k0, a1 = k1, a2 = k2, a3 = k3, a4 = k4)
    });
    op!(l, "complex_mat_gen_eigen_lr", 1, |p| square(p, 10), |d, g| {
        let (mut a0, mut a1, mut a2, mut a3, mut a4, mut a5) = (zv(d[0], g), zv(d[1], g), zm(d[2], d[3], g), zm(d[4], d[5], g), zm(d[6], d[7], g), zm(d[8], d[9], g));
        let (k0, k1, k2, k3, k4, k5) = (a0.clone(), a1.clone(), a2.clone(), a3.clone(), a4.clone(), a5.clone());
        out!(complex_mat_gen_eigen_lr(&mut a0, &mut a1, &mut a2, &mut a3, &mut a4, &mut a5), a0 = k0, a1 = k1, a2 = k2, a3 = k3, a4 = k4, a5 = k5)
    });
    // ------------------------------------------------ sparse
    macro_rules! sparse {
        ($t:ty, $s:expr) => {
            opc!(l, concat!("coo mat_vec_mul ", $s), 2, |p| vec![p[0], p[0] + 1, p[1] + 1, p[1] + 1], |q| q[0] >= q[1] && q[3] >= q[2] || q[1] == 0 || q[2] == 0,
                |d, g| { if d[1] == 0 || d[2] == 0 { return (Ok(()), true); } let (mut w, a, u) = (nv::<$t>(d[0], g), coo::<$t>(d[1], d[2], g), nv::<$t>(d[3], g)); let k = w.clone(); out!(a.mat_vec_mul(&mut w, crate::common::Sc::conv(2.0, 1.0), &u), w = k) });
            opc!(l, concat!("coo mat_vec_mul_update ", $s), 2, |p| vec![p[0], p[0] + 1, p[1] + 1, p[1] + 1], |q| q[0] >= q[1] && q[3] >= q[2] || q[1] == 0 || q[2] == 0,
                |d, g| { if d[1] == 0 || d[2] == 0 { return (Ok(()), true); } let (mut w, a, u) = (nv::<$t>(d[0], g), coo::<$t>(d[1], d[2], g), nv::<$t>(d[3], g)); let k = w.clone(); out!(a.mat_vec_mul_update(&mut w, crate::common::Sc::conv(2.0, 1.0), &u), w = k) });
            opc!(l, concat!("coo mat_t_vec_mul ", $s), 2, |p| vec![p[1] + 1, p[0] + 1, p[1] + 1, p[0] + 1], |q| q[0] >= q[2] && q[3] >= q[1] || q[1] == 0 || q[2] == 0,
                |d, g| { if d[1] == 0 || d[2] == 0 { return (Ok(()), true); } let (mut w, a, u) = (nv::<$t>(d[0], g), coo::<$t>(d[1], d[2], g), nv::<$t>(d[3], g)); let k = w.clone(); out!(a.mat_t_vec_mul(&mut w, crate::common::Sc::conv(2.0, 1.0), &u), w = k) });
            opc!(l, concat!("csc mat_vec_mul ", $s), 2, |p| vec![p[0] + 1, p[0] + 1, p[1] + 1, p[1] + 1], |q| q[0] == q[1] && q[3] == q[2] || q[1] == 0 || q[2] == 0,
                |d, g| { if d[1] == 0 || d[2] == 0 { return (Ok(()), true); } let (mut w, a, u) = (nv::<$t>(d[0], g), NumCscMatrix::from_coo(&coo::<$t>(d[1], d[2], g)).unwrap(), nv::<$t>(d[3], g)); let k = w.clone(); out!(a.mat_vec_mul(&mut w, crate::common::Sc::conv(2.0, 1.0), &u), w = k) });
            opc!(l, concat!("csr mat_vec_mul ", $s), 2, |p| vec![p[0] + 1, p[0] + 1, p[1] + 1, p[1] + 1], |q| q[0] == q[1] && q[3] == q[2] || q[1] == 0 || q[2] == 0,
                |d, g| { if d[1] == 0 || d[2] == 0 { return (Ok(()), true); } let (mut w, a, u) = (nv::<$t>(d[0], g), NumCsrMatrix::from_coo(&coo::<$t>(d[1], d[2], g)).unwrap(), nv::<$t>(d[3], g)); let k = w.clone(); out!(a.mat_vec_mul(&mut w, crate::common::Sc::conv(2.0, 1.0), &u), w = k) });
            opc!(l, concat!("coo to_dense ", $s), 2, |p| vec![p[0] + 1, p[1] + 1, p[0] + 1, p[1] + 1], |q| q[0] == q[2] && q[1] == q[3] || q[2] == 0 || q[3] == 0,
                |d, g| { if d[2] == 0 || d[3] == 0 { return (Ok(()), true); } let (mut w, a) = (NumMatrix::<$t>::filled(d[0], d[1], crate::common::Sc::conv(7.0, 1.0)), coo::<$t>(d[2], d[3], g)); let k = w.clone(); out!(a.to_dense(&mut w), w = k) });
            opc!(l, concat!("csc to_dense ", $s), 2, |p| vec![p[0] + 1, p[1] + 1, p[0] + 1, p[1] + 1], |q| q[0] == q[2] && q[1] == q[3] || q[2] == 0 || q[3] == 0,
                |d, g| { if d[2] == 0 || d[3] == 0 { return (Ok(()), true); } let (mut w, a) = (NumMatrix::<$t>::filled(d[0], d[1], crate::common::Sc::conv(7.0, 1.0)), NumCscMatrix::from_coo(&coo::<$t>(d[2], d[3], g)).unwrap()); let k = w.clone(); out!(a.to_dense(&mut w), w = k) });
            opc!(l, concat!("csr to_dense ", $s), 2, |p| vec![p[0] + 1, p[1] + 1, p[0] + 1, p[1] + 1], |q| q[0] == q[2] && q[1] == q[3] || q[2] == 0 || q[3] == 0,
                |d, g| { if d[2] == 0 || d[3] == 0 { return (Ok(()), true); } let (mut w, a) = (NumMatrix::<$t>::filled(d[0], d[1], crate::common::Sc::conv(7.0, 1.0)), NumCsrMatrix::from_coo(&coo::<$t>(d[2], d[3], g)).unwrap()); let k = w.clone(); out!(a.to_dense(&mut w), w = k) });
        };
    }
    sparse!(f64, "real");
    sparse!(Z, "complex");
    l
}

const MAX: usize = 6;

fn compatible(op: &Op, d: &[usize]) -> bool {
    if let Some(f) = op.compat {
        return f(d);
    }
    let mut p = vec![0usize; op.np];
    loop {
        if (op.base)(&p) == d {
            return true;
        }
        let mut k = 0;
        loop {
            if k == op.np {
                return false;
            }
            p[k] += 1;
            if p[k] <= MAX {
                break;
            }
            p[k] = 0;
            k += 1;
        }
    }
}

fn exec(c: &mut Case, op: &Op, d: &[usize]) {
    let compat = compatible(op, d);
    c.input(format!("{} {:?}", op.name, d));
    let mut rng = c.rng.clone();
    match no_panic(|| (op.call)(d, &mut rng)) {
        Err(p) => c.fail(format!("panicked: {}", p)),
        Ok((r, untouched)) => {
            // factorizations may refuse matrices without rows or columns
            let empty_ok = ["cholesky", "inverse", "svd", "eigen"].iter().any(|k| op.name.contains(k)) && d.contains(&0);
            if compat && empty_ok {
                c.count("factorizations of empty matrices (either answer)");
            } else if compat {
                c.check(r.is_ok(), || format!("compatible operands rejected: {:?}", r));
                c.count("compatible calls");
                if d.iter().any(|x| *x == 0) {
                    c.count("compatible calls with empty operands");
                }
            } else {
                c.check(r.is_err(), || "incompatible operands accepted".to_string());
                c.check(untouched, || "output operand changed by a rejected call".to_string());
                c.count("incompatible calls");
            }
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("for each operation: every compatible size combination up to 6 and every change of one operand dimension, plus random multi-dimension changes; non-trivial: distinct (operation, dimensions)");
    let list = ops();
    let nops = list.len();
    let l = &list;
    // exhaustive: one dimension changed
    cx.run("single-change", nops, move |c| {
        let op = &l[c.index];
        let top = if op.np >= 3 { 4 } else { MAX };
        let mut p = vec![0usize; op.np];
        'all: loop {
            let base = (op.base)(&p);
            exec(c, op, &base);
            for k in 0..base.len() {
                for x in 0..=MAX {
                    if x != base[k] {
                        let mut d = base.clone();
                        d[k] = x;
                        exec(c, op, &d);
                        if c.failed() {
                            break 'all;
                        }
                    }
                }
            }
            let mut k = 0;
            loop {
                if k == op.np {
                    break 'all;
                }
                p[k] += 1;
                if p[k] <= top {
                    break;
                }
                p[k] = 0;
                k += 1;
            }
        }
        c.count("operations");
    });
    let n = cx.n(60000, 600000);
    cx.run("random", n, move |c| {
        let op = &l[c.index % nops];
        let p: Vec<usize> = (0..op.np).map(|_| c.rng.int(0, MAX)).collect();
        let mut d = (op.base)(&p);
        for _ in 0..c.rng.int(0, 3) {
            let k = c.rng.int(0, d.len() - 1);
            d[k] = c.rng.int(0, MAX);
        }
        exec(c, op, &d);
    });
    cx.require("operations", nops as u64);
    cx.require("incompatible calls", 10000);
    cx.require("compatible calls with empty operands", 100);
}
