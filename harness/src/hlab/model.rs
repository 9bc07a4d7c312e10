//! Plain reference arithmetic used by the oracles
use harness::{Case, EPS, Rng};
use num_complex::Complex64;
use russell_lab::{ComplexMatrix, ComplexVector, Matrix, Vector};

pub type Z = Complex64;

/// Dense complex reference matrix (row-major)
#[derive(Clone, Debug)]
pub struct M {
    pub m: usize,
    pub n: usize,
    pub a: Vec<Z>,
}

impl M {
    pub fn new(m: usize, n: usize) -> M {
        M { m, n, a: vec![Z::new(0.0, 0.0); m * n] }
    }
    pub fn id(n: usize) -> M {
        let mut x = M::new(n, n);
        for i in 0..n {
            x.set(i, i, Z::new(1.0, 0.0));
        }
        x
    }
    pub fn get(&self, i: usize, j: usize) -> Z {
        self.a[i * self.n + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: Z) {
        self.a[i * self.n + j] = v;
    }
    pub fn r(a: &Matrix) -> M {
        let (m, n) = a.dims();
        let mut x = M::new(m, n);
        for i in 0..m {
            for j in 0..n {
                x.set(i, j, Z::new(a.get(i, j), 0.0));
            }
        }
        x
    }
    pub fn z(a: &ComplexMatrix) -> M {
        let (m, n) = a.dims();
        let mut x = M::new(m, n);
        for i in 0..m {
            for j in 0..n {
                x.set(i, j, a.get(i, j));
            }
        }
        x
    }
    pub fn ri(re: &Matrix, im: &Matrix) -> M {
        let (m, n) = re.dims();
        let mut x = M::new(m, n);
        for i in 0..m {
            for j in 0..n {
                x.set(i, j, Z::new(re.get(i, j), im.get(i, j)));
            }
        }
        x
    }
    /// column from vectors
    pub fn cr(v: &Vector) -> M {
        let mut x = M::new(v.dim(), 1);
        for i in 0..v.dim() {
            x.a[i] = Z::new(v[i], 0.0);
        }
        x
    }
    pub fn cz(v: &ComplexVector) -> M {
        let mut x = M::new(v.dim(), 1);
        for i in 0..v.dim() {
            x.a[i] = v[i];
        }
        x
    }
    pub fn t(&self) -> M {
        let mut x = M::new(self.n, self.m);
        for i in 0..self.m {
            for j in 0..self.n {
                x.set(j, i, self.get(i, j));
            }
        }
        x
    }
    pub fn conj(&self) -> M {
        let mut x = self.clone();
        for v in x.a.iter_mut() {
            *v = v.conj();
        }
        x
    }
    pub fn h(&self) -> M {
        self.t().conj()
    }
    pub fn abs(&self) -> M {
        let mut x = self.clone();
        for v in x.a.iter_mut() {
            *v = Z::new(v.norm(), 0.0);
        }
        x
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.n, o.m);
        let mut x = M::new(self.m, o.n);
        for i in 0..self.m {
            for k in 0..self.n {
                let f = self.get(i, k);
                for j in 0..o.n {
                    x.a[i * o.n + j] += f * o.get(k, j);
                }
            }
        }
        x
    }
    pub fn sc(&self, f: Z) -> M {
        let mut x = self.clone();
        for v in x.a.iter_mut() {
            *v = *v * f;
        }
        x
    }
    pub fn plus(&self, o: &M) -> M {
        let mut x = self.clone();
        for (v, w) in x.a.iter_mut().zip(&o.a) {
            *v += *w;
        }
        x
    }
    pub fn minus(&self, o: &M) -> M {
        self.plus(&o.sc(Z::new(-1.0, 0.0)))
    }
    pub fn max(&self) -> f64 {
        let mut d = 0.0;
        for v in &self.a {
            let e = v.norm();
            if !(e <= d) {
                d = e;
            }
        }
        d
    }
    pub fn fro(&self) -> f64 {
        self.a.iter().map(|v| v.norm_sqr()).sum::<f64>().sqrt()
    }
}

/// Componentwise comparison with error bound ops * EPS * scale
pub fn cmp(c: &mut Case, what: &'static str, got: &M, want: &M, scale: &M, ops: usize) -> bool {
    if got.m != want.m || got.n != want.n {
        c.fail(format!("{}: dimensions {}x{} want {}x{}", what, got.m, got.n, want.m, want.n));
        return false;
    }
    let f = 8.0 * EPS * (ops as f64 + 4.0);
    for k in 0..got.a.len() {
        let e = (got.a[k] - want.a[k]).norm();
        let tol = f * scale.a[k].re + 1e-300;
        if !(e <= tol) && !(got.a[k] == want.a[k]) {
            c.fail(format!("{}: component ({},{}): got {} want {} error {:e} > {:e}", what, k / got.n, k % got.n, got.a[k], want.a[k], e, tol));
            return false;
        }
        c.max(what, e / tol);
    }
    c.check(true, String::new);
    true
}

pub fn rmat(m: usize, n: usize, rng: &mut Rng) -> Matrix {
    let mut a = Matrix::new(m, n);
    for x in a.as_mut_data().iter_mut() {
        *x = rng.sym();
    }
    a
}
pub fn zmat(m: usize, n: usize, rng: &mut Rng) -> ComplexMatrix {
    let mut a = ComplexMatrix::new(m, n);
    for x in a.as_mut_data().iter_mut() {
        *x = Z::new(rng.sym(), rng.sym());
    }
    a
}
pub fn rvec(n: usize, rng: &mut Rng) -> Vector {
    Vector::from(&(0..n).map(|_| rng.sym()).collect::<Vec<_>>())
}
pub fn zvec(n: usize, rng: &mut Rng) -> ComplexVector {
    ComplexVector::from(&(0..n).map(|_| Z::new(rng.sym(), rng.sym())).collect::<Vec<_>>())
}
pub fn nan_mat(m: usize, n: usize) -> Matrix {
    Matrix::filled(m, n, f64::NAN)
}
pub fn nan_zmat(m: usize, n: usize) -> ComplexMatrix {
    ComplexMatrix::filled(m, n, Z::new(f64::NAN, f64::NAN))
}
