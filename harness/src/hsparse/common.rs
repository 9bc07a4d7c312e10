use harness::Rng;
use num_complex::Complex64;
use num_traits::{Num, NumCast};
use russell_lab::{NumMatrix, NumVector};
use russell_sparse::{NumCooMatrix, Sym};
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;
use std::ops::{AddAssign, MulAssign};

/// Scalar kind (real or complex)
pub trait Sc:
    Num + NumCast + Copy + AddAssign + MulAssign + DeserializeOwned + Serialize + Debug + Send + Sync + 'static
{
    const COMPLEX: bool;
    fn gen_exact(rng: &mut Rng) -> Self;
    fn gen_any(rng: &mut Rng) -> Self;
    fn nan() -> Self;
    fn mag(self) -> f64;
    fn conv(re: f64, im: f64) -> Self;
}

impl Sc for f64 {
    const COMPLEX: bool = false;
    fn gen_exact(rng: &mut Rng) -> f64 {
        rng.int(0, 128) as f64 / 8.0 - 8.0
    }
    fn gen_any(rng: &mut Rng) -> f64 {
        rng.sym()
    }
    fn nan() -> f64 {
        f64::NAN
    }
    fn mag(self) -> f64 {
        self.abs()
    }
    fn conv(re: f64, _im: f64) -> f64 {
        re
    }
}

impl Sc for Complex64 {
    const COMPLEX: bool = true;
    fn gen_exact(rng: &mut Rng) -> Complex64 {
        Complex64::new(f64::gen_exact(rng), f64::gen_exact(rng))
    }
    fn gen_any(rng: &mut Rng) -> Complex64 {
        Complex64::new(rng.sym(), rng.sym())
    }
    fn nan() -> Complex64 {
        Complex64::new(f64::NAN, f64::NAN)
    }
    fn mag(self) -> f64 {
        self.norm()
    }
    fn conv(re: f64, im: f64) -> Complex64 {
        Complex64::new(re, im)
    }
}

/// Dense image
#[derive(Clone, Debug)]
pub struct Dense<T: Sc> {
    pub m: usize,
    pub n: usize,
    pub a: Vec<T>,
}

impl<T: Sc> Dense<T> {
    pub fn new(m: usize, n: usize) -> Self {
        Dense { m, n, a: vec![T::zero(); m * n] }
    }
    pub fn get(&self, i: usize, j: usize) -> T {
        self.a[i * self.n + j]
    }
    pub fn add(&mut self, i: usize, j: usize, v: T) {
        let k = i * self.n + j;
        self.a[k] = self.a[k] + v;
    }
    pub fn from_entries(m: usize, n: usize, sym: Sym, entries: &[(usize, usize, T)]) -> Self {
        let mut d = Dense::new(m, n);
        for (i, j, v) in entries {
            d.add(*i, *j, *v);
            if sym.triangular() && i != j {
                d.add(*j, *i, *v);
            }
        }
        d
    }
    /// exact comparison with a matrix
    pub fn same(&self, a: &NumMatrix<T>) -> bool {
        if a.dims() != (self.m, self.n) {
            return false;
        }
        for i in 0..self.m {
            for j in 0..self.n {
                if a.get(i, j) != self.get(i, j) {
                    return false;
                }
            }
        }
        true
    }
    pub fn max_diff(&self, a: &NumMatrix<T>) -> f64 {
        if a.dims() != (self.m, self.n) {
            return f64::INFINITY;
        }
        let mut d = 0.0;
        for i in 0..self.m {
            for j in 0..self.n {
                let e = (a.get(i, j) - self.get(i, j)).mag();
                if !(e <= d) {
                    d = e;
                }
            }
        }
        d
    }
    pub fn mul(&self, u: &[T], transpose: bool) -> (Vec<T>, Vec<f64>) {
        let (m, n) = if transpose { (self.n, self.m) } else { (self.m, self.n) };
        let mut v = vec![T::zero(); m];
        let mut s = vec![0.0; m];
        for i in 0..m {
            for j in 0..n {
                let a = if transpose { self.get(j, i) } else { self.get(i, j) };
                v[i] = v[i] + a * u[j];
                s[i] += a.mag() * u[j].mag();
            }
        }
        (v, s)
    }
}

pub const SYMS: [Sym; 4] = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];

/// Generates entries that respect the storage kind; YesFull gets both (i,j) and (j,i)
pub fn gen_entries<T: Sc>(rng: &mut Rng, m: usize, n: usize, sym: Sym, count: usize, exact: bool) -> Vec<(usize, usize, T)> {
    let mut e: Vec<(usize, usize, T)> = Vec::new();
    let dup = *rng.pick(&[0.0, 0.2, 0.7]);
    while e.len() < count {
        let (mut i, mut j) = if !e.is_empty() && rng.chance(dup) {
            let k = rng.int(0, e.len() - 1);
            (e[k].0, e[k].1)
        } else {
            (rng.int(0, m - 1), rng.int(0, n - 1))
        };
        match sym {
            Sym::YesLower if j > i => std::mem::swap(&mut i, &mut j),
            Sym::YesUpper if j < i => std::mem::swap(&mut i, &mut j),
            _ => (),
        }
        let mut v = if exact { T::gen_exact(rng) } else { T::gen_any(rng) };
        if rng.chance(0.08) {
            v = T::zero();
        }
        e.push((i, j, v));
        if sym == Sym::YesFull && i != j && e.len() < count {
            e.push((j, i, v));
        } else if sym == Sym::YesFull && i != j {
            e.pop();
            e.push((i, i, v));
        }
    }
    e
}

pub fn build<T: Sc>(m: usize, n: usize, sym: Sym, entries: &[(usize, usize, T)], extra: usize) -> NumCooMatrix<T> {
    let mut coo = NumCooMatrix::<T>::new(m, n, entries.len() + extra, sym).unwrap();
    for (i, j, v) in entries {
        coo.put(*i, *j, *v).unwrap();
    }
    coo
}

pub fn gen_dims(rng: &mut Rng, sym: Sym, big: usize) -> (usize, usize) {
    let mut top = *rng.pick(&[3usize, 6, 10, big]);
    if rng.chance(0.02) {
        top = 8 * big;
    }
    let m = rng.int(1, top);
    let n = if sym == Sym::No { rng.int(1, top) } else { m };
    (m, n)
}

pub fn vector_from<T: Sc>(v: &[T]) -> NumVector<T> {
    let mut x = NumVector::<T>::new(v.len());
    for i in 0..v.len() {
        x[i] = v[i];
    }
    x
}

pub fn gen_vec<T: Sc>(rng: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::gen_any(rng)).collect()
}
