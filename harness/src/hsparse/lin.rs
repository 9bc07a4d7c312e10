use crate::common::*;
use harness::Rng;
use num_complex::Complex64;
use russell_lab::NumVector;
use russell_sparse::{
    ComplexLinSolver, Genie, LinSolParams, LinSolver, NumCooMatrix, Ordering, Scaling, StatsLinSol, Sym,
};

/// Common face of the real and complex solvers
pub trait Lin: Sc {
    type Solver;
    fn create() -> Result<Self::Solver, &'static str>;
    fn factorize(s: &mut Self::Solver, a: &NumCooMatrix<Self>, p: Option<LinSolParams>) -> Result<(), &'static str>;
    fn solve(s: &mut Self::Solver, x: &mut NumVector<Self>, b: &NumVector<Self>) -> Result<(), &'static str>;
    fn stats(s: &Self::Solver) -> StatsLinSol {
        let mut st = StatsLinSol::new();
        Self::add_stats(s, &mut st);
        st
    }
    fn add_stats(s: &Self::Solver, st: &mut StatsLinSol);
    fn compute(x: &mut NumVector<Self>, a: &NumCooMatrix<Self>, b: &NumVector<Self>, p: Option<LinSolParams>) -> Result<Self::Solver, &'static str>;
    fn to_c(self) -> Complex64;
}

impl Lin for f64 {
    type Solver = LinSolver<'static>;
    fn create() -> Result<Self::Solver, &'static str> {
        LinSolver::new(Genie::Umfpack)
    }
    fn factorize(s: &mut Self::Solver, a: &NumCooMatrix<f64>, p: Option<LinSolParams>) -> Result<(), &'static str> {
        s.actual.factorize(a, p)
    }
    fn solve(s: &mut Self::Solver, x: &mut NumVector<f64>, b: &NumVector<f64>) -> Result<(), &'static str> {
        s.actual.solve(x, b, false)
    }
    fn add_stats(s: &Self::Solver, st: &mut StatsLinSol) {
        s.actual.update_stats(st);
    }
    fn compute(x: &mut NumVector<f64>, a: &NumCooMatrix<f64>, b: &NumVector<f64>, p: Option<LinSolParams>) -> Result<Self::Solver, &'static str> {
        LinSolver::compute(Genie::Umfpack, x, a, b, p)
    }
    fn to_c(self) -> Complex64 {
        Complex64::new(self, 0.0)
    }
}

impl Lin for Complex64 {
    type Solver = ComplexLinSolver<'static>;
    fn create() -> Result<Self::Solver, &'static str> {
        ComplexLinSolver::new(Genie::Umfpack)
    }
    fn factorize(s: &mut Self::Solver, a: &NumCooMatrix<Complex64>, p: Option<LinSolParams>) -> Result<(), &'static str> {
        s.actual.factorize(a, p)
    }
    fn solve(s: &mut Self::Solver, x: &mut NumVector<Complex64>, b: &NumVector<Complex64>) -> Result<(), &'static str> {
        s.actual.solve(x, b, false)
    }
    fn add_stats(s: &Self::Solver, st: &mut StatsLinSol) {
        s.actual.update_stats(st);
    }
    fn compute(x: &mut NumVector<Complex64>, a: &NumCooMatrix<Complex64>, b: &NumVector<Complex64>, p: Option<LinSolParams>) -> Result<Self::Solver, &'static str> {
        ComplexLinSolver::compute(Genie::Umfpack, x, a, b, p)
    }
    fn to_c(self) -> Complex64 {
        self
    }
}

pub const ORDERINGS: [Ordering; 12] = [
    Ordering::Amd,
    Ordering::Amf,
    Ordering::Auto,
    Ordering::Best,
    Ordering::BtfColamd,
    Ordering::Cholmod,
    Ordering::Colamd,
    Ordering::Metis,
    Ordering::No,
    Ordering::Pord,
    Ordering::Qamd,
    Ordering::Scotch,
];

pub const SCALINGS: [Scaling; 9] = [
    Scaling::Auto,
    Scaling::Column,
    Scaling::Diagonal,
    Scaling::Max,
    Scaling::No,
    Scaling::RowCol,
    Scaling::RowColIter,
    Scaling::RowColRig,
    Scaling::Sum,
];

pub fn gen_params(rng: &mut Rng) -> LinSolParams {
    let mut p = LinSolParams::new();
    p.ordering = *rng.pick(&ORDERINGS);
    p.scaling = *rng.pick(&SCALINGS);
    p.positive_definite = rng.chance(0.2);
    p.compute_determinant = rng.bool();
    p.compute_error_estimates = rng.chance(0.2);
    p.compute_condition_numbers = rng.chance(0.2);
    p.umfpack_enforce_unsymmetric_strategy = rng.chance(0.3);
    p
}

/// Pattern of a structurally non-singular matrix: list of positions, with optional duplicates
pub fn gen_pattern(rng: &mut Rng, n: usize, sym: Sym) -> Vec<(usize, usize)> {
    let mut pos = Vec::new();
    // transversal
    let mut perm: Vec<usize> = (0..n).collect();
    if sym == Sym::No && rng.bool() {
        rng.shuffle(&mut perm);
    }
    for i in 0..n {
        pos.push((i, perm[i]));
    }
    let extra = rng.int(0, 3 * n);
    for _ in 0..extra {
        let (i, j) = (rng.int(0, n - 1), rng.int(0, n - 1));
        pos.push((i, j));
        if sym == Sym::YesFull && i != j {
            pos.push((j, i));
        }
    }
    if sym == Sym::No {
        rng.shuffle(&mut pos);
    }
    pos
}

/// Values making the matrix well conditioned: dominant transversal, row scales of different magnitude
pub fn gen_values<T: Sc>(rng: &mut Rng, n: usize, sym: Sym, pos: &[(usize, usize)]) -> Vec<(usize, usize, T)> {
    let mut e: Vec<(usize, usize, T)> = Vec::new();
    if sym == Sym::YesFull {
        // positions come as diagonal entries followed by mirrored pairs
        let mut k = 0;
        while k < pos.len() {
            let (i, j) = pos[k];
            if i == j {
                let s = if rng.bool() { 1.0 } else { -1.0 };
                let v = if k < n { T::conv(s * (8.0 + 2.0 * pos.len() as f64 / n as f64), rng.sym()) } else { T::gen_any(rng) };
                e.push((i, i, v));
                k += 1;
            } else {
                let v = T::gen_any(rng);
                e.push((i, j, v));
                e.push((j, i, v));
                k += 2;
            }
        }
        return e;
    }
    // general: the first position seen of each row is dominant only if columns are distinct;
    // find the transversal greedily by scanning positions
    let mut scale = vec![1.0; n];
    if rng.bool() {
        for s in scale.iter_mut() {
            *s = f64::powf(10.0, rng.f(-3.0, 3.0));
        }
    }
    for (i, j) in pos {
        let v = T::gen_any(rng);
        e.push((*i, *j, v * T::conv(scale[*i], 0.0)));
    }
    e
}

/// log10|det| and unit phase by Gaussian elimination with partial pivoting; also returns the smallest relative pivot
pub fn dense_det<T: Lin>(d: &Dense<T>) -> (Complex64, f64, f64) {
    let n = d.n;
    let mut a: Vec<Vec<Complex64>> = (0..n).map(|i| (0..n).map(|j| d.get(i, j).to_c()).collect()).collect();
    let mut phase = Complex64::new(1.0, 0.0);
    let mut log = 0.0;
    let mut minrel = f64::INFINITY;
    for row in a.iter_mut() {
        let s = row.iter().fold(0.0, |m: f64, v| m.max(v.norm()));
        if s == 0.0 {
            return (Complex64::new(0.0, 0.0), f64::NEG_INFINITY, 0.0);
        }
        for v in row.iter_mut() {
            *v /= s;
        }
        log += s.log10();
    }
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if a[i][k].norm() > a[p][k].norm() {
                p = i;
            }
        }
        if a[p][k].norm() == 0.0 {
            return (Complex64::new(0.0, 0.0), f64::NEG_INFINITY, 0.0);
        }
        if p != k {
            a.swap(p, k);
            phase = -phase;
        }
        let piv = a[k][k];
        minrel = f64::min(minrel, piv.norm());
        log += piv.norm().log10();
        phase *= piv / piv.norm();
        for i in k + 1..n {
            let f = a[i][k] / piv;
            for j in k..n {
                let t = f * a[k][j];
                a[i][j] -= t;
            }
        }
    }
    (phase, log, minrel)
}

/// Normwise backward error of A x = b
pub fn backward_error<T: Lin>(d: &Dense<T>, x: &NumVector<T>, b: &[T]) -> f64 {
    let n = d.n;
    let mut na = 0.0;
    let mut r = 0.0;
    let mut nx = 0.0;
    let mut nb = 0.0;
    for i in 0..n {
        let mut s = T::zero();
        let mut row = 0.0;
        for j in 0..n {
            s = s + d.get(i, j) * x[j];
            row += d.get(i, j).mag();
        }
        let e = (s - b[i]).mag();
        if !(e <= r) {
            r = e;
        }
        na = f64::max(na, row);
        let m = x[i].mag();
        if !(m <= nx) {
            nx = m;
        }
        nb = f64::max(nb, b[i].mag());
    }
    if r == 0.0 { 0.0 } else { r / (na * nx + nb) }
}
