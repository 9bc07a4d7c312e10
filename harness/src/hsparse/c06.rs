use crate::common::*;
use crate::lin::*;
use harness::{Case, Ctx};
use num_complex::Complex64;
use russell_lab::NumVector;
use russell_sparse::{NumCooMatrix, Sym};

const TOL: f64 = 1e-12;

/// Generates values until the dense elimination says that the matrix is safely non-singular
fn safe_values<T: Lin>(c: &mut Case, n: usize, sym: Sym, pos: &[(usize, usize)]) -> (Vec<(usize, usize, T)>, Dense<T>, Complex64, f64) {
    for _ in 0..50 {
        let e = gen_values::<T>(&mut c.rng, n, sym, pos);
        let d = Dense::from_entries(n, n, Sym::No, &e);
        let (ph, lg, minrel) = dense_det(&d);
        if minrel > 1e-6 {
            return (e, d, ph, lg);
        }
    }
    // fall back to a dominant diagonal on the transversal
    let mut e = gen_values::<T>(&mut c.rng, n, sym, pos);
    let mut used_r = vec![false; n];
    let mut used_c = vec![false; n];
    for x in e.iter_mut() {
        if !used_r[x.0] && !used_c[x.1] {
            used_r[x.0] = true;
            used_c[x.1] = true;
            x.2 = x.2 + T::conv(50.0, 0.0);
        }
    }
    let d = Dense::from_entries(n, n, Sym::No, &e);
    let (ph, lg, _) = dense_det(&d);
    (e, d, ph, lg)
}

fn solve_check<T: Lin>(c: &mut Case, s: &mut T::Solver, d: &Dense<T>, n: usize) {
    let b = gen_vec::<T>(&mut c.rng, n);
    let vb = vector_from(&b);
    let mut x = NumVector::<T>::new(n);
    x.fill(T::nan());
    if c.ok("solve", T::solve(s, &mut x, &vb)).is_some() {
        let be = backward_error(d, &x, &b);
        c.check(be <= TOL, || format!("backward error {:e}", be));
        c.max("backward error", be / TOL);
        c.check(vb.as_data().as_slice() == b.as_slice(), || "right-hand side changed".to_string());
        c.count("solves");
    }
}

fn det_check<T: Lin>(c: &mut Case, s: &T::Solver, phase: Complex64, lg: f64, n: usize) {
    let st = T::stats(s);
    let m = Complex64::new(st.determinant.mantissa_real, st.determinant.mantissa_imag);
    let got_log = m.norm().log10() + st.determinant.exponent * st.determinant.base.log10();
    let got_phase = m / m.norm();
    let tol = 1e-8 * (1.0 + n as f64 + lg.abs());
    c.check((got_log - lg).abs() <= tol && (got_phase - phase).norm() <= 1e-6 * (n as f64 + 1.0), || {
        format!("determinant: got {} x {}^{} (log10 {:.12}), want phase {} log10 {:.12}", m, st.determinant.base, st.determinant.exponent, got_log, phase, lg)
    });
    c.count("determinants");
}

fn history<T: Lin>(c: &mut Case) {
    let top = *c.rng.pick(&[1usize, 2, 3, 8, 20, 60]);
    let n = if c.rng.chance(0.01) { c.rng.int(61, 200) } else { c.rng.int(1, top) };
    let sym = if c.rng.chance(0.3) { Sym::YesFull } else { Sym::No };
    let pos = gen_pattern(&mut c.rng, n, sym);
    let (e, mut d, ph, lg) = safe_values::<T>(c, n, sym, &pos);
    let params = if c.rng.chance(0.8) { Some(gen_params(&mut c.rng)) } else { None };
    c.input(format!("n={} {:?} complex={} nnz={} params={:?} first={:?}", n, sym, T::COMPLEX, e.len(), params.map(|p| (p.ordering, p.scaling, p.compute_determinant, p.umfpack_enforce_unsymmetric_strategy)), &e[..e.len().min(6)]));
    let mut coo = NumCooMatrix::<T>::new(n, n, e.len() + c.rng.int(0, 2), sym).unwrap();
    for x in &e {
        coo.put(x.0, x.1, x.2).unwrap();
    }
    if c.rng.chance(0.15) {
        let b = gen_vec::<T>(&mut c.rng, n);
        let mut x = NumVector::<T>::new(n);
        x.fill(T::nan());
        if let Some(s) = c.ok("compute", T::compute(&mut x, &coo, &vector_from(&b), params)) {
            let be = backward_error(&d, &x, &b);
            c.check(be <= TOL, || format!("compute: backward error {:e}", be));
            if params.map(|p| p.compute_determinant).unwrap_or(false) {
                det_check::<T>(c, &s, ph, lg, n);
            }
            c.count("one-shot computations");
        }
        return;
    }
    let mut s = T::create().unwrap();
    if c.ok("factorize", T::factorize(&mut s, &coo, params)).is_none() {
        return;
    }
    if params.map(|p| p.compute_determinant).unwrap_or(false) {
        det_check::<T>(c, &s, ph, lg, n);
    }
    let steps = c.rng.int(1, 6);
    for _ in 0..steps {
        if c.rng.chance(0.5) {
            // new values, same pattern (in the same triplet order)
            let (e2, d2, _, _) = safe_values::<T>(c, n, sym, &pos);
            coo.reset();
            for x in &e2 {
                coo.put(x.0, x.1, x.2).unwrap();
            }
            d = d2;
            if c.ok("factorize again", T::factorize(&mut s, &coo, None)).is_none() {
                return;
            }
            c.count("re-factorizations");
        }
        solve_check(c, &mut s, &d, n);
        if c.failed() {
            return;
        }
    }
    let st = T::stats(&s);
    c.check(st.main.solver == "UMFPACK", || st.main.solver.clone());
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random sparse systems (size 1..60, general or symmetric-full, duplicates, graded rows) x all orderings/scalings/strategy/determinant options x random factorize/solve histories; matrices whose dense elimination has a relative pivot below 1e-6 are regenerated; non-trivial: distinct by matrix and options");
    cx.assume("UMFPACK is the only solver compiled in this build");
    let n = cx.n(4000, 60000);
    cx.run("history-real", n, history::<f64>);
    cx.run("history-complex", n, history::<Complex64>);
    cx.require("solves", 2000);
    cx.require("re-factorizations", 1000);
    cx.require("determinants", 500);
}
