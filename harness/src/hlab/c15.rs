use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::*;

/// Random nonlinear system with a known solution: F(x) = A (x - s) + q · N(x - s), N(0) = 0
struct Sys {
    n: usize,
    a: Vec<f64>,
    s: Vec<f64>,
    q: f64,
    kind: usize,
    nan_comp: usize,
    nan_at: usize,
}

impl Sys {
    fn new(c: &mut Case, kind: usize) -> Sys {
        let n = if c.rng.chance(0.02) { c.rng.int(8, 60) } else { c.rng.int(1, 7) };
        let mut a = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                a[i * n + j] = c.rng.sym() * 0.8 / n as f64;
            }
            a[i * n + i] += 2.0 * if c.rng.bool() { 1.0 } else { -1.0 };
        }
        let big = c.rng.chance(0.2);
        let s = (0..n).map(|_| c.rng.sym() * if big { 20.0 } else { 2.0 }).collect();
        Sys { n, a, s, q: c.rng.f(0.05, 0.5), kind, nan_comp: 0, nan_at: usize::MAX }
    }
    fn nl(&self, d: f64) -> (f64, f64) {
        match self.kind {
            0 => (d * d, 2.0 * d),
            1 => (d.sin() - d * 0.5, d.cos() - 0.5),
            2 => (d * d * d, 3.0 * d * d),
            _ => (d.exp_m1(), d.exp()),
        }
    }
    fn f(&self, r: &mut Vector, x: &Vector) {
        for i in 0..self.n {
            let k = (i + 1) % self.n;
            let mut v = self.q * self.nl(x[k] - self.s[k]).0;
            for j in 0..self.n {
                v += self.a[i * self.n + j] * (x[j] - self.s[j]);
            }
            r[i] = v;
        }
    }
    fn jac(&self, jj: &mut Matrix, x: &Vector) {
        for i in 0..self.n {
            for j in 0..self.n {
                jj.set(i, j, self.a[i * self.n + j]);
            }
            let k = (i + 1) % self.n;
            jj.add(i, k, self.q * self.nl(x[k] - self.s[k]).1);
        }
    }
}

fn newton(c: &mut Case) {
    let kind = c.rng.int(0, 3);
    let mut sys = Sys::new(c, kind);
    let ls = c.rng.bool();
    let far = c.rng.chance(0.3);
    let tol = *c.rng.pick(&[1e-10, 1e-10, 1e-12, 1e-6, 1e-3]);
    let maxit = *c.rng.pick(&[20, 20, 50, 3, 1]);
    let div = *c.rng.pick(&[1e6, 1e6, 10.0, 1.0]);
    let alpha = if ls { *c.rng.pick(&[1.0, 1.0, 0.5, 0.9]) } else { 1.0 };
    let hostile = c.rng.chance(0.15);
    if hostile {
        sys.nan_comp = c.rng.int(0, sys.n - 1);
        sys.nan_at = c.rng.int(1, 5);
    }
    let x0: Vec<f64> = sys.s.iter().map(|s| s + c.rng.sym() * if far { 5.0 } else { 0.4 }).collect();
    let exact_start = c.rng.chance(0.03);
    let x0 = if exact_start { sys.s.clone() } else { x0 };
    c.input(format!(
        "newton n={} kind={} q={} a={:?} s={:?} x0={:?} line_search={} alpha={} tol={:e} max_it={} div={} nan_at={} comp={}",
        sys.n, kind, sys.q, sys.a, sys.s, x0, ls, alpha, tol, maxit, div, sys.nan_at, sys.nan_comp
    ));
    let mut solver = NewtonSolver::new(sys.n).unwrap();
    solver.set_tolerance(tol).set_max_iterations(maxit).set_divergent_tol(div).set_use_line_search(ls).set_initial_alpha(alpha).set_enable_stats(true);
    let solve = |solver: &mut NewtonSolver, c: &mut Case| -> (Result<(), StrError>, Vector) {
        let mut x = Vector::from(&x0);
        let mut n = (0usize, 0usize, Vec::<f64>::new());
        let mut hist: Vec<(Vec<f64>, f64, f64)> = Vec::new();
        let mut base: Vec<Vec<f64>> = Vec::new();
        let res = solver.solve(
            &mut x,
            &mut n,
            |r, x, n| {
                n.0 += 1;
                sys.f(r, x);
                if n.0 >= sys.nan_at {
                    r[sys.nan_comp] = f64::NAN;
                }
                let max = r.as_data().iter().fold(0.0, |m: f64, v| if v.is_nan() { f64::NAN } else { m.max(v.abs()) });
                hist.push((x.as_data().to_vec(), r.as_data().iter().map(|v| v * v).sum::<f64>() * 0.5, max));
                Ok(())
            },
            |jj, x, n| {
                n.1 += 1;
                base.push(x.as_data().to_vec());
                sys.jac(jj, x);
                Ok(())
            },
        );
        let st = solver.get_stats().unwrap();
        c.check(st.get_n_function() == n.0 && st.get_n_jacobian() == n.1, || {
            format!("reported {} residuals and {} Jacobians; performed {} and {}", st.get_n_function(), st.get_n_jacobian(), n.0, n.1)
        });
        c.check(st.get_n_iterations() <= maxit, || format!("{} iterations > {}", st.get_n_iterations(), maxit));
        c.check(n.1 <= maxit, || format!("{} Jacobians > {}", n.1, maxit));
        if res.is_ok() {
            c.check(st.get_n_iterations() == n.1 + 1 || st.get_n_iterations() == n.1, || {
                format!("{} iterations with {} Jacobians", st.get_n_iterations(), n.1)
            });
            // the last evaluated point is returned and its residual is small
            let (lx, _, lr) = hist.last().unwrap();
            c.check(lx.as_slice() == x.as_data(), || "the returned point is not the last evaluated one".to_string());
            c.check(*lr < tol, || format!("accepted with residual {:e} (tolerance {:e})", lr, tol));
        }
        // with line search: every accepted step satisfies the sufficient decrease or used all 20 reductions
        if ls {
            let mut k = 0;
            for w in 1..base.len() {
                // evaluations between base[w-1] and base[w]
                let start = hist[k..].iter().position(|h| h.0 == base[w - 1]).map(|p| p + k).unwrap_or(k);
                let end = hist[start + 1..].iter().position(|h| h.0 == base[w]).map(|p| p + start + 1);
                let Some(end) = end else { break };
                let (p0, p1) = (hist[start].1, hist[end].1);
                let nred = end - start - 1;
                if nred < 19 {
                    c.check(!(p1 > p0), || format!("line search accepted an increase of the merit function {:e} -> {:e}", p0, p1));
                    let a = alpha * 0.5f64.powi(nred as i32);
                    c.check(!(p1 > p0 * (1.0 - 2e-4 * a) * (1.0 + 1e-14)), || format!("no sufficient decrease {:e} -> {:e}, alpha={}", p0, p1, a));
                    c.count("line search steps verified");
                    // every rejected trial really failed the condition
                    for (i, h) in hist[start + 1..end].iter().enumerate() {
                        let a = alpha * 0.5f64.powi(i as i32);
                        c.check(!(h.1 <= p0 * (1.0 - 2e-4 * a) * (1.0 - 1e-14)), || format!("trial {} with {:e} <= {:e} was rejected", i, h.1, p0));
                        c.count("rejected trials verified");
                    }
                }
                k = end;
            }
        }
        if matches!(res, Err("solution diverged")) {
            c.check(hist.last().unwrap().2 > div * hist[0].2, || "reported divergence without growth of the residual".to_string());
            c.count("divergence reported");
        }
        (res, x)
    };
    let (res, x) = solve(&mut solver, c);
    match &res {
        Ok(()) => {
            c.count("newton converged");
            c.check(!(hostile && x.as_data().iter().any(|v| v.is_nan())), || "converged to NaN".to_string());
        }
        Err(_) => {
            c.count("newton errors");
            // a near start with default limits must converge
            if !hostile && !far && maxit >= 20 && div > 1.0 && kind != 2 && alpha == 1.0 {
                c.count("near starts not converged");
                let mut r = Vector::new(sys.n);
                sys.f(&mut r, &Vector::from(&x0));
                let inside = sys.q * 2.0 < 0.3;
                c.check(!inside, || format!("mildly nonlinear system not solved: {:?}", res));
            }
        }
    }
    // reuse gives the identical answer
    if c.rng.chance(0.3) && !hostile {
        let (res2, x2) = solve(&mut solver, c);
        c.check(res == res2 && x.as_data() == x2.as_data(), || format!("second solve differs: {:?} {:?}", res, res2));
    }
}

fn newton_faults(c: &mut Case) {
    let kind = c.rng.int(0, 3);
    let sys = Sys::new(c, 0);
    let k = c.rng.int(1, 3);
    let ls = c.rng.bool();
    c.input(format!("newton fault kind={} call={} n={} line_search={}", kind, k, sys.n, ls));
    let mut solver = NewtonSolver::new(sys.n).unwrap();
    solver.set_use_line_search(ls);
    let mut x = Vector::from(&sys.s.iter().map(|v| v + 0.7).collect::<Vec<_>>());
    let mut n = (0, 0);
    match kind {
        0 | 1 => {
            let res = solver.solve(
                &mut x,
                &mut n,
                |r, x, n: &mut (usize, usize)| {
                    n.0 += 1;
                    if kind == 0 && n.0 == k {
                        return Err("injected");
                    }
                    sys.f(r, x);
                    Ok(())
                },
                |jj, x, n| {
                    n.1 += 1;
                    if kind == 1 && n.1 == k {
                        return Err("injected");
                    }
                    sys.jac(jj, x);
                    Ok(())
                },
            );
            let reached = if kind == 0 { n.0 >= k } else { n.1 >= k };
            if reached {
                c.check(res == Err("injected"), || format!("expected the injected error, got {:?}", res));
                c.check(if kind == 0 { n.0 == k } else { n.1 == k }, || "callback called again after its error".to_string());
                c.count("injected newton errors");
            }
        }
        2 => {
            // singular Jacobian
            let res = solver.solve(
                &mut x,
                &mut n,
                |r, x, _| {
                    sys.f(r, x);
                    Ok(())
                },
                |jj, _, _| {
                    jj.fill(0.0);
                    Ok(())
                },
            );
            c.err("singular Jacobian", res);
        }
        _ => {
            let mut bad = Vector::new(sys.n + 1);
            let res = solver.solve(
                &mut bad,
                &mut n,
                |r, x, _| {
                    sys.f(r, x);
                    Ok(())
                },
                |jj, x, _| {
                    sys.jac(jj, x);
                    Ok(())
                },
            );
            c.err("wrong dimension", res);
            let which = c.rng.int(0, 3);
            let mut s = NewtonSolver::new(sys.n).unwrap();
            match which {
                0 => s.set_max_iterations(0),
                1 => s.set_tolerance(EPS),
                2 => s.set_divergent_tol(0.5),
                _ => s.set_initial_alpha(0.0),
            };
            let res = s.solve(
                &mut x,
                &mut n,
                |r, x, _| {
                    sys.f(r, x);
                    Ok(())
                },
                |jj, x, _| {
                    sys.jac(jj, x);
                    Ok(())
                },
            );
            c.err("invalid parameter", res);
            c.check(NewtonSolver::new(0).is_err(), || "ndim=0 accepted".to_string());
        }
    }
}

fn line_searches(c: &mut Case) {
    let x = c.rng.sym() * 3.0;
    let k = c.rng.mag(-2.0, 2.0).abs();
    let m = c.rng.sym() * 3.0;
    let kind = c.rng.int(0, 3);
    // the function may be undefined away from the current point
    let hole = if c.rng.chance(0.15) { c.rng.mag(-2.0, 1.0).abs() } else { f64::INFINITY };
    let x0 = x;
    let f = move |x: f64| match kind {
        _ if (x - x0).abs() > hole => f64::NAN,
        0 => k * (x - m) * (x - m),
        1 => k * (x - m).powi(4),
        2 => (x - m).cosh(),
        _ => k * (x - m).abs() + 0.1 * (3.0 * x).sin(),
    };
    let g = move |x: f64| match kind {
        0 => 2.0 * k * (x - m),
        1 => 4.0 * k * (x - m).powi(3),
        2 => (x - m).sinh(),
        _ => k * (x - m).signum() + 0.3 * (3.0 * x).cos(),
    };
    let p = c.rng.mag(-2.0, 2.0);
    let slope = g(x) * p;
    let mut ls = LineSearcher::new();
    if c.rng.bool() {
        ls.c1 = c.rng.f(1e-5, 0.4);
        ls.rho = c.rng.f(0.1, 0.9);
        ls.max_iterations = c.rng.int(1, 60);
        ls.min_alpha = c.rng.mag(-12.0, -1.0).abs();
    }
    let fail_at = if c.rng.chance(0.15) { c.rng.int(1, 4) } else { usize::MAX };
    c.input(format!("line search kind={} k={} m={} x={} p={} slope={} {:?} fail_at={} undefined beyond {}", kind, k, m, x, p, slope, ls, fail_at, hole));
    let mut trial: Vec<f64> = Vec::new();
    let fx = f(x);
    let res = ls.search(x, p, fx, slope, &mut trial, |x, t: &mut Vec<f64>| {
        t.push(x);
        if t.len() == fail_at { Err("injected") } else { Ok(f(x)) }
    });
    if !(slope < 0.0) {
        c.check(res.is_err() && trial.is_empty(), || format!("ascent direction accepted: {:?}", res));
        c.count("ascent directions refused");
        return;
    }
    if trial.len() >= fail_at {
        c.check(res == Err("injected") && trial.len() == fail_at, || format!("expected the injected error, got {:?}", res));
        c.count("injected line search errors");
        return;
    }
    // replay
    let mut a = 1.0;
    let mut expect = None;
    for i in 0..ls.max_iterations {
        if i > 0 && a < ls.min_alpha {
            break;
        }
        let fa = f(x + a * p);
        let margin = (fx + ls.c1 * a * slope - fa).abs() <= 1e-12 * (fx.abs() + fa.abs());
        if margin {
            c.count("line search ties skipped");
            return;
        }
        if fa <= fx + ls.c1 * a * slope {
            expect = Some((a, i + 1));
            break;
        }
        a *= ls.rho;
    }
    match (res, expect) {
        (Ok((al, n)), Some((a, k))) => {
            c.check(n == k && n == trial.len(), || format!("reported {} evaluations, performed {}, expected {}", n, trial.len(), k));
            c.close("step size", al, a, 1e-12 * a);
            if p.abs() > hole {
                c.count("line searches back into the domain");
            }
            c.count("line searches verified");
        }
        (Err(_), None) => c.count("line search failures"),
        (r, e) => c.fail(format!("line search returned {:?}, expected {:?}", r, e)),
    }
    if c.rng.chance(0.2) {
        let mut n = 0;
        let r1 = algo_default(x, p, fx, slope, &mut n, f);
        let r2 = LineSearcher::new().search(x, p, fx, slope, &mut 0, |x, _| Ok(f(x)));
        c.check(r1 == r2, || format!("default searches differ {:?} {:?}", r1, r2));
    }
}

fn algo_default<F: Fn(f64) -> f64>(x: f64, p: f64, fx: f64, slope: f64, n: &mut usize, f: F) -> Result<(f64, usize), StrError> {
    let a = algo::line_search(x, p, fx, slope, n, |x, n: &mut usize| {
        *n += 1;
        Ok(f(x))
    })?;
    let (b, k) = algo::line_search_with_stats(x, p, fx, slope, &mut 0, |x, _| Ok(f(x)))?;
    if a != b || k != *n {
        return Err("line_search and line_search_with_stats differ");
    }
    Ok((b, k))
}

fn line_search_params(c: &mut Case) {
    let mut ls = LineSearcher::new();
    let kind = c.rng.int(0, 4);
    let bad = *c.rng.pick(&[0.0, -1.0, 1.0, 2.0]);
    match kind {
        0 => ls.c1 = bad,
        1 => ls.rho = bad,
        2 => ls.min_alpha = bad,
        3 => ls.max_iterations = 0,
        _ => (),
    }
    c.input(format!("line search parameters {:?}", ls));
    let r = ls.search(1.0, -1.0, 1.0, -2.0, &mut 0, |x, _| Ok(x * x));
    if kind == 4 {
        c.check(r == Ok((1.0, 1)), || format!("default parameters {:?}", r));
    } else {
        c.err("invalid line search parameter", r);
    }
}

fn derivatives(c: &mut Case) {
    // smooth functions with analytic first and second derivatives
    let kind = c.rng.int(0, 4);
    let (a, w, p) = (c.rng.sym() + 1.5, c.rng.f(0.2, 3.0), c.rng.sym());
    let x = c.rng.f(-3.0, 3.0);
    let coef: Vec<f64> = (0..6).map(|_| c.rng.sym()).collect();
    let co = coef.clone();
    let f = move |x: f64| match kind {
        0 => a * (w * x + p).sin(),
        1 => a * (0.5 * w * x).exp(),
        2 => co.iter().rev().fold(0.0, |s, k| s * x + k),
        3 => a / (1.0 + w * x * x * 0.1),
        _ => a * x + p,
    };
    let (d1, d2) = match kind {
        0 => (a * w * (w * x + p).cos(), -a * w * w * (w * x + p).sin()),
        1 => (a * 0.5 * w * (0.5 * w * x).exp(), a * 0.25 * w * w * (0.5 * w * x).exp()),
        2 => (
            (1..6).rev().fold(0.0, |s, i| s * x + coef[i] * i as f64),
            (2..6).rev().fold(0.0, |s, i| s * x + coef[i] * (i * (i - 1)) as f64),
        ),
        3 => {
            let k = w * 0.1;
            let d = 1.0 + k * x * x;
            (-2.0 * a * k * x / (d * d), a * (8.0 * k * k * x * x / (d * d * d) - 2.0 * k / (d * d)))
        }
        _ => (a, 0.0),
    };
    c.input(format!("derivatives kind={} a={} w={} p={} x={} coef={:?}", kind, a, w, p, x, coef));
    // magnitude of the function over the stencils
    let mut scale = 0.0f64;
    let mut g = 0.0f64;
    for i in -8..=8 {
        let v = f(x + 1e-3 * i as f64);
        scale = scale.max(v.abs());
        g = g.max((v - f(x)).abs());
    }
    scale += d1.abs() * x.abs(); // rounding of the abscissae
    if kind == 2 {
        // rounding of the terms of the polynomial
        scale += 3.0 * coef.iter().rev().fold(0.0, |s, k: &f64| s * (x.abs() + 0.01) + k.abs());
    }
    let t5 = 1e-9 * (1.0 + scale) * (1.0 + w.powi(5));
    let tol1 = 40.0 * EPS * scale / 1e-3 + 1e-11;
    let tol2 = 400.0 * EPS * scale / 1e-6 + 1e-8;
    let mut n = 0usize;
    let mut call = |x: f64, n: &mut usize| -> Result<f64, StrError> {
        *n += 1;
        Ok(f(x))
    };
    if let Some(v) = c.ok("deriv1_central5", deriv1_central5(x, &mut n, &mut call)) {
        c.close("deriv1_central5", v, d1, t5);
    }
    if let Some(v) = c.ok("deriv1_forward7", deriv1_forward7(x, &mut n, &mut call)) {
        c.close("deriv1_forward7", v, d1, tol1);
    }
    if let Some(v) = c.ok("deriv1_backward7", deriv1_backward7(x, &mut n, &mut call)) {
        c.close("deriv1_backward7", v, d1, tol1);
    }
    if let Some(v) = c.ok("deriv2_central9", deriv2_central9(x, &mut n, &mut call)) {
        c.close("deriv2_central9", v, d2, tol2);
    }
    if let Some(v) = c.ok("deriv2_forward8", deriv2_forward8(x, &mut n, &mut call)) {
        c.close("deriv2_forward8", v, d2, tol2);
    }
    if let Some(v) = c.ok("deriv2_backward8", deriv2_backward8(x, &mut n, &mut call)) {
        c.close("deriv2_backward8", v, d2, tol2);
    }
    c.count("derivative points verified");
    // one-sided formulas stay on their side
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    let _ = deriv1_forward7(x, &mut 0, |v, _| {
        lo = lo.min(v);
        Ok(v)
    });
    let _ = deriv2_forward8(x, &mut 0, |v, _| {
        lo = lo.min(v);
        Ok(v)
    });
    let _ = deriv1_backward7(x, &mut 0, |v, _| {
        hi = hi.max(v);
        Ok(v)
    });
    let _ = deriv2_backward8(x, &mut 0, |v, _| {
        hi = hi.max(v);
        Ok(v)
    });
    c.check(lo >= x && hi <= x, || format!("one-sided stencil crosses the point: {} {}", lo, hi));
    // the assertions accept the right derivative and refuse wrong ones
    let off = *c.rng.pick(&[1.0, -1.0]) * c.rng.f(1e-3, 1.0);
    let accept = |r: Result<(), String>| r.is_ok();
    type Chk = fn(f64, f64, &mut usize, f64, &mut dyn FnMut(f64, &mut usize) -> Result<f64, StrError>);
    let list: [(&str, f64, Chk); 6] = [
        ("deriv1_approx_eq", d1, |d, x, n, t, f| deriv1_approx_eq(d, x, n, t, f)),
        ("deriv1_approx_eq_fw", d1, |d, x, n, t, f| deriv1_approx_eq_fw(d, x, n, t, f)),
        ("deriv1_approx_eq_bw", d1, |d, x, n, t, f| deriv1_approx_eq_bw(d, x, n, t, f)),
        ("deriv2_approx_eq", d2, |d, x, n, t, f| deriv2_approx_eq(d, x, n, t, f)),
        ("deriv2_approx_eq_fw", d2, |d, x, n, t, f| deriv2_approx_eq_fw(d, x, n, t, f)),
        ("deriv2_approx_eq_bw", d2, |d, x, n, t, f| deriv2_approx_eq_bw(d, x, n, t, f)),
    ];
    if c.rng.chance(0.1) {
        for (name, d, chk) in list {
            let tol = 1e-4 * (1.0 + scale);
            let off = off * (1.0 + scale);
            let good = accept(no_panic(|| chk(d, x, &mut 0, tol, &mut call)));
            c.check(good, || format!("{} refuses the right derivative", name));
            for bad in [d + off, f64::NAN, f64::INFINITY] {
                let good = accept(no_panic(|| chk(bad, x, &mut 0, tol, &mut call)));
                c.check(!good, || format!("{} accepts {} instead of {}", name, bad, d));
            }
            let e = accept(no_panic(|| chk(d, x, &mut 0, tol, &mut |_, _| Err("injected"))));
            c.check(!e, || format!("{} ignores the error of the function", name));
        }
        c.count("derivative assertions exercised");
    }
    // injected errors
    let k = c.rng.int(1, 4);
    let mut n = 0usize;
    let mut bad = |x: f64, n: &mut usize| -> Result<f64, StrError> {
        *n += 1;
        if *n == k { Err("injected") } else { Ok(x * x * x) }
    };
    let r = match c.rng.int(0, 5) {
        0 => deriv1_central5(x, &mut n, &mut bad),
        1 => deriv1_forward7(x, &mut n, &mut bad),
        2 => deriv1_backward7(x, &mut n, &mut bad),
        3 => deriv2_central9(x, &mut n, &mut bad),
        4 => deriv2_forward8(x, &mut n, &mut bad),
        _ => deriv2_backward8(x, &mut n, &mut bad),
    };
    c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
}

fn jacobians(c: &mut Case) {
    let kind = c.rng.int(0, 3);
    let sys = Sys::new(c, kind);
    let n = sys.n;
    let y: Vec<f64> = sys.s.iter().map(|s| s + c.rng.sym()).collect();
    let y = Vector::from(&y);
    let t = c.rng.sym() * 2.0;
    let alpha = c.rng.mag(-2.0, 2.0);
    c.input(format!("num_jacobian n={} kind={} s={:?} a={:?} q={} x={} y={:?} alpha={}", n, kind, sys.s, sys.a, sys.q, t, y.as_data(), alpha));
    let mut calls = 0usize;
    let jac = num_jacobian(n, t, &y, alpha, &mut calls, |f, x, y, n: &mut usize| {
        *n += 1;
        sys.f(f, y);
        for i in 0..f.dim() {
            f[i] = f[i] * (1.0 + x * x) + x;
        }
        Ok(())
    });
    let Some(jac) = c.ok("num_jacobian", jac) else { return };
    let mut want = Matrix::new(n, n);
    sys.jac(&mut want, &y);
    let scale = 1.0 + sys.s.iter().map(|v| v.abs()).fold(0.0, f64::max);
    for i in 0..n {
        for j in 0..n {
            let w = want.get(i, j) * (1.0 + t * t) * alpha;
            c.close("num_jacobian", jac.get(i, j), w, 1e-8 * scale * alpha.abs() * (1.0 + t * t));
        }
    }
    c.count("Jacobians verified");
    let k = c.rng.int(1, 4 * n * n);
    let r = num_jacobian(n, t, &y, alpha, &mut 0usize, |f, _, y, n: &mut usize| {
        *n += 1;
        sys.f(f, y);
        if *n == k { Err("injected") } else { Ok(()) }
    });
    c.check(matches!(r, Err("injected")), || "num_jacobian swallowed the error of the function".to_string());
}

fn fitting(c: &mut Case) {
    let n = if c.rng.chance(0.1) { 1 } else { c.rng.int(2, 30) };
    let zero = c.rng.bool();
    let wide = if c.rng.chance(0.2) { 30.0 } else { 3.0 };
    let (sx, sy) = (c.rng.mag(-wide, wide).abs(), c.rng.mag(-wide, wide).abs());
    let off = if c.rng.bool() { c.rng.sym() * 10.0 } else { 0.0 };
    let int = c.rng.chance(0.2);
    let exact = c.rng.chance(0.2);
    let (c0, m0) = (c.rng.sym(), c.rng.sym());
    let mut x: Vec<f64> = (0..n).map(|_| sx * (c.rng.sym() + off)).collect();
    let mut y: Vec<f64> = (0..n).map(|i| if exact { sy * c0 + m0 * x[i] } else { sy * c.rng.sym() }).collect();
    if int {
        x = (0..n).map(|_| c.rng.int(0, 40) as f64 - 20.0).collect();
        y = (0..n).map(|_| c.rng.int(0, 40) as f64 - 20.0).collect();
    }
    c.input(format!("linear_fitting x={:?} y={:?} pass_through_zero={}", x, y, zero));
    let r = linear_fitting(&x, &y, zero);
    if int {
        let xi: Vec<i64> = x.iter().map(|v| *v as i64).collect();
        let yi: Vec<i64> = y.iter().map(|v| *v as i64).collect();
        let ri = linear_fitting(&xi, &yi, zero);
        c.check(r == ri, || format!("integer data give {:?} instead of {:?}", ri, r));
    }
    let Some((cc, m)) = c.ok("linear_fitting", r) else { return };
    let nn = n as f64;
    let sxx: f64 = x.iter().map(|v| v * v).sum();
    let mean = x.iter().sum::<f64>() / nn;
    let var: f64 = x.iter().map(|v| (v - mean) * (v - mean)).sum();
    if !zero && n > 1 && var != 0.0 && var <= 1e-11 * sxx {
        c.count("skipped: abscissae too close");
        return;
    }
    if (zero && sxx == 0.0) || (!zero && var == 0.0) {
        c.check(cc == 0.0 && m == f64::INFINITY, || format!("vertical line: {:?}", (cc, m)));
        c.count("vertical lines");
        return;
    }
    // orthogonality of the residuals
    let ys: f64 = y.iter().map(|v| v.abs()).fold(0.0, f64::max) + (m * sx).abs() + cc.abs();
    if ys == 0.0 {
        c.count("fits of zero data"); // all coefficients are zero
        return;
    }
    let xs = x.iter().map(|v| v.abs()).fold(0.0, f64::max);
    let cond = if zero { 1.0 } else { (sxx / var).max(1.0) };
    let tol = 200.0 * EPS * nn * cond;
    let res: Vec<f64> = (0..n).map(|i| y[i] - cc - m * x[i]).collect();
    let g1: f64 = (0..n).map(|i| res[i] * x[i]).sum();
    c.close("fit: residual · x", g1 / (nn * xs * (ys + (m * xs).abs())), 0.0, tol);
    if zero {
        c.check(cc == 0.0, || format!("intercept {} with pass_through_zero", cc));
    } else {
        let g0: f64 = res.iter().sum();
        c.close("fit: residual sum", g0 / (nn * (ys + (m * xs).abs())), 0.0, tol);
    }
    c.count("fits verified");
    let bad = linear_fitting(&x, &y[..n - 1], zero);
    c.err("different lengths", bad);
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random nonlinear systems (n<=7) with known solutions solved by Newton's method with and without line search, the callbacks recording every point; residuals turning NaN; injected errors; scalar line searches replayed; derivative formulas and Jacobians against analytic ones; linear fits against the normal equations");
    let n = cx.n(8000, 120000);
    cx.run("newton", n, newton);
    cx.run("newton_faults", n / 4, newton_faults);
    cx.run("line_search", n, line_searches);
    cx.run("line_search_params", n / 20, line_search_params);
    cx.run("derivatives", n, derivatives);
    cx.run("jacobians", n / 2, jacobians);
    cx.run("fitting", n, fitting);
    cx.require("line searches back into the domain", 50);
    let n = n as u64;
    cx.require("newton converged", n / 4);
    cx.require("newton errors", n / 50);
    cx.require("line search steps verified", n / 4);
    cx.require("rejected trials verified", n / 100);
    cx.require("divergence reported", n / 400);
    cx.require("injected newton errors", n / 50);
    cx.require("line searches verified", n / 10);
    cx.require("line search failures", 10);
    cx.require("derivative points verified", n / 2);
    cx.require("derivative assertions exercised", n / 50);
    cx.require("Jacobians verified", n / 4);
    cx.require("fits verified", n / 2);
}
