use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::*;

/// Chebyshev polynomial by its recurrence
fn tn(n: usize, z: f64) -> f64 {
    let (mut a, mut b) = (1.0, z);
    if n == 0 {
        return 1.0;
    }
    for _ in 1..n {
        let t = 2.0 * z * b - a;
        a = b;
        b = t;
    }
    b
}

fn series(coef: &[f64], z: f64) -> f64 {
    coef.iter().enumerate().map(|(k, c)| c * tn(k, z)).sum()
}

fn range(c: &mut Case) -> (f64, f64) {
    let xa = c.rng.sym() * *c.rng.pick(&[1.0, 1.0, 50.0]);
    match c.rng.int(0, 3) {
        0 => (-1.0, 1.0),
        1 => (0.0, c.rng.f(0.5, 20.0)),
        2 => (xa, xa + c.rng.f(0.1, 3.0)),
        _ => (xa, xa + c.rng.mag(-2.0, 2.0).abs()),
    }
}

/// The interpolant of degree nn reproduces a polynomial of the same or lower degree
fn verify(c: &mut Case, it: &InterpChebyshev, coef: &[f64], nn: usize, xa: f64, xb: f64) {
    let scale = coef.iter().map(|v| v.abs()).sum::<f64>() + 1e-300;
    // sensitivity with respect to rounding of the coordinate: |T_n'| <= n²
    let cond = 1.0 + (nn * nn) as f64 * (1.0 + (xa.abs() + xb.abs()) / (xb - xa));
    let tol = 30.0 * EPS * scale * (cond + 10.0 * (nn + 1) as f64);
    c.check(it.is_ready() && it.get_degree() == nn, || format!("degree {} instead of {}", it.get_degree(), nn));
    for i in 0..8 {
        let z = match i {
            0 => -1.0,
            1 => 1.0,
            _ => c.rng.sym(),
        };
        let x = if i == 0 { xa } else if i == 1 { xb } else { (xa + xb + (xb - xa) * z) / 2.0 };
        let want = series(coef, z);
        if let Some(v) = c.ok("eval", it.eval(x)) {
            c.close("interpolant", v, want, tol);
        }
        if let Some(v) = c.ok("eval_using_trig", it.eval_using_trig(x)) {
            c.close("interpolant (trigonometric)", v, want, tol);
        }
    }
    // expansion coefficients (only the first nn+1 are meaningful)
    let a = it.get_coefficients();
    for k in 0..=nn {
        let w = if k < coef.len() { coef[k] } else { 0.0 };
        c.close("expansion coefficient", a[k], w, tol);
    }
    // data at grid points
    if let Some((xx, yy)) = c.ok("get_xy_data", it.get_xy_data()) {
        c.check(xx.dim() == nn + 1 && yy.dim() == nn + 1, || format!("data has {} points", xx.dim()));
        for j in 0..xx.dim() {
            if nn > 0 {
                let w = (xa + xb - (xb - xa) * (std::f64::consts::PI * j as f64 / nn as f64).cos()) / 2.0;
                c.close("grid point", xx[j], w, 20.0 * EPS * (xa.abs() + xb.abs()));
            }
            if let Some(v) = c.ok("eval", it.eval(xx[j])) {
                c.close("value at grid point", v, yy[j], tol);
            }
        }
    }
    c.count("interpolants verified");
}

/// Sequence of re-settings on the same object
fn sequence(c: &mut Case) {
    let (xa, xb) = range(c);
    let nmax = c.rng.int(1, 40);
    let steps = c.rng.int(1, 6);
    let Some(mut it) = c.ok("new", InterpChebyshev::new(nmax, xa, xb)) else { return };
    let mut desc = format!("sequence nn_max={} [{}, {}]:", nmax, xa, xb);
    c.err("eval before data", it.eval(xa));
    c.err("trig before data", it.eval_using_trig(xa));
    c.err("get_xy_data before data", it.get_xy_data());
    for _ in 0..steps {
        let nn = if c.rng.chance(0.15) { 0 } else { c.rng.int(0, nmax) };
        let deg = if c.rng.bool() { nn } else { c.rng.int(0, nn) };
        let coef: Vec<f64> = (0..=deg).map(|_| c.rng.sym() * 3.0).collect();
        let f = |x: f64| series(&coef, ((2.0 * x - xa - xb) / (xb - xa)).clamp(-1.0, 1.0));
        let op = c.rng.int(0, 5);
        match op {
            0 | 1 => {
                desc.push_str(&format!(" set_function({}) deg {};", nn, deg));
                c.input(desc.clone());
                let mut n = 0usize;
                let r = it.set_function(nn, &mut n, |x, n: &mut usize| {
                    *n += 1;
                    Ok(f(x))
                });
                if c.ok("set_function", r).is_some() {
                    c.check(n == nn + 1, || format!("{} evaluations for degree {}", n, nn));
                    verify(c, &it, &coef, nn, xa, xb);
                }
            }
            2 => {
                desc.push_str(&format!(" set_data({}) deg {};", nn, deg));
                c.input(desc.clone());
                let z = InterpChebyshev::points(nn);
                let uu: Vec<f64> = if nn == 0 { vec![coef[0]] } else { z.as_data().iter().map(|z| series(&coef, *z)).collect() };
                if c.ok("set_data", it.set_data(&uu)).is_some() {
                    verify(c, &it, &coef, nn, xa, xb);
                }
            }
            3 => {
                // linear data on an arbitrary grid
                if nn == 0 {
                    continue;
                }
                desc.push_str(&format!(" set_gen_data({});", nn));
                c.input(desc.clone());
                let mut xx: Vec<f64> = (0..=nn).map(|_| xa + (xb - xa) * c.rng.unit()).collect();
                xx[0] = xa;
                xx[nn] = xb;
                xx.sort_by(|a, b| a.partial_cmp(b).unwrap());
                xx.dedup();
                if xx.len() != nn + 1 {
                    continue;
                }
                let coef = [c.rng.sym(), c.rng.sym()];
                let yy: Vec<f64> = xx.iter().map(|x| coef[0] + coef[1] * (2.0 * x - xa - xb) / (xb - xa)).collect();
                if c.ok("set_gen_data", it.set_gen_data(&xx, &yy)).is_some() {
                    verify(c, &it, &coef, nn, xa, xb);
                }
                // piecewise linear data: the values at the grid points are the interpolated ones
                let yy: Vec<f64> = xx.iter().map(|_| c.rng.sym()).collect();
                if c.ok("set_gen_data", it.set_gen_data(&xx, &yy)).is_some() {
                    if let Some((gx, gy)) = c.ok("get_xy_data", it.get_xy_data()) {
                        for j in 0..=nn {
                            let x = gx[j].clamp(xa, xb);
                            let k = xx.iter().position(|v| x <= *v).unwrap_or(nn).max(1);
                            let w = yy[k - 1] + (yy[k] - yy[k - 1]) * (x - xx[k - 1]) / (xx[k] - xx[k - 1]);
                            let cond = (xa.abs() + xb.abs()) / (xx[k] - xx[k - 1]);
                            if cond < 1e6 {
                                c.close("linear interpolation of data", gy[j], w, 100.0 * EPS * (1.0 + cond));
                            }
                        }
                        c.count("general data verified");
                    }
                }
            }
            4 => {
                // failing function: afterwards not usable, no panic
                let k = c.rng.int(1, nn + 1);
                let adapt = c.rng.bool();
                desc.push_str(&format!(" failing at {} (adapt={});", k, adapt));
                c.input(desc.clone());
                let mut n = 0usize;
                let g = |x: f64, n: &mut usize| -> Result<f64, StrError> {
                    *n += 1;
                    if *n == k { Err("injected") } else { Ok(x) }
                };
                let r = if adapt { it.adapt_function(1e-8, &mut n, g) } else { it.set_function(nn, &mut n, g) };
                if n >= k {
                    c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
                    c.check(n == k, || "function called again after its error".to_string());
                    c.err("eval after failure", it.eval(xa));
                    c.count("injected errors");
                }
            }
            _ => {
                desc.push_str(" invalid;");
                c.input(desc.clone());
                c.err("degree too large", it.set_function(nmax + 3, &mut 0, |x, _| Ok(x)));
                c.err("no data", it.set_data(&[]));
                c.err("too many data", it.set_data(&vec![0.0; nmax + 4]));
                c.err("data off the range", it.set_gen_data(&[xa + 0.01, xb], &[0.0, 1.0]));
                c.err("data off the range", it.set_gen_data(&[xa, xb - 0.01], &[0.0, 1.0]));
                c.err("lengths", it.set_gen_data(&[xa, xb], &[0.0]));
                c.err("empty", it.set_gen_data(&[], &[]));
            }
        }
    }
}

fn adaptive(c: &mut Case) {
    let (xa, xb) = range(c);
    let nmax = c.rng.int(4, 60);
    // the ratio prevents the aliased coefficients from cancelling each other
    let rho = c.rng.f(0.05, 0.6);
    let tol = *c.rng.pick(&[1e-3, 1e-6, 1e-8, 1e-10]);
    let amp = c.rng.mag(-1.0, 2.0).abs();
    let even = c.rng.int(0, 2); // 0: full, 1: even, 2: odd
    let deg = c.rng.int(0, 40);
    // geometric coefficients
    let coef: Vec<f64> = (0..=deg)
        .map(|k| if even == 1 && k % 2 == 1 || even == 2 && k % 2 == 0 { 0.0 } else { amp * rho.powi(k as i32) * c.rng.f(0.7, 1.0) * if c.rng.bool() { 1.0 } else { -1.0 } })
        .collect();
    let by_data = c.rng.chance(0.4) && deg > 0 && deg <= nmax;
    c.input(format!("adaptive [{}, {}] nn_max={} tol={:e} by_data={} coef={:?}", xa, xb, nmax, tol, by_data, coef));
    let Some(mut it) = c.ok("new", InterpChebyshev::new(nmax, xa, xb)) else { return };
    if c.rng.bool() {
        c.ok("set_function", it.set_function(nmax, &mut 0, |x, _| Ok(x.cos() + 3.0)));
    }
    let f = |x: f64| series(&coef, ((2.0 * x - xa - xb) / (xb - xa)).clamp(-1.0, 1.0));
    let r = if by_data {
        let z = InterpChebyshev::points(deg);
        let uu: Vec<f64> = z.as_data().iter().map(|z| series(&coef, *z)).collect();
        it.adapt_data(tol, &uu)
    } else {
        it.adapt_function(tol, &mut 0, |x, _| Ok(f(x)))
    };
    let scale: f64 = coef.iter().map(|v| v.abs()).sum();
    match r {
        Ok(()) => {
            let nn = it.get_degree();
            c.check(nn <= nmax, || format!("degree {} > {}", nn, nmax));
            let mut err = 0.0f64;
            for i in 0..=60 {
                let x = xa + (xb - xa) * i as f64 / 60.0;
                let (Ok(v), Ok(t)) = (it.eval(x), it.eval_using_trig(x)) else {
                    c.fail("eval failed after adaptation".to_string());
                    return;
                };
                err = err.max((v - f(x)).abs()).max((t - f(x)).abs());
            }
            let round = 300.0 * EPS * scale * (1.0 + (xa.abs() + xb.abs()) / (xb - xa)) * (1 + deg) as f64;
            c.close("adaptive interpolation error", err, 0.0, 12.0 * tol / (1.0 - rho) + round);
            c.count("adaptive interpolations");
            // the reported error is the true one
            if let Some(e) = c.ok("estimate_max_error", it.estimate_max_error(61, &mut 0, |x, _| Ok(f(x)))) {
                c.close("estimated error", e, err, 1e-6 * err + 10.0 * round);
            }
            // minimal: one degree less than needed would not pass
            let needed = coef.iter().rposition(|v| v.abs() > 3.0 * tol / (1.0 - rho)).unwrap_or(0);
            c.check(nn >= needed, || format!("degree {} although the coefficient {} is {:e}", nn, needed, coef[needed]));
        }
        Err(_) => {
            // legitimate only if the series is not small at the end
            let tail = coef.iter().skip(nmax.saturating_sub(2)).map(|v| v.abs()).fold(0.0, f64::max);
            c.check(tail >= 0.1 * tol, || format!("adaptation failed although the series ends before degree {}", nmax));
            c.err("eval after failed adaptation", it.eval(xa));
            c.count("adaptation failures");
        }
    }
}

fn faults(c: &mut Case) {
    let xa = c.rng.sym();
    let d = *c.rng.pick(&[0.0, -1.0, 1e-6, 9e-6]);
    c.input(format!("invalid range xa={} length={}", xa, d));
    c.check(InterpChebyshev::new(3, xa, xa + d).is_err(), || "empty range accepted".to_string());
    // error at every possible call of the adaptive interpolation
    let k = c.rng.int(1, 60);
    let mut it = InterpChebyshev::new(20, 0.0, 1.0).unwrap();
    let mut n = 0usize;
    let r = no_panic(|| {
        it.adapt_function(1e-6, &mut n, |x, n: &mut usize| {
            *n += 1;
            if *n == k { Err("injected") } else { Ok(x * x) }
        })
    });
    match r {
        Ok(r) => {
            if n >= k {
                c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
                c.count("injected adaptive errors");
            } else {
                c.check(r.is_ok(), || format!("{:?}", r));
            }
        }
        Err(p) => c.fail(format!("panic when the function fails at call {}: {}", k, p)),
    }
    c.err("no data", it.adapt_data(1e-6, &[]));
    c.err("too many data", it.adapt_data(1e-6, &[0.0; 40]));
}

pub fn run(cx: &mut Ctx) {
    cx.rule("polynomials given by random Chebyshev series up to degree 40 on random ranges; sequences of re-settings (function, data, general data, failures) on one object; adaptive construction of geometric series; injected errors at every call");
    let n = cx.n(30000, 300000);
    cx.run("sequence", n, sequence);
    cx.run("adaptive", n, adaptive);
    cx.run("faults", n / 2, faults);
    let n = n as u64;
    cx.require("interpolants verified", n);
    cx.require("general data verified", n / 10);
    cx.require("adaptive interpolations", n / 3);
    cx.require("adaptation failures", n / 100);
    cx.require("injected errors", n / 10);
    cx.require("injected adaptive errors", n / 10);
}
