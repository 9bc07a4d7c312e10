use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::*;

/// Smooth test function with a known antiderivative
#[derive(Clone, Debug)]
enum Fun {
    Poly(Vec<f64>),
    Exp(f64, f64),
    Sin(f64, f64, f64),
    Lorentz(f64, f64),
    Gauss(f64, f64),
    Mixed(f64, f64),
    Log(f64),
}

impl Fun {
    fn f(&self, x: f64) -> f64 {
        match self {
            Fun::Poly(c) => c.iter().rev().fold(0.0, |s, k| s * x + k),
            Fun::Exp(a, b) => a * (b * x).exp(),
            Fun::Sin(a, w, p) => a * (w * x + p).sin(),
            Fun::Lorentz(m, w) => 1.0 / (1.0 + ((x - m) / w).powi(2)),
            Fun::Gauss(m, w) => (-((x - m) / w).powi(2)).exp(),
            Fun::Mixed(a, w) => a + x * (w * x).cos(),
            Fun::Log(s) => (x * x + s * s).ln(),
        }
    }
    fn int(&self, a: f64, b: f64) -> f64 {
        match self {
            Fun::Poly(c) => {
                let p = |x: f64| c.iter().enumerate().rev().fold(0.0, |s, (i, k)| s * x + k / (i as f64 + 1.0)) * x;
                p(b) - p(a)
            }
            Fun::Exp(k, r) => k / r * (r * a).exp() * (r * (b - a)).exp_m1(),
            Fun::Sin(k, w, p) => -2.0 * k / w * (w * (a + b) / 2.0 + p).sin() * (-w * (b - a) / 2.0).sin(),
            Fun::Lorentz(m, w) => w * (((b - m) / w).atan() - ((a - m) / w).atan()),
            Fun::Gauss(m, w) => w * f64::sqrt(std::f64::consts::PI) / 2.0 * (russell_lab::math::erf((b - m) / w) - russell_lab::math::erf((a - m) / w)),
            Fun::Mixed(k, w) => {
                let g = |x: f64| k * x + x * (w * x).sin() / w + (w * x).cos() / (w * w);
                g(b) - g(a)
            }
            Fun::Log(s) => {
                let g = |x: f64| x * (x * x + s * s).ln() - 2.0 * x + 2.0 * s * (x / s).atan();
                g(b) - g(a)
            }
        }
    }
    /// magnitude of the terms in the antiderivative (rounding of the reference)
    fn scale(&self, a: f64, b: f64) -> f64 {
        let m = a.abs().max(b.abs());
        match self {
            Fun::Poly(c) => c.iter().enumerate().map(|(i, k)| k.abs() * m.powi(i as i32 + 1)).sum::<f64>(),
            Fun::Mixed(k, w) => k.abs() * m + m / w.abs() + 1.0 / (w * w),
            Fun::Log(s) => m * ((m * m + s * s).ln().abs() + 2.0) + 4.0 * s.abs(),
            Fun::Lorentz(_, w) | Fun::Gauss(_, w) => 4.0 * w.abs(),
            _ => 0.0,
        }
    }
}

fn any_fun(c: &mut Case, a: f64, b: f64) -> Fun {
    let l = (b - a).abs();
    let mid = a.min(b) + l * c.rng.unit();
    match c.rng.int(0, 7) {
        0 | 1 => {
            let d = c.rng.int(0, 12);
            Fun::Poly((0..=d).map(|_| c.rng.sym()).collect())
        }
        2 => Fun::Exp(c.rng.sym() + 2.0, c.rng.mag(-0.5, 0.5) * 3.0 / l.max(1.0)),
        3 => Fun::Sin(c.rng.sym() + 2.0, c.rng.f(0.5, 40.0) / l, c.rng.f(0.0, 6.0)),
        4 => Fun::Lorentz(mid, l * c.rng.f(0.06, 2.0)),
        5 => Fun::Gauss(mid, l * c.rng.f(0.15, 2.0)),
        6 => Fun::Mixed(c.rng.sym(), c.rng.f(0.5, 20.0) / l),
        _ => Fun::Log(0.1 * l + c.rng.f(0.2, 2.0)),
    }
}

/// Integral of |f| by the midpoint rule
fn area(f: &Fun, a: f64, b: f64) -> f64 {
    let n = 400;
    let h = (b - a).abs() / n as f64;
    (0..n).map(|i| f.f(a.min(b) + h * (i as f64 + 0.5)).abs() * h).sum()
}

fn bounds(c: &mut Case) -> (f64, f64) {
    match c.rng.int(0, 5) {
        0 => (c.rng.sym(), c.rng.sym() + 2.5),
        1 => (c.rng.f(-20.0, 20.0), c.rng.f(-20.0, 20.0)),
        2 => (0.0, c.rng.mag(-3.0, 1.5)),
        3 => {
            let a = c.rng.f(1.0, 10.0);
            (a, a + c.rng.mag(-6.0, -1.0))
        }
        4 => {
            let a = c.rng.f(-10.0, -1.0);
            (a, a * (1.0 + c.rng.f(0.0001, 0.2)))
        }
        _ => {
            let a = c.rng.f(0.1, 5.0);
            (-a, a)
        }
    }
}

fn integrate(c: &mut Case) {
    let (a, b) = bounds(c);
    if (b - a).abs() < 1e-9 {
        return;
    }
    let f = any_fun(c, a, b);
    let n_gauss = *c.rng.pick(&[6, 8, 10, 12, 14]);
    // the error estimates of the low orders are fooled by one narrow peak in 1e4 or 1e5
    let l = (b - a).abs() * match n_gauss {
        6 => 0.4,
        8 => 0.15,
        _ => 0.0,
    };
    let f = match f {
        Fun::Lorentz(m, w) => Fun::Lorentz(m, w.max(l)),
        Fun::Gauss(m, w) => Fun::Gauss(m, w.max(l)),
        Fun::Log(s) => Fun::Log(s.max(l)),
        f => f,
    };
    let tol: f64 = *c.rng.pick(&[1e-4, 1e-6, 1e-8, 1e-10, 1e-12]);
    // the abscissae of a short interval far from the origin are rounded
    let tol = tol.max(1e4 * EPS * a.abs().max(b.abs()) / (b - a).abs());
    c.input(format!("integrate [{}, {}] {:?} n_gauss={} tol={:e}", a, b, f, n_gauss, tol));
    let mut quad = Quadrature::new();
    quad.n_gauss = n_gauss;
    quad.tolerance = tol;
    quad.n_iteration_max = 5000;
    quad.set_enable_stats(true);
    let (lo, hi) = (a.min(b), a.max(b));
    let run = |quad: &mut Quadrature, a: f64, b: f64, c: &mut Case| -> Option<f64> {
        let mut calls = 0usize;
        let mut outside = 0usize;
        let r = quad.integrate(a, b, &mut calls, |x, n: &mut usize| {
            *n += 1;
            if !(x >= lo - 1e-12 * (1.0 + lo.abs()) && x <= hi + 1e-12 * (1.0 + hi.abs())) {
                outside += 1;
            }
            Ok(f.f(x))
        });
        c.check(outside == 0, || format!("{} evaluations outside the interval", outside));
        let st = quad.get_stats().unwrap();
        let (nf, ni) = (st.get_n_function(), st.get_n_iterations());
        c.check(nf == calls, || format!("reported {} evaluations, performed {}", nf, calls));
        c.check(ni >= 1 && ni <= 5000, || format!("reported {} iterations", ni));
        if calls > 3000 {
            c.count("hard integrands");
        }
        c.count_n("integrand evaluations", calls);
        c.ok("integrate", r)
    };
    let ar = area(&f, a, b) + (b - a).abs() * 1e-300;
    let round = 50.0 * EPS * (f.scale(a, b) + ar);
    let want = f.int(a, b);
    let Some(got) = run(&mut quad, a, b, c) else { return };
    let limit = tol * ar * if n_gauss == 6 { 30.0 } else { 2.0 } + round;
    c.close("integral", got, want, limit);
    c.count("integrals verified");
    // reversed and repeated on the same object
    if let Some(rev) = run(&mut quad, b, a, c) {
        c.close("reversed integral", rev, -want, limit);
    }
    if let Some(again) = run(&mut quad, a, b, c) {
        c.check(again == got, || format!("second evaluation on the same object differs: {} {}", got, again));
    }
    // additivity
    let m = a + (b - a) * c.rng.f(0.05, 0.95);
    if (m - a).abs() > 1e-9 && (b - m).abs() > 1e-9 {
        if let (Some(i1), Some(i2)) = (run(&mut quad, a, m, c), run(&mut quad, m, b, c)) {
            c.close("additivity", i1 + i2, got, 2.0 * limit);
        }
    }
}

/// The Gauss rules are exact for polynomials of degree 2n-1 whatever the tolerance
fn exact(c: &mut Case) {
    let n_gauss = *c.rng.pick(&[6, 8, 10, 12, 14]);
    let deg = c.rng.int(0, 2 * n_gauss - 1);
    let (a, b) = (c.rng.f(-1.2, 0.9), c.rng.f(-0.9, 1.2));
    if (b - a).abs() < 0.1 {
        return;
    }
    let k: Vec<f64> = (0..=deg).map(|_| c.rng.sym()).collect();
    let f = Fun::Poly(k);
    let tol = *c.rng.pick(&[1e-2, 1e-6, 1e-10]);
    c.input(format!("polynomial exactness n_gauss={} degree={} [{}, {}] tol={:e} {:?}", n_gauss, deg, a, b, tol, f));
    let mut quad = Quadrature::new();
    quad.n_gauss = n_gauss;
    quad.tolerance = tol;
    if let Some(got) = c.ok("integrate", quad.integrate(a, b, &mut 0, |x, _| Ok(f.f(x)))) {
        c.close("polynomial exactness", got, f.int(a, b), 60.0 * EPS * f.scale(a, b));
        c.count("polynomial exactness cases");
    }
}

fn faults(c: &mut Case) {
    let kind = c.rng.int(0, 5);
    let n_gauss = *c.rng.pick(&[6, 8, 10, 12, 14]);
    let mut quad = Quadrature::new();
    quad.n_gauss = n_gauss;
    match kind {
        0 => {
            // the integrand fails at a chosen call
            let k = c.rng.int(1, 4 * n_gauss);
            c.input(format!("integrand fails at call {} n_gauss={}", k, n_gauss));
            let mut calls = 0;
            // oscillating: needs refinement, thus many calls
            let r = quad.integrate(0.0, 10.0, &mut calls, |x, n: &mut usize| {
                *n += 1;
                if *n == k { Err("injected") } else { Ok((9.0 * x).sin()) }
            });
            c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
            c.check(calls == k, || format!("integrand was called {} times although call {} failed", calls, k));
            c.count("injected errors");
            // the object is usable afterwards
            if let Some(v) = c.ok("integrate after an error", quad.integrate(0.0, 1.0, &mut 0, |x, _| Ok(x))) {
                c.close("after error", v, 0.5, 1e-14);
            }
        }
        1 => {
            let a = c.rng.f(-10.0, 10.0);
            c.input(format!("zero-length interval at {}", a));
            c.err("zero-length interval", quad.integrate(a, a, &mut 0, |_, _| Ok(1.0)));
        }
        2 => {
            // bounds so close that no subdivision is possible
            let a = c.rng.mag(2.0, 9.0);
            let ulps = c.rng.int(1, 60);
            let mut b = a;
            for _ in 0..ulps {
                b = f64::from_bits(b.to_bits() + 1);
            }
            c.input(format!("bounds {} ulps apart at {}", ulps, a));
            let r = no_panic(|| quad.integrate(a, b, &mut 0, |_, _| Ok(1.0)));
            match r {
                Ok(Ok(v)) => {
                    c.close("close bounds", v, b - a, 1e-9 * (b - a).abs());
                }
                Ok(Err(_)) => c.count("close bounds refused"),
                Err(p) => c.fail(format!("panic with close bounds: {}", p)),
            }
        }
        3 => {
            let n = c.rng.int(0, 30);
            c.input(format!("n_gauss = {}", n));
            quad.n_gauss = n;
            let r = quad.integrate(0.0, 1.0, &mut 0, |x, _| Ok(x));
            let ok = matches!(n, 6 | 8 | 10 | 12 | 14);
            c.check(r.is_ok() == ok, || format!("n_gauss={} gives {:?}", n, r));
        }
        4 => {
            c.input("invalid tolerance and iteration limit".to_string());
            quad.tolerance = EPS;
            c.err("tiny tolerance", quad.integrate(0.0, 1.0, &mut 0, |x, _| Ok(x)));
            quad.tolerance = 1e-8;
            quad.n_iteration_max = c.rng.int(0, 1);
            c.err("n_iteration_max < 2", quad.integrate(0.0, 1.0, &mut 0, |x, _| Ok(x)));
        }
        _ => {
            // too few iterations: error, never a wrong value
            let lim = c.rng.int(2, 40);
            let w = c.rng.f(5.0, 60.0);
            c.input(format!("iteration limit {} frequency {}", lim, w));
            quad.n_iteration_max = lim;
            quad.set_enable_stats(true);
            let mut calls = 0;
            let r = quad.integrate(0.0, 10.0, &mut calls, |x, n: &mut usize| {
                *n += 1;
                Ok(1.0 + (w * x).sin())
            });
            match r {
                Ok(v) => {
                    c.close("limited iterations", v, 10.0 + (1.0 - (w * 10.0).cos()) / w, 1e-8);
                }
                Err(_) => c.count("iteration limit reached"),
            }
            let st = quad.get_stats().unwrap();
            c.check(st.get_n_iterations() <= lim, || format!("{} iterations > {}", st.get_n_iterations(), lim));
            c.check(st.get_n_function() == calls, || format!("reported {} evaluations, performed {}", st.get_n_function(), calls));
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("smooth integrands with known antiderivatives over random intervals, tolerances 1e-4..1e-12 and all Gauss orders; the integrand counts its calls; injected integrand errors; bounds a few ulps apart");
    let n = cx.n(20000, 200000);
    cx.run("integrate", n, integrate);
    cx.run("exact", n, exact);
    cx.run("faults", n, faults);
    cx.require("integrals verified", n as u64 / 2);
    cx.require("polynomial exactness cases", n as u64 / 2);
    cx.require("injected errors", n as u64 / 20);
    cx.require("close bounds refused", 10);
    cx.require("iteration limit reached", 10);
}
