use harness::{Case, Ctx, EPS};
use russell_lab::*;

fn params(c: &mut Case) -> (InterpParams, usize, String) {
    let mut p = InterpParams::new();
    let g = c.rng.int(0, 2);
    p.grid_type = [InterpGrid::Uniform, InterpGrid::ChebyshevGauss, InterpGrid::ChebyshevGaussLobatto][g];
    p.no_eta_normalization = c.rng.bool();
    // the Lebesgue constant of uniform grids grows exponentially
    let nn = if g == 0 { c.rng.int(1, 12) } else { *c.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 11, 16, 23, 32]) };
    if c.rng.chance(0.4) {
        p.eta_cutoff = c.rng.int(0, nn); // forces the alternative normalization
    }
    p.lebesgue_estimate_nstation = 201;
    p.error_estimate_nstation = 41;
    let d = format!("grid={:?} nn={} no_eta={} cutoff={}", p.grid_type, nn, p.no_eta_normalization, p.eta_cutoff);
    (p, nn, d)
}

/// Value, first and second derivatives of a Chebyshev series (recurrences)
fn series(coef: &[f64], x: f64) -> (f64, f64, f64) {
    let n = coef.len();
    let mut t = vec![(1.0, 0.0, 0.0); n.max(2)];
    t[1] = (x, 1.0, 0.0);
    for k in 2..n {
        let (a, b) = (t[k - 1], t[k - 2]);
        t[k] = (2.0 * x * a.0 - b.0, 2.0 * a.0 + 2.0 * x * a.1 - b.1, 4.0 * a.1 + 2.0 * x * a.2 - b.2);
    }
    (0..n).fold((0.0, 0.0, 0.0), |s, k| (s.0 + coef[k] * t[k].0, s.1 + coef[k] * t[k].1, s.2 + coef[k] * t[k].2))
}

fn exactness(c: &mut Case) {
    let (p, nn, d) = params(c);
    let deg = if c.rng.bool() { nn } else { c.rng.int(0, nn) };
    let coef: Vec<f64> = (0..=deg).map(|_| c.rng.sym()).collect();
    c.input(format!("{} degree={} coef={:?}", d, deg, coef));
    let Some(mut it) = c.ok("new", InterpLagrange::new(nn, Some(p))) else { return };
    let pts = it.get_points().clone();
    let np = nn + 1;
    c.check(pts.dim() == np && it.get_degree() == nn, || format!("{} points", pts.dim()));
    // the points
    for j in 0..np {
        let w = match p.grid_type {
            InterpGrid::Uniform => -1.0 + 2.0 * j as f64 / nn as f64,
            InterpGrid::ChebyshevGauss => -((2 * j + 1) as f64 * std::f64::consts::PI / (2 * nn + 2) as f64).cos(),
            InterpGrid::ChebyshevGaussLobatto => -(j as f64 * std::f64::consts::PI / nn as f64).cos(),
        };
        c.close("grid point", pts[j], w, 5.0 * EPS);
    }
    let uu = Vector::from(&pts.as_data().iter().map(|x| series(&coef, *x).0).collect::<Vec<_>>());
    let scale = coef.iter().map(|v| v.abs()).sum::<f64>() + 1e-300;
    // Lebesgue constant
    let leb = it.estimate_lebesgue_constant();
    c.check(leb >= 1.0 - 1e-12 && leb.is_finite(), || format!("Lebesgue constant {}", leb));
    if p.grid_type == InterpGrid::ChebyshevGaussLobatto || p.grid_type == InterpGrid::ChebyshevGauss {
        let bound = 2.0 / std::f64::consts::PI * ((np as f64).ln() + 0.963) + 0.4;
        c.check(leb <= bound, || format!("Lebesgue constant {} > {}", leb, bound));
    }
    let nf = nn as f64;
    let base = 200.0 * EPS * scale * leb * np as f64;
    // pointwise
    let mut xs = vec![-1.0, 1.0];
    for _ in 0..5 {
        xs.push(c.rng.sym());
    }
    let jn = c.rng.int(0, nn);
    xs.push(pts[jn]);
    xs.push((pts[jn] + 1e-5 * c.rng.sym()).clamp(-1.0, 1.0));
    xs.push((pts[jn] + EPS * c.rng.sym()).clamp(-1.0, 1.0));
    for x in xs {
        let (f, g, h) = series(&coef, x);
        let near = pts.as_data().iter().map(|p| (p - x).abs()).fold(f64::INFINITY, f64::min);
        // at nodes the formulas do not divide by x - Xj
        let dx = if near < 10.0 * EPS { 1.0 } else { near };
        let gap = nf * nf; // |p'| ≤ N² |p|, |p''| ≤ N⁴/3 |p|
        if let Some(v) = c.ok("eval", it.eval(x, &uu)) {
            c.close("interpolation", v, f, base * (1.0 + gap * EPS));
        }
        if dx > 1e-6 {
            if let Some(v) = c.ok("eval_deriv1", it.eval_deriv1(x, &uu)) {
                c.close("first derivative", v, g, base * (gap + 1.0 / dx));
            }
            if let Some(v) = c.ok("eval_deriv2", it.eval_deriv2(x, &uu)) {
                c.close("second derivative", v, h, base * (gap * gap + gap / dx + 1.0 / (dx * dx)));
            }
        }
        // cardinal functions: sum to one, reproduce
        let mut s = 0.0;
        let mut v = 0.0;
        for j in 0..np {
            if let Some(w) = c.ok("psi", it.psi(j, x)) {
                s += w;
                v += w * uu[j];
            }
        }
        c.close("sum of cardinal functions", s, 1.0, base / scale);
        c.close("cardinal expansion", v, f, base * (1.0 + gap * EPS));
        c.count("points verified");
    }
    for i in 0..np {
        for j in 0..np {
            if let Some(v) = c.ok("psi", it.psi(i, pts[j])) {
                c.close("cardinal property", v, if i == j { 1.0 } else { 0.0 }, 1e-13);
            }
        }
    }
    // derivative matrices
    c.err("D1 before its computation", it.get_dd1().map(|_| ()));
    c.err("D2 before its computation", it.get_dd2().map(|_| ()));
    if c.rng.bool() {
        it.calc_dd1_matrix();
    }
    it.calc_dd2_matrix();
    if c.rng.bool() {
        it.calc_dd1_matrix();
        it.calc_dd2_matrix();
    }
    let (Ok(d1), Ok(d2)) = (it.get_dd1(), it.get_dd2()) else {
        c.fail("derivative matrices not available".to_string());
        return;
    };
    let (mut m1, mut m2) = (0.0f64, 0.0f64);
    for i in 0..np {
        m1 = m1.max((0..np).map(|j| d1.get(i, j).abs()).sum());
        m2 = m2.max((0..np).map(|j| d2.get(i, j).abs()).sum());
    }
    let (t1, t2) = (60.0 * EPS * scale * (m1 + nf * nf) * (1.0 + nf), 60.0 * EPS * scale * (m2 + m1 * m1) * (1.0 + nf));
    for i in 0..np {
        let (_, g, h) = series(&coef, pts[i]);
        let g1: f64 = (0..np).map(|j| d1.get(i, j) * uu[j]).sum();
        let h1: f64 = (0..np).map(|j| d2.get(i, j) * uu[j]).sum();
        c.close("D1·U", g1, g, t1);
        c.close("D2·U", h1, h, t2);
        let s1: f64 = (0..np).map(|j| d1.get(i, j)).sum();
        let s2: f64 = (0..np).map(|j| d2.get(i, j)).sum();
        c.close("row sum of D1", s1, 0.0, 60.0 * EPS * m1 * np as f64);
        c.close("row sum of D2", s2, 0.0, 60.0 * EPS * m2 * np as f64);
    }
    c.count("derivative matrices verified");
    // error estimates: zero for polynomials
    let e = it.estimate_max_error(&mut 0, |x, _| Ok(series(&coef, x).0));
    if let Some(e) = c.ok("estimate_max_error", e) {
        c.close("estimated error of a polynomial", e, 0.0, base * (1.0 + nf * nf * EPS));
    }
    // error estimates of a function which is not a polynomial
    let w = c.rng.f(0.5, 3.0);
    let e = it.estimate_max_error(&mut 0, |x, _| Ok((w * x).sin()));
    let us = Vector::from(&pts.as_data().iter().map(|x| (w * x).sin()).collect::<Vec<_>>());
    let mut err = (0.0f64, 0.0f64, 0.0f64);
    let excl = c.rng.bool();
    for k in 0..41 {
        let x = (-1.0 + 2.0 * k as f64 / 40.0f64).clamp(-1.0, 1.0);
        let (a, b, d) = (it.eval(x, &us).unwrap(), it.eval_deriv1(x, &us).unwrap(), it.eval_deriv2(x, &us).unwrap());
        err.0 = err.0.max((a - (w * x).sin()).abs());
        if !(excl && (k == 0 || k == 40)) {
            err.1 = err.1.max((b - w * (w * x).cos()).abs());
            err.2 = err.2.max((d + w * w * (w * x).sin()).abs());
        }
    }
    if let Some(e) = c.ok("estimate_max_error", e) {
        c.close("estimated error", e, err.0, 1e-6 * err.0 + base / scale);
    }
    let e = it.estimate_max_error_all(excl, &mut 0, |x, _| Ok((w * x).sin()), |x, _| Ok(w * (w * x).cos()), |x, _| Ok(-w * w * (w * x).sin()));
    if let Some(e) = c.ok("estimate_max_error_all", e) {
        c.close("estimated error f", e.0, err.0, 1e-6 * err.0 + base / scale);
        // rounding of coordinates next to nodes dominates for very accurate interpolations
        if nn <= 8 && err.1 > 1e-6 {
            c.close("estimated error g", e.1, err.1, 1e-3 * err.1);
            c.close("estimated error h", e.2, err.2, 1e-3 * err.2 + 1e-5);
            c.count("error estimates verified");
        }
    }
}

fn faults(c: &mut Case) {
    let (p, nn, d) = params(c);
    c.input(format!("faults {}", d));
    let Some(it) = c.ok("new", InterpLagrange::new(nn, Some(p))) else { return };
    let uu = Vector::new(nn + 1);
    let bad = Vector::new(if c.rng.bool() { nn } else { nn + 2 });
    let x = *c.rng.pick(&[1.0 + 1e-12, -1.0 - 1e-12, 5.0, -2.0]);
    c.err("eval outside", it.eval(x, &uu));
    c.err("deriv1 outside", it.eval_deriv1(x, &uu));
    c.err("deriv2 outside", it.eval_deriv2(x, &uu));
    c.err("psi outside", it.psi(0, x));
    c.err("psi index", it.psi(nn + 1, 0.0));
    c.err("eval dimension", it.eval(0.1, &bad));
    c.err("deriv1 dimension", it.eval_deriv1(0.1, &bad));
    c.err("deriv2 dimension", it.eval_deriv2(0.1, &bad));
    c.check(InterpLagrange::new(0, Some(p)).is_err() && InterpLagrange::new(2049, Some(p)).is_err(), || "invalid degree accepted".to_string());
    let mut q = p;
    q.lebesgue_estimate_nstation = 1;
    c.check(InterpLagrange::new(3, Some(q)).is_err(), || "invalid parameter accepted".to_string());
    let mut q = p;
    q.error_estimate_nstation = 1;
    c.check(InterpLagrange::new(3, Some(q)).is_err(), || "invalid parameter accepted".to_string());
    // injected errors
    let k = c.rng.int(1, nn + 1 + 41);
    let r = it.estimate_max_error(&mut 0usize, |x, n: &mut usize| {
        *n += 1;
        if *n == k { Err("injected") } else { Ok(x) }
    });
    c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
    let which = c.rng.int(0, 2);
    let k = c.rng.int(1, 39);
    let mut n = 0;
    let mut cb = |me: usize| -> Result<f64, StrError> {
        if me == which {
            n += 1;
            if n == k {
                return Err("injected");
            }
        }
        Ok(0.5)
    };
    let cell = std::cell::RefCell::new(&mut cb);
    let r = it.estimate_max_error_all(true, &mut 0, |_, _| (cell.borrow_mut())(0), |_, _| (cell.borrow_mut())(1), |_, _| (cell.borrow_mut())(2));
    c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
    c.count("injected errors");
}

/// High degrees: both normalizations
fn high(c: &mut Case) {
    let nn = *c.rng.pick(&[64, 100, 256, 699, 701, 900]);
    let nn = if c.thorough { nn } else { nn.min(300) };
    let mut p = InterpParams::new();
    p.grid_type = if c.rng.bool() { InterpGrid::ChebyshevGauss } else { InterpGrid::ChebyshevGaussLobatto };
    p.eta_cutoff = *c.rng.pick(&[0, 50, 700, 1500]);
    if nn > 700 && p.eta_cutoff > 700 {
        p.eta_cutoff = 700;
    }
    let w = c.rng.f(1.0, 20.0);
    c.input(format!("high degree nn={} grid={:?} cutoff={} w={}", nn, p.grid_type, p.eta_cutoff, w));
    let Some(it) = c.ok("new", InterpLagrange::new(nn, Some(p))) else { return };
    let pts = it.get_points();
    let uu = Vector::from(&pts.as_data().iter().map(|x| (w * x).sin()).collect::<Vec<_>>());
    for _ in 0..5 {
        let x = c.rng.sym();
        if let Some(v) = c.ok("eval", it.eval(x, &uu)) {
            c.close("high-degree interpolation", v, (w * x).sin(), 1e-9);
        }
    }
    c.count("high degrees verified");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("all grids, normalizations and cutoffs; degrees 1..12 (uniform), 1..32 (Chebyshev), up to 900 for values; random polynomials up to the degree of the interpolant evaluated at ends, nodes, next to nodes and random points; injected errors");
    cx.assume("first and second derivatives are not judged closer than 1e-6 to a node (but judged at the node), where the formulas lose digits by cancellation");
    let n = cx.n(20000, 150000);
    cx.run("exactness", n, exactness);
    cx.run("faults", n / 2, faults);
    cx.run("high", n / 20, high);
    let n = n as u64;
    cx.require("points verified", 5 * n);
    cx.require("derivative matrices verified", n / 2);
    cx.require("error estimates verified", n / 10);
    cx.require("injected errors", n / 4);
    cx.require("high degrees verified", 20);
}
