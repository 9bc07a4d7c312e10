use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::algo::Bspline;
use russell_lab::*;

/// Cox-de Boor basis on the knots (reference): the last non-empty span is closed
fn basis(u: f64, knots: &[f64], i: usize, p: usize) -> f64 {
    let last = *knots.last().unwrap();
    if p == 0 {
        let end = u == last && knots[i] < last && knots[i + 1] == last;
        return if end || (u >= knots[i] && u < knots[i + 1]) { 1.0 } else { 0.0 };
    }
    let (d1, d2) = (knots[i + p] - knots[i], knots[i + p + 1] - knots[i + 1]);
    let mut v = 0.0;
    if d1 > 0.0 {
        v += (u - knots[i]) / d1 * basis(u, knots, i, p - 1);
    }
    if d2 > 0.0 {
        v += (knots[i + p + 1] - u) / d2 * basis(u, knots, i + 1, p - 1);
    }
    v
}

/// k-th derivative of a basis function by the recursion of the lower degree
fn dbasis(u: f64, knots: &[f64], i: usize, p: usize, k: usize) -> f64 {
    if k == 0 {
        return basis(u, knots, i, p);
    }
    if p == 0 {
        return 0.0;
    }
    let (d1, d2) = (knots[i + p] - knots[i], knots[i + p + 1] - knots[i + 1]);
    let mut v = 0.0;
    if d1 > 0.0 {
        v += p as f64 / d1 * dbasis(u, knots, i, p - 1, k - 1);
    }
    if d2 > 0.0 {
        v -= p as f64 / d2 * dbasis(u, knots, i + 1, p - 1, k - 1);
    }
    v
}

struct Sp {
    p: usize,
    knots: Vec<f64>,
    clamped: bool,
    hmin: f64,
}

fn spline(c: &mut Case) -> Sp {
    let p = c.rng.int(1, 5);
    let clamped = c.rng.chance(0.7);
    let scale = *c.rng.pick(&[1.0, 1.0, 10.0, 1000.0, 0.01, 1e-5, 1e-8, 1e6]);
    let start = *c.rng.pick(&[0.0, 0.0, -2.0, 5.0]) * scale;
    let mut knots = Vec::new();
    let mut u = start;
    let nspan = if c.rng.chance(0.03) { c.rng.int(7, 60) } else { c.rng.int(1, 6) };
    if clamped {
        for _ in 0..p {
            knots.push(u);
        }
    }
    let extra = if clamped { 0 } else { 2 * p };
    for s in 0..(nspan + extra) {
        knots.push(u);
        // repeated interior knots
        if s > p && c.rng.chance(0.25) {
            for _ in 0..c.rng.int(0, p - 1) {
                knots.push(u);
            }
        }
        u += scale * c.rng.f(0.1, 1.0);
    }
    knots.push(u);
    if clamped {
        for _ in 0..p {
            knots.push(u);
        }
    }
    let hmin = knots.windows(2).map(|w| w[1] - w[0]).filter(|d| *d > 0.0).fold(f64::INFINITY, f64::min);
    Sp { p, knots, clamped, hmin }
}

/// Parameter inside the domain where the basis sums to one
fn param(c: &mut Case, s: &Sp) -> f64 {
    let (a, b) = (s.knots[s.p], s.knots[s.knots.len() - 1 - s.p]);
    match c.rng.int(0, 5) {
        0 => a,
        1 => b,
        2 => {
            // a knot
            let inner: Vec<f64> = s.knots.iter().cloned().filter(|k| *k >= a && *k <= b).collect();
            *c.rng.pick(&inner)
        }
        _ => {
            // values within 1e-14 of the last knot count as the last knot
            let u = a + (b - a) * c.rng.unit();
            if s.knots[s.knots.len() - 1] - u < 1e-13 { a } else { u }
        }
    }
}

fn run_spline(c: &mut Case) {
    let s = spline(c);
    let (p, kn) = (s.p, &s.knots);
    if kn.len() < 2 * (p + 1) {
        return;
    }
    let nb = kn.len() - 1 - p;
    let Some(mut b) = c.ok("new", Bspline::new(p, kn)) else { return };
    c.check(b.num_basis() == nb, || format!("{} basis functions instead of {}", b.num_basis(), nb));
    let mut desc = format!("p={} knots={:?} clamped={}:", p, kn, s.clamped);
    c.input(desc.clone());
    let mut ndim = c.rng.int(1, 3);
    let mut pts: Vec<Vec<f64>> = Vec::new();
    c.err("point without control points", b.calc_point(&mut Vector::new(ndim), kn[p], false));
    // histories of calls on the same object
    for _ in 0..c.rng.int(2, 10) {
        let u = param(c, &s);
        let end = kn[kn.len() - 1 - p];
        // basis functions are right-continuous, except at the end of an unclamped domain
        let judge = s.clamped || u < end;
        let dscale = |k: usize| (2.0 * p as f64 / s.hmin).powi(k as i32);
        let rel = EPS * (kn.iter().fold(0.0f64, |m, v| m.max(v.abs())) / s.hmin + 1.0);
        let op = c.rng.int(0, 5);
        desc.push_str(&format!(" op{} u={};", op, u));
        c.input(desc.clone());
        match op {
            0 => {
                if c.ok("calc_basis", b.calc_basis(u)).is_none() {
                    return;
                }
                let mut sum = 0.0;
                let mut nz = 0;
                for i in 0..nb {
                    let v = b.get_basis(i);
                    c.check(v >= -1e-12, || format!("negative basis function N{}({}) = {}", i, u, v));
                    if v != 0.0 {
                        nz += 1;
                        let tol = 1e-13 * (kn[i].abs() + kn[i + p + 1].abs());
                        c.check(v.abs() < 1e-12 || (u >= kn[i] - tol && u <= kn[i + p + 1] + tol), || format!("N{} not local", i));
                    }
                    sum += v;
                    if judge {
                        c.close("basis function", v, basis(u, kn, i, p), 100.0 * rel);
                        let r = b.recursive_basis(u, i);
                        c.close("recursive basis function", r, basis(u, kn, i, p), 100.0 * rel);
                    }
                }
                c.check(nz <= p + 1, || format!("{} non-zero basis functions", nz));
                c.close("partition of unity", sum, 1.0, 100.0 * rel);
                c.count("bases verified");
            }
            1 => {
                let upto = c.rng.int(0, p);
                if c.ok("calc_basis_and_derivs", b.calc_basis_and_derivs(u, upto)).is_none() {
                    return;
                }
                for k in 0..=upto {
                    let mut sum = 0.0;
                    for i in 0..nb {
                        let v = b.get_basis_deriv(i, k);
                        sum += v;
                        if k == 0 {
                            c.check(v == b.get_basis(i), || "0th derivative differs from the basis".to_string());
                        }
                        if judge {
                            c.close("basis derivative", v, dbasis(u, kn, i, p, k), 300.0 * rel * dscale(k));
                        }
                    }
                    c.close("sum of basis derivatives", sum, if k == 0 { 1.0 } else { 0.0 }, 300.0 * rel * dscale(k));
                }
                c.err("derivative order", b.calc_basis_and_derivs(u, p + 1));
                c.count("basis derivatives verified");
            }
            2 => {
                // new control points, possibly with another dimension
                ndim = c.rng.int(1, 3);
                pts = (0..nb).map(|_| c.rng.vec(ndim)).collect();
                if c.ok("set_control_points", b.set_control_points(&pts)).is_none() {
                    return;
                }
                let bad: Vec<Vec<f64>> = (0..nb + 1).map(|_| vec![0.0; ndim]).collect();
                c.err("too many control points", b.set_control_points(&bad));
                c.err("too few control points", b.set_control_points(&bad[..nb - 1].to_vec()));
                desc.push_str(&format!(" ndim={}", ndim));
            }
            3 | 4 => {
                if pts.is_empty() {
                    continue;
                }
                let rec = op == 4;
                let mut x = Vector::from(&vec![f64::NAN; ndim]);
                if c.ok("calc_point", b.calc_point(&mut x, u, rec)).is_none() {
                    return;
                }
                if judge {
                    for d in 0..ndim {
                        let w: f64 = (0..nb).map(|i| basis(u, kn, i, p) * pts[i][d]).sum();
                        c.close("curve point", x[d], w, 100.0 * rel);
                    }
                }
                let mut bad = Vector::new(ndim + 1);
                c.err("wrong dimension", b.calc_point(&mut bad, u, rec));
                c.count("curve points verified");
            }
            _ => {
                if pts.is_empty() {
                    continue;
                }
                let upto = c.rng.int(0, p + 1);
                let alg = c.rng.bool();
                let r = no_panic(|| b.calc_curve_derivs(u, upto, alg));
                if let Err(e) = r {
                    c.fail(format!("calc_curve_derivs panicked: {}", e));
                    return;
                }
                for k in 0..=upto {
                    let mut x = Vector::from(&vec![f64::NAN; ndim]);
                    b.get_curve_deriv(&mut x, k);
                    if judge {
                        for d in 0..ndim {
                            let w: f64 = if k > p { 0.0 } else { (0..nb).map(|i| dbasis(u, kn, i, p, k) * pts[i][d]).sum() };
                            c.close("curve derivative", x[d], w, 600.0 * rel * dscale(k));
                        }
                    }
                }
                c.count("curve derivatives verified");
            }
        }
    }
}

/// Derivatives against finite differences inside a span
fn fd(c: &mut Case) {
    let s = spline(c);
    let (p, kn) = (s.p, &s.knots);
    if kn.len() < 2 * (p + 1) {
        return;
    }
    let nb = kn.len() - 1 - p;
    let Some(mut b) = c.ok("new", Bspline::new(p, kn)) else { return };
    let el = b.get_elements(1e-14);
    // spans above a given length
    let spans: Vec<f64> = kn.windows(2).map(|w| w[1] - w[0]).collect();
    let limit = spans[c.rng.int(0, spans.len() - 1)] * *c.rng.pick(&[0.999, 1.001]);
    let long: Vec<[usize; 2]> = (0..spans.len()).filter(|i| spans[*i] > limit).map(|i| [i, i + 1]).collect();
    let got = b.get_elements(limit);
    c.check(got == long, || format!("elements longer than {} of {:?}: {:?}", limit, kn, got));
    c.check(el.iter().all(|e| e[1] == e[0] + 1 && kn[e[1]] > kn[e[0]]), || "wrong elements".to_string());
    let n = kn.windows(2).filter(|w| w[1] > w[0]).count();
    c.check(el.len() == n, || format!("{} elements instead of {}", el.len(), n));
    let inner: Vec<[usize; 2]> = el.into_iter().filter(|e| e[0] >= p && e[1] <= nb).collect();
    let e = *c.rng.pick(&inner);
    let (a, l) = (kn[e[0]], kn[e[1]] - kn[e[0]]);
    let u = a + l * c.rng.f(0.2, 0.8);
    let h = 1e-4 * l;
    c.input(format!("fd p={} knots={:?} u={}", p, kn, u));
    let pts: Vec<Vec<f64>> = (0..nb).map(|_| c.rng.vec(2)).collect();
    if c.ok("set_control_points", b.set_control_points(&pts)).is_none() {
        return;
    }
    let mut at = |u: f64| {
        let mut x = Vector::new(2);
        b.calc_point(&mut x, u, false).unwrap();
        [x[0], x[1]]
    };
    let (m, z, q) = (at(u - h), at(u), at(u + h));
    let sc = (2.0 * p as f64 / s.hmin).powi(3);
    for alg in [false, true] {
        b.calc_curve_derivs(u, 2, alg);
        let mut d1 = Vector::new(2);
        let mut d2 = Vector::new(2);
        b.get_curve_deriv(&mut d1, 1);
        b.get_curve_deriv(&mut d2, 2);
        for d in 0..2 {
            c.close("first derivative by differences", d1[d], (q[d] - m[d]) / (2.0 * h), sc * h * h * 4.0 + 1e-10 / h.min(1.0) * 1e-2 + 1e-11 / h);
            if p >= 2 {
                let sc4 = (2.0 * p as f64 / s.hmin).powi(4);
                c.close("second derivative by differences", d2[d], (q[d] - 2.0 * z[d] + m[d]) / (h * h), sc4 * h * h * 4.0 + 1e-13 / (h * h) * (1.0 + kn[kn.len() - 1].abs() / s.hmin));
            }
        }
    }
    c.count("finite differences verified");
}

fn faults(c: &mut Case) {
    let s = spline(c);
    let (p, kn) = (s.p, &s.knots);
    let kind = c.rng.int(0, 3);
    c.input(format!("faults kind={} p={} knots={:?}", kind, p, kn));
    match kind {
        0 => {
            c.check(Bspline::new(0, kn).is_err(), || "degree 0 accepted".to_string());
            c.check(Bspline::new(p, &kn[..2 * p + 1]).is_err(), || "too few knots accepted".to_string());
        }
        1 => {
            // unsorted or NaN knots
            let mut bad = kn.clone();
            let i = c.rng.int(0, bad.len() - 1);
            if c.rng.bool() {
                bad[i] = f64::NAN;
            } else {
                let j = c.rng.int(0, bad.len() - 1);
                bad.swap(i, j);
                if bad == *kn {
                    return;
                }
            }
            c.check(Bspline::new(p, &bad).is_err(), || format!("invalid knots accepted: {:?}", bad));
            c.count("invalid knots refused");
        }
        _ => {
            if kn.len() < 2 * (p + 1) {
                return;
            }
            let Some(mut b) = c.ok("new", Bspline::new(p, kn)) else { return };
            let l = kn[kn.len() - 1] - kn[0];
            for u in [kn[0] - l * 1e-3, kn[kn.len() - 1] + l * 1e-3] {
                c.err("basis outside", b.calc_basis(u));
                c.err("derivatives outside", b.calc_basis_and_derivs(u, 1));
                let r = no_panic(|| b.recursive_basis(u, 0));
                c.check(r.is_err(), || "recursive basis outside".to_string());
            }
            c.count("outside parameters refused");
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("degrees 1..5; clamped and unclamped knot vectors of several scales with repeated interior knots; histories of basis, derivative, point and control-point calls on one object, parameters at ends, knots and inside; unsorted and NaN knots");
    cx.assume("parameters of unclamped knot vectors are judged in [u_p, u_n+1) where the basis functions sum to one; interior knots are repeated at most p times");
    let n = cx.n(40000, 400000);
    cx.run("spline", n, run_spline);
    cx.run("fd", n / 2, fd);
    cx.run("faults", n / 2, faults);
    let n = n as u64;
    cx.require("bases verified", n / 4);
    cx.require("basis derivatives verified", n / 4);
    cx.require("curve points verified", n / 4);
    cx.require("curve derivatives verified", n / 8);
    cx.require("finite differences verified", n / 8);
    cx.require("invalid knots refused", n / 50);
    cx.require("outside parameters refused", n / 50);
}
