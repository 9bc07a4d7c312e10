use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::algo::solve_cubic;
use russell_lab::*;

/// Monotonic or multi-root continuous functions with a known sign structure
#[derive(Clone, Debug)]
enum Root {
    Lin(f64, f64),
    Cubic(f64, f64),
    Exp(f64, f64),
    Atan(f64, f64),
    Step(f64, f64),
    Flat(f64, f64),
    Steep(f64, f64),
    Cos(f64),
    Poly(Vec<f64>),
}

impl Root {
    fn f(&self, x: f64) -> f64 {
        match self {
            Root::Lin(r, k) => k * (x - r),
            Root::Cubic(r, k) => k * (x - r) * (1.0 + (x - r).powi(2)),
            Root::Exp(r, k) => (k * (x - r)).exp_m1(),
            Root::Atan(r, k) => (k * (x - r)).atan(),
            Root::Step(r, k) => if x < *r { -k } else { k * (1.0 + x - r) },
            Root::Flat(r, k) => k * (x - r).powi(9),
            Root::Steep(r, k) => (x - r).signum() * (x - r).abs().powf(*k),
            Root::Cos(w) => (w * x).cos(),
            Root::Poly(r) => r.iter().map(|a| x - a).product(),
        }
    }
}

fn root_brent(c: &mut Case) {
    let centre = *c.rng.pick(&[0.0, 1.0, -3.0, 100.0, -1e4]);
    let half = c.rng.mag(-2.0, 2.0).abs();
    let (mut xa, mut xb) = (centre - half, centre + half * c.rng.f(0.2, 1.0));
    let r = xa + (xb - xa) * c.rng.f(0.001, 0.999);
    let scale = c.rng.mag(-9.0, 6.0);
    let fun = match c.rng.int(0, 8) {
        0 => Root::Lin(r, scale),
        1 => Root::Cubic(r, scale),
        2 => Root::Exp(r, c.rng.mag(-2.0, 1.3) / (xb - xa)),
        3 => Root::Atan(r, c.rng.mag(-1.0, 3.0) / (xb - xa)),
        4 => Root::Step(r, scale),
        5 => Root::Flat(r, 1.0),
        6 => Root::Steep(r, c.rng.f(0.2, 0.9)),
        7 => Root::Cos(c.rng.f(1.0, 20.0) / (xb - xa)),
        _ => Root::Poly((0..c.rng.int(1, 5)).map(|_| xa + (xb - xa) * c.rng.unit()).collect()),
    };
    if c.rng.bool() {
        std::mem::swap(&mut xa, &mut xb);
    }
    let tol = *c.rng.pick(&[1e-13, 1e-13, 1e-10, 1e-6, 1e-3]);
    // the magnitude of the function values does not matter
    let unit = if c.rng.chance(0.3) { c.rng.mag(-155.0, 155.0) } else { 1.0 };
    c.input(format!("root brent {:e} * {:?} in [{}, {}] tolerance={:e}", unit, fun, xa, xb, tol));
    let mut solver = RootFinder::new();
    solver.brent_tolerance = tol;
    solver.set_enable_stats(true);
    let (lo, hi) = (xa.min(xb), xa.max(xb));
    let mut xs: Vec<f64> = Vec::new();
    let res = solver.brent(xa, xb, &mut xs, |x, xs: &mut Vec<f64>| {
        xs.push(x);
        Ok(unit * fun.f(x))
    });
    let (fa, fb) = (unit * fun.f(xa), unit * fun.f(xb));
    c.check(xs.iter().all(|x| *x >= lo && *x <= hi), || format!("evaluation outside the bracket: {:?}", xs));
    if !(fa * fb < 0.0) {
        if fa * fb > 0.0 && c.err("bracket without sign change", res) {
            c.count("brackets without sign change refused");
        }
        return;
    }
    let st = solver.get_stats().unwrap();
    c.check(st.get_n_function() == xs.len(), || format!("reported {} evaluations, performed {}", st.get_n_function(), xs.len()));
    c.count_n("root evaluations", xs.len());
    // the flat function may need many more iterations
    let xo = match res {
        Ok(x) => x,
        Err(e) => {
            c.check(matches!(fun, Root::Flat(..) | Root::Steep(..) | Root::Step(..)), || format!("unexpected error: {}", e));
            c.count("not converged");
            return;
        }
    };
    c.check(xo >= lo && xo <= hi, || format!("root {} outside the bracket", xo));
    // sign change within delta
    let delta = 2.0 * (4.0 * EPS * xo.abs() + tol);
    let fx = unit * fun.f(xo);
    let mut found = fx == 0.0;
    for k in 0..=40 {
        let x = (xo - delta + 2.0 * delta * (k as f64) / 40.0).clamp(lo, hi);
        let v = unit * fun.f(x);
        if v == 0.0 || v.signum() != fx.signum() {
            found = true;
        }
    }
    c.check(found, || format!("no sign change within {:e} of the reported root {} (f={:e})", delta, xo, fx));
    c.count("roots verified");
}

/// Functions with a single local minimum in the interval
#[derive(Clone, Debug)]
enum Min {
    Quad(f64, f64, f64),
    Abs(f64, f64),
    Quartic(f64, f64),
    Cosh(f64, f64),
    Skew(f64, f64),
    Up(f64),
    Down(f64),
}

impl Min {
    fn f(&self, x: f64) -> f64 {
        match self {
            Min::Quad(m, k, o) => k * (x - m) * (x - m) + o,
            Min::Abs(m, k) => k * (x - m).abs(),
            Min::Quartic(m, k) => k * (x - m).powi(4),
            Min::Cosh(m, k) => (k * (x - m)).cosh(),
            Min::Skew(m, k) => (k * (x - m)).exp() - k * (x - m),
            Min::Up(k) => k * x,
            Min::Down(k) => -k * x,
        }
    }
}

fn min_fun(c: &mut Case, m: f64, len: f64) -> Min {
    match c.rng.int(0, 4) {
        0 => Min::Quad(m, c.rng.mag(-3.0, 4.0).abs(), c.rng.sym() * 10.0),
        1 => Min::Abs(m, c.rng.mag(-3.0, 3.0).abs()),
        2 => Min::Quartic(m, c.rng.mag(-1.0, 3.0).abs()),
        3 => Min::Cosh(m, c.rng.f(0.5, 10.0) / len),
        _ => Min::Skew(m, c.rng.f(0.5, 8.0) / len * if c.rng.bool() { 1.0 } else { -1.0 }),
    }
}

fn min_brent(c: &mut Case) {
    let centre = *c.rng.pick(&[0.0, 1.0, -3.0, 100.0]);
    let half = c.rng.mag(-2.0, 2.0).abs();
    let (mut xa, mut xb) = (centre - half, centre + half * c.rng.f(0.2, 1.0));
    let len = xb - xa;
    let m = if c.rng.chance(0.15) { *c.rng.pick(&[xa, xb]) } else { xa + len * c.rng.f(0.001, 0.999) };
    let fun = if c.rng.chance(0.1) {
        if c.rng.bool() { Min::Up(c.rng.f(0.1, 10.0)) } else { Min::Down(c.rng.f(0.1, 10.0)) }
    } else {
        min_fun(c, m, len)
    };
    let xm = match fun {
        Min::Up(_) => xa,
        Min::Down(_) => xb,
        _ => m,
    };
    if c.rng.bool() {
        std::mem::swap(&mut xa, &mut xb);
    }
    let tol = *c.rng.pick(&[1e-10, 1e-10, 1e-7, 1e-4]);
    c.input(format!("min brent {:?} in [{}, {}] tolerance={:e}", fun, xa, xb, tol));
    let mut solver = MinSolver::new();
    solver.tolerance = tol;
    solver.n_iteration_max = 300;
    solver.set_enable_stats(true);
    let (lo, hi) = (xa.min(xb), xa.max(xb));
    let mut xs: Vec<f64> = Vec::new();
    let res = solver.brent(xa, xb, &mut xs, |x, xs: &mut Vec<f64>| {
        xs.push(x);
        Ok(fun.f(x))
    });
    let Some(xo) = c.ok("min brent", res) else { return };
    let st = solver.get_stats().unwrap();
    c.check(st.get_n_function() == xs.len(), || format!("reported {} evaluations, performed {}", st.get_n_function(), xs.len()));
    c.check(xs.iter().all(|x| *x >= lo && *x <= hi), || "evaluation outside the interval".to_string());
    c.check(xo >= lo && xo <= hi, || format!("minimum {} outside the interval", xo));
    c.check(xs.contains(&xo), || format!("{} was never evaluated", xo));
    let fxo = fun.f(xo);
    let best = xs.iter().map(|x| fun.f(*x)).fold(f64::INFINITY, f64::min);
    c.check(fxo <= best, || format!("f(xo)={} although {} was seen", fxo, best));
    // unimodal: a point within the tolerance of the true minimiser, up to rounding of f
    let w = 3.0 * (f64::sqrt(EPS) * xm.abs().max(xo.abs()) + tol / 3.0);
    let lim = fun.f((xm - w).max(lo)).max(fun.f((xm + w).min(hi))) + 8.0 * EPS * fxo.abs();
    c.check(fxo <= lim, || format!("not a minimum: f({})={:e} but f({})={:e}, limit {:e}", xo, fxo, xm, fun.f(xm), lim));
    c.count("minima verified");
}

fn bracketing(c: &mut Case) {
    let m = c.rng.sym() * *c.rng.pick(&[1.0, 10.0, 100.0]);
    let fun = match c.rng.int(0, 3) {
        0 => Min::Quad(m, c.rng.mag(-3.0, 4.0).abs(), c.rng.sym() * 10.0),
        1 => Min::Abs(m, c.rng.mag(-3.0, 3.0).abs()),
        2 => Min::Quartic(m, c.rng.mag(-1.0, 3.0).abs()),
        _ => Min::Quad(m, 1.0, 0.0),
    };
    let guess = match c.rng.int(0, 4) {
        0 => m,
        1 => m + c.rng.mag(-5.0, -1.0),
        2 => m - 0.01,
        3 => m - 0.005,
        _ => m + c.rng.mag(-2.0, 3.0),
    };
    c.input(format!("bracketing {:?} from {}", fun, guess));
    let mut br = MinBracketing::new();
    if c.rng.bool() {
        br.initial_step = c.rng.mag(-4.0, 0.0);
        br.expansion_factor = c.rng.f(1.2, 3.0);
    }
    br.set_enable_stats(true);
    let mut calls = 0;
    let res = br.basic(guess, &mut calls, |x, n: &mut usize| {
        *n += 1;
        Ok(fun.f(x))
    });
    let Some(b) = c.ok("bracketing", res) else { return };
    let st = br.get_stats().unwrap();
    c.check(st.get_n_function() == calls, || format!("reported {} evaluations, performed {}", st.get_n_function(), calls));
    c.check(b.a < b.xo && b.xo < b.b, || format!("unordered bracket {:?}", b));
    c.check(b.fa == fun.f(b.a) && b.fb == fun.f(b.b) && b.fxo == fun.f(b.xo), || format!("wrong function values {:?}", b));
    c.check(b.fxo <= b.fa && b.fxo <= b.fb, || format!("not a bracket {:?}", b));
    c.check(b.fxo < b.fa || b.fxo < b.fb, || format!("flat bracket {:?}", b));
    let slack = 1e-7 * (1.0 + m.abs());
    c.check(b.a <= m + slack && b.b >= m - slack, || format!("minimum {} not inside {:?}", m, b));
    c.count("brackets verified");
    // no minimum: error
    if c.rng.chance(0.1) {
        let mut br = MinBracketing::new();
        br.n_iteration_max = c.rng.int(2, 60);
        let k = c.rng.f(0.1, 3.0) * if c.rng.bool() { 1.0 } else { -1.0 };
        c.err("monotonic function", br.basic(guess, &mut 0, |x, _| Ok(k * x)));
    }
}

fn separated(c: &mut Case, n: usize, gap: f64) -> Vec<f64> {
    // n values in [-0.97, 0.97] with minimum distance
    loop {
        let mut v: Vec<f64> = (0..n).map(|_| c.rng.sym() * 0.97).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if v.windows(2).all(|w| w[1] - w[0] > gap) {
            return v;
        }
    }
}

fn poly_roots(c: &mut Case) {
    let xa = c.rng.sym() * *c.rng.pick(&[1.0, 20.0]);
    let len = c.rng.mag(-1.0, 2.0).abs();
    let xb = xa + len;
    let n = c.rng.int(0, 10);
    let mut z = separated(c, n, 0.08);
    if n > 0 && c.rng.chance(0.25) {
        z[0] = -1.0;
    }
    if n > 1 && c.rng.chance(0.25) {
        z[n - 1] = 1.0;
    }
    // factors without roots in the interval
    let npair = c.rng.int(0, 2);
    let pairs: Vec<(f64, f64)> = (0..npair).map(|_| (c.rng.sym(), c.rng.f(0.2, 1.0))).collect();
    let nout = c.rng.int(0, 1);
    let outs: Vec<f64> = (0..nout).map(|_| c.rng.f(1.1, 3.0) * if c.rng.bool() { 1.0 } else { -1.0 }).collect();
    let deg = n + 2 * npair + nout;
    let k = c.rng.mag(0.0, 3.0);
    let g = |z0: f64| {
        let mut v = k;
        for r in &z {
            v *= 2.0 * (z0 - r);
        }
        for (a, b) in &pairs {
            v *= (z0 - a) * (z0 - a) + b * b;
        }
        for r in &outs {
            v *= z0 - r;
        }
        v
    };
    let f = |x: f64| g((2.0 * x - xa - xb) / len);
    c.input(format!("polynomial roots degree={} z={:?} pairs={:?} out={:?} [{}, {}]", deg, z, pairs, outs, xa, xb));
    let Some(mut interp) = c.ok("interp", InterpChebyshev::new(deg.max(1) + 3, xa, xb)) else { return };
    // a second use of the same object
    if c.rng.bool() {
        c.ok("set_function", interp.set_function(deg + 2, &mut 0, |x, _| Ok(x.cos())));
    }
    if c.ok("set_function", interp.set_function(deg, &mut 0, |x, _| Ok(f(x)))).is_none() {
        return;
    }
    let solver = RootFinder::new();
    let Some(mut roots) = c.ok("chebyshev", solver.chebyshev(&interp)) else { return };
    let want: Vec<f64> = z.iter().map(|z| (xa + xb + len * z) / 2.0).collect();
    c.check(roots.len() == want.len(), || format!("found {} roots {:?}, expected {:?}", roots.len(), roots, want));
    c.check(roots.iter().all(|r| *r >= xa && *r <= xb), || format!("roots {:?} outside the interval", roots));
    if roots.len() != want.len() || roots.is_empty() {
        return;
    }
    c.check(roots.windows(2).all(|w| w[0] <= w[1]), || format!("roots not sorted {:?}", roots));
    for (r, w) in roots.iter().zip(want.iter()) {
        c.close("polynomial root", *r, *w, 1e-7 * len + 1e-14 * (xa.abs() + len));
    }
    c.count_n("polynomial roots verified", n);
    // polish perturbed roots
    let pert = 1e-6 * len;
    for r in roots.iter_mut() {
        *r = (*r + c.rng.sym() * pert).clamp(xa, xb);
    }
    let mut solver = RootFinder::new();
    solver.newton_tol_zero_fx = 1e-13;
    solver.newton_tol_zero_dx = 1e-13 * (1.0 + xa.abs() + len);
    let mut out: f64 = 0.0;
    // the finite differences use fixed steps of about 6e-6 and 1.5e-8
    if len >= 1.0 {
        let res = solver.refine(&mut roots, xa, xb, &mut out, |x, out: &mut f64| {
            *out = out.max(x - xb).max(xa - x);
            Ok(f(x))
        });
        if c.ok("refine", res).is_some() {
            for (r, w) in roots.iter().zip(want.iter()) {
                c.close("polished root", *r, *w, 1e-10 * (1.0 + xa.abs() + len));
            }
            c.check(out <= 5e-9 * len, || format!("polishing evaluated the function {:e} outside the interval", out));
            c.count_n("polished roots verified", n);
        }
    }
}

fn refine_simple(c: &mut Case) {
    // simple roots of transcendental functions from rough guesses
    let w = c.rng.f(0.5, 5.0);
    let p = c.rng.sym();
    let n = c.rng.int(1, 5);
    let want: Vec<f64> = (0..n).map(|i| (std::f64::consts::PI * (i as f64 + 1.0) - p) / w).collect();
    let mut roots: Vec<f64> = want.iter().map(|r| r + c.rng.sym() * 0.3 / w).collect();
    let xa = 0.0;
    let xb = (std::f64::consts::PI * (n as f64 + 1.5) - p) / w;
    c.input(format!("refine sin({} x + {}) from {:?}", w, p, roots));
    let solver = RootFinder::new();
    let r = solver.refine(&mut roots, xa, xb, &mut 0, |x, _| Ok((w * x + p).sin()));
    if c.ok("refine", r).is_some() {
        for (r, v) in roots.iter().zip(want.iter()) {
            c.close("refined root", *r, *v, 1e-12 * (1.0 + v.abs()) + 2e-13 / w);
        }
        c.count_n("refined roots", n);
    }
}

fn cubic(c: &mut Case) {
    let s = c.rng.mag(-5.0, 5.0).abs();
    let lead = c.rng.mag(-3.0, 3.0);
    // the coefficients are computed from the roots with doubled precision error of EPS each
    match c.rng.int(0, 5) {
        0 | 1 | 2 => {
            let mut r = loop {
                let r = [c.rng.sym(), c.rng.sym(), c.rng.sym()];
                let d = (r[0] - r[1]).abs().min((r[1] - r[2]).abs()).min((r[0] - r[2]).abs());
                if d > 0.05 {
                    break r;
                }
            };
            if c.rng.chance(0.2) {
                r[0] = 0.0;
                if (r[1]).abs() < 0.05 || r[2].abs() < 0.05 {
                    return;
                }
            }
            if c.rng.chance(0.1) {
                r = [-r[1].abs().max(0.1), 0.0, r[1].abs().max(0.1)];
            }
            r.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let r: Vec<f64> = r.iter().map(|v| v * s).collect();
            let k = [lead, -lead * (r[0] + r[1] + r[2]), lead * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]), -lead * r[0] * r[1] * r[2]];
            c.input(format!("cubic with three roots {:?} leading={} coefficients {:?}", r, lead, k));
            if let Some(x) = c.ok("cubic", solve_cubic(k[0], k[1], k[2], k[3])) {
                c.check(x.len() == 3, || format!("{} roots: {:?}", x.len(), x));
                if x.len() == 3 {
                    for i in 0..3 {
                        c.close("cubic root", x[i], r[i], 1e-11 * s);
                    }
                    c.count("cubics with three roots");
                }
            }
        }
        3 | 4 => {
            let (r, a, b) = (c.rng.sym() * s, c.rng.sym() * s, c.rng.f(0.1, 1.0) * s);
            let q = a * a + b * b;
            let k = [lead, -lead * (r + 2.0 * a), lead * (q + 2.0 * a * r), -lead * r * q];
            c.input(format!("cubic with one real root {} pair {}±{}i leading={} coefficients {:?}", r, a, b, lead, k));
            if let Some(x) = c.ok("cubic", solve_cubic(k[0], k[1], k[2], k[3])) {
                c.check(x.len() == 1, || format!("{} roots: {:?}", x.len(), x));
                if x.len() == 1 {
                    c.close("single cubic root", x[0], r, 1e-11 * s);
                    c.count("cubics with one root");
                }
            }
        }
        _ => {
            // repeated roots: every root satisfies the equation and the simple one is present
            let (a, b) = (c.rng.sym() * s, c.rng.sym() * s);
            let triple = c.rng.chance(0.3);
            let b = if triple { a } else { b };
            if !triple && (a - b).abs() < 0.05 * s {
                return;
            }
            let k = [lead, -lead * (2.0 * a + b), lead * (a * a + 2.0 * a * b), -lead * a * a * b];
            c.input(format!("cubic with repeated root {} and {} leading={} coefficients {:?}", a, b, lead, k));
            if let Some(x) = c.ok("cubic", solve_cubic(k[0], k[1], k[2], k[3])) {
                c.check(!x.is_empty() && x.len() <= 3, || format!("{} roots: {:?}", x.len(), x));
                for v in &x {
                    let val = ((k[0] * v + k[1]) * v + k[2]) * v + k[3];
                    c.close("cubic residual", val / (lead * s * s * s), 0.0, 1e-12);
                }
                if !triple {
                    let d = x.iter().map(|v| (v - b).abs()).fold(f64::INFINITY, f64::min);
                    c.close("simple root next to a double root", d, 0.0, 1e-7 * s);
                }
                c.count("cubics with repeated roots");
            }
        }
    }
}

fn faults(c: &mut Case) {
    let k = c.rng.int(1, 6);
    let kind = c.rng.int(0, 7);
    c.input(format!("fault kind={} at call {}", kind, k));
    let mut calls = 0usize;
    match kind {
        0 => {
            let mut s = RootFinder::new();
            let r = s.brent(-1.0, 2.0, &mut calls, |x, n: &mut usize| {
                *n += 1;
                if *n == k { Err("injected") } else { Ok(x * x * x - 0.3) }
            });
            c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
            c.check(calls == k, || format!("{} calls although call {} failed", calls, k));
        }
        1 => {
            let mut s = MinSolver::new();
            let r = s.brent(-1.0, 2.0, &mut calls, |x, n: &mut usize| {
                *n += 1;
                if *n == k { Err("injected") } else { Ok(x * x * x * x - 0.3 * x) }
            });
            c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
            c.check(calls == k, || format!("{} calls although call {} failed", calls, k));
        }
        2 => {
            let mut s = MinBracketing::new();
            let r = s.basic(-1.0, &mut calls, |x, n: &mut usize| {
                *n += 1;
                if *n == k { Err("injected") } else { Ok((x - 5.0) * (x - 5.0)) }
            });
            c.check(matches!(r, Err("injected")), || format!("expected the injected error, got {:?}", r));
            c.check(calls == k, || format!("{} calls although call {} failed", calls, k));
        }
        3 => {
            let s = RootFinder::new();
            let mut roots = [0.5];
            let r = s.refine(&mut roots, -1.0, 2.0, &mut calls, |x, n: &mut usize| {
                *n += 1;
                if *n == k { Err("injected") } else { Ok(x * x * x - 0.3) }
            });
            c.check(r == Err("injected"), || format!("expected the injected error, got {:?}", r));
        }
        4 => {
            let x = c.rng.f(-5.0, 5.0);
            let mut s = RootFinder::new();
            c.err("equal bounds (root)", s.brent(x, x, &mut 0, |x, _| Ok(x)));
            let mut s = MinSolver::new();
            c.err("equal bounds (min)", s.brent(x, x, &mut 0, |x, _| Ok(x)));
            let s = RootFinder::new();
            c.err("no roots to refine", s.refine(&mut [], 0.0, 1.0, &mut 0, |x, _| Ok(x)));
            let it = InterpChebyshev::new(3, 0.0, 1.0).unwrap();
            c.err("roots of uninitialised interpolant", s.chebyshev(&it));
            let small = c.rng.mag(-16.0, -12.5);
            c.err("vanishing leading coefficient", solve_cubic(small, 1.0, 2.0, 3.0));
            c.err("zero leading coefficient", solve_cubic(0.0, 1.0, 2.0, 3.0));
        }
        5 => {
            let mut s = RootFinder::new();
            s.brent_max_iterations = c.rng.int(0, 1);
            c.err("root brent iteration limit", s.brent(0.0, 1.0, &mut 0, |x, _| Ok(x - 0.3)));
            let mut s = MinSolver::new();
            s.n_iteration_max = c.rng.int(0, 1);
            c.err("min brent iteration limit", s.brent(0.0, 1.0, &mut 0, |x, _| Ok(x * x - 0.3)));
            let mut s = MinBracketing::new();
            s.n_iteration_max = c.rng.int(0, 1);
            c.err("bracketing iteration limit", s.basic(0.0, &mut 0, |x, _| Ok(x * x - 0.3)));
        }
        6 => {
            // too few iterations: an error
            let lim = c.rng.int(2, 4);
            let mut s = RootFinder::new();
            s.brent_max_iterations = lim;
            c.err("root brent exhausted", s.brent(-3.0, 2.0, &mut 0, |x, _| Ok((x - 0.3).powi(3) + (x - 0.3))));
            let mut s = MinSolver::new();
            s.n_iteration_max = lim;
            c.err("min brent exhausted", s.brent(-3.0, 2.0, &mut 0, |x, _| Ok((x - 0.3).powi(4) + (x - 0.3).powi(2))));
            let mut s = RootFinder::new();
            s.newton_max_iterations = c.rng.int(1, 2);
            c.err("refine exhausted", s.refine(&mut [2.0], 0.0, 3.0, &mut 0, |x, _| Ok(x * x - 0.1)));
        }
        _ => {
            // no root: error or panic-free
            let v = c.rng.f(0.1, 3.0);
            let mut s = RootFinder::new();
            c.err("positive function", s.brent(-1.0, 1.0, &mut 0, |x, _| Ok(x * x + v)));
            c.err("negative function", s.brent(-1.0, 1.0, &mut 0, |x, _| Ok(-x * x - v)));
            match no_panic(|| RootFinder::new().refine(&mut [0.7], -1.0, 1.0, &mut 0, |x, _| Ok(x * x + v))) {
                Ok(r) => {
                    c.check(r.is_err(), || format!("refine found a root of x²+{}", v));
                }
                Err(p) => c.fail(format!("panic: {}", p)),
            }
        }
    }
    c.count("faults");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random brackets (offset, swapped, all scales) around functions with known sign changes or minima; polynomials and cubics built from their roots; the callback records every abscissa; injected callback errors and iteration limits");
    let n = cx.n(10000, 150000);
    cx.run("root_brent", n, root_brent);
    cx.run("min_brent", n, min_brent);
    cx.run("bracketing", n, bracketing);
    cx.run("poly_roots", n / 2, poly_roots);
    cx.run("refine_simple", n / 2, refine_simple);
    cx.run("cubic", n, cubic);
    cx.run("faults", n / 2, faults);
    cx.require("roots verified", n as u64 / 3);
    cx.require("minima verified", n as u64 / 2);
    cx.require("brackets verified", n as u64 / 2);
    cx.require("polynomial roots verified", n as u64 / 2);
    cx.require("polished roots verified", n as u64 / 10);
    cx.require("refined roots", n as u64 / 2);
    cx.require("cubics with three roots", n as u64 / 5);
    cx.require("cubics with one root", n as u64 / 5);
    cx.require("cubics with repeated roots", n as u64 / 20);
    cx.require("brackets without sign change refused", n as u64 / 50);
}
