use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::*;
use std::f64::consts::PI;

// independent implementations of the C library
unsafe extern "C" {
    #[link_name = "erf"]
    fn c_erf(x: f64) -> f64;
    #[link_name = "erfc"]
    fn c_erfc(x: f64) -> f64;
    #[link_name = "tgamma"]
    fn c_tgamma(x: f64) -> f64;
    #[link_name = "lgamma_r"]
    fn c_lgamma_r(x: f64, sign: *mut i32) -> f64;
    #[link_name = "jn"]
    fn c_jn(n: i32, x: f64) -> f64;
    #[link_name = "yn"]
    fn c_yn(n: i32, x: f64) -> f64;
    #[link_name = "frexp"]
    fn c_frexp(x: f64, e: *mut i32) -> f64;
    #[link_name = "ldexp"]
    fn c_ldexp(x: f64, e: i32) -> f64;
    #[link_name = "modf"]
    fn c_modf(x: f64, i: *mut f64) -> f64;
}

fn lgamma(x: f64) -> (f64, i32) {
    let mut s = 0;
    let v = unsafe { c_lgamma_r(x, &mut s) };
    (v, if s < 0 { -1 } else { 1 })
}

/// Moves x by a few units in the last place
fn nudge(c: &mut Case, x: f64) -> f64 {
    let k = c.rng.int(0, 4) as i64 - 2;
    if x == 0.0 || !x.is_finite() {
        return x;
    }
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}

/// Non-negative argument: next to the given switches, of any magnitude or moderate
fn arg(c: &mut Case, switches: &[f64], lo: f64, hi: f64, lin: f64) -> f64 {
    match c.rng.int(0, 4) {
        0 => {
            let x = *c.rng.pick(switches);
            if c.rng.bool() { nudge(c, x) } else { x * (1.0 + 1e-3 * c.rng.sym()) }
        }
        1 => c.rng.mag(lo, hi).abs(),
        2 => c.rng.int(0, lin as usize) as f64 / 2.0,
        _ => c.rng.f(0.0, lin),
    }
}

fn signed(c: &mut Case, x: f64) -> f64 {
    if c.rng.bool() { -x } else { x }
}

/// Relative comparison
fn rel(c: &mut Case, what: &'static str, got: f64, want: f64, tol: f64) {
    if want.is_nan() {
        c.check(got.is_nan(), || format!("{}: got {:e}, want NaN", what, got));
    } else if want.is_infinite() || got.is_infinite() {
        c.check(got == want || got.abs() > 1e308 && want.abs() > 1e308 && got.signum() == want.signum(), || format!("{}: got {:e}, want {:e}", what, got, want));
    } else {
        let e = (got - want).abs() / want.abs().max(1e-290);
        c.max(what, e / EPS);
        c.close(what, got, want, tol * want.abs() + 1e-300);
    }
}

// error functions -----------------------------------------------------------------------------

fn erf_all(c: &mut Case) {
    let x = arg(c, &[0.84375, 1.25, 1.0 / 0.35, 6.0, 28.0, 0.25, 2f64.powi(-28), 2f64.powi(-56), 26.5, 27.2], -20.0, 2.0, 7.0);
    let x = signed(c, x);
    c.input(format!("erf x={:e}", x));
    let (we, wc) = unsafe { (c_erf(x), c_erfc(x)) };
    rel(c, "erf", math::erf(x), we, 4e-15);
    if wc > 1e-300 {
        rel(c, "erfc", math::erfc(x), wc, 1e-14 + 2.0 * EPS * x * x);
    }
    c.check(math::erf(-x) == -math::erf(x), || "erf is not odd".to_string());
    c.close("erf + erfc", math::erf(x) + math::erfc(x), 1.0, 4.0 * EPS);
    // inverses
    let y = match c.rng.int(0, 5) {
        0 => nudge(c, 0.85),
        1 => 1.0 - c.rng.mag(-15.5, 0.0).abs(),
        2 => 1.0 - 2.0 * (-25.0f64).exp() * (1.0 + 1e-4 * c.rng.sym()),
        3 => c.rng.mag(-20.0, 0.0).abs(),
        _ => c.rng.unit(),
    };
    let y = signed(c, y.clamp(-1.0, 1.0));
    c.input(format!("erf_inv y={:e}", y));
    let z = math::erf_inv(y);
    if y.abs() == 1.0 {
        c.check(z == y * f64::INFINITY, || format!("erf_inv({}) = {}", y, z));
    } else {
        // residual through the complement, well-conditioned at both ends
        let q = 1.0 - y.abs();
        if y.abs() > 0.5 {
            let (r, a) = (unsafe { c_erfc(z.abs()) }, z.abs());
            c.close("erfc(erf_inv)", r, q, 1e-14 * (1.0 + 2.0 * a * a) * q + 1e-16);
        } else {
            c.close("erf(erf_inv)", unsafe { c_erf(z) }, y, 4e-15 * y.abs());
        }
        c.check(math::erf_inv(-y) == -z, || "erf_inv is not odd".to_string());
    }
    let w = match c.rng.int(0, 4) {
        0 => c.rng.mag(-300.0, 0.0).abs(),
        1 => nudge(c, 0.15),
        2 => 2.0 * (-25.0f64).exp() * (1.0 + 1e-4 * c.rng.sym()),
        3 => 2.0 - c.rng.mag(-14.0, 0.0).abs(),
        _ => 2.0 * c.rng.unit(),
    };
    c.input(format!("erfc_inv w={:e}", w));
    if w > 0.0 && w < 2.0 {
        let z = math::erfc_inv(w);
        let r = unsafe { c_erfc(z) };
        c.close("erfc(erfc_inv)", r, w, 4e-15 * (2.0 + 2.0 * z * z) * w.min(2.0 - w).max(1e-16) + 2e-16 * w.max(if w > 0.15 { 1.0 } else { 0.0 }));
    }
    let bad = 1.0 + c.rng.mag(-15.0, 5.0).abs();
    if bad > 1.0 {
        c.check(math::erf_inv(bad).is_nan() && math::erf_inv(-bad).is_nan() && math::erfc_inv(-bad).is_nan() && math::erfc_inv(1.0 + bad + 1e-14 * bad).is_nan(), || format!("outside {}", bad));
    }
    c.count("error functions verified");
}

// gamma and beta -----------------------------------------------------------------------------

fn gamma_all(c: &mut Case) {
    let x = arg(c, &[2.0, 3.0, 33.0, 143.01608, 171.624, 1e-9, 170.0, 171.6, 1.0, 0.5, 1.5], -8.0, 2.2, 172.0);
    let x = signed(c, x);
    let x = if x < 0.0 && c.rng.bool() { x.round() + c.rng.mag(-12.0, -0.4) } else { x };
    c.input(format!("gamma x={:e}", x));
    let want = if x < 0.0 && x == x.floor() { f64::NAN } else { unsafe { c_tgamma(x) } };
    if want.is_nan() || want.abs() > 1e-290 {
        rel(c, "gamma", math::gamma(x), want, 3e-14);
    }
    let x = arg(c, &[2.0, 3.0, 1.23164, 1.73163, 0.23164, 0.7316, 8.0, 2f64.powi(52), 2f64.powi(58), 2f64.powi(-70), 1.0, 0.9, 1.46], -300.0, 300.0, 60.0);
    let x = signed(c, x);
    let x = if x < 0.0 && c.rng.bool() && x.abs() < 1e6 { x.round() + c.rng.mag(-12.0, -0.4) } else { x };
    c.input(format!("ln_gamma x={:e}", x));
    let (v, s) = math::ln_gamma(x);
    let (w, ws) = lgamma(x);
    if w.is_infinite() || v.is_infinite() {
        c.check(v == w, || format!("ln_gamma: got {}, want {}", v, w));
    } else {
        // logarithms of terms of the reflection formula may cancel each other
        let cond = if x < 0.0 { w.abs() + 1.0 + (PI / (x - x.round()).abs()).ln().abs() + lgamma(-x).0.abs() } else { w.abs() + 10.0 * (x - 1.0).abs().min((x - 2.0).abs()) };
        c.max("ln_gamma", (v - w).abs() / (EPS * cond).max(1e-300));
        c.close("ln_gamma", v, w, 30.0 * EPS * cond + 1e-300);
        c.check(s == ws, || format!("sign of gamma: got {}, want {}", s, ws));
    }
    c.count("gamma functions verified");
    // beta
    let big = c.rng.chance(0.2);
    let f = |c: &mut Case| {
        if big { arg(c, &[171.6, 1e6, 1e7], -8.0, 8.0, 400.0) } else { arg(c, &[1.0, 0.5, 2.0, 33.0], -6.0, 2.0, 60.0) }
    };
    let (a, b) = (f(c), f(c));
    let (a, b) = if c.rng.chance(0.3) { (signed(c, a), signed(c, b)) } else { (a, b) };
    let frac = |v: f64| if v > 0.5 { 1.0 } else { (v - v.round()).abs() };
    c.input(format!("ln_gamma {:e} beta a={:e} b={:e}", x, a, b));
    let d = a + b;
    // stay away from poles and zeros, where the rounding of a + b dominates
    if frac(a) > 1e-3 && frac(b) > 1e-3 && frac(d) > 1e-3 && a.abs() < 1e8 && b.abs() < 1e8 {
        let ((la, sa), (lb, sb), (ld, sd)) = (lgamma(a), lgamma(b), lgamma(d));
        let (mut l, mut t) = (la + lb - ld, 30.0 * EPS * (la.abs() + lb.abs() + ld.abs() + 10.0 + d.abs() / frac(d)));
        let (hi, lo) = if a.abs() > b.abs() { (a, b) } else { (b, a) };
        if hi > 1e5 && lo.abs() < 1e-2 * hi.sqrt() {
            // ln(Γ(a)/Γ(a+b)) = -b ln(a) + b(1-b)/(2a) + O(b³/a²)
            l = lgamma(lo).0 - lo * hi.ln() + lo * (1.0 - lo) / (2.0 * hi) + lo * (1.0 - lo) * (1.0 - 2.0 * lo) / (12.0 * hi * hi);
            // the evaluation by three terms loses digits below the switch of branches
            if hi > 1e6 * lo.abs() * (1.0 + 1e-9) && hi > 1e6 * (1.0 + 1e-9) {
                t = 100.0 * EPS * (lgamma(lo).0.abs() + lo.abs() * hi.ln() + 1.0);
            }
        }
        let sign = (sa * sb * sd) as f64;
        c.max("ln_beta", (math::ln_beta(a, b) - l).abs() / t);
        c.close("ln_beta", math::ln_beta(a, b), l, t);
        if l > -600.0 && l < 600.0 && a.abs() < 1e8 && (a.abs() < 168.0 && b.abs() < 168.0 && d.abs() < 168.0 || a.abs() > 180.0 || b.abs() > 180.0 || d.abs() > 180.0) {
            rel(c, "beta", math::beta(a, b), sign * l.exp(), t + 20.0 * EPS);
        }
        c.check(math::beta(a, b) == math::beta(b, a) || (math::beta(a, b) - math::beta(b, a)).abs() <= 20.0 * EPS * math::beta(a, b).abs(), || "beta is not symmetric".to_string());
        c.count("beta functions verified");
    }
    // zeros and poles
    let k = c.rng.int(1, 20) as f64;
    let f = (c.rng.int(1, 15) as f64) / 16.0; // exact sum
    c.input(format!("ln_gamma {:e} beta a={:e} b={:e} zeros k={} f={}", x, a, b, k, f));
    c.check(math::beta(-k - f, f) == 0.0 && math::ln_beta(-k - f, f) == f64::NEG_INFINITY, || "beta must vanish".to_string());
    c.check(math::beta(-k, f).is_infinite() && math::beta(f, -k).is_infinite(), || "beta must have a pole".to_string());
    // negative integers with B(-k, j) = (-1)^j B(1 + k - j, j) for j ≤ k
    let j = c.rng.int(1, k as usize) as f64;
    if 1.0 + k - j > 0.0 {
        let s = if j as i32 % 2 == 0 { 1.0 } else { -1.0 };
        let l = lgamma(1.0 + k - j).0 + lgamma(j).0 - lgamma(1.0 + k).0;
        rel(c, "beta of negative integer", math::beta(-k, j), s * l.exp(), 1e-13);
        rel(c, "beta of negative integer", math::beta(j, -k), s * l.exp(), 1e-13);
        c.close("ln_beta of negative integer", math::ln_beta(-k, j), l, 1e-12);
    }
}

// Bessel functions ---------------------------------------------------------------------------

/// (1/π) ∫ cos(nt - x sin t) dt: the trapezoidal rule converges exponentially
fn jn_ref(n: i32, x: f64) -> f64 {
    let m = 2 * (60 + n.unsigned_abs() as usize + x.abs() as usize);
    let h = PI / m as f64;
    let mut s = 0.5 * (1.0 + (n as f64 * PI).cos());
    for i in 1..m {
        let t = h * i as f64;
        s += (n as f64 * t - x * t.sin()).cos();
    }
    s / m as f64
}

/// Power series for small x
fn jn_series(n: i32, x: f64) -> f64 {
    let q = -x * x / 4.0;
    let mut t = 1.0;
    for k in 1..=n {
        t *= x / 2.0 / k as f64;
    }
    let mut s = t;
    for k in 1..200 {
        t *= q / (k as f64 * (k + n) as f64);
        s += t;
        if t.abs() < 1e-20 * s.abs() {
            break;
        }
    }
    s
}

fn bessel_first(c: &mut Case) {
    let x = arg(c, &[2.0, 2.857142, 4.5454, 8.0, 2f64.powi(-27), 2f64.powi(-13), 2f64.powi(-29), 2f64.powi(-54), 1.0, 30.0, 1e3], -15.0, 3.0, 60.0);
    let n = c.rng.int(0, 30) as i32;
    c.input(format!("bessel x={:e} n={}", x, n));
    let amp = (2.0 / (PI * x.max(1e-300))).sqrt().min(1.0);
    let r = jn_ref(n, x);
    // the downward recurrence is normalized by J0(x), which may be close to zero
    let c0 = if n as f64 + 1.0 > x { 1.0 + amp / math::bessel_j0(x).abs().max(1e-30) } else { 1.0 };
    // rounding of x sin(t)
    let t = 6.0 * EPS * amp.max(0.02) * (1.0 + x / 3.0) + 10.0 * EPS;
    c.close("J by integral", math::bessel_jn(n, x), r, t * 4.0 * c0 + 1e-15 * x);
    let w = unsafe { c_jn(n, x) };
    let v = math::bessel_jn(n, x);
    let tj = EPS * amp * (60.0 + 12.0 * n as f64) * c0;
    c.max("Jn", (v - w).abs() / (EPS * amp));
    c.close("Jn", v, w, tj);
    if n == 0 {
        c.close("J0", math::bessel_j0(x), w, tj);
        c.check(math::bessel_j0(-x) == math::bessel_j0(x), || "J0 is not even".to_string());
    }
    if n == 1 {
        c.close("J1", math::bessel_j1(x), w, tj);
        c.check(math::bessel_j1(-x) == -math::bessel_j1(x), || "J1 is not odd".to_string());
    }
    if x * x < 2.0 * (n + 1) as f64 {
        let s = jn_series(n, x);
        if s.abs() > 1e-280 {
            rel(c, "Jn small argument", v, s, 1e-14 * c0 + 20.0 * EPS * n as f64 * c0);
        }
    }
    let sg = if n % 2 == 0 { 1.0 } else { -1.0 };
    c.check(math::bessel_jn(-n, x) == sg * v && math::bessel_jn(n, -x) == sg * v && math::bessel_jn(-n, -x) == v, || "symmetries of Jn".to_string());
    // recurrence
    if n >= 1 && x > 0.0 {
        let (a, b) = (math::bessel_jn(n - 1, x), math::bessel_jn(n + 1, x));
        let m = 2.0 * n as f64 / x;
        let floor = 1e-290 * (1.0 + m);
        let sc = a.abs() + b.abs() + (m * v).abs() + amp * if m < 2.0 { 1.0 } else { 0.0 };
        c.close("recurrence of Jn", a + b, m * v, EPS * sc * (60.0 + 8.0 * n as f64) * c0 + floor);
    }
    // second kind
    if x > 1e-12 {
        let w = unsafe { c_yn(n, x) };
        let v = math::bessel_yn(n, x);
        if w.is_finite() && w.abs() < 1e290 {
            let t = EPS * (w.abs() * 30.0 + amp * 30.0) * (1.0 + n as f64 / 3.0);
            c.max("Yn", (v - w).abs() / t);
            c.close("Yn", v, w, t);
            if n == 0 {
                c.close("Y0", math::bessel_y0(x), w, t);
            }
            if n == 1 {
                c.close("Y1", math::bessel_y1(x), w, t);
            }
            c.check(math::bessel_yn(-n, x) == sg * v, || "Y of negative order".to_string());
            // Wronskian
            let (j0, j1, y1) = (math::bessel_jn(n, x), math::bessel_jn(n + 1, x), math::bessel_yn(n + 1, x));
            if y1.is_finite() && y1.abs() < 1e200 && j0.abs() > 1e-200 {
                let sc = (j1 * v).abs() + (j0 * y1).abs() + 2.0 / (PI * x);
                c.close("Wronskian", j1 * v - j0 * y1, 2.0 / (PI * x), EPS * sc * (100.0 + 10.0 * n as f64) * c0 * (1.0 + 0.1 * x.min(30.0)));
            }
        } else {
            c.check(v == f64::NEG_INFINITY || v < -1e290, || format!("Y({}, {:e}) = {:e}, want {:e}", n, x, v, w));
        }
    }
    c.count("Bessel functions of first and second kind verified");
    // huge arguments and special values
    let h = c.rng.mag(3.0, 300.0).abs();
    c.input(format!("bessel x={:e} huge={:e} n={}", x, h, n));
    let amp = (2.0 / (PI * h)).sqrt();
    c.close("Jn huge", math::bessel_jn(n, h), unsafe { c_jn(n, h) }, EPS * amp * 100.0 * (1.0 + n as f64));
    c.close("Yn huge", math::bessel_yn(n, h), unsafe { c_yn(n, h) }, EPS * amp * 100.0 * (1.0 + n as f64));
    c.check(math::bessel_jn(n, f64::INFINITY) == 0.0 && math::bessel_yn(n, f64::INFINITY) == 0.0 && math::bessel_jn(n, f64::NEG_INFINITY) == 0.0, || "Bessel at infinity".to_string());
    c.check(math::bessel_yn(n, -x - 1e-9).is_nan() && math::bessel_jn(n, f64::NAN).is_nan() && math::bessel_yn(n, f64::NAN).is_nan(), || "Bessel undefined".to_string());
    c.check(math::bessel_jn(n, 0.0) == if n == 0 { 1.0 } else { 0.0 } && math::bessel_yn(n, 0.0) == f64::NEG_INFINITY, || "Bessel at zero".to_string());
    c.check(n == 0 || math::bessel_yn(-n, 0.0) == if n % 2 == 1 { f64::INFINITY } else { f64::NEG_INFINITY }, || "Y of negative order at zero".to_string());
}

/// Series with positive terms; scaled by exp(-x)
fn in_ref(n: usize, x: f64) -> f64 {
    let q = x * x / 4.0;
    // logarithm of the first term
    let l = n as f64 * (x / 2.0).ln() - lgamma(n as f64 + 1.0).0;
    // start from the largest term
    let (mut s, mut t) = (1.0, 1.0);
    let mut big = 0.0; // logarithm of the extracted factor
    for k in 1..100000 {
        t *= q / (k as f64 * (k + n) as f64);
        s += t;
        if s > 1e280 {
            s *= 1e-280;
            t *= 1e-280;
            big += 280.0 * std::f64::consts::LN_10;
        }
        if t < 1e-18 * s {
            break;
        }
    }
    (l + big - x + s.ln()).exp()
}

/// ∫ exp(-x (cosh t - 1)) cosh(nt) dt: the trapezoidal rule converges exponentially
fn kn_ref(n: i32, x: f64) -> f64 {
    let h = 0.1f64.min(0.25 / x.sqrt());
    let nf = n as f64;
    let mut s = 0.5;
    let mut peak = 0.0f64;
    for i in 1..100000 {
        let t = h * i as f64;
        let sh = (t / 2.0).sinh();
        let v = (-2.0 * x * sh * sh + nf * t).exp() * 0.5 * (1.0 + (-2.0 * nf * t).exp());
        s += v;
        peak = peak.max(v);
        if v < 1e-18 * s && v < 1e-6 * peak {
            break;
        }
    }
    s * h
}

fn bessel_modified(c: &mut Case) {
    let x = arg(c, &[1.0, 15.0, 30.0, 2.0, 700.0, 100.0], -6.0, 2.84, 60.0);
    if x == 0.0 {
        return;
    }
    let n = c.rng.int(0, 30);
    c.input(format!("modified bessel x={:e} n={}", x, n));
    let r = in_ref(n, x); // exp(-x) In(x)
    let t = 3e-14 + 6.0 * EPS * (x + (n as f64) * (2.0 + x.ln().abs()));
    let v = math::bessel_in(n, x);
    if r > 1e-280 && x < 700.0 && v.is_finite() {
        rel(c, "In", v * (-x).exp(), r, t);
    }
    if n == 0 {
        c.check(math::bessel_i0(x) == v && math::bessel_i0(-x) == v, || "I0".to_string());
    }
    if n == 1 {
        c.check(math::bessel_i1(x) == v && math::bessel_i1(-x) == -v, || "I1".to_string());
    }
    let sg = if n % 2 == 0 { 1.0 } else { -1.0 };
    c.check(math::bessel_in(n, -x) == sg * v, || "symmetry of In".to_string());
    let k = kn_ref(n as i32, x);
    let w = math::bessel_kn(n as i32, x);
    if x < 700.0 && k < 1e290 && (-x).exp() * k > 1e-290 {
        rel(c, "Kn", w, k * (-x).exp(), 3e-14 + 2.0 * EPS * (n as f64 + x));
        // Wronskian
        let (i1, k1) = (math::bessel_in(n + 1, x), math::bessel_kn(n as i32 + 1, x));
        if v > 1e-250 && k1 < 1e250 && i1 > 1e-250 {
            c.close("Wronskian of modified functions", (v * k1 + i1 * w) * x, 1.0, 1e-13 + 20.0 * EPS * n as f64);
        }
    }
    if n == 0 {
        c.check(math::bessel_k0(x) == w, || "K0".to_string());
    }
    if n == 1 {
        c.check(math::bessel_k1(x) == w, || "K1".to_string());
    }
    c.check(math::bessel_kn(n as i32, 0.0) == f64::INFINITY && math::bessel_kn(n as i32, -x).is_nan() && math::bessel_in(n, 0.0) == if n == 0 { 1.0 } else { 0.0 }, || "modified Bessel special values".to_string());
    c.count("modified Bessel functions verified");
}

// elliptic integrals -------------------------------------------------------------------------

/// Double exponential quadrature; f receives t and b - t
fn tanh_sinh<F: Fn(f64, f64) -> f64>(b: f64, f: F) -> f64 {
    let h = 1.0 / 32.0;
    let mut s = 0.0;
    for i in -130..=130 {
        let u = h * i as f64;
        let w = PI / 2.0 * u.sinh();
        let x = 1.0 / (1.0 + (-2.0 * w).exp()); // fraction from the left
        let y = 1.0 / (1.0 + (2.0 * w).exp()); // fraction from the right
        let d = PI / 2.0 * u.cosh() / (w.cosh() * w.cosh()) / 2.0;
        if d * b < 1e-300 {
            continue;
        }
        s += f(b * x, b * y) * d;
    }
    s * h * b
}

/// Degenerate Carlson integral (y may be negative)
fn rc(x: f64, y: f64) -> f64 {
    if y < 0.0 {
        return (x / (x - y)).sqrt() * rc(x - y, -y);
    }
    if (x - y).abs() < 1e-9 * y {
        return 1.0 / ((x + 2.0 * y) / 3.0).sqrt();
    }
    if x < y { ((y - x) / x).sqrt().atan() / (y - x).sqrt() } else { ((x.sqrt() + (x - y).sqrt()) / y.sqrt()).ln() / (x - y).sqrt() }
}

fn elliptic(c: &mut Case) {
    let phi = match c.rng.int(0, 4) {
        0 => PI / 2.0,
        1 => c.rng.mag(-8.0, 0.0).abs(),
        _ => c.rng.f(0.0, PI / 2.0),
    };
    let s2 = phi.sin() * phi.sin();
    // m sin² in [0, 1)
    let mss = match c.rng.int(0, 3) {
        0 => 1.0 - c.rng.mag(-9.0, 0.0).abs(),
        1 => c.rng.mag(-10.0, 0.0).abs() * 0.99,
        _ => c.rng.unit(),
    };
    let m = mss / s2;
    if !(m < 1e30) {
        return;
    }
    let mss = m * s2;
    if mss > 1.0 - 1e-9 {
        return;
    }
    c.input(format!("elliptic phi={:e} m={:e}", phi, m));
    // 1 - m sin²(t), written in terms of the distance to phi
    let root = |_t: f64, r: f64| {
        let d = (1.0 - mss) + m * (r.sin() * (2.0 * phi - r).sin()); // sin²φ - sin²(φ-r) = sin r sin(2φ-r)
        d.max(0.0).sqrt()
    };
    let cond = 1.0 + 1.0 / (1.0 - mss);
    let f = tanh_sinh(phi, |t, r| 1.0 / root(t, r));
    let e = tanh_sinh(phi, |t, r| root(t, r));
    let Some(vf) = c.ok("elliptic_f", math::elliptic_f(phi, m)) else { return };
    let Some(ve) = c.ok("elliptic_e", math::elliptic_e(phi, m)) else { return };
    c.max("elliptic F", (vf - f).abs() / (f * EPS * cond));
    c.close("elliptic F", vf, f, f * (1e-14 + 10.0 * EPS * cond));
    c.close("elliptic E", ve, e, e * 2e-14 + 1e-300);
    c.check(vf >= phi * (1.0 - 1e-14) && ve <= phi * (1.0 + 1e-14), || "E ≤ φ ≤ F".to_string());
    // Legendre's relation for the complete integrals
    if phi == PI / 2.0 && m > 1e-6 && m < 1.0 - 1e-6 {
        let (fc, ec) = (math::elliptic_f(phi, 1.0 - m), math::elliptic_e(phi, 1.0 - m));
        if let (Ok(fc), Ok(ec)) = (fc, ec) {
            c.close("Legendre's relation", ve * fc + ec * vf - vf * fc, PI / 2.0, 1e-13 + 100.0 * EPS * (cond + 1.0 / m));
            c.count("Legendre's relation verified");
        }
    }
    // third kind
    let nss = match c.rng.int(0, 4) {
        0 => -c.rng.mag(-3.0, 2.0).abs(),
        1 => 1.0 + c.rng.mag(-3.0, 1.5).abs(), // principal value
        _ => c.rng.f(0.0, 0.999),
    };
    let n = nss / s2;
    c.input(format!("elliptic phi={:e} m={:e} n={:e}", phi, m, n));
    let Some(vp) = c.ok("elliptic_pi", math::elliptic_pi(n, phi, m)) else { return };
    if nss < 1.0 {
        let condn = 1.0 + 1.0 / (1.0 - nss);
        let p = tanh_sinh(phi, |t, r| {
            let d = (1.0 - nss) + n * (r.sin() * (2.0 * phi - r).sin());
            1.0 / (d * root(t, r))
        });
        c.close("elliptic Π", vp, p, p * (3e-14 + 10.0 * EPS * (cond + condn) * (1.0 + nss.abs())));
        c.count("elliptic integrals verified");
    } else if phi < 1.57 && phi > 1e-3 && mss > 1e-3 && (nss - mss / nss).abs() > 1e-3 {
        // DLMF 19.7.9 with α²ω² = k²
        let om = m / n;
        let oms = om * s2;
        let cs = 1.0 / s2;
        let p2 = tanh_sinh(phi, |t, r| {
            let d = (1.0 - oms) + om * (r.sin() * (2.0 * phi - r).sin());
            1.0 / (d * root(t, r))
        });
        let want = f - p2 + cs.sqrt() * rc((cs - 1.0) * (cs - m), (cs - n) * (cs - om));
        let sc = f.abs() + p2.abs() + want.abs();
        c.close("elliptic Π principal value", vp, want, sc * 1e-11 * cond * (1.0 + 1.0 / (nss - 1.0)) * (1.0 + 1.0 / (PI / 2.0 - phi)));
        c.count("principal values verified");
    }
    // special cases
    c.check(math::elliptic_f(0.0, m) == Ok(0.0) && math::elliptic_e(0.0, m) == Ok(0.0) && math::elliptic_pi(n, 0.0, m) == Ok(0.0), || "φ = 0".to_string());
    c.check(math::elliptic_f(phi, 0.0) == Ok(phi) && math::elliptic_e(phi, 0.0) == Ok(phi), || "m = 0".to_string());
    c.check(math::elliptic_f(PI / 2.0, 1.0) == Ok(f64::INFINITY) && math::elliptic_pi(0.3, PI / 2.0, 1.0) == Ok(f64::INFINITY) && math::elliptic_pi(1.0, PI / 2.0, 0.3) == Ok(f64::INFINITY), || "infinite".to_string());
    if let Some(v) = c.ok("E(π/2, 1)", math::elliptic_e(PI / 2.0, 1.0)) {
        c.close("E(π/2, 1)", v, 1.0, 1e-14);
    }
    let over = (1.0 + c.rng.mag(-10.0, 2.0).abs()) / s2;
    if phi > 1e-3 {
        c.err("m sin² > 1", math::elliptic_f(phi, over));
        c.err("m sin² > 1", math::elliptic_e(phi, over));
        c.err("m sin² > 1", math::elliptic_pi(0.1, phi, over));
    }
    for (p, q) in [(-phi - 1e-3, 0.1), (0.1, -0.1), (PI / 2.0 + 1e-6, 0.1)] {
        c.err("arguments", math::elliptic_f(p, q));
        c.err("arguments", math::elliptic_e(p, q));
        c.err("arguments", math::elliptic_pi(0.1, p, q));
    }
}

// orthogonal polynomials ---------------------------------------------------------------------

/// Values and two derivatives by the recurrence p[k+1] = ((a x) p[k] - b p[k-1])
fn poly<A: Fn(f64) -> (f64, f64)>(n: usize, x: f64, p1: f64, coef: A) -> (f64, f64, f64) {
    let mut a = (1.0, 0.0, 0.0);
    let mut b = (p1 * x, p1, 0.0);
    if n == 0 {
        return a;
    }
    for k in 1..n {
        let (u, v) = coef(k as f64);
        let t = (u * x * b.0 - v * a.0, u * (b.0 + x * b.1) - v * a.1, u * (2.0 * b.1 + x * b.2) - v * a.2);
        a = b;
        b = t;
    }
    b
}

fn polynomials(c: &mut Case) {
    let n = c.rng.int(0, 30);
    let x = match c.rng.int(0, 6) {
        0 => 1.0,
        1 => 1.0 - c.rng.mag(-11.0, -1.0).abs(),
        2 => 1.0 + c.rng.mag(-11.0, 0.3).abs(),
        3 => c.rng.int(0, 8) as f64 / 8.0,
        _ => c.rng.unit(),
    };
    let x = signed(c, x);
    c.input(format!("polynomials n={} x={:e}", n, x));
    let nf = n as f64;
    let d = (1.0 - x * x).abs();
    let at_end = d == 0.0;
    let t = poly(n, x, 1.0, |_| (2.0, 1.0));
    let u = poly(n, x, 2.0, |_| (2.0, 1.0));
    let p = poly(n, x, 1.0, |k| ((2.0 * k + 1.0) / (k + 1.0), k / (k + 1.0)));
    // magnitude of terms and cancellation next to ±1
    let g = if at_end { 1.0 } else { 1.0 / d };
    let e = 40.0 * EPS * (1.0 + nf * nf);
    let big = t.0.abs().max(1.0);
    c.close("Tn", math::chebyshev_tn(n, x), t.0, e * big);
    c.close("Tn'", math::chebyshev_tn_deriv1(n, x), t.1, e * (t.1.abs().max(nf * nf) + 80.0 * big * nf * g.sqrt()));
    c.close("Tn''", math::chebyshev_tn_deriv2(n, x), t.2, e * (t.2.abs() + nf * nf * big * (1.0 + g) + nf * t.1.abs().max(nf) * g + 80.0 * nf * big * g * g.sqrt()));
    let ub = u.0.abs().max(1.0 + nf);
    // values next to ±1 (1e-12) are replaced by the values at ±1
    let shift = if d < 3e-12 { 3e-12 * (1.0 + nf).powi(2) } else { 0.0 };
    c.close("Un", math::chebyshev_un(n, x), u.0, ub * (e * (1.0 + g.sqrt()) + shift));
    let ee = e * big * (1.0 + nf);
    c.close("Un'", math::chebyshev_un_deriv1(n, x), u.1, u.1.abs() * (e + shift) + ee * (1.0 + g * (1.0 + g.sqrt())));
    c.close("Un''", math::chebyshev_un_deriv2(n, x), u.2, u.2.abs() * (e + shift) + ee * (nf + g * nf + g * g * (1.0 + g.sqrt())));
    let pb = p.0.abs().max(1.0);
    c.close("Pn", math::legendre_pn(n, x), p.0, e * pb);
    c.close("Pn'", math::legendre_pn_deriv1(n, x), p.1, e * (p.1.abs() + pb * (1.0 + nf * g)));
    c.close("Pn''", math::legendre_pn_deriv2(n, x), p.2, e * (p.2.abs() + pb * (1.0 + nf * nf * g + nf * g * g)));
    c.count("polynomials verified");
}

fn points(c: &mut Case) {
    let nn = c.rng.int(0, 40);
    c.input(format!("points nn={}", nn));
    let n = nn as f64;
    let g = math::chebyshev_gauss_points(nn);
    c.check(g.dim() == nn + 1, || format!("{} points", g.dim()));
    for i in 0..=nn {
        c.close("Chebyshev-Gauss point", g[i], -((2 * i + 1) as f64 * PI / (2.0 * n + 2.0)).cos(), 4.0 * EPS);
        c.check(g[i] == -g[nn - i], || "points are not symmetric".to_string());
    }
    if nn > 0 {
        let l = math::chebyshev_lobatto_points(nn);
        c.check(l.dim() == nn + 1 && l[0] == -1.0 && l[nn] == 1.0, || "ends".to_string());
        for i in 0..=nn {
            c.close("Chebyshev-Lobatto point", l[i], -(i as f64 * PI / n).cos(), 4.0 * EPS);
            c.check(l[i] == -l[nn - i], || "points are not symmetric".to_string());
        }
    }
    // Legendre: exactness of the quadratures through the Chebyshev basis
    let exact = |k: usize| if k % 2 == 1 { 0.0 } else { 2.0 / (1.0 - (k * k) as f64) };
    let (x, w) = (math::legendre_gauss_points(nn), math::legendre_gauss_weights(nn));
    for i in 0..=nn {
        c.check(x[i].abs() < 1.0 && w[i] > 0.0 && (i == 0 || x[i] > x[i - 1]), || "Gauss points/weights".to_string());
    }
    for k in 0..=(2 * nn + 1) {
        let s: f64 = (0..=nn).map(|i| w[i] * poly(k, x[i], 1.0, |_| (2.0, 1.0)).0).sum();
        c.close("Gauss quadrature", s, exact(k), 1e-13 * (1.0 + n));
    }
    if nn >= 2 {
        let (x, w) = (math::legendre_lobatto_points(nn), math::legendre_lobatto_weights(nn));
        c.check(x[0] == -1.0 && x[nn] == 1.0, || "ends".to_string());
        for i in 0..=nn {
            c.check(w[i] > 0.0 && (i == 0 || x[i] > x[i - 1]), || "Lobatto points/weights".to_string());
        }
        for k in 0..(2 * nn) {
            let s: f64 = (0..=nn).map(|i| w[i] * poly(k, x[i], 1.0, |_| (2.0, 1.0)).0).sum();
            c.close("Lobatto quadrature", s, exact(k), 1e-13 * (1.0 + n));
        }
    }
    c.count("points and weights verified");
}

// elementary functions -----------------------------------------------------------------------

fn elementary(c: &mut Case) {
    let x = match c.rng.int(0, 4) {
        0 => c.rng.mag(-320.0, 308.0),
        1 => c.rng.int(0, 2000) as f64 / 4.0 - 250.0,
        2 => {
            let k = c.rng.int(0, 60) as i32;
            let p = 2f64.powi(k);
            let v = nudge(c, p);
            signed(c, v)
        }
        3 => *c.rng.pick(&[0.0, -0.0, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 4503599627370495.5, 9007199254740993.0]),
        _ => c.rng.sym() * 100.0,
    };
    c.input(format!("elementary x={:e}", x));
    // composition of numbers
    let (i, f) = math::float_split(x);
    let mut ci = 0.0;
    let cf = unsafe { c_modf(x, &mut ci) };
    c.check(i.to_bits() == ci.to_bits() && f.to_bits() == cf.to_bits(), || format!("float_split({:e}) = ({}, {})", x, i, f));
    c.check(math::float_is_integer(x) == (x == x.trunc()) && math::float_is_neg_integer(x) == (x < 0.0 && x == x.trunc()), || "integers".to_string());
    let (m, e) = math::float_decompose(x);
    let mut ce = 0;
    let cm = unsafe { c_frexp(x, &mut ce) };
    c.check(m == cm && e == ce, || format!("float_decompose({:e}) = ({}, {}), want ({}, {})", x, m, e, cm, ce));
    c.check(math::float_compose(m, e) == x, || "float_compose does not restore the number".to_string());
    let k = c.rng.int(0, 4000) as i32 - 2000;
    let (a, b) = (math::float_compose(x, k), unsafe { c_ldexp(x, k) });
    c.check(a == b, || format!("float_compose({:e}, {}) = {:e}, want {:e}", x, k, a, b));
    let y = match c.rng.int(0, 2) {
        0 => c.rng.mag(-3.0, 3.0),
        1 => x * c.rng.mag(-12.0, 1.0),
        _ => (c.rng.int(1, 40) as f64) / 8.0,
    };
    if y != 0.0 && y.is_finite() && x.abs() / y.abs() < 1e60 {
        let v = math::modulo(x, y);
        c.check(v == x % y, || format!("modulo({:e}, {:e}) = {:e}, want {:e}", x, y, v, x % y));
        c.count("remainders verified");
    }
    c.check(math::modulo(x, 0.0).is_nan() && math::modulo(f64::INFINITY, y).is_nan() && math::modulo(x, f64::INFINITY) == x, || "modulo special".to_string());
    // piecewise functions
    let x = if c.rng.chance(0.2) { 0.0 } else { c.rng.sym() * 5.0 };
    let s = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
    c.check(math::sign(x) == s && math::ramp(x) == x.max(0.0) && math::heaviside(x) == 0.5 + 0.5 * s, || format!("piecewise functions at {}", x));
    let a = if c.rng.chance(0.2) { x } else { c.rng.sym() * 5.0 };
    let b = a + c.rng.mag(-3.0, 1.0).abs();
    let x1 = *c.rng.pick(&[a, b, x, (a + b) / 2.0]);
    c.check(math::boxcar(x1, a, b) == math::heaviside(x1 - a) - math::heaviside(x1 - b), || format!("boxcar({}, {}, {})", x1, a, b));
    c.check(no_panic(|| math::boxcar(x, b, a)).is_err(), || "boxcar with a ≥ b".to_string());
    // logistic and smooth ramp
    let z = c.rng.sym() * *c.rng.pick(&[1.0, 30.0, 800.0]);
    c.input(format!("logistic z={:e}", z));
    let l = if z > 0.0 { 1.0 / (1.0 + (-z).exp()) } else { z.exp() / (1.0 + z.exp()) };
    c.close("logistic", math::logistic(z), l, 4.0 * EPS * l + 1e-305);
    c.close("logistic'", math::logistic_deriv1(z), 1.0 / (2.0 * (z / 2.0).cosh()).powi(2), 4.0 * EPS);
    let beta = c.rng.mag(-1.0, 2.0).abs();
    let x = z / beta;
    c.input(format!("smooth ramp x={:e} beta={:e}", x, beta));
    let want = x.max(0.0) + (-(z.abs())).exp().ln_1p() / beta;
    c.close("smooth_ramp", math::smooth_ramp(x, beta), want, 8.0 * EPS * (x.abs() + 1.0 / beta));
    c.close("smooth_ramp'", math::smooth_ramp_deriv1(x, beta), l, 8.0 * EPS * (1.0 + z.abs()));
    c.close("smooth_ramp''", math::smooth_ramp_deriv2(x, beta), beta / (2.0 * (z / 2.0).cosh()).powi(2), 8.0 * EPS * (1.0 + z.abs()) * beta);
    // superquadrics
    let (x, k) = (c.rng.sym() * 10.0, c.rng.f(0.1, 4.0));
    c.close("suq_sin", math::suq_sin(x, k), x.sin().signum() * x.sin().abs().powf(k), 4.0 * EPS);
    c.close("suq_cos", math::suq_cos(x, k), x.cos().signum() * x.cos().abs().powf(k), 4.0 * EPS);
    // integer powers
    let n = c.rng.int(0, 60) as i32 - 30;
    let w = match n.rem_euclid(4) {
        0 => (1.0, 0.0),
        1 => (0.0, 1.0),
        2 => (-1.0, 0.0),
        _ => (0.0, -1.0),
    };
    let v = math::i_pow_n(n);
    c.check(v.re == w.0 && v.im == w.1, || format!("i^{} = {}", n, v));
    c.check(math::neg_one_pow_n(n) == if n % 2 == 0 { 1.0 } else { -1.0 }, || format!("(-1)^{}", n));
    let x = c.rng.f(0.3, 3.0) * if c.rng.bool() { 1.0 } else { -1.0 };
    let v = math::x_times_i_pow_n(x, n);
    let p = x.abs().powf(n as f64) * if x < 0.0 && n % 2 != 0 { -1.0 } else { 1.0 };
    c.close("(x i)^n real", v.re, w.0 * p, 1e-13 * p.abs());
    c.close("(x i)^n imag", v.im, w.1 * p, 1e-13 * p.abs());
    let k = c.rng.int(0, 24);
    let f = no_panic(|| math::factorial_lookup_22(k));
    match f {
        Ok(v) => c.check(k <= 22 && v == (1..=k).map(|i| i as f64).product::<f64>(), || format!("{}! = {}", k, v)),
        Err(_) => c.check(k > 22, || format!("{}! panicked", k)),
    };
    c.count("elementary functions verified");
}

fn constants(c: &mut Case) {
    c.input("constants".to_string());
    for (n, v, w) in [
        ("PI", math::PI, PI),
        ("SQRT_2", math::SQRT_2, 2f64.sqrt()),
        ("SQRT_3", math::SQRT_3, 3f64.sqrt()),
        ("SQRT_6", math::SQRT_6, 6f64.sqrt()),
        ("SQRT_PI", math::SQRT_PI, PI.sqrt()),
        ("SQRT_2_BY_3", math::SQRT_2_BY_3, (2.0 / 3.0f64).sqrt()),
        ("SQRT_3_BY_2", math::SQRT_3_BY_2, (1.5f64).sqrt()),
        ("NAPIER", math::NAPIER, 1f64.exp()),
        ("EULER", math::EULER, 0.5772156649015329),
        ("ONE_BY_SQRT_2", math::ONE_BY_SQRT_2, 1.0 / 2f64.sqrt()),
        ("COS_PI_BY_8", math::COS_PI_BY_8, (PI / 8.0).cos()),
        ("SIN_PI_BY_8", math::SIN_PI_BY_8, (PI / 8.0).sin()),
        ("LN2", math::LN2, 2f64.ln()),
        ("LN10", math::LN10, 10f64.ln()),
        ("SQRT_EPSILON", math::SQRT_EPSILON, EPS.sqrt()),
        ("GOLDEN_RATIO", math::GOLDEN_RATIO, (1.0 + 5f64.sqrt()) / 2.0),
        ("ONE_BY_3", math::ONE_BY_3, 1.0 / 3.0),
        ("TWO_BY_3", math::TWO_BY_3, 2.0 / 3.0),
    ] {
        c.close(n, v, w, 2.0 * EPS);
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("arguments around every branch switch (±2 ulp), log-uniform, integer/half-integer and uniform; orders 0..30 (both signs for J, Y); references: the C library (erf, erfc, tgamma, lgamma, jn, yn, frexp, ldexp, modf), exponentially convergent integrals (J, K, elliptic), positive series (I), recurrences (polynomials); identities: Wronskians, Legendre's relation, symmetries, exactness of quadratures");
    cx.assume("beta is not judged within 1e-3 of its poles and zeros on the negative axis (except exactly at them), nor below the switch of its asymptotic expansion tighter than the rounding of the three logarithms");
    cx.assume("tolerances of polynomial derivatives next to ±1 grow with the cancellation of the trigonometric formulas");
    let n = cx.n(40000, 500000);
    cx.run("erf", n, erf_all);
    cx.run("gamma", n, gamma_all);
    cx.run("bessel", n, bessel_first);
    cx.run("modified", n, bessel_modified);
    cx.run("elliptic", n / 2, elliptic);
    cx.run("polynomials", n, polynomials);
    cx.run("points", n / 40, points);
    cx.run("elementary", n, elementary);
    cx.run("constants", 1, constants);
    let n = n as u64;
    cx.require("error functions verified", n / 2);
    cx.require("gamma functions verified", n / 2);
    cx.require("beta functions verified", n / 4);
    cx.require("Bessel functions of first and second kind verified", n / 2);
    cx.require("modified Bessel functions verified", n / 2);
    cx.require("elliptic integrals verified", n / 8);
    cx.require("principal values verified", n / 100);
    cx.require("Legendre's relation verified", n / 100);
    cx.require("polynomials verified", n / 2);
    cx.require("points and weights verified", n / 80);
    cx.require("elementary functions verified", n / 2);
    cx.require("remainders verified", n / 4);
}
