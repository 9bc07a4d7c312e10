use harness::{Case, Ctx, EPS};
use rand::SeedableRng;
use rand::rngs::StdRng;
use russell_stat::*;
use std::f64::consts::PI;

unsafe extern "C" {
    fn erfc(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
}

const EULER_GAMMA: f64 = 0.57721566490153286060651209008240243;

/// Reference law described by independent formulas
enum Law {
    Normal(f64, f64),
    Lognormal(f64, f64),
    Gumbel(f64, f64),
    Frechet(f64, f64, f64),
    Uniform(f64, f64),
}

impl Law {
    fn pdf(&self, x: f64) -> f64 {
        match *self {
            Law::Normal(m, s) => {
                let z = (x - m) / s;
                (-0.5 * z * z - s.ln() - 0.5 * (2.0 * PI).ln()).exp()
            }
            Law::Lognormal(m, s) => {
                if x <= 0.0 {
                    return 0.0;
                }
                let z = (x.ln() - m) / s;
                (-0.5 * z * z - s.ln() - x.ln() - 0.5 * (2.0 * PI).ln()).exp()
            }
            Law::Gumbel(l, s) => {
                let z = (x - l) / s;
                let e = (-z).exp();
                if e.is_infinite() { 0.0 } else { (-z - e - s.ln()).exp() }
            }
            Law::Frechet(l, s, a) => {
                if x <= l {
                    return 0.0;
                }
                let t = ((x - l) / s).ln();
                let e = (-a * t).exp();
                if e.is_infinite() { 0.0 } else { (a.ln() - s.ln() - (1.0 + a) * t - e).exp() }
            }
            Law::Uniform(a, b) => {
                if x < a || x > b {
                    0.0
                } else {
                    1.0 / (b - a)
                }
            }
        }
    }
    fn cdf(&self, x: f64) -> f64 {
        match *self {
            Law::Normal(m, s) => 0.5 * unsafe { erfc(-(x - m) / s / 2f64.sqrt()) },
            Law::Lognormal(m, s) => {
                if x <= 0.0 {
                    return 0.0;
                }
                0.5 * unsafe { erfc(-(x.ln() - m) / s / 2f64.sqrt()) }
            }
            Law::Gumbel(l, s) => (-(-(x - l) / s).exp()).exp(),
            Law::Frechet(l, s, a) => {
                if x <= l {
                    return 0.0;
                }
                (-(-a * ((x - l) / s).ln()).exp()).exp()
            }
            Law::Uniform(a, b) => ((x - a) / (b - a)).clamp(0.0, 1.0),
        }
    }
    fn moments(&self) -> (f64, f64) {
        match *self {
            Law::Normal(m, s) => (m, s * s),
            Law::Lognormal(m, s) => ((m + 0.5 * s * s).exp(), (s * s).exp_m1() * (2.0 * m + s * s).exp()),
            Law::Gumbel(l, s) => (l + EULER_GAMMA * s, PI * PI * s * s / 6.0),
            Law::Frechet(l, s, a) => {
                let mean = if a > 1.0 { l + s * unsafe { tgamma(1.0 - 1.0 / a) } } else { f64::INFINITY };
                let var = if a > 2.0 {
                    let g = unsafe { tgamma(1.0 - 1.0 / a) };
                    s * s * (unsafe { tgamma(1.0 - 2.0 / a) } - g * g)
                } else {
                    f64::INFINITY
                };
                (mean, var)
            }
            Law::Uniform(a, b) => (0.5 * (a + b), (b - a) * (b - a) / 12.0),
        }
    }
    /// Point of the support for a parameter t (standardized) and its derivative
    fn point(&self, t: f64) -> (f64, f64) {
        match *self {
            Law::Normal(m, s) => (m + s * t, s),
            Law::Lognormal(m, s) => {
                let x = (m + s * t).exp();
                (x, x * s)
            }
            Law::Gumbel(l, s) => (l + s * t, s),
            Law::Frechet(l, s, a) => {
                let z = (t / a).exp();
                (l + s * z, s * z / a)
            }
            Law::Uniform(a, b) => (a + (b - a) * t, b - a),
        }
    }
}

fn study<D: ProbabilityDistribution>(c: &mut Case, d: &D, law: &Law) {
    let (mean, var) = law.moments();
    // values at points all over the support, in both tails and outside the support
    let mut xs: Vec<f64> = Vec::new();
    for _ in 0..8 {
        let wide = *c.rng.pick(&[3.0, 10.0, 60.0]);
        let mut t = wide * c.rng.sym();
        if let Law::Uniform(..) = law {
            t = c.rng.f(-0.5, 1.5);
        }
        xs.push(law.point(t).0);
    }
    match *law {
        Law::Frechet(l, s, _) => xs.extend([l, l - s, l - 1e3, l + 1e-14 * s, l + 1e-3 * s, l + 1e-12 * (1.0 + l.abs())]),
        Law::Lognormal(..) => xs.extend([0.0, -1.0, 1e-300, 1e-15, 1e300]),
        Law::Uniform(a, b) => xs.extend([a, b, a - 1.0, b + 1.0, 0.5 * (a + b)]),
        Law::Gumbel(l, s) => xs.extend([l - 5.0 * s, l - 1000.0 * s, l + 1000.0 * s]),
        Law::Normal(m, s) => xs.extend([m, m - 50.0 * s, m + 50.0 * s]),
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut last = 0.0;
    for &x in &xs {
        c.note(format!("x={:?}", x));
        let (p, f) = (d.pdf(x), d.cdf(x));
        if !c.check(p >= 0.0 && (0.0..=1.0).contains(&f), || format!("pdf({:?}) = {:?} and cdf = {:?}", x, p, f)) {
            return;
        }
        // sensitivity to the rounding of the standardized variable
        let cond = match *law {
            Law::Normal(m, s) => {
                let z = ((x - m) / s).abs();
                (1.0 + (x.abs() + m.abs()) / s) * (1.0 + z)
            }
            Law::Lognormal(m, s) => {
                let l = x.max(1e-300).ln();
                (1.0 + (l.abs() + m.abs()) / s) * (1.0 + ((l - m) / s).abs()) + l.abs()
            }
            Law::Gumbel(l, s) => {
                let z = (x - l) / s;
                (1.0 + (x.abs() + l.abs()) / s) * (1.0 + (-z).exp().min(800.0))
            }
            Law::Frechet(l, s, a) => {
                let z = ((x - l) / s).max(1e-300);
                let e = z.powf(-a).min(800.0);
                // (x − l) carries the rounding of x and l
                let rel = 1.0 + (x.abs() + l.abs()) / (x - l).abs().max(1e-300);
                (rel * (1.0 + a) + a * z.ln().abs()) * (1.0 + e)
            }
            Law::Uniform(a, b) => 1.0 + (x.abs() + a.abs() + b.abs()) / (b - a),
        };
        let (wp, wf) = (law.pdf(x), law.cdf(x));
        let tol = 64.0 * EPS * cond;
        if tol < 1e-3 {
            // products of numbers below the normal range are not judged
            let floor = match *law {
                Law::Lognormal(_, s) if x > 0.0 => 1e-306 / (x * s),
                _ => 0.0,
            };
            c.close("density", p, wp, tol * wp + 1e-300 + floor);
            c.close("cumulative", f, wf, tol * wf + 4.0 * EPS);
            c.count("points");
        }
        c.check(f >= last - 4.0 * EPS, || format!("cdf decreases to {} at {}", f, x));
        last = f;
        // the density is the slope of the cumulative function
        if wp > 1e-12 && wf > 1e-6 && wf < 1.0 - 1e-6 {
            let h = match *law {
                Law::Lognormal(_, s) => 1e-4 * x * s.min(1.0),
                Law::Frechet(l, _, a) => 1e-4 * (x - l) / (1.0 + a),
                Law::Uniform(a, b) => (x - a).min(b - x) * 0.5,
                Law::Normal(_, s) | Law::Gumbel(_, s) => 1e-4 * s,
            };
            if h > 1e-9 * x.abs() {
                let slope = (d.cdf(x + h) - d.cdf(x - h)) / ((x + h) - (x - h));
                let round = 8.0 * EPS / h + 8.0 * EPS * x.abs() / h * p;
                c.close("slope of the cumulative", slope, p, 1e-4 * p + round);
                c.count("slopes");
            }
        }
    }
    // moments
    let (gm, gv) = (d.mean(), d.variance());
    if mean.is_infinite() {
        c.check(gm == f64::INFINITY, || format!("mean {:?} should be infinite", gm));
    } else {
        let scale = match *law {
            Law::Frechet(l, _, a) => l.abs() + mean.abs() + (mean - l).abs() * (1.0 / (1.0 - 1.0 / a)),
            Law::Uniform(a, b) => a.abs() + b.abs(),
            Law::Gumbel(l, s) => l.abs() + s,
            Law::Lognormal(m, s) => mean * (1.0 + m.abs() + s * s),
            Law::Normal(..) => mean.abs(),
        };
        c.close("mean", gm, mean, 64.0 * EPS * scale);
    }
    if var.is_infinite() {
        c.check(gv == f64::INFINITY, || format!("variance {:?} should be infinite", gv));
    } else {
        let scale = match *law {
            Law::Frechet(_, s, a) => {
                let g = unsafe { tgamma(1.0 - 2.0 / a) };
                s * s * (1.0 + g) * (1.0 + 1.0 / (1.0 - 2.0 / a))
            }
            Law::Lognormal(m, s) => var * (1.0 + m.abs() + s * s),
            Law::Uniform(a, b) => var * (1.0 + (a.abs() + b.abs()) / (b - a)),
            _ => var,
        };
        c.close("variance", gv, var, 128.0 * EPS * scale);
    }
    // moments of the density by the trapezoidal rule (spectrally accurate for these integrands)
    let (t0, t1, h) = match *law {
        Law::Normal(..) => (-9.0, 9.0, 0.2),
        Law::Lognormal(_, s) => (-9.0, 9.0 + 2.0 * s, 0.2),
        Law::Gumbel(..) => (-5.0, 45.0, 0.05),
        Law::Frechet(_, _, a) if a > 3.0 => (-6.0, 40.0 * a / (a - 2.0), 0.05),
        _ => (0.0, 0.0, 1.0),
    };
    if t1 > t0 {
        let n = ((t1 - t0) / h) as usize;
        let (mut m0, mut m1, mut m2) = (0.0, 0.0, 0.0);
        let unit = match *law {
            Law::Lognormal(m, s) => (m + 0.5 * s * s).exp() * s,
            Law::Normal(_, s) | Law::Gumbel(_, s) => s,
            Law::Frechet(_, s, a) => s / a,
            Law::Uniform(a, b) => b - a,
        };
        for k in 0..=n {
            let (x, dx) = law.point(t0 + k as f64 * h);
            let w = d.pdf(x) * dx * h;
            let y = (x - gm) / unit;
            m0 += w;
            m1 += w * y;
            m2 += w * y * y;
        }
        // the rounding of x relative to the width of the law limits the comparison
        let blur = 1e4 * EPS * (gm.abs() / unit).powi(1);
        let grow = match *law {
            Law::Lognormal(_, s) => (s * s).exp().powi(2),
            _ => 1.0,
        };
        if blur < 1e-3 && grow < 1e6 {
            c.close("integral of the density", m0, 1.0, 1e-7 + blur);
            c.close("first moment of the density", m1, 0.0, (1e-6 + blur) * grow);
            let v = gv / unit / unit;
            c.close("second moment of the density", m2 / v, 1.0, (1e-6 + blur) * grow);
            c.count("integrated densities");
        }
    }
}

fn draw<D: ProbabilityDistribution>(c: &mut Case, d: &D, law: &Law, n: usize) {
    let mut rng = StdRng::seed_from_u64(c.rng.int(0, usize::MAX / 4) as u64);
    let mut x: Vec<f64> = (0..n).map(|_| d.sample(&mut rng)).collect();
    let inside = x.iter().all(|v| match *law {
        Law::Lognormal(..) => *v >= 0.0,
        Law::Frechet(l, ..) => *v >= l,
        Law::Uniform(a, b) => *v >= a && *v <= b,
        _ => v.is_finite(),
    });
    c.check(inside, || "a sample is outside the support".to_string());
    x.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // Kolmogorov distance to the cumulative function of the library and of the reference
    let mut dist: f64 = 0.0;
    for k in 0..n {
        for f in [d.cdf(x[k]), law.cdf(x[k])] {
            dist = dist.max((f - k as f64 / n as f64).abs()).max(((k + 1) as f64 / n as f64 - f).abs());
        }
    }
    let stat = dist * (n as f64).sqrt();
    c.max("largest Kolmogorov statistic", stat);
    // probability of exceeding 4 by chance: 2 exp(-32) = 2.5e-14
    c.check(stat < 4.0, || format!("samples are at distance {} from the cumulative function ({} draws)", dist, n));
    c.count_n("samples", n);
}

fn one(c: &mut Case) {
    let wild = c.rng.chance(0.3);
    let loc = if wild { c.rng.mag(-6.0, 4.0) } else { c.rng.f(-5.0, 5.0) };
    let scale = if wild { c.rng.mag(-4.0, 4.0).abs() } else { c.rng.f(0.1, 4.0) };
    let kind = c.index % 5;
    let sampling = c.index % 40 < 5;
    let ns = if c.thorough { 6000 } else { 2500 };
    macro_rules! go {
        ($d:expr, $law:expr) => {{
            let law = $law;
            if let Some(d) = c.ok("the distribution", $d) {
                study(c, &d, &law);
                if sampling && !c.failed() {
                    draw(c, &d, &law, ns);
                }
            }
        }};
    }
    match kind {
        0 => {
            c.input(format!("Normal({:?}, {:?})", loc, scale));
            go!(DistributionNormal::new(loc, scale), Law::Normal(loc, scale));
        }
        1 => {
            let s = if wild { c.rng.mag(-5.0, 0.5).abs() } else { c.rng.f(0.05, 2.0) };
            let m = if wild { c.rng.f(-60.0, 60.0) } else { c.rng.f(-3.0, 3.0) };
            if c.rng.bool() {
                c.input(format!("Lognormal({:?}, {:?})", m, s));
                go!(DistributionLognormal::new(m, s), Law::Lognormal(m, s));
            } else {
                let mean = c.rng.mag(-6.0, 6.0).abs();
                let sig = mean * c.rng.mag(-7.0, 0.7).abs();
                c.input(format!("Lognormal from mean {:?} and deviation {:?}", mean, sig));
                if let Some(d) = c.ok("the distribution", DistributionLognormal::new_from_mu_sig(mean, sig)) {
                    c.close("given mean", d.mean(), mean, 1e-13 * mean);
                    c.close("given variance", d.variance(), sig * sig, 1e-12 * sig * sig);
                    let v = (sig / mean * (sig / mean)).ln_1p();
                    if v.sqrt() > 1e-5 {
                        let law = Law::Lognormal(mean.ln() - 0.5 * v, v.sqrt());
                        study(c, &d, &law);
                        if sampling {
                            draw(c, &d, &law, ns);
                        }
                    }
                }
            }
        }
        2 => {
            if c.rng.bool() {
                c.input(format!("Gumbel({:?}, {:?})", loc, scale));
                go!(DistributionGumbel::new(loc, scale), Law::Gumbel(loc, scale));
            } else {
                c.input(format!("Gumbel from mean {:?} and deviation {:?}", loc, scale));
                if let Some(d) = c.ok("the distribution", DistributionGumbel::new_from_mu_sig(loc, scale)) {
                    c.close("given mean", d.mean(), loc, 8.0 * EPS * (loc.abs() + scale));
                    c.close("given variance", d.variance(), scale * scale, 1e-14 * scale * scale);
                    let s = scale * 6f64.sqrt() / PI;
                    let law = Law::Gumbel(loc - EULER_GAMMA * s, s);
                    study(c, &d, &law);
                    if sampling {
                        draw(c, &d, &law, ns);
                    }
                }
            }
        }
        3 => {
            let shape = match c.rng.int(0, 4) {
                0 => *c.rng.pick(&[1.0, 2.0, 0.5, 3.0]),
                1 => c.rng.f(0.2, 1.0),
                2 => c.rng.f(1.05, 2.0),
                3 => c.rng.mag(1.0, 2.5).abs(),
                _ => c.rng.f(2.05, 12.0),
            };
            c.input(format!("Frechet({:?}, {:?}, {:?})", loc, scale, shape));
            go!(DistributionFrechet::new(loc, scale, shape), Law::Frechet(loc, scale, shape));
        }
        _ => {
            let b = loc + scale;
            c.input(format!("Uniform({:?}, {:?})", loc, b));
            go!(DistributionUniform::new(loc, b), Law::Uniform(loc, b));
        }
    }
}

fn invalid(c: &mut Case) {
    let bad = *c.rng.pick(&[-1.0, -1e-9, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let zero = *c.rng.pick(&[0.0, -2.0, f64::NAN, f64::INFINITY]);
    let nonf = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let ok = c.rng.f(0.1, 2.0);
    c.input(format!("invalid parameters {:?} {:?} {:?} with {:?}", bad, zero, nonf, ok));
    c.err("Normal with an invalid deviation", DistributionNormal::new(ok, bad));
    c.err("Normal with an invalid mean", DistributionNormal::new(nonf, ok));
    c.err("Lognormal with an invalid deviation", DistributionLognormal::new(ok, bad));
    c.err("Lognormal with an invalid mean", DistributionLognormal::new(nonf, ok));
    c.err("Lognormal from an invalid deviation", DistributionLognormal::new_from_mu_sig(ok, bad));
    c.err("Lognormal from an invalid mean", DistributionLognormal::new_from_mu_sig(zero, ok));
    c.err("Gumbel with an invalid scale", DistributionGumbel::new(ok, zero));
    c.err("Gumbel with an invalid location", DistributionGumbel::new(nonf, ok));
    c.err("Gumbel from an invalid deviation", DistributionGumbel::new_from_mu_sig(ok, zero));
    c.err("Gumbel from an invalid mean", DistributionGumbel::new_from_mu_sig(nonf, ok));
    c.err("Frechet with an invalid scale", DistributionFrechet::new(ok, zero, ok));
    c.err("Frechet with an invalid shape", DistributionFrechet::new(ok, ok, zero));
    c.err("Frechet with an invalid location", DistributionFrechet::new(nonf, ok, ok));
    c.err("Uniform with reversed limits", DistributionUniform::new(ok, ok - 1.0 - ok));
    c.err("Uniform with invalid limits", DistributionUniform::new(nonf, ok));
    c.err("Uniform with invalid limits", DistributionUniform::new(ok, nonf));
    c.count_n("invalid parameters", 16);
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a case takes one distribution with random parameters and compares density, cumulative function, slope, moments and integrals with independent formulas; one case in eight also draws samples for a Kolmogorov test");
    cx.assume("the C library functions erfc and tgamma are accurate");
    cx.require("points", 1000);
    cx.require("slopes", 1000);
    cx.require("integrated densities", 500);
    cx.require("samples", 10000);
    let n = cx.n(100000, 1000000);
    cx.run("laws", n, one);
    cx.run("invalid", 200, invalid);
}
