use crate::full::*;
use harness::{Case, Ctx, EPS, Rng};
use russell_lab::Vector;
use russell_tensor::*;
use std::f64::consts::PI;

fn matmul(a: &A2, b: &A2) -> A2 {
    f2(|i, j| sum(|k| a[i][k] * b[k][j]))
}
fn tr(a: &A2) -> A2 {
    f2(|i, j| a[j][i])
}
pub fn nrm(a: &A2) -> f64 {
    sum2(|i, j| a[i][j] * a[i][j]).sqrt()
}
fn det(a: &A2) -> f64 {
    sum(|i| a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]))
}
fn sym(a: &A2) -> A2 {
    f2(|i, j| if i == j { a[i][i] } else { 0.5 * (a[i][j] + a[j][i]) })
}

fn rotation(rng: &mut Rng, plane: bool) -> A2 {
    if plane {
        let t = rng.f(-PI, PI);
        let (s, c) = t.sin_cos();
        let f = if rng.bool() { 1.0 } else { -1.0 };
        return [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, f]];
    }
    loop {
        let q = [rng.normal(), rng.normal(), rng.normal(), rng.normal()];
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 1e-3 {
            let (w, x, y, z) = (q[0] / n, q[1] / n, q[2] / n, q[3] / n);
            return [
                [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w)],
                [2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w)],
                [2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y)],
            ];
        }
    }
}

fn principal(rng: &mut Rng) -> ([f64; 3], &'static str) {
    let k = rng.int(0, 6);
    let s = if rng.chance(0.3) { rng.mag(-3.0, 5.0).abs() } else { 1.0 };
    let (a, b, c) = (rng.sym() * s, rng.sym() * s, rng.sym() * s);
    let near = rng.mag(-15.0, -3.0) * s;
    match k {
        0 => ([a, a, a], "hydrostatic"),
        1 => ([a, b, b], "axisymmetric"),
        2 => ([a, a + near, a - 0.5 * near], "nearly hydrostatic"),
        3 => ([a, b, b + near], "nearly axisymmetric"),
        4 => ([a, b, 0.0], "singular"),
        _ => ([a, b, c], "distinct"),
    }
}

/// Random component matrix admissible in the storage
pub fn sample(c: &mut Case, rp: Rep) -> (A2, &'static str) {
    let k = c.rng.int(0, 3);
    if k == 0 {
        let gn = Gen::new(&mut c.rng);
        let a = gn.a2(&mut c.rng, rp);
        return (a, "components");
    }
    let (mut p, what) = principal(&mut c.rng);
    c.rng.shuffle(&mut p);
    let d = f2(|i, j| if i == j { p[i] } else { 0.0 });
    let a = if c.rng.chance(0.3) {
        d // aligned with the axes
    } else {
        let q = rotation(&mut c.rng, rp == Rep::Symmetric2D);
        sym(&matmul(&matmul(&q, &d), &tr(&q)))
    };
    let mut a = a;
    if rp == Rep::Symmetric2D {
        a = fit2(&a, rp);
    }
    if rp == Rep::General && c.rng.bool() {
        let (x, y, z) = (c.rng.sym(), c.rng.sym(), c.rng.sym());
        let s = nrm(&a);
        a[0][1] += x * s;
        a[1][0] -= x * s;
        a[1][2] += y * s;
        a[2][1] -= y * s;
        a[0][2] += z * s;
        a[2][0] -= z * s;
    }
    (a, what)
}

struct Inv {
    n: f64,
    ii: [f64; 3],
    j2: f64,
    j3: f64,
    dev: A2,
    dn: f64,
}
fn reference(a: &A2) -> Inv {
    let t = sum(|i| a[i][i]);
    let dev = f2(|i, j| {
        if i == j {
            // (2a - b - c)/3 keeps the small differences of nearly hydrostatic tensors
            let (p, q) = ((i + 1) % 3, (i + 2) % 3);
            ((a[i][i] - a[p][p]) + (a[i][i] - a[q][q])) / 3.0
        } else {
            a[i][j]
        }
    });
    let ii2 = a[0][0] * a[1][1] + a[0][0] * a[2][2] + a[1][1] * a[2][2] - a[0][1] * a[1][0] - a[1][2] * a[2][1] - a[0][2] * a[2][0];
    Inv { n: nrm(a), ii: [t, ii2, det(a)], j2: 0.5 * sum2(|i, j| dev[i][j] * dev[j][i]), j3: det(&dev), dev, dn: nrm(&dev) }
}

fn rep(c: &mut Case) -> Rep {
    let r = *c.rng.pick(&REPS);
    c.count(match r {
        Rep::General => "general storage",
        Rep::Symmetric => "symmetric storage",
        Rep::Symmetric2D => "plane storage",
    });
    r
}

/// Compares every invariant of t with the reference; extra: error of the components relative to the norm
fn compare(c: &mut Case, t: &Tensor2, r: &Inv, extra: f64) {
    let n = r.n;
    let (k1, k2, k3) = (n, n * n, n * n * n);
    let e = 40.0 + extra;
    cmp0(c, "norm", t.norm(), r.n, k1, e);
    cmp0(c, "trace", t.trace(), r.ii[0], k1, e);
    cmp0(c, "I1", t.invariant_ii1(), r.ii[0], k1, e);
    cmp0(c, "I2", t.invariant_ii2(), r.ii[1], k2, e);
    cmp0(c, "I3", t.invariant_ii3(), r.ii[2], k3, e);
    cmp0(c, "determinant", t.determinant(), r.ii[2], k3, e);
    cmp0(c, "J2", t.invariant_jj2(), r.j2, k2, e);
    cmp0(c, "J3", t.invariant_jj3(), r.j3, k3, e);
    cmp0(c, "deviator determinant", t.deviator_determinant(), r.j3, k3, e);
    cmp0(c, "deviator norm", t.deviator_norm(), r.dn, k1, e);
    let s3 = 3.0_f64.sqrt();
    cmp0(c, "sigma_s", t.invariant_sigma_s(), r.ii[0] / s3, k1, e);
    cmp0(c, "sigma_t", t.invariant_sigma_t(), r.dn, k1, e);
    cmp0(c, "p", t.invariant_p(), r.ii[0] / 3.0, k1, e);
    cmp0(c, "q", t.invariant_q(), r.dn * 1.5_f64.sqrt(), k1, e);
    cmp0(c, "eps_s", t.invariant_eps_s(), r.ii[0] / s3, k1, e);
    cmp0(c, "eps_t", t.invariant_eps_t(), r.dn, k1, e);
    cmp0(c, "eps_v", t.invariant_eps_v(), r.ii[0], k1, e);
    cmp0(c, "eps_d", t.invariant_eps_d(), r.dn * (2.0_f64 / 3.0).sqrt(), k1, e);
    let (d, rad, lode) = t.invariants_octahedral();
    cmp0(c, "octahedral distance", d, r.ii[0] / s3, k1, e);
    cmp0(c, "octahedral radius", rad, r.dn, k1, e);
    let l2 = t.invariant_lode();
    c.check(l2.is_some() == lode.is_some() && l2.unwrap_or(0.0) == lode.unwrap_or(0.0), || "the two Lode invariants differ".to_string());
    let unsure = 2.0 * e * EPS * k2;
    match lode {
        None => {
            c.check(r.j2 <= 1e-9 + unsure, || format!("Lode invariant refused with J2={:e}", r.j2));
            c.count("undefined Lode");
        }
        Some(l) => {
            c.check(r.j2 >= 1e-9 - unsure, || format!("Lode invariant accepted with J2={:e}", r.j2));
            if r.j2 > 1e3 * unsure {
                let p = r.j2.powf(1.5);
                let f = 1.5 * s3;
                let want = f * r.j3 / p;
                let tol = 2.0 * e * EPS * (f * k3 / p + 1.5 * want.abs() * k2 / r.j2) + 1e-14;
                c.check((l - want).abs() <= tol, || format!("Lode invariant {} want {} tol {:e}", l, want, tol));
                if t.rep().symmetric() {
                    c.check(l.abs() <= 1.0 + tol, || format!("Lode invariant {} out of range", l));
                    c.count("Lode compared");
                }
            }
        }
    }
}

fn definitions(c: &mut Case) {
    let rp = rep(c);
    let (a, kind) = sample(c, rp);
    c.input(format!("{:?} {} {:?}", rp, kind, a));
    let t = match c.ok("from_std_matrix", Tensor2::from_std_matrix(&a, rp)) {
        Some(t) => t,
        None => return,
    };
    let r = reference(&a);
    compare(c, &t, &r, 0.0);
    let mut dev = d2(&mut c.rng, rp);
    t.deviator(&mut dev);
    let n = r.n;
    cmp2(c, "deviator", &r2(&dev), &r.dev, &f2(|_, _| n), 12.0);
    cmp0(c, "trace of the deviator", dev.trace(), 0.0, n, 12.0);
    // rotated components
    let q = rotation(&mut c.rng, rp == Rep::Symmetric2D);
    let mut b = matmul(&matmul(&q, &a), &tr(&q));
    if rp != Rep::General {
        b = sym(&b);
    }
    if rp == Rep::Symmetric2D {
        b = fit2(&b, rp);
    }
    c.note(format!("{:?} {} {:?} rotated by {:?}", rp, kind, a, q));
    if let Some(tb) = c.ok("rotated", Tensor2::from_std_matrix(&b, rp)) {
        compare(c, &tb, &r, 60.0);
        c.count("rotations");
    }
    // the same components in wider storage have the same invariants
    if rp != Rep::General {
        let g = t.as_general();
        compare(c, &g, &r, 0.0);
    }
    c.count(match kind {
        "hydrostatic" => "hydrostatic",
        "axisymmetric" => "axisymmetric",
        "nearly hydrostatic" => "nearly hydrostatic",
        "nearly axisymmetric" => "nearly axisymmetric",
        _ => "other tensors",
    });
}

fn octahedral(c: &mut Case) {
    let two = c.rng.bool();
    let scale = if c.rng.chance(0.3) { c.rng.mag(-3.0, 6.0).abs() } else { 1.0 };
    let dist = c.rng.sym() * scale;
    let rad = if c.rng.chance(0.05) { 0.0 } else { c.rng.unit() * scale };
    let lode = match c.rng.int(0, 5) {
        0 => *c.rng.pick(&[-1.0, 1.0, 0.0]),
        1 => 1.0 - c.rng.mag(-16.0, -2.0).abs(),
        2 => -1.0 + c.rng.mag(-16.0, -2.0).abs(),
        _ => c.rng.sym(),
    };
    let alpha = match c.rng.int(0, 3) {
        0 => *c.rng.pick(&[-PI, PI, 0.0, PI / 2.0, -PI / 2.0, PI / 6.0]),
        _ => c.rng.f(-PI, PI),
    };
    c.input(format!("octahedral distance={:?} radius={:?} lode={:?} alpha={:?} 2d={}", dist, rad, lode, alpha, two));
    let n = dist.abs() + rad;
    let rp = if two { Rep::Symmetric2D } else { Rep::Symmetric };
    for which in 0..2 {
        let (res, want) = if which == 0 {
            (Tensor2::new_from_octahedral(dist, rad, lode, two), lode)
        } else {
            (Tensor2::new_from_octahedral_alpha(dist, rad, alpha, two), -(3.0 * alpha).sin())
        };
        if let Some(t) = c.ok("new_from_octahedral", res) {
            c.check(t.rep() == rp, || "wrong storage".to_string());
            let (d, r, l) = t.invariants_octahedral();
            cmp0(c, "recovered distance", d, dist, n, 12.0);
            cmp0(c, "recovered radius", r, rad, n, 12.0);
            let unsure = 40.0 * EPS * n * n;
            let j2 = rad * rad / 2.0;
            match l {
                None => {
                    c.check(j2 <= 1e-9 + unsure, || format!("no Lode invariant with J2={:e}", j2));
                }
                Some(l) => {
                    if j2 > 1e3 * unsure {
                        let tol = 200.0 * EPS * (n / rad).powi(3) + 1e-13;
                        c.check((l - want).abs() <= tol, || format!("recovered Lode {} want {} tol {:e}", l, want, tol));
                    }
                }
            }
            // the principal values are positioned on the octahedral plane
            let m = r2(&t);
            c.check((0..3).all(|i| (0..3).all(|j| i == j || m[i][j] == 0.0)), || "shear components".to_string());
            if which == 1 {
                let l1 = (2.0 * m[0][0] - m[1][1] - m[2][2]) / 6.0_f64.sqrt();
                let l3 = (m[2][2] - m[1][1]) / 2.0_f64.sqrt();
                cmp0(c, "first star coordinate", l1, rad * alpha.sin(), n, 12.0);
                cmp0(c, "third star coordinate", l3, rad * alpha.cos(), n, 12.0);
            }
            c.count("octahedral round trips");
        }
    }
    // outside the ranges
    let sign = if c.rng.bool() { 1.0 } else { -1.0 };
    let over = 1.0 + c.rng.mag(-12.0, 1.0).abs();
    c.err("Lode beyond one", Tensor2::new_from_octahedral(dist, rad, sign * over, two).map(|_| ()));
    c.err("alpha beyond pi", Tensor2::new_from_octahedral_alpha(dist, rad, sign * over * PI, two).map(|_| ()));
}

/// Any symmetric tensor: its octahedral invariants must be accepted and rebuilt into an equivalent tensor
fn rebuild(c: &mut Case) {
    let rp = *c.rng.pick(&[Rep::Symmetric, Rep::Symmetric2D]);
    let (a, kind) = sample(c, rp);
    c.input(format!("rebuild {:?} {} {:?}", rp, kind, a));
    let t = match c.ok("from_std_matrix", Tensor2::from_std_matrix(&a, rp)) {
        Some(t) => t,
        None => return,
    };
    let (d, r, l) = t.invariants_octahedral();
    if let Some(l) = l {
        if let Some(x) = c.ok("tensor from its own invariants", Tensor2::new_from_octahedral(d, r, l, rp == Rep::Symmetric2D)) {
            let n = t.norm();
            cmp0(c, "rebuilt I1", x.invariant_ii1(), t.invariant_ii1(), n, 40.0);
            cmp0(c, "rebuilt I2", x.invariant_ii2(), t.invariant_ii2(), n * n, 100.0);
            // the error of the angle is the error of the invariant amplified by the radius
            cmp0(c, "rebuilt I3", x.invariant_ii3(), t.invariant_ii3(), n * n * n, 400.0);
            c.count("rebuilt");
        }
    }
}

fn spectral(c: &mut Case) {
    let two = c.rng.bool();
    let rp = if two { Rep::Symmetric2D } else { Rep::Symmetric };
    let mut sp = Spectral2::new(two);
    let rounds = c.rng.int(1, 3);
    for _ in 0..rounds {
        let (a, kind) = sample(c, rp);
        c.input(format!("spectral 2d={} {} {:?}", two, kind, a));
        let t = match c.ok("from_std_matrix", Tensor2::from_std_matrix(&a, rp)) {
            Some(t) => t,
            None => return,
        };
        if c.ok("decompose", sp.decompose(&t)).is_none() {
            return;
        }
        // the Jacobi iteration stops at an absolute off-diagonal size of 1e-15
        let n = nrm(&a).max(0.1);
        let p: Vec<A2> = sp.projectors.iter().map(r2).collect();
        let l = sp.lambda.as_data().clone();
        c.check(p.len() == 3 && l.len() == 3, || "not three projectors".to_string());
        let unit = f2(|_, _| 1.0);
        let all = f2(|_, _| n);
        cmp2(c, "sum of projectors", &f2(|i, j| p[0][i][j] + p[1][i][j] + p[2][i][j]), &f2(dl), &unit, 100.0);
        for x in 0..3 {
            for y in 0..3 {
                let w = if x == y { p[x] } else { [[0.0; 3]; 3] };
                cmp2(c, "product of projectors", &matmul(&p[x], &p[y]), &w, &unit, 100.0);
            }
            cmp0(c, "trace of a projector", sum(|i| p[x][i][i]), 1.0, 1.0, 100.0);
            cmp2(c, "eigen equation", &matmul(&a, &p[x]), &f2(|i, j| l[x] * p[x][i][j]), &all, 200.0);
        }
        cmp2(c, "reassembled", &f2(|i, j| l[0] * p[0][i][j] + l[1] * p[1][i][j] + l[2] * p[2][i][j]), &a, &all, 100.0);
        // compose over used outputs
        let mut o = d2(&mut c.rng, rp);
        c.ok("compose", sp.compose(&mut o, &sp.lambda));
        cmp2(c, "compose", &r2(&o), &a, &all, 100.0);
        let mu = [c.rng.sym(), c.rng.sym(), c.rng.sym()];
        let mut o = d2(&mut c.rng, rp);
        c.ok("compose", sp.compose(&mut o, &Vector::from(&mu)));
        cmp2(c, "compose with other values", &r2(&o), &f2(|i, j| sum(|k| mu[k] * p[k][i][j])), &unit, 20.0);
        // position on the octahedral plane
        let (l1, l2, l3) = sp.octahedral_basis();
        cmp0(c, "octahedral basis 1", l1, (2.0 * l[0] - l[1] - l[2]) / 6.0_f64.sqrt(), n, 20.0);
        cmp0(c, "octahedral basis 2", l2, t.invariant_sigma_s(), n, 100.0);
        cmp0(c, "octahedral basis 3", l3, (l[2] - l[1]) / 2.0_f64.sqrt(), n, 20.0);
        let r = reference(&a);
        cmp0(c, "octahedral radius", (l1 * l1 + l3 * l3).sqrt(), r.dn, n, 200.0);
        c.count("spectral decompositions");
        c.count(if two { "plane spectral" } else { "3D spectral" });
    }
    let other = *c.rng.pick(&REPS);
    if other != rp {
        c.err("decompose another storage", sp.decompose(&Tensor2::new(other)));
        c.err("compose another storage", sp.compose(&mut Tensor2::new(other), &Vector::new(3)));
    }
    let nbad = *c.rng.pick(&[0, 2, 4]);
    c.err("compose with a wrong number of values", sp.compose(&mut Tensor2::new(rp), &Vector::new(nbad)));
}

pub fn run(cx: &mut Ctx) {
    cx.rule(
        "random tensors in every storage (raw components; prescribed principal values that are distinct, singular, hydrostatic, axisymmetric, \
         or within 1e-15..1e-3 of those; aligned or rotated), randomly rotated; all invariants compared with the definitions on the component \
         matrix; octahedral construction inverted; projectors checked for orthonormality, completeness, eigen equation; \
         non-trivial: distinct tensors and rotations",
    );
    cx.run("definitions", cx.n(40000, 400000), definitions);
    cx.run("octahedral", cx.n(20000, 200000), octahedral);
    cx.run("rebuild", cx.n(40000, 400000), rebuild);
    cx.run("spectral", cx.n(20000, 200000), spectral);
    for k in ["general storage", "symmetric storage", "plane storage", "hydrostatic", "axisymmetric", "nearly hydrostatic", "nearly axisymmetric", "rotations"] {
        cx.require(k, 300);
    }
    for k in ["undefined Lode", "Lode compared", "octahedral round trips", "rebuilt", "plane spectral", "3D spectral"] {
        cx.require(k, 500);
    }
}
