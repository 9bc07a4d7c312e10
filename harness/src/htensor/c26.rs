use crate::full::*;
use harness::{Case, Ctx, EPS};
use russell_tensor::*;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Solid,
    PlaneStrain,
    PlaneStress,
}

fn params(c: &mut Case) -> (f64, f64) {
    let e = c.rng.mag(-3.0, 9.0).abs();
    let nu = match c.rng.int(0, 5) {
        0 => 0.0,
        1 => 0.25,
        2 => 0.5 - c.rng.mag(-6.0, -1.0).abs(),
        3 => -1.0 + c.rng.mag(-6.0, -1.0).abs(),
        _ => c.rng.f(-0.9, 0.49),
    };
    (e, nu)
}

/// accuracy lost by the parameter: distance to the inadmissible ends
fn loss(nu: f64) -> f64 {
    1.0 / ((1.0 - 2.0 * nu).min(1.0 + nu)).min(1.0)
}

fn judge(c: &mut Case, ela: &LinElasticity, mode: Mode, e: f64, nu: f64, k: f64) {
    let rp = if mode == Mode::Solid { Rep::Symmetric } else { Rep::Symmetric2D };
    c.check(ela.rep() == rp && ela.get_modulus().rep() == rp, || "wrong storage".to_string());
    let lo = loss(nu);
    let tol = 60.0 * k * EPS * lo;
    let (ye, yn) = ela.get_young_poisson();
    c.check((ye - e).abs() <= tol * e, || format!("Young {} want {}", ye, e));
    c.check((yn - nu).abs() <= 20.0 * k * EPS * lo.min(100.0), || format!("Poisson {} want {}", yn, nu));
    let (bulk, shear) = ela.get_bulk_shear();
    let (wb, ws) = (e / (3.0 * (1.0 - 2.0 * nu)), e / (2.0 * (1.0 + nu)));
    c.check((bulk - wb).abs() <= tol * wb, || format!("bulk {} want {}", bulk, wb));
    c.check((shear - ws).abs() <= tol * ws, || format!("shear {} want {}", shear, ws));
    // Hooke's law on component arrays
    let gn = Gen::new(&mut c.rng);
    let mut eps = gn.a2(&mut c.rng, rp);
    if mode == Mode::PlaneStress {
        // the out-of-plane strain is a consequence; any stored value is ignored
        eps[2][2] = if c.rng.bool() { 0.0 } else { eps[2][2] };
    }
    let te = match c.ok("strain", Tensor2::from_std_matrix(&eps, rp)) {
        Some(t) => t,
        None => return,
    };
    let mut ts = d2(&mut c.rng, rp);
    ela.calc_stress(&mut ts, &te);
    let sig = r2(&ts);
    let big = if mode == Mode::PlaneStress { f2(|i, j| if i < 2 && j < 2 { eps[i][j] } else { 0.0 }) } else { eps };
    let big = big.iter().flatten().fold(0.0, |a: f64, b| a.max(b.abs()));
    let mu = ws;
    let want = if mode == Mode::PlaneStress {
        let f = e / (1.0 - nu * nu);
        let mut s = [[0.0; 3]; 3];
        s[0][0] = f * (eps[0][0] + nu * eps[1][1]);
        s[1][1] = f * (eps[1][1] + nu * eps[0][0]);
        s[0][1] = 2.0 * mu * eps[0][1];
        s[1][0] = s[0][1];
        s
    } else {
        let lam = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
        let t = sum(|i| eps[i][i]);
        f2(|i, j| lam * t * dl(i, j) + 2.0 * mu * eps[i][j])
    };
    let top = (wb.abs() + 2.0 * mu + e / (1.0 - nu * nu).abs()) * big;
    for i in 0..3 {
        for j in 0..3 {
            let t = tol * top + 1e-300;
            if !c.check((sig[i][j] - want[i][j]).abs() <= t, || {
                format!("stress ({},{}) = {:?} want {:?} tol {:e} strain {:?}", i, j, sig[i][j], want[i][j], t, eps)
            }) {
                return;
            }
        }
    }
    // the modulus itself gives the same stress
    let mut t3 = d2(&mut c.rng, rp);
    t4_ddot_t2(&mut t3, 1.0, ela.get_modulus(), &te);
    c.check((0..ts.dim()).all(|m| (t3.get(m) - ts.get(m)).abs() <= tol * top + 1e-300), || "modulus and stress differ".to_string());
    if mode == Mode::PlaneStress {
        let ez = c.ok("out_of_plane_strain", ela.out_of_plane_strain(&ts));
        if let Some(ez) = ez {
            // with this strain, the three-dimensional law gives zero out-of-plane stress and the same in-plane stress
            let mut full = eps;
            full[2][2] = ez;
            let lam = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
            let t = sum(|i| full[i][i]);
            let s = f2(|i, j| lam * t * dl(i, j) + 2.0 * mu * full[i][j]);
            let lim = 10.0 * tol * (lam.abs() + 2.0 * mu) * (big + ez.abs()) + 1e-300;
            c.check(s[2][2].abs() <= lim, || format!("out-of-plane stress {:e} (limit {:e})", s[2][2], lim));
            for i in 0..2 {
                for j in 0..2 {
                    c.check((s[i][j] - sig[i][j]).abs() <= lim, || format!("in-plane stress ({},{}) {} want {}", i, j, sig[i][j], s[i][j]));
                }
            }
            let w = -nu / e * (sig[0][0] + sig[1][1]);
            let lim = 4.0 * tol * w.abs() + 80.0 * k * EPS * (sig[0][0].abs() + sig[1][1].abs()) / e + 1e-300;
            c.check((ez - w).abs() <= lim, || format!("out-of-plane strain {} want {}", ez, w));
            c.count("out-of-plane strains");
        }
        c.err("compliance in plane stress", ela.calc_compliance(&mut Tensor4::new(rp)));
    } else {
        c.err("out-of-plane strain without plane stress", ela.out_of_plane_strain(&ts));
        let mut cc = d4(&mut c.rng, rp);
        // compliance: eps = (1+nu)/E sigma - nu/E tr(sigma) I
        if e > 1e-2 && c.ok("calc_compliance", ela.calc_compliance(&mut cc)).is_some() {
            let got = r4(&cc);
            let nd = rp.dim();
            let (k1, k2) = ((1.0 + nu) / e, nu / e);
            let want = f4(|i, j, k, l| {
                let mut s = -k2 * dl(i, j) * dl(k, l);
                let mut id = 0.0;
                for m in 0..nd {
                    let b = basis(m);
                    id += b[i][j] * b[k][l];
                }
                s += k1 * id;
                s
            });
            let lim = 40.0 * EPS * k * lo * lo / e;
            for p in 0..81 {
                let (i, j, q, l) = (p / 27, (p / 9) % 3, (p / 3) % 3, p % 3);
                if !c.check((got[i][j][q][l] - want[i][j][q][l]).abs() <= lim, || {
                    format!("compliance ({},{},{},{}) {:?} want {:?} tol {:e}", i, j, q, l, got[i][j][q][l], want[i][j][q][l], lim)
                }) {
                    return;
                }
            }
            let other = if rp == Rep::Symmetric { Rep::Symmetric2D } else { Rep::Symmetric };
            c.err("compliance in another storage", ela.calc_compliance(&mut Tensor4::new(other)));
            c.count("compliances");
        }
    }
}

fn history(c: &mut Case) {
    let mode = *c.rng.pick(&[Mode::Solid, Mode::PlaneStrain, Mode::PlaneStress]);
    c.count(match mode {
        Mode::Solid => "3D",
        Mode::PlaneStrain => "plane strain",
        Mode::PlaneStress => "plane stress",
    });
    let two = match mode {
        Mode::Solid => false,
        Mode::PlaneStrain => true,
        Mode::PlaneStress => c.rng.bool(),
    };
    let (e, nu) = params(c);
    let mut log = format!("E={:?} nu={:?} 2d={} plane stress={}", e, nu, two, mode == Mode::PlaneStress);
    c.input(log.clone());
    let mut ela = LinElasticity::new(e, nu, two, mode == Mode::PlaneStress);
    judge(c, &ela, mode, e, nu, 1.0);
    for _ in 0..c.rng.int(0, 4) {
        let (mut e, mut nu) = params(c);
        // one of the values (or both) may stay
        let (e0, nu0) = ela.get_young_poisson();
        if c.rng.chance(0.3) {
            e = e0;
        }
        if c.rng.chance(0.3) && (-1.0..0.5).contains(&nu0) {
            nu = nu0;
        }
        if c.rng.bool() {
            log += &format!("; set_young_poisson({:?},{:?})", e, nu);
            c.input(log.clone());
            ela.set_young_poisson(e, nu);
            c.check(ela.get_young_poisson() == (e, nu), || "parameters not kept".to_string());
            judge(c, &ela, mode, e, nu, 1.0);
        } else {
            let (bulk, shear) = (e / (3.0 * (1.0 - 2.0 * nu)), e / (2.0 * (1.0 + nu)));
            log += &format!("; set_bulk_shear({:?},{:?})", bulk, shear);
            c.input(log.clone());
            ela.set_bulk_shear(bulk, shear);
            let (b, s) = ela.get_bulk_shear();
            let lo = loss(nu);
            c.check((b - bulk).abs() <= 100.0 * EPS * lo * bulk, || format!("bulk {} want {}", b, bulk));
            c.check((s - shear).abs() <= 100.0 * EPS * lo * shear, || format!("shear {} want {}", s, shear));
            judge(c, &ela, mode, e, nu, lo.min(1e7));
            c.count("bulk/shear conversions");
        }
        c.count("parameter changes");
    }
    // nothing is left of the former parameters
    let (mut e, mut nu) = params(c);
    if c.rng.bool() {
        e = ela.get_young_poisson().0;
    } else if c.rng.bool() && (-1.0..0.5).contains(&ela.get_young_poisson().1) {
        nu = ela.get_young_poisson().1;
    }
    ela.set_young_poisson(e, nu);
    let fresh = LinElasticity::new(e, nu, two, mode == Mode::PlaneStress);
    let (x, y) = (ela.get_modulus(), fresh.get_modulus());
    c.check((0..x.dim()).all(|m| (0..x.dim()).all(|n| x.get(m, n) == y.get(m, n))), || "modulus depends on former parameters".to_string());
}

pub fn run(cx: &mut Ctx) {
    cx.rule(
        "random sequences of parameter changes (E in 1e-3..1e9, Poisson -1..0.5 incl. close to both ends, bulk/shear) in 3D, plane strain and plane \
         stress; stress, compliance, conversions and out-of-plane strain compared with Hooke's law on component arrays; used outputs; \
         non-trivial: distinct parameter histories",
    );
    cx.run("history", cx.n(100000, 1000000), history);
    for k in ["3D", "plane strain", "plane stress", "out-of-plane strains", "compliances", "bulk/shear conversions", "parameter changes"] {
        cx.require(k, 1000);
    }
}
