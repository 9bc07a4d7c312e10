use crate::prob::*;
use harness::{Case, Ctx};
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Output, Params};
use russell_sparse::{LinSolParams, Ordering, Scaling, Sym};
use std::sync::Arc;

fn variant(c: &mut Case, s: &Stiff) -> Jac {
    let sym = if s.symmetric && c.rng.bool() { Sym::YesFull } else { Sym::No };
    match c.rng.int(0, 2) {
        0 if s.prob.mass.is_none() => Jac::None,
        1 => Jac::Dense(sym),
        _ => Jac::Sparse(sym),
    }
}

fn watch(out: &mut Output<'static, Mon>) {
    out.set_step_callback(|_, h, x, y, m: &mut Mon| {
        m.steps.push((x, h, y.as_data().clone()));
        Ok(false)
    });
}

/// automatic steps: the error stays within a multiple of the tolerance for every variant
fn auto(c: &mut Case) {
    let s = any_stiff(&mut c.rng);
    let tol = 10f64.powf(c.rng.f(-9.0, -3.0));
    let len = match c.rng.int(0, 4) {
        0 => 10f64.powf(c.rng.f(-4.0, -1.0)),
        1 => c.rng.f(2.0, 10.0),
        _ => c.rng.f(0.3, 2.0),
    };
    let (x0, x1) = (s.prob.x0, s.prob.x0 + len);
    let first = variant(c, &s);
    let prob = Arc::new(s.prob);
    let s = Stiff { prob: dummy(), ..s };
    c.input(format!("{} x1={} tol={:e}", prob.name, x1, tol));
    // stiff and algebraic components follow the tolerance of the embedded formula
    let eff = 0.1 * tol.powf(2.0 / 3.0);
    let nv = 3;
    let mut results: Vec<Vec<f64>> = Vec::new();
    for k in 0..nv {
        let mut par = Params::new(Method::Radau5);
        par.set_tolerances(tol, tol, None).unwrap();
        par.step.h_ini = *c.rng.pick(&[1e-6, 1e-4, 1e-4, 1e-2]);
        par.radau5.concurrent = c.rng.chance(0.04);
        par.newton.n_iteration_max = 10;
        if c.rng.chance(0.3) {
            par.radau5.zero_trial = s.linear && c.rng.bool();
            par.radau5.use_pred_control = c.rng.bool();
            par.radau5.theta_max = *c.rng.pick(&[1e-3, 1e-5, 1e-1]);
        }
        if c.rng.chance(0.1) {
            let mut q = LinSolParams::new();
            q.ordering = *c.rng.pick(&[Ordering::Amd, Ordering::Cholmod]);
            q.scaling = *c.rng.pick(&[Scaling::Sum, Scaling::Max, Scaling::No]);
            par.newton.lin_sol_params = Some(q);
        }
        let sym = if s.symmetric && c.rng.bool() { Sym::YesFull } else { Sym::No };
        let jac = match k {
            0 => first,
            1 => Jac::Dense(sym),
            _ => Jac::Sparse(sym),
        };
        let numerical = k == 0 && c.rng.bool();
        par.newton.use_numerical_jacobian = numerical;
        let mut mon = Mon::new();
        let mut out = Output::new();
        watch(&mut out);
        let mut solver = match c.ok("solver", OdeSolver::new(par, system(&prob, jac))) {
            Some(s) => s,
            None => return,
        };
        let mut y = prob.y0();
        let res = solver.solve(&mut y, x0, x1, None, &mut mon, Some(&mut out));
        if let Err(e) = res {
            c.fail(format!("{:?} numerical={} {:?}: {}", jac, numerical, par.radau5, e));
            return;
        }
        let mut worst = 0.0;
        for (x, _, v) in mon.steps.iter() {
            worst = f64::max(worst, prob.err(*x, &Vector::from(v)));
        }
        let name = match (prob.mass.is_some(), numerical) {
            (false, false) => "largest error over tolerance: plain systems",
            (false, true) => "largest error over tolerance: plain systems, numerical Jacobian",
            (true, false) => "largest error over tolerance: mass matrix",
            (true, true) => "largest error over tolerance: mass matrix, numerical Jacobian",
        };
        let lim = 1000.0;
        let e = worst / (s.cond * eff);
        c.max(name, e);
        c.check(e <= lim, || format!("{:?} numerical={} {:?}: largest error {:e}, tolerance {:e}", jac, numerical, par.radau5, worst, tol));
        // stiff problems take few steps
        let st = solver.stats();
        c.max("largest number of steps", st.n_steps as f64);
        c.check(st.n_steps <= 3000, || format!("{} steps for a smooth stiff problem", st.n_steps));
        results.push(y.as_data().clone());
        // serial and concurrent runs are identical
        if k > 0 && c.rng.chance(0.05) {
            par.radau5.concurrent = !par.radau5.concurrent;
            let mut mon2 = Mon::new();
            let mut solver2 = OdeSolver::new(par, system(&prob, jac)).unwrap();
            let mut y2 = prob.y0();
            if c.ok("other threading", solver2.solve(&mut y2, x0, x1, None, &mut mon2, None)).is_some() {
                let (a, b) = (solver.stats(), solver2.stats());
                c.check(y2.as_data() == y.as_data(), || format!("concurrent={}: {:?}, otherwise {:?}", par.radau5.concurrent, y2.as_data(), y.as_data()));
                c.check(mon.nf == mon2.nf && mon.nj == mon2.nj && a.n_accepted == b.n_accepted && a.n_factor == b.n_factor && a.n_lin_sol == b.n_lin_sol, || "serial and concurrent runs differ".to_string());
                c.count("serial and concurrent runs compared");
            }
        }
        c.count(if numerical || jac == Jac::None { "runs with numerical Jacobian" } else { "runs with analytical Jacobian" });
        if prob.mass.is_some() {
            c.count("runs with mass matrix");
        }
        if matches!(jac, Jac::Dense(Sym::YesFull) | Jac::Sparse(Sym::YesFull)) {
            c.count("runs with symmetric storage");
        }
    }
    // variants agree
    for k in 1..results.len() {
        for i in 0..prob.ndim {
            let d = (results[k][i] - results[0][i]).abs();
            c.check(d <= 2000.0 * s.cond * eff, || format!("variants give {} and {} (component {})", results[0][i], results[k][i], i));
        }
    }
}

fn dummy() -> Prob {
    Prob {
        name: String::new(),
        ndim: 1,
        x0: 0.0,
        mass: None,
        f: Box::new(|_, _, _| ()),
        jac: Box::new(|_, _| vec![vec![0.0]]),
        exact: Box::new(|_| vec![0.0]),
    }
}

/// dense Gaussian elimination with partial pivoting
pub fn gauss(a: &mut Vec<Vec<f64>>, b: &mut Vec<f64>) -> bool {
    let n = b.len();
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if a[i][k].abs() > a[p][k].abs() {
                p = i;
            }
        }
        if a[p][k] == 0.0 {
            return false;
        }
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            if f != 0.0 {
                for j in k..n {
                    a[i][j] -= f * a[k][j];
                }
                b[i] -= f * b[k];
            }
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    true
}

/// One step of the collocation method with s points solved by Newton's method on the whole system:
/// M (Y_i - y) = h sum_j a_ij f(x + c_j h, Y_j)
pub fn collocation_step(p: &Prob, aa: &[Vec<f64>], cc: &[f64], x: f64, y: &[f64], h: f64) -> Option<Vec<f64>> {
    let (n, s) = (p.ndim, cc.len());
    let mass = p.mass.clone().unwrap_or_else(|| unit_matrix(n));
    let mut z = vec![0.0; n * s];
    for it in 0..60 {
        let mut r = vec![0.0; n * s];
        let mut jm = vec![vec![0.0; n * s]; n * s];
        for j in 0..s {
            let yj: Vec<f64> = (0..n).map(|i| y[i] + z[j * n + i]).collect();
            let mut f = vec![0.0; n];
            (p.f)(&mut f, x + cc[j] * h, &yj);
            let jj = (p.jac)(x + cc[j] * h, &yj);
            for i in 0..s {
                for a in 0..n {
                    r[i * n + a] -= h * aa[i][j] * f[a];
                    for b in 0..n {
                        jm[i * n + a][j * n + b] -= h * aa[i][j] * jj[a][b];
                    }
                }
            }
        }
        for i in 0..s {
            for a in 0..n {
                for b in 0..n {
                    r[i * n + a] += mass[a][b] * z[i * n + b];
                    jm[i * n + a][i * n + b] += mass[a][b];
                }
            }
        }
        if !gauss(&mut jm, &mut r) {
            return None;
        }
        let mut d = 0.0;
        for i in 0..n * s {
            z[i] -= r[i];
            d = f64::max(d, r[i].abs());
        }
        if !d.is_finite() {
            return None;
        }
        if d < 1e-13 || it > 50 {
            break;
        }
    }
    Some((0..n).map(|i| y[i] + z[(s - 1) * n + i]).collect())
}

pub fn radau_table() -> (Vec<Vec<f64>>, Vec<f64>) {
    let r = 6f64.sqrt();
    (
        vec![
            vec![(88.0 - 7.0 * r) / 360.0, (296.0 - 169.0 * r) / 1800.0, (-2.0 + 3.0 * r) / 225.0],
            vec![(296.0 + 169.0 * r) / 1800.0, (88.0 + 7.0 * r) / 360.0, (-2.0 - 3.0 * r) / 225.0],
            vec![(16.0 - r) / 36.0, (16.0 + r) / 36.0, 1.0 / 9.0],
        ],
        vec![(4.0 - r) / 10.0, (4.0 + r) / 10.0, 1.0],
    )
}

/// equal steps compared with an independent solution of the collocation equations
fn steps(c: &mut Case) {
    let s = if c.rng.chance(0.1) { kaps(&mut c.rng, false) } else { any_stiff(&mut c.rng) };
    let m = if s.prob.mass.is_none() && c.rng.chance(0.35) { Method::BwEuler } else { Method::Radau5 };
    let jac = variant(c, &s);
    let prob = Arc::new(s.prob);
    let linear = s.linear;
    let n = c.rng.int(2, 12);
    let len = if linear { c.rng.f(0.1, 3.0) } else { c.rng.f(0.01, 0.2) };
    let (x0, x1) = (prob.x0, prob.x0 + len);
    let mut par = Params::new(m);
    // the residual of backward Euler cannot be smaller than the rounding of h times the rate
    let (tol, newton) = if m == Method::Radau5 { (1e-9, 1e-3) } else { (1e-8, 1.0) };
    par.set_tolerances(tol, tol, Some(newton)).unwrap();
    par.newton.n_iteration_max = 50;
    par.newton.use_numerical_jacobian = jac == Jac::None || c.rng.chance(0.2);
    par.radau5.concurrent = c.rng.chance(0.04);
    par.radau5.zero_trial = linear && c.rng.chance(0.3);
    par.bweuler.use_modified_newton = m == Method::BwEuler && linear && c.rng.bool();
    c.input(format!("{:?} {} x1={} n={} {:?} numerical={} modified={}", m, prob.name, x1, n, jac, par.newton.use_numerical_jacobian, par.bweuler.use_modified_newton));
    let h = (x1 - x0) / (n as f64);
    let (aa, cc) = if m == Method::Radau5 { radau_table() } else { (vec![vec![1.0]], vec![1.0]) };
    // reference
    let mut want = vec![(prob.exact)(x0)];
    let mut x = x0;
    for _ in 0..n {
        match collocation_step(&prob, &aa, &cc, x, want.last().unwrap(), h) {
            Some(v) => want.push(v),
            None => {
                c.count("reference failed");
                return;
            }
        }
        x += h;
    }
    let mut mon = Mon::new();
    let mut out = Output::new();
    watch(&mut out);
    let mut solver = match c.ok("solver", OdeSolver::new(par, system(&prob, jac))) {
        Some(s) => s,
        None => return,
    };
    let mut y = prob.y0();
    let res = solver.solve(&mut y, x0, x1, Some(h), &mut mon, Some(&mut out));
    if let Err(e) = res {
        if linear && !par.newton.use_numerical_jacobian {
            c.fail(format!("solve: {}", e));
        } else {
            c.count("iterations did not converge with large steps");
        }
        return;
    }
    if !c.check(mon.steps.len() == n + 1, || format!("{} steps instead of {}", mon.steps.len() - 1, n)) {
        return;
    }
    let size = want.iter().flatten().fold(1.0, |m, v| f64::max(m, v.abs()));
    let mut worst = 0.0;
    for k in 0..=n {
        for i in 0..prob.ndim {
            worst = f64::max(worst, (mon.steps[k].2[i] - want[k][i]).abs());
        }
    }
    let (name, lim) = match (m, linear, par.newton.use_numerical_jacobian) {
        (Method::BwEuler, _, _) => ("backward Euler: distance to the reference", 3e-6),
        (_, true, false) => ("linear: distance to the reference", 1e-9),
        (_, true, true) => ("linear, numerical Jacobian: distance to the reference", 1e-6),
        (_, false, _) => ("nonlinear: distance to the reference", 2e-4),
    };
    c.max(name, worst / size);
    c.check(worst <= lim * size, || format!("the steps are off by {:e} from the collocation solution", worst));
    c.count(if m == Method::Radau5 { "collocation steps compared" } else { "backward Euler steps compared" });
    if prob.mass.is_some() {
        c.count("collocation steps with mass matrix");
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("stiff systems, systems with mass matrices and index-1 DAEs with closed-form solutions; three variants of each; equal steps compared with an independent solution of the collocation equations");
    let n = cx.n(8000, 80000);
    cx.run("auto", n, auto);
    let n = cx.n(15000, 150000);
    cx.run("steps", n, steps);
    cx.require("runs with numerical Jacobian", 300);
    cx.require("runs with mass matrix", 1000);
    cx.require("runs with symmetric storage", 300);
    cx.require("serial and concurrent runs compared", 50);
    cx.require("collocation steps compared", 1000);
    cx.require("backward Euler steps compared", 300);
    cx.require("collocation steps with mass matrix", 500);
}
