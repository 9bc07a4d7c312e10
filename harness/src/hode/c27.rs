use crate::prob::*;
use harness::{Case, Ctx};
use russell_ode::{Method, OdeSolver, Output, Params};
use russell_sparse::Sym;
use std::sync::Arc;

fn jac_choice(c: &mut Case, m: Method, p: &mut Params) -> Jac {
    if m == Method::Radau5 || m == Method::BwEuler {
        match c.rng.int(0, 3) {
            0 => {
                p.newton.use_numerical_jacobian = true;
                Jac::None
            }
            1 => {
                p.newton.use_numerical_jacobian = true;
                Jac::Dense(Sym::No)
            }
            2 => Jac::Sparse(Sym::No),
            _ => Jac::Dense(Sym::No),
        }
    } else {
        if c.rng.chance(0.2) { Jac::Dense(Sym::No) } else { Jac::None }
    }
}

/// polynomial systems that a method of the promised order must integrate without any error
fn polynomial(c: &mut Case) {
    let m = *c.rng.pick(&ALL);
    let p = order(m);
    // mostly trees of the full order
    let nv = if c.rng.chance(0.7) { p } else { c.rng.int(1, p) };
    let all = trees(nv);
    let k = c.rng.int(0, all.len() - 1);
    let tree = all[k].clone();
    let leaf_x = c.rng.bool();
    let zero = c.rng.chance(0.3);
    let y0: Vec<f64> = (0..nv).map(|_| if zero { 0.0 } else { c.rng.f(-1.0, 1.0) }).collect();
    let x0 = *c.rng.pick(&[0.0, 0.0, 1.0, -2.0]);
    let len = c.rng.f(0.5, 1.5);
    let n = *c.rng.pick(&[1, 1, 2, 3, 4, 7]);
    let mut par = Params::new(m);
    let jac = jac_choice(c, m, &mut par);
    let auto = par_embedded(m) && c.rng.chance(0.3);
    // the components of the leaves need their own initial value when they stand for x
    let mut y0f = y0.clone();
    if leaf_x {
        for v in 0..nv {
            if !(1..nv).any(|c| tree[c] == v) {
                y0f[v] = 0.0;
            }
        }
    }
    let prob = Arc::new(tree_prob(&tree, leaf_x && nv > 1, x0, &y0f));
    let implicit = m == Method::Radau5 || m == Method::BwEuler;
    if implicit {
        par.set_tolerances(1e-9, 1e-9, Some(1e-6)).unwrap();
        par.newton.n_iteration_max = 20;
    } else if auto {
        let t = *c.rng.pick(&[1e-3, 1e-6]);
        par.set_tolerances(t, t, None).unwrap();
    }
    c.input(format!("{:?} {} y0={:?} len={} n={} auto={} {:?}", m, prob.name, y0f, len, n, auto, jac));
    let sys = system(&prob, jac);
    let mut mon = Mon::new();
    let x1 = x0 + len;
    let mut solver = match c.ok("solver", OdeSolver::new(par, sys)) {
        Some(s) => s,
        None => return,
    };
    let mut y = prob.y0();
    let h = if auto { None } else { Some((x1 - x0) / (n as f64)) };
    let res = solver.solve(&mut y, x0, x1, h, &mut mon, None);
    if m == Method::Radau5 && !auto && res.is_err() {
        c.count("iterations reported as diverging with large equal steps");
        return;
    }
    if c.ok("solve", res).is_none() {
        return;
    }
    let st = solver.stats();
    let amp = 1.0 + (st.n_accepted as f64);
    let tol = if implicit { 1e-8 } else { 2e-14 * amp };
    let e = prob.err(x1, &y);
    c.max("largest error on polynomial problems", e);
    c.check(e <= tol * 4.0, || format!("error {:e} on a polynomial problem of degree {} (order {}), allowed {:e}", e, nv, p, tol * 4.0));
    c.count("polynomial problems");
    if auto {
        c.count("polynomial problems with automatic steps");
    }
}

fn par_embedded(m: Method) -> bool {
    EMBEDDED.contains(&m)
}

/// observed order with fixed steps
fn fixed(c: &mut Case) {
    let m = *c.rng.pick(&ALL);
    let p = order(m) as f64;
    let prob = Arc::new(smooth(&mut c.rng));
    let len = c.rng.f(0.8, 2.0);
    let (x0, x1) = (prob.x0, prob.x0 + len);
    let mut par = Params::new(m);
    let jac = jac_choice(c, m, &mut par);
    let implicit = m == Method::Radau5 || m == Method::BwEuler;
    if implicit {
        par.set_tolerances(1e-10, 1e-10, Some(1e-5)).unwrap();
        par.newton.n_iteration_max = 20;
    }
    if m == Method::BwEuler {
        par.bweuler.use_modified_newton = c.rng.chance(0.2);
        if par.bweuler.use_modified_newton {
            par.newton.n_iteration_max = 200;
        }
    }
    let base = match order(m) {
        1 => 256,
        2 => 64,
        3 => 32,
        4 => 24,
        5 => 16,
        6 => 12,
        7 => 8,
        _ => 8,
    };
    c.input(format!("{:?} {} len={} steps={} {:?} numerical={}", m, prob.name, len, base, jac, par.newton.use_numerical_jacobian));
    let mut errs = Vec::new();
    for k in 0..3 {
        let n = base << k;
        let sys = system(&prob, jac);
        let mut mon = Mon::new();
        let mut solver = match c.ok("solver", OdeSolver::new(par, sys)) {
            Some(s) => s,
            None => return,
        };
        let mut y = prob.y0();
        // the largest error along the whole trajectory
        let q = prob.clone();
        let mut out = Output::new();
        out.set_step_callback(move |_, _, x, y, m: &mut Mon| {
            m.worst = f64::max(m.worst, q.err(x, y));
            Ok(false)
        });
        let res = solver.solve(&mut y, x0, x1, Some((x1 - x0) / (n as f64)), &mut mon, Some(&mut out));
        if c.ok("solve", res).is_none() {
            return;
        }
        errs.push(mon.worst);
    }
    let floor = if implicit { 2e-10 } else if p > 6.5 { 1e-10 } else { 1e-11 };
    let (o1, o2) = ((errs[0] / errs[1]).log2(), (errs[1] / errs[2]).log2());
    let slope = 0.5 * (errs[0] / errs[2]).log2();
    let good = errs[2] < floor || o1.max(o2).max(slope) > p - 0.9;
    c.check(good, || format!("errors {:?}: observed orders {:.2} and {:.2}, promised {}", errs, o1, o2, p));
    c.check(errs[2] <= 0.3, || format!("errors {:?} with {} steps", errs, base * 4));
    c.count("orders observed");
}

/// error against tolerance with automatic steps
fn auto(c: &mut Case) {
    let m = *c.rng.pick(&EMBEDDED);
    let prob = Arc::new(smooth(&mut c.rng));
    let len = c.rng.f(0.8, 4.0);
    let (x0, x1) = (prob.x0, prob.x0 + len);
    let mut par = Params::new(m);
    let jac = jac_choice(c, m, &mut par);
    par.step.h_ini = *c.rng.pick(&[1e-4, 1e-4, 1e-3, 1e-2, 0.1]);
    if m == Method::Radau5 {
        par.radau5.concurrent = c.rng.chance(0.02);
        par.radau5.zero_trial = c.rng.chance(0.2);
        par.radau5.use_pred_control = c.rng.chance(0.8);
    }
    let tols: &[f64] = match order(m) {
        2 => &[1e-3, 1e-5],
        4 => &[1e-3, 1e-5, 1e-8],
        _ => &[1e-3, 1e-6, 1e-9],
    };
    c.input(format!("{:?} {} len={} h_ini={} {:?} numerical={}", m, prob.name, len, par.step.h_ini, jac, par.newton.use_numerical_jacobian));
    for tol in tols {
        par.set_tolerances(*tol, *tol, None).unwrap();
        let sys = system(&prob, jac);
        let mut mon = Mon::new();
        let mut solver = match c.ok("solver", OdeSolver::new(par, sys)) {
            Some(s) => s,
            None => return,
        };
        let mut y = prob.y0();
        let res = solver.solve(&mut y, x0, x1, None, &mut mon, None);
        if c.ok("solve", res).is_none() {
            return;
        }
        let e = prob.err(x1, &y);
        c.max(name(m), e / tol);
        let k = match m {
            Method::MdEuler => 400.0,
            Method::Fehlberg7 | Method::Zonneveld4 => 800.0,
            Method::DoPri8 => 12000.0,
            _ => 6000.0,
        };
        c.check(e <= k * tol, || format!("error {:e} with tolerance {:e}", e, tol));
        c.count("automatic integrations");
    }
}

/// the typical error against the tolerance, over several problems solved by one method
fn typical(c: &mut Case) {
    let m = *c.rng.pick(&EMBEDDED);
    let tols: &[f64] = match order(m) {
        2 => &[1e-3, 1e-4, 1e-5],
        4 => &[1e-3, 1e-4, 1e-5, 1e-6, 1e-8],
        _ => &[1e-3, 1e-4, 1e-6, 1e-8, 1e-9],
    };
    let tol = *c.rng.pick(tols);
    // the absolute tolerance may be much smaller than the relative one
    let abs = tol * *c.rng.pick(&[1.0, 1.0, 1e-2]);
    c.input(format!("{:?} rel={} abs={}", m, tol, abs));
    let mut ratios = Vec::new();
    for _ in 0..31 {
        let prob = Arc::new(smooth(&mut c.rng));
        let len = c.rng.f(0.8, 4.0);
        let (x0, x1) = (prob.x0, prob.x0 + len);
        let mut par = Params::new(m);
        let jac = jac_choice(c, m, &mut par);
        par.set_tolerances(abs, tol, None).unwrap();
        let mut solver = match c.ok("solver", OdeSolver::new(par, system(&prob, jac))) {
            Some(s) => s,
            None => return,
        };
        let mut y = prob.y0();
        if c.ok("solve", solver.solve(&mut y, x0, x1, None, &mut Mon::new(), None)).is_none() {
            return;
        }
        ratios.push(prob.err(x1, &y) / tol);
    }
    ratios.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (med, high) = (ratios[15], ratios[27]);
    c.max(name2(m), med);
    let limit = match m {
        Method::DoPri5 => 3.0,
        Method::DoPri8 => 2.5,
        Method::Zonneveld4 => 5.0,
        Method::MdEuler | Method::Radau5 => 10.0,
        Method::Fehlberg7 => 14.0,
        Method::Merson4 => 20.0,
        Method::Verner6 => 25.0,
        _ => 100.0,
    };
    c.check(med <= limit && high <= 20.0 * limit, || {
        format!("over 31 problems the error is {:.2} times the tolerance in the median (allowed {}), {:.2} in the 28th", med, limit, high)
    });
    c.count("batches of integrations");
}

fn name2(m: Method) -> &'static str {
    match m {
        Method::Radau5 => "median Radau5",
        Method::MdEuler => "median MdEuler",
        Method::Merson4 => "median Merson4",
        Method::Zonneveld4 => "median Zonneveld4",
        Method::Fehlberg4 => "median Fehlberg4",
        Method::DoPri5 => "median DoPri5",
        Method::Verner6 => "median Verner6",
        Method::Fehlberg7 => "median Fehlberg7",
        _ => "median DoPri8",
    }
}

/// the same problem repeated, or measured in other units, takes the same steps
fn units(c: &mut Case) {
    let m = *c.rng.pick(&EMBEDDED);
    let mut par = Params::new(m);
    let jac = if m == Method::Radau5 { Jac::Dense(Sym::No) } else { Jac::None };
    let blk = block(&mut c.rng);
    let x0 = c.rng.f(-2.0, 2.0);
    let x1 = x0 + c.rng.f(0.8, 3.0);
    let tol = *c.rng.pick(&[1e-3, 1e-4, 1e-5]);
    let ratio = *c.rng.pick(&[1.0, 0.1, 10.0]);
    let times = *c.rng.pick(&[2, 3, 5, 12, 40]);
    let scale = 2.0_f64.powi(*c.rng.pick(&[0, 10, 20, -8]));
    let times = if m == Method::Radau5 && times > 12 { 12 } else { times };
    c.input(format!("{:?} {:?} x0={} x1={} rel={} abs={} repeated {} times, scale {}", m, blk, x0, x1, tol, tol * ratio, times, scale));
    let one = Arc::new(smooth_from(&mut c.rng, vec![blk], x0, false));
    let rep = smooth_from(&mut c.rng, vec![blk; times], x0, false);
    // v = scale y
    let rep = Arc::new(rep);
    let (r1, r2, r3) = (rep.clone(), rep.clone(), rep.clone());
    let many = Arc::new(Prob {
        name: String::new(),
        ndim: rep.ndim,
        x0,
        mass: None,
        f: Box::new(move |r, x, v| {
            let y: Vec<f64> = v.iter().map(|a| a / scale).collect();
            (r1.f)(r, x, &y);
            r.iter_mut().for_each(|a| *a *= scale);
        }),
        jac: Box::new(move |x, v| {
            let y: Vec<f64> = v.iter().map(|a| a / scale).collect();
            (r2.jac)(x, &y)
        }),
        exact: Box::new(move |x| (r3.exact)(x).iter().map(|a| a * scale).collect()),
    });
    let mut res = Vec::new();
    for (p, s) in [(&one, 1.0), (&many, scale)] {
        par.set_tolerances(tol * ratio * s, tol, None).unwrap();
        if m == Method::Radau5 {
            par.newton.n_iteration_max = 10;
        }
        let mut solver = match c.ok("solver", OdeSolver::new(par, system(p, jac))) {
            Some(s) => s,
            None => return,
        };
        let mut y = p.y0();
        if c.ok("solve", solver.solve(&mut y, x0, x1, None, &mut Mon::new(), None)).is_none() {
            return;
        }
        res.push((y, solver.stats().n_accepted));
    }
    let d = one.ndim;
    let mut worst = 0.0;
    for i in 0..many.ndim {
        worst = f64::max(worst, (res[1].0[i] / scale - res[0].0[i % d]).abs());
    }
    c.max("difference between repeated problems", worst);
    c.check(worst <= 0.5 * tol * (1.0 + ratio), || {
        format!("solutions {:?} and {:?} (repeated, rescaled); accepted steps {} and {}", res[0].0.as_data(), res[1].0.as_data(), res[0].1, res[1].1)
    });
    let (na, nb) = (res[0].1 as f64, res[1].1 as f64);
    c.check((na - nb).abs() <= 2.0 + 0.2 * na, || format!("accepted steps: {} and {} (repeated, rescaled)", na, nb));
    c.count("problems repeated and rescaled");
}

fn name(m: Method) -> &'static str {
    match m {
        Method::Radau5 => "error/tolerance Radau5",
        Method::MdEuler => "error/tolerance MdEuler",
        Method::Merson4 => "error/tolerance Merson4",
        Method::Zonneveld4 => "error/tolerance Zonneveld4",
        Method::Fehlberg4 => "error/tolerance Fehlberg4",
        Method::DoPri5 => "error/tolerance DoPri5",
        Method::Verner6 => "error/tolerance Verner6",
        Method::Fehlberg7 => "error/tolerance Fehlberg7",
        _ => "error/tolerance DoPri8",
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random problems with closed-form solutions; polynomial systems indexed by rooted trees (every order condition)");
    let n = cx.n(20000, 100000);
    cx.run("polynomial", n, polynomial);
    let n = cx.n(6000, 30000);
    cx.run("fixed", n, fixed);
    let n = cx.n(6000, 30000);
    cx.run("auto", n, auto);
    let n = cx.n(600, 4000);
    cx.run("typical", n, typical);
    let n = cx.n(4000, 20000);
    cx.run("units", n, units);
    cx.require("polynomial problems", 1000);
    cx.require("orders observed", 300);
    cx.require("automatic integrations", 300);
}
