use crate::prob::*;
use harness::{Case, Ctx, EPS};
use russell_lab::Vector;
use russell_ode::{Method, N_EQUAL_STEPS, OdeSolver, Output, Params};
use russell_sparse::Sym;
use std::sync::Arc;

/// Watches accepted steps: position, size, result and the counters reported at that moment
pub fn watch(out: &mut Output<'static, Mon>) {
    out.set_step_callback(|st, h, x, y, m: &mut Mon| {
        m.steps.push((x, h, y.as_data().clone()));
        m.counts.push((st.n_steps, st.n_accepted, st.n_function, m.nf));
        Ok(false)
    });
}

/// The sequence of accepted steps: from x0 to x1, strictly increasing, each announced once
fn trace(c: &mut Case, m: &Mon, x0: f64, x1: f64, y: &Vector, n_accepted: usize) -> bool {
    let s = &m.steps;
    let mag = x0.abs().max(x1.abs());
    let ulps = 4.0 + (s.len() as f64);
    let tol = ulps * EPS * mag + 11.0 * EPS;
    if !c.check(s.len() == n_accepted + 1, || format!("{} announcements for {} accepted steps (plus the initial one)", s.len(), n_accepted)) {
        return false;
    }
    c.check(s[0].0 == x0, || format!("the first announcement is at {} instead of {}", s[0].0, x0));
    for k in 1..s.len() {
        let (a, b, h) = (s[k - 1].0, s[k].0, s[k].1);
        if !c.check(b > a, || format!("step {} goes from {} to {}", k, a, b)) {
            return false;
        }
        c.check(((b - a) - h).abs() <= 3.0 * EPS * mag + 3.0 * EPS * h, || format!("step {} from {} to {} announces the size {}", k, a, b, h));
        c.check(b <= x1 + tol, || format!("step {} ends at {} beyond the end point {}", k, b, x1));
    }
    let last = &s[s.len() - 1];
    c.check((last.0 - x1).abs() <= tol, || format!("the last step ends at {} instead of {}", last.0, x1));
    c.check(last.2.as_slice() == y.as_data().as_slice(), || format!("the last announcement is {:?}, the result {:?}", last.2, y.as_data()));
    true
}

fn auto(c: &mut Case) {
    let m = *c.rng.pick(&EMBEDDED);
    let prob = Arc::new(any_prob(&mut c.rng));
    let mut par = Params::new(m);
    let tol = 10f64.powf(c.rng.f(-7.0, -2.0));
    let tol = if order(m) == 2 { tol.max(1e-5) } else { tol };
    par.set_tolerances(tol, tol, None).unwrap();
    par.step.h_ini = *c.rng.pick(&[1e-6, 1e-4, 1e-4, 1e-2, 0.3, 50.0]);
    if c.rng.chance(0.3) {
        par.step.m_min = c.rng.f(0.05, 0.4);
        par.step.m_max = c.rng.f(1.5, 12.0);
        par.step.m_safety = c.rng.f(0.7, 0.95);
    }
    if c.rng.chance(0.3) {
        par.step.m_first_reject = *c.rng.pick(&[0.0, 0.3]);
    }
    let (mut numerical, mut jac) = (false, Jac::None);
    if m == Method::Radau5 {
        numerical = c.rng.chance(0.3);
        jac = if c.rng.bool() { Jac::Dense(Sym::No) } else { Jac::Sparse(Sym::No) };
        if numerical && c.rng.bool() {
            jac = Jac::None;
        }
        par.newton.use_numerical_jacobian = numerical;
        par.radau5.concurrent = c.rng.chance(0.05);
        par.radau5.zero_trial = c.rng.chance(0.2);
        par.radau5.use_pred_control = c.rng.chance(0.7);
        if c.rng.chance(0.3) {
            par.radau5.theta_max = *c.rng.pick(&[1e-5, 1e-1]);
        }
        if c.rng.chance(0.3) {
            par.newton.n_iteration_max = 10;
        }
    }
    let dense = DENSE.contains(&m) && c.rng.chance(0.3);
    let stiff = (m == Method::DoPri5 || m == Method::DoPri8) && c.rng.chance(0.2);
    par.stiffness.enabled = stiff;
    par.stiffness.stop_with_error = false;
    let len = match c.rng.int(0, 9) {
        0 => 10f64.powf(c.rng.f(-6.0, -1.0)),
        1 => c.rng.f(3.0, 8.0),
        2 => 1.0,
        _ => c.rng.f(0.3, 3.0),
    };
    let (x0, x1) = (prob.x0, prob.x0 + len);
    c.input(format!("{:?} {} x1={} tol={:e} h_ini={} step={:?} {:?} numerical={} dense={} stiffness={}", m, prob.name, x1, tol, par.step.h_ini, par.step, jac, numerical, dense, stiff));
    let mut mon = Mon::new();
    mon.keep = true;
    let mut solver = match c.ok("solver", OdeSolver::new(par, system(&prob, jac))) {
        Some(s) => s,
        None => return,
    };
    let mut out = Output::new();
    watch(&mut out);
    // remember where in the log of function calls each step was announced
    if dense {
        let k = c.rng.int(1, 5);
        let st: Vec<f64> = (1..=k).map(|i| x0 + len * (i as f64) / (k as f64 + 1.0)).collect();
        out.set_dense_x_out(&st).unwrap();
        out.set_dense_recording(&[0]);
    }
    let mut y = prob.y0();
    let res = solver.solve(&mut y, x0, x1, None, &mut mon, Some(&mut out));
    if let Err(e) = res {
        // large steps may leave the region where the equations make sense
        if par.step.h_ini > 0.05 || tol > 1e-4 || m == Method::Radau5 {
            c.count("integrations that reported a failure");
        } else {
            c.fail(format!("solve: {}", e));
        }
        c.check(mon.nf == solver.stats().n_function || numerical || dense, || format!("{} function calls, {} counted (failed run)", mon.nf, solver.stats().n_function));
        return;
    }
    let st = *solver.stats();
    if !trace(c, &mon, x0, x1, &y, st.n_accepted) {
        return;
    }
    // counters
    let extra = if numerical { st.n_jacobian } else { 0 };
    c.check(mon.nf == st.n_function + extra, || format!("{} function calls (of which {} finite-difference base values), {} counted", mon.nf, extra, st.n_function));
    if m == Method::Radau5 && !numerical {
        c.check(mon.nj == st.n_jacobian, || format!("{} Jacobian calls, {} counted", mon.nj, st.n_jacobian));
    } else {
        c.check(mon.nj == 0, || format!("{} Jacobian calls that are not needed", mon.nj));
    }
    for (k, (steps, acc, nf, seen)) in mon.counts.iter().enumerate() {
        c.check(*acc == k, || format!("announcement {} reports {} accepted steps", k, acc));
        c.check(*steps >= *acc, || format!("announcement {} reports {} steps but {} accepted", k, steps, acc));
        if !numerical {
            c.check(nf == seen, || format!("announcement {} reports {} function evaluations; {} were made", k, nf, seen));
        }
    }
    let before = mon.counts[1].0 - 1; // attempts before the first accepted step
    let (steps, acc, rej) = (st.n_steps, st.n_accepted, st.n_rejected);
    if m == Method::Radau5 {
        c.check(steps >= acc + rej + before, || format!("steps={} accepted={} rejected={} before the first={}", steps, acc, rej, before));
        c.check(st.n_factor <= steps && st.n_factor >= 1 && st.n_jacobian <= st.n_factor, || format!("steps={} factorizations={} Jacobians={}", steps, st.n_factor, st.n_jacobian));
        // evaluations beyond the current point come in threes (one per iteration) plus one per accepted step
        let mut total = 0;
        let mut most = 0;
        let mut lastn = 0;
        let mut p = 0;
        for k in 1..mon.counts.len() {
            let seen = mon.counts[k].3;
            let xc = mon.steps[k - 1].0;
            let n = mon.xs[p..seen].iter().filter(|x| **x > xc).count();
            p = seen;
            if mon.steps[k].1 < 1e-12 * (1.0 + xc.abs()) {
                // the stages coincide when the last step is a rounding error
                total = 0;
                break;
            }
            if !c.check(n % 3 == 1, || format!("step {}: {} evaluations beyond {}", k, n, xc)) {
                return;
            }
            lastn = n / 3;
            total += lastn;
            most = most.max(lastn);
        }
        c.check(st.n_lin_sol == total || total == 0, || format!("{} iterations seen, {} linear solves counted", total, st.n_lin_sol));
        if steps == acc && total > 0 {
            c.check(st.n_iterations == lastn && st.n_iterations_max == most, || format!("iterations {} max {}; seen {} max {}", st.n_iterations, st.n_iterations_max, lastn, most));
            c.count("implicit runs without rejections");
        }
        c.count_n("iterations seen", total);
    } else {
        c.check(steps == acc + rej + before, || format!("steps={} accepted={} rejected={} before the first={}", steps, acc, rej, before));
        c.check(st.n_factor == 0 && st.n_lin_sol == 0 && st.n_jacobian == 0, || "an explicit method counts linear algebra".to_string());
        // attempts from the evaluations
        let s = stages(m);
        let k0 = if m == Method::DoPri5 { 1 } else { acc };
        let mut want = steps * (s - 1) + k0;
        if stiff && m == Method::DoPri8 {
            want += acc;
        }
        if dense && m == Method::DoPri8 {
            let d = mon.nf - want.min(mon.nf);
            c.check(mon.nf >= want && d % acc == 0 && d / acc <= 4, || format!("{} evaluations, {} expected plus those for dense output", mon.nf, want));
        } else {
            c.check(mon.nf == want, || format!("{} evaluations for {} attempts ({} accepted), {} expected", mon.nf, steps, acc, want));
        }
    }
    c.count_n("accepted steps", acc);
    c.count_n("rejected steps", rej);
    c.count_n("attempts before the first accepted step", before);
    // the size of the next step obeys the multipliers
    c.count("automatic integrations");
}

fn equal(c: &mut Case) {
    let m = *c.rng.pick(&ALL);
    let implicit = m == Method::Radau5 || m == Method::BwEuler;
    // large explicit steps only on linear problems (others may blow up)
    let prob = if implicit {
        Arc::new(smooth(&mut c.rng))
    } else {
        let (k, x0, couple) = (c.rng.int(1, 3), c.rng.f(-5.0, 5.0), c.rng.bool());
        let x0 = if couple { x0 } else { x0.round() };
        let mut blocks = Vec::new();
        while blocks.len() < k {
            let b = block(&mut c.rng);
            if matches!(b, Block::Spiral(..) | Block::CosLin(..)) {
                blocks.push(b);
            }
        }
        Arc::new(smooth_from(&mut c.rng, blocks, x0, couple))
    };
    let mut par = Params::new(m);
    let len = match c.rng.int(0, 4) {
        0 => 1.0,
        1 => c.rng.int(1, 3) as f64,
        _ => c.rng.f(0.2, 2.0),
    };
    let x0 = prob.x0;
    let x1 = x0 + len;
    let d = x1 - x0;
    let n = match c.rng.int(0, 3) {
        0 => c.rng.int(1, 12),
        1 => c.rng.int(1, 120),
        _ => c.rng.int(1, 400),
    };
    // sizes that divide the interval, decimal sizes, and sizes that do not divide it
    let (h, want) = match c.rng.int(0, 4) {
        0 => (None, 0),
        1 => {
            let r = (n as f64) - c.rng.f(0.05, 0.95);
            (Some(d / r), n)
        }
        2 => (Some(d * c.rng.f(1.0, 5.0)), 1),
        _ => (Some(d / (n as f64)), n),
    };
    let want = match h {
        None => {
            if EMBEDDED.contains(&m) {
                return;
            }
            N_EQUAL_STEPS
        }
        Some(_) => want,
    };
    let (mut numerical, mut jac) = (false, Jac::None);
    if implicit {
        numerical = c.rng.chance(0.3);
        jac = if c.rng.bool() { Jac::Dense(Sym::No) } else { Jac::Sparse(Sym::No) };
        par.newton.use_numerical_jacobian = numerical;
        par.newton.n_iteration_max = 20;
        par.radau5.concurrent = c.rng.chance(0.02);
        par.bweuler.use_modified_newton = c.rng.chance(0.2);
    }
    if m == Method::BwEuler && !par.bweuler.use_modified_newton {
        par.set_tolerances(1e-7, 1e-7, Some(1e-3)).unwrap();
    }
    c.input(format!("{:?} {} x0={} x1={} h={:?} steps wanted={} {:?} numerical={} modified={}", m, prob.name, x0, x1, h, want, jac, numerical, par.bweuler.use_modified_newton));
    let mut mon = Mon::new();
    mon.keep = true;
    let mut solver = match c.ok("solver", OdeSolver::new(par, system(&prob, jac))) {
        Some(s) => s,
        None => return,
    };
    let mut out = Output::new();
    watch(&mut out);
    let mut y = prob.y0();
    if let Err(e) = solver.solve(&mut y, x0, x1, h, &mut mon, Some(&mut out)) {
        if implicit && want < 20 || par.bweuler.use_modified_newton {
            c.count("large implicit steps reported as failing");
        } else {
            c.fail(format!("solve: {}", e));
        }
        return;
    }
    let st = *solver.stats();
    if !trace(c, &mon, x0, x1, &y, st.n_accepted) {
        return;
    }
    c.check(st.n_accepted == want && st.n_steps == want && st.n_rejected == 0, || format!("{} steps ({} accepted, {} rejected), {} requested", st.n_steps, st.n_accepted, st.n_rejected, want));
    let hw = d / (want as f64);
    let mag = x0.abs().max(x1.abs());
    for k in 1..mon.steps.len() {
        let h = mon.steps[k].1;
        c.check((h - hw).abs() <= 4.0 * EPS * (hw + mag), || format!("step {} has the size {} instead of {}", k, h, hw));
    }
    let extra = if numerical { st.n_jacobian } else { 0 };
    c.check(mon.nf == st.n_function + extra, || format!("{} function calls (of which {} finite-difference base values), {} counted", mon.nf, extra, st.n_function));
    if implicit && !numerical {
        c.check(mon.nj == st.n_jacobian, || format!("{} Jacobian calls, {} counted", mon.nj, st.n_jacobian));
    }
    if m == Method::BwEuler && !numerical {
        // one evaluation per iteration; the converged one needs no solve
        c.check(st.n_lin_sol + want == mon.nf, || format!("{} evaluations, {} linear solves, {} steps", mon.nf, st.n_lin_sol, want));
        if par.bweuler.use_modified_newton {
            c.check(st.n_factor == st.n_jacobian && st.n_factor <= st.n_lin_sol, || format!("{} factorizations, {} Jacobians", st.n_factor, st.n_jacobian));
        } else {
            c.check(st.n_factor == st.n_lin_sol && st.n_jacobian == st.n_lin_sol, || format!("{} factorizations, {} Jacobians, {} solves", st.n_factor, st.n_jacobian, st.n_lin_sol));
        }
        let mut p = 0;
        let mut most = 0;
        let mut lastn = 0;
        for k in 1..mon.counts.len() {
            lastn = mon.counts[k].3 - p;
            p = mon.counts[k].3;
            most = most.max(lastn);
        }
        c.check(st.n_iterations == lastn && st.n_iterations_max == most, || format!("iterations {} max {}; seen {} max {}", st.n_iterations, st.n_iterations_max, lastn, most));
    } else if m == Method::Radau5 && !numerical {
        // the initial evaluation, one after each step and three per iteration
        let i = mon.nf as i64 - 1 - want as i64;
        let d = i - 3 * st.n_lin_sol as i64;
        c.check(d >= 0 && d <= 1, || format!("{} evaluations, {} linear solves, {} steps", mon.nf, st.n_lin_sol, want));
    } else if !implicit {
        let s = stages(m);
        let w = if m == Method::DoPri5 { want * (s - 1) + 1 } else { want * s };
        c.check(mon.nf == w, || format!("{} evaluations in {} steps, {} expected", mon.nf, want, w));
    }
    c.count("integrations with equal steps");
    c.count_n("equal steps", want);
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random methods, problems (smooth, steep fronts, van der Pol), intervals, tolerances, step parameters; accepted steps and function calls are watched by callbacks");
    let n = cx.n(40000, 300000);
    cx.run("auto", n, auto);
    let n = cx.n(40000, 300000);
    cx.run("equal", n, equal);
    cx.require("automatic integrations", 3000);
    cx.require("integrations with equal steps", 3000);
    cx.require("rejected steps", 1000);
    cx.require("attempts before the first accepted step", 100);
    cx.require("iterations seen", 1000);
}
