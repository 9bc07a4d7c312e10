use crate::prob::*;
use harness::{Case, Ctx, no_panic};
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Output, Params, System};
use russell_sparse::{Genie, Sym};
use std::sync::Arc;

const STEP_FAIL: &str = "the step callback failed on purpose";
const DENSE_FAIL: &str = "the dense callback failed on purpose";

fn outputs(h_out: Option<f64>) -> Output<'static, Mon> {
    let mut out = Output::new();
    out.set_step_callback(|_, h, x, y, m: &mut Mon| {
        m.steps.push((x, h, y.as_data().clone()));
        if m.steps.len() == m.fail_step {
            return Err(STEP_FAIL);
        }
        Ok(false)
    });
    if let Some(h) = h_out {
        out.set_dense_callback(|_, h, x, y, m: &mut Mon| {
            m.dense.push((x, h, y.as_data().clone()));
            if m.dense.len() == m.fail_dense {
                return Err(DENSE_FAIL);
            }
            Ok(false)
        });
        out.set_dense_h_out(h).unwrap();
    }
    out
}

struct Setup {
    m: Method,
    prob: Arc<Prob>,
    jac: Jac,
    params: Params,
    x1: f64,
    h: Option<f64>,
    /// spacing of the dense output
    h_out: Option<f64>,
    tol: f64,
    scale: f64,
}

impl Setup {
    fn solve(&self, mon: &mut Mon) -> Result<Result<Vector, &'static str>, String> {
        no_panic(|| {
            let mut solver = OdeSolver::new(self.params, system(&self.prob, self.jac))?;
            let mut out = outputs(self.h_out);
            let mut y = self.prob.y0();
            solver.solve(&mut y, self.prob.x0, self.x1, self.h, mon, Some(&mut out))?;
            Ok(y)
        })
    }
}

fn setup(c: &mut Case) -> Setup {
    let m = *c.rng.pick(&ALL);
    let m = if c.rng.chance(0.2) { Method::Radau5 } else { m };
    let m = if c.rng.chance(0.1) { Method::BwEuler } else { m };
    let mut jac = Jac::None;
    let prob = if m == Method::Radau5 && c.rng.bool() {
        let s = any_stiff(&mut c.rng);
        let sym = if s.symmetric && c.rng.bool() { Sym::YesFull } else { Sym::No };
        jac = if c.rng.bool() { Jac::Dense(sym) } else { Jac::Sparse(sym) };
        s.prob
    } else {
        if m == Method::Radau5 || m == Method::BwEuler {
            jac = match c.rng.int(0, 2) {
                0 => Jac::None,
                1 => Jac::Dense(Sym::No),
                _ => Jac::Sparse(Sym::No),
            };
        }
        smooth(&mut c.rng)
    };
    let prob = Arc::new(prob);
    let mut p = Params::new(m);
    let lo = if order(m) <= 2 { -4.0 } else { -7.0 };
    let tol = 10f64.powf(c.rng.f(lo, -3.5));
    p.set_tolerances(tol, tol, if m == Method::BwEuler { Some(c.rng.f(1e-3, 1e-1)) } else { None }).unwrap();
    p.step.h_ini = *c.rng.pick(&[1e-5, 1e-4, 1e-3]);
    p.newton.use_numerical_jacobian = jac == Jac::None || c.rng.chance(0.3);
    p.radau5.concurrent = c.rng.chance(0.1);
    p.bweuler.use_modified_newton = c.rng.chance(0.4);
    let len = c.rng.f(0.2, 1.0);
    let h = if !EMBEDDED.contains(&m) || c.rng.chance(0.3) { Some(len / c.rng.f(8.0, 100.0)) } else { None };
    let h_out = if DENSE.contains(&m) && c.rng.bool() { Some(len * c.rng.f(0.02, 0.4)) } else { None };
    let x1 = prob.x0 + len;
    let scale = 1.0 + prob.size(prob.x0).max(prob.size(x1));
    c.input(format!(
        "{:?} {} x0={} x1={} h={:?} jac={:?} numerical={} concurrent={} modified={} tol={:e} h_ini={} h_out={:?}",
        m, prob.name, prob.x0, x1, h, jac, p.newton.use_numerical_jacobian, p.radau5.concurrent, p.bweuler.use_modified_newton, tol, p.step.h_ini, h_out
    ));
    Setup { m, prob, jac, params: p, x1, h, h_out, tol, scale }
}

/// callbacks that fail and functions that return infinity or NaN
fn faults(c: &mut Case) {
    let s = setup(c);
    let mut base = Mon::new();
    let clean = match s.solve(&mut base) {
        Ok(Ok(y)) => y,
        Ok(Err(_)) => {
            // equal steps may be too large for the problem
            c.count("faults: no undisturbed result");
            return;
        }
        Err(p) => {
            c.fail(format!("panic: {}", p));
            return;
        }
    };
    let reps = if c.thorough { 10 } else { 6 };
    // numbers of calls with some room for runs disturbed by the fault
    let limit = 50 * base.nf + 20000;
    for _ in 0..reps {
        let kind = c.rng.int(0, 5);
        let mut mon = Mon::new();
        mon.limit = limit;
        let expected = match kind {
            0 => {
                mon.fail_f = if c.rng.chance(0.2) { base.nf } else { c.rng.int(1, base.nf) };
                FAIL_F
            }
            1 if base.nj > 0 => {
                mon.fail_j = c.rng.int(1, base.nj);
                FAIL_J
            }
            2 if base.steps.len() > 0 => {
                mon.fail_step = if c.rng.chance(0.2) { base.steps.len() } else { c.rng.int(1, base.steps.len()) };
                STEP_FAIL
            }
            3 if base.dense.len() > 0 => {
                mon.fail_dense = if c.rng.chance(0.2) { base.dense.len() } else { c.rng.int(1, base.dense.len()) };
                DENSE_FAIL
            }
            4 | 5 => {
                mon.bad_once = kind == 5;
                mon.bad_value = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let last = base.nf.saturating_sub(if kind == 5 { 0 } else { 3 * (stages(s.m) + s.prob.ndim + 4) });
                if last < 1 {
                    continue;
                }
                mon.bad_f = c.rng.int(1, last);
                ""
            }
            _ => continue,
        };
        let what = format!(
            "fail_f={} fail_j={} fail_step={} fail_dense={} bad_f={} bad_value={} once={}",
            mon.fail_f, mon.fail_j, mon.fail_step, mon.fail_dense, mon.bad_f, mon.bad_value, mon.bad_once
        );
        let res = s.solve(&mut mon);
        if !c.check(!mon.cut, || format!("{}: the run does not come to an end ({} calls, {} without the fault)", what, mon.nf, base.nf)) {
            return;
        }
        match res {
            Err(p) => {
                c.fail(format!("{}: panic: {}", what, p));
                return;
            }
            Ok(Ok(y)) => {
                if kind < 4 {
                    c.fail(format!("{}: success although a callback failed", what));
                    return;
                }
                if kind == 4 {
                    c.fail(format!("{}: success although the function is not finite from call {} of {} on", what, mon.bad_f, base.nf));
                    return;
                }
                // one bad value: a result must be as good as usual
                let allowed = if s.h.is_some() { 1e-6 * s.scale } else { s.scale * (2e3 * s.tol).min(0.05) };
                let mut d: f64 = 0.0;
                for i in 0..s.prob.ndim {
                    let e = (y[i] - clean[i]).abs();
                    if !(e <= d) {
                        d = e;
                    }
                }
                if s.prob.mass.is_some() || s.m == Method::Radau5 && s.h.is_some() {
                    // the jacobian may have been disturbed; then only finite values are required
                    c.check(d.is_finite(), || format!("{}: the result is not finite", what));
                } else {
                    c.max("one bad value: deviation over tolerance", d / allowed);
                    c.check(d <= allowed, || format!("{}: the result deviates by {:e} (allowed {:e})", what, d, allowed));
                }
                c.count("one bad value: recovered");
            }
            Ok(Err(e)) => {
                if kind < 4 {
                    c.check(e == expected, || format!("{}: the error is '{}'", what, e));
                    let ok = match kind {
                        0 => mon.nf == mon.fail_f,
                        1 => mon.nj == mon.fail_j,
                        2 => mon.steps.len() == mon.fail_step,
                        _ => mon.dense.len() == mon.fail_dense,
                    };
                    c.check(ok, || format!("{}: the callback was called again after it failed", what));
                    c.count(match kind {
                        0 => "fault: function",
                        1 => "fault: Jacobian",
                        2 => "fault: step callback",
                        _ => "fault: dense callback",
                    });
                } else {
                    c.check(e != FAIL_F && e != FAIL_J && e.len() > 0, || format!("{}: strange error {}", what, e));
                    c.count(if kind == 4 { "fault: not finite from some call on" } else { "one bad value: reported" });
                }
            }
        }
        if c.failed() {
            return;
        }
    }
}

/// few steps only: non-finite values at the first or at the last calls
fn few_steps(c: &mut Case) {
    let mut s = setup(c);
    let len = s.x1 - s.prob.x0;
    if s.h.is_some() {
        s.h = Some(len / c.rng.int(1, 4) as f64);
    } else {
        s.params.step.h_ini = len * *c.rng.pick(&[1.0, 2.0, 0.5, 0.1]);
        s.tol = 10f64.powf(c.rng.f(-3.0, -1.0));
        s.params.set_tolerances(s.tol, s.tol, None).unwrap();
    }
    let mut base = Mon::new();
    let clean = match s.solve(&mut base) {
        Ok(Ok(y)) => y,
        Ok(Err(_)) => {
            c.count("few steps: no undisturbed result");
            return;
        }
        Err(p) => {
            c.fail(format!("panic: {}", p));
            return;
        }
    };
    for _ in 0..6 {
        let mut mon = Mon::new();
        mon.limit = 50 * base.nf + 20000;
        mon.bad_once = c.rng.bool();
        mon.bad_value = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        mon.bad_f = c.rng.int(1, base.nf);
        let what = format!("h={:?} h_ini={} tol={:e} bad_f={} of {} bad_value={} once={}", s.h, s.params.step.h_ini, s.tol, mon.bad_f, base.nf, mon.bad_value, mon.bad_once);
        match s.solve(&mut mon) {
            Err(p) => {
                c.fail(format!("{}: panic: {}", what, p));
            }
            Ok(Ok(y)) => {
                c.check(y.as_data().iter().all(|v| v.is_finite()), || format!("{}: success with {:?} instead of {:?}", what, y.as_data(), clean.as_data()));
                c.count("few steps: recovered");
            }
            Ok(Err(_)) => c.count(if base.steps.len() <= 2 { "few steps: reported by the only step" } else { "few steps: reported" }),
        }
        c.check(!mon.cut, || format!("{}: the run does not come to an end", what));
        if c.failed() {
            return;
        }
    }
}

/// limit on the number of steps
fn limits(c: &mut Case) {
    let mut s = setup(c);
    if !EMBEDDED.contains(&s.m) {
        c.count("limits: not automatic");
        return;
    }
    s.h = None;
    s.h_out = None;
    let mut base = Mon::new();
    let mut solver = match OdeSolver::new(s.params, system(&s.prob, s.jac)) {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("new: {}", e));
            return;
        }
    };
    let mut clean = s.prob.y0();
    if let Err(e) = solver.solve(&mut clean, s.prob.x0, s.x1, None, &mut base, None) {
        c.fail(format!("undisturbed run: {}", e));
        return;
    }
    let n = solver.stats().n_steps;
    for _ in 0..5 {
        let limit = match c.rng.int(0, 3) {
            0 => n + 1 + c.rng.int(0, 3),
            1 => n.saturating_sub(1).max(1),
            _ => c.rng.int(1, n),
        };
        if limit == n {
            continue;
        }
        let mut p = s.params;
        p.step.n_step_max = limit;
        let mut solver = OdeSolver::new(p, system(&s.prob, s.jac)).unwrap();
        let mut y = s.prob.y0();
        let mut mon = Mon::new();
        let res = solver.solve(&mut y, s.prob.x0, s.x1, None, &mut mon, None);
        if limit < n {
            c.check(res.is_err(), || format!("success with at most {} steps although {} are needed", limit, n));
            c.check(solver.stats().n_steps <= limit, || format!("{} steps with a limit of {}", solver.stats().n_steps, limit));
            c.check(mon.nf <= base.nf, || format!("{} calls with a limit on the steps, {} without", mon.nf, base.nf));
            c.count("limits: too few steps");
        } else {
            c.check(res.is_ok(), || format!("{:?} with at most {} steps although {} are needed", res, limit, n));
            c.check(y.as_data() == clean.as_data(), || format!("the limit of {} steps changes the result ({} are needed)", limit, n));
            c.count("limits: enough steps");
        }
        if c.failed() {
            return;
        }
    }
}

/// problems whose solution cannot be continued up to the end of the interval
fn dead_ends(c: &mut Case) {
    let m = *c.rng.pick(&EMBEDDED);
    let kind = c.rng.int(0, 5);
    let dim = c.rng.int(1, 3);
    let pos = c.rng.int(0, dim - 1);
    let x0 = if c.rng.bool() { 0.0 } else { c.rng.f(-3.0, 3.0) };
    let len = c.rng.f(0.3, 1.5);
    let xs = x0 + len; // the solution ends here
    let x1 = x0 + len * *c.rng.pick(&[1.05, 1.5, 3.0]);
    let mut p = Params::new(m);
    let tol = 10f64.powf(c.rng.f(-6.0, -4.0));
    p.set_tolerances(tol, tol, None).unwrap();
    p.step.h_ini = *c.rng.pick(&[1e-4, 1e-3, 1e-2]);
    p.step.n_step_max = c.rng.int(500, 3000);
    p.newton.use_numerical_jacobian = c.rng.bool();
    p.radau5.concurrent = c.rng.chance(0.1);
    let bad = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let limit = c.rng.f(1.5, 4.0);
    let name = match kind {
        0 => format!("y' = y^2 with pole at {}", xs),
        1 => format!("y' = exp(y) with y -> inf at {}", xs),
        2 => format!("y' = sqrt({} - x)", xs),
        3 => format!("y' = -1/sqrt(y) with y = 0 at {}", xs),
        4 => format!("y' is {} for x > {}", bad, xs),
        _ => format!("y' = y is {} for y > {}", bad, limit),
    };
    c.input(format!("{:?} {} x0={} x1={} dim={} pos={} tol={:e} h_ini={} n_step_max={} numerical={} concurrent={}", m, name, x0, x1, dim, pos, tol, p.step.h_ini, p.step.n_step_max, p.newton.use_numerical_jacobian, p.radau5.concurrent));
    let y_ini = match kind {
        0 => 1.0 / len,
        1 => -f64::ln(len),
        2 => 0.0,
        3 => (1.5 * len).powf(2.0 / 3.0),
        4 => 1.0,
        _ => limit * f64::exp(-len),
    };
    let call_limit = 60 * p.step.n_step_max * (stages(m) + dim + 8);
    let mut sys = System::new(dim, move |f: &mut Vector, x: f64, y: &Vector, a: &mut Mon| {
        a.nf += 1;
        if a.nf > call_limit {
            a.cut = true;
            return Err(CUT);
        }
        for i in 0..dim {
            f[i] = -y[i];
        }
        let v = y[pos];
        f[pos] = match kind {
            0 => v * v,
            1 => f64::exp(v),
            2 => f64::sqrt(xs - x),
            3 => -1.0 / v.sqrt(),
            4 => if x > xs { bad } else { v },
            _ => if v > limit { bad } else { v },
        };
        Ok(())
    });
    if !p.newton.use_numerical_jacobian {
        sys.set_jacobian(Some(dim), Sym::No, move |jj, alpha, _, y, a: &mut Mon| {
            a.nj += 1;
            jj.reset();
            for i in 0..dim {
                let v = y[i];
                let d = if i != pos {
                    -1.0
                } else {
                    match kind {
                        0 => 2.0 * v,
                        1 => f64::exp(v),
                        2 => 0.0,
                        3 => 0.5 / (v * v.sqrt()),
                        _ => 1.0,
                    }
                };
                jj.put(i, i, alpha * d)?;
            }
            Ok(())
        })
        .unwrap();
    }
    let mut mon = Mon::new();
    let res = no_panic(|| {
        let mut solver = OdeSolver::new(p, sys)?;
        let mut y = Vector::new(dim);
        y.fill(1.0);
        y[pos] = y_ini;
        solver.solve(&mut y, x0, x1, None, &mut mon, None)?;
        Ok::<_, &'static str>(y)
    });
    c.check(!mon.cut, || format!("the run does not come to an end ({} calls)", mon.nf));
    match res {
        Err(e) => c.fail(format!("panic: {}", e)),
        Ok(Ok(y)) => c.fail(format!("success with y = {:?} beyond the end of the solution", y.as_data())),
        Ok(Err(_)) => (),
    }
    c.max("dead ends: calls", mon.nf as f64);
    c.count(match kind {
        0 => "dead end: pole",
        1 => "dead end: logarithmic pole",
        2 => "dead end: square root",
        3 => "dead end: extinction",
        4 => "dead end: undefined function in x",
        _ => "dead end: undefined function in y",
    });
}

/// stiffness detection of the explicit methods
fn stiffness(c: &mut Case) {
    let m = *c.rng.pick(&[Method::DoPri5, Method::DoPri8]);
    let stiff = c.rng.chance(0.6);
    let dim = c.rng.int(1, 4);
    // amplitudes small enough for the step not to be limited by accuracy
    let rate = if stiff { c.rng.f(2000.0, 8000.0) } else { c.rng.f(0.2, 2.0) };
    let tol = 10f64.powf(c.rng.f(-6.0, -3.0));
    let mut p = Params::new(m);
    p.set_tolerances(tol, tol, None).unwrap();
    p.step.h_ini = 1e-4;
    p.stiffness.enabled = true;
    p.stiffness.stop_with_error = c.rng.bool();
    p.stiffness.save_results = c.rng.bool();
    let enabled = !c.rng.chance(0.15);
    p.stiffness.enabled = enabled;
    let x1 = if stiff { 2.0 } else { c.rng.f(2.0, 6.0) };
    c.input(format!("{:?} rate={} dim={} tol={:e} x1={} enabled={} stop={} save={}", m, rate, dim, tol, x1, enabled, p.stiffness.stop_with_error, p.stiffness.save_results));
    let sys = System::new(dim, move |f: &mut Vector, x: f64, y: &Vector, a: &mut Mon| {
        a.nf += 1;
        if a.nf > 2_000_000 {
            a.cut = true;
            return Err(CUT);
        }
        // all but the first component move along slowly
        f[0] = -rate * (y[0] - x.cos()) - x.sin();
        for i in 1..dim {
            f[i] = -(i as f64) * 0.3 * y[i];
        }
        Ok(())
    });
    let mut mon = Mon::new();
    let mut solver = OdeSolver::new(p, sys).unwrap();
    let mut y = Vector::new(dim);
    y.fill(1.0);
    let res = solver.solve(&mut y, 0.0, x1, None, &mut mon, None);
    if stiff && enabled && p.stiffness.stop_with_error {
        c.check(res.is_err(), || format!("success although the problem is stiff ({} steps)", solver.stats().n_accepted));
        if let Err(e) = res {
            c.check(e.contains("stiff"), || format!("the error is '{}'", e));
        }
        c.count("stiffness: stopped");
    } else {
        c.check(res.is_ok(), || format!("{:?}", res));
        if res.is_ok() {
            let e = (y[0] - x1.cos()).abs();
            c.check(e < 100.0 * tol, || format!("error {:e}", e));
        }
        c.count(match (stiff, enabled) {
            (true, true) => "stiffness: recorded only",
            (true, false) => "stiffness: not enabled",
            _ => "stiffness: problem is not stiff",
        });
    }
}

/// settings and arguments that must be rejected
fn invalid(c: &mut Case) {
    let m = *c.rng.pick(&ALL);
    let implicit = m == Method::Radau5 || m == Method::BwEuler;
    let dim = c.rng.int(1, 4);
    let nan = c.rng.chance(0.3);
    let make = move |sys_kind: usize| -> Result<System<'static, Mon>, &'static str> {
        let mut s = System::new(dim, move |f: &mut Vector, _: f64, y: &Vector, a: &mut Mon| {
            a.nf += 1;
            if a.nf > 100_000 {
                a.cut = true;
                return Err(CUT);
            }
            for i in 0..y.dim() {
                f[i] = -y[i];
            }
            Ok(())
        });
        // 1: more Jacobian entries than announced; 2: row out of range; 3: lower triangle; 4: upper triangle
        // 5: mass; 6: singular iteration matrix; 7: no entries of the mass matrix and none of the Jacobian in one row
        let sym = match sys_kind {
            3 => Sym::YesLower,
            4 => Sym::YesUpper,
            _ => Sym::No,
        };
        if sys_kind > 0 && sys_kind != 5 {
            let extra = dim; // capacity beyond the diagonal is available in BwEuler
            s.set_jacobian(Some(dim), sym, move |jj, alpha, _, _, a: &mut Mon| {
                a.nj += 1;
                jj.reset();
                for i in 0..dim {
                    let d = if sys_kind == 7 && i == dim - 1 { 0.0 } else { -1.0 };
                    jj.put(i, i, alpha * d)?;
                }
                if sys_kind == 1 {
                    for i in 0..extra {
                        jj.put(i, i, 0.0)?;
                    }
                }
                if sys_kind == 2 {
                    jj.reset();
                    jj.put(dim, 0, alpha)?;
                }
                Ok(())
            })?;
        }
        if sys_kind == 5 || sys_kind == 7 {
            s.set_mass(Some(dim), sym, move |mm| {
                for i in 0..dim {
                    let d = if sys_kind == 7 && i == dim - 1 { 0.0 } else { 1.0 };
                    mm.put(i, i, d).unwrap();
                }
            })?;
        }
        Ok(s)
    };
    let mut mon = Mon::new();
    let mut p = Params::new(m);
    p.newton.use_numerical_jacobian = true;
    let what = c.rng.int(0, 24);
    let bad = |v: f64| if nan { f64::NAN } else { v };
    let pick = c.rng.int(0, 1);
    let neg = -c.rng.mag(-3.0, 3.0).abs();
    let mut desc = String::new();
    let mut changed = true;
    match what {
        0 => { p.step.m_min = bad(*c.rng.pick(&[0.0, -0.1, 0.0009, 0.51, 1.0])); desc = format!("m_min={}", p.step.m_min) }
        1 => { p.step.m_max = bad(*c.rng.pick(&[0.009, -1.0, 20.1, 0.0])); desc = format!("m_max={}", p.step.m_max) }
        2 => { p.step.m_min = 0.4; p.step.m_max = *c.rng.pick(&[0.4, 0.39, 0.1]); desc = format!("m_min=0.4 m_max={}", p.step.m_max) }
        3 => { p.step.m_safety = bad(*c.rng.pick(&[0.09, 1.01, -1.0, 0.0])); desc = format!("m_safety={}", p.step.m_safety) }
        4 => { p.step.m_first_reject = bad(neg); desc = format!("m_first_reject={}", p.step.m_first_reject) }
        5 => { p.step.h_ini = bad(*c.rng.pick(&[0.0, 9e-9, -1.0])); desc = format!("h_ini={}", p.step.h_ini) }
        6 => { p.step.n_step_max = 0; desc = "n_step_max=0".into() }
        7 => { p.step.rel_error_prev_min = bad(*c.rng.pick(&[0.0, 9e-9, -1.0])); desc = format!("rel_error_prev_min={}", p.step.rel_error_prev_min) }
        8 => { p.newton.n_iteration_max = 0; desc = "n_iteration_max=0".into() }
        9 => { p.radau5.theta_max = bad(*c.rng.pick(&[0.0, 9e-8, -1.0])); desc = format!("theta_max={}", p.radau5.theta_max) }
        10 => {
            if pick == 0 { p.radau5.c1h = bad(*c.rng.pick(&[0.49, 1.51, -1.0])); } else { p.radau5.c2h = bad(*c.rng.pick(&[0.99, 2.01, -1.0])); }
            desc = format!("c1h={} c2h={}", p.radau5.c1h, p.radau5.c2h)
        }
        11 => { p.radau5.c1h = 1.4; p.radau5.c2h = *c.rng.pick(&[1.4, 1.3, 1.0]); desc = format!("c1h=1.4 c2h={}", p.radau5.c2h) }
        12 => {
            if pick == 0 { p.erk.lund_beta = bad(*c.rng.pick(&[-0.01, 0.11, 5.0])); } else { p.erk.lund_m = bad(*c.rng.pick(&[-0.01, 1.1])); }
            desc = format!("lund_beta={} lund_m={}", p.erk.lund_beta, p.erk.lund_m)
        }
        13 if implicit => { p.newton.genie = *c.rng.pick(&[Genie::Mumps, Genie::Cudss]); desc = format!("{:?}", p.newton.genie) }
        _ => changed = false,
    }
    if changed {
        c.input(format!("{:?} {}", m, desc));
        // the values of another family are validated as well, or are not used
        let relevant = match what {
            8..=11 => m == Method::Radau5 || (what == 8 && m == Method::BwEuler),
            12 => !implicit,
            _ => true,
        };
        let res = no_panic(|| OdeSolver::new(p, make(0)?).map(|_| ()));
        match res {
            Err(e) => c.fail(format!("panic: {}", e)),
            Ok(r) => {
                if relevant {
                    c.check(r.is_err(), || format!("accepted when creating a solver"));
                }
            }
        }
        let mut good = Params::new(m);
        good.newton.use_numerical_jacobian = true;
        let mut solver = OdeSolver::new(good, make(0).unwrap()).unwrap();
        let res = no_panic(|| solver.update_params(p));
        match res {
            Err(e) => c.fail(format!("panic: {}", e)),
            Ok(r) => {
                if relevant {
                    c.check(r.is_err(), || format!("accepted when updating a solver"));
                }
            }
        }
        // the solver still works with the old values
        if relevant {
            let mut y = Vector::new(dim);
            y.fill(1.0);
            let r = solver.solve(&mut y, 0.0, 0.1, None, &mut mon, None);
            c.check(r.is_ok() && y.as_data().iter().all(|v| (v - f64::exp(-0.1)).abs() < 0.01), || format!("after a rejected update: {:?} {:?}", r, y.as_data()));
        }
        c.count("invalid: parameters");
        return;
    }
    let (mut x0, mut x1, mut h, mut ny, mut sys_kind) = (0.0, 0.1, None, dim, 0);
    let mut out: Option<Output<'static, Mon>> = None;
    let mut tolerances = None;
    let mut bad_output = None;
    match what {
        14 => {
            ny = *c.rng.pick(&[dim + 1, dim - 1, dim + 7, 0]);
            desc = format!("vector of dimension {} instead of {}", ny, dim);
        }
        15 => {
            match c.rng.int(0, 4) {
                0 => x1 = -0.1,
                1 => x1 = 0.0,
                2 => x1 = bad(f64::INFINITY),
                3 => x0 = bad(f64::NEG_INFINITY),
                _ => {
                    x0 = 1e300;
                    x1 = 1e300;
                }
            }
            desc = format!("interval {}..{}", x0, x1);
        }
        16 | 13 => {
            h = Some(bad(*c.rng.pick(&[0.0, -0.01, -1e300, f64::NEG_INFINITY, 1e-16])));
            desc = format!("h_equal={:?}", h);
        }
        17 => {
            if m == Method::Radau5 {
                desc = "nothing".into();
            } else {
                sys_kind = 5;
                desc = "mass matrix".into();
            }
        }
        18 => {
            if implicit {
                sys_kind = c.rng.int(1, 4);
                p.newton.use_numerical_jacobian = false;
                desc = match sys_kind {
                    1 => "more entries in the Jacobian than announced",
                    2 => "Jacobian with an entry out of range",
                    3 => "lower triangle of a Jacobian with a solver that needs all entries",
                    _ => "upper triangle of a Jacobian with a solver that needs all entries",
                }
                .into();
            } else {
                desc = "nothing".into();
            }
        }
        19 => {
            if DENSE.contains(&m) {
                let mut o = Output::new();
                o.set_dense_recording(&[0]);
                let at = *c.rng.pick(&[0.0, -0.1, 0.1, 0.2, f64::MAX]);
                let list = if c.rng.bool() { vec![at] } else if at >= 0.1 { vec![0.05, at] } else { vec![at, 0.05] };
                desc = format!("stations {:?}", list);
                bad_output = o.set_dense_x_out(&list).err();
                out = Some(o);
            } else {
                let mut o = Output::new();
                o.set_dense_recording(&[0]);
                o.set_dense_h_out(0.02).unwrap();
                desc = "dense output".into();
                out = Some(o);
            }
        }
        20 => {
            let mut o = Output::new();
            let k = dim + c.rng.int(0, 3);
            if DENSE.contains(&m) && c.rng.bool() {
                o.set_dense_h_out(0.02).unwrap();
                o.set_dense_recording(&[0, k]);
            } else {
                o.set_step_recording(&[k, 0]);
            }
            desc = format!("recording of component {} of {}", k, dim);
            out = Some(o);
        }
        21 => {
            let t = bad(*c.rng.pick(&[0.0, -1e-3, 1e-15]));
            let which = c.rng.int(0, 1);
            desc = format!("tolerance {} (position {})", t, which);
            tolerances = Some(match which {
                0 => p.set_tolerances(t, 1e-4, None),
                _ => p.set_tolerances(1e-4, t, None),
            });
        }
        22 => {
            let mut o: Output<'static, Mon> = Output::new();
            let v = bad(*c.rng.pick(&[0.0, -0.1, 1e-16]));
            let list = if nan { vec![0.01, f64::NAN, 0.05] } else { c.rng.pick(&[vec![0.02, 0.01], vec![0.01, 0.01], vec![0.01, 0.03, 0.02], vec![0.01, 0.01 + 1e-16]]).clone() };
            let r = match c.rng.int(0, 2) {
                0 => { desc = format!("h_out={}", v); o.set_dense_h_out(v).err() }
                1 => { desc = format!("stations {:?}", list); o.set_dense_x_out(&list).err() }
                _ => { desc = "short path".into(); o.set_dense_file_writing("a").err() }
            };
            c.input(format!("{:?} {}", m, desc));
            c.check(r.is_some(), || format!("accepted"));
            c.count("invalid: output");
            return;
        }
        23 => {
            // mismatch of the symmetries
            let mut s = make(0).unwrap();
            let (a, b) = *c.rng.pick(&[(Sym::No, Sym::YesFull), (Sym::YesFull, Sym::No), (Sym::YesLower, Sym::YesUpper)]);
            c.input(format!("{:?} {:?}", a, b));
            let first = c.rng.bool();
            let r = if first {
                s.set_mass(None, a, |_| ()).and_then(|_| s.set_jacobian(None, b, |_, _, _, _, _| Ok(())))
            } else {
                s.set_jacobian(None, b, |_, _, _, _, _| Ok(())).and_then(|_| s.set_mass(None, a, |_| ()))
            };
            c.check(r.is_err(), || format!("different symmetries of Jacobian and mass matrix accepted"));
            c.count("invalid: symmetry");
            return;
        }
        24 => {
            // matrix without solution: zero row in M and in J
            if m == Method::Radau5 {
                sys_kind = 7;
                p.newton.use_numerical_jacobian = false;
                p.radau5.concurrent = c.rng.bool();
                h = if c.rng.bool() { Some(0.01) } else { None };
                desc = format!("singular system with h_equal={:?} concurrent={}", h, p.radau5.concurrent);
            } else if m == Method::BwEuler {
                desc = "nothing".into();
            } else {
                desc = "nothing".into();
            }
        }
        _ => desc = "nothing".into(),
    }
    c.input(format!("{:?} {}", m, desc));
    if desc == "nothing" {
        c.count("invalid: not applicable");
        return;
    }
    if let Some(t) = tolerances {
        c.check(t.is_err(), || format!("accepted"));
        c.count("invalid: tolerances");
        return;
    }
    let refused = bad_output.is_some();
    let mut y = Vector::new(ny);
    y.fill(1.0);
    let res = no_panic(|| {
        let mut solver = OdeSolver::new(p, make(sys_kind)?)?;
        solver.solve(&mut y, x0, x1, h, &mut mon, out.as_mut())
    });
    c.check(!mon.cut, || format!("the run does not come to an end"));
    match res {
        Err(e) => c.fail(format!("panic: {}", e)),
        Ok(r) => {
            c.check(r.is_err() || refused, || format!("accepted; y = {:?}", y.as_data()));
        }
    }
    c.count(match what {
        14 => "invalid: size",
        15 => "invalid: interval",
        16 | 13 => "invalid: equal step",
        17 => "invalid: mass",
        18 => "invalid: Jacobian",
        19 => "invalid: dense output",
        20 => "invalid: component",
        _ => "invalid: singular",
    });
}

pub fn run(cx: &mut Ctx) {
    cx.rule("an integration disturbed by one fault, limit, dead end or invalid setting; every fault position counts");
    cx.level("exploration");
    cx.assume("function values that the result does not depend on (the last evaluations of a run) may be NaN");
    let n = cx.n(5000, 60000);
    cx.run("faults", n, faults);
    cx.run("few steps", n, few_steps);
    let n = cx.n(1200, 15000);
    cx.run("limits", n, limits);
    let n = cx.n(3000, 40000);
    cx.run("dead ends", n, dead_ends);
    let n = cx.n(800, 8000);
    cx.run("stiffness", n, stiffness);
    let n = cx.n(20000, 200000);
    cx.run("invalid", n, invalid);
    cx.require("fault: function", 100);
    cx.require("fault: Jacobian", 20);
    cx.require("fault: step callback", 100);
    cx.require("fault: dense callback", 20);
    cx.require("fault: not finite from some call on", 100);
    cx.require("one bad value: recovered", 50);
    cx.require("one bad value: reported", 50);
    cx.require("few steps: recovered", 50);
    cx.require("few steps: reported by the only step", 50);
    cx.require("limits: too few steps", 50);
    cx.require("limits: enough steps", 20);
    cx.require("dead end: pole", 20);
    cx.require("dead end: extinction", 20);
    cx.require("stiffness: stopped", 10);
    cx.require("stiffness: problem is not stiff", 10);
    cx.require("invalid: parameters", 300);
    cx.require("invalid: Jacobian", 5);
    cx.require("invalid: singular", 3);
}
