use crate::prob::*;
use harness::{Case, Ctx};
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, OutCount, Output, Params, Stats};
use russell_sparse::{LinSolParams, Ordering, Scaling, Sym};
use std::sync::Arc;

const STEP_FAIL: &str = "the step callback failed on purpose";

/// one integration
#[derive(Clone, Debug)]
struct Job {
    x0: f64,
    x1: f64,
    h: Option<f64>,
    y: Vec<f64>,
    mon: Mon,
    /// 0 = no output, 1 = steps, 2 = steps and dense output
    output: usize,
}

fn params(c: &mut Case, m: Method, votes: bool) -> Params {
    let mut p = Params::new(m);
    let tol = 10f64.powf(c.rng.f(-7.0, -2.0));
    let tol = if order(m) <= 2 { tol.max(1e-4) } else { tol };
    let newton = if m == Method::BwEuler { Some(c.rng.f(1e-3, 1e-1)) } else { None };
    p.set_tolerances(tol, tol * c.rng.f(0.1, 10.0), newton).unwrap();
    p.step.h_ini = *c.rng.pick(&[1e-5, 1e-4, 1e-3, 1e-2, 0.1]);
    if c.rng.bool() {
        p.step.m_min = c.rng.f(0.05, 0.4);
        p.step.m_max = c.rng.f(1.5, 12.0);
        p.step.m_safety = c.rng.f(0.7, 0.95);
        p.step.m_first_reject = *c.rng.pick(&[0.0, 0.1, 0.3]);
        p.step.rel_error_prev_min = *c.rng.pick(&[1e-4, 1e-2, 1e-8]);
    }
    p.step.n_step_max = if c.rng.chance(0.1) { c.rng.int(1, 30) } else { 20000 };
    p.newton.n_iteration_max = c.rng.int(6, 12);
    p.newton.use_numerical_jacobian = c.rng.chance(0.3);
    if c.rng.chance(0.2) {
        let mut q = LinSolParams::new();
        q.ordering = *c.rng.pick(&[Ordering::Amd, Ordering::Cholmod]);
        q.scaling = *c.rng.pick(&[Scaling::Sum, Scaling::Max, Scaling::No]);
        p.newton.lin_sol_params = Some(q);
    }
    p.bweuler.use_modified_newton = c.rng.chance(0.4);
    p.radau5.concurrent = c.rng.chance(0.05);
    p.radau5.zero_trial = c.rng.chance(0.2);
    p.radau5.use_pred_control = c.rng.chance(0.7);
    p.radau5.theta_max = *c.rng.pick(&[1e-3, 1e-3, 1e-5, 1e-1]);
    if c.rng.chance(0.3) {
        p.radau5.c1h = c.rng.f(0.8, 1.0);
        p.radau5.c2h = c.rng.f(1.1, 1.9);
    }
    if c.rng.chance(0.3) {
        p.erk.lund_beta = c.rng.f(0.0, 0.08);
        p.erk.lund_m = c.rng.f(0.0, 1.0);
    }
    if m == Method::DoPri5 || m == Method::DoPri8 {
        p.stiffness.enabled = c.rng.chance(if votes { 0.9 } else { 0.4 });
        p.stiffness.stop_with_error = c.rng.bool();
        p.stiffness.save_results = c.rng.chance(if votes { 0.8 } else { 0.5 });
        p.stiffness.stop_with_error = p.stiffness.stop_with_error && !(votes && c.rng.bool());
        p.stiffness.skip_first_n_accepted_step = c.rng.int(0, 10);
        p.stiffness.ratified_after_nstep = c.rng.int(1, 15);
        p.stiffness.ignored_after_nstep = c.rng.int(1, 6);
    }
    p
}

/// new parameters: all of them or only some groups
fn other_params(c: &mut Case, m: Method, votes: bool, current: &Params) -> Params {
    let p = params(c, m, votes);
    if c.rng.bool() {
        return p;
    }
    let mut q = *current;
    let groups = c.rng.int(1, 63);
    if groups & 1 != 0 {
        q.newton = p.newton;
    }
    if groups & 2 != 0 {
        q.step = p.step;
    }
    if groups & 4 != 0 {
        q.stiffness = p.stiffness;
    }
    if groups & 8 != 0 {
        q.bweuler = p.bweuler;
    }
    if groups & 16 != 0 {
        q.radau5 = p.radau5;
    }
    if groups & 32 != 0 {
        q.erk = p.erk;
    }
    c.count("partial parameter updates");
    q
}

fn job(c: &mut Case, m: Method, prob: &Prob, last: bool) -> Job {
    let x0 = if prob.mass.is_none() && c.rng.chance(0.3) { prob.x0 + c.rng.f(0.0, 1.0) } else { prob.x0 };
    let len = *c.rng.pick(&[1e-3, 0.1, 0.5, 1.0, 2.0]) * c.rng.f(0.7, 1.0);
    let h = if !EMBEDDED.contains(&m) || c.rng.chance(0.3) {
        if c.rng.chance(0.1) { None } else { Some(len / c.rng.f(1.0, 120.0)) }
    } else {
        None
    };
    let mut y = (prob.exact)(x0);
    if prob.mass.is_none() && c.rng.chance(0.3) {
        y.iter_mut().for_each(|v| *v *= 1.0 + 0.1 * c.rng.sym());
    }
    let mut mon = Mon::new();
    mon.limit = 100000;
    if prob.mass.is_none() && c.rng.chance(0.3) {
        mon.gain = c.rng.f(-0.5, 0.5);
    }
    let output = if DENSE.contains(&m) { c.rng.int(0, 2) } else { c.rng.int(0, 1) };
    if c.rng.chance(if last { 0.1 } else { 0.5 }) {
        match c.rng.int(0, 5) {
            0 => mon.fail_f = c.rng.int(1, 200),
            1 => mon.fail_j = c.rng.int(1, 6),
            2 => {
                mon.bad_f = c.rng.int(1, 200);
                mon.bad_value = *c.rng.pick(&[f64::NAN, f64::INFINITY, -1e300]);
                mon.bad_once = c.rng.bool();
            }
            3 => mon.fail_step = c.rng.int(1, 12),
            4 => mon.stop_step = c.rng.int(1, 12),
            _ => mon.stop_dense = c.rng.int(1, 4),
        }
    }
    Job { x0, x1: x0 + len, h, y, mon, output }
}

fn new_output(c: &mut Case, h_out: f64, files: Option<&str>) -> (Output<'static, Mon>, Output<'static, Mon>) {
    let mk = |dense: bool| {
        let mut out = Output::new();
        out.set_step_callback(|_, h, x, y, m: &mut Mon| {
            m.steps.push((x, h, y.as_data().clone()));
            if m.steps.len() == m.fail_step {
                return Err(STEP_FAIL);
            }
            Ok(m.steps.len() == m.stop_step)
        });
        out.set_step_recording(&[0]);
        out.set_yx_correct(|y, x, _| y.fill(x));
        if dense {
            out.set_dense_callback(|_, h, x, y, m: &mut Mon| {
                m.dense.push((x, h, y.as_data().clone()));
                Ok(m.dense.len() == m.stop_dense)
            });
            out.set_dense_h_out(h_out).unwrap();
            out.set_dense_recording(&[0]);
        }
        if let Some(f) = files {
            out.set_step_file_writing(f);
        }
        out
    };
    let _ = c;
    (mk(false), mk(true))
}

fn perform(solver: &mut OdeSolver<'static, Mon>, job: &Job, outs: &mut (Output<'static, Mon>, Output<'static, Mon>)) -> (Result<(), &'static str>, Vec<f64>, Mon) {
    let mut y = Vector::from(&job.y);
    let mut mon = job.mon.clone();
    let out = match job.output {
        0 => None,
        1 => Some(&mut outs.0),
        _ => Some(&mut outs.1),
    };
    let res = solver.solve(&mut y, job.x0, job.x1, job.h, &mut mon, out);
    (res, y.as_data().clone(), mon)
}

fn counters(s: &Stats) -> [usize; 9] {
    [s.n_function, s.n_jacobian, s.n_factor, s.n_lin_sol, s.n_steps, s.n_accepted, s.n_rejected, s.n_iterations, s.n_iterations_max]
}

fn same(a: &[f64], b: &[f64]) -> bool {
    bits(a) == bits(b)
}

fn same3(a: &[(f64, f64, Vec<f64>)], b: &[(f64, f64, Vec<f64>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| same(&[p.0, p.1], &[q.0, q.1]) && same(&p.2, &q.2))
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
}

fn history(c: &mut Case) {
    let m = *c.rng.pick(&ALL);
    let m = if c.rng.chance(0.25) { Method::Radau5 } else { m };
    let mut jac = Jac::None;
    let mut votes = false;
    let prob = if m == Method::Radau5 && c.rng.bool() {
        let s = any_stiff(&mut c.rng);
        let sym = if s.symmetric && c.rng.bool() { Sym::YesFull } else { Sym::No };
        jac = if c.rng.bool() { Jac::Dense(sym) } else { Jac::Sparse(sym) };
        Arc::new(s.prob)
    } else if (m == Method::DoPri5 || m == Method::DoPri8) && c.rng.chance(0.6) {
        // stiff enough for the detection to vote, not for the explicit method to be slow
        votes = true;
        Arc::new(stiff(&mut c.rng, MassKind::None, 2000.0).prob)
    } else {
        let p = Arc::new(any_prob(&mut c.rng));
        if m == Method::Radau5 || m == Method::BwEuler {
            jac = match c.rng.int(0, 2) {
                0 => Jac::None,
                1 => Jac::Dense(Sym::No),
                _ => Jac::Sparse(Sym::No),
            };
        }
        p
    };
    let par = params(c, m, votes);
    c.input(format!("{:?} {} {:?} first params {:?}", m, prob.name, jac, par));
    let h_out = *c.rng.pick(&[0.05, 0.1, 0.3]);
    let dir = if c.rng.chance(0.03) { Some(c.scratch(&format!("reuse{}", c.index))) } else { None };
    let key = dir.as_ref().map(|d| d.join("used").to_str().unwrap().to_string());
    let sys = system(&prob, jac);
    let mut solver = match c.ok("solver", OdeSolver::new(par, sys.clone())) {
        Some(s) => s,
        None => return,
    };
    let mut outs = new_output(c, h_out, key.as_deref());
    let mut current = par;
    let n = c.rng.int(1, 4);
    let mut failures = 0;
    for _ in 0..n {
        if c.rng.chance(0.35) {
            // new parameters
            let p = other_params(c, m, votes, &current);
            if c.rng.chance(0.15) {
                // refused ones leave the object as it is
                let mut q = p;
                q.step.m_max = 0.0;
                c.err("update_params with m_max=0", solver.update_params(q));
                c.err("update_params with another method", solver.update_params(Params::new(if m == Method::Rk4 { Method::Rk2 } else { Method::Rk4 })));
            } else {
                if c.ok("update_params", solver.update_params(p)).is_none() {
                    return;
                }
                c.count("parameter updates");
                current = p;
            }
        }
        let j = job(c, m, &prob, false);
        let (res, _, _) = perform(&mut solver, &j, &mut outs);
        c.more(format!("then {:?} x0={} x1={} h={:?} out={} f!{} j!{} bad{} -> {:?}", current.newton.use_numerical_jacobian, j.x0, j.x1, j.h, j.output, j.mon.fail_f, j.mon.fail_j, j.mon.bad_f, res));
        if res.is_err() {
            failures += 1;
        }
    }
    if failures > 0 {
        c.count("histories with failures");
    }
    if c.rng.chance(0.3) {
        let p = other_params(c, m, votes, &current);
        if c.ok("update_params", solver.update_params(p)).is_none() {
            return;
        }
        c.count("parameter updates");
        current = p;
    }
    // the same job with the used and with a fresh object
    let j = job(c, m, &prob, true);
    c.more(format!("finally {:?} x0={} x1={} h={:?} y={:?} out={} f!{} j!{} bad{}", current, j.x0, j.x1, j.h, j.y, j.output, j.mon.fail_f, j.mon.fail_j, j.mon.bad_f));
    let (r1, y1, m1) = perform(&mut solver, &j, &mut outs);
    let key2 = dir.as_ref().map(|d| d.join("fresh").to_str().unwrap().to_string());
    let mut outs2 = new_output(c, h_out, key2.as_deref());
    let mut fresh = match c.ok("solver", OdeSolver::new(current, system(&prob, jac))) {
        Some(s) => s,
        None => return,
    };
    let (r2, y2, m2) = perform(&mut fresh, &j, &mut outs2);
    if !c.check(r1 == r2, || format!("the used object returns {:?}, a fresh one {:?}", r1, r2)) {
        return;
    }
    let implicit = m == Method::Radau5 || m == Method::BwEuler;
    if implicit && (!same(&y1, &y2) || !same3(&m1.steps, &m2.steps)) {
        // the linear solver keeps the ordering found with the first matrix, which affects the rounding
        let size = y2.iter().fold(1.0, |m, v| f64::max(m, v.abs()));
        c.count("equal up to rounding");
        let close = y1.iter().zip(y2.iter()).all(|(p, q)| (p - q).abs() <= 1e-7 * size);
        c.check(close, || format!("the used object gives {:?}, a fresh one {:?}", y1, y2));
        if let Some(d) = dir.as_ref() {
            let _ = std::fs::remove_dir_all(d);
        }
        return;
    }
    c.count(if r1.is_ok() { "successful runs compared" } else { "failing runs compared" });
    c.check(same(&y1, &y2), || format!("the used object gives {:?}, a fresh one {:?}", y1, y2));
    let (s1, s2) = (counters(solver.stats()), counters(fresh.stats()));
    c.check(s1 == s2, || format!("counters of the used object {:?}, of a fresh one {:?}", s1, s2));
    let (h1, h2) = (solver.stats().h_accepted, fresh.stats().h_accepted);
    c.check(same(&[h1], &[h2]), || format!("accepted step size {} and {}", h1, h2));
    c.check(m1.nf == m2.nf && m1.nj == m2.nj, || format!("calls made by the used object {} {}, by a fresh one {} {}", m1.nf, m1.nj, m2.nf, m2.nj));
    c.check(same3(&m1.steps, &m2.steps), || format!("{} steps announced by the used object, {} by a fresh one", m1.steps.len(), m2.steps.len()));
    // the rounding of the stages may show between the steps only
    let near = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| (p - q).abs() <= 1e-9 * f64::max(1.0, q.abs()));
    let mut ok = same3(&m1.dense, &m2.dense);
    if implicit && !ok {
        ok = m1.dense.len() == m2.dense.len() && m1.dense.iter().zip(m2.dense.iter()).all(|(p, q)| same(&[p.0, p.1], &[q.0, q.1]) && near(&p.2, &q.2));
        c.count("dense output equal up to rounding");
    }
    c.check(ok, || "the dense output differs".to_string());
    if j.output > 0 {
        let (o1, o2) = if j.output == 1 { (&outs.0, &outs2.0) } else { (&outs.1, &outs2.1) };
        let ok = same(o1.step_x(), o2.step_x())
            && same(o1.step_h(), o2.step_h())
            && same(o1.step_y(0), o2.step_y(0))
            && same(o1.step_global_error(), o2.step_global_error());
        c.check(ok, || format!("recorded steps differ: {} and {}", o1.step_x().len(), o2.step_x().len()));
        if j.output == 2 && r1.is_ok() && j.mon.stop_dense == 0 && j.mon.stop_step == 0 {
            let ok = same(o1.dense_x(), o2.dense_x()) && (same(o1.dense_y(0), o2.dense_y(0)) || implicit && near(o1.dense_y(0), o2.dense_y(0)));
            c.check(ok, || format!("recorded stations differ: {:?} and {:?}", o1.dense_x(), o2.dense_x()));
            c.count("dense records compared");
        }
        if current.stiffness.save_results {
            let ok = same(o1.stiff_x(), o2.stiff_x()) && same(o1.stiff_h_times_rho(), o2.stiff_h_times_rho()) && o1.stiff_step_index() == o2.stiff_step_index();
            c.check(ok, || "records of the stiffness detection differ".to_string());
            if o2.stiff_x().len() > 0 {
                c.count("stiffness records compared");
            }
        }
        if let Some(d) = dir.as_ref() {
            if r1.is_ok() && j.mon.stop_step == 0 && j.mon.stop_dense == 0 {
                let n1 = c.ok("count file", OutCount::read_json(d.join("used_count.json").to_str().unwrap()));
                let n2 = c.ok("count file", OutCount::read_json(d.join("fresh_count.json").to_str().unwrap()));
                if let (Some(a), Some(b)) = (n1, n2) {
                    c.check(a.n == b.n, || format!("the used object wrote {} files, a fresh one {}", a.n, b.n));
                    let mut same = true;
                    for k in 0..b.n {
                        let a = std::fs::read(d.join(format!("used_{}.json", k)));
                        let b = std::fs::read(d.join(format!("fresh_{}.json", k)));
                        same = same && a.is_ok() && a.ok() == b.ok();
                    }
                    c.check(same, || "the files differ".to_string());
                    c.count("sets of files compared");
                }
            }
        }
    }
    if let Some(d) = dir.as_ref() {
        let _ = std::fs::remove_dir_all(d);
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random sequences of integrations (other data, intervals, arguments, step modes, output, failures, new parameters) followed by an integration compared bit by bit with that of a fresh object");
    let n = cx.n(30000, 300000);
    cx.run("history", n, history);
    cx.require("successful runs compared", 3000);
    cx.require("failing runs compared", 300);
    cx.require("histories with failures", 2000);
    cx.require("parameter updates", 2000);
    cx.require("partial parameter updates", 1000);
    cx.require("dense records compared", 100);
    cx.require("stiffness records compared", 50);
}
