//! Failures of parameter continuation
use crate::problem::*;
use harness::{Case, Ctx, no_panic};
use russell_lab::{Norm, Vector};
use russell_nonlin::{Config, DeltaLambda, IniDir, Method, Solver, Status, Stop, System};
use russell_sparse::Sym;

fn make(c: &mut Case) -> (Prob, Setup) {
    let method = if c.rng.bool() { Method::Natural } else { Method::Arclength };
    let arc = method == Method::Arclength;
    let fold = arc && c.rng.bool();
    let (kind, sym) = pick_kind(c, fold);
    let n = *c.rng.pick(&[1usize, 1, 2, 3, 5]);
    let p = Prob::new(&mut c.rng, kind, sym, n);
    let dir = if c.rng.bool() { IniDir::Pos } else { IniDir::Neg };
    let sg = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let dd = c.rng.f(0.01, 0.06);
    let mode = c.rng.int(0, 3);
    let ddl = match mode {
        0 | 1 => DeltaLambda::auto(dd),
        2 => DeltaLambda::constant(dd),
        _ => DeltaLambda::list(&(0..8).map(|_| dd * c.rng.f(0.3, 1.0)).collect::<Vec<_>>()),
    };
    let stop = match c.rng.int(0, 2) {
        0 => Stop::Steps(c.rng.int(2, 8)),
        1 => {
            let l1 = p.l0 + sg * dd * c.rng.f(1.5, 5.0);
            if sg > 0.0 { Stop::MaxLambda(l1) } else { Stop::MinLambda(l1) }
        }
        _ => {
            let i = c.rng.int(0, n - 1);
            let d = c.rng.f(0.01, 0.1);
            if c.rng.bool() { Stop::MaxCompU(i, p.u0[i] + d) } else { Stop::MinCompU(i, p.u0[i] - d) }
        }
    };
    let mut s = Setup::new(method, c.rng.bool(), dir, stop, ddl);
    s.list = if mode == 3 { 8 } else { 0 };
    s.euler = c.rng.bool();
    s.secondary = c.rng.chance(0.7);
    s.residuals = c.rng.bool();
    s.no_delta = c.rng.chance(0.3);
    s.recording = c.rng.bool();
    s.config.set_n_step_max(12).set_debug_predictor(c.rng.chance(0.2));
    if matches!(stop, Stop::MaxCompU(..) | Stop::MinCompU(..)) && c.rng.bool() {
        s.config.set_enable_precise_stop_u_comp(true);
    }
    s.apply();
    (p, s)
}

/// The state returned is the last accepted point; the counters are those of the calls
fn intact(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome) -> bool {
    let ok = match points(o).pop() {
        // an error in the list of steps is found after accepting a point but before its output
        Some((u, l, _)) => u == o.u && l == o.l || o.res.is_err() && s.list > 0 && p.gg(&o.u, o.l).iter().all(|g| g.abs() < 1e-5),
        None => true,
    };
    if !c.check(ok, || format!("returned {:?} {:?} but the last accepted point is {:?}: {:?}", o.u, o.l, points(o).pop(), o.res)) {
        return false;
    }
    if !c.check(o.u.iter().chain([&o.l]).all(|x| x.is_finite()), || format!("returned {:?} {:?}: {:?}", o.u, o.l, o.res)) {
        return false;
    }
    if !c.check(!o.a.over, || format!("more than {} callbacks", LIMIT)) {
        return false;
    }
    let (gg, jac) = (o.a.n[0], o.a.n[1]);
    c.check(o.stats.n_function == gg && o.stats.n_jacobian == jac, || {
        format!("counted {} residuals and {} jacobians, made {} and {}", o.stats.n_function, o.stats.n_jacobian, gg, jac)
    })
}

fn injected(c: &mut Case) {
    let (p, s) = make(c);
    let desc = describe(&p, &s);
    c.input(desc.clone());
    let clean = match run(&p, &s, Args::new(Fault::None, 0, 0)) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("cannot allocate the solver: {}", e));
            return;
        }
    };
    if !intact(c, &p, &s, &clean) {
        return;
    }
    let auto = s.ddl.is_auto();
    let calls = clean.a.n;
    let faults = [
        (Fault::GgErr, 0),
        (Fault::GgNan, 0),
        (Fault::GgInf, 0),
        (Fault::JacErr, 1),
        (Fault::JacNan, 1),
        (Fault::JacZero, 1),
        (Fault::UpErr, 2),
        (Fault::UpTerminate, 2),
        (Fault::OutErr, 3),
        (Fault::OutStop, 3),
    ];
    for (fault, kind) in faults {
        let m = calls[kind];
        let mut at: Vec<usize> = (0..m).collect();
        while at.len() > 10 {
            let k = c.rng.int(0, at.len() - 1);
            at.swap_remove(k);
        }
        for k in at {
            let times = *c.rng.pick(&[1usize, 1, 1000]);
            c.note(format!("{} fault={:?} at={} times={}", desc, fault, k, times));
            let o = match no_panic(|| run(&p, &s, Args::new(fault, k, times)).unwrap()) {
                Ok(o) => o,
                Err(e) => {
                    c.fail(format!("panic: {}", e));
                    return;
                }
            };
            if !intact(c, &p, &s, &o) {
                return;
            }
            if o.a.hit == 0 {
                c.fail("the callbacks differ between two equal runs".into());
                return;
            }
            c.count("faults injected");
            let want: Option<Result<Status, String>> = match fault {
                Fault::GgErr => Some(Err("residual fault".into())),
                Fault::GgNan | Fault::GgInf => Some(Ok(Status::NanOrInfResidual)),
                Fault::JacErr => Some(Err("jacobian fault".into())),
                Fault::UpTerminate => Some(Ok(Status::SecondaryUpdateTerminate)),
                Fault::OutErr => Some(Err("output fault".into())),
                Fault::OutStop => Some(Ok(Status::Success)),
                Fault::UpErr if !auto => Some(Ok(Status::SecondaryUpdateError("update fault"))),
                Fault::UpErr if times > 100 => Some(Ok(Status::ContinuedFailure)),
                _ => None,
            };
            // failed attempts may use up the steps (or the step size) before the limit of continued failures is reached
            let used_up = fault == Fault::UpErr && (o.stats.n_steps >= 12 || o.res == Ok(Status::SmallStepsize));
            if let (Some(w), false) = (want, used_up) {
                c.count("outcomes compared");
                if !c.check(o.res == w, || format!("the outcome is {:?} instead of {:?}", o.res, w)) {
                    return;
                }
            }
            // nothing sensible follows from a Jacobian which is not a number, or singular
            let bad = fault == Fault::JacNan || fault == Fault::JacZero && (s.bordering || s.method == Method::Natural);
            if bad && !c.check(o.res != Ok(Status::Success), || format!("success although the Jacobian is {:?}", fault)) {
                return;
            }
            if fault == Fault::UpErr && auto && times == 1 && !used_up && clean.res == Ok(Status::Success) {
                c.count("recoveries from failed updates");
                if !c.check(!matches!(o.res, Ok(Status::SecondaryUpdateError(_))), || format!("gave up after one failed update: {:?}", o.res)) {
                    return;
                }
            }
        }
    }
}

/// Iterations which cannot converge, limits
fn limits(c: &mut Case) {
    let (mut p, mut s) = make(c);
    let auto = s.ddl.is_auto();
    s.config.set_n_step_max(40);
    let what = c.rng.int(0, 5);
    let mut args = Args::new(Fault::None, 0, 0);
    let mut may: Vec<Status> = vec![];
    let mut may_err = false;
    match what {
        0 => {
            // wrong Jacobian from some call on
            let k = c.rng.int(2, 6);
            let nf = c.rng.int(1, 6);
            args = Args::new(Fault::JacScaled(*c.rng.pick(&[1e-3, -1.0, -0.3, 30.0])), k, usize::MAX - 1000);
            s.config.set_n_cont_failure_max(nf).set_n_iteration_max(c.rng.int(2, 12));
        }
        1 => {
            // no solution: natural continuation beyond the end of a closed curve
            p = Prob::new(&mut c.rng, Kind::Ellipse, false, p.n);
            s.method = Method::Natural;
            s.dir = IniDir::Pos;
            s.stop = Stop::MaxLambda(p.k[3] + p.k[1] * c.rng.f(1.001, 1.5));
            s.config.set_n_step_max(2000);
            let dd = p.k[1] * c.rng.f(0.02, 0.2);
            s.ddl = if auto { DeltaLambda::auto(dd) } else { DeltaLambda::constant(dd) };
            may = vec![
                Status::LargeDelta,
                Status::ReachedMaxIterations,
                Status::ContinuedResidualDivergence,
                Status::ContinuedDeltaDivergence,
                Status::ContinuedFailure,
                Status::SmallStepsize,
            ];
            may_err = true;
        }
        2 => {
            // small limit on the corrections
            let k = c.rng.int(1, 3);
            s.config.set_delta_max_allowed(10f64.powi(-4 - k as i32)).set_n_cont_failure_max(k);
            s.no_delta = false;
        }
        3 => {
            // residual which never vanishes
            args = Args::new(Fault::GgShift, c.rng.int(0, 4), usize::MAX - 1000);
            s.config.set_n_iteration_max(c.rng.int(2, 12)).set_n_cont_failure_max(c.rng.int(1, 30));
            let m = c.rng.f(0.001, 0.9);
            s.config.set_m_failure(m);
        }
        4 => {
            s.config.set_n_iteration_max(1);
        }
        _ => {
            // limit on the number of steps
            let m = c.rng.int(1, 4);
            s.config.set_n_step_max(m);
            let far = 1e3;
            s.stop = if c.rng.bool() { Stop::MaxLambda(p.l0 + far) } else { Stop::MaxNormU(1e3, Norm::Euc, 0, p.n) };
        }
    }
    s.apply();
    c.input(format!("limits {} {} fault={:?} at={} n_iter={} n_fail={} m_failure={}", what, describe(&p, &s), args.fault, args.at, s.config.get_n_iteration_max(), s.config.get_n_cont_failure_max(), s.config.get_m_failure()));
    let o = match no_panic(|| run(&p, &s, args).unwrap()) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("panic: {}", e));
            return;
        }
    };
    c.more(format!("{:?} accepted={} rejected={}", o.res, o.stats.n_accepted, o.stats.n_rejected));
    if !intact(c, &p, &s, &o) {
        return;
    }
    c.count("limits tried");
    if let Ok(st) = &o.res {
        c.count(match st {
            Status::Success => "ended with success",
            Status::LargeDelta => "ended with a large correction",
            Status::ReachedMaxIterations => "ended at the limit of iterations",
            Status::ContinuedResidualDivergence => "ended with diverging residuals",
            Status::ContinuedDeltaDivergence => "ended with diverging corrections",
            Status::ContinuedFailure => "ended with continued failure",
            Status::SmallStepsize => "ended with a small step",
            _ => "ended otherwise",
        });
        // these statuses belong to one attempt: automatic steps try again
        let one = matches!(st, Status::LargeDelta | Status::ReachedMaxIterations | Status::ContinuedResidualDivergence | Status::ContinuedDeltaDivergence | Status::BorderingSmallDenominator | Status::SecondaryUpdateError(_));
        if !c.check(!(auto && one) || o.stats.n_steps >= s.config.get_n_step_max(), || format!("gave up after one attempt: {:?}", st)) {
            return;
        }
        if !c.check(auto || !matches!(st, Status::ContinuedFailure | Status::SmallStepsize | Status::ContinuedRejection), || format!("fixed steps ended with {:?}", st)) {
            return;
        }
        if *st == Status::ContinuedFailure {
            // the attempts after the last accepted step
            let last = o.a.ev.iter().rev().find_map(|e| if let Ev::Out { steps, .. } = e { Some(*steps) } else { None }).unwrap();
            let m = o.stats.n_steps - last;
            if !c.check(m == s.config.get_n_cont_failure_max(), || format!("gave up after {} failures in a row, the limit is {}", m, s.config.get_n_cont_failure_max())) {
                return;
            }
        }
        if *st == Status::ReachedMaxIterations && !auto {
            let m = s.config.get_n_iteration_max();
            let tail = o.a.ev.iter().rev().take_while(|e| !matches!(e, Ev::Out { .. })).filter(|e| matches!(e, Ev::Gg { .. })).count();
            if !c.check(tail == m, || format!("{} iterations made, the limit is {}", tail, m)) {
                return;
            }
        }
    }
    match what {
        0 => {
            if auto && s.config.get_n_step_max() > o.stats.n_steps {
                let fine = matches!(o.res, Ok(Status::Success | Status::ContinuedFailure | Status::SmallStepsize)) || o.res.is_err();
                c.check(fine, || format!("unexpected outcome {:?}", o.res));
            }
        }
        1 => {
            let ok = match &o.res {
                Ok(st) => may.contains(st),
                Err(_) => may_err,
            };
            if c.check(ok, || format!("no solution beyond the end of the curve, but the outcome is {:?} at l={:?}", o.res, o.l)) {
                c.count("ends of curves");
                let top = p.k[3] + p.k[1];
                c.check(o.l <= top + 1e-6, || format!("accepted l={:?} although the curve ends at {:?}", o.l, top));
            }
        }
        2 => {
            if !auto {
                if let Ok(st) = &o.res {
                    c.check(matches!(st, Status::LargeDelta | Status::Success | Status::BorderingSmallDenominator), || format!("{:?}", st));
                }
            }
        }
        3 => {
            c.check(o.res != Ok(Status::Success) || o.a.hit == 0, || "success although the residual never vanishes".into());
        }
        4 => {
            // a single iteration: only good predictors pass
            if !auto {
                c.check(matches!(o.res, Ok(Status::Success | Status::ReachedMaxIterations)), || format!("{:?}", o.res));
            }
        }
        _ => {
            let m = s.config.get_n_step_max();
            if o.stats.n_steps >= m && o.res.is_ok() {
                c.count("runs out of steps");
                c.probe("step-limit", o.res != Ok(Status::Success), || {
                    format!("the limit of {} steps ended the run far from the stopping condition, but the outcome is {:?}", m, o.res)
                });
            }
            c.check(o.stats.n_steps <= m || s.list > 0, || format!("{} steps made, the limit is {}", o.stats.n_steps, m));
        }
    }
}

fn invalid(c: &mut Case) {
    let (p, mut s) = make(c);
    let n = p.n;
    let what = c.rng.int(0, 31);
    let nan = f64::NAN;
    let small = c.rng.f(0.0, 0.9);
    let mut at_new = false; // rejected by Solver::new
    let mut u0 = p.u0.clone();
    let mut l0 = p.l0;
    let mut partial = false; // accepted points may precede the error
    let mut not_success = false; // a failure status is fine too
    match what {
        0 => u0.push(0.0),
        1 => {
            u0.pop();
        }
        2 => s.stop = Stop::MaxCompU(n + c.rng.int(0, 3), 1e3),
        3 => s.stop = Stop::MinCompU(n, -1e3),
        4 => s.stop = Stop::MaxCompU(0, p.u0[0] - small),
        5 => s.stop = Stop::MinCompU(0, p.u0[0] + small),
        6 => s.stop = Stop::MaxLambda(p.l0 - small),
        7 => s.stop = Stop::MinLambda(p.l0 + small),
        8 => s.stop = Stop::Steps(0),
        9 => s.stop = Stop::MaxNormU(1.0, Norm::Euc, 1, 1),
        10 => s.stop = Stop::MaxNormU(1.0, Norm::Max, 0, n + 1),
        11 => s.stop = Stop::MaxNormU(-small, Norm::One, 0, n),
        12 => s.stop = Stop::MaxLambda(nan),
        13 => s.stop = Stop::MinLambda(nan),
        14 => s.stop = Stop::MaxCompU(0, nan),
        15 => s.stop = Stop::MaxNormU(nan, Norm::Euc, 0, n),
        16 => s.ddl = DeltaLambda::auto(1e-11 * small),
        17 => s.ddl = DeltaLambda::constant(-small),
        18 => s.ddl = DeltaLambda::auto(nan),
        19 => s.ddl = DeltaLambda::constant(nan),
        20 | 21 => {
            let bad = *c.rng.pick(&[0.0, -0.1, nan, 1e-11]);
            let dd = 0.01;
            let k = c.rng.int(0, 4);
            let mut v = vec![dd; 6];
            v[k] = bad;
            s.ddl = DeltaLambda::list(&v);
            s.stop = Stop::Steps(6);
            partial = true;
        }
        22 => {
            u0[c.rng.int(0, n - 1)] = *c.rng.pick(&[nan, f64::INFINITY]);
            s.stop = Stop::Steps(3);
            not_success = true;
        }
        23 => {
            l0 = *c.rng.pick(&[nan, f64::NEG_INFINITY]);
            s.stop = Stop::Steps(3);
            not_success = true;
        }
        _ => at_new = true,
    }
    if at_new {
        let f = &mut s.config;
        match what {
            24 => {
                f.set_m_failure(0.0009 * small);
            }
            25 => {
                f.set_n_step_max(0);
            }
            26 => {
                f.set_n_cont_failure_max(0);
            }
            27 => {
                s.tol_res = 1e-13 * small;
            }
            28 => {
                s.tol_abs = 9e-13 * small;
            }
            29 => {
                s.tol_rel = -small;
            }
            30 => {
                f.set_n_iteration_max(0);
            }
            _ => match c.rng.int(0, 5) {
                0 => {
                    f.set_delta_max_allowed(-small);
                }
                1 => {
                    f.set_n_cont_residual_divergence_max(0);
                }
                2 => {
                    f.set_n_cont_delta_divergence_max(0);
                }
                3 => {
                    f.set_nr_control_n_opt(0);
                }
                4 => {
                    f.set_nr_control_beta(-small);
                }
                _ => {
                    f.set_tg_control_tol(1e-13);
                }
            },
        }
    }
    s.apply();
    c.input(format!("invalid {} {} start {:?} {:?}", what, describe(&p, &s), u0, l0));
    c.count("invalid inputs tried");
    if at_new {
        let r = Solver::new(&s.config, system(&p, &s));
        c.check(r.is_err(), || "an invalid configuration was accepted".into());
        return;
    }
    let mut solver = Solver::new(&s.config, system(&p, &s)).unwrap();
    let o = match no_panic(|| run_with(&mut solver, &p, &s, Args::new(Fault::None, 0, 0), Some((u0.clone(), l0)))) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("panic: {}", e));
            return;
        }
    };
    let bits = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
    if not_success {
        c.check(o.res != Ok(Status::Success), || format!("success although the start is not finite: {:?} {:?}", o.u, o.l));
        c.check(bits(&o.u, &u0) && o.l.to_bits() == l0.to_bits(), || format!("the start was changed to {:?} {:?}", o.u, o.l));
        return;
    }
    if !c.check(o.res.is_err(), || format!("invalid input was accepted: {:?}", o.res)) {
        return;
    }
    if partial {
        let last = points(&o).pop().unwrap_or((u0.clone(), l0, 0.0));
        // the step before the bad one of the list is accepted, but there is no output for it
        let ok = last.0 == o.u && last.1 == o.l || p.gg(&o.u, o.l).iter().all(|g| g.abs() < 1e-5);
        c.check(ok, || format!("returned {:?} {:?}, accepted last {:?}", o.u, o.l, last));
    } else {
        c.check(bits(&o.u, &u0) && o.l.to_bits() == l0.to_bits(), || format!("the start was changed to {:?} {:?}", o.u, o.l));
        c.check(o.a.ev.is_empty() || matches!(o.a.ev[0], Ev::Jac { .. }), || "callbacks were made before the rejection".into());
    }
    // the solver still works
    s.stop = Stop::Steps(2);
    s.ddl = DeltaLambda::constant(0.01);
    let again = run_with(&mut solver, &p, &s, Args::new(Fault::None, 0, 0), None);
    let fresh = run(&p, &s, Args::new(Fault::None, 0, 0)).unwrap();
    c.check(again.res == fresh.res && again.u == fresh.u && again.l == fresh.l, || format!("after the rejection: {:?} {:?}; new solver: {:?} {:?}", again.res, again.u, fresh.res, fresh.u));
}

/// Bad systems: empty, unsuitable symmetry, singular at the start; verification of derivatives
fn systems(c: &mut Case) {
    let (p, mut s) = make(c);
    let n = p.n;
    let what = c.rng.int(0, 4);
    c.input(format!("system {} {}", what, describe(&p, &s)));
    c.count("systems tried");
    match what {
        0 => {
            let ndim = if c.rng.bool() { 0 } else { n };
            let nnz = if ndim == 0 { None } else { Some(0) };
            let r = System::<u8>::new(ndim, nnz, Sym::No, |_, _, _, _| Ok(()), |_, _, _, _, _| Ok(()));
            c.check(r.is_err(), || "an empty system was accepted".into());
        }
        1 => {
            s.config.set_method(Method::Arclength).set_bordering(false);
            let sys = System::<u8>::new(n, None, Sym::YesFull, |_, _, _, _| Ok(()), |_, _, _, _, _| Ok(())).unwrap();
            let r = Solver::new(&s.config, sys);
            c.check(r.is_err(), || "a symmetric matrix was accepted without bordering".into());
        }
        2 => {
            // singular at the start: u - u l = 0 etc. at a fold
            s.method = Method::Arclength;
            s.stop = Stop::Steps(3);
            s.apply();
            let k = c.rng.int(0, 1);
            let sys = System::<u8>::new(
                2,
                None,
                Sym::No,
                move |g: &mut Vector, l, u: &Vector, _| {
                    g[0] = u[0] - if k == 0 { 1.0 } else { l };
                    g[1] = u[1] * u[1] - l + 1.0;
                    Ok(())
                },
                move |a, gl: &mut Vector, _, u: &Vector, _| {
                    a.put(0, 0, 1.0)?;
                    a.put(0, 1, 0.0)?;
                    a.put(1, 0, 0.0)?;
                    a.put(1, 1, 2.0 * u[1])?;
                    gl[0] = if k == 0 { 0.0 } else { -1.0 };
                    gl[1] = -1.0;
                    Ok(())
                },
            )
            .unwrap();
            let mut solver = Solver::new(&s.config, sys).unwrap();
            let (mut u, mut l) = (Vector::from(&[1.0, 0.0]), 1.0);
            let r = no_panic(|| solver.solve(&mut 0u8, &mut u, &mut l, s.dir, s.stop, &DeltaLambda::auto(0.1), None));
            match r {
                Err(e) => c.fail(format!("panic: {}", e)),
                Ok(r) => {
                    c.check(r != Ok(Status::Success), || format!("success from a singular start: {:?} {:?}", u.as_data(), l));
                    c.check(u.as_data() == &[1.0, 0.0] && l == 1.0, || format!("the start was changed to {:?} {:?}", u.as_data(), l));
                }
            }
        }
        _ => {
            // verification of the derivatives
            let l = c.rng.f(-1.0, 1.0);
            let u: Vec<f64> = c.rng.vec(n);
            let wrong = c.rng.bool();
            let (ki, kj) = (c.rng.int(0, n - 1), c.rng.int(0, n - 1));
            let pr = &p;
            let amp = 1.0 + 0.5 * c.rng.unit();
            let sys = System::<u8>::new(
                n,
                None,
                Sym::No,
                move |g: &mut Vector, l, u: &Vector, _| {
                    let v = pr.gg(u.as_data(), l);
                    for i in 0..n {
                        // the derivative depends on the parameter
                        g[i] = v[i] + amp * l * u[i] * u[i];
                    }
                    Ok(())
                },
                move |a, gl: &mut Vector, l, u: &Vector, _| {
                    let (j, d) = pr.jac(u.as_data(), l);
                    for i in 0..n {
                        for k in 0..n {
                            let mut x = j[i][k] + if i == k { 2.0 * amp * l * u[i] } else { 0.0 };
                            if wrong && (i, k) == (ki, kj) {
                                x += 0.01;
                            }
                            a.put(i, k, x)?;
                        }
                        gl[i] = d[i] + amp * u[i] * u[i];
                    }
                    Ok(())
                },
            )
            .unwrap();
            let uv = Vector::from(&u);
            let r = no_panic(|| sys.check_ggu(l, &uv, &mut 0u8, 1e-5));
            let accepted = matches!(r, Ok(Ok(())));
            c.count("verifications of derivatives");
            c.check(accepted != wrong, || format!("derivatives with error {}: verification gives {:?} at l={} u={:?}", if wrong { 0.01 } else { 0.0 }, r, l, u));
        }
    }
}

/// The list of steps ends before the stopping condition is met
fn list_ends(c: &mut Case) {
    let (p, mut s) = make(c);
    let m = c.rng.int(1, 5);
    s.ddl = DeltaLambda::list(&vec![0.01; m]);
    s.stop = Stop::Steps(m + c.rng.int(1, 5));
    s.apply();
    c.input(format!("list of {} {}", m, describe(&p, &s)));
    let o = run(&p, &s, Args::new(Fault::None, 0, 0)).unwrap();
    if !intact(c, &p, &s, &o) || o.stats.n_accepted < m {
        return;
    }
    c.count("lists used up");
    c.probe("list-used-up", o.res != Ok(Status::Success), || format!("the {} listed steps are used up, {:?} is not met, but the outcome is {:?}", m, s.stop, o.res));
}

pub fn run_all(cx: &mut Ctx) {
    cx.rule("distinct = different systems, options, faults, limits and invalid inputs");
    let _ = Config::new();
    let n = cx.n(1500, 15000);
    cx.run("injected", n, injected);
    cx.run("limits", 4 * n, limits);
    cx.run("invalid", 4 * n, invalid);
    cx.run("systems", n, systems);
    cx.run("list ends", 100, list_ends);
    cx.require("faults injected", 10_000);
    cx.require("outcomes compared", 10_000);
    cx.require("limits tried", 1000);
    cx.require("ends of curves", 100);
    cx.require("runs out of steps", 50);
    cx.require("lists used up", 20);
    cx.require("invalid inputs tried", 1000);
    cx.require("verifications of derivatives", 100);
}
