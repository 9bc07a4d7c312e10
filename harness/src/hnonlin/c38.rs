//! Bookkeeping of parameter continuation: counters, records, step lists, protocol of the external state, reuse
use crate::problem::*;
use harness::{Case, Ctx};
use russell_nonlin::{DeltaLambda, IniDir, Method, Solver, Status, Stop};

fn make(c: &mut Case) -> (Prob, Setup, Args, Vec<f64>) {
    let method = if c.rng.bool() { Method::Natural } else { Method::Arclength };
    let arc = method == Method::Arclength;
    let fold = arc && c.rng.chance(0.6);
    let (kind, sym) = pick_kind(c, fold);
    let n = *c.rng.pick(&[1usize, 1, 2, 3, 5]);
    let p = Prob::new(&mut c.rng, kind, sym, n);
    let dir = if c.rng.bool() { IniDir::Pos } else { IniDir::Neg };
    let sg = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let dd = c.rng.f(0.01, 0.08);
    let mut list = vec![];
    let ddl = match c.rng.int(0, 3) {
        0 | 1 => DeltaLambda::auto(dd),
        2 => DeltaLambda::constant(dd),
        _ => {
            let m = c.rng.int(1, 20);
            list = (0..m).map(|_| dd * c.rng.f(0.3, 1.0)).collect();
            DeltaLambda::list(&list)
        }
    };
    let stop = match c.rng.int(0, 2) {
        0 => Stop::Steps(c.rng.int(1, 20)),
        1 => {
            let l1 = p.l0 + sg * c.rng.f(0.05, 0.8);
            if sg > 0.0 { Stop::MaxLambda(l1) } else { Stop::MinLambda(l1) }
        }
        _ => {
            let i = c.rng.int(0, n - 1);
            let d = c.rng.f(0.05, 0.8);
            if c.rng.bool() { Stop::MaxCompU(i, p.u0[i] + d) } else { Stop::MinCompU(i, p.u0[i] - d) }
        }
    };
    let mut s = Setup::new(method, c.rng.bool(), dir, stop, ddl);
    s.list = list.len();
    s.first = dd;
    s.euler = c.rng.bool();
    s.secondary = c.rng.chance(0.7);
    s.residuals = c.rng.bool();
    s.no_delta = c.rng.chance(0.3);
    s.config.set_n_step_max(60).set_debug_predictor(c.rng.chance(0.3));
    if matches!(stop, Stop::MaxCompU(..) | Stop::MinCompU(..)) && c.rng.bool() {
        s.config.set_enable_precise_stop_u_comp(true);
    }
    if c.rng.chance(0.2) {
        s.config.set_n_iteration_max(c.rng.int(2, 5));
    }
    if c.rng.chance(0.2) {
        s.config.set_m_failure(c.rng.f(0.1, 0.9));
    }
    if c.rng.chance(0.2) {
        s.config.set_n_cont_failure_max(c.rng.int(1, 8));
    }
    s.apply();
    // faults which lead to rejections
    let fault = if c.rng.chance(0.5) {
        let f = *c.rng.pick(&[Fault::UpErr, Fault::JacScaled(1e-3), Fault::JacScaled(-0.2), Fault::GgShift, Fault::OutStop, Fault::UpTerminate]);
        if !s.secondary && matches!(f, Fault::UpErr | Fault::UpTerminate) { Fault::GgShift } else { f }
    } else {
        Fault::None
    };
    let times = *c.rng.pick(&[1usize, 1, 2, 3, 8, 30]);
    let at = if fault == Fault::OutStop { c.rng.int(0, 12) } else { c.rng.int(0, 60) };
    (p, s, Args::new(fault, at, times), list)
}

/// One attempt of a step, as seen from the callbacks
#[derive(Default, Debug)]
struct Attempt {
    backup: usize,
    prepare: usize,
    restore: usize,
    updates: usize,
    gg: usize,
    jac: usize,
    last: Option<(Vec<f64>, f64)>, // where the residual was computed last
    accepted: bool,
}

/// Follows the callbacks; returns the attempts
fn follow(c: &mut Case, s: &Setup, o: &Outcome) -> Option<Vec<Attempt>> {
    let auto = s.ddl.is_auto();
    let mut list: Vec<Attempt> = vec![];
    let mut started = false; // first output executed
    let mut cur: Option<Attempt> = None;
    let mut acc: (Vec<f64>, f64) = (vec![], 0.0);
    let mut trial: Option<(Vec<f64>, f64)> = None;
    let mut outs = 0usize;
    let mut restored = true;
    for (i, e) in o.a.ev.iter().enumerate() {
        let bad = |c: &mut Case, m: &str| -> Option<Vec<Attempt>> {
            let lo = i.saturating_sub(6);
            let tail: Vec<String> = o.a.ev[lo..=i].iter().map(|e| format!("{:?}", e)).collect();
            c.fail(format!("{} at event {}: {}", m, i, tail.join("; ")));
            None
        };
        match e {
            Ev::Out { u, l, acc: na, steps, gg, jac, rej, state, .. } => {
                if started {
                    let mut a = match cur.take() {
                        Some(a) => a,
                        None => return bad(c, "output without a step"),
                    };
                    if a.restore > 0 {
                        return bad(c, "output after a restored step");
                    }
                    a.accepted = true;
                    if a.last.as_ref() != Some(&(u.clone(), *l)) {
                        return bad(c, "the accepted point differs from the last point where the residual was computed");
                    }
                    if s.secondary && *state != state_of(u, *l) {
                        return bad(c, "the external state does not belong to the accepted point");
                    }
                    list.push(a);
                    outs += 1;
                }
                started = true;
                acc = (u.clone(), *l);
                let n_gg = o.a.ev[..i].iter().filter(|e| matches!(e, Ev::Gg { .. })).count();
                let n_jac = o.a.ev[..i].iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
                if *na != outs || *steps < *na + *rej || *gg != n_gg || *jac != n_jac {
                    return bad(c, &format!("counters given to the output: accepted={} (made {}) steps={} rejected={} residuals={} (made {}) jacobians={} (made {})", na, outs, steps, rej, gg, n_gg, jac, n_jac));
                }
            }
            Ev::Backup => {
                if let Some(a) = cur.take() {
                    if a.restore != 1 {
                        return bad(c, "a new step begins after an attempt that was neither accepted nor restored");
                    }
                    list.push(a);
                }
                if !auto || !started {
                    return bad(c, "backup outside automatic steps");
                }
                cur = Some(Attempt { backup: 1, ..Default::default() });
            }
            Ev::Prepare => {
                if auto {
                    match cur.as_mut() {
                        Some(a) if a.prepare == 0 && a.gg == 0 && a.updates == 0 => a.prepare = 1,
                        _ => return bad(c, "preparation out of order"),
                    }
                } else {
                    if cur.is_some() {
                        return bad(c, "a fixed step begins although the last one was not accepted");
                    }
                    cur = Some(Attempt { prepare: 1, ..Default::default() });
                }
                restored = false;
            }
            Ev::Restore => {
                match cur.as_mut() {
                    Some(a) if a.restore == 0 && auto && !restored => a.restore = 1,
                    _ => return bad(c, "restored out of order"),
                }
                restored = true;
            }
            Ev::Update { backup, u0, u1, l0, l1, .. } => {
                match cur.as_mut() {
                    Some(a) if a.prepare == 1 && a.restore == 0 => {
                        if *backup != (a.updates == 0) {
                            return bad(c, "only the first update of a step asks for a backup");
                        }
                        a.updates += 1;
                    }
                    _ => return bad(c, "update out of order"),
                }
                if (u0, l0) != (&acc.0, &acc.1) {
                    return bad(c, "the update does not start from the last accepted point");
                }
                trial = Some((u1.clone(), *l1));
            }
            Ev::Gg { u, l } => {
                if !s.secondary {
                    // attempts cannot be told apart without the other callbacks
                    let a = cur.get_or_insert_with(Default::default);
                    a.gg += 1;
                    a.last = Some((u.clone(), *l));
                    continue;
                }
                match cur.as_mut() {
                    Some(a) if a.restore == 0 && a.updates == a.gg + 1 => {
                        if Some(&(u.clone(), *l)) != trial.as_ref() {
                            return bad(c, "the residual is not computed at the updated point");
                        }
                        a.gg += 1;
                        a.last = Some((u.clone(), *l));
                    }
                    _ => return bad(c, "residual without update"),
                }
            }
            Ev::Jac { .. } => {
                if started {
                    cur.get_or_insert_with(Default::default).jac += 1;
                }
            }
        }
    }
    if let Some(a) = cur.take() {
        list.push(a);
    }
    Some(list)
}

fn counters(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome, att: &[Attempt]) -> bool {
    let st = &o.stats;
    let gg = o.a.ev.iter().filter(|e| matches!(e, Ev::Gg { .. })).count();
    let jac = o.a.ev.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    let outs = o.a.ev.iter().filter(|e| matches!(e, Ev::Out { .. })).count();
    let failed = o.res.as_ref().map(|x| x.failure()).unwrap_or(true);
    let mut want: Vec<(&str, usize, usize)> = vec![
        ("residual calls", st.n_function, gg),
        ("jacobian calls", st.n_jacobian, jac),
        ("factorizations", st.n_factor, jac),
        ("accepted steps", st.n_accepted, outs - 1),
        ("iterations", st.n_iteration_total, gg),
    ];
    if s.secondary {
        want.push(("steps", st.n_steps, att.len()));
        let rej = att.iter().filter(|a| a.restore > 0).count();
        // the attempt which ends the run is restored but not counted as rejected
        let last = att.last().map(|a| a.restore > 0).unwrap_or(false) && failed && st.n_rejected + 1 == rej;
        if s.ddl.is_auto() {
            want.push(("rejected steps", st.n_rejected + last as usize, rej));
        }
    }
    let ended = st.n_steps as i64 - st.n_accepted as i64 - st.n_rejected as i64;
    if !c.check(ended == 0 || ended == 1 && failed, || format!("steps={} accepted={} rejected={} {:?}", st.n_steps, st.n_accepted, st.n_rejected, o.res)) {
        return false;
    }
    // linear systems solved
    let solves = match s.method {
        Method::Natural if !s.euler => Some(jac),
        Method::Natural => None,
        Method::Arclength => {
            // converged on the residual only: one solution for the initial tangent and for each new one
            let m = if s.bordering { 2 } else { 1 };
            let clean = s.secondary && s.no_delta && st.n_rejected == 0 && o.a.hit == 0 && o.res == Ok(Status::Success);
            if clean { Some(1 + att.iter().map(|a| (a.gg - 1) * m + 1).sum::<usize>()) } else { None }
        }
    };
    if let Some(k) = solves {
        want.push(("linear systems", st.n_lin_sol, k));
    }
    for (what, got, w) in want {
        c.count("counters compared");
        if !c.check(got == w, || format!("{}: counted {}, made {} ({:?})", what, got, w, o.res)) {
            return false;
        }
    }
    if s.residuals {
        // one list of residuals for each converged step
        let lists = st.iterations_residuals.clone().unwrap_or_default();
        let extra = lists.len() as i64 - st.n_accepted as i64;
        if !c.check(extra == 0 || extra > 0 && s.config.get_enable_precise_stop_u_comp(), || format!("{} lists of residuals, {} accepted steps", lists.len(), st.n_accepted)) {
            return false;
        }
        if extra == 0 && s.secondary && o.a.fault == Fault::None {
            let want: Vec<usize> = att.iter().filter(|a| a.accepted).map(|a| a.gg).collect();
            let got: Vec<usize> = lists.iter().map(|l| l.len()).collect();
            if !c.check(got == want, || format!("numbers of residuals {:?}, iterations made {:?}", got, want)) {
                return false;
            }
        }
        if extra == 0 && s.method == Method::Natural && o.a.fault == Fault::None {
            for (k, (u, l, _)) in points(o).iter().enumerate().skip(1) {
                let g = p.gg(u, *l).iter().fold(0.0f64, |a, x| a.max(x.abs()));
                if !c.close("last residual", *lists[k - 1].last().unwrap(), g, 1e-14 + 1e-9 * g) {
                    return false;
                }
            }
        }
    } else if !c.check(st.iterations_residuals.is_none(), || "residuals recorded although not requested".into()) {
        return false;
    }
    true
}

fn records(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome, list: &[f64]) -> bool {
    let mut pts = points(o);
    // a point where the output asks to stop or fails is not recorded
    let outs = o.a.n[3];
    if matches!(o.a.fault, Fault::OutStop | Fault::OutErr) && o.a.hit > 0 && outs > o.a.at {
        pts.truncate(o.a.at);
    }
    let m = pts.len();
    let arc = s.method == Method::Arclength;
    let mut sizes = vec![o.ll.len(), o.hh.len(), o.norm.len()];
    sizes.extend(o.ul.iter().map(|v| v.len()));
    if arc {
        sizes.push(o.dlds.len());
        sizes.extend(o.duds.iter().map(|v| v.len()));
    } else if !c.check(o.dlds.is_empty(), || "tangents recorded by the natural method".into()) {
        return false;
    }
    if !c.check(sizes.iter().all(|x| *x == m), || format!("{} points accepted (with the start) but {:?} recorded", m, sizes)) {
        return false;
    }
    for k in 0..m {
        let (u, l, h) = &pts[k];
        let ok = o.ll[k] == *l && o.hh[k] == *h && (0..p.n).all(|i| o.ul[i][k] == u[i]);
        c.count("records compared");
        if !c.check(ok, || format!("record {} differs from the accepted point {:?} {:?} {:?}", k, u, l, h)) {
            return false;
        }
        let e = u.iter().map(|x| x * x).sum::<f64>().sqrt();
        if !c.close("recorded norm", o.norm[k], e, 1e-13 * (1.0 + e)) {
            return false;
        }
    }
    let start = &points(o)[0];
    if !c.check(start.0 == p.u0 && start.1 == p.l0, || format!("the first output is at {:?} {:?}", start.0, start.1)) {
        return false;
    }
    // prescribed steps
    if s.ddl.is_auto() {
        return true;
    }
    let pts = points(o);
    let sg = if s.dir == IniDir::Pos { 1.0 } else { -1.0 };
    let target = match s.stop {
        Stop::MaxLambda(l) | Stop::MinLambda(l) => Some(l),
        _ => None,
    };
    for k in 0..pts.len().saturating_sub(1) {
        let mut want = if list.is_empty() { first(s) } else { list[k] };
        let last = k + 2 == pts.len();
        if let Some(l1) = target {
            want = if k == 0 { want.min((l1 - p.l0).abs()) } else { want };
        }
        if !arc {
            let d = sg * (pts[k + 1].1 - pts[k].1);
            let tol = 1e-14 * (1.0 + pts[k].1.abs());
            let ok = (d - want).abs() <= tol || last && target.is_some() && d > 0.0 && d < want;
            c.count("prescribed steps compared");
            if !c.check(ok, || format!("step {} of the parameter is {:?} instead of {:?}", k, d, want)) {
                return false;
            }
        } else if m > k && (!list.is_empty() || k == 0) {
            // the increment of the parameter is prescribed along the tangent
            let d = o.hh[k] * o.dlds[k].abs();
            c.count("prescribed steps compared");
            if !c.close("step along the tangent", d, want, 1e-13 * (1.0 + want)) {
                return false;
            }
        }
        if arc && list.is_empty() && k > 0 && m > k && target.is_none() && !matches!(s.stop, Stop::MaxCompU(..) | Stop::MinCompU(..)) {
            c.count("prescribed steps compared");
            if !c.check(o.hh[k] == o.hh[0], || format!("step {} is {:?} instead of {:?}", k, o.hh[k], o.hh[0])) {
                return false;
            }
        }
    }
    if !list.is_empty() {
        c.check(o.stats.n_steps <= list.len(), || format!("{} steps made, {} listed", o.stats.n_steps, list.len()));
    }
    true
}

fn first(s: &Setup) -> f64 {
    s.first
}

fn final_state(c: &mut Case, s: &Setup, o: &Outcome) -> bool {
    let last = points(o).pop().unwrap();
    if !c.check(last.0 == o.u && last.1 == o.l, || format!("returned {:?} {:?} but accepted last {:?} {:?}: {:?}", o.u, o.l, last.0, last.1, o.res)) {
        return false;
    }
    if s.secondary && (s.ddl.is_auto() || o.res == Ok(Status::Success)) && o.res.is_ok() {
        c.count("final external states compared");
        return c.check(o.a.state == state_of(&o.u, o.l), || format!("the external state does not belong to the point returned: {:?}", o.res));
    }
    true
}

fn protocol(c: &mut Case) {
    let (p, s, a, list) = make(c);
    c.input(format!("{} fault={:?} at={} times={} list={:?}", describe(&p, &s), a.fault, a.at, a.times, list));
    let o = match run(&p, &s, a) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("cannot allocate the solver: {}", e));
            return;
        }
    };
    c.more(format!("{:?} accepted={} rejected={} steps={}", o.res, o.stats.n_accepted, o.stats.n_rejected, o.stats.n_steps));
    if o.res.is_err() {
        c.count("runs ended with an error");
        return;
    }
    c.count_n("rejected attempts", o.stats.n_rejected);
    if o.a.hit > 0 {
        c.count("runs with injected faults");
    }
    let att = match follow(c, &s, &o) {
        Some(a) => a,
        None => return,
    };
    c.count_n("callbacks followed", o.a.ev.len());
    let ok = counters(c, &p, &s, &o, &att) && records(c, &p, &s, &o, &list) && final_state(c, &s, &o);
    if ok && s.config.get_debug_predictor() {
        // one predictor for each accepted step (and the one of the step which ends a run with fixed steps)
        c.count("runs with recorded predictors");
        let extra = (!s.ddl.is_auto() && o.res != Ok(Status::Success)) as usize;
        let (l, u0, u1) = &o.predictors;
        let want = o.stats.n_accepted + extra;
        let ok = l.len() == want && u0.len() == want && u1.len() == if p.n > 1 { want } else { 0 };
        c.check(ok, || format!("{} predictors recorded, {} steps accepted: {:?}", l.len(), o.stats.n_accepted, o.res));
    }
}

/// A solver used again (also after failures) behaves like a new one
fn reuse(c: &mut Case) {
    let (p, mut s, a, _) = make(c);
    c.input(format!("{} fault={:?} at={} times={}", describe(&p, &s), a.fault, a.at, a.times));
    let mut solver = match Solver::new(&s.config, system(&p, &s)) {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("cannot allocate the solver: {}", e));
            return;
        }
    };
    let m = c.rng.int(1, 3);
    for k in 0..m {
        // earlier use: another direction, other steps, possibly a fault
        let mut s1 = s.clone();
        if c.rng.bool() {
            s1.dir = if s.dir == IniDir::Pos { IniDir::Neg } else { IniDir::Pos };
        }
        s1.stop = Stop::Steps(c.rng.int(1, 10));
        s1.ddl = match c.rng.int(0, 2) {
            0 => DeltaLambda::auto(c.rng.f(0.01, 0.1)),
            1 => DeltaLambda::constant(c.rng.f(0.01, 0.1)),
            _ => s.ddl.clone(),
        };
        if c.rng.chance(0.3) {
            s1.stop = s.stop;
        }
        let f = if k == 0 { Args::new(a.fault, a.at % 20, a.times) } else { Args::new(Fault::None, 0, 0) };
        let o1 = run_with(&mut solver, &p, &s1, f, None);
        c.count(if o1.res == Ok(Status::Success) { "earlier uses with success" } else { "earlier uses with failure" });
    }
    let again = run_with(&mut solver, &p, &s, Args::new(Fault::None, 0, 0), None);
    let fresh = run(&p, &s, Args::new(Fault::None, 0, 0)).unwrap();
    s.recording = true;
    let (pa, pf) = (points(&again), points(&fresh));
    c.count("reuses compared");
    if !c.check(again.res == fresh.res && pa.len() == pf.len(), || format!("used again: {:?} with {} points; new: {:?} with {} points", again.res, pa.len(), fresh.res, pf.len())) {
        return;
    }
    // the linear solver keeps its ordering: equal up to rounding if there is more than one unknown
    for k in 0..pa.len() {
        let d = pa[k].0.iter().zip(&pf[k].0).fold((pa[k].1 - pf[k].1).abs(), |a, (x, y)| a.max((x - y).abs()));
        let size = pf[k].0.iter().fold(pf[k].1.abs(), |a, x| a.max(x.abs()));
        if p.n > 1 {
            c.max("difference of reuse", d / (1.0 + size));
        }
        let tol = if p.n == 1 && !(s.method == Method::Arclength && !s.bordering) { 0.0 } else { 1e-8 * (1.0 + size) };
        if !c.check(d <= tol, || format!("point {} differs by {:e} from the one of a new solver: {:?} {:?}", k, d, pa[k], pf[k])) {
            return;
        }
    }
    let (x, y) = (&again.stats, &fresh.stats);
    let list = [
        ("residuals", x.n_function, y.n_function),
        ("jacobians", x.n_jacobian, y.n_jacobian),
        ("factorizations", x.n_factor, y.n_factor),
        ("linear systems", x.n_lin_sol, y.n_lin_sol),
        ("steps", x.n_steps, y.n_steps),
        ("accepted", x.n_accepted, y.n_accepted),
        ("rejected", x.n_rejected, y.n_rejected),
        ("iterations", x.n_iteration_total, y.n_iteration_total),
    ];
    for (what, g, w) in list {
        if !c.check(g == w, || format!("{}: {} when used again, {} with a new solver", what, g, w)) {
            return;
        }
    }
}

pub fn run_all(cx: &mut Ctx) {
    cx.rule("distinct = different systems, options, stopping conditions, step modes and injected faults");
    cx.assume("the solution of the linear system of the Euler predictor of the natural method is not counted (as in the existing tests)");
    let n = cx.n(4000, 40000);
    cx.run("protocol", 2 * n, protocol);
    cx.run("reuse", n, reuse);
    cx.require("callbacks followed", 100_000);
    cx.require("counters compared", 10_000);
    cx.require("rejected attempts", 1000);
    cx.require("records compared", 10_000);
    cx.require("prescribed steps compared", 1000);
    cx.require("reuses compared", 1000);
    cx.require("final external states compared", 500);
}
