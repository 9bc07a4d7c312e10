//! Points of parameter continuation: on the curve, tangents, direction, stopping condition
use crate::problem::*;
use harness::{Case, Ctx, EPS};
use russell_lab::Norm;
use russell_nonlin::{DeltaLambda, IniDir, Method, RdiffType, SoderlindClass, Status, Stop};

fn options(c: &mut Case, s: &mut Setup) {
    s.euler = c.rng.chance(0.7);
    if c.rng.chance(0.4) {
        s.tol_res = 10f64.powf(c.rng.f(-11.0, -5.0));
    }
    if c.rng.chance(0.4) {
        s.tol_abs = 10f64.powf(c.rng.f(-12.0, -7.0));
        s.tol_rel = 10f64.powf(c.rng.f(-11.0, -5.0));
    }
    s.no_delta = c.rng.chance(0.3);
    if c.rng.chance(0.3) {
        s.config.set_nr_control_enabled(true).set_nr_control_n_opt(c.rng.int(2, 5));
    }
    if c.rng.chance(0.3) {
        s.config.set_tg_control_pid_vcc(false);
        let b = c.rng.f(2.0, 6.0);
        let class = *c.rng.pick(&[
            SoderlindClass::Ho211,
            SoderlindClass::H211b(b),
            SoderlindClass::H211PI,
            SoderlindClass::Ho312,
            SoderlindClass::H312b(b),
            SoderlindClass::H312PID,
            SoderlindClass::Ho321,
            SoderlindClass::H321,
        ]);
        s.config.set_tg_control_soderlind(class);
    }
    if c.rng.chance(0.3) {
        s.config.set_tg_control_rdiff_type(RdiffType::Max);
    }
    if c.rng.chance(0.3) {
        s.config.set_tg_control_tol(10f64.powf(c.rng.f(-1.5, -0.3)));
    }
    s.config.set_n_step_max(400);
}

/// Judges the accepted points of a run: residual or correction within the tolerances and, for the arclength method, the tangents
fn on_curve(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome) -> bool {
    let n = p.n;
    let pts = points(o);
    let arc = s.method == Method::Arclength;
    for k in 1..pts.len() {
        let (u, l, _) = &pts[k];
        if u.iter().chain([l]).any(|x| x.abs() > 100.0) {
            c.count("points too far away to judge");
            break;
        }
        let g = p.gg(u, *l);
        let gmax = g.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        c.count("accepted points judged");
        if gmax < s.tol_res * (1.0 + 1e-6) + 1e-14 {
            c.count("accepted on the residual");
            continue;
        }
        if !c.check(!s.no_delta, || format!("accepted point {} has the residual {:e} > {:e}: u={:?} l={:?}", k, gmax, s.tol_res, u, l)) {
            return false;
        }
        let (u0, l0, _) = &pts[k - 1];
        let sc: Vec<f64> = u0.iter().chain([l0]).map(|x| s.tol_abs + s.tol_rel * x.abs()).collect();
        let rms = p.correction(u, *l, &sc, !arc);
        c.count("accepted on the correction");
        c.max("correction over tolerance", rms);
        if !c.check(rms <= 1.0 + 1e-3, || {
            format!("accepted point {} has the residual {:e} > {:e} and the correction {} > 1: u={:?} l={:?}", k, gmax, s.tol_res, rms, u, l)
        }) {
            return false;
        }
    }
    if !arc || !s.recording {
        return true;
    }
    // tangents
    if !c.check(o.dlds.len() == pts.len() && o.duds.iter().all(|d| d.len() == pts.len()), || {
        format!("{} points but {} tangents", pts.len(), o.dlds.len())
    }) {
        return false;
    }
    for k in 0..pts.len() {
        let t: Vec<f64> = (0..n).map(|i| o.duds[i][k]).chain([o.dlds[k]]).collect();
        let norm = t.iter().map(|x| x * x).sum::<f64>().sqrt();
        if !c.close("norm of the tangent", norm, 1.0, 1e-10) {
            return false;
        }
        let (u, l, _) = &pts[k];
        if u.iter().chain([l]).any(|x| x.abs() > 100.0) {
            break;
        }
        let e = match p.null(u, *l, &t) {
            Some(e) => e,
            None => continue,
        };
        let d = t.iter().zip(&e).map(|(a, b)| (a - b).powi(2)).sum::<f64>().sqrt();
        // the derivatives may stem from the iterate before the last one
        let tol = if k == 0 { 1e-8 } else { 1e-6 + 20.0 * s.tol_res.sqrt() };
        c.count("tangents judged");
        c.max("tangent deviation over tolerance", d / tol);
        if !c.check(d <= tol, || format!("point {}: tangent {:?} deviates {:e} > {:e} from {:?}", k, t, d, tol, e)) {
            return false;
        }
    }
    true
}

/// Number of rejected attempts before each point
fn rejections(o: &Outcome) -> Vec<usize> {
    o.a.ev.iter().filter_map(|e| if let Ev::Out { rej, .. } = e { Some(*rej) } else { None }).collect()
}

/// Judges the direction of the arclength method
fn direction(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome) -> bool {
    let n = p.n;
    let pts = points(o);
    let auto = s.ddl.is_auto();
    let sg = if s.dir == IniDir::Pos { 1.0 } else { -1.0 };
    if s.method == Method::Natural {
        for k in 1..pts.len() {
            if pts[k].1.abs() > 100.0 {
                break;
            }
            let d = sg * (pts[k].1 - pts[k - 1].1);
            if !c.check(d > 0.0, || format!("the parameter goes from {:?} to {:?} although the direction is {:?}", pts[k - 1].1, pts[k].1, s.dir)) {
                return false;
            }
        }
        return true;
    }
    if !c.check(sg * o.dlds[0] > 0.0, || format!("initial dl/ds = {} with {:?}", o.dlds[0], s.dir)) {
        return false;
    }
    let slack = 2.0 * (s.tol_res + s.tol_abs + s.tol_rel * 10.0);
    // the length constraint of the steps without rejections
    let rej = rejections(o);
    for k in 1..pts.len() {
        let (u0, l0, h) = &pts[k - 1];
        let (u1, l1, _) = &pts[k];
        if u1.iter().chain([l1]).any(|x| x.abs() > 100.0) {
            break;
        }
        let mut chord = (l1 - l0) * o.dlds[k - 1];
        for i in 0..n {
            chord += (u1[i] - u0[i]) * o.duds[i][k - 1];
        }
        let last = k + 1 == pts.len() && !matches!(s.stop, Stop::Steps(_));
        if rej[k] == rej[k - 1] && !last && !matches!(s.stop, Stop::MinCompU(..) | Stop::MaxCompU(..)) {
            c.count("step lengths judged");
            if !c.close("step along the tangent", chord, *h, 1e-9 * (1.0 + h.abs()) + 10.0 * s.tol_res + if s.no_delta { 0.0 } else { slack }) {
                return false;
            }
        }
        if p.sym {
            // one solution for each parameter value
            if !c.check((l1 - l0) * sg > -slack, || format!("turned back at point {}: {:?} then {:?}", k, l0, l1)) {
                return false;
            }
            continue;
        }
        let (ta, tb) = (p.param(u0, *l0), p.param(u1, *l1));
        let tb = if p.kind == Kind::Ellipse {
            // nearest angle
            let pi = std::f64::consts::PI;
            let mut d = tb - ta;
            while d > pi {
                d -= 2.0 * pi;
            }
            while d < -pi {
                d += 2.0 * pi;
            }
            ta + d
        } else {
            tb
        };
        let w = 0.5 * h.abs() / p.speed(ta);
        let r = p.radius(ta - 3.0 * w, ta + 3.0 * w);
        if chord.abs() > 0.25 * r || h.abs() > 0.25 * r || chord.abs() < 100.0 * slack {
            c.count("steps too long to judge the direction");
            continue;
        }
        let (du, dl) = p.tangent(ta);
        let dot = dl * o.dlds[k - 1] + (0..n).map(|i| du[i] * o.duds[i][k - 1]).sum::<f64>();
        let d = dot.signum();
        let len = d * p.length(ta, tb);
        c.count("steps judged for direction");
        let (du1, dl1) = p.tangent(tb);
        let dot1 = dl1 * o.dlds[k] + (0..n).map(|i| du1[i] * o.duds[i][k]).sum::<f64>();
        if dl * dl1 < 0.0 {
            c.count("fold points passed");
        }
        if !c.check(dot1.signum() == d, || format!("the tangent turned back at point {} (auto={}): u={:?} l={:?}", k, auto, u1, l1)) {
            return false;
        }
        if !c.check(len > 0.7 * chord - slack && len < 1.5 * chord + slack && chord > 0.0, || {
            format!("point {} lies {} along the curve from the last one, but the step is {} (radius {})", k, len, chord, r)
        }) {
            return false;
        }
    }
    true
}

/// The limit on steps was reached or the list of steps was used up
fn out_of_steps(s: &Setup, o: &Outcome) -> bool {
    o.stats.n_steps >= s.config.get_n_step_max() || s.list > 0 && o.stats.n_steps >= s.list && !matches!(s.stop, Stop::Steps(n) if n == s.list)
}

fn stopped(c: &mut Case, _p: &Prob, s: &Setup, o: &Outcome) -> bool {
    let pts = points(o);
    let hm = 1.000001e-10;
    // the last point is the state returned
    let last = pts.last().unwrap();
    if !c.check(last.0 == o.u && last.1 == o.l, || format!("returned {:?} {:?} but the last accepted point is {:?} {:?}", o.u, o.l, last.0, last.1)) {
        return false;
    }
    match &o.res {
        Ok(Status::Success) => (),
        _ => return true,
    }
    if out_of_steps(s, o) {
        return true; // see C39
    }
    c.count("successful runs");
    let tol_l = hm + 2.0 * s.tol_res + if s.no_delta { 0.0 } else { 3.0 * (s.tol_abs + s.tol_rel * (o.l.abs() + 1.0)) };
    match s.stop {
        Stop::Steps(n) => c.check(pts.len() - 1 == n, || format!("{} steps requested, {} made", n, pts.len() - 1)),
        Stop::MaxLambda(l1) | Stop::MinLambda(l1) => {
            let is_max = matches!(s.stop, Stop::MaxLambda(_));
            let k = pts.len() - 2;
            let clean = o.stats.n_rejected == rejections(o)[k];
            let ahead = if s.method == Method::Natural { true } else {
                // the tangent reaches the target: otherwise only the correction may pass it
                let guess = pts[k].1 + pts[k].2 * o.dlds[k];
                clean && if is_max { guess > l1 } else { guess < l1 }
            };
            if !c.check(if is_max { o.l >= l1 - hm } else { o.l <= l1 + hm }, || format!("stopped at the parameter {:?} before the target {:?}", o.l, l1)) {
                return false;
            }
            for q in 0..=k {
                let before = if is_max { pts[q].1 < l1 } else { pts[q].1 > l1 };
                if !c.check(before, || format!("the run went on after passing the target {:?} at point {}: {:?}", l1, q, pts[q].1)) {
                    return false;
                }
            }
            if !ahead {
                c.count("targets passed by the correction");
                return true;
            }
            let tol = if s.method == Method::Natural { hm.min(8.0 * EPS * (1.0 + l1.abs() + pts[0].1.abs())) } else { tol_l / o.dlds[k].abs().max(1e-3) };
            c.count("parameter targets judged");
            c.max("target deviation over tolerance", (o.l - l1).abs() / tol);
            c.close("target of the parameter", o.l, l1, tol)
        }
        Stop::MaxCompU(i, u1) => {
            let precise = s.config.get_enable_precise_stop_u_comp() && s.ddl.is_auto();
            c.check(o.u[i] >= u1 - hm, || format!("stopped at u[{}]={:?} < {:?}", i, o.u[i], u1))
                && c.check(!precise || o.u[i] <= u1 + hm, || format!("precise stop at u[{}]={:?} > {:?}", i, o.u[i], u1))
                && inside(c, &pts, |u| u[i] < u1 + hm)
        }
        Stop::MinCompU(i, u1) => {
            let precise = s.config.get_enable_precise_stop_u_comp() && s.ddl.is_auto();
            c.check(o.u[i] <= u1 + hm, || format!("stopped at u[{}]={:?} > {:?}", i, o.u[i], u1))
                && c.check(!precise || o.u[i] >= u1 - hm, || format!("precise stop at u[{}]={:?} < {:?}", i, o.u[i], u1))
                && inside(c, &pts, |u| u[i] > u1 - hm)
        }
        Stop::MaxNormU(v, ty, b, e) => {
            let f = |u: &[f64]| norm(&u[b..e], ty);
            c.check(f(&o.u) >= v - hm, || format!("stopped at the norm {:?} < {:?}", f(&o.u), v)) && inside(c, &pts[1..], |u| f(u) < v + hm)
        }
    }
}

fn norm(u: &[f64], ty: Norm) -> f64 {
    match ty {
        Norm::Euc | Norm::Fro => u.iter().map(|x| x * x).sum::<f64>().sqrt(),
        Norm::One => u.iter().map(|x| x.abs()).sum(),
        _ => u.iter().fold(0.0, |a, x| a.max(x.abs())),
    }
}

/// The stopping condition is not met before the last point
fn inside(c: &mut Case, pts: &[(Vec<f64>, f64, f64)], f: impl Fn(&[f64]) -> bool) -> bool {
    for k in 0..pts.len().saturating_sub(1) {
        if !c.check(f(&pts[k].0), || format!("the run went on after the stopping condition was met at accepted point {}: {:?}", k, pts[k].0)) {
            return false;
        }
    }
    true
}

fn make(c: &mut Case, method: Method) -> (Prob, Setup) {
    let arc = method == Method::Arclength;
    let fold = arc && c.rng.chance(0.8);
    let (kind, sym) = pick_kind(c, fold);
    let n = *c.rng.pick(&[1usize, 1, 2, 2, 3, 4, 6]);
    let p = Prob::new(&mut c.rng, kind, sym, n);
    let dir = if c.rng.bool() { IniDir::Pos } else { IniDir::Neg };
    let sg = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    // scale of the steps: fraction of the smallest radius
    let (r, dlds) = if sym {
        (1.0, 0.6)
    } else {
        let (_, dl) = p.tangent(p.t0);
        (p.radius(p.t0 - 3.0, p.t0 + 3.0).min(1.0), dl.abs() / p.speed(p.t0))
    };
    let sigma = r * c.rng.f(0.05, 0.2);
    let dd = if arc { sigma * dlds } else { c.rng.f(0.02, 0.2) };
    let mut list = 0;
    let ddl = match c.rng.int(0, 2) {
        0 => DeltaLambda::auto(dd * if c.rng.chance(0.3) { 0.01 } else { 1.0 }),
        1 => DeltaLambda::constant(dd),
        _ => {
            let m = c.rng.int(1, 30);
            list = m;
            DeltaLambda::list(&(0..m).map(|_| dd * c.rng.f(0.3, 1.0)).collect::<Vec<_>>())
        }
    };
    let i = c.rng.int(0, n - 1);
    // values reached by the curve, if the parameter is known
    let far = c.rng.f(0.3, 2.5);
    let td = if sym { 0.0 } else { (p.tangent(p.t0).1).signum() * sg };
    let (uf, _lf) = if sym { (p.u0.clone(), p.l0 + sg * far) } else { p.point(p.t0 + td * far) };
    let kind_stop = c.rng.int(0, 5);
    let stop = match kind_stop {
        0 => Stop::Steps(c.rng.int(1, 40)),
        1 | 2 => {
            // a parameter value reached without passing a fold, or after it
            let want = if sym || kind == Kind::Mono { p.l0 + sg * far } else { p.l0 + sg * far * 0.3 };
            if sg > 0.0 { Stop::MaxLambda(want) } else { Stop::MinLambda(want) }
        }
        3 if sym => {
            let v = norm(&p.u0, Norm::Euc) + c.rng.f(0.3, 1.0);
            Stop::MaxNormU(v, Norm::Euc, 0, n)
        }
        3 => {
            let ty = *c.rng.pick(&[Norm::Euc, Norm::One, Norm::Inf, Norm::Max]);
            let b = c.rng.int(0, n - 1);
            let e = c.rng.int(b + 1, n);
            let v = norm(&uf[b..e], ty).max(norm(&p.u0[b..e], ty) + 0.1);
            Stop::MaxNormU(v, ty, b, e)
        }
        _ => {
            let v = if sym {
                let (a, gl) = p.jac(&p.u0, p.l0);
                let z = solve_dense(&a, &gl).unwrap();
                p.u0[i] - sg * z[i].signum() * c.rng.f(0.05, 0.5)
            } else {
                uf[i]
            };
            if v > p.u0[i] { Stop::MaxCompU(i, v) } else { Stop::MinCompU(i, v) }
        }
    };
    let bordering = c.rng.bool();
    let mut s = Setup::new(method, bordering, dir, stop, ddl);
    s.list = list;
    options(c, &mut s);
    if matches!(stop, Stop::MaxCompU(..) | Stop::MinCompU(..)) && c.rng.chance(0.6) {
        s.config.set_enable_precise_stop_u_comp(true);
    }
    s.apply();
    (p, s)
}

fn judge(c: &mut Case, method: Method) {
    let (p, s) = make(c, method);
    c.input(describe(&p, &s));
    let o = match run(&p, &s, Args::new(Fault::None, 0, 0)) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("cannot allocate the solver: {}", e));
            return;
        }
    };
    c.more(format!("{:?} accepted={} rejected={}", o.res, o.stats.n_accepted, o.stats.n_rejected));
    c.count(if o.res == Ok(Status::Success) { "runs ended with success" } else { "runs ended with failure" });
    c.count_n("rejected attempts", o.stats.n_rejected);
    let ok = on_curve(c, &p, &s, &o) && direction(c, &p, &s, &o) && stopped(c, &p, &s, &o);
    if !ok {
        return;
    }
    if s.ddl.is_auto() && o.dlds.iter().any(|x| x * o.dlds[0] < 0.0) && o.res == Ok(Status::Success) {
        c.count("automatic runs past fold points");
    }
    // smooth curves and short steps: no reason to fail
    let tuned = s.ddl.is_auto() && (!s.config.get_tg_control_pid_vcc() || s.config.get_tg_control_tol() != 0.5 || s.config.get_nr_control_enabled());
    let hard = tuned || p.kind != Kind::Mono || s.config.get_enable_precise_stop_u_comp() || matches!(s.stop, Stop::MaxCompU(..) | Stop::MinCompU(..) | Stop::MaxNormU(..));
    if !hard && (method == Method::Natural || s.list == 0) || matches!(s.stop, Stop::Steps(_)) && !s.ddl.is_auto() && s.list == 0 {
        c.count("runs which have to succeed");
        c.check(o.res == Ok(Status::Success), || format!("failed on a smooth curve with short steps: {:?}", o.res));
    }
}

fn natural(c: &mut Case) {
    judge(c, Method::Natural);
}

fn arclength(c: &mut Case) {
    judge(c, Method::Arclength);
}

/// The parameter target lies behind fold points: the curve has to be followed until it is reached
fn behind_folds(c: &mut Case) {
    let n = c.rng.int(1, 4);
    let mut p = Prob::new(&mut c.rng, Kind::Cubic, false, n);
    // start on the first branch, below the first fold
    let k = p.k;
    let up = c.rng.bool();
    let sg = if up { 1.0 } else { -1.0 };
    let t0 = sg * -k[1] * c.rng.f(1.6, 2.4);
    let (u0, l0) = p.point(t0);
    p.t0 = t0;
    p.u0 = u0;
    p.l0 = l0;
    // the fold lies at k2 + sg 2 k0
    let want = k[2] + sg * k[0] * (2.0 + c.rng.f(0.3, 2.0));
    let stop = if up { Stop::MaxLambda(want) } else { Stop::MinLambda(want) };
    let (_, dl) = p.tangent(p.t0);
    let r = p.radius(-3.0 * k[1], 3.0 * k[1]).min(1.0);
    let dd = 0.15 * r * dl.abs() / p.speed(p.t0);
    let ddl = DeltaLambda::constant(dd);
    let mut s = Setup::new(Method::Arclength, c.rng.bool(), if up { IniDir::Pos } else { IniDir::Neg }, stop, ddl);
    s.config.set_n_step_max(2000);
    s.apply();
    c.input(describe(&p, &s));
    let o = run(&p, &s, Args::new(Fault::None, 0, 0)).unwrap();
    c.more(format!("{:?} accepted={}", o.res, o.stats.n_accepted));
    if on_curve(c, &p, &s, &o) && direction(c, &p, &s, &o) && stopped(c, &p, &s, &o) {
        c.count("targets behind folds");
        c.check(o.res == Ok(Status::Success), || format!("did not reach the target behind the folds: {:?}", o.res));
    }
}

pub fn run_all(cx: &mut Ctx) {
    cx.rule("distinct = different systems, options, stopping conditions and step modes");
    cx.assume("accepted points farther than 100 from the origin and steps longer than a quarter of the radius of curvature are not judged for direction");
    let n = cx.n(1500, 20000);
    cx.run("natural", n, natural);
    cx.run("arclength", 2 * n, arclength);
    cx.run("targets behind folds", n / 4, behind_folds);
    cx.require("accepted points judged", 50_000);
    cx.require("automatic runs past fold points", 100);
    cx.require("tangents judged", 50_000);
    cx.require("steps judged for direction", 20_000);
    cx.require("fold points passed", 500);
    cx.require("parameter targets judged", 500);
    cx.require("targets behind folds", 100);
}
