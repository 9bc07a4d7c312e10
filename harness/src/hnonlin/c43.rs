//! Automatic step size of parameter continuation: the documented controller, recomputed from the recorded points and tangents
use crate::problem::*;
use harness::{Case, Ctx, EPS};
use russell_lab::Norm;
use russell_nonlin::{DeltaLambda, IniDir, Method, RdiffType, SoderlindClass, Status, Stop};

/// Parameters of the filters as published in Table III of Soderlind (2003)
fn published(c: &mut Case) -> (SoderlindClass, [f64; 5]) {
    let b = c.rng.f(1.5, 12.0);
    match c.rng.int(0, 7) {
        0 => (SoderlindClass::Ho211, [0.5, 0.5, 0.0, 0.5, 0.0]),
        1 => (SoderlindClass::H211b(b), [1.0 / b, 1.0 / b, 0.0, 1.0 / b, 0.0]),
        2 => (SoderlindClass::H211PI, [1.0 / 6.0, 1.0 / 6.0, 0.0, 0.0, 0.0]),
        3 => (SoderlindClass::Ho312, [0.25, 0.5, 0.25, 0.75, 0.25]),
        4 => (SoderlindClass::H312b(b), [1.0 / b, 2.0 / b, 1.0 / b, 3.0 / b, 1.0 / b]),
        5 => (SoderlindClass::H312PID, [1.0 / 18.0, 1.0 / 9.0, 1.0 / 18.0, 0.0, 0.0]),
        6 => (SoderlindClass::Ho321, [1.25, 0.5, -0.75, -0.25, -0.75]),
        _ => (SoderlindClass::H321, [1.0 / 3.0, 1.0 / 18.0, -5.0 / 18.0, -5.0 / 6.0, -1.0 / 6.0]),
    }
}

struct Ctl {
    nr: bool,
    n_opt: usize,
    nr_beta: f64,
    tg: bool,
    pid: bool,
    tiny: f64,
    rho_tiny: f64,
    max: bool,
    tol: f64,
    b: [f64; 5],
    m: f64,
    dd: f64,
}

fn make(c: &mut Case) -> (Prob, Setup, Args, Ctl) {
    let method = if c.rng.chance(0.4) { Method::Natural } else { Method::Arclength };
    let arc = method == Method::Arclength;
    let fold = arc && c.rng.chance(0.6);
    let (kind, sym) = pick_kind(c, fold);
    let n = *c.rng.pick(&[1usize, 1, 2, 3, 5]);
    let p = Prob::new(&mut c.rng, kind, sym, n);
    let dir = if c.rng.bool() { IniDir::Pos } else { IniDir::Neg };
    let sg = if dir == IniDir::Pos { 1.0 } else { -1.0 };
    let dd = c.rng.mag(-3.0, -0.8).abs();
    let steps = c.rng.int(2, 25);
    let mut faults = true;
    let stop = match c.rng.int(0, 5) {
        0 => {
            faults = false; // a rejected last step leaves a shorter step
            let l1 = p.l0 + sg * dd * c.rng.f(0.2, 20.0);
            if sg > 0.0 { Stop::MaxLambda(l1) } else { Stop::MinLambda(l1) }
        }
        1 => {
            let e = p.u0.iter().map(|x| x * x).sum::<f64>().sqrt();
            Stop::MaxNormU(e + c.rng.f(0.05, 0.6), Norm::Euc, 0, n)
        }
        _ => Stop::Steps(steps),
    };
    let mut s = Setup::new(method, c.rng.bool(), dir, stop, DeltaLambda::auto(dd));
    s.euler = c.rng.bool();
    s.secondary = c.rng.chance(0.7);
    s.residuals = true;
    s.no_delta = c.rng.chance(0.3);
    let mut k = Ctl {
        nr: c.rng.bool(),
        n_opt: c.rng.int(1, 6),
        nr_beta: c.rng.f(0.1, 1.5),
        tg: c.rng.chance(0.85),
        pid: c.rng.chance(0.4),
        tiny: *c.rng.pick(&[1e-6, 1e-6, 0.0, 1e-3, 0.02]),
        rho_tiny: c.rng.f(0.8, 2.0),
        max: c.rng.bool(),
        tol: c.rng.mag(-2.0, 0.5).abs(),
        b: [0.0; 5],
        m: c.rng.f(0.1, 0.9),
        dd,
    };
    if c.rng.bool() {
        let (class, b) = published(c);
        s.config.set_tg_control_soderlind(class);
        k.b = b;
    } else {
        for i in 0..5 {
            k.b[i] = c.rng.f(-0.3, 0.8);
        }
        s.config
            .set_tg_control_beta1(k.b[0])
            .set_tg_control_beta2(k.b[1])
            .set_tg_control_beta3(k.b[2])
            .set_tg_control_alpha2(k.b[3])
            .set_tg_control_alpha3(k.b[4]);
    }
    s.config
        .set_nr_control_enabled(k.nr)
        .set_nr_control_n_opt(k.n_opt)
        .set_nr_control_beta(k.nr_beta)
        .set_tg_control_enabled(k.tg)
        .set_tg_control_pid_vcc(k.pid)
        .set_tg_control_rdiff_min(k.tiny)
        .set_tg_control_rho_for_tiny_rdiff(k.rho_tiny)
        .set_tg_control_rdiff_type(if k.max { RdiffType::Max } else { RdiffType::Ave })
        .set_tg_control_tol(k.tol)
        .set_m_failure(k.m)
        .set_n_step_max(80);
    if c.rng.chance(0.2) {
        s.config.set_n_iteration_max(c.rng.int(2, 5));
    }
    if c.rng.chance(0.3) {
        s.config.set_n_cont_failure_max(c.rng.int(1, 8));
    }
    s.apply();
    let fault = if faults && c.rng.chance(0.6) {
        let f = *c.rng.pick(&[Fault::UpErr, Fault::JacScaled(1e-3), Fault::JacScaled(-0.2), Fault::GgShift, Fault::UpTerminate]);
        if !s.secondary && matches!(f, Fault::UpErr | Fault::UpTerminate) { Fault::GgShift } else { f }
    } else {
        Fault::None
    };
    let times = *c.rng.pick(&[1usize, 1, 2, 3, 8, 30]);
    let at = c.rng.int(0, 60);
    (p, s, Args::new(fault, at, times), k)
}

/// Relative change over a step and a bound of its rounding errors
fn change(k: &Ctl, p: &Prob, s: &Setup, o: &Outcome, pts: &[(Vec<f64>, f64, f64)], i: usize) -> (f64, f64, bool) {
    let mut near = false;
    let mut q: Vec<(f64, f64)> = vec![];
    let n = p.n;
    if s.method == Method::Arclength {
        for j in 0..=n {
            let (t0, t1) = if j < n { (o.duds[j][i], o.duds[j][i + 1]) } else { (o.dlds[i], o.dlds[i + 1]) };
            near |= t0.abs() > 0.9e-10 && t0.abs() < 1.1e-10;
            if t0.abs() > 1e-10 {
                q.push(((t1 - t0).abs() / t0.abs(), 0.0));
            }
        }
    } else if i > 0 {
        for j in 0..n {
            let (a, b, d) = (pts[i - 1].0[j], pts[i].0[j], pts[i + 1].0[j]);
            let den = (d - b).abs();
            near |= den > 0.9e-10 && den < 1.1e-10;
            if den > 1e-10 {
                q.push(((d - 2.0 * b + a).abs() / den, 8.0 * EPS * (a.abs() + 2.0 * b.abs() + d.abs()) / den));
            }
        }
    }
    let e = q.iter().fold(0.0f64, |a, x| a.max(x.1)) / k.tol;
    let r = if k.max || s.method == Method::Natural {
        q.iter().fold(0.0f64, |a, x| a.max(x.0)) / k.tol
    } else if q.is_empty() {
        0.0
    } else {
        q.iter().map(|x| x.0).sum::<f64>() / q.len() as f64 / k.tol
    };
    (r, e, near)
}

fn control(c: &mut Case) {
    let (p, s, a, k) = make(c);
    c.input(format!(
        "{} fault={:?} at={} times={} tg={} tiny={:e} rho_tiny={:.3} m={:.3} nr_beta={:.3}",
        describe(&p, &s),
        a.fault,
        a.at,
        a.times,
        k.tg,
        k.tiny,
        k.rho_tiny,
        k.m,
        k.nr_beta
    ));
    let o = match run(&p, &s, a) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("cannot allocate the solver: {}", e));
            return;
        }
    };
    c.more(format!("{:?} accepted={} rejected={}", o.res, o.stats.n_accepted, o.stats.n_rejected));
    if o.res.is_err() {
        c.count("runs ended with an error");
        return;
    }
    let got = (s.config.get_tg_control_beta1(), s.config.get_tg_control_beta2(), s.config.get_tg_control_beta3(), s.config.get_tg_control_alpha2(), s.config.get_tg_control_alpha3());
    for (g, w) in [got.0, got.1, got.2, got.3, got.4].iter().zip(&k.b) {
        if !c.close("parameter of the filter", *g, *w, 1e-15 * (1.0 + w.abs())) {
            return;
        }
    }
    let pts = points(&o);
    let rej: Vec<usize> = o.a.ev.iter().filter_map(|e| if let Ev::Out { rej, .. } = e { Some(*rej) } else { None }).collect();
    let lists = o.stats.iterations_residuals.clone().unwrap_or_default();
    let m = pts.len();
    let arc = s.method == Method::Arclength;
    if o.ll.len() != m || lists.len() != m - 1 || arc && o.dlds.len() != m {
        c.count("runs with incomplete records"); // decided elsewhere
        return;
    }
    let target = match s.stop {
        Stop::MaxLambda(l) | Stop::MinLambda(l) => Some(l),
        _ => None,
    };
    // first step
    let mut d0 = k.dd;
    if let Some(l1) = target {
        d0 = d0.min((l1 - p.l0).abs());
    }
    let h0 = if arc { d0 / o.dlds[0].abs() } else { d0 };
    if !c.close("first step size", o.hh[0], h0, 1e-13 * h0) {
        return;
    }
    let sg = if s.dir == IniDir::Pos { 1.0 } else { -1.0 };
    let (mut prev, mut anc) = ((0.0, 0.0), (0.0, 0.0)); // earlier changes with their relative errors
    let (mut h_prev, mut h_anc) = (0.0, 0.0);
    for i in 0..m - 1 {
        // size of the accepted step
        let r = rej[i + 1] - rej[i];
        let h = o.hh[i] * k.m.powi(r as i32);
        let last = i + 2 == m;
        if target.is_some() && (last || r > 0) {
            c.count("steps toward a target not modelled");
            break;
        }
        let (u0, l0, _) = &pts[i];
        let (u1, l1, h1) = &pts[i + 1];
        let size = u1.iter().chain(u0).fold(l1.abs().max(l0.abs()), |a, x| a.max(x.abs()));
        let made = if arc {
            (0..p.n).map(|j| (u1[j] - u0[j]) * o.duds[j][i]).sum::<f64>() + (l1 - l0) * o.dlds[i]
        } else {
            sg * (l1 - l0)
        };
        c.count(if r > 0 { "accepted steps after rejections measured" } else { "accepted steps measured" });
        let tol = if arc { 1e-8 * (1.0 + size) } else { 1e-14 * (1.0 + size) };
        c.max("distance from the step size", (made - h).abs() / (1.0 + size));
        if !c.close("size of the step made", made, h, tol + 1e-12 * h) {
            return;
        }
        // the next step size
        let (raw, e, near) = change(&k, &p, &s, &o, &pts, i);
        if near || e > 0.0 && raw <= e || k.tiny > 0.0 && (raw - k.tiny).abs() <= e + 1e-9 * k.tiny {
            c.count("runs near a threshold");
            return;
        }
        let now = if raw < k.tiny { (0.0, 0.0) } else { (raw, if raw > 0.0 { e / raw } else { 0.0 }) };
        let nit = (lists[i].len() - 1).max(1) as f64;
        let xi = if k.nr { (k.n_opt as f64 / nit).powf(k.nr_beta) } else { 1.0 };
        let mut rel = 0.0;
        let n_acc = i + 1;
        let rho = if !k.tg {
            1.0
        } else if now.0 == 0.0 {
            c.count("tiny changes");
            k.rho_tiny
        } else if k.pid {
            let mut x = 1.0 / now.0;
            x = x.powf(0.175);
            rel += now.1 + prev.1 + anc.1;
            if n_acc > 1 {
                x *= (prev.0 / now.0).powf(0.075);
            }
            if n_acc > 2 && anc.0 > 0.0 {
                x *= (prev.0 * prev.0 / (now.0 * anc.0)).powf(0.01);
            }
            c.count("steps of the three-term controller");
            x
        } else {
            let mut x = now.0.powf(-k.b[0]);
            rel += k.b[0].abs() * now.1;
            if n_acc > 1 {
                if prev.0 > 0.0 {
                    x *= prev.0.powf(-k.b[1]);
                    rel += k.b[1].abs() * prev.1;
                }
                x *= (h_prev / h).powf(k.b[3]);
            }
            if n_acc > 2 {
                if anc.0 > 0.0 {
                    x *= anc.0.powf(-k.b[2]);
                    rel += k.b[2].abs() * anc.1;
                }
                x *= (h_anc / h_prev).powf(k.b[4]);
            }
            c.count("steps of the digital filter");
            x
        };
        if rel > 1e-3 {
            c.count("runs with an indefinite change");
            return;
        }
        let mut want = h * (1.0 + (xi * rho - 1.0).atan());
        if r > 0 {
            c.count(if want > h { "growth withheld after a rejection" } else { "reduction after a rejection" });
            want = want.min(h);
        }
        c.count(if want > h { "growing steps" } else { "shrinking steps" });
        if k.nr && nit as usize != k.n_opt {
            c.count("steps corrected by the number of iterations");
        }
        if !c.close("next step size", *h1, want, h * (1e-10 + 2.0 * rel)) {
            return;
        }
        anc = prev;
        prev = now;
        h_anc = h_prev;
        h_prev = h;
    }
    if o.res == Ok(Status::Success) {
        c.count("successful runs followed to the end");
        c.close("last suggested step size", o.stats.h_accepted, if target.is_some() { o.stats.h_accepted } else { o.hh[m - 1] }, 0.0);
    }
    if o.res == Ok(Status::SmallStepsize) {
        // the run is given up only when the step became too small
        let r = o.stats.n_rejected - rej[m - 1];
        let h = o.hh[m - 1] * k.m.powi(r as i32);
        c.count("runs given up with a small step");
        c.check(h < 1.0001e-10, || format!("given up because of the step size, which is {:e}", h));
    }
}

pub fn run_all(cx: &mut Ctx) {
    cx.rule("distinct = different systems, controller settings, stopping conditions and injected faults");
    cx.assume("steps truncated by a target of the parameter are not modelled, and runs whose relative change comes within rounding of a threshold are left there");
    let n = cx.n(48_000, 480_000);
    cx.run("control", n, control);
    cx.require("accepted steps measured", 20_000);
    cx.require("accepted steps after rejections measured", 1000);
    cx.require("steps of the three-term controller", 5000);
    cx.require("steps of the digital filter", 5000);
    cx.require("steps corrected by the number of iterations", 5000);
    cx.require("growing steps", 5000);
    cx.require("shrinking steps", 5000);
    cx.require("growth withheld after a rejection", 200);
    cx.require("tiny changes", 500);
}
