use crate::prob::*;
use harness::{Case, Ctx, EPS};
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, OutCount, OutData, Output, Params};
use russell_sparse::Sym;
use std::sync::Arc;

const STEP_FAIL: &str = "the step callback failed on purpose";
const DENSE_FAIL: &str = "the dense callback failed on purpose";

fn callbacks(out: &mut Output<'static, Mon>, step: bool, dense: bool) {
    if step {
        out.set_step_callback(|st, h, x, y, m: &mut Mon| {
            m.steps.push((x, h, y.as_data().clone()));
            m.counts.push((st.n_steps, st.n_accepted, st.n_function, m.nf));
            if m.steps.len() == m.fail_step {
                return Err(STEP_FAIL);
            }
            Ok(m.steps.len() == m.stop_step)
        });
    }
    if dense {
        out.set_dense_callback(|_, h, x, y, m: &mut Mon| {
            m.dense.push((x, h, y.as_data().clone()));
            if m.dense.len() == m.fail_dense {
                return Err(DENSE_FAIL);
            }
            Ok(m.dense.len() == m.stop_dense)
        });
    }
}

pub struct Setup {
    pub prob: Arc<Prob>,
    pub par: Params,
    pub jac: Jac,
    pub x0: f64,
    pub x1: f64,
    pub h: Option<f64>,
    pub tol: f64,
    pub method: Method,
    pub desc: String,
}

pub fn setup(c: &mut Case, methods: &[Method]) -> Setup {
    let m = *c.rng.pick(methods);
    let prob = Arc::new(if c.rng.chance(0.3) { fronts(&mut c.rng) } else { smooth(&mut c.rng) });
    let mut par = Params::new(m);
    let tol = 10f64.powf(c.rng.f(-8.0, -3.0));
    let tol = if order(m) <= 2 { tol.max(1e-5) } else { tol };
    par.set_tolerances(tol, tol, None).unwrap();
    par.step.h_ini = *c.rng.pick(&[1e-5, 1e-4, 1e-2]);
    let mut jac = Jac::None;
    if m == Method::Radau5 || m == Method::BwEuler {
        jac = if c.rng.bool() { Jac::Dense(Sym::No) } else { Jac::Sparse(Sym::No) };
        par.newton.use_numerical_jacobian = c.rng.chance(0.2);
        par.radau5.concurrent = c.rng.chance(0.03);
        par.newton.n_iteration_max = 12;
    }
    if m == Method::BwEuler {
        par.set_tolerances(1e-6, 1e-6, Some(1e-2)).unwrap();
    }
    let x0 = prob.x0;
    let x1 = x0 + if c.rng.bool() { c.rng.int(1, 3) as f64 } else { c.rng.f(0.3, 3.0) };
    let h = if !EMBEDDED.contains(&m) || c.rng.chance(0.3) {
        let n = c.rng.int(100, 300);
        Some((x1 - x0) / (n as f64))
    } else {
        None
    };
    let desc = format!("{:?} {} x1={} h={:?} tol={:e} {:?}", m, prob.name, x1, h, tol, jac);
    Setup { prob, par, jac, x0, x1, h, tol, method: m, desc }
}

/// the trajectory without any dense output or files
fn plain(c: &mut Case, s: &Setup) -> Option<(Vector, Mon, usize)> {
    let mut mon = Mon::new();
    let mut out = Output::new();
    callbacks(&mut out, true, false);
    let mut solver = c.ok("solver", OdeSolver::new(s.par, system(&s.prob, s.jac)))?;
    let mut y = s.prob.y0();
    let res = solver.solve(&mut y, s.x0, s.x1, s.h, &mut mon, Some(&mut out));
    if res.is_err() && s.h.is_some() {
        // equal steps may be too large for a nonlinear problem
        c.count("runs with equal steps that blew up");
        return None;
    }
    c.ok("solve (step callback only)", res)?;
    // and without any output at all
    let mut mon2 = Mon::new();
    let mut solver = c.ok("solver", OdeSolver::new(s.par, system(&s.prob, s.jac)))?;
    let mut y2 = s.prob.y0();
    c.ok("solve (no output)", solver.solve(&mut y2, s.x0, s.x1, s.h, &mut mon2, None))?;
    c.check(y.as_data() == y2.as_data() && mon.nf == mon2.nf, || format!("output changed the solution from {:?} to {:?}", y2.as_data(), y.as_data()));
    let n = mon2.nf;
    Some((y, mon, n))
}

fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 4.0 * EPS * a.abs().max(b.abs())
}

fn same_list(c: &mut Case, what: &'static str, got: &[f64], want: &[f64]) {
    let ok = got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| a == b);
    c.check(ok, || {
        let k = (0..got.len().min(want.len())).find(|i| got[*i] != want[*i]);
        format!("{}: {} values, {} expected; first difference at {:?}", what, got.len(), want.len(), k)
    });
}

fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::MIN_POSITIVE;
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

/// stations inside (x0, x1)
fn stations(c: &mut Case, s: &Setup, steps: &[(f64, f64, Vec<f64>)]) -> Vec<f64> {
    let len = s.x1 - s.x0;
    let n = match c.rng.int(0, 3) {
        0 => 1,
        1 => c.rng.int(2, 8),
        _ => c.rng.int(5, 60),
    };
    let mut st = Vec::new();
    for _ in 0..n {
        let x = match c.rng.int(0, 7) {
            // exactly at a step, right after it, right before it
            0 | 1 => {
                let k = c.rng.int(0, steps.len() - 1);
                steps[k].0
            }
            2 => {
                let k = c.rng.int(0, steps.len() - 1);
                next_up(steps[k].0)
            }
            3 => {
                let k = c.rng.int(0, steps.len() - 1);
                -next_up(-steps[k].0)
            }
            4 => s.x0 + len * 10f64.powf(c.rng.f(-9.0, -1.0)),
            5 => s.x1 - len * 10f64.powf(c.rng.f(-9.0, -1.0)),
            _ => s.x0 + len * c.rng.f(0.001, 0.999),
        };
        st.push(x);
    }
    st.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mag = s.x0.abs().max(s.x1.abs());
    let near = 300.0 * EPS * mag;
    let mut res: Vec<f64> = Vec::new();
    for x in st {
        if x > s.x0 && x < s.x1 - near && res.last().map(|l| x - l > 11.0 * EPS).unwrap_or(true) {
            res.push(x);
        }
    }
    res
}

fn full(c: &mut Case) {
    let dense = c.rng.chance(0.8);
    let s = setup(c, if dense { &DENSE } else { &ALL });
    let files = c.rng.chance(0.15);
    let use_cb = c.rng.chance(0.8);
    c.input(format!("{} dense={} files={}", s.desc, dense, files));
    let (y_ref, mon_ref, nf_ref) = match plain(c, &s) {
        Some(r) => r,
        None => return,
    };
    let n = s.prob.ndim;
    // which outputs
    let step_rec = c.rng.chance(0.8);
    let dense_rec = dense && c.rng.chance(0.8);
    let dense_cb = dense && (use_cb || !dense_rec);
    let mut comps: Vec<usize> = (0..n).filter(|_| c.rng.chance(0.7)).collect();
    if comps.len() == 0 {
        comps.push(n - 1);
    }
    let reuse = c.rng.chance(0.3);
    let mut out = Output::new();
    callbacks(&mut out, use_cb, dense_cb);
    if step_rec {
        out.set_step_recording(&comps);
        let q = s.prob.clone();
        out.set_yx_correct(move |y, x, _| {
            let e = (q.exact)(x);
            for i in 0..e.len() {
                y[i] = e[i];
            }
        });
    }
    let mut want: Vec<f64> = Vec::new();
    let mut fixed_stations = false;
    if dense {
        match c.rng.int(0, 4) {
            0 => {
                // uniform spacing: dividing or not
                let k = c.rng.int(1, 40) as f64;
                let h_out = match c.rng.int(0, 2) {
                    0 => (s.x1 - s.x0) / k,
                    1 => (s.x1 - s.x0) / (k + c.rng.f(0.05, 0.95)),
                    _ => *c.rng.pick(&[0.1, 0.01, 0.3, 0.25, 7.0]),
                };
                out.set_dense_h_out(h_out).unwrap();
                c.more(format!("h_out={}", h_out));
                want.push(s.x0);
                let mut i = 1.0;
                while s.x0 + i * h_out < s.x1 - 2e-12 * (1.0 + s.x1.abs()) {
                    want.push(s.x0 + i * h_out);
                    i += 1.0;
                }
                want.push(s.x1);
            }
            1 => {
                // no spacing is given
                want = vec![s.x0, s.x1];
            }
            _ => {
                fixed_stations = true;
                let st = stations(c, &s, &mon_ref.steps);
                c.more(format!("stations={:?}", st));
                if c.rng.chance(0.2) {
                    out.set_dense_h_out(0.1).unwrap();
                }
                if c.ok("set_dense_x_out", out.set_dense_x_out(&st)).is_none() {
                    return;
                }
                want.push(s.x0);
                want.extend(st);
                want.push(s.x1);
            }
        }
        if dense_rec {
            out.set_dense_recording(&comps);
        }
    }
    let dir = if files { Some(c.scratch(&format!("out{}", c.index))) } else { None };
    if let Some(d) = dir.as_ref() {
        out.set_step_file_writing(d.join("step").to_str().unwrap());
        if dense {
            out.set_dense_file_writing(d.join("dense").to_str().unwrap()).unwrap();
        }
    }
    let mut solver = match c.ok("solver", OdeSolver::new(s.par, system(&s.prob, s.jac))) {
        Some(s) => s,
        None => return,
    };
    if reuse {
        // the same output object records another run first, possibly over another interval
        let len = s.x1 - s.x0;
        let (mut a, mut b) = (s.x0, s.x1);
        if !fixed_stations && s.prob.mass.is_none() {
            match c.rng.int(0, 3) {
                0 => {
                    a += 0.37 * len;
                    b += 0.37 * len;
                }
                1 => a += len * c.rng.f(0.05, 0.6),
                2 => b -= len * c.rng.f(0.05, 0.6),
                _ => {}
            }
        }
        if (a, b) != (s.x0, s.x1) {
            c.count("outputs used over another interval before");
        }
        c.more(format!("first run over [{}, {}]", a, b));
        let mut y = Vector::from(&(s.prob.exact)(a));
        let res = solver.solve(&mut y, a, b, s.h, &mut Mon::new(), Some(&mut out));
        if c.ok("first solve", res).is_none() {
            return;
        }
        // the files of a longer first run stay around
        if let Some(d) = dir.as_ref() {
            for f in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let _ = std::fs::remove_file(f.path());
            }
        }
    }
    let mut mon = Mon::new();
    let mut y = s.prob.y0();
    let res = solver.solve(&mut y, s.x0, s.x1, s.h, &mut mon, Some(&mut out));
    if c.ok("solve", res).is_none() {
        return;
    }
    // output does not change the solution
    c.check(y.as_data() == y_ref.as_data(), || format!("the solution changed from {:?} to {:?}", y_ref.as_data(), y.as_data()));
    let extra = mon.nf as i64 - nf_ref as i64;
    if s.method == Method::DoPri8 && dense {
        let acc = solver.stats().n_accepted as i64;
        c.check(extra >= 0 && extra <= 4 * acc, || format!("{} additional evaluations for dense output", extra));
    } else {
        c.check(extra == 0, || format!("{} additional evaluations", extra));
    }
    // steps
    let steps = &mon_ref.steps;
    if use_cb {
        let ok = mon.steps.len() == steps.len() && mon.steps.iter().zip(steps.iter()).all(|(a, b)| a == b);
        c.check(ok, || "the step callback saw another trajectory than without dense output".to_string());
    }
    let xs: Vec<f64> = steps.iter().map(|t| t.0).collect();
    let hs: Vec<f64> = steps.iter().map(|t| t.1).collect();
    if step_rec {
        same_list(c, "recorded x", out.step_x(), &xs);
        same_list(c, "recorded h", out.step_h(), &hs);
        for m in comps.iter() {
            let ys: Vec<f64> = steps.iter().map(|t| t.2[*m]).collect();
            same_list(c, "recorded y", out.step_y(*m), &ys);
        }
        for m in 0..n {
            if !comps.contains(&m) {
                c.check(out.step_y(m).len() == 0, || format!("component {} was not requested", m));
            }
        }
        let errs: Vec<f64> = steps
            .iter()
            .map(|t| {
                let e = (s.prob.exact)(t.0);
                (0..n).fold(0.0, |a, i| f64::max(a, (e[i] - t.2[i]).abs()))
            })
            .collect();
        let g = out.step_global_error();
        c.check(g.len() == errs.len(), || format!("{} error records, {} steps", g.len(), errs.len()));
        for k in 0..errs.len().min(g.len()) {
            c.check((g[k] - errs[k]).abs() <= 1e-15 * (1.0 + errs[k]), || format!("error record {}: {:e} instead of {:e}", k, g[k], errs[k]));
        }
        c.count("trajectories recorded");
    } else {
        c.check(out.step_x().len() == 0, || "steps recorded without a request".to_string());
    }
    // dense output
    if dense {
        let mag = s.x0.abs().max(s.x1.abs());
        if dense_rec {
            let got = out.dense_x();
            let ok = got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| (a - b).abs() <= 64.0 * EPS * mag);
            if !c.check(ok, || format!("stations {:?}, requested {:?}", got, want)) {
                return;
            }
        }
        if dense_cb {
            let got: Vec<f64> = mon.dense.iter().map(|t| t.0).collect();
            let ok = got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| (a - b).abs() <= 64.0 * EPS * mag + 64.0 * EPS * 300.0 * (b == want.last().unwrap()) as u8 as f64 * mag);
            if !c.check(ok, || format!("the dense callback saw the stations {:?}, requested {:?}", got, want)) {
                return;
            }
        }
        // values: callback and record agree
        let mut vals: Vec<Vec<f64>> = Vec::new();
        let list: Vec<usize> = if dense_cb { (0..n).collect() } else { comps.clone() };
        for k in 0..want.len() {
            let v = if dense_cb { mon.dense[k].2.clone() } else { comps.iter().map(|m| out.dense_y(*m)[k]).collect() };
            vals.push(v);
        }
        if dense_cb && dense_rec {
            for m in comps.iter() {
                let ys: Vec<f64> = mon.dense.iter().map(|t| t.2[*m]).collect();
                same_list(c, "dense record and callback", out.dense_y(*m), &ys);
            }
        }
        // worst error at the steps
        let step_err = steps.iter().fold(0.0, |a, t| {
            let e = (s.prob.exact)(t.0);
            (0..n).fold(a, |b, i| f64::max(b, (e[i] - t.2[i]).abs()))
        });
        let mut j = 0;
        let (mut poly, mut poly_j) = (0.0, usize::MAX);
        for k in 0..want.len() {
            let x = want[k];
            // the step that contains the station
            while j + 1 < steps.len() && steps[j].0 < x {
                j += 1;
            }
            let e = (s.prob.exact)(x);
            if poly_j != j {
                poly = best_poly(&s, steps, j);
                poly_j = j;
            }
            for (q, i) in list.iter().enumerate() {
                let v = vals[k][q];
                let err = (v - e[*i]).abs();
                let rest = (err - 10.0 * step_err - 1e-12).max(0.0);
                let (name, factor) = match s.method {
                    Method::DoPri5 => ("dense error over polynomial error DoPri5", 300.0),
                    Method::DoPri8 => ("dense error over polynomial error DoPri8", 20000.0),
                    _ => ("dense error over polynomial error Radau5", 50.0),
                };
                c.max(name, rest / (poly + 1e-14));
                let coarse = if s.h.is_none() && s.tol > 1e-5 { 100.0 * s.tol } else { 0.0 };
                let lim = 10.0 * step_err + 1e-12 + factor * (poly + 1e-14) + coarse;
                c.check(err <= lim, || format!("dense value {} at {} (component {}) is off by {:e}; largest error at steps {:e}, allowed {:e}", v, x, i, err, step_err, lim));
                // first, last, and at step points
                if k == 0 {
                    c.check(v == steps[0].2[*i], || "the first dense value is not the initial value".to_string());
                }
                if k + 1 == want.len() {
                    c.check(v == y[*i], || "the last dense value is not the final one".to_string());
                }
                if steps[j].0 == x {
                    let w = steps[j].2[*i];
                    let mut f = vec![0.0; n];
                    (s.prob.f)(&mut f, x, &steps[j].2);
                    let slope = f.iter().fold(0.0, |a, b| f64::max(a, b.abs()));
                    c.check((v - w).abs() <= 1e-13 * (1.0 + w.abs()) + 10.0 * EPS * mag * (1.0 + slope), || format!("dense value {} at the step point {}, step value {}", v, x, w));
                    c.count("stations at step points");
                }
            }
            c.count("stations checked");
        }
        // announced step sizes are those of the steps
        if dense_cb {
            for (_, h, _) in mon.dense.iter() {
                c.check(hs.contains(h), || format!("the dense callback saw the step size {}", h));
            }
        }
    }
    // files
    if let Some(d) = dir.as_ref() {
        let key = d.join("step");
        let key = key.to_str().unwrap();
        if let Some(n) = c.ok("count file", OutCount::read_json(&format!("{}_count.json", key))) {
            c.check(n.n == steps.len(), || format!("the count file says {} steps, {} were announced", n.n, steps.len()));
        }
        for k in 0..steps.len() {
            if let Some(o) = c.ok("step file", OutData::read_json(&format!("{}_{}.json", key, k))) {
                let t = &steps[k];
                let ok = same(o.x, t.0) && same(o.h, t.1) && o.y.dim() == n && (0..n).all(|i| same(o.y[i], t.2[i]));
                c.check(ok, || format!("file {} holds x={} h={} y={:?}, the step was {:?}", k, o.x, o.h, o.y.as_data(), t));
            }
        }
        c.check(!d.join(format!("step_{}.json", steps.len())).exists(), || "more step files than steps".to_string());
        if dense {
            let key = d.join("dense");
            let key = key.to_str().unwrap();
            if let Some(n) = c.ok("count file", OutCount::read_json(&format!("{}_count.json", key))) {
                c.check(n.n == want.len(), || format!("the count file says {} stations, {} were requested", n.n, want.len()));
            }
            for k in 0..want.len() {
                if let Some(o) = c.ok("dense file", OutData::read_json(&format!("{}_{}.json", key, k))) {
                    let mut ok = (o.x - want[k]).abs() <= 300.0 * EPS * (1.0 + want[k].abs()) && o.y.dim() == n;
                    if dense_cb {
                        ok = ok && (0..n).all(|i| same(o.y[i], mon.dense[k].2[i]));
                    } else {
                        ok = ok && comps.iter().all(|i| same(o.y[*i], out.dense_y(*i)[k]));
                    }
                    c.check(ok, || format!("dense file {} holds x={} y={:?}", k, o.x, o.y.as_data()));
                }
            }
            c.check(!d.join(format!("dense_{}.json", want.len())).exists(), || "more dense files than stations".to_string());
        }
        let _ = std::fs::remove_dir_all(d);
        c.count("output files compared");
    }
}

/// error of the best polynomial of the degree of the interpolation in the step ending at steps[j]
fn best_poly(s: &Setup, steps: &[(f64, f64, Vec<f64>)], j: usize) -> f64 {
    let q = match s.method {
        Method::DoPri5 => 4,
        Method::DoPri8 => 5,
        _ => 3,
    };
    let (b, h) = (steps[j].0, steps[j].1);
    let node = |k: usize| b - 0.5 * h + 0.5 * h * ((2 * k + 1) as f64 * std::f64::consts::PI / (2.0 * (q + 1) as f64)).cos();
    let xs: Vec<f64> = (0..=q).map(node).collect();
    let ys: Vec<Vec<f64>> = xs.iter().map(|x| (s.prob.exact)(*x)).collect();
    let mut worst = 0.0;
    for i in 0..9 {
        let x = b - h * (i as f64) / 8.0;
        let e = (s.prob.exact)(x);
        for m in 0..s.prob.ndim {
            let mut p = 0.0;
            for k in 0..=q {
                let mut l = 1.0;
                for r in 0..=q {
                    if r != k {
                        l *= (x - xs[r]) / (xs[k] - xs[r]);
                    }
                }
                p += l * ys[k][m];
            }
            worst = f64::max(worst, (p - e[m]).abs());
        }
    }
    worst
}

/// requests to stop and failing callbacks
fn stop(c: &mut Case) {
    let dense = c.rng.bool();
    let s = setup(c, if dense { &DENSE } else { &ALL });
    c.input(format!("{} dense={}", s.desc, dense));
    let (_, mon_ref, _) = match plain(c, &s) {
        Some(r) => r,
        None => return,
    };
    let steps = &mon_ref.steps;
    let mut out = Output::new();
    callbacks(&mut out, true, dense);
    let mut want = vec![s.x0];
    if dense {
        let st = stations(c, &s, steps);
        out.set_dense_x_out(&st).unwrap();
        want.extend(st);
        want.push(s.x1);
    }
    let mut mon = Mon::new();
    let fail = c.rng.chance(0.4);
    let at = if dense { c.rng.int(1, want.len()) } else { c.rng.int(1, steps.len()) };
    if dense {
        if fail { mon.fail_dense = at } else { mon.stop_dense = at }
    } else {
        if fail { mon.fail_step = at } else { mon.stop_step = at }
    }
    c.more(format!("{} at call {}", if fail { "fails" } else { "asks to stop" }, at));
    out.set_step_recording(&[0]);
    let mut solver = match c.ok("solver", OdeSolver::new(s.par, system(&s.prob, s.jac))) {
        Some(s) => s,
        None => return,
    };
    let mut y = s.prob.y0();
    let res = solver.solve(&mut y, s.x0, s.x1, s.h, &mut mon, Some(&mut out));
    if fail {
        let msg = if dense { DENSE_FAIL } else { STEP_FAIL };
        c.check(res.err() == Some(msg), || format!("the run ended with {:?} although a callback failed", res));
    } else if c.ok("stopped run", res).is_none() {
        return;
    }
    // nothing happens after the request
    let n = mon.steps.len();
    if dense {
        c.check(mon.dense.len() == at, || format!("{} dense calls after a request in call {}", mon.dense.len(), at));
        let x = want[at - 1];
        c.check(steps[n - 1].0 >= x - 1e-12 * (1.0 + x.abs()), || format!("the station {} was delivered before the step reached it", x));
        if n > 1 && at < want.len() {
            c.check(steps[n - 2].0 < x, || format!("the run went on after the station {}", x));
        }
    } else {
        c.check(n == at, || format!("{} step calls after a request in call {}", n, at));
    }
    if !c.check(n <= steps.len() && (0..n).all(|k| mon.steps[k] == steps[k]), || "the steps before the request differ".to_string()) {
        return;
    }
    c.check(y.as_data() == &steps[n - 1].2, || format!("the result {:?} is not the last announced one {:?}", y.as_data(), steps[n - 1].2));
    let st = solver.stats();
    c.check(st.n_accepted + 1 == n, || format!("{} accepted steps counted, {} announced", st.n_accepted, n - 1));
    c.count(if fail { "failing callbacks" } else { "requests to stop" });
}

/// order of the interpolation with fixed steps
fn interpolation(c: &mut Case) {
    let m = *c.rng.pick(&DENSE);
    // the degree reproduced by the interpolation within a step
    let p = match m {
        Method::DoPri5 => 4,
        Method::DoPri8 => 5,
        _ => 3,
    };
    let nv = if c.rng.chance(0.7) { p } else { c.rng.int(1, p) };
    let all = trees(nv);
    let k = c.rng.int(0, all.len() - 1);
    let y0: Vec<f64> = (0..nv).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let x0 = *c.rng.pick(&[0.0, 0.0, 1.0, -2.0]);
    let len = c.rng.f(0.5, 1.5);
    let n = *c.rng.pick(&[1, 1, 2, 3, 5]);
    let prob = Arc::new(tree_prob(&all[k], false, x0, &y0));
    let mut par = Params::new(m);
    let jac = if m == Method::Radau5 { Jac::Dense(Sym::No) } else { Jac::None };
    if m == Method::Radau5 {
        par.set_tolerances(1e-9, 1e-9, Some(1e-6)).unwrap();
        par.newton.n_iteration_max = 20;
    }
    c.input(format!("{:?} {} len={} n={}", m, prob.name, len, n));
    let x1 = x0 + len;
    let mut st: Vec<f64> = (0..9).map(|_| x0 + len * c.rng.f(0.01, 0.99)).collect();
    st.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut out = Output::new();
    callbacks(&mut out, false, true);
    out.set_dense_x_out(&st).unwrap();
    let mut mon = Mon::new();
    let mut solver = match c.ok("solver", OdeSolver::new(par, system(&prob, jac))) {
        Some(s) => s,
        None => return,
    };
    let mut y = prob.y0();
    let res = solver.solve(&mut y, x0, x1, Some(len / (n as f64)), &mut mon, Some(&mut out));
    if res.is_err() && m == Method::Radau5 {
        c.count("iterations reported as diverging with large equal steps");
        return;
    }
    if c.ok("solve", res).is_none() {
        return;
    }
    let tol = if m == Method::Radau5 { 4e-8 } else { 1e-12 };
    for (x, _, v) in mon.dense.iter() {
        let e = prob.err(*x, &Vector::from(v));
        c.max("largest dense error on polynomial problems", e);
        c.check(e <= tol, || format!("dense output at {} is off by {:e} on a polynomial problem of degree {}", x, e, nv));
    }
    c.count("interpolated polynomial problems");
}

/// the interpolation of DoPri8 is meant to be of order seven
fn order_of_dopri8(c: &mut Case) {
    let mut worst = 0.0;
    for tree in trees(6).iter() {
        let prob = Arc::new(tree_prob(tree, false, 0.0, &[0.5; 6]));
        let mut out = Output::new();
        callbacks(&mut out, false, true);
        out.set_dense_x_out(&[0.3, 0.5, 0.7]).unwrap();
        let mut mon = Mon::new();
        let mut solver = OdeSolver::new(Params::new(Method::DoPri8), system(&prob, Jac::None)).unwrap();
        let mut y = prob.y0();
        solver.solve(&mut y, 0.0, 1.0, Some(1.0), &mut mon, Some(&mut out)).unwrap();
        for (x, _, v) in mon.dense.iter() {
            worst = f64::max(worst, prob.err(*x, &Vector::from(v)));
        }
    }
    c.probe("dopri8-dense-degree", worst < 1e-12, || {
        format!("dense output of DoPri8 is off by {:e} within one step on polynomial problems of degree 6", worst)
    });
}

pub fn run(cx: &mut Ctx) {
    cx.once("order_of_dopri8", order_of_dopri8);
    cx.rule("random methods and problems solved with every kind of output at once; stations at, next to and between the steps");
    let n = cx.n(6000, 50000);
    cx.run("full", n, full);
    let n = cx.n(4000, 30000);
    cx.run("stop", n, stop);
    let n = cx.n(4000, 30000);
    cx.run("interpolation", n, interpolation);
    cx.require("stations checked", 5000);
    cx.require("stations at step points", 500);
    cx.require("trajectories recorded", 500);
    cx.require("output files compared", 100);
    cx.require("requests to stop", 500);
    cx.require("outputs used over another interval before", 50);
    cx.require("failing callbacks", 300);
    cx.require("interpolated polynomial problems", 1000);
}
