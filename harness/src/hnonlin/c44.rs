//! Diagnostics of parameter continuation: residual histories, convergence rates, histograms, predictors, summaries, log files, settings
use crate::problem::*;
use harness::{Case, Ctx};
use russell_nonlin::{Config, DeltaLambda, IniDir, Method, RdiffType, Status, Stop};
use russell_sparse::Genie;

fn make(c: &mut Case) -> (Prob, Setup, Args) {
    let method = if c.rng.bool() { Method::Natural } else { Method::Arclength };
    let arc = method == Method::Arclength;
    let fold = arc && c.rng.chance(0.6);
    let (kind, sym) = pick_kind(c, fold);
    let n = *c.rng.pick(&[1usize, 1, 2, 3, 5]);
    let p = Prob::new(&mut c.rng, kind, sym, n);
    let dir = if c.rng.bool() { IniDir::Pos } else { IniDir::Neg };
    let dd = c.rng.f(0.01, 0.12);
    let ddl = match c.rng.int(0, 3) {
        0 | 1 => DeltaLambda::auto(dd),
        2 => DeltaLambda::constant(dd),
        _ => {
            let m = c.rng.int(1, 15);
            let list: Vec<f64> = (0..m).map(|_| dd * c.rng.f(0.3, 1.0)).collect();
            DeltaLambda::list(&list)
        }
    };
    let mut s = Setup::new(method, c.rng.bool(), dir, Stop::Steps(c.rng.int(1, 15)), ddl);
    s.euler = c.rng.bool();
    s.secondary = c.rng.chance(0.7);
    s.residuals = c.rng.chance(0.85);
    s.no_delta = c.rng.chance(0.3);
    s.config.set_n_step_max(c.rng.int(1, 40)).set_debug_predictor(c.rng.bool()).set_hide_timings(c.rng.bool());
    if c.rng.chance(0.2) {
        s.config.set_n_iteration_max(c.rng.int(2, 5));
    }
    if c.rng.chance(0.3) {
        s.config.set_m_failure(c.rng.f(0.1, 0.9));
    }
    if c.rng.chance(0.3) {
        s.config.set_n_cont_failure_max(c.rng.int(1, 8));
    }
    let fault = if c.rng.chance(0.5) {
        let f = *c.rng.pick(&[Fault::UpErr, Fault::JacScaled(1e-3), Fault::JacScaled(-0.2), Fault::JacScaled(0.5), Fault::UpTerminate]);
        if !s.secondary && matches!(f, Fault::UpErr | Fault::UpTerminate) { Fault::JacScaled(0.3) } else { f }
    } else {
        Fault::None
    };
    let times = *c.rng.pick(&[1usize, 1, 2, 3, 8, 30]);
    (p, s, Args::new(fault, c.rng.int(0, 60), times))
}

/// Points where the residual was computed, for each accepted step; None if the numbers of iterations are not known
fn visited(o: &Outcome) -> Option<Vec<Vec<(Vec<f64>, f64)>>> {
    let lists = o.stats.iterations_residuals.as_ref()?;
    let mut all: Vec<(Vec<f64>, f64)> = vec![];
    let mut res = vec![];
    let mut started = false;
    for e in &o.a.ev {
        match e {
            Ev::Gg { u, l } => all.push((u.clone(), *l)),
            Ev::Out { .. } if !started => started = true,
            Ev::Out { .. } => {
                let m = lists.get(res.len())?.len();
                if all.len() < m {
                    return None;
                }
                res.push(all.split_off(all.len() - m));
                all.clear();
            }
            _ => (),
        }
    }
    Some(res)
}

/// Sizes of the attempts following each accepted point: (parameter, step size, accepted)
fn attempts(s: &Setup, o: &Outcome) -> Vec<(f64, f64, bool)> {
    let outs: Vec<(f64, f64, usize)> = o.a.ev.iter().filter_map(|e| if let Ev::Out { l, h, rej, .. } = e { Some((*l, *h, *rej)) } else { None }).collect();
    let mut list = vec![];
    for i in 0..outs.len() {
        let (l, h, rej) = outs[i];
        let last = i + 1 == outs.len();
        let r = if last { o.stats.n_steps - list.len() } else { outs[i + 1].2 - rej };
        let mut x = h;
        for j in 0..r + !last as usize {
            list.push((l, x, !last && j == r));
            x *= s.config.get_m_failure();
        }
    }
    list
}

fn residuals(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome) -> bool {
    let lists = match o.stats.iterations_residuals.as_ref() {
        Some(l) => l,
        None => return c.check(!s.residuals || o.stats.n_steps == 0, || "no residuals recorded".into()),
    };
    let vis = match visited(o) {
        Some(v) => v,
        None => {
            c.fail(format!("{} lists of residuals do not fit the calls made", lists.len()));
            return false;
        }
    };
    if !c.check(lists.len() == vis.len(), || format!("{} lists of residuals, {} accepted steps", lists.len(), vis.len())) {
        return false;
    }
    let pts = points(o);
    let used: Vec<f64> = attempts(s, o).iter().filter(|a| a.2).map(|a| a.1).collect();
    for i in 0..vis.len() {
        for (k, (u, l)) in vis[i].iter().enumerate() {
            let mut w = p.gg(u, *l).iter().fold(0.0f64, |a, x| a.max(x.abs()));
            let size = u.iter().fold(l.abs(), |a, x| a.max(x.abs()));
            let mut tol = 1e-13 * (w + size);
            if s.method == Method::Arclength {
                let (u0, l0, _) = &pts[i];
                let nn = (0..p.n).map(|j| (u[j] - u0[j]) * o.duds[j][i]).sum::<f64>() + (l - l0) * o.dlds[i] - used[i];
                w = w.max(nn.abs());
                tol += 1e-12 * used[i];
            }
            c.count("residuals compared");
            if !c.close("recorded residual", lists[i][k], w, tol) {
                return false;
            }
        }
        // a step ends at the first iteration meeting the tolerance
        let m = lists[i].len();
        for k in 0..m.saturating_sub(1) {
            if !c.check(lists[i][k] >= s.tol_res, || format!("iteration {} of step {} continued although the residual {:e} met the tolerance", k, i, lists[i][k])) {
                return false;
            }
        }
        if s.no_delta && !c.check(lists[i][m - 1] < s.tol_res, || format!("step {} ended with the residual {:e}", i, lists[i][m - 1])) {
            return false;
        }
    }
    true
}

fn rates_of(o: &Outcome, lo: f64, hi: f64) -> Vec<f64> {
    let mut v = vec![];
    for e in o.stats.iterations_residuals.as_ref().unwrap_or(&vec![]) {
        if e.len() >= 3 {
            let w = &e[e.len() - 3..];
            let r = (w[2] / w[1]).ln() / (w[1] / w[0]).ln();
            if r.is_finite() && r >= lo && r <= hi {
                v.push(r);
            }
        }
    }
    v
}

fn rates(c: &mut Case, o: &Outcome) -> bool {
    let lo = c.rng.f(-1.0, 1.6);
    let hi = lo + c.rng.f(0.2, 3.0);
    let (got, want) = (o.stats.get_convergence_rates(lo, hi), rates_of(o, lo, hi));
    if !c.check(got.len() == want.len(), || format!("{} rates between {} and {}: {:?} instead of {:?}", got.len(), lo, hi, got, want)) {
        return false;
    }
    c.count_n("rates compared", want.len());
    c.count_n("rates out of the limits", o.stats.iterations_residuals.as_ref().map(|l| l.iter().filter(|e| e.len() >= 3).count()).unwrap_or(0) - want.len());
    got.iter().zip(&want).all(|(g, w)| c.close("convergence rate", *g, *w, 1e-9 * (1.0 + w.abs())))
}

fn bars(text: &str, ch: char) -> Vec<usize> {
    text.lines().map(|l| l.chars().filter(|x| *x == ch).count()).collect()
}

fn histogram(c: &mut Case, s: &Setup, o: &Outcome) -> bool {
    let upper = c.rng.int(2, 16);
    let ch = *c.rng.pick(&['#', '*', '■', '@']);
    let len = c.rng.int(5, 60);
    let h = o.stats.get_histogram_of_iterations(upper, ch, len);
    let lists = match o.stats.iterations_residuals.as_ref() {
        Some(l) if s.residuals => l,
        _ => return c.check(h.get_counts() == &[0], || format!("histogram of nothing: {:?}", h.get_counts())),
    };
    let mut want = vec![0usize; upper - 1];
    for l in lists {
        let k = if l.len() >= 2 { l.len() - 1 } else { l.len() };
        if k < upper - 1 {
            want[k] += 1;
        } else {
            c.count("iterations beyond the histogram");
        }
    }
    c.count("histograms compared");
    if !c.check(h.get_counts() == &want, || format!("histogram {:?} instead of {:?}", h.get_counts(), want)) {
        return false;
    }
    let text = format!("{}", h);
    let longest = bars(&text, ch).into_iter().max().unwrap_or(0);
    let total: usize = want.iter().sum();
    // the length may lose one character to rounding
    let ok = if total > 0 { longest <= len && longest + 1 >= len } else { longest == 0 };
    c.check(ok, || format!("the longest bar has {} characters instead of {}:\n{}", longest, len, text))
}

fn value<'t>(text: &'t str, key: &str) -> Option<&'t str> {
    text.lines().find_map(|l| {
        let (k, v) = l.split_once('=')?;
        if k.trim() == key { Some(v.trim()) } else { None }
    })
}

fn summary(c: &mut Case, s: &Setup, o: &Outcome) -> bool {
    let st = &o.stats;
    let t = st.summary();
    let pairs = [
        ("Number of function evaluations", st.n_function),
        ("Number of Jacobian evaluations", st.n_jacobian),
        ("Number of factorizations", st.n_factor),
        ("Number of lin sys solutions", st.n_lin_sol),
        ("Number of accepted steps", st.n_accepted),
        ("Number of rejected steps", st.n_rejected),
        ("Number of performed steps", st.n_steps),
        ("Number of iterations (total)", st.n_iteration_total),
    ];
    for (k, w) in pairs {
        c.count("lines of summaries compared");
        let g = value(&t, k);
        if !c.check(g == Some(w.to_string().as_str()), || format!("summary: {} = {:?} instead of {}\n{}", k, g, w, t)) {
            return false;
        }
    }
    let h = value(&t, "Last accepted/suggested stepsize").and_then(|v| v.parse::<f64>().ok());
    if !c.check(h == Some(st.h_accepted), || format!("summary: step size {:?} instead of {:?}", h, st.h_accepted)) {
        return false;
    }
    let first = t.lines().next().unwrap_or("").to_lowercase();
    let kind = if s.method == Method::Natural { "natural" } else { "arclength" };
    let mode = if s.ddl.is_auto() { "(auto)" } else { "(fixed)" };
    if !c.check(first.contains(kind) && first.contains(mode), || format!("summary of {} {}: {}", kind, mode, first)) {
        return false;
    }
    // rates and histogram
    let r = rates_of(o, 0.9, 2.1);
    let numbers: Vec<f64> = t
        .lines()
        .filter(|l| l.contains("(min, max)") || l.contains("(μ, σ)"))
        .flat_map(|l| l.rsplit_once('(').unwrap().1.trim_end_matches(')').split(',').map(|x| x.trim().parse::<f64>().unwrap_or(f64::NAN)).collect::<Vec<_>>())
        .collect();
    if !c.check(numbers.len() == if r.is_empty() { 0 } else { 4 }, || format!("{} rates but the summary has {:?}", r.len(), numbers)) {
        return false;
    }
    if !r.is_empty() {
        let n = r.len() as f64;
        let mean = r.iter().sum::<f64>() / n;
        let dev = if r.len() > 1 { (r.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n - 1.0)).sqrt() } else { 0.0 };
        let want = [r.iter().cloned().fold(f64::MAX, f64::min), r.iter().cloned().fold(f64::MIN, f64::max), mean, dev];
        c.count("statistics of rates compared");
        for (g, w) in numbers.iter().zip(&want) {
            if !c.close("statistics of rates", *g, *w, 0.00051) {
                return false;
            }
        }
    }
    let total: usize = o.stats.iterations_residuals.as_ref().map(|l| l.iter().filter(|e| e.len() <= 12).count()).unwrap_or(0);
    let longest = bars(&t, '■').into_iter().max().unwrap_or(0);
    if !c.check((longest > 0) == (s.residuals && total > 0), || format!("{} steps in the histogram of the summary:\n{}", total, t)) {
        return false;
    }
    // with times
    let d = format!("{}", st);
    let times = ["Max time spent on a step", "Max time spent on the Jacobian", "Max time spent on factorization", "Max time spent on lin solution", "Total time"];
    let found = times.iter().filter(|k| value(&d, k).is_some()).count();
    let want = if s.config.get_hide_timings() { 0 } else { times.len() };
    c.check(d.starts_with(&t) && found == want, || format!("displayed statistics with {} times instead of {}:\n{}", found, want, d))
}

fn predictors(c: &mut Case, p: &Prob, s: &Setup, o: &Outcome) -> bool {
    let (l, u0, u1) = &o.predictors;
    if !s.config.get_debug_predictor() {
        return c.check(l.is_empty() && u0.is_empty() && u1.is_empty(), || "predictors recorded although not requested".into());
    }
    let vis = match visited(o) {
        Some(v) => v,
        None => return true,
    };
    for i in 0..vis.len() {
        let (u, x) = &vis[i][0];
        c.count("predictors compared");
        let ok = i < l.len() && l[i] == *x && u0[i] == u[0] && (p.n == 1 || u1[i] == u[1]);
        if !c.check(ok, || format!("predictor {}: recorded {:?} {:?} {:?}, iterations began at {:?} {:?}", i, l.get(i), u0.get(i), u1.get(i), x, u)) {
            return false;
        }
    }
    true
}

fn go(c: &mut Case, p: &Prob, s: &Setup, a: Args) -> Option<Outcome> {
    c.input(format!("{} fault={:?} at={} times={} residuals={} steps={}", describe(p, s), a.fault, a.at, a.times, s.residuals, s.config.get_n_step_max()));
    let o = match run(p, s, a) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("cannot allocate the solver: {}", e));
            return None;
        }
    };
    c.more(format!("{:?} accepted={} rejected={} steps={}", o.res, o.stats.n_accepted, o.stats.n_rejected, o.stats.n_steps));
    if o.res.is_err() {
        c.count("runs ended with an error");
        return None;
    }
    c.count(if o.res == Ok(Status::Success) { "successful runs" } else { "failed runs" });
    Some(o)
}

fn histories(c: &mut Case) {
    let (p, mut s, a) = make(c);
    s.apply();
    let o = match go(c, &p, &s, a) {
        Some(o) => o,
        None => return,
    };
    let _ = residuals(c, &p, &s, &o) && rates(c, &o) && histogram(c, &s, &o) && summary(c, &s, &o) && predictors(c, &p, &s, &o);
}

fn same(text: &str, x: f64, digits: i32) -> bool {
    match text.trim().parse::<f64>() {
        Ok(v) => (v - x).abs() <= 0.5001 * 10f64.powi(-digits) * 10f64.powf(x.abs().max(1e-300).log10().floor()) + 1e-15,
        Err(_) => false,
    }
}

fn logs(c: &mut Case) {
    let (p, mut s, a) = make(c);
    let dir = c.scratch(&format!("log{}", c.index));
    let path = if c.rng.bool() { dir.join("deeper").join("run.log") } else { dir.join("run.log") };
    let path = path.to_string_lossy().into_owned();
    let (iters, stats, legend, verbose) = (c.rng.bool(), c.rng.bool(), c.rng.bool(), c.rng.bool());
    s.config.set_log_file(&path).set_verbose(verbose, iters, stats).set_verbose_legend(legend).set_verbose_header_footer(true);
    s.config.set_hide_timings(true);
    s.apply();
    let o = match go(c, &p, &s, a) {
        Some(o) => o,
        None => return,
    };
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => {
            c.fail(format!("the log file is missing: {}", e));
            return;
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    c.count("log files read");
    let status = o.res.clone().unwrap();
    // parts present or absent
    let parts = [
        ("legend", text.contains("Legend:"), legend),
        ("statistics", text.contains(&o.stats.summary()), stats),
        ("statistics", text.contains("Number of accepted steps"), stats),
        ("failure", text.contains(" FAILURE "), status.failure()),
        ("status", text.contains(&format!("{:?}", status)), status.failure()),
    ];
    for (what, got, want) in parts {
        if !c.check(got == want, || format!("{}: present={} expected={} ({:?})\n{}", what, got, want, status, text)) {
            return;
        }
    }
    // lines of steps and iterations
    let rule: Vec<usize> = text.lines().enumerate().filter(|(_, l)| !l.is_empty() && l.chars().all(|x| x == '─')).map(|x| x.0).collect();
    if !c.check(rule.len() >= 3, || format!("header or footer missing\n{}", text)) {
        return;
    }
    let body: Vec<&str> = text.lines().skip(rule[1] + 1).take(rule[2] - rule[1] - 1).collect();
    let att = attempts(&s, &o);
    let lists = o.stats.iterations_residuals.clone().unwrap_or_default();
    let mut k = 0usize; // attempts seen
    let mut acc = 0usize;
    let mut it: Vec<Vec<String>> = vec![];
    let mut notes = 0usize;
    let mut finished = false;
    let mut close_step = |c: &mut Case, k: usize, it: &mut Vec<Vec<String>>| -> bool {
        if k == 0 || !iters {
            it.clear();
            return true;
        }
        let accepted = att[k - 1].2;
        let n = it.len();
        if accepted {
            if let Some(l) = lists.get(acc) {
                if !c.check(n == l.len(), || format!("{} iterations in the log of step {}, {} made\n{}", n, acc, l.len(), text)) {
                    return false;
                }
                for (i, w) in it.iter().enumerate() {
                    c.count("iterations in logs compared");
                    if !c.check(same(&w[3], l[i], 2), || format!("iteration {} of step {}: residual {} in the log, {:e} recorded\n{}", i, acc, w[3], l[i], text)) {
                        return false;
                    }
                }
            }
            acc += 1;
        }
        for (i, w) in it.iter().enumerate() {
            let done = w.iter().any(|x| x == "✅");
            let want = accepted && i + 1 == n;
            if !c.check(w[2] == i.to_string() && done == want, || format!("iteration {} of attempt {} ({}): {:?}\n{}", i, k - 1, if accepted { "accepted" } else { "not accepted" }, w, text)) {
                return false;
            }
        }
        it.clear();
        true
    };
    for line in &body {
        let w: Vec<String> = line.split_whitespace().map(|x| x.to_string()).collect();
        if line.contains("rejected: did not converge") {
            notes += 1;
        } else if w.len() > 3 && w[0] == "·" {
            it.push(w);
        } else if w.len() == 2 || w.len() == 1 {
            if !c.check(!finished, || format!("lines after the last one\n{}", text)) || !close_step(c, k, &mut it) {
                return;
            }
            if w.len() == 1 {
                finished = true;
                c.check(same(&w[0], o.l, 3), || format!("last parameter {} instead of {:?}\n{}", w[0], o.l, text));
            } else {
                if !c.check(k < att.len(), || format!("more steps in the log than the {} made\n{}", att.len(), text)) {
                    return;
                }
                c.count("steps in logs compared");
                let ok = same(&w[0], att[k].0, 3) && same(&w[1], att[k].1, 3);
                if !c.check(ok, || format!("attempt {}: {} {} in the log, made from {:?} with {:?}\n{}", k, w[0], w[1], att[k].0, att[k].1, text)) {
                    return;
                }
                k += 1;
            }
        } else if !c.check(false, || format!("line not understood: {:?}\n{}", line, text)) {
            return;
        }
    }
    if !c.check(finished && k == att.len(), || format!("{} steps in the log, {} made\n{}", k, att.len(), text)) {
        return;
    }
    // attempts which did not converge (those whose first update failed have no iterations)
    let early = o.a.ev.iter().filter(|e| matches!(e, Ev::Update { backup: true, ok: false, .. })).count();
    let want = o.stats.n_steps - o.stats.n_accepted - early;
    c.count_n("attempts without convergence in logs", want);
    c.check(notes == want, || format!("{} notes of rejection, {} attempts did not converge\n{}", notes, want, text));
}

type Set = fn(&mut Config, &mut Case) -> String;
type Get = fn(&Config) -> String;

/// Every setting is read back as it was set, whatever else is set
fn settings(c: &mut Case) {
    let list: Vec<(&str, Set, Get)> = vec![
        ("method", |k, c| { let x = *c.rng.pick(&[Method::Natural, Method::Arclength]); k.set_method(x); format!("{:?}", x) }, |k| format!("{:?}", k.get_method())),
        ("log file", |k, c| { let x = format!("/nowhere/{}", c.rng.int(0, 99)); k.set_log_file(&x); x }, |k| k.get_log_file().unwrap_or("").to_string()),
        ("verbose", |k, c| { let x = c.rng.bool(); k.set_verbose_only(x); x.to_string() }, |k| k.get_verbose().to_string()),
        ("iterations shown", |k, c| { let x = c.rng.bool(); k.set_verbose_iterations(x); x.to_string() }, |k| k.get_verbose_iterations().to_string()),
        ("statistics shown", |k, c| { let x = c.rng.bool(); k.set_verbose_stats(x); x.to_string() }, |k| k.get_verbose_stats().to_string()),
        ("legend shown", |k, c| { let x = c.rng.bool(); k.set_verbose_legend(x); x.to_string() }, |k| k.get_verbose_legend().to_string()),
        ("header shown", |k, c| { let x = c.rng.bool(); k.set_verbose_header_footer(x); x.to_string() }, |k| k.get_verbose_header_footer().to_string()),
        ("times hidden", |k, c| { let x = c.rng.bool(); k.set_hide_timings(x); x.to_string() }, |k| k.get_hide_timings().to_string()),
        ("residuals recorded", |k, c| { let x = c.rng.bool(); k.set_record_iterations_residuals(x); x.to_string() }, |k| k.get_record_iterations_residuals().to_string()),
        ("precise stop", |k, c| { let x = c.rng.bool(); k.set_enable_precise_stop_u_comp(x); x.to_string() }, |k| k.get_enable_precise_stop_u_comp().to_string()),
        ("failure factor", |k, c| { let x = c.rng.unit(); k.set_m_failure(x); x.to_string() }, |k| k.get_m_failure().to_string()),
        ("steps", |k, c| { let x = c.rng.int(1, 999); k.set_n_step_max(x); x.to_string() }, |k| k.get_n_step_max().to_string()),
        ("failures", |k, c| { let x = c.rng.int(1, 999); k.set_n_cont_failure_max(x); x.to_string() }, |k| k.get_n_cont_failure_max().to_string()),
        ("rejections", |k, c| { let x = c.rng.int(1, 999); k.set_n_cont_rejection_max(x); x.to_string() }, |k| k.get_n_cont_rejection_max().to_string()),
        ("solver", |k, c| { let x = *c.rng.pick(&[Genie::Umfpack, Genie::Mumps]); k.set_genie(x); format!("{:?}", x) }, |k| format!("{:?}", k.get_genie())),
        ("matrix written", |k, c| { let x = c.rng.int(1, 999); k.set_write_matrix_after_nstep_and_stop(x); format!("{:?}", Some(x)) }, |k| format!("{:?}", k.get_write_matrix_after_nstep_and_stop())),
        ("residual tolerance", |k, c| { let x = c.rng.unit(); k.set_tol_abs_residual(x); x.to_string() }, |k| k.get_tol_abs_residual().to_string()),
        ("absolute tolerance", |k, c| { let x = c.rng.unit(); k.set_tol_abs_delta(x); x.to_string() }, |k| k.get_tol_abs_delta().to_string()),
        ("relative tolerance", |k, c| { let x = c.rng.unit(); k.set_tol_rel_delta(x); x.to_string() }, |k| k.get_tol_rel_delta().to_string()),
        ("largest correction", |k, c| { let x = c.rng.unit(); k.set_delta_max_allowed(x); x.to_string() }, |k| k.get_delta_max_allowed().to_string()),
        ("corrections ignored", |k, c| { let x = c.rng.bool(); k.set_disable_rel_delta_analysis(x); x.to_string() }, |k| k.get_disable_rel_delta_analysis().to_string()),
        ("iterations", |k, c| { let x = c.rng.int(1, 999); k.set_n_iteration_max(x); x.to_string() }, |k| k.get_n_iteration_max().to_string()),
        ("diverging residuals", |k, c| { let x = c.rng.int(1, 999); k.set_n_cont_residual_divergence_max(x); x.to_string() }, |k| k.get_n_cont_residual_divergence_max().to_string()),
        ("diverging corrections", |k, c| { let x = c.rng.int(1, 999); k.set_n_cont_delta_divergence_max(x); x.to_string() }, |k| k.get_n_cont_delta_divergence_max().to_string()),
        ("predictor", |k, c| { let x = c.rng.bool(); k.set_euler_predictor(x); x.to_string() }, |k| k.get_euler_predictor().to_string()),
        ("bordering", |k, c| { let x = c.rng.bool(); k.set_bordering(x); x.to_string() }, |k| k.get_bordering().to_string()),
        ("predictors recorded", |k, c| { let x = c.rng.bool(); k.set_debug_predictor(x); x.to_string() }, |k| k.get_debug_predictor().to_string()),
        ("control by iterations", |k, c| { let x = c.rng.bool(); k.set_nr_control_enabled(x); x.to_string() }, |k| k.get_nr_control_enabled().to_string()),
        ("control by tangents", |k, c| { let x = c.rng.bool(); k.set_tg_control_enabled(x); x.to_string() }, |k| k.get_tg_control_enabled().to_string()),
        ("three-term control", |k, c| { let x = c.rng.bool(); k.set_tg_control_pid_vcc(x); x.to_string() }, |k| k.get_tg_control_pid_vcc().to_string()),
        ("tiny change", |k, c| { let x = c.rng.unit(); k.set_tg_control_rdiff_min(x); x.to_string() }, |k| k.get_tg_control_rdiff_min().to_string()),
        ("factor of tiny changes", |k, c| { let x = c.rng.unit(); k.set_tg_control_rho_for_tiny_rdiff(x); x.to_string() }, |k| k.get_tg_control_rho_for_tiny_rdiff().to_string()),
        ("best iterations", |k, c| { let x = c.rng.int(1, 999); k.set_nr_control_n_opt(x); x.to_string() }, |k| k.get_nr_control_n_opt().to_string()),
        ("exponent of iterations", |k, c| { let x = c.rng.unit(); k.set_nr_control_beta(x); x.to_string() }, |k| k.get_nr_control_beta().to_string()),
        ("kind of change", |k, c| { let x = *c.rng.pick(&[RdiffType::Ave, RdiffType::Max]); k.set_tg_control_rdiff_type(x); format!("{:?}", x) }, |k| format!("{:?}", k.get_tg_control_rdiff_type())),
        ("tangent tolerance", |k, c| { let x = c.rng.unit(); k.set_tg_control_tol(x); x.to_string() }, |k| k.get_tg_control_tol().to_string()),
        ("beta1", |k, c| { let x = c.rng.unit(); k.set_tg_control_beta1(x); x.to_string() }, |k| k.get_tg_control_beta1().to_string()),
        ("beta2", |k, c| { let x = c.rng.unit(); k.set_tg_control_beta2(x); x.to_string() }, |k| k.get_tg_control_beta2().to_string()),
        ("beta3", |k, c| { let x = c.rng.unit(); k.set_tg_control_beta3(x); x.to_string() }, |k| k.get_tg_control_beta3().to_string()),
        ("alpha2", |k, c| { let x = c.rng.unit(); k.set_tg_control_alpha2(x); x.to_string() }, |k| k.get_tg_control_alpha2().to_string()),
        ("alpha3", |k, c| { let x = c.rng.unit(); k.set_tg_control_alpha3(x); x.to_string() }, |k| k.get_tg_control_alpha3().to_string()),
    ];
    let mut k = Config::new();
    let mut model: Vec<String> = list.iter().map(|x| (x.2)(&k)).collect();
    let m = c.rng.int(1, 80);
    let mut names = vec![];
    for _ in 0..m {
        let i = c.rng.int(0, list.len() - 1);
        let index = |name: &str| list.iter().position(|x| x.0 == name).unwrap();
        names.push(i);
        if c.rng.chance(0.05) {
            let (a, b) = (c.rng.unit(), c.rng.unit());
            k.set_tol_delta(a, b);
            model[index("absolute tolerance")] = a.to_string();
            model[index("relative tolerance")] = b.to_string();
        } else if c.rng.chance(0.05) {
            let (a, b, d) = (c.rng.bool(), c.rng.bool(), c.rng.bool());
            k.set_verbose(a, b, d);
            model[index("verbose")] = a.to_string();
            model[index("iterations shown")] = b.to_string();
            model[index("statistics shown")] = d.to_string();
        } else {
            model[i] = (list[i].1)(&mut k, c);
        }
    }
    c.input(format!("settings {:?}", names));
    let copy = k.clone();
    for (i, (name, _, get)) in list.iter().enumerate() {
        for x in [&k, &copy] {
            let g = get(x);
            c.count("settings compared");
            if !c.check(g == model[i], || format!("{}: set {:?}, read {:?}", name, model[i], g)) {
                return;
            }
        }
    }
    let name = k.get_continuation();
    let want = if k.get_method() == Method::Natural { "Natural" } else if k.get_bordering() { "Arclength(bord)" } else { "Arclength(full)" };
    c.check(name == want, || format!("continuation {} instead of {}", name, want));
}

pub fn run_all(cx: &mut Ctx) {
    cx.rule("distinct = different systems, options, step modes and injected faults, or different sequences of settings");
    cx.assume("runs that end with an error instead of a status leave no log file and are not compared");
    let n = cx.n(30_000, 240_000);
    cx.run("histories", n, histories);
    cx.run("logs", n / 2, logs);
    cx.run("settings", n / 2, settings);
    cx.require("residuals compared", 50_000);
    cx.require("rates compared", 500);
    cx.require("histograms compared", 5000);
    cx.require("lines of summaries compared", 20_000);
    cx.require("statistics of rates compared", 500);
    cx.require("predictors compared", 5000);
    cx.require("log files read", 2000);
    cx.require("steps in logs compared", 10_000);
    cx.require("iterations in logs compared", 10_000);
    cx.require("attempts without convergence in logs", 200);
    cx.require("settings compared", 10_000);
}
