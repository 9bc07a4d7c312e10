//! Determinism: the same jobs again, on several threads at once, and with solvers handed over
use crate::lin::*;
use crate::problem;
use harness::{Case, Ctx, Rng};
use num_complex::Complex64;
use russell_lab::*;
use russell_nonlin::{DeltaLambda, IniDir, Stop};
use russell_ode::{Method, OdeSolver, Output, Params, Samples};
use russell_pde::{Fdm2d, Grid2d, ProblemSamples, Spc2d, SpcMap2d, TransfiniteSamples};
use russell_sparse::{LinSolParams, NumCooMatrix, Ordering as Ord, Scaling, Sym};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

type Bits = Vec<u64>;

/// Ways of running a job which must not change its result
#[derive(Clone, Copy, PartialEq)]
struct Mode {
    /// some calls are made on another thread
    hand: bool,
    /// another solver works in between
    mix: bool,
}

const PLAIN: Mode = Mode { hand: false, mix: false };

trait Put {
    fn f(&mut self, x: f64);
    fn s(&mut self, x: &[f64]);
    fn z(&mut self, x: &[Complex64]);
    fn t(&mut self, x: &str);
}

impl Put for Bits {
    fn f(&mut self, x: f64) {
        self.push(x.to_bits());
    }
    fn s(&mut self, x: &[f64]) {
        x.iter().for_each(|v| self.push(v.to_bits()));
    }
    fn z(&mut self, x: &[Complex64]) {
        x.iter().for_each(|v| self.extend([v.re.to_bits(), v.im.to_bits()]));
    }
    fn t(&mut self, x: &str) {
        self.push(x.len() as u64);
        self.extend(x.bytes().map(|b| b as u64));
    }
}

fn rmat(g: &mut Rng, m: usize, n: usize) -> Matrix {
    let mut a = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, g.sym() + if i == j { 2.0 } else { 0.0 });
        }
    }
    a
}

fn zmat(g: &mut Rng, m: usize, n: usize) -> ComplexMatrix {
    let mut a = ComplexMatrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, Complex64::new(g.sym(), g.sym()));
        }
    }
    a
}

fn dense(g: &mut Rng, o: &mut Bits) -> Result<(), StrError> {
    let n = g.int(1, 40);
    let m = g.int(1, 40);
    let a = rmat(g, n, n);
    let b = rmat(g, m, n);
    let mut c = Matrix::new(m, n);
    mat_mat_mul(&mut c, 1.5, &b, &a, 0.0)?;
    o.s(c.as_data());
    let mut ai = Matrix::new(n, n);
    o.f(mat_inverse(&mut ai, &a)?);
    o.s(ai.as_data());
    let (mut re, mut im, mut vr, mut vi) = (Vector::new(n), Vector::new(n), Matrix::new(n, n), Matrix::new(n, n));
    let mut aa = a.clone();
    mat_eigen(&mut re, &mut im, &mut vr, &mut vi, &mut aa)?;
    o.s(re.as_data());
    o.s(vr.as_data());
    let (mut s, mut u, mut vt) = (Vector::new(m.min(n)), Matrix::new(m, m), Matrix::new(n, n));
    let mut bb = b.clone();
    mat_svd(&mut s, &mut u, &mut vt, &mut bb)?;
    o.s(s.as_data());
    o.s(u.as_data());
    let mut x = Vector::from(&(0..n).map(|i| i as f64).collect::<Vec<_>>());
    let mut aa = a.clone();
    solve_lin_sys(&mut x, &mut aa)?;
    o.s(x.as_data());
    let za = zmat(g, n, n);
    let mut zi = ComplexMatrix::new(n, n);
    let det = complex_mat_inverse(&mut zi, &za)?;
    o.z(&[det]);
    o.z(zi.as_data());
    let (mut zl, mut zv) = (ComplexVector::new(n), ComplexMatrix::new(n, n));
    let mut zz = za.clone();
    complex_mat_eigen(&mut zl, &mut zv, &mut zz)?;
    o.z(zl.as_data());
    Ok(())
}

fn coo<T: Lin>(g: &mut Rng, n: usize, sym: Sym) -> NumCooMatrix<T> {
    let mut a = NumCooMatrix::<T>::new(n, n, 12 * n + 8, sym).unwrap();
    for i in 0..n {
        a.put(i, i, T::conv(3.0 + g.unit(), g.sym())).unwrap();
        for _ in 0..g.int(0, 4) {
            let j = g.int(0, n - 1);
            let v = T::conv(g.sym(), g.sym());
            match sym {
                Sym::YesLower => {
                    if j < i {
                        a.put(i, j, v).unwrap();
                    }
                }
                Sym::YesFull => {
                    a.put(i, j, v).unwrap();
                    a.put(j, i, v).unwrap();
                }
                _ => a.put(i, j, v).unwrap(),
            }
        }
    }
    a
}

fn params(g: &mut Rng) -> LinSolParams {
    let mut p = LinSolParams::new();
    p.ordering = *g.pick(&[Ord::Amd, Ord::Amf, Ord::Auto, Ord::Best, Ord::Cholmod, Ord::Metis, Ord::No]);
    p.scaling = *g.pick(&[Scaling::Auto, Scaling::Max, Scaling::No, Scaling::Sum]);
    p.compute_determinant = g.bool();
    p.compute_condition_numbers = g.bool();
    p.compute_error_estimates = g.bool();
    p.umfpack_enforce_unsymmetric_strategy = g.chance(0.2);
    p
}

/// Calls f here or on another thread
fn there<R: Send>(go: bool, f: impl FnOnce() -> R + Send) -> R {
    if go {
        std::thread::scope(|scope| scope.spawn(f).join().unwrap())
    } else {
        f()
    }
}

fn sparse<T: Lin + Send + Sync>(g: &mut Rng, o: &mut Bits, mode: Mode) -> Result<(), StrError>
where
    T::Solver: Send,
{
    let n = g.int(1, 80);
    let sym = *g.pick(&[Sym::No, Sym::No, Sym::YesFull]);
    let mut solver = T::create()?;
    let seed = g.next_u64();
    // another solver working in between must not matter
    let mut other = T::create()?;
    let mut w = NumVector::<T>::new(n + 1);
    let oa = coo::<T>(&mut Rng::new(seed ^ 1), n + 1, Sym::No);
    let ob = NumVector::<T>::initialized(n + 1, |i| T::conv(i as f64, -1.0));
    for k in 0..g.int(1, 4) {
        // the same structure with other values
        let mut h = Rng::new(seed);
        let mut a = coo::<T>(&mut h, n, sym);
        for v in a.get_values_mut() {
            *v = *v * T::conv(1.0 + 0.1 * k as f64, 0.0);
        }
        let p = params(g);
        there(mode.hand && k % 2 == 1, || T::factorize(&mut solver, &a, if k == 0 { Some(p) } else { None }))?;
        if mode.mix {
            T::factorize(&mut other, &oa, if k == 0 { Some(params(&mut h)) } else { None })?;
        }
        let b = NumVector::<T>::initialized(n, |i| T::conv(1.0 + i as f64, 0.5));
        let mut x = NumVector::<T>::new(n);
        if mode.hand {
            // another thread owns the solver for a while, and gives it back
            let (s, r, y) = std::thread::scope(|scope| {
                let t = scope.spawn(|| {
                    let mut s = solver;
                    let r = T::solve(&mut s, &mut x, &b);
                    (s, r, x)
                });
                t.join().unwrap()
            });
            solver = s;
            r?;
            x = y;
        } else {
            T::solve(&mut solver, &mut x, &b)?;
        }
        if mode.mix {
            T::solve(&mut other, &mut w, &ob)?;
        }
        for v in x.as_data() {
            let z = v.to_c();
            o.z(&[z]);
        }
        let st = T::stats(&solver);
        o.f(st.determinant.mantissa_real);
        o.f(st.determinant.mantissa_imag);
        o.f(st.determinant.exponent);
        o.f(st.output.umfpack_rcond_estimate);
        o.t(&st.output.effective_ordering);
    }
    Ok(())
}

fn ode(g: &mut Rng, o: &mut Bits, mode: Mode) -> Result<(), StrError> {
    let m = *g.pick(&[
        Method::Radau5,
        Method::Radau5,
        Method::Radau5,
        Method::BwEuler,
        Method::DoPri5,
        Method::DoPri8,
        Method::MdEuler,
        Method::Fehlberg7,
    ]);
    let mut par = Params::new(m);
    if m == Method::Radau5 {
        par.radau5.concurrent = g.chance(0.8);
        par.newton.use_numerical_jacobian = g.chance(0.3);
    }
    let stats = |solver: &russell_ode::Stats, o: &mut Bits| {
        o.push(solver.n_function as u64);
        o.push(solver.n_jacobian as u64);
        o.push(solver.n_factor as u64);
        o.push(solver.n_lin_sol as u64);
        o.push(solver.n_accepted as u64);
        o.push(solver.n_rejected as u64);
    };
    match g.int(0, 3) {
        0 if m == Method::Radau5 => {
            let np = g.int(3, 6);
            let (system, t0, mut y, mut args) = Samples::brusselator_pde(2e-3, np, false, false);
            let mut solver = OdeSolver::new(par, system)?;
            there(mode.hand, || solver.solve(&mut y, t0, 0.3, None, &mut args, None))?;
            o.s(y.as_data());
            stats(solver.stats(), o);
        }
        1 => {
            let (system, x0, mut y, _x1, mut args) = Samples::van_der_pol(g.f(0.1, 1.0), false);
            let mut solver = OdeSolver::new(par, system)?;
            let mut out = Output::new();
            out.set_step_recording(&[0, 1]);
            let h = if m == Method::BwEuler { Some(0.01) } else { None };
            there(mode.hand, || solver.solve(&mut y, x0, 0.4, h, &mut args, Some(&mut out)))?;
            o.s(y.as_data());
            o.s(out.step_x());
            o.s(out.step_y(1));
            stats(solver.stats(), o);
        }
        _ => {
            let (system, x0, mut y, mut args, _) = Samples::brusselator_ode();
            let mut other = OdeSolver::new(par, system.clone())?;
            let mut solver = OdeSolver::new(par, system)?;
            let mut out = Output::new();
            if matches!(m, Method::Radau5 | Method::DoPri5 | Method::DoPri8) {
                out.set_dense_h_out(0.1)?.set_dense_recording(&[0]);
            }
            let h = if m == Method::BwEuler { Some(0.01) } else { None };
            for k in 0..g.int(1, 2) {
                let xa = x0 + k as f64;
                there(mode.hand && k == 1, || solver.solve(&mut y, xa, xa + 1.0, h, &mut args, Some(&mut out)))?;
                if mode.mix {
                    let mut z = Vector::from(&[1.0, 2.5]);
                    other.solve(&mut z, x0, x0 + 0.3, h, &mut args, None)?;
                }
                o.s(y.as_data());
            }
            o.s(out.dense_x());
            stats(solver.stats(), o);
        }
    }
    Ok(())
}

fn pde(g: &mut Rng, o: &mut Bits, mode: Mode) -> Result<(), StrError> {
    let lmm = g.bool();
    let n = g.int(4, 9);
    let case_a = g.bool();
    let (xmin, xmax, ymin, ymax, kx, ky, ebcs, nbcs, _, _, _) = ProblemSamples::d2_problem_01(case_a);
    let q = g.f(-1.0, 1.0);
    let source = move |x: f64, y: f64| 1.0 + q * x * y;
    match g.int(0, 2) {
        0 => {
            let fdm = Fdm2d::new(Grid2d::new_uniform(xmin, xmax, ymin, ymax, n, n + 1)?, ebcs, nbcs, kx, ky)?;
            let a = there(mode.hand, move || if lmm { fdm.solve_lmm(0.0, source) } else { fdm.solve_sps(0.0, source) })?;
            o.s(a.as_data());
        }
        1 => {
            let spc = Spc2d::new(xmin, xmax, ymin, ymax, n, n, ebcs, nbcs, kx, ky)?;
            let (a, w) = there(mode.hand, move || {
                let a = if lmm { spc.solve_lmm(0.0, source) } else { spc.solve_sps(0.0, source) };
                let w = a.as_ref().ok().map(|a| spc.calculate_flow_vectors(a));
                (a, w)
            });
            o.s(a?.as_data());
            if let Some(Ok((wx, wy))) = w {
                o.s(&wx);
                o.s(&wy);
            }
        }
        _ => {
            let map = TransfiniteSamples::quadrilateral_2d(&[0.0, 0.0], &[2.0, 0.1], &[1.8, 1.5], &[-0.1, 1.0]);
            let mut spc = SpcMap2d::new(map, n, n, ebcs, nbcs, kx)?;
            let a = there(mode.hand, move || if lmm { spc.solve_lmm(0.0, source) } else { spc.solve_sps(0.0, source) })?;
            o.s(a.as_data());
        }
    }
    Ok(())
}

fn nonlin(g: &mut Rng, o: &mut Bits) -> Result<(), StrError> {
    use problem::*;
    let method = *g.pick(&[russell_nonlin::Method::Natural, russell_nonlin::Method::Arclength]);
    let n = g.int(1, 6);
    let kind = if method == russell_nonlin::Method::Natural { Kind::Mono } else { *g.pick(&[Kind::Mono, Kind::Wave, Kind::Ellipse, Kind::Cubic]) };
    let p = Prob::new(g, kind, false, n);
    let ddl = if g.bool() { DeltaLambda::auto(0.05) } else { DeltaLambda::constant(0.02) };
    let steps = g.int(3, 12);
    let mut s = Setup::new(method, g.bool(), IniDir::Pos, Stop::Steps(steps), ddl);
    s.secondary = g.bool();
    s.apply();
    let r = run(&p, &s, Args::new(Fault::None, 0, 0)).map_err(|_| "solver")?;
    o.t(&format!("{:?}", r.res));
    o.s(&r.u);
    o.f(r.l);
    o.push(r.stats.n_function as u64);
    o.push(r.stats.n_lin_sol as u64);
    for e in r.hh {
        o.f(e);
    }
    Ok(())
}

fn numerics(g: &mut Rng, o: &mut Bits) -> Result<(), StrError> {
    let k = g.f(0.5, 4.0);
    let mut quad = Quadrature::new();
    o.f(quad.integrate(0.0, k, &mut 0u8, |x, _| Ok((k * x).sin() / (1.0 + x * x)))?);
    let solver = RootFinder::new();
    let mut solver = solver;
    let root = solver.brent(0.0, 3.0, &mut 0u8, |x, _| Ok(x * x * x - k))?;
    o.f(root);
    let mut interp = InterpChebyshev::new(60, -1.0, 1.0)?;
    interp.adapt_function(1e-9, &mut 0u8, |x, _| Ok((k * x).cos()))?;
    o.f(interp.eval(0.3)?);
    o.push(interp.get_degree() as u64);
    let nn = g.int(2, 20);
    let lag = InterpLagrange::new(nn, None)?;
    let uu = Vector::from(&(0..=nn).map(|i| (i as f64 * k).sin()).collect::<Vec<_>>());
    o.f(lag.eval(0.123, &uu)?);
    o.f(lag.eval_deriv1(0.123, &uu)?);
    o.f(math::bessel_j0(k));
    o.f(math::gamma(k));
    // text formats and parsing go through the same tables
    let coo = coo::<f64>(g, 6, Sym::No);
    let csc = russell_sparse::NumCscMatrix::<f64>::from_coo(&coo)?;
    o.s(csc.get_values());
    let csr = russell_sparse::NumCsrMatrix::<f64>::from_coo(&coo)?;
    o.s(csr.get_values());
    o.t(&format!("{}", csc.as_dense()));
    Ok(())
}

const KINDS: [&str; 7] = ["dense", "sparse real", "sparse complex", "ode", "pde", "continuation", "numerics"];

/// Runs a job; its result is a list of bit patterns
fn job(kind: usize, seed: u64, mode: Mode) -> Bits {
    let mut g = Rng::new(seed);
    let mut o = Bits::new();
    let r = match kind {
        0 => dense(&mut g, &mut o),
        1 => sparse::<f64>(&mut g, &mut o, mode),
        2 => sparse::<Complex64>(&mut g, &mut o, mode),
        3 => ode(&mut g, &mut o, mode),
        4 => pde(&mut g, &mut o, mode),
        5 => nonlin(&mut g, &mut o),
        _ => numerics(&mut g, &mut o),
    };
    o.t(r.err().unwrap_or("ok"));
    o
}

fn hash(b: &Bits) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, v| (h ^ v).wrapping_mul(0x100000001b3).rotate_left(7))
}

fn concurrent(c: &mut Case, threads: usize, rounds: usize) {
    let nj = 24;
    let only = if c.rng.chance(0.6) { Some(c.rng.int(0, KINDS.len() - 1)) } else { None };
    let jobs: Vec<(usize, u64)> = (0..nj).map(|_| (only.unwrap_or_else(|| c.rng.int(0, KINDS.len() - 1)), c.rng.next_u64())).collect();
    c.input(format!("{:?}", jobs));
    let want: Vec<Bits> = jobs.iter().map(|j| job(j.0, j.1, PLAIN)).collect();
    let ends = |b: &Bits| b.len() >= 3 && b[b.len() - 3..] == [2, b'o' as u64, b'k' as u64];
    for k in 0..nj {
        if ends(&want[k]) {
            c.count(KINDS[jobs[k].0]);
        } else {
            c.count("jobs ending with an error");
        }
        // again, after other jobs
        let again = job(jobs[k].0, jobs[k].1, PLAIN);
        c.count("repetitions compared");
        if !c.check(again == want[k], || format!("{} job {}: another result when repeated", KINDS[jobs[k].0], jobs[k].1)) {
            return;
        }
        if (1..5).contains(&jobs[k].0) {
            for (mode, what) in [(Mode { hand: true, mix: false }, "on another thread"), (Mode { hand: false, mix: true }, "next to another solver")] {
                let b = job(jobs[k].0, jobs[k].1, mode);
                c.count(what);
                if !c.check(b == want[k], || format!("{} job {}: another result {}", KINDS[jobs[k].0], jobs[k].1, what)) {
                    return;
                }
            }
        }
    }
    // all threads at once, each in its own order
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut v: Vec<usize> = (0..nj).collect();
            c.rng.shuffle(&mut v);
            v
        })
        .collect();
    let modes: Vec<Mode> = (0..nj).map(|_| Mode { hand: c.rng.chance(0.2), mix: c.rng.chance(0.2) }).collect();
    let barrier = Barrier::new(threads);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let done = AtomicUsize::new(0);
    std::thread::scope(|scope| {
        for order in &orders {
            let (barrier, bad, done, jobs, want, modes) = (&barrier, &bad, &done, &jobs, &want, &modes);
            scope.spawn(move || {
                barrier.wait();
                for _ in 0..rounds {
                    for &k in order {
                        match harness::no_panic(|| job(jobs[k].0, jobs[k].1, modes[k])) {
                            Ok(b) if b == want[k] => {
                                done.fetch_add(1, Ordering::SeqCst);
                            }
                            Ok(_) => *bad.lock().unwrap() = Some(format!("{} job {}: another result next to other threads", KINDS[jobs[k].0], jobs[k].1)),
                            Err(e) => *bad.lock().unwrap() = Some(format!("{} job {}: panic next to other threads: {}", KINDS[jobs[k].0], jobs[k].1, e)),
                        }
                    }
                }
            });
        }
    });
    c.count_n("overlapping runs compared", done.load(Ordering::SeqCst));
    if let Some(m) = bad.into_inner().unwrap() {
        c.fail(m);
    }
}

/// A process which leaves the fingerprints of its results
pub fn again(cx: &mut Ctx) {
    let n = cx.n(140, 700);
    let all = Mutex::new(Vec::new());
    cx.run("again", n, |c| {
        let kind = c.index as usize % KINDS.len();
        let seed = c.rng.next_u64();
        c.input(format!("{} {}", kind, seed));
        let h = hash(&job(kind, seed, PLAIN));
        all.lock().unwrap().push(format!("{} job {}: {:016x}", KINDS[kind], seed, h));
    });
    if let Some(d) = std::env::var_os("VERIF_CHILD") {
        let _ = std::fs::write(PathBuf::from(d).join("results"), all.into_inner().unwrap().join("\n"));
    }
}

/// The process watched by ThreadSanitizer
pub fn raced(cx: &mut Ctx) {
    let n = cx.n(16, 120);
    cx.run("raced", n, |c| {
        let kind = c.index % KINDS.len();
        let seeds: Vec<u64> = (0..12).map(|_| c.rng.next_u64()).collect();
        c.input(format!("{} {:?}", kind, seeds));
        std::thread::scope(|scope| {
            for k in 0..4 {
                let seeds = &seeds;
                scope.spawn(move || {
                    for i in 0..seeds.len() {
                        let _ = harness::no_panic(|| job(kind, seeds[(i + 3 * k) % seeds.len()], Mode { hand: i % 4 == 0, mix: i % 3 == 0 }));
                    }
                });
            }
        });
    });
}

pub fn run(cx: &mut Ctx) {
    cx.rule("distinct = different sets of jobs");
    cx.assume("the BLAS library itself runs on one thread");
    cx.jobs(1);
    let n = cx.n(60, 600);
    cx.run("concurrent", n, |c| concurrent(c, 8, 2));
    for k in KINDS {
        cx.require(k, 20);
    }
    cx.require("repetitions compared", 500);
    cx.require("on another thread", 200);
    cx.require("next to another solver", 200);
    cx.require("overlapping runs compared", 5000);
    let Some(bin) = std::env::var_os("VERIF_TSAN") else {
        cx.give_up("the binary for ThreadSanitizer is missing");
    };
    if cx.is_replay() {
        return;
    }
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    // other processes, with other addresses and other contents of new memory
    let mut results: Vec<Vec<String>> = vec![];
    for (k, fill) in ["", "165", "90"].iter().enumerate() {
        let dir = base.join(format!("again{}", k));
        let _ = std::fs::create_dir_all(&dir);
        let mut cmd = Command::new(std::env::var("VERIF_BIN").map(PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap()));
        cmd.arg("again").env("VERIF_CHILD", &dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        if fill.is_empty() {
            cmd.env("VERIF_RAW_ALLOC", "1");
        } else {
            cmd.env("VERIF_RAW_ALLOC", "1").env("MALLOC_PERTURB_", fill);
        }
        let status = cmd.status();
        match status {
            Ok(s) if s.code() == Some(0) => {}
            s => cx.give_up(&format!("a repetition in another process ended with {:?}", s)),
        }
        results.push(std::fs::read_to_string(dir.join("results")).unwrap_or_default().lines().map(|l| l.to_string()).collect());
    }
    cx.outer_count("results compared between processes", 2 * results[0].len() as u64);
    for k in 1..3 {
        if results[k].len() != results[0].len() {
            cx.give_up("repetitions in other processes are incomplete");
        }
        if let Some(i) = (0..results[0].len()).find(|i| results[0][*i] != results[k][*i]) {
            cx.outer_violation("again", i, format!("another result in another process: {} != {}", results[0][i], results[k][i]));
            return;
        }
    }
    cx.require("results compared between processes", 100);
    // data races, whatever the interleaving
    let dir = base.join("tsan");
    let _ = std::fs::create_dir_all(&dir);
    let err = dir.join("err");
    let status = Command::new(bin)
        .arg("raced")
        .env("VERIF_CHILD", &dir)
        .env("VERIF_RAW_ALLOC", "1")
        .env("TSAN_OPTIONS", "ignore_noninstrumented_modules=1 exitcode=66 halt_on_error=0 history_size=4")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err).unwrap())
        .status();
    let text = std::fs::read_to_string(&err).unwrap_or_default();
    let out = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
    let done: Vec<u64> = out.lines().find_map(|l| l.strip_prefix("DONE ")).map(|l| l.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect()).unwrap_or_default();
    if text.contains("WARNING: ThreadSanitizer: data race") {
        let lines: Vec<&str> = text.lines().filter(|l| l.contains("WARNING") || l.trim_start().starts_with('#') || l.contains(" of size ")).take(12).map(|l| l.trim()).collect();
        cx.outer_violation("raced", 0, lines.join(" / "));
        return;
    }
    match status {
        Ok(s) if s.code() == Some(0) && done.len() == 4 => {
            cx.outer_cases("under ThreadSanitizer", done[0], done[1], 0);
            cx.outer_count("cases under ThreadSanitizer", done[0]);
        }
        s => cx.give_up(&format!("ThreadSanitizer run ended with {:?}: {}", s, text.lines().last().unwrap_or(""))),
    }
    cx.require("cases under ThreadSanitizer", 8);
}
