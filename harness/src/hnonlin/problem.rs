//! Families of parameterized nonlinear systems with known solution curves and the instrumented run of the solver
use harness::{Case, Rng};
use russell_lab::Vector;
use russell_nonlin::{Config, DeltaLambda, IniDir, Method, Output, Solver, Stats, Status, Stop, System};
use russell_sparse::Sym;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Mono,    // the curve is a graph over lambda
    Cubic,   // two fold points
    Wave,    // many fold points
    Ellipse, // closed curve
}

/// G(u,l) = M F(Q^-1 (u - c), l) with F_0 = the curve of (v, l) and F_j = w_j - q_j(v); x = (v, w_1, ...)
/// or, if `sym`, G = K u + a u^3 - l f - g
#[derive(Clone, Debug)]
pub struct Prob {
    pub n: usize,
    pub kind: Kind,
    pub sym: bool,
    pub k: [f64; 4],
    pub q: Vec<[f64; 4]>,
    pub qm: Vec<Vec<f64>>,
    pub qi: Vec<Vec<f64>>,
    pub m: Vec<Vec<f64>>,
    pub c: Vec<f64>,
    pub cub: Vec<f64>,
    pub f: Vec<f64>,
    pub split: bool,
    pub u0: Vec<f64>,
    pub l0: f64,
    pub t0: f64,
}

pub fn solve_dense(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut a: Vec<Vec<f64>> = a.to_vec();
    let mut b = b.to_vec();
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].abs().total_cmp(&a[j][k].abs())).unwrap();
        a.swap(k, p);
        b.swap(k, p);
        if !(a[k][k].abs() > 1e-300) {
            return None;
        }
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            if f != 0.0 {
                for j in k..n {
                    a[i][j] -= f * a[k][j];
                }
                b[i] -= f * b[k];
            }
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    Some(b)
}

fn near_identity(rng: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let s = 0.5 / n as f64;
    (0..n).map(|i| (0..n).map(|j| if i == j { rng.f(0.6, 1.6) } else { s * rng.sym() }).collect()).collect()
}

fn mv(a: &[Vec<f64>], x: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(x).map(|(p, q)| p * q).sum()).collect()
}

fn inverse(a: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let n = a.len();
    let mut r = vec![vec![0.0; n]; n];
    for j in 0..n {
        let mut e = vec![0.0; n];
        e[j] = 1.0;
        let x = solve_dense(a, &e).unwrap();
        for i in 0..n {
            r[i][j] = x[i];
        }
    }
    r
}

impl Prob {
    pub fn new(rng: &mut Rng, kind: Kind, sym: bool, n: usize) -> Prob {
        let k = match kind {
            Kind::Mono => [rng.f(0.3, 2.0), rng.f(0.0, 0.5), rng.f(-1.0, 1.0), rng.f(-0.2, 0.2)],
            Kind::Cubic => [rng.f(0.3, 1.0), rng.f(0.8, 2.0), rng.f(-1.0, 1.0), 0.0],
            Kind::Wave => [rng.f(0.8, 1.5), rng.f(0.7, 1.3), rng.f(0.1, 0.4), rng.f(-1.0, 1.0)],
            Kind::Ellipse => [rng.f(0.7, 2.0), rng.f(0.7, 2.0), rng.f(-1.0, 1.0), rng.f(-1.0, 1.0)],
        };
        let mut q: Vec<[f64; 4]> =
            (0..n).map(|_| [rng.f(-0.5, 0.5), rng.f(0.3, 1.0), rng.f(0.0, 6.0), rng.f(-0.8, 0.8)]).collect();
        q[0] = [0.0; 4];
        let qm = near_identity(rng, n);
        let qi = inverse(&qm);
        let mut m = near_identity(rng, n);
        let c = rng.vec(n);
        let cub: Vec<f64> = (0..n).map(|_| rng.f(0.0, 0.6)).collect();
        let f: Vec<f64> = (0..n).map(|_| rng.f(0.3, 1.2) * if rng.bool() { 1.0 } else { -1.0 }).collect();
        if sym {
            for i in 0..n {
                m[i][i] += 0.5;
                for j in 0..i {
                    m[i][j] = m[j][i];
                }
            }
        }
        let split = rng.chance(0.3);
        let mut p = Prob { n, kind, sym, k, q, qm, qi, m, c, cub, f, split, u0: vec![], l0: 0.0, t0: 0.0 };
        if sym {
            p.u0 = rng.vec(n);
            p.l0 = rng.f(-1.0, 1.0);
            p.c = vec![0.0; n];
            p.c = p.gg(&p.u0, p.l0);
            return p;
        }
        for _ in 0..1000 {
            let t = match kind {
                Kind::Mono => rng.f(-1.0, 1.0),
                Kind::Cubic => rng.f(-3.0, 3.0) * p.k[1],
                Kind::Wave => rng.f(-4.0, 4.0),
                Kind::Ellipse => rng.f(-3.1, 3.1),
            };
            let (du, dl) = p.tangent(t);
            let norm = (du.iter().map(|x| x * x).sum::<f64>() + dl * dl).sqrt();
            if dl.abs() / norm > 0.25 {
                p.t0 = t;
                break;
            }
        }
        let (u0, l0) = p.point(p.t0);
        p.u0 = u0;
        p.l0 = l0;
        p
    }

    fn curve(&self, t: f64) -> (f64, f64, f64, f64) {
        // (v, l, dv/dt, dl/dt)
        let k = &self.k;
        match self.kind {
            Kind::Mono => (t, k[2] + k[0] * t + k[1] * t * t * t + k[3] * t.sin(), 1.0, k[0] + 3.0 * k[1] * t * t + k[3] * t.cos()),
            Kind::Cubic => {
                let s = t / k[1];
                (t, k[2] + k[0] * (s * s * s - 3.0 * s), 1.0, k[0] * (3.0 * s * s - 3.0) / k[1])
            }
            Kind::Wave => (t, k[3] + k[0] * (k[1] * t).sin() + k[2] * t, 1.0, k[0] * k[1] * (k[1] * t).cos() + k[2]),
            Kind::Ellipse => (k[2] + k[0] * t.cos(), k[3] + k[1] * t.sin(), -k[0] * t.sin(), k[1] * t.cos()),
        }
    }

    pub fn point(&self, t: f64) -> (Vec<f64>, f64) {
        let (v, l, _, _) = self.curve(t);
        let x: Vec<f64> = (0..self.n).map(|j| if j == 0 { v } else { self.qf(j, v).0 }).collect();
        let mut u = mv(&self.qm, &x);
        for i in 0..self.n {
            u[i] += self.c[i];
        }
        (u, l)
    }

    /// Derivatives of the curve with respect to its parameter
    pub fn tangent(&self, t: f64) -> (Vec<f64>, f64) {
        let (v, _, dv, dl) = self.curve(t);
        let dx: Vec<f64> = (0..self.n).map(|j| if j == 0 { dv } else { self.qf(j, v).1 * dv }).collect();
        (mv(&self.qm, &dx), dl)
    }

    /// Parameter of the curve nearest to a point on it
    pub fn param(&self, u: &[f64], l: f64) -> f64 {
        let d: Vec<f64> = u.iter().zip(&self.c).map(|(a, b)| a - b).collect();
        let x = mv(&self.qi, &d);
        match self.kind {
            Kind::Ellipse => ((l - self.k[3]) / self.k[1]).atan2((x[0] - self.k[2]) / self.k[0]),
            _ => x[0],
        }
    }

    pub fn speed(&self, t: f64) -> f64 {
        let (du, dl) = self.tangent(t);
        (du.iter().map(|x| x * x).sum::<f64>() + dl * dl).sqrt()
    }

    /// Length of the curve between two parameters (signed)
    pub fn length(&self, a: f64, b: f64) -> f64 {
        let n = 64;
        let h = (b - a) / n as f64;
        (0..n).map(|i| h * self.speed(a + (i as f64 + 0.5) * h)).sum()
    }

    /// Smallest radius of curvature between two parameters
    pub fn radius(&self, a: f64, b: f64) -> f64 {
        let n = 60;
        let mut r = 1e3f64;
        let h = (b - a) / n as f64;
        for i in 0..n {
            let (t1, t2) = (a + i as f64 * h, a + (i as f64 + 1.0) * h);
            let ((u1, l1), (u2, l2)) = (self.tangent(t1), self.tangent(t2));
            let (s1, s2) = (self.speed(t1), self.speed(t2));
            let mut d = (l1 / s1 - l2 / s2).powi(2);
            for i in 0..self.n {
                d += (u1[i] / s1 - u2[i] / s2).powi(2);
            }
            r = r.min(0.5 * (s1 + s2) * h.abs() / d.sqrt().max(1e-12));
        }
        r
    }

    fn qf(&self, j: usize, v: f64) -> (f64, f64) {
        let q = &self.q[j];
        (q[0] * (q[1] * v + q[2]).sin() + q[3] * v, q[0] * q[1] * (q[1] * v + q[2]).cos() + q[3])
    }

    pub fn gg(&self, u: &[f64], l: f64) -> Vec<f64> {
        let n = self.n;
        if self.sym {
            let mut g = mv(&self.m, u);
            for i in 0..n {
                g[i] += self.cub[i] * u[i].powi(3) - l * self.f[i] - self.c[i];
            }
            return g;
        }
        let d: Vec<f64> = u.iter().zip(&self.c).map(|(a, b)| a - b).collect();
        let x = mv(&self.qi, &d);
        let k = &self.k;
        let f0 = match self.kind {
            Kind::Ellipse => ((x[0] - k[2]) / k[0]).powi(2) + ((l - k[3]) / k[1]).powi(2) - 1.0,
            _ => self.curve(x[0]).1 - l,
        };
        let f: Vec<f64> = (0..n).map(|j| if j == 0 { f0 } else { x[j] - self.qf(j, x[0]).0 }).collect();
        mv(&self.m, &f)
    }

    pub fn jac(&self, u: &[f64], l: f64) -> (Vec<Vec<f64>>, Vec<f64>) {
        let n = self.n;
        if self.sym {
            let mut a = self.m.clone();
            for i in 0..n {
                a[i][i] += 3.0 * self.cub[i] * u[i] * u[i];
            }
            return (a, self.f.iter().map(|x| -x).collect());
        }
        let d: Vec<f64> = u.iter().zip(&self.c).map(|(a, b)| a - b).collect();
        let x = mv(&self.qi, &d);
        let k = &self.k;
        let (f0v, f0l) = match self.kind {
            Kind::Ellipse => (2.0 * (x[0] - k[2]) / (k[0] * k[0]), 2.0 * (l - k[3]) / (k[1] * k[1])),
            _ => (self.curve(x[0]).3, -1.0),
        };
        let mut jf = vec![vec![0.0; n]; n];
        jf[0][0] = f0v;
        for j in 1..n {
            jf[j][0] = -self.qf(j, x[0]).1;
            jf[j][j] = 1.0;
        }
        let mut a = vec![vec![0.0; n]; n];
        for i in 0..n {
            for r in 0..n {
                for s in 0..n {
                    if jf[r][s] != 0.0 {
                        for j in 0..n {
                            a[i][j] += self.m[i][r] * jf[r][s] * self.qi[s][j];
                        }
                    }
                }
            }
        }
        let mut fl = vec![0.0; n];
        fl[0] = f0l;
        (a, mv(&self.m, &fl))
    }

    /// Null vector of (Gu, Gl) with positive inner product with the given vector
    pub fn null(&self, u: &[f64], l: f64, along: &[f64]) -> Option<Vec<f64>> {
        let n = self.n;
        let (a, gl) = self.jac(u, l);
        let mut b: Vec<Vec<f64>> = (0..n).map(|i| a[i].iter().cloned().chain([gl[i]]).collect()).collect();
        b.push(along.to_vec());
        let mut e = vec![0.0; n + 1];
        e[n] = 1.0;
        let x = solve_dense(&b, &e)?;
        let s = x.iter().map(|v| v * v).sum::<f64>().sqrt();
        Some(x.iter().map(|v| v / s).collect())
    }

    /// Smallest correction of (u,l), in the root mean square of the components divided by `sc`, making the linearized system zero
    pub fn correction(&self, u: &[f64], l: f64, sc: &[f64], fixed_l: bool) -> f64 {
        let n = self.n;
        let (a, gl) = self.jac(u, l);
        let g = self.gg(u, l);
        if fixed_l {
            let d = match solve_dense(&a, &g) {
                Some(d) => d,
                None => return f64::INFINITY,
            };
            return (d.iter().zip(sc).map(|(x, s)| (x / s).powi(2)).sum::<f64>() / n as f64).sqrt();
        }
        // B = (Gu, Gl) diag(sc); smallest norm: y = B^T (B B^T)^-1 g
        let b: Vec<Vec<f64>> = (0..n)
            .map(|i| (0..n + 1).map(|j| sc[j] * if j < n { a[i][j] } else { gl[i] }).collect())
            .collect();
        let bb: Vec<Vec<f64>> =
            (0..n).map(|i| (0..n).map(|j| b[i].iter().zip(&b[j]).map(|(p, q)| p * q).sum()).collect()).collect();
        let z = match solve_dense(&bb, &g) {
            Some(z) => z,
            None => return f64::INFINITY,
        };
        let mut s = 0.0;
        for j in 0..n + 1 {
            let y: f64 = (0..n).map(|i| b[i][j] * z[i]).sum();
            s += y * y;
        }
        (s / (n as f64 + 1.0)).sqrt()
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Backup,
    Restore,
    Prepare,
    Update { backup: bool, u0: Vec<f64>, u1: Vec<f64>, l0: f64, l1: f64, ok: bool },
    Gg { u: Vec<f64>, l: f64 },
    Jac { u: Vec<f64>, l: f64 },
    Out { u: Vec<f64>, l: f64, h: f64, acc: usize, steps: usize, rej: usize, gg: usize, jac: usize, state: f64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    GgErr,
    GgNan,
    GgInf,
    JacErr,
    JacNan,
    JacZero,
    JacScaled(f64),
    GgShift,
    UpErr,
    UpTerminate,
    OutErr,
    OutStop,
}

pub struct Args {
    pub ev: Vec<Ev>,
    pub fault: Fault,
    pub at: usize,    // index of the call of the kind concerned
    pub times: usize, // number of consecutive calls concerned
    pub n: [usize; 4],
    pub state: f64,
    pub saved: f64,
    pub hit: usize,
    pub over: bool,
}

pub const LIMIT: usize = 60_000;

impl Args {
    pub fn new(fault: Fault, at: usize, times: usize) -> Args {
        Args { ev: vec![], fault, at, times, n: [0; 4], state: 0.25, saved: f64::NAN, hit: 0, over: false }
    }
    fn now(&mut self, kind: usize, mine: bool) -> bool {
        let k = self.n[kind];
        self.n[kind] += 1;
        let hit = mine && k >= self.at && k < self.at + self.times;
        if hit {
            self.hit += 1;
        }
        if self.ev.len() > LIMIT {
            self.over = true;
        }
        hit
    }
}

pub fn state_of(u: &[f64], l: f64) -> f64 {
    u.iter().enumerate().map(|(i, x)| (i as f64 + 1.0) * x).sum::<f64>() + 7.0 * l
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub method: Method,
    pub bordering: bool,
    pub euler: bool,
    pub dir: IniDir,
    pub stop: Stop,
    pub ddl: DeltaLambda,
    pub list: usize,
    pub first: f64,
    pub secondary: bool,
    pub recording: bool,
    pub tol_res: f64,
    pub tol_abs: f64,
    pub tol_rel: f64,
    pub no_delta: bool,
    pub residuals: bool,
    pub config: Config,
}

pub struct Outcome {
    pub res: Result<Status, String>,
    pub u: Vec<f64>,
    pub l: f64,
    pub stats: Stats,
    pub a: Args,
    pub ul: Vec<Vec<f64>>, // recorded components of u, by component
    pub ll: Vec<f64>,
    pub hh: Vec<f64>,
    pub duds: Vec<Vec<f64>>,
    pub dlds: Vec<f64>,
    pub norm: Vec<f64>,
    pub predictors: (Vec<f64>, Vec<f64>, Vec<f64>),
}

impl Setup {
    pub fn new(method: Method, bordering: bool, dir: IniDir, stop: Stop, ddl: DeltaLambda) -> Setup {
        let mut s = Setup {
            method,
            bordering,
            euler: true,
            dir,
            stop,
            ddl,
            list: 0,
            first: 0.0,
            secondary: false,
            recording: true,
            tol_res: 1e-10,
            tol_abs: 1e-10,
            tol_rel: 1e-7,
            no_delta: false,
            residuals: false,
            config: Config::new(),
        };
        s.config.set_verbose_header_footer(false);
        s
    }

    pub fn apply(&mut self) {
        self.config
            .set_method(self.method)
            .set_bordering(self.bordering)
            .set_euler_predictor(self.euler)
            .set_tol_abs_residual(self.tol_res)
            .set_tol_delta(self.tol_abs, self.tol_rel)
            .set_disable_rel_delta_analysis(self.no_delta)
            .set_record_iterations_residuals(self.residuals);
    }
}

pub fn system<'a>(p: &'a Prob, s: &Setup) -> System<'a, Args> {
    let n = p.n;
    let nnz = if p.split { n * n + n } else { n * n };
    let sym = if p.sym && (s.bordering || s.method == Method::Natural) { Sym::YesFull } else { Sym::No };
    let mut sys = System::new(
        n,
        if p.split { Some(nnz) } else { None },
        sym,
        move |gg: &mut Vector, l: f64, u: &Vector, a: &mut Args| {
            let mine = matches!(a.fault, Fault::GgErr | Fault::GgNan | Fault::GgInf | Fault::GgShift);
            let hit = a.now(0, mine);
            if a.over {
                return Err("call limit");
            }
            a.ev.push(Ev::Gg { u: u.as_data().to_vec(), l });
            let g = p.gg(u.as_data(), l);
            for i in 0..n {
                gg[i] = g[i];
            }
            if hit {
                let k = a.at % n;
                match a.fault {
                    Fault::GgErr => return Err("residual fault"),
                    Fault::GgNan => gg[k] = f64::NAN,
                    Fault::GgInf => gg[k] = f64::NEG_INFINITY,
                    _ => gg[k] = 0.5 + gg[k].abs(), // never vanishes
                }
            }
            Ok(())
        },
        move |ggu, ggl: &mut Vector, l: f64, u: &Vector, a: &mut Args| {
            let mine = matches!(a.fault, Fault::JacErr | Fault::JacNan | Fault::JacZero | Fault::JacScaled(_));
            let hit = a.now(1, mine);
            a.ev.push(Ev::Jac { u: u.as_data().to_vec(), l });
            if hit && a.fault == Fault::JacErr {
                return Err("jacobian fault");
            }
            let (j, gl) = p.jac(u.as_data(), l);
            for i in 0..n {
                for k in 0..n {
                    let mut x = j[i][k];
                    if hit {
                        match a.fault {
                            Fault::JacNan => x = f64::NAN,
                            Fault::JacZero if i == a.at % n => x = 0.0,
                            Fault::JacScaled(f) => x *= f,
                            _ => (),
                        }
                    }
                    if p.split && i == k {
                        ggu.put(i, k, 0.25 * x)?;
                        ggu.put(i, k, 0.75 * x)?;
                    } else {
                        ggu.put(i, k, x)?;
                    }
                }
                ggl[i] = gl[i];
            }
            Ok(())
        },
    )
    .unwrap();
    if s.secondary {
        sys.set_backup_secondary_state(|a: &mut Args| {
            a.ev.push(Ev::Backup);
            a.saved = a.state;
        });
        sys.set_restore_secondary_state(|a: &mut Args| {
            a.ev.push(Ev::Restore);
            a.state = a.saved;
        });
        sys.set_prepare_to_iterate(|a: &mut Args| a.ev.push(Ev::Prepare));
        sys.set_update_secondary_state(|b, u0: &Vector, u1: &Vector, l0, l1, a: &mut Args| {
            let mine = matches!(a.fault, Fault::UpErr | Fault::UpTerminate);
            let hit = a.now(2, mine);
            a.state = state_of(u1.as_data(), l1);
            a.ev.push(Ev::Update { backup: b, u0: u0.as_data().to_vec(), u1: u1.as_data().to_vec(), l0, l1, ok: !hit });
            if hit && a.fault == Fault::UpErr {
                return Err("update fault");
            }
            Ok(hit)
        });
    }
    sys
}

pub fn run_with(solver: &mut Solver<Args>, p: &Prob, s: &Setup, mut a: Args, start: Option<(Vec<f64>, f64)>) -> Outcome {
    let n = p.n;
    let (u0, l0) = start.unwrap_or((p.u0.clone(), p.l0));
    let mut u = Vector::from(&u0);
    let mut l = l0;
    a.state = state_of(&u0, l0);
    let all: Vec<usize> = (0..n).collect();
    let mut out = Output::new();
    if s.recording {
        out.set_recording(true, &all, if s.method == Method::Arclength { &all } else { &[] });
        out.set_record_norm_u(true, russell_lab::Norm::Euc, 0, n);
    }
    out.set_callback(|st: &Stats, u: &Vector, l, h, a: &mut Args| {
        let mine = matches!(a.fault, Fault::OutErr | Fault::OutStop);
        let hit = a.now(3, mine);
        a.ev.push(Ev::Out {
            u: u.as_data().to_vec(),
            l,
            h,
            acc: st.n_accepted,
            steps: st.n_steps,
            rej: st.n_rejected,
            gg: st.n_function,
            jac: st.n_jacobian,
            state: a.state,
        });
        if hit && a.fault == Fault::OutErr {
            return Err("output fault");
        }
        Ok(hit)
    });
    let res = solver.solve(&mut a, &mut u, &mut l, s.dir, s.stop, &s.ddl, Some(&mut out)).map_err(|e| e.to_string());
    let rec = s.recording;
    let arc = rec && s.method == Method::Arclength;
    Outcome {
        res,
        u: u.as_data().to_vec(),
        l,
        stats: solver.get_stats().clone(),
        a,
        ul: if rec { (0..n).map(|i| out.get_u_values(i).clone()).collect() } else { vec![] },
        ll: out.get_l_values().clone(),
        hh: out.get_h_values().clone(),
        duds: if arc { (0..n).map(|i| out.get_duds_values(i).clone()).collect() } else { vec![] },
        dlds: out.get_dlds_values().clone(),
        norm: if rec { out.get_norm_u_values().clone() } else { vec![] },
        predictors: solver.get_debug_predictor_values(),
    }
}

pub fn run(p: &Prob, s: &Setup, a: Args) -> Result<Outcome, String> {
    let mut solver = Solver::new(&s.config, system(p, s)).map_err(|e| e.to_string())?;
    Ok(run_with(&mut solver, p, s, a, None))
}

/// Accepted points, the first one being the start
pub fn points(o: &Outcome) -> Vec<(Vec<f64>, f64, f64)> {
    o.a.ev
        .iter()
        .filter_map(|e| match e {
            Ev::Out { u, l, h, .. } => Some((u.clone(), *l, *h)),
            _ => None,
        })
        .collect()
}

pub fn describe(p: &Prob, s: &Setup) -> String {
    format!(
        "{:?} sym={} n={} {:?} bordering={} euler={} {:?} stop={:?} {:?} tol=({:e},{:e},{:e}) no_delta={} secondary={} nr={} n_opt={} pid={} betas=({:.3},{:.3},{:.3},{:.3},{:.3}) {:?} tg_tol={:.4} precise={} u0={:?} l0={:?}",
        p.kind,
        p.sym,
        p.n,
        s.method,
        s.bordering,
        s.euler,
        s.dir,
        s.stop,
        s.ddl,
        s.tol_res,
        s.tol_abs,
        s.tol_rel,
        s.no_delta,
        s.secondary,
        s.config.get_nr_control_enabled(),
        s.config.get_nr_control_n_opt(),
        s.config.get_tg_control_pid_vcc(),
        s.config.get_tg_control_beta1(),
        s.config.get_tg_control_beta2(),
        s.config.get_tg_control_beta3(),
        s.config.get_tg_control_alpha2(),
        s.config.get_tg_control_alpha3(),
        s.config.get_tg_control_rdiff_type(),
        s.config.get_tg_control_tol(),
        s.config.get_enable_precise_stop_u_comp(),
        p.u0,
        p.l0
    )
}

pub fn pick_kind(c: &mut Case, fold: bool) -> (Kind, bool) {
    if !fold {
        return (Kind::Mono, c.rng.bool());
    }
    (*c.rng.pick(&[Kind::Mono, Kind::Cubic, Kind::Wave, Kind::Ellipse]), false)
}
