//! Problems with known solutions and callbacks that record what the solver does

use harness::rng::Rng;
use russell_lab::Vector;
use russell_ode::{Method, System};
use russell_sparse::Sym;
use std::sync::Arc;

pub const ALL: [Method; 16] = [
    Method::Radau5,
    Method::BwEuler,
    Method::FwEuler,
    Method::Rk2,
    Method::Rk3,
    Method::Heun3,
    Method::Rk4,
    Method::Rk4alt,
    Method::MdEuler,
    Method::Merson4,
    Method::Zonneveld4,
    Method::Fehlberg4,
    Method::DoPri5,
    Method::Verner6,
    Method::Fehlberg7,
    Method::DoPri8,
];

pub const EMBEDDED: [Method; 9] = [
    Method::Radau5,
    Method::MdEuler,
    Method::Merson4,
    Method::Zonneveld4,
    Method::Fehlberg4,
    Method::DoPri5,
    Method::Verner6,
    Method::Fehlberg7,
    Method::DoPri8,
];

pub const DENSE: [Method; 3] = [Method::Radau5, Method::DoPri5, Method::DoPri8];

/// order promised by the literature (independent of the tables in the library)
pub fn order(m: Method) -> usize {
    match m {
        Method::Radau5 => 5,
        Method::BwEuler | Method::FwEuler => 1,
        Method::Rk2 | Method::MdEuler => 2,
        Method::Rk3 | Method::Heun3 => 3,
        Method::Rk4 | Method::Rk4alt | Method::Merson4 | Method::Zonneveld4 | Method::Fehlberg4 => 4,
        Method::DoPri5 => 5,
        Method::Verner6 => 6,
        Method::Fehlberg7 => 7,
        Method::DoPri8 => 8,
    }
}

pub fn stages(m: Method) -> usize {
    match m {
        Method::Radau5 => 3,
        Method::BwEuler | Method::FwEuler => 1,
        Method::Rk2 | Method::MdEuler => 2,
        Method::Rk3 => 4,
        Method::Heun3 => 3,
        Method::Rk4 | Method::Rk4alt => 4,
        Method::Merson4 | Method::Zonneveld4 => 5,
        Method::Fehlberg4 => 6,
        Method::DoPri5 => 7,
        Method::Verner6 => 8,
        Method::Fehlberg7 => 13,
        Method::DoPri8 => 12,
    }
}

/// What the callbacks saw, and the faults they inject
#[derive(Clone, Debug, Default)]
pub struct Mon {
    pub nf: usize,
    pub nj: usize,
    pub keep: bool,
    pub xs: Vec<f64>,
    /// calls (1-based) at which the function/Jacobian fails; 0 = never
    pub fail_f: usize,
    pub fail_j: usize,
    /// call (1-based) from which the function returns this value
    pub bad_f: usize,
    pub bad_value: f64,
    /// only this call (true) or all following ones (false)
    pub bad_once: bool,
    /// the run is cut off after this number of calls
    pub limit: usize,
    pub cut: bool,
    /// largest error seen at accepted steps
    pub worst: f64,
    /// accepted steps: (x, h, y)
    pub steps: Vec<(f64, f64, Vec<f64>)>,
    /// dense output: (x, h, y)
    pub dense: Vec<(f64, f64, Vec<f64>)>,
    /// step/dense callback call (1-based) that asks to stop or fails; 0 = never
    pub stop_step: usize,
    pub fail_step: usize,
    pub stop_dense: usize,
    pub fail_dense: usize,
    /// counters seen by the step callback: (steps, accepted, function evaluations reported, evaluations seen)
    pub counts: Vec<(usize, usize, usize, usize)>,
    /// the right-hand side is multiplied by one plus this number
    pub gain: f64,
}

impl Mon {
    pub fn new() -> Self {
        Mon { limit: 3_000_000, ..Default::default() }
    }
}

pub struct Prob {
    pub name: String,
    pub ndim: usize,
    pub x0: f64,
    pub f: Box<dyn Fn(&mut [f64], f64, &[f64]) + Send + Sync>,
    /// dense Jacobian df/dy
    pub jac: Box<dyn Fn(f64, &[f64]) -> Vec<Vec<f64>> + Send + Sync>,
    pub exact: Box<dyn Fn(f64) -> Vec<f64> + Send + Sync>,
    /// mass matrix
    pub mass: Option<Vec<Vec<f64>>>,
}

impl Prob {
    pub fn y0(&self) -> Vector {
        Vector::from(&(self.exact)(self.x0))
    }
    pub fn err(&self, x: f64, y: &Vector) -> f64 {
        let e = (self.exact)(x);
        let mut m = 0.0;
        for i in 0..self.ndim {
            let d = (y[i] - e[i]).abs();
            if !(d <= m) {
                m = d;
            }
        }
        m
    }
    pub fn size(&self, x: f64) -> f64 {
        (self.exact)(x).iter().fold(0.0, |m, v| f64::max(m, v.abs()))
    }
}

pub const FAIL_F: &str = "the function callback failed on purpose";
pub const FAIL_J: &str = "the Jacobian callback failed on purpose";
pub const CUT: &str = "cut off by the harness";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Jac {
    /// no callback is given
    None,
    /// all entries are put
    Dense(Sym),
    /// only the entries that may be non-zero are put
    Sparse(Sym),
}

fn wanted(sym: Sym, i: usize, j: usize) -> bool {
    match sym {
        Sym::YesLower => i >= j,
        Sym::YesUpper => i <= j,
        _ => true,
    }
}

/// pattern of the possibly non-zero entries found by sampling the Jacobian
pub fn pattern(p: &Prob) -> Vec<(usize, usize)> {
    let mut rng = Rng::new(4242);
    let mut pat = vec![vec![false; p.ndim]; p.ndim];
    for _ in 0..4 {
        let y: Vec<f64> = (0..p.ndim).map(|_| rng.f(0.3, 1.7)).collect();
        let j = (p.jac)(p.x0 + rng.unit(), &y);
        for i in 0..p.ndim {
            for k in 0..p.ndim {
                if j[i][k] != 0.0 {
                    pat[i][k] = true;
                }
            }
        }
    }
    let mut res = Vec::new();
    for i in 0..p.ndim {
        for k in 0..p.ndim {
            if pat[i][k] {
                res.push((i, k));
            }
        }
    }
    res
}

pub fn system(p: &Arc<Prob>, jac: Jac) -> System<'static, Mon> {
    let n = p.ndim;
    let q = p.clone();
    let mut sys = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, m: &mut Mon| {
        m.nf += 1;
        if m.keep {
            m.xs.push(x);
        }
        if m.nf == m.fail_f {
            return Err(FAIL_F);
        }
        if m.nf > m.limit {
            m.cut = true;
            return Err(CUT);
        }
        (q.f)(f.as_mut_data(), x, y.as_data());
        if m.gain != 0.0 {
            f.as_mut_data().iter_mut().for_each(|v| *v *= 1.0 + m.gain);
        }
        if m.bad_f > 0 && (m.nf == m.bad_f || (!m.bad_once && m.nf > m.bad_f)) {
            let k = m.nf % f.dim();
            f[k] = m.bad_value;
        }
        Ok(())
    });
    match jac {
        Jac::None => (),
        Jac::Dense(sym) => {
            let q = p.clone();
            sys.set_jacobian(None, sym, move |jj, alpha, x, y, m: &mut Mon| {
                m.nj += 1;
                if m.nj == m.fail_j {
                    return Err(FAIL_J);
                }
                let a = (q.jac)(x, y.as_data());
                jj.reset();
                for i in 0..q.ndim {
                    for j in 0..q.ndim {
                        if wanted(sym, i, j) {
                            jj.put(i, j, alpha * a[i][j] * (1.0 + m.gain))?;
                        }
                    }
                }
                Ok(())
            })
            .unwrap();
        }
        Jac::Sparse(sym) => {
            let pat: Vec<(usize, usize)> = pattern(p).into_iter().filter(|(i, j)| wanted(sym, *i, *j)).collect();
            let q = p.clone();
            sys.set_jacobian(Some(pat.len().max(1)), sym, move |jj, alpha, x, y, m: &mut Mon| {
                m.nj += 1;
                if m.nj == m.fail_j {
                    return Err(FAIL_J);
                }
                let a = (q.jac)(x, y.as_data());
                jj.reset();
                for (i, j) in pat.iter() {
                    jj.put(*i, *j, alpha * a[*i][*j] * (1.0 + m.gain))?;
                }
                if pat.len() == 0 {
                    jj.put(0, 0, 0.0)?;
                }
                Ok(())
            })
            .unwrap();
        }
    }
    if let Some(mass) = p.mass.as_ref() {
        let sym = match jac {
            Jac::Dense(s) | Jac::Sparse(s) => s,
            Jac::None => Sym::No,
        };
        let mut ent = Vec::new();
        for i in 0..n {
            for j in 0..n {
                if wanted(sym, i, j) && mass[i][j] != 0.0 {
                    ent.push((i, j, mass[i][j]));
                }
            }
        }
        sys.set_mass(Some(ent.len()), sym, move |mm| {
            mm.reset();
            for (i, j, v) in ent.iter() {
                mm.put(*i, *j, *v).unwrap();
            }
        })
        .unwrap();
    }
    sys
}

pub fn unit_matrix(n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}

pub fn matmul(a: &[Vec<f64>], b: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let (m, k, n) = (a.len(), b.len(), b[0].len());
    let mut c = vec![vec![0.0; n]; m];
    for i in 0..m {
        for l in 0..k {
            for j in 0..n {
                c[i][j] += a[i][l] * b[l][j];
            }
        }
    }
    c
}

pub fn transpose(a: &[Vec<f64>]) -> Vec<Vec<f64>> {
    (0..a[0].len()).map(|j| (0..a.len()).map(|i| a[i][j]).collect()).collect()
}

pub fn matvec(a: &[Vec<f64>], x: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(x.iter()).map(|(p, q)| p * q).sum()).collect()
}

/// random orthogonal matrix (product of Householder reflections)
pub fn orthogonal(rng: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let mut q = unit_matrix(n);
    for _ in 0..2 {
        let v: Vec<f64> = (0..n).map(|_| rng.normal()).collect();
        let s: f64 = v.iter().map(|x| x * x).sum();
        if s < 1e-3 {
            continue;
        }
        let mut h = unit_matrix(n);
        for i in 0..n {
            for j in 0..n {
                h[i][j] -= 2.0 * v[i] * v[j] / s;
            }
        }
        q = matmul(&q, &h);
    }
    q
}

/// Blocks with closed-form solutions
#[derive(Clone, Copy, Debug)]
pub enum Block {
    Logistic(f64, f64),
    Cubic(f64, f64),
    CosLin(f64, f64),
    Circle(f64, f64, f64),
    Spiral(f64, f64, f64, f64),
    Follow(f64, f64, f64),
}

impl Block {
    pub fn dim(&self) -> usize {
        match self {
            Block::Circle(..) | Block::Spiral(..) => 2,
            _ => 1,
        }
    }
    pub fn f(&self, r: &mut [f64], x: f64, y: &[f64]) {
        match *self {
            Block::Logistic(k, _) => r[0] = k * y[0] * (1.0 - y[0]),
            Block::Cubic(k, _) => r[0] = -0.5 * k * y[0] * y[0] * y[0],
            Block::CosLin(w, _) => r[0] = w * (w * x).cos() * y[0],
            Block::Circle(w, ..) => {
                let s = w * (y[0] * y[0] + y[1] * y[1]);
                r[0] = -s * y[1];
                r[1] = s * y[0];
            }
            Block::Spiral(a, b, ..) => {
                r[0] = -a * y[0] - b * y[1];
                r[1] = b * y[0] - a * y[1];
            }
            Block::Follow(k, w, p) => {
                let u = y[0] - (w * x + p).sin();
                r[0] = -k * (u + 0.3 * u * u * u) + w * (w * x + p).cos();
            }
        }
    }
    pub fn jac(&self, x: f64, y: &[f64]) -> Vec<Vec<f64>> {
        match *self {
            Block::Logistic(k, _) => vec![vec![k * (1.0 - 2.0 * y[0])]],
            Block::Cubic(k, _) => vec![vec![-1.5 * k * y[0] * y[0]]],
            Block::CosLin(w, _) => vec![vec![w * (w * x).cos()]],
            Block::Circle(w, ..) => {
                let s = w * (y[0] * y[0] + y[1] * y[1]);
                vec![
                    vec![-2.0 * w * y[0] * y[1], -s - 2.0 * w * y[1] * y[1]],
                    vec![s + 2.0 * w * y[0] * y[0], 2.0 * w * y[0] * y[1]],
                ]
            }
            Block::Spiral(a, b, ..) => vec![vec![-a, -b], vec![b, -a]],
            Block::Follow(k, w, p) => {
                let u = y[0] - (w * x + p).sin();
                vec![vec![-k * (1.0 + 0.9 * u * u)]]
            }
        }
    }
    pub fn exact(&self, x0: f64, x: f64) -> Vec<f64> {
        let t = x - x0;
        match *self {
            Block::Logistic(k, y0) => vec![1.0 / (1.0 + (1.0 / y0 - 1.0) * (-k * t).exp())],
            Block::Cubic(k, y0) => vec![y0 / (1.0 + k * y0 * y0 * t).sqrt()],
            Block::CosLin(w, y0) => vec![y0 * ((w * x).sin() - (w * x0).sin()).exp()],
            Block::Circle(w, r, p) => {
                let a = p + w * r * r * t;
                vec![r * a.cos(), r * a.sin()]
            }
            Block::Spiral(a, b, u, v) => {
                let (s, c) = (b * t).sin_cos();
                let e = (-a * t).exp();
                vec![e * (c * u - s * v), e * (s * u + c * v)]
            }
            Block::Follow(_, w, p) => vec![(w * x + p).sin()],
        }
    }
}

pub fn block(rng: &mut Rng) -> Block {
    match rng.int(0, 5) {
        0 => Block::Logistic(rng.f(0.5, 3.0), rng.f(0.1, 0.9)),
        1 => Block::Cubic(rng.f(0.5, 3.0), rng.f(0.3, 1.5)),
        2 => Block::CosLin(rng.f(0.5, 2.0), rng.f(0.3, 1.5)),
        3 => Block::Circle(rng.f(0.5, 2.0), rng.f(0.6, 1.2), rng.f(0.0, 6.0)),
        4 => Block::Spiral(rng.f(0.0, 1.0), rng.f(0.5, 3.0), rng.f(0.4, 1.5), rng.f(0.4, 1.5)),
        _ => Block::Follow(rng.f(0.5, 4.0), rng.f(0.5, 2.0), rng.f(0.0, 6.0)),
    }
}

/// Smooth non-stiff problem (possibly coupled by an orthogonal change of variables)
pub fn smooth(rng: &mut Rng) -> Prob {
    let nb = if rng.chance(0.01) { rng.int(4, 12) } else { rng.int(1, 3) };
    let blocks: Vec<Block> = (0..nb).map(|_| block(rng)).collect();
    let x0 = if rng.bool() { 0.0 } else { rng.f(-5.0, 5.0) };
    let couple = rng.bool();
    smooth_from(rng, blocks, x0, couple)
}

pub fn smooth_from(rng: &mut Rng, blocks: Vec<Block>, x0: f64, couple: bool) -> Prob {
    let n: usize = blocks.iter().map(|b| b.dim()).sum();
    let q = if couple { orthogonal(rng, n) } else { unit_matrix(n) };
    let qt = transpose(&q);
    let name = format!("{:?} coupled={} x0={}", blocks, couple, x0);
    // u = Q y
    let (b1, q1, qt1) = (blocks.clone(), q.clone(), qt.clone());
    let (b2, q2, qt2) = (blocks.clone(), q.clone(), qt.clone());
    let (b3, q3) = (blocks, q);
    Prob {
        name,
        ndim: n,
        x0,
        mass: None,
        f: Box::new(move |r, x, u| {
            let y = matvec(&qt1, u);
            let mut g = vec![0.0; y.len()];
            let mut k = 0;
            for b in b1.iter() {
                let d = b.dim();
                b.f(&mut g[k..k + d], x, &y[k..k + d]);
                k += d;
            }
            r.copy_from_slice(&matvec(&q1, &g));
        }),
        jac: Box::new(move |x, u| {
            let y = matvec(&qt2, u);
            let n = y.len();
            let mut j = vec![vec![0.0; n]; n];
            let mut k = 0;
            for b in b2.iter() {
                let d = b.dim();
                let jb = b.jac(x, &y[k..k + d]);
                for p in 0..d {
                    for s in 0..d {
                        j[k + p][k + s] = jb[p][s];
                    }
                }
                k += d;
            }
            matmul(&matmul(&q2, &j), &qt2)
        }),
        exact: Box::new(move |x| {
            let mut y = Vec::new();
            for b in b3.iter() {
                y.extend(b.exact(x0, x));
            }
            matvec(&q3, &y)
        }),
    }
}

// ------------------------------------------------------------------------------------------------------------
// systems whose solutions are polynomials: one component per vertex of a rooted tree

/// Rooted tree given by the parent of each vertex (parents come first; vertex 0 is the root)
pub type Tree = Vec<usize>;

/// all rooted trees with n vertices (level sequences of Beyer and Hedetniemi)
pub fn trees(n: usize) -> Vec<Tree> {
    let mut res = Vec::new();
    let mut l: Vec<usize> = (1..=n).collect();
    loop {
        // parents from levels
        let mut par = vec![0; n];
        for i in 1..n {
            par[i] = (0..i).rev().find(|j| l[*j] + 1 == l[i]).unwrap();
        }
        res.push(par);
        // successor
        let p = match (1..n).rev().find(|i| l[*i] > 2) {
            Some(p) => p,
            None => break,
        };
        let q = (0..p).rev().find(|i| l[*i] + 1 == l[p]).unwrap();
        for i in p..n {
            l[i] = l[i - (p - q)];
        }
    }
    res
}

fn poly_mul(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut c = vec![0.0; a.len() + b.len() - 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            c[i + j] += a[i] * b[j];
        }
    }
    c
}

/// y_v' = product of the children of v (a leaf has y' = 1); leaves may be replaced by x - x0 itself
pub fn tree_prob(tree: &Tree, leaf_x: bool, x0: f64, y0: &[f64]) -> Prob {
    let n = tree.len();
    let children: Vec<Vec<usize>> = (0..n).map(|v| (1..n).filter(|c| tree[*c] == v).collect()).collect();
    // solution polynomials in t = x - x0
    let mut sol: Vec<Vec<f64>> = vec![Vec::new(); n];
    for v in (0..n).rev() {
        if leaf_x && children[v].len() == 0 {
            sol[v] = vec![0.0, 1.0];
            continue;
        }
        let mut p = vec![1.0];
        for c in children[v].iter() {
            p = poly_mul(&p, &sol[*c]);
        }
        let mut s = vec![y0[v]];
        for (k, a) in p.iter().enumerate() {
            s.push(a / (k as f64 + 1.0));
        }
        sol[v] = s;
    }
    let (c1, c2) = (children.clone(), children);
    Prob {
        name: format!("tree {:?} leaf_x={} x0={}", tree, leaf_x, x0),
        ndim: n,
        x0,
        mass: None,
        f: Box::new(move |r, x, y| {
            for v in 0..n {
                r[v] = 1.0;
                for c in c1[v].iter() {
                    r[v] *= if leaf_x && c1[*c].len() == 0 { x - x0 } else { y[*c] };
                }
            }
        }),
        jac: Box::new(move |x, y| {
            let mut j = vec![vec![0.0; n]; n];
            for v in 0..n {
                for c in c2[v].iter() {
                    if leaf_x && c2[*c].len() == 0 {
                        continue;
                    }
                    let mut p = 1.0;
                    for d in c2[v].iter() {
                        if d != c {
                            p *= if leaf_x && c2[*d].len() == 0 { x - x0 } else { y[*d] };
                        }
                    }
                    j[v][*c] = p;
                }
            }
            j
        }),
        exact: Box::new(move |x| {
            let t = x - x0;
            sol.iter().map(|s| s.iter().rev().fold(0.0, |acc, a| acc * t + a)).collect()
        }),
    }
}

/// Problems whose solution has steep fronts, so that steps are rejected
pub fn fronts(rng: &mut Rng) -> Prob {
    let n = rng.int(1, 3);
    let x0 = *rng.pick(&[0.0, 0.0, 1.0, -3.0, 100.0]);
    let k: Vec<f64> = (0..n).map(|_| rng.f(0.5, 3.0)).collect();
    let s: Vec<f64> = (0..n).map(|_| rng.f(5.0, 60.0)).collect();
    let c: Vec<f64> = (0..n).map(|_| x0 + rng.f(0.2, 1.8)).collect();
    let name = format!("fronts k={:?} s={:?} c={:?} x0={}", k, s, c, x0);
    let (k1, s1, c1) = (k.clone(), s.clone(), c.clone());
    Prob {
        name,
        ndim: n,
        x0,
        mass: None,
        f: Box::new(move |r, x, y| {
            for i in 0..n {
                let g = (s1[i] * (x - c1[i])).tanh();
                r[i] = -k1[i] * (y[i] - g) + s1[i] * (1.0 - g * g);
            }
        }),
        jac: Box::new(move |_, _| (0..n).map(|i| (0..n).map(|j| if i == j { -k[i] } else { 0.0 }).collect()).collect()),
        exact: Box::new(move |x| (0..n).map(|i| (s[i] * (x - c[i])).tanh()).collect()),
    }
}

/// The oscillator of van der Pol (no closed-form solution)
pub fn van_der_pol(rng: &mut Rng) -> Prob {
    let mu = rng.f(2.0, 12.0);
    let y0 = vec![rng.f(1.0, 2.0), rng.f(-0.5, 0.5)];
    let x0 = *rng.pick(&[0.0, 0.0, 0.1, 1e4, -1e6]);
    Prob {
        name: format!("van der Pol mu={} y0={:?} x0={}", mu, y0, x0),
        ndim: 2,
        x0,
        mass: None,
        f: Box::new(move |r, _, y| {
            r[0] = y[1];
            r[1] = mu * (1.0 - y[0] * y[0]) * y[1] - y[0];
        }),
        jac: Box::new(move |_, y| vec![vec![0.0, 1.0], vec![-2.0 * mu * y[0] * y[1] - 1.0, mu * (1.0 - y[0] * y[0])]]),
        exact: Box::new(move |_| y0.clone()),
    }
}

pub fn any_prob(rng: &mut Rng) -> Prob {
    match rng.int(0, 3) {
        0 => van_der_pol(rng),
        1 => fronts(rng),
        _ => smooth(rng),
    }
}

/// modes of stiff problems in the decoupled variables
#[derive(Clone, Copy, Debug)]
pub enum Mode {
    /// w' = -l w - k w^3
    Decay(f64, f64),
    /// first of a pair: w' = -(a w + b v), v' = -(a v - b w)
    Turn(f64, f64),
    /// second of a pair
    Second,
    /// 0 = -l (w - s u^2), with u being the first variable
    Algebraic(f64, f64),
}

/// M y' = f(x, y) with w = R (y - g(x)) obeying the decoupled modes; M = L diag(m) R
pub struct Stiff {
    pub prob: Prob,
    pub symmetric: bool,
    /// product of the norms of the transformation and its inverse
    pub cond: f64,
    /// fastest rate
    pub rate: f64,
    /// modes that have not decayed at x0
    pub transient: bool,
    pub linear: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MassKind {
    None,
    Regular,
    Singular,
}

pub fn stiff(rng: &mut Rng, kind: MassKind, max_rate: f64) -> Stiff {
    let n = rng.int(if kind == MassKind::Singular { 2 } else { 1 }, 5);
    let symmetric = rng.chance(0.4);
    let linear = symmetric || rng.bool();
    let mut modes = Vec::new();
    let top = max_rate.log10();
    while modes.len() < n {
        // nonlinear terms go with slow modes: the iterations on fast ones are judged by their linear convergence
        let top = if modes.len() == 0 && !linear { 0.7 } else { top };
        let rate = 10f64.powf(rng.f(-1.0, top));
        let last = modes.len() + 1 == n;
        if kind == MassKind::Singular && modes.len() > 0 && (rng.chance(0.5) || (last && !modes.iter().any(|m| matches!(m, Mode::Algebraic(..))))) {
            let slow = matches!(modes[0], Mode::Decay(r, _) if r < 5.0);
            let s = if linear || !slow { 0.0 } else { rng.f(-1.0, 1.0) };
            modes.push(Mode::Algebraic(10f64.powf(rng.f(-1.0, 2.0)), s));
        } else if !symmetric && !last && modes.len() > 0 && rng.chance(0.3) {
            modes.push(Mode::Turn(rate, rate.min(20.0) * rng.f(-1.0, 1.0)));
            modes.push(Mode::Second);
        } else {
            modes.push(Mode::Decay(rate, if linear || rate > 5.0 { 0.0 } else { rng.f(0.0, 1.0) }));
        }
    }
    if kind == MassKind::Singular && !modes.iter().any(|m| matches!(m, Mode::Algebraic(..))) {
        modes.push(Mode::Algebraic(1.0, 0.0));
    }
    let n = modes.len();
    // the transformations
    let plain = rng.chance(0.2);
    let (r, ri, cond);
    if plain {
        r = unit_matrix(n);
        ri = unit_matrix(n);
        cond = 1.0;
    } else {
        let (q1, q2) = (orthogonal(rng, n), orthogonal(rng, n));
        let d: Vec<f64> = (0..n).map(|_| if symmetric && kind == MassKind::None { 1.0 } else { rng.f(0.5, 2.0) }).collect();
        let mut a = q2.clone();
        let mut b = transpose(&q1);
        for i in 0..n {
            for j in 0..n {
                a[i][j] *= d[i];
                b[i][j] /= d[i];
            }
        }
        r = matmul(&q1, &a);
        ri = matmul(&transpose(&q2), &b);
        cond = 4.0;
    }
    let l = if kind == MassKind::None {
        ri.clone()
    } else if symmetric {
        transpose(&r)
    } else {
        let mut a = orthogonal(rng, n);
        for i in 0..n {
            let s = rng.f(0.5, 2.0);
            for j in 0..n {
                a[i][j] *= s;
            }
        }
        a
    };
    // the mass matrix
    let mut mr = r.clone();
    for i in 0..n {
        if matches!(modes[i], Mode::Algebraic(..)) {
            for j in 0..n {
                mr[i][j] = 0.0;
            }
        }
    }
    let mut mass = matmul(&l, &mr);
    if symmetric {
        for i in 0..n {
            for j in 0..i {
                mass[i][j] = mass[j][i];
            }
        }
    }
    // the smooth solution
    let x0 = *rng.pick(&[0.0, 0.0, 1.0, -2.0]);
    let amp: Vec<f64> = (0..n).map(|_| rng.f(-1.0, 1.0)).collect();
    let om: Vec<f64> = (0..n).map(|_| rng.f(0.5, 2.0)).collect();
    let ph: Vec<f64> = (0..n).map(|_| rng.f(0.0, 6.0)).collect();
    let transient = rng.chance(0.5);
    let mut w0: Vec<f64> = (0..n).map(|_| if transient { rng.f(-1.0, 1.0) } else { 0.0 }).collect();
    for i in 0..n {
        if let Mode::Algebraic(_, s) = modes[i] {
            w0[i] = s * w0[0] * w0[0];
        }
    }
    let rate = modes.iter().fold(0.0, |m, d| match d {
        Mode::Decay(a, k) => f64::max(m, a + 3.0 * k),
        Mode::Turn(a, b) => f64::max(m, a.abs() + b.abs()),
        _ => m,
    });
    let name = format!("stiff {:?} symmetric={} plain={} modes={:?} w0={:?} x0={} amp={:?}", kind, symmetric, plain, modes, w0, x0, amp);
    let g = {
        let (amp, om, ph) = (amp.clone(), om.clone(), ph.clone());
        move |x: f64| -> Vec<f64> { (0..n).map(|i| amp[i] * (om[i] * x + ph[i]).sin()).collect() }
    };
    let dg = {
        let (amp, om, ph) = (amp.clone(), om.clone(), ph.clone());
        move |x: f64| -> Vec<f64> { (0..n).map(|i| amp[i] * om[i] * (om[i] * x + ph[i]).cos()).collect() }
    };
    let (g1, dg1, l1, r1, mr1, mo1) = (g.clone(), dg, l.clone(), r.clone(), mr.clone(), modes.clone());
    let (g2, l2, r2, mo2) = (g.clone(), l.clone(), r.clone(), modes.clone());
    let (g3, ri3, mo3) = (g, ri, modes.clone());
    Stiff {
        symmetric,
        cond,
        rate,
        transient,
        linear,
        prob: Prob {
            name,
            ndim: n,
            x0,
            f: Box::new(move |res, x, y| {
                let gg = g1(x);
                let d: Vec<f64> = (0..n).map(|i| y[i] - gg[i]).collect();
                let w = matvec(&r1, &d);
                let mut q = matvec(&mr1, &dg1(x));
                for i in 0..n {
                    q[i] -= match mo1[i] {
                        Mode::Decay(l, k) => l * w[i] + k * w[i] * w[i] * w[i],
                        Mode::Turn(a, b) => a * w[i] + b * w[i + 1],
                        Mode::Second => match mo1[i - 1] {
                            Mode::Turn(a, b) => a * w[i] - b * w[i - 1],
                            _ => 0.0,
                        },
                        Mode::Algebraic(l, s) => l * (w[i] - s * w[0] * w[0]),
                    };
                }
                res.copy_from_slice(&matvec(&l1, &q));
            }),
            jac: Box::new(move |x, y| {
                let gg = g2(x);
                let d: Vec<f64> = (0..n).map(|i| y[i] - gg[i]).collect();
                let w = matvec(&r2, &d);
                let mut a = vec![vec![0.0; n]; n];
                for i in 0..n {
                    match mo2[i] {
                        Mode::Decay(l, k) => a[i][i] = -l - 3.0 * k * w[i] * w[i],
                        Mode::Turn(p, q) => {
                            a[i][i] = -p;
                            a[i][i + 1] = -q;
                            a[i + 1][i + 1] = -p;
                            a[i + 1][i] = q;
                        }
                        Mode::Second => (),
                        Mode::Algebraic(l, s) => {
                            a[i][i] = -l;
                            a[i][0] += 2.0 * l * s * w[0];
                        }
                    }
                }
                let mut j = matmul(&matmul(&l2, &a), &r2);
                if symmetric {
                    for p in 0..n {
                        for q in 0..p {
                            j[p][q] = j[q][p];
                        }
                    }
                }
                j
            }),
            exact: Box::new(move |x| {
                let t = x - x0;
                let mut w = vec![0.0; n];
                for i in 0..n {
                    match mo3[i] {
                        Mode::Decay(l, k) => {
                            if w0[i] != 0.0 {
                                let e = (-2.0 * l * t).exp();
                                let den = (1.0 / (w0[i] * w0[i]) + k / l) - k / l * e;
                                w[i] = w0[i].signum() * (e / den).sqrt();
                            }
                        }
                        Mode::Turn(a, b) => {
                            let e = (-a * t).exp();
                            let (s, c) = (b * t).sin_cos();
                            w[i] = e * (c * w0[i] - s * w0[i + 1]);
                            w[i + 1] = e * (s * w0[i] + c * w0[i + 1]);
                        }
                        Mode::Second => (),
                        Mode::Algebraic(_, s) => w[i] = s * w[0] * w[0],
                    }
                }
                let mut y = matvec(&ri3, &w);
                let gg = g3(x);
                for i in 0..n {
                    y[i] += gg[i];
                }
                y
            }),
            mass: if kind == MassKind::None { None } else { Some(mass) },
        },
    }
}

/// Heat conduction along a bar: finite differences (lumped) or linear elements (consistent mass)
pub fn bar(rng: &mut Rng, with_mass: bool) -> Stiff {
    let n = rng.int(3, 25);
    let kappa = 10f64.powf(rng.f(-2.0, 1.0));
    let h = 1.0 / (n as f64 + 1.0);
    let ks = kappa / h;
    let (m0, m1) = if with_mass { (2.0 * h / 3.0, h / 6.0) } else { (1.0, 0.0) };
    let ks = if with_mass { ks } else { ks / h };
    let x0 = *rng.pick(&[0.0, 1.0]);
    let nm = rng.int(1, 3);
    let ms: Vec<(f64, f64)> = (0..nm).map(|_| (rng.int(1, n) as f64, rng.f(-1.0, 1.0))).collect();
    let name = format!("bar n={} kappa={} mass={} x0={} modes={:?}", n, kappa, with_mass, x0, ms);
    let pi = std::f64::consts::PI;
    let mut mass = vec![vec![0.0; n]; n];
    for i in 0..n {
        mass[i][i] = m0;
        if i > 0 {
            mass[i][i - 1] = m1;
            mass[i - 1][i] = m1;
        }
    }
    Stiff {
        symmetric: true,
        cond: 1.0,
        rate: 4.0 * ks / (m0 - 2.0 * m1),
        transient: true,
        linear: true,
        prob: Prob {
            name,
            ndim: n,
            x0,
            f: Box::new(move |r, _, y| {
                for i in 0..n {
                    let a = if i > 0 { y[i - 1] } else { 0.0 };
                    let b = if i + 1 < n { y[i + 1] } else { 0.0 };
                    r[i] = ks * (a - 2.0 * y[i] + b);
                }
            }),
            jac: Box::new(move |_, _| {
                let mut a = vec![vec![0.0; n]; n];
                for i in 0..n {
                    a[i][i] = -2.0 * ks;
                    if i > 0 {
                        a[i][i - 1] = ks;
                        a[i - 1][i] = ks;
                    }
                }
                a
            }),
            exact: Box::new(move |x| {
                let mut y = vec![0.0; n];
                for (k, amp) in ms.iter() {
                    let c = (k * pi * h).cos();
                    let mu = ks * (2.0 - 2.0 * c) / (m0 + 2.0 * m1 * c);
                    let e = amp * (-mu * (x - x0)).exp();
                    for i in 0..n {
                        y[i] += e * (k * pi * h * (i as f64 + 1.0)).sin();
                    }
                }
                y
            }),
            mass: if with_mass { Some(mass) } else { None },
        },
    }
}

/// The problem of Kaps: y0 = exp(-2 t), y1 = exp(-t) whatever the stiffness
pub fn kaps(rng: &mut Rng, as_dae: bool) -> Stiff {
    let x0 = *rng.pick(&[0.0, 2.0]);
    let eps = if as_dae { 0.0 } else { 10f64.powf(rng.f(-6.0, 0.0)) };
    // eps y0' = -(1 + 2 eps) y0 + y1^2
    let s = if as_dae { 1.0 } else { 1.0 / eps };
    Stiff {
        symmetric: false,
        cond: 1.0,
        rate: s,
        transient: false,
        linear: false,
        prob: Prob {
            name: format!("kaps eps={} x0={}", eps, x0),
            ndim: 2,
            x0,
            f: Box::new(move |r, _, y| {
                r[0] = if as_dae { -y[0] + y[1] * y[1] } else { -(s + 2.0) * y[0] + s * y[1] * y[1] };
                r[1] = y[0] - y[1] - y[1] * y[1];
            }),
            jac: Box::new(move |_, y| vec![vec![if as_dae { -1.0 } else { -(s + 2.0) }, 2.0 * s * y[1]], vec![1.0, -1.0 - 2.0 * y[1]]]),
            exact: Box::new(move |x| {
                let e = (-(x - x0)).exp();
                vec![e * e, e]
            }),
            mass: if as_dae { Some(vec![vec![0.0, 0.0], vec![0.0, 1.0]]) } else { None },
        },
    }
}

pub fn any_stiff(rng: &mut Rng) -> Stiff {
    match rng.int(0, 9) {
        0 => bar(rng, false),
        1 => bar(rng, true),
        2 => kaps(rng, false),
        3 => kaps(rng, true),
        4 | 5 => stiff(rng, MassKind::None, 1e6),
        6 | 7 => stiff(rng, MassKind::Regular, 1e6),
        _ => stiff(rng, MassKind::Singular, 1e4),
    }
}
