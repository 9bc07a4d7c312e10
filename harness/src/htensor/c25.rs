use crate::c24::{nrm, sample};
use crate::full::*;
use harness::{Case, Ctx, EPS};
use russell_tensor::*;

/// Number carrying two independent infinitesimals: exact first and second directional derivatives
#[derive(Clone, Copy)]
struct H {
    v: f64,
    a: f64,
    b: f64,
    ab: f64,
}
impl H {
    fn c(v: f64) -> H {
        H { v, a: 0.0, b: 0.0, ab: 0.0 }
    }
    fn map(self, f: f64, d: f64, dd: f64) -> H {
        H { v: f, a: d * self.a, b: d * self.b, ab: d * self.ab + dd * self.a * self.b }
    }
    fn sqrt(self) -> H {
        let s = self.v.sqrt();
        self.map(s, 0.5 / s, -0.25 / (s * self.v))
    }
    fn pow_m15(self) -> H {
        let p = self.v.powf(-1.5);
        self.map(p, -1.5 * p / self.v, 3.75 * p / (self.v * self.v))
    }
    fn inv(self) -> H {
        let p = 1.0 / self.v;
        self.map(p, -p * p, 2.0 * p * p * p)
    }
}
impl std::ops::Add for H {
    type Output = H;
    fn add(self, o: H) -> H {
        H { v: self.v + o.v, a: self.a + o.a, b: self.b + o.b, ab: self.ab + o.ab }
    }
}
impl std::ops::Sub for H {
    type Output = H;
    fn sub(self, o: H) -> H {
        H { v: self.v - o.v, a: self.a - o.a, b: self.b - o.b, ab: self.ab - o.ab }
    }
}
impl std::ops::Mul for H {
    type Output = H;
    fn mul(self, o: H) -> H {
        H {
            v: self.v * o.v,
            a: self.a * o.v + self.v * o.a,
            b: self.b * o.v + self.v * o.b,
            ab: self.ab * o.v + self.a * o.b + self.b * o.a + self.v * o.ab,
        }
    }
}
impl std::ops::Mul<f64> for H {
    type Output = H;
    fn mul(self, o: f64) -> H {
        self * H::c(o)
    }
}
type HM = [[H; 3]; 3];

fn hmat(a: &A2, e: &A2, f: &A2) -> HM {
    let mut m = [[H::c(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = H { v: a[i][j], a: e[i][j], b: f[i][j], ab: 0.0 };
        }
    }
    m
}
fn htr(m: &HM) -> H {
    m[0][0] + m[1][1] + m[2][2]
}
fn hdev(m: &HM) -> HM {
    let mut d = *m;
    for i in 0..3 {
        let (p, q) = ((i + 1) % 3, (i + 2) % 3);
        d[i][i] = ((m[i][i] - m[p][p]) + (m[i][i] - m[q][q])) * (1.0 / 3.0);
    }
    d
}
fn hdet(m: &HM) -> H {
    let mut s = H::c(0.0);
    for i in 0..3 {
        s = s + m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]);
    }
    s
}
fn hnorm(m: &HM) -> H {
    let mut s = H::c(0.0);
    for i in 0..3 {
        for j in 0..3 {
            s = s + m[i][j] * m[i][j];
        }
    }
    s.sqrt()
}
fn hj2(m: &HM) -> H {
    let d = hdev(m);
    let mut s = H::c(0.0);
    for i in 0..3 {
        for j in 0..3 {
            s = s + d[i][j] * d[j][i];
        }
    }
    s * 0.5
}
fn hj3(m: &HM) -> H {
    hdet(&hdev(m))
}
fn hlode(m: &HM) -> H {
    hj3(m) * hj2(m).pow_m15() * (1.5 * 3.0_f64.sqrt())
}

/// gradient of a function as a Cartesian array, assembled from directional derivatives along the storage basis
fn grad(f: &dyn Fn(&HM) -> H, a: &A2, dim: usize) -> A2 {
    let z = [[0.0; 3]; 3];
    let mut g = z;
    for m in 0..dim {
        let e = basis(m);
        let d = f(&hmat(a, &e, &z)).a;
        g = f2(|i, j| g[i][j] + d * e[i][j]);
    }
    g
}
fn hess(f: &dyn Fn(&HM) -> H, a: &A2) -> A4 {
    let mut h = [[[[0.0; 3]; 3]; 3]; 3];
    for m in 0..6 {
        let e = basis(m);
        for n in 0..6 {
            let g = basis(n);
            let d = f(&hmat(a, &e, &g)).ab;
            h = f4(|i, j, k, l| h[i][j][k][l] + d * e[i][j] * g[k][l]);
        }
    }
    h
}

struct Work {
    j3: AuxDeriv2InvariantJ3,
    st: AuxDeriv2InvariantSigmaT,
    lode: AuxDeriv2InvariantLode,
}

fn near(c: &mut Case, what: &'static str, got: &A2, want: &A2, tol: f64) {
    for i in 0..3 {
        for j in 0..3 {
            let e = (got[i][j] - want[i][j]).abs();
            if !c.check(e <= tol, || format!("{} ({},{}): got {:?} want {:?} tol {:e}", what, i, j, got[i][j], want[i][j], tol)) {
                return;
            }
            c.max("worst first-derivative error / tolerance", e / tol);
        }
    }
}
fn near4(c: &mut Case, what: &'static str, got: &A4, want: &A4, tol: f64) {
    for p in 0..81 {
        let (i, j, k, l) = (p / 27, (p / 9) % 3, (p / 3) % 3, p % 3);
        let (x, y) = (got[i][j][k][l], want[i][j][k][l]);
        let e = (x - y).abs();
        if !c.check(e <= tol, || format!("{} ({},{},{},{}): got {:?} want {:?} tol {:e}", what, i, j, k, l, x, y, tol)) {
            return;
        }
        c.max("worst second-derivative error / tolerance", e / tol);
    }
}

fn invariants(c: &mut Case) {
    let mut w = Work { j3: AuxDeriv2InvariantJ3::new(), st: AuxDeriv2InvariantSigmaT::new(), lode: AuxDeriv2InvariantLode::new() };
    let rounds = c.rng.int(1, 4);
    for _ in 0..rounds {
        let rp = *c.rng.pick(&REPS);
        let (a, kind) = sample(c, rp);
        c.input(format!("derivatives {:?} {} {:?}", rp, kind, a));
        let t = match c.ok("from_std_matrix", Tensor2::from_std_matrix(&a, rp)) {
            Some(t) => t,
            None => return,
        };
        let (n, dim) = (nrm(&a), rp.dim());
        let z = [[0.0; 3]; 3];
        let mut d = d2(&mut c.rng, rp);
        match deriv1_norm(&mut d, &t) {
            None => {
                c.check(n == 0.0, || format!("derivative of the norm refused at norm {:e}", n));
                c.count("unavailable derivatives");
            }
            Some(v) => {
                if c.check(n > 0.0, || "derivative of the norm at zero".to_string()) {
                    c.check((v - n).abs() <= 20.0 * EPS * n, || format!("returned norm {} want {}", v, n));
                    near(c, "d norm", &r2(&d), &grad(&hnorm, &a, dim), 40.0 * EPS);
                    c.count("norm derivatives");
                }
            }
        }
        let mut d = d2(&mut c.rng, rp);
        deriv1_invariant_sigma_s(&mut d, &t);
        near(c, "d sigma_s", &r2(&d), &f2(|i, j| dl(i, j) / 3.0_f64.sqrt()), 8.0 * EPS);
        let mut d = d2(&mut c.rng, rp);
        deriv1_invariant_p(&mut d, &t);
        near(c, "d p", &r2(&d), &f2(|i, j| dl(i, j) / 3.0), 8.0 * EPS);
        if rp == Rep::General {
            c.count("general storage");
            continue;
        }
        c.count(if rp == Rep::Symmetric { "symmetric storage" } else { "plane storage" });
        let mut d = d2(&mut c.rng, rp);
        deriv1_invariant_jj2(&mut d, &t);
        near(c, "d J2", &r2(&d), &grad(&hj2, &a, dim), 40.0 * EPS * n + 1e-300);
        let mut d = d2(&mut c.rng, rp);
        let mut s = d2(&mut c.rng, rp);
        deriv1_invariant_jj3(&mut d, &mut s, &t);
        near(c, "d J3", &r2(&d), &grad(&hj3, &a, dim), 80.0 * EPS * n * n + 1e-300);
        near(c, "deviator returned with d J3", &r2(&s), &grad(&hj2, &a, dim), 40.0 * EPS * n + 1e-300);
        let loops = c.rng.bool();
        let mut h = d4(&mut c.rng, Rep::Symmetric);
        h.use_loops = loops;
        deriv2_invariant_jj2(&mut h, &t);
        near4(c, "d2 J2", &r4(&h), &hess(&hj2, &a), 20.0 * EPS);
        let mut h = d4(&mut c.rng, Rep::Symmetric);
        h.use_loops = loops;
        deriv2_invariant_jj3(&mut h, &mut w.j3, &t);
        near4(c, "d2 J3", &r4(&h), &hess(&hj3, &a), 80.0 * EPS * n + 1e-300);
        // invariants with a singular point
        let j2 = hj2(&hmat(&a, &z, &z)).v;
        let unsure = 100.0 * EPS * n * n;
        let r = (n / j2.sqrt()).max(1.0);
        let judge = j2 > 1e3 * unsure && j2 > 1e-9 + unsure;
        let st = |m: &HM| (hj2(m) * 2.0).sqrt();
        let q = |m: &HM| (hj2(m) * 3.0).sqrt();
        for k in 0..6 {
            let mut d = d2(&mut c.rng, rp);
            let mut s = d2(&mut c.rng, rp);
            let mut h = d4(&mut c.rng, Rep::Symmetric);
            h.use_loops = loops;
            let (res, what) = match k {
                0 => (deriv1_invariant_sigma_t(&mut d, &t), "d sigma_t"),
                1 => (deriv1_invariant_q(&mut d, &t), "d q"),
                2 => (deriv1_invariant_lode(&mut d, &mut s, &t), "d lode"),
                3 => (deriv2_invariant_sigma_t(&mut h, &mut w.st, &t), "d2 sigma_t"),
                4 => (deriv2_invariant_q(&mut h, &mut w.st, &t), "d2 q"),
                _ => (deriv2_invariant_lode(&mut h, &mut w.lode, &t), "d2 lode"),
            };
            match res {
                None => {
                    c.check(j2 <= 1e-9 + unsure, || format!("{} refused with J2={:e}", what, j2));
                    c.count("unavailable derivatives");
                }
                Some(v) => {
                    c.check(j2 >= 1e-9 - unsure, || format!("{} accepted with J2={:e}", what, j2));
                    if judge {
                        c.check((v - j2).abs() <= unsure, || format!("{}: returned J2 {} want {}", what, v, j2));
                        let e = EPS * r * r;
                        let rt = j2.sqrt();
                        match k {
                            0 => near(c, what, &r2(&d), &grad(&st, &a, dim), 100.0 * e),
                            1 => near(c, what, &r2(&d), &grad(&q, &a, dim), 100.0 * e),
                            2 => near(c, what, &r2(&d), &grad(&hlode, &a, dim), 400.0 * e * r / rt),
                            3 => near4(c, what, &r4(&h), &hess(&st, &a), 200.0 * e / rt),
                            4 => near4(c, what, &r4(&h), &hess(&q, &a), 200.0 * e / rt),
                            _ => near4(c, what, &r4(&h), &hess(&hlode, &a), 1000.0 * e * r / j2),
                        }
                        c.count("singular-point derivatives compared");
                    }
                }
            }
        }
    }
}

fn mul(a: &A2, b: &A2) -> A2 {
    f2(|i, j| sum(|k| a[i][k] * b[k][j]))
}
/// fourth-order tensor mapping a direction to its image
fn map4(f: &dyn Fn(&A2) -> A2, dim: usize) -> A4 {
    let mut r = [[[[0.0; 3]; 3]; 3]; 3];
    for n in 0..dim {
        let e = basis(n);
        let x = f(&e);
        r = f4(|i, j, k, l| r[i][j][k][l] + x[i][j] * e[k][l]);
    }
    r
}

fn functions(c: &mut Case) {
    let rp = *c.rng.pick(&REPS);
    let (a, kind) = sample(c, rp);
    c.input(format!("inverse and square {:?} {} {:?}", rp, kind, a));
    let t = match c.ok("from_std_matrix", Tensor2::from_std_matrix(&a, rp)) {
        Some(t) => t,
        None => return,
    };
    let n = nrm(&a);
    let z = [[0.0; 3]; 3];
    // d(A.A)/dA
    let mut d = d4(&mut c.rng, Rep::General);
    let mut ii = d2(&mut c.rng, rp);
    deriv_squared_tensor(&mut d, &mut ii, &t);
    let want = map4(&|e| f2(|i, j| mul(e, &a)[i][j] + mul(&a, e)[i][j]), 9);
    near4(c, "d(A.A)/dA", &r4(&d), &want, 40.0 * EPS * n + 1e-300);
    if rp != Rep::General {
        let mut d = d4(&mut c.rng, Rep::Symmetric);
        d.use_loops = c.rng.bool();
        let mut ii = d2(&mut c.rng, rp);
        deriv_squared_tensor_sym(&mut d, &mut ii, &t);
        let want = map4(&|e| f2(|i, j| mul(e, &a)[i][j] + mul(&a, e)[i][j]), 6);
        near4(c, "d(A.A)/dA symmetric", &r4(&d), &want, 40.0 * EPS * n + 1e-300);
    }
    c.count("squared derivatives");
    // d(A^-1)/dA
    let mut ai = d2(&mut c.rng, rp);
    if t.inverse(&mut ai, 0.0).is_some() {
        let b = r2(&ai);
        let nb = nrm(&b);
        let cond = n * nb;
        if !(cond < 1e5) || !nb.is_finite() {
            return;
        }
        // derivative of the inverse by the cofactor formula, along each direction
        let dinv = |e: &A2| -> A2 {
            let m = hmat(&a, e, &z);
            let dt = hdet(&m).inv();
            let mut r = [[0.0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    let (p, q, s, t) = ((j + 1) % 3, (j + 2) % 3, (i + 1) % 3, (i + 2) % 3);
                    r[i][j] = ((m[p][s] * m[q][t] - m[p][t] * m[q][s]) * dt).a;
                }
            }
            r
        };
        // the cofactor formulas lose det-relative accuracy
        let loss = n * n * n / hdet(&hmat(&a, &z, &z)).v.abs();
        if !(loss < 1e8) {
            return;
        }
        let tol = 400.0 * EPS * nb * nb * (1.0 + loss) * (1.0 + loss / cond) + 1e-300;
        let mut d = d4(&mut c.rng, Rep::General);
        deriv_inverse_tensor(&mut d, &ai);
        near4(c, "dA^-1/dA", &r4(&d), &map4(&dinv, 9), tol);
        let exact = |e: &A2| {
            let x = mul(&mul(&b, e), &b);
            f2(|i, j| -x[i][j])
        };
        near4(c, "dA^-1/dA from the inverse", &r4(&d), &map4(&exact, 9), 60.0 * EPS * nb * nb + 1e-300);
        if rp != Rep::General {
            let mut d = d4(&mut c.rng, Rep::Symmetric);
            d.use_loops = c.rng.bool();
            deriv_inverse_tensor_sym(&mut d, &ai);
            near4(c, "dA^-1/dA symmetric", &r4(&d), &map4(&dinv, 6), tol);
            near4(c, "dA^-1/dA symmetric from the inverse", &r4(&d), &map4(&exact, 6), 60.0 * EPS * nb * nb + 1e-300);
            c.count("symmetric inverse derivatives");
        } else {
            c.count("general inverse derivatives");
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule(
        "random tensors in every storage (as for the invariants: distinct, singular, hydrostatic, axisymmetric and nearly so), reused \
         workspaces, outputs pre-filled with NaN or garbage; analytical derivatives compared with derivatives of the definitions on the \
         component matrix carried by numbers with two infinitesimal parts (no differencing error); \
         unavailability compared with the definition of the singular point; non-trivial: distinct tensors",
    );
    cx.run("invariants", cx.n(50000, 500000), invariants);
    cx.run("functions", cx.n(60000, 600000), functions);
    for k in ["general storage", "symmetric storage", "plane storage", "unavailable derivatives", "singular-point derivatives compared", "norm derivatives"] {
        cx.require(k, 1000);
    }
    for k in ["squared derivatives", "general inverse derivatives", "symmetric inverse derivatives"] {
        cx.require(k, 500);
    }
}
