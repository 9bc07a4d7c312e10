// Ordinary Cartesian component arrays: the reference against which the packed tensors are judged

use harness::{Case, EPS, Rng};
use russell_tensor::*;

pub type A1 = [f64; 3];
pub type A2 = [[f64; 3]; 3];
pub type A3 = [[[f64; 3]; 3]; 3];
pub type A4 = [[[[f64; 3]; 3]; 3]; 3];

pub const REPS: [Rep; 3] = [Rep::General, Rep::Symmetric, Rep::Symmetric2D];
pub const PAIRS: [(usize, usize); 9] = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)];

pub fn f1(f: impl Fn(usize) -> f64) -> A1 {
    [f(0), f(1), f(2)]
}
pub fn f2(f: impl Fn(usize, usize) -> f64) -> A2 {
    let mut a = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = f(i, j);
        }
    }
    a
}
pub fn f3(f: impl Fn(usize, usize, usize) -> f64) -> A3 {
    let mut a = [[[0.0; 3]; 3]; 3];
    for i in 0..3 {
        a[i] = f2(|j, k| f(i, j, k));
    }
    a
}
pub fn f4(f: impl Fn(usize, usize, usize, usize) -> f64) -> A4 {
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 {
        a[i] = f3(|j, k, l| f(i, j, k, l));
    }
    a
}
pub fn dl(i: usize, j: usize) -> f64 {
    if i == j { 1.0 } else { 0.0 }
}
pub fn sum(f: impl Fn(usize) -> f64) -> f64 {
    f(0) + f(1) + f(2)
}
pub fn sum2(f: impl Fn(usize, usize) -> f64) -> f64 {
    sum(|i| sum(|j| f(i, j)))
}

// magnitudes felt by packed storage: a component and its mirror images share two packed numbers
pub fn m1(a: &A1) -> A1 {
    f1(|i| a[i].abs())
}
pub fn m2(a: &A2) -> A2 {
    f2(|i, j| a[i][j].abs().max(a[j][i].abs()))
}
pub fn m3(a: &A3, case_a: bool) -> A3 {
    if case_a {
        f3(|i, j, k| a[i][j][k].abs().max(a[j][i][k].abs()))
    } else {
        f3(|i, j, k| a[i][j][k].abs().max(a[i][k][j].abs()))
    }
}
pub fn m4(a: &A4) -> A4 {
    f4(|i, j, k, l| {
        let x = a[i][j][k][l].abs().max(a[j][i][k][l].abs());
        let y = a[i][j][l][k].abs().max(a[j][i][l][k].abs());
        x.max(y)
    })
}

pub fn r2(t: &Tensor2) -> A2 {
    f2(|i, j| t.get_std(i, j))
}
pub fn r3(t: &Tensor3) -> A3 {
    f3(|i, j, k| t.get_std(i, j, k))
}
pub fn r4(t: &Tensor4) -> A4 {
    f4(|i, j, k, l| t.get_std(i, j, k, l))
}

fn one(c: &mut Case, what: &'static str, got: f64, want: f64, mag: f64, k: f64, at: &dyn Fn() -> String) -> bool {
    let tol = k * EPS * mag + 1e-300;
    let err = (got - want).abs();
    if mag > 0.0 && err.is_finite() {
        c.max("worst error / tolerance", err / tol);
    }
    c.check(err <= tol, || format!("{} component {}: got {:?} want {:?} tol {:e}", what, at(), got, want, tol))
}
pub fn cmp0(c: &mut Case, what: &'static str, got: f64, want: f64, mag: f64, k: f64) {
    one(c, what, got, want, mag, k, &|| "".to_string());
}
pub fn cmp1(c: &mut Case, what: &'static str, got: &A1, want: &A1, mag: &A1, k: f64) {
    for i in 0..3 {
        if !one(c, what, got[i], want[i], mag[i], k, &|| format!("({})", i)) {
            return;
        }
    }
}
pub fn cmp2(c: &mut Case, what: &'static str, got: &A2, want: &A2, mag: &A2, k: f64) {
    let mag = m2(mag);
    for i in 0..3 {
        for j in 0..3 {
            if !one(c, what, got[i][j], want[i][j], mag[i][j], k, &|| format!("({},{})", i, j)) {
                return;
            }
        }
    }
}
pub fn cmp3(c: &mut Case, what: &'static str, got: &A3, want: &A3, mag: &A3, case_a: bool, k: f64) {
    let mag = m3(mag, case_a);
    for i in 0..3 {
        for j in 0..3 {
            for l in 0..3 {
                if !one(c, what, got[i][j][l], want[i][j][l], mag[i][j][l], k, &|| format!("({},{},{})", i, j, l)) {
                    return;
                }
            }
        }
    }
}
pub fn cmp4(c: &mut Case, what: &'static str, got: &A4, want: &A4, mag: &A4, k: f64) {
    let mag = m4(mag);
    for p in 0..81 {
        let (i, j, o, l) = (p / 27, (p / 9) % 3, (p / 3) % 3, p % 3);
        if !one(c, what, got[i][j][o][l], want[i][j][o][l], mag[i][j][o][l], k, &|| {
            format!("({},{},{},{})", i, j, o, l)
        }) {
            return;
        }
    }
}

// ---------------------------------------------------------------------------------------------- random components

pub struct Gen {
    kind: usize,
    scale: f64,
}

impl Gen {
    pub fn new(rng: &mut Rng) -> Gen {
        let kind = rng.int(0, 7);
        let scale = if rng.chance(0.3) { rng.mag(-12.0, 12.0).abs() } else { 1.0 };
        Gen { kind, scale }
    }
    pub fn val(&self, rng: &mut Rng) -> f64 {
        let v = match self.kind {
            0 => rng.int(0, 6) as f64 - 3.0,
            1 => {
                if rng.chance(0.5) {
                    0.0
                } else {
                    rng.sym()
                }
            }
            2 => rng.mag(-6.0, 6.0),
            _ => rng.sym() * 3.0,
        };
        v * self.scale
    }
    pub fn a1(&self, rng: &mut Rng) -> A1 {
        [self.val(rng), self.val(rng), self.val(rng)]
    }
    pub fn a2(&self, rng: &mut Rng, rep: Rep) -> A2 {
        let mut a = [[0.0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                a[i][j] = self.val(rng);
            }
        }
        fit2(&a, rep)
    }
    pub fn a3(&self, rng: &mut Rng, rep: Rep, case_a: bool) -> A3 {
        let mut a = [[[0.0; 3]; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                for k in 0..3 {
                    a[i][j][k] = self.val(rng);
                }
            }
        }
        fit3(&a, rep, case_a)
    }
    pub fn a4(&self, rng: &mut Rng, rep: Rep) -> A4 {
        let mut a = [[[[0.0; 3]; 3]; 3]; 3];
        for p in 0..81 {
            a[p / 27][(p / 9) % 3][(p / 3) % 3][p % 3] = self.val(rng);
        }
        fit4(&a, rep)
    }
}

pub fn inplane(rep: Rep, i: usize, j: usize) -> bool {
    rep != Rep::Symmetric2D || i == j || (i < 2 && j < 2)
}
// makes an array admissible in the storage by copying the upper triangle and clearing out-of-plane entries
pub fn fit2(a: &A2, rep: Rep) -> A2 {
    f2(|i, j| {
        if !inplane(rep, i, j) {
            0.0
        } else if rep == Rep::General {
            a[i][j]
        } else {
            a[i.min(j)][i.max(j)]
        }
    })
}
pub fn fit3(a: &A3, rep: Rep, case_a: bool) -> A3 {
    f3(|i, j, k| {
        if rep == Rep::General {
            a[i][j][k]
        } else if case_a {
            if inplane(rep, i, j) { a[i.min(j)][i.max(j)][k] } else { 0.0 }
        } else {
            if inplane(rep, j, k) { a[i][j.min(k)][j.max(k)] } else { 0.0 }
        }
    })
}
pub fn fit4(a: &A4, rep: Rep) -> A4 {
    f4(|i, j, k, l| {
        if rep == Rep::General {
            a[i][j][k][l]
        } else if inplane(rep, i, j) && inplane(rep, k, l) {
            a[i.min(j)][i.max(j)][k.min(l)][k.max(l)]
        } else {
            0.0
        }
    })
}

// ---------------------------------------------------------------------------------------------- used outputs

pub fn dirt(rng: &mut Rng) -> f64 {
    if rng.bool() { f64::NAN } else { 123.456 }
}
pub fn d1(rng: &mut Rng) -> Tensor1 {
    let v = dirt(rng);
    Tensor1::from(&[v, v, v])
}
pub fn d2(rng: &mut Rng, rep: Rep) -> Tensor2 {
    let v = dirt(rng);
    let mut t = Tensor2::new(rep);
    for m in 0..t.dim() {
        t.set(m, v);
    }
    t
}
pub fn d3(rng: &mut Rng, rep: Rep, case_a: bool) -> Tensor3 {
    let v = dirt(rng);
    let mut t = Tensor3::new(rep, case_a);
    let (nr, nc) = t.dims();
    for m in 0..nr {
        for n in 0..nc {
            t.set(m, n, v);
        }
    }
    t
}
pub fn d4(rng: &mut Rng, rep: Rep) -> Tensor4 {
    let v = dirt(rng);
    let mut t = Tensor4::new(rep);
    for m in 0..t.dim() {
        for n in 0..t.dim() {
            t.set(m, n, v);
        }
    }
    t
}

// packed (orthonormal basis) image of a second-order tensor and of a fourth-order tensor, by definition
pub fn basis(m: usize) -> A2 {
    let (i, j) = PAIRS[m];
    let s = std::f64::consts::FRAC_1_SQRT_2;
    if m < 3 {
        f2(|p, q| dl(p, i) * dl(q, j))
    } else if m < 6 {
        f2(|p, q| s * (dl(p, i) * dl(q, j) + dl(p, j) * dl(q, i)))
    } else {
        f2(|p, q| s * (dl(p, j) * dl(q, i) - dl(p, i) * dl(q, j)))
    }
}
pub fn packed4(a: &A4, dim: usize) -> Vec<Vec<f64>> {
    let b: Vec<A2> = (0..dim).map(basis).collect();
    (0..dim)
        .map(|m| (0..dim).map(|n| sum2(|i, j| sum2(|k, l| b[m][i][j] * a[i][j][k][l] * b[n][k][l]))).collect())
        .collect()
}
// Gauss-Jordan with full pivoting: inverse and determinant
pub fn invert(a: &[Vec<f64>]) -> Option<(Vec<Vec<f64>>, f64)> {
    let n = a.len();
    let mut w: Vec<Vec<f64>> = a.to_vec();
    let mut inv: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| dl(i, j)).collect()).collect();
    let mut det = 1.0;
    let mut order: Vec<(usize, usize)> = vec![];
    let mut used_r = vec![false; n];
    let mut used_c = vec![false; n];
    for _ in 0..n {
        let (mut pr, mut pc, mut best) = (0, 0, 0.0);
        for i in 0..n {
            for j in 0..n {
                if !used_r[i] && !used_c[j] && w[i][j].abs() > best {
                    best = w[i][j].abs();
                    pr = i;
                    pc = j;
                }
            }
        }
        if best == 0.0 {
            return None;
        }
        used_r[pr] = true;
        used_c[pc] = true;
        order.push((pr, pc));
        let p = w[pr][pc];
        det *= p;
        for j in 0..n {
            w[pr][j] /= p;
            inv[pr][j] /= p;
        }
        for i in 0..n {
            if i != pr {
                let f = w[i][pc];
                if f != 0.0 {
                    for j in 0..n {
                        w[i][j] -= f * w[pr][j];
                        inv[i][j] -= f * inv[pr][j];
                    }
                }
            }
        }
    }
    // w is now a permutation matrix: row pr holds a one in column pc
    let mut res = vec![vec![0.0; n]; n];
    let mut perm = vec![0; n];
    for &(r, c) in &order {
        res[c] = inv[r].clone();
        perm[r] = c;
    }
    let mut sign = 1.0;
    for i in 0..n {
        for j in i + 1..n {
            if perm[i] > perm[j] {
                sign = -sign;
            }
        }
    }
    Some((res, det * sign))
}
