use crate::model::*;
use harness::{Case, Ctx, EPS};
use russell_lab::*;

fn q(x: f64) -> Z {
    Z::new(x, 0.0)
}

/// Random matrix with random orthogonal (unitary) columns
pub fn unitary(n: usize, c: &mut Case, complex: bool) -> M {
    let mut u = M::id(n);
    for _ in 0..n.min(4) {
        // Householder reflections
        let v: Vec<Z> = (0..n).map(|_| Z::new(c.rng.normal(), if complex { c.rng.normal() } else { 0.0 })).collect();
        let s: f64 = v.iter().map(|x| x.norm_sqr()).sum();
        if s == 0.0 {
            continue;
        }
        for j in 0..n {
            let mut d = q(0.0);
            for i in 0..n {
                d += v[i].conj() * u.get(i, j);
            }
            for i in 0..n {
                let w = u.get(i, j) - v[i] * d * (2.0 / s);
                u.set(i, j, w);
            }
        }
    }
    u
}

/// General well-defined matrices; returns the kind name
pub fn general(m: usize, n: usize, c: &mut Case, complex: bool) -> (M, &'static str) {
    let mut a = M::new(m, n);
    let kind = c.rng.int(0, 6);
    let rnd = |c: &mut Case| Z::new(c.rng.sym(), if complex { c.rng.sym() } else { 0.0 });
    match kind {
        0 | 1 => {
            for k in 0..m * n {
                a.a[k] = rnd(c);
            }
            (a, "random")
        }
        2 => {
            let (u, v) = (unitary(m, c, complex), unitary(n, c, complex));
            let p = c.rng.f(0.0, 6.0);
            let mut s = M::new(m, n);
            let k = m.min(n);
            for i in 0..k {
                s.set(i, i, q(10f64.powf(-p * i as f64 / k as f64)));
            }
            (u.mul(&s).mul(&v), "prescribed singular values")
        }
        3 => {
            for k in 0..m * n {
                a.a[k] = rnd(c);
            }
            for i in 0..m {
                let f = c.rng.mag(-3.0, 3.0);
                for j in 0..n {
                    let w = a.get(i, j) * f;
                    a.set(i, j, w);
                }
            }
            (a, "graded rows")
        }
        4 => {
            for k in 0..m * n {
                a.a[k] = Z::new(c.rng.int(0, 8) as f64 - 4.0, if complex { c.rng.int(0, 8) as f64 - 4.0 } else { 0.0 });
            }
            (a, "integers")
        }
        5 => {
            // permuted triangular, dominant diagonal
            let mut p: Vec<usize> = (0..m).collect();
            c.rng.shuffle(&mut p);
            for i in 0..m {
                for j in i..n {
                    a.set(p[i], j, if i == j { rnd(c) + q(2.0) } else { rnd(c) });
                }
            }
            (a, "permuted triangular")
        }
        _ => {
            let f = c.rng.mag(-2.0, 6.0);
            for k in 0..m * n {
                a.a[k] = rnd(c) * f;
            }
            (a, "scaled")
        }
    }
}

pub fn to_r(a: &M) -> Matrix {
    let mut x = Matrix::new(a.m, a.n);
    for i in 0..a.m {
        for j in 0..a.n {
            x.set(i, j, a.get(i, j).re);
        }
    }
    x
}
pub fn to_z(a: &M) -> ComplexMatrix {
    let mut x = ComplexMatrix::new(a.m, a.n);
    for i in 0..a.m {
        for j in 0..a.n {
            x.set(i, j, a.get(i, j));
        }
    }
    x
}

/// Reference determinant by full-pivoting elimination
fn ref_det(a: &M) -> Z {
    let n = a.m;
    let mut w = a.clone();
    let mut det = q(1.0);
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, -1.0);
        for i in k..n {
            for j in k..n {
                if w.get(i, j).norm() > best {
                    best = w.get(i, j).norm();
                    pi = i;
                    pj = j;
                }
            }
        }
        if best == 0.0 {
            return q(0.0);
        }
        if pi != k {
            det = -det;
            for j in 0..n {
                let (x, y) = (w.get(k, j), w.get(pi, j));
                w.set(k, j, y);
                w.set(pi, j, x);
            }
        }
        if pj != k {
            det = -det;
            for i in 0..n {
                let (x, y) = (w.get(i, k), w.get(i, pj));
                w.set(i, k, y);
                w.set(i, pj, x);
            }
        }
        let p = w.get(k, k);
        det = det * p;
        for i in k + 1..n {
            let f = w.get(i, k) / p;
            for j in k..n {
                let x = w.get(i, j) - f * w.get(k, j);
                w.set(i, j, x);
            }
        }
    }
    det
}

fn dim(c: &mut Case) -> usize {
    match c.rng.int(0, 9) {
        0 => 1,
        1 | 2 => 2,
        3 | 4 => 3,
        5 => 4,
        6 | 7 => c.rng.int(4, 8),
        8 if c.rng.chance(0.05) => c.rng.int(21, 130),
        _ => c.rng.int(9, 20),
    }
}

/// Verifies a claimed inverse and determinant
fn verify_inverse(c: &mut Case, a: &M, x: &M, det: Option<Z>, what: &'static str) {
    let n = a.m;
    let nf = n as f64;
    let (na, nx) = (a.fro(), x.fro());
    if !na.is_finite() || !nx.is_finite() {
        c.fail(format!("{}: not finite", what));
        return;
    }
    let rd = ref_det(a);
    let kappa = na * nx;
    let amp = if n <= 3 { kappa.max(na.powi(n as i32) / rd.norm()) } else { kappa };
    if amp > 1e10 {
        c.count("skipped: ill-conditioned");
        return;
    }
    let l = x.mul(a).minus(&M::id(n)).max();
    let r = a.mul(x).minus(&M::id(n)).max();
    let tol = 50.0 * nf * nf * EPS * amp;
    c.max(what, l.min(r) / tol);
    c.check(l.min(r) <= tol && l.max(r) <= tol * kappa.max(1.0), || format!("{}: residuals {:e} {:e} (tolerance {:e}) A={:?}", what, l, r, tol, a.a));
    // determinants of large matrices may overflow or underflow on the way
    let safe = n <= 20 || (na.powi(n as i32) < 1e300 && nx.powi(n as i32) < 1e300);
    if let (Some(d), true) = (det, safe) {
        let e = (d - rd).norm();
        let tol = 100.0 * nf * nf * EPS * amp * rd.norm();
        c.check(e <= tol, || format!("{}: determinant {} reference {} error {:e} > {:e}", what, d, rd, e, tol));
    }
    c.count("inverses verified");
}

fn inverse(c: &mut Case) {
    let n = dim(c);
    let complex = c.rng.bool();
    let (mut a, kind) = general(n, n, c, complex);
    // the magnitude is irrelevant; determinants of small matrices are compared with a tiny constant
    let power = match n {
        _ if !c.rng.chance(0.3) => 0,
        1..=3 => c.rng.int(0, 35) as i32 - 15,
        _ => c.rng.int(0, 40) as i32 - 20,
    };
    for v in a.a.iter_mut() {
        *v = *v * 2f64.powi(power);
    }
    c.input(format!("inverse/solve n={} complex={} kind={} times 2^{power} A={:?}", n, complex, kind, a.a.iter().take(9).collect::<Vec<_>>()));
    let rd = ref_det(&a).norm();
    let singular_like = rd <= if n <= 3 { 2e-15 } else { 1e-12 * 2f64.powi(power * n as i32) } || (n <= 3 && rd <= 1e-11 * a.fro().powi(n as i32).min(1e300)) || (n > 20 && !rd.is_finite());
    let b = zvec(n, &mut c.rng);
    let nf = n as f64;
    if complex {
        let g = to_z(&a);
        let mut x = nan_zmat(n, n);
        match complex_mat_inverse(&mut x, &g) {
            Ok(d) => verify_inverse(c, &a, &M::z(&x), Some(d), "complex_mat_inverse"),
            Err(e) => {
                c.check(singular_like, || format!("regular matrix refused: {}", e));
            }
        }
        let mut x = b.clone();
        match complex_solve_lin_sys(&mut x, &mut to_z(&a)) {
            Ok(()) => {
                let r = a.mul(&M::cz(&x)).minus(&M::cz(&b)).max();
                let tol = 100.0 * nf * nf * EPS * a.fro() * M::cz(&x).fro() + 1e-300;
                c.max("complex_solve_lin_sys", r / tol);
                c.check(r <= tol, || format!("complex_solve_lin_sys residual {:e} > {:e}", r, tol));
            }
            Err(e) => {
                c.check(singular_like, || format!("regular matrix refused: {}", e));
            }
        }
    } else {
        let g = to_r(&a);
        let mut x = nan_mat(n, n);
        match mat_inverse(&mut x, &g) {
            Ok(d) => verify_inverse(c, &a, &M::r(&x), Some(q(d)), "mat_inverse"),
            Err(e) => {
                c.check(singular_like, || format!("regular matrix refused: {}", e));
            }
        }
        let mut rb = Vector::new(n);
        for i in 0..n {
            rb[i] = b[i].re;
        }
        let mut x = rb.clone();
        match solve_lin_sys(&mut x, &mut g.clone()) {
            Ok(()) => {
                let r = a.mul(&M::cr(&x)).minus(&M::cr(&rb)).max();
                let tol = 100.0 * nf * nf * EPS * a.fro() * M::cr(&x).fro() + 1e-300;
                c.max("solve_lin_sys", r / tol);
                c.check(r <= tol, || format!("solve_lin_sys residual {:e} > {:e}", r, tol));
            }
            Err(e) => {
                c.check(singular_like, || format!("regular matrix refused: {}", e));
            }
        }
    }
}

fn singular(c: &mut Case) {
    let n = if c.rng.chance(0.02) { c.rng.int(13, 80) } else { c.rng.int(1, 12) };
    let complex = c.rng.bool();
    let mut a = M::new(n, n);
    for k in 0..n * n {
        a.a[k] = Z::new(c.rng.sym(), if complex { c.rng.sym() } else { 0.0 });
    }
    let k = c.rng.int(0, n - 1);
    let kind;
    match c.rng.int(0, 3) {
        0 => {
            kind = "zero row";
            for j in 0..n {
                a.set(k, j, q(0.0));
            }
        }
        1 => {
            kind = "zero column";
            for i in 0..n {
                a.set(i, k, q(0.0));
            }
        }
        2 => {
            kind = "permuted triangular with a zero diagonal entry";
            let mut p: Vec<usize> = (0..n).collect();
            c.rng.shuffle(&mut p);
            let mut b = M::new(n, n);
            for i in 0..n {
                for j in i..n {
                    b.set(p[i], j, if i == j && i == k { q(0.0) } else { a.get(i, j) });
                }
            }
            a = b;
        }
        _ => {
            kind = "zero";
            a = M::new(n, n);
        }
    }
    if n <= 3 && n >= 2 && c.rng.bool() {
        // integer, exactly rank deficient
        for v in a.a.iter_mut() {
            *v = Z::new(c.rng.int(0, 8) as f64 - 4.0, if complex { c.rng.int(0, 8) as f64 - 4.0 } else { 0.0 });
        }
        for j in 0..n {
            let w = if n == 2 { a.get(0, j) * 2.0 } else { a.get(0, j) * 2.0 - a.get(1, j) };
            a.set(n - 1, j, w);
        }
    }
    c.input(format!("singular n={} complex={} kind={} a={:?}", n, complex, kind, a.a));
    c.count("singular matrices");
    if complex {
        c.err("complex_mat_inverse of a singular matrix", complex_mat_inverse(&mut nan_zmat(n, n), &to_z(&a)));
        if n > 3 {
            c.err("complex_solve_lin_sys of a singular matrix", complex_solve_lin_sys(&mut ComplexVector::filled(n, q(1.0)), &mut to_z(&a)));
        }
    } else {
        c.err("mat_inverse of a singular matrix", mat_inverse(&mut nan_mat(n, n), &to_r(&a)));
        if n > 3 {
            c.err("solve_lin_sys of a singular matrix", solve_lin_sys(&mut Vector::filled(n, 1.0), &mut to_r(&a)));
        }
        match n {
            2 => small_singular::<2, 3>(c, &a),
            3 => small_singular::<3, 5>(c, &a),
            4 => small_singular::<4, 4>(c, &a),
            5 => small_singular::<5, 8>(c, &a),
            6 => small_singular::<6, 6>(c, &a),
            _ => (),
        }
    }
}

fn small_singular<const K: usize, const N: usize>(c: &mut Case, a: &M) {
    let mut s = [[1.5; N]; N];
    let mut e = [[0.0; K]; K];
    for i in 0..K {
        for j in 0..K {
            s[i][j] = a.get(i, j).re;
            e[i][j] = a.get(i, j).re;
        }
    }
    let mut x = [[0.0; N]; N];
    c.err("small_mat_inv of a singular matrix", small_mat_inv(&mut x, &s, K));
    // elimination with rounding: only exact structures are guaranteed to be recognised
    if K > 3 {
        let mut b = [1.0; K];
        c.err("small_solve_lin_sys of a singular matrix", small_solve_lin_sys(&mut b, &mut e.clone()));
        c.err("num_recipes_gaussj_inv of a singular matrix", num_recipes_gaussj_inv(&mut e));
    }
}

fn small<const N: usize>(c: &mut Case) {
    let n = c.rng.int(1, N);
    let (a, kind) = general(n, n, c, false);
    c.input(format!("small inverse N={} n={} kind={} a={:?}", N, n, kind, a.a));
    let rd = ref_det(&a).norm();
    let scale = a.max().min(1.0);
    let mut s = [[f64::NAN; N]; N];
    for i in 0..n {
        for j in 0..n {
            s[i][j] = a.get(i, j).re;
        }
    }
    let mark = |i: usize, j: usize| 1000.0 + (i * N + j) as f64;
    let mut x = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            x[i][j] = mark(i, j);
        }
    }
    let degenerate = rd <= 1e-11 * scale.powi(n as i32);
    match small_mat_inv(&mut x, &s, n) {
        Ok(d) => {
            let mut g = M::new(n, n);
            let mut outside = true;
            for i in 0..N {
                for j in 0..N {
                    if i < n && j < n {
                        g.set(i, j, q(x[i][j]));
                    } else {
                        outside &= x[i][j] == mark(i, j);
                    }
                }
            }
            verify_inverse(c, &a, &g, Some(q(d)), "small_mat_inv");
            c.check(outside, || format!("small_mat_inv touched components outside the leading {}x{} block: {:?}", n, n, x));
        }
        Err(e) => {
            c.check(degenerate || rd < 1e-10, || format!("regular matrix refused: {}", e));
        }
    }
    // single precision
    let mut s32 = [[0.0f32; N]; N];
    let mut a32 = M::new(n, n);
    for i in 0..n {
        for j in 0..n {
            s32[i][j] = a.get(i, j).re as f32;
            a32.set(i, j, q(s32[i][j] as f64));
        }
    }
    let mut x32 = [[0.0f32; N]; N];
    if let Ok(d) = small_mat_inv(&mut x32, &s32, n) {
        let mut g = M::new(n, n);
        for i in 0..n {
            for j in 0..n {
                g.set(i, j, q(x32[i][j] as f64));
            }
        }
        let r32 = ref_det(&a32);
        let amp = (a32.fro() * g.fro()).max(a32.fro().powi(n as i32) / r32.norm());
        if amp < 1e3 {
            let res = a32.mul(&g).minus(&M::id(n)).max();
            c.check(res <= 1e-5 * (n * n) as f64 * amp, || format!("small_mat_inv f32 residual {:e} amplification {:e}", res, amp));
            c.check((d as f64 - r32.re).abs() <= 1e-5 * (n * n) as f64 * amp * r32.norm(), || format!("small_mat_inv f32 determinant {} reference {}", d, r32));
        }
    }
}

fn gaussj<const N: usize>(c: &mut Case) {
    let (a, kind) = general(N, N, c, false);
    c.input(format!("gauss-jordan N={} kind={} a={:?}", N, kind, a.a));
    let rd = ref_det(&a).norm();
    let mut s = [[0.0; N]; N];
    let mut b = [[0.0; 3]; N];
    let mut v = [0.0; N];
    for i in 0..N {
        for j in 0..N {
            s[i][j] = a.get(i, j).re;
        }
        for j in 0..3 {
            b[i][j] = c.rng.sym();
        }
        v[i] = b[i][1];
    }
    let (b0, v0) = (b, v);
    let mut x = s;
    if let Err(e) = num_recipes_gaussj_inv(&mut x) {
        c.check(rd <= 1e-10, || format!("regular matrix refused: {}", e));
        return;
    }
    let mut g = M::new(N, N);
    for i in 0..N {
        for j in 0..N {
            g.set(i, j, q(x[i][j]));
        }
    }
    let kappa = a.fro() * g.fro();
    if !(kappa < 1e8) {
        c.count("skipped: ill-conditioned");
        return;
    }
    verify_inverse(c, &a, &g, None, "num_recipes_gaussj_inv");
    let (mut s1, mut s2) = (s, s);
    c.ok("num_recipes_gaussj_sol", num_recipes_gaussj_sol(&mut s1, &mut b));
    c.ok("small_solve_lin_sys", small_solve_lin_sys(&mut v, &mut s2));
    let tol = 100.0 * (N * N) as f64 * EPS * kappa;
    for k in 0..4 {
        let mut xn: f64 = 0.0;
        let mut rn: f64 = 0.0;
        for i in 0..N {
            let mut r = if k < 3 { -b0[i][k] } else { -v0[i] };
            for j in 0..N {
                r += s[i][j] * if k < 3 { b[j][k] } else { v[j] };
            }
            xn += (if k < 3 { b[i][k] } else { v[i] }).abs();
            rn = if r.is_nan() { f64::INFINITY } else { rn.max(r.abs()) };
        }
        c.check(rn <= tol * (a.fro() * xn + 1e-300), || format!("Gauss-Jordan solution {}: residual {:e} (norm x {:e})", k, rn, xn));
    }
    let mut ok = true;
    for i in 0..N {
        for j in 0..N {
            ok &= (s1[i][j] - x[i][j]).abs() <= tol * g.fro() && (s2[i][j] - x[i][j]).abs() <= tol * g.fro();
        }
    }
    c.check(ok, || "matrix is not replaced by its inverse".to_string());
    c.count("gauss-jordan systems");
}

fn check_svd(c: &mut Case, a: &M, s: &Vector, u: &M, vt: &M, what: &'static str) -> f64 {
    let (m, n) = (a.m, a.n);
    let big = m.max(n) as f64;
    let mut sm = M::new(m, n);
    for i in 0..m.min(n) {
        sm.set(i, i, q(s[i]));
    }
    let s0 = s[0];
    let nf = a.fro();
    let e = u.mul(&sm).mul(vt).minus(a).max();
    let tol = 60.0 * big * EPS * nf + 1e-300;
    c.max(what, e / tol);
    c.check(e <= tol, || format!("{}: U S V' - A = {:e} > {:e}", what, e, tol));
    let o1 = u.h().mul(u).minus(&M::id(m)).max();
    let o2 = vt.mul(&vt.h()).minus(&M::id(n)).max();
    c.check(o1 <= 60.0 * big * EPS && o2 <= 60.0 * big * EPS, || format!("{}: factors not orthogonal {:e} {:e}", what, o1, o2));
    let sorted = (0..m.min(n)).all(|i| s[i] >= 0.0 && (i == 0 || s[i] <= s[i - 1]));
    c.check(sorted, || format!("{}: singular values not ordered / non-negative {:?}", what, s.as_data()));
    c.count("singular value decompositions");
    s0
}

fn svd(c: &mut Case) {
    let top = if c.rng.chance(0.01) { 80 } else { 20 };
    let (m, n) = (c.rng.int(1, top), c.rng.int(1, top));
    let complex = c.rng.bool();
    let (mut a, kind) = general(m, n, c, complex);
    // the magnitude of the matrix is irrelevant
    let power = if c.rng.chance(0.3) { c.rng.int(0, 400) as i32 - 200 } else { 0 };
    for v in a.a.iter_mut() {
        *v = *v * 2f64.powi(power);
    }
    let mut rank = m.min(n);
    let low = c.rng.chance(0.35);
    if low {
        // exact zero rows/columns or exact zero matrix
        rank = c.rng.int(0, rank);
        let (mut p, mut r): (Vec<usize>, Vec<usize>) = ((0..m).collect(), (0..n).collect());
        c.rng.shuffle(&mut p);
        c.rng.shuffle(&mut r);
        for i in 0..m {
            for j in 0..n {
                if p[i] >= rank || r[j] >= rank {
                    a.set(i, j, q(0.0));
                }
            }
        }
    }
    c.input(format!("svd {}x{} complex={} kind={} times 2^{} rank<={} a={:?}", m, n, complex, kind, power, rank, a.a.iter().take(6).collect::<Vec<_>>()));
    let k = m.min(n);
    let mut s = Vector::filled(k, f64::NAN);
    if complex {
        let (mut u, mut v) = (nan_zmat(m, m), nan_zmat(n, n));
        if c.ok("complex_mat_svd", complex_mat_svd(&mut s, &mut u, &mut v, &mut to_z(&a))).is_some() {
            check_svd(c, &a, &s, &M::z(&u), &M::z(&v), "complex_mat_svd");
        }
        return;
    }
    let (mut u, mut v) = (nan_mat(m, m), nan_mat(n, n));
    if c.ok("mat_svd", mat_svd(&mut s, &mut u, &mut v, &mut to_r(&a))).is_none() {
        return;
    }
    let s0 = check_svd(c, &a, &s, &M::r(&u), &M::r(&v), "mat_svd");
    // pseudo-inverse: the four Penrose conditions
    let mut x = nan_mat(n, m);
    if c.ok("mat_pseudo_inverse", mat_pseudo_inverse(&mut x, &mut to_r(&a))).is_none() {
        return;
    }
    let g = M::r(&x);
    let small = s.as_data().iter().filter(|v| **v <= 4e-16 * s0).count();
    let good = s.as_data().iter().filter(|v| **v >= 1e-8 * s0 && **v > 0.0).count();
    if small + good != k {
        c.count("skipped: unclear rank");
        return;
    }
    if s0 == 0.0 {
        c.check(g.max() == 0.0, || format!("pseudo-inverse of zero is {:?}", g.a));
        return;
    }
    let kappa = if good > 0 { s0 / s[good - 1] } else { 1.0 };
    let tol = 100.0 * (m.max(n) as f64).powi(2) * EPS * kappa;
    let (ax, xa) = (a.mul(&g), g.mul(&a));
    let p1 = ax.mul(&a).minus(&a).max() / a.fro();
    let p2 = xa.mul(&g).minus(&g).max() / (g.fro() * kappa);
    let p3 = ax.minus(&ax.t()).max();
    let p4 = xa.minus(&xa.t()).max();
    let worst = [p1, p2, p3, p4].iter().fold(0.0, |w: f64, v| if v.is_nan() { f64::INFINITY } else { w.max(*v) });
    c.max("mat_pseudo_inverse", worst / tol);
    c.check(worst <= tol, || format!("Penrose conditions {:e} {:e} {:e} {:e} > {:e}", p1, p2, p3, p4, tol));
    c.count("pseudo-inverses");
    if low {
        c.count("rank-deficient pseudo-inverses");
    }
}

fn cholesky(c: &mut Case) {
    let n = if c.rng.chance(0.02) { c.rng.int(25, 100) } else { c.rng.int(1, 24) };
    let (complex, upper) = (c.rng.bool(), c.rng.bool());
    let mut g = M::new(n, n);
    for v in g.a.iter_mut() {
        *v = Z::new(c.rng.sym(), if complex { c.rng.sym() } else { 0.0 });
    }
    let mut a = g.mul(&g.h());
    for i in 0..n {
        let d = a.get(i, i).re + 0.01;
        a.set(i, i, q(d));
    }
    let spread = c.rng.f(0.0, 4.0);
    let size = if c.rng.chance(0.3) { c.rng.f(-15.0, 15.0) } else { 0.0 };
    let f: Vec<f64> = (0..n).map(|_| 10f64.powf(size + c.rng.f(-spread, spread))).collect();
    for i in 0..n {
        for j in 0..n {
            let w = a.get(i, j) * f[i] * f[j];
            a.set(i, j, w);
        }
    }
    let indefinite = c.rng.chance(0.25);
    if indefinite {
        let i = c.rng.int(0, n - 1);
        match c.rng.int(0, 2) {
            0 => {
                let d = a.get(i, i).re;
                a.set(i, i, q(-d));
            }
            1 => a.set(i, i, q(0.0)),
            _ => {
                if n > 1 {
                    // violates the Cauchy-Schwarz inequality of a positive definite matrix
                    let j = (i + 1) % n;
                    let w = q(1.5 * (a.get(i, i).re * a.get(j, j).re).sqrt());
                    a.set(i, j, w);
                    a.set(j, i, w);
                } else {
                    a.set(i, i, q(-1.0));
                }
            }
        }
    }
    c.input(format!("cholesky n={} complex={} upper={} spread={} indefinite={} a0={}", n, complex, upper, spread, indefinite, a.a[0]));
    // the other triangle carries garbage
    let mut w = a.clone();
    for i in 0..n {
        for j in 0..n {
            if (upper && i > j) || (!upper && i < j) {
                w.set(i, j, q(7e77));
            }
        }
    }
    let (res, out) = if complex {
        let mut z = to_z(&w);
        (complex_mat_cholesky(&mut z, upper), M::z(&z))
    } else {
        let mut z = to_r(&w);
        (mat_cholesky(&mut z, upper), M::r(&z))
    };
    if indefinite {
        c.err("Cholesky of an indefinite matrix", res);
        c.count("indefinite matrices");
        return;
    }
    if c.ok("Cholesky", res).is_none() {
        return;
    }
    let mut l = M::new(n, n);
    let mut other = true;
    for i in 0..n {
        for j in 0..n {
            if (upper && i > j) || (!upper && i < j) {
                other &= out.get(i, j) == q(7e77);
            } else {
                l.set(i, j, out.get(i, j));
            }
        }
    }
    c.check(other, || "the other triangle was modified".to_string());
    c.check((0..n).all(|i| l.get(i, i).re > 0.0 && l.get(i, i).im == 0.0), || "diagonal of the factor is not positive".to_string());
    let (want, bound) = if upper { (l.h().mul(&l), l.abs().t().mul(&l.abs())) } else { (l.mul(&l.h()), l.abs().mul(&l.abs().t())) };
    cmp(c, "Cholesky product", &want, &a, &bound, 3 * n);
    c.count("Cholesky factors");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random dense matrices (random, prescribed singular values, graded, integer, permuted triangular, scaled, exactly singular, rank deficient, indefinite); defining equations evaluated independently with condition-aware bounds; ill-conditioned cases skipped and counted");
    let n = cx.n(4000, 60000);
    cx.run("inverse", n * 2, inverse);
    cx.run("singular", n, singular);
    cx.run("small-2", n / 4, small::<2>);
    cx.run("small-3", n / 4, small::<3>);
    cx.run("small-4", n / 4, small::<4>);
    cx.run("small-7", n / 2, small::<7>);
    cx.run("gaussj-1", n / 20, gaussj::<1>);
    cx.run("gaussj-2", n / 4, gaussj::<2>);
    cx.run("gaussj-3", n / 4, gaussj::<3>);
    cx.run("gaussj-5", n / 4, gaussj::<5>);
    cx.run("gaussj-9", n / 4, gaussj::<9>);
    cx.run("svd", n, svd);
    cx.run("cholesky", n, cholesky);
    cx.require("inverses verified", n as u64);
    cx.require("singular value decompositions", n as u64 / 2);
    cx.require("rank-deficient pseudo-inverses", n as u64 / 20);
    cx.require("Cholesky factors", n as u64 / 2);
    cx.require("indefinite matrices", n as u64 / 10);
    cx.require("gauss-jordan systems", n as u64 / 4);
}
