use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::{Matrix, Vector};
use russell_pde::{EssentialBcs1d, EssentialBcs2d, NaturalBcs1d, NaturalBcs2d, Side, Spc1d, Spc2d, SpcMap2d, Transfinite2d, TransfiniteSamples};
use russell_sparse::CooMatrix;
use std::sync::Arc;

type Fun2 = Arc<dyn Fn(f64, f64) -> f64 + Send + Sync>;

/// value, gradient and Laplacian-like second derivatives of a solution
#[derive(Clone)]
struct Sol {
    v: Fun2,
    dx: Fun2,
    dy: Fun2,
    dxx: Fun2,
    dyy: Fun2,
}

/// polynomial in z = (x - m) / h with coefficients of Chebyshev polynomials; returns value and two derivatives in x
fn cheb(cf: &[f64], m: f64, h: f64, x: f64) -> [f64; 3] {
    let z = (x - m) / h;
    let mut t = [[1.0, 0.0, 0.0], [z, 1.0, 0.0]];
    let mut r = [0.0; 3];
    for (k, c) in cf.iter().enumerate() {
        let cur = if k == 0 {
            t[0]
        } else if k == 1 {
            t[1]
        } else {
            let p = [
                2.0 * z * t[1][0] - t[0][0],
                2.0 * t[1][0] + 2.0 * z * t[1][1] - t[0][1],
                4.0 * t[1][1] + 2.0 * z * t[1][2] - t[0][2],
            ];
            t = [t[1], p];
            p
        };
        for i in 0..3 {
            r[i] += c * cur[i];
        }
    }
    [r[0], r[1] / h, r[2] / (h * h)]
}

fn coefs(c: &mut Case, n: usize) -> Vec<f64> {
    let d = c.rng.f(0.3, 0.9);
    (0..n).map(|k| c.rng.sym() * f64::powi(d, k as i32)).collect()
}

fn tensor_polynomial(c: &mut Case, nx: usize, ny: usize, mx: f64, hx: f64, my: f64, hy: f64) -> Sol {
    let (p, q) = (c.rng.int(1, nx), c.rng.int(1, ny));
    let parts: Arc<Vec<(Vec<f64>, Vec<f64>)>> = Arc::new((0..2).map(|_| (coefs(c, p), coefs(c, q))).collect());
    let mk = |i: usize, j: usize| -> Fun2 {
        let parts = parts.clone();
        Arc::new(move |x, y| parts.iter().map(|(a, b)| cheb(a, mx, hx, x)[i] * cheb(b, my, hy, y)[j]).sum())
    };
    Sol { v: mk(0, 0), dx: mk(1, 0), dy: mk(0, 1), dxx: mk(2, 0), dyy: mk(0, 2) }
}

/// a polynomial of given total degree in (x, y)
fn total_polynomial(c: &mut Case, deg: usize, mx: f64, my: f64, h: f64) -> Sol {
    let mut list = Vec::new();
    for i in 0..=deg {
        for j in 0..=deg - i {
            list.push((i as i32, j as i32, c.rng.sym()));
        }
    }
    let list = Arc::new(list);
    let mk = |di: i32, dj: i32| -> Fun2 {
        let list = list.clone();
        Arc::new(move |x, y| {
            let (z, w) = ((x - mx) / h, (y - my) / h);
            let pw = |b: f64, e: i32, d: i32| match d {
                0 => b.powi(e),
                1 => if e < 1 { 0.0 } else { e as f64 * b.powi(e - 1) / h },
                _ => if e < 2 { 0.0 } else { (e * (e - 1)) as f64 * b.powi(e - 2) / (h * h) },
            };
            list.iter().map(|(i, j, a)| a * pw(z, *i, di) * pw(w, *j, dj)).sum()
        })
    };
    Sol { v: mk(0, 0), dx: mk(1, 0), dy: mk(0, 1), dxx: mk(2, 0), dyy: mk(0, 2) }
}

/// exp(a z) cos(b w + d)
fn wave(c: &mut Case, mx: f64, my: f64, h: f64) -> Sol {
    let (a, b, d) = (1.2 * c.rng.sym() / h, 2.0 * c.rng.sym() / h, c.rng.f(0.0, 6.0));
    let mk = |k: usize| -> Fun2 {
        Arc::new(move |x, y| {
            let (e, t) = ((a * (x - mx)).exp(), b * (y - my) + d);
            match k {
                0 => e * t.cos(),
                1 => a * e * t.cos(),
                2 => -b * e * t.sin(),
                3 => a * a * e * t.cos(),
                _ => -b * b * e * t.cos(),
            }
        })
    };
    Sol { v: mk(0), dx: mk(1), dy: mk(2), dxx: mk(3), dyy: mk(4) }
}

fn sides(c: &mut Case) -> (bool, bool) {
    match c.rng.int(0, 4) {
        0 | 1 => (true, true),
        2 => (true, false),
        3 => (false, true),
        _ => (false, false),
    }
}

fn judge(c: &mut Case, what: &str, r: Result<Result<Vector, &'static str>, String>, want: &[f64], tol: f64, name: &'static str) -> Option<Vector> {
    match r {
        Err(p) => {
            c.fail(format!("{}: panic: {}", what, p));
            None
        }
        Ok(Err(e)) => {
            c.fail(format!("{}: error: {}", what, e));
            None
        }
        Ok(Ok(v)) => {
            if !c.check(v.dim() == want.len(), || format!("{}: {} values instead of {}", what, v.dim(), want.len())) {
                return None;
            }
            flow(c, what, v.as_data(), want, tol, name);
            Some(v)
        }
    }
}

fn flow(c: &mut Case, what: &str, got: &[f64], want: &[f64], tol: f64, name: &'static str) {
    if !c.check(got.len() == want.len(), || format!("{}: {} values instead of {}", what, got.len(), want.len())) {
        return;
    }
    let (mut w, mut at) = (0.0, 0);
    for i in 0..want.len() {
        let d = (got[i] - want[i]).abs();
        if !(d <= w) {
            w = d;
            at = i;
        }
    }
    c.max(name, w / tol);
    c.check(w <= tol, || format!("{}: value {} is {} instead of {} (difference {:e}, tolerance {:e})", what, at, got[at], want[at], w, tol));
}

fn extent(c: &mut Case) -> (f64, f64) {
    let l = c.rng.mag(-1.0, 1.0).abs();
    let a = match c.rng.int(0, 3) {
        0 => 0.0,
        1 => -0.5 * l,
        _ => l * c.rng.mag(-1.0, 0.7),
    };
    (a, a + l)
}

fn dense_solve(a: &Matrix, b: &[f64]) -> Vec<f64> {
    let n = b.len();
    let mut m: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| a.get(i, j)).chain([b[i]]).collect()).collect();
    for k in 0..n {
        let p = (k..n).max_by(|x, y| m[*x][k].abs().partial_cmp(&m[*y][k].abs()).unwrap()).unwrap();
        m.swap(k, p);
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            if f != 0.0 {
                for j in k..=n {
                    m[i][j] -= f * m[k][j];
                }
            }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let s: f64 = (i + 1..n).map(|j| m[i][j] * x[j]).sum();
        x[i] = (m[i][n] - s) / m[i][i];
    }
    x
}

/// eliminates with the matrices and vectors handed out
fn partitioned(kk: &CooMatrix, kc: &CooMatrix, a_check: &Vector, f_bar: &Vector) -> Vec<f64> {
    let mut f: Vec<f64> = f_bar.as_data().to_vec();
    let d = kc.as_dense();
    for i in 0..f.len() {
        for j in 0..a_check.dim() {
            f[i] -= d.get(i, j) * a_check[j];
        }
    }
    dense_solve(&kk.as_dense(), &f)
}

fn points(c: &mut Case, opposite: bool, max: usize) -> usize {
    let min = if opposite { 5 } else { 2 };
    match c.rng.int(0, 4) {
        0 => c.rng.int(min, min + 2),
        _ => c.rng.int(min, max),
    }
}

fn one_d(c: &mut Case) {
    let (a, b) = extent(c);
    let (e0, e1) = sides(c);
    let smooth = c.rng.chance(0.25);
    let n = if smooth { c.rng.int(20, 30) } else { points(c, !e0 && !e1, 24) };
    let sign = if c.rng.chance(0.3) { -1.0 } else { 1.0 };
    let k = sign * c.rng.mag(-2.0, 2.0).abs();
    let l = b - a;
    let (m, h) = (0.5 * (a + b), 0.5 * l);
    let unit = k.abs() / (l * l);
    let alpha = if (!e0 && !e1) || c.rng.bool() { sign * unit * c.rng.mag(-0.3, 1.3).abs() } else { 0.0 };
    let sol = if smooth { wave(c, m, 0.0, h) } else { tensor_polynomial(c, n, 1, m, h, 0.0, 1.0) };
    c.input(format!("1d [{}, {}] n={} essential=({}, {}) k={} alpha={} smooth={}", a, b, n, e0, e1, k, alpha, smooth));
    let mut ebcs = EssentialBcs1d::new();
    let mut nbcs = NaturalBcs1d::new();
    for (e, side, sg) in [(e0, Side::Xmin, -1.0), (e1, Side::Xmax, 1.0)] {
        let (p, q) = (sol.v.clone(), sol.dx.clone());
        if e {
            ebcs.set(side, move |x| p(x, 0.0));
        } else {
            nbcs.set(side, move |x| -k * sg * q(x, 0.0));
        }
    }
    let (p, q) = (sol.v.clone(), sol.dxx.clone());
    let source = move |x: f64| -k * q(x, 0.0) + alpha * p(x, 0.0);
    let spc = match Spc1d::new(a, b, n, ebcs, nbcs, k) {
        Ok(s) => s,
        Err(e) => {
            c.fail(format!("new: {}", e));
            return;
        }
    };
    let mut xs = vec![f64::NAN; n];
    spc.for_each_coord(|m, x| xs[m] = x);
    for i in 0..n {
        let z = m - h * (std::f64::consts::PI * i as f64 / (n as f64 - 1.0)).cos();
        c.close("coordinate", xs[i], z, 16.0 * EPS * (a.abs() + b.abs()));
    }
    let want: Vec<f64> = xs.iter().map(|x| (sol.v)(*x, 0.0)).collect();
    let nf = n as f64;
    let off = 1.0 + (a.abs() + b.abs()) / l;
    let tol = (EPS * 300.0 * nf.powi(4) * off + if smooth { 1e-8 } else { 0.0 }) * 3.0;
    let v = judge(c, "partitioned system", no_panic(|| spc.solve_sps(alpha, &source)), &want, tol, "1d nodal error over tolerance");
    judge(c, "Lagrange multipliers", no_panic(|| spc.solve_lmm(alpha, &source)), &want, tol, "1d nodal error over tolerance");
    // flow
    let wf: Vec<f64> = xs.iter().map(|x| -k * (sol.dx)(*x, 0.0)).collect();
    let rough = (EPS * 100.0 * nf.powi(2) * (off + nf * nf) + if smooth { 1e-8 } else { 0.0 }) * 10.0;
    let exact = Vector::from(&want);
    match no_panic(|| spc.calculate_flow_vectors(&exact)) {
        Ok(Ok(w)) => flow(c, "flow of nodal values", &w, &wf, rough * k.abs() / h, "1d flow error over tolerance"),
        other => c.fail(format!("flow: {:?}", other)),
    }
    if let Some(v) = v {
        match no_panic(|| spc.calculate_flow_vectors(&v)) {
            Ok(Ok(w)) => flow(c, "flow of the solution", &w, &wf, (rough + tol * nf * nf) * k.abs() / h, "1d flow error over tolerance"),
            other => c.fail(format!("flow: {:?}", other)),
        }
        if e0 {
            c.check(v[0] == want[0], || format!("first value is {} but {} is prescribed", v[0], want[0]));
        }
        if e1 {
            c.check(v[n - 1] == want[n - 1], || format!("last value is {} but {} is prescribed", v[n - 1], want[n - 1]));
        }
    }
    let bad = Vector::new(if c.rng.bool() { n + 1 } else { n - 1 });
    c.err("flow of a vector of the wrong size", spc.calculate_flow_vectors(&bad));
    // what the pieces say
    let np = e0 as usize + e1 as usize;
    c.check(spc.get_dims_sps() == (n - np, np), || format!("dimensions {:?}", spc.get_dims_sps()));
    c.check(spc.get_dims_lmm() == (n, np, n + np), || format!("dimensions {:?}", spc.get_dims_lmm()));
    if n > np && !c.failed() {
        let extra = c.rng.int(0, 2);
        let (mut kk, kc) = spc.get_matrices_sps(alpha, extra);
        let (_, a_check, f_bar) = spc.get_vectors_sps(&source);
        let x = partitioned(&kk, &kc, &a_check, &f_bar);
        let v = spc.get_joined_vector_sps(&Vector::from(&x), &a_check);
        flow(c, "elimination", v.as_data(), &want, tol, "1d nodal error over tolerance");
        for _ in 0..extra {
            c.check(kk.put(0, 0, 0.0).is_ok(), || format!("no room for {} extra entries", extra));
        }
        let (mm, cc) = spc.get_matrices_lmm(alpha, extra, true);
        c.check(cc.is_some() == (np > 0), || format!("constraint matrix {}", cc.is_some()));
        let (_, ff) = spc.get_vectors_lmm(&source);
        let x = dense_solve(&mm.as_dense(), ff.as_data());
        flow(c, "elimination with multipliers", &x[..n], &want, tol, "1d nodal error over tolerance");
    }
    c.count(if smooth { "1d smooth" } else { "1d polynomial" });
    if !e0 && !e1 {
        c.count("1d natural only");
    }
}

fn set_bcs(ebcs: &mut EssentialBcs2d, nbcs: &mut NaturalBcs2d, all: &[bool; 4], sol: &Sol, kx: f64, ky: f64, normals: &[Arc<dyn Fn(f64, f64) -> (f64, f64) + Send + Sync>]) {
    for i in 0..4 {
        let side = Side::from_index(i);
        if all[i] {
            let p = sol.v.clone();
            ebcs.set(side, move |x, y| p(x, y));
        } else {
            let (p, q, n) = (sol.dx.clone(), sol.dy.clone(), normals[i].clone());
            nbcs.set(side, move |x, y| {
                let (a, b) = n(x, y);
                -(kx * p(x, y) * a + ky * q(x, y) * b)
            });
        }
    }
}

fn two_d(c: &mut Case) {
    let (ax, bx) = extent(c);
    let lx = bx - ax;
    let ly = lx * c.rng.mag(-0.5, 0.5).abs();
    let ay = if c.rng.bool() { 0.0 } else { ly * c.rng.mag(-1.0, 0.7) };
    let by = ay + ly;
    let (e0, e1) = sides(c);
    let (e2, e3) = sides(c);
    let all = [e0, e1, e2, e3];
    let smooth = c.rng.chance(0.1);
    let (nx, ny) = if smooth { (c.rng.int(14, 16), c.rng.int(14, 16)) } else { (points(c, !e0 && !e1, 9), points(c, !e2 && !e3, 9)) };
    let sign = if c.rng.chance(0.3) { -1.0 } else { 1.0 };
    let (kx, ky) = (sign * c.rng.mag(-0.7, 0.7).abs(), sign * c.rng.mag(-0.7, 0.7).abs());
    let (ux, uy) = (kx.abs() / (lx * lx), ky.abs() / (ly * ly));
    let pure = !all.contains(&true);
    let alpha = if pure || c.rng.bool() { sign * (ux + uy) * c.rng.mag(-0.3, 1.0).abs() } else { 0.0 };
    let (mx, hx, my, hy) = (0.5 * (ax + bx), 0.5 * lx, 0.5 * (ay + by), 0.5 * ly);
    let sol = if smooth { wave(c, mx, my, hx.max(hy)) } else { tensor_polynomial(c, nx, ny, mx, hx, my, hy) };
    c.input(format!("2d [{}, {}]x[{}, {}] nx={} ny={} essential={:?} k=({}, {}) alpha={} smooth={}", ax, bx, ay, by, nx, ny, all, kx, ky, alpha, smooth));
    let mut ebcs = EssentialBcs2d::new();
    let mut nbcs = NaturalBcs2d::new();
    let normals: Vec<Arc<dyn Fn(f64, f64) -> (f64, f64) + Send + Sync>> =
        vec![Arc::new(|_, _| (-1.0, 0.0)), Arc::new(|_, _| (1.0, 0.0)), Arc::new(|_, _| (0.0, -1.0)), Arc::new(|_, _| (0.0, 1.0))];
    set_bcs(&mut ebcs, &mut nbcs, &all, &sol, kx, ky, &normals);
    let (p, q, r) = (sol.v.clone(), sol.dxx.clone(), sol.dyy.clone());
    let source = move |x: f64, y: f64| -kx * q(x, y) - ky * r(x, y) + alpha * p(x, y);
    let spc = match Spc2d::new(ax, bx, ay, by, nx, ny, ebcs, nbcs, kx, ky) {
        Ok(s) => s,
        Err(e) => {
            c.fail(format!("new: {}", e));
            return;
        }
    };
    let n = nx * ny;
    let mut xs = vec![(f64::NAN, f64::NAN); n];
    spc.for_each_coord(|m, x, y| xs[m] = (x, y));
    let pi = std::f64::consts::PI;
    for m in 0..n {
        let (i, j) = (m % nx, m / nx);
        let x = mx - hx * (pi * i as f64 / (nx as f64 - 1.0)).cos();
        let y = my - hy * (pi * j as f64 / (ny as f64 - 1.0)).cos();
        c.close("coordinate", xs[m].0, x, 16.0 * EPS * (ax.abs() + bx.abs()));
        c.close("coordinate", xs[m].1, y, 16.0 * EPS * (ay.abs() + by.abs()));
    }
    let want: Vec<f64> = xs.iter().map(|(x, y)| (sol.v)(*x, *y)).collect();
    let nf = (nx.max(ny)) as f64;
    let off = 1.0 + (ax.abs() + bx.abs()) / lx + (ay.abs() + by.abs()) / ly;
    let ratio = (ux + uy) / ux.min(uy);
    let tol = (EPS * 300.0 * nf.powi(4) * off * ratio.sqrt() + if smooth { 1e-7 } else { 0.0 }) * 10.0;
    let v = judge(c, "partitioned system", no_panic(|| spc.solve_sps(alpha, &source)), &want, tol, "2d nodal error over tolerance");
    judge(c, "Lagrange multipliers", no_panic(|| spc.solve_lmm(alpha, &source)), &want, tol, "2d nodal error over tolerance");
    let wx: Vec<f64> = xs.iter().map(|(x, y)| -kx * (sol.dx)(*x, *y)).collect();
    let wy: Vec<f64> = xs.iter().map(|(x, y)| -ky * (sol.dy)(*x, *y)).collect();
    let rough = (EPS * 100.0 * nf.powi(2) * (off + nf * nf) + if smooth { 1e-7 } else { 0.0 }) * 10.0;
    let exact = Vector::from(&want);
    match no_panic(|| spc.calculate_flow_vectors(&exact)) {
        Ok(Ok((gx, gy))) => {
            flow(c, "flow along x", &gx, &wx, rough * kx.abs() / hx, "2d flow error over tolerance");
            flow(c, "flow along y", &gy, &wy, rough * ky.abs() / hy, "2d flow error over tolerance");
        }
        other => c.fail(format!("flow: {:?}", other)),
    }
    if let Some(v) = v {
        match no_panic(|| spc.calculate_flow_vectors(&v)) {
            Ok(Ok((gx, gy))) => {
                flow(c, "solution's flow along x", &gx, &wx, (rough + tol * nf * nf) * kx.abs() / hx, "2d flow error over tolerance");
                flow(c, "solution's flow along y", &gy, &wy, (rough + tol * nf * nf) * ky.abs() / hy, "2d flow error over tolerance");
            }
            other => c.fail(format!("flow: {:?}", other)),
        }
    }
    let bad = Vector::new(if c.rng.bool() { n + 1 } else { n - 1 });
    c.err("flow of a vector of the wrong size", spc.calculate_flow_vectors(&bad));
    if n <= 49 && !c.failed() {
        let (nu, np) = spc.get_dims_sps();
        c.check(nu + np == n && spc.get_dims_lmm() == (n, np, n + np), || format!("dimensions {:?} {:?}", spc.get_dims_sps(), spc.get_dims_lmm()));
        if nu > 0 {
            let (kk, kc) = spc.get_matrices_sps(alpha, 0);
            let (_, a_check, f_bar) = spc.get_vectors_sps(&source);
            let x = partitioned(&kk, &kc, &a_check, &f_bar);
            let v = spc.get_joined_vector_sps(&Vector::from(&x), &a_check);
            flow(c, "elimination", v.as_data(), &want, tol, "2d nodal error over tolerance");
            let (mm, cc) = spc.get_matrices_lmm(alpha, 0, true);
            c.check(cc.is_some() == (np > 0), || format!("constraint matrix {}", cc.is_some()));
            let (_, ff) = spc.get_vectors_lmm(&source);
            let x = dense_solve(&mm.as_dense(), ff.as_data());
            flow(c, "elimination with multipliers", &x[..n], &want, tol, "2d nodal error over tolerance");
        }
    }
    c.count(if smooth { "2d smooth" } else { "2d polynomial" });
    if pure {
        c.count("2d natural only");
    }
}

fn mapped(c: &mut Case) {
    let kind = c.rng.int(0, 5);
    let size = c.rng.mag(-0.5, 0.5).abs();
    let mut normals: Vec<Arc<dyn Fn(f64, f64) -> (f64, f64) + Send + Sync>> = Vec::new();
    let mut text = String::new();
    let map: Transfinite2d;
    let (cx, cy, h);
    match kind {
        0 | 1 => {
            // quadrilateral
            let (ox, oy, th) = (size * c.rng.sym() * 2.0, size * c.rng.sym() * 2.0, c.rng.f(0.0, 6.28));
            let skew = if kind == 0 { 0.25 } else { 0.0 };
            let shear = c.rng.sym() * if kind == 0 { 0.5 } else { 0.0 };
            let ratio = c.rng.f(0.5, 2.0);
            let mut p: Vec<[f64; 2]> = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]
                .iter()
                .map(|(x, y)| {
                    let (x, y) = (x + skew * c.rng.sym() + shear * y, ratio * y + skew * c.rng.sym() * ratio);
                    [ox + size * (x * th.cos() - y * th.sin()), oy + size * (x * th.sin() + y * th.cos())]
                })
                .collect();
            let mirror = c.rng.chance(0.3);
            if mirror {
                p = vec![p[1], p[0], p[3], p[2]];
            }
            let mid = [0.25 * (p[0][0] + p[1][0] + p[2][0] + p[3][0]), 0.25 * (p[0][1] + p[1][1] + p[2][1] + p[3][1])];
            // sides in the order of the map: A-D, B-C, A-B, D-C
            for (u, v) in [(0, 3), (1, 2), (0, 1), (3, 2)] {
                let (dx, dy) = (p[v][0] - p[u][0], p[v][1] - p[u][1]);
                let l = dx.hypot(dy);
                let (mut nx, mut ny) = (dy / l, -dx / l);
                if nx * (mid[0] - p[u][0]) + ny * (mid[1] - p[u][1]) > 0.0 {
                    nx = -nx;
                    ny = -ny;
                }
                normals.push(Arc::new(move |_, _| (nx, ny)));
            }
            text += &format!("quadrilateral {:?}", p);
            (cx, cy, h) = (mid[0], mid[1], size * 1.5);
            map = TransfiniteSamples::quadrilateral_2d(&p[0], &p[1], &p[2], &p[3]);
        }
        2..=4 => {
            let a = size;
            let b = size * if kind == 4 { c.rng.f(1.8, 3.0) } else { c.rng.f(1.4, 2.5) };
            normals.push(Arc::new(move |x, y| (-x / a, -y / a)));
            if kind == 4 {
                let s = 0.5f64.sqrt();
                normals.push(Arc::new(move |_, _| (s, s)));
            } else {
                normals.push(Arc::new(move |x, y| (x / b, y / b)));
            }
            normals.push(Arc::new(|_, _| (0.0, -1.0)));
            if kind == 3 {
                normals.push(Arc::new(|_, _| (0.0, -1.0)));
            } else {
                normals.push(Arc::new(|_, _| (-1.0, 0.0)));
            }
            text += &format!("{} a={} b={}", ["quarter ring", "half ring", "lozenge"][kind - 2], a, b);
            (cx, cy, h) = (0.0, 0.5 * b, b);
            map = match kind {
                2 => TransfiniteSamples::quarter_ring_2d(a, b),
                3 => TransfiniteSamples::half_ring_2d(a, b),
                _ => TransfiniteSamples::quarter_perforated_lozenge_2d(a, b),
            };
        }
        _ => {
            // sides that are graphs over the sides of the square [-size, size]²
            let z = size;
            let mut am: Vec<[f64; 2]> = (0..4).map(|_| [0.15 * c.rng.sym(), 0.1 * c.rng.sym()]).collect();
            if c.rng.chance(0.3) {
                am[0] = [0.0, 0.0];
                am[3] = [0.0, 0.0];
            }
            text += &format!("bent square {} {:?}", z, am);
            // bump and derivatives
            fn bump(a: [f64; 2], t: f64) -> [f64; 3] {
                let w = 1.0 - t * t;
                let (p, dp, ddp) = (a[0] + a[1] * (1.5 * t).sin(), 1.5 * a[1] * (1.5 * t).cos(), -2.25 * a[1] * (1.5 * t).sin());
                [w * p, -2.0 * t * p + w * dp, -2.0 * p - 4.0 * t * dp + w * ddp]
            }
            let mk = |order: usize| -> Vec<Box<dyn Fn(&mut Vector, f64) + Send + Sync>> {
                (0..4)
                    .map(|i| {
                        let a = am[i];
                        let f: Box<dyn Fn(&mut Vector, f64) + Send + Sync> = Box::new(move |x: &mut Vector, t: f64| {
                            let b = bump(a, t)[order] * z;
                            let along = match order {
                                0 => t * z,
                                1 => z,
                                _ => 0.0,
                            };
                            let at = if order == 0 { z } else { 0.0 };
                            match i {
                                0 => (x[0], x[1]) = (-at + b, along),
                                1 => (x[0], x[1]) = (at + b, along),
                                2 => (x[0], x[1]) = (along, -at + b),
                                _ => (x[0], x[1]) = (along, at + b),
                            }
                        });
                        f
                    })
                    .collect()
            };
            map = Transfinite2d::new(mk(0), mk(1), Some(mk(2))).unwrap();
            for i in 0..4 {
                let a = am[i];
                normals.push(Arc::new(move |x, y| {
                    let d = bump(a, if i < 2 { y / z } else { x / z })[1];
                    let l = d.hypot(1.0);
                    match i {
                        0 => (-1.0 / l, d / l),
                        1 => (1.0 / l, -d / l),
                        2 => (d / l, -1.0 / l),
                        _ => (-d / l, 1.0 / l),
                    }
                }));
            }
            (cx, cy, h) = (0.0, 0.0, size);
        }
    }
    let quad = kind < 2;
    let (e0, e1) = sides(c);
    let (e2, e3) = sides(c);
    let all = [e0, e1, e2, e3];
    let pure = !all.contains(&true);
    let sign = if c.rng.chance(0.3) { -1.0 } else { 1.0 };
    let k = sign * c.rng.mag(-1.0, 1.0).abs();
    let unit = k.abs() / (h * h);
    let alpha = if pure || c.rng.bool() { sign * unit * c.rng.mag(-0.3, 1.0).abs() } else { 0.0 };
    let (nr, ns) = if quad { (points(c, !e0 && !e1, 8), points(c, !e2 && !e3, 8)) } else { (c.rng.int(14, 16), if kind == 3 { c.rng.int(18, 20) } else { c.rng.int(14, 16) }) };
    let sol = if quad {
        let d = c.rng.int(1, nr.min(ns)) - 1;
        total_polynomial(c, d, cx, cy, h)
    } else if c.rng.bool() {
        let d = c.rng.int(0, 3);
        total_polynomial(c, d, cx, cy, h)
    } else {
        wave(c, cx, cy, 2.0 * h)
    };
    c.input(format!("mapped {} nr={} ns={} essential={:?} k={} alpha={}", text, nr, ns, all, k, alpha));
    let mut ebcs = EssentialBcs2d::new();
    let mut nbcs = NaturalBcs2d::new();
    set_bcs(&mut ebcs, &mut nbcs, &all, &sol, k, k, &normals);
    let (p, q, r) = (sol.v.clone(), sol.dxx.clone(), sol.dyy.clone());
    let source = move |x: f64, y: f64| -k * (q(x, y) + r(x, y)) + alpha * p(x, y);
    let mut spc = match SpcMap2d::new(map, nr, ns, ebcs, nbcs, k) {
        Ok(s) => s,
        Err(e) => {
            c.fail(format!("new: {}", e));
            return;
        }
    };
    let n = nr * ns;
    let mut xs = vec![(f64::NAN, f64::NAN); n];
    spc.for_each_coord(|m, x, y| xs[m] = (x, y));
    let mut p = Vector::new(2);
    let pi = std::f64::consts::PI;
    for m in 0..n {
        let (i, j) = (m % nr, m / nr);
        let (r, s) = (-(pi * i as f64 / (nr as f64 - 1.0)).cos(), -(pi * j as f64 / (ns as f64 - 1.0)).cos());
        spc.get_map().point(&mut p, r, s);
        c.close("coordinate", xs[m].0, p[0], 1e-13 * (h + cx.abs()));
        c.close("coordinate", xs[m].1, p[1], 1e-13 * (h + cy.abs()));
    }
    let want: Vec<f64> = xs.iter().map(|(x, y)| (sol.v)(*x, *y)).collect();
    let nf = (nr.max(ns)) as f64;
    let off = 1.0 + (cx.abs() + cy.abs()) / h;
    let tol = if quad { EPS * 1e3 * nf.powi(4) * off } else { 3e-5 };
    let name: &'static str = if quad { "quadrilateral nodal error over tolerance" } else { "curved nodal error over tolerance" };
    let fname: &'static str = if quad { "quadrilateral flow error over tolerance" } else { "curved flow error over tolerance" };
    let v = judge(c, "partitioned system", no_panic(|| spc.solve_sps(alpha, &source)), &want, tol, name);
    judge(c, "Lagrange multipliers", no_panic(|| spc.solve_lmm(alpha, &source)), &want, tol, name);
    let wx: Vec<f64> = xs.iter().map(|(x, y)| -k * (sol.dx)(*x, *y)).collect();
    let wy: Vec<f64> = xs.iter().map(|(x, y)| -k * (sol.dy)(*x, *y)).collect();
    let exact = Vector::from(&want);
    let rough = if quad { EPS * 2e3 * nf.powi(3) * off } else { 1e-4 } * k.abs() / h;
    match no_panic(|| spc.calculate_flow_vectors(&exact)) {
        Ok(Ok((gx, gy))) => {
            flow(c, "flow along x", &gx, &wx, rough, fname);
            flow(c, "flow along y", &gy, &wy, rough, fname);
        }
        other => c.fail(format!("flow: {:?}", other)),
    }
    if let Some(v) = v {
        match no_panic(|| spc.calculate_flow_vectors(&v)) {
            Ok(Ok((gx, gy))) => {
                flow(c, "solution's flow along x", &gx, &wx, rough * nf * nf, fname);
                flow(c, "solution's flow along y", &gy, &wy, rough * nf * nf, fname);
            }
            other => c.fail(format!("flow: {:?}", other)),
        }
    }
    let bad = Vector::new(if c.rng.bool() { n + 1 } else { n - 1 });
    c.err("flow of a vector of the wrong size", spc.calculate_flow_vectors(&bad));
    c.count(["mapped: skewed", "mapped: rectangle", "mapped: quarter ring", "mapped: half ring", "mapped: lozenge", "mapped: bent square"][kind]);
    if all.contains(&false) {
        c.count("mapped: natural");
    }
}

/// conditions that are not supported or not complete
fn refused(c: &mut Case) {
    let two = c.rng.int(0, 2);
    let n = c.rng.int(2, 6);
    let what = c.rng.int(0, 3);
    let hole = c.rng.int(0, if two == 0 { 1 } else { 3 });
    let per = c.rng.int(0, 2);
    c.input(format!("refused two={} what={} hole={} per={} n={}", two, what, hole, per, n));
    let mut e1 = EssentialBcs1d::new();
    let mut n1 = NaturalBcs1d::new();
    let mut e2 = EssentialBcs2d::new();
    let mut n2 = NaturalBcs2d::new();
    for i in 0..4 {
        let side = Side::from_index(i);
        if i != hole || what != 0 {
            if i < 2 {
                e1.set(side, |_| 0.0);
            }
            e2.set(side, |_, _| 0.0);
        }
        if i == hole && what == 1 {
            if i < 2 {
                n1.set(side, |_| 0.0);
            }
            n2.set(side, |_, _| 0.0);
        }
    }
    if what == 2 {
        e1.set_periodic(true);
        e2.set_periodic(per != 0, per != 1);
    }
    let n = if what == 3 { c.rng.int(0, 1) } else { n };
    let swap = c.rng.bool();
    let r = no_panic(|| -> Result<(), &'static str> {
        match two {
            0 => {
                let s = Spc1d::new(0.0, 1.0, n, e1, n1, 1.0)?;
                let (a, b) = (s.solve_sps(1.0, |_| 0.0), s.solve_lmm(1.0, |_| 0.0));
                if a.is_ok() || b.is_ok() { Ok(()) } else { Err("") }
            }
            1 => {
                let (nx, ny) = if what == 3 && swap { (3, n) } else { (n, 3) };
                let s = Spc2d::new(0.0, 1.0, 0.0, 1.0, nx, ny, e2, n2, 1.0, 1.0)?;
                let (a, b) = (s.solve_sps(1.0, |_, _| 0.0), s.solve_lmm(1.0, |_, _| 0.0));
                if a.is_ok() || b.is_ok() { Ok(()) } else { Err("") }
            }
            _ => {
                let map = TransfiniteSamples::quarter_ring_2d(1.0, 2.0);
                let (nx, ny) = if what == 3 && swap { (3, n) } else { (n, 3) };
                let mut s = SpcMap2d::new(map, nx, ny, e2, n2, 1.0)?;
                let (a, b) = (s.solve_sps(1.0, |_, _| 0.0), s.solve_lmm(1.0, |_, _| 0.0));
                if a.is_ok() || b.is_ok() { Ok(()) } else { Err("") }
            }
        }
    });
    match r {
        Ok(r) => {
            c.check(r.is_err(), || format!("accepted"));
        }
        Err(p) => c.fail(format!("panic: {}", p)),
    }
    c.count("refused");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a boundary value problem with a known solution that the collocation polynomials contain or resolve");
    cx.level("exploration");
    cx.assume("directions with natural conditions on both sides have at least five points; problems without essential conditions have a positive reaction coefficient");
    let n = cx.n(3000, 40000);
    cx.run("one dimension", n, one_d);
    let n = cx.n(1500, 15000);
    cx.run("two dimensions", n, two_d);
    let n = cx.n(900, 8000);
    cx.run("mapped", n, mapped);
    let n = cx.n(1000, 5000);
    cx.run("refused", n, refused);
    cx.require("1d polynomial", 500);
    cx.require("1d smooth", 100);
    cx.require("1d natural only", 50);
    cx.require("2d polynomial", 300);
    cx.require("2d natural only", 10);
    cx.require("mapped: natural", 100);
    cx.require("mapped: skewed", 30);
    cx.require("mapped: bent square", 30);
    cx.require("refused", 500);
}
