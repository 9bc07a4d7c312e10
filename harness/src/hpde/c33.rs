use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::{Matrix, Vector};
use russell_pde::{EssentialBcs1d, EssentialBcs2d, Fdm1d, Fdm2d, Grid1d, Grid2d, NaturalBcs1d, NaturalBcs2d, Side};
use russell_sparse::{CooMatrix, Genie, Sym};
use std::sync::Arc;

/// one factor of a separable solution with what the operators make of it
#[derive(Clone, Copy, Debug)]
enum Factor {
    /// a + b z + c z² with z = (x - m) / l
    Poly(f64, f64, f64, f64, f64),
    /// a cos(w (x - x0)) + b sin(w (x - x0)); spacing
    Mode(f64, f64, f64, f64, f64),
}

impl Factor {
    fn v(&self, x: f64) -> f64 {
        match *self {
            Factor::Poly(a, b, c, m, l) => {
                let z = (x - m) / l;
                a + b * z + c * z * z
            }
            Factor::Mode(a, b, w, x0, _) => a * (w * (x - x0)).cos() + b * (w * (x - x0)).sin(),
        }
    }
    fn d(&self, x: f64) -> f64 {
        match *self {
            Factor::Poly(_, b, c, m, l) => (b + 2.0 * c * (x - m) / l) / l,
            Factor::Mode(a, b, w, x0, _) => w * (-a * (w * (x - x0)).sin() + b * (w * (x - x0)).cos()),
        }
    }
    /// minus the second difference
    fn op(&self, x: f64) -> f64 {
        match *self {
            Factor::Poly(_, _, c, _, l) => -2.0 * c / (l * l),
            Factor::Mode(_, _, w, _, h) => {
                let s = (0.5 * w * h).sin();
                4.0 * s * s / (h * h) * self.v(x)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bc {
    E,
    N,
    P,
}

fn bcs(c: &mut Case) -> (Bc, Bc) {
    match c.rng.int(0, 4) {
        0 => (Bc::E, Bc::E),
        1 => (Bc::E, Bc::N),
        2 => (Bc::N, Bc::E),
        3 => (Bc::N, Bc::N),
        _ => (Bc::P, Bc::P),
    }
}

fn extent(c: &mut Case) -> (f64, f64) {
    let l = c.rng.mag(-2.0, 2.0).abs();
    let a = match c.rng.int(0, 3) {
        0 => 0.0,
        1 => -0.5 * l,
        _ => l * c.rng.mag(-1.0, 1.5),
    };
    (a, a + l)
}

fn factors(c: &mut Case, bc: Bc, a: f64, b: f64, n: usize) -> Vec<Factor> {
    let l = b - a;
    if bc == Bc::P {
        let h = l / (n as f64 - 1.0);
        let p = l + h;
        let mut r = vec![Factor::Poly(c.rng.f(0.5, 2.0), 0.0, 0.0, a, l)];
        for _ in 0..2 {
            let q = c.rng.int(0, (n / 2).min(4)) as f64;
            r.push(Factor::Mode(c.rng.sym(), c.rng.sym(), 2.0 * std::f64::consts::PI * q / p, a, h));
        }
        r
    } else {
        (0..2).map(|_| Factor::Poly(2.0 * c.rng.sym(), 2.0 * c.rng.sym(), 2.0 * c.rng.sym(), a + 0.3 * l, l)).collect()
    }
}

fn size(c: &mut Case, max: usize) -> usize {
    match c.rng.int(0, 5) {
        0 => 2,
        1 => 3,
        2 => c.rng.int(2, 6),
        _ => c.rng.int(3, max),
    }
}

/// solves a linear system by elimination with pivoting
fn dense_solve(a: &Matrix, b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut m: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| a.get(i, j)).chain([b[i]]).collect()).collect();
    for k in 0..n {
        let p = (k..n).max_by(|x, y| m[*x][k].abs().partial_cmp(&m[*y][k].abs()).unwrap()).unwrap();
        m.swap(k, p);
        if m[k][k] == 0.0 {
            return None;
        }
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            if f != 0.0 {
                for j in k..=n {
                    m[i][j] -= f * m[k][j];
                }
            }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let s: f64 = (i + 1..n).map(|j| m[i][j] * x[j]).sum();
        x[i] = (m[i][n] - s) / m[i][i];
    }
    Some(x)
}

fn same_matrix(c: &mut Case, what: &str, a: &CooMatrix, b: &CooMatrix, scale: f64) {
    let (x, y) = (a.as_dense(), b.as_dense());
    if !c.check(x.dims() == y.dims(), || format!("{}: sizes {:?} and {:?}", what, x.dims(), y.dims())) {
        return;
    }
    let (m, n) = x.dims();
    for i in 0..m {
        for j in 0..n {
            let d = (x.get(i, j) - y.get(i, j)).abs();
            if !c.check(d <= 1e-13 * scale, || format!("{}: entry ({},{}) is {} and {}", what, i, j, x.get(i, j), y.get(i, j))) {
                return;
            }
        }
    }
}

/// compares nodal values
fn judge(c: &mut Case, what: &str, r: Result<Result<Vector, &'static str>, String>, want: &[f64], tol: f64) -> Option<Vector> {
    match r {
        Err(p) => {
            c.fail(format!("{}: panic: {}", what, p));
            None
        }
        Ok(Err(e)) => {
            c.fail(format!("{}: error: {}", what, e));
            None
        }
        Ok(Ok(v)) => {
            if !c.check(v.dim() == want.len(), || format!("{}: {} values instead of {}", what, v.dim(), want.len())) {
                return None;
            }
            let mut w: f64 = 0.0;
            let mut at = 0;
            for i in 0..want.len() {
                let d = (v[i] - want[i]).abs();
                if !(d <= w) {
                    w = d;
                    at = i;
                }
            }
            c.max("nodal error over tolerance", w / tol);
            c.check(w <= tol, || format!("{}: value {} is {} instead of {} (difference {:e}, tolerance {:e})", what, at, v[at], want[at], w, tol));
            Some(v)
        }
    }
}

fn one_d(c: &mut Case) {
    let (a, b) = extent(c);
    let n = if c.rng.chance(0.1) { c.rng.int(50, 300) } else { size(c, 40) };
    let (b0, b1) = bcs(c);
    let sign = if c.rng.chance(0.2) { -1.0 } else { 1.0 };
    let k = sign * c.rng.mag(-2.0, 2.0).abs();
    let l = b - a;
    let pure = b0 != Bc::E && b1 != Bc::E;
    let unit = k.abs() / (l * l);
    let alpha = if pure || c.rng.bool() { sign * unit * c.rng.mag(-0.5, 2.0).abs() } else { 0.0 };
    let fac: Arc<Vec<Factor>> = Arc::new(factors(c, b0, a, b, n));
    c.input(format!("1d [{}, {}] n={} {:?} {:?} k={} alpha={} {:?}", a, b, n, b0, b1, k, alpha, fac));
    let f = fac.clone();
    let phi = move |x: f64| f.iter().map(|t| t.v(x)).sum::<f64>();
    let f = fac.clone();
    let der = move |x: f64| f.iter().map(|t| t.d(x)).sum::<f64>();
    let f = fac.clone();
    let source = move |x: f64| f.iter().map(|t| k * t.op(x) + alpha * t.v(x)).sum::<f64>();
    let mut ebcs = EssentialBcs1d::new();
    let mut nbcs = NaturalBcs1d::new();
    if b0 == Bc::P {
        ebcs.set_periodic(true);
    }
    for (bc, side, sgn) in [(b0, Side::Xmin, -1.0), (b1, Side::Xmax, 1.0)] {
        match bc {
            Bc::E => {
                let p = phi.clone();
                ebcs.set(side, move |x| p(x));
            }
            Bc::N => {
                let p = der.clone();
                nbcs.set(side, move |x| -k * sgn * p(x));
            }
            Bc::P => (),
        }
    }
    let grid = if c.rng.bool() {
        Grid1d::new_uniform(a, b, n)
    } else {
        let xx: Vec<f64> = (0..n).map(|i| a + l * (i as f64) / (n as f64 - 1.0)).collect();
        Grid1d::new(&xx)
    };
    let grid = match grid {
        Ok(g) => g,
        Err(e) => {
            c.fail(format!("grid: {}", e));
            return;
        }
    };
    let mut xs = Vec::new();
    grid.for_each_coord(|_, x| xs.push(x));
    let want: Vec<f64> = xs.iter().map(|x| phi(*x)).collect();
    let scale = 8.0;
    let off = (a.abs() + b.abs()) / l;
    let nf = n as f64;
    let tol = scale * EPS * 2e3 * (nf * nf + nf * off + 10.0) * (1.0 + alpha.abs() / unit / 100.0);
    let mut fdm = match Fdm1d::new(grid, ebcs, nbcs, k) {
        Ok(f) => f,
        Err(e) => {
            c.fail(format!("new: {}", e));
            return;
        }
    };
    let sym = c.rng.bool();
    fdm.set_solver_options(Genie::Umfpack, sym);
    let first = judge(c, "partitioned system", no_panic(|| fdm.solve_sps(alpha, &source)), &want, tol);
    judge(c, "Lagrange multipliers", no_panic(|| fdm.solve_lmm(alpha, &source)), &want, tol);
    if c.failed() {
        return;
    }
    fdm.set_solver_options(Genie::Umfpack, !sym);
    judge(c, "partitioned system, other storage", no_panic(|| fdm.solve_sps(alpha, &source)), &want, tol);
    judge(c, "Lagrange multipliers, other storage", no_panic(|| fdm.solve_lmm(alpha, &source)), &want, tol);
    // prescribed values
    if let Some(v) = first {
        if b0 == Bc::E {
            c.check(v[0] == want[0], || format!("first value is {} but {} is prescribed", v[0], want[0]));
        }
        if b1 == Bc::E {
            c.check(v[n - 1] == want[n - 1], || format!("last value is {} but {} is prescribed", v[n - 1], want[n - 1]));
        }
    }
    let np = [b0, b1].iter().filter(|x| **x == Bc::E).count();
    c.check(fdm.get_dims_sps() == (n - np, np), || format!("dimensions {:?}", fdm.get_dims_sps()));
    c.check(fdm.get_dims_lmm() == (n, np, n + np), || format!("dimensions {:?}", fdm.get_dims_lmm()));
    c.check(fdm.get_grid().nx() == n, || format!("wrong grid"));
    let mut count = 0;
    fdm.for_each_coord(|m, x| {
        if m < n && xs[m] == x {
            count += 1;
        }
    });
    c.check(count == n, || format!("for_each_coord: {} of {} coordinates are right", count, n));
    // matrices in all storages
    if n - np > 0 && n <= 40 {
        let h = l / (nf - 1.0);
        let ms = 4.0 * k.abs() / (h * h) + alpha.abs() + 1.0;
        let (full, check) = fdm.get_matrices_sps(alpha, 0, Sym::No);
        c.check(check.is_some() == (np > 0), || format!("block of the prescribed values: {}", check.is_some()));
        let (lfull, cc) = fdm.get_matrices_lmm(alpha, 0, true, Sym::No);
        c.check(cc.is_some() == (np > 0), || format!("constraint matrix: {}", cc.is_some()));
        let extra = c.rng.int(0, 3);
        for s in [Sym::YesFull, Sym::YesLower, Sym::YesUpper] {
            let (mut x, _) = fdm.get_matrices_sps(alpha, extra, s);
            same_matrix(c, "symmetric storage", &x, &full, ms);
            for _ in 0..extra {
                c.check(x.put(0, 0, 0.0).is_ok(), || format!("no room for {} extra entries", extra));
            }
            let (x, _) = fdm.get_matrices_lmm(alpha, extra, false, s);
            same_matrix(c, "symmetric storage with multipliers", &x, &lfull, ms);
        }
        // solution by elimination
        if n <= 25 {
            let (_, a_check, mut f_bar) = fdm.get_vectors_sps(&source);
            if let Some(kc) = check {
                let d = kc.as_dense();
                for i in 0..f_bar.dim() {
                    for j in 0..a_check.dim() {
                        f_bar[i] -= d.get(i, j) * a_check[j];
                    }
                }
            }
            if let Some(x) = dense_solve(&full.as_dense(), f_bar.as_data()) {
                let v = fdm.get_joined_vector_sps(&Vector::from(&x), &a_check);
                judge(c, "elimination", Ok(Ok(v)), &want, tol);
            }
            let (_, ff) = fdm.get_vectors_lmm(&source);
            if let Some(x) = dense_solve(&lfull.as_dense(), ff.as_data()) {
                judge(c, "elimination with multipliers", Ok(Ok(Vector::from(&&x[..n]))), &want, tol);
            }
        }
        // molecule
        if n > 2 && b0 != Bc::P {
            let m = c.rng.int(1, n - 2);
            let mut sum = 0.0;
            fdm.loop_over_molecule(m, |j, v| sum += v * want[j]);
            let w = source(xs[m]) - alpha * want[m];
            let t = 1e3 * EPS * ms * scale * (1.0 + off);
            c.check((sum - w).abs() <= t, || format!("molecule at {}: {} instead of {}", m, sum, w));
        }
        c.count("matrices compared");
    }
    c.count(match (b0, b1) {
        (Bc::P, _) => "1d periodic",
        (Bc::N, Bc::N) => "1d natural only",
        (Bc::E, Bc::E) => "1d essential only",
        _ => "1d mixed",
    });
}

fn two_d(c: &mut Case) {
    let (ax, bx) = extent(c);
    let (lx, r) = (bx - ax, c.rng.mag(-0.7, 0.7).abs());
    let ay = if c.rng.bool() { 0.0 } else { lx * r * c.rng.mag(-1.0, 1.0) };
    let by = ay + lx * r;
    let ly = by - ay;
    let big = c.rng.chance(0.05);
    let (nx, ny) = if big { (c.rng.int(20, 40), c.rng.int(20, 40)) } else { (size(c, 12), size(c, 12)) };
    let (x0, x1) = bcs(c);
    let (y0, y1) = bcs(c);
    let all = [x0, x1, y0, y1];
    let sign = if c.rng.chance(0.2) { -1.0 } else { 1.0 };
    let kx = sign * c.rng.mag(-1.0, 1.0).abs();
    let ky = sign * c.rng.mag(-1.0, 1.0).abs();
    let pure = !all.contains(&Bc::E);
    let unit = kx.abs() / (lx * lx) + ky.abs() / (ly * ly);
    let alpha = if pure || c.rng.bool() { sign * unit * c.rng.mag(-0.5, 1.5).abs() } else { 0.0 };
    let fx = factors(c, x0, ax, bx, nx);
    let fy = factors(c, y0, ay, by, ny);
    let pairs: Arc<Vec<(Factor, Factor)>> = Arc::new((0..3).map(|i| (fx[i % fx.len()], fy[(i + i / 2) % fy.len()])).collect());
    c.input(format!("2d [{}, {}]x[{}, {}] nx={} ny={} {:?} kx={} ky={} alpha={} {:?}", ax, bx, ay, by, nx, ny, all, kx, ky, alpha, pairs));
    let f = pairs.clone();
    let phi = move |x: f64, y: f64| f.iter().map(|(p, q)| p.v(x) * q.v(y)).sum::<f64>();
    let f = pairs.clone();
    let dx = move |x: f64, y: f64| f.iter().map(|(p, q)| p.d(x) * q.v(y)).sum::<f64>();
    let f = pairs.clone();
    let dy = move |x: f64, y: f64| f.iter().map(|(p, q)| p.v(x) * q.d(y)).sum::<f64>();
    let f = pairs.clone();
    let source = move |x: f64, y: f64| {
        f.iter().map(|(p, q)| kx * p.op(x) * q.v(y) + ky * p.v(x) * q.op(y) + alpha * p.v(x) * q.v(y)).sum::<f64>()
    };
    let mut ebcs = EssentialBcs2d::new();
    let mut nbcs = NaturalBcs2d::new();
    ebcs.set_periodic(x0 == Bc::P, y0 == Bc::P);
    let mut order: Vec<usize> = vec![0, 1, 2, 3];
    c.rng.shuffle(&mut order);
    for i in order {
        let side = Side::from_index(i);
        match all[i] {
            Bc::E => {
                let p = phi.clone();
                ebcs.set(side, move |x, y| p(x, y));
            }
            Bc::N => {
                let (p, q) = (dx.clone(), dy.clone());
                nbcs.set(side, move |x, y| match i {
                    0 => kx * p(x, y),
                    1 => -kx * p(x, y),
                    2 => ky * q(x, y),
                    _ => -ky * q(x, y),
                });
            }
            Bc::P => (),
        }
    }
    let grid = match Grid2d::new_uniform(ax, bx, ay, by, nx, ny) {
        Ok(g) => g,
        Err(e) => {
            c.fail(format!("grid: {}", e));
            return;
        }
    };
    let mut xs = Vec::new();
    grid.for_each_coord(|_, x, y| xs.push((x, y)));
    let want: Vec<f64> = xs.iter().map(|(x, y)| phi(*x, *y)).collect();
    let off = (ax.abs() + bx.abs()) / lx + (ay.abs() + by.abs()) / ly;
    let (fx_, fy_) = (nx as f64, ny as f64);
    let (qx, qy) = (kx.abs() * fx_ * fx_ / (lx * lx), ky.abs() * fy_ * fy_ / (ly * ly));
    let (ux, uy) = (kx.abs() / (lx * lx), ky.abs() / (ly * ly));
    let small = if all[0] == Bc::E || all[1] == Bc::E { ux } else { 0.0 } + if all[2] == Bc::E || all[3] == Bc::E { uy } else { 0.0 } + alpha.abs();
    let cond = (qx + qy + alpha.abs()) / small;
    let tol = 60.0 * EPS * 200.0 * (cond + (fx_ + fy_) * off + 10.0);
    let mut fdm = match Fdm2d::new(grid, ebcs, nbcs, kx, ky) {
        Ok(f) => f,
        Err(e) => {
            c.fail(format!("new: {}", e));
            return;
        }
    };
    let sym = c.rng.bool();
    fdm.set_solver_options(Genie::Umfpack, sym);
    let v = judge(c, "partitioned system", no_panic(|| fdm.solve_sps(alpha, &source)), &want, tol);
    judge(c, "Lagrange multipliers", no_panic(|| fdm.solve_lmm(alpha, &source)), &want, tol);
    if c.failed() {
        return;
    }
    fdm.set_solver_options(Genie::Umfpack, !sym);
    judge(c, "partitioned system, other storage", no_panic(|| fdm.solve_sps(alpha, &source)), &want, tol);
    judge(c, "Lagrange multipliers, other storage", no_panic(|| fdm.solve_lmm(alpha, &source)), &want, tol);
    let n = nx * ny;
    let presc: Vec<bool> = (0..n)
        .map(|m| {
            let (i, j) = (m % nx, m / nx);
            (i == 0 && x0 == Bc::E) || (i == nx - 1 && x1 == Bc::E) || (j == 0 && y0 == Bc::E) || (j == ny - 1 && y1 == Bc::E)
        })
        .collect();
    let np = presc.iter().filter(|x| **x).count();
    if let Some(v) = v {
        for m in 0..n {
            if presc[m] && !c.check(v[m] == want[m], || format!("value {} is {} but {} is prescribed", m, v[m], want[m])) {
                return;
            }
        }
    }
    c.check(fdm.get_dims_sps() == (n - np, np), || format!("dimensions {:?}", fdm.get_dims_sps()));
    c.check(fdm.get_dims_lmm() == (n, np, n + np), || format!("dimensions {:?}", fdm.get_dims_lmm()));
    c.check(fdm.get_grid().size() == n, || format!("wrong grid"));
    let mut count = 0;
    fdm.for_each_coord(|m, x, y| {
        if m < n && xs[m] == (x, y) {
            count += 1;
        }
    });
    c.check(count == n, || format!("for_each_coord: {} of {} coordinates are right", count, n));
    if n - np > 0 && n <= 64 {
        let ms = 4.0 * (qx + qy) + alpha.abs() + 1.0;
        let (full, check) = fdm.get_matrices_sps(alpha, 0, Sym::No);
        c.check(check.is_some() == (np > 0), || format!("block of the prescribed values: {}", check.is_some()));
        let (lfull, cc) = fdm.get_matrices_lmm(alpha, 0, true, Sym::No);
        c.check(cc.is_some() == (np > 0), || format!("constraint matrix: {}", cc.is_some()));
        if let Some(cc) = cc {
            let d = cc.as_dense();
            let mut k = 0;
            for m in 0..n {
                if presc[m] {
                    for j in 0..n {
                        let w = if j == m { 1.0 } else { 0.0 };
                        c.check(d.get(k, j) == w, || format!("constraint {} at {} is {}", k, j, d.get(k, j)));
                    }
                    k += 1;
                }
            }
        }
        let extra = c.rng.int(0, 3);
        for s in [Sym::YesFull, Sym::YesLower, Sym::YesUpper] {
            let (mut x, _) = fdm.get_matrices_sps(alpha, extra, s);
            same_matrix(c, "symmetric storage", &x, &full, ms);
            for _ in 0..extra {
                c.check(x.put(0, 0, 0.0).is_ok(), || format!("no room for {} extra entries", extra));
            }
            let (x, _) = fdm.get_matrices_lmm(alpha, extra, false, s);
            same_matrix(c, "symmetric storage with multipliers", &x, &lfull, ms);
        }
        let (_, a_check, mut f_bar) = fdm.get_vectors_sps(&source);
        if let Some(kc) = check {
            let d = kc.as_dense();
            for i in 0..f_bar.dim() {
                for j in 0..a_check.dim() {
                    f_bar[i] -= d.get(i, j) * a_check[j];
                }
            }
        }
        if let Some(x) = dense_solve(&full.as_dense(), f_bar.as_data()) {
            let v = fdm.get_joined_vector_sps(&Vector::from(&x), &a_check);
            judge(c, "elimination", Ok(Ok(v)), &want, tol);
        }
        if nx > 2 && ny > 2 {
            let (i, j) = (c.rng.int(1, nx - 2), c.rng.int(1, ny - 2));
            let m = i + j * nx;
            let mut sum = 0.0;
            fdm.loop_over_molecule(m, |j, v| sum += v * want[j]);
            let w = source(xs[m].0, xs[m].1) - alpha * want[m];
            let t = 60.0 * 1e3 * EPS * ms * (1.0 + off);
            c.check((sum - w).abs() <= t, || format!("molecule at {}: {} instead of {}", m, sum, w));
        }
        c.count("matrices compared");
    }
    let per = all.iter().filter(|b| **b == Bc::P).count();
    c.count(match (per, pure) {
        (4, _) => "2d periodic",
        (2, true) => "2d periodic and natural",
        (2, false) => "2d periodic and essential",
        (_, true) => "2d natural only",
        _ => "2d mixed",
    });
}

/// second-order convergence for smooth solutions
fn smooth(c: &mut Case) {
    let two = c.rng.bool();
    let (x0, x1) = bcs(c);
    let (y0, y1) = if two { bcs(c) } else { (Bc::E, Bc::E) };
    let all = [x0, x1, y0, y1];
    let (ax, ay) = (c.rng.sym(), c.rng.sym());
    let (lx, ly) = (c.rng.f(0.5, 2.0), c.rng.f(0.5, 2.0));
    let kx = c.rng.mag(-0.5, 0.5).abs();
    let ky = if two { c.rng.mag(-0.5, 0.5).abs() } else { 0.0 };
    let alpha = c.rng.f(0.5, 3.0);
    let tau = 2.0 * std::f64::consts::PI;
    // solution: X(x) Y(y); exponentials or waves
    let mk = |p: bool, a: f64, l: f64, r: f64, s: f64| -> Box<dyn Fn(f64) -> [f64; 3] + Send + Sync> {
        if p {
            Box::new(move |x| {
                let w = tau / l;
                let t = w * (x - a) + r;
                let e = (0.5 * s * t.sin()).exp();
                let d = 0.5 * s * w * t.cos();
                [e, d * e, (d * d - 0.5 * s * w * w * t.sin()) * e]
            })
        } else {
            Box::new(move |x| {
                let z = (x - a) / l;
                let e = (r * z).exp();
                let (u, v) = ((1.0 + s * s) * 2.0 * z, 2.0 * (1.0 + s * s));
                [e * u.cos(), e * (r * u.cos() - v * u.sin()) / l, e * ((r * r - v * v) * u.cos() - 2.0 * r * v * u.sin()) / (l * l)]
            })
        }
    };
    let (r1, s1, r2, s2) = (c.rng.f(0.3, 1.2), c.rng.f(0.4, 0.9), c.rng.f(0.3, 1.2), c.rng.f(0.4, 0.9));
    let xf: Arc<Box<dyn Fn(f64) -> [f64; 3] + Send + Sync>> = Arc::new(mk(x0 == Bc::P, ax, lx, r1, s1));
    let yf: Arc<Box<dyn Fn(f64) -> [f64; 3] + Send + Sync>> = if two { Arc::new(mk(y0 == Bc::P, ay, ly, r2, s2)) } else { Arc::new(Box::new(|_| [1.0, 0.0, 0.0])) };
    let n0 = c.rng.int(14, 20);
    c.input(format!("smooth two={} {:?} a=({}, {}) l=({}, {}) k=({}, {}) alpha={} r=({}, {}) s=({}, {}) n={}", two, all, ax, ay, lx, ly, kx, ky, alpha, r1, r2, s1, s2, n0));
    let mut errs = Vec::new();
    for level in 0..2 {
        let count = |p: bool| if p { n0 << level } else { ((n0 - 1) << level) + 1 };
        let (nx, ny) = (count(x0 == Bc::P), count(y0 == Bc::P));
        let end = |p: bool, a: f64, l: f64, n: usize| if p { a + l - l / (n as f64) } else { a + l };
        let (bx, by) = (end(x0 == Bc::P, ax, lx, nx), end(y0 == Bc::P, ay, ly, ny));
        let (xg, yg) = (xf.clone(), yf.clone());
        let phi = move |x: f64, y: f64| xg(x)[0] * yg(y)[0];
        let (xg, yg) = (xf.clone(), yf.clone());
        let src = move |x: f64, y: f64| {
            let (p, q) = (xg(x), yg(y));
            -kx * p[2] * q[0] - ky * p[0] * q[2] + alpha * p[0] * q[0]
        };
        let res = if two {
            let mut ebcs = EssentialBcs2d::new();
            let mut nbcs = NaturalBcs2d::new();
            ebcs.set_periodic(x0 == Bc::P, y0 == Bc::P);
            for i in 0..4 {
                let side = Side::from_index(i);
                let (xg, yg) = (xf.clone(), yf.clone());
                match all[i] {
                    Bc::E => {
                        let p = phi.clone();
                        ebcs.set(side, move |x, y| p(x, y));
                    }
                    Bc::N => nbcs.set(side, move |x, y| {
                        let (p, q) = (xg(x), yg(y));
                        match i {
                            0 => kx * p[1] * q[0],
                            1 => -kx * p[1] * q[0],
                            2 => ky * p[0] * q[1],
                            _ => -ky * p[0] * q[1],
                        }
                    }),
                    Bc::P => (),
                }
            }
            let grid = Grid2d::new_uniform(ax, bx, ay, by, nx, ny).unwrap();
            let mut want = Vec::new();
            grid.for_each_coord(|_, x, y| want.push(phi(x, y)));
            let fdm = Fdm2d::new(grid, ebcs, nbcs, kx, ky).unwrap();
            let r = no_panic(|| fdm.solve_sps(alpha, &src));
            (r, want)
        } else {
            let mut ebcs = EssentialBcs1d::new();
            let mut nbcs = NaturalBcs1d::new();
            ebcs.set_periodic(x0 == Bc::P);
            for i in 0..2 {
                let side = Side::from_index(i);
                let xg = xf.clone();
                match all[i] {
                    Bc::E => {
                        let p = phi.clone();
                        ebcs.set(side, move |x| p(x, 0.0));
                    }
                    Bc::N => nbcs.set(side, move |x| if i == 0 { kx * xg(x)[1] } else { -kx * xg(x)[1] }),
                    Bc::P => (),
                }
            }
            let grid = Grid1d::new_uniform(ax, bx, nx).unwrap();
            let mut want = Vec::new();
            grid.for_each_coord(|_, x| want.push(phi(x, 0.0)));
            let fdm = Fdm1d::new(grid, ebcs, nbcs, kx).unwrap();
            let r = no_panic(|| fdm.solve_sps(alpha, |x| src(x, 0.0)));
            (r, want)
        };
        match res.0 {
            Ok(Ok(v)) => {
                let mut e: f64 = 0.0;
                for i in 0..v.dim() {
                    let d = (v[i] - res.1[i]).abs();
                    if !(d <= e) {
                        e = d;
                    }
                }
                errs.push(e);
            }
            other => {
                c.fail(format!("level {}: {:?}", level, other));
                return;
            }
        }
    }
    let ratio = errs[0] / errs[1];
    c.max("smooth: error", errs[0]);
    c.max("smooth: 4 over the error ratio", 4.0 / ratio);
    c.check(ratio > 3.0, || format!("errors {:e} and {:e} with the spacing halved (ratio {})", errs[0], errs[1], ratio));
    c.count("smooth: convergence order");
}

/// sequences of calls that set conditions
fn protocol(c: &mut Case) {
    let two = c.rng.bool();
    let ns = if two { 4 } else { 2 };
    let steps = c.rng.int(0, 8);
    let mut text = String::new();
    // model
    let mut e = vec![None; ns];
    let mut nat = vec![None; ns];
    let mut per = [false; 2];
    let mut e1 = EssentialBcs1d::new();
    let mut n1 = NaturalBcs1d::new();
    let mut e2 = EssentialBcs2d::new();
    let mut n2 = NaturalBcs2d::new();
    for k in 0..steps {
        let i = c.rng.int(0, ns - 1);
        let side = Side::from_index(i);
        let val = (k + 1) as f64;
        match c.rng.int(0, 9) {
            0..=4 => {
                text += &format!("E{} ", i);
                e[i] = Some(val);
                per[i / 2] = false;
                if two { e2.set(side, move |_, _| val) } else { e1.set(side, move |_| val) }
            }
            5..=7 => {
                text += &format!("N{} ", i);
                nat[i] = Some(val);
                if two { n2.set(side, move |_, _| val) } else { n1.set(side, move |_| val) }
            }
            8 => {
                let (px, py) = (c.rng.bool(), two && c.rng.bool());
                text += &format!("P{}{} ", px, py);
                per = [px, py];
                if px {
                    e[0] = None;
                    e[1] = None;
                }
                if py {
                    e[2] = None;
                    e[3] = None;
                }
                if two { e2.set_periodic(px, py) } else { e1.set_periodic(px) }
            }
            _ => {
                text += "H ";
                e = vec![Some(0.0); ns];
                per = [false; 2];
                if two { e2.set_homogeneous() } else { e1.set_homogeneous() }
            }
        }
    }
    c.input(format!("conditions two={} {}", two, text));
    let mut valid = true;
    for i in 0..ns {
        if e[i].is_some() && nat[i].is_some() {
            valid = false;
        }
        if per[i / 2] {
            if nat[i].is_some() {
                valid = false;
            }
        } else if e[i].is_none() && nat[i].is_none() {
            valid = false;
        }
    }
    let r = if two { e2.validate(&n2) } else { e1.validate(&n1) };
    c.check(r.is_ok() == valid, || format!("validation says {:?} but the conditions are {}", r, if valid { "valid" } else { "invalid" }));
    // solver
    let (nx, ny) = (c.rng.int(3, 5), c.rng.int(3, 5));
    let res = no_panic(|| {
        if two {
            let f = Fdm2d::new(Grid2d::new_uniform(0.0, 1.0, 0.0, 1.0, nx, ny)?, e2, n2, 1.0, 2.0)?;
            Ok::<_, &'static str>((f.solve_sps(1.0, |_, _| 0.0), f.solve_lmm(1.0, |_, _| 0.0)))
        } else {
            let f = Fdm1d::new(Grid1d::new_uniform(0.0, 1.0, nx)?, e1, n1, 1.0)?;
            Ok((f.solve_sps(1.0, |_| 0.0), f.solve_lmm(1.0, |_| 0.0)))
        }
    });
    match res {
        Err(p) => c.fail(format!("panic: {}", p)),
        Ok(r) => {
            let (v, w) = r.unwrap_or_else(|e| (Err(e), Err(e)));
            for r in [&v, &w] {
                c.check(r.is_ok() == valid, || format!("the solver says {:?} but the conditions are {}", r.as_ref().err(), if valid { "valid" } else { "invalid" }));
            }
            if let (Ok(v), Ok(w)) = (v, w) {
                for m in 0..v.dim() {
                    c.check((v[m] - w[m]).abs() <= 1e-11 * (steps as f64 + 1.0), || format!("value {} is {} and {}", m, v[m], w[m]));
                }
                // last given values are used at nodes that belong to one side only
                for i in 0..ns {
                    if let Some(val) = e[i] {
                        let m = match (two, i) {
                            (false, 0) => 0,
                            (false, _) => nx - 1,
                            (true, 0) => nx,
                            (true, 1) => 2 * nx - 1,
                            (true, 2) => 1,
                            (true, _) => (ny - 1) * nx + 1,
                        };
                        c.check(v[m] == val, || format!("side {}: {} instead of {}", i, v[m], val));
                    }
                }
            }
        }
    }
    c.count(if valid { "conditions: valid" } else { "conditions: invalid" });
}

/// grids without uniform spacing are refused
fn refused(c: &mut Case) {
    let n = c.rng.int(3, 10);
    let mut xx: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let k = c.rng.int(1, n - 1);
    let d = c.rng.f(1e-6, 0.4);
    xx[k] += d;
    c.input(format!("non-uniform grid {:?}", xx));
    let mut e = EssentialBcs1d::new();
    e.set_homogeneous();
    let r = no_panic(|| Fdm1d::new(Grid1d::new(&xx)?, e, NaturalBcs1d::new(), 1.0).map(|_| ()));
    match r {
        Ok(r) => {
            c.check(r.is_err(), || format!("accepted in one dimension"));
        }
        Err(p) => c.fail(format!("panic: {}", p)),
    }
    let yy = [0.0, 0.5, 1.0];
    let swap = c.rng.bool();
    let mut e = EssentialBcs2d::new();
    e.set_homogeneous();
    let r = no_panic(|| {
        let g = if swap { Grid2d::new(&yy, &xx)? } else { Grid2d::new(&xx, &yy)? };
        Fdm2d::new(g, e, NaturalBcs2d::new(), 1.0, 1.0).map(|_| ())
    });
    match r {
        Ok(r) => {
            c.check(r.is_err(), || format!("accepted in two dimensions"));
        }
        Err(p) => c.fail(format!("panic: {}", p)),
    }
    c.count("non-uniform grid refused");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a boundary value problem with known discrete solution, a convergence pair, or a sequence of condition settings");
    cx.level("exploration");
    cx.assume("periodic means that the last node is followed by the first one after one spacing");
    let n = cx.n(4000, 60000);
    cx.run("one dimension", n, one_d);
    let n = cx.n(4000, 60000);
    cx.run("two dimensions", n, two_d);
    let n = cx.n(300, 5000);
    cx.run("smooth", n, smooth);
    let n = cx.n(4000, 50000);
    cx.run("conditions", n, protocol);
    let n = cx.n(300, 2000);
    cx.run("non-uniform", n, refused);
    cx.require("1d periodic", 50);
    cx.require("1d natural only", 50);
    cx.require("1d essential only", 50);
    cx.require("1d mixed", 50);
    cx.require("2d periodic", 50);
    cx.require("2d periodic and natural", 50);
    cx.require("2d natural only", 50);
    cx.require("2d mixed", 50);
    cx.require("matrices compared", 500);
    cx.require("conditions: valid", 100);
    cx.require("conditions: invalid", 100);
}
