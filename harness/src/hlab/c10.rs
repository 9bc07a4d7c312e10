use crate::model::*;
use harness::{Case, Ctx, EPS};
use russell_lab::*;

fn size(c: &mut Case) -> usize {
    let k = c.rng.int(0, 9);
    match k {
        0 => 0,
        1 => 1,
        2..=5 => c.rng.int(2, 9),
        6..=8 => c.rng.int(10, 25),
        _ => c.rng.int(26, 70),
    }
}
/// Bounded size, with a few large ones
fn bounded(c: &mut Case, usual: usize, large: usize) -> usize {
    if c.rng.chance(0.004) { c.rng.int(usual + 1, large) } else { size(c).min(usual) }
}
fn coef(c: &mut Case) -> f64 {
    if c.rng.chance(0.1) {
        return c.rng.mag(-15.0, 15.0);
    }
    *c.rng.pick(&[0.0, 1.0, -1.0, 2.5, -0.7, 0.3])
}
fn zcoef(c: &mut Case) -> Z {
    match c.rng.int(0, 5) {
        0 => Z::new(0.0, 0.0),
        1 => Z::new(1.0, 0.0),
        2 => Z::new(0.0, 1.0),
        _ => Z::new(c.rng.sym(), c.rng.sym()),
    }
}
fn q(x: f64) -> Z {
    Z::new(x, 0.0)
}

fn vectors(c: &mut Case) {
    let n = bounded(c, 70, 6000);
    let (a, b) = (coef(c), coef(c));
    let (u, v) = (rvec(n, &mut c.rng), rvec(n, &mut c.rng));
    let (mu, mv) = (M::cr(&u), M::cr(&v));
    c.input(format!("real vectors n={} alpha={} beta={} u0={:?}", n, a, b, u.as_data().first()));
    let dirty = || Vector::filled(n, f64::NAN);
    let mut w = dirty();
    c.ok("vec_add", vec_add(&mut w, a, &u, b, &v));
    cmp(c, "vec_add", &M::cr(&w), &mu.sc(q(a)).plus(&mv.sc(q(b))), &mu.sc(q(a)).abs().plus(&mv.sc(q(b)).abs()), 2);
    let mut w = dirty();
    c.ok("vec_plus", vec_plus(&mut w, &u, &v));
    cmp(c, "vec_plus", &M::cr(&w), &mu.plus(&mv), &mu.abs().plus(&mv.abs()), 1);
    let mut w = dirty();
    c.ok("vec_minus", vec_minus(&mut w, &u, &v));
    cmp(c, "vec_minus", &M::cr(&w), &mu.minus(&mv), &mu.abs().plus(&mv.abs()), 1);
    let mut w = dirty();
    c.ok("vec_copy", vec_copy(&mut w, &u));
    c.check(w.as_data() == u.as_data(), || "vec_copy differs".to_string());
    let mut w = dirty();
    c.ok("vec_copy_scaled", vec_copy_scaled(&mut w, a, &u));
    cmp(c, "vec_copy_scaled", &M::cr(&w), &mu.sc(q(a)), &mu.sc(q(a)).abs(), 1);
    let mut w = v.clone();
    c.ok("vec_update", vec_update(&mut w, a, &u));
    cmp(c, "vec_update", &M::cr(&w), &mv.plus(&mu.sc(q(a))), &mv.abs().plus(&mu.sc(q(a)).abs()), 2);
    let mut w = u.clone();
    vec_scale(&mut w, a);
    cmp(c, "vec_scale", &M::cr(&w), &mu.sc(q(a)), &mu.sc(q(a)).abs(), 1);
    let mut w = u.clone();
    w.scale(a);
    cmp(c, "Vector::scale", &M::cr(&w), &mu.sc(q(a)), &mu.sc(q(a)).abs(), 1);
    // reductions
    let k = c.rng.int(0, n);
    let short = Vector::from(&u.as_data()[..k].to_vec());
    let dot: f64 = (0..k).map(|i| u[i] * v[i]).sum();
    let dot_a: f64 = (0..k).map(|i| (u[i] * v[i]).abs()).sum();
    c.close("vec_inner", vec_inner(&short, &v), dot, 8.0 * EPS * (n as f64 + 1.0) * dot_a + 1e-300);
    c.close("vec_inner", vec_inner(&v, &short), dot, 8.0 * EPS * (n as f64 + 1.0) * dot_a + 1e-300);
    let sum1: f64 = u.as_data().iter().map(|x| x.abs()).sum();
    let max = u.as_data().iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let euc = u.as_data().iter().map(|x| x * x).sum::<f64>().sqrt();
    let t = 8.0 * EPS * (n as f64 + 1.0);
    for (kind, want) in [(Norm::Euc, euc), (Norm::Fro, euc), (Norm::Inf, max), (Norm::Max, max), (Norm::One, sum1)] {
        c.close("vec_norm", vec_norm(&u, kind), want, t * want);
        let d = mu.minus(&mv);
        let wd = match kind {
            Norm::Euc | Norm::Fro => d.fro(),
            Norm::Inf | Norm::Max => d.max(),
            Norm::One => d.a.iter().map(|x| x.norm()).sum(),
        };
        c.close("vec_norm_diff", vec_norm_diff(&u, &v, kind), wd, t * (wd + 1.0));
        if n > 0 {
            let s = c.rng.int(0, n - 1);
            let e = c.rng.int(s + 1, n);
            let part = M::cr(&Vector::from(&u.as_data()[s..e].to_vec()));
            let wp = match kind {
                Norm::Euc | Norm::Fro => part.fro(),
                Norm::Inf | Norm::Max => part.max(),
                Norm::One => part.a.iter().map(|x| x.norm()).sum(),
            };
            c.close("vec_norm_chunk", vec_norm_chunk(&u, kind, s, e), wp, t * wp);
        }
    }
    // large and tiny magnitudes must not overflow the Euclidean norm
    if n > 0 {
        let f = *c.rng.pick(&[1e200, 1e-200, 1e160, 1e-170]);
        let mut big = u.clone();
        vec_scale(&mut big, f);
        c.close("vec_norm (extreme magnitude)", vec_norm(&big, Norm::Euc) / f, euc, 100.0 * t * euc);
    }
    if let Some((i, d)) = c.ok("vec_max_abs_diff", vec_max_abs_diff(&u, &v)) {
        let diff = mu.minus(&mv);
        c.close("vec_max_abs_diff", d, diff.max(), 4.0 * EPS);
        c.check(n == 0 || (i < n && (diff.a[i].norm() - diff.max()).abs() <= 4.0 * EPS), || format!("index {} is not the maximum", i));
    }
    let one = *c.rng.pick(&[1.0, 0.5, 2.0]);
    let want = (0..n).fold(0.0, |m: f64, i| m.max(u[i].abs() / (one + v[i].abs())));
    c.close("vec_max_scaled", vec_max_scaled(&u, &v, one), want, 8.0 * EPS * want);
    let s = rvec(n, &mut c.rng);
    let want = (0..n).fold(0.0, |m: f64, i| m.max((u[i] - v[i]).abs() / (1.0 + s[i].abs())));
    c.close("vec_max_scaled_diff", vec_max_scaled_diff(&u, &v, &s), want, 8.0 * EPS * (want + 1.0));
    let (ta, tr) = (c.rng.mag(-8.0, -2.0).abs(), c.rng.mag(-8.0, -2.0).abs());
    if n > 0 {
        let want = ((0..n).map(|i| (u[i] / (ta + tr * v[i].abs())).powi(2)).sum::<f64>() / n as f64).sqrt();
        c.close("vec_rms_scaled", vec_rms_scaled(&u, &v, ta, tr), want, t * want * 4.0);
        let want = ((0..n).map(|i| ((u[i] - v[i]) / (ta + tr * u[i].abs().max(v[i].abs()))).powi(2)).sum::<f64>() / n as f64).sqrt();
        c.close("vec_rms_scaled_diff", vec_rms_scaled_diff(&u, &v, ta, tr), want, t * want * 4.0 + 1e-9);
    }
    // finite check
    let mut w = u.clone();
    c.check(vec_all_finite(&w, false).is_ok(), || "finite vector reported as not finite".to_string());
    if n > 0 {
        let i = c.rng.int(0, n - 1);
        w[i] = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        c.check(vec_all_finite(&w, false).is_err(), || format!("{} at {} not noticed", w[i], i));
    }
    // containers
    let k = c.rng.int(0, n);
    let (mut p, mut r) = (vec![0.0; k], vec![0.0; n - k]);
    u.split2(&mut p, &mut r);
    c.check(p == u.as_data()[..k] && r == u.as_data()[k..], || "split2 differs".to_string());
    let mut w = dirty();
    w.join2(&p, &r);
    c.check(w.as_data() == u.as_data(), || "join2 differs".to_string());
    let mut w = dirty();
    w.set_vector(u.as_data());
    c.check(w.as_data() == u.as_data(), || "set_vector differs".to_string());
    w.map(|x| 2.0 * x);
    c.check((0..n).all(|i| w[i] == 2.0 * u[i]), || "map differs".to_string());
    w.map_with_index(|i, x| x + i as f64);
    c.check((0..n).all(|i| w[i] == 2.0 * u[i] + i as f64), || "map_with_index differs".to_string());
    let g = u.get_mapped(|x| -x);
    c.check((0..n).all(|i| g[i] == -u[i]) && g.dim() == n, || "get_mapped differs".to_string());
    if n > 0 {
        let d = u.get_differences();
        c.check(d.dim() == n - 1 && (0..n - 1).all(|i| d[i] == u[i + 1] - u[i]), || "get_differences differs".to_string());
    }
    let init = Vector::initialized(n, |i| i as f64 * 3.0);
    c.check(init.dim() == n && (0..n).all(|i| init[i] == i as f64 * 3.0), || "initialized differs".to_string());
    let mut set = u.clone();
    for i in 0..n {
        set.set(i, v.get(i));
    }
    c.check(set.as_data() == v.as_data(), || "set/get differ".to_string());
}

fn complex_vectors(c: &mut Case) {
    let n = bounded(c, 70, 6000);
    let (a, b) = (zcoef(c), zcoef(c));
    let (u, v) = (zvec(n, &mut c.rng), zvec(n, &mut c.rng));
    let (mu, mv) = (M::cz(&u), M::cz(&v));
    c.input(format!("complex vectors n={} alpha={} beta={} u0={:?}", n, a, b, u.as_data().first()));
    let dirty = || ComplexVector::filled(n, Z::new(f64::NAN, f64::NAN));
    let mut w = dirty();
    c.ok("complex_vec_add", complex_vec_add(&mut w, a, &u, b, &v));
    cmp(c, "complex_vec_add", &M::cz(&w), &mu.sc(a).plus(&mv.sc(b)), &mu.sc(a).abs().plus(&mv.sc(b).abs()), 4);
    let mut w = dirty();
    c.ok("complex_vec_plus", complex_vec_plus(&mut w, &u, &v));
    cmp(c, "complex_vec_plus", &M::cz(&w), &mu.plus(&mv), &mu.abs().plus(&mv.abs()), 1);
    let mut w = dirty();
    c.ok("complex_vec_minus", complex_vec_minus(&mut w, &u, &v));
    cmp(c, "complex_vec_minus", &M::cz(&w), &mu.minus(&mv), &mu.abs().plus(&mv.abs()), 1);
    let mut w = dirty();
    c.ok("complex_vec_copy", complex_vec_copy(&mut w, &u));
    c.check(w.as_data() == u.as_data(), || "complex_vec_copy differs".to_string());
    let mut w = v.clone();
    c.ok("complex_vec_update", complex_vec_update(&mut w, a, &u));
    cmp(c, "complex_vec_update", &M::cz(&w), &mv.plus(&mu.sc(a)), &mv.abs().plus(&mu.sc(a).abs()), 4);
    let mut w = u.clone();
    complex_vec_scale(&mut w, a);
    cmp(c, "complex_vec_scale", &M::cz(&w), &mu.sc(a), &mu.sc(a).abs(), 4);
    let t = 8.0 * EPS * (n as f64 + 1.0);
    for (kind, want) in [
        (Norm::Euc, mu.fro()),
        (Norm::Fro, mu.fro()),
        (Norm::Inf, mu.max()),
        (Norm::Max, mu.max()),
        (Norm::One, mu.a.iter().map(|x| x.norm()).sum()),
    ] {
        c.close("complex_vec_norm", complex_vec_norm(&u, kind), want, t * want);
    }
    let (mut re, mut im) = (Vector::filled(n, f64::NAN), Vector::filled(n, f64::NAN));
    c.ok("complex_vec_unzip", complex_vec_unzip(&mut re, &mut im, &u));
    c.check((0..n).all(|i| re[i] == u[i].re && im[i] == u[i].im), || "complex_vec_unzip differs".to_string());
    let mut w = dirty();
    c.ok("complex_vec_zip", complex_vec_zip(&mut w, &re, &im));
    c.check(w.as_data() == u.as_data(), || "complex_vec_zip differs".to_string());
}

fn matrices(c: &mut Case) {
    let (m, n) = (bounded(c, 30, 150), bounded(c, 30, 150));
    let (al, be) = (coef(c), coef(c));
    let (a, b) = (rmat(m, n, &mut c.rng), rmat(m, n, &mut c.rng));
    let (ma, mb) = (M::r(&a), M::r(&b));
    c.input(format!("real matrices {}x{} alpha={} beta={} a0={:?}", m, n, al, be, a.as_data().first()));
    let mut w = nan_mat(m, n);
    c.ok("mat_add", mat_add(&mut w, al, &a, be, &b));
    cmp(c, "mat_add", &M::r(&w), &ma.sc(q(al)).plus(&mb.sc(q(be))), &ma.sc(q(al)).abs().plus(&mb.sc(q(be)).abs()), 2);
    let mut w = nan_mat(m, n);
    c.ok("mat_plus", mat_plus(&mut w, &a, &b));
    cmp(c, "mat_plus", &M::r(&w), &ma.plus(&mb), &ma.abs().plus(&mb.abs()), 1);
    let mut w = nan_mat(m, n);
    c.ok("mat_minus", mat_minus(&mut w, &a, &b));
    cmp(c, "mat_minus", &M::r(&w), &ma.minus(&mb), &ma.abs().plus(&mb.abs()), 1);
    let mut w = nan_mat(m, n);
    c.ok("mat_copy", mat_copy(&mut w, &a));
    c.check(w.as_data() == a.as_data(), || "mat_copy differs".to_string());
    let mut w = b.clone();
    c.ok("mat_update", mat_update(&mut w, al, &a));
    cmp(c, "mat_update", &M::r(&w), &mb.plus(&ma.sc(q(al))), &mb.abs().plus(&ma.sc(q(al)).abs()), 2);
    let mut w = a.clone();
    mat_scale(&mut w, al);
    cmp(c, "mat_scale", &M::r(&w), &ma.sc(q(al)), &ma.sc(q(al)).abs(), 1);
    let t = 8.0 * EPS * ((m * n) as f64 + 1.0);
    let one = (0..n).map(|j| (0..m).map(|i| a.get(i, j).abs()).sum::<f64>()).fold(0.0, f64::max);
    let inf = (0..m).map(|i| (0..n).map(|j| a.get(i, j).abs()).sum::<f64>()).fold(0.0, f64::max);
    for (kind, want) in [(Norm::Euc, ma.fro()), (Norm::Fro, ma.fro()), (Norm::Inf, inf), (Norm::Max, ma.max()), (Norm::One, one)] {
        c.close("mat_norm", mat_norm(&a, kind), want, t * want);
    }
    if let Some((i, j, d)) = c.ok("mat_max_abs_diff", mat_max_abs_diff(&a, &b)) {
        let diff = ma.minus(&mb);
        c.close("mat_max_abs_diff", d, diff.max(), 4.0 * EPS);
        c.check(m == 0 || n == 0 || (i < m && j < n && (diff.get(i, j).norm() - diff.max()).abs() <= 4.0 * EPS), || format!("index ({},{}) is not the maximum", i, j));
    }
    // containers
    let tr = a.transposed();
    c.check(tr.dims() == (n, m) && (0..m).all(|i| (0..n).all(|j| tr.get(j, i) == a.get(i, j))), || "transposed differs".to_string());
    if m > 0 && n > 0 {
        let (i, j) = (c.rng.int(0, m - 1), c.rng.int(0, n - 1));
        let (row, col) = (a.extract_row(i), a.extract_column(j));
        c.check(row.len() == n && (0..n).all(|k| row[k] == a.get(i, k)), || "extract_row differs".to_string());
        c.check(col.len() == m && (0..m).all(|k| col[k] == a.get(k, j)), || "extract_column differs".to_string());
        let mut w = a.clone();
        w.add(i, j, 2.0);
        w.mul(i, j, 3.0);
        let want = (a.get(i, j) + 2.0) * 3.0;
        c.check((0..m).all(|p| (0..n).all(|r| if (p, r) == (i, j) { w.get(p, r) == want } else { w.get(p, r) == a.get(p, r) })), || "add/mul touch another component".to_string());
    }
    let dg = Matrix::diagonal(&a.as_data()[..m.min(a.as_data().len())]);
    let dd = dg.dims().0;
    c.check((0..dd).all(|i| (0..dd).all(|j| dg.get(i, j) == if i == j { a.as_data()[i] } else { 0.0 })), || "diagonal differs".to_string());
    let id = Matrix::identity(m);
    c.check((0..m).all(|i| (0..m).all(|j| id.get(i, j) == if i == j { 1.0 } else { 0.0 })), || "identity differs".to_string());
    if m > 0 {
        let sq = rmat(m, m, &mut c.rng);
        let rows: Vec<Vec<f64>> = (0..m).map(|i| sq.extract_row(i)).collect();
        if let Some(lo) = c.ok("from_lower", Matrix::from_lower(&rows)) {
            c.check((0..m).all(|i| (0..m).all(|j| lo.get(i, j) == if i >= j { sq.get(i, j) } else { 0.0 })), || "from_lower differs".to_string());
        }
        if let Some(up) = c.ok("from_upper", Matrix::from_upper(&rows)) {
            c.check((0..m).all(|i| (0..m).all(|j| up.get(i, j) == if i <= j { sq.get(i, j) } else { 0.0 })), || "from_upper differs".to_string());
        }
        let full = Matrix::from(&rows);
        c.check(full.as_data() == sq.as_data(), || "from differs".to_string());
    }
    // band conversion
    if m > 0 && n > 0 {
        let (ml, mu) = (c.rng.int(0, m - 1), c.rng.int(0, n - 1));
        let keep = -7.25;
        let mut band = Matrix::filled(ml + mu + 1, n, keep);
        if c.ok("mat_convert_to_blas_band", mat_convert_to_blas_band(&mut band, &a, ml, mu)).is_some() {
            let mut ok = true;
            for j in 0..n {
                for r in 0..ml + mu + 1 {
                    let i = r as i64 + j as i64 - mu as i64;
                    let want = if i >= 0 && (i as usize) < m { a.get(i as usize, j) } else { keep };
                    ok &= band.get(r, j) == want;
                }
            }
            c.check(ok, || format!("band conversion differs (ml={}, mu={})", ml, mu));
        }
        let mut wrong = Matrix::new(ml + mu + 2, n);
        c.err("mat_convert_to_blas_band", mat_convert_to_blas_band(&mut wrong, &a, ml, mu));
    }
}

fn complex_matrices(c: &mut Case) {
    let (m, n) = (bounded(c, 30, 150), bounded(c, 30, 150));
    let (al, be) = (zcoef(c), zcoef(c));
    let (a, b) = (zmat(m, n, &mut c.rng), zmat(m, n, &mut c.rng));
    let (ma, mb) = (M::z(&a), M::z(&b));
    c.input(format!("complex matrices {}x{} alpha={} beta={} a0={:?}", m, n, al, be, a.as_data().first()));
    let mut w = nan_zmat(m, n);
    c.ok("complex_mat_add", complex_mat_add(&mut w, al, &a, be, &b));
    cmp(c, "complex_mat_add", &M::z(&w), &ma.sc(al).plus(&mb.sc(be)), &ma.sc(al).abs().plus(&mb.sc(be).abs()), 4);
    let mut w = nan_zmat(m, n);
    c.ok("complex_mat_plus", complex_mat_plus(&mut w, &a, &b));
    cmp(c, "complex_mat_plus", &M::z(&w), &ma.plus(&mb), &ma.abs().plus(&mb.abs()), 1);
    let mut w = nan_zmat(m, n);
    c.ok("complex_mat_minus", complex_mat_minus(&mut w, &a, &b));
    cmp(c, "complex_mat_minus", &M::z(&w), &ma.minus(&mb), &ma.abs().plus(&mb.abs()), 1);
    let mut w = nan_zmat(m, n);
    c.ok("complex_mat_copy", complex_mat_copy(&mut w, &a));
    c.check(w.as_data() == a.as_data(), || "complex_mat_copy differs".to_string());
    let mut w = b.clone();
    c.ok("complex_mat_update", complex_mat_update(&mut w, al, &a));
    cmp(c, "complex_mat_update", &M::z(&w), &mb.plus(&ma.sc(al)), &mb.abs().plus(&ma.sc(al).abs()), 4);
    let mut w = a.clone();
    complex_mat_scale(&mut w, al);
    cmp(c, "complex_mat_scale", &M::z(&w), &ma.sc(al), &ma.sc(al).abs(), 4);
    let t = 8.0 * EPS * ((m * n) as f64 + 1.0);
    let one = (0..n).map(|j| (0..m).map(|i| a.get(i, j).norm()).sum::<f64>()).fold(0.0, f64::max);
    let inf = (0..m).map(|i| (0..n).map(|j| a.get(i, j).norm()).sum::<f64>()).fold(0.0, f64::max);
    for (kind, want) in [(Norm::Euc, ma.fro()), (Norm::Fro, ma.fro()), (Norm::Inf, inf), (Norm::Max, ma.max()), (Norm::One, one)] {
        c.close("complex_mat_norm", complex_mat_norm(&a, kind), want, t * want);
    }
    let (mut re, mut im) = (nan_mat(m, n), nan_mat(m, n));
    c.ok("complex_mat_unzip", complex_mat_unzip(&mut re, &mut im, &a));
    c.check((0..m * n).all(|k| re.as_data()[k] == a.as_data()[k].re && im.as_data()[k] == a.as_data()[k].im), || "complex_mat_unzip differs".to_string());
    let mut w = nan_zmat(m, n);
    c.ok("complex_mat_zip", complex_mat_zip(&mut w, &re, &im));
    c.check(w.as_data() == a.as_data(), || "complex_mat_zip differs".to_string());
}

fn products(c: &mut Case) {
    let (m, n, k) = (bounded(c, 40, 200), bounded(c, 40, 200), bounded(c, 40, 200));
    let (al, be) = (coef(c), coef(c));
    let tag = c.rng.unit();
    c.input(format!("products m={} n={} k={} alpha={} beta={} r={}", m, n, k, al, be, tag));
    // C := alpha A B + beta C
    let (a, b) = (rmat(m, k, &mut c.rng), rmat(k, n, &mut c.rng));
    let c0 = if be == 0.0 { nan_mat(m, n) } else { rmat(m, n, &mut c.rng) };
    let base = if be == 0.0 { M::new(m, n) } else { M::r(&c0).sc(q(be)) };
    let want = M::r(&a).mul(&M::r(&b)).sc(q(al)).plus(&base);
    let scale = M::r(&a).abs().mul(&M::r(&b).abs()).sc(q(al.abs())).plus(&base.abs());
    let mut cc = c0.clone();
    c.ok("mat_mat_mul", mat_mat_mul(&mut cc, al, &a, &b, be));
    cmp(c, "mat_mat_mul", &M::r(&cc), &want, &scale, k);
    let at = a.transposed();
    let mut cc = c0.clone();
    c.ok("mat_t_mat_mul", mat_t_mat_mul(&mut cc, al, &at, &b, be));
    cmp(c, "mat_t_mat_mul", &M::r(&cc), &want, &scale, k);
    // symmetric rank
    for upper in [false, true] {
        for second in [false, true] {
            let aa = if second { rmat(k, n, &mut c.rng) } else { rmat(n, k, &mut c.rng) };
            let g = M::r(&aa);
            let prod = if second { g.t().mul(&g) } else { g.mul(&g.t()) };
            let sabs = if second { g.abs().t().mul(&g.abs()) } else { g.abs().mul(&g.abs().t()) };
            let s0 = rmat(n, n, &mut c.rng);
            let mut s = s0.clone();
            // the other triangle is not referenced
            for i in 0..n {
                for j in 0..n {
                    if (upper && i > j) || (!upper && i < j) {
                        s.set(i, j, 777.0);
                    }
                }
            }
            let before = M::r(&s);
            c.ok("mat_sym_rank_op", mat_sym_rank_op(&mut s, &aa, al, be, upper, second));
            let mut want = before.clone();
            let mut scale = before.abs();
            for i in 0..n {
                for j in 0..n {
                    if (upper && i <= j) || (!upper && i >= j) {
                        want.set(i, j, prod.get(i, j) * al + before.get(i, j) * be);
                        scale.set(i, j, sabs.get(i, j) * al.abs() + before.get(i, j).norm() * be.abs());
                    }
                }
            }
            cmp(c, "mat_sym_rank_op", &M::r(&s), &want, &scale, k);
        }
    }
    // matrix-vector
    let a = rmat(m, n, &mut c.rng);
    let (u, w) = (rvec(n, &mut c.rng), rvec(m, &mut c.rng));
    let ga = M::r(&a);
    let want = ga.mul(&M::cr(&u)).sc(q(al));
    let scale = ga.abs().mul(&M::cr(&u).abs()).sc(q(al.abs()));
    let mut v = Vector::filled(m, f64::NAN);
    c.ok("mat_vec_mul", mat_vec_mul(&mut v, al, &a, &u));
    cmp(c, "mat_vec_mul", &M::cr(&v), &want, &scale, n);
    let v0 = if be == 0.0 { Vector::filled(m, f64::NAN) } else { rvec(m, &mut c.rng) };
    let base = if be == 0.0 { M::new(m, 1) } else { M::cr(&v0).sc(q(be)) };
    let mut v = v0.clone();
    c.ok("mat_vec_mul_update", mat_vec_mul_update(&mut v, al, &a, &u, be));
    cmp(c, "mat_vec_mul_update", &M::cr(&v), &want.plus(&base), &scale.plus(&base.abs()), n);
    let want = ga.t().mul(&M::cr(&w)).sc(q(al));
    let scale = ga.abs().t().mul(&M::cr(&w).abs()).sc(q(al.abs()));
    let mut v = Vector::filled(n, f64::NAN);
    c.ok("vec_mat_mul", vec_mat_mul(&mut v, al, &w, &a));
    cmp(c, "vec_mat_mul", &M::cr(&v), &want, &scale, m);
    // outer
    let outer = M::cr(&w).mul(&M::cr(&u).t()).sc(q(al));
    let mut o = nan_mat(m, n);
    c.ok("vec_outer", vec_outer(&mut o, al, &w, &u));
    cmp(c, "vec_outer", &M::r(&o), &outer, &outer.abs(), 2);
    let mut o = a.clone();
    c.ok("vec_outer_update", vec_outer_update(&mut o, al, &w, &u));
    cmp(c, "vec_outer_update", &M::r(&o), &outer.plus(&ga), &outer.abs().plus(&ga.abs()), 3);
    // sums
    let mut v = Vector::filled(n, f64::NAN);
    c.ok("mat_sum_rows", mat_sum_rows(&mut v, &a));
    let ones = M::cr(&Vector::filled(m, 1.0)).t();
    cmp(c, "mat_sum_rows", &M::cr(&v).t(), &ones.mul(&ga), &ones.mul(&ga.abs()), m);
    let mut v = Vector::filled(m, f64::NAN);
    c.ok("mat_sum_cols", mat_sum_cols(&mut v, &a));
    let ones = M::cr(&Vector::filled(n, 1.0));
    cmp(c, "mat_sum_cols", &M::cr(&v), &ga.mul(&ones), &ga.abs().mul(&ones), n);
}

fn complex_products(c: &mut Case) {
    let (m, n, k) = (bounded(c, 30, 120), bounded(c, 30, 120), bounded(c, 30, 120));
    let (al, be) = (zcoef(c), zcoef(c));
    let zero = Z::new(0.0, 0.0);
    c.input(format!("complex products m={} n={} k={} alpha={} beta={}", m, n, k, al, be));
    let (a, b) = (zmat(m, k, &mut c.rng), zmat(k, n, &mut c.rng));
    let c0 = if be == zero { nan_zmat(m, n) } else { zmat(m, n, &mut c.rng) };
    let base = if be == zero { M::new(m, n) } else { M::z(&c0).sc(be) };
    let want = M::z(&a).mul(&M::z(&b)).sc(al).plus(&base);
    let scale = M::z(&a).abs().mul(&M::z(&b).abs()).sc(q(al.norm())).plus(&base.abs());
    let mut cc = c0.clone();
    c.ok("complex_mat_mat_mul", complex_mat_mat_mul(&mut cc, al, &a, &b, be));
    cmp(c, "complex_mat_mat_mul", &M::z(&cc), &want, &scale, 2 * k + 4);
    let at = a.transposed();
    let mut cc = c0.clone();
    c.ok("complex_mat_t_mat_mul", complex_mat_t_mat_mul(&mut cc, al, &at, &b, be));
    cmp(c, "complex_mat_t_mat_mul", &M::z(&cc), &want, &scale, 2 * k + 4);
    for upper in [false, true] {
        for second in [false, true] {
            for herm in [false, true] {
                let aa = if second { zmat(k, n, &mut c.rng) } else { zmat(n, k, &mut c.rng) };
                let g = M::z(&aa);
                let gt = if herm { g.h() } else { g.t() };
                let prod = if second { gt.mul(&g) } else { g.mul(&gt) };
                let sabs = if second { g.abs().t().mul(&g.abs()) } else { g.abs().mul(&g.abs().t()) };
                let mut s = zmat(n, n, &mut c.rng);
                for i in 0..n {
                    for j in 0..n {
                        if (upper && i > j) || (!upper && i < j) {
                            s.set(i, j, q(777.0));
                        }
                        if herm && i == j {
                            let x = s.get(i, j).re;
                            s.set(i, j, q(x));
                        }
                    }
                }
                let before = M::z(&s);
                let (fa, fb);
                if herm {
                    (fa, fb) = (q(al.re), q(be.re));
                    c.ok("complex_mat_herm_rank_op", complex_mat_herm_rank_op(&mut s, &aa, al.re, be.re, upper, second));
                } else {
                    (fa, fb) = (al, be);
                    c.ok("complex_mat_sym_rank_op", complex_mat_sym_rank_op(&mut s, &aa, al, be, upper, second));
                }
                let mut want = before.clone();
                let mut scale = before.abs();
                for i in 0..n {
                    for j in 0..n {
                        if (upper && i <= j) || (!upper && i >= j) {
                            want.set(i, j, prod.get(i, j) * fa + before.get(i, j) * fb);
                            scale.set(i, j, sabs.get(i, j) * fa.norm() + before.get(i, j).norm() * fb.norm());
                        }
                    }
                }
                cmp(c, if herm { "complex_mat_herm_rank_op" } else { "complex_mat_sym_rank_op" }, &M::z(&s), &want, &scale, 2 * k + 4);
            }
        }
    }
    let a = zmat(m, n, &mut c.rng);
    let (u, w) = (zvec(n, &mut c.rng), zvec(m, &mut c.rng));
    let ga = M::z(&a);
    let mut v = ComplexVector::filled(m, Z::new(f64::NAN, f64::NAN));
    c.ok("complex_mat_vec_mul", complex_mat_vec_mul(&mut v, al, &a, &u));
    cmp(c, "complex_mat_vec_mul", &M::cz(&v), &ga.mul(&M::cz(&u)).sc(al), &ga.abs().mul(&M::cz(&u).abs()).sc(q(al.norm())), 2 * n + 4);
    let mut v = ComplexVector::filled(n, Z::new(f64::NAN, f64::NAN));
    c.ok("complex_vec_mat_mul", complex_vec_mat_mul(&mut v, al, &w, &a));
    cmp(c, "complex_vec_mat_mul", &M::cz(&v), &ga.t().mul(&M::cz(&w)).sc(al), &ga.abs().t().mul(&M::cz(&w).abs()).sc(q(al.norm())), 2 * m + 4);
}

fn small_n<const N: usize>(c: &mut Case) {
    let n = c.rng.int(0, N);
    let (al, be) = (coef(c), coef(c));
    let tag = c.rng.unit();
    c.input(format!("small N={} n={} alpha={} beta={} r={}", N, n, al, be, tag));
    let mut rnd = || {
        let mut a = [[0.0; N]; N];
        for r in a.iter_mut() {
            for x in r.iter_mut() {
                *x = c.rng.sym();
            }
        }
        a
    };
    let (a, b, c0) = (rnd(), rnd(), rnd());
    let mut cc = c0;
    if be == 0.0 {
        // output only
        for i in 0..n {
            for j in 0..n {
                cc[i][j] = f64::NAN;
            }
        }
    }
    small_mat_mat_mul(&mut cc, al, &a, &b, be, n);
    let mut ok = true;
    for i in 0..N {
        for j in 0..N {
            let want = if i < n && j < n { al * (0..n).map(|k| a[i][k] * b[k][j]).sum::<f64>() + be * c0[i][j] } else { c0[i][j] };
            ok &= (cc[i][j] - want).abs() <= 1e-14 * (al.abs() * N as f64 + be.abs());
        }
    }
    c.check(ok, || "small_mat_mat_mul differs".to_string());
    let mut cc = c0;
    small_mat_add(&mut cc, al, &a, be, &b, n);
    let mut dd = c0;
    small_mat_update(&mut dd, al, &a, n);
    let mut ok = true;
    for i in 0..N {
        for j in 0..N {
            let act = i < n && j < n;
            let w1 = if act { al * a[i][j] + be * b[i][j] } else { c0[i][j] };
            let w2 = if act { c0[i][j] + al * a[i][j] } else { c0[i][j] };
            ok &= (cc[i][j] - w1).abs() <= 1e-15 * (al.abs() + be.abs()) && (dd[i][j] - w2).abs() <= 1e-15 * (1.0 + al.abs());
        }
    }
    c.check(ok, || "small_mat_add / small_mat_update differ".to_string());
    let (mut w, mut x) = (c0[0], c0[0]);
    small_vec_add(&mut w, al, &a[0], be, &b[0], n);
    small_vec_update(&mut x, al, &a[0], n);
    let mut ok = true;
    for i in 0..N {
        let w1 = if i < n { al * a[0][i] + be * b[0][i] } else { c0[0][i] };
        let w2 = if i < n { c0[0][i] + al * a[0][i] } else { c0[0][i] };
        ok &= (w[i] - w1).abs() <= 1e-15 * (al.abs() + be.abs()) && (x[i] - w2).abs() <= 1e-15 * (1.0 + al.abs());
    }
    c.check(ok, || "small_vec_add / small_vec_update differ".to_string());
    c.count("small operations");
}

/// The operations are homogeneous: a factor may be moved from one operand to another
fn homogeneous(c: &mut Case) {
    let (m, n, k) = (c.rng.int(1, 12), c.rng.int(1, 12), c.rng.int(1, 12));
    // alpha 2^-(p+r), first operand 2^p, second operand 2^r
    let (p, r) = (c.rng.int(0, 560) as i32 - 280, c.rng.int(0, 560) as i32 - 280);
    let (fp, fr, fa) = (2f64.powi(p), 2f64.powi(r), 2f64.powi(-(p + r)));
    let al = c.rng.mag(-1.0, 1.0);
    c.input(format!("homogeneity m={} n={} k={} alpha={} first operand times 2^{} second operand times 2^{}", m, n, k, al, p, r));
    let scaled = |a: &Matrix, f: f64| {
        let mut b = a.clone();
        for x in b.as_mut_data() {
            *x *= f;
        }
        b
    };
    let vscaled = |a: &Vector, f: f64| {
        let mut b = a.clone();
        for x in b.as_mut_data() {
            *x *= f;
        }
        b
    };
    let zero = |m: usize, n: usize| Matrix::new(m, n);
    // products
    let (a, b) = (rmat(m, k, &mut c.rng), rmat(k, n, &mut c.rng));
    let (sa, sb) = (scaled(&a, fp), scaled(&b, fr));
    let (ga, gb) = (M::r(&a), M::r(&b));
    let want = ga.mul(&gb).sc(q(al));
    let scale = ga.abs().mul(&gb.abs()).sc(q(al.abs()));
    for beta in [0.0, 1.0] {
        let mut o = zero(m, n);
        c.ok("mat_mat_mul", mat_mat_mul(&mut o, al * fa, &sa, &sb, beta));
        cmp(c, "mat_mat_mul (scaled)", &M::r(&o), &want, &scale, k);
        let mut o = zero(m, n);
        c.ok("mat_t_mat_mul", mat_t_mat_mul(&mut o, al * fa, &sa.transposed(), &sb, beta));
        cmp(c, "mat_t_mat_mul (scaled)", &M::r(&o), &want, &scale, k);
    }
    let (u, w) = (rvec(k, &mut c.rng), rvec(m, &mut c.rng));
    let (su, sw) = (vscaled(&u, fr), vscaled(&w, fr));
    let want = ga.mul(&M::cr(&u)).sc(q(al));
    let scale = ga.abs().mul(&M::cr(&u).abs()).sc(q(al.abs()));
    let mut o = Vector::filled(m, f64::NAN);
    c.ok("mat_vec_mul", mat_vec_mul(&mut o, al * fa, &sa, &su));
    cmp(c, "mat_vec_mul (scaled)", &M::cr(&o), &want, &scale, k);
    let mut o = Vector::new(m);
    c.ok("mat_vec_mul_update", mat_vec_mul_update(&mut o, al * fa, &sa, &su, 1.0));
    cmp(c, "mat_vec_mul_update (scaled)", &M::cr(&o), &want, &scale, k);
    let mut o = Vector::filled(k, f64::NAN);
    c.ok("vec_mat_mul", vec_mat_mul(&mut o, al * fa, &sw, &sa));
    cmp(c, "vec_mat_mul (scaled)", &M::cr(&o), &ga.t().mul(&M::cr(&w)).sc(q(al)), &ga.abs().t().mul(&M::cr(&w).abs()).sc(q(al.abs())), m);
    let spw = vscaled(&w, fp);
    let outer = M::cr(&w).mul(&M::cr(&u).t()).sc(q(al));
    let mut o = nan_mat(m, k);
    c.ok("vec_outer", vec_outer(&mut o, al * fa, &spw, &su));
    cmp(c, "vec_outer (scaled)", &M::r(&o), &outer, &outer.abs(), 2);
    let mut o = zero(m, k);
    c.ok("vec_outer_update", vec_outer_update(&mut o, al * fa, &spw, &su));
    cmp(c, "vec_outer_update (scaled)", &M::r(&o), &outer, &outer.abs(), 3);
    let mut o = zero(m, m);
    let (half, up) = (2f64.powi(-2 * p), c.rng.bool());
    c.ok("mat_sym_rank_op", mat_sym_rank_op(&mut o, &sa, al * half, 1.0, up, false));
    let mut want = ga.mul(&ga.t()).sc(q(al));
    let mut scale = ga.abs().mul(&ga.abs().t()).sc(q(al.abs()));
    for i in 0..m {
        for j in 0..m {
            if (up && i > j) || (!up && i < j) {
                want.set(i, j, q(0.0));
                scale.set(i, j, q(0.0));
            }
        }
    }
    cmp(c, "mat_sym_rank_op (scaled)", &M::r(&o), &want, &scale, k);
    // the combinations: each term has a factor of its own
    let v = rvec(m, &mut c.rng);
    let (be, sv) = (c.rng.sym(), vscaled(&v, fr));
    let (mw, mv) = (M::cr(&w), M::cr(&v));
    let (want, scale) = (mw.sc(q(al)).plus(&mv.sc(q(be))), mw.sc(q(al)).abs().plus(&mv.sc(q(be)).abs()));
    let mut o = Vector::filled(m, f64::NAN);
    c.ok("vec_add", vec_add(&mut o, al / fp, &spw, be / fr, &sv));
    cmp(c, "vec_add (scaled)", &M::cr(&o), &want, &scale, 2);
    let mut o = vscaled(&v, be);
    c.ok("vec_update", vec_update(&mut o, al / fp, &spw));
    cmp(c, "vec_update (scaled)", &M::cr(&o), &want, &scale, 3);
    let mut o = Vector::filled(m, f64::NAN);
    c.ok("vec_copy_scaled", vec_copy_scaled(&mut o, al / fp, &spw));
    cmp(c, "vec_copy_scaled (scaled)", &M::cr(&o), &mw.sc(q(al)), &mw.sc(q(al)).abs(), 1);
    let mut o = spw.clone();
    vec_scale(&mut o, al / fp);
    cmp(c, "vec_scale (scaled)", &M::cr(&o), &mw.sc(q(al)), &mw.sc(q(al)).abs(), 1);
    let b2 = rmat(m, k, &mut c.rng);
    let (sb2, gb2) = (scaled(&b2, fr), M::r(&b2));
    let (want, scale) = (ga.sc(q(al)).plus(&gb2.sc(q(be))), ga.sc(q(al)).abs().plus(&gb2.sc(q(be)).abs()));
    let mut o = nan_mat(m, k);
    c.ok("mat_add", mat_add(&mut o, al / fp, &sa, be / fr, &sb2));
    cmp(c, "mat_add (scaled)", &M::r(&o), &want, &scale, 2);
    let mut o = scaled(&b2, be);
    c.ok("mat_update", mat_update(&mut o, al / fp, &sa));
    cmp(c, "mat_update (scaled)", &M::r(&o), &want, &scale, 3);
    let mut o = sa.clone();
    mat_scale(&mut o, al / fp);
    cmp(c, "mat_scale (scaled)", &M::r(&o), &ga.sc(q(al)), &ga.sc(q(al)).abs(), 1);
    // measures
    for kind in [Norm::Euc, Norm::Fro, Norm::Inf, Norm::Max, Norm::One] {
        let t = 100.0 * EPS * (m * k) as f64;
        let (x, y) = (mat_norm(&sa, kind) / fp, mat_norm(&a, kind));
        c.close("mat_norm (scaled)", x, y, t * y);
        let (x, y) = (vec_norm(&spw, kind) / fp, vec_norm(&w, kind));
        c.close("vec_norm (scaled)", x, y, t * y);
        let (x, y) = (vec_norm_diff(&spw, &vscaled(&v, fp), kind) / fp, vec_norm_diff(&w, &v, kind));
        c.close("vec_norm_diff (scaled)", x, y, t * (y + vec_norm(&w, kind)));
    }
    let dot = vec_inner(&w, &v);
    let mag: f64 = (0..m).map(|i| (w[i] * v[i]).abs()).sum();
    c.close("vec_inner (scaled)", vec_inner(&spw, &sv) / fp / fr, dot, 50.0 * EPS * m as f64 * mag);
    if let (Ok((i, x)), Ok((j, y))) = (vec_max_abs_diff(&spw, &vscaled(&v, fp)), vec_max_abs_diff(&w, &v)) {
        c.check(i == j && x / fp == y, || format!("vec_max_abs_diff: {} {} instead of {} {}", i, x / fp, j, y));
    }
    if let (Ok(x), Ok(y)) = (mat_max_abs_diff(&sa, &scaled(&b2, fp)), mat_max_abs_diff(&a, &b2)) {
        c.check((x.0, x.1) == (y.0, y.1) && x.2 / fp == y.2, || format!("mat_max_abs_diff: {:?} instead of {:?}", x, y));
    }
    c.count("scaled operands");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random operands of sizes 0..70 with coefficients including 0 and +-1; pure outputs pre-filled with NaN; componentwise comparison with textbook loops within a forward error bound; non-trivial: distinct sizes/coefficients/operands");
    let n = cx.n(3000, 40000);
    cx.run("vectors", n, vectors);
    cx.run("complex-vectors", n, complex_vectors);
    cx.run("matrices", n, matrices);
    cx.run("complex-matrices", n, complex_matrices);
    cx.run("products", n, products);
    cx.run("complex-products", n / 2, complex_products);
    cx.run("homogeneous", n, homogeneous);
    cx.run("small-2", n / 2, small_n::<2>);
    cx.run("small-3", n / 2, small_n::<3>);
    cx.run("small-6", n / 2, small_n::<6>);
    cx.require("small operations", 1000);
    cx.require("scaled operands", n as u64 / 2);
}
