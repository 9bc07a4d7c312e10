use crate::common::*;
use harness::{Case, Ctx, EPS};
use num_complex::Complex64;
use russell_lab::{ComplexVector, NumVector, Vector};
use russell_sparse::{NumCooMatrix, NumCscMatrix, NumCsrMatrix, Sym, VerifyLinSys, numerical_jacobian};

fn gen_alpha<T: Sc>(c: &mut Case) -> T {
    match c.rng.int(0, 3) {
        0 => T::zero(),
        1 => T::one(),
        _ => T::gen_any(&mut c.rng),
    }
}

fn cmp<T: Sc>(c: &mut Case, what: &'static str, got: &NumVector<T>, want: &[T], scale: &[f64], ops: usize) {
    for i in 0..want.len() {
        let e = (got[i] - want[i]).mag();
        let tol = 8.0 * EPS * (ops as f64 + 4.0) * scale[i] + 1e-300;
        if !(e <= tol) {
            c.fail(format!("{}[{}]: got {:?} want {:?} (error {:e} > {:e})", what, i, got[i], want[i], e, tol));
            return;
        }
        c.max(what, e / tol);
    }
    c.check(true, String::new);
}

fn matvec<T: Sc>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (m, n) = gen_dims(&mut c.rng, sym, 30);
    let count = c.rng.int(1, (m * n * 2).min(usize::max(120, 3 * (m + n))));
    let entries = gen_entries::<T>(&mut c.rng, m, n, sym, count, false);
    let coo = build(m, n, sym, &entries, c.rng.int(0, 2));
    let model = Dense::from_entries(m, n, sym, &entries);
    let alpha: T = gen_alpha(c);
    let u = gen_vec::<T>(&mut c.rng, n);
    let ut = gen_vec::<T>(&mut c.rng, m);
    c.input(format!("{}x{} {:?} complex={} nnz={} alpha={:?} u={:?} e={:?}", m, n, sym, T::COMPLEX, count, alpha, u, entries));
    // |A| |u| with duplicates not cancelled
    let abs_entries: Vec<(usize, usize, f64)> = entries.iter().map(|e| (e.0, e.1, e.2.mag())).collect();
    let model_abs = Dense::<f64>::from_entries(m, n, sym, &abs_entries);
    let (mut want, _) = model.mul(&u, false);
    let ua: Vec<f64> = u.iter().map(|x| x.mag()).collect();
    let (mut scale, _) = model_abs.mul(&ua, false);
    for i in 0..m {
        want[i] = alpha * want[i];
        scale[i] *= alpha.mag();
    }
    let vu = vector_from(&u);
    let dirty = |k: usize| {
        let mut v = NumVector::<T>::new(k);
        v.fill(T::nan());
        v
    };
    // triplets
    let mut v = dirty(m);
    c.ok("coo mat_vec_mul", coo.mat_vec_mul(&mut v, alpha, &vu));
    cmp(c, "coo A*u", &v, &want, &scale, count);
    // compressed
    let csc = NumCscMatrix::from_coo(&coo).unwrap();
    let mut v = dirty(m);
    c.ok("csc mat_vec_mul", csc.mat_vec_mul(&mut v, alpha, &vu));
    cmp(c, "csc A*u", &v, &want, &scale, count);
    let csr = NumCsrMatrix::from_coo(&coo).unwrap();
    let mut v = dirty(m);
    c.ok("csr mat_vec_mul", csr.mat_vec_mul(&mut v, alpha, &vu));
    cmp(c, "csr A*u", &v, &want, &scale, count);
    // accumulating
    let v0 = gen_vec::<T>(&mut c.rng, m);
    let mut v = vector_from(&v0);
    c.ok("coo mat_vec_mul_update", coo.mat_vec_mul_update(&mut v, alpha, &vu));
    let w2: Vec<T> = (0..m).map(|i| v0[i] + want[i]).collect();
    let s2: Vec<f64> = (0..m).map(|i| v0[i].mag() + scale[i]).collect();
    cmp(c, "coo v+A*u", &v, &w2, &s2, count);
    // transpose
    let (mut wt, _) = model.mul(&ut, true);
    let uta: Vec<f64> = ut.iter().map(|x| x.mag()).collect();
    let (mut st, _) = model_abs.mul(&uta, true);
    for i in 0..n {
        wt[i] = alpha * wt[i];
        st[i] *= alpha.mag();
    }
    let mut v = dirty(n);
    c.ok("coo mat_t_vec_mul", coo.mat_t_vec_mul(&mut v, alpha, &vector_from(&ut)));
    cmp(c, "coo At*u", &v, &wt, &st, count);
    // longer vectors are documented as admissible for the triplet form
    if c.rng.chance(0.2) {
        let mut ul = u.clone();
        ul.push(T::gen_any(&mut c.rng));
        let mut v = dirty(m + 2);
        c.ok("coo mat_vec_mul (longer vectors)", coo.mat_vec_mul(&mut v, alpha, &vector_from(&ul)));
        cmp(c, "coo A*u longer", &v, &want, &scale, count);
        let mut v0l = v0.clone();
        v0l.push(T::one());
        let mut v = vector_from(&v0l);
        c.ok("coo mat_vec_mul_update (longer vectors)", coo.mat_vec_mul_update(&mut v, alpha, &vector_from(&ul)));
        cmp(c, "coo v+A*u longer", &v, &w2, &s2, count);
        c.check(v[m] == T::one(), || "update touched entries beyond the rows".to_string());
        let mut utl = ut.clone();
        utl.push(T::gen_any(&mut c.rng));
        let mut v = dirty(n + 1);
        c.ok("coo mat_t_vec_mul (longer vectors)", coo.mat_t_vec_mul(&mut v, alpha, &vector_from(&utl)));
        cmp(c, "coo At*u longer", &v, &wt, &st, count);
    }
    c.count("products");
    if sym.triangular() {
        c.count("triangular products");
    }
}

fn assembly<T: Sc>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (m, n) = gen_dims(&mut c.rng, sym, 9);
    let ca = c.rng.int(1, 15);
    let cb = c.rng.int(1, 15);
    let ea = gen_entries::<T>(&mut c.rng, m, n, sym, ca, true);
    let eb = gen_entries::<T>(&mut c.rng, m, n, sym, cb, true);
    let b = build(m, n, sym, &eb, 0);
    let alpha = match c.rng.int(0, 2) {
        0 => T::zero(),
        1 => T::one(),
        _ => T::gen_exact(&mut c.rng),
    };
    c.input(format!("{}x{} {:?} complex={} alpha={:?} a={:?} b={:?}", m, n, sym, T::COMPLEX, alpha, ea, eb));
    let scaled: Vec<(usize, usize, T)> = eb.iter().map(|e| (e.0, e.1, alpha * e.2)).collect();
    // assign
    let mut a = build(m, n, sym, &ea, cb);
    c.ok("assign", a.assign(alpha, &b));
    let model = Dense::from_entries(m, n, sym, &scaled);
    c.check(model.same(&a.as_dense()) && a.get_nnz() == cb, || format!("assign differs: {:?} want {:?}", a.as_dense().as_data(), model.a));
    // assign twice does not accumulate
    c.ok("assign", a.assign(alpha, &b));
    c.check(model.same(&a.as_dense()), || "second assign differs".to_string());
    // add
    let mut a = build(m, n, sym, &ea, cb);
    c.ok("add", a.add(alpha, &b));
    let mut all = ea.clone();
    all.extend_from_slice(&scaled);
    let model = Dense::from_entries(m, n, sym, &all);
    c.check(model.same(&a.as_dense()), || format!("add differs: {:?} want {:?}", a.as_dense().as_data(), model.a));
    // add a smaller matrix to a bigger one
    let (mm, nn) = if sym == Sym::No { (m + c.rng.int(0, 2), n + c.rng.int(0, 2)) } else { (m + 1, m + 1) };
    let mut a = NumCooMatrix::<T>::new(mm, nn, cb, sym).unwrap();
    c.ok("add smaller", a.add(alpha, &b));
    let model = Dense::from_entries(mm, nn, sym, &scaled);
    c.check(model.same(&a.as_dense()), || "add of a smaller matrix differs".to_string());
    // no capacity: error
    if cb > 1 {
        let mut a = NumCooMatrix::<T>::new(m, n, cb - 1, sym).unwrap();
        c.err("assign beyond capacity", a.assign(alpha, &b));
        let mut a = NumCooMatrix::<T>::new(m, n, cb - 1, sym).unwrap();
        c.err("add beyond capacity", a.add(alpha, &b));
    }
    // incompatible
    let other = if sym == Sym::No { Sym::YesFull } else { Sym::No };
    let k = m.max(n);
    let mut a = NumCooMatrix::<T>::new(k, k, 50, other).unwrap();
    c.err("assign other storage", a.assign(alpha, &b));
    c.err("add other storage", a.add(alpha, &b));
    if m > 1 {
        let (m2, n2) = if sym == Sym::No { (m - 1, n) } else { (m - 1, m - 1) };
        let mut a = NumCooMatrix::<T>::new(m2, n2, 50, sym).unwrap();
        c.err("assign to a smaller matrix", a.assign(alpha, &b));
        c.err("add to a smaller matrix", a.add(alpha, &b));
        c.check(a.get_nnz() == 0, || "rejected add left entries behind".to_string());
    }
    c.count("assemblies");
}

fn lagrange<T: Sc>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let p = c.rng.int(1, 4); // rows of B
    let q = c.rng.int(1, 6); // columns of B
    let cb = c.rng.int(1, 10);
    let eb = gen_entries::<T>(&mut c.rng, p, q, Sym::No, cb, true);
    let bb = build(p, q, Sym::No, &eb, 0);
    let n = p + q + c.rng.int(0, 1);
    let kk = c.rng.int(1, 10);
    let ea = gen_entries::<T>(&mut c.rng, q, q, sym, kk, true);
    let need = ea.len() + if sym.triangular() { cb } else { 2 * cb };
    let mut a = NumCooMatrix::<T>::new(n, n, need, sym).unwrap();
    for e in &ea {
        a.put(e.0, e.1, e.2).unwrap();
    }
    c.input(format!("{:?} complex={} B={}x{} {:?} A={:?}", sym, T::COMPLEX, p, q, eb, ea));
    c.ok("put_lagrange_block", a.put_lagrange_block(&bb));
    let mut full: Vec<(usize, usize, T)> = Vec::new();
    for e in &ea {
        full.push(*e);
        if sym.triangular() && e.0 != e.1 {
            full.push((e.1, e.0, e.2));
        }
    }
    for e in &eb {
        full.push((q + e.0, e.1, e.2));
        full.push((e.1, q + e.0, e.2));
    }
    let model = Dense::from_entries(n, n, Sym::No, &full);
    c.check(model.same(&a.as_dense()), || format!("lagrange block differs: {:?} want {:?}", a.as_dense().as_data(), model.a));
    let mut small = NumCooMatrix::<T>::new(p + q - 1, p + q - 1, 100, sym);
    if let Ok(s) = small.as_mut() {
        c.err("lagrange block too big", s.put_lagrange_block(&bb));
    }
    let bsym = NumCooMatrix::<T>::new(q, q, 2, Sym::YesFull).unwrap();
    c.err("symmetric lagrange block", a.put_lagrange_block(&bsym));
    c.count("lagrange blocks");
}

fn jacobian(c: &mut Case) {
    let ndim = c.rng.int(1, 6);
    let sym = *c.rng.pick(&SYMS);
    let symmetric = sym != Sym::No;
    // f_i = sum_j a_ij y_j + b_i y_i^2 + x c_i  (+ symmetric coupling d * prod)
    let mut a = vec![vec![0.0; ndim]; ndim];
    for i in 0..ndim {
        for j in 0..ndim {
            a[i][j] = if c.rng.chance(0.3) { 0.0 } else { c.rng.f(-3.0, 3.0) };
        }
    }
    if symmetric {
        for i in 0..ndim {
            for j in 0..i {
                a[i][j] = a[j][i];
            }
        }
    }
    let b = c.rng.vec(ndim);
    let d = c.rng.vec(ndim);
    let x = c.rng.f(-2.0, 2.0);
    let alpha = *c.rng.pick(&[1.0, -2.5, 0.5, 0.0]);
    let extra = if c.rng.chance(0.3) { 1 } else { 0 };
    let wide = c.rng.chance(0.4);
    let y0 = (0..ndim + extra)
        .map(|_| match c.rng.int(0, 4) {
            0 => 0.0,
            1 | 2 if wide => c.rng.mag(-14.0, 0.0),
            _ => c.rng.f(-3.0, 3.0),
        })
        .collect::<Vec<_>>();
    c.input(format!("ndim={} {:?} alpha={} x={} y={:?} a={:?} b={:?}", ndim, sym, alpha, x, y0, a, b));
    let tri = sym.triangular();
    let need = if tri { (ndim + ndim * ndim) / 2 } else { ndim * ndim };
    let big = ndim + if c.rng.chance(0.3) { 1 } else { 0 };
    let mut jj = NumCooMatrix::<f64>::new(big, big, need + c.rng.int(0, 2), sym).unwrap();
    if c.rng.bool() {
        jj.put(0, 0, 123.0).unwrap(); // must be cleared
    }
    let mut y = Vector::from(&y0);
    let mut w1 = Vector::new(ndim + extra);
    let mut w2 = Vector::new(ndim + extra);
    let mut calls = 0usize;
    let mut bad_x = false;
    struct Args {
        n: usize,
    }
    let mut args = Args { n: 0 };
    let res = numerical_jacobian(&mut jj, ndim, alpha, x, &mut y, &mut w1, &mut w2, &mut args, |f, xx, yy, args: &mut Args| {
        calls += 1;
        args.n += 1;
        bad_x |= xx != x;
        for i in 0..ndim {
            f[i] = b[i] * yy[i] * yy[i] + xx * d[i];
            for j in 0..ndim {
                f[i] += a[i][j] * yy[j];
            }
        }
        Ok(())
    });
    c.ok("numerical_jacobian", res);
    c.check(calls == ndim + 1 && args.n == calls, || format!("{} calls, want {}", calls, ndim + 1));
    c.check(!bad_x, || "function called at another station".to_string());
    c.check(y.as_data().as_slice() == y0.as_slice(), || "y not restored".to_string());
    let dense = jj.as_dense();
    let mut ok = true;
    let mut worst = 0.0;
    for i in 0..big {
        for j in 0..big {
            let want = if i < ndim && j < ndim { alpha * (a[i][j] + if i == j { 2.0 * b[i] * y0[i] } else { 0.0 }) } else { 0.0 };
            let e = f64::abs(dense.get(i, j) - want);
            worst = f64::max(worst, e);
            ok &= e <= 5e-4;
        }
    }
    c.check(ok, || format!("numerical Jacobian differs by {:e}", worst));
    c.max("numerical jacobian", worst / 5e-4);
    // errors
    let mut small = NumCooMatrix::<f64>::new(ndim, ndim, need.max(2) - 1, sym).unwrap();
    if need >= 2 {
        c.err(
            "jacobian without capacity",
            numerical_jacobian(&mut small, ndim, alpha, x, &mut y, &mut w1, &mut w2, &mut 0, |_, _, _, _| Ok(())),
        );
    }
    let mut jj = NumCooMatrix::<f64>::new(ndim, ndim, need, sym).unwrap();
    let fail_at = c.rng.int(1, ndim + 1);
    let mut k = 0;
    let r = numerical_jacobian(&mut jj, ndim, alpha, x, &mut y, &mut w1, &mut w2, &mut 0, |f, _, _, _| {
        k += 1;
        f.fill(0.0);
        if k == fail_at { Err("injected") } else { Ok(()) }
    });
    c.check(r == Err("injected"), || format!("callback error lost: {:?}", r));
    c.count("jacobians");
}

fn verify(c: &mut Case) {
    let (m, n) = gen_dims(&mut c.rng, Sym::No, 10);
    let cnt = c.rng.int(1, 30);
    let er = gen_entries::<f64>(&mut c.rng, m, n, Sym::No, cnt, true);
    let coo = build(m, n, Sym::No, &er, 0);
    let x = (0..n).map(|_| f64::gen_exact(&mut c.rng)).collect::<Vec<_>>();
    let rhs = (0..m).map(|_| f64::gen_exact(&mut c.rng)).collect::<Vec<_>>();
    c.input(format!("{}x{} {:?} x={:?} rhs={:?}", m, n, er, x, rhs));
    let model = Dense::from_entries(m, n, Sym::No, &er);
    let (ax, _) = model.mul(&x, false);
    let max_a = er.iter().fold(0.0, |s, e| f64::max(s, e.2.abs()));
    let max_ax = ax.iter().fold(0.0, |s, v| f64::max(s, v.abs()));
    let max_d = (0..m).fold(0.0, |s, i| f64::max(s, (ax[i] - rhs[i]).abs()));
    if let Some(v) = c.ok("verify", VerifyLinSys::from(&coo, &Vector::from(&x), &Vector::from(&rhs))) {
        let tol = 1e-12 * (1.0 + max_ax + max_d);
        c.close("verify max_abs_a", v.max_abs_a, max_a, tol);
        c.close("verify max_abs_ax", v.max_abs_ax, max_ax, tol);
        c.close("verify max_abs_diff", v.max_abs_diff, max_d, tol);
        c.close("verify relative_error", v.relative_error, max_d / (max_a + 1.0), tol);
    }
    let ec = gen_entries::<Complex64>(&mut c.rng, m, n, Sym::No, cnt, true);
    let coo = build(m, n, Sym::No, &ec, 0);
    let x = (0..n).map(|_| Complex64::gen_exact(&mut c.rng)).collect::<Vec<_>>();
    let rhs = (0..m).map(|_| Complex64::gen_exact(&mut c.rng)).collect::<Vec<_>>();
    let model = Dense::from_entries(m, n, Sym::No, &ec);
    let (ax, _) = model.mul(&x, false);
    let max_a = ec.iter().fold(0.0, |s, e| f64::max(s, e.2.norm()));
    let max_ax = ax.iter().fold(0.0, |s, v| f64::max(s, v.norm()));
    let max_d = (0..m).fold(0.0, |s, i| f64::max(s, (ax[i] - rhs[i]).norm()));
    if let Some(v) = c.ok("verify complex", VerifyLinSys::from_complex(&coo, &ComplexVector::from(&x), &ComplexVector::from(&rhs))) {
        let tol = 1e-12 * (1.0 + max_ax + max_d);
        c.close("verify complex max_abs_a", v.max_abs_a, max_a, tol);
        c.close("verify complex max_abs_ax", v.max_abs_ax, max_ax, tol);
        c.close("verify complex max_abs_diff", v.max_abs_diff, max_d, tol);
        c.close("verify complex relative_error", v.relative_error, max_d / (max_a + 1.0), tol);
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random sparse matrices of every storage kind with random vectors and scalars (0 and 1 included), outputs pre-filled with NaN; non-trivial: distinct generated operands");
    let n = cx.n(3000, 60000);
    cx.run("matvec-real", n, matvec::<f64>);
    cx.run("matvec-complex", n, matvec::<Complex64>);
    cx.run("assembly-real", n, assembly::<f64>);
    cx.run("assembly-complex", n, assembly::<Complex64>);
    cx.run("lagrange-real", n, lagrange::<f64>);
    cx.run("lagrange-complex", n, lagrange::<Complex64>);
    cx.run("jacobian", n, jacobian);
    cx.run("verify", n, verify);
    cx.require("products", 1000);
    cx.require("triangular products", 300);
    cx.require("assemblies", 1000);
    cx.require("jacobians", 500);
}
