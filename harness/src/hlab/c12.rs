use crate::c11::{general, to_r, to_z, unitary};
use crate::model::*;
use harness::{Case, Ctx, EPS};
use russell_lab::*;

fn q(x: f64) -> Z {
    Z::new(x, 0.0)
}

fn test_matrix(n: usize, c: &mut Case, complex: bool) -> (M, &'static str) {
    let rnd = |c: &mut Case| Z::new(c.rng.sym(), if complex { c.rng.sym() } else { 0.0 });
    let mut a = M::new(n, n);
    match c.rng.int(0, 8) {
        0 => {
            for i in 0..n {
                a.set(i, i, rnd(c));
            }
            (a, "diagonal")
        }
        1 => {
            // one Jordan block
            let l = rnd(c);
            for i in 0..n {
                a.set(i, i, l);
                if i + 1 < n {
                    a.set(i, i + 1, q(1.0));
                }
            }
            (a, "defective")
        }
        2 => {
            // plane rotations: complex pairs on the unit circle
            for k in 0..n / 2 {
                let t = c.rng.f(0.1, 3.0);
                a.set(2 * k, 2 * k, q(t.cos()));
                a.set(2 * k + 1, 2 * k + 1, q(t.cos()));
                a.set(2 * k, 2 * k + 1, q(t.sin()));
                a.set(2 * k + 1, 2 * k, q(-t.sin()));
            }
            if n % 2 == 1 {
                a.set(n - 1, n - 1, q(2.0));
            }
            let u = unitary(n, c, false);
            (u.mul(&a).mul(&u.t()), "rotations")
        }
        3 => {
            // repeated eigenvalues
            let l = [rnd(c), rnd(c)];
            for i in 0..n {
                a.set(i, i, l[i % 2]);
            }
            let u = unitary(n, c, complex);
            (u.mul(&a).mul(&u.h()), "repeated")
        }
        4 => {
            for i in 0..n {
                for j in i..n {
                    a.set(i, j, rnd(c));
                }
            }
            (a, "triangular")
        }
        5 => {
            // companion matrix
            for j in 0..n {
                a.set(0, j, rnd(c));
            }
            for i in 1..n {
                a.set(i, i - 1, q(1.0));
            }
            (a, "companion")
        }
        6 => (a, "zero"),
        _ => {
            let (mut g, _) = general(n, n, c, complex);
            // moderate grading only (balancing)
            let f = g.max();
            if f > 0.0 {
                g = g.sc(q(c.rng.mag(-2.0, 2.0) / f));
            }
            (g, "general")
        }
    }
}

fn col(v: &M, j: usize) -> M {
    let mut x = M::new(v.m, 1);
    for i in 0..v.m {
        x.a[i] = v.get(i, j);
    }
    x
}

/// Verifies eigenpairs; left: u^H A = l u^H
fn pairs(c: &mut Case, what: &'static str, a: &M, l: &[Z], v: &M, left: bool) {
    let n = a.m;
    let g = if left { a.h() } else { a.clone() };
    let tol = 1000.0 * n as f64 * EPS * a.fro() + 1e-300;
    for j in 0..n {
        let x = col(v, j);
        let nx = x.fro();
        let lam = if left { l[j].conj() } else { l[j] };
        let e = g.mul(&x).minus(&x.sc(lam)).max();
        if !(nx > 1e-6 && nx.is_finite() && e <= tol * nx) {
            c.fail(format!("{}: pair {}: lambda={} |v|={:e} residual {:e} > {:e}", what, j, l[j], nx, e, tol * nx));
            return;
        }
        c.max(what, e / (tol * nx));
    }
    c.check(true, String::new);
    c.count("decompositions with verified pairs");
}

/// Power sums of the eigenvalues equal the traces of powers of the matrix
fn traces(c: &mut Case, what: &'static str, a: &M, l: &[Z]) {
    let n = a.m;
    let nf = a.fro().max(1e-300);
    let mut p = M::id(n);
    for k in 1..=3 {
        p = p.mul(a);
        let tr: Z = (0..n).map(|i| p.get(i, i)).sum();
        let sum: Z = l.iter().map(|x| x.powu(k)).sum();
        let tol = 1000.0 * (n * n) as f64 * EPS * nf.powi(k as i32) + 1e-300;
        let e = (tr - sum).norm();
        if !(e <= tol) {
            c.fail(format!("{}: sum of eigenvalues^{} = {} but trace = {} (tolerance {:e})", what, k, sum, tr, tol));
            return;
        }
    }
    c.check(true, String::new);
}

fn real_general(c: &mut Case) {
    let n = if c.rng.chance(0.01) { c.rng.int(17, 70) } else { c.rng.int(1, 16) };
    let (a, kind) = test_matrix(n, c, false);
    c.input(format!("real general n={} kind={} a={:?}", n, kind, a.a.iter().take(8).map(|x| x.re).collect::<Vec<_>>()));
    let nanv = || Vector::filled(n, f64::NAN);
    let zip = |r: &Vector, i: &Vector| (0..n).map(|k| Z::new(r[k], i[k])).collect::<Vec<_>>();
    let (mut lr, mut li, mut vr, mut vi) = (nanv(), nanv(), nan_mat(n, n), nan_mat(n, n));
    if c.ok("mat_eigen", mat_eigen(&mut lr, &mut li, &mut vr, &mut vi, &mut to_r(&a))).is_some() {
        let l = zip(&lr, &li);
        pairs(c, "mat_eigen", &a, &l, &M::ri(&vr, &vi), false);
        traces(c, "mat_eigen", &a, &l);
    }
    let (mut lr, mut li, mut vr, mut vi) = (nanv(), nanv(), nan_mat(n, n), nan_mat(n, n));
    let (mut ur, mut ui) = (nan_mat(n, n), nan_mat(n, n));
    if c.ok("mat_eigen_lr", mat_eigen_lr(&mut lr, &mut li, &mut ur, &mut ui, &mut vr, &mut vi, &mut to_r(&a))).is_some() {
        let l = zip(&lr, &li);
        pairs(c, "mat_eigen_lr right", &a, &l, &M::ri(&vr, &vi), false);
        pairs(c, "mat_eigen_lr left", &a, &l, &M::ri(&ur, &ui), true);
        traces(c, "mat_eigen_lr", &a, &l);
    }
    let (mut lr, mut li) = (nanv(), nanv());
    if c.ok("mat_eigenvalues", mat_eigenvalues(&mut lr, &mut li, &mut to_r(&a))).is_some() {
        let l = zip(&lr, &li);
        traces(c, "mat_eigenvalues", &a, &l);
        // complex ones come in conjugate pairs
        let s: f64 = l.iter().map(|x| x.im).sum();
        c.check(s.abs() <= 1e-300, || format!("eigenvalues of a real matrix are not conjugate pairs: {:?}", l));
        c.count("eigenvalue sets");
    }
}

fn complex_general(c: &mut Case) {
    let n = if c.rng.chance(0.01) { c.rng.int(17, 70) } else { c.rng.int(1, 16) };
    let (a, kind) = test_matrix(n, c, true);
    c.input(format!("complex general n={} kind={} a={:?}", n, kind, a.a.iter().take(4).collect::<Vec<_>>()));
    let nanv = || ComplexVector::filled(n, Z::new(f64::NAN, f64::NAN));
    let (mut l, mut v) = (nanv(), nan_zmat(n, n));
    if c.ok("complex_mat_eigen", complex_mat_eigen(&mut l, &mut v, &mut to_z(&a))).is_some() {
        pairs(c, "complex_mat_eigen", &a, l.as_data(), &M::z(&v), false);
        traces(c, "complex_mat_eigen", &a, l.as_data());
    }
    let (mut l, mut v, mut u) = (nanv(), nan_zmat(n, n), nan_zmat(n, n));
    if c.ok("complex_mat_eigen_lr", complex_mat_eigen_lr(&mut l, &mut u, &mut v, &mut to_z(&a))).is_some() {
        pairs(c, "complex_mat_eigen_lr right", &a, l.as_data(), &M::z(&v), false);
        pairs(c, "complex_mat_eigen_lr left", &a, l.as_data(), &M::z(&u), true);
        traces(c, "complex_mat_eigen_lr", &a, l.as_data());
    }
}

fn orthonormal(c: &mut Case, what: &'static str, v: &M) {
    let n = v.m;
    let e = v.h().mul(v).minus(&M::id(n)).max();
    c.check(e <= 200.0 * n as f64 * EPS, || format!("{}: eigenvectors not orthonormal: {:e}", what, e));
}

fn hermitian(n: usize, c: &mut Case, complex: bool) -> (M, &'static str) {
    let u = unitary(n, c, complex);
    let mut d = M::new(n, n);
    let kind;
    match c.rng.int(0, 5) {
        0 => {
            kind = "diagonal";
            for i in 0..n {
                d.set(i, i, q(c.rng.int(0, 6) as f64 - 3.0));
            }
            return (d, kind);
        }
        1 => {
            kind = "repeated";
            let v = [c.rng.sym(), c.rng.sym()];
            for i in 0..n {
                d.set(i, i, q(v[i % 2]));
            }
        }
        2 => {
            kind = "graded";
            for i in 0..n {
                d.set(i, i, q(10f64.powf(-6.0 * i as f64 / n as f64)));
            }
        }
        3 => {
            kind = "clustered";
            for i in 0..n {
                d.set(i, i, q(1.0 + 1e-9 * i as f64));
            }
        }
        4 => {
            kind = "small integers";
            for i in 0..n {
                for j in i..n {
                    let w = Z::new(c.rng.int(0, 4) as f64 - 2.0, if complex && i != j { c.rng.int(0, 4) as f64 - 2.0 } else { 0.0 });
                    d.set(i, j, w);
                    d.set(j, i, w.conj());
                }
            }
            return (d, kind);
        }
        _ => {
            kind = "scaled";
            let f = c.rng.mag(-3.0, 6.0);
            for i in 0..n {
                d.set(i, i, q(f * c.rng.sym()));
            }
        }
    }
    let g = u.mul(&d).mul(&u.h());
    let mut s = M::new(n, n);
    for i in 0..n {
        for j in 0..n {
            s.set(i, j, (g.get(i, j) + g.get(j, i).conj()) * 0.5);
        }
    }
    (s, kind)
}

fn symmetric(c: &mut Case) {
    let n = if c.rng.chance(0.01) { c.rng.int(17, 70) } else { c.rng.int(1, 16) };
    let complex = c.rng.bool();
    let upper = c.rng.bool();
    let (a, kind) = hermitian(n, c, complex);
    c.input(format!("symmetric/hermitian n={} complex={} upper={} kind={} a={:?}", n, complex, upper, kind, a.a.iter().take(6).collect::<Vec<_>>()));
    // the other triangle is not considered
    let mut w = a.clone();
    for i in 0..n {
        for j in 0..n {
            if (upper && i > j) || (!upper && i < j) {
                w.set(i, j, q(55.0));
            }
        }
    }
    let mut l = Vector::filled(n, f64::NAN);
    let what = if complex { "complex_mat_eigen_herm" } else { "mat_eigen_sym" };
    let (res, v) = if complex {
        let mut z = to_z(&w);
        (complex_mat_eigen_herm(&mut l, &mut z, upper), M::z(&z))
    } else {
        let mut z = to_r(&w);
        (mat_eigen_sym(&mut l, &mut z, upper), M::r(&z))
    };
    if c.ok(what, res).is_some() {
        let lz: Vec<Z> = l.as_data().iter().map(|x| q(*x)).collect();
        pairs(c, what, &a, &lz, &v, false);
        traces(c, what, &a, &lz);
        orthonormal(c, what, &v);
        c.check((1..n).all(|i| l[i] >= l[i - 1]), || format!("{}: eigenvalues not ascending {:?}", what, l.as_data()));
        c.count("symmetric decompositions");
    }
    if !complex {
        let (mut l, mut v) = (Vector::filled(n, f64::NAN), nan_mat(n, n));
        if let Some(it) = c.ok("mat_eigen_sym_jacobi", mat_eigen_sym_jacobi(&mut l, &mut v, &mut to_r(&a))) {
            let lz: Vec<Z> = l.as_data().iter().map(|x| q(*x)).collect();
            let v = M::r(&v);
            // documented absolute tolerance 1e-15 on the off-diagonal sum
            let e = a.mul(&v).minus(&{
                let mut d = M::new(n, n);
                for i in 0..n {
                    d.set(i, i, lz[i]);
                }
                v.mul(&d)
            });
            let tol = 1000.0 * n as f64 * EPS * a.fro() + 2e-15;
            c.max("mat_eigen_sym_jacobi", e.max() / tol);
            c.check(e.max() <= tol, || format!("mat_eigen_sym_jacobi: residual {:e} > {:e}", e.max(), tol));
            orthonormal(c, "mat_eigen_sym_jacobi", &v);
            c.check(it >= 1 && it <= 20, || format!("mat_eigen_sym_jacobi: iterations {}", it));
            c.count("Jacobi decompositions");
        }
    }
}

/// Turns the real packed storage of eigenvector pairs into complex columns
fn unpack(v: &Matrix, im: &Vector) -> M {
    let n = v.nrow();
    let mut x = M::new(n, n);
    let mut j = 0;
    while j < n {
        if im[j] > 0.0 && j + 1 < n {
            for i in 0..n {
                x.set(i, j, Z::new(v.get(i, j), v.get(i, j + 1)));
                x.set(i, j + 1, Z::new(v.get(i, j), -v.get(i, j + 1)));
            }
            j += 2;
        } else {
            for i in 0..n {
                x.set(i, j, q(v.get(i, j)));
            }
            j += 1;
        }
    }
    x
}

fn gen_pairs(c: &mut Case, what: &'static str, a: &M, b: &M, al: &[Z], be: &[Z], v: &M, left: bool) {
    let n = a.m;
    let (ga, gb) = if left { (a.h(), b.h()) } else { (a.clone(), b.clone()) };
    for j in 0..n {
        let x = col(v, j);
        let nx = x.fro();
        let (p, r) = if left { (al[j].conj(), be[j].conj()) } else { (al[j], be[j]) };
        let e = ga.mul(&x).sc(r).minus(&gb.mul(&x).sc(p)).max();
        let tol = 1000.0 * n as f64 * EPS * (r.norm() * a.fro() + p.norm() * b.fro());
        if !(nx > 1e-8 && nx.is_finite() && p.norm() + r.norm() > 0.0 && e <= tol * nx) {
            c.fail(format!("{}: pair {}: alpha={} beta={} |v|={:e} residual {:e} > {:e}", what, j, al[j], be[j], nx, e, tol * nx));
            return;
        }
        c.max(what, e / (tol * nx));
    }
    c.check(true, String::new);
    c.count("generalized decompositions with verified pairs");
}

fn generalized(c: &mut Case) {
    let n = if c.rng.chance(0.01) { c.rng.int(15, 50) } else { c.rng.int(1, 14) };
    let complex = c.rng.bool();
    let mut a = M::new(n, n);
    for v in a.a.iter_mut() {
        *v = Z::new(c.rng.sym(), if complex { c.rng.sym() } else { 0.0 });
    }
    let (u, w) = (unitary(n, c, complex), unitary(n, c, complex));
    let mut d = M::new(n, n);
    let mut di = M::new(n, n);
    let singular = n > 1 && c.rng.chance(0.2);
    for i in 0..n {
        let s = c.rng.f(1.0, 4.0);
        d.set(i, i, q(s));
        di.set(i, i, q(1.0 / s));
    }
    let mut b = u.mul(&d).mul(&w);
    if singular {
        // one exactly zero row: an infinite eigenvalue
        for j in 0..n {
            b.set(n - 1, j, q(0.0));
        }
    }
    let identity = c.rng.chance(0.1);
    if identity {
        b = M::id(n);
    }
    c.input(format!("generalized n={} complex={} singular={} identity={} a={:?}", n, complex, singular, identity, a.a.iter().take(4).collect::<Vec<_>>()));
    let binv = if singular && !identity {
        None
    } else if identity {
        Some(M::id(n))
    } else {
        Some(w.h().mul(&di).mul(&u.h()))
    };
    let sums = |c: &mut Case, what: &'static str, al: &[Z], be: &[Z]| {
        if let Some(bi) = &binv {
            let l: Vec<Z> = al.iter().zip(be).map(|(p, r)| p / r).collect();
            let ba = bi.mul(&a);
            traces(c, what, &ba, &l);
        } else {
            let inf = al.iter().zip(be).filter(|(p, r)| r.norm() <= 1e-9 * p.norm()).count();
            c.check(inf >= 1, || format!("{}: infinite eigenvalue missing {:?} {:?}", what, al, be));
        }
    };
    if complex {
        let nanv = || ComplexVector::filled(n, Z::new(f64::NAN, f64::NAN));
        let (mut al, mut be, mut v) = (nanv(), nanv(), nan_zmat(n, n));
        if c.ok("complex_mat_gen_eigen", complex_mat_gen_eigen(&mut al, &mut be, &mut v, &mut to_z(&a), &mut to_z(&b))).is_some() {
            gen_pairs(c, "complex_mat_gen_eigen", &a, &b, al.as_data(), be.as_data(), &M::z(&v), false);
            sums(c, "complex_mat_gen_eigen", al.as_data(), be.as_data());
        }
        let (mut al, mut be, mut v, mut u) = (nanv(), nanv(), nan_zmat(n, n), nan_zmat(n, n));
        if c.ok("complex_mat_gen_eigen_lr", complex_mat_gen_eigen_lr(&mut al, &mut be, &mut u, &mut v, &mut to_z(&a), &mut to_z(&b))).is_some() {
            gen_pairs(c, "complex_mat_gen_eigen_lr right", &a, &b, al.as_data(), be.as_data(), &M::z(&v), false);
            gen_pairs(c, "complex_mat_gen_eigen_lr left", &a, &b, al.as_data(), be.as_data(), &M::z(&u), true);
            sums(c, "complex_mat_gen_eigen_lr", al.as_data(), be.as_data());
        }
    } else {
        let nanv = || Vector::filled(n, f64::NAN);
        let zip = |r: &Vector, i: &Vector| (0..n).map(|k| Z::new(r[k], i[k])).collect::<Vec<_>>();
        let (mut ar, mut ai, mut be, mut v) = (nanv(), nanv(), nanv(), nan_mat(n, n));
        if c.ok("mat_gen_eigen", mat_gen_eigen(&mut ar, &mut ai, &mut be, &mut v, &mut to_r(&a), &mut to_r(&b))).is_some() {
            let (p, r): (Vec<Z>, Vec<Z>) = (zip(&ar, &ai), be.as_data().iter().map(|x| q(*x)).collect());
            gen_pairs(c, "mat_gen_eigen", &a, &b, &p, &r, &unpack(&v, &ai), false);
            sums(c, "mat_gen_eigen", &p, &r);
        }
        let (mut ar, mut ai, mut be, mut v, mut u) = (nanv(), nanv(), nanv(), nan_mat(n, n), nan_mat(n, n));
        if c.ok("mat_gen_eigen_lr", mat_gen_eigen_lr(&mut ar, &mut ai, &mut be, &mut u, &mut v, &mut to_r(&a), &mut to_r(&b))).is_some() {
            let (p, r): (Vec<Z>, Vec<Z>) = (zip(&ar, &ai), be.as_data().iter().map(|x| q(*x)).collect());
            gen_pairs(c, "mat_gen_eigen_lr right", &a, &b, &p, &r, &unpack(&v, &ai), false);
            gen_pairs(c, "mat_gen_eigen_lr left", &a, &b, &p, &r, &unpack(&u, &ai), true);
            sums(c, "mat_gen_eigen_lr", &p, &r);
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random matrices of size 1..16 (general, diagonal, defective, rotations, repeated, triangular, companion, symmetric, Hermitian, pencils with regular and singular second matrix); outputs pre-filled with NaN; eigenpair residuals, power sums against traces, orthonormality and order checked independently");
    let n = cx.n(3000, 40000);
    cx.run("real", n, real_general);
    cx.run("complex", n, complex_general);
    cx.run("symmetric", n * 2, symmetric);
    cx.run("generalized", n, generalized);
    cx.require("decompositions with verified pairs", n as u64 * 5);
    cx.require("Jacobi decompositions", n as u64 / 2);
    cx.require("symmetric decompositions", n as u64);
    cx.require("generalized decompositions with verified pairs", n as u64 * 2);
}
