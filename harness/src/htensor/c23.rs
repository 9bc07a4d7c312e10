use crate::full::*;
use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::Matrix;
use russell_tensor::*;

fn coef(c: &mut Case) -> f64 {
    if c.rng.chance(0.5) { *c.rng.pick(&[0.0, 1.0, -1.0, 2.0]) } else { c.rng.sym() * 2.0 }
}
fn rep(c: &mut Case) -> Rep {
    let r = *c.rng.pick(&REPS);
    c.count(match r {
        Rep::General => "general storage",
        Rep::Symmetric => "symmetric storage",
        Rep::Symmetric2D => "plane storage",
    });
    r
}
fn t2(c: &mut Case, a: &A2, rep: Rep) -> Tensor2 {
    c.ok("from_std_matrix", Tensor2::from_std_matrix(a, rep)).unwrap_or(Tensor2::new(rep))
}
fn t3(c: &mut Case, a: &A3, rep: Rep, case_a: bool) -> Tensor3 {
    c.ok("Tensor3::from_std_array", Tensor3::from_std_array(a, rep, case_a)).unwrap_or(Tensor3::new(rep, case_a))
}
fn t4(c: &mut Case, a: &A4, rep: Rep) -> Tensor4 {
    c.ok("Tensor4::from_std_array", Tensor4::from_std_array(a, rep)).unwrap_or(Tensor4::new(rep))
}
fn g(c: &mut Case) -> Gen {
    Gen::new(&mut c.rng)
}
fn mat_to_a2(m: &Matrix) -> A2 {
    f2(|i, j| m.get(i, j))
}

// ---------------------------------------------------------------------------------------------- vectors

fn first_order(c: &mut Case) {
    let gen_u = g(c);
    let gen_v = g(c);
    let (a, b) = (gen_u.a1(&mut c.rng), gen_v.a1(&mut c.rng));
    c.input(format!("vectors u={:?} v={:?}", a, b));
    let (u, v) = (Tensor1::from(&a), Tensor1::from(&b));
    for i in 0..3 {
        c.check(u.get(i) == a[i], || format!("component {} not kept", i));
    }
    let w = u.as_vector();
    c.check(w.as_data() == &a.to_vec(), || "as_vector differs".to_string());
    let z = Tensor1::new();
    c.check((0..3).all(|i| z.get(i) == 0.0), || "new vector is not zero".to_string());
    let mut s = d1(&mut c.rng);
    for i in 0..3 {
        s.set(i, b[i]);
    }
    c.check((0..3).all(|i| s.get(i) == b[i]), || "set/get differ".to_string());
    cmp0(c, "dot", u.dot(&v), sum(|i| a[i] * b[i]), sum(|i| (a[i] * b[i]).abs()), 4.0);
    let mut r = d1(&mut c.rng);
    u.cross(&mut r, &v);
    let want = f1(|i| a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]);
    let mag = f1(|i| (a[(i + 1) % 3] * b[(i + 2) % 3]).abs() + (a[(i + 2) % 3] * b[(i + 1) % 3]).abs());
    cmp1(c, "cross", &f1(|i| r.get(i)), &want, &mag, 4.0);
    c.count("first-order operations");
}

// ---------------------------------------------------------------------------------------------- second order

fn second_order(c: &mut Case) {
    let rp = rep(c);
    let gn = g(c);
    let a = gn.a2(&mut c.rng, rp);
    c.input(format!("second-order {:?} {:?}", rp, a));
    let ma = m2(&a);
    let t = t2(c, &a, rp);
    c.check(t.rep() == rp && t.dim() == rp.dim(), || "wrong representation".to_string());
    cmp2(c, "std components", &r2(&t), &a, &ma, 4.0);
    // the packed vector is the image in the orthonormal basis
    for m in 0..t.dim() {
        let b = basis(m);
        cmp0(c, "packed component", t.get(m), sum2(|i, j| b[i][j] * a[i][j]), sum2(|i, j| (b[i][j] * a[i][j]).abs()), 6.0);
    }
    // set over used content
    let mut s = d2(&mut c.rng, rp);
    c.ok("set_std_matrix", s.set_std_matrix(&a));
    c.check((0..t.dim()).all(|m| s.get(m) == t.get(m)), || "set_std_matrix depends on the previous content".to_string());
    // from Matrix
    let am = Matrix::from(&a);
    if let Some(x) = c.ok("from Matrix", Tensor2::from_std_matrix(&am, rp)) {
        c.check((0..t.dim()).all(|m| x.get(m) == t.get(m)), || "Matrix and array inputs differ".to_string());
    }
    // packed assembly by set(m)
    let mut s = d2(&mut c.rng, rp);
    for m in 0..t.dim() {
        s.set(m, t.get(m));
    }
    cmp2(c, "set(m)", &r2(&s), &a, &ma, 4.0);
    // output matrices
    cmp2(c, "as_std_matrix", &mat_to_a2(&t.as_std_matrix()), &a, &ma, 4.0);
    let mut o = Matrix::filled(3, 3, f64::NAN);
    t.to_std_matrix(&mut o);
    cmp2(c, "to_std_matrix (used output)", &mat_to_a2(&o), &a, &ma, 4.0);
    if rp == Rep::Symmetric2D {
        let (t22, p) = t.as_std_matrix_2d();
        c.check(p.dims() == (2, 2), || "as_std_matrix_2d dims".to_string());
        let got = f2(|i, j| if i < 2 && j < 2 { p.get(i, j) } else if i == 2 && j == 2 { t22 } else { 0.0 });
        cmp2(c, "as_std_matrix_2d", &got, &a, &ma, 4.0);
        let s = t.sym2d_as_symmetric();
        c.check(s.rep() == Rep::Symmetric, || "sym2d_as_symmetric rep".to_string());
        cmp2(c, "sym2d_as_symmetric", &r2(&s), &a, &ma, 4.0);
    }
    let gt = t.as_general();
    c.check(gt.rep() == Rep::General, || "as_general rep".to_string());
    cmp2(c, "as_general", &r2(&gt), &a, &ma, 4.0);
    // symmetric element-wise access
    if rp != Rep::General {
        let mut s = d2(&mut c.rng, rp);
        for i in 0..3 {
            for j in i..3 {
                if inplane(rp, i, j) {
                    if c.rng.bool() {
                        s.sym_set_std(i, j, a[i][j]);
                    } else {
                        s.sym_set_std(j, i, a[i][j]);
                    }
                }
            }
        }
        cmp2(c, "sym_set_std", &r2(&s), &a, &ma, 4.0);
        let b = gn.a2(&mut c.rng, rp);
        let al = coef(c);
        for i in 0..3 {
            for j in i..3 {
                if inplane(rp, i, j) {
                    s.sym_add_std(i, j, al, b[i][j]);
                }
            }
        }
        cmp2(c, "sym_add_std", &r2(&s), &f2(|i, j| a[i][j] + al * b[i][j]), &f2(|i, j| a[i][j].abs() + (al * b[i][j]).abs()), 6.0);
    }
    // scaled copies, updates, transposes, decompositions
    let al = coef(c);
    let k: Vec<f64> = (0..t.dim()).map(|m| t.get(m)).collect();
    let mut s = d2(&mut c.rng, rp);
    s.set_vector(al, &k);
    cmp2(c, "set_vector", &r2(&s), &f2(|i, j| al * a[i][j]), &f2(|i, j| (al * ma[i][j]).abs()), 4.0);
    let mut s = d2(&mut c.rng, rp);
    s.set_tensor(al, &t);
    cmp2(c, "set_tensor", &r2(&s), &f2(|i, j| al * a[i][j]), &f2(|i, j| (al * ma[i][j]).abs()), 4.0);
    let b = g(c).a2(&mut c.rng, rp);
    let mb = m2(&b);
    let tb = t2(c, &b, rp);
    let mut s = t.clone();
    s.update(al, &tb);
    cmp2(c, "update", &r2(&s), &f2(|i, j| a[i][j] + al * b[i][j]), &f2(|i, j| ma[i][j] + (al * mb[i][j]).abs()), 6.0);
    let be = coef(c);
    let mut s = d2(&mut c.rng, rp);
    t2_add(&mut s, al, &t, be, &tb);
    cmp2(
        c,
        "t2_add",
        &r2(&s),
        &f2(|i, j| al * a[i][j] + be * b[i][j]),
        &f2(|i, j| (al * ma[i][j]).abs() + (be * mb[i][j]).abs()),
        6.0,
    );
    let mut s = d2(&mut c.rng, rp);
    t.transpose(&mut s);
    cmp2(c, "transpose", &r2(&s), &f2(|i, j| a[j][i]), &ma, 4.0);
    let (mut sy, mut sk) = (d2(&mut c.rng, rp), d2(&mut c.rng, rp));
    t.decompose(&mut sy, &mut sk);
    cmp2(c, "symmetric part", &r2(&sy), &f2(|i, j| 0.5 * (a[i][j] + a[j][i])), &ma, 4.0);
    cmp2(c, "skew part", &r2(&sk), &f2(|i, j| 0.5 * (a[i][j] - a[j][i])), &ma, 4.0);
    let mut om = d1(&mut c.rng);
    t.axial_vector(&mut om);
    // axial vector: skw u = omega x u
    let want = f1(|i| 0.5 * (a[(i + 2) % 3][(i + 1) % 3] - a[(i + 1) % 3][(i + 2) % 3]));
    let mag = f1(|i| ma[(i + 2) % 3][(i + 1) % 3]);
    cmp1(c, "axial_vector", &f1(|i| om.get(i)), &want, &mag, 4.0);
    cmp0(c, "trace", t.trace(), sum(|i| a[i][i]), sum(|i| a[i][i].abs()), 4.0);
    let mut s = t.clone();
    s.clear();
    c.check((0..t.dim()).all(|m| s.get(m) == 0.0), || "clear leaves components".to_string());
    cmp2(c, "identity", &r2(&Tensor2::identity(rp)), &f2(dl), &f2(dl), 2.0);
    // products
    cmp0(
        c,
        "t2_ddot_t2",
        t2_ddot_t2(&t, &tb),
        sum2(|i, j| a[i][j] * b[i][j]),
        sum2(|i, j| ma[i][j] * mb[i][j]),
        16.0,
    );
    let mut s = d2(&mut c.rng, Rep::General);
    t2_dot_t2(&mut s, &t, &tb);
    cmp2(
        c,
        "t2_dot_t2",
        &r2(&s),
        &f2(|i, j| sum(|k| a[i][k] * b[k][j])),
        &f2(|i, j| sum(|k| ma[i][k] * mb[k][j])),
        24.0,
    );
    let mut s = d2(&mut c.rng, rp);
    t.squared(&mut s);
    cmp2(c, "squared", &r2(&s), &f2(|i, j| sum(|k| a[i][k] * a[k][j])), &f2(|i, j| sum(|k| ma[i][k] * ma[k][j])), 24.0);
    let u = g(c).a1(&mut c.rng);
    let tu = Tensor1::from(&u);
    let mut v = d1(&mut c.rng);
    t2_dot_t1(&mut v, al, &t, &tu);
    cmp1(c, "t2_dot_t1", &f1(|i| v.get(i)), &f1(|i| al * sum(|k| a[i][k] * u[k])), &f1(|i| (al * sum(|k| (ma[i][k] * u[k]).abs())).abs()), 10.0);
    let mut v = d1(&mut c.rng);
    t1_dot_t2(&mut v, al, &tu, &t);
    cmp1(c, "t1_dot_t2", &f1(|i| v.get(i)), &f1(|i| al * sum(|k| u[k] * a[k][i])), &f1(|i| (al * sum(|k| (ma[k][i] * u[k]).abs())).abs()), 10.0);
    c.count("second-order operations");
}

fn dyad_vectors(c: &mut Case) {
    let rp = rep(c);
    let gn = g(c);
    let mut u = gn.a1(&mut c.rng);
    let mut v = gn.a1(&mut c.rng);
    let kind = c.rng.int(0, 3);
    if kind > 0 && rp != Rep::General {
        // products that are symmetric in exact arithmetic: v is u times a power of two
        let f = *c.rng.pick(&[1.0, -2.0, 0.5]);
        v = f1(|i| f * u[i]);
        if rp == Rep::Symmetric2D {
            if c.rng.bool() {
                u[2] = 0.0;
                v[2] = 0.0;
            } else if kind == 2 {
                u = [0.0, 0.0, u[2]];
                v = [0.0, 0.0, v[2]];
            }
        }
    }
    let al = coef(c);
    c.input(format!("t1_dyad_t1 {:?} alpha={} u={:?} v={:?}", rp, al, u, v));
    let p = f2(|i, j| u[i] * v[j]);
    let admissible = match rp {
        Rep::General => true,
        _ => (0..3).all(|i| (0..3).all(|j| p[i][j] == p[j][i] && (inplane(rp, i, j) || p[i][j] == 0.0))),
    };
    let mut t = d2(&mut c.rng, rp);
    let res = t1_dyad_t1(&mut t, al, &Tensor1::from(&u), &Tensor1::from(&v));
    if admissible {
        if c.ok("t1_dyad_t1", res).is_some() {
            cmp2(c, "t1_dyad_t1", &r2(&t), &f2(|i, j| al * p[i][j]), &f2(|i, j| (al * p[i][j]).abs()), 8.0);
        }
        c.count("vector dyads");
    } else {
        c.err("inadmissible dyadic product", res);
        c.count("refused conversions");
    }
}

fn det3(a: &A2) -> (f64, f64) {
    let mut d = 0.0;
    let mut m = 0.0;
    for (p, s) in [([0, 1, 2], 1.0), ([1, 2, 0], 1.0), ([2, 0, 1], 1.0), ([0, 2, 1], -1.0), ([1, 0, 2], -1.0), ([2, 1, 0], -1.0)] {
        let v = a[0][p[0]] * a[1][p[1]] * a[2][p[2]];
        d += s * v;
        m += v.abs();
    }
    (d, m)
}

fn inverse(c: &mut Case) {
    let rp = rep(c);
    let gn = g(c);
    let mut a = gn.a2(&mut c.rng, rp);
    let singular = c.rng.chance(0.15);
    if singular {
        // exactly singular: a zero row (and column when symmetric)
        let z = c.rng.int(0, 2);
        for k in 0..3 {
            a[z][k] = 0.0;
            if rp != Rep::General {
                a[k][z] = 0.0;
            }
        }
    }
    let tol = *c.rng.pick(&[0.0, 1e-10, 1e-3]);
    c.input(format!("inverse {:?} tol={} {:?}", rp, tol, a));
    let ma = m2(&a);
    let (det, _) = det3(&a);
    let (_, mdet) = det3(&ma);
    let t = t2(c, &a, rp);
    let mut ai = d2(&mut c.rng, rp);
    let before: Vec<u64> = (0..t.dim()).map(|m| ai.get(m).to_bits()).collect();
    let res = t.inverse(&mut ai, tol);
    let unsure = 40.0 * EPS * mdet;
    cmp0(c, "determinant", t.determinant(), det, mdet, 40.0);
    match res {
        None => {
            c.check(det.abs() <= tol + unsure, || format!("inverse refused with determinant {:e} tolerance {:e}", det, tol));
            c.check((0..t.dim()).all(|m| ai.get(m).to_bits() == before[m]), || "refused inverse changed the output".to_string());
            c.count("refused inverses");
        }
        Some(d) => {
            c.check(det.abs() >= tol - unsure, || format!("inverse accepted with determinant {:e} tolerance {:e}", det, tol));
            cmp0(c, "determinant of the inverse", d, det, mdet, 40.0);
            if det.abs() > 1e3 * unsure {
                let cof = f2(|i, j| {
                    let (p, q, r, s) = ((j + 1) % 3, (j + 2) % 3, (i + 1) % 3, (i + 2) % 3);
                    a[p][r] * a[q][s] - a[p][s] * a[q][r]
                });
                let mcof = f2(|i, j| {
                    let (p, q, r, s) = ((j + 1) % 3, (j + 2) % 3, (i + 1) % 3, (i + 2) % 3);
                    ma[p][r] * ma[q][s] + ma[p][s] * ma[q][r]
                });
                let want = f2(|i, j| cof[i][j] / det);
                let mag = f2(|i, j| mcof[i][j] / det.abs() * (1.0 + mdet / det.abs()));
                cmp2(c, "inverse", &r2(&ai), &want, &mag, 60.0);
                c.count("inverses");
            }
        }
    }
}

fn refused2(c: &mut Case) {
    let rp = *c.rng.pick(&[Rep::Symmetric, Rep::Symmetric2D]);
    let mut gn = g(c);
    let mut a = gn.a2(&mut c.rng, rp);
    while a[0][1] == 0.0 {
        gn = g(c);
        a = gn.a2(&mut c.rng, rp);
    }
    // one entry off symmetry (by little or by much), or an out-of-plane entry
    let plane = rp == Rep::Symmetric2D && c.rng.bool();
    if plane {
        let v = c.rng.sym();
        let (i, j) = *c.rng.pick(&[(0, 2), (1, 2)]);
        a[i][j] = if v == 0.0 { 1.0 } else { v };
        a[j][i] = a[i][j];
    } else {
        let (i, j) = *c.rng.pick(&[(0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)]);
        let by = *c.rng.pick(&[1e-12, 1e-3, 1.0]);
        a[i][j] = a[j][i] + if a[j][i] == 0.0 { by } else { by * a[j][i] };
    }
    c.input(format!("refused second-order {:?} {:?}", rp, a));
    c.err("inadmissible components (from)", Tensor2::from_std_matrix(&a, rp).map(|_| ()));
    let mut t = Tensor2::new(rp);
    c.err("inadmissible components (set)", t.set_std_matrix(&a));
    if c.ok("general storage takes anything", Tensor2::from_std_matrix(&a, Rep::General)).is_some() {
        c.count("refused conversions");
    }
}

// ---------------------------------------------------------------------------------------------- third order

fn third_order(c: &mut Case) {
    let rp = rep(c);
    let case_a = c.rng.bool();
    let gn = g(c);
    let a = gn.a3(&mut c.rng, rp, case_a);
    c.input(format!("third-order {:?} case_a={} {:?}", rp, case_a, a));
    let ma = m3(&a, case_a);
    let t = t3(c, &a, rp, case_a);
    let (nr, nc) = t.dims();
    c.check(t.rep() == rp && t.is_case_a() == case_a, || "wrong representation".to_string());
    c.check((nr, nc) == if case_a { (rp.dim(), 3) } else { (3, rp.dim()) }, || "wrong dims".to_string());
    let same = |x: &Tensor3| (0..nr).all(|m| (0..nc).all(|n| x.get(m, n) == t.get(m, n)));
    cmp3(c, "third-order components", &r3(&t), &a, &ma, case_a, 4.0);
    let mut s = d3(&mut c.rng, rp, case_a);
    c.ok("set_std_array", s.set_std_array(&a));
    c.check(same(&s), || "set_std_array depends on the previous content".to_string());
    // 9x3 or 3x9 matrices
    let mut m = if case_a { Matrix::new(9, 3) } else { Matrix::new(3, 9) };
    for (p, (i, j)) in PAIRS.iter().enumerate() {
        for k in 0..3 {
            if case_a {
                m.set(p, k, a[*i][*j][k]);
            } else {
                m.set(k, p, a[k][*i][*j]);
            }
        }
    }
    if let Some(x) = c.ok("Tensor3::from_std_matrix", Tensor3::from_std_matrix(&m, rp, case_a)) {
        cmp3(c, "Tensor3 from matrix", &r3(&x), &a, &ma, case_a, 4.0);
    }
    let mut s = d3(&mut c.rng, rp, case_a);
    c.ok("Tensor3::set_std_matrix", s.set_std_matrix(&m));
    cmp3(c, "Tensor3 set_std_matrix", &r3(&s), &a, &ma, case_a, 4.0);
    let arr = t.as_std_array();
    cmp3(c, "Tensor3 as_std_array", &f3(|i, j, k| arr[i][j][k]), &a, &ma, case_a, 4.0);
    let mut arr = vec![vec![vec![f64::NAN; 3]; 3]; 3];
    t.to_std_array(&mut arr);
    cmp3(c, "Tensor3 to_std_array (used output)", &f3(|i, j, k| arr[i][j][k]), &a, &ma, case_a, 4.0);
    let mut o = if case_a { Matrix::filled(9, 3, f64::NAN) } else { Matrix::filled(3, 9, f64::NAN) };
    t.to_std_matrix(&mut o);
    let o2 = t.as_std_matrix();
    for (which, o) in [("to", &o), ("as", &o2)] {
        let mut back = [[[0.0; 3]; 3]; 3];
        for (p, (i, j)) in PAIRS.iter().enumerate() {
            for k in 0..3 {
                if case_a {
                    back[*i][*j][k] = o.get(p, k);
                } else {
                    back[k][*i][*j] = o.get(k, p);
                }
            }
        }
        cmp3(c, if which == "to" { "Tensor3 to_std_matrix" } else { "Tensor3 as_std_matrix" }, &back, &a, &ma, case_a, 4.0);
    }
    if rp != Rep::General {
        let mut s = d3(&mut c.rng, rp, case_a);
        for i in 0..3 {
            for j in i..3 {
                for k in 0..3 {
                    if inplane(rp, i, j) {
                        if case_a {
                            s.sym_set_std(i, j, k, a[i][j][k]);
                        } else {
                            s.sym_set_std(k, j, i, a[k][j][i]);
                        }
                    }
                }
            }
        }
        cmp3(c, "Tensor3 sym_set_std", &r3(&s), &a, &ma, case_a, 4.0);
    }
    let (al, be) = (coef(c), coef(c));
    let mut s = d3(&mut c.rng, rp, case_a);
    s.set_tensor(al, &t);
    cmp3(c, "Tensor3 set_tensor", &r3(&s), &f3(|i, j, k| al * a[i][j][k]), &f3(|i, j, k| (al * ma[i][j][k]).abs()), case_a, 4.0);
    let b = g(c).a3(&mut c.rng, rp, case_a);
    let mb = m3(&b, case_a);
    let tb = t3(c, &b, rp, case_a);
    let mut s = t.clone();
    s.update(al, &tb);
    cmp3(
        c,
        "Tensor3 update",
        &r3(&s),
        &f3(|i, j, k| a[i][j][k] + al * b[i][j][k]),
        &f3(|i, j, k| ma[i][j][k] + (al * mb[i][j][k]).abs()),
        case_a,
        6.0,
    );
    let mut s = d3(&mut c.rng, rp, case_a);
    t3_add(&mut s, al, &t, be, &tb);
    cmp3(
        c,
        "t3_add",
        &r3(&s),
        &f3(|i, j, k| al * a[i][j][k] + be * b[i][j][k]),
        &f3(|i, j, k| (al * ma[i][j][k]).abs() + (be * mb[i][j][k]).abs()),
        case_a,
        6.0,
    );
    if case_a {
        let u = g(c).a1(&mut c.rng);
        let mut x = d2(&mut c.rng, rp);
        t3_dot_t1(&mut x, al, &t, &Tensor1::from(&u));
        cmp2(
            c,
            "t3_dot_t1",
            &r2(&x),
            &f2(|i, j| al * sum(|k| a[i][j][k] * u[k])),
            &f2(|i, j| (al * sum(|k| (ma[i][j][k] * u[k]).abs())).abs()),
            10.0,
        );
    } else {
        let q = g(c).a2(&mut c.rng, rp);
        let mq = m2(&q);
        let tq = t2(c, &q, rp);
        let mut x = d1(&mut c.rng);
        t3_ddot_t2(&mut x, al, &t, &tq);
        cmp1(
            c,
            "t3_ddot_t2",
            &f1(|i| x.get(i)),
            &f1(|i| al * sum2(|j, k| a[i][j][k] * q[j][k])),
            &f1(|i| (al * sum2(|j, k| ma[i][j][k] * mq[j][k])).abs()),
            24.0,
        );
    }
    // refused
    if rp != Rep::General {
        let mut bad = a;
        let (i, j) = *c.rng.pick(&[(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]);
        let k = c.rng.int(0, 2);
        if case_a {
            bad[i][j][k] = 1.0 + 2.0 * bad[j][i][k].abs();
        } else {
            bad[k][i][j] = 1.0 + 2.0 * bad[k][j][i].abs();
        }
        c.note(format!("bad third-order {:?}", bad));
        c.err("non-symmetric third-order array", Tensor3::from_std_array(&bad, rp, case_a).map(|_| ()));
        let mut mb = m.clone();
        let p = PAIRS.iter().position(|x| *x == (i, j)).unwrap();
        if case_a {
            mb.set(p, k, bad[i][j][k]);
        } else {
            mb.set(k, p, bad[k][i][j]);
        }
        c.err("non-symmetric third-order matrix", Tensor3::from_std_matrix(&mb, rp, case_a).map(|_| ()));
        if rp == Rep::Symmetric2D {
            let mut bad = a;
            let i = c.rng.int(0, 1);
            if case_a {
                bad[i][2][k] = 0.5;
                bad[2][i][k] = 0.5;
            } else {
                bad[k][i][2] = 0.5;
                bad[k][2][i] = 0.5;
            }
            c.err("out-of-plane third-order array", Tensor3::from_std_array(&bad, rp, case_a).map(|_| ()));
        }
        c.count("refused conversions");
    }
    c.count("third-order operations");
}

// ---------------------------------------------------------------------------------------------- fourth order

fn fourth_order(c: &mut Case) {
    let rp = rep(c);
    let gn = g(c);
    let a = gn.a4(&mut c.rng, rp);
    c.input(format!("fourth-order {:?} {:?}", rp, a));
    let ma = m4(&a);
    let t = t4(c, &a, rp);
    let nd = t.dim();
    c.check(t.rep() == rp && nd == rp.dim(), || "wrong representation".to_string());
    cmp4(c, "fourth-order components", &r4(&t), &a, &ma, 6.0);
    let pk = packed4(&a, nd);
    let mpk = packed4(&m4(&a), 6.min(nd)); // magnitudes in the symmetric basis
    let top = mpk.iter().flatten().fold(0.0, |x: f64, y| x.max(y.abs()));
    for m in 0..nd {
        for n in 0..nd {
            cmp0(c, "packed fourth-order component", t.get(m, n), pk[m][n], top, 16.0);
        }
    }
    let same = |x: &Tensor4| (0..nd).all(|m| (0..nd).all(|n| x.get(m, n) == t.get(m, n)));
    let mut s = d4(&mut c.rng, rp);
    c.ok("Tensor4::set_std_array", s.set_std_array(&a));
    c.check(same(&s), || "set_std_array depends on the previous content".to_string());
    let mut m = Matrix::new(9, 9);
    for (p, (i, j)) in PAIRS.iter().enumerate() {
        for (q, (k, l)) in PAIRS.iter().enumerate() {
            m.set(p, q, a[*i][*j][*k][*l]);
        }
    }
    if let Some(x) = c.ok("Tensor4::from_std_matrix", Tensor4::from_std_matrix(&m, rp)) {
        cmp4(c, "Tensor4 from matrix", &r4(&x), &a, &ma, 6.0);
    }
    let mut s = d4(&mut c.rng, rp);
    c.ok("Tensor4::set_std_matrix", s.set_std_matrix(&m));
    cmp4(c, "Tensor4 set_std_matrix", &r4(&s), &a, &ma, 6.0);
    let arr = t.as_std_array();
    cmp4(c, "Tensor4 as_std_array", &f4(|i, j, k, l| arr[i][j][k][l]), &a, &ma, 6.0);
    let mut arr = vec![vec![vec![vec![f64::NAN; 3]; 3]; 3]; 3];
    t.to_std_array(&mut arr);
    cmp4(c, "Tensor4 to_std_array (used output)", &f4(|i, j, k, l| arr[i][j][k][l]), &a, &ma, 6.0);
    let mut o = Matrix::filled(9, 9, f64::NAN);
    t.to_std_matrix(&mut o);
    let o2 = t.as_std_matrix();
    for (which, o) in [("Tensor4 to_std_matrix", &o), ("Tensor4 as_std_matrix", &o2)] {
        let mut back = [[[[0.0; 3]; 3]; 3]; 3];
        for (p, (i, j)) in PAIRS.iter().enumerate() {
            for (q, (k, l)) in PAIRS.iter().enumerate() {
                back[*i][*j][*k][*l] = o.get(p, q);
            }
        }
        cmp4(c, which, &back, &a, &ma, 6.0);
    }
    if rp != Rep::General {
        let mut s = d4(&mut c.rng, rp);
        for i in 0..3 {
            for j in i..3 {
                for k in 0..3 {
                    for l in k..3 {
                        if inplane(rp, i, j) && inplane(rp, k, l) {
                            if c.rng.bool() {
                                s.sym_set_std(i, j, k, l, a[i][j][k][l]);
                            } else {
                                s.sym_set_std(j, i, l, k, a[i][j][k][l]);
                            }
                        }
                    }
                }
            }
        }
        cmp4(c, "Tensor4 sym_set_std", &r4(&s), &a, &ma, 6.0);
    }
    let (al, be) = (coef(c), coef(c));
    let mut s = d4(&mut c.rng, rp);
    s.set_tensor(al, &t);
    cmp4(c, "Tensor4 set_tensor", &r4(&s), &f4(|i, j, k, l| al * a[i][j][k][l]), &f4(|i, j, k, l| (al * ma[i][j][k][l]).abs()), 6.0);
    let b = g(c).a4(&mut c.rng, rp);
    let mb = m4(&b);
    let tb = t4(c, &b, rp);
    let mut s = t.clone();
    s.update(al, &tb);
    cmp4(
        c,
        "Tensor4 update",
        &r4(&s),
        &f4(|i, j, k, l| a[i][j][k][l] + al * b[i][j][k][l]),
        &f4(|i, j, k, l| ma[i][j][k][l] + (al * mb[i][j][k][l]).abs()),
        8.0,
    );
    let mut s = d4(&mut c.rng, rp);
    t4_add(&mut s, al, &t, be, &tb);
    cmp4(
        c,
        "t4_add",
        &r4(&s),
        &f4(|i, j, k, l| al * a[i][j][k][l] + be * b[i][j][k][l]),
        &f4(|i, j, k, l| (al * ma[i][j][k][l]).abs() + (be * mb[i][j][k][l]).abs()),
        8.0,
    );
    let prod = f4(|i, j, k, l| sum2(|p, q| a[i][j][p][q] * b[p][q][k][l]));
    let mprod = f4(|i, j, k, l| sum2(|p, q| ma[i][j][p][q] * mb[p][q][k][l]));
    let mut s = d4(&mut c.rng, rp);
    t4_ddot_t4(&mut s, al, &t, &tb);
    cmp4(c, "t4_ddot_t4", &r4(&s), &f4(|i, j, k, l| al * prod[i][j][k][l]), &f4(|i, j, k, l| (al * mprod[i][j][k][l]).abs()), 60.0);
    let e = g(c).a4(&mut c.rng, rp);
    let me = m4(&e);
    let mut s = t4(c, &e, rp);
    t4_ddot_t4_update(&mut s, al, &t, &tb, be);
    cmp4(
        c,
        "t4_ddot_t4_update",
        &r4(&s),
        &f4(|i, j, k, l| al * prod[i][j][k][l] + be * e[i][j][k][l]),
        &f4(|i, j, k, l| (al * mprod[i][j][k][l]).abs() + (be * me[i][j][k][l]).abs()),
        60.0,
    );
    // refused
    if rp != Rep::General {
        let mut bad = a;
        let (i, j) = *c.rng.pick(&[(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]);
        let (k, l) = *c.rng.pick(&PAIRS);
        let first = c.rng.bool();
        let (p, q, r, s) = if first { (i, j, k, l) } else { (k, l, i, j) };
        bad[p][q][r][s] = 1.0 + 2.0 * bad[p][q][r][s].abs();
        c.note(format!("bad component {:?}", (p, q, r, s)));
        c.err("non-symmetric fourth-order array", Tensor4::from_std_array(&bad, rp).map(|_| ()));
        let mut mb = m.clone();
        let x = PAIRS.iter().position(|x| *x == (p, q)).unwrap();
        let y = PAIRS.iter().position(|x| *x == (r, s)).unwrap();
        mb.set(x, y, bad[p][q][r][s]);
        c.err("non-symmetric fourth-order matrix", Tensor4::from_std_matrix(&mb, rp).map(|_| ()));
        if rp == Rep::Symmetric2D {
            let i = c.rng.int(0, 1);
            let (k, l) = *c.rng.pick(&[(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]);
            let mut bad = a;
            let mut mb = m.clone();
            for (p, q) in [(i, 2), (2, i)] {
                for (r, s) in [(k, l), (l, k)] {
                    let (p, q, r, s) = if first { (p, q, r, s) } else { (r, s, p, q) };
                    bad[p][q][r][s] = 0.5;
                    let x = PAIRS.iter().position(|x| *x == (p, q)).unwrap();
                    let y = PAIRS.iter().position(|x| *x == (r, s)).unwrap();
                    mb.set(x, y, 0.5);
                }
            }
            c.err("out-of-plane fourth-order array", Tensor4::from_std_array(&bad, rp).map(|_| ()));
            c.err("out-of-plane fourth-order matrix", Tensor4::from_std_matrix(&mb, rp).map(|_| ()));
        }
        c.count("refused conversions");
    }
    c.count("fourth-order operations");
}

fn inverse4(c: &mut Case) {
    let rp = rep(c);
    let gn = g(c);
    let mut a = gn.a4(&mut c.rng, rp);
    let singular = c.rng.chance(0.1);
    if singular {
        // the image of one symmetric direction is exactly zero
        a = f4(|i, j, k, l| if k == 1 && l == 1 { 0.0 } else { a[i][j][k][l] });
    }
    c.input(format!("fourth-order inverse {:?} singular={} {:?}", rp, singular, a));
    let t = t4(c, &a, rp);
    let mut inv = d4(&mut c.rng, rp);
    let other = *c.rng.pick(&REPS);
    if other != rp {
        let mut wrong = Tensor4::new(other);
        c.err("inverse in another storage", t.calc_inverse(&mut wrong));
    }
    let res = t.calc_inverse(&mut inv);
    if singular {
        c.err("inverse of a singular tensor", res);
        c.count("refused inverses");
        return;
    }
    let nd = rp.dim();
    let pk = packed4(&a, nd);
    let (want, det) = match invert(&pk) {
        Some(x) => x,
        None => return,
    };
    let nrm = |m: &Vec<Vec<f64>>| m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
    let cond = nrm(&pk) * nrm(&want);
    // pivots below 1e-15 are documented to mean singular
    if !(cond < 1e8) || nrm(&want) > 1e13 {
        return;
    }
    if let Some(d) = c.ok("fourth-order inverse", res) {
        cmp0(c, "determinant of the packed tensor", d, det, det.abs() * cond, 40.0);
        let top = nrm(&want);
        // compare as Cartesian components
        let b: Vec<A2> = (0..nd).map(basis).collect();
        let full = f4(|i, j, k, l| {
            let mut s = 0.0;
            for m in 0..nd {
                for n in 0..nd {
                    s += b[m][i][j] * want[m][n] * b[n][k][l];
                }
            }
            s
        });
        cmp4(c, "fourth-order inverse", &r4(&inv), &full, &f4(|_, _, _, _| top * cond), 40.0);
        // the composition with the tensor is the identity of the storage
        let mut id = d4(&mut c.rng, rp);
        t4_ddot_t4(&mut id, 1.0, &inv, &t);
        let mut want_id = [[[[0.0; 3]; 3]; 3]; 3];
        for m in 0..nd {
            for p in 0..81 {
                let (i, j, k, l) = (p / 27, (p / 9) % 3, (p / 3) % 3, p % 3);
                want_id[i][j][k][l] += b[m][i][j] * b[m][k][l];
            }
        }
        cmp4(c, "inverse : tensor", &r4(&id), &want_id, &f4(|_, _, _, _| cond), 60.0);
        c.count("inverses");
    }
}

// ---------------------------------------------------------------------------------------------- mixed products

fn mixed(c: &mut Case) {
    let rp = rep(c);
    let (a, b) = (g(c).a2(&mut c.rng, rp), g(c).a2(&mut c.rng, rp));
    let dd = g(c).a4(&mut c.rng, rp);
    let (al, be) = (coef(c), coef(c));
    c.input(format!("mixed {:?} alpha={} beta={} a={:?} b={:?} D={:?}", rp, al, be, a, b, dd));
    let (ma, mb, md) = (m2(&a), m2(&b), m4(&dd));
    let (ta, tb, td) = (t2(c, &a, rp), t2(c, &b, rp), t4(c, &dd, rp));
    let mut s = d4(&mut c.rng, rp);
    t2_dyad_t2(&mut s, al, &ta, &tb);
    cmp4(c, "t2_dyad_t2", &r4(&s), &f4(|i, j, k, l| al * a[i][j] * b[k][l]), &f4(|i, j, k, l| (al * ma[i][j] * mb[k][l]).abs()), 16.0);
    let mut s = td.clone();
    t2_dyad_t2_update(&mut s, al, &ta, &tb);
    cmp4(
        c,
        "t2_dyad_t2_update",
        &r4(&s),
        &f4(|i, j, k, l| dd[i][j][k][l] + al * a[i][j] * b[k][l]),
        &f4(|i, j, k, l| md[i][j][k][l] + (al * ma[i][j] * mb[k][l]).abs()),
        16.0,
    );
    let da = f2(|i, j| sum2(|k, l| dd[i][j][k][l] * a[k][l]));
    let mda = f2(|i, j| sum2(|k, l| md[i][j][k][l] * ma[k][l]));
    let mut s = d2(&mut c.rng, rp);
    t4_ddot_t2(&mut s, al, &td, &ta);
    cmp2(c, "t4_ddot_t2", &r2(&s), &f2(|i, j| al * da[i][j]), &f2(|i, j| (al * mda[i][j]).abs()), 40.0);
    let mut s = tb.clone();
    t4_ddot_t2_update(&mut s, al, &td, &ta, be);
    cmp2(
        c,
        "t4_ddot_t2_update",
        &r2(&s),
        &f2(|i, j| al * da[i][j] + be * b[i][j]),
        &f2(|i, j| (al * mda[i][j]).abs() + (be * mb[i][j]).abs()),
        40.0,
    );
    let ad = f2(|k, l| sum2(|i, j| a[i][j] * dd[i][j][k][l]));
    let mad = f2(|k, l| sum2(|i, j| ma[i][j] * md[i][j][k][l]));
    let mut s = d2(&mut c.rng, rp);
    t2_ddot_t4(&mut s, al, &ta, &td);
    cmp2(c, "t2_ddot_t4", &r2(&s), &f2(|i, j| al * ad[i][j]), &f2(|i, j| (al * mad[i][j]).abs()), 40.0);
    cmp0(
        c,
        "t2_ddot_t4_ddot_t2",
        t2_ddot_t4_ddot_t2(&ta, &td, &tb),
        sum2(|k, l| ad[k][l] * b[k][l]),
        sum2(|k, l| mad[k][l] * mb[k][l]),
        100.0,
    );
    let bd = f2(|k, l| sum2(|i, j| b[i][j] * dd[i][j][k][l]));
    let mbd = f2(|k, l| sum2(|i, j| mb[i][j] * md[i][j][k][l]));
    let mut s = d4(&mut c.rng, rp);
    t4_ddot_t2_dyad_t2_ddot_t4(&mut s, al, &td, be, &ta, &tb);
    cmp4(
        c,
        "t4_ddot_t2_dyad_t2_ddot_t4",
        &r4(&s),
        &f4(|i, j, k, l| al * dd[i][j][k][l] + be * da[i][j] * bd[k][l]),
        &f4(|i, j, k, l| (al * md[i][j][k][l]).abs() + (be * mda[i][j] * mbd[k][l]).abs()),
        100.0,
    );
    // special dyadic products
    let loops = c.rng.bool();
    let od = |x: &A2, y: &A2| f4(|i, j, k, l| x[i][k] * y[j][l]);
    let ud = |x: &A2, y: &A2| f4(|i, j, k, l| x[i][l] * y[j][k]);
    let mut s = d4(&mut c.rng, Rep::General);
    s.use_loops = loops;
    t2_odyad_t2(&mut s, al, &ta, &tb);
    let top = |x: &A2| x.iter().flatten().fold(0.0, |p: f64, q| p.max(q.abs()));
    let whole = (al * top(&a) * top(&b)).abs();
    let w4 = f4(|_, _, _, _| whole);
    let w = od(&a, &b);
    cmp4(c, "t2_odyad_t2", &r4(&s), &f4(|i, j, k, l| al * w[i][j][k][l]), &w4, 40.0);
    let mut s = d4(&mut c.rng, Rep::General);
    s.use_loops = loops;
    t2_udyad_t2(&mut s, al, &ta, &tb);
    let w = ud(&a, &b);
    cmp4(c, "t2_udyad_t2", &r4(&s), &f4(|i, j, k, l| al * w[i][j][k][l]), &w4, 40.0);
    let mut s = d4(&mut c.rng, Rep::Symmetric);
    s.use_loops = loops;
    t2_ssd(&mut s, al, &ta);
    let (o, u) = (od(&a, &a), ud(&a, &a));
    let waa = (al * top(&a) * top(&a)).abs();
    // the symmetric-symmetric product is defined for any storage; its minor-symmetric part is kept
    let want = f4(|i, j, k, l| al * (o[i][j][k][l] + u[i][j][k][l]));
    cmp4(c, "t2_ssd", &r4(&s), &want, &f4(|_, _, _, _| waa), 40.0);
    let mut s = d4(&mut c.rng, Rep::Symmetric);
    s.use_loops = loops;
    t2_qsd_t2(&mut s, al, &ta, &tb);
    let (o1, o2, u1, u2) = (od(&a, &b), od(&b, &a), ud(&a, &b), ud(&b, &a));
    let want = f4(|i, j, k, l| al * (o1[i][j][k][l] + u1[i][j][k][l] + o2[i][j][k][l] + u2[i][j][k][l]));
    cmp4(c, "t2_qsd_t2", &r4(&s), &want, &f4(|_, _, _, _| whole), 80.0);
    c.count("mixed operations");
}

// ---------------------------------------------------------------------------------------------- constants, misuse

fn constants(c: &mut Case) {
    c.input("constant tensors".to_string());
    let ii = f4(|i, j, k, l| dl(i, k) * dl(j, l));
    let tt = f4(|i, j, k, l| dl(i, l) * dl(j, k));
    let jj = f4(|i, j, k, l| dl(i, j) * dl(k, l));
    let lin = |x: f64, y: f64, z: f64| f4(|i, j, k, l| x * ii[i][j][k][l] + y * tt[i][j][k][l] + z * jj[i][j][k][l]);
    let unit = f4(|_, _, _, _| 1.0);
    for (what, t, want, red) in [
        ("I", Tensor4::constant_ii(), ii, false),
        ("T", Tensor4::constant_tt(), tt, false),
        ("J", Tensor4::constant_jj(false), jj, false),
        ("J reduced", Tensor4::constant_jj(true), jj, true),
        ("Piso", Tensor4::constant_pp_iso(false), lin(0.0, 0.0, 1.0 / 3.0), false),
        ("Piso reduced", Tensor4::constant_pp_iso(true), lin(0.0, 0.0, 1.0 / 3.0), true),
        ("Psym", Tensor4::constant_pp_sym(false), lin(0.5, 0.5, 0.0), false),
        ("Psym reduced", Tensor4::constant_pp_sym(true), lin(0.5, 0.5, 0.0), true),
        ("Pskew", Tensor4::constant_pp_skew(), lin(0.5, -0.5, 0.0), false),
        ("Pdev", Tensor4::constant_pp_dev(), lin(1.0, 0.0, -1.0 / 3.0), false),
        ("Psymdev", Tensor4::constant_pp_symdev(false), lin(0.5, 0.5, -1.0 / 3.0), false),
        ("Psymdev reduced", Tensor4::constant_pp_symdev(true), lin(0.5, 0.5, -1.0 / 3.0), true),
    ] {
        cmp4(c, what, &r4(&t), &want, &unit, 4.0);
        c.check((t.rep() == Rep::Symmetric) == red, || format!("{}: wrong representation", what));
    }
    for rp in REPS {
        let mut t = d4(&mut c.rng, rp);
        t.set_pp_symdev();
        let mut want = lin(0.5, 0.5, -1.0 / 3.0);
        if rp == Rep::Symmetric2D {
            want = f4(|i, j, k, l| if inplane(rp, i, j) && inplane(rp, k, l) { want[i][j][k][l] } else { 0.0 });
        }
        cmp4(c, "set_pp_symdev", &r4(&t), &want, &unit, 4.0);
    }
    let eps = f3(|i, j, k| if (i, j, k) == (0, 1, 2) || (i, j, k) == (1, 2, 0) || (i, j, k) == (2, 0, 1) { 1.0 } else if i != j && j != k && i != k { -1.0 } else { 0.0 });
    for case_a in [true, false] {
        let t = Tensor3::constant_permutation(case_a);
        cmp3(c, "permutation tensor", &r3(&t), &eps, &f3(|_, _, _| 1.0), case_a, 4.0);
    }
    for (two, rp) in [(true, Rep::Symmetric2D), (false, Rep::Symmetric)] {
        let nd = if two { 2 } else { 3 };
        c.check(Tensor2::new_sym(two).rep() == rp && Tensor2::new_sym_ndim(nd).rep() == rp, || "Tensor2::new_sym".to_string());
        c.check(Tensor4::new_sym(two).rep() == rp && Tensor4::new_sym_ndim(nd).rep() == rp, || "Tensor4::new_sym".to_string());
        for case_a in [true, false] {
            let (x, y) = (Tensor3::new_sym(two, case_a), Tensor3::new_sym_ndim(nd, case_a));
            c.check(x.rep() == rp && y.rep() == rp, || "Tensor3::new_sym".to_string());
            c.check(x.is_case_a() == case_a && y.is_case_a() == case_a, || "Tensor3::new_sym case".to_string());
        }
    }
    // index tables
    for (m, p) in PAIRS.iter().enumerate() {
        c.check(M_TO_IJ[m] == *p, || format!("M_TO_IJ[{}]", m));
        c.check(IJ_TO_M[p.0][p.1] == m, || format!("IJ_TO_M {:?}", p));
        c.check(IJ_TO_M_SYM[p.0][p.1] == if m < 6 { m } else { m - 3 }, || format!("IJ_TO_M_SYM {:?}", p));
        for (n, q) in PAIRS.iter().enumerate() {
            c.check(MN_TO_IJKL[m][n] == (p.0, p.1, q.0, q.1), || format!("MN_TO_IJKL[{}][{}]", m, n));
            c.check(IJKL_TO_MN[p.0][p.1][q.0][q.1] == (m, n), || format!("IJKL_TO_MN {:?} {:?}", p, q));
        }
    }
    c.count("constants");
}

fn misuse(c: &mut Case) {
    let r = *c.rng.pick(&REPS);
    let mut s = *c.rng.pick(&REPS);
    while s == r {
        s = *c.rng.pick(&REPS);
    }
    let k = c.rng.int(0, 11);
    c.input(format!("misuse {} {:?} {:?}", k, r, s));
    let res = no_panic(|| {
        let (a, b) = (Tensor2::identity(r), Tensor2::identity(s));
        let mut x = Tensor2::new(s);
        match k {
            0 => t2_add(&mut x, 1.0, &a, 1.0, &b),
            1 => {
                t2_ddot_t2(&a, &b);
            }
            2 => x.update(1.0, &a),
            3 => x.set_tensor(1.0, &a),
            4 => a.transpose(&mut x),
            5 => {
                a.inverse(&mut x, 0.0);
            }
            6 => a.squared(&mut x),
            7 => a.deviator(&mut x),
            8 => t4_ddot_t2(&mut x, 1.0, &Tensor4::new(r), &a),
            9 => t2_dyad_t2(&mut Tensor4::new(r), 1.0, &a, &b),
            10 => t4_ddot_t4(&mut Tensor4::new(s), 1.0, &Tensor4::new(r), &Tensor4::new(r)),
            _ => t4_add(&mut Tensor4::new(s), 1.0, &Tensor4::new(r), 1.0, &Tensor4::new(r)),
        }
    });
    c.check(res.is_err(), || "operands in different storages were accepted".to_string());
    if r == Rep::General || s == Rep::General {
        let res = no_panic(|| Tensor2::new(Rep::General).sym_set_std(0, 1, 1.0));
        c.check(res.is_err(), || "sym_set_std on general storage was accepted".to_string());
        let res = no_panic(|| Tensor2::new(Rep::General).sym2d_as_symmetric());
        c.check(res.is_err(), || "sym2d_as_symmetric on general storage was accepted".to_string());
    }
    c.count("refused conversions");
}

pub fn run(cx: &mut Ctx) {
    cx.rule(
        "random Cartesian component arrays (integers, sparse, mixed magnitudes, scaled 1e-12..1e12) in every storage; \
         every operation compared, component by component, with index loops over the full arrays within a rounding bound; \
         pure outputs pre-filled with NaN or garbage; inadmissible component sets must be refused; \
         non-trivial: distinct storage/operation/component sets",
    );
    cx.run("first", cx.n(2000, 20000), first_order);
    cx.run("second", cx.n(40000, 400000), second_order);
    cx.run("dyad", cx.n(4000, 40000), dyad_vectors);
    cx.run("inverse", cx.n(30000, 300000), inverse);
    cx.run("refused", cx.n(4000, 40000), refused2);
    cx.run("third", cx.n(24000, 240000), third_order);
    cx.run("fourth", cx.n(16000, 160000), fourth_order);
    cx.run("inverse4", cx.n(12000, 120000), inverse4);
    cx.run("mixed", cx.n(16000, 160000), mixed);
    cx.run("misuse", cx.n(600, 2000), misuse);
    cx.once("constants", constants);
    for k in ["general storage", "symmetric storage", "plane storage", "second-order operations", "third-order operations", "fourth-order operations"] {
        cx.require(k, 500);
    }
    cx.require("mixed operations", 500);
    cx.require("inverses", 500);
    cx.require("refused inverses", 50);
    cx.require("refused conversions", 500);
    cx.require("constants", 1);
}
