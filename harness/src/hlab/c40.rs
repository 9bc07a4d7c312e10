use harness::{Case, Ctx, no_panic};
use russell_lab::*;

/// Kinds of a pair of numbers
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pair {
    Same,
    Within,
    AtLimit,
    Beyond,
    Nan(bool),
    Inf(bool),
    BothNan,
    BothInf,
}

impl Pair {
    fn accepted(&self) -> bool {
        matches!(self, Pair::Same | Pair::Within | Pair::AtLimit)
    }
}

/// Draws a tolerance: zero, tiny, moderate, large
fn tolerance(c: &mut Case) -> f64 {
    match c.rng.int(0, 4) {
        0 => 0.0,
        1 => 2f64.powi(-(c.rng.int(30, 60) as i32)),
        2 => 2f64.powi(-(c.rng.int(1, 20) as i32)),
        3 => c.rng.int(1, 100) as f64,
        _ => 1e300,
    }
}

/// Draws numbers related in the given way; the differences at the limit are exact
fn numbers(c: &mut Case, kind: Pair, tol: f64) -> (f64, f64) {
    let s = if c.rng.bool() { 1.0 } else { -1.0 };
    let bad = |nan: bool, s: f64| if nan { f64::NAN } else { s * f64::INFINITY };
    // multiples of the tolerance are represented exactly
    let unit = if tol == 0.0 || tol > 1e299 { 1.0 } else { tol };
    let a = if c.rng.chance(0.1) { 0.0 } else { unit * (c.rng.int(0, 1000) as f64 - 500.0) };
    match kind {
        Pair::Same => (a, a),
        Pair::Within => (a, if tol == 0.0 { a } else { a + s * tol * 0.5 }),
        Pair::AtLimit => (a, if tol == 0.0 { a } else if tol > 1e299 { s * 1e299 } else { a + s * tol }),
        Pair::Beyond => (a, if tol == 0.0 { a + s * *c.rng.pick(&[1.0, 1e10, 1e-9]) } else if tol > 1e299 { s * 1.7e308 } else { a + s * tol * *c.rng.pick(&[1.5, 2.0, 1000.0]) }),
        Pair::Nan(first) => if first { (bad(true, s), a) } else { (a, bad(true, s)) },
        Pair::Inf(first) => if first { (bad(false, s), a) } else { (a, bad(false, s)) },
        Pair::BothNan => (f64::NAN, f64::NAN),
        Pair::BothInf => (s * f64::INFINITY, s * f64::INFINITY),
    }
}

fn kind(c: &mut Case) -> Pair {
    let first = c.rng.bool();
    match c.rng.int(0, 9) {
        0 => Pair::Same,
        1 | 2 => Pair::Within,
        3 => Pair::AtLimit,
        4 | 5 => Pair::Beyond,
        6 => Pair::Nan(first),
        7 => Pair::Inf(first),
        8 => Pair::BothNan,
        _ => Pair::BothInf,
    }
}

fn judge(c: &mut Case, what: &str, accept: bool, f: impl FnOnce()) {
    let res = no_panic(f);
    match (&res, accept) {
        (Ok(_), true) => c.count("accepted"),
        (Err(_), false) => c.count("refused"),
        (Ok(_), false) => c.fail(format!("{} accepts what it must refuse", what)),
        (Err(m), true) => c.fail(format!("{} refuses what it must accept: {}", what, m)),
    }
    c.check(res.is_ok() == accept, || format!("{}: wrong verdict", what));
}

fn scalars(c: &mut Case) {
    let tol = tolerance(c);
    let k = kind(c);
    let (a, b) = numbers(c, k, tol);
    c.input(format!("{:?} a={:?} b={:?} tol={:?}", k, a, b, tol));
    judge(c, "approx_eq", k.accepted(), || approx_eq(a, b, tol));
    // integers and single precision
    let i = c.rng.int(0, 2000) as i64 - 1000;
    let d = c.rng.int(0, 6) as i64 - 3;
    let t = c.rng.int(0, 3) as f64;
    c.more(format!("i={} d={} t={}", i, d, t));
    judge(c, "approx_eq of integers", d.abs() as f64 <= t, || approx_eq(i, i + d, t));
    judge(c, "approx_eq of bytes", (d + 3) as f64 <= t, || approx_eq(10u8, 10 + (d + 3) as u8, t));
    judge(c, "approx_eq of single precision numbers", d.abs() as f64 * 0.25 <= t, || approx_eq(i as f32, (i as f32) + (d as f32) * 0.25, t));
    judge(c, "approx_eq of single precision NaN", false, || approx_eq(f32::NAN, 1.0, t));
    // parts of complex numbers
    let other = kind(c);
    let (p, q) = numbers(c, other, tol);
    c.more(format!("{:?} p={:?} q={:?}", other, p, q));
    let all = k.accepted() && other.accepted();
    judge(c, "complex_approx_eq", all, || complex_approx_eq(cpx!(a, p), cpx!(b, q), tol));
    judge(c, "complex_approx_eq", all, || complex_approx_eq(cpx!(p, a), cpx!(q, b), tol));
    // alike
    let alike = (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative());
    judge(c, "assert_alike", alike, || assert_alike(a, b));
    let z = if c.rng.bool() { 0.0 } else { -0.0 };
    let w = if c.rng.bool() { 0.0 } else { -0.0 };
    let zeros_alike = f64::is_sign_negative(z) == f64::is_sign_negative(w);
    judge(c, "assert_alike of zeros", zeros_alike, || assert_alike(z, w));
    judge(c, "assert_alike of infinities", false, || assert_alike(f64::INFINITY, f64::NEG_INFINITY));
    judge(c, "assert_alike of NaN and a number", false, || assert_alike(f64::NAN, z));
    judge(c, "assert_alike of a number and NaN", false, || assert_alike(z, f64::NAN));
}

fn arrays(c: &mut Case) {
    let tol = tolerance(c);
    // the first numbers agree; one position, anywhere, decides
    let big = if c.rng.chance(0.02) { 40 } else { 6 };
    let (m, n) = (c.rng.int(1, big), c.rng.int(1, big));
    let len = m * n;
    let decider = kind(c);
    let at = match c.rng.int(0, 2) {
        0 => 0,
        1 => len - 1,
        _ => c.rng.int(0, len - 1),
    };
    let (mut u, mut v) = (Vec::new(), Vec::new());
    let (mut uc, mut vc) = (Vec::new(), Vec::new());
    let imag = c.rng.bool();
    for i in 0..len {
        let quiet = *c.rng.pick(&[Pair::Same, Pair::Within, Pair::AtLimit]);
        let k = if i == at { decider } else { quiet };
        let (a, b) = numbers(c, k, tol);
        let (p, q) = numbers(c, quiet, tol);
        u.push(a);
        v.push(b);
        uc.push(if imag { cpx!(p, a) } else { cpx!(a, p) });
        vc.push(if imag { cpx!(q, b) } else { cpx!(b, q) });
    }
    let accept = decider.accepted();
    c.input(format!("{}x{} tol={:?} {:?} at {} u={:?} v={:?}", m, n, tol, decider, at, u, v));
    judge(c, "array_approx_eq", accept, || array_approx_eq(&u, &v, tol));
    let (uu, vv) = (Vector::from(&u), Vector::from(&v));
    judge(c, "vec_approx_eq", accept, || vec_approx_eq(&uu, &vv, tol));
    judge(c, "vec_approx_eq with an array", accept, || vec_approx_eq(&uu, &v, tol));
    judge(c, "complex_array_approx_eq", accept, || complex_array_approx_eq(&uc, &vc, tol));
    let (uuc, vvc) = (ComplexVector::from(&uc), ComplexVector::from(&vc));
    judge(c, "complex_vec_approx_eq", accept, || complex_vec_approx_eq(&uuc, &vvc, tol));
    judge(c, "complex_vec_approx_eq with an array", accept, || complex_vec_approx_eq(&uuc, &vc, tol));
    let mut a = Matrix::new(m, n);
    let mut b = Matrix::new(m, n);
    let mut ac = ComplexMatrix::new(m, n);
    let mut bc = ComplexMatrix::new(m, n);
    let mut rows = vec![vec![0.0; n]; m];
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, u[i * n + j]);
            b.set(i, j, v[i * n + j]);
            rows[i][j] = v[i * n + j];
            ac.set(i, j, uc[i * n + j]);
            bc.set(i, j, vc[i * n + j]);
        }
    }
    judge(c, "mat_approx_eq", accept, || mat_approx_eq(&a, &b, tol));
    judge(c, "mat_approx_eq with nested lists", accept, || mat_approx_eq(&a, &rows, tol));
    judge(c, "complex_mat_approx_eq", accept, || complex_mat_approx_eq(&ac, &bc, tol));
    // other sizes
    let cut = c.rng.int(0, len - 1);
    judge(c, "array_approx_eq with a shorter second array", false, || array_approx_eq(&u, &u[..cut], 1e300));
    judge(c, "array_approx_eq with a shorter first array", false, || array_approx_eq(&u[..cut], &u, 1e300));
    judge(c, "complex_array_approx_eq with a shorter second array", false, || complex_array_approx_eq(&uc, &uc[..cut], 1e300));
    judge(c, "complex_array_approx_eq with a shorter first array", false, || complex_array_approx_eq(&uc[..cut], &uc, 1e300));
    let zero = Vector::new(cut);
    judge(c, "vec_approx_eq with another size", false, || vec_approx_eq(&zero, &vec![0.0; len], 1.0));
    let (mm, nn) = (c.rng.int(0, 6), c.rng.int(1, 6));
    let e = Matrix::new(m, n);
    let f = Matrix::new(mm, nn);
    let same_size = (m, n) == (mm, nn);
    judge(c, "mat_approx_eq with another size", same_size, || mat_approx_eq(&e, &f, 1.0));
    let (e, f) = (ComplexMatrix::new(m, n), ComplexMatrix::new(mm, nn));
    judge(c, "complex_mat_approx_eq with another size", same_size, || complex_mat_approx_eq(&e, &f, 1.0));
    let none: [f64; 0] = [];
    judge(c, "array_approx_eq of empty arrays", true, || array_approx_eq(&none, &none, 0.0));
    c.count("arrays compared");
}

fn derivatives(c: &mut Case) {
    // polynomials of a degree all formulas reproduce
    let coef: Vec<f64> = (0..4).map(|_| c.rng.f(-2.0, 2.0)).collect();
    let x = c.rng.f(-2.0, 2.0);
    let d1 = coef[1] + x * (2.0 * coef[2] + x * 3.0 * coef[3]);
    let d2 = 2.0 * coef[2] + 6.0 * coef[3] * x;
    let n = c.rng.int(1, 5);
    let at = c.rng.int(0, n - 1);
    let tol = *c.rng.pick(&[1e-3, 1e-4]);
    let bad = match c.rng.int(0, 6) {
        0 | 1 => 0.0,
        2 => 0.2 * tol,
        3 => -0.2 * tol,
        4 => *c.rng.pick(&[5.0, -5.0, 1e4, -1e6]) * tol,
        5 => *c.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        _ => f64::NAN,
    };
    let ok = bad.abs() <= tol;
    let hostile = if ok { c.rng.int(0, 5) } else { 0 };
    c.input(format!("coef={:?} x={} n={} at={} tol={} change={} hostile={}", coef, x, n, at, tol, bad, hostile));
    let cf = coef.clone();
    let value = move |s: f64| cf[0] + s * (cf[1] + s * (cf[2] + s * cf[3]));
    // functions that fail, or turn NaN or infinite
    let f = |s: f64, calls: &mut usize| -> Result<f64, StrError> {
        *calls += 1;
        match hostile {
            1 if *calls == 2 => Err("stop"),
            2 if *calls == 3 => Ok(f64::NAN),
            3 if *calls == 1 => Ok(f64::INFINITY),
            _ => Ok(value(s)),
        }
    };
    let good = ok && !(1..4).contains(&hostile);
    judge(c, "deriv1_approx_eq", good, || deriv1_approx_eq(d1 + bad, x, &mut 0, tol, f));
    judge(c, "deriv1_approx_eq_fw", good, || deriv1_approx_eq_fw(d1 + bad, x, &mut 0, tol, f));
    judge(c, "deriv1_approx_eq_bw", good, || deriv1_approx_eq_bw(d1 + bad, x, &mut 0, tol, f));
    // the second derivatives are worth fewer digits
    judge(c, "deriv2_approx_eq", good, || deriv2_approx_eq(d2 + bad, x, &mut 0, tol, f));
    judge(c, "deriv2_approx_eq_fw", good, || deriv2_approx_eq_fw(d2 + bad, x, &mut 0, tol, f));
    judge(c, "deriv2_approx_eq_bw", good, || deriv2_approx_eq_bw(d2 + bad, x, &mut 0, tol, f));
    // vectors: one component is wrong
    let scale = |i: usize| 1.0 / (1.0 + i as f64);
    let first: Vec<f64> = (0..n).map(|i| if i == at { d1 * scale(i) + bad } else { d1 * scale(i) }).collect();
    let second: Vec<f64> = (0..n).map(|i| if i == at { d2 * scale(i) + bad } else { d2 * scale(i) }).collect();
    let g = |v: &mut Vector, s: f64, calls: &mut usize| -> Result<(), StrError> {
        let r = f(s, calls)?;
        for i in 0..n {
            v[i] = r * scale(i);
        }
        Ok(())
    };
    judge(c, "vec_deriv1_approx_eq", good, || vec_deriv1_approx_eq(&Vector::from(&first), x, &mut 0, tol, g));
    judge(c, "vec_deriv2_approx_eq", good, || vec_deriv2_approx_eq(&Vector::from(&second), x, &mut 0, tol, g));
    c.count("derivatives compared");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("pairs of numbers, complex numbers, arrays, vectors and matrices which agree within the tolerance, differ by exactly the tolerance, differ in one position, hold NaN or infinities, or have other sizes, and derivatives which are right or wrong, given to every assertion; the verdict (returning or panicking) is compared with the definition");
    let n = cx.n(20000, 200000);
    cx.run("scalars", n, scalars);
    cx.run("arrays", n, arrays);
    cx.run("derivatives", n, derivatives);
    cx.require("accepted", n as u64);
    cx.require("refused", n as u64);
    cx.require("arrays compared", n as u64);
    cx.require("derivatives compared", n as u64);
}
