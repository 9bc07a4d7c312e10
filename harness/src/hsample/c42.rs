//! Bundled sample problems: what they hold against what their documentation says
use harness::{Case, Ctx, no_panic};
use num_complex::Complex64;
use russell_lab::{Matrix, Vector};
use russell_nonlin as nl;
use russell_ode::{Method, NoArgs, OdeSolver, Params, Samples as OdeSamples, System};
use russell_pde::{EssentialBcs1d, EssentialBcs2d, NaturalBcs1d, NaturalBcs2d, ProblemSamples, Spc1d, Spc2d, SpcMap2d, Transfinite2d};
use russell_sparse::{CooMatrix, Genie, NumCooMatrix, NumCscMatrix, NumCsrMatrix, Samples as SparseSamples, Sym};
use russell_tensor::{SampleTensor2, SamplesTensor2};
use std::f64::consts::PI;

// ------------------------------------------------------------------------------------------------
// sparse matrices

fn det(a: &[Vec<Complex64>]) -> Complex64 {
    let n = a.len();
    let mut a = a.to_vec();
    let mut d = Complex64::new(1.0, 0.0);
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].norm().total_cmp(&a[j][k].norm())).unwrap();
        if p != k {
            a.swap(p, k);
            d = -d;
        }
        d *= a[k][k];
        if a[k][k].norm() == 0.0 {
            return d;
        }
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                let v = f * a[k][j];
                a[i][j] -= v;
            }
        }
    }
    d
}

/// the lower or full part of a documented matrix; only what is stored
fn stored(sym: Sym, i: usize, j: usize) -> bool {
    match sym {
        Sym::YesLower => i >= j,
        Sym::YesUpper => i <= j,
        _ => true,
    }
}

macro_rules! judge_matrix {
    ($c:ident, $name:expr, $sample:expr, $want:expr, $kind:expr, $to:expr, $determinant:expr) => {{
        let (coo, csc, csr, d) = $sample;
        let want: Vec<Vec<Complex64>> = $want;
        let (m, n) = (want.len(), want[0].len());
        let full: [(&str, Vec<Vec<Complex64>>, (usize, usize, Sym)); 3] = {
            let grab = |a: &dyn Fn(usize, usize) -> Complex64| (0..m).map(|i| (0..n).map(|j| a(i, j)).collect()).collect();
            let (x, y, z) = (coo.as_dense(), csc.as_dense(), csr.as_dense());
            let (p, q, r) = (coo.get_info(), csc.get_info(), csr.get_info());
            [
                ("triplets", grab(&|i, j| $to(x.get(i, j))), (p.0, p.1, p.3)),
                ("columns", grab(&|i, j| $to(y.get(i, j))), (q.0, q.1, q.3)),
                ("rows", grab(&|i, j| $to(z.get(i, j))), (r.0, r.1, r.3)),
            ]
        };
        for (format, a, info) in &full {
            $c.check(*info == (m, n, $kind), || format!("{}: {} are {:?}", $name, format, info));
            $c.check(a == &want, || format!("{}: {} hold {:?} instead of {:?}", $name, format, a, want));
        }
        // the entries of the triplets lie in the triangle their kind names
        $c.check((0..coo.get_info().2).all(|k| stored($kind, coo.get_row_indices()[k] as usize, coo.get_col_indices()[k] as usize)), || format!("{}: an entry on the wrong side", $name));
        $c.check((0..m).all(|i| (csr.get_row_pointers()[i]..csr.get_row_pointers()[i + 1]).all(|p| stored($kind, i, csr.get_col_indices()[p as usize] as usize))), || format!("{}: a row entry on the wrong side", $name));
        $c.check((0..n).all(|j| (csc.get_col_pointers()[j]..csc.get_col_pointers()[j + 1]).all(|p| stored($kind, csc.get_row_indices()[p as usize] as usize, j))), || format!("{}: a column entry on the wrong side", $name));
        if $determinant {
            let r = det(&want);
            let d = $to(d);
            $c.check((d - r).norm() <= 1e-12 * (1.0 + r.norm()), || format!("{}: determinant {} instead of {}", $name, d, r));
        }
        $c.count("matrices");
    }};
}

fn rows(v: &[&[f64]]) -> Vec<Vec<Complex64>> {
    v.iter().map(|r| r.iter().map(|x| Complex64::new(*x, 0.0)).collect()).collect()
}

fn pairs(v: &[&[(f64, f64)]]) -> Vec<Vec<Complex64>> {
    v.iter().map(|r| r.iter().map(|x| Complex64::new(x.0, x.1)).collect()).collect()
}

fn matrices(c: &mut Case) {
    let real = |x: f64| Complex64::new(x, 0.0);
    let same = |x: Complex64| x;
    let k = c.index % 24;
    let (a, b) = (c.rng.bool(), c.rng.bool());
    c.input(format!("matrix {} {} {}", k, a, b));
    let pd3 = rows(&[&[2.0, -1.0, 0.0], &[-1.0, 2.0, -1.0], &[0.0, -1.0, 2.0]]);
    let cs3 = pairs(&[&[(2.0, 1.0), (-1.0, -1.0), (0.0, 0.0)], &[(-1.0, -1.0), (2.0, 2.0), (-1.0, 1.0)], &[(0.0, 0.0), (-1.0, 1.0), (2.0, -1.0)]]);
    let mkl = rows(&[
        &[9.0, 1.5, 6.0, 0.75, 3.0],
        &[1.5, 0.5, 0.0, 0.0, 0.0],
        &[6.0, 0.0, 12.0, 0.0, 0.0],
        &[0.75, 0.0, 0.0, 0.625, 0.0],
        &[3.0, 0.0, 0.0, 0.0, 16.0],
    ]);
    match k {
        0 => judge_matrix!(c, "tiny", SparseSamples::tiny_1x1(), rows(&[&[123.0]]), Sym::No, real, true),
        1 => judge_matrix!(c, "complex tiny", SparseSamples::complex_tiny_1x1(), pairs(&[&[(12.0, 3.0)]]), Sym::No, same, true),
        2 => judge_matrix!(c, "positive definite lower", SparseSamples::positive_definite_3x3_lower(), pd3, Sym::YesLower, real, true),
        3 => judge_matrix!(c, "positive definite upper", SparseSamples::positive_definite_3x3_upper(), pd3, Sym::YesUpper, real, true),
        4 => judge_matrix!(c, "positive definite full", SparseSamples::positive_definite_3x3_full(), pd3, Sym::YesFull, real, true),
        5 => judge_matrix!(c, "complex symmetric lower", SparseSamples::complex_symmetric_3x3_lower(), cs3, Sym::YesLower, same, true),
        6 => judge_matrix!(c, "complex symmetric upper", SparseSamples::complex_symmetric_3x3_upper(), cs3, Sym::YesUpper, same, true),
        7 => judge_matrix!(c, "complex symmetric full", SparseSamples::complex_symmetric_3x3_full(), cs3, Sym::YesFull, same, true),
        8 => judge_matrix!(
            c,
            "lower symmetric",
            SparseSamples::lower_symmetric_5x5(),
            rows(&[&[2.0, 1.0, 1.0, 3.0, 2.0], &[1.0, 2.0, 2.0, 1.0, 1.0], &[1.0, 2.0, 9.0, 1.0, 5.0], &[3.0, 1.0, 1.0, 7.0, 1.0], &[2.0, 1.0, 5.0, 1.0, 8.0]]),
            Sym::YesLower,
            real,
            true
        ),
        9 => judge_matrix!(c, "unsymmetric", SparseSamples::unsymmetric_3x3(a, b), rows(&[&[1.0, 0.0, 2.0], &[0.0, 0.0, 3.0], &[4.0, 5.0, 6.0]]), Sym::No, real, true),
        10 => judge_matrix!(
            c,
            "umfpack",
            SparseSamples::umfpack_unsymmetric_5x5(),
            rows(&[&[2.0, 3.0, 0.0, 0.0, 0.0], &[3.0, 0.0, 4.0, 0.0, 6.0], &[0.0, -1.0, -3.0, 2.0, 0.0], &[0.0, 0.0, 1.0, 0.0, 0.0], &[0.0, 4.0, 2.0, 0.0, 1.0]]),
            Sym::No,
            real,
            true
        ),
        11 => judge_matrix!(
            c,
            "complex umfpack",
            SparseSamples::umfpack_complex_unsymmetric_5x5(),
            rows(&[&[2.0, 3.0, 0.0, 0.0, 0.0], &[3.0, 0.0, 4.0, 0.0, 6.0], &[0.0, -1.0, -3.0, 2.0, 0.0], &[0.0, 0.0, 1.0, 0.0, 0.0], &[0.0, 4.0, 2.0, 0.0, 1.0]]),
            Sym::No,
            same,
            true
        ),
        12 => judge_matrix!(
            c,
            "mkl unsymmetric",
            SparseSamples::mkl_unsymmetric_5x5(),
            rows(&[&[1.0, -1.0, 0.0, -3.0, 0.0], &[-2.0, 5.0, 0.0, 0.0, 0.0], &[0.0, 0.0, 4.0, 6.0, 4.0], &[-4.0, 0.0, 2.0, 7.0, 0.0], &[0.0, 8.0, 0.0, 0.0, -5.0]]),
            Sym::No,
            real,
            true
        ),
        13 => judge_matrix!(
            c,
            "blocks",
            SparseSamples::block_unsymmetric_5x5(a, b),
            rows(&[&[1.0, 2.0, 0.0, 0.0, 0.0], &[3.0, 4.0, 0.0, 0.0, 0.0], &[0.0, 0.0, 5.0, 6.0, 0.0], &[0.0, 0.0, 7.0, 8.0, 0.0], &[0.0, 0.0, 0.0, 0.0, 9.0]]),
            Sym::No,
            real,
            true
        ),
        14 => judge_matrix!(c, "mkl positive definite lower", SparseSamples::mkl_positive_definite_5x5_lower(), mkl, Sym::YesLower, real, true),
        15 => judge_matrix!(c, "mkl complex positive definite lower", SparseSamples::mkl_complex_positive_definite_5x5_lower(), mkl, Sym::YesLower, same, true),
        16 => judge_matrix!(c, "mkl positive definite upper", SparseSamples::mkl_positive_definite_5x5_upper(), mkl, Sym::YesUpper, real, true),
        17 => judge_matrix!(c, "mkl symmetric lower", SparseSamples::mkl_symmetric_5x5_lower(a, b), mkl, Sym::YesLower, real, true),
        18 => judge_matrix!(c, "mkl symmetric upper", SparseSamples::mkl_symmetric_5x5_upper(a, b), mkl, Sym::YesUpper, real, true),
        19 => judge_matrix!(c, "mkl symmetric full", SparseSamples::mkl_symmetric_5x5_full(), mkl, Sym::YesFull, real, true),
        20 => judge_matrix!(c, "1x2", SparseSamples::rectangular_1x2(a, b), rows(&[&[10.0, 20.0]]), Sym::No, real, false),
        21 => judge_matrix!(c, "1x7", SparseSamples::rectangular_1x7(), rows(&[&[1.0, 0.0, 3.0, 0.0, 5.0, 0.0, 7.0]]), Sym::No, real, false),
        22 => judge_matrix!(c, "7x1", SparseSamples::rectangular_7x1(), rows(&[&[0.0], &[2.0], &[0.0], &[4.0], &[0.0], &[6.0], &[0.0]]), Sym::No, real, false),
        _ => {
            judge_matrix!(c, "3x4", SparseSamples::rectangular_3x4(), rows(&[&[5.0, -2.0, 0.0, 1.0], &[10.0, -4.0, 0.0, 2.0], &[15.0, -6.0, 0.0, 3.0]]), Sym::No, real, false);
            let w = pairs(&[&[(4.0, 4.0), (0.0, 0.0), (2.0, 2.0)], &[(0.0, 0.0), (1.0, 0.0), (3.0, 3.0)], &[(0.0, 0.0), (5.0, 5.0), (1.0, 1.0)], &[(1.0, 0.0), (0.0, 0.0), (0.0, 0.0)]]);
            let (coo, csc, csr, _) = SparseSamples::complex_rectangular_4x3();
            judge_matrix!(c, "complex 4x3", (coo, csc, csr, Complex64::new(0.0, 0.0)), w, Sym::No, same, false);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// tensors

fn tensors(c: &mut Case) {
    let all: [&SampleTensor2; 9] = [
        &SamplesTensor2::TENSOR_O,
        &SamplesTensor2::TENSOR_I,
        &SamplesTensor2::TENSOR_X,
        &SamplesTensor2::TENSOR_Y,
        &SamplesTensor2::TENSOR_Z,
        &SamplesTensor2::TENSOR_U,
        &SamplesTensor2::TENSOR_S,
        &SamplesTensor2::TENSOR_R,
        &SamplesTensor2::TENSOR_T,
    ];
    let t = all[c.index as usize % all.len()];
    c.input(t.desc.to_string());
    let norm = |a: &[[f64; 3]; 3]| a.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
    let trace = |a: &[[f64; 3]; 3]| a[0][0] + a[1][1] + a[2][2];
    let det3 = |a: &[[f64; 3]; 3]| a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    let second = |a: &[[f64; 3]; 3]| {
        let mut s = 0.0;
        for i in 0..3 {
            for j in 0..3 {
                s += a[i][j] * a[j][i];
            }
        }
        0.5 * (trace(a) * trace(a) - s)
    };
    let a = &t.matrix;
    let scale = 1.0 + norm(a);
    c.close("norm", t.norm, norm(a), 1e-13 * scale);
    c.close("trace", t.trace, trace(a), 1e-13 * scale);
    c.close("second invariant", t.second_invariant, second(a), 1e-13 * scale.powi(2));
    c.close("determinant", t.determinant, det3(a), 1e-13 * scale.powi(3));
    let mut d = *a;
    for i in 0..3 {
        d[i][i] -= trace(a) / 3.0;
        for j in 0..3 {
            c.close("deviator", t.deviator[i][j], a[i][j] - if i == j { trace(a) / 3.0 } else { 0.0 }, 1e-13 * scale);
        }
    }
    c.close("norm of the deviator", t.deviator_norm, norm(&d), 1e-13 * scale);
    c.close("second invariant of the deviator", t.deviator_second_invariant, second(&d), 1e-13 * scale.powi(2));
    c.close("determinant of the deviator", t.deviator_determinant, det3(&d), 1e-13 * scale.powi(3));
    if let (Some(l), Some(p)) = (&t.eigenvalues, &t.eigenprojectors) {
        for i in 0..3 {
            for j in 0..3 {
                c.close("spectral sum", (0..3).map(|k| l[k] * p[k][i][j]).sum(), a[i][j], 1e-13 * scale);
                c.close("sum of the projectors", (0..3).map(|k| p[k][i][j]).sum(), if i == j { 1.0 } else { 0.0 }, 1e-13);
                for k in 0..3 {
                    let square: f64 = (0..3).map(|m| p[k][i][m] * p[k][m][j]).sum();
                    c.close("square of a projector", square, p[k][i][j], 1e-13);
                }
            }
        }
    }
    c.count("tensors");
}

/// position of a pair of indices in the matrix representations
const PAIRS: [(usize, usize); 9] = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)];

/// the orthonormal basis behind the Kelvin components, by the definition
fn kelvin(m: usize) -> [[f64; 3]; 3] {
    let mut e = [[0.0; 3]; 3];
    let r = 0.5f64.sqrt();
    match m {
        0..=2 => e[m][m] = 1.0,
        3..=5 => {
            let (i, j) = PAIRS[m];
            e[i][j] = r;
            e[j][i] = r;
        }
        _ => {
            let (i, j) = PAIRS[m - 3];
            e[i][j] = r;
            e[j][i] = -r;
        }
    }
    e
}

fn judge_four(c: &mut Case, t: &[[[[f64; 3]; 3]; 3]; 3], std: &[[f64; 9]; 9], kel: &dyn Fn(usize, usize) -> f64, dim: usize) {
    for m in 0..9 {
        for n in 0..9 {
            let ((i, j), (k, l)) = (PAIRS[m], PAIRS[n]);
            c.check(std[m][n] == t[i][j][k][l], || format!("matrix of standard components at {},{}", m, n));
            let (a, b) = (kelvin(m), kelvin(n));
            let mut sum = 0.0;
            for i in 0..3 {
                for j in 0..3 {
                    for k in 0..3 {
                        for l in 0..3 {
                            sum += a[i][j] * t[i][j][k][l] * b[k][l];
                        }
                    }
                }
            }
            c.close("Kelvin component", if m < dim && n < dim { kel(m, n) } else { 0.0 }, sum, 1e-12 * 400.0);
        }
    }
    c.count("tensors of higher order");
}

fn judge_three(c: &mut Case, case_a: bool, t: &[[[f64; 3]; 3]; 3], std: &dyn Fn(usize, usize) -> f64, kel: &dyn Fn(usize, usize) -> f64, dim: usize) {
    // the pair of indices comes first or last
    let at = |i: usize, j: usize, k: usize| if case_a { t[i][j][k] } else { t[k][i][j] };
    for m in 0..9 {
        for k in 0..3 {
            let (i, j) = PAIRS[m];
            c.check(std(m, k) == at(i, j, k), || format!("matrix of standard components at {},{}", m, k));
            let a = kelvin(m);
            let mut sum = 0.0;
            for i in 0..3 {
                for j in 0..3 {
                    sum += a[i][j] * at(i, j, k);
                }
            }
            c.close("Kelvin component", if m < dim { kel(m, k) } else { 0.0 }, sum, 1e-12 * 400.0);
        }
    }
    c.count("tensors of higher order");
}

fn higher(c: &mut Case) {
    use russell_tensor::{SamplesTensor3 as T3, SamplesTensor4 as T4};
    let k = c.index % 9;
    c.input(format!("higher {}", k));
    match k {
        0 => judge_four(c, &T4::SAMPLE1, &T4::SAMPLE1_STD_MATRIX, &|m, n| T4::SAMPLE1_KELVIN_MATRIX[m][n], 9),
        1 => judge_four(c, &T4::SYM_SAMPLE1, &T4::SYM_SAMPLE1_STD_MATRIX, &|m, n| T4::SYM_SAMPLE1_KELVIN_MATRIX[m][n], 6),
        2 => judge_four(c, &T4::SYM_2D_SAMPLE1, &T4::SYM_2D_SAMPLE1_STD_MATRIX, &|m, n| T4::SYM_2D_SAMPLE1_KELVIN_MATRIX[m][n], 4),
        3 => judge_three(c, true, &T3::CASE_A_SAMPLE1, &|m, k| T3::CASE_A_SAMPLE1_STD_MATRIX[m][k], &|m, k| T3::CASE_A_SAMPLE1_KELVIN_MATRIX[m][k], 9),
        4 => judge_three(c, true, &T3::CASE_A_SYM_SAMPLE1, &|m, k| T3::CASE_A_SYM_SAMPLE1_STD_MATRIX[m][k], &|m, k| T3::CASE_A_SYM_SAMPLE1_KELVIN_MATRIX[m][k], 6),
        5 => judge_three(c, true, &T3::CASE_A_SYM_2D_SAMPLE1, &|m, k| T3::CASE_A_SYM_2D_SAMPLE1_STD_MATRIX[m][k], &|m, k| T3::CASE_A_SYM_2D_SAMPLE1_KELVIN_MATRIX[m][k], 4),
        6 => judge_three(c, false, &T3::CASE_B_SAMPLE1, &|m, k| T3::CASE_B_SAMPLE1_STD_MATRIX[k][m], &|m, k| T3::CASE_B_SAMPLE1_KELVIN_MATRIX[k][m], 9),
        7 => judge_three(c, false, &T3::CASE_B_SYM_SAMPLE1, &|m, k| T3::CASE_B_SYM_SAMPLE1_STD_MATRIX[k][m], &|m, k| T3::CASE_B_SYM_SAMPLE1_KELVIN_MATRIX[k][m], 6),
        _ => {
            judge_three(c, false, &T3::CASE_B_SYM_2D_SAMPLE1, &|m, k| T3::CASE_B_SYM_2D_SAMPLE1_STD_MATRIX[k][m], &|m, k| T3::CASE_B_SYM_2D_SAMPLE1_KELVIN_MATRIX[k][m], 4);
            // the components of the second samples spell their positions
            for i in 0..3 {
                for j in 0..3 {
                    for k in 0..3 {
                        let want = (100 * (i + 1) + 10 * (j + 1) + k + 1) as f64;
                        c.check(T3::CASE_A_SAMPLE2[i][j][k] == want && T3::CASE_B_SAMPLE2[i][j][k] == want, || format!("second sample at {},{},{}", i, j, k));
                        for l in 0..3 {
                            let w = 10.0 * want + (l + 1) as f64;
                            c.check(T4::SAMPLE2[i][j][k][l] == w, || format!("second sample at {},{},{},{}", i, j, k, l));
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// functions of one variable

fn curve(id: usize, x: f64) -> f64 {
    match id {
        1 => x * x - 1.0,
        2 => 0.5 - 1.0 / (1.0 + 16.0 * x * x),
        3 => (((x + 3.0) * x - 2.0) * x * x + 1.0) * x - 1.0,
        4 => (x - 1.0) * (x - 1.0) + 5.0 * x.sin(),
        5 => 1.0 / (1.0 - (-2.0 * x).exp() * (5.0 * PI * x).sin().powi(2)) - 1.5,
        6..=8 => x.sin(),
        9 => 0.092834 * (77.0001 + 19.87 * x).sin(),
        10 => 0.092834 * (7.0001 + 1.87 * x).sin(),
        11 => 2.0 * x * x * x - 1.0 / x + 3.0 / (x * x),
        12 => 3.0 * x.exp() - 1.0 / (3.0 * x),
        13 => (2.0 * (x / 2.0).cos()).ln(),
        _ => x.exp(),
    }
}

fn functions(c: &mut Case) {
    let all = russell_lab::algo::get_test_functions();
    c.check(all.len() == 15, || format!("{} functions", all.len()));
    let k = 1 + c.index as usize % 14;
    let t = &all[k];
    c.input(format!("function {}", t.name));
    c.check(t.id == k, || format!("identifier {}", t.id));
    let args = &mut 0;
    let (a, b) = t.range;
    let f = |x: f64| (t.f)(x, &mut 0).unwrap();
    for _ in 0..20 {
        let x = a + (b - a) * c.rng.f(0.02, 0.98);
        let h = 1e-3 * (b - a).min(1.0) * if k == 5 || k == 9 { 0.2 } else { 1.0 };
        let size = [-3.0, 0.0, 3.0].iter().map(|s| f(x + s * h).abs()).fold(0.0, f64::max) + 0.1;
        c.close("value of a function", f(x), curve(k, x), 1e-12 * size * 10.0);
        c.close("first derivative", (t.g)(x, args).unwrap(), d1(&f, x, h), 1e-10 * size / h);
        c.close("second derivative", (t.h)(x, args).unwrap(), d2(&f, x, h), 1e-10 * size / h / h);
        c.count("points of a function");
    }
    // roots: their number by the changes of sign, and the stated ones
    let n = 20000;
    let mut roots = 0;
    for i in 0..n {
        let (p, q) = (a + (b - a) * i as f64 / n as f64, a + (b - a) * (i + 1) as f64 / n as f64);
        if f(p) == 0.0 || f(p) * f(q) < 0.0 {
            roots += 1;
        }
    }
    if f(b).abs() < 1e-15 {
        roots += 1;
    }
    c.check(roots == t.nroot, || format!("{} roots are stated, {} found", t.nroot, roots));
    for r in [&t.root1, &t.root2, &t.root3].into_iter().flatten() {
        c.check(r.a < r.xo && r.xo < r.b && r.fa * r.fb < 0.0, || format!("bracket of a root {:?}", r));
        c.check(f(r.xo - 1e-9) * f(r.xo + 1e-9) < 0.0, || format!("no change of sign at the root {:?}", r));
        c.close("value at the bracket", r.fa, f(r.a), 1e-12 * (1.0 + f(r.a).abs()));
        c.close("value at the bracket", r.fb, f(r.b), 1e-12 * (1.0 + f(r.b).abs()));
    }
    for m in [&t.min1, &t.min2, &t.min3].into_iter().flatten() {
        c.check(m.a < m.xo && m.xo < m.b, || format!("bracket of a minimum {:?}", m));
        c.close("value at the minimum", m.fxo, f(m.xo), 1e-12 * (1.0 + m.fxo.abs()));
        c.close("slope at the minimum", (t.g)(m.xo, args).unwrap(), 0.0, 1e-8);
        c.check((t.h)(m.xo, args).unwrap() > 0.0, || format!("curvature at the minimum {:?}", m));
        c.close("value at the bracket", m.fa, f(m.a), 1e-12 * (1.0 + f(m.a).abs()));
        c.close("value at the bracket", m.fb, f(m.b), 1e-12 * (1.0 + f(m.b).abs()));
    }
    if let Some((p, q, want)) = t.integral {
        // double exponential rule
        let (mid, half) = (0.5 * (p + q), 0.5 * (q - p));
        let mut sum = 0.0;
        let h = 1.0 / 512.0;
        for i in -3 * 512..=3 * 512 {
            let s = i as f64 * h;
            let u = 0.5 * PI * s.sinh();
            let x = mid + half * u.tanh();
            if x > p && x < q {
                sum += h * curve(k, x) * half * 0.5 * PI * s.cosh() / (u.cosh() * u.cosh());
            }
        }
        c.close("integral", want, sum, 1e-9 * (1.0 + want.abs()));
        c.count("integrals");
    }
}

// ------------------------------------------------------------------------------------------------
// partial differential equations

/// sixth-order differences
fn d1(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> f64 {
    (45.0 * (f(x + h) - f(x - h)) - 9.0 * (f(x + 2.0 * h) - f(x - 2.0 * h)) + (f(x + 3.0 * h) - f(x - 3.0 * h))) / (60.0 * h)
}

fn d2(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> f64 {
    (2.0 * (f(x + 3.0 * h) + f(x - 3.0 * h)) - 27.0 * (f(x + 2.0 * h) + f(x - 2.0 * h)) + 270.0 * (f(x + h) + f(x - h)) - 490.0 * f(x)) / (180.0 * h * h)
}

type F1 = Box<dyn Fn(f64) -> f64>;
type F2 = Box<dyn Fn(f64, f64) -> f64>;
type Flow2 = Box<dyn Fn(f64, f64) -> (f64, f64)>;

#[allow(clippy::too_many_arguments)]
fn judge_1d<'a>(c: &mut Case, make: &dyn Fn() -> (f64, f64, f64, f64, EssentialBcs1d<'a>, NaturalBcs1d<'a>, F1, F1, Option<F1>), exact: &dyn Fn(f64) -> f64) {
    let (xmin, xmax, kx, alpha, ebcs, nbcs, source, ana, flow) = make();
    let len = xmax - xmin;
    let size = (0..=20).map(|i| ana(xmin + len * i as f64 / 20.0).abs()).fold(0.0, f64::max);
    let h = 3e-3 * len;
    let curv = size / (len * len) * kx.abs() + alpha.abs() * size;
    for _ in 0..20 {
        let x = xmin + len * c.rng.unit();
        c.close("solution against its formula", ana(x), exact(x), 1e-10 * (1.0 + size));
        let lhs = -kx * d2(&|t| ana(t), x, h) + alpha * ana(x);
        c.close("equation", lhs, source(x), 1e-6 * curv);
        if let Some(w) = &flow {
            c.close("flow", w(x), -kx * d1(&|t| ana(t), x, h), 1e-8 * size * kx.abs() / len * 10.0);
        }
        c.count("points of a problem");
    }
    let nx = 24 + c.rng.int(0, 8);
    let lmm = c.rng.bool();
    if let Some(spc) = c.ok("discretisation", Spc1d::new(xmin, xmax, nx, ebcs, nbcs, kx)) {
        let res = if lmm { spc.solve_lmm(alpha, source.as_ref()) } else { spc.solve_sps(alpha, source.as_ref()) };
        if let Some(a) = c.ok("solution", res) {
            let mut worst = 0.0f64;
            spc.for_each_coord(|m, x| worst = worst.max((a[m] - ana(x)).abs()));
            c.max("difference to the solution", worst / size);
            c.check(worst <= 1e-7 * size, || format!("the solution of the problem differs by {} from the reference", worst));
            c.count("problems solved");
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn equation_2d(c: &mut Case, x: f64, y: f64, k: (f64, f64), alpha: f64, source: &F2, ana: &F2, flow: Option<&Flow2>, size: f64, h: f64) {
    let lhs = -k.0 * d2(&|t| ana(t, y), x, h) - k.1 * d2(&|t| ana(x, t), y, h) + alpha * ana(x, y);
    let curv = (k.0.abs() + k.1.abs()) * size * 50.0 + alpha.abs() * size;
    c.close("equation", lhs, source(x, y), 1e-7 * curv);
    if let Some(w) = flow {
        let (wx, wy) = w(x, y);
        c.close("flow along x", wx, -k.0 * d1(&|t| ana(t, y), x, h), 1e-8 * size * k.0.abs() * 10.0);
        c.close("flow along y", wy, -k.1 * d1(&|t| ana(x, t), y, h), 1e-8 * size * k.1.abs() * 10.0);
    }
    c.count("points of a problem");
}

#[allow(clippy::too_many_arguments)]
fn judge_2d(
    c: &mut Case,
    dom: (f64, f64, f64, f64),
    k: (f64, f64),
    alpha: f64,
    ebcs: EssentialBcs2d<'static>,
    nbcs: NaturalBcs2d<'static>,
    source: F2,
    ana: F2,
    flow: Option<Flow2>,
    exact: &dyn Fn(f64, f64) -> f64,
    tol: f64,
    n: usize,
) {
    let (lx, ly) = (dom.1 - dom.0, dom.3 - dom.2);
    let mut size = 0.0f64;
    for i in 0..=8 {
        for j in 0..=8 {
            size = size.max(ana(dom.0 + lx * i as f64 / 8.0, dom.2 + ly * j as f64 / 8.0).abs());
        }
    }
    for _ in 0..10 {
        // inside the domain where the series of problem 4 is smooth
        let (x, y) = (dom.0 + lx * c.rng.f(0.05, 0.95), dom.2 + ly * c.rng.f(0.05, 0.95));
        c.close("solution against its formula", ana(x, y), exact(x, y), tol.max(1e-11) * (1.0 + size));
        equation_2d(c, x, y, k, alpha, &source, &ana, flow.as_ref(), size, 3e-3 * lx.min(ly));
    }
    let (nx, ny) = (n + c.rng.int(0, 3), n + c.rng.int(0, 3));
    let lmm = c.rng.bool();
    if let Some(spc) = c.ok("discretisation", Spc2d::new(dom.0, dom.1, dom.2, dom.3, nx, ny, ebcs, nbcs, k.0, k.1)) {
        let res = if lmm { spc.solve_lmm(alpha, source.as_ref()) } else { spc.solve_sps(alpha, source.as_ref()) };
        if let Some(a) = c.ok("solution", res) {
            let mut worst = 0.0f64;
            spc.for_each_coord(|m, x, y| worst = worst.max((a[m] - ana(x, y)).abs()));
            c.max("difference to the solution", worst / size / tol * 1e-7);
            c.check(worst <= tol * size, || format!("the solution of the problem differs by {} from the reference", worst));
            c.count("problems solved");
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn judge_map(c: &mut Case, map: Transfinite2d, k: f64, ebcs: EssentialBcs2d<'static>, nbcs: NaturalBcs2d<'static>, source: F2, ana: F2, exact: &dyn Fn(f64, f64) -> f64, tol: f64) {
    let n = 20 + c.rng.int(0, 3);
    let lmm = c.rng.bool();
    let Some(mut spc) = c.ok("discretisation", SpcMap2d::new(map, n, n + 1, ebcs, nbcs, k)) else { return };
    let res = if lmm { spc.solve_lmm(0.0, source.as_ref()) } else { spc.solve_sps(0.0, source.as_ref()) };
    let Some(a) = c.ok("solution", res) else { return };
    let mut pts = Vec::new();
    spc.for_each_coord(|m, x, y| pts.push((m, x, y)));
    let size = pts.iter().map(|p| ana(p.1, p.2).abs()).fold(0.0, f64::max);
    let mut worst = 0.0f64;
    for (m, x, y) in &pts {
        worst = worst.max((a[*m] - ana(*x, *y)).abs());
        let (i, j) = (m % n, m / n);
        c.close("solution against its formula", ana(*x, *y), exact(*x, *y), 1e-11 * (1.0 + size));
        if i % 5 == 2 && j % 5 == 2 {
            equation_2d(c, *x, *y, (k, k), 0.0, &source, &ana, None, size, 1e-2 * x.hypot(*y));
        }
    }
    c.max("difference to the solution", worst / size / tol * 1e-7);
    c.check(worst <= tol * size, || format!("the solution of the problem differs by {} from the reference", worst));
    c.count("problems solved");
}

fn fields(c: &mut Case) {
    let kind = c.index % 16;
    match kind {
        0 => {
            c.input("1d 01".to_string());
            judge_1d(
                c,
                &|| {
                    let (a, b, k, e, n, s, u, w) = ProblemSamples::d1_problem_01();
                    (a, b, k, 0.0, e, n, s, u, Some(w))
                },
                &|x| (x - x * x * x) / 6.0,
            );
        }
        1 => {
            c.input("1d 02".to_string());
            judge_1d(
                c,
                &|| {
                    let (a, b, k, al, e, n, s, u) = ProblemSamples::d1_problem_02();
                    (a, b, k, al, e, n, s, u, None)
                },
                &|x| {
                    let m = (2.0 * PI / 0.01571f64).sqrt();
                    20.0 + 300.0 * (m * (0.05 - x)).cosh() / (m * 0.05).cosh()
                },
            );
        }
        2 => {
            c.input("1d 03".to_string());
            judge_1d(
                c,
                &|| {
                    let (a, b, k, al, e, n, s, u) = ProblemSamples::d1_problem_03();
                    (a, b, k, al, e, n, s, u, None)
                },
                &|x| x.sinh() / 1f64.cosh() + x * x + 2.0,
            );
        }
        3 => {
            c.input("1d 04a".to_string());
            judge_1d(
                c,
                &|| {
                    let (a, b, k, e, n, s, u) = ProblemSamples::d1_problem_04a();
                    (a, b, k, 0.0, e, n, s, u, None)
                },
                &|x| ((4.0 * x).exp() - 4f64.sinh() * x - 4f64.cosh()) / 16.0,
            );
        }
        4 => {
            c.input("1d 04b".to_string());
            judge_1d(
                c,
                &|| {
                    let (a, b, k, e, n, s, u) = ProblemSamples::d1_problem_04b();
                    (a, b, k, 0.0, e, n, s, u, None)
                },
                &|x| ((4.0 * x).exp() - 4.0 * (-4f64).exp() * (x - 1.0) - 4f64.exp()) / 16.0,
            );
        }
        5 | 6 => {
            let (ll, g0, phi) = (c.rng.f(0.3, 3.0), 2.0 * c.rng.sym(), 2.0 * c.rng.sym());
            let mut beta = c.rng.f(0.5, 10.0) / ll;
            // away from resonance
            while (beta * ll).cos().abs() < 0.2 {
                beta += 0.1 / ll;
            }
            c.input(format!("1d 05 beta={} ll={} g0={} phi={}", beta, ll, g0, phi));
            judge_1d(
                c,
                &|| {
                    let (a, b, k, e, n, s, u, w) = ProblemSamples::d1_problem_05(beta, ll, g0, phi);
                    (a, b, k, beta * beta, e, n, s, u, Some(w))
                },
                &|x| {
                    let c1 = g0 / beta;
                    c1 * (beta * x).sin() + (phi - c1 * (beta * ll).sin()) / (beta * ll).cos() * (beta * x).cos()
                },
            );
        }
        7 => {
            let case_a = c.rng.bool();
            c.input(format!("2d 01 {}", case_a));
            let (a, b, d, e, kx, ky, eb, nb, s, u, w) = ProblemSamples::d2_problem_01(case_a);
            judge_2d(c, (a, b, d, e), (kx, ky), 0.0, eb, nb, s, u, Some(w), &|x, y| x * y * (x - 1.0) * (y - 1.0) * (x - y).exp(), 1e-7, 14);
        }
        8 => {
            c.input("2d 02".to_string());
            let (a, b, d, e, kx, ky, eb, nb, s, u) = ProblemSamples::d2_problem_02();
            judge_2d(c, (a, b, d, e), (kx, ky), 0.0, eb, nb, s, u, None, &|x, y| y * (PI * x).sin(), 1e-7, 14);
        }
        9 | 10 => {
            let k = c.rng.mag(-1.0, 1.0);
            let alpha = if c.rng.bool() { 0.0 } else { k * c.rng.f(0.0, 5.0) };
            let combo = *c.rng.pick(&["NNDD", "NDND", "DNND", "DDNN", "DDDD"]);
            c.input(format!("2d 03 k={} alpha={} {}", k, alpha, combo));
            let (a, b, d, e, kx, ky, eb, nb, s, u, w) = ProblemSamples::d2_problem_03(k, alpha, combo);
            judge_2d(c, (a, b, d, e), (kx, ky), alpha, eb, nb, s, u, Some(w), &|x, y| (2.0 * PI * x).sin() * (2.0 * PI * y).cos(), 1e-7, 18);
        }
        11 => {
            let nsum = c.rng.int(60, 200);
            c.input(format!("2d 04 {}", nsum));
            let (a, b, d, e, kx, ky, eb, nb, s, u) = ProblemSamples::d2_problem_04(nsum);
            let series = |x: f64, y: f64| {
                let mut sum = 0.0;
                for k in (1..400).step_by(2) {
                    let kp = k as f64 * PI;
                    // ratio of hyperbolic sines without overflow
                    let ratio = |t: f64| (kp * (t - 1.0)).exp() * (1.0 - (-2.0 * kp * t).exp()) / (1.0 - (-2.0 * kp).exp());
                    sum += (kp * (1.0 + x) / 2.0).sin() * (ratio((1.0 + y) / 2.0) + ratio((1.0 - y) / 2.0)) / (k as f64).powi(3);
                }
                (1.0 - x * x) / 2.0 - 16.0 * sum / PI.powi(3)
            };
            judge_2d(c, (a, b, d, e), (kx, ky), 0.0, eb, nb, s, u, None, &series, 1e-3, 18);
        }
        12 => {
            c.input("2d 05".to_string());
            let (a, b, d, e, kx, ky, eb, nb, s, u) = ProblemSamples::d2_problem_05();
            judge_2d(c, (a, b, d, e), (kx, ky), 0.0, eb, nb, s, u, None, &|x, _| 1.0 + x * x * x, 1e-7, 6);
        }
        13 => {
            c.input("2d 06".to_string());
            let (a, b, d, e, kx, ky, eb, nb, s, u) = ProblemSamples::d2_problem_06();
            judge_2d(c, (a, b, d, e), (kx, ky), 0.0, eb, nb, s, u, None, &|x, y| (1.0 - x + y).tanh(), 1e-4, 20);
        }
        14 => {
            if c.rng.chance(0.4) {
                c.input("2d 07".to_string());
                let (a, b, d, e, kx, ky, eb, nb, s, u) = ProblemSamples::d2_problem_07();
                judge_2d(c, (a, b, d, e), (kx, ky), 0.0, eb, nb, s, u, None, &|x, y| (2.0 * PI * x).cos() * (2.0 * PI * y).sin(), 1e-5, 22);
            } else {
                let ra = c.rng.f(0.5, 2.0);
                let lozenge = c.rng.bool();
                let rb = ra * if lozenge { c.rng.f(2.0, 3.0) } else { c.rng.f(1.5, 3.0) };
                c.input(format!("2d 08 ra={} rb={} {}", ra, rb, lozenge));
                let (map, k, eb, nb, s, u) = ProblemSamples::d2_problem_08(ra, rb, lozenge);
                judge_map(c, map, k, eb, nb, s, u, &|x, y| x.hypot(y).ln() * (4.0 * y.atan2(x)).sin(), 1e-4);
            }
        }
        _ => {
            let ra = c.rng.f(0.5, 2.0);
            let rb = ra * c.rng.f(1.5, 4.0);
            let v = c.rng.mag(-1.0, 1.0);
            c.input(format!("2d 09 ra={} rb={} v={}", ra, rb, v));
            let (map, k, eb, nb, s, u) = ProblemSamples::d2_problem_09(ra, rb, v);
            judge_map(c, map, k, eb, nb, s, u, &|x, y| (x.hypot(y) + ra * ra / x.hypot(y)) * v * y.atan2(x).cos(), 1e-5);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// ordinary differential equations

type Jac = fn(f64, &[f64]) -> Vec<Vec<f64>>;

/// A system as documented, written down again
#[derive(Clone)]
struct Doc {
    n: usize,
    f: std::sync::Arc<dyn Fn(f64, &[f64]) -> Vec<f64> + Send + Sync>,
    j: std::sync::Arc<dyn Fn(f64, &[f64]) -> Vec<Vec<f64>> + Send + Sync>,
    mass: Option<Vec<Vec<f64>>>,
}

fn twin<'a>(doc: &Doc) -> System<'a, NoArgs> {
    let n = doc.n;
    let (f, j) = (doc.f.clone(), doc.j.clone());
    let mut s = System::new(n, move |r: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
        for (i, v) in f(x, y.as_data()).iter().enumerate() {
            r[i] = *v;
        }
        Ok(())
    });
    s.set_jacobian(None, Sym::No, move |jj: &mut CooMatrix, a: f64, x: f64, y: &Vector, _: &mut NoArgs| {
        jj.reset();
        for (i, r) in j(x, y.as_data()).iter().enumerate() {
            for (k, v) in r.iter().enumerate() {
                jj.put(i, k, a * v)?;
            }
        }
        Ok(())
    })
    .unwrap();
    if let Some(m) = doc.mass.clone() {
        s.set_mass(None, Sym::No, move |mm: &mut CooMatrix| {
            for (i, r) in m.iter().enumerate() {
                for (k, v) in r.iter().enumerate() {
                    mm.put(i, k, *v).unwrap();
                }
            }
        })
        .unwrap();
    }
    s
}

fn run_ode(par: Params, s: System<'_, NoArgs>, y0: &[f64], x0: f64, x1: f64, h: Option<f64>) -> Result<(Vec<f64>, [usize; 4]), &'static str> {
    let mut solver = OdeSolver::new(par, s)?;
    let mut y = Vector::from(&y0);
    solver.solve(&mut y, x0, x1, h, &mut 0, None)?;
    let st = solver.stats();
    Ok((y.as_data().clone(), [st.n_accepted, st.n_rejected, st.n_iterations, st.n_factor]))
}

/// The sample behaves like the documented system
fn judge_ode(c: &mut Case, sample: &dyn Fn() -> System<'static, NoArgs>, doc: &Doc, y0: &[f64], x0: f64, x1: f64) {
    let n = doc.n;
    let kind = c.index % 11;
    c.input(format!("system {} y0={:?} x0={} x1={}", kind, y0, x0, x1));
    c.check(sample().get_ndim() == n, || format!("dimension {}", sample().get_ndim()));
    let scale = y0.iter().fold(1e-3f64, |a, v| a.max(v.abs()));
    if doc.mass.is_none() {
        // one long explicit step discloses the right-hand side anywhere
        for _ in 0..10 {
            // stations the step reaches without rounding
            let x = x0 + (1024.0 * (x1 - x0) * c.rng.unit()).round() / 1024.0;
            let y: Vec<f64> = y0.iter().map(|v| v + scale * c.rng.sym()).collect();
            let want = (doc.f)(x, &y);
            let size = want.iter().fold(0.0f64, |a, v| a.max(v.abs()));
            let h = 2f64.powi(((1.0 + scale) / (1e-300 + size)).log2().ceil().clamp(-40.0, 40.0) as i32);
            if let Some((z, _)) = c.ok("explicit step", run_ode(Params::new(Method::FwEuler), sample(), &y, x, x + h, Some(h))) {
                for i in 0..n {
                    c.close("right-hand side", (z[i] - y[i]) / h, want[i], 1e-9 * size + 1e-9 * (1.0 + scale) / h);
                }
                c.count("right-hand sides");
            }
        }
    }
    // implicit runs take the same course, iteration by iteration, when the matrices agree
    let mut par = Params::new(Method::Radau5);
    let tol = 10f64.powf(c.rng.f(-7.0, -4.0));
    c.ok("tolerances", par.set_tolerances(tol, tol, None));
    par.step.h_ini = 1e-4 * (x1 - x0);
    par.radau5.concurrent = false;
    let a = run_ode(par, sample(), y0, x0, x1, None);
    let b = run_ode(par, twin(doc), y0, x0, x1, None);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            // close encounters amplify a different choice of one step
            let mut sens = 0.0f64;
            for f in [0.99, 1.01] {
                let mut p = par;
                c.ok("tolerances", p.set_tolerances(tol * f, tol * f, None));
                match run_ode(p, twin(doc), y0, x0, x1, None) {
                    Ok(r) => (0..n).for_each(|i| sens = sens.max((r.0[i] - b.0[i]).abs())),
                    Err(_) => sens = f64::INFINITY,
                }
            }
            let size = b.0.iter().fold(1.0f64, |a, v| a.max(v.abs()));
            if !(sens <= 10.0 * tol * size) {
                c.count("runs too sensitive to compare");
                return;
            }
            for i in 0..n {
                c.close("final state", a.0[i], b.0[i], 100.0 * tol * (1.0 + b.0[i].abs()));
            }
            for k in 0..4 {
                let d = a.1[k].abs_diff(b.1[k]);
                c.max("difference of the counts", d as f64);
                c.check(d <= 2 + b.1[k] / 50, || format!("steps, iterations and factorisations {:?}, with the documented Jacobian {:?}", a.1, b.1));
            }
            c.count("runs compared");
        }
        (Err(e), Err(g)) if e == g => c.count("runs failing alike"),
        (a, b) => c.fail(format!("the sample ends with {:?}, the documented system with {:?}", a, b)),
    }
}

fn judge_closed(c: &mut Case, doc: &Doc, y0: &[f64], x0: f64, x1: f64, y: &dyn Fn(f64) -> Vec<f64>) {
    for (i, v) in y(x0).iter().enumerate() {
        c.close("solution at the start", *v, y0[i], 1e-12 * (1.0 + y0[i].abs()));
    }
    for _ in 0..5 {
        let x = x0 + (x1 - x0) * c.rng.f(0.05, 1.0);
        let h = 1e-3 * (x1 - x0).min(1.0);
        let at = y(x);
        let f = (doc.f)(x, &at);
        let size = f.iter().fold(1.0f64, |a, v| a.max(v.abs()));
        let dy: Vec<f64> = (0..doc.n).map(|i| d1(&|t| y(t)[i], x, h)).collect();
        for i in 0..doc.n {
            let lhs = match &doc.mass {
                Some(m) => (0..doc.n).map(|k| m[i][k] * dy[k]).sum(),
                None => dy[i],
            };
            c.close("solution in the equation", lhs, f[i], 1e-6 * size);
        }
        c.count("closed solutions");
    }
}

fn doc(n: usize, f: fn(f64, &[f64]) -> Vec<f64>, j: Jac, mass: Option<Vec<Vec<f64>>>) -> Doc {
    Doc { n, f: std::sync::Arc::new(f), j: std::sync::Arc::new(j), mass }
}

fn shaken(c: &mut Case, y: &Vector, by: f64) -> Vec<f64> {
    if c.rng.chance(0.3) {
        return y.as_data().clone();
    }
    y.as_data().iter().map(|v| v + by * c.rng.sym()).collect()
}

fn ordinary(c: &mut Case) {
    let kind = c.index % 11;
    c.input(format!("system {}", kind));
    let x1 = c.rng.f(0.5, 2.0);
    match kind {
        0 => {
            let d = doc(1, |_, _| vec![1.0], |_, _| vec![vec![0.0]], None);
            let (_, x0, y0, args, f) = OdeSamples::simple_equation_constant();
            judge_closed(c, &d, y0.as_data(), x0, x1, &|x| closed(1, x, &f, &mut args.clone()));
            let y = shaken(c, &y0, 1.0);
            judge_ode(c, &|| OdeSamples::simple_equation_constant().0, &d, &y, x0, x1);
        }
        1 => {
            let sym = c.rng.bool();
            let m = vec![vec![1.0, 1.0, 0.0], vec![1.0, -1.0, 0.0], vec![0.0, 0.0, 1.0]];
            let d = doc(3, |x, y| vec![-y[0] + y[1], y[0] + y[1], 1.0 / (1.0 + x)], |_, _| vec![vec![-1.0, 1.0, 0.0], vec![1.0, 1.0, 0.0], vec![0.0; 3]], Some(m));
            let (_, x0, y0, args, f) = OdeSamples::simple_system_with_mass_matrix(sym, Genie::Umfpack);
            judge_closed(c, &d, y0.as_data(), x0, x1, &|x| closed(3, x, &f, &mut args.clone()));
            let y = shaken(c, &y0, 1.0);
            judge_ode(c, &|| OdeSamples::simple_system_with_mass_matrix(sym, Genie::Umfpack).0, &d, &y, x0, x1);
        }
        2 => {
            let d = doc(
                2,
                |_, y| vec![1.0 - 4.0 * y[0] + y[0] * y[0] * y[1], 3.0 * y[0] - y[0] * y[0] * y[1]],
                |_, y| vec![vec![-4.0 + 2.0 * y[0] * y[1], y[0] * y[0]], vec![3.0 - 2.0 * y[0] * y[1], -y[0] * y[0]]],
                None,
            );
            let (_, x0, y0, _, y_ref) = OdeSamples::brusselator_ode();
            c.check(x0 == 0.0 && y0.as_data() == &vec![1.5, 3.0], || format!("start {} {:?}", x0, y0.as_data()));
            let mut par = Params::new(*c.rng.pick(&[Method::DoPri8, Method::DoPri5, Method::Radau5]));
            c.ok("tolerances", par.set_tolerances(1e-9, 1e-9, None));
            if let Some((y, _)) = c.ok("run", run_ode(par, OdeSamples::brusselator_ode().0, y0.as_data(), 0.0, 20.0, None)) {
                c.close_slice("reference", &y, y_ref.as_data(), 1e-5);
            }
            let y = shaken(c, &y0, 1.0);
            judge_ode(c, &|| OdeSamples::brusselator_ode().0, &d, &y, x0, 5.0 * x1);
        }
        3 => {
            let d = doc(
                4,
                |_, y| {
                    let (mu, md) = (0.012277471, 1.0 - 0.012277471);
                    let d0 = ((y[0] + mu).powi(2) + y[1] * y[1]).powf(1.5);
                    let d1 = ((y[0] - md).powi(2) + y[1] * y[1]).powf(1.5);
                    vec![y[2], y[3], y[0] + 2.0 * y[3] - md * (y[0] + mu) / d0 - mu * (y[0] - md) / d1, y[1] - 2.0 * y[2] - md * y[1] / d0 - mu * y[1] / d1]
                },
                |_, y| {
                    // r⁻³ differentiated
                    let (mu, md) = (0.012277471, 1.0 - 0.012277471);
                    let (a, b) = (y[0] + mu, y[0] - md);
                    let (ra, rb) = (a.hypot(y[1]), b.hypot(y[1]));
                    let g = |w: f64, p: f64, q: f64, r: f64, same: f64| w * (3.0 * p * q / r.powi(5) - same / r.powi(3));
                    vec![
                        vec![0.0, 0.0, 1.0, 0.0],
                        vec![0.0, 0.0, 0.0, 1.0],
                        vec![1.0 + g(md, a, a, ra, 1.0) + g(mu, b, b, rb, 1.0), g(md, a, y[1], ra, 0.0) + g(mu, b, y[1], rb, 0.0), 0.0, 2.0],
                        vec![g(md, a, y[1], ra, 0.0) + g(mu, b, y[1], rb, 0.0), 1.0 + g(md, y[1], y[1], ra, 1.0) + g(mu, y[1], y[1], rb, 1.0), -2.0, 0.0],
                    ]
                },
                None,
            );
            let (_, x0, y0, xe, _, y_ref) = OdeSamples::arenstorf();
            // the orbit is closed
            for i in 0..4 {
                c.close("reference of the closed orbit", y_ref[i], y0[i], 1e-11);
            }
            if c.index % 5 == 0 {
                let mut par = Params::new(Method::DoPri8);
                c.ok("tolerances", par.set_tolerances(1e-12, 1e-12, None));
                if let Some((y, _)) = c.ok("run", run_ode(par, OdeSamples::arenstorf().0, y0.as_data(), x0, xe, None)) {
                    c.close_slice("reference", &y, y_ref.as_data(), 1e-3);
                }
            }
            let y = vec![c.rng.f(0.3, 0.7), c.rng.f(0.3, 0.7), c.rng.sym(), c.rng.sym()];
            judge_ode(c, &|| OdeSamples::arenstorf().0, &d, &y, x0, 0.5 * x1);
        }
        4 => {
            let d = doc(1, |x, y| vec![-50.0 * (y[0] - x.cos())], |_, _| vec![vec![-50.0]], None);
            let (_, x0, y0, args, f) = OdeSamples::hairer_wanner_eq1();
            judge_closed(c, &d, y0.as_data(), x0, x1, &|x| closed(1, x, &f, &mut args.clone()));
            let y = shaken(c, &y0, 1.0);
            judge_ode(c, &|| OdeSamples::hairer_wanner_eq1().0, &d, &y, x0, x1);
        }
        5 => {
            let d = doc(
                3,
                |_, y| vec![-0.04 * y[0] + 1e4 * y[1] * y[2], 0.04 * y[0] - 1e4 * y[1] * y[2] - 3e7 * y[1] * y[1], 3e7 * y[1] * y[1]],
                |_, y| vec![vec![-0.04, 1e4 * y[2], 1e4 * y[1]], vec![0.04, -1e4 * y[2] - 6e7 * y[1], -1e4 * y[1]], vec![0.0, 6e7 * y[1], 0.0]],
                None,
            );
            let (_, x0, y0, _) = OdeSamples::robertson();
            c.check(x0 == 0.0 && y0.as_data() == &vec![1.0, 0.0, 0.0], || format!("start {} {:?}", x0, y0.as_data()));
            let y = [c.rng.f(0.2, 2.0), 0.0, c.rng.f(0.0, 1.0)];
            judge_ode(c, &|| OdeSamples::robertson().0, &d, &y, x0, x1);
        }
        6 | 7 => {
            let stationary = c.rng.bool();
            let eps = 10f64.powf(c.rng.f(-4.0, 0.0));
            let e = if stationary { 1.0 } else { eps };
            let d = Doc {
                n: 2,
                f: std::sync::Arc::new(move |_, y: &[f64]| vec![y[1], ((1.0 - y[0] * y[0]) * y[1] - y[0]) / e]),
                j: std::sync::Arc::new(move |_, y: &[f64]| vec![vec![0.0, 1.0], vec![(-2.0 * y[0] * y[1] - 1.0) / e, (1.0 - y[0] * y[0]) / e]]),
                mass: None,
            };
            let (_, x0, y0, xe, _) = OdeSamples::van_der_pol(eps, stationary);
            if stationary {
                // the state comes back after one period, with no slope
                let mut par = Params::new(Method::DoPri8);
                c.ok("tolerances", par.set_tolerances(1e-11, 1e-11, None));
                if let Some((y, _)) = c.ok("run", run_ode(par, OdeSamples::van_der_pol(eps, true).0, y0.as_data(), x0, xe, None)) {
                    c.close_slice("state after one period", &y, y0.as_data(), 1e-7);
                }
                c.check(y0[1] == 0.0, || "slope of the stationary point".to_string());
            } else {
                c.check(x0 == 0.0 && xe == 2.0 && y0.as_data() == &vec![2.0, -0.6], || format!("start {} {:?}", x0, y0.as_data()));
            }
            let y = shaken(c, &y0, 0.5);
            judge_ode(c, &|| OdeSamples::van_der_pol(eps, stationary).0, &d, &y, x0, x1);
        }
        8 => {
            let m = {
                let (a, b, g) = (1e-6, 2e-6, 3e-6);
                vec![vec![-a, a, 0.0, 0.0, 0.0], vec![a, -a, 0.0, 0.0, 0.0], vec![0.0, 0.0, -b, 0.0, 0.0], vec![0.0, 0.0, 0.0, -g, g], vec![0.0, 0.0, 0.0, g, -g]]
            };
            let d = doc(
                5,
                |x, y| {
                    let ue = 0.4 * (200.0 * PI * x).sin();
                    let g = 1e-6 * (((y[1] - y[2]) / 0.026).exp() - 1.0);
                    vec![(y[0] - ue) / 1000.0, (2.0 * y[1] - 6.0) / 9000.0 + 0.01 * g, y[2] / 9000.0 - g, (y[3] - 6.0) / 9000.0 + 0.99 * g, y[4] / 9000.0]
                },
                |_, y| {
                    let h = 1e-6 * ((y[1] - y[2]) / 0.026).exp() / 0.026;
                    vec![
                        vec![1e-3, 0.0, 0.0, 0.0, 0.0],
                        vec![0.0, 2.0 / 9000.0 + 0.01 * h, -0.01 * h, 0.0, 0.0],
                        vec![0.0, -h, 1.0 / 9000.0 + h, 0.0, 0.0],
                        vec![0.0, 0.99 * h, -0.99 * h, 1.0 / 9000.0, 0.0],
                        vec![0.0, 0.0, 0.0, 0.0, 1.0 / 9000.0],
                    ]
                },
                Some(m),
            );
            let (_, x0, y0, _) = OdeSamples::amplifier1t();
            c.check(x0 == 0.0 && y0.as_data() == &vec![0.0, 3.0, 3.0, 6.0, 0.0], || format!("start {} {:?}", x0, y0.as_data()));
            judge_ode(c, &|| OdeSamples::amplifier1t().0, &d, y0.as_data(), x0, 0.01 * x1);
        }
        9 => {
            let d = doc(1, |x, y| vec![x + y[0]], |_, _| vec![vec![1.0]], None);
            let (_, x0, y0, args, f) = OdeSamples::kreyszig_eq6_page902();
            judge_closed(c, &d, y0.as_data(), x0, x1, &|x| closed(1, x, &f, &mut args.clone()));
            let y = shaken(c, &y0, 1.0);
            judge_ode(c, &|| OdeSamples::kreyszig_eq6_page902().0, &d, &y, x0, x1);
        }
        _ => {
            let d = doc(2, |x, y| vec![y[1], -10.0 * y[0] - 11.0 * y[1] + 10.0 * x + 11.0], |_, _| vec![vec![0.0, 1.0], vec![-10.0, -11.0]], None);
            let (_, x0, y0, args, f) = OdeSamples::kreyszig_ex4_page920();
            judge_closed(c, &d, y0.as_data(), x0, x1, &|x| closed(2, x, &f, &mut args.clone()));
            let y = shaken(c, &y0, 1.0);
            judge_ode(c, &|| OdeSamples::kreyszig_ex4_page920().0, &d, &y, x0, x1);
        }
    }
}

fn closed(n: usize, x: f64, f: &dyn Fn(&mut Vector, f64, &mut NoArgs), args: &mut NoArgs) -> Vec<f64> {
    let mut y = Vector::from(&vec![f64::NAN; n]);
    f(&mut y, x, args);
    y.as_data().clone()
}

/// reaction and diffusion on a grid
fn reaction(c: &mut Case) {
    let n = c.rng.int(3, 7);
    let s = n * n;
    let alpha = c.rng.f(0.001, 0.5);
    let (second, dry) = (c.rng.bool(), c.rng.chance(0.3));
    let t = *c.rng.pick(&[0.0, 0.5, 1.09375, 1.109375, 1.125, 5.0]);
    c.input(format!("brusselator n={} alpha={} second={} dry={} t={}", n, alpha, second, dry, t));
    let h = 1.0 / (n - 1) as f64;
    let (system, t0, yy0, mut args) = OdeSamples::brusselator_pde(alpha, n, second, dry);
    c.check(t0 == 0.0 && yy0.dim() == 2 * s && system.get_ndim() == 2 * s, || "dimensions".to_string());
    let mut y = vec![0.0; 2 * s];
    for j in 0..n {
        for i in 0..n {
            let (x, z) = (i as f64 * h, j as f64 * h);
            let (u, v) = if second { (22.0 * z * (1.0 - z).powf(1.5), 27.0 * x * (1.0 - x).powf(1.5)) } else { (0.5 + z, 1.0 + 5.0 * x) };
            c.close("initial u", yy0[i + j * n], u, 1e-12);
            c.close("initial v", yy0[s + i + j * n], v, 1e-12);
            y[i + j * n] = c.rng.f(-2.0, 3.0);
            y[s + i + j * n] = c.rng.f(-2.0, 3.0);
        }
    }
    let step = 2f64.powi(-6);
    let mut f = vec![0.0; 2 * s];
    let next = |i: usize, up: bool| match (i, up) {
        (0, false) => if second { n - 1 } else { 1 },
        (i, true) if i == n - 1 => if second { 0 } else { n - 2 },
        (i, true) => i + 1,
        (i, false) => i - 1,
    };
    for j in 0..n {
        for i in 0..n {
            let m = i + j * n;
            let (u, v) = (y[m], y[s + m]);
            f[m] = 1.0 - 4.4 * u + u * u * v;
            f[s + m] = 3.4 * u - u * u * v;
            if !dry {
                for b in [0, s] {
                    let g = |i: usize, j: usize| y[b + i + j * n];
                    f[b + m] += alpha / (h * h) * (g(next(i, true), j) + g(next(i, false), j) + g(i, next(j, true)) + g(i, next(j, false)) - 4.0 * g(i, j));
                }
            }
            let (dx, dz) = (i as f64 * h - 0.3, j as f64 * h - 0.6);
            let r2 = dx * dx + dz * dz;
            if second && t >= 1.1 && r2 <= 0.01 {
                f[m] += 5.0;
            }
            // points on the rim belong to either side
            if (r2 - 0.01).abs() < 1e-12 {
                f[m] = f64::NAN;
            }
        }
    }
    let size = f.iter().filter(|v| v.is_finite()).fold(0.0f64, |a, v| a.max(v.abs()));
    let mut solver = OdeSolver::new(Params::new(Method::FwEuler), system).unwrap();
    let mut z = Vector::from(&y);
    if c.ok("explicit step", solver.solve(&mut z, t, t + step, Some(step), &mut args, None)).is_some() {
        let hh = (t + step) - t;
        for i in 0..2 * s {
            if f[i].is_finite() {
                c.close("right-hand side", (z[i] - y[i]) / hh, f[i], 1e-10 * (1.0 + size));
            }
        }
        c.count("right-hand sides on a grid");
    }
    // the Jacobian against finite differences: the same course of the iterations
    let run = |numerical: bool| {
        let (system, _, _, mut args) = OdeSamples::brusselator_pde(alpha, n, second, dry);
        let mut par = Params::new(Method::Radau5);
        par.set_tolerances(1e-5, 1e-5, None)?;
        par.newton.use_numerical_jacobian = numerical;
        par.radau5.concurrent = false;
        let mut solver = OdeSolver::new(par, system)?;
        let mut z = yy0.clone();
        solver.solve(&mut z, 0.0, 1.0, None, &mut args, None)?;
        let st = solver.stats();
        Ok::<_, &'static str>((z, [st.n_accepted, st.n_iterations, st.n_factor]))
    };
    if let (Some(a), Some(b)) = (c.ok("run", run(false)), c.ok("run with differences", run(true))) {
        c.close_slice("final state", a.0.as_data(), b.0.as_data(), 1e-3);
        for k in 0..3 {
            let d = a.1[k].abs_diff(b.1[k]);
            c.max("difference of the counts on a grid", d as f64);
            c.check(d <= 3 + b.1[k] / 10, || format!("steps, iterations and factorisations {:?}, with finite differences {:?}", a.1, b.1));
        }
        c.count("runs on a grid");
    }
}

// ------------------------------------------------------------------------------------------------
// nonlinear problems

type GG = std::sync::Arc<dyn Fn(f64, &[f64]) -> Vec<f64> + Send + Sync>;
type GJ = std::sync::Arc<dyn Fn(f64, &[f64]) -> (Vec<Vec<f64>>, Vec<f64>) + Send + Sync>;

fn nl_twin<'a, A>(n: usize, g: GG, j: GJ, sym: Sym) -> nl::System<'a, A> {
    nl::System::new(
        n,
        None,
        sym,
        move |r: &mut Vector, l: f64, u: &Vector, _: &mut A| {
            for (i, v) in g(l, u.as_data()).iter().enumerate() {
                r[i] = *v;
            }
            Ok(())
        },
        move |m: &mut CooMatrix, r: &mut Vector, l: f64, u: &Vector, _: &mut A| {
            let (a, b) = j(l, u.as_data());
            for i in 0..n {
                r[i] = b[i];
                for k in 0..n {
                    m.put(i, k, a[i][k])?;
                }
            }
            Ok(())
        },
    )
    .unwrap()
}

#[allow(clippy::type_complexity)]
fn nl_run<A>(config: &nl::Config, s: nl::System<'_, A>, args: &mut A, u0: &[f64], l0: f64, dir: nl::IniDir, stop: nl::Stop, ddl: &nl::DeltaLambda) -> Result<(String, Vec<Vec<f64>>, usize), &'static str> {
    let n = u0.len();
    let mut solver = nl::Solver::new(config, s)?;
    let mut u = Vector::from(&u0);
    let mut l = l0;
    let mut out = nl::Output::new();
    let comps: Vec<usize> = (0..n).collect();
    out.set_recording(true, &comps, &[]);
    let st = solver.solve(args, &mut u, &mut l, dir, stop, ddl, Some(&mut out))?;
    let mut hist: Vec<Vec<f64>> = vec![out.get_l_values().clone()];
    for m in 0..n {
        hist.push(out.get_u_values(m).clone());
    }
    Ok((format!("{:?}", st), hist, solver.get_stats().n_iteration_total))
}

#[allow(clippy::too_many_arguments)]
fn judge_nl<A>(
    c: &mut Case,
    make: &dyn Fn() -> (nl::System<'static, A>, A),
    n: usize,
    g: GG,
    j: GJ,
    u0: &[f64],
    l0: f64,
    spread: f64,
    lrange: (f64, f64),
    arclength: bool,
    stop: nl::Stop,
    ddl: &nl::DeltaLambda,
) {
    let (system, mut args) = make();
    let kind = c.index % 10;
    c.input(format!("nonlinear {} u0={:?} l0={} {:?}", kind, u0, l0, (j)(1.0, &vec![1.0; n])));
    c.check(system.get_ndim() == n, || format!("dimension {}", system.get_ndim()));
    // the derivatives, checked by the library and against the documented ones
    for _ in 0..5 {
        let u: Vec<f64> = u0.iter().map(|v| v + spread * c.rng.unit()).collect();
        let l = lrange.0 + (lrange.1 - lrange.0) * c.rng.unit();
        let (m, _) = j(l, &u);
        let size = m.iter().flatten().fold(1.0f64, |a, v| a.max(v.abs()));
        if let Err(e) = no_panic(|| system.check_ggu(l, &Vector::from(&u), &mut args, 1e-5 * size)) {
            c.fail(format!("derivatives at u={:?} l={}: {}", u, l, e));
        }
        c.count("derivatives of nonlinear systems");
    }
    let sym = system.get_sym_ggu();
    let mut config = nl::Config::new();
    config.set_method(if arclength { nl::Method::Arclength } else { nl::Method::Natural });
    config.set_n_step_max(60);
    let (system, mut args) = make();
    let a = nl_run(&config, system, &mut args, u0, l0, nl::IniDir::Pos, stop, ddl);
    let (_, mut args) = make();
    let b = nl_run(&config, nl_twin::<A>(n, g.clone(), j, sym), &mut args, u0, l0, nl::IniDir::Pos, stop, ddl);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            c.check(a.0 == b.0, || format!("status {} instead of {}", a.0, b.0));
            if c.check(a.1[0].len() == b.1[0].len(), || format!("{} points instead of {}", a.1[0].len(), b.1[0].len())) {
                for (p, q) in a.1.iter().zip(&b.1) {
                    for (x, y) in p.iter().zip(q) {
                        c.close("course", *x, *y, 1e-6 * (1.0 + y.abs()));
                    }
                }
            }
            c.check(a.2.abs_diff(b.2) <= 1 + b.2 / 20, || format!("{} iterations instead of {}", a.2, b.2));
            c.count("courses compared");
        }
        (Err(e), Err(h)) if e == h => c.count("courses failing alike"),
        (a, b) => c.fail(format!("the sample ends with {:?}, the documented system with {:?}", a, b)),
    }
}

fn nonlinear(c: &mut Case) {
    use std::sync::Arc;
    let kind = c.index % 10;
    c.input(format!("nonlinear {}", kind));
    let once = nl::Stop::Steps(1);
    let unit = nl::DeltaLambda::constant(1.0);
    match kind {
        0 => {
            let sym = *c.rng.pick(&[Sym::No, Sym::YesFull]);
            let (_, u, l, _) = nl::Samples::simple_linear_problem(sym);
            c.check(u.as_data() == &vec![0.0] && l == 0.0, || "start".to_string());
            let arc = c.rng.bool();
            judge_nl(
                c,
                &|| {
                    let (s, _, _, a) = nl::Samples::simple_linear_problem(sym);
                    (s, a)
                },
                1,
                Arc::new(|l, u| vec![u[0] - l]),
                Arc::new(|_, _| (vec![vec![1.0]], vec![-1.0])),
                &[0.0],
                0.0,
                1.0,
                (0.0, 1.0),
                arc,
                nl::Stop::MaxLambda(1.0),
                &nl::DeltaLambda::auto(0.1),
            );
        }
        1 => {
            let (_, ok, osc, ind, r, _) = nl::Samples::cubic_poly_1();
            let x = r[0];
            c.close("root", x * x * x - 2.0 * x - 2.0, 0.0, 1e-13 * 10.0);
            c.check(osc[0] == 0.0 && ok[0] == 1.0, || "starts".to_string());
            c.close("flat start", 3.0 * ind[0] * ind[0] - 2.0, 0.0, 1e-14);
            let start = if c.rng.bool() { ok[0] } else { c.rng.f(1.0, 5.0) };
            judge_nl(
                c,
                &|| {
                    let (s, _, _, _, _, a) = nl::Samples::cubic_poly_1();
                    (s, a)
                },
                1,
                Arc::new(|_, u| vec![u[0].powi(3) - 2.0 * u[0] - 2.0]),
                Arc::new(|_, u| (vec![vec![3.0 * u[0] * u[0] - 2.0]], vec![0.0])),
                &[start],
                0.0,
                2.0,
                (0.0, 1.0),
                false,
                once,
                &unit,
            );
        }
        2 => {
            let (_, u, r, _) = nl::Samples::cubic_poly_2();
            c.close("root", (r[0] - 1.0).powi(3) + 0.512, 0.0, 1e-14);
            let start = if c.rng.bool() { u[0] } else { c.rng.f(-2.0, 0.4) };
            judge_nl(
                c,
                &|| {
                    let (s, _, _, a) = nl::Samples::cubic_poly_2();
                    (s, a)
                },
                1,
                Arc::new(|_, u| vec![(u[0] - 1.0).powi(3) + 0.512]),
                Arc::new(|_, u| (vec![vec![3.0 * (u[0] - 1.0).powi(2)]], vec![0.0])),
                &[start],
                0.0,
                2.0,
                (0.0, 1.0),
                false,
                once,
                &unit,
            );
        }
        3 => {
            let (_, u, r, _) = nl::Samples::two_eq_ref();
            c.close("root", r[0].powi(3) + r[1] - 1.0, 0.0, 1e-14);
            c.close("root", -r[0] + r[1].powi(3) + 1.0, 0.0, 1e-14);
            let start = shaken(c, &u, 0.2);
            judge_nl(
                c,
                &|| {
                    let (s, _, _, a) = nl::Samples::two_eq_ref();
                    (s, a)
                },
                2,
                Arc::new(|_, u| vec![u[0].powi(3) + u[1] - 1.0, -u[0] + u[1].powi(3) + 1.0]),
                Arc::new(|_, u| (vec![vec![3.0 * u[0] * u[0], 1.0], vec![-1.0, 3.0 * u[1] * u[1]]], vec![0.0; 2])),
                &start,
                0.0,
                1.0,
                (0.0, 1.0),
                false,
                once,
                &unit,
            );
        }
        4 => {
            let (_, u, r, _) = nl::Samples::two_eq_nr_prob_1();
            c.check(r.as_data() == &vec![0.0, 0.0], || "root".to_string());
            let start = shaken(c, &u, 1.0);
            judge_nl(
                c,
                &|| {
                    let (s, _, _, a) = nl::Samples::two_eq_nr_prob_1();
                    (s, a)
                },
                2,
                Arc::new(|_, u| vec![u[0] * u[0] + u[1] * u[1], u[0] * u[0] - u[1] * u[1]]),
                Arc::new(|_, u| (vec![vec![2.0 * u[0], 2.0 * u[1]], vec![2.0 * u[0], -2.0 * u[1]]], vec![0.0; 2])),
                &start,
                0.0,
                1.0,
                (0.0, 1.0),
                false,
                once,
                &unit,
            );
        }
        5 => {
            let (_, a, b, _, p, q, _) = nl::Samples::two_eq_nr_prob_2();
            for r in [&p, &q] {
                c.close("root", r[0] * r[0] + r[1] * r[1] - 2.0, 0.0, 1e-14);
                c.close("root", (r[0] - 1.0).powi(2) + (r[1] - 1.0).powi(2) - 2.0, 0.0, 1e-14);
            }
            c.check(p[0] < p[1] && q[0] > q[1], || "order of the roots".to_string());
            let start = if c.rng.bool() { a } else { b };
            // each start leads to its root
            let root = if start[0] < start[1] { &p } else { &q };
            let mut config = nl::Config::new();
            config.set_method(nl::Method::Natural).set_n_iteration_max(60).set_delta_max_allowed(1e6).set_n_cont_delta_divergence_max(20).set_n_cont_residual_divergence_max(20);
            if let Some((_, h, _)) = c.ok("solve", nl_run(&config, nl::Samples::two_eq_nr_prob_2().0, &mut 0, start.as_data(), 0.0, nl::IniDir::Pos, once, &unit)) {
                for m in 0..2 {
                    c.close("root reached from its start", *h[1 + m].last().unwrap(), root[m], 1e-6);
                }
            }
            judge_nl(
                c,
                &|| {
                    let (s, _, _, _, _, _, a) = nl::Samples::two_eq_nr_prob_2();
                    (s, a)
                },
                2,
                Arc::new(|_, u| vec![u[0] * u[0] + u[1] * u[1] - 2.0, (u[0] - 1.0).powi(2) + (u[1] - 1.0).powi(2) - 2.0]),
                Arc::new(|_, u| (vec![vec![2.0 * u[0], 2.0 * u[1]], vec![2.0 * (u[0] - 1.0), 2.0 * (u[1] - 1.0)]], vec![0.0; 2])),
                root.as_data(),
                0.0,
                1.0,
                (0.0, 1.0),
                false,
                once,
                &unit,
            );
        }
        6 => {
            let (_, u, l, f, _) = nl::Samples::one_eq_with_fold_point();
            for _ in 0..5 {
                let v = 3.0 * c.rng.sym();
                c.close("point on the curve", v - f(v) * v.exp(), 0.0, 1e-12);
            }
            c.check(f(u[0]) == l, || "start".to_string());
            judge_nl(
                c,
                &|| {
                    let (s, _, _, _, a) = nl::Samples::one_eq_with_fold_point();
                    (s, a)
                },
                1,
                Arc::new(|l, u| vec![u[0] - l * u[0].exp()]),
                Arc::new(|l, u| (vec![vec![1.0 - l * u[0].exp()]], vec![-u[0].exp()])),
                &[0.0],
                0.0,
                2.0,
                (0.0, 0.5),
                true,
                nl::Stop::MaxCompU(0, 2.0),
                &nl::DeltaLambda::auto(0.05),
            );
        }
        7 => {
            let (alpha, pert) = (c.rng.f(1.5, 3.0), 10f64.powf(c.rng.f(-3.0, -1.0)));
            c.more(format!("alpha={} pert={}", alpha, pert));
            let (_, u, l, f, _) = nl::Samples::singular_initial_state(alpha, pert);
            c.check(u[0] == pert && l == 0.0, || "start".to_string());
            let v = c.rng.f(0.1, 2.0);
            c.close("point on the curve", f(v), v.powf(alpha), 1e-12);
            // from a point on the curve
            judge_nl(
                c,
                &|| {
                    let (s, _, _, _, a) = nl::Samples::singular_initial_state(alpha, pert);
                    (s, a)
                },
                1,
                Arc::new(move |l, u| vec![u[0].powf(alpha) - l]),
                Arc::new(move |_, u| (vec![vec![alpha * u[0].powf(alpha - 1.0)]], vec![-1.0])),
                &[v],
                v.powf(alpha),
                1.0,
                (0.0, 1.0),
                true,
                nl::Stop::MaxLambda(v.powf(alpha) + 1.0),
                &nl::DeltaLambda::auto(0.05),
            );
        }
        8 => {
            let delta = c.rng.f(0.0, 1.5);
            c.more(format!("delta={}", delta));
            // quadratic B-spline with the documented control points, by the definition
            let p = [[0.0, 0.0], [0.5, 1.0], [1.75, 1.0], [2.0 - delta, 0.0], [2.5, 0.5]];
            let kn = [0.0, 0.0, 0.0, 0.4, 0.6, 1.0, 1.0, 1.0];
            fn basis(kn: &[f64], i: usize, d: usize, t: f64) -> f64 {
                if d == 0 {
                    return if (kn[i] <= t && t < kn[i + 1]) || (t == 1.0 && kn[i + 1] == 1.0 && kn[i] < 1.0) { 1.0 } else { 0.0 };
                }
                let part = |a: f64, b: f64, v: f64| if b == 0.0 { 0.0 } else { a / b * v };
                part(t - kn[i], kn[i + d] - kn[i], basis(kn, i, d - 1, t)) + part(kn[i + d + 1] - t, kn[i + d + 1] - kn[i + 1], basis(kn, i + 1, d - 1, t))
            }
            let at = move |l: f64| {
                let t = l.clamp(0.0, 1.0);
                let mut r = vec![0.0; 2];
                for i in 0..5 {
                    let b = basis(&kn, i, 2, t);
                    for d in 0..2 {
                        r[d] += b * p[i][d];
                    }
                }
                r
            };
            let slope = move |l: f64| {
                let t = l.clamp(0.0, 1.0);
                let mut r = vec![0.0; 2];
                for i in 0..5 {
                    let part = |b: f64, v: f64| if b == 0.0 { 0.0 } else { 2.0 / b * v };
                    let b = part(kn[i + 2] - kn[i], basis(&kn, i, 1, t)) - part(kn[i + 3] - kn[i + 1], basis(&kn, i + 1, 1, t));
                    for d in 0..2 {
                        r[d] += b * p[i][d];
                    }
                }
                r
            };
            judge_nl(
                c,
                &|| {
                    let (s, _, _, a) = nl::Samples::bspline_problem_1(delta);
                    (s, a)
                },
                2,
                Arc::new(move |l, u| {
                    let q = at(l);
                    vec![u[0] - q[0], u[1] - q[1]]
                }),
                Arc::new(move |l, _| {
                    let q = slope(l);
                    (vec![vec![1.0, 0.0], vec![0.0, 1.0]], vec![-q[0], -q[1]])
                }),
                &[0.0, 0.0],
                0.0,
                1.0,
                (0.0, 1.0),
                true,
                nl::Stop::MaxLambda(0.95),
                &nl::DeltaLambda::auto(0.01),
            );
        }
        _ => {
            let r = c.rng.f(0.3, 5.0);
            c.more(format!("radius={}", r));
            let (_, u, l, _) = nl::Samples::circle_ul(r);
            c.close("start on the circle", u[0].hypot(l), r, 1e-14 * (1.0 + r));
            c.close("start on the diagonal", u[0], l, 1e-14 * (1.0 + r));
            judge_nl(
                c,
                &|| {
                    let (s, _, _, a) = nl::Samples::circle_ul(r);
                    (s, a)
                },
                1,
                Arc::new(move |l, u| vec![u[0] * u[0] + l * l - r * r]),
                Arc::new(|l, u| (vec![vec![2.0 * u[0]]], vec![2.0 * l])),
                u.as_data(),
                l,
                1.0,
                (0.0, r),
                true,
                nl::Stop::Steps(30),
                &nl::DeltaLambda::auto(0.05 * r),
            );
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("every sample matrix, tensor, function, field problem, differential system and nonlinear system, with random parameters, states and intervals; compared with the documented formulas written down again: entries and determinants, invariants, the equation and the flow by finite differences of the reference, the problem solved against the reference, right-hand sides disclosed by one explicit step, and courses of implicit runs and continuations with the documented derivatives");
    cx.run("matrices", 96, matrices);
    cx.run("tensors", 9, tensors);
    cx.run("higher", 9, higher);
    let n = cx.n(140, 1400);
    cx.run("functions", n, functions);
    let n = cx.n(320, 3200);
    cx.run("fields", n, fields);
    let n = cx.n(660, 6600);
    cx.run("ordinary", n, ordinary);
    let n = cx.n(100, 1000);
    cx.run("reaction", n, reaction);
    let n = cx.n(400, 8000);
    cx.run("nonlinear", n, nonlinear);
    cx.require("matrices", 96);
    cx.require("tensors", 9);
    cx.require("tensors of higher order", 9);
    cx.require("points of a function", 2000);
    cx.require("integrals", 100);
    cx.require("points of a problem", 1500);
    cx.require("problems solved", 300);
    cx.require("right-hand sides", 3000);
    cx.require("closed solutions", 300);
    cx.require("runs compared", 500);
    cx.require("runs on a grid", 40);
    cx.require("right-hand sides on a grid", 40);
    cx.require("derivatives of nonlinear systems", 1500);
    cx.require("courses compared", 250);
}
