use crate::common::*;
use crate::lin::*;
use harness::{Case, Ctx, EPS};
use num_complex::Complex64;
use russell_lab::{NumVector, format_nanoseconds};
use russell_sparse::{NumCooMatrix, Ordering, Scaling, StatsLinSol, Sym, VerifyLinSys};
use std::path::PathBuf;
use std::process::Command;

pub trait Report: Lin {
    fn verify(a: &NumCooMatrix<Self>, x: &NumVector<Self>, b: &NumVector<Self>) -> Result<VerifyLinSys, &'static str>;
    fn info(st: &mut StatsLinSol, a: &NumCooMatrix<Self>);
    fn text(self) -> String;
}

impl Report for f64 {
    fn verify(a: &NumCooMatrix<f64>, x: &NumVector<f64>, b: &NumVector<f64>) -> Result<VerifyLinSys, &'static str> {
        VerifyLinSys::from(a, x, b)
    }
    fn info(st: &mut StatsLinSol, a: &NumCooMatrix<f64>) {
        st.set_matrix_info_from_coo(a);
    }
    fn text(self) -> String {
        format!("{:?}", self)
    }
}

impl Report for Complex64 {
    fn verify(a: &NumCooMatrix<Complex64>, x: &NumVector<Complex64>, b: &NumVector<Complex64>) -> Result<VerifyLinSys, &'static str> {
        VerifyLinSys::from_complex(a, x, b)
    }
    fn info(st: &mut StatsLinSol, a: &NumCooMatrix<Complex64>) {
        st.set_matrix_info_from_coo(a);
    }
    fn text(self) -> String {
        format!("{:?} {:?}", self.re, self.im)
    }
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * EPS * b.abs()
}

/// verification of right and wrong solutions with all kinds of storage
fn verification<T: Report>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (m, n) = gen_dims(&mut c.rng, sym, 12);
    let count = c.rng.int(1, 40);
    let e = gen_entries::<T>(&mut c.rng, m, n, sym, count, true);
    let coo = build(m, n, sym, &e, if count % 2 == 0 { 3 } else { 0 });
    let d = Dense::from_entries(m, n, sym, &e);
    let x: Vec<T> = (0..n).map(|_| T::gen_exact(&mut c.rng)).collect();
    let (ax, _) = d.mul(&x, false);
    // right solutions, one wrong row, all rows wrong
    let mode = c.rng.int(0, 2);
    let mut b = ax.clone();
    if mode == 1 {
        let i = c.rng.int(0, m - 1);
        b[i] = b[i] + T::gen_exact(&mut c.rng);
    } else if mode == 2 {
        b = (0..m).map(|_| T::gen_exact(&mut c.rng)).collect();
    }
    c.input(format!("{}x{} {:?} {:?} x={:?} b={:?}", m, n, sym, e, x, b));
    // numbers are multiples of 1/8, the products are exact
    let max_a = e.iter().fold(0.0, |s, v| f64::max(s, v.2.mag()));
    let max_ax = ax.iter().fold(0.0, |s, v| f64::max(s, v.mag()));
    let max_d = (0..m).fold(0.0, |s, i| f64::max(s, (ax[i] - b[i]).mag()));
    let (vx, vb) = (vector_from(&x), vector_from(&b));
    if let Some(v) = c.ok("verify", T::verify(&coo, &vx, &vb)) {
        c.check(near(v.max_abs_a, max_a), || format!("largest coefficient {} instead of {}", v.max_abs_a, max_a));
        c.check(near(v.max_abs_ax, max_ax), || format!("largest product {} instead of {}", v.max_abs_ax, max_ax));
        c.check(near(v.max_abs_diff, max_d), || format!("largest difference {} instead of {}", v.max_abs_diff, max_d));
        let want = max_d / (max_a + 1.0);
        c.check(near(v.relative_error, want), || format!("relative error {} instead of {}", v.relative_error, want));
        let mut other = v.clone();
        other.relative_error *= c.rng.f(0.1, 3.0);
        other.max_abs_a += 1.0;
        let worst = v.max_relative_error(&other);
        let w = if other.relative_error > v.relative_error { &other } else { &v };
        let tie = other.relative_error == v.relative_error;
        c.check(tie || (worst.relative_error == w.relative_error && worst.max_abs_a == w.max_abs_a), || "the larger of two errors is lost".to_string());
    }
    c.err("verify with a longer x", T::verify(&coo, &NumVector::<T>::new(n + 1), &vb));
    c.err("verify with a longer right-hand side", T::verify(&coo, &vx, &NumVector::<T>::new(m + 1)));
    c.count("systems verified");
}

fn compare(c: &mut Case, a: &StatsLinSol, b: &StatsLinSol) {
    c.check(
        a.main.solver == b.main.solver && a.main.platform == b.main.platform && a.main.blas_lib == b.main.blas_lib && a.main.out_of_memory == b.main.out_of_memory,
        || "main data changed by writing and reading".to_string(),
    );
    c.check(
        a.matrix.name == b.matrix.name
            && a.matrix.nrow == b.matrix.nrow
            && a.matrix.ncol == b.matrix.ncol
            && a.matrix.nnz == b.matrix.nnz
            && a.matrix.nnz_actual == b.matrix.nnz_actual
            && a.matrix.complex == b.matrix.complex
            && a.matrix.symmetric == b.matrix.symmetric,
        || format!("matrix data changed by writing and reading: {:?} {:?}", a.matrix, b.matrix),
    );
    c.check(
        a.requests.ordering == b.requests.ordering
            && a.requests.scaling == b.requests.scaling
            && a.requests.positive_definite == b.requests.positive_definite
            && a.requests.hybrid_memory_factor == b.requests.hybrid_memory_factor
            && a.requests.mumps_num_threads == b.requests.mumps_num_threads,
        || "requests changed by writing and reading".to_string(),
    );
    c.check(
        a.output.effective_ordering == b.output.effective_ordering
            && a.output.effective_scaling == b.output.effective_scaling
            && a.output.umfpack_strategy == b.output.umfpack_strategy
            && near(a.output.umfpack_rcond_estimate, b.output.umfpack_rcond_estimate),
        || "output data changed by writing and reading".to_string(),
    );
    c.check(
        near(a.determinant.mantissa_real, b.determinant.mantissa_real)
            && near(a.determinant.mantissa_imag, b.determinant.mantissa_imag)
            && near(a.determinant.exponent, b.determinant.exponent)
            && near(a.determinant.base, b.determinant.base),
        || format!("determinant changed by writing and reading: {:?} {:?}", a.determinant, b.determinant),
    );
    c.check(
        near(a.verify.max_abs_a, b.verify.max_abs_a)
            && near(a.verify.max_abs_ax, b.verify.max_abs_ax)
            && near(a.verify.max_abs_diff, b.verify.max_abs_diff)
            && near(a.verify.relative_error, b.verify.relative_error),
        || "verification changed by writing and reading".to_string(),
    );
    let (t, u) = (&a.time_nanoseconds, &b.time_nanoseconds);
    c.check(
        t.read_matrix == u.read_matrix
            && t.verify == u.verify
            && t.initialize_array == u.initialize_array
            && t.factorize_array == u.factorize_array
            && t.solve_array == u.solve_array
            && t.total_ifs_array == u.total_ifs_array
            && t.initialize == u.initialize
            && t.factorize == u.factorize
            && t.solve == u.solve
            && t.total_ifs == u.total_ifs,
        || "times changed by writing and reading".to_string(),
    );
}

/// Derived times: averages and sums of the recorded ones
fn times(c: &mut Case, st: &StatsLinSol) {
    let t = &st.time_nanoseconds;
    let n = t.initialize_array.len();
    if !c.check(t.factorize_array.len() == n && t.solve_array.len() == n && t.total_ifs_array.len() == n, || "lists of times with different lengths".to_string()) {
        return;
    }
    let sums: Vec<u128> = (0..n).map(|i| t.initialize_array[i] + t.factorize_array[i] + t.solve_array[i]).collect();
    c.check(t.total_ifs_array == sums, || format!("totals {:?} instead of {:?}", t.total_ifs_array, sums));
    let h = &st.time_human;
    if n > 0 {
        for (what, list, mean, text) in [
            ("initialize", &t.initialize_array, t.initialize, &h.initialize_array),
            ("factorize", &t.factorize_array, t.factorize, &h.factorize_array),
            ("solve", &t.solve_array, t.solve, &h.solve_array),
            ("total", &sums, t.total_ifs, &h.total_ifs_array),
        ] {
            let want = list.iter().sum::<u128>() / n as u128;
            c.check(mean.abs_diff(want) <= 1 + want / 1_000_000_000, || format!("average time {} {} instead of {}", what, mean, want));
            let texts: Vec<String> = list.iter().map(|v| format_nanoseconds(*v)).collect();
            c.check(text == &texts, || format!("texts {:?} for the times {:?}", text, list));
        }
    }
    for (what, v, s) in [
        ("read_matrix", t.read_matrix, &h.read_matrix),
        ("initialize", t.initialize, &h.initialize),
        ("factorize", t.factorize, &h.factorize),
        ("solve", t.solve, &h.solve),
        ("total", t.total_ifs, &h.total_ifs),
        ("verify", t.verify, &h.verify),
    ] {
        c.check(s == &format_nanoseconds(v), || format!("text {} for the {} time {}", s, what, v));
    }
}

fn matrix_info(c: &mut Case, st: &StatsLinSol, m: usize, n: usize, nnz: usize, actual: usize, complex: bool, sym: Sym) {
    let i = &st.matrix;
    c.check(i.nrow == m && i.ncol == n && i.nnz == nnz && i.nnz_actual == actual && i.complex == complex && i.symmetric == format!("{:?}", sym), || {
        format!("the report says {:?}; the matrix is {}x{} with {} entries, {} counting mirrored ones, {:?}", i, m, n, nnz, actual, sym)
    });
}

/// a report filled by several solvers, written and read back
fn report<T: Report>(c: &mut Case) {
    let n = c.rng.int(1, 12);
    let sym = if c.rng.bool() { Sym::No } else { Sym::YesFull };
    let pos = gen_pattern(&mut c.rng, n, sym);
    let e = gen_values::<T>(&mut c.rng, n, sym, &pos);
    let d = Dense::from_entries(n, n, Sym::No, &e);
    let (_, _, minrel) = dense_det(&d);
    let coo = build(n, n, sym, &e, 0);
    let name = *c.rng.pick(&["a", "some matrix", "x.y", "ü", "bfw62a"]);
    let params = gen_params(&mut c.rng);
    let runs = c.rng.int(0, 4);
    c.input(format!("{:?} {:?} name={} runs={} {:?}", sym, e, name, runs, params));
    let mut st = StatsLinSol::new();
    let ext = if c.rng.bool() { ".mtx" } else { ".stats" };
    st.set_matrix_name_from_path(&format!("/some/where/{}{}", name, ext));
    c.check(st.matrix.name == name, || format!("name {} instead of {}", st.matrix.name, name));
    T::info(&mut st, &coo);
    matrix_info(c, &st, n, n, e.len(), e.len(), T::COMPLEX, sym);
    // another storage
    let tri = if c.rng.bool() { Sym::YesLower } else { Sym::YesUpper };
    let cnt = c.rng.int(1, 30);
    let et = gen_entries::<T>(&mut c.rng, n, n, tri, cnt, true);
    let mut other = StatsLinSol::new();
    T::info(&mut other, &build(n, n, tri, &et, 2));
    matrix_info(c, &other, n, n, cnt, et.iter().map(|v| if v.0 == v.1 { 1 } else { 2 }).sum(), T::COMPLEX, tri);
    st.requests.ordering = format!("{:?}", params.ordering);
    st.requests.scaling = format!("{:?}", params.scaling);
    st.requests.hybrid_memory_factor = if c.rng.bool() { Some(0.25) } else { None };
    if minrel > 1e-6 {
        for k in 0..runs {
            let mut s = T::create().unwrap();
            let b = gen_vec::<T>(&mut c.rng, n);
            let vb = vector_from(&b);
            let mut x = NumVector::<T>::new(n);
            if c.ok("factorize", T::factorize(&mut s, &coo, Some(params))).is_none() || c.ok("solve", T::solve(&mut s, &mut x, &vb)).is_none() {
                return;
            }
            T::add_stats(&s, &mut st);
            c.check(st.time_nanoseconds.solve_array.len() == k + 1, || "a run is missing in the report".to_string());
            let want = match params.scaling {
                Scaling::Sum => "Sum",
                Scaling::Max => "Max",
                Scaling::No => "No",
                _ => "",
            };
            let eff = st.output.effective_scaling.clone();
            c.check(want == "" || eff == want, || format!("scaling {:?} requested, {} reported", params.scaling, eff));
            if let Some(v) = c.ok("verify", T::verify(&coo, &x, &vb)) {
                let size = x.as_data().iter().fold(0.0, |s, v| f64::max(s, v.mag()));
                c.check(v.max_abs_diff <= 1e-10 * (1.0 + n as f64 * v.max_abs_a * size), || format!("residual {} of a computed solution", v.max_abs_diff));
                st.verify = v;
            }
            c.count("runs reported");
        }
    }
    if c.rng.bool() {
        // times of long runs
        let k = c.rng.int(0, 5);
        let big = *c.rng.pick(&[10usize, 1_000_000, 1_000_000_000_000]);
        let mut list = |rng: &mut harness::Rng| (0..k).map(|_| rng.int(0, big) as u128).collect::<Vec<_>>();
        st.time_nanoseconds.initialize_array = list(&mut c.rng);
        st.time_nanoseconds.factorize_array = list(&mut c.rng);
        st.time_nanoseconds.solve_array = list(&mut c.rng);
        st.time_nanoseconds.read_matrix = c.rng.int(0, big) as u128;
        st.time_nanoseconds.verify = c.rng.int(0, big) as u128;
        st.time_nanoseconds.initialize = 0;
        st.time_nanoseconds.factorize = 0;
        st.time_nanoseconds.solve = 0;
        st.time_nanoseconds.total_ifs = 0;
        st.time_nanoseconds.total_ifs_array.clear();
    }
    let dir = c.scratch(&format!("report{}", c.index));
    let path = dir.join("deep").join("r.json");
    // written to a directory that does not exist yet, or over another report
    if c.rng.chance(0.3) {
        let mut long = StatsLinSol::new();
        long.matrix.name = "x".repeat(3000);
        c.ok("write_json", long.write_json(path.to_str().unwrap()));
    }
    if c.ok("write_json", st.write_json(path.to_str().unwrap())).is_some() {
        times(c, &st);
        if let Some(r) = c.ok("read_json", StatsLinSol::read_json(path.to_str().unwrap())) {
            compare(c, &st, &r);
            times(c, &r);
        }
        let text = st.get_json();
        let file = std::fs::read_to_string(&path).unwrap_or_default();
        c.check(text == file, || "the text and the file differ".to_string());
        // a truncated file is refused
        let cut = c.rng.int(0, file.len().saturating_sub(2));
        let cut = (0..=cut).rev().find(|k| file.is_char_boundary(*k)).unwrap_or(0);
        let _ = std::fs::write(&path, &file[..cut]);
        c.err("read_json of a truncated file", StatsLinSol::read_json(path.to_str().unwrap()));
        c.count("reports written and read");
    }
    c.err("read_json of a directory", StatsLinSol::read_json(dir.to_str().unwrap()));
    c.err("read_json of nothing", StatsLinSol::read_json(dir.join("none.json").to_str().unwrap()));
    c.err("write_json to a directory", st.write_json(dir.to_str().unwrap()));
    let _ = std::fs::remove_dir_all(&dir);
}

/// Kinds of input files
#[derive(Clone, Copy, PartialEq, Debug)]
enum File {
    Good,
    Symmetric,
    Singular,
    Rectangular,
    Truncated,
    Header,
    Missing,
}

/// the command-line program, run as a process of its own
fn program<T: Report>(c: &mut Case) {
    let bin = match std::env::var("VERIF_CLI") {
        Ok(b) => b,
        Err(_) => return,
    };
    let kind = match c.rng.int(0, 11) {
        0..=4 => File::Good,
        5..=6 => File::Symmetric,
        7 => File::Singular,
        8 => File::Rectangular,
        9 => File::Truncated,
        10 => File::Header,
        _ => File::Missing,
    };
    let n = c.rng.int(if kind == File::Symmetric || kind == File::Singular { 2 } else { 1 }, 15);
    let sym = if kind == File::Symmetric { Sym::YesFull } else { Sym::No };
    // positions without repetition
    let pos = gen_pattern(&mut c.rng, n, sym);
    let e = gen_values::<T>(&mut c.rng, n, sym, &pos);
    let mut seen = std::collections::BTreeMap::new();
    for (i, j, v) in &e {
        seen.entry((*i, *j)).or_insert(*v);
    }
    if kind == File::Symmetric {
        let keys: Vec<(usize, usize)> = seen.keys().cloned().collect();
        for (i, j) in keys {
            if i > j {
                let v = seen[&(i, j)];
                seen.insert((j, i), v);
            }
        }
    }
    if kind == File::Singular {
        // an empty row with a zero on the diagonal
        let r = c.rng.int(0, n - 1);
        let keys: Vec<(usize, usize)> = seen.keys().cloned().collect();
        for k in keys {
            if k.0 == r {
                seen.insert(k, T::zero());
            }
        }
    }
    let full: Vec<(usize, usize, T)> = seen.iter().map(|(k, v)| (k.0, k.1, *v)).collect();
    let d = Dense::from_entries(n, n, Sym::No, &full);
    let (phase, lg, minrel) = dense_det(&d);
    if kind != File::Singular && !(minrel > 1e-6) {
        c.note("too close to singular".to_string());
        return;
    }
    let stored: Vec<(usize, usize, T)> = full.iter().filter(|v| kind != File::Symmetric || v.0 >= v.1).cloned().collect();
    let dir = c.scratch(&format!("cli{}", c.index));
    let _ = std::fs::create_dir_all(&dir);
    let name = *c.rng.pick(&["matrix", "m.one", "a b"]);
    let path: PathBuf = dir.join(format!("{}.mtx", name));
    let mut text = format!(
        "%%MatrixMarket matrix coordinate {} {}\n%\n{} {} {}\n",
        if T::COMPLEX { "complex" } else { "real" },
        if kind == File::Symmetric { "symmetric" } else { "general" },
        n,
        if kind == File::Rectangular { n + 1 } else { n },
        stored.len()
    );
    if kind == File::Header {
        text = text.replacen("coordinate", *c.rng.pick(&["array", "", "kooordinate"]), 1);
    }
    for (k, (i, j, v)) in stored.iter().enumerate() {
        if kind == File::Truncated && k + 1 == stored.len() {
            break;
        }
        text.push_str(&format!("{} {} {}\n", i + 1, j + 1, v.text()));
    }
    if kind != File::Missing {
        let _ = std::fs::write(&path, &text);
    }
    // options
    let orderings = ["Amd", "Auto", "Best", "Cholmod", "Metis", "No"];
    let scalings = ["Auto", "Max", "No", "Sum"];
    let ordering = *c.rng.pick(&orderings);
    let scaling = *c.rng.pick(&scalings);
    let det = c.rng.bool();
    let hide = c.rng.chance(0.1);
    let verbose = c.rng.chance(0.1);
    let runs = c.rng.int(1, 4);
    let mumps = c.rng.chance(0.03);
    let mut args: Vec<String> = vec![path.to_str().unwrap().to_string()];
    for (o, v) in [("-o", ordering), ("-s", scaling)] {
        args.push(o.to_string());
        args.push(v.to_string());
    }
    args.push(if c.rng.bool() { "-r" } else { "--nrun" }.to_string());
    args.push(runs.to_string());
    for (on, o) in [(det, "-d"), (hide, "--hide-json"), (verbose, "-v"), (c.rng.chance(0.2), "-u"), (c.rng.chance(0.1), "-x")] {
        if on {
            args.push(o.to_string());
        }
    }
    if mumps {
        args.push("-g".to_string());
        args.push("cudss".to_string());
    }
    c.input(format!("{:?} {:?} {:?}", kind, args[1..].join(" "), text));
    let out = match Command::new(&bin).args(&args).current_dir(&dir).output() {
        Ok(o) => o,
        Err(e) => {
            // says nothing about the program
            c.count("not started");
            c.more(format!("{}", e));
            let _ = std::fs::remove_dir_all(&dir);
            return;
        }
    };
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let good = (kind == File::Good || kind == File::Symmetric) && !mumps;
    let code = out.status.code();
    if !good {
        c.check(code.is_some() && code != Some(0) && code != Some(101), || format!("status {:?} for a file that cannot be solved; {}", out.status, String::from_utf8_lossy(&out.stderr)));
        c.check(!stdout.contains("relative_error"), || "a report for a system that cannot be solved".to_string());
        c.count("files refused by the program");
    } else if c.check(code == Some(0), || format!("status {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr))) {
        if hide {
            c.check(!stdout.contains("relative_error"), || "a report although it must be hidden".to_string());
        } else {
            // the messages of the native library may come before or after the report
            let from = stdout.find("{\n").unwrap_or(0);
            let to = stdout[from..].find("\n}").map_or(stdout.len(), |k| from + k + 2);
            let file = dir.join("out.json");
            let _ = std::fs::write(&file, &stdout[from..to]);
            if let Some(st) = c.ok("the printed report", StatsLinSol::read_json(file.to_str().unwrap())) {
                c.check(st.matrix.name == name, || format!("the report names the matrix {}", st.matrix.name));
                matrix_info(c, &st, n, n, if kind == File::Symmetric { 2 * stored.len() - n } else { stored.len() }, if kind == File::Symmetric { 2 * stored.len() - n } else { stored.len() }, T::COMPLEX, sym);
                c.check(st.requests.ordering == format!("{:?}", Ordering::from(ordering)) && st.requests.ordering == ordering, || format!("ordering {} requested, reported {}", ordering, st.requests.ordering));
                c.check(st.requests.scaling == format!("{:?}", Scaling::from(scaling)) && st.requests.scaling == scaling, || format!("scaling {} requested, reported {}", scaling, st.requests.scaling));
                c.check(scaling == "Auto" || st.output.effective_scaling == scaling, || format!("scaling {} requested, {} used", scaling, st.output.effective_scaling));
                c.check(st.time_nanoseconds.solve_array.len() == runs, || format!("{} runs reported instead of {}", st.time_nanoseconds.solve_array.len(), runs));
                times(c, &st);
                // the right-hand side holds ones
                let one = if T::COMPLEX { 2f64.sqrt() } else { 1.0 };
                let max_a = full.iter().fold(0.0, |s, v| f64::max(s, v.2.mag()));
                c.check((st.verify.max_abs_ax - one).abs() <= 1e-6, || format!("the product of matrix and solution is as large as {}", st.verify.max_abs_ax));
                c.check(near(st.verify.max_abs_a, max_a), || format!("largest coefficient {} instead of {}", st.verify.max_abs_a, max_a));
                c.check(st.verify.relative_error <= 1e-7 && st.verify.max_abs_diff <= 1e-6, || format!("residual {} of the solution", st.verify.max_abs_diff));
                c.check(near(st.verify.relative_error, st.verify.max_abs_diff / (st.verify.max_abs_a + 1.0)), || "relative error against its definition".to_string());
                if det {
                    let m = Complex64::new(st.determinant.mantissa_real, st.determinant.mantissa_imag);
                    let got = m.norm().log10() + st.determinant.exponent * st.determinant.base.log10();
                    c.check((got - lg).abs() <= 1e-8 * (1.0 + n as f64 + lg.abs()) && (m / m.norm() - phase).norm() <= 1e-6 * (n as f64 + 1.0), || {
                        format!("determinant {:?} instead of 10^{} times {}", st.determinant, lg, phase)
                    });
                    c.count("determinants printed by the program");
                }
                c.count("reports printed by the program");
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn run(cx: &mut Ctx) {
    cx.rule("exact systems of every storage kind with right and wrong solutions verified; reports collected from solvers and from invented times, written, read and truncated; the command-line solver run on generated MatrixMarket files, good and bad, with random options, its report compared with a dense elimination");
    if std::env::var("VERIF_CLI").is_err() {
        cx.give_up("the command-line program is missing");
    }
    let n = cx.n(6000, 60000);
    cx.run("verification-real", n, verification::<f64>);
    cx.run("verification-complex", n, verification::<Complex64>);
    let n = cx.n(3000, 30000);
    cx.run("report-real", n, report::<f64>);
    cx.run("report-complex", n, report::<Complex64>);
    let n = cx.n(500, 5000);
    cx.run("program-real", n, program::<f64>);
    cx.run("program-complex", n, program::<Complex64>);
    cx.require("systems verified", 10000);
    cx.require("reports written and read", 3000);
    cx.require("runs reported", 2000);
    cx.require("reports printed by the program", 200);
    cx.require("determinants printed by the program", 100);
    cx.require("files refused by the program", 200);
}
