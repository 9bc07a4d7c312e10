use harness::{Case, Ctx, EPS};
use russell_lab::base::*;
use russell_lab::*;
use std::cmp::Ordering;

/// Draws values with many ties; sometimes including extreme or non-finite numbers
fn keys(c: &mut Case, n: usize) -> Vec<f64> {
    let mode = c.rng.int(0, 4);
    (0..n)
        .map(|_| match mode {
            0 => c.rng.int(0, 3) as f64 - 1.0,
            1 => c.rng.f(-10.0, 10.0),
            2 => c.rng.mag(-300.0, 300.0),
            3 => *c.rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 5e-324, f64::MAX]),
            _ => *c.rng.pick(&[f64::NAN, 0.0, 1.0, 2.0, -3.0, f64::INFINITY]),
        })
        .collect()
}

/// Order of two numbers where NaN comes last
fn order(a: f64, b: f64) -> Ordering {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            if a < b {
                Ordering::Less
            } else if a > b {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        }
    }
}

fn check_perm(c: &mut Case, what: &str, idx: &[usize], cols: &[&Vec<f64>]) {
    let n = cols[0].len();
    let mut seen = vec![false; n];
    let mut perm = idx.len() == n;
    for &i in idx {
        if i >= n || seen[i] {
            perm = false;
            break;
        }
        seen[i] = true;
    }
    if !c.check(perm, || format!("{}: {:?} is not a permutation of 0..{}", what, idx, n)) {
        return;
    }
    for k in 1..n {
        let (a, b) = (idx[k - 1], idx[k]);
        let mut o = Ordering::Equal;
        for col in cols {
            o = order(col[a], col[b]);
            if o != Ordering::Equal {
                break;
            }
        }
        if !c.check(o != Ordering::Greater, || format!("{}: entries {} and {} are out of order: {:?}", what, a, b, idx)) {
            return;
        }
        if o == Ordering::Equal && !c.check(a < b, || format!("{}: ties {} and {} are swapped", what, a, b)) {
            return;
        }
    }
}

fn sorting(c: &mut Case) {
    let n = match c.rng.int(0, 9) {
        0 => c.rng.int(0, 2),
        1 => c.rng.int(50, 300),
        _ => c.rng.int(2, 30),
    };
    let (x, y, z) = (keys(c, n), keys(c, n), keys(c, n));
    c.input(format!("sort keys: z={:?} y={:?} x={:?}", z, y, x));
    let i1 = argsort_f64(&x);
    check_perm(c, "argsort_f64", &i1, &[&x]);
    let i2 = argsort2_f64(&y, &x);
    check_perm(c, "argsort2_f64", &i2, &[&y, &x]);
    let i3 = argsort3_f64(&z, &y, &x);
    check_perm(c, "argsort3_f64", &i3, &[&z, &y, &x]);
    c.count_n("sorted arrays", 3);
    // tuples
    let v: Vec<i64> = (0..4).map(|_| c.rng.int(0, 4) as i64).collect();
    let f: Vec<f64> = v.iter().map(|k| *k as f64 * 0.7 - 1.0).collect();
    c.input(format!("tuple {:?}", v));
    let mut t2 = (v[0], v[1]);
    let mut t3 = (v[0], v[1], v[2]);
    let mut t4 = (v[0], v[1], v[2], v[3]);
    sort2(&mut t2);
    sort3(&mut t3);
    sort4(&mut t4);
    let want = |k: usize| {
        let mut w = v[..k].to_vec();
        w.sort();
        w
    };
    c.check(vec![t2.0, t2.1] == want(2), || format!("sort2 gives {:?}", t2));
    c.check(vec![t3.0, t3.1, t3.2] == want(3), || format!("sort3 gives {:?}", t3));
    c.check(vec![t4.0, t4.1, t4.2, t4.3] == want(4), || format!("sort4 gives {:?}", t4));
    let mut g4 = (f[0], f[1], f[2], f[3]);
    sort4(&mut g4);
    let wf: Vec<f64> = want(4).iter().map(|k| *k as f64 * 0.7 - 1.0).collect();
    c.check(vec![g4.0, g4.1, g4.2, g4.3] == wf, || format!("sort4 of floats gives {:?}", g4));
    c.count_n("sorted tuples", 4);
}

fn spaced(c: &mut Case, what: &'static str, got: &[f64], a: f64, b: f64) {
    let n = got.len();
    let tol = 4.0 * EPS * (a.abs() + b.abs());
    for k in 0..n {
        let w = if n == 1 { 0.0 } else { k as f64 / (n - 1) as f64 };
        let want = (1.0 - w) * a + w * b;
        if !c.close(what, got[k], want, tol) {
            return;
        }
    }
    if n > 0 {
        c.check(got[0] == a, || format!("{}: starts at {} instead of {}", what, got[0], a));
    }
    for k in 1..n {
        let mono = if b >= a { got[k] >= got[k - 1] } else { got[k] <= got[k - 1] };
        c.check(mono, || format!("{}: point {} goes backwards", what, k));
    }
}

fn grids(c: &mut Case) {
    let scale = c.rng.mag(-8.0, 8.0);
    let (a, b) = match c.rng.int(0, 3) {
        0 => (0.0, scale),
        1 => (scale, scale * (1.0 + c.rng.f(1e-6, 2.0))),
        2 => (c.rng.int(0, 20) as f64 - 10.0, c.rng.int(0, 20) as f64 - 10.0),
        _ => (c.rng.f(-10.0, 10.0), c.rng.f(-10.0, 10.0)),
    };
    let n = if c.rng.chance(0.1) { c.rng.int(50, 1500) } else { c.rng.int(0, 40) };
    c.input(format!("linspace({:?}, {:?}, {})", a, b, n));
    if let Some(v) = c.ok("linspace", Vector::linspace(a, b, n)) {
        c.check(v.dim() == n, || format!("linspace has {} points", v.dim()));
        spaced(c, "linspace", v.as_data(), a, b);
        c.count_n("grid points", n);
    }
    let (p, q) = (c.rng.sym(), c.rng.sym());
    if let Some(v) = c.ok("mapped_linspace", Vector::mapped_linspace(a, b, n, |x| p * x + q)) {
        let ends = n == 0 || v[0] == p * a + q;
        c.check(v.dim() == n && ends, || "mapped_linspace starts elsewhere".to_string());
        for k in 0..n {
            let w = if n == 1 { 0.0 } else { k as f64 / (n - 1) as f64 };
            let x = (1.0 - w) * a + w * b;
            let tol = 8.0 * EPS * (a.abs() + b.abs() + q.abs());
            if !c.close("mapped_linspace", v[k], p * x + q, tol) {
                break;
            }
        }
    }
    // integers: the step is a whole number
    let (i0, step, m) = (c.rng.int(0, 50) as i64 - 25, c.rng.int(0, 9) as i64, c.rng.int(2, 12));
    let i1 = i0 + step * (m as i64 - 1);
    c.input(format!("linspace({}, {}, {})", i0, i1, m));
    if let Some(v) = c.ok("integer linspace", NumVector::<i64>::linspace(i0, i1, m)) {
        let good = (0..m).all(|k| v[k] == i0 + step * k as i64);
        c.check(good, || format!("integer linspace gives {:?}", v.as_data()));
    }
    // 2D and 3D
    let (nx, ny) = (c.rng.int(0, 8), c.rng.int(0, 8));
    let (y0, y1) = (c.rng.f(-5.0, 5.0), c.rng.f(-5.0, 5.0));
    c.input(format!("generate2d({:?},{:?},{:?},{:?},{},{})", a, b, y0, y1, nx, ny));
    let (x, y) = generate2d(a, b, y0, y1, nx, ny);
    c.check(x.dims() == (ny, nx) && y.dims() == (ny, nx), || format!("generate2d gives {:?} {:?}", x.dims(), y.dims()));
    let (x3, y3, z3) = generate3d(a, b, y0, y1, nx, ny, |x, y| p * x - q * y);
    let same = x3.dims() == x.dims() && y3.dims() == y.dims() && z3.dims() == x.dims();
    c.check(same, || format!("generate3d gives {:?}", z3.dims()));
    if c.failed() {
        return;
    }
    for i in 0..ny {
        let row: Vec<f64> = (0..nx).map(|j| x.get(i, j)).collect();
        spaced(c, "generate2d x", &row, a, b);
    }
    for j in 0..nx {
        let col: Vec<f64> = (0..ny).map(|i| y.get(i, j)).collect();
        spaced(c, "generate2d y", &col, y0, y1);
    }
    for i in 0..ny {
        for j in 0..nx {
            let good = x3.get(i, j) == x.get(i, j) && y3.get(i, j) == y.get(i, j);
            c.check(good, || format!("generate3d and generate2d differ at {},{}", i, j));
            let tol = 8.0 * EPS * (a.abs() + b.abs() + y0.abs() + y1.abs());
            c.close("generate3d z", z3.get(i, j), p * x.get(i, j) - q * y.get(i, j), tol);
        }
    }
    c.count_n("grid points", nx * ny);
    // cumulative sums
    let v: Vec<f64> = (0..n).map(|_| c.rng.f(-1.0, 1.0)).collect();
    let start = if c.rng.bool() { Some(c.rng.f(-3.0, 3.0)) } else { None };
    c.input(format!("cumulative sums of {:?} from {:?}", v, start));
    let s = Vector::from(&v).get_cumulative_sum(start);
    let mut acc = start.unwrap_or(0.0);
    let mut want: Vec<f64> = start.into_iter().collect();
    for k in 0..n {
        acc += v[k];
        want.push(acc);
    }
    if c.check(s.dim() == want.len(), || format!("{} cumulative sums of {} numbers", s.dim(), n)) {
        c.close_slice("cumulative sum", s.as_data(), &want, 8.0 * EPS * (4.0 + n as f64));
    }
    let d = Vector::from(&v).get_differences();
    if c.check(d.dim() == n.saturating_sub(1), || format!("{} differences of {} numbers", d.dim(), n)) {
        for k in 0..d.dim() {
            c.check(d[k] == v[k + 1] - v[k], || format!("difference {} is {}", k, d[k]));
        }
    }
}

fn extremes(c: &mut Case) {
    let n = if c.rng.chance(0.01) { c.rng.int(26, 600) } else { c.rng.int(0, 25) };
    let levels = c.rng.int(1, 6);
    let v: Vec<i32> = (0..n).map(|_| c.rng.int(0, levels) as i32 - 2).collect();
    c.input(format!("sequence {:?}", v));
    let f: Vec<f64> = v.iter().map(|k| *k as f64 * 1.3).collect();
    let first = |pick: &dyn Fn(i32, i32) -> bool| {
        let mut best = usize::MAX;
        for k in 0..n {
            if (0..n).all(|m| !pick(v[m], v[k])) {
                best = k;
                break;
            }
        }
        best
    };
    let imin = first(&|a, b| a < b);
    let imax = first(&|a, b| a > b);
    let r = find_min_max(&v);
    c.check(r == (imin, imax), || format!("find_min_max gives {:?}, expected {:?}", r, (imin, imax)));
    let r = find_min_max(&f);
    c.check(r == (imin, imax), || format!("find_min_max gives {:?}, expected {:?}", r, (imin, imax)));
    // runs of equal values: a run is a peak if both neighbouring runs are lower
    let mut runs: Vec<(i32, usize)> = Vec::new();
    for k in 0..n {
        match runs.last_mut() {
            Some(last) if last.0 == v[k] => last.1 = k,
            _ => runs.push((v[k], k)),
        }
    }
    let (mut valleys, mut peaks) = (Vec::new(), Vec::new());
    for w in runs.windows(3) {
        if w[1].0 < w[0].0 && w[1].0 < w[2].0 {
            valleys.push(w[1].1);
        }
        if w[1].0 > w[0].0 && w[1].0 > w[2].0 {
            peaks.push(w[1].1);
        }
    }
    c.count_n("turning points", valleys.len() + peaks.len());
    let want = (valleys, peaks, imin, imax);
    let r = find_valleys_and_peaks(&v);
    c.check(r == want, || format!("find_valleys_and_peaks gives {:?}, expected {:?}", r, want));
    let r = find_valleys_and_peaks(&f);
    c.check(r == want, || format!("find_valleys_and_peaks gives {:?}, expected {:?}", r, want));
    if n > 0 {
        let m = v.iter().map(|k| k.abs()).max().unwrap();
        let k = v.iter().position(|k| k.abs() == m).unwrap();
        let r = find_index_abs_max(&f);
        c.check(r == k, || format!("find_index_abs_max gives {}, expected {}", r, k));
    }
}

fn number(c: &mut Case) -> f64 {
    match c.rng.int(0, 9) {
        0 => 0.0,
        1 => c.rng.int(0, 2000) as f64 - 1000.0,
        2 => c.rng.mag(-307.0, 308.0),
        3 => *c.rng.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, -9.9999999999e99, 9.9999999999e-100, 9.996, -9.96e9]),
        4 => *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        _ => c.rng.mag(-12.0, 12.0),
    }
}

/// Checks a printed number with the given number of significant digits
fn same_number(c: &mut Case, what: &str, text: &str, x: f64, rel: f64, abs: f64) {
    let t = text.trim();
    let y: f64 = match t.parse() {
        Ok(v) => v,
        Err(_) => {
            c.fail(format!("{}: cannot read '{}' printed for {:?}", what, t, x));
            return;
        }
    };
    let good = if x.is_nan() {
        y.is_nan()
    } else if x.is_infinite() || x == 0.0 {
        y == x
    } else {
        // a rounding up of the largest number reads as infinity
        (y - x).abs() <= rel * x.abs() * (1.0 + 1e-14) + abs || (y.is_infinite() && x.abs() > 1.7e308)
    };
    c.check(good, || format!("{}: '{}' printed for {:?}", what, t, x));
    c.count("numbers read back");
}

/// Extracts the tokens in the lines of a bracketed vector or matrix
fn bracketed(text: &str) -> Vec<Vec<String>> {
    text.lines()
        .filter(|l| l.starts_with('│'))
        .map(|l| l.replace('│', " ").split_whitespace().map(|s| s.to_string()).collect())
        .collect()
}

fn formats(c: &mut Case) {
    let x = number(c);
    let (width, prec) = (c.rng.int(0, 30), c.rng.int(0, 17));
    c.input(format!("number {:?}, width {}, precision {}", x, width, prec));
    let half = 0.5 * 10f64.powi(-(prec as i32)) + 2.3e-16;
    let t = format_scientific(x, width, prec);
    same_number(c, "format_scientific", &t, x, half, 5e-324);
    c.check(t.chars().count() >= width, || format!("format_scientific: '{}' is narrower than {}", t, width));
    if x.is_finite() {
        let s = t.trim();
        let parts: Vec<&str> = s.split('E').collect();
        let shape = parts.len() == 2 && {
            let m = parts[0].trim_start_matches('-');
            let digits = m.len() - if prec > 0 { 1 } else { 0 };
            let e = parts[1];
            digits == prec + 1
                && (e.starts_with('+') || e.starts_with('-'))
                && e.len() >= 3
                && e[1..].chars().all(|k| k.is_ascii_digit())
                && (e.len() == 3 || !e[1..].starts_with('0'))
                && m.chars().next() != if x == 0.0 { None } else { Some('0') }
        };
        c.check(shape, || format!("format_scientific: '{}' is not in the documented notation", t));
        c.check((t.chars().count() > width) <= (s.chars().count() == t.chars().count()), || format!("'{}' is padded beyond {}", t, width));
    }
    let t = format_fortran(x);
    same_number(c, "format_fortran", &t, x, 0.5e-15 + 2.3e-16, 5e-324);
    // numbers in a buffer
    let mut buf = "=".to_string();
    write_formatted_number(&mut buf, x, width, None, None);
    same_number(c, "write_formatted_number", &buf[1..], x, 0.0, 0.0);
    c.check(buf.chars().count() >= width + 1, || format!("write_formatted_number: '{}' is too narrow", buf));
    buf.clear();
    write_formatted_number(&mut buf, x, width, Some(prec), None);
    let fixed = 0.5 * 10f64.powi(-(prec as i32)) * (1.0 + 1e-12);
    if x != 0.0 {
        same_number(c, "write_formatted_number (precision)", &buf, x, 2.3e-16, fixed);
    }
    buf.clear();
    write_formatted_number(&mut buf, x, width, Some(2), Some(prec));
    same_number(c, "write_formatted_number (scientific)", &buf, x, half, 5e-324);
    let k = c.rng.int(0, 100000) as i64 - 50000;
    buf.clear();
    write_formatted_number(&mut buf, k, width, None, None);
    c.check(buf.trim() == k.to_string() && buf.len() >= width, || format!("write_formatted_number: '{}' for {}", buf, k));

    // vectors and matrices
    let (m, n) = (c.rng.int(1, 5), c.rng.int(1, 5));
    let mut a = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, number(c));
        }
    }
    let v = Vector::initialized(n, |j| a.get(0, j));
    c.input(format!("precision {}, matrix {:?}", prec, a));
    let printed = format!("{}", v);
    let rows = bracketed(&printed);
    let lines: Vec<usize> = printed.lines().map(|l| l.chars().count()).collect();
    c.check(lines.iter().all(|l| *l == lines[0]), || format!("ragged vector:\n{}", printed));
    if c.check(rows.len() == n && rows.iter().all(|r| r.len() == 1), || format!("vector printed as\n{}", printed)) {
        for j in 0..n {
            same_number(c, "printed vector", &rows[j][0], v[j], 0.0, 0.0);
        }
    }
    let printed = vec_fmt_scientific(&v, prec);
    let rows = bracketed(&printed);
    if c.check(rows.len() == n && rows.iter().all(|r| r.len() == 1), || format!("vector printed as\n{}", printed)) {
        for j in 0..n {
            same_number(c, "vec_fmt_scientific", &rows[j][0], v[j], half, 5e-324);
        }
    }
    {
        let printed = format!("{}", a);
        let rows = bracketed(&printed);
        if c.check(rows.len() == m && rows.iter().all(|r| r.len() == n), || format!("matrix printed as\n{}", printed)) {
            for i in 0..m {
                for j in 0..n {
                    same_number(c, "printed matrix", &rows[i][j], a.get(i, j), 0.0, 0.0);
                }
            }
        }
    }
    // code of other languages
    let code = mat_to_numpy("name", &a);
    let body = code.strip_prefix("name = np.array([[").and_then(|s| s.strip_suffix("]],dtype=float)"));
    read_rows(c, "mat_to_numpy", &code, body, "],[", &a, 0.0);
    let code = mat_to_mathematica("name", &a);
    let body = code.strip_prefix("name = {{").and_then(|s| s.trim_end().strip_suffix("}};"));
    read_rows(c, "mat_to_mathematica", &code, body, "},{", &a, 0.0);
    let code = mat_to_static_array("NAME", &a);
    let decl = format!("const NAME: [[f64; {}]; {}] = [", n, m);
    let body = code.split(&decl).nth(1).map(|s| s.trim_end().trim_end_matches("];").trim().to_string());
    let body = body.map(|s| s.trim_start_matches('[').trim_end().trim_end_matches(',').trim_end_matches(']').replace("\n", ""));
    let body = body.map(|s| s.split("],").map(|r| r.trim().trim_start_matches('[').to_string()).collect::<Vec<_>>().join(";"));
    read_rows(c, "mat_to_static_array", &code, body.as_deref(), ";", &a, 0.5e-15 + 2.3e-16);
}

fn read_rows(c: &mut Case, what: &str, code: &str, body: Option<&str>, sep: &str, a: &Matrix, rel: f64) {
    let (m, n) = a.dims();
    let rows: Vec<Vec<&str>> = match body {
        Some(b) => b.split(sep).map(|r| r.split(',').collect()).collect(),
        None => {
            c.fail(format!("{} generates {}", what, code));
            return;
        }
    };
    if c.check(rows.len() == m && rows.iter().all(|r| r.len() == n), || format!("{} generates {}", what, code)) {
        for i in 0..m {
            for j in 0..n {
                same_number(c, what, rows[i][j], a.get(i, j), rel, 5e-324);
            }
        }
    }
}

/// Reads a duration such as 1h2m3.5s or 2.5ms; also returns the size of the last unit
fn duration(t: &str, exact: bool) -> Option<(f64, f64)> {
    let (mut total, mut unit, mut rest) = (0.0, 0.0, t);
    while !rest.is_empty() {
        let k = rest.find(|ch: char| !(ch.is_ascii_digit() || ch == '.'))?;
        let v: f64 = rest[..k].parse().ok()?;
        rest = &rest[k..];
        let (name, size) = [("ns", 1.0), ("µs", 1e3), ("ms", 1e6), ("s", 1e9), ("m", 6e10), ("h", 3.6e12)]
            .into_iter()
            .find(|(name, _)| rest.starts_with(name))?;
        if unit != 0.0 && size >= unit {
            return None; // units must decrease
        }
        // a larger unit is used where possible (rounding may complete it)
        let full = match name {
            "s" | "m" => 60.0,
            "h" => f64::INFINITY,
            _ => 1000.0,
        };
        if v > full || v == 0.0 && exact || (v == full && exact) {
            return None;
        }
        total += v * size;
        unit = size;
        rest = &rest[name.len()..];
    }
    Some((total, unit))
}

fn durations(c: &mut Case) {
    let e = c.rng.f(0.0, 16.0);
    let mut ns = 10f64.powf(e) as u128;
    if c.rng.chance(0.3) {
        let unit = *c.rng.pick(&[1_000u128, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000]);
        let k = c.rng.int(1, 200) as u128;
        ns = unit * k;
        match c.rng.int(0, 3) {
            0 => ns += 1,
            1 => ns -= 1,
            2 => ns += c.rng.int(1, 999_999_999) as u128,
            _ => (),
        }
    }
    let digits = c.rng.int(0, 9);
    c.input(format!("{} ns with {} digits", ns, digits));
    let t = format_nanoseconds(ns);
    match duration(&t, true) {
        // below an hour every nanosecond is representable; hours are whole numbers
        Some((v, _)) => {
            c.check((v - ns as f64).abs() <= 0.01 + 4.0 * EPS * v, || format!("format_nanoseconds gives {}", t));
        }
        None => c.fail(format!("format_nanoseconds gives {}", t)),
    }
    let t = format_nanoseconds_with_digits(ns, digits);
    match duration(&t, ns % 1_000_000_000 == 0) {
        Some((v, unit)) => {
            let half = if unit == 1.0 { 0.0 } else { 0.5 * unit * 10f64.powi(-(digits as i32)) };
            let half = if t.contains('.') || digits == 0 { half } else { 0.0 };
            c.check((v - ns as f64).abs() <= half + 0.01 + 4.0 * EPS * v, || format!("format_nanoseconds_with_digits gives {}", t));
        }
        None => c.fail(format!("format_nanoseconds_with_digits gives {}", t)),
    }
    c.count("durations");
}

fn tables(c: &mut Case) {
    let top = if c.rng.chance(0.01) { (300, 20) } else { (12, 6) };
    let (nrow, ncol) = (c.rng.int(0, top.0), c.rng.int(1, top.1));
    let labels: Vec<String> = (0..ncol).map(|j| format!("{}{}", *['x', 'y', 'α', '_'].get(j % 4).unwrap(), j)).collect();
    let mut data = vec![vec![0.0; ncol]; nrow];
    let mut text = String::new();
    let comment = |c: &mut Case, text: &mut String| {
        while c.rng.chance(0.2) {
            text.push_str(*c.rng.pick(&["\n", "   \n", "# a comment 1 2 3\n", "   # x y\n", "\t\n"]));
        }
    };
    comment(c, &mut text);
    for l in &labels {
        text.push_str(*c.rng.pick(&[" ", "\t", "    "]));
        text.push_str(l);
    }
    text.push_str(*c.rng.pick(&["\n", "  \n", " # tail\n", "\r\n"]));
    for i in 0..nrow {
        comment(c, &mut text);
        for j in 0..ncol {
            let x = number(c);
            data[i][j] = x;
            text.push_str(*c.rng.pick(&[" ", "\t", "    "]));
            let style = c.rng.int(0, 2);
            text.push_str(&match style {
                0 => format!("{}", x),
                1 => format!("{:e}", x),
                _ => format!("{:?}", x),
            });
        }
        let last = i + 1 == nrow;
        text.push_str(*c.rng.pick(&[if last { "" } else { "\n" }, " \n", " # tail 7\n", "\r\n"]));
    }
    c.input(format!("table {:?}", text));
    let path = c.scratch("table.txt");
    if std::fs::write(&path, &text).is_err() {
        return;
    }
    let names: Vec<&str> = labels.iter().map(|s| s.as_str()).collect();
    let p = path.to_str().unwrap().to_string();
    let free = c.rng.bool();
    let res = if free { read_table::<f64, _>(&p, None) } else { read_data(&p, &names) };
    if let Some(table) = c.ok("reading the table", res) {
        let keys = if nrow > 0 { ncol } else { 0 };
        c.check(table.len() == keys || nrow == 0, || format!("{} columns instead of {}", table.len(), ncol));
        for j in 0..ncol {
            if nrow == 0 {
                break;
            }
            match table.get(&labels[j]) {
                Some(col) => {
                    let good = col.len() == nrow && (0..nrow).all(|i| col[i] == data[i][j] || (col[i].is_nan() && data[i][j].is_nan()));
                    c.check(good, || format!("column {} reads {:?}", labels[j], col));
                }
                None => c.fail(format!("column {} is missing", labels[j])),
            }
        }
        c.count("tables");
    }
    if !free && ncol > 1 {
        let mut other = names.clone();
        other.swap(0, 1);
        let r = read_data(&p, &other);
        c.err("reading with labels in another order", r);
        let r = read_data(&p, &names[..ncol - 1]);
        c.err("reading with too few labels", r);
    }
    // matrix files
    let (m, n) = (c.rng.int(1, 6), c.rng.int(1, 6));
    let sparse = c.rng.bool();
    let mut a = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            let x = number(c);
            a.set(i, j, if !x.is_finite() || (sparse && c.rng.bool()) { 0.0 } else { x });
        }
    }
    let tol = *c.rng.pick(&[0.0, 1e-10, 0.5]);
    c.input(format!("vismatrix file with tolerance {} of {:?}", tol, a));
    let path = c.scratch("matrix.smat");
    let p = path.to_str().unwrap().to_string();
    if c.ok("mat_write_vismatrix", mat_write_vismatrix(&p, &a, tol)).is_none() {
        return;
    }
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let mut lines = text.lines();
    let head: Vec<usize> = lines.next().unwrap_or("").split_whitespace().filter_map(|t| t.parse().ok()).collect();
    let mut b = Matrix::new(m, n);
    let mut count = 0;
    for l in lines {
        let t: Vec<&str> = l.split_whitespace().collect();
        if let (3, Some(i), Some(j), Some(x)) = (
            t.len(),
            t.first().and_then(|s| s.parse::<usize>().ok()),
            t.get(1).and_then(|s| s.parse::<usize>().ok()),
            t.get(2).and_then(|s| s.parse::<f64>().ok()),
        ) {
            if i < m && j < n {
                b.set(i, j, x);
                count += 1;
                continue;
            }
        }
        c.fail(format!("vismatrix line '{}'", l));
        return;
    }
    c.check(head == vec![m, n, count], || format!("vismatrix header {:?} with {} entries", head, count));
    for i in 0..m {
        for j in 0..n {
            let want = if a.get(i, j).abs() > tol { a.get(i, j) } else { 0.0 };
            c.check(b.get(i, j) == want, || format!("vismatrix entry {},{} is {:?}", i, j, b.get(i, j)));
        }
    }
    c.count("matrix files");
}

fn watch(c: &mut Case) {
    // elapsed times never go backwards and only the last lap counts after a reset
    let t0 = std::time::Instant::now();
    let mut sw = Stopwatch::new();
    let a = sw.stop();
    let b = sw.stop();
    let d = sw.stop_and_reset();
    let whole = t0.elapsed().as_nanos();
    c.input(format!("stopwatch {} {} {}", a, b, d));
    c.check(a <= b && b <= d, || "the stopwatch goes backwards".to_string());
    let e = sw.stop();
    let later = t0.elapsed().as_nanos();
    c.check(d <= whole && e <= later, || "the stopwatch runs ahead".to_string());
    let t = format!("{}", sw);
    let good = duration(&t, false).map(|(v, _)| (v - e as f64).abs() <= 0.01 + 4.0 * EPS * v);
    c.check(good == Some(true), || format!("the stopwatch displays {} after {}", t, e));
}

fn one(c: &mut Case) {
    sorting(c);
    grids(c);
    extremes(c);
    for _ in 0..4 {
        durations(c);
    }
    formats(c);
    if c.index % 8 == 0 {
        tables(c);
        watch(c);
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a case sorts arrays with ties, infinities and NaN, generates grids, searches extremes, prints numbers, vectors, matrices and durations and reads them back, and reads tables written by the check");
    cx.require("sorted arrays", 100);
    cx.require("grid points", 1000);
    cx.require("turning points", 100);
    cx.require("numbers read back", 1000);
    cx.require("durations", 100);
    cx.require("tables", 20);
    cx.require("matrix files", 20);
    let n = cx.n(24000, 240000);
    cx.run("helpers", n, one);
}
