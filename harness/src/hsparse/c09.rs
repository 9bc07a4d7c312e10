use harness::{Case, Ctx, Rng, no_panic};
use num_complex::Complex64;
use russell_lab::{NumMatrix, read_data, read_table};
use russell_sparse::{MMsym, read_matrix_market};
use std::collections::HashMap;

// ---------------------------------------------------------------- generators

fn num(rng: &mut Rng) -> String {
    match rng.int(0, 4) {
        0 => format!("{}", rng.int(0, 9)),
        1 => format!("{}", rng.f(-100.0, 100.0)),
        2 => format!("{:e}", rng.f(-1.0, 1.0) * f64::powi(10.0, rng.int(0, 30) as i32 - 15)),
        3 => format!("-{:.3}", rng.f(0.0, 10.0)),
        _ => format!("{:.2}", rng.f(0.0, 10.0)),
    }
}

fn mm_valid(rng: &mut Rng) -> String {
    let complex = rng.bool();
    let symmetric = rng.bool();
    let m = rng.int(1, 6);
    let n = if symmetric { m } else { rng.int(1, 6) };
    let nnz = rng.int(1, 8);
    let mut s = format!(
        "%%MatrixMarket matrix coordinate {} {}\n",
        if complex { "complex" } else { "real" },
        if symmetric { "symmetric" } else if complex && rng.chance(0.2) { "Hermitian" } else { "general" }
    );
    for _ in 0..rng.int(0, 2) {
        s += "% comment\n";
    }
    s += &format!("{} {} {}\n", m, n, nnz);
    for _ in 0..nnz {
        let (mut i, mut j) = (rng.int(1, m), rng.int(1, n));
        if symmetric && j > i {
            std::mem::swap(&mut i, &mut j);
        }
        s += &format!("{} {} {}", i, j, num(rng));
        if complex {
            s += &format!(" {}", num(rng));
        }
        s += "\n";
        if rng.chance(0.1) {
            s += "% note\n\n";
        }
    }
    s
}

fn table_valid(rng: &mut Rng) -> String {
    let ncol = rng.int(1, 5);
    let nrow = rng.int(0, 6);
    let mut s = String::new();
    if rng.bool() {
        s += "# a table\n\n";
    }
    for j in 0..ncol {
        s += &format!(" {}", ["x", "y", "sr", "Ea", "t_0"][j]);
    }
    s += if rng.bool() { " # header\n" } else { "\n" };
    for _ in 0..nrow {
        for _ in 0..ncol {
            s += &format!(" {}", num(rng));
        }
        s += if rng.chance(0.2) { "  # end\n" } else { "\n" };
        if rng.chance(0.1) {
            s += "\n# comment\n";
        }
    }
    s
}

fn matrix_valid(rng: &mut Rng) -> String {
    let ncol = rng.int(1, 5);
    let nrow = rng.int(0, 6);
    let mut s = String::new();
    for _ in 0..nrow {
        for _ in 0..ncol {
            s += &format!(" {}", num(rng));
        }
        s += if rng.chance(0.2) { "  # end\n" } else { "\n" };
        if rng.chance(0.1) {
            s += "\n# comment\n";
        }
    }
    s
}

const NASTY: [&str; 34] = [
    "-1", "0", "-2147483648", "2147483647", "2147483648", "-2147483649", "99999999999999999999", "1e3", "nan", "-nan", "inf", "-inf", "NaN",
    "abc", "1.", ".5", ".", "-", "+", "e", "1e", "1e+", "1e999", "1e-999", "0x10", "%", "#", "\u{e9}\u{4e2d}", "1,5", "1_000", "1e99999999999999999999", "i", "1+2i", "\u{0}",
];

/// Returns the corrupted bytes and the kind of corruption
fn mutate(rng: &mut Rng, text: &str) -> (Vec<u8>, &'static str) {
    let bytes = text.as_bytes().to_vec();
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    match rng.int(0, 9) {
        0 => {
            let k = rng.int(0, bytes.len());
            (bytes[..k].to_vec(), "truncate")
        }
        1 => {
            if lines.is_empty() {
                return (bytes, "none");
            }
            let k = rng.int(0, lines.len());
            (lines[..k].concat().into_bytes(), "truncate lines")
        }
        2 | 3 => {
            let mut toks: Vec<String> = Vec::new();
            // keep the separators
            let mut cur = String::new();
            for ch in text.chars() {
                if ch.is_whitespace() {
                    if !cur.is_empty() {
                        toks.push(std::mem::take(&mut cur));
                    }
                    toks.push(ch.to_string());
                } else {
                    cur.push(ch);
                }
            }
            if !cur.is_empty() {
                toks.push(cur);
            }
            for _ in 0..rng.int(1, 2) {
                if toks.is_empty() {
                    break;
                }
                let k = rng.int(0, toks.len() - 1);
                toks[k] = rng.pick(&NASTY).to_string();
            }
            (toks.concat().into_bytes(), "token")
        }
        4 => {
            let mut b = bytes;
            for _ in 0..rng.int(1, 4) {
                if b.is_empty() {
                    break;
                }
                let k = rng.int(0, b.len() - 1);
                b[k] = rng.int(0, 255) as u8;
            }
            (b, "bytes")
        }
        5 => {
            let mut l = lines.clone();
            if !l.is_empty() {
                let k = rng.int(0, l.len() - 1);
                l.remove(k);
            }
            (l.concat().into_bytes(), "delete line")
        }
        6 => {
            let mut l = lines.clone();
            if !l.is_empty() {
                let k = rng.int(0, l.len() - 1);
                let j = rng.int(0, l.len());
                let x = l[k];
                l.insert(j, x);
            }
            (l.concat().into_bytes(), "duplicate line")
        }
        7 => {
            let mut l = lines.clone();
            rng.shuffle(&mut l);
            (l.concat().into_bytes(), "shuffle lines")
        }
        8 => {
            let k = rng.int(0, 200);
            let b = (0..k).map(|_| if rng.bool() { rng.int(0, 255) as u8 } else { *rng.pick(b"0123456789 \n.e-#%") }).collect();
            (b, "random bytes")
        }
        _ => {
            let mut b = bytes;
            let k = rng.int(0, b.len());
            let ins: Vec<u8> = rng.pick(&[&b"\xff\xfe"[..], &b"\r\n"[..], &b"\t"[..], &b"\0"[..], &b"%"[..], &b"#"[..], &b"\n\n"[..], &b"-"[..], &b" "[..]]).to_vec();
            for (q, x) in ins.into_iter().enumerate() {
                b.insert(k + q, x);
            }
            (b, "insert")
        }
    }
}

/// Changes the text without changing its meaning
fn harmless(rng: &mut Rng, text: &str, comment: &str) -> String {
    let mut s = String::new();
    for (k, l) in text.lines().enumerate() {
        if k > 0 && rng.chance(0.3) {
            s += comment;
            s += " 1 2 3 note\n";
        }
        if k > 0 && rng.chance(0.2) {
            s += *rng.pick(&["\n", "  \n", "\t\n", "\r\n"]);
        }
        if rng.chance(0.3) {
            s += "  ";
        }
        if rng.chance(0.3) {
            s += &l.replace(' ', "   ");
        } else if rng.chance(0.3) && !l.starts_with('%') {
            s += &l.replace(' ', " \t");
        } else {
            s += l;
        }
        if rng.chance(0.2) {
            s += "  ";
        }
        s += if rng.chance(0.1) { "\r\n" } else { "\n" };
    }
    if rng.chance(0.2) {
        s.pop();
    }
    s
}

// ---------------------------------------------------------------- independent parsers

fn model_lines(bytes: &[u8]) -> Option<Vec<String>> {
    let mut out = Vec::new();
    for l in bytes.split(|b| *b == b'\n') {
        out.push(String::from_utf8(l.to_vec()).ok()?);
    }
    Some(out)
}

struct Mm {
    complex: bool,
    symmetric: bool,
    m: i64,
    n: i64,
    nnz: i64,
    e: Vec<(usize, usize, f64, f64)>,
}

fn mm_dims(bytes: &[u8]) -> Option<(i64, i64, i64)> {
    let text = String::from_utf8_lossy(bytes).into_owned();
    let mut it = text.lines();
    it.next()?;
    for l in it {
        let l = l.trim();
        if l.is_empty() || l.starts_with('%') {
            continue;
        }
        let t: Vec<i64> = l.split_whitespace().take(3).filter_map(|t| t.parse().ok()).collect();
        return if t.len() == 3 { Some((t[0], t[1], t[2])) } else { None };
    }
    None
}

fn mm_model(bytes: &[u8]) -> Option<Mm> {
    let lines = model_lines(bytes)?;
    let h: Vec<&str> = lines.first()?.split_whitespace().collect();
    if h.len() < 5 || h[0] != "%%MatrixMarket" || h[1] != "matrix" || h[2] != "coordinate" {
        return None;
    }
    let complex = match h[3] {
        "real" => false,
        "complex" => true,
        _ => return None,
    };
    let symmetric = match h[4] {
        "general" => false,
        "symmetric" => true,
        "Hermitian" if complex => false,
        _ => return None,
    };
    let mut dims = None;
    let mut e = Vec::new();
    for l in &lines[1..] {
        let l = l.trim();
        if l.is_empty() || l.starts_with('%') {
            continue;
        }
        let t: Vec<&str> = l.split_whitespace().collect();
        match dims {
            None => {
                if t.len() < 3 {
                    return None;
                }
                dims = Some((t[0].parse::<i64>().ok()?, t[1].parse::<i64>().ok()?, t[2].parse::<i64>().ok()?));
            }
            Some((m, n, _)) => {
                if t.len() < if complex { 4 } else { 3 } {
                    return None;
                }
                let i = t[0].parse::<i64>().ok()?;
                let j = t[1].parse::<i64>().ok()?;
                if i < 1 || i > m || j < 1 || j > n {
                    return None;
                }
                let im = if complex { t[3].parse().ok()? } else { 0.0 };
                e.push((i as usize - 1, j as usize - 1, t[2].parse().ok()?, im));
            }
        }
    }
    let (m, n, nnz) = dims?;
    if m < 1 || n < 1 || nnz < 1 || e.len() as i64 != nnz || (symmetric && m != n) {
        return None;
    }
    Some(Mm { complex, symmetric, m, n, nnz, e })
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-13 * (a.abs() + b.abs()) || (a - b).abs() < 1e-300
}

fn run_mm(c: &mut Case, bytes: &[u8], must_be_ok: bool) {
    if let Some((_, _, nnz)) = mm_dims(bytes) {
        if nnz > 100_000 {
            c.count("announced sizes beyond the bound (not read)");
            return;
        }
    }
    let path = c.scratch("in.mtx");
    std::fs::write(&path, bytes).unwrap();
    let model = mm_model(bytes);
    if must_be_ok {
        assert!(model.is_some(), "harness: the model rejects a valid file");
    }
    for h in [MMsym::LeaveAsLower, MMsym::SwapToUpper, MMsym::MakeItFull] {
        let res = match no_panic(|| read_matrix_market(&path, h)) {
            Ok(r) => r,
            Err(p) => {
                c.fail(format!("read_matrix_market panicked: {}", p));
                return;
            }
        };
        match (&res, &model) {
            (Err(_), _) => {
                c.count("matrix market: errors");
                c.check(!must_be_ok, || format!("valid file rejected: {:?}", res));
            }
            (Ok(_), None) => c.fail("a malformed file was accepted".to_string()),
            (Ok((r, z)), Some(md)) => {
                c.count("matrix market: accepted");
                // collect triplets
                let mut got: Vec<(i32, i32, f64, f64)> = Vec::new();
                let info;
                match (r, z) {
                    (Some(a), None) if !md.complex => {
                        let (ri, ci, v) = (a.get_row_indices(), a.get_col_indices(), a.get_values());
                        for k in 0..a.get_nnz() {
                            got.push((ri[k], ci[k], v[k], 0.0));
                        }
                        info = (a.get_info().0, a.get_info().1);
                    }
                    (None, Some(a)) if md.complex => {
                        let (ri, ci, v) = (a.get_row_indices(), a.get_col_indices(), a.get_values());
                        for k in 0..a.get_nnz() {
                            got.push((ri[k], ci[k], v[k].re, v[k].im));
                        }
                        info = (a.get_info().0, a.get_info().1);
                    }
                    _ => {
                        c.fail("real/complex kind differs from the header".to_string());
                        return;
                    }
                }
                let mut want: Vec<(i32, i32, f64, f64)> = Vec::new();
                for (i, j, re, im) in &md.e {
                    let (i, j) = (*i as i32, *j as i32);
                    if md.symmetric {
                        match h {
                            MMsym::LeaveAsLower => want.push((i, j, *re, *im)),
                            MMsym::SwapToUpper => want.push((j, i, *re, *im)),
                            MMsym::MakeItFull => {
                                want.push((i, j, *re, *im));
                                if i != j {
                                    want.push((j, i, *re, *im));
                                }
                            }
                        }
                    } else {
                        want.push((i, j, *re, *im));
                    }
                }
                let key = |t: &(i32, i32, f64, f64)| (t.0, t.1, t.2.to_bits(), t.3.to_bits());
                got.sort_by_key(key);
                want.sort_by_key(key);
                let ok = got.len() == want.len()
                    && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1 == w.1 && same(g.2, w.2) && same(g.3, w.3));
                c.check(ok, || format!("{:?}: read {:?} want {:?}", h, got, want));
                c.check(info == (md.m as usize, md.n as usize) && md.nnz > 0, || format!("dimensions {:?}", info));
            }
        }
    }
}

fn table_model(bytes: &[u8]) -> Option<HashMap<String, Vec<f64>>> {
    let lines = model_lines(bytes)?;
    let mut labels: Option<Vec<String>> = None;
    let mut table: HashMap<String, Vec<f64>> = HashMap::new();
    for l in lines {
        let t: Vec<&str> = l.split_whitespace().take_while(|t| !t.starts_with('#')).collect();
        if t.is_empty() {
            continue;
        }
        match &labels {
            None => {
                let ls: Vec<String> = t.iter().map(|s| s.to_string()).collect();
                for k in 0..ls.len() {
                    if ls[..k].contains(&ls[k]) {
                        return None;
                    }
                }
                labels = Some(ls);
            }
            Some(ls) => {
                if t.len() != ls.len() {
                    return None;
                }
                for k in 0..t.len() {
                    table.entry(ls[k].clone()).or_default().push(t[k].parse().ok()?);
                }
            }
        }
    }
    Some(table)
}

fn run_table(c: &mut Case, bytes: &[u8], must_be_ok: bool) {
    let path = c.scratch("in.txt");
    std::fs::write(&path, bytes).unwrap();
    let model = table_model(bytes);
    let res = match no_panic(|| read_table::<f64, _>(&path, None)) {
        Ok(r) => r,
        Err(p) => {
            c.fail(format!("read_table panicked: {}", p));
            return;
        }
    };
    match (&res, &model) {
        (Err(_), _) => {
            c.count("table: errors");
            c.check(!must_be_ok, || format!("valid table rejected: {:?}", res));
        }
        (Ok(_), None) => c.fail("a malformed table was accepted".to_string()),
        (Ok(t), Some(md)) => {
            c.count("table: accepted");
            let ok = t.len() == md.len()
                && md.iter().all(|(k, v)| match t.get(k) {
                    Some(w) => w.len() == v.len() && w.iter().zip(v).all(|(a, b)| same(*a, *b)),
                    None => false,
                });
            c.check(ok, || format!("table {:?} want {:?}", t, md));
        }
    }
    // with labels
    let mut labels: Vec<&str> = vec!["x", "y", "sr", "Ea", "t_0"];
    labels.truncate(c.rng.int(1, 5));
    match no_panic(|| read_data(&path, &labels)) {
        Ok(Ok(t)) => {
            c.check(model.is_some(), || "a malformed table was accepted (with labels)".to_string());
            c.check(t.keys().all(|k| labels.contains(&k.as_str())), || "unexpected labels".to_string());
            if let Some(md) = &model {
                let ok = t.len() == md.len() && md.iter().all(|(k, v)| t.get(k).map(|w| w.len() == v.len() && w.iter().zip(v).all(|(a, b)| same(*a, *b))).unwrap_or(false));
                c.check(ok, || format!("table {:?} want {:?}", t, md));
            }
        }
        Ok(Err(_)) => c.count("table: errors"),
        Err(p) => c.fail(format!("read_data panicked: {}", p)),
    }
    // another value type
    if let Err(p) = no_panic(|| read_table::<i32, _>(&path, None)) {
        c.fail(format!("read_table (integers) panicked: {}", p));
    }
}

fn run_matrix(c: &mut Case, bytes: &[u8], must_be_ok: bool) {
    let path = c.scratch("in.txt");
    std::fs::write(&path, bytes).unwrap();
    // model: rows of numbers with equal length
    let model = (|| {
        let mut rows: Vec<Vec<String>> = Vec::new();
        for l in model_lines(bytes)? {
            let t: Vec<String> = l.split_whitespace().take_while(|t| !t.starts_with('#')).map(|t| t.to_string()).collect();
            if !t.is_empty() {
                rows.push(t);
            }
        }
        let n = rows.first().map(|r| r.len()).unwrap_or(0);
        if rows.iter().any(|r| r.len() != n) { None } else { Some(rows) }
    })();
    let res = match no_panic(|| NumMatrix::<f64>::from_text_file(&path)) {
        Ok(r) => r,
        Err(p) => {
            c.fail(format!("from_text_file panicked: {}", p));
            return;
        }
    };
    match (&res, &model) {
        (Err(_), _) => {
            c.count("matrix: errors");
            c.check(!must_be_ok, || format!("valid matrix rejected: {:?}", res));
        }
        (Ok(_), None) => c.fail("a ragged matrix was accepted".to_string()),
        (Ok(a), Some(rows)) => {
            c.count("matrix: accepted");
            let n = rows.first().map(|r| r.len()).unwrap_or(0);
            if a.dims() != (rows.len(), n) {
                c.fail(format!("dims {:?} want {:?}", a.dims(), (rows.len(), n)));
                return;
            }
            for i in 0..rows.len() {
                for j in 0..n {
                    // tokens that the standard parser also understands must have its value
                    if let Ok(v) = rows[i][j].parse::<f64>() {
                        c.check(same(a.get(i, j), v), || format!("({},{}): {:?} read as {:?}", i, j, rows[i][j], a.get(i, j)));
                    }
                }
            }
        }
    }
    if let Err(p) = no_panic(|| NumMatrix::<Complex64>::from_text_file(&path)) {
        c.fail(format!("from_text_file (complex) panicked: {}", p));
    }
    if let Err(p) = no_panic(|| NumMatrix::<i32>::from_text_file(&path)) {
        c.fail(format!("from_text_file (integers) panicked: {}", p));
    }
}

fn one(c: &mut Case, valid: fn(&mut Rng) -> String, comment: &str, go: fn(&mut Case, &[u8], bool)) {
    let text = valid(&mut c.rng);
    match c.rng.int(0, 9) {
        0 => {
            c.input(format!("{:?}", text));
            go(c, text.as_bytes(), true);
            c.count("valid files");
        }
        1 => {
            let t = harmless(&mut c.rng, &text, comment);
            c.input(format!("{:?}", t));
            go(c, t.as_bytes(), true);
            c.count("valid files");
        }
        _ => {
            let (b, kind) = mutate(&mut c.rng, &text);
            c.input(format!("{}: {:?}", kind, String::from_utf8_lossy(&b)));
            go(c, &b, false);
            c.count("corrupted files");
        }
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("valid files, harmless rewrites and corrupted versions (truncation, token/byte corruption, deleted/duplicated/shuffled lines, random bytes); whatever is accepted is compared with an independent parser; non-trivial: distinct file contents");
    cx.assume("Matrix Market files announcing more than 100000 entries are not read (memory is reserved up front)");
    let n = cx.n(8000, 200000);
    cx.run("matrix-market", n, |c| one(c, mm_valid, "%", run_mm));
    cx.run("table", n, |c| one(c, table_valid, "#", run_table));
    cx.run("matrix", n, |c| one(c, matrix_valid, "#", run_matrix));
    cx.run("missing-file", 1, |c| {
        let p = c.scratch("does-not-exist");
        c.err("matrix market", read_matrix_market(&p, MMsym::LeaveAsLower).map(|_| ()));
        c.err("table", read_table::<f64, _>(&p, None).map(|_| ()));
        c.err("matrix", NumMatrix::<f64>::from_text_file(&p).map(|_| ()));
        let d = p.parent().unwrap().to_path_buf();
        c.err("matrix market (directory)", no_panic(|| read_matrix_market(&d, MMsym::LeaveAsLower).map(|_| ())).unwrap_or_else(|_| panic!("panicked")));
        c.err("table (directory)", no_panic(|| read_table::<f64, _>(&d, None).map(|_| ())).unwrap_or_else(|_| panic!("panicked")));
        c.err("matrix (directory)", no_panic(|| NumMatrix::<f64>::from_text_file(&d).map(|_| ())).unwrap_or_else(|_| panic!("panicked")));
    });
    for k in ["matrix market: errors", "matrix market: accepted", "table: errors", "table: accepted", "matrix: errors", "matrix: accepted"] {
        cx.require(k, 300);
    }
}
