use crate::common::*;
use harness::{Case, Ctx};
use num_complex::Complex64;
use russell_lab::NumMatrix;
use russell_sparse::{ComplexCscMatrix, CscMatrix, MMsym, NumCooMatrix, NumCscMatrix, Sym, read_matrix_market};
use std::path::PathBuf;

pub trait Mm: Sc {
    fn write(a: &NumCscMatrix<Self>, path: &PathBuf, vis: bool, tol: f64) -> Result<(), &'static str>;
    fn read(path: &PathBuf, h: MMsym) -> Result<Option<NumCooMatrix<Self>>, &'static str>;
    fn keep(self, tol: f64) -> bool;
    fn parse(tokens: &[&str], vis: bool) -> Option<(f64, f64)>;
    fn vis(self) -> f64;
    fn adjust(self, rng: &mut harness::Rng) -> Self;
}

impl Mm for f64 {
    fn write(a: &NumCscMatrix<f64>, path: &PathBuf, vis: bool, tol: f64) -> Result<(), &'static str> {
        let a: &CscMatrix = a;
        a.write_matrix_market(path, vis, tol)
    }
    fn read(path: &PathBuf, h: MMsym) -> Result<Option<NumCooMatrix<f64>>, &'static str> {
        let (r, c) = read_matrix_market(path, h)?;
        assert!(c.is_none(), "complex matrix returned for a real file");
        Ok(r)
    }
    fn keep(self, tol: f64) -> bool {
        self.abs() > tol
    }
    fn parse(t: &[&str], _vis: bool) -> Option<(f64, f64)> {
        if t.len() != 3 {
            return None;
        }
        Some((t[2].parse().ok()?, 0.0))
    }
    fn vis(self) -> f64 {
        self
    }
    fn adjust(self, rng: &mut harness::Rng) -> f64 {
        self * f64::powi(10.0, rng.int(0, 40) as i32 - 20)
    }
}

impl Mm for Complex64 {
    fn write(a: &NumCscMatrix<Complex64>, path: &PathBuf, vis: bool, tol: f64) -> Result<(), &'static str> {
        let a: &ComplexCscMatrix = a;
        a.write_matrix_market(path, vis, tol)
    }
    fn read(path: &PathBuf, h: MMsym) -> Result<Option<NumCooMatrix<Complex64>>, &'static str> {
        let (r, c) = read_matrix_market(path, h)?;
        assert!(r.is_none(), "real matrix returned for a complex file");
        Ok(c)
    }
    fn keep(self, tol: f64) -> bool {
        self.re.abs() > tol || self.im.abs() > tol
    }
    fn parse(t: &[&str], vis: bool) -> Option<(f64, f64)> {
        if vis {
            if t.len() != 3 {
                return None;
            }
            return Some((t[2].parse().ok()?, 0.0));
        }
        if t.len() != 4 {
            return None;
        }
        Some((t[2].parse().ok()?, t[3].parse().ok()?))
    }
    fn vis(self) -> f64 {
        self.norm()
    }
    fn adjust(self, rng: &mut harness::Rng) -> Complex64 {
        match rng.int(0, 3) {
            0 => Complex64::new(self.re, 0.0),
            1 => Complex64::new(0.0, self.im),
            _ => Complex64::new(self.re.adjust(rng), self.im.adjust(rng)),
        }
    }
}

fn round_trip<T: Mm>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (m, n) = gen_dims(&mut c.rng, sym, 12);
    let count = c.rng.int(1, usize::max(40, 3 * (m + n)));
    let mut e = gen_entries::<T>(&mut c.rng, m, n, sym, count, false);
    if sym != Sym::YesFull {
        for x in e.iter_mut() {
            if c.rng.chance(0.5) {
                x.2 = x.2.adjust(&mut c.rng);
            }
            if c.rng.chance(0.1) {
                x.2 = T::zero();
            }
        }
    } else if T::COMPLEX {
        // keep the mirror pairs equal
        let keep_im = c.rng.bool();
        for x in e.iter_mut() {
            x.2 = if keep_im { x.2 } else { T::conv(x.2.mag(), 0.0) };
        }
    }
    let tol = *c.rng.pick(&[0.0, 0.0, -1.0, 1e-10, 0.3, 0.7, 1.0]);
    c.input(format!("{}x{} {:?} complex={} tol={} {:?}", m, n, sym, T::COMPLEX, tol, e));
    let coo = build(m, n, sym, &e, 0);
    let csc = NumCscMatrix::from_coo(&coo).unwrap();
    // what must be in the file: the stored entries passing the filter, as a full dense image
    let mut want: NumMatrix<T> = NumMatrix::new(m, n);
    let mut kept_file = 0; // lines in the plain file
    let mut kept_vis = 0;
    let (cp, ri, va) = (csc.get_col_pointers(), csc.get_row_indices(), csc.get_values());
    for j in 0..n {
        for p in cp[j] as usize..cp[j + 1] as usize {
            let i = ri[p] as usize;
            if va[p].keep(tol) {
                want.set(i, j, va[p]);
                if sym.triangular() {
                    want.set(j, i, va[p]);
                }
                kept_file += if sym == Sym::YesFull && i < j { 0 } else { 1 };
                kept_vis += if sym.triangular() && i != j { 2 } else { 1 };
            } else {
                c.count("entries dropped by the tolerance");
            }
        }
    }
    let path = c.scratch("m.mtx");
    if c.ok("write", T::write(&csc, &path, false, tol)).is_none() {
        return;
    }
    // file text
    let text = std::fs::read_to_string(&path).unwrap();
    let mut lines = text.lines();
    let header = lines.next().unwrap_or("").to_string();
    let expect = format!(
        "%%MatrixMarket matrix coordinate {} {}",
        if T::COMPLEX { "complex" } else { "real" },
        if sym == Sym::No { "general" } else { "symmetric" }
    );
    c.check(header == expect, || format!("header is {:?}", header));
    let dims: Vec<usize> = lines.next().unwrap_or("").split_whitespace().filter_map(|t| t.parse().ok()).collect();
    c.check(dims == vec![m, n, kept_file], || format!("dimension line is {:?}, want {:?}", dims, (m, n, kept_file)));
    let body: Vec<&str> = lines.collect();
    c.check(body.len() == kept_file, || format!("{} lines announced, {} written", kept_file, body.len()));
    for l in &body {
        let t: Vec<&str> = l.split_whitespace().collect();
        let ok = (|| {
            let i: usize = t.first()?.parse().ok()?;
            let j: usize = t.get(1)?.parse().ok()?;
            let (re, im) = T::parse(&t, false)?;
            let v = T::conv(re, im);
            Some(i >= 1 && i <= m && j >= 1 && j <= n && want.get(i - 1, j - 1) == v && (sym == Sym::No || i >= j))
        })();
        c.check(ok == Some(true), || format!("line {:?} does not match the matrix", l));
    }
    // read back
    for h in [MMsym::LeaveAsLower, MMsym::SwapToUpper, MMsym::MakeItFull] {
        let r = T::read(&path, h);
        if kept_file == 0 {
            continue; // a file with no entries: nothing to compare
        }
        let Some(Some(back)) = c.ok("read", r) else {
            c.fail("nothing read".to_string());
            return;
        };
        let (rm, rn, _, rs) = back.get_info();
        let want_sym = match (sym == Sym::No, h) {
            (true, _) => Sym::No,
            (_, MMsym::LeaveAsLower) => Sym::YesLower,
            (_, MMsym::SwapToUpper) => Sym::YesUpper,
            (_, MMsym::MakeItFull) => Sym::YesFull,
        };
        c.check((rm, rn) == (m, n) && rs == want_sym, || format!("read back as {}x{} {:?}", rm, rn, rs));
        c.check(back.as_dense().as_data() == want.as_data(), || {
            format!("read back with {:?}: {:?} want {:?}", h, back.as_dense().as_data(), want.as_data())
        });
        c.count("round trips");
    }
    // visualization file
    if c.rng.bool() {
        if c.ok("write vismatrix", T::write(&csc, &path, true, tol)).is_none() {
            return;
        }
        let text = std::fs::read_to_string(&path).unwrap();
        let mut lines = text.lines();
        let dims: Vec<usize> = lines.next().unwrap_or("").split_whitespace().filter_map(|t| t.parse().ok()).collect();
        c.check(dims == vec![m, n, kept_vis], || format!("vismatrix dimensions {:?} want {:?}", dims, (m, n, kept_vis)));
        let mut seen = vec![false; m * n];
        let mut k = 0;
        for l in lines {
            let t: Vec<&str> = l.split_whitespace().collect();
            let ok = (|| {
                let i: usize = t.first()?.parse().ok()?;
                let j: usize = t.get(1)?.parse().ok()?;
                let (v, _) = T::parse(&t, true)?;
                if i >= m || j >= n || seen[i * n + j] {
                    return Some(false);
                }
                seen[i * n + j] = true;
                Some((v - want.get(i, j).vis()).abs() <= 1e-14 * v.abs())
            })();
            c.check(ok == Some(true), || format!("vismatrix line {:?} does not match the matrix", l));
            k += 1;
        }
        c.check(k == kept_vis, || format!("vismatrix has {} lines, want {}", k, kept_vis));
        c.count("visualization files");
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random matrices of every storage kind, values of magnitude 1e-20..1e20 with purely real/imaginary ones, several tolerances; each file is parsed independently and read back with each symmetry option; non-trivial: distinct matrices");
    let n = cx.n(1500, 20000);
    cx.run("real", n, round_trip::<f64>);
    cx.run("complex", n, round_trip::<Complex64>);
    cx.require("round trips", 1500);
    cx.require("visualization files", 300);
    cx.require("entries dropped by the tolerance", 300);
}
