use crate::common::*;
use harness::{Case, Ctx, no_panic};
use num_complex::Complex64;
use russell_lab::NumMatrix;
use russell_sparse::{NumCooMatrix, NumCscMatrix, NumCsrMatrix, Sym};
use std::collections::BTreeSet;

/// Walks compressed arrays and checks the canonical form
fn walk(c: &mut Case, what: &str, np: usize, nmax: usize, ptr: &[i32], idx: &[i32], nval: usize) -> bool {
    if ptr.len() != np + 1 || ptr[0] != 0 {
        c.fail(format!("{}: bad pointer array {:?}", what, ptr));
        return false;
    }
    let nnz = ptr[np] as usize;
    if idx.len() != nnz || nval != nnz {
        c.fail(format!("{}: pointers say nnz={} but indices={} values={}", what, nnz, idx.len(), nval));
        return false;
    }
    for k in 0..np {
        if ptr[k] > ptr[k + 1] || ptr[k] < 0 {
            c.fail(format!("{}: pointers not ascending {:?}", what, ptr));
            return false;
        }
        for p in ptr[k] as usize..ptr[k + 1] as usize {
            if idx[p] < 0 || idx[p] as usize >= nmax {
                c.fail(format!("{}: index {} out of range {}", what, idx[p], nmax));
                return false;
            }
            if p > ptr[k] as usize && idx[p - 1] >= idx[p] {
                c.fail(format!("{}: indices not sorted/unique in segment {}: {:?}", what, k, idx));
                return false;
            }
        }
    }
    true
}

fn check_csc<T: Sc>(c: &mut Case, what: &'static str, csc: &NumCscMatrix<T>, model: &Dense<T>, sym: Sym, distinct: usize) {
    let (m, n, nnz, s) = csc.get_info();
    c.check((m, n, s) == (model.m, model.n, sym) && nnz == distinct, || {
        format!("{}: info {:?} want nnz={}", what, (m, n, nnz, s), distinct)
    });
    walk(c, what, n, m, csc.get_col_pointers(), csc.get_row_indices(), csc.get_values().len());
    if c.failed() {
        return;
    }
    let a = csc.as_dense();
    c.check(model.same(&a), || format!("{}: dense image differs\n{:?}\nwant {:?}", what, a.as_data(), model.a));
    let mut b = NumMatrix::<T>::new(m, n);
    b.fill(T::nan());
    let r = csc.to_dense(&mut b);
    c.check(r.is_ok() && model.same(&b), || format!("{}: to_dense into dirty matrix differs", what));
    // entry by entry through the raw arrays
    let mut raw = Dense::<T>::new(m, n);
    for j in 0..n {
        for p in csc.get_col_pointers()[j] as usize..csc.get_col_pointers()[j + 1] as usize {
            let i = csc.get_row_indices()[p] as usize;
            raw.add(i, j, csc.get_values()[p]);
            if sym.triangular() && i != j {
                raw.add(j, i, csc.get_values()[p]);
            }
        }
    }
    c.check(raw.a == model.a, || format!("{}: raw arrays denote another matrix", what));
    c.count("csc checked");
}

fn check_csr<T: Sc>(c: &mut Case, what: &'static str, csr: &NumCsrMatrix<T>, model: &Dense<T>, sym: Sym, distinct: usize) {
    let (m, n, nnz, s) = csr.get_info();
    c.check((m, n, s) == (model.m, model.n, sym) && nnz == distinct, || {
        format!("{}: info {:?} want nnz={}", what, (m, n, nnz, s), distinct)
    });
    walk(c, what, m, n, csr.get_row_pointers(), csr.get_col_indices(), csr.get_values().len());
    if c.failed() {
        return;
    }
    let a = csr.as_dense();
    c.check(model.same(&a), || format!("{}: dense image differs\n{:?}\nwant {:?}", what, a.as_data(), model.a));
    let mut b = NumMatrix::<T>::new(m, n);
    b.fill(T::nan());
    let r = csr.to_dense(&mut b);
    c.check(r.is_ok() && model.same(&b), || format!("{}: to_dense into dirty matrix differs", what));
    let mut raw = Dense::<T>::new(m, n);
    for i in 0..m {
        for p in csr.get_row_pointers()[i] as usize..csr.get_row_pointers()[i + 1] as usize {
            let j = csr.get_col_indices()[p] as usize;
            raw.add(i, j, csr.get_values()[p]);
            if sym.triangular() && i != j {
                raw.add(j, i, csr.get_values()[p]);
            }
        }
    }
    c.check(raw.a == model.a, || format!("{}: raw arrays denote another matrix", what));
    c.count("csr checked");
}

/// All conversions of one triplet matrix
fn all_forms<T: Sc>(c: &mut Case, coo: &NumCooMatrix<T>, sym: Sym, entries: &[(usize, usize, T)]) {
    let (m, n, nnz, s) = coo.get_info();
    let model = Dense::from_entries(m, n, sym, entries);
    let distinct = entries.iter().map(|e| (e.0, e.1)).collect::<BTreeSet<_>>().len();
    c.check(nnz == entries.len() && s == sym && coo.get_nnz() == nnz, || format!("coo info {:?}", coo.get_info()));
    let stored: Vec<(usize, usize, T)> = (0..nnz)
        .map(|k| (coo.get_row_indices()[k] as usize, coo.get_col_indices()[k] as usize, coo.get_values()[k]))
        .collect();
    c.check(stored == entries, || format!("coo holds other triplets {:?}", stored));
    let actual: usize = entries.iter().map(|e| if sym.triangular() && e.0 != e.1 { 2 } else { 1 }).sum();
    c.check(coo.get_actual_nnz() == actual, || format!("actual nnz {} want {}", coo.get_actual_nnz(), actual));
    let a = coo.as_dense();
    c.check(model.same(&a), || format!("coo dense image differs {:?} want {:?}", a.as_data(), model.a));
    let mut b = NumMatrix::<T>::new(m, n);
    b.fill(T::nan());
    c.check(coo.to_dense(&mut b).is_ok() && model.same(&b), || "coo to_dense into dirty matrix differs".to_string());
    let mut wrong = NumMatrix::<T>::new(m + 1, n);
    c.err("coo.to_dense wrong dims", coo.to_dense(&mut wrong));
    if entries.is_empty() {
        c.err("csc from empty", NumCscMatrix::from_coo(coo));
        c.err("csr from empty", NumCsrMatrix::from_coo(coo));
        return;
    }
    let (Some(csc), Some(csr)) = (c.ok("csc from_coo", NumCscMatrix::from_coo(coo)), c.ok("csr from_coo", NumCsrMatrix::from_coo(coo)))
    else {
        return;
    };
    check_csc(c, "coo->csc", &csc, &model, sym, distinct);
    check_csr(c, "coo->csr", &csr, &model, sym, distinct);
    if c.failed() {
        return;
    }
    let csc2 = NumCscMatrix::from_csr(&csr).unwrap();
    check_csc(c, "coo->csr->csc", &csc2, &model, sym, distinct);
    let csr2 = NumCsrMatrix::from_csc(&csc).unwrap();
    check_csr(c, "coo->csc->csr", &csr2, &model, sym, distinct);
    let csr3 = NumCsrMatrix::from_csc(&csc2).unwrap();
    check_csr(c, "coo->csr->csc->csr", &csr3, &model, sym, distinct);
    c.err("csc.to_dense wrong dims", csc.to_dense(&mut wrong));
    c.err("csr.to_dense wrong dims", csr.to_dense(&mut wrong));
    // raw-array construction from canonical arrays
    let r = NumCscMatrix::<T>::new(
        m,
        n,
        csc.get_col_pointers().to_vec(),
        csc.get_row_indices().to_vec(),
        csc.get_values().to_vec(),
        sym,
    );
    if let Some(x) = c.ok("csc new from canonical arrays", r) {
        check_csc(c, "csc new", &x, &model, sym, distinct);
    }
    let r = NumCsrMatrix::<T>::new(
        m,
        n,
        csr.get_row_pointers().to_vec(),
        csr.get_col_indices().to_vec(),
        csr.get_values().to_vec(),
        sym,
    );
    if let Some(x) = c.ok("csr new from canonical arrays", r) {
        check_csr(c, "csr new", &x, &model, sym, distinct);
    }
    let r = NumCooMatrix::<T>::from(
        m,
        n,
        coo.get_row_indices().to_vec(),
        coo.get_col_indices().to_vec(),
        coo.get_values().to_vec(),
        sym,
    );
    if let Some(x) = c.ok("coo from arrays", r) {
        c.check(model.same(&x.as_dense()) && x.get_info() == (m, n, nnz, sym), || "coo from arrays differs".to_string());
    }
}

fn bad_put<T: Sc>(c: &mut Case, coo: &mut NumCooMatrix<T>, m: usize, n: usize, sym: Sym) {
    let (i, j) = match c.rng.int(0, 3) {
        0 => (m + c.rng.int(0, 3), c.rng.int(0, n - 1)),
        1 => (c.rng.int(0, m - 1), n + c.rng.int(0, 3)),
        2 => (usize::MAX, usize::MAX),
        _ => {
            if n < 2 || !sym.triangular() {
                return;
            }
            let a = c.rng.int(0, n - 2);
            let b = c.rng.int(a + 1, n - 1);
            if sym == Sym::YesLower { (a, b) } else { (b, a) }
        }
    };
    let v = T::gen_exact(&mut c.rng);
    c.err("put outside the admissible positions", coo.put(i, j, v));
    c.count("rejected puts");
}

fn convert<T: Sc>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (m, n) = gen_dims(&mut c.rng, sym, 25);
    let count = if c.rng.chance(0.03) { 0 } else { c.rng.int(1, (m * n * 2).min(usize::max(60, 3 * (m + n)))) };
    let entries = gen_entries::<T>(&mut c.rng, m, n, sym, count, true);
    let extra = if count == 0 { 1 } else { c.rng.int(0, 3) };
    let mut coo = NumCooMatrix::<T>::new(m, n, count + extra, sym).unwrap();
    let hostile = c.rng.bool();
    for (i, j, v) in &entries {
        if hostile && c.rng.chance(0.3) {
            bad_put(c, &mut coo, m, n, sym);
        }
        c.ok("put", coo.put(*i, *j, *v));
    }
    if extra == 0 && count > 0 {
        c.err("put beyond capacity", coo.put(0, 0, T::one()));
    }
    c.input(format!("{}x{} {:?} complex={} entries={:?}", m, n, sym, T::COMPLEX, entries));
    if count > 1 {
        c.count("nontrivial conversions");
    }
    all_forms(c, &coo, sym, &entries);
}

fn history<T: Sc>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (m, n) = gen_dims(&mut c.rng, sym, 14);
    let count = c.rng.int(1, (m * n * 2).min(usize::max(40, 3 * (m + n))));
    let mut entries = gen_entries::<T>(&mut c.rng, m, n, sym, count, true);
    let cap = count + c.rng.int(0, 5);
    let mut coo = NumCooMatrix::<T>::new(m, n, cap, sym).unwrap();
    for (i, j, v) in &entries {
        coo.put(*i, *j, *v).unwrap();
    }
    let mut csc = NumCscMatrix::from_coo(&coo).unwrap();
    let mut csr = NumCsrMatrix::from_coo(&coo).unwrap();
    if c.rng.chance(0.3) {
        csc = csc.clone();
        csr = csr.clone();
    }
    let nstep = c.rng.int(2, 6);
    let mut ops = String::new();
    for _ in 0..nstep {
        match c.rng.int(0, 5) {
            0 | 1 => {
                // same pattern, new values
                coo.reset();
                for e in entries.iter_mut() {
                    e.2 = T::gen_exact(&mut c.rng);
                    c.ok("put after reset", coo.put(e.0, e.1, e.2));
                }
                ops.push_str("values ");
            }
            2 => {
                // another pattern with the same number of entries
                coo.reset();
                entries = gen_entries::<T>(&mut c.rng, m, n, sym, count, true);
                for e in entries.iter() {
                    c.ok("put after reset", coo.put(e.0, e.1, e.2));
                }
                ops.push_str("pattern ");
            }
            3 => {
                // same triplets in another order
                coo.reset();
                c.rng.shuffle(&mut entries);
                for e in entries.iter() {
                    c.ok("put after reset", coo.put(e.0, e.1, e.2));
                }
                ops.push_str("shuffle ");
            }
            4 => {
                // values changed through the mutable access
                for (k, v) in coo.get_values_mut().iter_mut().enumerate() {
                    *v = *v + T::one();
                    entries[k].2 = entries[k].2 + T::one();
                }
                ops.push_str("mutate ");
            }
            _ => {
                // incompatible updates are rejected and change nothing
                let before_csc = csc.as_dense();
                let before_csr = csr.as_dense();
                let other = match c.rng.int(0, 2) {
                    0 => build::<T>(m, n, sym, &gen_entries(&mut c.rng, m, n, sym, count + 1, true), 0),
                    1 => {
                        let n2 = n + 1;
                        let m2 = if sym == Sym::No { m } else { n2 };
                        build::<T>(m2, n2, sym, &gen_entries(&mut c.rng, m2, n2, sym, count, true), 0)
                    }
                    _ => {
                        let s2 = if sym == Sym::No { Sym::YesFull } else { Sym::No };
                        let m2 = if sym == Sym::No { n.max(m) } else { m };
                        let n2 = if sym == Sym::No { m2 } else { n };
                        build::<T>(m2, n2, s2, &gen_entries(&mut c.rng, m2, n2, s2, count, true), 0)
                    }
                };
                c.err("incompatible csc update", csc.update_from_coo(&other));
                c.err("incompatible csr update", csr.update_from_coo(&other));
                c.check(csc.as_dense().as_data() == before_csc.as_data(), || "rejected update changed the csc".to_string());
                c.check(csr.as_dense().as_data() == before_csr.as_data(), || "rejected update changed the csr".to_string());
                ops.push_str("reject ");
            }
        }
        let model = Dense::from_entries(m, n, sym, &entries);
        let distinct = entries.iter().map(|e| (e.0, e.1)).collect::<BTreeSet<_>>().len();
        c.ok("csc update", csc.update_from_coo(&coo));
        c.ok("csr update", csr.update_from_coo(&coo));
        check_csc(c, "updated csc", &csc, &model, sym, distinct);
        check_csr(c, "updated csr", &csr, &model, sym, distinct);
        c.check(model.same(&coo.as_dense()), || "coo differs after reset".to_string());
        if c.failed() {
            break;
        }
        let csr2 = NumCsrMatrix::from_csc(&csc).unwrap();
        check_csr(c, "updated csc->csr", &csr2, &model, sym, distinct);
        let csc2 = NumCscMatrix::from_csr(&csr).unwrap();
        check_csc(c, "updated csr->csc", &csc2, &model, sym, distinct);
        c.count("in-place updates");
    }
    c.input(format!("{}x{} {:?} complex={} count={} ops={}last={:?}", m, n, sym, T::COMPLEX, count, ops, entries));
}

/// Invalid raw arrays must be rejected without unwinding
fn raw_invalid<T: Sc>(c: &mut Case) {
    let sym = *c.rng.pick(&SYMS);
    let (mut m, n) = gen_dims(&mut c.rng, sym, 8);
    let count = c.rng.int(2, 12);
    let coo = build::<T>(m, n, sym, &gen_entries(&mut c.rng, m, n, sym, count, true), 0);
    let csc = NumCscMatrix::from_coo(&coo).unwrap();
    let csr = NumCsrMatrix::from_coo(&coo).unwrap();
    for which in 0..2 {
        let (mut ptr, mut idx, mut val, np, nmax) = if which == 0 {
            (csc.get_col_pointers().to_vec(), csc.get_row_indices().to_vec(), csc.get_values().to_vec(), n, m)
        } else {
            (csr.get_row_pointers().to_vec(), csr.get_col_indices().to_vec(), csr.get_values().to_vec(), m, n)
        };
        let nnz = idx.len();
        let mut dims = (m, n);
        let kind = c.rng.int(0, 11);
        match kind {
            0 => {
                ptr.pop();
            }
            1 => ptr.push(nnz as i32),
            2 => ptr[np] = 0,
            3 => {
                idx.pop();
            }
            4 => {
                val.pop();
            }
            5 => {
                let k = c.rng.int(0, nnz - 1);
                idx[k] = -1 - c.rng.int(0, 3) as i32;
            }
            6 => {
                let k = c.rng.int(0, nnz - 1);
                idx[k] = (nmax + c.rng.int(0, 2)) as i32;
            }
            7 => {
                // intermediate pointer beyond the end
                if np < 2 {
                    continue;
                }
                let k = c.rng.int(1, np - 1);
                ptr[k] = nnz as i32 + 1 + c.rng.int(0, 5) as i32;
            }
            8 => {
                let k = c.rng.int(0, np - 1);
                ptr[k] = -1 - c.rng.int(0, 3) as i32;
            }
            9 => {
                // reversed indices within a segment
                let mut done = false;
                for k in 0..np {
                    let (a, b) = (ptr[k] as usize, ptr[k + 1] as usize);
                    if b - a >= 2 {
                        idx.swap(a, b - 1);
                        done = true;
                        break;
                    }
                }
                if !done {
                    continue;
                }
            }
            10 => {
                if sym == Sym::No {
                    dims = if c.rng.bool() { (0, n) } else { (m, 0) };
                } else {
                    // symmetric storage on a rectangle
                    if which == 0 { dims.0 += 1 } else { dims.1 += 1 }
                }
            }
            _ => ptr[np] = nnz as i32 + 1,
        }
        c.input(format!("which={} kind={} dims={:?} ptr={:?} idx={:?}", which, kind, dims, ptr, idx));
        let res = no_panic(|| {
            if which == 0 {
                NumCscMatrix::<T>::new(dims.0, dims.1, ptr.clone(), idx.clone(), val.clone(), sym).is_err()
            } else {
                NumCsrMatrix::<T>::new(dims.0, dims.1, ptr.clone(), idx.clone(), val.clone(), sym).is_err()
            }
        });
        match res {
            Ok(is_err) => {
                c.check(is_err, || format!("invalid raw arrays (kind {}) accepted", kind));
            }
            Err(msg) => c.fail(format!("invalid raw arrays (kind {}) panic: {}", kind, msg)),
        }
        c.count("invalid raw arrays");
    }
    // triplets
    let ri = coo.get_row_indices().to_vec();
    let cj = coo.get_col_indices().to_vec();
    let vv = coo.get_values().to_vec();
    let mut bad = (ri.clone(), cj.clone(), vv.clone());
    let kind = c.rng.int(0, 8);
    let mut nn = n;
    match kind {
        0 => bad.0[c.rng.int(0, count - 1)] = -1,
        1 => bad.0[c.rng.int(0, count - 1)] = m as i32,
        2 => bad.1[c.rng.int(0, count - 1)] = -1,
        3 => bad.1[c.rng.int(0, count - 1)] = n as i32,
        4 => {
            bad.1.pop();
        }
        5 => {
            bad.2.pop();
        }
        6 => m = 0,
        7 => {
            if sym == Sym::No {
                bad = (vec![], vec![], vec![])
            } else {
                nn = n + 1
            }
        }
        _ => nn = 0,
    }
    let res = no_panic(|| NumCooMatrix::<T>::from(m, nn, bad.0.clone(), bad.1.clone(), bad.2.clone(), sym).is_err());
    c.check(res == Ok(true), || format!("invalid triplet arrays (kind {}, {:?}) gave {:?}", kind, sym, res));
    c.err("new with nrow=0", NumCooMatrix::<T>::new(0, 2, 2, Sym::No));
    c.err("new with ncol=0", NumCooMatrix::<T>::new(2, 0, 2, Sym::No));
    c.err("new with max_nnz=0", NumCooMatrix::<T>::new(2, 2, 0, Sym::No));
    for s in [Sym::YesFull, Sym::YesLower, Sym::YesUpper] {
        c.err("new rectangular symmetric", NumCooMatrix::<T>::new(2, 3, 2, s));
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random triplet sequences (duplicates, zeros, hostile puts), conversion chains and in-place update histories; non-trivial: at least one conversion of a non-empty matrix, distinct by shape, storage and entries");
    cx.assume("entries are dyadic rationals so that sums are exact in any order");
    let n = cx.n(2500, 40000);
    cx.run("convert-real", n, convert::<f64>);
    cx.run("convert-complex", n, convert::<Complex64>);
    cx.run("history-real", n, history::<f64>);
    cx.run("history-complex", n, history::<Complex64>);
    cx.run("raw-real", n, raw_invalid::<f64>);
    cx.run("raw-complex", n / 2, raw_invalid::<Complex64>);
    cx.require("in-place updates", 1000);
    cx.require("nontrivial conversions", 1000);
    cx.require("rejected puts", 500);
    cx.require("invalid raw arrays", 500);
}
