use crate::common::*;
use crate::lin::*;
use harness::{Case, Ctx};
use num_complex::Complex64;
use russell_lab::NumVector;
use russell_sparse::{NumCooMatrix, Sym};

struct Model<T: Lin> {
    init: Option<(Sym, usize, usize)>, // sym, n, nnz
    good: Option<Dense<T>>,            // matrix that solve must serve (None: solve must fail)
}

fn put_all<T: Lin>(n: usize, sym: Sym, e: &[(usize, usize, T)]) -> NumCooMatrix<T> {
    build(n, n, sym, e, 0)
}

/// Values on the pattern with a dominant transversal
fn good_values<T: Lin>(c: &mut Case, n: usize, sym: Sym, pos: &[(usize, usize)]) -> Vec<(usize, usize, T)> {
    let mut e = gen_values::<T>(&mut c.rng, n, sym, pos);
    let mut used_r = vec![false; n];
    for x in e.iter_mut() {
        if x.0 == x.1 && !used_r[x.0] {
            used_r[x.0] = true;
            x.2 = T::conv(20.0 + 3.0 * pos.len() as f64, 1.0);
        } else {
            x.2 = T::gen_any(&mut c.rng);
        }
    }
    if sym == Sym::YesFull {
        // restore symmetry of the pairs
        let mut k = 0;
        while k + 1 < e.len() {
            if e[k].0 != e[k].1 {
                e[k + 1].2 = e[k].2;
                k += 2;
            } else {
                k += 1;
            }
        }
    }
    e
}

fn diag_pattern(c: &mut Case, n: usize, sym: Sym) -> Vec<(usize, usize)> {
    let mut pos: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
    for _ in 0..c.rng.int(0, 2 * n) {
        let (i, j) = (c.rng.int(0, n - 1), c.rng.int(0, n - 1));
        pos.push((i, j));
        if sym == Sym::YesFull && i != j {
            pos.push((j, i));
        }
    }
    pos
}

/// Exactly singular values: one row (and for symmetric also the column) zeroed
fn singular_values<T: Lin>(c: &mut Case, n: usize, sym: Sym, pos: &[(usize, usize)]) -> Vec<(usize, usize, T)> {
    let mut e = good_values::<T>(c, n, sym, pos);
    let z = c.rng.int(0, n - 1);
    let by_row = c.rng.bool();
    for x in e.iter_mut() {
        let hit = if sym == Sym::YesFull { x.0 == z || x.1 == z } else if by_row { x.0 == z } else { x.1 == z };
        if hit {
            x.2 = T::zero();
        }
    }
    e
}

fn try_solve<T: Lin>(c: &mut Case, s: &mut T::Solver, m: &Model<T>, n: usize) {
    let b = gen_vec::<T>(&mut c.rng, n);
    let mut x = NumVector::<T>::new(n);
    x.fill(T::nan());
    let r = T::solve(s, &mut x, &vector_from(&b));
    match &m.good {
        Some(d) => {
            if c.ok("solve must serve the last accepted factorization", r).is_some() {
                let be = backward_error(d, &x, &b);
                c.check(be <= 1e-12, || format!("backward error {:e} after this history", be));
                c.count("served solves");
            }
        }
        None => {
            c.err("solve without a valid factorization", r);
            c.count("refused solves");
        }
    }
}

fn sequence<T: Lin>(c: &mut Case) {
    let n = if c.rng.chance(0.02) { c.rng.int(9, 60) } else { c.rng.int(1, 8) };
    let sym = if c.rng.chance(0.3) { Sym::YesFull } else { Sym::No };
    let pos = diag_pattern(c, n, sym);
    let nnz = pos.len();
    let mut s = T::create().unwrap();
    let mut m = Model::<T> { init: None, good: None };
    let len = c.rng.int(3, 12);
    let mut ops: Vec<&'static str> = Vec::new();
    for _ in 0..len {
        let op = c.rng.int(0, 11);
        match op {
            0 | 1 => {
                ops.push("solve");
                try_solve(c, &mut s, &m, n);
            }
            2 | 3 | 4 => {
                ops.push("factorize");
                let e = good_values::<T>(c, n, sym, &pos);
                let coo = put_all(n, sym, &e);
                let params = if m.init.is_none() && c.rng.chance(0.8) { Some(gen_params(&mut c.rng)) } else { None };
                if c.ok("valid factorize", T::factorize(&mut s, &coo, params)).is_some() {
                    m.init = Some((sym, n, nnz));
                    m.good = Some(Dense::from_entries(n, n, Sym::No, &e));
                    c.count("accepted factorizations");
                }
            }
            5 => {
                ops.push("singular");
                let e = singular_values::<T>(c, n, sym, &pos);
                let coo = put_all(n, sym, &e);
                let params = if m.init.is_none() && c.rng.chance(0.8) { Some(gen_params(&mut c.rng)) } else { None };
                let first = m.init.is_none();
                c.err("factorize singular", T::factorize(&mut s, &coo, params));
                // a structurally fine but singular matrix may or may not complete the analysis;
                // either way later calls follow the pattern of this matrix
                if first {
                    m.init = Some((sym, n, nnz));
                }
                m.good = None;
                c.count("singular rejections");
            }
            6 => {
                ops.push("params-again");
                if m.init.is_some() {
                    let e = good_values::<T>(c, n, sym, &pos);
                    let coo = put_all(n, sym, &e);
                    let p = gen_params(&mut c.rng);
                    c.err("factorize with new params", T::factorize(&mut s, &coo, Some(p)));
                    c.count("refused factorizations");
                }
            }
            7 => {
                ops.push("other-size");
                if m.init.is_some() {
                    // same number of entries, different size / different number of entries / other storage
                    let coo = match c.rng.int(0, 3) {
                        0 => {
                            let e: Vec<(usize, usize, T)> = (0..nnz).map(|k| (k % (n + 1), k % (n + 1), T::one())).collect();
                            build(n + 1, n + 1, sym, &e, 0)
                        }
                        1 => {
                            let mut e = good_values::<T>(c, n, sym, &pos);
                            e.push((0, 0, T::one()));
                            put_all(n, sym, &e)
                        }
                        2 => {
                            let other = if sym == Sym::No { Sym::YesFull } else { Sym::No };
                            let e: Vec<(usize, usize, T)> = (0..nnz).map(|k| (k % n, k % n, T::one())).collect();
                            put_all(n, other, &e)
                        }
                        _ => {
                            if sym != Sym::No {
                                continue;
                            }
                            let e: Vec<(usize, usize, T)> = (0..nnz).map(|k| (k % n, k % n, T::one())).collect();
                            build(n, n + 1, sym, &e, 0)
                        }
                    };
                    c.err("factorize incompatible matrix", T::factorize(&mut s, &coo, None));
                    c.count("refused factorizations");
                }
            }
            8 => {
                ops.push("rectangular");
                if m.init.is_none() {
                    let e: Vec<(usize, usize, T)> = (0..n).map(|k| (k, k, T::one())).collect();
                    let coo = if c.rng.bool() { build(n, n + 1, Sym::No, &e, 0) } else { build(n + 1, n, Sym::No, &e, 0) };
                    let p = if c.rng.bool() { Some(gen_params(&mut c.rng)) } else { None };
                    c.err("factorize rectangular", T::factorize(&mut s, &coo, p));
                    c.count("refused factorizations");
                }
            }
            9 => {
                ops.push("triangular");
                if m.init.is_none() {
                    let e: Vec<(usize, usize, T)> = (0..n).map(|k| (k, k, T::one())).collect();
                    let coo = build(n, n, if c.rng.bool() { Sym::YesLower } else { Sym::YesUpper }, &e, 0);
                    c.err("factorize triangular storage", T::factorize(&mut s, &coo, None));
                    c.count("refused factorizations");
                }
            }
            10 => {
                ops.push("empty");
                let coo = NumCooMatrix::<T>::new(n, n, 1, sym).unwrap();
                c.err("factorize empty", T::factorize(&mut s, &coo, None));
                c.count("refused factorizations");
            }
            _ => {
                ops.push("wrong-vectors");
                let (a, b) = *c.rng.pick(&[(1usize, 0usize), (0, 1), (1, 1), (2, 0)]);
                let mut x = NumVector::<T>::new(n + a);
                x.fill(T::one());
                let b = NumVector::<T>::new(n + b);
                c.err("solve with wrong sizes", T::solve(&mut s, &mut x, &b));
                c.check(x.as_data().iter().all(|v| *v == T::one()), || "refused solve changed x".to_string());
                let mut x = NumVector::<T>::new(n - 1);
                let b = NumVector::<T>::new(n);
                c.err("solve with short x", T::solve(&mut s, &mut x, &b));
                let mut x = NumVector::<T>::new(n);
                let b = NumVector::<T>::new(n - 1);
                c.err("solve with short rhs", T::solve(&mut s, &mut x, &b));
                c.count("refused solves");
            }
        }
        if c.failed() {
            break;
        }
    }
    if !c.failed() {
        try_solve(c, &mut s, &m, n);
        // whatever happened, a valid matrix of the same pattern is served next
        let e = good_values::<T>(c, n, sym, &pos);
        let coo = put_all(n, sym, &e);
        if c.ok("final valid factorize", T::factorize(&mut s, &coo, None)).is_some() {
            m.good = Some(Dense::from_entries(n, n, Sym::No, &e));
            try_solve(c, &mut s, &m, n);
        }
    }
    c.input(format!("n={} {:?} complex={} pos={:?} ops={:?}", n, sym, T::COMPLEX, pos, ops));
}

/// Singular matrices of other kinds, with every option
fn singular<T: Lin>(c: &mut Case) {
    let n = c.rng.int(1, 10);
    let kind = c.rng.int(0, 3);
    let mut e: Vec<(usize, usize, T)> = Vec::new();
    match kind {
        0 => {
            // structurally singular: last column missing
            if n < 2 {
                e.push((0, 0, T::zero()));
            } else {
                for i in 0..n {
                    e.push((i, i.min(n - 2), T::gen_any(&mut c.rng)));
                    e.push((i, 0, T::gen_any(&mut c.rng)));
                }
            }
        }
        1 => {
            for i in 0..n {
                for j in 0..n {
                    e.push((i, j, T::zero()));
                }
            }
        }
        2 => {
            // duplicates that cancel exactly on one diagonal entry of a diagonal matrix
            let z = c.rng.int(0, n - 1);
            for i in 0..n {
                e.push((i, i, T::conv(2.0, 0.0)));
                if i == z {
                    e.push((i, i, T::conv(-2.0, 0.0)));
                }
            }
        }
        _ => {
            // zero row among others
            let z = c.rng.int(0, n - 1);
            for i in 0..n {
                for j in 0..n {
                    if i == z {
                        continue;
                    }
                    e.push((i, j, T::gen_any(&mut c.rng)));
                }
            }
            e.push((z, z, T::zero()));
        }
    }
    let p = gen_params(&mut c.rng);
    c.input(format!("n={} kind={} complex={} det={} {:?} {:?} {:?}", n, kind, T::COMPLEX, p.compute_determinant, p.ordering, p.scaling, e));
    let coo = build(n, n, Sym::No, &e, 0);
    let mut s = T::create().unwrap();
    let r = T::factorize(&mut s, &coo, Some(p));
    c.err("factorize singular", r);
    let mut x = NumVector::<T>::new(n);
    c.err("solve after singular", T::solve(&mut s, &mut x, &NumVector::<T>::new(n)));
    let mut x = NumVector::<T>::new(n);
    c.err("compute singular", T::compute(&mut x, &coo, &NumVector::<T>::new(n), Some(p)));
    c.count("singular matrices");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("random sequences of valid and invalid calls on one solver object against a sequential model of which calls are legal and which matrix must be served; plus singular matrices with every option; non-trivial: distinct call sequences / matrices");
    let n = cx.n(6000, 100000);
    cx.run("sequence-real", n, sequence::<f64>);
    cx.run("sequence-complex", n, sequence::<Complex64>);
    cx.run("singular-real", n / 2, singular::<f64>);
    cx.run("singular-complex", n / 2, singular::<Complex64>);
    cx.require("served solves", 1000);
    cx.require("refused solves", 1000);
    cx.require("singular rejections", 300);
    cx.require("refused factorizations", 1000);
    cx.require("singular matrices", 500);
}
