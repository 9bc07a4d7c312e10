use harness::{Case, Ctx, EPS, no_panic};
use russell_stat::*;

fn data(c: &mut Case, n: usize) -> Vec<f64> {
    let mode = c.rng.int(0, 6);
    let offset = c.rng.mag(0.0, 9.0);
    let scale = c.rng.mag(-6.0, 6.0);
    let same = c.rng.f(-3.0, 3.0);
    (0..n)
        .map(|_| match mode {
            0 => c.rng.int(0, 6) as f64 - 3.0,
            1 => offset + c.rng.sym(),
            2 => c.rng.sym() * scale,
            3 => same,
            4 => {
                if c.rng.chance(0.1) {
                    1000.0 * c.rng.sym()
                } else {
                    c.rng.sym()
                }
            }
            5 => offset + c.rng.int(0, 5) as f64,
            _ => c.rng.normal(),
        })
        .collect()
}

/// Exact-ish sums: pairwise in two words
fn sum2(v: impl Iterator<Item = f64>) -> (f64, f64) {
    let (mut s, mut e) = (0.0, 0.0);
    for x in v {
        let t: f64 = s + x;
        let z = t - s;
        e += (s - (t - z)) + (x - z);
        s = t;
    }
    (s, e)
}

fn reference(v: &[f64]) -> (f64, f64) {
    let n = v.len() as f64;
    let (s, e) = sum2(v.iter().copied());
    let mean = (s + e) / n;
    let (c1, c2) = sum2(v.iter().map(|x| x - mean));
    let corr = (c1 + c2) / n;
    let (a, b) = sum2(v.iter().map(|x| (x - mean - corr) * (x - mean - corr)));
    (mean + corr, ((a + b) / (n - 1.0)).max(0.0).sqrt())
}

fn linear_quantile(sorted: &[f64], q: f64) -> f64 {
    let pos = q * (sorted.len() - 1) as f64;
    let k = (pos as usize).min(sorted.len() - 1);
    let w = pos - k as f64;
    if k + 1 < sorted.len() {
        (1.0 - w) * sorted[k] + w * sorted[k + 1]
    } else {
        sorted[k]
    }
}

fn basic(c: &mut Case, v: &[f64], what: &str, s: &Statistics) {
    let n = v.len();
    if n == 0 {
        let zero = s.min == 0.0 && s.max == 0.0 && s.mean == 0.0 && s.std_dev == 0.0;
        c.check(zero, || format!("{}: statistics of nothing", what));
        return;
    }
    let lo = v.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    c.check(s.min == lo && s.max == hi, || format!("{}: limits {} {}, expected {} {}", what, s.min, s.max, lo, hi));
    let big = lo.abs().max(hi.abs());
    if n == 1 {
        c.check(s.mean == v[0] && s.std_dev == 0.0, || format!("{}: mean {} deviation {}", what, s.mean, s.std_dev));
        return;
    }
    let (mean, dev) = reference(v);
    let slack = 4.0 * EPS * n as f64 * big;
    c.close("mean", s.mean, mean, slack);
    // the compensated formula is insensitive to the rounding of the mean except for the cancellation of its square
    let tol = 1e-11 * dev + 2.0 * slack;
    c.close("standard deviation", s.std_dev, dev, tol);
    c.count("statistics");
}

fn one(c: &mut Case) {
    let n = match c.rng.int(0, 9) {
        0 => c.rng.int(0, 2),
        1 => {
            let top = if c.rng.chance(0.1) { 4000 } else { 300 };
            c.rng.int(100, top)
        }
        _ => c.rng.int(2, 40),
    };
    let v = data(c, n);
    c.input(format!("data {:?}", v));
    let s = Statistics::new(&v);
    basic(c, &v, "f64", &s);
    // another order
    let mut w = v.clone();
    c.rng.shuffle(&mut w);
    let s2 = Statistics::new(&w);
    basic(c, &v, "shuffled", &s2);
    // printed values
    let text = format!("{}", s);
    let vals: Vec<f64> = text.lines().filter_map(|l| l.split('=').nth(1)).filter_map(|t| t.trim().parse().ok()).collect();
    c.check(vals == vec![s.min, s.max, s.mean, s.std_dev], || format!("statistics printed as {}", text));
    // integers
    let k: Vec<i32> = (0..n).map(|_| c.rng.int(0, 40) as i32 - 20).collect();
    let kf: Vec<f64> = k.iter().map(|x| *x as f64).collect();
    c.input(format!("data {:?}", k));
    basic(c, &kf, "i32", &Statistics::new(&k));
    let b: Vec<u8> = k.iter().map(|x| (*x + 20) as u8).collect();
    let bf: Vec<f64> = b.iter().map(|x| *x as f64).collect();
    basic(c, &bf, "u8", &Statistics::new(&b));
    if n == 0 {
        let r = no_panic(|| quantile(&v, 0.5));
        c.err("quantile of nothing", r);
        let mut e: Vec<f64> = vec![];
        let r = no_panic(|| quartiles(&mut e));
        c.err("quartiles of nothing", r);
        return;
    }
    // quantiles
    let mut sorted = v.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let tol = 16.0 * EPS * (sorted[0].abs() + sorted[n - 1].abs()) * n as f64;
    c.input(format!("data {:?}", v));
    let mut last = f64::NEG_INFINITY;
    for m in 0..6 {
        let q = match m {
            0 => 0.0,
            5 => 1.0,
            _ => (m as f64 - 1.0 + c.rng.unit()) / 4.0,
        };
        let x = quantile(&sorted, q);
        c.close("quantile", x, linear_quantile(&sorted, q), tol);
        c.check(x >= last - tol, || format!("quantile {} decreases", q));
        last = x;
    }
    c.check(quantile(&sorted, 0.0) == sorted[0] && quantile(&sorted, 1.0) == sorted[n - 1], || "extreme quantiles".to_string());
    for q in [-0.1, 1.0000001, -1e-12] {
        let r = no_panic(|| quantile(&sorted, q));
        c.err("quantile outside the range", r);
    }
    let mut w1 = w.clone();
    let (q1, q2, q3) = quartiles(&mut w1);
    let want = [linear_quantile(&sorted, 0.25), linear_quantile(&sorted, 0.5), linear_quantile(&sorted, 0.75)];
    c.close_slice("quartiles", &[q1, q2, q3], &want, tol);
    c.check(w1 == sorted, || format!("quartiles leaves {:?}", w1));
    let mut w2 = w.clone();
    let iqr = inter_quartile_range(&mut w2);
    c.close("inter-quartile range", iqr, want[2] - want[0], 2.0 * tol);
    let mut kk = k.clone();
    let mut ks = kf.clone();
    ks.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (a1, a2, a3) = quartiles(&mut kk);
    let kw = [linear_quantile(&ks, 0.25), linear_quantile(&ks, 0.5), linear_quantile(&ks, 0.75)];
    c.close_slice("quartiles of integers", &[a1, a2, a3], &kw, 1e-12);
    c.count("quantile sets");
    // outliers
    let (lo, hi) = (want[0] - 1.5 * (want[2] - want[0]), want[2] + 1.5 * (want[2] - want[0]));
    let out = outliers(&w);
    let mut got: Vec<usize> = out.iter().map(|o| o.0).collect();
    got.sort();
    got.dedup();
    c.check(got.len() == out.len(), || format!("repeated outliers {:?}", out));
    for (i, x) in &out {
        c.check(*i < n && w[*i] == *x, || format!("outlier {:?} is not an entry of {:?}", (i, x), w));
    }
    for i in 0..n {
        let gap = (w[i] - lo).abs().min((w[i] - hi).abs());
        if gap > 4.0 * tol {
            let is = w[i] < lo || w[i] > hi;
            c.check(got.contains(&i) == is, || format!("outliers of {:?}: {:?}, entry {} limits {} {}", w, out, i, lo, hi));
            if is {
                c.count("outliers");
            }
        }
    }
    // small integers with exact limits
    let k: Vec<i64> = (0..n).map(|_| if c.rng.chance(0.1) { c.rng.int(0, 80) as i64 - 40 } else { c.rng.int(0, 6) as i64 }).collect();
    let mut ks: Vec<f64> = k.iter().map(|x| *x as f64).collect();
    ks.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (k1, k3) = (linear_quantile(&ks, 0.25), linear_quantile(&ks, 0.75));
    let (lo, hi) = (k1 - 1.5 * (k3 - k1), k3 + 1.5 * (k3 - k1));
    c.input(format!("data {:?}", k));
    let mut got = outliers(&k);
    got.sort();
    let want: Vec<(usize, i64)> = (0..n).filter(|i| (k[*i] as f64) < lo || (k[*i] as f64) > hi).map(|i| (i, k[i])).collect();
    c.check(got == want, || format!("outliers {:?}, expected {:?}", got, want));
}

fn hist(c: &mut Case) {
    let nbin = if c.rng.chance(0.02) { c.rng.int(13, 150) } else { c.rng.int(1, 12) };
    let mut st = vec![c.rng.int(0, 10) as f64 - 5.0];
    let fine = c.rng.bool();
    for _ in 0..nbin {
        let d = if fine { c.rng.f(1e-9, 2.0) } else { c.rng.int(1, 3) as f64 };
        let x = st.last().unwrap() + d;
        st.push(x);
    }
    let r = Histogram::<f64>::new(&st[..1]);
    c.err("a histogram with one station", r);
    let r = Histogram::<i32>::new(&[]);
    c.err("a histogram without stations", r);
    let ints: Vec<i32> = st.iter().map(|x| x.floor() as i32).collect();
    let use_int = !fine;
    c.input(format!("stations {:?}", st));
    let (mut h, mut hi) = match (Histogram::new(&st), Histogram::new(&ints)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            c.fail("cannot create the histogram".to_string());
            return;
        }
    };
    let mut want = vec![0usize; nbin];
    let mut want_i = vec![0usize; nbin];
    let rounds = c.rng.int(1, 5);
    for _ in 0..rounds {
        if c.rng.chance(0.25) {
            h.reset();
            hi.reset();
            want = vec![0; nbin];
            want_i = vec![0; nbin];
            c.count("histogram resets");
        }
        let n = if c.rng.chance(0.02) { c.rng.int(41, 2000) } else { c.rng.int(0, 40) };
        let mut x: Vec<f64> = Vec::new();
        for _ in 0..n {
            let k = c.rng.int(0, nbin);
            let y = match c.rng.int(0, 4) {
                0 => st[k],
                1 => st[k] - 1e-12,
                2 => st[0] + (st[nbin] - st[0]) * c.rng.f(-0.2, 1.2),
                3 => *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300]),
                _ => st[k] + 1e-12,
            };
            x.push(y);
        }
        c.note(format!("count {:?}", x));
        h.count(&x);
        for y in &x {
            for b in 0..nbin {
                if *y >= st[b] && *y < st[b + 1] {
                    want[b] += 1;
                }
            }
        }
        if use_int {
            let z: Vec<i32> = x.iter().filter(|y| y.abs() < 1e6).map(|y| y.floor() as i32).collect();
            hi.count(&z);
            for y in &z {
                for b in 0..nbin {
                    if *y >= ints[b] && *y < ints[b + 1] {
                        want_i[b] += 1;
                    }
                }
            }
            c.check(hi.get_counts() == &want_i, || format!("integer counts {:?}, expected {:?}", hi.get_counts(), want_i));
        }
        c.check(h.get_counts() == &want, || format!("counts {:?}, expected {:?}, stations {:?}", h.get_counts(), want, st));
        c.count_n("counted values", n);
    }
    // printed counts
    let total: usize = want.iter().sum();
    let len = c.rng.int(1, 40);
    h.set_bar_char('*').set_bar_max_len(len);
    let text = format!("{:.3}", h);
    if total == 0 {
        c.check(text.trim() == "zero data", || format!("empty histogram printed as {}", text));
        return;
    }
    let lines: Vec<&str> = text.lines().collect();
    let most = *want.iter().max().unwrap();
    if c.check(lines.len() == nbin + 1, || format!("histogram printed as\n{}", text)) {
        for b in 0..nbin {
            let tail = lines[b].split('|').nth(1).unwrap_or("");
            let num: usize = tail.split_whitespace().next().and_then(|t| t.parse().ok()).unwrap_or(usize::MAX);
            let stars = tail.chars().filter(|ch| *ch == '*').count() as f64;
            let exact = want[b] as f64 * len as f64 / most as f64;
            c.check(num == want[b], || format!("bin {} printed as {}", b, lines[b]));
            c.check(stars <= exact + 1e-9 && stars > exact - 1.0 - 1e-9, || format!("bar of bin {} printed as {}", b, lines[b]));
            let range = lines[b].split('|').next().unwrap_or("").replace(['[', ')', ','], " ");
            let ends: Vec<f64> = range.split_whitespace().filter_map(|t| t.parse().ok()).collect();
            let good = ends.len() == 2 && (ends[0] - st[b]).abs() <= 0.00051 && (ends[1] - st[b + 1]).abs() <= 0.00051;
            c.check(good, || format!("range of bin {} printed as {}", b, lines[b]));
        }
        let sum: usize = lines[nbin].split('=').nth(1).and_then(|t| t.trim().parse().ok()).unwrap_or(usize::MAX);
        c.check(sum == total, || format!("sum printed as {}", lines[nbin]));
        c.count("printed histograms");
    }
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a case computes the statistics, quantiles, outliers of a data set (and of its shuffle and of integers), and drives a histogram through counting and resetting");
    cx.require("statistics", 1000);
    cx.require("quantile sets", 1000);
    cx.require("outliers", 100);
    cx.require("counted values", 1000);
    cx.require("histogram resets", 50);
    cx.require("printed histograms", 100);
    let n = cx.n(40000, 400000);
    cx.run("descriptive", n, one);
    cx.run("histogram", n, hist);
}
