use harness::{Case, Ctx, EPS, no_panic};
use russell_lab::Vector;
use russell_pde::{Metrics, Transfinite2d, Transfinite3d, TransfiniteSamples};
use std::sync::Arc;

/// a smooth map whose restrictions to the faces of the cube define a transfinite map
#[derive(Clone, Debug)]
struct Field {
    nd: usize,
    /// constant and linear part per component
    lin: Vec<[f64; 4]>,
    /// product terms r s, r t, s t, r s t per component
    prod: Vec<[f64; 4]>,
    /// waves per component: amplitude, frequencies, phase
    waves: Vec<Vec<[f64; 5]>>,
}

impl Field {
    /// derivative of order p at u
    fn at(&self, d: usize, p: [usize; 3], u: [f64; 3]) -> f64 {
        let total = p[0] + p[1] + p[2];
        let l = &self.lin[d];
        let mut v = match total {
            0 => l[0] + l[1] * u[0] + l[2] * u[1] + l[3] * u[2],
            1 => l[1 + p.iter().position(|x| *x == 1).unwrap()],
            _ => 0.0,
        };
        let sets = [[1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]];
        for (k, e) in sets.iter().enumerate() {
            let mut t = self.prod[d][k];
            for i in 0..3 {
                t *= match (e[i], p[i]) {
                    (0, 0) => 1.0,
                    (1, 0) => u[i],
                    (1, 1) => 1.0,
                    _ => 0.0,
                };
            }
            v += t;
        }
        for w in &self.waves[d] {
            let t = w[1] * u[0] + w[2] * u[1] + w[3] * u[2] + w[4];
            let f = match total % 4 {
                0 => t.sin(),
                1 => t.cos(),
                2 => -t.sin(),
                _ => -t.cos(),
            };
            v += w[0] * f * w[1].powi(p[0] as i32) * w[2].powi(p[1] as i32) * w[3].powi(p[2] as i32);
        }
        v
    }

    /// derivative of order p of the transfinite interpolant at u
    fn blended(&self, d: usize, p: [usize; 3], u: [f64; 3]) -> f64 {
        let nd = self.nd;
        let w = |order: usize, sign: f64, x: f64| match order {
            0 => 0.5 * (1.0 + sign * x),
            1 => 0.5 * sign,
            _ => 0.0,
        };
        let mut sum = 0.0;
        for set in 1usize..(1 << nd) {
            let dirs: Vec<usize> = (0..nd).filter(|i| set & (1 << i) != 0).collect();
            let sg = if dirs.len() % 2 == 1 { 1.0 } else { -1.0 };
            for corner in 0usize..(1 << dirs.len()) {
                let mut q = p;
                let mut v = u;
                let mut weight = sg;
                for (k, i) in dirs.iter().enumerate() {
                    let s = if corner & (1 << k) != 0 { 1.0 } else { -1.0 };
                    weight *= w(p[*i], s, u[*i]);
                    q[*i] = 0;
                    v[*i] = s;
                }
                if weight != 0.0 {
                    sum += weight * self.at(d, q, v);
                }
            }
        }
        sum
    }
}

fn field(c: &mut Case, nd: usize, kind: usize, scale: f64) -> Field {
    // kind 0: affine; 1: products too; 2: waves too
    let mut f = Field { nd, lin: vec![[0.0; 4]; nd], prod: vec![[0.0; 4]; nd], waves: vec![Vec::new(); nd] };
    for d in 0..nd {
        f.lin[d][0] = scale * 2.0 * c.rng.sym();
        for i in 0..nd {
            f.lin[d][1 + i] = scale * (0.3 * c.rng.sym() + if i == d { 1.0 } else { 0.0 });
        }
        if kind >= 1 {
            f.prod[d][0] = 0.2 * scale * c.rng.sym();
            if nd == 3 {
                for k in 1..4 {
                    f.prod[d][k] = 0.2 * scale * c.rng.sym();
                }
            }
        }
        if kind >= 2 {
            for _ in 0..2 {
                let z = if nd == 3 { 2.0 * c.rng.sym() } else { 0.0 };
                f.waves[d].push([0.1 * scale * c.rng.sym(), 2.0 * c.rng.sym(), 2.0 * c.rng.sym(), z, c.rng.f(0.0, 6.0)]);
            }
        }
    }
    f
}

fn place(c: &mut Case) -> f64 {
    match c.rng.int(0, 5) {
        0 => -1.0,
        1 => 1.0,
        2 => 0.0,
        _ => c.rng.sym(),
    }
}

fn map_2d(f: &Arc<Field>, second: bool) -> Transfinite2d {
    let mk = |order: usize| -> Vec<Box<dyn Fn(&mut Vector, f64) + Send + Sync>> {
        (0..4)
            .map(|i| {
                let f = f.clone();
                let b: Box<dyn Fn(&mut Vector, f64) + Send + Sync> = Box::new(move |x: &mut Vector, t: f64| {
                    let e = if i % 2 == 0 { -1.0 } else { 1.0 };
                    let (u, p) = if i < 2 { ([e, t, 0.0], [0, order, 0]) } else { ([t, e, 0.0], [order, 0, 0]) };
                    for d in 0..2 {
                        x[d] = f.at(d, p, u);
                    }
                });
                b
            })
            .collect()
    };
    Transfinite2d::new(mk(0), mk(1), if second { Some(mk(2)) } else { None }).unwrap()
}

type B1 = Box<dyn Fn(&mut Vector, f64, f64) + Send + Sync>;
type B2 = Box<dyn Fn(&mut Vector, &mut Vector, f64, f64) + Send + Sync>;
type B3 = Box<dyn Fn(&mut Vector, &mut Vector, &mut Vector, f64, f64) + Send + Sync>;

fn on_face(i: usize, a: f64, b: f64) -> ([f64; 3], usize, usize) {
    let e = if i % 2 == 0 { -1.0 } else { 1.0 };
    match i / 2 {
        0 => ([e, a, b], 1, 2),
        1 => ([a, e, b], 0, 2),
        _ => ([a, b, e], 0, 1),
    }
}

fn map_3d(f: &Arc<Field>, second: bool) -> Transfinite3d {
    let order = |i: usize, j: usize| {
        let mut p = [0; 3];
        p[i] += 1;
        p[j] += 1;
        p
    };
    let mut b1: Vec<B1> = Vec::new();
    let mut b2: Vec<B2> = Vec::new();
    let mut b3: Vec<B3> = Vec::new();
    for i in 0..6 {
        let g = f.clone();
        b1.push(Box::new(move |x, a, b| {
            let (u, _, _) = on_face(i, a, b);
            for d in 0..3 {
                x[d] = g.at(d, [0; 3], u);
            }
        }));
        let g = f.clone();
        b2.push(Box::new(move |da, db, a, b| {
            let (u, m, n) = on_face(i, a, b);
            for d in 0..3 {
                let mut p = [0; 3];
                p[m] = 1;
                da[d] = g.at(d, p, u);
                let mut p = [0; 3];
                p[n] = 1;
                db[d] = g.at(d, p, u);
            }
        }));
        let g = f.clone();
        b3.push(Box::new(move |daa, dbb, dab, a, b| {
            let (u, m, n) = on_face(i, a, b);
            for d in 0..3 {
                daa[d] = g.at(d, order(m, m), u);
                dbb[d] = g.at(d, order(n, n), u);
                dab[d] = g.at(d, order(m, n), u);
            }
        }));
    }
    Transfinite3d::new(b1, b2, if second { Some(b3) } else { None }).unwrap()
}

/// the quantities derived from base vectors and their derivatives
fn judge_metrics(c: &mut Case, met: &mut Metrics, g: &[Vec<f64>], cc: &[Vec<Vec<f64>>], homogeneous: bool) {
    let nd = g.len();
    let v = |x: &Vec<f64>| Vector::from(x);
    let r = no_panic(|| {
        if nd == 2 {
            let (a, b, m) = (v(&cc[0][0]), v(&cc[1][1]), v(&cc[0][1]));
            if homogeneous {
                met.calculate_2d(&v(&g[0]), &v(&g[1]), None, None, None)
            } else {
                met.calculate_2d(&v(&g[0]), &v(&g[1]), Some(&a), Some(&b), Some(&m))
            }
        } else {
            let l: Vec<Vector> = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)].iter().map(|(i, j)| v(&cc[*i][*j])).collect();
            if homogeneous {
                met.calculate_3d(&v(&g[0]), &v(&g[1]), &v(&g[2]), None, None, None, None, None, None)
            } else {
                met.calculate_3d(&v(&g[0]), &v(&g[1]), &v(&g[2]), Some(&l[0]), Some(&l[1]), Some(&l[2]), Some(&l[3]), Some(&l[4]), Some(&l[5]))
            }
        }
    });
    let det = match r {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => {
            c.fail(format!("metrics: error: {}", e));
            return;
        }
        Err(p) => {
            c.fail(format!("metrics: panic: {}", p));
            return;
        }
    };
    let jac = if nd == 2 {
        g[0][0] * g[1][1] - g[0][1] * g[1][0]
    } else {
        g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) + g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0])
    };
    let size = g.iter().flatten().fold(0.0, |a: f64, b| a.max(b.abs()));
    let cond = size.powi(nd as i32) / jac.abs();
    if !(cond <= 100.0) {
        // folded map
        c.count("metrics: nearly singular, not judged");
        return;
    }
    let k2 = cond * cond;
    let t = 1e3 * EPS * k2;
    c.close("determinant", det, jac * jac, t * jac * jac * 10.0);
    for i in 0..nd {
        for d in 0..nd {
            c.check(met.g_cov[i][d] == g[i][d], || format!("covariant vector {}: component {} is {} instead of {}", i, d, met.g_cov[i][d], g[i][d]));
        }
    }
    for i in 0..nd {
        for j in 0..nd {
            let dot = |a: &Vector, b: &Vector| (0..nd).map(|d| a[d] * b[d]).sum::<f64>();
            let delta = if i == j { 1.0 } else { 0.0 };
            c.close("covariant metric", met.g_mat.get(i, j), dot(&met.g_cov[i], &met.g_cov[j]), 16.0 * EPS * size * size);
            c.close("reciprocal vectors", dot(&met.g_ctr[i], &met.g_cov[j]), delta, t);
            let p: f64 = (0..nd).map(|k| met.gg_mat.get(i, k) * met.g_mat.get(k, j)).sum();
            c.close("inverse metric", p, delta, t);
            c.close("inverse metric from reciprocal vectors", met.gg_mat.get(i, j), dot(&met.g_ctr[i], &met.g_ctr[j]), t * cond / (size * size));
        }
    }
    if homogeneous {
        c.count("metrics: homogeneous");
        return;
    }
    let cs = cc.iter().flatten().flatten().fold(0.0, |a: f64, b| a.max(b.abs()));
    for i in 0..nd {
        for j in 0..nd {
            for k in 0..nd {
                let (a, b) = (met.christoffel_second[k][i][j], met.christoffel_second[k][j][i]);
                c.check((a - b).abs() <= t * cs / size, || format!("connection coefficients {} {} {}: {} and {}", k, i, j, a, b));
            }
            for d in 0..nd {
                let s: f64 = (0..nd).map(|k| met.christoffel_second[k][i][j] * g[k][d]).sum();
                c.close("derivative of base vectors", s, cc[i][j][d], t * cs + 1e-300);
            }
        }
    }
    let ell: Vec<f64> = (0..nd).map(|k| met.ell_coefficient_for_laplacian(k)).collect();
    // coordinates have no Laplacian
    let big = cs * cond * cond / (size * size);
    for d in 0..nd {
        let mut lap = 0.0;
        for i in 0..nd {
            for j in 0..nd {
                lap += met.gg_mat.get(i, j) * cc[i][j][d];
            }
            lap -= ell[i] * g[i][d];
        }
        c.close("Laplacian of a coordinate", lap, 0.0, t * big + 1e-300);
        // squares of coordinates (measured from this point) have Laplacian 2
        for e in 0..=d {
            let mut lap = 0.0;
            for i in 0..nd {
                for j in 0..nd {
                    lap += met.gg_mat.get(i, j) * (g[i][d] * g[j][e] + g[j][d] * g[i][e]);
                }
            }
            c.close("Laplacian of a product of coordinates", lap, if d == e { 2.0 } else { 0.0 }, t * cond);
        }
    }
    c.count("metrics: with connection coefficients");
}

fn two_d(c: &mut Case) {
    let kind = c.rng.int(0, 2);
    let scale = c.rng.mag(-1.5, 2.0).abs();
    let f = Arc::new(field(c, 2, kind, scale));
    let second = kind == 2 || c.rng.bool();
    c.input(format!("2d map kind={} second={} {:?}", kind, second, f));
    let mut map = map_2d(&f, second);
    let size = 6.0 * scale;
    let corners = {
        let (a, b, p, q) = map.get_corners();
        [a.clone(), b.clone(), p.clone(), q.clone()]
    };
    for (p, (r, s)) in corners.iter().zip([(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]) {
        for d in 0..2 {
            c.close("corner", p[d], f.at(d, [0; 3], [r, s, 0.0]), 1e-14 * size);
        }
    }
    let mut met = Metrics::new(2, false);
    let mut hom = Metrics::new(2, true);
    for _ in 0..6 {
        let (r, s) = (place(c), place(c));
        let u = [r, s, 0.0];
        c.more(format!("at ({}, {})", r, s));
        let mut x = Vector::from(&[f64::NAN, f64::NAN]);
        let (mut dr, mut ds) = (x.clone(), x.clone());
        let (mut drr, mut dss, mut drs) = (x.clone(), x.clone(), x.clone());
        map.point(&mut x, r, s);
        let border = r.abs() == 1.0 || s.abs() == 1.0;
        for d in 0..2 {
            c.close("point", x[d], f.blended(d, [0; 3], u), 1e-14 * size);
            if border {
                c.close("boundary point", x[d], f.at(d, [0; 3], u), 1e-14 * size);
            }
        }
        if border {
            c.count("2d boundary point");
        }
        let mut y = Vector::from(&[f64::NAN, f64::NAN]);
        if c.rng.chance(0.3) {
            map.point_and_derivs(&mut y, &mut dr, &mut ds, None, None, None, r, s);
        } else {
            map.point_and_derivs(&mut y, &mut dr, &mut ds, Some(&mut drr), Some(&mut dss), Some(&mut drs), r, s);
            for d in 0..2 {
                c.close("second derivative rr", drr[d], f.blended(d, [2, 0, 0], u), 1e-13 * size);
                c.close("second derivative ss", dss[d], f.blended(d, [0, 2, 0], u), 1e-13 * size);
                c.close("second derivative rs", drs[d], f.blended(d, [1, 1, 0], u), 1e-13 * size);
            }
            let g = vec![dr.as_data().to_vec(), ds.as_data().to_vec()];
            let cc = vec![
                vec![drr.as_data().to_vec(), drs.as_data().to_vec()],
                vec![drs.as_data().to_vec(), dss.as_data().to_vec()],
            ];
            judge_metrics(c, &mut met, &g, &cc, false);
            judge_metrics(c, &mut hom, &g, &cc, true);
            c.count("2d second derivatives");
        }
        for d in 0..2 {
            c.close("point with derivatives", y[d], x[d], 1e-14 * size);
            c.close("derivative r", dr[d], f.blended(d, [1, 0, 0], u), 1e-13 * size);
            c.close("derivative s", ds[d], f.blended(d, [0, 1, 0], u), 1e-13 * size);
        }
        c.count("2d points");
        if c.failed() {
            return;
        }
    }
    // triangles
    let (nr, ns) = (c.rng.int(2, 6), c.rng.int(2, 6));
    let (cr, cs) = (c.rng.bool(), c.rng.bool());
    c.more(format!("triangles nr={} ns={} {} {}", nr, ns, cr, cs));
    let (xx, yy, tri) = map.triangulate(nr, ns, cr, cs);
    if !c.check(xx.len() == nr * ns && yy.len() == nr * ns && tri.len() == 2 * (nr - 1) * (ns - 1), || format!("{} {} points, {} triangles", xx.len(), yy.len(), tri.len())) {
        return;
    }
    let pi = std::f64::consts::PI;
    let node = |i: usize, n: usize, cgl: bool| {
        if cgl {
            -(pi * i as f64 / (n as f64 - 1.0)).cos()
        } else {
            -1.0 + 2.0 * i as f64 / (n as f64 - 1.0)
        }
    };
    let mut least = f64::INFINITY;
    for j in 0..ns {
        for i in 0..nr {
            let u = [node(i, nr, cr), node(j, ns, cs), 0.0];
            c.close("triangle vertex", xx[i + j * nr], f.blended(0, [0; 3], u), 1e-13 * size);
            c.close("triangle vertex", yy[i + j * nr], f.blended(1, [0; 3], u), 1e-13 * size);
            let g = |d: usize, k: usize| f.blended(d, [1 - k, k, 0], u);
            least = least.min(g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0));
        }
    }
    let mut area = 0.0;
    for t in &tri {
        if !c.check(t.len() == 3 && t.iter().all(|m| *m < nr * ns), || format!("triangle {:?}", t)) {
            return;
        }
        let a = 0.5 * ((xx[t[1]] - xx[t[0]]) * (yy[t[2]] - yy[t[0]]) - (xx[t[2]] - xx[t[0]]) * (yy[t[1]] - yy[t[0]]));
        c.check(a > 0.0 || least < 0.4 * scale * scale, || format!("triangle {:?} has area {}", t, a));
        area += a;
    }
    // area of the boundary polygon
    let mut ring: Vec<usize> = (0..nr).collect();
    ring.extend((1..ns).map(|j| nr - 1 + j * nr));
    ring.extend((0..nr - 1).rev().map(|i| i + (ns - 1) * nr));
    ring.extend((1..ns - 1).rev().map(|j| j * nr));
    let mut poly = 0.0;
    for k in 0..ring.len() {
        let (a, b) = (ring[k], ring[(k + 1) % ring.len()]);
        poly += 0.5 * (xx[a] * yy[b] - xx[b] * yy[a]);
    }
    c.close("area of the triangles", area, poly, 1e-11 * size * size);
    c.count("triangulations");
}

fn three_d(c: &mut Case) {
    let kind = *c.rng.pick(&[0, 1, 2, 2]);
    let scale = c.rng.mag(-1.0, 1.5).abs();
    let f = Arc::new(field(c, 3, kind, scale));
    let second = kind > 0 || c.rng.bool();
    c.input(format!("3d map kind={} second={} {:?}", kind, second, f));
    let mut map = map_3d(&f, second);
    let size = 8.0 * scale;
    let corners: Vec<Vector> = {
        let k = map.get_corners();
        [k.0, k.1, k.2, k.3, k.4, k.5, k.6, k.7].iter().map(|p| (*p).clone()).collect()
    };
    let rs = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)];
    for k in 0..8 {
        let u = [rs[k % 4].0, rs[k % 4].1, if k < 4 { -1.0 } else { 1.0 }];
        for d in 0..3 {
            c.close("corner", corners[k][d], f.at(d, [0; 3], u), 1e-14 * size);
        }
    }
    let mut met = Metrics::new(3, false);
    let mut hom = Metrics::new(3, true);
    for _ in 0..6 {
        let u = [place(c), place(c), place(c)];
        c.more(format!("at {:?}", u));
        let nan = Vector::from(&[f64::NAN; 3]);
        let mut x = nan.clone();
        map.point(&mut x, u[0], u[1], u[2]);
        let border = u.iter().any(|a| a.abs() == 1.0);
        for d in 0..3 {
            c.close("point", x[d], f.blended(d, [0; 3], u), 1e-14 * size);
            if border {
                c.close("boundary point", x[d], f.at(d, [0; 3], u), 1e-14 * size);
            }
        }
        if border {
            c.count("3d boundary point");
        }
        let mut y = nan.clone();
        let (mut d0, mut d1, mut d2) = (nan.clone(), nan.clone(), nan.clone());
        if c.rng.chance(0.3) {
            map.point_and_derivs(&mut y, &mut d0, &mut d1, &mut d2, None, None, None, None, None, None, u[0], u[1], u[2]);
        } else {
            let mut l: Vec<Vector> = vec![nan.clone(); 6];
            let mut it = l.iter_mut();
            let mut nx = || it.next();
            let (a, b, e, p, q, r) = (nx(), nx(), nx(), nx(), nx(), nx());
            map.point_and_derivs(&mut y, &mut d0, &mut d1, &mut d2, a, b, e, p, q, r, u[0], u[1], u[2]);
            let orders = [[2, 0, 0], [0, 2, 0], [0, 0, 2], [1, 1, 0], [1, 0, 1], [0, 1, 1]];
            for k in 0..6 {
                for d in 0..3 {
                    c.close("second derivative", l[k][d], f.blended(d, orders[k], u), 1e-13 * size);
                }
            }
            let g: Vec<Vec<f64>> = [&d0, &d1, &d2].iter().map(|v| v.as_data().to_vec()).collect();
            let pos = [[0, 3, 4], [3, 1, 5], [4, 5, 2]];
            let cc: Vec<Vec<Vec<f64>>> = pos.iter().map(|row| row.iter().map(|k| l[*k].as_data().to_vec()).collect()).collect();
            judge_metrics(c, &mut met, &g, &cc, false);
            judge_metrics(c, &mut hom, &g, &cc, true);
            c.count("3d second derivatives");
        }
        for d in 0..3 {
            c.close("point with derivatives", y[d], x[d], 1e-14 * size);
            c.close("derivative r", d0[d], f.blended(d, [1, 0, 0], u), 1e-13 * size);
            c.close("derivative s", d1[d], f.blended(d, [0, 1, 0], u), 1e-13 * size);
            c.close("derivative t", d2[d], f.blended(d, [0, 0, 1], u), 1e-13 * size);
        }
        c.count("3d points");
        if c.failed() {
            return;
        }
    }
}

/// ready-made maps against their geometry
fn samples(c: &mut Case) {
    let kind = c.rng.int(0, 5);
    let pi = std::f64::consts::PI;
    let a = c.rng.mag(-1.0, 1.0).abs();
    let b = a * c.rng.f(1.1, 4.0);
    let h = a * c.rng.mag(-1.0, 1.0).abs();
    let q: Vec<[f64; 2]> = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)].iter().map(|(x, y)| [a * (x + 0.6 * c.rng.sym()), a * (y + 0.6 * c.rng.sym())]).collect();
    c.input(format!("sample {} a={} b={} h={} {:?}", kind, a, b, h, q));
    let corners = q.clone();
    let geo = move |u: [f64; 3]| -> [f64; 3] {
        let (r, s, t) = (u[0], u[1], u[2]);
        match kind {
            0 => {
                let w = [(1.0 - r) * (1.0 - s), (1.0 + r) * (1.0 - s), (1.0 + r) * (1.0 + s), (1.0 - r) * (1.0 + s)];
                let f = |d: usize| (0..4).map(|k| 0.25 * w[k] * corners[k][d]).sum::<f64>();
                [f(0), f(1), 0.0]
            }
            1 | 2 => {
                let rho = a + (b - a) * 0.5 * (1.0 + r);
                let th = (1.0 + s) * if kind == 1 { pi / 4.0 } else { pi / 2.0 };
                [rho * th.cos(), rho * th.sin(), 0.0]
            }
            3 => {
                let th = (1.0 + s) * pi / 4.0;
                let (u, v) = (0.5 * (1.0 - r), 0.5 * (1.0 + r));
                [u * a * th.cos() + v * b * 0.5 * (1.0 - s), u * a * th.sin() + v * b * 0.5 * (1.0 + s), 0.0]
            }
            4 => [0.5 * (1.0 + r) * a, 0.5 * (1.0 + s) * b, 0.5 * (1.0 + t) * h],
            _ => {
                let rho = a + (b - a) * 0.5 * (1.0 + s);
                let th = (1.0 + t) * pi / 4.0;
                [0.5 * (1.0 + r) * h, rho * th.cos(), rho * th.sin()]
            }
        }
    };
    let size = a + b + h;
    // numerical derivatives of the geometry
    let step = 2e-3;
    let e = |k: usize, v: f64, u: [f64; 3]| {
        let mut w = u;
        w[k] += v * step;
        w
    };
    let d1 = |k: usize, d: usize, u: [f64; 3]| (8.0 * (geo(e(k, 1.0, u))[d] - geo(e(k, -1.0, u))[d]) - (geo(e(k, 2.0, u))[d] - geo(e(k, -2.0, u))[d])) / (12.0 * step);
    let d2 = |k: usize, l: usize, d: usize, u: [f64; 3]| {
        let w = |v: f64| d1(k, d, e(l, v, u));
        (8.0 * (w(1.0) - w(-1.0)) - (w(2.0) - w(-2.0))) / (12.0 * step)
    };
    let (t1, t2) = (1e-9 * size, 1e-6 * size);
    for _ in 0..4 {
        let u = [place(c), place(c), if kind >= 4 { place(c) } else { 0.0 }];
        c.more(format!("at {:?}", u));
        if kind < 4 {
            let mut map = match kind {
                0 => TransfiniteSamples::quadrilateral_2d(&q[0], &q[1], &q[2], &q[3]),
                1 => TransfiniteSamples::quarter_ring_2d(a, b),
                2 => TransfiniteSamples::half_ring_2d(a, b),
                _ => TransfiniteSamples::quarter_perforated_lozenge_2d(a, b),
            };
            let mut l: Vec<Vector> = vec![Vector::from(&[f64::NAN; 2]); 6];
            let mut p = Vector::new(2);
            map.point(&mut p, u[0], u[1]);
            {
                let mut it = l.iter_mut();
                let mut nx = || it.next().unwrap();
                let (x, dr, ds, drr, dss, drs) = (nx(), nx(), nx(), nx(), nx(), nx());
                map.point_and_derivs(x, dr, ds, Some(drr), Some(dss), Some(drs), u[0], u[1]);
            }
            for d in 0..2 {
                c.close("sample point", p[d], geo(u)[d], 1e-13 * size);
                c.close("sample point", l[0][d], geo(u)[d], 1e-13 * size);
                c.close("sample derivative", l[1][d], d1(0, d, u), t1);
                c.close("sample derivative", l[2][d], d1(1, d, u), t1);
                c.close("sample second derivative", l[3][d], d2(0, 0, d, u), t2);
                c.close("sample second derivative", l[4][d], d2(1, 1, d, u), t2);
                c.close("sample second derivative", l[5][d], d2(0, 1, d, u), t2);
            }
        } else {
            let mut map = if kind == 4 { TransfiniteSamples::brick_3d(a, b, h) } else { TransfiniteSamples::quarter_ring_3d(a, b, h) };
            let mut l: Vec<Vector> = vec![Vector::from(&[f64::NAN; 3]); 10];
            let mut p = Vector::new(3);
            map.point(&mut p, u[0], u[1], u[2]);
            {
                let mut it = l.iter_mut();
                let mut nx = || it.next().unwrap();
                let (x, dr, ds, dt) = (nx(), nx(), nx(), nx());
                let (s1, s2, s3, s4, s5, s6) = (nx(), nx(), nx(), nx(), nx(), nx());
                map.point_and_derivs(x, dr, ds, dt, Some(s1), Some(s2), Some(s3), Some(s4), Some(s5), Some(s6), u[0], u[1], u[2]);
            }
            for d in 0..3 {
                c.close("sample point", p[d], geo(u)[d], 1e-13 * size);
                c.close("sample point", l[0][d], geo(u)[d], 1e-13 * size);
                for k in 0..3 {
                    c.close("sample derivative", l[1 + k][d], d1(k, d, u), t1);
                }
                for (i, (k, m)) in [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)].iter().enumerate() {
                    c.close("sample second derivative", l[4 + i][d], d2(*k, *m, d, u), t2);
                }
            }
        }
        c.count(["quadrilateral", "quarter ring", "half ring", "lozenge", "brick", "ring in three dimensions"][kind]);
    }
}

/// metrics of arbitrary base vectors, and what is refused
fn metrics(c: &mut Case) {
    let nd = c.rng.int(2, 3);
    let size = c.rng.mag(-1.0, 3.0).abs();
    let cs = c.rng.mag(-1.0, 1.0).abs() * size;
    let g: Vec<Vec<f64>> = (0..nd).map(|i| (0..nd).map(|j| size * (0.4 * c.rng.sym() + if i == j { 1.0 } else { 0.0 })).collect()).collect();
    let mut cc: Vec<Vec<Vec<f64>>> = vec![vec![Vec::new(); nd]; nd];
    for i in 0..nd {
        for j in 0..=i {
            let v: Vec<f64> = (0..nd).map(|_| cs * c.rng.sym()).collect();
            cc[i][j] = v.clone();
            cc[j][i] = v;
        }
    }
    c.input(format!("metrics {:?} {:?}", g, cc));
    let mut met = Metrics::new(nd, false);
    judge_metrics(c, &mut met, &g, &cc, false);
    let v = |x: &Vec<f64>| Vector::from(x);
    // refused: missing second derivatives, wrong dimension, base vectors that depend on each other
    let mut bad = Metrics::new(nd, false);
    let z2 = Vector::new(2);
    let z3 = Vector::new(3);
    let miss = c.rng.int(0, 5);
    let o = |k: usize| if k == miss { None } else { Some(if nd == 2 { &z2 } else { &z3 }) };
    if nd == 2 {
        if miss < 3 {
            c.err("second derivative missing", no_panic(|| bad.calculate_2d(&v(&g[0]), &v(&g[1]), o(0), o(1), o(2))).unwrap_or(Ok(0.0)));
        }
        c.err("three-dimensional call", no_panic(|| bad.calculate_3d(&z3, &z3, &z3, None, None, None, None, None, None)).unwrap_or(Ok(0.0)));
        c.err("wrong dimension", no_panic(|| bad.calculate_2d(&v(&g[0]), &z3, Some(&z2), Some(&z2), Some(&z2))).unwrap_or(Ok(0.0)));
        c.err("zero base vector", no_panic(|| bad.calculate_2d(&v(&g[0]), &z2, Some(&z2), Some(&z2), Some(&z2))).unwrap_or(Ok(0.0)));
    } else {
        c.err("second derivative missing", no_panic(|| bad.calculate_3d(&v(&g[0]), &v(&g[1]), &v(&g[2]), o(0), o(1), o(2), o(3), o(4), o(5))).unwrap_or(Ok(0.0)));
        c.err("two-dimensional call", no_panic(|| bad.calculate_2d(&z2, &z2, None, None, None)).unwrap_or(Ok(0.0)));
        c.err("wrong dimension", no_panic(|| bad.calculate_3d(&v(&g[0]), &v(&g[1]), &z2, Some(&z3), Some(&z3), Some(&z3), Some(&z3), Some(&z3), Some(&z3))).unwrap_or(Ok(0.0)));
        c.err("zero base vector", no_panic(|| bad.calculate_3d(&v(&g[0]), &v(&g[1]), &z3, Some(&z3), Some(&z3), Some(&z3), Some(&z3), Some(&z3), Some(&z3))).unwrap_or(Ok(0.0)));
    }
    // usable afterwards
    judge_metrics(c, &mut bad, &g, &cc, false);
    c.count("metrics: refused");
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a map made of the restrictions of a smooth field to the sides of the square or cube, visited at several places");
    cx.level("exploration");
    cx.assume("maps made without second derivatives of the sides have straight sides (parallelograms in three dimensions)");
    let n = cx.n(6000, 100000);
    cx.run("two dimensions", n, two_d);
    let n = cx.n(3000, 50000);
    cx.run("three dimensions", n, three_d);
    let n = cx.n(4000, 60000);
    cx.run("samples", n, samples);
    let n = cx.n(6000, 100000);
    cx.run("metrics", n, metrics);
    cx.require("2d boundary point", 1000);
    cx.require("3d boundary point", 1000);
    cx.require("2d second derivatives", 1000);
    cx.require("3d second derivatives", 1000);
    cx.require("triangulations", 500);
    cx.require("ring in three dimensions", 100);
    cx.require("metrics: with connection coefficients", 1000);
    cx.require("metrics: homogeneous", 1000);
}
