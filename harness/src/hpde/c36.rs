use harness::{Case, Ctx, EPS, no_panic};
use russell_pde::{EquationHandler, Grid1d, Grid2d, Side};

fn axis(c: &mut Case, n: usize) -> (Vec<f64>, usize) {
    // 0: uniform from limits; 1: uniform from coordinates; 2: arbitrary; 3: Chebyshev
    let kind = c.rng.int(0, 2);
    let l = c.rng.mag(-4.0, 5.0).abs();
    let a = match c.rng.int(0, 3) {
        0 => 0.0,
        1 => -0.5 * l,
        2 => l * c.rng.mag(0.0, 5.0),
        _ => l * c.rng.mag(-1.0, 1.0),
    };
    let xx: Vec<f64> = if kind == 2 {
        let mut x = a;
        (0..n)
            .map(|i| {
                if i > 0 {
                    x += l * c.rng.f(0.1, 1.0);
                }
                x
            })
            .collect()
    } else {
        let b = a + l;
        let h = (b - a) / (n as f64 - 1.0);
        (0..n).map(|i| a + i as f64 * h).collect()
    };
    (xx, kind)
}

fn increasing(x: &[f64]) -> bool {
    x.windows(2).all(|w| w[1] > w[0])
}

fn spread(x: &[f64]) -> f64 {
    let h = x[1] - x[0];
    x.windows(2).fold(0.0, |a: f64, w| a.max((w[1] - w[0] - h).abs()))
}

fn one_d(c: &mut Case) {
    let n = if c.rng.chance(0.05) { c.rng.int(100, 3000) } else { c.rng.int(2, 40) };
    let (xx, kind) = axis(c, n);
    let cgl = c.rng.chance(0.1);
    c.input(format!("1d n={} kind={} cgl={} [{}, {}]", n, kind, cgl, xx[0], xx[n - 1]));
    if !increasing(&xx) {
        return;
    }
    let pi = std::f64::consts::PI;
    let (grid, want, tol) = if cgl {
        let w: Vec<f64> = (0..n).map(|i| -(pi * i as f64 / (n as f64 - 1.0)).cos()).collect();
        (Grid1d::new_chebyshev_gauss_lobatto(n), w, 4.0 * EPS)
    } else if kind == 0 {
        (Grid1d::new_uniform(xx[0], xx[0] + (xx[n - 1] - xx[0]), n), xx.clone(), 4.0 * EPS * (xx[0].abs() + xx[n - 1].abs()))
    } else {
        (Grid1d::new(&xx), xx.clone(), 0.0)
    };
    let g = match grid {
        Ok(g) => g,
        Err(e) => {
            c.fail(format!("grid: {}", e));
            return;
        }
    };
    c.check(g.nx() == n, || format!("nx is {}", g.nx()));
    let mut seen = Vec::new();
    g.for_each_coord(|m, x| seen.push((m, x)));
    c.check(seen.len() == n && seen.iter().enumerate().all(|(i, (m, x))| i == *m && *x == g.coord(i)), || format!("for_each_coord visits {:?}", seen));
    for i in 0..n {
        c.check((g.coord(i) - want[i]).abs() <= tol, || format!("coordinate {} is {} instead of {}", i, g.coord(i), want[i]));
        c.check(g.is_xmin(i) == (i == 0) && g.is_xmax(i) == (i == n - 1) && g.on_boundary(i) == (i == 0 || i == n - 1), || format!("sides of node {}", i));
    }
    c.check(g.get_nodes_on_side(Side::Xmin) == [0] && g.get_nodes_on_side(Side::Xmax) == [n - 1], || format!("boundary nodes"));
    let (p, q) = g.get_boundary_nodes();
    c.check(p == [0] && q == [n - 1], || format!("boundary nodes {:?} {:?}", p, q));
    // spacing
    let l = want[n - 1] - want[0];
    let s = spread(&want);
    let h = l / (n as f64 - 1.0);
    let dx = g.get_dx();
    if (kind < 2 && !cgl) || n == 2 {
        c.check(dx.is_some(), || format!("uniform grid not recognised"));
        c.count("uniform grid recognised");
    } else if s > 1e-6 * h && s > 1e-12 * (want[0].abs() + want[n - 1].abs()) && s > 1e-12 {
        c.check(dx.is_none(), || format!("grid with spacings that differ by {} taken for uniform", s));
        c.count("non-uniform grid recognised");
    }
    if let Some(d) = dx {
        c.close("spacing", d, h, 8.0 * EPS * (want[0].abs() + want[n - 1].abs()) + s + 20.0 * EPS);
    }
}

fn two_d(c: &mut Case) {
    let big = c.rng.chance(0.03);
    let (nx, ny) = if big { (c.rng.int(2, 120), c.rng.int(2, 120)) } else { (c.rng.int(2, 9), c.rng.int(2, 9)) };
    let (xx, kx) = axis(c, nx);
    let (yy, mut ky) = axis(c, ny);
    if kx == 0 {
        // limits are given for both directions
        ky = if ky == 2 { 2 } else { 0 };
    }
    let cgl = c.rng.chance(0.1);
    c.input(format!("2d nx={} ny={} kinds=({}, {}) cgl={} [{}, {}]x[{}, {}]", nx, ny, kx, ky, cgl, xx[0], xx[nx - 1], yy[0], yy[ny - 1]));
    if !increasing(&xx) || !increasing(&yy) {
        return;
    }
    let pi = std::f64::consts::PI;
    let uni = kx < 2 && ky < 2;
    let limits = kx == 0 && ky == 0 && !cgl;
    let cheb = |n: usize| -> Vec<f64> { (0..n).map(|i| -(pi * i as f64 / (n as f64 - 1.0)).cos()).collect() };
    let (grid, wx, wy) = if cgl {
        (Grid2d::new_chebyshev_gauss_lobatto(nx, ny), cheb(nx), cheb(ny))
    } else if limits {
        (Grid2d::new_uniform(xx[0], xx[0] + (xx[nx - 1] - xx[0]), yy[0], yy[0] + (yy[ny - 1] - yy[0]), nx, ny), xx.clone(), yy.clone())
    } else {
        (Grid2d::new(&xx, &yy), xx.clone(), yy.clone())
    };
    let g = match grid {
        Ok(g) => g,
        Err(e) => {
            c.fail(format!("grid: {}", e));
            return;
        }
    };
    let size = |w: &[f64]| w[0].abs() + w[w.len() - 1].abs();
    let (tx, ty) = if cgl || limits { (4.0 * EPS * size(&wx), 4.0 * EPS * size(&wy)) } else { (0.0, 0.0) };
    let n = nx * ny;
    c.check(g.nx() == nx && g.ny() == ny && g.size() == n, || format!("sizes {} {} {}", g.nx(), g.ny(), g.size()));
    c.check(g.is_chebyshev_gauss_lobatto() == cgl, || format!("Chebyshev grid: {}", g.is_chebyshev_gauss_lobatto()));
    c.close("xmin", g.xmin(), wx[0], tx);
    c.close("xmax", g.xmax(), wx[nx - 1], tx);
    c.close("ymin", g.ymin(), wy[0], ty);
    c.close("ymax", g.ymax(), wy[ny - 1], ty);
    let mut seen = Vec::new();
    g.for_each_coord(|m, x, y| seen.push((m, x, y)));
    if !c.check(seen.len() == n, || format!("for_each_coord visits {} nodes", seen.len())) {
        return;
    }
    for j in 0..ny {
        for i in 0..nx {
            let m = i + j * nx;
            c.check(g.get_m(i, j) == m && g.get_ij(m) == (i, j), || format!("node ({}, {}) has index {} and {} has {:?}", i, j, g.get_m(i, j), m, g.get_ij(m)));
            let (x, y) = g.coord(m);
            c.check((x - wx[i]).abs() <= tx && (y - wy[j]).abs() <= ty, || format!("node {} at ({}, {}) instead of ({}, {})", m, x, y, wx[i], wy[j]));
            c.check(seen[m] == (m, x, y), || format!("for_each_coord visits {:?} as number {}", seen[m], m));
            let f = [i == 0, i == nx - 1, j == 0, j == ny - 1];
            c.check([g.is_xmin(m), g.is_xmax(m), g.is_ymin(m), g.is_ymax(m)] == f, || format!("sides of node {}", m));
            c.check(g.on_boundary(m) == f.contains(&true), || format!("node {} on the boundary: {}", m, g.on_boundary(m)));
            c.check(g.is_corner(m) == ((f[0] || f[1]) && (f[2] || f[3])), || format!("node {} is a corner: {}", m, g.is_corner(m)));
        }
        if c.failed() {
            return;
        }
    }
    let sides: Vec<Vec<usize>> = vec![
        (0..ny).map(|j| j * nx).collect(),
        (0..ny).map(|j| j * nx + nx - 1).collect(),
        (0..nx).collect(),
        (0..nx).map(|i| i + (ny - 1) * nx).collect(),
    ];
    let all = g.get_boundary_nodes();
    let all = [all.0, all.1, all.2, all.3];
    for k in 0..4 {
        let w = &sides[k];
        let s = g.get_nodes_on_side(Side::from_index(k));
        c.check(s == w.as_slice() && all[k] == w.as_slice(), || format!("side {} has nodes {:?} and {:?}", k, s, all[k]));
        let mut v = Vec::new();
        let mut call = |m: &usize| v.push(*m);
        match k {
            0 => g.for_each_node_xmin(&mut call),
            1 => g.for_each_node_xmax(&mut call),
            2 => g.for_each_node_ymin(&mut call),
            _ => g.for_each_node_ymax(&mut call),
        }
        c.check(&v == w, || format!("visit of side {}: {:?}", k, v));
    }
    let (sx, sy) = (spread(&wx), spread(&wy));
    let (hx, hy) = ((wx[nx - 1] - wx[0]) / (nx as f64 - 1.0), (wy[ny - 1] - wy[0]) / (ny as f64 - 1.0));
    let d = g.get_dx_dy();
    let odd = |s: f64, h: f64, w: &[f64]| s > 1e-6 * h && s > 1e-12 * size(w) && s > 1e-12;
    let single = |k: usize, n: usize| k < 2 || n == 2;
    if (uni && !cgl) || (single(kx, nx) && single(ky, ny) && !cgl) || (nx == 2 && ny == 2) {
        c.check(d.is_some(), || format!("uniform grid not recognised"));
        c.count("uniform grid recognised");
    } else if odd(sx, hx, &wx) || odd(sy, hy, &wy) {
        c.check(d.is_none(), || format!("spacings that differ by {} and {} taken for uniform", sx, sy));
        c.count("non-uniform grid recognised");
    }
    if let Some((dx, dy)) = d {
        c.close("spacing", dx, hx, 8.0 * EPS * size(&wx) + sx + 20.0 * EPS);
        c.close("spacing", dy, hy, 8.0 * EPS * size(&wy) + sy + 20.0 * EPS);
    }
    c.count("2d grids");
}

fn invalid(c: &mut Case) {
    let n = c.rng.int(0, 8);
    let mut xx: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let kind = if n < 2 { 9 } else { c.rng.int(0, 3) };
    let k = if n < 2 { 0 } else { c.rng.int(1, n - 1) };
    match kind {
        0 => xx[k] = xx[k - 1],
        1 => xx.swap(k, k - 1),
        2 => xx[k] = f64::NAN,
        3 => xx[0] = f64::NAN,
        _ => (),
    }
    let good = [0.0, 1.0, 2.5];
    c.input(format!("invalid coordinates {:?}", xx));
    c.err("coordinates in one dimension", no_panic(|| Grid1d::new(&xx)).unwrap_or_else(|_| Grid1d::new_uniform(0.0, 1.0, 2)));
    c.err("coordinates along x", no_panic(|| Grid2d::new(&xx, &good)).unwrap_or_else(|_| Grid2d::new_uniform(0.0, 1.0, 0.0, 1.0, 2, 2)));
    c.err("coordinates along y", no_panic(|| Grid2d::new(&good, &xx)).unwrap_or_else(|_| Grid2d::new_uniform(0.0, 1.0, 0.0, 1.0, 2, 2)));
    // limits
    let (a, b, m): (f64, f64, usize) = match c.rng.int(0, 4) {
        0 => (1.0, 1.0, 4),
        1 => (c.rng.f(1.0, 2.0), c.rng.f(-1.0, 1.0), 3),
        2 => (0.0, 1.0, c.rng.int(0, 1)),
        3 => (f64::NAN, 1.0, 3),
        _ => (0.0, f64::NAN, 3),
    };
    c.more(format!("limits {} {} {}", a, b, m));
    c.err("limits in one dimension", Grid1d::new_uniform(a, b, m));
    c.err("limits along x", Grid2d::new_uniform(a, b, 0.0, 1.0, m, 3));
    c.err("limits along y", Grid2d::new_uniform(0.0, 1.0, a, b, 3, m));
    let z = c.rng.int(0, 1);
    c.err("Chebyshev grid", Grid1d::new_chebyshev_gauss_lobatto(z));
    c.err("Chebyshev grid along x", Grid2d::new_chebyshev_gauss_lobatto(z, 3));
    c.err("Chebyshev grid along y", Grid2d::new_chebyshev_gauss_lobatto(3, z));
    c.count("invalid grids");
}

fn judge(c: &mut Case, h: &EquationHandler, n: usize, presc: &[bool]) {
    let p: Vec<usize> = (0..n).filter(|e| presc[*e]).collect();
    let u: Vec<usize> = (0..n).filter(|e| !presc[*e]).collect();
    c.check(h.neq() == n && h.nu() == u.len() && h.np() == p.len(), || format!("sizes {} {} {}", h.neq(), h.nu(), h.np()));
    c.check(h.unknown() == &u && h.prescribed() == &p, || format!("sets {:?} {:?} instead of {:?} {:?}", h.unknown(), h.prescribed(), u, p));
    for e in 0..n {
        c.check(h.is_prescribed(e) == presc[e] && h.is_unknown(e) != presc[e], || format!("kind of equation {}", e));
    }
    if c.failed() {
        return;
    }
    for (i, e) in u.iter().enumerate() {
        let r = no_panic(|| h.iu(*e));
        c.check(r == Ok(i), || format!("unknown number of {} is {:?} instead of {}", e, r, i));
    }
    for (i, e) in p.iter().enumerate() {
        let r = no_panic(|| h.ip(*e));
        c.check(r == Ok(i), || format!("prescribed number of {} is {:?} instead of {}", e, r, i));
    }
}

fn equations(c: &mut Case) {
    let n = if c.rng.chance(0.05) { c.rng.int(50, 400) } else { c.rng.int(1, 20) };
    c.input(format!("equations {}", n));
    let mut h = EquationHandler::new(n);
    judge(c, &h, n, &vec![false; n]);
    let rounds = c.rng.int(1, 5);
    let mut presc = vec![false; n];
    for _ in 0..rounds {
        let k = match c.rng.int(0, 4) {
            0 => 0,
            1 => n,
            _ => c.rng.int(0, n),
        };
        let mut list: Vec<usize> = if k == n { (0..n).collect() } else { (0..k).map(|_| c.rng.int(0, n - 1)).collect() };
        c.rng.shuffle(&mut list);
        if c.rng.chance(0.3) && !list.is_empty() {
            let d = list[0];
            list.push(d);
        }
        let bad = c.rng.chance(0.15);
        if bad {
            let at = c.rng.int(0, list.len());
            list.insert(at, n + c.rng.int(0, 2));
        }
        c.more(format!("{:?}", list));
        let r = no_panic(|| h.recompute(&list));
        if bad {
            c.check(r.is_err(), || format!("equation that does not exist accepted"));
            c.count("equation out of range");
            // start again
            h = EquationHandler::new(n);
            presc = vec![false; n];
        } else {
            c.check(r.is_ok(), || format!("valid list refused: {:?}", r));
            presc = vec![false; n];
            for e in &list {
                presc[*e] = true;
            }
        }
        judge(c, &h, n, &presc);
        c.count("renumberings");
        if c.failed() {
            return;
        }
    }
    let e = c.rng.int(0, n - 1);
    let r = if presc[e] { no_panic(|| h.iu(e)) } else { no_panic(|| h.ip(e)) };
    c.check(r.is_err(), || format!("number {:?} of equation {} in the set it does not belong to", r, e));
}

pub fn run(cx: &mut Ctx) {
    cx.rule("a grid of random size, place and spacing, or a sequence of renumberings");
    cx.level("exploration");
    cx.assume("deviations from uniform spacing below 1e-6 of the spacing are not judged");
    let n = cx.n(8000, 100000);
    cx.run("one dimension", n, one_d);
    let n = cx.n(8000, 100000);
    cx.run("two dimensions", n, two_d);
    let n = cx.n(2000, 20000);
    cx.run("invalid", n, invalid);
    let n = cx.n(8000, 100000);
    cx.run("equations", n, equations);
    cx.require("uniform grid recognised", 1000);
    cx.require("non-uniform grid recognised", 500);
    cx.require("renumberings", 1000);
    cx.require("equation out of range", 100);
    cx.require("invalid grids", 100);
}
