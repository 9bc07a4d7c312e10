//! Memory safety of the native calls: the workloads of other properties, and two of its own,
//! run in separate processes under page fences, heap canaries, valgrind and a heap balance
use crate::lin::*;
use harness::{Case, Ctx};
use num_complex::Complex64;
use russell_lab::NumVector;
use russell_sparse::{LinSolParams, NumCooMatrix, Sym};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const SIZES: [usize; 24] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 128, 129];

/// All dense operations with operands of larger sizes
pub fn sizes(cx: &mut Ctx) {
    let list = crate::c03::ops();
    let l = &list;
    let small = std::env::var_os("VERIF_RAW_ALLOC").is_some();
    let n = cx.n(4000, 20000);
    cx.run("sizes", n, move |c: &mut Case| {
        let op = &l[c.index % l.len()];
        let top = if small { 17 } else { SIZES.len() };
        // the sizes at both ends come up often
        let p: Vec<usize> = (0..op.np)
            .map(|_| {
                let k = c.rng.int(0, top - 1);
                if op.name.contains("eigen") { SIZES[k].min(70) } else { SIZES[k] }
            })
            .collect();
        let mut d = (op.base)(&p);
        if c.rng.chance(0.3) {
            // one operand too short or too long
            let k = c.rng.int(0, d.len() - 1);
            d[k] = if c.rng.bool() { d[k] + 1 } else { d[k].saturating_sub(1) };
        }
        c.input(format!("{} {:?}", op.name, d));
        let _ = (op.call)(&d, &mut c.rng);
    });
}

/// All dense and assembly operations with every small change of one operand dimension
pub fn shapes(cx: &mut Ctx) {
    let list = crate::c03::ops();
    let l = &list;
    cx.run("single-change", l.len(), move |c: &mut Case| {
        let op = &l[c.index];
        let top = if op.np >= 3 { 2 } else { 4 };
        let total = (top + 1usize).pow(op.np as u32);
        for k in 0..total {
            let mut r = k;
            let p: Vec<usize> = (0..op.np)
                .map(|_| {
                    let x = r % (top + 1);
                    r /= top + 1;
                    x
                })
                .collect();
            let base = (op.base)(&p);
            for j in 0..base.len() {
                for x in 0..=5 {
                    let mut d = base.clone();
                    d[j] = x;
                    c.input(format!("{} {:?}", op.name, d));
                    let _ = harness::no_panic(|| (op.call)(&d, &mut c.rng));
                }
            }
        }
    });
    let n = cx.n(20000, 100000);
    cx.run("random", n, move |c: &mut Case| {
        let op = &l[c.index % l.len()];
        let p: Vec<usize> = (0..op.np).map(|_| c.rng.int(0, 9)).collect();
        let mut d = (op.base)(&p);
        for _ in 0..c.rng.int(0, 3) {
            let k = c.rng.int(0, d.len() - 1);
            d[k] = c.rng.int(0, 9);
        }
        c.input(format!("{} {:?}", op.name, d));
        let _ = (op.call)(&d, &mut c.rng);
    });
}

struct Life<T: Lin> {
    solver: T::Solver,
    coo: Option<NumCooMatrix<T>>,
    n: usize,
}

fn matrix<T: Lin>(c: &mut Case, n: usize, sym: Sym, singular: bool) -> NumCooMatrix<T> {
    let mut coo = NumCooMatrix::<T>::new(n, n, 3 * n * n + n + 1, sym).unwrap();
    let skip = if singular { Some(c.rng.int(0, n - 1)) } else { None };
    for i in 0..n {
        for j in 0..n {
            let outside = sym == Sym::YesLower && j > i || sym == Sym::YesUpper && j < i;
            if outside || skip == Some(i) || skip == Some(j) {
                continue;
            }
            if i == j {
                coo.put(i, j, T::conv(2.0 * n as f64 + c.rng.unit(), 0.0)).unwrap();
            } else if c.rng.chance(0.4) {
                for _ in 0..c.rng.int(1, 3) {
                    coo.put(i, j, T::conv(c.rng.sym(), 0.0)).unwrap();
                }
            }
        }
    }
    if let Some(k) = skip {
        coo.put(k, k, T::conv(0.0, 0.0)).unwrap();
    }
    coo
}

/// Several solvers alive at the same time, dropped in any state and order
fn life<T: Lin>(c: &mut Case) {
    let mut alive: Vec<Life<T>> = Vec::new();
    let steps = c.rng.int(3, 14);
    let mut story = String::new();
    for _ in 0..steps {
        let what = c.rng.int(0, 7);
        if alive.is_empty() || what == 0 {
            alive.push(Life { solver: T::create().unwrap(), coo: None, n: 0 });
            story.push('c');
            continue;
        }
        let k = c.rng.int(0, alive.len() - 1);
        match what {
            1 => {
                drop(alive.swap_remove(k));
                story.push('d');
            }
            2 | 3 | 4 => {
                // first or repeated factorization, sometimes singular, sometimes of another size
                let keep = alive[k].n > 0 && c.rng.chance(0.8);
                let n = if keep { alive[k].n } else { *c.rng.pick(&[1usize, 2, 3, 5, 8, 13, 40]) };
                let sym = *c.rng.pick(&[Sym::No, Sym::No, Sym::YesFull, Sym::YesLower]);
                let singular = c.rng.chance(0.25);
                let coo = if keep && alive[k].coo.is_some() && c.rng.chance(0.6) {
                    alive[k].coo.take().unwrap()
                } else {
                    matrix::<T>(c, n, sym, singular)
                };
                let mut par = LinSolParams::new();
                par.verbose = c.rng.chance(0.1);
                par.compute_determinant = c.rng.bool();
                par.compute_error_estimates = c.rng.bool();
                par.compute_condition_numbers = c.rng.bool();
                let first = alive[k].n == 0 || c.rng.chance(0.1);
                let r = T::factorize(&mut alive[k].solver, &coo, if first { Some(par) } else { None });
                story.push_str(&format!("f{}{}", n, if r.is_ok() { "" } else { "!" }));
                if alive[k].n == 0 {
                    alive[k].n = n;
                }
                alive[k].coo = Some(coo);
            }
            _ => {
                let n = alive[k].n;
                let wrong = c.rng.chance(0.2);
                let (mut nx, mut nb) = (n, n);
                if wrong {
                    if c.rng.bool() {
                        nx = c.rng.int(0, n + 1)
                    } else {
                        nb = c.rng.int(0, n + 1)
                    }
                }
                let mut x = NumVector::<T>::new(nx);
                let b = NumVector::<T>::initialized(nb, |_| T::conv(1.0, 0.0));
                let r = T::solve(&mut alive[k].solver, &mut x, &b);
                story.push_str(if r.is_ok() { "s" } else { "s!" });
                let _ = T::stats(&alive[k].solver);
            }
        }
    }
    c.input(story);
}

pub fn lives(cx: &mut Ctx) {
    let n = cx.n(4000, 40000);
    cx.run("real", n, life::<f64>);
    cx.run("complex", n, life::<Complex64>);
}

struct Job {
    tool: &'static str,
    load: &'static str,
    scale: f64,
}

struct Seen {
    violations: Vec<(String, usize, String)>,
    cases: u64,
    distinct: u64,
    decisions: u64,
    blocks: u64,
    trouble: Option<String>,
    wall: f64,
}

fn trace(dir: &Path) -> (String, usize) {
    let t = std::fs::read_to_string(dir.join("trace")).unwrap_or_default();
    match t.trim().split_once(' ') {
        Some((i, l)) => (l.to_string(), i.parse().unwrap_or(0)),
        None => (String::new(), 0),
    }
}

/// Runs one observed process
fn observe(job: &Job, dir: &Path, only: Option<&(String, usize)>, limit: Duration) -> Seen {
    let mut seen = Seen { violations: vec![], cases: 0, distinct: 0, decisions: 0, blocks: 0, trouble: None, wall: 0.0 };
    let exe = std::env::current_exe().unwrap();
    let mut cmd = if job.tool == "memcheck" {
        let mut v = Command::new("valgrind");
        v.args(["-q", "--error-exitcode=99", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite", "--num-callers=14"]);
        v.arg(format!("--log-file={}", dir.join("memcheck").display()));
        v.arg(&exe);
        // kernels for which valgrind knows all the instructions
        v.env("VERIF_RAW_ALLOC", "1").env("OPENBLAS_CORETYPE", "Haswell");
        v
    } else {
        Command::new(&exe)
    };
    cmd.arg(job.load);
    match job.tool {
        "fence-end" => cmd.env("VERIF_FENCE", "end"),
        "fence-begin" => cmd.env("VERIF_FENCE", "begin"),
        // without the caches per thread, which count as memory in use
        "balance" => cmd.env("VERIF_BALANCE", "1").env("VERIF_RAW_ALLOC", "1").env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0"),
        _ => &mut cmd,
    };
    cmd.env("VERIF_CHILD", dir).env("VERIF_SCALE", job.scale.to_string());
    if let Some((l, i)) = only {
        cmd.env("VERIF_ONLY", format!("{} {}", i, l));
    }
    let err = std::fs::File::create(dir.join("err")).unwrap();
    cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    let start = Instant::now();
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            seen.trouble = Some(format!("cannot start: {}", e));
            return seen;
        }
    };
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if start.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    seen.trouble = Some(format!("stopped after {:?}", limit));
                    return seen;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(e) => {
                seen.trouble = Some(format!("cannot wait: {}", e));
                return seen;
            }
        }
    };
    seen.wall = start.elapsed().as_secs_f64();
    let mut complete = false;
    for line in std::fs::read_to_string(dir.join("out")).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("VIOLATED ") {
            if let Some((at, msg)) = rest.split_once(" | ") {
                let (i, l) = at.split_once(' ').unwrap_or(("0", at));
                seen.violations.push((l.to_string(), i.parse().unwrap_or(0), msg.to_string()));
            }
        } else if let Some(rest) = line.strip_prefix("DONE ") {
            let v: Vec<u64> = rest.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
            (seen.cases, seen.distinct, seen.decisions, seen.blocks) = (v[0], v[1], v[2], v[3]);
            complete = true;
        }
    }
    use std::os::unix::process::ExitStatusExt;
    if job.tool == "memcheck" {
        let log = std::fs::read_to_string(dir.join("memcheck")).unwrap_or_default();
        if status.code() == Some(99) {
            let (l, i) = trace(dir);
            let lines: Vec<&str> = log.lines().map(|x| x.trim_start_matches(|ch: char| ch == '=' || ch.is_ascii_digit()).trim()).filter(|x| !x.is_empty()).take(12).collect();
            seen.violations.push((l, i, format!("memcheck: {}", lines.join(" / "))));
            return seen;
        }
    }
    match (status.code(), status.signal()) {
        (Some(0), _) if complete => {}
        (_, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
            let (l, i) = trace(dir);
            let what = if job.tool.starts_with("fence") { "access outside a heap block or to a freed one" } else { "memory fault" };
            seen.violations.push((l, i, format!("killed by signal {}: {}", sig, what)));
        }
        _ => {
            let tail = std::fs::read_to_string(dir.join("err")).unwrap_or_default();
            seen.trouble = Some(format!("ended with {:?}: {}", status, tail.lines().last().unwrap_or("")));
        }
    }
    seen
}

pub fn run(cx: &mut Ctx) {
    cx.rule("distinct = different operations and operand sizes, and different stories of solvers, counted in each observed process");
    cx.assume("native kernels are those chosen for this processor (page fences) and for Haswell (valgrind)");
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let mut jobs: Vec<Job> = Vec::new();
    // the slowest first
    for (load, scale) in [("shapes", 0.05), ("eigen", 0.06), ("decompositions", 0.06), ("sequences", 0.1), ("histories", 0.1), ("sizes", 0.4), ("operations", 0.08), ("lives", 0.25)] {
        jobs.push(Job { tool: "memcheck", load, scale });
    }
    for (load, scale) in [("shapes", 0.5), ("decompositions", 0.4), ("eigen", 0.3), ("sequences", 0.5), ("histories", 0.5), ("sizes", 3.0), ("operations", 0.4), ("lives", 1.0)] {
        jobs.push(Job { tool: "fence-end", load, scale });
        jobs.push(Job { tool: "fence-begin", load, scale: scale * 0.3 });
        jobs.push(Job { tool: "canary", load, scale });
        jobs.push(Job { tool: "balance", load, scale: scale * 0.5 });
    }
    let replay = cx.replayed();
    if let Some((label, index)) = replay {
        // tool:load:label
        let mut it = label.splitn(3, ':');
        let (tool, load, l) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if let Some(job) = jobs.iter().find(|j| j.tool == tool && j.load == load) {
            let dir = base.join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let seen = observe(job, &dir, Some(&(l.to_string(), index)), Duration::from_secs(600));
            for (l, i, m) in seen.violations {
                cx.outer_violation(&format!("{}:{}:{}", tool, load, l), i, m);
            }
        }
        return;
    }
    let limit = Duration::from_secs(if cx.thorough { 3000 } else { 700 });
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, Seen)>> = Mutex::new(Vec::new());
    std::thread::scope(|scope| {
        for _ in 0..8 {
            scope.spawn(|| {
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= jobs.len() {
                        break;
                    }
                    let dir = base.join(format!("job-{}", k));
                    let _ = std::fs::create_dir_all(&dir);
                    let seen = observe(&jobs[k], &dir, None, limit);
                    results.lock().unwrap().push((k, seen));
                }
            });
        }
    });
    let mut all = results.into_inner().unwrap();
    all.sort_by_key(|r| r.0);
    let mut trouble = Vec::new();
    for (k, seen) in &all {
        let job = &jobs[*k];
        let name = format!("{}:{}", job.tool, job.load);
        for (l, i, m) in &seen.violations {
            cx.outer_violation(&format!("{}:{}", name, l), *i, m.clone());
        }
        if let Some(t) = &seen.trouble {
            trouble.push(format!("{}: {}", name, t));
        }
        cx.outer_cases(&name, seen.cases, seen.distinct.min(seen.cases), seen.decisions);
        cx.outer_count(
            match job.tool {
                "memcheck" => "cases under valgrind",
                "balance" => "cases repeated for the heap balance",
                "canary" => "cases under heap canaries",
                _ => "cases under page fences",
            },
            seen.cases,
        );
        cx.outer_count("blocks released under fences or canaries", seen.blocks);
        cx.outer_sample(format!("{}: {:.1} s, {} cases, {} distinct inputs, {} calls judged elsewhere", name, seen.wall, seen.cases, seen.distinct, seen.decisions));
    }
    let bad = all.iter().any(|(_, s)| !s.violations.is_empty());
    if !bad && !trouble.is_empty() {
        cx.give_up(&trouble.join("; "));
    }
    cx.require("cases under valgrind", 500);
    cx.require("cases under page fences", 5000);
    cx.require("cases under heap canaries", 5000);
    cx.require("cases repeated for the heap balance", 1000);
    cx.require("blocks released under fences or canaries", 100_000);
}
