//! C23 eigenpairs, C24 concurrent eigenvalue computations.
use crate::ck;
use crate::engine::*;
use crate::guard::DAMAGED;
use crate::model::*;
use crate::origin;
use crate::sched;
use num_complex::Complex64;
use sparsetools::csc::CSC;
use sparsetools::eigen::real::eigs;
use std::sync::atomic::Ordering::*;

pub fn spaces(p: &str, th: bool) -> Vec<Space> {
    match p { "C23" => c23(th), "C24" => c24(th), _ => vec![] }
}
type Dense = Vec<Vec<f64>>;
fn norm(a: &Dense) -> f64 { a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max) }

/// All eigenvalues by the shifted QR iteration on a complex copy (n is small). None if it does not converge.
fn eigenvalues(a: &Dense) -> Option<Vec<Complex64>> {
    let n = a.len();
    let mut h: Vec<Vec<Complex64>> = a.iter().map(|r| r.iter().map(|&x| Complex64::new(x, 0.0)).collect()).collect();
    let z = Complex64::new(0.0, 0.0);
    // Hessenberg form by elimination with pivoting
    for k in 1..n.saturating_sub(1) {
        let p = (k..n).max_by(|&x, &y| h[x][k - 1].norm().total_cmp(&h[y][k - 1].norm())).unwrap();
        if h[p][k - 1].norm() == 0.0 { continue }
        h.swap(p, k);
        for r in h.iter_mut() { r.swap(p, k) }
        for i in k + 1..n {
            let f = h[i][k - 1] / h[k][k - 1];
            if f == z { continue }
            for j in 0..n { let t = h[k][j]; h[i][j] -= f * t }
            for r in h.iter_mut() { let t = r[i]; r[k] += f * t }
        }
    }
    let scale = norm(a).max(1e-300);
    let mut out = vec![];
    let mut m = n;
    let mut it = 0;
    while m > 0 {
        if m == 1 { out.push(h[0][0]); break }
        let s = h[m - 1][m - 1].norm() + h[m - 2][m - 2].norm();
        if h[m - 1][m - 2].norm() <= 1e-15 * s.max(scale * 1e-3) { out.push(h[m - 1][m - 1]); m -= 1; it = 0; continue }
        it += 1;
        if it > 500 { return None }
        // shift: the eigenvalue of the trailing block nearest to its corner, now and then something else
        let (p, q, r, t) = (h[m - 2][m - 2], h[m - 2][m - 1], h[m - 1][m - 2], h[m - 1][m - 1]);
        let d = ((p - t) * (p - t) * 0.25 + q * r).sqrt();
        let (e, f) = ((p + t) * 0.5 + d, (p + t) * 0.5 - d);
        let mut mu = if (e - t).norm() < (f - t).norm() { e } else { f };
        if it % 11 == 10 { mu += Complex64::new(scale * 0.37, scale * 0.21) }
        for i in 0..m { h[i][i] -= mu }
        let mut g = vec![];
        for k in 0..m - 1 {
            let (x, y) = (h[k][k], h[k + 1][k]);
            let l = (x.norm_sqr() + y.norm_sqr()).sqrt();
            let (c, s) = if l == 0.0 { (Complex64::new(1.0, 0.0), z) } else { (x / l, y / l) };
            for j in k..m { let (u, v) = (h[k][j], h[k + 1][j]); h[k][j] = c.conj() * u + s.conj() * v; h[k + 1][j] = -s * u + c * v }
            g.push((c, s));
        }
        for k in 0..m - 1 {
            let (c, s) = g[k];
            for i in 0..=(k + 1).min(m - 1) { let (u, v) = (h[i][k], h[i][k + 1]); h[i][k] = u * c + v * s; h[i][k + 1] = -u * s.conj() + v * c.conj() }
        }
        for i in 0..m { h[i][i] += mu }
    }
    out.sort_by(|x, y| y.norm().total_cmp(&x.norm()));
    Some(out)
}
/// What the eigenvalues of a matrix say about a request.
struct Wanted {
    /// The wanted eigenvalues where they are well defined: simple, and separated in magnitude from the unwanted ones.
    top: Option<Vec<Complex64>>,
    /// The request must succeed: symmetric, every wanted eigenvalue at most 0.6 times the one before.
    must: bool,
}
fn wanted(a: &Dense, nev: usize) -> Wanted {
    let n = a.len();
    let no = Wanted { top: None, must: false };
    let Some(l) = eigenvalues(a) else { return no };
    if l.iter().any(|x| !x.re.is_finite() || !x.im.is_finite()) || l[0].norm() < 1e-3 { return no }
    // the oracle's own eigenvalues must add up to the trace
    let tr: f64 = (0..n).map(|i| a[i][i]).sum();
    let sum: Complex64 = l.iter().sum();
    if (sum - tr).norm() > 1e-9 * (1.0 + norm(a)) { return no }
    let mut k = nev;
    // a conjugate pair is taken as a whole
    if l[k - 1].im.abs() > 1e-6 && k < n && (l[k] - l[k - 1].conj()).norm() < 1e-6 * l[0].norm() {
        let before = l[..k - 1].iter().filter(|x| (**x - l[k - 1].conj()).norm() < 1e-6 * l[0].norm()).count();
        if before == 0 { k += 1 }
    }
    if k >= n { return no }
    // a pair across the boundary must also be separated from the values above it
    if k > nev && nev > 1 && l[nev - 1].norm() > 0.6 * l[nev - 2].norm() { return no }
    let sep = l[k].norm() < 0.6 * l[k - 1].norm() && l[k - 1].norm() > 0.02 * l[0].norm();
    let simple = (0..k).all(|i| (0..n).all(|j| i == j || (l[i] - l[j]).norm() > 0.05 * l[0].norm()));
    let sym = (0..n).all(|i| (0..n).all(|j| a[i][j] == a[j][i]));
    let must = sym && sep && simple && (0..nev).all(|i| l[i + 1].norm() <= 0.6 * l[i].norm());
    Wanted { top: if sep && simple { Some(l[..k].to_vec()) } else { None }, must }
}
/// Up to rounding: the largest residual that was ever seen here is 1e-14 times the norm of the matrix.
const TOL: f64 = 1e-11;
type Pairs = (Vec<Complex64>, Vec<Vec<Complex64>>);
fn call(m: &Tri<f64>, nev: usize) -> Result<Pairs, String> {
    let a: CSC<usize, f64> = m.csc();
    let (d, z) = eigs(&a, nev).map_err(|e| e.to_string())?;
    ck!(z.rows() >= d.len() && z.cols() == m.rows, "the vectors form a {}x{} matrix for {} eigenvalues of a matrix of size {}", z.rows(), z.cols(), d.len(), m.rows);
    let v = (0..d.len()).map(|i| (0..m.rows).map(|j| z[(i, j)]).collect()).collect();
    Ok((d, v))
}
/// Every returned pair satisfies the equation; the values are the wanted ones.
fn pairs_ok(a: &Dense, nev: usize, (d, v): &Pairs, w: &Wanted) -> R {
    let s = norm(a).max(1e-12);
    for (l, x) in d.iter().zip(v) {
        let len = x.iter().map(|c| c.norm_sqr()).sum::<f64>().sqrt();
        ck!(len.is_finite() && len > 1e-6, "the vector of eigenvalue {l} is zero or not finite: {x:?}");
        for (i, r) in a.iter().enumerate() {
            let y: Complex64 = r.iter().zip(x).map(|(p, q)| *p * q).sum();
            ck!((y - l * x[i]).norm() <= TOL * s * len, "A v differs from lambda v in row {i}: {y} and {} (lambda {l}, v {x:?})", l * x[i]);
        }
    }
    if let Some(top) = &w.top {
        let miss = |e: &Complex64| !d.iter().any(|l| (l - e).norm() <= 1e-5 * (1.0 + s));
        if let Some(e) = top.iter().find(|e| miss(e)) { return Err(format!("the {nev} eigenvalue(s) of largest magnitude are {top:?}, {e} is missing from {d:?}")) }
        ck!(d.len() == top.len(), "{} eigenvalues are returned for a request of {nev} whose answer is {top:?}: {d:?}", d.len());
    } else { ck!(d.len() <= nev + 1, "{} eigenvalues are returned for a request of {nev}", d.len()) }
    Ok(())
}
fn eig_case(m: &Tri<f64>, nev: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("{nev} eigenvalue(s) of {}", show(m)));
    cx.see(mix(m.hash(23), nev as u64));
    let before = DAMAGED.load(SeqCst);
    cx.op("eigs");
    let g = call(m, nev);
    cx.say(|| format!("{g:?}"));
    ck!(DAMAGED.load(SeqCst) == before, "memory outside of an array is overwritten");
    if nev == 0 || m.rows != m.cols || m.rows < 3 || nev > m.rows - 2 { ck!(g.is_err(), "a request for {nev} eigenvalues of a {}x{} matrix is accepted", m.rows, m.cols); return Ok(()) }
    let d = m.dense();
    let w = if m.rows > 40 { Wanted { top: None, must: false } } else { wanted(&d, nev) };
    match &g {
        Ok(p) => pairs_ok(&d, nev, p, &w),
        Err(e) => { ck!(!w.must, "fails although the matrix is symmetric with well separated eigenvalues {:?}: {e}", w.top); Ok(()) }
    }
}
fn full(n: usize, f: impl Fn(usize, usize) -> f64) -> Tri<f64> {
    let mut e = vec![];
    for i in 0..n { for j in 0..n { let v = f(i, j); if v != 0.0 { e.push((i, j, v)) } } }
    Tri::new(n, n, e)
}
fn digits(mut i: u64, base: u64, n: usize) -> Vec<usize> { (0..n).map(|_| { let d = i % base; i /= base; d as usize }).collect() }
/// All square matrices of size n over an alphabet.
fn squares(s: &mut Vec<Space>, n: usize, al: &'static [f64], nevs: &'static [usize]) {
    let b = al.len() as u64;
    s.push(space(format!("{n}x{n}/values {al:?}"), b.pow((n * n) as u32) * nevs.len() as u64, move |i, cx| {
        let nev = nevs[(i % nevs.len() as u64) as usize];
        let d = digits(i / nevs.len() as u64, b, n * n);
        eig_case(&full(n, |i, j| al[d[i * n + j]]), nev, cx)
    }));
}
fn symmetric(s: &mut Vec<Space>, n: usize, al: &'static [f64], nevs: &'static [usize]) {
    let b = al.len() as u64;
    let k = n * (n + 1) / 2;
    s.push(space(format!("symmetric {n}x{n}/values {al:?}"), b.pow(k as u32) * nevs.len() as u64, move |i, cx| {
        let nev = nevs[(i % nevs.len() as u64) as usize];
        let d = digits(i / nevs.len() as u64, b, k);
        eig_case(&full(n, |i, j| { let (i, j) = (i.min(j), i.max(j)); al[d[j * (j + 1) / 2 + i]] }), nev, cx)
    }));
}
/// Matrices with known eigenvalues: blocks (real values or conjugate pairs) under a similarity transformation.
fn blocks(n: usize, kind: usize, q: usize) -> Tri<f64> {
    // magnitudes fall by a factor 2.2; bit b of `kind` decides whether the next block is a conjugate pair
    let mut a = vec![vec![0.0; n]; n];
    let (mut i, mut b, mut m) = (0, 0, 8.0);
    while i < n {
        if kind >> b & 1 == 1 && i + 1 < n {
            let (c, s) = [(0.6, 0.8), (-0.8, 0.6), (0.0, 1.0)][(b + kind) % 3];
            a[i][i] = m * c; a[i + 1][i + 1] = m * c; a[i][i + 1] = -m * s; a[i + 1][i] = m * s;
            i += 2;
        } else { a[i][i] = if (b + kind / 8) % 2 == 0 { m } else { -m }; i += 1 }
        b += 1;
        m /= 2.2;
    }
    // similarity by elementary matrices
    for k in 0..q * n {
        let (r, c) = ((k * 3 + 1) % n, (k * 5 + 2 * (k / n)) % n);
        if r == c { continue }
        let f = [0.5, -0.25, 1.0][k % 3];
        for j in 0..n { let t = a[c][j]; a[r][j] += f * t }
        for x in a.iter_mut() { let t = x[r]; x[c] -= f * t }
    }
    full(n, |i, j| a[i][j])
}
fn tridiagonal(n: usize, kind: usize) -> Tri<f64> {
    full(n, |i, j| if i == j { match kind % 4 { 0 => 4f64.powi((i % 5) as i32) * if i < 5 { 1.0 } else { 0.01 }, 1 => if i == n / 2 { 50.0 } else { 1.0 }, 2 => -((i + 1) as f64).powi(2), _ => if i == 0 { -30.0 } else if i + 1 == n { 11.0 } else { 0.5 } } }
        else if i.abs_diff(j) == 1 { if kind / 4 % 2 == 0 { 1.0 } else if i < j { 0.5 } else { -0.25 } } else { 0.0 })
}
fn c23(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    // other random start vectors (for trying out how much depends on them)
    if let Some(b) = std::env::var("MC_BURN").ok().and_then(|b| b.parse().ok()) { for _ in 0..b { let _ = call(&full(3, |i, j| (i + 2 * j) as f64), 1); } }
    s.push(space("requests that must be refused", 12 * 12 * 8, |i, cx| {
        let (r, c, k) = ((i % 12) as usize, (i / 12 % 12) as usize, (i / 144) as usize);
        let m = Tri::new(r, c, (0..r.min(c)).map(|q| (q, q, (q + 1) as f64)).collect());
        let nev = [0, 1, 2, r.saturating_sub(1), r, r + 1, usize::MAX, 1 << 32][k];
        if r == c && nev > 0 && r >= 2 && nev <= r - 2 { return Ok(()) }
        eig_case(&m, nev, cx)
    }));
    squares(s, 3, &[0.0, 1.0, -1.0], &[1]);
    symmetric(s, 3, &[0.0, 1.0, -1.0, 3.0, 0.5], &[1]);
    symmetric(s, 4, &[0.0, 1.0, -2.0], &[1, 2]);
    squares(s, 4, &[0.0, 1.0], &[1, 2]);
    if th {
        squares(s, 3, &[0.0, 1.0, -1.0, 2.5], &[1]);
        symmetric(s, 4, &[0.0, 1.0, -2.0, 5.0], &[1, 2]);
        symmetric(s, 5, &[0.0, 1.0], &[1, 2, 3]);
    }
    s.push(space("known eigenvalues", 6 * 64 * 4 * 7, |i, cx| {
        let (n, kind, q, nev) = ((i % 6) as usize + 3, (i / 6 % 64) as usize, (i / 384 % 4) as usize, (i / 1536) as usize + 1);
        if nev + 2 > n { return Ok(()) }
        eig_case(&blocks(n, kind, q), nev, cx)
    }));
    s.push(space("tridiagonal", 22 * 8 * 6, |i, cx| {
        let (n, kind, nev) = ((i % 22) as usize + 3, (i / 22 % 8) as usize, (i / 176) as usize + 1);
        if nev + 2 > n { return Ok(()) }
        eig_case(&tridiagonal(n, kind), nev, cx)
    }));
    // scaled, so that nothing depends on the size of the numbers
    s.push(space("scaled", 5 * 64 * 4, |i, cx| {
        let (e, kind, n) = ([-12, -6, 3, 9, 40][(i % 5) as usize], (i / 5 % 64) as usize, (i / 320) as usize + 4);
        eig_case(&blocks(n, kind, 1).map(|x| x * 2f64.powi(e)), 2, cx)
    }));
    // duplicates and stored zeros are part of the stored form
    s.push(space("stored forms", 64 * 3 * 2, |i, cx| {
        let (kind, n, form) = ((i % 64) as usize, (i / 64 % 3) as usize + 4, i / 192);
        let mut m = blocks(n, kind, 1);
        if form == 0 { let e = m.e.clone(); m.e = e.iter().rev().map(|e| (e.0, e.1, e.2 * 0.5)).collect(); m.e.extend(e.iter().map(|e| (e.0, e.1, e.2 * 0.5))) }
        else { for i in 0..n { m.e.push((i, (i + 1) % n, 0.0)) } m.e.reverse() }
        eig_case(&m, 1 + (kind % 2), cx)
    }));
    // and so do not depend on how the stored form came about
    s.push(space("stored forms/every other origin", 64 * (origin::N as u64 - 1), |i, cx| {
        let kind = (i % 64) as usize;
        origin::with(1 + (i / 64) as usize, || eig_case(&blocks(4 + kind % 3, kind, 1), 1 + kind % 2, cx))
    }));
    // slow convergence: eigenvalues close together, many restarts
    const SLOW: [usize; 7] = [15, 30, 45, 60, 80, 101, 140];
    s.push(space("slow", 7 * 8 * 4 * 2, |i, cx| {
        let (n, kind, nev) = (SLOW[(i % 7) as usize], (i / 7 % 8) as usize, (i / 56 % 4) as usize + 1);
        eig_case(&slow(n, kind), nev, cx)
    }));
    // double eigenvalues without a second vector, which rounding splits into a pair at the boundary of the request, for
    // many start vectors
    s.push(space("double eigenvalues, many start vectors", 3 * 4 * 3 * 120, |i, cx| {
        let (n, q, nev) = ((i % 3) as usize + 4, (i / 3 % 4) as usize, (i / 12 % 3) as usize + 1);
        if nev + 2 > n { return Ok(()) }
        let mut m = blocks(n, 0, 0);
        // eigenvalues nev and nev + 1 (from 1) equal and joined
        let mut a = m.dense();
        a[nev][nev] = a[nev - 1][nev - 1];
        a[nev - 1][nev] = 1.0;
        for k in 0..q * n {
            let (r, c) = ((k * 3 + 1) % n, (k * 5 + 2 * (k / n)) % n);
            if r == c { continue }
            for j in 0..n { let t = a[c][j]; a[r][j] += t * 0.5 }
            for x in a.iter_mut() { let t = x[r]; x[c] -= t * 0.5 }
        }
        m = full(n, |i, j| a[i][j]);
        eig_case(&m, nev, cx)
    }));
    s.push(space("double eigenvalue of a 0-1 matrix, many start vectors", 500, |i, cx| {
        let e = [(0, 2), (1, 0), (1, 2), (1, 3), (2, 0), (3, 1)];
        eig_case(&Tri::new(4, 4, e.iter().map(|e| (e.0, e.1, 1.0)).collect()), 2 - (i % 5 == 4) as usize, cx)
    }));
    v
}
fn slow(n: usize, kind: usize) -> Tri<f64> {
    full(n, |i, j| {
        let (x, side) = (i as f64, i.abs_diff(j) == 1);
        match kind {
            // second differences
            0 => if i == j { 2.0 } else if side { -1.0 } else { 0.0 },
            1 => if i == j { (x + 1.0) * (1.0 + x.sin() * 0.25) } else if side { 1.0 } else { 0.0 },
            2 => if i == j { 1.0 + x / n as f64 } else { 0.0 },
            3 => if i == j { 4.0 + x * 0.01 } else if side { if i < j { 1.0 } else { 0.75 } } else { 0.0 },
            4 => if i == j { if x < 3.0 { 100.0 + x } else { x * 0.1 } } else if side { 0.5 } else { 0.0 },
            // conjugate pairs of nearly equal magnitude
            5 => if i == j { 1.0 + x / n as f64 } else if i / 2 == j / 2 { if i < j { -2.0 } else { 2.0 } } else { 0.0 },
            6 => if i == j { 3.0 } else if i + 1 == j { 1.0 } else if i == j + 1 { -0.5 } else { 0.0 },
            _ => if i == j { x * x } else if side || i.abs_diff(j) == n / 2 { 1.0 } else { 0.0 },
        }
    })
}

// ---- C24 ---------------------------------------------------------------------------------------------------
/// One computation: a matrix and a count, or one that fails.
#[derive(Clone)]
struct Job { name: &'static str, m: Tri<f64>, nev: usize, bad_index: bool }
fn jobs() -> Vec<Job> {
    let j = |name, m, nev| Job { name, m, nev, bad_index: false };
    vec![
        j("3x3 symmetric", full(3, |i, j| [[5.0, 1.0, 0.0], [1.0, -2.0, 0.5], [0.0, 0.5, 1.0]][i][j]), 1),
        j("4x4 conjugate pair", blocks(4, 1, 1), 2),
        j("5x5", blocks(5, 2, 1), 1),
        j("7x7, three", blocks(7, 4, 1), 3),
        j("12x12 restarted", tridiagonal(12, 1), 1),
        j("zero matrix, refused by the native library", Tri::new(4, 4, vec![]), 1),
        j("not square, refused", Tri::new(3, 4, vec![(0, 0, 1.0)]), 1),
        Job { name: "4x4 with an index outside, panics", m: blocks(4, 0, 1), nev: 1, bad_index: true },
    ]
}
type Answer = Result<Pairs, String>;
fn perform(j: &Job) -> Answer {
    if !j.bad_index { return call(&j.m, j.nev) }
    // the arrays name a row that does not exist: the product with a vector panics in the middle of the iteration
    let (p, mut i, x) = j.m.comp::<usize>(false);
    *i.last_mut().unwrap() = 1_000_000;
    match attempt(|| CSC::new(j.m.rows, j.m.cols, i, p, x).map(|a| eigs(&a, j.nev).map(|_| ()).is_ok())) { Err(p) => Err(format!("panic: {p}")), Ok(_) => Err("refused".into()) }
}
fn answer_ok(j: &Job, a: &Answer, alone: &Answer, w: &Wanted) -> R {
    match (a, alone) {
        (Ok(p), Ok(_)) => pairs_ok(&j.m.dense(), j.nev, p, w).map_err(|e| format!("{}: {e}", j.name)),
        (Err(_), Err(_)) => Ok(()),
        (Err(e), Ok(_)) => Err(format!("{} fails, though alone it succeeds: {e}", j.name)),
        (Ok(p), Err(e)) => Err(format!("{} gives {p:?}, though alone it fails: {e}", j.name)),
    }
}
/// Every schedule of the threads, each performing its jobs in turn, up to `bound` preemptions.
fn schedules(plan: Vec<Vec<Job>>, bound: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("threads: {}", plan.iter().map(|t| t.iter().map(|j| j.name).collect::<Vec<_>>().join(", then ")).collect::<Vec<_>>().join(" | ")));
    let alone: Vec<Vec<(Answer, Wanted)>> = plan.iter().map(|t| t.iter().map(|j| {
        let good = j.m.rows == j.m.cols;
        (perform(j), if good { wanted(&j.m.dense(), j.nev) } else { Wanted { top: None, must: false } })
    }).collect()).collect();
    for (t, a) in plan.iter().zip(&alone) { for (j, (a, w)) in t.iter().zip(a) { if w.top.is_some() && w.must && !j.bad_index { ck!(a.is_ok(), "{} fails alone: {a:?}", j.name) } } }
    let before = DAMAGED.load(SeqCst);
    let mut prefix = vec![];
    let (mut count, mut blocked, mut diverged, mut len) = (0u64, 0u64, 0u64, 0usize);
    loop {
        let js: Vec<Box<dyn FnOnce() -> Vec<Answer> + Send>> = plan.iter().map(|t| { let t = t.clone(); Box::new(move || t.iter().map(perform).collect()) as Box<dyn FnOnce() -> Vec<Answer> + Send> }).collect();
        cx.op("eigs");
        let r = sched::run(js, &prefix);
        count += 1;
        blocked += r.blocked;
        diverged += r.diverged as u64;
        len = len.max(r.trace.len());
        let picks: Vec<usize> = r.trace.iter().map(|x| x.0[x.1]).collect();
        let mut h = 24;
        for &p in &picks { h = mix(h, p as u64 + 1); cx.see(mix(h, plan.iter().flatten().fold(0, |h, j| mix(h, j.m.hash(j.nev as u64))))) }
        cx.transitions += picks.len() as u64;
        let at = |e: String| format!("{e}; threads {}; schedule of native calls: {picks:?}", plan.iter().map(|t| t.iter().map(|j| j.name).collect::<Vec<_>>().join(", then ")).collect::<Vec<_>>().join(" | "));
        if let Some(s) = r.stuck { return Err(at(s)) }
        ck!(DAMAGED.load(SeqCst) == before, "{}", at("memory outside of an array is overwritten".into()));
        for (t, (a, al)) in r.results.into_iter().zip(&alone).enumerate() {
            match a {
                Some(Ok(a)) => for ((j, a), (al, w)) in plan[t].iter().zip(&a).zip(al) { answer_ok(j, a, al, w).map_err(|e| at(format!("thread {t}: {e}")))? },
                Some(Err(p)) => return Err(at(format!("thread {t} panics: {p}"))),
                None => return Err(at(format!("thread {t} gives no answer"))),
            }
        }
        match sched::next(&r.trace, bound) { Some(p) => prefix = p, None => break }
        ck!(count < 200_000, "too many schedules");
    }
    cx.say(|| format!("{count} schedules of up to {len} native calls, a thread found blocked {blocked} times, {diverged} schedules could not be followed to the end"));
    Ok(())
}
fn c24(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let bound = if th { 6 } else { 3 };
    let n = jobs().len() as u64;
    v.push(space(format!("two threads, one computation each, {bound} preemptions"), n * n, move |i, cx| {
        let j = jobs();
        schedules(vec![vec![j[(i % n) as usize].clone()], vec![j[(i / n) as usize].clone()]], bound, cx)
    }));
    v.push(space("two threads, two computations and one, 2 preemptions", n * n, move |i, cx| {
        let j = jobs();
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        schedules(vec![vec![j[a].clone(), j[b].clone()], vec![j[(a + b) % 4].clone()]], 2, cx)
    }));
    // three threads: all triples of short computations, and longer ones
    let short = [0usize, 1, 5, 6, 7];
    let (b3, m) = if th { (2, 125) } else { (1, 125) };
    v.push(space(format!("three threads, {b3} preemptions"), m, move |i, cx| {
        let j = jobs();
        let i = i as usize;
        schedules([i % 5, i / 5 % 5, i / 25].iter().map(|&k| vec![j[short[k]].clone()]).collect(), b3, cx)
    }));
    if !th {
        v.push(space("three threads, 2 preemptions", 4, move |i, cx| {
            let j = jobs();
            schedules([[0, 1, 0], [1, 0, 7], [5, 0, 1], [0, 6, 1]][i as usize].iter().map(|&k| vec![j[k].clone()]).collect(), 2, cx)
        }));
    } else {
        v.push(space("three threads, longer computations, 1 preemption", 27, move |i, cx| {
            let j = jobs();
            let i = i as usize;
            schedules([i % 3, i / 3 % 3, i / 9].iter().map(|&k| vec![j[k + 2].clone()]).collect(), 1, cx)
        }));
    }
    v
}
