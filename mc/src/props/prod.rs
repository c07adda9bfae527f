//! C06 matrix-vector products, C07 matrix-matrix products.
use super::*;
use crate::ck;
use num_complex::Complex64;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::*;
use std::collections::BTreeMap;

// ---- C06 ---------------------------------------------------------------------------------------------------
/// y0 + A x for `n` vectors stored side by side (row-major).
fn axy<T: El>(m: &Tri<T>, x: &[T], y0: &[T], n: usize) -> Vec<T> {
    let mut y = y0.to_vec();
    for &(i, j, v) in &m.e { for q in 0..n { y[i * n + q] += v * x[j * n + q] } }
    y
}
pub fn vec_case<I: Ix, T: El>(m: &Tri<T>, x: &[T], y0: &[T], cx: &mut Cx) -> R {
    cx.say(|| format!("{} times {x:?}, output starts as {y0:?}", show(m)));
    cx.see(mix(m.hash(6), x.iter().chain(y0).fold(1, |h, v| mix(h, v.bits()))));
    let z = vec![T::zero(); m.rows];
    let (w0, w) = (axy(m, x, &z, 1), axy(m, x, y0, 1));
    let (mr, mc) = (&m.by_row(), &m.by_col());
    let (a, c): (CSR<I, T>, CSC<I, T>) = (m.csr(), m.csc());
    let e = |e: anyhow::Error| e.to_string();
    cx.op("CSR::mat_vec"); ctx("CSR::mat_vec", same_vec(&a.mat_vec(x).map_err(e)?, &w0))?;
    cx.op("CSC::mat_vec"); ctx("CSC::mat_vec", same_vec(&c.mat_vec(x).map_err(e)?, &w0))?;
    let xv = x.to_vec();
    cx.op("CSR * vector");
    ctx("&CSR * &[T]", same_vec(&(&a * x), &w0))?;
    ctx("&CSR * &Vec", same_vec(&(&a * &xv), &w0))?;
    ctx("CSR * &[T]", same_vec(&(a.clone() * x), &w0))?;
    ctx("CSR * &Vec", same_vec(&(a.clone() * &xv), &w0))?;
    cx.op("CSC * vector");
    ctx("&CSC * &[T]", same_vec(&(&c * x), &w0))?;
    ctx("&CSC * &Vec", same_vec(&(&c * &xv), &w0))?;
    ctx("CSC * &[T]", same_vec(&(m.csc::<I>() * x), &w0))?;
    ctx("CSC * &Vec", same_vec(&(m.csc::<I>() * &xv), &w0))?;
    let (p, j, v) = mr.comp::<I>(true);
    let (q, i, u) = mc.comp::<I>(false);
    let mut y = y0.to_vec();
    cx.op("csr_matvec"); csr_matvec(m.rows, m.cols, &p, &j, &v, x, &mut y); ctx("csr_matvec", same_vec(&y, &w))?;
    let mut y = y0.to_vec();
    cx.op("csc_matvec"); csc_matvec(m.rows, m.cols, &q, &i, &u, x, &mut y); ctx("csc_matvec", same_vec(&y, &w))?;
    let (ci, cj): (Vec<I>, Vec<I>) = (m.e.iter().map(|e| ix(e.0)).collect(), m.e.iter().map(|e| ix(e.1)).collect());
    let cv: Vec<T> = m.e.iter().map(|e| e.2).collect();
    let mut y = y0.to_vec();
    cx.op("coo_matvec"); coo_matvec(m.e.len(), &ci, &cj, &cv, x, &mut y); ctx("coo_matvec", same_vec(&y, &w))?;
    // several vectors: every vector is a rotation of x, every output a rotation of y0
    for n in [0usize, 1, 2, 3, 5] {
        let xs: Vec<T> = (0..m.cols * n).map(|k| x[(k / n + k % n) % m.cols]).collect();
        let ys: Vec<T> = (0..m.rows * n).map(|k| y0[(k / n + k % n) % m.rows]).collect();
        let w = axy(m, &xs, &ys, n);
        let mut y = ys.clone();
        cx.op("csr_matvecs"); csr_matvecs(m.rows, m.cols, n, &p, &j, &v, &xs, &mut y); ctx("csr_matvecs", same_vec(&y, &w)).map_err(|e| format!("{n} vectors: {e}"))?;
        let mut y = ys.clone();
        cx.op("csc_matvecs"); csc_matvecs(m.rows, m.cols, n, &q, &i, &u, &xs, &mut y); ctx("csc_matvecs", same_vec(&y, &w)).map_err(|e| format!("{n} vectors: {e}"))?;
    }
    Ok(())
}
/// Every vector of length n over an alphabet.
fn all_vecs<T: El>(n: usize, al: &[T]) -> Vec<Vec<T>> {
    (0..al.len().pow(n as u32)).map(|mut q| (0..n).map(|_| { let v = al[q % al.len()]; q /= al.len(); v }).collect()).collect()
}
fn with_vecs<I: Ix, T: El>(s: &mut Vec<Space>, name: &str, en: En<T>, r: usize, c: usize, xa: &[T], ya: &[T]) {
    let (xs, ys) = (all_vecs(c, xa), all_vecs(r, ya));
    let (nx, ny) = (xs.len() as u64, ys.len() as u64);
    s.push(space(name, en.n * nx * ny, move |i, cx| vec_case::<I, T>(&en.get(i / (nx * ny)), &xs[(i % nx) as usize], &ys[(i / nx % ny) as usize], cx)));
}
pub fn fam_vec<I: Ix, T: El>(m: &Tri<T>, cx: &mut Cx) -> R {
    for k in 0..2 {
        let x: Vec<T> = (0..m.cols).map(|i| T::of(if k == 0 { (i % 11) as f64 + 1.0 } else { [0.0, -2.0, 0.5, 3.0, -1.0][i % 5] })).collect();
        let y: Vec<T> = (0..m.rows).map(|i| T::of(if k == 0 { 0.0 } else { (i % 7) as f64 - 3.0 })).collect();
        vec_case::<I, T>(m, &x, &y, cx)?;
    }
    Ok(())
}
/// Many vectors: the kernels with n vectors of values that all differ.
fn many_case<I: Ix, T: El>(m: &Tri<T>, n: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("{} times {n} vectors", show(m)));
    cx.see(mix(m.hash(66), n as u64));
    let xs: Vec<T> = (0..m.cols * n).map(|k| T::of((k % 97) as f64 - 40.0)).collect();
    let ys: Vec<T> = (0..m.rows * n).map(|k| T::of((k * 5 % 89) as f64 - 30.0)).collect();
    let w = axy(m, &xs, &ys, n);
    let (p, j, v) = m.by_row().comp::<I>(true);
    let mut y = ys.clone();
    cx.op("csr_matvecs"); csr_matvecs(m.rows, m.cols, n, &p, &j, &v, &xs, &mut y); ctx("csr_matvecs", same_vec(&y, &w)).map_err(|e| format!("{n} vectors: {e}"))?;
    let (q, i, u) = m.by_col().comp::<I>(false);
    let mut y = ys.clone();
    cx.op("csc_matvecs"); csc_matvecs(m.rows, m.cols, n, &q, &i, &u, &xs, &mut y); ctx("csc_matvecs", same_vec(&y, &w)).map_err(|e| format!("{n} vectors: {e}"))
}
pub fn c06(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    // every number of vectors
    let nv: Vec<usize> = (0..=140).chain([191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097]).collect();
    let st = union(vec![structs(2, 2, 1, true), structs(1, 2, 2, true), structs(3, 2, 1, true), structs(2, 3, 1, true)]);
    let (k, nv2) = (nv.len() as u64, nv.clone());
    s.push(space("any number of vectors/small", st.n * k, move |i, cx| many_case::<usize, f64>(&st.get(i / k), nv[(i % k) as usize], cx)));
    let fa = families::<f64>(vec![(1, 1), (3, 4), (7, 5), (9, 17), (16, 16)], 2);
    s.push(space("any number of vectors/families", fa.n * 40, move |i, cx| many_case::<u16, f64>(&fa.get(i / 40), nv2[(i % 40) as usize], cx)));
    let t = th as u32;
    for (r, c, l) in [(1, 1, 4), (1, 2, 3 + t), (2, 1, 3 + t), (2, 2, 3), (2, 3, 2 + t), (3, 2, 2 + t)] {
        with_vecs::<usize, f64>(s, &format!("{r}x{c}/triplets/len{l}/values 1,-1,0"), triples(r, c, l, &A3), r, c, &[1.0, -2.0, 0.0], &[0.0, 5.0]);
    }
    for (r, c, l) in [(2, 2, 5), (3, 3, 4), (1, 3, 6), (3, 1, 6), (4, 2, 4), (2, 4, 4)] {
        let (x, y) = (vec![vec![1.0, 3.0, 7.0, 12.0], vec![2.0, -1.0, 0.0, 5.0]], vec![vec![0.0; 4], vec![1.0, -8.0, 4.0, 2.0]]);
        one(s, &format!("{r}x{c}/triplets/len{l}/distinct"), triples(r, c, l + t, &[1.0]).map(distinct), move |m, cx| { for k in 0..2 { vec_case::<u32, f64>(m, &x[k][..m.cols], &y[k][..m.rows], cx)? } Ok(()) });
    }
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0];
    with_vecs::<usize, f64>(s, "special values/1x2", triples(1, 2, 2, &sp), 1, 2, &sp, &[0.0, f64::INFINITY, f64::NAN]);
    with_vecs::<usize, f64>(s, "special values/2x2", triples(2, 2, 1 + t, &sp), 2, 2, &sp, &[0.0, 1.0]);
    let c = |a, b| Complex64::new(a, b);
    with_vecs::<i16, Complex64>(s, "complex/2x2", triples(2, 2, 2, &[c(1.0, 2.0), c(0.0, -1.0)]), 2, 2, &[c(1.0, 0.0), c(-2.0, 1.0)], &[c(0.0, 0.0), c(3.0, 1.0)]);
    with_vecs::<i8, i64>(s, "integers/2x2", triples(2, 2, 3, &[3i64, -1]), 2, 2, &[1, -2], &[0, 9]);
    // shapes without rows or without columns
    for (r, c) in [(0usize, 0usize), (0, 3), (3, 0)] {
        one(s, &format!("{r}x{c}"), En { n: 1, f: Box::new(move |_| Tri::<f64>::new(r, c, vec![])) }, fam_empty);
    }
    one(s, "families/usize f64", families::<f64>(nonempty(dims(th)), 4), fam_vec::<usize, f64>);
    one(s, "families/i32 i64", families::<i64>(nonempty(dims(false)), 3), fam_vec::<i32, i64>);
    one(s, "families/u16 complex", families::<Complex64>(nonempty(fit(dims(false), 130)), 2), fam_vec::<u16, Complex64>);
    one(s, "families/u8 f32", families::<f32>(nonempty(narrow(255)), 2), fam_vec::<u8, f32>);
    one(s, "families/i128 i128", families::<i128>(nonempty(fit(dims(false), 20)), 2), fam_vec::<i128, i128>);
    one(s, "long", huge::<f64>(), fam_vec::<u32, f64>);
    v
}
fn nonempty(d: Vec<(usize, usize)>) -> Vec<(usize, usize)> { d.into_iter().filter(|x| x.0 > 0 && x.1 > 0).collect() }
fn fam_empty(m: &Tri<f64>, cx: &mut Cx) -> R {
    let (a, c): (CSR<usize, f64>, CSC<usize, f64>) = (m.csr(), m.csc());
    let (x, w) = (vec![2.0; m.cols], vec![0.0; m.rows]);
    cx.op("mat_vec"); cx.see(m.hash(66));
    ctx("CSR::mat_vec", same_vec(&a.mat_vec(&x).unwrap(), &w))?;
    ctx("CSC::mat_vec", same_vec(&c.mat_vec(&x).unwrap(), &w))?;
    for n in [0usize, 1, 2] {
        let (xs, ys) = (vec![2.0; m.cols * n], vec![7.0; m.rows * n]);
        let mut y = ys.clone();
        csr_matvecs(m.rows, m.cols, n, a.rowptr(), a.colidx(), a.values(), &xs, &mut y);
        ctx("csr_matvecs", same_vec(&y, &ys))?;
        csc_matvecs(m.rows, m.cols, n, c.colptr(), c.rowidx(), c.values(), &xs, &mut y);
        ctx("csc_matvecs", same_vec(&y, &ys))?;
    }
    Ok(())
}

// ---- C07 ---------------------------------------------------------------------------------------------------
/// The product at every position at which products of stored entries meet.
pub fn product<T: El>(a: &Tri<T>, b: &Tri<T>) -> BTreeMap<(usize, usize), T> {
    let mut rows: Vec<Vec<(usize, T)>> = vec![vec![]; b.rows];
    for e in &b.e { rows[e.0].push((e.1, e.2)) }
    let mut m = BTreeMap::new();
    for x in &a.e { for y in &rows[x.1] { let p = x.2 * y.1; m.entry((x.0, y.0)).and_modify(|s: &mut T| *s += p).or_insert(p); } }
    m
}
fn prod_ok<T: El>(what: &str, g: &Tri<T>, sh: (usize, usize), w: &BTreeMap<(usize, usize), T>, cx: &mut Cx) -> R {
    cx.see(g.hash(7));
    ck!((g.rows, g.cols) == sh, "{what}: shape is {}x{}, must be {:?}", g.rows, g.cols, sh);
    ctx(what, no_dups(g))?;
    ctx(what, no_zeros(g))?;
    let want: Vec<_> = w.iter().filter(|e| !e.1.is_zero()).map(|(k, v)| (k.0, k.1, *v)).collect();
    let mut got = g.e.clone();
    got.sort_by_key(|e| (e.0, e.1));
    ck!(got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2.same(&y.2)), "{what} gives {:?}, must be {:?}", got, want);
    Ok(())
}
pub fn mm_case<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("{} times {}", show(a), show(b)));
    let w = product(a, b);
    let sh = (a.rows, b.cols);
    let (ar, br): (CSR<I, T>, CSR<I, T>) = (a.csr(), b.csr());
    let (ac, bc): (CSC<I, T>, CSC<I, T>) = (a.csc(), b.csc());
    let er = |e: anyhow::Error| e.to_string();
    cx.op("CSR::mat_mat"); prod_ok("CSR::mat_mat", &rd_csr(&ar.mat_mat(&br).map_err(er)?)?, sh, &w, cx)?;
    cx.op("CSR * CSR"); prod_ok("CSR * CSR", &rd_csr(&(&ar * &br))?, sh, &w, cx)?;
    cx.op("CSC::mat_mat"); prod_ok("CSC::mat_mat", &rd_csc(&ac.mat_mat(&bc).map_err(er)?)?, sh, &w, cx)?;
    cx.op("CSC * CSC"); prod_ok("CSC * CSC", &rd_csc(&(&ac * &bc))?, sh, &w, cx)?;
    cx.op("CSC * CSR"); prod_ok("CSC * CSR", &rd_csc(&(&ac * &br))?, sh, &w, cx)?;
    cx.op("csr_matmat_maxnnz");
    let n = csr_matmat_maxnnz(a.rows, b.cols, ar.rowptr(), ar.colidx(), br.rowptr(), br.colidx());
    ck!(n == w.len(), "csr_matmat_maxnnz is {n}, products meet at {} positions", w.len());
    cx.op("csc_matmat_maxnnz");
    let n = csc_matmat_maxnnz(a.rows, b.cols, ac.colptr(), ac.rowidx(), bc.colptr(), bc.rowidx());
    ck!(n == w.len(), "csc_matmat_maxnnz is {n}, products meet at {} positions", w.len());
    let (mut p, mut j, mut x) = (junk::<I>(a.rows + 1), junk::<I>(n), vec![T::one(); n]);
    cx.op("csr_matmat");
    csr_matmat(a.rows, b.cols, ar.rowptr(), ar.colidx(), ar.values(), br.rowptr(), br.colidx(), br.values(), &mut p, &mut j, &mut x);
    prod_ok("csr_matmat", &Tri::new(sh.0, sh.1, read_comp(sh.0, sh.1, &p, &j, &x)?), sh, &w, cx)?;
    let (mut p, mut j, mut x) = (junk::<I>(b.cols + 1), junk::<I>(n), vec![T::one(); n]);
    cx.op("csc_matmat");
    csc_matmat(a.rows, b.cols, ac.colptr(), ac.rowidx(), ac.values(), bc.colptr(), bc.rowidx(), bc.values(), &mut p, &mut j, &mut x);
    prod_ok("csc_matmat", &Tri::new(sh.0, sh.1, read_comp(sh.1, sh.0, &p, &j, &x)?.into_iter().map(|(c, r, v)| (r, c, v)).collect()), sh, &w, cx)
}
pub fn c07(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let sc = |e: En<f64>| e.map(|m| m.map(|x| if x > 1.0 { x + 1.0 / x } else { x }));
    // (rows, inner, columns, length): every triplet sequence on both sides
    for (r, k, c, l) in [(1, 1, 1, 4), (1, 2, 1, 3), (2, 1, 2, 3), (1, 1, 2, 3), (2, 1, 1, 3)] {
        two(s, &format!("{r}x{k}x{c}/triplets/len{l}/values 1,-1,0"), triples(r, k, l, &A3), triples(k, c, l, &A3), mm_case::<usize, f64>);
    }
    let t = th as u32;
    for (r, k, c, l) in [(2, 2, 2, 2 + t), (1, 2, 2, 3), (2, 2, 1, 3), (1, 3, 2, 2 + t), (2, 3, 1, 2 + t), (2, 1, 3, 2 + t), (3, 1, 2, 2 + t)] {
        two(s, &format!("{r}x{k}x{c}/triplets/len{l}/values 1,-1"), triples(r, k, l, &A3[..2]), triples(k, c, l, &A3[..2]), mm_case::<u32, f64>);
    }
    for (r, k, c, l) in [(2, 2, 2, 4), (3, 2, 3, 3), (2, 3, 2, 3), (3, 3, 3, 2), (1, 4, 2, 3), (2, 4, 1, 3), (1, 3, 3, 3), (3, 3, 1, 3)] {
        two(s, &format!("{r}x{k}x{c}/triplets/len{l}/distinct"), triples(r, k, l, &[1.0]).map(distinct), sc(triples(k, c, l, &[1.0]).map(distinct)), mm_case::<usize, f64>);
    }
    let a5: &[f64] = &[1.0, -1.0, 0.0, 2.0];
    for (r, k, c, al) in [(2, 2, 2, a5), (2, 3, 2, &A3[..2]), (3, 2, 3, &A3[..2]), (3, 3, 3, &A3[..1]), (1, 6, 1, &A3[..2]), (1, 4, 2, &A3[..2]), (2, 4, 1, &A3[..2]), (1, 3, 3, &A3[..2]), (3, 3, 1, &A3[..2])] {
        two(s, &format!("{r}x{k}x{c}/canonical/values {al:?}"), canon(r, k, al), canon(k, c, al), mm_case::<usize, f64>);
    }
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0];
    two(s, "special values/1x2x1", canon(1, 2, &sp), canon(2, 1, &sp), mm_case::<usize, f64>);
    // products and sums far below any tolerance, and close to cancelling: all exact
    let e = |k: i32| 2f64.powi(k);
    let tiny = [e(-60), -e(-500), e(-13), 1.0 + e(-26), -1.0];
    two(s, "tiny values/2x2x1", canon(2, 2, &tiny), canon(2, 1, &tiny), mm_case::<usize, f64>);
    two(s, "tiny values/1x2x2", canon(1, 2, &tiny), canon(2, 2, &tiny), mm_case::<u32, f64>);
    two(s, "tiny values/1x1x1/triplets", triples(1, 1, 3, &[e(-20), -e(-20), 1.0 + e(-10)]), triples(1, 1, 2, &[e(-20), -e(-20), 1.0 + e(-10)]), mm_case::<u32, f64>);
    two(s, "special values/2x1x2", canon(2, 1, &sp), canon(1, 2, &sp), mm_case::<usize, f64>);
    two(s, "special values/2x2x1", canon(2, 2, &sp[..3]), canon(2, 1, &sp), mm_case::<usize, f64>);
    let c = |a, b| Complex64::new(a, b);
    two(s, "complex/2x2x2", canon(2, 2, &[c(1.0, 1.0), c(0.0, -1.0), c(-1.0, 1.0)]), canon(2, 2, &[c(1.0, -1.0), c(1.0, 1.0), c(0.0, 0.0)]), mm_case::<i32, Complex64>);
    two(s, "integers/2x2x2", canon(2, 2, &[3i64, -1, 0]), canon(2, 2, &[1i64, 3, -2]), mm_case::<i8, i64>);
    let fd = |d: Vec<(usize, usize, usize)>| d.into_iter().map(|(r, k, c)| ((r, k), (k, c))).collect::<Vec<_>>();
    let mut d = vec![(0, 0, 0), (0, 2, 3), (3, 0, 2), (2, 3, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 2, 5), (2, 5, 4), (5, 4, 2), (1, 12, 1), (12, 1, 12), (9, 8, 7), (3, 40, 3), (8, 3, 20), (16, 17, 15)];
    if th { d.extend([(33, 31, 32), (1, 300, 2), (20, 2, 20), (64, 64, 64), (2, 130, 2)]) }
    fam_two(s, "families/usize f64", fd(d.clone()), if th { 6 } else { 4 }, 3, mm_case::<usize, f64>);
    fam_two(s, "families/u16 i64", fd(d[..15].to_vec()), 4, 1, mm_case::<u16, i64>);
    fam_two(s, "families/i32 complex", fd(d[..13].to_vec()), 2, 1, mm_case::<i32, Complex64>);
    fam_two(s, "families/u8 f32", fd(vec![(1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 2, 5), (5, 4, 2), (7, 6, 7)]), 4, 2, mm_case::<u8, f32>);
    // rows of the left operand, columns of the right one, at every distance; inner lengths of every size
    let few: Vec<Tri<f64>> = vec![Tri::new(2, 1, vec![(0, 0, 3.0), (1, 0, 1.0)]), Tri::new(2, 2, vec![(0, 0, 1.0), (1, 1, -1.0)]), Tri::new(2, 2, vec![(0, 1, 1.0), (0, 0, 2.0), (1, 0, 1.0)]), Tri::new(2, 3, vec![(1, 2, 1.0), (1, 0, 1.0), (0, 2, 1.0), (0, 2, 1.0)])];
    let (np, gp) = gap_pairs::<f64>();
    s.push(space("lines at every distance", np, move |i, cx| {
        let (a, b) = gp(i);
        if a.cols == 2 { mm_case::<usize, f64>(&a, &few[i as usize % 4], cx)?; mm_case::<usize, f64>(&b.t(), &a, cx) }
        else { mm_case::<u32, f64>(&few[i as usize % 4].t(), &a, cx)?; mm_case::<usize, f64>(&a, &b.t(), cx) }
    }));
    let sz = sizes::<f64>();
    s.push(space("lines of every length", sz.n, move |i, cx| {
        let a = sz.get(i);
        let k = a.rows.min(a.cols).min(3);
        let l = Tri::new(2, a.rows, (0..a.rows).flat_map(|q| [(q % 2, q, 1.0), (1, (q * 3) % a.rows, -1.0)]).collect());
        let r = Tri::new(a.cols, k, (0..a.cols).flat_map(|q| [(q, q % k, if q % 3 == 0 { -1.0 } else { 1.0 }), (q, 0, 2.0)]).collect());
        mm_case::<usize, f64>(&a, &r, cx)?;
        mm_case::<u32, f64>(&l, &a, cx)
    }));
    let le = long::<f64>();
    s.push(space("long", le.n, move |i, cx| {
        let a = le.get(i);
        let b = a.t().map(|v| if v > 3.0 { -v } else { v });
        if a.rows < a.cols { mm_case::<u32, f64>(&a, &b, cx) } else { mm_case::<usize, f64>(&a, &b, cx) }
    }));
    let he = heavy::<f64>();
    s.push(space("heavy", he.n, move |i, cx| {
        let a = he.get(i);
        // between narrow matrices, so that the result stays small
        let l = Tri::new(3, a.rows, (0..a.rows).flat_map(|k| [(k % 2, k, 1.0), (2, k, if k % 7 == 0 { -2.0 } else { 0.0 })]).collect());
        let r = Tri::new(a.cols, 2, (0..a.cols).flat_map(|k| [(k, k % 2, if k % 3 == 0 { -1.0 } else { 1.0 }), (k, 1, 2.0)]).collect());
        mm_case::<u32, f64>(&l, &a, cx)?;
        mm_case::<usize, f64>(&a, &r, cx)
    }));
    v
}
