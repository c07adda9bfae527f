//! C01 conversions, C09 transposes.
use crate::ck;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::*;

use super::{ctx, fit, huge, narrow, one, A3, SPECIAL};
use num_complex::Complex64;
use sparsetools::dok::DoK;

/// coordinate matrix `m` (triplets in storage order) to everything else
pub fn coo_case<I: Ix, T: El>(m: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("Coo {}", show(m)));
    cx.see(m.hash(1));
    let a: Coo<I, T> = m.coo();
    let can = m.canon();
    cx.op("Coo::to_csr");
    let r = a.to_csr();
    let rr = rd_csr(&r)?;
    cx.see(rr.hash(2));
    ck!(sorted_lines(&rr, true, true), "Coo::to_csr result is not sorted and duplicate-free: {:?}", rr.e);
    ctx("Coo::to_csr", same_seq_num(&rr, &can))?;
    cx.op("Coo::to_csc");
    let c = a.to_csc();
    let rc = rd_csc(&c)?;
    cx.see(rc.hash(3));
    ck!(sorted_lines(&rc, false, true), "Coo::to_csc result is not sorted and duplicate-free: {:?}", rc.e);
    ctx("Coo::to_csc", same_seq_num(&rc, &can.by_col()))?;
    if no_dups(m).is_ok() { ctx("Coo::to_csr values", same_seq(&rr, &can))?; ctx("Coo::to_csc values", same_seq(&rc, &can.by_col()))? }
    let d = m.dense();
    cx.op("Coo::to_dense");
    ctx("Coo::to_dense", same_dense(&a.to_dense(), &d))?;
    // kernels
    let nnz = m.e.len();
    let (n, k) = (m.rows, m.cols);
    let junk = ix::<I>(1);
    let (mut bp, mut bj, mut bx) = (vec![junk; n + 1], vec![junk; nnz], vec![T::one(); nnz]);
    cx.op("coo_tocsr");
    coo_tocsr(n, k, nnz, a.rowidx(), a.colidx(), a.values(), &mut bp, &mut bj, &mut bx);
    let g = Tri::new(n, k, read_comp(n, k, &bp, &bj, &bx)?);
    ctx("coo_tocsr", same_bag(&g, m))?;
    // B += A into a dense array that already holds something
    let mut want: Vec<Vec<T>> = (0..n).map(|i| (0..k).map(|j| T::of(((i * 3 + j) % 4) as f64)).collect()).collect();
    let base = want.clone();
    for e in &m.e { want[e.0][e.1] += e.2 }
    for fortran in [false, true] {
        let at = |i: usize, j: usize| if fortran { n * j + i } else { k * i + j };
        let mut bx = vec![T::zero(); n * k];
        for i in 0..n { for j in 0..k { bx[at(i, j)] = base[i][j] } }
        cx.op("coo_todense");
        coo_todense(n, k, nnz, a.rowidx(), a.colidx(), a.values(), &mut bx, fortran);
        for i in 0..n { for j in 0..k { ck!(bx[at(i, j)].same(&want[i][j]), "coo_todense(fortran={}) element ({}, {}) is {:?}, must be {:?}", fortran, i, j, bx[at(i, j)], want[i][j]); } }
    }
    Ok(())
}
/// CSR matrix `m` to everything else, possibly with unused slots behind the entries
pub fn csr_case<I: Ix, T: El>(m: &Tri<T>, spare: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("CSR {} spare {}", show(m), spare));
    cx.see(m.hash(2));
    let (p, mut j, mut x) = m.comp::<I>(true);
    let m = &m.by_row();
    for _ in 0..spare { j.push(I::zero()); x.push(T::one()) }
    let a: CSR<I, T> = CSR::new(m.rows, m.cols, p.clone(), j.clone(), x.clone()).unwrap();
    let (n, k, nnz) = (m.rows, m.cols, m.e.len());
    cx.op("CSR::to_csc");
    let c = a.to_csc();
    let rc = rd_csc(&c)?;
    cx.see(rc.hash(3));
    ck!(sorted_lines(&rc, false, false), "CSR::to_csc result is not sorted: {:?}", rc.e);
    ctx("CSR::to_csc", same_bag(&rc, m))?;
    cx.op("CSR::to_coo");
    let o = a.to_coo();
    let ro = rd_coo(&o)?;
    cx.see(ro.hash(1));
    ctx("CSR::to_coo", same_bag(&ro, m))?;
    cx.op("Coo::to_dense");
    ctx("CSR::to_coo().to_dense()", same_dense(&o.to_dense(), &m.dense()))?;
    // kernels
    let junk = ix::<I>(1);
    let (mut bp, mut bi, mut bx) = (vec![junk; k + 1], vec![junk; nnz], vec![T::one(); nnz]);
    cx.op("csr_tocsc");
    csr_tocsc(n, k, &p, &j, &x, &mut bp, &mut bi, &mut bx);
    let g = Tri::new(k, n, read_comp(k, n, &bp, &bi, &bx)?);
    ck!(sorted_lines(&g, true, false), "csr_tocsc result is not sorted: {:?}", g.e);
    ctx("csr_tocsc", same_bag(&g, &m.t()))?;
    let (mut ai, mut bj, mut bx) = (vec![junk; nnz], vec![junk; nnz], vec![T::one(); nnz]);
    cx.op("csr_tocoo");
    csr_tocoo(n, k, &p, &j, &x, &mut ai, &mut bj, &mut bx);
    ctx("csr_tocoo", same_bag(&rd_coo(&Coo::new(n, k, ai, bj, bx).unwrap())?, m))?;
    let mut bi = vec![junk; nnz];
    cx.op("expandptr");
    expandptr(n, &p, &mut bi);
    ck!((0..nnz).all(|q| bi[q].to_usize() == Some(m.e[q].0)), "expandptr gives {:?}", bi);
    let mut dn = vec![vec![T::one(); k]; n];
    cx.op("csr_todense");
    csr_todense(n, k, &p, &j, &x, &mut dn);
    let mut want = vec![vec![T::one(); k]; n];
    for e in &m.e { want[e.0][e.1] += e.2 }
    ctx("csr_todense (added to ones)", same_dense(&dn, &want))
}
pub fn csc_case<I: Ix, T: El>(m: &Tri<T>, spare: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("CSC {} spare {}", show(m), spare));
    cx.see(m.hash(3));
    let (p, mut j, mut x) = m.comp::<I>(false);
    let m = &m.by_col();
    for _ in 0..spare { j.push(I::zero()); x.push(T::one()) }
    let a: CSC<I, T> = CSC::new(m.rows, m.cols, j.clone(), p.clone(), x.clone()).unwrap();
    let (n, k, nnz) = (m.rows, m.cols, m.e.len());
    cx.op("CSC::to_csr");
    let c = a.to_csr();
    let rc = rd_csr(&c)?;
    cx.see(rc.hash(2));
    ck!(sorted_lines(&rc, true, false), "CSC::to_csr result is not sorted: {:?}", rc.e);
    ctx("CSC::to_csr", same_bag(&rc, m))?;
    cx.op("CSC::to_coo");
    let ro = rd_coo(&a.to_coo())?;
    cx.see(ro.hash(1));
    ctx("CSC::to_coo", same_bag(&ro, m))?;
    cx.op("CSC::to_dense");
    ctx("CSC::to_dense", same_dense(&a.to_dense(), &m.dense()))?;
    let junk = ix::<I>(1);
    let (mut bp, mut bi, mut bx) = (vec![junk; n + 1], vec![junk; nnz], vec![T::one(); nnz]);
    cx.op("csc_tocsr");
    csc_tocsr(n, k, &p, &j, &x, &mut bp, &mut bi, &mut bx);
    let g = Tri::new(n, k, read_comp(n, k, &bp, &bi, &bx)?);
    ck!(sorted_lines(&g, true, false), "csc_tocsr result is not sorted: {:?}", g.e);
    ctx("csc_tocsr", same_bag(&g, m))
}

// ---- chains of conversions --------------------------------------------------------------------------------
/// A matrix in any of the formats.
pub enum Any<I, T> { Coo(Coo<I, T>), Csr(CSR<I, T>), Csc(CSC<I, T>), Dok(DoK<I, T>), Dense(Vec<Vec<T>>) }
pub fn rd_dok<I: Ix, T: El>(d: &DoK<I, T>) -> Result<Tri<T>, String> {
    let mut e = vec![];
    for (&(i, j), &v) in d.iter() {
        match (i.to_usize(), j.to_usize()) {
            (Some(i), Some(j)) if i < d.rows() && j < d.cols() => e.push((i, j, v)),
            _ => return Err(format!("dictionary entry ({i}, {j}) outside {}x{}", d.rows(), d.cols())),
        }
    }
    e.sort_by_key(|x| (x.0, x.1));
    Ok(Tri::new(d.rows(), d.cols(), e))
}
fn step<I: Ix, T: El>(a: &Any<I, T>, s: usize, cx: &mut Cx) -> Option<Any<I, T>> {
    use Any::*;
    let mut o = |n: &'static str| cx.op(n);
    Some(match (a, s) {
        (Coo(m), 0) => { o("Coo::to_csr"); Csr(m.to_csr()) }
        (Coo(m), 1) => { o("Coo::to_csc"); Csc(m.to_csc()) }
        (Coo(m), 2) => { o("Coo::to_dense"); Dense(m.to_dense()) }
        (Csr(m), 0) => { o("CSR::to_coo"); Coo(m.to_coo()) }
        (Csr(m), 1) => { o("CSR::to_csc"); Csc(m.to_csc()) }
        (Csc(m), 0) => { o("CSC::to_csr"); Csr(m.to_csr()) }
        (Csc(m), 1) => { o("CSC::to_coo"); Coo(m.to_coo()) }
        (Csc(m), 2) => { o("CSC::to_dense"); Dense(m.to_dense()) }
        (Dok(m), 0) => { o("DoK::to_csr"); Csr(m.to_csr()) }
        (Dok(m), 1) => { o("DoK::to_csc"); Csc(m.to_csc()) }
        (Dok(m), 2) => { o("DoK::to_coo"); Coo(m.to_coo()) }
        (Dok(m), 3) => { o("DoK::to_dense"); Dense(m.to_dense()) }
        (Dense(m), 0) => { o("CSR::from_dense"); Csr(CSR::from_dense(m)) }
        (Dense(m), 1) => { o("CSC::from_dense"); Csc(CSC::from_dense(m)) }
        (Dense(m), 2) => { o("Coo::from_dense"); Coo(sparsetools::coo::Coo::from_dense(m)) }
        (Dense(m), 3) => { o("DoK::from_dense"); let r: Vec<&[T]> = m.iter().map(|r| &r[..]).collect(); Dok(DoK::from_dense(&r)) }
        _ => return None,
    })
}
fn read_any<I: Ix, T: El>(a: &Any<I, T>, shape: (usize, usize)) -> Result<(Tri<T>, u64), String> {
    Ok(match a {
        Any::Coo(m) => (rd_coo(m)?, 1),
        Any::Csr(m) => (rd_csr(m)?, 2),
        Any::Csc(m) => (rd_csc(m)?, 3),
        Any::Dok(m) => (rd_dok(m)?, 4),
        Any::Dense(d) => {
            ck!(d.len() == shape.0 && d.iter().all(|r| r.len() == shape.1), "dense form has the wrong shape");
            (Tri::new(shape.0, shape.1, d.iter().enumerate().flat_map(|(i, r)| r.iter().enumerate().map(move |(j, &v)| (i, j, v))).collect()), 5)
        }
    })
}
/// Every chain of at most `depth` conversions.
fn chains<I: Ix, T: El>(a: &Any<I, T>, want: &Tri<T>, d: &[Vec<T>], depth: usize, path: &mut Vec<&'static str>, cx: &mut Cx) -> R {
    if depth == 0 { return Ok(()) }
    for s in 0..4 {
        // a dense form without rows does not know its number of columns
        let Some(b) = step(a, s, cx) else { break };
        path.push(cx.op);
        let (g, tag) = read_any(&b, (want.rows, want.cols)).map_err(|e| format!("after {path:?}: {e}"))?;
        cx.see(g.hash(tag));
        if !(want.rows == 0) || tag != 5 { same_shape(&g, want).and_then(|_| same_dense(&g.dense(), d)).map_err(|e| format!("after {path:?}: {e}"))?; }
        if matches!(a, Any::Coo(_) | Any::Dok(_)) {
            if tag == 2 { ck!(sorted_lines(&g, true, true), "after {:?}: not sorted and duplicate-free: {:?}", path, g.e) }
            if tag == 3 { ck!(sorted_lines(&g, false, true), "after {:?}: not sorted and duplicate-free: {:?}", path, g.e) }
        }
        if matches!((a, &b), (Any::Csr(_), Any::Csc(_))) { ck!(sorted_lines(&g, false, false), "after {:?}: not sorted: {:?}", path, g.e) }
        if matches!((a, &b), (Any::Csc(_), Any::Csr(_))) { ck!(sorted_lines(&g, true, false), "after {:?}: not sorted: {:?}", path, g.e) }
        if !(want.rows == 0 && tag == 5) { chains(&b, want, d, depth - 1, path, cx)?; }
        path.pop();
    }
    Ok(())
}
pub fn chain_case<I: Ix, T: El>(m: &Tri<T>, depth: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("all chains of {depth} conversions from {}", show(m)));
    let d = m.dense();
    chains(&Any::Coo(m.coo::<I>()), m, &d, depth, &mut vec!["Coo"], cx)?;
    chains(&Any::Csr(m.csr::<I>()), m, &d, depth, &mut vec!["CSR"], cx)?;
    chains(&Any::Csc(m.csc::<I>()), m, &d, depth, &mut vec!["CSC"], cx)
}
pub fn all_cases<I: Ix, T: El>(m: &Tri<T>, cx: &mut Cx) -> R {
    coo_case::<I, T>(m, cx)?;
    csr_case::<I, T>(m, 0, cx)?;
    csc_case::<I, T>(m, 0, cx)?;
    csr_case::<I, T>(m, 2, cx)?;
    csc_case::<I, T>(m, 2, cx)
}
pub fn c01(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    // every triplet sequence
    let t = if th { 1 } else { 0 };
    for (r, c, l) in [(2, 2, 3 + t), (1, 2, 4), (2, 1, 4), (2, 3, 3), (3, 2, 3), (1, 1, 5)] {
        one(s, &format!("coo/{r}x{c}/len{l}/values 1,-1,0"), triples(r, c, l, &A3), coo_case::<usize, f64>);
    }
    for (r, c, l) in [(2, 2, 6 + t), (3, 3, 4 + t), (1, 3, 7), (3, 1, 7), (2, 3, 5), (3, 2, 5), (4, 2, 4), (2, 4, 4)] {
        one(s, &format!("coo/{r}x{c}/len{l}/distinct"), triples(r, c, l, &[1.0]).map(distinct), coo_case::<u32, f64>);
    }
    one(s, "coo/2x2/special values", triples(2, 2 + t as usize, 2, &SPECIAL), coo_case::<usize, f64>);
    one(s, "coo/2x2/complex", triples(2, 2, 3, &[Complex64::new(1.0, 2.0), Complex64::new(-1.0, 0.0), Complex64::new(0.0, 0.0)]), coo_case::<u8, Complex64>);
    // every compressed matrix
    for by_row in [true, false] {
        let n = if by_row { "csr" } else { "csc" };
        let f = move |spare: usize| move |m: &Tri<f64>, cx: &mut Cx| if by_row { csr_case::<usize, f64>(m, spare, cx) } else { csc_case::<usize, f64>(m, spare, cx) };
        let d = |a: usize, b: usize| if by_row { (a, b) } else { (b, a) };
        for (a, b, l) in [(2, 2, 3), (2, 3, 2), (1, 3, 4), (3, 1, 3)] {
            let (r, c) = d(a, b);
            one(s, &format!("{n}/{r}x{c}/line length {l}/values 1,-1,0"), lines(r, c, l, if l == 3 && a > 1 && b > 1 && !th { &A3[..2] } else { &A3 }, by_row), f(0));
        }
        for (a, b, l) in [(3, 3, 2), (2, 3, 3), (3, 2, 3), (1, 4, 5), (4, 1, 4), (4, 2, 2), (2, 2, 5)] {
            let (r, c) = d(a, b);
            one(s, &format!("{n}/{r}x{c}/line length {l}/distinct"), structs(r, c, l, by_row), f(0));
        }
        one(s, &format!("{n}/2x2/spare slots"), structs(2, 2, 3, by_row), f(2));
        one(s, &format!("{n}/2x2/special values"), lines(2, 2, 2, &SPECIAL[..4 + 4 * t as usize], by_row), f(0));
        if th { one(s, &format!("{n}/3x3/line length 3/distinct"), structs(3, 3, 3, by_row), f(0)); }
    }
    // chains
    let dep = if th { 7 } else { 5 };
    one(s, "chains/2x2/line length 2", lines(2, 2, 2, if th { &A3 } else { &A3[..2] }, true), move |m, cx| chain_case::<usize, f64>(m, dep, cx));
    one(s, "chains/2x2/canonical with stored zeros", canon(2, 2, &A3), move |m, cx| chain_case::<u16, f64>(m, dep, cx));
    one(s, "chains/2x3/canonical", canon(2, 3, &[2.0, 0.0]), move |m, cx| chain_case::<i32, f64>(m, dep, cx));
    one(s, "chains/3x2/canonical integers", canon(3, 2, &[2i64, 0]), move |m, cx| chain_case::<i64, i64>(m, dep, cx));
    one(s, "chains/3x3/patterns", canon(3, 3, &[2.0]), move |m, cx| chain_case::<usize, f64>(m, dep, cx));
    one(s, "chains/families", families::<f64>(fit(dims(false), 9), 3), |m, cx| chain_case::<usize, f64>(m, 3, cx));
    // large
    one(s, "families/usize f64", families::<f64>(dims(th), 4), all_cases::<usize, f64>);
    one(s, "families/u16 complex", families::<Complex64>(fit(dims(false), 70), 3), all_cases::<u16, Complex64>);
    one(s, "families/i32 i64", families::<i64>(fit(dims(th), 300), 3), all_cases::<i32, i64>);
    one(s, "families/u8 f32", families::<f32>(narrow(255), 3), all_cases::<u8, f32>);
    one(s, "long/usize", huge::<f64>(), all_cases::<usize, f64>);
    one(s, "long/u32", huge::<i32>(), all_cases::<u32, i32>);
    v
}

// ---- C09 ---------------------------------------------------------------------------------------------------
pub fn t_case<I: Ix, T: El>(m: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("transposes of {}", show(m)));
    cx.see(m.hash(7));
    let w = m.t();
    let a: Coo<I, T> = m.coo();
    cx.op("Coo::t");
    let t = a.t();
    ctx("Coo::t", same_bag(&rd_coo(&t)?, &w))?;
    cx.op("Coo::transpose");
    ctx("Coo::transpose", same_bag(&rd_coo(&a.clone().transpose())?, &w))?;
    ctx("Coo::t twice", same_bag(&rd_coo(&t.t())?, m))?;
    ctx("Coo::transpose of Coo::t", same_bag(&rd_coo(&t.transpose())?, m))?;
    let a: CSR<I, T> = m.csr();
    cx.op("CSR::t");
    let t = a.t();
    ctx("CSR::t", same_bag(&rd_csc(&t)?, &w))?;
    cx.op("CSC::t");
    ctx("CSR::t then CSC::t", same_bag(&rd_csr(&t.t())?, m))?;
    cx.op("CSC::transpose");
    ctx("CSR::t then CSC::transpose", same_bag(&rd_csr(&t.transpose())?, m))?;
    cx.op("CSR::transpose");
    let t = a.clone().transpose();
    ctx("CSR::transpose", same_bag(&rd_csc(&t)?, &w))?;
    ctx("CSR::transpose twice", same_bag(&rd_csr(&t.transpose())?, m))?;
    let a: CSC<I, T> = m.csc();
    cx.op("CSC::t");
    let t = a.t();
    ctx("CSC::t", same_bag(&rd_csr(&t)?, &w))?;
    cx.op("CSC::transpose");
    let u = a.transpose();
    ctx("CSC::transpose", same_bag(&rd_csr(&u)?, &w))?;
    cx.op("CSR::transpose");
    ctx("CSC::t then CSR::transpose", same_bag(&rd_csc(&t.transpose())?, m))?;
    cx.op("CSR::t");
    ctx("CSC::transpose then CSR::t", same_bag(&rd_csc(&u.t())?, m))
}
pub fn c09(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    for (r, c, l) in [(2, 2, 3), (1, 2, 4), (2, 1, 4), (2, 3, 3), (3, 2, 3), (1, 1, 4)] {
        one(s, &format!("{r}x{c}/triplets/len{l}/values 1,-1,0"), triples(r, c, l, &A3), t_case::<usize, f64>);
    }
    for (r, c, l) in [(2, 2, 6), (3, 3, 4), (1, 3, 7), (3, 1, 7), (2, 3, 5), (3, 2, 5), (4, 2, 4), (2, 4, 4)] {
        one(s, &format!("{r}x{c}/triplets/len{l}/distinct"), triples(r, c, l + th as u32, &[1.0]).map(distinct), t_case::<u32, f64>);
    }
    one(s, "2x2/special values", triples(2, 2, 2 + th as u32, &SPECIAL), t_case::<usize, f64>);
    one(s, "families/usize f64", families::<f64>(dims(th), 4), t_case::<usize, f64>);
    one(s, "families/u16 complex", families::<Complex64>(fit(dims(th), 200), 3), t_case::<u16, Complex64>);
    one(s, "families/u8 i32", families::<i32>(narrow(255), 3), t_case::<u8, i32>);
    one(s, "families/i64 i64", families::<i64>(fit(dims(th), 300), 3), t_case::<i64, i64>);
    one(s, "long/usize", huge::<f64>(), t_case::<usize, f64>);
    one(s, "huge coordinate dimensions", triples(3, 3, 3, &[1.0]).map(distinct), |m, cx| {
        let f = |i: usize| [0, 1usize << 40, usize::MAX / 2 - 1][i];
        let n = usize::MAX / 2;
        let m = Tri::new(n, n - 7, m.e.iter().map(|e| (f(e.0), f(e.1).min(n - 8), e.2)).collect());
        cx.op("Coo::t");
        let a: Coo<usize, f64> = m.coo();
        ctx("Coo::t", same_bag(&rd_coo(&a.t())?, &m.t()))?;
        ctx("Coo::transpose", same_bag(&rd_coo(&a.transpose())?, &m.t()))
    });
    v
}
