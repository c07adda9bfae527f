//! C02 structural validity over operation histories, C13 dictionary histories, C20 operands unchanged, C22 constructors.
use super::conv::rd_dok;
use super::*;
use crate::ck;
use num_complex::Complex64;
use sparsetools::coo::{CCoo, Coo};
use sparsetools::csc::{CCSC, CSC};
use sparsetools::csr::{CCSR, CSR};
use sparsetools::dok::DoK;
use sparsetools::graph::{connected_components, depth_first_order, Connection};
use std::collections::{BTreeMap, VecDeque};

// ---- C02 ---------------------------------------------------------------------------------------------------
fn well_csr<I: Ix, T: El>(m: &CSR<I, T>) -> Result<Tri<T>, String> {
    let t = rd_csr(m)?;
    ck!(m.colidx().len() == t.e.len() && m.values().len() == t.e.len(), "CSR stores {} entries but has {} column indexes and {} values", t.e.len(), m.colidx().len(), m.values().len());
    Ok(t)
}
fn well_csc<I: Ix, T: El>(m: &CSC<I, T>) -> Result<Tri<T>, String> {
    let t = rd_csc(m)?;
    ck!(m.rowidx().len() == t.e.len() && m.values().len() == t.e.len(), "CSC stores {} entries but has {} row indexes and {} values", t.e.len(), m.rowidx().len(), m.values().len());
    Ok(t)
}
enum Ob { Coo(Coo<usize, f64>), Csr(CSR<usize, f64>), Csc(CSC<usize, f64>) }
impl Ob {
    /// The structure check; the entries in storage order.
    fn well(&self) -> Result<(u64, Tri<f64>), String> {
        Ok(match self { Ob::Coo(m) => (1, rd_coo(m)?), Ob::Csr(m) => (2, well_csr(m)?), Ob::Csc(m) => (3, well_csc(m)?) })
    }
    fn make(k: u64, m: &Tri<f64>) -> Ob { match k { 1 => Ob::Coo(m.coo()), 2 => Ob::Csr(m.csr()), _ => Ob::Csc(m.csc()) } }
}
fn cp_csc(m: &CSC<usize, f64>) -> CSC<usize, f64> { CSC::new(m.rows(), m.cols(), m.rowidx().to_vec(), m.colptr().to_vec(), m.values().to_vec()).unwrap() }
/// Operands of a given shape: unsorted with duplicates and a stored zero; canonical; empty.
fn pool(r: usize, c: usize) -> Vec<Tri<f64>> {
    if r == 0 || c == 0 { return vec![Tri::new(r, c, vec![])] }
    vec![
        Tri::new(r, c, vec![(r - 1, c - 1, 1.0), (0, c - 1, -1.0), (0, 0, 0.0), (r - 1, c - 1, -1.0), (r - 1, 0, 1.0)]),
        Tri::new(r, c, (0..r).map(|i| (i, i % c, -1.0)).collect()),
        Tri::new(r, c, vec![]),
    ]
}
/// Every operation of the library applied to `o`; `t` is what it stores.
fn succ(o: &Ob, t: &Tri<f64>, f: &mut dyn FnMut(&'static str, Ob) -> R) -> R {
    let (r, c) = (t.rows, t.cols);
    // index lists for selections
    let lists = |n: usize| -> Vec<Option<Vec<usize>>> { let mut v = vec![None, Some(vec![])]; if n > 0 { v.push(Some(vec![n - 1, 0])); v.push(Some(vec![0])); } v };
    let neg = t.map(|v| -v);
    match o {
        Ob::Coo(m) => {
            f("Coo::to_csr", Ob::Csr(m.to_csr()))?;
            f("Coo::to_csc", Ob::Csc(m.to_csc()))?;
            f("Coo::t", Ob::Coo(m.t()))?;
            f("Coo::transpose", Ob::Coo(m.clone().transpose()))?;
            f("-Coo", Ob::Coo(-m.clone()))?;
            for k in 0..3 { f("Coo::upper", Ob::Coo(m.upper(k)))? }
            f("Coo::from_dense", Ob::Coo(Coo::from_dense(&m.to_dense())))?;
            if r > 0 {
                let d = m.to_dense();
                f("CSR::from_dense", Ob::Csr(CSR::from_dense(&d)))?;
                f("CSC::from_dense", Ob::Csc(CSC::from_dense(&d)))?;
                let d: Vec<&[f64]> = d.iter().map(|r| &r[..]).collect();
                let k: DoK<usize, f64> = DoK::from_dense(&d);
                f("DoK::to_coo", Ob::Coo(k.to_coo()))?;
                f("DoK::to_csr", Ob::Csr(k.to_csr()))?;
                f("DoK::to_csc", Ob::Csc(k.to_csc()))?;
            }
            if r > 0 && c > 0 {
                let mut p = m.clone();
                p.push(r - 1, 0, 1.0);
                f("Coo::push", Ob::Coo(p))?;
                let mut p = m.clone();
                p.extend(&[0, r - 1], &[c - 1, 0], &[-1.0, 0.0]);
                f("Coo::extend", Ob::Coo(p))?;
                let mut p = m.clone();
                for v in p.values_mut() { *v = 0.0 }
                f("Coo::values_mut", Ob::Coo(p))?;
            }
            f("Coo::v_stack self", Ob::Coo(Coo::v_stack(m, m).map_err(|e| e.to_string())?))?;
            f("Coo::h_stack self", Ob::Coo(Coo::h_stack(m, m).map_err(|e| e.to_string())?))?;
            f("Coo::v_stack3", Ob::Coo(Coo::v_stack3(m, m, m).map_err(|e| e.to_string())?))?;
            f("Coo::h_stack3", Ob::Coo(Coo::h_stack3(m, m, m).map_err(|e| e.to_string())?))?;
            f("Coo::compose", Ob::Coo(Coo::compose([[m, m], [m, m]]).map_err(|e| e.to_string())?))?;
            f("Coo::compose3", Ob::Coo(Coo::compose3([[m, m, m], [m, m, m], [m, m, m]]).map_err(|e| e.to_string())?))?;
            f("Coo + self", Ob::Csr(m + m))?;
            f("Coo + negated self", Ob::Csr(m + &neg.coo()))?;
            for q in pool(r, c) {
                let b: Coo<usize, f64> = q.coo();
                f("Coo + operand", Ob::Csr(m + &b))?;
                f("Coo::v_stack operand", Ob::Coo(Coo::v_stack(m, &b).map_err(|e| e.to_string())?))?;
                f("Coo::h_stack operand", Ob::Coo(Coo::h_stack(&b, m).map_err(|e| e.to_string())?))?;
            }
            for q in pool(1, c) { f("Coo::v_stack row", Ob::Coo(Coo::v_stack(&q.coo(), m).map_err(|e| e.to_string())?))? }
            for q in pool(r, 1) { f("Coo::h_stack column", Ob::Coo(Coo::h_stack(m, &q.coo()).map_err(|e| e.to_string())?))? }
        }
        Ob::Csr(m) => {
            f("CSR::to_coo", Ob::Coo(m.to_coo()))?;
            f("CSR::to_csc", Ob::Csc(m.to_csc()))?;
            f("CSR::t", Ob::Csc(m.t()))?;
            f("CSR::transpose", Ob::Csc(m.clone().transpose()))?;
            let mut p = m.clone();
            p.sort_indexes();
            f("CSR::sort_indexes", Ob::Csr(p))?;
            let mut p = m.clone();
            p.sum_duplicates().map_err(|e| e.to_string())?;
            f("CSR::sum_duplicates", Ob::Csr(p))?;
            f("-CSR", Ob::Csr(-m.clone()))?;
            f("CSR * 0", Ob::Csr(m * 0.0))?;
            f("CSR * -1", Ob::Csr(m.clone() * -1.0))?;
            f("CSR::h_stack self", Ob::Csr(CSR::h_stack(m, m).map_err(|e| e.to_string())?))?;
            f("CSR + self", Ob::Csr(m + m))?;
            f("CSR - self", Ob::Csr(m - m))?;
            f("CSR + negated self", Ob::Csr(m + &neg.csr()))?;
            if r == c { f("CSR * self", Ob::Csr(m * m))? }
            f("CSR * transpose", Ob::Csr(m * &m.t().to_csr()))?;
            f("transpose * CSR", Ob::Csr(m.t().to_csr().mat_mat(m).map_err(|e| e.to_string())?))?;
            for q in pool(r, c) {
                let b: CSR<usize, f64> = q.csr();
                f("CSR + operand", Ob::Csr(m + &b))?;
                f("operand - CSR", Ob::Csr(&b - m))?;
                f("CSR::h_stack operand", Ob::Csr(CSR::h_stack(&b, m).map_err(|e| e.to_string())?))?;
            }
            for q in pool(c, 2) { f("CSR * operand", Ob::Csr(m * &q.csr()))? }
            if let Ok(s) = m.select(None, None) {
                f("CSR::select all", Ob::Csr(s))?;
                for a in lists(r) { for b in lists(c) { f("CSR::select", Ob::Csr(m.select(a.as_deref(), b.as_deref()).map_err(|e| e.to_string())?))? } }
            }
        }
        Ob::Csc(m) => {
            f("CSC::to_coo", Ob::Coo(m.to_coo()))?;
            f("CSC::to_csr", Ob::Csr(m.to_csr()))?;
            f("CSC::t", Ob::Csr(m.t()))?;
            f("CSC::transpose", Ob::Csr(m.transpose()))?;
            let mut p = cp_csc(m);
            p.sort_indexes();
            f("CSC::sort_indexes", Ob::Csc(p))?;
            let mut p = cp_csc(m);
            p.sum_duplicates();
            f("CSC::sum_duplicates", Ob::Csc(p))?;
            let mut p = cp_csc(m);
            p.prune().map_err(|e| e.to_string())?;
            f("CSC::prune", Ob::Csc(p))?;
            f("-CSC", Ob::Csc(-cp_csc(m)))?;
            f("CSC * 0", Ob::Csc(m * 0.0))?;
            f("CSC * -1", Ob::Csc(cp_csc(m) * -1.0))?;
            f("CSC::compose", Ob::Csc(CSC::compose(m, m, m, m).map_err(|e| e.to_string())?))?;
            f("CSC + self", Ob::Csc(m + m))?;
            f("CSC - self", Ob::Csc(m - m))?;
            f("CSC::add self", Ob::Csc(m.add(m).map_err(|e| e.to_string())?))?;
            f("CSC::subtract self", Ob::Csc(m.subtract(m).map_err(|e| e.to_string())?))?;
            f("CSC + negated self", Ob::Csc(m + &neg.csc()))?;
            f("CSC::add negated self", Ob::Csc(m.add(&neg.csc()).map_err(|e| e.to_string())?))?;
            if r == c { f("CSC * self", Ob::Csc(m * m))? }
            f("CSC * transpose as CSR", Ob::Csc(m * &m.t()))?;
            f("CSC * transpose", Ob::Csc(m.mat_mat(&m.t().to_csc()).map_err(|e| e.to_string())?))?;
            for q in pool(r, c) {
                let b: CSC<usize, f64> = q.csc();
                f("CSC + operand", Ob::Csc(m + &b))?;
                f("operand - CSC", Ob::Csc(&b - m))?;
                f("CSC::add operand", Ob::Csc(m.add(&b).map_err(|e| e.to_string())?))?;
                f("operand CSC::subtract", Ob::Csc(b.subtract(m).map_err(|e| e.to_string())?))?;
            }
            for q in pool(c, 2) { f("CSC * operand", Ob::Csc(m * &q.csc()))?; f("CSC * CSR operand", Ob::Csc(m * &q.csr()))? }
            if let Ok(s) = m.select(None, None) {
                f("CSC::select all", Ob::Csc(s))?;
                for a in lists(r) { for b in lists(c) { f("CSC::select", Ob::Csc(m.select(a.as_deref(), b.as_deref()).map_err(|e| e.to_string())?))? } }
            }
            if r > 0 { f("CSC::from_dense", Ob::Csc(CSC::from_dense(&m.to_dense())))? }
        }
    }
    Ok(())
}
/// Breadth-first search over operation histories from one object: every state that is reached within `depth`
/// operations, states beyond the bounds being checked but not extended.
fn bfs(start: Ob, depth: usize, dim: usize, nnz: usize, cx: &mut Cx) -> R {
    let (k, t) = start.well()?;
    let mut seen = U64Set::default();
    seen.insert(t.hash(k));
    let mut q: VecDeque<(Ob, Tri<f64>, usize, Vec<&'static str>)> = [(start, t, 0, vec![])].into();
    while let Some((o, t, d, path)) = q.pop_front() {
        cx.see(t.hash(4));
        let mut next = vec![];
        succ(&o, &t, &mut |name, n| {
            cx.op(name);
            let (k, g) = n.well().map_err(|e| format!("after {path:?} and {name}: {e}"))?;
            if g.rows <= dim && g.cols <= dim && g.e.len() <= nnz && g.e.iter().all(|e| e.2.abs() <= 4.0) && d + 1 < depth && seen.insert(g.hash(k)) {
                let mut p = path.clone();
                p.push(name);
                next.push((n, g, d + 1, p));
            }
            Ok(())
        }).map_err(|e| if path.is_empty() { e } else { format!("{e} (history {path:?})") })?;
        q.extend(next);
    }
    Ok(())
}
fn bfs_space(s: &mut Vec<Space>, name: &str, en: En<f64>, kinds: std::ops::RangeInclusive<u64>, depth: usize, dim: usize, nnz: usize) {
    let nk = kinds.end() - kinds.start() + 1;
    let k0 = *kinds.start();
    s.push(space(format!("{name}/depth {depth}"), en.n * nk, move |i, cx| {
        let m = en.get(i / nk);
        cx.say(|| format!("histories of up to {depth} operations from {} as {}", show(&m), ["Coo", "CSR", "CSC"][(k0 + i % nk) as usize - 1]));
        bfs(Ob::make(k0 + i % nk, &m), depth, dim, nnz, cx)
    }));
}
fn complex_struct(m: &Tri<Complex64>, cx: &mut Cx) -> R {
    cx.see(m.hash(22));
    cx.op("complex parts");
    let o: Coo<u32, Complex64> = m.coo();
    rd_coo(&CCoo::conj(&o))?; rd_coo(&o.real())?; rd_coo(&o.imag())?; rd_coo(&o.h())?;
    let a: CSR<u32, Complex64> = m.csr();
    let f = Complex64::new(0.0, 1.0);
    let (re, im) = (CCSR::real(&a), CCSR::imag(&a));
    well_csr(&CCSR::conj(&a))?; well_csr(&re)?; well_csr(&im)?; well_csc(&CCSR::h(&a))?; well_csr(&(f * &a))?;
    well_csr(&<CSR<u32, Complex64> as CCSR<u32, f64, Complex64>>::with_real(&re))?;
    well_csr(&<CSR<u32, Complex64> as CCSR<u32, f64, Complex64>>::with_imag(&im))?;
    let c: CSC<u32, Complex64> = m.csc();
    well_csc(&CCSC::conj(&c))?; well_csc(&CCSC::real(&c))?; well_csc(&CCSC::imag(&c))?; well_csr(&CCSC::h(&c))?; well_csc(&(f * &c))?;
    Ok(())
}
pub fn c02(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let d = th as usize;
    for (r, c) in [(0, 0), (0, 2), (2, 0)] { bfs_space(s, &format!("{r}x{c}"), En { n: 1, f: Box::new(move |_| Tri::new(r, c, vec![])) }, 1..=3, 3 + d, 3, 6) }
    bfs_space(s, "2x2/triplets/len2/values 1,-1", triples(2, 2, 2, &A3[..2]), 1..=3, 3 + d, 3, 6);
    bfs_space(s, "1x2/triplets/len3/values 1,-1,0", triples(1, 2, 3, &A3), 1..=3, 3 + d, 3, 6);
    bfs_space(s, "2x1/triplets/len3/values 1,-1", triples(2, 1, 3, &A3[..2]), 1..=3, 3 + d, 3, 6);
    bfs_space(s, "1x1/triplets/len3/values 1,-1,0", triples(1, 1, 3, &A3), 1..=3, 4 + d, 3, 6);
    bfs_space(s, "2x2/triplets/len3/values 1,-1", triples(2, 2, 3, &A3[..2]), 1..=3, 2 + d, 3, 6);
    bfs_space(s, "2x2/canonical/values 1,-1,0", canon(2, 2, &A3), 2..=3, 2 + d, 3, 6);
    bfs_space(s, "2x3/triplets/len3", triples(2, 3, 3, &A3[..1]), 1..=3, 2 + d, 3, 8);
    bfs_space(s, "3x2/triplets/len3", triples(3, 2, 3, &A3[..1]), 1..=3, 2 + d, 3, 8);
    bfs_space(s, "3x3/canonical", canon(3, 3, &A3[..1]), 2..=3, 2, 3, 9);
    bfs_space(s, "2x3/canonical/values 1,-1", canon(2, 3, &A3[..2]), 2..=3, 2, 3, 9);
    bfs_space(s, "3x2/canonical/values 1,-1", canon(3, 2, &A3[..2]), 2..=3, 2, 3, 9);
    bfs_space(s, "2x2/triplets/len5", triples(2, 2, 5, &A3[..1]), 1..=3, 1, 3, 9);
    bfs_space(s, "3x3/triplets/len4", triples(3, 3, 4, &A3[..1]), 1..=3, 1, 3, 9);
    bfs_space(s, "families", families::<f64>(fit(dims(false), if th { 33 } else { 9 }), 4), 1..=3, 1, 0, 0);
    // products of a line by itself stay small
    let small = |m: Tri<f64>| if m.e.len() <= 300 && m.rows.max(m.cols) <= 5000 { m } else { Tri::new(0, 0, vec![]) };
    bfs_space(s, "lines at every distance and of every length", union(vec![gaps(), sizes()]).map(small), 1..=3, 1, 0, 0);
    bfs_space(s, "special values", union(vec![canon(2, 2, &SPECIAL[..5]), triples(1, 2, 3, &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX]), triples(2, 1, 3, &[f64::NAN, 5e-324, -5e-324, -0.0])]), 1..=3, 1, 3, 6);
    if th { bfs_space(s, "families", families::<f64>(fit(dims(false), 4), 4), 1..=3, 2, 4, 30) }
    else { bfs_space(s, "families/large", families::<f64>(vec![(17, 15), (1, 70), (70, 1), (12, 40), (33, 31)], 2), 1..=3, 1, 0, 0) }
    one(s, "complex", triples(2, 2, 3, &[Complex64::new(1.0, 2.0), Complex64::new(0.0, -1.0)]), complex_struct);
    one(s, "complex/families", families::<Complex64>(dims(false), 2), complex_struct);
    // constructors
    s.push(space("constructors", 40, |i, cx| {
        let n = i as usize;
        cx.op("with_diagonal/identity/with_size");
        let d: Vec<f64> = (0..n).map(|k| (k % 3) as f64).collect();
        well_csr(&CSR::<usize, f64>::with_diagonal(d.clone()))?;
        well_csc(&CSC::<usize, f64>::with_diagonal(d.clone()))?;
        rd_coo(&Coo::<usize, f64>::with_diagonal(&d))?;
        rd_coo(&Coo::<usize, f64>::identity(n))?;
        for m in 0..6 { well_csr(&CSR::<usize, f64>::with_size(n, m))?; rd_coo(&Coo::<usize, f64>::with_size(m, n))?; rd_coo(&Coo::<usize, f64>::with_capacity(m, n, 9))?; }
        Ok(())
    }));
    v
}
pub fn c02_deep(s: &mut Vec<Space>) {
    bfs_space(s, "deep/2x2/triplets/len2/values 1,-1", triples(2, 2, 2, &A3[..2]), 1..=3, 5, 3, 6);
    bfs_space(s, "deep/1x2/triplets/len2/values 1,-1,0", triples(1, 2, 2, &A3), 1..=3, 6, 3, 6);
    bfs_space(s, "deep/1x1/triplets/len2/values 1,-1,0", triples(1, 1, 2, &A3), 1..=3, 8, 3, 6);
    bfs_space(s, "deep/2x2/triplets/len4/values 1,-1", triples(2, 2, 4, &A3[..2]), 1..=3, 2, 3, 8);
    bfs_space(s, "deep/3x3/canonical/values 1,-1", canon(3, 3, &A3[..2]), 2..=3, 2, 3, 9);
    bfs_space(s, "deep/2x3/triplets/len3/values 1,-1", triples(2, 3, 3, &A3[..2]), 1..=3, 3, 3, 8);
    bfs_space(s, "deep/3x3/rows of length up to 2", structs(3, 3, 2, true), 2..=3, 1, 3, 9);
}
pub fn c13_deep(s: &mut Vec<Space>) {
    dok_seqs::<usize, f64>(s, "deep/2x2", 2, 2, vec![(2, 0)], vec![1.0, -1.0], 5, 1);
    dok_seqs::<usize, f64>(s, "deep/1x1", 1, 1, vec![(1, 1)], vec![1.0, -1.0, 0.0], 5, 3);
    dok_seqs::<u32, f64>(s, "deep/1x2", 1, 2, vec![], vec![1.0, -1.0], 6, 1);
    dok_seqs::<u16, f64>(s, "deep/3x3", 3, 3, vec![(0, 3)], vec![1.0, -1.0], 4, 2);
}

// ---- C13 ---------------------------------------------------------------------------------------------------
pub type Map<T> = BTreeMap<(usize, usize), T>;
pub fn dok_state<I: Ix, T: El>(k: &DoK<I, T>, r: usize, c: usize, m: &Map<T>, txt: bool, cx: &mut Cx) -> R {
    let want = Tri::new(r, c, m.iter().map(|(p, v)| (p.0, p.1, *v)).collect());
    cx.see(want.hash(13));
    ck!((k.rows(), k.cols()) == (r, c), "shape is {}x{}", k.rows(), k.cols());
    ck!(k.nnz() == m.len(), "nnz() is {}, {} elements are non-zero", k.nnz(), m.len());
    let g = rd_dok(k)?;
    ctx("dictionary", no_zeros(&g))?;
    ctx("dictionary", same_seq_num(&g, &want))?;
    if r * c <= 64 { for i in 0..r { for j in 0..c {
        let w = m.get(&(i, j)).copied().unwrap_or(T::zero());
        let g = k.get(ix(i), ix(j));
        ck!(g.same(&w), "get({i}, {j}) is {g:?}, must be {w:?}");
    } } } else { for (p, w) in m { let g = k.get(ix(p.0), ix(p.1)); ck!(g.same(w), "get{p:?} is {g:?}, must be {w:?}") } }
    cx.op("DoK::to_dense");
    ctx("DoK::to_dense", same_dense(&k.to_dense(), &want.dense()))?;
    cx.op("DoK::to_coo");
    let mut o = rd_coo(&k.to_coo())?;
    o.e.sort_by_key(|e| (e.0, e.1));
    ctx("DoK::to_coo", same_seq_num(&o, &want))?;
    cx.op("DoK::to_csr");
    ctx("DoK::to_csr", same_seq_num(&rd_csr(&k.to_csr())?, &want))?;
    cx.op("DoK::to_csc");
    ctx("DoK::to_csc", same_seq_num(&rd_csc(&k.to_csc())?, &want.by_col()))?;
    if txt {
        cx.op("DoK::to_string");
        let s = k.to_string();
        let mut g: Vec<String> = s.lines().map(|l| l.to_string()).collect();
        g.sort();
        let mut w: Vec<String> = m.iter().map(|(p, v)| format!("({}, {}) {}", p.0, p.1, v)).collect();
        w.sort();
        ck!(g == w, "to_string() gives {s:?}, must hold the lines {w:?}");
    }
    Ok(())
}
#[derive(Clone, Copy)]
pub enum Kop { Set, Add, Sub }
/// Applies one operation to both; checks the answer.
pub fn dok_op<I: Ix, T: El>(k: &mut DoK<I, T>, r: usize, c: usize, m: &mut Map<T>, op: Kop, i: I, j: I, v: T, cx: &mut Cx) -> R {
    cx.say(|| format!("{}({i}, {j}, {v:?})", match op { Kop::Set => "set", Kop::Add => "add", Kop::Sub => "sub" }));
    let inside = i.to_usize().map_or(false, |i| i < r) && j.to_usize().map_or(false, |j| j < c);
    let g = match op {
        Kop::Set => { cx.op("DoK::set"); k.set(i, j, v) }
        Kop::Add => { cx.op("DoK::add"); k.add(i, j, v) }
        Kop::Sub => { cx.op("DoK::sub"); k.sub(i, j, v) }
    };
    ck!(g.is_ok() == inside, "an operation at ({i}, {j}) of a {r}x{c} matrix {}", if inside { "is refused" } else { "succeeds" });
    if inside {
        let p = (i.to_usize().unwrap(), j.to_usize().unwrap());
        let old = m.get(&p).copied().unwrap_or(T::zero());
        let new = match op { Kop::Set => v, Kop::Add => old + v, Kop::Sub => old - v };
        if new.is_zero() { m.remove(&p); } else { m.insert(p, new); }
    }
    Ok(())
}
/// Every sequence of up to `len` operations over every position inside and (some) outside, every value.
pub fn dok_seqs<I: Ix, T: El>(s: &mut Vec<Space>, name: &str, r: usize, c: usize, out: Vec<(I, I)>, vals: Vec<T>, len: u32, init: usize) {
    let mut pos: Vec<(I, I)> = (0..r).flat_map(|i| (0..c).map(move |j| (ix(i), ix(j)))).collect();
    pos.extend(out);
    let ops = (3 * pos.len() * vals.len()) as u64;
    // `init`: how the matrix starts (0 empty, 1 with capacity, 2 from a dense matrix)
    let inits = init as u64;
    let n: u64 = (0..=len).map(|l| ops.pow(l)).sum();
    s.push(space(format!("{name}/{ops} operations, up to {len}"), n * inits, move |x, cx| {
        let (st, mut q) = (x % inits, x / inits);
        let mut l = 0;
        while q >= ops.pow(l) { q -= ops.pow(l); l += 1 }
        let mut m = Map::new();
        let mut k: DoK<I, T> = match st {
            0 => DoK::new(r, c),
            1 => DoK::with_capacity(r, c, 1),
            _ => {
                let d: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| if (i + j) % 2 == 0 { vals[0] } else { T::zero() }).collect()).collect();
                for i in 0..r { for j in 0..c { if !d[i][j].is_zero() { m.insert((i, j), d[i][j]); } } }
                let e: Vec<&[T]> = d.iter().map(|r| &r[..]).collect();
                cx.op("DoK::from_dense");
                DoK::from_dense(&e)
            }
        };
        for _ in 0..l {
            let o = (q % ops) as usize;
            q /= ops;
            let op = [Kop::Set, Kop::Add, Kop::Sub][o % 3];
            let p = pos[o / 3 % pos.len()];
            dok_op(&mut k, r, c, &mut m, op, p.0, p.1, vals[o / 3 / pos.len()], cx)?;
        }
        // an element read outside of the shape is not stored
        for p in &pos[r * c..] { let g = k.get(p.0, p.1); ck!(g.is_zero(), "get({}, {}) is {g:?} outside of the shape", p.0, p.1) }
        dok_state(&k, r, c, &m, true, cx)
    }));
}
pub fn c13(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let t = th as u32;
    dok_seqs::<usize, f64>(s, "2x2", 2, 2, vec![(2, 0), (0, 2), (2, 2), (usize::MAX, 0)], vec![1.0, -1.0, 0.0], 3, 1);
    dok_seqs::<i32, i32>(s, "1x2", 1, 2, vec![(1, 0), (0, 2), (-1, 0), (0, -1)], vec![1, -1], 4, 1);
    dok_seqs::<i8, f64>(s, "1x1", 1, 1, vec![(-1, 0)], vec![1.0, -1.0], 5, 3);
    dok_seqs::<usize, f64>(s, "1x1/long", 1, 1, vec![], vec![1.0, -1.0], 7 + t, 1);
    dok_seqs::<i64, f64>(s, "2x1", 2, 1, vec![(-1, 0), (1, 1)], vec![2.0, 0.5], 4, 3);
    dok_seqs::<u8, Complex64>(s, "1x2/complex", 1, 2, vec![(1, 0)], vec![Complex64::new(1.0, -1.0), Complex64::new(0.0, 1.0), Complex64::new(-1.0, 0.0)], 3 + t, 2);
    dok_seqs::<u16, f64>(s, "1x2/special values", 1, 2, vec![], SPECIAL[..5].to_vec(), 3 + t, 1);
    dok_seqs::<u32, f64>(s, "1x1/special values", 1, 1, vec![], SPECIAL.iter().copied().chain([-5e-324, -1e-13, 1.0, -1.0 + f64::EPSILON]).collect(), 3, 2);
    dok_seqs::<usize, f64>(s, "2x3", 2, 3, vec![(2, 2), (1, 3)], vec![1.0, -1.0], 3, 3);
    dok_seqs::<usize, f64>(s, "0x2", 0, 2, vec![(0, 0), (1, 5)], vec![1.0, 0.0], 3, 2);
    dok_seqs::<i8, f64>(s, "2x0", 2, 0, vec![(0, 0), (-1, 0)], vec![1.0, 0.0], 3, 3);
    dok_seqs::<u8, f64>(s, "1x2/far outside", 1, 2, vec![(255, 0), (0, 255), (254, 1), (0, 254)], vec![1.0, 0.0], 2 + t, 1);
    dok_seqs::<i8, f64>(s, "2x1/far outside", 2, 1, vec![(127, 0), (0, 127), (-128, 0), (1, -128), (-127, -1)], vec![1.0, 0.0], 2 + t, 1);
    dok_seqs::<i64, f64>(s, "1x1/far outside", 1, 1, vec![(i64::MAX, 0), (0, i64::MAX), (i64::MIN, 0), (0, i64::MIN)], vec![1.0, 0.0], 2 + t, 1);
    dok_seqs::<u128, f64>(s, "1x1/far outside", 1, 1, vec![(u128::MAX, 0), (0, u128::MAX), (1 << 64, 0), (0, 1 << 64)], vec![1.0, 0.0], 2 + t, 1);
    if th {
        dok_seqs::<u32, f64>(s, "2x2", 2, 2, vec![(2, 1)], vec![1.0, -1.0], 4, 3);
        dok_seqs::<usize, f64>(s, "3x3", 3, 3, vec![(3, 3)], vec![1.0, -1.0, 0.0], 3, 1);
    }
    // every start from dense rows, then taken away again
    for (r, c) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
        let al = [0.0, 1.0, -1.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 1e-13, f64::MAX];
        s.push(space(format!("{r}x{c}/from dense rows"), 10u64.pow((r * c) as u32) * (r * c) as u64, move |q, cx| {
            let (p, q) = ((q % (r * c) as u64) as usize, q / (r * c) as u64);
            let d: Vec<Vec<f64>> = (0..r).map(|i| (0..c).map(|j| al[(q / 10u64.pow((i * c + j) as u32) % 10) as usize]).collect()).collect();
            let e: Vec<&[f64]> = d.iter().map(|r| &r[..]).collect();
            let mut m = Map::new();
            for i in 0..r { for j in 0..c { if d[i][j] != 0.0 { m.insert((i, j), d[i][j]); } } }
            cx.op("DoK::from_dense");
            let mut k: DoK<i16, f64> = DoK::from_dense(&e);
            ctx("from_dense", dok_state(&k, r, c, &m, true, cx))?;
            let (i, j) = (p / c, p % c);
            dok_op(&mut k, r, c, &mut m, Kop::Sub, i as i16, j as i16, d[i][j], cx)?;
            dok_state(&k, r, c, &m, true, cx)?;
            dok_op(&mut k, r, c, &mut m, Kop::Add, j as i16, i as i16, 2.0, cx)?;
            dok_state(&k, r, c, &m, true, cx)
        }));
    }
    // long histories: a family member is set, overwritten, added to and taken away again entry by entry
    one(s, "families", families::<f64>(fit(dims(th), 130), 4), |m, cx| {
        let mut k: DoK<u32, f64> = DoK::new(m.rows, m.cols);
        let mut w = Map::new();
        for e in &m.e { dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Set, e.0 as u32, e.1 as u32, e.2, cx)? }
        dok_state(&k, m.rows, m.cols, &w, true, cx)?;
        for (q, e) in m.e.iter().rev().enumerate() { dok_op(&mut k, m.rows, m.cols, &mut w, if q % 2 == 0 { Kop::Sub } else { Kop::Add }, e.0 as u32, e.1 as u32, e.2, cx)? }
        dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Add, m.rows as u32, 0, 1.0, cx)?;
        dok_state(&k, m.rows, m.cols, &w, false, cx)
    });
    one(s, "families/u8", families::<i64>(narrow(200), 3), |m, cx| {
        let mut k: DoK<u8, i64> = DoK::new(m.rows, m.cols);
        let mut w = Map::new();
        for e in &m.e { dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Add, e.0 as u8, e.1 as u8, e.2, cx)? }
        dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Set, 0, m.cols as u8, 1, cx)?;
        dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Sub, m.rows as u8, 0, 1, cx)?;
        dok_state(&k, m.rows, m.cols, &w, true, cx)
    });
    one(s, "heavy", heavy::<f64>(), |m, cx| {
        let mut k: DoK<u32, f64> = DoK::with_capacity(m.rows, m.cols, 7);
        let mut w = vec![vec![0.0; m.cols]; m.rows];
        for (q, e) in m.e.iter().enumerate() {
            let (i, j) = (e.0 as u32, e.1 as u32);
            match q % 3 {
                0 => { cx.op("DoK::set"); k.set(i, j, e.2).map_err(|e| e.to_string())?; w[e.0][e.1] = e.2 }
                1 => { cx.op("DoK::add"); k.add(i, j, e.2).map_err(|e| e.to_string())?; w[e.0][e.1] += e.2 }
                _ => { cx.op("DoK::sub"); k.sub(i, j, e.2).map_err(|e| e.to_string())?; w[e.0][e.1] -= e.2 }
            }
        }
        let mut m2 = Map::new();
        for (i, r) in w.iter().enumerate() { for (j, &v) in r.iter().enumerate() { if v != 0.0 { m2.insert((i, j), v); } } }
        dok_state(&k, m.rows, m.cols, &m2, true, cx)
    });
    one(s, "long", union(vec![long::<f64>(), gaps(), sizes()]), |m, cx| {
        let mut k: DoK<usize, f64> = DoK::new(m.rows, m.cols);
        let mut w = Map::new();
        for e in &m.e { dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Add, e.0, e.1, e.2, cx)? }
        for e in &m.e { for d in [(m.rows, e.1), (e.0, m.cols), (e.0 + 65_536, e.1 + 65_536)] { dok_op(&mut k, m.rows, m.cols, &mut w, Kop::Set, d.0, d.1, 9.0, cx)? } }
        dok_state(&k, m.rows, m.cols, &w, true, cx)
    });
    v
}

// ---- C20 ---------------------------------------------------------------------------------------------------
type Sn = (usize, usize, Vec<usize>, Vec<usize>, Vec<u64>);
fn us<I: Ix>(v: &[I]) -> Vec<usize> { v.iter().map(|i| i.to_usize().unwrap_or(usize::MAX)).collect() }
fn bi<T: El>(v: &[T]) -> Vec<u64> { v.iter().map(|x| x.bits()).collect() }
fn sn_coo<I: Ix, T: El>(m: &Coo<I, T>) -> Sn { (m.rows(), m.cols(), us(m.rowidx()), us(m.colidx()), bi(m.values())) }
fn sn_csr<I: Ix, T: El>(m: &CSR<I, T>) -> Sn { (m.rows(), m.cols(), us(m.rowptr()), us(m.colidx()), bi(m.values())) }
fn sn_csc<I: Ix, T: El>(m: &CSC<I, T>) -> Sn { (m.rows(), m.cols(), us(m.colptr()), us(m.rowidx()), bi(m.values())) }
/// What an operation answered, as far as a user can tell apart: stored entries in any order, or anything else verbatim.
fn b_coo<I: Ix, T: El>(m: &Coo<I, T>) -> String { format!("{:?}", rd_coo(m).map(|t| (t.rows, t.cols, t.bag()))) }
fn b_csr<I: Ix, T: El>(m: &CSR<I, T>) -> String { format!("{:?}", rd_csr(m).map(|t| (t.rows, t.cols, t.bag()))) }
fn b_csc<I: Ix, T: El>(m: &CSC<I, T>) -> String { format!("{:?}", rd_csc(m).map(|t| (t.rows, t.cols, t.bag()))) }
fn res<M>(r: anyhow::Result<M>, f: impl Fn(&M) -> String) -> String { match r { Ok(m) => f(&m), Err(e) => format!("error: {e}") } }

/// `a` and `b` have the same shape; square products use the transpose of `b`.
pub fn keep_case<I: Ix>(a: &Tri<f64>, b: &Tri<f64>, cx: &mut Cx) -> R {
    cx.say(|| format!("{} and {}", show(a), show(b)));
    cx.see(mix(a.hash(1), b.hash(20)));
    let bt = b.t();
    let (ao, bo): (Coo<I, f64>, Coo<I, f64>) = (a.coo(), b.coo());
    let (ar, br, btr): (CSR<I, f64>, CSR<I, f64>, CSR<I, f64>) = (a.csr(), b.csr(), bt.csr());
    let (ac, bc, btc): (CSC<I, f64>, CSC<I, f64>, CSC<I, f64>) = (a.csc(), b.csc(), bt.csc());
    let before = (sn_coo(&ao), sn_coo(&bo), sn_csr(&ar), sn_csr(&br), sn_csr(&btr), sn_csc(&ac), sn_csc(&bc), sn_csc(&btc));
    let x: Vec<f64> = (0..a.cols).map(|i| i as f64 - 1.0).collect();
    let x0 = x.clone();
    let rl: Vec<I> = (0..a.rows).rev().chain(0..a.rows.min(1)).map(ix).collect();
    let cl: Vec<I> = (0..a.cols).rev().map(ix).collect();
    macro_rules! same { ($name:expr, $e:expr) => {{
        cx.op($name);
        let (p, q): (String, String) = ($e, $e);
        ck!(p == q, "{} answers differently when repeated: {} and {}", $name, p, q);
        ck!(sn_coo(&ao) == before.0 && sn_coo(&bo) == before.1, "{} changes a coordinate operand", $name);
        ck!(sn_csr(&ar) == before.2 && sn_csr(&br) == before.3 && sn_csr(&btr) == before.4, "{} changes a CSR operand", $name);
        ck!(sn_csc(&ac) == before.5 && sn_csc(&bc) == before.6 && sn_csc(&btc) == before.7, "{} changes a CSC operand", $name);
        ck!(x == x0, "{} changes a vector operand", $name);
        p
    }} }
    same!("Coo::to_csr", b_csr(&ao.to_csr()));
    same!("Coo::to_csc", b_csc(&ao.to_csc()));
    same!("Coo::to_dense", format!("{:?}", ao.to_dense()));
    same!("Coo::t", b_coo(&ao.t()));
    same!("Coo::upper", b_coo(&ao.upper(ix(0))));
    same!("Coo::diagonal", format!("{:?}", ao.diagonal()));
    same!("Coo::to_string", ao.to_string());
    same!("Coo::v_stack", res(Coo::v_stack(&ao, &bo), b_coo));
    same!("Coo::h_stack", res(Coo::h_stack(&ao, &bo), b_coo));
    same!("Coo::v_stack3", res(Coo::v_stack3(&ao, &bo, &ao), b_coo));
    same!("Coo::h_stack3", res(Coo::h_stack3(&ao, &bo, &ao), b_coo));
    same!("Coo::compose", res(Coo::compose([[&ao, &bo], [&bo, &ao]]), b_coo));
    same!("Coo::compose3", res(Coo::compose3([[&ao, &bo, &ao], [&bo, &ao, &bo], [&ao, &bo, &ao]]), b_coo));
    same!("CSR::to_coo", b_coo(&ar.to_coo()));
    same!("CSR::to_csc", b_csc(&ar.to_csc()));
    same!("CSR::t", b_csc(&ar.t()));
    same!("CSR::diagonal", format!("{:?}", ar.diagonal()));
    same!("CSR::to_string", ar.to_string());
    same!("CSR::to_table", ar.to_table());
    same!("CSR predicates", format!("{} {} {}", ar.has_canonical_format(), ar.has_sorted_indexes(), ar.nnz()));
    same!("CSR::select", res(ar.select(Some(&rl), Some(&cl)), b_csr));
    same!("CSR::h_stack", res(CSR::h_stack(&ar, &br), b_csr));
    same!("CSR::mat_vec", format!("{:?}", ar.mat_vec(&x).unwrap()));
    same!("CSR * vector", format!("{:?}", &ar * &x));
    same!("CSR::mat_mat", res(ar.mat_mat(&btr), b_csr));
    if a.rows > 0 && a.cols > 0 { same!("CSR::get", format!("{}", ar.get(ix(a.rows - 1), ix(0)))); }
    same!("CSC::to_coo", b_coo(&ac.to_coo()));
    same!("CSC::to_csr", b_csr(&ac.to_csr()));
    same!("CSC::to_dense", format!("{:?}", ac.to_dense()));
    same!("CSC::t", b_csr(&ac.t()));
    same!("CSC::transpose", b_csr(&ac.transpose()));
    same!("CSC::diagonal", format!("{:?}", ac.diagonal()));
    same!("CSC::to_string", ac.to_string());
    same!("CSC predicates", format!("{} {} {}", ac.has_canonical_format(), ac.has_sorted_indexes(), ac.nnz()));
    same!("CSC::select", res(ac.select(Some(&rl), Some(&cl)), b_csc));
    same!("CSC::compose", res(CSC::compose(&ac, &bc, &bc, &ac), b_csc));
    same!("CSC::mat_vec", format!("{:?}", ac.mat_vec(&x).unwrap()));
    same!("CSC * vector", format!("{:?}", &ac * &x));
    same!("CSC::mat_mat", res(ac.mat_mat(&btc), b_csc));
    same!("CSC::add", res(ac.add(&bc), b_csc));
    same!("CSC::subtract", res(ac.subtract(&bc), b_csc));
    if a.rows == a.cols {
        same!("connected_components", format!("{:?}", connected_components(&ar, true, Connection::Weak).unwrap()));
        if a.rows > 0 {
            same!("connected_components strong", format!("{:?}", connected_components(&ar, true, Connection::Strong).unwrap()));
            same!("depth_first_order", format!("{:?} {:?}", depth_first_order(&ar, 0, true).unwrap(), depth_first_order(&ar, a.rows - 1, false).unwrap()));
        }
        same!("CSR::connected_components", res(ar.connected_components::<i64>(), |r| format!("{r:?}")));
    }
    // operators: four ownership forms; an operand with itself; owned transposes and negation
    macro_rules! op4 { ($name:expr, $x:expr, $y:expr, $ox:expr, $oy:expr, $ty:ty, $o:tt, $b:expr) => {{
        let w: String = same!($name, { let r: $ty = $x $o $y; $b(&r) });
        cx.op($name);
        let f1: $ty = $ox $o $oy;
        let f2: $ty = $ox $o $y;
        let f3: $ty = $x $o $oy;
        ck!($b(&f1) == w && $b(&f2) == w && $b(&f3) == w, "{}: the owned and borrowed forms differ: {} (borrowed), {} (owned), {}, {}", $name, w, $b(&f1), $b(&f2), $b(&f3));
        w
    }} }
    op4!("Coo + Coo", &ao, &bo, a.coo::<I>(), b.coo::<I>(), CSR<I, f64>, +, b_csr);
    op4!("CSR + CSR", &ar, &br, a.csr::<I>(), b.csr::<I>(), CSR<I, f64>, +, b_csr);
    op4!("CSR - CSR", &ar, &br, a.csr::<I>(), b.csr::<I>(), CSR<I, f64>, -, b_csr);
    op4!("CSC + CSC", &ac, &bc, a.csc::<I>(), b.csc::<I>(), CSC<I, f64>, +, b_csc);
    op4!("CSC - CSC", &ac, &bc, a.csc::<I>(), b.csc::<I>(), CSC<I, f64>, -, b_csc);
    op4!("CSR * CSR", &ar, &btr, a.csr::<I>(), bt.csr::<I>(), CSR<I, f64>, *, b_csr);
    op4!("CSC * CSC", &ac, &btc, a.csc::<I>(), bt.csc::<I>(), CSC<I, f64>, *, b_csc);
    op4!("CSC * CSR", &ac, &btr, a.csc::<I>(), bt.csr::<I>(), CSC<I, f64>, *, b_csc);
    op4!("CSR * 3", &ar, 3.0, a.csr::<I>(), 3.0, CSR<I, f64>, *, b_csr);
    op4!("CSC * 3", &ac, 3.0, a.csc::<I>(), 3.0, CSC<I, f64>, *, b_csc);
    macro_rules! alias { ($name:expr, $a:expr, $b:expr) => {{ let (p, q): (String, String) = (same!($name, $a), $b); ck!(p == q, "{}: an operand with itself gives {}, with a copy {}", $name, p, q) }} }
    let (ao2, ar2, ac2): (Coo<I, f64>, CSR<I, f64>, CSC<I, f64>) = (a.coo(), a.csr(), a.csc());
    alias!("Coo + itself", b_csr(&(&ao + &ao)), b_csr(&(&ao + &ao2)));
    alias!("Coo::v_stack with itself", res(Coo::v_stack(&ao, &ao), b_coo), res(Coo::v_stack(&ao, &ao2), b_coo));
    alias!("Coo::h_stack with itself", res(Coo::h_stack(&ao, &ao), b_coo), res(Coo::h_stack(&ao, &ao2), b_coo));
    alias!("CSR + itself", b_csr(&(&ar + &ar)), b_csr(&(&ar + &ar2)));
    alias!("CSR - itself", b_csr(&(&ar - &ar)), b_csr(&(&ar - &ar2)));
    alias!("CSC + itself", b_csc(&(&ac + &ac)), b_csc(&(&ac + &ac2)));
    alias!("CSC - itself", b_csc(&(&ac - &ac)), b_csc(&(&ac - &ac2)));
    alias!("CSC::add with itself", res(ac.add(&ac), b_csc), res(ac.add(&ac2), b_csc));
    alias!("CSC::subtract with itself", res(ac.subtract(&ac), b_csc), res(ac.subtract(&ac2), b_csc));
    if a.rows == a.cols {
        alias!("CSR * itself", b_csr(&(&ar * &ar)), b_csr(&(&ar * &ar2)));
        alias!("CSC * itself", b_csc(&(&ac * &ac)), b_csc(&(&ac * &ac2)));
    }
    ck!(b_coo(&ao.clone().transpose()) == b_coo(&ao.t()), "Coo::t and Coo::transpose differ");
    ck!(b_csc(&ar.clone().transpose()) == b_csc(&ar.t()), "CSR::t and CSR::transpose differ");
    // a clone is independent of its original
    let (mut p, mut q) = (ao.clone(), ar.clone());
    p.values_mut().fill(9.0);
    if a.rows > 0 && a.cols > 0 { p.push(ix(0), ix(0), 1.0) }
    q.values_mut().fill(9.0);
    q.sort_indexes();
    q.sum_duplicates().unwrap();
    same!("changing a clone", String::new());
    Ok(())
}
fn keep_complex(m: &Tri<Complex64>, cx: &mut Cx) -> R {
    cx.see(m.hash(202));
    let f = Complex64::new(2.0, -1.0);
    let (o, a, c): (Coo<usize, Complex64>, CSR<usize, Complex64>, CSC<usize, Complex64>) = (m.coo(), m.csr(), m.csc());
    let before = (sn_coo(&o), sn_csr(&a), sn_csc(&c));
    cx.op("complex operations");
    let run = || -> Vec<String> { vec![
        b_coo(&CCoo::conj(&o)), b_coo(&o.real()), b_coo(&o.imag()), b_coo(&o.h()),
        b_csr(&CCSR::conj(&a)), b_csr(&CCSR::real(&a)), b_csr(&CCSR::imag(&a)), b_csc(&CCSR::h(&a)), b_csr(&(f * &a)), b_csr(&(&a * f)), a.to_table(), a.to_string(),
        b_csc(&CCSC::conj(&c)), b_csc(&CCSC::real(&c)), b_csc(&CCSC::imag(&c)), b_csr(&CCSC::h(&c)), b_csc(&(f * &c)), b_csc(&(&c * f)),
    ] };
    let (p, q) = (run(), run());
    ck!(p == q, "complex operations answer differently when repeated");
    ck!((sn_coo(&o), sn_csr(&a), sn_csc(&c)) == before, "a complex operation changes its operand");
    ck!(b_csr(&(f * a.clone())) == p[8] && b_csr(&(a.clone() * f)) == p[9], "owned and borrowed complex scaling of CSR differ");
    ck!(b_csc(&(f * m.csc::<usize>())) == p[16] && b_csc(&(m.csc::<usize>() * f)) == p[17], "owned and borrowed complex scaling of CSC differ");
    let re = CCSR::real(&a);
    let before = sn_csr(&re);
    let w = |r: &CSR<usize, f64>| { let x = <CSR<usize, Complex64> as CCSR<usize, f64, Complex64>>::with_real(r); let y = <CSR<usize, Complex64> as CCSR<usize, f64, Complex64>>::with_imag(r); (b_csr(&x), b_csr(&y)) };
    ck!(w(&re) == w(&re) && sn_csr(&re) == before, "with_real or with_imag changes its operand");
    Ok(())
}
fn keep_dok(m: &Tri<f64>, cx: &mut Cx) -> R {
    let mut k: DoK<usize, f64> = DoK::new(m.rows, m.cols);
    for e in &m.e { k.add(e.0, e.1, e.2).map_err(|e| e.to_string())? }
    let d: Vec<Vec<f64>> = m.dense();
    let before = (k.rows(), k.cols(), rd_dok(&k)?.bag());
    cx.op("DoK operations");
    let lines = |k: &DoK<usize, f64>| { let mut l: Vec<String> = k.to_string().lines().map(|s| s.to_string()).collect(); l.sort(); l };
    let run = || (b_coo(&k.to_coo()), b_csr(&k.to_csr()), b_csc(&k.to_csc()), k.to_dense(), lines(&k), k.get(0, 0).bits(), k.nnz());
    let (p, q) = (run(), run());
    ck!(format!("{p:?}") == format!("{q:?}"), "dictionary operations answer differently when repeated");
    ck!((k.rows(), k.cols(), rd_dok(&k)?.bag()) == before, "a dictionary operation changes its operand");
    if m.rows > 0 {
        let e: Vec<&[f64]> = d.iter().map(|r| &r[..]).collect();
        let d0 = d.clone();
        let _ = (DoK::<usize, f64>::from_dense(&e), CSR::<usize, f64>::from_dense(&d), CSC::<usize, f64>::from_dense(&d), Coo::<usize, f64>::from_dense(&d));
        ck!(bi(&d.concat()) == bi(&d0.concat()), "from_dense changes its operand");
    }
    Ok(())
}
pub fn c20(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    two(s, "2x2/triplets/len2", triples(2, 2, 2, &A3[..2]), triples(2, 2, 2, &[1.0, 2.0]), keep_case::<usize>);
    two(s, "1x2/triplets/len3", triples(1, 2, 3, &[1.0]), triples(1, 2, 3, &[-1.0]), keep_case::<u32>);
    two(s, "2x1/triplets/len3", triples(2, 1, 3, &[1.0]), triples(2, 1, 3, &[-1.0]), keep_case::<i32>);
    two(s, "2x2/canonical", canon(2, 2, &A3), canon(2, 2, &A3[..2]), keep_case::<usize>);
    two(s, "2x3/canonical", canon(2, 3, &[1.0]), canon(2, 3, &[1.0, -1.0]), keep_case::<i64>);
    two(s, "3x2/canonical", canon(3, 2, &[1.0, -1.0]), canon(3, 2, &[1.0]), keep_case::<u8>);
    // sums of these do not depend on the order
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, 0.0];
    two(s, "1x2/triplets/len2/special values", triples(1, 2, 2, &sp), triples(1, 2, 2, &sp), keep_case::<usize>);
    two(s, "2x2/canonical/special values", canon(2, 2, &sp[..3 + th as usize]), canon(2, 2, &sp[1..2 + th as usize]), keep_case::<u16>);
    two(s, "3x3/triplets/len2", triples(3, 3, 2, &[2.0]), triples(3, 3, 2, &[-2.0]), keep_case::<usize>);
    let t = th as u32;
    two(s, "2x2/triplets/len4", triples(2, 2, 4 + t, &[1.0]).map(distinct), triples(2, 2, 1, &[3.0]), keep_case::<usize>);
    two(s, "3x3/triplets/len3", triples(3, 3, 3 + t, &[1.0]).map(distinct), triples(3, 3, 1, &[3.0]), keep_case::<usize>);
    fam_two(s, "families", [(0, 0), (0, 3), (3, 0), (1, 1), (2, 2), (3, 3), (4, 2), (2, 4), (5, 5), (1, 12), (12, 1), (9, 8)].iter().map(|&d| (d, d)).collect(), if th { 6 } else { 3 }, if th { 2 } else { 1 }, keep_case::<usize>);
    if th { fam_two(s, "families/large", [(17, 15), (12, 40), (33, 31)].iter().map(|&d| (d, d)).collect(), 2, 1, keep_case::<u16>) }
    let (n, gp) = gap_pairs::<f64>();
    s.push(space("lines at every distance", 275 * 50, move |i, cx| { let (a, b) = gp(i.min(n - 1)); keep_case::<u32>(&a, &b, cx) }));
    let sz = sizes::<f64>();
    s.push(space("lines of every length", 2720, move |i, cx| { let a = sz.get(i); let b = a.map(|v| 3.0 - v); keep_case::<usize>(&a, &b, cx) }));
    one(s, "complex/2x2", triples(2, 2, 3, &[Complex64::new(1.0, 2.0), Complex64::new(0.0, -1.0)]), keep_complex);
    one(s, "complex/families", families::<Complex64>(fit(dims(th), 40), 3), keep_complex);
    one(s, "dictionary/2x2", triples(2, 2, 4, &[1.0, -1.0]), keep_dok);
    one(s, "dictionary/families", families::<f64>(fit(dims(th), 40), 3), keep_dok);
    v
}

// ---- C22 ---------------------------------------------------------------------------------------------------
pub fn dense_case<I: Ix, T: El>(d: &[Vec<T>], rows: usize, cols: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("dense {d:?}"));
    let w = Tri::new(rows, cols, d.iter().enumerate().flat_map(|(i, r)| r.iter().enumerate().filter(|x| !x.1.is_zero()).map(move |(j, &v)| (i, j, v))).collect());
    cx.see(w.hash(22));
    cx.op("Coo::from_dense");
    let o: Coo<I, T> = Coo::from_dense(d);
    ctx("Coo::from_dense", same_seq(&rd_coo(&o)?, &w))?;
    cx.op("CSR::from_dense");
    let a: CSR<I, T> = CSR::from_dense(d);
    ctx("CSR::from_dense", same_seq(&rd_csr(&a)?, &w))?;
    cx.op("CSC::from_dense");
    let c: CSC<I, T> = CSC::from_dense(d);
    ctx("CSC::from_dense", same_seq(&rd_csc(&c)?, &w.by_col()))?;
    cx.op("DoK::from_dense");
    let r: Vec<&[T]> = d.iter().map(|r| &r[..]).collect();
    let k: DoK<I, T> = DoK::from_dense(&r);
    ctx("DoK::from_dense", same_seq(&rd_dok(&k)?, &w))?;
    ck!(k.nnz() == w.e.len(), "DoK::from_dense: nnz() is {}", k.nnz());
    // what was built can be converted and printed
    cx.op("conversions");
    ctx("CSR::from_dense, to_coo", same_seq(&rd_coo(&a.to_coo())?, &w))?;
    ctx("CSC::from_dense, to_csr", same_seq(&rd_csr(&c.to_csr())?, &w))?;
    ctx("Coo::from_dense, to_csr", same_seq(&rd_csr(&o.to_csr())?, &w))?;
    ctx("Coo::from_dense, to_dense", same_dense(&o.to_dense(), &w.dense()))?;
    ck!(a.has_canonical_format() && c.has_canonical_format(), "a matrix built from dense rows is not canonical");
    Ok(())
}
pub fn size_case<I: Ix, T: El>(n: usize, d: Vec<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("size {n}"));
    let w = Tri::new(n, n, d.iter().enumerate().map(|(i, &v)| (i, i, v)).collect());
    cx.see(w.hash(221));
    cx.op("with_diagonal");
    ctx("Coo::with_diagonal", same_seq(&rd_coo(&Coo::<I, T>::with_diagonal(&d))?, &w))?;
    ctx("CSR::with_diagonal", same_seq(&rd_csr(&CSR::<I, T>::with_diagonal(d.clone()))?, &w))?;
    ctx("CSC::with_diagonal", same_seq(&rd_csc(&CSC::<I, T>::with_diagonal(d.clone()))?, &w))?;
    cx.op("Coo::identity");
    ctx("Coo::identity", same_seq(&rd_coo(&Coo::<I, T>::identity(n))?, &w.map(|_| T::one())))
}
pub fn empty_case<I: Ix>(r: usize, c: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("shape {r}x{c}"));
    let w = Tri::<f64>::new(r, c, vec![]);
    cx.see(w.hash(222));
    cx.op("with_size");
    let a: CSR<I, f64> = CSR::with_size(r, c);
    ctx("CSR::with_size", same_seq(&rd_csr(&a)?, &w))?;
    ctx("CSR::with_size, to_csc", same_seq(&rd_csc(&a.to_csc())?, &w))?;
    let o: Coo<I, f64> = Coo::with_size(r, c);
    ctx("Coo::with_size", same_seq(&rd_coo(&o)?, &w))?;
    ctx("Coo::with_size, to_csr", same_seq(&rd_csr(&o.to_csr())?, &w))?;
    ctx("Coo::with_size, to_csc", same_seq(&rd_csc(&o.to_csc())?, &w))?;
    cx.op("with_capacity");
    ctx("Coo::with_capacity", same_seq(&rd_coo(&Coo::<I, f64>::with_capacity(r, c, r + c + 3))?, &w))?;
    ctx("Coo::with_capacity", same_seq(&rd_coo(&Coo::<I, f64>::with_capacity(r, c, 0))?, &w))?;
    cx.op("DoK::new");
    for k in [DoK::<I, f64>::new(r, c), DoK::with_capacity(r, c, 5), DoK::with_capacity(r, c, 0)] {
        ctx("empty DoK", same_seq(&rd_dok(&k)?, &w))?;
        ctx("empty DoK, to_coo", same_seq(&rd_coo(&k.to_coo())?, &w))?;
        ctx("empty DoK, to_csr", same_seq(&rd_csr(&k.to_csr())?, &w))?;
        ck!(k.nnz() == 0, "empty DoK: nnz() is {}", k.nnz());
    }
    Ok(())
}
/// Growth histories of a coordinate matrix: every sequence of pushes, extensions by 0, 1 or 2 entries and writes
/// through the value view.
pub fn grow_case<I: Ix>(r: usize, c: usize, start: usize, mut q: u64, len: u32, cx: &mut Cx) -> R {
    let np = (r * c) as u64;
    // operations: push at p; extend by none; extend by one at p; extend by two at p and its successor; write value p
    let ops = 4 * np + 1;
    let mut m: Coo<I, f64> = match start { 0 => Coo::with_size(r, c), 1 => Coo::with_capacity(r, c, 1), _ => Coo::new(r, c, vec![ix(r - 1)], vec![ix(0)], vec![7.0]).unwrap() };
    let mut w = Tri::new(r, c, if start == 2 { vec![(r - 1, 0, 7.0)] } else { vec![] });
    let mut v = 0.0;
    for _ in 0..len {
        let o = q % ops;
        q /= ops;
        let p = (o / 4) as usize;
        let at = |p: usize| (p / c, p % c);
        let (i, j) = at(p % (r * c));
        v += 1.0;
        if o == 4 * np { cx.op("Coo::extend"); m.extend(&[], &[], &[]); continue }
        match o % 4 {
            0 => { cx.op("Coo::push"); m.push(ix(i), ix(j), v); w.e.push((i, j, v)) }
            1 => { cx.op("Coo::extend"); m.extend(&[ix(i)], &[ix(j)], &[v]); w.e.push((i, j, v)) }
            2 => {
                let (k, l) = at((p + 1) % (r * c));
                cx.op("Coo::extend");
                m.extend(&[ix(i), ix(k)], &[ix(j), ix(l)], &[v, -v]);
                w.e.push((i, j, v));
                w.e.push((k, l, -v));
            }
            _ => {
                cx.op("Coo::values_mut");
                let n = w.e.len();
                if n > 0 { m.values_mut()[p % n] = 0.0; w.e[p % n].2 = 0.0 }
            }
        }
    }
    cx.say(|| show(&w));
    cx.see(w.hash(223));
    ctx("grown coordinate matrix", same_seq(&rd_coo(&m)?, &w))?;
    ck!((m.rows(), m.cols(), m.nnz()) == (r, c, w.e.len()), "shape or count is wrong");
    ctx("grown coordinate matrix, to_dense", same_dense(&m.to_dense(), &w.dense()))
}
pub fn view_case<I: Ix>(m: &Tri<f64>, cx: &mut Cx) -> R {
    cx.see(m.hash(224));
    cx.op("values_mut");
    let (mr, mc) = (m.by_row(), m.by_col());
    for k in 0..m.e.len().min(12) {
        let set = |t: &Tri<f64>| { let mut t = t.clone(); t.e[k].2 = -9.5; t };
        let mut o: Coo<I, f64> = m.coo();
        o.values_mut()[k] = -9.5;
        ctx("Coo::values_mut", same_seq(&rd_coo(&o)?, &set(m)))?;
        let mut a: CSR<I, f64> = m.csr();
        a.values_mut()[k] = -9.5;
        ctx("CSR::values_mut", same_seq(&rd_csr(&a)?, &set(&mr)))?;
        let mut c: CSC<I, f64> = m.csc();
        c.values_mut()[k] = -9.5;
        ctx("CSC::values_mut", same_seq(&rd_csc(&c)?, &set(&mc)))?;
    }
    Ok(())
}
pub fn c22(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    // every dense matrix over small alphabets
    for (r, c, al) in [(1usize, 1usize, &[0.0, 1.0, -1.0, 0.5][..]), (2, 2, &[0.0, 1.0, -1.0, 2.0]), (1, 5, &[0.0, 1.0, -1.0]), (5, 1, &[0.0, 1.0, -1.0]), (2, 3, &[0.0, 1.0, -1.0]), (3, 2, &[0.0, 1.0, -1.0]), (3, 3, &[0.0, 2.0]), (2, 4, &[0.0, 1.0]), (4, 2, &[0.0, 1.0]), (4, 3, &[0.0, 1.0]), (3, 4, &[0.0, 1.0]), (4, 4, &[0.0, 1.0]), (2, 2, &SPECIAL)] {
        if (r, c) == (4, 4) && !th { continue }
        let al = al.to_vec();
        s.push(space(format!("dense/{r}x{c}/values {al:?}"), (al.len() as u64).pow((r * c) as u32), move |q, cx| {
            let mut q = q as usize;
            let d: Vec<Vec<f64>> = (0..r).map(|_| (0..c).map(|_| { let v = al[q % al.len()]; q /= al.len(); v }).collect()).collect();
            dense_case::<usize, f64>(&d, r, c, cx)
        }));
    }
    s.push(space("dense/without rows or columns", 12, |i, cx| {
        let r = i as usize;
        let d: Vec<Vec<f64>> = vec![vec![]; r];
        dense_case::<usize, f64>(&d, r, 0, cx)?;
        dense_case::<i8, i32>(&vec![vec![]; r], r, 0, cx)
    }));
    one(s, "dense/families/f64", families::<f64>(nonempty(dims(th)), 4), |m, cx| dense_case::<usize, f64>(&m.dense(), m.rows, m.cols, cx));
    one(s, "dense/families/complex", families::<Complex64>(nonempty(fit(dims(false), 70)), 3), |m, cx| dense_case::<u16, Complex64>(&m.dense(), m.rows, m.cols, cx));
    one(s, "dense/families/u8", families::<i64>(nonempty(narrow(255)), 2), |m, cx| dense_case::<u8, i64>(&m.dense(), m.rows, m.cols, cx));
    one(s, "dense/long", huge::<f64>(), |m, cx| dense_case::<u32, f64>(&m.dense(), m.rows, m.cols, cx));
    let sizes = [300u64, 1100][th as usize];
    s.push(space("diagonals and identities", sizes * 3, |i, cx| {
        let n = (i / 3) as usize;
        match i % 3 {
            0 => size_case::<usize, f64>(n, (0..n).map(|k| [1.0, 0.0, -2.5, f64::NAN, -0.0, 3.0][k % 6]).collect(), cx),
            1 => size_case::<i32, i64>(n, (0..n).map(|k| k as i64 - 3).collect(), cx),
            _ => if n <= 127 { size_case::<i8, Complex64>(n, (0..n).map(|k| Complex64::new(k as f64, -1.0)).collect(), cx) } else { size_case::<u16, f32>(n, vec![0.0; n], cx) },
        }
    }));
    s.push(space("diagonals/every value sequence up to 5", 6 * 1024, |i, cx| { let n = (i / 1024) as usize; size_case::<usize, f64>(n, (0..n).map(|k| [0.0, 1.0, -0.0, f64::INFINITY][(i >> (2 * k)) as usize % 4]).collect(), cx) }));
    s.push(space("empty", 40 * 40, |i, cx| { let f = |k: u64| if k < 34 { k as usize } else { [64, 65, 127, 255, 256, 70_000][k as usize - 34] }; empty_case::<usize>(f(i % 40), f(i / 40), cx)?; if f(i % 40) < 128 && f(i / 40) < 128 { empty_case::<i8>(f(i % 40), f(i / 40), cx)? } Ok(()) }));
    for (r, c, l) in [(2usize, 2usize, 4u32), (1, 2, 5), (2, 1, 5), (1, 1, 6), (2, 3, 3), (3, 3, 3)] {
        let l = if th && l < 5 { l + 1 } else { l };
        let ops = (4 * r * c + 1) as u64;
        s.push(space(format!("growth/{r}x{c}/{l} operations"), ops.pow(l) * 3, move |i, cx| grow_case::<u32>(r, c, (i % 3) as usize, i / 3, l, cx)));
    }
    // every way to grow x kind of values x capacity at the start x shape, beyond every size at which arrays move
    let long = |r: usize, c: usize, way: usize, vals: usize, start: usize, steps: usize, cx: &mut Cx| -> R {
        let mut m: Coo<u32, f64> = match start { 0 => Coo::with_size(r, c), 1 => Coo::with_capacity(r, c, 1), 2 => Coo::with_capacity(r, c, 64), 3 => Coo::with_capacity(r, c, 300), _ => Coo::new(r, c, vec![ix(r - 1); 40], vec![0; 40], vec![0.0; 40]).unwrap() };
        let mut w = Tri::new(r, c, if start == 4 { vec![(r - 1, 0, 0.0); 40] } else { vec![] });
        let mut next = 1000;
        for k in 0..steps {
            let n = match way { 0 => 1, 1 => k % 5, 2 => if k % 7 == 6 { 33 } else { 2 }, _ => k % 4 };
            let e: Vec<(usize, usize, f64)> = (0..n).map(|q| {
                let v = (k * 5 + q + 1) as f64;
                let v = match vals { 0 => v, 1 => if (k + q) % 3 == 0 { 0.0 } else { v }, 2 => 0.0, 3 => if (k + q) % 2 == 0 { -v } else { -0.0 }, _ => [1.0, f64::NAN, -1.0, f64::INFINITY][(k + q) % 4] };
                // opposite values next to each other, at one position or in runs
                let t = w.e.len() + q;
                let v = match vals { 5 => [1.0, -1.0][t % 2], 6 => [-1.0, 1.0, 1.0, -1.0][t % 4], 7 => [1.0, 1.0, -2.0][t % 3], 8 => 1.0, _ => v };
                if vals == 5 || vals == 8 { (0, c - 1, v) } else if vals == 6 { ((t + 1) / 2 % r, (t + 1) / 2 % c, v) } else if vals == 7 { (t / 3 % r, t / 3 % c, v) } else if vals == 4 { ((k / 6) % r, (k / 9) % c, v) } else { ((k * 7 + q) % r, (k * 3 + q * q) % c, v) }
            }).collect();
            if way == 0 || (way == 3 && k % 2 == 0) { for x in &e { cx.op("Coo::push"); m.push(ix(x.0), ix(x.1), x.2) } }
            else { cx.op("Coo::extend"); m.extend(&e.iter().map(|x| ix(x.0)).collect::<Vec<_>>(), &e.iter().map(|x| ix(x.1)).collect::<Vec<_>>(), &e.iter().map(|x| x.2).collect::<Vec<_>>()) }
            w.e.extend(e);
            ck!(m.nnz() == w.e.len() && m.values().len() == w.e.len(), "{} entries are stored after step {}, must be {}", m.nnz(), k, w.e.len());
            if w.e.len() > next {
                // a look at everything, and one value written through the view
                ctx("growing coordinate matrix", same_seq(&rd_coo(&m)?, &w))?;
                let q = w.e.len() / 2;
                m.values_mut()[q] = 0.0;
                w.e[q].2 = 0.0;
                next *= 3;
            }
        }
        cx.see(w.hash(225));
        ctx("grown coordinate matrix", same_seq(&rd_coo(&m)?, &w))
    };
    s.push(space("growth/long histories", 4 * 9 * 5 * 16, move |i, cx| {
        let i = i as usize;
        let (r, c) = ([1usize, 3, 70, 300][i % 4], [1usize, 2, 65, 300][i / 4 % 4]);
        let i = i / 16;
        long(r, c, i % 4, i / 4 % 9, i / 36, 700, cx)
    }));
    s.push(space("growth/very long histories", 4 * 9 * 5, move |i, cx| { let i = i as usize; long(300, 66_000, i % 4, i / 4 % 9, i / 36, if i % 4 == 0 { 140_000 } else { 40_000 }, cx) }));
    one(s, "value view/2x2", triples(2, 2, 4, &[1.0, 2.0]), view_case::<usize>);
    one(s, "value view/families", families::<f64>(fit(dims(false), 40), 2), view_case::<u16>);
    v
}
fn nonempty(d: Vec<(usize, usize)>) -> Vec<(usize, usize)> { d.into_iter().filter(|x| x.0 > 0 && x.1 > 0).collect() }
