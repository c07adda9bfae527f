//! Other origins: the same stored object (the same shape and the same visible arrays), reached along another
//! history of public operations. What an operation answers may only depend on the stored object, so every
//! property is also explored on operands that were pushed, stacked, transposed, sorted, queried, ... instead of
//! being handed over whole. An origin that does not lead to exactly the wanted arrays is dropped in favour of
//! the plain constructor (that it should have led there is the business of the property of that operation).
use crate::engine::attempt;
use crate::model::*;
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use std::cell::Cell;

/// Origins per structure; a case of the "other origins" spaces visits all numbers 1..N.
pub const N: usize = 20;
thread_local! { static MODE: Cell<usize> = const { Cell::new(0) }; }
pub fn with<R>(mode: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize);
    impl Drop for Reset { fn drop(&mut self) { MODE.with(|m| m.set(self.0)) } }
    let _r = Reset(MODE.with(|m| m.replace(mode)));
    f()
}
fn bits<T: El>(v: &[T]) -> impl Iterator<Item = u64> + '_ { v.iter().map(|x| x.bits()) }

fn same_coo<I: Ix, T: El>(a: &Coo<I, T>, b: &Coo<I, T>) -> bool {
    (a.rows(), a.cols()) == (b.rows(), b.cols()) && a.rowidx() == b.rowidx() && a.colidx() == b.colidx() && bits(a.values()).eq(bits(b.values())) && a.values().len() == b.values().len()
}
fn same_csr<I: Ix, T: El>(a: &CSR<I, T>, b: &CSR<I, T>) -> bool {
    (a.rows(), a.cols()) == (b.rows(), b.cols()) && a.rowptr() == b.rowptr() && a.colidx() == b.colidx() && bits(a.values()).eq(bits(b.values())) && a.values().len() == b.values().len()
}
fn same_csc<I: Ix, T: El>(a: &CSC<I, T>, b: &CSC<I, T>) -> bool {
    (a.rows(), a.cols()) == (b.rows(), b.cols()) && a.colptr() == b.colptr() && a.rowidx() == b.rowidx() && bits(a.values()).eq(bits(b.values())) && a.values().len() == b.values().len()
}
fn pick<X>(plain: X, mode: usize, f: impl FnOnce() -> Option<X>, same: impl Fn(&X, &X) -> bool) -> X {
    match with(0, || attempt(f)) {
        Ok(Some(m)) if mode > 0 && same(&m, &plain) => m,
        _ => plain,
    }
}
/// Asks the object everything that a later answer must not depend on.
fn ask_coo<I: Ix, T: El>(m: &Coo<I, T>) {
    let _ = attempt(|| { m.to_csr(); m.to_csc(); m.nnz(); m.t(); });
    if m.rows() * m.cols() < 10_000 { let _ = attempt(|| { m.to_dense(); m.diagonal(); m.to_string(); m.upper(I::zero()); }); }
}
fn ask_csr<I: Ix, T: El>(m: &CSR<I, T>) {
    let _ = attempt(|| { m.has_canonical_format(); m.has_sorted_indexes(); m.to_csc(); m.to_coo(); m.t(); });
    if m.rows() * m.cols() < 10_000 {
        let _ = attempt(|| { m.get(I::zero(), I::zero()); });
        let _ = attempt(|| { m.diagonal(); m.to_string(); });
        let _ = attempt(|| { m.mat_vec(&vec![T::one(); m.cols()]).is_ok() });
    }
}
fn ask_csc<I: Ix, T: El>(m: &CSC<I, T>) {
    let _ = attempt(|| { m.has_canonical_format(); m.has_sorted_indexes(); m.to_csr(); m.to_coo(); m.t(); });
    if m.rows() * m.cols() < 10_000 {
        let _ = attempt(|| { m.to_dense(); m.diagonal(); m.to_string(); });
        let _ = attempt(|| { m.mat_vec(&vec![T::one(); m.cols()]).is_ok() });
    }
}

pub fn coo<I: Ix, T: El>(plain: Coo<I, T>) -> Coo<I, T> {
    let mode = MODE.with(|m| m.get());
    if mode == 0 { return plain }
    let (r, c, n) = (plain.rows(), plain.cols(), plain.values().len());
    let (ri, ci, va) = (plain.rowidx().to_vec(), plain.colidx().to_vec(), plain.values().to_vec());
    let whole = || Coo::<I, T>::new(r, c, ri.clone(), ci.clone(), va.clone()).unwrap();
    let part = |a: usize, b: usize| Coo::<I, T>::new(r, c, ri[a..b].to_vec(), ci[a..b].to_vec(), va[a..b].to_vec()).unwrap();
    pick(plain, mode, || Some(match mode {
        1 => { let mut m = Coo::with_size(r, c); for k in 0..n { m.push(ri[k], ci[k], va[k]) } m }
        2 => { let mut m = Coo::with_capacity(r, c, n); m.extend(&ri, &ci, &va); m }
        3 => { let h = n / 2; let mut m = part(0, h); m.extend(&ri[h..], &ci[h..], &va[h..]); m }
        4 => { if n == 0 { return None } let mut m = part(0, n - 1); ask_coo(&m); m.push(ri[n - 1], ci[n - 1], va[n - 1]); m }
        // pushed, asked in between, stacked
        5 => {
            let mut m = Coo::with_size(r, c);
            for k in 0..n { m.push(ri[k], ci[k], va[k]) }
            Coo::v_stack(&m, &Coo::with_size(0, c)).ok()?
        }
        6 => Coo::v_stack(&Coo::with_size(0, c), &whole()).ok()?,
        7 => {
            let mut m = Coo::with_size(r, c);
            for k in 0..n { m.push(ri[k], ci[k], va[k]) }
            Coo::h_stack(&m, &Coo::with_size(r, 0)).ok()?
        }
        8 => Coo::h_stack(&Coo::with_size(r, 0), &whole()).ok()?,
        9 => whole().t().t(),
        10 => { let m = whole(); ask_coo(&m); m.transpose().transpose() }
        11 => -(-whole()),
        12 => { let mut m = Coo::new(r, c, ri.clone(), ci.clone(), vec![T::zero(); n]).ok()?; ask_coo(&m); m.values_mut().copy_from_slice(&va); m }
        13 => { let m = whole(); ask_coo(&m); m.clone() }
        // stacked from a cut between rows or columns
        14 => {
            let h = r / 2;
            let k = (0..n).position(|k| ri[k].to_usize().unwrap() >= h).unwrap_or(n);
            let a = Coo::new(h, c, ri[..k].to_vec(), ci[..k].to_vec(), va[..k].to_vec()).ok()?;
            let mut b = Coo::with_size(r - h, c);
            for q in k..n { if ri[q] < ix(h) { return None } b.push(ri[q] - ix(h), ci[q], va[q]) }
            Coo::v_stack(&a, &b).ok()?
        }
        15 => {
            let h = c / 2;
            let k = (0..n).position(|k| ci[k].to_usize().unwrap() >= h).unwrap_or(n);
            let a = Coo::new(r, h, ri[..k].to_vec(), ci[..k].to_vec(), va[..k].to_vec()).ok()?;
            let mut b = Coo::with_size(r, c - h);
            for q in k..n { if ci[q] < ix(h) { return None } b.push(ri[q], ci[q] - ix(h), va[q]) }
            Coo::h_stack(&a, &b).ok()?
        }
        16 => { let m = whole().to_csr(); ask_csr(&m); m.to_coo() }
        17 => { let m = whole().to_csc(); ask_csc(&m); m.to_coo() }
        18 => { let m = whole(); Coo::compose([[&m, &Coo::with_size(r, 0)], [&Coo::with_size(0, c), &Coo::with_size(0, 0)]]).ok()? }
        _ => Coo::from_dense(&whole().to_dense()),
    }), same_coo)
}

/// The compressed lines (pointers, minor indexes, values), each line turned round.
fn reversed<I: Ix, T: El>(p: &[I], j: &[I], x: &[T]) -> (Vec<I>, Vec<T>) {
    let (mut j, mut x) = (j.to_vec(), x.to_vec());
    for w in p.windows(2) { let (a, b) = (w[0].to_usize().unwrap(), w[1].to_usize().unwrap()); j[a..b].reverse(); x[a..b].reverse(); }
    (j, x)
}
/// The first entry of every line split into two entries that add up to it.
fn split<I: Ix, T: El>(p: &[I], j: &[I], x: &[T]) -> (Vec<I>, Vec<I>, Vec<T>) {
    let (mut p2, mut j2, mut x2) = (vec![I::zero()], vec![], vec![]);
    for w in p.windows(2) {
        let (a, b) = (w[0].to_usize().unwrap(), w[1].to_usize().unwrap());
        for k in a..b {
            j2.push(j[k]);
            if k == a { x2.push(x[k] + x[k]); j2.push(j[k]); x2.push(T::zero() - x[k]); } else { x2.push(x[k]) }
        }
        p2.push(ix(j2.len()));
    }
    (p2, j2, x2)
}
fn blank<I: Ix, T: El>(r: usize, c: usize) -> CSR<I, T> { CSR::with_size(r, c) }

pub fn csr<I: Ix, T: El>(plain: CSR<I, T>) -> CSR<I, T> {
    let mode = MODE.with(|m| m.get());
    if mode == 0 { return plain }
    let (r, c, n) = (plain.rows(), plain.cols(), plain.values().len());
    let (p, j, x) = (plain.rowptr().to_vec(), plain.colidx().to_vec(), plain.values().to_vec());
    let whole = || CSR::<I, T>::new(r, c, p.clone(), j.clone(), x.clone()).unwrap();
    pick(plain, mode, || Some(match mode {
        1 => { let m = whole(); ask_csr(&m); m }
        2 => { let m = whole(); ask_csr(&m); m.clone() }
        3 => whole().t().t(),
        4 => { let m = whole(); ask_csr(&m); m.transpose().transpose() }
        5 => {
            let mut m = Coo::with_size(r, c);
            for k in 0..r { for q in p[k].to_usize().unwrap()..p[k + 1].to_usize().unwrap() { m.push(ix(k), j[q], x[q]) } }
            m.to_csr()
        }
        6 => { let m = whole().to_csc(); ask_csc(&m); m.to_csr() }
        7 => { let m = whole(); ask_csr(&m); m.select(None, None).ok()? }
        8 => { let (j2, x2) = reversed(&p, &j, &x); let mut m = CSR::new(r, c, p.clone(), j2, x2).ok()?; ask_csr(&m); m.sort_indexes(); m }
        9 => { let (p2, j2, x2) = split(&p, &j, &x); let mut m = CSR::new(r, c, p2, j2, x2).ok()?; ask_csr(&m); m.sum_duplicates().ok()?; m }
        10 => { let mut m = CSR::new(r, c, p.clone(), j.clone(), vec![T::zero(); n]).ok()?; ask_csr(&m); m.values_mut().copy_from_slice(&x); m }
        11 => -(-whole()),
        12 => { let m = whole(); ask_csr(&m); m * T::one() }
        13 => CSR::h_stack(&whole(), &blank(r, 0)).ok()?,
        14 => { let a = blank(r, c); ask_csr(&a); a + whole() }
        15 => { let m = whole(); ask_csr(&m); m + blank(r, c) }
        16 => { if r == 0 { return None } CSR::from_dense(&whole().to_coo().to_dense()) }
        17 => { let mut m = whole(); ask_csr(&m); m.sort_indexes(); m }
        18 => { let mut m = whole(); ask_csr(&m); m.sum_duplicates().ok()?; m }
        _ => {
            let rows: Vec<I> = (0..r).map(ix).collect();
            let cols: Vec<I> = (0..c).map(ix).collect();
            whole().select(Some(&rows), Some(&cols)).ok()?
        }
    }), same_csr)
}
pub fn csc<I: Ix, T: El>(plain: CSC<I, T>) -> CSC<I, T> {
    let mode = MODE.with(|m| m.get());
    if mode == 0 { return plain }
    let (r, c, n) = (plain.rows(), plain.cols(), plain.values().len());
    let (p, i, x) = (plain.colptr().to_vec(), plain.rowidx().to_vec(), plain.values().to_vec());
    let whole = || CSC::<I, T>::new(r, c, i.clone(), p.clone(), x.clone()).unwrap();
    let none = || CSC::<I, T>::new(r, c, vec![], vec![I::zero(); c + 1], vec![]).unwrap();
    pick(plain, mode, || Some(match mode {
        1 | 2 => { let m = whole(); ask_csc(&m); m }
        3 => whole().t().t(),
        4 => { let m = whole(); ask_csc(&m); m.transpose().transpose() }
        5 => {
            let mut m = Coo::with_size(r, c);
            for k in 0..c { for q in p[k].to_usize().unwrap()..p[k + 1].to_usize().unwrap() { m.push(i[q], ix(k), x[q]) } }
            m.to_csc()
        }
        6 => { let m = whole().to_csr(); ask_csr(&m); m.to_csc() }
        7 => { let m = whole(); ask_csc(&m); m.select(None, None).ok()? }
        8 => { let (i2, x2) = reversed(&p, &i, &x); let mut m = CSC::new(r, c, i2, p.clone(), x2).ok()?; ask_csc(&m); m.sort_indexes(); m }
        9 => { let (p2, i2, x2) = split(&p, &i, &x); let mut m = CSC::new(r, c, i2, p2, x2).ok()?; ask_csc(&m); m.sum_duplicates(); m }
        10 => { let mut m = CSC::new(r, c, i.clone(), p.clone(), vec![T::zero(); n]).ok()?; ask_csc(&m); m.values_mut().copy_from_slice(&x); m }
        11 => -(-whole()),
        12 => { let m = whole(); ask_csc(&m); m * T::one() }
        13 => { let mut m = whole(); ask_csc(&m); m.prune().ok()?; m }
        14 => { let a = none(); ask_csc(&a); a.add(&whole()).ok()? }
        15 => { let m = whole(); ask_csc(&m); m.subtract(&none()).ok()? }
        16 => { if r == 0 { return None } CSC::from_dense(&whole().to_dense()) }
        17 => { let mut m = whole(); ask_csc(&m); m.sort_indexes(); m }
        18 => { let mut m = whole(); ask_csc(&m); m.sum_duplicates(); m }
        _ => {
            let rows: Vec<I> = (0..r).map(ix).collect();
            let cols: Vec<I> = (0..c).map(ix).collect();
            whole().select(Some(&rows), Some(&cols)).ok()?
        }
    }), same_csc)
}
