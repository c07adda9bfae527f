//! The reference model: a matrix is a shape and a list of stored (row, column, value) triplets; its
//! elements are the sums of the triplets at each position. Deliberately boring.
use crate::engine::mix;
use crate::{ck, origin};
use num_complex::Complex64;
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::{Integer, Scalar};
use std::fmt::Debug;

/// Element types of the exploration.
pub trait El: Scalar + Debug + Send + Sync + 'static + std::ops::Neg<Output = Self> {
    fn same(&self, o: &Self) -> bool; // equality of values, NaN equal to NaN
    fn bits(&self) -> u64;
    fn of(x: f64) -> Self; // the alphabet value x in this type
}
macro_rules! int_el { ($($t:ty),*) => { $(impl El for $t {
    fn same(&self, o: &Self) -> bool { self == o }
    fn bits(&self) -> u64 { *self as u64 }
    fn of(x: f64) -> Self { (x * 2.0) as $t }
})* } }
int_el!(i8, i16, i32, i64, i128, isize);
impl El for f64 {
    fn same(&self, o: &Self) -> bool { self == o || (self.is_nan() && o.is_nan()) }
    fn bits(&self) -> u64 { if self.is_nan() { f64::NAN.to_bits() } else { self.to_bits() } }
    fn of(x: f64) -> Self { x }
}
impl El for f32 {
    fn same(&self, o: &Self) -> bool { self == o || (self.is_nan() && o.is_nan()) }
    fn bits(&self) -> u64 { if self.is_nan() { f32::NAN.to_bits() as u64 } else { self.to_bits() as u64 } }
    fn of(x: f64) -> Self { x as f32 }
}
impl El for Complex64 {
    fn same(&self, o: &Self) -> bool { self.re.same(&o.re) && self.im.same(&o.im) }
    fn bits(&self) -> u64 { mix(mix(1, El::bits(&self.re)), El::bits(&self.im)) }
    fn of(x: f64) -> Self { Complex64::new(x, (x * 3.0 + 1.0) % 5.0 * (if x == 0.0 { 0.0 } else { 1.0 })) }
}

pub trait Ix: Integer + std::hash::Hash + Send + Sync + 'static {}
impl<T: Integer + std::hash::Hash + Send + Sync + 'static> Ix for T {}

/// What the values of an oracle comparison mean.
pub fn eqv<T: El>(a: &T, b: &T) -> bool { a.same(b) }

#[derive(Clone, Debug, PartialEq)]
pub struct Tri<T> { pub rows: usize, pub cols: usize, pub e: Vec<(usize, usize, T)> }

impl<T: El> Tri<T> {
    pub fn new(rows: usize, cols: usize, e: Vec<(usize, usize, T)>) -> Self { Tri { rows, cols, e } }
    pub fn dense(&self) -> Vec<Vec<T>> {
        let mut d = vec![vec![T::zero(); self.cols]; self.rows];
        let mut f = vec![vec![false; self.cols]; self.rows];
        for &(i, j, v) in &self.e {
            // the first entry is taken verbatim so that NaN/inf/-0 are not disturbed by 0 + v
            if f[i][j] { d[i][j] = d[i][j] + v } else { d[i][j] = v; f[i][j] = true }
        }
        d
    }
    pub fn stored(&self) -> Vec<Vec<u32>> {
        let mut d = vec![vec![0; self.cols]; self.rows];
        for &(i, j, _) in &self.e { d[i][j] += 1 }
        d
    }
    pub fn t(&self) -> Tri<T> { Tri { rows: self.cols, cols: self.rows, e: self.e.iter().map(|&(i, j, v)| (j, i, v)).collect() } }
    pub fn map<U: El>(&self, f: impl Fn(T) -> U) -> Tri<U> { Tri { rows: self.rows, cols: self.cols, e: self.e.iter().map(|&(i, j, v)| (i, j, f(v))).collect() } }
    /// Stored entries as a sorted multiset (position, value bits).
    pub fn bag(&self) -> Vec<(usize, usize, u64)> {
        let mut b: Vec<_> = self.e.iter().map(|&(i, j, v)| (i, j, v.bits())).collect();
        b.sort();
        b
    }
    pub fn hash(&self, tag: u64) -> u64 {
        let mut h = mix(tag, (self.rows as u64) << 32 | self.cols as u64);
        for &(i, j, v) in &self.e { h = mix(h, (i as u64) << 32 | j as u64); h = mix(h, v.bits()) }
        h
    }
    /// Row-major order by stored order within rows (CSR storage order).
    pub fn by_row(&self) -> Tri<T> { let mut m = self.clone(); m.e.sort_by_key(|e| e.0); m }
    pub fn by_col(&self) -> Tri<T> { let mut m = self.clone(); m.e.sort_by_key(|e| e.1); m }
    /// Sorted by (row, column), duplicates summed, stored zeros kept.
    pub fn canon(&self) -> Tri<T> {
        let d = self.dense();
        let s = self.stored();
        let mut e = vec![];
        for i in 0..self.rows { for j in 0..self.cols { if s[i][j] > 0 { e.push((i, j, d[i][j])) } } }
        Tri::new(self.rows, self.cols, e)
    }
    pub fn row_canonical(&self) -> bool { // as stored row by row
        self.e.windows(2).all(|w| w[0].0 < w[1].0 || (w[0].0 == w[1].0 && w[0].1 < w[1].1))
    }
    pub fn coo<I: Ix>(&self) -> Coo<I, T> {
        origin::coo(Coo::new(self.rows, self.cols, self.e.iter().map(|e| ix(e.0)).collect(), self.e.iter().map(|e| ix(e.1)).collect(), self.e.iter().map(|e| e.2).collect()).unwrap())
    }
    /// CSR whose storage order within every row is the order of the triplets.
    pub fn csr<I: Ix>(&self) -> CSR<I, T> {
        let (p, j, x) = self.comp::<I>(true);
        origin::csr(CSR::new(self.rows, self.cols, p, j, x).unwrap())
    }
    pub fn csc<I: Ix>(&self) -> CSC<I, T> {
        let (p, i, x) = self.comp::<I>(false);
        origin::csc(CSC::new(self.rows, self.cols, i, p, x).unwrap())
    }
    /// (pointers, minor indexes, values)
    pub fn comp<I: Ix>(&self, by_row: bool) -> (Vec<I>, Vec<I>, Vec<T>) {
        let n = if by_row { self.rows } else { self.cols };
        let mut cnt = vec![0usize; n + 1];
        for e in &self.e { cnt[if by_row { e.0 } else { e.1 } + 1] += 1 }
        for k in 0..n { cnt[k + 1] += cnt[k] }
        let mut pos = cnt.clone();
        let mut idx = vec![I::zero(); self.e.len()];
        let mut val = vec![T::zero(); self.e.len()];
        for e in &self.e {
            let (a, b) = if by_row { (e.0, e.1) } else { (e.1, e.0) };
            idx[pos[a]] = ix(b);
            val[pos[a]] = e.2;
            pos[a] += 1;
        }
        (cnt.into_iter().map(ix).collect(), idx, val)
    }
}

pub fn ix<I: Ix>(i: usize) -> I { I::from(i).unwrap() }

/// Reads a compressed structure back into triplets, refusing structurally broken ones.
pub fn read_comp<I: Ix, T: Copy>(maj: usize, min: usize, p: &[I], j: &[I], x: &[T]) -> Result<Vec<(usize, usize, T)>, String> {
    ck!(p.len() == maj + 1, "pointer array has length {} for major dimension {}", p.len(), maj);
    ck!(p[0].is_zero(), "first pointer is {}", p[0]);
    let mut out = Vec::with_capacity(j.len());
    for k in 0..maj {
        ck!(p[k] <= p[k + 1], "pointers decrease: {} then {}", p[k], p[k + 1]);
        let (a, b) = (p[k].to_usize().unwrap(), p[k + 1].to_usize().unwrap());
        ck!(b <= j.len() && b <= x.len(), "pointer {} beyond arrays of length {} and {}", b, j.len(), x.len());
        for q in a..b {
            match j[q].to_usize() {
                Some(c) if c < min => out.push((k, c, x[q])),
                _ => return Err(format!("index {} outside dimension {}", j[q], min)),
            }
        }
    }
    Ok(out)
}
pub fn rd_csr<I: Ix, T: El>(m: &CSR<I, T>) -> Result<Tri<T>, String> {
    ck!(m.rowptr().len() == m.rows() + 1, "row pointer length {} for {} rows", m.rowptr().len(), m.rows());
    let e = read_comp(m.rows(), m.cols(), m.rowptr(), m.colidx(), m.values())?;
    ck!(m.nnz() == e.len(), "nnz() is {} but {} entries are stored", m.nnz(), e.len());
    Ok(Tri::new(m.rows(), m.cols(), e))
}
/// Entries in CSC storage order (column by column).
pub fn rd_csc<I: Ix, T: El>(m: &CSC<I, T>) -> Result<Tri<T>, String> {
    ck!(m.colptr().len() == m.cols() + 1, "column pointer length {} for {} columns", m.colptr().len(), m.cols());
    ck!(m.shape() == (m.rows(), m.cols()), "shape() {:?} differs from rows() {} and cols() {}", m.shape(), m.rows(), m.cols());
    let e = read_comp(m.cols(), m.rows(), m.colptr(), m.rowidx(), m.values())?;
    ck!(m.nnz() == e.len(), "nnz() is {} but {} entries are stored", m.nnz(), e.len());
    Ok(Tri::new(m.rows(), m.cols(), e.into_iter().map(|(j, i, v)| (i, j, v)).collect()))
}
pub fn rd_coo<I: Ix, T: El>(m: &Coo<I, T>) -> Result<Tri<T>, String> {
    let n = m.values().len();
    ck!(m.rowidx().len() == n && m.colidx().len() == n && m.nnz() == n, "array lengths {} {} {} nnz {}", m.rowidx().len(), m.colidx().len(), n, m.nnz());
    let mut e = Vec::with_capacity(n);
    for k in 0..n {
        match (m.rowidx()[k].to_usize(), m.colidx()[k].to_usize()) {
            (Some(i), Some(j)) if i < m.rows() && j < m.cols() => e.push((i, j, m.values()[k])),
            _ => return Err(format!("entry ({}, {}) outside {}x{}", m.rowidx()[k], m.colidx()[k], m.rows(), m.cols())),
        }
    }
    Ok(Tri::new(m.rows(), m.cols(), e))
}

// ---- comparisons ---------------------------------------------------------------------------------------
pub fn same_shape<T, U>(got: &Tri<T>, want: &Tri<U>) -> Result<(), String> {
    ck!(got.rows == want.rows && got.cols == want.cols, "shape is {}x{}, must be {}x{}", got.rows, got.cols, want.rows, want.cols);
    Ok(())
}
/// Same shape and same elements.
pub fn same_elems<T: El>(got: &Tri<T>, want: &Tri<T>) -> Result<(), String> {
    same_shape(got, want)?;
    same_dense(&got.dense(), &want.dense())
}
pub fn same_dense<T: El>(g: &[Vec<T>], w: &[Vec<T>]) -> Result<(), String> {
    ck!(g.len() == w.len(), "dense form has {} rows, must have {}", g.len(), w.len());
    for (i, (a, b)) in g.iter().zip(w).enumerate() {
        ck!(a.len() == b.len(), "dense row {} has {} columns, must have {}", i, a.len(), b.len());
        for (j, (x, y)) in a.iter().zip(b).enumerate() { ck!(x.same(y), "element ({}, {}) is {:?}, must be {:?}", i, j, x, y); }
    }
    Ok(())
}
pub fn same_vec<T: El>(g: &[T], w: &[T]) -> Result<(), String> {
    ck!(g.len() == w.len(), "length is {}, must be {}", g.len(), w.len());
    for i in 0..g.len() { ck!(g[i].same(&w[i]), "element {} is {:?}, must be {:?}", i, g[i], w[i]); }
    Ok(())
}
/// The same stored entries (as a multiset, values verbatim).
pub fn same_bag<T: El>(got: &Tri<T>, want: &Tri<T>) -> Result<(), String> {
    same_shape(got, want)?;
    let (a, b) = (got.bag(), want.bag());
    ck!(a == b, "stored entries are {:?}, must be {:?} in any order", got.e, want.e);
    Ok(())
}
/// The same stored entries in the same order (values verbatim).
pub fn same_seq<T: El>(got: &Tri<T>, want: &Tri<T>) -> Result<(), String> {
    same_shape(got, want)?;
    ck!(got.e.len() == want.e.len() && got.e.iter().zip(&want.e).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2.bits() == b.2.bits()),
        "stored entries are {:?}, must be {:?}", got.e, want.e);
    Ok(())
}
/// As `same_seq` with numeric comparison of the values (NaN equal to NaN, 0.0 equal to -0.0).
pub fn same_seq_num<T: El>(got: &Tri<T>, want: &Tri<T>) -> Result<(), String> {
    same_shape(got, want)?;
    ck!(got.e.len() == want.e.len() && got.e.iter().zip(&want.e).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2.same(&b.2)),
        "stored entries are {:?}, must be {:?}", got.e, want.e);
    Ok(())
}
pub fn no_dups<T: El>(m: &Tri<T>) -> Result<(), String> {
    let mut p: Vec<(usize, usize)> = m.e.iter().map(|e| (e.0, e.1)).collect();
    p.sort();
    for w in p.windows(2) { ck!(w[0] != w[1], "position {:?} is stored more than once", w[0]); }
    Ok(())
}
pub fn no_zeros<T: El>(m: &Tri<T>) -> Result<(), String> {
    for e in &m.e { ck!(!e.2.is_zero(), "a zero is stored at ({}, {})", e.0, e.1); }
    Ok(())
}
/// Ascending minor index within each major line, as stored (`by_row`: lines are rows).
pub fn sorted_lines<T: El>(m: &Tri<T>, by_row: bool, strict: bool) -> bool {
    m.e.windows(2).all(|w| {
        let (a, b, c, d) = if by_row { (w[0].0, w[1].0, w[0].1, w[1].1) } else { (w[0].1, w[1].1, w[0].0, w[1].0) };
        a != b || if strict { c < d } else { c <= d }
    })
}
pub fn show<T: El>(m: &Tri<T>) -> String {
    if m.e.len() > 60 { format!("{}x{} with {} entries, first {:?}", m.rows, m.cols, m.e.len(), &m.e[..20]) } else { format!("{}x{} entries {:?}", m.rows, m.cols, m.e) }
}
