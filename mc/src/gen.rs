//! Complete enumerations of stored matrices.
use crate::model::*;

/// A finite enumeration decoded from an index.
pub struct En<T> { pub n: u64, pub f: Box<dyn Fn(u64) -> Tri<T> + Sync + Send> }
impl<T: El> En<T> {
    pub fn get(&self, i: u64) -> Tri<T> { (self.f)(i) }
    pub fn map(self, g: impl Fn(Tri<T>) -> Tri<T> + Sync + Send + 'static) -> En<T> {
        let n = self.n;
        En { n, f: Box::new(move |i| g((self.f)(i))) }
    }
}
pub fn union<T: El>(v: Vec<En<T>>) -> En<T> {
    let n = v.iter().map(|e| e.n).sum();
    En { n, f: Box::new(move |mut i| { for e in &v { if i < e.n { return e.get(i) } i -= e.n } unreachable!() }) }
}
fn geo(s: u64, l: u32) -> u64 { (0..=l).map(|k| s.checked_pow(k).unwrap()).sum() }

/// Every compressed matrix whose every line (row or column) is any sequence, of length at most `len`, of
/// (minor index, value) pairs: any order, any multiplicity, any assignment from `alpha`.
pub fn lines<T: El>(rows: usize, cols: usize, len: u32, alpha: &[T], by_row: bool) -> En<T> {
    let (maj, min) = if by_row { (rows, cols) } else { (cols, rows) };
    let s = (min * alpha.len()) as u64;
    let opt = geo(s, len);
    let alpha = alpha.to_vec();
    En { n: opt.checked_pow(maj as u32).unwrap(), f: Box::new(move |mut i| {
        let mut e = vec![];
        for m in 0..maj {
            let mut o = i % opt;
            i /= opt;
            let mut l = 0;
            while o >= s.pow(l) { o -= s.pow(l); l += 1 }
            for _ in 0..l {
                let y = o % s;
                o /= s;
                let (c, v) = (y as usize / alpha.len(), alpha[y as usize % alpha.len()]);
                e.push(if by_row { (m, c, v) } else { (c, m, v) });
            }
        }
        Tri::new(rows, cols, e)
    }) }
}
/// Every triplet sequence of length at most `len`.
pub fn triples<T: El>(rows: usize, cols: usize, len: u32, alpha: &[T]) -> En<T> {
    let s = (rows * cols * alpha.len()) as u64;
    let alpha = alpha.to_vec();
    En { n: geo(s, len), f: Box::new(move |mut o| {
        let mut l = 0;
        while o >= s.pow(l) { o -= s.pow(l); l += 1 }
        let mut e = vec![];
        for _ in 0..l {
            let y = (o % s) as usize;
            o /= s;
            let (p, v) = (y / alpha.len(), alpha[y % alpha.len()]);
            e.push((p / cols, p % cols, v));
        }
        Tri::new(rows, cols, e)
    }) }
}
/// Every sorted, duplicate-free matrix: each position absent or any value of `alpha` (zero = stored zero).
pub fn canon<T: El>(rows: usize, cols: usize, alpha: &[T]) -> En<T> {
    let k = alpha.len() as u64 + 1;
    let alpha = alpha.to_vec();
    En { n: k.checked_pow((rows * cols) as u32).unwrap(), f: Box::new(move |mut i| {
        let mut e = vec![];
        for r in 0..rows { for c in 0..cols {
            let y = i % k;
            i /= k;
            if y > 0 { e.push((r, c, alpha[y as usize - 1])) }
        } }
        Tri::new(rows, cols, e)
    }) }
}
/// `lines` with every stored value distinct (the enumeration is over structures only).
pub fn structs(rows: usize, cols: usize, len: u32, by_row: bool) -> En<f64> {
    lines(rows, cols, len, &[1.0], by_row).map(distinct)
}
pub fn distinct(mut m: Tri<f64>) -> Tri<f64> { for (k, e) in m.e.iter_mut().enumerate() { e.2 = (1u64 << (k % 50)) as f64 } m }

// ---- parametric families of large matrices ---------------------------------------------------------------
pub const N_PAT: usize = 27;
/// Multiplicity of position (i, j) in pattern p.
fn mult(p: usize, i: usize, j: usize, r: usize, c: usize) -> usize {
    let b = |x: bool| x as usize;
    match p {
        0 => 0,
        1 => 1,
        2 => b(i == j),
        3 => b(i + j + 1 == c),
        4 => b(j <= i),
        5 => b(j >= i),
        6 => b(i.abs_diff(j) <= 1),
        7 => b(i == 0),
        8 => b(i + 1 == r),
        9 => b(j == 0),
        10 => b(j + 1 == c),
        11 => b(i == 0 || j == 0 || i == j),
        12 => b((i + j) % 2 == 0),
        13 => b(i % 3 == 2),
        14 => b(i == r / 2),
        15 => b((i == 0 || i + 1 == r) && (j == 0 || j + 1 == c)),
        16 => b((2 * i + 3 * j) % 5 == 0),
        17 => b((i * j) % 7 == 1),
        18 => b((i + 2 * j) % 4 == 1),
        19 => 2 * b((i + j) % 3 == 0),
        20 => 3 * b(i == j),
        21 => 1 + b(i == j),
        22 => b(j < (i * 3) % (c + 1)),
        23 => if i == r / 3 && j == c / 2 { 40 } else { 0 },
        24 => (i + j) % 4,
        25 => b(i > 0 && i + 1 < r && j % 2 == 1),
        26 => b(i % 2 == 1) * (1 + b(j % 5 == 0)),
        _ => unreachable!(),
    }
}
pub const N_ORD: usize = 5;
pub const N_VAL: usize = 4;
fn val(v: usize, k: usize, i: usize, j: usize, occ: usize) -> f64 {
    match v {
        0 => (k + 1) as f64,
        1 => (1 + (i * 7 + j * 3) % 5) as f64 * if occ % 2 == 0 { 1.0 } else { -1.0 },
        2 => if (i + j + k) % 3 == 0 { 0.0 } else { ((k % 7) as f64 - 3.0) * 0.5 },
        3 => (1 + k % 3) as f64 * if k % 2 == 0 { 1.0 } else { -1.0 } * 2f64.powi(-400),
        _ => unreachable!(),
    }
}
pub fn family<T: El>(r: usize, c: usize, p: usize, o: usize, v: usize) -> Tri<T> {
    let mut pos = vec![];
    let mx = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| mult(p, i, j, r, c)).max().unwrap_or(0);
    match o {
        // sorted (duplicates adjacent), reversed, rotated, strided; 4: column-by-column with duplicates far apart
        4 => for q in 0..mx { for j in 0..c { for i in 0..r { if mult(p, i, j, r, c) > q { pos.push((i, j, q)) } } } },
        _ => for i in 0..r { for j in 0..c { for q in 0..mult(p, i, j, r, c) { pos.push((i, j, q)) } } },
    }
    let n = pos.len();
    match o {
        1 => pos.reverse(),
        2 => pos.rotate_left(n / 2),
        3 => { let (a, b): (Vec<_>, Vec<_>) = pos.iter().enumerate().partition(|(k, _)| k % 2 == 1); pos = a.into_iter().chain(b).map(|(_, &x)| x).collect() }
        _ => {}
    }
    Tri::new(r, c, pos.into_iter().enumerate().map(|(k, (i, j, q))| (i, j, T::of(val(v, k, i, j, q)))).collect())
}
pub fn dims(big: bool) -> Vec<(usize, usize)> {
    let small = [0usize, 1, 2, 3, 4, 5, 7, 8, 9];
    let mut d: Vec<(usize, usize)> = small.iter().flat_map(|&a| small.iter().map(move |&b| (a, b))).collect();
    d.extend([(16, 16), (17, 15), (31, 33), (33, 31), (1, 70), (70, 1), (2, 130), (130, 2), (1, 300), (300, 1), (12, 40), (40, 12), (64, 64)]);
    if big { d.extend([(10, 10), (11, 13), (24, 24), (65, 63), (5, 257), (257, 5), (100, 40), (40, 100), (128, 128), (1, 1100), (1100, 1), (3, 600), (600, 3), (200, 150)]) }
    d
}
/// All members of the families over the given shapes.
pub fn families<T: El>(dims: Vec<(usize, usize)>, vals: usize) -> En<T> {
    let per = N_PAT * N_ORD * vals;
    En { n: (dims.len() * per) as u64, f: Box::new(move |i| {
        let i = i as usize;
        let (r, c) = dims[i / per];
        let q = i % per;
        family(r, c, q / (N_ORD * vals), q / vals % N_ORD, q % vals)
    }) }
}
