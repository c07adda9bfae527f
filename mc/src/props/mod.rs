use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::origin;
mod arith;
mod conv;
mod deep;
mod graph;
mod hist;
mod idx;
mod prod;
mod structure;
mod text;

pub fn spaces(p: &str, deep: bool) -> Vec<Space> {
    // the quick commands explore the larger bounds already where that takes seconds
    let th = deep || !matches!(p, "C14" | "C15" | "C16" | "C17");
    let mut v = level(p, th);
    if deep { v.extend(deep::extra(p)) }
    let o = origins(p, &v);
    v.extend(o);
    v
}
/// The spaces once more with operands of every other origin (smaller spaces), or of one other origin per case,
/// taken in turn (larger ones).
fn origins(p: &str, v: &[Space]) -> Vec<Space> {
    const TURN: u64 = origin::N as u64 - 1;
    if matches!(p, "C13" | "C14" | "C16" | "C17" | "C18" | "C22") { return vec![] }
    let mut out = vec![];
    for s in v {
        let big = ["families", "heavy", "lines ", "tall", "chains", "kernels"].iter().any(|w| s.name.contains(w));
        let deep = ["depth 3", "depth 4", "depth 5"].iter().any(|w| s.name.contains(w));
        if deep || ["long", "heavy", "lines of", "every size", "indexes far", "depth 2", "huge", "large"].iter().any(|w| s.name.contains(w)) { continue }
        let f = s.f.clone();
        if !big && s.n <= 20_000 {
            out.push(space(format!("{}/every other origin", s.name), s.n * TURN, move |i, cx| origin::with((i % TURN) as usize + 1, || f(i / TURN, cx))))
        } else if s.n <= 700_000 {
            out.push(space(format!("{}/another origin", s.name), s.n, move |i, cx| origin::with((i % TURN) as usize + 1, || f(i, cx))))
        }
    }
    out
}
fn level(p: &str, th: bool) -> Vec<Space> {
    match p {
        "C01" => conv::c01(th),
        "C09" => conv::c09(th),
        "C02" => hist::c02(th),
        "C13" => hist::c13(th),
        "C20" => hist::c20(th),
        "C22" => hist::c22(th),
        "C14" => graph::c14(th),
        "C15" => graph::c15(th),
        "C16" => graph::c16(th),
        "C17" => idx::c17(th),
        "C19" => text::c19(th),
        "C06" => prod::c06(th),
        "C07" => prod::c07(th),
        "C04" => arith::c04(th),
        "C05" => arith::c05(th),
        "C08" => arith::c08(th),
        "C18" => arith::c18(th),
        "C21" => arith::c21(th),
        "C03" => structure::c03(th),
        "C10" => structure::c10(th),
        "C11" => structure::c11(th),
        "C12" => structure::c12(th),
        _ => vec![],
    }
}

// ---- helpers shared by the property modules ----------------------------------------------------------------
pub fn ctx(what: &str, r: R) -> R { r.map_err(|e| format!("{what}: {e}")) }

/// A space with one case per member of an enumeration.
pub fn one<T: El>(v: &mut Vec<Space>, name: &str, en: En<T>, f: impl Fn(&Tri<T>, &mut Cx) -> R + Sync + Send + 'static) {
    v.push(space(name, en.n, move |i, cx| f(&en.get(i), cx)))
}
/// A space with one case per pair of members of two enumerations.
pub fn two<T: El>(v: &mut Vec<Space>, name: &str, a: En<T>, b: En<T>, f: impl Fn(&Tri<T>, &Tri<T>, &mut Cx) -> R + Sync + Send + 'static) {
    let n = a.n;
    v.push(space(name, n * b.n, move |i, cx| f(&a.get(i % n), &b.get(i / n), cx)))
}
/// Pairs of family members of matching shapes: `dims` gives (shape of a, shape of b).
pub fn fam_two<T: El>(v: &mut Vec<Space>, name: &str, dims: Vec<((usize, usize), (usize, usize))>, ords: usize, vals: usize, f: impl Fn(&Tri<T>, &Tri<T>, &mut Cx) -> R + Sync + Send + 'static) {
    let per = N_PAT * N_PAT * ords * vals;
    v.push(space(name, (dims.len() * per) as u64, move |i, cx| {
        let i = i as usize;
        let (da, db) = dims[i / per];
        let q = i % per;
        let (p, r) = (q / (ords * vals), q % (ords * vals));
        let (o, w) = (r / vals, r % vals);
        // `ords` runs over both sorted, either unsorted, both unsorted
        let (oa, ob) = [(0, 0), (0, 1), (3, 0), (4, 2), (1, 4), (2, 3)][o];
        let (va, vb) = [(0, 1), (1, 2), (2, 2), (3, 3)][w];
        f(&family(da.0, da.1, p / N_PAT, oa, va), &family(db.0, db.1, p % N_PAT, ob, vb), cx)
    }))
}
/// Family shapes whose larger dimension stays within `m`.
pub fn fit(d: Vec<(usize, usize)>, m: usize) -> Vec<(usize, usize)> { d.into_iter().filter(|x| x.0 <= m && x.1 <= m).collect() }
/// The family shapes on which `I` can hold dimensions and entry counts (patterns hold at most 3 entries per
/// position, pattern 23 at most 40).
pub fn narrow(m: usize) -> Vec<(usize, usize)> { dims(false).into_iter().filter(|x| x.0 <= m && x.1 <= m && 3 * x.0 * x.1 <= m).collect() }
/// Very long, nearly empty matrices: beyond 16-bit dimensions.
pub fn long<T: El>() -> En<T> {
    let mut l: Vec<Tri<f64>> = vec![];
    for n in [65_535usize, 65_536, 70_001] {
        for k in [1usize, 2] {
            let e: Vec<(usize, usize, f64)> = [0, n - 1, 1, n / 2, 65_534, n - 1, 255, 256, n - 2, 0].iter().enumerate().map(|(q, &j)| (q % k, j, (q + 1) as f64)).collect();
            let m = Tri::new(k, n, e);
            l.push(m.t());
            l.push(m);
        }
    }
    En { n: l.len() as u64, f: Box::new(move |i| { let m = &l[i as usize]; Tri::new(m.rows, m.cols, m.e.iter().map(|e| (e.0, e.1, T::of(e.2))).collect()) }) }
}
/// Rows and columns with more entries than 16 bits count, full, repeated, sorted and not; and more than that in all.
pub fn heavy<T: El>() -> En<T> {
    const D: [(usize, usize, usize); 5] = [(1, 66_000, 1), (2, 40_000, 1), (1, 3, 66_000), (260, 258, 1), (40, 9, 200)];
    En { n: 2 * 3 * D.len() as u64, f: Box::new(|i| {
        let (r, c, q) = D[i as usize / 6];
        let mut pos: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).flat_map(move |j| std::iter::repeat((i, j)).take(q))).collect();
        match i % 3 { 1 => pos.reverse(), 2 => { let h = pos.len() / 2; let b = pos.split_off(h); pos = b.into_iter().zip(pos).flat_map(|(a, b)| [a, b]).collect() } _ => {} }
        // small values: every sum is exact
        let m = Tri::new(r, c, pos.into_iter().enumerate().map(|(k, (i, j))| (i, j, T::of((k % 5) as f64 - 2.0))).collect());
        if i / 3 % 2 == 1 { m.t() } else { m }
    }) }
}
/// Distances and sizes that are visited one by one, then those around larger powers of two.
pub fn steps() -> Vec<usize> {
    let mut d: Vec<usize> = (1..=270).collect();
    for p in [512usize, 1024, 4096, 65_536] { d.extend(p - 2..=p + 2) }
    d
}
const N_GAP: usize = 10;
/// Two lines `d` apart that meet in the minor index or do not, with nothing between: what a kernel remembers of one
/// line and takes for another's shows at some distance.
fn gap<T: El>(d: usize, k: usize) -> Tri<T> {
    let e: &[(usize, usize, f64)] = match k % 5 {
        0 => &[(0, 0, 1.0), (1, 0, 2.0)],
        1 => &[(0, 1, 1.0), (1, 0, 2.0)],
        2 => &[(0, 1, 3.0), (0, 0, 1.0), (1, 1, 2.0), (1, 0, -1.0), (1, 1, 4.0)],
        3 => &[(0, 0, 1.0), (0, 1, -1.0), (1, 1, 0.0), (1, 1, 2.0)],
        _ => &[(0, 0, 1.0), (0, 0, -1.0), (1, 0, 5.0)],
    };
    let m = Tri::new(d + 1, 2, e.iter().map(|e| (e.0 * d, e.1, T::of(e.2))).collect());
    if k >= 5 { m.t() } else { m }
}
pub fn gaps<T: El>() -> En<T> {
    let d = steps();
    En { n: (d.len() * N_GAP) as u64, f: Box::new(move |i| gap(d[i as usize / N_GAP], i as usize % N_GAP)) }
}
/// Two operands with entries in lines `d` apart.
pub fn gap_pairs<T: El>() -> (u64, impl Fn(u64) -> (Tri<T>, Tri<T>)) {
    let d = steps();
    ((d.len() * 50) as u64, move |i| {
        let (d, k) = (d[i as usize / 50], i as usize % 50);
        let (t, x, y) = (k / 25 * 5, k / 5 % 5, k % 5);
        (gap(d, t + x), gap(d, t + y))
    })
}
/// Lines with every number of entries, matrices with every number of lines.
pub fn sizes<T: El>() -> En<T> {
    let d = steps();
    En { n: d.len() as u64 * 10, f: Box::new(move |i| {
        let (k, o) = (d[i as usize / 10], i as usize % 10);
        let v = |q: usize| T::of((q % 5) as f64 - 2.0);
        let m = match o % 5 {
            0 => Tri::new(1, k, (0..k).map(|q| (0, q, v(q))).collect()),
            1 => Tri::new(1, k, (0..k).map(|q| (0, k - 1 - q, v(q))).collect()),
            2 => Tri::new(1, 3, (0..k).map(|q| (0, (q * q) % 3, v(q))).collect()),
            3 => Tri::new(2, k + 1, (0..k).map(|q| (1, if q % 2 == 0 { q } else { k - q }, v(q))).collect()),
            _ => Tri::new(3, k, (0..k).map(|q| (q % 3, (q * 2) % k, v(q))).collect()),
        };
        if o >= 5 { m.t() } else { m }
    }) }
}
pub fn huge<T: El>() -> En<T> { union(vec![long(), heavy(), gaps(), sizes()]) }
pub const A3: [f64; 3] = [1.0, -1.0, 0.0];
pub const SPECIAL: [f64; 8] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, 5e-324, 1e-13, f64::MAX];
/// Junk that outputs are filled with before a kernel that must overwrite them.
pub fn junk<I: Ix>(n: usize) -> Vec<I> { vec![ix(1); n] }
