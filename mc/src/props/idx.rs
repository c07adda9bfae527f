//! C17: results do not depend on the index type.
//!
//! Every case runs a group of operations with one index type against the reference model. A failure counts only
//! when the same case passes with `usize` indexes: what fails whichever type holds the indexes is not this
//! property's business.
use super::hist::{Kop, Map};
use super::*;
use crate::ck;
use num_complex::Complex64;
use sparsetools::dok::DoK;

fn run<I: Ix>(f: impl FnOnce(&mut Cx) -> R, cx: &mut Cx) -> R {
    match attempt(|| f(cx)) { Ok(r) => r, Err(p) => Err(format!("panic in {}: {p}", cx.op)) }
}
fn judge<I: Ix>(name: &str, narrow: R, with_usize: R) -> R {
    let t = std::any::type_name::<I>();
    match (narrow, with_usize) {
        (Err(e), Ok(())) => Err(format!("{name} with {t} indexes, but not with usize: {e}")),
        (Ok(()), Err(e)) => Err(format!("{name} with usize indexes, but not with {t}: {e}")),
        _ => Ok(()),
    }
}

// ---- groups of operations on one matrix ---------------------------------------------------------------------
const N_ONE: usize = 17;
const ONE: [&str; N_ONE] = ["conversions of Coo", "conversions of CSR", "conversions of CSC", "conversions with unused slots", "chains of conversions", "transposes", "CSR sorting and summing", "CSC sorting and summing", "selections", "row and column kernels", "ranges", "access", "vector products", "scaling", "text", "constructors", "indexes outside"];
fn one_op<I: Ix>(k: usize, m: &Tri<f64>, far: &[I], cx: &mut Cx) -> R {
    let (r, c) = (m.rows, m.cols);
    let ends = |n: usize| -> Vec<usize> { match n { 0 => vec![], 1 => vec![0], 2 => vec![1, 0], _ => vec![n - 1, 0, n / 2] } };
    match k {
        0 => conv::coo_case::<I, f64>(m, cx),
        1 => conv::csr_case::<I, f64>(m, 0, cx),
        2 => conv::csc_case::<I, f64>(m, 0, cx),
        3 => { conv::csr_case::<I, f64>(m, 3, cx)?; conv::csc_case::<I, f64>(m, 3, cx) }
        4 => conv::chain_case::<I, f64>(m, 2, cx),
        5 => conv::t_case::<I, f64>(m, cx),
        6 => structure::clean_case::<I, f64>(m, true, cx),
        7 => structure::clean_case::<I, f64>(m, false, cx),
        8 => {
            structure::select_case::<I, f64>(m, None, None, cx)?;
            structure::select_case::<I, f64>(m, Some(&ends(r)), None, cx)?;
            structure::select_case::<I, f64>(m, None, Some(&ends(c)), cx)?;
            let rev: Vec<usize> = (0..c).rev().collect();
            structure::select_case::<I, f64>(m, Some(&ends(r)), Some(&rev), cx)
        }
        9 => {
            let rev: Vec<usize> = (0..c).rev().collect();
            structure::kernels_case::<I, f64>(m, &ends(r), &rev, cx)?;
            structure::kernels_case::<I, f64>(m, &(0..r).rev().collect::<Vec<_>>(), &ends(c), cx)
        }
        10 => structure::ranges_case::<I, f64>(m, &[0, 1, r / 2, r.saturating_sub(1), c / 2], &[1, 2, 100], cx),
        11 => {
            let q = |n: usize| n as isize;
            structure::access_case::<I, f64>(m, &[0, 1, -1, 2, q(c) - 1, q(c), 1 - q(r), -q(r), q(c) / 2, -q(r) / 2], cx)
        }
        12 => prod::fam_vec::<I, f64>(m, cx),
        13 => arith::scale_case::<I, f64>(m, &[2.0, -1.0, 0.0], cx),
        14 => text::text_case::<I, f64>(m, cx),
        15 => {
            if r > 0 { hist::dense_case::<I, f64>(&m.dense(), r, c, cx)?; }
            hist::empty_case::<I>(r, c, cx)?;
            hist::size_case::<I, f64>(r.min(c), (0..r.min(c)).map(|i| (i % 5) as f64).collect(), cx)?;
            hist::view_case::<I>(m, cx)?;
            arith::complex_case::<I>(&m.map(|v| Complex64::new(v, 1.0 - v)), cx)
        }
        16 => {
            structure::outside_case::<I, f64>(m, far, cx)?;
            let (mut d, mut w): (DoK<I, f64>, Map<f64>) = (DoK::new(r, c), Map::new());
            for &x in far { for (i, j) in [(x, I::zero()), (I::zero(), x), (x, x)] { for op in [Kop::Set, Kop::Add, Kop::Sub] { for v in [1.0, 0.0] {
                if i.to_usize().map_or(true, |i| i >= r) || j.to_usize().map_or(true, |j| j >= c) { hist::dok_op(&mut d, r, c, &mut w, op, i, j, v, cx)? }
            } } } }
            hist::dok_state(&d, r, c, &w, false, cx)
        }
        _ => unreachable!(),
    }
}
const N_SQ: usize = 3;
fn graph_op<I: Ix>(k: usize, m: &Tri<f64>, cx: &mut Cx) -> R {
    let n = m.rows;
    if n == 0 { return Ok(()) }
    match k {
        0 => graph::comp_case::<I, f64>(m, 0, cx),
        1 => graph::dfs_case::<I, f64>(m, &[0, n - 1, n / 2], 0, cx),
        _ => {
            let have: std::collections::HashSet<(usize, usize)> = m.e.iter().map(|e| (e.0, e.1)).collect();
            if have.iter().all(|&(i, j)| have.contains(&(j, i))) { graph::sym_case::<I, i64, f64>(m, 0, cx) } else { Ok(()) }
        }
    }
}
const N_TWO: usize = 5;
const TWO: [&str; N_TWO] = ["sums and differences", "element-wise kernels", "products", "stacking", "in-place use of operands"];
/// `a` and `b` have the same shape; products take the transpose of `b`.
fn two_op<I: Ix>(k: usize, a: &Tri<f64>, b: &Tri<f64>, cx: &mut Cx) -> R {
    match k {
        0 => arith::any_pair::<I, f64>(a, b, cx),
        1 => arith::ew_case::<I, f64>(a, b, false, cx),
        2 => { prod::mm_case::<I, f64>(a, &b.t(), cx)?; prod::mm_case::<I, f64>(&a.t(), b, cx) }
        3 => {
            structure::stack2::<I, f64>(a, b, cx)?;
            structure::stack3::<I, f64>(a, b, a, cx)?;
            structure::compose_case::<I, f64>(&[a, b, b, a], cx)
        }
        _ => hist::keep_case::<I>(a, b, cx),
    }
}
fn one_cases<I: Ix>(s: &mut Vec<Space>, name: &str, en: En<f64>) {
    let t = std::any::type_name::<I>();
    s.push(space(format!("{t}/{name}/one operand"), en.n * (N_ONE + N_SQ) as u64, move |i, cx| {
        let k = (i % (N_ONE + N_SQ) as u64) as usize;
        let m = en.get(i / (N_ONE + N_SQ) as u64);
        if k < N_ONE {
            let far = structure::extremes::<I>();
            let ufar: Vec<usize> = far.iter().filter_map(|x| x.to_usize()).collect();
            let a = run::<I>(|cx| one_op::<I>(k, &m, &far, cx), cx);
            judge::<I>(ONE[k], a, run::<I>(|cx| one_op::<usize>(k, &m, &ufar, cx), cx))
        } else if m.rows == m.cols {
            let a = run::<I>(|cx| graph_op::<I>(k - N_ONE, &m, cx), cx);
            judge::<I>(["components", "depth-first order", "symmetric components"][k - N_ONE], a, run::<I>(|cx| graph_op::<usize>(k - N_ONE, &m, cx), cx))
        } else { Ok(()) }
    }));
}
/// `only`: the groups of operations whose results fit the index type.
fn two_cases<I: Ix>(s: &mut Vec<Space>, name: &str, n: u64, only: &'static [usize], f: impl Fn(u64) -> (Tri<f64>, Tri<f64>) + Sync + Send + 'static) {
    let t = std::any::type_name::<I>();
    s.push(space(format!("{t}/{name}/two operands"), n * only.len() as u64, move |i, cx| {
        let k = only[(i % only.len() as u64) as usize];
        let (a, b) = f(i / only.len() as u64);
        let r = run::<I>(|cx| two_op::<I>(k, &a, &b, cx), cx);
        judge::<I>(TWO[k], r, run::<I>(|cx| two_op::<usize>(k, &a, &b, cx), cx))
    }));
}
fn pair_op<I: Ix>(s: &mut Vec<Space>, name: &str, l: Vec<(Tri<f64>, Tri<f64>)>, f: fn(&Tri<f64>, &Tri<f64>, &mut Cx) -> R, g: fn(&Tri<f64>, &Tri<f64>, &mut Cx) -> R) {
    let t = std::any::type_name::<I>();
    s.push(space(format!("{t}/{name}"), l.len() as u64, move |i, cx| {
        let (a, b) = &l[i as usize];
        let r = run::<I>(|cx| f(a, b, cx), cx);
        judge::<I>("two operands that fill the type", r, run::<I>(|cx| g(a, b, cx), cx))
    }));
}
// ---- dictionaries -------------------------------------------------------------------------------------------
fn dok_fill<I: Ix>(r: usize, c: usize, pos: &[(usize, usize)], cx: &mut Cx) -> R {
    let (mut k, mut m): (DoK<I, f64>, Map<f64>) = (DoK::new(r, c), Map::new());
    for (q, p) in pos.iter().enumerate() {
        let op = [Kop::Set, Kop::Add, Kop::Sub][q % 3];
        hist::dok_op(&mut k, r, c, &mut m, op, ix::<I>(p.0), ix::<I>(p.1), (q % 9) as f64 - 2.0, cx)?;
    }
    for &(i, j) in &[(r, 0), (0, c), (r, c)] {
        if let (Some(i), Some(j)) = (I::from(i), I::from(j)) { hist::dok_op(&mut k, r, c, &mut m, Kop::Set, i, j, 1.0, cx)?; }
    }
    hist::dok_state(&k, r, c, &m, true, cx)
}

// ---- matrices that fill an index type to its limit `m` -----------------------------------------------------
fn v(k: usize) -> f64 { (k % 61) as f64 + 1.0 }
fn filled(r: usize, c: usize, n: usize, order: usize) -> Tri<f64> {
    // the first n positions in row order, column order or a scattered order, repeated from the start if needed
    let s = r * c;
    Tri::new(r, c, (0..n).map(|k| {
        let k = k % s;
        let (i, j) = match order { 0 => (k / c, k % c), 1 => (k % r, k / r), _ => { let q = s - 1 - k; (q / c, q % c) } };
        (i, j, v(k + i))
    }).collect())
}
fn some(r: usize, c: usize, e: &[(usize, usize)]) -> Tri<f64> { Tri::new(r, c, e.iter().enumerate().filter(|(_, p)| p.0 < r && p.1 < c).map(|(k, p)| (p.0, p.1, v(k))).collect()) }
fn limits(m: usize) -> Vec<Tri<f64>> {
    let mut l = vec![];
    let f = (1..=m).filter(|d| m % d == 0).map(|d| (d, m / d)); // exact factorisations: 255 = 15 x 17 = 3 x 85 ..., 127 = 1 x 127
    let mut shapes: Vec<(usize, usize)> = f.collect();
    let w = (m as f64).sqrt() as usize;
    shapes.extend([(w, m / w), (m / w, w), (w, w), (2, m / 2), (m / 2, 2), (3, m / 3), (m / 3, 3)]);
    shapes.sort();
    shapes.dedup();
    for &(r, c) in &shapes { for o in 0..3 { l.push(filled(r, c, (r * c).min(m), o)); l.push(filled(r, c, m, o)); } }
    // many entries at few positions
    for (r, c) in [(1, 1), (2, 2), (1, 3), (3, 1), (3, 3)] { for n in [m - 1, m] { l.push(filled(r, c, n, 0)); l.push(filled(r, c, n, 2)); } }
    // dimensions at the limit, few entries
    let e = m - 1;
    let corners = [(0, 0), (e, 0), (0, e), (e, e), (e / 2, e / 2), (e, e / 2), (0, e)];
    for (r, c) in [(m, 1), (1, m), (m, 2), (2, m), (m - 1, 1), (1, m - 1)] { l.push(some(r, c, &corners)); l.push(some(r, c, &[])); l.push(filled(r, c, m, 0)); l.push(filled(r, c, m - 1, 2)); }
    l
}
/// Square ones: also graphs.
fn squares(m: usize) -> Vec<Tri<f64>> {
    let mut l = vec![];
    let e = m - 1;
    l.push(some(m, m, &[(0, 0), (e, 0), (0, e), (e, e), (e / 2, e), (e, e / 2), (0, e)]));
    l.push(some(m, m, &[(e, e)]));
    l.push(some(m, m, &[(e, 0), (0, e)]));
    l.push(some(m, m, &[]));
    let d = |f: &dyn Fn(usize) -> (usize, usize)| Tri::new(m, m, (0..m).map(f).enumerate().map(|(k, p)| (p.0, p.1, v(k))).collect());
    l.push(d(&|k| (k, k)));
    l.push(d(&|k| (k, (k + 1) % m)));
    l.push(d(&|k| ((k + 1) % m, k)));
    l.push(d(&|k| (k, m - 1 - k)));
    l.push(d(&|k| (0, k)));
    l.push(d(&|k| (k, 0)));
    l.push(d(&|k| (m - 1, m - 1 - k)));
    l.push(d(&|k| (k, m - 1)));
    l.push(d(&|k| (m - 1 - k, (m - 1 - k) / 2)));
    // symmetric: a path as long as the entries allow, pairs
    l.push(Tri::new(m, m, (0..m / 2).flat_map(|k| [(k, k + 1, 1.0), (k + 1, k, 1.0)]).collect()));
    l.push(Tri::new(m, m, (0..m / 2).flat_map(|k| [(m - 2 - k, m - 1 - k, 1.0), (m - 1 - k, m - 2 - k, 1.0)]).collect()));
    l.push(Tri::new(m, m, (0..m / 2).flat_map(|k| [(2 * k, 2 * k + 1, 1.0), (2 * k + 1, 2 * k, 1.0)]).collect()));
    l
}
fn list(l: Vec<Tri<f64>>) -> En<f64> { En { n: l.len() as u64, f: Box::new(move |i| l[i as usize].clone()) } }
fn half(a: &Tri<f64>, k: usize) -> (Tri<f64>, Tri<f64>) { (Tri::new(a.rows, a.cols, a.e[..k].to_vec()), Tri::new(a.rows, a.cols, a.e[k..].to_vec())) }

fn at_limit<I: Ix>(s: &mut Vec<Space>, m: usize, big: bool) {
    one_cases::<I>(s, &format!("filled to {m}"), list(limits(m)));
    if !big { one_cases::<I>(s, &format!("square, filled to {m}"), list(squares(m))); }
    // sums whose result fills the type: the parts of a filled matrix, split anywhere
    let mut sums = vec![];
    for a in limits(m).iter().chain(if big { vec![] } else { squares(m) }.iter()) {
        for k in [0, 1, a.e.len() / 2, (a.e.len() + 1) / 2, a.e.len()] { if k <= a.e.len() { let (x, y) = half(a, k); sums.push((y.clone(), x.clone())); sums.push((x, y)) } }
    }
    let sums2 = sums.clone();
    let n = sums.len() as u64;
    two_cases::<I>(s, &format!("sums that fill {m}"), n, &[0, 1], move |i| sums2[i as usize].clone());
    // stacks whose result fills the type
    let mut st = vec![];
    let w = (m as f64).sqrt() as usize;
    for (r, c) in [(1, m), (w, m / w), (m / w, w), (2, m / 2), (3, m / 3)] {
        for k in [0, 1, c / 2, c] { st.push((filled(r, k, r * k, 0), filled(r, c - k, r * (c - k), 2))) }
        for k in [0, 1, c / 2, c] { st.push((filled(k, r, r * k, 1), filled(c - k, r, r * (c - k), 0))) }
    }
    // dimensions fill the type, entries do not
    for k in [0, 1, m / 2, m - 1, m] { st.push((some(1, k, &[(0, 0), (0, 1)]), some(1, m - k, &[(0, 0), (0, m - 1)]))); st.push((some(k, 1, &[(0, 0), (1, 0)]), some(m - k, 1, &[(0, 0), (m - 1, 0)]))) }
    pair_op::<I>(s, &format!("stacks that fill {m}"), st, |a, b, cx| structure::stack2::<I, f64>(a, b, cx), |a, b, cx| structure::stack2::<usize, f64>(a, b, cx));
    // products whose result fills the type
    let mut pr = vec![];
    for (r, c) in [(1, m), (m, 1), (w, m / w), (m / w, w), (3, m / 3), (m / 3, 3)] {
        for k in [1, 2, 3, 7] {
            if k * r > m || k * c > m { continue }
            for o in 0..3 { pr.push((filled(r, k, r * k, o), filled(k, c, k * c, 2 - o))) }
        }
    }
    // many meeting terms, few results
    pr.push((filled(1, m, m, 0), filled(m, 1, m, 0)));
    pr.push((filled(2, m / 2, m / 2 * 2, 0), filled(m / 2, 2, m / 2 * 2, 1)));
    if !big {
        pr.push((filled(w, w, w * w, 2), filled(w, w, w * w, 0)));
        pr.push((filled(w, w, w * w, 2), filled(w, m / w, m / w * w, 1)));
        pr.push((filled(1, 1, m, 0), filled(1, 1, m, 0)));
    }
    if !big {
        let q = squares(m);
        for a in [4, 5, 7] { for b in 0..q.len() { pr.push((q[a].clone(), q[b].clone())); pr.push((q[b].clone(), q[a].clone())) } }
    }
    pair_op::<I>(s, &format!("products that fill {m}"), pr, |a, b, cx| prod::mm_case::<I, f64>(a, b, cx), |a, b, cx| prod::mm_case::<usize, f64>(a, b, cx));
    // dictionaries that fill the type
    let t = std::any::type_name::<I>();
    let dk: Vec<(usize, usize)> = vec![(1, m), (m, 1), (w, m / w), (m / w, w)];
    let nd = dk.len() as u64;
    s.push(space(format!("{t}/dictionaries that fill {m}"), nd, move |i, cx| {
        let (r, c) = dk[i as usize];
        let p: Vec<(usize, usize)> = (0..r * c).map(|k| ((r * c - 1 - k) / c, (r * c - 1 - k) % c)).collect();
        let a = run::<I>(|cx| dok_fill::<I>(r, c, &p, cx), cx);
        judge::<I>("dictionary", a, run::<I>(|cx| dok_fill::<usize>(r, c, &p, cx), cx))
    }));
}
fn each<I: Ix>(s: &mut Vec<Space>, th: bool) {
    let t = std::any::type_name::<I>();
    // every small structure
    for (r, c, l) in [(0, 2, 1), (2, 0, 1), (1, 1, 3), (2, 2, 2), (1, 3, 3), (3, 1, 2), (3, 3, 1)] { one_cases::<I>(s, &format!("every {r}x{c}/line length {l}"), structs(r, c, l, true)); }
    if th { for (r, c, l) in [(2, 3, 2), (3, 2, 2), (4, 4, 1), (2, 2, 3)] { one_cases::<I>(s, &format!("every {r}x{c}/line length {l}"), structs(r, c, l, true)); } }
    for (r, c, l) in [(2, 2, 1), (1, 2, 2), (2, 1, 2)] {
        let n = structs(r, c, l, true).n;
        two_cases::<I>(s, &format!("every {r}x{c}/line length {l}"), n * n, &[0, 1, 2, 3, 4], move |i| (structs(r, c, l, true).get(i % n), structs(r, c, l, true).get(i / n)));
    }
    if th {
        let n = structs(2, 2, 2, true).n;
        two_cases::<I>(s, "every 2x2/line length 2", n * n, &[0, 1, 2, 3, 4], move |i| (structs(2, 2, 2, true).get(i % n), structs(2, 2, 2, true).get(i / n)));
    }
    let m = I::max_value().to_usize().unwrap_or(usize::MAX);
    // the parametric families, as far as they fit
    let fd: Vec<(usize, usize)> = if m < 256 { narrow(m) } else { fit(dims(th), if th { 300 } else { 17 }).into_iter().filter(|x| 3 * x.0 * x.1 <= m.min(1 << 40)).collect() };
    one_cases::<I>(s, "families", families::<f64>(fd.clone(), 1));
    let fd: Vec<(usize, usize)> = fd.into_iter().filter(|&(r, c)| 12 * r * c <= m && r <= 40 && c <= 40).collect();
    let np = N_PAT as u64;
    let nf = fd.len() as u64;
    two_cases::<I>(s, "families", nf * np * 4, &[0, 1, 2, 4], move |i| {
        let ((r, c), q) = (fd[(i % nf) as usize], (i / nf) as usize);
        let (p, o) = (q % N_PAT, q / N_PAT);
        (family(r, c, p, [0, 3, 1, 4][o], 1), family(r, c, (p * 7 + 3 + o) % N_PAT, [0, 0, 2, 3][o], 2))
    });
    // dictionaries
    s.push(space(format!("{t}/dictionaries"), 9 * 81, |i, cx| {
        let (r, c) = ((i % 3) as usize + 1, (i / 3 % 3) as usize + 1);
        let mut q = i / 9;
        let p: Vec<(usize, usize)> = (0..4).map(|_| { let a = (q % 3) as usize; q /= 3; (a % r, (a * 2 + 1) % c) }).collect();
        let a = run::<I>(|cx| dok_fill::<I>(r, c, &p, cx), cx);
        judge::<I>("dictionary", a, run::<I>(|cx| dok_fill::<usize>(r, c, &p, cx), cx))
    }));
    if m < 256 { at_limit::<I>(s, m, false); at_limit::<I>(s, m - 1, false); if th { at_limit::<I>(s, m - 3, false) } }
    else {
        // beyond the limits of the narrower types
        at_limit::<I>(s, 255, false);
        if th { at_limit::<I>(s, 300, false) }
        if m < 65_536 && th { at_limit::<I>(s, m, true) }
        if m > 65_535 || m == 65_535 {
            // quick: the costly ones with 32-bit indexes only
            let en = if th || m == u32::MAX as usize || m == i32::MAX as usize { union(vec![long::<f64>(), heavy()]) } else { long() };
            one_cases::<I>(s, "long", en.map(move |x| if x.rows.max(x.cols).max(x.e.len()) <= m { x } else { Tri::new(0, 0, vec![]) }));
        }
    }
}
pub fn c17(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    each::<u8>(s, th);
    each::<i8>(s, th);
    each::<u16>(s, th);
    each::<i16>(s, th);
    each::<u32>(s, th);
    each::<i32>(s, th);
    each::<u64>(s, th);
    each::<i64>(s, th);
    each::<u128>(s, th);
    each::<i128>(s, th);
    each::<isize>(s, th);
    v
}
