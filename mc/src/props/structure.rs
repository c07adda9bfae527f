//! C03 clean-up and predicates, C10 selection, C11 stacking, C12 element access.
use super::*;
use crate::ck;
use num_complex::Complex64;
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::*;

// ---- C03 ---------------------------------------------------------------------------------------------------
fn exact_len<T>(name: &str, nnz: usize, idx: usize, val: &[T]) -> R {
    ck!(idx == nnz && val.len() == nnz, "{name}: {} indexes and {} values for {} entries", idx, val.len(), nnz);
    Ok(())
}
pub fn clean_case<I: Ix, T: El>(m: &Tri<T>, by_row: bool, cx: &mut Cx) -> R {
    cx.say(|| format!("{} {}", if by_row { "CSR" } else { "CSC" }, show(m)));
    let m = &if by_row { m.by_row() } else { m.by_col() };
    cx.see(m.hash(by_row as u64));
    let (so, cf) = (sorted_lines(m, by_row, false), sorted_lines(m, by_row, true));
    let (p, j, x) = m.comp::<I>(by_row);
    let (maj, min) = if by_row { (m.rows, m.cols) } else { (m.cols, m.rows) };
    let back = |e: Vec<(usize, usize, T)>| Tri::new(m.rows, m.cols, if by_row { e } else { e.into_iter().map(|(a, b, v)| (b, a, v)).collect() });
    cx.op("csr_has_sorted_indices");
    let g = csr_has_sorted_indices(maj, &p, &j);
    ck!(g == so, "csr_has_sorted_indices answers {}, must be {}", g, so);
    cx.op("csr_has_canonical_format");
    let g = csr_has_canonical_format(maj, &p, &j);
    ck!(g == cf, "csr_has_canonical_format answers {}, must be {}", g, cf);
    // kernels: sort, then sum, then eliminate
    let (mut p2, mut j2, mut x2) = (p.clone(), j.clone(), x.clone());
    cx.op("csr_sort_indices");
    csr_sort_indices(maj, &p2, &mut j2, &mut x2);
    let g = back(read_comp(maj, min, &p2, &j2, &x2)?);
    ck!(sorted_lines(&g, by_row, false), "csr_sort_indices leaves {:?}", g.e);
    ctx("csr_sort_indices", same_bag(&g, m))?;
    cx.op("csr_sum_duplicates");
    csr_sum_duplicates(maj, min, &mut p2, &mut j2, &mut x2);
    let g = back(read_comp(maj, min, &p2, &j2, &x2)?);
    let want = if by_row { m.canon() } else { m.canon().by_col() };
    ctx("csr_sum_duplicates", same_seq_num(&g, &want))?;
    let (mut p3, mut j3, mut x3) = (p.clone(), j.clone(), x.clone());
    cx.op("csr_eliminate_zeros");
    csr_eliminate_zeros(maj, min, &mut p3, &mut j3, &mut x3);
    let g = back(read_comp(maj, min, &p3, &j3, &x3)?);
    let nz = Tri::new(m.rows, m.cols, m.e.iter().filter(|e| !e.2.is_zero()).cloned().collect());
    ctx("csr_eliminate_zeros", same_seq(&g, &nz))?;
    cx.op("csr_eliminate_zeros");
    csr_eliminate_zeros(maj, min, &mut p2, &mut j2, &mut x2);
    let g = back(read_comp(maj, min, &p2, &j2, &x2)?);
    ctx("csr_eliminate_zeros after csr_sum_duplicates", same_seq_num(&g, &Tri::new(m.rows, m.cols, want.e.iter().filter(|e| !e.2.is_zero()).cloned().collect())))?;
    // methods, on exact and on over-allocated storage
    for spare in [0, 2] {
        let (mut js, mut xs) = (j.clone(), x.clone());
        for _ in 0..spare { js.push(I::zero()); xs.push(T::one()) }
        macro_rules! methods { ($new:expr, $rd:ident, $idx:ident, $sum:expr) => {{
            let mut a = $new;
            cx.op("has_sorted_indexes");
            let g = a.has_sorted_indexes();
            ck!(g == so, "has_sorted_indexes answers {}, must be {}", g, so);
            cx.op("has_canonical_format");
            let g = a.has_canonical_format();
            ck!(g == cf, "has_canonical_format answers {}, must be {}", g, cf);
            let mut b = $new;
            cx.op("sort_indexes");
            a.sort_indexes();
            let g = $rd(&a)?;
            ck!(sorted_lines(&g, by_row, false), "sort_indexes leaves {:?}", g.e);
            ctx("sort_indexes", same_bag(&g, m))?;
            ck!(a.has_sorted_indexes(), "has_sorted_indexes denies a sorted matrix");
            let g = a.has_canonical_format();
            let w = sorted_lines(&$rd(&a)?, by_row, true);
            ck!(g == w, "has_canonical_format answers {} after sorting, must be {}", g, w);
            for (what, c) in [("sum_duplicates", &mut b), ("sort_indexes then sum_duplicates", &mut a)] {
                let already = sorted_lines(&$rd(c)?, by_row, true);
                cx.op("sum_duplicates");
                $sum(c);
                let g = $rd(c)?;
                ctx(what, same_seq_num(&g, &want))?;
                if !already { exact_len(what, c.nnz(), c.$idx().len(), c.values())?; }
                ck!(c.has_canonical_format() && c.has_sorted_indexes(), "predicates deny a summed matrix");
                cx.op("sum_duplicates");
                $sum(c);
                ctx("sum_duplicates twice", same_seq_num(&$rd(c)?, &want))?;
            }
        }} }
        if by_row { methods!(CSR::new(m.rows, m.cols, p.clone(), js.clone(), xs.clone()).unwrap(), rd_csr, colidx, |a: &mut CSR<I, T>| a.sum_duplicates().unwrap()) }
        else {
            methods!(CSC::new(m.rows, m.cols, js.clone(), p.clone(), xs.clone()).unwrap(), rd_csc, rowidx, |a: &mut CSC<I, T>| a.sum_duplicates());
            let mut a = CSC::new(m.rows, m.cols, js.clone(), p.clone(), xs.clone()).unwrap();
            cx.op("CSC::prune");
            a.prune().map_err(|e| format!("CSC::prune fails: {e}"))?;
            ctx("CSC::prune", same_seq(&rd_csc(&a)?, m))?;
            exact_len("CSC::prune", a.nnz(), a.rowidx().len(), a.values())?;
        }
    }
    Ok(())
}
pub fn c03(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    for by_row in [true, false] {
        let n = if by_row { "csr" } else { "csc" };
        let d = |a: usize, b: usize| if by_row { (a, b) } else { (b, a) };
        let f = move |m: &Tri<f64>, cx: &mut Cx| clean_case::<usize, f64>(m, by_row, cx);
        for (a, b, l) in [(1, 2, 5), (2, 2, 3), (2, 3, 2), (1, 3, 4), (3, 1, 3), (4, 1, 2), (3, 2, 2)] {
            let (r, c) = d(a, b);
            one(s, &format!("{n}/{r}x{c}/line length {l}/values 1,-1,0"), lines(r, c, l, &A3, by_row), f);
        }
        for (a, b, l) in [(3, 3, 2), (2, 3, 3), (3, 2, 3), (1, 4, 5 + th as u32), (4, 1, 4), (4, 2, 2), (5, 1, 3), (5, 2, 1), (2, 2, 6), (6, 1, 2), (1, 5, 5)] {
            let (r, c) = d(a, b);
            one(s, &format!("{n}/{r}x{c}/line length {l}/distinct"), structs(r, c, l, by_row), f);
        }
        if th {
            let (r, c) = d(3, 3);
            one(s, &format!("{n}/{r}x{c}/line length 3/distinct"), structs(r, c, 3, by_row), f);
            let (r, c) = d(2, 4);
            one(s, &format!("{n}/{r}x{c}/line length 4/distinct"), structs(r, c, 4, by_row), f);
            let (r, c) = d(2, 3);
            one(s, &format!("{n}/{r}x{c}/line length 3/values 1,-1,0"), lines(r, c, 3, &A3, by_row), f);
        }
        one(s, &format!("{n}/special values"), lines(2, 2, 2, &SPECIAL[..5 + 3 * th as usize], by_row), f);
        let l = |i| move |m: &Tri<f64>, cx: &mut Cx| match i { 0 => clean_case::<usize, f64>(m, by_row, cx), 1 => clean_case::<u16, f64>(m, by_row, cx), 2 => clean_case::<i64, f64>(m, by_row, cx), _ => clean_case::<u8, f64>(m, by_row, cx) };
        one(s, &format!("{n}/families/usize"), families::<f64>(dims(th), 4), l(0));
        one(s, &format!("{n}/families/u16"), families::<f64>(fit(dims(th), 130), 3), l(1));
        one(s, &format!("{n}/families/i64"), families::<f64>(fit(dims(false), 40), 3), l(2));
        one(s, &format!("{n}/families/u8"), families::<f64>(narrow(255), 4), l(3));
        one(s, &format!("{n}/families/complex"), families::<Complex64>(fit(dims(th), 70), 3), move |m: &Tri<Complex64>, cx: &mut Cx| clean_case::<u32, Complex64>(m, by_row, cx));
        one(s, &format!("{n}/families/i32"), families::<i32>(fit(dims(th), 70), 3), move |m: &Tri<i32>, cx: &mut Cx| clean_case::<i32, i32>(m, by_row, cx));
        one(s, &format!("{n}/long"), huge::<f64>(), l(0));
    }
    v
}

// ---- C10 ---------------------------------------------------------------------------------------------------
/// Every index list over 0..n of length at most `l`.
pub fn lists(n: usize, l: u32) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..l {
        last = last.iter().flat_map(|p: &Vec<usize>| (0..n).map(move |x| { let mut q = p.clone(); q.push(x); q })).collect();
        out.extend(last.iter().cloned());
    }
    out
}
fn sel<T: El>(m: &Tri<T>, r: &[usize], c: &[usize]) -> Tri<T> {
    let mut at = vec![vec![]; m.rows];
    for e in &m.e { at[e.0].push((e.1, e.2)) }
    let mut e = vec![];
    let mut by: Vec<Vec<usize>> = vec![vec![]; m.cols];
    for (b, &j) in c.iter().enumerate() { by[j].push(b) }
    for (a, &i) in r.iter().enumerate() { for x in &at[i] { for &b in &by[x.0] { e.push((a, b, x.1)) } } }
    Tri::new(r.len(), c.len(), e)
}
fn to_i<I: Ix>(v: &[usize]) -> Vec<I> { v.iter().map(|&x| ix(x)).collect() }
/// Selection on a matrix: `None` means all.
pub fn select_case<I: Ix, T: El>(m: &Tri<T>, r: Option<&[usize]>, c: Option<&[usize]>, cx: &mut Cx) -> R {
    cx.say(|| format!("select rows {r:?} cols {c:?} of {}", show(m)));
    let oob = r.map_or(false, |r| r.iter().any(|&x| x >= m.rows)) || c.map_or(false, |c| c.iter().any(|&x| x >= m.cols));
    let (ri, ci): (Option<Vec<I>>, Option<Vec<I>>) = (r.map(to_i), c.map(to_i));
    let all_r: Vec<usize> = (0..m.rows).collect();
    let all_c: Vec<usize> = (0..m.cols).collect();
    let (r, c) = (r.unwrap_or(&all_r), c.unwrap_or(&all_c));
    let a: CSR<I, T> = m.csr();
    let bad = oob || !sorted_lines(&m.by_row(), true, true);
    cx.op("CSR::select");
    match a.select(ri.as_deref(), ci.as_deref()) {
        Ok(g) => { ck!(!bad, "CSR::select accepts an index outside the shape or a non-canonical matrix"); let g = rd_csr(&g)?; cx.see(g.hash(2)); ctx("CSR::select", same_bag(&g, &sel(m, r, c)))? }
        Err(e) => ck!(bad, "CSR::select refuses: {e}"),
    }
    let a: CSC<I, T> = m.csc();
    let bad = oob || !sorted_lines(&m.by_col(), false, true);
    cx.op("CSC::select");
    match a.select(ri.as_deref(), ci.as_deref()) {
        Ok(g) => { ck!(!bad, "CSC::select accepts an index outside the shape or a non-canonical matrix"); let g = rd_csc(&g)?; cx.see(g.hash(3)); ctx("CSC::select", same_bag(&g, &sel(m, r, c)))? }
        Err(e) => ck!(bad, "CSC::select refuses: {e}"),
    }
    if !oob && no_dups(m).is_ok() {
        let (p, j, x) = m.comp::<I>(true);
        let (mut bp, mut bj, mut bx) = (junk(1), junk(2), vec![T::one(); 3]);
        cx.op("csr_select");
        csr_select(m.rows, m.cols, &p, &j, &x, &to_i::<I>(r), &to_i::<I>(c), &mut bp, &mut bj, &mut bx);
        let g = Tri::new(r.len(), c.len(), read_comp(r.len(), c.len(), &bp, &bj, &bx)?);
        ck!(bj.len() == g.e.len() && bx.len() == g.e.len() && bp.len() == r.len() + 1, "csr_select leaves arrays of length {} {} {}", bp.len(), bj.len(), bx.len());
        ctx("csr_select", same_bag(&g, &sel(m, r, c)))?;
    }
    Ok(())
}
/// The largest, smallest and neighbouring values of an index type, and minus one.
pub fn extremes<I: Ix>() -> Vec<I> {
    let (lo, hi, one) = (I::min_value(), I::max_value(), I::one());
    let mut v = vec![hi, hi - one, lo];
    if lo < I::zero() { v.push(lo + one); v.push(I::zero() - one) }
    v
}
/// Index lists that hold one of the given values where it lies outside of the shape: always refused.
pub fn outside_case<I: Ix, T: El>(m: &Tri<T>, vals: &[I], cx: &mut Cx) -> R {
    let m = &m.canon();
    let (a, c): (CSR<I, T>, CSC<I, T>) = (m.csr(), m.csc());
    for &x in vals { for by_row in [true, false] {
        let n = if by_row { m.rows } else { m.cols };
        if x.to_usize().map_or(false, |x| x < n) { continue }
        let mut ls = vec![vec![x], vec![x, x]];
        if n > 0 { ls.push(vec![x, ix(0)]); ls.push(vec![ix(n - 1), x]); ls.push(vec![ix(0), x, ix(n - 1)]) }
        for l in &ls {
            cx.say(|| format!("select {} {l:?} of {}", if by_row { "rows" } else { "columns" }, show(m)));
            for other in [None, Some(&[][..])] {
                let (r, q) = if by_row { (Some(&l[..]), other) } else { (other, Some(&l[..])) };
                cx.op("CSR::select");
                ck!(a.select(r, q).is_err(), "CSR::select accepts index {x} of a {}x{} matrix", m.rows, m.cols);
                cx.op("CSC::select");
                ck!(c.select(r, q).is_err(), "CSC::select accepts index {x} of a {}x{} matrix", m.rows, m.cols);
            }
        }
    } }
    Ok(())
}
pub fn kernels_case<I: Ix, T: El>(m: &Tri<T>, r: &[usize], c: &[usize], cx: &mut Cx) -> R {
    cx.say(|| format!("kernels: rows {r:?} cols {c:?} of {}", show(m)));
    let m = &m.by_row();
    let (p, j, x) = m.comp::<I>(true);
    // rows given as a list
    let (mut bj, mut bx) = (vec![], vec![]);
    cx.op("csr_row_index");
    csr_row_index(r.len(), r, &p, &j, &x, &mut bj, &mut bx);
    rows_are("csr_row_index", m, r, &bj, &bx)?;
    // columns given as a list, in two passes
    let mut off = vec![I::zero(); m.cols];
    let mut bp: Vec<I> = junk(m.rows + 1);
    cx.op("csr_column_index1");
    csr_column_index1(c.len(), c, m.rows, m.cols, &p, &j, &mut off, &mut bp);
    let mut order: Vec<usize> = (0..c.len()).collect();
    order.sort_by_key(|&k| c[k]);
    let want = sel(m, &(0..m.rows).collect::<Vec<_>>(), &[]);
    let mut want = Tri::new(m.rows, c.len(), want.e);
    let mut by: Vec<Vec<usize>> = vec![vec![]; m.cols];
    for (b, &q) in c.iter().enumerate() { by[q].push(b) }
    for e in &m.e { for &b in &by[e.1] { want.e.push((e.0, b, e.2)) } }
    let nn = want.e.len();
    ck!(bp[m.rows].to_usize() == Some(nn), "csr_column_index1 counts {} entries, must be {}", bp[m.rows], nn);
    let mut per = vec![0usize; m.cols];
    for &q in c { per[q] += 1 }
    let mut w = 0;
    for k in 0..m.cols { w += per[k]; ck!(off[k].to_usize() == Some(w), "csr_column_index1 offset of column {} is {}, must be {}", k, off[k], w) }
    let (mut bj, mut bx) = (junk::<I>(nn), vec![T::one(); nn]);
    cx.op("csr_column_index2");
    csr_column_index2(&to_i::<I>(&order), &off, m.e.len(), &j, &x, &mut bj, &mut bx);
    let g = Tri::new(m.rows, c.len(), read_comp(m.rows, c.len(), &bp, &bj, &bx)?);
    ctx("csr_column_index1/2", same_bag(&g, &want))
}
fn rows_are<I: Ix, T: El>(what: &str, m: &Tri<T>, r: &[usize], bj: &[I], bx: &[T]) -> R {
    let mut at = 0;
    let mut rows: Vec<Vec<(usize, usize, T)>> = vec![vec![]; m.rows];
    for e in &m.e { rows[e.0].push((0, e.1, e.2)) }
    for &i in r {
        let w = &rows[i];
        ck!(bj.len() >= at + w.len() && bx.len() >= at + w.len(), "{what} of rows {r:?} gives {} indexes and {} values, too few", bj.len(), bx.len());
        let g = (at..at + w.len()).map(|q| (0, bj[q].to_usize().unwrap(), bx[q])).collect();
        ctx(what, same_bag(&Tri::new(1, m.cols, g), &Tri::new(1, m.cols, w.clone())))?;
        at += w.len();
    }
    ck!(bj.len() == at && bx.len() == at, "{what} of rows {r:?} gives {} indexes and {} values, must be {}", bj.len(), bx.len(), at);
    Ok(())
}
pub fn sub_case<I: Ix, T: El>(m: &Tri<T>, q: (usize, usize, usize, usize), cx: &mut Cx) -> R {
    let (r0, r1, c0, c1) = q;
    let m = &m.by_row();
    let (p, j, x) = m.comp::<I>(true);
    let (mut bp, mut bj, mut bx) = (junk(1), junk(1), vec![T::one(); 1]);
    cx.op("get_csr_submatrix");
    get_csr_submatrix(m.rows, m.cols, &p, &j, &x, ix(r0), ix(r1), ix(c0), ix(c1), &mut bp, &mut bj, &mut bx);
    let g = Tri::new(r1 - r0, c1 - c0, read_comp(r1 - r0, c1 - c0, &bp, &bj, &bx)?);
    let want = Tri::new(r1 - r0, c1 - c0, m.e.iter().filter(|e| e.0 >= r0 && e.0 < r1 && e.1 >= c0 && e.1 < c1).map(|e| (e.0 - r0, e.1 - c0, e.2)).collect());
    ck!(bj.len() == g.e.len() && bx.len() == g.e.len(), "get_csr_submatrix leaves arrays of length {} {}", bj.len(), bx.len());
    ctx(&format!("get_csr_submatrix{q:?}"), same_bag(&g, &want))
}
pub fn ranges_case<I: Ix, T: El>(m: &Tri<T>, cuts: &[usize], steps: &[usize], cx: &mut Cx) -> R {
    cx.say(|| format!("all ranges over cuts {cuts:?} of {}", show(m)));
    cx.see(m.hash(4));
    let mr = &m.by_row();
    let (p, j, x) = mr.comp::<I>(true);
    let fit = |n: usize| { let mut c: Vec<usize> = cuts.iter().map(|&q| q.min(n)).collect(); c.push(n); c.sort(); c.dedup(); c };
    let (rc, cc) = (fit(m.rows), fit(m.cols));
    for &a in &rc { for &b in &rc {
        if a <= b { for &c in &cc { for &d in &cc { if c <= d { sub_case::<I, T>(m, (a, b, c, d), cx)? } } } }
        for &st in steps {
            let (mut bj, mut bx) = (vec![], vec![]);
            cx.op("csr_row_slice");
            csr_row_slice(a, b, st, &p, &j, &x, &mut bj, &mut bx);
            let r: Vec<usize> = (a..b).step_by(st).collect();
            rows_are(&format!("csr_row_slice({a}, {b}, {st})"), mr, &r, &bj, &bx)?;
        }
    } }
    Ok(())
}
pub fn c10(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    // every matrix x every pair of index lists; indexes one beyond the shape included
    let mut selp = |s: &mut Vec<Space>, name: String, en: En<f64>, rl: Vec<Option<Vec<usize>>>, cl: Vec<Option<Vec<usize>>>| {
        let (a, b, n) = (rl.len() as u64, cl.len() as u64, en.n);
        s.push(space(name, n * a * b, move |i, cx| {
            let m = en.get(i % n);
            select_case::<usize, f64>(&m, rl[(i / n % a) as usize].as_deref(), cl[(i / n / a) as usize].as_deref(), cx)
        }))
    };
    let opt = |n: usize, l: u32| -> Vec<Option<Vec<usize>>> { std::iter::once(None).chain(lists(n, l).into_iter().map(Some)).collect() };
    let t = th as u32;
    let dv = |e: En<f64>| e.map(|m| { let mut k = 0; let mut m = m; for e in m.e.iter_mut() { k += 1; if e.2 != 0.0 { e.2 = k as f64 } } m });
    selp(s, "select/2x2/canonical".into(), dv(canon(2, 2, &[1.0, 0.0])), opt(3, 3), opt(3, 3));
    selp(s, "select/2x3/canonical".into(), dv(canon(2, 3, &[1.0, 0.0])), opt(2, 2), opt(3, 3 + t));
    selp(s, "select/3x2/canonical".into(), dv(canon(3, 2, &[1.0, 0.0])), opt(3, 3), opt(2, 2 + t));
    selp(s, "select/3x3/canonical".into(), dv(canon(3, 3, &[1.0])), opt(3, 3), opt(3, 2 + t));
    selp(s, "select/1x4/canonical".into(), dv(canon(1, 4, &[1.0, 0.0])), opt(2, 2), opt(5, 3));
    selp(s, "select/4x1/canonical".into(), dv(canon(4, 1, &[1.0, 0.0])), opt(5, 3), opt(2, 2));
    selp(s, "select/2x2/any stored order".into(), structs(2, 2, 3, true), opt(2, 2), opt(2, 2));
    selp(s, "select/2x2/any stored order by column".into(), structs(2, 2, 3, false), opt(2, 2), opt(2, 2));
    for (r, c) in [(0, 0), (0, 2), (2, 0)] { selp(s, format!("select/{r}x{c}"), canon(r, c, &[1.0]), opt(2, 2), opt(2, 2)); }
    macro_rules! outside { ($($t:ty),*) => { $( {
        let nm = |x| format!("{x}/indexes far outside/{}", stringify!($t));
        one(s, &nm("3x3"), canon(3, 3, &[1.0]), |m, cx| outside_case::<$t, f64>(m, &extremes::<$t>(), cx));
        one(s, &nm("families"), families::<f64>(narrow(127), 1), |m, cx| outside_case::<$t, f64>(m, &extremes::<$t>(), cx));
    } )* } }
    outside!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128);
    let mut kern = |s: &mut Vec<Space>, name: String, en: En<f64>, rl: Vec<Vec<usize>>, cl: Vec<Vec<usize>>| {
        let (a, n) = (rl.len().max(cl.len()) as u64, en.n);
        s.push(space(name, n * a, move |i, cx| { let k = (i / n) as usize; kernels_case::<u32, f64>(&en.get(i % n), &rl[k % rl.len()], &cl[k % cl.len()], cx) }))
    };
    kern(s, "kernels/2x2/any stored order".into(), structs(2, 2, 3, true), lists(2, 4), lists(2, 4));
    kern(s, "kernels/3x3/any stored order".into(), structs(3, 3, 2, true), lists(3, 3), lists(3, 3 + t));
    kern(s, "kernels/2x4/canonical".into(), dv(canon(2, 4, &[1.0, 0.0])), lists(2, 4), lists(4, 3));
    one(s, "ranges/3x3/any stored order", structs(3, 3, 2, true), |m, cx| ranges_case::<usize, f64>(m, &[0, 1, 2, 3], &[1, 2, 3, 4], cx));
    one(s, "ranges/2x2/any stored order", structs(2, 2, 4, true), |m, cx| ranges_case::<i32, f64>(m, &[0, 1, 2], &[1, 2, 3], cx));
    one(s, "ranges/3x3/zeros", canon(3, 3, &[1.0, 0.0]), |m, cx| ranges_case::<u8, f64>(m, &[0, 1, 2], &[1, 2], cx));
    one(s, "ranges/4x1/any stored order", structs(4, 1, 3, true), |m, cx| ranges_case::<u16, f64>(m, &[0, 1, 2, 3], &[1, 2, 3], cx));
    one(s, "families/ranges", families::<f64>(fit(dims(th), 130), 3), |m, cx| ranges_case::<u16, f64>(m, &[0, 1, m.rows / 3, m.cols / 2, m.rows.max(1) - 1], &[1, 2, 7], cx));
    let ways = |n: usize| -> Vec<Vec<usize>> {
        let id: Vec<usize> = (0..n).collect();
        let mut w = vec![vec![], id.clone(), id.iter().rev().cloned().collect(), id.iter().cloned().filter(|x| x % 2 == 1).collect(), id.iter().chain(id.iter()).cloned().collect()];
        if n > 0 { w.push(vec![n - 1; 3]); w.push((0..2 * n + 3).map(|k| (k * 5 + 1) % n).collect()); w.push(vec![0, n]) }
        w
    };
    let fam = |th: bool, m: usize| families::<f64>(fit(dims(th), m).into_iter().filter(|d| d.0 * d.1 <= 700).collect(), 2);
    one(s, "families/select", fam(th, 130), move |m, cx| {
        let m = &m.canon();
        cx.see(m.hash(1));
        for r in ways(m.rows).iter().map(Some).chain([None]) { for c in ways(m.cols).iter().map(Some).chain([None]) { select_case::<u32, f64>(m, r.map(|x| &x[..]), c.map(|x| &x[..]), cx)? } }
        Ok(())
    });
    one(s, "families/kernels", fam(th, 130), move |m, cx| {
        for r in ways(m.rows).iter().filter(|r| r.iter().all(|&x| x < m.rows)) { for c in ways(m.cols).iter().filter(|r| r.iter().all(|&x| x < m.cols)) { if m.e.len() * c.len() < 30_000 { kernels_case::<i32, f64>(m, r, c, cx)? } } }
        Ok(())
    });
    one(s, "long", huge::<f64>(), |m, cx| {
        let m = &m.canon();
        let (a, b) = (m.rows.max(1) - 1, m.cols.max(1) - 1);
        select_case::<usize, f64>(m, Some(&[a, 0, a]), Some(&[b, 0, b / 2]), cx)?;
        select_case::<usize, f64>(m, None, Some(&[b, 0]), cx)?;
        select_case::<usize, f64>(m, Some(&[a, 0]), None, cx)?;
        ranges_case::<usize, f64>(m, &[0, 1], &[1, 65_535], cx)
    });
    v
}

// ---- C11 ---------------------------------------------------------------------------------------------------
pub fn place<T: El>(parts: &[(&Tri<T>, usize, usize)], r: usize, c: usize) -> Tri<T> {
    Tri::new(r, c, parts.iter().flat_map(|(m, a, b)| m.e.iter().map(move |e| (e.0 + a, e.1 + b, e.2))).collect())
}
fn outcome<T: El>(what: &'static str, fits: bool, g: Result<Tri<T>, String>, want: impl FnOnce() -> Tri<T>, bag: bool, cx: &mut Cx) -> R {
    match g {
        Ok(g) => {
            ck!(fits, "{what} accepts blocks that do not fit and gives {}", show(&g));
            cx.see(g.hash(9));
            let w = want();
            if bag { ctx(what, same_bag(&g, &w)) } else { ctx(what, same_seq_num(&g.canon(), &w.canon()))?; ctx(what, no_dups(&g)) }
        }
        Err(e) => { ck!(!fits, "{what} fails on fitting blocks: {e}"); Ok(()) }
    }
}
fn r2<T: El, M>(r: anyhow::Result<M>, f: impl Fn(&M) -> Result<Tri<T>, String>) -> Result<Result<Tri<T>, String>, String> {
    match r { Ok(m) => Ok(Ok(f(&m)?)), Err(e) => Ok(Err(e.to_string())) }
}
pub fn stack2<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("stack {} and {}", show(a), show(b)));
    let (x, y): (Coo<I, T>, Coo<I, T>) = (a.coo(), b.coo());
    cx.op("Coo::v_stack");
    outcome("Coo::v_stack", a.cols == b.cols, r2(Coo::v_stack(&x, &y), rd_coo)?, || place(&[(a, 0, 0), (b, a.rows, 0)], a.rows + b.rows, a.cols), true, cx)?;
    cx.op("Coo::h_stack");
    let w = || place(&[(a, 0, 0), (b, 0, a.cols)], a.rows, a.cols + b.cols);
    outcome("Coo::h_stack", a.rows == b.rows, r2(Coo::h_stack(&x, &y), rd_coo)?, w, true, cx)?;
    let (x, y): (CSR<I, T>, CSR<I, T>) = (a.csr(), b.csr());
    cx.op("CSR::h_stack");
    outcome("CSR::h_stack", a.rows == b.rows, r2(CSR::h_stack(&x, &y), rd_csr)?, w, false, cx)
}
pub fn stack3<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, c: &Tri<T>, cx: &mut Cx) -> R {
    let (x, y, z): (Coo<I, T>, Coo<I, T>, Coo<I, T>) = (a.coo(), b.coo(), c.coo());
    cx.say(|| format!("stack {} and {} and {}", show(a), show(b), show(c)));
    cx.op("Coo::v_stack3");
    outcome("Coo::v_stack3", a.cols == b.cols && b.cols == c.cols, r2(Coo::v_stack3(&x, &y, &z), rd_coo)?,
        || place(&[(a, 0, 0), (b, a.rows, 0), (c, a.rows + b.rows, 0)], a.rows + b.rows + c.rows, a.cols), true, cx)?;
    cx.op("Coo::h_stack3");
    outcome("Coo::h_stack3", a.rows == b.rows && b.rows == c.rows, r2(Coo::h_stack3(&x, &y, &z), rd_coo)?,
        || place(&[(a, 0, 0), (b, 0, a.cols), (c, 0, a.cols + b.cols)], a.rows, a.cols + b.cols + c.cols), true, cx)
}
fn grid_fits<T>(q: &[&Tri<T>], n: usize) -> bool {
    let rows_ok = (0..n).all(|i| (0..n).all(|j| q[n * i + j].rows == q[n * i].rows));
    let width = |i: usize| (0..n).map(|j| q[n * i + j].cols).sum::<usize>();
    rows_ok && (0..n).all(|i| width(i) == width(0))
}
pub fn grid<T: El>(q: &[&Tri<T>], n: usize) -> Tri<T> {
    let mut parts = vec![];
    let mut r = 0;
    for i in 0..n { let mut c = 0; for j in 0..n { parts.push((q[n * i + j], r, c)); c += q[n * i + j].cols } r += q[n * i].rows }
    place(&parts, r, (0..n).map(|j| q[j].cols).sum())
}
/// Whether blocks "fit together": every block row has one height and every block row the same total width.
/// (Where block columns are also aligned there is no doubt; unaligned grids of equal total width are accepted
/// by construction from stacks, and either answer is tolerated for them.)
fn aligned<T>(q: &[&Tri<T>], n: usize) -> bool { grid_fits(q, n) && (0..n).all(|i| (0..n).all(|j| q[n * i + j].cols == q[j].cols)) }
pub fn compose_case<I: Ix, T: El>(q: &[&Tri<T>], cx: &mut Cx) -> R {
    cx.say(|| format!("compose {}", q.iter().map(|m| show(*m)).collect::<Vec<_>>().join(" | ")));
    let c: Vec<Coo<I, T>> = q.iter().map(|m| m.coo()).collect();
    let n = if q.len() == 4 { 2 } else { 3 };
    let fits = grid_fits(q, n);
    let doubt = fits && !aligned(q, n);
    if n == 2 {
        cx.op("Coo::compose");
        let g = r2(Coo::compose([[&c[0], &c[1]], [&c[2], &c[3]]]), rd_coo)?;
        if !(doubt && g.is_err()) { outcome("Coo::compose", fits, g, || grid(q, 2), true, cx)?; }
        let c: Vec<CSC<I, T>> = q.iter().map(|m| m.csc()).collect();
        cx.op("CSC::compose");
        let g = r2(CSC::compose(&c[0], &c[1], &c[2], &c[3]), rd_csc)?;
        if !(doubt && g.is_err()) { outcome("CSC::compose", fits, g, || grid(q, 2), false, cx)?; }
    } else {
        cx.op("Coo::compose3");
        let g = r2(Coo::compose3([[&c[0], &c[1], &c[2]], [&c[3], &c[4], &c[5]], [&c[6], &c[7], &c[8]]]), rd_coo)?;
        if !(doubt && g.is_err()) { outcome("Coo::compose3", fits, g, || grid(q, 3), true, cx)?; }
    }
    Ok(())
}
/// A block of the shape whose contents name it: pattern by `k`, with a duplicate and a stored zero when possible.
fn block(r: usize, c: usize, k: usize) -> Tri<f64> {
    let mut e = vec![];
    for i in 0..r { for j in 0..c { if (i + 2 * j + k) % 3 != 0 || r * c == 1 { e.push((i, j, (100 * (k + 1) + 10 * i + j) as f64)) } } }
    e.reverse();
    if r > 0 && c > 0 { e.push((r - 1, c - 1, 0.5)); e.push((r - 1, 0, 0.0)) }
    Tri::new(r, c, e)
}
pub fn c11(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let small = || union(vec![triples(1, 2, 2, &[1.0, 0.0]), triples(2, 1, 2, &[1.0, 0.0]), triples(2, 2, 2, &[1.0, 0.0]), triples(1, 1, 2, &[1.0, 0.0]), triples(0, 2, 0, &[1.0]), triples(2, 0, 0, &[1.0]), triples(0, 0, 0, &[1.0])]).map(|mut m| { for (k, e) in m.e.iter_mut().enumerate() { if e.2 != 0.0 { e.2 = (k + 2) as f64 } } m });
    two(s, "two stacks/all pairs", small(), small().map(|m| m.map(|v| v * 16.0)), stack2::<usize, f64>);
    // all shape tuples
    let d = if th { 5u64 } else { 4 };
    s.push(space("three stacks/all shapes", d.pow(6), move |i, cx| {
        let q = |k: u32| (i / d.pow(k) % d) as usize;
        stack3::<u16, f64>(&block(q(0), q(1), 0), &block(q(2), q(3), 1), &block(q(4), q(5), 2), cx)
    }));
    s.push(space("compose/all shapes", 3u64.pow(8), |i, cx| {
        let q = |k: u32| (i / 3u64.pow(k) % 3) as usize;
        let b: Vec<_> = (0..4).map(|k| block(q(2 * k), q(2 * k + 1), k as usize)).collect();
        compose_case::<usize, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    // the same with some of the blocks empty: of all entries, or of all but one
    let bare = |r: usize, c: usize, k: usize, how: u64| match how { 0 => block(r, c, k), 1 => Tri::new(r, c, vec![]), _ => Tri::new(r, c, if r * c == 0 { vec![] } else { vec![(r - 1, c / 2, (k + 1) as f64)] }) };
    s.push(space("three stacks/some blocks empty", 4u64.pow(6) * 27, move |i, cx| {
        let (w, i) = (i % 27, i / 27);
        let q = |k: u32| [0usize, 1, 2, 5][(i / 4u64.pow(k) % 4) as usize];
        stack3::<usize, f64>(&bare(q(0), q(1), 0, w % 3), &bare(q(2), q(3), 1, w / 3 % 3), &bare(q(4), q(5), 2, w / 9), cx)
    }));
    s.push(space("compose/some blocks empty", 4u64.pow(4) * 81 * 2, move |i, cx| {
        let (w, i) = (i % 81, i / 81);
        let (x, i) = (i % 2, i / 2);
        let q = |k: u32| [0usize, 1, 2, 5][(i / 4u64.pow(k) % 4) as usize];
        let b: Vec<_> = (0..4u32).map(|k| {
            // aligned, or the lower row of blocks divided elsewhere
            let (l, r) = (q(2), q(3));
            let c = if x == 1 && k / 2 == 1 { [r, l][k as usize % 2] } else { [l, r][k as usize % 2] };
            bare(q(k / 2), c, k as usize, w / 3u64.pow(k) % 3)
        }).collect();
        compose_case::<usize, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    s.push(space("compose3/some blocks empty", 2u64.pow(6) * 512, move |i, cx| {
        let (w, i) = (i % 512, i / 512);
        let q = |k: u32| if i >> k & 1 == 0 { k as usize % 3 } else { 3 };
        let b: Vec<_> = (0..9u32).map(|k| bare(q(k / 3), q(3 + k % 3), k as usize, w >> k & 1)).collect();
        compose_case::<u32, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    // fitting grids of all heights and widths
    let e = if th { 6u64 } else { 4 };
    s.push(space("compose/fitting", e.pow(4), move |i, cx| {
        let q = |k: u32| (i / e.pow(k) % e) as usize;
        let b: Vec<_> = (0..4u32).map(|k| block(q(k / 2), q(2 + k % 2), k as usize)).collect();
        compose_case::<i32, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    s.push(space("compose3/fitting", 4u64.pow(6), |i, cx| {
        let q = |k: u32| (i / 4u64.pow(k) % 4) as usize;
        let b: Vec<_> = (0..9u32).map(|k| block(q(k / 3), q(3 + k % 3), k as usize)).collect();
        compose_case::<u32, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    // one or two blocks of a fitting 3x3 grid with a wrong shape
    s.push(space("compose3/one or two misfits", 9 * 9 * 16 * 8, |i, cx| {
        let (a, b, w, h) = ((i % 9) as usize, (i / 9 % 9) as usize, i / 81 % 16, (i / 81 / 16) as usize);
        let hs = [1 + h % 2, 1 + h / 2 % 2, 1 + h / 4 % 2];
        let mut q: Vec<_> = (0..9).map(|k| (hs[k / 3], [2, 1, 1 + h % 2][k % 3])).collect();
        let (wa, wb) = (w as usize % 4, w as usize / 4);
        let bump = |x: &mut (usize, usize), w: usize| match w { 0 => x.0 += 1, 1 => x.1 += 1, 2 => x.0 -= 1, _ => x.1 -= 1 };
        bump(&mut q[a], wa);
        if a != b { bump(&mut q[b], wb) }
        let b: Vec<_> = q.iter().enumerate().map(|(k, x)| block(x.0, x.1, k)).collect();
        compose_case::<usize, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    // contents: every 2x2 grid of small blocks
    let one_ = || triples(1, 1, 2, &[1.0, -1.0, 0.0]);
    let n = one_().n;
    s.push(space("compose/all contents of 1x1 blocks", n.pow(4), move |i, cx| {
        let b: Vec<_> = (0..4).map(|k| one_().get(i / n.pow(k) % n)).collect();
        compose_case::<u8, f64>(&b.iter().collect::<Vec<_>>(), cx)
    }));
    let fd: Vec<_> = [(0, 0), (1, 1), (3, 2), (5, 5), (9, 8), (17, 15), (1, 70), (70, 1), (33, 31)].into_iter().collect();
    let mut dd = vec![];
    for &a in &fd { dd.push((a, a)); dd.push((a, (a.0, a.1 + 3))); dd.push((a, (a.0 + 2, a.1))); dd.push((a, (a.0 + 1, a.1 + 1))) }
    fam_two(s, "families/stacks", dd, 2, 2, stack2::<u32, f64>);
    fam_two(s, "families/compose", vec![((5, 5), (5, 4)), ((9, 8), (9, 3)), ((20, 13), (20, 1))], 2, 2, |a, b, cx| {
        let (c, d) = (a.t(), b.t());
        compose_case::<u16, f64>(&[a, b, b, a], cx)?;
        compose_case::<u16, f64>(&[&Tri::new(3, a.cols, vec![(2, 0, 1.0)]), &Tri::new(3, b.cols, vec![(0, b.cols - 1, 2.0)]), a, b], cx)?;
        compose_case::<u16, f64>(&[a, b, a, b, a, a, a, a, b], cx)?;
        compose_case::<u16, f64>(&[&c, &c, &d, &d], cx)
    });
    let sz = union(vec![sizes::<f64>(), gaps()]);
    s.push(space("blocks of every size", sz.n, move |i, cx| {
        let a = sz.get(i);
        let b = a.map(|v| v * 16.0 + 100.0);
        stack2::<u32, f64>(&a, &b, cx)?;
        stack3::<usize, f64>(&b, &a, &b, cx)?;
        compose_case::<usize, f64>(&[&a, &b, &b, &a], cx)?;
        // a wide or tall one next to a narrow one
        let (t, n) = (Tri::new(1, a.cols, vec![(0, a.cols - 1, 7.0)]), Tri::new(a.rows, 1, vec![(a.rows - 1, 0, 9.0)]));
        let o = Tri::new(1, 1, vec![(0, 0, 5.0)]);
        compose_case::<usize, f64>(&[&a, &n, &t, &o], cx)?;
        compose_case::<usize, f64>(&[&o, &t, &o, &n, &a, &n, &o, &t, &o], cx)
    }));
    s.push(space("huge coordinate dimensions", 64, |i, cx| {
        let h = 1usize << 40;
        let q = |k: u64| [1usize, h, h + 1, (1 << 62) - 1][(i / 4u64.pow(k as u32) % 4) as usize];
        let (r, c, w) = (q(0), q(1), q(2));
        let m = |r: usize, c: usize, k: f64| Tri::new(r, c, vec![(r - 1, c - 1, k), (0, c / 2, k + 1.0), (r / 2, 0, k + 2.0)]);
        let (a, b, c2) = (m(r, c, 1.0), m(r, w, 10.0), m(w, c, 20.0));
        let (x, y, z): (Coo<usize, f64>, Coo<usize, f64>, Coo<usize, f64>) = (a.coo(), b.coo(), c2.coo());
        cx.op("Coo::h_stack");
        ctx("Coo::h_stack", same_bag(&rd_coo(&Coo::h_stack(&x, &y).unwrap())?, &place(&[(&a, 0, 0), (&b, 0, c)], r, c + w)))?;
        cx.op("Coo::v_stack");
        ctx("Coo::v_stack", same_bag(&rd_coo(&Coo::v_stack(&x, &z).unwrap())?, &place(&[(&a, 0, 0), (&c2, r, 0)], r + w, c)))
    }));
    v
}

// ---- C12 ---------------------------------------------------------------------------------------------------
fn diag_of<T: El>(d: &[Vec<T>], rows: usize, cols: usize, k: isize) -> Vec<T> {
    (0..rows).filter_map(|i| { let j = i as isize + k; if j >= 0 && (j as usize) < cols { Some(d[i][j as usize]) } else { None } }).collect()
}
pub fn access_case<I: Ix, T: El>(m: &Tri<T>, ks: &[isize], cx: &mut Cx) -> R {
    cx.say(|| format!("elements of {}", show(m)));
    cx.see(m.hash(12));
    let d = m.dense();
    let st = m.stored();
    let (o, r, c): (Coo<I, T>, CSR<I, T>, CSC<I, T>) = (m.coo(), m.csr(), m.csc());
    let w = diag_of(&d, m.rows, m.cols, 0);
    cx.op("Coo::diagonal");
    ctx("Coo::diagonal", same_vec(&o.diagonal(), &w))?;
    cx.op("CSR::diagonal");
    ctx("CSR::diagonal", same_vec(&r.diagonal(), &w))?;
    cx.op("CSC::diagonal");
    ctx("CSC::diagonal", same_vec(&c.diagonal(), &w))?;
    for &k in ks {
        let w = diag_of(&d, m.rows, m.cols, k);
        let mut y = vec![T::one(); w.len()];
        cx.op("csr_diagonal");
        csr_diagonal(k, m.rows, m.cols, r.rowptr(), r.colidx(), r.values(), &mut y);
        ctx(&format!("csr_diagonal({k})"), same_vec(&y, &w))?;
        let mut y = vec![T::one(); w.len()];
        cx.op("csc_diagonal");
        csc_diagonal(k, m.rows, m.cols, c.colptr(), c.rowidx(), c.values(), &mut y);
        ctx(&format!("csc_diagonal({k})"), same_vec(&y, &w))?;
        if let Some(ki) = I::from(k) {
            cx.op("Coo::upper");
            let g = rd_coo(&o.upper(ki))?;
            ctx(&format!("Coo::upper({k})"), same_bag(&g, &Tri::new(m.rows, m.cols, m.e.iter().filter(|e| e.0 as isize + k <= e.1 as isize).cloned().collect())))?;
        }
    }
    if m.rows * m.cols <= 10_000 {
        for i in 0..m.rows { for j in 0..m.cols {
            cx.op("CSR::get");
            let g = r.get(ix(i), ix(j));
            ck!(g.same(&d[i][j]), "CSR::get({i}, {j}) is {:?}, must be {:?}", g, d[i][j]);
        } }
    }
    let mut ds: Vec<isize> = vec![];
    for i in 0..m.rows { for j in 0..m.cols { if st[i][j] > 0 { ds.push(j as isize - i as isize) } } }
    ds.sort();
    ds.dedup();
    cx.op("csr_count_diagonals");
    let g = csr_count_diagonals(m.rows, r.rowptr(), r.colidx());
    ck!(g == ds.len(), "csr_count_diagonals is {}, must be {}", g, ds.len());
    Ok(())
}
pub fn c12(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let near: Vec<isize> = (-6..=6).collect();
    let near = move || near.clone();
    for (r, c, l) in [(2, 2, 3), (1, 2, 4), (2, 1, 4), (2, 3, 3), (3, 2, 3), (1, 1, 4), (3, 3, 2)] {
        let k = near();
        one(s, &format!("{r}x{c}/triplets/len{l}/values 1,-1,0"), triples(r, c, l, &A3), move |m, cx| access_case::<i32, f64>(m, &k, cx));
    }
    for (r, c, l) in [(2, 2, 6), (3, 3, 4), (1, 3, 7), (3, 1, 7), (2, 3, 5), (3, 2, 5), (4, 2, 4), (2, 4, 4), (4, 4, 3), (5, 1, 4), (1, 5, 4)] {
        let k = near();
        one(s, &format!("{r}x{c}/triplets/len{l}/distinct"), triples(r, c, l + th as u32, &[1.0]).map(distinct), move |m, cx| access_case::<usize, f64>(m, &k, cx));
    }
    one(s, "4x4/all patterns", canon(4, 4, &[1.0]).map(distinct), |m, cx| access_case::<u8, f64>(m, &[-3, -1, 0, 1, 3], cx));
    if th { one(s, "3x4/all patterns with zeros", canon(3, 4, &[1.0, 0.0]).map(|m| m), |m, cx| access_case::<u8, f64>(m, &[-2, -1, 0, 1, 3], cx)); }
    one(s, "2x2/special values", triples(2, 2 + th as usize, 2, &SPECIAL), |m, cx| access_case::<i8, f64>(m, &[-1, 0, 1], cx));
    let ks = |m: &Tri<f64>| { let (r, c) = (m.rows as isize, m.cols as isize); let mut k = vec![-r - 3, -r - 1, -r, -r + 1, -2, -1, 0, 1, 2, c - 1, c, c + 1, c + 4, -r / 2, c / 2]; k.sort(); k.dedup(); k };
    one(s, "families/usize f64", families::<f64>(dims(th), 4), move |m, cx| access_case::<usize, f64>(m, &ks(m), cx));
    one(s, "families/i16 f64", families::<f64>(fit(dims(th), 130), 3), move |m, cx| access_case::<i16, f64>(m, &ks(m), cx));
    one(s, "families/u8 f64", families::<f64>(narrow(255), 3), move |m, cx| access_case::<u8, f64>(m, &ks(m), cx));
    one(s, "families/i64 complex", families::<Complex64>(fit(dims(th), 70), 3), |m, cx| access_case::<i64, Complex64>(m, &[-1, 0, 1, 200, -200], cx));
    one(s, "families/u32 i64", families::<i64>(fit(dims(th), 70), 3), |m, cx| access_case::<u32, i64>(m, &[-1, 0, 2], cx));
    one(s, "long", huge::<f64>(), move |m, cx| access_case::<usize, f64>(m, &ks(m), cx));
    // offsets at the limits of the index type
    s.push(space("upper/limits of the index type", 8, |i, cx| {
        let m = Tri::new(200, 201, vec![(199, 200, 1.0), (0, 0, 2.0), (0, 200, 3.0), (100, 150, 4.0), (150, 100, 5.0)]);
        let k = [0u8, 1, 50, 55, 56, 200, 201, 255][i as usize];
        cx.op("Coo::upper");
        let g = rd_coo(&m.coo::<u8>().upper(k))?;
        ctx(&format!("Coo::upper({k})"), same_bag(&g, &Tri::new(200, 201, m.e.iter().filter(|e| e.0 + k as usize <= e.1).cloned().collect())))?;
        let m = Tri::new(120, 121, vec![(119, 120, 1.0), (0, 0, 2.0), (0, 120, 3.0), (100, 50, 4.0)]);
        let k = [i8::MIN, -120, -50, -1, 0, 7, 8, i8::MAX][i as usize];
        let g = rd_coo(&m.coo::<i8>().upper(k))?;
        ctx(&format!("Coo::upper({k})"), same_bag(&g, &Tri::new(120, 121, m.e.iter().filter(|e| e.0 as isize + k as isize <= e.1 as isize).cloned().collect())))
    }));
    v
}
