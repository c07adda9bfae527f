//! C04 addition and subtraction, C05 element-wise kernels, C08 negation and scaling, C18 misfits, C21 complex parts.
use super::*;
use crate::ck;
use num_complex::Complex64;
use sparsetools::coo::{CCoo, Coo};
use sparsetools::csc::{CCSC, CSC};
use sparsetools::csr::{CCSR, CSR};
use sparsetools::*;

// ---- C04 ---------------------------------------------------------------------------------------------------
/// Element-wise result at every position.
fn ew<T: El>(a: &Tri<T>, b: &Tri<T>, sub: bool) -> Vec<Vec<T>> {
    let (x, y) = (a.dense(), b.dense());
    x.iter().zip(&y).map(|(p, q)| p.iter().zip(q).map(|(u, v)| if sub { *u - *v } else { *u + *v }).collect()).collect()
}
fn sum_ok<T: El>(what: &str, g: &Tri<T>, shape: (usize, usize), w: &[Vec<T>], by_row: bool, sorted: bool, cx: &mut Cx) -> R {
    cx.see(g.hash(by_row as u64));
    ck!((g.rows, g.cols) == shape, "{what}: shape is {}x{}, must be {:?}", g.rows, g.cols, shape);
    ctx(what, same_dense(&g.dense(), w))?;
    ctx(what, no_dups(g))?;
    ctx(what, no_zeros(g))?;
    ck!(!sorted || sorted_lines(g, by_row, true), "{what}: result of sorted operands is not sorted: {:?}", g.e);
    Ok(())
}
pub fn csr_pair<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("CSR {} and {}", show(a), show(b)));
    let (x, y): (CSR<I, T>, CSR<I, T>) = (a.csr(), b.csr());
    let (pl, mi) = (ew(a, b, false), ew(a, b, true));
    let so = sorted_lines(&a.by_row(), true, true) && sorted_lines(&b.by_row(), true, true);
    let sh = (a.rows, a.cols);
    cx.op("CSR +");
    sum_ok("CSR + CSR", &rd_csr(&(&x + &y))?, sh, &pl, true, so, cx)?;
    cx.op("CSR -");
    sum_ok("CSR - CSR", &rd_csr(&(&x - &y))?, sh, &mi, true, so, cx)?;
    let nn = a.e.len() + b.e.len();
    for sub in [false, true] {
        let (mut p, mut j, mut v) = (junk::<I>(a.rows + 1), junk::<I>(nn), vec![T::one(); nn]);
        if sub { cx.op("csr_sub_csr"); csr_sub_csr(a.rows, a.cols, x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut p, &mut j, &mut v) }
        else { cx.op("csr_add_csr"); csr_add_csr(a.rows, a.cols, x.rowptr(), x.colidx(), x.values(), y.rowptr(), y.colidx(), y.values(), &mut p, &mut j, &mut v) }
        let g = Tri::new(a.rows, a.cols, read_comp(a.rows, a.cols, &p, &j, &v)?);
        sum_ok(if sub { "csr_sub_csr" } else { "csr_add_csr" }, &g, sh, if sub { &mi } else { &pl }, true, so, cx)?;
    }
    Ok(())
}
pub fn csc_pair<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("CSC {} and {}", show(a), show(b)));
    let (x, y): (CSC<I, T>, CSC<I, T>) = (a.csc(), b.csc());
    let (pl, mi) = (ew(a, b, false), ew(a, b, true));
    let so = sorted_lines(&a.by_col(), false, true) && sorted_lines(&b.by_col(), false, true);
    let sh = (a.rows, a.cols);
    cx.op("CSC +");
    sum_ok("CSC + CSC", &rd_csc(&(&x + &y))?, sh, &pl, false, so, cx)?;
    cx.op("CSC -");
    sum_ok("CSC - CSC", &rd_csc(&(&x - &y))?, sh, &mi, false, so, cx)?;
    cx.op("CSC::add");
    sum_ok("CSC::add", &rd_csc(&x.add(&y).map_err(|e| e.to_string())?)?, sh, &pl, false, so, cx)?;
    cx.op("CSC::subtract");
    sum_ok("CSC::subtract", &rd_csc(&x.subtract(&y).map_err(|e| e.to_string())?)?, sh, &mi, false, so, cx)
}
pub fn coo_pair<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("Coo {} and {}", show(a), show(b)));
    let (x, y): (Coo<I, T>, Coo<I, T>) = (a.coo(), b.coo());
    cx.op("Coo +");
    let g = rd_csr(&(&x + &y))?;
    cx.see(g.hash(5));
    ck!((g.rows, g.cols) == (a.rows, a.cols), "Coo + Coo: shape is {}x{}", g.rows, g.cols);
    ctx("Coo + Coo", same_dense(&g.dense(), &ew(a, b, false)))
}
/// All operations, on operands that are given in any stored order.
pub fn any_pair<I: Ix, T: El>(a: &Tri<T>, b: &Tri<T>, cx: &mut Cx) -> R {
    csr_pair::<I, T>(a, b, cx)?;
    csc_pair::<I, T>(a, b, cx)?;
    coo_pair::<I, T>(a, b, cx)
}
/// Operand enumerations shared by C04 and C05: (name, major, minor, left, right) with line-wise enumeration.
fn operand_spaces(th: bool, by_row: bool) -> Vec<(String, En<f64>, En<f64>)> {
    let d = |a: usize, b: usize| if by_row { (a, b) } else { (b, a) };
    let mut v = vec![];
    let sc = |e: En<f64>| e.map(|m| m.map(|x| x * 1024.0));
    let mut add = |a: usize, b: usize, l: u32, al: &[f64]| { let (r, c) = d(a, b); v.push((format!("{r}x{c}/line length {l}/values {al:?}"), lines(r, c, l, al, by_row), lines(r, c, l, al, by_row))) };
    add(2, 2, 2, if th { &A3 } else { &A3[..2] });
    add(1, 2, 4, &[1.0, -1.0]);
    add(1, 3, 3, &[1.0, -1.0]);
    add(1, 2, 3, &[1.0, -1.0, 0.0, 2.0]);
    add(1, 3, 2, &[1.0, -1.0, 0.0, -2.0]);
    add(1, 1, 4, &[1.0, -1.0, 0.0]);
    add(2, 1, 3, &[1.0, -1.0]);
    if th { add(1, 4, 3, &[1.0, -1.0]); add(2, 3, 2, &[1.0, -1.0]); add(1, 2, 5, &[1.0, -1.0]); }
    for (a, b, l) in [(3, 2, 2), (2, 3, 2), (1, 4, 4), (1, 3, 5), (2, 2, 3)] {
        let (r, c) = d(a, b);
        v.push((format!("{r}x{c}/line length {l}/distinct"), structs(r, c, l, by_row), sc(structs(r, c, l, by_row))));
    }
    for (r, c, al) in [(2, 2, &[1.0, -1.0, 0.0, -2.0, 0.5][..]), (1, 6, &[1.0, -1.0][..]), (6, 1, &[1.0, -1.0][..]), (2, 3, &[1.0, -1.0][..]), (3, 2, &[1.0, -1.0][..]), (3, 3, &[1.0][..]), (1, 4, &[1.0, -1.0, 0.0, 2.0][..])] {
        v.push((format!("{r}x{c}/canonical/values {al:?}"), canon(r, c, al), canon(r, c, al)));
    }
    v
}
fn pair_dims(big: bool) -> Vec<((usize, usize), (usize, usize))> {
    let mut d = vec![(0, 0), (0, 3), (3, 0), (1, 1), (2, 2), (3, 3), (4, 2), (2, 4), (5, 5), (1, 12), (12, 1), (9, 8), (3, 40), (40, 3), (17, 15), (1, 70), (70, 1)];
    if big { d.extend([(33, 31), (1, 300), (300, 1), (2, 130), (64, 64)]) }
    d.into_iter().map(|x| (x, x)).collect()
}
/// Two operands on long, nearly empty lines.
fn long_pairs<T: El>() -> (En<T>, En<T>) { (long(), long()) }
pub fn c04(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    for by_row in [true, false] {
        for (n, a, b) in operand_spaces(th, by_row) {
            if by_row { two(s, &format!("csr/{n}"), a, b, csr_pair::<usize, f64>) } else { two(s, &format!("csc/{n}"), a, b, csc_pair::<usize, f64>) }
        }
    }
    for (r, c, l) in [(1, 2, 3), (2, 1, 3), (2, 2, 2), (1, 1, 3), (2, 3, 2)] {
        let al: &[f64] = if l == 3 { &A3 } else { &A3[..2] };
        two(s, &format!("coo/{r}x{c}/len{l}"), triples(r, c, l, al), triples(r, c, l, al), coo_pair::<u32, f64>);
    }
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, 5e-324, -5e-324, 1e-13, f64::MAX];
    two(s, "special values/1x2", canon(1, 2, &sp), canon(1, 2, &sp), any_pair::<usize, f64>);
    two(s, "special values/2x1", canon(2, 1, &sp), canon(2, 1, &sp), any_pair::<usize, f64>);
    two(s, "complex/2x2", canon(2, 2, &[Complex64::new(1.0, -1.0), Complex64::new(-1.0, 1.0), Complex64::new(0.0, 2.0)]), canon(2, 2, &[Complex64::new(1.0, -1.0), Complex64::new(0.0, -2.0), Complex64::new(0.0, 0.0)]), any_pair::<i32, Complex64>);
    two(s, "i8 values/1x2", lines(1, 2, 2, &[127i8, -127, 1, 0], true), lines(1, 2, 1, &[0i8, 0], true), any_pair_i8);
    fam_two(s, "families/usize f64", pair_dims(th), if th { 6 } else { 4 }, 4, any_pair::<usize, f64>);
    fam_two(s, "families/u16 i64", pair_dims(false), 4, 2, any_pair::<u16, i64>);
    fam_two(s, "families/i32 complex", pair_dims(false).into_iter().filter(|d| d.0 .0 * d.0 .1 < 200).collect(), 4, 1, any_pair::<i32, Complex64>);
    fam_two(s, "families/u8 f32", pair_dims(false).into_iter().filter(|d| 5 * d.0 .0 * d.0 .1 < 250).collect(), 4, 2, any_pair::<u8, f32>);
    let n = huge::<f64>().n;
    let (np, gp) = gap_pairs::<f64>();
    s.push(space("lines at every distance", np, move |i, cx| { let (a, b) = gp(i); any_pair::<u32, f64>(&a, &b, cx) }));
    s.push(space("long", n, { let h = huge::<f64>(); move |i, cx| { let a = h.get(i); let b = Tri::new(a.rows, a.cols, a.e.iter().map(|e| (e.0, a.cols - 1 - e.1, -e.2)).collect()); any_pair::<u32, f64>(&a, &b, cx)?; any_pair::<usize, f64>(&b.canon(), &a.canon(), cx) } }));
    v
}
fn any_pair_i8(a: &Tri<i8>, b: &Tri<i8>, cx: &mut Cx) -> R {
    // only sums that fit the value type
    if a.e.iter().map(|e| (e.2 as i32).abs()).sum::<i32>() > 127 { return Ok(()) }
    any_pair::<usize, i8>(a, b, cx)
}

// ---- C05 ---------------------------------------------------------------------------------------------------
type K<I, T, U> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [U]);
fn kernel<I: Ix, T: El, U: Copy + PartialEq + std::fmt::Debug>(name: &'static str, k: impl Fn(&mut [I], &mut [I], &mut [U]), f: impl Fn(T, T) -> U, zero: U, fill: U, a: &Tri<T>, b: &Tri<T>, pos: &[(usize, usize, T, T)], sorted: bool, cx: &mut Cx) -> Result<Vec<(usize, usize, U)>, String> {
    let nn = a.e.len() + b.e.len();
    let (mut p, mut j, mut v) = (junk::<I>(a.rows + 1), junk::<I>(nn), vec![fill; nn]);
    cx.op(name);
    k(&mut p, &mut j, &mut v);
    let e = read_comp(a.rows, a.cols, &p, &j, &v).map_err(|e| format!("{name}: {e}"))?;
    ck!(!sorted || e.windows(2).all(|w| (w[0].0, w[0].1) < (w[1].0, w[1].1)), "{name}: result of sorted operands is not sorted and duplicate-free: {:?}", e);
    let mut g = e.clone();
    g.sort_by_key(|x| (x.0, x.1));
    let want: Vec<(usize, usize, U)> = pos.iter().map(|q| (q.0, q.1, f(q.2, q.3))).filter(|q| q.2 != zero).collect();
    // U values compare equal when both are NaN
    let eq = |x: &U, y: &U| x == y || (x != x && y != y);
    ck!(g.len() == want.len() && g.iter().zip(&want).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && eq(&x.2, &y.2)), "{name} gives {:?}, must be {:?}", g, want);
    Ok(g)
}
fn positions<T: El>(a: &Tri<T>, b: &Tri<T>) -> Vec<(usize, usize, T, T)> {
    let mut m: std::collections::BTreeMap<(usize, usize), (T, T)> = Default::default();
    for e in &a.e { m.entry((e.0, e.1)).or_insert((T::zero(), T::zero())).0 += e.2 }
    for e in &b.e { m.entry((e.0, e.1)).or_insert((T::zero(), T::zero())).1 += e.2 }
    m.into_iter().map(|(k, v)| (k.0, k.1, v.0, v.1)).collect()
}
pub fn ew_case<I: Ix, T: El + PartialOrd>(a: &Tri<T>, b: &Tri<T>, div: bool, cx: &mut Cx) -> R {
    cx.say(|| format!("kernels on {} and {}", show(a), show(b)));
    cx.see(mix(a.hash(1), b.hash(2)));
    let (a, b) = (&a.by_row(), &b.by_row());
    let (ap, aj, ax) = a.comp::<I>(true);
    let (bp, bj, bx) = b.comp::<I>(true);
    let so = sorted_lines(a, true, true) && sorted_lines(b, true, true);
    let pos = positions(a, b);
    let (r, c) = (a.rows, a.cols);
    let z = T::zero();
    macro_rules! cmp { ($($k:ident $f:expr),*) => { $(
        kernel::<I, T, bool>(stringify!($k), |p, j, v| $k(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v), $f, false, true, a, b, &pos, so, cx)?;
    )* } }
    cmp!(csr_ne_csr |x, y| x != y, csr_eq_csr |x, y| x == y, csr_lt_csr |x, y| x < y, csr_le_csr |x, y| x <= y, csr_gt_csr |x, y| x > y, csr_ge_csr |x, y| x >= y);
    macro_rules! num { ($($k:ident $f:expr),*) => { $(
        kernel::<I, T, T>(stringify!($k), |p, j, v| $k(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v), $f, z, T::one(), a, b, &pos, so, cx)?;
    )* } }
    num!(csr_mul_csr |x, y| x * y);
    // the greater or smaller of NaN and another value is not defined
    if pos.iter().all(|q| q.2 == q.2 && q.3 == q.3) {
        num!(csr_max_csr |x, y| if x > y { x } else { y }, csr_min_csr |x, y| if x < y { x } else { y });
    }
    if div { num!(csr_div_csr |x, y| x / y); }
    // the driver and both paths with operations of our own, to the same and to another type
    let op1: Binop<T, T> = |x, y| x + x - y;
    let op2: Binop<T, i32> = |x, y| (x > y) as i32 * 2 + (y == T::zero()) as i32 - 1;
    kernel::<I, T, T>("csr_binop_csr", |p, j, v| csr_binop_csr(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v, op1), op1, z, T::one(), a, b, &pos, so, cx)?;
    kernel::<I, T, i32>("csr_binop_csr", |p, j, v| csr_binop_csr(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v, op2), op2, 0, 9, a, b, &pos, so, cx)?;
    kernel::<I, T, T>("csr_binop_csr_general", |p, j, v| csr_binop_csr_general(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v, op1), op1, z, T::one(), a, b, &pos, false, cx)?;
    if so {
        kernel::<I, T, T>("csr_binop_csr_canonical", |p, j, v| csr_binop_csr_canonical(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v, op1), op1, z, T::one(), a, b, &pos, true, cx)?;
        kernel::<I, T, i32>("csr_binop_csr_canonical", |p, j, v| csr_binop_csr_canonical(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v, op2), op2, 0, 9, a, b, &pos, true, cx)?;
    }
    kernel::<I, T, i32>("csr_binop_csr_general", |p, j, v| csr_binop_csr_general(r, c, &ap, &aj, &ax, &bp, &bj, &bx, p, j, v, op2), op2, 0, 9, a, b, &pos, false, cx)?;
    Ok(())
}
pub fn c05(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    for (n, a, b) in operand_spaces(th, true) { two(s, &n, a, b, |a, b, cx| ew_case::<usize, f64>(a, b, true, cx)) }
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -5e-324, 1e-13, f64::MAX, 0.0, 1.0];
    two(s, "special values/1x2", canon(1, 2, &sp), canon(1, 2, &sp), |a, b, cx| ew_case::<i16, f64>(a, b, true, cx));
    two(s, "special values/1x1/repeated", lines(1, 1, 2, &sp, true), lines(1, 1, 2, &sp, true), |a, b, cx| ew_case::<i16, f64>(a, b, true, cx));
    two(s, "integers/2x2", canon(2, 2, &[1i64, -2, 0, 7]), canon(2, 2, &[1i64, -2, 3]), |a, b, cx| ew_case::<u32, i64>(a, b, positions(a, b).iter().all(|p| p.3 != 0), cx));
    two(s, "integers/1x2/any stored order", lines(1, 2, 3, &[1i64, -2, 7], true), lines(1, 2, 3, &[1i64, -2, 5], true), |a, b, cx| ew_case::<u8, i64>(a, b, positions(a, b).iter().all(|p| p.3 != 0), cx));
    fam_two(s, "families/usize f64", pair_dims(th), if th { 6 } else { 4 }, 4, |a, b, cx| ew_case::<usize, f64>(a, b, true, cx));
    fam_two(s, "families/u16 f64", pair_dims(false), 4, 1, |a, b, cx| ew_case::<u16, f64>(a, b, true, cx));
    fam_two(s, "families/i32 i64", pair_dims(false).into_iter().filter(|d| d.0 .0 * d.0 .1 < 200).collect(), 4, 2, |a, b, cx| ew_case::<i32, i64>(a, b, false, cx));
    let (np, gp) = gap_pairs::<f64>();
    s.push(space("lines at every distance", np, move |i, cx| { let (a, b) = gp(i); ew_case::<u32, f64>(&a, &b, true, cx) }));
    s.push(space("long", huge::<f64>().n, { let h = huge::<f64>(); move |i, cx| { let a = h.get(i); let b = Tri::new(a.rows, a.cols, a.e.iter().map(|e| (e.0, a.cols - 1 - e.1, -e.2)).collect()); ew_case::<u32, f64>(&a, &b, true, cx)?; ew_case::<usize, f64>(&b.canon(), &a.canon(), true, cx) } }));
    v
}

// ---- C08 ---------------------------------------------------------------------------------------------------
pub fn scale_case<I: Ix, T: El>(m: &Tri<T>, fs: &[T], cx: &mut Cx) -> R {
    cx.say(|| format!("negate and scale {}", show(m)));
    cx.see(m.hash(8));
    let (mr, mc) = (&m.by_row(), &m.by_col());
    let n = |m: &Tri<T>| m.map(|v| -v);
    let o: Coo<I, T> = m.coo();
    cx.op("-Coo");
    ctx("-Coo", same_seq_num(&rd_coo(&-o)?, &n(m)))?;
    let a: CSR<I, T> = m.csr();
    cx.op("-CSR");
    ctx("-CSR", same_seq_num(&rd_csr(&-a.clone())?, &n(mr)))?;
    let c: CSC<I, T> = m.csc();
    cx.op("-CSC");
    ctx("-CSC", same_seq_num(&rd_csc(&-m.csc::<I>())?, &n(mc)))?;
    for &f in fs {
        cx.op("CSR * T");
        ctx("&CSR * T", same_seq_num(&rd_csr(&(&a * f))?, &mr.map(|v| v * f)))?;
        ctx("CSR * T", same_seq_num(&rd_csr(&(a.clone() * f))?, &mr.map(|v| v * f)))?;
        cx.op("CSC * T");
        ctx("&CSC * T", same_seq_num(&rd_csc(&(&c * f))?, &mc.map(|v| v * f)))?;
        ctx("CSC * T", same_seq_num(&rd_csc(&(m.csc::<I>() * f))?, &mc.map(|v| v * f)))?;
    }
    if !fs.is_empty() {
        let (p, j, x) = m.comp::<I>(true);
        let mut at: Vec<Box<dyn Fn(usize) -> T>> = vec![];
        for off in 0..fs.len().min(3) { at.push(Box::new(move |i| fs[(i + off) % fs.len()])) }
        // factors of one up to some line, or everywhere but in some line
        let mut ks = vec![1, 2, m.rows / 2, m.rows, m.cols, m.rows.saturating_sub(1), m.cols.saturating_sub(1), m.cols / 2, 8, 64];
        ks.retain(|&k| k < m.rows.max(m.cols));
        ks.sort();
        ks.dedup();
        for k in ks {
            at.push(Box::new(move |i| if i < k { T::one() } else { fs[(i - k) % fs.len()] }));
            at.push(Box::new(move |i| if i == k { fs[k % fs.len()] } else { T::one() }));
            at.push(Box::new(move |i| if i < k { fs[0] } else { T::one() }));
        }
        for at in at {
            let mut y = x.clone();
            cx.op("csr_scale_rows");
            csr_scale_rows(m.rows, m.cols, &p, &j, &mut y, &(0..m.rows).map(&at).collect::<Vec<_>>());
            ctx("csr_scale_rows", same_vec(&y, &mr.e.iter().map(|e| e.2 * at(e.0)).collect::<Vec<_>>()))?;
            let mut y = x.clone();
            cx.op("csr_scale_columns");
            csr_scale_columns(m.rows, m.cols, &p, &j, &mut y, &(0..m.cols).map(&at).collect::<Vec<_>>());
            ctx("csr_scale_columns", same_vec(&y, &mr.e.iter().map(|e| e.2 * at(e.1)).collect::<Vec<_>>()))?;
        }
    }
    Ok(())
}
/// Every vector of factors from a small alphabet.
fn factors_case<I: Ix>(m: &Tri<f64>, cx: &mut Cx) -> R {
    const A: [f64; 4] = [1.0, -2.0, 0.0, f64::INFINITY];
    let mr = &m.by_row();
    let (p, j, x) = m.comp::<I>(true);
    for by_row in [true, false] {
        let n = if by_row { m.rows } else { m.cols };
        for q in 0..4usize.pow(n as u32) {
            let f: Vec<f64> = (0..n).map(|k| A[q / 4usize.pow(k as u32) % 4]).collect();
            let mut y = x.clone();
            cx.op(if by_row { "csr_scale_rows" } else { "csr_scale_columns" });
            if by_row { csr_scale_rows(m.rows, m.cols, &p, &j, &mut y, &f) } else { csr_scale_columns(m.rows, m.cols, &p, &j, &mut y, &f) }
            ctx(cx.op, same_vec(&y, &mr.e.iter().map(|e| e.2 * f[if by_row { e.0 } else { e.1 }]).collect::<Vec<_>>()))?;
        }
    }
    Ok(())
}
pub fn cscale_case<I: Ix>(m: &Tri<Complex64>, fs: &[Complex64], cx: &mut Cx) -> R {
    scale_case::<I, Complex64>(m, fs, cx)?;
    let (mr, mc) = (&m.by_row(), &m.by_col());
    let (a, c): (CSR<I, Complex64>, CSC<I, Complex64>) = (m.csr(), m.csc());
    for &f in fs {
        cx.op("Complex64 * CSR");
        ctx("Complex64 * &CSR", same_seq_num(&rd_csr(&(f * &a))?, &mr.map(|v| f * v)))?;
        ctx("Complex64 * CSR", same_seq_num(&rd_csr(&(f * a.clone()))?, &mr.map(|v| f * v)))?;
        cx.op("Complex64 * CSC");
        ctx("Complex64 * &CSC", same_seq_num(&rd_csc(&(f * &c))?, &mc.map(|v| f * v)))?;
        ctx("Complex64 * CSC", same_seq_num(&rd_csc(&(f * m.csc::<I>()))?, &mc.map(|v| f * v)))?;
    }
    Ok(())
}
const FS: [f64; 6] = [2.0, -1.0, 0.0, 1.0, 0.5, -3.0];
fn c(re: f64, im: f64) -> Complex64 { Complex64::new(re, im) }
fn cs() -> Vec<Complex64> { vec![c(0.0, 1.0), c(2.0, -1.0), c(0.0, 0.0), c(-1.0, 0.0), c(1.0, 0.0)] }
pub fn c08(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let t = th as u32;
    for (r, k, l) in [(2, 2, 3), (1, 2, 4), (2, 1, 4), (2, 3, 3), (3, 2, 3), (1, 1, 4)] {
        one(s, &format!("{r}x{k}/triplets/len{l}/values 1,-1,0"), triples(r, k, l, &A3), |m, cx| scale_case::<usize, f64>(m, &FS, cx));
    }
    for (r, k, l) in [(2, 2, 6), (3, 3, 4 + t), (1, 3, 7), (3, 1, 7), (2, 3, 5), (3, 2, 5), (4, 2, 4 + t), (2, 4, 4 + t)] {
        one(s, &format!("{r}x{k}/triplets/len{l}/distinct"), triples(r, k, l, &[1.0]).map(distinct), |m, cx| scale_case::<u32, f64>(m, &FS, cx));
    }
    for (r, k) in [(1, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (2, 4), (4, 2), (1, 6), (6, 1), (3, 5), (5, 3)] {
        one(s, &format!("{r}x{k}/every vector of factors"), union(vec![canon(r, k, &[1.0]).map(distinct), canon(r.min(2), k.min(2), &A3), structs(r, k, if r * k > 6 { 1 } else { 2 }, true)]), factors_case::<usize>);
    }
    one(s, "2x2/special values", triples(2, 2, 2 + t, &SPECIAL), |m, cx| scale_case::<usize, f64>(m, &[f64::NAN, f64::INFINITY, -0.0, 2.0, 5e-324, f64::MAX], cx));
    one(s, "complex/2x2", triples(2, 2, 3, &[c(1.0, 2.0), c(0.0, -1.0), c(0.0, 0.0)]), |m, cx| cscale_case::<usize>(m, &cs(), cx));
    one(s, "complex/3x2", triples(3, 2, 3, &[c(1.0, 2.0), c(0.0, -1.0), c(0.0, 0.0)]), |m, cx| cscale_case::<i16>(m, &cs(), cx));
    one(s, "complex/special values", triples(1, 2, 2, &[c(f64::NAN, 1.0), c(0.0, f64::INFINITY), c(-0.0, 1.0), c(1.0, f64::NAN)]), |m, cx| cscale_case::<usize>(m, &[c(2.0, 0.0), c(0.0, 1.0), c(f64::INFINITY, 1.0), c(-0.0, f64::NAN)], cx));
    one(s, "integers/2x3", triples(2, 3, 3, &[3i64, -2, 0]), |m, cx| scale_case::<i32, i64>(m, &[2, -1, 0, 1], cx));
    one(s, "families/usize f64", families::<f64>(dims(th), 4), |m, cx| scale_case::<usize, f64>(m, &FS[..4], cx));
    one(s, "families/u16 complex", families::<Complex64>(fit(dims(th), 130), 3), |m, cx| cscale_case::<u16>(m, &cs()[..3], cx));
    one(s, "families/u8 i32", families::<i32>(narrow(255), 3), |m, cx| scale_case::<u8, i32>(m, &[-1, 3, 0], cx));
    one(s, "long", huge::<f64>(), |m, cx| scale_case::<u32, f64>(m, &FS[..3], cx));
    v
}

// ---- C18 ---------------------------------------------------------------------------------------------------
/// A result-returning operation: Err exactly on misfits. `got` is Err(panic) when it panicked.
fn refuse<M>(what: &str, fits: bool, got: Result<anyhow::Result<M>, String>) -> Result<Option<M>, String> {
    match got {
        Ok(Ok(m)) => { ck!(fits, "{what} accepts operands that do not fit"); Ok(Some(m)) }
        Ok(Err(e)) => { ck!(!fits, "{what} refuses fitting operands: {e}"); Ok(None) }
        Err(p) => Err(format!("{what} panics instead of returning {}: {p}", if fits { "a result" } else { "an error" })),
    }
}
/// An operator: panic exactly on misfits.
fn refuse_op<M>(what: &str, fits: bool, got: Result<M, String>) -> R {
    match got {
        Ok(_) => { ck!(fits, "{what} accepts operands that do not fit"); Ok(()) }
        Err(p) => { ck!(!fits, "{what} panics on fitting operands: {p}"); Ok(()) }
    }
}
fn content(r: usize, c: usize, k: usize) -> Tri<f64> {
    let all: Vec<_> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j, (1 + i + j) as f64))).collect();
    Tri::new(r, c, match k {
        0 => vec![],
        1 => all,
        2 => all.into_iter().take(1).collect(),
        3 => all.into_iter().rev().take(1).collect(),
        4 => all.iter().rev().chain(all.iter()).cloned().collect(),
        _ => all.into_iter().map(|e| (e.0, e.1, 0.0)).collect(),
    })
}
fn misfit_case<I: Ix>(a: &Tri<f64>, b: &Tri<f64>, cx: &mut Cx) -> R {
    cx.say(|| format!("{} with {}", show(a), show(b)));
    cx.see(mix(a.hash(1), b.hash(2)));
    let same = (a.rows, a.cols) == (b.rows, b.cols);
    let chain = a.cols == b.rows;
    let (ao, bo): (Coo<I, f64>, Coo<I, f64>) = (a.coo(), b.coo());
    let (ar, br): (CSR<I, f64>, CSR<I, f64>) = (a.csr(), b.csr());
    let (ac, bc): (CSC<I, f64>, CSC<I, f64>) = (a.csc(), b.csc());
    cx.op("Coo +"); refuse_op("Coo + Coo", same, attempt(|| &ao + &bo))?;
    cx.op("CSR +"); refuse_op("CSR + CSR", same, attempt(|| &ar + &br))?;
    cx.op("CSR -"); refuse_op("CSR - CSR", same, attempt(|| &ar - &br))?;
    cx.op("CSC +"); refuse_op("CSC + CSC", same, attempt(|| &ac + &bc))?;
    cx.op("CSC -"); refuse_op("CSC - CSC", same, attempt(|| &ac - &bc))?;
    // the owned and mixed forms
    macro_rules! forms { ($n:expr, $fits:expr, $x:expr, $y:expr, $ox:expr, $oy:expr, $o:tt) => {{
        cx.op($n);
        refuse_op(concat!("owned ", $n), $fits, attempt(|| $ox $o $oy))?;
        refuse_op(concat!("owned-borrowed ", $n), $fits, attempt(|| $ox $o $y))?;
        refuse_op(concat!("borrowed-owned ", $n), $fits, attempt(|| $x $o $oy))?;
    }} }
    if a.e.len() + b.e.len() <= 4 {
        forms!("Coo + Coo", same, &ao, &bo, a.coo::<I>(), b.coo::<I>(), +);
        forms!("CSR + CSR", same, &ar, &br, a.csr::<I>(), b.csr::<I>(), +);
        forms!("CSR - CSR", same, &ar, &br, a.csr::<I>(), b.csr::<I>(), -);
        forms!("CSC + CSC", same, &ac, &bc, a.csc::<I>(), b.csc::<I>(), +);
        forms!("CSC - CSC", same, &ac, &bc, a.csc::<I>(), b.csc::<I>(), -);
        forms!("CSR * CSR", chain, &ar, &br, a.csr::<I>(), b.csr::<I>(), *);
        forms!("CSC * CSC", chain, &ac, &bc, a.csc::<I>(), b.csc::<I>(), *);
        forms!("CSC * CSR", chain, &ac, &br, a.csc::<I>(), b.csr::<I>(), *);
    }
    cx.op("CSC::add"); refuse("CSC::add", same, attempt(|| ac.add(&bc)))?;
    cx.op("CSC::subtract"); refuse("CSC::subtract", same, attempt(|| ac.subtract(&bc)))?;
    cx.op("CSR::mat_mat"); if let Some(g) = refuse("CSR::mat_mat", chain, attempt(|| ar.mat_mat(&br)))? { ck!((g.rows(), g.cols()) == (a.rows, b.cols), "CSR::mat_mat result is {}x{}", g.rows(), g.cols()) }
    cx.op("CSC::mat_mat"); if let Some(g) = refuse("CSC::mat_mat", chain, attempt(|| ac.mat_mat(&bc)))? { ck!(g.shape() == (a.rows, b.cols), "CSC::mat_mat result is {:?}", g.shape()) }
    cx.op("CSR * CSR"); refuse_op("CSR * CSR", chain, attempt(|| &ar * &br))?;
    cx.op("CSC * CSC"); refuse_op("CSC * CSC", chain, attempt(|| &ac * &bc))?;
    cx.op("CSC * CSR"); refuse_op("CSC * CSR", chain, attempt(|| &ac * &br))
}
fn vec_misfit<I: Ix>(a: &Tri<f64>, n: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("{} with a vector of length {n}", show(a)));
    let x: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
    let (ar, ac): (CSR<I, f64>, CSC<I, f64>) = (a.csr(), a.csc());
    let f = n == a.cols;
    cx.op("CSR::mat_vec"); if let Some(g) = refuse("CSR::mat_vec", f, attempt(|| ar.mat_vec(&x)))? { ck!(g.len() == a.rows, "CSR::mat_vec result has length {}", g.len()) }
    cx.op("CSC::mat_vec"); if let Some(g) = refuse("CSC::mat_vec", f, attempt(|| ac.mat_vec(&x)))? { ck!(g.len() == a.rows, "CSC::mat_vec result has length {}", g.len()) }
    cx.op("CSR * vector"); refuse_op("CSR * &[T]", f, attempt(|| &ar * &x[..]))?; refuse_op("CSR * &Vec<T>", f, attempt(|| &ar * &x))?;
    cx.op("CSC * vector"); refuse_op("CSC * &[T]", f, attempt(|| &ac * &x[..]))?; refuse_op("CSC * &Vec<T>", f, attempt(|| &ac * &x))
}
pub fn c18(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let d = if th { 6usize } else { 5 };
    let n = (d.pow(4) * 36) as u64;
    s.push(space(format!("pairs/all shapes below {d}"), n, move |i, cx| {
        let i = i as usize;
        let (k, i) = (i % 36, i / 36);
        let q = |e: u32| i / d.pow(e) % d;
        misfit_case::<usize>(&content(q(0), q(1), k % 6), &content(q(2), q(3), k / 6), cx)
    }));
    let big = [0usize, 1, 2, 16, 17, 64, 65, 129];
    s.push(space("pairs/larger shapes", (big.len().pow(4) * 9) as u64, move |i, cx| {
        let i = i as usize;
        let (k, i) = (i % 9, i / 9);
        let q = |e: u32| big[i / big.len().pow(e) % big.len()];
        misfit_case::<u16>(&content(q(0), q(1), [0, 2, 3][k % 3]), &content(q(2), q(3), [0, 2, 3][k / 3]), cx)
    }));
    // shapes that agree in their low bytes
    let wide = [0usize, 1, 2, 255, 256, 257, 258, 512, 65_535, 65_536, 65_537, 65_538];
    let w9 = [0usize, 1, 2, 255, 256, 257, 65_535, 65_536, 65_537];
    s.push(space("pairs/shapes that agree in part", 6561 * 2, move |i, cx| {
        let wide = w9;
        let i = i as usize;
        let (k, i) = ([3, 2][i % 2], i / 2);
        let q = |e: u32| wide[i / wide.len().pow(e) % wide.len()];
        let few = |r: usize, c: usize, k: usize| Tri::new(r, c, if k == 0 || r == 0 || c == 0 { vec![] } else { vec![(r - 1, c - 1, 2.0)] });
        misfit_case::<u32>(&few(q(0), q(1), k % 2), &few(q(2), q(3), k / 2), cx)
    }));
    s.push(space("vectors/lengths that agree in part", (wide.len().pow(3) * 2) as u64, move |i, cx| {
        let i = i as usize;
        let q = |e: u32| wide[i / 2 / wide.len().pow(e) % wide.len()];
        let (r, c) = (q(0), q(1));
        vec_misfit::<usize>(&Tri::new(r, c, if i % 2 == 0 || r == 0 || c == 0 { vec![] } else { vec![(0, c - 1, 2.0)] }), q(2), cx)
    }));
    s.push(space("constructors/lengths that agree in part", 12u64.pow(3), move |i, cx| {
        let i = i as usize;
        let (a, b, c) = (wide[i % 12], wide[i / 12 % 12], wide[i / 144]);
        cx.say(|| format!("lengths {a} {b} {c}"));
        let fits = a == b && b == c;
        cx.op("Coo::new");
        refuse("Coo::new", fits, attempt(|| Coo::new(2, 2, vec![0usize; a], vec![1usize; b], vec![2.0; c])))?;
        cx.op("Coo::extend");
        refuse_op("Coo::extend", fits, attempt(|| { let mut m = Coo::<usize, f64>::with_size(2, 2); m.extend(&vec![0; a], &vec![1; b], &vec![2.0; c]) }))?;
        // a pointers, b indexes, c values: every entry in the first line
        let ptr = |last: usize| { let mut p = vec![last; a]; if a > 0 { p[0] = 0 } p };
        for lines in [a.max(1) - 1, a, a + 1, a + 255, a + 65_535, a.max(257) - 257] { for last in if a > 1 { vec![b, c] } else { vec![0] } {
            let (bad, exact) = (a != lines + 1 || b < last || c < last, a == lines + 1 && b == last && c == last);
            cx.op("CSR::new"); 
            let g = attempt(|| CSR::<usize, f64>::new(lines, 3, ptr(last), vec![0; b], vec![1.0; c]).map(|_| ()));
            cx.op("CSC::new");
            let h = attempt(|| CSC::<usize, f64>::new(3, lines, vec![0; b], ptr(last), vec![1.0; c]).map(|_| ()));
            for (n, g) in [("CSR::new", g), ("CSC::new", h)] { match g {
                Err(e) => return Err(format!("{n} panics: {e}")),
                Ok(Ok(())) => ck!(!bad, "{n} for {lines} lines accepts {a} pointers up to {last}, {b} indexes and {c} values"),
                Ok(Err(e)) => ck!(!exact, "{n} for {lines} lines refuses {a} pointers up to {last}, {b} indexes and {c} values: {e}"),
            } }
        } }
        Ok(())
    }));
    s.push(space("vectors", 6 * 6 * 9 * 6, |i, cx| { let i = i as usize; vec_misfit::<i32>(&content(i % 6, i / 6 % 6, i / 324 % 6), i / 36 % 9, cx) }));
    s.push(space("vectors/larger", 8 * 8 * 12 * 2, |i, cx| {
        let i = i as usize;
        let b = [0usize, 1, 2, 16, 17, 64, 65, 129];
        let (r, c) = (b[i % 8], b[i / 8 % 8]);
        let n = [0, 1, c, c + 1, c + 2, c.max(1) - 1, r, r + 1, 2 * c, c / 2, 256 + c, 65536 + c][i / 64 % 12];
        vec_misfit::<usize>(&content(r, c, [0, 3][i / 768]), n, cx)
    }));
    // constructors: every pointer array, every pair of array lengths
    for csr in [true, false] {
        let m = 5u64;
        s.push(space(if csr { "CSR::new" } else { "CSC::new" }, 4 * 4 * m * 64 * m * m, move |i, cx| {
            let mut i = i;
            let mut t = |n: u64| { let x = (i % n) as usize; i /= n; x };
            let (rows, cols, plen, pat, jl, xl) = (t(4), t(4), t(m), t(64), t(m), t(m));
            // pointers rise by 0..=3 per line
            let mut p = vec![0usize];
            let mut q = pat;
            for _ in 1..plen.max(1) { p.push(p[p.len() - 1] + q % 4); q /= 4 }
            if q != 0 { return Ok(()) }
            if plen == 0 { p.clear() }
            let maj = if csr { rows } else { cols };
            let nnz = *p.last().unwrap_or(&0);
            let bad = p.len() != maj + 1 || jl < nnz || xl < nnz;
            let exact = p.len() == maj + 1 && jl == nnz && xl == nnz;
            cx.op("new");
            cx.say(|| format!("rows {rows} cols {cols} pointers {p:?} index length {jl} value length {xl}"));
            let (j, x) = (vec![0i64; jl], vec![1.0; xl]);
            let g = attempt(|| if csr { CSR::<i64, f64>::new(rows, cols, p.iter().map(|&q| q as i64).collect(), j, x).map(|m| m.nnz()) } else { CSC::<i64, f64>::new(rows, cols, j, p.iter().map(|&q| q as i64).collect(), x).map(|m| m.nnz()) });
            match g {
                Err(e) => Err(format!("new panics: {e}")),
                Ok(Ok(k)) => { ck!(!bad, "new accepts arrays of inconsistent length"); ck!(k == nnz, "nnz() is {k}"); Ok(()) }
                Ok(Err(e)) => { ck!(!exact, "new refuses consistent arrays: {e}"); Ok(()) }
            }
        }));
    }
    s.push(space("Coo::new and Coo::extend", 6 * 6 * 6 * 3, |i, cx| {
        let (a, b, c, pre) = ((i % 6) as usize, (i / 6 % 6) as usize, (i / 36 % 6) as usize, (i / 216) as usize);
        cx.say(|| format!("lengths {a} {b} {c}"));
        let (r, k, x) = (vec![0usize; a], vec![1usize; b], vec![2.0; c]);
        let fits = a == b && b == c;
        cx.op("Coo::new");
        refuse("Coo::new", fits, attempt(|| Coo::new(2, 2, r.clone(), k.clone(), x.clone())))?;
        let mut m = Coo::<usize, f64>::with_size(2, 2);
        for _ in 0..pre { m.push(1, 0, 7.0) }
        cx.op("Coo::extend");
        let g = attempt(|| { m.extend(&r, &k, &x); m });
        if let Ok(m) = &g { if fits { ck!(rd_coo(m)?.e.len() == pre + a, "Coo::extend stores {} entries", m.nnz()) } }
        refuse_op("Coo::extend", fits, g)
    }));
    v
}

// ---- C21 ---------------------------------------------------------------------------------------------------
pub fn complex_case<I: Ix>(m: &Tri<Complex64>, cx: &mut Cx) -> R {
    cx.say(|| format!("complex parts of {}", show(m)));
    cx.see(m.hash(21));
    let (mr, mc) = (&m.by_row(), &m.by_col());
    let conj = |v: Complex64| c(v.re, -v.im);
    let bits = |a: &Tri<Complex64>, b: &Tri<Complex64>| same_seq(a, b);
    let o: Coo<I, Complex64> = m.coo();
    cx.op("Coo conj/real/imag/h");
    ctx("Coo::conj", bits(&rd_coo(&CCoo::conj(&o))?, &m.map(conj)))?;
    ctx("Coo::real", same_seq(&rd_coo(&o.real())?, &m.map(|v| v.re)))?;
    ctx("Coo::imag", same_seq(&rd_coo(&o.imag())?, &m.map(|v| v.im)))?;
    ctx("Coo::h", same_bag(&rd_coo(&o.h())?, &m.map(conj).t()))?;
    let a: CSR<I, Complex64> = m.csr();
    cx.op("CSR conj/real/imag/h");
    ctx("CSR::conj", bits(&rd_csr(&CCSR::conj(&a))?, &mr.map(conj)))?;
    let (re, im) = (CCSR::real(&a), CCSR::imag(&a));
    ctx("CSR::real", same_seq(&rd_csr(&re)?, &mr.map(|v| v.re)))?;
    ctx("CSR::imag", same_seq(&rd_csr(&im)?, &mr.map(|v| v.im)))?;
    ctx("CSR::h", same_bag(&rd_csc(&CCSR::h(&a))?, &m.map(conj).t()))?;
    cx.op("CSR with_real/with_imag");
    ctx("CSR::with_real", bits(&rd_csr(&<CSR<I, Complex64> as CCSR<I, f64, Complex64>>::with_real(&re))?, &mr.map(|v| c(v.re, 0.0))))?;
    ctx("CSR::with_imag", bits(&rd_csr(&<CSR<I, Complex64> as CCSR<I, f64, Complex64>>::with_imag(&im))?, &mr.map(|v| c(0.0, v.im))))?;
    let k: CSC<I, Complex64> = m.csc();
    cx.op("CSC conj/real/imag/h");
    ctx("CSC::conj", bits(&rd_csc(&CCSC::conj(&k))?, &mc.map(conj)))?;
    ctx("CSC::real", same_seq(&rd_csc(&CCSC::real(&k))?, &mc.map(|v| v.re)))?;
    ctx("CSC::imag", same_seq(&rd_csc(&CCSC::imag(&k))?, &mc.map(|v| v.im)))?;
    ctx("CSC::h", same_bag(&rd_csr(&CCSC::h(&k))?, &m.map(conj).t()))
}
/// The single precision instance.
fn complex32_case(m: &Tri<Complex64>, cx: &mut Cx) -> R {
    use num_complex::Complex32;
    let (p, j, x) = m.comp::<u32>(true);
    let x: Vec<Complex32> = x.iter().map(|v| Complex32::new(v.re as f32, v.im as f32)).collect();
    let a = CSR::new(m.rows, m.cols, p.clone(), j.clone(), x.clone()).unwrap();
    cx.op("CSR<Complex32> parts");
    let f = |g: &CSR<u32, Complex32>, w: Vec<Complex32>| -> R { ck!(g.rowptr() == &p[..] && g.colidx() == &j[..] && g.values() == &w[..], "CSR<Complex32> gives {:?}, must be {:?}", g.values(), w); Ok(()) };
    f(&CCSR::conj(&a), x.iter().map(|v| Complex32::new(v.re, -v.im)).collect())?;
    let (re, im) = (CCSR::real(&a), CCSR::imag(&a));
    ck!(re.values().iter().zip(&x).all(|(g, w)| *g == w.re) && im.values().iter().zip(&x).all(|(g, w)| *g == w.im), "CSR<Complex32> real/imag wrong");
    f(&CCSR::with_real(&re), x.iter().map(|v| Complex32::new(v.re, 0.0)).collect())?;
    f(&CCSR::with_imag(&im), x.iter().map(|v| Complex32::new(0.0, v.im)).collect())?;
    let h = CCSR::h(&a);
    ck!(h.shape() == (m.cols, m.rows) && h.values().iter().zip(&x).all(|(g, w)| *g == w.conj()), "CSR<Complex32>::h wrong");
    Ok(())
}
pub fn c21(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let t = th as u32;
    let al = [c(1.0, 2.0), c(-3.0, 0.0), c(0.0, -1.0), c(0.0, 0.0)];
    for (r, k, l) in [(2, 2, 3 + t), (1, 2, 3 + t), (2, 1, 3 + t), (2, 3, 3), (3, 2, 3), (1, 1, 4)] {
        one(s, &format!("{r}x{k}/triplets/len{l}"), triples(r, k, l, &al), complex_case::<usize>);
    }
    for (r, k, l) in [(3, 3, 4), (4, 2, 4), (2, 4, 4), (1, 4, 5), (4, 1, 5)] {
        one(s, &format!("{r}x{k}/triplets/len{l}/distinct"), triples(r, k, l + t, &[al[0]]).map(|mut m| { for (k, e) in m.e.iter_mut().enumerate() { e.2 = c(k as f64 + 1.0, (k * k) as f64 - 5.5) } m }), complex_case::<i32>);
    }
    let sp = [c(f64::NAN, 1.0), c(1.0, f64::NAN), c(f64::INFINITY, f64::NEG_INFINITY), c(-0.0, -0.0), c(0.0, -0.0), c(1e-300, -1e300), c(5e-324, 1e-13)];
    one(s, "2x2/special values", triples(2, 2, 2 + t, &sp), complex_case::<u16>);
    one(s, "families", families::<Complex64>(dims(th), 4), complex_case::<usize>);
    one(s, "families/u8", families::<Complex64>(narrow(255), 3), complex_case::<u8>);
    one(s, "families/single precision", families::<Complex64>(fit(dims(th), 70), 3), complex32_case);
    one(s, "long", huge::<Complex64>(), complex_case::<u32>);
    v
}
