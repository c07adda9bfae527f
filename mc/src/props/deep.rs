//! Deeper bounds, explored by the thorough commands on top of the spaces of the quick ones.
use super::*;
use num_complex::Complex64;

/// Larger exhaustive enumerations of one operand: every stored structure, every pattern, every entry sequence.
fn ones(s: &mut Vec<Space>, level: usize, f: impl Fn(&Tri<f64>, &mut Cx) -> R + Sync + Send + Clone + 'static) {
    for (r, c, l) in [(4, 4, 2), (3, 3, 3), (2, 5, 3), (5, 2, 2), (2, 2, 6), (6, 3, 1), (3, 6, 2), (1, 6, 6), (2, 3, 4)] {
        one(s, &format!("deep/rows/{r}x{c}/line length {l}/distinct"), structs(r, c, l, true), f.clone());
        one(s, &format!("deep/columns/{c}x{r}/line length {l}/distinct"), structs(c, r, l, false), f.clone());
    }
    for (r, c, al) in [(4, 4, &A3[..1]), (3, 4, &A3[..2]), (4, 3, &A3[..2]), (3, 3, &A3[..]), (2, 5, &A3[..2]), (5, 2, &A3[..2]), (5, 3, &A3[..1]), (3, 5, &A3[..1])] {
        one(s, &format!("deep/canonical/{r}x{c}/values {al:?}"), canon(r, c, al), f.clone());
    }
    for (r, c, l, al) in [(2, 2, 4, &A3[..]), (2, 2, 7, &A3[..1]), (3, 3, 5, &A3[..1]), (2, 3, 4, &A3[..2]), (3, 2, 4, &A3[..2]), (4, 4, 4, &A3[..1])] {
        one(s, &format!("deep/triplets/{r}x{c}/len{l}/values {al:?}"), triples(r, c, l, al), f.clone());
    }
    if level > 1 {
        one(s, "deep/rows/3x3/line length 4/distinct", structs(3, 3, 4, true), f.clone());
        one(s, "deep/columns/3x3/line length 4/distinct", structs(3, 3, 4, false), f.clone());
        one(s, "deep/rows/3x3/line length 2/values 1,-1,0", lines(3, 3, 2, &A3, true), f.clone());
        one(s, "deep/columns/3x3/line length 2/values 1,-1,0", lines(3, 3, 2, &A3, false), f.clone());
        one(s, "deep/rows/2x2/line length 4/values 1,-1,0", lines(2, 2, 4, &A3, true), f.clone());
        one(s, "deep/canonical/4x5/values [1.0]", canon(4, 5, &A3[..1]), f.clone());
    }
}
/// Larger exhaustive enumerations of two operands of one shape.
fn twos(s: &mut Vec<Space>, level: usize, f: impl Fn(&Tri<f64>, &Tri<f64>, &mut Cx) -> R + Sync + Send + Clone + 'static) {
    let far = |e: En<f64>| e.map(|m| m.map(|v| if v > 0.0 { -v * 0.5 } else { v }));
    for (r, c, l) in [(2, 2, 2), (3, 3, 1), (2, 3, 2), (1, 3, 4), (3, 2, 2), (4, 2, 1), (1, 2, 6), (2, 4, 1), (4, 1, 2)] {
        two(s, &format!("deep/rows/{r}x{c}/line length {l}/distinct"), structs(r, c, l, true), far(structs(r, c, l, true)), f.clone());
        two(s, &format!("deep/columns/{c}x{r}/line length {l}/distinct"), structs(c, r, l, false), far(structs(c, r, l, false)), f.clone());
    }
    for (r, c, al) in [(2, 3, &A3[..2]), (3, 2, &A3[..2]), (3, 3, &A3[..1]), (2, 2, &A3[..]), (1, 5, &A3[..2]), (2, 4, &A3[..1])] {
        two(s, &format!("deep/canonical/{r}x{c}/values {al:?}"), canon(r, c, al), canon(r, c, al), f.clone());
    }
    if level > 1 {
        two(s, "deep/canonical/3x4/values [1.0]", canon(3, 4, &A3[..1]), canon(3, 4, &A3[..1]), f.clone());
        two(s, "deep/canonical/4x3/values [1.0]", canon(4, 3, &A3[..1]), canon(4, 3, &A3[..1]).map(|m| m.map(|v| -v)), f.clone());
        two(s, "deep/rows/2x3/line length 2/values 1,-1", structs(2, 3, 2, true), lines(2, 3, 2, &A3[..2], true), f.clone());
        two(s, "deep/rows/2x2/line length 2/values 1,-1,0", lines(2, 2, 2, &A3, true), lines(2, 2, 2, &A3[..1], true), f);
    }
}
pub fn extra(p: &str) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    match p {
        "C01" => { ones(s, 1, conv::all_cases::<usize, f64>); one(s, "deep/chains/2x2/canonical", canon(2, 2, &A3), |m, cx| conv::chain_case::<usize, f64>(m, 8, cx)) }
        "C03" => { ones(s, 2, |m, cx| structure::clean_case::<usize, f64>(m, true, cx)); ones_renamed(s, "by column", |m, cx| structure::clean_case::<usize, f64>(m, false, cx)) }
        "C06" => ones(s, 2, prod::fam_vec::<usize, f64>),
        "C08" => ones(s, 2, |m, cx| arith::scale_case::<usize, f64>(m, &[2.0, -1.0, 0.0], cx)),
        "C09" => ones(s, 2, conv::t_case::<usize, f64>),
        "C10" => {
            ones(s, 1, |m, cx| structure::ranges_case::<usize, f64>(m, &[0, 1, 2, 3], &[1, 2, 3], cx));
            let rev = |n: usize| -> Vec<usize> { (0..n).rev().chain(0..n.min(2)).collect() };
            ones_renamed(s, "kernels", move |m, cx| if m.rows * m.cols == 0 { Ok(()) } else { structure::kernels_case::<usize, f64>(m, &rev(m.rows), &rev(m.cols), cx) });
        }
        "C12" => ones(s, 2, |m, cx| { let (r, c) = (m.rows as isize, m.cols as isize); structure::access_case::<usize, f64>(m, &(-r - 1..=c + 1).collect::<Vec<_>>(), cx) }),
        "C19" => ones(s, 1, text::text_case::<usize, f64>),
        "C21" => ones(s, 1, |m, cx| arith::complex_case::<usize>(&m.map(|v| Complex64::new(v, 1.0 - v * 0.5)), cx)),
        "C22" => ones(s, 1, |m, cx| if m.rows == 0 { Ok(()) } else { hist::dense_case::<usize, f64>(&m.dense(), m.rows, m.cols, cx)?; hist::view_case::<usize>(m, cx) }),
        "C04" => twos(s, 2, arith::any_pair::<usize, f64>),
        "C05" => twos(s, 2, |a, b, cx| arith::ew_case::<usize, f64>(a, b, true, cx)),
        "C07" => twos(s, 2, |a, b, cx| { prod::mm_case::<usize, f64>(a, &b.t(), cx)?; prod::mm_case::<usize, f64>(&b.t(), a, cx) }),
        "C11" => twos(s, 1, |a, b, cx| { structure::stack2::<usize, f64>(a, b, cx)?; structure::stack3::<usize, f64>(a, b, a, cx)?; structure::compose_case::<usize, f64>(&[a, b, b, a], cx) }),
        "C20" => twos(s, 1, hist::keep_case::<usize>),
        "C02" => hist::c02_deep(s),
        "C13" => hist::c13_deep(s),
        _ => {}
    }
    v
}
fn ones_renamed(s: &mut Vec<Space>, name: &str, f: impl Fn(&Tri<f64>, &mut Cx) -> R + Sync + Send + Clone + 'static) {
    let mut v = vec![];
    ones(&mut v, 1, f);
    for mut x in v { x.name = format!("{name}/{}", x.name); s.push(x) }
}
