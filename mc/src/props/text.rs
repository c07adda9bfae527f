//! C19 text output.
use super::*;
use crate::ck;
use num_complex::{Complex32, Complex64};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::dok::DoK;

/// Element types whose text can be read back.
pub trait Txt: El {
    /// Reads the value of a line back.
    fn line(s: &str) -> Option<Self>;
    /// Whether a table cell shows this value.
    fn cell(&self, s: &str) -> R;
}
/// A number text of a floating-point cell: at most six significant digits and within half a unit of the sixth.
fn six(v: f64, s: &str) -> R {
    let Ok(p) = s.parse::<f64>() else { return Err(format!("{s:?} is not a number")) };
    if v.is_nan() || v.is_infinite() { ck!(p == v || (p.is_nan() && v.is_nan()), "{s:?} shows {v:?}"); return Ok(()) }
    let mant = s.split(['e', 'E']).next().unwrap();
    let d: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
    // trailing zeros of a whole number are place holders
    let d = d.trim_start_matches('0').trim_end_matches('0');
    ck!(d.len() <= 6, "{s:?} shows more than six significant digits of {v:?}");
    if v == 0.0 { ck!(p == 0.0, "{s:?} shows 0"); return Ok(()) }
    // the power of ten of the leading digit
    let t = format!("{:e}", v.abs());
    let e: i32 = t.split('e').nth(1).unwrap().parse().unwrap();
    let ulp = 10f64.powi(e.max(-300) - 5);
    let slack = if e < -290 { 1e-3 } else { 1e-6 };
    ck!((p - v).abs() <= 0.5 * ulp * (1.0 + slack) || (p.is_infinite() && v.abs() > 1.797685e308), "{s:?} shows {v:?}");
    Ok(())
}
impl Txt for f64 {
    fn line(s: &str) -> Option<f64> { s.parse().ok() }
    fn cell(&self, s: &str) -> R { six(*self, s) }
}
impl Txt for f32 {
    fn line(s: &str) -> Option<f32> { s.parse().ok() }
    fn cell(&self, s: &str) -> R { six(*self as f64, s) }
}
macro_rules! int_txt { ($($t:ty),*) => { $(impl Txt for $t {
    fn line(s: &str) -> Option<$t> { s.parse().ok() }
    fn cell(&self, s: &str) -> R { let p: Option<$t> = s.parse().ok(); ck!(p == Some(*self), "{s:?} shows {self}"); Ok(()) }
})* } }
int_txt!(i8, i16, i32, i64, i128, isize);
impl Txt for Complex64 {
    fn line(s: &str) -> Option<Complex64> { s.parse().ok().or_else(|| {
        // parts that are not finite: re+imi
        let s = s.strip_suffix('i')?;
        let k = split(s)?;
        Some(Complex64::new(s[..k].parse().ok()?, s[k..].parse().ok()?))
    }) }
    fn cell(&self, s: &str) -> R {
        // re, one sign, the magnitude of im, with a j on either side of the magnitude
        let Some(k) = split(s) else { return Err(format!("{s:?} does not show two parts of {self}")) };
        let im = s[k + 1..].replacen('j', "", 1);
        ck!(s.matches('j').count() == 1, "{s:?} does not mark the imaginary part of {self}");
        ck!(!im.starts_with(['+', '-']), "{s:?} shows more than one sign for the imaginary part of {self}");
        six(self.re, &s[..k]).map_err(|e| format!("{s:?}, real part: {e}"))?;
        let sign = if s.as_bytes()[k] == b'-' { "-" } else { "" };
        if self.im.is_nan() { ck!(im == "NaN", "{s:?} shows {self}"); return Ok(()) }
        six(self.im, &format!("{sign}{im}")).map_err(|e| format!("{s:?}, imaginary part: {e}"))
    }
}
/// The position of the sign between the two parts.
fn split(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    (1..b.len()).find(|&k| (b[k] == b'+' || b[k] == b'-') && b[k - 1] != b'e' && b[k - 1] != b'E')
}

/// Reads the lines of a string form.
fn lines_of<T: Txt>(what: &str, m: (usize, usize), s: &str) -> Result<Tri<T>, String> {
    let mut e = vec![];
    for l in s.lines() {
        let f = || -> Option<(usize, usize, T)> {
            let l = l.trim().strip_prefix('(')?;
            let (p, v) = l.split_once(')')?;
            let (i, j) = p.split_once(',')?;
            Some((i.trim().parse().ok()?, j.trim().parse().ok()?, T::line(v.trim())?))
        };
        e.push(f().ok_or_else(|| format!("{what}: line {l:?} cannot be read back"))?);
    }
    Ok(Tri::new(m.0, m.1, e))
}
pub fn table<I: Ix, T: Txt>(m: &Tri<T>, cx: &mut Cx) -> R {
    let a: CSR<I, T> = m.csr();
    cx.op("CSR::to_table");
    let s = a.to_table();
    cx.say(|| s.clone());
    let rows: Vec<Vec<&str>> = s.lines().map(|l| l.split_whitespace().collect()).collect();
    if m.cols == 0 { ck!(rows.iter().all(|r| r.is_empty()), "table of a matrix without columns shows {s:?}"); return Ok(()) }
    ck!(rows.len() == m.rows, "table has {} lines for {} rows: {s:?}", rows.len(), m.rows);
    let st = m.stored();
    let mut at = std::collections::HashMap::new();
    for e in &m.e { at.insert((e.0, e.1), e.2); }
    for i in 0..m.rows {
        ck!(rows[i].len() == m.cols, "line {i} of the table has {} cells for {} columns: {s:?}", rows[i].len(), m.cols);
        for j in 0..m.cols {
            let c = rows[i][j];
            ck!((c == "-") == (st[i][j] == 0), "table cell ({i}, {j}) shows {c:?} where {} entries are stored", st[i][j]);
            if st[i][j] == 1 { at[&(i, j)].cell(c).map_err(|e| format!("table cell ({i}, {j}): {e}"))? }
        }
    }
    Ok(())
}
pub fn text_case<I: Ix, T: Txt>(m: &Tri<T>, cx: &mut Cx) -> R {
    cx.say(|| format!("text of {}", show(m)));
    cx.see(m.hash(19));
    let (mr, mc) = (m.by_row(), m.by_col());
    let sh = (m.rows, m.cols);
    cx.op("Coo::to_string");
    ctx("Coo::to_string", same_seq_num(&lines_of("Coo::to_string", sh, &m.coo::<I>().to_string())?, m))?;
    cx.op("CSR::to_string");
    ctx("CSR::to_string", same_seq_num(&lines_of("CSR::to_string", sh, &m.csr::<I>().to_string())?, &mr))?;
    cx.op("CSC::to_string");
    ctx("CSC::to_string", same_seq_num(&lines_of("CSC::to_string", sh, &m.csc::<I>().to_string())?, &mc))?;
    // unused slots are not entries
    let (p, mut j, mut x) = m.comp::<I>(true);
    j.push(I::zero()); x.push(T::one());
    ctx("CSR::to_string with an unused slot", same_seq_num(&lines_of("CSR::to_string", sh, &CSR::<I, T>::new(m.rows, m.cols, p, j, x).unwrap().to_string())?, &mr))?;
    let (p, mut j, mut x) = m.comp::<I>(false);
    j.push(I::zero()); x.push(T::one());
    ctx("CSC::to_string with an unused slot", same_seq_num(&lines_of("CSC::to_string", sh, &CSC::<I, T>::new(m.rows, m.cols, j, p, x).unwrap().to_string())?, &mc))?;
    let mut k: DoK<I, T> = DoK::new(m.rows, m.cols);
    for e in &m.e { k.add(ix(e.0), ix(e.1), e.2).map_err(|e| e.to_string())? }
    cx.op("DoK::to_string");
    let mut g = lines_of::<T>("DoK::to_string", sh, &k.to_string())?;
    g.e.sort_by_key(|e| (e.0, e.1));
    let mut w: Vec<(usize, usize, T)> = k.iter().map(|(p, v)| (p.0.to_usize().unwrap(), p.1.to_usize().unwrap(), *v)).collect();
    w.sort_by_key(|e| (e.0, e.1));
    ctx("DoK::to_string", same_seq_num(&g, &Tri::new(m.rows, m.cols, w)))?;
    table::<I, T>(m, cx)
}
/// Numbers whose text is easy to get wrong.
fn numbers() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 10.0, 99999.0, 999999.0, 9999995.0, 999999.5, 99999.95, 0.99999949, 0.9999995, 0.99999951, 123456.0, 1234567.0, 123456.7, 1234565.0, 1.0 / 3.0, 2.0 / 3.0, 1e4, 12345.0, 1e5, 1e6, 1e-3, 1e-4, 1e-5, 1.5e-5, 0.00012345678, 1e15, 123456789012345680.0, 1e300, -1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, std::f64::consts::PI, -std::f64::consts::E, 100.25, 1000.125, 10000.0625, 7.0, 1e22, 4503599627370497.5, 0.30000000000000004, 1.0000005, 1.00000049, 1.2345675];
    for e in -12..=12 { for m in [1.0, 9.999999, 1.234564999, 1.2345650001, 5.0, -7.77] { v.push(m * 10f64.powi(e)) } }
    v
}
pub fn c19(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let t = th as u32;
    for (r, c, l) in [(2, 2, 3), (1, 2, 4), (2, 1, 4), (2, 3, 3), (3, 2, 3), (1, 1, 4), (3, 3, 2 + t)] {
        one(s, &format!("{r}x{c}/triplets/len{l}/values 1,-1,0"), triples(r, c, l, &A3), text_case::<usize, f64>);
    }
    for (r, c, l) in [(2, 2, 5), (3, 3, 4), (1, 3, 5), (3, 1, 5), (2, 4, 4), (4, 2, 4)] {
        one(s, &format!("{r}x{c}/triplets/len{l}/distinct"), triples(r, c, l + t, &[1.0]).map(distinct), text_case::<i32, f64>);
    }
    let n = numbers();
    one(s, "1x1/numbers", canon(1, 1, &n), text_case::<usize, f64>);
    one(s, "1x2/numbers", canon(1, 2, &n), text_case::<usize, f64>);
    one(s, "2x1/numbers", canon(2, 1, &n), text_case::<u8, f64>);
    one(s, "2x2/numbers", canon(2, 2, &n[..if th { 40 } else { 14 }]), text_case::<i8, f64>);
    let c: Vec<Complex64> = n.iter().flat_map(|&a| n.iter().map(move |&b| Complex64::new(a, b))).collect();
    one(s, "1x1/complex numbers", canon(1, 1, &c), text_case::<usize, Complex64>);
    let d: Vec<Complex64> = n[..9].iter().flat_map(|&a| n[..9].iter().map(move |&b| Complex64::new(a, b))).collect();
    one(s, "1x2/complex numbers", canon(1, 2, &d), text_case::<usize, Complex64>);
    one(s, "2x1/complex numbers", canon(2, 1, &d), text_case::<i64, Complex64>);
    one(s, "2x2/complex numbers", canon(2, 2, &d[..if th { 30 } else { 14 }]), text_case::<u16, Complex64>);
    let n32: Vec<f32> = n.iter().map(|&x| x as f32).collect();
    one(s, "1x2/single precision numbers", canon(1, 2, &n32), text_case::<usize, f32>);
    let m = n32.clone();
    s.push(space("1x1/single precision complex numbers", (m.len() * m.len()) as u64, move |i, cx| {
        let (a, b) = (m[i as usize % m.len()], m[i as usize / m.len()]);
        let x: CSR<usize, Complex32> = CSR::new(1, 1, vec![0, 1], vec![0], vec![Complex32::new(a, b)]).unwrap();
        cx.op("CSR::to_table");
        let t = x.to_table();
        Complex64::new(a as f64, b as f64).cell(t.trim()).map_err(|e| format!("table: {e}"))
    }));
    one(s, "1x2/integers", canon(1, 2, &[0i8, 1, -1, 127, -128, 10, -100]), text_case::<i16, i8>);
    one(s, "1x2/wide integers", canon(1, 2, &[0i128, i128::MAX, i128::MIN, 10, -1_000_000_000_000]), text_case::<u128, i128>);
    one(s, "3x3/every pattern", canon(3, 3, &[-1.5]), text_case::<u32, f64>);
    one(s, "3x4/every pattern", canon(3, 4, &[2.0]), text_case::<u32, f64>);
    one(s, "families/usize f64", families::<f64>(dims(th), 4), text_case::<usize, f64>);
    one(s, "families/u8 i32", families::<i32>(narrow(255), 3), text_case::<u8, i32>);
    one(s, "families/i16 complex", families::<Complex64>(fit(dims(false), 40), 3), text_case::<i16, Complex64>);
    one(s, "tall", huge::<f64>().map(|m| if m.cols > m.rows { m.t() } else { m }), text_case::<u32, f64>);
    v
}
