//! C14 connected components, C15 depth-first order, C16 component labelling of symmetric graphs.
use super::*;
use crate::ck;
use num_complex::Complex64;
use num_traits::Signed;
use sparsetools::csr::CSR;
use sparsetools::graph::{connected_components, cs_graph_components, depth_first_order, Connection};

/// Adjacency lists (every stored entry is an edge).
pub fn adj<T: El>(m: &Tri<T>, both: bool) -> Vec<Vec<usize>> {
    let mut a = vec![vec![]; m.rows.max(m.cols)];
    for e in &m.e { a[e.0].push(e.1); if both { a[e.1].push(e.0) } }
    a
}
fn reach(a: &[Vec<usize>], s: usize) -> Vec<bool> {
    let mut f = vec![false; a.len()];
    f[s] = true;
    let mut q = vec![s];
    while let Some(v) = q.pop() { for &w in &a[v] { if !f[w] { f[w] = true; q.push(w) } } }
    f
}
/// The partition into strong (mutual reachability) or weak classes: class representative (least member) of each node.
pub fn classes<T: El>(m: &Tri<T>, strong: bool) -> Vec<usize> {
    let n = m.rows;
    let mut c = vec![usize::MAX; n];
    let f = adj(m, !strong);
    if !strong {
        // the nodes an undirected path leads to
        for v in 0..n { if c[v] == usize::MAX { c[v] = v; let mut q = vec![v]; while let Some(u) = q.pop() { for &w in &f[u] { if c[w] == usize::MAX { c[w] = v; q.push(w) } } } } }
        return c
    }
    let mut b = vec![vec![]; n];
    for (v, l) in f.iter().enumerate() { for &w in l { b[w].push(v) } }
    if n <= 64 {
        // by definition: forward and backward closure as bit masks
        let cl = |a: &[Vec<usize>]| -> Vec<u64> {
            let mut r: Vec<u64> = a.iter().enumerate().map(|(v, l)| l.iter().fold(1u64 << v, |x, &w| x | 1 << w)).collect();
            for k in 0..n { for v in 0..n { if r[v] >> k & 1 == 1 { r[v] |= r[k] } } }
            r
        };
        let (p, q) = (cl(&f), cl(&b));
        for v in 0..n { c[v] = (p[v] & q[v]).trailing_zeros() as usize }
        if n <= 4 { assert!(c == two_pass(&f, &b), "the two oracles disagree") }
        c
    } else { two_pass(&f, &b) }
}
/// Strong classes in linear time: backward searches in the order in which forward ones end, last first.
fn two_pass(f: &[Vec<usize>], b: &[Vec<usize>]) -> Vec<usize> {
    let n = f.len();
    let (mut seen, mut end) = (vec![false; n], vec![]);
    for v in 0..n { if !seen[v] {
        seen[v] = true;
        let mut st = vec![(v, 0)];
        while let Some(&mut (u, ref mut k)) = st.last_mut() {
            if *k == f[u].len() { end.push(u); st.pop(); } else { let w = f[u][*k]; *k += 1; if !seen[w] { seen[w] = true; st.push((w, 0)) } }
        }
    } }
    let mut c = vec![usize::MAX; n];
    for &v in end.iter().rev() { if c[v] == usize::MAX {
        let (mut q, mut all) = (vec![v], vec![]);
        c[v] = v;
        while let Some(u) = q.pop() { all.push(u); for &w in &b[u] { if c[w] == usize::MAX { c[w] = v; q.push(w) } } }
        let least = *all.iter().min().unwrap();
        for u in all { c[u] = least }
    } }
    c
}
fn partition_ok(what: &str, count: usize, labels: &[usize], want: &[usize]) -> R {
    ck!(labels.len() == want.len(), "{what} gives {} labels for {} nodes", labels.len(), want.len());
    let mut lab = std::collections::BTreeMap::new();
    let mut cls = std::collections::BTreeMap::new();
    for v in 0..want.len() {
        ck!(labels[v] < count, "{what} gives label {} to node {} although it counts {} components (labels {:?})", labels[v], v, count, labels);
        let a = *lab.entry(want[v]).or_insert(labels[v]);
        ck!(a == labels[v], "{what} separates nodes {} and {} (labels {:?})", want[v], v, labels);
        let b = *cls.entry(labels[v]).or_insert(want[v]);
        ck!(b == want[v], "{what} joins nodes {} and {} (labels {:?})", b, v, labels);
    }
    ck!(lab.len() == count, "{what} counts {} components, must be {} (labels {:?})", count, lab.len(), labels);
    Ok(())
}
pub fn comp_case<I: Ix, T: El>(m: &Tri<T>, spare: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("graph {}", show(m)));
    cx.see(m.hash(14));
    let (p, mut j, mut x) = m.comp::<I>(true);
    for _ in 0..spare { j.push(I::zero()); x.push(T::one()) }
    let a: CSR<I, T> = CSR::new(m.rows, m.cols, p, j, x).unwrap();
    let (strong, weak) = (classes(m, true), classes(m, false));
    for (name, directed, con, want) in [("strong", true, Connection::Strong, &strong), ("weak", true, Connection::Weak, &weak), ("undirected", false, Connection::Strong, &weak), ("undirected weak", false, Connection::Weak, &weak)] {
        cx.op("connected_components");
        let (n, l) = connected_components(&a, directed, con).map_err(|e| format!("{name} components: {e}"))?;
        partition_ok(&format!("{name} components"), n, &l, want)?;
    }
    Ok(())
}
pub fn dfs_case<I: Ix, T: El>(m: &Tri<T>, starts: &[usize], spare: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("depth-first orders of {} from {starts:?}", show(m)));
    cx.see(m.hash(15));
    let (p, mut j, mut x) = m.comp::<I>(true);
    for _ in 0..spare { j.push(I::zero()); x.push(T::one()) }
    let a: CSR<I, T> = CSR::new(m.rows, m.cols, p, j, x).unwrap();
    for directed in [true, false] {
        let ad = adj(m, !directed);
        for &s in starts {
            cx.op("depth_first_order");
            let (order, pred) = depth_first_order(&a, s, directed).map_err(|e| e.to_string())?;
            dfs_ok(&ad, s, &order, &pred).map_err(|e| format!("{} depth-first order from {s}: {e}; order {order:?}, predecessors {pred:?}", if directed { "directed" } else { "undirected" }))?;
        }
    }
    Ok(())
}
fn dfs_ok(ad: &[Vec<usize>], s: usize, order: &[usize], pred: &[Option<usize>]) -> R {
    let n = ad.len();
    ck!(order.first() == Some(&s), "does not begin with the start node");
    ck!(pred.len() == n, "{} predecessors for {} nodes", pred.len(), n);
    ck!(pred[s].is_none(), "the start node has a predecessor");
    let mut seen = vec![false; n];
    seen[s] = true;
    // (open node, position in its neighbour list below which all are seen)
    let mut open = vec![(s, 0usize)];
    for &v in &order[1..] {
        ck!(v < n && !seen[v], "node {v} is listed twice or does not exist");
        loop {
            let Some(top) = open.last_mut() else { return Err(format!("node {v} is listed though nothing is left to visit")) };
            while top.1 < ad[top.0].len() && seen[ad[top.0][top.1]] { top.1 += 1 }
            if top.1 == ad[top.0].len() { open.pop(); } else { break }
        }
        let top = open.last().unwrap().0;
        ck!(ad[top].contains(&v), "node {v} is not a neighbour of {top}, the deepest open node with an unvisited neighbour");
        ck!(pred[v] == Some(top), "the predecessor of {v} is {:?}, it was reached from {top}", pred[v]);
        seen[v] = true;
        open.push((v, 0));
    }
    let r = reach(ad, s);
    for v in 0..n {
        ck!(seen[v] == r[v], "node {v} is {} but {}", if r[v] { "reachable" } else { "unreachable" }, if seen[v] { "listed" } else { "not listed" });
        ck!(seen[v] || pred[v].is_none(), "unreached node {v} has a predecessor");
    }
    Ok(())
}
fn symmetric<T>(m: &Tri<T>) -> bool {
    let s: std::collections::HashSet<(usize, usize)> = m.e.iter().map(|e| (e.0, e.1)).collect();
    s.iter().all(|&(i, j)| s.contains(&(j, i)))
}
pub fn sym_case<I: Ix, F: Ix + Signed, T: El>(m: &Tri<T>, spare: usize, cx: &mut Cx) -> R {
    cx.say(|| format!("symmetric graph {}", show(m)));
    cx.see(m.hash(16));
    let n = m.rows;
    let (p, mut j, mut x) = m.comp::<I>(true);
    for _ in 0..spare { j.push(I::zero()); x.push(T::one()) }
    let a: CSR<I, T> = CSR::new(n, n, p.clone(), j.clone(), x).unwrap();
    let c = classes(m, false);
    let mut has = vec![false; n];
    for e in &m.e { has[e.0] = true }
    let ok = |what: &str, cnt: I, f: &[F]| -> R {
        ck!(f.len() == n, "{what} gives {} labels for {} nodes", f.len(), n);
        let nodes: Vec<usize> = (0..n).filter(|&v| has[v]).collect();
        for v in 0..n { ck!(has[v] || f[v] < F::zero(), "{what} gives label {} to node {v}, which has no entries", f[v]) }
        let mut lab = vec![];
        for &v in &nodes { match f[v].to_usize() { Some(l) => lab.push(l), None => return Err(format!("{what} gives label {} to node {v}, which has entries", f[v])) } }
        let Some(cnt) = cnt.to_usize() else { return Err(format!("{what} counts {cnt} components")) };
        partition_ok(what, cnt, &lab, &nodes.iter().map(|&v| c[v]).collect::<Vec<_>>())
    };
    cx.op("CSR::connected_components");
    let (cnt, f) = a.connected_components::<F>().map_err(|e| format!("CSR::connected_components fails: {e}"))?;
    ok("CSR::connected_components", cnt, &f)?;
    for fill in [F::zero(), F::one(), F::zero() - F::one() - F::one()] {
        let mut f = vec![fill; n];
        cx.op("cs_graph_components");
        let cnt = cs_graph_components::<I, T, F>(n, &p, &j, &mut f).map_err(|e| format!("cs_graph_components fails: {e}"))?;
        ok("cs_graph_components", cnt, &f)?;
    }
    Ok(())
}

// ---- enumerations ------------------------------------------------------------------------------------------
/// Every digraph on n nodes (`loops`: with self edges), rows in ascending or descending order.
fn digraphs(n: usize, loops: bool, rev: bool) -> En<f64> {
    let pos: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|p| loops || p.0 != p.1).collect();
    En { n: 1 << pos.len(), f: Box::new(move |q| {
        let mut e: Vec<_> = pos.iter().enumerate().filter(|(k, _)| q >> k & 1 == 1).map(|(_, p)| (p.0, p.1, 1.0)).collect();
        if rev { e.reverse() }
        Tri::new(n, n, e)
    }) }
}
/// Every undirected graph on n nodes stored both ways.
fn undirected(n: usize, loops: bool, rev: bool) -> En<f64> {
    let pos: Vec<(usize, usize)> = (0..n).flat_map(|i| (i..n).map(move |j| (i, j))).filter(|p| loops || p.0 != p.1).collect();
    En { n: 1 << pos.len(), f: Box::new(move |q| {
        let mut e = vec![];
        for (k, p) in pos.iter().enumerate() { if q >> k & 1 == 1 { e.push((p.0, p.1, 1.0)); if p.0 != p.1 { e.push((p.1, p.0, 1.0)) } } }
        if rev { e.reverse() }
        Tri::new(n, n, e)
    }) }
}
/// Every digraph whose rows hold any ordered selection of distinct neighbours.
fn ordered(n: usize, loops: bool) -> En<f64> {
    let per: Vec<Vec<Vec<usize>>> = (0..n).map(|i| {
        let c: Vec<usize> = (0..n).filter(|&j| loops || j != i).collect();
        let mut all = vec![vec![]];
        let mut last: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..c.len() {
            last = last.iter().flat_map(|p| c.iter().filter(|x| !p.contains(x)).map(|&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect();
            all.extend(last.iter().cloned());
        }
        all
    }).collect();
    En { n: per.iter().map(|p| p.len() as u64).product(), f: Box::new(move |mut q| {
        let mut e = vec![];
        for (i, p) in per.iter().enumerate() { for &j in &p[(q % p.len() as u64) as usize] { e.push((i, j, 1.0)) } q /= p.len() as u64 }
        Tri::new(n, n, e)
    }) }
}
/// Named large graphs: directed edge lists on n nodes.
fn shapes(n: usize) -> Vec<Vec<(usize, usize)>> {
    let mut v: Vec<Vec<(usize, usize)>> = vec![];
    let path: Vec<_> = (1..n).map(|i| (i - 1, i)).collect();
    let flip = |e: &[(usize, usize)]| e.iter().map(|x| (x.1, x.0)).collect::<Vec<_>>();
    v.push(path.clone());
    v.push(flip(&path));
    let mut cyc = path.clone();
    if n > 0 { cyc.push((n - 1, 0)) }
    v.push(cyc.clone());
    v.push(flip(&cyc));
    v.push((1..n).map(|i| (0, i)).collect()); // stars
    v.push((1..n).map(|i| (i, 0)).collect());
    v.push((1..n).flat_map(|i| [(0, i), (i, 0)]).collect());
    v.push((1..n).map(|i| ((i - 1) / 2, i)).collect()); // binary trees
    v.push((1..n).map(|i| (i, (i - 1) / 2)).collect());
    // chains of cycles of length 3, linked forwards, linked backwards, unlinked
    let tri = |link: i32| { let mut e = vec![]; for b in 0..n / 3 { let x = 3 * b; e.extend([(x, x + 1), (x + 1, x + 2), (x + 2, x)]); if b > 0 { match link { 1 => e.push((x - 1, x)), -1 => e.push((x, x - 2)), _ => {} } } } e };
    for l in [1, -1, 0] { v.push(tri(l)) }
    // nested cycles: back edges of all lengths; ladder; strided permutation graphs; sparse pseudo-regular graphs
    let mut nest = path.clone();
    for i in 0..n / 2 { nest.push((n - 1 - i, i)) }
    v.push(nest);
    for (a, b) in [(2, 1), (3, 1), (5, 2), (7, 3), (n / 2 + 1, 0)] { if n > 0 { v.push((0..n).map(|i| (i, (i * a + b) % n)).collect()) } }
    if n > 0 {
        v.push((0..n).flat_map(|i| [(i, (i * 2) % n), (i, (i * 2 + 1) % n), (i, (i + n / 2) % n)]).collect());
        v.push((0..n).flat_map(|i| [(i, (i * i + 1) % n), (i, (i * 3) % n)]).filter(|e| (e.0 + e.1) % 3 != 0).collect());
        v.push((0..n).filter(|i| i % 4 != 3).flat_map(|i| [(i, (i + 4) % n), ((i + 4) % n, i), (i, i)]).collect());
        v.push((0..n).flat_map(|i| (0..5).map(move |k| (i, (i * 7 + k * k * 3 + k) % n))).filter(|e| e.0 % 5 != 2 && e.1 % 6 != 1).collect());
        // two halves with a one-way bridge
        let h = n / 2;
        if h > 1 { let mut e: Vec<_> = (0..h).map(|i| (i, (i + 1) % h)).collect(); e.extend((h..n).map(|i| (i, if i + 1 == n { h } else { i + 1 }))); e.push((h - 1, n - 1)); v.push(e) }
    }
    v
}
/// Stored orders of an edge list: as given, reversed, each row descending, each row twice, back to front interleaved.
fn stored(n: usize, e: &[(usize, usize)], o: usize, sym: bool) -> Tri<f64> {
    let mut e = e.to_vec();
    if sym { let mut f: Vec<_> = e.iter().map(|x| (x.1, x.0)).filter(|x| x.0 != x.1).collect(); e.append(&mut f) }
    match o {
        0 => {}
        1 => e.reverse(),
        2 => { e.sort(); e.reverse() }
        3 => { e.sort(); let f: Vec<_> = e.iter().flat_map(|x| [*x, *x]).collect(); e = f }
        4 => { let f = e.clone(); e.reverse(); e.extend(f) }
        _ => { e.sort(); let k = e.len() / 2; e.rotate_left(k) }
    }
    Tri::new(n, n, e.into_iter().enumerate().map(|(k, x)| (x.0, x.1, if k % 4 == 3 { 0.0 } else { (k + 1) as f64 })).collect())
}
fn gsizes(th: bool) -> Vec<usize> {
    let mut v = vec![0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 31, 33, 64, 65, 100, 130, 257];
    if th { v.extend([11, 14, 15, 40, 63, 127, 128, 200, 255, 256, 400, 600]) }
    v
}
fn shape_en(th: bool, sym: bool) -> En<f64> {
    let mut l: Vec<(usize, usize, usize)> = vec![];
    for n in gsizes(th) { for k in 0..shapes(n).len() { for o in 0..6 { l.push((n, k, o)) } } }
    En { n: l.len() as u64, f: Box::new(move |q| { let (n, k, o) = l[q as usize]; stored(n, &shapes(n)[k], o, sym) }) }
}
/// The square families.
fn square(th: bool) -> Vec<(usize, usize)> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 33, 64];
    if th { v.extend([10, 13, 24, 40, 65, 90, 130]) }
    v.into_iter().map(|n| (n, n)).collect()
}
fn nonsquare(s: &mut Vec<Space>, f: impl Fn(&Tri<f64>, &mut Cx) -> R + Sync + Send + 'static) {
    let d: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).filter(|d| d.0 != d.1).chain([(70, 1), (1, 70), (17, 16)]).collect();
    one(s, "not square", families::<f64>(d, 1), f);
}
fn starts(n: usize) -> Vec<usize> {
    if n <= 40 { (0..n).collect() } else { let mut v = vec![0, 1, n / 3, n / 2, n - 2, n - 1]; v.dedup(); v }
}

pub fn c14(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    for n in 0..=4 { one(s, &format!("every digraph on {n} nodes"), digraphs(n, true, false), |m, cx| comp_case::<usize, f64>(m, 0, cx)) }
    for (n, l) in [(2, 4), (3, 3), (1, 6), (4, 2)] { one(s, &format!("{n} nodes/every row sequence of length up to {l}"), lines(n, n, l, &[1.0], true), move |m, cx| comp_case::<u32, f64>(m, n % 2, cx)) }
    one(s, "2 nodes/with stored zeros", lines(2, 2, 3, &[1.0, 0.0], true), |m, cx| comp_case::<i16, f64>(m, 1, cx));
    one(s, "4 nodes/every neighbour order", ordered(4, false), |m, cx| comp_case::<usize, f64>(m, 0, cx));
    one(s, "every digraph on 5 nodes without self edges", digraphs(5, false, false), |m, cx| comp_case::<u8, f64>(m, 0, cx));
    one(s, "every digraph on 5 nodes without self edges/descending", digraphs(5, false, true), |m, cx| comp_case::<i8, f64>(m, 0, cx));
    if th {
        one(s, "every digraph on 5 nodes", digraphs(5, true, false), |m, cx| comp_case::<usize, f64>(m, 0, cx));
        one(s, "4 nodes/every neighbour order with self edges", ordered(4, true), |m, cx| comp_case::<usize, f64>(m, 0, cx));
        one(s, "4 nodes/every row sequence of length up to 3", lines(4, 4, 3, &[1.0], true), |m, cx| comp_case::<u32, f64>(m, 0, cx));
        one(s, "3 nodes/every row sequence of length up to 5", lines(3, 3, 5, &[1.0], true), |m, cx| comp_case::<u32, f64>(m, 0, cx));
    }
    one(s, "every undirected graph on 6 nodes", undirected(6, false, false), |m, cx| comp_case::<u16, f64>(m, 0, cx));
    one(s, "named graphs/usize", shape_en(th, false), |m, cx| comp_case::<usize, f64>(m, m.e.len() % 3, cx));
    one(s, "named graphs both ways/u16", shape_en(th, true), |m, cx| comp_case::<u16, f64>(m, 0, cx));
    one(s, "families/usize", families::<f64>(square(th), 3), |m, cx| comp_case::<usize, f64>(m, 0, cx));
    one(s, "families/i32 complex", families::<Complex64>(square(false), 1), |m, cx| comp_case::<i32, Complex64>(m, 0, cx));
    nonsquare(s, |m, cx| {
        let a: CSR<usize, f64> = m.csr();
        for directed in [true, false] { for c in [Connection::Weak, Connection::Strong] {
            cx.op("connected_components");
            ck!(connected_components(&a, directed, c).is_err(), "connected_components accepts a {}x{} matrix", m.rows, m.cols);
        } }
        Ok(())
    });
    sweep(s, th, false, |m, cx| comp_case::<usize, f64>(m, 0, cx));
    deep(s, |m, cx| comp_case::<u32, f64>(m, 0, cx), false, if th { 300_000 } else { 70_001 });
    v
}
/// Every graph on three nodes, the first, a middle and the last of n, for n one by one; named graphs of every size.
fn sweep(s: &mut Vec<Space>, th: bool, sym: bool, f: impl Fn(&Tri<f64>, &mut Cx) -> R + Sync + Send + Clone + 'static) {
    let d = steps();
    let g = f.clone();
    s.push(space("three nodes at every distance", d.len() as u64 * 128, move |i, cx| {
        let (n, q) = (d[i as usize / 128] + 1, i as usize % 64);
        let x = [0, if i / 64 % 2 == 0 { n / 2 } else { n - 2 }, n - 1];
        let e: Vec<_> = [(0, 1), (1, 2), (2, 0), (0, 2), (2, 1), (1, 0)].iter().enumerate().filter(|(k, _)| q >> k & 1 == 1).map(|(_, p)| (x[p.0], x[p.1])).collect();
        g(&stored(n, &e, 0, sym), cx)
    }));
    let mut l: Vec<(usize, usize, usize)> = vec![];
    for n in 1..=270 { for k in 0..shapes(n).len() { for o in if th { vec![0, 1, 2, 3, 4, 5] } else { vec![(n + k) % 6] } { l.push((n, k, o)) } } }
    s.push(space("named graphs of every size", l.len() as u64, move |i, cx| { let (n, k, o) = l[i as usize]; f(&stored(n, &shapes(n)[k], o, sym), cx) }));
}
/// Deep graphs: recursion depth and linear chains (checked with the quadratic-free classes where possible).
fn deep(s: &mut Vec<Space>, f: impl Fn(&Tri<f64>, &mut Cx) -> R + Sync + Send + 'static, sym: bool, n: usize) {
    // the shapes that have few classes, so that the oracle stays linear
    let g: Vec<Vec<(usize, usize)>> = {
        let path: Vec<_> = (1..n).map(|i| (i - 1, i)).collect();
        let mut cyc = path.clone();
        cyc.push((n - 1, 0));
        let mut rev: Vec<_> = cyc.iter().map(|e| (e.1, e.0)).collect();
        rev.push((0, n / 2));
        let both = path.iter().flat_map(|e| [(e.0, e.1), (e.1, e.0)]).collect();
        let perm = (0..n).flat_map(|i| [(i, (i * 7 + 1) % n), (i, (i + 1) % n)]).collect();
        // many classes: rings of 3 and 5 and single nodes, linked forwards and backwards
        let rings = |l: bool| (0..n / 9).flat_map(move |b| { let x = 9 * b; let mut e = vec![(x, x + 1), (x + 1, x + 2), (x + 2, x), (x + 3, x + 4), (x + 4, x + 5), (x + 5, x + 6), (x + 6, x + 7), (x + 7, x + 3)]; if b > 0 { e.extend(if l { [(x - 1, x), (x - 2, x + 4)] } else { [(x, x - 1), (x + 4, x - 2)] }) } e }).collect::<Vec<_>>();
        vec![cyc, rev, both, perm, rings(true), rings(false)]
    };
    s.push(space(format!("deep graphs on {n} nodes"), 18, move |i, cx| f(&stored(n, &g[i as usize % 6], i as usize / 6, sym), cx)));
}
pub fn c15(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    let all = |n: usize| (0..n).collect::<Vec<_>>();
    for n in 1..=4 { let st = all(n); one(s, &format!("every digraph on {n} nodes"), digraphs(n, true, false), move |m, cx| dfs_case::<usize, f64>(m, &st, 0, cx)) }
    for (n, l) in [(2, 4), (3, 3), (1, 6), (4, 2)] { let st = all(n); one(s, &format!("{n} nodes/every row sequence of length up to {l}"), lines(n, n, l, &[1.0], true), move |m, cx| dfs_case::<u32, f64>(m, &st, n % 2, cx)) }
    one(s, "2 nodes/with stored zeros", lines(2, 2, 3, &[1.0, 0.0], true), |m, cx| dfs_case::<i16, f64>(m, &[0, 1], 1, cx));
    one(s, "4 nodes/every neighbour order", ordered(4, false), |m, cx| dfs_case::<usize, f64>(m, &[0, 1, 2, 3], 0, cx));
    one(s, "every digraph on 5 nodes without self edges", digraphs(5, false, false), move |m, cx| dfs_case::<u8, f64>(m, if th { &[0, 1, 2, 3, 4] } else { &[0, 3] }, 0, cx));
    one(s, "every digraph on 5 nodes without self edges/descending", digraphs(5, false, true), move |m, cx| dfs_case::<i8, f64>(m, if th { &[0, 1, 2, 3, 4] } else { &[2] }, 0, cx));
    if th {
        one(s, "every digraph on 5 nodes", digraphs(5, true, false), |m, cx| dfs_case::<usize, f64>(m, &[0, 2], 0, cx));
        one(s, "4 nodes/every neighbour order with self edges", ordered(4, true), |m, cx| dfs_case::<usize, f64>(m, &[0, 2], 0, cx));
        one(s, "4 nodes/every row sequence of length up to 3", lines(4, 4, 3, &[1.0], true), |m, cx| dfs_case::<u32, f64>(m, &[1], 0, cx));
    }
    one(s, "every undirected graph on 6 nodes", undirected(6, false, false), |m, cx| dfs_case::<u16, f64>(m, &[0, 1, 2, 3, 4, 5], 0, cx));
    one(s, "named graphs/usize", shape_en(th, false), |m, cx| dfs_case::<usize, f64>(m, &starts(m.rows), m.e.len() % 3, cx));
    one(s, "named graphs both ways/u16", shape_en(th, true), |m, cx| dfs_case::<u16, f64>(m, &starts(m.rows), 0, cx));
    one(s, "families/usize", families::<f64>(square(th), 3), |m, cx| dfs_case::<usize, f64>(m, &starts(m.rows), 0, cx));
    one(s, "families/i32 complex", families::<Complex64>(square(false), 1), |m, cx| dfs_case::<i32, Complex64>(m, &starts(m.rows), 0, cx));
    nonsquare(s, |m, cx| {
        let a: CSR<usize, f64> = m.csr();
        for directed in [true, false] {
            cx.op("depth_first_order");
            ck!(depth_first_order(&a, 0, directed).is_err(), "depth_first_order accepts a {}x{} matrix", m.rows, m.cols);
        }
        Ok(())
    });
    sweep(s, th, false, |m, cx| dfs_case::<usize, f64>(m, &[0, m.rows / 2, m.rows - 1], 0, cx));
    deep(s, |m, cx| dfs_case::<u32, f64>(m, &[0, m.rows / 2, m.rows - 1], 0, cx), false, if th { 300_000 } else { 70_001 });
    v
}
pub fn c16(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let s = &mut v;
    for n in 0..=5 { one(s, &format!("every symmetric graph on {n} nodes"), undirected(n, true, false), |m, cx| sym_case::<usize, i32, f64>(m, 0, cx)) }
    one(s, "every symmetric graph on 6 nodes without self edges", undirected(6, false, false), |m, cx| sym_case::<u8, i8, f64>(m, 0, cx));
    one(s, "every symmetric graph on 6 nodes without self edges/other order", undirected(6, false, true), |m, cx| sym_case::<i16, i64, f64>(m, 1, cx));
    one(s, "every symmetric graph on 6 nodes", undirected(6, true, false), |m, cx| sym_case::<u32, i16, f64>(m, 0, cx));
    one(s, "every symmetric graph on 7 nodes without self edges", undirected(7, false, false), |m, cx| sym_case::<usize, isize, f64>(m, 0, cx));
    let keep = |f: fn(&Tri<f64>, usize, &mut Cx) -> R| move |m: &Tri<f64>, cx: &mut Cx| if symmetric(m) { f(m, m.e.len() % 3, cx) } else { Ok(()) };
    for (n, l) in [(2, 4), (3, 3), (4, 2), (1, 6)] { one(s, &format!("{n} nodes/every symmetric choice of row sequences of length up to {l}"), lines(n, n, l, &[1.0], true), keep(sym_case::<usize, i32, f64>)) }
    one(s, "4 nodes/every symmetric neighbour order", ordered(4, false), keep(sym_case::<u64, i128, f64>));
    one(s, "3 nodes/with stored zeros", lines(3, 3, 2, &[1.0, 0.0], true), keep(sym_case::<i32, i8, f64>));
    if th {
        one(s, "4 nodes/every symmetric neighbour order with self edges", ordered(4, true), keep(sym_case::<usize, i32, f64>));
        one(s, "every symmetric graph on 7 nodes", undirected(7, true, false), |m, cx| sym_case::<usize, i32, f64>(m, 0, cx));
    }
    one(s, "named graphs/usize i32", shape_en(th, true), |m, cx| sym_case::<usize, i32, f64>(m, m.e.len() % 3, cx));
    one(s, "families/usize i64", families::<f64>(square(th), 2).map(sym_of), |m, cx| sym_case::<usize, i64, f64>(m, 0, cx));
    one(s, "families/u16 i16 complex", families::<f64>(square(false), 1).map(sym_of), |m, cx| sym_case::<u16, i16, Complex64>(&m.map(|v| Complex64::new(v, 1.0)), 0, cx));
    nonsquare(s, |m, cx| {
        let a: CSR<usize, f64> = m.csr();
        cx.op("CSR::connected_components");
        ck!(a.connected_components::<i32>().is_err(), "CSR::connected_components accepts a {}x{} matrix", m.rows, m.cols);
        Ok(())
    });
    // the labels fill their type: 127 components with i8 labels, 255 nodes with u8 indexes
    s.push(space("label limits", 130, |i, cx| {
        let k = i as usize; // k pairs, or k loops
        if k <= 63 { sym_case::<u8, i8, f64>(&Tri::new(127, 127, (0..k).flat_map(|q| [(2 * q, 2 * q + 1, 1.0), (2 * q + 1, 2 * q, 1.0)]).collect()), 0, cx)?; }
        sym_case::<u8, i8, f64>(&Tri::new(128, 128, (0..k.min(128)).map(|q| (q, q, 1.0)).collect()), 0, cx)
    }));
    sweep(s, th, true, |m, cx| sym_case::<usize, i32, f64>(m, 0, cx));
    deep(s, |m, cx| sym_case::<u32, i32, f64>(m, 0, cx), true, if th { 100_001 } else { 70_001 });
    v
}
fn sym_of(mut m: Tri<f64>) -> Tri<f64> { let mut f: Vec<_> = m.e.iter().rev().map(|e| (e.1, e.0, e.2)).collect(); m.e.append(&mut f); m }
