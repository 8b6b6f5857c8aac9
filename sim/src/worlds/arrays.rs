//! Coordinate arrays: in-place and derived operations on arrays exchanged between replicas.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::sync::Arc;

const OPS: &[&str] = &[
    "new", "scroll", "scroll_to_coordinate", "scroll_ensure_ring", "copy_section", "enforce", "enforce_dimension",
    "extract", "remove_repeated", "remove_invalid", "at_least", "intersection", "read", "compare", "send", "recv", "checkpoint", "crash_restart",
];
const NEW: usize = 0;
const SCROLL: usize = 1;
const SCROLLC: usize = 2;
const SCROLLE: usize = 3;
const SECTION: usize = 4;
const ENF: usize = 5;
const ENFD: usize = 6;
const EXTRACT: usize = 7;
const REMREP: usize = 8;
const REMINV: usize = 9;
const ATLEAST: usize = 10;
const INTERS: usize = 11;
const READ: usize = 12;
const CMP: usize = 13;
const SEND: usize = 14;
const RECV: usize = 15;
const CKPT: usize = 16;
const CRASHR: usize = 17;
const PROBES: &[&str] = &[
    "ring scrolled", "open array scrolled", "coordinate not found", "dimensions differed", "repeated removed", "invalid removed",
    "extract clamped", "nothing extracted", "equal reversed", "allocation failed inside an operation", "restored", "disjoint from envelope",
];

type M = Vec<C4>;
type V = Vec<Coordinate>;
struct Node {
    e: V,
    m: M,
    ck: (V, M),
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<Arc<(V, M)>>>>,
}
fn x(c: &C4, d: usize) -> f64 {
    f64::from_bits(c[d])
}
fn finite(m: &M) -> bool {
    m.iter().all(|c| x(c, 0).is_finite() && x(c, 1).is_finite())
}
fn valid(c: &C4) -> bool {
    x(c, 0).is_finite() && x(c, 1).is_finite()
}
fn ring(m: &M) -> bool {
    m.len() >= 4 && eq2(&m[0], &m[m.len() - 1])
}
fn dim(c: &C4) -> i32 {
    2 + !x(c, 2).is_nan() as i32 + !x(c, 3).is_nan() as i32
}
fn meas(c: &C4) -> i32 {
    !x(c, 3).is_nan() as i32
}
fn cmp(a: &C4, b: &C4) -> i32 {
    for d in 0..2 {
        if x(a, d) != x(b, d) {
            return if x(a, d) < x(b, d) { -1 } else { 1 };
        }
    }
    0
}
fn dedup(m: &M) -> M {
    let mut o: M = vec![];
    for c in m {
        if !o.last().is_some_and(|l| eq2(l, c)) {
            o.push(*c)
        }
    }
    o
}
fn scroll(m: &mut M, i: usize, ring: bool) {
    if i == 0 {
        return;
    }
    let n = m.len();
    let last = if ring { n - 1 } else { n };
    if last > 0 {
        m[..last].rotate_left(i % last);
        if ring {
            m[last] = m[0];
        }
    }
}
fn is(what: &str, e: &V, m: &M) -> Res {
    let g = bits_of(e);
    check!(g == *m, "content: {what}: array is {}, expected {}", show4(&g), show4(m));
    Ok(())
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        let len = n.m.len();
        let idx = |k: usize| it.ii(k).rem_euclid(len.max(1) as i64) as usize;
        // result of a derived operation: judged, then perhaps kept
        macro_rules! derived {
            ($want:expr, $e:expr) => {{
                let want: M = $want;
                let v = cx.must(op, || $e)?;
                is(op, &v, &want)?;
                is("argument", &n.e, &n.m)?;
                if it.ii(9) == 1 {
                    n.e = v;
                    n.m = want;
                }
            }};
        }
        match it.op {
            NEW => {
                n.m = quads(&it.f);
                n.e = coords(&n.m);
            }
            SCROLL if len > 0 => {
                let i = idx(0);
                let r = ring(&n.m);
                cx.probe(!r as usize);
                cx.must(op, || CoordinateArrays::scroll_index(&mut n.e, i))?;
                scroll(&mut n.m, i, r);
            }
            SCROLLE if len > 0 => {
                let (i, r) = (idx(0), it.ii(1) == 1);
                cx.must(op, || CoordinateArrays::scroll_index_ensure_ring(&mut n.e, i, r))?;
                scroll(&mut n.m, i, r);
            }
            SCROLLC => {
                let c = if it.ii(1) == 1 && len > 0 { n.m[idx(0)] } else { *quads(&it.f).first().unwrap_or(&[0; 4]) };
                let q = coord(&c);
                cx.must(op, || CoordinateArrays::scroll_coordinate(&mut n.e, &q))?;
                match n.m.iter().position(|a| eq2(a, &c)) {
                    Some(i) => {
                        let r = ring(&n.m);
                        scroll(&mut n.m, i, r)
                    }
                    None => cx.probe(2),
                }
            }
            SECTION if len > 0 => {
                let (a, b) = (idx(0), idx(1));
                let k = it.ii(2).rem_euclid((len - a.max(b)) as i64 + 1) as usize;
                let src = n.e.clone();
                cx.must(op, || CoordinateArrays::copy_deep_to(&src, a, &mut n.e, b, k))?;
                let m = n.m.clone();
                n.m[b..b + k].copy_from_slice(&m[a..a + k]);
                is("source of a section", &src, &m)?;
            }
            ENF if finite(&n.m) => {
                let want = n.m.clone();
                let d = want.iter().map(dim).max().unwrap_or(0);
                let mm = want.iter().map(meas).max().unwrap_or(0);
                let mixed = want.iter().any(|c| dim(c) != d || meas(c) != mm);
                cx.must(op, || CoordinateArrays::enforce_consistency(&mut n.e))?;
                let g = bits_of(&n.e);
                check!(g.len() == want.len(), "content: enforcing one dimension left {} of {} coordinates", g.len(), want.len());
                if mixed {
                    cx.probe(3);
                }
                for (a, b) in g.iter().zip(&want) {
                    // an absent measure may be filled in, nothing else may change
                    let fill = mixed && mm > 0 && meas(b) == 0;
                    check!(a[..3] == b[..3] && (fill || a[3] == b[3]), "content: enforcing one dimension turned {} into {}", show4(&[*b]), show4(&[*a]));
                }
                n.m = g;
            }
            ENFD if finite(&n.m) => {
                let (d, me) = [(2, 0), (3, 0), (3, 1), (4, 1)][it.ii(0).rem_euclid(4) as usize];
                let v = cx.must(op, || CoordinateArrays::enforce_consistency_dim_measures(&n.e, d, me))?;
                is("argument of enforcing a dimension", &n.e, &n.m)?;
                let g = bits_of(&v);
                check!(g.len() == len, "content: enforcing a dimension left {} of {len} coordinates", g.len());
                for (a, b) in g.iter().zip(&n.m) {
                    let z = if d - me == 3 { b[2] } else { fb(f64::NAN) };
                    let fill = me > 0 && meas(b) == 0;
                    let m = if me > 0 { b[3] } else { fb(f64::NAN) };
                    // absent Z or M may be filled in
                    let zf = d - me == 3 && x(b, 2).is_nan();
                    check!(a[..2] == b[..2] && (zf || a[2] == z) && (fill || a[3] == m), "content: enforcing dimension {d} with {me} measures turned {} into {}", show4(&[*b]), show4(&[*a]));
                }
                if it.ii(9) == 1 {
                    n.e = v;
                    n.m = g;
                }
            }
            EXTRACT => {
                let (a, b) = (it.ii(0).max(0) as usize, it.ii(1).max(0) as usize);
                let none = len == 0 || a >= len || b < a;
                cx.probe(if none { 7 } else { 6 });
                derived!(if none { vec![] } else { n.m[a..=b.min(len - 1)].to_vec() }, CoordinateArrays::extract(&n.e, a, b));
            }
            REMREP => {
                if dedup(&n.m).len() != len {
                    cx.probe(4);
                }
                derived!(dedup(&n.m), CoordinateArrays::remove_repeated_points(&n.e));
            }
            REMINV => {
                let v: M = n.m.iter().filter(|c| valid(c)).copied().collect();
                if v.len() != len {
                    cx.probe(5);
                }
                derived!(dedup(&v), CoordinateArrays::remove_repeated_or_invalid_points(&n.e));
            }
            ATLEAST => {
                let k = it.ii(0).max(0) as usize;
                derived!(if len >= k { n.m.clone() } else { vec![] }, CoordinateArrays::at_least_n_coordinates_or_nothing(k, &n.e));
            }
            INTERS if finite(&n.m) && it.f.len() >= 4 && it.f[..4].iter().all(|v| v.is_finite()) => {
                let e = if it.ii(0) == 0 { Envelope::default() } else { Envelope::new_xy(it.f[0], it.f[1], it.f[2], it.f[3]) };
                let (x0, x1, y0, y1) = (it.f[0].min(it.f[1]), it.f[0].max(it.f[1]), it.f[2].min(it.f[3]), it.f[2].max(it.f[3]));
                let w: M = n.m.iter().filter(|c| it.ii(0) != 0 && x(c, 0) >= x0 && x(c, 0) <= x1 && x(c, 1) >= y0 && x(c, 1) <= y1).copied().collect();
                if w.is_empty() {
                    cx.probe(11);
                }
                derived!(w, CoordinateArrays::intersection(&n.e, &e));
            }
            READ => self.read(cx, it)?,
            CMP => {
                let Some(Some(o)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                let w = o.1.len() == len && n.m.iter().zip(&o.1).all(|(a, b)| eq2(a, b));
                let g = cx.must("equals", || CoordinateArrays::equals(&n.e, &o.0))?;
                check!(g == w, "equality: {} and {} are equal: {g}", show4(&n.m), show4(&o.1));
                if len * o.1.len() <= 1_000_000 {
                    let w = n.m.iter().find(|c| !o.1.iter().any(|d| eq2(c, d))).copied();
                    let g = cx.must("pt_not_in_list", || CoordinateArrays::pt_not_in_list(&n.e, &o.0))?.map(|c| bits(&c));
                    check!(g == w, "search: first point of {} not in {} is {g:?}, expected {w:?}", show4(&n.m), show4(&o.1));
                }
                if finite(&n.m) && finite(&o.1) {
                    let w = n.m.iter().zip(&o.1).map(|(a, b)| cmp(a, b)).find(|c| *c != 0).unwrap_or((len as i32 - o.1.len() as i32).signum());
                    let g = cx.must("compare", || CoordinateArrays::compare(&n.e, &o.0))?;
                    check!(g.signum() == w, "order: comparing {} with {} gives {g}", show4(&n.m), show4(&o.1));
                    if o.1.len() == len {
                        let w = n.m.iter().zip(o.1.iter().rev()).all(|(a, b)| eq2(a, b));
                        if w {
                            cx.probe(8);
                        }
                        let g = cx.must("is_equal_reversed", || CoordinateArrays::is_equal_reversed(&n.e, &o.0))?;
                        check!(g == w, "equality: {} is {} reversed: {g}", show4(&n.m), show4(&o.1));
                    }
                }
                is("compared", &o.0, &o.1)?;
            }
            SEND => {
                let k = it.ii(0) as usize;
                let v = cx.must("copy_deep", || CoordinateArrays::copy_deep(&n.e))?;
                let mb = self.mail.get();
                while mb.len() <= k {
                    mb.push(None);
                }
                mb[k] = Some(Arc::new((v, n.m.clone())));
            }
            RECV => {
                let Some(Some(o)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                let ol = o.1.len();
                if it.ii(1) == 0 || len == 0 || ol == 0 {
                    n.e = cx.must("copy_deep", || CoordinateArrays::copy_deep(&o.0))?;
                    n.m = o.1.clone();
                } else {
                    let (s, d) = (it.ii(2).rem_euclid(ol as i64) as usize, idx(3));
                    let k = (ol - s).min(len - d);
                    cx.must("copy_deep_to", || CoordinateArrays::copy_deep_to(&o.0, s, &mut n.e, d, k))?;
                    n.m[d..d + k].copy_from_slice(&o.1[s..s + k]);
                }
                is("delivered", &o.0, &o.1)?;
                cx.nontrivial();
            }
            CKPT => n.ck = (n.e.clone(), n.m.clone()),
            CRASHR => {
                (n.e, n.m) = n.ck.clone();
                cx.probe(10);
                cx.nontrivial();
            }
            _ => {}
        }
        Ok(())
    }
    fn read(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let (e, m) = (&n.e, &n.m);
        let sh = || show4(m);
        let g = cx.must("is_ring", || CoordinateArrays::is_ring(e))?;
        check!(g == ring(m), "ring: {} is a ring: {g}", sh());
        let rep = dedup(m).len() != m.len();
        let g = cx.must("has_repeated_points", || CoordinateArrays::has_repeated_points(e))?;
        check!(g == rep, "repeats: {} has repeated points: {g}", sh());
        let g = cx.must("has_repeated_or_invalid_points", || CoordinateArrays::has_repeated_or_invalid_points(e))?;
        let w = rep || !m.iter().all(valid);
        check!(g == w, "repeats: {} has repeated or invalid points: {g}", sh());
        if !m.is_empty() {
            let c = m[it.ii(0).rem_euclid(m.len() as i64) as usize];
            let q = coord(&c);
            let w = m.iter().position(|a| eq2(a, &c)).map(|k| k as i32).unwrap_or(-1);
            let g = cx.must("index_of", || CoordinateArrays::index_of(&q, e))?;
            check!(g == w, "search: index of {} in {} is {g}, expected {w}", show4(&[c]), sh());
        }
        if !finite(m) {
            return Ok(());
        }
        let w = m.iter().copied().reduce(|a, b| if cmp(&a, &b) > 0 { b } else { a });
        let g = cx.must("min_coordinate", || CoordinateArrays::min_coordinate(e))?.map(|c| bits(&c));
        check!(g == w, "minimum: of {} is {g:?}, expected {w:?}", sh());
        let w = m.iter().zip(m.iter().rev()).map(|(a, b)| cmp(a, b)).find(|c| *c != 0).unwrap_or(1);
        let g = cx.must("increasing_direction", || CoordinateArrays::increasing_direction(e))?;
        check!(g == w, "direction: of {} is {g}, expected {w}", sh());
        if !m.is_empty() {
            let w = (m.iter().map(dim).max().unwrap(), m.iter().map(meas).max().unwrap());
            let g = cx.must("dimension", || (CoordinateArrays::dimension(e), CoordinateArrays::measures(e)))?;
            check!(g == w, "dimension: of {} is {g:?}, expected {w:?}", sh());
        }
        let v = cx.must("envelope", || CoordinateArrays::envelope(e))?;
        let fx = |f: fn(f64, f64) -> f64, i: f64, d: usize| m.iter().fold(i, |a, r| f(a, x(r, d)));
        let w = [fx(f64::min, f64::INFINITY, 0), fx(f64::max, f64::NEG_INFINITY, 0), fx(f64::min, f64::INFINITY, 1), fx(f64::max, f64::NEG_INFINITY, 1)];
        let g = [v.get_min_x(), v.get_max_x(), v.get_min_y(), v.get_max_y()];
        check!(if m.is_empty() { v.is_null() } else { g == w }, "envelope: of {} is {g:?}, expected {w:?}", sh());
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let before = self.nodes[cx.client].get().m.clone();
        let mut r = self.step(cx, it);
        cx.calm();
        if let Err(Stop::Oom) = r {
            cx.probe(9);
            cx.nontrivial();
            let n = self.nodes[cx.client].get();
            n.e = coords(&before);
            n.m = before;
            r = self.step(cx, it);
        }
        r?;
        let n = self.nodes[cx.client].get();
        is(&format!("after {}", OPS[it.op]), &n.e, &n.m)?;
        cx.log(n.m.len() as u64);
        for c in n.m.iter().flatten() {
            cx.log(*c);
        }
        Ok(())
    }
    fn finish(&self, _cx: &Cx) -> Res {
        for (k, n) in self.nodes.iter().enumerate() {
            is(&format!("node {k} at the end"), &n.get().e, &n.get().m)?;
        }
        for a in self.mail.get().iter().flatten() {
            is("message at the end", &a.0, &a.1)?;
        }
        Ok(())
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let wide = crowded(index, 601);
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let mut pool: Vec<f64> = (0..2 + r.us(4)).map(|_| val(r, st)).collect();
    near(r, &mut pool, false);
    if r.one_in(6) {
        pool.push(*r.pick(&[0.0, -0.0, f64::INFINITY, f64::NAN, f64::NEG_INFINITY]));
    }
    let kind = r.below(6);
    let huge = r.one_in(60);
    let many = |r: &mut Rng| -> Vec<f64> {
        if wide && r.chance(0.75) {
            let (extra, k) = (r.below(4), r.below(5));
            return crowd(r, 4, extra, k);
        }
        let n = if huge && r.one_in(2) { 200 + r.us(500) } else { r.count(10) };
        let mut f: Vec<f64> = (0..n).flat_map(|_| quad(r, &pool, kind)).collect();
        if n > 1 && r.one_in(2) {
            let (a, b) = (f[0], f[1]);
            f[(n - 1) * 4] = a;
            f[(n - 1) * 4 + 1] = b;
        }
        f
    };
    for c in 0..nodes {
        g.ev.push((0, item(c, NEW, vec![], many(r))));
    }
    let n = 4 + r.us(24);
    let n = if wide { n } else { hist(r, n) };
    for _ in 0..n {
        let c = r.us(nodes);
        let at = |r: &mut Rng| if wide { r.range(0, 1 << 20) } else { place(r, 12) };
        let (p, q, s) = (at(r), at(r), at(r));
        // sections are given by true positions
        let (u, v) = if wide { (r.range(0, 70_000), r.range(0, 80_000)) } else if huge { (r.range(0, 600), r.range(0, 700)) } else if r.one_in(5) { (r.range(0, 150), r.range(0, 150)) } else { (r.range(0, 12), r.range(0, 12)) };
        let keep = r.one_in(2) as i64;
        let k9 = |a: Vec<i64>| {
            let mut a = a;
            a.resize(9, 0);
            a.push(keep);
            a
        };
        let it = match r.below(20) {
            0 => item(c, NEW, vec![], many(r)),
            1 | 2 => item(c, SCROLL, vec![p], vec![]),
            3 => item(c, SCROLLC, vec![p, r.range(0, 3).min(1)], quad(r, &pool, kind)),
            4 => item(c, SCROLLE, vec![p, r.range(0, 1)], vec![]),
            5 => item(c, SECTION, vec![p, q, s], vec![]),
            6 => item(c, ENF, vec![], vec![]),
            7 => item(c, ENFD, k9(vec![r.range(0, 3)]), vec![]),
            8 => item(c, EXTRACT, k9(vec![u, v]), vec![]),
            9 => item(c, REMREP, k9(vec![]), vec![]),
            10 => item(c, REMINV, k9(vec![]), vec![]),
            11 => item(c, ATLEAST, k9(vec![r.count(8) as i64]), vec![]),
            12 => item(c, INTERS, k9(vec![r.range(0, 6)]), (0..4).map(|_| *r.pick(&pool)).collect()),
            13 | 14 => item(c, READ, vec![p], vec![]),
            15 | 16 => item(c, CMP, vec![r.range(0, 6)], vec![]),
            17 => item(c, CKPT, vec![], vec![]),
            18 if r.one_in(2) => {
                g.crash(r, c, CRASHR);
                continue;
            }
            _ => {
                let n0 = g.ev.len();
                g.send(r, c, SEND, RECV);
                for e in &mut g.ev[n0 + 1..] {
                    e.1.i = vec![e.1.i[0], e.1.i[1].min(1), p, q];
                }
                continue;
            }
        };
        g.at(it, r);
    }
    if !wide {
        g.drill(r);
    }
    g.build(r, &Mix { threads: 0.3, oom: 0.4, max_gap: 300 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W { nodes: (0..clients(c)).map(|_| Own::new(Node { e: vec![], m: vec![], ck: (vec![], vec![]) })).collect(), mail: Own::new(vec![]) })
}
pub const DEF: Def = Def {
    id: "C11",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 180_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if an array took a delivered one, was restored after a crash, or had an allocation fail inside an operation; distinct by event-log hash",
    real: &["CoordinateArrays", "CoordinateList", "Coordinates", "Coordinate", "Envelope"],
    stub: &["network, checkpoint store and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
