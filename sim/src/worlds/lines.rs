//! Segment intersection: long-lived intersectors working through delivered segment pairs.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::oracle::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::collections::HashMap;

const OPS: &[&str] = &["pair", "point", "set_precision", "restart"];
const PAIR: usize = 0;
const POINT: usize = 1;
const SETP: usize = 2;
const RESTART_: usize = 3;
const PROBES: &[&str] = &[
    "disjoint", "proper crossing", "touching at a vertex", "collinear overlap", "collinear touch", "zero-length segment", "point on segment",
    "precision model set", "same pair again", "nearly parallel crossing", "Z interpolated", "answered by two intersectors",
    "crossing of wide coordinates", "Z of a vertex on a segment",
];

struct Node {
    li: RobustLineIntersector,
    scale: f64,
    dirty: bool,
}
type Ans = Vec<u64>;
struct W {
    nodes: Vec<Own<Node>>,
    /// first answer to each pair under each precision, with the client
    first: Own<HashMap<(i64, u64), (usize, Ans)>>,
}
fn fresh(scale: f64) -> RobustLineIntersector {
    let mut l = RobustLineIntersector::default();
    if scale != 0.0 {
        l.set_precision_model(PrecisionModel::new_with_scale(scale));
    }
    l
}
fn solve(l: &mut RobustLineIntersector, c: &[Coordinate]) -> (bool, i32, [Coordinate; 2]) {
    l.compute_intersection_4(&c[0], &c[1], &c[2], &c[3]);
    let h = l.has_intersection();
    let p = [l.get_intersection(0), l.get_intersection(1)];
    // the kind of the intersection is only returned by the inner computation
    let k = l.compute_intersect(&c[0], &c[1], &c[2], &c[3]);
    (h, k, p)
}
fn answer(a: &(bool, i32, [Coordinate; 2])) -> Ans {
    let mut v = vec![a.0 as u64, a.1 as u64];
    for p in a.2.iter().take(a.1.clamp(0, 2) as usize) {
        v.extend(bits(p));
    }
    v
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        match it.op {
            PAIR => {
                let q = quads(&it.f);
                if q.len() < 4 {
                    return Ok(());
                }
                let c = coords(&q[..4]);
                let got = cx.must("compute_intersection", || solve(&mut n.li, &c))?;
                cx.calm();
                check!(bits_of(&c) == q[..4], "argument: the endpoints have changed");
                let f = cx.must("compute_intersection", || solve(&mut fresh(n.scale), &c))?;
                let (a, b) = (answer(&got), answer(&f));
                check!(a == b, "history: {} after other work gives {:?}, a new intersector {:?}", show4(&q[..4]), show(&got), show(&f));
                let key = (it.ii(0), n.scale.to_bits());
                let e = self.first.get();
                match e.get(&key) {
                    Some((who, x)) => {
                        cx.probe(if *who == cx.client { 8 } else { 11 });
                        if *who != cx.client {
                            cx.nontrivial();
                        }
                        check!(*x == a, "agreement: clients {who} and {} answer {} differently", cx.client, show4(&q[..4]));
                    }
                    None => {
                        e.insert(key, (cx.client, a.clone()));
                    }
                }
                if n.dirty {
                    cx.nontrivial();
                }
                n.dirty = true;
                for x in a {
                    cx.log(x);
                }
                exact(cx, &q, &c, &got, n.scale)
            }
            POINT => {
                let q = quads(&it.f);
                if q.len() < 3 {
                    return Ok(());
                }
                let c = coords(&q[..3]);
                let h = cx.must("compute_intersection", || {
                    n.li.compute_intersection_3(&c[0], &c[1], &c[2]);
                    n.li.has_intersection()
                })?;
                n.dirty = true;
                cx.log(h as u64);
                let v: Vec<f64> = c.iter().flat_map(|c| [c.x, c.y]).collect();
                if let Some((g, _)) = to_grid(&v) {
                    let p = |k: usize| (g[2 * k], g[2 * k + 1]);
                    let w = on_segment(p(0), p(1), p(2));
                    if w {
                        cx.probe(6);
                    }
                    check!(h == w, "classification: point {} on segment: {h}, expected {w}", show4(&q[..3]));
                }
                Ok(())
            }
            SETP => {
                let s = [1.0, 10.0, 1000.0, 0.5][it.ii(0).rem_euclid(4) as usize];
                cx.probe(7);
                let m = PrecisionModel::new_with_scale(s);
                cx.must("set_precision_model", || n.li.set_precision_model(m))?;
                n.scale = s;
                Ok(())
            }
            _ => {
                *n = Node { li: fresh(0.0), scale: 0.0, dirty: false };
                cx.nontrivial();
                Ok(())
            }
        }
    }
}
fn show(a: &(bool, i32, [Coordinate; 2])) -> String {
    format!("intersects {} kind {} {}", a.0, a.1, show4(&bits_of(&a.2[..a.1.clamp(0, 2) as usize])))
}
/// What exact arithmetic says about the pair.
fn exact(cx: &Cx, q: &[C4], c: &[Coordinate], got: &(bool, i32, [Coordinate; 2]), scale: f64) -> Res {
    let v: Vec<f64> = c.iter().take(4).flat_map(|c| [c.x, c.y]).collect();
    let Some((g, exp)) = to_grid(&v) else { return Ok(()) };
    let p = |k: usize| (g[2 * k], g[2 * k + 1]);
    let (a, b, d, e) = (p(0), p(1), p(2), p(3));
    let o = [orient(a, b, d), orient(a, b, e), orient(d, e, a), orient(d, e, b)];
    let on = [on_segment(a, d, e), on_segment(b, d, e), on_segment(d, a, b), on_segment(e, a, b)];
    let proper = o[0] * o[1] < 0 && o[2] * o[3] < 0;
    let meet = proper || on.iter().any(|x| *x);
    let (has, kind, pts) = got;
    let w = || format!("{}: {}", show4(&q[..4]), show(got));
    check!(*has == meet && (*kind != 0) == meet, "classification: segments meet {meet}, reported {}", w());
    if !meet {
        cx.probe(0);
        return Ok(());
    }
    let degenerate = a == b || d == e;
    if degenerate {
        cx.probe(5);
    }
    let same2 = |x: &Coordinate, k: usize| x.x == c[k].x && x.y == c[k].y;
    let zs: Vec<f64> = c[..4].iter().map(|c| c.z).filter(|z| !z.is_nan()).collect();
    for x in &pts[..*kind as usize] {
        // Z lies between the given ones, and is taken from a vertex where the point is that vertex
        if !x.z.is_nan() {
            let (lo, hi) = (zs.iter().fold(f64::INFINITY, |a, b| a.min(*b)), zs.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b)));
            let mut tol = 1e-9 * lo.abs().max(hi.abs());
            if scale != 0.0 {
                // a point rounded to the grid can pass the end of its segment, and Z goes on with its slope
                let steep = |k: usize, l: usize| {
                    let (dz, len) = ((c[l].z - c[k].z).abs(), (c[l].x - c[k].x).hypot(c[l].y - c[k].y));
                    if dz.is_nan() || len == 0.0 { 0.0 } else { dz / len }
                };
                tol += (steep(0, 1) + steep(2, 3)) * 0.7072 / scale;
            }
            check!(x.z >= lo - tol && x.z <= hi + tol, "elevation: {} is outside the given {lo}..{hi}: {}", x.z, w());
            cx.probe(10);
        }
        if !proper {
            let at: Vec<f64> = (0..4).filter(|k| same2(x, *k)).map(|k| c[k].z).filter(|z| !z.is_nan()).collect();
            // (a zero-length segment has no elevation of its own between its two ends)
            check!(degenerate || at.is_empty() || at.contains(&x.z), "elevation: {} at a vertex with {at:?}: {}", x.z, w());
        }
    }
    if proper {
        cx.probe(1);
        check!(*kind == 1, "classification: segments cross in one point: {}", w());
        if !zs.is_empty() {
            check!(!pts[0].z.is_nan(), "elevation: lost at a crossing: {}", w());
        }
        // (triple products of the ordinates have to fit a double)
        if exp > -300 && v.iter().all(|x| x.abs() < 1e95) {
            let (r, s) = ((b.0 - a.0, b.1 - a.1), (e.0 - d.0, e.1 - d.1));
            let den = r.0 * s.1 - r.1 * s.0;
            let t = (d.0 - a.0) * s.1 - (d.1 - a.1) * s.0;
            let (t, u) = (t as f64 / den as f64, ((d.0 - a.0) * r.1 - (d.1 - a.1) * r.0) as f64 / den as f64);
            // a + r * t, for coordinates of few bits exactly rounded
            let unit = 2f64.powi(exp);
            let small = g.iter().all(|x| x.abs() < 1 << 28);
            let coord = |o: i128, r: i128, n: i128| {
                if !small {
                    return (o as f64 + r as f64 * t) * unit;
                }
                let n = o * den + r * n;
                (n.div_euclid(den) as f64 + n.rem_euclid(den) as f64 / den as f64) * unit
            };
            let n = (d.0 - a.0) * s.1 - (d.1 - a.1) * s.0;
            let (x, y) = (coord(a.0, r.0, n), coord(a.1, r.1, n));
            let big = v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            if (den.unsigned_abs() as f64) < 1e-3 * ((r.0 * r.0 + r.1 * r.1) as f64).sqrt() * ((s.0 * s.0 + s.1 * s.1) as f64).sqrt() {
                cx.probe(9);
            }
            // 100-bit arithmetic, worse the more parallel the lines are
            let gb = g.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0) as f64;
            let mut tol = big * (1e-14 + if small { 0.0 } else { 1e-29 * gb * gb / den.unsigned_abs() as f64 });
            if !small {
                cx.probe(12);
            }
            if scale != 0.0 {
                // rounded to the grid, half a unit away at most
                tol += 0.5 / scale * (1.0 + 1e-9) + 1e-15 * big;
                for v in [pts[0].x, pts[0].y] {
                    let k = v * scale;
                    check!((k - k.round()).abs() <= 1e-15 * k.abs(), "precision: {v} is not a multiple of 1/{scale}: {}", w());
                }
            }
            check!((pts[0].x - x).abs() <= tol && (pts[0].y - y).abs() <= tol, "position: crossing is ({x}, {y}) within {tol:e}: {}", w());
            // Z is the mean of those of the two segments there
            let lz = |k: usize, t: f64| {
                let (p, q) = (c[k].z, c[k + 1].z);
                if p.is_nan() { q } else if q.is_nan() { p } else { p + (q - p) * t }
            };
            let (zp, zq) = (lz(0, t), lz(2, u));
            let z = if zp.is_nan() { zq } else if zq.is_nan() { zp } else { (zp + zq) / 2.0 };
            let slope = |k: usize| {
                let (dz, len) = ((c[k + 1].z - c[k].z).abs(), (c[k + 1].x - c[k].x).hypot(c[k + 1].y - c[k].y));
                if dz.is_nan() { 0.0 } else { dz / len }
            };
            let zt = 1e-9 + 3.0 * tol * (slope(0) + slope(2));
            check!(z.is_nan() && pts[0].z.is_nan() || (pts[0].z - z).abs() <= zt, "elevation: {} at a crossing, expected {z}: {}", pts[0].z, w());
        }
        if scale == 0.0 {
            for (k, l) in [(0, 1), (2, 3)] {
                let f = |x: f64, a: f64, b: f64| x >= a.min(b) && x <= a.max(b);
                check!(f(pts[0].x, c[k].x, c[l].x) && f(pts[0].y, c[k].y, c[l].y), "position: crossing outside the box of a segment: {}", w());
            }
        }
        return Ok(());
    }
    let collinear = o == [0; 4];
    if !degenerate {
        // Z of a vertex that has none of its own: that of the segment it lies on
        for x in &pts[..*kind as usize] {
            let at: Vec<usize> = (0..4).filter(|k| same2(x, *k)).collect();
            if at.iter().any(|k| !c[*k].z.is_nan()) {
                check!(!x.z.is_nan(), "elevation: lost at a vertex: {}", w());
            } else if let [k] = at[..] {
                let s = if k < 2 { 2 } else { 0 };
                let (p, q) = (&c[s], &c[s + 1]);
                let t = ((x.x - p.x).powi(2) + (x.y - p.y).powi(2)).sqrt() / ((q.x - p.x).powi(2) + (q.y - p.y).powi(2)).sqrt();
                let z = if p.z.is_nan() { q.z } else if q.z.is_nan() { p.z } else { p.z + (q.z - p.z) * t };
                if !z.is_nan() {
                    cx.probe(13);
                }
                check!(z.is_nan() && x.z.is_nan() || (x.z - z).abs() <= 1e-9, "elevation: {} at a vertex, expected {z}: {}", x.z, w());
            }
        }
    }
    if !collinear {
        cx.probe(2);
        check!(*kind == 1, "classification: segments touch in one point: {}", w());
        check!((0..4).any(|k| on[k] && same2(&pts[0], k)), "position: not a touching vertex: {}", w());
        return Ok(());
    }
    // the overlap of collinear segments: from the larger start to the smaller end
    let (lo, hi) = (a.min(b).max(d.min(e)), a.max(b).min(d.max(e)));
    let at = |x: &Coordinate| (0..4).find(|k| same2(x, *k)).map(|k| p(k));
    if lo == hi {
        cx.probe(4);
        check!(degenerate || *kind == 1, "classification: collinear segments touch in one point: {}", w());
        check!(pts[..*kind as usize].iter().all(|x| at(x) == Some(lo)), "position: not the common end: {}", w());
    } else {
        cx.probe(3);
        check!(*kind == 2, "classification: collinear segments overlap: {}", w());
        let (x, y) = (at(&pts[0]), at(&pts[1]));
        check!((x, y) == (Some(lo), Some(hi)) || (x, y) == (Some(hi), Some(lo)), "position: not the ends of the overlap: {}", w());
    }
    Ok(())
}
fn gen(r: &mut Rng, _index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let shape = r.below(4);
    let st = style(r);
    let zmode = r.below(3);
    let mut pool: Vec<f64> = (0..2 + r.us(6)).map(|_| if shape < 2 { intval(r) } else { val(r, st) }).collect();
    near(r, &mut pool, true);
    let k = 1.0 + r.below(1000) as f64;
    let pt = |r: &mut Rng| -> Vec<f64> {
        let (x, y) = (*r.pick(&pool), *r.pick(&pool));
        let (x, y) = match shape {
            1 => (x, x * 2.0 + if r.one_in(4) { 1.0 } else { 0.0 }), // mostly collinear
            2 => (x * k, y * k),
            _ => (x, y),
        };
        let z = match zmode {
            0 => f64::NAN,
            1 => r.range(-5, 5) as f64,
            _ => if r.one_in(2) { f64::NAN } else { r.range(-5, 5) as f64 },
        };
        vec![x, y, z, if r.one_in(4) { r.range(0, 9) as f64 } else { f64::NAN }]
    };
    let n = 2 + r.us(12);
    let many = hist(r, n);
    for id in 0..many {
        let mut f: Vec<f64> = (0..4).flat_map(|_| pt(r)).collect();
        match r.below(8) {
            0 => {
                // nearly parallel: the second segment is the first, nudged
                for d in 0..2 {
                    let j = r.range(-1, 1) as f64;
                    f[8 + d] = f[d] + j;
                    f[12 + d] = f[4 + d] - j;
                }
            }
            1 => {
                // a vertex shared or in the middle
                for d in 0..2 {
                    f[8 + d] = if r.one_in(2) { f[d] } else { (f[d] + f[4 + d]) / 2.0 };
                }
            }
            3 if f.iter().take(8).all(|x| x.is_nan() || x.fract() == 0.0 && x.abs() < 1e15) => {
                // an end as near to the other segment as it can be, or on it
                let w = if r.one_in(2) { 1.0 } else { (1u64 << r.us(48)) as f64 };
                let full = r.one_in(2);
                let m = 1i64 << (10 + r.us(39));
                for k in [0, 1, 4, 5] {
                    f[k] = if full { r.range(-m, m) as f64 } else { (f[k] + if r.one_in(2) { r.range(-9, 9) as f64 } else { 0.0 }) * w % 5e14 };
                }
                let (a, b) = ((f[0] as i64, f[1] as i64), (f[4] as i64, f[5] as i64));
                for k in 0..1 + r.us(2) {
                    let p = near_line(r, a, b);
                    f[8 + 4 * k] = p.0 as f64;
                    f[9 + 4 * k] = p.1 as f64;
                }
            }
            2 if r.one_in(2) => {
                f[4] = f[0];
                f[5] = f[1];
            }
            _ => {}
        }
        let t = r.below(g.horizon);
        for to in 0..nodes {
            if r.one_in(2) {
                for a in g.net.send(r, 0, to, t) {
                    g.ev.push((a, item(to, PAIR, vec![id as i64], f.clone())));
                }
            }
        }
    }
    for _ in 0..r.us(8) {
        let c = r.us(nodes);
        let it = match r.below(8) {
            0 => item(c, SETP, vec![r.range(0, 3)], vec![]),
            1 => {
                g.crash(r, c, RESTART_);
                continue;
            }
            _ => {
                let mut f: Vec<f64> = (0..3).flat_map(|_| pt(r)).collect();
                if r.one_in(3) {
                    for d in 0..2 {
                        f[d] = (f[4 + d] + f[8 + d]) / 2.0;
                    }
                }
                item(c, POINT, vec![], f)
            }
        };
        g.at(it, r);
    }
    g.drill(r);
    g.build(r, &Mix { threads: 0.4, oom: 0.1, max_gap: 1500 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { li: fresh(0.0), scale: 0.0, dirty: false })).collect(),
        first: Own::new(HashMap::new()),
    })
}
pub const DEF: Def = Def {
    id: "C07",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 180_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if an intersector was used again, restarted, or a pair was answered by two intersectors; distinct by event-log hash",
    real: &["RobustLineIntersector", "Intersection", "CGAlgorithmsDD", "DD", "Orientation", "Distance", "Envelope", "PrecisionModel"],
    stub: &["network and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
