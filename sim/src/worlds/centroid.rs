//! Centroids accumulated from parts that arrive in any order.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::collections::HashMap;

const OPS: &[&str] = &["deliver", "ask", "crash_restart", "whole", "converge"];
const DELIVER: usize = 0;
const ASK: usize = 1;
const CRASHR: usize = 2;
const WHOLE: usize = 3;
const CONV: usize = 4;
const PROBES: &[&str] = &[
    "area", "length only", "points only", "nothing yet", "flat ring", "hole", "area cancelled by a hole", "duplicate delivery ignored", "replayed after a crash",
    "replicas compared", "allocation failed inside an update", "polygon with many holes",
];
const POINT: i64 = 0;
const LINE: i64 = 1;
const SHELL: i64 = 2;
const HOLE: i64 = 3;
const POLY: i64 = 4;

/// a part: its kind and its rings (or its line, or its point)
#[derive(Clone)]
struct Comp {
    id: i64,
    kind: i64,
    rings: Vec<Vec<C4>>,
}
fn comp(it: &Item) -> Option<Comp> {
    let mut q = quads(&it.f).into_iter();
    let rings: Vec<Vec<C4>> = it.i.iter().skip(2).map(|n| q.by_ref().take((*n).clamp(0, 200_000) as usize).collect()).collect();
    let c = Comp { id: it.ii(0), kind: it.ii(1).rem_euclid(5), rings };
    if c.rings.is_empty() || (c.kind < 2 && c.rings.len() != 1) || (c.kind == POINT && c.rings[0].is_empty()) {
        return None;
    }
    // what shrinking left must still be closed rings
    let closed = |r: &Vec<C4>| r.is_empty() || (r.len() >= 3 && eq2(&r[0], r.last().unwrap()));
    if c.kind >= SHELL && !c.rings.iter().all(closed) {
        return None;
    }
    Some(c)
}
fn polygon(c: &Comp) -> Polygon {
    let h: Vec<LinearRing> = c.rings[1..].iter().map(|r| GeometryFactory::create_linear_ring_with_coordinates(&coords(r))).collect();
    Polygon::new_with_linear_ring_vec(&GeometryFactory::create_linear_ring_with_coordinates(&coords(&c.rings[0])), &h)
}
fn add(e: &mut Centroid, c: &Comp) {
    let v = coords(&c.rings[0]);
    match c.kind {
        POINT => v.iter().for_each(|p| e.add_point(p)),
        LINE => e.add_line_segments(&v),
        SHELL => e.add_shell(&v),
        HOLE => e.add_hole(&v),
        _ => e.add_polygon(&polygon(c)),
    }
}
#[derive(Clone, Debug, Default)]
struct Sum {
    area: i128,
    ax: i128,
    ay: i128,
    len: f64,
    lx: f64,
    ly: f64,
    n: i128,
    px: i128,
    py: i128,
    /// bounds on the sums of the absolute values of the terms
    mag2: f64,
    mag3: f64,
    terms: f64,
}
/// exact sums over the integer grid; lengths in floating point
fn sums(cx: &Cx, cs: &[Comp], unit: f64) -> Option<Sum> {
    let mut s = Sum::default();
    // the base of a hole delivered alone may be any shell's
    let (mut lo, mut hi) = ([f64::MAX; 2], [f64::MIN; 2]);
    for p in cs.iter().flat_map(|c| c.rings.iter().flatten()) {
        for k in 0..2 {
            lo[k] = lo[k].min(f64::from_bits(p[k]) / unit);
            hi[k] = hi[k].max(f64::from_bits(p[k]) / unit);
        }
    }
    let (w, h) = (hi[0] - lo[0], hi[1] - lo[1]);
    let big = lo.iter().chain(&hi).fold(0.0f64, |a, b| a.max(b.abs()));
    for c in cs {
        let mut base = None;
        for (k, r) in c.rings.iter().enumerate() {
            let mut g = vec![];
            for p in r {
                let (x, y) = (f64::from_bits(p[0]) / unit, f64::from_bits(p[1]) / unit);
                if x.fract() != 0.0 || y.fract() != 0.0 || x.abs() > 4e6 || y.abs() > 4e6 {
                    return None;
                }
                g.push((x as i128, y as i128));
            }
            let mut len = 0.0;
            if c.kind == POINT {
                s.n += g.len() as i128;
                s.px += g.iter().map(|p| p.0).sum::<i128>();
                s.py += g.iter().map(|p| p.1).sum::<i128>();
                continue;
            }
            for w in g.windows(2) {
                let l = f64::hypot((w[1].0 - w[0].0) as f64, (w[1].1 - w[0].1) as f64);
                len += l;
                s.lx += l * (w[0].0 + w[1].0) as f64 / 2.0;
                s.ly += l * (w[0].1 + w[1].1) as f64 / 2.0;
            }
            s.len += len;
            if len == 0.0 && !g.is_empty() {
                s.n += 1;
                s.px += g[0].0;
                s.py += g[0].1;
            }
            if c.kind >= SHELL && !g.is_empty() {
                let (mut a, mut x, mut y) = (0, 0, 0);
                if c.kind != HOLE && k == 0 {
                    base = Some(g[0]);
                }
                for v in g.windows(2) {
                    let m = match base {
                        Some(o) => ((v[0].0 - o.0) as f64 * (v[1].1 - o.1) as f64).abs() + ((v[1].0 - o.0) as f64 * (v[0].1 - o.1) as f64).abs(),
                        None => 2.0 * w * h,
                    };
                    s.mag2 += m;
                    s.mag3 += m * 3.0 * big;
                    s.terms += 1.0;
                }
                for w in g.windows(2) {
                    let d = w[0].0 * w[1].1 - w[1].0 * w[0].1;
                    a += d;
                    x += d * (w[0].0 + w[1].0);
                    y += d * (w[0].1 + w[1].1);
                }
                if a == 0 {
                    cx.probe(4);
                }
                let hole = c.kind == HOLE || k > 0;
                if hole {
                    cx.probe(5);
                }
                let f = if (a < 0) != hole { -1 } else { 1 };
                s.area += f * a;
                s.ax += f * x;
                s.ay += f * y;
            }
        }
    }
    Some(s)
}
/// the centroid: of the areas if there is any, else of the lines, else of the points
fn expected(cx: &Cx, cs: &[Comp], unit: f64) -> Option<Option<(f64, f64, f64, f64)>> {
    const EXACT: f64 = (1u64 << 53) as f64;
    let s = sums(cx, cs, unit)?;
    // whether there is an area at all must not depend on rounding
    if s.mag2 > EXACT {
        return None;
    }
    Some(if s.area != 0 {
        cx.probe(0);
        let d = 3.0 * s.area as f64;
        let slack = if s.mag3 <= EXACT { 0.0 } else { (s.terms + 4.0) * s.mag3 / d.abs() / EXACT * 2.0 * unit };
        Some((s.ax as f64 / d * unit, s.ay as f64 / d * unit, 2e-15, slack))
    } else {
        if cs.iter().any(|c| c.kind == HOLE || c.rings.len() > 1) {
            cx.probe(6);
        }
        if s.len > 0.0 {
            cx.probe(1);
            let many = cs.iter().flat_map(|c| &c.rings).map(|r| r.len()).sum::<usize>() as f64;
            Some((s.lx / s.len * unit, s.ly / s.len * unit, 1e-12f64.max(4.5e-16 * many), 0.0))
        } else if s.n > 0 {
            cx.probe(2);
            Some((s.px as f64 / s.n as f64 * unit, s.py as f64 / s.n as f64 * unit, 2e-15, 0.0))
        } else {
            cx.probe(3);
            None
        }
    })
}
fn describe(cs: &[Comp]) -> String {
    let mut s = String::new();
    for c in cs {
        s += &format!("#{} {}", c.id, ["point", "line", "shell", "hole", "polygon"][c.kind as usize]);
        for r in &c.rings {
            s += &show4(r);
        }
        s += "; ";
    }
    s
}
fn judge(cx: &Cx, what: &str, got: &Option<Coordinate>, cs: &[Comp], unit: f64) -> Res {
    let Some(w) = expected(cx, cs, unit) else { return Ok(()) };
    let big = cs.iter().flat_map(|c| c.rings.iter().flatten()).fold(0.0f64, |a, c| a.max(f64::from_bits(c[0]).abs()).max(f64::from_bits(c[1]).abs()));
    let ok = match (got, w) {
        (None, None) => true,
        (Some(g), Some((x, y, t, slack))) => {
            // lines: relative to the largest ordinate, the sums may cancel
            let f = |a: f64, b: f64| (a - b).abs() <= t * if t > 1e-13 { big } else { b.abs() } + slack;
            f(g.x, x) && f(g.y, y)
        }
        _ => false,
    };
    check!(ok, "centroid: {what}: {:?}, expected {:?} of {}", got.as_ref().map(|c| (c.x, c.y)), w, describe(cs));
    Ok(())
}
struct Node {
    e: Centroid,
    log: Vec<Comp>,
    last: Option<Coordinate>,
}
struct W {
    nodes: Vec<Own<Node>>,
    unit: f64,
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        match it.op {
            DELIVER => {
                let Some(c) = comp(it) else { return Ok(()) };
                if n.log.iter().any(|x| x.id == c.id) {
                    cx.probe(7);
                    cx.nontrivial();
                    return Ok(());
                }
                // a hole needs a shell before it
                if c.kind == HOLE && !n.log.iter().any(|x| x.kind >= SHELL && x.kind != HOLE && !x.rings[0].is_empty()) {
                    return Ok(());
                }
                if c.rings.len() > 17 {
                    cx.probe(11);
                }
                cx.must(op, || add(&mut n.e, &c))?;
                n.log.push(c);
            }
            ASK => {
                let (a, b) = cx.must(op, || (n.e.get_centroid(), n.e.get_centroid()))?;
                let f = |c: Option<Coordinate>| c.map(|c| bits(&c));
                check!(f(a) == f(b), "repeat: asking twice gives {:?} and {:?}", f(a), f(b));
            }
            CRASHR => {
                // the log is durable, the sums are not: replay it in another order, shells first
                let mut o: Vec<usize> = (0..n.log.len()).collect();
                Rng::new(it.ii(0) as u64).shuffle(&mut o);
                o.sort_by_key(|k| n.log[*k].kind == HOLE);
                let e = cx.must(op, || {
                    let mut e = Centroid::default();
                    o.iter().for_each(|k| add(&mut e, &n.log[*k]));
                    e
                })?;
                n.e = e;
                cx.probe(8);
                cx.nontrivial();
            }
            WHOLE => {
                let Some(c) = comp(it) else { return Ok(()) };
                if c.kind == POINT && c.rings[0].len() > 1 {
                    return Ok(());
                }
                let (a, cs) = match c.kind {
                    POINT => (cx.must(op, || Centroid::get_centroid_from_point(&GeometryFactory::create_point_from_coordinate(&coords(&c.rings[0])[0])))?, vec![c]),
                    LINE => (cx.must(op, || Centroid::new_from_line_string(&GeometryFactory::create_line_string_coordinates(&coords(&c.rings[0]))).get_centroid())?, vec![c]),
                    SHELL => {
                        // every ring a polygon of its own
                        let cs: Vec<Comp> = c.rings.iter().map(|r| Comp { id: 0, kind: POLY, rings: vec![r.clone()] }).collect();
                        let ps: Vec<Polygon> = cs.iter().map(polygon).collect();
                        let m = GeometryFactory::create_multi_polygon(&ps);
                        let (a, p) = cx.must(op, || (Centroid::get_centroid_from_multi_polygon(&m), m.get_centroid()))?;
                        if cs.iter().any(|c| !c.rings[0].is_empty()) {
                            judge(cx, "multi-polygon", &p.get_coordinate(), &cs, self.unit)?;
                        } else {
                            check!(p.is_empty(), "centroid: of an empty multi-polygon");
                        }
                        (a, cs)
                    }
                    _ => {
                        let g = polygon(&c);
                        let c = Comp { kind: POLY, ..c };
                        if c.rings[0].is_empty() {
                            return Ok(());
                        }
                        let (a, p) = cx.must(op, || (Centroid::get_centroid_from_polygon(&g), g.get_centroid()))?;
                        judge(cx, "polygon", &p.get_coordinate(), std::slice::from_ref(&c), self.unit)?;
                        (a, vec![c])
                    }
                };
                judge(cx, "at once", &a, &cs, self.unit)?;
            }
            _ => {
                // replicas that have the same parts give the same centroid
                let mut seen: HashMap<Vec<i64>, (usize, Option<Coordinate>)> = HashMap::new();
                for (k, n) in self.nodes.iter().enumerate() {
                    let n = n.get();
                    let mut ids: Vec<i64> = n.log.iter().map(|c| c.id).collect();
                    ids.sort_unstable();
                    let c = cx.must(op, || n.e.get_centroid())?;
                    judge(cx, "at the end", &c, &n.log, self.unit)?;
                    if let Some((j, d)) = seen.get(&ids) {
                        cx.probe(9);
                        cx.nontrivial();
                        let same = match (&c, d) {
                            (None, None) => true,
                            (Some(a), Some(b)) => {
                                let slack = expected(cx, &n.log, self.unit).flatten().map_or(f64::MAX, |e| e.3);
                                let t = 1e-9 * (a.x.abs().max(a.y.abs()).max(self.unit)) + 2.0 * slack;
                                (a.x - b.x).abs() <= t && (a.y - b.y).abs() <= t
                            }
                            _ => false,
                        };
                        check!(same, "convergence: replicas {j} and {k} hold the same parts but give {:?} and {:?}", d.map(|c| (c.x, c.y)), c.map(|c| (c.x, c.y)));
                    } else {
                        seen.insert(ids, (k, c));
                    }
                }
            }
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let r = self.step(cx, it);
        let n = self.nodes[cx.client].get();
        if let Err(Stop::Oom) = r {
            cx.calm();
            cx.probe(10);
            cx.nontrivial();
            // a polygon may have been added in part: start again from the log
            let mut e = Centroid::default();
            n.log.iter().for_each(|c| add(&mut e, c));
            n.e = e;
            return r;
        }
        r?;
        cx.calm();
        n.last = n.e.get_centroid();
        judge(cx, OPS[it.op], &n.last, &n.log, self.unit)?;
        if let Some(c) = n.last {
            cx.logf(c.x);
            cx.logf(c.y);
        }
        cx.log(n.log.len() as u64);
        Ok(())
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = if index % 401 == 17 { 1 } else { 1 + r.us(4) };
    let mut g = Gossip::new(r, nodes);
    let ue = *r.pick(&[0i64, 0, 0, -2, 10, -30, 100, -60, -150, 150]);
    let unit = 2f64.powi(ue as i32);
    let origin = *r.pick(&[0i64, 0, 7, 1000, 1 << 20]);
    let areas = r.below(4);
    let mut parts: Vec<Item> = vec![];
    let pt = |r: &mut Rng, p: (i64, i64)| -> Vec<f64> {
        let z = if r.one_in(3) { r.range(-9, 9) as f64 } else { f64::NAN };
        vec![(p.0 + origin) as f64 * unit, (p.1 - origin) as f64 * unit, z, f64::NAN]
    };
    let most = *r.pick(&[30usize, 80, 300, 1100]);
    let long = if index % 37 == 5 { 5 + r.us(most) } else { 0 };
    let mut budget = 6000usize;
    let mut closed = |r: &mut Rng| -> Vec<(i64, i64)> {
        match r.below(if areas == 0 { 10 } else { 40 }) {
            5 if r.one_in(3) => {
                // a sliver: next to no area, yet an area
                let n = *r.pick(&[100i64, 3000, 100_000, 2_000_000]);
                let (a, b) = (r.range(1, n), r.range(1, n));
                let (mut p, mut q, mut u, mut v) = (a, b, (1i64, 0i64), (0i64, 1i64));
                while q != 0 {
                    let k = p / q;
                    (p, q) = (q, p - k * q);
                    (u, v) = (v, (u.0 - k * v.0, u.1 - k * v.1));
                }
                // a * u.0 + b * u.1 is the greatest common divisor
                let mut t = vec![(0, 0), (a, b), (-u.1, u.0)];
                if r.one_in(2) {
                    t.insert(2, (a - u.1, b + u.0));
                }
                if r.one_in(2) {
                    t.reverse();
                }
                t.push(t[0]);
                t
            }
            0 => vec![],
            1 => {
                // a flat ring: there and back
                let (a, b) = ((r.range(-5, 5), r.range(-5, 5)), (r.range(-5, 5), r.range(-5, 5)));
                let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
                if r.one_in(2) && (2 * m.0, 2 * m.1) == (a.0 + b.0, a.1 + b.1) { vec![a, m, b, a] } else { vec![a, b, b, a] }
            }
            2 => vec![(r.range(-5, 5), r.range(-5, 5)); 4],
            _ => {
                let mut p = if long > 0 && long < budget && r.one_in(3) {
                    budget -= long;
                    long_ring(r, long)
                } else {
                    simple_ring(r)
                };
                let k = *r.pick(&[1i64, 1, 3, 100]);
                p.iter_mut().for_each(|q| *q = (q.0 * k, q.1 * k));
                p.push(p[0]);
                p
            }
        }
    };
    let mut last: Vec<(i64, i64)> = vec![];
    let wide = crowded(index, 801);
    let ue = if wide { 0 } else { ue };
    let throng = index % 401 == 17;
    let many = if throng { 250 + r.us(600) } else if index % 61 == 8 { 10 + r.us(90) } else { 1 + r.us(9) };
    for id in 0..if wide { 2 + r.us(3) } else { many } {
        if wide {
            let kind = *r.pick(&[POINT, LINE, SHELL, SHELL, HOLE, POLY]);
            let shape = if kind < SHELL { r.below(5) } else { 0 };
            let f = crowd(r, 4, 0, shape);
            let i = vec![id as i64, kind, f[1] as i64];
            let to = r.us(nodes);
            g.at(item(to, DELIVER, i.clone(), f.clone()), r);
            parts.push(item(0, DELIVER, i, f));
            continue;
        }
        let kind = match areas {
            _ if throng => POINT,
            0 => *r.pick(&[POINT, LINE, SHELL, POLY]),
            1 => *r.pick(&[POINT, LINE]),
            2 => *r.pick(&[SHELL, HOLE, POLY]),
            _ => r.range(0, 4),
        };
        let rings: Vec<Vec<(i64, i64)>> = match kind {
            POINT => vec![vec![(r.range(-9, 9), r.range(-9, 9))]],
            LINE => {
                let n = r.count(6);
                let s = if r.one_in(4) { 0 } else { 6 };
                let o = (r.range(-9, 9), r.range(-9, 9));
                vec![(0..n).map(|_| (o.0 + r.range(-s, s), o.1 + r.range(-s, s))).collect()]
            }
            HOLE if r.one_in(4) && !last.is_empty() => vec![last.clone()],
            SHELL | HOLE => vec![closed(r)],
            _ => {
                let mut v = vec![closed(r)];
                if !v[0].is_empty() {
                    for _ in 0..r.count(3) {
                        v.push(if r.one_in(5) { v[0].clone() } else { closed(r) });
                    }
                }
                let mut left = 6000usize;
                v.retain(|q| {
                    let keep = q.len() <= left;
                    left = left.saturating_sub(q.len());
                    keep
                });
                v
            }
        };
        if kind == SHELL {
            last = rings[0].clone();
        }
        let mut i = vec![id as i64, kind];
        let mut f = vec![];
        for q in rings {
            i.push(q.len() as i64);
            for p in q {
                f.extend(pt(r, p));
            }
        }
        let t = r.below(g.horizon);
        for to in 0..nodes {
            for a in g.net.send(r, 0, to, t) {
                g.ev.push((a, item(to, DELIVER, i.clone(), f.clone())));
            }
        }
        parts.push(item(0, DELIVER, i, f));
    }
    let n = r.us(5);
    let n = if wide { 2 } else { hist(r, n) };
    for _ in 0..n {
        let c = r.us(nodes);
        match r.below(4) {
            0 => g.at(item(c, ASK, vec![], vec![]), r),
            1 => {
                let t = r.below(g.horizon);
                g.net.cnt[CRASH] += 1;
                g.net.cnt[RESTART] += 1;
                g.ev.push((t, item(c, CRASHR, vec![r.range(0, 1 << 30)], vec![])));
            }
            _ => {
                let p = r.pick(&parts).clone();
                let mut i = p.i.clone();
                if i[1] == POLY && r.one_in(2) {
                    i[1] = SHELL;
                }
                g.at(item(c, WHOLE, i, p.f), r);
            }
        }
    }
    // healing: every part reaches every node (shells first), then the replicas are compared
    let cnt = &mut g.net.cnt;
    cnt[RETRANS] += (parts.len() * nodes) as u64;
    let (items, end) = timeline(std::mem::take(&mut g.ev), cnt);
    let mut c = Case { cfg: vec![nodes as i64, ue], items, sim_ns: end, ..Default::default() };
    sprinkle(r, &mut c, nodes, &Mix { threads: 0.3, oom: 0.2, max_gap: 300 });
    for to in 0..nodes {
        r.shuffle(&mut parts);
        parts.sort_by_key(|p| p.i[1] == HOLE);
        for p in &parts {
            c.items.push(Item { client: to, ..p.clone() });
        }
    }
    c.items.push(item(0, CONV, vec![], vec![]));
    c.net = g.net.cnt;
    c
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    let u = c.cfg.get(1).copied().unwrap_or(0).clamp(-200, 200);
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { e: Centroid::default(), log: vec![], last: None })).collect(),
        unit: 2f64.powi(u as i32),
    })
}
pub const DEF: Def = Def {
    id: "C06",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 80_000,
    thorough_runs: 1_500_000,
    probes: PROBES,
    rule: "a run is non-trivial if a duplicate was ignored, an accumulator was rebuilt after a crash, an allocation failed inside an update, or two replicas with the same parts were compared; distinct by event-log hash",
    real: &["Centroid", "Polygon", "MultiPolygon", "LineString", "Point", "Orientation"],
    stub: &["network, durable log and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
