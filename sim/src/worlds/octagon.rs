//! Octagonal envelopes as replicated, mergeable state.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::{mix, Rng};
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;

const OPS: &[&str] = &[
    "include_xy", "include_coordinate", "include_batch", "include_box", "merge_new", "send", "recv",
    "checkpoint", "crash_restart", "grow", "set_null", "query", "reinclude", "converged",
];
const INC: usize = 0;
const INCC: usize = 1;
const BATCH: usize = 2;
const BOX: usize = 3;
const MERGE: usize = 4;
const SEND: usize = 5;
const RECV: usize = 6;
const CKPT: usize = 7;
const CRASHR: usize = 8;
const GROW: usize = 9;
const NULL: usize = 10;
const QUERY: usize = 11;
const REINC: usize = 12;
const CONV: usize = 13;

const PROBES: &[&str] = &["merge into empty", "merge of empty", "duplicate merge", "shrunk to empty", "query on empty", "converged", "empty box included", "diagonal bound decides"];

/// min/max per direction x, y, x+y, x-y
type M = Option<[(f64, f64); 4]>;
fn pt(x: f64, y: f64) -> M {
    Some([(x, x), (y, y), (x + y, x + y), (x - y, x - y)])
}
fn join(a: M, b: M) -> M {
    match (a, b) {
        (None, o) | (o, None) => o,
        (Some(a), Some(b)) => {
            let mut r = a;
            for k in 0..4 {
                r[k] = (a[k].0.min(b[k].0), a[k].1.max(b[k].1));
            }
            Some(r)
        }
    }
}
fn meets(a: M, b: M) -> bool {
    matches!((a, b), (Some(a), Some(b)) if (0..4).all(|k| a[k].0 <= b[k].1 && b[k].0 <= a[k].1))
}
fn inside(a: M, b: M) -> bool {
    matches!((a, b), (Some(a), Some(b)) if (0..4).all(|k| b[k].0 >= a[k].0 && b[k].1 <= a[k].1))
}
fn read(e: &OctagonalEnvelope) -> [(f64, f64); 4] {
    [
        (e.get_min_x(), e.get_max_x()), (e.get_min_y(), e.get_max_y()),
        (e.get_min_a(), e.get_max_a()), (e.get_min_b(), e.get_max_b()),
    ]
}
fn agree(what: &str, e: &OctagonalEnvelope, m: M) -> Res {
    match m {
        None => check!(e.is_null(), "state: {what}: octagon should be empty but is {:?}", read(e)),
        Some(b) => {
            check!(!e.is_null(), "state: {what}: octagon is empty, expected {b:?}");
            let g = read(e);
            check!(g == b, "state: {what}: octagon is {g:?}, expected {b:?}");
        }
    }
    Ok(())
}

struct Node {
    e: OctagonalEnvelope,
    m: M,
    ck: Option<(OctagonalEnvelope, M)>,
    log: Vec<(f64, f64)>,
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<(OctagonalEnvelope, M)>>>,
}
fn relations(cx: &Cx, a: &OctagonalEnvelope, m: M, b: &OctagonalEnvelope, n: M) -> Res {
    let (i, c, va) = cx.must("relations", || (a.intersects_octagonal_envelope(b), a.contains_octagonal_envelope(b), a.is_valid()))?;
    check!(i == meets(m, n), "relation: intersects = {i} for {m:?} and {n:?}");
    check!(c == inside(m, n), "relation: contains = {c} for {m:?} and {n:?}");
    check!(va, "relation: is_valid is false for {m:?}");
    if let (Some(p), Some(q)) = (m, n) {
        if !i && (0..2).all(|k| p[k].0 <= q[k].1 && q[k].0 <= p[k].1) {
            cx.probe(7);
        }
    }
    agree("after relation query", a, m)?;
    agree("after relation query", b, n)
}
fn point(cx: &Cx, a: &OctagonalEnvelope, m: M, x: f64, y: f64) -> Res {
    let i = cx.must("point test", || a.intersects_coordinate(&Coordinate::new_xy(x, y)))?;
    check!(i == inside(m, pt(x, y)), "relation: intersects(({x:?},{y:?})) = {i} for {m:?}");
    Ok(())
}
fn build(cx: &Cx, it: &Item) -> Result<(OctagonalEnvelope, M), Stop> {
    let f = |k| it.ff(k);
    let (p, q) = (Coordinate::new_xy(f(0), f(2)), Coordinate::new_xy(f(1), f(3)));
    let bx = |a: f64, b: f64, c: f64, d: f64| {
        let (x0, x1, y0, y1) = (a.min(b), a.max(b), c.min(d), c.max(d));
        [(x0, y0), (x0, y1), (x1, y0), (x1, y1)].iter().fold(None, |m, p| join(m, pt(p.0, p.1)))
    };
    let (e, m) = match it.ii(0).rem_euclid(7) {
        0 => (cx.must("new", || OctagonalEnvelope::new_with_coordinate(&p))?, pt(p.x, p.y)),
        1 => (cx.must("new", || OctagonalEnvelope::new_with_coordinates(&p, &q))?, join(pt(p.x, p.y), pt(q.x, q.y))),
        2 => (cx.must("new", || OctagonalEnvelope::new_with_envelope(&Envelope::new_xy(f(0), f(1), f(2), f(3))))?, bx(f(0), f(1), f(2), f(3))),
        3 => (cx.must("new", || OctagonalEnvelope::default())?, None),
        4 => {
            // a line through all given points, closed now and then
            let mut v: Vec<Coordinate> = it.f.chunks_exact(2).map(|c| Coordinate::new_xy(c[0], c[1])).collect();
            if it.ii(3) % 3 == 0 && !v.is_empty() {
                v.push(v[0]);
            }
            let l = cx.must("line", || LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(&v)))?;
            (cx.must("new", || OctagonalEnvelope::new_with_line_string(&l))?, v.iter().fold(None, |m, p| join(m, pt(p.x, p.y))))
        }
        5 => {
            let o = OctagonalEnvelope::new_with_coordinates(&q, &p);
            (cx.must("new", || OctagonalEnvelope::new_with_octagonal_envelope(&o))?, join(pt(p.x, p.y), pt(q.x, q.y)))
        }
        _ => {
            cx.probe(6);
            (cx.must("new", || OctagonalEnvelope::new_with_envelope(&Envelope::default()))?, None)
        }
    };
    agree("new octagon", &e, m)?;
    Ok((e, m))
}

impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        match it.op {
            INC | INCC | REINC => {
                let (x, y) = (it.ff(0), it.ff(1));
                cx.must(op, || if it.op == INC { n.e.expand_to_include_xy(x, y) } else { n.e.expand_to_include_coordinate(&Coordinate::new_xy(x, y)) })?;
                n.m = join(n.m, pt(x, y));
                n.log.push((x, y));
            }
            BATCH => {
                let pts: Vec<Coordinate> = it.f.chunks_exact(2).map(|p| Coordinate::new_xy(p[0], p[1])).collect();
                let s = cx.must(op, || CoordinateArraySequence::new_with_coordinates(&pts))?;
                cx.must(op, || n.e.expand_to_include_coordinate_array_sequence(&s))?;
                n.m = pts.iter().fold(n.m, |m, p| join(m, pt(p.x, p.y)));
            }
            BOX => {
                let null = it.ii(0) == 1;
                let e = if null { Envelope::default() } else { Envelope::new_xy(it.ff(0), it.ff(1), it.ff(2), it.ff(3)) };
                cx.must(op, || n.e.expand_to_include_envelope(&e))?;
                if null {
                    cx.probe(6);
                } else {
                    for x in [it.ff(0), it.ff(1)] {
                        for y in [it.ff(2), it.ff(3)] {
                            n.m = join(n.m, pt(x, y));
                        }
                    }
                }
            }
            MERGE => {
                let (e, m) = build(cx, it)?;
                if n.m.is_none() {
                    cx.probe(0)
                }
                if m.is_none() {
                    cx.probe(1)
                }
                cx.must(op, || n.e.expand_to_include_octagonal_envelope(&e))?;
                agree("merged argument", &e, m)?;
                n.m = join(n.m, m);
            }
            SEND => {
                let k = it.ii(0) as usize;
                let c = cx.must(op, || if it.ii(1) == 0 { OctagonalEnvelope::new_with_octagonal_envelope(&n.e) } else { n.e })?;
                let mb = self.mail.get();
                if mb.len() <= k {
                    mb.resize(k + 1, None);
                }
                mb[k] = Some((c, n.m));
            }
            RECV => {
                let Some(Some((e, m))) = self.mail.get().get(it.ii(0) as usize).copied() else { return Ok(()) };
                let before = n.m;
                cx.must(op, || n.e.expand_to_include_octagonal_envelope(&e))?;
                n.m = join(n.m, m);
                if before == n.m {
                    cx.probe(2);
                }
                cx.nontrivial();
            }
            CKPT => n.ck = Some((n.e, n.m)),
            CRASHR => {
                let (e, m) = n.ck.unwrap_or((OctagonalEnvelope::default(), None));
                cx.must(op, || match it.ii(0) {
                    0 => n.e = OctagonalEnvelope::new_with_octagonal_envelope(&e),
                    1 => n.e = e,
                    _ => {
                        n.e.set_to_null();
                        n.e.expand_to_include_octagonal_envelope(&e)
                    }
                })?;
                n.m = m;
                cx.nontrivial();
            }
            GROW => {
                let d = it.ff(0);
                cx.must(op, || n.e.expand_by_distance(d))?;
                if let Some(b) = &mut n.m {
                    let dd = 2f64.sqrt() * d;
                    let g = [d, d, dd, dd];
                    for k in 0..4 {
                        b[k] = (b[k].0 - g[k], b[k].1 + g[k]);
                    }
                    let margin = |k: usize| (b[k].1 - b[k].0).abs() < 1e-9 * (b[k].0.abs() + b[k].1.abs() + g[k].abs());
                    if (2..4).any(margin) {
                        // a diagonal interval vanishes within rounding: adopt what the code says
                        n.m = if n.e.is_null() { None } else { Some(read(&n.e)) };
                    } else if b.iter().any(|v| v.0 > v.1) {
                        cx.probe(3);
                        n.m = None;
                    } else if !n.e.is_null() {
                        let got = read(&n.e);
                        for k in 2..4 {
                            if close(got[k].0, b[k].0, 1e-13, 0.0) && close(got[k].1, b[k].1, 1e-13, 0.0) {
                                b[k] = got[k];
                            }
                        }
                    }
                }
            }
            NULL => {
                cx.must(op, || n.e.set_to_null())?;
                n.m = None;
            }
            QUERY => {
                if n.m.is_none() {
                    cx.probe(4);
                }
                let (e, m) = match self.mail.get().get(it.ii(1) as usize).copied() {
                    Some(Some(x)) if it.ii(2) == 1 => x,
                    _ => build(cx, it)?,
                };
                relations(cx, &n.e, n.m, &e, m)?;
                relations(cx, &e, m, &n.e, n.m)?;
                point(cx, &n.e, n.m, it.ff(0), it.ff(2))?;
                point(cx, &n.e, n.m, it.ff(1), it.ff(3))?;
                point(cx, &n.e, n.m, 0.0, 0.0)?;
                if let Some(b) = n.m {
                    point(cx, &n.e, n.m, b[0].0, b[1].0)?;
                    point(cx, &n.e, n.m, b[0].1, b[1].1)?;
                    point(cx, &n.e, n.m, b[0].1, it.ff(3))?;
                    // points at, just inside and just outside one of the eight sides
                    let mut k = it.ii(3) as u64;
                    for _ in 0..4 {
                        k = mix(k, 1);
                        let t = (k >> 40) as f64 / (1u64 << 24) as f64;
                        let side = |i: usize| if k >> 8 & 1 == 0 { b[i].0 } else { b[i].1 };
                        let (x, y) = (b[0].0 + (b[0].1 - b[0].0) * t, b[1].0 + (b[1].1 - b[1].0) * t);
                        let near = |v: f64| match k >> 9 & 7 {
                            0 => v.next_up(),
                            1 => v.next_down(),
                            2 => v + v.abs() * 1e-9,
                            3 => v - v.abs() * 1e-9,
                            _ => v,
                        };
                        let (px, py) = match k % 4 {
                            0 => (near(side(0)), y),
                            1 => (x, near(side(1))),
                            2 => (x, near(side(2) - x)),
                            _ => (x, near(x - side(3))),
                        };
                        point(cx, &n.e, n.m, px, py)?;
                        let (o, om) = cx.must(op, || {
                            let mut o = OctagonalEnvelope::new_with_octagonal_envelope(&n.e);
                            o.expand_to_include_xy(px, py);
                            (o, join(n.m, pt(px, py)))
                        })?;
                        agree("widened copy", &o, om)?;
                        relations(cx, &n.e, n.m, &o, om)?;
                        relations(cx, &o, om, &n.e, n.m)?;
                        let p = cx.must(op, || OctagonalEnvelope::new_with_coordinate(&Coordinate::new_xy(px, py)))?;
                        relations(cx, &n.e, n.m, &p, pt(px, py))?;
                        relations(cx, &p, pt(px, py), &n.e, n.m)?;
                    }
                }
            }
            CONV => {
                let all = self.nodes.iter().flat_map(|x| x.get().log.iter()).fold(None, |m, p| join(m, pt(p.0, p.1)));
                if self.nodes.iter().all(|x| x.get().m == all) {
                    cx.probe(5);
                    for (k, o) in self.nodes.iter().enumerate() {
                        agree(&format!("node {k} after anti-entropy"), &o.get().e, all)?;
                    }
                }
            }
            _ => {}
        }
        agree(op, &n.e, n.m)?;
        if !n.e.is_null() {
            for v in read(&n.e) {
                cx.logf(v.0);
                cx.logf(v.1);
            }
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let r = self.step(cx, it);
        if let Err(Stop::Oom) = r {
            // not promised to be atomic: go on from what is there
            let n = self.nodes[cx.client].get();
            n.m = if n.e.is_null() { None } else { Some(read(&n.e)) };
        }
        r
    }
    fn finish(&self, cx: &Cx) -> Res {
        for a in &self.nodes {
            for b in &self.nodes {
                relations(cx, &a.get().e, a.get().m, &b.get().e, b.get().m)?;
            }
        }
        Ok(())
    }
}

fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 2 + r.us(4);
    let st = style(r);
    let mut g = Gossip::new(r, nodes);
    let wide = crowded(index, 2001);
    let mono = index % 2 == 0 && !wide;
    let mut pool: Vec<f64> = (0..3 + r.us(8)).map(|_| val(r, st)).collect();
    near(r, &mut pool, false);
    let v = |r: &mut Rng| if r.one_in(4) { val(r, st) } else { *r.pick(&pool) };
    let mut log = vec![];
    let n = 4 + r.us(24);
    let n = if wide { 40 } else { hist(r, n) };
    for _ in 0..n {
        let c = r.us(nodes);
        match r.below(if mono { 9 } else { 15 }) {
            0..=2 => {
                let f = vec![v(r), v(r)];
                log.push(item(c, REINC, vec![], f.clone()));
                g.at(item(c, if r.one_in(2) { INC } else { INCC }, vec![], f), r);
            }
            3..=5 => g.send(r, c, SEND, RECV),
            6 => g.at(item(c, CKPT, vec![], vec![]), r),
            7 => g.crash(r, c, CRASHR),
            8 | 9 => {
                let i = vec![r.range(0, 6), r.range(0, g.slot.max(1)), r.range(0, 1), r.range(0, 1 << 30)];
                let f = if wide && i[0] == 4 {
                    let k = r.below(5);
                    crowd(r, 2, 0, k)
                } else {
                    (0..if i[0] == 4 { 2 * r.count(9) } else { 4 }).map(|_| v(r)).collect()
                };
                g.at(item(c, QUERY, i, f), r)
            }
            10 => {
                let f = if wide {
                    let k = r.below(5);
                    crowd(r, 2, 0, k)
                } else {
                    (0..2 * r.count(8)).map(|_| v(r)).collect()
                };
                g.at(item(c, BATCH, vec![], f), r)
            }
            11 => {
                let (i, f) = (vec![r.one_in(4) as i64], vec![v(r), v(r), v(r), v(r)]);
                g.at(item(c, BOX, i, f), r)
            }
            12 => {
                let (i, f) = (vec![r.range(0, 6)], vec![v(r), v(r), v(r), v(r)]);
                g.at(item(c, MERGE, i, f), r)
            }
            13 => {
                let d = if r.one_in(2) { v(r) } else { -v(r) / 3.0 };
                g.at(item(c, GROW, vec![], vec![d]), r)
            }
            _ => g.at(item(c, NULL, vec![], vec![]), r),
        }
    }
    let heal = if mono && r.one_in(2) { Some((log, SEND, RECV, CONV)) } else { None };
    if !wide {
        g.drill(r);
    }
    g.build(r, &Mix { threads: 0.3, oom: 0.1, max_gap: 150 }, heal)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { e: OctagonalEnvelope::default(), m: None, ck: None, log: vec![] })).collect(),
        mail: Own::new(vec![]),
    })
}
pub const DEF: Def = Def {
    id: "C04",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 160_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if at least one replica merged a delivered message or restarted from a checkpoint; distinct by event-log hash",
    real: &["OctagonalEnvelope", "Envelope", "LineString", "CoordinateArraySequence"],
    stub: &["network, checkpoint store and node processes (simulated)"],
};
