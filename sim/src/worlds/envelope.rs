//! Bounding boxes as replicated, mergeable state (gossip between nodes).
use super::common::*;
use crate::case::{Case, Item};
use crate::rng::{mix, Rng};
use crate::rt::*;
use crate::run::Def;
use crate::{check, viol};
use geos_rs::sim::*;

const OPS: &[&str] = &[
    "include_xy", "include_coordinate", "merge_new", "send", "recv", "checkpoint", "crash_restart",
    "translate", "grow", "grow_xy", "set_null", "query", "static_intersects", "include_batch",
    "intersect_with", "recheck", "reinclude", "converged",
];
const INCLUDE_XY: usize = 0;
const INCLUDE_C: usize = 1;
const MERGE_NEW: usize = 2;
const SEND: usize = 3;
const RECV: usize = 4;
const CKPT: usize = 5;
const CRASHR: usize = 6;
const TRANSLATE: usize = 7;
const GROW: usize = 8;
const GROW_XY: usize = 9;
const SET_NULL: usize = 10;
const QUERY: usize = 11;
const STATIC: usize = 12;
const BATCH: usize = 13;
const ISECT: usize = 14;
const RECHECK: usize = 15;
const REINCL: usize = 16;
const CONVERGED: usize = 17;

const PROBES: &[&str] = &[
    "merge into empty", "merge of empty", "duplicate merge", "restart lost state", "box became empty by shrinking",
    "intersection empty", "touching boxes", "converged", "contained exactly",
];

/// The reference: an interval per axis, or nothing.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct B {
    pub x0: f64,
    pub x1: f64,
    pub y0: f64,
    pub y1: f64,
}
pub type M = Option<B>;
pub fn pt(x: f64, y: f64) -> B {
    B { x0: x, x1: x, y0: y, y1: y }
}
pub fn join(a: M, b: M) -> M {
    match (a, b) {
        (None, o) | (o, None) => o,
        (Some(a), Some(b)) => Some(B { x0: a.x0.min(b.x0), x1: a.x1.max(b.x1), y0: a.y0.min(b.y0), y1: a.y1.max(b.y1) }),
    }
}
pub fn meets(a: M, b: M) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.x0 <= b.x1 && b.x0 <= a.x1 && a.y0 <= b.y1 && b.y0 <= a.y1,
        _ => false,
    }
}
pub fn inside(a: M, b: M) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => b.x0 >= a.x0 && b.x1 <= a.x1 && b.y0 >= a.y0 && b.y1 <= a.y1,
        _ => false,
    }
}

struct Node {
    env: Envelope,
    m: M,
    ck: Option<(Envelope, M)>,
    log: Vec<(f64, f64)>,
    volatile_since: bool,
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<(Envelope, M)>>>,
}

pub fn check_env(what: &str, e: &Envelope, m: M) -> Res {
    match m {
        None => check!(e.is_null(), "state: {what}: box should be empty but is [{:?},{:?}]x[{:?},{:?}]", e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()),
        Some(b) => {
            check!(!e.is_null(), "state: {what}: box is empty, expected {b:?}");
            check!(
                e.get_min_x() == b.x0 && e.get_max_x() == b.x1 && e.get_min_y() == b.y0 && e.get_max_y() == b.y1,
                "state: {what}: box is [{:?},{:?}]x[{:?},{:?}], expected {b:?}", e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()
            );
        }
    }
    Ok(())
}
fn big(b: B) -> bool {
    [b.x0, b.x1, b.y0, b.y1].iter().any(|v| v.abs() > 1e140)
}

/// every observer of one box against its definition
fn check_measures(cx: &Cx, e: &Envelope, m: M) -> Res {
    let (w, h, a, mn, mx, dia, c) = cx.must("measures", || {
        (e.get_width(), e.get_height(), e.get_area(), e.min_extent(), e.max_extent(), e.get_diameter(), e.centre())
    })?;
    match m {
        None => {
            check!(w == 0.0 && h == 0.0 && a == 0.0 && mn == 0.0 && mx == 0.0 && dia == 0.0, "measure: empty box reports a size");
            check!(c.is_none(), "measure: empty box has a centre");
        }
        Some(b) if [b.x0, b.x1, b.y0, b.y1].iter().any(|v| v.abs() > 1e300) => {}
        Some(b) => {
            let (ew, eh) = (b.x1 - b.x0, b.y1 - b.y0);
            check!(w == ew && h == eh, "measure: width/height {w:?}/{h:?}, expected {ew:?}/{eh:?}");
            check!(mn == ew.min(eh) && mx == ew.max(eh), "measure: min/max extent {mn:?}/{mx:?} of {ew:?} x {eh:?}");
            if !big(b) {
                check!(close(a, ew * eh, 1e-12, 0.0), "measure: area {a:?} of {ew:?} x {eh:?}");
                check!(close(dia, ew.hypot(eh), 1e-12, 0.0), "measure: diameter {dia:?} of {ew:?} x {eh:?}");
            }
            let Some(c) = c else { viol!("measure: no centre") };
            // (halving what is subnormal rounds)
            let half = |a: f64, b: f64| if (a + b).is_finite() { (a + b) / 2.0 } else { a / 2.0 + b / 2.0 };
            let (cx_, cy) = (half(b.x0, b.x1), half(b.y0, b.y1));
            check!(
                close(c.x, cx_, 1e-14, b.x0.abs().max(b.x1.abs())) && close(c.y, cy, 1e-14, b.y0.abs().max(b.y1.abs())),
                "measure: centre ({:?},{:?}), expected ({cx_:?},{cy:?})", c.x, c.y
            );
        }
    }
    Ok(())
}

/// every relation between two boxes against its definition
fn check_relations(cx: &Cx, e: &Envelope, m: M, o: &Envelope, n: M) -> Res {
    let v = cx.must("relations", || {
        (
            e.intersects_envelope(o), e.disjoint_envelope(o), e.overlaps_envelope(o), e.contains_envelope(o),
            e.covers_envelope(o), e.contains_properly(o), e.equals(o), e.compare_to_envelope(o),
            e.distance_envelope(o), e.intersection_envelope(o),
        )
    })?;
    let meet = meets(m, n);
    check!(v.0 == meet && v.1 != meet && v.2 == meet, "relation: intersects/disjoint/overlaps = {}/{}/{} for {m:?} and {n:?}", v.0, v.1, v.2);
    let ins = inside(m, n);
    check!(v.3 == ins && v.4 == ins, "relation: contains/covers = {}/{} for {m:?} and {n:?}", v.3, v.4);
    let eq = m == n;
    check!(v.5 == (ins && !eq), "relation: contains_properly = {} for {m:?} and {n:?}", v.5);
    check!(v.6 == eq, "relation: equals = {} for {m:?} and {n:?}", v.6);
    let cmp = match (m, n) {
        (None, None) => 0,
        (None, _) => -1,
        (_, None) => 1,
        (Some(a), Some(b)) => {
            let k = [(a.x0, b.x0), (a.y0, b.y0), (a.x1, b.x1), (a.y1, b.y1)];
            k.iter().map(|(p, q)| if p < q { -1 } else if p > q { 1 } else { 0 }).find(|x| *x != 0).unwrap_or(0)
        }
    };
    check!(v.7.signum() == cmp, "relation: compare = {} for {m:?} and {n:?}", v.7);
    if let (Some(a), Some(b)) = (m, n) {
        if a.x0 == b.x1 || b.x0 == a.x1 {
            cx.probe(6);
        }
        if !big(a) && !big(b) {
            let dx = (b.x0 - a.x1).max(a.x0 - b.x1).max(0.0);
            let dy = (b.y0 - a.y1).max(a.y0 - b.y1).max(0.0);
            check!(close(v.8, dx.hypot(dy), 1e-12, 0.0), "relation: distance = {:?}, expected {:?} for {a:?} and {b:?}", v.8, dx.hypot(dy));
        }
        if ins && !eq {
            cx.probe(8);
        }
    }
    let ix = if meet {
        let (a, b) = (m.unwrap(), n.unwrap());
        Some(B { x0: a.x0.max(b.x0), x1: a.x1.min(b.x1), y0: a.y0.max(b.y0), y1: a.y1.min(b.y1) })
    } else {
        cx.probe(5);
        None
    };
    check_env("intersection", &v.9, ix)
}
fn check_point(cx: &Cx, e: &Envelope, m: M, x: f64, y: f64) -> Res {
    let p = Coordinate::new_xy(x, y);
    let v = cx.must("point relations", || {
        [
            e.intersects_coordinate(&p), e.overlaps_coordinate(&p), e.intersects_xy(x, y), e.overlaps_xy(x, y),
            e.contains_coordinate(&p), e.contains_xy(x, y), e.covers_xy(x, y), e.covers_coordinate(&p),
        ]
    })?;
    let t = inside(m, Some(pt(x, y)));
    check!(v.iter().all(|b| *b == t), "relation: point predicates {v:?}, expected {t} for ({x:?},{y:?}) in {m:?}");
    Ok(())
}

impl W {
    fn new_env(&self, cx: &Cx, it: &Item) -> Result<(Envelope, M), Stop> {
        let (a, b, c, d) = (it.ff(0), it.ff(1), it.ff(2), it.ff(3));
        let k = it.ii(0).rem_euclid(5);
        let e = cx.must("box construction", || match k {
            0 => Envelope::new_xy(a, b, c, d),
            1 => Envelope::new_coordinates(&Coordinate::new_xy(a, c), &Coordinate::new_xy(b, d)),
            2 => Envelope::new_coordinate(&Coordinate::new_xy(a, c)),
            3 => Envelope::default(),
            _ => Envelope::new_envelope(&Envelope::new_xy(b, a, d, c)).copy(),
        })?;
        let m = match k {
            2 => Some(pt(a, c)),
            3 => None,
            _ => Some(B { x0: a.min(b), x1: a.max(b), y0: c.min(d), y1: c.max(d) }),
        };
        check_env("new box", &e, m)?;
        Ok((e, m))
    }
}

impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        match it.op {
            INCLUDE_XY | INCLUDE_C | REINCL => {
                let (x, y) = (it.ff(0), it.ff(1));
                cx.must(op, || {
                    if it.op == INCLUDE_C || it.ii(0) == 1 {
                        n.env.expand_to_include_coordinate(&Coordinate::new_xy(x, y))
                    } else {
                        n.env.expand_to_include_xy(x, y)
                    }
                })?;
                n.m = join(n.m, Some(pt(x, y)));
                n.log.push((x, y));
                n.volatile_since = true;
            }
            MERGE_NEW => {
                let (e, m) = self.new_env(cx, it)?;
                if n.m.is_none() {
                    cx.probe(0);
                }
                if m.is_none() {
                    cx.probe(1);
                }
                cx.must(op, || n.env.expand_to_include_envelope(&e))?;
                check_env("merged argument", &e, m)?;
                n.m = join(n.m, m);
            }
            SEND => {
                let k = it.ii(0) as usize;
                let c = cx.must(op, || if it.ii(1) == 0 { n.env.copy() } else { Envelope::new_envelope(&n.env) })?;
                let mb = self.mail.get();
                if mb.len() <= k {
                    mb.resize(k + 1, None);
                }
                mb[k] = Some((c, n.m));
            }
            RECV => {
                let Some(Some((e, m))) = self.mail.get().get(it.ii(0) as usize).copied() else { return Ok(()) };
                let before = n.m;
                cx.must(op, || n.env.expand_to_include_envelope(&e))?;
                n.m = join(n.m, m);
                if before == n.m {
                    cx.probe(2);
                }
                check_env("message after merge", &e, m)?;
                cx.nontrivial();
            }
            CKPT => {
                let c = cx.must(op, || n.env.copy())?;
                n.ck = Some((c, n.m));
                n.volatile_since = false;
            }
            CRASHR => {
                if n.volatile_since {
                    cx.probe(3);
                }
                match n.ck {
                    Some((e, m)) => {
                        cx.must(op, || match it.ii(0) {
                            0 => n.env.init(&e),
                            1 => n.env = Envelope::new_envelope(&e),
                            _ => {
                                n.env.set_to_null();
                                n.env.expand_to_include_envelope(&e)
                            }
                        })?;
                        n.m = m;
                    }
                    None => {
                        cx.must(op, || if it.ii(0) == 0 { n.env = Envelope::default() } else { n.env.set_to_null() })?;
                        n.m = None;
                    }
                }
                cx.nontrivial();
            }
            TRANSLATE => {
                let (dx, dy) = (it.ff(0), it.ff(1));
                cx.must(op, || n.env.translate(dx, dy))?;
                n.m = n.m.map(|b| B { x0: b.x0 + dx, x1: b.x1 + dx, y0: b.y0 + dy, y1: b.y1 + dy });
            }
            GROW | GROW_XY => {
                let (dx, dy) = if it.op == GROW { (it.ff(0), it.ff(0)) } else { (it.ff(0), it.ff(1)) };
                cx.must(op, || if it.op == GROW { n.env.expand_by(dx) } else { n.env.expand_by_delta_xy(dx, dy) })?;
                n.m = n.m.and_then(|b| {
                    let b = B { x0: b.x0 - dx, x1: b.x1 + dx, y0: b.y0 - dy, y1: b.y1 + dy };
                    if b.x0 > b.x1 || b.y0 > b.y1 {
                        cx.probe(4);
                        None
                    } else {
                        Some(b)
                    }
                });
            }
            SET_NULL => {
                cx.must(op, || n.env.set_to_null())?;
                n.m = None;
            }
            QUERY => {
                let (e, m) = match self.mail.get().get(it.ii(1) as usize).copied() {
                    Some(Some(x)) if it.ii(2) == 1 => x,
                    _ => self.new_env(cx, it)?,
                };
                check_relations(cx, &n.env, n.m, &e, m)?;
                check_relations(cx, &e, m, &n.env, n.m)?;
                if let Some(b) = n.m {
                    // a box that differs from this one by very little
                    let w = [b.x1 - b.x0, b.y1 - b.y0];
                    let mut k = it.ii(3) as u64;
                    let mut nudge = |v: f64, w: f64| {
                        k = mix(k, 1);
                        match if v.abs() < 1e300 && w < 1e300 { k % 12 } else { 11 } {
                            0 => v.next_up(),
                            1 => v.next_down(),
                            2 => v + w,
                            3 => v - w,
                            4 => v + v.abs() * 1e-9,
                            5 => v - v.abs() * 1e-9,
                            _ => v,
                        }
                    };
                    let c = [nudge(b.x0, w[0]), nudge(b.x1, w[0]), nudge(b.y0, w[1]), nudge(b.y1, w[1])];
                    let o = cx.must(op, || Envelope::new_xy(c[0], c[1], c[2], c[3]))?;
                    let m = Some(B { x0: c[0].min(c[1]), x1: c[0].max(c[1]), y0: c[2].min(c[3]), y1: c[2].max(c[3]) });
                    check_relations(cx, &n.env, n.m, &o, m)?;
                    check_relations(cx, &o, m, &n.env, n.m)?;
                    check_point(cx, &n.env, n.m, c[0], c[2])?;
                    check_point(cx, &n.env, n.m, c[1], c[3])?;
                }
                check_measures(cx, &n.env, n.m)?;
                check_point(cx, &n.env, n.m, it.ff(0), it.ff(2))?;
                // corners and midpoints of the box's own boundary are in it
                if let Some(b) = n.m {
                    check_point(cx, &n.env, n.m, b.x0, b.y1)?;
                    check_point(cx, &n.env, n.m, b.x1, b.y0)?;
                    check_point(cx, &n.env, n.m, b.x0, it.ff(3))?;
                    check_point(cx, &n.env, n.m, it.ff(1), b.y1)?;
                }
                let (a, b) = (Coordinate::new_xy(it.ff(0), it.ff(2)), Coordinate::new_xy(it.ff(1), it.ff(3)));
                let r = cx.must(op, || n.env.intersects_coordinate_ab(&a, &b))?;
                let want = meets(n.m, join(Some(pt(a.x, a.y)), Some(pt(b.x, b.y))));
                check!(r == want, "relation: intersects(segment box) = {r} for {:?} and {:?}-{:?}", n.m, (a.x, a.y), (b.x, b.y));
            }
            STATIC => {
                let c: Vec<Coordinate> = (0..4).map(|k| Coordinate::new_xy(it.ff(2 * k), it.ff(2 * k + 1))).collect();
                let (r3, r4) = cx.must(op, || (Envelope::intersects_3(&c[0], &c[1], &c[2]), Envelope::intersects_4(&c[0], &c[1], &c[2], &c[3])))?;
                let bx = |a: &Coordinate, b: &Coordinate| join(Some(pt(a.x, a.y)), Some(pt(b.x, b.y)));
                check!(r3 == inside(bx(&c[0], &c[1]), Some(pt(c[2].x, c[2].y))), "relation: static point test = {r3} for {:?}", it.f);
                check!(r4 == meets(bx(&c[0], &c[1]), bx(&c[2], &c[3])), "relation: static box test = {r4} for {:?}", it.f);
            }
            BATCH => {
                let pts: Vec<Coordinate> = it.f.chunks_exact(2).map(|p| Coordinate::new_xy(p[0], p[1])).collect();
                let m = pts.iter().fold(None, |m, p| join(m, Some(pt(p.x, p.y))));
                let k = it.ii(0).rem_euclid(3);
                let before = n.m;
                if k == 0 {
                    let s = cx.must(op, || CoordinateArraySequence::new_with_coordinates(&pts))?;
                    cx.must(op, || s.expand_envelope(&mut n.env))?;
                    n.m = join(n.m, m);
                } else if k == 1 {
                    let flat: Vec<f64> = it.f[..pts.len() * 2].to_vec();
                    let s = cx.must(op, || PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&flat, 2, 0))?;
                    let e = cx.must(op, || s.expand_envelope(&n.env))?;
                    check_env("argument of batch include", &n.env, before)?;
                    n.env = e;
                    n.m = join(n.m, m);
                } else {
                    let e = cx.must(op, || CoordinateArrays::envelope(&pts))?;
                    check_env("box of array", &e, m)?;
                    cx.must(op, || n.env.expand_to_include_envelope(&e))?;
                    n.m = join(n.m, m);
                }
            }
            ISECT => {
                let (e, m) = self.new_env(cx, it)?;
                let r = cx.must(op, || n.env.intersection_envelope(&e))?;
                let want = if meets(n.m, m) {
                    let (a, b) = (n.m.unwrap(), m.unwrap());
                    Some(B { x0: a.x0.max(b.x0), x1: a.x1.min(b.x1), y0: a.y0.max(b.y0), y1: a.y1.min(b.y1) })
                } else {
                    None
                };
                check_env("intersection", &r, want)?;
                n.env = r;
                n.m = want;
            }
            RECHECK => {}
            CONVERGED => {
                let all = self.nodes.iter().flat_map(|x| x.get().log.iter()).fold(None, |m, p| join(m, Some(pt(p.0, p.1))));
                if self.nodes.iter().any(|x| x.get().m != all) {
                    return Ok(()); // (a minimised case may have dropped part of the anti-entropy)
                }
                for (k, o) in self.nodes.iter().enumerate() {
                    check_env(&format!("node {k} after anti-entropy"), &o.get().env, all)?;
                }
                cx.probe(7);
            }
            _ => {}
        }
        let n = self.nodes[cx.client].get();
        check_env(op, &n.env, n.m)?;
        for v in [n.env.get_min_x(), n.env.get_max_x(), n.env.get_min_y(), n.env.get_max_y()] {
            cx.logf(v);
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let r = self.step(cx, it);
        if let Err(Stop::Oom) = r {
            // not promised to be atomic: go on from what is there
            let n = self.nodes[cx.client].get();
            n.m = if n.env.is_null() { None } else { Some(B { x0: n.env.get_min_x(), x1: n.env.get_max_x(), y0: n.env.get_min_y(), y1: n.env.get_max_y() }) };
        }
        r
    }
    fn finish(&self, cx: &Cx) -> Res {
        for (k, a) in self.nodes.iter().enumerate() {
            let a = a.get();
            check_env(&format!("node {k} at the end"), &a.env, a.m)?;
            check_measures(cx, &a.env, a.m)?;
            for b in &self.nodes {
                let b = b.get();
                check_relations(cx, &a.env, a.m, &b.env, b.m)?;
            }
        }
        Ok(())
    }
}

fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 2 + r.us(4);
    let st = style(r);
    let horizon = 50_000_000u64;
    let mut net = Net::draw(r, nodes, horizon);
    let mut ev: Vec<(u64, Item)> = vec![];
    let wide = crowded(index, 2001);
    let gossip = index % 4 != 3 && !wide;
    let mut pool: Vec<f64> = (0..3 + r.us(8)).map(|_| val(r, st)).collect();
    near(r, &mut pool, false);
    if r.one_in(12) {
        pool.push(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX]));
    }
    let fin = |v: f64| if v.abs() < 1e300 { v } else { 1.0 };
    let v = |r: &mut Rng| if r.one_in(4) { val(r, st) } else { *r.pick(&pool) };
    let n = 4 + r.us(24);
    let nops = if wide { 40 } else { hist(r, n) };
    let mut slot = 0i64;
    let mut log: Vec<(usize, f64, f64)> = vec![];
    for _ in 0..nops {
        let t = r.below(horizon);
        let c = r.us(nodes);
        match r.below(if gossip { 12 } else { 18 }) {
            0..=3 => {
                let (x, y) = (v(r), v(r));
                log.push((c, x, y));
                ev.push((t, item(c, if r.one_in(2) { INCLUDE_XY } else { INCLUDE_C }, vec![], vec![x, y])));
            }
            4..=6 => {
                let to = r.us(nodes);
                ev.push((t, item(c, SEND, vec![slot, r.range(0, 1)], vec![])));
                for a in net.send(r, c, to, t) {
                    ev.push((a, item(to, RECV, vec![slot], vec![])));
                }
                slot += 1;
            }
            7 => ev.push((t, item(c, CKPT, vec![], vec![]))),
            8 if gossip => {
                net.cnt[CRASH] += 1;
                net.cnt[RESTART] += 1;
                ev.push((t, item(c, CRASHR, vec![r.range(0, 2)], vec![])));
            }
            8..=9 => ev.push((t, item(c, QUERY, vec![r.range(0, 4), r.range(0, slot.max(1)), r.range(0, 1), r.range(0, 1 << 30)], vec![v(r), v(r), v(r), v(r)]))),
            10 => ev.push((t, item(c, STATIC, vec![], (0..8).map(|_| v(r)).collect()))),
            11 => {
                let n = r.count(9);
                if gossip {
                    ev.push((t, item(c, QUERY, vec![r.range(0, 4), 0, 0, r.range(0, 1 << 30)], vec![v(r), v(r), v(r), v(r)])))
                } else {
                    let f = if wide {
                        let k = r.below(5);
                        crowd(r, 2, 0, k)
                    } else {
                        (0..2 * n).map(|_| v(r)).collect()
                    };
                    ev.push((t, item(c, BATCH, vec![r.range(0, 2)], f)))
                }
            }
            12 => ev.push((t, item(c, TRANSLATE, vec![], vec![fin(v(r)), fin(v(r))]))),
            13 => {
                let d = if r.one_in(2) { v(r) } else { -v(r) / 2.0 };
                ev.push((t, item(c, GROW, vec![], vec![fin(d)])))
            }
            14 => ev.push((t, item(c, GROW_XY, vec![], vec![fin(v(r)), -fin(v(r))]))),
            15 => ev.push((t, item(c, SET_NULL, vec![], vec![]))),
            16 => ev.push((t, item(c, MERGE_NEW, vec![r.range(0, 4)], vec![v(r), v(r), v(r), v(r)]))),
            _ => ev.push((t, item(c, ISECT, vec![r.range(0, 4)], vec![v(r), v(r), v(r), v(r)]))),
        }
    }
    if !wide {
        drill(r, &mut ev);
    }
    let (mut items, mut end) = timeline(ev, &mut net.cnt);
    let mut c = Case { cfg: vec![nodes as i64], sim_ns: 0, ..Default::default() };
    let heal = gossip && r.one_in(2);
    if gossip {
        items.retain(|x| x.op != MERGE_NEW && x.op != BATCH);
    }
    c.items = items;
    sprinkle(r, &mut c, nodes, &Mix { threads: 0.3, oom: 0.1, max_gap: 200 });
    let mut items = std::mem::take(&mut c.items);
    if heal {
        // faults stop: clients re-submit what was acknowledged, then two all-to-all rounds
        for (n, x, y) in &log {
            items.push(item(*n, REINCL, vec![r.range(0, 1)], vec![*x, *y]));
            net.cnt[RETRANS] += 1;
        }
        for a in 0..nodes {
            items.push(item(a, SEND, vec![slot + a as i64, 0], vec![]));
        }
        for b in 0..nodes {
            let mut o: Vec<usize> = (0..nodes).collect();
            r.shuffle(&mut o);
            for a in o {
                items.push(item(b, RECV, vec![slot + a as i64], vec![]));
            }
        }
        end += 10_000_000;
    }
    if heal {
        items.push(item(0, CONVERGED, vec![], vec![]));
    }
    c.items = items;
    c.sim_ns = end;
    c.net = net.cnt;
    c
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c))
            .map(|_| Own::new(Node { env: Envelope::default(), m: None, ck: None, log: vec![], volatile_since: false }))
            .collect(),
        mail: Own::new(vec![]),
    })
}

pub const DEF: Def = Def {
    id: "C03",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 180_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if at least one replica merged a delivered message or restarted from a checkpoint; distinct by event-log hash",
    real: &["Envelope", "CoordinateArraySequence::expand_envelope", "PackedCoordinateSequenceDouble::expand_envelope", "CoordinateArrays::envelope"],
    stub: &["network, checkpoint store and node processes (simulated)"],
};
