//! Line segments as mutable values: rearranged in place, exchanged between nodes, queried against
//! exact arithmetic after every kind of history.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::oracle::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::sync::Arc;

const OPS: &[&str] = &["point", "build", "set", "reverse", "normalize", "query_point", "query_segment", "query_place", "send", "recv", "checkpoint", "crash_restart"];
const PT: usize = 0;
const BUILD: usize = 1;
const SETS: usize = 2;
const REV: usize = 3;
const NORM: usize = 4;
const QP: usize = 5;
const QS: usize = 6;
const QL: usize = 7;
const SEND: usize = 8;
const RECV: usize = 9;
const CKPT: usize = 10;
const CRASHR: usize = 11;
const PROBES: &[&str] = &[
    "projects inside", "projects outside", "zero-length segment", "reflected", "segments meet", "segments apart", "segments parallel", "overlap",
    "projected segment", "no projection", "normalized swap", "restored", "segment delivered", "exact query", "equal up to direction", "line intersection",
];
const SEGS: usize = 3;
const PTS: usize = 3;

#[derive(Clone)]
struct Node {
    s: [LineSegment; SEGS],
    p: [Coordinate; PTS],
    ms: [[C4; 2]; SEGS],
    mp: [C4; PTS],
}
type Msg = Arc<(LineSegment, [C4; 2], Coordinate, C4)>;
struct W {
    nodes: Vec<Own<(Node, Node)>>,
    mail: Own<Vec<Option<Msg>>>,
}
fn bits2(s: &LineSegment) -> [C4; 2] {
    [bits(&s.p0), bits(&s.p1)]
}
fn xy(c: &C4) -> (f64, f64) {
    (f64::from_bits(c[0]), f64::from_bits(c[1]))
}
fn lex(a: &C4, b: &C4) -> i32 {
    let (a, b) = (xy(a), xy(b));
    if a.0 != b.0 {
        return if a.0 < b.0 { -1 } else { 1 };
    }
    if a.1 != b.1 {
        return if a.1 < b.1 { -1 } else { 1 };
    }
    0
}
/// the points on one integer grid, with every difference below 2^25, so that double arithmetic on
/// products of differences is exact; with the unit and the largest ordinate
struct Exact {
    g: Vec<P>,
    unit: f64,
    mag: f64,
}
fn exact(c: &[&C4]) -> Option<Exact> {
    let v: Vec<f64> = c.iter().flat_map(|c| [xy(c).0, xy(c).1]).collect();
    if v.iter().any(|x| !x.is_finite()) {
        return None;
    }
    let (g, e) = to_grid(&v)?;
    let mag = v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if mag > 1e60 || !(-200..200).contains(&e) {
        return None;
    }
    for k in 0..2 {
        let d: Vec<i128> = g.iter().skip(k).step_by(2).copied().collect();
        if d.iter().max()? - d.iter().min()? >= 1 << 25 {
            return None;
        }
    }
    Some(Exact { g: g.chunks(2).map(|c| (c[0], c[1])).collect(), unit: 2f64.powi(e), mag })
}
fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
fn dot(a: P, b: P) -> i128 {
    a.0 * b.0 + a.1 * b.1
}
fn cross(a: P, b: P) -> i128 {
    a.0 * b.1 - a.1 * b.0
}
fn norm(a: P) -> f64 {
    (dot(a, a) as f64).sqrt()
}
/// distance of p from the segment ab, in grid units
fn dist(p: P, a: P, b: P) -> f64 {
    let d = sub(b, a);
    let l = dot(d, d);
    let t = dot(sub(p, a), d);
    if l == 0 || t <= 0 {
        norm(sub(p, a))
    } else if t >= l {
        norm(sub(p, b))
    } else {
        cross(sub(p, a), d).unsigned_abs() as f64 / (l as f64).sqrt()
    }
}
fn meet(a: P, b: P, c: P, d: P) -> bool {
    let o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)];
    (o[0] * o[1] < 0 && o[2] * o[3] < 0) || on_segment(a, c, d) || on_segment(b, c, d) || on_segment(c, a, b) || on_segment(d, a, b)
}
fn hyp(a: (f64, f64), b: (f64, f64)) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
fn cxy(c: &Coordinate) -> (f64, f64) {
    (c.x, c.y)
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let st = self.nodes[cx.client].get();
        let n = &mut st.0;
        let k = it.ii(0).rem_euclid(SEGS as i64) as usize;
        let j = it.ii(1).rem_euclid(PTS as i64) as usize;
        let l = it.ii(2).rem_euclid(PTS as i64) as usize;
        match it.op {
            PT => {
                let q = quads(&it.f);
                if q.is_empty() {
                    return Ok(());
                }
                n.p[j] = coord(&q[0]);
                n.mp[j] = q[0];
            }
            BUILD => {
                let (a, b) = (n.mp[j], n.mp[l]);
                let how = it.ii(3).rem_euclid(4);
                let other = n.s[j];
                n.s[k] = cx.must("new segment", || match how {
                    0 => LineSegment::new_from_coordinates(&n.p[j], &n.p[l]),
                    1 => LineSegment::new_from_xy(n.p[j].x, n.p[j].y, n.p[l].x, n.p[l].y),
                    2 => LineSegment::new_from_line_segment(&other),
                    _ => LineSegment::default(),
                })?;
                let nan = fb(f64::NAN);
                n.ms[k] = match how {
                    0 => [a, b],
                    1 => [[a[0], a[1], nan, nan], [b[0], b[1], nan, nan]],
                    2 => n.ms[j],
                    _ => [[0, 0, nan, nan]; 2],
                };
            }
            SETS => {
                let (a, b) = if it.ii(3) % 2 == 0 { (n.mp[j], n.mp[l]) } else { (n.ms[j][0], n.ms[j][1]) };
                let other = n.s[j];
                cx.must("set coordinates", || if it.ii(3) % 2 == 0 { n.s[k].set_coordinates(&n.p[j], &n.p[l]) } else { n.s[k].set_coordinates_from_line_segment(other) })?;
                let got = bits2(&n.s[k]);
                for (g, (w, o)) in got.iter().zip([(a, n.ms[k][0]), (b, n.ms[k][1])]) {
                    check!(g[..2] == w[..2], "content: set to {} but is {}", show4(&[w]), show4(&[*g]));
                    // elevation and measure are either copied too or left alone
                    for d in 2..4 {
                        check!(g[d] == w[d] || g[d] == o[d], "content: set to {} from {} but is {}", show4(&[w]), show4(&[o]), show4(&[*g]));
                    }
                }
                n.ms[k] = got;
            }
            REV => {
                cx.must("reverse", || n.s[k].reverse())?;
                n.ms[k].swap(0, 1);
            }
            NORM => {
                cx.must("normalize", || n.s[k].normalize())?;
                if lex(&n.ms[k][1], &n.ms[k][0]) < 0 {
                    cx.probe(10);
                    n.ms[k].swap(0, 1);
                }
            }
            QP => self.query_point(cx, n, k, j)?,
            QS => self.query_segment(cx, n, k, it.ii(1).rem_euclid(SEGS as i64) as usize)?,
            QL => self.query_place(cx, n, k, it.ff(0), it.ff(1))?,
            SEND => {
                let s = it.ii(0) as usize;
                let mb = self.mail.get();
                while mb.len() <= s {
                    mb.push(None);
                }
                let x = it.ii(1).rem_euclid(3) as usize;
                mb[s] = Some(Arc::new((n.s[x], n.ms[x], n.p[x], n.mp[x])));
            }
            RECV => {
                let s = it.ii(0) as usize;
                let Some(Some(m)) = self.mail.get().get(s).cloned() else { return Ok(()) };
                let x = it.ii(1).rem_euclid(3) as usize;
                n.s[x] = cx.must("copy", || LineSegment::new_from_line_segment(&m.0))?;
                n.ms[x] = m.1;
                n.p[x] = cx.must("copy", || Coordinate::from_coordinate(&m.2))?;
                n.mp[x] = m.3;
                cx.probe(12);
                cx.nontrivial();
            }
            CKPT => st.1 = st.0.clone(),
            CRASHR => {
                st.0 = st.1.clone();
                cx.probe(11);
                cx.nontrivial();
            }
            _ => {}
        }
        Ok(())
    }
    fn query_point(&self, cx: &Cx, n: &Node, k: usize, j: usize) -> Res {
        let (s, p) = (&n.s[k], &n.p[j]);
        let [a, b] = n.ms[k];
        let q = n.mp[j];
        let w = || format!("segment {} point {}", show4(&[a, b]), show4(&[q]));
        let r = cx.must("point queries", || {
            (s.distance_coordinate(p), s.distance_perpendicular(p), s.distance_perpendicular_oriented(p), s.projection_factor(p), s.segment_fraction(p),
             s.project_coordinate(p), s.closest_point(p), s.reflect(p), s.orientation_index_coordinate(p))
        })?;
        for v in [r.0, r.1, r.2, r.3, r.4, r.5.x, r.5.y, r.6.x, r.6.y, r.7.x, r.7.y] {
            cx.logf(v);
        }
        let Some(e) = exact(&[&a, &b, &q]) else { return Ok(()) };
        cx.probe(13);
        let (ga, gb, gq) = (e.g[0], e.g[1], e.g[2]);
        let d = sub(gb, ga);
        let len2 = dot(d, d);
        let t = dot(sub(gq, ga), d);
        let tol = 1e-14 * e.mag;
        check!(r.8 == orient(ga, gb, gq), "orientation: {} is {}: {}", r.8, orient(ga, gb, gq), w());
        let dd = dist(gq, ga, gb) * e.unit;
        check!((r.0 - dd).abs() <= tol && (r.0 == 0.0) == (dd == 0.0), "distance: {:?}, expected {dd:?}: {}", r.0, w());
        let perp = if len2 == 0 { norm(sub(gq, ga)) } else { cross(sub(gq, ga), d).unsigned_abs() as f64 / (len2 as f64).sqrt() } * e.unit;
        check!((r.1 - perp).abs() <= tol, "distance: perpendicular {:?}, expected {perp:?}: {}", r.1, w());
        let sp = if len2 != 0 && orient(ga, gb, gq) < 0 { -perp } else { perp };
        check!((r.2 - sp).abs() <= tol, "distance: oriented perpendicular {:?}, expected {sp:?}: {}", r.2, w());
        check!((cxy(&r.6) == xy(&a) || cxy(&r.6) == xy(&b)) || (t > 0 && t < len2), "closest: ({:?} {:?}) is no end: {}", r.6.x, r.6.y, w());
        check!((hyp(cxy(&r.6), xy(&q)) - dd).abs() <= tol, "closest: ({:?} {:?}) is not at distance {dd:?}: {}", r.6.x, r.6.y, w());
        if len2 == 0 {
            cx.probe(2);
            if gq != ga {
                check!(r.3.is_nan(), "projection: factor {:?} on a zero-length segment: {}", r.3, w());
            }
            check!(r.3 == 0.0 || r.3.is_nan(), "projection: factor {:?}: {}", r.3, w());
            return Ok(());
        }
        cx.probe(if t > 0 && t < len2 { 0 } else { 1 });
        let f = t as f64 / len2 as f64;
        check!((r.3 - f).abs() <= 1e-15 * f.abs(), "projection: factor {:?}, expected {f:?}: {}", r.3, w());
        check!((r.4 - f.clamp(0.0, 1.0)).abs() <= 1e-15, "projection: fraction {:?}, expected {f:?}: {}", r.4, w());
        // the projection is on the line through the segment and as far from the point as the line is
        let (ax, bx) = (xy(&a), xy(&b));
        let far = e.mag * (1.0 + f.abs());
        let at = |f: f64| (ax.0 + f * (bx.0 - ax.0), ax.1 + f * (bx.1 - ax.1));
        let pw = at(f);
        check!(hyp(cxy(&r.5), pw) <= 1e-14 * far, "projection: ({:?} {:?}), expected {pw:?}: {}", r.5.x, r.5.y, w());
        check!(fb(r.5.z) == q[2] && fb(r.5.m) == q[3], "projection: the point's other ordinates have changed: {}", w());
        if t <= 0 || t >= len2 {
            check!(cxy(&r.6) == if t <= 0 { ax } else { bx }, "closest: ({:?} {:?}) is the wrong end: {}", r.6.x, r.6.y, w());
        } else {
            check!(hyp(cxy(&r.6), pw) <= 1e-14 * far, "closest: ({:?} {:?}), expected {pw:?}: {}", r.6.x, r.6.y, w());
        }
        // the reflection is twice the projection minus the point
        let rw = (2.0 * pw.0 - xy(&q).0, 2.0 * pw.1 - xy(&q).1);
        cx.probe(3);
        check!(hyp(cxy(&r.7), rw) <= 1e-13 * far, "reflection: ({:?} {:?}), expected {rw:?}: {}", r.7.x, r.7.y, w());
        check!(fb(r.7.z) == q[2] && fb(r.7.m) == q[3], "reflection: the point's other ordinates have changed: {}", w());
        Ok(())
    }
    fn query_segment(&self, cx: &Cx, n: &Node, k: usize, j: usize) -> Res {
        let (s, o) = (&n.s[k], &n.s[j]);
        let ([a, b], [c, d]) = (n.ms[k], n.ms[j]);
        let w = || format!("segments {} and {}", show4(&[a, b]), show4(&[c, d]));
        let r = cx.must("segment queries", || {
            (s.equals(o), s.equals_topo(o), s.compare_to(o), s.distance_line_segment(o), s.orientation_index_line_segment(o),
             s.intersection(o), s.line_intersection(*o), s.closest_points(o), s.project_line_segment(o))
        })?;
        let (same, flip) = (eq2(&a, &c) && eq2(&b, &d), eq2(&a, &d) && eq2(&b, &c));
        if flip {
            cx.probe(14);
        }
        check!(r.0 == same, "equality: {} expected {same}: {}", r.0, w());
        check!(r.1 == (same || flip), "equality: up to direction {} expected {}: {}", r.1, same || flip, w());
        let cmp = match lex(&a, &c) {
            0 => lex(&b, &d),
            x => x,
        };
        check!(r.2 == cmp, "order: {} expected {cmp}: {}", r.2, w());
        cx.logf(r.3);
        let Some(e) = exact(&[&a, &b, &c, &d]) else { return Ok(()) };
        cx.probe(13);
        let (ga, gb, gc, gd) = (e.g[0], e.g[1], e.g[2], e.g[3]);
        let tol = 1e-14 * e.mag;
        let (o0, o1) = (orient(ga, gb, gc), orient(ga, gb, gd));
        let ow = if o0 * o1 < 0 { 0 } else if o0 != 0 { o0 } else { o1 };
        check!(r.4 == ow, "orientation: {} expected {ow}: {}", r.4, w());
        let m = meet(ga, gb, gc, gd);
        let dw = if m { 0.0 } else { dist(ga, gc, gd).min(dist(gb, gc, gd)).min(dist(gc, ga, gb)).min(dist(gd, ga, gb)) } * e.unit;
        cx.probe(if m { 4 } else { 5 });
        check!((r.3 - dw).abs() <= tol && (r.3 == 0.0) == m, "distance: {:?}, expected {dw:?}: {}", r.3, w());
        check!(r.5.is_some() == m, "intersection: {} expected {m}: {}", r.5.is_some(), w());
        let on = |p: &Coordinate, u: &C4, v: &C4| {
            let (x, u, v) = (cxy(p), xy(u), xy(v));
            let (dx, dy) = (v.0 - u.0, v.1 - u.1);
            let t = (((x.0 - u.0) * dx + (x.1 - u.1) * dy) / (dx * dx + dy * dy).max(f64::MIN_POSITIVE)).clamp(0.0, 1.0);
            hyp(x, (u.0 + t * dx, u.1 + t * dy)) <= 4.0 * tol
        };
        if let Some(p) = &r.5 {
            check!(on(p, &a, &b) && on(p, &c, &d), "intersection: ({:?} {:?}) is not on both: {}", p.x, p.y, w());
        }
        // the pair of closest points
        check!(r.7.len() == 2, "closest: {} points, expected a pair: {}", r.7.len(), w());
        check!(on(&r.7[0], &a, &b) && on(&r.7[1], &c, &d), "closest: {} are not on their segments: {}", show4(&bits_of(&r.7)), w());
        check!((hyp(cxy(&r.7[0]), cxy(&r.7[1])) - dw).abs() <= 4.0 * tol, "closest: {} are not {dw:?} apart: {}", show4(&bits_of(&r.7)), w());
        // lines
        let (u, v) = (sub(gb, ga), sub(gd, gc));
        let den = cross(u, v);
        if den == 0 {
            cx.probe(6);
            if u != (0, 0) && v != (0, 0) && m && o0 == 0 && r.3 == 0.0 {
                cx.probe(7);
            }
            check!(r.6.is_none(), "lines: parallel or degenerate lines meet in {}: {}", show4(&bits_of(&[r.6.unwrap()])), w());
        } else if den.unsigned_abs() as f64 > 1e-3 * norm(u) * norm(v) {
            cx.probe(15);
            let t = cross(sub(gc, ga), v) as f64 / den as f64;
            let x = ((ga.0 as f64 + t * u.0 as f64) * e.unit, (ga.1 as f64 + t * u.1 as f64) * e.unit);
            let Some(p) = &r.6 else {
                return Err(Stop::Viol(format!("lines: no intersection, expected {x:?}: {}", w())));
            };
            check!(hyp(cxy(p), x) <= 1e-9 * (e.mag + x.0.abs() + x.1.abs()), "lines: meet in ({:?} {:?}), expected {x:?}: {}", p.x, p.y, w());
        }
        // the part of this segment that the other one projects onto
        let l2 = dot(u, u);
        if l2 != 0 {
            let (t0, t1) = (dot(sub(gc, ga), u), dot(sub(gd, ga), u));
            let none = (t0 >= l2 && t1 >= l2) || (t0 <= 0 && t1 <= 0);
            cx.probe(if none { 9 } else { 8 });
            check!(r.8.is_none() == none, "projection: of a segment is {}, expected {}: {}", r.8.is_some(), !none, w());
            if let Some(g) = &r.8 {
                for (p, t) in [(&g.p0, t0), (&g.p1, t1)] {
                    let f = (t as f64 / l2 as f64).clamp(0.0, 1.0);
                    let (ax, bx) = (xy(&a), xy(&b));
                    let x = (ax.0 + f * (bx.0 - ax.0), ax.1 + f * (bx.1 - ax.1));
                    check!(hyp(cxy(p), x) <= tol, "projection: of a segment has ({:?} {:?}), expected {x:?}: {}", p.x, p.y, w());
                }
            }
        }
        Ok(())
    }
    fn query_place(&self, cx: &Cx, n: &Node, k: usize, frac: f64, off: f64) -> Res {
        let s = &n.s[k];
        let [a, b] = n.ms[k];
        let (ax, bx) = (xy(&a), xy(&b));
        let w = || format!("segment {} at {frac:?} offset {off:?}", show4(&[a, b]));
        let r = cx.must("place queries", || {
            (s.min_x(), s.max_x(), s.min_y(), s.max_y(), s.get_length(), s.is_horizontal(), s.is_vertical(), s.angle(), s.mid_point(), s.point_along(frac),
             s.point_along_offset(frac, off), s.offset(off))
        })?;
        let g = cx.must("get coordinate", || [s.get_coordinate(0), s.get_coordinate(1)])?;
        check!([bits(&g[0]), bits(&g[1])] == n.ms[k], "content: reads {}: {}", show4(&bits_of(&g)), w());
        if [ax.0, ax.1, bx.0, bx.1].iter().any(|v| !v.is_finite() || v.abs() > 1e100) {
            return Ok(());
        }
        check!((r.0, r.1, r.2, r.3) == (ax.0.min(bx.0), ax.0.max(bx.0), ax.1.min(bx.1), ax.1.max(bx.1)), "extent: {:?}: {}", (r.0, r.1, r.2, r.3), w());
        check!(r.5 == (ax.1 == bx.1) && r.6 == (ax.0 == bx.0), "direction: horizontal {} vertical {}: {}", r.5, r.6, w());
        let mag = ax.0.abs().max(ax.1.abs()).max(bx.0.abs()).max(bx.1.abs());
        let d = (bx.0 - ax.0, bx.1 - ax.1);
        let len = d.0.hypot(d.1);
        check!((r.4 - len).abs() <= 1e-15 * len * 4.0, "length: {:?}, expected {len:?}: {}", r.4, w());
        check!((r.7 - d.1.atan2(d.0)).abs() <= 1e-15, "angle: {:?}: {}", r.7, w());
        let tol = 1e-15 * 4.0 * mag;
        check!(hyp(cxy(&r.8), ((ax.0 + bx.0) / 2.0, (ax.1 + bx.1) / 2.0)) <= tol, "middle: ({:?} {:?}): {}", r.8.x, r.8.y, w());
        let at = (ax.0 + frac * d.0, ax.1 + frac * d.1);
        let t2 = 1e-14 * (mag * (1.0 + frac.abs()) + off.abs());
        check!(hyp(cxy(&r.9), at) <= t2, "along: ({:?} {:?}), expected {at:?}: {}", r.9.x, r.9.y, w());
        if len > 0.0 && len.is_normal() && len > 1e-100 || off == 0.0 {
            // positive offsets lie to the left
            let u = if off == 0.0 { (0.0, 0.0) } else { (off * d.0 / len, off * d.1 / len) };
            let x = (at.0 - u.1, at.1 + u.0);
            check!(hyp(cxy(&r.10), x) <= t2, "offset: ({:?} {:?}), expected {x:?}: {}", r.10.x, r.10.y, w());
            for (p, e) in [(&r.11.p0, ax), (&r.11.p1, bx)] {
                let x = (e.0 - u.1, e.1 + u.0);
                check!(hyp(cxy(p), x) <= t2, "offset: segment end ({:?} {:?}), expected {x:?}: {}", p.x, p.y, w());
            }
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        self.step(cx, it)?;
        cx.calm();
        let n = &self.nodes[cx.client].get().0;
        // every register is what the history says, queries included
        for k in 0..SEGS {
            let g = bits2(&n.s[k]);
            check!(g == n.ms[k], "content: segment {} should be {}", show4(&g), show4(&n.ms[k]));
            cx.log(g[0][0] ^ g[0][1].rotate_left(17) ^ g[1][0].rotate_left(31) ^ g[1][1].rotate_left(47));
        }
        for k in 0..PTS {
            let g = bits(&n.p[k]);
            check!(g == n.mp[k], "content: point {} should be {}", show4(&[g]), show4(&[n.mp[k]]));
        }
        Ok(())
    }
}
fn gen(r: &mut Rng, _index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let shape = r.below(4);
    let mut pool: Vec<f64> = (0..2 + r.us(6)).map(|_| if shape < 2 { intval(r) } else { val(r, st) }).collect();
    near(r, &mut pool, true);
    let kind = r.below(6);
    let pt = |r: &mut Rng| {
        let mut v = quad(r, &pool, kind);
        if shape == 1 && r.one_in(2) {
            v[1] = v[0] * 2.0 + if r.one_in(4) { 1.0 } else { 0.0 };
        }
        v
    };
    let any = |r: &mut Rng| r.range(0, 2);
    for c in 0..nodes {
        for k in 0..PTS as i64 {
            g.ev.push((0, item(c, PT, vec![0, k], pt(r))));
        }
        for k in 0..SEGS as i64 {
            let l = r.range(1, 2);
            g.ev.push((1, item(c, BUILD, vec![k, k, (k + l) % 3, r.range(0, 1)], vec![])));
        }
    }
    let n = 6 + r.count(24);
    let n = hist(r, n);
    for _ in 0..n {
        let c = r.us(nodes);
        let it = match r.below(20) {
            0..=2 => item(c, PT, vec![0, any(r)], pt(r)),
            3 | 4 => item(c, BUILD, vec![any(r), any(r), any(r), if r.one_in(12) { 3 } else { r.range(0, 2) }], vec![]),
            5 => item(c, SETS, vec![any(r), any(r), any(r), r.range(0, 1)], vec![]),
            6 | 7 => item(c, REV, vec![any(r)], vec![]),
            8 | 9 => item(c, NORM, vec![any(r)], vec![]),
            10 | 11 => item(c, QP, vec![any(r), any(r)], vec![]),
            12 | 13 => item(c, QS, vec![any(r), any(r)], vec![]),
            14 => {
                let f = *r.pick(&[0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 0.1]);
                let o = *r.pick(&[0.0, 1.0, -1.0, 2.5, -100.0]);
                item(c, QL, vec![any(r)], vec![f, o])
            }
            15 => item(c, CKPT, vec![], vec![]),
            16 => {
                g.crash(r, c, CRASHR);
                continue;
            }
            _ => {
                g.send(r, c, SEND, RECV);
                continue;
            }
        };
        g.at(it, r);
    }
    g.drill(r);
    let mut c = g.build(r, &Mix { threads: 0.4, oom: 0.1, max_gap: 800 }, None);
    for k in 0..nodes {
        for s in 0..SEGS as i64 {
            c.items.push(item(k, QP, vec![s, any(r)], vec![]));
            c.items.push(item(k, QS, vec![s, any(r)], vec![]));
        }
    }
    c
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    let z = Coordinate::default();
    let n = Node { s: [LineSegment::default(); SEGS], p: [z; PTS], ms: [[bits(&z); 2]; SEGS], mp: [bits(&z); PTS] };
    Box::new(W { nodes: (0..clients(c)).map(|_| Own::new((n.clone(), n.clone()))).collect(), mail: Own::new(vec![]) })
}
pub const DEF: Def = Def {
    id: "C15",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 150_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if a segment was delivered or a node was restored after a crash; distinct by event-log hash",
    real: &["LineSegment", "Coordinate", "Distance", "Intersection", "RobustLineIntersector", "Orientation", "CGAlgorithmsDD", "DD"],
    stub: &["network, checkpoint store and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
