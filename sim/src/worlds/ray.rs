//! Incremental point-in-ring: segments of the rings arrive as messages.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::oracle::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;

const OPS: &[&str] = &["start", "segment", "crash_restart", "query", "locate", "segment_test", "rest"];
const START: usize = 0;
const SEG: usize = 1;
const CRASHR: usize = 2;
const QUERY: usize = 3;
const LOCATE: usize = 4;
const SEGT: usize = 5;
const REST: usize = 6;
const PROBES: &[&str] = &["interior", "exterior", "boundary", "point level with a vertex", "rebuilt after crash", "duplicate suppressed", "several rings", "unclosed line", "complete set checked"];

/// i = [rings, n1, n2, ..], f = x,y of the query point, then all ring coordinates
struct Shape {
    p: (f64, f64),
    rings: Vec<Vec<(f64, f64)>>,
}
fn shape(it: &Item) -> Option<Shape> {
    let mut k = 2;
    let mut rings = vec![];
    for n in &it.i[1.min(it.i.len())..] {
        let n = (*n).clamp(0, 200_000) as usize;
        if k + 2 * n > it.f.len() {
            return None;
        }
        rings.push(it.f[k..k + 2 * n].chunks_exact(2).map(|c| (c[0], c[1])).collect());
        k += 2 * n;
    }
    if it.f.len() < 2 {
        return None;
    }
    Some(Shape { p: (it.f[0], it.f[1]), rings })
}
struct Exact {
    p: P,
    rings: Vec<Vec<P>>,
}
fn exact(s: &Shape) -> Option<Exact> {
    let mut v = vec![s.p.0, s.p.1];
    for r in &s.rings {
        for c in r {
            v.push(c.0);
            v.push(c.1);
        }
    }
    let (g, _) = to_grid_bits(&v, 60)?;
    let wide = g.iter().any(|x| x.abs() >= 1 << 50);
    let mut k = 2;
    let rings: Vec<Vec<P>> = s
        .rings
        .iter()
        .map(|r| {
            r.iter()
                .map(|_| {
                    k += 2;
                    (g[k - 2], g[k - 1])
                })
                .collect()
        })
        .collect();
    let p = (g[0], g[1]);
    // on grids of more than 50 bits the last digits of the determinant are not promised
    if wide && rings.iter().any(|r| r.windows(2).any(|w| doubtful(w[0], w[1], p) || doubtful(w[1], w[0], p))) {
        return None;
    }
    Some(Exact { p, rings })
}
/// even-odd rule, exact
fn locate(p: P, rings: &[Vec<P>]) -> i32 {
    let mut odd = false;
    for r in rings {
        for w in r.windows(2) {
            let (a, b) = (w[0], w[1]);
            if on_segment(p, a, b) {
                return 1;
            }
            if (a.1 > p.1) != (b.1 > p.1) {
                let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
                odd ^= orient(lo, hi, p) > 0;
            }
        }
    }
    if odd { 0 } else { 2 }
}
struct Node {
    s: Option<(Shape, Exact)>,
    c: Option<RayCrossingCounter>,
    seen: Vec<(usize, usize)>,
    done: std::collections::HashSet<(usize, usize)>,
    rev: Vec<bool>,
    on: bool,
    cnt: i32,
}
struct W {
    nodes: Vec<Own<Node>>,
}
fn co(p: (f64, f64)) -> Coordinate {
    Coordinate::new_xy(p.0, p.1)
}
const LOC: [&str; 3] = ["interior", "boundary", "exterior"];

impl Node {
    fn feed(&mut self, cx: &Cx, r: usize, k: usize) -> Res {
        let (s, _) = self.s.as_ref().unwrap();
        let (mut a, mut b) = (co(s.rings[r][k]), co(s.rings[r][k + 1]));
        if self.rev[r] {
            std::mem::swap(&mut a, &mut b);
        }
        let c = self.c.as_mut().unwrap();
        cx.must("count_segment", || c.count_segment(&a, &b))
    }
    fn complete(&self) -> bool {
        let (s, _) = self.s.as_ref().unwrap();
        let all: usize = s.rings.iter().map(|r| r.len().saturating_sub(1)).sum();
        self.done.len() == all && s.rings.iter().all(|r| r.first() == r.last())
    }
    fn inspect(&mut self, cx: &Cx) -> Res {
        let (Some((_, e)), Some(c)) = (&self.s, &self.c) else { return Ok(()) };
        let (on, cnt, loc, inp) = cx.must("counter state", || (c.is_on_segment(), c.get_count(), c.get_location(), c.is_point_in_polygon()))?;
        let seen_on = self.done.iter().any(|(r, k)| on_segment(e.p, e.rings[*r][*k], e.rings[*r][*k + 1]));
        check!(!on || seen_on, "boundary: the point is reported on a segment but lies on none of those counted");
        check!(on || !self.on, "boundary: an earlier boundary answer was forgotten");
        check!(cnt >= self.cnt && cnt as usize <= self.done.len(), "count: crossing count went from {} to {cnt} after {} segments", self.cnt, self.done.len());
        let want = if on { 1 } else if cnt % 2 == 1 { 0 } else { 2 };
        check!(loc == want && inp == (want != 2), "location: location {loc} / in-polygon {inp} with on-segment {on} and count {cnt}");
        self.on = on;
        self.cnt = cnt;
        cx.log(cnt as u64 * 2 + on as u64);
        if self.complete() {
            let w = locate(e.p, &e.rings);
            check!(loc == w, "location: after all segments the point is {} but exactly {}", LOC[loc as usize], LOC[w as usize]);
            check!(inp == (w != 2), "location: in-polygon {inp} but exactly {}", LOC[w as usize]);
            cx.probe(match w { 0 => 0, 1 => 2, _ => 1 });
            cx.probe(8);
        }
        Ok(())
    }
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        match it.op {
            START => {
                n.s = None;
                let Some(s) = shape(it) else { return Ok(()) };
                let Some(e) = exact(&s) else { return Ok(()) };
                if s.rings.len() > 1 {
                    cx.probe(6)
                }
                if e.rings.iter().any(|r| r.iter().any(|v| v.1 == e.p.1)) {
                    cx.probe(3)
                }
                n.rev = (0..s.rings.len()).map(|k| it.ii(0) >> k & 1 == 1).collect();
                let p = co(s.p);
                n.s = Some((s, e));
                n.seen.clear();
                n.done.clear();
                n.on = false;
                n.cnt = 0;
                n.c = None;
                n.c = Some(cx.must("new", || RayCrossingCounter::new_with_coordinate(&p))?);
            }
            SEG => {
                let Some((s, _)) = &n.s else { return Ok(()) };
                let (r, k) = (it.ii(0) as usize, it.ii(1) as usize);
                if r >= s.rings.len() || k + 1 >= s.rings[r].len() || n.c.is_none() {
                    return Ok(());
                }
                // delivery is at-least-once; the receiver is exactly-once
                if n.done.contains(&(r, k)) {
                    cx.probe(5);
                    return Ok(());
                }
                n.feed(cx, r, k)?;
                n.done.insert((r, k));
                n.seen.push((r, k));
                cx.nontrivial();
                n.inspect(cx)?;
            }
            CRASHR => {
                let Some((s, _)) = &n.s else { return Ok(()) };
                let p = co(s.p);
                n.c = None;
                let c = cx.must("new", || RayCrossingCounter::new_with_coordinate(&p))?;
                n.c = Some(c);
                // the log is replayed, possibly in another order
                let log = n.seen.clone();
                let old = (n.on, n.cnt);
                n.on = false;
                n.cnt = 0;
                match it.ii(0) {
                    0 => log.iter().try_for_each(|x| n.feed(cx, x.0, x.1))?,
                    1 => log.iter().rev().try_for_each(|x| n.feed(cx, x.0, x.1))?,
                    _ => log.iter().step_by(2).chain(log.iter().skip(1).step_by(2)).try_for_each(|x| n.feed(cx, x.0, x.1))?,
                }
                cx.probe(4);
                n.inspect(cx)?;
                let c = n.c.as_ref().unwrap();
                let now = (c.is_on_segment(), c.get_count());
                check!(now.0 == old.0 && (now.0 || now.1 == old.1), "replay: counter was {old:?} before the crash and is {now:?} after replaying its log");
            }
            REST => {
                // everything that is still missing, in some order
                let Some((s, _)) = &n.s else { return Ok(()) };
                if n.c.is_none() {
                    return Ok(());
                }
                let mut todo: Vec<(usize, usize)> = (0..s.rings.len()).flat_map(|r| (0..s.rings[r].len().saturating_sub(1)).map(move |k| (r, k))).filter(|x| !n.done.contains(x)).collect();
                match it.ii(0) {
                    0 => {}
                    1 => todo.reverse(),
                    x => Rng::new(x as u64).shuffle(&mut todo),
                }
                let every = (todo.len() / 5).max(1);
                for (k, x) in todo.into_iter().enumerate() {
                    n.feed(cx, x.0, x.1)?;
                    n.done.insert(x);
                    n.seen.push(x);
                    if k % every == 0 {
                        n.inspect(cx)?;
                    }
                }
                cx.nontrivial();
                n.inspect(cx)?;
            }
            QUERY => n.inspect(cx)?,
            LOCATE => {
                let Some(s) = shape(it) else { return Ok(()) };
                let Some(e) = exact(&s) else { return Ok(()) };
                for (r, x) in s.rings.iter().zip(&e.rings) {
                    let p = co(s.p);
                    let v: Vec<Coordinate> = r.iter().map(|c| co(*c)).collect();
                    let cs = cx.must("sequence", || CoordinateArraySequence::new_with_coordinates(&v))?;
                    let pk = cx.must("sequence", || {
                        let mut pk = PackedCoordinateSequenceDouble::new_with_size_dimension_measures(v.len(), 2, 0);
                        for (k, c) in v.iter().enumerate() {
                            pk.set_ordinate(k, 0, c.x);
                            pk.set_ordinate(k, 1, c.y);
                        }
                        pk
                    })?;
                    let on = x.windows(2).any(|w| on_segment(e.p, w[0], w[1]));
                    let g = cx.must("is_on_line", || (PointLocation::is_on_line_coordinates(&p, &v), PointLocation::is_on_line_coordinate_array_sequence(&p, &cs)))?;
                    check!(g == (on, on), "on-line: is_on_line = {g:?}, exactly {on}");
                    if r.first() != r.last() {
                        cx.probe(7);
                        continue;
                    }
                    let w = locate(e.p, std::slice::from_ref(x));
                    let g = cx.must("locate", || {
                        [
                            RayCrossingCounter::locate_point_in_ring_vec(&p, &v),
                            RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&p, &cs),
                            RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&p, &pk),
                            PointLocation::locate_in_ring(&p, &v),
                        ]
                    })?;
                    check!(g == [w; 4], "location: locate = {g:?}, exactly {w} (0 interior, 1 boundary, 2 exterior)");
                    let i = cx.must("is_in_ring", || PointLocation::is_in_ring(&p, &v))?;
                    check!(i == (w != 2), "location: is_in_ring = {i}, exactly {}", LOC[w as usize]);
                    cx.probe(match w { 0 => 0, 1 => 2, _ => 1 });
                    cx.log(w as u64);
                }
            }
            SEGT => {
                let Some(s) = shape(it) else { return Ok(()) };
                let Some(e) = exact(&s) else { return Ok(()) };
                let p = co(s.p);
                for (r, x) in s.rings.iter().zip(&e.rings) {
                    for (a, b) in r.windows(2).zip(x.windows(2)) {
                        let g = cx.must("is_on_segment", || PointLocation::is_on_segment(&p, &co(a[0]), &co(a[1])))?;
                        let w = on_segment(e.p, b[0], b[1]);
                        check!(g == w, "on-segment: is_on_segment = {g}, exactly {w}");
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let r = self.step(cx, it);
        if let Err(Stop::Oom) = r {
            // a node that runs out of memory while counting is lost
            self.nodes[cx.client].get().s = None;
        }
        r
    }
    fn finish(&self, cx: &Cx) -> Res {
        for n in &self.nodes {
            n.get().inspect(cx)?;
        }
        Ok(())
    }
}

/// integer ring on a grid, later scaled exactly
pub fn ring(r: &mut Rng, span: i64) -> Vec<(i64, i64)> {
    ring_long(r, span, 0)
}
/// `long`: number of points of a long ring (0: a short one)
pub fn ring_long(r: &mut Rng, span: i64, long: usize) -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = vec![];
    let p = |r: &mut Rng| (r.range(-span, span), r.range(-span, span));
    match if long > 0 { 9 } else { r.below(6) } {
        9 => {
            let step = 2 * span / long as i64;
            match r.below(4) {
                // zigzag, closed below or through the middle
                0 => {
                    for k in 0..long as i64 {
                        v.push((-span + k * step, if k % 2 == 0 { -span } else { span }));
                    }
                    if r.one_in(2) {
                        v.push((v[v.len() - 1].0, -span - 1));
                        v.push((-span, -span - 1));
                    }
                }
                // up and down
                1 => {
                    for k in 0..long as i64 {
                        v.push((if k % 2 == 0 { r.range(-span, -1) } else { r.range(1, span) }, -span + k * step));
                    }
                }
                // staircase with a way back
                2 => {
                    for k in 0..long as i64 / 2 {
                        v.push((-span + 2 * k * step, -span + 2 * k * step));
                        v.push((-span + 2 * k * step, -span + 2 * (k + 1) * step));
                    }
                    v.push((span, -span));
                }
                _ => {
                    for _ in 0..long {
                        v.push(p(r));
                    }
                }
            }
            if r.one_in(2) {
                v.reverse();
            }
            if r.one_in(2) {
                let k = r.us(v.len());
                v.rotate_left(k);
            }
        }
        0 => {
            let (a, b) = (p(r), p(r));
            v.extend([(a.0, a.1), (b.0, a.1), (b.0, b.1), (a.0, b.1)]);
        }
        1 => {
            // rectilinear walk
            let mut c = p(r);
            let h = r.one_in(2);
            for k in 0..2 + 2 * r.us(5) {
                v.push(c);
                if (k % 2 == 0) == h { c.0 = r.range(-span, span) } else { c.1 = r.range(-span, span) }
            }
        }
        2 => {
            // star-shaped: sorted by angle
            let n = 3 + r.us(9);
            let mut q: Vec<(i64, i64)> = (0..n).map(|_| p(r)).filter(|a| *a != (0, 0)).collect();
            q.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).total_cmp(&(b.1 as f64).atan2(b.0 as f64)));
            v = q;
        }
        3 => {
            // flat: few distinct y values
            for _ in 0..3 + r.us(7) {
                v.push((r.range(-span, span), r.range(-1, 1)));
            }
        }
        _ => {
            for _ in 0..r.us(9) {
                v.push(p(r));
            }
        }
    }
    // repeated and collinear vertices
    if r.one_in(3) && !v.is_empty() {
        for _ in 0..1 + r.us(3) {
            let k = r.us(v.len());
            let a = v[k];
            let b = v[(k + 1) % v.len()];
            let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
            v.insert(k + 1, if r.one_in(2) { a } else { m });
        }
    }
    if let Some(f) = v.first().copied() {
        if !r.one_in(20) {
            v.push(f);
        }
    }
    v
}
fn args(r: &mut Rng, several: bool, long: usize) -> (Vec<i64>, Vec<f64>) {
    let span = *r.pick(&[2i64, 3, 6, 20, 1000, 1 << 20, 1 << 46]);
    let span = if long > 0 { span.max(4 * long as i64) } else { span };
    let rings: Vec<Vec<(i64, i64)>> = (0..if several { 1 + r.us(3) } else { 1 }).map(|k| ring_long(r, span, if k == 0 { long } else { 0 })).collect();
    let all: Vec<(i64, i64)> = rings.iter().flatten().copied().collect();
    let edges: Vec<((i64, i64), (i64, i64))> = rings.iter().flat_map(|g| g.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect();
    let mut p = (r.range(-span, span), r.range(-span, span));
    if !all.is_empty() {
        let edge = |r: &mut Rng| match r.below(4) {
            0 => edges[0],
            1 => edges[edges.len() - 1],
            _ => *r.pick(&edges),
        };
        match r.below(8) {
            0 => p = *r.pick(&all),
            1 => p.1 = r.pick(&all).1,
            2 => p.0 = r.pick(&all).0,
            3 if !edges.is_empty() => {
                let (a, b) = edge(r);
                p = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
            }
            4 if !edges.is_empty() => {
                let (a, b) = edge(r);
                p = ((a.0 + b.0) / 2 + r.range(-1, 1), (a.1 + b.1) / 2 + r.range(-1, 1));
            }
            5 | 6 if !edges.is_empty() => {
                let (a, b) = edge(r);
                p = near_line(r, a, b);
            }
            _ => {}
        }
    }
    // exact placement: scale by a power of two and shift by a grid multiple
    let sc = 2f64.powi(*r.pick(&[0, 0, 0, -3, -20, 5, -300, 300]));
    let (ox, oy) = if r.one_in(3) { (r.range(-1 << 24, 1 << 24), r.range(-1 << 24, 1 << 24)) } else { (0, 0) };
    // now and then points so far apart that their differences are not exact
    let mut p = p;
    let mut rings = rings;
    if r.one_in(12) && long == 0 {
        let fit = |x: i64| x as f64 as i64;
        let k = 1 << (8 + r.below(14));
        for c in rings.iter_mut().flatten() {
            if r.one_in(2) {
                *c = (fit(c.0 * k.min((1 << 57) / span) + r.range(-4, 4)), fit(c.1 * k.min((1 << 57) / span) + r.range(-4, 4)));
            }
        }
        for g in rings.iter_mut() {
            if let Some(f) = g.first().copied() {
                *g.last_mut().unwrap() = f;
            }
            if g.len() > 1 && r.one_in(2) {
                let e = r.us(g.len() - 1);
                p = near_line(r, g[e], g[e + 1]);
                p = (fit(p.0), fit(p.1));
            }
        }
    }
    let all: Vec<(i64, i64)> = rings.iter().flatten().copied().chain([p]).collect();
    let (ox, oy) = if all.iter().any(|c| c.0.abs().max(c.1.abs()) >= 1 << 49) { (0, 0) } else { (ox, oy) };
    let mut f = vec![(p.0 + ox) as f64 * sc, (p.1 + oy) as f64 * sc];
    let mut i = vec![r.range(0, 7)];
    for g in &rings {
        i.push(g.len() as i64);
        for c in g {
            f.push((c.0 + ox) as f64 * sc);
            f.push((c.1 + oy) as f64 * sc);
        }
    }
    (i, f)
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let heal = index % 4 != 0;
    if crowded(index, 2001) {
        return crowds(r, g, nodes);
    }
    let mut starts = vec![];
    let mut rest = vec![];
    for c in 0..nodes {
        let long = if index % 251 == 9 && c == 0 { 300 + r.us(500) } else { 0 };
        let (i, f) = args(r, true, long);
        let ns: Vec<i64> = i[1..].to_vec();
        starts.push(item(c, START, i, f));
        for (k, n) in ns.iter().enumerate() {
            for s in 0..(n - 1).max(0) {
                let it = item(c, SEG, vec![k as i64, s], vec![]);
                let t = r.below(g.horizon);
                let from = r.us(nodes);
                for a in g.net.send(r, from, c, t) {
                    g.ev.push((a, it.clone()));
                }
                rest.push(it);
            }
        }
        if r.one_in(2) {
            g.crash(r, c, CRASHR);
        }
        if r.one_in(2) {
            g.at(item(c, QUERY, vec![], vec![]), r);
        }
    }
    for _ in 0..r.us(6) {
        let long = if r.one_in(40) { [17, 33, 65, 100, 130, 257, 300, 1025][r.us(8)] + r.us(9) } else { 0 };
        let (i, f) = args(r, false, long);
        let op = if r.one_in(3) { SEGT } else { LOCATE };
        g.at(item(r.us(nodes), op, i, f), r);
    }
    for s in starts {
        g.ev.insert(0, (0, s));
    }
    let mut c = g.build(r, &Mix { threads: 0.3, oom: 0.1, max_gap: 200 }, None);
    if heal {
        // the network heals: every lost segment is retransmitted
        r.shuffle(&mut rest);
        c.net[RETRANS] += rest.len() as u64;
        c.items.extend(rest);
    }
    c
}
/// rings of very many vertices
fn crowds(r: &mut Rng, mut g: Gossip, nodes: usize) -> Case {
    let mut starts = vec![];
    for c in 0..nodes {
        let kind = *r.pick(&[0u64, 0, 1, 2]);
        let w = crowd(r, 2, 0, kind);
        let n = w[1] as i64;
        let x = match r.below(4) {
            0 => -9.0,
            1 => r.range(0, 9) as f64,
            2 => (n - r.range(0, 9)) as f64,
            _ => r.range(0, n) as f64 + 0.5,
        };
        let y = r.range(-4, 7) as f64 + if r.one_in(3) { 0.5 } else { 0.0 };
        let y = if w[4] as u64 & 2 == 2 { -y } else { y };
        let f: Vec<f64> = [x, y].into_iter().chain(w).collect();
        starts.push((0, item(c, START, vec![r.range(0, 1), n], f.clone())));
        for _ in 0..1 + r.us(3) {
            g.at(item(c, SEG, vec![0, r.range(0, n)], vec![]), r);
        }
        g.at(item(c, REST, vec![r.range(0, 5)], vec![]), r);
        g.at(item(c, LOCATE, vec![0, n], f), r);
        if r.one_in(2) {
            g.crash(r, c, CRASHR);
        }
        g.at(item(c, QUERY, vec![], vec![]), r);
    }
    for s in starts {
        g.ev.insert(0, s);
    }
    g.build(r, &Mix { threads: 0.3, oom: 0.0, max_gap: 200 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c))
            .map(|_| Own::new(Node { s: None, c: None, seen: vec![], done: Default::default(), rev: vec![], on: false, cnt: 0 }))
            .collect(),
    })
}
pub const DEF: Def = Def {
    id: "C02",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 180_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if at least one segment was delivered to a counter; distinct by event-log hash",
    real: &["RayCrossingCounter", "PointLocation", "Orientation", "CGAlgorithmsDD", "DD", "CoordinateArraySequence", "PackedCoordinateSequenceDouble", "Envelope"],
    stub: &["network with at-least-once delivery, node processes (simulated)"],
};
