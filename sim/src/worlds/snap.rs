//! Coordinates and precision models as mutable values: rounding, ordinate access, comparison.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::sync::Arc;

const OPS: &[&str] = &["model", "rescale", "copy_model", "point", "ordinate", "copy_point", "round_value", "round_point", "compare_points", "compare_models", "send", "recv", "checkpoint", "crash_restart"];
const MODEL: usize = 0;
const SCALE: usize = 1;
const COPYM: usize = 2;
const POINT: usize = 3;
const ORD: usize = 4;
const COPYP: usize = 5;
const ROUNDV: usize = 6;
const ROUNDP: usize = 7;
const CMPP: usize = 8;
const CMPM: usize = 9;
const SEND: usize = 10;
const RECV: usize = 11;
const CKPT: usize = 12;
const CRASHR: usize = 13;
const PROBES: &[&str] = &[
    "rounded to a scale", "rounded to a grid", "single precision", "floating", "negative tie", "positive tie", "not a number", "equal models", "restored", "delivered",
    "rounded twice", "equal points", "points ordered by y",
];
const REG: usize = 3;

/// type, scale, grid (0: the scale was given)
#[derive(Clone, Copy, PartialEq, Debug)]
struct Pm {
    t: u8,
    scale: f64,
    grid: f64,
}
impl Pm {
    fn with(s: f64) -> Pm {
        if s < 0.0 { Pm { t: 1, scale: 1.0 / -s, grid: -s } } else { Pm { t: 1, scale: s, grid: 0.0 } }
    }
    /// smallest and largest acceptable result
    fn round(&self, v: f64) -> (f64, f64) {
        let up = |q: f64| {
            let f = q.floor();
            if q - f >= 0.5 { f + 1.0 } else { f }
        };
        match self.t {
            0 => (v, v),
            2 => (v as f32 as f64, v as f32 as f64),
            _ => {
                let (q, is_exact) = if self.grid > 0.0 {
                    let q = v / self.grid;
                    (q, q.mul_add(self.grid, -v) == 0.0)
                } else {
                    let q = v * self.scale;
                    (q, v.mul_add(self.scale, -q) == 0.0)
                };
                let back = |n: f64| if self.grid > 0.0 { n * self.grid } else { n / self.scale };
                let e = if is_exact { 0.0 } else { q.abs() * 4e-16 };
                let (a, b) = (back(up(q - e)), back(up(q + e)));
                let ulp = 2.3e-16;
                (a - a.abs() * ulp, b + b.abs() * ulp)
            }
        }
    }
}
#[derive(Clone)]
struct Node {
    p: [Coordinate; REG],
    m: [PrecisionModel; REG],
    mp: [C4; REG],
    mm: [Pm; REG],
}
type Msg = Arc<(Coordinate, C4, PrecisionModel, Pm)>;
struct W {
    nodes: Vec<Own<(Node, Node)>>,
    mail: Own<Vec<Option<Msg>>>,
}
fn same_model(cx: &Cx, m: &PrecisionModel, w: &Pm) -> Res {
    let t = match m.get_type() {
        PrecisionModelType::Floating => 0,
        PrecisionModelType::Fixed => 1,
        PrecisionModelType::FloatingSingle => 2,
    };
    let (f, g, s, d) = cx.must("model queries", || (m.is_floating(), m.grid_size(), m.get_scale(), m.get_maximum_significant_digits()))?;
    check!(t == w.t && f == (w.t != 1), "model: type {t} floating {f}, expected {w:?}");
    if w.t == 1 {
        check!(s == w.scale, "model: scale {s:?}, expected {w:?}");
        let e = if w.grid > 0.0 { w.grid } else { 1.0 / w.scale };
        check!(g == e, "model: grid {g:?}, expected {e:?} ({w:?})");
        let l = w.scale.log10();
        if (l - l.round()).abs() > 1e-9 {
            check!(d == 1 + l.ceil() as i32, "model: {d} digits, expected {} ({w:?})", 1 + l.ceil() as i32);
        } else {
            check!(d == 1 + l.round() as i32 || d == 2 + l.round() as i32, "model: {d} digits, expected {} ({w:?})", 1 + l.round() as i32);
        }
    } else {
        check!(g.is_nan(), "model: grid {g:?} without a grid");
        check!(d == if w.t == 0 { 16 } else { 6 }, "model: {d} digits ({w:?})");
    }
    cx.log(d as u64);
    Ok(())
}
/// `got` is `v` rounded to the model
fn rounded(cx: &Cx, w: &Pm, v: f64, got: f64) -> Res {
    if v.is_nan() {
        cx.probe(6);
        check!(got.is_nan(), "rounding: {v} became {got:?}");
        return Ok(());
    }
    if w.t == 0 {
        cx.probe(3);
        check!(fb(got) == fb(v), "rounding: {v:?} became {got:?} though floating");
        return Ok(());
    }
    if w.t == 2 {
        cx.probe(2);
        check!(got == (v as f32) as f64, "rounding: {v:?} became {got:?}, expected single precision {:?}", v as f32);
        return Ok(());
    }
    if !v.is_finite() || (v * w.scale).abs() > 1e14 || (v != 0.0 && v.abs() < 1e-200) {
        return Ok(());
    }
    cx.probe((w.grid > 0.0) as usize);
    let q = if w.grid > 0.0 { v / w.grid } else { v * w.scale };
    if q - q.floor() == 0.5 {
        cx.probe(if q < 0.0 { 4 } else { 5 });
    }
    let (lo, hi) = w.round(v);
    check!(got >= lo && got <= hi, "rounding: {v:?} became {got:?}, expected {lo:?} to {hi:?} ({w:?})");
    Ok(())
}
/// a model and its copy round alike, to the last bit
fn twins(cx: &Cx, mut a: PrecisionModel, mut b: PrecisionModel, v: f64) -> Res {
    for k in 0..4 {
        let x = v + k as f64 * 0.7;
        let (p, q) = cx.must("make_precise", || (a.make_precise(x), b.make_precise(x)))?;
        check!(fb(p) == fb(q), "rounding: {x:?} becomes {p:?}, with a copy of the model {q:?}");
    }
    Ok(())
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let st = self.nodes[cx.client].get();
        let n = &mut st.0;
        let k = it.ii(0).rem_euclid(REG as i64) as usize;
        let j = it.ii(1).rem_euclid(REG as i64) as usize;
        let v = it.ff(0);
        match it.op {
            MODEL => {
                let t = it.ii(2).rem_euclid(5);
                (n.m[k], n.mm[k]) = cx.must("new model", || match t {
                    0 => (PrecisionModel::default(), Pm { t: 0, scale: 0.0, grid: 0.0 }),
                    1 => (PrecisionModel::new_with_type(PrecisionModelType::Floating), Pm { t: 0, scale: 0.0, grid: 0.0 }),
                    2 => (PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), Pm { t: 2, scale: 0.0, grid: 0.0 }),
                    3 => (PrecisionModel::new_with_type(PrecisionModelType::Fixed), Pm::with(1.0)),
                    _ => (PrecisionModel::new_with_scale(v), Pm::with(v)),
                })?;
            }
            SCALE => {
                if n.mm[k].t == 1 && v.is_finite() && v != 0.0 {
                    cx.must("set_scale", || n.m[k].set_scale(v))?;
                    n.mm[k] = Pm::with(v);
                }
            }
            COPYM => {
                let o = n.m[j];
                let c = cx.must("copy model", || PrecisionModel::from_precision_model(o))?;
                twins(cx, o, c, v)?;
                n.m[k] = c;
                n.mm[k] = n.mm[j];
            }
            POINT => {
                let q = quads(&it.f);
                if q.is_empty() {
                    return Ok(());
                }
                let f = |d: usize| f64::from_bits(q[0][d]);
                let nan = fb(f64::NAN);
                let (c, w) = cx.must("new coordinate", || match it.ii(2).rem_euclid(10) {
                    0 => (Coordinate::new_xy(f(0), f(1)), [q[0][0], q[0][1], nan, nan]),
                    1 => (Coordinate::new_xyz(f(0), f(1), f(2)), [q[0][0], q[0][1], q[0][2], nan]),
                    2 => (Coordinate::new_xym(f(0), f(1), f(3)), [q[0][0], q[0][1], nan, q[0][3]]),
                    3 => (Coordinate::new_coordinatexy(f(0), f(1)), [q[0][0], q[0][1], nan, nan]),
                    4 => (Coordinate::new_coordinatexym(f(0), f(1), f(3)), [q[0][0], q[0][1], nan, q[0][3]]),
                    5 => (Coordinate::new_coordinatexyzm(f(0), f(1), f(2), f(3)), q[0]),
                    6 => (Coordinate::default(), [0, 0, nan, nan]),
                    7 => (Coordinates::create_dim_measures(3, 1), [0, 0, nan, 0]),
                    8 => (Coordinates::create_dim_measures(4, 1), [0; 4]),
                    _ => (Coordinate::new_xyzm(f(0), f(1), f(2), f(3)), q[0]),
                })?;
                n.p[k] = c;
                n.mp[k] = w;
            }
            ORD => {
                let o = it.ii(2).rem_euclid(5) as i32;
                let p = &mut n.p[k];
                cx.must("set ordinate", || match (it.ii(3) % 2, o) {
                    (0, 0) => p.set_x(v),
                    (0, 1) => p.set_y(v),
                    (0, 2) => p.set_z(v),
                    (0, 3) => p.set_m(v),
                    _ => p.set_ordinate(o, v),
                })?;
                if o < 4 {
                    n.mp[k][o as usize] = fb(v);
                }
            }
            COPYP => {
                let o = n.p[j];
                let (w, was) = (n.mp[j], n.mp[k]);
                if it.ii(2) % 2 == 0 {
                    n.p[k] = cx.must("copy coordinate", || Coordinate::from_coordinate(&o))?;
                    n.mp[k] = w;
                } else {
                    cx.must("set_coordinate", || n.p[k].set_coordinate(&o))?;
                    let g = bits(&n.p[k]);
                    // the measure is either copied too or left alone
                    check!(g[..3] == w[..3] && (g[3] == w[3] || g[3] == was[3]), "content: {} set to {} is {}", show4(&[was]), show4(&[w]), show4(&[g]));
                    n.mp[k] = g;
                }
            }
            ROUNDV => {
                let w = n.mm[k];
                let m = &mut n.m[k];
                let (a, b) = cx.must("make_precise", || {
                    let a = m.make_precise(v);
                    (a, m.make_precise(a))
                })?;
                cx.logf(a);
                rounded(cx, &w, v, a)?;
                if v.is_finite() && (v * w.scale).abs() <= 1e14 {
                    check!(same(a, b), "rounding: {v:?} gives {a:?}, rounded again {b:?} ({w:?})");
                }
                // monotone
                let u = it.ff(1);
                let c = cx.must("make_precise", || m.make_precise(u))?;
                check!(!(v <= u && a > c || u <= v && c > a), "rounding: {v:?} and {u:?} change places: {a:?} and {c:?} ({w:?})");
            }
            ROUNDP => {
                let w = n.mm[k];
                let was = n.mp[j];
                let (m, p) = (&mut n.m[k], &mut n.p[j]);
                cx.must("make_precise", || m.make_precise_coordinate(p))?;
                let g = bits(p);
                check!(g[2..] == was[2..], "rounding: z or m of {} changed: {}", show4(&[was]), show4(&[g]));
                rounded(cx, &w, f64::from_bits(was[0]), p.x)?;
                rounded(cx, &w, f64::from_bits(was[1]), p.y)?;
                n.mp[j] = g;
                let mut again = *p;
                cx.must("make_precise", || m.make_precise_coordinate(&mut again))?;
                if [was[0], was[1]].iter().all(|v| (f64::from_bits(*v) * w.scale).abs() <= 1e14) {
                    cx.probe(10);
                    check!(bits(&again) == g || eq2(&bits(&again), &g), "rounding: {} rounded again is {} ({w:?})", show4(&[g]), show4(&[bits(&again)]));
                }
            }
            CMPP => {
                let (a, b) = (n.p[k], n.p[j]);
                let (x, y) = (n.mp[k], n.mp[j]);
                let w = || format!("{} and {}", show4(&[x]), show4(&[y]));
                let f = f64::from_bits;
                let t = v.abs();
                let r = cx.must("comparison", || {
                    (a.equals_2d(&b), a.equals_3d(&b), a.compare_to(&b), a.equals_2d_with_tolerance(&b, t), a.equal_in_z(&b, t), a.equal_in_coordinate_z(&b, t), a.distance(&b), a.distance_3d(&b), Coordinates::equal(&a, &b, t))
                })?;
                let e2 = eq2(&x, &y);
                let e3 = e2 && same(f(x[2]), f(y[2]));
                if e2 {
                    cx.probe(11);
                }
                check!(r.0 == e2 && r.1 == e3, "equality: {} in 2D, {} in 3D: {}", r.0, r.1, w());
                if [x[0], x[1], y[0], y[1]].iter().all(|v| !f(*v).is_nan()) {
                    let c = f(x[0]).partial_cmp(&f(y[0])).unwrap().then_with(|| {
                        cx.probe(12);
                        f(x[1]).partial_cmp(&f(y[1])).unwrap()
                    }) as i32;
                    check!(r.2 == c, "order: {} expected {c}: {}", r.2, w());
                }
                // (differences next to the tolerance may be rounded either way)
                let near = |d: usize| {
                    let (p, q) = (f(x[d]), f(y[d]));
                    let e = (p - q).abs();
                    ((e - t).abs() > 1e-15 * p.abs().max(q.abs()) || e == t && p.fract() == 0.0 && q.fract() == 0.0, e <= t)
                };
                let (nx, ny, nz) = (near(0), near(1), near(2));
                if nx.0 && ny.0 {
                    check!(r.3 == (nx.1 && ny.1), "equality: {} within {t:?}: {}", r.3, w());
                }
                if nz.0 || f(x[2]).is_nan() || f(y[2]).is_nan() {
                    check!(r.4 == nz.1 && r.5 == nz.1, "equality: {} {} in z within {t:?}: {}", r.4, r.5, w());
                }
                let d = [f(x[0]) - f(y[0]), f(x[1]) - f(y[1]), f(x[2]) - f(y[2])];
                let d2 = d[0].hypot(d[1]);
                if d[..2].iter().all(|v| v.is_finite() && (v.abs() > 1e-140 || *v == 0.0) && v.abs() < 1e140) {
                    check!((r.6 - d2).abs() <= 1e-15 * d2 && (r.6 == 0.0) == e2, "distance: {:?} expected {d2:?}: {}", r.6, w());
                    if t == 0.0 || (d2 - t).abs() > 1e-14 * d2 {
                        check!(r.8 == if t == 0.0 { e2 } else { d2 <= t }, "equality: {} at distance {d2:?} within {t:?}: {}", r.8, w());
                    }
                    if d[2].is_nan() {
                        check!(r.7.is_nan(), "distance: {:?} in 3D without z: {}", r.7, w());
                    } else if d[2].is_finite() && (d[2] == 0.0 || d[2].abs() > 1e-140) && d[2].abs() < 1e140 {
                        let d3 = d2.hypot(d[2]);
                        check!((r.7 - d3).abs() <= 1e-14 * d3, "distance: {:?} in 3D, expected {d3:?}: {}", r.7, w());
                    }
                }
                cx.logf(r.6);
            }
            CMPM => {
                let (a, b) = (n.m[k], n.m[j]);
                let (x, y) = (n.mm[k], n.mm[j]);
                let (e, c, da, db) = cx.must("comparison", || (a.equals(b), a.compare_to(&b), a.get_maximum_significant_digits(), b.get_maximum_significant_digits()))?;
                let w = x.t == y.t && (x.t != 1 || x.scale == y.scale);
                if w {
                    cx.probe(7);
                }
                check!(e == w, "model: equal {e}, expected {w}: {x:?} and {y:?}");
                check!(c == da.cmp(&db) as i32, "model: order {c} with {da} and {db} digits: {x:?} and {y:?}");
            }
            SEND => {
                let s = it.ii(0) as usize;
                let mb = self.mail.get();
                while mb.len() <= s {
                    mb.push(None);
                }
                let x = it.ii(1).rem_euclid(REG as i64) as usize;
                mb[s] = Some(Arc::new((n.p[x], n.mp[x], n.m[x], n.mm[x])));
            }
            RECV => {
                let Some(Some(m)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                n.p[j] = cx.must("copy coordinate", || Coordinate::from_coordinate(&m.0))?;
                n.mp[j] = m.1;
                let c = cx.must("copy model", || PrecisionModel::from_precision_model(m.2))?;
                for x in [n.p[j].x, n.p[j].y] {
                    twins(cx, m.2, c, x)?;
                }
                n.m[j] = c;
                n.mm[j] = m.3;
                cx.probe(9);
                cx.nontrivial();
            }
            CKPT => st.1 = st.0.clone(),
            CRASHR => {
                st.0 = st.1.clone();
                cx.probe(8);
                cx.nontrivial();
            }
            _ => {}
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        self.step(cx, it)?;
        cx.calm();
        let n = &self.nodes[cx.client].get().0;
        for k in 0..REG {
            let (p, w) = (&n.p[k], n.mp[k]);
            let o = cx.must("ordinates", || ([p.get_x(), p.get_y(), p.get_z(), p.get_m()], [p.get_ordinate(0), p.get_ordinate(1), p.get_ordinate(2), p.get_ordinate(3)], p.get_ordinate(4), p.is_valid(), Coordinates::dimension(p), Coordinates::measures(p)))?;
            check!(bits(p) == w, "content: coordinate {} should be {}", show4(&[bits(p)]), show4(&[w]));
            for d in 0..4 {
                check!(fb(o.0[d]) == w[d] && o.1[d].map(fb) == Some(w[d]), "content: ordinate {d} of {} reads {:?} and {:?}", show4(&[w]), o.0[d], o.1[d]);
            }
            check!(o.2.is_none(), "content: ordinate 4 reads {:?}", o.2);
            let f = |d: usize| f64::from_bits(w[d]);
            check!(o.3 == (f(0).is_finite() && f(1).is_finite()), "content: valid {}: {}", o.3, show4(&[w]));
            if !f(0).is_nan() && !f(1).is_nan() {
                let (z, m) = (!f(2).is_nan(), !f(3).is_nan());
                check!(o.4 == 2 + z as i32 + m as i32 && o.5 == m as i32, "kind: dimension {} with {} measures: {}", o.4, o.5, show4(&[w]));
            }
            cx.log(w[0] ^ w[1].rotate_left(13) ^ w[2].rotate_left(29) ^ w[3].rotate_left(43));
            same_model(cx, &n.m[k], &n.mm[k])?;
        }
        Ok(())
    }
}
fn gen(r: &mut Rng, _index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let mut pool: Vec<f64> = (0..2 + r.us(6))
        .map(|_| match r.below(8) {
            0 | 1 => intval(r),
            2 => r.range(-20, 20) as f64 + 0.5,
            3 => r.range(-40, 40) as f64 / 8.0,
            4 => 0.05 * r.range(-50, 50) as f64,
            _ => val(r, st),
        })
        .collect();
    if r.one_in(5) {
        // neighbours: values one unit in the last place apart, or subnormal
        let v = *r.pick(&pool);
        pool.extend(if r.one_in(2) { [v.next_up(), v.next_down()] } else { [5e-324, -1e-323] });
    }
    if r.one_in(5) {
        // single precision: subnormal, largest, half way between two neighbours
        let s = match r.below(3) {
            0 => f32::from_bits(r.range(0, 1 << 23) as u32),
            1 => f32::from_bits(0x7f7f_ffff - r.range(0, 3) as u32),
            _ => f32::from_bits(r.range(0, 0x7f7f_fffe) as u32),
        };
        let (a, b) = (s as f64, f32::from_bits((s.to_bits() + 1).min(0x7f7f_ffff)) as f64);
        let m = a + (b - a) / 2.0;
        pool.extend([a, -a, m, -m, m.next_up(), m.next_down(), a * 1.1]);
    }
    let odd = |r: &mut Rng| if r.one_in(40) { *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]) } else { *r.pick(&pool) };
    let kind = r.below(6);
    let any = |r: &mut Rng| r.range(0, 2);
    let scale = |r: &mut Rng| *r.pick(&[1.0, 2.0, 10.0, 100.0, 1000.0, 0.5, 0.25, 8.0, 3.0, 0.1, 12345.678, 1e6, 1e9, -1.0, -2.0, -10.0, -1000.0, -0.5, -0.1, -0.25, -3.0, -7.5, -0.3, -0.7, 0.7, -1e-3, 1.0 / 3.0, -1e-6, 1e12])
        * if r.one_in(6) { 1.0 + *r.pick(&[1e-4, -1e-4, 1e-7, -1e-7, 1e-10, f64::EPSILON]) } else { 1.0 };
    for c in 0..nodes {
        for k in 0..REG as i64 {
            g.ev.push((0, item(c, POINT, vec![k, 0, 9], quad(r, &pool, kind))));
            g.ev.push((0, item(c, MODEL, vec![k, 0, if r.one_in(2) { 4 } else { r.range(0, 4) }], vec![scale(r)])));
        }
    }
    let n = 6 + r.count(24);
    let n = hist(r, n);
    for _ in 0..n {
        let c = r.us(nodes);
        let it = match r.below(24) {
            0 | 1 => item(c, MODEL, vec![any(r), 0, if r.one_in(2) { 4 } else { r.range(0, 4) }], vec![scale(r)]),
            2 => item(c, SCALE, vec![any(r)], vec![scale(r)]),
            3 => item(c, COPYM, vec![any(r), any(r)], vec![odd(r)]),
            4 | 5 => item(c, POINT, vec![any(r), 0, r.range(0, 9)], quad(r, &pool, kind)),
            6 | 7 => item(c, ORD, vec![any(r), 0, r.range(0, 4), r.range(0, 1)], vec![odd(r)]),
            8 => item(c, COPYP, vec![any(r), any(r), r.range(0, 1)], vec![]),
            9..=11 => item(c, ROUNDV, vec![any(r)], vec![odd(r), odd(r)]),
            12..=14 => item(c, ROUNDP, vec![any(r), any(r)], vec![]),
            15 | 16 => item(c, CMPP, vec![any(r), any(r)], vec![*r.pick(&[0.0, 0.5, 1.0, 2.0, 1e-6, 1e3])]),
            17 | 18 => item(c, CMPM, vec![any(r), any(r)], vec![]),
            19 => item(c, CKPT, vec![], vec![]),
            20 => {
                g.crash(r, c, CRASHR);
                continue;
            }
            _ => {
                g.send(r, c, SEND, RECV);
                continue;
            }
        };
        g.at(it, r);
    }
    g.drill(r);
    g.build(r, &Mix { threads: 0.4, oom: 0.0, max_gap: 400 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    let z = Coordinate::default();
    let n = Node { p: [z; REG], m: [PrecisionModel::default(); REG], mp: [bits(&z); REG], mm: [Pm { t: 0, scale: 0.0, grid: 0.0 }; REG] };
    Box::new(W { nodes: (0..clients(c)).map(|_| Own::new((n.clone(), n.clone()))).collect(), mail: Own::new(vec![]) })
}
pub const DEF: Def = Def {
    id: "C14",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 150_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if a coordinate and a model were delivered or a node was restored after a crash; distinct by event-log hash",
    real: &["Coordinate", "Coordinates", "PrecisionModel", "NumberUtil"],
    stub: &["network, checkpoint store and node processes (simulated)"],
};
