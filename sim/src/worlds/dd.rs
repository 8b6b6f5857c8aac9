//! Extended-precision accumulators: registers updated in place, partial sums exchanged and replayed.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::oracle::Big;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::cmp::Ordering;

const OPS: &[&str] = &["set", "copy", "scalar", "pair", "unary", "pow", "det", "predicates", "magnitude", "send", "recv", "checkpoint", "crash_restart", "total"];
const SET: usize = 0;
const CPY: usize = 1;
const SCAL: usize = 2;
const PAIR: usize = 3;
const UNARY: usize = 4;
const POW: usize = 5;
const DET: usize = 6;
const PRED: usize = 7;
const MAG: usize = 8;
const SEND: usize = 9;
const RECV: usize = 10;
const CKPT: usize = 11;
const CRASHR: usize = 12;
const TOTAL: usize = 13;
const PROBES: &[&str] = &[
    "addition", "multiplication", "division", "cancellation to zero", "square root", "rounded", "power", "determinant", "exact sum compared",
    "restored", "partial sum delivered", "number with a low part", "negative power", "not a number",
];
const REGS: usize = 4;
type D = (f64, f64);

struct Node {
    r: [DD; REGS],
    sum: DD,
    exact: Big,
    ck: ([DD; REGS], DD, Big),
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<(DD, Big)>>>,
}
/// both halves, as the dump prints them
fn parts(cx: &Cx, d: &DD) -> Result<D, Stop> {
    let s = cx.must("dump", || d.dump())?;
    let v: Vec<f64> = s.trim_start_matches("DD<").trim_end_matches('>').split(", ").filter_map(|x| x.parse().ok()).collect();
    if v.len() != 2 {
        return Err(Stop::Viol(format!("dump: {s} is not a pair of numbers")));
    }
    Ok((v[0], v[1]))
}
fn big(d: D) -> Big {
    Big::from(d.0).add(&Big::from(d.1))
}
fn fin(d: D) -> bool {
    d.0.is_finite() && d.1.is_finite()
}
/// in the range where no part of an operation overflows or underflows
fn mid(d: D) -> bool {
    fin(d) && (d.0 == 0.0 && d.1 == 0.0 || (d.0.abs() > 1e-90 && d.0.abs() < 1e90))
}
const TOL: i32 = -100;
fn near(what: &str, got: D, want: &Big, tol: i32, w: &dyn Fn() -> String) -> Res {
    check!(fin(got), "precision: {what} gives {got:?}: {}", w());
    let e = big(got).sub(want);
    check!(e.is_zero() || (!want.is_zero() && e.within(want, tol)), "precision: {what} gives {got:?}, off by 2^{} relative: {}", e.log2() - want.log2().max(-9999), w());
    // normalized: the low part is below the precision of the high part
    check!(got.1.abs() <= got.0.abs() * 2.3e-16, "form: {what} gives {got:?}: {}", w());
    Ok(())
}
fn floor_ok(what: &str, got: D, lo: &Big, hi: &Big, w: &dyn Fn() -> String) -> Res {
    check!(fin(got) && big(got).is_int(), "rounding: {what} gives {got:?}: {}", w());
    let g = big(got);
    check!(g.cmp(lo) != Ordering::Less && g.cmp(hi) != Ordering::Greater, "rounding: {what} gives {got:?}: {}", w());
    Ok(())
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let k = it.ii(0).rem_euclid(REGS as i64) as usize;
        let j = it.ii(1).rem_euclid(REGS as i64) as usize;
        let sub = it.ii(2).rem_euclid(8);
        let y = it.ff(0);
        match it.op {
            SET => {
                let two = it.ii(2).rem_euclid(10) >= 8;
                let sub = if two { it.ii(2).rem_euclid(10) } else { sub };
                let lo = it.ff(1);
                n.r[k] = match sub {
                    // both halves given
                    8 if !(y + lo == y && lo.is_finite()) => return Ok(()),
                    8 => cx.must("new_hi_lo", || DD::new_hi_lo(y, lo))?,
                    9 => DD::new_two_pi(),
                    0 => cx.must("new_x", || DD::new_x(y))?,
                    1 => cx.must("value_of", || DD::value_of_f64(y))?,
                    2 => cx.must("set_value", || {
                        let mut d = n.r[k];
                        d.set_value_f64(y);
                        d
                    })?,
                    3 => DD::new_pi(),
                    4 => DD::new_e(),
                    5 => DD::new_nan(),
                    6 => DD::new_pi_2(),
                    _ => cx.must("default", DD::default)?,
                };
                let p = parts(cx, &n.r[k])?;
                if sub < 3 {
                    check!(fb(p.0) == fb(y) && p.1 == 0.0, "value: set to {y:?} but is {p:?}");
                }
                let constant = match sub {
                    3 => Some((std::f64::consts::PI, 1.2246467991473532e-16)),
                    9 => Some((std::f64::consts::TAU, 2.4492935982947064e-16)),
                    6 => Some((std::f64::consts::FRAC_PI_2, 6.123233995736766e-17)),
                    4 => Some((std::f64::consts::E, 1.4456468917292502e-16)),
                    _ => None,
                };
                check!(constant.is_none_or(|c| c == p), "value: constant {sub} is {p:?}, expected {constant:?}");
                check!(sub != 8 || fb(p.0) == fb(y) && fb(p.1) == fb(lo), "value: set to {y:?} {lo:?} but is {p:?}");
                if sub == 7 {
                    check!(p == (0.0, 0.0), "value: default is {p:?}");
                }
            }
            CPY => {
                let s = n.r[j];
                let (a, b, c) = cx.must("copy", || {
                    let mut d = n.r[k];
                    d.set_value_dd(&s);
                    (DD::copy(&s), s.copy_self(), d)
                })?;
                let w = parts(cx, &s)?;
                for d in [&a, &b, &c] {
                    let p = parts(cx, d)?;
                    check!(fb(p.0) == fb(w.0) && fb(p.1) == fb(w.1), "value: copy of {w:?} is {p:?}");
                }
                n.r[k] = c;
            }
            SCAL | PAIR => {
                let a = parts(cx, &n.r[k])?;
                let b = if it.op == SCAL { (y, 0.0) } else { parts(cx, &n.r[j])? };
                let d = n.r[j];
                if b.1 != 0.0 {
                    cx.probe(11);
                }
                let kind = sub % 4;
                if kind == 3 && b.0 == 0.0 {
                    return Ok(());
                }
                let x = n.r[k];
                let (f, g) = cx.must("arithmetic", || {
                    let mut g = x;
                    let f = match (it.op, kind) {
                        (SCAL, 0) => { g.self_add_f64(y); x.add_f64(y) }
                        (SCAL, 1) => { g.self_subtract_f64(y); x.subtract_f64(y) }
                        (SCAL, 2) => { g.self_multiply_f64(y); x.multiply_f64(y) }
                        (SCAL, _) => { g.self_divide_f64(y); x.divide_f64(y) }
                        (_, 0) => { g.self_add_dd(&d); x.add_dd(&d) }
                        (_, 1) => { g.self_subtract_dd(&d); x.subtract_dd(&d) }
                        (_, 2) => { g.self_multiply_dd(&d); x.multiply_dd(&d) }
                        _ => { g.self_divide_dd(&d); x.divide_dd(&d) }
                    };
                    (f, g)
                })?;
                let (pf, pg) = (parts(cx, &f)?, parts(cx, &g)?);
                let after = (parts(cx, &x)?, parts(cx, &n.r[j])?);
                check!(fb(after.0 .0) == fb(a.0) && fb(after.0 .1) == fb(a.1), "operand: {a:?} changed to {:?}", after.0);
                if it.op == PAIR {
                    check!(fb(after.1 .0) == fb(b.0) && fb(after.1 .1) == fb(b.1), "operand: {b:?} changed to {:?}", after.1);
                }
                if a.0.is_nan() || b.0.is_nan() {
                    cx.probe(13);
                    check!(f.is_nan() && g.is_nan(), "not a number: {a:?} op {kind} {b:?} gives {pf:?} and {pg:?}");
                } else if mid(a) && mid(b) {
                    let (p, q) = (big(a), big(b));
                    let name = ["sum", "difference", "product", "quotient"][kind as usize];
                    for (how, r) in [("", pf), (" in place", pg)] {
                        let w = || format!("{a:?} and {b:?}");
                        let what = format!("{name}{how}");
                        match kind {
                            0 | 1 => {
                                let e = if kind == 0 { p.add(&q) } else { p.sub(&q) };
                                if e.is_zero() && !p.is_zero() {
                                    cx.probe(3);
                                }
                                cx.probe(0);
                                near(&what, r, &e, TOL, &w)?;
                            }
                            2 => {
                                cx.probe(1);
                                near(&what, r, &p.mul(&q), TOL, &w)?;
                            }
                            _ => {
                                cx.probe(2);
                                // r * q = p up to rounding
                                near(&what, r, &big(r), TOL, &w)?;
                                let e = big(r).mul(&q).sub(&p);
                                check!(e.is_zero() || e.within(&p, TOL), "precision: {what} is {r:?}: {}", w());
                            }
                        }
                    }
                }
                n.r[k] = if it.ii(3) == 0 { f } else { g };
            }
            UNARY => {
                let a = parts(cx, &n.r[k])?;
                #[allow(unused_mut)]
                let mut x = n.r[k];
                let f = cx.must("unary", || match sub {
                    0 => x.negate(),
                    1 => x.abs(),
                    2 => x.floor(),
                    3 => x.ceil(),
                    4 => x.rint(),
                    5 => x.trunc(),
                    6 => x.reciprocal(),
                    _ => x.sqr(),
                })?;
                let p = parts(cx, &f)?;
                let b = parts(cx, &x)?;
                let name = ["negation", "absolute value", "floor", "ceiling", "rounding", "truncation", "reciprocal", "square"][sub as usize];
                check!(fb(b.0) == fb(a.0) && fb(b.1) == fb(a.1), "operand: {name} of {a:?} changed it to {b:?}");
                if a.0.is_nan() {
                    cx.probe(13);
                    check!(f.is_nan(), "not a number: {name} gives {p:?}");
                } else if mid(a) {
                    let v = big(a);
                    let one = Big::from(1.0);
                    let w = || format!("{a:?}");
                    let e = if a.0.abs() > 1e15 { v.abs().scale(TOL) } else { Big::zero() };
                    match sub {
                        0 => near(name, p, &v.neg(), -2000, &w)?,
                        1 => near(name, p, &v.abs(), -2000, &w)?,
                        2 => floor_ok(name, p, &v.sub(&one).add(&Big::from(1.0).scale(-3000)), &v, &w)?,
                        3 => floor_ok(name, p, &v, &v.add(&one).sub(&Big::from(1.0).scale(-3000)), &w)?,
                        4 => {
                            let h = Big::from(0.5).add(&v.abs().scale(TOL)).add(&e);
                            floor_ok(name, p, &v.sub(&h), &v.add(&h), &w)?
                        }
                        5 => {
                            // towards zero
                            let (lo, hi) = if v.signum() > 0 { (v.sub(&one), v.clone()) } else { (v.clone(), v.add(&one)) };
                            floor_ok(name, p, &lo, &hi, &w)?;
                            check!(big(p).abs().cmp(&v.abs()) != Ordering::Greater && v.sub(&big(p)).abs().cmp(&one) == Ordering::Less, "rounding: {name} of {a:?} is {p:?}");
                        }
                        6 => {
                            if a.0 == 0.0 {
                                return Ok(());
                            }
                            let e = big(p).mul(&v).sub(&one);
                            check!(fin(p) && e.within(&one, TOL), "precision: {name} of {a:?} is {p:?}");
                        }
                        _ => {
                            near(name, p, &v.mul(&v), TOL, &w)?;
                            let mut g = x;
                            cx.must("self_sqr", || g.self_sqr())?;
                            near("square in place", parts(cx, &g)?, &v.mul(&v), TOL, &w)?;
                            let h = cx.must("sqr_f64", || x.sqr_f64(a.0))?;
                            near("square of a double", parts(cx, &h)?, &Big::from(a.0).mul(&Big::from(a.0)), TOL, &w)?;
                            let s = cx.must("sqrt", || x.sqrt_dd())?;
                            let t = cx.must("sqrt", || x.sqrt_f64(a.0))?;
                            if v.signum() < 0 {
                                check!(s.is_nan(), "not a number: square root of {a:?} is {:?}", parts(cx, &s)?);
                            } else {
                                cx.probe(4);
                                let r = big(parts(cx, &s)?);
                                check!(r.mul(&r).sub(&v).within(&v, TOL), "precision: square root of {a:?} is {:?}", parts(cx, &s)?);
                                let (r, v) = (big(parts(cx, &t)?), Big::from(a.0));
                                check!(r.mul(&r).sub(&v).within(&v, TOL), "precision: square root of {} is {:?}", a.0, parts(cx, &t)?);
                            }
                        }
                    }
                    if (2..6).contains(&sub) {
                        cx.probe(5);
                    }
                }
                n.r[k] = f;
            }
            POW => {
                if it.ii(4) != 0 {
                    // the only bases that stand any exponent
                    let e = it.ii(3).clamp(-(i32::MAX as i64), i32::MAX as i64) as i32;
                    let b = if it.ii(4) > 0 { 1.0 } else { -1.0 };
                    let f = cx.must("pow", || DD::new_x(b).pow(e))?;
                    let p = parts(cx, &f)?;
                    check!(p.0 == if e % 2 == 0 { 1.0 } else { b } && p.1 == 0.0, "precision: {b} to the power {e} is {p:?}");
                    n.r[k] = f;
                    return Ok(());
                }
                let a = parts(cx, &n.r[k])?;
                let e = it.ii(3).clamp(-300, 300) as i32;
                let x = n.r[k];
                let f = cx.must("pow", || x.pow(e))?;
                let p = parts(cx, &f)?;
                if fin(a) && a.0 != 0.0 && a.0.abs().log2().abs() * (e.abs().max(1) as f64) < 480.0 && a.0.abs() > 1e-90 && a.0.abs() < 1e90 {
                    cx.probe(if e < 0 { 12 } else { 6 });
                    let v = big(a);
                    let mut w = Big::from(1.0);
                    for k in (0..9).rev() {
                        w = w.mul(&w);
                        if e.unsigned_abs() >> k & 1 == 1 {
                            w = w.mul(&v);
                        }
                    }
                    // every squaring doubles the relative error there was
                    let tol = TOL + 4 + (e.unsigned_abs() as i32 / 12 + 1).ilog2() as i32;
                    let d = if e < 0 { big(p).mul(&w).sub(&Big::from(1.0)) } else { big(p).sub(&w) };
                    let s = if e < 0 { Big::from(1.0) } else { w };
                    check!(fin(p) && d.within(&s, tol), "precision: {a:?} to the power {e} is {p:?}");
                    check!(e != 0 || p == (1.0, 0.0), "precision: {a:?} to the power 0 is {p:?}");
                }
                n.r[k] = f;
            }
            DET => {
                let d: Vec<DD> = (0..4).map(|i| n.r[(it.ii(3 + i)).rem_euclid(REGS as i64) as usize]).collect();
                let mut v = vec![];
                for d in &d {
                    v.push(parts(cx, d)?);
                }
                let (f, g) = cx.must("determinant", || (DD::determinant_xy_dd(&d[0], &d[1], &d[2], &d[3]), DD::determinant_xy_f64(v[0].0, v[1].0, v[2].0, v[3].0)))?;
                if v.iter().all(|p| mid(*p) && p.0.abs() < 1e30 && (p.0 == 0.0 || p.0.abs() > 1e-30)) {
                    cx.probe(7);
                    let (p, q) = (parts(cx, &f)?, parts(cx, &g)?);
                    let h: Vec<D> = v.iter().map(|p| (p.0, 0.0)).collect();
                    for (r, v) in [(p, &v), (q, &h)] {
                        let (a, b) = (big(v[0]).mul(&big(v[3])), big(v[1]).mul(&big(v[2])));
                        let e = big(r).sub(&a.sub(&b));
                        check!(fin(r) && e.within(&a.abs().add(&b.abs()), TOL), "precision: determinant of {v:?} is {r:?}");
                    }
                }
                n.r[k] = f;
            }
            PRED => {
                let (x, z) = (n.r[k], n.r[j]);
                let (a, b) = (parts(cx, &x)?, parts(cx, &z)?);
                if !fin(a) || !fin(b) {
                    check!(cx.must("is_nan", || x.is_nan())? == a.0.is_nan(), "not a number: {a:?}");
                    return Ok(());
                }
                let c = big(a).cmp(&big(b));
                let r = cx.must("comparison", || (x.gt(&z), x.ge(&z), x.lt(&z), x.le(&z), x.compare_to(&z), x.equals(&z)))?;
                // equal numbers may be split in two ways
                if c != Ordering::Equal || a == b {
                    let w = (c.is_gt(), c.is_ge(), c.is_lt(), c.is_le(), c as i32, c.is_eq());
                    check!(r == w, "order: {a:?} and {b:?}: {r:?}, expected {w:?}");
                }
                let (mn, mx) = cx.must("min and max", || (x.min(&z), x.max(&z)))?;
                let (mn, mx) = (big(parts(cx, &mn)?), big(parts(cx, &mx)?));
                let (p, q) = if c.is_le() { (big(a), big(b)) } else { (big(b), big(a)) };
                check!(mn.cmp(&p).is_eq() && mx.cmp(&q).is_eq(), "order: wrong minimum or maximum of {a:?} and {b:?}");
                let s = big(a).signum();
                let r = cx.must("sign", || (x.signum(), x.is_zero(), x.is_negative(), x.is_positive(), x.is_nan(), x.double_value(), x.int_value()))?;
                check!((r.0, r.1, r.2, r.3, r.4) == (s, s == 0, s < 0, s > 0, false), "sign: {a:?} gives {r:?}");
                check!(r.5 == a.0 + a.1, "value: {a:?} as a double is {}", r.5);
                // exact for integers, by the high part otherwise
                check!(a.0.abs() > 2e9 || r.6 == a.0 as i32, "value: {a:?} as an integer is {}", r.6);
            }
            MAG => {
                let x = n.r[k];
                if !y.is_finite() || y == 0.0 {
                    return Ok(());
                }
                let m = cx.must("magnitude", || x.magnitude(y))?;
                let a = y.abs();
                let l = a.log10();
                if (l - l.round()).abs() > 1e-9 {
                    check!(m == l.floor() as i32, "magnitude: of {y:?} is {m}, expected {}", l.floor());
                }
            }
            SEND => {
                // the sum of the integers this node was given
                let s = it.ii(0) as usize;
                let mb = self.mail.get();
                while mb.len() <= s {
                    mb.push(None);
                }
                mb[s] = Some((n.sum, n.exact.clone()));
            }
            RECV => {
                let (d, e, add) = match it.ii(0) {
                    s if s >= 0 => {
                        let Some(Some(m)) = self.mail.get().get(s as usize) else { return Ok(()) };
                        (m.0, m.1.clone(), it.ii(1) % 2 == 0)
                    }
                    _ => (DD::value_of_f64(y), Big::from(y), it.ii(1) % 2 == 0),
                };
                // what is exact only while the sum fits
                if n.exact.log2() > 90 || e.log2() > 90 {
                    return Ok(());
                }
                cx.probe(10);
                cx.nontrivial();
                cx.must("sum", || if add { n.sum.self_add_dd(&d) } else { n.sum.self_subtract_dd(&d) })?;
                n.exact = if add { n.exact.add(&e) } else { n.exact.sub(&e) };
            }
            CKPT => n.ck = (n.r, n.sum, n.exact.clone()),
            CRASHR => {
                (n.r, n.sum, n.exact) = n.ck.clone();
                cx.probe(9);
                cx.nontrivial();
            }
            TOTAL => {
                // the total is exact, whatever the order
                cx.probe(8);
            }
            _ => {}
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        self.step(cx, it)?;
        cx.calm();
        let s = parts(cx, &n.sum)?;
        check!(fin(s) && big(s).cmp(&n.exact).is_eq(), "sum: {s:?} is not the exact sum of the integers received");
        for d in &n.r {
            let p = parts(cx, d)?;
            cx.log(fb(p.0));
            cx.log(fb(p.1));
        }
        cx.log(fb(s.0));
        Ok(())
    }
}
fn gen(r: &mut Rng, _index: u64) -> Case {
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let num = |r: &mut Rng| -> f64 {
        match r.below(12) {
            0..=4 => val(r, st),
            5 | 6 => intval(r),
            7 => (r.f01() - 0.5) * 2f64.powi(r.range(-60, 60) as i32),
            8 => 2f64.powi(r.range(-60, 60) as i32 * if r.one_in(3) { 2 } else { 1 }) * if r.one_in(2) { -1.0 } else { 1.0 },
            9 => r.range(-9, 9) as f64 + 0.5,
            10 => 0.1 * r.range(-30, 30) as f64,
            _ => if r.one_in(5) { *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY]) } else { 1.0 / (1 + r.below(50)) as f64 },
        }
    };
    let reg = |r: &mut Rng| r.below(REGS as u64) as i64;
    let int = |r: &mut Rng| (r.u64() >> (11 + r.below(50))) as f64 * 2f64.powi(r.range(0, 30) as i32);
    for c in 0..nodes {
        for k in 0..REGS as i64 {
            let s = if r.one_in(6) { *r.pick(&[3, 4, 6]) } else { r.range(0, 2) };
            g.ev.push((0, item(c, SET, vec![k, 0, s], vec![num(r)])));
        }
    }
    let n = 8 + r.us(30);
    let n = hist(r, n);
    for _ in 0..n {
        let c = r.us(nodes);
        let f = vec![num(r)];
        let it = match r.below(24) {
            0 if r.one_in(2) => {
                // the low half at the limit of what it may be
                let hi = match r.below(3) {
                    0 => f[0],
                    1 => 2f64.powi(r.range(-10, 60) as i32),
                    _ => (1 + r.below(1 << 53)) as f64,
                };
                let half = (hi.next_up() - hi) / 2.0;
                let lo = if r.one_in(3) { half } else { half * (1.0 - 2f64.powi(-(1 + r.us(53) as i32))) };
                item(c, SET, vec![reg(r), 0, r.range(8, 9).min(8)], vec![hi, if r.one_in(2) { lo } else { -lo }])
            }
            0 if r.one_in(8) => item(c, SET, vec![reg(r), 0, 9], f),
            0 => item(c, SET, vec![reg(r), 0, r.range(0, 2)], f),
            1 if r.one_in(3) => item(c, SET, vec![reg(r), 0, r.range(0, 7)], f),
            2 => item(c, CPY, vec![reg(r), reg(r)], vec![]),
            3..=6 => item(c, SCAL, vec![reg(r), 0, r.range(0, 3), r.range(0, 1)], f),
            7..=10 => item(c, PAIR, vec![reg(r), reg(r), r.range(0, 3), r.range(0, 1)], vec![]),
            11 | 12 => item(c, UNARY, vec![reg(r), 0, r.range(0, 7)], vec![]),
            13 if r.one_in(8) => {
                let e = match r.below(3) {
                    0 => (1i64 << r.below(31)) + r.range(-2, 2),
                    1 => r.range(0, 70_000),
                    _ => r.range(0, i32::MAX as i64),
                };
                item(c, POW, vec![reg(r), 0, 0, if r.one_in(3) { -e } else { e }, *r.pick(&[1, -1, -1])], vec![])
            }
            13 => item(c, POW, vec![reg(r), 0, 0, if r.one_in(2) { r.range(-3, 5) } else if r.one_in(3) { r.range(-260, 260) } else { r.range(-12, 12) }], vec![]),
            14 => item(c, DET, vec![reg(r), 0, 0, reg(r), reg(r), reg(r), reg(r)], vec![]),
            15 | 16 => item(c, PRED, vec![reg(r), reg(r)], vec![]),
            17 => item(c, MAG, vec![reg(r)], vec![if r.one_in(3) { r.range(1, 2000) as f64 } else { num(r) }]),
            18..=20 => {
                // an integer for one node, perhaps twice: additions are not idempotent, so the model adds it twice too
                let x = if r.one_in(2) { int(r) } else { -int(r) };
                let t = r.below(g.horizon);
                for a in g.net.send(r, 0, c, t) {
                    g.ev.push((a, item(c, RECV, vec![-1, r.range(0, 1)], vec![x])));
                }
                continue;
            }
            21 => item(c, CKPT, vec![], vec![]),
            22 => {
                g.crash(r, c, CRASHR);
                continue;
            }
            _ => {
                g.send(r, c, SEND, RECV);
                continue;
            }
        };
        g.at(it, r);
    }
    g.drill(r);
    let mut c = g.build(r, &Mix { threads: 0.3, oom: 0.0, max_gap: 300 }, None);
    // finally one set of integers in a different order on every node: all totals must be exact
    let xs: Vec<f64> = (0..2 + r.us(12)).map(|_| if r.one_in(2) { int(r) } else { -int(r) }).collect();
    for k in 0..nodes {
        let mut o = xs.clone();
        r.shuffle(&mut o);
        for x in o {
            c.items.push(item(k, RECV, vec![-1, 0], vec![x]));
        }
        c.items.push(item(k, TOTAL, vec![], vec![]));
    }
    c
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    let z = DD::default();
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { r: [z; REGS], sum: z, exact: Big::zero(), ck: ([z; REGS], z, Big::zero()) })).collect(),
        mail: Own::new(vec![]),
    })
}
pub const DEF: Def = Def {
    id: "C13",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 100_000,
    thorough_runs: 800_000,
    probes: PROBES,
    rule: "a run is non-trivial if a partial sum was delivered or a node was restored after a crash; distinct by event-log hash",
    real: &["DD"],
    stub: &["network, checkpoint store and node processes (simulated)"],
};
