//! Coordinate sequences: one history applied to an array-backed and a packed sequence in lockstep.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::sync::Arc;

const OPS: &[&str] = &[
    "new", "new_sized", "set_ordinate", "swap", "reverse", "copy_within_clone", "scroll", "scroll_to_coordinate",
    "scroll_ensure_ring", "ensure_valid_ring", "create_closed_ring", "extend", "read", "compare", "send", "recv",
    "checkpoint", "crash_restart",
];
const NEW: usize = 0;
const SIZED: usize = 1;
const SET: usize = 2;
const SWAP: usize = 3;
const REV: usize = 4;
const COPYIN: usize = 5;
const SCROLL: usize = 6;
const SCROLLC: usize = 7;
const SCROLLE: usize = 8;
const VALID: usize = 9;
const CLOSED: usize = 10;
const EXTEND: usize = 11;
const READ: usize = 12;
const CMP: usize = 13;
const SEND: usize = 14;
const RECV: usize = 15;
const CKPT: usize = 16;
const CRASHR: usize = 17;
const PROBES: &[&str] = &[
    "ring scrolled", "open sequence scrolled", "scrolled to a coordinate", "coordinate not found", "ring closed by adding points",
    "already a valid ring", "short ring padded to four", "extended", "copied between sequences of different dimension",
    "compared equal", "compared different", "measures present", "allocation failed inside an operation", "restored",
];

type Row = Vec<f64>;
/// Reference model: rows in ordinate order.
#[derive(Clone)]
struct Model {
    dim: usize,
    meas: usize,
    rows: Vec<Row>,
}
impl Model {
    fn c4(&self, k: usize) -> C4 {
        let r = &self.rows[k];
        let z = if self.dim - self.meas > 2 { r[2] } else { f64::NAN };
        let m = if self.meas > 0 { r[self.dim - 1] } else { f64::NAN };
        [fb(r[0]), fb(r[1]), fb(z), fb(m)]
    }
    fn c4s(&self) -> Vec<C4> {
        (0..self.rows.len()).map(|k| self.c4(k)).collect()
    }
    fn raw(&self) -> Vec<f64> {
        self.rows.concat()
    }
    fn ring(&self) -> bool {
        let n = self.rows.len();
        n == 0 || (n > 3 && eq2(&self.c4(0), &self.c4(n - 1)))
    }
    fn index_of(&self, c: &C4) -> Option<usize> {
        self.c4s().iter().position(|x| eq2(x, c))
    }
    fn min(&self) -> Option<usize> {
        let mut b: Option<usize> = None;
        for k in 0..self.rows.len() {
            let r = &self.rows[k];
            if b.is_none_or(|j| (r[0], r[1]) < (self.rows[j][0], self.rows[j][1])) {
                b = Some(k);
            }
        }
        b
    }
    fn scroll(&mut self, i: usize, ring: bool) {
        if i == 0 {
            return;
        }
        let n = self.rows.len();
        let last = if ring { n - 1 } else { n };
        if last > 0 {
            self.rows[..last].rotate_left(i % last);
            if ring {
                self.rows[last] = self.rows[0].clone();
            }
        }
    }
    fn copy_from(&mut self, src: &Model, sp: usize, dp: usize, n: usize) {
        let d = self.dim.min(src.dim);
        for k in 0..n {
            let v = src.rows[sp + k].clone();
            self.rows[dp + k][..d].copy_from_slice(&v[..d]);
        }
    }
    fn same(&self, o: &Model) -> bool {
        let d = self.dim.min(o.dim);
        self.rows.len() == o.rows.len() && (0..self.rows.len()).all(|k| (0..d).all(|j| same(self.rows[k][j], o.rows[k][j])))
    }
    fn cmp(&self, o: &Model, limit: usize) -> i32 {
        let mut d = self.dim.min(o.dim);
        if limit > d {
            if self.dim != o.dim {
                return if self.dim < o.dim { -1 } else { 1 };
            }
        } else {
            d = limit;
        }
        let one = |a: f64, b: f64| match (a.is_nan(), b.is_nan()) {
            (true, true) => 0,
            (true, false) => -1,
            (false, true) => 1,
            _ => (a > b) as i32 - (a < b) as i32,
        };
        for (a, b) in self.rows.iter().zip(&o.rows) {
            for j in 0..d {
                let c = one(a[j], b[j]);
                if c != 0 {
                    return c;
                }
            }
        }
        (self.rows.len() as i32 - o.rows.len() as i32).signum()
    }
}
macro_rules! seq_impl {
    ($Tr:ty, $U:ty, $get:ident, $from:expr) => {
        impl Seq for $Tr {
            fn from(m: &Model) -> Self {
                ($from)(m)
            }
            fn dims(&self) -> (i32, i32) {
                (self.get_dimension(), self.get_measures())
            }
            fn len(&self) -> usize {
                self.size()
            }
            fn ord(&self, i: usize, d: usize) -> f64 {
                self.get_ordinate(i, d as i32)
            }
            fn at(&self, i: usize) -> Coordinate {
                self.$get(i)
            }
            fn array(&self) -> Vec<Coordinate> {
                self.to_coordinate_array()
            }
            fn dup(&self) -> Self {
                self.copy()
            }
            fn set(&mut self, i: usize, d: usize, v: f64) {
                self.set_ordinate(i, d as i32, v)
            }
            fn swap(&mut self, i: usize, j: usize) {
                <$U>::swap(self, i, j)
            }
            fn reverse(&mut self) {
                <$U>::reverse(self)
            }
            fn copy_from(&mut self, s: &Self, sp: usize, dp: usize, n: usize) {
                <$U>::copy(s, sp, self, dp, n)
            }
            fn scroll(&mut self, i: usize, ens: Option<bool>) {
                match ens {
                    None => <$U>::scroll_coordinate_index(self, i),
                    Some(e) => <$U>::scroll_coordinate_index_ensure_ring(self, i, e),
                }
            }
            fn scroll_to(&mut self, c: &Coordinate) {
                <$U>::scroll_coordinate(self, c)
            }
            fn valid_ring(&self) -> Self {
                <$U>::ensure_valid_ring(self)
            }
            fn closed(&self, n: usize) -> Self {
                <$U>::create_closed_ring(self, n)
            }
            fn extend(&self, n: usize) -> Self {
                <$U>::extend(self, n)
            }
            fn is_ring(&self) -> bool {
                <$U>::is_ring(self)
            }
            fn equal(&self, o: &Self) -> bool {
                <$U>::is_equal(self, o)
            }
            fn min(&self) -> (Option<Coordinate>, Option<usize>) {
                let i = if self.size() > 0 { Some(<$U>::min_coordinate_index_sequence(self)) } else { None };
                (<$U>::min_coordinate(self), i)
            }
            fn min_part(&self, a: usize, b: usize) -> usize {
                <$U>::min_coordinate_index_sequence_from_to(self, a, b)
            }
            fn index(&self, c: &Coordinate) -> i32 {
                <$U>::index_of(c, self)
            }
        }
    };
}
trait Seq: Clone {
    fn from(m: &Model) -> Self;
    fn dims(&self) -> (i32, i32);
    fn len(&self) -> usize;
    fn ord(&self, i: usize, d: usize) -> f64;
    fn at(&self, i: usize) -> Coordinate;
    fn array(&self) -> Vec<Coordinate>;
    fn dup(&self) -> Self;
    fn set(&mut self, i: usize, d: usize, v: f64);
    fn swap(&mut self, i: usize, j: usize);
    fn reverse(&mut self);
    fn copy_from(&mut self, s: &Self, sp: usize, dp: usize, n: usize);
    fn scroll(&mut self, i: usize, ens: Option<bool>);
    fn scroll_to(&mut self, c: &Coordinate);
    fn valid_ring(&self) -> Self;
    fn closed(&self, n: usize) -> Self;
    fn extend(&self, n: usize) -> Self;
    fn is_ring(&self) -> bool;
    fn equal(&self, o: &Self) -> bool;
    fn min(&self) -> (Option<Coordinate>, Option<usize>);
    fn min_part(&self, a: usize, b: usize) -> usize;
    fn index(&self, c: &Coordinate) -> i32;
}
type Arr = CoordinateArraySequence;
type Pack = PackedCoordinateSequenceDouble;
seq_impl!(Arr, CoordinateArraySequences, get_coordinate_copy, |m: &Model| {
    CoordinateArraySequence::new_with_coordinates_dimension_measures(coords(&m.c4s()), m.dim as i32, m.meas as i32)
});
seq_impl!(Pack, PackedCoordinateSequences, get_coordinate_by_index, |m: &Model| {
    PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&m.raw(), m.dim as i32, m.meas as i32)
});

#[derive(Clone)]
struct Trio {
    a: Arr,
    p: Pack,
    m: Model,
}
struct Node {
    t: Trio,
    /// durable state: coordinate array, packed ordinates, model
    ck: (Vec<Coordinate>, Vec<f64>, Model),
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<Arc<Trio>>>>,
}
fn agree<S: Seq>(what: &str, s: &S, m: &Model) -> Res {
    check!(s.dims() == (m.dim as i32, m.meas as i32), "dimension: {what}: {:?}, expected {:?}", s.dims(), (m.dim, m.meas));
    check!(s.len() == m.rows.len(), "content: {what}: {} coordinates, expected {}", s.len(), m.rows.len());
    for k in 0..m.rows.len() {
        for d in 0..m.dim {
            let g = s.ord(k, d);
            check!(fb(g) == fb(m.rows[k][d]), "content: {what}: ordinate {d} of coordinate {k} is {g:?}, expected {:?} (dimension {} with {} measures)", m.rows[k][d], m.dim, m.meas);
        }
        let c = bits(&s.at(k));
        check!(c == m.c4(k), "content: {what}: coordinate {k} is {}, expected {}", show4(&[c]), show4(&[m.c4(k)]));
    }
    Ok(())
}
fn agree2(what: &str, t: &Trio) -> Res {
    agree(&format!("array sequence {what}"), &t.a, &t.m)?;
    agree(&format!("packed sequence {what}"), &t.p, &t.m)
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        let len = n.t.m.rows.len();
        let idx = |k: usize| it.ii(k).rem_euclid(len.max(1) as i64) as usize;
        // the two sequences after the operation; the model afterwards
        macro_rules! both {
            (|$s:ident| $e:expr) => {{
                {
                    let $s = &mut n.t.a;
                    cx.must(op, || $e)?;
                }
                {
                    let $s = &mut n.t.p;
                    cx.must(op, || $e)?;
                }
            }};
        }
        macro_rules! replace {
            (|$s:ident| $e:expr, $m:expr) => {{
                let before = n.t.m.clone();
                let a = { let $s = &n.t.a; cx.must(op, || $e)? };
                let p = { let $s = &n.t.p; cx.must(op, || $e)? };
                agree("array sequence it was derived from", &n.t.a, &before)?;
                agree("packed sequence it was derived from", &n.t.p, &before)?;
                n.t.a = a;
                n.t.p = p;
                n.t.m = $m;
            }};
        }
        match it.op {
            NEW => {
                let (dim, meas) = dims(it.ii(0));
                let mut m = Model { dim, meas, rows: it.f.chunks_exact(dim).map(|c| c.to_vec()).collect() };
                let all = m.rows.iter().all(|r| r.iter().all(|x| !x.is_nan()));
                if it.ii(1) >= 3 && m.rows.is_empty() {
                    (m.dim, m.meas) = (3, 0);
                }
                let (cs, raw) = (coords(&m.c4s()), m.raw());
                let (d, me) = (dim as i32, meas as i32);
                let (a, p) = cx.must(op, || {
                    match it.ii(1) {
                        3 if all => (CoordinateArraySequence::new_with_coordinates(&cs), PackedCoordinateSequenceFactory::create_double_from_coordinates(&cs)),
                        4 if all => (
                            CoordinateArraySequence::new_with_coordinates_dimension(cs.clone(), m.dim as i32),
                            if (m.dim, m.meas) == (3, 0) { PackedCoordinateSequenceDouble::new_with_coordinates(&cs) } else { PackedCoordinateSequenceFactory::create_double_from_coordinates(&cs) },
                        ),
                        3 | 4 => (
                            CoordinateArraySequence::new_with_coordinates_dimension_measures(cs.clone(), m.dim as i32, m.meas as i32),
                            PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&raw, m.dim as i32, m.meas as i32),
                        ),
                        0 => (
                            CoordinateArraySequence::new_with_coordinates_dimension_measures(cs.clone(), d, me),
                            PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&raw, d, me),
                        ),
                        1 => (
                            CoordinateArraySequence::new_with_coordinates_dimension_measures(cs.clone(), d, me).copy(),
                            PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(&cs, d, me),
                        ),
                        // measures inferred: only where the inference is defined to give these
                        _ if meas == (dim == 4) as usize && !m.rows.is_empty() && all => (
                            CoordinateArraySequenceFactory::create_from_coordinates(&cs),
                            PackedCoordinateSequenceDouble::new_coordinates_with_dimension(&cs, d),
                        ),
                        _ => (
                            CoordinateArraySequenceFactory::create_from_coordinate_array_sequence(
                                &CoordinateArraySequence::new_with_coordinates_dimension_measures(cs.clone(), d, me)),
                            PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&raw, d, me),
                        ),
                    }
                })?;
                if it.ii(1) == 1 && meas == 0 {
                    let q = cx.must(op, || PackedCoordinateSequenceFactory::create_double_coordinates_dimension(&raw, d))?;
                    agree("packed sequence without measures", &q, &m)?;
                }
                if meas > 0 {
                    cx.probe(11);
                }
                n.t = Trio { a, p, m };
            }
            SIZED => {
                let (dim, meas) = dims(it.ii(0));
                // large sizes come with a crowd, which the step allowance counts
                let k = it.ii(1).clamp(0, (it.f.len() as i64 / 2).max(100)) as usize;
                let (a, p) = cx.must(op, || match it.ii(2) {
                    // measures and dimension left to the constructor
                    1 if meas == (dim == 4) as usize => (
                        if dim == 4 { CoordinateArraySequence::new_with_size_dimension_measures(k, 4, 1) } else { CoordinateArraySequenceFactory::create_with_size_dimension(k, dim as i32) },
                        PackedCoordinateSequenceFactory::create_with_size_dimension(k, dim as i32),
                    ),
                    2 if meas == 0 => (
                        if dim == 3 { CoordinateArraySequence::new_with_size(k) } else { CoordinateArraySequence::new_with_size_dimension(k, dim as i32) },
                        PackedCoordinateSequenceDouble::new_with_size_dimension_measures(k, dim as i32, 0),
                    ),
                    _ => (
                        CoordinateArraySequenceFactory::create_with_size_dimension_measures(k, dim as i32, meas as i32),
                        PackedCoordinateSequenceFactory::create_with_size_dimension_measures(k, dim as i32, meas as i32),
                    ),
                })?;
                // impossible requests are clipped
                let (d, m) = (it.ii(3).clamp(-2, 9) as i32, it.ii(4).clamp(0, 9) as i32);
                let (x, y) = cx.must(op, || {
                    (CoordinateArraySequenceFactory::create_with_size_dimension(k.min(3), d).dims(),
                     CoordinateArraySequenceFactory::create_with_size_dimension_measures(k.min(3), d, m).dims())
                })?;
                let w = (d.clamp(2, 3), (d - m).clamp(2, 3) + m.min(1), m.min(1));
                check!(x == (w.0, 0) && y == (w.1, w.2), "dimension: {d} with {m} measures made sequences of {x:?} and {y:?}, expected {w:?}");
                check!(a.size() == k && p.size() == k, "content: sized sequences hold {} and {} coordinates, expected {k}", a.size(), p.size());
                check!(a.dims() == (dim as i32, meas as i32) && p.dims() == a.dims(), "dimension: sized sequences have {:?} and {:?}", a.dims(), p.dims());
                // initial values are unspecified: fill them
                let m = Model { dim, meas, rows: (0..k).map(|r| (0..dim).map(|d| it.f.get((r * dim + d) % it.f.len().max(1)).copied().unwrap_or(0.0)).collect()).collect() };
                n.t = Trio { a, p, m: m.clone() };
                both!(|s| {
                    for r in 0..k {
                        for d in 0..dim {
                            s.set(r, d, m.rows[r][d])
                        }
                    }
                });
            }
            SET if len > 0 => {
                let (i, d, v) = (idx(0), it.ii(1).rem_euclid(n.t.m.dim as i64) as usize, it.ff(0));
                both!(|s| s.set(i, d, v));
                n.t.m.rows[i][d] = v;
            }
            SWAP if len > 0 => {
                let (i, j) = (idx(0), idx(1));
                both!(|s| s.swap(i, j));
                n.t.m.rows.swap(i, j);
            }
            REV => {
                both!(|s| s.reverse());
                n.t.m.rows.reverse();
            }
            COPYIN if len > 0 => {
                // from a copy of itself, so that sections may overlap
                let (a, b) = (idx(0), idx(1));
                let k = it.ii(2).rem_euclid((len - a.max(b)) as i64 + 1) as usize;
                let src = n.t.m.clone();
                both!(|s| {
                    let c = s.dup();
                    s.copy_from(&c, a, b, k)
                });
                n.t.m.copy_from(&src, a, b, k);
            }
            SCROLL if len > 0 => {
                let i = idx(0);
                let ring = n.t.m.ring();
                cx.probe(!ring as usize);
                both!(|s| s.scroll(i, None));
                n.t.m.scroll(i, ring);
            }
            SCROLLE if len > 0 => {
                let i = idx(0);
                let ring = it.ii(1) == 1;
                both!(|s| s.scroll(i, Some(ring)));
                n.t.m.scroll(i, ring);
            }
            SCROLLC => {
                let c = if len > 0 && it.ii(1) == 1 { n.t.m.c4(idx(0)) } else { [fb(it.ff(0)), fb(it.ff(1)), fb(f64::NAN), fb(f64::NAN)] };
                let q = coord(&c);
                both!(|s| s.scroll_to(&q));
                match n.t.m.index_of(&c) {
                    Some(k) => {
                        cx.probe(2);
                        let ring = n.t.m.ring();
                        n.t.m.scroll(k, ring)
                    }
                    None => cx.probe(3),
                }
            }
            VALID => {
                let mut m = n.t.m.clone();
                if len > 0 && len <= 3 {
                    cx.probe(6);
                    while m.rows.len() < 4 {
                        m.rows.push(m.rows[0].clone());
                    }
                } else if len > 0 && !m.ring() {
                    cx.probe(4);
                    m.rows.push(m.rows[0].clone());
                } else {
                    cx.probe(5);
                }
                replace!(|s| s.valid_ring(), m);
            }
            CLOSED if len > 0 && (len < 2000 || cx.wide() > 0) => {
                let k = len + it.ii(0).rem_euclid(if it.ii(0) > 1000 { 300 } else { 4 }) as usize;
                let mut m = n.t.m.clone();
                m.rows.resize(k, m.rows[0].clone());
                replace!(|s| s.closed(k), m);
            }
            EXTEND if len > 0 && (len < 2000 || cx.wide() > 0) => {
                let k = len + it.ii(0).rem_euclid(if it.ii(0) > 1000 { 300 } else { 4 }) as usize;
                let mut m = n.t.m.clone();
                m.rows.resize(k, m.rows[len - 1].clone());
                cx.probe(7);
                replace!(|s| s.extend(k), m);
            }
            READ => self.read(cx, it)?,
            CMP => {
                let Some(Some(o)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                let want = n.t.m.same(&o.m);
                cx.probe(if want { 9 } else { 10 });
                let (x, y) = cx.must(op, || (n.t.a.equal(&o.a), n.t.p.equal(&o.p)))?;
                check!(x == want && y == want, "equality: array sequences equal: {x}, packed: {y}, expected {want}");
                let lim = it.ii(1).rem_euclid(6) as usize;
                let w = n.t.m.cmp(&o.m, if lim < 2 { 99 } else { lim });
                let g = cx.must(op, || {
                    let c = if lim < 2 { CoordinateSequenceComparator::default() } else { CoordinateSequenceComparator::new_with_dimension_limit(lim as i32) };
                    c.compare_coordinate_array_sequence(&n.t.a, &o.a)
                })?;
                check!(g.signum() == w, "order: comparison with limit {lim} is {g}, expected {w}");
                agree2("compared", &o)?;
            }
            SEND => {
                let k = it.ii(0) as usize;
                let (a, p) = cx.must(op, || (n.t.a.copy(), n.t.p.copy()))?;
                let mb = self.mail.get();
                while mb.len() <= k {
                    mb.push(None);
                }
                mb[k] = Some(Arc::new(Trio { a, p, m: n.t.m.clone() }));
            }
            RECV => {
                let Some(Some(o)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                let ol = o.m.rows.len();
                if it.ii(1) == 0 || len == 0 || ol == 0 {
                    let (a, p) = cx.must(op, || (CoordinateArraySequence::new_from_coordinate_array_sequence(&o.a), o.p.copy()))?;
                    n.t = Trio { a, p, m: o.m.clone() };
                } else {
                    let (sp, dp) = (it.ii(2).rem_euclid(ol as i64) as usize, it.ii(3).rem_euclid(len as i64) as usize);
                    let k = (ol - sp).min(len - dp);
                    if o.m.dim != n.t.m.dim {
                        cx.probe(8);
                    }
                    cx.must(op, || n.t.a.copy_from(&o.a, sp, dp, k))?;
                    cx.must(op, || n.t.p.copy_from(&o.p, sp, dp, k))?;
                    n.t.m.copy_from(&o.m, sp, dp, k);
                }
                agree2("delivered", &o)?;
                cx.nontrivial();
            }
            CKPT => {
                let (a, p) = cx.must(op, || (n.t.a.to_coordinate_array(), n.t.p.get_raw_coordinates()))?;
                n.ck = (a, p, n.t.m.clone());
            }
            CRASHR => {
                let (a, p, m) = n.ck.clone();
                let (d, me) = (m.dim as i32, m.meas as i32);
                let (a, p) = cx.must(op, || {
                    (CoordinateArraySequence::new_with_coordinates_dimension_measures(a, d, me),
                     PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&p, d, me))
                })?;
                n.t = Trio { a, p, m };
                cx.probe(13);
                cx.nontrivial();
            }
            _ => {}
        }
        Ok(())
    }
    fn read(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let t = &n.t;
        let m = &t.m;
        let len = m.rows.len();
        let (x, y) = cx.must("to_coordinate_array", || (t.a.array(), t.p.array()))?;
        check!(bits_of(&x) == m.c4s(), "content: array of the array sequence is {}, expected {}", show4(&bits_of(&x)), show4(&m.c4s()));
        check!(bits_of(&y) == m.c4s(), "content: array of the packed sequence is {}, expected {}", show4(&bits_of(&y)), show4(&m.c4s()));
        let (a, b) = cx.must("is_ring", || (t.a.is_ring(), t.p.is_ring()))?;
        check!(a == m.ring() && b == m.ring(), "ring: array {a}, packed {b}, expected {} for {}", m.ring(), show4(&m.c4s()));
        let want = m.min();
        for (k, g) in [cx.must("min_coordinate", || t.a.min())?, cx.must("min_coordinate", || t.p.min())?].iter().enumerate() {
            check!(g.1 == want && g.0.map(|c| bits(&c)) == want.map(|k| m.c4(k)), "minimum: sequence kind {k} gives index {:?}, expected {want:?} of {}", g.1, show4(&m.c4s()));
        }
        if len > 0 {
            let (a, b) = (it.ii(0).rem_euclid(len as i64) as usize, it.ii(1).rem_euclid(len as i64) as usize);
            let (a, b) = (a.min(b), a.max(b));
            let w = a + Model { dim: m.dim, meas: m.meas, rows: m.rows[a..=b].to_vec() }.min().unwrap();
            let (x, y) = cx.must("min_coordinate_index", || (t.a.min_part(a, b), t.p.min_part(a, b)))?;
            check!(x == w && y == w, "minimum: of {a}..={b} is {x} and {y}, expected {w}");
            let q = m.c4(a);
            let qc = coord(&q);
            let w = m.index_of(&q).map(|k| k as i32).unwrap_or(-1);
            let (x, y) = cx.must("index_of", || (t.a.index(&qc), t.p.index(&qc)))?;
            check!(x == w && y == w, "index: of coordinate {a} is {x} and {y}, expected {w}");
            let mut c = coord(&[fb(7.0), fb(7.0), fb(7.0), fb(7.0)]);
            cx.must("get_coordinate_index_coordinate", || t.a.get_coordinate_index_coordinate(a, &mut c))?;
            check!(bits(&c) == q, "content: coordinate {a} read into another is {}, expected {}", show4(&[bits(&c)]), show4(&[q]));
            let g = cx.must("get_x..get_m", || [t.a.get_x(a), t.a.get_y(a), t.a.get_z(a), t.a.get_m(a)])?;
            check!([fb(g[0]), fb(g[1]), fb(g[2]), fb(g[3])] == q, "content: x, y, z, m of coordinate {a} are {g:?}, expected {}", show4(&[q]));
            let h = cx.must("has_z", || (t.a.has_z(), t.a.has_m()))?;
            check!(h == (m.dim - m.meas > 2, m.meas > 0), "dimension: has_z, has_m are {h:?} for {:?}", (m.dim, m.meas));
        }
        let raw = cx.must("get_raw_coordinates", || t.p.get_raw_coordinates())?;
        check!(raw.iter().map(|x| fb(*x)).eq(m.raw().iter().map(|x| fb(*x))), "content: raw ordinates {raw:?}, expected {:?}", m.raw());
        let (e1, e2) = cx.must("expand_envelope", || {
            let mut e = Envelope::default();
            t.a.expand_envelope(&mut e);
            (e, t.p.expand_envelope(&Envelope::default()))
        })?;
        for (k, e) in [e1, e2].iter().enumerate() {
            let fx = |f: fn(f64, f64) -> f64, i: f64, d: usize| m.rows.iter().fold(i, |a, r| f(a, r[d]));
            if len == 0 {
                check!(e.is_null(), "envelope: kind {k} of an empty sequence is not empty");
            } else {
                let w = [fx(f64::min, f64::INFINITY, 0), fx(f64::max, f64::NEG_INFINITY, 0), fx(f64::min, f64::INFINITY, 1), fx(f64::max, f64::NEG_INFINITY, 1)];
                let g = [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()];
                check!(g == w, "envelope: kind {k} is {g:?}, expected {w:?}");
            }
        }
        Ok(())
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let before = self.nodes[cx.client].get().t.m.clone();
        let r = self.step(cx, it);
        let n = self.nodes[cx.client].get();
        cx.calm();
        if let Err(Stop::Oom) = r {
            cx.probe(12);
            cx.nontrivial();
            // the interrupted operation is repeated from a rebuilt pair
            n.t = Trio { a: Seq::from(&before), p: Seq::from(&before), m: before };
            let r = self.step(cx, it);
            if r.is_err() {
                return r;
            }
        } else {
            r?;
        }
        let n = self.nodes[cx.client].get();
        agree2(&format!("after {}", OPS[it.op]), &n.t)?;
        cx.log(n.t.m.dim as u64 * 8 + n.t.m.meas as u64);
        for v in n.t.m.rows.iter().flatten() {
            cx.logf(*v);
        }
        Ok(())
    }
    fn finish(&self, _cx: &Cx) -> Res {
        for (k, n) in self.nodes.iter().enumerate() {
            agree2(&format!("of node {k} at the end"), &n.get().t)?;
        }
        for a in self.mail.get().iter().flatten() {
            agree2("in a message at the end", a)?;
        }
        Ok(())
    }
}
fn dims(k: i64) -> (usize, usize) {
    [(2, 0), (3, 0), (3, 1), (4, 1)][k.rem_euclid(4) as usize]
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let wide = crowded(index, 2401);
    let nodes = 1 + r.us(4);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let mut pool: Vec<f64> = (0..2 + r.us(4)).map(|_| val(r, st)).collect();
    near(r, &mut pool, false);
    let nan = r.one_in(6);
    let kinds = if r.one_in(3) { 4 } else { 0 };
    let kind = r.range(0, 3);
    let rows = |r: &mut Rng, k: i64| -> Vec<f64> {
        let (d, _) = dims(k);
        if wide && r.one_in(2) {
            let k = r.below(5);
            return crowd(r, d, 3, k);
        }
        let n = r.count(9);
        let mut f: Vec<f64> = (0..n)
            .flat_map(|_| (0..d).map(|j| if j > 1 && nan && r.one_in(3) { f64::NAN } else { *r.pick(&pool) }).collect::<Vec<_>>())
            .collect();
        if n > 1 && r.one_in(2) {
            let (a, b) = (f[0], f[1]);
            f[(n - 1) * d] = a;
            f[(n - 1) * d + 1] = b;
        }
        f
    };
    for c in 0..nodes {
        let k = if kinds > 0 { r.range(0, 3) } else { kind };
        g.ev.push((0, item(c, NEW, vec![k, r.range(0, 4)], rows(r, k))));
    }
    let n = 4 + r.us(24);
    let n = if wide { n } else { hist(r, n) };
    for _ in 0..n {
        let c = r.us(nodes);
        let k = if kinds > 0 { r.range(0, 3) } else { kind };
        let mut a = || if wide { r.range(0, 1 << 20) } else { place(r, 20) };
        let (x, y, z) = (a(), a(), a());
        if wide && r.one_in(4) {
            // compared with a copy of what it was, one ordinate later
            let s = g.slot;
            g.slot += 1;
            let t = r.below(g.horizon);
            g.ev.push((t, item(c, SEND, vec![s, 0], vec![])));
            if r.one_in(2) {
                g.ev.push((t, item(c, SET, vec![x, r.range(0, 3)], vec![*r.pick(&pool)])));
            }
            g.ev.push((t, item(c, CMP, vec![s, r.range(0, 5)], vec![])));
            continue;
        }
        let it = match r.below(20) {
            0 => item(c, NEW, vec![k, r.range(0, 4)], rows(r, k)),
            1 if r.one_in(3) => {
                let (n, f) = if wide {
                    let f = crowd(r, 2, 0, 3);
                    (f[1] as i64, f)
                } else {
                    (r.count(7) as i64, rows(r, k))
                };
                item(c, SIZED, vec![k, n, r.range(0, 3), r.range(-1, 6), r.range(0, 3)], f)
            }
            1 | 2 | 3 => item(c, SET, vec![x, r.range(0, 3)], vec![*r.pick(&pool)]),
            4 => item(c, SWAP, vec![x, y], vec![]),
            5 => item(c, REV, vec![], vec![]),
            6 => item(c, COPYIN, vec![x, y, z], vec![]),
            7 | 8 => item(c, SCROLL, vec![x], vec![]),
            9 => item(c, SCROLLC, vec![x, r.range(0, 3).min(1)], vec![*r.pick(&pool), *r.pick(&pool)]),
            10 => item(c, SCROLLE, vec![x, r.range(0, 1)], vec![]),
            11 => item(c, VALID, vec![], vec![]),
            12 => item(c, CLOSED, vec![x], vec![]),
            13 => item(c, EXTEND, vec![x], vec![]),
            14 => item(c, READ, vec![x, y], vec![]),
            15 => item(c, CMP, vec![r.range(0, 6), r.range(0, 5)], vec![]),
            16 => item(c, CKPT, vec![], vec![]),
            17 if r.one_in(2) => {
                g.crash(r, c, CRASHR);
                continue;
            }
            _ => {
                // deliveries carry extra arguments for partial copies
                let n0 = g.ev.len();
                g.send(r, c, SEND, RECV);
                for e in &mut g.ev[n0 + 1..] {
                    e.1.i = vec![e.1.i[0], e.1.i[1].min(1), x, y];
                }
                continue;
            }
        };
        g.at(it, r);
    }
    if !wide {
        g.drill(r);
    }
    g.build(r, &Mix { threads: 0.3, oom: 0.4, max_gap: 300 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    let m = Model { dim: 2, meas: 0, rows: vec![] };
    Box::new(W {
        nodes: (0..clients(c))
            .map(|_| Own::new(Node { t: Trio { a: Seq::from(&m), p: Seq::from(&m), m: m.clone() }, ck: (vec![], vec![], m.clone()) }))
            .collect(),
        mail: Own::new(vec![]),
    })
}
pub const DEF: Def = Def {
    id: "C10",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 130_000,
    thorough_runs: 2_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if a sequence took a delivered one, was restored after a crash, or had an allocation fail inside an operation; distinct by event-log hash",
    real: &["CoordinateArraySequence", "CoordinateArraySequences", "PackedCoordinateSequenceDouble", "PackedCoordinateSequences", "both factories", "CoordinateSequenceComparator"],
    stub: &["network, checkpoint store and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
