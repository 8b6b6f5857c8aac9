//! Geometry objects: points, lines, rings, polygons and collections built, sent, rearranged and restored.
use super::common::*;
use crate::case::{Case, Item};
use crate::check;
use crate::oracle::to_grid;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use geos_rs::sim::*;
use std::cmp::Ordering;
use std::sync::Arc;

const OPS: &[&str] = &[
    "new", "assemble", "extract", "copy", "reverse", "normalize", "init", "envelope", "read", "compare", "send", "recv", "checkpoint",
    "crash_restart",
];
const NEW: usize = 0;
const ASM: usize = 1;
const EXTR: usize = 2;
const COPY: usize = 3;
const REV: usize = 4;
const NORM: usize = 5;
const INIT: usize = 6;
const ENV: usize = 7;
const READ: usize = 8;
const CMP: usize = 9;
const SEND: usize = 10;
const RECV: usize = 11;
const CKPT: usize = 12;
const CRASHR: usize = 13;
const PROBES: &[&str] = &[
    "polygon with holes", "empty part", "normalize reversed", "normalize rotated", "holes reordered", "envelope cached before", "rectangle",
    "precision model kept", "allocation failed inside an update", "restored", "equal geometries", "multi-geometry from delivered parts", "line normalized",
];
const REGS: usize = 6;
const PT: usize = 0;
const LS: usize = 1;
const LR: usize = 2;
const PG: usize = 3;
const MPT: usize = 4;
const MLS: usize = 5;
const MPG: usize = 6;

type Ring = Vec<C4>;
#[derive(Clone, PartialEq, Debug)]
struct Part {
    pm: i64,
    rings: Vec<Ring>,
}
/// what a geometry must be
#[derive(Clone, PartialEq, Debug)]
struct M {
    kind: usize,
    pm: i64,
    parts: Vec<Part>,
    wild: bool,
}
impl M {
    fn one(kind: usize, rings: Vec<Ring>, wild: bool) -> M {
        M { kind, pm: 0, parts: vec![Part { pm: 0, rings }], wild }
    }
    fn all(&self) -> Vec<C4> {
        self.parts.iter().flat_map(|p| p.rings.iter().flatten().copied()).collect()
    }
    fn shell(&self) -> &Ring {
        &self.parts[0].rings[0]
    }
}
enum Obj {
    Pt(Point),
    Ls(LineString),
    Lr(LinearRing),
    Pg(Polygon),
    MPt(MultiPoint),
    MLs(MultiLineString),
    MPg(MultiPolygon),
}
use Obj::*;
fn scale(pm: i64) -> f64 {
    [1.0, 10.0, 0.25][(pm - 1).clamp(0, 2) as usize]
}
fn model(pm: i64) -> PrecisionModel {
    PrecisionModel::new_with_scale(scale(pm))
}
fn point(r: &Ring) -> Point {
    match r.first() {
        Some(c) => GeometryFactory::create_point_from_coordinate(&coord(c)),
        None => GeometryFactory::create_point(),
    }
}
fn line(r: &Ring) -> LineString {
    GeometryFactory::create_line_string_coordinates(&coords(r))
}
fn ring(r: &Ring) -> LinearRing {
    GeometryFactory::create_linear_ring_with_coordinates(&coords(r))
}
fn polygon(p: &Part, via: i64) -> Polygon {
    if p.rings.len() == 1 && p.pm == 0 {
        match via % 3 {
            1 => return GeometryFactory::create_polygon_with_coordinates(&coords(&p.rings[0])),
            2 => return GeometryFactory::create_polygon_with_coordinate_array_sequence(&CoordinateArraySequence::new_with_coordinates(&coords(&p.rings[0]))),
            _ => {}
        }
    }
    let s = ring(&p.rings[0]);
    let h: Vec<LinearRing> = p.rings[1..].iter().map(ring).collect();
    match p.pm {
        0 => GeometryFactory::create_polygon_with_linear_ring_vec(&s, &h),
        m if h.is_empty() => Polygon::new_with_linear_ring_precision_model(&s, model(m)),
        m => Polygon::new_with_linear_ring_vec_precision_model(&s, &h, model(m)),
    }
}
fn build(m: &M, via: i64) -> Obj {
    match m.kind {
        PT => Pt(point(m.shell())),
        LS => Ls(line(m.shell())),
        LR => Lr(ring(m.shell())),
        PG => Pg(polygon(&m.parts[0], via)),
        MPT => {
            let flat: Vec<C4> = m.all();
            if m.pm == 0 && via % 2 == 1 && flat.len() == m.parts.len() {
                return MPt(GeometryFactory::create_multi_point_with_coordinates(&coords(&flat)));
            }
            let v: Vec<Point> = m.parts.iter().map(|p| point(&p.rings[0])).collect();
            MPt(multi_point(&v, m.pm))
        }
        MLS => {
            let v: Vec<LineString> = m.parts.iter().map(|p| line(&p.rings[0])).collect();
            MLs(multi_line(&v, m.pm))
        }
        _ => {
            let v: Vec<Polygon> = m.parts.iter().map(|p| polygon(p, via)).collect();
            MPg(multi_polygon(&v, m.pm))
        }
    }
}
fn multi_point(v: &Vec<Point>, pm: i64) -> MultiPoint {
    if pm == 0 { GeometryFactory::create_multi_point_from_points(v) } else { MultiPoint::new_with_points_precision_model(v, model(pm)) }
}
fn multi_line(v: &Vec<LineString>, pm: i64) -> MultiLineString {
    if pm == 0 { MultiLineString::new_with_line_strings(v) } else { MultiLineString::new_with_line_strings_precision_model(v, model(pm)) }
}
fn multi_polygon(v: &Vec<Polygon>, pm: i64) -> MultiPolygon {
    if pm == 0 { GeometryFactory::create_multi_polygon(v) } else { MultiPolygon::new_with_polygons_precision_model(v, model(pm)) }
}
fn copy(o: &Obj) -> Obj {
    match o {
        Pt(g) => Pt(g.copy()),
        Ls(g) => Ls(g.copy()),
        Lr(g) => Lr(g.copy()),
        Pg(g) => Pg(g.copy()),
        MPt(g) => MPt(g.copy()),
        MLs(g) => MLs(g.copy_internal()),
        MPg(g) => MPg(g.copy()),
    }
}
fn reversed(o: &Obj) -> Obj {
    match o {
        Pt(g) => Pt(g.reverse()),
        Ls(g) => Ls(g.reverse()),
        Lr(g) => Lr(g.reverse()),
        Pg(g) => Pg(g.reverse()),
        MPt(g) => MPt(g.reverse()),
        MLs(g) => MLs(g.reverse()),
        MPg(g) => MPg(g.reverse()),
    }
}
fn rings_of(g: &Polygon) -> Vec<Ring> {
    let mut v = vec![bits_of(&g.get_exterior_ring().get_coordinates())];
    for k in 0..g.get_num_interior_ring() {
        v.push(bits_of(&g.get_interior_ring_n(k).get_coordinates()));
    }
    v
}
/// the rings of every part as the object reports them (a multi-line-string does not say)
fn contents(o: &Obj) -> Option<Vec<Vec<Ring>>> {
    Some(match o {
        Pt(g) => vec![vec![bits_of(&g.get_coordinates())]],
        Ls(g) => vec![vec![bits_of(&g.get_coordinates())]],
        Lr(g) => vec![vec![bits_of(&g.get_coordinates())]],
        Pg(g) => vec![rings_of(g)],
        MPt(g) => (0..g.get_num_points()).map(|k| vec![bits_of(&g.get_point_at_index(k).map(|p| p.get_coordinates()).unwrap_or_default())]).collect(),
        MLs(_) => return None,
        MPg(g) => (0..g.get_num_polygons()).map(|k| rings_of(&g.get_polygon_at_index(k))).collect(),
    })
}
fn showm(m: &M) -> String {
    let k = ["Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"][m.kind];
    let mut s = format!("{k}(");
    for p in &m.parts {
        s += "{";
        for r in &p.rings {
            s += &show4(r);
        }
        s += "}";
    }
    s + ")"
}
fn agree(what: &str, o: &Obj, m: &M) -> Res {
    match contents(o) {
        Some(v) => {
            let w: Vec<Vec<Ring>> = m.parts.iter().map(|p| p.rings.clone()).collect();
            check!(v == w, "content: {what}: geometry has {:?}, expected {}", v.iter().flatten().map(|r| show4(r)).collect::<Vec<_>>(), showm(m));
        }
        None => {
            if let (MLs(g), MLs(f)) = (o, build(m, 0)) {
                check!(g.equals_exact(&f, 0.0), "content: {what}: multi-line-string is not {}", showm(m));
            }
        }
    }
    Ok(())
}
fn cmp2(a: &C4, b: &C4) -> Ordering {
    let f = f64::from_bits;
    f(a[0]).partial_cmp(&f(b[0])).unwrap().then(f(a[1]).partial_cmp(&f(b[1])).unwrap())
}
fn lex(a: &Ring, b: &Ring) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        let c = cmp2(x, y);
        if c != Ordering::Equal {
            return c;
        }
    }
    a.len().cmp(&b.len())
}
fn area2(r: &Ring) -> Option<(i128, i32)> {
    let v: Vec<f64> = r.iter().flat_map(|c| [f64::from_bits(c[0]), f64::from_bits(c[1])]).collect();
    let (g, e) = to_grid(&v)?;
    let p = |k: usize| (g[2 * k] - g[0], g[2 * k + 1] - g[1]);
    let s = (1..r.len()).map(|k| p(k - 1).0 * p(k).1 - p(k).0 * p(k - 1).1).sum();
    Some((s, e))
}
fn norm_ring(cx: &Cx, r: &mut Ring, cw: bool) {
    if r.is_empty() {
        return;
    }
    let n = r.len() - 1;
    let k = (0..n).reduce(|a, b| if cmp2(&r[b], &r[a]) == Ordering::Less { b } else { a }).unwrap();
    if k > 0 {
        cx.probe(3);
        let mut v: Ring = (0..n).map(|j| r[(j + k) % n]).collect();
        v.push(v[0]);
        *r = v;
    }
    if (area2(r).unwrap().0 > 0) == cw {
        cx.probe(2);
        r.reverse();
    }
}
fn norm_line(r: &mut Ring) -> bool {
    let n = r.len();
    for i in 0..n / 2 {
        match cmp2(&r[i], &r[n - 1 - i]) {
            Ordering::Equal => continue,
            Ordering::Greater => {
                r.reverse();
                return true;
            }
            _ => return false,
        }
    }
    false
}
fn bounds(m: &M) -> Option<[f64; 4]> {
    // a polygon's box is that of its shell
    let v: Vec<C4> = m.parts.iter().flat_map(|p| p.rings[0].iter().copied()).collect();
    if v.is_empty() {
        return None;
    }
    let f = |k: usize| {
        let it = v.iter().map(|c| f64::from_bits(c[k]));
        (it.clone().fold(f64::INFINITY, f64::min), it.fold(f64::NEG_INFINITY, f64::max))
    };
    let (x, y) = (f(0), f(1));
    Some([x.0, x.1, y.0, y.1])
}
fn check_env(what: &str, e: &Envelope, m: &M) -> Res {
    let ok = match bounds(m) {
        None => e.is_null(),
        Some(b) => !e.is_null() && b == [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()],
    };
    check!(ok, "envelope: {what}: [{} {} {} {}], expected {:?} of {}", e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y(), bounds(m), showm(m));
    Ok(())
}
fn length(r: &Ring) -> f64 {
    let f = f64::from_bits;
    r.windows(2).map(|w| f64::hypot(f(w[1][0]) - f(w[0][0]), f(w[1][1]) - f(w[0][1]))).sum()
}
fn closed(r: &Ring) -> bool {
    !r.is_empty() && eq2(&r[0], r.last().unwrap())
}
struct Node {
    regs: Vec<Option<(Obj, M)>>,
    ck: Vec<Option<M>>,
}
struct W {
    nodes: Vec<Own<Node>>,
    mail: Own<Vec<Option<Arc<(Obj, M)>>>>,
}
// the baton guarantees that one thread runs at a time
unsafe impl Sync for Obj {}
unsafe impl Send for Obj {}

/// rings of an item: i[from..] holds, for every part, its precision model, its number of rings and their lengths
fn parse(i: &[i64], f: &[f64]) -> Vec<Part> {
    let mut q = quads(f).into_iter();
    let mut i = i.iter().copied();
    let mut v = vec![];
    while let (Some(pm), Some(n)) = (i.next(), i.next()) {
        let rings: Vec<Ring> = (0..n.clamp(0, 8)).map(|_| q.by_ref().take(i.next().unwrap_or(0).clamp(0, 200_000) as usize).collect()).collect();
        if !rings.is_empty() {
            v.push(Part { pm, rings });
        }
    }
    v
}
/// the model a NEW item describes, if (after shrinking) it is still a geometry of that kind
fn described(it: &Item) -> Option<M> {
    let kind = it.ii(1).rem_euclid(7) as usize;
    let mut m = M { kind, pm: it.ii(2).clamp(0, 3), parts: parse(it.i.get(5..).unwrap_or(&[]), &it.f), wild: it.ii(4) == 1 };
    if kind < MPT {
        m.parts.truncate(1);
        if m.parts.is_empty() {
            return None;
        }
        if kind < PG {
            m.parts[0].rings.truncate(1);
            m.parts[0].pm = 0;
            m.pm = 0;
        } else {
            m.pm = m.parts[0].pm;
        }
    }
    for p in &mut m.parts {
        if m.kind != PG && m.kind != MPG {
            p.rings.truncate(1);
            p.pm = 0;
        }
        if m.kind == PT || m.kind == MPT {
            p.rings[0].truncate(1);
        }
        for r in &p.rings {
            if matches!(m.kind, PG | MPG | LR) && !r.is_empty() && (r.len() < 4 || !closed(r)) {
                return None;
            }
            if !m.wild && matches!(m.kind, PG | MPG | LR) && !r.is_empty() && area2(r).map(|a| a.0).unwrap_or(0) == 0 {
                m.wild = true;
            }
        }
    }
    Some(m)
}
impl W {
    fn step(&self, cx: &Cx, it: &Item) -> Res {
        let n = self.nodes[cx.client].get();
        let op = OPS[it.op];
        let src = it.ii(0).rem_euclid(REGS as i64) as usize;
        match it.op {
            NEW => {
                let Some(m) = described(it) else { return Ok(()) };
                if m.parts.iter().any(|p| p.rings.len() > 1) {
                    cx.probe(0);
                }
                if m.parts.iter().any(|p| p.rings[0].is_empty()) {
                    cx.probe(1);
                }
                let o = cx.must(op, || build(&m, it.ii(3)))?;
                n.regs[src] = Some((o, m));
            }
            ASM => {
                // the registers named by i[3..] become the parts of one geometry
                let kind = it.ii(1).rem_euclid(4) as usize + PG;
                let pm = it.ii(2).clamp(0, 3);
                let want = [LR, PT, LS, PG][kind - PG];
                let pick: Vec<&(Obj, M)> = it.i.iter().skip(3).filter_map(|k| n.regs[k.rem_euclid(REGS as i64) as usize].as_ref()).filter(|x| x.1.kind == want).collect();
                if kind == PG && pick.is_empty() {
                    return Ok(());
                }
                let wild = pick.iter().any(|x| x.1.wild);
                let mut m = M { kind, pm, parts: vec![], wild };
                let o = if kind == PG {
                    m.parts = vec![Part { pm, rings: pick.iter().map(|x| x.1.shell().clone()).collect() }];
                    cx.must(op, || {
                        let r: Vec<LinearRing> = pick.iter().filter_map(|x| if let Lr(g) = &x.0 { Some(g.copy()) } else { None }).collect();
                        Pg(match (r.len(), pm) {
                            (1, 0) => GeometryFactory::create_polygon_with_linear_ring(&r[0]),
                            (_, 0) => Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec()),
                            _ => Polygon::new_with_linear_ring_vec_precision_model(&r[0], &r[1..].to_vec(), model(pm)),
                        })
                    })?
                } else {
                    m.parts = pick.iter().map(|x| x.1.parts[0].clone()).collect();
                    cx.must(op, || match kind {
                        MPT => MPt(multi_point(&pick.iter().filter_map(|x| if let Pt(g) = &x.0 { Some(g.clone()) } else { None }).collect(), pm)),
                        MLS => MLs(multi_line(&pick.iter().filter_map(|x| if let Ls(g) = &x.0 { Some(g.clone()) } else { None }).collect(), pm)),
                        _ => MPg(multi_polygon(&pick.iter().filter_map(|x| if let Pg(g) = &x.0 { Some(g.clone()) } else { None }).collect(), pm)),
                    })?
                };
                if m.parts.len() > 1 {
                    cx.probe(11);
                    cx.nontrivial();
                }
                n.regs[src] = Some((o, m));
            }
            EXTR => {
                let dst = it.ii(1).rem_euclid(REGS as i64) as usize;
                let Some((o, m)) = &n.regs[src] else { return Ok(()) };
                let k = it.ii(2).max(0) as usize;
                let got: Option<(Obj, M)> = match o {
                    Pg(g) => {
                        let k = k % m.parts[0].rings.len();
                        let x = cx.must(op, || if k == 0 { g.get_exterior_ring() } else { g.get_interior_ring_n(k - 1) })?;
                        Some((Lr(x), M::one(LR, vec![m.parts[0].rings[k].clone()], m.wild)))
                    }
                    MPg(g) if !m.parts.is_empty() => {
                        let k = k % m.parts.len();
                        let x = cx.must(op, || g.get_polygon_at_index(k))?;
                        Some((Pg(x), M { kind: PG, pm: m.parts[k].pm, parts: vec![m.parts[k].clone()], wild: m.wild }))
                    }
                    MPt(g) => {
                        let k = k % (m.parts.len() + 1);
                        let x = cx.must(op, || g.get_point_at_index(k))?;
                        check!(x.is_some() == (k < m.parts.len()), "content: point {k} of {} is {}", showm(m), x.is_some());
                        x.map(|x| (Pt(x), M::one(PT, m.parts[k].rings.clone(), false)))
                    }
                    Ls(g) => {
                        let r = m.shell();
                        if r.is_empty() {
                            let x = cx.must(op, || g.get_start_point().is_none() && g.get_end_point().is_none())?;
                            check!(x, "content: an empty line has end points");
                            return Ok(());
                        }
                        let k = k % (r.len() + 2);
                        let x = cx.must(op, || if k < r.len() { Some(g.get_point_n(k)) } else if k == r.len() { g.get_start_point() } else { g.get_end_point() })?;
                        let c = if k < r.len() { r[k] } else if k == r.len() { r[0] } else { r[r.len() - 1] };
                        check!(x.is_some(), "content: end point {k} of {} is missing", showm(m));
                        x.map(|x| (Pt(x), M::one(PT, vec![vec![c]], false)))
                    }
                    _ => None,
                };
                if got.is_some() {
                    n.regs[dst] = got;
                }
            }
            COPY | REV => {
                let dst = it.ii(1).rem_euclid(REGS as i64) as usize;
                let Some((o, m)) = &n.regs[src] else { return Ok(()) };
                let x = cx.must(op, || if it.op == COPY { copy(o) } else { reversed(o) })?;
                let mut w = m.clone();
                if it.op == REV {
                    w.parts.iter_mut().flat_map(|p| p.rings.iter_mut()).for_each(|r| r.reverse());
                }
                agree("source", o, m)?;
                n.regs[dst] = Some((x, w));
            }
            NORM => {
                let Some((o, m)) = &mut n.regs[src] else { return Ok(()) };
                match o {
                    Ls(g) => {
                        cx.must(op, || g.normalize())?;
                        if norm_line(&mut m.parts[0].rings[0]) {
                            cx.probe(12);
                        }
                    }
                    Pg(g) => {
                        if m.wild || m.parts[0].rings.iter().any(|r| !r.is_empty() && area2(r).is_none()) {
                            return Ok(());
                        }
                        cx.must(op, || g.self_normalize())?;
                        let r = &mut m.parts[0].rings;
                        for (k, r) in r.iter_mut().enumerate() {
                            norm_ring(cx, r, k == 0);
                        }
                        let b = r.clone();
                        r[1..].sort_by(lex);
                        if b != *r {
                            cx.probe(4);
                        }
                        cx.nontrivial();
                    }
                    _ => {}
                }
            }
            INIT => {
                let Some((Ls(g), m)) = &mut n.regs[src] else { return Ok(()) };
                let q = quads(&it.f);
                let v = cx.must(op, || CoordinateArraySequence::new_with_coordinates(&coords(&q)))?;
                cx.must(op, || g.init(v))?;
                *m = M::one(LS, vec![q], false);
            }
            ENV => {
                let Some((o, m)) = &mut n.regs[src] else { return Ok(()) };
                for k in 0..2 {
                    let e = cx.must(op, || match o {
                        Pt(g) => Some(g.get_envelope_internal()),
                        Ls(g) => Some(g.compute_envelope_internal()),
                        Lr(g) => Some(g.get_envelope_internal()),
                        Pg(g) => Some(g.get_envelope_internal()),
                        MPt(g) => Some(g.get_envelope_internal()),
                        _ => None,
                    })?;
                    if let Some(e) = e {
                        check_env("asked", &e, m)?;
                        if k == 1 {
                            cx.probe(5);
                        }
                    }
                }
            }
            READ => {
                let Some((o, m)) = &n.regs[src] else { return Ok(()) };
                read(cx, op, o, m)?;
            }
            CMP => {
                let dst = it.ii(1).rem_euclid(REGS as i64) as usize;
                let (Some((a, m)), Some((b, w))) = (&n.regs[src], &n.regs[dst]) else { return Ok(()) };
                if m.kind == w.kind {
                    compare(cx, op, a, m, b, w, it.ff(0).abs())?;
                }
                if it.ii(2) > 0 {
                    let w = twin(m, it.ii(2) as usize, it.ii(3));
                    let b = build(&w, 0);
                    compare(cx, op, a, m, &b, &w, it.ff(0).abs())?;
                }
            }
            SEND => {
                let k = it.ii(0) as usize;
                let from = it.ii(1).rem_euclid(REGS as i64) as usize;
                let Some((o, m)) = &n.regs[from] else { return Ok(()) };
                let c = cx.must(op, || copy(o))?;
                let mb = self.mail.get();
                while mb.len() <= k {
                    mb.push(None);
                }
                mb[k] = Some(Arc::new((c, m.clone())));
            }
            RECV => {
                let Some(Some(a)) = self.mail.get().get(it.ii(0) as usize).cloned() else { return Ok(()) };
                let dst = it.ii(1).rem_euclid(REGS as i64) as usize;
                let o = cx.must(op, || copy(&a.0))?;
                agree("message", &a.0, &a.1)?;
                n.regs[dst] = Some((o, a.1.clone()));
                cx.nontrivial();
            }
            CKPT => n.ck = n.regs.iter().map(|r| r.as_ref().map(|x| x.1.clone())).collect(),
            CRASHR => {
                let ck = n.ck.clone();
                let v = cx.must(op, || ck.iter().map(|m| m.as_ref().map(|m| (build(m, it.ii(0)), m.clone()))).collect::<Vec<_>>())?;
                n.regs = v;
                cx.probe(9);
                cx.nontrivial();
            }
            _ => {}
        }
        Ok(())
    }
}
/// everything a geometry says about itself
fn read(cx: &Cx, op: &str, o: &Obj, m: &M) -> Res {
    let all = m.all();
    let empty = m.parts.iter().all(|p| p.rings[0].is_empty());
    let r = m.parts.first().map(|p| p.rings[0].clone()).unwrap_or_default();
    let c1 = |c: Option<Coordinate>| c.map(|c| bits(&c));
    match o {
        Pt(g) => {
            let (e, k, x, y, c, s) = cx.must(op, || (g.is_empty(), g.get_num_points(), g.get_x(), g.get_y(), g.get_coordinate(), g.get_coordinate_sequence()))?;
            check!(e == empty && k == r.len() && c1(c) == r.first().copied(), "read: point empty {e} size {k}: {}", showm(m));
            check!(x.map(fb) == r.first().map(|c| c[0]) && y.map(fb) == r.first().map(|c| c[1]), "read: point at {x:?} {y:?}: {}", showm(m));
            check!(bits_of(&s.to_coordinate_array()) == r, "read: point sequence differs: {}", showm(m));
            kind(cx, op, m, || (g.get_geometry_type().to_string(), Point::get_type_code(), Some(Point::get_dimension()), Some(Point::get_boundary_dimension()), None))?;
            check!(g.is_simple(), "read: point not simple");
        }
        Ls(g) => {
            let (e, k, c, cl, len, s, bd) =
                cx.must(op, || (g.is_empty(), g.get_num_points(), g.get_coordinate(), g.is_closed(), g.get_length(), g.get_coordinate_sequence(), g.get_boundary_dimension()))?;
            check!(e == empty && k == r.len() && c1(c) == r.first().copied(), "read: line empty {e} size {k}: {}", showm(m));
            check!(cl == closed(&r) && g.is_ring() == cl && (bd == -1) == cl && (bd == 0) != cl, "read: line closed {cl} boundary {bd}: {}", showm(m));
            check!(close(len, length(&r), 1e-12, 0.0), "length: {len}, expected {}: {}", length(&r), showm(m));
            check!(bits_of(&s.to_coordinate_array()) == r, "read: line sequence differs: {}", showm(m));
            kind(cx, op, m, || (g.get_geometry_type(), LineString::get_type_code(), Some(g.get_dimension()), None, None))?;
            for (k, c) in r.iter().enumerate() {
                let v = cx.must(op, || g.get_coordinate_n(k))?;
                check!(bits(&v) == *c, "content: coordinate {k} of {}", showm(m));
            }
            if let Some(c) = r.last() {
                let mut p = coord(c);
                let a = cx.must(op, || g.is_coordinate(&p))?;
                p.x = p.x * 2.0 + 1.0;
                let b = cx.must(op, || g.is_coordinate(&p))?;
                let w = r.iter().any(|c| eq2(c, &bits(&p)));
                check!(a && b == w, "read: line has its vertex {a}, has {} {b}: {}", p.x, showm(m));
            }
        }
        Lr(g) => {
            let (e, k, c, cl, len) = cx.must(op, || (g.is_empty(), g.get_num_points(), g.get_coordinate(), g.is_closed(), g.get_length()))?;
            check!(e == empty && k == r.len() && c1(c) == r.first().copied() && cl, "read: ring empty {e} size {k} closed {cl}: {}", showm(m));
            check!(close(len, length(&r), 1e-12, 0.0), "length: {len}, expected {}: {}", length(&r), showm(m));
            kind(cx, op, m, || (g.get_geometry_type(), g.get_type_code(), None, Some(g.get_boundary_dimension()), None))?;
            for (k, c) in r.iter().enumerate() {
                let v = cx.must(op, || g.get_coordinate_at_index(k))?;
                check!(bits(&v) == *c, "content: coordinate {k} of {}", showm(m));
            }
            let s = cx.must(op, || g.get_coordinate_array_sequence())?;
            check!(bits_of(&s.to_coordinate_array()) == r, "read: ring sequence differs: {}", showm(m));
        }
        Pg(g) => {
            let (e, k, c, v, len, a) = cx.must(op, || (g.is_empty(), g.get_num_points(), g.get_coordinate(), g.get_coordinates(), g.get_length(), g.get_area()))?;
            check!(e == empty && k == all.len() && c1(c) == r.first().copied(), "read: polygon empty {e} size {k}: {}", showm(m));
            check!(empty || bits_of(&v) == all, "content: polygon coordinates are {}: {}", show4(&bits_of(&v)), showm(m));
            kind(cx, op, m, || (g.get_geometry_type(), Polygon::get_type_code(), Some(g.get_dimension()), Some(g.get_boundary_dimension()), None))?;
            let w: f64 = m.parts[0].rings.iter().map(length).sum();
            check!(close(len, w, 1e-12, 0.0), "length: {len}, expected {w}: {}", showm(m));
            check_area(a, m)?;
            if !empty {
                let b = bounds(m).unwrap();
                let v: Vec<(f64, f64)> = r.iter().map(|c| (f64::from_bits(c[0]), f64::from_bits(c[1]))).collect();
                let one = m.parts[0].rings.len() == 1;
                let corner = |p: &(f64, f64)| (p.0 == b[0] || p.0 == b[1]) && (p.1 == b[2] || p.1 == b[3]);
                let path = one && v.len() == 5 && v.iter().all(corner) && v.windows(2).all(|s| (s[0].0 != s[1].0) != (s[0].1 != s[1].1));
                let w = path && (1..4).all(|k| v[k + 1..].iter().all(|p| *p != v[k]));
                let q = cx.must(op, || g.is_rectangle())?;
                if w {
                    cx.probe(6);
                }
                // (a ring without area that runs to and fro between the corners of its box is left open)
                check!(q == w || (path && !w), "rectangle: {q}, expected {w}: {}", showm(m));
            }
            let f = polygon(&m.parts[0], 0);
            let (p, q) = cx.must(op, || (g.get_centroid(), f.get_centroid()))?;
            centroid(cx, &p, &q, m)?;
        }
        MPt(g) => {
            let (e, k, v, pm) = cx.must(op, || (g.is_empty(), g.get_num_points(), g.get_coordinates(), g.get_precision_model()))?;
            check!(e == m.parts.is_empty() && k == m.parts.len() && bits_of(&v) == all, "read: multi-point empty {e} size {k} {}: {}", show4(&bits_of(&v)), showm(m));
            kind(cx, op, m, || (g.get_geometry_type(), MultiPoint::get_type_code(), Some(g.get_dimension()), Some(g.get_boundary_dimension()), Some([-1, 0, 1, 2].map(|d| g.has_dimension(d)))))?;
            let w = if m.pm == 0 { None } else { Some(scale(m.pm)) };
            check!(pm.map(|p| p.get_scale()) == w, "precision: model {:?}, expected {w:?}: {}", pm.map(|p| p.get_scale()), showm(m));
            for (k, p) in m.parts.iter().enumerate() {
                let c = cx.must(op, || g.get_coordinate(k))?;
                check!(c1(c) == p.rings[0].first().copied(), "content: point {k} of {}", showm(m));
            }
        }
        MLs(g) => {
            let (e, cl, bd) = cx.must(op, || (g.is_empty(), g.is_closed(), g.get_boundary_dimension()))?;
            kind(cx, op, m, || (g.get_geometry_type(), MultiLineString::get_type_code(), Some(g.get_dimension()), None, Some([-1, 0, 1, 2].map(|d| g.has_dimension(d)))))?;
            let w = !empty && m.parts.iter().all(|p| closed(&p.rings[0]));
            check!(e == empty && cl == w && bd == if w { -1 } else { 0 }, "read: multi-line empty {e} closed {cl} boundary {bd}: {}", showm(m));
        }
        MPg(g) => {
            let (e, k, a) = cx.must(op, || (g.is_empty(), g.get_num_polygons(), g.get_area()))?;
            check!(e == empty && k == m.parts.len(), "read: multi-polygon empty {e} size {k}: {}", showm(m));
            kind(cx, op, m, || (g.get_geometry_type(), g.get_type_code(), Some(g.get_dimension()), Some(g.get_boundary_dimension()), Some([-1, 0, 1, 2].map(|d| g.has_dimension(d)))))?;
            check_area(a, m)?;
            let Obj::MPg(f) = build(m, 0) else { return Ok(()) };
            let (p, q) = cx.must(op, || (g.get_centroid(), f.get_centroid()))?;
            centroid(cx, &p, &q, m)?;
        }
    }
    Ok(())
}
type Says = (String, i32, Option<i32>, Option<i32>, Option<[bool; 4]>);
/// type name and code, dimension, boundary dimension (where they do not depend on the content)
fn kind(cx: &Cx, op: &str, m: &M, f: impl FnOnce() -> Says) -> Res {
    let (name, code, dim, bd, has) = cx.must(op, f)?;
    let (n, c, d, b) = [
        ("Point", 0, 0, -1), ("LineString", 2, 1, 0), ("LinearRing", 3, 1, -1), ("Polygon", 5, 2, 1), ("MultiPoint", 1, 0, -1),
        ("MultiLineString", 4, 1, 0), ("MultiPolygon", 6, 2, 1),
    ][m.kind];
    check!(name == n && code == c, "kind: {name} {code}, expected {n} {c}");
    check!(dim.unwrap_or(d) == d && bd.unwrap_or(b) == b, "kind: dimension {dim:?} boundary {bd:?} of a {n}");
    check!(has.unwrap_or([-1, 0, 1, 2].map(|x| x == d)) == [-1, 0, 1, 2].map(|x| x == d), "kind: {n} has dimensions {has:?}");
    Ok(())
}
fn check_area(a: f64, m: &M) -> Res {
    let (mut w, mut tol) = (0.0, 0.0);
    for p in &m.parts {
        for (k, r) in p.rings.iter().enumerate() {
            let Some((s, e)) = area2(r) else { return Ok(()) };
            let u = 2f64.powi(e);
            let v = s.unsigned_abs() as f64 * u * u / 2.0;
            w += if k == 0 { v } else { -v };
            if let Some(b) = bounds(&M::one(LR, vec![r.clone()], true)) {
                tol += 1e-13 * (b[1] - b[0]) * (b[3] - b[2]);
            }
        }
    }
    check!((a - w).abs() <= tol, "area: {a}, expected {w}: {}", showm(m));
    Ok(())
}
/// the centroid is that of a newly built twin, on the grid of the precision model
fn centroid(cx: &Cx, p: &Point, q: &Point, m: &M) -> Res {
    let (a, b) = (bits_of(&p.get_coordinates()), bits_of(&q.get_coordinates()));
    check!(a == b, "centroid: {} but {} of a new geometry with the same content: {}", show4(&a), show4(&b), showm(m));
    if let Some(c) = a.first().filter(|_| m.pm > 0) {
        cx.probe(7);
        for k in 0..2 {
            let v = f64::from_bits(c[k]) * scale(m.pm);
            check!(!v.is_finite() || (v - v.round()).abs() <= 1e-15 * v.abs(), "precision: centroid {} is off the grid of 1/{}: {}", show4(&a), scale(m.pm), showm(m));
        }
    }
    Ok(())
}
/// almost the same content
fn twin(m: &M, at: usize, how: i64) -> M {
    let mut t = m.clone();
    let total: usize = m.all().len();
    if total == 0 {
        return t;
    }
    let mut k = at % total;
    for p in 0..t.parts.len() {
        let nr = t.parts[p].rings.len();
        for g in 0..nr {
            let n = t.parts[p].rings[g].len();
            if k >= n {
                k -= n;
                continue;
            }
            match how {
                5 if g > 0 => drop(t.parts[p].rings.remove(g)),
                6 if g > 1 => t.parts[p].rings.swap(g, g - 1),
                5 | 6 if t.parts.len() > 1 && m.kind >= MPT => {
                    if how == 5 {
                        t.parts.remove(p);
                    } else {
                        let q = (p + 1) % t.parts.len();
                        t.parts.swap(p, q);
                    }
                }
                _ => {
                    let r = &mut t.parts[p].rings[g];
                    let f = |b: u64, w: i64| {
                        let x = f64::from_bits(b);
                        f64::to_bits(match w {
                            0 => x.next_up(),
                            1 => x + 1.0,
                            2 => x - 1e-7,
                            _ => -x,
                        })
                    };
                    match how {
                        0..=3 => r[k][at / 7 % 2] = f(r[k][at / 7 % 2], how),
                        _ => r[k][2 + at / 7 % 2] = f64::to_bits(7.5),
                    }
                    if (k == 0 || k + 1 == n) && m.kind != LS && m.kind != MLS {
                        let c = r[k];
                        r[0] = c;
                        r[n - 1] = c;
                    }
                }
            }
            return t;
        }
    }
    t
}
fn compare(cx: &Cx, op: &str, a: &Obj, m: &M, b: &Obj, w: &M, tol: f64) -> Res {
    let f = f64::from_bits;
    let flat = |x: &M| -> Vec<Vec<usize>> { x.parts.iter().map(|p| p.rings.iter().map(|r| r.len()).collect()).collect() };
    let shape = flat(m) == flat(w);
    let (x, y) = (m.all(), w.all());
    let d: Vec<f64> = x.iter().zip(&y).map(|(a, b)| f64::hypot(f(a[0]) - f(b[0]), f(a[1]) - f(b[1]))).collect();
    for t in [0.0, tol] {
        if t > 0.0 && d.iter().any(|d| (d - t).abs() <= 1e-9 * t) {
            continue;
        }
        let want = shape && if t == 0.0 { x.iter().zip(&y).all(|(a, b)| eq2(a, b)) } else { d.iter().all(|d| *d <= t) };
        let got = cx.must(op, || match (a, b) {
            (Pt(a), Pt(b)) => a.equals_exact(b, t),
            (Ls(a), Ls(b)) => a.equals_exact(b, t),
            (Lr(a), Lr(b)) => a.equals_exact(b, t),
            (Pg(a), Pg(b)) => a.equals_exact(b, t),
            (MPt(a), MPt(b)) => a.equals_exact(b.copy(), t),
            (MLs(a), MLs(b)) => a.equals_exact(b, t),
            (MPg(a), MPg(b)) => a.equals_exact(b.copy(), t),
            _ => want,
        })?;
        if want {
            cx.probe(10);
        }
        check!(got == want, "equality: {got} within {t}, expected {want}: {} and {}", showm(m), showm(w));
    }
    let two = CoordinateSequenceComparator::new_with_dimension_limit(2);
    let c = cx.must(op, || match (a, b) {
        (Pt(a), Pt(b)) => [a.compare_to_same_class(b, &two), b.compare_to_same_class(a, &two)].to_vec(),
        (Ls(a), Ls(b)) => vec![a.compare_to(b), b.compare_to(a), a.compare_to_with_comparator(b, &two), b.compare_to_with_comparator(a, &two)],
        (Lr(a), Lr(b)) => vec![a.compare_to_same_class(b), b.compare_to_same_class(a), a.compare_to_same_class_with_comparator(b, &two), b.compare_to_same_class_with_comparator(a, &two)],
        (Pg(a), Pg(b)) => vec![a.compare_to(b), b.compare_to(a), a.compare_to_with_comparator(b, &two), b.compare_to_with_comparator(a, &two)],
        _ => vec![],
    })?;
    if m.kind <= PG {
        let (p, q) = (&m.parts[0].rings, &w.parts[0].rings);
        let mut want = Ordering::Equal;
        for (r, s) in p.iter().zip(q) {
            want = want.then(lex(r, s));
        }
        let want = want.then(p.len().cmp(&q.len())) as i32;
        for (k, c) in c.iter().enumerate() {
            check!(c.signum() == if k % 2 == 0 { want } else { -want }, "order: comparison {k} gives {c}, expected order {want}: {} and {}", showm(m), showm(w));
        }
    }
    Ok(())
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let r = self.step(cx, it);
        let n = self.nodes[cx.client].get();
        if let Err(Stop::Oom) = r {
            cx.calm();
            cx.probe(8);
            cx.nontrivial();
            if it.op == NORM {
                // a ring is either as it was or normalized: restart it from its saved content
                let k = it.ii(0).rem_euclid(REGS as i64) as usize;
                if let Some((o, m)) = &mut n.regs[k] {
                    *o = build(m, 0);
                }
            }
            for (k, x) in n.regs.iter().enumerate() {
                if let Some((o, m)) = x {
                    agree(&format!("register {k} after a failed allocation in {}", OPS[it.op]), o, m)?;
                }
            }
            return r;
        }
        r?;
        cx.calm();
        for (k, x) in n.regs.iter().enumerate() {
            if let Some((o, m)) = x {
                agree(&format!("register {k} after {}", OPS[it.op]), o, m)?;
                cx.log(m.kind as u64 * 1000 + m.parts.len() as u64);
                for c in m.all().iter().flatten() {
                    cx.log(*c);
                }
            }
        }
        Ok(())
    }
    fn finish(&self, cx: &Cx) -> Res {
        for (k, n) in self.nodes.iter().enumerate() {
            for (o, m) in n.get().regs.iter().flatten() {
                agree(&format!("node {k} at the end"), o, m)?;
                read(cx, "read at the end", o, m)?;
            }
        }
        for a in self.mail.get().iter().flatten() {
            agree("message at the end", &a.0, &a.1)?;
        }
        Ok(())
    }
}
struct Gen {
    pool: Vec<f64>,
    kind: u64,
    wild: bool,
    unit: f64,
    origin: f64,
    big: bool,
    wide: bool,
}
impl Gen {
    fn tail(&self, r: &mut Rng, x: f64, y: f64) -> Vec<f64> {
        let mut v = vec![x, y, f64::NAN, f64::NAN];
        if self.kind & 1 == 1 {
            v[2] = r.range(-3, 3) as f64;
        }
        if self.kind & 2 == 2 {
            v[3] = r.range(-3, 3) as f64;
        }
        v
    }
    fn line(&self, r: &mut Rng) -> Vec<Vec<f64>> {
        let n = if self.big && r.one_in(12) { 100 + r.us(1000) } else if self.big && r.one_in(2) { 20 + r.us(60) } else { r.count(7) };
        let mut v: Vec<Vec<f64>> = (0..n)
            .map(|_| {
                let (x, y) = (*r.pick(&self.pool), *r.pick(&self.pool));
                self.tail(r, x, y)
            })
            .collect();
        if n > 1 && r.one_in(3) {
            let (x, y) = (v[0][0], v[0][1]);
            v[n - 1] = self.tail(r, x, y);
        }
        if n > 2 && r.one_in(4) {
            // a palindrome in 2D up to a random point
            for k in 0..r.us(n / 2 + 1) {
                let (x, y) = (v[k][0], v[k][1]);
                v[n - 1 - k] = self.tail(r, x, y);
            }
        }
        v
    }
    fn ring(&self, r: &mut Rng) -> Vec<Vec<f64>> {
        if r.one_in(12) {
            return vec![];
        }
        let mut p: Vec<(f64, f64)> = vec![];
        if self.wild {
            for _ in 0..if self.big && r.one_in(3) { 20 + r.us(60) } else { 3 + r.count(5) } {
                p.push((*r.pick(&self.pool), *r.pick(&self.pool)));
            }
        } else if r.one_in(6) {
            // a rectangle, or a ring that just fails to be one
            let (x, y, w, h) = (r.range(-4, 4) as f64, r.range(-4, 4) as f64, r.range(1, 4) as f64, r.range(1, 4) as f64);
            p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)].map(|(x, y)| (x * self.unit + self.origin, y * self.unit - self.origin)).to_vec();
            p.rotate_left(r.us(4));
            if r.one_in(2) {
                p.reverse();
            }
            let (k, j) = (r.us(4), r.us(4));
            match r.below(6) {
                0 => p[k].0 = if r.one_in(2) { p[k].0.next_up() } else { p[k].0.next_down() },
                1 => p[k].1 = if r.one_in(2) { p[k].1.next_up() } else { p[k].1.next_down() },
                2 if r.one_in(2) => {
                    // (no longer simple)
                    if k != j && (k + j) % 2 == 1 && r.one_in(4) {
                        p[k] = p[j];
                    } else {
                        p.remove(k);
                    }
                }
                2 => p.insert(k, ((p[k].0 + p[(k + 3) % 4].0) / 2.0, (p[k].1 + p[(k + 3) % 4].1) / 2.0)),
                _ => {}
            }
        } else {
            p = simple_ring(r).into_iter().map(|(x, y)| (x as f64 * self.unit + self.origin, y as f64 * self.unit - self.origin)).collect();
        }
        let c = p[0];
        p.push(c);
        p.into_iter().map(|(x, y)| self.tail(r, x, y)).collect()
    }
    /// one part of a geometry: its description and its ordinates
    fn part(&self, r: &mut Rng, kind: usize, i: &mut Vec<i64>, f: &mut Vec<f64>) {
        let rings: Vec<Vec<Vec<f64>>> = match kind {
            PT | MPT => vec![self.line(r).into_iter().take(r.count(2).min(1)).collect()],
            LS | MLS => vec![self.line(r)],
            LR => vec![self.ring(r)],
            _ => {
                let mut v = vec![self.ring(r)];
                if !v[0].is_empty() {
                    for _ in 0..if self.big && r.one_in(3) { 18 + r.us(20) } else { r.count(4) } {
                        v.push(self.ring(r));
                    }
                }
                v
            }
        };
        i.push(if r.one_in(3) { r.range(1, 3) } else { 0 });
        i.push(rings.len() as i64);
        for g in rings {
            i.push(g.len() as i64);
            f.extend(g.into_iter().flatten());
        }
    }
    fn new_item(&self, r: &mut Rng, c: usize) -> Item {
        if self.wide && r.one_in(2) {
            let kind = *r.pick(&[LS, LS, LR, PG, MPG, MLS]);
            let (extra, shape) = (r.below(4), if kind == LS || kind == MLS { r.below(5) } else { 0 });
            let f = crowd(r, 4, extra, shape);
            return item(c, NEW, vec![r.below(REGS as u64) as i64, kind as i64, 0, r.range(0, 5), 0, 0, 1, f[1] as i64], f);
        }
        let kind = *r.pick(&[PT, LS, LS, LR, PG, PG, PG, MPT, MLS, MPG]);
        let mut i = vec![r.below(REGS as u64) as i64, kind as i64, if r.one_in(3) { r.range(1, 3) } else { 0 }, r.range(0, 5), self.wild as i64];
        let mut f = vec![];
        let n = if kind < MPT { 1 } else if self.big && r.one_in(3) { 8 + r.us(12) } else { r.count(4) };
        for _ in 0..n {
            self.part(r, kind, &mut i, &mut f);
        }
        item(c, NEW, i, f)
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let wide = crowded(index, 801);
    let nodes = 1 + r.us(3);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let mut pool: Vec<f64> = (0..2 + r.us(3)).map(|_| val(r, st)).collect();
    near(r, &mut pool, false);
    let k = Gen {
        pool,
        kind: r.below(4),
        wild: r.one_in(3),
        unit: *r.pick(&[1.0, 1.0, 0.25, 1024.0, 0.75]),
        origin: *r.pick(&[0.0, 0.0, 4194304.0]),
        big: r.one_in(24),
        wide,
    };
    let reg = |r: &mut Rng| r.below(REGS as u64) as i64;
    for c in 0..nodes {
        for _ in 0..3 {
            let it = k.new_item(r, c);
            g.ev.push((0, it));
        }
    }
    let n = 6 + r.us(24);
    let n = if wide { n } else { hist(r, n) };
    for _ in 0..n {
        let c = r.us(nodes);
        let it = match r.below(20) {
            0..=2 => k.new_item(r, c),
            3 | 4 => {
                let mut i = vec![reg(r), r.range(0, 3), if r.one_in(3) { r.range(1, 3) } else { 0 }];
                for _ in 0..1 + r.count(6) {
                    i.push(reg(r));
                }
                item(c, ASM, i, vec![])
            }
            5 => item(c, EXTR, vec![reg(r), reg(r), r.range(0, 6)], vec![]),
            6 | 7 => item(c, COPY, vec![reg(r), reg(r)], vec![]),
            8 | 9 => item(c, REV, vec![reg(r), reg(r)], vec![]),
            10..=13 => item(c, NORM, vec![reg(r)], vec![]),
            14 => item(c, INIT, vec![reg(r)], k.line(r).into_iter().flatten().collect()),
            15 => item(c, ENV, vec![reg(r)], vec![]),
            16 => item(c, READ, vec![reg(r)], vec![]),
            17 => item(c, CMP, vec![reg(r), reg(r), r.range(0, 1 << 20), r.range(0, 6)], vec![*r.pick(&[0.5, 1.0, 3.0, 100.0, 1e-8])]),
            18 if r.one_in(2) => {
                if r.one_in(2) {
                    item(c, CKPT, vec![], vec![])
                } else {
                    g.crash(r, c, CRASHR);
                    continue;
                }
            }
            _ => {
                g.send(r, c, SEND, RECV);
                continue;
            }
        };
        g.at(it, r);
    }
    if !wide {
        g.drill(r);
    }
    g.build(r, &Mix { threads: 0.2, oom: 0.4, max_gap: 300 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W {
        nodes: (0..clients(c)).map(|_| Own::new(Node { regs: (0..REGS).map(|_| None).collect(), ck: vec![None; REGS] })).collect(),
        mail: Own::new(vec![]),
    })
}
pub const DEF: Def = Def {
    id: "C08",
    ops: OPS,
    gen,
    make,
    clients,
    reference: None,
    quick_runs: 60_000,
    thorough_runs: 1_000_000,
    probes: PROBES,
    rule: "a run is non-trivial if a geometry was delivered, assembled from several parts, normalized, restored after a crash, or had an allocation fail inside an update; distinct by event-log hash",
    real: &["Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryFactory", "Centroid", "Area", "Length", "Orientation", "CoordinateArraySequences", "PrecisionModel"],
    stub: &["network, checkpoint store and node processes (simulated)", "allocator (real memory behind a seam that injects failures)"],
};
