//! Bounded progress: whatever the ordinates and whatever happened before, every operation ends within
//! steps linear in the size of its input, and does not panic.
use super::common::*;
use super::funs::*;
use crate::case::{Case, Item};
use crate::check;
use crate::rng::Rng;
use crate::rt::*;
use crate::run::Def;
use crate::viol;
use geos_rs::sim::*;
use std::sync::OnceLock;

const PROBES: &[&str] = &[
    "hostile ordinate", "not a number", "infinite", "subnormal", "long list", "empty list", "argument out of range refused by a panic", "allocation failed inside",
    "object in a hostile state", "object restored", "argument out of range answered", "ring",
];
/// long-lived objects of one node
#[derive(Clone)]
struct Regs {
    env: Envelope,
    oct: OctagonalEnvelope,
    dd: DD,
    seg: LineSegment,
    list: CoordinateList,
    seq: CoordinateArraySequence,
    pk: PackedCoordinateSequenceDouble,
    pm: PrecisionModel,
    line: LineString,
    ring: LinearRing,
    poly: Polygon,
    pt: Coordinate,
    arr: Vec<Coordinate>,
}
impl Regs {
    fn new() -> Regs {
        let e: Vec<Coordinate> = vec![];
        let ring = GeometryFactory::create_linear_ring();
        Regs {
            env: Envelope::default(),
            oct: OctagonalEnvelope::default(),
            dd: DD::default(),
            seg: LineSegment::default(),
            list: CoordinateList::default(),
            seq: CoordinateArraySequence::new_with_coordinates(&e),
            pk: PackedCoordinateSequenceDouble::new_with_coordinates(&e),
            pm: PrecisionModel::default(),
            line: GeometryFactory::create_line_string(),
            poly: GeometryFactory::create_polygon_with_linear_ring(&ring),
            ring,
            pt: Coordinate::default(),
            arr: vec![],
        }
    }
    fn size(&self) -> u64 {
        (self.list.to_coordinate_array().len() + self.seq.size() + self.pk.size() + self.line.get_num_points() + self.ring.get_num_points() + self.poly.get_num_points() + self.arr.len()) as u64
    }
}
const NACT: i64 = 80;
/// objects that cannot be copied: what a failed allocation leaves of them stays; a crash makes new ones
struct Live {
    cen: Centroid,
    ray: RayCrossingCounter,
    ri: RobustLineIntersector,
    im: IntersectionMatrix,
    pts: MultiPoint,
    lines: MultiLineString,
    polys: MultiPolygon,
    /// points in the three
    n: [u64; 3],
}
impl Live {
    fn new() -> Live {
        Live {
            cen: Centroid::default(),
            ray: RayCrossingCounter::new_with_coordinate(&Coordinate::default()),
            ri: RobustLineIntersector::default(),
            im: IntersectionMatrix::default(),
            pts: MultiPoint::new_with_points(&vec![]),
            lines: MultiLineString::new_with_line_strings(&vec![]),
            polys: MultiPolygon::new_with_polygons(&vec![]),
            n: [0; 3],
        }
    }
}
/// closed rings of three different points each
fn rings(v: &[Coordinate]) -> Vec<LinearRing> {
    v.chunks_exact(3).map(|c| GeometryFactory::create_linear_ring_with_coordinates(&vec![c[0], c[1], c[2], c[0]])).filter(|r| r.is_closed()).collect()
}
/// one action on the long-lived objects; false: the arguments do not fit its state
fn act(r: &mut Regs, l: &mut Live, k: i64, a: &A, o: &mut Vec<u64>) -> bool {
    let (c, f) = (a.c, a.f);
    let i = a.ix(1);
    let ls = LineSegment::new_from_coordinates(&c[0], &c[1]);
    let d2 = DD::new_x(f[0]).add_f64(f[1]);
    match k {
        0 => r.env.expand_to_include_coordinate(&c[0]),
        1 => r.env.expand_by_delta_xy(f[0], f[1]),
        2 => r.env.translate(f[0], f[1]),
        3 => r.env.expand_to_include_envelope(&Envelope::new_coordinates(&c[0], &c[1])),
        4 => r.env = r.env.intersection_envelope(&Envelope::new_coordinates(&c[0], &c[1])),
        5 => ((r.env, r.env.centre(), r.env.get_area()), r.env.distance_envelope(&Envelope::new_coordinate(&c[0])), r.env.to_string()).put(o),
        6 => r.oct.expand_to_include_coordinate(&c[0]),
        7 => r.oct.expand_by_distance(f[0]),
        8 => r.oct.expand_to_include_envelope(&r.env.copy()),
        9 => r.oct.expand_to_include_octagonal_envelope(&OctagonalEnvelope::new_with_coordinates(&c[0], &c[1])),
        10 => (r.oct, r.oct.is_valid(), r.oct.intersects_coordinate(&c[0])).put(o),
        11 => r.dd.set_value_f64(f[0]),
        12 => r.dd.self_add_dd(&d2),
        13 => r.dd.self_multiply_dd(&d2),
        14 => r.dd.self_divide_dd(&d2),
        15 => r.dd.self_sqr(),
        16 => r.dd = r.dd.sqrt_dd(),
        17 => r.dd = r.dd.pow(a.k[1].clamp(i32::MIN as i64, i32::MAX as i64) as i32),
        18 => r.dd = r.dd.reciprocal(),
        19 => ((r.dd.floor(), r.dd.ceil()), r.dd.rint(), (r.dd.trunc(), r.dd.int_value(), r.dd.signum())).put(o),
        20 => r.dd.self_subtract_dd(&d2),
        21 => r.seg.set_coordinates(&c[0], &c[1]),
        22 => r.seg.normalize(),
        23 => r.seg.reverse(),
        24 if r.seg.get_length() != 0.0 || f[0] == 0.0 => r.seg = r.seg.offset(f[0]),
        25 => {
            if let Some(s) = r.seg.project_line_segment(&ls) {
                r.seg = s
            }
        }
        26 => (r.seg.closest_points(&ls), r.seg.line_intersection(ls), (r.seg.intersection(&ls), r.seg.orientation_index_line_segment(&ls))).put(o),
        27 => r.list.add_coordinate_repeated(c[0], a.k[1] & 1 == 1),
        28 => r.list.add_all(a.v.clone(), a.k[1] & 1 == 1).put(o),
        29 => r.list.add_coordinate_list_repeated_direction(a.v, a.k[1] & 1 == 1, a.k[1] & 2 == 2).put(o),
        30 => {
            let n = r.list.to_coordinate_array().len();
            r.list.add_index_coordinate_repeated(i % (n + 1), c[0], a.k[2] & 1 == 1)
        }
        31 => r.list.close_ring(),
        32 => r.list.to_coordinate_array_forward(a.k[1] & 1 == 1).put(o),
        33 => r.list = CoordinateList::new_with_repeated(a.v.clone(), false),
        34 => r.seq = CoordinateArraySequence::new_with_coordinates(a.v),
        35 => CoordinateArraySequences::reverse(&mut r.seq),
        36 => r.seq = CoordinateArraySequences::ensure_valid_ring(&r.seq),
        37 => CoordinateArraySequences::scroll_coordinate(&mut r.seq, &c[0]),
        38 if r.seq.size() > 0 => {
            let n = r.seq.size();
            let whole = a.k[2] & 1 == 1 && CoordinateArraySequences::is_ring(&r.seq);
            CoordinateArraySequences::scroll_coordinate_index_ensure_ring(&mut r.seq, i % n, whole)
        }
        39 if r.seq.size() > 0 => {
            let n = r.seq.size();
            r.seq.set_ordinate(i % n, (a.k[2] & 1) as i32, f[0])
        }
        40 => (r.seq.to_string(), CoordinateArraySequences::is_ring(&r.seq), CoordinateArraySequences::index_of(&c[0], &r.seq)).put(o),
        41 => r.pk = PackedCoordinateSequenceDouble::new_with_coordinates(a.v),
        42 => PackedCoordinateSequences::reverse(&mut r.pk),
        43 => r.pk = PackedCoordinateSequences::ensure_valid_ring(&r.pk),
        44 => PackedCoordinateSequences::scroll_coordinate(&mut r.pk, &c[0]),
        45 if r.pk.size() > 0 => {
            let n = r.pk.size();
            r.pk.set_ordinate(i % n, (a.k[2] & 1) as i32, f[0])
        }
        46 => (PackedCoordinateSequences::is_ring(&r.pk), PackedCoordinateSequences::index_of(&c[0], &r.pk), r.pk.expand_envelope(&r.env)).put(o),
        47 if f[0] != 0.0 => r.pm = PrecisionModel::new_with_scale(f[0]),
        48 => r.pm.make_precise_coordinate(&mut r.pt),
        49 => (r.pm, r.pm.to_string(), r.pm.compare_to(&PrecisionModel::default())).put(o),
        50 if a.v.len() != 1 => r.line = GeometryFactory::create_line_string_coordinates(a.v),
        51 => r.line.normalize(),
        52 => (r.line.get_length(), r.line.compute_envelope_internal(), r.line.compare_to(&r.line.reverse())).put(o),
        53 if !unring(a.v) => r.ring = GeometryFactory::create_linear_ring_with_coordinates(a.v),
        54 => r.poly = GeometryFactory::create_polygon_with_linear_ring(&r.ring),
        55 => r.poly.self_normalize(),
        56 => ((r.poly.get_area(), r.poly.is_rectangle(), r.poly.get_centroid()), r.poly.compare_to(&r.poly.reverse()), r.poly.get_envelope_internal()).put(o),
        57 => r.pt = c[0],
        58 => r.arr = a.v.clone(),
        59 => CoordinateArrays::scroll_coordinate(&mut r.arr, &c[0]),
        60 => r.arr = CoordinateArrays::remove_repeated_or_invalid_points(&r.arr),
        62 if !unring(a.v) => match a.k[1].rem_euclid(3) {
            _ if a.v.is_empty() => return false,
            0 => l.cen.add_shell(a.v),
            1 => l.cen.add_hole(a.v),
            _ => l.cen.add_line_segments(a.v),
        },
        63 => {
            if let Some(p) = a.v.first() {
                l.cen.set_area_base_point(p)
            }
            l.cen.add_point(&c[0]);
            l.cen.get_centroid().put(o)
        }
        64 => l.ray.count_segment(&c[0], &c[1]),
        65 => (l.ray.get_count(), l.ray.get_location(), l.ray.is_point_in_polygon()).put(o),
        66 => l.ray = RayCrossingCounter::new_with_coordinate(&c[0]),
        67 => {
            l.ri.compute_intersection_4(&c[0], &c[1], &r.seg.p0, &r.seg.p1);
            (l.ri.has_intersection(), l.ri.get_intersection(0), l.ri.get_intersection(1)).put(o)
        }
        68 => {
            l.ri.compute_intersection_3(&c[0], &r.seg.p0, &r.seg.p1);
            l.ri.has_intersection().put(o)
        }
        69 => l.ri.set_precision_model(r.pm),
        70 => l.im.set_at_least_row_column_dimension_if_valid(i % 3, a.ix(2) % 3, (a.k[1] & 3) as i32 - 1),
        71 => l.im.transpose(),
        72 => ((l.im.is_disjoint(), l.im.is_within(), l.im.is_equals(2, 2)), l.im.is_touches(1, 2), l.im.to_string()).put(o),
        73 => r.poly = GeometryFactory::create_polygon_with_linear_ring_vec(&r.ring, &if r.ring.is_empty() { vec![] } else { rings(a.v) }),
        74 => {
            l.n[0] = a.v.len() as u64;
            l.pts = GeometryFactory::create_multi_point_with_coordinates(a.v)
        }
        75 => ((l.pts.get_envelope_internal(), l.pts.get_coordinates()), l.pts.reverse().get_point_at_index(i), l.pts.copy().get_num_points()).put(o),
        76 => {
            l.n[1] = 2 * r.line.get_num_points() as u64 + 2;
            l.lines = MultiLineString::new_with_line_strings(&vec![r.line.copy(), r.line.reverse(), GeometryFactory::create_line_string_coordinates(&a.c.to_vec())])
        }
        77 => (l.lines.is_closed(), l.lines.is_empty(), l.lines.equals_exact(&l.lines.reverse(), f[0])).put(o),
        78 => {
            l.n[2] = 2 * r.poly.get_num_points() as u64;
            l.polys = GeometryFactory::create_multi_polygon(&vec![r.poly.copy(), r.poly.reverse()])
        }
        79 => {
            let q = l.polys.reverse();
            let first = if q.is_empty() { None } else { Some(q.get_polygon_at_index(0)) };
            ((l.polys.get_area(), l.polys.get_num_polygons(), l.polys.get_centroid()), first, l.polys.copy().is_empty()).put(o)
        },
        61 => (RayCrossingCounter::locate_point_in_ring_vec(&r.pt, &r.arr), Orientation::is_ccw_vec(&r.arr), PointLocation::is_on_line_coordinates(&r.pt, &r.arr)).put(o),
        _ => return false,
    }
    true
}

struct W {
    nodes: Vec<Own<(Regs, Regs, Live)>>,
}
const HOSTILE: [f64; 20] = [
    f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-310, f64::MAX, f64::MIN, 1e308, -1e300, 1e155, 9007199254740993.0,
    -4503599627370495.5, 2147483648.0, -2147483649.0, 1e-160, 9.3e18,
];
fn limit(cost: u8, v: u64, w: u64) -> u64 {
    match cost {
        2 => 20_000 + 60 * (v + 1) * (w + 1),
        3 => 20_000 + 4000 * (v + w),
        _ => 20_000 + 800 * (v + w),
    }
}
impl World for W {
    fn exec(&self, cx: &Cx, it: &Item) -> Res {
        let nf = FUNS.len();
        if it.op > nf {
            // checkpoint / crash and restart
            let (live, saved, fixed) = self.nodes[cx.client].get();
            if it.op == nf + 1 {
                *saved = live.clone();
            } else {
                *live = saved.clone();
                *fixed = Live::new();
                cx.probe(9);
            }
            return Ok(());
        }
        let args = if it.op == nf { obj_args(it) } else { Args::of(it) };
        let a = args.a();
        let (mut nan, mut inf, mut sub) = (false, false, false);
        for x in &it.f {
            nan |= x.is_nan();
            inf |= x.is_infinite();
            sub |= x.is_subnormal();
        }
        for (k, b) in [(1, nan), (2, inf), (3, sub), (4, args.v.len() > 100), (5, args.v.is_empty())] {
            if b {
                cx.probe(k);
            }
        }
        if inf || sub {
            cx.probe(0);
            cx.nontrivial();
        }
        if args.v.len() > 3 && !unring(&args.v) {
            cx.probe(11);
        }
        let before = args.bits();
        let mut o = Vec::with_capacity(4096);
        let s0 = cx.steps();
        let (name, lim, bad, r) = if it.op == nf {
            let k = it.ii(0).rem_euclid(NACT);
            let mut regs = self.nodes[cx.client].get().0.clone();
            let n = regs.size() + args.v.len() as u64 + self.nodes[cx.client].get().2.n.iter().sum::<u64>();
            cx.allow(limit(1, 2 * n, 0) + 1_000_000);
            let r = cx.lib(|| {
                let b = act(&mut regs, &mut self.nodes[cx.client].get().2, k, &a, &mut o);
                (b, regs)
            });
            let r = match r {
                Ok((b, x)) => {
                    if b && (inf || nan) {
                        cx.probe(8);
                    }
                    self.nodes[cx.client].get().0 = x;
                    Ok(())
                }
                Err(e) => Err(e),
            };
            (format!("object action {k}"), limit(1, 2 * n, 0), false, r)
        } else {
            let fun = &FUNS[it.op];
            cx.allow(limit(fun.cost, args.v.len() as u64, args.w.len() as u64) + 1_000_000);
            let r = cx.lib(|| (fun.run)(&a, &mut o));
            (NAMES[it.op].to_string(), limit(fun.cost, args.v.len() as u64, args.w.len() as u64), (fun.bad)(&a), r)
        };
        let steps = cx.steps() - s0;
        if let Ok(m) = std::env::var("DST_MEASURE") {
            use std::io::Write;
            let _ = std::fs::OpenOptions::new().append(true).create(true).open(m).map(|mut f| writeln!(f, "{name} {} {} {steps}", args.v.len(), args.w.len()));
        }
        check!(steps <= lim, "no-progress: {name} took {steps} basic blocks, more than {lim}, on lists of {} and {}", args.v.len(), args.w.len());
        cx.calm();
        match r {
            Ok(()) => {
                if bad {
                    cx.probe(10);
                }
                cx.log(o.len() as u64);
                for x in &o {
                    cx.log(*x);
                }
            }
            Err(Fault::Oom) => {
                cx.probe(7);
                cx.nontrivial();
            }
            Err(Fault::Panic(m)) => {
                if !bad {
                    viol!("panic: {name} panicked: {m}: {} and numbers {:?} {:?}", show4(&args.bits()), args.f, args.k);
                }
                cx.probe(6);
            }
        }
        check!(args.bits() == before, "arguments: {name} changed its arguments: {}", show4(&before));
        Ok(())
    }
    fn finish(&self, cx: &Cx) -> Res {
        // faults have stopped: every node can still do ordinary work, within the same bounds
        for n in &self.nodes {
            let mut regs = n.get().0.clone();
            let l = &mut n.get().2;
            let p: Vec<Coordinate> = [(0., 0.), (4., 0.), (4., 3.), (0., 0.)].iter().map(|q| Coordinate::new_xy(q.0, q.1)).collect();
            let s0 = cx.steps();
            let n = regs.size() + l.n.iter().sum::<u64>();
            let mut o = vec![];
            cx.must("ordinary work after hostile values", || {
                for k in [0, 5, 10, 11, 12, 19, 26, 32, 34, 36, 40, 41, 43, 46, 49, 50, 51, 52, 53, 54, 55, 56, 58, 61, 62, 63, 64, 65, 67, 68, 70, 71, 72, 74, 75, 76, 77, 78, 79] {
                    act(&mut regs, l, k, &A { c: &p, v: &p, w: &p, f: [1.0, 2.0, 3.0, 4.0], k: [0, 1, 0, 0] }, &mut o);
                }
            })?;
            let steps = cx.steps() - s0;
            check!(steps < 42 * limit(1, n + 8, 0), "no-progress: ordinary work after hostile values took {steps} basic blocks");
        }
        Ok(())
    }
}
/// an object action takes two coordinates, one list, two numbers
fn obj_args(it: &Item) -> Args {
    let nv = it.ii(4).clamp(0, 32_768) as usize;
    let g = |j: usize| it.f.get(j).copied().unwrap_or(0.0);
    let p = |at: usize| Coordinate::new_xyzm(g(at), g(at + 1), g(at + 2), g(at + 3));
    Args {
        c: vec![p(0), p(4)],
        v: (0..nv).map(|j| p(8 + 4 * j)).collect(),
        w: vec![],
        f: [g(8 + 4 * nv), g(9 + 4 * nv), 0.0, 0.0],
        k: [it.ii(0), it.ii(1), it.ii(2), it.ii(3)],
    }
}
pub fn names() -> &'static [&'static str] {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| NAMES.iter().copied().chain(["object", "checkpoint", "crash_restart"]).collect())
}
fn obj_item(c: usize, act: i64, k: &[i64], p: &[[f64; 4]], v: &[[f64; 4]], f: &[f64]) -> Item {
    let mut g: Vec<f64> = p.iter().chain(v).flatten().copied().collect();
    g.extend(f);
    item(c, FUNS.len(), vec![act, k[0], k[1], 0, v.len() as i64], g)
}
fn any2(r: &mut Rng, n: usize) -> i64 {
    if r.one_in(2) { r.below(n as u64) as i64 } else { r.range(0, 6) }
}
struct G {
    st: Style,
    hostile: f64,
    pool: Vec<f64>,
}
impl G {
    fn x(&self, r: &mut Rng) -> f64 {
        if r.chance(self.hostile) {
            *r.pick(&HOSTILE)
        } else if r.one_in(3) {
            val(r, self.st)
        } else {
            *r.pick(&self.pool)
        }
    }
    fn q(&self, r: &mut Rng) -> [f64; 4] {
        let k = r.below(8);
        [self.x(r), self.x(r), if k & 1 == 1 { self.x(r) } else { f64::NAN }, if k & 6 == 6 { self.x(r) } else { f64::NAN }]
    }
    fn list(&self, r: &mut Rng) -> Vec<[f64; 4]> {
        let n = match r.below(20) {
            0..=1 => 0,
            2 => 1,
            3..=9 => 2 + r.us(4),
            10..=17 => 4 + r.us(12),
            18 => 30 + r.us(100),
            _ => 200 + r.us(800),
        };
        self.points(r, n)
    }
    fn points(&self, r: &mut Rng, n: usize) -> Vec<[f64; 4]> {
        let mut v: Vec<[f64; 4]> = (0..n).map(|_| self.q(r)).collect();
        if n > 3 && r.one_in(2) {
            v[n - 1] = v[0];
        }
        if n > 2 && r.one_in(8) {
            // all the same point
            let p = v[0];
            v.iter_mut().for_each(|q| *q = p);
        }
        v
    }
    fn int(&self, r: &mut Rng) -> i64 {
        match r.below(12) {
            0 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, -1, 1 << 20, 4095]),
            1..=3 => r.range(-5, 60),
            _ => r.range(0, 6),
        }
    }
}
fn gen(r: &mut Rng, index: u64) -> Case {
    let nodes = 1 + r.us(3);
    let mut g = Gossip::new(r, nodes);
    let st = style(r);
    let mut h = G { st, hostile: *r.pick(&[0.0, 0.05, 0.2, 0.6, 1.0]), pool: vec![] };
    h.pool = (0..1 + r.us(5)).map(|_| if r.chance(h.hostile) { *r.pick(&HOSTILE) } else { val(r, st) }).collect();
    let nf = FUNS.len();
    let objs = index % 3 == 0;
    let long = index % 59 == 7;
    if long {
        // one operation after another on a very long list
        let k = (index / 59) as usize;
        let n = if r.one_in(4) { 4000 + r.us(20_000) } else { 3000 };
        let v = h.points(r, n);
        let w = if r.one_in(2) { v.clone() } else { h.points(r, n) };
        let mut any = |_| if r.one_in(3) { h.int(r) } else { r.below(n as u64) as i64 };
        let k4 = [any(0), any(1), any(2), any(3)];
        let lists: Vec<usize> = (0..nf).filter(|i| FUNS[*i].v > 0).collect();
        if k % 4 < 3 {
            let op = lists[(k - k / 4) % lists.len()];
            let fun = &FUNS[op];
            let p: Vec<[f64; 4]> = (0..fun.c).map(|_| if r.one_in(2) { *r.pick(&v) } else { h.q(r) }).collect();
            let w: Vec<[f64; 4]> = w.into_iter().take(if fun.v < 2 { 0 } else if fun.cost == 2 { 40 } else { n }).collect();
            let f: Vec<f64> = (0..fun.f).map(|_| h.x(r)).collect();
            g.ev.push((0, to_item(0, op, &p, &v, &w, &f, &k4[..fun.k])));
        } else {
            for a in [28, 34, 41, 50, 53, 54, 58, 73, 74, 76, 78] {
                g.ev.push((0, obj_item(0, a, &k4, &[h.q(r), *r.pick(&v)], &v, &[h.x(r), h.x(r)])));
            }
            for _ in 0..12 {
                let a = r.range(24, NACT - 1);
                let few: Vec<[f64; 4]> = v.iter().take(r.us(5)).copied().collect();
                g.ev.push((1, obj_item(0, a, &[h.int(r), any2(r, n), h.int(r), 0], &[h.q(r), *r.pick(&v)], &few, &[h.x(r), h.x(r)])));
            }
        }
    }
    for _ in 0..if long { 0 } else { 24 } {
        let c = r.us(nodes);
        let it = if objs && r.one_in(8) {
            g.net.cnt[RESTART] += 1;
            item(c, nf + 1 + r.us(2), vec![], vec![])
        } else if objs {
            let v = h.list(r);
            obj_item(c, r.range(0, NACT - 1), &[h.int(r), h.int(r), 0, 0], &[h.q(r), h.q(r)], &v, &[h.x(r), h.x(r)])
        } else {
            let op = r.us(nf);
            let fun = &FUNS[op];
            let p: Vec<[f64; 4]> = (0..fun.c).map(|_| h.q(r)).collect();
            let v = if fun.v > 0 { h.list(r) } else { vec![] };
            let w = if fun.v > 1 {
                match r.below(4) {
                    0 => v.clone(),
                    1 => v.iter().rev().copied().collect(),
                    _ => h.list(r),
                }
                .into_iter()
                .take(if fun.cost == 2 && v.len() > 2000 { 40 } else { usize::MAX })
                .collect()
            } else {
                vec![]
            };
            let f: Vec<f64> = (0..fun.f).map(|_| h.x(r)).collect();
            let k: Vec<i64> = (0..fun.k).map(|j| if fun.v == 0 && j == 0 && fun.k < 3 && r.one_in(2) { r.range(0, 1 << 18) } else { h.int(r) }).collect();
            to_item(c, op, &p, &v, &w, &f, &k)
        };
        g.at(it, r);
    }
    g.drill(r);
    g.build(r, &Mix { threads: 0.2, oom: 0.3, max_gap: 400 }, None)
}
fn clients(c: &Case) -> usize {
    c.cfg.first().copied().unwrap_or(1).clamp(1, 8) as usize
}
fn make(c: &Case) -> Box<dyn World> {
    Box::new(W { nodes: (0..clients(c)).map(|_| Own::new((Regs::new(), Regs::new(), Live::new()))).collect() })
}
pub fn def() -> Def {
    Def {
        id: "C16",
        ops: names(),
        gen,
        make,
        clients,
        reference: None,
        quick_runs: 25_000,
        thorough_runs: 4_000_000,
        probes: PROBES,
        rule: "a run is non-trivial if an operation met an infinite or subnormal ordinate or a failed allocation; distinct by event-log hash",
        real: &["every value-returning operation of the library by name (140 entries), 62 actions on long-lived boxes, numbers, segments, lists, sequences, models and geometries"],
        stub: &["allocator (real memory behind a seam that injects failures)", "steps counted at every basic block of the library"],
    }
}
