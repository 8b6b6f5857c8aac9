//! Every value-returning operation of the library, callable by name on flat arguments.
use super::common::*;
use crate::case::Item;
use geos_rs::sim::*;

/// `c`: coordinates, `v`/`w`: coordinate lists, `f`: numbers, `k`: integers
pub struct A<'a> {
    pub c: &'a [Coordinate],
    pub v: &'a Vec<Coordinate>,
    pub w: &'a Vec<Coordinate>,
    pub f: [f64; 4],
    pub k: [i64; 4],
}
impl A<'_> {
    pub fn ix(&self, j: usize) -> usize {
        self.k[j].clamp(0, 1 << 20) as usize
    }
    fn n(&self, j: usize) -> i32 {
        self.k[j].clamp(i32::MIN as i64, i32::MAX as i64) as i32
    }
    fn d(&self, j: usize) -> i32 {
        2 + self.k[j].rem_euclid(3) as i32
    }
    fn m(&self, j: usize) -> i32 {
        self.k[j].div_euclid(3).rem_euclid(2) as i32
    }
    fn seq(&self) -> CoordinateArraySequence {
        CoordinateArraySequence::new_with_coordinates(self.v)
    }
    fn seqw(&self) -> CoordinateArraySequence {
        CoordinateArraySequence::new_with_coordinates(self.w)
    }
    fn pk(&self) -> PackedCoordinateSequenceDouble {
        PackedCoordinateSequenceDouble::new_with_coordinates(self.v)
    }
    fn pkw(&self) -> PackedCoordinateSequenceDouble {
        PackedCoordinateSequenceDouble::new_with_coordinates(self.w)
    }
    fn line(&self) -> LineString {
        GeometryFactory::create_line_string_coordinates(self.v)
    }
    fn linew(&self) -> LineString {
        GeometryFactory::create_line_string_coordinates(self.w)
    }
    fn ring(&self) -> LinearRing {
        GeometryFactory::create_linear_ring_with_coordinates(self.v)
    }
    fn ringw(&self) -> LinearRing {
        GeometryFactory::create_linear_ring_with_coordinates(self.w)
    }
    fn poly(&self) -> Polygon {
        let (s, h) = (self.ring(), self.ringw());
        GeometryFactory::create_polygon_with_linear_ring_vec(&s, &if h.is_empty() { vec![] } else { vec![h] })
    }
    fn seg(&self, j: usize) -> LineSegment {
        LineSegment::new_from_coordinates(&self.c[j], &self.c[j + 1])
    }
    fn env(&self, j: usize) -> Envelope {
        Envelope::new_coordinates(&self.c[j], &self.c[j + 1])
    }
    fn oct(&self, j: usize) -> OctagonalEnvelope {
        OctagonalEnvelope::new_with_coordinates(&self.c[j], &self.c[j + 1])
    }
    fn tri(&self) -> Triangle {
        Triangle::new(&self.c[0], &self.c[1], &self.c[2])
    }
    fn v2(&self, j: usize) -> Vector2D {
        Vector2D::new_from_coordinate(&self.c[j])
    }
    fn v3(&self, j: usize) -> Vector3D {
        Vector3D::new_from_coordinate(&self.c[j])
    }
    fn dd(&self, j: usize) -> DD {
        DD::new_x(self.f[j]).add_f64(self.f[j + 1])
    }
    fn pm(&self) -> PrecisionModel {
        match self.k[0].rem_euclid(4) {
            0 => PrecisionModel::default(),
            1 => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle),
            _ => PrecisionModel::new_with_scale(self.f[0]),
        }
    }
    fn im(&self) -> IntersectionMatrix {
        let mut m = IntersectionMatrix::default();
        let mut k = self.k[0] as u64;
        for i in 0..9 {
            m.set_row_column_value(i / 3, i % 3, (k % 4) as i32 - 1);
            k /= 4;
        }
        m
    }
}

pub trait Put {
    fn put(&self, o: &mut Vec<u64>);
}
impl Put for f64 {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(fb(*self))
    }
}
impl Put for i32 {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(*self as u64)
    }
}
impl Put for usize {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(*self as u64)
    }
}
impl Put for bool {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(*self as u64)
    }
}
impl Put for char {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(*self as u64)
    }
}
impl Put for str {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(self.len() as u64);
        o.extend(self.bytes().map(u64::from))
    }
}
impl Put for &str {
    fn put(&self, o: &mut Vec<u64>) {
        (**self).put(o)
    }
}
impl Put for String {
    fn put(&self, o: &mut Vec<u64>) {
        self.as_str().put(o)
    }
}
impl Put for Coordinate {
    fn put(&self, o: &mut Vec<u64>) {
        o.extend(bits(self))
    }
}
impl Put for Vector2D {
    fn put(&self, o: &mut Vec<u64>) {
        o.extend([fb(self.get_x()), fb(self.get_y())])
    }
}
impl Put for Vector3D {
    fn put(&self, o: &mut Vec<u64>) {
        o.extend([fb(self.get_x()), fb(self.get_y()), fb(self.get_z())])
    }
}
impl Put for HCoordinate {
    fn put(&self, o: &mut Vec<u64>) {
        (self.get_x(), self.get_y()).put(o)
    }
}
impl Put for DD {
    fn put(&self, o: &mut Vec<u64>) {
        self.dump().put(o)
    }
}
impl Put for LineSegment {
    fn put(&self, o: &mut Vec<u64>) {
        self.get_coordinate(0).put(o);
        self.get_coordinate(1).put(o)
    }
}
impl Put for Envelope {
    fn put(&self, o: &mut Vec<u64>) {
        (self.is_null(), self.get_min_x(), self.get_max_x()).put(o);
        (self.get_min_y(), self.get_max_y()).put(o)
    }
}
impl Put for OctagonalEnvelope {
    fn put(&self, o: &mut Vec<u64>) {
        (self.is_null(), self.get_min_x(), self.get_max_x()).put(o);
        (self.get_min_y(), self.get_max_y()).put(o);
        (self.get_min_a(), self.get_max_a()).put(o);
        (self.get_min_b(), self.get_max_b()).put(o)
    }
}
impl Put for CoordinateArraySequence {
    fn put(&self, o: &mut Vec<u64>) {
        (self.get_dimension(), self.get_measures(), self.to_coordinate_array()).put(o)
    }
}
impl Put for PackedCoordinateSequenceDouble {
    fn put(&self, o: &mut Vec<u64>) {
        (self.get_dimension(), self.get_measures(), self.get_raw_coordinates()).put(o)
    }
}
impl Put for IntersectionMatrix {
    fn put(&self, o: &mut Vec<u64>) {
        self.to_string().put(o)
    }
}
impl Put for Point {
    fn put(&self, o: &mut Vec<u64>) {
        self.get_coordinate().put(o)
    }
}
impl Put for LineString {
    fn put(&self, o: &mut Vec<u64>) {
        self.get_coordinates().put(o)
    }
}
impl Put for LinearRing {
    fn put(&self, o: &mut Vec<u64>) {
        self.get_coordinates().put(o)
    }
}
impl Put for Polygon {
    fn put(&self, o: &mut Vec<u64>) {
        self.get_exterior_ring().put(o);
        for k in 0..self.get_num_interior_ring() {
            self.get_interior_ring_n(k).put(o)
        }
    }
}
impl Put for PrecisionModel {
    fn put(&self, o: &mut Vec<u64>) {
        (self.is_floating(), self.get_scale(), self.get_maximum_significant_digits()).put(o);
        self.grid_size().put(o)
    }
}
impl<T: Put> Put for Option<T> {
    fn put(&self, o: &mut Vec<u64>) {
        match self {
            None => o.push(u64::MAX - 1),
            Some(x) => x.put(o),
        }
    }
}
impl<T: Put> Put for Vec<T> {
    fn put(&self, o: &mut Vec<u64>) {
        o.push(self.len() as u64);
        for x in self {
            x.put(o)
        }
    }
}
impl Put for () {
    fn put(&self, _: &mut Vec<u64>) {}
}
impl<X: Put, Y: Put> Put for (X, Y) {
    fn put(&self, o: &mut Vec<u64>) {
        self.0.put(o);
        self.1.put(o)
    }
}
impl<X: Put, Y: Put, Z: Put> Put for (X, Y, Z) {
    fn put(&self, o: &mut Vec<u64>) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o)
    }
}

pub struct Fun {
    /// how many coordinates, lists, numbers and integers it takes
    pub c: usize,
    pub v: usize,
    pub f: usize,
    pub k: usize,
    pub run: fn(&A, &mut Vec<u64>),
    /// arguments outside the documented range: a panic is an allowed answer
    pub bad: fn(&A) -> bool,
    /// 1: steps grow with the list, 2: with the product of both lists, 3: as 1, but with many copies of the list
    pub cost: u8,
}
macro_rules! funs {
    ($($name:literal $c:literal $v:literal $f:literal $k:literal [$cost:literal $($bad:tt)*] |$a:ident| $e:expr;)*) => {
        pub const NAMES: &[&str] = &[$($name),*];
        pub const FUNS: &[Fun] = &[$(Fun { c: $c, v: $v, f: $f, k: $k, cost: $cost, bad: bad!($($bad)*), run: |$a: &A, o: &mut Vec<u64>| { ($e).put(o) } }),*];
    };
}
macro_rules! bad {
    () => { |_: &A| false };
    (|$a:ident| $e:expr) => { |$a: &A| $e };
}
fn with<T, R>(mut t: T, f: impl FnOnce(&mut T) -> R) -> (T, R) {
    let r = f(&mut t);
    (t, r)
}

funs! {
// ------------------------------------------------------------ algorithms
"angle" 2 0 0 0 [1] |a| (Angle::angle_coordinates(&a.c[0], &a.c[1]), Angle::angle_coordinate(&a.c[0]));
"angle_acute" 3 0 0 0 [1] |a| (Angle::is_acute(&a.c[0], &a.c[1], &a.c[2]), Angle::is_obtuse(&a.c[0], &a.c[1], &a.c[2]));
"angle_between" 3 0 0 0 [1] |a| Angle::angle_between(&a.c[0], &a.c[1], &a.c[2]);
"angle_oriented" 3 0 0 0 [1] |a| Angle::angle_between_oriented(&a.c[0], &a.c[1], &a.c[2]);
"angle_bisector" 3 0 0 0 [1] |a| Angle::bisector(&a.c[0], &a.c[1], &a.c[2]);
"angle_interior" 3 0 0 0 [1] |a| Angle::interior_angle(&a.c[0], &a.c[1], &a.c[2]);
"angle_turn" 0 0 2 0 [1] |a| Angle::get_turn(a.f[0], a.f[1]);
"angle_normalize" 0 0 1 0 [1] |a| Angle::normalize(a.f[0]);
"angle_normalize_positive" 0 0 1 0 [1] |a| Angle::normalize_positive(a.f[0]);
"angle_diff" 0 0 2 0 [1] |a| Angle::diff(a.f[0], a.f[1]);
"angle_snap" 0 0 1 0 [1] |a| (Angle::sin_snap(a.f[0]), Angle::cos_snap(a.f[0]));
"angle_project" 1 0 2 0 [1] |a| Angle::project(&a.c[0], a.f[0], a.f[1]);
"angle_units" 0 0 1 0 [1] |a| (Angle::to_degrees(a.f[0]), Angle::to_radians(a.f[0]));
"area_ring" 0 1 0 0 [1] |a| (Area::of_ring_vec(a.v), Area::of_ring_signed_vec(a.v));
"area_sequence" 0 1 0 0 [1] |a| (Area::of_ring_coordinate_sequence(&a.seq()), Area::of_ring_signed_coordinate_sequence(&a.seq()));
"length_line" 0 1 0 0 [1] |a| Length::of_line(&a.seq());
"distance_3d" 2 0 0 0 [1] |a| CGAlgorithms3D::distance(&a.c[0], &a.c[1]);
"distance_3d_point_segment" 3 0 0 0 [1] |a| CGAlgorithms3D::distance_point_segment(&a.c[0], &a.c[1], &a.c[2]);
"distance_3d_segments" 4 0 0 0 [1] |a| CGAlgorithms3D::distance_segment_segment(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"distance_segments" 4 0 0 0 [1] |a| Distance::segment_to_segment(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"distance_point_line" 1 1 0 0 [1 |a| a.v.is_empty()] |a| Distance::point_to_segment_string(&a.c[0], a.v);
"distance_point_segment" 3 0 0 0 [1] |a| Distance::point_to_segment(&a.c[0], &a.c[1], &a.c[2]);
"distance_perpendicular" 3 0 0 0 [1] |a| (Distance::point_to_line_perpendicular(&a.c[0], &a.c[1], &a.c[2]), Distance::point_to_line_perpendicular_signed(&a.c[0], &a.c[1], &a.c[2]));
"hcoordinate_intersection" 4 0 0 0 [1] |a| HCoordinate::intersection(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"hcoordinate_lines" 4 0 0 0 [1] |a| HCoordinate::new_with_coordinates_4(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"hcoordinate_line" 2 0 1 0 [1] |a| { let h = HCoordinate::new_with_coordinates(&a.c[0], &a.c[1]); let g = HCoordinate::new_with_xyw(a.c[0].x, a.c[1].y, a.f[0]); (HCoordinate::new_with_hcoordinates(&h, &g), g) };
"intersection" 4 0 0 0 [1] |a| Intersection::intersection(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"intersection_fp" 4 0 0 0 [1] |a| Intersection::intersection_fp(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"intersection_dd" 4 0 0 0 [1] |a| CGAlgorithmsDD::intersection(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"intersection_line_segment" 4 0 0 0 [1] |a| Intersection::line_segment(&a.c[0], &a.c[1], &a.c[2], &a.c[3]);
"orientation" 3 0 0 0 [1] |a| (Orientation::index(&a.c[0], &a.c[1], &a.c[2]), CGAlgorithmsDD::orientation_index_coordinates(&a.c[0], &a.c[1], &a.c[2]));
"orientation_xy" 3 0 0 0 [1] |a| CGAlgorithmsDD::orientation_index_xy(a.c[0].x, a.c[0].y, a.c[1].x, a.c[1].y, a.c[2].x, a.c[2].y);
"det_sign" 0 0 4 0 [1] |a| CGAlgorithmsDD::sign_of_det2x2_f64(a.f[0], a.f[1], a.f[2], a.f[3]);
"ring_ccw" 0 1 0 0 [1] |a| (Orientation::is_ccw_vec(a.v), Orientation::is_ccw_area_vec(a.v));
"ring_ccw_sequence" 0 1 0 0 [1] |a| Orientation::is_ccw_coordinate_array_sequence(&a.seq());
"on_segment" 3 0 0 0 [1] |a| PointLocation::is_on_segment(&a.c[0], &a.c[1], &a.c[2]);
"on_line" 1 1 0 0 [1] |a| (PointLocation::is_on_line_coordinates(&a.c[0], a.v), PointLocation::is_on_line_coordinate_array_sequence(&a.c[0], &a.seq()));
"in_ring" 1 1 0 0 [1] |a| (PointLocation::is_in_ring(&a.c[0], a.v), PointLocation::locate_in_ring(&a.c[0], a.v));
"ray_ring" 1 1 0 0 [1] |a| RayCrossingCounter::locate_point_in_ring_vec(&a.c[0], a.v);
"ray_ring_sequences" 1 1 0 0 [1] |a| (RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&a.c[0], &a.seq()), RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&a.c[0], &a.pk()));
"ray_segments" 4 0 0 0 [1] |a| { let mut r = RayCrossingCounter::new_with_coordinate(&a.c[0]); r.count_segment(&a.c[1], &a.c[2]); r.count_segment(&a.c[2], &a.c[3]); (r.get_count(), r.is_on_segment(), (r.get_location(), r.is_point_in_polygon())) };
"robust_segments" 4 0 0 0 [1] |a| { let mut r = RobustLineIntersector::default(); r.compute_intersection_4(&a.c[0], &a.c[1], &a.c[2], &a.c[3]); (r.has_intersection(), r.get_intersection(0), r.get_intersection(1)) };
"robust_point" 3 0 0 0 [1] |a| { let mut r = RobustLineIntersector::default(); r.compute_intersection_3(&a.c[0], &a.c[1], &a.c[2]); r.has_intersection() };
"robust_precision" 4 0 1 1 [1] |a| { let mut r = RobustLineIntersector::default(); r.set_precision_model(a.pm()); r.compute_intersection_4(&a.c[0], &a.c[1], &a.c[2], &a.c[3]); (r.has_intersection(), r.get_intersection(0), r.get_intersection(1)) };
"robust_safe" 4 0 0 0 [1] |a| { let mut r = RobustLineIntersector::default(); (r.intersection(&a.c[0], &a.c[1], &a.c[2], &a.c[3]), r.intersection_safe(&a.c[0], &a.c[1], &a.c[2], &a.c[3]), r.nearest_endpoint(&a.c[0], &a.c[1], &a.c[2], &a.c[3])) };
"robust_z" 5 0 0 0 [1] |a| { let mut r = RobustLineIntersector::default(); ((r.get_z(&a.c[0], &a.c[1]), r.get_z_or_interpolate(&a.c[0], &a.c[1], &a.c[2])), r.z_interpolate_3(&a.c[0], &a.c[1], &a.c[2]), r.z_interpolate_5(&a.c[0], &a.c[1], &a.c[2], &a.c[3], &a.c[4])) };
"robust_copy_z" 3 0 1 0 [1] |a| { let mut r = RobustLineIntersector::default(); (r.copy_with_z_interpolate(&a.c[0], &a.c[1], &a.c[2]), r.copy_with_z(&a.c[0], a.f[0])) };
"centroid_points" 4 0 0 0 [1] |a| { let mut c = Centroid::default(); c.add_point(&a.c[0]); c.add_point(&a.c[1]); let x = c.get_centroid(); c.add_line_segments(&vec![a.c[2], a.c[3]]); (x, c.get_centroid()) };
"centroid_rings" 0 2 0 0 [1 |a| a.v.is_empty() || a.w.is_empty()] |a| { let mut c = Centroid::default(); if let Some(p) = a.v.first() { c.set_area_base_point(p) } c.add_shell(a.v); c.add_hole(a.w); c.get_centroid() };
"centroid_lines" 0 2 0 0 [1 |a| a.v.is_empty() || a.w.is_empty()] |a| { let mut c = Centroid::default(); c.add_line_segments(a.v); c.add_line_segments(a.w); c.get_centroid() };
"centroid_polygon" 0 2 0 0 [3 |a| unringed(a)] |a| Centroid::get_centroid_from_polygon(&a.poly());
"centroid_triangle" 3 0 0 0 [1] |a| { let mut c = Coordinate::default(); Centroid::centroid3(&a.c[0], &a.c[1], &a.c[2], &mut c); (c, Centroid::area2(&a.c[0], &a.c[1], &a.c[2])) };
// ------------------------------------------------------------ numbers
"math_clamp" 0 0 3 3 [1] |a| (MathUtil::clamp_f64(a.f[0], a.f[1], a.f[2]), MathUtil::clamp_i32(a.n(0), a.n(1), a.n(2)), MathUtil::clamp_max(a.n(0), a.n(1)));
"math_ceil" 0 0 0 2 [1 |a| a.n(1) == 0 || (a.n(0) == i32::MIN && a.n(1) == -1)] |a| MathUtil::ceil(a.n(0), a.n(1));
"math_wrap" 0 0 0 2 [1 |a| a.n(1) <= 0 || a.n(0) == i32::MIN] |a| MathUtil::wrap(a.n(0), a.n(1));
"math_average" 0 0 2 0 [1] |a| MathUtil::average(a.f[0], a.f[1]);
"math_max" 0 0 4 0 [1] |a| (MathUtil::max_3(a.f[0], a.f[1], a.f[2]), MathUtil::max_4(a.f[0], a.f[1], a.f[2], a.f[3]), MathUtil::min(a.f[0], a.f[1], a.f[2], a.f[3]));
"math_quasirandom" 0 0 2 0 [1] |a| (MathUtil::quasirandom_curr(a.f[0]), MathUtil::quasirandom_curr_alpha(a.f[0], a.f[1]));
"number_tolerance" 0 0 3 0 [1] |a| NumberUtil::equals_with_tolerance(a.f[0], a.f[1], a.f[2]);
"matrix_solve" 0 0 4 2 [1] |a| { let mut m = vec![vec![a.f[0], a.f[1]], vec![a.f[2], a.f[3]]]; let mut b = vec![a.k[0] as f64, a.k[1] as f64]; Matrix::solve(&mut m, &mut b) };
"matrix_solve_3" 3 0 0 0 [1] |a| { let mut m: Vec<Vec<f64>> = a.c.iter().map(|c| vec![c.x, c.y, c.x * 0.5 - c.y * c.y]).collect(); let mut b = vec![1.0, a.c[0].x, 3.0]; Matrix::solve(&mut m, &mut b) };
"matrix_swap" 0 0 4 2 [1 |a| a.ix(0) > 1 || a.ix(1) > 1] |a| { let mut m = vec![vec![a.f[0], a.f[1]], vec![a.f[2], a.f[3]]]; Matrix::swap_rows_2d(&mut m, a.ix(0), a.ix(1)); let mut r = vec![a.f[0], a.f[3]]; Matrix::swap_rows_1d(&mut r, a.ix(0), a.ix(1)); (m, r) };
"dd_add" 0 0 4 0 [1] |a| (a.dd(0).add_dd(&a.dd(2)), a.dd(0).subtract_dd(&a.dd(2)), (a.dd(0).add_f64(a.f[2]), a.dd(0).subtract_f64(a.f[2])));
"dd_multiply" 0 0 4 0 [1] |a| (a.dd(0).multiply_dd(&a.dd(2)), a.dd(0).multiply_f64(a.f[2]), a.dd(0).sqr());
"dd_divide" 0 0 4 0 [1] |a| (a.dd(0).divide_dd(&a.dd(2)), a.dd(0).divide_f64(a.f[2]), a.dd(0).reciprocal());
"dd_round" 0 0 2 0 [1] |a| ((a.dd(0).floor(), a.dd(0).ceil()), a.dd(0).rint(), (a.dd(0).trunc(), a.dd(0).abs()));
"dd_sqrt" 0 0 2 0 [1] |a| (a.dd(0).sqrt_dd(), DD::new_pi().sqrt_f64(a.f[0]));
"dd_pow" 0 0 2 1 [1] |a| a.dd(0).pow(a.n(0));
"dd_determinant" 0 0 4 0 [1] |a| (DD::determinant_xy_f64(a.f[0], a.f[1], a.f[2], a.f[3]), DD::determinant_xy_dd(&a.dd(0), &a.dd(1), &a.dd(2), &DD::new_x(a.f[3])));
"dd_compare" 0 0 4 0 [1] |a| { let (x, y) = (a.dd(0), a.dd(2)); ((x.compare_to(&y), x.equals(&y), x.gt(&y)), (x.ge(&y), x.lt(&y), x.le(&y)), (x.min(&y), x.max(&y), x.signum())) };
"dd_values" 0 0 2 0 [1] |a| { let x = a.dd(0); ((x.double_value(), x.int_value(), x.is_zero()), (x.is_negative(), x.is_positive(), x.is_nan()), x.negate()) };
"dd_constants" 0 0 0 0 [1] |_a| (DD::new_pi(), (DD::new_two_pi(), DD::new_pi_2()), (DD::new_e(), DD::new_nan().is_nan()));
"vector_2d" 2 0 2 0 [1] |a| { let (p, q) = (a.v2(0), a.v2(1)); ((p.add(&q), p.subtract(&q), p.negate()), (p.multiply(a.f[0]), p.divide(a.f[1]), p.average(&q)), (p.weighted_sum(&q, a.f[0]), p.distance(&q), p.dot(&q))) };
"vector_2d_length" 1 0 0 0 [1] |a| { let p = a.v2(0); ((p.length(), p.length_squared()), p.normalize(), p.to_string()) };
"vector_2d_angle" 2 0 1 0 [1] |a| { let (p, q) = (a.v2(0), a.v2(1)); ((p.angle(), p.angle_vector_2d(&q)), p.angle_to(&q), p.rotate(a.f[0])) };
"vector_2d_quarter" 2 0 0 1 [1] |a| { let (p, q) = (a.v2(0), a.v2(1)); (p.rotate_by_quarter_circle(a.n(0)), p.is_parallel(&q), (p.translate(&a.c[1]), p.equals(&q))) };
"vector_2d_component" 2 0 0 1 [1] |a| (Vector2D::new_from_coordinate_from_to(&a.c[0], &a.c[1]), a.v2(0).get_component(a.ix(0)), a.v2(1).to_coordinate());
"vector_3d" 2 0 1 0 [1] |a| { let (p, q) = (a.v3(0), a.v3(1)); ((p.add(&q), p.subtract(&q), p.divide(a.f[0])), (p.dot(&q), p.length(), p.normalize()), (p.equals(&q), p.to_string())) };
"vector_3d_coordinates" 4 0 0 0 [1] |a| ((Vector3D::dot_4(&a.c[0], &a.c[1], &a.c[2], &a.c[3]), Vector3D::dot_2(&a.c[0], &a.c[1])), Vector3D::length_of_coordinate(&a.c[0]), (Vector3D::normalize_coordinate(&a.c[0]), Vector3D::new_from_to_coordinates(&a.c[0], &a.c[1])));
// ------------------------------------------------------------ coordinates, boxes, segments, triangles
"coordinate_compare" 2 0 1 0 [1] |a| { let (p, q) = (&a.c[0], &a.c[1]); ((p.compare_to(q), p.equals_2d(q), p.equals_3d(q)), (p.equals_2d_with_tolerance(q, a.f[0]), p.equal_in_z(q, a.f[0]), Coordinates::equal(p, q, a.f[0])), (p.distance(q), p.distance_3d(q))) };
"coordinate_kind" 1 0 0 1 [1] |a| { let p = &a.c[0]; ((p.is_valid(), p.is_xy(), p.is_xym()), (Coordinates::dimension(p), Coordinates::measures(p)), (p.get_ordinate(a.n(0)), p.is_xyzm())) };
"coordinate_text" 1 0 0 0 [1] |a| a.c[0].to_string();
"coordinate_create" 0 0 0 1 [1] |a| (Coordinates::create_dim(a.d(0)), Coordinates::create_dim_measures(a.d(0) + a.m(0), a.m(0)));
"dimension_symbols" 0 0 0 2 [1] |a| (Dimension::to_dimension_symbol(a.n(0)), Dimension::to_dimension_value((a.n(1) & 0x7f) as u8 as char), Location::to_location_symbol(a.n(0)));
"quadrant" 2 0 0 2 [1] |a| ((Quadrant::quadrant_coordinates(&a.c[0], &a.c[1]), Quadrant::quadrant_xy(a.c[0].x, a.c[0].y)), (Quadrant::is_opposite(a.n(0) & 3, a.n(1) & 3), Quadrant::common_half_plane(a.n(0) & 3, a.n(1) & 3)), (Quadrant::is_in_half_plane(a.n(0) & 3, a.n(1) & 3), Quadrant::is_northern(a.n(0) & 3), Position::opposite(a.n(0))));
"precision" 1 0 2 1 [1] |a| { let mut p = a.pm(); let x = p.make_precise(a.f[1]); let mut c = a.c[0]; p.make_precise_coordinate(&mut c); (x, c, (p, p.to_string())) };
"precision_compare" 0 0 2 1 [1] |a| { let p = a.pm(); let q = PrecisionModel::new_with_scale(a.f[1]); (p.compare_to(&q), p.equals(q), PrecisionModel::from_precision_model(p)) };
"envelope_static" 4 0 0 0 [1] |a| (Envelope::intersects_3(&a.c[0], &a.c[1], &a.c[2]), Envelope::intersects_4(&a.c[0], &a.c[1], &a.c[2], &a.c[3]));
"envelope_pair" 4 0 0 0 [1] |a| { let (e, g) = (a.env(0), a.env(2)); ((e.intersects_envelope(&g), e.disjoint_envelope(&g), e.contains_envelope(&g)), (e.contains_properly(&g), e.covers_envelope(&g), e.equals(&g)), (e.compare_to_envelope(&g), e.distance_envelope(&g), e.intersection_envelope(&g))) };
"envelope_point" 3 0 0 0 [1] |a| { let e = a.env(0); ((e.intersects_coordinate(&a.c[2]), e.contains_coordinate(&a.c[2]), e.covers_coordinate(&a.c[2])), e.intersects_coordinate_ab(&a.c[1], &a.c[2]), e.centre()) };
"envelope_measures" 2 0 0 0 [1] |a| { let e = a.env(0); ((e, e.get_width(), e.get_height()), (e.get_area(), e.get_diameter(), e.min_extent()), (e.max_extent(), e.to_string())) };
"envelope_grow" 3 0 2 0 [1] |a| { let mut e = a.env(0); e.expand_by_delta_xy(a.f[0], a.f[1]); let mut g = e; g.expand_to_include_coordinate(&a.c[2]); let mut h = g; h.translate(a.f[0], a.f[1]); h.expand_to_include_envelope(&e); (e, g, h) };
"octagon" 4 0 1 0 [1] |a| { let (o, p) = (a.oct(0), a.oct(2)); let mut q = o; q.expand_to_include_octagonal_envelope(&p); let mut s = q; s.expand_by_distance(a.f[0]); ((o.intersects_octagonal_envelope(&p), o.contains_octagonal_envelope(&p), o.intersects_coordinate(&a.c[2])), q, s) };
"octagon_line" 0 1 0 0 [1] |a| OctagonalEnvelope::new_with_line_string(&a.line());
"segment" 2 0 0 0 [1] |a| { let s = a.seg(0); let mut n = s; n.normalize(); let mut r = s; r.reverse(); ((s.get_length(), s.angle(), s.mid_point()), (s.is_horizontal(), s.is_vertical()), (n, r)) };
"segment_point" 3 0 0 0 [1] |a| { let s = a.seg(0); let p = &a.c[2]; ((s.orientation_index_coordinate(p), s.distance_coordinate(p), s.distance_perpendicular(p)), (s.distance_perpendicular_oriented(p), s.projection_factor(p), s.segment_fraction(p)), (s.project_coordinate(p), s.closest_point(p), s.reflect(p))) };
"segment_along" 3 0 2 0 [1 |a| a.c[0].equals_2d(&a.c[1]) && a.f[1] != 0.0] |a| { let s = a.seg(0); (s.point_along(a.f[0]), s.point_along_offset(a.f[0], a.f[1]), s.project_coordinate_with_projection_factor(&a.c[2], a.f[0])) };
"segment_offset" 2 0 1 0 [1] |a| a.seg(0).offset(a.f[0]);
"segment_pair" 4 0 0 0 [1] |a| { let (s, t) = (a.seg(0), a.seg(2)); ((s.orientation_index_line_segment(&t), s.distance_line_segment(&t), s.equals(&t)), (s.compare_to(&t), s.equals_topo(&t), s.project_line_segment(&t)), (s.intersection(&t), s.line_intersection(t), s.closest_points(&t))) };
"triangle" 3 0 0 0 [1] |a| { let t = a.tri(); ((t.is_acute(), t.is_ccw(), t.length()), (t.longest_side_length(), t.area(), t.signed_area()), (t.area_3d(), t.centroid())) };
"triangle_centres" 3 0 0 0 [1] |a| { let t = a.tri(); ((t.in_centre(), t.circumcentre(), t.circumradius()), Triangle::circumcentre_dd_coordinates(&a.c[0], &a.c[1], &a.c[2]), Triangle::angle_bisector_coordinates(&a.c[0], &a.c[1], &a.c[2])) };
"triangle_static" 4 0 0 0 [1] |a| { let (x, y, z) = (&a.c[0], &a.c[1], &a.c[2]); ((Triangle::is_acute_coordinates(x, y, z), Triangle::is_ccw_coordinates(x, y, z), Triangle::intersects_coordinates(x, y, z, &a.c[3])), (Triangle::area_coordinates(x, y, z), Triangle::signed_area_coordinates(x, y, z), Triangle::area_3d_coordinates(x, y, z)), (Triangle::circumcentre_coordinates(x, y, z), Triangle::in_centre_coordinates(x, y, z), Triangle::centroid_coordinates(x, y, z))) };
"triangle_z" 4 0 0 0 [1] |a| (a.tri().interpolate_z(&a.c[3]), Triangle::interpolate_z_coordinates(&a.c[3], &a.c[0], &a.c[1], &a.c[2]));
"triangle_bisector" 3 0 0 0 [1] |a| (Triangle::perpendicular_bisector_coordinates(&a.c[0], &a.c[1]), Triangle::circumradius_coordinates(&a.c[0], &a.c[1], &a.c[2]), (Triangle::length_coordinates(&a.c[0], &a.c[1], &a.c[2]), Triangle::longest_side_length_coordinates(&a.c[0], &a.c[1], &a.c[2])));
// ------------------------------------------------------------ relation matrices
"relation" 0 0 0 3 [1] |a| { let m = a.im(); let (d, e) = (a.n(1).rem_euclid(3), a.n(2).rem_euclid(3)); ((m.is_disjoint(), m.is_intersects(), m.is_within()), ((m.is_contains(), m.is_covers(), m.is_covered_by()), m.is_touches(d, e), m.is_crosses(d, e)), (m.is_equals(d, e), m.is_overlaps(d, e), m)) };
"relation_match" 0 0 0 2 [1] |a| { let m = a.im(); let p: String = (0..9).map(|i| ['T', 'F', '*', '0', '1', '2'][(a.k[1].unsigned_abs() as usize / 6usize.pow(i)) % 6]).collect(); (m.matches_string(p.clone()), IntersectionMatrix::matches_string_string(m.to_string(), p)) };
"relation_add" 0 0 0 2 [1] |a| { let mut m = a.im(); let n = A { c: a.c, v: a.v, w: a.w, f: a.f, k: [a.k[1], 0, 0, 0] }.im(); m.add(&n); let mut t = IntersectionMatrix::new_from_intersection_matrix(&m); t.transpose(); (m.equals(&n), m, t) };
// ------------------------------------------------------------ coordinate arrays
"arrays_kind" 0 1 0 0 [1] |a| ((CoordinateArrays::dimension(a.v), CoordinateArrays::measures(a.v), CoordinateArrays::is_ring(a.v)), (CoordinateArrays::has_repeated_points(a.v), CoordinateArrays::has_repeated_or_invalid_points(a.v)), CoordinateArrays::envelope(a.v));
"arrays_consistency" 0 1 0 1 [1] |a| (with(a.v.clone(), CoordinateArrays::enforce_consistency).0, CoordinateArrays::enforce_consistency_dim_measures(a.v, a.d(0) + a.m(0), a.m(0)));
"arrays_not_in" 0 2 0 0 [2] |a| CoordinateArrays::pt_not_in_list(a.v, a.w);
"arrays_compare" 0 2 0 0 [1] |a| (CoordinateArrays::compare(a.v, a.w), CoordinateArrays::equals(a.v, a.w));
"arrays_reversed" 0 2 0 0 [1 |a| a.v.len() != a.w.len()] |a| CoordinateArrays::is_equal_reversed(a.v, a.w);
"arrays_direction" 0 1 0 0 [1] |a| CoordinateArrays::increasing_direction(a.v);
"arrays_repeated" 0 1 0 1 [1] |a| (CoordinateArrays::remove_repeated_points(a.v), CoordinateArrays::remove_repeated_or_invalid_points(a.v), (CoordinateArrays::at_least_n_coordinates_or_nothing(a.ix(0), a.v), CoordinateArrays::copy_deep(a.v)));
"arrays_copy" 0 2 0 3 [1 |a| a.ix(0) + a.ix(2) > a.v.len() || a.ix(1) + a.ix(2) > a.w.len()] |a| { let mut d = a.w.clone(); CoordinateArrays::copy_deep_to(a.v, a.ix(0), &mut d, a.ix(1), a.ix(2)); d };
"arrays_min" 0 1 0 0 [1] |a| CoordinateArrays::min_coordinate(a.v);
"arrays_scroll" 1 1 0 0 [1] |a| with(a.v.clone(), |v| CoordinateArrays::scroll_coordinate(v, &a.c[0]));
"arrays_scroll_index" 0 1 0 2 [1 |a| a.ix(0) >= a.v.len()] |a| (with(a.v.clone(), |v| CoordinateArrays::scroll_index(v, a.ix(0))), with(a.v.clone(), |v| CoordinateArrays::scroll_index_ensure_ring(v, a.ix(0), a.k[1] & 1 == 1 && CoordinateArrays::is_ring(a.v))));
"arrays_index" 1 1 0 0 [1] |a| CoordinateArrays::index_of(&a.c[0], a.v);
"arrays_extract" 0 1 0 2 [1] |a| CoordinateArrays::extract(a.v, a.ix(0), a.ix(1));
"arrays_intersection" 2 1 0 0 [1] |a| CoordinateArrays::intersection(a.v, &a.env(0));
"list_build" 1 2 0 2 [1 |a| a.ix(0) > a.v.len()] |a| { let mut l = CoordinateList::new_with_repeated(a.v.clone(), a.k[1] & 1 == 1); let x = l.add_all(a.w.clone(), a.k[1] & 2 == 2); let y = l.add_coordinate_list_repeated_direction(a.v, a.k[1] & 4 == 4, a.k[1] & 8 == 8); let n = l.to_coordinate_array().len(); l.add_index_coordinate_repeated(a.ix(0).min(n), a.c[0], a.k[1] & 16 == 16); l.close_ring(); ((x, y), l.to_coordinate_array(), l.to_coordinate_array_forward(false)) };
// ------------------------------------------------------------ sequences
"sequence_read" 0 1 0 2 [1 |a| a.ix(0) >= a.v.len()] |a| { let s = a.seq(); let i = a.ix(0); ((s.get_coordinate_index(i), s.get_x(i), s.get_y(i)), (s.get_z(i), s.get_m(i)), (s.has_z(), s.has_m(), s.size())) };
"sequence_build" 0 1 0 1 [1] |a| (a.seq(), CoordinateArraySequence::new_with_coordinates_dimension_measures(a.v.clone(), a.d(0) + a.m(0), a.m(0)), a.seq().to_string());
"sequence_empty" 0 0 0 2 [1] |a| (CoordinateArraySequence::new_with_size_dimension_measures(a.ix(1) % 50, a.d(0) + a.m(0), a.m(0)), PackedCoordinateSequenceDouble::new_with_size_dimension_measures(a.ix(1) % 50, a.d(0) + a.m(0), a.m(0)));
"sequence_reverse" 0 1 0 0 [1] |a| with(a.seq(), CoordinateArraySequences::reverse);
"sequence_swap" 0 1 0 2 [1 |a| a.ix(0) >= a.v.len() || a.ix(1) >= a.v.len()] |a| with(a.seq(), |s| CoordinateArraySequences::swap(s, a.ix(0), a.ix(1)));
"sequence_copy" 0 2 0 3 [1 |a| a.ix(0) + a.ix(2) > a.v.len() || a.ix(1) + a.ix(2) > a.w.len()] |a| with(a.seqw(), |d| CoordinateArraySequences::copy(&a.seq(), a.ix(0), d, a.ix(1), a.ix(2)));
"sequence_ring" 0 1 0 1 [1] |a| (CoordinateArraySequences::is_ring(&a.seq()), CoordinateArraySequences::ensure_valid_ring(&a.seq()));
"sequence_extend" 0 1 0 1 [3] |a| CoordinateArraySequences::extend(&a.seq(), a.v.len() + a.ix(0) % 50);
"sequence_equal" 0 2 0 0 [1] |a| CoordinateArraySequences::is_equal(&a.seq(), &a.seqw());
"sequence_min" 0 1 0 0 [1 |a| a.v.is_empty()] |a| (CoordinateArraySequences::min_coordinate(&a.seq()), CoordinateArraySequences::min_coordinate_index_sequence(&a.seq()));
"sequence_scroll" 0 1 0 2 [3 |a| a.ix(0) >= a.v.len()] |a| (with(a.seq(), |s| CoordinateArraySequences::scroll_coordinate_index(s, a.ix(0))), with(a.seq(), |s| CoordinateArraySequences::scroll_coordinate_index_ensure_ring(s, a.ix(0), a.k[1] & 1 == 1 && CoordinateArrays::is_ring(a.v))));
"sequence_index" 1 1 0 0 [1] |a| (CoordinateArraySequences::index_of(&a.c[0], &a.seq()), with(a.seq(), |s| CoordinateArraySequences::scroll_coordinate(s, &a.c[0])));
"sequence_envelope" 2 1 0 0 [1] |a| (with(a.env(0), |e| a.seq().expand_envelope(e)), a.pk().expand_envelope(&a.env(0)));
"sequence_compare" 0 2 0 1 [1] |a| CoordinateSequenceComparator::new_with_dimension_limit(a.d(0)).compare_coordinate_array_sequence(&a.seq(), &a.seqw());
"packed_read" 0 1 0 2 [1 |a| a.ix(0) >= a.v.len()] |a| { let s = a.pk(); let i = a.ix(0); (s.get_coordinate_by_index(i), s.get_ordinate(i, 1), (s.size(), s)) };
"packed_build" 0 1 0 1 [1] |a| (a.pk(), PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(a.v, a.d(0) + a.m(0), a.m(0)));
"packed_reverse" 0 1 0 0 [1] |a| with(a.pk(), PackedCoordinateSequences::reverse);
"packed_swap" 0 1 0 2 [1 |a| a.ix(0) >= a.v.len() || a.ix(1) >= a.v.len()] |a| with(a.pk(), |s| PackedCoordinateSequences::swap(s, a.ix(0), a.ix(1)));
"packed_copy" 0 2 0 3 [1 |a| a.ix(0) + a.ix(2) > a.v.len() || a.ix(1) + a.ix(2) > a.w.len()] |a| with(a.pkw(), |d| PackedCoordinateSequences::copy(&a.pk(), a.ix(0), d, a.ix(1), a.ix(2)));
"packed_ring" 0 1 0 0 [1] |a| (PackedCoordinateSequences::is_ring(&a.pk()), PackedCoordinateSequences::ensure_valid_ring(&a.pk()));
"packed_extend" 0 1 0 1 [1] |a| PackedCoordinateSequences::extend(&a.pk(), a.v.len() + a.ix(0) % 50);
"packed_equal" 0 2 0 0 [1] |a| PackedCoordinateSequences::is_equal(&a.pk(), &a.pkw());
"packed_min" 0 1 0 0 [1 |a| a.v.is_empty()] |a| (PackedCoordinateSequences::min_coordinate(&a.pk()), PackedCoordinateSequences::min_coordinate_index_sequence(&a.pk()));
"packed_scroll" 0 1 0 2 [1 |a| a.ix(0) >= a.v.len()] |a| (with(a.pk(), |s| PackedCoordinateSequences::scroll_coordinate_index(s, a.ix(0))), with(a.pk(), |s| PackedCoordinateSequences::scroll_coordinate_index_ensure_ring(s, a.ix(0), a.k[1] & 1 == 1 && CoordinateArrays::is_ring(a.v))));
"packed_index" 1 1 0 0 [1] |a| (PackedCoordinateSequences::index_of(&a.c[0], &a.pk()), with(a.pk(), |s| PackedCoordinateSequences::scroll_coordinate(s, &a.c[0])));
// ------------------------------------------------------------ geometries
"line_read" 0 1 0 0 [1 |a| a.v.len() == 1] |a| { let l = a.line(); ((l.get_length(), l.is_closed(), l.is_ring()), (l.get_num_points(), l.get_boundary_dimension(), l.is_empty()), (l.get_start_point(), l.get_end_point(), l.compute_envelope_internal())) };
"line_compare" 0 2 1 0 [1 |a| a.v.len() == 1 || a.w.len() == 1] |a| { let (l, m) = (a.line(), a.linew()); (l.compare_to(&m), l.equals_exact(&m, a.f[0]), l.reverse()) };
"line_normalize" 0 1 0 0 [1 |a| a.v.len() == 1] |a| with(a.line(), |l| l.normalize());
"line_coordinate" 1 1 0 1 [1 |a| a.v.len() == 1 || a.ix(0) >= a.v.len()] |a| { let l = a.line(); (l.is_coordinate(&a.c[0]), l.get_coordinate_n(a.ix(0)), l.get_point_n(a.ix(0))) };
"ring_read" 0 1 0 0 [3 |a| unring(a.v)] |a| { let l = a.ring(); ((l.get_length(), l.is_closed(), l.get_num_points()), l.reverse(), l.compute_envelope_internal()) };
"ring_compare" 0 2 1 0 [1 |a| unringed(a)] |a| { let (l, m) = (a.ring(), a.ringw()); (l.compare_to_same_class(&m), l.equals_exact(&m, a.f[0])) };
"polygon_read" 0 2 0 0 [3 |a| unringed(a)] |a| { let mut p = a.poly(); ((p.get_area(), p.get_length(), p.is_rectangle()), (p.get_num_points(), p.is_empty(), p.get_coordinates()), (p.get_envelope_internal(), p.reverse())) };
"polygon_normalize" 0 2 0 0 [3 |a| unringed(a)] |a| with(a.poly(), |p| p.self_normalize());
"polygon_compare" 0 2 1 0 [3 |a| unringed(a)] |a| { let (p, q) = (a.poly(), GeometryFactory::create_polygon_with_coordinates(a.w)); (p.compare_to(&q), p.equals_exact(&q, a.f[0])) };
"polygon_centroid" 0 2 0 0 [3 |a| unringed(a)] |a| a.poly().get_centroid();
"multi_polygon" 0 2 0 0 [3 |a| unringed(a)] |a| { let m = MultiPolygon::new_with_polygons(&vec![a.poly(), a.poly().reverse()]); ((m.get_area(), m.get_num_polygons(), m.is_empty()), m.get_centroid(), m.reverse().get_polygon_at_index(0)) };
"multi_point" 0 1 0 1 [3] |a| { let m = GeometryFactory::create_multi_point_with_coordinates(a.v); (m.get_coordinates(), m.get_num_points(), m.get_point_at_index(a.ix(0))) };
"multi_line" 0 2 1 0 [1 |a| a.v.len() == 1 || a.w.len() == 1] |a| { let m = MultiLineString::new_with_line_strings(&vec![a.line(), a.linew()]); (m.is_closed(), m.is_empty(), m.equals_exact(&m.reverse(), a.f[0])) };
"multi_point_pair" 0 2 1 0 [3] |a| { let (mut m, n) = (GeometryFactory::create_multi_point_with_coordinates(a.v), GeometryFactory::create_multi_point_with_coordinates(a.w)); let r = (m.is_empty(), m.equals_exact(n, a.f[0]), (m.get_dimension(), m.get_boundary_dimension())); let e = m.get_envelope_internal(); (r, e, (m.reverse().get_envelope_internal(), m.copy().get_envelope_internal(), m.get_point_at_index(0))) };
"multi_polygon_pair" 0 2 1 0 [3 |a| unringed(a)] |a| { let (m, n) = (MultiPolygon::new_with_polygons(&vec![a.poly(), a.poly()]), MultiPolygon::new_with_polygons(&vec![a.poly(), a.poly().reverse()])); ((m.get_dimension(), m.get_boundary_dimension(), m.is_empty()), m.copy().get_area(), m.equals_exact(n, a.f[0])) };
"multi_line_read" 0 2 0 0 [1 |a| a.v.len() == 1 || a.w.len() == 1] |a| { let m = MultiLineString::new_with_line_strings(&vec![a.line(), a.linew()]); (m.get_boundary_dimension(), m.get_dimension(), (m.reverse().is_closed(), m.copy_internal().is_closed(), m.copy_internal().is_empty())) };
"line_order" 0 2 0 1 [1 |a| a.v.len() == 1 || a.w.len() == 1] |a| { let (l, m) = (a.line(), a.linew()); let c = CoordinateSequenceComparator::new_with_dimension_limit(a.d(0)); (l.compare_to_with_comparator(&m, &c), l.get_dimension(), l.copy()) };
"ring_order" 0 2 0 1 [1 |a| unringed(a)] |a| { let (mut l, m) = (a.ring(), a.ringw()); let c = CoordinateSequenceComparator::new_with_dimension_limit(a.d(0)); let e = l.get_envelope_internal(); (l.compare_to_same_class_with_comparator(&m, &c), (l.is_empty(), l.get_boundary_dimension(), e), (l.copy().get_envelope_internal(), l.reverse().get_envelope_internal(), l.get_coordinate())) };
"polygon_order" 0 2 0 1 [3 |a| unringed(a)] |a| { let (mut p, q) = (a.poly(), GeometryFactory::create_polygon_with_coordinates(a.w)); let c = CoordinateSequenceComparator::new_with_dimension_limit(a.d(0)); let e = p.get_envelope_internal(); (p.compare_to_with_comparator(&q, &c), (e, p.copy().get_envelope_internal(), p.reverse().get_envelope_internal()), p.normalized(&p.get_exterior_ring(), a.k[0] & 1 == 0)) };
"point_read" 1 0 0 0 [1] |a| { let mut p = GeometryFactory::create_point_from_coordinate(&a.c[0]); let e = p.get_envelope_internal(); ((p.get_y(), p.is_simple(), p.get_num_points()), (e, p.copy().get_envelope_internal(), p.reverse().get_envelope_internal()), (Point::default().is_empty(), p.equals_exact(&Point::default(), 1.0), Point::default().equals_exact(&Point::default(), 1.0))) };
"point" 2 0 1 0 [1] |a| { let (p, q) = (GeometryFactory::create_point_from_coordinate(&a.c[0]), GeometryFactory::create_point_from_coordinate(&a.c[1])); (p.equals_exact(&q, a.f[0]), p.compare_to_same_class(&q, &CoordinateSequenceComparator::default()), (p.is_empty(), p.compute_envelope_internal(), p.get_x())) };
}
/// not a closed ring of at least four points
pub fn unring(v: &[Coordinate]) -> bool {
    !v.is_empty() && (v.len() < 4 || !v[0].equals_2d(&v[v.len() - 1]))
}
fn unringed(a: &A) -> bool {
    unring(a.v) || unring(a.w)
}

/// `k` integers, then the lengths of `v` and `w`; ordinates of `c`, the numbers, `v`, `w`
pub struct Args {
    pub c: Vec<Coordinate>,
    pub v: Vec<Coordinate>,
    pub w: Vec<Coordinate>,
    pub f: [f64; 4],
    pub k: [i64; 4],
}
impl Args {
    pub fn of(it: &Item) -> Args {
        let fun = &FUNS[it.op];
        let mut at = 0;
        let mut take = |n: usize| -> Vec<Coordinate> {
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                let g = |j: usize| it.f.get(at + j).copied().unwrap_or(f64::NAN);
                v.push(Coordinate::new_xyzm(g(0), g(1), g(2), g(3)));
                at += 4;
            }
            v
        };
        let c = take(fun.c);
        let (nv, nw) = (it.ii(4).clamp(0, 32_768) as usize, it.ii(5).clamp(0, 32_768) as usize);
        let v = take(nv);
        let w = take(nw);
        let mut f = [0.0; 4];
        for (j, x) in f.iter_mut().enumerate() {
            *x = it.f.get(at + j).copied().unwrap_or(0.0);
        }
        Args { c, v, w, f, k: [it.ii(0), it.ii(1), it.ii(2), it.ii(3)] }
    }
    pub fn a(&self) -> A<'_> {
        A { c: &self.c, v: &self.v, w: &self.w, f: self.f, k: self.k }
    }
    pub fn bits(&self) -> Vec<C4> {
        self.c.iter().chain(&self.v).chain(&self.w).map(bits).collect()
    }
}
pub fn to_item(client: usize, op: usize, c: &[[f64; 4]], v: &[[f64; 4]], w: &[[f64; 4]], f: &[f64], k: &[i64]) -> Item {
    let mut i: Vec<i64> = k.to_vec();
    i.resize(4, 0);
    i.extend([v.len() as i64, w.len() as i64]);
    let mut ff: Vec<f64> = c.iter().chain(v).chain(w).flatten().copied().collect();
    ff.extend(f);
    item(client, op, i, ff)
}
