From 0bdf86149d7c1159c8e193ad559e12b144cec3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 01/37] hooks: re-export crate types for the simulation harness
 under cfg(geos_sim)

---
 src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 910ec52..5a6dd15 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,31 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 mod core;
 mod tests;
+
+/// Simulation hook: re-exports the crate's types for the deterministic-simulation harness.
+/// Compiled only with `--cfg geos_sim`; the shipped build does not contain it.
+#[cfg(geos_sim)]
+pub mod sim {
+    pub use crate::core::algorithm::{
+        angle::*, area::*, centroid::*, cg_algorithms_3d::*, cg_algorithms_dd::*, distance::*,
+        hcoordinate::*, intersection::*, length::*, orientation::*, point_location::*,
+        ray_crossing_counter::*, robust_line_intersector::*,
+    };
+    pub use crate::core::geom::implementation::{
+        coordinate_array_sequence::*, coordinate_array_sequence_factory::*,
+        packed_coordinate_sequence::*, packed_coordinate_sequence_double::*,
+        packed_coordinate_sequence_factory::*,
+    };
+    pub use crate::core::geom::{
+        coordinate::*, coordinate_array_sequences::*, coordinate_arrays::*, coordinate_list::*,
+        coordinate_sequence_comparator::*, coordinates::*, dimension::*, envelope::*, geometry::*,
+        geometry_factory::*, intersection_matrix::*, line_segment::*, line_string::*,
+        linear_ring::*, location::*, multi_line_string::*, multi_point::*, multi_polygon::*,
+        octagonal_envelope::*, packed_coordinate_sequences::*, point::*, polygon::*, position::*,
+        precision_model::*, quadrant::*, triangle::*,
+    };
+    pub use crate::core::math::{dd::*, matrix::*, vector_2d::*, vector_3d::*};
+    pub use crate::core::util::{math_util::*, number_util::*};
+}
-- 
2.43.0


From 08ed4a6759d8b43b8782af51dade94ba993c5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 02/37] fix: an empty octagonal envelope intersects no
 coordinate

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..676e52f 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -309,6 +309,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From 4124ac9369cd9ed3b781d40f7f23f0fc19145f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 03/37] fix: expanding an octagonal envelope by an empty
 envelope leaves it unchanged

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 676e52f..fd9117e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
-- 
2.43.0


From 1b208a0409afceca63e58708b3419d9af9b3a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 04/37] fix: adding a section of an array to a coordinate list
 backwards overflowed

---
 src/core/geom/coordinate_list.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..afbf614 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,14 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
-
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            if start > end {
+                i -= 1;
+            } else {
+                i += 1;
+            }
         }
         return true;
     }
-- 
2.43.0


From aab46c51eef7ab4f789dc507e0321558a391aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 05/37] fix: adding an array to a coordinate list in reverse
 order indexed past its end

---
 src/core/geom/coordinate_list.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index afbf614..61f8410 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -93,11 +93,8 @@ impl CoordinateList {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         } else {
-            let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
+            for i in (0..coord_list.len()).rev() {
                 self.add_coordinate_repeated(coord_list[i], allow_repeated);
-                i -= 1;
             }
         }
         return true;
-- 
2.43.0


From 51e5822a8a39ddb54bec9b4e041d190832d8bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 06/37] fix: ordinate access ignored the M ordinate of
 coordinates and sequences

---
 src/core/geom/coordinate.rs                               | 2 ++
 src/core/geom/implementation/coordinate_array_sequence.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/core/geom/coordinate.rs b/src/core/geom/coordinate.rs
index 367b3f8..6feb151 100644
--- a/src/core/geom/coordinate.rs
+++ b/src/core/geom/coordinate.rs
@@ -298,6 +298,7 @@ impl Coordinate {
             Coordinate::X => return Some(self.x),
             Coordinate::Y => return Some(self.y),
             Coordinate::Z => return Some(self.z),
+            Coordinate::M => return Some(self.m),
             _ => return None,
         }
     }
@@ -317,6 +318,7 @@ impl Coordinate {
         match ordinate_index {
             Coordinate::X => self.x = value,
             Coordinate::Y => self.y = value,
+            Coordinate::M => self.set_m(value),
             Coordinate::Z => self.set_z(value), // delegate to subclass rather than offer direct field acces,
             _ => {}
         }
diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index f8ff2d6..6175dda 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -286,6 +286,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
+            CoordinateArraySequence::M if !self.has_m() => return f64::NAN,
             _ => {
                 let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
                 match ord {
@@ -330,6 +331,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
+            CoordinateArraySequence::M if !self.has_m() => {}
             _ => self.coordinates[index].set_ordinate(ordinate_index, value),
         }
     }
-- 
2.43.0


From d970d0e2ddad47c826c3c0fdfc4dfb61036b5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 07/37] fix: reading a sequence coordinate into an existing one
 kept the old M ordinate

---
 src/core/geom/implementation/coordinate_array_sequence.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index 6175dda..0ca1d64 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -217,6 +217,7 @@ impl CoordinateArraySequence {
      */
     pub fn get_coordinate_index_coordinate(&self, index: usize, coord: &mut Coordinate) {
         coord.set_coordinate(&self.coordinates[index]);
+        coord.set_m(self.coordinates[index].get_m());
     }
 
     /**
-- 
2.43.0


From 9a24d077aa41897d7dd92b76c7a78967f744c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 08/37] fix: the third ordinate of an XYM coordinate sequence
 is M

---
 src/core/geom/implementation/coordinate_array_sequence.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index 0ca1d64..6140938 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -288,6 +288,9 @@ impl CoordinateArraySequence {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
             CoordinateArraySequence::M if !self.has_m() => return f64::NAN,
+            CoordinateArraySequence::Z if self.has_m() && !self.has_z() => {
+                return self.coordinates[index].get_m();
+            }
             _ => {
                 let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
                 match ord {
@@ -333,6 +336,9 @@ impl CoordinateArraySequence {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
             CoordinateArraySequence::M if !self.has_m() => {}
+            CoordinateArraySequence::Z if self.has_m() && !self.has_z() => {
+                self.coordinates[index].set_m(value);
+            }
             _ => self.coordinates[index].set_ordinate(ordinate_index, value),
         }
     }
-- 
2.43.0


From 645061144fc76ca5a26a69306854322234b46fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 09/37] fix: building a packed sequence from coordinates wrote
 into an empty buffer

---
 .../implementation/packed_coordinate_sequence_double.rs     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..0c403dc 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -83,7 +83,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension,
             measures: i32::max(0, dimension - 3),
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * dimension as usize],
         };
 
         for i in 0..coordinates.len() {
@@ -118,7 +118,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension,
             measures,
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * dimension as usize],
         };
 
         for i in 0..coordinates.len() {
@@ -147,7 +147,7 @@ impl PackedCoordinateSequenceDouble {
         let mut new = Self {
             dimension: 3,
             measures: 0,
-            coords: vec![],
+            coords: vec![f64::NAN; coordinates.len() * 3],
         };
 
         for i in 0..coordinates.len() {
-- 
2.43.0


From 1232719431c982ea714163255170ce1d7445cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 10/37] fix: a packed XYM sequence took its third ordinate from
 Z

---
 .../implementation/packed_coordinate_sequence_double.rs     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index 0c403dc..8371983 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -126,8 +126,12 @@ impl PackedCoordinateSequenceDouble {
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
                 // Z or M
+                new.coords[offset + 2] = if dimension == 3 && measures == 1 {
+                    coordinates[i].get_m()
+                } else {
+                    coordinates[i].get_ordinate(2).unwrap()
+                };
             }
             if dimension >= 4 {
                 new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-- 
2.43.0


From 2588f6b0703f2f7e0c732cc150ac00184f31286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 11/37] fix: closing or extending a coordinate sequence dropped
 its measures

---
 src/core/geom/coordinate_array_sequences.rs  | 12 ++++++++++--
 src/core/geom/packed_coordinate_sequences.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_array_sequences.rs b/src/core/geom/coordinate_array_sequences.rs
index b2454bd..eda9c36 100644
--- a/src/core/geom/coordinate_array_sequences.rs
+++ b/src/core/geom/coordinate_array_sequences.rs
@@ -156,7 +156,11 @@ impl CoordinateArraySequences {
         size: usize,
     ) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -168,7 +172,11 @@ impl CoordinateArraySequences {
 
     pub fn extend(seq: &CoordinateArraySequence, size: usize) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
diff --git a/src/core/geom/packed_coordinate_sequences.rs b/src/core/geom/packed_coordinate_sequences.rs
index c1c4ff8..37cb00a 100644
--- a/src/core/geom/packed_coordinate_sequences.rs
+++ b/src/core/geom/packed_coordinate_sequences.rs
@@ -158,7 +158,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -173,7 +177,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
-- 
2.43.0


From 94e431690b60951e8e6870292155697e5bee1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 12/37] fix: extracting part of a coordinate array wrote into
 an empty vector

---
 src/core/geom/coordinate_arrays.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..3c013b0 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,4 +1,3 @@
-use crate::core::util::math_util::MathUtil;
 
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
@@ -664,30 +663,16 @@ impl CoordinateArrays {
      * @return a subsequence of the input array
      */
     pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
         let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
+        start = usize::min(start, pts.len());
+        end = usize::min(end, pts.len());
+        if start >= pts.len() || end < start {
             return extract_pts;
         }
 
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+        end = usize::min(end, pts.len() - 1);
+        for i in start..=end {
+            extract_pts.push(pts[i]);
         }
         return extract_pts;
     }
-- 
2.43.0


From 57e22cf5d410375cbdc30ce4e2b34cdad7342cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 13/37] fix: an invalid first coordinate was not seen as
 invalid

---
 src/core/geom/coordinate_arrays.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 3c013b0..b5ab576 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -401,11 +401,11 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
-        for i in 1..coord.len() {
+        for i in 0..coord.len() {
             if !coord[i].is_valid() {
                 return true;
             }
-            if coord[i - 1].equals_2d(&coord[i]) {
+            if i > 0 && coord[i - 1].equals_2d(&coord[i]) {
                 return true;
             }
         }
-- 
2.43.0


From 4fd49e59adcbec23ce7e5964e197adad553b9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 14/37] fix: enforcing one dimension in place reset every
 measure to zero

---
 src/core/geom/coordinate_arrays.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index b5ab576..59a41c7 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -89,6 +89,9 @@ impl CoordinateArrays {
                 let coordinate = array[i];
                 let mut duplicate = Coordinates::create_dim_measures(max_dimension, max_measures);
                 duplicate.set_coordinate(&coordinate);
+                if Coordinates::measures(&coordinate) > 0 {
+                    duplicate.set_m(coordinate.get_m());
+                }
                 array[i] = duplicate;
             }
         }
-- 
2.43.0


From 655e80474f4b61839a328b514e30822e6f3ba258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 15/37] fix: enforcing a given dimension kept Z and reset M
 regardless of the dimension

---
 src/core/geom/coordinate_arrays.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 59a41c7..a2abbdb 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -119,6 +119,12 @@ impl CoordinateArrays {
             let coordinate = array[i];
             let mut duplicate = Coordinates::create_dim_measures(dimension, measures);
             duplicate.set_coordinate(&coordinate);
+            if dimension - measures < 3 {
+                duplicate.set_z(f64::NAN);
+            }
+            if measures > 0 && Coordinates::measures(&coordinate) > 0 {
+                duplicate.set_m(coordinate.get_m());
+            }
             copy[i] = duplicate;
         }
         return copy;
-- 
2.43.0


From 6e28c130c61d76a5054f3eed4055e004fefc7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 16/37] fix: shuffle wrote into an empty vector and underflowed
 for zero integers

---
 src/core/util/math_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..c52468c 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -189,10 +189,10 @@ impl MathUtil {
     pub fn shuffle(n: usize) -> Vec<i32> {
         let mut ints: Vec<i32> = vec![];
         for i in 0..n {
-            ints[i] = i as i32;
+            ints.push(i as i32);
         }
 
-        let mut i = n - 1;
+        let mut i = n.saturating_sub(1);
         while i >= 1 {
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
-- 
2.43.0


From f4dd4dfb1312b8c7e12ccccb677b3bcdcd4de1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 17/37] fix: copying or reversing a multi-point wrote into an
 empty vector

---
 src/core/geom/multi_point.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..78c69ac 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,7 +136,7 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
@@ -263,7 +263,7 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
-- 
2.43.0


From 64736550c7cc93d056e0af1aebfc77b673e704fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 18/37] fix: copying or reversing a multi-polygon wrote into an
 empty vector

---
 src/core/geom/multi_polygon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..e85cf96 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,7 +205,7 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
@@ -217,7 +217,7 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
-- 
2.43.0


From 59c55fddc57a69e39bd2bbe3cb6025891b53cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 19/37] fix: a reversed multi-line-string was empty and copying
 one panicked

---
 src/core/geom/multi_line_string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..5bdf377 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,8 +130,8 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in 0..self.line_strings.len() {
+            line_strings.push(self.line_strings[i].reverse());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
@@ -139,7 +139,7 @@ impl MultiLineString {
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
-- 
2.43.0


From b2b3ce518546893537232086a70262767ebc66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 20/37] fix: reversing a polygon with holes wrote into an empty
 vector

---
 src/core/geom/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..8d518c6 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -473,7 +473,7 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
         return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
-- 
2.43.0


From d7ef16ec8ddc8fa63f1cd7f3de1fd04c26805c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 21/37] fix: the first point of a multi-point could not be read
 and reads past the end panicked

---
 src/core/geom/multi_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 78c69ac..1901f4c 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -221,7 +221,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
+        if index >= self.points.len() {
             return None;
         }
         return Some(self.points[index].copy());
-- 
2.43.0


From 42a5d4421370f01ad406ee470f06278bdca54ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 22/37] fix: the coordinates of a multi-point with empty points
 were padded with (0, 0)

---
 src/core/geom/multi_point.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 1901f4c..31434b1 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -248,13 +248,11 @@ impl MultiPoint {
      * @return the collected coordinates
      *    */
     pub fn get_coordinates(&self) -> Vec<Coordinate> {
-        let mut coordinates: Vec<Coordinate> = vec![Coordinate::default(); self.get_num_points()];
-        let mut k: i32 = -1;
+        let mut coordinates: Vec<Coordinate> = vec![];
         for i in 0..self.points.len() {
             let child_coordinates = self.points[i].get_coordinates();
             for j in 0..child_coordinates.len() {
-                k += 1;
-                coordinates[k as usize] = child_coordinates[j];
+                coordinates.push(child_coordinates[j]);
             }
         }
         return coordinates;
-- 
2.43.0


From cd7f2c42b6fc94b9d2909d36cae6f62557193b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 23/37] fix: normalizing a polygon had no effect

---
 src/core/geom/polygon.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 8d518c6..2d7ff42 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -358,6 +358,7 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
+        self.holes.sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
         // Arrays.sort(holes);
     }
 
@@ -428,12 +429,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -452,6 +453,7 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        *ring = GeometryFactory::create_linear_ring_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From 9b2e7bfbb513229e1b80f4fde76375bdecb4c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 24/37] fix: copying or reversing a geometry lost its precision
 model

---
 src/core/geom/multi_point.rs   | 8 ++++++--
 src/core/geom/multi_polygon.rs | 8 ++++++--
 src/core/geom/polygon.rs       | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 31434b1..1065c18 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -138,7 +138,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
@@ -263,7 +265,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code() -> i32 {
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index e85cf96..73fdf43 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -207,7 +207,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -219,7 +221,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code(&self) -> i32 {
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 2d7ff42..fab6c3d 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut copy = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        copy.precision_model = self.precision_model;
+        return copy;
     }
 
     // TODO: Implement ME!
@@ -478,7 +480,9 @@ impl Polygon {
             holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut res = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
-- 
2.43.0


From 009be5ace1d738ff6d54e90e7df2f7f2f5cc9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 25/37] fix: the centroid of an empty line or ring underflowed

---
 src/core/algorithm/centroid.rs    | 6 +++---
 src/core/algorithm/orientation.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..f2b85a8 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -125,7 +125,7 @@ impl Orientation {
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
         // # of points without closing endpoint
-        let n_pts = ring.size() - 1;
+        let n_pts = ring.size().saturating_sub(1);
         // return default value if ring is flat
         if n_pts < 3 {
             return false;
-- 
2.43.0


From 6c3dfe51996be1ce121aedbcf2a1177c05dbd88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 26/37] fix: rounding an extended-precision number changed the
 number itself

---
 src/core/math/dd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..59cfc7d 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -758,8 +758,7 @@ impl DD {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        return self.add_f64(0.5).floor();
     }
 
     /**
-- 
2.43.0


From 9960a5d59763df75fd632996b850bed8e38a0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 27/37] fix: the decimal magnitude of numbers below 1 or above
 1e9 overflowed

---
 src/core/math/dd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 59cfc7d..8267ae9 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1348,8 +1348,8 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powi(10., x_mag);
+        if x_approx * 10. <= x_abs {
             x_mag += 1;
         }
 
-- 
2.43.0


From 32bc3e21c48d823e1d994414ca8c91b072ef4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:27 +0000
Subject: [PATCH 28/37] fix: floor and ceiling of an extended-precision number
 could be unnormalized

---
 src/core/math/dd.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 8267ae9..5711920 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -687,8 +687,7 @@ impl DD {
         if fhi == self.hi {
             flo = f64::floor(self.lo);
         }
-        // do we need to renormalize here?
-        return DD::new_hi_lo(fhi, flo);
+        return DD::renormalized(fhi, flo);
     }
 
     /**
@@ -711,9 +710,20 @@ impl DD {
         // Hi is already integral.  Ceil the low word
         if fhi == self.hi {
             flo = f64::ceil(self.lo);
-            // do we need to renormalize here?
         }
-        return DD::new_hi_lo(fhi, flo);
+        return DD::renormalized(fhi, flo);
+    }
+
+    /**
+     * Returns the sum of an integral high and low word as a number
+     * whose low word is below the precision of its high word.
+     */
+    fn renormalized(hi: f64, lo: f64) -> DD {
+        if lo == 0.0 {
+            return DD::new_hi_lo(hi, lo);
+        }
+        let sum = hi + lo;
+        return DD::new_hi_lo(sum, lo - (sum - hi));
     }
 
     /**
-- 
2.43.0


From 87b121b6214c187fb2318dc2556b6807a359fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:48 +0000
Subject: [PATCH 29/37] fix: single precision models did not round

---
 src/core/geom/precision_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..88a0c03 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,7 +320,7 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
+  		let float_single_val = val as f32 as f64;
   		return float_single_val;
   	}
 
-- 
2.43.0


From d5cf7274c63530b2ccfe1984383b62a530d75b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:48 +0000
Subject: [PATCH 30/37] fix: ties were rounded away from zero instead of up

---
 src/core/geom/precision_model.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 88a0c03..ba11b20 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -326,16 +326,25 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round_half_up(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round_half_up(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
   }
 
+  /**
+   * Rounds to the nearest integer, with ties going up (also for negative values).
+   */
+  fn round_half_up(val: f64) -> f64 {
+    let floor = f64::floor(val);
+    if val - floor >= 0.5 { return floor + 1.0; }
+    return floor;
+  }
+
   /**
    * Rounds a Coordinate to the PrecisionModel grid.
    */
-- 
2.43.0


From 850a42dee9b9e6b9a62c109b686dab753228dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:48 +0000
Subject: [PATCH 31/37] fix: two floating precision models were never equal

---
 src/core/geom/precision_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index ba11b20..2adaaae 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -358,7 +358,8 @@ impl PrecisionModel {
   }
 
   pub fn equals(&self, other: PrecisionModel) -> bool {
-    self.model_type == other.model_type && self.scale == other.scale
+    self.model_type == other.model_type
+      && (self.is_floating() || self.scale == other.scale)
   }
 
   /**
-- 
2.43.0


From ba16f84260050963005cf26dd7655df6907877ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 32/37] fix: the closest points of intersecting segments were a
 single coordinate

---
 src/core/geom/line_segment.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/geom/line_segment.rs b/src/core/geom/line_segment.rs
index c8003a4..0cd3109 100644
--- a/src/core/geom/line_segment.rs
+++ b/src/core/geom/line_segment.rs
@@ -546,11 +546,8 @@ impl LineSegment {
     pub fn closest_points(&self, line: &LineSegment) -> Vec<Coordinate> {
         // test for intersection
         let int_pt = self.intersection(line);
-        if int_pt.is_some() {
-            return vec![Coordinate::new_xy(
-                int_pt.unwrap().get_x(),
-                int_pt.unwrap().get_y(),
-            )];
+        if let Some(int_pt) = int_pt {
+            return vec![int_pt; 2];
         }
 
         //  if no intersection closest pair contains at least one endpoint.
-- 
2.43.0


From 578ee3dffa6298fd8b412129e7e98d88af2a0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 33/37] fix: angle normalization ends for huge and infinite
 angles

---
 src/core/algorithm/angle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/algorithm/angle.rs b/src/core/algorithm/angle.rs
index 687fa34..98a67a2 100644
--- a/src/core/algorithm/angle.rs
+++ b/src/core/algorithm/angle.rs
@@ -230,6 +230,10 @@ impl Angle {
      */
     pub fn normalize(angle: f64) -> f64 {
         let mut normalized_angle = angle;
+        // remove whole turns at once, however many there are
+        if f64::abs(normalized_angle) > Angle::PI_TIMES_2 {
+            normalized_angle %= Angle::PI_TIMES_2;
+        }
         while normalized_angle > std::f64::consts::PI {
             normalized_angle -= Angle::PI_TIMES_2;
         }
@@ -260,6 +264,10 @@ impl Angle {
      */
     pub fn normalize_positive(angle: f64) -> f64 {
         let mut normalized_pos_angle = angle;
+        // remove whole turns at once, however many there are
+        if f64::abs(normalized_pos_angle) > Angle::PI_TIMES_2 {
+            normalized_pos_angle %= Angle::PI_TIMES_2;
+        }
         if normalized_pos_angle < 0.0 {
             while normalized_pos_angle < 0.0 {
                 normalized_pos_angle += Angle::PI_TIMES_2;
-- 
2.43.0


From 853f69179ae9c9648d46da9fc0e07086cd2201af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 34/37] fix: Matrix::solve no longer underflows its row
 counters

---
 src/core/math/matrix.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..641b9a1 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,8 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
+                for k in (i..n).rev() {
                     a[j][k] -= a[i][k] * row_factor;
-                    k -= 1;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +84,7 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        for j in (0..n).rev() {
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +92,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From d8feb3e6b3593ecf88448bfcc9379a83f9d43872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 35/37] fix: DD::pow accepts the smallest exponent

---
 src/core/math/dd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 5711920..a48b63b 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -898,7 +898,7 @@ impl DD {
 
         let mut r = DD::new_from_dd(self);
         let mut s = DD::value_of_f64(1.0);
-        let mut n = i32::abs(exp);
+        let mut n = exp.unsigned_abs();
 
         if n > 1 {
             /* Use binary exponentiation */
-- 
2.43.0


From d9fba5c1f05ccebe424b93b7c01d16da4b44d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 36/37] fix: significant digits of an infinite scale no longer
 overflow

---
 src/core/geom/precision_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 2adaaae..2f586a0 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -180,7 +180,8 @@ impl PrecisionModel {
         } else if self.model_type == PrecisionModelType::FloatingSingle {
             max_sig_digits = 6;
         } else if self.model_type == PrecisionModelType::Fixed {
-            max_sig_digits = 1 + f64::ceil(f64::ln(self.get_scale()) / f64::ln(10.)) as i32;
+            max_sig_digits =
+                (1. + f64::ceil(f64::ln(self.get_scale()) / f64::ln(10.))) as i32;
         }
         return max_sig_digits;
     }
-- 
2.43.0


From ac53de3bc5a43b34bb95531bbe3a161bf7692e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 37/37] fix: normalizing a polygon with NaN ordinates no longer
 panics in the sort of its holes

---
 src/core/geom/polygon.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index fab6c3d..f984902 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -360,7 +360,10 @@ impl Polygon {
         for i in 0..self.holes.len() {
             self.holes[i] = self.normalized(&self.holes[i], false);
         }
-        self.holes.sort_by(|a, b| a.compare_to_same_class(b).cmp(&0));
+        // (an order that is total for NaN ordinates too)
+        let comp = CoordinateSequenceComparator::new_with_dimension_limit(2);
+        self.holes
+            .sort_by(|a, b| a.compare_to_same_class_with_comparator(b, &comp).cmp(&0));
         // Arrays.sort(holes);
     }
 
-- 
2.43.0

