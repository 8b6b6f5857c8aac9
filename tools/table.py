SIM = '''Seeded search: a clean batch is evidence, not proof. Trusted: the reference model in the harness, rustc, and the simulator itself
(checked by re-running a sample of every batch and by `geos-dst determinism`). Library code runs unmodified at opt-level 0 on up to 8 simulated clients; '''

prop('C02', 'Ring segments may arrive in any order: exact point-in-ring answers',
 '''Counting the segments of one or more closed rings against a query point in any order, each segment once and each ring in one consistent
 direction, ends with exactly the location of the point (interior, boundary or exterior by the even-odd rule). At every moment before that, the point is
 reported on a segment only if it really lies on a segment counted so far, and such a report is never withdrawn. The whole-ring, on-segment, on-line and in-ring
 tests give the same exact answer for every representation of the coordinates.''',
 ['schedules', 'histories', 'inputs', 'crash_points'],
 'all orders of delivery, all crash-and-replay points and all rings of ordinary magnitude whose coordinates fit one 50-bit binary grid, or one 60-bit grid where the double-double determinant can decide (self-intersecting, degenerate, repeated, collinear and nearly collinear vertices included)',
 'The tests locate a point in a handful of whole rings in natural order; they never permute segments, stop half way, rebuild a counter from a log or use several rings.',
 [A + 'ray_crossing_counter.rs', A + 'point_location.rs', A + 'orientation.rs', A + 'cg_algorithms_dd.rs'],
 [('running crossing count and sticky on-segment flag', A + 'ray_crossing_counter.rs count_segment'),
  ('half-open vertex rule and exact orientation', A + 'ray_crossing_counter.rs, ' + A + 'cg_algorithms_dd.rs orientation_index'),
  ('collinearity and envelope tests', A + 'point_location.rs')],
 ('segment messages over a lossy, duplicating, reordering simulated network; exact integer oracle',
  SIM + '''coordinates are limited to values that share one 50-bit binary grid, so that the exact oracle (128-bit integers) applies.'''),
 state=[('crossing count', 'crossings of the ray so far', A + 'ray_crossing_counter.rs'), ('on-segment flag', 'boundary hit seen', A + 'ray_crossing_counter.rs')])

prop('C03', 'A bounding box is exactly the join of what was put into it',
 '''After any history of inclusions of points, coordinate arrays or other boxes, merges of copies sent between replicas, translations, growth and shrinking,
 resets and restarts from a saved copy, a bounding box is exactly the smallest box (or nothing) those operations define, whatever the order, grouping or repetition of the merges,
 so replicas that have received the same points are equal. Every measure and every relation (intersects, disjoint, contains, covers, proper containment, equality, comparison,
 distance, intersection, centre, extents) agrees with the definition over closed intervals, empty boxes included, and no query or merge changes its argument.''',
 ['histories', 'schedules', 'crash_points', 'fault_sequences', 'inputs'],
 'all histories of box operations over finite ordinates (magnitudes 1e-150 to 1e150; infinite ones in inclusions and relations), all delivery orders with loss, duplication and delay, crashes at any point',
 'The tests check single operations on a few boxes; merging in other orders, repeated merges, shrinking to nothing inside a longer history and replicas are never exercised.',
 [G + 'envelope.rs', I + 'coordinate_array_sequence.rs', I + 'packed_coordinate_sequence_double.rs', G + 'coordinate_arrays.rs'],
 [('empty box as inverted bounds', G + 'envelope.rs set_to_null/is_null'), ('join on every include', G + 'envelope.rs expand_to_include_*'), ('interval relations', G + 'envelope.rs intersects/covers/contains')],
 ('replicas gossip boxes over a faulty simulated network with crash/restart; interval-per-axis reference model',
  SIM + '''ordinates are finite; areas, diameters and distances are compared within 1e-12 relative error and skipped beyond 1e140.'''))

prop('C04', 'An octagonal box is exactly the join of what was put into it',
 '''After any history of inclusions of points, coordinate arrays, boxes or other octagons, merges of copies sent between replicas, growth and shrinking, resets and restarts from a saved copy,
 an octagonal bounding region is exactly the tightest bounds in x, y, x+y and x-y of what was included (or nothing), whatever the order, grouping or repetition of the merges.
 Intersection with a point or another octagon and containment agree with those four closed intervals, including when one side is empty, and no query or merge changes its argument.''',
 ['histories', 'schedules', 'crash_points', 'fault_sequences', 'inputs'],
 'all histories of octagon operations over finite ordinates, all delivery orders with loss, duplication and delay, crashes at any point',
 'There is no test of octagonal envelopes in the repository at all.',
 [G + 'octagonal_envelope.rs', G + 'envelope.rs'],
 [('empty octagon as NaN bounds', G + 'octagonal_envelope.rs set_to_null/is_null'), ('join on every include', G + 'octagonal_envelope.rs expand_to_include_*'), ('relations', G + 'octagonal_envelope.rs intersects_*/contains_*')],
 ('replicas gossip octagons over a faulty simulated network with crash/restart; four-interval reference model',
  SIM + '''ordinates are finite; a shrink that lands within rounding (1e-9 relative) of a vanishing diagonal interval is adopted from the code instead of judged.'''))

prop('C05', 'Merged intersection matrices give the OGC relation predicates',
 '''Combining partial intersection matrices by the at-least operations gives, cell by cell, the maximum of the contributions, whatever the order, grouping or repetition in which they arrive,
 so nodes that have received the same contributions hold equal matrices; explicit assignments, transposition, symbol strings and saving/restoring as text do exactly what they say.
 In every matrix state the named relations (disjoint, intersects, touches, crosses, within, contains, covers, covered-by, equals, overlaps) and pattern matching agree with the
 OGC/DE-9IM patterns for the operand dimensions, and asking changes nothing.''',
 ['histories', 'schedules', 'crash_points', 'inputs'],
 'all histories of matrix operations over all cell values and operand dimensions, all delivery orders with loss, duplication and delay, crashes at any point; patterns of any length and content',
 'The tests check some predicates on a few constant matrices; none merges matrices, transposes inside a history, or asks every predicate in every state.',
 [G + 'intersection_matrix.rs', G + 'dimension.rs', G + 'location.rs'],
 [('cell-wise maximum', G + 'intersection_matrix.rs set_at_least*/add'), ('predicates', G + 'intersection_matrix.rs is_*'), ('pattern matching', G + 'intersection_matrix.rs matches*'), ('symbols', G + 'dimension.rs')],
 ('partial matrices merged over a faulty simulated network with crash/restart; DE-9IM pattern reference model',
  SIM + '''strings longer than nine symbols are outside the property.'''))

prop('C08', 'Geometries keep exactly their content through every rearrangement',
 '''After any history of building points, lines, rings, polygons with holes and multi-geometries from coordinates or from parts that other nodes delivered, extracting parts, copying, reversing,
 normalizing, replacing a line's content, asking for envelopes and restoring from a saved copy, every geometry has exactly the parts, rings and coordinates those operations define, in order,
 Z and M included: copies are equal and independent, reversing twice gives the original, a normalized line or polygon (simple rings) has one form whatever start, direction and hole order it was built
 with. Kind, dimensions, size, emptiness, closedness, box, length, area, rectangle test, exact equality, order and precision model agree with the content at any time, whatever was cached before.''',
 ['histories', 'schedules', 'crash_points', 'fault_sequences', 'inputs'],
 'all histories of geometry operations over finite coordinates of one kind (XY, XYZ, XYM, XYZM) with empty parts, all delivery orders, crashes and allocation failures at any point',
 'The tests build a few geometries and read them once; most copies, reversals, collections and normalizations are never called at all.',
 [G + 'point.rs', G + 'line_string.rs', G + 'linear_ring.rs', G + 'polygon.rs', G + 'multi_point.rs', G + 'multi_line_string.rs', G + 'multi_polygon.rs', G + 'geometry_factory.rs'],
 [('construction from coordinates and parts', G + 'geometry_factory.rs'), ('copy and reverse', G + 'polygon.rs copy/reverse and the other geometry files'),
  ('normalized start and direction', G + 'polygon.rs normalize, ' + G + 'line_string.rs normalize'), ('cached envelope', G + 'polygon.rs get_envelope_internal')],
 ('geometry registers exchanged over a faulty simulated network with crash/restart and failing allocations; nested-list reference model',
  SIM + '''the coordinates of a multi-line-string cannot be read, so its content is judged by exact equality in 2D.'''),
 state=[('cached envelope', 'box computed at the first request', G + 'polygon.rs'), ('precision model', 'rounding of the centroid', G + 'polygon.rs')])

prop('C09', 'A coordinate list holds exactly what was added to it',
 '''After any history of appending coordinates, arrays (forwards, backwards, or a section either way), merging lists delivered by other replicas, inserting at a position and closing the ring,
 a coordinate list holds exactly the sequence those operations define: with repeats allowed nothing is dropped, with repeats disallowed a coordinate equal in 2D to its neighbour is
 not added and nothing else is lost, duplicated or reordered, Z and M included. Arrays that are added are not changed, both reading directions agree, a list restored from a saved array is the same list,
 and an addition cut short by a failed allocation leaves a prefix of its effect.''',
 ['histories', 'schedules', 'crash_points', 'fault_sequences', 'inputs'],
 'all histories of list operations over coordinates of any dimension (NaN and infinities included), all delivery orders with loss, duplication and delay, crashes and allocation failures at any point',
 'The tests build three short lists in one direction; adding backwards panicked unnoticed.',
 [G + 'coordinate_list.rs', G + 'coordinate.rs'],
 [('repeat check against the last coordinate', G + 'coordinate_list.rs add_coordinate_repeated'), ('insertion and its neighbours', G + 'coordinate_list.rs add_index_coordinate_repeated'), ('section and direction', G + 'coordinate_list.rs add_coordinate_list_*'), ('ring closing', G + 'coordinate_list.rs close_ring')],
 ('lists streamed between replicas over a faulty simulated network with crash/restart and allocation failure; sequence reference model',
  SIM + '''a section that starts one past the end of the array going backwards is outside the property.'''))

prop('C10', 'Array-backed and packed coordinate sequences are the same sequence',
 '''One history of construction, ordinate assignment, swap, reversal, copying of sections (between sequences of different dimension too), scrolling to a start (open or ring), ring closing and extension
 leaves an array-backed and a packed coordinate sequence with identical dimension, measures, size and ordinates, namely those the operations define; every reading (by ordinate, by coordinate, as an array, raw,
 into another coordinate), the ring test, minimum, search, envelope, equality and ordering agree with that content. Factories infer the dimension of coordinates they are given and clip impossible requests. Copies and derived sequences are independent of their source, and a sequence
 restored from its saved ordinates is the same sequence.''',
 ['histories', 'schedules', 'crash_points', 'fault_sequences', 'inputs'],
 'all histories over sequences of XY, XYZ, XYM and XYZM coordinates (NaN in Z and M included), all delivery orders with loss, duplication and delay, crashes and allocation failures at any point',
 'The tests build both kinds separately and check a few reads; packed construction from coordinates panicked unnoticed, and measures were dropped or misplaced.',
 [I + 'coordinate_array_sequence.rs', I + 'packed_coordinate_sequence_double.rs', G + 'coordinate_array_sequences.rs', G + 'packed_coordinate_sequences.rs', I + 'coordinate_array_sequence_factory.rs', I + 'packed_coordinate_sequence_factory.rs', G + 'coordinate_sequence_comparator.rs', G + 'coordinates.rs'],
 [('ordinate indexing by dimension and measures', I + 'coordinate_array_sequence.rs get/set_ordinate, ' + I + 'packed_coordinate_sequence_double.rs'), ('in-place rearrangement', G + 'coordinate_array_sequences.rs swap/reverse/scroll*'), ('derived sequences', G + '*_sequences.rs create_closed_ring/extend/ensure_valid_ring')],
 ('twin sequences driven in lockstep on replicas exchanging copies over a faulty simulated network; row-matrix reference model',
  SIM + '''X and Y are finite; the generic (non-double) packed sequence, which has no way to hold data, is not covered.'''),
 state=[('dimension, measures', 'layout of a coordinate', I + 'coordinate_array_sequence.rs'), ('ordinates', 'content', I + 'packed_coordinate_sequence_double.rs')])

prop('C11', 'Rearranging coordinate arrays moves coordinates, never changes them',
 '''After any history of scrolling (to an index or a coordinate, open or ring), copying sections between arrays, extracting, dropping repeated or invalid coordinates, clipping to a box and
 enforcing one dimension, a coordinate array holds exactly the coordinates those operations define, Z and M included: none lost, invented, reordered or altered beyond what was asked (enforcement may only
 fill in an absent Z or M, or drop one the requested dimension lacks). Derived arrays leave their source alone, and every question about an array (ring, repeats, validity, search, minimum,
 comparison, direction, dimension, envelope) agrees with its content.''',
 ['histories', 'schedules', 'crash_points', 'fault_sequences', 'inputs'],
 'all histories over arrays of mixed XY, XYZ, XYM and XYZM coordinates (NaN and infinite ordinates included), all delivery orders with loss, duplication and delay, crashes and allocation failures at any point',
 'The tests scroll one circle by one step and enforce one pair of coordinates; extracting a section panicked and measures were reset unnoticed.',
 [G + 'coordinate_arrays.rs', G + 'coordinates.rs', G + 'coordinate.rs', G + 'coordinate_list.rs'],
 [('scrolling with and without a closing point', G + 'coordinate_arrays.rs scroll_*'), ('repeat and validity filters', G + 'coordinate_arrays.rs remove_*'), ('dimension enforcement', G + 'coordinate_arrays.rs enforce_consistency*')],
 ('arrays exchanged between replicas over a faulty simulated network with crash/restart and allocation failure; sequence reference model',
  SIM + '''ordering questions are asked of finite arrays only, reversed equality of arrays of equal length.'''))

prop('C12', 'A shuffle is a uniformly random permutation whatever the entropy supply does',
 '''Shuffling n integers returns every integer from 0 to n-1 exactly once, for every n, on every client and under every interleaving, when the operating system's entropy is interrupted, short, missing its system call,
 constant or all zero; it fails only while entropy is refused outright and works again once the supply recovers. With a working supply all permutations are equally likely and no two draws, on
 one client or on different ones, repeat each other.''',
 ['schedules', 'fault_sequences', 'inputs'],
 'all n up to 66000 (long enough to force the generator to reseed), all interleavings of up to four clients, entropy faults changing at any point; uniformity by chi-square with an error probability below 1e-15',
 'The shuffle has no test, and panicked for every n; a test cannot control the entropy it runs on.',
 ['src/core/util/math_util.rs'],
 [('Fisher-Yates exchange', 'src/core/util/math_util.rs shuffle'), ('thread-local generator', 'rand::thread_rng')],
 ('entropy and scheduling under simulator control, with entropy faults; permutation check on every draw and chi-square tests over the history',
  SIM + '''the generator itself (rand 0.8.5) is real code; uniformity is judged on permutations of 2 to 4, on three positions of 20, and on the choices decoded from permutations of any length.'''),
 state=[('generator', 'thread-local random state', 'rand::rngs::thread')])

prop('C06', 'A centroid does not depend on the order in which the parts arrive',
 '''After any parts (polygons, shells, holes, lines, points) have been added to a centroid in any order, with any repetition of the question and any restart that replays them, the centroid is the
 area-weighted one of the shells minus the holes, whatever the direction and start of each ring; if the total area is zero (flat rings included), the length-weighted one of all lines and ring edges;
 if the total length is zero, the average of the points and of the lines and rings that collapse to a point; and nothing if there is nothing. The same holds for the centroid of a whole point,
 line, polygon or multi-polygon, so replicas that have received the same parts agree.''',
 ['histories', 'schedules', 'crash_points', 'inputs'],
 'all orders of delivery with loss, duplication and delay, crash and replay at any point; simple or flat rings on an integer grid (22 bits) of any power-of-two spacing',
 'The tests compute the centroid of a few whole geometries; order, replay, mixtures of dimensions, cancelled areas and ring direction are not varied.',
 [A + 'centroid.rs', G + 'polygon.rs', G + 'multi_polygon.rs', A + 'orientation.rs'],
 [('signed triangle sums by ring direction', A + 'centroid.rs add_shell/add_hole/add_triangle'), ('length and point sums', A + 'centroid.rs add_line_segments/add_point'),
  ('highest dimension wins', A + 'centroid.rs get_centroid'), ('ring direction', A + 'orientation.rs is_ccw_vec')],
 ('parts delivered over a faulty simulated network to replicas with a durable log; exact integer oracle',
  SIM + '''area and point centroids are judged within 2e-15 relative error, lengths within 1e-12 of the largest ordinate; self-intersecting rings are outside the property.'''),
 state=[('partial sums', 'area, length and point sums so far', A + 'centroid.rs'), ('area base point', 'common apex of the triangles', A + 'centroid.rs')])

prop('C07', 'A segment intersector gives the exact kind, whatever it did before',
 '''A segment intersector that is reused for any history of segment pairs, points, precision changes and restarts answers each pair exactly as a new one with the same precision model would,
 and two intersectors asked the same pair answer alike. Whether two segments meet, in one point or along an overlap, and whether a point lies on a segment, is exactly right; a touching point
 or overlap end is the touching vertex itself; a proper crossing lies within both segments' boxes and within rounding of the true point (on the precision grid if one was set);
 its elevation (Z) is the mean of those of the segments there, a vertex keeps its own or else takes that of the segment it lies on, and Z is never lost. The arguments do not change.''',
 ['histories', 'schedules', 'inputs'],
 'all histories of reuse and all orders of delivery with loss and duplication; exact classification for coordinates that share one 50-bit binary grid; positions and elevations where triple products of the coordinates neither overflow nor underflow',
 'The tests compute a few dozen intersections, each with a new intersector; leftovers from earlier pairs, elevations, duplicates and precision changes are not exercised.',
 [A + 'robust_line_intersector.rs', A + 'cg_algorithms_dd.rs', A + 'intersection.rs', A + 'orientation.rs', A + 'distance.rs', G + 'precision_model.rs'],
 [('classification by orientation of the four endpoints', A + 'robust_line_intersector.rs compute_intersect'), ('collinear overlap', A + 'robust_line_intersector.rs compute_collinear_intersection'),
  ('crossing point and elevation', A + 'robust_line_intersector.rs intersection, z_get_or_interpolate*')],
 ('work queues of segment pairs over a faulty simulated network; exact integer oracle and fresh-intersector twin',
  SIM + '''positions are judged within 1e-14 of the largest ordinate, and for wide coordinates of nearly parallel lines within what 100-bit arithmetic can give.'''),
 state=[('last intersection', 'points of the last pair', A + 'robust_line_intersector.rs'), ('precision model', 'rounding of crossings', A + 'robust_line_intersector.rs')])

prop('C13', 'Extended-precision numbers stay exact and leave their operands alone',
 '''After any history of assignments, copies, arithmetic in place or by value, powers, roots, roundings, determinants and restarts from a saved copy, an extended-precision (double-double) number is normalized and is
 the exact result of its last operation to within 2^-100 relative error; the in-place and the by-value form of an operation give that same number; floor, ceiling, truncation and rounding give the right integer; not-a-number
 propagates; and no operation changes its operands. Comparisons, sign tests, minimum and maximum agree with the exact values. A sum of integers that fits is exact, so nodes that receive the same terms or partial sums
 in any order and grouping hold the same total.''',
 ['histories', 'schedules', 'crash_points', 'inputs'],
 'all histories of operations on up to four registers per node, all orders of delivery of terms and partial sums, crash and restore at any point; magnitudes 1e-90 to 1e90 (no overflow inside an operation)',
 'The tests check identities on a few numbers; in-place forms after other operations, shared operands, orders of summation and the low part of a result are not exercised.',
 [M + 'dd.rs', U + 'math_util.rs'],
 [('error-free transformations', M + 'dd.rs self_add*, self_multiply*, self_divide*'), ('rounding of both halves', M + 'dd.rs floor/ceil/rint/trunc'), ('derived operations', M + 'dd.rs sqrt_dd, pow, determinant_*')],
 ('registers and running sums exchanged over a faulty simulated network with crash/restart; exact big-number oracle',
  SIM + '''the oracle is exact integer arithmetic on significand and exponent; both halves are read through the dump. Printing and parsing of digits are outside the property.'''),
 state=[('high and low part', 'the number is their unevaluated sum', M + 'dd.rs')])

prop('C14', 'Snapping to a grid is exact, stable and keeps the order of coordinates',
 '''A precision model rounds an ordinate to the nearest multiple of its grid spacing (a tie goes up), to the nearest single-precision number, or not at all, whatever nodes, copies and restarts the model and the coordinates went
 through: rounding twice changes nothing, the order of ordinates is kept, Z and measure are untouched, and equal models have equal types, scales, digits and effects. Coordinates keep what was assigned to each ordinate,
 alone or by index, through copies and restarts; comparison of coordinates is a total order consistent with equality, and tolerance equality and distances in two and three dimensions agree with their definitions.''',
 ['histories', 'schedules', 'crash_points', 'inputs'],
 'all histories of model choices, assignments, roundings, copies, sends and crashes over finite ordinates of any magnitude, NaN included; grid scales from 1e-6 to 1e12, also given as a spacing',
 'The tests round a few numbers on one or two scales; ties, negative and huge values, repeated rounding, order, copies and restored models are not exercised.',
 [G + 'precision_model.rs', G + 'coordinate.rs', G + 'coordinates.rs', U + 'number_util.rs'],
 [('rounding', G + 'precision_model.rs make_precise*'), ('comparison and tolerance', G + 'coordinate.rs compare_to, equals_*, distance*'), ('ordinate access', G + 'coordinate.rs get_ordinate/set_ordinate')],
 ('coordinates and models exchanged between nodes over a faulty simulated network with crash/restart; exact reference model',
  SIM + '''grids beyond 2^52 steps from zero are judged by idempotence and order only.'''))

prop('C15', 'A line segment keeps its ends, and its queries are exact or tight',
 '''After any history of setting, copying, reversing, normalizing, sending and restoring, a line segment has exactly the two ends those operations define, and comparison and equality of segments are those of the ends.
 In every state its queries agree with exact geometry: orientation and turn are the true signs; length, midpoint, distances, projection, projection factor, closest points, points along and offset, reflection and the crossing
 of two segments agree with the exact values within a small tolerance, and no query changes either segment.''',
 ['histories', 'schedules', 'crash_points', 'inputs'],
 'all histories of segment operations on finite coordinates that share one binary grid, zero-length, collinear, touching and nearly parallel segments included; all orders of delivery, crashes at any point',
 'The tests check a few segments per query, with no histories, no degenerate or reversed segments for most queries.',
 [G + 'line_segment.rs', A + 'distance.rs', A + 'orientation.rs', A + 'intersection.rs', A + 'robust_line_intersector.rs'],
 [('ends', G + 'line_segment.rs set_coordinates*, reverse, normalize'), ('projection and closest points', G + 'line_segment.rs project*, closest_point*'), ('orientation', G + 'line_segment.rs orientation_index_*')],
 ('segments edited and exchanged over a faulty simulated network with crash/restart; exact integer oracle',
  SIM + '''tolerances are relative to the largest ordinate; Z and measure after replacing the ends may be copied or left.'''))

prop('C01', 'Answers depend on the arguments alone, whatever else is going on',
 '''Every value-returning operation of the library (angles, areas, lengths, distances, orientation, intersections, point location, centroids, numbers, vectors, matrices, precision models, boxes, segments, triangles,
 coordinate arrays and sequences, relation matrices, geometries) gives, for the same arguments, bit for bit the answer it gives as the first call of a fresh process: whatever was called before with similar or other arguments,
 whichever other clients are in the middle of calls on the same shared objects, after calls that ran out of memory or panicked, and whatever the entropy and the clock do. It never changes the arguments it only reads.''',
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'all histories and interleavings of calls of 161 named operations by up to 4 clients on shared arguments, with allocation failures and panics at any point, any entropy and clock behaviour',
 'Each test calls an operation once or twice in a process of its own thread; none repeats calls among others, interleaves callers, or calls again after a failure.',
 [A + 'angle.rs', A + 'area.rs', A + 'length.rs', A + 'distance.rs', A + 'intersection.rs', A + 'cg_algorithms_dd.rs', G + 'triangle.rs', G + 'coordinate_arrays.rs', M + 'vector_2d.rs', M + 'dd.rs', U + 'math_util.rs'],
 [('no state outlives a call', 'every pub fn of src/core taking its inputs by shared reference')],
 ('clients interleaved at every basic block on shared arguments; each answer compared with a fresh process',
  SIM + '''answers are compared with the code's own first answer, not with a definition; operations are called through a table of 161 entries.'''))

prop('C16', 'Every operation ends in linear time and survives any ordinate',
 '''Whatever the ordinates (not-a-number, infinities, signed zeros, subnormal and extreme numbers, repeated and unclosed points, empty and long lists) and whatever state earlier calls with such values, failed allocations or
 restarts left long-lived objects in, every operation ends within a number of steps proportional to the size of its input (to the product of both lists for a search of one list in another), and does not panic unless an index,
 length or ring is outside its documented range. Once hostile values stop, the same objects and fresh ones do ordinary work within the same bounds.''',
 ['histories', 'inputs', 'fault_sequences', 'crash_points'],
 'all inputs from a hostile ordinate pool mixed with ordinary ones, lists up to 24000 points, all histories of 80 object actions; the bound is 20000 + 800 steps (basic blocks, allocated and copied bytes) per point (4000 for operations that copy lists many times)',
 'The tests hand the library a few well-behaved values and would simply hang on an endless loop; no test combines hostile values with later operations on the same object.',
 [A + 'angle.rs', M + 'matrix.rs', M + 'dd.rs', G + 'coordinate_arrays.rs', G + 'coordinate_list.rs', G + 'coordinate_array_sequences.rs', G + 'precision_model.rs', A + 'orientation.rs'],
 [('normalization of angles', A + 'angle.rs normalize*'), ('index loops', G + 'coordinate_arrays.rs, ' + A + 'orientation.rs is_ccw_*'), ('elimination and powers', M + 'matrix.rs solve, ' + M + 'dd.rs pow')],
 ('hostile values in histories of calls and object actions; steps counted at basic blocks, bounded progress',
  SIM + '''the answer itself is not judged here; a step is a basic block of the library at opt-level 0; the standard library is not counted.'''))

# ---------------------------------------------------------------- not applicable
PURE = '''A pure function of its arguments: no state, schedule, clock, I/O, randomness or fault for a simulator to control, so a simulation would only be random input testing. '''
na('C17', 'Orientation of three points is exact',
 'The orientation of a point with respect to a directed segment is the true sign of the determinant, and it is antisymmetric and invariant under rotation of its arguments.',
 'all triples of finite coordinates', 'The tests check a few published hard cases.',
 [A + 'orientation.rs', A + 'cg_algorithms_dd.rs'], [('filter then double-double determinant', A + 'cg_algorithms_dd.rs')],
 PURE + 'Its use inside stateful computations (point-in-ring, line intersection, centroid) is exercised by C02, C06 and C07.')
na('C18', 'Distances agree with the minimum over the points of both shapes',
 'The distance between points, segments, lines and polylines in 2D and 3D is the minimum over their points, symmetric and zero exactly when they meet.',
 'all finite coordinates', 'The tests check a few configurations.', [A + 'distance.rs', A + 'cg_algorithms_3d.rs'], [('segment distance formulas', A + 'distance.rs')], PURE)
na('C19', 'The intersection point of two lines is accurate',
 'The computed intersection point of two non-parallel lines is within a small relative error of the true point, and parallel lines give none.',
 'all pairs of lines with finite coordinates', 'The tests check a few lines.', [A + 'intersection.rs', A + 'cg_algorithms_dd.rs', A + 'hcoordinate.rs'], [('conditioned homogeneous coordinates', A + 'intersection.rs')], PURE)
na('C20', 'Angles agree with their definitions',
 'Angle, inclination, bisector, turn and normalisation functions return the angle their definition gives, in the documented range.',
 'all finite coordinates and angles', 'The tests check a few angles.', [A + 'angle.rs'], [('atan2-based formulas', A + 'angle.rs')], PURE + 'That normalisation always terminates is part of C16.')
na('C21', 'Triangle centres, areas and interpolation agree with their definitions',
 'Circumcentre, incentre, centroid, area, 3D area, bisector length and Z interpolation of a triangle satisfy their defining equations.',
 'all non-degenerate triangles', 'The tests check a few triangles.', [G + 'triangle.rs'], [('determinant formulas', G + 'triangle.rs')], PURE)
na('C23', 'Area and length of coordinate lists agree with their definitions',
 'The signed area of a ring and the length of a line equal the shoelace sum and the sum of segment lengths, for every representation of the coordinates.',
 'all coordinate lists', 'The tests check a few shapes.', [A + 'area.rs', A + 'length.rs'], [('shoelace with offset', A + 'area.rs')], PURE)
na('C25', 'Vectors, matrices and homogeneous coordinates satisfy their algebra',
 'Vector operations, linear solves and homogeneous-coordinate intersections satisfy their defining equations.',
 'all finite inputs', 'The tests check a few vectors; the linear solver has no test.', [M + 'vector_2d.rs', M + 'vector_3d.rs', M + 'matrix.rs', A + 'hcoordinate.rs'], [('component formulas', M + 'vector_2d.rs')], PURE)
na('C26', 'Dimension, location, position and quadrant symbols round-trip',
 'Converting between symbols and values of dimensions, locations, positions and quadrants is consistent and total on the documented values.',
 'all values', 'The tests do not cover them.', [G + 'dimension.rs', G + 'location.rs', G + 'position.rs', G + 'quadrant.rs'], [('constant tables', G + 'dimension.rs')], PURE + 'The use of the symbols in matrices is part of C05.')
