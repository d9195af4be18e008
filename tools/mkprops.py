#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
C='include/poly_ops/clip.hpp'; B='include/poly_ops/base.hpp'; O='include/poly_ops/offset.hpp'
D='include/poly_ops/polydraw.hpp'; L='include/poly_ops/large_ints.hpp'; M='include/poly_ops/mini_flat_set.hpp'
S='include/poly_ops/strided_itr.hpp'; SS='include/poly_ops/sweep_set.hpp'; RB='include/poly_ops/rbtree_algorithms.hpp'
PX='py/_polyops.pyx'; PC='py/common.pxd'; PI='py/__init__.pyi'
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('P01','Each operation keeps exactly the edges its definition calls for',
  'Whether an edge of the split input appears in the result of a boolean operation, and in which direction, depends only on the operation, the set (subject or clip) the edge belongs to and how many subject and clip regions it lies inside. Union keeps edges inside nothing; intersection keeps edges not nested in their own set that are inside the other set; xor keeps edges not nested in their own set, reversed when inside the other set; difference keeps un-nested subject edges outside clip, and un-nested clip edges inside subject, reversed; normalize keeps every edge, reversed at odd nesting depth. Every other edge is dropped.',
  ['inputs'],'every operation, both sets and every combination of subject and clip nesting counts, positive, zero or negative',
  'The tests use a handful of figures whose edges reach only small nesting counts, mostly one set at a time; the table has to hold for every pair of counts.',
  [C],[('line_balance::result',C),('calc_line_bal',C)],[('wn','per-set nesting count of the edge under test',C)])
p('P02','Nesting counts come from the edges above, per set, own edge excluded',
  'The nesting count of an edge in a set is the number of edges of that set directly above its start that point right minus the number that point left, where the edge itself is never counted and an edge that points left starts at minus one in its own set. Every edge that is counted, and no other, is also taken into account when deciding which loop contains which.',
  ['inputs'],'every edge under test, every other edge, either set, either direction',
  'Tests see only the final polygons of a few figures; a miscounted set or direction cancels out for most of them.',
  [C],[('line_balance constructor and check',C),('calc_line_bal scan over the sweep and touching edges',C)],[('wn','per-set nesting count',C),('samples hits','edges above the sample point',C)])
p('P03','An edge above a point is counted once, also at shared vertices and overlaps',
  'An edge is above the start of another edge exactly when the vertical ray from that start toward negative infinity crosses it; at an x coordinate where edges join, only edges on the side that the tested edge leaves toward count, so a chain of edges crossing the ray counts once. When the start lies on the other edge, the slopes decide; of two coincident edges that are not vertical exactly one is above the other, and of two coincident vertical ones at most one, only when both point the same way.',
  ['inputs'],'all positions of a point, a direction and a segment, including touching, collinear, coincident and vertical cases',
  'The degenerate cases (touching at a vertex, coincident and vertical edges) form a large case table and tests hit only a few of them.',
  [C],[('line_segment_up_ray_intersection, lower_angle, vert_overlap, hsign_of',C)])
p('P04','Sweep events are totally ordered: by x, then kind, then segment',
  'The left-to-right sweep handles events in a strict total order: increasing x coordinate first; at equal x, starts of vertical segments, then ends of other segments, then starts of other segments, then ends of vertical segments; then by the endpoints\' indices. Two different events never compare equal and the order is transitive and antisymmetric.',
  ['inputs'],'all pairs and triples of events',
  'Sorting with an inconsistent order misbehaves only for particular combinations of ties that the fixed test figures rarely contain.',
  [C],[('event_cmp',C),('event_type_t order',C)])
p('P05','Active segments are kept in a consistent vertical order',
  'Two segments that overlap in x and do not cross are ordered by which one is above the other, and the order of the two does not depend on which one is asked about first. Segments that coincide are still ordered, one way only, so no two different segments are ever taken for the same one.',
  ['inputs'],'all pairs of non-crossing segments, including shared endpoints, vertical and coincident segments',
  'Tie breaking decides only rare figures (shared starts, collinear overlaps); a wrong tie-break corrupts the active list only for particular inputs.',
  [C],[('sweep_cmp',C),('line_bal_sweep_cmp',C),('check uses triangle_winding',B)])
p('P06','Crossing segments are recognised and classified exactly',
  'Two segments that are not parallel are reported as intersecting exactly when they share a point and are not connected at an endpoint; two parallel ones exactly when they overlap along more than a point, unless they run between the same two points. The report says correctly for each of them whether that point is its start, its end, or strictly inside. When the point is an endpoint of either segment, the point reported is exactly that endpoint; when two coinciding segments are already connected at one end, the other end is reported.',
  ['inputs'],'all positions of two segments, including touching, T junctions, collinear overlaps and duplicates, in either order and direction',
  'There are dozens of touching/overlapping arrangements in both directions; the tests sample few.',
  [C],[('intersects',C),('intersects_parallel, is_edge, between, int_dot',C)])
p('P07','Orientation and winding direction have the documented sign',
  'The orientation of three points is positive exactly when they turn clockwise (y axis down), negative when counter-clockwise and zero when collinear, for every order in which the points are given. The winding direction of a polygon has the sign (and is twice the size) of its signed area, closing the loop back to its first point, and is zero for an empty range.',
  ['inputs'],'all triples of points; all point sequences',
  'Tests evaluate a few triangles; sign and closure errors show only for particular positions relative to the origin.',
  [B],[('triangle_winding',B),('winding_dir_sink, winding_dir',B)])
p('P08','Products of coordinates are formed in the double-width type',
  'No product of two coordinate differences, and no sum or difference of such products, is formed or held in a type narrower than the double-width type documented for the coordinate type, whenever its sign or value decides anything. Results are therefore exact for every coordinate whose differences fit in the coordinate type.',
  ['inputs'],'all coordinates up to the limits of the coordinate type',
  'Tests use small coordinates, for which a product formed in the narrow type gives the same answer.',
  [B,C],[('coord_ops::mul and long_coord_t uses',B),('intersects, sweep_cmp, line_segment_up_ray_intersection, int_dot',C),('intersects and x_intercept of the rasterizer',D)])
p('P09','The one-call functions equal the documented clipper sequence',
  'union_op, normalize_op and boolean_op (with or without a tracker) do exactly what their documentation says: build a clipper with the given tracker and memory resource, add the first range as subject and the second as clip, run the named operation with the requested kind of output and return its result. The add_loops_subject/clip and add_offset_subject/clip variants add to the set in their name with every other argument passed on unchanged.',
  ['inputs','configurations'],'all argument combinations, tree or flat output, with and without tracker or memory resource',
  'Tests call a few of the overloads with default arguments, mostly not checking which set, operation or resource reached the clipper.',
  [C,O],[('union_op, normalize_op, boolean_op, clipper/tclipper add_loops*',C),('add_offset, add_offset_subject, add_offset_clip',O)])
p('P10','A reused clipper behaves like a new one',
  'After a result was produced, adding new input or executing again first discards everything of the previous run, so that the result of any sequence of operations on one clipper equals the result a fresh clipper would give for the same input, including how intersection points are rounded and how input points are numbered. The tracker passed with the call is reset at the same moment. A clipper that is moved takes its input along, and the one moved from is like a new one.',
  ['histories'],'all sequences of add, execute and reset calls on one instance',
  'Tests execute each clipper once or twice; state leaking between runs needs particular histories to be seen.',
  [C],[('clipper::reset, do_op, execute, add_loop',C)],[('ran','a result was produced since the last reset',C)])
p('P11','A result taken from an rvalue clipper owns its data',
  'The range returned by execute on an rvalue clipper, or by any one-call function, stays valid after the clipper is gone: the points, loops, tree nodes and the tracker (when passed by value) it refers to are moved into it. The range returned by execute on an lvalue clipper refers to the clipper\'s own data.',
  ['programs','configurations'],'both kinds of execute, flat and tree output, with and without tracker, and moves of the returned range',
  'Use of a dangling reference often goes unnoticed in tests because the freed memory still holds the old values.',
  [C],[('execute &&, make_temp_polygon_range, make_temp_polygon_tree_range, make_tracked_points',C)])
p('P12','All working memory comes from the memory resource passed in',
  'When a memory resource is given, every container that grows while adding polygons, offsetting and executing allocates from that resource, and the default resource is consulted only when none was given. A clipper never allocates from the global heap.',
  ['inputs','configurations'],'all inputs and operations, flat and tree output',
  'The tests never pass a resource, and an allocation from the wrong one has no effect on the output.',
  [C,O],[('constructors of clipper, events_t, breaks_t; local pmr containers',C),('buffer in add_offset',O)])
p('P13','Independent instances share no mutable state',
  'Operations on different instances never read or write common mutable data: the library has no mutable global, static or thread-local variables, so distinct instances can be used from different threads without synchronisation.',
  ['schedules'],'all interleavings of operations on distinct instances',
  'The tests are single threaded.',
  [C,O,D,B,L,M],[('all headers',C)])
p('P14','Results are a deterministic function of the input',
  'The same sequence of calls with the same input gives the same output in every process and every run: rounding decisions come only from a generator with a fixed start, and nothing depends on addresses, time, environment, hashing or other ambient state.',
  ['inputs','configurations'],'all inputs, all processes',
  'Running a test again in the same environment gives the same ambient state; dependence on it appears elsewhere.',
  [C,O,D,B],[('rand_generator, rand_bool',C),('ordered maps keyed by coordinates',C)])
p('P15','Turning assertions on or off never changes results',
  'The conditions of the library\'s assertions only read: evaluating them changes no state, so a build with assertions disabled behaves the same as one with assertions enabled.',
  ['configurations'],'every assertion in every public header',
  'Tests run in one build configuration only.',
  [C,O,D,B,L,SS,M],[('POLY_OPS_ASSERT, POLY_OPS_ASSERT_SLOW and assert conditions',C)])
p('P16','Trackers hear of every point created by a split, in index order',
  'Each time a segment is split and a new point is stored, the tracker passed by the caller (if any) is told exactly once, at that moment, that a point was created between the two endpoints of the segment that was split; it is never told about a split that did not store a point. Hence the tracker\'s idea of the number of points always equals the clipper\'s.',
  ['inputs'],'all splits: any segment, any direction, touching or crossing',
  'Tests use one tracker on a few figures.',
  [C],[('split_segment',C)])
p('P17','Trackers hear of every added point, in order, with its input index',
  'For every loop that is kept, the tracker is told of each stored point once, in order, with the index of the input point it came from, also when notifications are delayed; for a loop that is dropped because it has fewer than three distinct points it is told of none. Input indices keep counting over skipped and dropped points.',
  ['inputs'],'all point sequences including duplicates, short loops and caller supplied indices',
  'The tests with trackers use clean polygons without duplicates or degenerate loops.',
  [C],[('point_sink::operator(), finalize_prev, ~point_sink',C)])
p('P18','Trackers are told of merges only for discarded real points',
  'While results are assembled, a tracker is told that a point was merged into its successor only for edges that are discarded, from each discarded point to the next real point of the loop; edges that are kept never cause a merge and temporary helper points, of which the tracker was never told, are never mentioned to it.',
  ['inputs'],'all states of consecutive edges, flat and tree output',
  'No test combines tree output with a tracker that keeps its own list of points.',
  [C],[('follow_balance',C),('insert_anchor_point',C)])
p('P19','Degenerate loops and duplicate points are dropped cleanly',
  'When adding a loop, consecutive equal points (including a last point equal to the first) are stored once, and a loop left with fewer than three points leaves nothing behind. Points of other loops added before are neither compared with nor changed.',
  ['inputs'],'all point sequences, any number of loops added before',
  'Tests add well-formed polygons.',
  [C],[('point_sink::operator(), finalize_prev, ~point_sink',C),('rasterizer point_sink',D)])
p('P20','Every documented public member can be used',
  'Every public function and member function of the library compiles when used as documented, for each supported coordinate type and index type, with and without tracker and for flat and tree output; clippers, trackers and results can be moved.',
  ['programs'],'all public functions and member functions; coordinate types of 16, 32 and 64 bits; several index types and input range kinds',
  'Templates that no test instantiates are never compiled; the tests leave many members uninstantiated.',
  [C,O,D,B,L,S],[('public API of every header',C)])
p('P21','The headers can be included from several source files of one program',
  'Including the library in any number of translation units of one program links without duplicate definitions, whichever subset and order of its headers they include.',
  ['programs'],'all headers, alone and in any order, in two or more translation units',
  'Each test executable consists of one translation unit.',
  [C,O,D,B,L,S,M],[('non-template functions and variables in headers',C)])
p('P22','Results model the range concepts they are documented to',
  'The result of execute is a random access, sized range of polygons; each polygon is a sized forward range of points of the documented value type that is borrowed; children of a polygon in tree output are again such ranges. This holds for every tracker and index type.',
  ['programs','configurations'],'all instantiations of result types',
  'Tests iterate with range-for only, which needs far less than the documented concepts.',
  [C],[('proto_loop_iterator, temp_polygon_proxy, iterator_facade, range_facade',C)])
p('P23','Strided iterators obey the laws of random access iterators',
  'For every stride (positive, negative) the iterators over strided data satisfy: a+n reaches the n-th next element, b-a is the number of increments from a to b, ordering agrees with b-a, [n] equals *(a+n), and decrementing undoes incrementing. A range over such data yields the points at the given strides in order.',
  ['inputs'],'all strides and distances',
  'The tests use positive strides only and never compare or subtract the iterators directly.',
  [S],[('strided_itr operators, blob_to_point_range(_range)',S)])
p('P24','Origin sets are sorted unions without duplicates or losses',
  'The set of original points tracked for an output point is the union of the sets of all the points merged into it: inserting or merging never loses or duplicates an index, keeps indices in ascending order, and reports the correct size and emptiness at all times; copying, moving, assigning and exchanging sets keep their elements, and the memory of a set is given back exactly once; merging goes from the discarded point into the surviving one.',
  ['inputs','histories'],'all sequences of inserts and merges of sets of any size',
  'Most sets in tests have one element; the transitions between representations are reached by few inputs.',
  [M,O],[('mini_flat_set',M),('origin_point_tracker',O)])
p('P25','Offset arcs never divide by zero and circles have at least three points',
  'For every magnitude and step size accepted, the number of points used to approximate an arc is only used as a divisor when it is more than one, and a single point offset outward always becomes a loop of at least three points; a single point offset by zero or inward adds nothing. A corner contributes an arc only on its outer side: with a positive magnitude at convex corners, with a negative one at concave ones.',
  ['inputs'],'all magnitudes, step sizes and corner angles, open and closed lines',
  'Only a few magnitude/step combinations are tested; the zero-step cases need tiny angles or big steps.',
  [O],[('add_offset_point, offset_lone_point',O)])
p('P26','Each fill rule decides from the winding number exactly as named',
  'A run of pixels with winding number w is drawn under the non-zero rule iff w is not 0, under the even-odd rule iff w is odd, under the positive rule iff w > 0 and under the negative rule iff w < 0, for every w including negative odd ones.',
  ['inputs'],'all winding numbers, all fill rules',
  'The tests draw figures with winding numbers of small absolute value and rarely negative ones.',
  [D],[('should_fill',D),('rasterizer::draw',D)])
p('P27','Rasterized spans stay inside the canvas and between their segments',
  'Every span passed to the caller has 0 <= x1 and x2 < width and 0 <= y < height, whatever the position of the polygons, including entirely outside the canvas; every row of the canvas is scanned once, in order, and a span reaches from one segment of its row to the next, to within a pixel, with the winding number that the segments to its left add up to.',
  ['inputs'],'all polygons, all canvas sizes',
  'Tests draw polygons that lie within the canvas.',
  [D],[('scan_line_sweep_state::operator(), to_coord',D)])
p('P28','A reused rasterizer behaves like a new one',
  'Drawing again, or adding polygons after drawing, never shows anything of a previous drawing that was replaced: adding after a drawing starts from an empty set of polygons, and drawing twice without adding draws the same.',
  ['histories'],'all sequences of add, draw and clear calls',
  'Tests use a new rasterizer for each image.',
  [D],[('rasterizer::clear, add_loop, scan_lines',D)])
p('P29','The rasterizer orders events and segments consistently',
  'Scan events are handled in order of increasing y and, at equal position, ends of segments before crossings before starts; segments that do not cross are ordered by their x position on the current scan line, and neither order depends on which of the two is asked about first. Comparison of the exact fractional positions is exact.',
  ['inputs'],'all pairs of events, segments and fractions',
  'Ties are rare in test images.',
  [D],[('event_cmp, sweep_cmp, whole_and_frac/fraction comparisons',D)])
p('P30','Python: selectors are validated before anything is changed',
  'Every Python function or method that takes an operation or a set selector rejects, with an exception, values other than the documented constants: no other value ever reaches the native code, and the exception is raised before an existing clipper object changes. An execution with nothing added may return an empty result whatever the selector.',
  ['inputs'],'all Python values passed as op or set',
  'Tests pass valid selectors only.',
  [PX],[('to_bool_op, to_bool_set and their callers',PX)])
p('P31','Python: every method adds to the set and runs the operation in its name',
  'In the Python module, union, normalize and boolean_op, and the add_loop(s)/add_offset(s) _subject and _clip methods of both clipper classes, use the set and operation that their name and arguments say, add each given array once and in the order given, pass magnitude, arc step size, open/closed and casting on unchanged, and a tracked clipper passes its tracker and gives access to its counter of original points. The native functions below do the same: they call the library with what they are given, and leave out nothing but empty arrays.',
  ['inputs','programs'],'all module functions and methods of both clipper classes',
  'Tests exercise a subset of the methods and mostly symmetric inputs.',
  [PX],[('module functions, Clipper, TrackedClipper',PX)])
p('P32','Python: objects are touched only while the GIL is held',
  'Native code of the Python module never calls into the Python or NumPy API, changes a reference count or touches an object between releasing and re-acquiring the interpreter lock, on normal and exceptional paths; every release is matched by a re-acquisition.',
  ['schedules','inputs'],'all paths through the native functions, with any other threads running',
  'Tests are single threaded; running without the lock goes unnoticed.',
  [PX,PC],[('gil_unlocker, cond_gil_unlocker and the scopes they cover',PX)])
p('P33','Python: C++ exceptions become Python exceptions',
  'No C++ exception raised by the library while adding polygons, offsetting or executing ends the process or passes through Cython code: each entry point of the native code, and each function of the library that Cython calls itself, either cannot throw or converts every exception into a Python exception and reports failure.',
  ['fault_sequences','inputs'],'all exceptions thrown by the library or the allocator on any path',
  'Allocation failures are not injected by the tests.',
  [PX,PC],[('try/catch in the noexcept helper functions',PX)])
p('P34','Python: reference counts balance on every path',
  'Each native helper of the Python module releases every reference it owns exactly once on every path, including all failure paths, and returns an owned reference or null with an exception set.',
  ['fault_sequences','inputs'],'all paths through the native helper functions including every failing API call',
  'Failures of the Python API are not injected by the tests, and leaks are not detected.',
  [PX],[('py_ref_owner, *_to_py helpers',PX)])
p('P35','Python: results have the documented type for each flag combination',
  'For each combination of tree output and point tracking, results are built with the documented tuple type and fields: bare loops; loop with children; loop with original points; or loop, children and original points.',
  ['configurations'],'all combinations of tree_out and track_points, functions and clipper classes',
  'Not all combinations are covered by tests.',
  [PX,PI],[('make_tracked_loop, make_recur_loop, make_tracked_recur_loop',PX)])
p('P36','Python: the casting rule and result dtype are honoured everywhere',
  'Every function and method that takes loops applies the casting rule given by the caller to each array it reads, None meaning same_kind, and the dtype of the result is the one asked for or else the promotion of the dtypes of all the arrays successfully added since the last result or reset, also by calls that failed half-way.',
  ['inputs','histories'],'all dtypes and casting rules, all call sequences',
  'Tests use one or two dtypes.',
  [PX],[('calc_dtype, decide_dtype, load_loop(s)',PX)])
p('P37','Python: arrays and step sizes are validated before native code reads them',
  'Every array passed to native code has been checked to be two-dimensional with two columns, and every arc step size to be at least one, on every path from a Python call to the native code; otherwise an exception is raised.',
  ['inputs'],'all arrays and step sizes',
  'Tests pass well-formed input.',
  [PX,PC],[('common.to_array, load_offset(s)',PX)])
p('P38','Python: type stubs and documented signatures agree with the module',
  'Each function, class, method and parameter (name, order, kind, having a default) declared in the type stubs exists with the same signature in the module and vice versa, and the signatures and default values given in the reference documentation are those of the module, for TrackedClipper those documented for Clipper.',
  ['programs'],'all public functions, classes and methods',
  'Nothing compares the stubs with the module.',
  [PX,PI],[('__init__.pyi',PI)])
p('P53','Python: arrays are read and written point by point',
  'A two-column array of any memory layout (including zero and negative strides) and any dtype read by the Python module gives exactly one point per row, in order, with x from the first column and y from the second, and the arrays returned are written the same way. The result tuples hold each loop once, in order, with its own points, and point maps hold the offsets of each point, starting at zero and ending with the total, and each point\'s indices in order.',
  ['inputs'],'all array layouts, lengths and results',
  'Tests use a few small, contiguous arrays.',
  [PX,PC],[('iter_array_points, array makers',PX)])
p('P54','Failures are reported to the caller, never fatal',
  'No exception that is thrown while loops are added or offset, an operation is executed, a result is iterated or a polygon is drawn ends the process: running out of memory at any allocation, and exceptions of trackers, of the iterators of input ranges and of a POLY_OPS_ASSERT that throws, reach the caller of the library.',
  ['faults','inputs'],'every allocation that can fail and every call of user code, on every path',
  'Tests never run out of memory and use no tracker, iterator or assertion that throws.',
  [C,D,'include/poly_ops/clip.hpp'],[('clipper::point_sink, proto_loop_iterator, POLY_OPS_ASSERT',C),('rasterizer::point_sink',D)])
p('P39','Multi-word integers compare, add and subtract exactly',
  'For multi-word integers of any number of words, ordering and equality agree with the numeric order of the values represented, in two\'s complement for signed types, and sums, differences and negation propagate carries through every word; assigning or converting to a type of more words keeps the value.',
  ['inputs'],'all values: every combination of word orderings, signs and carries',
  'Tests use random values, for which equal high words or long carry chains practically never happen.',
  [L],[('cmp, eq, add, sub, addcarry, subborrow, ar_add, ar_sub, abs, negative',L)])
p('P40','References into growing containers are not used after they grew',
  'No operation of the library uses a pointer or reference to an element of one of its containers after the container may have been reallocated because elements were added, on any path, including through the functions it calls.',
  ['inputs','histories'],'all paths through the library and all sizes at which a container is reallocated',
  'A dangling reference usually still reads the right value, and whether a container is reallocated at that moment depends on its size.',
  [C,D],[('clipper, follow_balance, loop assembly',C),('scan_line_sweep_state::operator(), rasterizer',D)])
p('P41','Polygons given to the rasterizer become closed rings',
  'The points given to the rasterizer for one loop, whether as a range or one at a time, are kept in order without repeats and closed from the last to the first point of that same loop; a loop of fewer than three different points leaves nothing behind, and loops given before are not changed.',
  ['inputs','histories'],'all loops and sequences of loops, including ones with repeated points and empty ones',
  'Tests draw figures without degenerate loops.',
  [D],[('rasterizer::point_sink',D),('rasterizer::add_loops',D)])
p('P43','Splitting a segment yields exactly its two halves',
  'When a segment is split at a point strictly inside it, it is taken out of the active segments and of the pending work, and replaced by exactly two segments, start to new point and new point to end, that keep its direction and the set it belongs to, both scheduled left end first; when the point is one of its endpoints, nothing changes and that endpoint is used.',
  ['inputs'],'all segments in either direction and any split point, including halves that become vertical',
  'Tests check final figures only; a half with the wrong set or direction matters in few of them.',
  [C],[('split_segment',C),('add_fb_events',C)])
p('P44','Segments that become neighbours are always tested for crossing',
  'During the sweep, whenever two segments become vertically adjacent, because one was inserted or the one between them was removed, they are tested for crossing before the sweep goes on, unless the insertion was undone because a split moved the sweep back; so no crossing is skipped.',
  ['inputs','schedules'],'all sequences of sweep events, including those where the sweep steps back',
  'Missing one of the three adjacency tests changes the output only for particular arrangements.',
  [C],[('self_intersection',C)])
p('P45','Kept and reversed edge runs are linked back into closed loops',
  'When a run of edges between two intersection points is kept, its first point becomes available as a loop continuation and its last edge is queued to be connected; when it is reversed, every edge of the run is turned around and both its ends are made available to be connected the other way; when it is dropped, none of it is. No run is both or neither.',
  ['inputs'],'all states of a run, all run lengths including one edge, with or without helper points',
  'Runs of one edge and reversed runs with helper points are rare in test figures.',
  [C],[('follow_balance',C),('do_op orphan handling',C)])
p('P46','Loops are reconnected by the sharpest clockwise turn',
  'When several edges could continue a loop at a point, the one that makes the greatest clockwise turn relative to the incoming edge is always chosen, independent of the order in which the candidates are stored.',
  ['inputs'],'all sets of two or more outgoing edges at a point and all directions of the incoming edge',
  'Few test figures have points where three or more loops touch.',
  [C],[('do_op selection among broken_starts',C)])
p('P47','Tree output nests a loop under the innermost loop around it',
  'In tree output every loop is in the tree exactly once: it is a top-level polygon iff no output loop contains it, and otherwise it is a child of the containing loop that itself has exactly one fewer containing loop, if there is one; a loop contains another iff the directed crossings of its edges by the ray from a point of the other do not cancel.',
  ['inputs'],'all arrangements of output loops and nesting depths',
  'Tests with tree output nest at most two or three levels.',
  [C],[('replace_line_indices_with_loop_indices, arrange_loops, find_loops',C)])
p('P48','Offset lines are moved to the documented side by the magnitude',
  'Each edge of an offset polygon is displaced along its left-hand normal direction scaled to the magnitude, so that positive magnitudes grow clockwise polygons and negative ones shrink them; both ends of an edge get the same displacement and each generated point is attributed to the input point it was made from. Every edge of a closed line is offset once and every edge of an open line once in each direction, repeated points aside; the points of an arc lead in equal steps around the corner from one edge to the next.',
  ['inputs'],'all edges, directions and magnitudes',
  'Tests compare a few areas with tolerances.',
  [O,B],[('add_offset_point',O),('perp_vector, vmag, vround',B)])
p('P49','Iterating an output polygon yields each of its points once',
  'Iterating over an output polygon visits as many points as its size says, starting at its first point and following the links of the loop, and the tracker is asked for the value of exactly the point visited; begin equals end only after that many steps.',
  ['inputs','programs'],'all output polygons of any size, any interleaving of pre- and post-increment',
  'Tests iterate in one way only.',
  [C],[('proto_loop_iterator, temp_polygon_proxy',C)])
p('P50','Rasterizer neighbours are always tested for crossing',
  'While scanning, whenever two segments become horizontally adjacent, by insertion, by removal of the one between them or by swapping, they are tested for a crossing ahead, so that the order of segments on each scan line is always by x position.',
  ['inputs'],'all sequences of scan events',
  'A missed test changes an image only for particular arrangements.',
  [D],[('scan_line_sweep_state::operator(), swap_and_check, check_intersection',D)])
p('P51','Going back in the sweep undoes exactly what was done',
  'When the sweep has to go back behind a point where it already was, because a split changed something there, each event it passes on the way back undoes what it did: segments it inserted are removed and segments it removed are inserted again, while events that were deleted in the meantime change nothing; going forward again repeats each of them exactly once.',
  ['schedules','inputs'],'all sequences of sweep events and splits',
  'Whether and how far the sweep steps back depends on rounding in particular inputs.',
  [C],[('events_t::next',C),('clipper::self_intersection',C)])
p('P52','Crossing segments are split at one point and each contact reconsidered',
  'When two segments are found to cross, each is split exactly as it was classified and both at one and the same new point, the caller is told whether something was split, and every point at which the two segments touch is marked so that its winding is computed again; when they do not cross, nothing changes.',
  ['inputs'],'every combination of crossing classifications',
  'Tests do not look at the intermediate state and only few combinations occur in them.',
  [C],[('clipper::check_intersection',C)])
# ---- not addressed by static analysis (see DESIGN.md)
p('P60','The covered region equals the set operation on the inputs',
  'A point not within rounding distance of an edge is inside the output of a boolean operation iff the set operation on its membership in subject and clip says so.',
  ['inputs'],'all polygons',
  'Tests compare areas of a few figures.',[C],[('clipper::execute',C)])
p('P61','Output edges never cross',
  'No two edges of the output of any operation cross; they may only touch at endpoints or overlap completely.',
  ['inputs'],'all polygons',
  'Random tests sample a few inputs.',[C],[('self_intersection',C)])
p('P62','Every operation terminates',
  'Every operation ends for every finite input, although splitting segments at rounded points can create new crossings.',
  ['inputs'],'all polygons','Tests only show termination on sampled inputs.',[C],[('self_intersection',C)])
p('P63','Offset outlines lie at the requested distance',
  'Every point of an offset outline is within rounding and arc approximation error of the requested distance from the input outline.',
  ['inputs'],'all polygons, magnitudes and step sizes','Tests check areas with tolerances.',[O],[('add_offset',O)])
p('P64','Multi-word division is exact',
  'Quotients and remainders of multi-word integers equal those of the exact values for every operand size, sign and modulo convention.',
  ['inputs'],'all operands','Tests use random values.',[L],[('divmod, unmul, udivmod_shift_sub',L)])
p('P65','The balanced tree behind the sweep stays ordered and balanced',
  'After any sequence of insertions and removals the tree behind the sweep holds exactly the elements put into it, in order: searching and stepping forwards and backwards find them, its first and last are known, parents and children agree, and red-black balance is kept. Inserting an equal element changes nothing and returns the one there is; inserting before an element puts the new one right before it; removing returns the element that came after.',
  ['histories'],'all operation sequences','Tests cover only the shapes that the sweep of some figures creates.',[RB,SS],[('rbtree_algorithms',RB),('sweep_set, tree_iterator, _node_traits',SS)])
p('P66','Rasterized pixels approximate the polygon',
  'A pixel is drawn iff the fill rule holds at its sampling position.',
  ['inputs'],'all polygons and canvas sizes','Tests draw a few figures.',[D],[('rasterizer::draw',D)])
p('P67','Intersection points are rounded to a neighbouring lattice point',
  'The point stored for an intersection differs from the exact intersection by less than one unit in each coordinate.',
  ['inputs'],'all crossing segments at all magnitudes','Tests use small coordinates for which floating point is exact enough.',[C],[('intersects',C)])
p('P68','Multi-word products and shifts are exact',
  'The product of two integers of any number of words (built-in or multi-word, signed or unsigned, in either order) equals the exact product, which the result type can always hold; shifting left or right by any amount smaller than the width, in place or not, gives the exact bits with the sign extended for signed types. This holds with and without compiler extensions.',
  ['inputs'],'all operands and amounts',
  'Tests multiply random values, which seldom meet long carries or the sign corrections of extreme values.',
  [L],[('mul, mul1x1, umulnx1, offset_mul_add, _shift_left, _shift_right',L)])
p('P69','Multi-word division applies signs and rounding as asked for',
  'For every sign and mix of signed and unsigned operands, truncating division (and the / operator) of multi-word integers is the unsigned division of the magnitudes with the signs put back, and the euclid convention rounds the quotient down and gives the distance of the exact quotient to it, times the size of the divisor, as the remainder; every word of the results is set. Division by one word with the division instruction, including unmul with a quotient of one word, gives the same results.',
  ['inputs'],'all operands and sign combinations',
  'Tests divide random values of equal signedness, mostly without the euclid convention.',
  [L],[('divmod, unmul, udivmod_long, divmod_each_word_long',L)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    if x['statement'].count('. ')>2: print(x['id'],'too many sentences?')
    assert len(x['title'])<=80,(x['id'],len(x['title']))
