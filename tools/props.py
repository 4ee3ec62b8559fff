#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

AT = ["ristra/atomics/src/atomics.h", "ristra/atomics/src/atomics-macro-class.h",
      "ristra/atomics/src/atomics-macro-class-prepost.h",
      "ristra/atomics/src/atomics-macro-function.h", "ristra/atomics/src/atomics-macro-function-prepost.h",
      "ristra/atomics/src/atomics-macro-member.h", "ristra/atomics/src/atomics-macro-member-prepost.h",
      "ristra/atomics/src/atomics-macro-operator.h", "ristra/atomics/src/atomics-macro-operator-prepost.h"]
APPLY = [("compare-and-swap loops, punned compare-and-swap, lock and native schemes", "atomics.h: apply / apply_pun")]

prop("A01", "Concurrent atomic updates are never lost, duplicated or torn",
 "When threads concurrently apply update operations (arithmetic, bitwise, shift, minimum/maximum, increment/decrement) to one atomic object through any of the library's synchronising schemes, any calling form and any supported value type, the final value is the result of applying every operation exactly once in some sequential order that respects each thread's program order. This holds on every interleaving, including spurious failures of weak compare-and-swap and operations of different compare-and-swap/native schemes mixed on one object.",
 ["schedules", "programs"], "every interleaving of 2-3 threads with 1-2 operations each, over every operation, scheme, calling form and value type",
 "The unit tests of the atomics part are single threaded printouts; a lost update needs a particular interleaving (or spurious failure) between the read and the write of one operation.",
 AT, APPLY, ["value of the atomic object after all threads finished"])
prop("A02", "Values returned by concurrent atomic operations are linearizable",
 "Every atomic update returns the object's value immediately after its own update (immediately before it, for post-increment and post-decrement), so all returned values and the final value together are explained by one sequential order of the operations that respects real time. This holds for all schemes, calling forms and value types and on every interleaving; in particular concurrent post-increments hand out distinct values.",
 ["schedules", "programs"], "every interleaving of 2-3 threads with 1-2 operations each, over every operation, scheme and calling form",
 "Single threaded tests cannot tell a value re-read after the update from the value the update produced.",
 AT, APPLY, ["return value of each operation"])
prop("A03", "Atomic operations compute exactly what the plain operator computes",
 "Executed alone, each atomic operation leaves the object with, and returns, exactly what the corresponding built-in operator or minimum/maximum on a plain variable of the same type gives, whatever the scheme (including the unsynchronised one), calling form (member, free function, operator, with or without memory orders, with the scheme overridden per call, on volatile objects), operand type and operand values. Construction, assignment, conversion, stream output and access to the stored value agree with that value.",
 ["inputs", "configurations"], "all operand pairs of 8-bit types and a boundary grid of wider, floating, pointer, mixed and user-defined types, over all operations, schemes and forms",
 "The blessed-output tests print a handful of operand values for a few types; wrap-around, sign, mixed-type and most form/scheme combinations are never evaluated.",
 AT, [("operation classes", "atomics-macro-class.h, atomics-macro-class-prepost.h"), ("forwarding forms", "atomics-macro-function*.h, atomics-macro-member*.h, atomics-macro-operator*.h")])
prop("A04", "Atomic operations provide at least the requested memory ordering",
 "An update given a release ordering publishes everything its thread wrote before it, an update given an acquire ordering sees what was published to the value it read, and updates given no ordering, or sequentially consistent ordering, take part in one global order; lock-scheme updates order everything before them with everything after later ones. No update introduces a data race of its own on the atomic object.",
 ["schedules", "configurations"], "all executions (interleavings and stale reads allowed by the C++ memory model as implemented by the explorer) of message-passing and store-buffering programs for every scheme, form and ordering argument",
 "Single threaded tests cannot observe ordering, and on x86 hardware most weakenings are invisible even to multi-threaded tests.",
 AT, [("forwarding of the ordering arguments", "atomics.h: apply, apply_pun, punxstrong, punxweak; atomics-macro-*.h")])
prop("A05", "Atomic operations always complete; unrelated objects do not block",
 "No set of concurrent operations deadlocks or livelocks: every operation finishes in every fair execution, and an operation of a compare-and-swap or native scheme finishes even if all other threads are suspended at arbitrary points. Lock-scheme operations on one object exclude one another, release the lock when done, and never wait for operations on objects whose types differ in value type or mutex number.",
 ["schedules", "programs"], "every interleaving of 2-3 threads on 1-2 objects, with every suspension point of the other threads",
 "A test run samples a few schedules; suspension of a thread inside an operation is not reproducible without a controlled scheduler.",
 AT, [("one mutex per atomic type", "atomics.h: singleton_mutex"), ("retry loops", "atomics.h: apply, apply_pun")])

prop("U01", "The fixed-capacity vector behaves as a bounded std::vector",
 "After any sequence of operations that stays within capacity, the fixed-capacity vector holds the same elements in the same order as a standard vector subjected to the same operations, and returns the same positions, references, sizes and comparison results; this includes inserting a copy of one of its own elements, empty ranges, copies and moves of the container, and element types that own resources. Checked access outside the elements throws, and no operation within capacity reads or writes outside the storage.",
 ["histories", "inputs"], "all operation sequences up to a small depth at capacities 1-4, for trivial and resource-owning element types",
 "The unit test runs one fixed scenario on trivially copyable elements.",
 ["ristra/utils/fixed_vector.h"], [("length bookkeeping and element shifting", "fixed_vector.h: insert, erase, resize, assign")])
prop("U02", "Array references and fixed strings denote exactly the wrapped elements",
 "A non-owning array reference and the fixed-size and constant strings give, through every accessor, iterator, sub-range, trimming operation and conversion, exactly the elements of the sequence they were made from, with sub-ranges clipped to the sequence and checked access throwing outside it. Converting a text that fits into a fixed-size string preserves it, and one that does not fit never writes outside the fixed-size string.",
 ["inputs", "histories"], "all source lengths up to 5 with all positions, counts (including huge ones) and trimming sequences; all texts around the capacity",
 "There are no tests of these classes in the build.",
 ["ristra/utils/array_ref.h", "ristra/utils/trivial_string.h", "ristra/utils/const_string.h"],
 [("bounds clipping", "array_ref.h: substr, at, remove_prefix, remove_suffix"), ("copy into the fixed buffer", "trivial_string.h: to_trivial_string")])
prop("U03", "Multidimensional array views address the element the index names",
 "A view over contiguous or strided storage maps every in-bounds multidimensional index to exactly one distinct element at the row-major (or given-stride) position; sections, partial indexing and slicing yield views of exactly the selected elements; sizes, bounds, containment tests and strides are consistent with that; and iterating over the bounds visits every index exactly once in row-major order, forwards, backwards and by random access.",
 ["inputs", "configurations"], "all shapes with extents 0..3 in rank 1-3, all origins and section shapes inside them, all indexes, all iterator offset pairs",
 "The array-view test is not part of the build, so nothing is tested.",
 ["ristra/utils/array_view.h", "ristra/utils/array_view_impl.h"],
 [("bounds, strides and iterator arithmetic", "array_view.h: bounds_iterator, static_bounds, contiguous_bounds, strided_bounds, array_view")])
prop("U04", "Zipped, tuple-wise and static iteration visits every position once, in order",
 "Iterating zipped containers visits the elements at equal positions together, in order, exactly once, referring to the originals, and zipping containers of unequal length is rejected or stops at the shortest; applying a function to tuple elements, static index ranges or task lists calls it once per element, in order, with the right element and index. Zipping tuples and converting tuples to arrays preserve every element; intersecting unsorted sequences gives the common elements, and removing adjacent duplicates keeps one of each run.",
 ["inputs", "histories"], "all container length combinations up to 4 for 1-3 containers; tuples and index ranges up to length 4",
 "The unit tests use one pair of equal, fixed-length containers.",
 ["ristra/utils/zip.h", "ristra/utils/zip_impl.h", "ristra/utils/tuple_for_each.h", "ristra/utils/tuple_zip.h", "ristra/utils/tuple_visit.h", "ristra/utils/tuple_to_array.h", "ristra/utils/static_for.h", "ristra/utils/tasks.h", "ristra/utils/template_helpers.h", "ristra/utils/functional.h", "ristra/utils/algorithm.h"],
 [("simultaneous iterator increment", "zip_impl.h"), ("recursive visitation", "tuple_for_each_impl.h, tuple_visit_impl.h, static_for.h")])
prop("U05", "String and path helpers are exact on every input",
 "Splitting a text at delimiters returns exactly the maximal delimiter-free pieces in order; replacing all occurrences replaces each non-overlapping occurrence left to right and terminates for every pattern; taking a path apart into directory, base name, stem and extension loses nothing and never takes a dot in a directory name for an extension; zero-padding, digit counting, wide-character conversion and the decomposition of seconds into days, hours and minutes agree with their definitions.",
 ["inputs"], "all strings up to length 5-7 over small alphabets that contain every special character, with all patterns/delimiters up to length 2",
 "These helpers have no tests in the build.",
 ["ristra/utils/string_utils.h", "ristra/utils/time_utils.h"],
 [("searching and cutting", "string_utils.h")])
prop("U06", "Dimensioned named arrays support element-wise arithmetic, also on themselves",
 "Element-wise arithmetic between dimensioned arrays, and between a dimensioned array and a scalar, computes each component from the operands' components before the operation, in compound and in plain form, also when both operands are the same object; named access, indexing, comparison and copying agree with the components.",
 ["inputs", "histories"], "all component values of a small grid in 1-3 dimensions, all operators, with distinct and identical operands",
 "No test in the build covers this class.",
 ["ristra/utils/dimensioned_array.h"], [("compound operators", "dimensioned_array.h")])

prop("U07", "Filtered iteration visits exactly the selected elements, once and in order",
 "A filter iterator over any range and predicate visits exactly the elements for which the predicate holds, each once and in the order of the range, whatever iterator operations (pre- and post-increment, dereference, arrow, copy, assignment, swap, comparison, conversion, construction from a position inside the range) are used and in whatever order; it never reads beyond the end of the range, it gives access to the element itself, and what it holds stays valid when the objects it was made from are gone.",
 ["inputs", "histories"], "all ranges up to a small length over selected/unselected elements, all starting positions, all sequences of iterator operations up to a depth, several underlying iterator and predicate kinds",
 "No test in the build covers this class.",
 ["ristra/utils/filter_iterator.h"], [("advancing to the next selected element", "filter_iterator.h")])
prop("U08", "Type traits classify types as they are named and documented",
 "The type traits (callable, iterator, container, tuple-like, array and associative detection, conjunction/disjunction helpers, function traits, extent and element extraction) give for every type of a systematic family (scalars, pointers, references, cv variants, standard containers, near-miss classes lacking a single required member) the answer their documentation states, and never fail to compile for a type to which the question applies.",
 ["inputs"], "all traits on all types of a systematically generated family",
 "The unit tests evaluate a handful of types.",
 ["ristra/utils/type_traits.h", "ristra/utils/type_traits_impl.h", "ristra/compatibility/type_traits.h"], [("traits", "type_traits.h")])

prop("M01", "Vector arithmetic is component-wise exact for all operands and aliasing",
 "For points, vectors and tuples of any dimension and element type, each arithmetic operator, in plain and compound form, with vector or scalar on either side, gives in every component the result of the scalar operator on the operands' original components, also when operands alias; comparison, indexing, filling, conversion and output agree with the components. Dot product, cross product, magnitude, normalisation, projection and triple product equal their definitions.",
 ["inputs", "histories"], "all component combinations of a small value grid (including negative, zero and non-dividing integers) in dimensions 1-4, all operators, all alias patterns",
 "The unit tests check a few floating point values without aliasing.",
 ["ristra/math/array.h", "ristra/math/vector.h", "ristra/math/tuple.h", "ristra/geometry/point.h", "ristra/geometry/space_vector.h", "ristra/math/general.h"],
 [("operator loops", "math/array.h, math/tuple.h, geometry/point.h, geometry/space_vector.h")])
prop("M02", "Multi-dimensional arrays address, convert and combine elements exactly",
 "In a multi-dimensional array of any shape every index tuple denotes a distinct element in row-major layout, and construction from nested or flat data, fills, copies, conversion, element-wise and scalar arithmetic, comparison, and iteration act on exactly those elements; the row-major and column-major orderings give the strides their names promise.",
 ["inputs", "configurations"], "all shapes with extents 1..3 in rank 1-3, all index tuples, all operators on a value grid, with aliasing",
 "The unit test uses a single 2x2 shape.",
 ["ristra/math/multi_array.h"], [("index flattening", "multi_array.h")])
prop("M03", "Small-matrix algebra satisfies the definitions of linear algebra",
 "For square and rectangular small matrices, matrix-matrix and matrix-vector products (plain and accumulate-with-scaling forms), outer product, double-dot product, transpose, trace, determinant, inverse, norms, linear solves, rotation, reflection and exponential equal their mathematical definitions, including for zero and diagonal matrices and when both inputs are the same matrix; the product with the inverse is the identity whenever the matrix is invertible.",
 ["inputs"], "all matrices with entries from a small integer set in dimensions 1-3 and all scalar factors from a small set, against exact integer/rational evaluation",
 "The unit tests evaluate one or two matrices per function.",
 ["ristra/math/matrix.h", "ristra/math/multi_array.h"], [("index loops and closed formulas", "matrix.h")])
prop("M04", "General math helpers match their definitions on all inputs",
 "Absolute value, square, cube, sign, minimum and maximum (of scalars, ranges and vectors element-wise), averages, dot products and normals return their mathematical definition for every input, including ties, negative values and single-element ranges.",
 ["inputs"], "all value tuples of a small grid for every helper and arity",
 "Only incidental use in other tests.",
 ["ristra/math/general.h", "ristra/math/general_impl.h", "ristra/math/constants.h"], [("helpers", "general.h")])

prop("G01", "Planar areas, centroids, midpoints and normals are exact and orientation-true",
 "For every simple polygon (given as points, a list of coordinates or an element range, of any size), the computed area, centroid and midpoint equal the exact ones, whichever vertex is listed first; reversing the vertex order keeps centroid and midpoint; the normal of an edge is the edge turned left by a right angle; the normal of a planar polygon carries its signed area (counter-clockwise positive); point lists that are not two-dimensional are rejected; triangle and quadrilateral functions agree with the general polygon ones.",
 ["inputs"], "all simple triangles, quadrilaterals and pentagons on a small integer lattice, all starting vertices, both orientations, several translations, against exact rational arithmetic",
 "The unit tests evaluate single example shapes.",
 ["ristra/geometry/area.h", "ristra/geometry/area_impl.h", "ristra/geometry/centroid.h", "ristra/geometry/centroid_impl.h", "ristra/geometry/normal.h", "ristra/geometry/shapes/triangle.h", "ristra/geometry/shapes/quadrilateral.h", "ristra/geometry/shapes/polygon.h"],
 [("shoelace sums", "area.h, centroid.h, polygon.h, triangle.h, quadrilateral.h")])
prop("G02", "Surface areas, volumes and centroids of 3D shapes are exact",
 "For every convex planar polygon in space (three points or more) the area, normal and centroid are exact, and for every tetrahedron, planar-faced hexahedron and planar-faced polyhedron built from its faces the volume and centroid are exact, independent of face order, of starting vertices and of translation; permuting the description of the same body never changes the result.",
 ["inputs", "histories"], "all non-degenerate tetrahedra on a small lattice, all unimodular-type parallelepiped and frustum hexahedra of a family, all face orders and rotations",
 "The unit tests evaluate single example shapes.",
 ["ristra/geometry/shapes/tetrahedron.h", "ristra/geometry/shapes/hexahedron.h", "ristra/geometry/shapes/polyhedron.h", "ristra/geometry/shapes/polygon.h", "ristra/geometry/shapes/triangle.h", "ristra/geometry/shapes/quadrilateral.h"],
 [("signed tetrahedron decomposition", "tetrahedron.h, hexahedron.h, polyhedron.h")])

prop("E01", "Quadrature rules integrate all polynomials of their degree exactly",
 "Each tabulated quadrature rule has its points inside the reference interval or cell, positive weights summing to the cell measure, and integrates every polynomial up to the degree its family guarantees exactly (to rounding), in one, two, three and four dimensions and for every number of points offered.",
 ["configurations", "inputs"], "every rule offered and every monomial up to the guaranteed degree",
 "All checks in the elements test are switched off; it asserts nothing.",
 ["ristra/elements/elements.h", "ristra/elements/elements.cc"], [("tabulated nodes and weights, tensor products", "elements.cc: lobatto_nodes_1D, lobatto_weights_1D, legendre_*, *_ND")])
prop("E02", "Shape functions are nodal, sum to one and match their derivatives",
 "For every element type the shape function of a node is one at that node and zero at all others, the functions sum to one everywhere, each reported partial derivative is the derivative of the corresponding function everywhere in the cell, and the physical position interpolates the vertices.",
 ["configurations", "inputs"], "every element type and order; full tensor grids of reference points large enough to determine the polynomials uniquely",
 "All checks in the elements test are switched off; it asserts nothing.",
 ["ristra/elements/elements.h", "ristra/elements/elements.cc"], [("basis and partial_* formulas", "elements.cc: Quad4, Quad8, Quad12, QuadN, Hex8, Hex20, Hex32, HexN, Tess16")])
prop("E03", "Jacobians, their determinants and inverses are consistent for every cell map",
 "The Jacobian assembled from nodal coordinates and shape-function derivatives is the derivative of the physical position, its determinant equals the mathematical determinant, and the inverse times the Jacobian is the identity for every invertible Jacobian, in two, three and four dimensions; sizes of no other dimension's storage are touched.",
 ["inputs", "configurations"], "all vertex perturbations of the reference cells on a small lattice and all small-integer matrices in dimensions 2-4",
 "All checks in the elements test are switched off; it asserts nothing.",
 ["ristra/elements/elements.h", "ristra/elements/elements.cc"], [("jacobian assembly and cofactor formulas", "elements.cc: jacobian, jacobian_2d/3d/4d, jacobian_inverse_*")])

prop("I01", "Inputs resolve from the highest-priority source that provides them",
 "For every registered target, resolving inputs yields the value from the first source in priority order that provides it (hard-coded values serving as defaults behind the Lua source); resolution reports success exactly when every target obtained a value, names exactly the unresolved ones, and can be repeated: after sources or registrations change, a further resolution reflects the current ones, and a target no source provides any more keeps its earlier value.",
 ["histories", "configurations"], "all histories up to a small depth of registering targets of several kinds, adding/removing values and sources, resolving, reading and clearing",
 "The unit test follows one fixed registration/resolution path.",
 ["ristra/initialization/input_engine.h", "ristra/initialization/input.h", "ristra/initialization/inputs_impl.h", "ristra/initialization/input_source.h", "ristra/initialization/init_value.h"],
 [("registry, resolution and failure bookkeeping", "input_engine.h")])
prop("I02", "Input sources hand out faithful values, repeatedly and independently",
 "A value registered in or written in an input source is returned unchanged by every lookup, however often and in whatever order values are looked up, and looking up one key never changes another; a key the source does not provide is reported as missing, not as a wrong value; functions read from a source compute the same results as the original.",
 ["histories", "inputs"], "all lookup sequences up to a small depth over hard-coded and Lua sources with scalars, text, arrays and functions, present and missing keys",
 "The unit test reads each value once.",
 ["ristra/initialization/input_source.h", "ristra/embedded/embed_lua.h"], [("lookup", "input_source.h: hard_coded_source_t, lua_source_t")])
prop("I03", "Command-line parsing reproduces the given arguments, in every order",
 "For every combination and order of long, short, valued, flag and unknown arguments, parsing returns for each registered option exactly the value given (or none), reports help and errors as documented, and repeats identically when invoked again on the same arguments.",
 ["inputs", "histories"], "all argument vectors up to length 4 over an alphabet of valid, abbreviated, valued, missing-value and unknown arguments, parsed once and twice",
 "No test in the build calls the parser with more than one command line.",
 ["ristra/initialization/arguments.h"], [("registration and parsing", "arguments.h")])

prop("L01", "Values cross the Lua boundary unchanged or are rejected",
 "Every integer, real, boolean, text (of any bytes) and array value pushed to Lua or read from a Lua script arrives with the same value and length; a value that the requested type cannot represent, or of another kind, is rejected with an error instead of silently altered. Lua's own conversions between numbers and numerals count as the same kind, and reals are rounded to the requested precision.",
 ["inputs"], "boundary values of every supported type, all short byte strings over an alphabet with the null byte, nested tables of all shapes up to 3x3",
 "The unit test reads a few well-typed values.",
 ["ristra/embedded/embed_lua.h"], [("typed conversions", "embed_lua.h: lua_value, lua_push")])
prop("L02", "Lua lookups and calls leave the interpreter balanced and results valid",
 "Any sequence of table lookups, conversions, calls and failed operations (missing keys, wrong types, script errors) leaves the interpreter's stack as it was once the results are gone, keeps values obtained earlier valid and unchanged, and never corrupts the interpreter; copies and moves of results stay valid after the original is gone.",
 ["histories", "fault_sequences"], "all operation sequences up to a small depth over lookups, calls, conversions, failures, copies and destruction in every order",
 "The unit test performs one linear sequence of successful lookups.",
 ["ristra/embedded/embed_lua.h"], [("reference counting of interpreter slots", "embed_lua.h: lua_ref_t, lua_result_t, lua_t")])
prop("L03", "Lua functions called from C++ receive all arguments and return all results",
 "Calling a Lua function, directly or through a callable wrapper, passes every argument in order with its value, returns every result in order with its value, propagates script errors (and calls that return nothing, or nil as the last result) as C++ errors, and gives the same answer on every later call, also when wrapper objects are copied or outlive the lookup that produced them.",
 ["inputs", "histories"], "all argument/result counts up to 4 with all type combinations of a small set; all orders of wrapper copy, destruction and call",
 "The unit test calls one function.",
 ["ristra/embedded/embed_lua.h", "ristra/initialization/input_source.h"], [("call protocol", "embed_lua.h: lua_result_t::operator(), Lua_Func_Wrapper")])
prop("P01", "Python calls and conversions are faithful and leave no pending error",
 "Integers and reals passed to Python functions arrive unchanged and in order, results (and elements of result tuples) come back unchanged, an integral real being readable as an integer; lookups of missing modules or names, script exceptions and ill-typed results are reported as C++ errors, and after any such failure later operations work as if it had not happened.",
 ["inputs", "histories", "fault_sequences"], "all sequences up to a small depth of successful and failing imports, lookups, calls and conversions; boundary values of each type",
 "The unit test makes one successful call.",
 ["ristra/embedded/embed_python.h"], [("error translation", "embed_python.h")])

prop("D01", "Contract checks fire exactly when enabled and violated",
 "In every build configuration an enabled precondition, postcondition, invariant or always-on check evaluates its condition once, does nothing when it holds and triggers the configured action (throw, notify or nothing) with the failing condition and location when it does not; a disabled check has no effect at all. Comparison-style checks decide exactly the relation their name says (and still return it when disabled), and the checks build configuration options select the behaviour they document.",
 ["configurations", "inputs"], "all combinations of enable flags and actions, all checks, all operand orderings of a small grid",
 "The unit tests cover single configurations and one failing and one passing condition each.",
 ["ristra/assertions/dbc.h", "ristra/assertions/dbc_impl.cc", "ristra/assertions/dbc_impl.h", "ristra/ristra-config.h.in", "CMakeLists.txt"],
 [("macros selected by the configuration", "dbc.h")])
prop("D02", "Error-reporting macros and exceptions report and stop exactly as documented",
 "The error macros throw (or abort when exceptions are disabled) exactly when their condition says so with the given message and location, warnings print and continue, and exception types carry the message and are caught by their documented base types, in every configuration.",
 ["configurations", "inputs"], "all macros, all condition values, both exception configurations",
 "Not tested except through one path.",
 ["ristra/assertions/errors.h", "ristra/assertions/exceptions.h", "ristra/assertions/here.h"], [("macros", "errors.h, exceptions.h")])
prop("I04", "The input file object answers from the file last loaded",
 "After any history of loading input scripts, values read through the input object are those the loaded scripts gave, missing names are reported as errors by the checked accesses (also where a checked access is part of a larger expression), the reported file name is that of the last script loaded successfully, a script that fails to load is reported as an error and leaves the object usable, and the shared instance is one object.",
 ["inputs", "histories"], "all histories of up to 4 operations over loading (succeeding and failing), reading, testing and registering",
 "No test loads more than one file, or a failing one.",
 ["ristra/initialization/input.h", "ristra/embedded/embed_lua.h"], [("loading and checked access", "input.h: load, try_access, inputs_try_access; embed_lua.h: lua_try_access")])
prop("C01", "In-situ visualisation output mirrors the mesh and fields it is given",
 "The visualisation adaptor hands exactly the points, owned cells (with their faces oriented outward) and fields of the given mesh, in two and three dimensions, to the grid; each time step is offered to the pipelines of all given scripts in order with its time and number, output being forced in the last step; grid builders can be reset and reused without touching grids built before; files are written with the grid, name and pieces asked for.",
 ["inputs", "histories"], "all small meshes with all orientations and ownership patterns; all sequences of builder operations up to length 4; all short runs", "Never built or tested here.",
 ["ristra/io/catalyst/adaptor.h", "ristra/io/catalyst/vtk/unstructuredGrid.h", "ristra/io/catalyst/flecsale_unstructuredGrid.h"], [("grid construction", "unstructuredGrid.h, flecsale_unstructuredGrid.h"), ("time steps", "adaptor.h")])
prop("C02", "In-situ helpers: script lists, comparisons, timers and logs are exact",
 "The script list of an input file is returned completely, in order and relative to the file's directory; text replacement replaces the first occurrence and nothing else; two files compare equal exactly when their bytes are equal; two images match exactly when their shapes agree and at most two per cent of the samples differ; a timer reports the time between its last start and the stop after it, independently of other timers, and -1 when there is none; logs write exactly what was logged to the file named last.",
 ["inputs", "histories"], "all small texts, files, images and script lists; all histories of timer operations up to length 6 and log operations up to length 4", "Never built or tested here.",
 ["ristra/io/catalyst/utils/catalystUtils.hpp", "ristra/io/catalyst/utils/insituTimer.hpp", "ristra/io/catalyst/utils/insituLog.hpp"], [("helpers", "catalystUtils.hpp"), ("timers", "insituTimer.hpp"), ("logs", "insituLog.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
