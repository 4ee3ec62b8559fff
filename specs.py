"""What each check builds and runs.  {repo}, {mc}, {b} are substituted by check.py."""
AT_TYPES = 11
def atoms(mode, rule, bounds, assumptions):
    def spec(tier):
        units = [{"src": "{mc}/atoms_t.cc", "obj": "t%d.o" % t,
                  "flags": ["-std=gnu++17", "-w", "-O1", "-fsanitize=thread", "-DTY=%d" % t, "-I{mc}", "-I{repo}/ristra/atomics/src"]} for t in range(AT_TYPES)]
        units.append({"src": "{mc}/atoms_main.cc", "obj": "m.o", "flags": ["-std=gnu++17", "-w", "-O2", "-I{mc}"]})
        units.append({"src": "{mc}/mcrt.cc", "obj": "mcrt.o", "flags": ["-std=gnu++17", "-w", "-O2", "-fPIC", "-I{mc}"]})
        return {"units": units,
                "progs": [{"exe": "h", "args": ["--mode", mode], "parts": 8,
                           "link": ["-Wl,-rpath,{b}", "{b}/m.o"] + ["{b}/t%d.o" % t for t in range(AT_TYPES)] + ["{b}/libmcrt.so", "-o", "{b}/h"]}],
                "prelink": [["-shared", "{b}/mcrt.o", "-o", "{b}/libmcrt.so"]],
                "probe": [{"code": "#include <iostream>\n#include \"atomics.h\"\n", "flags": ["-std=gnu++14", "-w", "-I{repo}/ristra/atomics/src"]}],
                "rule": rule, "bounds": bounds[tier], "assumptions": assumptions}
    return spec
AT_ASSUME = ["scheduling points: every atomic access, every plain access to the objects or to global data, every mutex operation (compiler instrumentation of the real headers)",
             "spurious weak compare-and-swap failures bounded per execution; x86-64, g++ code generation"]
def a03(tier):
    n = 14
    return {"units": [{"src": "{mc}/a03_t.cc", "obj": "t%d.o" % t, "flags": ["-std=gnu++17", "-w", "-O0", "-fwrapv", "-DTY=%d" % t, "-I{mc}", "-I{repo}/ristra/atomics/src"]} for t in range(n)] +
                     [{"src": "{mc}/a03_main.cc", "obj": "m.o", "flags": ["-std=gnu++17", "-w", "-O1", "-I{mc}"]}],
            "progs": [{"exe": "h", "parts": 8, "link": ["{b}/m.o"] + ["{b}/t%d.o" % t for t in range(n)] + ["-latomic", "-pthread", "-o", "{b}/h"]}],
            "probe": [{"code": "#include <iostream>\n#include \"atomics.h\"\n", "flags": ["-std=gnu++14", "-w", "-I{repo}/ristra/atomics/src"]}],
            "rule": "every operation, scheme, calling form, memory-order argument and operand pair of the grids is executed and compared with the plain operator; a case is one operand pair of one operation/scheme/type",
            "bounds": "8-bit types: all operand pairs (member form), boundary grids (all forms); wider, floating, pointer, bool and user-defined types: boundary grids in all forms",
            "assumptions": ["operands for which the plain operator is undefined are left out; signed overflow wraps (-fwrapv)"]}
LUA = ["-I/usr/include/lua5.3"]; PY = ["-I/usr/include/python3.12"]
INC = ["-I{mc}", "-I{repo}", "-I{b}/cfg"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
def seq(src, rule, bounds, headers, variants=({},), assumptions=(), std="c++17", opt="-O1", san=SAN, inc=(), libs=(), extra=(), parts=8, config=None, threads=None, configs=None, cmake=None):
    """Bounded-exhaustive harness on the real code; one program per variant (name -> defines)."""
    def spec(tier):
        fl = ["-std=" + std, "-w", opt, "-g1", "-ftrivial-auto-var-init=pattern"] + list(san) + INC + list(inc)
        units, progs = [], []
        for e in extra:
            units.append({"src": e[0], "obj": e[1], "flags": fl + list(e[2])})
        vs = variants(tier) if callable(variants) else variants
        for k, v in enumerate(vs):
            df = ["-D%s=%s" % kv for kv in v.items() if kv[0] not in ("src", "cfg")]
            units.append({"src": "{mc}/" + v.get("src", src), "obj": "v%d.o" % k, "flags": (["-I{b}/" + v["cfg"]] if "cfg" in v else []) + fl + df})
            progs.append({"exe": "h%d" % k, "parts": parts, "link": list(san) + ["{b}/v%d.o" % k] + ["{b}/" + e[1] for e in extra] + list(libs) + ["-o", "{b}/h%d" % k]})
        return {"units": units, "progs": progs, "rule": rule, "bounds": bounds[tier] if isinstance(bounds, dict) else bounds, "assumptions": list(assumptions), "config": config, "configs": configs or {}, "cmake": cmake or {},
                "probe": [{"code": "".join('#include %s\n' % h for h in headers), "flags": ["-std=" + std, "-w"] + INC + list(inc)}]}
    return spec
STDH = ["<%s>" % h for h in "vector algorithm iterator tuple array cmath cassert string stdexcept utility functional numeric sstream iostream typeinfo".split()]
SPECS = {
 "U01": seq("u01.cc", "every sequence of operations that stays within capacity, from every constructor and every initial length, executed on the real class and on std::vector; contents, positions, accessors, comparison, guard words and element lifetimes compared after every step",
   {"quick": "capacity 4: all sequences of 2 operations (about 100 operations per state), capacity 2: 3 operations; 5 element types (scalar, owning, string, byte, struct) plus move-only; in-place construction from every argument form; 12 operations at capacities around 2^8 and 2^16; checked positions up to 2^62",
    "thorough": "capacity 3 and 4: 3 operations; capacity 5: 2 operations"}, ["<stdexcept>", '"ristra/utils/fixed_vector.h"'],
   variants=lambda t: [{"TY": k, "CAP": 4} for k in (0, 1, 2, 3, 4)][: 5 if t == "quick" else 2] + [{"TY": k, "CAP": 2} for k in (0, 1)] + ([] if t == "quick" else [{"TY": 1, "CAP": 3}, {"TY": 2, "CAP": 3}, {"TY": 4, "CAP": 3}, {"TY": 0, "CAP": 5, "DEPTH_T": 2}]),
   assumptions=["elements added by size-only construction or resizing have unspecified values", "the source of a container move is only required to stay assignable and destructible"]),
 "U02": seq("u02.cc", "every source sequence, accessor, position, count and trimming sequence executed on the real classes and compared with std::string/std::vector; guard words around the fixed buffers",
   "all lengths up to 5, all positions and counts (including huge ones), all trimming sequences, all texts around the capacity", ["<stdexcept>", '"ristra/utils/array_ref.h"', '"ristra/utils/trivial_string.h"', '"ristra/utils/const_string.h"']),
 "U03": seq("u03.cc", "every shape, stride, origin, section, slice and index of the grids; addresses, bounds, iteration (all offset pairs) and comparison checked against index arithmetic",
   {"quick": "extents 0..5 (rank 1), 0..3 (rank 2), 0..2 (rank 3), 1..2 (rank 4), ranks 5 and 6 on selected shapes, all origins/sections/indexes/iterator pairs; all pairs of 2x2 binary contents; extents around 2^7, 2^8, 2^16; addresses only for up to 2^34 elements", "thorough": "extents 0..6, 0..4, 0..3, 0..2"},
   ["<stdexcept>", '"ristra/utils/array_view.h"'], variants=[{"SEC": k} for k in (8, 9, 6, 5, 7, 3, 2, 1, 4, 0)],
   assumptions=["ordering of multidimensional indexes by < and > is not part of the property (only <= and >= component-wise)"]),
 "U04": seq("u04.cc", "every combination of container kinds and lengths walked in six ways, every tuple kind, static range, multiset pair; visited addresses, values and call counts compared with the definition, with the library's own argument checks on and off",
   {"quick": "1-4 containers with lengths up to 6 (1-2 containers), 4 (3), 3 (4); tuples up to 5 elements; multisets over 3 values up to size 4", "thorough": "lengths up to 8/5/4, 5 containers, multisets up to size 5"},
   STDH + ['"ristra/utils/zip.h"', '"ristra/utils/tasks.h"', '"ristra/utils/tuple_zip.h"', '"ristra/utils/static_for.h"', '"ristra/utils/algorithm.h"'], variants=[{}, {"NDEBUG": 1}],
   assumptions=["containers of unequal length may be rejected by an assertion"]),
 "U05": seq("u05.cc", "every string of the grids given to every helper and compared with a direct definition",
   {"quick": "all strings up to length 5-6 over alphabets of 3-4 characters that contain the special ones, all patterns and delimiter sets up to length 2, all widths and numbers of the grids", "thorough": "one character longer"},
   STDH + ['"ristra/utils/time_utils.h"', '"ristra/utils/string_utils.h"'], assumptions=["C.UTF-8 locale"]),
 "U06": seq("u06.cc", "every operator on every operand pair of the grid, with distinct and identical operands", "1-3 dimensions, values of a small grid, 3 element types", STDH + ['"ristra/utils/dimensioned_array.h"']),
 "U07": seq("u07.cc", "every range, predicate, starting position and sequence of iterator operations on the real class and on a list of the selected positions; visited addresses, comparisons and predicate calls beyond the end checked",
   "ranges up to length 6 (all selection patterns), all starting positions, operation sequences up to depth 4 on two iterators, vectors, lists, forward lists and pointers; exchange and assignment of iterators over one range", STDH + ['"ristra/utils/filter_iterator.h"']),
 "U08": seq("u08.cc", "every trait evaluated on every type of the family and compared with the documented classification", "about 60 types x cv/reference variants, near-miss classes lacking one member each, ref-qualified operators, arrays and functions that decay, names of up to 130 nested templates", STDH + ["<map>", "<set>", "<list>", '"ristra/utils/type_traits.h"'],
   variants=[{"SEC": k} for k in range(4)], san=[], opt="-O0"),
 "M01": seq("m01.cc", "every operator and function on every operand combination of the grids, in plain, compound and aliased form, against the scalar operator applied to the original components",
   {"quick": "dimensions 1-4, all vectors over a grid of 3-5 values (pairs up to 10^3-10^4 per type), int/double/float mixed element types; floating operands scaled by powers of two from 2^-300 to 2^300; both zeros, infinities and not-a-number in every component; positions up to 2^63", "thorough": "larger grids"}, STDH + ['"ristra/math/vector.h"', '"ristra/math/general.h"', '"ristra/math/tuple.h"', '"ristra/geometry/space_vector.h"'],
   variants=[{"SEC": k} for k in range(5)], std="c++20", assumptions=["floating division may go through the reciprocal (relative tolerance of a few ulp); everything else exact"]),
 "M02": seq("m02.cc", "every shape and index tuple of the grids; every operator on every content over a value grid, against element-wise scalar evaluation",
   {"quick": "rank 1-4, extents up to 6 (rank 1), 4 (rank 2), 3 (rank 3), 2 (rank 4), up to 300 elements in selected shapes; contents over 2-4 values; both zeros, infinities and not-a-number in every element; positions up to 2^63", "thorough": "larger pair grids"}, STDH + ["<iostream>", "<sstream>", '"ristra/math/multi_array.h"'],
   variants=[{"SEC": k} for k in range(5)], assumptions=["the layout of the stream output is not specified", "floating division may go through the reciprocal"]),
 "M03": seq("m03.cc", "every matrix (and pair, triple of operands) over small integer sets, every function, against exact integer/rational evaluation",
   {"quick": "all matrices of dimension 1-4 within the stated entry sets; all scalar factors of a small set; dimension 5 and 6 on selected patterns, all permuted diagonals of dimension 7, rectangular shapes up to 130 rows or columns with all factor pairs; all scalings by powers of two (2^-300..2^300, also per row), exponentials of norms 2^-70 to 400, rotations by angles of 2^-300..2^20", "thorough": "larger entry sets"}, STDH + ["<iostream>", '"ristra/math/general.h"', '"ristra/math/matrix.h"'], variants=[{"SEC": k} for k in (6, 2, 0, 1, 3, 4, 5)],
   assumptions=["inverse and rotation compared to 1e-9 relative, exponential to 4e-14"]),
 "M04": seq("m04.cc", "every helper on every value tuple of the grids, against its definition",
   "arity 1-5, ranges up to length 5, grids with negative, zero, tied and non-dividing values; extremes of the type, powers of two over the exponent range; ranges of different element types", STDH + ['"ristra/math/general.h"', '"ristra/math/vector.h"']),
 "G01": seq("g01.cc", "every simple polygon on the lattices, from every starting vertex and in both orientations, translated, through every calling form; area by Pick's theorem, centroid by exact signed triangulation",
   {"quick": "triangles on 5x5, quadrilaterals on 4x4, pentagons and hexagons on 3x3 lattices, 1-3 translations, float/double/long double; shapes scaled by powers of two over the exponent range", "thorough": "triangles on 6x6, pentagons on 4x4"},
   STDH + ['"ristra/geometry/area.h"', '"ristra/geometry/centroid.h"', '"ristra/geometry/normal.h"', '"ristra/geometry/shapes/quadrilateral.h"'], variants=[{}, {"NDEBUG": 1}],
   assumptions=["results compared to a tolerance scaled with coordinate size and machine precision"]),
 "G02": seq("g02.cc", "every shape of the families in every numbering symmetry, face order and starting vertex; exact volume and centroid by signed tetrahedra",
   {"quick": "all tetrahedra on the 3x3x3 lattice (ordered), all parallelepipeds with edge vectors in {-1,0,1}^3 in all 48 numberings, frusta and wedges in 4 bases and 2 origins, prisms and pyramids over all convex lattice polygons, all 720 face orders; shapes scaled by powers of two", "thorough": "additionally all convex 4x4-lattice polygons in space"},
   STDH + ['"ristra/geometry/shapes/hexahedron.h"', '"ristra/geometry/shapes/polyhedron.h"', '"ristra/geometry/shapes/tetrahedron.h"'],
   assumptions=["faces are planar, polygons in space convex, face orientation consistent"]),
 "A03": a03,
 "A01": atoms("A01", "every schedule of every program of the family; the final value must be produced by some order of the operations",
   {"quick": "2x1 all operation pairs, all forms; 2x2 and 3x1 families; 1 spurious failure; no preemption bound; long contention: a competitor completing an operation before every step, up to 100 times, and up to 100 spurious failures in a row", "thorough": "all operation pairs also in 2x2 and 3x1; 3x2; 2 spurious failures"}, AT_ASSUME),
 "A02": atoms("A02", "as A01, judging return values and real-time order by brute-force linearizability",
   {"quick": "2x1 all operation pairs, all forms; 2x2 and 3x1 families; 1 spurious failure; no preemption bound; long contention: a competitor completing an operation before every step, up to 100 times, and up to 100 spurious failures in a row", "thorough": "all operation pairs also in 2x2 and 3x1; 3x2; 2 spurious failures"}, AT_ASSUME),
 "A04": atoms("A04", "every execution (schedules and stale reads) of message-passing, release-sequence and store-buffering programs; data races are violations",
   {"quick": "2 threads all forms and orders, also with updates that leave the value unchanged; 3 threads for release sequences", "thorough": "3-thread programs for all forms, more spurious failures"},
   AT_ASSUME + ["view-based C++ memory model: new messages are appended to the modification order; failed compare-and-swap reads the newest message"]),
 "A05": atoms("A05", "every schedule and every permanent suspension point of the other threads; deadlock, livelock and unneeded waiting are violations",
   {"quick": "2 threads all forms, 3 threads canonical forms, any subset of other threads suspended", "thorough": "3 threads all forms, with spurious failures"}, AT_ASSUME),
}
EL = dict(extra=[("{repo}/ristra/elements/elements.cc", "el.o", [])])
EH = STDH + ["<memory>", '"ristra/elements/elements.h"']
SPECS.update({
 "E01": seq("e01.cc", "every rule offered and every monomial up to the guaranteed degree in every variable, against the exact integral; points inside the cell, weights positive and summing to the measure; tensor structure of the multi-dimensional rules",
   {"quick": "1-8 points, 1D-4D; all monomials (2D up to 8 points, 3D up to 4, 4D up to 3)", "thorough": "3D up to 6 points, 4D up to 4"}, EH, assumptions=["compared to 1e-12 relative"], **EL),
 "E02": seq("e02.cc", "every element type and order; nodal property at all nodes, partition of unity, derivatives and interpolation on tensor grids large enough to determine the polynomials",
   {"quick": "7-point (2D/3D) and 5-point (4D) tensor grids; QuadN up to order 6, HexN up to 3", "thorough": "QuadN up to order 8, HexN up to 5"}, EH, assumptions=["derivatives compared with exact differentiation of the interpolating polynomial to 1e-9"], **EL),
 "E03": seq("e03.cc", "every matrix over the entry sets and every displaced cell; Jacobian against the derivative of the position, determinant and inverse against exact evaluation; surrounding storage guarded",
   {"quick": "all 2x2 over 7 values, 3x3 over {-1,0,2} and {1,3}, 4x4 over {0,1} and {-1,2}; all subsets of displaced vertices of the reference cells; matrices and cells scaled by powers of two", "thorough": "the same with more displacement vectors"}, EH, **EL),
})
DBC = ("{repo}/ristra/assertions/dbc_impl.cc", "dbc.o", [])
LU = dict(inc=LUA, libs=["-llua5.3"], extra=[DBC], config={"RISTRA_DBC_THROW": "1"})
SPECS.update({
 "I01": seq("i01.cc", "every history of registering targets, providing and withdrawing values, attaching and detaching sources and scripts, resolving, instant reads and clearing, from every initial configuration; targets, values, unresolved names and return values compared with a model after each history (all prefixes are histories)",
   {"quick": "5 value kinds; all sequences of 3 operations (scalars; 2 for the other kinds) over 16 operations from 48 initial configurations; all pairs of kinds with 4 operations; declared values with 4 operations over 10; sets of up to 1000 targets; names with dots, colons and common prefixes; a source whose script declares only some targets", "thorough": "3 operations for all kinds from 120 initial configurations, 6 operations for pairs and declared values"},
   STDH + ['"ristra/initialization/input_engine.h"', '"ristra/initialization/init_value.h"'], assumptions=["contract checks configured to throw"], **LU),
 "I02": seq("i02.cc", "every sequence of lookups (typed, failing and missing ones), settings and registrations on hard-coded and Lua sources; all keys compared with a model afterwards",
   {"quick": "hard-coded: 3 operations over 24; Lua registrations: 4 over 21; typed lookups: 3 over 24; sizes and raw results of every entry of every table, missing ones included", "thorough": "4, 5 and 4 operations"}, STDH + ['"ristra/initialization/input_source.h"'],
   assumptions=["tables are registered only where the script has them"], **LU),
})
LH = STDH + ["<list>", "<deque>", '"ristra/embedded/embed_lua.h"', '"ristra/math/vector.h"', '"ristra/math/matrix.h"']
SPECS.update({
 "L01": seq("l01.cc", "every value of the sets read as every type in six ways and pushed; every table shape read as every container; every stack position; interpreter's own rendering is the reference",
   {"quick": "85 values x 14 types x 6 ways; all tables of up to 5 elements over 5 kinds, nested tables of up to 3 rows of up to 3 elements with one odd element; all byte strings of up to 4 over 6 bytes, every byte in 8 positions; arrays, texts and indexes around 2^7, 2^8 and 2^16", "thorough": "tables of up to 6, strings of up to 5"}, LH,
   assumptions=["Lua's own number/numeral-text conversions count as the same kind", "reals beyond the range of float read as float are not specified"], **LU),
 "L02": seq("l02.cc", "every history of lookups, calls, conversions, failing operations, copies, moves, assignments, destruction, script changes, garbage collection and loss of the interpreter object on two result slots; stack height, values below, and all readings of both results compared with a model after every step; values released at the end",
   {"quick": "56 operations; all histories of 3 operations (up to slot symmetry) from an empty, a table-holding and a function-holding state; 2 from three more; 0-2 values on the stack below; up to 300 results held at once and released in several orders", "thorough": "4 operations (3 from the other states)"}, LH,
   assumptions=["scripts do not install metatables on the global table", "moved-from results are only destroyed"], **LU),
 "L03": seq("l03.cc", "every argument list of up to 3 over 7 argument kinds (and some of 4) by every way of calling, every result list over 4 kinds, every sequence of failing and succeeding calls, every history of wrapper creation, copy, move, destruction and call",
   {"quick": "result lists of up to 5; error sequences of 2 over 16 in 3 ways; wrapper histories of 4 over 17 operations from 3 states; 5 to 129 arguments and results and up to 10^5 script results, with an unmapped page behind the interpreter's stack", "thorough": "result lists of up to 7; 3 errors; wrapper histories of 5"}, LH, variants=[{"SEC": k} for k in (9, 1, 8, 3, 4, 5, 6, 2, 7, 0)],
   assumptions=["a call whose last result is nil, or without results, is an error"], **LU),
})
CM = ["-DRISTRA_ENABLE_UNIT_TESTS=OFF", "-DRISTRA_ENABLE_LUA=OFF", "-DRISTRA_ENABLE_PYTHON=OFF", "-DRISTRA_ENABLE_MPI=OFF", "-DRISTRA_ENABLE_CALIPER=OFF"]
ACTS = ["nothing", "notify", "throw"]
SPECS.update({
 "P01": seq("p01.cc", "every argument list of up to 4 over 3 kinds and 4 value rotations, every conversion of 45 Python values (and every pair of conversions in sequence), every history of succeeding and failing imports, lookups, calls, conversions and scripts; pending errors, results and a counter in the script compared with a model after every step; repetition for leaks; interpreter restarts",
   {"quick": "26 operations, all histories of 3; modules inside packages", "thorough": "all histories of 4"}, STDH + ['"ristra/embedded/embed_python.h"'], variants=[{"SEC": k} for k in (2, 1, 0)], inc=PY, libs=["-lpython3.12"],
   assumptions=["scripts that ask the process to exit are outside the claim", "names do not contain null characters"]),
 "I03": seq("i03.cc", "every argument vector over 27 tokens (long, short, attached, separate, abbreviated, ambiguous, malformed, repeated, unknown, positional, terminator) for four registration orders, parsed twice, every pair of command lines one after the other, registration between parses; results, defaults, error flag and output compared with a model",
   {"quick": "up to 3 tokens (4 over 13 tokens)", "thorough": "up to 4 tokens (5 over 13)"}, STDH + ['"ristra/initialization/arguments.h"'], libs=["-lboost_program_options"],
   assumptions=["a valued option followed by something that looks like an option is only required to be handled without failure"]),
 "D01": seq("d01.cc", "the six option combinations configured with the real CMake project; in each every check with every condition and operand of the grids, every sequence of checks, stream and action switches; firing, exception type, message, location, number of evaluations and value compared with the relation",
   {"quick": "operand grids of 4-9 values in 6 types (all pairs, all triples for ranges); all sequences of 4 over 12 operations; membership in 8 container kinds; line numbers up to 2147483646", "thorough": "sequences of 5"}, STDH + ['"ristra/assertions/dbc.h"'], extra=[DBC],
   variants=[{"cfg": "cm%d%d" % (a, r), "ACT": a, "REQ": r} for a in range(3) for r in range(2)] + [{"cfg": "cmdef", "ACT": 2, "REQ": 1}], cmake=dict([("cm%d%d" % (a, r), CM + ["-DRISTRA_DBC_ACTION=" + ACTS[a], "-DRISTRA_DBC_REQUIRE=" + ("ON" if r else "OFF")]) for a in range(3) for r in range(2)] + [("cmdef", CM)]), parts=2,
   assumptions=["a disabled range check may evaluate its first operand twice"]),
 "D02": seq("d02.cc", "every error macro with every message form, condition and surrounding branch, in both exception configurations (abort observed in a child process); every sequence of macros; exception types, texts, streams and locations compared with the documentation",
   {"quick": "7 messages, all forms and branches; sequences of 4 over 7", "thorough": "sequences of 6"}, STDH + ['"ristra/assertions/errors.h"'], configs={"cfgx": {"RISTRA_ENABLE_EXCEPTIONS": ""}}, variants=[{"EXC": 1}, {"EXC": 0, "cfg": "cfgx"}], parts=2),
})
VTKI = ["-I{mc}/vtk"]
SPECS.update({
 "I04": seq("i04.cc", "every history of loading input files (good, failing, nested, missing), reading and testing values through the file object and its macros inside larger expressions, and the shared instance; values and errors compared with a model of the loaded file",
   {"quick": "all histories of 4 operations", "thorough": "all histories of 5 operations"}, STDH + ['"ristra/initialization/input.h"'], assumptions=["input files are Lua scripts that end"], **LU),
 "C01": seq("c01.cc", "every mesh of the families with every face orientation and ownership pattern; every sequence of grid-building operations; every run of the adaptor over time steps, pipeline frequencies and script lists; what arrives in recording stand-ins of VTK, Catalyst, MPI and the mesh is compared with what was given",
   {"quick": "12 meshes (2D and 3D, up to 4 cells), all ownership subsets and face orientations; faces of up to 300 corners, up to 300 cells; all sequences of 4 over 27 builder operations; every field function with 1-12 components and up to 1000 entries; every combination of up to 5 pieces and 9 file names; up to 5 time steps, 3 scripts", "thorough": "all sequences of 5 builder operations, up to 7 time steps"},
   ['"ristra/io/catalyst/utils/insituTimer.hpp"'], variants=[{"DIM": 3}, {"DIM": 2}], inc=VTKI, assumptions=["VTK, ParaView Catalyst, MPI and the mesh are replaced by stand-ins (mc/vtk) that record what they are given and count references as VTK does", "points are stored in single precision", "addPoint and insertNextPoint are not mixed on one grid"]),
 "C02": seq("c02.cc", "every script list, replacement, file pair, image pair and threshold of the grids; every history of timer operations on a controlled clock; every sequence of log writes; against direct definitions",
   {"quick": "all texts up to length 5, files up to 3 bytes over 4 values and around buffer sizes, images in 16 shapes with up to 12 differing samples, script lists of up to 3 in 28 places, timer histories of 6 (also beside up to 40 other timers), log histories of 4", "thorough": "one step or character more"}, ['"ristra/io/catalyst/utils/catalystUtils.hpp"', '"ristra/io/catalyst/utils/insituTimer.hpp"', '"ristra/io/catalyst/utils/insituLog.hpp"'], libs=["-ldl"],
   assumptions=["the clock is a stand-in advanced by the harness", "stopping a timer twice is not specified"]),
})
SMC = "stateless model checking of the real code: controlled fiber scheduler, all schedules enumerated"
BEX = "bounded-exhaustive model checking: all cases/operation sequences within bounds on the real code against a reference model"
NOTES = {
 "I04": (BEX, "Complete within the stated depth; explicit model of the loaded file."),
 "C01": (BEX, "The real adaptor runs on recording stand-ins of VTK, Catalyst, MPI and the mesh; complete within the stated families and depths."),
 "C02": (BEX, "Complete on the stated grids and histories; controlled clock."),
 "P01": (BEX, "Complete within the stated depths; explicit model."),
 "I03": (BEX, "Complete for the stated command lines; independent model of the option syntax."),
 "D01": (BEX, "Complete: all configurations, all checks, all operands of the grids."),
 "D02": (BEX, "Complete: all macros, forms and configurations."),
 "L01": (BEX, "Complete for the stated values, types and shapes."),
 "L02": (BEX, "Complete within the stated depths; explicit model of globals, tables and results."),
 "L03": (BEX, "Complete for the stated lists and histories."),
 "I01": (BEX, "Complete within the stated depths; reference is an explicit model of sources, targets and values."),
 "I02": (BEX, "Complete within the stated depths; explicit model of the tables."),
 "E01": (BEX, "Complete for all rules and monomials stated."),
 "E02": (BEX, "The grids determine the polynomials uniquely, so agreement on them is agreement everywhere (to rounding)."),
 "E03": (BEX, "Complete on the entry sets and displacement families."),
 "G01": (BEX, "Complete for the lattice polygons stated; reference is exact integer arithmetic and Pick's theorem."),
 "G02": (BEX, "Complete for the shape families stated; exact reference."),
 "U04": (BEX, "Complete within the stated lengths; reference is element addresses."),
 "U05": (BEX, "Complete for all strings within the stated lengths and alphabets."),
 "U06": (BEX, "Complete on the value grid."),
 "U07": (BEX, "Complete for the stated ranges and operation sequences; explicit model."),
 "U08": (BEX, "Complete on the stated type family; the answers are enumerated by the compiler."),
 "M01": (BEX, "Complete on the value grids; reference is the scalar operator."),
 "M02": (BEX, "Complete within the stated shapes and value grids."),
 "M03": (BEX, "Complete on the entry sets; exact integer/rational reference."),
 "M04": (BEX, "Complete on the value grids."),
 "U01": (BEX, "Complete within the stated depth and capacities; reference model is std::vector."),
 "U02": (BEX, "Complete within the stated lengths."),
 "U03": (BEX, "Complete within the stated extents; reference is index arithmetic."),
 "A01": (SMC, "Complete within the stated program sizes (no preemption bound); trusts the compiler instrumentation and the runtime in mc/mcrt.cc."),
 "A02": (SMC + ", brute-force linearizability", "Complete within the stated program sizes; trusts instrumentation and runtime."),
 "A03": (BEX, "All operand pairs of 8-bit types and boundary grids for the others, all forms; reference is the plain C++ operator."),
 "A04": (SMC + " with view-based weak-memory semantics and race detection", "Complete for the litmus programs within the operational memory model described in DESIGN.md."),
 "A05": (SMC + " with permanent suspension of threads", "Complete within the stated program sizes."),
}
NA = {}
