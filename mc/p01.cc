// P01: Python calls and conversions are faithful; failures become C++ errors and leave nothing behind.
#include "mc.h"
#include <array>
#include <climits>
#include <cmath>
#include <fstream>
#include <iostream>
#include <optional>
#include <string>
#include "ristra/embedded/embed_python.h"
using std::string; using namespace ristra::embedded;
static const char *MOD = R"(
import sys, struct
count = 0
want = ()
def same(a, b):
    return type(a) is type(b) and (struct.pack('d', a) == struct.pack('d', b) if isinstance(a, float) else a == b)
def check(*a):
    return 1 if len(a) == len(want) and all(same(x, y) for x, y in zip(a, want)) else 0
def ident(x): return x
def args(*a): return a
def inc():
    global count
    count += 1
    return count
def add(a, b): return a + b
def sub(a, b): return a - b
def boom(*a): raise ValueError('boom')
def boom2(*a): return undefined_name
def text(*a): return 'text'
def none(*a): return None
def pair(*a): return (5, 2.5, 'x')
def blocks(): return sys.getallocatedblocks()
class Ix:
    def __index__(self): return 42
class Fl:
    def __float__(self): return 1.25
class Bad:
    def __index__(self): raise KeyError('index')
    def __float__(self): raise KeyError('float')
notcallable = 7
class Attr:
    @property
    def p(self): raise RuntimeError('property')
obj = Attr()
)";
static void file(const char *n, const char *t) { std::ofstream(n) << t; }
static PyObject *M = nullptr;
static void start() { python_initialize(); python_run_string("import sys, os\nsys.dont_write_bytecode = True\nsys.stderr = open(os.devnull, 'w')\n"); python_free(python_add_to_path(".")); M = python_import("p01mod"); }
template <class F> static bool thrown(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
static bool clean() { bool c = !PyErr_Occurred(); if (!c) PyErr_Clear(); return c; }
struct Obj { PyObject *p; explicit Obj(PyObject *q) : p(q) {} ~Obj() { if (p) python_free(p); } operator PyObject *() const { return p; } Obj(const Obj &) = delete; };
static PyObject *attr(const char *n) { return python_get_attribute(M, n); }
static PyObject *eval(const string &e) { python_run_string("import p01mod\np01mod.val = (" + e + ")\n"); return attr("val"); }
// ---- arguments ---------------------------------------------------------------------
template <int K> struct A; // value, literal
template <> struct A<0> { static int v(int p) { int t[] = {0, -7, INT_MAX, INT_MIN}; return t[p]; } static string l(int p) { return std::to_string(v(p)); } };
template <> struct A<1> { static long v(int p) { long t[] = {LONG_MAX, LONG_MIN, 1l << 53, -1}; return t[p]; } static string l(int p) { return v(p) == LONG_MIN ? "-2**63" : std::to_string(v(p)); } };
template <> struct A<2> { static double v(int p) { double t[] = {0.1, -0.0, 1e300, 3.0}; return t[p]; } static string l(int p) { return mc::fmt("float.fromhex('%a')", v(p)); } };
template <int... Ks, size_t... I> static void argsWith(std::index_sequence<I...>) { for (int sh = 0; sh < 4; ++sh) { if (!mc::next()) continue; string w = (string() + ... + (A<Ks>::l((I + sh) % 4) + ",")); python_run_string("import p01mod\np01mod.want = (" + w + ")\n");
    Obj chk(attr("check")); { Obj r(python_call_function(chk, A<Ks>::v((I + sh) % 4)...)); MC_CHECK(python_as_long(r) == 1, "arguments changed: %s", w.c_str()); } std::tuple<decltype(A<Ks>::v(0))...> lv{A<Ks>::v((I + sh) % 4)...}; { Obj r(python_call_function(chk, std::get<I>(lv)...)); MC_CHECK(python_as_long(r) == 1, "variables as arguments changed: %s", w.c_str()); } const auto cl = lv; { Obj r(python_call_function(chk, std::get<I>(cl)...)); MC_CHECK(python_as_long(r) == 1, "constants as arguments changed: %s", w.c_str()); }
    Obj f(attr("args")); Obj r(python_call_function(f, A<Ks>::v((I + sh) % 4)...)); Obj b(python_build_args(A<Ks>::v((I + sh) % 4)...)); int bad = 0; auto el = [&](PyObject *t, size_t i, auto v) { PyObject *e = python_get_tuple_element(t, i); if constexpr (std::is_same_v<decltype(v), double>) { double d = python_as_double(e); bad += d != v || std::signbit(d) != std::signbit(v); } else bad += python_as_long(e) != v; }; (el(r, I, A<Ks>::v((I + sh) % 4)), ...); (el(b, I, A<Ks>::v((I + sh) % 4)), ...); MC_CHECK(bad == 0, "tuple elements changed: %s", w.c_str());
    for (size_t i : {sizeof...(Ks), sizeof...(Ks) + 1, (size_t)-1}) { MC_CHECK(thrown([&] { python_get_tuple_element(r, i); }), "element %zu of %zu", i, sizeof...(Ks)); MC_CHECK(thrown([&] { python_set_tuple_element(b, i, 1); }), "setting element %zu of %zu", i, sizeof...(Ks)); } MC_CHECK(clean(), "pending error"); mc::trans(6); mc::distinct(mc::hash(w)); } }
template <int... Ks> static void one() { argsWith<Ks...>(std::make_index_sequence<sizeof...(Ks)>()); }
template <int C, int L, int... Ks> static void dec() { if constexpr (L == 0) one<Ks...>(); else dec<C / 3, L - 1, Ks..., C % 3>(); }
template <int L, int... C> static void allOf(std::integer_sequence<int, C...>) { (dec<C, L>(), ...); }
// ---- conversions ------------------------------------------------------------------------
struct Conv { const char *e; std::optional<long> l; std::optional<double> d; };
static const std::vector<Conv> &convs() { static std::vector<Conv> c = {{"0", 0, 0.}, {"1", 1, 1.}, {"-1", -1, -1.}, {"2**31", 1l << 31, 2147483648.}, {"-2**31-1", -(1l << 31) - 1, -2147483649.}, {"2**63-1", LONG_MAX, 9223372036854775808.}, {"-2**63", LONG_MIN, -9223372036854775808.}, {"2**63", {}, 9223372036854775808.}, {"-2**63-1", {}, -9223372036854775808.}, {"2**64-1", {}, 18446744073709551616.}, {"2**53+1", (1l << 53) + 1, 9007199254740992.}, {"10**400", {}, {}}, {"-10**400", {}, {}}, {"0.0", 0, 0.}, {"-0.0", 0, -0.}, {"0.5", {}, .5}, {"2.5", {}, 2.5}, {"-2.5", {}, -2.5}, {"3.0", 3, 3.}, {"-1.0", -1, -1.}, {"1e300", {}, 1e300}, {"9223372036854775808.0", {}, 9223372036854775808.}, {"-9223372036854775808.0", LONG_MIN, -9223372036854775808.}, {"float('inf')", {}, INFINITY}, {"float('-inf')", {}, -INFINITY}, {"float('nan')", {}, NAN}, {"5e-324", {}, 5e-324}, {"0.1", {}, 0.1}, {"True", 1, 1.}, {"False", 0, 0.}, {"'a'", {}, {}}, {"'5'", {}, {}}, {"b'5'", {}, {}}, {"None", {}, {}}, {"[]", {}, {}}, {"[1]", {}, {}}, {"()", {}, {}}, {"(1,)", {}, {}}, {"{}", {}, {}}, {"p01mod.Ix()", 42, 42.}, {"p01mod.Fl()", {}, 1.25}, {"p01mod.Bad()", {}, {}}, {"p01mod.ident", {}, {}}, {"1j", {}, {}}, {"type", {}, {}}}; return c; }
static void convCheck(PyObject *v, const Conv &c, const char *h) { long l = 77; bool tl = thrown([&] { l = python_as_long(v); }); MC_CHECK(tl == !c.l && (tl || l == *c.l), "%s as integer: %s %ld %s", c.e, tl ? "rejected" : "gives", l, h); MC_CHECK(clean(), "pending error after %s as integer %s", c.e, h); double d = 77; bool td = thrown([&] { d = python_as_double(v); }); MC_CHECK(td == !c.d && (td || (std::isnan(d) && std::isnan(*c.d)) || (d == *c.d && std::signbit(d) == std::signbit(*c.d))), "%s as real: %s %g %s", c.e, td ? "rejected" : "gives", d, h); MC_CHECK(clean(), "pending error after %s as real %s", c.e, h); }
// ---- histories -------------------------------------------------------------------------------
struct World { long count = 0; long paths = 0; int fresh = 0;
  static constexpr int N = 26; static string name(int o) { static const char *n[] = {"import", "import missing", "import with syntax error", "import that raises", "attribute", "attribute missing", "attribute that raises", "call", "call that raises", "call with undefined name", "call with too few arguments", "call with too many arguments", "call of no function", "integer result", "integer of text", "real of text", "integer too large", "integer of None", "run script", "script that raises", "script that does not parse", "tuple element", "element out of range", "element of no tuple", "add to path", "call without arguments"}; return n[o]; }
  void step(int o, const string &h) { auto must = [&](bool fail, auto f) { bool t = thrown(f); MC_CHECK(t == fail, "%s: %s", fail ? "failure not reported" : "unexpected error", h.c_str()); };
    switch (o) {
      case 0: must(false, [&] { Obj m(python_import("p01mod")); MC_CHECK(m.p == M, "other module: %s", h.c_str()); Obj t(python_import("p01pkg.sub")); Obj x(python_get_attribute(t, "x")); MC_CHECK(python_as_long(x) == 1, "module inside a package: %s", h.c_str()); Obj k(python_import("p01pkg")); Obj sb(python_get_attribute(k, "sub")); MC_CHECK((PyObject *)sb == (PyObject *)t, "package: %s", h.c_str()); }); break;
      case 1: must(true, [&] { python_import("p01_no_such_module"); }); break; case 2: must(true, [&] { python_import("p01bad"); }); break; case 3: must(true, [&] { python_import("p01raise"); }); break;
      case 4: must(false, [&] { Obj a(attr("notcallable")); MC_CHECK(python_as_long(a) == 7, "attribute: %s", h.c_str()); }); break; case 5: must(true, [&] { attr("no_such_attribute"); }); break; case 6: must(true, [&] { Obj b(attr("obj")); python_get_attribute(b, "p"); }); break;
      case 7: must(false, [&] { Obj f(attr("sub")); Obj r(python_call_function(f, 7, 2.5)); MC_CHECK(python_as_double(r) == 4.5, "call: %s", h.c_str()); }); break;
      case 8: must(true, [&] { Obj f(attr("boom")); python_call_function(f, 1l << 40, 2.5); }); break; case 9: must(true, [&] { Obj f(attr("boom2")); python_call_function(f, 1); }); break; case 10: must(true, [&] { Obj f(attr("sub")); python_call_function(f, 1); }); break; case 11: must(true, [&] { Obj f(attr("sub")); python_call_function(f, 1, 2, 3); }); break; case 12: must(true, [&] { Obj f(attr("notcallable")); python_call_function(f, 1); }); break;
      case 13: must(false, [&] { Obj f(attr("inc")); Obj r(python_call_function(f)); MC_CHECK(python_as_long(r) == ++count, "count: %s", h.c_str()); }); break;
      case 14: must(true, [&] { Obj f(attr("text")); Obj r(python_call_function(f, 1)); python_as_long(r); }); break; case 15: must(true, [&] { Obj f(attr("text")); Obj r(python_call_function(f, 1)); python_as_double(r); }); break; case 16: must(true, [&] { Obj f(attr("add")); Obj r(python_call_function(f, LONG_MAX, 1)); python_as_long(r); }); break; case 17: must(true, [&] { Obj f(attr("none")); Obj r(python_call_function(f, 1)); python_as_long(r); }); break;
      case 18: must(false, [&] { python_run_string("import p01mod\np01mod.count += 1\n"); ++count; }); break; case 19: must(true, [&] { python_run_string("import p01mod\np01mod.count += 1\nraise ValueError('x')\n"); }); ++count; break; case 20: must(true, [&] { python_run_string("this is ( not python"); }); break;
      case 21: must(false, [&] { Obj f(attr("pair")); Obj r(python_call_function(f, 1)); MC_CHECK(python_as_long(python_get_tuple_element(r, 0)) == 5 && python_as_double(python_get_tuple_element(r, 1)) == 2.5, "tuple elements: %s", h.c_str()); }); break;
      case 22: must(true, [&] { Obj f(attr("pair")); Obj r(python_call_function(f, 1)); python_get_tuple_element(r, 3); }); break; case 23: must(true, [&] { Obj f(attr("text")); Obj r(python_call_function(f, 1)); python_get_tuple_element(r, 0); }); break;
      case 24: must(false, [&] { Obj p(python_add_to_path("/p01/added")); ++paths; }); break;
      case 25: must(false, [&] { Obj f(attr("none")); Obj r(python_call_function(f)); MC_CHECK(r.p == Py_None, "result: %s", h.c_str()); }); break; }
    MC_CHECK(clean(), "an error is left pending after %s", h.c_str()); }
  void end(const string &h) { MC_CHECK(!thrown([&] { Obj c(attr("count")); long n = python_as_long(c); MC_CHECK(n == count, "count is %ld instead of %ld after %s", n, count, h.c_str()); Obj p(eval("sum(1 for q in __import__('sys').path if q == '/p01/added')")); MC_CHECK(python_as_long(p) == paths, "search path after %s", h.c_str()); Obj q(eval("1 if type(__import__('sys').path) is list and __import__('sys').path[0] == ('/p01/added' if " + std::to_string(paths) + " else '.') else 0")); MC_CHECK(python_as_long(q) == 1, "head of the search path after %s", h.c_str()); }), "unexpected error after %s", h.c_str()); clean(); }
  World() { python_run_string("import p01mod, sys\np01mod.count = 0\nwhile '/p01/added' in sys.path: sys.path.remove('/p01/added')\n"); } };
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  file("p01mod.py", MOD); file("p01bad.py", "def broken(:\n"); file("p01raise.py", "raise RuntimeError('at import')\n"); if (system("mkdir -p p01pkg")) return 3; file("p01pkg/__init__.py", ""); file("p01pkg/sub.py", "x = 1\n");
  start();
#if SEC == 1
  if (mc::group("arguments1")) allOf<1>(std::make_integer_sequence<int, 3>()); if (mc::group("arguments2")) allOf<2>(std::make_integer_sequence<int, 9>()); if (mc::group("arguments3")) allOf<3>(std::make_integer_sequence<int, 27>());
#elif SEC == 2
  if (mc::group("arguments4")) allOf<4>(std::make_integer_sequence<int, 81>());
#else
  if (mc::group("conversions")) for (auto &c : convs()) { if (!mc::next()) continue; Obj v(eval(c.e)); for (int rep = 0; rep < 2; ++rep) convCheck(v, c, ""); Obj f(attr("val")); convCheck(f, c, "(attribute)"); }
  if (mc::group("conversions2")) for (auto &a : convs()) for (auto &b : convs()) { if (!mc::next()) continue; Obj v(eval(a.e)), w(eval(b.e)); convCheck(v, a, "first"); convCheck(w, b, mc::fmt("after %s", a.e).c_str()); convCheck(v, a, mc::fmt("again after %s", b.e).c_str()); mc::distinct(mc::hash(string(a.e) + "|" + b.e)); }
  for (int dep = 1; dep <= (t ? 4 : 3); ++dep) if (mc::group("history" + std::to_string(dep))) mc::product(std::vector<int>(dep, World::N), [&](const std::vector<int> &d) { if (!mc::next()) return; World w; string h; for (int o : d) { h += World::name(o) + "; "; w.step(o, h); mc::trans(); } for (int o : {7, 13, 4}) w.step(o, h + "then " + World::name(o)); w.end(h); mc::distinct(mc::hash(h)); mc::sample(h); });
  if (mc::group("leak")) for (int o = 0; o < World::N; ++o) { if (!mc::next()) continue; World w; Obj bl(attr("blocks")); auto blocks = [&] { Obj r(python_call_function(bl)); return python_as_long(r); }; auto rep = [&](int n) { for (int i = 0; i < n; ++i) w.step(o, World::name(o)); python_run_string("import p01mod, sys, gc\nwhile '/p01/added' in sys.path: sys.path.remove('/p01/added')\nsys.path[:] = list(sys.path)\ngc.collect()\n"); return blocks(); }; rep(50); rep(50); long a = rep(50), b = rep(200); MC_CHECK(b - a < 120, "%s leaks: %ld objects in 200 repetitions", World::name(o).c_str(), b - a); mc::trans(350); Obj sp(eval("__import__('sys').getrefcount(__import__('sys').path)")); MC_CHECK(python_as_long(sp) < 60, "references to the search path accumulate"); }
  if (mc::group("restart")) for (int a = -1; a < World::N; ++a) for (int b = -1; b < (t ? World::N : 3); ++b) { if (!mc::next()) continue; { World w; if (a >= 0) w.step(a, "first: " + World::name(a)); } python_free(M); python_finalize(); if (b == 1) python_set_program_name("p01 \xc3\xa9"); start(); World w; string h = "restart after " + (a >= 0 ? World::name(a) : string("nothing")); if (b >= 0) w.step(b, h); for (int o : {0, 7, 13, 21}) w.step(o, h); w.end(h); }
#endif
  mc::finish();
}
