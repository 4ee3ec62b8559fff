// M02: multi_array over all shapes with small extents.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csetjmp>
#include <iostream>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include "ristra/math/multi_array.h"
namespace rm = ristra::math;
template <class T> std::string S(T v) { std::ostringstream o; o << v; return o.str(); }
template <class V> std::string str(const V &a) { std::string s = "("; for (auto &x : a) s += S(x) + " "; return s + ")"; }
template <class T> bool near(T a, T b) { if constexpr (std::is_floating_point<T>::value) return a == b || std::abs(a - b) <= 8 * std::numeric_limits<T>::epsilon() * std::abs(b); else return a == b; }
enum { ADD, SUB, MUL, DIV };
static const char *on[] = {"+", "-", "*", "/"};
template <class R, class T, class U> R ap(int o, T x, U y) { switch (o) { case ADD: return R(x + y); case SUB: return R(x - y); case MUL: return R(x * y); default: return R(x / y); } }
template <class T, size_t... N> struct Run {
  using A = rm::multi_array<T, N...>; using V = std::vector<T>; static constexpr size_t R = sizeof...(N), E = (N * ...);
  static A mk(const V &z) { A a; for (size_t i = 0; i < E; ++i) a.data()[i] = z[i]; return a; }
  static bool eq(const A &a, const V &z, bool div = false) { for (size_t i = 0; i < E; ++i) if (!(div ? near<T>(a.data()[i], z[i]) : a.data()[i] == z[i])) return false; return true; }
  template <class U> static void comp(int o, A &a, const U &u) { auto &r = o == ADD ? (a += u) : o == SUB ? (a -= u) : o == MUL ? (a *= u) : (a /= u); if (&r != &a) mc::fail("compound operator does not return its left operand"); }
  static bool z(const V &v) { for (auto x : v) if (x == 0) return true; return false; }
  template <class U> static void scalar(const V &x, U v) {
    A a = mk(x); V e(E);
    for (int o = 0; o < 4; ++o) {
      if (!(o == DIV && v == U(0))) { for (size_t i = 0; i < E; ++i) e[i] = ap<T>(o, x[i], v); A k = a; comp(o, k, v); MC_CHECK(eq(k, e, o == DIV), "%s %s= %s gives %s, expected %s", str(x).c_str(), on[o], S(v).c_str(), str(k).c_str(), str(e).c_str()); A p = o == ADD ? a + v : o == SUB ? a - v : o == MUL ? a * v : a / v; MC_CHECK(eq(p, e, o == DIV) && eq(a, x), "%s %s %s gives %s, expected %s", str(x).c_str(), on[o], S(v).c_str(), str(p).c_str(), str(e).c_str()); }
      if (!(o == DIV && z(x))) { for (size_t i = 0; i < E; ++i) e[i] = ap<T>(o, v, x[i]); A p = o == ADD ? v + a : o == SUB ? v - a : o == MUL ? v * a : v / a; MC_CHECK(eq(p, e, o == DIV) && eq(a, x), "%s %s %s gives %s, expected %s", S(v).c_str(), on[o], str(x).c_str(), str(p).c_str(), str(e).c_str()); }
    }
    A f = a; f = v; bool all = true; for (auto q : x) if (!(q == v)) all = false; MC_CHECK(eq(f, V(E, T(v))), "assignment of %s", S(v).c_str()); MC_CHECK((a == v) == all, "comparison with %s", S(v).c_str()); A g(v); MC_CHECK(eq(g, V(E, T(v))), "construction by %s", S(v).c_str());
  }
  template <size_t... I> static T *cell(A &a, const std::vector<size_t> &d, std::index_sequence<I...>) {
    const A &c = a; T *p = &a((d[I])...); size_t ids[R] = {d[I]...}; int iids[R] = {int(d[I])...};
    MC_CHECK(&c((d[I])...) == p && &a.at((d[I])...) == p && &c.at((d[I])...) == p && &a((int(d[I]))...) == p && &a((short(d[I]))...) == p && A::element((d[I])...) == size_t(p - a.data()), "accessors disagree for the index %s", str(d).c_str());
    MC_CHECK(&a[ids] == p && &c[ids] == p && A::element(ids) == size_t(p - a.data()) && A::element(iids) == size_t(p - a.data()), "index arrays disagree for %s", str(d).c_str());
    return p;
  }
  template <size_t... I> static int oob(A &a, const std::vector<size_t> &d, std::index_sequence<I...>) { const A &c = a; int t = 0; try { a.at((d[I])...); } catch (std::out_of_range &) { ++t; } try { c.at((d[I])...); } catch (std::out_of_range &) { ++t; } return t; }
  static void shape() {
    std::string nm = mc::fmt("shape"); size_t dims[] = {N...}; for (auto n : dims) nm += "." + std::to_string(n);
    if (!mc::group(nm)) return;
    auto seq = std::index_sequence_for<std::integral_constant<size_t, N>...>(); std::vector<int> rad(dims, dims + R), rad1; for (int r : rad) rad1.push_back(r + 2);
    if (mc::next()) { MC_CHECK(A::size() == E && A::num_elements() == E && A::num_dimensions() == R && A::dimensions == R && A::elements == E, "sizes"); size_t st = 1; for (int k = R - 1; k >= 0; --k) { MC_CHECK(A::shape()[k] == dims[k] && A::strides()[k] == st, "shape or stride %d of %s", k, nm.c_str()); st *= dims[k]; }
      auto rs = rm::row_major_ordering{}(dims), cs = rm::col_major_ordering{}(dims); st = 1; for (int k = R - 1; k >= 0; --k) { MC_CHECK(rs[k] == st, "row-major stride %d of %s is %zu, expected %zu", k, nm.c_str(), rs[k], st); st *= dims[k]; } st = 1; for (size_t k = 0; k < R; ++k) { MC_CHECK(cs[k] == st, "column-major stride %zu of %s is %zu, expected %zu", k, nm.c_str(), cs[k], st); st *= dims[k]; } }
    A a; std::iota(a.begin(), a.end(), T(100));
    mc::product(rad, [&](const std::vector<int> &di) { // every index tuple denotes the row-major element
      if (!mc::next()) return; std::vector<size_t> d(di.begin(), di.end()); size_t w = 0; for (size_t k = 0; k < R; ++k) w = w * dims[k] + d[k]; T *p = cell(a, d, seq); MC_CHECK(p == a.data() + w && &a[w] == p && &((const A &)a)[w] == p && *p == T(100 + w), "index %s of %s is element %td, expected %zu", str(d).c_str(), nm.c_str(), p - a.data(), w);
      A b = a; *cell(b, d, seq) = T(-5); for (size_t i = 0; i < E; ++i) MC_CHECK(b[i] == (i == w ? T(-5) : a[i]), "writing index %s changes element %zu", str(d).c_str(), i); mc::distinct(mc::hash(str(d) + nm)); });
    mc::product(rad1, [&](const std::vector<int> &di) { bool in = true; for (size_t k = 0; k < R; ++k) if (di[k] >= (int)dims[k]) in = false; if (in || !mc::next()) return; std::vector<size_t> d(di.begin(), di.end()); for (size_t k = 0; k < R; ++k) if (di[k] == (int)dims[k] + 1) d[k] = k % 3 == 0 ? (size_t)-1 : k % 3 == 1 ? size_t(1) << 32 : (size_t(1) << 16) * 3; MC_CHECK(oob(a, d, seq) == 2, "checked access to %s of %s does not throw", str(d).c_str(), nm.c_str()); });
  }
  static void ops(const char *tn, const std::vector<T> &grid, int pairs) {
    std::string nm = std::string("ops.") + tn; for (auto n : {N...}) nm += "." + std::to_string(n);
    if (!mc::group(nm)) return;
    std::vector<V> all; // all contents over the grid (first grid values if there are too many)
    size_t g = grid.size(); while (g > 2 && std::pow((double)g, (double)E) > 3000) --g;
    mc::product(std::vector<int>(E, g), [&](const std::vector<int> &d) { V v; for (int k : d) v.push_back(grid[k]); all.push_back(v); });
    for (size_t n = 0; n < all.size(); ++n) { V &x = all[n]; if (!mc::next()) continue;
      A a = mk(x); const A &c = a; V e(E); MC_CHECK(&a.front() == a.data() && &c.front() == a.data() && &a.back() == a.data() + E - 1 && &c.back() == a.data() + E - 1 && a.c_array() == a.data() && c.data() == a.data(), "ends"); MC_CHECK(V(a.begin(), a.end()) == x && V(c.begin(), c.end()) == x && V(c.cbegin(), c.cend()) == x, "iteration"); V rx(x.rbegin(), x.rend()); MC_CHECK(V(a.rbegin(), a.rend()) == rx && V(c.rbegin(), c.rend()) == rx && V(c.crbegin(), c.crend()) == rx, "reverse iteration");
      A b(a), d; d = a; MC_CHECK(eq(b, x) && eq(d, x), "copies"); d = d; MC_CHECK(eq(d, x), "self assignment"); A m = -a; for (size_t i = 0; i < E; ++i) e[i] = -x[i]; MC_CHECK(eq(m, e) && eq(a, x), "negation");
      d.fill(x[0]); MC_CHECK(eq(d, V(E, x[0])), "fill"); d.assign(x.begin(), x.end()); MC_CHECK(eq(d, x), "assign"); rm::multi_array<double, N...> q(a), q2; q2 = a; rm::multi_array<long, N...> ql(a); for (size_t i = 0; i < E; ++i) MC_CHECK(q[i] == double(x[i]) && q2[i] == double(x[i]) && ql[i] == long(x[i]), "conversion of the element type");
      for (size_t i = 0; i < E; ++i) { A k = a; k.fill(k[i]); MC_CHECK(eq(k, V(E, x[i])), "fill with own element"); k = a; k = k[i]; MC_CHECK(eq(k, V(E, x[i])), "assignment of own element"); for (int o = 0; o < 4; ++o) if (!(o == DIV && x[i] == 0)) { k = a; comp(o, k, k[i]); for (size_t j = 0; j < E; ++j) e[j] = ap<T>(o, x[j], x[i]); MC_CHECK(eq(k, e, o == DIV), "%s %s= own element %zu gives %s, expected %s", str(x).c_str(), on[o], i, str(k).c_str(), str(e).c_str()); } }
      for (int o = 0; o < 4; ++o) if (!(o == DIV && z(x))) { A k = a; comp(o, k, k); for (size_t j = 0; j < E; ++j) e[j] = ap<T>(o, x[j], x[j]); MC_CHECK(eq(k, e, o == DIV), "%s %s= itself", str(x).c_str(), on[o]); k = a; k = o == ADD ? k + k : o == SUB ? k - k : o == MUL ? k * k : k / k; MC_CHECK(eq(k, e, o == DIV), "a = a %s a", on[o]); }
      for (T v : grid) scalar<T>(x, v); scalar<int>(x, -3); scalar<double>(x, 2.5);
      if constexpr (E == 1) { A l{x[0]}; MC_CHECK(eq(l, x), "list"); } if constexpr (E == 2) { A l{x[0], x[1]}, k; k.assign({x[0], x[1]}); A s{x[1]}; MC_CHECK(eq(l, x) && eq(k, x) && eq(s, V(E, x[1])), "list"); } if constexpr (E == 4) { A l{x[0], x[1], x[2], x[3]}, k; k.assign({x[0], x[1], x[2], x[3]}); MC_CHECK(eq(l, x) && eq(k, x), "list"); A s{x[2]}; MC_CHECK(eq(s, V(E, x[2])), "list of one value fills"); } if constexpr (E == 6) { A l{x[0], x[1], x[2], x[3], x[4], x[5]}; MC_CHECK(eq(l, x), "list"); }
      mc::distinct(mc::hash(str(x) + nm)); }
    std::vector<V> sub; g = grid.size(); while (g > 2 && std::pow((double)g, (double)E) > pairs) --g; // all pairs of contents over the first g values
    mc::product(std::vector<int>(E, g), [&](const std::vector<int> &d) { V v; for (int k : d) v.push_back(grid[k]); sub.push_back(v); });
    for (size_t n = 0; n < sub.size(); ++n) for (size_t k = 0; k < sub.size(); ++k) { if (!mc::next()) continue; V &x = sub[n], &y = sub[k]; A a = mk(x), b = mk(y); rm::multi_array<double, N...> bd(b); V e(E), ed(E);
      for (int o = 0; o < 4; ++o) if (!(o == DIV && z(y))) { for (size_t i = 0; i < E; ++i) e[i] = ap<T>(o, x[i], y[i]), ed[i] = ap<T>(o, x[i], double(y[i])); A c = a; comp(o, c, b); MC_CHECK(eq(c, e, o == DIV) && eq(b, y), "%s %s= %s gives %s, expected %s", str(x).c_str(), on[o], str(y).c_str(), str(c).c_str(), str(e).c_str()); A p = o == ADD ? a + b : o == SUB ? a - b : o == MUL ? a * b : a / b; MC_CHECK(eq(p, e, o == DIV) && eq(a, x) && eq(b, y), "%s %s %s gives %s, expected %s", str(x).c_str(), on[o], str(y).c_str(), str(p).c_str(), str(e).c_str()); c = a; comp(o, c, bd); MC_CHECK(eq(c, ed, o == DIV), "%s %s= %s of another element type gives %s, expected %s", str(x).c_str(), on[o], str(y).c_str(), str(c).c_str(), str(ed).c_str()); }
      MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison of %s and %s", str(x).c_str(), str(y).c_str()); A u = a, v = b; u.swap(v); MC_CHECK(eq(u, y) && eq(v, x), "swap member"); swap(u, v); MC_CHECK(eq(u, x) && eq(v, y), "swap"); u.swap(u); MC_CHECK(eq(u, x), "swap with itself"); }
  }
};
// many elements: sizes beyond narrow counters
template <size_t... N> void large() {
  std::string nm = "large"; size_t dims[] = {N...}; constexpr size_t R = sizeof...(N), E = (N * ...); for (auto n : dims) nm += "." + std::to_string(n);
  if (!mc::group(nm)) return;
  using A = rm::multi_array<double, N...>; using I = rm::multi_array<int, N...>; auto val = [](size_t i) { return double(i * 37 % 1009) - 500.5; }; auto sq = std::make_index_sequence<R>();
  if (mc::next()) { A a(0.0), b(0.0); for (size_t i = 0; i < E; ++i) a[i] = val(i), b[i] = val(i + 3); MC_CHECK(A::size() == E && a.end() - a.begin() == (long)E && &a.back() == &a[E - 1], "sizes of %s", nm.c_str()); A z(7.0), f = a, fl = a; f = 3.; fl.fill(4.); A g(a), h(1.0); h = a; A ng = -a, u = a, uu = b; u.swap(uu); A as(0.0); as.assign(a.begin(), a.end()); rm::multi_array<float, N...> cf(a);
    A p[4] = {a + b, a - b, a * b, a / b}, c[4] = {a, a, a, a}, sr[4] = {a + 2., a - 2., a * 2., a / 2.}, sl[4] = {2. + a, 2. - a, 2. * a, 2. / a}, sc[4] = {a, a, a, a}; c[0] += b; c[1] -= b; c[2] *= b; c[3] /= b; sc[0] += 2.; sc[1] -= 2.; sc[2] *= 2.; sc[3] /= 2.;
    for (size_t i = 0; i < E; ++i) { double x = val(i), y = val(i + 3); MC_CHECK(z[i] == 7 && f[i] == 3 && fl[i] == 4 && g[i] == x && h[i] == x && ng[i] == -x && cf[i] == (float)x && u[i] == y && uu[i] == x && as[i] == x && a[i] == x && b[i] == y, "element %zu of %s", i, nm.c_str()); for (int k = 0; k < 4; ++k) MC_CHECK(near(p[k][i], ap<double>(k, x, y)) && near(c[k][i], ap<double>(k, x, y)) && near(sr[k][i], ap<double>(k, x, 2.)) && near(sc[k][i], ap<double>(k, x, 2.)) && near(sl[k][i], ap<double>(k, 2., x)), "element %zu of operator %s on %s", i, on[k], nm.c_str());
      A e = a; MC_CHECK(e == a, "comparison of %s", nm.c_str()); e[i] += 1; MC_CHECK(!(e == a) && e != a && a < e && e > a && a <= e && !(e <= a), "comparison of %s differing in element %zu", nm.c_str(), i); A eq(2.); eq[i] = 1; MC_CHECK(!(eq == 2.), "comparison of %s with a value", nm.c_str()); } }
  I a; std::iota(a.begin(), a.end(), 0); std::vector<int> rad(dims, dims + R); size_t st = 1; for (int k = R - 1; k >= 0; --k) { MC_CHECK(A::shape()[k] == dims[k] && A::strides()[k] == st, "shape or stride of %s", nm.c_str()); st *= dims[k]; }
  if (mc::next()) { mc::product(rad, [&](const std::vector<int> &di) { std::vector<size_t> d(di.begin(), di.end()); size_t w = 0; for (size_t k = 0; k < R; ++k) w = w * dims[k] + d[k]; int *p = Run<int, N...>::cell(a, d, sq); MC_CHECK(p == a.data() + w && *p == (int)w, "index %s of %s is element %td, expected %zu", str(d).c_str(), nm.c_str(), p - a.data(), w); });
    for (size_t k = 0; k < R; ++k) for (size_t over : {dims[k], dims[k] + 256, dims[k] + 65536, size_t(dims[k] + (size_t(1) << 32)), size_t(1) << 8, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, size_t(-1)}) { if (over < dims[k]) continue; std::vector<size_t> d(R, 0); d[k] = over; MC_CHECK((Run<int, N...>::oob(a, d, sq)) == 2, "checked access to %s of %s does not throw", str(d).c_str(), nm.c_str()); } }
}
template <size_t... I> void shapes1(std::index_sequence<I...>) { (Run<int, I + 1>::shape(), ...); }
template <size_t... I> void shapes2(std::index_sequence<I...>) { (Run<int, I / 4 + 1, I % 4 + 1>::shape(), ...); }
template <size_t... I> void shapes3(std::index_sequence<I...>) { (Run<int, I / 9 + 1, I / 3 % 3 + 1, I % 3 + 1>::shape(), ...); }
template <size_t... I> void shapes4(std::index_sequence<I...>) { (Run<int, I / 8 % 2 + 1, I / 4 % 2 + 2, I / 2 % 2 + 1, I % 2 + 2>::shape(), ...); }
// not-a-number, infinities and both zeros in every component of both operands, which may be one object
template <class A, size_t E> void special(const char *tn) {
  if (!mc::group(std::string("special.") + tn)) return; const double nan = std::nan(""), inf = INFINITY; const double g[] = {0., -0., 1.5, nan, inf, -inf}; auto is = [](double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)) || (std::isfinite(b) && b != 0 && std::abs(a - b) <= 1e-14 * std::abs(b)); };
  mc::product(std::vector<int>(2 * E + 1, 6), [&](const std::vector<int> &d) { bool self = d[2 * E] == 0; if (d[2 * E] > 1) return; if (self) for (size_t i = 0; i < E; ++i) if (d[E + i]) return; if (!mc::next()) return; A a(0.), b0(0.); for (size_t i = 0; i < E; ++i) { a[i] = g[d[i]]; b0[i] = g[d[E + i]]; } const A &b = self ? a : b0; double x[E], y[E]; for (size_t i = 0; i < E; ++i) { x[i] = a[i]; y[i] = b[i]; }
    bool e = std::equal(x, x + E, y), l = std::lexicographical_compare(x, x + E, y, y + E), m = std::lexicographical_compare(y, y + E, x, x + E); mc::trans(); MC_CHECK((a == b) == e && (a != b) == !e && (a < b) == l && (a > b) == m, "comparison of %s and %s%s", str(a).c_str(), str(b).c_str(), self ? " (one object)" : ""); bool v = true; for (double q : x) v = v && q == y[0]; MC_CHECK((a == y[0]) == v, "comparison of %s with %g", str(a).c_str(), y[0]);
    A n = -a, p[4] = {a + b, a - b, a * b, a / b}, s[4] = {a + y[0], a - y[0], a * y[0], a / y[0]}; for (size_t i = 0; i < E; ++i) { MC_CHECK(is(n[i], -x[i]), "negation of %s", str(a).c_str()); for (int o = 0; o < 4; ++o) MC_CHECK(is(p[o][i], ap<double>(o, x[i], y[i])) && (o == DIV || is(s[o][i], ap<double>(o, x[i], y[0]))), "component %zu of %s %s %s", i, str(a).c_str(), on[o], str(b).c_str()); } }); }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); int P = t ? 1300 : 260;
  std::vector<int> gi{-7, 2, 3, 0, 1, -1}; std::vector<double> gd{-3.5, .1, 2, 0, 1. / 3, -1};
#if SEC == 0
  shapes1(std::make_index_sequence<6>()); shapes2(std::make_index_sequence<16>());
#elif SEC == 1
  shapes3(std::make_index_sequence<27>());
#elif SEC == 2
  shapes4(std::make_index_sequence<16>()); Run<int, 1, 2, 1, 3, 2>::shape(); large<300>(); large<16, 17>(); large<2, 130>(); large<130, 2>(); large<9, 8, 7>(); large<258, 2>(); special<rm::multi_array<double, 1, 2>, 2>("1.2"); special<rm::multi_array<double, 3>, 3>("3");
#elif SEC == 3
  Run<int, 2, 2>::ops("int", gi, P); Run<double, 2, 2>::ops("double", gd, P); Run<int, 3>::ops("int", gi, P);
#else
  Run<int, 2, 3>::ops("int", gi, P); Run<double, 1, 3, 2>::ops("double", gd, P); Run<int, 3, 3>::ops("int", gi, P); Run<float, 1>::ops("float", {-1.5f, 0, .3f, 3}, P); Run<long, 2, 2, 2>::ops("long", {-5, 3}, P);
#endif
  mc::finish();
}
