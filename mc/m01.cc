// M01: arrays, points, vectors and tuples: all operators on all operand grids, with aliasing.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <sstream>
#include <stdexcept>
#include "ristra/math/vector.h"
#include "ristra/math/general.h"
#include "ristra/math/tuple.h"
#include "ristra/geometry/space_vector.h"
namespace rm = ristra::math; namespace rg = ristra::geometry;
template <class T> std::string S(T v) { std::ostringstream o; o << v; return o.str(); }
template <class V> std::string str(const V &a) { std::string s = "("; for (auto &x : a) s += S(x) + " "; return s + ")"; }
template <class T> bool same(T a, T b) { if constexpr (std::is_floating_point<T>::value) if (a == b && std::signbit(a) != std::signbit(b)) return false; return a == b || (a != a && b != b); }
// division may be carried out through the reciprocal in floating point
template <class T> bool near(T a, T b) { if constexpr (std::is_floating_point<T>::value) return a == b || same(a, b) || std::abs(a - b) <= 8 * std::numeric_limits<T>::epsilon() * std::abs(b); else return a == b; }
enum { ADD, SUB, MUL, DIV };
static const char *on[] = {"+", "-", "*", "/"};
template <class R, class T, class U> R ap(int o, T x, U y) { switch (o) { case ADD: return R(x + y); case SUB: return R(x - y); case MUL: return R(x * y); default: return R(x / y); } }
template <class T, size_t N> struct Run {
  using A = rm::array<T, N>; using Z = std::array<T, N>;
  static A mk(const Z &z) { A a; for (size_t i = 0; i < N; ++i) a[i] = z[i]; return a; }
  static bool eq(const A &a, const Z &z, bool div = false) { for (size_t i = 0; i < N; ++i) if (div ? !near<T>(a[i], z[i]) : !same<T>(a[i], z[i])) return false; return true; }
  template <class B> static bool anyzero(const B &z) { for (auto v : z) if (v == 0) return true; return false; }
  template <class U> static void comp(int o, A &a, const U &u) { auto &r = o == ADD ? (a += u) : o == SUB ? (a -= u) : o == MUL ? (a *= u) : (a /= u); if (&r != &a) mc::fail("compound operator does not return its left operand"); }
  template <class U> static void scalar(const Z &x, U v, const char *un) {
    A a = mk(x);
    for (int o = 0; o < 4; ++o) {
      if (!(o == DIV && v == U(0))) { Z e; for (size_t i = 0; i < N; ++i) { e[i] = ap<T>(o, x[i], v); }
        A k = a; comp(o, k, v); MC_CHECK(eq(k, e, o == DIV), "%s %s= %s%s gives %s, expected %s", str(x).c_str(), on[o], S(v).c_str(), un, str(k).c_str(), str(e).c_str());
        A p = o == ADD ? a + v : o == SUB ? a - v : o == MUL ? a * v : a / v; MC_CHECK(eq(p, e, o == DIV) && eq(a, x), "%s %s %s%s gives %s, expected %s", str(x).c_str(), on[o], S(v).c_str(), un, str(p).c_str(), str(e).c_str()); }
      if (!(o == DIV && anyzero(x))) { Z e; for (size_t i = 0; i < N; ++i) e[i] = ap<T>(o, v, x[i]); A p = o == ADD ? v + a : o == SUB ? v - a : o == MUL ? v * a : v / a; MC_CHECK(eq(p, e, o == DIV) && eq(a, x), "%s%s %s %s gives %s, expected %s", S(v).c_str(), un, on[o], str(x).c_str(), str(p).c_str(), str(e).c_str()); }
    }
    A f = a; auto &r = (f = v); Z e; e.fill(T(v)); MC_CHECK(eq(f, e) && &r == &f, "assignment of the scalar %s", S(v).c_str());
    bool all = true; for (auto c : x) if (!(c == v)) all = false; MC_CHECK((a == v) == all, "%s == %s", str(x).c_str(), S(v).c_str());
  }
  static void run(const char *tn, const std::vector<T> &grid) {
    std::vector<Z> all; mc::product(std::vector<int>(N, grid.size()), [&](const std::vector<int> &d) { Z a; for (size_t i = 0; i < N; ++i) a[i] = grid[d[i]]; all.push_back(a); });
    if (mc::group(mc::fmt("unary.%s.%zu", tn, N))) for (auto &x : all) {
      if (!mc::next()) continue;
      A a = mk(x); const A &c = a;
      MC_CHECK(eq(a, x) && a.size() == N && a.capacity() == N && a.max_size() == N && !a.empty() && A::length == N, "sizes");
      for (size_t i = 0; i < N; ++i) MC_CHECK(&a[i] == a.data() + i && &c[i] == &a[i] && &a(i) == &a[i] && &c(i) == &a[i] && &a.at(i) == &a[i] && &c.at(i) == &a[i] && a.c_array() + i == &a[i] && c.data() + i == &a[i] && a.begin() + i == &a[i] && c.begin() + i == &a[i] && c.cbegin() + i == &a[i], "access to component %zu", i);
      MC_CHECK(&a.front() == &a[0] && &c.front() == &a[0] && &a.back() == &a[N - 1] && &c.back() == &a[N - 1] && a.end() - a.begin() == (long)N && c.end() - c.begin() == (long)N && c.cend() == c.end(), "ends");
      std::vector<T> rv(a.rbegin(), a.rend()), rv2(c.rbegin(), c.rend()), rv3(c.crbegin(), c.crend()), w(x.rbegin(), x.rend()); MC_CHECK(rv == w && rv2 == w && rv3 == w, "reverse iteration");
      for (size_t i : {N, N + 1, (size_t)-1, size_t(1) << 8, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63}) { bool t1 = false, t2 = false; try { a.at(i); } catch (std::out_of_range &) { t1 = true; } try { c.at(i); } catch (std::out_of_range &) { t2 = true; } MC_CHECK(t1 && t2, "at(%zu) does not throw", i); }
      A b(a); MC_CHECK(eq(b, x), "copy"); A d; d = a; MC_CHECK(eq(d, x), "assignment"); d = d; MC_CHECK(eq(d, x), "self assignment"); A m = -a; Z e; for (size_t i = 0; i < N; ++i) e[i] = -x[i]; MC_CHECK(eq(m, e) && eq(a, x), "negation of %s", str(x).c_str());
      d.fill(x[0]); e.fill(x[0]); MC_CHECK(eq(d, e), "fill"); A fc(x[N - 1]); e.fill(x[N - 1]); MC_CHECK(eq(fc, e), "construction by a value"); d.assign(x.begin(), x.end()); MC_CHECK(eq(d, x), "assign");
      for (size_t i = 0; i < N; ++i) { A k = a; k.fill(k[i]); e.fill(x[i]); MC_CHECK(eq(k, e), "fill with own component"); k = a; k = k[i]; MC_CHECK(eq(k, e), "assignment of own component");
        for (int o = 0; o < 4; ++o) if (!(o == DIV && x[i] == T(0))) { k = a; comp(o, k, k[i]); for (size_t j = 0; j < N; ++j) e[j] = ap<T>(o, x[j], x[i]); MC_CHECK(eq(k, e, o == DIV), "%s %s= own component %zu gives %s, expected %s", str(x).c_str(), on[o], i, str(k).c_str(), str(e).c_str()); } }
      for (int o = 0; o < 4; ++o) if (!(o == DIV && anyzero(x))) { A k = a; comp(o, k, k); for (size_t j = 0; j < N; ++j) e[j] = ap<T>(o, x[j], x[j]); MC_CHECK(eq(k, e, o == DIV), "%s %s= itself gives %s, expected %s", str(x).c_str(), on[o], str(k).c_str(), str(e).c_str()); k = a; k = o == ADD ? k + k : o == SUB ? k - k : o == MUL ? k * k : k / k; MC_CHECK(eq(k, e, o == DIV), "a = a %s a", on[o]); }
      A n = mk(x); n[0] = n[0] + T(1); MC_CHECK(eq(a, x) && eq(b, x), "copies share components");
      for (T v : grid) scalar<T>(x, v, ""); scalar<int>(x, 2, "i"); scalar<int>(x, -3, "i"); scalar<double>(x, 2.5, "d"); scalar<double>(x, -0.25, "d"); if (N < 3) scalar<float>(x, 1.5f, "f"), scalar<long>(x, 7, "l"), scalar<unsigned>(x, 3u, "u");
      std::ostringstream os; os << c; std::string ws = "("; for (auto v : x) ws += " " + S(v); MC_CHECK(os.str() == ws + " )", "output %s", os.str().c_str());
      rm::array<double, N> q(a); rm::array<long, N> ql(a); for (size_t i = 0; i < N; ++i) MC_CHECK(q[i] == double(x[i]) && ql[i] == long(x[i]), "conversion of the element type"); rm::array<double, N> q2; q2 = a; for (size_t i = 0; i < N; ++i) MC_CHECK(q2[i] == double(x[i]), "assignment from another element type"); A back(q); MC_CHECK(eq(back, x), "conversion back");
      if constexpr (N == 2) { A l(x[0], x[1]); A l2{x[0], x[1]}; A l3; l3.assign({x[0], x[1]}); MC_CHECK(eq(l, x) && eq(l2, x) && eq(l3, x), "construction from components"); int i0 = int(x[0]); double d1 = double(x[1]); A l4(i0, d1); MC_CHECK(l4[0] == T(int(x[0])) && l4[1] == x[1], "construction from mixed components"); }
      if constexpr (N == 3) { A l(x[0], x[1], x[2]); A l2{x[0], x[1], x[2]}; A l3; l3.assign({x[0], x[1], x[2]}); MC_CHECK(eq(l, x) && eq(l2, x) && eq(l3, x), "construction from components"); }
      if constexpr (N == 4) { A l(x[0], x[1], x[2], x[3]); MC_CHECK(eq(l, x), "construction from components"); }
      mc::distinct(mc::hash(str(x)));
    }
    if (mc::group(mc::fmt("binary.%s.%zu", tn, N))) for (auto &x : all) for (auto &y : all) {
      if (!mc::next()) continue;
      A a = mk(x), b = mk(y); rm::array<double, N> bd(b);
      for (int o = 0; o < 4; ++o) if (!(o == DIV && anyzero(y))) { Z e, ed; for (size_t i = 0; i < N; ++i) e[i] = ap<T>(o, x[i], y[i]), ed[i] = ap<T>(o, x[i], double(y[i])); A k = a; comp(o, k, b); MC_CHECK(eq(k, e, o == DIV) && eq(b, y), "%s %s= %s gives %s, expected %s", str(x).c_str(), on[o], str(y).c_str(), str(k).c_str(), str(e).c_str()); A p = o == ADD ? a + b : o == SUB ? a - b : o == MUL ? a * b : a / b; MC_CHECK(eq(p, e, o == DIV) && eq(a, x) && eq(b, y), "%s %s %s gives %s, expected %s", str(x).c_str(), on[o], str(y).c_str(), str(p).c_str(), str(e).c_str()); k = a; comp(o, k, bd); MC_CHECK(eq(k, ed, o == DIV), "%s %s= %s (other element type) gives %s, expected %s", str(x).c_str(), on[o], str(y).c_str(), str(k).c_str(), str(ed).c_str()); }
      MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison of %s and %s", str(x).c_str(), str(y).c_str());
      A u = a, v = b; u.swap(v); MC_CHECK(eq(u, y) && eq(v, x), "swap member"); swap(u, v); MC_CHECK(eq(u, x) && eq(v, y), "swap");
      u.swap(u); MC_CHECK(eq(u, x), "swap with itself");
      // products
      long double dot = 0, na = 0, nd = 0; for (size_t i = 0; i < N; ++i) dot += (long double)x[i] * y[i], na += (long double)x[i] * x[i], nd += ((long double)x[i] - y[i]) * ((long double)x[i] - y[i]);
      auto cl = [](long double g, long double w, long double sc) { return std::abs(g - w) <= 1e-5L * (std::is_same<T, float>::value ? 1 : 1e-8L) * (1 + sc); };
      if (std::is_integral<T>::value) MC_CHECK((long double)rm::dot_product(a, b) == dot && rm::magnitude(a) == T(std::sqrt((double)na)) && rm::abs(a) == T(std::sqrt((double)na)), "dot product %s %s", str(x).c_str(), str(y).c_str());
      else { MC_CHECK(cl(rm::dot_product(a, b), dot, na + nd) && cl(rm::magnitude(a), std::sqrt(na), na) && cl(rm::abs(a), std::sqrt(na), na) && cl(rm::delta_magnitude(a, b), std::sqrt(nd), na + nd), "dot product or magnitude of %s, %s", str(x).c_str(), str(y).c_str());
        if (na > 0) { A un = rm::unit(a); for (size_t i = 0; i < N; ++i) MC_CHECK(cl(un[i], x[i] / std::sqrt(na), 1), "unit(%s) = %s", str(x).c_str(), str(un).c_str()); } }
      A mn = rm::min(a, b), mx = rm::max(a, b); for (size_t i = 0; i < N; ++i) MC_CHECK(mn[i] == std::min(x[i], y[i]) && mx[i] == std::max(x[i], y[i]), "element-wise minimum and maximum");
      if constexpr (N == 2) { MC_CHECK(cl(rm::cross_product(a, b), (long double)x[0] * y[1] - (long double)x[1] * y[0], na + nd), "cross product"); A n = rm::normal(a, b); MC_CHECK(n[0] == T(x[1] - y[1]) && n[1] == T(y[0] - x[0]), "normal of %s %s", str(x).c_str(), str(y).c_str()); }
      if constexpr (N == 3) { A n = rm::cross_product(a, b); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; MC_CHECK(cl(n[i], (long double)x[j] * y[k] - (long double)x[k] * y[j], na + nd), "component %d of the cross product of %s and %s", i, str(x).c_str(), str(y).c_str()); } A s = rm::cross_product(a, a); if (std::is_integral<T>::value) MC_CHECK(s == T(0), "a x a"); 
        for (auto &z : {all[0], all[all.size() / 2], all[all.size() - 1], all[all.size() / 3], all[all.size() * 5 / 7]}) { A zc = mk(z); long double t = 0; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; t += (long double)z[i] * ((long double)x[j] * y[k] - (long double)x[k] * y[j]); } long double sc = 0; for (int i = 0; i < 3; ++i) sc += std::abs((long double)z[i]); MC_CHECK(cl(rm::triple_product(a, b, zc), t, sc * (na + nd)), "triple product of %s %s %s", str(x).c_str(), str(y).c_str(), str(z).c_str()); } }
      // reflection about the plane with normal b: exact in integers
      A rf = rm::reflect(a, b); for (size_t i = 0; i < N; ++i) MC_CHECK(cl(rf[i], x[i] - 2 * dot * y[i], (1 + std::abs(dot)) * (1 + na + nd)), "reflect(%s,%s) = %s", str(x).c_str(), str(y).c_str(), str(rf).c_str());
    }
    // the spatial vector functions on the same grids
    if constexpr (std::is_floating_point<T>::value) if (mc::group(mc::fmt("space.%s.%zu", tn, N))) for (auto &x : all) for (auto &y : all) {
      if (!mc::next()) continue;
      using V = rg::space_vector<T, N>; V a, b; rg::point<T, N> p = mk(x), q = mk(y); a = rg::point_to_vector(p); b = rg::point_to_vector(q); long double dot = 0, na = 0, nb = 0; for (size_t i = 0; i < N; ++i) { MC_CHECK(a[i] == x[i] && b[i] == y[i], "point_to_vector"); dot += (long double)x[i] * y[i]; na += (long double)x[i] * x[i]; nb += (long double)y[i] * y[i]; }
      auto cl = [&](long double g, long double w) { return std::abs(g - w) <= 1e-5L * (std::is_same<T, float>::value ? 1 : 1e-8L) * (1 + na + nb); };
      MC_CHECK(cl(rg::dot(a, b), dot) && cl(rg::magnitude(a), std::sqrt(na)) && cl(rg::dot(a, a), na), "dot or magnitude of %s %s", str(x).c_str(), str(y).c_str());
      V s = rg::operator*(a, y[0]); for (size_t i = 0; i < N; ++i) MC_CHECK(s[i] == x[i] * y[0] && a[i] == x[i], "space vector times scalar"); a = rg::operator*(a, a[0]); for (size_t i = 0; i < N; ++i) MC_CHECK(a[i] == x[i] * x[0], "space vector times own component"); a = rg::point_to_vector(p);
      if constexpr (N == 1) MC_CHECK(rg::cross_magnitude(a, b) == 0, "cross magnitude"); if constexpr (N == 2) { MC_CHECK(cl(rg::cross_magnitude(a, b), std::abs((long double)x[0] * y[1] - (long double)x[1] * y[0])), "cross magnitude of %s %s", str(x).c_str(), str(y).c_str()); V n = rg::normal(p, q); MC_CHECK(n[0] == x[1] - y[1] && n[1] == y[0] - x[0], "normal of %s %s", str(x).c_str(), str(y).c_str()); }
      if constexpr (N == 3) { long double cm = 0; V n = rg::normal(a, b); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; long double c = (long double)x[j] * y[k] - (long double)x[k] * y[j]; cm += c * c; MC_CHECK(cl(n[i], c), "component %d of the normal of %s %s", i, str(x).c_str(), str(y).c_str()); } MC_CHECK(cl(rg::cross_magnitude(a, b), std::sqrt(cm)), "cross magnitude of %s %s", str(x).c_str(), str(y).c_str()); }
    }
  }
};

// math::tuple
template <class Tup> std::string ts(const Tup &t) { std::string r = "{"; std::apply([&](auto &...x) { ((r += S(x) + " "), ...); }, t); return r + "}"; }
template <int O, class... T> void tup2(std::tuple<T...> x, std::tuple<T...> y) {
  using Z = std::tuple<T...>;
  bool z0 = false; std::apply([&](auto... v) { ((z0 |= v == 0), ...); }, y); if (O == DIV && z0) return;
  Z e = x; [&]<size_t... I>(std::index_sequence<I...>) { ((std::get<I>(e) = ap<std::tuple_element_t<I, Z>>(O, std::get<I>(x), std::get<I>(y))), ...); }(std::index_sequence_for<T...>());
  using namespace ristra::math; Z k = x, p, y0 = y, x0 = x;
  if constexpr (O == ADD) plus_equal(k, y), p = ristra::math::operator+(x, y); if constexpr (O == SUB) minus_equal(k, y), p = ristra::math::operator-(x, y); if constexpr (O == MUL) multiplies_equal(k, y), p = ristra::math::operator*(x, y); if constexpr (O == DIV) divides_equal(k, y), p = ristra::math::operator/(x, y);
  MC_CHECK(k == e && y == y0, "%s %s= %s gives %s, expected %s", ts(x).c_str(), on[O], ts(y).c_str(), ts(k).c_str(), ts(e).c_str()); MC_CHECK(p == e && x == x0, "%s %s %s gives %s, expected %s", ts(x).c_str(), on[O], ts(y).c_str(), ts(p).c_str(), ts(e).c_str());
  if (x == y) { k = x; if constexpr (O == ADD) plus_equal(k, k); if constexpr (O == SUB) minus_equal(k, k); if constexpr (O == MUL) multiplies_equal(k, k); if constexpr (O == DIV) divides_equal(k, k); MC_CHECK(k == e, "%s %s= itself", ts(x).c_str(), on[O]); }
}
template <int O, class U, class... T> void tup1(std::tuple<T...> x, U v) {
  using Z = std::tuple<T...>; using namespace ristra::math; constexpr auto N = sizeof...(T); Z x0 = x;
  auto tup_eq = [&](const Z &a, const Z &b) { return a == b; };
  if (!(O == DIV && v == U(0))) { Z e = x, k = x, p; [&]<size_t... I>(std::index_sequence<I...>) { ((std::get<I>(e) = ap<std::tuple_element_t<I, Z>>(O, std::get<I>(x), v)), ...); }(std::index_sequence_for<T...>());
    if constexpr (O == ADD) plus_equal(k, v), p = ristra::math::operator+(x, v); if constexpr (O == SUB) minus_equal(k, v), p = ristra::math::operator-(x, v); if constexpr (O == MUL) multiplies_equal(k, v), p = ristra::math::operator*(x, v); if constexpr (O == DIV) divides_equal(k, v), p = ristra::math::operator/(x, v);
    MC_CHECK(tup_eq(k, e) && tup_eq(p, e) && tup_eq(x, x0), "%s %s %s gives %s and %s, expected %s", ts(x).c_str(), on[O], S(v).c_str(), ts(k).c_str(), ts(p).c_str(), ts(e).c_str()); }
  bool z0 = false; std::apply([&](auto... w) { ((z0 |= w == 0), ...); }, x);
  if (!(O == DIV && z0)) { Z e = x, p; [&]<size_t... I>(std::index_sequence<I...>) { ((std::get<I>(e) = ap<std::tuple_element_t<I, Z>>(O, v, std::get<I>(x))), ...); }(std::index_sequence_for<T...>());
    if constexpr (O == ADD) p = ristra::math::operator+(v, x); if constexpr (O == SUB) p = ristra::math::operator-(v, x); if constexpr (O == MUL) p = ristra::math::operator*(v, x); if constexpr (O == DIV) p = ristra::math::operator/(v, x);
    MC_CHECK(tup_eq(p, e) && tup_eq(x, x0), "%s %s %s gives %s, expected %s", S(v).c_str(), on[O], ts(x).c_str(), ts(p).c_str(), ts(e).c_str()); }
  // own component as the scalar
  [&]<size_t... I>(std::index_sequence<I...>) { ([&] { auto w = std::get<I>(x); if (O == DIV && w == 0) return; Z e = x, k = x; [&]<size_t... J>(std::index_sequence<J...>) { ((std::get<J>(e) = ap<std::tuple_element_t<J, Z>>(O, std::get<J>(x), w)), ...); }(std::index_sequence_for<T...>());
    if constexpr (O == ADD) plus_equal(k, std::get<I>(k)); if constexpr (O == SUB) minus_equal(k, std::get<I>(k)); if constexpr (O == MUL) multiplies_equal(k, std::get<I>(k)); if constexpr (O == DIV) divides_equal(k, std::get<I>(k)); MC_CHECK(tup_eq(k, e), "%s %s= own component %zu gives %s, expected %s", ts(x).c_str(), on[O], I, ts(k).c_str(), ts(e).c_str());
    Z f = x; fill(f, std::get<I>(f)); Z ef = x; std::apply([&](auto &...q) { ((q = w), ...); }, ef); MC_CHECK(tup_eq(f, ef), "fill with own component"); }(), ...); }(std::index_sequence_for<T...>());
  Z f = x; fill(f, v); Z ef = x; std::apply([&](auto &...q) { ((q = v), ...); }, ef); MC_CHECK(tup_eq(f, ef), "fill");
  std::ostringstream os; ristra::math::operator<<(os, x); std::string ws = "{"; std::apply([&](auto &...q) { ((ws += " [ " + S(q) + " ]"), ...); }, x); MC_CHECK(os.str() == ws + " }", "output %s", os.str().c_str());
}
template <class... T> void tuples(const char *nm, const std::vector<double> &grid) {
  if (!mc::group(std::string("tuple.") + nm)) return;
  using Z = std::tuple<T...>; std::vector<Z> all; mc::product(std::vector<int>(sizeof...(T), grid.size()), [&](const std::vector<int> &d) { Z z; int k = 0; std::apply([&](auto &...q) { ((q = std::decay_t<decltype(q)>(grid[d[k++]])), ...); }, z); all.push_back(z); });
  for (auto &x : all) { if (mc::next()) for (double v : grid) { tup1<ADD>(x, v); tup1<SUB>(x, v); tup1<MUL>(x, v); tup1<DIV>(x, v); tup1<ADD>(x, int(v)); tup1<SUB>(x, int(v)); tup1<MUL>(x, int(v)); tup1<DIV>(x, int(v)); } for (auto &y : all) if (mc::next()) { tup2<ADD>(x, y); tup2<SUB>(x, y); tup2<MUL>(x, y); tup2<DIV>(x, y); } }
}
// very small and very large operands: exact powers of two times small integers
template <class T, size_t N> void scaled(const char *tn, int lim, const std::vector<int> &grid) {
  if (!mc::group(mc::fmt("scaled.%s.%zu", tn, N))) return;
  using A = rm::array<T, N>; using LD = long double; const LD eps = 64 * LD(std::numeric_limits<T>::epsilon()); std::vector<std::array<int, N>> all; mc::product(std::vector<int>(N, grid.size()), [&](const std::vector<int> &d) { std::array<int, N> a; for (size_t i = 0; i < N; ++i) a[i] = grid[d[i]]; all.push_back(a); });
  for (int k : mc::scales(lim)) for (int j : {k, -k, 0, k / 2}) for (auto &x : all) for (auto &y : all) { if (!mc::next()) continue;
    T s = std::ldexp(T(1), k), r = std::ldexp(T(1), j); LD S = s, R = r; A a, b; LD dot = 0, na = 0, nb = 0, nd = 0, mag; for (size_t i = 0; i < N; ++i) { a[i] = x[i] * s; b[i] = y[i] * r; dot += LD(x[i]) * y[i]; na += LD(x[i]) * x[i]; nb += LD(y[i]) * y[i]; nd += (x[i] * S - y[i] * R) * (x[i] * S - y[i] * R); } const A a0 = a, b0 = b; mag = std::sqrt(na) * std::sqrt(nb);
    auto cl = [&](LD g, LD w, LD sc) { return std::abs(g - w) <= eps * sc; }; std::string w = str(a) + " " + str(b);
    MC_CHECK(cl(rm::dot_product(a, b), dot * S * R, mag * S * R), "dot product of %s is %g", w.c_str(), (double)rm::dot_product(a, b)); MC_CHECK(cl(rm::magnitude(a), std::sqrt(na) * S, std::sqrt(na) * S) && cl(rm::abs(a), std::sqrt(na) * S, std::sqrt(na) * S), "magnitude of %s is %g", w.c_str(), (double)rm::magnitude(a)); MC_CHECK(cl(rm::delta_magnitude(a, b), std::sqrt(nd), std::sqrt(nd)), "distance of %s is %g", w.c_str(), (double)rm::delta_magnitude(a, b));
    if (na > 0) { A u = rm::unit(a); for (size_t i = 0; i < N; ++i) MC_CHECK(cl(u[i], x[i] / std::sqrt(na), 1), "unit vector of %s is %s", w.c_str(), str(u).c_str()); }
    A p = a + b, m = a - b, q = a * b, mn = rm::min(a, b), mx = rm::max(a, b), ng = -a, sc = a * r, sd = a / r; for (size_t i = 0; i < N; ++i) { MC_CHECK(p[i] == a0[i] + b0[i] && m[i] == a0[i] - b0[i] && q[i] == a0[i] * b0[i] && mn[i] == std::min(a0[i], b0[i]) && mx[i] == std::max(a0[i], b0[i]) && ng[i] == -a0[i] && sc[i] == a0[i] * r && near<T>(sd[i], a0[i] / r), "component %zu of an operation on %s", i, w.c_str()); if (b0[i] != 0) { A c(a0[i]), d(b0[i]); MC_CHECK(near<T>((c / d)[0], a0[i] / b0[i]), "quotient of %s", w.c_str()); } }
    if (k == j) MC_CHECK((a == b) == (x == y) && (a < b) == (x < y) && (a != b) == (x != y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison of %s", w.c_str());
    if constexpr (N == 2) { MC_CHECK(cl(rm::cross_product(a, b), (LD(x[0]) * y[1] - LD(x[1]) * y[0]) * S * R, mag * S * R), "cross product of %s", w.c_str()); A n = rm::normal(a, b); MC_CHECK(n[0] == a0[1] - b0[1] && n[1] == b0[0] - a0[0], "normal of %s", w.c_str()); }
    if constexpr (N == 3) { A n = rm::cross_product(a, b); for (int i = 0; i < 3; ++i) MC_CHECK(cl(n[i], (LD(x[(i + 1) % 3]) * y[(i + 2) % 3] - LD(x[(i + 2) % 3]) * y[(i + 1) % 3]) * S * R, mag * S * R), "cross product of %s", w.c_str()); if (std::abs(k + j) <= lim) { A z; LD tp = 0; int zz[3] = {1, -2, 3}; for (int i = 0; i < 3; ++i) { z[i] = zz[i] * s; tp += zz[i] * (LD(x[(i + 1) % 3]) * y[(i + 2) % 3] - LD(x[(i + 2) % 3]) * y[(i + 1) % 3]); } if (std::abs(2 * k + j) <= 2 * lim) MC_CHECK(cl(rm::triple_product(a, b, z), tp * S * R * S, 4 * mag * S * R * S), "triple product of %s", w.c_str()); } }
    if (std::abs(k) + 2 * std::abs(j) <= 2 * lim) { A rf = rm::reflect(a, b); for (size_t i = 0; i < N; ++i) MC_CHECK(cl(rf[i], x[i] * S - 2 * dot * S * R * y[i] * R, std::sqrt(na) * S * (1 + 2 * nb * R * R)), "reflection of %s is %s", w.c_str(), str(rf).c_str()); }
    if constexpr (N <= 3) { using V = rg::space_vector<T, N>; V u, v; for (size_t i = 0; i < N; ++i) u[i] = a0[i], v[i] = b0[i]; MC_CHECK(cl(rg::dot(u, v), dot * S * R, mag * S * R) && cl(rg::magnitude(u), std::sqrt(na) * S, std::sqrt(na) * S), "dot or magnitude of the space vectors %s", w.c_str()); if constexpr (N > 1) if (2 * std::abs(k + j) <= 3 * lim) { LD cm = 0; if (N == 2) cm = std::abs(LD(x[0]) * y[1] - LD(x[1]) * y[0]); else { for (size_t i = 0; i < 3; ++i) { LD c = LD(x[(i + 1) % N]) * y[(i + 2) % N] - LD(x[(i + 2) % N]) * y[(i + 1) % N]; cm += c * c; } cm = std::sqrt(cm); } MC_CHECK(cl(rg::cross_magnitude(u, v), cm * S * R, mag * S * R), "cross magnitude of %s is %g", w.c_str(), (double)rg::cross_magnitude(u, v)); } }
    MC_CHECK(a == a0 && b == b0, "operands changed"); mc::distinct(mc::hash(w)); }
}
// many components: sizes beyond narrow counters
template <size_t N> void large() {
  if (!mc::group(mc::fmt("large.%zu", N)) || !mc::next()) return;
  using A = rm::array<double, N>; auto val = [](size_t i) { return double(i * 37 % 1009) - 500.5; }; A a(0.0), b(0.0); for (size_t i = 0; i < N; ++i) a[i] = val(i), b[i] = val(i + 3); std::string w = "(";
  for (size_t i = 0; i < N; ++i) { MC_CHECK(a[i] == val(i) && &a.at(i) == &a[0] + i && &a(i) == &a[i], "component %zu of %zu", i, N); w += " " + S(val(i)); } bool th = false; try { a.at(N); } catch (std::out_of_range &) { th = true; } MC_CHECK(th, "at(%zu)", N); MC_CHECK(a.size() == N && a.end() - a.begin() == (long)N && &a.back() == &a[N - 1], "size"); std::ostringstream o; o << a; MC_CHECK(o.str() == w + " )", "output of %zu components", N); A z(7.0), f = a, fl = a; f = 3.; fl.fill(4.); A g(a), h(1.0); h = a; A ng = -a; rm::array<float, N> cf(a); A u = a, uu = b; u.swap(uu); A as(0.0); as.assign(a.begin(), a.end()); A mn = rm::min(a, b), mx = rm::max(a, b);
  A p[4] = {a + b, a - b, a * b, a / b}, c[4] = {a, a, a, a}, sr[4] = {a + 2., a - 2., a * 2., a / 2.}, sl[4] = {2. + a, 2. - a, 2. * a, 2. / a}, sc[4] = {a, a, a, a}; c[0] += b; c[1] -= b; c[2] *= b; c[3] /= b; sc[0] += 2.; sc[1] -= 2.; sc[2] *= 2.; sc[3] /= 2.; long double dot = 0, na = 0, nd = 0;
  for (size_t i = 0; i < N; ++i) { double x = val(i), y = val(i + 3); dot += (long double)x * y; na += (long double)x * x; nd += (long double)(x - y) * (x - y); MC_CHECK(z[i] == 7 && f[i] == 3 && fl[i] == 4 && g[i] == x && h[i] == x && ng[i] == -x && cf[i] == (float)x && u[i] == y && uu[i] == x && as[i] == x && a[i] == x && b[i] == y && mn[i] == std::min(x, y) && mx[i] == std::max(x, y), "component %zu of %zu", i, N);
    for (int k = 0; k < 4; ++k) MC_CHECK(near(p[k][i], ap<double>(k, x, y)) && near(c[k][i], ap<double>(k, x, y)) && near(sr[k][i], ap<double>(k, x, 2.)) && near(sc[k][i], ap<double>(k, x, 2.)) && near(sl[k][i], ap<double>(k, 2., x)), "component %zu of operator %s on %zu components", i, on[k], N);
    A e = a; MC_CHECK(e == a && !(e != a), "comparison of %zu components", N); e[i] += 1; MC_CHECK(!(e == a) && e != a && a < e && !(e < a) && e > a && a <= e && !(e <= a) && e >= a, "comparison of %zu components that differ in %zu", N, i); A eq(2.); MC_CHECK(eq == 2., "comparison with a value"); eq[i] = 1; MC_CHECK(!(eq == 2.), "comparison of %zu components with a value", N); }
  auto cl = [&](long double g, long double w) { return std::abs(g - w) <= 1e-12L * na; }; MC_CHECK(cl(rm::dot_product(a, b), dot) && cl(rm::magnitude(a), std::sqrt(na)) && cl(rm::delta_magnitude(a, b), std::sqrt(nd)), "products of %zu components", N); A un = rm::unit(a), rf = rm::reflect(a, b); for (size_t i = 0; i < N; ++i) MC_CHECK(std::abs(un[i] - val(i) / std::sqrt(na)) < 1e-12L && std::abs(rf[i] - (val(i) - 2 * dot * val(i + 3))) <= 1e-9L * na * 1000, "unit or reflection of %zu components", N);
}
// not-a-number, infinities and both zeros in every component of both operands, which may be one object
template <class A, size_t E> void special(const char *tn) {
  if (!mc::group(std::string("special.") + tn)) return; const double nan = std::nan(""), inf = INFINITY; const double g[] = {0., -0., 1.5, nan, inf, -inf}; auto is = [](double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)) || (std::isfinite(b) && b != 0 && std::abs(a - b) <= 1e-14 * std::abs(b)); };
  mc::product(std::vector<int>(2 * E + 1, 6), [&](const std::vector<int> &d) { bool self = d[2 * E] == 0; if (d[2 * E] > 1) return; if (self) for (size_t i = 0; i < E; ++i) if (d[E + i]) return; if (!mc::next()) return; A a(0.), b0(0.); for (size_t i = 0; i < E; ++i) { a[i] = g[d[i]]; b0[i] = g[d[E + i]]; } const A &b = self ? a : b0; double x[E], y[E]; for (size_t i = 0; i < E; ++i) { x[i] = a[i]; y[i] = b[i]; }
    bool e = std::equal(x, x + E, y), l = std::lexicographical_compare(x, x + E, y, y + E), m = std::lexicographical_compare(y, y + E, x, x + E); mc::trans(); MC_CHECK((a == b) == e && (a != b) == !e && (a < b) == l && (a > b) == m, "comparison of %s and %s%s", str(a).c_str(), str(b).c_str(), self ? " (one object)" : ""); bool v = true; for (double q : x) v = v && q == y[0]; MC_CHECK((a == y[0]) == v, "comparison of %s with %g", str(a).c_str(), y[0]);
    A n = -a, p[4] = {a + b, a - b, a * b, a / b}, s[4] = {a + y[0], a - y[0], a * y[0], a / y[0]}; for (size_t i = 0; i < E; ++i) { MC_CHECK(is(n[i], -x[i]), "negation of %s", str(a).c_str()); for (int o = 0; o < 4; ++o) MC_CHECK(is(p[o][i], ap<double>(o, x[i], y[i])) && (o == DIV || is(s[o][i], ap<double>(o, x[i], y[0]))), "component %zu of %s %s %s", i, str(a).c_str(), on[o], str(b).c_str()); } }); }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  std::vector<int> gi{-7, -2, -1, 0, 1, 2, 3, 10}, gi3{-7, -1, 0, 2, 3}, gi4{-2, 0, 3, 5}; std::vector<double> gd{-3.5, -1, -0.0, 0, 0.1, 1. / 3, 2, 7, 1e6}, gd3{-3.5, 0, .1, 1. / 3, 7}, gd4{-1.5, 0, .3}; std::vector<float> gf{-1.5f, 0, .3f, 3, 1e3f}; std::vector<long> gl{-5, 0, 3, 1000};
#if SEC == 0
  Run<int, 1>::run("int", gi); Run<int, 2>::run("int", gi); Run<int, 3>::run("int", gi);
#elif SEC == 1
  Run<double, 1>::run("double", gd); Run<double, 2>::run("double", gd); Run<double, 3>::run("double", t ? gd : std::vector<double>{-3.5, -1, -0.0, 0.1, 1. / 3, 2, 7});
#elif SEC == 2
  Run<float, 3>::run("float", t ? gf : std::vector<float>{-1.5f, 0, .3f, 3}); Run<int, 4>::run("int", gi4); Run<double, 4>::run("double", gd4);
#elif SEC == 3
  Run<long, 2>::run("long", gl); Run<long, 5>::run("long", {-5, 3}); Run<float, 1>::run("float", gf);
  scaled<double, 1>("double", 300, {-3, 0, 1, 2}); scaled<double, 2>("double", 300, {-2, 0, 1, 3}); scaled<double, 3>("double", 300, {-2, 0, 1}); scaled<float, 2>("float", 34, {-2, 0, 1, 3}); scaled<float, 3>("float", 30, {-2, 0, 1});
  large<9>(); large<17>(); large<65>(); large<130>(); large<257>(); large<300>(); special<rm::array<double, 1>, 1>("1"); special<rm::array<double, 2>, 2>("2"); special<rm::array<double, 3>, 3>("3");
#else
  tuples<int>("i", {-7, -2, 0, 1, 3}); tuples<double, int>("di", {-7, -1.5, 0, 1. / 3, 2}); tuples<int, float, double>("ifd", {-3, 0, .5, 7}); if (t) tuples<double, double, int, int>("ddii", {-2.5, 0, 3});
#endif
  mc::finish();
}
