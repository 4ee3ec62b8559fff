// U06: dimensioned arrays: all operand grids, all operators, distinct and identical operands.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <complex>
#include <sstream>
#include "ristra/utils/dimensioned_array.h"
using namespace ristra::utils;
enum class Var : size_t { a = 0, b = 1, c = 2 };
template <class T> std::string S(T v) { std::ostringstream o; o << v; return o.str(); }
template <class T, size_t N> std::string str(const std::array<T, N> &a) { std::string s = "("; for (auto &x : a) s += S(x) + " "; return s + ")"; }
template <class T, size_t N> void run(const char *tn, std::vector<T> grid) {
  using DA = dimensioned_array__<T, N, 1>; using A = std::array<T, N>;
  auto eq = [](const DA &d, const A &a) { for (size_t i = 0; i < N; ++i) if (!(d[i] == a[i])) return false; return true; };
  auto get = [](const DA &d) { A a; for (size_t i = 0; i < N; ++i) a[i] = d[i]; return a; };
  auto mkd = [](const A &a) { DA d; for (size_t i = 0; i < N; ++i) d[i] = a[i]; return d; };
  std::vector<A> all; mc::product(std::vector<int>(N, grid.size()), [&](const std::vector<int> &d) { A a; for (size_t i = 0; i < N; ++i) a[i] = grid[d[i]]; all.push_back(a); });
  auto ops = [&](auto f, const A &x, const A &y) { A r; for (size_t i = 0; i < N; ++i) { r[i] = x[i]; f(r[i], y[i]); } return r; };
  struct Op { const char *n; void (*f)(T &, T); void (*g)(DA &, const DA &); void (*h)(DA &, const T &); bool div; };
  Op op[4] = {{"+=", [](T &a, T b) { a += b; }, [](DA &a, const DA &b) { auto &r = (a += b); if (&r != &a) mc::fail("+= does not return its left operand"); }, [](DA &a, const T &b) { auto &r = (a += b); if (&r != &a) mc::fail("+= does not return its left operand"); }, false},
              {"-=", [](T &a, T b) { a -= b; }, [](DA &a, const DA &b) { auto &r = (a -= b); if (&r != &a) mc::fail("-= does not return its left operand"); }, [](DA &a, const T &b) { auto &r = (a -= b); if (&r != &a) mc::fail("-= does not return its left operand"); }, false},
              {"*=", [](T &a, T b) { a *= b; }, [](DA &a, const DA &b) { auto &r = (a *= b); if (&r != &a) mc::fail("*= does not return its left operand"); }, [](DA &a, const T &b) { auto &r = (a *= b); if (&r != &a) mc::fail("*= does not return its left operand"); }, false},
              {"/=", [](T &a, T b) { a /= b; }, [](DA &a, const DA &b) { auto &r = (a /= b); if (&r != &a) mc::fail("/= does not return its left operand"); }, [](DA &a, const T &b) { auto &r = (a /= b); if (&r != &a) mc::fail("/= does not return its left operand"); }, true}};
  if (mc::group(mc::fmt("unary.%s.%zu", tn, N))) for (auto &x : all) {
    if (!mc::next()) continue;
    DA d = mkd(x); const DA &c = d; MC_CHECK(eq(d, x) && d.size() == N && DA::size() == N, "%s element access", str(x).c_str());
    for (size_t i = 0; i < N; ++i) { MC_CHECK(&d[i] == &c[i] && &d[i] == &d[0] + i && d[(int)i] == x[i] && &d[Var(i)] == &d[i] && &d[axis(i)] == &d[i], "named and numeric access to component %zu", i); }
    DA e(d); MC_CHECK(eq(e, x), "copy of %s", str(x).c_str()); DA z = mkd(all[0]); auto &r = (z = d); MC_CHECK(eq(z, x) && &r == &z && eq(d, x), "assignment of %s", str(x).c_str()); z = z; MC_CHECK(eq(z, x), "self assignment of %s", str(x).c_str());
    for (size_t i = 0; i < N; ++i) { DA k = d; T v = x[i]; auto &rk = (k = k[i]); A w; w.fill(v); MC_CHECK(eq(k, w) && &rk == &k, "assignment of component %zu of %s", i, str(x).c_str()); DA fl(v); MC_CHECK(eq(fl, w), "filling with a value"); k = d; k[i] = grid[0]; A y = x; y[i] = grid[0]; MC_CHECK(eq(k, y) && eq(d, x), "writing component %zu of %s", i, str(x).c_str());
      for (auto &o : op) if (!o.div || v != T(0)) { DA q = d; o.h(q, q[i]); A w2; w2.fill(v); A ex = ops(o.f, x, w2); MC_CHECK(eq(q, ex), "%s %s own component %zu gives %s, expected %s", str(x).c_str(), o.n, i, str(get(q)).c_str(), str(ex).c_str()); } }
    if constexpr (N == 1) { DA l{x[0]}; MC_CHECK(eq(l, x), "list"); } else if constexpr (N == 2) { DA l{x[0], x[1]}, p(x[0], x[1]); MC_CHECK(eq(l, x) && eq(p, x), "construction from components"); } else if constexpr (N == 3) { DA l{x[0], x[1], x[2]}, p(x[0], x[1], x[2]); MC_CHECK(eq(l, x) && eq(p, x), "construction from components"); } else { DA p(x[0], x[1], x[2], x[3]); DA l{x[0], x[1], x[2], x[3]}; MC_CHECK(eq(p, x) && eq(l, x), "construction from components"); }
    std::ostringstream o; o << c << "#"; std::string w = "["; for (auto &v : x) w += " " + S(v); w += " ]#"; MC_CHECK(o.str() == w, "output %s, expected %s", o.str().c_str(), w.c_str());
    for (auto &q : op) { bool z0 = false; if (q.div) for (auto &v : x) if (v == T(0)) z0 = true; if (z0) continue; DA k = d; q.g(k, k); A ex = ops(q.f, x, x); MC_CHECK(eq(k, ex), "%s %s itself gives %s, expected %s", str(x).c_str(), q.n, str(get(k)).c_str(), str(ex).c_str()); }
    DA k = d; k = k + k; A ex = ops([](T &a, T b) { a += b; }, x, x); MC_CHECK(eq(k, ex), "a = a + a"); DA p = d + d; MC_CHECK(eq(p, ex) && eq(d, x), "a + a"); DA m = d - d; ex = ops([](T &a, T b) { a -= b; }, x, x); MC_CHECK(eq(m, ex), "a - a");
    for (auto v : grid) { A w2; w2.fill(v); for (auto &q : op) { if (q.div && v == T(0)) continue; DA y = d; q.h(y, v); A e2 = ops(q.f, x, w2); MC_CHECK(eq(y, e2), "%s %s %s gives %s, expected %s", str(x).c_str(), q.n, S(v).c_str(), str(get(y)).c_str(), str(e2).c_str()); } if (v != T(0)) { DA y = d / v; A e2 = ops([](T &a, T b) { a /= b; }, x, w2); MC_CHECK(eq(y, e2) && eq(d, x), "%s / %s", str(x).c_str(), S(v).c_str()); } DA f = d; f = v; MC_CHECK(eq(f, w2), "= %s", S(v).c_str()); }
  }
  if (mc::group(mc::fmt("binary.%s.%zu", tn, N))) for (auto &x : all) for (auto &y : all) {
    if (!mc::next()) continue;
    DA a = mkd(x), b = mkd(y);
    for (auto &q : op) { bool z0 = false; if (q.div) for (auto &v : y) if (v == T(0)) z0 = true; if (z0) continue; DA k = a; q.g(k, b); A ex = ops(q.f, x, y); MC_CHECK(eq(k, ex) && eq(b, y), "%s %s %s gives %s, expected %s", str(x).c_str(), q.n, str(y).c_str(), str(get(k)).c_str(), str(ex).c_str()); }
    DA s = a + b, d = a - b; MC_CHECK(eq(s, ops([](T &a, T b) { a += b; }, x, y)) && eq(d, ops([](T &a, T b) { a -= b; }, x, y)) && eq(a, x) && eq(b, y), "sum and difference of %s and %s", str(x).c_str(), str(y).c_str());
    a = b; MC_CHECK(eq(a, y) && eq(b, y), "assignment"); a[0] = x[0]; MC_CHECK(b[0] == y[0], "copies are independent");
    mc::distinct(mc::hash(str(x) + str(y)));
  }
}
// many components: sizes beyond narrow counters
template <size_t N> void large() {
  if (!mc::group(mc::fmt("large.%zu", N)) || !mc::next()) return;
  using A = dimensioned_array__<double, N, 1>; auto val = [](size_t i) { return double(i * 37 % 1009) - 500.5; }; A a(0.0), b(0.0); for (size_t i = 0; i < N; ++i) a[i] = val(i), b[i] = val(i + 3); std::string w = "[";
  for (size_t i = 0; i < N; ++i) { MC_CHECK(a[i] == val(i) && &a[i] == &a[0] + i, "component %zu of %zu", i, N); w += " " + S(val(i)); } MC_CHECK(A::size() == N, "size"); std::ostringstream o; o << a; MC_CHECK(o.str() == w + " ]", "output of %zu components", N); A z(7.0), k = a; k += b; A s = a + b, d = a - b, q = a; q -= b; A m = a; m *= b; A v = a; v /= b; A t = a; t += 2.; A t2 = a; t2 -= 2.; A t3 = a; t3 *= 2.; A t4 = a; t4 /= 2.; A t5 = a / 2.; A f = a; f = 3.; A g(a); A h(1.0); h = a;
  for (size_t i = 0; i < N; ++i) { double x = val(i), y = val(i + 3); MC_CHECK(z[i] == 7 && k[i] == x + y && s[i] == x + y && d[i] == x - y && q[i] == x - y && m[i] == x * y && v[i] == x / y && t[i] == x + 2 && t2[i] == x - 2 && t3[i] == x * 2 && t4[i] == x / 2 && t5[i] == x / 2 && f[i] == 3 && g[i] == x && h[i] == x && a[i] == x && b[i] == y, "component %zu of an operation on %zu components", i, N); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  std::vector<int> gi{-7, -2, -1, 0, 1, 2, 3, 10}; std::vector<double> gd{-3.5, -1, -0.0, 0, 0.1, 1. / 3, 2, 7, 1e10, 1e-10}; std::vector<float> gf{-1.5f, 0, .3f, 3, 1e7f}; std::vector<long> gl{-5, 0, 3, 1000000007};
  run<int, 1>("int", gi); run<int, 2>("int", gi); run<double, 1>("double", gd); run<double, 2>("double", gd); run<int, 3>("int", t ? gi : std::vector<int>{-7, -1, 0, 2, 3}); run<double, 3>("double", t ? gd : std::vector<double>{-3.5, 0, .1, 1. / 3, 7}); run<float, 3>("float", gf); run<long, 4>("long", t ? gl : std::vector<long>{-5, 0, 3});
  large<9>(); large<17>(); large<65>(); large<130>(); large<257>(); large<300>();
  mc::finish();
}
