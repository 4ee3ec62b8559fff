// M03: small-matrix algebra against exact integer evaluation.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "ristra/math/general.h"
#include "ristra/math/matrix.h"
namespace rm = ristra::math;
using LD = long double;
template <class V> std::string str(const V &a) { std::ostringstream o; o << "("; for (auto &x : a) o << x << " "; return o.str() + ")"; }
static LD TOL = 1e-11L;
static bool cl(LD g, LD w, LD sc = 1, LD tol = TOL) { tol = std::max(tol, TOL); return std::abs(g - w) <= tol * (1 + sc); }
template <class T, size_t N> using vec = rm::array<T, N>;
// all matrices with entries in vals (row-major lists)
template <size_t R, size_t C, class F> void matrices(const std::vector<int> &vals, F f) { mc::product(std::vector<int>(R * C, vals.size()), [&](const std::vector<int> &d) { std::vector<LD> m; for (int k : d) m.push_back(vals[k]); f(m); }); }
template <class T, size_t R, size_t C> rm::matrix<T, R, C> M(const std::vector<LD> &m) { rm::matrix<T, R, C> a; for (size_t i = 0; i < R * C; ++i) a.data()[i] = T(m[i]); return a; }
static LD det(const std::vector<LD> &m, int n) { if (n == 1) return m[0]; LD s = 0; for (int c = 0; c < n; ++c) { std::vector<LD> k; for (int i = 1; i < n; ++i) for (int j = 0; j < n; ++j) if (j != c) k.push_back(m[i * n + j]); s += (c % 2 ? -1 : 1) * m[c] * det(k, n - 1); } return s; }
template <class T, size_t N> void square(const char *tn, const std::vector<int> &vals, const std::vector<int> &vv) {
  if (!mc::group(mc::fmt("square.%s.%zu", tn, N))) return;
  TOL = std::is_same<T, float>::value ? 1e-5L : 1e-11L;
  std::vector<std::array<LD, N>> vs; mc::product(std::vector<int>(N, vv.size()), [&](const std::vector<int> &d) { std::array<LD, N> v; for (size_t i = 0; i < N; ++i) v[i] = vv[d[i]]; vs.push_back(v); });
  auto vc = [](const std::array<LD, N> &v) { vec<T, N> a; for (size_t i = 0; i < N; ++i) a[i] = T(v[i]); return a; };
  matrices<N, N>(vals, [&](const std::vector<LD> &m) {
    if (!mc::next()) return;
    auto A = M<T, N, N>(m); const auto A0 = A; LD d = det(m, N); std::string ms = str(m);
    MC_CHECK(cl(rm::determinant(A), d), "determinant of %s is %Lg, expected %Lg", ms.c_str(), (LD)rm::determinant(A), d);
    if constexpr (N > 1) for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) { auto k = rm::cofactor(A, r, c); size_t q = 0; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i != r && j != c) { MC_CHECK(k.data()[q] == T(m[i * N + j]), "minor %zu %zu of %s", r, c, ms.c_str()); ++q; } }
    LD tr = 0, inf = 0, one = 0, two = 0; for (size_t i = 0; i < N; ++i) { tr += m[i * N + i]; LD r = 0, c = 0; for (size_t j = 0; j < N; ++j) { r += std::abs(m[i * N + j]); c += std::abs(m[j * N + i]); two += m[i * N + j] * m[i * N + j]; } inf = std::max(inf, r); one = std::max(one, c); }
    MC_CHECK(rm::trace_matrix(A) == T(tr), "trace of %s", ms.c_str()); MC_CHECK(rm::infinity_norm(A) == T(inf), "infinity norm of %s is %Lg", ms.c_str(), (LD)rm::infinity_norm(A)); MC_CHECK(rm::one_norm(A) == T(one), "one norm of %s is %Lg", ms.c_str(), (LD)rm::one_norm(A)); MC_CHECK(cl(rm::two_norm(A), std::sqrt(two)), "two norm of %s", ms.c_str());
    auto t = rm::transpose(A); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) MC_CHECK(t(j, i) == T(m[i * N + j]), "transpose of %s", ms.c_str()); MC_CHECK(rm::transpose(t) == A, "transpose of the transpose");
    auto sq = rm::matrix_multiply(A, A); auto acc = A; const auto B = A; rm::matrix_multiply(B, B, acc); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { LD s = 0; for (size_t k = 0; k < N; ++k) s += m[i * N + k] * m[k * N + j]; MC_CHECK(sq(i, j) == T(s) && acc(i, j) == T(s + m[i * N + j]), "square of %s", ms.c_str()); }
    if constexpr (std::is_floating_point<T>::value) if (d != 0) {
      auto inv = rm::inverse(A); auto p = rm::matrix_multiply(inv, A), q = rm::matrix_multiply(A, inv); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { MC_CHECK(cl(p(i, j), i == j) && cl(q(i, j), i == j), "inverse of %s is %s", ms.c_str(), str(inv).c_str()); std::vector<LD> k; for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b) if (a != j && b != i) k.push_back(m[a * N + b]); LD c = N == 1 ? 1 : det(k, N - 1); MC_CHECK(cl(inv(i, j), ((i + j) % 2 ? -c : c) / d), "entry %zu,%zu of the inverse of %s is %g", i, j, ms.c_str(), (double)inv(i, j)); }
      for (auto &v : vs) { auto b = vc(v); auto x = rm::solve(A, b); for (size_t i = 0; i < N; ++i) { LD s = 0; for (size_t j = 0; j < N; ++j) s += m[i * N + j] * x[j]; MC_CHECK(cl(s, v[i], 1, 1e-9L) && b[i] == T(v[i]), "solution of %s x = %s is %s", ms.c_str(), str(v).c_str(), str(x).c_str()); } }
    }
    if constexpr (std::is_integral<T>::value && N <= 3) if (d == 1 || d == -1) { auto inv = rm::inverse(A); auto p = rm::matrix_multiply(inv, A); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) MC_CHECK(p(i, j) == T(i == j), "integer inverse of %s is %s", ms.c_str(), str(inv).c_str()); }
    if constexpr (std::is_floating_point<T>::value && N <= 3) { // exponential against its series
      auto E = rm::exponential(A); std::vector<LD> s(N * N, 0), term(N * N, 0); for (size_t i = 0; i < N; ++i) s[i * N + i] = term[i * N + i] = 1; for (int k = 1; k < 120; ++k) { std::vector<LD> n(N * N, 0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) for (size_t l = 0; l < N; ++l) n[i * N + j] += term[i * N + l] * m[l * N + j] / k; term = n; for (size_t i = 0; i < N * N; ++i) s[i] += term[i]; }
      LD sc = std::exp(inf); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) MC_CHECK(cl(E(i, j), s[i * N + j], sc, std::is_same<T, float>::value ? 1e-4L : 1e-8L), "exponential of %s: entry %zu,%zu is %.17g, expected %.17Lg", ms.c_str(), i, j, (double)E(i, j), s[i * N + j]); }
    for (auto &v : vs) { auto x = vc(v); auto y = A * x; auto z = x; const auto x0 = x; rm::ax_plus_y(A, x0, z); for (size_t i = 0; i < N; ++i) { LD s = 0; for (size_t j = 0; j < N; ++j) s += m[i * N + j] * v[j]; MC_CHECK(y[i] == T(s) && z[i] == T(s + v[i]), "product of %s and %s", ms.c_str(), str(v).c_str()); } }
    MC_CHECK(A == A0, "an operation changed its operand"); mc::distinct(mc::hash(ms));
  });
}
template <class T, size_t R, size_t C> void rect(const char *tn, const std::vector<int> &vals, const std::vector<int> &vv, const std::vector<int> &sc) {
  if (!mc::group(mc::fmt("rect.%s.%zux%zu", tn, R, C))) return;
  std::vector<std::array<LD, C>> xs; mc::product(std::vector<int>(C, vv.size()), [&](const std::vector<int> &d) { std::array<LD, C> v; for (size_t i = 0; i < C; ++i) v[i] = vv[d[i]]; xs.push_back(v); });
  std::vector<std::array<LD, R>> ys; mc::product(std::vector<int>(R, vv.size()), [&](const std::vector<int> &d) { std::array<LD, R> v; for (size_t i = 0; i < R; ++i) v[i] = vv[d[i]]; ys.push_back(v); });
  matrices<R, C>(vals, [&](const std::vector<LD> &m) {
    if (!mc::next()) return;
    auto A = M<T, R, C>(m); auto t = rm::transpose(A); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) MC_CHECK(t(j, i) == A(i, j), "transpose of %s", str(m).c_str());
    LD dd = 0; for (auto v : m) dd += v * v; MC_CHECK(rm::doubledot_product(A, A) == T(dd), "double dot product"); auto A2 = A; for (size_t i = 0; i < R * C; ++i) A2.data()[i] = T(i * i + 1); dd = 0; for (size_t i = 0; i < R * C; ++i) dd += m[i] * LD(i * i + 1); MC_CHECK(rm::doubledot_product(A, A2) == T(dd) && rm::doubledot_product(A2, A) == T(dd), "double dot product of %s", str(m).c_str());
    for (auto &xv : xs) { vec<T, C> x; for (size_t j = 0; j < C; ++j) x[j] = T(xv[j]); vec<T, R> p = A * x; LD w[R]; for (size_t i = 0; i < R; ++i) { w[i] = 0; for (size_t j = 0; j < C; ++j) w[i] += m[i * C + j] * xv[j]; MC_CHECK(p[i] == T(w[i]), "%s times %s", str(m).c_str(), str(xv).c_str()); }
      for (auto &yv : ys) { vec<T, R> y; for (size_t i = 0; i < R; ++i) y[i] = T(yv[i]); auto k = y; rm::ax_plus_y(A, x, k); for (size_t i = 0; i < R; ++i) MC_CHECK(k[i] == T(w[i] + yv[i]), "A x + y"); 
        for (int al : sc) for (int be : sc) { k = y; rm::matrix_vector(T(al), A, x, T(be), k); for (size_t i = 0; i < R; ++i) MC_CHECK(k[i] == T(al * w[i] + be * yv[i]), "%d * %s * %s + %d * %s: component %zu is %Lg, expected %Lg", al, str(m).c_str(), str(xv).c_str(), be, str(yv).c_str(), i, (LD)k[i], al * w[i] + be * yv[i]); } } }
  });
}
template <class T, size_t A1, size_t A2, size_t A3> void prod(const std::vector<int> &vals) {
  if (!mc::group(mc::fmt("product.%zux%zux%zu", A1, A2, A3))) return;
  matrices<A1, A2>(vals, [&](const std::vector<LD> &a) { if (!mc::next()) return; matrices<A2, A3>(vals, [&](const std::vector<LD> &b) {
    auto A = M<T, A1, A2>(a); auto B = M<T, A2, A3>(b); auto P = rm::matrix_multiply(A, B); rm::matrix<T, A1, A3> Q(T(7)); rm::matrix_multiply(A, B, Q); for (size_t i = 0; i < A1; ++i) for (size_t j = 0; j < A3; ++j) { LD s = 0; for (size_t k = 0; k < A2; ++k) s += a[i * A2 + k] * b[k * A3 + j]; MC_CHECK(P(i, j) == T(s) && Q(i, j) == T(s + 7), "product of %s and %s", str(a).c_str(), str(b).c_str()); } }); });
}
template <class T, size_t N> void outer(const char *tn, const std::vector<int> &vv, const std::vector<double> &facts) {
  if (!mc::group(mc::fmt("outer.%s.%zu", tn, N))) return;
  std::vector<std::array<T, N>> vs; mc::product(std::vector<int>(N, vv.size()), [&](const std::vector<int> &d) { std::array<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = T(vv[d[i]]); vs.push_back(v); });
  for (auto &a : vs) for (auto &b : vs) { if (!mc::next()) continue; vec<T, N> x, y; for (size_t i = 0; i < N; ++i) x[i] = a[i], y[i] = b[i]; auto o = rm::outer_product(x, y), s = rm::outer_product(x, x); LD n2 = 0; for (size_t i = 0; i < N; ++i) n2 += LD(a[i]) * a[i];
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) MC_CHECK(o(i, j) == a[i] * b[j] && s(i, j) == a[i] * a[j], "outer product of %s and %s", str(a).c_str(), str(b).c_str());
    for (double f : facts) { rm::matrix<T, N, N> c; for (size_t i = 0; i < N * N; ++i) c.data()[i] = T(i + 1); rm::outer_product(x, y, c, T(f)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) MC_CHECK(c(i, j) == T(i * N + j + 1 + T(f) * a[i] * b[j]), "scaled outer product of %s and %s", str(a).c_str(), str(b).c_str()); }
    auto R = rm::reflection_matrix(x), P = rm::projection_matrix(x); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) MC_CHECK(R(i, j) == T((i == j) - 2 * a[i] * a[j]) && P(i, j) == T((i == j) - a[i] * a[j]), "reflection or projection matrix of %s", str(a).c_str());
    auto ry = R * y; auto r2 = rm::reflect(y, x); MC_CHECK(ry == r2, "reflection matrix and reflect disagree for %s %s", str(a).c_str(), str(b).c_str());
  }
}
// cells far from unit size: rows (or the whole matrix) multiplied by exact powers of two; dimensions up to six with every zero pattern of the first row
template <class T, size_t N> void scaled(const char *tn, int lim, const std::vector<std::vector<int>> &mats) {
  if (!mc::group(mc::fmt("scaled.%s.%zu", tn, N))) return; const LD eps = std::is_same<T, float>::value ? 1e-4L : 1e-11L;
  for (auto &mi : mats) { std::vector<LD> m(mi.begin(), mi.end()); LD d = det(m, N), pm = 1; for (size_t i = 0; i < N; ++i) { LD r = 0; for (size_t j = 0; j < N; ++j) r += std::abs(m[i * N + j]); pm *= r; } std::vector<int> ks = mc::scales(lim); ks.push_back(0);
    for (int k : ks) for (int row = -1; row < (int)N; ++row) { if (k == 0 && row >= 0) continue; if (!mc::next()) continue; std::vector<LD> a = m; LD S = std::ldexp(1.0L, k), fac = row < 0 ? std::ldexp(1.0L, k * N) : S; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (row < 0 || (int)i == row) a[i * N + j] *= S; auto A = M<T, N, N>(a); auto A0 = A; auto rs = [&](size_t i) { return row < 0 || (int)i == row ? S : 1.0L; };
      MC_CHECK(std::abs(rm::determinant(A) - d * fac) <= eps * pm * fac, "determinant of %s is %Lg, expected %Lg", str(a).c_str(), (LD)rm::determinant(A), d * fac);
      LD tr = 0, inf = 0, one = 0, two = 0; for (size_t i = 0; i < N; ++i) { tr += a[i * N + i]; LD r = 0, c = 0; for (size_t j = 0; j < N; ++j) { r += std::abs(a[i * N + j]); c += std::abs(a[j * N + i]); two += a[i * N + j] * a[i * N + j]; } inf = std::max(inf, r); one = std::max(one, c); }
      MC_CHECK(std::abs(rm::trace_matrix(A) - tr) <= eps * inf && std::abs(rm::infinity_norm(A) - inf) <= eps * inf && std::abs(rm::one_norm(A) - one) <= eps * one && std::abs(rm::two_norm(A) - std::sqrt(two)) <= eps * std::sqrt(two), "trace or norms of %s: %Lg %Lg %Lg %Lg", str(a).c_str(), (LD)rm::trace_matrix(A), (LD)rm::infinity_norm(A), (LD)rm::one_norm(A), (LD)rm::two_norm(A));
      LD dd = 0; for (auto v : a) dd += v * v; MC_CHECK(std::abs(rm::doubledot_product(A, A) - dd) <= eps * dd, "double dot product of %s", str(a).c_str());
      if (d != 0 && std::abs(k) * (int)N <= 960) { auto inv = rm::inverse(A); LD big = pm / std::abs(d); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { std::vector<LD> q; for (size_t r = 0; r < N; ++r) for (size_t c = 0; c < N; ++c) if (r != j && c != i) q.push_back(m[r * N + c]); LD c = N == 1 ? 1 : det(q, N - 1); LD w = ((i + j) % 2 ? -c : c) / d / rs(j); MC_CHECK(std::abs(inv(i, j) - w) <= eps * (1 + big) / rs(j), "entry %zu,%zu of the inverse of %s is %Lg, expected %Lg", i, j, str(a).c_str(), (LD)inv(i, j), w); }
        vec<T, N> b; std::array<LD, N> want; for (size_t i = 0; i < N; ++i) { LD s = 0; for (size_t j = 0; j < N; ++j) s += a[i * N + j] * LD(int(j % 3) - 1 + (j == 0)); want[i] = LD(int(i % 3) - 1 + (i == 0)); b[i] = T(s); } auto x = rm::solve(A, b); for (size_t i = 0; i < N; ++i) MC_CHECK(std::abs(x[i] - want[i]) <= 10 * eps * (1 + big * N), "component %zu of the solution with the matrix %s is %Lg, expected %Lg", i, str(a).c_str(), (LD)x[i], want[i]); }
      MC_CHECK(A == A0, "an operation changed its operand"); mc::distinct(mc::hash(str(a))); } }
}
template <size_t N> std::vector<std::vector<int>> rowpatterns(const std::vector<int> &vals) { std::vector<std::vector<int>> out; for (int rest = 0; rest < 2; ++rest) for (int where = 0; where < 2; ++where) mc::product(std::vector<int>(N, vals.size()), [&](const std::vector<int> &d) { std::vector<int> m(N * N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m[i * N + j] = rest ? (i == j ? 2 : (j == i + 1) - (i == j + 2)) : int((i * 7 + j * 5 + i * j * 3) % 5) - 2; for (size_t j = 0; j < N; ++j) (where ? m[j * N + N - 1] : m[j]) = vals[d[j]]; out.push_back(m); }); return out; }
template <size_t N> std::vector<std::vector<int>> allof(const std::vector<int> &vals) { std::vector<std::vector<int>> out; mc::product(std::vector<int>(N * N, vals.size()), [&](const std::vector<int> &d) { std::vector<int> m; for (int k : d) m.push_back(vals[k]); out.push_back(m); }); return out; }
// determinants of dimension seven: every permutation matrix, and a full row or column beside a permuted rest
template <size_t N> void dets() {
  if (!mc::group(mc::fmt("determinant.%zu", N))) return; std::vector<int> p(N); std::iota(p.begin(), p.end(), 0); do { if (!mc::next()) continue; rm::matrix<double, N, N> A(0.); int sg = 1; for (size_t i = 0; i < N; ++i) { A(i, p[i]) = 1 + i % 2; for (size_t j = i + 1; j < N; ++j) if (p[i] > p[j]) sg = -sg; } double w = sg * double(1 << (N / 2)); MC_CHECK(rm::determinant(A) == w, "determinant of a permuted diagonal matrix of dimension %zu", N); auto B = A; for (size_t j = 0; j < N; ++j) if (!(A(0, j) != 0)) B(0, j) = double(j) - 3; MC_CHECK(rm::determinant(B) == w, "determinant after adding multiples of the other rows, dimension %zu", N); mc::distinct(mc::hash(str(p))); } while (std::next_permutation(p.begin(), p.end()));
}
// exponentials of matrices of every size, small to large, against the series (with squaring for the large ones)
template <class T, size_t N> void exps(const char *tn, const std::vector<std::vector<int>> &mats) {
  if (!mc::group(mc::fmt("exponential.%s.%zu", tn, N))) return; const LD eps = std::is_same<T, float>::value ? 2e-5L : 4e-14L;
  for (auto &mi : mats) for (int k = -70; k <= 7; ++k) { if (!mc::next()) continue; std::vector<LD> m; LD inf = 0; for (int v : mi) m.push_back(std::ldexp(LD(v), k)); for (size_t i = 0; i < N; ++i) { LD r = 0; for (size_t j = 0; j < N; ++j) r += std::abs(m[i * N + j]); inf = std::max(inf, r); } if (inf > 12 && (N > 3 || std::is_same<T, float>::value || inf > 400)) continue; const LD grow = inf > 12 ? inf : 1; const int terms = inf > 12 ? int(6 * inf) + 120 : 120;
    std::vector<LD> s(N * N, 0), term(N * N, 0); for (size_t i = 0; i < N; ++i) s[i * N + i] = term[i * N + i] = 1; for (int q = 1; q < terms; ++q) { std::vector<LD> n(N * N, 0); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) for (size_t l = 0; l < N; ++l) n[i * N + j] += term[i * N + l] * m[l * N + j] / q; term = n; for (size_t i = 0; i < N * N; ++i) s[i] += term[i]; }
    auto E = rm::exponential(M<T, N, N>(m)); for (size_t i = 0; i < N * N; ++i) MC_CHECK(std::abs(E.data()[i] - s[i]) <= eps * grow * std::exp(inf), "exponential of %s: entry %zu is %.17Lg, expected %.17Lg", str(m).c_str(), i, (LD)E.data()[i], s[i]); mc::distinct(mc::hash(str(m))); }
}
// large matrices: sizes beyond narrow counters
template <class T, size_t R, size_t C> void large() {
  if (!mc::group(mc::fmt("large.%zux%zu", R, C)) || !mc::next()) return;
  auto val = [](size_t i) { return T(int(i * 37 % 19) - 9); }; static rm::matrix<T, R, C> A, B; static rm::matrix<T, C, R> X; for (size_t i = 0; i < R * C; ++i) A.data()[i] = val(i), B.data()[i] = val(i + 5), X.data()[i] = val(i + 11); auto t = rm::transpose(A); vec<T, C> x; vec<T, R> y; for (size_t j = 0; j < C; ++j) x[j] = val(j + 2); for (size_t i = 0; i < R; ++i) y[i] = val(i + 8); auto p = A * x; auto k = y; rm::ax_plus_y(A, x, k); auto mv = y; rm::matrix_vector(T(2), A, x, T(-3), mv); T dd = 0; static auto P = rm::matrix_multiply(A, X); static rm::matrix<T, R, R> Q(T(7)); rm::matrix_multiply(A, X, Q);
  for (size_t i = 0; i < R; ++i) { T s = 0; for (size_t j = 0; j < C; ++j) { s += A(i, j) * x[j]; dd += A(i, j) * B(i, j); MC_CHECK(t(j, i) == val(i * C + j), "transpose of a %zux%zu matrix, entry %zu,%zu", R, C, i, j); } MC_CHECK(p[i] == s && k[i] == s + y[i] && mv[i] == 2 * s - 3 * y[i], "product of a %zux%zu matrix and a vector, component %zu", R, C, i); for (size_t j = 0; j < R; ++j) { T w = 0; for (size_t l = 0; l < C; ++l) w += val(i * C + l) * val(l * R + j + 11); MC_CHECK(P(i, j) == w && Q(i, j) == w + 7, "product of %zux%zu and %zux%zu matrices, entry %zu,%zu", R, C, C, R, i, j); } }
  for (int al : {-3, -1, 0, 1, 2}) for (int be : {-3, -1, 0, 1, 2}) { auto z = y; rm::matrix_vector(T(al), A, x, T(be), z); for (size_t i = 0; i < R; ++i) MC_CHECK(z[i] == al * p[i] + be * y[i], "%d times a %zux%zu matrix times a vector plus %d times a vector, component %zu", al, R, C, be, i); }
  MC_CHECK(rm::doubledot_product(A, B) == dd, "double dot product of %zux%zu matrices", R, C);
  if constexpr (R == C) { LD tr = 0, inf = 0, one = 0, two = 0; for (size_t i = 0; i < R; ++i) { tr += A(i, i); LD r = 0, c = 0; for (size_t j = 0; j < R; ++j) { r += std::abs((LD)A(i, j)); c += std::abs((LD)A(j, i)); two += (LD)A(i, j) * A(i, j); } inf = std::max(inf, r); one = std::max(one, c); } MC_CHECK(rm::trace_matrix(A) == T(tr) && rm::infinity_norm(A) == T(inf) && rm::one_norm(A) == T(one) && cl(rm::two_norm(A), std::sqrt(two), std::sqrt(two)), "trace or norms of a %zux%zu matrix", R, R); static auto I = rm::identity_matrix<T, R>(); static auto O = rm::outer_product(y, x); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < R; ++j) MC_CHECK(I(i, j) == T(i == j) && O(i, j) == y[i] * x[j], "identity or outer product of dimension %zu, entry %zu,%zu", R, i, j); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  std::vector<int> w{-3, -2, -1, 0, 1, 2, 5}, n{-2, -1, 0, 1, 3}, three{-1, 0, 2}, two{0, 1}, vv{-2, 0, 3}, v2{-1, 2};
#if SEC == 0
  square<double, 1>("double", {-7, -3, -2, -1, 0, 1, 2, 3, 10}, w); square<double, 2>("double", w, w); square<int, 2>("int", w, w); square<double, 3>("double", t ? std::vector<int>{-2, 0, 1, 3} : three, v2);
#elif SEC == 1
  square<int, 3>("int", t ? std::vector<int>{-2, 0, 1, 3} : three, v2); square<int, 1>("int", w, w); square<float, 2>("float", {-2, 0, 1, 3}, v2);
#elif SEC == 2
  square<double, 4>("double", two, {2}); if (t) { square<int, 4>("int", {0, 1}, {2}); }
#elif SEC == 3
  large<int, 5, 5>(); large<double, 5, 5>(); large<double, 6, 4>(); large<int, 4, 6>(); large<double, 7, 3>(); large<double, 3, 7>(); large<int, 8, 9>(); large<double, 10, 1>(); large<double, 1, 10>(); large<float, 12, 12>(); large<double, 33, 32>(); large<int, 130, 2>(); large<int, 2, 130>(); large<int, 257, 1>(); large<int, 1, 257>(); large<double, 16, 16>(); large<double, 17, 17>(); large<int, 130, 130>();
  rect<double, 2, 3>("double", three, vv, {-2, -1, 0, 1, 3}); rect<double, 3, 2>("double", three, vv, {-2, -1, 0, 1, 3});
#elif SEC == 4
  rect<int, 1, 3>("int", n, vv, {-2, 0, 1, 3}); rect<int, 2, 2>("int", three, vv, {-2, -1, 0, 1, 3}); rect<double, 3, 3>("double", two, v2, {-2, 0, 1}); rect<int, 3, 1>("int", n, vv, {-2, 0, 1, 3}); rect<int, 1, 1>("int", w, vv, {-2, 0, 1, 3});
#elif SEC == 6
  scaled<double, 1>("double", 300, allof<1>({-3, 1, 2})); scaled<double, 2>("double", 300, allof<2>({-2, -1, 0, 1, 3})); scaled<double, 3>("double", 300, rowpatterns<3>({-1, 0, 2})); scaled<double, 4>("double", 200, rowpatterns<4>({-1, 0, 2})); scaled<double, 5>("double", 130, rowpatterns<5>(t ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 2})); scaled<double, 6>("double", 1, rowpatterns<6>({0, 2})); dets<7>(); scaled<float, 2>("float", 34, allof<2>({-1, 0, 2})); scaled<float, 3>("float", 30, rowpatterns<3>({-1, 0, 2}));
  exps<double, 1>("double", allof<1>({-3, -1, 0, 1, 2})); exps<double, 2>("double", allof<2>({-2, 0, 1, 3})); exps<double, 3>("double", rowpatterns<3>({-1, 0, 2})); exps<double, 4>("double", rowpatterns<4>({0, 2})); exps<float, 2>("float", allof<2>({-1, 0, 2}));
#else
  for (double f : {.5, -1.5, 2.25}) if (mc::group(mc::fmt("outer.mixed.%g", f))) for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) { if (!mc::next()) continue; vec<int, 2> x(a, b), y(b + 1, 2); vec<float, 2> xf(a, b), yf(b + 1, 2); rm::matrix<int, 2, 2> c; rm::matrix<float, 2, 2> g; for (int i = 0; i < 4; ++i) c.data()[i] = 10 * i, g.data()[i] = i; rm::outer_product(x, y, c, f); rm::outer_product(xf, yf, g, f); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) MC_CHECK(c(i, j) == int(10 * (2 * i + j) + f * x[i] * y[j]) && g(i, j) == float(2 * i + j + f * x[i] * y[j]), "outer product of (%d %d) scaled by %g: entry %d,%d is %d", a, b, f, i, j, c(i, j)); }
  prod<double, 1, 2, 3>(three); prod<int, 2, 2, 2>(n); prod<double, 2, 3, 1>(three); prod<int, 2, 1, 3>(n); prod<double, 2, 3, 2>(t ? three : std::vector<int>{0, 3}); prod<int, 3, 2, 1>(three); prod<int, 3, 3, 3>(t ? std::vector<int>{0, 2} : std::vector<int>{}); 
  outer<double, 1>("double", w, {-2, 0, .5, 3}); outer<double, 2>("double", w, {-2, 0, .5, 3}); outer<int, 2>("int", w, {-2, 0, 1, 3}); outer<double, 3>("double", n, {-2, 0, .5, 3}); outer<int, 3>("int", n, {-2, 0, 3}); outer<int, 4>("int", vv, {-2, 0, 3});
  if (mc::group("rotation")) for (int k = -48; k <= 48; ++k) { if (!mc::next()) continue; double a = k * std::acos(-1.0) / 12; auto R = rm::rotation_matrix<double, 2>(a); MC_CHECK(cl(R(0, 0), std::cos(a)) && cl(R(1, 1), std::cos(a)) && cl(R(0, 1), -std::sin(a)) && cl(R(1, 0), std::sin(a)), "rotation matrix for %g", a); for (int q = -12; q <= 12; ++q) { double b = q * std::acos(-1.0) / 6; auto Q = rm::matrix_multiply(R, rm::rotation_matrix<double, 2>(b)), W = rm::rotation_matrix<double, 2>(a + b); for (int i = 0; i < 4; ++i) MC_CHECK(cl(Q.data()[i], W.data()[i]), "rotations by %g and %g", a, b); } MC_CHECK(cl(rm::determinant(R), 1), "determinant of a rotation"); auto I = rm::matrix_multiply(R, rm::transpose(R)); MC_CHECK(cl(I(0, 0), 1) && cl(I(1, 1), 1) && cl(I(0, 1), 0) && cl(I(1, 0), 0), "rotation is not orthogonal"); }
  if (mc::group("rotation.scales")) for (int k = -300; k <= 20; ++k) for (int sg : {-1, 1}) for (double q : {1., 1.25, 1.8125}) { if (!mc::next()) continue; auto chk = [&](auto z, LD e) { using T = decltype(z); LD a = z, c = std::cos(a), n = std::sin(a); auto R = rm::rotation_matrix<T, 2>(z); MC_CHECK(std::abs(R(0, 0) - c) <= e && std::abs(R(1, 1) - c) <= e && std::abs(R(0, 1) + n) <= e * std::abs(n) + 1e-300L && std::abs(R(1, 0) - n) <= e * std::abs(n) + 1e-300L, "rotation matrix for %Lg: %Lg %Lg %Lg %Lg", a, (LD)R(0, 0), (LD)R(0, 1), (LD)R(1, 0), (LD)R(1, 1)); }; chk(std::ldexp(sg * q, k), 1e-13L); if (k >= -120) chk(float(std::ldexp(sg * q, k)), 1e-6L); mc::distinct(k * 8 + sg * 2 + (q > 1)); }
  if (mc::group("identity")) if (mc::next()) { auto I1 = rm::identity_matrix<double, 1>(); auto I2 = rm::identity_matrix<int, 2>(); auto I3 = rm::identity_matrix<double, 3>(); auto I4 = rm::identity_matrix<float, 4>(); MC_CHECK(I1(0, 0) == 1, "identity"); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (i < 2 && j < 2) MC_CHECK(I2(i, j) == (i == j), "identity"); if (i < 3 && j < 3) MC_CHECK(I3(i, j) == (i == j), "identity"); MC_CHECK(I4(i, j) == (i == j), "identity"); } }
#endif
  mc::finish();
}
