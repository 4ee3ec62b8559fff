// M04: general math helpers on all value tuples of small grids.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <deque>
#include <list>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include "ristra/math/constants.h"
#include "ristra/math/general.h"
#include "ristra/math/vector.h"
#include "ristra/math/multi_array.h"
namespace rm = ristra::math; using LD = long double;
template <class V> std::string str(const V &a) { std::ostringstream o; o << "("; for (auto &x : a) o << x << " "; return o.str() + ")"; }
template <class T> bool cl(T g, LD w, LD sc) { if (std::is_integral<T>::value) return LD(g) == w; return std::abs(LD(g) - w) <= 16 * LD(std::numeric_limits<T>::epsilon()) * (sc + std::abs(w)); }
template <class T> T mean(const std::vector<T> &v) { if (std::is_integral<T>::value) { long s = 0; for (auto x : v) s += x; return T(s / (long)v.size()); } LD s = 0; for (auto x : v) s += x; return T(s / v.size()); }
template <class T> LD asum(const std::vector<T> &v) { LD s = 0; for (auto x : v) s += std::abs(LD(x)); return s; }
template <class T> void helpers(const char *tn, const std::vector<T> &grid, int maxlen) {
  using V = std::vector<T>;
  if (mc::group(std::string("scalar.") + tn)) for (T x : grid) { if (!mc::next()) continue; const T c = x; T l = x; MC_CHECK(rm::sqr(l) == x * x && rm::sqr(c) == x * x && rm::sqr(T(x)) == x * x && l == x, "sqr(%g)", (double)x); MC_CHECK(rm::cube(l) == x * x * x && rm::cube(T(x)) == x * x * x && l == x, "cube(%g)", (double)x); MC_CHECK(rm::sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn(%g) = %d", (double)x, rm::sgn(x)); }
  if (mc::group(std::string("variadic.") + tn)) for (T a : grid) for (T b : grid) { if (!mc::next()) continue; const T ca = a, cb = b; MC_CHECK(cl<T>(rm::average(a, b), mean<T>({a, b}), asum<T>({a, b})) && cl<T>(rm::average(T(a), T(b)), mean<T>({a, b}), asum<T>({a, b})) && cl<T>(rm::average(ca, cb), mean<T>({a, b}), asum<T>({a, b})), "average(%g,%g) = %g", (double)a, (double)b, (double)rm::average(a, b));
      for (T c : grid) { T a1 = a, b1 = b, c1 = c; MC_CHECK(cl<T>(rm::average(a1, b1, c1), mean<T>({a, b, c}), asum<T>({a, b, c})) && cl<T>(rm::average(T(a), T(b), T(c)), mean<T>({a, b, c}), asum<T>({a, b, c})) && a1 == a && b1 == b && c1 == c, "average(%g,%g,%g) = %g", (double)a, (double)b, (double)c, (double)rm::average(a, b, c)); for (T d : grid) MC_CHECK(cl<T>(rm::average(a, b, c, d), mean<T>({a, b, c, d}), asum<T>({a, b, c, d})), "average(%g,%g,%g,%g) = %g", (double)a, (double)b, (double)c, (double)d, (double)rm::average(a, b, c, d)); } }
  if (mc::group(std::string("range.") + tn)) for (int len = 1; len <= maxlen; ++len) mc::product(std::vector<int>(len, grid.size()), [&](const std::vector<int> &d) {
      if (!mc::next()) return; V v; for (int k : d) v.push_back(grid[k]); const V v0 = v; std::list<T> l(v.begin(), v.end()); std::deque<T> q(v.begin(), v.end()); T w = mean(v); LD sc = asum(v); std::string vs = str(v);
      MC_CHECK(cl<T>(rm::average(v), w, sc) && cl<T>(rm::average(l), w, sc), "average(%s) = %g, expected %g", vs.c_str(), (double)rm::average(v), (double)w); MC_CHECK(cl<T>(rm::average(v.begin(), v.end()), w, sc) && cl<T>(rm::average(l.begin(), l.end()), w, sc) && cl<T>(rm::average(v.data(), v.data() + v.size()), w, sc) && cl<T>(rm::average(v0.begin(), v0.end()), w, sc), "average of the range %s", vs.c_str());
      for (size_t i = 0; i + 1 < v.size(); ++i) MC_CHECK(cl<T>(rm::average(v.begin() + i, v.end()), mean(V(v.begin() + i, v.end())), sc), "average of a sub-range of %s", vs.c_str());
      MC_CHECK(rm::min_element(v) - v.begin() == std::min_element(v.begin(), v.end()) - v.begin() && rm::max_element(v) - v.begin() == std::max_element(v.begin(), v.end()) - v.begin(), "minimum or maximum element of %s", vs.c_str()); MC_CHECK(*rm::min_element(l) == *std::min_element(v.begin(), v.end()) && *rm::max_element(l) == *std::max_element(v.begin(), v.end()), "minimum or maximum element of the list %s", vs.c_str());
      LD nn = 0; for (auto x : v) nn += LD(x) * x; MC_CHECK(cl<T>(rm::dot_product(v, v), nn, nn) && cl<T>(rm::dot_product(v.begin(), v.end(), l.begin()), nn, nn) && cl<T>(rm::dot_product(l, l), nn, nn), "dot product of %s with itself", vs.c_str()); LD mg = std::is_integral<T>::value ? std::floor(std::sqrt(nn)) : std::sqrt(nn); MC_CHECK(cl<T>(rm::magnitude(v), mg, mg) && cl<T>(rm::abs(v), mg, mg), "magnitude of %s", vs.c_str());
      MC_CHECK(v == v0, "an argument was changed"); mc::distinct(mc::hash(vs)); });
  if (mc::group(std::string("pairs.") + tn)) for (int len = 0; len <= 3; ++len) mc::product(std::vector<int>(2 * len, grid.size()), [&](const std::vector<int> &d) {
      if (!mc::next()) return; V a, b; for (int i = 0; i < len; ++i) a.push_back(grid[d[i]]), b.push_back(grid[d[len + i]]); V mn = rm::min(a, b), mx = rm::max(a, b), wn, wx; LD dot = 0, sc = 0; for (int i = 0; i < len; ++i) wn.push_back(std::min(a[i], b[i])), wx.push_back(std::max(a[i], b[i])), dot += LD(a[i]) * b[i], sc += std::abs(LD(a[i]) * b[i]);
      MC_CHECK(mn == wn && mx == wx, "element-wise minimum/maximum of %s and %s is %s/%s", str(a).c_str(), str(b).c_str(), str(mn).c_str(), str(mx).c_str()); MC_CHECK(cl<T>(rm::dot_product(a, b), dot, sc) && cl<T>(rm::dot_product(a.begin(), a.end(), b.begin()), dot, sc), "dot product of %s and %s", str(a).c_str(), str(b).c_str());
      if (len == 2) { rm::array<T, 2> x(a[0], a[1]), y(b[0], b[1]); auto m = rm::min(x, y), M = rm::max(x, y); MC_CHECK(m[0] == wn[0] && m[1] == wn[1] && M[0] == wx[0] && M[1] == wx[1], "array minimum/maximum"); rm::array<T, 2> av = rm::average(x, y); MC_CHECK(cl<T>(av[0], mean<T>({a[0], b[0]}), asum<T>({a[0], b[0]})) && cl<T>(av[1], mean<T>({a[1], b[1]}), asum<T>({a[1], b[1]})), "average of arrays"); rm::array<T, 2> a3 = rm::average(x, y, x); MC_CHECK(cl<T>(a3[0], mean<T>({a[0], b[0], a[0]}), asum<T>({a[0], b[0]})) && cl<T>(a3[1], mean<T>({a[1], b[1], a[1]}), asum<T>({a[1], b[1]})), "average of three arrays"); MC_CHECK(*rm::min_element(x) == std::min(a[0], a[1]) && *rm::max_element(x) == std::max(a[0], a[1]), "extreme elements of an array"); std::vector<rm::array<T, 2>> va{x, y, x}; auto a4 = rm::average(va); auto a5 = rm::average(va.begin(), va.end()); MC_CHECK(cl<T>(a4[0], mean<T>({a[0], b[0], a[0]}), asum<T>({a[0], b[0]})) && cl<T>(a4[1], mean<T>({a[1], b[1], a[1]}), asum<T>({a[1], b[1]})) && cl<T>(a5[0], mean<T>({a[0], b[0], a[0]}), asum<T>({a[0], b[0]})), "average of a vector of arrays");
        rm::multi_array<T, 2, 2> p, q; for (int i = 0; i < 2; ++i) p[i] = a[i], p[i + 2] = b[i], q[i] = b[i], q[i + 2] = a[1 - i]; auto mm = rm::min(p, q), MM = rm::max(p, q); for (int i = 0; i < 4; ++i) MC_CHECK(mm[i] == std::min(p[i], q[i]) && MM[i] == std::max(p[i], q[i]), "matrix minimum/maximum"); LD pd = 0, ps = 0, pn = 0; for (int i = 0; i < 4; ++i) pd += LD(p[i]) * q[i], ps += std::abs(LD(p[i]) * q[i]), pn += LD(p[i]) * p[i]; MC_CHECK(cl<T>(rm::dot_product(p, q), pd, ps), "dot product of matrices"); LD mg = std::is_integral<T>::value ? std::floor(std::sqrt(pn)) : std::sqrt(pn); MC_CHECK(cl<T>(rm::magnitude(p), mg, mg), "magnitude of a matrix"); }
      if (len == 3 && !std::is_integral<T>::value) { rm::array<T, 3> x(a[0], a[1], a[2]), y(b[0], b[1], b[2]); LD s = 0; for (int i = 0; i < 3; ++i) s += (LD(a[i]) - b[i]) * (LD(a[i]) - b[i]); MC_CHECK(cl<T>(rm::delta_magnitude(x, y), std::sqrt(s), 10 * std::sqrt(s)), "distance of %s and %s", str(a).c_str(), str(b).c_str()); }
    });
}
template <class T> void signs(const char *tn) {
  if (!mc::group(std::string("sign.") + tn)) return; using L = std::numeric_limits<T>; std::vector<T> g{T(0), T(1), L::max(), L::lowest(), L::min()}; if constexpr (std::is_floating_point<T>::value) { for (T v : {L::denorm_min(), L::epsilon(), L::infinity(), T(1e-10), T(1e-20), T(1e-30)}) g.push_back(v); for (int k = L::min_exponent; k < L::max_exponent; k += 7) g.push_back(T(std::ldexp(1.0L, k))); } else for (size_t b = 0; b < sizeof(T) * 8 - L::is_signed; ++b) g.push_back(T(T(1) << b));
  for (T v : g) for (int n = 0; n < (L::is_signed ? 2 : 1); ++n) { if (n && !std::is_floating_point<T>::value && v == L::lowest()) continue; if (!mc::next()) continue; T x = n ? T(-v) : v; MC_CHECK(rm::sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn(%Lg) = %d", LD(x), rm::sgn(x)); if (std::abs(LD(x)) < std::sqrt(LD(L::max())) / 2) MC_CHECK(rm::sqr(x) == decltype(x * x)(x * x), "sqr(%Lg)", LD(x)); if (std::abs(LD(x)) < std::cbrt(LD(L::max())) / 2) MC_CHECK(rm::cube(x) == decltype(x * x)(x * x * x), "cube(%Lg)", LD(x)); }
}
// very small and very large values
template <class T> void scaled(const char *tn, int lim) {
  if (!mc::group(std::string("scaled.") + tn)) return; const LD eps = 64 * LD(std::numeric_limits<T>::epsilon()); std::vector<int> g{-3, 0, 1, 2};
  for (int k : mc::scales(lim)) for (int len = 1; len <= 4; ++len) mc::product(std::vector<int>(len, g.size()), [&](const std::vector<int> &d) { if (!mc::next()) return; T s = std::ldexp(T(1), k); LD S = s; std::vector<T> v, w; LD sum = 0, as = 0, nn = 0, dot = 0; for (int i = 0; i < len; ++i) { LD x = g[d[i]], y = g[d[len - 1 - i]]; v.push_back(T(x) * s); w.push_back(T(y) * s); sum += x; as += std::abs(x); nn += x * x; dot += x * y; } auto cl = [&](LD a, LD b, LD sc) { return std::abs(a - b) <= eps * sc; }; std::string vs = str(v);
    MC_CHECK(cl(rm::average(v), sum / len * S, as * S) && cl(rm::average(v.begin(), v.end()), sum / len * S, as * S), "average of %s is %g", vs.c_str(), (double)rm::average(v)); MC_CHECK(cl(rm::dot_product(v, w), dot * S * S, nn * S * S) && cl(rm::dot_product(v.begin(), v.end(), w.begin()), dot * S * S, nn * S * S), "dot product of %s", vs.c_str()); MC_CHECK(cl(rm::magnitude(v), std::sqrt(nn) * S, std::sqrt(nn) * S) && cl(rm::abs(v), std::sqrt(nn) * S, std::sqrt(nn) * S), "magnitude of %s is %g", vs.c_str(), (double)rm::magnitude(v));
    auto mn = rm::min(v, w), mx = rm::max(v, w); for (int i = 0; i < len; ++i) MC_CHECK(mn[i] == std::min(v[i], w[i]) && mx[i] == std::max(v[i], w[i]), "element-wise minimum or maximum of %s", vs.c_str()); MC_CHECK(rm::min_element(v) - v.begin() == std::min_element(v.begin(), v.end()) - v.begin() && rm::max_element(v) - v.begin() == std::max_element(v.begin(), v.end()) - v.begin(), "extreme elements of %s", vs.c_str());
    if (len == 2) { MC_CHECK(cl(rm::average(v[0], v[1]), sum / 2 * S, as * S), "average of two values"); } if (len == 3) { MC_CHECK(cl(rm::average(v[0], v[1], v[2]), sum / 3 * S, as * S), "average of three values"); rm::array<T, 3> a(v[0], v[1], v[2]), b(w[0], w[1], w[2]); LD nd = 0; for (int i = 0; i < 3; ++i) nd += LD(g[d[i]] - g[d[2 - i]]) * (g[d[i]] - g[d[2 - i]]); MC_CHECK(cl(rm::delta_magnitude(a, b), std::sqrt(nd) * S, std::sqrt(nd) * S), "distance of %s", vs.c_str()); } });
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  helpers<int>("int", {-9, -2, -1, 0, 1, 2, 3, 10}, t ? 6 : 5); helpers<double>("double", {-3.5, -1, 0, .1, 1. / 3, 2, 1e6}, t ? 6 : 5); helpers<float>("float", {-1.5f, 0, .3f, 3, 100}, 4); helpers<long>("long", {-100000, 0, 7, 100001}, 4);
  if (mc::group("large")) for (int n : mc::widths(70000)) { if (!mc::next()) continue; std::vector<long> v(n); std::vector<double> d(n); long s = 0, q = 0; for (int i = 0; i < n; ++i) { v[i] = (i * 7919L) % 1000 - 300 + (i == n / 2 ? 5000 : i == n - 3 ? -5000 : 0); d[i] = v[i]; s += v[i]; q += v[i] * v[i]; } std::list<double> l(d.begin(), d.end());
    MC_CHECK(rm::average(v) == s / n && rm::average(v.begin(), v.end()) == s / n, "average of %d integers", n); MC_CHECK(std::abs(rm::average(d) - double(s) / n) < 1e-9 && std::abs(rm::average(d.begin(), d.end()) - double(s) / n) < 1e-9 && std::abs(rm::average(l) - double(s) / n) < 1e-9 && std::abs(rm::average(l.begin(), l.end()) - double(s) / n) < 1e-9, "average of %d values", n);
    MC_CHECK(rm::min_element(v) - v.begin() == n - 3 && rm::max_element(v) - v.begin() == n / 2, "extreme elements of %d values", n); MC_CHECK(rm::dot_product(v, v) == q && rm::dot_product(d, d) == double(q) && rm::dot_product(v.begin(), v.end(), v.begin()) == q && rm::dot_product(l, l) == double(q), "dot product of %d values", n); MC_CHECK(std::abs(rm::magnitude(d) - std::sqrt(double(q))) < 1e-6 && std::abs(rm::abs(d) - std::sqrt(double(q))) < 1e-6, "magnitude of %d values", n);
    std::vector<long> w(v.rbegin(), v.rend()); auto mn = rm::min(v, w), mx = rm::max(v, w); bool ok = (int)mn.size() == n && (int)mx.size() == n; for (int i = 0; ok && i < n; ++i) ok = mn[i] == std::min(v[i], w[i]) && mx[i] == std::max(v[i], w[i]); MC_CHECK(ok, "element-wise minimum and maximum of %d values", n); }
  signs<double>("double"); signs<float>("float"); signs<int>("int"); signs<long>("long"); signs<unsigned>("unsigned"); signs<signed char>("schar"); signs<short>("short"); signs<long double>("ldouble"); signs<unsigned long>("ulong"); scaled<double>("double", 300); scaled<float>("float", 34);
  // operands of different element types
  if (mc::group("mixed")) for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int c = -7; c <= 7; ++c) for (int d = -7; d <= 7; ++d) { if (!mc::next()) continue; double p = c / 4., q = d / 4.; std::vector<int> vi{a, b}; std::vector<double> vd{p, q}; std::vector<float> vf{float(p), float(q)}; std::vector<long> vl{a, b}; double w = a * p + b * q; MC_CHECK(rm::dot_product(vi.begin(), vi.end(), vd.begin()) == w && rm::dot_product(vd.begin(), vd.end(), vi.begin()) == w && rm::dot_product(vf.begin(), vf.end(), vd.begin()) == p * p + q * q && rm::dot_product(vl.begin(), vl.end(), vf.begin()) == w && rm::dot_product(vi.begin(), vi.end(), vl.begin()) == a * a + b * b, "dot product of (%d %d) and (%g %g) is %g or %g", a, b, p, q, (double)rm::dot_product(vi.begin(), vi.end(), vd.begin()), (double)rm::dot_product(vd.begin(), vd.end(), vi.begin()));
    rm::array<int, 2> ai(a, b); rm::array<double, 2> ad(p, q); double dm = std::sqrt((a - p) * (a - p) + (b - q) * (b - q)); MC_CHECK(std::abs(rm::delta_magnitude(ai, ad) - dm) < 1e-14 && std::abs(rm::delta_magnitude(ad, ai) - dm) < 1e-14, "distance of (%d %d) and (%g %g) is %g", a, b, p, q, (double)rm::delta_magnitude(ai, ad)); }
  if (mc::group("constants")) if (mc::next()) { MC_CHECK(rm::pi == std::acos(-1.0), "pi"); }
  if (mc::group("normal3")) if (mc::next()) { bool th = false; rm::array<double, 3> a(0, 0, 1), b(1, 0, 0); try { rm::normal(a, b); } catch (std::exception &) { th = true; } MC_CHECK(th, "normal of two 3d points must be rejected"); }
  mc::finish();
}
