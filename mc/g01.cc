// G01: planar areas, centroids, midpoints and normals on all simple lattice polygons.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <deque>
#include <list>
#include <numeric>
#include <sstream>
#include "ristra/assertions/errors.h"
#include "ristra/geometry/area.h"
#include "ristra/geometry/centroid.h"
#include "ristra/geometry/normal.h"
#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/shapes/quadrilateral.h"
#include "ristra/geometry/shapes/triangle.h"
#include "ristra/math/vector.h"
#include "ristra/math/general.h"
namespace rg = ristra::geometry; namespace rs = ristra::geometry::shapes; namespace rm = ristra::math;
using LD = long double;
struct I2 { int x, y; bool operator==(I2 o) const { return x == o.x && y == o.y; } };
static long cross(I2 a, I2 b, I2 c) { return long(b.x - a.x) * (c.y - a.y) - long(c.x - a.x) * (b.y - a.y); }
static bool onseg(I2 a, I2 b, I2 p) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static int sg(long v) { return (v > 0) - (v < 0); }
static bool meet(I2 a, I2 b, I2 c, I2 d) { if (onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b)) return true; return sg(cross(a, b, c)) * sg(cross(a, b, d)) < 0 && sg(cross(c, d, a)) * sg(cross(c, d, b)) < 0; }
static bool simple(const std::vector<I2> &p) {
  int n = p.size();
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { I2 a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
    if (j == i + 1) { if (onseg(a, b, d) || onseg(b, d, a)) return false; } else if ((j + 1) % n == i) { if (onseg(c, d, b) || onseg(a, b, c)) return false; } else if (meet(a, b, c, d)) return false; }
  return true;
}
// twice the area by Pick's theorem (independent of any vertex formula)
static int pick2(const std::vector<I2> &p) {
  int n = p.size(), bnd = 0, in = 0, lo[2] = {99, 99}, hi[2] = {-99, -99}; for (auto q : p) lo[0] = std::min(lo[0], q.x), hi[0] = std::max(hi[0], q.x), lo[1] = std::min(lo[1], q.y), hi[1] = std::max(hi[1], q.y);
  for (int x = lo[0]; x <= hi[0]; ++x) for (int y = lo[1]; y <= hi[1]; ++y) { bool b = false; int w = 0; for (int i = 0; i < n; ++i) { I2 a = p[i], c = p[(i + 1) % n], q{x, y}; if (onseg(a, c, q)) b = true; if (a.y <= y) { if (c.y > y && cross(a, c, q) > 0) ++w; } else if (c.y <= y && cross(a, c, q) < 0) --w; } if (b) ++bnd; else if (w) ++in; }
  return 2 * in + bnd - 2;
}
template <class T> struct Ref { std::vector<rm::vector<T, 2>> p; LD area, sarea, c[2], m[2], tol, ct; std::string txt; };
template <class T, class P> void near(const P &got, const LD *w, LD tol, const char *what, const Ref<T> &r) { MC_CHECK(std::abs(LD(got[0]) - w[0]) <= tol && std::abs(LD(got[1]) - w[1]) <= tol, "%s of %s is (%Lg,%Lg), expected (%Lg,%Lg)", what, r.txt.c_str(), LD(got[0]), LD(got[1]), w[0], w[1]); }
template <class T> void nearv(T got, LD w, LD tol, const char *what, const Ref<T> &r) { MC_CHECK(std::abs(LD(got) - w) <= tol, "%s of %s is %Lg, expected %Lg", what, r.txt.c_str(), LD(got), w); }
template <class T, size_t N, size_t... I> void variadic(Ref<T> &r, std::index_sequence<I...>) {
  auto &p = r.p; using P = rm::vector<T, 2>; LD ct = r.ct, nn[2] = {0, r.sarea}; const auto &c = r.p;
  nearv<T>(rs::polygon<2>::area(p[I]...), r.area, r.tol, "polygon area", r); nearv<T>(rs::polygon<2>::area(P(c[I])...), r.area, r.tol, "polygon area (temporaries)", r);
  near<T>(rs::polygon<2>::centroid(p[I]...), r.c, ct, "polygon centroid", r); near<T>(rs::polygon<2>::centroid(P(c[I])...), r.c, ct, "polygon centroid (temporaries)", r);
  near<T>(rs::polygon<2>::midpoint(p[I]...), r.m, ct, "polygon midpoint", r); near<T>(rs::polygon<2>::midpoint(P(c[I])...), r.m, ct, "polygon midpoint (temporaries)", r);
  near<T>(rs::polygon<2>::normal(p[I]...), nn, r.tol, "polygon normal", r); near<T>(rs::polygon<2>::normal(P(c[I])...), nn, r.tol, "polygon normal (temporaries)", r);
  if constexpr (N >= 4) { nearv<T>(rg::area(p[I]...), r.area, r.tol, "area", r); nearv<T>(rg::area(P(c[I])...), r.area, r.tol, "area (temporaries)", r); nearv<T>(rg::area(c[I]...), r.area, r.tol, "area (constants)", r); near<T>(rg::centroid(p[I]...), r.c, ct, "centroid", r); near<T>(rg::centroid(P(c[I])...), r.c, ct, "centroid (temporaries)", r); near<T>(rg::centroid(c[I]...), r.c, ct, "centroid (constants)", r); }
  if constexpr (N == 3) { nearv<T>(rs::triangle<2>::area(p[I]...), r.area, r.tol, "triangle area", r); near<T>(rs::triangle<2>::centroid(p[I]...), r.c, ct, "triangle centroid", r); near<T>(rs::triangle<2>::midpoint(p[I]...), r.m, ct, "triangle midpoint", r); near<T>(rs::triangle<2>::normal(p[I]...), nn, r.tol, "triangle normal", r); }
  if constexpr (N == 4) { nearv<T>(rs::quadrilateral<2>::area(p[I]...), r.area, r.tol, "quadrilateral area", r); near<T>(rs::quadrilateral<2>::centroid(p[I]...), r.c, ct, "quadrilateral centroid", r); near<T>(rs::quadrilateral<2>::midpoint(p[I]...), r.m, ct, "quadrilateral midpoint", r); near<T>(rs::quadrilateral<2>::normal(p[I]...), nn, r.tol, "quadrilateral normal", r); }
  MC_CHECK(p == c, "points changed");
}
template <class T, class It> void iters(Ref<T> &r, It b, It e, const char *k) {
  LD ct = r.ct, nn[2] = {0, r.sarea};
  nearv<T>(rs::polygon<2>::area(b, e), r.area, r.tol, k, r); near<T>(rs::polygon<2>::centroid(b, e), r.c, ct, k, r); near<T>(rs::polygon<2>::normal(b, e), nn, r.tol, k, r); It b2 = b, e2 = e; near<T>(rs::polygon<2>::midpoint(b2, e2), r.m, ct, k, r); near<T>(rs::polygon<2>::midpoint(It(b), It(e)), r.m, ct, k, r);
}
template <class T> void run(const std::vector<I2> &q, int sarea2, LD ox, LD oy, LD size = 3, LD S = 1) {
  Ref<T> r; int n = q.size(); LD sc = size + std::abs(ox) + std::abs(oy); r.tol = 40 * n * LD(std::numeric_limits<T>::epsilon()) * sc * sc * (1 + sc);
  r.sarea = sarea2 / LD(2); r.area = std::abs(r.sarea); r.c[0] = r.c[1] = r.m[0] = r.m[1] = 0;
  for (int i = 1; i + 1 < n; ++i) { LD a = cross(q[0], q[i], q[i + 1]); r.c[0] += a * (q[0].x + q[i].x + q[i + 1].x); r.c[1] += a * (q[0].y + q[i].y + q[i + 1].y); }
  for (int d = 0; d < 2; ++d) r.c[d] = r.c[d] / (3 * LD(sarea2)) + (d ? oy : ox); for (auto k : q) r.m[0] += k.x, r.m[1] += k.y, r.p.emplace_back(T(k.x + ox), T(k.y + oy)); r.m[0] = r.m[0] / n + ox; r.m[1] = r.m[1] / n + oy;
  r.ct = r.tol / r.area; if (S != 1) { r.tol *= S * S; r.ct *= S; r.area *= S * S; r.sarea *= S * S; for (int d = 0; d < 2; ++d) r.c[d] *= S, r.m[d] *= S; for (auto &k : r.p) k[0] *= T(S), k[1] *= T(S); }
  std::ostringstream o; for (auto &k : r.p) o << "(" << k[0] << "," << k[1] << ")"; r.txt = o.str();
  if (n == 3) variadic<T, 3>(r, std::make_index_sequence<3>()); if (n == 4) variadic<T, 4>(r, std::make_index_sequence<4>()); if (n == 5) variadic<T, 5>(r, std::make_index_sequence<5>()); if (n == 6) variadic<T, 6>(r, std::make_index_sequence<6>());
  LD ct = r.ct, nn[2] = {0, r.sarea}; using P = rm::vector<T, 2>; std::list<P> l(r.p.begin(), r.p.end()); std::deque<P> dq(r.p.begin(), r.p.end()); const auto &cp = r.p; const auto &cl = l;
  iters<T>(r, r.p.begin(), r.p.end(), "range (vector)"); iters<T>(r, cp.begin(), cp.end(), "range (const vector)"); iters<T>(r, l.begin(), l.end(), "range (list)"); iters<T>(r, cp.data(), cp.data() + n, "range (pointers)");
  nearv<T>(rs::polygon<2>::area(cp), r.area, r.tol, "area (container)", r); near<T>(rs::polygon<2>::centroid(cp), r.c, ct, "centroid (container)", r); near<T>(rs::polygon<2>::normal(cp), nn, r.tol, "normal (container)", r);
  nearv<T>(rs::polygon<2>::area(cl), r.area, r.tol, "area (list)", r); near<T>(rs::polygon<2>::centroid(cl), r.c, ct, "centroid (list)", r);
  nearv<T>(rg::area(cp), r.area, r.tol, "area of a list of points", r); nearv<T>(rg::area_2d(cp), r.area, r.tol, "area_2d of a list of points", r); near<T>(rg::centroid(cp), r.c, ct, "centroid of a list of points", r); near<T>(rg::centroid_2d(cp), r.c, ct, "centroid_2d", r); nearv<T>(rg::area(dq), r.area, r.tol, "area of a deque", r); near<T>(rg::centroid(dq), r.c, ct, "centroid of a deque", r);
}
template <class T> void polys(const char *tn, int n, int g, const std::vector<std::array<LD, 2>> &offs, int scale = 0) {
  if (!mc::group(mc::fmt(scale ? "polygon.%s.%d.%d.scale%d" : "polygon.%s.%d.%d", tn, n, g, scale))) return;
  std::vector<I2> q; std::vector<char> used(g * g, 0);
  std::function<void()> rec = [&] {
    if ((int)q.size() == n) { if (!simple(q)) return; if (!mc::next()) return; long s = 0; for (int i = 1; i + 1 < n; ++i) s += cross(q[0], q[i], q[i + 1]); int pk = pick2(q); if (pk != std::abs(s)) { mc::fail("internal: reference areas disagree"); return; } for (auto &o : offs) run<T>(q, s, o[0], o[1], 3, std::ldexp(1.0L, scale)); mc::distinct(mc::hash(q.data(), q.size() * sizeof(I2))); return; }
    for (int k = 0; k < g * g; ++k) if (!used[k]) { used[k] = 1; q.push_back({k % g, k / g}); rec(); q.pop_back(); used[k] = 0; } };
  rec();
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  std::vector<std::array<LD, 2>> o1{{0, 0}, {-7, 11}, {100.5L, -33.25L}}, o0{{-1, -1}}, o2{{0, 0}, {-1.5L, 2.25L}};
  polys<double>("double", 3, t ? 6 : 5, o1); polys<double>("double", 4, 3, o1); polys<double>("double", 5, 3, o2); polys<float>("float", 3, 3, o2); polys<float>("float", 4, 3, o0); polys<double>("double", 4, 4, o1); polys<double>("double", 6, 3, o0); polys<long double>("ldouble", 5, 3, o1); if (t) polys<double>("double", 5, 4, o2);
  for (int k : mc::scales(300)) { polys<double>("double", 3, 3, o0, k); polys<double>("double", 4, 3, {{0, 0}}, k); if (k == -14 || k == -27 || k == 27 || t) polys<double>("double", 5, 3, o0, k); } for (int k : mc::scales(34)) { polys<float>("float", 3, 3, o0, k); polys<float>("float", 4, 3, {{0, 0}}, k); }
  // many vertices: a strip with boundary points on both sides, a comb, from several starting vertices
  if (mc::group("large")) for (int n : mc::widths(300)) for (int comb = 0; comb < 3; ++comb) { if (!mc::next()) continue; std::vector<I2> q; int b = (n + 1) / 2; for (int i = 0; i < b; ++i) q.push_back({i, 0}); for (int i = b - 1; i >= b - (n - b); --i) q.push_back({i, comb == 1 ? 1 + i % 2 : comb == 2 ? 1 + i * i / 16 : 1});
    for (int r : {0, 1, n / 2, n - 1}) for (int rev = 0; rev < 2; ++rev) { std::vector<I2> p = q; std::rotate(p.begin(), p.begin() + r, p.end()); if (rev) std::reverse(p.begin(), p.end()); long s = 0; for (int i = 1; i + 1 < n; ++i) s += cross(p[0], p[i], p[i + 1]); run<double>(p, s, 0, 0, comb == 2 ? 1 + b * b / 16 : b); } mc::distinct(mc::hash(q.data(), q.size() * sizeof(I2))); }
  if (mc::group("edge")) for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int c = -2; c <= 2; ++c) for (int d = -2; d <= 2; ++d) { if (!mc::next()) continue;
    using P = rm::vector<double, 2>; P p(a, b), q(c, d); auto n = rg::normal(p, q); MC_CHECK(n[0] == b - d && n[1] == c - a, "normal of (%d,%d)-(%d,%d) is (%g,%g)", a, b, c, d, n[0], n[1]); auto m = rg::normal(P(a, b), P(c, d)); const P cp = p, cq = q; auto k = rg::normal(cp, cq); MC_CHECK(m == n && k == n, "normal depends on the kind of argument");
    for (int e = -1; e <= 1; ++e) for (int f = -1; f <= 1; ++f) { using Q = rm::vector<double, 3>; Q x(a, b, e), y(c, d, f); auto z = rg::normal(x, y); MC_CHECK(z[0] == b * f - e * d && z[1] == e * c - a * f && z[2] == a * d - b * c, "3d normal of (%d,%d,%d) and (%d,%d,%d)", a, b, e, c, d, f); } }
  if (mc::group("unsupported")) if (mc::next()) { std::vector<rm::vector<double, 3>> p{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}; int th = 0; try { rg::area(p); } catch (std::exception &) { ++th; } try { rg::centroid(p); } catch (std::exception &) { ++th; } MC_CHECK(th == 2, "three-dimensional points accepted by the planar functions"); }
  mc::finish();
}
