// G02: planar polygons in space, tetrahedra, planar-faced hexahedra and polyhedra against exact values.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstring>
#include <iostream>
#include <list>
#include <numeric>
#include <sstream>
#include <vector>
#include "ristra/assertions/errors.h"
#include "ristra/geometry/shapes/hexahedron.h"
#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/shapes/polyhedron.h"
#include "ristra/geometry/shapes/quadrilateral.h"
#include "ristra/geometry/shapes/tetrahedron.h"
#include "ristra/geometry/shapes/triangle.h"
#include "ristra/math/general.h"
#include "ristra/math/vector.h"
namespace rs = ristra::geometry::shapes; namespace rm = ristra::math;
using LD = long double; using V = std::array<LD, 3>; using P = rm::vector<double, 3>;
static V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; } static V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; } static V operator*(LD s, V a) { return {s * a[0], s * a[1], s * a[2]}; }
static V cr(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; } static LD dt(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; } static LD ab(V a) { return std::sqrt(dt(a, a)); }
static LD SC = 1; static std::string SUF; // exact scale of all coordinates
static P mk(V a) { return P(a[0] * SC, a[1] * SC, a[2] * SC); } static int dims(const char *w) { return strstr(w, "volume") ? 3 : strstr(w, "area") || strstr(w, "normal") ? 2 : 1; }
static LD unscale(LD g, const char *w) { for (int k = dims(w); k; --k) g /= SC; return g; }
static std::string st(V a) { return mc::fmt("(%Lg,%Lg,%Lg)", a[0], a[1], a[2]); } static std::string st(const std::vector<V> &v) { std::string s; for (auto &x : v) s += st(x); return s; }
static LD TOL(const std::vector<V> &p) { LD m = 1; for (auto &x : p) for (LD y : x) m = std::max(m, std::abs(y)); return 2e-13L * m * m * m * (1 + m); }
static void nearp(const P &gs, V w, LD tol, const char *what, const std::string &txt) { LD g[3]; for (int i = 0; i < 3; ++i) g[i] = unscale(gs[i], what); MC_CHECK(std::abs(g[0] - w[0]) <= tol && std::abs(g[1] - w[1]) <= tol && std::abs(g[2] - w[2]) <= tol, "%s of %s is (%Lg,%Lg,%Lg), expected %s (all in scaled units)", what, txt.c_str(), g[0], g[1], g[2], st(w).c_str()); }
static void nears(double gs, LD w, LD tol, const char *what, const std::string &txt) { LD g = unscale(gs, what); MC_CHECK(std::abs(g - w) <= tol, "%s of %s is %.12Lg, expected %.12Lg", what, txt.c_str(), g, w); }
// ---- planar convex polygons: lattice polygons embedded by integer maps
struct Poly { std::vector<std::array<int, 2>> q; LD a2; LD c[2], m[2]; };
static std::vector<Poly> polys(int n, int g, bool convex_only) {
  std::vector<Poly> out; std::vector<int> d;
  std::function<void()> rec = [&] {
    if ((int)d.size() == n) { Poly p; for (int k : d) p.q.push_back({k % g, k / g}); auto X = [&](int i, int j, int k) { auto &a = p.q[i % n], &b = p.q[j % n], &c = p.q[k % n]; return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]); };
      int pos = 0, neg = 0; for (int i = 0; i < n; ++i) { int x = X(i, i + 1, i + 2); pos += x > 0; neg += x < 0; if (x == 0) { auto &a = p.q[i], &b = p.q[(i + 1) % n], &c = p.q[(i + 2) % n]; if ((b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) < 0) return; } }
      if (pos && neg || pos + neg == 0) return; LD s = 0; p.c[0] = p.c[1] = p.m[0] = p.m[1] = 0; for (int i = 1; i + 1 < n; ++i) { int x = X(0, i, i + 1); if (x * (pos ? 1 : -1) < 0) return; s += x; for (int k = 0; k < 2; ++k) p.c[k] += LD(x) * (p.q[0][k] + p.q[i][k] + p.q[i + 1][k]) / 3; }
      // winding once: the total area of the fan equals the hull's by construction of consistent turns; exclude star polygons
      for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) if (X(i, i + 1, k) * (pos ? 1 : -1) < 0) return;
      if (s == 0) return; p.a2 = s; for (int k = 0; k < 2; ++k) { p.c[k] /= s; for (auto &v : p.q) p.m[k] += v[k]; p.m[k] /= n; } out.push_back(p); return; }
    for (int k = 0; k < g * g; ++k) if (std::find(d.begin(), d.end(), k) == d.end()) { d.push_back(k); rec(); d.pop_back(); } };
  rec(); return out;
}
template <size_t N, size_t... I> void vari(const std::vector<P> &p, LD ar, V nn, V c, V m, LD tol, const std::string &txt, std::index_sequence<I...>) {
  std::vector<P> z = p; LD ct = tol / ar;
  nears(rs::polygon<3>::area(p[I]...), ar, tol, "polygon area", txt); nearp(rs::polygon<3>::normal(p[I]...), nn, tol, "polygon normal", txt); nearp(rs::polygon<3>::centroid(p[I]...), c, ct, "polygon centroid", txt); nearp(rs::polygon<3>::midpoint(z[I]...), m, ct, "polygon midpoint", txt);
  nears(rs::polygon<3>::area(P(p[I])...), ar, tol, "polygon area (temporaries)", txt); nearp(rs::polygon<3>::normal(z[I]...), nn, tol, "polygon normal", txt); nearp(rs::polygon<3>::centroid(P(p[I])...), c, ct, "polygon centroid (temporaries)", txt);
  if constexpr (N == 3) { nears(rs::triangle<3>::area(p[I]...), ar, tol, "triangle area", txt); nearp(rs::triangle<3>::normal(p[I]...), nn, tol, "triangle normal", txt); nearp(rs::triangle<3>::centroid(p[I]...), c, ct, "triangle centroid", txt); nearp(rs::triangle<3>::midpoint(p[I]...), m, ct, "triangle midpoint", txt); }
  if constexpr (N == 4) { nears(rs::quadrilateral<3>::area(p[I]...), ar, tol, "quadrilateral area", txt); nearp(rs::quadrilateral<3>::normal(p[I]...), nn, tol, "quadrilateral normal", txt); nearp(rs::quadrilateral<3>::centroid(p[I]...), c, ct, "quadrilateral centroid", txt); nearp(rs::quadrilateral<3>::midpoint(p[I]...), m, ct, "quadrilateral midpoint", txt); }
}
static void embedded(int n, int g, const std::vector<V> &dirs, const std::vector<V> &offs) {
  if (!mc::group(mc::fmt("polygon.%d.%d", n, g) + SUF)) return;
  auto ps = polys(n, g, true);
  for (auto &q : ps) for (auto &u : dirs) for (auto &v : dirs) { V w = cr(u, v); if (ab(w) == 0) continue; if (!mc::next()) continue;
    for (auto &o : offs) { auto at = [&](LD x, LD y) { return o + x * u + y * v; }; std::vector<V> e; for (auto &k : q.q) e.push_back(at(k[0], k[1])); std::vector<P> p; for (auto &x : e) p.push_back(mk(x)); std::string txt = st(e); LD tol = TOL(e); LD ar = ab(w) * std::abs(q.a2) / 2; V nn = (q.a2 / 2) * w, c = at(q.c[0], q.c[1]), m = at(q.m[0], q.m[1]); LD ct = tol / ar;
      if (n == 3) vari<3>(p, ar, nn, c, m, tol, txt, std::make_index_sequence<3>()); if (n == 4) vari<4>(p, ar, nn, c, m, tol, txt, std::make_index_sequence<4>()); if (n == 5) vari<5>(p, ar, nn, c, m, tol, txt, std::make_index_sequence<5>());
      std::list<P> l(p.begin(), p.end()); nears(rs::polygon<3>::area(p), ar, tol, "area of a container", txt); nearp(rs::polygon<3>::normal(p), nn, tol, "normal of a container", txt); nearp(rs::polygon<3>::centroid(p), c, ct, "centroid of a container", txt); nears(rs::polygon<3>::area(l.begin(), l.end()), ar, tol, "area of a range", txt); nearp(rs::polygon<3>::normal(l.begin(), l.end()), nn, tol, "normal of a range", txt); nearp(rs::polygon<3>::centroid(l.begin(), l.end()), c, ct, "centroid of a range", txt); nearp(rs::polygon<3>::midpoint(l.begin(), l.end()), m, ct, "midpoint of a range", txt); auto b = p.begin(), en = p.end(); nearp(rs::polygon<3>::centroid(b, en), c, ct, "centroid of a range (lvalues)", txt); nearp(rs::polygon<3>::midpoint(b, en), m, ct, "midpoint of a range (lvalues)", txt); }
    mc::distinct(mc::hash(q.q.data(), q.q.size() * 8)); }
}
// ---- bodies given by outward-oriented planar faces; exact volume and centroid by signed tetrahedra from a fan of each face
struct Body { std::vector<V> v; std::vector<std::vector<int>> f; };
static void exact(const Body &b, LD &vol, V &c) { vol = 0; c = {0, 0, 0}; for (auto &f : b.f) for (size_t i = 1; i + 1 < f.size(); ++i) { V p = b.v[f[0]], q = b.v[f[i]], r = b.v[f[i + 1]]; LD d = dt(p, cr(q, r)) / 6; vol += d; c = c + (d / 4) * (p + q + r); } c = (1 / vol) * c; vol = std::abs(vol); }
static const int SYM_MAX = 48; static std::vector<std::array<int, 8>> syms() { // all symmetries of the cube as renumberings of its vertices
  static const int co[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; std::vector<std::array<int, 8>> out; int pm[3] = {0, 1, 2};
  do for (int fl = 0; fl < 8; ++fl) { std::array<int, 8> a; for (int i = 0; i < 8; ++i) { int x[3]; for (int k = 0; k < 3; ++k) x[k] = co[i][pm[k]] ^ (fl >> k & 1); for (int j = 0; j < 8; ++j) if (co[j][0] == x[0] && co[j][1] == x[1] && co[j][2] == x[2]) a[i] = j; } out.push_back(a); } while (std::next_permutation(pm, pm + 3)); return out; }
static const std::vector<std::vector<int>> HEXF{{0, 1, 2, 3}, {4, 7, 6, 5}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {3, 7, 4, 0}};
static void poly(const Body &b, const std::vector<std::vector<int>> &faces, LD vol, V c, LD tol, const std::string &txt, int how) {
  rs::polyhedron<P> h; std::vector<std::vector<P>> keep; V m{0, 0, 0};
  for (auto &f : faces) { std::vector<P> p; V fm{0, 0, 0}; for (int i : f) p.push_back(mk(b.v[i])), fm = fm + b.v[i]; m = m + (1.0L / f.size()) * fm; if (how == 0) h.insert(p.begin(), p.end()); else if (how == 1) { ristra::utils::array_ref<P> r(p); h.insert(r); } else if (f.size() == 4) h.insert({p[0], p[1], p[2], p[3]}); else if (f.size() == 3) h.insert({p[0], p[1], p[2]}); else { std::list<P> l(p.begin(), p.end()); h.insert(l.begin(), l.end()); } std::fill(p.begin(), p.end(), P(1e9)); }
  m = (1.0L / faces.size()) * m; const auto &ch = h; LD ct = tol / vol;
  nears(ch.volume(), vol, tol, "polyhedron volume", txt); nearp(ch.centroid(), c, ct, "polyhedron centroid", txt); nearp(ch.midpoint(), m, ct, "polyhedron midpoint", txt); nears(ch.volume(), vol, tol, "polyhedron volume (again)", txt); auto h2 = h; h = rs::polyhedron<P>(); nears(h2.volume(), vol, tol, "polyhedron volume (copy)", txt);
}
static std::vector<std::vector<int>> rot(std::vector<std::vector<int>> f, int r, bool rev) { for (auto &x : f) { std::rotate(x.begin(), x.begin() + r % x.size(), x.end()); if (rev) std::reverse(x.begin(), x.end()); } return f; }
static void hexbody(const Body &b, bool poly_too) {
  static auto sy = syms(); LD vol; V c; exact(b, vol, c); if (vol < 1e-9) return; LD tol = TOL(b.v), ct = tol / vol; std::string txt = st(b.v); V m{0, 0, 0}; for (auto &x : b.v) m = m + x; m = 0.125L * m;
  for (auto &a : sy) { P p[8]; for (int i = 0; i < 8; ++i) p[i] = mk(b.v[a[i]]); nears(rs::hexahedron::volume(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), vol, tol, "hexahedron volume", txt); nearp(rs::hexahedron::centroid(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), c, ct, "hexahedron centroid", txt); nearp(rs::hexahedron::midpoint(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), m, ct, "hexahedron midpoint", txt); }
  if (poly_too) for (int r = 0; r < 4; ++r) for (int rev = 0; rev < 2; ++rev) for (int how = 0; how < 3; ++how) poly(b, rot(b.f, r, rev), vol, c, tol, txt, how);
}
static void tets(int g, int off) {
  if (!mc::group(mc::fmt("tetrahedron.%d", g) + SUF)) return;
  int n = g * g * g; auto at = [&](int k) { return V{LD(k % g), LD(k / g % g), LD(k / g / g)}; };
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) { if (a == b || b == c || a == c || !mc::next()) continue;
    for (int d = 0; d < n; ++d) { V A = at(a), B = at(b), C = at(c), D = at(d); LD det = dt(B - A, cr(C - A, D - A)); V o{-3, 7.5L, LD(off)}; std::vector<V> e{A + o, B + o, C + o, D + o}; LD tol = TOL(e); std::string txt; if (true) { P p[4] = {mk(A), mk(B), mk(C), mk(D)}, q[4] = {mk(e[0]), mk(e[1]), mk(e[2]), mk(e[3])}; LD vol = std::abs(det) / 6; LD v = unscale(rs::tetrahedron::volume(p[0], p[1], p[2], p[3]), "volume"), w = unscale(rs::tetrahedron::volume(q[0], q[1], q[2], q[3]), "volume");
      if (std::abs(v - vol) > tol || std::abs(w - vol) > tol) txt = st(e); MC_CHECK(txt.empty(), "tetrahedron volume of %s is %Lg or %Lg, expected %Lg", txt.c_str(), v, w, vol); V m = 0.25L * (e[0] + e[1] + e[2] + e[3]); P mp = rs::tetrahedron::midpoint(q[0], q[1], q[2], q[3]), cp = rs::tetrahedron::centroid(q[0], q[1], q[2], q[3]); bool ok = true; for (int k = 0; k < 3; ++k) ok = ok && std::abs(mp[k] / SC - m[k]) < tol && std::abs(cp[k] / SC - m[k]) < tol; MC_CHECK(ok, "tetrahedron centroid or midpoint of %s", st(e).c_str());
      if (det != 0 && g == 2) { Body bo{e, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}}; LD vv; V cc; exact(bo, vv, cc); std::vector<int> fo{0, 1, 2, 3}; do { std::vector<std::vector<int>> f; for (int i : fo) f.push_back(bo.f[i]); for (int r = 0; r < 3; ++r) poly(bo, rot(f, r, r == 1), vol, m, tol, st(e), r); } while (std::next_permutation(fo.begin(), fo.end())); } } }
    mc::distinct(mc::hash(st(at(a)) + st(at(b)) + st(at(c)))); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  std::vector<V> dirs{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {0, -1, 1}, {1, -2, 3}, {-2, 0, 1}}, offs{{0, 0, 0}, {-5, 3.5L, 20}};
  embedded(3, 3, dirs, offs); embedded(4, 3, dirs, offs); embedded(5, 3, dirs, offs); if (t) { embedded(3, 4, dirs, offs); embedded(4, 4, dirs, offs); }
  tets(2, 1); tets(3, 4);
  for (int k : mc::scales(200)) { SC = std::ldexp(1.0L, k); SUF = mc::fmt(".scale%d", k); std::vector<V> few{{1, 0, 0}, {0, -1, 1}, {1, -2, 3}}; embedded(3, 2, few, offs); embedded(4, 2, few, offs); if (k == -27 || k == -14 || k == 27 || t) embedded(5, 3, {{1, 0, 0}, {1, -2, 3}}, offs); tets(2, 1);
    if (mc::group("hexahedron" + SUF)) for (int h0 = 1; h0 <= 3; ++h0) for (int dx = -1; dx <= 2; ++dx) for (int dy = -1; dy <= 2; ++dy) { if (h0 + std::min(dx, 0) + std::min(dy, 0) < 1 || !mc::next()) continue; Body b; b.f = HEXF; for (int z = 0; z < 2; ++z) { static const int q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (auto &c : q) b.v.push_back(V{LD(c[0] * 2 + c[1]), LD(c[1]), LD(z ? h0 + c[0] * dx + c[1] * dy : 0) * 3}); } hexbody(b, true); } }
  SC = 1; SUF = "";
  std::vector<V> small; for (int k = 0; k < 27; ++k) small.push_back({LD(k % 3 - 1), LD(k / 3 % 3 - 1), LD(k / 9 - 1)});
  std::vector<V> basis[] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{2, 0, 0}, {1, 1, 0}, {0, -1, 3}}, {{1, 2, 0}, {0, 1, -2}, {3, 0, 1}}, {{0, 1, 0}, {1, 0, 0}, {0, 0, 1}}}; V org[] = {{0, 0, 0}, {-2.5L, 4, 10}};
  if (mc::group("parallelepiped")) for (auto &u : small) for (auto &v : small) { if (!mc::next()) continue; for (auto &w : small) { if (std::abs(dt(u, cr(v, w))) < .5L) continue; V o{1, -2, .5L}; Body b{{o, o + u, o + u + v, o + v, o + w, o + u + w, o + u + v + w, o + v + w}, HEXF}; hexbody(b, false); } }
  if (mc::group("frustum")) for (auto &bs : basis) for (auto &o : org) for (int s = 1; s <= 8; ++s) for (int ax = -2; ax <= 3; ++ax) for (int ay = -2; ay <= 3; ++ay) { if (s == 4 || !mc::next()) continue; LD k = s / 4.0L; V ap{LD(ax), LD(ay), 0}; Body b; b.f = HEXF; for (int z = 0; z < 2; ++z) { static const int q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (auto &c : q) { V x{LD(c[0]), LD(c[1]), 0}; if (z) x = V{ap[0] + k * (x[0] - ap[0]), ap[1] + k * (x[1] - ap[1]), 1}; b.v.push_back(o + x[0] * bs[0] + x[1] * bs[1] + x[2] * bs[2]); } } hexbody(b, ax == 0 && ay == 1); }
  if (mc::group("wedge")) for (auto &bs : basis) for (auto &o : org) for (int h0 = 1; h0 <= 5; ++h0) for (int dx = -4; dx <= 4; ++dx) for (int dy = -4; dy <= 4; ++dy) { if (h0 + std::min(dx, 0) + std::min(dy, 0) < 1 || !mc::next()) continue; Body b; b.f = HEXF; for (int z = 0; z < 2; ++z) { static const int q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (auto &c : q) b.v.push_back(o + LD(c[0]) * bs[0] + LD(c[1]) * bs[1] + LD(z ? h0 + c[0] * dx + c[1] * dy : 0) * bs[2]); } hexbody(b, true); }
  if (mc::group("prism")) for (int n = 3; n <= 5; ++n) for (auto &q : polys(n, 3, true)) { if (!mc::next()) continue; for (auto &bs : basis) for (int apex = 0; apex < 2; ++apex) { // prisms and pyramids over convex lattice polygons
        Body b; std::vector<int> bot, top; for (int z = 0; z < (apex ? 1 : 2); ++z) for (auto &k : q.q) b.v.push_back(org[1] + LD(k[0]) * bs[0] + LD(k[1]) * bs[1] + LD(2 * z) * bs[2]); if (apex) b.v.push_back(org[1] + LD(1) * bs[0] + LD(3) * bs[1] + LD(2) * bs[2]);
        for (int i = 0; i < n; ++i) { bot.insert(bot.begin(), i); top.push_back(n + i); int j = (i + 1) % n; if (apex) b.f.push_back({i, j, n}); else b.f.push_back({i, j, n + j, n + i}); } b.f.push_back(bot); if (!apex) b.f.push_back(top);
        LD vol; V c; exact(b, vol, c); LD tol = TOL(b.v); std::string txt = st(b.v); for (int r = 0; r < n; ++r) for (int rev = 0; rev < 2; ++rev) poly(b, rot(b.f, r, rev), vol, c, tol, txt, (r + rev) % 3); } }
  // many vertices and faces: prisms and pyramids over a strip with boundary points
  if (mc::group("large")) for (int n : mc::widths(300)) for (int apex = 0; apex < 2; ++apex) { if (!mc::next()) continue; std::vector<std::array<int, 2>> q; int h = (n + 1) / 2; for (int i = 0; i < h; ++i) q.push_back({i, 0}); for (int i = h - 1; i >= h - (n - h); --i) q.push_back({i, 1}); auto &bs = basis[apex];
    Body b; std::vector<int> bot, top; for (int z = 0; z < (apex ? 1 : 2); ++z) for (auto &k : q) b.v.push_back(LD(k[0]) * bs[0] + LD(k[1]) * bs[1] + LD(2 * z) * bs[2]); if (apex) b.v.push_back(LD(1) * bs[0] + LD(3) * bs[1] + LD(2) * bs[2]); for (int i = 0; i < n; ++i) { bot.insert(bot.begin(), i); top.push_back(n + i); int j = (i + 1) % n; if (apex) b.f.push_back({i, j, n}); else b.f.push_back({i, j, n + j, n + i}); } b.f.push_back(bot); if (!apex) b.f.push_back(top);
    LD vol; V c; exact(b, vol, c); LD tol = TOL(b.v); std::string txt = mc::fmt("a body over %d corners", n); for (int r : {0, 1, n - 1}) poly(b, rot(b.f, r, r == 1), vol, c, tol, txt, r % 3);
    std::vector<P> p; V m{0, 0, 0}; for (int i = 0; i < n; ++i) p.push_back(mk(b.v[i])), m = m + b.v[i]; m = (1.0L / n) * m; V nn{0, 0, 0}, cc{0, 0, 0}; for (int i = 1; i + 1 < n; ++i) { V w = cr(b.v[i] - b.v[0], b.v[i + 1] - b.v[0]); nn = nn + 0.5L * w; cc = cc + (ab(w) / 6) * (b.v[0] + b.v[i] + b.v[i + 1]); } LD ar = ab(nn), ct = tol / ar; cc = (1 / ar) * cc;
    nears(rs::polygon<3>::area(p), ar, tol, "polygon area", txt); nearp(rs::polygon<3>::normal(p), nn, tol, "polygon normal", txt); nearp(rs::polygon<3>::centroid(p), cc, ct, "polygon centroid", txt); nearp(rs::polygon<3>::midpoint(p.begin(), p.end()), m, ct, "polygon midpoint", txt); }
  if (mc::group("faceorder")) { Body b; b.f = HEXF; static const int q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (int z = 0; z < 2; ++z) for (auto &c : q) b.v.push_back(org[1] + LD(c[0]) * basis[2][0] + LD(c[1]) * basis[2][1] + LD(z ? 3 + c[0] - 2 * c[1] : 0) * basis[2][2]); LD vol; V c; exact(b, vol, c); std::vector<int> fo{0, 1, 2, 3, 4, 5}; do { if (!mc::next()) continue; std::vector<std::vector<int>> f; for (int i : fo) f.push_back(b.f[i]); for (int r = 0; r < 4; ++r) poly(b, rot(f, r, false), vol, c, TOL(b.v), "hexahedral polyhedron", r % 3); } while (std::next_permutation(fo.begin(), fo.end())); }
  mc::finish();
}
