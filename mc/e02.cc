// E02: shape functions, their derivatives and positions on tensor grids that determine the polynomials.
#include "mc.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <iostream>
#include <sstream>
#include "ristra/elements/elements.h"
namespace re = ristra::elements; using LD = long double; using Vd = std::vector<double>; using VV = std::vector<Vd>;
static const std::vector<double> G1{-1, -2. / 3, -1. / 3, 0, 1. / 3, 2. / 3, 1}, G2{-.93, -.41, .07, .58, .995};
static LD lag(const std::vector<double> &n, int i, LD x) { LD v = 1; for (size_t j = 0; j < n.size(); ++j) if ((int)j != i) v *= (x - n[j]) / (LD(n[i]) - n[j]); return v; }
static LD dlag(const std::vector<double> &n, int i, LD x) { LD s = 0; for (size_t k = 0; k < n.size(); ++k) if ((int)k != i) { LD v = 1 / (LD(n[i]) - n[k]); for (size_t j = 0; j < n.size(); ++j) if ((int)j != i && j != k) v *= (x - n[j]) / (LD(n[i]) - n[j]); s += v; } return s; }
struct El { std::string name; int dim; VV nodes; bool has_basis;
  std::function<void(Vd &, const Vd &, const VV &)> basis, pos; std::vector<std::function<void(Vd &, const Vd &)>> part; std::vector<double> g; LD tol = 1e-12L; };
static std::string ps(const Vd &x) { std::string s = "("; for (double v : x) s += mc::fmt("%g ", v); return s + ")"; }
static Vd evalb(const El &e, const Vd &xi) { int n = e.nodes.size(); Vd b(n, 777); if (e.has_basis) { VV v = e.nodes; e.basis(b, xi, v); } else for (int i = 0; i < n; ++i) { VV v(n, Vd(e.dim, 0)); v[i].assign(e.dim, 1); Vd x(e.dim, 777); e.pos(x, xi, v); b[i] = x[0]; } return b; }
static void element(const El &e) {
  int n = e.nodes.size(), D = e.dim;
  if (mc::group(e.name + ".nodal")) for (int j = 0; j < n; ++j) { if (!mc::next()) continue; Vd b = evalb(e, e.nodes[j]); for (int i = 0; i < n; ++i) MC_CHECK(std::abs(b[i] - (i == j)) < e.tol, "%s: shape function %d at node %d is %g", e.name.c_str(), i, j, b[i]); Vd x(D, 777); e.pos(x, e.nodes[j], e.nodes); for (int d = 0; d < D; ++d) MC_CHECK(std::abs(x[d] - e.nodes[j][d]) < e.tol, "%s: coordinate %d of node %d is %g", e.name.c_str(), d, j, x[d]); }
  if (mc::group(e.name + ".grid")) for (int which = 0; which < 2; ++which) { const auto &G = which ? G2 : e.g;
    mc::product(std::vector<int>(D, G.size()), [&](const std::vector<int> &k) { if (!mc::next()) return; Vd xi(D); for (int d = 0; d < D; ++d) xi[d] = G[k[d]]; const Vd xi0 = xi;
      Vd b = evalb(e, xi); LD s = 0; for (double v : b) s += v; MC_CHECK(std::abs(s - 1) < e.tol, "%s at %s: shape functions add up to %Lg", e.name.c_str(), ps(xi).c_str(), s);
      // derivatives: exact derivative of the polynomial through the values on a line of the grid
      for (int d = 0; d < D; ++d) { Vd dv(n, 777); e.part[d](dv, xi); LD sum = 0; std::vector<LD> want(n, 0), val(n, 0); for (size_t m = 0; m < e.g.size(); ++m) { Vd y = xi; y[d] = e.g[m]; Vd bm = evalb(e, y); LD c = dlag(e.g, m, xi[d]), c0 = lag(e.g, m, xi[d]); for (int i = 0; i < n; ++i) want[i] += c * bm[i], val[i] += c0 * bm[i]; } for (int i = 0; i < n; ++i) { sum += dv[i]; MC_CHECK(std::abs(val[i] - b[i]) < 50 * e.tol, "%s at %s: shape function %d is %g, not the polynomial's %Lg", e.name.c_str(), ps(xi).c_str(), i, b[i], val[i]); MC_CHECK(std::abs(dv[i] - want[i]) < 200 * e.tol, "%s at %s: derivative of shape function %d in direction %d is %g, expected %Lg", e.name.c_str(), ps(xi).c_str(), i, d, dv[i], want[i]); } MC_CHECK(std::abs(sum) < 50 * e.tol, "%s: derivatives add up to %Lg", e.name.c_str(), sum); }
      // position: interpolates the vertices with the shape functions, for every single displaced vertex and for the reference cell
      Vd x(D, 777); e.pos(x, xi, e.nodes); for (int d = 0; d < D; ++d) MC_CHECK(std::abs(x[d] - xi[d]) < 10 * e.tol, "%s: position of %s in the reference cell has coordinate %g", e.name.c_str(), ps(xi).c_str(), x[d]);
      for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) { VV v(n, Vd(D, 0)); v[i][d] = 2; std::fill(x.begin(), x.end(), 777); e.pos(x, xi, v); for (int q = 0; q < D; ++q) MC_CHECK(std::abs(x[q] - (q == d ? 2 * b[i] : 0)) < 10 * e.tol, "%s at %s: position for vertex %d displaced in %d has coordinate %d = %g", e.name.c_str(), ps(xi).c_str(), i, d, q, x[q]); }
      MC_CHECK(xi == xi0, "the point was changed"); mc::distinct(mc::hash(ps(xi) + e.name)); }); }
}
template <class E> El mk(const char *nm, int dim, VV nodes) { El e; e.name = nm; e.dim = dim; e.nodes = nodes; e.g = G1; e.has_basis = true; auto o = std::make_shared<E>(); e.pos = [o](Vd &x, const Vd &xi, const VV &v) { o->physical_position(x, xi, v); }; e.part.push_back([o](Vd &d, const Vd &xi) { o->partial_xi_shape_fcn(d, xi); }); e.part.push_back([o](Vd &d, const Vd &xi) { o->partial_eta_shape_fcn(d, xi); });
  if constexpr (!std::is_same<E, re::Tess16>::value) e.basis = [o](Vd &b, const Vd &xi, const VV &v) { o->basis(b, xi, v); }; else { e.has_basis = false; e.part.push_back([o](Vd &d, const Vd &xi) { o->partial_mu_shape_fcn(d, xi); }); e.part.push_back([o](Vd &d, const Vd &xi) { o->partial_tau_shape_fcn(d, xi); }); }
  if constexpr (std::is_base_of<re::Element3D, E>::value) e.part.push_back([o](Vd &d, const Vd &xi) { o->partial_mu_shape_fcn(d, xi); });
  return e; }
template <class E> void arbitrary(const char *nm, int D, int maxorder) {
  E el;
  for (int order = 1; order <= maxorder; ++order) for (int sp = 0; sp < 2; ++sp) { int N = order + 1, n = std::pow(N, D) + .5; if (!mc::group(mc::fmt("%s.%d.%d", nm, order, sp))) continue;
    Vd n1(N, 777); if (sp == 0) el.chebyshev_nodes_1D(n1, order); else for (int i = 0; i < N; ++i) n1[i] = -1 + 2.0 * i / order; LD tol = 1e-11L;
    if (mc::next()) { MC_CHECK(n1[0] == -1 && n1[order] == 1, "%s order %d: end nodes %g %g", nm, order, n1[0], n1[order]); for (int i = 0; i < N; ++i) { MC_CHECK(i == 0 || n1[i] > n1[i - 1], "%s order %d: nodes are not increasing", nm, order); if (!sp && i > 0 && i < order) MC_CHECK(std::abs(n1[i] + std::cos(std::acos(-1.0) * (2 * i + 1) / (2 * (order + 1)))) < 1e-14, "%s order %d: node %d is %g, not a Chebyshev node", nm, order, i, n1[i]); } }
    auto P1 = n1; for (double g : G2) P1.push_back(g); const Vd P = P1; // nodes and other points
    if (mc::next()) for (double x : P) { Vd a(N, 777), b(N, 777); el.lagrange_1D(a, b, x, n1, order); for (int i = 0; i < N; ++i) MC_CHECK(std::abs(a[i] - lag(n1, i, x)) < tol && std::abs(b[i] - dlag(n1, i, x)) < 1e3 * tol, "%s order %d: interpolant %d at %g is %g (derivative %g), expected %Lg (%Lg)", nm, order, i, x, a[i], b[i], lag(n1, i, x), dlag(n1, i, x)); }
    mc::product(std::vector<int>(D, P.size()), [&](const std::vector<int> &k) { if (!mc::next()) return; Vd xi(D); for (int d = 0; d < D; ++d) xi[d] = P[k[d]];
      VV ln(n, Vd(D, 777)), v(n, Vd(D, 777)), dv(n, Vd(D, 777)), pa(n, Vd(D, 777)); Vd a(N), b(N), bs(n, 777), nn = n1; el.basis_partials(ln, nn, a, b, v, dv, bs, pa, xi, order); LD s = 0; Vd w(D, 0);
      for (int m = 0; m < n; ++m) { int id[3], q = m; for (int d = 0; d < D; ++d) id[d] = q % N, q /= N; LD bb = 1; for (int d = 0; d < D; ++d) { bb *= lag(n1, id[d], xi[d]); MC_CHECK(ln[m][d] == n1[id[d]], "%s order %d: node %d coordinate %d is %g, expected %g", nm, order, m, d, ln[m][d], n1[id[d]]); } MC_CHECK(std::abs(bs[m] - bb) < tol, "%s order %d at %s: basis %d is %g, expected %Lg", nm, order, ps(xi).c_str(), m, bs[m], bb); s += bs[m]; for (int d = 0; d < D; ++d) { LD dd = 1; for (int f = 0; f < D; ++f) dd *= f == d ? dlag(n1, id[f], xi[f]) : lag(n1, id[f], xi[f]); MC_CHECK(std::abs(pa[m][d] - dd) < 1e3 * tol, "%s order %d at %s: derivative of basis %d in direction %d is %g, expected %Lg", nm, order, ps(xi).c_str(), m, d, pa[m][d], dd); } }
      MC_CHECK(std::abs(s - 1) < tol && nn == n1, "%s order %d: basis adds up to %Lg", nm, order, s); Vd x(D, 777); el.physical_position(x, ln, bs, order); for (int d = 0; d < D; ++d) MC_CHECK(std::abs(x[d] - xi[d]) < 10 * tol, "%s order %d: position of %s has coordinate %d = %g", nm, order, ps(xi).c_str(), d, x[d]);
      VV y = ln; for (int m = 0; m < n; ++m) for (int d = 0; d < D; ++d) y[m][d] = std::sin(3.0 * m + d); x.assign(D, 777); el.physical_position(x, y, bs, order); for (int d = 0; d < D; ++d) { LD e = 0; for (int m = 0; m < n; ++m) e += LD(y[m][d]) * bs[m]; MC_CHECK(std::abs(x[d] - e) < tol * n, "%s order %d: position in a general cell, coordinate %d = %g, expected %Lg", nm, order, d, x[d], e); }
      if (k == std::vector<int>(D, 0)) { VV c(1 << D, Vd(D)); el.corners(ln, c, order); for (int q = 0; q < 1 << D; ++q) for (int d = 0; d < D; ++d) MC_CHECK(c[q][d] == ((q >> d & 1) ? 1 : -1), "%s order %d: corner %d coordinate %d is %g", nm, order, q, d, c[q][d]); }
      mc::distinct(mc::hash(ps(xi) + nm, order)); }); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); static std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
  VV q4{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, q8 = q4, q12 = q4; for (auto v : VV{{0, -1}, {1, 0}, {0, 1}, {-1, 0}}) q8.push_back(v); const double T = 1. / 3; for (auto v : VV{{-T, -1}, {T, -1}, {T, 1}, {-T, 1}, {-1, -T}, {1, -T}, {1, T}, {-1, T}}) q12.push_back(v);
  VV h8{{-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1}}, h20 = h8, h32 = h8; for (int y : {-1, 1}) for (auto v : VV{{0, 0, -1}, {1, 0, 0}, {0, 0, 1}, {-1, 0, 0}}) { v[1] = y; h20.push_back(v); } for (auto v : VV{{-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}}) h20.push_back(v);
  for (int y : {-1, 1}) for (auto v : VV{{-1, 0, -T}, {1, 0, -T}, {1, 0, T}, {-1, 0, T}}) { v[1] = y; h32.push_back(v); } for (int y : {-1, 1}) for (auto v : VV{{-T, 0, -1}, {T, 0, -1}, {T, 0, 1}, {-T, 0, 1}}) { v[1] = y; h32.push_back(v); } for (double y : {-T, T}) for (auto v : VV{{-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}}) { v[1] = y; h32.push_back(v); }
  VV t16; for (int w : {-1, 1}) for (auto v : h8) { v.push_back(w); t16.push_back(v); }
  element(mk<re::Quad_4_2D>("Quad4", 2, q4)); element(mk<re::Quad_8_2D>("Quad8", 2, q8)); element(mk<re::Quad_12_2D>("Quad12", 2, q12)); element(mk<re::Hex8>("Hex8", 3, h8)); element(mk<re::Hex20>("Hex20", 3, h20)); element(mk<re::Hex32>("Hex32", 3, h32)); { El e = mk<re::Tess16>("Tess16", 4, t16); e.g = {-1, 0.25, 1}; element(e); }
  arbitrary<re::QuadN>("QuadN", 2, t ? 8 : 6); arbitrary<re::HexN>("HexN", 3, t ? 5 : 3);
  mc::finish();
}
