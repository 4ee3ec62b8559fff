// E03: Jacobians, determinants and inverses on all small matrices and displaced cells.
#include "mc.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
#include "ristra/elements/elements.h"
namespace re = ristra::elements; using LD = long double; using Vd = std::vector<double>; using VV = std::vector<Vd>;
static LD det(std::vector<std::vector<LD>> m) { int n = m.size(); if (n == 1) return m[0][0]; LD s = 0; for (int c = 0; c < n; ++c) { std::vector<std::vector<LD>> k; for (int i = 1; i < n; ++i) { std::vector<LD> r; for (int j = 0; j < n; ++j) if (j != c) r.push_back(m[i][j]); k.push_back(r); } s += (c % 2 ? -1 : 1) * m[0][c] * det(k); } return s; }
static LD det(const VV &m, int n) { std::vector<std::vector<LD>> k(n, std::vector<LD>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k[i][j] = m[i][j]; return det(k); }
static std::string ms(const VV &m) { std::string s; for (auto &r : m) { s += "["; for (double x : r) s += mc::fmt("%g ", x); s += "]"; } return s; }
static void jac(int D, VV &J, double &d, const VV &v, const VV &p, int n) { if (D == 4) re::jacobian4D(J, d, v, p, n, D); else re::jacobian(J, d, v, p, n, D); }
static void inv(int D, VV &I, const VV &J, double d) { if (D == 2) re::jacobian_inverse_2d(I, J); else if (D == 3) re::jacobian_inverse_3d(I, J); else re::jacobian_inverse_4d(I, J, d); }
static void matrices(int D, const std::vector<double> &vals, int scale = 0, int row = -1) {
  const LD S = std::ldexp(1.0L, scale), F = row < 0 ? std::ldexp(1.0L, scale * D) : S;
  std::string nm = mc::fmt("matrix.%d", D); for (double v : vals) nm += mc::fmt(".%g", v); if (scale) nm += mc::fmt(".scale%d.%d", scale, row); if (!mc::group(nm)) return;
  mc::product(std::vector<int>(D * D, vals.size()), [&](const std::vector<int> &k) { if (!mc::next()) return; VV A(D, Vd(D)), id(D, Vd(D, 0)); for (int i = 0; i < D; ++i) { id[i][i] = 1; for (int j = 0; j < D; ++j) A[i][j] = vals[k[i * D + j]] * (row < 0 || row == i ? double(S) : 1.); }
    VV J(D, Vd(D, 777)); double d = 777; jac(D, J, d, A, id, D); MC_CHECK(J == A, "the Jacobian of the nodes %s is %s", ms(A).c_str(), ms(J).c_str()); LD w = det(A, D); MC_CHECK(std::abs(d - w) <= 1e-12L * (F + std::abs(w)), "determinant of %s is %g, expected %Lg", ms(A).c_str(), d, w);
    VV B(D + 1, Vd(D + 1, 555)); d = 777; jac(D, B, d, A, id, D); for (int i = 0; i <= D; ++i) for (int j = 0; j <= D; ++j) MC_CHECK(B[i][j] == (i < D && j < D ? A[i][j] : 555), "entry %d,%d outside the Jacobian written", i, j); MC_CHECK(std::abs(d - w) <= 1e-12L * (F + std::abs(w)), "determinant depends on unused storage: %g, expected %Lg", d, w);
    if (w != 0) { VV I(D, Vd(D, 777)); inv(D, I, A, w); bool ok = (int)I.size() == D; for (int i = 0; ok && i < D; ++i) for (int j = 0; ok && j < D; ++j) { LD s = 0, s2 = 0; for (int q = 0; q < D; ++q) s += LD(I[i][q]) * A[q][j], s2 += LD(A[i][q]) * I[q][j]; if (!(std::abs(s - (i == j)) < 1e-11L) || row < 0 && !(std::abs(s2 - (i == j)) < 1e-11L)) ok = false; } MC_CHECK(ok, "the inverse of %s is %s", ms(A).c_str(), ms(I).c_str()); }
    mc::distinct(mc::hash(ms(A))); });
}
template <class E> void cells(const char *nm, int D, const VV &ref, const VV &disp, const std::vector<double> &g, int subsets) {
  if (!mc::group(nm)) return; E el; int n = ref.size(); static const std::vector<double> L{-1, -1. / 3, 1. / 3, 1};
  auto pos = [&](const Vd &xi, const VV &v) { Vd x(D, 777); el.physical_position(x, xi, v); return x; };
  for (auto &dd : disp) for (int sub = 0; sub < subsets; ++sub) { if (!mc::next()) continue; VV v = ref; for (int i = 0; i < n; ++i) if (sub >> (i % 8) & 1) for (int d = 0; d < D; ++d) v[i][d] += dd[d] * (i >= 8 ? -.5 : 1); // all subsets of displaced vertices (modulo 8)
    mc::product(std::vector<int>(D, g.size()), [&](const std::vector<int> &k) { Vd xi(D); for (int d = 0; d < D; ++d) xi[d] = g[k[d]]; std::vector<Vd> p(D, Vd(n, 777)); el.partial_xi_shape_fcn(p[0], xi); el.partial_eta_shape_fcn(p[1], xi); if constexpr (!std::is_base_of<re::Element2D, E>::value) el.partial_mu_shape_fcn(p[2], xi); if constexpr (std::is_base_of<re::Element4D, E>::value) el.partial_tau_shape_fcn(p[3], xi); VV part(n, Vd(D)); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) part[i][d] = p[d][i];
      VV J(D, Vd(D, 777)); double de = 777; jac(D, J, de, v, part, n);
      for (int j = 0; j < D; ++j) { std::vector<LD> w(D, 0); for (int m = 0; m < 4; ++m) { LD c = 0; for (int a = 0; a < 4; ++a) if (a != m) { LD q = 1 / (LD(L[m]) - L[a]); for (int b = 0; b < 4; ++b) if (b != m && b != a) q *= (xi[j] - L[b]) / (LD(L[m]) - L[b]); c += q; } Vd y = xi; y[j] = L[m]; Vd x = pos(y, v); for (int d = 0; d < D; ++d) w[d] += c * x[d]; } for (int d = 0; d < D; ++d) MC_CHECK(std::abs(J[j][d] - w[d]) < 1e-11L, "%s: entry %d,%d of the Jacobian is %g, the derivative of the position is %Lg", nm, j, d, J[j][d], w[d]); }
      LD w = det(J, D); MC_CHECK(std::abs(de - w) < 1e-11L, "%s: determinant %g, expected %Lg", nm, de, w); if (std::abs(w) > 1e-3) { VV I(D, Vd(D, 777)); inv(D, I, J, de); LD err = 0; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { LD s = 0; for (int q = 0; q < D; ++q) s += LD(I[i][q]) * J[q][j]; err = std::max(err, std::isnan(s) ? 1e9L : std::abs(s - (i == j))); } MC_CHECK(err < 1e-9L, "%s: inverse times Jacobian differs from the identity by %Lg", nm, err); } });
    mc::distinct(mc::hash(&sub, 4, mc::hash(dd.data(), dd.size() * 8))); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  matrices(2, {-3, -2, -1, 0, 1, 2, 5}); matrices(3, t ? std::vector<double>{-1, 0, 2, 5} : std::vector<double>{-1, 0, 2}); matrices(3, {1, 3}); matrices(4, {0, 1}); matrices(4, {-1, 2}); if (t) { matrices(4, {1, 3}); matrices(4, {-2, 1}); }
  for (int k : mc::scales(200)) { for (int r = -1; r < 2; ++r) matrices(2, {-2, 0, 1, 3}, k, r); for (int r = -1; r < 3; ++r) matrices(3, {0, 1}, k, r); if (t || k == -10 || k == -14 || k == -27 || k == 27) { matrices(3, {-1, 0, 2}, k); matrices(3, {1, 3}, k, 1); matrices(4, {0, 1}, k); } }
  VV q4{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, q8 = q4, q12 = q4; for (auto v : VV{{0, -1}, {1, 0}, {0, 1}, {-1, 0}}) q8.push_back(v); const double T = 1. / 3; for (auto v : VV{{-T, -1}, {T, -1}, {T, 1}, {-T, 1}, {-1, -T}, {1, -T}, {1, T}, {-1, T}}) q12.push_back(v);
  VV h8{{-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1}}, h20 = h8, h32 = h8; for (int y : {-1, 1}) for (auto v : VV{{0, 0, -1}, {1, 0, 0}, {0, 0, 1}, {-1, 0, 0}}) { v[1] = y; h20.push_back(v); } for (auto v : VV{{-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}}) h20.push_back(v);
  for (int y : {-1, 1}) for (auto v : VV{{-1, 0, -T}, {1, 0, -T}, {1, 0, T}, {-1, 0, T}}) { v[1] = y; h32.push_back(v); } for (int y : {-1, 1}) for (auto v : VV{{-T, 0, -1}, {T, 0, -1}, {T, 0, 1}, {-T, 0, 1}}) { v[1] = y; h32.push_back(v); } for (double y : {-T, T}) for (auto v : VV{{-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}}) { v[1] = y; h32.push_back(v); }
  VV t16; for (int w : {-1, 1}) for (auto v : h8) { v.push_back(w); t16.push_back(v); }
  VV d2{{.5, 0}, {0, .5}, {-.5, .25}, {3, 1}}, d3{{.5, 0, 0}, {0, .5, 0}, {0, 0, .5}, {-.25, .5, 1}}, d4{{.5, 0, 0, 0}, {0, 0, 0, .5}, {-.25, .5, .75, 1}}; std::vector<double> g5{-1, -.4, 0, .3, 1}, g3{-1, .3, 1}, g2{-.7, .4};
  cells<re::Quad_4_2D>("Quad4", 2, q4, d2, g5, 16); cells<re::Quad_8_2D>("Quad8", 2, q8, d2, g5, 256); cells<re::Quad_12_2D>("Quad12", 2, q12, d2, g5, 256); cells<re::Hex8>("Hex8", 3, h8, d3, g3, 256); cells<re::Hex20>("Hex20", 3, h20, d3, t ? g3 : g2, 256); cells<re::Hex32>("Hex32", 3, h32, d3, t ? g3 : g2, 256); cells<re::Tess16>("Tess16", 4, t16, d4, t ? g3 : g2, 256);
  mc::finish();
}
