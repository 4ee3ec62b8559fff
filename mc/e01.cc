// E01: every quadrature rule against every monomial it has to integrate.
#include "mc.h"
#include <algorithm>
#include <cmath>
#include <map>
#include "ristra/elements/elements.h"
namespace re = ristra::elements; using LD = long double; using VV = std::vector<std::vector<double>>;
static LD mono(int e) { return e % 2 ? 0 : LD(2) / (e + 1); }
struct Rule { std::vector<double> x, w; };
static Rule line(bool gauss, int p) { Rule r; for (int i = 1; i <= p; ++i) { double x = 77, w = 77; int m = i, q = p; if (gauss) re::LineGaussRuleInfo(x, w, m, q); else re::LineLobattoRuleInfo(x, w, m, q); if (q != p) mc::fail("the number of points was changed"); r.x.push_back(x); r.w.push_back(w); } return r; }
static int degree(bool g, int p) { return g ? 2 * p - 1 : p == 1 ? 1 : 2 * p - 3; }
static const LD EPS = 2e-14L;
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  for (int g = 0; g < 2; ++g) if (mc::group(g ? "gauss.1d" : "lobatto.1d")) for (int p = 1; p <= 8; ++p) { if (!mc::next()) continue; Rule r = line(g, p); const char *n = g ? "Gauss" : "Lobatto";
    LD s = 0; for (int i = 0; i < p; ++i) { s += r.w[i]; MC_CHECK(r.w[i] > 0 && r.x[i] >= -1 && r.x[i] <= 1, "%s %d: point %g with weight %g", n, p, r.x[i], r.w[i]); if (g) MC_CHECK(std::abs(r.x[i]) < 1, "Gauss %d: point %g", p, r.x[i]); for (int j = 0; j < i; ++j) MC_CHECK(std::abs(r.x[i] - r.x[j]) > 1e-3, "%s %d: points %d and %d coincide", n, p, j, i); }
    MC_CHECK(std::abs(s - 2) < EPS, "%s %d: weights add up to %.16Lg", n, p, s); if (!g && p > 1) MC_CHECK(*std::min_element(r.x.begin(), r.x.end()) == -1 && *std::max_element(r.x.begin(), r.x.end()) == 1, "Lobatto %d does not contain the ends", p);
    for (int e = 0; e <= degree(g, p); ++e) { LD q = 0; for (int i = 0; i < p; ++i) q += r.w[i] * std::pow((LD)r.x[i], e); MC_CHECK(std::abs(q - mono(e)) < EPS, "%s %d: integral of x^%d is %.17Lg, expected %.17Lg", n, p, e, q, mono(e)); }
    Rule r2 = line(g, p); MC_CHECK(r2.x == r.x && r2.w == r.w, "%s %d differs when asked again", n, p); mc::distinct(mc::hash(r.x.data(), p * 8)); }
  for (int d = 2; d <= 4; ++d) for (int g = 0; g < 2; ++g) if (mc::group(mc::fmt("%s.%dd", g ? "gauss" : "lobatto", d))) for (int p = 1; p <= (d == 4 && !t ? 6 : 8); ++p) {
    int n = std::pow(p, d) + .5; std::vector<double> tot; VV x, w; bool built = false; Rule r; std::vector<std::vector<LD>> pw;
    auto build = [&] { if (built) return; built = true; x = VV(n, std::vector<double>(d, 77)); w = VV(n, std::vector<double>(d, 77)); tot.assign(n, 77); int q = p, dim = d; if (g) { if (d == 2) re::Gauss2D(x, w, tot, q); if (d == 3) re::Gauss3D(x, w, tot, q); if (d == 4) re::Gauss4D(x, w, q, dim); } else { if (d == 2) re::Lobatto2D(x, w, q); if (d == 3) re::Lobatto3D(x, w, q); if (d == 4) re::Lobatto4D(x, w, q, dim); } MC_CHECK(q == p && dim == d, "arguments changed"); r = line(g, p); };
    if (mc::next()) { build(); std::vector<std::vector<std::pair<double, double>>> got, want; // exactly the product of the line rules
      for (int m = 0; m < n; ++m) { MC_CHECK((int)x[m].size() == d && (int)w[m].size() == d, "sizes"); std::vector<std::pair<double, double>> a, b; int k = m; double pr = 1; for (int j = 0; j < d; ++j) { a.push_back({x[m][j], w[m][j]}); b.push_back({r.x[k % p], r.w[k % p]}); k /= p; pr *= w[m][j]; } got.push_back(a); want.push_back(b); if (g && d < 4) MC_CHECK(std::abs(tot[m] - pr) <= 1e-15 * pr, "%dD Gauss %d: total weight of point %d is %g, expected %g", d, p, m, tot[m], pr); }
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); MC_CHECK(got == want, "%dD %s %d is not the product of the line rules", d, g ? "Gauss" : "Lobatto", p); }
    int lim = d == 2 ? 8 : d == 3 ? (t ? 6 : 4) : (t ? 4 : 3); if (p > lim) continue; int dg = degree(g, p) + 1, nm = std::pow(dg, d) + .5;
    for (int k = 0; k < nm; ++k) { if (!mc::next()) continue; build(); LD q = 0, e = 1; int ex[4], kk = k; for (int j = 0; j < d; ++j) ex[j] = kk % dg, kk /= dg, e *= mono(ex[j]); for (int m = 0; m < n; ++m) { LD v = 1; for (int j = 0; j < d; ++j) v *= w[m][j] * std::pow((LD)x[m][j], ex[j]); q += v; } MC_CHECK(std::abs(q - e) < 100 * EPS, "%dD %s %d: integral of the monomial %d.%d.%d.%d is %.16Lg, expected %.16Lg", d, g ? "Gauss" : "Lobatto", p, ex[0], ex[1], d > 2 ? ex[2] : 0, d > 3 ? ex[3] : 0, q, e); mc::distinct(mc::hash(&k, 4, d * 100 + p * 2 + g)); } }
  mc::finish();
}
