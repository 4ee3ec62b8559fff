// C01: what the visualisation adaptor hands over, on recording stand-ins of VTK, Catalyst, MPI and the mesh.
#define RISTRA_ENABLE_CATALYST 1
#include "mc.h"
#include <iostream>
#include <memory>
#include <set>
#include <string>
#include "ristra/io/catalyst/adaptor.h"
#include "ristra/io/catalyst/vtk/unstructuredGrid.h"
#include "ristra/io/catalyst/flecsale_unstructuredGrid.h"
std::stringstream debugLog; std::string debugLogName;
using std::string; namespace cat = ristra::io::catalyst; namespace rv = ristra::io::vtk; typedef std::vector<vtkIdType> Ids;
static bool clean(const string &h) { bool ok = standin::errors().empty(); if (!ok) mc::fail(standin::errors()[0] + " after " + h); standin::errors().clear(); return ok; }
static bool near(double a, double b) { return (float)a == (float)b; } // points are stored in single precision
// ---- meshes -------------------------------------------------------------------------
typedef cat::mesh_t Mesh; struct Topo { string name; int nv; std::vector<std::vector<size_t>> cv; std::vector<std::vector<std::vector<size_t>>> faces; };
static std::vector<Topo> topologies() { std::vector<Topo> r;
#if DIM == 3
  auto tet = [](size_t a, size_t b, size_t c, size_t d) { return std::vector<std::vector<size_t>>{{a, c, b}, {a, b, d}, {b, c, d}, {c, a, d}}; };
  auto hex = [](std::vector<size_t> v) { return std::vector<std::vector<size_t>>{{v[0], v[3], v[2], v[1]}, {v[4], v[5], v[6], v[7]}, {v[0], v[1], v[5], v[4]}, {v[1], v[2], v[6], v[5]}, {v[2], v[3], v[7], v[6]}, {v[3], v[0], v[4], v[7]}}; };
  r.push_back({"tetrahedron", 4, {{0, 1, 2, 3}}, {tet(0, 1, 2, 3)}}); r.push_back({"two tetrahedra", 5, {{0, 1, 2, 3}, {4, 2, 1, 3}}, {tet(0, 1, 2, 3), tet(4, 2, 1, 3)}}); r.push_back({"hexahedron", 8, {{0, 1, 2, 3, 4, 5, 6, 7}}, {hex({0, 1, 2, 3, 4, 5, 6, 7})}}); r.push_back({"two hexahedra", 12, {{0, 1, 2, 3, 4, 5, 6, 7}, {4, 5, 6, 7, 8, 9, 10, 11}}, {hex({0, 1, 2, 3, 4, 5, 6, 7}), hex({4, 5, 6, 7, 8, 9, 10, 11})}});
  r.push_back({"hexahedron and pyramid", 9, {{0, 1, 2, 3, 4, 5, 6, 7}, {4, 5, 6, 7, 8}}, {hex({0, 1, 2, 3, 4, 5, 6, 7}), {{4, 7, 6, 5}, {4, 5, 8}, {5, 6, 8}, {6, 7, 8}, {7, 4, 8}}}}); r.push_back({"three tetrahedra", 6, {{0, 1, 2, 3}, {4, 2, 1, 3}, {5, 1, 4, 3}}, {tet(0, 1, 2, 3), tet(4, 2, 1, 3), tet(5, 1, 4, 3)}});
  for (size_t n : {5, 6, 13, 300}) for (size_t layers : {2, 3}) { Topo T{mc::fmt("%zu prisms over %zu corners", layers, n), int(n * (layers + 1)), {}, {}}; for (size_t l = 0; l < layers; ++l) { std::vector<size_t> v, lo, up; std::vector<std::vector<size_t>> f; for (size_t i = 0; i < n; ++i) { lo.push_back(l * n + n - 1 - i); up.push_back((l + 1) * n + i); } for (size_t i = 0; i < 2 * n; ++i) v.push_back(l * n + i); f = {lo, up}; for (size_t i = 0; i < n; ++i) f.push_back({l * n + i, l * n + (i + 1) % n, (l + 1) * n + (i + 1) % n, (l + 1) * n + i}); T.cv.push_back(v); T.faces.push_back(f); } r.push_back(T); }
  for (size_t n : {5, 300}) { Topo T{mc::fmt("column of %zu hexahedra", n), int(4 * n + 4), {}, {}}; for (size_t l = 0; l < n; ++l) { std::vector<size_t> v; for (size_t i = 0; i < 8; ++i) v.push_back(4 * l + i); T.cv.push_back(v); T.faces.push_back(hex(v)); } r.push_back(T); }
#else
  auto poly = [](std::vector<size_t> v) { std::vector<std::vector<size_t>> e; for (size_t i = 0; i < v.size(); ++i) e.push_back({v[i], v[(i + 1) % v.size()]}); return e; };
  auto add = [&](const char *n, int nv, std::vector<std::vector<size_t>> c) { Topo t{n, nv, c, {}}; for (auto &x : c) t.faces.push_back(poly(x)); r.push_back(t); };
  add("triangle", 3, {{0, 1, 2}}); add("square", 4, {{0, 1, 2, 3}}); add("two triangles", 4, {{0, 1, 2}, {0, 2, 3}}); add("fan", 5, {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}); add("pentagon and square", 7, {{0, 1, 2, 3, 4}, {2, 1, 5, 6}}); add("2x2 squares", 9, {{0, 1, 4, 3}, {1, 2, 5, 4}, {3, 4, 7, 6}, {4, 5, 8, 7}});
  for (size_t n : {6, 40, 300}) { std::vector<size_t> a, b{1, 0}; for (size_t i = 0; i < n; ++i) a.push_back(i); for (size_t i = 2; i < n; ++i) b.push_back(n + i - 2); add(mc::fmt("two polygons of %zu corners", n).c_str(), 2 * n - 2, {a, b}); }
  for (size_t n : {6, 300}) { std::vector<std::vector<size_t>> c; for (size_t i = 0; i < n; ++i) c.push_back({2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1}); add(mc::fmt("row of %zu squares", n).c_str(), 2 * n + 2, c); }
#endif
  return r; }
static bool sameFace(std::vector<size_t> a, std::vector<size_t> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
// first: bit per shared face, which cell is listed first (its orientation is the stored one)
static Mesh build(const Topo &t, int first, int own, int coords, int *nshared = nullptr) { Mesh m; int bit = 0; m.V.resize(t.nv); for (int i = 0; i < t.nv; ++i) for (size_t d = 0; d < DIM; ++d) m.V[i].x[d] = coords == 0 ? i * 1.5 + d * 0.25 : coords == 1 ? -1e6 * (i + 1) + d : (i * 7 + d * 3) % 5 / 3.0;
  m.cv = t.cv; m.own.resize(t.cv.size()); for (size_t c = 0; c < t.cv.size(); ++c) m.own[c] = c < 24 ? own >> c & 1 : (c * 7 + own) % 3 != 0; m.cf.resize(t.cv.size());
  for (size_t c = 0; c < t.cv.size(); ++c) for (auto &f : t.faces[c]) { size_t k = 0; for (; k < m.fv.size(); ++k) if (sameFace(m.fv[k], f)) break; if (k == m.fv.size()) { m.fv.push_back(f); m.fc.push_back({c}); } else { if (first >> (bit++ % 24) & 1) { m.fv[k] = f; m.fc[k] = {c, m.fc[k][0]}; } else m.fc[k].push_back(c); } m.cf[c].push_back(k); }
  if (nshared) *nshared = bit; return m; }
static void gridIs(const Mesh &m, vtkUnstructuredGrid *g, bool points, bool cells, bool ownedOnly, const string &h) {
  if (points) { MC_REQ(g->pts && g->pts->v.size() == m.V.size(), "%zu points instead of %zu: %s", g->pts ? g->pts->v.size() : 0, m.V.size(), h.c_str()); for (size_t i = 0; i < m.V.size(); ++i) for (size_t d = 0; d < 3; ++d) MC_CHECK(near(g->pts->v[i][d], d < DIM ? m.V[i].x[d] : 0), "point %zu, coordinate %zu is %g: %s", i, d, g->pts->v[i][d], h.c_str()); }
  if (cells) { size_t k = 0; for (size_t c = 0; c < m.cv.size(); ++c) { if (ownedOnly && !m.own[c]) continue; MC_REQ(k < g->poly.size(), "cell %zu missing: %s", c, h.c_str()); auto &p = g->poly[k++]; MC_CHECK(p.type == VTK_POLYHEDRON, "type of cell %zu", c); MC_CHECK(p.verts == Ids(m.cv[c].begin(), m.cv[c].end()), "vertices of cell %zu: %s", c, h.c_str()); MC_REQ(p.faces.size() == m.cf[c].size(), "%zu faces of cell %zu: %s", p.faces.size(), c, h.c_str());
      for (size_t f = 0; f < m.cf[c].size(); ++f) { auto &fv = m.fv[m.cf[c][f]]; Ids w(fv.begin(), fv.end()); if (m.fc[m.cf[c][f]][0] != c) std::reverse(w.begin(), w.end()); auto same = [](const Ids &a, Ids b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a == b) return true; std::rotate(b.begin(), b.begin() + 1, b.end()); } return a == b; }; MC_CHECK(DIM == 2 ? p.faces[f] == w : same(p.faces[f], w), "face %zu of cell %zu: %s", f, c, h.c_str()); } } MC_CHECK(k == g->poly.size(), "%zu cells instead of %zu: %s", g->poly.size(), k, h.c_str()); } }
static void meshes(bool t) { if (!mc::group("mesh")) return; for (auto &T : topologies()) { int sh = 0, nc = T.cv.size(); build(T, 0, 0, 0, &sh); const bool big = sh > 8 || nc > 8; for (int first = 0; first < (big ? 1 << 24 : 1 << sh); first += big ? 0x2aaaab : 1) for (int own = 0; own < (big ? 1 << 24 : 1 << nc); own += big ? 0x345677 : 1) for (int co = 0; co < 3; ++co) { if (!mc::next()) continue; Mesh m = build(T, first, own, co); string h = T.name + mc::fmt(", faces %d, owned %d, coordinates %d", first, own, co); long before = standin::alive();
      { auto g = cat::createMesh(m); gridIs(m, g, true, true, true, "createMesh of " + h); auto g2 = cat::createMesh(m); gridIs(m, g2, true, true, true, "second createMesh of " + h); gridIs(m, g, true, true, true, "first grid after second createMesh of " + h);
        vtkSmartPointer<vtkUnstructuredGrid> e; cat::initVTKUnstructuredGrid(e); MC_REQ(e.GetPointer(), "initVTKUnstructuredGrid gives no grid"); cat::writePointsToGrid(m, e); gridIs(m, e, true, false, false, "writePointsToGrid of " + h); MC_CHECK(e->poly.empty(), "cells from points"); cat::writeCellsToGrid(m, e); gridIs(m, e, true, true, false, "writeCellsToGrid of " + h);
        std::vector<double> f(nc), q(T.nv); for (int i = 0; i < nc; ++i) f[i] = i * 0.5 - 1; for (int i = 0; i < T.nv; ++i) q[i] = 1e3 / (i + 1); cat::addScalar(f.data(), "density", g, nc); cat::addScalar(q.data(), "height", g, T.nv, 0); std::vector<std::vector<double>> v(DIM, q); for (size_t d = 0; d < DIM; ++d) for (auto &x : v[d]) x += d; cat::addVector(v, "velocity", g, T.nv, 0); std::vector<std::vector<double>> te(9, f); for (int d = 0; d < 9; ++d) for (auto &x : te[d]) x *= d; cat::addTensor(te, "stress", g, nc, 1);
        auto arr = [&](vtkFieldData *fd, size_t k, const char *n, int comps, const std::vector<double> &w) { if (fd->v.size() <= k) { mc::fail(string(n) + " missing: " + h); return; } auto &a = *fd->v[k]; MC_CHECK(a.name == n && a.comps == comps && a.values() == w, "field %s of %s", n, h.c_str()); };
        auto weave = [](const std::vector<std::vector<double>> &d) { std::vector<double> r; for (size_t i = 0; i < d[0].size(); ++i) for (auto &c : d) r.push_back(c[i]); return r; }; arr(g->GetCellData(), 0, "density", 1, f); arr(g->GetPointData(), 0, "height", 1, q); arr(g->GetPointData(), 1, "velocity", DIM, weave(v)); arr(g->GetCellData(), 1, "stress", 9, weave(te)); MC_CHECK(g->GetCellData()->v.size() == 2 && g->GetPointData()->v.size() == 2, "number of fields");
        gridIs(m, g, true, true, true, "createMesh and fields of " + h); standin::written().clear(); cat::outputVTKUnstructredGrid("out.vtk", g); MC_CHECK(standin::written().size() == 1 && standin::written()[0].file == "out.vtk" && standin::written()[0].input == g.GetPointer(), "grid written to disk"); }
      clean(h); mc::distinct(mc::hash(h)); mc::sample(h); } }
  if (mc::group("output file")) for (auto s : {string(), string("text\nmore"), string("x"), string("a\0b", 3), string("\r\n\t \xff\x1a"), string(70000, 'z')}) { if (!mc::next()) continue; cat::outputFile("o.txt", s); std::ifstream i("o.txt"); std::stringstream c; c << i.rdbuf(); MC_CHECK(c.str() == s, "debug output file"); cat::outputFile("no/such/dir.txt", s); } }
// ---- grid building histories ------------------------------------------------------------
struct Arr { string name; int comps; std::vector<double> v; bool operator==(const Arr &o) const { return name == o.name && comps == o.comps && v == o.v; } };
static void put(std::vector<Arr> &l, Arr a) { for (auto &x : l) if (x.name == a.name) { x = a; return; } l.push_back(a); }
struct Build { std::unique_ptr<rv::UnstructuredGrid> g; std::vector<std::array<double, 3>> P, gp; std::vector<Ids> C; struct Gen { std::vector<std::array<double, 3>> P; std::vector<Ids> C; }; std::vector<Gen> old; int gP = -1, gC = -1; /* generation of the points and cells handed to the grid */ void push(bool p, bool c) { if (p) gP = old.size(); if (c) gC = old.size(); } int type = -1, fam = 0, n = 0; bool serial = false; std::vector<Arr> pd, cd, fd; std::vector<std::unique_ptr<double[]>> keep; std::vector<std::unique_ptr<int[]>> keepi; string h;
  double next() { return ++n * 1.25 - 3; } void pt(double x, double y, double z) { P.push_back({x, y, z}); }
  template <class T> std::vector<T> seq(int k) { std::vector<T> v; for (int i = 0; i < k; ++i) v.push_back(T(next())); return v; }
  static std::vector<double> dbl(const std::vector<int> &v) { return {v.begin(), v.end()}; }
  static constexpr int N = 27; bool step(int o, bool ranks) { if (!g) { g = ranks ? std::make_unique<rv::UnstructuredGrid>(1, 4) : std::make_unique<rv::UnstructuredGrid>(); }
    h += std::to_string(o) + " "; auto need = [&](int f) { if (fam && fam != f) return false; fam = f; return true; };
    switch (o) {
    case 0: { if (!need(1)) return false; auto v = seq<double>(3); g->insertNextPoint(v.data()); pt(v[0], v[1], v[2]); return true; }
    case 1: { if (!need(1)) return false; auto v = seq<float>(3); g->insertNextPoint(v.data()); pt(v[0], v[1], v[2]); return true; }
    case 2: { if (!need(1)) return false; double a = next(), b = next(), c = next(); g->insertNextPoint(a, b, c); pt(a, b, c); return true; }
    case 3: case 4: { if (!need(1)) return false; int k = o == 3 ? 3 : 0; auto v = seq<double>(3 * k); g->insertNextPoints(v.data(), k); for (int i = 0; i < k; ++i) pt(v[3 * i], v[3 * i + 1], v[3 * i + 2]); return true; }
    case 5: case 6: { if (!need(2)) return false; auto v = seq<double>(3); auto f = seq<float>(3); if (o == 5) { g->addPoint(v.data()); pt(v[0], v[1], v[2]); } else { g->addPoint(f.data()); pt(f[0], f[1], f[2]); } C.push_back({(vtkIdType)P.size() - 1}); return true; }
    case 7: case 8: { if (fam) return false; fam = 3; int k = o == 7 ? 4 : 1; auto v = seq<double>(3 * k); g->setPoints(v.data(), k, VTK_VERTEX); for (int i = 0; i < k; ++i) { pt(v[3 * i], v[3 * i + 1], v[3 * i + 2]); C.push_back({i}); } push(true, true); type = VTK_VERTEX; return true; }
    case 9: { if (!need(1)) return false; g->insertNextCell(std::vector<int>{0, 2, 1}); C.push_back({0, 2, 1}); return true; }
    case 10: { if (!need(1)) return false; g->insertNextCell(std::vector<size_t>{3, 1}); C.push_back({3, 1}); g->insertNextCell(std::vector<long>{}); C.push_back({}); return true; }
    case 11: g->pushPointsToGrid(VTK_TRIANGLE); push(true, true); type = VTK_TRIANGLE; return true;
    case 12: g->pushPointsToGrid(); push(true, false); return true;
    case 13: { auto v = seq<double>(4); g->addScalarData("s", v.data(), 4, 0); put(pd, {"s", 1, v}); for (auto &x : v) x = -77; return true; }
    case 14: { auto v = seq<int>(2); g->addScalarData("s", v.data(), 2, 1); put(cd, {"s", 1, dbl(v)}); return true; }
    case 15: { auto a = seq<double>(3), b = seq<double>(3), c = seq<double>(3); g->addVectorData("v3", 3, 0, a.data(), b.data(), c.data()); std::vector<double> w; for (int i = 0; i < 3; ++i) { w.push_back(a[i]); w.push_back(b[i]); w.push_back(c[i]); } put(pd, {"v3", 3, w}); return true; }
    case 16: { auto a = seq<float>(2), b = seq<float>(2), c = seq<float>(2); g->addVectorData("v3", 2, 1, a.data(), b.data(), c.data()); std::vector<double> w; for (int i = 0; i < 2; ++i) { w.push_back(a[i]); w.push_back(b[i]); w.push_back(c[i]); } put(cd, {"v3", 3, w}); return true; }
    case 17: case 18: { int comps = 2; keep.emplace_back(new double[3 * comps]); double *p = keep.back().get(); std::vector<double> w; for (int i = 0; i < 3 * comps; ++i) w.push_back(p[i] = next()); g->addVectorData("v", 3, comps, o - 17, p); put(o == 17 ? pd : cd, {"v", comps, w}); return true; }
    case 19: case 20: { std::vector<std::vector<double>> d{seq<double>(3), seq<double>(3)}; std::vector<double> w; for (int i = 0; i < 3; ++i) for (auto &c : d) w.push_back(c[i]); g->addVectorData("vv", d, 3, o - 19); put(o == 19 ? pd : cd, {"vv", 2, w}); return true; }
    case 21: { std::vector<std::vector<double>> d; for (int k = 0; k < 6; ++k) d.push_back(seq<double>(2)); std::vector<double> w; for (int i = 0; i < 2; ++i) for (auto &c : d) w.push_back(c[i]); g->addTensorData("te", d, 2, 1); put(cd, {"te", 6, w}); g->addTensorData("te2", d, 1, 0); put(pd, {"te2", 6, {w.begin(), w.begin() + 6}}); return true; }
    case 22: { keepi.emplace_back(new int[1]); int *p = keepi.back().get(); *p = int(next()); g->addFieldData("cycle", p); put(fd, {"cycle", 1, {double(*p)}}); return true; }
    case 23: { auto &w = standin::written(); w.clear(); g->write("ser"); g->write("par", 1); MC_CHECK(w.size() == 2 && w[0].file == "ser.vtu" && !w[0].parallel && w[0].input == g->uGrid.GetPointer() && w[1].file == "par.pvtu" && w[1].parallel && w[1].input == g->uGrid.GetPointer() && w[1].controller, "files written"); return true; }
    case 24: { auto &w = standin::written(); w.clear(); g->writeParts(5, 2, 3, "run/f"); MC_CHECK(w.size() == 1 && w[0].file == (serial ? "run/f.vtu" : "run/f.pvtu") && w[0].parallel == !serial && w[0].input == g->uGrid.GetPointer() && (serial || (w[0].pieces == 5 && w[0].start == 2 && w[0].end == 3)), "parts written (%s)", w.empty() ? "none" : w[0].file.c_str()); return true; }
    case 25: g->setOutputSerial(); serial = true; g->setPointIDs(std::vector<int>{1, 2, 3}); return true;
    case 26: old.push_back({P, C}); g->reset(); P.clear(); C.clear(); fam = 0; return true; }
    return false; }
  void end() { if (!g) return; auto *u = g->uGrid.GetPointer(); MC_REQ(u && g->getUGrid().GetPointer() == u && g->getGrid().GetPointer() == (vtkDataSet *)u, "grid of the builder after %s", h.c_str());
    bool pushedP = gP >= 0, pushedC = gC >= 0; MC_REQ(bool(u->pts.GetPointer()) == pushedP && bool(u->cells.GetPointer()) == pushedC, "points or cells of the grid after %s", h.c_str()); auto &wp = !pushedP || gP == (int)old.size() ? P : old[gP].P; auto &wc = !pushedC || gC == (int)old.size() ? C : old[gC].C;
    if (pushedP) { MC_REQ(u->pts->v.size() == wp.size(), "%zu points instead of %zu after %s", u->pts->v.size(), wp.size(), h.c_str()); for (size_t i = 0; i < wp.size(); ++i) for (int d = 0; d < 3; ++d) MC_CHECK(near(u->pts->v[i][d], wp[i][d]), "point %zu after %s", i, h.c_str()); }
    if (pushedC) { MC_CHECK(u->cells->v == wc && u->type == type, "cells after %s", h.c_str()); }
    auto cmp = [&](vtkFieldData *f, const std::vector<Arr> &w, const char *n) { std::vector<Arr> got; for (auto &a : f->v) got.push_back({a->name, a->comps, a->values()}); MC_CHECK(got == w, "%s data after %s", n, h.c_str()); }; cmp(u->GetPointData(), pd, "point"); cmp(u->GetCellData(), cd, "cell"); cmp(u->GetFieldData(), fd, "field"); clean(h); auto keepGrid = g->getUGrid(); g.reset(); MC_CHECK(!pushedP || keepGrid->pts->v.size() == wp.size(), "grid after its builder is gone, after %s", h.c_str()); } };
static void builders(bool t) { if (!mc::group("builder")) return; for (int n = 1; n <= (t ? 5 : 4); ++n) mc::product(std::vector<int>(n, Build::N), [&](const std::vector<int> &d) { if (!mc::next()) return; Build b; for (int o : d) { mc::trans(); if (!b.step(o, d[0] % 2)) return; } b.end(); mc::distinct(mc::hash(b.h)); }); }
static void given() { if (mc::group("given points")) for (int type : {VTK_TRIANGLE, VTK_HEXAHEDRON}) for (int n = 0; n < 4; ++n) { if (!mc::next()) continue; rv::UnstructuredGrid g; auto p = vtkSmartPointer<vtkPoints>::New(); auto c = vtkSmartPointer<vtkCellArray>::New(); for (int i = 0; i < n; ++i) { p->InsertNextPoint(i, 2 * i, 3 * i); vtkIdType k = i; c->InsertNextCell(1, &k); } g.setPoints(p, c, type); MC_CHECK(g.uGrid->pts.GetPointer() == p.GetPointer() && g.uGrid->cells.GetPointer() == c.GetPointer() && g.uGrid->type == type, "given points and cells"); }
  if (mc::group("standalone write")) for (int n = 0; n < 4; ++n) for (int s = 0; s < 3; ++s) { if (!mc::next()) continue; auto g = vtkSmartPointer<vtkUnstructuredGrid>::New(); auto &w = standin::written(); w.clear(); rv::writeUnstructuredGrid("name", g, n, s, s + 1); bool par = n > 1; MC_CHECK(w.size() == 1 && w[0].file == (par ? "name.pvtu" : "name.vtu") && w[0].parallel == par && w[0].input == g.GetPointer() && (!par || (w[0].pieces == n && w[0].start == s && w[0].end == s + 1 && w[0].controller)), "written grid"); } }
// ---- every number of components, entries and pieces -----------------------------------
template <class T> static void fieldsOf(bool t, const char *tn) { for (int api = 0; api < 10; ++api) for (int comps = 1; comps <= (api == 0 || api == 7 ? 1 : api == 1 ? 3 : 12); ++comps) for (int n : {0, 1, 2, 5, 300, t ? 70000 : 1000}) for (int disc : {0, 1, 2}) { if (api == 1 && comps != 3) continue; if (!mc::next()) continue; rv::UnstructuredGrid g; auto u = g.getUGrid(); std::vector<std::vector<T>> d(comps, std::vector<T>(n + 1)); std::vector<T> flat; std::vector<double> w; for (int i = 0; i < n; ++i) for (int c = 0; c < comps; ++c) { d[c][i] = T(i * 100.25 - c * 17 + 0.1); flat.push_back(d[c][i]); w.push_back(d[c][i]); } flat.push_back(0); string name = mc::fmt("f %d.%d", api, comps);
    switch (api) { case 0: g.addScalarData(name, d[0].data(), n, disc); break; case 1: g.addVectorData(name, n, disc, d[0].data(), d[1].data(), d[2].data()); break; case 2: g.addVectorData(name, d, n, disc); break; case 3: g.addTensorData(name, d, n, disc); break; case 4: g.addVectorData(name, n, comps, disc, flat.data()); break; case 5: rv::setVectorData(name, d, n, disc, u); break; case 6: rv::setTensorData(name, d, n, disc, u); break; case 7: cat::addScalar(d[0].data(), name, u, n, disc); break; case 8: cat::addVector(d, name, u, n, disc); break; case 9: cat::addTensor(d, name, u, n, disc); break; }
    auto *in = disc ? u->GetCellData() : u->GetPointData(), *out = disc ? u->GetPointData() : u->GetCellData(); mc::trans(); MC_REQ(in->v.size() == 1 && out->v.empty(), "%s field, function %d, discretisation %d: %zu and %zu arrays", tn, api, disc, in->v.size(), out->v.size()); auto &a = *in->v[0]; MC_CHECK(a.name == name && a.comps == comps && a.values() == w, "%s field, function %d, %d components of %d entries: %d components, %zu values", tn, api, comps, n, a.comps, a.values().size()); } }
static void parts(bool t) { if (mc::group("fields")) { fieldsOf<double>(t, "double"); fieldsOf<float>(t, "float"); fieldsOf<int>(t, "int"); fieldsOf<long>(t, "long"); }
  if (mc::group("parts")) for (string name : {"f", "run.0/step.12", "a.vtu", "./x", "..", "name with blank", "", "x.pvtu", ".hidden"}) for (int n = 0; n < 6; ++n) for (int s = 0; s < 5; ++s) for (int e = 0; e < 5; ++e) for (int how = 0; how < 3; ++how) { if (!mc::next()) continue; rv::UnstructuredGrid g(0, 2); auto &w = standin::written(); w.clear(); if (how == 1) g.setOutputSerial(); bool par = how == 0 || (how == 2 && n > 1); if (how == 2) rv::writeUnstructuredGrid(name, g.getUGrid(), n, s, e); else g.writeParts(n, s, e, name); mc::trans(); MC_REQ(w.size() == 1 && w[0].file == name + (par ? ".pvtu" : ".vtu") && w[0].parallel == par && w[0].input == g.uGrid.GetPointer(), "'%s' in %d pieces written as %s", name.c_str(), n, w.empty() ? "nothing" : w[0].file.c_str()); if (par) MC_CHECK(w[0].pieces == n && w[0].start == s && w[0].end == e && w[0].controller, "pieces %d %d %d of '%s': %d %d %d", n, s, e, name.c_str(), w[0].pieces, w[0].start, w[0].end); w.clear(); g.write(name); g.write(name, 1); MC_REQ(w.size() == 2 && w[0].file == name + ".vtu" && w[1].file == name + ".pvtu" && !w[0].parallel && w[1].parallel, "'%s' written", name.c_str()); } }
// ---- adaptor --------------------------------------------------------------------------------
static void adaptors(bool t) { if (!mc::group("adaptor")) return; for (int api = 0; api < 2; ++api) for (int every = 0; every < 4; ++every) for (int ns = 0; ns < 4; ++ns) for (int steps = 0; steps <= (t ? 7 : 5); ++steps) for (int last = 0; last < 3; ++last) for (int rank = 0; rank < 2; ++rank) { if (!mc::next()) continue; standin_rank() = rank; vtkCPProcessor::every() = every; auto &done = vtkCPProcessor::done(), &asked = vtkCPProcessor::asked(); done.clear(); asked.clear(); std::vector<string> sc; for (int i = 0; i < ns; ++i) sc.push_back("dir/script" + std::to_string(i * i) + ".py"); string h = mc::fmt("api %d, every %d, %d scripts, %d steps", api, every, ns, steps); long before = standin::alive();
    { std::unique_ptr<cat::adaptor_t> a; vtkCPProcessor *p = nullptr; size_t live = vtkCPProcessor::living().size(); if (api) p = cat::initAdaptor(sc); else a = std::make_unique<cat::adaptor_t>(sc); MC_REQ(vtkCPProcessor::living().size() == live + 1, "processors"); auto *pr = vtkCPProcessor::living().back(); MC_CHECK(!api || p == pr, "processor returned"); MC_CHECK(pr->init, "processor not initialised"); MC_REQ((int)pr->pipes.size() == ns, "%zu pipelines instead of %d", pr->pipes.size(), ns); for (int i = 0; i < ns; ++i) MC_CHECK(pr->pipes[i]->script == sc[i], "pipeline %d runs %s", i, pr->pipes[i]->script.c_str());
      size_t nd = 0; for (int s = 0; s < steps; ++s) { auto g = vtkSmartPointer<vtkUnstructuredGrid>::New(); bool lst = last == 1 ? s == steps - 1 : last == 2; double time = last == 2 ? -0.5 * s : 0.125 * s * s + (s ? 1e-3 : 0); const unsigned stepNo = every == 3 && s ? 70000u * s : s * 3 + 1; if (api) cat::processCatalyst(p, g, time, stepNo, lst); else a->process(g, time, stepNo, lst); MC_REQ(asked.size() == s + 1u, "pipeline asked %zu times in step %d", asked.size(), s); auto &q = asked.back(); MC_CHECK(q.time == time && (unsigned)q.step == stepNo && q.inputs == 1, "time data of step %d", s); MC_CHECK(!lst || q.force, "output not forced in the last step"); bool go = q.force || (every && stepNo % every == 0); if (go) ++nd; MC_REQ(done.size() == nd, "%zu outputs instead of %zu by step %d", done.size(), nd, s); if (go) MC_CHECK(done.back().grid == g.GetPointer() && done.back().time == time && (unsigned)done.back().step == stepNo, "output of step %d", s); }
      if (api) { auto *r = cat::finalizeAdaptor(p); MC_CHECK(r == nullptr, "finalised processor still returned"); } else a.reset(); MC_CHECK(vtkCPProcessor::living().size() == live, "processor not deleted"); if (api) MC_CHECK(cat::finalizeAdaptor(nullptr) == nullptr, "finalising nothing"); }
    MC_CHECK(standin::alive() == before, "%ld objects left over", standin::alive() - before); clean(h); mc::distinct(mc::hash(h + std::to_string(last))); } }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  meshes(t); builders(t); given(); parts(t); adaptors(t);
  mc::finish();
}
