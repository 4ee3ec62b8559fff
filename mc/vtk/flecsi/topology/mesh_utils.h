// A mesh with the interface the adaptor uses; connectivity is given explicitly.
#pragma once
#include <array>
#include <cstddef>
#include <numeric>
#include <vector>
namespace flecsi { enum partition_t { owned, shared, ghost }; }
namespace flecsi_sp { namespace burton {
template <int D> struct mesh_ { typedef double real_t; typedef std::array<double, D> vector_t; static constexpr std::size_t num_dimensions = D;
  struct vobj { vector_t x; const vector_t &coordinates() const { return x; } vector_t &coordinates() { return x; } };
  template <int K> struct ref { std::size_t i = 0; const mesh_ *m = nullptr; std::size_t id() const { return i; } operator std::size_t() const { return i; } const vobj *operator->() const { return &m->V[i]; } };
  typedef ref<0> vertex; typedef ref<1> face; typedef ref<2> cell;
  std::vector<vobj> V; std::vector<std::vector<std::size_t>> fv, cv, cf, fc; std::vector<bool> own;
  template <int K> std::vector<ref<K>> list(const std::vector<std::size_t> &v) const { std::vector<ref<K>> r; for (auto i : v) r.push_back({i, this}); return r; }
  template <int K> std::vector<ref<K>> all(std::size_t n) const { std::vector<ref<K>> r; for (std::size_t i = 0; i < n; ++i) r.push_back({i, this}); return r; }
  std::size_t num_vertices() const { return V.size(); } std::size_t num_faces() const { return fv.size(); } std::size_t num_cells() const { return cv.size(); }
  auto vertices() const { return all<0>(V.size()); } auto faces() const { return all<1>(fv.size()); } auto cells() const { return all<2>(cv.size()); }
  auto cells(flecsi::partition_t p) const { std::vector<cell> r; for (std::size_t i = 0; i < cv.size(); ++i) if (own[i] == (p == flecsi::owned)) r.push_back({i, this}); return r; }
  auto vertices(cell c) const { return list<0>(cv[c.i]); } auto vertices(face f) const { return list<0>(fv[f.i]); } auto faces(cell c) const { return list<1>(cf[c.i]); } auto cells(face f) const { return list<2>(fc[f.i]); } };
typedef mesh_<DIM> burton_mesh_t;
} }
