// Array views, bounds and their iterators: all shapes, indices, slices, sections within bounds.
#include "mc.h"
#include <array>
#include <cstddef>
#include <functional>
#include <memory>
#include <stdexcept>
#include <vector>
#include "ristra/utils/array_view.h"
using namespace ristra::utils;
typedef std::ptrdiff_t D;
template <int R> using Ix = std::array<D, R>;
static std::string sh(const D *p, int n) { std::string s = "{"; for (int i = 0; i < n; ++i) s += mc::fmt("%s%td", i ? "," : "", p[i]); return s + "}"; }
template <int R> std::string sh(const Ix<R> &x) { return sh(x.data(), R); }
template <int R> index_t<R> mk(const Ix<R> &x) { return index_t<R>(x); }
// all indices of a box, row-major
template <int R> std::vector<Ix<R>> box(const Ix<R> &lo, const Ix<R> &hi) {
  std::vector<Ix<R>> r; for (int i = 0; i < R; ++i) if (hi[i] <= lo[i]) return r;
  Ix<R> c = lo;
  for (;;) { r.push_back(c); int i = R; while (i-- > 0) { if (++c[i] < hi[i]) break; c[i] = lo[i]; } if (i < 0) return r; }
}
template <int R> Ix<R> rowmajor(const Ix<R> &e) { Ix<R> s; D m = 1; for (int i = R; i-- > 0;) { s[i] = m; m *= e[i]; } return s; }
template <class V, std::size_t... I, std::size_t R> auto paren(const V &v, const std::array<D, R> &x, std::index_sequence<I...>) { return &v(x[I]...); }
// random access iteration: the k-th position must denote what the k-th entry of want says
template <class It, class Get, class W> bool iterate(It b, It e, Get get, const std::vector<W> &want, const std::string &h) {
  long n = (long)want.size(); mc::trans(n);
  long k = 0; for (It i = b; i != e; ++i, ++k) { if (k >= n) return mc::fail(h + ": iteration does not end"); if (!(get(i) == want[k])) return mc::fail(h + mc::fmt(": forward iteration, position %ld", k)); }
  if (k != n) return mc::fail(h + mc::fmt(": forward iteration visits %ld of %ld", k, n));
  { It i = b; for (k = 0; k < n; ++k) { It j = i++; if (!(get(j) == want[k])) return mc::fail(h + ": post-increment"); } if (!(i == e)) return mc::fail(h + ": end after post-increments"); }
  { It i = e; for (k = n; k-- > 0;) { --i; if (!(get(i) == want[k])) return mc::fail(h + mc::fmt(": backward iteration, position %ld", k)); } if (!(i == b)) return mc::fail(h + ": begin after decrements"); }
  { It i = e; for (k = n; k-- > 0;) { It j = i--; if (k < n - 1 && !(get(j) == want[k + 1])) return mc::fail(h + ": post-decrement"); } if (!(i == b)) return mc::fail(h + ": begin after post-decrements"); }
  if (e - b != n || b - e != -n) return mc::fail(h + mc::fmt(": distance %ld, expected %ld", long(e - b), n));
  if (n > 40) { // chosen positions only
    std::vector<long> ps; for (long x : {0l, 1l, 2l, n / 3, n / 2, n - 2, n - 1, n, 127l, 128l, 129l, 255l, 256l, 257l, 299l, 300l, 301l, 65535l, 65536l, 65537l}) if (x <= n) ps.push_back(x);
    for (long p : ps) for (long q : ps) { It a = b + p, c = b + q, m = a + (q - p), o = a; o += q - p; mc::trans(); if (!(m == c) || !(o == c) || !(e - (n - q) == c) || c - a != q - p || (a < c) != (p < q) || (a > c) != (p > q) || (a <= c) != (p <= q) || (a >= c) != (p >= q) || (a == c) != (p == q) || q < n && !(get(m) == want[q])) return mc::fail(h + mc::fmt(": random access from %ld to %ld", p, q)); }
    return true; }
  std::vector<It> its; { It i = b; for (k = 0; k < n; ++k) { its.push_back(i); ++i; } its.push_back(i); }
  for (long p = 0; p <= n; ++p) for (long q = 0; q <= n; ++q) {
    long d = q - p; It a = its[p] + d, c = d + its[p], s = its[p] - (-d), pe = its[p], me = its[p]; pe += d; me -= -d;
    for (It *x : {&a, &c, &s, &pe, &me}) { if (!(*x == its[q]) || *x != its[q]) return mc::fail(h + mc::fmt(": position %ld moved by %ld is not position %ld", p, d, q)); if (q < n && !(get(*x) == want[q])) return mc::fail(h + mc::fmt(": position %ld moved by %ld denotes another element", p, d)); }
    if (its[q] - its[p] != d) return mc::fail(h + mc::fmt(": distance from %ld to %ld is %ld", p, q, long(its[q] - its[p])));
    if ((its[p] == its[q]) != (p == q) || (its[p] != its[q]) != (p != q) || (its[p] < its[q]) != (p < q) || (its[p] <= its[q]) != (p <= q) || (its[p] > its[q]) != (p > q) || (its[p] >= its[q]) != (p >= q)) return mc::fail(h + mc::fmt(": comparison of positions %ld and %ld", p, q));
    if (p < n && q < n) { It u = its[p], w = its[q]; u.swap(w); if (!(u == its[q]) || !(w == its[p])) return mc::fail(h + ": iterator swap"); u = its[q]; if (!(get(u) == want[q])) return mc::fail(h + ": iterator assignment"); }
  }
  return true;
}
template <int R, class B> bool bounds_ok(const B &b, const Ix<R> &e, const Ix<R> &s, bool contiguous, const std::string &h) {
  mc::trans(); std::size_t n = 1; for (auto x : e) n *= x;
  if ((std::size_t)b.size() != n) return mc::fail(h + mc::fmt(": size %zu, expected %zu", (std::size_t)b.size(), n));
  if (!(b.as_index() == mk<R>(e))) return mc::fail(h + ": extents");
  if (!(b.strides() == mk<R>(s)) || (R > 1 || s[0] != 1) && b.stride() != s[0]) return mc::fail(h + ": strides");
  if (n) { D last = 0; for (int i = 0; i < R; ++i) last += (e[i] - 1) * s[i]; if ((D)b.total_size() != (contiguous ? (D)n : last + 1)) return mc::fail(h + ": total size"); }
  Ix<R> lo, hi, zero{}; for (int i = 0; i < R; ++i) { lo[i] = -1; hi[i] = e[i] + 2; }
  for (auto &x : box<R>(lo, hi)) { bool in = true; D off = 0; for (int i = 0; i < R; ++i) { in = in && x[i] >= 0 && x[i] < e[i]; off += x[i] * s[i]; }
    if (b.contains(mk<R>(x)) != in) return mc::fail(h + ": contains(" + sh<R>(x) + ")"); if (in && b.linearize(mk<R>(x)) != off) return mc::fail(h + ": linearize(" + sh<R>(x) + ")"); }
  auto want = box<R>(zero, e);
  return iterate(b.begin(), b.end(), [](auto &i) { return (*i).as_array(); }, want, h + ": bounds");
}
template <class V> struct Rk { static constexpr int value = V::index_type::rank; };
// the view must show exactly base + sum(idx*stride) for idx < ext
template <int R, class V> bool view_ok(const V &v, const typename V::pointer base, const Ix<R> &e, const Ix<R> &s, const std::string &h, int depth, bool sections) {
  mc::trans(); std::size_t n = 1; for (auto x : e) n *= x;
  if (v.size() != n) return mc::fail(h + mc::fmt(": size %zu, expected %zu", v.size(), n));
  if (v.data() != base) return mc::fail(h + ": data");
  if (v.empty() != (n == 0 || !base)) return mc::fail(h + ": empty()");
  if (bool(v) != (base != nullptr)) return mc::fail(h + ": conversion to bool");
  if ((int)v.rank() != R) return mc::fail(h + ": rank");
  if (v.template extent<0>() != (std::size_t)e[0] || v.template extent<R - 1>() != (std::size_t)e[R - 1]) return mc::fail(h + ": extent");
  if (!(v.strides() == mk<R>(s)) || v.stride() != s[0]) return mc::fail(h + ": strides");
  bool contiguous = rowmajor<R>(e) == s;
  if (!bounds_ok<R>(v.bounds(), e, s, contiguous, h)) return false;
  Ix<R> zero{}, lo, hi; std::vector<typename V::pointer> want;
  for (auto &x : box<R>(zero, e)) {
    D off = 0; for (int i = 0; i < R; ++i) off += x[i] * s[i];
    auto p = base + off; want.push_back(p);
    if (&v[mk<R>(x)] != p || &v.at(mk<R>(x)) != p || paren(v, x, std::make_index_sequence<R>{}) != p) return mc::fail(h + ": element " + sh<R>(x));
  }
  for (int i = 0; i < R; ++i) { lo[i] = -1; hi[i] = e[i] + 1; }
  if (n <= 40) for (auto &x : box<R>(lo, hi)) { bool in = true; for (int i = 0; i < R; ++i) in = in && x[i] >= 0 && x[i] < e[i]; if (in) continue; bool t = false; try { (void)v.at(mk<R>(x)); } catch (const std::out_of_range &) { t = true; } if (!t) return mc::fail(h + ": at(" + sh<R>(x) + ") does not throw"); }
  auto addr = [](auto &i) { auto j = i; return &*j; };
  if (!iterate(v.begin(), v.end(), addr, want, h)) return false;
  { auto b = v.begin(); for (std::size_t k = 0; k < n; ++k) if (!(b[k] == *want[k])) return mc::fail(h + ": iterator subscript"); }
  { std::size_t k = 0; for (auto &x : v) { if (&x != want[k]) return mc::fail(h + ": range for"); ++k; } if (k != n) return mc::fail(h + ": range for count"); }
  { std::size_t k = n; for (auto i = v.rbegin(); i != v.rend(); ++i) { if (!k || &*i != want[k - 1]) return mc::fail(h + ": reverse iteration"); --k; } if (k) return mc::fail(h + ": reverse iteration count"); }
  { std::size_t k = 0; for (auto i = v.cbegin(); i != v.cend(); ++i) { if (k >= n || &*i != want[k]) return mc::fail(h + ": constant iteration"); ++k; } if (k != n) return mc::fail(h + ": constant iteration count"); }
  { std::size_t k = n; for (auto i = v.crbegin(); i != v.crend(); ++i) { if (!k || &*i != want[k - 1]) return mc::fail(h + ": constant reverse iteration"); --k; } if (k) return mc::fail(h + ": constant reverse iteration count"); }
  { V c(v), d; d = v; if (c.data() != base || d.data() != base || c.size() != n || d.size() != n) return mc::fail(h + ": copy"); if (!(c == v) || c != v || c < v || c > v || !(c <= v) || !(c >= v)) return mc::fail(h + ": comparison with a copy"); }
  if constexpr (R > 1) {
    for (D i = 0; i < e[0]; ++i) {
      Ix<R - 1> se, ss; for (int k = 1; k < R; ++k) { se[k - 1] = e[k]; ss[k - 1] = s[k]; }
      auto a = v[std::size_t(i)]; auto b = v.slice(std::size_t(i));
      if (!view_ok<R - 1>(a, base + i * s[0], se, ss, h + mc::fmt("[%td]", i), depth - 1, sections && depth > 1)) return false;
      if (b.data() != a.data() || !(b.bounds() == a.bounds()) || !(b.strides() == a.strides())) return mc::fail(h + mc::fmt(".slice(%td)", i));
    }
    for (std::size_t i : {(std::size_t)e[0], (std::size_t)e[0] + 1, std::size_t(1) << 40}) { bool t = false; try { (void)v.slice(i); } catch (const std::out_of_range &) { t = true; } if (!t) return mc::fail(h + mc::fmt(".slice(%zu) does not throw", i)); }
  }
  if (sections && depth > 0) {
    auto w = v.section(); if (!view_ok<R>(w, base, e, s, h + ".section()", 0, false)) return false;
    for (auto &o : box<R>(zero, e)) {
      Ix<R> r; D off = 0; for (int i = 0; i < R; ++i) { r[i] = e[i] - o[i]; off += o[i] * s[i]; }
      if (!view_ok<R>(v.section(mk<R>(o)), base + off, r, s, h + ".section(" + sh<R>(o) + ")", depth - 1, depth > 1)) return false;
      Ix<R> top, lo1{}; for (int i = 0; i < R; ++i) top[i] = r[i] + 1;
      for (auto &x : box<R>(lo1, top)) if (!view_ok<R>(v.section(mk<R>(o), mk<R>(x)), base + off, x, s, h + ".section(" + sh<R>(o) + "," + sh<R>(x) + ")", 0, false)) return false;
    }
  }
  return true;
}
template <int R, std::size_t... I> contiguous_bounds<R> cb(const Ix<R> &e, std::index_sequence<I...>) { return contiguous_bounds<R>(e[I]...); }
template <int R, std::size_t... I> strided_bounds<R> sb(const Ix<R> &e, std::index_sequence<I...>) { return strided_bounds<R>(e[I]...); }
template <class T> struct Store { std::unique_ptr<T[]> p; Store(std::size_t n) : p(new T[n]) { for (std::size_t i = 0; i < n; ++i) p[i] = T(i * 3 + 1); } T *get() { return p.get(); } };
template <int R, class T> void shapes(const char *tn, D lo, D hi, int depth) {
  if (!mc::group(mc::fmt("shape%d.%s", R, tn))) return;
  auto seq = std::make_index_sequence<R>{}; Ix<R> a, b; a.fill(lo); b.fill(hi + 1);
  for (auto &e : box<R>(a, b)) {
    std::size_t n = 1; for (auto x : e) n *= x;
    Ix<R> s = rowmajor<R>(e); std::string h = sh<R>(e);
    if (mc::next()) { Store<T> st(n + 1); T *p = st.get(); view_ok<R>(array_view<T, R>(p, cb<R>(e, seq)), p, e, s, "contiguous " + h, depth, true); mc::distinct(mc::hash(h)); mc::sample(h); }
    if (mc::next()) { Store<T> st(n + 1); T *p = st.get(); view_ok<R>(array_view<T, R>(p, contiguous_bounds<R>(mk<R>(e))), p, e, s, "contiguous from index " + h, 0, false); array_view<T, R> v(p, cb<R>(e, seq)); view_ok<R>(array_view<const T, R>(v), (const T *)p, e, s, "constant view " + h, 0, false);
      array_view<const T, R> cv; cv = v; view_ok<R>(cv, (const T *)p, e, s, "assigned constant view " + h, 0, false); strided_array_view<T, R> w(v); view_ok<R>(w, p, e, s, "converted to strided " + h, 0, false); auto x = static_cast<strided_array_view<T, R>>(v); view_ok<R>(x, p, e, s, "cast to strided " + h, 0, false);
      array_view<T, R> u, o(v); u.swap(o); view_ok<R>(u, p, e, s, "swapped " + h, 0, false); if (o.data()) mc::fail("swap " + h); u.clear(); if (u.data() || u.size() || !u.empty()) mc::fail("clear " + h);
      if constexpr (R > 1) { array_view<T> f{v}; view_ok<1>(f, p, Ix<1>{(D)n}, Ix<1>{1}, "flattened " + h, 0, false); } }
    if (mc::next()) { std::vector<T> vec(n); for (std::size_t i = 0; i < n; ++i) vec[i] = T(i + 5); if (n) { view_ok<R>(array_view<T, R>(vec, cb<R>(e, seq)), vec.data(), e, s, "vector " + h, 0, false); view_ok<R>(strided_array_view<T, R>(vec, sb<R>(e, seq)), vec.data(), e, s, "strided over vector " + h, 0, false); } }
    if (mc::next()) { Store<T> st(n + 1); T *p = st.get(); strided_array_view<T, R> v(p, sb<R>(e, seq)); view_ok<R>(v, p, e, s, "strided " + h, depth, true); strided_array_view<const T, R> cv(v), cw; cw = v; view_ok<R>(cv, (const T *)p, e, s, "constant strided " + h, 0, false); view_ok<R>(cw, (const T *)p, e, s, "assigned strided " + h, 0, false);
      strided_array_view<T, R> u, o(v); u.swap(o); view_ok<R>(u, p, e, s, "swapped strided " + h, 0, false); u.clear(); if (u.data() || u.size() || !u.empty()) mc::fail("clear strided " + h); }
    // padded rows and permuted (column-major) strides
    for (int mode = 0; mode < 3; ++mode) if (mc::next()) {
      Ix<R> t; D m = 1; if (mode < 2) for (int i = R; i-- > 0;) { t[i] = m * (mode && i == R - 1 ? 2 : 1); m = t[i] * (e[i] + (i == 0 ? 0 : 1 + mode)); } else for (int i = 0; i < R; ++i) { t[i] = m; m *= e[i]; }
      if (mode == 0 && R == 1) t[0] = 3;
      D last = 0; for (int i = 0; i < R; ++i) if (e[i]) last += (e[i] - 1) * t[i];
      Store<T> st(last + 1); T *p = st.get(); view_ok<R>(strided_array_view<T, R>(p, mk<R>(e), mk<R>(t)), p, e, t, mc::fmt("strides %s of ", sh<R>(t).c_str()) + h, depth, true);
      if (!bounds_ok<R>(strided_bounds<R>(mk<R>(e), mk<R>(t)), e, t, false, "strided bounds")) continue;
    }
  }
}
template <class A, std::size_t R> void arr(A &a, const std::array<D, R> &e, const char *nm) {
  typedef std::remove_all_extents_t<A> T; T *p = (T *)&a; Ix<R> s = rowmajor<R>(e);
  view_ok<R>(array_view<T, R>(a), p, e, s, std::string("view of array ") + nm, 1, true);
  view_ok<R>(strided_array_view<T, R>(a), p, e, s, std::string("strided view of array ") + nm, 1, true);
  view_ok<R>(make_array_view(a), p, e, s, std::string("make_array_view ") + nm, 0, false);
  bounds_ok<R>(contiguous_bounds<R>(a), e, s, true, std::string("contiguous bounds of array ") + nm);
  bounds_ok<R>(strided_bounds<R>(a), e, s, true, std::string("strided bounds of array ") + nm);
}
template <class V, std::size_t R> void stat(V v, typename V::pointer p, const std::array<D, R> &e, const std::string &h) {
  Ix<R> s = rowmajor<R>(e); view_ok<R>(v, p, e, s, h, 2, true);
  auto d = static_cast<typename V::dynamic_view>(v); view_ok<R>(d, p, e, s, h + " to dynamic", 1, true);
  auto w = static_cast<typename V::strided_view>(v); view_ok<R>(w, p, e, s, h + " to strided", 1, true);
  V u, o(v); u.swap(o); if (u.data() != p || o.data()) mc::fail(h + ": swap"); u.clear(); if (u.data() || !u.empty()) mc::fail(h + ": clear");
}
template <int R> void index_ops() {
  if (!mc::group(mc::fmt("index%d", R))) return;
  Ix<R> a, b; a.fill(-1); b.fill(R > 2 ? 2 : 3);
  auto all = box<R>(a, b);
  for (auto &x : all) for (auto &y : all) {
    if (!mc::next()) continue;
    index_t<R> i(x), j(y), k; Ix<R> z; bool ok = true;
    auto eq = [&](const index_t<R> &g, const Ix<R> &w, const char *n) { if (ok && g.as_array() != w) ok = mc::fail(std::string("index ") + n + ": " + sh<R>(x) + " " + sh<R>(y) + " gives " + sh<R>(g.as_array())); };
#define EACH(EXPR) for (int d = 0; d < R; ++d) z[d] = EXPR;
    EACH(x[d] + y[d]); eq(i + j, z, "+"); k = i; eq(k += j, z, "+="); eq(k, z, "+=");
    EACH(x[d] - y[d]); eq(i - j, z, "-"); k = i; eq(k -= j, z, "-="); eq(k, z, "-=");
    EACH(x[d] * 3); eq(i * 3, z, "*"); eq(3 * i, z, "* left"); k = i; eq(k *= 3, z, "*="); eq(k, z, "*=");
    EACH(x[d] / 2); eq(i / 2, z, "/"); k = i; eq(k /= 2, z, "/=");
    EACH(-x[d]); eq(-i, z, "negation"); eq(+i, x, "unary plus");
    EACH(x[d] + x[d]); k = i; eq(k += k, z, "+= itself"); EACH(0); k = i; eq(k -= k, z, "-= itself");
    k = i; index_t<R> l = j; k.swap(l); eq(k, y, "swap"); eq(l, x, "swap");
    bool e = x == y; MC_CHECK((i == j) == e && (i != j) != e, "index comparison");
    bool dom = true; for (int d = 0; d < R; ++d) dom = dom && x[d] <= y[d];
    MC_CHECK((i <= j) == dom && (j >= i) == dom, "index domination %s %s", sh<R>(x).c_str(), sh<R>(y).c_str());
    for (int d = 0; d < R; ++d) { const index_t<R> c = i; MC_CHECK(i[d] == x[d] && c[d] == x[d] && i.at(d) == x[d] && c.at(d) == x[d] && c.begin()[d] == x[d], "index component"); k = i; k[d] = 77; EACH(x[d]); z[d] = 77; eq(k, z, "component write"); }
    MC_CHECK(i.end() - i.begin() == R && i.template get<0>() == (std::size_t)x[0] && i.template get<R - 1>() == (std::size_t)x[R - 1], "index range");
    for (std::size_t d : {(std::size_t)R, (std::size_t)R + 1, std::size_t(-1), std::size_t(1) << 8, std::size_t(1) << 31, std::size_t(1) << 32, std::size_t(1) << 63}) { bool t = false, u = false; try { (void)i.at(d); } catch (const std::out_of_range &) { t = true; } const index_t<R> c = i; try { (void)c.at(d); } catch (const std::out_of_range &) { u = true; } MC_CHECK(t && u, "index at(%zu) does not throw", d); }
    if constexpr (R > 1) { auto l2 = i.shift_left(); for (int d = 1; d < R; ++d) MC_CHECK(l2[d - 1] == x[d], "shift_left"); }
    if constexpr (R == 1) { k = i; MC_CHECK((k++)[0] == x[0] && k[0] == x[0] + 1 && (++k)[0] == x[0] + 2 && (k--)[0] == x[0] + 2 && (--k)[0] == x[0], "index increment"); MC_CHECK((i < j) == (x[0] < y[0]) && (i > j) == (x[0] > y[0]), "index order"); }
  }
}
template <template <class, D> class View> void comparisons(const char *nm) {
  if (!mc::group(std::string("compare.") + nm)) return;
  // all pairs of 2x2 contents over {0,1}
  for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) {
    if (!mc::next()) continue;
    int x[2][2], y[2][2]; std::vector<int> vx, vy; for (int i = 0; i < 4; ++i) { x[i / 2][i % 2] = a >> i & 1; y[i / 2][i % 2] = b >> i & 1; vx.push_back(a >> i & 1); vy.push_back(b >> i & 1); }
    View<int, 2> v(x), w(y); View<const int, 2> c(w);
    MC_CHECK((v == w) == (vx == vy) && (v != w) == (vx != vy) && (v < w) == (vx < vy) && (v > w) == (vx > vy) && (v <= w) == (vx <= vy) && (v >= w) == (vx >= vy), "%s views of %d and %d", nm, a, b);
    MC_CHECK((v == c) == (vx == vy) && (v < c) == (vx < vy), "%s views, constant operand", nm);
    int l[3] = {a & 1, a >> 1 & 1, a >> 2 & 1}, m[2] = {b & 1, b >> 1 & 1}; std::vector<int> vl(l, l + 3), vm(m, m + 2); View<int, 1> p(l), q(m);
    MC_CHECK((p == q) == (vl == vm) && (q == p) == (vl == vm) && (p < q) == (vl < vm) && (q < p) == (vm < vl) && (p >= q) == (vl >= vm), "%s views of different length", nm);
  }
}
// extents beyond narrow integers
template <int R> void wide(const Ix<R> &e) {
  if (!mc::next()) return; auto seq = std::make_index_sequence<R>{}; std::size_t n = 1; for (auto x : e) n *= x; Ix<R> s = rowmajor<R>(e); std::string h = sh<R>(e);
  Store<unsigned char> st(2 * n + 64); unsigned char *p = st.get(); view_ok<R>(array_view<unsigned char, R>(p, cb<R>(e, seq)), p, e, s, "contiguous " + h, 0, false); view_ok<R>(strided_array_view<unsigned char, R>(p, sb<R>(e, seq)), p, e, s, "strided " + h, 0, false);
  Ix<R> t = s; for (auto &x : t) x *= 2; view_ok<R>(strided_array_view<unsigned char, R>(p, mk<R>(e), mk<R>(t)), p, e, t, "every second of " + h, 0, false); mc::distinct(mc::hash(h)); mc::sample(h); }
// addresses only: nothing is read or written
template <int R> void huge(const Ix<R> &e) {
  if (!mc::next()) return; auto seq = std::make_index_sequence<R>{}; D n = 1; for (auto x : e) n *= x; Ix<R> s = rowmajor<R>(e), zero{}; std::string h = sh<R>(e);
  char *base = (char *)mmap(nullptr, 1ul << 36, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) base = (char *)(1ul << 44);
  array_view<char, R> v(base, cb<R>(e, seq)); strided_array_view<char, R> w(base, sb<R>(e, seq)); Ix<R> t = s; for (auto &x : t) x += x / 2; strided_array_view<char, R> u(base, mk<R>(e), mk<R>(t));
  MC_CHECK((D)v.size() == n && (D)w.size() == n && (D)u.size() == n && (D)v.bounds().size() == n && (D)v.bounds().total_size() == n, "size of %s", h.c_str());
  MC_CHECK(v.strides() == mk<R>(s) && w.strides() == mk<R>(s) && v.stride() == s[0] && w.stride() == s[0], "strides of %s", h.c_str());
  Ix<R> two; two.fill(4); for (auto &c : box<R>(zero, two)) { Ix<R> x; D o = 0, q = 0; for (int i = 0; i < R; ++i) { D pick[] = {0, e[i] / 2, e[i] - 1, e[i] / 3}; x[i] = pick[c[i]]; o += x[i] * s[i]; q += x[i] * t[i]; }
    MC_CHECK(&v[mk<R>(x)] == base + o && &v.at(mk<R>(x)) == base + o && &w[mk<R>(x)] == base + o && &w.at(mk<R>(x)) == base + o && &u[mk<R>(x)] == base + q && paren(v, x, seq) == base + o && paren(u, x, seq) == base + q, "element %s of %s", sh<R>(x).c_str(), h.c_str());
    MC_CHECK(v.bounds().linearize(mk<R>(x)) == o && u.bounds().linearize(mk<R>(x)) == q && v.bounds().contains(mk<R>(x)) && u.bounds().contains(mk<R>(x)), "offset of %s in %s", sh<R>(x).c_str(), h.c_str());
    MC_CHECK(v.section(mk<R>(x)).data() == base + o && u.section(mk<R>(x)).data() == base + q && w.section(mk<R>(x)).data() == base + o, "section of %s at %s", h.c_str(), sh<R>(x).c_str()); Ix<R> r; D m = 1; for (int i = 0; i < R; ++i) { r[i] = e[i] - x[i]; m *= r[i]; } MC_CHECK(v.section(mk<R>(x)).bounds().as_index() == mk<R>(r) && (D)v.section(mk<R>(x)).size() == m, "section of %s at %s", h.c_str(), sh<R>(x).c_str());
    for (int i = 0; i < R; ++i) for (D out : {D(-1), e[i], e[i] + (D(1) << 32), D(1) << 62}) { auto y = x; y[i] = out; MC_CHECK(!v.bounds().contains(mk<R>(y)) && !u.bounds().contains(mk<R>(y)), "contains %s in %s", sh<R>(y).c_str(), h.c_str()); }
    if constexpr (R > 1) { auto a = v[std::size_t(x[0])]; auto b = u[std::size_t(x[0])]; MC_CHECK(a.data() == base + x[0] * s[0] && b.data() == base + x[0] * t[0] && v.slice(x[0]).data() == a.data() && u.slice(x[0]).data() == b.data() && (D)a.size() == n / e[0], "slice %td of %s", x[0], h.c_str()); }
    // iterators
    D k = o; auto b = v.bounds().begin(), f = v.bounds().end(); auto i = b + k; MC_CHECK((*i).as_array() == x && i - b == k && f - i == n - k && f - b == n && (i < f) && (b <= i), "bounds iterator at %s of %s", sh<R>(x).c_str(), h.c_str()); auto j = f - (n - k); MC_CHECK(j == i && (*j).as_array() == x, "bounds iterator back to %s of %s", sh<R>(x).c_str(), h.c_str());
    auto vb = v.begin(), ve = v.end(); MC_CHECK(&*(vb + k) == base + o && (vb + k) - vb == k && ve - vb == n && &*(ve - (n - k)) == base + o, "iterator at %s of %s", sh<R>(x).c_str(), h.c_str()); auto ub = u.begin(); MC_CHECK(&*(ub + k) == base + q && (ub + k) - ub == k, "strided iterator at %s of %s", sh<R>(x).c_str(), h.c_str()); }
  if (base != (char *)(1ul << 44)) munmap(base, 1ul << 36); mc::distinct(mc::hash(h)); }
int main(int argc, char **argv) {
  mc::init(argc, argv);
  bool t = mc::thorough();
#if SEC == 0
  index_ops<1>(); index_ops<2>(); index_ops<3>();
  shapes<1, int>("int", 0, t ? 6 : 5, 2);
#elif SEC == 1
  shapes<2, int>("int", 0, t ? 4 : 3, 2);
#elif SEC == 2
  shapes<3, int>("int", 0, t ? 3 : 2, t ? 2 : 1);
#elif SEC == 3
  shapes<4, short>("short", t ? 0 : 1, 2, 1);
#elif SEC == 4
  shapes<2, double>("double", 1, 3, 1);
#elif SEC == 5
  comparisons<array_view>("contiguous"); comparisons<strided_array_view>("strided");
  if (mc::group("overlap")) { // strided views of one buffer, equal sizes, different strides
    for (D s1 = 1; s1 <= 3; ++s1) for (D s2 = 1; s2 <= 3; ++s2) for (int fill = 0; fill < 128; ++fill) { if (!mc::next()) continue; int buf[7]; for (int i = 0; i < 7; ++i) buf[i] = fill >> i & 1; std::vector<int> a, b; for (int i = 0; i < 3; ++i) { a.push_back(buf[i * s1]); b.push_back(buf[i * s2]); }
      strided_array_view<int, 1> v(buf, index_t<1>(3), index_t<1>(s1)), w(buf, index_t<1>(3), index_t<1>(s2)); MC_CHECK((v == w) == (a == b) && (v != w) == (a != b) && (v < w) == (a < b), "strides %td and %td", s1, s2); } }
#elif SEC == 9
  std::vector<D> ws; for (D c : {128, 256}) for (D d = -1; d <= 2; ++d) ws.push_back(c + d); ws.push_back(300);
  if (mc::group("wide1")) { for (D x : ws) wide<1>({x}); for (D x : {65535, 65536, 65537}) wide<1>({x}); }
  if (mc::group("wide2")) for (D x : ws) for (D y : {1, 2, 3, 130}) { wide<2>({x, y}); if (y < 10) wide<2>({y, x}); }
  if (mc::group("wide3")) for (D x : {129, 257}) { wide<3>({x, 2, 2}); wide<3>({2, x, 2}); wide<3>({2, 2, x}); wide<3>({1, x, 3}); }
  if (mc::group("wide4")) for (D x : {129, 257}) { wide<4>({x, 1, 2, 1}); wide<4>({1, 2, 1, x}); }
  if (mc::group("wide5")) for (int m = 0; m < 32; ++m) { Ix<5> e, f; for (int i = 0; i < 5; ++i) { e[i] = 1 + (m >> i & 1); f[i] = m >> i & 1 ? 3 : 2; } wide<5>(e); if (m % 5 == 0) wide<5>(f); }
  if (mc::group("wide6")) for (int m = 0; m < 64; m += 3) { Ix<6> e; for (int i = 0; i < 6; ++i) e[i] = 1 + (m >> i & 1); wide<6>(e); }
  if (mc::group("shift")) { auto one = [](auto r) { constexpr int R = decltype(r)::value; if (!mc::next()) return; index_t<R> i; Ix<R> x; for (int d = 0; d < R; ++d) i[d] = x[d] = 11 * d + 3; auto l = i.shift_left(); for (int d = 1; d < R; ++d) MC_CHECK(l[d - 1] == x[d], "shift_left of rank %d, component %d", R, d); auto s = i + i, n = -i; for (int d = 0; d < R; ++d) MC_CHECK(s[d] == 2 * x[d] && n[d] == -x[d] && (i * 3)[d] == 3 * x[d] && (i / 2)[d] == x[d] / 2, "arithmetic of rank %d, component %d", R, d); for (int d = 0; d < R; ++d) { auto j = i; ++j[d]; MC_CHECK(!(i == j) && i != j && i <= j && !(j <= i), "comparison of rank %d, component %d", R, d); } }; one(std::integral_constant<int, 4>{}); one(std::integral_constant<int, 5>{}); one(std::integral_constant<int, 6>{}); one(std::integral_constant<int, 9>{}); one(std::integral_constant<int, 17>{}); }
  std::vector<D> hs{2, 3, 255, 65537, (D(1) << 31) - 1, D(1) << 31, (D(1) << 31) + 5, D(1) << 32, (D(1) << 32) + 3};
  if (mc::group("huge1")) for (D x : hs) huge<1>({x});
  if (mc::group("huge2")) for (D x : hs) for (D y : hs) if ((double)x * y < 1.7e10) huge<2>({x, y});
  if (mc::group("huge3")) for (D x : hs) for (D y : hs) for (D z : hs) if ((double)x * y * z < 1.7e10) huge<3>({x, y, z});
#elif SEC == 7
  if (mc::group("arrays")) {
    if (mc::next()) { int a[4] = {1, 2, 3, 4}; arr(a, Ix<1>{4}, "[4]"); }
    if (mc::next()) { int a[2][3] = {}; arr(a, Ix<2>{2, 3}, "[2][3]"); }
    if (mc::next()) { double a[3][1][2] = {}; arr(a, Ix<3>{3, 1, 2}, "[3][1][2]"); }
    if (mc::next()) { char a[2][3][2][3] = {}; arr(a, Ix<4>{2, 3, 2, 3}, "[2][3][2][3]"); }
    if (mc::next()) { std::vector<int> v{1, 2, 3, 4, 5, 6}; view_ok<1>(make_array_view(v), v.data(), Ix<1>{6}, Ix<1>{1}, "make_array_view(vector)", 1, true); view_ok<2>(make_array_view(v, 2, 3), v.data(), Ix<2>{2, 3}, Ix<2>{3, 1}, "make_array_view(vector,2,3)", 1, true); view_ok<3>(make_array_view(v, 1, 3, 2), v.data(), Ix<3>{1, 3, 2}, Ix<3>{6, 2, 1}, "make_array_view(vector,1,3,2)", 1, true); view_ok<2>(make_array_view(v.data(), 3, 2), v.data(), Ix<2>{3, 2}, Ix<2>{2, 1}, "make_array_view(pointer,3,2)", 1, true); array_view<int> w(v); view_ok<1>(w, v.data(), Ix<1>{6}, Ix<1>{1}, "view of vector", 1, true); strided_array_view<int> u(v); view_ok<1>(u, v.data(), Ix<1>{6}, Ix<1>{1}, "strided view of vector", 1, true); }
  }
#elif SEC == 6
  if (mc::group("static")) {
    if (mc::next()) { int a[3] = {4, 5, 6}; stat(static_array_view<int, 3>(a), a, Ix<1>{3}, "static [3]"); stat(make_static_array_view(a), a, Ix<1>{3}, "make_static [3]"); }
    if (mc::next()) { int a[1] = {4}; stat(static_array_view<int, 1>(a), a, Ix<1>{1}, "static [1]"); }
    if (mc::next()) { int a[2][3] = {{1, 2, 3}, {4, 5, 6}}; stat(static_array_view<int, 2, 3>(a), &a[0][0], Ix<2>{2, 3}, "static [2][3]"); stat(make_static_array_view(a), &a[0][0], Ix<2>{2, 3}, "make_static [2][3]"); bounds_ok<2>(static_bounds<2, 3>(), Ix<2>{2, 3}, Ix<2>{3, 1}, true, "static bounds"); bounds_ok<1>(static_bounds<2, 3>::slice(), Ix<1>{3}, Ix<1>{1}, true, "static bounds slice"); }
  }
#else
  if (mc::group("static2")) {
    if (mc::next()) { double a[3][1][2] = {}; stat(static_array_view<double, 3, 1, 2>(a), &a[0][0][0], Ix<3>{3, 1, 2}, "static [3][1][2]"); bounds_ok<3>(static_bounds<3, 1, 2>(), Ix<3>{3, 1, 2}, Ix<3>{2, 2, 1}, true, "static bounds"); }
    if (mc::next()) { std::vector<int> v(24); stat(static_array_view<int, 2, 3, 4>(v), v.data(), Ix<3>{2, 3, 4}, "static over vector"); stat(make_static_array_view<2, 3, 2, 2>(v), v.data(), Ix<4>{2, 3, 2, 2}, "make_static<2,3,2,2>"); stat(static_array_view<int, 4, 3>(v.data()), v.data(), Ix<2>{4, 3}, "static over pointer"); static_array_view<int, 4, 3> x(v); static_array_view<const int, 4, 3> c(x), d; d = x; stat(c, (const int *)v.data(), Ix<2>{4, 3}, "static const"); stat(d, (const int *)v.data(), Ix<2>{4, 3}, "static const assigned"); }
    for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) { if (!mc::next()) continue; int x[2][2], y[2][2]; std::vector<int> vx, vy; for (int i = 0; i < 4; ++i) { x[i / 2][i % 2] = a >> i & 1; y[i / 2][i % 2] = b >> i & 1; vx.push_back(a >> i & 1); vy.push_back(b >> i & 1); } static_array_view<int, 2, 2> v(x), w(y);
      MC_CHECK((v == w) == (vx == vy) && (v != w) == (vx != vy) && (v < w) == (vx < vy) && (v > w) == (vx > vy) && (v <= w) == (vx <= vy) && (v >= w) == (vx >= vy), "static views of %d and %d", a, b); }
  }
#endif
  mc::finish();
}
