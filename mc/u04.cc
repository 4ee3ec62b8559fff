// U04: zipped, tuple-wise and static iteration.
#include "mc.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csetjmp>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <utility>
static jmp_buf jb; static bool trap = false;
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  if (trap) { trap = false; longjmp(jb, 1); }
  fprintf(stderr, "assertion %s %s:%u\n", e, f, l); abort();
}
#include "ristra/utils/algorithm.h"
#include "ristra/utils/functional.h"
#include "ristra/utils/static_for.h"
#include "ristra/utils/tasks.h"
#include "ristra/utils/template_helpers.h"
#include "ristra/utils/tuple_for_each.h"
#include "ristra/utils/tuple_to_array.h"
#include "ristra/utils/tuple_visit.h"
#include "ristra/utils/tuple_zip.h"
#include "ristra/utils/zip.h"
using namespace ristra::utils;
template <class C> C mk(int k, const std::vector<int> &n) { C c; for (int i = 0; i < n[k]; ++i) c.push_back(typename C::value_type(100 * (k + 1) + i)); return c; }
template <class C> std::vector<typename C::value_type *> addrs(C &c) { std::vector<typename C::value_type *> v; for (auto &x : c) v.push_back(&x); return v; }
struct Visit { std::vector<std::vector<const void *>> rows; template <class... A> void operator()(A &...a) { rows.push_back({(const void *)&a...}); } };
// all ways of walking over zipped containers; lengths n[k]
template <class... C> void zipped(const char *nm, int maxn) {
  constexpr int K = sizeof...(C);
  if (!mc::group(std::string("zip.") + nm)) return;
  mc::product(std::vector<int>(K, maxn + 1), [&](const std::vector<int> &n) {
    for (int way = 0; way < 6; ++way) {
      if (!mc::next()) continue;
      int kk = 0; std::tuple<C...> cs{mk<C>(kk++, n)...};
      int mn = *std::min_element(n.begin(), n.end()), mx = *std::max_element(n.begin(), n.end());
      std::vector<std::vector<const void *>> expect(mn, std::vector<const void *>(K));
      { int k = 0; auto put = [&](auto &c) { auto a = addrs(c); for (int i = 0; i < mn; ++i) expect[i][k] = a[i]; ++k; }; std::apply([&](auto &...c) { (put(c), ...); }, cs); }
      std::vector<std::vector<const void *>> got; int vals_ok = 1;
      auto row = [&](auto &&t) { std::vector<const void *> r; std::apply([&](auto &...x) { (r.push_back(&x), ...); int k = 0; auto chk = [&](auto &v) { if (double(v) != 100 * (k + 1) + double(got.size())) vals_ok = 0; ++k; }; (chk(x), ...); }, t); got.push_back(r); if ((int)got.size() > mx + 2) { mc::fail("iteration does not stop"); throw 1; } };
      bool rejected = false;
      if (setjmp(jb) == 0) {
        trap = true;
        try {
          std::apply([&](auto &...c) {
            if (way == 0) { for (auto t : zip(c...)) row(t); }
            else if (way == 1) { auto z = zip(c...); auto z2 = z; for (auto it = z2.begin(); it != z2.end(); ++it) { auto t = *it; row(t); } }
            else if (way == 2) { auto z = zip(c...); auto it = z.begin(); auto e = z.end(); while (it != e) { auto old = it++; MC_CHECK(!(old == it) && old != it, "%s: an iterator equals its successor", nm); auto t = *old; row(t); } MC_CHECK(mn != mx || it == e, "%s: iterator at the end does not equal end()", nm); }
            else if (way == 3) { Visit v; if constexpr (K > 0) simple_task(v, c...); for (auto &r : v.rows) got.push_back(r); }
            else if (way == 4) { // writing goes to the originals
              int i = 0; for (auto t : zip(c...)) { std::apply([&](auto &...x) { int k = 0; ((x = 1000 * ++k + i), ...); }, t); ++i; if (i > mx + 2) { mc::fail("iteration does not stop"); throw 1; } }
              int k = 0; auto chk = [&](auto &c1) { int j = 0; for (auto &x : c1) { double w = j < mn ? 1000 * (k + 1) + j : 100 * (k + 1) + j; MC_CHECK(double(x) == w, "%s: container %d element %d is %g after writing through zip, expected %g", nm, k, j, double(x), w); ++j; } ++k; };
              (chk(c), ...); MC_CHECK(i == mn, "%s: %d iterations, shortest container has %d", nm, i, mn);
            } else { // two independent iterators of one zip, nested loops
              auto z = zip(c...); int cnt = 0; auto b = z.begin(); for (auto it = b; it != z.end(); ++it) { int in = 0; for (auto u : z) { (void)u; if (++in > mx + 2) { mc::fail("iteration does not stop"); throw 1; } } MC_CHECK(in == mn, "%s: nested loop of %d steps", nm, in); auto t = *it; row(t); ++cnt; if (cnt > mx + 2) throw 1; } }
          }, cs);
        } catch (int) { trap = false; return; }
        trap = false;
      } else rejected = true;
      std::string d; for (int x : n) d += std::to_string(x) + " ";
      if (mn == mx) MC_CHECK(!rejected, "%s: zip of containers of equal length %d rejected", nm, mn);
      if (!rejected && way != 4) { MC_CHECK(got == expect, "%s: lengths %s, way %d: visited %zu rows, expected %d (or wrong elements)", nm, d.c_str(), way, got.size(), mn); MC_CHECK(vals_ok, "%s: wrong value seen", nm); }
      mc::distinct(mc::hash(d + nm));
    }
  });
}
// tuples whose element i is of a different type; log of (index by address, order)
template <class Tup> std::vector<const void *> taddr(const Tup &t) { std::vector<const void *> v; std::apply([&](auto &...x) { (v.push_back(&x), ...); }, t); return v; }
struct St { int n = 0; template <class X> void operator()(X &) { ++n; } };
struct Cnt { int n = 0; template <class... X> void operator()(X &...) { ++n; } };
template <class Tup> void tuples(const char *nm, Tup t) {
  if (!mc::group(std::string("tuple.") + nm)) return;
  constexpr size_t N = std::tuple_size<Tup>::value;
  if (mc::next()) { // lvalue: called once per element, in order, with the element itself
    std::vector<const void *> seen; tuple_for_each(t, [&](auto &x) { seen.push_back(&x); }); MC_CHECK(seen == taddr(t), "tuple_for_each over %s", nm);
    const Tup &c = t; seen.clear(); tuple_for_each(c, [&](const auto &x) { seen.push_back(&x); }); MC_CHECK(seen == taddr(t), "tuple_for_each over const %s", nm);
    seen.clear(); Tup u = t; tuple_for_each(std::move(u), [&](auto &&x) { static_assert(!std::is_lvalue_reference<decltype(x)>::value, ""); seen.push_back(&x); }); MC_CHECK(seen == taddr(u), "tuple_for_each over rvalue %s", nm);
    St st; tuple_for_each(t, st); MC_CHECK(st.n == (int)N, "tuple_for_each called %d times on the caller's functor, expected %zu", st.n, N);
  }
  if constexpr (N > 0) {
    if (mc::next()) {
      std::vector<const void *> s1, s2, s3; Tup u = t, w = t;
      tuple_visit([&](auto &x) { s1.push_back(&x); }, t); MC_CHECK(s1 == taddr(t), "tuple_visit over one %s", nm);
      s1.clear(); tuple_visit([&](auto &x, auto &y) { s1.push_back(&x); s2.push_back(&y); static_assert(std::is_same<decltype(x), decltype(y)>::value, ""); }, t, u); MC_CHECK(s1 == taddr(t) && s2 == taddr(u), "tuple_visit over two %s", nm);
      s1.clear(); s2.clear(); tuple_visit([&](auto &x, auto &y, auto &z) { s1.push_back(&x); s2.push_back(&y); s3.push_back(&z); }, t, u, w); MC_CHECK(s1 == taddr(t) && s2 == taddr(u) && s3 == taddr(w), "tuple_visit over three %s", nm);
      s1.clear(); s2.clear(); const Tup &c = t; tuple_visit([&](const auto &x, auto &y) { s1.push_back(&x); s2.push_back(&y); y = x; }, c, u); MC_CHECK(s1 == taddr(t) && s2 == taddr(u), "tuple_visit over const and non-const %s", nm);
      auto r = tuple_visit(Cnt{}, t); MC_CHECK(r.n == (int)N, "tuple_visit returns a functor called %d times, expected %zu", r.n, N); Cnt l; auto &&r2 = tuple_visit(l, t, u); MC_CHECK(l.n == (int)N && r2.n == (int)N, "tuple_visit with an lvalue functor");
    }
    if (mc::next()) {
      Tup u = t; tuple_for_each(u, [](auto &x) { x = x + x; });
      auto z = tuple_zip(t, u); static_assert(std::tuple_size<decltype(z)>::value == N, "");
      std::vector<int> ok; size_t i = 0; std::vector<const void *> a1, a2;
      auto chk = [&](auto &p, auto &x, auto &y) { MC_CHECK(p.first == x && p.second == y, "tuple_zip of %s: pair %zu", nm, i); MC_CHECK((const void *)&p.first != (const void *)&x && (const void *)&p.second != (const void *)&y, "tuple_zip of %s: pair %zu is not a copy", nm, i); ++i; };
      tuple_visit(chk, z, t, u); MC_CHECK(i == N, "tuple_zip of %s: %zu pairs", nm, i);
      auto e = tuple_tie(t, u); static_assert(std::tuple_size<decltype(e)>::value == N, ""); i = 0;
      auto chk2 = [&](auto &p, auto &x, auto &y) { MC_CHECK(&std::get<0>(p) == &x && &std::get<1>(p) == &y, "tuple_tie of %s: pair %zu does not refer to the elements", nm, i); ++i; };
      tuple_visit(chk2, e, t, u); MC_CHECK(i == N, "tuple_tie of %s: %zu pairs", nm, i);
      const Tup &c = t; auto ce = tuple_tie(c, u); i = 0; auto chk3 = [&](auto &p, auto &x, auto &y) { MC_CHECK(&std::get<0>(p) == &x && &std::get<1>(p) == &y, "tuple_tie of const %s", nm); std::get<1>(p) = std::get<0>(p); }; tuple_visit(chk3, ce, c, u); MC_CHECK(u == t, "writing through tuple_tie of %s", nm);
    }
  }
}
template <size_t N> void static_one() {
  if (!mc::next()) return;
  std::vector<size_t> s; static_for<N>([&](auto i) { s.push_back(i); }); std::vector<size_t> w(N); std::iota(w.begin(), w.end(), 0); MC_CHECK(s == w, "static_for<%zu> made %zu calls or in a wrong order", N, s.size());
  struct F { int n = 0; void operator()(size_t) { ++n; } } f; static_for<N>(f); MC_CHECK(f.n == (int)N, "static_for<%zu> on a caller's functor", N);
  if constexpr (N > 0) {
    auto a = fill<N>::apply(7); static_assert(std::tuple_size<decltype(a)>::value == N, ""); for (auto x : a) MC_CHECK(x == 7, "fill<%zu>", N);
    auto b = make_array<double, N>(2.5); static_assert(std::tuple_size<decltype(b)>::value == N, ""); for (auto x : b) MC_CHECK(x == 2.5, "make_array<%zu>", N);
  }
}
template <size_t... I> void to_arr(std::index_sequence<I...>) {
  if (!mc::next()) return;
  auto t = std::make_tuple(int(I * 3 + 1)...); auto a = to_array(t); static_assert(std::tuple_size<decltype(a)>::value == sizeof...(I), ""); std::array<int, sizeof...(I)> w{int(I * 3 + 1)...}; MC_CHECK(a == w, "to_array of %zu", sizeof...(I));
  auto ts = std::make_tuple(std::to_string(I)...); auto as = to_array(ts); std::array<std::string, sizeof...(I)> ws{std::to_string(I)...}; MC_CHECK(as == ws && ts == std::make_tuple(std::to_string(I)...), "to_array of strings");
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  using V = std::vector<int>; using L = std::list<double>; using Q = std::deque<short>;
  zipped<V>("V", t ? 8 : 6); zipped<L>("L", 6); zipped<V, V>("VV", t ? 8 : 6); zipped<V, L>("VL", t ? 8 : 6); zipped<Q, V>("QV", 5); zipped<L, Q>("LQ", 5); zipped<V, L, Q>("VLQ", t ? 5 : 4); zipped<V, V, V>("VVV", t ? 5 : 4); zipped<V, V, V, L>("VVVL", t ? 4 : 3); if (t) zipped<V, Q, L, V, V>("VQLVV", 3);
  using std::string;
  tuples("()", std::tuple<>()); tuples("(int)", std::make_tuple(1)); tuples("(int,double)", std::make_tuple(1, 2.5)); tuples("(string,int,double)", std::make_tuple(string("ab"), 1, 2.5)); tuples("(int,int,int,int)", std::make_tuple(1, 2, 3, 4)); tuples("(long,string,float,double,string)", std::make_tuple(1l, string("x"), 2.f, 3., string("y")));
  tuples("pair", std::make_pair(1, string("z"))); tuples("array3", std::array<int, 3>{5, 6, 7});
  if (mc::group("static")) { static_one<0>(); static_one<1>(); static_one<2>(); static_one<3>(); static_one<4>(); static_one<7>(); static_one<20>(); }
  if (mc::group("to_array")) { to_arr(std::make_index_sequence<1>()); to_arr(std::make_index_sequence<2>()); to_arr(std::make_index_sequence<3>()); to_arr(std::make_index_sequence<4>()); to_arr(std::make_index_sequence<7>()); }
  if (mc::group("functional")) for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) { if (!mc::next()) continue; MC_CHECK(plus(a, b) == a + b && minus(a, b) == a - b && multiplies(a, b) == a * b && plus(a, b + .5) == a + (b + .5) && minus(a + .5, b) == (a + .5) - b, "functional %d %d", a, b); if (b) MC_CHECK(divides(a, b) == a / b && divides(double(a), b) == double(a) / b && divides(a, double(b)) == a / double(b), "divides %d %d", a, b);
      for (int c = -3; c <= 3; ++c) MC_CHECK((int)multiply(a, b, c) == a * b * c && (int)multiply(a, b) == a * b && (int)multiply(a) == a && multiply() == 1, "multiply %d %d %d", a, b, c); }
  if (mc::group("helpers")) if (mc::next()) { int a = 1; double b = 2; string c = "q"; auto x = ctie(a, b, c); static_assert(std::is_same<decltype(x), std::tuple<int &, const double &, const string &>>::value, ""); MC_CHECK(&std::get<0>(x) == &a && &std::get<1>(x) == &b && &std::get<2>(x) == &c, "ctie refers to the arguments"); MC_CHECK(as_lvalue(5) == 5, "as_lvalue"); MC_CHECK(&as_lvalue(a) == &a, "as_lvalue of an lvalue"); static_assert(std::is_same<reference_wrapper_t<std::tuple<int, double>>, std::tuple<int &, double &>>::value, ""); MC_CHECK((std::is_same<select_counter_t<10>, int>::value && std::is_same<select_counter_t<(size_t)1 << 40>, size_t>::value && std::is_same<select_counter_t<((size_t)1 << 31)>, size_t>::value), "select_counter"); }
  if (mc::group("large")) for (int n : mc::widths(70000)) { if (!mc::next()) continue; std::vector<int> a(n); std::vector<double> b(n); std::list<long> c; for (int i = 0; i < n; ++i) a[i] = i, b[i] = 2 * i, c.push_back(3 * i); int k = 0; bool ok = true; for (auto t3 : zip(a, b, c)) { ok = ok && k < n && &std::get<0>(t3) == &a[k] && &std::get<1>(t3) == &b[k] && std::get<2>(t3) == 3 * k; ++k; } MC_CHECK(ok && k == n, "zip of %d positions visits %d", n, k);
    k = 0; auto task = [&](int &x, double &y) { ok = ok && k < n && &x == &a[k] && &y == &b[k]; ++k; }; simple_task(task, a, b); MC_CHECK(ok && k == n, "task over %d positions visits %d", n, k);
    V x(n), y, r; for (int i = 0; i < n; ++i) x[i] = (i * 17) % n, y.push_back(n - 1 - i); unsorted_set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(r)); V sx = x, w; std::sort(sx.begin(), sx.end()); std::set_intersection(sx.begin(), sx.end(), y.rbegin(), y.rend(), std::back_inserter(w)); MC_CHECK(r == w, "intersection of %d values", n); for (int i = 0; i < n; ++i) x[i] = i / 3; remove_duplicates(x); MC_CHECK((int)x.size() == (n + 2) / 3 && x.back() == (n - 1) / 3, "duplicates in %d values", n); }
  // multisets over {0,1,2}
  int ml = t ? 5 : 4; std::vector<V> all; for (int n = 0; n <= ml; ++n) { int tot = std::pow(3, n) + .5; for (int k = 0; k < tot; ++k) { V v; int m = k; for (int i = 0; i < n; ++i) { v.push_back(m % 3); m /= 3; } all.push_back(v); } }
  if (mc::group("intersection")) for (auto &a : all) for (auto &b : all) { if (!mc::next()) continue; V w; for (int d = 0; d < 3; ++d) w.insert(w.end(), std::min(std::count(a.begin(), a.end(), d), std::count(b.begin(), b.end(), d)), d); V r, a0 = a, b0 = b; unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); MC_CHECK(r == w && a == a0 && b == b0, "intersection of multisets of size %zu and %zu has %zu elements, expected %zu", a.size(), b.size(), r.size(), w.size()); V o(6, -1); std::list<int> lb(b.begin(), b.end()); auto e = unsorted_set_intersection(a.begin(), a.end(), lb.begin(), lb.end(), o.begin()); MC_CHECK(V(o.begin(), e) == w, "intersection, returned end"); }
  if (mc::group("duplicates")) for (auto &a : all) { if (!mc::next()) continue; V w; for (int x : a) if (w.empty() || w.back() != x) w.push_back(x); V r = a; remove_duplicates(r); MC_CHECK(r == w, "remove_duplicates leaves %zu elements, expected %zu", r.size(), w.size()); std::list<int> l(a.begin(), a.end()); remove_duplicates(l); MC_CHECK(V(l.begin(), l.end()) == w, "remove_duplicates of a list"); V s = a; std::sort(s.begin(), s.end()); remove_duplicates(s); std::set<int> st(a.begin(), a.end()); MC_CHECK(V(st.begin(), st.end()) == s, "remove_duplicates of a sorted sequence"); }
  mc::finish();
}
