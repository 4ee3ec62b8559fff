// U07: filtered iteration visits exactly the selected elements, once each and in order.
#include "mc.h"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <numeric>
#include <sstream>
#include <string>
#include "ristra/utils/filter_iterator.h"
using namespace ristra::utils;
struct E { int v; int pad; bool operator==(const E &o) const { return v == o.v; } };
static int val(int x) { return x; }
static int val(const E &e) { return e.v; }
static int val(const std::string &s) { return (int)s.size(); }
static void set(int &x, int v) { x = v; }
static void set(E &e, int v) { e.v = v; }
static void set(std::string &s, int v) { s.assign(v, 'x'); }
template <class T> T make(int v) { T t{}; set(t, v); return t; }
static unsigned gmask; // for the function pointer
struct Pred { unsigned m; int n; template <class T> bool operator()(const T &x) const { int v = val(x) % 100; if (v < 0 || v >= n) mc::fail("the predicate is applied to something that is not an element of the range"); return (m >> v) & 1; } };
template <class T> bool fptr(const T &x) { return (gmask >> (val(x) % 100)) & 1; }
template <class It> std::vector<const void *> addrs(It f, It l) { std::vector<const void *> v; for (; f != l; ++f) v.push_back(&*f); return v; }
static std::string S(const std::vector<int> &v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
// walk [b,e) of filter iterators with a step guard
template <class F, class C> bool walk(const char *what, unsigned m, int n, F b, F e, const C &exp, size_t from = 0) {
  size_t k = from;
  for (; b != e; ++b, ++k) { mc::trans(); if (k >= exp.size()) { mc::fail(mc::fmt("%s: more than the %zu selected elements are visited (length %d, selection %x)", what, exp.size(), n, m)); return false; } if ((const void *)&*b != exp[k]) { mc::fail(mc::fmt("%s: step %zu does not stand on selected element %zu (length %d, selection %x)", what, k, k, n, m)); return false; } }
  if (k != exp.size()) { mc::fail(mc::fmt("%s: %zu of %zu selected elements visited (length %d, selection %x)", what, k - from, exp.size() - from, n, m)); return false; }
  if (!(b == e)) { mc::fail(mc::fmt("%s: the iterator behind the last selected element does not equal the end", what)); return false; }
  return true;
}
template <class C> void cont(const char *nm, int maxn) {
  using T = typename C::value_type; using It = typename C::iterator; using CI = typename C::const_iterator;
  if (!mc::group(std::string("walk.") + nm)) return;
  for (int n = 0; n <= maxn; ++n) for (unsigned m = 0; m < (1u << n); ++m) {
    if (!mc::next()) continue;
    std::vector<T> src; for (int i = 0; i < n; ++i) src.push_back(make<T>(i));
    C c(src.begin(), src.end()); std::vector<const void *> exp; std::vector<int> sel; { int i = 0; for (auto &x : c) { if (m >> i & 1) exp.push_back(&x), sel.push_back(i); ++i; } }
    Pred p{m, n}; auto lam = [m, n](const T &x) { return Pred{m, n}(x); }; std::function<bool(const T &)> fn = lam; gmask = m;
    auto all = [&](const char *what, auto mk) { auto b = mk(c.begin(), c.end()); auto e = mk(c.end(), c.end());
      if (!walk(what, m, n, b, e, exp)) return;
      MC_CHECK(b.end() == c.end() && e.end() == c.end() && e.begin() == c.end(), "%s: the end of the range is kept", what);
      MC_CHECK(sel.empty() ? b.begin() == c.end() : &*b.begin() == (T *)exp[0], "%s: the position is that of the first selected element", what);
      if ((size_t)std::distance(b, e) != exp.size()) mc::fail(std::string(what) + ": std::distance");
      std::vector<int> got; for (auto i = b; i != e;) { auto old = i++; if (i == old || !(i != old)) mc::fail("an iterator equals its successor"); got.push_back(val(*old)); if (got.size() > exp.size()) { mc::fail(mc::fmt("%s: post-increment visits too much", what)); return; } } MC_CHECK(got == sel, "%s: post-increment visits %s, expected %s", what, S(got).c_str(), S(sel).c_str());
      std::vector<T> cp; std::copy(b, e, std::back_inserter(cp)); got.clear(); for (auto &x : cp) got.push_back(val(x)); MC_CHECK(got == sel, "%s: copying the filtered range gives %s, expected %s", what, S(got).c_str(), S(sel).c_str());
      std::vector<T> ct(b, e); MC_CHECK(ct == cp && ct.size() == sel.size(), "%s: constructing a container from the filtered range", what);
      int sum = 0; for (auto i = b; i != e; ++i) { sum += val(*i); auto *q = i.operator->(); MC_CHECK((const void *)q == (const void *)&*i, "%s: -> and * differ", what); if constexpr (std::is_same<T, E>::value) { MC_CHECK(i->v == (*i).v, "->"); } } MC_CHECK(sum == std::accumulate(sel.begin(), sel.end(), 0), "%s: sum", what);
      // every position: copies continue independently, comparison with every other position, predicate kept
      std::vector<decltype(b)> pos; for (auto i = b; i != e; ++i) pos.push_back(i); pos.push_back(e);
      for (size_t i = 0; i < pos.size(); ++i) { auto cpy(pos[i]); walk(what, m, n, cpy, e, exp, i); for (size_t j = 0; j < pos.size(); ++j) MC_CHECK((pos[i] == pos[j]) == (i == j) && (pos[i] != pos[j]) == (i != j), "%s: positions %zu and %zu compare wrongly", what, i, j); auto mv(std::move(cpy)); walk(what, m, n, mv, e, exp, i); auto pr = pos[i].predicate(); int k = 0; for (auto &x : c) { MC_CHECK(bool(pr(x)) == bool(m >> k & 1), "%s: predicate() is not the predicate given", what); ++k; } }
      auto pre = b; if (pre != e) { auto &r = ++pre; MC_CHECK(&r == &pre, "%s: ++ does not return the iterator", what); }
    };
    all("function object", [&](It f, It l) { return filter_iterator<Pred, It>(p, f, l); });
    all("function object on const elements", [&](CI f, CI l) { return filter_iterator<Pred, CI>(p, f, l); });
    all("function pointer", [&](It f, It l) { return filter_iterator<bool (*)(const T &), It>(&fptr<T>, f, l); });
    all("std::function", [&](It f, It l) { return filter_iterator<std::function<bool(const T &)>, It>(fn, f, l); });
    all("make_filter_iterator with a lambda", [&](It f, It l) { return make_filter_iterator(f, l, lam); });
    all("make_filter_iterator with a temporary", [&](It f, It l) { return make_filter_iterator(It(f), It(l), Pred{m, n}); });
    { auto b = make_filter_iterator(c.begin(), c.end(), [m, n](const T &x) { return Pred{m, n}(x); }); std::vector<int> got; for (; b.begin() != b.end() && got.size() <= sel.size(); ++b) got.push_back(val(*b)); MC_CHECK(got == sel, "make_filter_iterator with a temporary lambda visits %s, expected %s", S(got).c_str(), S(sel).c_str()); }
    // one make_filter_iterator'd range must not follow later changes of the arguments
    { It f = c.begin(), l = c.end(); Pred q = p; auto b = make_filter_iterator(f, l, q); f = l; q.m = ~m; auto e = make_filter_iterator(l, l, Pred{m, n}); walk("arguments changed afterwards", m, n, b, e, exp); }
    // conversion to const iterators at every position
    { filter_iterator<Pred, It> i(p, c.begin(), c.end()), e(p, c.end(), c.end()); filter_iterator<Pred, CI> ce(e); for (size_t k = 0;; ++k, ++i) { filter_iterator<Pred, CI> ci(i); MC_CHECK(ci.end() == CI(c.end()) && ci.begin() == CI(i.begin()), "conversion to a const iterator keeps position and range"); if (!walk("converted iterator", m, n, ci, ce, exp, k)) break; if (i == e) break; } }
    // sub ranges
    { int a = 0; for (It f = c.begin();; ++f, ++a) { int z = a; for (It l = f;; ++l, ++z) { std::vector<const void *> ex; int q = 0; for (auto &x : c) { if (q >= a && q < z && (m >> q & 1)) ex.push_back(&x); ++q; } walk("sub range", m, n, filter_iterator<Pred, It>(p, f, l), filter_iterator<Pred, It>(p, l, l), ex); if (l == c.end()) break; } if (f == c.end()) break; } }
    // writing reaches exactly the selected elements
    { C w(c); auto e = make_filter_iterator(w.end(), w.end(), lam); int k = 0; for (auto i = make_filter_iterator(w.begin(), w.end(), lam); i != e && k <= n; ++i, ++k) set(*i, 100 + val(*i)); k = 0; for (auto &x : w) { MC_CHECK(val(x) == ((m >> k & 1) ? 100 + k : k), "element %d is %d after writing through the filtered range", k, val(x)); ++k; } }
    mc::distinct(mc::hash(nm) * 1000003 + m * 31 + n);
  }
}
// all operation sequences on two iterators with different ranges and predicates
using FI = filter_iterator<Pred, int *>;
void seqs(int depth, int maxn) {
  if (!mc::group(mc::fmt("sequences.%d", depth))) return;
  for (int n = 0; n <= maxn; ++n) for (unsigned m = 0; m < (1u << n); ++m) for (int n2 = 0; n2 <= maxn; ++n2) for (unsigned m2 = 0; m2 < (1u << n2); ++m2) {
    if (!mc::next()) continue;
    static int A[8] = {0, 1, 2, 3, 4, 5, 6, 7}, B[8] = {100, 101, 102, 103, 104, 105, 106, 107};
    struct M { int *base; unsigned m; int n, k; int adv(int q) const { while (q < n && !(m >> q & 1)) ++q; return q; } };
    auto same = [&](const FI &f, const M &x) { auto pr = f.predicate(); return f.begin() == x.base + x.k && f.end() == x.base + x.n && pr.m == x.m && pr.n == x.n && (x.k == x.n || &*f == x.base + x.k); };
    std::vector<int> ops(depth);
    std::function<void(int, FI, FI, M, M)> rec = [&](int d, FI a, FI b, M x, M y) {
      if (!same(a, x) || !same(b, y)) { std::string s; for (int i = 0; i < d; ++i) s += std::to_string(ops[i]) + " "; mc::fail(mc::fmt("after operations %s(0 ++a, 1 a++, 2 ++b, 3 b++, 4 swap, 5 a=b, 6 b=a, 7 a=move(copy of b), 8 a=a) on selections %x of %d and %x of %d: positions %ld, %ld, expected %d, %d", s.c_str(), m, n, m2, n2, (long)(a.begin() - x.base), (long)(b.begin() - y.base), x.k, y.k)); return; }
      if (d == depth) return;
      for (int o = 0; o < 9; ++o) { FI p(a), q(b); M u = x, v = y; ops[d] = o; mc::trans();
        switch (o) {
        case 0: if (x.k == x.n) continue; { auto &r = ++p; if (&r != &p) mc::fail("++ returns something else"); } u.k = u.adv(u.k + 1); break;
        case 1: if (x.k == x.n) continue; { FI old = p++; if (!same(old, x)) mc::fail("post-increment does not return the old position"); } u.k = u.adv(u.k + 1); break;
        case 2: if (y.k == y.n) continue; ++q; v.k = v.adv(v.k + 1); break;
        case 3: if (y.k == y.n) continue; q++; v.k = v.adv(v.k + 1); break;
        case 4: p.swap(q); std::swap(u, v); break;
        case 5: { auto &r = (p = q); if (&r != &p) mc::fail("assignment returns something else"); } u = v; break;
        case 6: q = p; v = u; break;
        case 7: { FI t(q); p = std::move(t); } u = v; break;
        case 8: { FI &r = p; p = r; p.swap(r); } break; }
        rec(d + 1, p, q, u, v); if (mc::S().case_viols) return; }
    };
    M x{A, m, n, 0}, y{B, m2, n2, 0}; x.k = x.adv(0); y.k = y.adv(0);
    rec(0, FI(Pred{m, n}, A, A + n), FI(Pred{m2, n2}, B, B + n2), x, y);
  }
}
void inputs(int maxn) {
  if (!mc::group("input")) return;
  for (int n = 0; n <= maxn; ++n) for (unsigned m = 0; m < (1u << n); ++m) {
    if (!mc::next()) continue;
    std::string t; std::vector<int> sel; for (int i = 0; i < n; ++i) { t += std::to_string(i) + " "; if (m >> i & 1) sel.push_back(i); }
    using I = std::istream_iterator<int>; for (int way = 0; way < 2; ++way) { std::istringstream in(t); Pred p{m, n};
      filter_iterator<Pred, I> b = way ? filter_iterator<Pred, I>(p, I(in)) : make_filter_iterator(I(in), I(), p), e(p, I()); std::vector<int> got; for (; b != e && got.size() <= sel.size(); ++b) got.push_back(*b); MC_CHECK(got == sel, "input iterator visits %s, expected %s", S(got).c_str(), S(sel).c_str()); }
    // nested filters: intersection of the selections
    std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); for (unsigned m2 = 0; m2 < (1u << n); ++m2) { auto in = [&](auto i) { return make_filter_iterator(i, v.end(), Pred{m, n}); }; auto b = make_filter_iterator(in(v.begin()), in(v.end()), Pred{m2, n}), e = make_filter_iterator(in(v.end()), in(v.end()), Pred{m2, n}); std::vector<int> got, ex; for (int x : sel) if (m2 >> x & 1) ex.push_back(x); for (; b != e && got.size() <= ex.size(); ++b) got.push_back(*b); MC_CHECK(got == ex, "nested filters visit %s, expected %s", S(got).c_str(), S(ex).c_str()); }
  }
}
// two iterators over the same elements that differ in where they stand, where they end and what they select: swapping and assigning exchange all of it
static void sharedRange(int maxn) { if (!mc::group("shared range")) return; using V = std::vector<int>; using FI = filter_iterator<Pred, V::iterator>;
  for (int n = 1; n <= maxn; ++n) for (unsigned m1 = 0; m1 < (1u << n); ++m1) for (unsigned m2 = 0; m2 < (1u << n); ++m2) for (int b1 = 0; b1 <= n; ++b1) for (int e1 = b1; e1 <= n; ++e1) for (int b2 = 0; b2 <= n; ++b2) for (int e2 = b2; e2 <= n; ++e2) { if (!mc::next()) continue;
    V c(n); std::iota(c.begin(), c.end(), 0); auto mk = [&](unsigned m, int b, int e) { return FI(Pred{m, n}, c.begin() + b, c.begin() + e); }; auto sel = [&](unsigned m, int b, int e) { std::vector<int> r; for (int i = b; i < e; ++i) if (m >> i & 1) r.push_back(i); return r; };
    auto run = [&](FI i) { std::vector<int> r; for (int k = 0; i.begin() != i.end() && k <= n; ++i, ++k) r.push_back(*i); return r; };
    for (int how = 0; how < 4; ++how) { FI p = mk(m1, b1, e1), q = mk(m2, b2, e2); auto wp = sel(m1, b1, e1), wq = sel(m2, b2, e2); int ep = e1, eq = e2; if (how == 0) { p.swap(q); std::swap(wp, wq); std::swap(ep, eq); } else if (how == 1) { p = q; wp = wq; ep = eq; } else if (how == 2) { std::swap(p, q); std::swap(wp, wq); std::swap(ep, eq); } else { q = std::move(p); p = mk(m1, b1, e1); wq = wp; eq = ep; } mc::trans(2);
      MC_CHECK(run(p) == wp && run(q) == wq && p.end() == c.begin() + ep && q.end() == c.begin() + eq, "after %s of iterators over [%d,%d) selecting %x and [%d,%d) selecting %x", how == 0 ? "swap" : how == 1 ? "assignment" : how == 2 ? "std::swap" : "move", b1, e1, m1, b2, e2, m2); }
    mc::distinct(mc::hash(mc::fmt("%d %x %x %d %d %d %d", n, m1, m2, b1, e1, b2, e2))); } }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); int n = t ? 10 : 8;
  if (mc::group("category") && mc::next()) { using C = std::iterator_traits<filter_iterator<Pred, int *>>; MC_CHECK((std::is_convertible<C::iterator_category, std::forward_iterator_tag>::value), "a filter over pointers is a forward iterator"); MC_CHECK((!std::is_convertible<C::iterator_category, std::bidirectional_iterator_tag>::value), "a filter iterator cannot go backwards and must not claim to"); MC_CHECK((std::is_same<C::reference, int &>::value && std::is_same<C::value_type, int>::value && std::is_same<C::pointer, int *>::value && std::is_same<C::difference_type, std::ptrdiff_t>::value), "iterator types");
    using I = std::iterator_traits<filter_iterator<Pred, std::istream_iterator<int>>>; MC_CHECK((!std::is_convertible<I::iterator_category, std::forward_iterator_tag>::value), "a filter over input iterators is an input iterator"); }
  cont<std::vector<int>>("vector<int>", n); cont<std::list<E>>("list<struct>", n - 1); cont<std::deque<std::string>>("deque<string>", n - 2); cont<std::forward_list<int>>("forward_list<int>", n - 1); cont<std::vector<E>>("vector<struct>", n - 2);
  seqs(t ? 6 : 5, 3); if (t) seqs(4, 4); inputs(t ? 7 : 6);
  sharedRange(mc::thorough() ? 5 : 3); mc::finish();
}
