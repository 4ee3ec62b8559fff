// All operation sequences up to a depth on the real fixed_vector, against std::vector.
#include "mc.h"
#include <cstring>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include "ristra/utils/fixed_vector.h"
using ristra::utils::fixed_vector;
#ifndef TY
#define TY 0
#endif
// an element that owns memory; -1 marks moved-from
struct Owner {
  int *p; static long live;
  Owner() : p(new int(0)) { ++live; }
  Owner(int v) : p(new int(v)) { ++live; }
  Owner(int a, int b) : p(new int(a * 10 + b)) { ++live; }
  Owner(const Owner &o) : p(o.p ? new int(*o.p) : nullptr) { ++live; }
  Owner(Owner &&o) noexcept : p(o.p) { o.p = nullptr; ++live; }
  Owner &operator=(const Owner &o) { if (this != &o) { int *q = o.p ? new int(*o.p) : nullptr; delete p; p = q; } return *this; }
  Owner &operator=(Owner &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Owner() { delete p; --live; }
  int get() const { return p ? *p : -1; }
  bool operator==(const Owner &o) const { return get() == o.get(); }
};
long Owner::live = 0;
#if TY == 0
typedef int T; static T mk(int v) { return v; } static int gv(const T &t) { return t; }
#elif TY == 1
typedef Owner T; static T mk(int v) { return Owner(v); } static int gv(const T &t) { return t.get(); }
#elif TY == 2
typedef std::string T; static T mk(int v) { return std::string(v % 2 ? 40 : 3, 'a' + v % 20) + std::to_string(v); }
static int gv(const T &t) { if (t.empty()) return -1; return atoi(t.c_str() + t.find_first_of("0123456789")); }
#elif TY == 3
typedef char T; static T mk(int v) { return char(v); } static int gv(const T &t) { return t; }
#elif TY == 4
struct Trip { double a; short b; char c; bool operator==(const Trip &o) const { return a == o.a && b == o.b && c == o.c; } };
typedef Trip T; static T mk(int v) { return Trip{v * 1.5, short(v), char(v)}; } static int gv(const T &t) { return t.b; }
#endif
#ifndef CAP
#define CAP 4
#endif
typedef fixed_vector<T, CAP> V; typedef std::vector<T> M;
// guard words around the object: no operation may write outside the storage
struct Box { unsigned g0[4]; alignas(V) unsigned char raw[sizeof(V)]; unsigned g1[4]; };
enum K { PUSHC, PUSHM, EMPL, POP, INSC, INSM, INSN, INSR, INSL, INSIL, ERA1, ERAR, RES, RESV, ASN, ASR, ASIL, CLR, SWAP, CASG, MASG, SELF, ALINS, ALINSN, ALPUSH, ALASN, ALRES, WRITE, CCPY, MCPY };
struct Op { K k; int a = 0, b = 0, c = 0; };
static const char *KN[] = {"push_back(const&)", "push_back(&&)", "emplace_back", "pop_back", "insert(pos,const&)", "insert(pos,&&)", "insert(pos,count,v)", "insert(pos,array range)", "insert(pos,list range)", "insert(pos,{})", "erase(pos)", "erase(first,last)", "resize(n)", "resize(n,v)", "assign(n,v)", "assign(range)", "assign({})", "clear", "swap", "copy assignment", "move assignment", "self assignment", "insert(pos,v[i])", "insert(pos,n,v[i])", "push_back(v[i])", "assign(n,v[i])", "resize(n,v[i])", "write", "copy construction", "move construction"};
static std::string show(const Op &o) { return mc::fmt("%s[%d,%d,%d]", KN[o.k], o.a, o.b, o.c); }
// operations that stay within capacity for a vector of length n
static std::vector<Op> ops(int n) {
  std::vector<Op> r; int room = CAP - n;
  if (room) { r.push_back({PUSHC}); r.push_back({PUSHM}); r.push_back({EMPL}); for (int i = 0; i < n; ++i) r.push_back({ALPUSH, i}); }
  r.push_back({POP}); // does nothing when there is no element
  for (int p = 0; p <= n; ++p) {
    if (room) { r.push_back({INSC, p}); r.push_back({INSM, p}); for (int i = 0; i < n; ++i) r.push_back({ALINS, p, i}); }
    for (int c = 0; c <= room; ++c) { r.push_back({INSN, p, c}); r.push_back({INSR, p, c}); r.push_back({INSL, p, c}); if (c <= 2) r.push_back({INSIL, p, c}); for (int i = 0; i < n; ++i) r.push_back({ALINSN, p, c, i}); }
  }
  for (int p = 0; p < n; ++p) r.push_back({ERA1, p});
  for (int p = 0; p <= n; ++p) for (int q = p; q <= n; ++q) r.push_back({ERAR, p, q});
  for (int c = 0; c <= CAP; ++c) { r.push_back({RES, c}); r.push_back({RESV, c}); r.push_back({ASN, c}); r.push_back({ASR, c}); if (c <= 3) r.push_back({ASIL, c}); r.push_back({SWAP, c}); r.push_back({CASG, c}); r.push_back({MASG, c}); }
  for (int c = 0; c <= CAP; ++c) for (int i = 0; i < n; ++i) { r.push_back({ALASN, c, i}); if (c >= n) r.push_back({ALRES, c, i}); }
  r.push_back({CLR}); r.push_back({SELF}); r.push_back({CCPY}); r.push_back({MCPY});
  for (int i = 0; i < n; ++i) r.push_back({WRITE, i});
  return r;
}
struct Run {
  Box *bx; V *v; M m; int fresh = 1; std::string hist;
  T val() { return mk(fresh++); }
  bool bad(const std::string &s) { return mc::fail(hist + ": " + s); }
  bool build(int how, int n) {
    bx = (Box *)malloc(sizeof(Box)); memset(bx, 0xA5, sizeof(Box)); void *at = bx->raw;
    hist = mc::fmt("constructor %d, %d elements", how, n);
    std::vector<T> src; for (int i = 0; i < n; ++i) src.push_back(val());
    switch (how) {
      case 0: v = new (at) V(); for (auto &t : src) v->push_back(t); break;
      case 1: v = new (at) V(src.begin(), src.end()); break;
      case 2: { T x = val(); v = new (at) V(std::size_t(n), x); src.assign(n, x); break; }
      case 3: v = new (at) V(std::size_t(n)); for (int i = 0; i < n; ++i) (*v)[i] = src[i]; break;
      case 4: { if (n == 0) v = new (at) V(std::initializer_list<T>{}); else if (n == 1) v = new (at) V{src[0]}; else if (n == 2) v = new (at) V{src[0], src[1]}; else { T x = val(); v = new (at) V{src[0], src[1], x}; src = {src[0], src[1], x}; } break; }
      case 5: { V o(src.begin(), src.end()); v = new (at) V(o); break; }
      case 6: { V o(src.begin(), src.end()); v = new (at) V(std::move(o)); break; }
      case 7: { std::list<T> l(src.begin(), src.end()); v = new (at) V(l.begin(), l.end()); break; }
    }
    m.assign(src.begin(), src.end());
    return check();
  }
  bool check() {
    mc::trans();
    for (unsigned g : bx->g0) if (g != 0xA5A5A5A5u) return bad("wrote before the object");
    for (unsigned g : bx->g1) if (g != 0xA5A5A5A5u) return bad("wrote past the object");
    const V &c = *v; int n = (int)m.size();
    if ((int)c.size() != n || c.empty() != (n == 0)) return bad(mc::fmt("size %d empty %d, expected %d", (int)c.size(), (int)c.empty(), n));
    if (c.capacity() != CAP || c.max_size() != CAP) return bad("capacity");
    if (c.end() - c.begin() != n || v->end() - v->begin() != n || c.cend() - c.cbegin() != n) return bad("iterator range length");
    for (int i = 0; i < n; ++i) if (!(c[i] == m[i])) { std::string s = "elements"; for (int j = 0; j < n; ++j) s += mc::fmt(" %d", gv(c[j])); s += ", expected"; for (int j = 0; j < n; ++j) s += mc::fmt(" %d", gv(m[j])); return bad(s); }
    const char *lo = (const char *)bx->raw, *hi = lo + sizeof(V);
    for (int i = 0; i < n; ++i) {
      if (&c[i] != &(*v)[i] || &c.at(i) != &c[i] || &v->at(i) != &c[i] || &*(c.begin() + i) != &c[i] || &*(v->begin() + i) != &c[i] || &*(c.cbegin() + i) != &c[i] || c.data() + i != &c[i] || v->data() + i != &c[i]) return bad(mc::fmt("accessors of element %d disagree", i));
      if (&*(c.rbegin() + (n - 1 - i)) != &c[i] || &*(c.crbegin() + (n - 1 - i)) != &c[i] || &*(v->rbegin() + (n - 1 - i)) != &c[i]) return bad(mc::fmt("reverse iterator of element %d", i));
      if ((const char *)&c[i] < lo || (const char *)(&c[i] + 1) > hi) return bad("element outside the storage");
    }
    if (c.rend() - c.rbegin() != n || c.crend() - c.crbegin() != n || v->rend() - v->rbegin() != n) return bad("reverse range length");
    if (n) { if (&c.front() != &c[0] || &v->front() != &c[0] || &c.back() != &c[n - 1] || &v->back() != &c[n - 1]) return bad("front/back"); }
    return true;
  }
  bool throws_out_of_range() {
    for (size_t i : {m.size(), m.size() + 1, (size_t)CAP, (size_t)CAP + 1, std::numeric_limits<size_t>::max()}) if (i >= m.size()) {
      bool a = false, b = false; try { (void)v->at(i); } catch (const std::out_of_range &) { a = true; } try { (void)((const V *)v)->at(i); } catch (const std::out_of_range &) { b = true; }
      if (!a || !b) return bad(mc::fmt("at(%zu) does not throw", i));
    }
    return true;
  }
  bool compare() { // with every relevant neighbour: equal, each element changed, longer, shorter
    const V &c = *v; M base = m;
    auto cmp = [&](const M &o) { V w(o.begin(), o.end()); bool e = m == o; bool g1 = c == w, g2 = w == c; if (g1 != e || g2 != e) return bad(mc::fmt("comparison with a vector of %zu elements gives %d/%d, expected %d", o.size(), g1, g2, e)); return true; };
    if (!cmp(base)) return false;
    for (size_t i = 0; i < base.size(); ++i) { M o = base; o[i] = mk(60); if (!cmp(o)) return false; }
    for (size_t k = 0; k < base.size(); ++k) { M o(base.begin(), base.begin() + k); if (!cmp(o)) return false; }
    M o = base; while (o.size() < CAP) { o.push_back(mk(61)); if (!cmp(o)) return false; }
    return true;
  }
  bool pos(V::iterator it, M::iterator jt) { long g = it - v->begin(), e = jt - m.begin(); return g == e ? true : bad(mc::fmt("returned position %ld, expected %ld", g, e)); }
  bool apply(const Op &o) {
    hist += "; " + show(o); V &x = *v; bool ok = true;
    auto many = [&](int n) { std::vector<T> s; for (int i = 0; i < n; ++i) s.push_back(val()); return s; };
    switch (o.k) {
      case PUSHC: { T t = val(); x.push_back(t); m.push_back(t); if (!(t == m.back())) return bad("argument changed"); break; }
      case PUSHM: { T t = val(), u = t; x.push_back(std::move(t)); m.push_back(u); break; }
      case EMPL: {
#if TY == 1
        x.emplace_back(fresh, 3); m.emplace_back(fresh, 3); ++fresh; break;
#else
        T t = val(); x.emplace_back(t); m.emplace_back(t); break;
#endif
      }
      case POP: x.pop_back(); if (!m.empty()) m.pop_back(); break;
      case INSC: { T t = val(); ok = pos(x.insert(x.cbegin() + o.a, t), m.insert(m.cbegin() + o.a, t)); break; }
      case INSM: { T t = val(), u = t; ok = pos(x.insert(x.cbegin() + o.a, std::move(t)), m.insert(m.cbegin() + o.a, u)); break; }
      case INSN: { T t = val(); ok = pos(x.insert(x.cbegin() + o.a, std::size_t(o.b), t), m.insert(m.cbegin() + o.a, o.b, t)); break; }
      case INSR: { auto s = many(o.b); ok = pos(x.insert(x.cbegin() + o.a, s.begin(), s.end()), m.insert(m.cbegin() + o.a, s.begin(), s.end())); break; }
      case INSL: { auto s = many(o.b); std::list<T> l(s.begin(), s.end()); ok = pos(x.insert(x.cbegin() + o.a, l.begin(), l.end()), m.insert(m.cbegin() + o.a, l.begin(), l.end())); break; }
      case INSIL: { T t = val(), u = val(); std::initializer_list<T> e0{}, e1{t}, e2{t, u}; auto &l = o.b == 0 ? e0 : o.b == 1 ? e1 : e2; ok = pos(x.insert(x.cbegin() + o.a, l), m.insert(m.cbegin() + o.a, l)); break; }
      case ERA1: ok = pos(x.erase(x.cbegin() + o.a), m.erase(m.cbegin() + o.a)); break;
      case ERAR: ok = pos(x.erase(x.cbegin() + o.a, x.cbegin() + o.b), m.erase(m.cbegin() + o.a, m.cbegin() + o.b)); break;
      case RES: { size_t was = m.size(); x.resize(o.a); m.resize(o.a, mk(0)); if (x.size() != m.size()) return bad("size"); for (size_t i = was; i < m.size(); ++i) { T t = val(); x[i] = t; m[i] = t; } break; } // values of added elements are unspecified
      case RESV: { T t = val(); x.resize(o.a, t); m.resize(o.a, t); break; }
      case ASN: { T t = val(); x.assign(std::size_t(o.a), t); m.assign(o.a, t); break; }
      case ASR: { auto s = many(o.a); x.assign(s.begin(), s.end()); m.assign(s.begin(), s.end()); break; }
      case ASIL: { T a = val(), b = val(), c = val(); std::initializer_list<T> e0{}, e1{a}, e2{a, b}, e3{a, b, c}; auto &l = o.a == 0 ? e0 : o.a == 1 ? e1 : o.a == 2 ? e2 : e3; x.assign(l); m.assign(l); break; }
      case CLR: x.clear(); m.clear(); break;
      case SWAP: { auto s = many(o.a); V w(s.begin(), s.end()); M old = m; x.swap(w); m = M(s.begin(), s.end()); if (w.size() != old.size()) return bad("swapped partner's size"); for (size_t i = 0; i < old.size(); ++i) if (!(w[i] == old[i])) return bad("swapped partner's elements"); break; }
      case CASG: { auto s = many(o.a); const V w(s.begin(), s.end()); V &r = (x = w); if (&r != &x) return bad("assignment result"); m = M(s.begin(), s.end()); if (w.size() != s.size()) return bad("source changed"); for (size_t i = 0; i < s.size(); ++i) if (!(w[i] == s[i])) return bad("source changed"); break; }
      case MASG: { auto s = many(o.a); V w(s.begin(), s.end()); x = std::move(w); m = M(s.begin(), s.end()); break; }
      case SELF: { V &r = x; x = r; break; }
      case ALINS: ok = pos(x.insert(x.cbegin() + o.a, x[o.b]), m.insert(m.cbegin() + o.a, T(m[o.b]))); break;
      case ALINSN: { T t = m[o.c]; ok = pos(x.insert(x.cbegin() + o.a, std::size_t(o.b), x[o.c]), m.insert(m.cbegin() + o.a, o.b, t)); break; }
      case ALPUSH: { T t = m[o.a]; x.push_back(x[o.a]); m.push_back(t); break; }
      case ALASN: { T t = m[o.b]; x.assign(std::size_t(o.a), x[o.b]); m.assign(o.a, t); break; }
      case ALRES: { T t = m[o.b]; x.resize(o.a, x[o.b]); m.resize(o.a, t); break; }
      case WRITE: { T t = val(); x[o.a] = t; m[o.a] = t; break; }
      case CCPY: { const V w(x); V u(w); if (!check()) return false; x.clear(); x = u; break; }
      case MCPY: { V w(std::move(x)); x = std::move(w); break; }
    }
    return ok && check();
  }
  void done() { v->~V(); free(bx); }
};
static void explore(int how, int n, int depth, std::vector<int> &lens, std::vector<Op> &seq) {
  // run the sequence; children are enumerated on the model's length only
  if ((int)seq.size() == depth || depth == 0) {
    if (!mc::next()) return;
    long l0 = Owner::live; (void)l0;
    { Run r; bool ok = r.build(how, n); for (auto &o : seq) ok = ok && r.apply(o);
      if (ok) { uint64_t h = 7; for (auto &t : r.m) h = h * 131 + gv(t); mc::distinct(h); if (seq.size() > 1 || r.throws_out_of_range()) r.compare(); mc::sample(r.hist); }
      r.done(); }
    if (Owner::live != l0) mc::fail("element objects leaked or destroyed twice");
    return;
  }
  int len = lens.back();
  for (auto &o : ops(len)) {
    int nl = len;
    switch (o.k) { case PUSHC: case PUSHM: case EMPL: case ALPUSH: case INSC: case INSM: case ALINS: nl++; break; case POP: if (nl) nl--; break; case ERA1: nl--; break;
      case INSN: case INSR: case INSL: case INSIL: case ALINSN: nl += o.b; break; case ERAR: nl -= o.b - o.a; break;
      case RES: case RESV: case ASN: case ASR: case ASIL: case SWAP: case CASG: case MASG: case ALASN: case ALRES: nl = o.a; break; case CLR: nl = 0; break; default: break; }
    lens.push_back(nl); seq.push_back(o); explore(how, n, depth, lens, seq); seq.pop_back(); lens.pop_back();
  }
}
#if TY == 1
static void move_only() { // element types that can only be moved
  if (!mc::group("moveonly")) return;
  typedef std::unique_ptr<int> U; typedef fixed_vector<U, CAP> W;
  // sequences of {append, emplace, insert at p, erase at p, erase range} of depth 4
  int depth = mc::thorough() ? 6 : 5;
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> seq) {
    W w; std::vector<U> m; int fresh = 1; bool legal = true;
    bool mine = mc::next();
    std::string h;
    for (int c : seq) {
      int n = (int)m.size();
      if (c == 0 || c == 1) { if (n == CAP) { legal = false; break; } if (c == 0) { w.push_back(U(new int(fresh))); } else w.emplace_back(new int(fresh)); m.push_back(U(new int(fresh))); ++fresh; }
      else if (c < 2 + CAP + 1) { int p = c - 2; if (n == CAP || p > n) { legal = false; break; } w.insert(w.begin() + p, U(new int(fresh))); m.insert(m.begin() + p, U(new int(fresh))); ++fresh; }
      else { int p = c - 3 - CAP; if (p >= n) { legal = false; break; } w.erase(w.begin() + p); m.erase(m.begin() + p); }
      h += " " + std::to_string(c);
    }
    if (!legal) return;
    if (mine) { bool ok = w.size() == m.size(); for (size_t i = 0; ok && i < m.size(); ++i) ok = w[i] && *w[i] == *m[i]; if (!ok) mc::fail("move-only elements after operations" + h); }
    if ((int)seq.size() < depth) for (int c = 0; c < 3 + 2 * CAP; ++c) { auto s = seq; s.push_back(c); rec(s); }
  };
  rec({});
}
#endif
#if TY == 0
static void construct() { // construction in place means what construction from those arguments means
  if (!mc::group("construct")) return;
  for (int n = 0; n <= 4; ++n) for (int pos = 0; pos < 3; ++pos) { if (!mc::next()) continue;
    fixed_vector<std::string, CAP> s; fixed_vector<std::vector<int>, CAP> v; std::vector<std::string> ms; std::vector<std::vector<int>> mv; for (int i = 0; i < pos && i + 1 < CAP; ++i) { s.emplace_back("x"); ms.emplace_back("x"); v.emplace_back(i, 3); mv.emplace_back(i, 3); }
    s.emplace_back(n + 60, 'a'); ms.emplace_back(n + 60, 'a'); v.emplace_back(n, 7); mv.emplace_back(n, 7);
    MC_CHECK(std::equal(s.begin(), s.end(), ms.begin(), ms.end()) && std::equal(v.begin(), v.end(), mv.begin(), mv.end()), "element constructed from (%d, value) at %d", n, pos); mc::distinct(mc::hash(mc::fmt("c%d %d", n, pos))); }
}
template <int N> void bigcap() { // capacities around the limits of the internal counter types
  if (!mc::group(mc::fmt("cap%d", N))) return;
  typedef fixed_vector<int, N> W; std::set<int> ns{0, 1, N / 2, N - 1, N};
  for (int a : ns) for (int b : ns) if (a >= 0 && b >= 0) for (int op = 0; op < 12; ++op) {
    if (!mc::next()) continue;
    auto w = std::make_unique<W>(); std::vector<int> m; for (int i = 0; i < a; ++i) { w->push_back(i); m.push_back(i); }
    if (op == 0) { w->resize(b, 77); m.resize(b, 77); } else if (op == 1) { w->assign(std::size_t(b), 78); m.assign(b, 78); }
    else if (op == 2) { int k = std::min(N - a, b); w->insert(w->begin() + a / 2, std::size_t(k), 79); m.insert(m.begin() + a / 2, k, 79); }
    else if (op == 3) { int k = std::min(a, b); w->erase(w->begin() + (a - k) / 2, w->begin() + (a - k) / 2 + k); m.erase(m.begin() + (a - k) / 2, m.begin() + (a - k) / 2 + k); }
    else if (op == 4) { while (w->size() < (size_t)N) w->push_back(5); m.resize(N, 5); }
    else { auto o = std::make_unique<W>(); std::vector<int> mo; for (int i = 0; i < b; ++i) { o->emplace_back(2 * i - 9); mo.push_back(2 * i - 9); }
      auto same = [](const W &x, const std::vector<int> &y) { return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), y.end()) && std::equal(x.rbegin(), x.rend(), y.rbegin(), y.rend()) && x.empty() == y.empty() && (y.empty() || (x.front() == y.front() && x.back() == y.back())); };
      bool ok = true;
      if (op == 5) { auto c = std::make_unique<W>(*w); ok = same(*c, m); *c = *o; ok = ok && same(*c, mo); *o = std::move(*w); ok = ok && same(*o, m); *w = *o; }
      else if (op == 6) { w->swap(*o); m.swap(mo); ok = same(*o, mo); }
      else if (op == 7) { int k = std::min(N - a, b); w->insert(w->begin() + a / 3, mo.begin(), mo.begin() + k); m.insert(m.begin() + a / 3, mo.begin(), mo.begin() + k); }
      else if (op == 8) { w->assign(mo.begin(), mo.end()); m = mo; }
      else if (op == 9) { auto c = std::make_unique<W>(mo.begin(), mo.end()); ok = same(*c, mo) && (*c == *w) == (mo == m) && (*c == *o); if (b) { (*c)[b - 1] ^= 1; ok = ok && !(*c == *o); } }
      else if (op == 10) { if (a) { w->erase(w->begin() + a / 2); m.erase(m.begin() + a / 2); } if (a < N || a) { w->insert(w->begin() + b % (m.size() + 1), 1234); m.insert(m.begin() + b % (m.size() + 1), 1234); } for (int i = 0; i < 2 && !m.empty(); ++i) { w->pop_back(); m.pop_back(); } }
      else { w->clear(); m.clear(); for (int i = 0; i < b; ++i) { w->emplace_back(i); m.push_back(i); } for (long i : {-1l, (long)b, b + 1l, (long)N, N + 1l, 1l << 31, 1l << 32, 1l << 62}) { bool th = false; try { w->at(std::size_t(i)); } catch (std::out_of_range &) { th = true; } ok = ok && th; th = false; try { const W &k = *w; k.at(std::size_t(i)); } catch (std::out_of_range &) { th = true; } ok = ok && (th || (i >= 0 && i < b)); } }
      if (!ok || !same(*w, m)) mc::fail(mc::fmt("capacity %d, %d and %d elements, operation %d: wrong result", N, a, b, op)); mc::distinct(mc::hash(mc::fmt("%d %d %d %d", N, a, b, op))); }
    bool ok = w->size() == m.size(); for (size_t i = 0; ok && i < m.size(); ++i) ok = (*w)[i] == m[i] && w->at(i) == m[i];
    if (!ok) mc::fail(mc::fmt("capacity %d, %d elements, operation %d to/with %d: wrong elements", N, a, op, b));
  }
}
#endif
int main(int argc, char **argv) {
  mc::init(argc, argv);
#if TY == 0
  construct(); bigcap<1>(); bigcap<2>(); bigcap<127>(); bigcap<128>(); bigcap<255>(); bigcap<256>(); bigcap<257>(); bigcap<300>(); bigcap<65535>(); bigcap<65536>(); bigcap<65537>();
#endif
  int depth = mc::thorough() ? 3 : (CAP <= 2 ? 3 : 2);
#ifdef DEPTH_T
  depth = DEPTH_T;
#endif
  for (int how = 0; how < 8; ++how) for (int n = 0; n <= CAP && (how != 4 || n <= 3); ++n)
    for (int d = 0; d <= (how < 2 ? depth : how < 4 ? 2 : 1); ++d) {
      if (!mc::group(mc::fmt("T%d.N%d.c%d.n%d.d%d", TY, CAP, how, n, d))) continue;
      std::vector<int> lens{n}; std::vector<Op> seq; explore(how, n, d, lens, seq);
    }
#if TY == 1
  move_only();
#endif
  mc::finish();
}
