// Array references, fixed-size strings and constant strings: all short sequences, all operation sequences.
#include "mc.h"
#include <array>
#include <cassert>
#include <cstring>
#include <list>
#include <stdexcept>
#include <string>
#include "ristra/utils/array_ref.h"
#include "ristra/utils/const_string.h"
#include "ristra/utils/trivial_string.h"
using namespace ristra::utils;
template <class T> T mk(int i) { return T(i); }
template <> std::string mk(int i) { return std::string(i % 2 ? 30 : 2, char('a' + i % 26)) + std::to_string(i); }
template <> char mk(int i) { return char("a\0\x80z\xff.x"[i % 7]); }
template <> wchar_t mk(int i) { return wchar_t(0x3b1 + i); }
template <> unsigned char mk(int i) { return (unsigned char)(250 + i); }
template <class T> struct AR {
  typedef array_ref<T> R;
  static bool look(const R &r, const T *base, size_t off, size_t len, bool valid, const std::string &h) {
    mc::trans();
    if (r.size() != len || r.empty() != (len == 0)) return mc::fail(h + mc::fmt(": size %zu, expected %zu", r.size(), len));
    if (valid && (r.data() != base + off || r.begin() != base + off || r.end() != base + off + len || r.cbegin() != r.begin() || r.cend() != r.end())) return mc::fail(h + ": data/begin/end");
    if (!valid && r.begin() != r.end()) return mc::fail(h + ": empty reference has elements");
    if (r.rend() - r.rbegin() != (long)len || r.crend() - r.crbegin() != (long)len) return mc::fail(h + ": reverse range");
    for (size_t i = 0; i < len; ++i) {
      if (&r[i] != base + off + i || &r.at(i) != base + off + i || &r.begin()[i] != base + off + i || &r.rbegin()[len - 1 - i] != base + off + i || &r.crbegin()[len - 1 - i] != base + off + i) return mc::fail(h + mc::fmt(": element %zu", i));
    }
    if (len && (&r.front() != base + off || &r.back() != base + off + len - 1)) return mc::fail(h + ": front/back");
    for (size_t i : {len, len + 1, len + 100, size_t(-1), size_t(1) << 31, size_t(1) << 32, size_t(1) << 63}) { bool t = false; try { (void)r.at(i); } catch (const std::out_of_range &) { t = true; } if (!t) return mc::fail(h + mc::fmt(": at(%zu) does not throw for size %zu", i, len)); }
    std::vector<T> e(base + off, base + off + len); if (!valid) e.clear();
    if (r.vec() != e || std::vector<T>(r) != e) return mc::fail(h + ": conversion to vector");
    if (r.max_size() < len) return mc::fail(h + ": max_size");
    return true;
  }
  static bool strs(const R &r, const T *base, size_t off, size_t len, const std::string &h) {
    if constexpr (std::is_same<T, char>::value || std::is_same<T, wchar_t>::value) {
      std::basic_string<T> e(base + off, base + off + len);
      if (r.str() != e || std::basic_string<T>(r) != e) return mc::fail(h + ": conversion to string");
    }
    return true;
  }
  static void run(const char *tn, int maxlen, int depth) {
    for (int n = 0; n <= maxlen; ++n) {
      if (!mc::group(mc::fmt("array_ref<%s>.n%d", tn, n))) continue;
      std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(mk<T>(i + 1));
      const std::vector<T> orig = v; const T *b = v.data();
      struct O { int k; size_t a, b; };
      std::function<void(std::vector<O>, R, size_t, size_t, bool, std::string)> rec = [&](std::vector<O> s, R r, size_t off, size_t len, bool valid, std::string h) {
        bool mine = mc::next();
        if (mine) { if (!look(r, b, off, len, valid, h)) return; if (valid) strs(r, b, off, len, h); R c(r), d; d = r; if (!look(c, b, off, len, valid, h + ", copied") || !look(d, b, off, len, valid, h + ", assigned")) return; mc::distinct(off * 100 + len + (valid ? 10000 : 0)); if (v != orig) mc::fail(h + ": elements changed"); mc::sample(h); }
        if ((int)s.size() == depth) return;
        std::vector<O> os;
        for (size_t p : {(size_t)0, (size_t)1, (size_t)2, len, len + 1, len + 7, size_t(-1)}) for (size_t q : {(size_t)0, (size_t)1, (size_t)2, len, len + 1, size_t(-2), size_t(-1)}) os.push_back({0, p, q});
        for (size_t p : {(size_t)0, (size_t)1, len, len + 1, size_t(-1)}) os.push_back({1, p, 0});
        for (size_t k = 0; k <= len; ++k) { os.push_back({2, k, 0}); os.push_back({3, k, 0}); }
        if (len) { os.push_back({4, 0, 0}); os.push_back({5, 0, 0}); }
        os.push_back({6, 0, 0});
        for (auto &o : os) {
          R x = r; size_t no = off, nl = len; bool nv = valid; std::string nh = h;
          switch (o.k) {
            case 0: { x = r.substr(o.a, o.b); size_t p = std::min(o.a, len); no = off + p; nl = std::min(o.b, len - p); nh += mc::fmt(" .substr(%zu,%zu)", o.a, o.b); break; }
            case 1: { x = r.substr(o.a); size_t p = std::min(o.a, len); no = off + p; nl = len - p; nh += mc::fmt(" .substr(%zu)", o.a); break; }
            case 2: x.remove_prefix(o.a); no += o.a; nl -= o.a; nh += mc::fmt(" .remove_prefix(%zu)", o.a); break;
            case 3: x.remove_suffix(o.a); nl -= o.a; nh += mc::fmt(" .remove_suffix(%zu)", o.a); break;
            case 4: x.pop_back(); nl--; nh += " .pop_back()"; break;
            case 5: x.pop_front(); no++; nl--; nh += " .pop_front()"; break;
            case 6: x.clear(); nl = 0; nv = false; nh += " .clear()"; break;
          }
          if (x.size() != nl) { if (mine || mc::S().only) mc::fail(nh + mc::fmt(": size %zu, expected %zu", x.size(), nl)); continue; }
          auto t = s; t.push_back(o); rec(t, x, no, nl, nv, nh);
        }
      };
      rec({}, R(b, n), 0, n, true, mc::fmt("%d elements:", n));
      rec({}, R(v), 0, n, true, mc::fmt("vector of %d:", n));
    }
    if (!mc::group(mc::fmt("array_ref<%s>.make", tn))) return;
    if (mc::next()) { look(R(), nullptr, 0, 0, false, "default"); }
    if (mc::next()) { T a[3] = {mk<T>(1), mk<T>(2), mk<T>(3)}; look(R(a), a, 0, 3, true, "built-in array"); look(make_array_ref(a), a, 0, 3, true, "make_array_ref(array)"); look(make_array_ref((const T *)a, std::size_t(2)), a, 0, 2, true, "make_array_ref(pointer)"); }
    if (mc::next()) { std::array<T, 4> a{mk<T>(1), mk<T>(2), mk<T>(3), mk<T>(4)}; look(R(a), a.data(), 0, 4, true, "std::array"); look(make_array_ref(a), a.data(), 0, 4, true, "make_array_ref(std::array)"); }
    if (mc::next()) { std::vector<T> a{mk<T>(1), mk<T>(2)}; look(make_array_ref(a), a.data(), 0, 2, true, "make_array_ref(vector)"); }
    if constexpr (std::is_same<T, char>::value || std::is_same<T, wchar_t>::value) if (mc::next()) { std::basic_string<T> a; for (int i = 0; i < 5; ++i) a.push_back(mk<T>(i)); look(R(a), a.data(), 0, 5, true, "std::string"); strs(R(a), a.data(), 0, 5, "std::string"); }
  }
};
template <std::size_t N> struct Guard { unsigned g0[4]; trivial_string<N> t; unsigned g1[4]; };
template <std::size_t N> void tstr(int extra) {
  if (!mc::group(mc::fmt("trivial_string<%zu>", N))) return;
  static const char AL[] = {'a', '\x80', ' '};
  static_assert(std::is_trivially_copyable<trivial_string<N>>::value, "trivially copyable");
  static_assert(trivial_string<N>::size() == N, "size");
  for (int len = 0; len <= (int)N + extra; ++len) {
    std::vector<int> radix(std::min(len, 5), 3);
    auto one = [&](const std::vector<int> &d) {
      if (!mc::next()) return;
      std::string s; for (int i = 0; i < len; ++i) s += AL[i < (int)d.size() ? d[i] : (i * 7 + i / 3) % 3];
      Guard<N> *g = (Guard<N> *)malloc(sizeof(Guard<N>)); memset(g, 0x5a, sizeof *g);
      std::string h = mc::fmt("text of length %d into %zu characters", len, N);
      bool threw = false;
      try { auto t = to_trivial_string<N>(s); memcpy(&g->t, &t, sizeof t); } catch (const std::exception &) { threw = true; }
      if (threw) { if (len < (int)N) mc::fail(h + ": rejected although it fits"); free(g); return; }
      for (unsigned x : g->g0) if (x != 0x5a5a5a5au) { mc::fail(h + ": wrote outside"); }
      trivial_string<N> &t = g->t; const trivial_string<N> &c = t;
      if (!memchr(c.data(), 0, N)) { mc::fail(h + ": no terminator inside the fixed-size string"); free(g); return; }
      if (len < (int)N) {
        MC_CHECK(t.str() == s, "%s: str() is \"%s\"", h.c_str(), t.str().c_str());
        MC_CHECK(!strcmp(c.c_str(), s.c_str()), "%s: c_str()", h.c_str());
        for (int i = 0; i < len; ++i) MC_CHECK(t[i] == s[i] && c[i] == s[i] && c.data()[i] == s[i] && t.data()[i] == s[i], "%s: character %d", h.c_str(), i);
        trivial_string<N> copy = c, asg; asg = c; MC_CHECK(copy.str() == s && asg.str() == s, "%s: copy", h.c_str());
        for (int i = 0; i < len; ++i) { copy[i] = 'Q'; std::string e = s; e[i] = 'Q'; MC_CHECK(copy.str() == e && c.str() == s, "%s: writing character %d", h.c_str(), i); copy[i] = s[i]; }
        mc::distinct(mc::hash(s));
      }
      free(g);
    };
    if (radix.empty()) one({}); else mc::product(radix, one);
  }
}
template <std::size_t N> void cstr(const char (&a)[N]) {
  if (!mc::next()) return;
  const_string s(a); const const_string k(a); size_t n = N - 1;
  MC_CHECK(s.size() == n && k.size() == n, "size of constant string of %zu: %zu", n, s.size());
  MC_CHECK(s.c_str() == a && k.c_str() == a, "c_str of constant string");
  for (size_t i = 0; i < n; ++i) MC_CHECK(s[i] == a[i] && k[i] == a[i], "character %zu", i);
  for (size_t i : {n, n + 1, n + 50, size_t(-1)}) { bool t = false; try { (void)s[i]; } catch (const std::out_of_range &) { t = true; } MC_CHECK(t, "character %zu of %zu does not throw", i, n); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv);
  int ml = mc::thorough() ? 5 : 4, d = mc::thorough() ? 3 : 2;
  AR<int>::run("int", ml, d); AR<char>::run("char", ml, d); AR<double>::run("double", 3, 2); AR<std::string>::run("string", 3, 2); AR<wchar_t>::run("wchar_t", 3, 2); AR<unsigned char>::run("uchar", 3, 1);
  tstr<1>(4); tstr<2>(4); tstr<3>(4); tstr<4>(4); tstr<7>(4); tstr<8>(12); tstr<16>(40); tstr<32>(4); tstr<255>(4);
  tstr<128>(4); tstr<129>(4); tstr<256>(4); tstr<257>(4); tstr<300>(4);
  if (mc::group("large")) for (int n : mc::widths(70000)) { if (!mc::next()) continue; std::vector<int> v(n); std::string s(n, 'a'); for (int i = 0; i < n; ++i) v[i] = i * 31, s[i] = char('a' + i % 23); array_ref<int> r(v); array_ref<char> q(s);
    MC_CHECK((int)r.size() == n && r.data() == v.data() && r.end() == v.data() + n && r.vec() == v && q.str() == s && (int)q.size() == n && r.back() == v.back() && &r[n - 1] == &v[n - 1] && &r.at(n - 1) == &v[n - 1], "reference to %d elements", n); bool th = false; try { r.at(n); } catch (const std::out_of_range &) { th = true; } MC_CHECK(th, "checked access to element %d of %d", n, n); MC_CHECK(r.max_size() >= r.size() && r.max_size() <= size_t(-1) / sizeof(int) && q.max_size() >= q.size(), "max_size");
    for (int p : {1, 100, 127, 128, 255, 256, 32768, 65535, 65536, n - 1, n}) if (p <= n) { auto a = r.substr(p), b = r.substr(0, p); MC_CHECK((int)a.size() == n - p && a.data() == v.data() + p && (int)b.size() == p && b.data() == v.data(), "sub-ranges of %d elements at %d", n, p); auto c = r, d = r; c.remove_prefix(p); d.remove_suffix(p); MC_CHECK(c.data() == v.data() + p && (int)c.size() == n - p && d.data() == v.data() && (int)d.size() == n - p, "removing %d of %d elements", p, n); }
    int k = 0; bool ok = true; for (auto &x : r) ok = ok && &x == &v[k++]; MC_CHECK(ok && k == n, "iteration over %d elements", n); k = n; for (auto i = r.rbegin(); i != r.rend(); ++i) ok = ok && &*i == &v[--k]; MC_CHECK(ok && k == 0, "reverse iteration over %d elements", n); }
  if (mc::group("const_string")) { cstr(""); cstr("a"); cstr("ab"); cstr("hello world"); cstr("with\0nul"); cstr("\x80\xff"); }
  { constexpr const_string k("abc"); static_assert(k.size() == 3 && k[0] == 'a' && k[2] == 'c', "usable in constant expressions");
    constexpr static const int a[] = {1, 2, 3, 4}; constexpr array_ref<int> r(a); static_assert(r.size() == 4 && r[2] == 3 && r.at(3) == 4 && r.substr(1, 2).size() == 2 && r.substr(1).front() == 2 && r.back() == 4, "usable in constant expressions"); }
  mc::finish();
}
