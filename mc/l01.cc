// L01: every value crosses the Lua boundary unchanged or is rejected.
#include "mc.h"
#include <array>
#include <cmath>
#include <climits>
#include <iostream>
#include <limits>
#include <list>
#include <deque>
#include <optional>
#include <string>
#include "ristra/embedded/embed_lua.h"
#include "ristra/math/vector.h"
#include "ristra/math/matrix.h"
using std::string; using namespace ristra::embedded; using LL = long long; using ULL = unsigned long long;
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
static string show(const string &s) { string r; for (unsigned char c : s) r += c < 32 || c > 126 ? mc::fmt("\\x%02x", c) : string(1, c); return r; }
static lua_t &S() { static lua_t s; return s; }
static bool balanced() { return lua_gettop(S().state()) == 0; }
// a Lua value as the oracle sees it
struct Val { string lit; enum K { I, F, Str, B, Nil, Tab, Fun } k; LL i = 0; double d = 0; string s; std::optional<LL> ni; std::optional<double> nd; }; // ni/nd: value of a numeral string
static std::vector<Val> values() {
  std::vector<Val> v;
  for (LL i : {0ll, 1ll, -1ll, 2ll, 7ll, 100ll, 127ll, 128ll, -128ll, -129ll, 255ll, 256ll, 32767ll, 32768ll, -32768ll, -32769ll, 65535ll, 65536ll, (LL)INT_MAX, (LL)INT_MAX + 1, (LL)INT_MIN, (LL)INT_MIN - 1, (LL)UINT_MAX, (LL)UINT_MAX + 1, (1ll << 53), (1ll << 53) + 1, -(1ll << 53) - 1, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1}) { Val x; x.k = Val::I; x.i = i; x.lit = i == LLONG_MIN ? "math.mininteger" : std::to_string(i); v.push_back(x); }
  for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 0.1, 127.0, 128.0, -129.0, 255.5, 256.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 1e19, 1e300, -1e300, 1e-300, 5e-324, (double)INFINITY, -(double)INFINITY, (double)NAN}) { Val x; x.k = Val::F; x.d = d; x.lit = std::isnan(d) ? "(0/0)" : std::isinf(d) ? (d > 0 ? "(1/0)" : "(-1/0)") : mc::fmt("%a", d) + (mc::fmt("%a", d).find('p') == string::npos ? ".0" : ""); v.push_back(x); }
  auto str = [&](const string &s, std::optional<LL> ni = {}, std::optional<double> nd = {}) { Val x; x.k = Val::Str; x.s = s; x.ni = ni; x.nd = nd ? nd : ni ? std::optional<double>((double)*ni) : nd; x.lit = "\""; for (unsigned char c : s) x.lit += mc::fmt("\\x%02x", c); x.lit += "\""; v.push_back(x); };
  str("10", 10); str("-3", -3); str(" 7 ", 7); str("0x10", 16); str("1.5", {}, 1.5); str("2.0", 2, 2.0); str("1e2", 100, 100.0); str("300", 300); str("abc"); str(""); str("1 2"); str("10x"); str("true"); str(string("a\0b", 3)); str(string("1\0", 2)); str("\xff\xfe"); str("nan"); str("inf");
  for (int b = 0; b < 2; ++b) { Val x; x.k = Val::B; x.i = b; x.lit = b ? "true" : "false"; v.push_back(x); }
  { Val x; x.k = Val::Nil; x.lit = "nil"; v.push_back(x); x.k = Val::Tab; x.lit = "{}"; v.push_back(x); x.lit = "{1,2}"; v.push_back(x); x.k = Val::Fun; x.lit = "function() return 1 end"; v.push_back(x); }
  return v;
}
static std::optional<LL> integerOf(const Val &v) { auto fl = [](double d) -> std::optional<LL> { if (std::isfinite(d) && d == std::floor(d) && d >= -9223372036854775808.0 && d < 9223372036854775808.0) return (LL)d; return {}; };
  if (v.k == Val::I) return v.i; if (v.k == Val::F) return fl(v.d); if (v.k == Val::Str) { if (v.ni) return v.ni; if (v.nd) return fl(*v.nd); } return {}; }
static std::optional<double> realOf(const Val &v) { if (v.k == Val::I) return (double)v.i; if (v.k == Val::F) return v.d; if (v.k == Val::Str) return v.nd; return {}; }
template <class T> static std::optional<T> want(const Val &v) { // what the type must receive, or nothing (rejected)
  if constexpr (std::is_same_v<T, bool>) { if (v.k == Val::B) return v.i != 0; return {}; }
  else if constexpr (std::is_same_v<T, string>) { if (v.k == Val::Str) return v.s; return {}; }
  else if constexpr (std::is_integral_v<T>) { auto i = integerOf(v); if (!i) return {}; if (std::is_unsigned_v<T>) { if (*i < 0 || (ULL)*i > (ULL)std::numeric_limits<T>::max()) return {}; } else if (*i < (LL)std::numeric_limits<T>::min() || *i > (LL)std::numeric_limits<T>::max()) return {}; return (T)*i; }
  else { auto d = realOf(v); if (!d) return {}; return (T)*d; } }
template <class T> static bool eq(const T &a, const T &b) { if constexpr (std::is_floating_point_v<T>) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
template <class T> static void scalar(const char *tn) {
  if (!mc::group(string("scalar.") + tn)) return; auto vs = values();
  for (auto &v : vs) for (int way = 0; way < 6; ++way) { if (!mc::next()) continue; // ways: global, table entry, array element, function result, one of several results, element of a vector
    if (std::is_same_v<T, float> && v.k != Val::Str) { auto d = realOf(v); if (d && std::isfinite(*d) && std::abs(*d) > 1e38) continue; } // overflow of float is not specified
    auto w = want<T>(v); bool anynum = std::is_same_v<T, string> && (v.k == Val::I || v.k == Val::F); // numbers may be read as text: compared with Lua's own conversion
    S().run_string("x = " + v.lit + "  t = {k = " + v.lit + ", " + v.lit + "}  function f() return x end  function g() return 3, x, 5 end  n = tostring(x)"); if (v.k == Val::Nil && (way == 3 || way == 2)) continue;
    std::optional<T> got; try { switch (way) { case 0: got = S()["x"].as<T>(); break; case 1: got = S()["t"]["k"].as<T>(); break; case 2: got = S()["t"][1].as<T>(); break; case 3: got = S()["f"]().as<T>(); break; case 4: { auto r = S()["g"]().as<int, T, int>(); if (std::get<0>(r) != 3 || std::get<2>(r) != 5) { mc::fail("results around the value changed"); continue; } got = std::get<1>(r); break; } case 5: { if (v.k == Val::Nil) continue; auto r = S()["t"].as<std::vector<T>>(); MC_CHECK(r.size() == 1, "size of a table with one element is %zu", r.size()); if (r.size() == 1) got = r[0]; break; } } } catch (std::exception &) {}
    if (anynum) { string n = S()["n"].as<string>(); MC_CHECK(got && eq<T>(*got, *want<T>(Val{"", Val::Str, 0, 0, n})), "number %s as text", v.lit.c_str()); }
    else if (w) MC_CHECK(got && eq<T>(*got, *w), "%s read as %s (way %d) %s", v.lit.c_str(), tn, way, got ? "gives another value" : "was rejected");
    else MC_CHECK(!got, "%s read as %s (way %d) was not rejected", v.lit.c_str(), tn, way);
    MC_CHECK(balanced(), "stack height %d after reading %s as %s", lua_gettop(S().state()), v.lit.c_str(), tn);
    if (way == 0) { T def = w ? T() : T(); std::optional<T> g2; try { g2 = S()["x"].as<T>(def); } catch (std::exception &) {} if (v.k == Val::Nil) MC_CHECK(g2 && *g2 == def, "default for a missing value"); else MC_CHECK(bool(g2) == bool(got) && (!g2 || eq<T>(*g2, *got)), "reading %s with a default differs", v.lit.c_str()); }
    mc::distinct(mc::hash(v.lit + tn + (got ? "y" : "n"))); }
}
static const char *DESC = R"(
function one(v) local t = math.type(v)
  if t == 'integer' then return 'i' .. string.format('%d', v) elseif t == 'float' then if v ~= v then return 'fnan' end return 'f' .. string.format('%a', v)
  elseif type(v) == 'string' then local r = 's' for i = 1, #v do r = r .. string.format('%02x', v:byte(i)) end return r
  elseif type(v) == 'boolean' then return 'b' .. tostring(v) else return type(v) end end
function desc(...) local r = select('#', ...) .. ':' for i = 1, select('#', ...) do r = r .. one((select(i, ...))) .. ';' end return r end
function id(...) return ... end
)";
static string hex(const string &s) { string r = "s"; for (unsigned char c : s) r += mc::fmt("%02x", c); return r; }
template <class T> static string dsc(const T &v) { if constexpr (std::is_same_v<T, bool>) return v ? "btrue" : "bfalse"; else if constexpr (std::is_same_v<T, string>) return hex(v); else if constexpr (std::is_integral_v<T>) return "i" + std::to_string(v); else return std::isnan(v) ? "fnan" : mc::fmt("f%a", (double)v); }
template <class T> static void push(const char *tn, std::vector<T> vs) {
  if (!mc::group(string("push.") + tn)) return; S().run_string(DESC);
  for (const T v : vs) { if (!mc::next()) continue; string got; try { got = S()["desc"](v).template as<string>(); } catch (std::exception &) { got = "error"; } MC_CHECK(got == "1:" + dsc(v) + ";", "pushing %s arrives as %s", dsc(v).c_str(), got.c_str());
    std::optional<T> back; try { back = S()["id"](v).template as<T>(); } catch (std::exception &) {} MC_CHECK(back && eq<T>(*back, v), "round trip of %s", dsc(v).c_str()); MC_CHECK(balanced(), "stack after pushing"); mc::distinct(mc::hash(got)); }
}
static void words(const string &al, int n, std::vector<string> &out) { std::vector<string> cur{""}; out = cur; for (int l = 0; l < n; ++l) { std::vector<string> nx; for (auto &w : cur) for (char c : al) nx.push_back(w + c); out.insert(out.end(), nx.begin(), nx.end()); cur = nx; } }
// arrays: all shapes
template <class C> static void vec(const char *nm, int kind) { // kind 0 vector<int>, 1 vector<string>
}
template <class V> static std::vector<V> seqOf(const std::vector<V> &v) { return v; }
static void tables(bool t) {
  if (mc::group("vector")) for (int n = 0; n <= (t ? 6 : 5); ++n) mc::product(std::vector<int>(n, 5), [&](const std::vector<int> &d) { if (!mc::next()) return; // elements: 1, -2, 2.5, "x", {}
    const char *el[] = {"1", "-2", "2.5", "'x'", "{}"}; string s = "v = {"; bool ints = true, reals = true, strs = true; std::vector<int> wi; std::vector<double> wd; std::vector<string> wsv; for (int k : d) { s += string(el[k]) + ","; ints &= k < 2; reals &= k < 3; strs &= k < 4; wi.push_back(k == 0 ? 1 : -2); wd.push_back(k == 0 ? 1 : k == 1 ? -2 : 2.5); wsv.push_back(k == 3 ? "x" : el[k]); } S().run_string(s + "}");
    auto chk = [&](auto tag, bool ok, auto want, const char *n2) { using C = decltype(tag); std::optional<C> g; try { g = S()["v"].as<C>(); } catch (std::exception &) {} MC_CHECK(bool(g) == ok, "%s} read as %s was %s", s.c_str(), n2, g ? "accepted" : "rejected"); if (g && ok) MC_CHECK(g->size() == want.size() && std::equal(g->begin(), g->end(), want.begin()), "%s} read as %s", s.c_str(), n2); MC_CHECK(balanced(), "stack after %s} as %s", s.c_str(), n2); };
    chk(std::vector<int>(), ints, wi, "vector<int>"); chk(std::vector<double>(), reals, wd, "vector<double>"); chk(std::vector<string>(), strs, wsv, "vector<string>");
    auto arr = [&](auto tag, bool ok, auto want, const char *n2) { using C = decltype(tag); std::optional<C> g; try { g = S()["v"].as<C>(); } catch (std::exception &) {} MC_CHECK(bool(g) == ok, "%s} read as %s was %s", s.c_str(), n2, g ? "accepted" : "rejected"); if (g && ok) for (size_t i = 0; i < want.size(); ++i) MC_CHECK((*g)[i] == want[i], "%s} read as %s", s.c_str(), n2); MC_CHECK(balanced(), "stack after %s} as %s", s.c_str(), n2); };
    arr(std::array<int, 1>(), ints && n == 1, wi, "array<int,1>"); arr(std::array<int, 2>(), ints && n == 2, wi, "array<int,2>"); arr(std::array<int, 3>(), ints && n == 3, wi, "array<int,3>"); arr(std::array<double, 3>(), reals && n == 3, wd, "array<double,3>"); arr(std::array<string, 2>(), strs && n == 2, wsv, "array<string,2>"); arr(ristra::math::vector<double, 2>(), reals && n == 2, wd, "math vector 2"); arr(ristra::math::vector<int, 3>(), ints && n == 3, wi, "math vector 3"); mc::distinct(mc::hash(s)); });
  // nested tables: rows of length 0..3 or something that is no table
  if (mc::group("nested")) for (int n = 0; n <= 3; ++n) mc::product(std::vector<int>(n, t ? 6 : 6), [&](const std::vector<int> &d) { for (int odd = -1; odd < n * 3; ++odd) { if (!mc::next()) continue; // odd: position of an element of the wrong kind
      string s = "v = {"; std::vector<std::vector<int>> w; bool ok = true; int c = 0; for (int r = 0; r < n; ++r) { if (d[r] == 4) { s += "7,"; ok = false; continue; } if (d[r] == 5) { s += "'row',"; ok = false; continue; } s += "{"; w.emplace_back(); for (int j = 0; j < d[r]; ++j) { bool o = odd == r * 3 + j; if (o) { ok = false; s += "'q',"; } else s += std::to_string(10 * r + j) + ","; w.back().push_back(10 * r + j); } s += "},"; } S().run_string(s + "}");
      std::optional<std::vector<std::vector<int>>> g; try { g = S()["v"].as<std::vector<std::vector<int>>>(); } catch (std::exception &) {} MC_CHECK(bool(g) == ok && (!ok || *g == w), "%s} read as nested vector", s.c_str()); MC_CHECK(balanced(), "stack after nested vector %s}", s.c_str());
      auto shape = [&](int m, int k) { if (!ok || n != m) return false; for (auto &r : w) if ((int)r.size() != k) return false; return true; };
      auto mat = [&](auto tag, int m, int k) { using M = decltype(tag); std::optional<M> x; try { x = S()["v"].as<M>(); } catch (std::exception &) {} bool y = shape(m, k); MC_CHECK(bool(x) == y, "%s} read as %dx%d matrix was %s", s.c_str(), m, k, x ? "accepted" : "rejected"); if (x && y) for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) MC_CHECK((*x)(i, j) == w[i][j], "%s} as matrix, entry %d,%d", s.c_str(), i, j); MC_CHECK(balanced(), "stack after matrix %s}", s.c_str()); };
      mat(ristra::math::matrix<double, 2, 2>(), 2, 2); mat(ristra::math::matrix<double, 2, 3>(), 2, 3); mat(ristra::math::matrix<int, 3, 2>(), 3, 2); mat(ristra::math::matrix<double, 1, 3>(), 1, 3); mat(ristra::math::matrix<double, 3, 1>(), 3, 1);
      auto arr = [&](auto tag, int m, int k) { using M = decltype(tag); std::optional<M> x; try { x = S()["v"].as<M>(); } catch (std::exception &) {} bool y = shape(m, k); MC_CHECK(bool(x) == y, "%s} read as nested array %dx%d was %s", s.c_str(), m, k, x ? "accepted" : "rejected"); if (x && y) for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) MC_CHECK((*x)[i][j] == w[i][j], "%s} as nested array, entry %d,%d", s.c_str(), i, j); MC_CHECK(balanced(), "stack after nested array %s}", s.c_str()); };
      arr(std::array<std::array<int, 2>, 2>(), 2, 2); arr(std::array<std::array<double, 3>, 1>(), 1, 3); mc::distinct(mc::hash(s)); } });
  // values read from any position of the interpreter's stack
  if (mc::group("position")) { lua_State *s = S().state(); for (int n = 1; n <= 4; ++n) for (int p = 0; p < n; ++p) for (int neg = 0; neg < 2; ++neg) for (int kind = 0; kind < 6; ++kind) { if (!mc::next()) continue; lua_settop(s, 0); S().run_string("p0={1,2} p1=5 p2='t' p3=true p4=2.5 p5={{1,2},{3,4}}");
      for (int i = 0; i < n; ++i) { if (i == p) lua_getglobal(s, mc::fmt("p%d", kind).c_str()); else if ((i + kind) % 2) lua_pushinteger(s, 90 + i); else { lua_newtable(s); lua_pushinteger(s, 90 + i); lua_rawseti(s, -2, 1); } }
      int ix = neg ? p - n : p + 1; bool ok = false; try { switch (kind) { case 0: ok = lua_value<std::vector<int>>::get(s, ix) == std::vector<int>{1, 2}; break; case 1: ok = lua_value<int>::get(s, ix) == 5; break; case 2: ok = lua_value<string>::get(s, ix) == "t"; break; case 3: ok = lua_value<bool>::get(s, ix); break; case 4: ok = lua_value<double>::get(s, ix) == 2.5; break; case 5: { auto m = lua_value<ristra::math::matrix<int, 2, 2>>::get(s, ix); ok = m(0, 0) == 1 && m(0, 1) == 2 && m(1, 0) == 3 && m(1, 1) == 4; } } } catch (std::exception &) {}
      MC_CHECK(ok, "value of kind %d read from position %d of %d", kind, ix, n); MC_CHECK(lua_gettop(s) == n - 1, "stack height %d after taking one of %d values", lua_gettop(s), n);
      for (int i = 0, q = 1; i < n; ++i) if (i != p) { if ((i + kind) % 2) MC_CHECK(lua_tointeger(s, q) == 90 + i, "other value changed"); else { MC_CHECK(lua_istable(s, q), "other value changed"); if (lua_istable(s, q)) { lua_rawgeti(s, q, 1); MC_CHECK(lua_tointeger(s, -1) == 90 + i, "other value changed"); lua_pop(s, 1); } } ++q; } lua_settop(s, 0); } }
}
static void strings(bool t) {
  std::vector<string> W; words(string("\0a\"\n\xff""1", 6), t ? 5 : 4, W); for (int c = 0; c < 256; ++c) for (const char *f : {"@", "@x", "x@", "x@y", "@@", "xy @", "@ xy", "x@@y"}) { string w; for (const char *p = f; *p; ++p) w += *p == '@' ? char(c) : *p; W.push_back(w); } if (mc::group("text")) { S().run_string(DESC); for (auto &w : W) { if (!mc::next()) continue; string g = S()["desc"](w).as<string>(); MC_CHECK(g == "1:" + hex(w) + ";", "text %s arrives as %s", show(w).c_str(), g.c_str()); string b = S()["id"](w).as<string>(); MC_CHECK(b == w, "text %s comes back as %s", show(w).c_str(), show(b).c_str()); auto two = S()["id"](w, "z", w).as<string, string, string>(); MC_CHECK(two == std::make_tuple(w, string("z"), w), "several texts");
      if (w.find('\0') == string::npos) { string c = S()["id"](w.c_str()).as<string>(); MC_CHECK(c == w, "character array %s", show(w).c_str()); }
      string lit; for (unsigned char c : w) lit += mc::fmt("\\x%02x", c); S().run_string("tt = {['" + lit + "'] = 'v" + lit + "', other = 1}"); MC_CHECK(S()["tt"][w].as<string>() == "v" + w, "table entry under the key %s", show(w).c_str()); MC_CHECK(S()["tt"]["other"].as<int>() == 1 && S()["tt"][w + "_"].empty(), "other keys"); MC_CHECK(S()["tt"][w].size() == w.size() + 1, "size of a text"); MC_CHECK(balanced(), "stack"); mc::distinct(mc::hash(w)); } }
}
static void large() {
  if (mc::group("large.table")) for (int n : mc::widths(70000)) { if (!mc::next()) continue; S().run_string(mc::fmt("v = {} w = {} u = {} for i = 1, %d do v[i] = i * 3 - 1000 w[i] = 't' .. i u[i] = {i, -i} end", n)); auto a = S()["v"].as<std::vector<int>>(); auto d = S()["v"].as<std::vector<double>>(); auto l = S()["v"].as<std::vector<LL>>(); auto b = S()["w"].as<std::vector<string>>(); auto c = S()["u"].as<std::vector<std::array<int, 2>>>(); bool ok = (int)a.size() == n && (int)d.size() == n && (int)l.size() == n && (int)b.size() == n && (int)c.size() == n; for (int i = 0; ok && i < n; ++i) ok = a[i] == i * 3 - 997 && d[i] == a[i] && l[i] == a[i] && b[i] == "t" + std::to_string(i + 1) && c[i][0] == i + 1 && c[i][1] == -i - 1; MC_CHECK(ok, "table of %d elements", n);
      MC_CHECK((int)S()["v"].size() == n, "size of a table of %d elements", n); for (int i : {1, n / 2, n - 1, n}) MC_CHECK(S()["v"][i].as<int>() == i * 3 - 1000 && S()["u"][i][2].as<int>() == -i, "element %d of %d", i, n); MC_CHECK(S()["v"][n + 1].empty() && S()["v"][0].empty() && S()["v"][-1].empty(), "elements outside %d", n); MC_CHECK(balanced(), "stack"); mc::distinct(n); }
  if (mc::group("large.text")) for (int n : mc::widths(70000)) { if (!mc::next()) continue; S().run_string("function id(...) return ... end function len(s) return #s end"); string w; for (int i = 0; i < n; ++i) w += char(i * 7 + i / 256); MC_CHECK(S()["len"](w).as<int>() == n && S()["id"](w).as<string>() == w, "text of %d characters", n); S().run_string(mc::fmt("s = string.rep('ab', %d)", n)); auto x = S()["s"].as<string>(); MC_CHECK((int)x.size() == 2 * n && (int)S()["s"].size() == 2 * n && x[2 * n - 1] == 'b' && x[0] == 'a', "text of %d characters read", 2 * n); S().run_string(mc::fmt("k = {[string.rep('k', %d)] = 5, [string.rep('k', %d)] = 6}", n, n + 1)); MC_CHECK(S()["k"][string(n, 'k')].as<int>() == 5 && S()["k"][string(n + 1, 'k')].as<int>() == 6 && S()["k"][string(n + 2, 'k')].empty(), "key of %d characters", n); MC_CHECK(balanced(), "stack"); mc::distinct(n + 1000000); }
  if (mc::group("large.array")) { auto f = [&](auto a) { if (!mc::next()) return; size_t n = a.size(); S().run_string(mc::fmt("v = {} for i = 1, %zu do v[i] = i * 3 end function cnt(...) local s = 0 for i = 1, select('#', ...) do s = s + i * (select(i, ...)) end return select('#', ...), s end", n)); using A = decltype(a); a = S()["v"].as<A>(); bool ok = true; double sum = 0; for (size_t i = 0; i < n; ++i) { ok &= a[i] == 3 * (i + 1); sum += (i + 1.) * a[i]; } MC_CHECK(ok, "array of %zu", n); if constexpr (std::is_same_v<typename A::value_type, double>) { auto r = S()["cnt"](a).template as<int, double>(); MC_CHECK(std::get<0>(r) == (int)n && std::get<1>(r) == sum, "array of %zu pushed", n); } for (int d = -1; d <= 1; d += 2) { S().run_string(mc::fmt("v = {} for i = 1, %zu do v[i] = i end", n + d)); bool th = false; try { S()["v"].as<A>(); } catch (std::exception &) { th = true; } MC_CHECK(th, "table of %zu accepted as array of %zu", n + d, n); } S().run_string(mc::fmt("v = {} for i = 1, %zu do v[i] = i end", n + 256)); bool th = false; try { S()["v"].as<A>(); } catch (std::exception &) { th = true; } MC_CHECK(th, "table of %zu accepted as array of %zu", n + 256, n); MC_CHECK(balanced(), "stack"); }; f(std::array<int, 3>()); f(std::array<int, 127>()); f(std::array<int, 128>()); f(std::array<int, 255>()); f(std::array<int, 256>()); f(std::array<double, 129>()); f(std::array<double, 256>()); f(std::array<double, 1000>()); f(std::array<int, 70000>()); f(std::array<string::size_type, 257>()); }
  if (mc::group("large.index")) for (LL i : {-1ll, 0ll, 127ll, 128ll, 255ll, 256ll, 32767ll, 32768ll, 65535ll, 65536ll, 2147483647ll, -2147483648ll, -128ll}) { if (!mc::next()) continue; S().run_string(mc::fmt("t = {[%lld] = 'here', [%lld] = 'low', k = {[%lld] = 4}}", i, i & 127 ? i & 127 : 5ll, i)); if ((i & 127 ? i & 127 : 5) == i) S().run_string(mc::fmt("t[%lld] = 'here'", i)); MC_CHECK(S()["t"][(int)i].as<string>() == "here" && S()["t"]["k"][(int)i].as<int>() == 4, "index %lld", i); MC_CHECK(balanced(), "stack"); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  scalar<int>("int"); scalar<long>("long"); scalar<LL>("long long"); scalar<short>("short"); scalar<signed char>("signed char"); scalar<unsigned char>("unsigned char"); scalar<unsigned short>("unsigned short"); scalar<unsigned>("unsigned"); scalar<size_t>("size_t"); scalar<double>("double"); scalar<float>("float"); scalar<long double>("long double"); scalar<bool>("bool"); scalar<string>("string");
  push<int>("int", {0, 1, -1, 42, INT_MAX, INT_MIN}); push<LL>("long long", {0, 1, -1, LLONG_MAX, LLONG_MIN, 1ll << 53, (1ll << 53) + 1}); push<size_t>("size_t", {0, 1, 4294967296ul, (size_t)LLONG_MAX, (1ul << 53) + 1}); push<double>("double", {0., -0., 1., 0.1, -2.5, 1e300, 5e-324, INFINITY, -INFINITY, NAN, 9007199254740993., 123456789.123456789}); push<float>("float", {0.f, -0.f, 0.1f, 1.5f, 3e38f, 1e-45f, INFINITY}); push<bool>("bool", {false, true}); push<string>("string", {"", "a", string("\0", 1), "10", string(300, 'x')});
  if (mc::group("push.too large")) for (size_t v : {(size_t)LLONG_MAX + 1, (size_t)-1, (size_t)-2, (size_t)1 << 63}) { if (!mc::next()) continue; S().run_string(DESC); string got; try { got = S()["desc"](v).as<string>(); } catch (std::exception &) { got = "error"; } MC_CHECK(got == "error" || got == mc::fmt("1:f%a;", (double)v), "size %zu arrives as %s", v, got.c_str()); MC_CHECK(balanced(), "stack"); }
  if (mc::group("push.array")) { S().run_string(DESC); auto f = [&](auto a) { if (!mc::next()) return; string w = std::to_string(a.size() + 2) + ":i1;"; for (double x : a) w += dsc(x) + ";"; w += "btrue;"; MC_CHECK(S()["desc"](1, a, true).template as<string>() == w, "array of %zu", a.size()); MC_CHECK(balanced(), "stack"); }; for (double x : {0.5, -1.0, 1e300}) { f(std::array<double, 1>{x}); f(std::array<double, 2>{x, -x}); f(std::array<double, 3>{x, 2, 3}); f(std::array<double, 4>{1, 2, x, 4}); f(std::array<double, 30>{x}); } }
  strings(t); tables(t); large();
  mc::finish();
}
