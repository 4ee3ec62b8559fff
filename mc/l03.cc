// L03: calls of Lua functions pass all arguments, return all results, report script errors; wrappers stay valid.
#include "mc.h"
#include <array>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <string>
#include "luaguard.h"
#include "ristra/embedded/embed_lua.h"
using std::string; using namespace ristra::embedded;
static const char *DESC = R"(
function one(v) local t = math.type(v)
  if t == 'integer' then return 'i' .. string.format('%d', v) elseif t == 'float' then return 'f' .. string.format('%a', v)
  elseif type(v) == 'string' then local r = 's' for i = 1, #v do r = r .. string.format('%02x', v:byte(i)) end return r
  elseif type(v) == 'boolean' then return 'b' .. tostring(v) else return type(v) end end
function desc(...) local r = select('#', ...) .. ':' for i = 1, select('#', ...) do r = r .. one((select(i, ...))) .. ';' end return r end
function id(...) return ... end
tab = {id = id, desc = desc, n = {id = id}}
)";
static lua_t &S() { static lua_t s; static bool once = (s.run_string(DESC), true); (void)once; return s; }
static bool balanced() { return lua_gettop(S().state()) == 0; }
static string hex(const string &s) { string r = "s"; for (unsigned char c : s) r += mc::fmt("%02x", c); return r; }
// ---- argument kinds ----------------------------------------------------------
template <int K> struct Arg;
template <> struct Arg<0> { using T = int; using R = int; static T v(int p) { return 3 * p - 4; } static string d(int p) { return "i" + std::to_string(v(p)) + ";"; } static R r(int p) { return v(p); } };
template <> struct Arg<1> { using T = double; using R = double; static T v(int p) { return 0.1 + p; } static string d(int p) { return mc::fmt("f%a;", v(p)); } static R r(int p) { return v(p); } };
template <> struct Arg<2> { using T = bool; using R = bool; static T v(int p) { return p % 2; } static string d(int p) { return v(p) ? "btrue;" : "bfalse;"; } static R r(int p) { return v(p); } };
template <> struct Arg<3> { using T = string; using R = string; static T v(int p) { return string(p, 'x') + string("\0y", 2) + std::to_string(p); } static string d(int p) { return hex(v(p)) + ";"; } static R r(int p) { return v(p); } };
template <> struct Arg<4> { using T = const char *; using R = string; static T v(int p) { static const char *w[] = {"c", "", "word", "ten"}; return w[p]; } static string d(int p) { return hex(v(p)) + ";"; } static R r(int p) { return v(p); } };
template <> struct Arg<5> { using T = std::array<double, 2>; using R = double; static T v(int p) { return {p + 0.5, -p - 0.25}; } static string d(int p) { return mc::fmt("f%a;f%a;", p + 0.5, -p - 0.25); } };
template <> struct Arg<6> { using T = size_t; using R = size_t; static T v(int p) { return (1ul << 40) + p; } static string d(int p) { return "i" + std::to_string(v(p)) + ";"; } static R r(int p) { return v(p); } };
static const int K = 7;
template <int... Ks, size_t... I> static void callWith(std::index_sequence<I...>) {
  if (!mc::next()) return; int n = (0 + ... + (Ks == 5 ? 2 : 1)); string w = std::to_string(n) + ":" + (string() + ... + Arg<Ks>::d(I));
  for (int rep = 0; rep < 2; ++rep) { string g = S()["desc"](Arg<Ks>::v(I)...).template as<string>(); MC_CHECK(g == w, "arguments arrive as %s instead of %s", g.c_str(), w.c_str()); }
  string g = S()["tab"]["desc"](Arg<Ks>::v(I)...).template as<string>(); MC_CHECK(g == w, "arguments through a table entry: %s instead of %s", g.c_str(), w.c_str());
  auto f = S()["desc"]; std::tuple<typename Arg<Ks>::T...> lv{Arg<Ks>::v(I)...}; g = f(std::get<I>(lv)...).template as<string>(); MC_CHECK(g == w, "variables as arguments: %s instead of %s", g.c_str(), w.c_str()); const auto clv = lv; g = f(std::get<I>(clv)...).template as<string>(); MC_CHECK(g == w, "constants as arguments: %s instead of %s", g.c_str(), w.c_str());
  if constexpr (((Ks != 5) && ...)) { // results in order, and the wrapper
    auto r = S()["id"](Arg<Ks>::v(I)...); MC_CHECK(r.size() == sizeof...(Ks), "%zu results reported instead of %zu", r.size(), sizeof...(Ks));
    if constexpr (sizeof...(Ks) == 1) { auto x = r.template as<typename Arg<Ks>::R...>(); MC_CHECK((true && ... && (x == Arg<Ks>::r(I))), "result changed (%s)", w.c_str()); }
    else for (int rep = 0; rep < 2; ++rep) { auto x = r.template as<typename Arg<Ks>::R...>(); MC_CHECK((true && ... && (std::get<I>(x) == Arg<Ks>::r(I))), "results changed or out of order (%s)", w.c_str()); }
    std::tuple<typename Arg<Ks>::R...> wt{Arg<Ks>::r(I)...}; if constexpr (sizeof...(Ks) > 1) { auto y = static_cast<std::tuple<typename Arg<Ks>::R...>>(r); MC_CHECK(y == wt, "tuple conversion (%s)", w.c_str()); }
    { auto fw = S()["id"]; using Ret = std::conditional_t<sizeof...(Ks) == 1, std::tuple_element_t<0, std::tuple<typename Arg<Ks>::R...>>, std::tuple<typename Arg<Ks>::R...>>; Lua_Func_Wrapper<std::function<Ret(typename Arg<Ks>::T...)>> wr(fw); std::function<Ret(typename Arg<Ks>::T...)> sf = wr; for (int rep = 0; rep < 2; ++rep) { Ret a = wr(Arg<Ks>::v(I)...), b = sf(Arg<Ks>::v(I)...); if constexpr (sizeof...(Ks) == 1) MC_CHECK(a == std::get<0>(wt) && b == std::get<0>(wt), "wrapper result (%s)", w.c_str()); else MC_CHECK(a == wt && b == wt, "wrapper results (%s)", w.c_str()); } }
    // one more or one fewer results than requested are rejected
    bool more = false, fewer = false; try { r.template as<typename Arg<Ks>::R..., int>(); } catch (std::exception &) { more = true; } if constexpr (sizeof...(Ks) > 1) { try { r.template as<int>(); } catch (std::exception &) { fewer = true; } MC_CHECK(fewer, "one value taken from %zu results", sizeof...(Ks)); } MC_CHECK(more, "more values taken than returned"); }
  { auto fw = S()["desc"]; Lua_Func_Wrapper<std::function<string(typename Arg<Ks>::T...)>> wr(fw); string x = wr(Arg<Ks>::v(I)...); MC_CHECK(x == w, "arguments through the wrapper: %s instead of %s", x.c_str(), w.c_str()); Lua_Func_Wrapper<std::function<string(typename Arg<Ks>::T...)>> wu(std::make_unique<lua_result_t>(S()["desc"])); x = wu(Arg<Ks>::v(I)...); MC_CHECK(x == w, "arguments through the owning wrapper: %s instead of %s", x.c_str(), w.c_str()); }
  MC_CHECK(balanced(), "stack after calls (%s)", w.c_str()); mc::trans(10); mc::distinct(mc::hash(w));
}
template <int... Ks, size_t... I> static void callLite(std::index_sequence<I...>) { // arguments and results only
  if (!mc::next()) return; int n = (0 + ... + (Ks == 5 ? 2 : 1)); string w = std::to_string(n) + ":" + (string() + ... + Arg<Ks>::d(I)); auto f = S()["desc"]; string g = f(Arg<Ks>::v(I)...).template as<string>(); MC_CHECK(g == w, "arguments arrive as %s instead of %s", g.c_str(), w.c_str());
  if constexpr (((Ks != 5) && ...)) { auto x = S()["id"](Arg<Ks>::v(I)...).template as<typename Arg<Ks>::R...>(); MC_CHECK((true && ... && (std::get<I>(x) == Arg<Ks>::r(I))), "results changed or out of order (%s)", w.c_str()); } MC_CHECK(balanced(), "stack after calls (%s)", w.c_str()); mc::trans(2); mc::distinct(mc::hash(w)); }
template <int... Ks> static void lite() { callLite<Ks...>(std::make_index_sequence<sizeof...(Ks)>()); }
template <int... Ks> static void one() { callWith<Ks...>(std::make_index_sequence<sizeof...(Ks)>()); }
template <int Code, int Len, int... Ks> static void dec() { if constexpr (Len == 0) { if constexpr (sizeof...(Ks) < 3) one<Ks...>(); else lite<Ks...>(); } else dec<Code / K, Len - 1, Ks..., Code % K>(); }
template <int Len, int... C> static void allOf(std::integer_sequence<int, C...>) { (dec<C, Len>(), ...); }
#if SEC > 2
template <int C> static void dec3() { constexpr int c = C + 86 * (SEC - 3); if constexpr (c < K * K * K) dec<c, 3>(); }
template <int... C> static void slice(std::integer_sequence<int, C...>) { (dec3<C>(), ...); }
#endif
// ---- result lists of every composition made by the script ---------------------------
static void resultLists(bool t) { if (!mc::group("results")) return; // 0 integer, 1 text, 2 nil, 3 table
  for (int n = 0; n <= (t ? 7 : 5); ++n) mc::product(std::vector<int>(n, 4), [&](const std::vector<int> &d) { if (!mc::next()) return; string s = "function rl() return "; for (int i = 0; i < n; ++i) s += string(i ? ", " : "") + (d[i] == 0 ? std::to_string(10 + i) : d[i] == 1 ? "'w" + std::to_string(i) + "'" : d[i] == 2 ? "nil" : "{" + std::to_string(i) + "}"); S().run_string(s + " end");
      bool err = n == 0 || d[n - 1] == 2; std::optional<lua_result_t> r; try { r.emplace(S()["rl"]()); } catch (std::exception &) {} MC_CHECK(bool(r) == !err, "%s: %s", s.c_str(), r ? "accepted" : "rejected"); if (r && !err) { MC_CHECK((int)r->size() == n && !r->empty(), "%s: size", s.c_str());
        auto chk = [&](auto tup, auto... idx) { using T = decltype(tup); bool ok = sizeof...(idx) == n; bool types = true; int i = 0; auto want = [&](auto &e) { using E = std::decay_t<decltype(e)>; if constexpr (std::is_same_v<E, int>) { types &= i < n && d[i] == 0; e = 10 + i; } else { types &= i < n && (d[i] == 1 || d[i] == 0); e = i < n && d[i] == 0 ? std::to_string(10 + i) : "w" + std::to_string(i); } ++i; }; T w; std::apply([&](auto &... e) { (want(e), ...); }, w); std::optional<T> g; try { g = static_cast<T>(*r); } catch (std::exception &) {} MC_CHECK(bool(g) == (ok && types), "%s as a tuple of %zu: %s", s.c_str(), sizeof...(idx), g ? "accepted" : "rejected"); if (g && ok && types) MC_CHECK(*g == w, "%s as a tuple: values", s.c_str()); };
        chk(std::tuple<int, int>(), 0, 0); chk(std::tuple<int, string>(), 0, 0); chk(std::tuple<string, int>(), 0, 0); chk(std::tuple<int, string, int>(), 0, 0, 0); chk(std::tuple<string, int, string, int>(), 0, 0, 0, 0); chk(std::tuple<int, int, int>(), 0, 0, 0);
        // the first result is the one further lookups use
        if (d[0] == 3) { int x = -1; try { x = (*r)[1].as<int>(); } catch (std::exception &) {} MC_CHECK(x == 0, "%s: lookup in the first result", s.c_str()); } }
      MC_CHECK(balanced(), "stack after %s", s.c_str()); mc::distinct(mc::hash(s)); }); }
// ---- script errors --------------------------------------------------------------------
static void errors(bool t) { if (!mc::group("errors")) return; static const char *bad[] = {"error('text')", "error({1})", "error(nil)", "error()", "local x; x.y = 1", "return 1 + {}", "return nil + 1", "undefined()", "return #5", "return ('x'):nope()", "error(12)", "error(true)", "local function r() return 1 + r() end return r()", "return"};
  const int NB = 14; for (int n = 1; n <= (t ? 3 : 2); ++n) mc::product(std::vector<int>(n, NB + 2), [&](const std::vector<int> &d) { for (int how = 0; how < 3; ++how) { if (!mc::next()) continue; S().run_string("cnt = 0 function good(...) cnt = cnt + 1 return cnt end"); int c = 0; auto good = S()["good"]; string h; for (int k : d) { h += k < NB ? string(bad[k]) + " | " : "good | "; if (k < NB) { S().run_string(string("function bd(...) ") + bad[k] + " end"); bool thrown = false; try { switch (how) { case 0: S()["bd"](); break; case 1: S()["bd"](1, "a", 2.5); break; case 2: { auto f = S()["bd"]; Lua_Func_Wrapper<std::function<int(int)>> w(f); w(3); } } } catch (std::exception &) { thrown = true; } MC_CHECK(thrown, "script error not reported: %s", h.c_str()); }
          else { int x = -1; try { if (k == NB) x = good(1, "z").as<int>(); else { Lua_Func_Wrapper<std::function<int(double)>> w(good); x = w(1.5); } } catch (std::exception &) {} MC_CHECK(x == ++c, "call %d after errors gives %d: %s", c, x, h.c_str()); } MC_CHECK(balanced(), "stack after %s", h.c_str()); }
        int x = -1; try { x = S()["good"]().as<int>(); } catch (std::exception &) {} MC_CHECK(x == ++c, "later call gives %d instead of %d after %s", x, c, h.c_str()); mc::distinct(mc::hash(h)); } }); }
// ---- wrapper lifetimes ---------------------------------------------------------------------
struct Life { using W = Lua_Func_Wrapper<std::function<double(double, int)>>; using F = std::function<double(double, int)>;
  std::optional<lua_t> L; std::unique_ptr<lua_result_t> look; std::unique_ptr<W> w[2]; F f; int calls = 0; double bias = 100; bool wv[2] = {false, false}, fv = false; double mul[2] = {0, 0}, fm = 0; double lm = 0; std::optional<double> lookmul;
  Life() { L.emplace(); L->run_string("calls = 0 function p(x, n) calls = calls + 1 return 2 * x + n + calls / 1024 end function q(x, n) calls = calls + 1 return 5 * x - n + calls / 1024 end F = {p, q}"); }
  double want(double m, double x, int n) { ++calls; return (m == 2 ? 2 * x + n : 5 * x - n) + calls / 1024.; }
  static constexpr int N = 17; static string name(int o) { static const char *n[] = {"look up p", "look up q in a table", "wrap the lookup in w0", "wrap the lookup in w1", "give the lookup to w0", "w1 copy of w0", "w0 copy of w1", "f = w0", "f = w1", "destroy w0", "destroy w1", "destroy the lookup", "drop the interpreter object", "call w0", "call f", "redefine the functions", "move w0 to w1"}; return n[o]; }
  bool step(int o, const string &h) { switch (o) {
    case 0: case 1: if (!L) return false; look = std::make_unique<lua_result_t>(o ? (*L)["F"][2] : (*L)["p"]); lm = o ? 5 : 2; if (o == 0 && redefined) lm = 5; return true;
    case 2: case 3: if (!look) return false; w[o - 2].reset(); w[o - 2] = std::make_unique<W>(*look); mul[o - 2] = lm; return true;
    case 4: if (!look) return false; w[0].reset(); w[0] = std::make_unique<W>(std::move(look)); mul[0] = lm; return true;
    case 5: if (!w[0]) return false; w[1].reset(); w[1] = std::make_unique<W>(*w[0]); mul[1] = mul[0]; return true;
    case 6: if (!w[1]) return false; w[0].reset(); w[0] = std::make_unique<W>(*w[1]); mul[0] = mul[1]; return true;
    case 7: case 8: if (!w[o - 7]) return false; f = *w[o - 7]; fm = mul[o - 7]; return true;
    case 9: case 10: if (!w[o - 9]) return false; w[o - 9].reset(); return true;
    case 11: if (!look) return false; look.reset(); return true;
    case 12: if (!L) return false; L.reset(); return true;
    case 13: return w[0] ? call(*w[0], mul[0], h) : false; case 14: return f ? call(f, fm, h) : false;
    case 15: if (!L || redefined) return false; L->run_string("local P, Q = p, q; p = Q  q = nil"); redefined = true; return true;
    case 16: if (!w[0]) return false; w[1].reset(); w[1] = std::make_unique<W>(std::move(*w[0])); mul[1] = mul[0]; w[0].reset(); return true; }
    return false; }
  bool redefined = false;
  template <class C> bool call(C &c, double m, const string &h) { double x = 1.5 + calls; int n = 3 - calls; double e = want(m, x, n), g = -1; try { g = c(x, n); } catch (std::exception &) {} MC_CHECK(g == e, "call gives %g instead of %g after %s", g, e, h.c_str()); return true; }
  void all(const string &h) { for (int i = 0; i < 2; ++i) if (w[i]) call(*w[i], mul[i], h); if (f) call(f, fm, h); if (look) { double e = want(lm, 2, 3), g = -1; try { g = (*look)(2.0, 3).as<double>(); } catch (std::exception &) {} MC_CHECK(g == e, "lookup called: %g instead of %g after %s", g, e, h.c_str()); } if (L) { int c = -1; try { c = (*L)["calls"].as<int>(); } catch (std::exception &) {} MC_CHECK(c == calls, "the script counted %d calls instead of %d after %s", c, calls, h.c_str()); } } };
static void lives(bool t) { if (!mc::group("wrappers")) return; for (int pre = 0; pre < 3; ++pre) mc::product(std::vector<int>(t ? 5 : 4, Life::N), [&](const std::vector<int> &d) { if (!mc::next()) return; Life l; string h; auto go = [&](int o) { h += Life::name(o) + "; "; mc::trans(); return l.step(o, h); }; if (pre) { go(0); go(pre == 1 ? 2 : 4); if (pre == 1) go(8 - 1); } for (int o : d) if (!go(o)) return; l.all(h); mc::distinct(mc::hash(h)); mc::sample(h); }); }
// ---- long argument and result lists (each on a fresh interpreter: its stack starts small) ----
template <size_t... I> static void many(std::index_sequence<I...>) { constexpr int n = sizeof...(I);
  auto fresh = [] { auto L = std::make_unique<lua_t>(); L->run_string(DESC); return L; };
  auto full = [&](lua_t &L, const char *what) { MC_CHECK(lua_gettop(L.state()) == 0, "stack after %d %s", n, what); };
  if (mc::next()) { auto L = fresh(); string w = std::to_string(n) + ":"; for (int i = 0; i < n; ++i) w += "i" + std::to_string(7 * i - 3) + ";"; for (int rep = 0; rep < 2; ++rep) { string g = (*L)["desc"]((7 * int(I) - 3)...).template as<string>(); MC_CHECK(g == w, "%d integer arguments arrive as %.200s", n, g.c_str()); full(*L, "arguments"); } }
  if (mc::next()) { auto L = fresh(); string w = std::to_string(n) + ":"; for (int i = 0; i < n; ++i) w += hex(std::to_string(i) + "t") + ";"; auto f = (*L)["desc"]; Lua_Func_Wrapper<std::function<string(decltype((void)I, string())...)>> wr(f); string g = wr((std::to_string(I) + "t")...); MC_CHECK(g == w, "%d text arguments arrive as %.200s", n, g.c_str()); full(*L, "arguments"); }
  if (mc::next()) { auto L = fresh(); std::array<double, n> a; string w = std::to_string(n + 2) + ":btrue;"; for (int i = 0; i < n; ++i) { a[i] = i + 0.25; w += mc::fmt("f%a;", a[i]); } w += "i9;"; string g = (*L)["desc"](true, a, 9).template as<string>(); MC_CHECK(g == w, "array of %d arrives as %.200s", n, g.c_str()); full(*L, "array elements"); }
  if (mc::next()) { auto L = fresh(); auto r = (*L)["id"]((5 * int(I) + 1)...); MC_CHECK(r.size() == n, "%zu results instead of %d", r.size(), n); if constexpr (n > 1) for (int rep = 0; rep < 2; ++rep) { auto x = r.template as<decltype((void)I, int())...>(); MC_CHECK((true && ... && (std::get<I>(x) == 5 * int(I) + 1)), "%d results", n); full(*L, "results"); } }
  if (mc::next()) { auto L = fresh(); L->run_string(mc::fmt("function mk() local t = {} for i = 1, %d do t[i] = i * 11 end return table.unpack(t) end", n)); auto r = (*L)["mk"](); MC_CHECK(r.size() == n, "%zu results instead of %d", r.size(), n); lua_t L2; L2.run_string("dummy = 1"); if constexpr (n > 1) { auto x = r.template as<decltype((void)I, long())...>(); MC_CHECK((true && ... && (std::get<I>(x) == 11 * (long(I) + 1))), "%d results made by the script", n); auto y = static_cast<std::tuple<decltype((void)I, string())...>>(r); MC_CHECK((true && ... && (std::get<I>(y) == std::to_string(11 * (long(I) + 1)))), "%d results as texts", n); } full(*L, "results"); }
  mc::trans(4 * n); mc::distinct(n); }
template <int... N> static void manies() { if (mc::group("many")) (many(std::make_index_sequence<N>()), ...); }
static void manyResults(bool t) { if (!mc::group("many results")) return; for (int n : {1, 2, 36, 37, 38, 39, 40, 41, 44, 45, 46, 100, 250, 1000, 5000, 100000}) for (int deep = 0; deep < 2; ++deep) { if (!mc::next()) continue; lua_t L; L.run_string(mc::fmt("function mk() local t = {} for i = 1, %d do t[i] = %s end return table.unpack(t, 1, %d) end", n, deep ? "{i}" : "i", n)); for (int rep = 0; rep < 2; ++rep) { try { auto r = L["mk"](); MC_CHECK((int)r.size() == n, "%zu results instead of %d", r.size(), n); auto c = r; MC_CHECK(c.size() == r.size() && !c.empty(), "copy of many results"); if (deep) { int x = r[1].as<int>(); MC_CHECK(x == 1, "lookup in the first of %d results gives %d", n, x); } } catch (std::exception &e) { mc::fail(mc::fmt("%d results: %s", n, e.what())); } MC_CHECK(lua_gettop(L.state()) == 0, "stack after %d results", n); } mc::distinct(n * 2 + deep); } }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
#if SEC == 0
  if (mc::group("no arguments") && mc::next()) { MC_CHECK(S()["desc"]().as<string>() == "0:", "call without arguments"); }
  if (mc::group("arguments1")) allOf<1>(std::make_integer_sequence<int, K>());
  resultLists(t); errors(t); lives(t);
#elif SEC == 1
  if (mc::group("arguments2")) allOf<2>(std::make_integer_sequence<int, K * K>());
#elif SEC == 2
  if (mc::group("arguments4")) { one<0, 1, 2, 3>(); one<3, 2, 1, 0>(); one<4, 4, 0, 0>(); one<5, 0, 5, 3>(); one<6, 3, 6, 1>(); one<2, 2, 3, 3>(); one<1, 0, 1, 0>(); one<0, 0, 0, 0>(); one<3, 4, 3, 4>(); one<5, 5, 5, 5>(); one<1, 1, 1, 6>(); one<2, 6, 2, 0>(); }
#elif SEC == 7
  manies<5, 10, 19, 20, 21, 35, 36>(); manyResults(t);
#elif SEC == 8
  manies<37, 38, 39, 40, 41, 42, 43, 44, 45, 46>();
#elif SEC == 9
  manies<80, 129>();
#else
  if (mc::group("arguments3." + std::to_string(SEC))) slice(std::make_integer_sequence<int, 86>());
#endif
  mc::finish();
}
