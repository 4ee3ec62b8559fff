// L02: lookups, calls, conversions and failures leave the Lua interpreter balanced and earlier results valid.
#include "mc.h"
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include "ristra/embedded/embed_lua.h"
using std::string; using namespace ristra::embedded;
// ---- model of the Lua values ------------------------------------------------
struct Tab; using TP = std::shared_ptr<Tab>; struct Nil {}; struct Fn { int kind; };
using V = std::variant<Nil, int, string, TP, Fn>;
struct Tab { std::map<string, V> m; std::vector<V> a; };
struct Res { std::vector<V> v; string name; size_t size; }; // values in order
static size_t len(const V &v) { if (auto s = std::get_if<string>(&v)) return s->size(); if (auto t = std::get_if<TP>(&v)) return (*t)->a.size(); return 0; }
static bool isNil(const V &v) { return std::holds_alternative<Nil>(v); }
static string key(const V &v, int d = 0) { switch (v.index()) { case 0: return "nil"; case 1: return std::to_string(std::get<int>(v)); case 2: return "'" + std::get<string>(v) + "'"; case 3: { string r = "{"; for (auto &e : std::get<TP>(v)->a) r += key(e, d + 1) + ","; for (auto &e : std::get<TP>(v)->m) r += e.first + "=" + key(e.second, d + 1) + ","; return r + "}"; } default: return "fn" + std::to_string(std::get<Fn>(v).kind); } }
static const char *SCRIPT = R"(
a = 7  s = 'txt'  t = {11, 22, k = 'v', n = {5}}
function f(...) return 1, 2 end
function g(...) return t end
function h(...) error('no') end
function z(...) end
function y(...) return nil end
function e(...) error({}) end
)";
static const char *FN[] = {"f", "g", "h", "z", "y", "e"};
struct World {
  std::optional<lua_t> L; lua_State *raw; std::map<string, V> G; std::optional<lua_result_t> r[2]; std::optional<Res> m[2]; int sent; bool bad = false;
  static TP tab(int x, const char *k, int n) { auto t = std::make_shared<Tab>(); t->a = {x, 2 * x}; t->m["k"] = string(k); auto u = std::make_shared<Tab>(); u->a = {n}; t->m["n"] = u; return t; }
  World(int s) : sent(s) { L.emplace(); raw = L->state(); L->run_string(SCRIPT); G["a"] = 7; G["s"] = string("txt"); G["t"] = tab(11, "v", 5); for (int i = 0; i < 6; ++i) G[FN[i]] = Fn{i}; for (int i = 0; i < sent; ++i) lua_pushinteger(raw, 4000 + i); }
  bool alive() { return L || r[0] || r[1]; }
  void stack(const string &h) { if (!alive()) return; int n = lua_gettop(raw); MC_CHECK(n == sent, "stack height %d instead of %d after %s", n, sent, h.c_str()); for (int i = 0; i < sent && i < n; ++i) MC_CHECK(lua_isinteger(raw, i + 1) && lua_tointeger(raw, i + 1) == 4000 + i, "value %d below was changed after %s", i, h.c_str()); }
  template <class F> bool ok(F f) { try { f(); } catch (std::exception &) { return false; } return true; }
  // all observations of one result against the model
  void observe(int i, const string &h) {
    MC_CHECK(bool(r[i]) == bool(m[i]), "harness"); if (!r[i]) return; auto &R = *r[i]; auto &M = *m[i]; bool em = true; for (auto &v : M.v) em &= isNil(v);
    MC_CHECK(R.empty() == em, "empty() is %d for %s after %s", R.empty(), key(M.v[0]).c_str(), h.c_str()); MC_CHECK(R.name() == M.name, "name '%s' instead of '%s' after %s", R.name().c_str(), M.name.c_str(), h.c_str()); MC_CHECK(R.size() == M.size, "size %zu instead of %zu after %s", R.size(), M.size, h.c_str());
    int n = M.v.size(); const V &v = M.v[0];
    { int x = -99; bool o = ok([&] { x = R.as<int>(); }); bool w = n == 1 && v.index() == 1; MC_CHECK(o == w && (!w || x == std::get<int>(v)), "result %s as int after %s: %s %d", key(v).c_str(), h.c_str(), o ? "gives" : "rejected", x); stack(h + ", as<int>"); }
    { string x; bool o = ok([&] { x = R.as<string>(); }); bool w = n == 1 && (v.index() == 1 || v.index() == 2); MC_CHECK(o == w && (!w || x == (v.index() == 1 ? std::to_string(std::get<int>(v)) : std::get<string>(v))), "result %s as text after %s", key(v).c_str(), h.c_str()); stack(h + ", as<string>"); }
    { std::vector<int> x; bool o = ok([&] { x = R.as<std::vector<int>>(); }); bool w = n == 1 && v.index() == 3; std::vector<int> wv; if (w) for (auto &e : std::get<TP>(v)->a) wv.push_back(std::get<int>(e)); MC_CHECK(o == w && (!w || x == wv), "result %s as vector after %s", key(v).c_str(), h.c_str()); stack(h + ", as<vector>"); }
    { std::tuple<int, int> x; bool o = ok([&] { x = R.as<int, int>(); }); bool w = n == 2 && M.v[0].index() == 1 && M.v[1].index() == 1; MC_CHECK(o == w && (!w || x == std::make_tuple(std::get<int>(M.v[0]), std::get<int>(M.v[1]))), "result %s as pair after %s", key(v).c_str(), h.c_str()); stack(h + ", as<int,int>"); }
    { bool o = ok([&] { R.as<int, string, int>(); }); MC_CHECK(!o, "three values from %d results after %s", n, h.c_str()); stack(h + ", as<int,string,int>"); }
  }
  static constexpr int NG = 10, NS = 23, N = NG + 2 * NS;
  static string opname(int op) { static const char *g[] = {"replace the globals", "change the table in place", "run a script that returns values", "run text that does not parse", "run a script that fails", "load a missing file", "collect garbage", "drop the interpreter object", "remove the globals", "read through get_top"}; static const char *s[] = {"= a", "= s", "= t", "= f", "= g", "= missing", "= self['k']", "= self['n']", "= self[1]", "= self[2]", "= self['none']", "= self[9]", "= self()", "= self(1,'x',2.5,{1,2})", "= copy of other", "= move of other", ":= other (assignment)", "destroyed", "= h", "= z", "= y", "= e", "= t['n'][1]"}; return op < NG ? g[op] : "r" + std::to_string((op - NG) / NS) + " " + s[(op - NG) % NS]; }
  // false: operation not applicable
  bool step(int op, const string &h) {
    if (op < NG) { bool need = op != 9; if (need && !L) return false; switch (op) {
      case 0: L->run_string("a = 8 s = 'new' t = {31, 62, k = 'w', n = {6}}"); G["a"] = 8; G["s"] = string("new"); G["t"] = tab(31, "w", 6); break;
      case 1: if (G["t"].index() != 3) return false; L->run_string("t.k = 'z' t[1] = 77 t.n = {9}"); { auto &t = *std::get<TP>(G["t"]); t.m["k"] = string("z"); t.a[0] = 77; auto u = std::make_shared<Tab>(); u->a = {9}; t.m["n"] = u; } break;
      case 2: MC_CHECK(ok([&] { L->run_string("return 1, {}, 'x'"); }), "script rejected"); break;
      case 3: MC_CHECK(!ok([&] { L->run_string("this is = not lua"); }), "syntax error not reported after %s", h.c_str()); break;
      case 4: MC_CHECK(!ok([&] { (*L)("local x = nil; x.y = 1"); }), "script error not reported after %s", h.c_str()); break;
      case 5: MC_CHECK(!ok([&] { L->loadfile("/nonexistent/file.lua"); }), "missing file not reported after %s", h.c_str()); break;
      case 6: L->run_string("collectgarbage() collectgarbage()"); break;
      case 7: L.reset(); if (!alive()) return true; break;
      case 8: L->run_string("a = nil s = nil t = nil f = nil g = nil"); for (auto k : {"a", "s", "t", "f", "g"}) G[k] = Nil(); break;
      case 9: { int i = r[0] ? 0 : r[1] ? 1 : -1; if (i < 0) return false; auto t = r[i]->get_top(); int x = -1; bool o = ok([&] { x = t["a"].as<int>(); }); bool w = G["a"].index() == 1; MC_CHECK(o == w && (!w || x == std::get<int>(G["a"])), "global read through a result after %s", h.c_str()); break; } }
      return true; }
    int i = (op - NG) / NS, j = 1 - i, k = (op - NG) % NS; auto put = [&](lua_result_t &&x, std::vector<V> v, const string &nm, size_t sz) { r[i].reset(); r[i].emplace(std::move(x)); m[i] = Res{v, nm, sz}; };
    auto glob = [&](const char *n) { if (!L) return false; V v = G.count(n) ? G[n] : V(Nil()); put((*L)[n], {v}, n, len(v)); return true; };
    auto index = [&](const char *nm, int n) { if (!r[i]) return false; auto &M = *m[i]; V base = M.v[0]; std::optional<lua_result_t> x; bool o = ok([&] { if (nm) x.emplace((*r[i])[string(nm)]); else x.emplace((*r[i])[n]); }); bool w = base.index() == 3; MC_CHECK(o == w, "%s of %s %s after %s", nm ? nm : "element", key(base).c_str(), o ? "accepted" : "rejected", h.c_str()); if (o && w) { auto &t = *std::get<TP>(base); V v = Nil(); if (nm) { if (t.m.count(nm)) v = t.m[nm]; } else if (n >= 1 && n <= (int)t.a.size()) v = t.a[n - 1]; put(std::move(*x), {v}, nm ? M.name + ".[\"" + nm + "\"]" : M.name + "[" + std::to_string(n) + "]", len(v)); } return true; };
    auto call = [&](bool args) { if (!r[i]) return false; auto &M = *m[i]; V base = M.v[0]; std::optional<lua_result_t> x; bool o = ok([&] { if (args) x.emplace((*r[i])(1, "x", 2.5, std::array<double, 2>{1, 2})); else x.emplace((*r[i])()); }); int kd = base.index() == 4 ? std::get<Fn>(base).kind : -1; bool w = kd == 0 || (kd == 1 && !isNil(G["t"])); MC_CHECK(o == w, "call of %s %s after %s", key(base).c_str(), o ? "accepted" : "rejected", h.c_str()); if (o && w) { string nm = M.name + (args ? "(function,number,string,number,number,number)" : "(function)"); if (kd == 0) put(std::move(*x), {1, 2}, nm, 2); else put(std::move(*x), {G["t"]}, nm, 1); } return true; };
    switch (k) {
      case 0: return glob("a"); case 1: return glob("s"); case 2: return glob("t"); case 3: return glob("f"); case 4: return glob("g"); case 5: return glob("missing"); case 18: return glob("h"); case 19: return glob("z"); case 20: return glob("y"); case 21: return glob("e");
      case 6: return index("k", 0); case 7: return index("n", 0); case 8: return index(nullptr, 1); case 9: return index(nullptr, 2); case 10: return index("none", 0); case 11: return index(nullptr, 9); case 12: return call(false); case 13: return call(true);
      case 14: if (!r[j]) return false; r[i].reset(); r[i].emplace(*r[j]); m[i] = m[j]; return true;
      case 15: if (!r[j]) return false; r[i].reset(); r[i].emplace(std::move(*r[j])); m[i] = m[j]; r[j].reset(); m[j].reset(); return true;
      case 16: if (!r[i] || !r[j]) return false; *r[i] = *r[j]; m[i] = m[j]; return true;
      case 17: if (!r[i]) return false; r[i].reset(); m[i].reset(); return true;
      case 22: { if (!L) return false; V b = G["t"]; std::optional<lua_result_t> x; bool o = ok([&] { x.emplace((*L)["t"]["n"][1]); }); MC_CHECK(o == !isNil(b), "chained lookup after %s", h.c_str()); if (o && !isNil(b)) { V v = std::get<TP>(std::get<TP>(b)->m["n"])->a[0]; put(std::move(*x), {v}, "t.[\"n\"][1]", 0); } return true; } }
    return false; }
};
static void histories(const string &g, const std::vector<int> &first, int depth, int sent) {
  if (!mc::group(g + ".sentinels" + std::to_string(sent))) return;
  std::vector<std::vector<int>> pre; // symmetric slots: the first slot operation is on slot 0
  mc::product(std::vector<int>(depth, World::N), [&](const std::vector<int> &d) {
    for (int o : d) if (o >= World::NG) { if (o >= World::NG + World::NS) return; break; }
    if (!mc::next()) return; World w(sent); string h; for (int o : first) { w.step(o, h); h += World::opname(o) + "; "; }
    for (int o : d) { string nh = h + World::opname(o) + "; "; if (!w.step(o, nh)) return; h = nh; mc::trans(); w.stack(h); w.observe(0, h); w.observe(1, h); if (!w.alive()) break; }
    // everything released once the results are gone
    if (w.L) { w.L->run_string("W = setmetatable({t, t and t.n}, {__mode = 'v'}) t = nil"); w.r[0].reset(); w.r[1].reset(); lua_gc(w.raw, LUA_GCCOLLECT, 0); lua_gc(w.raw, LUA_GCCOLLECT, 0); w.L->run_string("left = #W + (next(W) and 1 or 0)"); int left = (*w.L)["left"].as<int>(); MC_CHECK(left == 0, "values still held after all results are gone: %s", h.c_str()); w.stack(h); }
    mc::distinct(mc::hash(h)); if (w.r[0]) mc::sample(h); });
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  const int A = World::NG, B = World::NG + World::NS;
  histories("short", {}, 2, 0); histories("short", {}, 2, 1);
  histories("fresh", {}, t ? 4 : 3, 2); if (t) histories("fresh", {}, 3, 0);
  histories("table held", {A + 2}, t ? 4 : 3, 1); histories("function held", {A + 4}, t ? 4 : 3, 0); histories("pair held", {A + 3, A + 12, B + 2}, t ? 3 : 2, 0); histories("nested held", {A + 2, B + 14, A + 7}, t ? 3 : 2, 1); histories("results only", {A + 2, B + 3, 7}, t ? 3 : 2, 0);
  if (mc::group("leak")) for (int op = 0; op < World::N; ++op) for (int base = 0; base < 6; ++base) { if (!mc::next()) continue; World w(1); auto prep = [&] { if (base) w.step(A + base - 1, ""); }; auto live = [&] { return (long)lua_rawlen(w.raw, LUA_REGISTRYINDEX); }; long mid = 0; bool app = op != 7 && op != 8; for (int n = 0; n < 60 && app; ++n) { prep(); w.step(B + 2, ""); app = w.step(op, "repeated"); if (n == 9) mid = live(); } if (app) { MC_CHECK(live() <= mid + 10, "references are leaked by %s: %ld then %ld", World::opname(op).c_str(), mid, live()); w.stack("repetition"); } mc::trans(60); }
  // many results at once: each keeps exactly its own value, for as long as it (or a copy) lives
  if (mc::group("held")) for (int n = 1; n <= (t ? 130 : 40); ++n) for (int step = 1; step <= 3; ++step) for (int copies = 0; copies < 2; ++copies) { if (!mc::next()) continue; lua_t L; lua_State *s = L.state(); L.run_string(mc::fmt("W = setmetatable({}, {__mode = 'v'}) T = {} for i = 1, %d do T[i] = {i} W[i] = T[i] end function left() local c = 0 for i = 1, %d do if W[i] then c = c + 1 end end return c end function at(i) return W[i] ~= nil end", n, n)); std::vector<std::optional<lua_result_t>> r(n); { auto T = L["T"]; for (int i = 0; i < n; ++i) { r[i].emplace(T[i + 1]); if (copies) { lua_result_t c(*r[i]); r[i].reset(); r[i].emplace(std::move(c)); } } } L.run_string("T = nil");
      std::vector<int> order; for (int k = 0; k < step; ++k) for (int i = k; i < n; i += step) order.push_back(i); std::vector<bool> live(n, true); int cnt = n; bool ok = true; auto look = [&] { lua_gc(s, LUA_GCCOLLECT, 0); lua_gc(s, LUA_GCCOLLECT, 0); ok = ok && L["left"]().as<int>() == cnt && lua_gettop(s) == 0; for (int i = 0; ok && i < n; i += n > 20 ? 7 : 1) if (L["at"](i + 1).as<bool>() != live[i] || (live[i] && (*r[i])[1].as<int>() != i + 1)) ok = false; }; look();
      for (int i : order) { r[i].reset(); live[i] = false; --cnt; if (n < 12 || cnt % 5 == 0) { look(); mc::trans(); } if (!ok) { mc::fail(mc::fmt("%d results released in steps of %d%s: with %d left, other values than theirs are held", n, step, copies ? ", copied" : "", cnt)); break; } }
      mc::distinct(mc::hash(mc::fmt("held %d %d %d", n, step, copies))); }
  mc::finish();
}
