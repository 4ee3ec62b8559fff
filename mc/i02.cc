// I02: all lookup and registration histories of hard-coded and Lua input sources.
#include "mc.h"
#include <array>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include "ristra/initialization/input_source.h"
using std::string; using namespace ristra; using Fn = std::function<double(double)>; using Arr = std::array<double, 2>; using Vec = std::vector<int>;
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
// ---- hard-coded source
template <class T> static bool same(const T &a, const T &b) { return a == b; }
template <> bool same(const Fn &a, const Fn &b) { return bool(a) == bool(b) && (!a || (a(3) == b(3) && a(-1) == b(-1))); }
template <class T> struct HC { std::map<string, T> m; T poison; std::vector<T> v; };
static void hardcoded(int depth) {
  if (!mc::group("hard_coded")) return;
  // operations: lookup (type, key), set (type, key, value), clear
  struct Op { int kind, ty, key, val; }; std::vector<Op> A; for (int ty = 0; ty < 5; ++ty) { for (int k = 0; k < 3; ++k) A.push_back({0, ty, k, 0}); A.push_back({1, ty, 0, 1}); } A.push_back({1, 1, 1, 0}); A.push_back({1, 4, 1, 0}); A.push_back({2, 0, 0, 0}); A.push_back({3, 0, 0, 0});
  static const char *K[] = {"alpha", "beta", "a much longer key, gamma, that no source knows"};
  mc::product(std::vector<int>(depth, A.size()), [&](const std::vector<int> &q) { if (!mc::next()) return;
    hard_coded_source_t s; s.clear_registry<std::tuple<double, string, Arr, size_t, Fn>>();
    HC<double> d{{}, -7, {1.5, 0}}; HC<string> t{{}, "poison", {"a text that does not fit into a small string", string("nul\0inside", 10)}}; HC<Arr> a{{}, {-7, -7}, {{1, 2}, {-0.5, 0}}}; HC<size_t> z{{}, 77, {5, (size_t)-1}}; HC<Fn> f{{}, [](double) { return -1.0; }, {[](double x) { return x + 1; }, [](double x) { return x * 2; }}};
    string done; bool ok = true;
    auto set = [&](auto &h, int k, int v) { using T = std::decay_t<decltype(h.poison)>; hard_coded_source_t::registry<T> r; r[K[k]] = h.v[v]; s.set_registry<T>(r); h.m[K[k]] = h.v[v]; };
    auto get = [&](auto &h, int k) { using T = std::decay_t<decltype(h.poison)>; T x = h.poison; bool r = s.get_value(K[k], x); auto i = h.m.find(K[k]); if (r != (i != h.m.end())) { mc::fail(mc::fmt("%s: lookup of %s returned %d", done.c_str(), K[k], r)); ok = false; } else if (!same<T>(x, r ? i->second : h.poison)) { mc::fail(mc::fmt("%s: lookup of %s gave another value%s", done.c_str(), K[k], r ? "" : " although it is missing")); ok = false; } };
    auto all = [&](int ty, auto fn) { switch (ty) { case 0: fn(d); break; case 1: fn(t); break; case 2: fn(a); break; case 3: fn(z); break; default: fn(f); } };
    for (int ty = 0; ty < 5; ++ty) all(ty, [&](auto &h) { set(h, 0, 0); }); set(t, 1, 1);
    for (int i = depth; ok && i-- > 0;) { const Op &o = A[q[i]]; done += mc::fmt("%s(%d,%d) ", o.kind == 0 ? "get" : o.kind == 1 ? "set" : o.kind == 2 ? "clear" : "newsource", o.ty, o.key); mc::trans();
      if (o.kind == 0) all(o.ty, [&](auto &h) { get(h, o.key); }); else if (o.kind == 1) all(o.ty, [&](auto &h) { set(h, o.key, o.val); }); else if (o.kind == 3) { hard_coded_source_t other(s); for (int ty = 0; ty < 5; ++ty) all(ty, [&](auto &h) { using T = std::decay_t<decltype(h.poison)>; T x = h.poison; bool r = other.get_value(K[0], x); ok = ok && r == (h.m.count(K[0]) == 1) && (h.m.count(K[0]) ? same<T>(x, h.m[K[0]]) : true); }); if (!ok) mc::fail(done + ": copy of the source"); }
      else { s.clear_registry<std::tuple<double, string, Arr, size_t, Fn>>(); for (int ty = 0; ty < 5; ++ty) all(ty, [&](auto &h) { h.m.clear(); }); } }
    for (int ty = 0; ok && ty < 5; ++ty) for (int k = 0; ok && k < 3; ++k) all(ty, [&](auto &h) { get(h, k); });
    mc::distinct(mc::hash(mc::fmt("%zu%zu%zu%zu%zu", d.m.size(), t.m.size(), a.m.size(), z.m.size(), f.m.size()) + (t.m.count(K[0]) ? t.m[K[0]] : ""))); });
}
// ---- Lua source: registrations
static const char *TABLES = R"(
hydro = { p=11, q=12, x=13, prefix=14, postfix=15, suffix=16, CFL=17, type=18, z={1}, l={1,2},
  tabA = { p=21, q=22, x=23, z={1,2,3}, l={1,2,3,4}, tabB={p=71, x=73, z={1,2,3,4,5}} }, alt = { p=31, x=33, suffix=36, type=38, z={1,2,3,4,5,6}, l={} },
  mesh = { p=41, type=42, x=43, dimensions=44, suffix=46, l='seven77' } }
tabA = { p=51, q=52, x=53, z='eight888', l={1,2,3,4,5,6,7,8,9} }
alt = { p=61, q=62, x=63, suffix=66, l={1,2,3,4,5,6,7,8,9,10} }
)";
using Tab = std::map<string, int>;
static Tab data(const string &path) { // path of a table -> its plain entries
  if (path == "hydro") return {{"p", 11}, {"q", 12}, {"x", 13}, {"prefix", 14}, {"postfix", 15}, {"suffix", 16}, {"CFL", 17}, {"type", 18}};
  if (path == "hydro.tabA") return {{"p", 21}, {"q", 22}, {"x", 23}}; if (path == "hydro.alt") return {{"p", 31}, {"x", 33}, {"suffix", 36}, {"type", 38}}; if (path == "hydro.mesh") return {{"p", 41}, {"type", 42}, {"x", 43}, {"dimensions", 44}, {"suffix", 46}};
  if (path == "tabA") return {{"p", 51}, {"q", 52}, {"x", 53}}; if (path == "alt") return {{"p", 61}, {"q", 62}, {"x", 63}, {"suffix", 66}}; if (path == "hydro.tabA.tabB") return {{"p", 71}, {"x", 73}}; return {};
}
static int lsize(const string &path, bool l) { static const std::map<string, std::pair<int, int>> S{{"hydro", {1, 2}}, {"hydro.tabA", {3, 4}}, {"hydro.tabA.tabB", {5, -1}}, {"hydro.alt", {6, 0}}, {"hydro.mesh", {-1, 7}}, {"tabA", {8, 9}}, {"alt", {-1, 10}}}; auto i = S.find(path); return i == S.end() ? -1 : l ? i->second.second : i->second.first; } // length of entry z or l, -1 when there is none
struct LM { std::map<string, std::pair<string, string>> vals; std::map<string, string> tabs; // key -> (table, lua key); table -> path
  LM() { tabs = {{"hydro", "hydro"}, {"mesh", "hydro.mesh"}}; for (const char *k : {"prefix", "CFL", "output_freq"}) vals[k] = {"hydro", k}; vals["suffix"] = {"hydro", "postfix"}; vals["mesh_type"] = {"mesh", "type"}; vals["dimensions"] = {"mesh", "dimensions"}; vals["file"] = {"mesh", "file"}; }
  std::optional<int> find(const string &k) const { auto i = vals.find(k); if (i == vals.end()) return {}; auto t = tabs.find(i->second.first); if (t == tabs.end()) return {}; Tab d = data(t->second); auto e = d.find(i->second.second); if (e == d.end()) return {}; return e->second; }
  bool exists(const string &path) const { return !data(path).empty(); } };
static const std::vector<string> KEYS{"x", "suffix", "mesh_type", "prefix", "CFL", "output_freq", "dimensions", "file", "never registered"};
static bool look(lua_source_t &s, const LM &m, string &why) { for (auto &k : KEYS) { mc::trans(); auto w = m.find(k); double d = -7; int i = -7; string t = "poison"; embedded::lua_result_uptr_t u; bool rd, ri, rt, ru;
    try { rd = s.get_value(k, d); ri = s.get_value(k, i); rt = s.get_value(k, t); ru = s.get_value(k, u); } catch (std::exception &x) { why = mc::fmt("looking up %s failed: %s", k.c_str(), x.what()); return false; }
    if (rd != bool(w) || ri != bool(w) || rt != bool(w) || ru != bool(w)) { why = mc::fmt("%s reported as %s", k.c_str(), rd ? "present" : "missing"); return false; }
    if (w ? d != *w || i != *w || t != std::to_string(*w) || !u || u->as<int>() != *w : d != -7 || i != -7 || t != "poison" || u) { why = mc::fmt("%s gave %g, %d, %s; expected %d", k.c_str(), d, i, t.c_str(), w ? *w : -7); return false; }
    if (w) { auto r = s.get_lua_result_raw(k); if (!r.first || r.second.as<int>() != *w) { why = "get_lua_result_raw of " + k; return false; } }
    else { bool th = false, f = true; try { f = s.get_lua_result_raw(k).first; } catch (std::exception &) { th = true; } bool known = m.vals.count(k) && m.tabs.count(m.vals.at(k).first); if (known ? th || f : !th && f) { why = "get_lua_result_raw of the missing " + k; return false; } if (!known && !throws([&] { s.get_size(k); })) { why = "get_size of the unknown " + k; return false; } } }
  for (auto &t : m.tabs) for (int l = 0; l < 2; ++l) { s.register_value("z", t.first, l ? "l" : ""); int w = lsize(t.second, l); long g = -1; try { g = (long)s.get_size("z"); } catch (std::exception &) {} if (w >= 0 && g != w) { why = mc::fmt("get_size of %s in %s is %ld, expected %d", l ? "l" : "z", t.first.c_str(), g, w); return false; } bool f = s.get_lua_result_raw("z").first; if (f != (w >= 0)) { why = mc::fmt("%s in %s reported as %s", l ? "l" : "z", t.first.c_str(), f ? "present" : "missing"); return false; } }
  for (auto &t : m.tabs) { try { if (s.get_table(t.first)["x"].as<int>() != data(t.second)["x"]) { why = "get_table(" + t.first + ") is another table"; return false; } } catch (std::exception &x) { why = "get_table(" + t.first + ") failed"; return false; } }
  if (!throws([&] { s.get_table("no such table"); })) { why = "get_table of an unknown table succeeded"; return false; }
  return true; }
static void registrations(int depth) {
  if (!mc::group("lua.register")) return; std::ofstream("tables.lua") << TABLES;
  struct Op { int kind; string a, b, c; }; std::vector<Op> A; // 0 value, 1 table
  for (const char *t : {"hydro", "mesh", "tabA", "tabB"}) for (const char *l : {"", "p"}) A.push_back({0, "x", t, l}); A.push_back({0, "suffix", "mesh", ""}); A.push_back({0, "suffix", "hydro", ""}); A.push_back({0, "mesh_type", "tabA", ""}); A.push_back({0, "mesh_type", "hydro", "q"}); A.push_back({0, "file", "hydro", "type"});
  for (const char *p : {"base_state", "hydro"}) for (const char *l : {"", "alt"}) A.push_back({1, "tabA", p, l}); A.push_back({1, "mesh", "hydro", "alt"}); A.push_back({1, "tabB", "tabA", ""}); A.push_back({1, "tabB", "base_state", "alt"}); A.push_back({1, "tabA", "mesh", ""});
  for (int n = 0; n <= depth; ++n) mc::product(std::vector<int>(n, A.size()), [&](const std::vector<int> &q) { if (!mc::next()) return; lua_source_t s("tables.lua"); LM m; string done, why; std::set<string> keys{"x"}; std::set<string> known{"hydro", "mesh", "prefix", "suffix", "output_freq", "CFL", "final_time", "max_steps", "mesh_type", "dimensions", "xmin", "xmax", "file", "ics_func"};
    for (int i = n; i-- > 0;) { const Op &o = A[q[i]]; done += mc::fmt("%s(%s,%s,%s) ", o.kind ? "table" : "value", o.a.c_str(), o.b.c_str(), o.c.c_str()); bool had = known.count(o.a); bool r;
      if (o.kind == 0) { if (!m.tabs.count(o.b)) return; r = s.register_value(o.a, o.b, o.c); m.vals[o.a] = {o.b, o.c.empty() ? o.a : o.c}; } // only tables that are loaded
      else { string lk = o.c.empty() ? o.a : o.c, path = o.b == "base_state" ? lk : m.tabs.count(o.b) ? m.tabs[o.b] + "." + lk : ""; if (!m.exists(path)) return; // registering a table that is not there is an error of the caller
        try { r = s.register_table(o.a, o.b, o.c); } catch (std::exception &x) { mc::fail(done + "failed although the table exists"); return; } m.tabs[o.a] = path; }
      known.insert(o.a); if (r != had) { mc::fail(mc::fmt("%s reported %d for displacing an earlier definition", done.c_str(), r)); return; } }
    if (!look(s, m, why)) mc::fail(done + ": " + why); string h; for (auto &t : m.tabs) h += t.first + t.second; for (auto &v : m.vals) h += v.first + v.second.first + v.second.second; mc::distinct(mc::hash(h)); });
}
// ---- Lua source: typed lookups in every order, also failing ones
static const char *TYPED = R"(
counter = 0
hydro = { i=7, neg=-3, r=0.1, s="te\0xt", e="", b=true, v={1,2,3}, ev={}, a={1.5,-2.5}, n={{1,2},{3,4}}, f=function(x) return x*2+1 end, g=function(x) return x,x+1 end, t={u=5}, mesh={} }
)";
static void typed(int depth) {
  if (!mc::group("lua.typed")) return; std::ofstream("typed.lua") << TYPED; const int N = 24;
  mc::product(std::vector<int>(depth, N), [&](const std::vector<int> &q) { if (!mc::next()) return; lua_source_t s("typed.lua"); for (const char *k : {"i", "neg", "r", "s", "e", "b", "v", "ev", "a", "n", "f", "g", "t", "no"}) s.register_value(k, "hydro");
    std::vector<Fn> fs; string done;
    for (int i = depth; i-- > 0;) { int o = q[i]; mc::trans(); done += std::to_string(o) + " "; bool ok = true; auto g = [&](auto v, const char *k, auto want) { decltype(v) x{}; try { ok = s.get_value(k, x) && x == decltype(v)(want); } catch (std::exception &) { ok = false; } }; auto bad = [&](auto v, const char *k) { auto x = v; ok = throws([&] { s.get_value(k, x); }) && x == v; };
      switch (o) {
        case 0: g(0, "i", 7); break; case 1: g(size_t(), "i", 7); break; case 2: g(0.0, "i", 7); break; case 3: g(string(), "i", "7"); break; case 4: g(0, "neg", -3); break; case 5: bad(size_t(9), "neg"); break; case 6: g(0.0, "r", 0.1); break; case 7: bad(9, "r"); break;
        case 8: g(string(), "s", string("te\0xt", 5)); break; case 9: g(string("z"), "e", ""); break; case 10: { bool b = false; try { ok = s.get_value("b", b) && b; } catch (std::exception &) { ok = false; } break; } case 11: bad(9, "b"); break; case 12: g(Vec(), "v", Vec{1, 2, 3}); break; case 13: g(Vec{1}, "ev", Vec{}); break; case 14: g(Arr(), "a", Arr{1.5, -2.5}); break; case 15: bad(Arr{9, 9}, "v"); break;
        case 16: g(std::vector<Vec>(), "n", std::vector<Vec>{{1, 2}, {3, 4}}); break; case 17: { embedded::lua_result_uptr_t u; ok = s.get_value("f", u) && u; if (ok) { fs.push_back(embedded::Lua_Func_Wrapper<Fn>(std::move(u))); } break; } case 18: for (auto &f : fs) ok = ok && f(2) == 5 && f(-1.5) == -2; break; case 19: { embedded::lua_result_uptr_t u; ok = s.get_value("g", u) && u && (*u)(4).as<int, int>() == std::make_tuple(4, 5); break; }
        case 20: { double x = 9; try { ok = !s.get_value("no", x) && x == 9; } catch (std::exception &) { ok = false; } break; } case 21: ok = s.get_size("v") == 3 && s.get_size("ev") == 0 && s.get_size("s") == 5; break; case 22: bad(9.0, "t"); break; case 23: bad(string("z"), "f"); break; }
      if (!ok) { mc::fail(mc::fmt("lookup %d gave a wrong answer after the lookups %s", o, done.c_str())); return; } }
    mc::distinct(fs.size() * 31 + q[0]); });
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  hardcoded(t ? 4 : 3); registrations(t ? 5 : 4); typed(t ? 4 : 3);
  mc::finish();
}
