// I04: the input object gives what the loaded scripts define; missing entries are errors that name them.
#include "mc.h"
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include "luaguard.h"
#include "ristra/initialization/input.h"
using std::string; using namespace ristra::initialization; using namespace ristra::embedded;
static const char *FILES[][2] = {
  {"a.lua", "x = 4  s = 'text'  b = false  z = 0  t = {k = 7, n = {k = 9, w = 'deep'}, [3] = 2.5}  function f(v) return v + x end"},
  {"b.lua", "x = -2  s = ''  b = true  t = {k = 1}  y = 11"},
  {"c.lua", "x = 100  s = nil  t = nil"},
  {"bad.lua", "x = 55  error('stop')  s = 'never'"},
  {"syntax.lua", "x = 66  this is no lua"},
  {"d.lua", "x = (x or 0) + 1  f = function(v) return 10 * v end"}};
// what the script defines
struct Model { std::optional<int> x, z, y; std::optional<string> s; std::optional<bool> b; int t = 0; /* 0 none, 1 deep, 2 flat */ int f = 0; string file;
  bool load(int k) { switch (k) {
    case 0: x = 4; s = "text"; b = false; z = 0; t = 1; f = 1; break; case 1: x = -2; s = ""; b = true; t = 2; y = 11; break; case 2: x = 100; s.reset(); t = 0; break;
    case 3: x = 55; return false; case 4: return false; case 5: x = x.value_or(0) + 1; f = 2; break; default: return false; }
    file = FILES[k][0]; return true; } };
template <class F> static auto tried(F f, string &err) -> std::optional<decltype(f())> { err.clear(); try { return f(); } catch (std::runtime_error &e) { err = e.what(); if (err.empty()) err = "?"; } catch (std::exception &e) { err = string("other ") + e.what(); } return {}; }
template <class T> static void key(const input_t &in, const string &k, const std::optional<T> &w, const string &h) {
  string e; auto named = [&] { return e.find(k) != string::npos; };
  auto chk = [&](const std::optional<T> &g, const char *how) { if (w) MC_CHECK(g && *g == *w, "%s by %s after %s", k.c_str(), how, h.c_str()); else MC_CHECK(!g && named(), "missing %s by %s %s (%s) after %s", k.c_str(), how, g ? "accepted" : "rejected", e.c_str(), h.c_str()); };
  MC_CHECK(in[k].empty() == !w && in[k].name() == k, "presence of %s after %s", k.c_str(), h.c_str());
  chk(tried([&] { return in.try_access(k).as<T>(); }, e), "try_access");
  chk(tried([&] { return inputs_try_access_as(in, k, T); }, e), "inputs_try_access_as");
  chk(tried([&] { auto r = inputs_try_access(in, k); return r.template as<T>(); }, e), "inputs_try_access");
  chk(tried([&] { return static_cast<T>(inputs_try_access(in, k)); }, e), "inputs_try_access cast"); auto *p = &in; chk(tried([&] { return inputs_try_access_as(*p, k, T); }, e), "inputs_try_access_as on a pointed-to object");
  { std::optional<T> g; try { g = in[k].template as<T>(); } catch (std::exception &) {} MC_CHECK(bool(g) == bool(w) && (!w || *g == *w), "%s by index after %s", k.c_str(), h.c_str()); }
  if constexpr (std::is_same_v<T, int>) { // as part of larger expressions
    auto ex = [&](auto f, int want, const char *how) { auto g = tried(f, e); if (w) MC_CHECK(g && *g == want, "%s in %s gives %d instead of %d after %s", k.c_str(), how, g ? *g : -999, want, h.c_str()); else MC_CHECK(!g && named(), "missing %s in %s after %s", k.c_str(), how, h.c_str()); };
    int v = w.value_or(0); bool yes = v > -1000;
    ex([&] { return 3 * inputs_try_access_as(in, k, int); }, 3 * v, "3 * x"); ex([&] { return inputs_try_access_as(in, k, int) * 3; }, 3 * v, "x * 3"); ex([&] { return 5 + inputs_try_access_as(in, k, int) + 1; }, v + 6, "5 + x + 1"); ex([&] { return -inputs_try_access_as(in, k, int); }, -v, "-x"); ex([&] { return int(!inputs_try_access_as(in, k, int)); }, !v, "!x"); ex([&] { return int(inputs_try_access_as(in, k, int) == 4); }, v == 4, "x == 4"); ex([&] { return yes ? inputs_try_access_as(in, k, int) : 0; }, v, "c ? x : 0"); ex([&] { return !yes ? 0 : inputs_try_access_as(in, k, int); }, v, "c ? 0 : x"); ex([&] { return inputs_try_access_as(in, k, int) - inputs_try_access_as(in, k, int); }, 0, "x - x"); ex([&] { return inputs_try_access(in, k).template as<int>() + 1; }, v + 1, "result + 1"); int a = 2; ex([&] { return a - inputs_try_access_as(in, k, int); }, a - v, "a - x"); }
}
static void all(const input_t &in, const Model &m, const string &h) {
  mc::trans(40); key<int>(in, "x", m.x, h); key<int>(in, "z", m.z, h); key<int>(in, "y", m.y, h); key<string>(in, "s", m.s, h); key<bool>(in, "b", m.b, h); key<int>(in, "missing", {}, h); key<string>(in, "X", {}, h);
  string e; auto t = in["t"]; MC_CHECK(t.empty() == (m.t == 0), "table after %s", h.c_str());
  if (m.t) { auto k = tried([&] { return 2 + lua_try_access_as(t, "k", int); }, e); MC_CHECK(k && *k == (m.t == 1 ? 9 : 3), "table entry after %s", h.c_str()); auto q = tried([&] { return lua_try_access_as(t, "none", int); }, e); MC_CHECK(!q && e.find("none") != string::npos && e.find("t") != string::npos, "missing table entry after %s", h.c_str());
    auto n = tried([&] { auto r = lua_try_access(t, "n"); return inputs_try_access_as(r, "w", string); }, e); MC_CHECK(bool(n) == (m.t == 1) && (!n || *n == "deep") && (n || e.find("n") != string::npos), "nested table after %s", h.c_str()); auto d = tried([&] { return -lua_try_access_as(in["t"], 3, double); }, e); MC_CHECK(bool(d) == (m.t == 1) && (!d || *d == -2.5), "numbered entry after %s", h.c_str()); }
  auto f = tried([&] { return in.try_access("f")(5).as<int>(); }, e); if (!m.f) MC_CHECK(!f && e.find("f") != string::npos, "missing function after %s", h.c_str()); else if (m.f == 2) MC_CHECK(f && *f == 50, "function after %s", h.c_str()); else MC_CHECK(m.x ? f && *f == 5 + *m.x : !f, "function after %s", h.c_str());
  MC_CHECK(in.filename() == m.file, "file name %s instead of %s after %s", in.filename().c_str(), m.file.c_str(), h.c_str()); }
struct Run { input_t &in; Model m; std::optional<lua_result_t> kept; std::optional<int> keptx; string h;
  static constexpr int N = 13; bool step(int o) { string e; switch (o) {
    case 0: case 1: case 2: case 3: case 4: case 5: { h += string("load ") + FILES[o][0] + "; "; Model b = m; bool ok = m.load(o), thrown = false; try { in.load(FILES[o][0]); } catch (std::exception &) { thrown = true; } MC_CHECK(thrown == !ok, "loading %s %s after %s", FILES[o][0], thrown ? "failed" : "succeeded", h.c_str()); return true; }
    case 6: { h += "load a missing file; "; bool thrown = false; try { in.load("nowhere.lua"); } catch (std::exception &) { thrown = true; } MC_CHECK(thrown, "missing file accepted"); return true; }
    case 7: h += "failed accesses; "; for (auto k : {"missing", "", "t.k"}) { bool th = false; try { in.try_access(k); } catch (std::exception &) { th = true; } MC_CHECK(th, "%s found", k); th = false; try { in[k]["q"]; } catch (std::exception &) { th = true; } MC_CHECK(th, "%s looked into", k); } return true;
    case 8: h += "keep x; "; if (!m.x) return false; kept.emplace(in["x"]); keptx = m.x; return true;
    case 9: h += "register; "; MC_CHECK(in.register_group("g", "title") && in.register_group("x", "again") && in.register_parameter<size_t>("g", "x", "m", 5) && in.register_parameter<double>("g", "y", "m", 2.5) && in.register_parameter<string>("g", "s", "m", string("default")) && in.register_parameter<float>("g", "z", "m", 1.f), "registration"); return true;
    case 10: h += "ill-typed accesses; "; for (auto k : {"s", "b", "t", "f"}) { bool th = false; try { inputs_try_access_as(in, k, int); } catch (std::exception &) { th = true; } MC_CHECK(th, "%s as a number", k); } return true;
    case 11: h += "call f; "; if (!m.f) return false; { string e2; auto f = tried([&] { return in["f"](1).as<int>(); }, e2); MC_CHECK(m.f == 2 ? f && *f == 10 : m.x ? f && *f == *m.x + 1 : !f, "call of f after %s", h.c_str()); } return true;
    case 12: h += "drop kept; "; if (!kept) return false; kept.reset(); keptx.reset(); return true; }
    return false; }
  void end() { for (int r = 0; r < 2; ++r) { all(in, m, h); if (kept) { int v = -999; try { v = kept->as<int>(); } catch (std::exception &) {} MC_CHECK(v == *keptx, "kept value is %d instead of %d after %s", v, *keptx, h.c_str()); } } } };
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  for (auto &f : FILES) std::ofstream(f[0]) << f[1];
  if (mc::group("history")) for (int n = 0; n <= (t ? 5 : 4); ++n) mc::product(std::vector<int>(n, Run::N), [&](const std::vector<int> &d) { if (!mc::next()) return; input_t in; Run r{in}; for (int o : d) { mc::trans(); if (!r.step(o)) return; } r.end(); mc::distinct(mc::hash(r.h)); mc::sample(r.h); });
  // the shared object: one object, whose content lasts
  if (mc::group("shared")) for (int last = 0; last < 6; ++last) { if (!mc::next()) continue; input_t &a = input_t::instance(), &b = input_t::instance(); MC_CHECK(&a == &b, "two shared objects"); Model m; string h = "shared: "; for (int k : {0, 1, 2, 0}) { m.load(k); a.load(FILES[k][0]); all(b, m, h += FILES[k][0]); } bool ok = m.load(last), th = false; try { b.load(FILES[last][0]); } catch (std::exception &) { th = true; } MC_CHECK(th == !ok, "loading into the shared object"); m.z = 0; all(input_t::instance(), m, h); a.load("c.lua"); }
  mc::finish();
}
