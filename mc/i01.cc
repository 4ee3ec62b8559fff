// I01: all histories of registering, providing, resolving, reading and clearing inputs.
#include "mc.h"
#include <array>
#include <cmath>
#include <fstream>
#include <iostream>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include "ristra/initialization/input_engine.h"
#include "ristra/initialization/init_value.h"
using std::string; using Arr = std::array<double, 2>; using Fn = std::function<double(double)>;
struct Traits { using types = std::tuple<double, string, Arr, size_t, Fn>; };
using Base = ristra::input_engine_t<Traits>;
struct Eng : Base {
  template <class T> std::set<string> failed() { return Base::get_failed_target_set<T>(); }
  template <class T> std::set<string> targets() { return Base::get_target_set<T>(); }
};
// values by code; every code gives different values
template <class T> struct V;
template <> struct V<double> { static double mk(int c) { return c + 0.25; } static bool eq(const double &v, int c) { return v == mk(c); } static constexpr const char *n = "d"; };
template <> struct V<string> { static string mk(int c) { return "value number " + std::to_string(c) + " with a text long enough to be on the heap"; } static bool eq(const string &v, int c) { return v == mk(c); } static constexpr const char *n = "s"; };
template <> struct V<Arr> { static Arr mk(int c) { return {c + 0.5, -c - 1.0}; } static bool eq(const Arr &v, int c) { return v == mk(c); } static constexpr const char *n = "r"; };
template <> struct V<size_t> { static size_t mk(int c) { return 100 + c; } static bool eq(const size_t &v, int c) { return v == mk(c); } static constexpr const char *n = "z"; };
template <> struct V<Fn> { static Fn mk(int c) { return [c](double x) { return x * 10 + c; }; } static bool eq(const Fn &v, int c) { return v && v(1.5) == 15 + c && v(-2) == -20 + c; } static constexpr const char *n = "f"; };
static const char *NM[3] = {"alpha", "beta", "gamma"};
static void script(const char *file, int which) { // which 1: alpha and beta; 2: alpha only, another value; 3: nothing; 4: beta only
  std::ofstream o(file); o << "hydro = { mesh = {},\n";
  for (int k = 0; k < 2; ++k) { if (which == 3 || (which == 2 && k) || (which == 4 && !k)) continue; int c = which * 100 + k; string n = NM[k];
    o << n << "_d=" << c << "+0.25, " << n << "_s='" << V<string>::mk(c) << "', " << n << "_r={" << c << "+0.5," << -c - 1 << "}, " << n << "_z=" << 100 + c << ", " << n << "_f=function(x) return x*10+" << c << " end,\n"; }
  o << "}\n";
}
struct Model { bool hcAtt = false; int lua = 0; std::map<int, int> hc; std::set<int> tg, fl; std::map<int, int> val; bool called = false;
  bool luaHas(int k) const { return lua == 1 ? k < 2 : lua == 2 ? k == 0 : lua == 4 ? k == 1 : false; }
  int find(int k) const { if (luaHas(k)) return lua * 100 + k; if (hcAtt) { auto i = hc.find(k); if (i != hc.end()) return i->second; } return -1; }
  uint64_t h() const { string s = mc::fmt("%d%d%d|", hcAtt, lua, called); for (auto &p : hc) s += mc::fmt("%d=%d,", p.first, p.second); for (int k : tg) s += mc::fmt("t%d", k); for (int k : fl) s += mc::fmt("f%d", k); for (auto &p : val) s += mc::fmt("v%d=%d", p.first, p.second); return mc::hash(s); } };
// an operation; kinds: 0 register k, 1 provide k=c, 2 withdraw k, 3 attach hard-coded, 4 detach it, 5 attach script c, 6 detach script, 7 resolve, 8 instant k, 9 clear, 10 register alpha and beta together
struct Op { int kind, k, c; };
static string str(const Op &o) { const char *n[] = {"register", "provide", "withdraw", "attach", "detach", "script", "noscript", "resolve", "instant", "clear", "register-set"}; return mc::fmt("%s(%s%s)", n[o.kind], o.kind == 0 || o.kind == 1 || o.kind == 2 || o.kind == 8 ? NM[o.k] : "", o.kind == 1 || o.kind == 5 ? mc::fmt(",%d", o.c).c_str() : ""); }
template <class T> struct Track { // one type followed through a history
  Model m; std::vector<std::pair<Fn, int>> kept;
  using R = ristra::hard_coded_source_t::registry<T>;
  static R &reg() { ristra::hard_coded_source_t s; return s.get_registry<T>(); }
  bool op(Eng &e, const Op &o, string &why) {
    switch (o.kind) {
      case 0: e.register_target<T>(NM[o.k]); m.tg.insert(o.k); break;
      case 10: { std::set<string> s{NM[0], NM[1]}; e.register_targets<T>(s); m.tg.insert(0); m.tg.insert(1); break; }
      case 1: { ristra::hard_coded_source_t s; s.set_registry<T>(R{{NM[o.k], V<T>::mk(o.c)}}); m.hc[o.k] = o.c; break; }
      case 2: reg().erase(NM[o.k]); m.hc.erase(o.k); break;
      case 8: { int w = m.find(o.k); try { auto &&v = e.get_instant_value<T>(NM[o.k]); if (w < 0) { why = mc::fmt("get_instant_value(%s) returned a value no source provides", NM[o.k]); return false; } if (!V<T>::eq(v, w)) { why = mc::fmt("get_instant_value(%s) returned another value than provided (%d)", NM[o.k], w); return false; } m.val[o.k] = w; } catch (std::exception &x) { if (w >= 0) { why = mc::fmt("get_instant_value(%s) failed: %s", NM[o.k], x.what()); return false; } } break; }
      default: break;
    }
    return true;
  }
  void resolved() { m.fl.clear(); for (int k : m.tg) { int w = m.find(k); if (w < 0) m.fl.insert(k); else m.val[k] = w; } m.called = true; }
  bool look(Eng &e, string &why) { mc::trans(); std::set<string> tg, fl; for (int k : m.tg) tg.insert(NM[k]); for (int k : m.fl) fl.insert(NM[k]);
    if (e.template targets<T>() != tg) { why = "set of targets"; return false; }
    if (e.template failed<T>() != fl) { why = mc::fmt("unresolved inputs named: %zu, expected %zu", e.template failed<T>().size(), fl.size()); for (auto &s : e.template failed<T>()) why += " " + s; return false; }
    for (int k = 0; k < 3; ++k) { auto i = m.val.find(k); bool has = i != m.val.end();
      if ((m.called || !has) && e.template resolved<T>(NM[k]) != has) { why = mc::fmt("resolved(%s) = %d", NM[k], !has); return false; }
      try { auto &&v = e.template get_value<T>(NM[k]); if (!has) { why = mc::fmt("get_value(%s) returned a value although none was resolved", NM[k]); return false; } if (!V<T>::eq(v, i->second)) { why = mc::fmt("get_value(%s) is not the provided value %d", NM[k], i->second); return false; }
        if constexpr (std::is_same_v<T, Fn>) { if (kept.empty() || kept.back().second != i->second) kept.push_back({v, i->second}); } }
      catch (std::exception &x) { if (has) { why = mc::fmt("get_value(%s) failed: %s", NM[k], x.what()); return false; } } }
    for (auto &f : kept) if (!V<Fn>::eq(f.first, f.second)) { why = mc::fmt("function %d obtained earlier no longer computes its result", f.second); return false; }
    return true; }
};
static ristra::lua_source_t *mkLua(int which, const char *n1, const char *n2) { auto *l = new ristra::lua_source_t("in" + std::to_string(which) + ".lua");
  for (int k = 0; k < 2; ++k) { l->register_value(NM[k], "hydro", string(NM[k]) + "_" + n1); } return l; }
template <class T> static void reset(Eng &e) { Track<T>::reg().clear(); }
template <class T> static void history(const std::vector<Op> &pre, const std::vector<Op> &seq) {
  Eng e; e.clear_registry(); reset<T>(e); Track<T> t; 
  string done, why;
  auto run = [&](const Op &o, bool watch) { done += str(o) + " ";
    bool ok = true;
    switch (o.kind) {
      case 3: e.register_hard_coded_source(new ristra::hard_coded_source_t); t.m.hcAtt = true; break;
      case 4: e.register_hard_coded_source(nullptr); t.m.hcAtt = false; break;
      case 5: e.register_lua_source(mkLua(o.c, V<T>::n, "")); t.m.lua = o.c; break;
      case 6: e.register_lua_source(nullptr); t.m.lua = 0; break;
      case 7: { bool r = e.resolve_inputs(); t.resolved(); if (r != t.m.fl.empty()) { why = mc::fmt("resolve_inputs returned %d with %zu inputs unresolved", r, t.m.fl.size()); ok = false; } break; }
      case 9: e.clear_registry(); t.m.tg.clear(); t.m.fl.clear(); t.m.val.clear(); t.m.called = false; break;
      default: ok = t.op(e, o, why); }
    if (e.has_lua_source() != (t.m.lua != 0) || e.has_hard_coded_source() != t.m.hcAtt) { why = "has_*_source"; ok = false; }
    if (ok && watch) ok = t.look(e, why);
    if (!ok) mc::fail(mc::fmt("<%s> after %s: %s", V<T>::n, done.c_str(), why.c_str()));
    return ok; };
  for (auto &o : pre) if (!run(o, false)) return;
  for (size_t i = 0; i < seq.size(); ++i) { if (!run(seq[i], i + 1 == seq.size())) return; } mc::distinct(t.m.h()); // prefixes are histories of their own
}
template <class T> static void single(int depth) {
  if (!mc::group(mc::fmt("single.%s", V<T>::n))) return;
  std::vector<Op> A{{0, 0, 0}, {0, 1, 0}, {10, 0, 0}, {1, 0, 1}, {1, 0, 2}, {1, 1, 1}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 1}, {5, 0, 2}, {5, 0, 4}, {6, 0, 0}, {7, 0, 0}, {8, 0, 0}, {8, 2, 0}, {9, 0, 0}};
  mc::product({3, 3, 2, 4, 2}, [&](const std::vector<int> &d) { std::vector<Op> pre; // initial configurations
    if (d[3] == 3 && d[1]) return; if (!mc::thorough() && (d[3] % 2 || (d[1] && !d[2]))) return; if (d[0] == 1) pre.push_back({0, 0, 0}); if (d[0] == 2) pre.push_back({10, 0, 0}); if (d[1]) pre.push_back({1, 0, 3}); if (d[1] == 2) pre.push_back({1, 1, 4}); if (d[2]) pre.push_back({3, 0, 0}); if (d[3]) pre.push_back({5, 0, d[3]}); if (d[4]) pre.push_back({7, 0, 0});
    for (int n = 1; n <= depth; ++n) mc::product(std::vector<int>(n, A.size()), [&](const std::vector<int> &q) { if (!mc::next()) return; std::vector<Op> s; for (int i = n; i-- > 0;) s.push_back(A[q[i]]); history<T>(pre, s); mc::sample("history explored"); }); });
}
// two types side by side, same names: each follows its own model
template <class T, class U> static void pairs(int depth) {
  if (!mc::group(mc::fmt("pair.%s%s", V<T>::n, V<U>::n))) return;
  std::vector<std::pair<int, Op>> A; for (int w = 0; w < 2; ++w) { A.push_back({w, {0, 0, 0}}); A.push_back({w, {1, 0, 1 + w}}); A.push_back({w, {2, 0, 0}}); A.push_back({w, {8, 0, 0}}); } A.push_back({0, {7, 0, 0}}); A.push_back({0, {9, 0, 0}}); A.push_back({0, {4, 0, 0}}); A.push_back({1, {0, 1, 0}});
  for (int n = 1; n <= depth; ++n) mc::product(std::vector<int>(n, A.size()), [&](const std::vector<int> &q) { if (!mc::next()) return; Eng e; e.clear_registry(); reset<T>(e); reset<U>(e); Track<T> t; Track<U> u; t.m.hcAtt = u.m.hcAtt = true; e.register_hard_coded_source(new ristra::hard_coded_source_t); string done, why; bool ok = true;
    for (int i = n; ok && i-- > 0;) { auto &a = A[q[i]]; const Op &o = a.second; done += mc::fmt("%s<%s> ", str(o).c_str(), a.first ? V<U>::n : V<T>::n);
      if (o.kind == 4) { e.register_hard_coded_source(nullptr); t.m.hcAtt = u.m.hcAtt = false; }
      else if (o.kind == 7) { bool r = e.resolve_inputs(); t.resolved(); u.resolved(); if (r != (t.m.fl.empty() && u.m.fl.empty())) { why = mc::fmt("resolve_inputs returned %d", r); ok = false; } }
      else if (o.kind == 9) { e.clear_registry(); for (Model *m : {&t.m, &u.m}) { m->tg.clear(); m->fl.clear(); m->val.clear(); m->called = false; } }
      else ok = a.first ? u.op(e, o, why) : t.op(e, o, why);
      if (ok && i == 0) ok = t.look(e, why) && u.look(e, why); mc::distinct(t.m.h() * 31 + u.m.h()); }
    if (!ok) mc::fail(mc::fmt("after %s: %s", done.c_str(), why.c_str())); });
}
// declared initialisation values
template <class T> static void values(int depth) {
  if (!mc::group(mc::fmt("value.%s", V<T>::n))) return;
  using IV = ristra::init_value_t<T, Eng>; const int NO = 10; // ops: 0-2 provide 1,2 (valid) 7 (invalid); 3 withdraw; 4 resolve; 5 get; 6 valid; 7 resolved; 8 clear+declare again; 9 copy the declared value
  const std::vector<std::vector<int>> PRE{{}, {0, 4, 5}, {2, 4, 5}, {0, 4, 6}, {2, 4, 6}, {5}}; // histories every sequence also continues
  for (int ns = 0; ns < 4; ++ns) for (int other = 0; other < 2; ++other) for (size_t pr = 0; pr < PRE.size(); ++pr) { if ((ns > 1 || other) && pr > 2) continue; const int len = depth - (pr || ns > 1); mc::product(std::vector<int>(len, NO), [&](const std::vector<int> &q0) { if (!mc::next()) return; std::vector<int> q(q0); for (size_t i = PRE[pr].size(); i-- > 0;) q.push_back(PRE[pr][i]);
    Eng e; e.clear_registry(); reset<T>(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); const string nm1 = ns == 2 ? "al:pha" : ns == 3 ? "space:alpha" : "alpha", key = ns ? "space:" + nm1 : nm1; std::unique_ptr<IV> iv; auto mk = [&] { iv.reset(new IV(nm1, [](T const &v) { return !V<T>::eq(v, 7); }, ns ? "space" : "")); }; mk(); std::unique_ptr<IV> two; if (other) two.reset(new IV("beta"));
    int src = -1, val = -1; string done; auto bad = [&](const string &w) { mc::fail(mc::fmt("<%s>%s after %s: %s", V<T>::n, ns ? " in a namespace" : "", done.c_str(), w.c_str())); };
    for (size_t i = q.size(); i-- > 0;) { int o = q[i]; mc::trans(); const char *nm[] = {"provide 1", "provide 2", "provide 7", "withdraw", "resolve", "get", "valid", "resolved", "declare again", "copy"}; done += string(nm[o]) + "; ";
      try { switch (o) {
        case 0: case 1: case 2: { int c = o == 2 ? 7 : o + 1; ristra::hard_coded_source_t s; s.set_registry<T>({{key, V<T>::mk(c)}}); src = c; break; }
        case 3: Track<T>::reg().erase(key); src = -1; break;
        case 4: { bool r = e.resolve_inputs(); if (src >= 0) val = src; if (r != (src >= 0 && !other)) return bad(mc::fmt("resolve_inputs returned %d", r)); break; }
        case 5: { bool thrown = false; try { auto &&v = iv->get(); if (val >= 0 && val != 7 && !V<T>::eq(v, val)) return bad("get() returned another value"); } catch (std::exception &) { thrown = true; } if (thrown != (val < 0 || val == 7)) return bad(thrown ? "get() failed for a valid value" : "get() returned a value that is missing or invalid"); if (!thrown && iv->status() != ristra::init_val_status_t::valid) return bad("status after get() is " + ristra::init_val_status_name(iv->status())); if (val == 7 && iv->status() != ristra::init_val_status_t::invalid) return bad("status after a failed get() is " + ristra::init_val_status_name(iv->status())); break; }
        case 6: if (iv->valid() != (val >= 0 && val != 7)) return bad(mc::fmt("valid() = %d", !(val >= 0 && val != 7))); if (val >= 0 && iv->status() != (val != 7 ? ristra::init_val_status_t::valid : ristra::init_val_status_t::invalid)) return bad("status after valid() is " + ristra::init_val_status_name(iv->status())); break;
        case 7: if (iv->resolved() != (val >= 0)) return bad(mc::fmt("resolved() = %d", val < 0)); break;
        case 8: e.clear_registry(); mk(); if (other) two.reset(new IV("beta")); val = -1; if (iv->status() != ristra::init_val_status_t::registered) return bad("status of a declared value"); break;
        case 9: iv.reset(new IV(*iv)); break; } }
      catch (std::exception &x) { return bad(string("unexpected error ") + x.what()); }
      mc::distinct(mc::hash(mc::fmt("%d %d %d", src, val, (int)iv->status()))); } }); }
}
// larger sets of inputs: every number of targets, every period of which ones are provided, registered one by one or as a set, resolved twice
template <class T> static void many(int upto) {
  if (!mc::group(mc::fmt("many.%s", V<T>::n))) return; using R = ristra::hard_coded_source_t::registry<T>;
  for (int n = 0; n <= upto; ++n) for (int per = 1; per <= 5; ++per) for (int ph = 0; ph < per; ++ph) for (int inv = 0; inv < 2; ++inv) for (int how = 0; how < 3; ++how) { if (!mc::next()) continue;
    Eng e; e.clear_registry(); reset<T>(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); std::set<string> all, fl; std::vector<string> nm; for (int i = 0; i < n; ++i) nm.push_back("input" + std::to_string(i)); bool ok = true; string why;
    for (int round = 0; ok && round < 2; ++round) { R r; fl.clear(); for (int i = 0; i < n; ++i) if ((((i + round) % per == ph)) != bool(inv)) r[nm[i]] = V<T>::mk(i + 1000 * round); else fl.insert(nm[i]); Track<T>::reg().clear(); ristra::hard_coded_source_t s; if (how == 2) for (auto &p : r) s.set_registry<T>(R{{p.first, p.second}}); else s.set_registry<T>(r);
      if (!round) { for (auto &x : nm) { all.insert(x); if (how != 1) e.register_target<T>(x); } if (how == 1) e.register_targets<T>(all); }
      mc::trans(n + 1); bool res = e.resolve_inputs(); if (res != fl.empty()) { why = mc::fmt("resolve_inputs returned %d with %zu of %d inputs unresolved", res, fl.size(), n); ok = false; }
      if (ok && e.template failed<T>() != fl) { why = mc::fmt("%zu unresolved inputs named, expected %zu", e.template failed<T>().size(), fl.size()); ok = false; } if (ok && e.template targets<T>() != all) { why = "set of targets"; ok = false; }
      for (int i = 0; ok && i < n; ++i) { int w = !fl.count(nm[i]) ? i + 1000 * round : -1; if (w < 0 && round && ((i % per == ph) != bool(inv))) w = i; // the value of the first resolution stays
        bool has = w >= 0; if (e.template resolved<T>(nm[i]) != has) { why = mc::fmt("resolved(%s) = %d", nm[i].c_str(), !has); ok = false; } if (has && ok) { auto &&v = e.template get_value<T>(nm[i]); if (!V<T>::eq(v, w)) { why = mc::fmt("get_value(%s) is not the provided value", nm[i].c_str()); ok = false; } } }
      mc::distinct(mc::hash(mc::fmt("%d %d %d %zu", n, per, ph, fl.size()))); }
    if (!ok) mc::fail(mc::fmt("<%s> %d inputs, every %d-th from %d %s, way %d: %s", V<T>::n, n, per, ph, inv ? "left out" : "provided", how, why.c_str())); mc::sample("set of inputs resolved"); }
}
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  for (int w = 1; w <= 4; ++w) script(("in" + std::to_string(w) + ".lua").c_str(), w);
  single<double>(3); single<Fn>(t ? 3 : 2); single<string>(t ? 3 : 2); single<Arr>(t ? 3 : 2); single<size_t>(t ? 3 : 2);
  pairs<double, string>(t ? 6 : 4); pairs<double, Fn>(t ? 6 : 4); pairs<size_t, double>(t ? 5 : 4); pairs<Arr, Fn>(t ? 5 : 4);
  many<double>(t ? 70 : 20); many<string>(t ? 70 : 20); many<Fn>(t ? 70 : 20);
  values<double>(t ? 6 : 4); values<string>(t ? 6 : 4); values<Fn>(t ? 6 : 4); values<Arr>(t ? 5 : 4);
  mc::finish();
}
