// D01: contract checks fire exactly when enabled and violated; REQ and ACT say what the build options asked for.
#include "mc.h"
#include <cmath>
#include <climits>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <string>
#include "ristra/assertions/dbc.h"
using std::string; namespace D = ristra::assertions::dbc;
enum { NOTHING = 0, NOTIFY = 1, THROW = 2 };
static const char *ACTN[] = {"nothing", "notify", "throw"};
struct Obs { bool thrown = false, logic = false; string what, out, cerr; int value = -1; }; // value: 0/1 result, -1 none
static int evals = 0; template <class T> static T ev(T v) { ++evals; return v; }
template <class F> static Obs observe(F f) { Obs o; std::stringstream s, c; auto *old = D::p_str; auto *pc = std::cerr.rdbuf(c.rdbuf()); D::p_str = &s; evals = 0; try { o.value = f(); } catch (std::logic_error &e) { o.thrown = o.logic = true; o.what = e.what(); } catch (std::exception &e) { o.thrown = true; o.what = e.what(); } D::p_str = old; std::cerr.rdbuf(pc); o.out = s.str(); o.cerr = c.str(); return o; }
// what must be seen: fired = the check is enabled and its relation does not hold
static void expect(const Obs &o, bool fired, int value, const string &text, int line, const char *func, const string &h, int act = ACT) {
  bool thr = fired && act == THROW, note = fired && act == NOTIFY;
  MC_CHECK(o.thrown == thr, "%s: %s", h.c_str(), o.thrown ? "throws" : "does not throw"); if (thr) MC_CHECK(o.logic, "%s: other exception type", h.c_str());
  MC_CHECK(o.cerr.empty(), "%s: writes to the error stream although another is set", h.c_str()); MC_CHECK(note || o.out.empty(), "%s: writes '%s'", h.c_str(), o.out.c_str()); string m = thr ? o.what : o.out;
  if (thr || note) { string loc = string(__FILE__) + ":" + std::to_string(line) + ":" + func; MC_CHECK(m.find(loc) != string::npos, "%s: location missing in '%s'", h.c_str(), m.c_str()); MC_CHECK(m.find(text) != string::npos, "%s: '%s' missing in '%s'", h.c_str(), text.c_str(), m.c_str()); }
  if (!thr && value >= 0) MC_CHECK(o.value == value, "%s: value %d", h.c_str(), o.value); }
static void expectEvals(int want, const string &h) { MC_CHECK(evals == want, "%s: %d evaluations instead of %d", h.c_str(), evals, want); }
#define LINE_FN line = __LINE__; fn = __FUNCTION__
static void basic() { for (int c = 0; c < 2; ++c) for (int txt = 0; txt < 4; ++txt) for (int which = 0; which < 4; ++which) { if (!mc::next()) continue; string d = txt == 0 ? "a description" : txt == 1 ? "" : txt == 2 ? "odd 'chars' %s %n \n" : string(5000, 'q'); int line = 0; const char *fn = ""; static const char *nm[] = {"Require", "Check", "Ensure", "Insist"}; string h = string(nm[which]) + (c ? "(true)" : "(false)");
      Obs o = observe([&] { switch (which) { case 0: LINE_FN; Require(ev(c) != 0, d); break; case 1: LINE_FN; Check(ev(c) != 0, d); break; case 2: LINE_FN; Ensure(ev(c) != 0, d); break; case 3: LINE_FN; Insist(ev(c) != 0, d); break; } return -1; });
      bool en = which == 3 || REQ; expect(o, en && !c, -1, d, line, fn, h); expectEvals(en ? 1 : 0, h); mc::distinct(mc::hash(h + d)); } }
template <class T> static string sh(const T &v) { std::ostringstream s; s << v; return s.str(); }
template <class T> static void compare(const char *tn, const std::vector<T> &vs) {
  for (auto &x : vs) for (auto &y : vs) { if (!mc::next()) continue; string h0 = string(tn) + " " + sh(x) + "," + sh(y); T left = x, right = y; int line = 0; const char *fn = ""; Obs o; int n = 2;
    o = observe([&] { bool r; LINE_FN; r = Equal(left, right); return r; }); expect(o, REQ && !(x == y), x == y, "left", line, fn, "Equal " + h0); if (REQ && !(x == y) && ACT != NOTHING) MC_CHECK((o.what + o.out).find("right") != string::npos, "Equal: operand name missing");
    o = observe([&] { bool r; LINE_FN; r = NotEqual(left, right); return r; }); expect(o, REQ && !(x != y), x != y, "left", line, fn, "NotEqual " + h0);
    o = observe([&] { bool r; LINE_FN; r = GreaterThan(left, right); return r; }); expect(o, REQ && !(x > y), x > y, "left", line, fn, "GreaterThan " + h0);
    o = observe([&] { bool r; LINE_FN; r = GreaterEqual(left, right); return r; }); expect(o, REQ && !(x >= y), x >= y, "left", line, fn, "GreaterEqual " + h0);
    o = observe([&] { bool r; LINE_FN; r = LessThan(left, right); return r; }); expect(o, REQ && !(x < y), x < y, "left", line, fn, "LessThan " + h0);
    o = observe([&] { bool r = Equal(ev(left), ev(right)); return r; }); expectEvals(n, "Equal " + h0); o = observe([&] { bool r = NotEqual(ev(left), ev(right)); return r; }); expectEvals(n, "NotEqual " + h0); o = observe([&] { bool r = GreaterThan(ev(left), ev(right)); return r; }); expectEvals(n, "GreaterThan " + h0); o = observe([&] { bool r = GreaterEqual(ev(left), ev(right)); return r; }); expectEvals(n, "GreaterEqual " + h0); o = observe([&] { bool r = LessThan(ev(left), ev(right)); return r; }); expectEvals(n, "LessThan " + h0);
    for (auto &z : vs) { T lo = y, hi = z; string h = "InOpenRange " + h0 + "," + sh(z); bool w = x > y && x < z; o = observe([&] { bool r; LINE_FN; r = InOpenRange(left, lo, hi); return r; }); expect(o, REQ && !w, w, "left", line, fn, h); if (REQ) { o = observe([&] { bool r = InOpenRange(ev(left), ev(lo), ev(hi)); return r; }); expectEvals(3, h); } mc::trans(); }
    { std::set<T> s; for (auto &z : vs) if (z == z && z < y) s.insert(z); bool in = s.count(x) > 0; o = observe([&] { bool r; LINE_FN; r = OneOf(left, s); return r; }); expect(o, REQ && !in, REQ ? in : 1, "left", line, fn, "OneOf " + h0); }
    mc::trans(11); mc::distinct(mc::hash(h0)); } }
// membership in every kind of container that can count; locations with large line numbers
static void members() { if (mc::group("members")) for (int x = -1; x <= 6; ++x) for (int n = 0; n < 4; ++n) { if (!mc::next()) continue; std::multiset<int> ms; std::map<int, string> mp; std::unordered_set<int> us; std::unordered_multiset<int> um; std::multimap<int, int> mm; for (int i = 0; i < 6; i += 2) { for (int k = 0; k < n; ++k) { ms.insert(i); mp[i] = "v"; us.insert(i); um.insert(i); mm.insert({i, k}); } }
    bool in = n && x >= 0 && x < 6 && x % 2 == 0; int left = x, line = 0; const char *fn = ""; Obs o; string h = mc::fmt("OneOf %d with %d occurrences, ", x, n); int wv = REQ ? in : 1;
    o = observe([&] { bool r; LINE_FN; r = OneOf(left, ms); return r; }); expect(o, REQ && !in, wv, "left", line, fn, h + "multiset"); o = observe([&] { bool r; LINE_FN; r = OneOf(left, mp); return r; }); expect(o, REQ && !in, wv, "left", line, fn, h + "map"); o = observe([&] { bool r; LINE_FN; r = OneOf(left, us); return r; }); expect(o, REQ && !in, wv, "left", line, fn, h + "unordered_set"); o = observe([&] { bool r; LINE_FN; r = OneOf(left, um); return r; }); expect(o, REQ && !in, wv, "left", line, fn, h + "unordered_multiset"); o = observe([&] { bool r; LINE_FN; r = OneOf(left, mm); return r; }); expect(o, REQ && !in, wv, "left", line, fn, h + "multimap"); mc::trans(5); mc::distinct(mc::hash(h)); }
  if (mc::group("lines")) for (int k = 0; k < 9; ++k) for (int which = 0; which < 3; ++which) { if (!mc::next()) continue; int line = 0, left = 1, right = 2; const char *fn = __FUNCTION__; auto at = [&](int l, auto f) { line = l; Obs o = observe([&] { f(); return -1; }); expect(o, which == 0 || REQ, -1, which == 2 ? "left" : "at a line", l, "operator()", mc::fmt("check %d at line %d", which, l)); }; (void)fn;
#define AT(L, ...) case L: at(CUR, [&] { if (which == 0) { Insist(false, "at a line"); } else if (which == 1) { Require(false, "at a line"); } else { Equal(left, right); } }); break;
    switch (k) {
#define CUR __LINE__
#line 127
      AT(0)
#line 128
      AT(1)
#line 255
      AT(2)
#line 256
      AT(3)
#line 4096
      AT(4)
#line 32768
      AT(5)
#line 65536
      AT(6)
#line 1000003
      AT(7)
#line 2147483646
      AT(8)
#line 60
    } mc::trans(); mc::distinct(mc::hash(mc::fmt("line %d %d", k, which))); } }
// sequences: checks are independent of one another, streams and actions can be switched at run time
static void sequences(bool t) { if (!mc::group("sequences")) return; mc::product(std::vector<int>(t ? 5 : 4, 12), [&](const std::vector<int> &d) { if (!mc::next()) return; std::stringstream s[2]; auto *old = D::p_str; int cur = 0; D::p_str = &s[0]; auto oldact = D::dbc_action; int act = ACT; string want[2], h; int nthrow = 0, wthrow = 0, rec = 0, wrec = 0; string rtext; auto *pc = std::cerr.rdbuf(nullptr); std::cerr.clear();
    auto fire = [&](const string &txt) { if (act == NOTIFY) want[cur] += txt + ";"; else if (act == THROW) ++wthrow; else if (act == 3) ++wrec; };
    for (int op : d) { h += std::to_string(op) + " "; mc::trans(); try { switch (op) {
        case 0: Insist(true, "I0"); break; case 1: if (1) fire("I1"); Insist(false, "I1"); break; case 2: if (REQ) fire("R2"); Require(false, "R2"); break; case 3: Require(true, "R3"); break;
        case 4: { int abc = 4; if (REQ) fire("abc"); Equal(abc, 5); break; } case 5: { int abc = 5; Equal(abc, 5); break; } case 6: if (REQ) fire("E6"); Ensure(1 > 2, "E6"); break;
        case 7: cur ^= 1; D::p_str = &s[cur]; break; case 8: D::dbc_action = D::throw_exception; act = THROW; break; case 9: D::dbc_action = D::notify; act = NOTIFY; break; case 10: D::dbc_action = D::do_nothing; act = NOTHING; break; case 11: D::dbc_action = [&](const string &c, const char *, const char *, int) { ++rec; }; act = 3; break; } } catch (std::logic_error &) { ++nthrow; } }
    D::p_str = old; D::dbc_action = oldact; std::cerr.rdbuf(pc); std::cerr.clear(); MC_CHECK(nthrow == wthrow, "%d exceptions instead of %d: %s", nthrow, wthrow, h.c_str()); MC_CHECK(rec == wrec, "own action called %d times instead of %d: %s", rec, wrec, h.c_str());
    for (int k = 0; k < 2; ++k) { string got = s[k].str(); size_t p = 0; int n = 0; for (size_t a = 0; a < want[k].size();) { size_t b = want[k].find(';', a); string w = want[k].substr(a, b - a); p = got.find(w, p); MC_CHECK(p != string::npos, "message %s missing or out of order on stream %d: %s", w.c_str(), k, h.c_str()); if (p == string::npos) break; p += w.size(); a = b + 1; ++n; } int lines = 0; for (char ch : got) lines += ch == '\n'; MC_CHECK(lines == n || p == string::npos, "%d lines instead of %d on stream %d: %s", lines, n, k, h.c_str()); }
    mc::distinct(mc::hash(h)); }); }
struct Early { bool thrown = false; Early() { std::stringstream s; auto *o = D::p_str; D::p_str = &s; try { Insist(false, "early"); } catch (std::logic_error &) { thrown = true; } D::p_str = o ? o : &std::cerr; } } early;
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach();
  if (mc::group("options") && mc::next()) {
#ifdef RISTRA_REQUIRE_ON
    bool on = true;
#else
    bool on = false;
#endif
    MC_CHECK(on == bool(REQ), "the build option for contract checks (%d) gives %d", REQ, on); MC_CHECK(early.thrown == (ACT == THROW), "action before main: %s asked for", ACTN[ACT]); }
  if (mc::group("default stream") && mc::next()) { MC_CHECK(D::p_str == &std::cerr, "messages go elsewhere by default"); std::stringstream c; auto *pc = std::cerr.rdbuf(c.rdbuf()); try { Insist(false, "DEFAULTSTREAM"); } catch (std::logic_error &) {} std::cerr.rdbuf(pc); MC_CHECK((c.str().find("DEFAULTSTREAM") != string::npos) == (ACT == NOTIFY), "notification on the error stream"); }
  if (mc::group("basic")) basic();
  double inf = INFINITY, nan = NAN; if (mc::group("compare.int")) compare<int>("int", {-2, -1, 0, 1, 2, INT_MAX, INT_MIN}); if (mc::group("compare.double")) compare<double>("double", {-inf, -1, -0., 0, 5e-324, 1, 1 + 2.2e-16, inf, nan}); if (mc::group("compare.unsigned")) compare<unsigned>("unsigned", {0u, 1u, 2u, UINT_MAX}); if (mc::group("compare.size")) compare<size_t>("size_t", {0ul, 1ul, (size_t)-1, 1ul << 63}); if (mc::group("compare.string")) compare<string>("string", {"", "a", "b", "ab", "B"}); if (mc::group("compare.char")) compare<char>("char", {'a', 'b', 'c', '\xff'});
  if (mc::group("action arguments")) for (int k = 0; k < 8; ++k) { if (!mc::next()) continue; auto oldact = D::dbc_action; string c; string f, g; int l = 0, n = 0; D::dbc_action = [&](const string &cc, const char *ff, const char *gg, int ll) { c = cc; f = ff; g = gg; l = ll; ++n; }; int line = 0, x = 3; const char *fn = ""; switch (k) { case 0: LINE_FN; Require(x == 4, "T"); break; case 1: LINE_FN; Check(x == 4, "T"); break; case 2: LINE_FN; Ensure(x == 4, "T"); break; case 3: LINE_FN; Insist(x == 4, "T"); break; case 4: LINE_FN; Equal(x, 4); break; case 5: LINE_FN; LessThan(x, 3); break; case 6: LINE_FN; GreaterThan(x, 3); break; case 7: LINE_FN; GreaterEqual(x, 4); break; } D::dbc_action = oldact; bool en = k == 3 || REQ; MC_CHECK(n == (en ? 1 : 0), "own action called %d times", n); if (n) { MC_CHECK(f == __FILE__ && g == fn && l == line, "own action got %s %s %d", f.c_str(), g.c_str(), l); MC_CHECK(k < 4 ? c == "T" : c.find("x") == 0, "own action got the condition '%s'", c.c_str()); } }
  members(); sequences(t);
  mc::finish();
}
