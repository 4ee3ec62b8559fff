// I03: command lines of registered, unknown and malformed arguments, parsed repeatedly.
#include "mc.h"
#include <iostream>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include "ristra/initialization/arguments.h"
using std::string; using namespace ristra::initialization;
// ---- model -------------------------------------------------------------------
// kinds: 0 valued option with the value attached, 1 valued option taking the next token, 2 flag, 3 ignored (unknown), 4 plain token, 5 always an error, 6 terminator
struct Tok { const char *s; int k; const char *opt; const char *val; };
static const std::vector<Tok> ALL = {{"--number=3", 0, "number", "3"}, {"--number", 1, "number", 0}, {"-n", 1, "number", 0}, {"-n7", 0, "number", "7"}, {"--numb=-4", 0, "number", "-4"}, {"--number=x3", 0, "number", "x3"}, {"--name=abc", 0, "name", "abc"}, {"--name", 1, "name", 0}, {"-sxyz", 0, "name", "xyz"}, {"--name=a=b", 0, "name", "a=b"}, {"--numeric=2.5", 0, "numeric", "2.5"}, {"-m", 1, "numeric", 0}, {"--num=4", 5, 0, 0}, {"--help", 2, "help", 0}, {"-h", 2, "help", 0}, {"--verbose", 2, "verbose", 0}, {"-v", 2, "verbose", 0}, {"--verb", 2, "verbose", 0}, {"--verbose=1", 5, 0, 0}, {"--unknown", 3, 0, 0}, {"--unknown=3", 3, 0, 0}, {"-x", 3, 0, 0}, {"5", 4, 0, 0}, {"word", 4, 0, 0}, {"1e3", 4, 0, 0}, {"--", 6, 0, 0}, {"--big=99999999999", 3, 0, 0}};
struct Out { bool skip = false, error = false; std::map<string, string> v; };
static bool goodInt(const string &s) { size_t i = s[0] == '-'; if (i == s.size()) return false; for (; i < s.size(); ++i) if (!isdigit(s[i])) return false; return s.size() < 10; }
static bool goodReal(const string &s) { char *e; strtod(s.c_str(), &e); return !*e && !s.empty(); }
static Out model(const std::vector<const Tok *> &a) { Out o; for (size_t i = 0; i < a.size(); ++i) { const Tok &t = *a[i]; string val; switch (t.k) { case 6: return o; // the rest is positional
      case 5: o.error = true; break; case 3: case 4: continue; case 2: if (o.v.count(t.opt)) o.error = true; o.v[t.opt] = ""; continue; case 1: if (i + 1 == a.size()) { o.error = true; continue; } if (a[i + 1]->k != 4) { o.skip = true; return o; } val = a[++i]->s; break; case 0: val = t.val; }
    if (t.k == 5) continue; if (o.v.count(t.opt)) o.error = true; o.v[t.opt] = val; if (!strcmp(t.opt, "number") && !goodInt(val)) o.error = true; if (!strcmp(t.opt, "numeric") && !goodReal(val)) o.error = true; } return o; }
// ---- registration orders -------------------------------------------------------
static void reg(command_line_arguments_t &c, int order) {
  auto help = [&] { c.register_argument("general", "help,h", "Print the HELPTEXT."); }; auto num = [&](const char *g) { c.register_argument<int>(g, "number,n", "The NUMBERTEXT."); }; auto name = [&](const char *g) { c.register_argument<string>(g, "name,s", "The NAMETEXT."); }; auto verb = [&](const char *g) { c.register_argument(g, "verbose,v", "The VERBOSETEXT."); }; auto nmr = [&](const char *g) { c.register_argument<double>(g, "numeric,m", "The NUMERICTEXT."); };
  switch (order) { case 0: c.register_group("general", "General options"); c.register_group("other", "Other options"); help(); num("general"); name("general"); verb("other"); nmr("other"); break;
    case 1: nmr("zz"); verb("aa"); name("mm"); num("aa"); help(); break; case 2: help(); num("one"); name("two"); verb("three"); nmr("four"); c.register_group("two", "late"); break; case 3: c.register_group("x", "X"); nmr("x"); num("x"); name("x"); verb("x"); c.register_group("empty", "Empty"); help(); break; } }
struct Cap { std::stringstream o, e; std::streambuf *po, *pe; Cap() { po = std::cout.rdbuf(o.rdbuf()); pe = std::cerr.rdbuf(e.rdbuf()); } ~Cap() { std::cout.rdbuf(po); std::cerr.rdbuf(pe); } };
static bool usage(const string &s) { for (auto k : {"prog", "--help", "--number", "--name", "--verbose", "--numeric", "HELPTEXT", "NUMBERTEXT", "NAMETEXT", "VERBOSETEXT", "NUMERICTEXT"}) if (s.find(k) == string::npos) return false; return true; }
static void run(command_line_arguments_t &c, const std::vector<const Tok *> &a, bool print, const string &h) {
  std::vector<string> st{"prog"}; for (auto t : a) st.push_back(t->s); std::vector<char *> av; for (auto &s : st) av.push_back(&s[0]); av.push_back(nullptr); auto before = st; Out w = model(a); Cap cap; string err; bool thrown = false;
  try { auto r = c.process_arguments((int)st.size(), av.data(), print); auto &v = r.variables; const auto &cv = v;
    MC_CHECK(before == st, "the arguments were changed: %s", h.c_str()); if (w.skip) return; MC_CHECK(r.error == w.error, "%s: %s", w.error ? "error not reported" : "error reported", h.c_str());
    if (!w.error && !r.error) { auto has = [&](const char *n) { return w.v.count(n) > 0; }; for (auto n : {"help", "number", "name", "verbose", "numeric", "absent"}) MC_CHECK((cv.count(n) > 0) == has(n), "option %s %s: %s", n, has(n) ? "lost" : "invented", h.c_str());
      MC_CHECK(cv.as<int>("number", -77) == (has("number") ? atoi(w.v["number"].c_str()) : -77), "number is %d: %s", cv.as<int>("number", -77), h.c_str()); MC_CHECK(cv.as<int>("number") == (has("number") ? atoi(w.v["number"].c_str()) : 0), "number without default: %s", h.c_str());
      MC_CHECK(cv.as<string>("name", "dflt") == (has("name") ? w.v["name"] : "dflt"), "name is %s: %s", cv.as<string>("name", "dflt").c_str(), h.c_str()); MC_CHECK(cv.as<double>("numeric", 0.125) == (has("numeric") ? atof(w.v["numeric"].c_str()) : 0.125), "numeric is %g: %s", cv.as<double>("numeric", 0.125), h.c_str()); MC_CHECK(cv.as<int>("absent", 5) == 5 && cv.as<string>("absent") == "", "default of an absent option: %s", h.c_str()); auto copy = cv; MC_CHECK(copy.as<int>("number", -77) == cv.as<int>("number", -77), "copy"); }
    string o = cap.o.str(), e = cap.e.str(); if (!print) MC_CHECK(o.empty() && e.empty(), "output although printing is off: %s", h.c_str()); else if (w.error) MC_CHECK(e.find("ERROR") != string::npos && usage(e), "the error message lacks something: %s", h.c_str()); else { MC_CHECK(e.empty(), "error output: %s", h.c_str()); if (w.v.count("help")) MC_CHECK(usage(o), "usage lacks something: %s", h.c_str()); else MC_CHECK(o.empty(), "output without help: %s", h.c_str()); } }
  catch (std::exception &x) { thrown = true; err = x.what(); }
  MC_CHECK(!thrown, "exception %s: %s", err.c_str(), h.c_str()); mc::distinct(mc::hash(mc::fmt("%d", w.error)) ^ mc::hash([&] { string s; for (auto &p : w.v) s += p.first + "=" + p.second + ","; return s; }())); }
static string join(const std::vector<const Tok *> &a) { string s; for (auto t : a) s += string(" ") + t->s; return s; }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach();
  for (int order = 0; order < 4; ++order) for (int n = 0; n <= (t ? 4 : 3); ++n) if (mc::group(mc::fmt("order%d.length%d", order, n))) { command_line_arguments_t c; reg(c, order); mc::product(std::vector<int>(n, ALL.size()), [&](const std::vector<int> &d) { if (!mc::next()) return; std::vector<const Tok *> a; for (int i : d) a.push_back(&ALL[i]); string h = mc::fmt("order %d:", order) + join(a); if (n < 3 || order == 0) { run(c, a, false, h); run(c, a, true, h + " (second time)"); } else run(c, a, (d[0] + d[1] + d[2]) % 2, h); mc::trans(); if (n == 3) mc::sample(h); }); }
  { std::vector<const Tok *> red; for (int i : {0, 1, 3, 6, 7, 8, 10, 11, 14, 16, 19, 22, 25}) red.push_back(&ALL[i]); if (mc::group("length4")) { command_line_arguments_t c; reg(c, 0); mc::product(std::vector<int>(t ? 5 : 4, red.size()), [&](const std::vector<int> &d) { if (!mc::next()) return; std::vector<const Tok *> a; for (int i : d) a.push_back(red[i]); run(c, a, false, join(a)); }); } }
  // one parse after another on the same object never mixes
  if (mc::group("pairs")) { std::vector<std::vector<const Tok *>> cs; for (size_t i = 0; i < ALL.size(); ++i) { cs.push_back({&ALL[i]}); cs.push_back({&ALL[i], &ALL[22]}); } cs.push_back({}); auto &c = command_line_arguments_t::instance(); reg(c, 0); MC_CHECK(&c == &command_line_arguments_t::instance(), "one registry"); for (auto &x : cs) for (auto &y : cs) { if (!mc::next()) continue; run(c, x, false, "first" + join(x)); run(command_line_arguments_t::instance(), y, true, "after" + join(x) + ":" + join(y)); run(c, x, true, "again" + join(x) + " after" + join(y)); mc::trans(2); } }
  // registration between parses
  if (mc::group("late registration")) for (size_t i = 0; i < ALL.size(); ++i) for (int order = 0; order < 4; ++order) { if (!mc::next()) continue; command_line_arguments_t c; reg(c, order); std::vector<const Tok *> a{&ALL[i]}; run(c, a, false, "before" + join(a)); c.register_argument<int>("late", "later,l", "later"); string s[] = {"prog", "--later=9", "--unknown=1"}; char *av[] = {&s[0][0], &s[1][0], &s[2][0], nullptr}; Cap cap; auto r = c.process_arguments(3, av, false); MC_CHECK(!r.error && r.variables.as<int>("later", 1) == 9, "argument registered after a first parse"); run(c, a, false, "after registration" + join(a)); }
  if (mc::group("missing")) for (int order = 0; order < 4; ++order) for (auto nm : {"number", "name", "some-thing", ""}) { if (!mc::next()) continue; command_line_arguments_t c; reg(c, order); string s[] = {"prog", "-v"}; char *av[] = {&s[0][0], &s[1][0], nullptr}; { Cap cap; c.process_arguments(2, av, true); } string m = c.print_missing_argument(nm); MC_CHECK(usage(m) && m.find(string("'") + nm + "'") != string::npos && m.find("ERROR") != string::npos, "message about a missing argument: %s", m.c_str()); }
  mc::finish();
}
