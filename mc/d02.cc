// D02: error macros, exception types and location helpers, with exceptions enabled (EXC=1) or disabled (EXC=0).
#include "mc.h"
#include <iostream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <fcntl.h>
#include "ristra/assertions/errors.h"
using std::string; using namespace ristra::assertions;
static int evals = 0; template <class T> static T ev(T v) { ++evals; return v; }
static const char *fn = ""; static int line = 0; static string FL = __FILE__;
#define AT line = __LINE__; fn = __FUNCTION__
// what one statement did
struct Obs { string type, what, out, err; bool after = false, aborted = false; int evals = 0; string trace; };
static string *tr; static void T(const char *s) { *tr += s; }
template <class F> static Obs inProc(F f) { Obs o; string t; tr = &t; std::stringstream so, se; auto *po = std::cout.rdbuf(so.rdbuf()), *pe = std::cerr.rdbuf(se.rdbuf()); evals = 0;
  auto types = [&](std::exception &e) { o.what = e.what(); if (dynamic_cast<ExceptionRunTime *>(&e)) o.type += "RunTime "; if (dynamic_cast<ExceptionLogic *>(&e)) o.type += "Logic "; if (dynamic_cast<ExceptionNotImplemented *>(&e)) o.type += "NotImplemented "; if (dynamic_cast<ExceptionFileError *>(&e)) o.type += "File "; if (dynamic_cast<ExceptionConvergenceFailure *>(&e)) o.type += "Convergence "; if (dynamic_cast<ExceptionFloatingPoint *>(&e)) o.type += "FloatingPoint "; if (dynamic_cast<std::runtime_error *>(&e)) o.type += "runtime"; if (dynamic_cast<std::logic_error *>(&e)) o.type += "logic"; };
  try { f(); o.after = true; } catch (std::exception &e) { types(e); } catch (...) { o.type = "?"; } std::cout.rdbuf(po); std::cerr.rdbuf(pe); o.out = so.str(); o.err = se.str(); o.evals = evals; o.trace = t; return o; }
// the same in a child process: death by abort is an outcome
template <class F> static Obs inChild(F f) { int p[2], q[2]; Obs o; if (pipe(p) || pipe(q)) return o; int *sh = (int *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(nullptr); pid_t c = fork();
  if (!c) { dup2(p[1], 1); dup2(q[1], 2); close(p[0]); close(q[0]); std::cout.clear(); std::cerr.clear(); signal(SIGABRT, SIG_DFL); struct R : std::streambuf { int fd; R(int f) : fd(f) {} int overflow(int ch) override { char b = ch; if (write(fd, &b, 1)) {} return ch; } }; std::cout.rdbuf(new R(1)); std::cerr.rdbuf(new R(2)); string t; tr = &t; evals = 0; sh[0] = 0; try { struct S { int *s; string *t; ~S() { } } s{sh, &t}; f(); sh[1] = 1; } catch (...) { sh[2] = 1; } sh[0] = evals; snprintf((char *)(sh + 64), 1000, "%s", t.c_str()); _exit(0); }
  close(p[1]); close(q[1]); fcntl(p[0], F_SETFL, 0); auto rd = [](int fd) { string r; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }; o.err = rd(q[0]); o.out = rd(p[0]); int st = 0; waitpid(c, &st, 0); o.aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT; o.after = !o.aborted && sh[1]; if (!o.aborted && sh[2]) o.type = "thrown"; o.evals = sh[0]; o.trace = (char *)(sh + 64); munmap(sh, 8192); return o; }
// kinds: 0 runtime, 1 logic, 2 file, 3 not implemented, 4 assert_true
static void judge(const Obs &o, int kind, bool fires, const string &msg, const string &h) {
  static const char *ty[] = {"RunTime runtime", "Logic logic", "File runtime", "NotImplemented logic", "RunTime runtime"};
  if (!fires) { MC_CHECK(o.after && !o.aborted && o.type.empty(), "%s: does not continue", h.c_str()); MC_CHECK(o.err.empty() && o.out.empty(), "%s: prints '%s%s'", h.c_str(), o.err.c_str(), o.out.c_str()); return; }
  MC_CHECK(!o.after, "%s: continues", h.c_str()); if (EXC) { MC_CHECK(o.type == ty[kind], "%s: exception of type %s", h.c_str(), o.type.c_str()); if (kind == 2) MC_CHECK(o.what.find(msg) != string::npos, "%s: file name missing in '%s'", h.c_str(), o.what.c_str()); else MC_CHECK(!o.what.empty(), "%s: empty description", h.c_str()); } else MC_CHECK(o.aborted, "%s: does not abort", h.c_str());
  MC_CHECK(o.out.empty(), "%s: output on the standard stream", h.c_str()); MC_CHECK(o.err.find(FL) != string::npos && o.err.find(fn) != string::npos && o.err.find("L" + std::to_string(line)) != string::npos, "%s: location missing in '%s'", h.c_str(), o.err.c_str()); if (kind != 2) MC_CHECK(o.err.find(msg) != string::npos, "%s: message missing in '%s'", h.c_str(), o.err.c_str()); }
#define OBS(...) (EXC ? inProc([&] { __VA_ARGS__ }) : inChild([&] { __VA_ARGS__ }))
#define LOC(...) ([&] { line = __LINE__; fn = "operator()"; return OBS(__VA_ARGS__); }())
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach();
  const std::vector<string> M{"", "plain", "two words", "percent %s %d %n", "quote \" and 'tick'", "line\nbreak", string(3000, 'm')};
  if (mc::group("throw")) for (auto &m : M) for (int k = 0; k < 4; ++k) for (int parts = 0; parts < 3; ++parts) { if (!mc::next()) continue; int n = 42; double d = 1.5; string h = mc::fmt("macro %d message form %d", k, parts); Obs o; string want = m; switch (k) {
        case 0: if (parts == 0) o = LOC(THROW_RUNTIME_ERROR(m);); else if (parts == 1) { o = LOC(THROW_RUNTIME_ERROR(m << " " << n << "," << d);); want = m + " 42,1.5"; } else { o = LOC(THROW_RUNTIME_ERROR("count " << ev(n) << m);); want = "count 42" + m; if (EXC) MC_CHECK(o.evals == 1, "message evaluated %d times", o.evals); } break;
        case 1: if (parts == 0) o = LOC(THROW_LOGIC_ERROR(m);); else if (parts == 1) { o = LOC(THROW_LOGIC_ERROR(m << " " << n << "," << d);); want = m + " 42,1.5"; } else { o = LOC(THROW_LOGIC_ERROR("count " << ev(n) << m);); want = "count 42" + m; if (EXC) MC_CHECK(o.evals == 1, "message evaluated %d times", o.evals); } break;
        case 2: if (parts == 0) o = LOC(THROW_FILE_ERROR(m);); else if (parts == 1) { o = LOC(THROW_FILE_ERROR(m + ".txt");); want = m + ".txt"; } else { o = LOC(THROW_FILE_ERROR(ev(m).c_str());); if (EXC) MC_CHECK(o.evals == 1, "file name evaluated %d times", o.evals); } break;
        case 3: if (parts == 0) o = LOC(THROW_IMPLEMENTED_ERROR(m);); else if (parts == 1) { o = LOC(THROW_IMPLEMENTED_ERROR(m << " " << n << "," << d);); want = m + " 42,1.5"; } else { o = LOC(THROW_IMPLEMENTED_ERROR("count " << ev(n) << m);); want = "count 42" + m; if (EXC) MC_CHECK(o.evals == 1, "message evaluated %d times", o.evals); } break; }
      judge(o, k, true, want, h); mc::distinct(mc::hash(h + m)); }
  if (mc::group("assert_true")) for (auto &m : M) for (int c = -1; c < 3; ++c) for (int form = 0; form < 5; ++form) { if (!mc::next()) continue; int n = 7; string h = mc::fmt("assert_true form %d with %d", form, c); Obs o; string want = m; bool ok = c != 0; switch (form) { case 0: o = LOC(assert_true(c, m);); break; case 1: o = LOC(assert_true(ev(c), m << n);); want = m + "7"; if (EXC || ok) MC_CHECK(o.evals == 1, "condition evaluated %d times", o.evals); break; case 2: o = LOC(assert_true(c == 1 || c == 2, m);); ok = c == 1 || c == 2; break; case 3: o = LOC(assert_true(c, m); assert_true(true, "second");); break; case 4: o = LOC(for (int i = 0; i < 2; ++i) assert_true(c, m);); break; } judge(o, 4, !ok, want, h); mc::distinct(mc::hash(h + m)); }
  // inside other control flow: only the branch taken runs, and the else branch stays with its own if
  if (mc::group("branches")) for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) for (int k = 0; k < 6; ++k) { if (!mc::next()) continue; string h = mc::fmt("if (%d) macro %d with %d, else", a, k, c); Obs o; bool fires = a && (k < 4 || !c); switch (k) { case 0: o = LOC(if (a) THROW_RUNTIME_ERROR("M"); else T("else ");); break; case 1: o = LOC(if (a) THROW_LOGIC_ERROR("M"); else T("else ");); break; case 2: o = LOC(if (a) THROW_FILE_ERROR("M"); else T("else ");); break; case 3: o = LOC(if (a) THROW_IMPLEMENTED_ERROR("M"); else T("else ");); break; case 4: o = LOC(if (a) assert_true(c, "M"); else T("else ");); break; case 5: o = LOC(if (!a) T("else "); else assert_true(c, "M"); T("end ");); break; }
      judge(o, k > 3 ? 4 : k, fires, "M", h); if (!fires || EXC) { string w = (a ? "" : "else ") + string(k == 5 && !fires ? "end " : ""); MC_CHECK(o.trace == w, "%s: ran '%s' instead of '%s'", h.c_str(), o.trace.c_str(), w.c_str()); } }
  if (mc::group("warning")) for (auto &m : M) for (int f = 0; f < 2; ++f) { if (!mc::next()) continue; int n = 3; Obs o = f ? OBS(short_warning(m << ev(n)); T("end");) : OBS(short_warning(m); T("end");); MC_CHECK(o.after && o.trace == "end" && o.type.empty() && !o.aborted, "a warning stops the program"); MC_CHECK(o.err.empty() && o.out.find(m + (f ? "3" : "")) != string::npos && o.out.find("Warning") != string::npos, "warning text '%s'", o.out.c_str()); if (f) MC_CHECK(o.evals == 1, "warning evaluated %d times", o.evals); }
  if (mc::group("types")) for (auto &m : M) { if (!mc::next()) continue; Obs o = inProc([&] { throw ExceptionConvergenceFailure(); }); MC_CHECK(o.type == "Convergence runtime" && !o.what.empty(), "convergence failure"); o = inProc([&] { throw ExceptionFloatingPoint(); }); MC_CHECK(o.type == "FloatingPoint runtime" && !o.what.empty(), "floating point"); o = inProc([&] { throw ExceptionFileError(m); }); MC_CHECK(o.type == "File runtime" && o.what.find(m) != string::npos, "file error"); { ExceptionFileError a(m), b(a); MC_CHECK(string(a.what()) == b.what(), "copy"); std::exception_ptr p = std::make_exception_ptr(a); bool ok = false; try { std::rethrow_exception(p); } catch (ExceptionFileError &e) { ok = string(e.what()) == a.what(); } MC_CHECK(ok, "kept exception"); } o = inProc([&] { try { throw ExceptionRunTime(); } catch (std::logic_error &) { T("wrong"); } }); MC_CHECK(o.type == "RunTime runtime" && o.trace.empty(), "runtime error caught as logic error"); o = inProc([&] { try { throw ExceptionNotImplemented(); } catch (std::logic_error &) { T("right"); } }); MC_CHECK(o.trace == "right", "not implemented"); }
  if (mc::group("here")) for (auto &m : M) { if (!mc::next()) continue; int l = __LINE__; string s = HERE_STR(m); MC_CHECK(s.find(FL) != string::npos && s.find(std::to_string(l)) != string::npos && s.find(__FUNCTION__) != string::npos && s.size() >= m.size() && s.substr(s.size() - m.size()) == m, "location text '%s'", s.c_str()); std::ostringstream os; os << RISTRA_HERE; MC_CHECK(os.str().find(FL) != string::npos && os.str().find(std::to_string(__LINE__)) != string::npos && os.str().find(__FUNCTION__) != string::npos, "location '%s'", os.str().c_str());
      fflush(stdout); int sv = dup(1), p[2]; if (pipe(p)) break; dup2(p[1], 1); close(p[1]); HERE(m); int hl = __LINE__; fflush(stdout); dup2(sv, 1); close(sv); string r; char b[8192]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n); close(p[0]); MC_CHECK(r.find(m) != string::npos && r.find(FL) != string::npos && r.find(std::to_string(hl)) != string::npos && r.find(__FUNCTION__) != string::npos, "printed location '%s'", r.c_str()); }
  // sequences: each error is independent of the earlier ones
  if (EXC && mc::group("sequences")) mc::product(std::vector<int>(t ? 6 : 4, 7), [&](const std::vector<int> &d) { if (!mc::next()) return; string w, g; for (int k : d) { Obs o; switch (k) { case 0: o = LOC(THROW_RUNTIME_ERROR("m0");); judge(o, 0, true, "m0", "sequence"); break; case 1: o = LOC(THROW_LOGIC_ERROR("m1");); judge(o, 1, true, "m1", "sequence"); break; case 2: o = LOC(THROW_FILE_ERROR("m2");); judge(o, 2, true, "m2", "sequence"); break; case 3: o = LOC(THROW_IMPLEMENTED_ERROR("m3");); judge(o, 3, true, "m3", "sequence"); break; case 4: o = LOC(assert_true(true, "m4");); judge(o, 4, false, "", "sequence"); break; case 5: o = LOC(assert_true(false, "m5");); judge(o, 4, true, "m5", "sequence"); break; case 6: o = inProc([&] { short_warning("m6"); }); MC_CHECK(o.after && o.out.find("m6") != string::npos, "warning in a sequence"); break; } mc::trans(); w += std::to_string(k); } mc::distinct(mc::hash(w)); });
  mc::finish();
}
