// Output protocol between harnesses and check.py.
#pragma once
#include <cstdio>
#include <fcntl.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <string>
namespace proto {
struct Args { bool thorough = false; int part = 0, parts = 1; std::string only; std::string mode; };
inline Args &args() { static Args a; return a; }
inline void parse(int argc, char **argv) {
  Args &a = args();
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    if (s == "--tier" && i + 1 < argc) a.thorough = !strcmp(argv[++i], "thorough");
    else if (s == "--part" && i + 1 < argc) sscanf(argv[++i], "%d/%d", &a.part, &a.parts);
    else if (s == "--only" && i + 1 < argc) a.only = argv[++i];
    else if (s == "--mode" && i + 1 < argc) a.mode = argv[++i];
  }
}
inline FILE *&out() { static FILE *f = stdout; return f; }
// from here on the code under test may print to stdout; the protocol keeps the original descriptor
inline void detach() { fflush(stdout); int fd = dup(1); out() = fdopen(fd, "w"); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
inline std::string oneline(std::string s) { for (char &c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
inline void viol(const std::string &id, const std::string &msg) { fprintf(out(), "VIOL %s\t%s\n", oneline(id).c_str(), oneline(msg).c_str()); fflush(out()); }
inline void sample(const std::string &s) { fprintf(out(), "SAMPLE %s\n", oneline(s).c_str()); }
inline void stat(const char *k, long v) { fprintf(out(), "STAT %s %ld\n", k, v); }
inline void detail(const std::string &s) { fprintf(out(), "DETAIL-BEGIN\n%s\nDETAIL-END\n", s.c_str()); fflush(out()); }
inline void done() { fprintf(out(), "DONE\n"); fflush(out()); }
}
