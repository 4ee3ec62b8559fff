// C02: in-situ support utilities: script lists, file and image comparison, text replacement, timers, logs.
#include "mc.h"
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <time.h>
#include "ristra/io/catalyst/utils/catalystUtils.hpp"
#include "ristra/io/catalyst/utils/insituLog.hpp"
#include "ristra/io/catalyst/utils/insituTimer.hpp"
using std::string; namespace fs = std::filesystem;
std::stringstream debugLog; string debugLogName;
// ---- the clock the timers see -------------------------------------------------------
static bool faked = false; static long long now_ns = 1700000000000000000ll;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { static auto real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime"); if (!faked) return real(c, t); t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
static void put(const string &f, const string &s) { std::ofstream o(f, std::ios::binary); o << s; }
static string get(const string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<string> words(const string &al, int n) { std::vector<string> cur{""}, out{""}; for (int l = 0; l < n; ++l) { std::vector<string> nx; for (auto &w : cur) for (char c : al) nx.push_back(w + c); out.insert(out.end(), nx.begin(), nx.end()); cur = nx; } return out; }
static string show(const string &s) { string r; for (unsigned char c : s) r += c < 32 || c > 126 ? mc::fmt("\\x%02x", c) : string(1, c); return r; }
static void replacing(bool t) { if (!mc::group("replace")) return;
  for (auto &s : words("abc", t ? 6 : 5)) for (auto &p : words("ab", 3)) { if (!mc::next()) continue; for (auto &r : {string(""), string("x"), string("ab"), string("aab")}) { string w = s; auto k = s.find(p); if (k != string::npos) w = s.substr(0, k) + r + s.substr(k + p.size()); string g; try { g = replaceInString(s, p, r); } catch (std::exception &e) { g = string("error ") + e.what(); } MC_CHECK(g == w, "replacing '%s' by '%s' in '%s' gives '%s'", p.c_str(), r.c_str(), s.c_str(), g.c_str()); } mc::distinct(mc::hash(s + "|" + p)); } }
static void files(bool t) { auto W = words(string("\0\na\xff", 4), t ? 4 : 3); for (int n : {4095, 4096, 4097, 8191, 8192, 8193, 70000}) for (int d = 0; d < 3; ++d) { string s(n, 'q'); if (d) s[d == 1 ? 0 : n - 1] = 'r'; W.push_back(s); }
  if (mc::group("compare")) for (size_t a = 0; a < W.size(); ++a) { if (!mc::next()) continue; put("a.bin", W[a]); for (size_t b = 0; b < W.size(); ++b) { put("b.bin", W[b]); bool g = compareFiles("a.bin", "b.bin"); MC_CHECK(g == (W[a] == W[b]), "files '%.40s' (%zu) and '%.40s' (%zu) compare %s", show(W[a]).c_str(), W[a].size(), show(W[b]).c_str(), W[b].size(), g ? "equal" : "different"); } MC_CHECK(compareFiles("a.bin", "a.bin"), "a file and itself"); MC_CHECK(!compareFiles("a.bin", "none") && !compareFiles("none", "a.bin") && !compareFiles("none", "none"), "missing file"); MC_CHECK(get("a.bin") == W[a], "file changed"); mc::distinct(mc::hash(W[a])); }
  if (mc::group("exists")) for (auto &n : {"e1", "dir/e2", "sp ace", "dot.x"}) { if (!mc::next()) continue; fs::create_directories("dir"); std::error_code ec; fs::remove(n, ec); MC_CHECK(!fileExists(n), "missing %s reported", n); put(n, ""); MC_CHECK(fileExists(n), "empty file %s not reported", n); put(n, "x"); MC_CHECK(fileExists(n), "file %s not reported", n); fs::remove(n, ec); MC_CHECK(!fileExists(n), "removed %s reported", n); } }
// ---- images: grey and colour maps, all numbers of differing samples ---------------------
static string image(int w, int h, int c, const std::vector<unsigned char> &v) { // 1: PGM, 3: PPM, 4: TGA
  if (c == 1 || c == 3) return mc::fmt("P%d\n%d %d\n255\n", c == 1 ? 5 : 6, w, h) + string(v.begin(), v.end());
  string s("\0\0\2\0\0\0\0\0\0\0\0\0", 12); s += char(w); s += char(w >> 8); s += char(h); s += char(h >> 8); s += char(32); s += char(0x28); for (int i = 0; i < w * h; ++i) { s += v[4 * i + 2]; s += v[4 * i + 1]; s += v[4 * i]; s += v[4 * i + 3]; } return s; }
static void images(bool t) {
  static const int SZ[][3] = {{1, 1, 1}, {1, 1, 3}, {7, 7, 1}, {5, 10, 1}, {10, 5, 1}, {17, 3, 1}, {10, 10, 1}, {10, 15, 1}, {5, 5, 4}, {5, 10, 3}, {10, 10, 3}, {13, 4, 1}, {1, 50, 1}, {50, 1, 1}, {51, 1, 1}, {1, 25, 4}};
  if (mc::group("images")) for (auto &z : SZ) for (int d = 0; d <= std::min(z[0] * z[1] * z[2], 12); ++d) for (int where = 0; where < 3; ++where) { if (!mc::next()) continue; int n = z[0] * z[1] * z[2]; std::vector<unsigned char> a(n), b; for (int i = 0; i < n; ++i) a[i] = i * 37 + 11; b = a; for (int i = 0; i < d; ++i) { int k = where == 0 ? i : where == 1 ? n - 1 - i : (i * n) / std::max(d, 1); b[k] = a[k] ^ (where == 1 ? 1 : 0x80); } put("a.img", image(z[0], z[1], z[2], a)); put("b.img", image(z[0], z[1], z[2], b));
      bool want = d * 50 <= n; MC_CHECK(imageCompare("a.img", "b.img") == want && imageCompare("b.img", "a.img") == want, "%dx%dx%d images with %d of %d samples different", z[0], z[1], z[2], d, n); MC_CHECK(imageCompare("a.img", "a.img"), "an image and itself"); mc::distinct(n * 100 + d); mc::sample(mc::fmt("%dx%dx%d, %d differ", z[0], z[1], z[2], d)); }
  if (mc::group("shapes")) for (auto &x : SZ) for (auto &y : SZ) { if (!mc::next()) continue; put("a.img", image(x[0], x[1], x[2], std::vector<unsigned char>(x[0] * x[1] * x[2], 9))); put("b.img", image(y[0], y[1], y[2], std::vector<unsigned char>(y[0] * y[1] * y[2], 9))); bool same = x[0] == y[0] && x[1] == y[1] && x[2] == y[2]; MC_CHECK(imageCompare("a.img", "b.img") == same, "%dx%dx%d and %dx%dx%d images", x[0], x[1], x[2], y[0], y[1], y[2]); MC_CHECK(!imageCompare("a.img", "none.img") && !imageCompare("none.img", "a.img"), "missing image"); put("c.img", "this is no image"); MC_CHECK(!imageCompare("a.img", "c.img") && !imageCompare("c.img", "a.img") && !imageCompare("c.img", "c.img"), "no image"); }
  if (mc::group("large images")) for (int w : {255, 256, 257, 300}) for (int d : {0, 1, 2}) { if (!mc::next()) continue; int n = w * 256; std::vector<unsigned char> a(n), b; for (int i = 0; i < n; ++i) a[i] = i / 256 + i; b = a; int k = d == 0 ? 0 : d == 1 ? n / 50 : n / 50 + 1; for (int i = 0; i < k; ++i) b[n - 1 - i] ^= 4; put("a.img", image(w, 256, 1, a)); put("b.img", image(w, 256, 1, b)); MC_CHECK(imageCompare("a.img", "b.img") == (d < 2), "%dx256 images, %d samples differ", w, k); } }
// ---- script lists --------------------------------------------------------------------
static void scripts(bool t) { static const char *DIRS[] = {"", "./", "d1/", "d1/d.2/", "./d1//", "d1/../d1/", "ABS"}; static const char *NAMES[] = {"in.json", "x", "a b.json", "in.json.json"}; static const char *S[] = {"one.py", "sub/two.py", "t h.py", "../up.py", "q\\\"uote.py"}; static const char *SP[] = {"one.py", "sub/two.py", "t h.py", "../up.py", "q\"uote.py"};
  if (!mc::group("scripts")) return; fs::create_directories("d1/d.2");
  for (auto d0 : DIRS) for (auto nm : NAMES) for (int n = -1; n <= (t ? 4 : 3); ++n) mc::product(std::vector<int>(std::max(n, 0), 5), [&](const std::vector<int> &d) { if (!mc::next()) return; string dir = string(d0) == "ABS" ? fs::current_path().string() + "/d1/" : d0, f = dir + nm, js = "{\"other\": [1, \"x\"]"; if (n >= 0) { js += ", \"catalyst-scripts\": ["; for (int i = 0; i < n; ++i) js += string(i ? ", " : "") + "\"" + S[d[i]] + "\""; js += "]"; } js += n % 2 ? "}" : ", \"z\": null}"; put(f, js); auto g = getCatalystScripts(f); bool ok = (int)g.size() == std::max(n, 0); for (int i = 0; ok && i < n; ++i) ok = fs::path(g[i]).lexically_normal() == fs::path(dir + SP[d[i]]).lexically_normal(); MC_CHECK(ok, "%s in %s: %zu scripts, first '%s'", js.c_str(), f.c_str(), g.size(), g.empty() ? "" : g[0].c_str()); fs::remove(f); mc::distinct(mc::hash(f + js)); });
  if (mc::next()) { MC_CHECK(getCatalystScripts("").empty(), "no input file"); for (auto js : {"", "{", "{\"catalyst-scripts\": [", "{\"catalyst-scripts\": [1]}", "{\"catalyst-scripts\": [null]}", "nonsense"}) { put("bad.json", js); bool th = false; try { getCatalystScripts("bad.json"); } catch (std::exception &) { th = true; } MC_CHECK(th, "malformed input %s accepted", js); } bool th = false; try { getCatalystScripts("none.json"); } catch (std::exception &) { th = true; } MC_CHECK(th, "missing input file accepted"); } }
// ---- timers ------------------------------------------------------------------------------
static void timers(bool t) { if (!mc::group("timer")) return; const int N = 8; // start/stop/read of two timers, time passing (two amounts)
  for (int pre = 0; pre < 5; ++pre) for (int n = 0; n <= (t ? 7 : 6) - (pre > 2); ++n) mc::product(std::vector<int>(n, N), [&](const std::vector<int> &d) { if (!mc::next()) return; faked = true; now_ns = 1700000000000000000ll + 123456789; { InsituTimer q("A"), e; InsituTimer &T = pre == 0 ? e : q; string nm[2] = {"A", pre == 2 ? "" : "B"}; bool run[2] = {pre > 0, false}; long long st[2] = {now_ns, 0}; std::vector<long long> du[2]; int others = pre == 3 ? 1 : pre == 4 ? 40 : 0; for (int i = 0; i < others; ++i) T.start(mc::fmt("C%d", i)); if (others) { now_ns += 777000000; for (int i = 0; i < others; i += 2) T.stop(mc::fmt("C%d", i)); } string h = pre ? "timer A started; " : "";
      auto rd = [&](int k) { double g = T.getDuration(nm[k]); if (du[k].empty()) MC_CHECK(g == -1, "duration of timer %d is %g instead of unknown after %s", k, g, h.c_str()); else { bool ok = false; for (auto x : du[k]) ok |= std::abs(g - x * 1e-9) <= 1e-9 + 1e-12 * x * 1e-9; MC_CHECK(ok, "duration of timer %d is %.9g instead of %.9g after %s", k, g, du[k].back() * 1e-9, h.c_str()); } };
      for (int o : d) { mc::trans(); switch (o) { case 0: case 1: h += mc::fmt("start %d; ", o); MC_CHECK(T.start(nm[o]) == 1, "start"); run[o] = true; st[o] = now_ns; du[o].clear(); break; case 2: case 3: { int k = o - 2; h += mc::fmt("stop %d; ", k); int r = T.stop(nm[k]); MC_CHECK(r == (run[k] ? 1 : -1), "stop returns %d after %s", r, h.c_str()); if (run[k]) du[k].push_back(now_ns - st[k]); break; } case 4: case 5: h += mc::fmt("read %d; ", o - 4); rd(o - 4); break; case 6: h += "1.5s; "; now_ns += 1500000000; break; case 7: h += "2h; "; now_ns += 7200000001000ll; } }
      for (int k = 0; k < 2; ++k) { rd(k); rd(k); } for (int i = 0; i < others; ++i) { double g = T.getDuration(mc::fmt("C%d", i)); MC_CHECK(i % 2 ? g == -1 : std::abs(g - 0.777) < 1e-9, "duration of another timer, %d, is %g after %s", i, g, h.c_str()); } mc::distinct(mc::hash(h)); } faked = false; }); }
// ---- logs -------------------------------------------------------------------------------
static void logs(bool t) { if (!mc::group("log")) return; const int N = 11; static const char *T[] = {"first line\n", "", "x"};
  for (int n = 0; n <= (t ? 5 : 4); ++n) mc::product(std::vector<int>(n, N), [&](const std::vector<int> &d) { if (!mc::next()) return; std::map<string, string> fsys; std::error_code ec; for (auto f : {"untitled.log", "one.txt", "two.txt", "app.log"}) fs::remove(f, ec); string h; { InsituLog L, M("two.txt"); string name = "untitled.log", text;
      for (int o : d) { mc::trans(); h += std::to_string(o) + " "; switch (o) { case 0: case 1: L.log << T[o]; text += T[o]; break; case 2: L.log << 42 << ' '; text += "42 "; break; case 3: L.setOutputFilename("one.txt"); name = "one.txt"; break; case 4: L.clear(); text = ""; break; case 5: L.writeToDisk(); fsys[name] = text; break; case 6: writeLog("app", "w"); fsys["app.log"] = "w"; break; case 7: writeLogApp("app", "more\n"); fsys["app.log"] += "more\n"; break; case 8: writeLogNew("app", "new"); fsys["app.log"] = "new"; break; case 9: M.log << "m"; M.writeToDisk(); fsys["two.txt"] += "m"; break; case 10: writeLogApp("app", string("\0z", 2)); fsys["app.log"] += string("\0z", 2); break; }
        if (o == 4) {} MC_CHECK(L.log.str() == text, "log content after %s", h.c_str()); } }
    for (auto f : {"untitled.log", "one.txt", "two.txt", "app.log"}) { bool ex = fs::exists(f); MC_CHECK(ex == (fsys.count(f) > 0), "file %s %s after %s", f, ex ? "exists" : "missing", h.c_str()); if (ex && fsys.count(f)) MC_CHECK(get(f) == fsys[f], "content of %s is '%s' instead of '%s' after %s", f, show(get(f)).c_str(), show(fsys[f]).c_str(), h.c_str()); } mc::distinct(mc::hash(h)); }); }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough(); proto::detach(); struct N : std::streambuf { int overflow(int c) override { return c; } }; std::cerr.rdbuf(new N); std::cout.rdbuf(new N);
  replacing(t); files(t); images(t); scripts(t); timers(t); logs(t);
  mc::finish();
}
