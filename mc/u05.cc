// U05: string, path and time helpers on all strings over small alphabets.
#include "mc.h"
#include <algorithm>
#include <clocale>
#include <climits>
#include <cstdint>
#include <stdexcept>
#include <typeinfo>
#include "ristra/ristra-config.h"
#undef RISTRA_ENABLE_MPI
#include "ristra/utils/time_utils.h"
#include "ristra/utils/string_utils.h"
using namespace ristra::utils; using std::string;
static string show(const string &s) { string r = "\""; for (unsigned char c : s) r += c >= 32 && c < 127 && c != '"' ? string(1, c) : mc::fmt("\\x%02x", c); return r + "\""; }
static std::vector<string> words(const string &alpha, int maxlen) { std::vector<string> v{""}; size_t b = 0; for (int l = 0; l < maxlen; ++l) { size_t e = v.size(); for (size_t i = b; i < e; ++i) for (char c : alpha) v.push_back(v[i] + c); b = e; } return v; }
static string rep(const string &s, const string &f, const string &t) { if (f.empty()) return s; string r; for (size_t i = 0; i < s.size();) if (s.compare(i, f.size(), f) == 0) { r += t; i += f.size(); } else r += s[i++]; return r; }
int main(int argc, char **argv) {
  mc::init(argc, argv); bool t = mc::thorough();
  if (mc::group("replace")) { auto S = words("ab", t ? 9 : 7), P = words("ab", 3), Q = words("abc", 2); Q.push_back("aba"); Q.push_back("aaa"); Q.push_back("abab"); 
    for (auto &s : S) for (auto &f : P) { if (!mc::next()) continue; for (auto &q : Q) { string r = replace_all(s, f, q), w = rep(s, f, q); MC_CHECK(r == w, "replace_all(%s,%s,%s) = %s, expected %s", show(s).c_str(), show(f).c_str(), show(q).c_str(), show(r).c_str(), show(w).c_str()); mc::distinct(mc::hash(r)); } } }
  if (mc::group("replace.special")) { string A("\0.\xff", 3); auto S = words(A, 4), P = words(A, 2); for (auto &s : S) for (auto &f : P) { if (!mc::next()) continue; for (auto &q : P) { string r = replace_all(s, f, q), w = rep(s, f, q); MC_CHECK(r == w, "replace_all(%s,%s,%s) = %s", show(s).c_str(), show(f).c_str(), show(q).c_str(), show(r).c_str()); } } }
  auto split_ref = [](const string &s, const std::vector<char> &d) { std::vector<string> w; string c; for (char x : s) if (std::find(d.begin(), d.end(), x) != d.end()) { if (!c.empty()) w.push_back(c); c.clear(); } else c += x; if (!c.empty()) w.push_back(c); return w; };
  auto join = [](const std::vector<string> &v) { string r; for (auto &x : v) r += "[" + show(x) + "]"; return r; };
  if (mc::group("split")) { string A("ab, \t\n\xe9", 7); std::vector<std::vector<char>> ds{{}}; for (char c : A) ds.push_back({c}); for (char c : A) for (char e : A) if (c < e) ds.push_back({c, e}); ds.push_back({' ', '\t', '\n'}); ds.push_back({',', ',', ' '}); ds.push_back({'\0'}); ds.push_back({'a', 'b', ',', ' ', '\t', '\n', '\xe9'});
    auto S = words(A, t ? 6 : 5); for (auto &s : S) { if (!mc::next()) continue; for (auto &d : ds) { auto r = split(s, d), w = split_ref(s, d); MC_CHECK(r == w, "split(%s, {%s}) = %s, expected %s", show(s).c_str(), show(string(d.begin(), d.end())).c_str(), join(r).c_str(), join(w).c_str()); } auto r = split(s), w = split_ref(s, {' '}); MC_CHECK(r == w, "split(%s) = %s, expected %s", show(s).c_str(), join(r).c_str(), join(w).c_str()); mc::distinct(mc::hash(join(w))); } }
  if (mc::group("split.bytes")) for (int c = 0; c < 256; ++c) for (int e = 0; e < 256; ++e) { if (!mc::next()) continue; string s = string("x") + char(c) + "y" + char(e) + char(c) + "z"; for (std::vector<char> d : {std::vector<char>{char(c)}, std::vector<char>{char(e)}, std::vector<char>{char(c), char(e)}}) { auto r = split(s, d), w = split_ref(s, d); MC_CHECK(r == w, "split(%s, {%s}) = %s, expected %s", show(s).c_str(), show(string(d.begin(), d.end())).c_str(), join(r).c_str(), join(w).c_str()); } }
  if (mc::group("path")) for (auto &s : words("a./b", t ? 9 : 7)) { if (!mc::next()) continue;
      auto sl = s.rfind('/'); string dir = sl == string::npos ? "" : s.substr(0, sl + 1), base = sl == string::npos ? s : s.substr(sl + 1); auto dt = base.rfind('.'); bool has = dt != string::npos; string ext = has ? base.substr(dt + 1) : "", stem = has ? base.substr(0, dt) : base;
      MC_CHECK(ristra::utils::basename(s) == base, "basename(%s) = %s, expected %s", show(s).c_str(), show(ristra::utils::basename(s)).c_str(), show(base).c_str());
      MC_CHECK(file_extension(s) == ext, "file_extension(%s) = %s, expected %s", show(s).c_str(), show(file_extension(s)).c_str(), show(ext).c_str());
      MC_CHECK(remove_extension(s) == dir + stem, "remove_extension(%s) = %s, expected %s", show(s).c_str(), show(remove_extension(s)).c_str(), show(dir + stem).c_str());
      auto p = split_extension(s); MC_CHECK(p.first == dir + stem && p.second == ext, "split_extension(%s) = %s %s", show(s).c_str(), show(p.first).c_str(), show(p.second).c_str());
      mc::distinct(mc::hash(base + "|" + ext)); }
  if (mc::group("digits")) { std::vector<unsigned> N; for (unsigned i = 0; i < (t ? 200000u : 20000u); ++i) N.push_back(i); for (unsigned long p = 1; p <= 10000000000ul; p *= 10) for (long d = -2; d <= 2; ++d) { long v = (long)p + d; if (v >= 0 && v <= (long)UINT_MAX) N.push_back(v); } for (int b = 0; b < 32; ++b) for (int d = -1; d <= 1; ++d) N.push_back((1u << b) + d);
    for (unsigned n : N) { if (!mc::next()) continue; string d = std::to_string(n); MC_CHECK(num_digits(n) == d.size(), "num_digits(%u) = %u", n, (unsigned)num_digits(n)); MC_CHECK(to_string(n) == d, "to_string(%u)", n); auto pad = [&](size_t w) { return d.size() >= w ? d : string(w - d.size(), '0') + d; }; MC_CHECK(zero_padded(n) == pad(6), "zero_padded(%u) = %s", n, zero_padded(n).c_str()); if (n < 2000 || n % 97 == 0 || n > 20000) for (unsigned w = 0; w <= 12; ++w) MC_CHECK(zero_padded(n, w) == pad(w), "zero_padded(%u,%u) = %s", n, w, zero_padded(n, w).c_str()); } }
  if (mc::group("to_string")) { for (auto &s : words("a \n0", 4)) { if (!mc::next()) continue; MC_CHECK(to_string(s) == s && to_string(s.c_str()) == s, "to_string(%s)", show(s).c_str()); } for (long v : {0l, 1l, -1l, 127l, -128l, 255l, 65536l, (long)INT_MAX, (long)INT_MIN, LONG_MAX, LONG_MIN}) { if (!mc::next()) continue; MC_CHECK(to_string(v) == std::to_string(v) && to_string((int)v) == std::to_string((int)v) && to_string((unsigned long)v) == std::to_string((unsigned long)v), "to_string(%ld)", v); } if (mc::next()) MC_CHECK(to_string('c') == "c" && to_string(1.5) == "1.5" && to_string(-0.25f) == "-0.25" && to_string(true) == "1", "to_string of char, double, bool"); }
  if (mc::group("large")) for (int n : mc::widths(40000)) { if (!mc::next()) continue; string a(n, 'a'), l(n, 'x'), pth; std::vector<string> ps; for (int i = 0; i < n; ++i) { ps.push_back(string(1 + i % 3, char('b' + i % 7))); pth += (i ? " " : "") + ps.back(); } MC_CHECK(split(pth) == ps && split(pth, {',', ' '}) == ps, "splitting a text with %d pieces", n); MC_CHECK((split(l) == std::vector<string>{l}), "splitting a text of %d characters", n);
    MC_CHECK(replace_all(a, "a", "bc").size() == 2u * n && replace_all(a, "aa", "a").size() == n / 2 + n % 2u && replace_all(l, "a", "b") == l && replace_all("q" + l + "q", l, "y") == "qyq", "replacing in a text of %d characters", n); string f = l + "/" + a + ".e" + l; MC_CHECK(ristra::utils::basename(f) == a + ".e" + l && file_extension(f) == "e" + l && remove_extension(f) == l + "/" + a && split_extension(f) == std::make_pair(l + "/" + a, "e" + l), "taking a path of %zu characters apart", f.size()); MC_CHECK(zero_padded(7, n) == string(n - 1, '0') + "7", "padding to %d", n); MC_CHECK(to_wstring(a.c_str()) == std::wstring(n, L'a'), "wide text of %d characters", n); }
  setlocale(LC_ALL, "C.UTF-8");
  if (mc::group("wide")) { std::vector<std::pair<string, wchar_t>> ch{{"a", L'a'}, {"Z", L'Z'}, {"\xc3\xa9", 0xe9}, {"\xe2\x82\xac", 0x20ac}, {"\xf0\x9f\x98\x80", 0x1f600}, {"\x01", 1}}; int K = t ? 6 : 5;
    for (int len = 0; len <= K; ++len) mc::product(std::vector<int>(len, ch.size()), [&](const std::vector<int> &d) { if (!mc::next()) return; string s; std::wstring w; for (int k : d) { s += ch[k].first; w += ch[k].second; } std::wstring r = to_wstring(s.c_str()); MC_CHECK(r == w, "to_wstring(%s) has %zu characters, expected %zu", show(s).c_str(), r.size(), w.size()); });
  }
  if (mc::group("clock")) { std::vector<long long> N; for (long long i = 0; i < (t ? 2000000 : 200000); ++i) N.push_back(i); for (long long b : {60ll, 3600ll, 86400ll, 31536000ll, 86400ll * 100000, (1ll << 31), (1ll << 32), (1ll << 40), LLONG_MAX - 100000}) for (long long d = -90; d <= 90; ++d) N.push_back(b + d);
    for (auto n : N) { if (!mc::next()) continue; long long D = -1; int h = -1, m = -1, s = -1; daysHoursMinutesSeconds(n, D, h, m, s); MC_CHECK(D == n / 86400 && h == n / 3600 % 24 && m == n / 60 % 60 && s == n % 60, "%lld seconds = %lld days %d:%d:%d", n, D, h, m, s); } }
  if (mc::group("walltime")) if (mc::next()) { struct timeval a, b; gettimeofday(&a, 0); double w = get_wall_time(); gettimeofday(&b, 0); MC_CHECK(w >= a.tv_sec + a.tv_usec * 1e-6 - 1e-5 && w <= b.tv_sec + b.tv_usec * 1e-6 + 1e-5, "get_wall_time = %f", w); }
  mc::finish();
}
