// Sequential semantics of every operation/scheme/form of the real atomics library for one value type.
#include "a03.h"
#include "mc.h"
#include <iostream>
#include <limits>
#include <sstream>
#include "atomics.h"
namespace ra = ristra::atomics;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace CAT(a03_, TY) {
template <class E, int N> struct Vec {
  E e[N];
#define CW(OP) Vec &operator OP(const Vec &o) noexcept { for (int i = 0; i < N; ++i) e[i] OP o.e[i]; return *this; }
  CW(+=) CW(-=) CW(*=) CW(/=)
  Vec &operator++() noexcept { for (auto &x : e) ++x; return *this; }
  Vec &operator--() noexcept { for (auto &x : e) --x; return *this; }
  Vec operator++(int) noexcept { Vec r = *this; ++*this; return r; }
  Vec operator--(int) noexcept { Vec r = *this; --*this; return r; }
  bool operator<(const Vec &o) const noexcept { for (int i = 0; i < N; ++i) if (e[i] != o.e[i]) return e[i] < o.e[i]; return false; }
  bool operator==(const Vec &o) const noexcept { for (int i = 0; i < N; ++i) if (e[i] != o.e[i]) return false; return true; }
  bool operator!=(const Vec &o) const noexcept { return !(*this == o); }
  bool operator>(const Vec &o) const noexcept { return o < *this; }
};
template <class E, int N> std::ostream &operator<<(std::ostream &o, const Vec<E, N> &v) { for (auto x : v.e) o << '<' << +x; return o << '>'; }
#if TY == 0
typedef int TT;
#define XS int, short, unsigned, long, double
#elif TY == 1
typedef signed char TT;
#define XS signed char, int
#elif TY == 2
typedef unsigned char TT;
#define XS unsigned char, int, float
#elif TY == 3
typedef short TT;
#define XS short, int, long
#elif TY == 4
typedef unsigned TT;
#define XS unsigned, int, unsigned char
#elif TY == 5
typedef long TT;
#define XS long, int, double
#elif TY == 6
typedef unsigned long long TT;
#define XS unsigned long long, int
#elif TY == 7
typedef float TT;
#define XS float, int, double
#elif TY == 8
typedef double TT;
#define XS double, int, float, long
#elif TY == 9
typedef long double TT;
#define XS long double, double, int
#elif TY == 10
typedef int *TT;
#define XS std::ptrdiff_t, int
#elif TY == 11
typedef Vec<short, 3> TT;
#define XS TT
#elif TY == 12
typedef Vec<float, 2> TT;
#define XS TT
#elif TY == 13
typedef bool TT;
#define XS bool
#endif
template <class Q> std::string qn() { std::string s = __PRETTY_FUNCTION__; auto k = s.find("Q = "); auto e = s.find_first_of(";]", k); return s.substr(k + 4, e - k - 4); }

template <class Q, class = void> struct Vals { static std::vector<Q> get(bool all8) {
  typedef std::numeric_limits<Q> L; std::vector<Q> r;
  if (std::is_floating_point<Q>::value) { for (double d : {0.0, 1.0, -1.0, 2.0, -2.5, 0.1, 3.0, 7.75, -1e10, 1e20}) r.push_back(Q(d)); r.push_back(L::infinity()); r.push_back(Q(-0.0)); r.push_back(L::quiet_NaN()); return r; }
  if (sizeof(Q) == 1 && all8 && !std::is_same<Q, bool>::value) { for (int i = L::min(); i <= L::max(); ++i) r.push_back(Q(i)); return r; }
  if (std::is_same<Q, bool>::value) return {Q(0), Q(1)};
  for (long d : {0l, 1l, 2l, 3l, 5l, 7l, 13l, 64l, 100l}) r.push_back(Q(d));
  if (std::is_signed<Q>::value) for (long d : {-1l, -2l, -7l, -100l}) r.push_back(Q(d));
  r.push_back(L::max()); r.push_back(L::min()); r.push_back(L::max() - 1);
  return r; } };
template <class E, int N> struct Vals<Vec<E, N>> { static std::vector<Vec<E, N>> get(bool) { std::vector<Vec<E, N>> r; for (int k : {1, 2, -3, 5, 11}) { Vec<E, N> v; for (int i = 0; i < N; ++i) v.e[i] = E(k * (i + 1) + (i == 1)); r.push_back(v); } return r; } };
template <> struct Vals<int *> { static std::vector<int *> get(bool) { return {(int *)4096, (int *)4100, (int *)8192}; } };

template <class T> bool same(const T &a, const T &b) { return !std::memcmp(&a, &b, std::is_same<T, long double>::value ? 10 : sizeof a) || (a != a && b != b); }
template <class T> std::string sv(const T &v) { std::ostringstream o; o.precision(20); o << v; return o.str(); }
template <> std::string sv(const signed char &v) { return std::to_string(int(v)); }
template <> std::string sv(const unsigned char &v) { return std::to_string(int(v)); }

enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, MIN, MAX, PREINC, POSTINC, PREDEC, POSTDEC };
template <class Q> constexpr bool isI = std::is_integral<Q>::value;
template <class Q> constexpr bool isA = std::is_arithmetic<Q>::value;
template <class S> constexpr bool is_cas = std::is_same<S, ra::strong>::value || std::is_same<S, ra::weak>::value || std::is_same<S, ra::strong::pun>::value || std::is_same<S, ra::weak::pun>::value;
template <class S> constexpr bool is_cpp = std::is_same<S, ra::cpp>::value;
// is the built-in operation defined for these operands?
template <class T, class X> bool defined(int op, T t, X x) {
  if constexpr (isA<T> && isA<X>) {
    typedef decltype(t + x) C;
    if (op == DIV || op == MOD) { if (isI<C> && C(x) == C(0)) return false; if (isI<C> && std::is_signed<C>::value && C(x) == C(-1) && C(t) == std::numeric_limits<C>::min()) return false; }
    if (op == SHL || op == SHR) { if (x < X(0) || x >= X(8 * sizeof(decltype(+t)))) return false; }
    if (!isI<C> && isI<T>) { // result must be representable
      long double a = t, b = x, r = op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : op == DIV ? a / b : op == MIN ? (b < a ? b : a) : op == MAX ? (a < b ? b : a) : a;
      if (!(r > (long double)std::numeric_limits<T>::min() - 1 && r < (long double)std::numeric_limits<T>::max() + 1)) return false;
    }
  }
  return true;
}
template <class T> struct R { T val, ret; };
// --- all calling forms of one binary operation -----------------------------------
static const std::memory_order MO[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
static const std::memory_order MF[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst};
#define VOLATILE_OK (!(std::is_class<T>::value && (std::is_same<S, ra::lock>::value || std::is_same<S, ra::serial>::value)))

template <class T, class X> struct Form { const char *name; int kind; T (*fn)(T t, X v, std::memory_order m, std::memory_order f, T *now); };
// runs all forms on one operand pair
template <class T, class X> __attribute__((noinline)) void judge(const std::vector<Form<T, X>> &fs, const T &t, const X &v, const R<T> &e, bool full) {
  for (auto &f : fs) {
    for (int a = 0; a < (f.kind == 0 ? 1 : 5); ++a) for (int b = 0; b < (f.kind == 2 ? 3 : 1); ++b) {
      T now; T got = f.fn(t, v, MO[a], MF[b], &now); mc::trans();
      if (!same(got, e.ret) || !same(now, e.val)) { mc::fail(std::string(f.name) + ": value " + sv(t) + " operand " + sv(v) + " gives " + sv(now) + " returns " + sv(got) + ", expected " + sv(e.val) + " and " + sv(e.ret)); return; }
    }
    if (!full) return;
  }
}
#define FORM(OBJ, VOL, KIND, NAME, ...) fs.push_back({NAME, KIND, [](T t, X v, std::memory_order m, std::memory_order f, T *now) -> T { \
    (void)m; (void)f; (void)v; alignas(16) unsigned char m_[sizeof(OBJ)] = {}; VOL OBJ &x = *(VOL OBJ *)new (m_) OBJ(t); T got = __VA_ARGS__; *now = T(x); return got; }});
#define BINFORMS(NAME) \
    FORM(A, , 0, "member", x.NAME(v)) \
    if constexpr (FULL) { \
    FORM(A, , 0, "function", ra::NAME(x, v)) \
    if constexpr (VOLATILE_OK) { FORM(A, volatile, 0, "volatile member", x.NAME(v)) FORM(A, volatile, 0, "volatile function", ra::NAME(x, v)) FORM(B2, volatile, 0, "volatile overridden function", ra::NAME<S>(x, v)) } \
    FORM(B, , 0, "overridden member", x.template NAME<S>(v)) FORM(B2, , 0, "overridden function", ra::NAME<S>(x, v)) \
    if constexpr (is_cas<S> || is_cpp<S>) { FORM(A, , 1, "member+order", x.NAME(v, m)) FORM(A, , 1, "function+order", ra::NAME(x, v, m)) FORM(A, volatile, 1, "volatile member+order", x.NAME(v, m)) } \
    if constexpr (is_cas<S>) { FORM(A, , 2, "member+2 orders", x.NAME(v, m, f)) FORM(A, , 2, "function+2 orders", ra::NAME(x, v, m, f)) FORM(A, volatile, 2, "volatile member+2 orders", x.NAME(v, m, f)) } }
#define OPFORM(SYM) if constexpr (FULL) { FORM(A, , 0, "operator", x SYM v) if constexpr (VOLATILE_OK) FORM(A, volatile, 0, "volatile operator", x SYM v) }
template <class T, class S, class X, bool FULL> struct Forms {
  typedef ra::atomic<T, S> A; typedef ra::atomic<T, ra::serial> B; typedef ra::atomic<T, ra::strong, 3> B2;
  template <int OP> static std::vector<Form<T, X>> forms() {
    std::vector<Form<T, X>> fs;
    if constexpr (OP == ADD) { BINFORMS(add) OPFORM(+=) }
    if constexpr (OP == SUB) { BINFORMS(sub) OPFORM(-=) }
    if constexpr (OP == MUL) { BINFORMS(mul) OPFORM(*=) }
    if constexpr (OP == DIV) { BINFORMS(div) OPFORM(/=) }
    if constexpr (OP == MOD) { BINFORMS(mod) OPFORM(%=) }
    if constexpr (OP == SHL) { BINFORMS(lshift) OPFORM(<<=) }
    if constexpr (OP == SHR) { BINFORMS(rshift) OPFORM(>>=) }
    if constexpr (OP == AND) { BINFORMS(andeq) OPFORM(&=) }
    if constexpr (OP == OR) { BINFORMS(oreq) OPFORM(|=) }
    if constexpr (OP == XOR) { BINFORMS(xoreq) OPFORM(^=) }
    if constexpr (OP == MIN) { BINFORMS(min) }
    if constexpr (OP == MAX) { BINFORMS(max) }
    return fs;
  }
  template <int OP> static void run(const char *nm, const char *sn) {
    if (!mc::group(qn<T>() + "/" + sn + "/" + nm + "/" + qn<X>())) return;
    auto fs = forms<OP>();
    bool all8 = sizeof(T) == 1;
    auto tv = Vals<T>::get(all8); auto xv = Vals<X>::get(all8);
    auto tg = Vals<T>::get(false); auto xg = Vals<X>::get(false);
    auto in = [](auto &vec, auto v) { for (auto q : vec) if (same(decltype(v)(q), v)) return true; return false; };
    uint64_t gh = mc::hash(mc::S().group);
    for (T t : tv) for (X v : xv) {
      if (!defined(OP, t, v)) continue;
      if (!mc::next()) continue;
      bool full = in(tg, t) && in(xg, v);
      R<T> e; e.val = t;
      if constexpr (OP == ADD) e.val += v;
      if constexpr (OP == SUB) e.val -= v;
      if constexpr (OP == MUL) e.val *= v;
      if constexpr (OP == DIV) e.val /= v;
      if constexpr (OP == MOD) e.val %= v;
      if constexpr (OP == SHL) e.val <<= v;
      if constexpr (OP == SHR) e.val >>= v;
      if constexpr (OP == AND) e.val &= v;
      if constexpr (OP == OR) e.val |= v;
      if constexpr (OP == XOR) e.val ^= v;
      if constexpr (OP == MIN) { if (v < t) e.val = T(v); }
      if constexpr (OP == MAX) { if (t < v) e.val = T(v); }
      e.ret = e.val;
      judge(fs, t, v, e, full);
      mc::distinct(mc::hash(&e.val, sizeof(T) > 10 && std::is_same<T, long double>::value ? 10 : sizeof(T), gh));
      if (full) mc::sample("value " + sv(t) + " operand " + sv(v) + " -> " + sv(e.val));
    }
  }
};
#define UNAFORMS(NAME) \
    FORM(A, , 0, "member " #NAME, x.NAME()) FORM(A, , 0, "function " #NAME, ra::NAME(x)) \
    if constexpr (VOLATILE_OK) { FORM(A, volatile, 0, "volatile member " #NAME, x.NAME()) FORM(A, volatile, 0, "volatile function " #NAME, ra::NAME(x)) } \
    FORM(B, , 0, "overridden member " #NAME, x.template NAME<S>()) FORM(B, , 0, "overridden function " #NAME, ra::NAME<S>(x)) \
    if constexpr (is_cas<S>) { FORM(A, , 1, "member+order " #NAME, x.NAME(m)) FORM(A, , 1, "function+order " #NAME, ra::NAME(x, m)) FORM(A, volatile, 1, "volatile member+order " #NAME, x.NAME(m)) \
      FORM(A, , 2, "member+2 orders " #NAME, x.NAME(m, f)) FORM(A, , 2, "function+2 orders " #NAME, ra::NAME(x, m, f)) FORM(A, volatile, 2, "volatile member+2 orders " #NAME, x.NAME(m, f)) }
template <class T, class S> struct Unary {
  typedef ra::atomic<T, S> A; typedef ra::atomic<T, ra::serial> B; typedef int X;
  template <int OP> static std::vector<Form<T, int>> forms() {
    std::vector<Form<T, int>> fs;
    if constexpr (OP == PREINC) { UNAFORMS(inc) UNAFORMS(preinc) FORM(A, , 0, "operator", ++x) if constexpr (VOLATILE_OK) FORM(A, volatile, 0, "volatile operator", ++x) }
    if constexpr (OP == POSTINC) { UNAFORMS(postinc) FORM(A, , 0, "operator", x++) if constexpr (VOLATILE_OK) FORM(A, volatile, 0, "volatile operator", x++) }
    if constexpr (OP == PREDEC) { UNAFORMS(dec) UNAFORMS(predec) FORM(A, , 0, "operator", --x) if constexpr (VOLATILE_OK) FORM(A, volatile, 0, "volatile operator", --x) }
    if constexpr (OP == POSTDEC) { UNAFORMS(postdec) FORM(A, , 0, "operator", x--) if constexpr (VOLATILE_OK) FORM(A, volatile, 0, "volatile operator", x--) }
    return fs;
  }
  template <int OP> static void run(const char *nm, const char *sn) {
    if (!mc::group(qn<T>() + "/" + sn + "/" + nm)) return;
    auto fs = forms<OP>();
    for (T t : Vals<T>::get(true)) {
      if (!mc::next()) continue;
      R<T> e; e.val = t; e.ret = t;
      if constexpr (OP == PREINC) { e.ret = ++e.val; }
      if constexpr (OP == POSTINC) { e.ret = e.val++; }
      if constexpr (OP == PREDEC) { e.ret = --e.val; }
      if constexpr (OP == POSTDEC) { e.ret = e.val--; }
      judge(fs, t, 0, e, true);
    }
  }
};
template <class T, class S, class X, bool FULL> void binaries(const char *sn) {
  typedef Forms<T, S, X, FULL> F;
  constexpr bool ptr = std::is_pointer<T>::value, cpp = is_cpp<S>, bits = isI<T> && isI<X>, cls = std::is_class<T>::value, bl = std::is_same<T, bool>::value;
  if constexpr (bl) { if constexpr (!cpp) { F::template run<AND>("andeq", sn); F::template run<OR>("oreq", sn); F::template run<XOR>("xoreq", sn); F::template run<MIN>("min", sn); F::template run<MAX>("max", sn); } return; }
  else {
  if constexpr (!(cpp && (!isI<X>))) { F::template run<ADD>("add", sn); F::template run<SUB>("sub", sn); }
  if constexpr (!cpp && !ptr) { F::template run<MUL>("mul", sn); F::template run<DIV>("div", sn); }
  if constexpr (!cpp && bits) { F::template run<MOD>("mod", sn); F::template run<SHL>("lshift", sn); F::template run<SHR>("rshift", sn); }
  if constexpr (bits) { F::template run<AND>("andeq", sn); F::template run<OR>("oreq", sn); F::template run<XOR>("xoreq", sn); }
  if constexpr (!cpp && !ptr) { F::template run<MIN>("min", sn); F::template run<MAX>("max", sn); }
  }
}
template <class T, class S, class X0, class... X> void scheme(const char *sn) {
  binaries<T, S, X0, true>(sn); (binaries<T, S, X, false>(sn), ...);
  if constexpr (std::is_pointer<T>::value && !is_cpp<S>) { Forms<T, S, T, true>::template run<MIN>("min", sn); Forms<T, S, T, true>::template run<MAX>("max", sn); }
  if constexpr (!std::is_same<T, bool>::value) {
    typedef Unary<T, S> U;
    U::template run<PREINC>("preinc", sn); U::template run<POSTINC>("postinc", sn); U::template run<PREDEC>("predec", sn); U::template run<POSTDEC>("postdec", sn);
  }
  // construction, assignment, conversion, access, output
  if (!mc::group(qn<T>() + "/" + sn + "/basics")) return;
  typedef ra::atomic<T, S> A;
  static_assert(std::is_same<typename A::value_type, T>::value, "value_type");
  static_assert(std::is_same<typename A::scheme_type, S>::value, "scheme_type");
  for (T a : Vals<T>::get(false)) for (T b : Vals<T>::get(false)) {
    if (!mc::next()) continue;
    A x(a); const A y(b); volatile A z(a);
    std::ostringstream o1, o2; o1 << x << y; o2 << a << b;
    if (!same(T(x), a) || !same(T(y), b) || !same(T(z), a) || !same(x.ref(), a) || !same(y.ref(), b)) mc::fail("construction/conversion of " + sv(a));
    if (o1.str() != o2.str()) mc::fail("stream output " + o1.str() + " instead of " + o2.str());
    T r = (x = b); T r2 = (z = b);
    if (!same(r, b) || !same(T(x), b) || !same(T(z), b) || !same(r2, b) || !same(x.base().load(), b) || !same(x.load(), b)) mc::fail("assignment of " + sv(b));
    x.ref() = a; if (!same(T(x), a)) mc::fail("write through ref");
    x.store(b); if (!same(x.exchange(a), b) || !same(T(x), a)) mc::fail("store/exchange");
    T exp = b; bool ok = x.compare_exchange_strong(exp, b);
    if (!std::is_same<T, long double>::value && !(a != a) && (same(a, b) ? !ok : (ok || !same(exp, a)))) mc::fail("compare_exchange");
  }
}
template <class T, class... X> void all() {
  if constexpr ((isI<T> && !std::is_same<T, bool>::value) || std::is_pointer<T>::value) scheme<T, ra::cpp, X...>("cpp");
  scheme<T, ra::strong, X...>("strong"); scheme<T, ra::weak, X...>("weak");
  if constexpr (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8) { scheme<T, ra::strong::pun, X...>("strong::pun"); scheme<T, ra::weak::pun, X...>("weak::pun"); }
  scheme<T, ra::lock, X...>("lock"); scheme<T, ra::serial, X...>("serial");
}
static Reg reg(+[] { all<TT, XS>(); });
}
