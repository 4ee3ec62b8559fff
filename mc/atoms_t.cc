// Instrumented translation unit: instantiates the real library for one value type (-DTY=n).
#include <iostream>
#include <sstream>
#include <cstring>
#include <new>
#include "atoms.h"
#include "atomics.h"
namespace ra = ristra::atomics;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace CAT(ns, TY) {
template <class E, int N> struct Vec {   // trivially copyable user type
  E e[N];
#define CW(OP) Vec &operator OP(const Vec &o) noexcept { for (int i = 0; i < N; ++i) e[i] OP o.e[i]; return *this; }
  CW(+=) CW(-=) CW(*=) CW(/=)
  Vec &operator++() noexcept { for (auto &x : e) ++x; return *this; }
  Vec &operator--() noexcept { for (auto &x : e) --x; return *this; }
  Vec operator++(int) noexcept { Vec r = *this; ++*this; return r; }
  Vec operator--(int) noexcept { Vec r = *this; --*this; return r; }
  bool operator<(const Vec &o) const noexcept { for (int i = 0; i < N; ++i) if (e[i] != o.e[i]) return e[i] < o.e[i]; return false; }
  bool operator!=(const Vec &o) const noexcept { return !(*this == o); }
  bool operator>(const Vec &o) const noexcept { return o < *this; }
  bool operator==(const Vec &o) const noexcept { for (int i = 0; i < N; ++i) if (e[i] != o.e[i]) return false; return true; }
};
template <class E, int N> std::ostream &operator<<(std::ostream &o, const Vec<E, N> &v) { for (auto x : v.e) o << '<' << +x; return o << '>'; }

#if TY == 0
typedef int TT; const char *tn = "int";
#elif TY == 1
typedef signed char TT; const char *tn = "signed char";
#elif TY == 2
typedef short TT; const char *tn = "short";
#elif TY == 3
typedef unsigned long TT; const char *tn = "unsigned long";
#elif TY == 4
typedef float TT; const char *tn = "float";
#elif TY == 5
typedef double TT; const char *tn = "double";
#elif TY == 6
typedef int *TT; const char *tn = "int*";
#elif TY == 7
typedef Vec<signed char, 3> TT; const char *tn = "struct{3 bytes}";
#elif TY == 8
typedef Vec<float, 2> TT; const char *tn = "struct{2 floats}";
#elif TY == 9
typedef Vec<double, 2> TT; const char *tn = "struct{2 doubles}";
#elif TY == 10
typedef long double TT; const char *tn = "long double";
#endif
template <class Q> struct Mk { static Q val(int k) { return Q(k); } };
template <class E, int N> struct Mk<Vec<E, N>> { static Vec<E, N> val(int k) { Vec<E, N> r; for (int i = 0; i < N; ++i) r.e[i] = E(k + i); return r; } };
template <> struct Mk<int *> { static int *val(int k) { return (int *)4096 + k; } };
const int initial[] = {6, 21};
const int operands[NOPS][4] = {{3, 5, 9, 0}, {2, 7, 11, 0}, {3, 2, 5, 1}, {2, 3, 2, 1}, {5, 4, 3, 127}, {1, 2, 1, 0}, {1, 2, 1, 0}, {13, 7, 11, 127}, {16, 9, 33, 0}, {21, 10, 3, 0}, {3, 8, 5, 127}, {9, 7, 30, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
template <class Q> std::string sv(const Q &q) { std::ostringstream o; o << +q; return o.str(); }
template <class E, int N> std::string sv(const Vec<E, N> &q) { std::ostringstream o; o << q; return o.str(); }
template <> std::string sv(int *const &q) { std::ostringstream o; o << "p" << ((long)q - 4096) / 4 << "r" << ((long)q % 4); return o.str(); }
template <class S> constexpr bool is_cas = std::is_same<S, ra::strong>::value || std::is_same<S, ra::weak>::value || std::is_same<S, ra::strong::pun>::value || std::is_same<S, ra::weak::pun>::value;
template <class S> constexpr bool is_cpp = std::is_same<S, ra::cpp>::value;

template <class T> struct H {
static constexpr bool isint = std::is_integral<T>::value, isflt = std::is_floating_point<T>::value, isptr = std::is_pointer<T>::value,
               isvec = !isint && !isflt && !isptr;

template <Op O> struct Arg { typedef typename std::conditional<isptr && (O == ADD || O == SUB), std::ptrdiff_t, typename std::conditional<(O == SHL || O == SHR), int, T>::type>::type type; };
static void arg(Op op, int k, void *out) {
  if (isptr && (op == ADD || op == SUB)) { std::ptrdiff_t d = operands[op][k]; memcpy(out, &d, sizeof d); }
  else if (op == SHL || op == SHR) { int d = operands[op][k]; memcpy(out, &d, sizeof d); }
  else { T d = Mk<T>::val(operands[op][k]); memcpy(out, &d, sizeof d); }
}
static std::string str(const void *a) { T t; memcpy(&t, a, sizeof t); return sv(t); }
static std::string argstr(Op op, const void *a) {
  if (op >= INC) return "";
  if (isptr && (op == ADD || op == SUB)) { std::ptrdiff_t d; memcpy(&d, a, sizeof d); return std::to_string(d); }
  if (op == SHL || op == SHR) { int d; memcpy(&d, a, sizeof d); return std::to_string(d); }
  return str(a);
}
static bool eq(const void *a, const void *b) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); return x == y; }
static void ref(Op op, void *val, const void *a, void *ret) {
  T x; memcpy(&x, val, sizeof x);
  T r = x;
  auto get = [&](auto z) { decltype(z) d; memcpy(&d, a, sizeof d); return d; };
#define R(OP, SYM) if constexpr (1) { if (op == OP) { x SYM get(typename Arg<OP>::type{}); r = x; } }
  R(ADD, +=) R(SUB, -=)
  if constexpr (!isptr) { R(MUL, *=) R(DIV, /=) }
  if constexpr (isint) { R(MOD, %=) R(SHL, <<=) R(SHR, >>=) R(AND, &=) R(OR, |=) R(XOR, ^=) }
  if (op == MIN) { T v = get(T{}); if (v < x) x = v; r = x; }
  if (op == MAX) { T v = get(T{}); if (x < v) x = v; r = x; }
  if (op == INC || op == PREINC) { ++x; r = x; }
  if (op == DEC || op == PREDEC) { --x; r = x; }
  if (op == POSTINC) { r = x; x++; }
  if (op == POSTDEC) { r = x; x--; }
  memcpy(val, &x, sizeof x); memcpy(ret, &r, sizeof r);
}

#define LAM(A, O, EXPR, VOL) [](void *o_, const void *a_, void *r_, std::memory_order m1, std::memory_order m2) { \
    (void)m1; (void)m2; VOL A &x = *(VOL A *)o_; typename Arg<O>::type v{}; if (O < INC) v = *(const typename Arg<O>::type *)a_; (void)v; *(T *)r_ = EXPR; }
#define V(O, KIND, CANON, FORM, EXPR) t.v.push_back({O, KIND, CANON, FORM, LAM(A, O, EXPR, ), sname});
#define VV(O, KIND, FORM, EXPR) if constexpr (!(isvec && std::is_same<S, ra::lock>::value)) t.v.push_back({O, KIND, false, FORM, LAM(A, O, EXPR, volatile), sname});
#define BIN(O, NAME) \
    V(O, F_PLAIN, true, "member", x.NAME(v)) \
    V(O, F_PLAIN, false, "function", ra::NAME(x, v)) \
    VV(O, F_PLAIN, "volatile member", x.NAME(v)) \
    VV(O, F_PLAIN, "volatile function", ra::NAME(x, v)) \
    if constexpr (is_cas<S> || is_cpp<S>) { V(O, F_ORDER, false, "member+order", x.NAME(v, m1)) V(O, F_ORDER, false, "function+order", ra::NAME(x, v, m1)) VV(O, F_ORDER, "volatile member+order", x.NAME(v, m1)) VV(O, F_ORDER, "volatile function+order", ra::NAME(x, v, m1)) } \
    if constexpr (is_cas<S>) { V(O, F_ORDER2, false, "member+2 orders", x.NAME(v, m1, m2)) V(O, F_ORDER2, false, "function+2 orders", ra::NAME(x, v, m1, m2)) VV(O, F_ORDER2, "volatile member+2 orders", x.NAME(v, m1, m2)) VV(O, F_ORDER2, "volatile function+2 orders", ra::NAME(x, v, m1, m2)) }
#define OPR(O, SYM) V(O, F_PLAIN, false, "operator", x SYM v) VV(O, F_PLAIN, "volatile operator", x SYM v)
#define UNA(O, NAME) \
    V(O, F_PLAIN, true, "member", x.NAME()) \
    V(O, F_PLAIN, false, "function", ra::NAME(x)) \
    VV(O, F_PLAIN, "volatile member", x.NAME()) \
    VV(O, F_PLAIN, "volatile function", ra::NAME(x)) \
    if constexpr (is_cas<S>) { V(O, F_ORDER, false, "member+order", x.NAME(m1)) V(O, F_ORDER, false, "function+order", ra::NAME(x, m1)) VV(O, F_ORDER, "volatile member+order", x.NAME(m1)) V(O, F_ORDER2, false, "member+2 orders", x.NAME(m1, m2)) V(O, F_ORDER2, false, "function+2 orders", ra::NAME(x, m1, m2)) VV(O, F_ORDER2, "volatile member+2 orders", x.NAME(m1, m2)) }
template <class A> static void common(Table &t) {
  t.type = tn; t.size = sizeof(T); t.nmux = (int)A::nmux;
  t.make = [](void *o, int k) { memset(o, 0, sizeof(A)); new (o) A(Mk<T>::val(initial[k])); };
  t.get = [](const void *o, void *out) { memcpy(out, &((const A *)o)->ref(), sizeof(T)); };
  t.conv = [](const void *o, void *out) { *(T *)out = T(*(const A *)o); };
  t.arg = arg; t.ref = ref; t.eq = eq; t.str = str; t.argstr = argstr;
}
template <class S, std::size_t NM = 0> static void table(const char *sname) {
  typedef ra::atomic<T, S, NM> A;
  Table t; t.scheme = sname; t.mixed = false; t.lock = std::is_same<S, ra::lock>::value;
  H::template common<A>(t);
  BIN(ADD, add) BIN(SUB, sub) OPR(ADD, +=) OPR(SUB, -=)
  if constexpr (!is_cpp<S>) {
    if constexpr (!isptr) { BIN(MUL, mul) BIN(DIV, div) OPR(MUL, *=) OPR(DIV, /=) }
    if constexpr (isint) { BIN(MOD, mod) BIN(SHL, lshift) BIN(SHR, rshift) OPR(MOD, %=) OPR(SHL, <<=) OPR(SHR, >>=) }
    BIN(MIN, min) BIN(MAX, max)
  }
  if constexpr (isint) { BIN(AND, andeq) BIN(OR, oreq) BIN(XOR, xoreq) OPR(AND, &=) OPR(OR, |=) OPR(XOR, ^=) }
  UNA(INC, inc) UNA(PREINC, preinc) UNA(POSTINC, postinc) UNA(DEC, dec) UNA(PREDEC, predec) UNA(POSTDEC, postdec)
  V(PREINC, F_PLAIN, false, "operator", ++x) V(POSTINC, F_PLAIN, false, "operator", x++) V(PREDEC, F_PLAIN, false, "operator", --x) V(POSTDEC, F_PLAIN, false, "operator", x--)
  VV(PREINC, F_PLAIN, "volatile operator", ++x) VV(POSTINC, F_PLAIN, "volatile operator", x++)
  tables().push_back(t);
}
#define OV(O, NAME) V(O, F_PLAIN, true, "member override", x.template NAME<S>(v)) V(O, F_PLAIN, false, "function override", ra::NAME<S>(x, v)) \
  if constexpr (is_cas<S> || is_cpp<S>) { V(O, F_ORDER, false, "member override+order", x.template NAME<S>(v, m1)) V(O, F_ORDER, false, "function override+order", ra::NAME<S>(x, v, m1)) }
#define OVU(O, NAME) V(O, F_PLAIN, true, "member override", x.template NAME<S>()) V(O, F_PLAIN, false, "function override", ra::NAME<S>(x))
template <class A, class S> static void overrides(Table &t, const char *sname) {
  OV(ADD, add) OV(SUB, sub)
  if constexpr (!is_cpp<S> && !isptr) { OV(MUL, mul) }
  if constexpr (!is_cpp<S>) { OV(MAX, max) OV(MIN, min) }
  OVU(PREINC, preinc) OVU(POSTINC, postinc) OVU(POSTDEC, postdec)
}
template <class OBJ> static void mixed(const char *sname) {
  typedef ra::atomic<T, OBJ> A;
  Table t; t.scheme = std::string(sname) + " object, scheme overridden"; t.mixed = true; t.lock = false;
  H::template common<A>(t);
  overrides<A, ra::strong>(t, "strong"); overrides<A, ra::weak>(t, "weak");
  if constexpr (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8) { overrides<A, ra::strong::pun>(t, "strong::pun"); overrides<A, ra::weak::pun>(t, "weak::pun"); }
  if constexpr (isint || isptr) overrides<A, ra::cpp>(t, "cpp");
  tables().push_back(t);
}
static void init() {
  if constexpr (isint || isptr) table<ra::cpp>("cpp");
  table<ra::strong>("strong"); table<ra::weak>("weak");
  if constexpr (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8) { table<ra::strong::pun>("strong::pun"); table<ra::weak::pun>("weak::pun"); }
  table<ra::lock>("lock");
#if TY == 0
  table<ra::lock, 1>("lock");
#endif
#if TY == 0 || TY == 5 || TY == 6
  mixed<ra::serial>("serial");
  mixed<ra::lock>("lock");
#endif
}
};
struct Init { Init() { H<TT>::init(); } } init_;
} // namespace
