// U08: the type traits classify every type of the enumerated families as documented.
#include "mc.h"
#include <array>
#include <complex>
#include <deque>
#include <functional>
#include <algorithm>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <typeinfo>
#include "ristra/utils/type_traits.h"
#include "ristra/compatibility/type_traits.h"
using namespace ristra;
#define CC ,
#define IT(T, a) t(X<T, a>{});
template <class... T> struct L {};
template <class T> struct Tag { using type = T; };
template <class T> std::string N() { std::string s = __PRETTY_FUNCTION__; auto a = s.find("T = "); auto b = s.find(';', a); if (b == s.npos) b = s.size() - 1; return s.substr(a + 4, b - a - 4); }
template <class... T, class F> void each(L<T...>, F f) { (f(Tag<T>{}), ...); }
// ---- families of classes: one member per bit of the mask
template <bool, int> struct Mem {};
template <> struct Mem<true, 0> { using value_type = int; };
template <> struct Mem<true, 1> { using size_type = unsigned; };
template <> struct Mem<true, 2> { using allocator_type = int; };
template <> struct Mem<true, 3> { using iterator = int *; };
template <> struct Mem<true, 4> { using const_iterator = int *; };
template <> struct Mem<true, 5> { int size() const; };
template <> struct Mem<true, 6> { int *begin(); };
template <> struct Mem<true, 7> { int *end(); };
template <> struct Mem<true, 8> { int *cbegin() const; };
template <> struct Mem<true, 9> { int *cend() const; };
template <> struct Mem<true, 10> { int *data(); };
template <unsigned M> struct Con : Mem<bool(M & 1), 0>, Mem<bool(M & 2), 1>, Mem<bool(M & 4), 2>, Mem<bool(M & 8), 3>, Mem<bool(M & 16), 4>, Mem<bool(M & 32), 5>, Mem<bool(M & 64), 6>, Mem<bool(M & 128), 7>, Mem<bool(M & 256), 8>, Mem<bool(M & 512), 9>, Mem<bool(M & 1024), 10> {};
static void conck(unsigned M, bool c, bool k, bool cv, bool kv) {
  if (!mc::next()) return;
  MC_CHECK(c == (M == 2047) && cv == c, "class with container members %x (0 value_type, 1 size_type, 2 allocator_type, 3 iterator, 4 const_iterator, 5 size, 6 begin, 7 end, 8 cbegin, 9 cend, 10 data): is_container %d", M, c);
  MC_CHECK(k == ((M & 32) && (M & 1024)) && kv == k, "class with container members %x: is_minimal_container %d", M, k);
  mc::distinct(M);
}
template <unsigned B, unsigned... I> void con(std::integer_sequence<unsigned, I...>) { (conck(B + I, utils::is_container<Con<B + I>>::value, utils::is_minimal_container<Con<B + I>>::value, utils::is_container_v<Con<B + I>>, utils::is_minimal_container_v<Con<B + I>>), ...); }
template <bool, int> struct IM {};
template <> struct IM<true, 0> { using difference_type = long; };
template <> struct IM<true, 1> { using pointer = int *; };
template <> struct IM<true, 2> { using reference = int &; };
template <> struct IM<true, 3> { using value_type = int; };
template <> struct IM<true, 4> { using iterator_category = std::input_iterator_tag; };
template <unsigned M> struct Itr : IM<bool(M & 1), 0>, IM<bool(M & 2), 1>, IM<bool(M & 4), 2>, IM<bool(M & 8), 3>, IM<bool(M & 16), 4> { int operator*(); Itr &operator++(); };
template <unsigned... I> void itr(std::integer_sequence<unsigned, I...>) { auto one = [](auto c, unsigned m) { if (!mc::next()) return; using T = typename decltype(c)::type; bool b = utils::is_iterator<T>::value; MC_CHECK(b == (m == 31) && utils::is_iterator_v<T> == b, "class with iterator types %x (0 difference_type, 1 pointer, 2 reference, 3 value_type, 4 category): is_iterator %d", m, b); }; (one(Tag<Itr<I>>{}, I), ...); }
// ---- callables: mask of overloads
using Nm = std::string (*)();
static void ck(const char *w, bool got, bool exp, Nm a, Nm b = nullptr, Nm c = nullptr) { if (!mc::next()) return; mc::trans(); if (got != exp) mc::fail(mc::fmt("%s %s %s %s is %d", w, a().c_str(), b ? b().c_str() : "", c ? c().c_str() : "", got)); }
template <bool, int> struct CM { void operator()(CM) = delete; };
struct P0 { int x; };
struct C0 { void operator()(); };
struct C1 { int operator()(int); };
struct C2 { int operator()(int, const std::string &) const; };
struct C3 { template <class T> T operator()(T); };
struct C4 { void operator()(); void operator()(int); void operator()(std::string &, double); };
struct C5 : C1 {};
struct C6 : C1, P0 { };
struct C7 { template <class... T> void operator()(T &&...); };
struct C8 { void operator()(P0 &); };
struct C9 { void operator()(P0 &&); };
struct C10 { void operator()(int) &; void operator()() const &; };
struct C11 { void operator()(int) &&; void operator()(double, int) const &&; };
struct N1 { void call(); int operator[](int); };
struct N2 { operator int() const; };
struct N3 { static void f(); int operator+(int); };
union Un { int a; };
enum En { en };
enum class Ec { e };
struct S1 { int operator[](int); };
struct S2 { int operator[](const std::string &) const; };
struct S3 { int operator[](int *); int operator[](Ec); };
struct S4 { int operator[](int) &; int operator[](Ec) const &; };
struct S5 { int operator[](int) &&; };
struct W5 {}; std::ostream &operator<<(std::ostream &, W5 &&);
struct W1 {}; std::ostream &operator<<(std::ostream &, const W1 &);
struct W2 {}; std::ostream &operator<<(std::ostream &, W2 &);
struct W3 { operator int() const; };
struct W4 {}; void operator<<(std::ostream &, W4);
struct Base { virtual ~Base() {} };
template <class T, class I, class = void> struct Sub : std::false_type {};
template <class T, class I> struct Sub<T, I, decltype(void(std::declval<T>()[std::declval<I>()]))> : std::true_type {};
template <class T, class = void> struct Wr : std::false_type {};
template <class T> struct Wr<T, decltype(void(std::declval<std::ostream &>() << std::declval<T>()))> : std::true_type {};
template <class> struct Nest {};
template <size_t K> struct NestN { using type = Nest<typename NestN<K - 1>::type>; };
template <> struct NestN<0> { using type = int; };
template <size_t... K, class F> void nests(std::index_sequence<K...>, F f) { (f(NestN<K>{}, int(K)), ...); }
template <class T, bool V> struct X { using type = T; static constexpr bool value = V; };
int main(int argc, char **argv) {
  mc::init(argc, argv);
#if SEC == 0
  if (mc::group("container.members")) { auto s = std::make_integer_sequence<unsigned, 256>{}; con<0>(s); con<256>(s); con<512>(s); con<768>(s); con<1024>(s); con<1280>(s); con<1536>(s); con<1792>(s); }
  if (mc::group("iterator.members")) itr(std::make_integer_sequence<unsigned, 32>{});
  if (mc::group("container.types")) {
    auto two = [](auto x, auto y) { if (!mc::next()) return; using T = typename decltype(x)::type; bool c = utils::is_container_v<T>, m = utils::is_minimal_container_v<T>; MC_CHECK(c == decltype(x)::value && m == decltype(y)::value, "%s: is_container %d, is_minimal_container %d", N<T>().c_str(), c, m); };
    auto t = [&](auto x, auto y) { two(x, y); };
#define CT(T, a, b) t(X<T, a>{}, X<T, b>{});
    CT(std::vector<int>, 1, 1) CT(std::string, 1, 1) CT(std::vector<std::string>, 1, 1) CT(std::wstring, 1, 1) CT(std::vector<std::vector<int>>, 1, 1)
    CT(std::array<int CC 3>, 0, 1) CT(std::list<int>, 0, 0) CT(std::deque<int>, 0, 0) CT(std::map<int CC int>, 0, 0) CT(int, 0, 0) CT(int *, 0, 0) CT(int[3], 0, 0) CT(std::pair<int CC int>, 0, 0) CT(std::tuple<int>, 0, 0) CT(std::initializer_list<int>, 0, 0) CT(void, 0, 0) CT(double, 0, 0) CT(En, 0, 0) CT(Un, 0, 0) CT(std::unique_ptr<int>, 0, 0) CT(P0, 0, 0) CT(std::function<int(int)>, 0, 0) CT(std::vector<int> *, 0, 0) CT(char const *, 0, 0)
  }
#endif
#if SEC == 1
  if (mc::group("iterator.types")) {
    auto t = [](auto x) { if (!mc::next()) return; using T = typename decltype(x)::type; bool v = utils::is_iterator<T>::value; MC_CHECK(v == decltype(x)::value && utils::is_iterator_v<T> == v, "%s: is_iterator %d", N<T>().c_str(), v); };
    IT(int *, 1) IT(const int *, 1) IT(P0 *, 1) IT(std::vector<int>::iterator, 1) IT(std::vector<int>::const_iterator, 1) IT(std::list<P0>::iterator, 1) IT(std::map<int CC int>::const_iterator, 1) IT(std::string::reverse_iterator, 1) IT(std::istream_iterator<int>, 1) IT(std::vector<bool>::iterator, 1) IT(std::back_insert_iterator<std::vector<int>>, 1) IT(std::ostream_iterator<int>, 1) IT(int **, 1) IT(std::move_iterator<int *>, 1)
    IT(int, 0) IT(double, 0) IT(bool, 0) IT(En, 0) IT(P0, 0) IT(std::vector<int>, 0) IT(std::string, 0) IT(std::map<int CC int>, 0) IT(std::unique_ptr<int>, 0) IT(std::shared_ptr<int>, 0) IT(std::nullptr_t, 0) IT(int P0::*, 0) IT(Un, 0) IT(std::tuple<int *>, 0)
  }
  if (mc::group("callable")) {
    auto l0 = [] {}; auto l1 = [](int x) { return x; }; int z = 0; auto l2 = [&z](auto x) { return x; }; auto l3 = [z](int, double) mutable { return z++; };
    auto t = [](auto x) { if (!mc::next()) return; using T = typename decltype(x)::type; bool v = utils::is_callable<T>::value; MC_CHECK(v == decltype(x)::value && utils::is_callable_v<T> == v, "%s: is_callable %d", N<T>().c_str(), v); };
    IT(C0, 1) IT(C1, 1) IT(C2, 1) IT(C3, 1) IT(C4, 1) IT(C5, 1) IT(C6, 1) IT(C7, 1) IT(C8, 1) IT(decltype(l0), 1) IT(decltype(l1), 1) IT(decltype(l2), 1) IT(decltype(l3), 1) IT(std::function<void()>, 1) IT(std::function<int(int CC double)>, 1) IT(std::plus<int>, 1) IT(std::less<>, 1) IT(std::reference_wrapper<C1>, 1) IT(std::hash<int>, 1)
    IT(P0, 0) IT(N1, 0) IT(N2, 0) IT(N3, 0) IT(int, 0) IT(double, 0) IT(bool, 0) IT(char *, 0) IT(En, 0) IT(Ec, 0) IT(std::string, 0) IT(std::vector<int>, 0) IT(std::array<double CC 2>, 0) IT(std::tuple<C1>, 0) IT(std::pair<C1 CC C1>, 0) IT(std::vector<C1>, 0) IT(std::shared_ptr<C1>, 0) IT(Base, 0) IT(std::complex<double>, 0)
  }
  using Idx = L<int, unsigned char, int *, const char *, std::string, std::string &, Ec, P0, En, double>;
  if (mc::group("subscript")) each(L<int *, const int *, int[3], int (&)[3], std::vector<int>, const std::vector<int> &, std::map<std::string, int>, std::map<std::string, int> &, const std::map<std::string, int> &, std::string, std::array<int, 2>, std::list<int>, int, double, P0, S1, const S1, S1 &, S2, const S2 &, S3, S4, S4 &, const S4, const S4 &, S5, S5 &, const S5, S5 &&, N1, C1, std::unique_ptr<int[]>, std::unique_ptr<int>, std::tuple<int>, std::function<int(int)>>{}, [](auto a) {
    using T = typename decltype(a)::type; each(Idx{}, [](auto b) { using I = typename decltype(b)::type; ck("has_subscript_operator", utils::has_subscript_operator<T, I>::value, Sub<T, I>::value, &N<T>, &N<I>); }); });
#endif
#if SEC == 2
  if (mc::group("call")) {
    using Arg = L<int, double, std::string, std::string &, const std::string &, int *, P0, P0 &, const char *>;
    auto one = [](auto... p) { (void)sizeof...(p); };
    each(L<C0, const C0, C1, C2, const C2 &, C3, C4, C5, C6, C7, C8, C9, C10, C10 &, const C10, const C10 &, C11, C11 &, C11 &&, const C11, P0, N1, int, void (*)(), int (*)(int), double (&)(double, const std::string &), std::function<void(int)>, std::function<int(std::string &, double)>, std::plus<int>, std::plus<>, std::string, int *>{}, [](auto a) {
      using T = typename decltype(a)::type;
      ck("has_call_operator", utils::has_call_operator<T>::value, std::is_invocable<T>::value, &N<T>);
      each(Arg{}, [](auto b) { using I = typename decltype(b)::type; ck("has_call_operator", utils::has_call_operator<T, I>::value, std::is_invocable<T, I>::value, &N<T>, &N<I>);
        each(L<int, std::string &, const char *, P0, double>{}, [](auto c) { using J = typename decltype(c)::type; ck("has_call_operator", utils::has_call_operator<T, I, J>::value, std::is_invocable<T, I, J>::value, &N<T>, &N<I>, &N<J>); }); });
      if (mc::next()) { bool v = utils::has_call_operator<T, int, int, int>::value; MC_CHECK((v == std::is_invocable<T, int, int, int>::value), "%s(int,int,int): has_call_operator %d", N<T>().c_str(), v); } }); }
  if (mc::group("writeable")) each(L<int, double, bool, char, const char *, std::string, std::string &, const std::string &, std::vector<int>, P0, W1, W1 &, const W1 &, W2, W2 &, const W2 &, W3, W4, W5, W5 &, const W5, W5 &&, En, Ec, void *, int *, std::nullptr_t, std::pair<int, int>, std::unique_ptr<int>, std::shared_ptr<int>, std::complex<double>, std::function<void()>, Un, C1, std::tuple<>, int[2], std::ostream &>{}, [](auto a) { using T = typename decltype(a)::type; if (!mc::next()) return; bool v = utils::is_ostream_writeable<T>::value; MC_CHECK((v == Wr<T>::value && utils::is_ostream_writeable_v<T> == v), "%s: is_ostream_writeable %d", N<T>().c_str(), v); });
#endif
#if SEC == 3
  // all sequences of types up to length 4
  using Ty = L<int, unsigned char, bool, double, const int, int &, std::string>;
  if (mc::group("lists")) {
    auto chk = [](auto... x) { using A = L<typename decltype(x)::type...>; constexpr bool e = (std::is_integral<typename decltype(x)::type>::value && ...);
      ck("are_integral", utils::are_integral<typename decltype(x)::type...>::value, e, &N<A>); ck("are_integral_v", utils::are_integral_v<typename decltype(x)::type...>, e, &N<A>);
      each(L<int, const int &, bool, std::string>{}, [](auto g) { using G = typename decltype(g)::type; ck("are_type_t", utils::are_type_t<G, typename decltype(x)::type...>::value, (std::is_same<std::remove_cv_t<std::remove_reference_t<typename decltype(x)::type>>, std::remove_cv_t<std::remove_reference_t<G>>>::value && ...), &N<G>, &N<A>); }); };
    chk(); each(Ty{}, [&](auto a) { chk(a); each(Ty{}, [&](auto b) { chk(a, b); each(Ty{}, [&](auto c) { chk(a, b, c); if constexpr (std::is_same<decltype(a), decltype(b)>::value) each(L<int, double>{}, [&](auto d) { chk(a, b, c, d); }); }); }); });
  }
#endif
#if SEC == 1
  if (mc::group("extents")) {
    auto t = [](auto x, std::vector<size_t> e) { if (!mc::next()) return; using T = typename decltype(x)::type; auto &r = utils::extract_extents<T>(); size_t n = sizeof(r) / sizeof(r[0]); MC_CHECK(n == e.size(), "%s has %zu extents", N<T>().c_str(), n); for (size_t i = 0; i < e.size() && i < n; ++i) MC_CHECK(r[i] == e[i], "%s: extent %zu is %zu", N<T>().c_str(), i, (size_t)r[i]); MC_CHECK(&r == &utils::extract_extents<T>(), "the extents outlive the call"); };
#define X1(a) t(Tag<int[a]>{}, {a}); t(Tag<double[a]>{}, {a});
#define X2(a, b) t(Tag<int[a][b]>{}, {a, b}); t(Tag<std::string[a][b]>{}, {a, b});
#define X3(a, b, c) t(Tag<int[a][b][c]>{}, {a, b, c});
#define X3c(a, b) X2(a, b) X3(a, b, 1) X3(a, b, 2) X3(a, b, 3) X3(a, b, 4)
#define X3b(a) X1(a) X3c(a, 1) X3c(a, 2) X3c(a, 3) X3c(a, 4)
    X3b(1) X3b(2) X3b(3) X3b(4) t(Tag<char[2][3][4][5]>{}, {2, 3, 4, 5}); t(Tag<char[5][4][3][2][1]>{}, {5, 4, 3, 2, 1}); X1(70000)
  }
  if (mc::group("decay")) {
    each(L<int, const int, int &, const int &, int &&, int[3], const char[4], int (&)[2], void(int), std::string, const std::string &, std::vector<int> &, volatile int, int *, int *const, P0, std::unique_ptr<int> &&, double *&>{}, [](auto a) {
      using T = typename decltype(a)::type; if (mc::next()) MC_CHECK((std::is_same<utils::special_decay_t<T>, std::decay_t<T>>::value && std::is_same<typename utils::special_decay<T>::type, std::decay_t<T>>::value), "special_decay of %s is %s", N<T>().c_str(), N<utils::special_decay_t<T>>().c_str());
      if (mc::next()) { using R = std::remove_reference_t<T>; MC_CHECK((std::is_same<utils::special_decay_t<std::reference_wrapper<R>>, R &>::value), "special_decay of a reference_wrapper of %s is %s", N<R>().c_str(), N<utils::special_decay_t<std::reference_wrapper<R>>>().c_str()); } }); }
  if (mc::group("lists.decay")) each(L<int *, int[3], int (&)[2], const int *, const int[2], int *const, void(), void (*)(), void (&)(), void (*const &)(), int>{}, [](auto a) { using T = typename decltype(a)::type; each(L<int *, int[3], int (&)[2], const int *, const int[2], int *const &, void(), void (*)(), void (&)(), int, const int &>{}, [](auto b) { using U = typename decltype(b)::type; ck("are_type_t", utils::are_type_t<T, U>::value, std::is_same<std::decay_t<T>, std::decay_t<U>>::value, &N<T>, &N<U>); ck("are_type_t", utils::are_type_t<T, T, U>::value, std::is_same<std::decay_t<T>, std::decay_t<U>>::value, &N<T>, &N<U>); }); });
  if (mc::group("names.long")) { auto deep = [](auto x, int n) { if (!mc::next()) return; using T = typename decltype(x)::type; std::string e = "int"; for (int i = 0; i < n; ++i) e = "Nest<" + e + (e.back() == '>' ? " >" : ">"); std::string g = utils::type_as_string<T>(); auto strip = [](std::string q) { q.erase(std::remove(q.begin(), q.end(), ' '), q.end()); return q; }; MC_CHECK(strip(g) == strip(e), "type_as_string of %d nested templates gives %s", n, g.c_str()); mc::distinct(n); }; nests(std::make_index_sequence<130>{}, deep); }
  if (mc::group("names")) {
    auto t = [](auto x, const char *e) { if (!mc::next()) return; using T = typename decltype(x)::type; for (int k = 0; k < 3; ++k) { std::string n = utils::type_as_string<T>(); MC_CHECK(n == e, "type_as_string gives %s, expected %s", n.c_str(), e); } };
#define NM(T, s) t(Tag<T>{}, s);
    NM(int, "int") NM(unsigned, "unsigned int") NM(double, "double") NM(long, "long") NM(bool, "bool") NM(char, "char") NM(signed char, "signed char") NM(float, "float") NM(long double, "long double") NM(void, "void") NM(int *, "int*") NM(int **, "int**") NM(const int *, "int const*") NM(int[3], "int [3]") NM(int(double), "int (double)") NM(int (*)(double), "int (*)(double)") NM(P0, "P0") NM(En, "En") NM(Ec, "Ec") NM(std::plus<int>, "std::plus<int>") NM(std::complex<double>, "std::complex<double>") NM(const int, "int") NM(int &, "int") NM(const P0 &, "P0") NM(std::nullptr_t, "decltype(nullptr)") NM(int P0::*, "int P0::*") NM(Itr<3>, "Itr<3u>") NM(std::less<P0 *>, "std::less<P0*>") NM(unsigned long, "unsigned long") NM(unsigned char, "unsigned char") NM(short, "short") }
  if (mc::group("compatibility")) each(L<int, const int, bool, char, long long, double, const float, long double, int *, int &, P0, En, Ec, void, void(), int(int), void (*)(), std::function<void()>, std::string, C1, int[2], std::nullptr_t>{}, [](auto a) {
    using T = typename decltype(a)::type; if (mc::next()) MC_CHECK((compatibility::is_arithmetic_v<T> == std::is_arithmetic<T>::value && compatibility::is_function_v<T> == std::is_function<T>::value && compatibility::is_integral_v<T> == std::is_integral<T>::value), "compatibility traits of %s", N<T>().c_str());
    each(L<int, const int, double, P0, void(), int &, bool>{}, [](auto b) { using U = typename decltype(b)::type; if (mc::next()) MC_CHECK((compatibility::is_same_v<T, U> == std::is_same<T, U>::value), "is_same of %s and %s", N<T>().c_str(), N<U>().c_str()); }); });
#endif
  mc::finish();
}
