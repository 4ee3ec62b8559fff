// Table of the atomics library's operations, shared by the concurrent checks.
#pragma once
#include <atomic>
#include <string>
#include <vector>
enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, MIN, MAX, INC, PREINC, POSTINC, DEC, PREDEC, POSTDEC, NOPS };
extern const char *opname[];
enum FormKind { F_PLAIN, F_ORDER, F_ORDER2 };
typedef void (*OpFn)(void *obj, const void *arg, void *ret, std::memory_order m1, std::memory_order m2);
struct Variant { Op op; FormKind kind; bool canon; const char *form; OpFn fn; std::string scheme; };
struct Table {                 // one object type
  std::string type, scheme;    // value type, scheme of the object
  size_t size;
  std::vector<Variant> v;
  void (*make)(void *obj, int init);                 // construct with initial value number init
  void (*arg)(Op op, int k, void *out);              // k-th operand for an operation (k = 0..2; 3: one that leaves the value unchanged)
  void (*get)(const void *obj, void *out);           // stored value
  void (*ref)(Op op, void *val, const void *arg, void *ret);  // plain semantics
  bool (*eq)(const void *a, const void *b);
  void (*conv)(const void *obj, void *out);          // the library's conversion to the value type (instrumented)
  std::string (*str)(const void *a);
  std::string (*argstr)(Op op, const void *a);
  bool mixed, lock;
  int nmux;
};
std::vector<Table> &tables();
