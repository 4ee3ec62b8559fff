// Controlled-scheduler runtime for stateless model checking of real C++ code.
// The code under test is compiled with -fsanitize=thread, but linked with
// mcrt.cc instead of libtsan: every atomic access, plain access to shared
// memory and pthread mutex operation becomes a scheduling point.
#pragma once
#include <atomic>
#include <cstddef>
#include <string>
#include <vector>
namespace mcrt {
struct Options {
  int threads = 2;
  bool weak = false;       // explore stale reads permitted by the C++ memory model
  bool races = false;      // report data races
  int spurious = 1;        // max. number of spurious weak-CAS failures per execution
  int suspend = 0;         // max. number of threads suspended for ever at some point
  int horizon = 400;       // steps before the scheduler turns fair
  int preempt = -1;        // preemption bound (-1: none)
  long max_exec = -1;      // cap on executions (reported when hit)
  bool storm = false;      // fixed schedule: before every step of T0, T1 completes one whole operation; weak
                           // compare-and-swap fails spuriously `spurious` times in a row
};
struct Stats {
  long execs = 0, steps = 0, choices = 0, blocked = 0, spurious = 0, stale = 0, truncated = 0, suspended = 0;
  bool capped = false;
  void add(const Stats &o) {
    execs += o.execs; steps += o.steps; choices += o.choices; blocked += o.blocked; spurious += o.spurious;
    stale += o.stale; truncated += o.truncated; suspended += o.suspended; capped |= o.capped;
  }
};
struct Failure { std::string kind, why; std::vector<int> schedule; std::string trace; };
// ctx-based callbacks.  reset() re-initialises the shared objects, body(tid) is
// a thread, check() judges a finished execution.
typedef void (*ResetFn)(void *ctx);
typedef void (*BodyFn)(void *ctx, int tid);
typedef bool (*CheckFn)(void *ctx, std::string &why);
void share(void *p, size_t n);      // declare shared memory (scheduling points + race detection)
void clear_shared();
// the globals of the executable (code under test): shared, and restored before each execution
void set_globals(char *lo, char *hi);
// explores all executions; returns false (and fills f) at the first failing one
bool explore(const Options &, void *ctx, ResetFn, BodyFn, CheckFn, Stats &, Failure &);
// runs a single execution with the given schedule (for replay); prints the trace
bool replay(const Options &, void *ctx, ResetFn, BodyFn, CheckFn, const std::vector<int> &, Failure &);
// called by bodies around one operation; first/last visible step of the operation
void op_begin();
void op_end(int &first, int &last);
// instrumented accesses for use in uninstrumented thread bodies
void plain_write(int *p, int v);
int plain_read(int *p);
void atomic_load(const void *p, size_t n, void *out, std::memory_order mo);
void atomic_store(void *p, size_t n, const void *val, std::memory_order mo);
void atomic_xchg(void *p, size_t n, const void *val, void *old, std::memory_order mo);
bool was_suspended(int tid);        // valid in check()
bool blocked_this_exec();           // some thread had to wait for a lock in this execution
}
