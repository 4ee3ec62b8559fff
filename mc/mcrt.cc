#include "mcrt.h"
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

// ---------------------------------------------------------------- fibers
extern "C" void mcrt_switch(void **save, void *load);
asm(R"(
.text
.globl mcrt_switch
mcrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

namespace {
const int MAXT = 4;
const size_t STACK = 128 * 1024;
}

namespace {
typedef std::array<u32, MAXT> VC;
typedef std::map<uintptr_t, int> View;      // location -> timestamp
void joinv(View &a, const View &b) { for (auto &p : b) { int &x = a[p.first]; if (p.second > x) x = p.second; } }
void joinc(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

struct Msg { u8 bytes[16]; View view; VC vc; };
struct Loc { std::vector<Msg> msgs; int size; };
struct Shadow { VC w{}, r{}, aw{}, ar{}; };
struct Mtx { int owner = -1, count = 0, readers = 0; View view; VC vc{}; };

enum Kind { K_NONE, K_ATOMIC, K_PLAIN, K_LOCK, K_UNLOCK, K_YIELD, K_RDLOCK };
struct Thread {
  void *sp = nullptr; char *stack = nullptr;
  bool done = false, suspended = false, yielded = false;
  Kind pend = K_NONE; uintptr_t paddr = 0;
  View view, acqview, relview; VC vc{}, acqvc{}, relvc{};
  int first = -1, last = -1;
  uintptr_t spin_addr = 0; int spin = 0;
};

mcrt::Options opt;
Thread th[MAXT];
int nth = 0, cur = -1;
bool running = false;
void *main_sp;
char *data_lo, *data_hi; std::vector<char> snapshot; // the executable's own globals
void *uctx; mcrt::BodyFn ubody;
std::vector<std::pair<uintptr_t, size_t>> regions;
std::map<uintptr_t, Loc> locs;
std::map<uintptr_t, Shadow> shadow;
std::map<uintptr_t, Mtx> mtx;
View scview;

struct Choice { int n, pick; };
std::vector<Choice> stack_;
size_t depth_;
int steps, preempts, nspur, nsusp, execno;
bool fair, failed, aborting, any_block, tracing;
mcrt::Stats *st;
mcrt::Failure *fl;
std::string tracebuf;

void fail(const char *kind, const std::string &why) {
  if (failed) return;
  failed = true; fl->kind = kind; fl->why = why;
}
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
void trace(const char *fmt, ...) {
  if (!tracing) return;
  char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  tracebuf += b; tracebuf += '\n';
}

int choose(int n) {
  if (n <= 1 || fair) return 0;
  if (depth_ < stack_.size()) {
    if (stack_[depth_].n != n) { fprintf(stderr, "mcrt: nondeterministic replay (%d vs %d at %zu)\n", stack_[depth_].n, n, depth_); _exit(3); }
    return stack_[depth_++].pick;
  }
  stack_.push_back({n, 0}); depth_++; st->choices++;
  return 0;
}

bool enabled(int t) {
  Thread &x = th[t];
  if (x.done || x.suspended) return false;
  if (x.pend == K_LOCK) { Mtx &m = mtx[x.paddr]; return (m.owner < 0 && m.readers == 0) || (m.owner == t && m.count < 0); }
  if (x.pend == K_RDLOCK) { Mtx &m = mtx[x.paddr]; return m.owner < 0; }
  return true;
}

// the executable's thread-local variables: every fiber has its own copy
char *tls_lo; size_t tls_n, tls_filled; const char *tls_init; std::vector<char> tls_copy[MAXT + 1];
void find_tls() {
  if (tls_lo) return;
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
      auto &h = i->dlpi_phdr[k]; size_t n = (h.p_memsz + h.p_align - 1) / h.p_align * h.p_align;
      tls_lo = (char *)__builtin_thread_pointer() - n; tls_n = h.p_memsz; tls_filled = h.p_filesz; tls_init = (const char *)(i->dlpi_addr + h.p_vaddr);
    }
    return 1; }, nullptr);          // the first object is the executable
  if (!tls_lo) tls_lo = (char *)1;
}
void tls_swap(int from, int to) { if (tls_n && from != to) { memcpy(tls_copy[from + 1].data(), tls_lo, tls_n); memcpy(tls_lo, tls_copy[to + 1].data(), tls_n); } }
inline bool in_tls(uintptr_t a) { return a - (uintptr_t)tls_lo < tls_n; }

void switch_to(int t) {
  int old = cur; cur = t;
  if (old == t) return;
  tls_swap(old, t);
  if (old < 0) mcrt_switch(&main_sp, th[t].sp);
  else mcrt_switch(&th[old].sp, th[t].sp);
}
void to_main() { int old = cur; cur = -1; tls_swap(old, -1); mcrt_switch(&th[old].sp, main_sp); }

// picks the next thread; called from the current fiber (or main when cur<0)
int pick() {
  int en[MAXT], n = 0; bool cur_en = false;
  if (cur >= 0 && enabled(cur) && !th[cur].yielded) { en[n++] = cur; cur_en = true; }
  for (int i = 0; i < nth; ++i) if (i != cur && enabled(i) && !th[i].yielded) en[n++] = i;
  if (n == 0) { // only yielded ones
    for (int i = 0; i < nth; ++i) if (enabled(i)) { th[i].yielded = false; en[n++] = i; }
  }
  if (n == 0) return -1;
  if (opt.storm) { // T0 steps alternate with whole operations of T1
    if (cur < 0) return enabled(0) ? 0 : en[0];
    if (cur == 0 && nth > 1 && enabled(1)) return 1;
    if (cur == 1 && th[1].first < 0 && enabled(0)) return 0;
    return enabled(cur) ? cur : en[0];
  }
  if (fair) { for (int k = 1; k <= nth; ++k) { int t = ((cur < 0 ? 0 : cur) + k) % nth; for (int i = 0; i < n; ++i) if (en[i] == t) return t; } }
  if (cur_en && opt.preempt >= 0 && preempts >= opt.preempt) n = 1;
  int c = choose(n);
  if (cur_en && c != 0) preempts++;
  return en[c];
}

// A scheduling point: the current fiber announces its next step.
void point(Kind k, uintptr_t a) {
  Thread &me = th[cur];
  me.pend = k; me.paddr = a;
  if (++steps > opt.horizon) fair = true;
  st->steps++;
  if (steps > 20 * opt.horizon) { fail("livelock", "an operation does not finish although all threads are scheduled fairly"); aborting = true; to_main(); }
  if (aborting) to_main();
  // a thread that keeps accessing one location without anyone else running is spinning
  if (a == me.spin_addr) { if (++me.spin > 12) me.yielded = true; } else { me.spin_addr = a; me.spin = 0; }
  if (opt.suspend > nsusp && !fair && choose(2) == 1) {
    me.suspended = true; nsusp++; st->suspended++;
    if (tracing) trace("%3d  T%d suspended for ever", execno, cur);
  }
  if ((k == K_LOCK || k == K_RDLOCK) && !me.suspended && !enabled(cur)) { any_block = true; st->blocked++; }
  int t = pick();
  if (t < 0) { // nobody can run
    bool alive = false; for (int i = 0; i < nth; ++i) if (!th[i].done && !th[i].suspended) alive = true;
    if (alive) fail("deadlock", "no thread can run, but some operation has not finished");
    to_main();
  }
  if (t != cur) switch_to(t);
  // resumed: about to execute the pending step
  for (int i = 0; i < nth; ++i) if (i != cur) { th[i].yielded = false; th[i].spin = 0; }
  Thread &m2 = th[cur];
  m2.pend = K_NONE;
  m2.vc[cur]++;
  ++execno;
  if (m2.first < 0) m2.first = execno;
  m2.last = execno;
}

void finish() {
  th[cur].done = true;
  int t = pick();
  if (t < 0) {
    bool alive = false; for (int i = 0; i < nth; ++i) if (!th[i].done && !th[i].suspended) alive = true;
    if (alive && !failed) fail("deadlock", "no thread can run, but some operation has not finished");
    to_main();
  }
  switch_to(t);
}
void entry() { ubody(uctx, cur); finish(); abort(); }
void make_fiber(int i) {
  if (!th[i].stack) th[i].stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  void **sp = (void **)(th[i].stack + STACK - 64);
  *--sp = nullptr;                 // alignment / fake return
  *--sp = (void *)entry;
  for (int k = 0; k < 6; ++k) *--sp = nullptr;
  th[i].sp = sp;
}

inline bool shared(uintptr_t a) {
  if (!running || cur < 0) return false;
  for (auto &r : regions) if (a >= r.first && a < r.first + r.second) return true;
  return a >= (uintptr_t)data_lo && a < (uintptr_t)data_hi;
}

// ------------------------------------------------ race detection
bool before(const VC &e, const VC &now, int &who) { for (int i = 0; i < nth; ++i) if (i != cur && e[i] > now[i]) { who = i; return false; } return true; }
void check_race(uintptr_t a, size_t n, bool write, bool atomic) {
  if (!opt.races) return;
  const VC &me = th[cur].vc; int w = 0;
  for (size_t i = 0; i < n; ++i) {
    Shadow &s = shadow[a + i];
    bool bad = !before(s.w, me, w) || (!atomic && !before(s.aw, me, w)) || (write && (!before(s.r, me, w) || (!atomic && !before(s.ar, me, w))));
    if (bad) { fail("race", "data race between threads " + std::to_string(w) + " and " + std::to_string(cur) + (write ? " (write)" : " (read)") + (atomic ? " atomic" : " plain")); }
    VC &e = write ? (atomic ? s.aw : s.w) : (atomic ? s.ar : s.r);
    e[cur] = me[cur];
  }
}

// ------------------------------------------------ plain accesses
void plain(uintptr_t a, size_t n, bool write) {
  if (!shared(a)) return;
  point(K_PLAIN, a);
  if (tracing) trace("%3d  T%d %s %zu bytes at %lx", execno, cur, write ? "write" : "read", n, (unsigned long)a);
  check_race(a, n, write, false);
  if (opt.weak && write) { // a later atomic read must not see older messages: drop history lazily
    for (auto it = locs.begin(); it != locs.end();) { if (it->first < a + n && a < it->first + it->second.size) it = locs.erase(it); else ++it; }
  }
}

// ------------------------------------------------ atomic accesses
bool isacq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isrel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
Loc &loc_of(uintptr_t a, size_t n) {
  Loc &l = locs[a];
  if (l.msgs.empty() || l.size != (int)n) {
    l.msgs.clear(); l.size = (int)n; Msg m{}; memcpy(m.bytes, (void *)a, n); l.msgs.push_back(m);
    for (auto &t : th) t.view.erase(a);
    scview.erase(a);
  }
  return l;
}
void read_msg(uintptr_t a, Loc &l, int ts, int mo) {
  Thread &me = th[cur]; Msg &m = l.msgs[ts];
  int &v = me.view[a]; if (ts > v) v = ts;
  if (isacq(mo)) { joinv(me.view, m.view); joinc(me.vc, m.vc); }
  else { joinv(me.acqview, m.view); joinc(me.acqvc, m.vc); }
  if (mo == __ATOMIC_SEQ_CST) { int &s = scview[a]; if (ts > s) s = ts; }
}
void write_msg(uintptr_t a, Loc &l, const void *val, size_t n, int mo, bool rmw) {
  Thread &me = th[cur]; Msg m{}; memcpy(m.bytes, val, n);
  int ts = (int)l.msgs.size();
  if (rmw) { m.view = l.msgs.back().view; m.vc = l.msgs.back().vc; }
  me.view[a] = ts;
  if (isrel(mo)) { joinv(m.view, me.view); joinc(m.vc, me.vc); }
  else { joinv(m.view, me.relview); joinc(m.vc, me.relvc); }
  m.view[a] = ts;
  if (mo == __ATOMIC_SEQ_CST) scview[a] = ts;
  l.msgs.push_back(m);
  memcpy((void *)a, val, n);
}
std::string hex(const void *p, size_t n) { std::string s; char b[3]; for (size_t i = n; i-- > 0;) { snprintf(b, 3, "%02x", ((const u8 *)p)[i]); s += b; } return s; }

void a_load(uintptr_t a, size_t n, void *out, int mo) {
  if (!shared(a)) { memcpy(out, (void *)a, n); return; }
  point(K_ATOMIC, a);
  check_race(a, n, false, true);
  if (!opt.weak && !opt.races) { memcpy(out, (void *)a, n); if (tracing) trace("%3d  T%d load %lx = %s", execno, cur, (unsigned long)a, hex(out, n).c_str()); return; }
  Loc &l = loc_of(a, n); Thread &me = th[cur];
  int lo = 0; { auto it = me.view.find(a); if (it != me.view.end()) lo = it->second; }
  if (mo == __ATOMIC_SEQ_CST) { auto it = scview.find(a); if (it != scview.end() && it->second > lo) lo = it->second; }
  int hi = (int)l.msgs.size() - 1;
  int c = opt.weak ? choose(hi - lo + 1) : 0;
  if (c) st->stale++;
  int ts = hi - c;
  memcpy(out, l.msgs[ts].bytes, n);
  read_msg(a, l, ts, mo);
  if (tracing) trace("%3d  T%d load %lx = %s mo=%d%s", execno, cur, (unsigned long)a, hex(out, n).c_str(), mo, c ? " (stale)" : "");
}
void a_store(uintptr_t a, size_t n, const void *val, int mo) {
  if (!shared(a)) { memcpy((void *)a, val, n); return; }
  point(K_ATOMIC, a);
  check_race(a, n, true, true);
  if (tracing) trace("%3d  T%d store %lx = %s mo=%d", execno, cur, (unsigned long)a, hex(val, n).c_str(), mo);
  if (!opt.weak && !opt.races) { memcpy((void *)a, val, n); return; }
  write_msg(a, loc_of(a, n), val, n, mo, false);
}
// generic RMW: f(old)->new
template <class F> void a_rmw(uintptr_t a, size_t n, void *old, int mo, F f) {
  u8 neu[16];
  if (!shared(a)) { memcpy(old, (void *)a, n); f(old, neu); memcpy((void *)a, neu, n); return; }
  point(K_ATOMIC, a);
  check_race(a, n, true, true);
  memcpy(old, (void *)a, n); f(old, neu);
  if (tracing) trace("%3d  T%d rmw %lx %s -> %s mo=%d", execno, cur, (unsigned long)a, hex(old, n).c_str(), hex(neu, n).c_str(), mo);
  if (!opt.weak && !opt.races) { memcpy((void *)a, neu, n); return; }
  Loc &l = loc_of(a, n);
  read_msg(a, l, (int)l.msgs.size() - 1, mo);
  write_msg(a, l, neu, n, mo, true);
}
bool a_cas(uintptr_t a, size_t n, void *exp, const void *des, int mo, int fmo, bool weak) {
  if (!shared(a)) { if (!memcmp((void *)a, exp, n)) { memcpy((void *)a, des, n); return true; } memcpy(exp, (void *)a, n); return false; }
  point(K_ATOMIC, a);
  bool eq = !memcmp((void *)a, exp, n);
  bool spur = false;
  if (eq && weak && nspur < opt.spurious && !fair && (opt.storm || choose(2) == 1)) { spur = true; nspur++; st->spurious++; }
  bool ok = eq && !spur;
  check_race(a, n, ok, true);
  if (tracing) trace("%3d  T%d cas %lx exp=%s des=%s cur=%s %s mo=%d/%d", execno, cur, (unsigned long)a, hex(exp, n).c_str(), hex(des, n).c_str(), hex((void *)a, n).c_str(), ok ? "ok" : spur ? "spurious failure" : "failed", mo, fmo);
  if (opt.weak || opt.races) {
    Loc &l = loc_of(a, n);
    read_msg(a, l, (int)l.msgs.size() - 1, ok ? mo : fmo);
    if (ok) { write_msg(a, l, des, n, mo, true); return true; }
  } else if (ok) { memcpy((void *)a, des, n); return true; }
  memcpy(exp, (void *)a, n);
  return false;
}
void fence(int mo) {
  if (!running || cur < 0) return;
  Thread &me = th[cur];
  if (isacq(mo)) { joinv(me.view, me.acqview); joinc(me.vc, me.acqvc); }
  if (mo == __ATOMIC_SEQ_CST) { joinv(me.view, scview); joinv(scview, me.view); }
  if (isrel(mo)) { me.relview = me.view; me.relvc = me.vc; }
}

// ------------------------------------------------ mutexes
int m_lock(uintptr_t a, bool recursive, bool tryl, bool rd) {
  if (!running || cur < 0) return 0;
  if (in_tls(a)) a += (uintptr_t)(cur + 1) << 48; // one mutex per thread
  Mtx &m0 = mtx[a];
  if (recursive && m0.owner == cur) { m0.count++; return 0; }
  point(tryl ? K_ATOMIC : rd ? K_RDLOCK : K_LOCK, a);
  Mtx &m = mtx[a];
  if (tryl && (m.owner >= 0 || (!rd && m.readers))) { th[cur].yielded = true; return 16; }
  if (tracing) trace("%3d  T%d %s mutex %lx", execno, cur, rd ? "rdlock" : "lock", (unsigned long)a);
  if (rd) m.readers++; else { m.owner = cur; m.count = 1; }
  joinv(th[cur].view, m.view); joinc(th[cur].vc, m.vc);
  return 0;
}
int m_unlock(uintptr_t a) {
  if (!running || cur < 0) return 0;
  if (in_tls(a)) a += (uintptr_t)(cur + 1) << 48;
  point(K_UNLOCK, a);
  Mtx &m = mtx[a];
  if (tracing) trace("%3d  T%d unlock mutex %lx", execno, cur, (unsigned long)a);
  if (m.owner == cur) { if (--m.count > 0) return 0; m.owner = -1; }
  else if (m.readers > 0) m.readers--;
  else { fail("misuse", "a mutex is unlocked by a thread that does not hold it"); return 1; }
  joinv(m.view, th[cur].view); joinc(m.vc, th[cur].vc);
  return 0;
}

// ------------------------------------------------ one execution
void run_once(void *ctx, mcrt::ResetFn reset, mcrt::BodyFn body) {
  locs.clear(); shadow.clear(); mtx.clear(); scview.clear();
  steps = preempts = nspur = nsusp = execno = 0; fair = aborting = any_block = false; depth_ = 0; tracebuf.clear();
  if (data_hi > data_lo) memcpy(data_lo, snapshot.data(), snapshot.size());
  reset(ctx);
  nth = opt.threads; uctx = ctx; ubody = body;
  for (int i = 0; i < nth; ++i) {
    Thread &t = th[i]; char *stk = t.stack; t = Thread(); t.stack = stk; t.vc[i] = 1; make_fiber(i);
  }
  find_tls();
  if (tls_n) { tls_copy[0].resize(tls_n); for (int i = 0; i < nth; ++i) { tls_copy[i + 1].assign(tls_n, 0); memcpy(tls_copy[i + 1].data(), tls_init, tls_filled); } }
  cur = -1; running = true;
  int t = pick();
  if (t >= 0) switch_to(t);
  running = false; cur = -1;
  if (fair) st->truncated++;
  if (depth_ != stack_.size() && !failed) { fprintf(stderr, "mcrt: replay divergence\n"); _exit(3); }
}
} // namespace

namespace mcrt {
void share(void *p, size_t n) { regions.push_back({(uintptr_t)p, n}); }
void set_globals(char *lo, char *hi) { data_lo = lo; data_hi = hi; }
void clear_shared() { regions.clear(); }
void plain_write(int *p, int v) { plain((uintptr_t)p, 4, true); *p = v; }
int plain_read(int *p) { plain((uintptr_t)p, 4, false); return *p; }
void atomic_load(const void *p, size_t n, void *out, std::memory_order mo) { a_load((uintptr_t)p, n, out, (int)mo); }
void atomic_store(void *p, size_t n, const void *val, std::memory_order mo) { a_store((uintptr_t)p, n, val, (int)mo); }
void atomic_xchg(void *p, size_t n, const void *val, void *old, std::memory_order mo) { a_rmw((uintptr_t)p, n, old, (int)mo, [&](void *, void *x) { memcpy(x, val, n); }); }
bool was_suspended(int t) { return th[t].suspended; }
bool blocked_this_exec() { return any_block; }
void op_begin() { if (cur >= 0) { th[cur].first = -1; th[cur].last = -1; } }
void op_end(int &f, int &l) { f = th[cur].first; l = th[cur].last; }

static void describe(void *ctx, ResetFn r, BodyFn b, CheckFn c) {
  // re-run the failing schedule with tracing
  Stats dummy; Stats *old = st; st = &dummy; tracing = true;
  std::string k = fl->kind, w = fl->why; failed = false;
  run_once(ctx, r, b);
  if (!failed) { std::string why; if (!c(ctx, why)) { failed = true; fl->kind = "check"; fl->why = why; } }
  if (!failed || fl->kind != k || fl->why != w) { fprintf(stderr, "mcrt: failing schedule does not reproduce\n"); _exit(3); }
  tracing = false; st = old; fl->trace = tracebuf;
  for (auto &x : stack_) fl->schedule.push_back(x.pick);
}

bool explore(const Options &o, void *ctx, ResetFn reset, BodyFn body, CheckFn check, Stats &s, Failure &f) {
  opt = o; st = &s; fl = &f; stack_.clear(); failed = false;
  snapshot.assign(data_lo, data_hi);
  long start = s.execs;
  for (;;) {
    run_once(ctx, reset, body);
    s.execs++;
    if (!failed) { std::string why; if (!check(ctx, why)) fail("check", why); }
    if (failed) { describe(ctx, reset, body, check); return false; }
    while (!stack_.empty() && stack_.back().pick + 1 >= stack_.back().n) stack_.pop_back();
    if (stack_.empty()) return true;
    stack_.back().pick++;
    if (o.max_exec >= 0 && s.execs - start >= o.max_exec) { s.capped = true; return true; }
  }
}
bool replay(const Options &o, void *ctx, ResetFn reset, BodyFn body, CheckFn check, const std::vector<int> &sch, Failure &f) {
  // The schedule is replayed twice; n is unknown, so record picks only.
  Stats s; opt = o; st = &s; fl = &f; failed = false; tracing = true;
  stack_.clear(); snapshot.assign(data_lo, data_hi);
  // rebuild the choice stack incrementally
  for (;;) {
    run_once(ctx, reset, body);
    // extend: set the next pick from the schedule
    size_t k = 0; for (; k < stack_.size() && k < sch.size(); ++k) if (stack_[k].pick != sch[k]) break;
    if (k >= stack_.size() || k >= sch.size()) break;
    failed = false;
    stack_[k].pick = sch[k]; stack_.resize(k + 1);
  }
  if (!failed) { std::string why; if (!check(ctx, why)) fail("check", why); }
  tracing = false; f.trace = tracebuf;
  return !failed;
}
} // namespace mcrt

// ---------------------------------------------------------------- tsan interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long n) { if (n) plain((uintptr_t)a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { if (n) plain((uintptr_t)a, n, true); }
#define RW(N) \
  void __tsan_read##N(void *a) { plain((uintptr_t)a, N, false); } \
  void __tsan_write##N(void *a) { plain((uintptr_t)a, N, true); } \
  void __tsan_unaligned_read##N(void *a) { plain((uintptr_t)a, N, false); } \
  void __tsan_unaligned_write##N(void *a) { plain((uintptr_t)a, N, true); } \
  void __tsan_volatile_read##N(void *a) { plain((uintptr_t)a, N, false); } \
  void __tsan_volatile_write##N(void *a) { plain((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)

#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { T r; a_load((uintptr_t)a, sizeof(T), &r, mo); return r; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { a_store((uintptr_t)a, sizeof(T), &v, mo); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { memcpy(n, &v, sizeof v); }); return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { T x = T(o + v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { T x = T(o - v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { T x = T(o & v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { T x = T(o | v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { T x = T(o ^ v); memcpy(n, &x, sizeof x); }); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { T o; a_rmw((uintptr_t)a, sizeof(T), &o, mo, [&](void *, void *n) { T x = T(~(o & v)); memcpy(n, &x, sizeof x); }); return o; } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) { return a_cas((uintptr_t)a, sizeof(T), e, &d, mo, fmo, false); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) { return a_cas((uintptr_t)a, sizeof(T), e, &d, mo, fmo, true); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) { a_cas((uintptr_t)a, sizeof(T), &e, &d, mo, fmo, false); return e; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64) ATOM(128, u128)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// libatomic entry points (sizes the compiler does not inline)
void mc_load(size_t n, void *a, void *r, int mo) asm("__atomic_load");
void mc_load(size_t n, void *a, void *r, int mo) { a_load((uintptr_t)a, n, r, mo); }
void mc_store(size_t n, void *a, void *v, int mo) asm("__atomic_store");
void mc_store(size_t n, void *a, void *v, int mo) { a_store((uintptr_t)a, n, v, mo); }
void mc_xchg(size_t n, void *a, void *v, void *r, int mo) asm("__atomic_exchange");
void mc_xchg(size_t n, void *a, void *v, void *r, int mo) { a_rmw((uintptr_t)a, n, r, mo, [&](void *, void *x) { memcpy(x, v, n); }); }
bool mc_cas(size_t n, void *a, void *e, void *d, int mo, int fmo) asm("__atomic_compare_exchange");
bool mc_cas(size_t n, void *a, void *e, void *d, int mo, int fmo) { return a_cas((uintptr_t)a, n, e, d, mo, fmo, false); }
bool mc_lf(size_t, const void *) asm("__atomic_is_lock_free");
bool mc_lf(size_t, const void *) { return false; }
#define ATOMN(N, T) \
  T mc_load_##N(void *a, int mo) asm("__atomic_load_" #N); T mc_load_##N(void *a, int mo) { T r; a_load((uintptr_t)a, N, &r, mo); return r; } \
  void mc_store_##N(void *a, T v, int mo) asm("__atomic_store_" #N); void mc_store_##N(void *a, T v, int mo) { a_store((uintptr_t)a, N, &v, mo); } \
  T mc_xchg_##N(void *a, T v, int mo) asm("__atomic_exchange_" #N); T mc_xchg_##N(void *a, T v, int mo) { T o; a_rmw((uintptr_t)a, N, &o, mo, [&](void *, void *x) { memcpy(x, &v, N); }); return o; } \
  bool mc_cas_##N(void *a, T *e, T d, int mo, int fmo) asm("__atomic_compare_exchange_" #N); bool mc_cas_##N(void *a, T *e, T d, int mo, int fmo) { return a_cas((uintptr_t)a, N, e, &d, mo, fmo, false); }
ATOMN(1, u8) ATOMN(2, u16) ATOMN(4, u32) ATOMN(8, u64) ATOMN(16, u128)

// pthread synchronisation
int pthread_mutex_lock(pthread_mutex_t *m) { return m_lock((uintptr_t)m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return m_lock((uintptr_t)m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, false); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return m_unlock((uintptr_t)m); }
int pthread_spin_lock(pthread_spinlock_t *m) { return m_lock((uintptr_t)m, false, false, false); }
int pthread_spin_trylock(pthread_spinlock_t *m) { return m_lock((uintptr_t)m, false, true, false); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return m_unlock((uintptr_t)m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return m_lock((uintptr_t)m, false, false, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return m_lock((uintptr_t)m, false, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return m_lock((uintptr_t)m, false, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return m_lock((uintptr_t)m, false, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return m_unlock((uintptr_t)m); }
int sched_yield() { if (running && cur >= 0) { th[cur].yielded = true; point(K_YIELD, 0); } return 0; }
}
