// Explores all schedules of small concurrent programs over the real atomics library.
#include "atoms.h"
#include "mcrt.h"
#include "proto.h"
#include "mc.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <ctime>
#include <sys/mman.h>
extern char __data_start, _end;
const char *opname[] = {"add", "sub", "mul", "div", "mod", "lshift", "rshift", "andeq", "oreq", "xoreq", "min", "max", "inc", "preinc", "postinc", "dec", "predec", "postdec"};
std::vector<Table> &tables() { static auto *t = new std::vector<Table>; return *t; }
using std::string; using std::vector;
typedef std::memory_order MO;
const char *moname[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"};

struct Inst { const Table *t; const Variant *v; int k; MO m1, m2; int obj; alignas(16) unsigned char arg[16]; alignas(16) unsigned char ret[16]; int first, last; bool fin; };
struct Prog {
  int nth = 0; vector<Inst> ops[3]; const Table *obj[2] = {}; int nobj = 1; int init = 0;
  int litmus = 0; // 0: plain; else see below
  MO lm = MO::memory_order_seq_cst;
  int *data; unsigned char *mem[2];
  int r[3][2]; alignas(16) unsigned char lr[3][16];
  std::set<string> *okset;
  int storm = -1, spur = 0; // long contention: T1 repeats one operation, see mcrt::Options::storm
};
enum { L_NONE, L_MP_REL, L_MP_ACQ, L_MP_LOCK, L_SB, L_RELSEQ, L_ORD };
static unsigned char *arena;
static bool strict; // judge return values and real time

static string opstr(const Inst &i) {
  string s = string(opname[i.v->op]) + "(" + i.t->argstr(i.v->op, i.arg) + ")[" + (i.t->mixed ? i.v->scheme + ", " : "") + i.v->form;
  if (i.v->kind != F_PLAIN) s += string(" ") + moname[(int)i.m1];
  if (i.v->kind == F_ORDER2) s += string("/") + moname[(int)i.m2];
  return s + "]";
}
static string desc(const Prog &p) {
  const char *ln[] = {"", "publish ", "observe ", "publish+observe ", "store-buffering ", "release-sequence ", "ordered updates "};
  string s = string(ln[p.litmus]) + p.obj[0]->type + "/" + p.obj[0]->scheme + (p.obj[0]->nmux ? "#1" : "");
  if (p.nobj > 1) s += " & " + p.obj[1]->type + "/" + p.obj[1]->scheme + (p.obj[1]->nmux ? "#1" : "");
  for (int t = 0; t < p.nth; ++t) { s += " | T" + std::to_string(t) + ":"; for (auto &o : p.ops[t]) s += " " + opstr(o) + (p.nobj > 1 ? "@" + std::to_string(o.obj) : ""); }
  if (p.storm >= 0) { s.resize(s.find(" | T1:") == string::npos ? s.size() : s.find(" | T1:")); if (p.storm) s += " | T1: " + std::to_string(p.storm) + " times " + opstr(p.ops[1][0]) + ", one before every step of T0"; if (p.spur) s += " | " + std::to_string(p.spur) + " spurious failures in a row"; }
  if (p.litmus) s += string(" partner=") + moname[(int)p.lm];
  return s;
}
static void reset(void *c) {
  Prog &p = *(Prog *)c;
  for (int i = 0; i < p.nobj; ++i) p.obj[i]->make(p.mem[i], p.init);
  *p.data = 0; memset(p.r, -1, sizeof p.r); memset(p.lr, 0, sizeof p.lr);
  for (auto &t : p.ops) for (auto &o : t) { o.fin = false; memset(o.ret, 0, sizeof o.ret); }
}
static void doop(Prog &p, Inst &o) { mcrt::op_begin(); o.v->fn(p.mem[o.obj], o.arg, o.ret, o.m1, o.m2); mcrt::op_end(o.first, o.last); o.fin = true; }
static void initial(const Prog &p, int obj, void *out) { alignas(64) static unsigned char m[64]; p.obj[obj]->make(m, p.init); p.obj[obj]->get(m, out); }
static void body(void *c, int t) {
  Prog &p = *(Prog *)c; const Table &ty = *p.obj[0];
  alignas(16) unsigned char ini[16] = {}, tmp[16] = {};
  switch (p.litmus) {
  case L_NONE: for (auto &o : p.ops[t]) doop(p, o); break;
  case L_MP_REL: // T0 writes data and publishes with the operation; T1 observes with an acquire load
    if (t == 0) { mcrt::plain_write(p.data, 1); doop(p, p.ops[0][0]); }
    else { initial(p, 0, ini); mcrt::atomic_load(p.mem[0], ty.size, tmp, p.lm); if (!ty.eq(tmp, ini)) { p.r[t][0] = 1; p.r[t][1] = mcrt::plain_read(p.data); } }
    break;
  case L_MP_ACQ: // T0 writes data and publishes with a release exchange; T1 observes with the operation
    if (t == 0) { mcrt::plain_write(p.data, 1); alignas(64) unsigned char m[64] = {}; ty.make(m, 1 - p.init); ty.get(m, ini); mcrt::atomic_xchg(p.mem[0], ty.size, ini, tmp, p.lm); }
    else { Inst &o = p.ops[1][0]; doop(p, o); initial(p, 0, ini); ty.ref(o.v->op, ini, o.arg, tmp); if (!ty.eq(tmp, o.ret)) { p.r[t][0] = 1; p.r[t][1] = mcrt::plain_read(p.data); } }
    break;
  case L_MP_LOCK: // both sides use operations of the library
    if (t == 0) { mcrt::plain_write(p.data, 1); doop(p, p.ops[0][0]); }
    else { Inst &o = p.ops[1][0]; doop(p, o); initial(p, 0, ini); ty.ref(o.v->op, ini, o.arg, tmp); if (!ty.eq(tmp, o.ret)) { p.r[t][0] = 1; p.r[t][1] = mcrt::plain_read(p.data); } }
    break;
  case L_SB: doop(p, p.ops[t][0]); p.obj[1 - t]->conv(p.mem[1 - t], p.lr[t]); break;
  case L_ORD: // T0 writes (relaxed), then updates; T1 updates, then reads (relaxed)
    if (t == 0) { int one = 1; mcrt::atomic_store(p.data, 4, &one, std::memory_order_relaxed); doop(p, p.ops[0][0]); }
    else { doop(p, p.ops[1][0]); mcrt::atomic_load(p.data, 4, &p.r[1][1], std::memory_order_relaxed); }
    break;
  case L_RELSEQ:
    if (t == 0) { mcrt::plain_write(p.data, 1); doop(p, p.ops[0][0]); }
    else if (t == 1) doop(p, p.ops[1][0]);
    else { // sees both updates => T1's update continues the release sequence if it came later
      mcrt::atomic_load(p.mem[0], ty.size, p.lr[2], p.lm);
      initial(p, 0, ini); ty.ref(p.ops[1][0].v->op, ini, p.ops[1][0].arg, tmp); // only T1's update applied
      alignas(16) unsigned char i0[16] = {}; initial(p, 0, i0);
      if (!ty.eq(p.lr[2], i0) && !ty.eq(p.lr[2], ini)) { p.r[2][0] = 1; p.r[2][1] = mcrt::plain_read(p.data); }
    }
    break;
  }
}
static bool linearizable(const Prog &p, bool strictly, string &why) {
  // all interleavings of the (at most 6) operations that respect program order
  struct Ref { const Inst *o; int t; };
  vector<Ref> all; for (int t = 0; t < p.nth; ++t) for (auto &o : p.ops[t]) all.push_back({&o, t});
  alignas(16) unsigned char fin[16] = {}, ini[16] = {}; p.obj[0]->get(p.mem[0], fin); initial(p, 0, ini);
  int n = (int)all.size(); vector<char> used(n, 0);
  struct Rec { static bool go(const Prog &p, vector<Ref> &all, vector<char> &used, int left, const unsigned char *val, const unsigned char *fin, bool strictly) {
    if (!left) return p.obj[0]->eq(val, fin);
    for (size_t i = 0; i < all.size(); ++i) {
      if (used[i]) continue;
      bool ok = true;
      for (size_t j = 0; j < all.size() && ok; ++j) if (!used[j] && j != i) {
        if (all[j].t == all[i].t && j < i) ok = false;                          // program order
        if (strictly && all[j].o->last < all[i].o->first) ok = false;           // real time
      }
      if (!ok) continue;
      alignas(16) unsigned char v[16], r[16] = {}; memcpy(v, val, 16);
      p.obj[0]->ref(all[i].o->v->op, v, all[i].o->arg, r);
      if (strictly && !p.obj[0]->eq(r, all[i].o->ret)) continue;
      used[i] = 1; bool g = go(p, all, used, left - 1, v, fin, strictly); used[i] = 0;
      if (g) return true;
    }
    return false; } };
  bool ok = Rec::go(p, all, used, n, ini, fin, strictly);
  if (!ok) {
    why = "initial " + p.obj[0]->str(ini) + ", final " + p.obj[0]->str(fin);
    for (auto &r : all) why += "; T" + std::to_string(r.t) + " " + opname[r.o->v->op] + "(" + p.obj[0]->argstr(r.o->v->op, r.o->arg) + ") returned " + p.obj[0]->str(r.o->ret);
    why += strictly ? ": no sequential order explains these results" : ": no sequential order gives this final value";
  }
  return ok;
}
// T0's one operation somewhere between T1's identical ones
static bool storm_ok(const Prog &p, string &why) {
  alignas(16) unsigned char fin[16] = {}, v[16] = {}, r[16] = {}; p.obj[0]->get(p.mem[0], fin);
  const Inst &o = p.ops[0][0]; int n = p.nth > 1 ? (int)p.ops[1].size() : 0;
  for (int at = 0; at <= n; ++at) {
    initial(p, 0, v); bool ok = true;
    if (strict) { if (at < n && p.ops[1][at].last < o.first) continue; if (at && o.last < p.ops[1][at - 1].first) continue; }
    for (int i = 0; i <= n && ok; ++i) {
      if (i == at) { p.obj[0]->ref(o.v->op, v, o.arg, r); if (strict && !p.obj[0]->eq(r, o.ret)) ok = false; }
      if (i < n && ok) { p.obj[0]->ref(p.ops[1][i].v->op, v, p.ops[1][i].arg, r); if (strict && !p.obj[0]->eq(r, p.ops[1][i].ret)) ok = false; }
    }
    if (ok && p.obj[0]->eq(v, fin)) return true;
  }
  alignas(16) unsigned char ini[16] = {}; initial(p, 0, ini);
  why = "initial " + p.obj[0]->str(ini) + ", final " + p.obj[0]->str(fin) + "; T0 returned " + p.obj[0]->str(o.ret) + ": no position of T0's operation among T1's explains this";
  return false;
}
static long outcomes;
static bool check(void *c, string &why) {
  Prog &p = *(Prog *)c;
  if (p.litmus == L_NONE) {
    if (p.nobj > 1) { // independent objects: each must hold the result of its own operation
      if (mcrt::blocked_this_exec()) { why = "an operation waited although no other operation on an object of its type is in progress"; return false; }
      return true;
    }
    for (int t = 0; t < p.nth; ++t) if (mcrt::was_suspended(t)) return true;
    if (p.storm >= 0) { p.okset->insert("storm"); return storm_ok(p, why); }
    string key((char *)nullptr, 0);
    unsigned char fin[16] = {}; p.obj[0]->get(p.mem[0], fin); key.append((char *)fin, 16);
    for (auto &t : p.ops) for (auto &o : t) { key.append((char *)o.ret, 16); }
    if (strict) for (auto &t : p.ops) for (auto &o : t) for (auto &t2 : p.ops) for (auto &o2 : t2) key += char(o.last < o2.first);
    if (p.okset->count(key)) return true;
    if (!linearizable(p, strict, why)) return false;
    p.okset->insert(key); return true;
  }
  if (p.litmus == L_SB) {
    alignas(16) unsigned char i0[16] = {}, i1[16] = {}; initial(p, 0, i0); initial(p, 1, i1);
    bool a = p.obj[1]->eq(p.lr[0], i1), b = p.obj[0]->eq(p.lr[1], i0);
    p.okset->insert(string() + char('0' + a) + char('0' + b));
    if (a && b) { why = "both threads updated their object and then read the other object's old value: the updates have no global order"; return false; }
    return true;
  }
  if (p.litmus == L_ORD) { // T0's update came first if its result does not contain T1's
    alignas(16) unsigned char a[16] = {}, b[16] = {}, ra[16] = {}, rb[16] = {}; initial(p, 0, a); initial(p, 0, b);
    const Inst &x = p.ops[0][0], &y = p.ops[1][0];
    p.obj[0]->ref(x.v->op, a, x.arg, ra); p.obj[0]->ref(y.v->op, b, y.arg, rb); p.obj[0]->ref(x.v->op, b, x.arg, rb);
    bool first = p.obj[0]->eq(x.ret, ra) && !p.obj[0]->eq(ra, rb);
    p.okset->insert(string() + char('0' + first) + char('0' + p.r[1][1]));
    if (first && p.r[1][1] != 1) { why = "T0's update came first in the order of updates, but T1's update does not make T0's earlier write visible"; return false; }
    return true;
  }
  for (int t = 0; t < p.nth; ++t) if (p.r[t][0] == 1) {
    p.okset->insert(p.r[t][1] == 1 ? "seen" : "missed");
    if (p.r[t][1] != 1) { why = "T" + std::to_string(t) + " observed the update but not the data written before it"; return false; }
  } else p.okset->insert("none");
  return true;
}

// ---------------------------------------------------------------- programs
static vector<Prog> progs;
static Inst inst(const Table &t, const Variant &v, int k, int obj = 0, MO m1 = std::memory_order_relaxed, MO m2 = std::memory_order_relaxed) {
  Inst i{}; i.t = &t; i.v = &v; i.k = k; i.m1 = m1; i.m2 = m2; i.obj = obj; t.arg(v.op, k, i.arg); return i;
}
static Prog base(const Table &t, int nth) { Prog p; p.obj[0] = &t; p.nth = nth; return p; }
static const Variant *canon(const Table &t, Op o, const char *scheme = nullptr) { for (auto &v : t.v) if (v.canon && v.op == o && (!scheme || v.scheme == scheme)) return &v; return nullptr; }
static vector<const Variant *> canons(const Table &t) { vector<const Variant *> r; for (auto &v : t.v) if (v.canon) r.push_back(&v); return r; }

static void gen_lin(bool thorough) {
  for (auto &t : tables()) {
    if (t.nmux) continue;
    auto cs = canons(t);
    const Variant *add = canon(t, ADD), *post = canon(t, POSTINC), *pdec = canon(t, POSTDEC);
    // all pairs of operations, one per thread
    for (auto *a : cs) for (auto *b : cs) { Prog p = base(t, 2); p.ops[0] = {inst(t, *a, 0)}; p.ops[1] = {inst(t, *b, 1)}; progs.push_back(p); }
    // every form of every operation against itself and against two fixed partners
    for (auto &v : t.v) {
      Prog p = base(t, 2); p.ops[0] = {inst(t, v, 0)}; p.ops[1] = {inst(t, v, 1)}; progs.push_back(p);
      p.ops[1] = {inst(t, *add, 2)}; progs.push_back(p);
      p.ops[1] = {inst(t, *post, 2), inst(t, v, 1)}; progs.push_back(p);
    }
    if (t.mixed) { for (auto &v : t.v) for (auto &w : t.v) if (thorough || v.op == w.op || (v.op == ADD && w.op == MAX)) { Prog p = base(t, 2); p.ops[0] = {inst(t, v, 0)}; p.ops[1] = {inst(t, w, 1)}; progs.push_back(p); } }
    // two operations per thread
    for (auto *a : cs) {
      Prog p = base(t, 2); p.ops[0] = {inst(t, *a, 0), inst(t, *add, 1)}; p.ops[1] = {inst(t, *a, 1), inst(t, *post, 0)}; progs.push_back(p);
      if (thorough) for (auto *b : cs) { p.ops[0] = {inst(t, *a, 0), inst(t, *b, 1)}; p.ops[1] = {inst(t, *b, 2), inst(t, *a, 1)}; progs.push_back(p); }
    }
    // three threads
    for (auto *a : cs) {
      Prog p = base(t, 3); p.ops[0] = {inst(t, *a, 0)}; p.ops[1] = {inst(t, *a, 1)}; p.ops[2] = {inst(t, *post, 0)}; progs.push_back(p);
      p.ops[2] = {inst(t, *add, 2)}; progs.push_back(p);
      if (thorough) for (auto *b : cs) { p.ops[1] = {inst(t, *b, 1)}; p.ops[2] = {inst(t, *a, 2)}; progs.push_back(p); }
    }
    { Prog p = base(t, 3); p.init = 1; p.ops[0] = {inst(t, *post, 0)}; p.ops[1] = {inst(t, *post, 0)}; p.ops[2] = {inst(t, *pdec, 0)}; progs.push_back(p); }
    // long contention: a competitor that gets in before every step, n times; weak compare-and-swap failing n times in a row
    for (auto &v : t.v) {
      vector<int> ns = v.canon ? vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 50, 63, 64, 65, 66, 100} : vector<int>{3, 7, 18, 40};
      if (thorough) { ns.clear(); for (int n = 1; n <= 110; ++n) ns.push_back(n); }
      for (int n : ns) {
        Prog p = base(t, 2); p.storm = n; p.ops[0] = {inst(t, v, 0)}; p.ops[1].assign(n, inst(t, *post, 0)); progs.push_back(p);
        if (v.scheme.find("weak") == string::npos) continue;
        p.nth = 1; p.ops[1].clear(); p.storm = 0; p.spur = n; progs.push_back(p);
        if (v.canon) { p = base(t, 2); p.storm = 3; p.spur = n; p.ops[0] = {inst(t, v, 0)}; p.ops[1].assign(3, inst(t, *post, 0)); progs.push_back(p); }
      }
    }
    if (thorough) { Prog p = base(t, 3); for (int i = 0; i < 3; ++i) p.ops[i] = {inst(t, *post, 0)}; p.ops[0].push_back(inst(t, *add, 1)); p.ops[1].push_back(inst(t, *add, 2)); progs.push_back(p); }
  }
}
static void gen_progress(bool thorough) {
  vector<const Table *> locks;
  for (auto &t : tables()) {
    if (t.lock) { locks.push_back(&t); }
    if (t.nmux) continue;
    const Variant *add = canon(t, ADD), *post = canon(t, POSTINC);
    for (auto &v : t.v) {
      Prog p = base(t, 2); p.ops[0] = {inst(t, v, 0)}; p.ops[1] = {inst(t, *add, 1)}; progs.push_back(p);
      if (!v.canon && !thorough) continue;
      p.ops[0].push_back(inst(t, v, 1)); p.ops[1] = {inst(t, v, 1)}; progs.push_back(p);
      p = base(t, 3); p.ops[0] = {inst(t, v, 0)}; p.ops[1] = {inst(t, *add, 1)}; p.ops[2] = {inst(t, *post, 1)}; progs.push_back(p);
    }
  }
  for (auto *a : locks) for (auto *b : locks) if (a != b) for (auto &v : a->v) {
    Prog p = base(*a, 2); p.obj[1] = b; p.nobj = 2; p.ops[0] = {inst(*a, v, 0, 0)}; p.ops[1] = {inst(*b, *canon(*b, v.op == POSTINC ? POSTINC : ADD), 0, 1)}; progs.push_back(p);
  }
}
static void gen_order(bool thorough) {
  const MO rel[] = {std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
  const MO acq[] = {std::memory_order_acquire, std::memory_order_acq_rel, std::memory_order_seq_cst};
  const MO fls[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst};
  for (auto &t : tables()) {
    if (t.nmux) continue;
    const Variant *add = canon(t, ADD);
    if (t.lock) {
      for (auto &v : t.v) for (int k : {0, 3}) if (k == 0 || v.op < INC) { Prog p = base(t, 2); p.litmus = L_ORD; p.ops[0] = {inst(t, v, k)}; p.ops[1] = {inst(t, *add, 1)}; progs.push_back(p); }
      for (auto &v : t.v) { Prog p = base(t, 2); p.litmus = L_MP_LOCK; p.ops[0] = {inst(t, v, 0)}; p.ops[1] = {inst(t, *add, 2)}; progs.push_back(p); p.ops[0] = {inst(t, *add, 2)}; p.ops[1] = {inst(t, v, 0)}; progs.push_back(p); }
      continue;
    }
    for (auto &v : t.v) {
      vector<std::pair<MO, MO>> ro, ao;
      if (v.kind == F_PLAIN) { ro = ao = {{std::memory_order_seq_cst, std::memory_order_seq_cst}}; }
      else for (int i = 0; i < 3; ++i) for (int j = 0; j < (v.kind == F_ORDER2 ? 3 : 1); ++j) { ro.push_back({rel[i], fls[j]}); ao.push_back({acq[i], fls[j]}); }
      for (auto &o : ro) {
        Prog p = base(t, 2); p.litmus = L_MP_REL; p.lm = std::memory_order_acquire; p.ops[0] = {inst(t, v, 0, 0, o.first, o.second)}; progs.push_back(p);
        // release sequences: three threads, so only the relevant orderings
        if (o.first != std::memory_order_release || (!thorough && string(v.form) != (t.mixed ? "member override+order" : "member+order") && (string(v.form) != "member+2 orders" || o.second != std::memory_order_relaxed))) continue;
        p = base(t, 3); p.litmus = L_RELSEQ; p.lm = std::memory_order_acquire; p.ops[0] = {inst(t, v, 0, 0, o.first, o.second)};
        const Variant *w = nullptr; for (auto &x : t.v) if (x.op == v.op && x.kind == F_ORDER && x.scheme == v.scheme) { w = &x; break; }
        if (!w) w = canon(t, ADD);
        Inst i1 = inst(t, *w, 1, 0, std::memory_order_relaxed, std::memory_order_relaxed);
        // usable only if T1-alone differs from initial and from (T0;T1) results
        alignas(16) unsigned char a[16] = {}, b[16] = {}, ab[16] = {}, ba[16] = {}, i0[16] = {}, r[16];
        p.ops[1] = {i1}; initial(p, 0, i0); initial(p, 0, a); initial(p, 0, b);
        t.ref(v.op, a, p.ops[0][0].arg, r); memcpy(ab, a, 16); t.ref(w->op, ab, i1.arg, r);
        t.ref(w->op, b, i1.arg, r); memcpy(ba, b, 16); t.ref(v.op, ba, p.ops[0][0].arg, r);
        if (!t.eq(a, b) && !t.eq(ab, b) && !t.eq(ba, b) && !t.eq(a, i0) && !t.eq(ab, i0) && !t.eq(ba, i0)) progs.push_back(p);
      }
      for (auto &o : ao) {
        Prog p = base(t, 2); p.litmus = L_MP_ACQ; p.lm = std::memory_order_release; p.ops[1] = {inst(t, v, 0, 0, o.first, o.second)};
        alignas(16) unsigned char a[16] = {}, b[16] = {}, r1[16] = {}, r2[16] = {}; alignas(64) unsigned char m[64];
        initial(p, 0, a); t.make(m, 1); t.get(m, b); t.ref(v.op, a, p.ops[1][0].arg, r1); t.ref(v.op, b, p.ops[1][0].arg, r2);
        if (!t.eq(r1, r2)) progs.push_back(p);
      }
      // updates in sequence, also ones that leave the value unchanged
      for (auto &o : ro) for (int k : {0, 3}) {
        if (k == 0 && v.op < INC && !v.canon && !thorough) continue;
        if (k == 3 && v.op >= INC) continue;
        if (o.second != std::memory_order_relaxed && o.second != std::memory_order_seq_cst) continue;
        Prog p = base(t, 2); p.litmus = L_ORD; p.lm = std::memory_order_seq_cst; p.ops[0] = {inst(t, v, k, 0, o.first, o.second)}; p.ops[1] = {inst(t, *add, 1)}; progs.push_back(p);
      }
      // store buffering needs sequential consistency
      { Prog p = base(t, 2); p.litmus = L_SB; p.nobj = 2; p.obj[1] = &t; p.lm = std::memory_order_seq_cst;
        MO s = std::memory_order_seq_cst; p.ops[0] = {inst(t, v, 0, 0, s, s)}; p.ops[1] = {inst(t, v, 0, 1, s, s)}; progs.push_back(p);
        if (v.kind == F_ORDER2) { p.ops[0][0].m2 = p.ops[1][0].m2 = std::memory_order_relaxed; progs.push_back(p); } }
    }
  }
}

int main(int argc, char **argv) {
  mc::init(argc, argv);
  auto &A = proto::args();
  arena = (unsigned char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mcrt::set_globals(&__data_start, &_end);
  mcrt::share(arena, 4096);
  strict = A.mode == "A02";
  if (A.mode == "A01" || A.mode == "A02") gen_lin(A.thorough);
  else if (A.mode == "A05") gen_progress(A.thorough);
  else if (A.mode == "A04") gen_order(A.thorough);
  auto *P = new vector<Prog>(std::move(progs));
  const time_t start = time(nullptr); long capped = 0;
  auto *S = new mcrt::Stats; long nprog = 0, multi = 0; int nviol = 0, nsample = 0;
  for (size_t i = 0; i < P->size(); ++i) {
    Prog &p = (*P)[i];
    p.mem[0] = arena; p.mem[1] = arena + 256; p.data = (int *)(arena + 512);
    string d = desc(p);
    if (!A.only.empty() ? d != A.only : int(i % A.parts) != A.part) continue;
    if (mc::S().page) snprintf(mc::S().page, 4096, "%s", d.c_str());
    if (getenv("MC_SHOW")) fprintf(stderr, "%s\n", d.c_str());
    if (A.only.empty() && time(nullptr) - start > (A.thorough ? 5400 : 240)) { ++capped; continue; }
    auto *ok = new std::set<string>; p.okset = ok;
    mcrt::Options o; o.threads = p.nth; o.spurious = A.thorough ? 2 : 1; o.max_exec = A.thorough ? 20000000 : A.mode == "A04" ? 3000000 : 400000;
    vector<mcrt::Options> runs;
    if (p.storm >= 0) { o.storm = true; o.spurious = p.spur; o.horizon = 4000; runs = {o}; } else
    if (A.mode == "A05") {
      bool lockish = p.obj[0]->lock && p.nobj == 1;
      o.races = p.obj[0]->lock; o.suspend = lockish ? 0 : p.nth - 1; if (p.nth > 2) o.spurious = A.thorough ? 1 : 0;
      runs = {o};
    } else if (A.mode == "A04") { o.weak = true; o.races = true; if (p.nth > 2) o.spurious = A.thorough ? 1 : 0; runs = {o}; }
    else { runs = {o}; if (!p.obj[0]->lock && p.nth == 2 && p.ops[0].size() + p.ops[1].size() <= 2) { o.weak = true; runs.push_back(o); } }
    for (auto &q : runs) {
      mcrt::Failure f;
      if (!mcrt::explore(q, &p, reset, body, check, *S, f)) {
        string sch; for (int x : f.schedule) sch += std::to_string(x) + " ";
        proto::viol(d, f.kind + ": " + f.why);
        proto::detail("program " + d + "\nschedule " + sch + "\n" + f.trace + f.kind + ": " + f.why);
        if (++nviol >= 3) goto out;
        break;
      }
    }
    if (S->capped) { ++capped; S->capped = false; }
    ++nprog; if (ok->size() > 1) ++multi; outcomes += ok->size();
    if (nsample < 2 && i % 97 == (size_t)A.part % 97) { proto::sample(d + " -> " + std::to_string(ok->size()) + " distinct outcomes"); ++nsample; }
    delete ok; p.okset = nullptr;
  }
out:
  proto::stat("programs", nprog); proto::stat("capped", capped); proto::stat("executions", S->execs); proto::stat("transitions", S->steps); proto::stat("states", S->choices);
  proto::stat("distinct", outcomes); proto::stat("colliding_programs", multi); proto::stat("blocked", S->blocked); proto::stat("spurious_failures", S->spurious); proto::stat("stale_reads", S->stale); proto::stat("fair_truncated", S->truncated); proto::stat("suspensions", S->suspended);
  proto::done();
}
