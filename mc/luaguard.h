// Interpreter memory with an unmapped page behind every larger block, so that running over the end of the
// interpreter's stack (which Lua itself does not check) ends the case instead of passing unnoticed.
#pragma once
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
namespace luaguard {
static const size_t LIM = 512, PG = 4096;
inline size_t span(size_t n) { return (n + PG - 1) / PG * PG + PG; }
inline void *get(size_t n) {
  if (n < LIM) return malloc(n);
  char *m = (char *)mmap(nullptr, span(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) return nullptr;
  mprotect(m + span(n) - PG, PG, PROT_NONE);
  return m + (span(n) - PG - (n + 15) / 16 * 16);
}
inline void put(void *p, size_t n) { if (!p) return; if (n < LIM) free(p); else munmap((char *)((size_t)p / PG * PG), span(n)); }
inline void *alloc(void *, void *p, size_t o, size_t n) {
  if (!n) { put(p, p ? o : 0); return nullptr; }
  if (!p) return get(n);
  if (o < LIM && n < LIM) return realloc(p, n);
  void *q = get(n); if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n); put(p, o); return q;
}
}
extern "C" inline __attribute__((used)) lua_State *luaL_newstate(void) { return lua_newstate(luaguard::alloc, nullptr); }
