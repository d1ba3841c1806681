#include "hooks.h"
#include "rng.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>

const char* const outcome_name[] = {"none","ok","violation","abort","assert","exit","exception","signal","budget","timeout","crash","harness"};
Shm* shm = nullptr;
int g_in = 0; uint64_t g_steps = 0, g_trip = ~0ull, g_crash = ~0ull;
MemEnv g_mem;

static Named* find(Named* t, int& n, const char* name) {
  for (int i = 0; i < n; i++) if (!strcmp(t[i].name, name)) return &t[i];
  if (n >= NCOUNT) return &t[NCOUNT - 1];
  strncpy(t[n].name, name, sizeof t[n].name - 1); t[n].v = 0; return &t[n++];
}
void count(const std::string& name, double n) { find(shm->cnt, shm->ncnt, name.c_str())->v += n; }
void meter(const char* name, double v) { Named* m = find(shm->met, shm->nmet, name); if (v > m->v || v != v) m->v = v; }
void tr(double v) {
  uint64_t b; memcpy(&b, &v, 8); if (v == 0) b = 0;
  shm->hash = (shm->hash ^ b) * 0x100000001b3ull; shm->hash ^= shm->hash >> 29;
  if (shm->ntrace < TRACEMAX) shm->trace[shm->ntrace++] = v; else shm->trace_full = 1;
}
static void setbit(uint8_t* m, uint64_t h) { h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h >>= 44; m[h >> 3] |= 1u << (h & 7); }
void sigbit(uint64_t h) { setbit(shm->sig, h); }
void schedbit(uint64_t h) { setbit(shm->sched, h); }

void finish(int outcome, int code, const char* cls, const char* fmt, ...) {
  g_in = 0;
  if (shm->outcome == O_NONE) {
    shm->code = code; strncpy(shm->cls, cls, sizeof shm->cls - 1);
    va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
    shm->outcome = outcome;
  }
  shm->steps = g_steps;
  fflush(stdout); fflush(stderr);
  _exit(0);
}
void power_cut() { g_in = 0; shm->steps = g_steps; if (shm->outcome == O_NONE) shm->outcome = O_CRASH; _exit(0); } // nothing buffered survives

// ---------------------------------------------------------------- step clock
extern "C" void __sanitizer_cov_trace_pc() {
  if (!g_in) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 48);
  shm->cov[h >> 3] |= 1u << (h & 7);
  if (++g_steps >= g_trip) finish(O_BUDGET, 0, "no-progress", "work budget exhausted: one call executed more than the allowed number of basic blocks");
  if (g_steps >= g_crash) power_cut();
}

// ---------------------------------------------------------------- process ends
extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int c) { if (shm && g_in) finish(O_EXIT, c, "exit", "exit(%d) called by the model", c); __real_exit(c); }
[[noreturn]] void __real_abort();
[[noreturn]] void __wrap_abort() { if (shm && g_in) finish(O_ABORT, 0, "abort", "abort() called by the model"); __real_abort(); }
[[noreturn]] void __real___assert_fail(const char*, const char*, unsigned, const char*);
[[noreturn]] void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (shm && g_in) { const char* b = strrchr(f, '/'); finish(O_ASSERT, (int)l, "assert", "assertion failed: %s (%s, %s)", e, b ? b + 1 : f, fn); }
  __real___assert_fail(e, f, l, fn);
}
clock_t __wrap_clock() { return (clock_t)(g_steps); }
time_t __wrap_time(time_t* t) { time_t v = 1000000000; if (t) *t = v; return v; }
}

// ---------------------------------------------------------------- memory
#ifndef SIM_ASAN
// Blocks of the model come from an arena of the simulator's own, at a fixed address and with a fixed reuse order, so that
// even which address a block gets - and whether it is the address of one freed before - is part of the seeded environment.
struct Hdr { uint64_t magic, size; uint32_t inm, seq; Hdr* next; };  // 32 bytes; inm 2: block of the arena
static char *ar0 = nullptr, *arp = nullptr, *are = nullptr; static const size_t ARENA = size_t(1) << 32; static Hdr* fl[512];
static const uint64_t MAGIC = 0x51A7C0DE5EA15EEDull;
static uint64_t live_b = 0, live_n = 0; static uint32_t seq = 0;
static Hdr* quar = nullptr; static size_t quar_n = 0; static Hdr* quar_tail = nullptr;
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); }

static void fillmem(unsigned char* p, size_t n, int mode, uint64_t salt) {
  switch (mode) {
    case 0: return;                                   // leave whatever the allocator returned
    case 1: memset(p, 0, n); return;
    case 2: memset(p, 0xFF, n); return;               // NaN / -1
    case 3: memset(p, 0xA5, n); return;
    case 4: { Rng r(g_mem.seed ^ salt); for (size_t i = 0; i < n; i++) p[i] = (unsigned char)r.next(); return; }
    case 5: { double d = 0.37; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &d, 8); return; }   // plausible values
    case 6: { double d = 1e30; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &d, 8); return; }
    case 7: memset(p, 0x01, n); return;               // small ints, bools true
  }
}
static void arena_open() {
  ar0 = (char*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (ar0 == MAP_FAILED || ar0 != (char*)0x200000000000ull) { fprintf(stderr, "no arena\n"); _exit(3); }
  arp = ar0; are = ar0 + ARENA;
}
static Hdr* arena_get(size_t n) {
  if (!ar0) arena_open();
  size_t z = (n + 15) / 16; if (z == 0) z = 1;
  if (z < 512 && fl[z]) { Hdr* h = fl[z]; fl[z] = h->next; return h; }       // last freed, first reused
  size_t need = z * 16 + sizeof(Hdr); if (arp + need > are) return nullptr;
  Hdr* h = (Hdr*)arp; arp += need; return h;
}
static void arena_put(Hdr* h) { size_t z = (h->size + 15) / 16; if (z == 0) z = 1; if (z < 512) { h->next = fl[z]; fl[z] = h; } }
static void give(Hdr* h) { if (h->inm == 2) arena_put(h); else __real_free(h); }
static void* xalloc(size_t n, bool* failed = nullptr) {
  if (g_in) {
    int k = ++shm->alloc_seen;
    if (k == g_mem.fail_at) { int s = g_in; g_in = 0; count("fault:alloc-failure"); g_in = s; if (failed) *failed = true; return nullptr; }
  }
  Hdr* h = g_in && shm ? arena_get(n) : (Hdr*)__real_malloc(n + sizeof(Hdr));
  if (!h) { if (failed) *failed = true; return nullptr; }
  h->magic = MAGIC; h->size = n; h->inm = g_in && shm ? 2 : 0; h->seq = g_in ? ++seq : 0; h->next = nullptr;
  if (h->inm) { live_n++; live_b += n; fillmem((unsigned char*)(h + 1), n, g_mem.fill, h->seq); }
  return h + 1;
}
static void xfree(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == MAGIC) {
    h->magic = ~MAGIC;
    if (h->inm) {
      live_n--; live_b -= h->size;
      fillmem((unsigned char*)p, h->size, g_mem.poison, h->seq + 77);
      if (g_mem.poison) { // quarantine, so stale reads see poison rather than recycled data
        h->next = nullptr; if (quar_tail) quar_tail->next = h; else quar = h; quar_tail = h; quar_n++;
        if (quar_n > 64) { Hdr* o = quar; quar = o->next; if (!quar) quar_tail = nullptr; quar_n--; give(o); }
        return;
      }
    }
    give(h); return;
  }
  if (h->magic == ~MAGIC && h->inm <= 2 && shm && g_in) finish(O_SIGNAL, 6, "double-free", "block freed twice");
  __real_free(p);
}
extern "C" {
void* __wrap_malloc(size_t n) { return xalloc(n); }
void* __wrap_calloc(size_t a, size_t b) { void* p = xalloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return xalloc(n);
  Hdr* h = (Hdr*)p - 1; if (h->magic != MAGIC) return __real_realloc(p, n);
  void* q = xalloc(n); if (!q) return nullptr; memcpy(q, p, h->size < n ? h->size : n); xfree(p); return q;
}
void __wrap_free(void* p) { xfree(p); }
}
void* operator new(size_t n) { void* p = xalloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = xalloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { xfree(p); }
void operator delete[](void* p) noexcept { xfree(p); }
void operator delete(void* p, size_t) noexcept { xfree(p); }
void operator delete[](void* p, size_t) noexcept { xfree(p); }
void live_model(uint64_t& blocks, uint64_t& bytes) { blocks = live_n; bytes = live_b; }
#else
void live_model(uint64_t& blocks, uint64_t& bytes) { blocks = bytes = 0; }
#endif

#ifndef SIM_ASAN
__attribute__((noinline)) void scrub_stack() {
  if (!g_mem.stack) return;
  unsigned char buf[24576];
  fillmem(buf, sizeof buf, g_mem.stack, 99);
  asm volatile("" : : "r"(buf) : "memory");
}
#else
void scrub_stack() {}
#endif

void dirty_heap(uint64_t seed) {
#ifndef SIM_ASAN
  Rng r(seed); std::vector<void*> v; int n = r.irange(5, 60); int f = g_mem.fill; int s = g_in; g_in = 1;
  for (int i = 0; i < n; i++) { size_t z = r.irange(1, 400); void* p = xalloc(z); if (p) { fillmem((unsigned char*)p, z, r.irange(1, 7), i); v.push_back(p); } }
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.next() % i]);
  for (void* p : v) xfree(p);
  g_in = s; g_mem.fill = f;
#else
  (void)seed;
#endif
}
