#include "rt.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <clocale>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <fcntl.h>
#include <random>
#include <sched.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/utsname.h>
#include <sys/auxv.h>
#include <sys/prctl.h>
#include <cpuid.h>
#include <ucontext.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start, etext, __data_start, _end;
}

#define RTA __attribute__((always_inline)) inline

namespace rt {

Shm* shm = nullptr;

// ----------------------------------------------------------------- geometry
static constexpr uintptr_t ARENA = 0x200000000000ull;
static constexpr size_t ARENA_SZ = 1ull << 31;
static constexpr uintptr_t ADDRSH = 0x210000000000ull;        // 1 byte / 8 bytes
static constexpr uintptr_t RACESH = 0x220000000000ull;        // 32 bytes / 8 bytes
static constexpr uintptr_t STACKS = 0x230000000000ull;
static constexpr size_t STACK_SZ = 8u << 20;
static constexpr size_t CAP_ONE = 512u << 20;

struct RaceCell { // one 8 byte granule
  uint32_t wclk; uint8_t wtask; uint8_t wmask; uint8_t rmask[MAXT]; uint16_t pad; uint32_t rclk[4];
};
// 4+1+1+8+2+16 = 32
static_assert(sizeof(RaceCell) == 32, "");

struct VC { uint32_t c[MAXT]; };

enum TState { T_UNUSED, T_RUN, T_BLOCK, T_DONE };
struct Task {
  int id = 0;
  bool in_op = false;
  int state = T_UNUSED;
  uint64_t steps = 0, next_evt = ~0ull, preempt_at = ~0ull, budget_end = ~0ull, op_start = 0;
  uint64_t run_since = 0;
  VC vc{};
  uintptr_t stk_lo = 0, stk_hi = 0;
  std::atomic<int> go{0};
  const void* waiting = nullptr;
  bool timed = false, timed_out = false;
  // fault plan of the running op
  Fault f; uint64_t allocs = 0, fired = 0; Rng frng{1};
  unsigned amb = 0; uint32_t fp_was = 0; Rng prng{1};
  uint64_t live0 = 0, peak = 0; uintptr_t sp0 = 0, sp_min = 0;
  int prio = 0;
  std::function<void()> fn, bye;
  void* (*cfn)(void*) = nullptr; void* carg = nullptr; void* cret = nullptr;
  pthread_t th{};
  size_t sched_pos = 0;
  int64_t cur_op = -1;
};
static Task tasks[MAXT];
static int ntasks = 1;
static __thread Task* cur = nullptr;
static bool child = false;
static Env env;
static bool startup_on = false; static uint64_t startup_sur = 0; // static objects are being constructed
extern "C" void set_traps(); extern "C" void cpu_of_run();
__attribute__((constructor(102))) static void startup_begin() {
  for (char** e = environ; e && *e; e++) if (!strncmp(*e, "SIM_STARTUP=", 12)) startup_sur = strtoull(*e + 12, nullptr, 10);
  startup_on = true; set_traps();
}
static Rng srng{1}, lrng{1}, crng{1};
static uint64_t total_steps = 0;
static uint64_t pct_points[16]; static int n_pct = 0; static int pct_low = -1;

struct REnt { uint64_t step; int to; };
static REnt* rep_ent[MAXT]; static size_t rep_n[MAXT], rep_pos[MAXT]; // replayed schedule, per task, in order
static REnt* rep_at(int id, uint64_t step) { // entry for exactly this point, dropping passed ones
  size_t& p = rep_pos[id]; while (p < rep_n[id] && rep_ent[id][p].step < step) p++;
  return p < rep_n[id] && rep_ent[id][p].step == step ? &rep_ent[id][p] : nullptr;
}

static inline long fut(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, (int*)a, op, v, nullptr, nullptr, 0); }

void violate(const std::string& cls, uint64_t props, const std::string& detail) {
  if (cur) cur->in_op = false;
  if (shm && shm->status == 0) {
    snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
    snprintf(shm->detail, sizeof shm->detail, "%s", detail.c_str());
    shm->props = props;
    shm->status = 2;
  }
  _exit(77);
}
static std::string fmt(const char* f, ...) {
  char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

void mix(uint64_t v) { uint64_t h = shm->hash ^ v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; shm->hash = h; }
static void smix(uint64_t v) { uint64_t h = shm->sched_hash ^ v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; shm->sched_hash = h; }
void note_cur(int64_t op, int code) { Task* t = cur; if (!t) return; t->cur_op = op; shm->cur_op[t->id] = op; shm->cur_code[t->id] = code; }
bool in_op() { return cur && cur->in_op; }
int task_id() { return cur ? cur->id : 0; }

// ------------------------------------------------------------------ scheduler
static RTA void set_evt(Task* t) { t->next_evt = t->preempt_at < t->budget_end ? t->preempt_at : t->budget_end; }

static void gen_preempt(Task* t) { // when does t next consider a preemption
  if (env.strat == ST_GAP) {
    double u = srng.unit(); double g = -env.gap * __builtin_log(u + 1e-12);
    t->preempt_at = t->steps + 1 + (uint64_t)g;
  } else if (env.strat == ST_PCT || env.strat == ST_RACE || env.strat == ST_NONE) {
    t->preempt_at = t->steps + 2000000; // forced hand-over: spinning must not starve the others
    if (env.strat == ST_PCT) for (int i = 0; i < n_pct; i++) if (pct_points[i] > total_steps) {
      uint64_t d = t->steps + (pct_points[i] - total_steps); if (d < t->preempt_at) t->preempt_at = d; }
  } else if (env.strat == ST_REPLAY) {
    t->preempt_at = t->steps + 4000000;
    rep_at(t->id, t->steps);
    for (size_t i = rep_pos[t->id]; i < rep_n[t->id]; i++) if (rep_ent[t->id][i].step > t->steps) { if (rep_ent[t->id][i].step < t->preempt_at) t->preempt_at = rep_ent[t->id][i].step; break; }
  }
  set_evt(t);
}

static bool others_runnable(Task* t) { for (int i = 0; i < ntasks; i++) if (&tasks[i] != t && tasks[i].state == T_RUN) return true; return false; }

static int choose(Task* t, bool forced) { // forced: t cannot continue
  int cand[MAXT], n = 0;
  for (int i = 0; i < ntasks; i++) if (tasks[i].state == T_RUN && !(forced && &tasks[i] == t)) cand[n++] = i;
  if (n == 0) return -1;
  if (env.strat == ST_REPLAY) {
    if (REnt* e = rep_at(t->id, t->steps)) for (int i = 0; i < n; i++) if (cand[i] == e->to) { rep_pos[t->id]++; return e->to; }
    if (!forced) return t->id;
    return cand[0];
  }
  if (env.strat == ST_PCT) { int b = 0; for (int i = 1; i < n; i++) if (tasks[cand[i]].prio > tasks[cand[b]].prio) b = i; return cand[b]; }
  if (!forced) { // preemption: somebody else
    int o[MAXT], m = 0; for (int i = 0; i < n; i++) if (cand[i] != t->id) o[m++] = cand[i];
    if (m == 0) return t->id;
    return o[srng.below(m)];
  }
  return cand[srng.below(n)];
}

static void wait_turn(Task* t) {
  while (t->go.load(std::memory_order_acquire) == 0) fut(&t->go, FUTEX_WAIT_PRIVATE, 0);
  t->go.store(0, std::memory_order_relaxed);
}

// hand the token over. forced: t is blocked/done.
static void do_switch(Task* t, bool forced) {
  int nx = choose(t, forced);
  if (nx < 0) { // nobody runnable: fire a timed wait, else deadlock
    for (int i = 0; i < ntasks; i++) if (tasks[i].state == T_BLOCK && tasks[i].timed) {
      tasks[i].timed_out = true; tasks[i].state = T_RUN; nx = i; break; }
    if (nx < 0) {
      bool any = false; for (int i = 0; i < ntasks; i++) any |= tasks[i].state == T_BLOCK;
      if (any) violate("deadlock", ~0ull, "every live task is blocked");
      return;
    }
  }
  if (env.strat != ST_REPLAY && !forced && nx != t->id) shm->stat[S_PREEMPT]++;
  if (env.strat == ST_REPLAY && !forced && nx != t->id) shm->stat[S_PREEMPT]++;
  if (nx == t->id) { if (!forced || t->state == T_RUN) { gen_preempt(t); return; } }
  if (shm->nsched < MAXSCHED) shm->sched[shm->nsched++] = SchedEnt{t->id, nx, t->steps}; else shm->sched_overflow = 1;
  smix((uint64_t)t->id << 56 ^ (uint64_t)nx << 48 ^ t->steps);
  shm->stat[S_SWITCH]++;
  Task* n = &tasks[nx];
  gen_preempt(n);
  bool done = t->state == T_DONE;
  n->go.store(1, std::memory_order_release);
  fut(&n->go, FUTEX_WAKE_PRIVATE, 1);
  if (done) return;
  wait_turn(t);
  cur = t;
}

static __attribute__((noinline)) void slow(Task* t) {
  if (t->steps >= t->budget_end) {
    t->in_op = false;
    violate("step-budget", ~0ull, fmt("operation %lld did not finish within %llu steps", (long long)t->cur_op, (unsigned long long)(t->steps - t->op_start)));
  }
  if (t->steps >= t->preempt_at) {
    bool io = t->in_op; t->in_op = false;
    if (env.strat == ST_PCT) {
      bool hit = false; for (int i = 0; i < n_pct; i++) if (pct_points[i] <= total_steps && pct_points[i]) { pct_points[i] = 0; hit = true; }
      if (hit || true) t->prio = pct_low--;
    }
    if (others_runnable(t)) do_switch(t, false); else { gen_preempt(t); }
    t->in_op = io;
  }
  set_evt(t);
}

static RTA void step(Task* t) {
  ++t->steps; ++total_steps;
  if (__builtin_expect(t->steps >= t->next_evt, 0)) slow(t);
}

static void block_on(Task* t, const void* a, bool timed = false) {
  bool io = t->in_op; t->in_op = false;
  t->waiting = a; t->timed = timed; t->timed_out = false; t->state = T_BLOCK;
  do_switch(t, true);
  t->waiting = nullptr; t->in_op = io;
}
static void wake_all(const void* a) { for (int i = 0; i < ntasks; i++) if (tasks[i].state == T_BLOCK && tasks[i].waiting == a) tasks[i].state = T_RUN; }
static void wake_one(const void* a) { for (int i = 0; i < ntasks; i++) if (tasks[i].state == T_BLOCK && tasks[i].waiting == a) { tasks[i].state = T_RUN; return; } }

// ------------------------------------------------------------ vector clocks
template <class K, class V> struct RawMap { // tiny open addressing map on libc memory, address keyed
  struct E { K k; V v; bool used; };
  E* e = nullptr; size_t cap = 0, n = 0;
  V& get(K k) {
    if (n * 2 >= cap) grow();
    size_t i = ((uintptr_t)k * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
    while (e[i].used && e[i].k != k) i = (i + 1) & (cap - 1);
    if (!e[i].used) { e[i].used = true; e[i].k = k; memset((void*)&e[i].v, 0, sizeof(V)); n++; }
    return e[i].v;
  }
  void grow() {
    size_t oc = cap; E* oe = e; cap = cap ? cap * 2 : 256; e = (E*)__libc_calloc(cap, sizeof(E)); n = 0;
    for (size_t i = 0; i < oc; i++) if (oe[i].used) get(oe[i].k) = oe[i].v;
    if (oe) __libc_free(oe);
  }
};
static RawMap<const void*, VC> syncs;
struct Mtx { int owner; int count; int readers[MAXT]; bool done; bool running; };
static RawMap<const void*, Mtx> mtxs;

static void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(Task* t, const void* a) { vjoin(t->vc, syncs.get(a)); shm->stat[S_SYNC]++; }
static void release_join(Task* t, const void* a) { vjoin(syncs.get(a), t->vc); t->vc.c[t->id]++; shm->stat[S_SYNC]++; }
static void release_set(Task* t, const void* a) { syncs.get(a) = t->vc; t->vc.c[t->id]++; shm->stat[S_SYNC]++; }

// ----------------------------------------------------------- access checking
static uintptr_t data_lo, data_hi;
static RaceCell* data_shadow = nullptr;
static RTA bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }

static std::string where(uintptr_t pc) { return fmt("pc=%p", (void*)pc); }

static __attribute__((noinline)) void bad_access(Task* t, uintptr_t a, size_t n, bool w, uintptr_t pc) {
  uint8_t s = *(uint8_t*)(ADDRSH + (a - ARENA) / 8);
  violate(std::string("memory:invalid-") + (w ? "write" : "read"), ~0ull,
          fmt("op %lld task %d: %s of %zu bytes at arena+0x%llx (%s) %s", (long long)t->cur_op, t->id, w ? "write" : "read", n,
              (unsigned long long)(a - ARENA), s == 0xFD ? "released memory" : "outside any live object", where(pc).c_str()));
}

static RTA void check_addr(Task* t, uintptr_t a, size_t n, bool w, uintptr_t pc) {
  uintptr_t e = a + n, g = a & ~7ull;
  for (; g < e; g += 8) {
    uint8_t s = *(uint8_t*)(ADDRSH + (g - ARENA) / 8);
    if (s == 8) continue;
    if (s > 8 || s == 0) bad_access(t, a, n, w, pc);
    uintptr_t hi = e < g + 8 ? e : g + 8;
    if (hi - g > s) bad_access(t, a, n, w, pc);
  }
}

static __attribute__((noinline)) void race_report(Task* t, int other, bool w, bool ow, uintptr_t a, size_t n, uintptr_t pc) {
  violate("data-race", 1ull << 4, fmt("task %d (op %lld) %s and task %d (op %lld) %s the same memory %s+0x%llx (%zu bytes) with nothing ordering them; %s",
          t->id, (long long)t->cur_op, w ? "writes" : "reads", other, (long long)tasks[other].cur_op, ow ? "wrote" : "read",
          in_arena(a) ? "heap" : "static", (unsigned long long)(in_arena(a) ? a - ARENA : a), n, where(pc).c_str()));
}

static RTA RaceCell* cell_of(uintptr_t g) {
  if (in_arena(g)) return (RaceCell*)RACESH + (g - ARENA) / 8;
  if (g >= data_lo && g < data_hi) return data_shadow + (g - data_lo) / 8;
  return nullptr;
}

static void race_access(Task* t, uintptr_t a, size_t n, bool w, uintptr_t pc) {
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    RaceCell* c = cell_of(g);
    if (!c) return;
    unsigned lo = a > g ? a - g : 0, hi = e < g + 8 ? e - g : 8;
    uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    if (c->wmask & m && c->wtask != t->id && t->vc.c[c->wtask] < c->wclk) race_report(t, c->wtask, w, true, a, n, pc);
    if (w) {
      for (int i = 0; i < 4; i++) { int o = i + 1; // tasks 1..4 may be concurrent readers
        if (o != t->id && (c->rmask[o] & m) && t->vc.c[o] < c->rclk[i]) race_report(t, o, true, false, a, n, pc); }
      if (c->wtask == t->id) c->wmask |= m; else { c->wmask = m; c->wtask = t->id; }
      c->wclk = t->vc.c[t->id];
      for (int i = 0; i < 4; i++) c->rmask[i + 1] &= ~m;
    } else if (t->id >= 1 && t->id <= 4) {
      uint32_t& rc = c->rclk[t->id - 1];
      if (rc != t->vc.c[t->id]) { rc = t->vc.c[t->id]; c->rmask[t->id] = m; } else c->rmask[t->id] |= m;
    }
    if (c->wtask != t->id && c->wmask) shm->stat[S_SHARED_ACC]++;
  }
}

static __attribute__((noinline)) bool interesting(Task* t, uintptr_t a) {
  RaceCell* c = cell_of(a & ~7ull);
  if (!c) return false;
  if (!in_arena(a)) return true;
  return c->wmask && c->wtask != t->id;
}

static RTA void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  Task* t = cur;
  if (!t || !t->in_op) return;
  step(t);
  if (a - t->stk_lo < t->stk_hi - t->stk_lo) return;
  if (in_arena(a)) check_addr(t, a, n, w, pc);
  if (env.race) {
    if (env.strat == ST_RACE && interesting(t, a) && others_runnable(t) && srng.chance(0.3)) {
      t->in_op = false; do_switch(t, false); t->in_op = true; set_evt(t);
    }
    shm->stat[S_RACE_CHECKS]++;
    race_access(t, a, n, w, pc);
  }
}
static void access_range(const void* p, size_t n, bool w, uintptr_t pc) { if (n) access((uintptr_t)p, n, w, pc); }

// ------------------------------------------------------------------ allocator
struct Hdr { uint64_t magic; uint64_t size; uint64_t cap; uint32_t task; uint32_t tag; Hdr* next; uint64_t pad[3]; }; // 64 bytes
static_assert(sizeof(Hdr) == 64, "");
static constexpr uint64_t M_LIVE = 0x51AB11FEC0DE0001ull, M_FREE = 0x51AB11FEC0DE0002ull;
static uintptr_t brk_ = ARENA + 4096;
static RawMap<uintptr_t, Hdr*> freelist; // by cap
static Hdr* fifo_head = nullptr; static Hdr* fifo_tail = nullptr; static int fifo_n = 0;
static uint64_t live_b = 0, live_n = 0;
static uint8_t fill_byte = 0xA5;

static void set_addr(uintptr_t p, size_t n) {
  memset((void*)(ADDRSH + (p - ARENA) / 8), 8, n / 8);
  if (n & 7) *(uint8_t*)(ADDRSH + (p - ARENA) / 8 + n / 8) = (uint8_t)(n & 7);
}
static void do_fill(void* p, size_t n) {
  switch (env.fill) {
    case FILL_KEEP: break;
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_NAN: case FILL_ONES: memset(p, env.fill == FILL_NAN ? 0xFF : 0x01, n); break;
    case FILL_AA: memset(p, 0xAA, n); break;
    default: { // plausible looking doubles
      uint64_t* q = (uint64_t*)p; size_t i = 0; uint64_t x = lrng.next() | 1;
      for (; i + 1 <= n / 8; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; double d = (double)(int64_t)(x >> 12) * 1e-9; memcpy(&q[i], &d, 8); }
      memset((char*)p + i * 8, 0x5C, n - i * 8);
    }
  }
}

static void* arena_alloc(Task* t, size_t n, size_t align) {
  if (n > CAP_ONE) return nullptr;
  size_t cap = (n + 15) & ~15ull; if (!cap) cap = 16;
  size_t al = align > 16 ? align : 16;
  Hdr* h = nullptr;
  if (al == 16 && env.reuse != REUSE_NEVER) {
    Hdr*& fl = freelist.get(cap);
    if (fl) { h = fl; fl = h->next; shm->stat[S_RECYCLED]++; }
  }
  if (!h) {
    uintptr_t p = brk_ + sizeof(Hdr) + 16 * lrng.below(4);
    if (cap >= 4096 && lrng.below(4) == 0) p += 4096 * lrng.below(16);
    p = (p + al - 1) & ~(al - 1);
    if (p + cap + 64 > ARENA + ARENA_SZ) {
      if (live_b > ARENA_SZ / 8) return nullptr;
      // the address space is used up by blocks this run never recycles: the simulator's limit, not the library's
      snprintf(shm->cls, sizeof shm->cls, "simulator-arena-full"); shm->status = 4; _exit(0);
    }
    h = (Hdr*)(p - sizeof(Hdr));
    brk_ = p + cap + 32;
    h->cap = cap;
    if (env.fill == FILL_KEEP) memset((void*)p, fill_byte, cap); // otherwise fresh memory would look zeroed
  }
  h->magic = M_LIVE; h->size = n; h->task = t ? t->id : 0; h->next = nullptr;
  void* u = (void*)(h + 1);
  set_addr((uintptr_t)u, n);
  do_fill(u, n);
  if (env.race) memset((void*)((RaceCell*)RACESH + ((uintptr_t)u - ARENA) / 8), 0, (cap / 8) * sizeof(RaceCell));
  live_b += n; live_n++;
  if (t && live_b > t->live0 + t->peak) t->peak = live_b - t->live0;
  return u;
}

static void arena_free(Task* t, void* p, size_t szhint) {
  uintptr_t u = (uintptr_t)p;
  Hdr* h = (Hdr*)p - 1;
  if ((u & 15) || u < ARENA + 4096 || h->magic != M_LIVE) {
    bool dbl = !(u & 15) && u >= ARENA + 4096 && h->magic == M_FREE;
    violate(dbl ? "memory:double-release" : "memory:invalid-release", ~0ull, fmt("op %lld task %d releases arena+0x%llx", t ? (long long)t->cur_op : -1, t ? t->id : -1, (unsigned long long)(u - ARENA)));
  }
  if (szhint && szhint != h->size) violate("memory:size-mismatch", ~0ull, fmt("block of %llu bytes released as %zu bytes", (unsigned long long)h->size, szhint));
  if (env.race && t && t->in_op) race_access(t, u, h->size ? h->size : 1, true, 0);
  h->magic = M_FREE; live_b -= h->size; live_n--;
  memset((void*)(ADDRSH + (u - ARENA) / 8), 0xFD, h->cap / 8);
  if (env.fill != FILL_KEEP) memset(p, env.fill == FILL_ZERO ? 0x00 : 0xDD, h->size);
  if (env.reuse == REUSE_LIFO) { Hdr*& fl = freelist.get(h->cap); h->next = fl; fl = h; }
  else if (env.reuse == REUSE_FIFO) {
    h->next = nullptr; if (fifo_tail) fifo_tail->next = h; else fifo_head = h; fifo_tail = h; fifo_n++;
    if (fifo_n > 24) { Hdr* o = fifo_head; fifo_head = o->next; if (!fifo_head) fifo_tail = nullptr; fifo_n--; Hdr*& fl = freelist.get(o->cap); o->next = fl; fl = o; }
  }
}

static bool refuse(Task* t, size_t n) {
  t->allocs++; shm->stat[S_ALLOCS]++;
  bool r = false;
  switch (t->f.kind) {
    case F_NTH: r = t->allocs == t->f.a; if (r) shm->stat[S_OOM_NTH]++; break;
    case F_FROM: r = t->allocs >= t->f.a; if (r) shm->stat[S_OOM_FROM]++; break;
    case F_SIZE: r = n >= t->f.a; if (r) shm->stat[S_OOM_SIZE]++; break;
    case F_PROB: r = t->frng.below(1000000) < t->f.a; if (r) shm->stat[S_OOM_PROB]++; break;
    case F_BUDGET: r = live_b + n > t->live0 + t->f.a; if (r) shm->stat[S_OOM_BUDGET]++; break;
    default: break;
  }
  if (r) t->fired++;
  return r;
}

struct sim_bad_alloc : std::bad_alloc { const char* what() const noexcept override { return "simulated memory exhaustion"; } };

static void* sim_new(size_t n, size_t align, bool nothrow) {
  Task* t = cur;
  if (!child || !t || !t->in_op) {
    void* p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  step(t);
  void* p = nullptr;
  bool io = t->in_op; 
  bool no = refuse(t, n);
  t->in_op = false;
  if (!no) p = arena_alloc(t, n, align);
  t->in_op = io;
  if (!p && !nothrow) {
    t->in_op = false; // the throw machinery itself is not the library's
    struct G { Task* t; ~G() { t->in_op = true; } } g{t};
    if (env.derived_exc) throw sim_bad_alloc();
    throw std::bad_alloc();
  }
  return p;
}
static void sim_delete(void* p, size_t sz) {
  if (!p) return;
  if (!in_arena((uintptr_t)p)) { __libc_free(p); return; }
  Task* t = cur;
  bool io = t && t->in_op;
  if (io) step(t);
  arena_free(t, p, sz);
}
bool is_arena(const void* p) { return in_arena((uintptr_t)p); }
bool block_live(const void* p) { return in_arena((uintptr_t)p) && ((Hdr*)p - 1)->magic == M_LIVE; }
uint64_t live_bytes() { return live_b; }
uint64_t live_blocks() { return live_n; }

// --------------------------------------------------------------------- clock
static uint64_t clk_base = 1700000000000000000ull;
static int64_t clk_off = 0;
static uint64_t first_steps = 0;
uint64_t sim_now_ns() { return clk_base + total_steps * 10 + clk_off; }
void advance(uint64_t ns) { clk_off += (int64_t)ns; }
static uint64_t clock_read() {
  shm->stat[S_CLOCK_READS]++;
  switch (env.clock) {
    case CLK_FROZEN: return clk_base;
    case CLK_FORWARD: clk_off += (int64_t)crng.below(3600ull * 1000000000ull << (crng.below(14))); shm->stat[S_CLOCK_JUMPS]++; break;
    case CLK_BACKWARD: clk_off -= (int64_t)crng.below(3600ull * 1000000000ull << (crng.below(12))); shm->stat[S_CLOCK_JUMPS]++; break;
    case CLK_WILD: clk_off += (int64_t)(crng.next() >> 4) - (int64_t)(1ull << 59); shm->stat[S_CLOCK_JUMPS]++; break;
    default: break;
  }
  return sim_now_ns();
}

// ---------------------------------------------------------------- op brackets
// floating-point control state: exception masks, rounding, denormals (not the sticky flags)
static RTA uint32_t fp_get() { uint32_t m; uint16_t c; __asm__ volatile("stmxcsr %0" : "=m"(m)); __asm__ volatile("fnstcw %0" : "=m"(c)); return (m & 0xffc0) | ((uint32_t)(c & 0x0f3f) << 16); }
void fpu_set(int mode) {
  uint32_t m; uint16_t c; __asm__ volatile("stmxcsr %0" : "=m"(m)); __asm__ volatile("fnstcw %0" : "=m"(c));
  m = (m & ~0xffc0u) | 0x1f80u | ((uint32_t)(mode & 3) << 13) | (mode & 4 ? 0x8040u : 0); c = (uint16_t)(0x037f | ((mode & 3) << 10));
  __asm__ volatile("ldmxcsr %0" : : "m"(m)); __asm__ volatile("fldcw %0" : : "m"(c));
}
// what earlier calls happened to leave on the stack
static __attribute__((noinline)) void poison_stack(Task* t) {
  volatile uint64_t a[4096];
  uint64_t v = env.fill == FILL_ZERO ? 0 : env.fill == FILL_NAN ? 0x7ff8000000000001ull : env.fill == FILL_AA ? 0xaaaaaaaaaaaaaaaaull : ~0ull;
  if (env.fill == FILL_RAND) for (int i = 0; i < 4096; i++) a[i] = t->prng.next();
  else for (int i = 0; i < 4096; i++) a[i] = v;
}
void begin_op(const Fault& f, uint64_t budget) {
  Task* t = cur;
  if (env.fill != FILL_KEEP) poison_stack(t);
  t->f = f; t->allocs = t->fired = 0; t->frng = Rng(f.seed + 77);
  t->op_start = t->steps; t->budget_end = t->steps + budget;
  if (budget > ~0ull - t->steps) t->budget_end = ~0ull;
  set_evt(t);
  t->amb = 0;
  if (env.fpu) { fpu_set(env.fpu); shm->stat[S_FPU]++; }
  t->fp_was = fp_get();
  t->live0 = live_b; t->peak = 0; t->sp0 = t->sp_min = (uintptr_t)__builtin_frame_address(0);
  t->in_op = true;
}
OpStats end_op() {
  Task* t = cur;
  t->in_op = false;
  OpStats s{t->steps - t->op_start, t->allocs, t->fired, t->fp_was, fp_get(), t->amb, t->peak, t->sp0 - t->sp_min};
  if (env.fpu || s.fp_is != s.fp_was) fpu_set(0);
  t->budget_end = ~0ull; set_evt(t);
  t->f = Fault{};
  return s;
}

// ------------------------------------------------------------------ processes
typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*pj_t)(pthread_t, void**);
static pc_t real_create; static pj_t real_join;
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }

static void on_terminate() {
  std::string what = "no active exception";
  if (cur) cur->in_op = false;
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (const std::exception& x) { what = x.what(); } catch (...) { what = "non-standard exception"; }
  }
  if (shm && child) violate("terminate", ~0ull, "std::terminate called during op: " + what);
  _exit(99);
}

extern "C" void cpu_traps(bool);
void startup_ends() { startup_on = false; cpu_traps(false); }
void init_process() {

  real_create = real<pc_t>("pthread_create"); real_join = real<pj_t>("pthread_join");
  void* a = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap((void*)ADDRSH, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* c = mmap((void*)RACESH, ARENA_SZ / 8 * sizeof(RaceCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* d = mmap((void*)STACKS, STACK_SZ * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED || c == MAP_FAILED || d == MAP_FAILED || shm == MAP_FAILED) { fprintf(stderr, "sim: mmap failed\n"); _exit(90); }
  data_lo = (uintptr_t)&__data_start & ~7ull; data_hi = ((uintptr_t)&_end + 7) & ~7ull;
  data_shadow = (RaceCell*)mmap(nullptr, (data_hi - data_lo) / 8 * sizeof(RaceCell) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

void set_replay_sched(const std::vector<SchedEnt>& s) {
  for (int i = 0; i < MAXT; i++) { rep_ent[i] = (REnt*)__libc_malloc((s.size() + 1) * sizeof(REnt)); rep_n[i] = rep_pos[i] = 0; }
  for (auto& e : s) if (e.from >= 0 && e.from < MAXT) rep_ent[e.from][rep_n[e.from]++] = REnt{e.step, e.to};
}

static void stack_bounds(Task* t) {
  pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  t->stk_lo = (uintptr_t)lo; t->stk_hi = t->stk_lo + sz;
}

void child_start(const Env& e) {
  env = e; child = true;
  srng = Rng(e.sched_seed); lrng = Rng(e.layout_seed ^ startup_sur * 0x9E3779B97F4A7C15ull); crng = Rng(e.clock_seed);
  fill_byte = (uint8_t)(0x40 + e.layout_seed % 97);
  if (uint64_t k = e.sur ^ startup_sur * 0x9E3779B97F4A7C15ull) clk_base += (k >> 7) % 300000000000000000ull; // another day of the next ten years
  Task* t = &tasks[0]; t->id = 0; t->state = T_RUN; cur = t;
  for (int i = 0; i < MAXT; i++) tasks[i].vc.c[i] = 1, tasks[i].id = i, tasks[i].prng = Rng(e.layout_seed + i);
  stack_bounds(t);
  brk_ = ARENA + 4096 * (1 + lrng.below(2048)) + 64 * (lrng.below(64));
  ntasks = 1;
  std::set_terminate(on_terminate);
  shm->status = 0; shm->hash = 0x1234; shm->sched_hash = 0x77; shm->nsched = 0; shm->sched_overflow = 0; shm->opsteps_max = 0;
  for (int i = 0; i < MAXT; i++) { shm->cur_op[i] = -1; shm->cur_code[i] = -1; }
  gen_preempt(t); if (e.sur) cpu_of_run();
  cpu_traps(true);
}

static void finish_task(Task* t) {
  t->in_op = false;
  t->state = T_DONE;
  shm->stat[S_THREADS]++;
  wake_all(t); // joiners
  do_switch(t, true);
}

// Constructed first in every simulated thread, so destroyed last: after the
// destructors of the library's own thread-local objects, which run as part of
// the task (scheduled, race-checked, accounted) like everything else.
struct Farewell {
  Task* t = nullptr;
  ~Farewell() { if (!t) return; t->in_op = false; if (t->bye) t->bye(); finish_task(t); }
};
static thread_local Farewell farewell;
static void* tramp(void* a) {
  Task* t = (Task*)a;
  cur = t;
  wait_turn(t);
  farewell.t = t;
  if (t->fn) { t->fn(); t->f = Fault{}; t->in_op = true; }
  else { t->in_op = true; t->cret = t->cfn(t->carg); }
  return nullptr;
}

static Task* spawn(Task* parent) {
  if (ntasks >= MAXT) return nullptr;
  Task* n = &tasks[ntasks];
  n->id = ntasks; n->state = T_RUN; n->fn = nullptr; n->bye = nullptr; n->cfn = nullptr; n->f = Fault{};
  vjoin(n->vc, parent->vc); n->vc.c[n->id]++; parent->vc.c[parent->id]++;
  n->stk_lo = STACKS + STACK_SZ * n->id; n->stk_hi = n->stk_lo + STACK_SZ;
  n->budget_end = ~0ull;
  ntasks++;
  return n;
}
static void start_thread(Task* n) {
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)n->stk_lo, STACK_SZ);
  if (real_create(&n->th, &at, tramp, n) != 0) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(91); }
  pthread_attr_destroy(&at);
}

void run_tasks(const std::vector<std::function<void()>>& fns, const std::vector<std::function<void()>>& at_thread_exit) {
  Task* t = cur;
  std::vector<Task*> ts;
  for (size_t i = 0; i < fns.size(); i++) { Task* n = spawn(t); n->fn = fns[i]; if (i < at_thread_exit.size()) n->bye = at_thread_exit[i]; start_thread(n); ts.push_back(n); }
  if (env.strat == ST_PCT) {
    for (size_t i = 0; i < ts.size(); i++) ts[i]->prio = 10 + (int)srng.below(1000);
    n_pct = env.pct_d; for (int i = 0; i < n_pct && i < 16; i++) pct_points[i] = total_steps + 1 + srng.below(env.pct_len);
  }
  for (auto* n : ts) gen_preempt(n);
  for (auto* n : ts) {
    while (n->state != T_DONE) block_on(t, n);
    vjoin(t->vc, n->vc);
  }
  for (auto* n : ts) real_join(n->th, nullptr);
  bool all = true; for (int i = 1; i < ntasks; i++) all &= tasks[i].state == T_DONE;
  if (all) ntasks = 1; // numbers are given to later threads again
}

} // namespace rt
using namespace rt;

// ============================================================ tsan entry points
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { Task* t = cur; if (t && t->in_op) { uintptr_t f = (uintptr_t)__builtin_frame_address(0); if (f < t->sp_min) t->sp_min = f; step(t); } }
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
  void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
  void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_read_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access_range(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access_range(p, n, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access_range(s, n, false, PC); access_range(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access_range(s, n, false, PC); access_range(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access_range(d, n, true, PC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

// atomics: scheduling point, happens-before edge; always executed seq_cst
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static RTA Task* a_pre(const volatile void* p, size_t n) {
  Task* t = cur;
  if (!t || !t->in_op) return nullptr;
  step(t);
  if (env.strat == ST_RACE && env.race && others_runnable(t) && srng.chance(0.2)) { t->in_op = false; do_switch(t, false); t->in_op = true; set_evt(t); }
  if (in_arena((uintptr_t)p)) check_addr(t, (uintptr_t)p, n, true, 0);
  return env.race ? t : nullptr;
}
#define AT(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { Task* t = a_pre(a, sizeof(T)); T v = __atomic_load_n(a, 5); if (t && acq(mo)) acquire(t, (void*)a); return v; } \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t) { if (rel(mo)) release_set(t, (void*)a); else syncs.get((void*)a) = VC{}; } __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { Task* t = a_pre(a, sizeof(T)); if (t && acq(mo)) acquire(t, (void*)a); if (t && rel(mo)) release_join(t, (void*)a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { Task* t = a_pre(a, sizeof(T)); bool ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); if (t && acq(mo)) acquire(t, (void*)a); if (t && ok && rel(mo)) release_join(t, (void*)a); return ok; } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { Task* t = a_pre(a, sizeof(T)); bool ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); if (t && acq(mo)) acquire(t, (void*)a); if (t && ok && rel(mo)) release_join(t, (void*)a); return ok; } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { Task* t = a_pre(a, sizeof(T)); bool ok = __atomic_compare_exchange_n(a, &c, v, false, 5, 5); if (t && acq(mo)) acquire(t, (void*)a); if (t && ok && rel(mo)) release_join(t, (void*)a); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { Task* t = cur; if (t && t->in_op) { step(t); static int f; if (env.race) { acquire(t, &f); release_join(t, &f); } } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------- static-init guards
int __cxa_guard_acquire(uint64_t* g) {
  Task* t = cur;
  unsigned char* b = (unsigned char*)g;
  if (__atomic_load_n(b, 5)) { if (t && t->in_op) acquire(t, g); return 0; }
  if (child && t && t->in_op) {
    step(t);
    Mtx& m0 = mtxs.get(g); (void)m0;
    while (true) {
      if (__atomic_load_n(b, 5)) { acquire(t, g); return 0; }
      Mtx& m = mtxs.get(g);
      if (!m.running) { m.running = true; m.owner = t->id; acquire(t, g); return 1; }
      if (m.owner == t->id) violate("deadlock", ~0ull, "recursive initialisation of a static");
      block_on(t, g);
    }
  }
  if (b[1]) { fprintf(stderr, "recursive guard\n"); abort(); }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  Task* t = cur; unsigned char* b = (unsigned char*)g;
  b[1] = 0;
  if (child && t && t->in_op) { mtxs.get(g).running = false; release_join(t, g); __atomic_store_n(b, 1, 5); wake_all(g); return; }
  __atomic_store_n(b, 1, 5);
}
void __cxa_guard_abort(uint64_t* g) {
  Task* t = cur; unsigned char* b = (unsigned char*)g;
  b[1] = 0;
  if (child && t && t->in_op) { mtxs.get(g).running = false; release_join(t, g); wake_all(g); }
}

// -------------------------------------------------------------------- pthreads
#define SIMT Task* t = cur; bool sim = child && t && t->in_op
int pthread_mutex_lock(pthread_mutex_t* m) {
  SIMT;
  if (!sim) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); }
  step(t);
  if (env.strat == ST_RACE && others_runnable(t) && srng.chance(0.2)) { t->in_op = false; do_switch(t, false); t->in_op = true; set_evt(t); }
  for (;;) {
    Mtx& x = mtxs.get(m);
    if (x.count == 0) { x.count = 1; x.owner = t->id; break; }
    if (x.owner == t->id) {
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      violate("deadlock", ~0ull, "a thread locks a mutex it already holds");
    }
    block_on(t, m);
  }
  acquire(t, m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  SIMT;
  if (!sim) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); }
  step(t);
  Mtx& x = mtxs.get(m);
  if (x.count == 0) { x.count = 1; x.owner = t->id; acquire(t, m); return 0; }
  return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  SIMT;
  if (!sim) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); }
  step(t);
  Mtx& x = mtxs.get(m);
  if (x.count == 0 || x.owner != t->id) violate("unlock-unowned", ~0ull, "a thread unlocks a mutex it does not hold");
  if (--x.count == 0) { release_join(t, m); wake_all(m); }
  return 0;
}
static int rw_lock(pthread_rwlock_t* m, bool wr, bool tryit) {
  Task* t = cur; step(t);
  for (;;) {
    Mtx& x = mtxs.get(m); int rd = 0; for (int i = 0; i < MAXT; i++) rd += x.readers[i];
    if (x.count == 0 && (!wr || rd == 0)) { if (wr) { x.count = 1; x.owner = t->id; } else x.readers[t->id]++; break; }
    if (tryit) return EBUSY;
    if ((x.count && x.owner == t->id) || (wr && x.readers[t->id])) violate("deadlock", ~0ull, "a thread relocks a lock it already holds");
    block_on(t, m);
  }
  acquire(t, m); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return r(m); } return rw_lock(m, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return r(m); } return rw_lock(m, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return r(m); } return rw_lock(m, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return r(m); } return rw_lock(m, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  SIMT;
  if (!sim) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return r(m); }
  step(t); Mtx& x = mtxs.get(m);
  if (x.count && x.owner == t->id) x.count = 0; else if (x.readers[t->id]) x.readers[t->id]--; else violate("unlock-unowned", ~0ull, "unlock of a lock not held");
  release_join(t, m); wake_all(m); return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Task* t = cur; step(t);
  Mtx& x = mtxs.get(m); x.count = 0; release_join(t, m); wake_all(m);
  block_on(t, c, timed);
  bool to = t->timed_out;
  pthread_mutex_lock(m); acquire(t, c);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); } return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return r(c, m, ts); } return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return r(c, m, k, ts); } return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); } step(t); release_join(t, c); wake_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { SIMT; if (!sim) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); } step(t); release_join(t, c); wake_all(c); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  SIMT;
  if (!sim) { static auto r = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return r(o, f); }
  step(t);
  for (;;) {
    Mtx& x = mtxs.get(o);
    if (x.done || *(int*)o == 2) { acquire(t, o); return 0; }
    if (!x.running) { x.running = true; x.owner = t->id; break; }
    if (x.owner == t->id) violate("deadlock", ~0ull, "recursive once-initialisation");
    block_on(t, o);
  }
  acquire(t, o);
  try { f(); } catch (...) { mtxs.get(o).running = false; release_join(t, o); wake_all(o); throw; }
  Mtx& x = mtxs.get(o); x.running = false; x.done = true; *(int*)o = 2; release_join(t, o); wake_all(o);
  return 0;
}
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  SIMT;
  if (!sim) { if (!real_create) real_create = real<pc_t>("pthread_create"); return real_create(th, at, f, a); }
  step(t);
  Task* n = spawn(t);
  if (!n) return EAGAIN;
  n->cfn = f; n->carg = a;
  bool io = t->in_op; t->in_op = false; start_thread(n); gen_preempt(n); t->in_op = io;
  *th = n->th;
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  SIMT;
  if (!sim) { if (!real_join) real_join = real<pj_t>("pthread_join"); return real_join(th, ret); }
  step(t);
  for (int i = 1; i < ntasks; i++) if (pthread_equal(tasks[i].th, th)) {
    while (tasks[i].state != T_DONE) block_on(t, &tasks[i]);
    vjoin(t->vc, tasks[i].vc);
    if (ret) *ret = tasks[i].cret;
    t->in_op = false; int r = real_join(th, nullptr); t->in_op = true;
    return r;
  }
  return real_join(th, ret);
}
int sched_yield() { SIMT; if (!sim) return (int)syscall(SYS_sched_yield); step(t); if (others_runnable(t)) { t->in_op = false; do_switch(t, false); t->in_op = true; set_evt(t); } return 0; }
static void sim_sleep(Task* t, uint64_t ns) { step(t); clk_off += (int64_t)ns; if (others_runnable(t)) { t->in_op = false; do_switch(t, false); t->in_op = true; set_evt(t); } }
int nanosleep(const timespec* a, timespec* b) { SIMT; if (!sim) return (int)syscall(SYS_nanosleep, a, b); sim_sleep(t, a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { SIMT; if (!sim) return (int)-syscall(SYS_clock_nanosleep, c, fl, a, b); sim_sleep(t, fl ? 0 : a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
int usleep(useconds_t u) { SIMT; if (!sim) { timespec ts{u / 1000000, (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); } sim_sleep(t, u * 1000ull); return 0; }

// ----------------------------------------------------------------------- clock
int clock_gettime(clockid_t c, timespec* ts) {
  SIMT; if (startup_on) { ts->tv_sec = (time_t)(1000000000 + startup_sur * 7654321); ts->tv_nsec = (long)(startup_sur * 1234567 % 1000000000); return 0; }
  if (!(child && t)) return (int)syscall(SYS_clock_gettime, c, ts);
  uint64_t n = clock_read(); ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  SIMT; if (startup_on) { tv->tv_sec = (time_t)(1000000000 + startup_sur * 7654321); tv->tv_usec = 0; return 0; }
  if (!(child && t)) return (int)syscall(SYS_gettimeofday, tv, tz);
  uint64_t n = clock_read(); tv->tv_sec = (time_t)(n / 1000000000ull); tv->tv_usec = (long)(n % 1000000000ull) / 1000; return 0;
}
time_t time(time_t* o) { SIMT; time_t r; if (!(child && t)) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; } else r = (time_t)(clock_read() / 1000000000ull); if (o) *o = r; return r; }
clock_t clock() { SIMT; if (!(child && t)) { timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; } return (clock_t)(clock_read() / 1000); }

// ------------------------------------- process-wide state that is the caller's
#define REACH(bit) do { Task* t_ = cur; if (child && t_ && t_->in_op) t_->amb |= (bit); } while (0)
#define REAL(nm, ...) static auto r_ = real<decltype(&nm)>(#nm); return r_(__VA_ARGS__)
char* setlocale(int c, const char* l) { if (l) REACH(A_SETLOCALE); REAL(setlocale, c, l); }
// ---- the surroundings a process happens to run in: other values for every env.sur, never real ones
// They are answered while the library is being served and while its static objects are constructed
// (startup); what it reads at startup is decided by SIM_STARTUP, so two processes can be compared.
static uint64_t surk() { return startup_on ? startup_sur : env.sur; }
static uint64_t sur_draws[4];
static uint64_t sur_hash(const char* what, const char* key = "", uint64_t n = 0) {
  uint64_t h = surk() * 0x9E3779B97F4A7C15ull + n * 0xD1B54A32D192ED03ull + 99;
  for (const char* c = what; *c; c++) h = (h ^ (unsigned char)*c) * 0x100000001b3ull;
  for (const char* c = key; *c; c++) h = (h ^ (unsigned char)*c) * 0x100000001b3ull;
  if (shm) shm->stat[S_SUR]++;
  return Rng(h).next();
}
#define SURR (startup_on || (child && cur && cur->in_op))
static uint64_t sur_draw(const char* what) { return sur_hash(what, "", ++sur_draws[0]); } // entropy
int rand() { REACH(A_RAND); if (SURR) return (int)(sur_draw("rand") & 0x7fffffff); REAL(rand); }
int rand_r(unsigned* x) { REAL(rand_r, x); }
void srand(unsigned x) { REACH(A_RAND); REAL(srand, x); }
long random() { REACH(A_RAND); if (SURR) return (long)(sur_draw("random") & 0x7fffffff); REAL(random); }
void srandom(unsigned x) { REACH(A_RAND); REAL(srandom, x); }
double drand48() { REACH(A_RAND); if (SURR) return (double)(sur_draw("drand48") >> 16) / 281474976710656.0; REAL(drand48); }
long lrand48() { REACH(A_RAND); if (SURR) return (long)(sur_draw("lrand48") & 0x7fffffff); REAL(lrand48); }
long mrand48() { REACH(A_RAND); if (SURR) return (long)(int32_t)sur_draw("mrand48"); REAL(mrand48); }
void srand48(long x) { REACH(A_RAND); REAL(srand48, x); }
static void sur_bytes(void* b, size_t n) { unsigned char* p = (unsigned char*)b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)sur_draw("bytes"); }
ssize_t getrandom(void* b, size_t n, unsigned f) { if (SURR) { sur_bytes(b, n); return (ssize_t)n; } return syscall(SYS_getrandom, b, n, f); }
int getentropy(void* b, size_t n) { if (SURR) { sur_bytes(b, n); return 0; } REAL(getentropy, b, n); }
uint32_t arc4random(void) { if (SURR) return (uint32_t)sur_draw("arc4random"); uint32_t r = 0; syscall(SYS_getrandom, &r, sizeof r, 0); return r; }
static const char* sur_words[] = {"0", "1", "2", "3", "4", "8", "16", "64", "1000", "-1", "0.5", "1e-3", "yes", "no", "true", "false", "on", "off", "", "debug", "fast", "verbose", "all", "/tmp", "xyz"};
static char* sur_env(const char* n) {
  uint64_t h = sur_hash("env", n);
  return h % 100 < 35 ? nullptr : const_cast<char*>(sur_words[(h >> 20) % (sizeof sur_words / sizeof *sur_words)]);
}
static bool sur_env_applies(const char* n) { return SURR && surk() && n && strncmp(n, "LC_", 3) && strncmp(n, "LANG", 4) && strcmp(n, "LOCPATH") && strncmp(n, "MALLOC_", 7) && strncmp(n, "GLIBC", 5); }
char* getenv(const char* n) { if (sur_env_applies(n)) return sur_env(n); REAL(getenv, n); }
char* secure_getenv(const char* n) { if (sur_env_applies(n)) return sur_env(n); REAL(secure_getenv, n); }
static int sur_cpus() { static const int c[] = {1, 2, 3, 4, 6, 8, 16, 48, 64, 128, 256}; return surk() ? c[sur_hash("cpus") % 11] : 4; }
int get_nprocs() { if (SURR) return sur_cpus(); REAL(get_nprocs); }
int get_nprocs_conf() { if (SURR) return sur_cpus(); REAL(get_nprocs_conf); }
long sysconf(int k) {
  if (SURR && surk()) switch (k) {
    case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return sur_cpus();
    case _SC_PHYS_PAGES: case _SC_AVPHYS_PAGES: return (long)(1000 << (sur_hash("pages") % 16));
    case _SC_LEVEL1_DCACHE_SIZE: case _SC_LEVEL2_CACHE_SIZE: case _SC_LEVEL3_CACHE_SIZE: return (long)(16384l << (sur_hash("cache") % 10));
    case _SC_LEVEL1_DCACHE_LINESIZE: return (long)(32l << (sur_hash("line") % 3));
    default: break;
  }
  REAL(sysconf, k);
}
// what the processor says of itself
unsigned long getauxval(unsigned long k) {
  if (SURR && surk()) { static unsigned char rnd[16]; if (k == AT_HWCAP || k == AT_HWCAP2) return (unsigned long)(sur_hash("hwcap", "", k) & 0x1fffffff); if (k == AT_RANDOM) { for (int i = 0; i < 16; i++) rnd[i] = (unsigned char)sur_hash("atrandom", "", (uint64_t)i); return (unsigned long)rnd; } }
  REAL(getauxval, k);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t* s) { if (SURR && surk()) { memset(s, 0, n); int c = sur_cpus(); for (int i = 0; i < c && (size_t)i < n * 8; i++) CPU_SET_S(i, n, s); return 0; } REAL(sched_getaffinity, p, n, s); }
int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t* s) { if (SURR && surk()) return sched_getaffinity(0, n, s); REAL(pthread_getaffinity_np, t, n, s); }
int sched_getcpu() { if (SURR) return (int)(sur_hash("cpu") % (unsigned)sur_cpus()); REAL(sched_getcpu); }
int sysinfo(struct sysinfo* i) { if (SURR && surk()) { memset(i, 0, sizeof *i); i->uptime = (long)(sur_hash("up") % 1000000); i->totalram = 1ul << (20 + sur_hash("ram") % 18); i->freeram = i->totalram / 2; i->procs = 100; i->mem_unit = 1; return 0; } REAL(sysinfo, i); }
int getloadavg(double* d, int n) { if (SURR) { for (int i = 0; i < n; i++) d[i] = (double)(sur_hash("load", "", (uint64_t)i) % 6400) / 100; return n; } REAL(getloadavg, d, n); }
int getrusage(int w, struct rusage* u) { if (SURR) { memset(u, 0, sizeof *u); u->ru_utime.tv_sec = (long)(sur_hash("utime") % 1000); u->ru_maxrss = (long)(sur_hash("rss") % 10000000); return 0; } return (int)syscall(SYS_getrusage, w, u); }
pid_t getpid() { if (SURR) return (pid_t)(2 + sur_hash("pid") % 4000000); return (pid_t)syscall(SYS_getpid); }
pid_t getppid() { if (SURR) return (pid_t)(1 + sur_hash("ppid") % 4000000); return (pid_t)syscall(SYS_getppid); }
pid_t gettid() { if (SURR) return (pid_t)(2 + sur_hash("tid", "", (uint64_t)cur->id) % 4000000); return (pid_t)syscall(SYS_gettid); }
uid_t getuid() { if (SURR && surk()) return (uid_t)(sur_hash("uid") % 3 * 1000); return (uid_t)syscall(SYS_getuid); }
uid_t geteuid() { if (SURR && surk()) return (uid_t)(sur_hash("uid") % 3 * 1000); return (uid_t)syscall(SYS_geteuid); }
int gethostname(char* b, size_t n) { if (SURR) { snprintf(b, n, "host%u", (unsigned)(sur_hash("host") % 1000)); return 0; } REAL(gethostname, b, n); }
int uname(struct utsname* u) { if (SURR && surk()) { memset(u, 0, sizeof *u); snprintf(u->nodename, sizeof u->nodename, "host%u", (unsigned)(sur_hash("host") % 1000)); strcpy(u->sysname, "Linux"); snprintf(u->release, sizeof u->release, "%u.%u.0", (unsigned)(2 + sur_hash("rel") % 5), (unsigned)(sur_hash("rel2") % 20)); strcpy(u->machine, sur_hash("mach") & 1 ? "x86_64" : "aarch64"); return 0; } REAL(uname, u); }
int isatty(int fd) { if (SURR) return surk() ? (int)(sur_hash("tty", "", (uint64_t)fd) & 1) : 0; REAL(isatty, fd); }
char* getcwd(char* b, size_t n) { if (SURR && surk() && b) { snprintf(b, n, "/%s/%u", sur_hash("cwd") & 1 ? "home/user" : "tmp", (unsigned)(sur_hash("cwd2") % 1000)); return b; } REAL(getcwd, b, n); }
// files: nothing of the real file system is reached while the library is being served
static int sur_file(const char* path, bool wr) { // a descriptor, or -1
  if (wr) REACH(A_FILES);
  uint64_t h = sur_hash("file", path, sur_draws[1]);
  if (h % 100 < (wr ? 20 : 40)) { errno = wr ? EACCES : ENOENT; return -1; }
  int fd = (int)syscall(SYS_memfd_create, "sim", 1u);
  if (fd >= 0 && !wr) { char b[200]; snprintf(b, sizeof b, "%s\n%s %s\n", sur_words[(h >> 8) % 25], sur_words[(h >> 16) % 25], sur_words[(h >> 24) % 25]); if (write(fd, b, strlen(b)) < 0) {} lseek(fd, 0, SEEK_SET); }
  return fd;
}
static FILE* sur_fopen(const char* p, const char* m) { bool wr = strpbrk(m, "wa+") != nullptr; Task* t = cur; int fd = sur_file(p, wr); if (fd < 0) return nullptr; bool io = t && t->in_op; if (t) t->in_op = false; FILE* f = fdopen(fd, wr ? "w+" : "r"); if (t) t->in_op = io; return f; }
FILE* fopen(const char* p, const char* m) { if (SURR) return sur_fopen(p, m); REAL(fopen, p, m); }
FILE* fopen64(const char* p, const char* m) { if (SURR) return sur_fopen(p, m); REAL(fopen64, p, m); }
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (SURR) return sur_file(p, (fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if (SURR) return sur_file(p, (fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int access(const char* p, int m) { if (SURR) { if (sur_hash("access", p) % 100 < 50) { errno = ENOENT; return -1; } return 0; } return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
static int sur_stat(const char* p, struct stat* s) { if (sur_hash("stat", p) % 100 < 50) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)(sur_hash("size", p) % 100000); s->st_mtime = (time_t)(sur_hash("mtime", p) % 2000000000); return 0; }
int stat(const char* p, struct stat* s) { if (SURR) return sur_stat(p, s); REAL(stat, p, s); }
int lstat(const char* p, struct stat* s) { if (SURR) return sur_stat(p, s); REAL(lstat, p, s); }
int remove(const char* p) { if (SURR) { REACH(A_FILES); return 0; } REAL(remove, p); }
int unlink(const char* p) { if (SURR) { REACH(A_FILES); return 0; } return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rename(const char* a, const char* b) { if (SURR) { REACH(A_FILES); return 0; } return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int mkdir(const char* p, mode_t m) { if (SURR) { REACH(A_FILES); return 0; } return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int system(const char* c) { if (SURR) { REACH(A_FILES); return (int)(sur_hash("system", c ? c : "") % 3) << 8; } REAL(system, c); }
FILE* popen(const char* c, const char* m) { if (SURR) return sur_fopen(c, m); REAL(popen, c, m); }
int sigaction(int n, const struct sigaction* a, struct sigaction* o) { if (a) REACH(A_SIGNAL); REAL(sigaction, n, a, o); }
sighandler_t signal(int n, sighandler_t h) { REACH(A_SIGNAL); REAL(signal, n, h); }
int setenv(const char* a, const char* b, int o) { REACH(A_ENVIRON); REAL(setenv, a, b, o); }
int unsetenv(const char* a) { REACH(A_ENVIRON); REAL(unsetenv, a); }
int putenv(char* a) { REACH(A_ENVIRON); REAL(putenv, a); }
int chdir(const char* a) { REACH(A_CWD); REAL(chdir, a); }
mode_t umask(mode_t m) { REACH(A_UMASK); REAL(umask, m); }

// The processor itself: its feature list as compilers read it (__builtin_cpu_supports, resolvers of
// multi-versioned functions), and the instructions cpuid and rdtsc, which trap while a run with other
// surroundings is under way (where the hardware can do that).  No feature is offered that is not there.
extern unsigned __cpu_features2[3]; extern struct cpu_model_t { unsigned vendor, type, subtype, features; } __cpu_model;
unsigned __cpu_features2[3]; cpu_model_t __cpu_model;
#define CPUID_RAW(l, s, a, b, c, d) __asm__ volatile("cpuid" : "=a"(a), "=b"(b), "=c"(c), "=d"(d) : "a"(l), "c"(s))
static int cpu_level(uint64_t k) { return k ? (int)((k * 0x9E3779B97F4A7C15ull) >> 62) : 3; } // 0: oldest .. 3: all there is
static unsigned cpu_real[8]; static bool cpu_known = false;
static void cpu_say(uint64_t k) { // runs before anything is set up: no calls, no globals but its own
  unsigned a, b, c, d, b7 = 0, m = 0;
  if (!cpu_known) {
    CPUID_RAW(1, 0, a, b, c, d); cpu_real[0] = c; cpu_real[1] = d; CPUID_RAW(7, 0, a, b, c, d); cpu_real[2] = b; CPUID_RAW(0, 0, a, b, c, d); cpu_real[3] = b;
    if (cpu_real[0] & (1u << 27)) { unsigned lo, hi; __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0)); cpu_real[4] = lo; }
    cpu_known = true;
  }
  c = cpu_real[0]; d = cpu_real[1]; b7 = cpu_real[2]; bool ymm = (cpu_real[4] & 6) == 6, zmm = (cpu_real[4] & 0xe6) == 0xe6;
  auto on = [&](bool f, int bit) { if (f) m |= 1u << bit; };
  on(d & (1u << 15), 0); on(d & (1u << 23), 1); on(d & (1u << 25), 3); on(d & (1u << 26), 4);
  int l = cpu_level(k);
  if (l >= 1) { on(c & (1u << 23), 2); on(c & 1, 5); on(c & (1u << 9), 6); on(c & (1u << 19), 7); on(c & (1u << 20), 8); }
  if (l >= 2) { on(ymm && (c & (1u << 28)), 9); on(ymm && (b7 & (1u << 5)), 10); on(ymm && (c & (1u << 12)), 14); on(b7 & (1u << 3), 16); on(b7 & (1u << 8), 17); on(c & (1u << 25), 18); on(c & 2, 19); }
  if (l >= 3) on(zmm && (b7 & (1u << 16)), 15);
  __cpu_model.vendor = k ? 1 + (unsigned)(k >> 3 & 1) : cpu_real[3] == 0x68747541 ? 2 : 1; __cpu_model.type = k ? 1 + (unsigned)(k >> 5) % 20 : 0; __cpu_model.subtype = k ? 1 + (unsigned)(k >> 10) % 26 : 0;
  __cpu_model.features = m; __cpu_features2[1] = 1u << 31; // x86-64
  __cpu_features2[2] = (l >= 1 && (m & 0x1e4) == 0x1e4 ? 1 : 0) | (l >= 2 && (m & 0x34600) == 0x34600 ? 2 : 0);
}
static uint64_t startup_key() { // before libc is ready
  static const char want[] = "SIM_STARTUP="; char b[4096]; uint64_t v = 0; unsigned at = 0; bool in = true, hit = false;
  auto sys = [](long n, long x, long y, long z) { long r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(x), "S"(y), "d"(z) : "rcx", "r11", "memory"); return r; };
  long fd = sys(SYS_open, (long)"/proc/self/environ", 0, 0); if (fd < 0) return 0;
  for (long n; (n = sys(SYS_read, fd, (long)b, sizeof b)) > 0;) for (long i = 0; i < n; i++) {
    char c = b[i];
    if (!c) { in = true; at = 0; hit = false; } else if (hit) v = v * 10 + (uint64_t)(c - '0'); else if (in && c == want[at]) { if (!want[++at]) hit = true; } else in = false;
  }
  sys(SYS_close, fd, 0, 0); return v;
}
int __cpu_indicator_init(void) {
  static bool first = true; static uint64_t key;
  if (first) { first = false; key = startup_key(); }
  cpu_say(child ? (cur && cur->in_op ? env.sur : 0) ^ key : key);
  return 0;
}
static void traps(bool on) { syscall(SYS_arch_prctl, 0x1012, on ? 0 : 1); prctl(PR_SET_TSC, on ? PR_TSC_SIGSEGV : PR_TSC_ENABLE, 0, 0, 0); }
static void on_segv(int, siginfo_t*, void* u) {
  auto* r = ((ucontext_t*)u)->uc_mcontext.gregs; const unsigned char* ip = (const unsigned char*)r[REG_RIP];
  bool code = ((uintptr_t)ip >= (uintptr_t)&__executable_start && (uintptr_t)ip < (uintptr_t)&etext) || (uintptr_t)ip > 0x7c0000000000ull; int len = 0;
  if (code && ip[0] == 0x0f && ip[1] == 0xa2) len = 2; else if (code && ip[0] == 0x0f && ip[1] == 0x31) len = 2; else if (code && ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9) len = 3;
  if (!len) { auto f = real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction"); struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = SIG_DFL; f(SIGSEGV, &a, nullptr); return; } // a crash: happens again, and ends the process
  bool s = SURR && surk();
  if (ip[1] == 0xa2) {
    unsigned l = (unsigned)r[REG_RAX], sub = (unsigned)r[REG_RCX], a, b, c, d; traps(false); CPUID_RAW(l, sub, a, b, c, d); traps(true);
    if (s) {
      int k = cpu_level(surk());
      if (l == 1) { a = (unsigned)(sur_hash("cpuid") & 0x0fff0fff); b = (b & 0xff00ffff) | (unsigned)sur_cpus() << 16; if (k < 1) c &= ~((1u << 23) | 1 | (1u << 9) | (1u << 19) | (1u << 20)); if (k < 2) c &= ~((1u << 28) | (1u << 12) | (1u << 25) | (1u << 27) | 2u); }
      else if (l == 7 && k < 3) b &= k < 2 ? 0u : 0xffffu;
      else if (l >= 0x80000002 && l <= 0x80000004) { a = b = c = d = (unsigned)(sur_hash("brand", "", l) & 0x3f3f3f3f) + 0x20202020; }
    }
    r[REG_RAX] = a; r[REG_RBX] = b; r[REG_RCX] = c; r[REG_RDX] = d;
  } else {
    uint64_t v; if (startup_on) v = startup_sur * 7654321; else if (child && cur && cur->in_op) v = clock_read(); else { traps(false); v = __builtin_ia32_rdtsc(); traps(true); }
    r[REG_RAX] = v & 0xffffffffu; r[REG_RDX] = v >> 32; if (len == 3) r[REG_RCX] = (long long)(s ? sur_hash("cpu") % (unsigned)sur_cpus() : 0);
  }
  r[REG_RIP] += len;
}
void set_traps() { // called once, before anything of the library runs
  __cpu_indicator_init();
  auto f = real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction"); struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_segv; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&a.sa_mask); f(SIGSEGV, &a, nullptr); traps(true);
}
void cpu_traps(bool on) { traps(on); }
void cpu_of_run() { cpu_say(env.sur ^ startup_sur); }

// ---------------------------------------------------------------------- malloc
static RTA bool from_exe(uintptr_t pc) { return pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext; }
void* malloc(size_t n) {
  SIMT; if (!sim || !from_exe(PC)) return __libc_malloc(n);
  void* p = sim_new(n, 16, true); if (!p) errno = ENOMEM; return p;
}
void free(void* p) { if (!p) return; if (in_arena((uintptr_t)p)) sim_delete(p, 0); else __libc_free(p); }
void* calloc(size_t a, size_t b) {
  SIMT; if (!sim || !from_exe(PC)) return __libc_calloc(a, b);
  void* p = sim_new(a * b, 16, true); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p;
}
void* realloc(void* o, size_t n) {
  SIMT;
  if (!(o && in_arena((uintptr_t)o)) && (!sim || !from_exe(PC))) return __libc_realloc(o, n);
  void* p = sim ? sim_new(n, 16, true) : __libc_malloc(n);
  if (!p) { errno = ENOMEM; return nullptr; }
  if (o) { size_t k = in_arena((uintptr_t)o) ? ((Hdr*)o - 1)->size : n; memcpy(p, o, k < n ? k : n); free(o); }
  return p;
}
} // extern "C"

void* operator new(size_t n) { return sim_new(n, 16, false); }
void* operator new[](size_t n) { return sim_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { sim_delete(p, 0); }
void operator delete[](void* p) noexcept { sim_delete(p, 0); }
void operator delete(void* p, size_t n) noexcept { sim_delete(p, n); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, 0); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p, 0); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p, 0); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { sim_delete(p, n); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p, 0); }

// a source of entropy that a seed reproduces
unsigned int std::random_device::_M_getval() {
  if (SURR) return (unsigned)sur_draw("random_device");
  unsigned r = 0; syscall(SYS_getrandom, &r, sizeof r, 0); return r;
}

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
steady_clock::time_point steady_clock::now() noexcept {
  timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}}}
