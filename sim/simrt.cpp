// Simulator core: scheduler, vector-clock race detector, simulated heap, memory hooks, pthread / clock seams, run driver.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ------------------------------------------------------------------ layout
static const uintptr_t ARENA = 0x100000000000ull;
static const uintptr_t HEAP_SIZE = 3ull << 30;
static const uintptr_t STACK_SIZE = 2ull << 20;
static const uintptr_t STACKS = ARENA + HEAP_SIZE;
static const uintptr_t ARENA_SIZE = HEAP_SIZE + STACK_SIZE * MAXT;
static const uintptr_t SHADOW = 0x200000000000ull;   // 4 cells of 8 bytes per granule
static const uintptr_t SHADOWPC = 0x300000000000ull; // 4 pcs of 4 bytes per granule
static const uintptr_t AMEM = 0x380000000000ull;     // 1 byte per granule (heap only)
static const uintptr_t DSHADOW = 0x3a0000000000ull;  // exe data shadow
static const uintptr_t DSHADOWPC = 0x3b0000000000ull;
static const uintptr_t RTMEM = 0x3c0000000000ull;
static const uintptr_t RTMEM_SIZE = 1ull << 30;
extern "C" char __data_start, _end, __executable_start, etext;
static uintptr_t d_lo, d_size;

// ------------------------------------------------------------------ shared result block
enum { MAXDEC = 1 << 22, MAXDRAW = 1 << 16, NCNT = 64 };
struct Dec { uint8_t type; uint8_t kind; uint16_t tid; uint32_t val; uint64_t key; };  // type 'P','C'
struct Draw { int32_t group; uint32_t idx; uint64_t lo, hi, val; };
struct Counter { char name[40]; uint64_t n; };
struct Shared {
  int status;  // 0 running 1 ok 2 violation 3 discard 4 fatal
  char kind[64]; char msg[1024]; char sample[1024]; char ctx[40];
  uint64_t hash, steps, switches, sched_hash, simtime, preempts;
  uint32_t ndec, ndraw; int maxop; int nontrivial; uint32_t maxthreads;
  Counter faults[NCNT], probes[NCNT];
  uint32_t pcs[4];
  Dec dec[MAXDEC];
  Draw draw[MAXDRAW];
};
static Shared* S;

// ------------------------------------------------------------------ run configuration
static uint64_t g_seed; static bool g_replay; static bool g_verbose;
struct ReplayIn { Dec* dec; uint32_t ndec; Draw* draw; uint32_t ndraw; int* skip; uint32_t nskip; };
static ReplayIn RI;
struct TidList { Dec** p; uint32_t np, ip; Dec** c; uint32_t nc, ic; };
static TidList RL[MAXT];

Th* g_cur = nullptr; bool g_active = false; Th g_th[MAXT]; int g_nth = 0;
uint64_t g_steps_total = 0, g_now = 0;
static int64_t g_clock_off = 0; static uint64_t g_time_extra = 0;
static uint64_t g_step_limit = 400000000ull;
static uint64_t g_prng;
static int g_live_threads = 0;

static inline uint64_t mix64(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
static inline uint64_t prng() { g_prng += 0x9e3779b97f4a7c15ull; return mix64(g_prng); }
static inline uint32_t prng_n(uint32_t n) { return (uint32_t)((prng() >> 11) % n); }
void rt_hash(uint64_t v) { S->hash = mix64(S->hash ^ (v + 0x9e3779b97f4a7c15ull)); }
extern "C" void sim_digest(uint64_t v) { rt_hash(v ^ 0xD16E57ull); }
extern "C" void sim_digest_bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } sim_digest(h); }
extern "C" uint64_t sim_rand64(uint64_t s, uint64_t i) { return mix64(mix64(s * 0x9e3779b97f4a7c15ull + 0x1234567) ^ (i * 0xda942042e4dd58b5ull)); }

static void finish(int status) __attribute__((noreturn));
static void finish(int status) {
  // end of the simulated run: fold thread clocks into the hash, leave
  for (int i = 0; i < g_nth; i++) rt_hash(g_th[i].steps);
  S->steps = g_steps_total; S->simtime = g_now + g_steps_total + g_time_extra; S->maxthreads = g_nth;
  __atomic_store_n(&S->status, status, __ATOMIC_SEQ_CST);
  _exit(0);
}
void rt_fatal(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
  strcpy(S->kind, "simulator-error"); finish(4);
}
extern "C" void sim_violation(const char* kind, const char* fmt, ...) {
  if (g_cur) g_cur->in_rt++;
  snprintf(S->kind, sizeof S->kind, "%s", kind);
  va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
  finish(2);
}
extern "C" void sim_context(const char* c) { snprintf(S->ctx, sizeof S->ctx, "%s", c); }
extern "C" void sim_discard(const char* why) { if (g_cur) g_cur->in_rt++; snprintf(S->msg, sizeof S->msg, "%s", why); finish(3); }
extern "C" void sim_probe(int i, const char* name) { if (i >= 0 && i < NCNT) { if (!S->probes[i].n) snprintf(S->probes[i].name, 40, "%s", name); S->probes[i].n++; } }
extern "C" void sim_fault_fired(int i, const char* name) { if (i >= 0 && i < NCNT) { if (!S->faults[i].n) snprintf(S->faults[i].name, 40, "%s", name); S->faults[i].n++; } }
extern "C" void sim_sample(const char* fmt, ...) { size_t l = strlen(S->sample); if (l + 2 >= sizeof S->sample) return; va_list ap; va_start(ap, fmt); vsnprintf(S->sample + l, sizeof S->sample - l, fmt, ap); va_end(ap); }
extern "C" void sim_set_nontrivial(int v) { S->nontrivial = v; }
extern "C" int sim_verbose(void) { return g_verbose; }
extern "C" void sim_set_step_limit(uint64_t n) { g_step_limit = n; }
// fault ids used by the runtime itself
enum { F_TEAM = 0, F_PREEMPT = 1, F_STALL = 2, F_ALLOC = 3, F_CLOCK = 4, F_TASKDEFER = 5, F_STEAL = 6, F_FS = 8 };

// ------------------------------------------------------------------ runtime memory
static uintptr_t rt_brk = RTMEM;
void* rt_alloc(size_t n, size_t align) {
  rt_brk = (rt_brk + align - 1) & ~(uintptr_t)(align - 1);
  void* p = (void*)rt_brk; rt_brk += n;
  if (rt_brk > RTMEM + RTMEM_SIZE) rt_fatal("runtime memory exhausted");
  return p;  // zero-filled by mmap
}

// ------------------------------------------------------------------ workload draws
enum { MAXG = 4096 };
static uint32_t g_gidx[MAXG];
extern "C" uint64_t sim_draw(int group, uint64_t lo, uint64_t hi) {
  if (group < 0 || group >= MAXG) rt_fatal("draw group %d", group);
  uint32_t idx = g_gidx[group]++;
  uint64_t v = lo;
  if (hi > lo) { uint64_t r = mix64(mix64(g_seed * 0x9e3779b97f4a7c15ull + 77) ^ ((uint64_t)group << 32 | idx)); uint64_t span = hi - lo + 1; v = span ? lo + r % span : r; }
  for (uint32_t i = 0; i < RI.ndraw; i++) if (RI.draw[i].group == group && RI.draw[i].idx == idx) { uint64_t o = RI.draw[i].val; v = o < lo ? lo : o > hi ? hi : o; }
  if (S->ndraw < MAXDRAW) S->draw[S->ndraw++] = Draw{group, idx, lo, hi, v};
  return v;
}
extern "C" double sim_drawd(int g, double lo, double hi) { return lo + (hi - lo) * ((double)sim_draw(g, 0, 65536) / 65536.0); }
extern "C" int sim_flip(int g, int pct) { uint64_t v = sim_draw(g, 0, 99); return v >= (uint64_t)(100 - pct); }
extern "C" int sim_op_enabled(int op) {
  if (op > S->maxop) S->maxop = op;
  for (uint32_t i = 0; i < RI.nskip; i++) if (RI.skip[i] == op) return 0;
  return 1;
}

// ------------------------------------------------------------------ scheduler
enum Strat { ST_RANDOM, ST_SYNC, ST_PCT, ST_STARVE, ST_RUN, ST_MIX };
static int st_mode; static uint32_t st_mean; static uint32_t st_syncp; static int st_victim, st_skipped; static uint64_t st_pct[8]; static int st_npct; static int64_t st_low = -1;
static const uint64_t NEVER = ~0ull;
static void record(uint8_t type, int kind, int tid, uint64_t key, uint32_t val) {
  if (S->ndec >= MAXDEC) rt_fatal("too many decisions");
  S->dec[S->ndec++] = Dec{type, (uint8_t)kind, (uint16_t)tid, val, key};
  if (S->ndec == MAXDEC / 4 || S->ndec == MAXDEC / 2) { st_mean = st_mean > 1000000 ? st_mean : st_mean * 50; st_syncp = (st_syncp + 49) / 50; }  // very long run: preempt less often
}
static uint64_t geom() { uint64_t r = prng() >> 12; double u = (r + 1) / 4503599627370497.0; double x = -__builtin_log(u) * st_mean; return 1 + (uint64_t)x; }
static uint64_t next_event(Th* t) {
  uint64_t cap = t->steps + 1000000;
  uint64_t e = NEVER;
  if (g_replay) { TidList& L = RL[t->id]; while (L.ip < L.np && L.p[L.ip]->key < t->steps + 1) L.ip++; if (L.ip < L.np) e = L.p[L.ip]->key; }
  else if (st_mode == ST_RANDOM || st_mode == ST_MIX) e = t->steps + geom();
  else if (st_mode == ST_STARVE) e = t->steps + geom();
  else if (st_mode == ST_PCT) { uint64_t left = NEVER; for (int i = 0; i < st_npct; i++) if (st_pct[i] > g_steps_total && st_pct[i] - g_steps_total < left) left = st_pct[i] - g_steps_total; if (left != NEVER) e = t->steps + left; }
  return e < cap ? e : cap;
}
static void futex_wait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void park(Th* me) { while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) futex_wait(&me->go, 0); __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED); }
static void switch_to(Th* n) {
  Th* me = g_cur;
  if (n == me) return;
  S->switches++;
  uint64_t hv = ((uint64_t)(me ? me->id : 63) << 58) ^ ((uint64_t)n->id << 50) ^ (me ? me->steps : 0);
  rt_hash(hv);
  S->sched_hash = mix64(S->sched_hash ^ hv);
  if (me) me->spin = 0;
  g_cur = n;
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); futex_wake(&n->go);
  if (me) park(me);
}
static bool is_ready(Th* t) {
  if (t->state == 1) return true;
  if (t->state == 2) {
    if (t->pred && t->pred(t->parg)) return true;
    if (t->deadline != NEVER && g_now + g_steps_total + g_time_extra >= t->deadline) return true;
  }
  return false;
}
static int ready_list(Th** out, bool include_cur) {
  // order: round robin starting after the current thread; the current thread (if included) comes first so that index 0 = "continue"
  int n = 0; int c = g_cur ? g_cur->id : 0;
  if (include_cur && g_cur && is_ready(g_cur)) out[n++] = g_cur;
  for (int k = 1; k <= g_nth; k++) { Th* t = &g_th[(c + k) % g_nth]; if (t == g_cur) continue; if (is_ready(t)) out[n++] = t; }
  return n;
}
static int raw_choose(int kind, int n, int forced /*-1: by strategy*/) {
  Th* t = g_cur; uint64_t idx = t->nchoice++;
  int v = 0;
  if (g_replay) { TidList& L = RL[t->id]; while (L.ic < L.nc && L.c[L.ic]->key < idx) L.ic++; if (L.ic < L.nc && L.c[L.ic]->key == idx && L.c[L.ic]->kind == kind && (int)L.c[L.ic]->val < n) v = L.c[L.ic]->val; }
  else if (n > 1) v = forced >= 0 ? forced : (int)prng_n(n);
  if (v) record('C', kind, t->id, idx, v);
  rt_hash(((uint64_t)kind << 40) ^ ((uint64_t)n << 20) ^ v ^ 0xC0ull);
  return v;
}
// which of the ready threads runs next (list[0] is the default)
static int pick_thread(Th** l, int n) {
  if (n == 1) return 0;
  int f = -1;
  if (!g_replay) {
    if (st_mode == ST_PCT) { f = 0; for (int i = 1; i < n; i++) if (l[i]->prio > l[f]->prio) f = i; }
    else if (st_mode == ST_STARVE) { bool f0 = false; int c[MAXT], m = 0; for (int i = 0; i < n; i++) if (l[i]->id != st_victim) c[m++] = i; if (m && m < n) { sim_fault_fired(F_STALL, "worker stalled while others run"); if (++st_skipped > 500) m = 0, st_skipped = 0, f0 = true; } if (f0) { for (int i = 0; i < n; i++) if (l[i]->id == st_victim) f = i; } else f = m ? c[prng_n(m)] : 0; }  // a stall is finite: others that only spin would wait for ever
  }
  return raw_choose(K_SCHED, n, f);
}
static void check_limits() {
  if (g_steps_total > g_step_limit) sim_violation("no-progress", "run exceeded %llu simulated steps without finishing", (unsigned long long)g_step_limit);
}
static void preempt_to(Th* me, Th* n) {
  uint64_t key = me->steps; record('P', 0, me->id, key, n->id); S->preempts++; sim_fault_fired(F_PREEMPT, "preemption"); switch_to(n);
}
static void slow_event() {
  Th* t = g_cur; check_limits();
  t->in_rt++;
  if (g_replay) {
    TidList& L = RL[t->id];
    while (L.ip < L.np && L.p[L.ip]->key < t->steps) L.ip++;
    if (L.ip < L.np && L.p[L.ip]->key == t->steps) { int to = L.p[L.ip]->val; L.ip++; if (to < g_nth && to != t->id && is_ready(&g_th[to])) { preempt_to(t, &g_th[to]); } }
  } else if (t->steps >= t->next_evt) {
    Th* l[MAXT]; int n = ready_list(l, false);
    bool want = false;
    if (st_mode == ST_RANDOM || st_mode == ST_MIX || st_mode == ST_STARVE) want = n > 0;
    if (st_mode == ST_PCT) { for (int i = 0; i < st_npct; i++) if (st_pct[i] && st_pct[i] <= g_steps_total) { t->prio = st_low--; st_pct[i] = 0; want = n > 0; } }
    if (want) {
      Th* to = nullptr;
      if (st_mode == ST_PCT) { to = t; for (int i = 0; i < n; i++) if (l[i]->prio > to->prio) to = l[i]; if (to == t) to = nullptr; }
      else if (st_mode == ST_STARVE) { int m = 0; Th* c[MAXT]; for (int i = 0; i < n; i++) if (l[i]->id != st_victim) c[m++] = l[i]; if (m) to = c[prng_n(m)]; }
      else to = l[prng_n(n)];
      if (to) preempt_to(t, to);
    }
  }
  t->next_evt = next_event(t);
  t->in_rt--;
}
static inline void step() { Th* t = g_cur; g_steps_total++; if (__builtin_expect(++t->steps >= t->next_evt, 0)) slow_event(); }
static void sync_point(Th* t) {
  // called with in_rt > 0
  g_steps_total++;
  if (++t->steps >= t->next_evt) { slow_event(); return; }
  if (g_replay || g_nth <= 1) return;
  if (st_mode == ST_SYNC || st_mode == ST_MIX) {
    if (prng_n(1000) < st_syncp) { Th* l[MAXT]; int n = ready_list(l, false); if (n) preempt_to(t, l[prng_n(n)]); }
  } else if (st_mode == ST_PCT) {
    Th* l[MAXT]; int n = ready_list(l, false); Th* to = t; for (int i = 0; i < n; i++) if (l[i]->prio > to->prio) to = l[i]; if (to != t) preempt_to(t, to);
  }
}
void rt_yield() { Th* t = g_cur; if (!g_active || !t || t->paused) return; t->in_rt++; sync_point(t); t->in_rt--; }
extern "C" void sim_point(void) { rt_yield(); }
static void leave_cpu(Th* t) {
  // current thread cannot / should not continue: pick another (or itself when ready)
  for (;;) {
    Th* l[MAXT]; int n = ready_list(l, true);
    if (n == 0) {
      // advance the clock to the earliest deadline
      uint64_t d = NEVER; for (int i = 0; i < g_nth; i++) if (g_th[i].state == 2 && g_th[i].deadline < d) d = g_th[i].deadline;
      if (d == NEVER) { char b[400]; int o = 0; b[0] = 0; for (int i = 0; i < g_nth; i++) if (g_th[i].state == 2) o += snprintf(b + o, sizeof b - o, " t%d(role %d, %llu steps)", i, g_th[i].role, (unsigned long long)g_th[i].steps); sim_violation("deadlock", "no simulated thread can make progress; waiting:%s", b); }
      uint64_t now = g_now + g_steps_total + g_time_extra; if (d > now) g_time_extra += d - now;
      continue;
    }
    Th* to = l[pick_thread(l, n)];
    switch_to(to);
    return;
  }
}
void rt_wait_until(bool (*pred)(void*), void* arg, uint64_t deadline) {
  Th* t = g_cur; t->in_rt++;
  sync_point(t);
  while (!pred(arg)) {
    if (deadline != NEVER && g_now + g_steps_total + g_time_extra >= deadline) break;
    check_limits(); g_steps_total++; t->steps++;
    t->state = 2; t->pred = pred; t->parg = arg; t->deadline = deadline;
    leave_cpu(t);
    t->state = 1; t->pred = nullptr; t->deadline = NEVER;
  }
  t->next_evt = next_event(t);
  t->in_rt--;
}
void rt_wait(bool (*pred)(void*), void* arg) { rt_wait_until(pred, arg, NEVER); }
static void spin_bump(Th* t, uint32_t w) {
  t->spin += w;
  if (t->spin > 2000) {
    t->in_rt++; t->spin = 0; check_limits();
    Th* l[MAXT]; int n = ready_list(l, false);
    if (n) { if (st_mode == ST_PCT && !g_replay) t->prio = st_low--; Th* to = l[pick_thread(l, n)]; switch_to(to); t->next_evt = next_event(t); }
    else {
      // only spinning: let simulated time pass
      uint64_t d = NEVER; for (int i = 0; i < g_nth; i++) if (g_th[i].state == 2 && g_th[i].deadline < d) d = g_th[i].deadline;
      uint64_t now = g_now + g_steps_total + g_time_extra; if (d != NEVER && d > now) g_time_extra += d - now;
    }
    t->in_rt--;
  }
}
void rt_spin() { if (g_active && g_cur) spin_bump(g_cur, 200); }
extern "C" int sim_choose(int kind, int n) { if (!g_active || n <= 1) return 0; Th* t = g_cur; t->in_rt++; int v = raw_choose(K_USER + kind, n, -1); t->in_rt--; return v; }
extern "C" int sim_choose_p(int kind, int n, int permille) {
  if (!g_active || n <= 1) return 0; Th* t = g_cur; t->in_rt++; int f = 0; if (!g_replay && (int)prng_n(1000) < permille) f = (int)prng_n(n); int v = raw_choose(kind, n, f); t->in_rt--; return v;
}
int rt_choose_strategy(int kind, int n) {  // used by seams: random unless the run is a "no choice" run
  Th* t = g_cur; t->in_rt++; int v = n <= 1 ? 0 : raw_choose(kind, n, -1); t->in_rt--; return v;
}

// ------------------------------------------------------------------ vector clocks
void rt_acquire(const VC* v) { Th* t = g_cur; for (int i = 0; i < MAXT; i++) if (v->v[i] > t->vc.v[i]) t->vc.v[i] = v->v[i]; }
void rt_release(VC* v) { Th* t = g_cur; for (int i = 0; i < MAXT; i++) if (t->vc.v[i] > v->v[i]) v->v[i] = t->vc.v[i]; t->vc.v[t->id]++; }
struct SyncEnt { uintptr_t a; VC* vc; };
enum { SYNCN = 1 << 20 };
static SyncEnt* g_sync; static uint32_t g_nsync; static VC* g_syncfree; static VC g_fence;
static VC* sync_vc(const void* addr, bool create) {
  uintptr_t a = (uintptr_t)addr; uint64_t h = mix64(a);
  for (uint32_t k = 0;; k++) {
    SyncEnt& e = g_sync[(h + k) & (SYNCN - 1)];
    if (e.a == a) return e.vc;
    if (!e.a) {
      if (!create) return nullptr;
      if (++g_nsync > SYNCN / 2) rt_fatal("sync table full");
      e.a = a; e.vc = (VC*)rt_alloc(sizeof(VC)); return e.vc;
    }
  }
}
void rt_sync_acquire(const void* a) { VC* v = sync_vc(a, false); if (v) rt_acquire(v); }
void rt_sync_release(const void* a) { rt_release(sync_vc(a, true)); }

// ------------------------------------------------------------------ simulated heap
struct Hdr { uint64_t size; uint64_t magic_seq; };  // magic in the low 16 bits
static const uint64_t MAGIC_LIVE = 0xA11C, MAGIC_FREE = 0xF4EE, MAGIC_LIVEP = 0xA11D;  // LIVEP: allocated by the harness while paused, not counted
static uintptr_t hp_brk = ARENA + 64; static uint64_t hp_seq = 0, hp_live_blocks = 0, hp_live_bytes = 0; static unsigned char hp_junk = 0xCB;
static uint64_t al_arm = NEVER, al_burst = 0; static uint64_t al_elig = 0; static int al_fired = 0; static bool al_skip_omp = false; static uint64_t al_limit = NEVER, al_max = 0;
static inline bool in_heap(const void* p) { uintptr_t a = (uintptr_t)p; return a >= ARENA && a < ARENA + HEAP_SIZE; }
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static void amem_set(uintptr_t p, size_t n) {  // mark [p, p+n) addressable; p is 16-aligned
  unsigned char* m = (unsigned char*)(AMEM + ((p - ARENA) >> 3)); size_t full = n >> 3; memset(m, 8, full); if (n & 7) m[full] = n & 7;
}
static void amem_clear(uintptr_t p, size_t n) { memset((unsigned char*)(AMEM + ((p - ARENA) >> 3)), 0, (n + 7) >> 3); }
static bool alloc_fault(size_t n) {
  Th* t = g_cur; if (t->in_rt || t->paused) return false;
  if (t->team && al_arm != NEVER && al_skip_omp) return false;  // an exception must not leave an OpenMP region
  if (n > al_max) al_max = n;
  if (!(t->team && al_skip_omp)) al_elig++;
  if (n > al_limit) { sim_fault_fired(F_ALLOC, "allocation refused (memory bound)"); return true; }
  if (al_arm != NEVER) {
    if (al_arm > 0) { al_arm--; return false; }
    if (al_burst > 0) { al_burst--; al_fired++; sim_fault_fired(F_ALLOC, "allocation failure"); rt_hash(0xA110Cull); if (!al_burst) al_arm = NEVER; return true; }
  }
  return false;
}
// audit mode: every block is followed by a red zone that is checked for writes by uninstrumented code
enum { AUDIT_MAX = 1 << 16, AUDIT_RZ = 256 }; static bool au_on = false; static uint32_t au_n = 0; static uintptr_t* au_p = nullptr; static size_t* au_s = nullptr;
static void au_check(uintptr_t p, size_t n) { const unsigned char* r = (const unsigned char*)(p + n); for (int i = 0; i < AUDIT_RZ; i++) if (r[i] != 0xEB) sim_violation("heap-overflow", "a byte %d past the end of a heap block of %zu bytes was overwritten", i, n); }
extern "C" void sim_heap_audit_on(void) { au_on = true; if (!au_p) { au_p = (uintptr_t*)__libc_malloc(8 * AUDIT_MAX); au_s = (size_t*)__libc_malloc(8 * AUDIT_MAX); } }
extern "C" void sim_heap_audit(void) { for (uint32_t i = 0; i < au_n; i++) au_check(au_p[i], au_s[i]); }
static void* sim_malloc(size_t n, size_t align) {
  if (alloc_fault(n)) { errno = ENOMEM; return nullptr; }
  uintptr_t p = hp_brk + sizeof(Hdr) + 16;
  p = (p + align - 1) & ~(uintptr_t)(align - 1);
  if (n > HEAP_SIZE || p + n + 64 > ARENA + HEAP_SIZE) { if (n > (1ull << 28)) { errno = ENOMEM; return nullptr; } if (hp_live_bytes > (1ull << 30)) sim_violation("runaway-memory", "more than %llu MB live in one run", (unsigned long long)(hp_live_bytes >> 20)); rt_fatal("simulated heap exhausted (request %zu)", n); }
  hp_brk = (p + n + 15 + (au_on ? AUDIT_RZ : 0)) & ~(uintptr_t)15;
  if (au_on && au_n < AUDIT_MAX) { memset((void*)(p + n), 0xEB, AUDIT_RZ); au_p[au_n] = p; au_s[au_n++] = n; }
  Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = n; bool hp = g_cur->paused != 0; h->magic_seq = (++hp_seq << 16) | (hp ? MAGIC_LIVEP : MAGIC_LIVE);
  amem_set(p, n); hp_live_blocks += !hp; hp_live_bytes += n;
  if (n <= (8u << 20)) memset((void*)p, hp_junk, n);
  return (void*)p;
}
static void mem_access(uintptr_t a, size_t n, bool w, bool at, uint32_t pc);
static void sim_free(void* p) {
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if ((h->magic_seq & 0xffff) == MAGIC_FREE) sim_violation("double-free", "heap block of %llu bytes freed twice", (unsigned long long)h->size);
  bool hp = (h->magic_seq & 0xffff) == MAGIC_LIVEP; if (!hp && (h->magic_seq & 0xffff) != MAGIC_LIVE) sim_violation("bad-free", "free of a pointer that is not a heap block start");
  h->magic_seq = (h->magic_seq & ~0xffffull) | MAGIC_FREE; hp_live_blocks -= !hp; hp_live_bytes -= h->size;
  if (g_active && g_cur && !g_cur->in_rt && !g_cur->paused && g_live_threads > 1) mem_access((uintptr_t)p, h->size < 128 ? h->size : 128, true, false, (uint32_t)(uintptr_t)__builtin_return_address(0));
  amem_clear((uintptr_t)p, h->size);
  if (h->size <= (1u << 20)) memset(p, 0xDD, h->size);
}
static inline bool use_sim() { return g_active && g_cur && !g_cur->in_rt; }
extern "C" void* malloc(size_t n) { return use_sim() ? sim_malloc(n, 16) : __libc_malloc(n); }
extern "C" void free(void* p) { if (!p) return; if (in_heap(p)) sim_free(p); else __libc_free(p); }
extern "C" void* calloc(size_t a, size_t b) { if (!use_sim()) return __libc_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = sim_malloc(n, 16); if (p) memset(p, 0, n); return p; }
extern "C" void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!in_heap(p)) { if (!use_sim()) return __libc_realloc(p, n); return __libc_realloc(p, n); }
  if (n == 0) { free(p); return nullptr; }
  void* q = use_sim() ? sim_malloc(n, 16) : __libc_malloc(n); if (!q) return nullptr; Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr)); memcpy(q, p, h->size < n ? h->size : n); sim_free(p); return q;
}
extern "C" void* memalign(size_t al, size_t n) { return use_sim() ? sim_malloc(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
extern "C" void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void** out, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
extern "C" void* valloc(size_t n) { return memalign(4096, n); }
extern "C" size_t malloc_usable_size(void* p) { if (!p) return 0; if (in_heap(p)) return ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size; static size_t (*r)(void*) = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size"); return r(p); }
extern "C" void sim_alloc_arm(uint64_t k, int burst) { al_arm = k; al_burst = burst; al_fired = 0; }
extern "C" void sim_alloc_outside_omp(int on) { al_skip_omp = on; }
extern "C" int sim_alloc_disarm(void) { al_arm = NEVER; al_burst = 0; return al_fired; }
extern "C" uint64_t sim_alloc_count(void) { return hp_seq; }
extern "C" uint64_t sim_alloc_eligible(void) { return al_elig; }
void rt_uncount(void* p) { if (!p || !in_heap(p)) return; Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr)); if ((h->magic_seq & 0xffff) == MAGIC_LIVE) { h->magic_seq = (h->magic_seq & ~0xffffull) | MAGIC_LIVEP; hp_live_blocks--; } }
extern "C" uint64_t sim_heap_live_blocks(void) { return hp_live_blocks; }
extern "C" uint64_t sim_heap_live_bytes(void) { return hp_live_bytes; }
extern "C" uint64_t sim_heap_mark(void) { return hp_seq; }
extern "C" void sim_alloc_size_limit(uint64_t b) { al_limit = b ? b : NEVER; al_max = 0; }
extern "C" uint64_t sim_alloc_max_request(void) { return al_max; }
extern "C" int sim_heap_check(const void* p, size_t n) {
  for (size_t i = 0; i < n; i++) { uintptr_t a = (uintptr_t)p + i; if (!in_heap((void*)a)) return 0; unsigned char m = *(unsigned char*)(AMEM + ((a - ARENA) >> 3)); if ((a & 7) >= m) return 0; }
  return 1;
}

// ------------------------------------------------------------------ race detector and memory hooks
static inline uint64_t pack(int tid, bool w, bool at, uint8_t mask, uint32_t ep) { return ((uint64_t)ep << 24) | ((uint64_t)mask << 16) | ((uint64_t)at << 9) | ((uint64_t)w << 8) | (uint64_t)(tid + 1); }
static void report_race(uintptr_t a, int otid, bool ow, uint32_t opc, bool w, uint32_t pc) __attribute__((noreturn, noinline));
static void report_race(uintptr_t a, int otid, bool ow, uint32_t opc, bool w, uint32_t pc) {
  S->pcs[0] = pc; S->pcs[1] = opc;
  const char* where = a >= STACKS ? "stack" : a >= ARENA ? "heap" : "global";
  sim_violation("data-race", "unsynchronised %s at pc 0x%x by thread %d conflicts with %s at pc 0x%x by thread %d on %s memory", w ? "write" : "read", pc, g_cur->id, ow ? "write" : "read", opc, otid, where);
}
static inline void granule(Th* t, uint64_t* cell, uint32_t* pcs, uint8_t mask, bool w, bool at, uint32_t pc, uintptr_t a) {
  uint32_t ep = t->vc.v[t->id]; uint64_t mine = pack(t->id, w, at, mask, ep);
  int slot = -1, fr = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t c = cell[i];
    if (!c) { fr = fr < 0 ? i : fr; break; }
    if (c == mine) return;
    int tid = (int)(c & 0xff) - 1; bool cw = (c >> 8) & 1, cat = (c >> 9) & 1; uint8_t cm = (c >> 16) & 0xff; uint32_t cep = (uint32_t)(c >> 24);
    if (tid == t->id) {
      if (cep == ep && (cm & mask) == mask && cw >= w && cat <= at) return;
      if ((cm & mask) == cm && w >= cw && at <= cat) slot = i;
      continue;
    }
    if (!(cm & mask)) continue;
    if (cep <= t->vc.v[tid]) { if ((cm & mask) == cm && w && !at) slot = i; continue; }
    if (!(cw || w) || (cat && at)) continue;
    report_race(a, tid, cw, pcs[i], w, pc);
  }
  int s = slot >= 0 ? slot : fr >= 0 ? fr : (int)(t->steps & 3);
  cell[s] = mine; pcs[s] = pc;
}
static void bad_access(uintptr_t a, size_t n, bool w, uint32_t pc) __attribute__((noreturn, noinline));
static void bad_access(uintptr_t a, size_t n, bool w, uint32_t pc) {
  S->pcs[0] = pc; S->pcs[1] = 0;
  // find the nearest block start below for the report
  sim_violation("invalid-heap-access", "%s of %zu bytes at pc 0x%x by thread %d touches memory outside any live heap block", w ? "write" : "read", n, pc, g_cur->id);
}
static void mem_access(uintptr_t a, size_t n, bool w, bool at, uint32_t pc) {
  Th* t = g_cur;
  uintptr_t off = a - ARENA;
  if (off < ARENA_SIZE) {
    if (off < HEAP_SIZE) {
      unsigned char* m = (unsigned char*)(AMEM + (off >> 3));
      unsigned char* e = (unsigned char*)(AMEM + ((off + n - 1) >> 3));
      if (__builtin_expect(m == e, 1)) { if (*m < (off & 7) + n) bad_access(a, n, w, pc); }
      else { for (; m < e; m++) if (*m != 8) bad_access(a, n, w, pc); if (*e < ((off + n - 1) & 7) + 1) bad_access(a, n, w, pc); }
    }
    if (g_live_threads <= 1) return;
    uintptr_t g = off >> 3, ge = (off + n - 1) >> 3; unsigned b = off & 7;
    for (; g <= ge; g++) {
      unsigned e = g == ge ? ((off + n - 1) & 7) + 1 : 8; uint8_t mask = (uint8_t)(((1u << e) - 1) & ~((1u << b) - 1)); b = 0;
      granule(t, (uint64_t*)(SHADOW + g * 32), (uint32_t*)(SHADOWPC + g * 16), mask, w, at, pc, a);
    }
  } else if (a - d_lo < d_size) {
    if (g_live_threads <= 1) return;
    off = a - d_lo; uintptr_t g = off >> 3, ge = (off + n - 1) >> 3; unsigned b = off & 7;
    for (; g <= ge; g++) {
      unsigned e = g == ge ? ((off + n - 1) & 7) + 1 : 8; uint8_t mask = (uint8_t)(((1u << e) - 1) & ~((1u << b) - 1)); b = 0;
      granule(t, (uint64_t*)(DSHADOW + g * 32), (uint32_t*)(DSHADOWPC + g * 16), mask, w, at, pc, a);
    }
  }
}
#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))
static inline bool hook_on() { Th* t = g_cur; return g_active && t && !t->in_rt && !t->paused; }
#define HOOK(a, n, w) do { if (hook_on()) { step(); mem_access((uintptr_t)(a), (n), (w), false, PC); } } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_read1(void* p) { HOOK(p, 1, false); } void __tsan_read2(void* p) { HOOK(p, 2, false); } void __tsan_read4(void* p) { HOOK(p, 4, false); } void __tsan_read8(void* p) { HOOK(p, 8, false); } void __tsan_read16(void* p) { HOOK(p, 16, false); }
void __tsan_write1(void* p) { HOOK(p, 1, true); } void __tsan_write2(void* p) { HOOK(p, 2, true); } void __tsan_write4(void* p) { HOOK(p, 4, true); } void __tsan_write8(void* p) { HOOK(p, 8, true); } void __tsan_write16(void* p) { HOOK(p, 16, true); }
void __tsan_unaligned_read2(void* p) { HOOK(p, 2, false); } void __tsan_unaligned_read4(void* p) { HOOK(p, 4, false); } void __tsan_unaligned_read8(void* p) { HOOK(p, 8, false); } void __tsan_unaligned_read16(void* p) { HOOK(p, 16, false); }
void __tsan_unaligned_write2(void* p) { HOOK(p, 2, true); } void __tsan_unaligned_write4(void* p) { HOOK(p, 4, true); } void __tsan_unaligned_write8(void* p) { HOOK(p, 8, true); } void __tsan_unaligned_write16(void* p) { HOOK(p, 16, true); }
void __tsan_read_range(void* p, unsigned long n) { if (n) HOOK(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) HOOK(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) HOOK(p, 8, true); }
void __tsan_vptr_read(void** p) { HOOK(p, 8, false); }
// instrumented objects have memcpy/memmove/memset renamed to these (objcopy --redefine-sym)
void* simw_memcpy(void* d, const void* s, size_t n) { if (n && hook_on()) { step(); mem_access((uintptr_t)s, n, false, false, PC); mem_access((uintptr_t)d, n, true, false, PC); } return memcpy(d, s, n); }
void* simw_memmove(void* d, const void* s, size_t n) { if (n && hook_on()) { step(); mem_access((uintptr_t)s, n, false, false, PC); mem_access((uintptr_t)d, n, true, false, PC); } return memmove(d, s, n); }
void* simw_memset(void* d, int c, size_t n) { if (n && hook_on()) { step(); mem_access((uintptr_t)d, n, true, false, PC); } return memset(d, c, n); }

// atomics: every access is a potential preemption point; acquire / release edges follow the given order
static inline bool mo_acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool mo_rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void* p, size_t n, bool w, uint32_t pc) { Th* t = g_cur; t->in_rt++; sync_point(t); mem_access((uintptr_t)p, n, w, true, pc); spin_bump(t, 1); t->in_rt--; }
static void at_post_load(const volatile void* p, int mo) { if (mo_acq(mo)) { VC* v = sync_vc((const void*)p, false); if (v) rt_acquire(v); } }
static void at_pre_store(const volatile void* p, int mo, bool rmw) {
  if (mo_rel(mo)) { VC* v = sync_vc((const void*)p, true); if (!rmw) memset(v, 0, sizeof *v); rt_release(v); }
  else if (!rmw) { VC* v = sync_vc((const void*)p, false); if (v) memset(v, 0, sizeof *v); }
}
#define ATOMICS(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { if (!hook_on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), false, PC); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_post_load(p, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { if (!hook_on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } at_pre(p, sizeof(T), true, PC); at_pre_store(p, mo, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { if (!hook_on()) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); at_post_load(p, mo); at_pre_store(p, mo, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { if (!hook_on()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_pre(p, sizeof(T), true, PC); if (__atomic_load_n(p, __ATOMIC_SEQ_CST) == *e) { at_post_load(p, mo); at_pre_store(p, mo, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return 1; } *e = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_post_load(p, fmo); return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!hook_on()) return; Th* t = g_cur; t->in_rt++; sync_point(t); rt_acquire(&g_fence); rt_release(&g_fence); t->in_rt--; }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ threads
static void* pool_main(void* a) {
  Th* t = (Th*)a; park(t);
  for (;;) {
    t->state = 1; t->next_evt = next_event(t); t->in_rt = 0; t->paused = 0;
    t->job(t->jarg);
    t->in_rt = 1; rt_release(&t->donevc); t->job_done = true; t->state = 0; t->role = 0;
    // give the CPU away; the thread stays idle until it gets a new job
    leave_cpu(t);
  }
  return nullptr;
}
}
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static void make_thread(int id, void* (*fn)(void*), void* arg) {
  Th* t = &g_th[id];
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)(STACKS + STACK_SIZE * id), STACK_SIZE);
  int r = real_pthread_create(&t->pt, &at, fn, arg); if (r) rt_fatal("pthread_create: %d", r);
  t->created = true;
}
static uint64_t g_starts = 0;
extern "C" uint64_t sim_thread_starts(void) { return g_starts; }
// the predicate is evaluated by whichever thread schedules: compare against the waiting thread, not g_cur
static int g_quiescer; static bool pred_quiet(void*) { if (sim_tbb_live_workers_busy()) return false; for (int i = 0; i < g_nth; i++) if (i != g_quiescer && g_th[i].state != 0 && g_th[i].role != 2) return false; return true; }
extern "C" void sim_quiesce(void) { g_quiescer = g_cur->id; rt_wait(pred_quiet, nullptr); }
Th* rt_start(void (*fn)(void*), void* arg, int role) {
  Th* me = g_cur; me->in_rt++; g_starts++;
  int id = -1; for (int i = 0; i < g_nth; i++) if (g_th[i].state == 0 && !g_th[i].reserved) { id = i; break; }
  if (id < 0) {
    if (g_nth >= MAXT) rt_fatal("too many simulated threads");
    id = g_nth; Th* n = &g_th[id]; memset(n, 0, sizeof *n); n->id = id; n->vc.v[id] = 1; n->deadline = NEVER; n->state = 0; n->in_rt = 1; n->prio = 1000 + (int64_t)(g_replay ? 0 : prng_n(1000000)); n->slot = -1;
    g_nth++; make_thread(id, pool_main, n);
  }
  Th* n = &g_th[id];
  g_live_threads = g_nth;
  n->job = fn; n->jarg = arg; n->role = role; n->job_done = false; n->state = 1; n->caller = me->caller;
  VC tmp; memset(&tmp, 0, sizeof tmp); rt_release(&tmp);
  for (int i = 0; i < MAXT; i++) if (tmp.v[i] > n->vc.v[i]) n->vc.v[i] = tmp.v[i];
  memset(&n->donevc, 0, sizeof(VC));
  me->in_rt--;
  return n;
}
static bool pred_done(void* a) { return ((Th*)a)->job_done; }
extern "C" int sim_spawn(void (*fn)(void*), void* arg) { Th* n = rt_start(fn, arg, 3); n->caller = n->id; n->reserved = true; return n->id; }
extern "C" void sim_join(int tid) { Th* t = &g_th[tid]; rt_wait(pred_done, t); rt_acquire(&t->donevc); t->reserved = false; }
extern "C" int sim_self(void) { return g_cur ? g_cur->id : -1; }
extern "C" void sim_pause(void) { if (g_cur) g_cur->paused++; }
extern "C" void sim_resume(void) { if (g_cur) g_cur->paused--; }

// ------------------------------------------------------------------ pthread seam (mutex, condition, once, create) and C++ guards
struct Mx { uintptr_t a; int owner; int cnt; VC vc; uint64_t seq; };
enum { NMX = 4096 };
static Mx* g_mx; static uint32_t g_nmx;
static Mx* mx(const void* p) { uintptr_t a = (uintptr_t)p; uint64_t h = mix64(a); for (uint32_t k = 0;; k++) { Mx* m = &g_mx[(h + k) % NMX]; if (m->a == a) return m; if (!m->a) { if (++g_nmx > NMX / 2) rt_fatal("mutex table full"); m->a = a; m->owner = -1; return m; } } }
static bool pred_free(void* a) { return ((Mx*)a)->owner < 0; }
// plain: relocking by the owner blocks for ever (std::mutex), otherwise the lock is recursive
void rt_mutex_lock(const void* p, bool plain) { RtGuard g; Mx* m = mx(p); if (m->owner == g_cur->id && !plain) { m->cnt++; return; } rt_wait(pred_free, m); m->owner = g_cur->id; m->cnt = 1; rt_acquire(&m->vc); }
bool rt_mutex_trylock(const void* p, bool plain) { RtGuard g; rt_yield(); Mx* m = mx(p); if (m->owner == g_cur->id && !plain) { m->cnt++; return true; } if (m->owner >= 0) { spin_bump(g_cur, 100); return false; } m->owner = g_cur->id; m->cnt = 1; rt_acquire(&m->vc); return true; }
void rt_mutex_unlock(const void* p) { RtGuard g; Mx* m = mx(p); if (m->owner < 0) return; if (--m->cnt) return; memset(&m->vc, 0, sizeof(VC)); rt_release(&m->vc); m->owner = -1; rt_yield(); }
#define REAL(name, ret, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(pthread_mutex_lock, int, pthread_mutex_t*); REAL(pthread_mutex_unlock, int, pthread_mutex_t*); REAL(pthread_mutex_trylock, int, pthread_mutex_t*);
REAL(pthread_cond_wait, int, pthread_cond_t*, pthread_mutex_t*); REAL(pthread_cond_signal, int, pthread_cond_t*); REAL(pthread_cond_broadcast, int, pthread_cond_t*);
REAL(pthread_cond_timedwait, int, pthread_cond_t*, pthread_mutex_t*, const struct timespec*); REAL(pthread_cond_clockwait, int, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
REAL(pthread_join, int, pthread_t, void**); REAL(pthread_once, int, pthread_once_t*, void (*)(void));
REAL(clock_gettime, int, clockid_t, struct timespec*); REAL(sched_yield, int);
struct UserThread { void* (*fn)(void*); void* arg; void* ret; };
static int g_users; extern "C" int sim_user_threads(void) { return g_users; } void rt_user_threads(int d);
static void user_thread_main(void* a) { UserThread* u = (UserThread*)a; u->ret = u->fn(u->arg); RtGuard g; g_users--; rt_user_threads(-1); }
struct CondWait { Mx* c; uint64_t seq; bool woken; };
enum { NCW = 256 }; static CondWait* g_cw[NCW]; static int g_ncw;
static bool pred_woken(void* a) { return ((CondWait*)a)->woken; }
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  CondWait* w = (CondWait*)rt_alloc(sizeof(CondWait)); w->c = mx(c); w->woken = false;
  if (g_ncw >= NCW) rt_fatal("too many cond waiters"); g_cw[g_ncw++] = w;
  rt_mutex_unlock(m); rt_wait_until(pred_woken, w, deadline);
  bool woken = w->woken; for (int i = 0; i < g_ncw; i++) if (g_cw[i] == w) { g_cw[i] = g_cw[--g_ncw]; break; }
  if (woken) rt_acquire(&w->c->vc);
  rt_mutex_lock(m, false); return woken ? 0 : ETIMEDOUT;
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
extern "C" uint64_t sim_now_ns(void) { return g_now + g_steps_total + g_time_extra; }
extern "C" void sim_clock_jump(int64_t ns) { g_clock_off += ns; sim_fault_fired(F_CLOCK, "wall clock jump"); }
extern "C" void sim_clock_advance(uint64_t ns) { g_time_extra += ns; }
static bool plain_mx(const pthread_mutex_t* m) { int k = m->__data.__kind & 3; return k == PTHREAD_MUTEX_NORMAL || k == PTHREAD_MUTEX_ADAPTIVE_NP; }
// reader-writer locks: mx(p) holds the writer, mx(p + 1) counts the readers; readers do not order one another
struct RW { Mx *w, *r; };
static RW* rwl(const void* p) { RW* x = (RW*)rt_alloc(sizeof(RW)); x->w = mx(p); x->r = mx((const char*)p + 1); return x; }
static bool pred_rd(void* a) { return ((RW*)a)->w->owner < 0; }
static bool pred_wr(void* a) { return ((RW*)a)->w->owner < 0 && ((RW*)a)->r->cnt == 0; }
static int rw_lock(const void* p, bool wr, bool wait, uint64_t deadline) {
  RtGuard g; RW* x = rwl(p);
  if (wait) rt_wait_until(wr ? pred_wr : pred_rd, x, deadline); else rt_yield();
  if (!(wr ? pred_wr(x) : pred_rd(x))) { if (!wait) spin_bump(g_cur, 100); return wait ? ETIMEDOUT : EBUSY; }
  rt_acquire(&x->w->vc); if (wr) { rt_acquire(&x->r->vc); x->w->owner = g_cur->id; x->w->cnt = 1; } else x->r->cnt++;
  return 0;
}
static void rw_unlock(const void* p) { RtGuard g; RW* x = rwl(p); if (x->w->owner == g_cur->id) { memset(&x->w->vc, 0, sizeof(VC)); rt_release(&x->w->vc); x->w->owner = -1; x->w->cnt = 0; } else if (x->r->cnt > 0) { rt_release(&x->r->vc); x->r->cnt--; } rt_yield(); }
struct FW { const unsigned* a; unsigned v; };
static bool pred_fut(void* a) { FW* w = (FW*)a; return __atomic_load_n(w->a, __ATOMIC_ACQUIRE) != w->v; }
REAL(pthread_rwlock_rdlock, int, pthread_rwlock_t*); REAL(pthread_rwlock_wrlock, int, pthread_rwlock_t*); REAL(pthread_rwlock_tryrdlock, int, pthread_rwlock_t*); REAL(pthread_rwlock_trywrlock, int, pthread_rwlock_t*); REAL(pthread_rwlock_unlock, int, pthread_rwlock_t*);
#define LAZY(name) (r_##name ? r_##name : (r_##name = (decltype(r_##name))dlsym(RTLD_NEXT, #name)))
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* p) { if (!rt_on()) return LAZY(pthread_rwlock_rdlock)(p); return rw_lock(p, false, true, NEVER); }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) { if (!rt_on()) return LAZY(pthread_rwlock_wrlock)(p); return rw_lock(p, true, true, NEVER); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { if (!rt_on()) return LAZY(pthread_rwlock_tryrdlock)(p); return rw_lock(p, false, false, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { if (!rt_on()) return LAZY(pthread_rwlock_trywrlock)(p); return rw_lock(p, true, false, 0); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* p, const struct timespec* t) { if (!rt_on()) return LAZY(pthread_rwlock_rdlock)(p); return rw_lock(p, false, true, ts_ns(t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* p, const struct timespec* t) { if (!rt_on()) return LAZY(pthread_rwlock_wrlock)(p); return rw_lock(p, true, true, ts_ns(t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* p, clockid_t, const struct timespec* t) { return pthread_rwlock_timedrdlock(p, t); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* p, clockid_t, const struct timespec* t) { return pthread_rwlock_timedwrlock(p, t); }
int pthread_rwlock_unlock(pthread_rwlock_t* p) { if (!rt_on()) return LAZY(pthread_rwlock_unlock)(p); rw_unlock(p); return 0; }
// std::future / std::promise block on this libstdc++ futex
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool to, int64_t s, int64_t ns) {
  if (!rt_on()) { struct timespec t = {1, 0}; syscall(SYS_futex, a, FUTEX_WAIT, v, &t, nullptr, 0); return true; }
  RtGuard g; FW* w = (FW*)rt_alloc(sizeof(FW)); w->a = a; w->v = v; rt_wait_until(pred_fut, w, to ? (uint64_t)s * 1000000000ull + ns : NEVER); return pred_fut(w);
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void* t, unsigned* a, unsigned v, bool to, int64_t s, int64_t ns) { return _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t, a, v, to, s, ns); }
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) { if (!rt_on()) syscall(SYS_futex, a, FUTEX_WAKE, 1000, nullptr, nullptr, 0); else rt_yield(); }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!rt_on()) return r_pthread_mutex_lock ? r_pthread_mutex_lock(m) : 0; rt_mutex_lock(m, plain_mx(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!rt_on()) return r_pthread_mutex_trylock(m); return rt_mutex_trylock(m, plain_mx(m)) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!rt_on()) return r_pthread_mutex_unlock ? r_pthread_mutex_unlock(m) : 0; rt_mutex_unlock(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!rt_on()) return r_pthread_cond_wait(c, m); return cond_wait_impl(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!rt_on()) return r_pthread_cond_timedwait(c, m, ts); return cond_wait_impl(c, m, ts_ns(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!rt_on()) return r_pthread_cond_clockwait(c, m, k, ts); return cond_wait_impl(c, m, ts_ns(ts)); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!rt_on()) return r_pthread_cond_broadcast(c); RtGuard g; Mx* m = mx(c); rt_release(&m->vc); for (int i = 0; i < g_ncw; i++) if (g_cw[i]->c == m) g_cw[i]->woken = true; rt_yield(); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (!rt_on()) return r_pthread_cond_signal(c); RtGuard g; Mx* m = mx(c); rt_release(&m->vc); int idx[NCW], n = 0; for (int i = 0; i < g_ncw; i++) if (g_cw[i]->c == m && !g_cw[i]->woken) idx[n++] = i; if (n) g_cw[idx[n > 1 ? raw_choose(K_NOTIFY, n, -1) : 0]]->woken = true; rt_yield(); return 0; }
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!rt_on()) { if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create"); return real_pthread_create(out, at, fn, arg); }
  UserThread* u = (UserThread*)rt_alloc(sizeof(UserThread)); u->fn = fn; u->arg = arg;
  g_users++; rt_user_threads(1);
  Th* n = rt_start(user_thread_main, u, 4); n->caller = g_cur->caller; n->reserved = true; *out = (pthread_t)(uintptr_t)(0x51D000 + n->id); rt_yield(); return 0;
}
int pthread_join(pthread_t p, void** ret) { if (!rt_on() || ((uintptr_t)p >> 12) != 0x51D) return r_pthread_join(p, ret); Th* t = &g_th[(uintptr_t)p - 0x51D000]; rt_wait(pred_done, t); rt_acquire(&t->donevc); t->reserved = false; if (ret) *ret = nullptr; return 0; }
int pthread_detach(pthread_t p) { if (((uintptr_t)p >> 12) == 0x51D) g_th[(uintptr_t)p - 0x51D000].reserved = false; return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!rt_on()) return r_pthread_once ? r_pthread_once(o, fn) : 0;
  { RtGuard g; Mx* m = mx((char*)o + 1); if (m->seq == 2) { rt_acquire(&m->vc); return 0; } }
  rt_mutex_lock(o, false); Mx* m = mx((char*)o + 1); if (m->seq != 2) { fn(); RtGuard g; m->seq = 2; rt_release(&m->vc); } rt_mutex_unlock(o); return 0;
}
int __cxa_guard_acquire(long long int* g) {
  if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) { if (rt_on()) { RtGuard r; rt_sync_acquire(g); } return 0; }
  if (rt_on()) rt_mutex_lock((char*)g + 4, false);
  if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) { if (rt_on()) { { RtGuard r; rt_sync_acquire(g); } rt_mutex_unlock((char*)g + 4); } return 0; }
  return 1;
}
void __cxa_guard_release(long long int* g) { if (rt_on()) { RtGuard r; rt_sync_release(g); } __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); if (rt_on()) rt_mutex_unlock((char*)g + 4); }
void __cxa_guard_abort(long long int* g) { if (rt_on()) rt_mutex_unlock((char*)g + 4); }
int sched_yield() { if (!rt_on()) return (int)syscall(SYS_sched_yield); rt_yield(); spin_bump(g_cur, 300); return 0; }
static uint64_t wall() { return 1700000000ull * 1000000000ull + (uint64_t)((int64_t)sim_now_ns() + g_clock_off); }
int clock_gettime(clockid_t k, struct timespec* t) { if (!rt_on()) return r_clock_gettime ? r_clock_gettime(k, t) : (int)syscall(SYS_clock_gettime, k, t); uint64_t v = k == CLOCK_REALTIME ? wall() : sim_now_ns(); t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; return 0; }
int gettimeofday(struct timeval* t, void*) { if (!rt_on()) return (int)syscall(SYS_gettimeofday, t, nullptr); uint64_t v = wall(); t->tv_sec = v / 1000000000ull; t->tv_usec = v % 1000000000ull / 1000; return 0; }
time_t time(time_t* o) { time_t v; if (!rt_on()) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); v = t.tv_sec; } else v = wall() / 1000000000ull; if (o) *o = v; return v; }
int64_t _ZNSt6chrono3_V212system_clock3nowEv() { if (!rt_on()) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return (int64_t)ts_ns(&t); } return (int64_t)wall(); }
int64_t _ZNSt6chrono3_V212steady_clock3nowEv() { if (!rt_on()) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (int64_t)ts_ns(&t); } return (int64_t)sim_now_ns(); }
static bool pred_never(void*) { return false; }
int nanosleep(const struct timespec* t, struct timespec*) { if (!rt_on()) return (int)syscall(SYS_nanosleep, t, nullptr); rt_wait_until(pred_never, nullptr, sim_now_ns() + ts_ns(t)); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) { if (!rt_on()) { return (int)syscall(SYS_nanosleep, t, nullptr); } rt_wait_until(pred_never, nullptr, (flags & TIMER_ABSTIME) ? ts_ns(t) : sim_now_ns() + ts_ns(t)); return 0; }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
}

// ------------------------------------------------------------------ child: one run
static const char* g_prop; static int g_done_futex; void rt_omp_env(int, int);
static void on_signal(int sig, siginfo_t* si, void*) {
  g_cur ? (void)(g_cur->in_rt++) : (void)0;
  char b[256]; snprintf(b, sizeof b, "signal %d (%s) at simulated step %llu in thread %d", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "?", (unsigned long long)g_steps_total, g_cur ? g_cur->id : -1);
  snprintf(S->kind, sizeof S->kind, "crash"); snprintf(S->msg, sizeof S->msg, "%s", b); finish(2);
}
static void* main_sim(void* a) {
  Th* t = (Th*)a; park(t);
  t->state = 1; t->in_rt = 0; t->next_evt = next_event(t);
  { int a = (int)sim_draw(4090, 0, 5), b = (int)sim_draw(4090, 0, 4); rt_omp_env(a, b); }
  harness_run(g_prop);
  t->in_rt = 1;
  finish(1);
}
static void pick_strategy() {
  // swarm: one strategy and rate per run, drawn from the seed (never changes the workload draws)
  uint32_t r = prng_n(100);
  static const uint32_t means[] = {60, 300, 1500, 8000, 40000};
  st_mean = means[prng_n(5)]; static const uint32_t sp[] = {10, 50, 150, 400}; st_syncp = sp[prng_n(4)];
  st_mode = r < 25 ? ST_RANDOM : r < 45 ? ST_SYNC : r < 60 ? ST_PCT : r < 75 ? ST_STARVE : r < 82 ? ST_RUN : ST_MIX;
  st_victim = prng_n(6); st_skipped = 0; st_npct = 1 + prng_n(5);
  uint64_t horizon = 1ull << (10 + prng_n(13)); for (int i = 0; i < st_npct; i++) st_pct[i] = 1 + prng() % horizon;
}
static int cmp_dec(const void* a, const void* b) { const Dec *x = *(Dec* const*)a, *y = *(Dec* const*)b; return x->key < y->key ? -1 : x->key > y->key; }
static void child_run(uint64_t seed, bool replay, const ReplayIn* ri) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_seed = seed; g_replay = replay; if (ri) RI = *ri; else memset(&RI, 0, sizeof RI);
  g_prng = mix64(seed ^ 0x5EEDull) ^ 0xabcdef; S->hash = seed; S->maxop = -1;
  memset(RL, 0, sizeof RL);
  if (replay) {
    for (int pass = 0; pass < 2; pass++) for (int t = 0; t < MAXT; t++) {
      uint32_t n = 0; for (uint32_t i = 0; i < RI.ndec; i++) if (RI.dec[i].tid == t && RI.dec[i].type == (pass ? 'C' : 'P')) n++;
      Dec** l = (Dec**)rt_alloc(sizeof(Dec*) * (n + 1)); uint32_t k = 0; for (uint32_t i = 0; i < RI.ndec; i++) if (RI.dec[i].tid == t && RI.dec[i].type == (pass ? 'C' : 'P')) l[k++] = &RI.dec[i];
      qsort(l, n, sizeof *l, cmp_dec);
      if (pass) { RL[t].c = l; RL[t].nc = n; } else { RL[t].p = l; RL[t].np = n; }
    }
    st_mode = ST_RUN;
  } else pick_strategy();
  static const unsigned char junk[] = {0xCB, 0x7F, 0xFF, 0x3F, 0x00, 0x41};
  hp_junk = junk[mix64(seed + 99) % 6];
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}; for (int s : sg) sigaction(s, &sa, nullptr);
  memset(&g_th[0], 0, sizeof(Th)); g_nth = 1; g_live_threads = 1; Th* t = &g_th[0]; t->id = 0; t->vc.v[0] = 1; t->in_rt = 1; t->deadline = NEVER; t->prio = 1000 + prng_n(1000000); t->slot = -1;
  make_thread(0, main_sim, t);
  g_active = true; g_cur = t; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex_wake(&t->go);
  for (;;) pause();
}
// ------------------------------------------------------------------ parent: driver
static void reset_shared() { memset(S, 0, offsetof(Shared, dec)); }
static int g_devnull;
static int run_once(uint64_t seed, bool replay, const ReplayIn* ri, double timeout_s) {
  reset_shared();
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    // bounded by processor time, not wall time, so that a loaded machine cannot turn a slow run into a "hang"
    struct rlimit rl = {(rlim_t)timeout_s + 1, (rlim_t)timeout_s + 2}; setrlimit(RLIMIT_CPU, &rl); signal(SIGXCPU, SIG_DFL);
    if (!g_verbose) { dup2(g_devnull, 1); dup2(g_devnull, 2); } child_run(seed, replay, ri); _exit(9);
  }
  int st;
  struct timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0); bool stuck = false;
  while (waitpid(p, &st, 0) != p) {
    if (errno != EINTR) { perror("waitpid"); exit(3); }
    struct timespec t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > 240 && !stuck) { stuck = true; kill(p, SIGKILL); }
  }
  if (stuck) { snprintf(S->kind, sizeof S->kind, "simulator-error"); snprintf(S->msg, sizeof S->msg, "the run blocked outside the simulator (240 s of wall time)"); S->status = 4; return 4; }
  if (S->status == 0) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { snprintf(S->kind, sizeof S->kind, "hang"); snprintf(S->msg, sizeof S->msg, "the run used %.0f s of processor time without finishing", timeout_s); S->status = WTERMSIG(st) == SIGXCPU ? 2 : 4; }
    else if (WIFSIGNALED(st)) { snprintf(S->kind, sizeof S->kind, "crash"); snprintf(S->msg, sizeof S->msg, "process killed by signal %d", WTERMSIG(st)); S->status = 2; }
    else { snprintf(S->kind, sizeof S->kind, "crash"); snprintf(S->msg, sizeof S->msg, "process exited with code %d in mid-run", WEXITSTATUS(st)); S->status = 2; }
    S->hash = 0xdead;
  }
  if (S->status == 2 && S->ctx[0]) { size_t l = strlen(S->kind); if (l > 20) l = 20; snprintf(S->kind + l, sizeof S->kind - l, "+%s", S->ctx); }
  return S->status;
}
static void alarm_handler(int) {}
static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void print_result(FILE* f, uint64_t seed) {
  fprintf(f, "{\"seed\":%llu,\"status\":%d,\"kind\":", (unsigned long long)seed, S->status); jstr(f, S->kind); fprintf(f, ",\"msg\":"); jstr(f, S->msg);
  fprintf(f, ",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"ndec\":%u,\"ndraw\":%u,\"maxop\":%d,\"threads\":%u,\"pcs\":[%u,%u],\"sample\":", (unsigned long long)S->hash, (unsigned long long)S->steps, (unsigned long long)S->switches, S->ndec, S->ndraw, S->maxop, S->maxthreads, S->pcs[0], S->pcs[1]); jstr(f, S->sample); fprintf(f, "}\n");
}
struct RepBuf { Dec* dec; uint32_t ndec; Draw* draw; uint32_t ndraw; int* skip; uint32_t nskip; };
static RepBuf new_buf() { RepBuf b; memset(&b, 0, sizeof b); b.dec = (Dec*)__libc_malloc(sizeof(Dec) * MAXDEC); b.draw = (Draw*)__libc_malloc(sizeof(Draw) * MAXDRAW); b.skip = (int*)__libc_malloc(sizeof(int) * 65536); return b; }
static int run_buf(uint64_t seed, const RepBuf& b, double to) { ReplayIn ri = {b.dec, b.ndec, b.draw, b.ndraw, b.skip, b.nskip}; return run_once(seed, true, &ri, to); }
static void copy_buf(RepBuf& d, const RepBuf& s) { memcpy(d.dec, s.dec, sizeof(Dec) * s.ndec); d.ndec = s.ndec; memcpy(d.draw, s.draw, sizeof(Draw) * s.ndraw); d.ndraw = s.ndraw; memcpy(d.skip, s.skip, sizeof(int) * s.nskip); d.nskip = s.nskip; }
static char g_want[64];
static bool same_class() { return S->status == 2 && !strcmp(S->kind, g_want); }
static double mini_deadline; static int mini_trials;
static bool trial(uint64_t seed, const RepBuf& b) { mini_trials++; run_buf(seed, b, 20); return same_class(); }
static bool write_replay(const char* path, uint64_t seed, const RepBuf& b) {
  FILE* f = fopen(path, "w"); if (!f) return false;
  fprintf(f, "property %s\nseed %llu\nkind %s\nhash %016llx\nmsg %s\n", g_prop, (unsigned long long)seed, S->kind, (unsigned long long)S->hash, S->msg);
  if (S->sample[0]) fprintf(f, "# workload: %s\n", S->sample);
  for (uint32_t i = 0; i < b.nskip; i++) fprintf(f, "S %d\n", b.skip[i]);
  for (uint32_t i = 0; i < b.ndraw; i++) fprintf(f, "D %d %u %llu\n", b.draw[i].group, b.draw[i].idx, (unsigned long long)b.draw[i].val);
  for (uint32_t i = 0; i < b.ndec; i++) fprintf(f, "%c %u %llu %u %u\n", b.dec[i].type, b.dec[i].tid, (unsigned long long)b.dec[i].key, b.dec[i].val, b.dec[i].kind);
  fclose(f); return true;
}
static bool read_replay(const char* path, uint64_t* seed, char* kind, uint64_t* hash, RepBuf& b) {
  FILE* f = fopen(path, "r"); if (!f) return false; char line[2048]; kind[0] = 0;
  while (fgets(line, sizeof line, f)) {
    unsigned long long a, c; unsigned x, y, z; int g; char ch;
    if (sscanf(line, "seed %llu", &a) == 1) *seed = a;
    else if (!strncmp(line, "kind ", 5)) { sscanf(line + 5, "%63s", kind); }
    else if (sscanf(line, "hash %llx", &a) == 1) *hash = a;
    else if (line[0] == 'S' && sscanf(line, "S %d", &g) == 1) b.skip[b.nskip++] = g;
    else if (line[0] == 'D' && sscanf(line, "D %d %u %llu", &g, &x, &c) == 3) b.draw[b.ndraw++] = Draw{g, x, 0, 0, c};
    else if ((line[0] == 'P' || line[0] == 'C') && sscanf(line, "%c %u %llu %u %u", &ch, &x, &a, &y, &z) == 5) b.dec[b.ndec++] = Dec{(uint8_t)ch, (uint8_t)z, (uint16_t)x, y, a};
  }
  fclose(f); return true;
}
static void ddmin_dec(uint64_t seed, RepBuf& cur, RepBuf& tmp) {
  // try removing chunks of scheduling decisions
  { copy_buf(tmp, cur); tmp.ndec = 0; if (cur.ndec && trial(seed, tmp)) { copy_buf(cur, tmp); return; } }
  uint32_t chunk = cur.ndec / 2 ? cur.ndec / 2 : 1;
  while (cur.ndec && now_s() < mini_deadline) {
    bool any = false;
    for (uint32_t s = 0; s < cur.ndec && now_s() < mini_deadline;) {
      copy_buf(tmp, cur); uint32_t e = s + chunk < cur.ndec ? s + chunk : cur.ndec; memmove(tmp.dec + s, tmp.dec + e, sizeof(Dec) * (cur.ndec - e)); tmp.ndec = cur.ndec - (e - s);
      if (trial(seed, tmp)) { copy_buf(cur, tmp); any = true; } else s = e;
    }
    if (chunk == 1 && !any) break; if (chunk > 1) chunk /= 2; else if (!any) break;
  }
}
static int cmd_minimise(uint64_t seed, const char* out, double budget) {
  int st = run_once(seed, false, nullptr, 60); if (st != 2) { print_result(stdout, seed); return 4; }
  uint64_t h1 = S->hash; strcpy(g_want, S->kind);
  RepBuf cur = new_buf(), tmp = new_buf(); memcpy(cur.dec, S->dec, sizeof(Dec) * S->ndec); cur.ndec = S->ndec; int maxop = S->maxop;
  uint32_t nd0 = cur.ndec;
  st = run_once(seed, false, nullptr, 60); if (st != 2 || S->hash != h1 || strcmp(S->kind, g_want)) { printf("{\"error\":\"same seed did not reproduce\"}\n"); return 4; }
  // the recorded decisions alone must reproduce the execution exactly
  if (!trial(seed, cur) || S->hash != h1) { printf("{\"error\":\"recorded decisions did not reproduce the run: kind %s status %d\"}\n", S->kind, S->status); return 4; }
  mini_deadline = now_s() + budget;
  for (int round = 0; round < 2 && now_s() < mini_deadline; round++) {
    ddmin_dec(seed, cur, tmp);
    for (int op = maxop; op >= 0 && now_s() < mini_deadline; op--) { bool have = false; for (uint32_t i = 0; i < cur.nskip; i++) have |= cur.skip[i] == op; if (have) continue; copy_buf(tmp, cur); tmp.skip[tmp.nskip++] = op; if (trial(seed, tmp)) copy_buf(cur, tmp); }
    // shrink draws
    trial(seed, cur); uint32_t nd = S->ndraw < 400 ? S->ndraw : 400; Draw* ds = (Draw*)__libc_malloc(sizeof(Draw) * (nd + 1)); memcpy(ds, S->draw, sizeof(Draw) * nd);
    for (uint32_t i = 0; i < nd && now_s() < mini_deadline; i++) {
      Draw d = ds[i]; uint64_t hiv = d.val, lo = d.lo; uint64_t cand = lo; int guard = 0;
      while (hiv > lo && guard++ < 6 && now_s() < mini_deadline) {
        copy_buf(tmp, cur); uint32_t k = 0; for (; k < tmp.ndraw; k++) if (tmp.draw[k].group == d.group && tmp.draw[k].idx == d.idx) break;
        tmp.draw[k] = d; tmp.draw[k].val = cand; if (k == tmp.ndraw) tmp.ndraw++;
        if (trial(seed, tmp)) { copy_buf(cur, tmp); hiv = cand; if (cand == lo) break; cand = lo + (hiv - lo) / 2; if (cand == hiv) break; }
        else { uint64_t nx = cand + (hiv - cand) / 2; if (nx == cand) break; cand = nx; }
      }
    }
    __libc_free(ds);
  }
  if (!trial(seed, cur)) { printf("{\"error\":\"minimised trace lost the violation\"}\n"); return 4; }
  if (!write_replay(out, seed, cur)) { perror(out); return 3; }
  printf("{\"minimised\":true,\"trials\":%d,\"decisions_before\":%u,\"decisions_after\":%u,\"result\":", mini_trials, nd0, cur.ndec); print_result(stdout, seed); printf("}\n");
  return 0;
}
static int cmp_u64(const void* a, const void* b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return x < y ? -1 : x > y; }
int main(int argc, char** argv) {
  // deterministic addresses: no ASLR
  if (!getenv("SIM_CHILD")) { setenv("SIM_CHILD", "1", 1); setenv("PYTHONHASHSEED", "0", 1); int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE)) personality(pers | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  const char* prop = nullptr; uint64_t start = 1, stride = 1, seed = 0, count = NEVER; double budget = 10, tlimit = 20, mbudget = 25; const char *mode = "one", *path = nullptr, *hashfile = nullptr; int core = -1, maxviol = 3, repeat = 1;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--prop")) prop = argv[++i]; else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10); else if (!strcmp(argv[i], "--batch")) mode = "batch";
    else if (!strcmp(argv[i], "--start")) start = strtoull(argv[++i], 0, 10); else if (!strcmp(argv[i], "--stride")) stride = strtoull(argv[++i], 0, 10); else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--time")) budget = atof(argv[++i]); else if (!strcmp(argv[i], "--core")) core = atoi(argv[++i]); else if (!strcmp(argv[i], "--replay")) { mode = "replay"; path = argv[++i]; }
    else if (!strcmp(argv[i], "--minimise")) { mode = "mini"; path = argv[++i]; } else if (!strcmp(argv[i], "--mtime")) mbudget = atof(argv[++i]); else if (!strcmp(argv[i], "-v")) g_verbose = true; else if (!strcmp(argv[i], "--hashes")) hashfile = argv[++i]; else if (!strcmp(argv[i], "--maxviol")) maxviol = atoi(argv[++i]); else if (!strcmp(argv[i], "--repeat")) repeat = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--runlimit")) tlimit = atof(argv[++i]);
    else { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; }
  }
  if (!prop) prop = harness_props[0]; g_prop = prop;
  if (core >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(core, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  else { cpu_set_t cs; if (!sched_getaffinity(0, sizeof cs, &cs)) { for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs)) { CPU_ZERO(&cs); CPU_SET(i, &cs); break; } sched_setaffinity(0, sizeof cs, &cs); } }
  real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
#define RS(n) r_##n = (decltype(r_##n))dlsym(RTLD_NEXT, #n)
  RS(pthread_mutex_lock); RS(pthread_mutex_unlock); RS(pthread_mutex_trylock); RS(pthread_cond_wait); RS(pthread_cond_signal); RS(pthread_cond_broadcast); RS(pthread_cond_timedwait); RS(pthread_cond_clockwait); RS(pthread_join); RS(pthread_once); RS(clock_gettime);
  auto map = [](uintptr_t a, size_t n, int fl) { void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE | fl, -1, 0); if (p != (void*)a) { perror("mmap"); _exit(3); } return p; };
  map(ARENA, ARENA_SIZE, MAP_PRIVATE); map(SHADOW, ARENA_SIZE * 4, MAP_PRIVATE); map(SHADOWPC, ARENA_SIZE * 2, MAP_PRIVATE); map(AMEM, HEAP_SIZE / 8 + 4096, MAP_PRIVATE); map(RTMEM, RTMEM_SIZE, MAP_PRIVATE);
  d_lo = (uintptr_t)&__data_start & ~7ull; d_size = (uintptr_t)&_end - d_lo; map(DSHADOW, (d_size + 4096) * 4 & ~4095ull, MAP_PRIVATE); map(DSHADOWPC, (d_size + 8192) * 2 & ~4095ull, MAP_PRIVATE);
  S = (Shared*)map(0x3d0000000000ull, (sizeof(Shared) + 4095) & ~4095ull, MAP_SHARED);
  g_sync = (SyncEnt*)rt_alloc(sizeof(SyncEnt) * SYNCN, 64); g_mx = (Mx*)rt_alloc(sizeof(Mx) * NMX, 64);
  g_devnull = open("/dev/null", O_WRONLY);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = alarm_handler; sigaction(SIGALRM, &sa, nullptr);
  struct itimerval itv = {{0, 500000}, {0, 500000}}; setitimer(ITIMER_REAL, &itv, nullptr);
  harness_init(prop);
  if (!strcmp(mode, "one")) {
    int rc = 0; uint64_t h = 0;
    for (int k = 0; k < repeat; k++) { rc = run_once(seed, false, nullptr, 120); print_result(stdout, seed); if (k && S->hash != h) { printf("NONDETERMINISTIC\n"); return 4; } h = S->hash; }
    for (int i = 0; i < NCNT; i++) { if (S->faults[i].n) printf("fault %s: %llu\n", S->faults[i].name, (unsigned long long)S->faults[i].n); if (S->probes[i].n) printf("probe %s: %llu\n", S->probes[i].name, (unsigned long long)S->probes[i].n); }
    return rc == 1 || rc == 3 ? 0 : rc == 2 ? 1 : 3;
  }
  if (!strcmp(mode, "mini")) return cmd_minimise(seed, path, mbudget);
  if (!strcmp(mode, "replay")) {
    RepBuf b = new_buf(); uint64_t s = 0, h = 0; char kind[64]; if (!read_replay(path, &s, kind, &h, b)) { perror(path); return 3; }
    run_buf(s, b, 120); print_result(stdout, s);
    bool ok = S->status == 2 && !strcmp(S->kind, kind); bool hash_ok = S->hash == h;
    printf("%s\n", ok ? (hash_ok ? "REPRODUCED exactly" : "REPRODUCED same violation, different trace hash") : "NOT-REPRODUCED"); return ok ? (hash_ok ? 1 : 5) : 0;
  }
  // batch
  double t0 = now_s(); uint64_t runs = 0, ok = 0, disc = 0, viol = 0, steps = 0, sw = 0, simt = 0, nontriv = 0, pre = 0, fatal = 0, threads = 0;
  Counter fl[NCNT], pr[NCNT]; uint64_t flr[NCNT], prr[NCNT]; memset(fl, 0, sizeof fl); memset(pr, 0, sizeof pr); memset(flr, 0, sizeof flr); memset(prr, 0, sizeof prr);
  uint64_t cap = 1 << 20; uint64_t* hs = (uint64_t*)__libc_malloc(8 * cap * 2); uint64_t nh = 0;
  FILE* vf = stdout; char fatalmsg[512] = "";
  char samples[5][600]; int ns = 0;
  for (uint64_t i = 0; i < count && now_s() - t0 < budget; i++) {
    uint64_t s = start + i * stride; int st = run_once(s, false, nullptr, tlimit); runs++;
    steps += S->steps; sw += S->switches; simt += S->simtime; pre += S->preempts; threads += S->maxthreads;
    for (int k = 0; k < NCNT; k++) { if (S->faults[k].n) { memcpy(fl[k].name, S->faults[k].name, 40); fl[k].n += S->faults[k].n; flr[k]++; } if (S->probes[k].n) { memcpy(pr[k].name, S->probes[k].name, 40); pr[k].n += S->probes[k].n; prr[k]++; } }
    if (st == 1) { ok++; if (S->nontrivial) { nontriv++; if (nh < cap) { hs[2 * nh] = S->hash; hs[2 * nh + 1] = S->sched_hash; nh++; } if (ns < 4 && S->sample[0] && (runs % 7) == 1) { snprintf(samples[ns], 600, "seed %llu: %s [threads %u, steps %llu, switches %llu]", (unsigned long long)s, S->sample, S->maxthreads, (unsigned long long)S->steps, (unsigned long long)S->switches); ns++; } } }
    else if (st == 3) disc++;
    else if (st == 2) { viol++; fprintf(vf, "VIOL "); print_result(vf, s); fflush(vf); if (viol >= (uint64_t)maxviol) break; }
    else { fatal++; snprintf(fatalmsg, sizeof fatalmsg, "seed %llu: %s", (unsigned long long)s, S->msg); break; }
  }
  if (hashfile) { FILE* f = fopen(hashfile, "w"); if (f) { fwrite(hs, 16, nh, f); fclose(f); } }
  printf("SUM {\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"violations\":%llu,\"fatal\":%llu,\"fatalmsg\":", (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)disc, (unsigned long long)viol, (unsigned long long)fatal); jstr(stdout, fatalmsg);
  printf(",\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"simtime_ns\":%llu,\"threads\":%llu,\"nontrivial\":%llu,\"wall\":%.3f,\"faults\":{", (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)simt, (unsigned long long)threads, (unsigned long long)nontriv, now_s() - t0);
  int c = 0; for (int k = 0; k < NCNT; k++) if (fl[k].n) { if (c++) printf(","); jstr(stdout, fl[k].name); printf(":[%llu,%llu]", (unsigned long long)fl[k].n, (unsigned long long)flr[k]); }
  printf("},\"probes\":{"); c = 0; for (int k = 0; k < NCNT; k++) if (pr[k].n) { if (c++) printf(","); jstr(stdout, pr[k].name); printf(":[%llu,%llu]", (unsigned long long)pr[k].n, (unsigned long long)prr[k]); }
  printf("},\"samples\":["); for (int k = 0; k < ns; k++) { if (k) printf(","); jstr(stdout, samples[k]); } printf("]}\n");
  return 0;
}
