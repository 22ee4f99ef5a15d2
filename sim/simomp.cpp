// OpenMP seam: the libgomp ABI implemented on the simulated scheduler.
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
enum { F_TEAM = 0, F_TASKDEFER = 5 };
int rt_choose_strategy(int kind, int n);
void rt_mutex_lock(const void*, bool plain); bool rt_mutex_trylock(const void*, bool plain); void rt_mutex_unlock(const void*);

struct TaskGroup { TaskGroup* outer; int pending; VC vc; };
struct OTask {
  void (*fn)(void*); void* arg; OTask* parent; Team* team; int state; int nchild; VC start, childvc; OTask* qnext; OTask* qprev; TaskGroup* group; bool queued;
};
struct WS { WS* next; int inited; long pos, end, incr, chunk; int kind; int nleft; VC vc; bool single_taken; void* copy; bool copy_set; long* tpos; unsigned long long upos, uend, uincr, uchunk; bool up; int left; long s0, ordnext, *ob, *oe, *fb, *fe; int nf; VC ordvc; };  // ob..oe: chunk a thread is on (iteration numbers), fb..fe: chunks finished ahead of ordnext
struct Team {
  int n; void (*fn)(void*); void* data; int arrived; uint64_t gen; VC barvc, relvc; OTask *qh, *qt; int nqueued, npending; WS** ws; uint64_t nws; uint64_t capws; Th* master; Team* parent; int requested; WS* first;
};
static int icv_nthreads = 4; static int delivered_cap = 0; static int active_req = 1, peak_req = 1, active_teams = 0; static int icv_dynamic = 0, icv_levels = 1;
static int vary_delivery = 0, icv_procs = 8;
extern "C" void sim_set_max_workers(int n) { delivered_cap = n; vary_delivery = n > 0; }
// environment of the run: OMP_NUM_THREADS and number of processors
void rt_omp_env(int a, int b) { static const int nt[] = {4, 4, 1, 2, 3, 8}; static const int np[] = {8, 8, 4, 1, 2}; icv_nthreads = nt[a]; icv_procs = np[b]; }
extern "C" int sim_omp_active_teams(void) { return active_teams; }
extern "C" int sim_omp_peak_request(void) { return peak_req; }
void rt_user_threads(int d) { active_req += d; if (active_req > peak_req) peak_req = active_req; }
extern "C" void sim_omp_reset_peak(void) { peak_req = active_req; }

static OTask* new_task() { return (OTask*)rt_alloc(sizeof(OTask)); }
static OTask* cur_task() { if (!g_cur->task) g_cur->task = new_task(); return g_cur->task; }
static void q_push(Team* t, OTask* k) { k->qnext = nullptr; k->qprev = t->qt; if (t->qt) t->qt->qnext = k; else t->qh = k; t->qt = k; k->queued = true; t->nqueued++; }
static void q_remove(Team* t, OTask* k) { if (k->qprev) k->qprev->qnext = k->qnext; else t->qh = k->qnext; if (k->qnext) k->qnext->qprev = k->qprev; else t->qt = k->qprev; k->queued = false; t->nqueued--; }
static void run_task(OTask* k) {
  // in_rt > 0 on entry; the body runs with in_rt == 0
  Th* t = g_cur; OTask* save = t->task; uint32_t rt = t->in_rt;
  t->task = k; k->state = 1; rt_acquire(&k->start);
  t->in_rt = 0; k->fn(k->arg); t->in_rt = rt;
  t->task = save; k->state = 2;
  Team* tm = k->team;
  if (tm) { tm->npending--; rt_release(&tm->barvc); }
  k->parent->nchild--; rt_release(&k->parent->childvc);
  for (TaskGroup* g = k->group; g; g = g->outer) { g->pending--; rt_release(&g->vc); }
}
static bool runnable_child(Team* tm, OTask* par) { for (OTask* k = tm->qh; k; k = k->qnext) if (k->parent == par) return true; return false; }
static bool runnable_group(Team* tm, TaskGroup* g) { for (OTask* k = tm->qh; k; k = k->qnext) for (TaskGroup* x = k->group; x; x = x->outer) if (x == g) return true; return false; }
static OTask* pick_queued(Team* tm, OTask* par, TaskGroup* g) {
  OTask* c[64]; int n = 0;
  for (OTask* k = tm->qh; k && n < 64; k = k->qnext) {
    if (par && k->parent != par) continue;
    if (g) { bool in = false; for (TaskGroup* x = k->group; x; x = x->outer) in |= x == g; if (!in) continue; }
    c[n++] = k;
  }
  if (!n) return nullptr;
  OTask* k = c[n > 1 ? rt_choose_strategy(K_TASKPICK, n) : 0]; q_remove(tm, k); return k;
}
struct BarArg { Team* t; uint64_t gen; };
static bool pred_bar(void* a) { BarArg* b = (BarArg*)a; Team* t = b->t; return t->gen != b->gen || t->nqueued > 0 || (t->arrived == t->n && t->npending == 0); }
static void team_barrier(Team* t) {
  Th* me = g_cur; me->in_rt++;
  rt_yield(); rt_release(&t->barvc); uint64_t gen = t->gen; t->arrived++;
  while (t->gen == gen) {
    if (t->nqueued > 0) { OTask* k = pick_queued(t, nullptr, nullptr); if (k) { run_task(k); continue; } }
    if (t->arrived == t->n && t->npending == 0) { t->relvc = t->barvc; memset(&t->barvc, 0, sizeof(VC)); t->arrived = 0; t->gen++; break; }
    BarArg b = {t, gen}; rt_wait(pred_bar, &b);
  }
  rt_acquire(&t->relvc); me->in_rt--;
}
struct Start { Team* t; int num; };
static void omp_worker(void* a) {
  Start* s = (Start*)a; Th* me = g_cur; me->in_rt++;
  me->team = s->t; me->num = s->num; me->task = new_task(); me->ws = s->t->first; me->ws_idx = s->t->first ? 1 : 0;
  Team* t = s->t; me->in_rt--;
  t->fn(t->data);
  team_barrier(t);
  me->in_rt++; me->team = nullptr; me->task = nullptr; me->ws = nullptr; me->in_rt--;
}
static WS* new_ws() { return (WS*)rt_alloc(sizeof(WS)); }
static void add_ws(Team* t, WS* w) { if (t->nws == t->capws) { uint64_t c = t->capws ? t->capws * 2 : 8; WS** n = (WS**)rt_alloc(sizeof(WS*) * c); if (t->nws) memcpy(n, t->ws, sizeof(WS*) * t->nws); t->ws = n; t->capws = c; } t->ws[t->nws++] = w; }
static Team* team_start(void (*fn)(void*), void* data, unsigned req, WS* first, Start** starts, Th** ths) {
  Th* me = g_cur;
  int n = req ? (int)req : icv_nthreads; if (n < 1) n = 1;
  int requested = n;
  bool nested = me->team && me->team->n > 1;
  if (nested) n = 1;
  else { active_req += requested - 1; if (active_req > peak_req) peak_req = active_req; }
  if (delivered_cap > 0 && n > delivered_cap) { n = delivered_cap; sim_fault_fired(F_TEAM, "fewer threads delivered"); }
  if (n > 1 && vary_delivery) { int less = sim_choose_p(K_TEAM, n, 150); if (less) { n -= less; sim_fault_fired(F_TEAM, "fewer threads delivered"); } }
  if (n > 24) n = 24;
  Team* t = (Team*)rt_alloc(sizeof(Team)); t->n = n; t->fn = fn; t->data = data; t->master = me; t->parent = me->team; t->requested = nested ? 1 : requested;
  t->first = first; if (first) add_ws(t, first);
  active_teams++;
  for (int i = 1; i < n; i++) { Start* s = (Start*)rt_alloc(sizeof(Start)); s->t = t; s->num = i; rt_start(omp_worker, s, 1); }
  rt_yield();
  return t;
}
static void parallel_impl(void (*fn)(void*), void* data, unsigned req, WS* first) {
  Th* me = g_cur; me->in_rt++;
  Team* t = team_start(fn, data, req, first, nullptr, nullptr);
  Team* ot = me->team; int on = me->num; OTask* otask = me->task; uint64_t oi = me->ws_idx; WS* ow = me->ws;
  me->team = t; me->num = 0; me->task = new_task(); me->ws_idx = first ? 1 : 0; me->ws = first;
  me->in_rt--;
  fn(data);
  team_barrier(t);
  me->in_rt++;
  me->team = ot; me->num = on; me->task = otask; me->ws_idx = oi; me->ws = ow; active_teams--;
  if (!(ot && ot->n > 1)) active_req -= t->requested - 1;
  me->in_rt--;
}
// run without the simulator (start-up code): plain sequential semantics
#define OFF (!g_active || !g_cur)
static WS* off_ws;
static WS* enter_ws(bool* fresh) {
  Th* me = g_cur; Team* t = me->team;
  if (!t) { WS* w = new_ws(); me->ws = w; *fresh = true; return w; }
  uint64_t i = me->ws_idx++; if (i < t->nws) { me->ws = t->ws[i]; *fresh = false; } else { WS* w = new_ws(); add_ws(t, w); me->ws = w; *fresh = true; }
  return me->ws;
}
enum { L_STATIC, L_DYNAMIC, L_GUIDED };
static void ws_init(WS* w, int kind, long s, long e, long inc, long ch) { w->kind = kind; w->pos = w->s0 = s; w->end = e; w->incr = inc; w->chunk = ch > 0 ? ch : 1; w->inited = 1; if (kind == L_STATIC) { w->tpos = (long*)rt_alloc(sizeof(long) * (MAXT + 1)); w->chunk = ch; } }
static long niters(long s, long e, long inc) { if (inc > 0) return s < e ? (e - s + inc - 1) / inc : 0; return s > e ? (s - e - inc - 1) / (-inc) : 0; }
// "ordered": a thread may enter the ordered region of a chunk once every earlier iteration is finished
static void ord_begin(WS* w, int num, long is, long ie) {
  if (!w->ob) { w->ob = (long*)rt_alloc(sizeof(long) * MAXT); w->oe = (long*)rt_alloc(sizeof(long) * MAXT); for (int i = 0; i < MAXT; i++) w->ob[i] = w->oe[i] = -1; }
  w->ob[num] = niters(w->s0, is, w->incr); w->oe[num] = niters(w->s0, ie, w->incr);
}
static void ord_finish(WS* w, int num) {
  if (!w->ob || w->ob[num] < 0) return; long b = w->ob[num], e = w->oe[num]; w->ob[num] = -1;
  rt_release(&w->ordvc);
  if (!w->fb) { w->fb = (long*)rt_alloc(sizeof(long) * MAXT); w->fe = (long*)rt_alloc(sizeof(long) * MAXT); }
  if (w->nf >= MAXT) return; w->fb[w->nf] = b; w->fe[w->nf++] = e;  // (a loop without ordered regions may run far ahead; the list then just fills up)
  for (bool more = true; more;) { more = false; for (int i = 0; i < w->nf; i++) if (w->fb[i] == w->ordnext) { w->ordnext = w->fe[i]; w->nf--; w->fb[i] = w->fb[w->nf]; w->fe[i] = w->fe[w->nf]; more = true; break; } }
}
struct OW { WS* w; int num; }; static bool pred_ord(void* a) { OW* o = (OW*)a; return !o->w->ob || o->w->ob[o->num] < 0 || o->w->ob[o->num] <= o->w->ordnext; }
static bool ws_next(long* is, long* ie) {
  Th* me = g_cur; me->in_rt++; rt_yield();
  WS* w = me->ws; ord_finish(w, me->num); int nt = me->team ? me->team->n : 1; int num = me->num; bool r = false;
  if (w->kind == L_STATIC) {
    long total = niters(w->pos, w->end, w->incr); long k = w->tpos[num]++; long b, e;
    if (w->chunk <= 0) { long q = total / nt, rem = total % nt; long my = q + (num < rem); b = q * num + (num < rem ? num : rem); e = b + my; r = k == 0 && my > 0; }
    else { b = (k * nt + num) * w->chunk; e = b + w->chunk < total ? b + w->chunk : total; r = b < total; }
    if (r) { *is = w->pos + b * w->incr; *ie = w->pos + e * w->incr; if (e == total) *ie = w->end; }
  } else {
    long left = niters(w->pos, w->end, w->incr);
    if (left > 0) {
      long n = w->chunk;
      if (w->kind == L_GUIDED) { long g = (left + nt - 1) / nt; if (g > n) { long opt[4] = {g, n, (g + n) / 2, n + 1}; n = opt[rt_choose_strategy(K_CHUNK, 4)]; } }
      if (n > left) n = left;
      *is = w->pos; *ie = n == left ? w->end : w->pos + n * w->incr; w->pos += n * w->incr; if (n == left) w->pos = w->end; r = true;
    }
  }
  if (r) ord_begin(w, me->num, *is, *ie);
  me->in_rt--; return r;
}
static bool loop_start(int kind, long s, long e, long inc, long ch, long* is, long* ie) {
  { RtGuard g; rt_yield(); bool fresh; WS* w = enter_ws(&fresh); if (fresh) ws_init(w, kind, s, e, inc, ch); }
  return ws_next(is, ie);
}
static void off_parallel(void (*fn)(void*), void* d) { fn(d); }
extern "C" {
// regions entered from code that runs uninstrumented (an embedded interpreter) can be simulated on their own
static int unpause_regions; void sim_omp_unpause(int on) { unpause_regions = on; }
struct Unpause { uint32_t saved; Unpause() { saved = g_cur ? g_cur->paused : 0; if (g_cur && unpause_regions) g_cur->paused = 0; } ~Unpause() { if (g_cur) g_cur->paused = saved; } };
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { if (OFF) { fn(data); return; } Unpause u; parallel_impl(fn, data, n, nullptr); }
static void ploop(int kind, void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, long ch) { Unpause u; WS* w; { RtGuard g; w = new_ws(); ws_init(w, kind, s, e, inc, ch); } parallel_impl(fn, data, n, w); }
#define PL(NAME, K) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { ploop(K, fn, d, n, s, e, inc, ch); }
PL(static, L_STATIC) PL(dynamic, L_DYNAMIC) PL(guided, L_GUIDED) PL(nonmonotonic_dynamic, L_DYNAMIC) PL(nonmonotonic_guided, L_GUIDED)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { ploop(L_DYNAMIC, fn, d, n, s, e, inc, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { ploop(L_DYNAMIC, fn, d, n, s, e, inc, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { ploop(L_DYNAMIC, fn, d, n, s, e, inc, 1); }
#define LP(NAME, K) bool GOMP_loop_##NAME##_start(long s, long e, long inc, long ch, long* is, long* ie) { return loop_start(K, s, e, inc, ch, is, ie); } bool GOMP_loop_##NAME##_next(long* is, long* ie) { return ws_next(is, ie); }
LP(static, L_STATIC) LP(dynamic, L_DYNAMIC) LP(guided, L_GUIDED) LP(nonmonotonic_dynamic, L_DYNAMIC) LP(nonmonotonic_guided, L_GUIDED) LP(ordered_static, L_STATIC) LP(ordered_dynamic, L_DYNAMIC) LP(ordered_guided, L_GUIDED)
bool GOMP_loop_runtime_start(long s, long e, long inc, long* is, long* ie) { return loop_start(L_DYNAMIC, s, e, inc, 1, is, ie); } bool GOMP_loop_runtime_next(long* a, long* b) { return ws_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long inc, long* is, long* ie) { return loop_start(L_DYNAMIC, s, e, inc, 1, is, ie); } bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return ws_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long inc, long* is, long* ie) { return loop_start(L_DYNAMIC, s, e, inc, 1, is, ie); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return ws_next(a, b); }
// unsigned long long loops: mapped onto the signed ones (iteration spaces used here fit)
#define UL(NAME, K) bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, unsigned long long* is, unsigned long long* ie) { return loop_start(K, (long)s, (long)e, (long)inc, (long)ch, (long*)is, (long*)ie); } bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long*)is, (long*)ie); }
UL(static, L_STATIC) UL(dynamic, L_DYNAMIC) UL(guided, L_GUIDED) UL(nonmonotonic_dynamic, L_DYNAMIC) UL(nonmonotonic_guided, L_GUIDED) UL(ordered_static, L_STATIC) UL(ordered_dynamic, L_DYNAMIC) UL(ordered_guided, L_GUIDED)
bool GOMP_loop_ull_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return loop_start(L_DYNAMIC, (long)s, (long)e, (long)inc, 1, (long*)is, (long*)ie); } bool GOMP_loop_ull_runtime_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); }
bool GOMP_loop_ull_nonmonotonic_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return loop_start(L_DYNAMIC, (long)s, (long)e, (long)inc, 1, (long*)is, (long*)ie); } bool GOMP_loop_ull_nonmonotonic_runtime_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return loop_start(L_DYNAMIC, (long)s, (long)e, (long)inc, 1, (long*)is, (long*)ie); } bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); }
void GOMP_barrier() { if (OFF) return; if (g_cur->team) team_barrier(g_cur->team); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
void GOMP_loop_end() { GOMP_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
void GOMP_loop_end_nowait() { rt_yield(); }
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
// sections
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(L_DYNAMIC, 1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { GOMP_barrier(); } void GOMP_sections_end_nowait() { rt_yield(); } bool GOMP_sections_end_cancel() { GOMP_barrier(); return false; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { ploop(L_DYNAMIC, fn, d, n, 1, (long)cnt + 1, 1, 1); }
bool GOMP_single_start() { if (OFF) return true; RtGuard g; rt_yield(); if (!g_cur->team) return true; bool f; WS* w = enter_ws(&f); bool mine = !w->single_taken; w->single_taken = true; return mine; }
struct CopyArg { WS* w; }; static bool pred_copy(void* a) { return ((WS*)a)->copy_set; }
void* GOMP_single_copy_start() { if (OFF) return nullptr; RtGuard g; rt_yield(); if (!g_cur->team) return nullptr; bool f; WS* w = enter_ws(&f); if (!w->single_taken) { w->single_taken = true; return nullptr; } rt_wait(pred_copy, w); rt_acquire(&w->vc); return w->copy; }
void GOMP_single_copy_end(void* d) { if (OFF) return; { RtGuard g; WS* w = g_cur->ws; if (g_cur->team && w) { w->copy = d; w->copy_set = true; rt_release(&w->vc); } } GOMP_barrier(); }
static char crit_default, atom_lock;
void GOMP_critical_start() { if (OFF) return; rt_mutex_lock(&crit_default, true); } void GOMP_critical_end() { if (OFF) return; rt_mutex_unlock(&crit_default); }
void GOMP_critical_name_start(void** p) { if (OFF) return; rt_mutex_lock(p, true); } void GOMP_critical_name_end(void** p) { if (OFF) return; rt_mutex_unlock(p); }
void GOMP_atomic_start() { if (OFF) return; rt_mutex_lock(&atom_lock, true); } void GOMP_atomic_end() { if (OFF) return; rt_mutex_unlock(&atom_lock); }
void GOMP_ordered_start() { if (OFF) return; RtGuard g; WS* w = g_cur->ws; if (!w || !g_cur->team) return; OW o = {w, g_cur->num}; rt_wait(pred_ord, &o); rt_acquire(&w->ordvc); } void GOMP_ordered_end() { if (OFF) return; RtGuard g; if (g_cur->ws && g_cur->team) rt_release(&g_cur->ws->ordvc); }
// tasks
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool if_clause, unsigned flags, void** depend, int, void*) {
  if (OFF) { fn(data); return; }
  Th* me = g_cur; Team* tm; OTask *par, *k; bool defer;
  {
    RtGuard g; rt_yield(); tm = me->team; par = cur_task(); k = new_task(); k->fn = fn; k->parent = par; k->team = tm; k->group = par->group; 
    defer = if_clause && tm && tm->n > 1 && !(depend);
    if (defer && rt_choose_strategy(K_TASKRUN, 4) == 3) { defer = false; sim_fault_fired(F_TASKDEFER, "task executed immediately instead of deferred"); }
    par->nchild++; if (tm) tm->npending++; for (TaskGroup* x = k->group; x; x = x->outer) x->pending++;
    char* a = (char*)rt_alloc((size_t)(sz > 0 ? sz : 1), (size_t)(al > 0 ? al : 16)); k->arg = a;
  }
  if (cpy) { cpy(k->arg, data); }
  else if (sz > 0) { if (defer) memcpy(k->arg, data, sz); else k->arg = data; }
  me->in_rt++;
  rt_release(&k->start);
  if (defer) { q_push(tm, k); rt_yield(); } else run_task(k);
  me->in_rt--;
}
struct TW { Team* t; OTask* p; }; static bool pred_tw(void* a) { TW* w = (TW*)a; return w->p->nchild == 0 || runnable_child(w->t, w->p); }
void GOMP_taskwait() {
  if (OFF) return; Th* me = g_cur; me->in_rt++; rt_yield(); OTask* p = cur_task(); Team* tm = me->team;
  while (p->nchild > 0) { OTask* k = tm ? pick_queued(tm, p, nullptr) : nullptr; if (k) { run_task(k); continue; } TW w = {tm, p}; rt_wait(pred_tw, &w); }
  rt_acquire(&p->childvc); me->in_rt--;
}
void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
void GOMP_taskyield() { if (OFF) return; rt_yield(); }
void GOMP_taskgroup_start() { if (OFF) return; RtGuard g; OTask* p = cur_task(); TaskGroup* t = (TaskGroup*)rt_alloc(sizeof(TaskGroup)); t->outer = p->group; p->group = t; }
struct TG { Team* t; TaskGroup* g; }; static bool pred_tg(void* a) { TG* w = (TG*)a; return w->g->pending == 0 || runnable_group(w->t, w->g); }
void GOMP_taskgroup_end() {
  if (OFF) return; Th* me = g_cur; me->in_rt++; rt_yield(); OTask* p = cur_task(); TaskGroup* g = p->group; Team* tm = me->team;
  while (g && g->pending > 0) { OTask* k = tm ? pick_queued(tm, nullptr, g) : nullptr; if (k) { run_task(k); continue; } TG w = {tm, g}; rt_wait(pred_tg, &w); }
  if (g) { rt_acquire(&g->vc); p->group = g->outer; } me->in_rt--;
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long num, int prio, long s, long e, long step) {
  if (OFF) { ((long*)data)[0] = s; ((long*)data)[1] = e; fn(data); return; }
  if (flags & 4096) rt_fatal("taskloop reduction is not supported by the simulator");
  long n = niters(s, e, step); if (!n) return; long ntask;
  if (num == 0) ntask = g_cur->team ? g_cur->team->n : 1; else if (flags & 512) ntask = n / (long)num > 0 ? n / (long)num : 1; else ntask = (long)num; if (ntask > n) ntask = n;
  if (!(flags & 2048)) GOMP_taskgroup_start();
  long pos = 0;
  for (long i = 0; i < ntask; i++) {
    long cnt = n / ntask + (i < n % ntask); char* a; { RtGuard g; a = (char*)rt_alloc(sz, al); } if (cpy) cpy(a, data); else memcpy(a, data, sz);
    ((long*)a)[0] = s + pos * step; pos += cnt; ((long*)a)[1] = i + 1 == ntask ? e : s + pos * step;
    GOMP_task(fn, a, nullptr, sz, al, true, 0, nullptr, 0, nullptr);
  }
  if (!(flags & 2048)) GOMP_taskgroup_end();
}
// query routines
int omp_get_thread_num() { return OFF ? 0 : g_cur->num; }
int omp_get_num_threads() { return OFF || !g_cur->team ? 1 : g_cur->team->n; }
int omp_get_max_threads() { return icv_nthreads; }
int omp_get_num_procs() { return icv_procs; }
int omp_in_parallel() { return !OFF && g_cur->team && g_cur->team->n > 1; }
void omp_set_num_threads(int n) { icv_nthreads = n < 1 ? 1 : n; }
int omp_get_thread_limit() { return 64; }
int omp_get_level() { int l = 0; if (!OFF) for (Team* t = g_cur->team; t; t = t->parent) l++; return l; }
int omp_get_active_level() { int l = 0; if (!OFF) for (Team* t = g_cur->team; t; t = t->parent) l += t->n > 1; return l; }
int omp_get_dynamic() { return icv_dynamic; } void omp_set_dynamic(int d) { icv_dynamic = d; }
int omp_get_nested() { return 0; } void omp_set_nested(int) {}
int omp_get_max_active_levels() { return icv_levels; } void omp_set_max_active_levels(int l) { icv_levels = l; }
double omp_get_wtime() { return sim_now_ns() * 1e-9; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* p) { if (!OFF) rt_mutex_lock(p, true); } void omp_unset_lock(void* p) { if (!OFF) rt_mutex_unlock(p); } int omp_test_lock(void* p) { return OFF ? 1 : rt_mutex_trylock(p, true); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void* p) { if (!OFF) rt_mutex_lock(p, false); } void omp_unset_nest_lock(void* p) { if (!OFF) rt_mutex_unlock(p); }
int omp_test_nest_lock(void* p) { return OFF ? 1 : rt_mutex_trylock(p, false); }
static int icv_sched = 1, icv_chunk = 0;
void omp_set_schedule(int k, int c) { icv_sched = k; icv_chunk = c; } void omp_get_schedule(int* k, int* c) { *k = icv_sched; *c = icv_chunk; }
int omp_get_ancestor_thread_num(int l) { int lv = omp_get_level(); if (l < 0 || l > lv) return -1; return l == lv ? omp_get_thread_num() : 0; }
int omp_get_team_size(int l) { int lv = omp_get_level(); if (l < 0 || l > lv) return -1; return l == lv ? omp_get_num_threads() : 1; }
int omp_in_final() { return 0; } int omp_get_cancellation() { return 0; } int omp_get_max_task_priority() { return 0; } int omp_get_num_teams() { return 1; } int omp_get_team_num() { return 0; }
int omp_get_supported_active_levels() { return 64; } int omp_get_proc_bind() { return 0; } int omp_get_num_places() { return 0; } int omp_is_initial_device() { return 1; } int omp_get_num_devices() { return 0; }
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long num, int prio, unsigned long long s, unsigned long long e, unsigned long long step) { GOMP_taskloop(fn, data, cpy, sz, al, flags, num, prio, (long)s, (long)e, (long)step); }
}
