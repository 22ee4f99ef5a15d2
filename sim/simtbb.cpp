// TBB seam: the oneTBB binary interface (tbb::detail::r1) implemented on the simulated scheduler.
// parallel_for / reduce / sort / invoke, partitioners and the flow graph itself are the real header code.
#include "rt.h"
#include <tbb/tbb.h>
#include <tbb/global_control.h>
#include <tbb/task_scheduler_observer.h>
#include <exception>
#include <new>
#include <stdexcept>
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
enum { F_TEAM = 0, F_STEAL = 6 };
int rt_choose_strategy(int kind, int n);
void rt_mutex_lock(const void*); void rt_mutex_unlock(const void*);
namespace tbb { namespace detail { namespace r1 {
class task_dispatcher { public: static uint64_t refs(d1::wait_context& w) { return __atomic_load_n(reinterpret_cast<uint64_t*>(&w.m_ref_count), __ATOMIC_ACQUIRE); } static void* addr(d1::wait_context& w) { return &w.m_ref_count; } };
struct task_group_context_impl { static bool bound(d1::task_group_context& c) { return c.my_traits.bound; } static void init(d1::task_group_context& c) { c.my_cpu_ctl_env = 0; c.my_may_have_children.store(0, std::memory_order_relaxed); c.my_state.store(d1::task_group_context::state::created, std::memory_order_relaxed); c.my_parent = nullptr; c.my_context_list = nullptr; c.my_exception.store(nullptr, std::memory_order_relaxed); c.my_itt_caller = nullptr; }
  static void set_cancel(d1::task_group_context& c, uint32_t v) { __atomic_store_n(reinterpret_cast<uint32_t*>(&c.my_cancellation_requested), v, __ATOMIC_SEQ_CST); } };
struct global_control_impl { static size_t value(d1::global_control& g) { return g.my_value; } static int param(d1::global_control& g) { return g.my_param; } static intptr_t& res(d1::global_control& g) { return g.my_reserved; } };
struct task_arena_impl { static void set(d1::task_arena_base& a, int conc) { a.my_max_concurrency = conc; __atomic_store_n(reinterpret_cast<void**>(&a.my_arena), (void*)0x1000, __ATOMIC_SEQ_CST); } static int conc(const d1::task_arena_base& a) { return a.my_max_concurrency; } static bool inited(d1::task_arena_base& a) { return __atomic_load_n(reinterpret_cast<void**>(&a.my_arena), __ATOMIC_SEQ_CST) != nullptr; } };
}}}
using namespace tbb::detail;
namespace {
struct Ctx { uintptr_t a; d1::task_group_context* parent; bool bound_done, cancelled; std::exception_ptr* ex; VC exvc; VC cvc; };
struct Ent { d1::task* t; d1::task_group_context* ctx; intptr_t iso; int arena; VC* start; int slot; uint64_t seq; };
struct Deque { Ent* e; int n, cap; };
struct TThread { Deque d; d1::task_group_context* cur_ctx; intptr_t iso; d1::slot_id slot; bool worker; bool busy; int arena; };
enum { NCTX = 1 << 16 };
Ctx* g_ctx; uint32_t g_nctx; int g_conc = 4; int g_delivered = 0; int g_workers = 0; Deque g_fifo; uint64_t g_seq; intptr_t g_iso = 0; size_t g_limits[64]; int g_nlimits; int g_busy = 0, g_peak_busy = 0;

Ctx* ctx(const void* p) {
  if (!g_ctx) g_ctx = (Ctx*)rt_alloc(sizeof(Ctx) * NCTX, 64);
  uintptr_t a = (uintptr_t)p; uint64_t h = (a >> 3) * 0x9e3779b97f4a7c15ull; h ^= h >> 29;
  for (uint32_t k = 0;; k++) { Ctx* c = &g_ctx[(h + k) & (NCTX - 1)]; if (c->a == a) return c; if (!c->a) { if (++g_nctx > NCTX / 2) rt_fatal("context table full"); c->a = a; return c; } }
}
TThread* tt() { Th* t = g_cur; if (!t->tbb) { TThread* x = (TThread*)rt_alloc(sizeof(TThread)); x->arena = t->caller; x->slot = 0; t->tbb = x; } TThread* x = (TThread*)t->tbb; if (!x->worker) x->arena = t->caller; return x; }
void push(Deque& d, const Ent& e) { if (d.n == d.cap) { int c = d.cap ? d.cap * 2 : 16; Ent* n = (Ent*)rt_alloc(sizeof(Ent) * c); if (d.n) memcpy(n, d.e, sizeof(Ent) * d.n); d.e = n; d.cap = c; } d.e[d.n++] = e; }
Ent take(Deque& d, int i) { Ent e = d.e[i]; for (int k = i; k + 1 < d.n; k++) d.e[k] = d.e[k + 1]; d.n--; return e; }
int limit() { int c = g_conc; for (int i = 0; i < g_nlimits; i++) if ((int)g_limits[i] < c) c = (int)g_limits[i]; return c < 1 ? 1 : c; }
bool ctx_cancelled(d1::task_group_context* c) { for (int k = 0; c && k < 64; k++) { Ctx* x = ctx(c); if (x->cancelled) { rt_acquire(&x->cvc); return true; } c = x->bound_done ? x->parent : nullptr; } return false; }
void bind(d1::task_group_context& c) { Ctx* x = ctx(&c); if (x->bound_done) return; x->bound_done = true; TThread* t = tt(); x->parent = r1::task_group_context_impl::bound(c) ? t->cur_ctx : nullptr; if (x->parent == &c) x->parent = nullptr; }
bool cancel_ctx(d1::task_group_context& c) { Ctx* x = ctx(&c); if (x->cancelled) return false; x->cancelled = true; rt_release(&x->cvc); r1::task_group_context_impl::set_cancel(c, 1); return true; }
struct Ed : d1::execution_data { intptr_t iso; };
bool in_arena(const Ent& e, int arena, intptr_t iso) { return (arena < 0 || e.arena == arena) && (iso == 0 || e.iso == iso); }
// find work for the current thread: own deque newest first, then steal the oldest entry of some other thread, then the FIFO stream
bool find_work(int arena, intptr_t iso, bool probe, Ent* out, bool* stolen) {
  TThread* me = tt();
  for (int i = me->d.n - 1; i >= 0; i--) if (in_arena(me->d.e[i], arena, iso)) { if (!probe) { *out = take(me->d, i); *stolen = false; } return true; }
  int cand[MAXT + 1], idx[MAXT + 1], n = 0;
  for (int t = 0; t < g_nth; t++) { if (&g_th[t] == g_cur || !g_th[t].tbb) continue; TThread* o = (TThread*)g_th[t].tbb; for (int i = 0; i < o->d.n; i++) if (in_arena(o->d.e[i], arena, iso)) { cand[n] = t; idx[n++] = i; break; } }
  for (int i = 0; i < g_fifo.n; i++) if (in_arena(g_fifo.e[i], arena, iso)) { cand[n] = -1; idx[n++] = i; break; }
  if (!n) return false; if (probe) return true;
  int k = n > 1 ? rt_choose_strategy(K_VICTIM, n) : 0;
  if (cand[k] < 0) { *out = take(g_fifo, idx[k]); *stolen = false; } else { TThread* o = (TThread*)g_th[cand[k]].tbb; *out = take(o->d, idx[k]); *stolen = true; sim_fault_fired(F_STEAL, "task stolen"); }
  return true;
}
void run_ent(Ent e) {
  // in_rt > 0
  Th* th = g_cur; TThread* me = tt(); uint32_t rt = th->in_rt; d1::task_group_context* sc = me->cur_ctx; intptr_t si = me->iso; int sa = me->arena; int scaller = th->caller;
  if (e.start) rt_acquire(e.start);
  Ed ed; ed.context = e.ctx; ed.original_slot = (d1::slot_id)e.slot; ed.affinity_slot = d1::no_slot; ed.iso = e.iso;
  me->cur_ctx = e.ctx; me->iso = e.iso; if (me->worker) { me->arena = e.arena; th->caller = e.arena; }
  d1::task* t = e.t;
  while (t) {
    bool c = ctx_cancelled(e.ctx);
    d1::task* next = nullptr;
    try { th->in_rt = 0; next = c ? t->cancel(ed) : t->execute(ed); th->in_rt = rt; t = next; ed.original_slot = me->slot; }
    catch (...) {
      th->in_rt = rt; Ctx* x = ctx(e.ctx);
      if (cancel_ctx(*e.ctx)) { x->ex = new (rt_alloc(sizeof(std::exception_ptr))) std::exception_ptr(std::current_exception()); rt_release(&x->exvc); }
      // t stays: it is finalised through cancel() in the next iteration
    }
    rt_yield();
  }
  me->cur_ctx = sc; me->iso = si; if (me->worker) { me->arena = sa; th->caller = scaller; }
}
bool worker_pred(void*) { Ent e; bool s; return g_busy < limit() - 1 && find_work(-1, 0, true, &e, &s); }
// the predicate runs in the context of whichever thread schedules: evaluate for the worker itself
struct WP { Th* th; };
bool worker_pred_for(void* a) { Th* save = g_cur; g_cur = ((WP*)a)->th; bool r = worker_pred(nullptr); g_cur = save; return r; }
void worker_main(void* a) {
  Th* th = g_cur; th->in_rt++; TThread* me = (TThread*)rt_alloc(sizeof(TThread)); me->worker = true; me->slot = (d1::slot_id)(uintptr_t)a; me->arena = -1; th->tbb = me; WP wp = {th};
  for (;;) {
    rt_wait(worker_pred_for, &wp);
    Ent e; bool s; if (g_busy < limit() - 1 && find_work(-1, 0, false, &e, &s)) { g_busy++; if (g_busy > g_peak_busy) g_peak_busy = g_busy; me->busy = true; run_ent(e);
      // keep taking work of the same arena while there is any
      for (;;) { rt_yield(); if (g_busy > limit() - 1) break; if (!find_work(e.arena, 0, false, &e, &s)) break; run_ent(e); }
      me->busy = false; g_busy--; }
  }
}
void ensure_workers() { int want = limit() - 1; if (g_delivered > 0 && want > g_delivered - 1) { want = g_delivered - 1; } while (g_workers < want) { g_workers++; rt_start(worker_main, (void*)(uintptr_t)g_workers, 2); } }
struct WaitArg { d1::wait_context* w; Th* th; int arena; intptr_t iso; };
bool wait_pred(void* a) { WaitArg* w = (WaitArg*)a; if (r1::task_dispatcher::refs(*w->w) == 0) return true; Th* save = g_cur; g_cur = w->th; Ent e; bool s; bool r = find_work(w->arena, w->iso, true, &e, &s); g_cur = save; return r; }
void wait_loop(d1::wait_context& w, d1::task_group_context& wctx) {
  Th* th = g_cur; TThread* me = tt();
  for (;;) {
    rt_yield();
    if (r1::task_dispatcher::refs(w) == 0) break;
    Ent e; bool s; if (find_work(me->arena, me->iso, false, &e, &s)) { run_ent(e); continue; }
    WaitArg wa = {&w, th, me->arena, me->iso}; rt_wait(wait_pred, &wa);
  }
  rt_sync_acquire(r1::task_dispatcher::addr(w));
  Ctx* x = ctx(&wctx);
  if (x->ex) { rt_acquire(&x->exvc); std::exception_ptr p = *x->ex; std::rethrow_exception(p); }
}
Ent make_ent(d1::task& t, d1::task_group_context& c) { TThread* me = tt(); bind(c); Ent e; e.t = &t; e.ctx = &c; e.iso = me->iso; e.arena = me->arena; e.slot = me->slot; e.seq = ++g_seq; e.start = (VC*)rt_alloc(sizeof(VC)); rt_release(e.start); return e; }
struct WaitAddr { uintptr_t a; uint64_t gen; };
enum { NWA = 4096 }; WaitAddr g_wa[NWA];
WaitAddr* wa(void* p) { uintptr_t a = (uintptr_t)p; uint64_t h = (a >> 3) * 0x9e3779b97f4a7c15ull >> 20; for (uint32_t k = 0; k < NWA; k++) { WaitAddr* w = &g_wa[(h + k) % NWA]; if (w->a == a) return w; if (!w->a) { w->a = a; return w; } } rt_fatal("wait table full"); }
struct WA2 { WaitAddr* w; uint64_t gen; }; bool wa_pred(void* a) { return ((WA2*)a)->w->gen != ((WA2*)a)->gen; }
}
extern "C" void sim_set_tbb_concurrency(int n) { g_conc = n < 1 ? 1 : n; }
extern "C" int sim_tbb_live_workers_busy(void) { return g_busy; }
extern "C" int sim_tbb_peak_busy(int reset) { int v = g_peak_busy; if (reset) g_peak_busy = g_busy; return v; }
namespace tbb { namespace detail { namespace r1 {
void spawn(d1::task& t, d1::task_group_context& c) { RtGuard g; ensure_workers(); push(tt()->d, make_ent(t, c)); rt_yield(); }
void spawn(d1::task& t, d1::task_group_context& c, d1::slot_id) { r1::spawn(t, c); }
void submit(d1::task& t, d1::task_group_context& c, arena*, std::uintptr_t) { r1::spawn(t, c); }
void enqueue(d1::task& t, d1::task_group_context& c, d1::task_arena_base*) { RtGuard g; ensure_workers(); push(g_fifo, make_ent(t, c)); rt_yield(); }
static d1::task_group_context* default_ctx() { static char buf[sizeof(d1::task_group_context)] __attribute__((aligned(64))); return reinterpret_cast<d1::task_group_context*>(buf); }
void enqueue(d1::task& t, d1::task_arena_base* a) { r1::enqueue(t, *default_ctx(), a); }
void execute_and_wait(d1::task& t, d1::task_group_context& tc, d1::wait_context& w, d1::task_group_context& wc) { RtGuard g; ensure_workers(); bind(tc); bind(wc); Ent e = make_ent(t, tc); run_ent(e); wait_loop(w, wc); }
void wait(d1::wait_context& w, d1::task_group_context& c) { RtGuard g; bind(c); wait_loop(w, c); }
d1::slot_id execution_slot(const d1::execution_data*) { RtGuard g; return tt()->slot; }
d1::slot_id execution_slot(const d1::task_arena_base&) { RtGuard g; return tt()->slot; }
d1::task_group_context* current_context() { RtGuard g; TThread* t = tt(); return t->cur_ctx ? t->cur_ctx : default_ctx(); }
void suspend(suspend_callback_type, void*) { rt_fatal("tbb suspend unsupported"); } void resume(suspend_point_type*) {} suspend_point_type* current_suspend_point() { return nullptr; }
void notify_waiters(std::uintptr_t) { rt_yield(); }
void* allocate(d1::small_object_pool*& pool, std::size_t n) { pool = reinterpret_cast<d1::small_object_pool*>(0x1000); sim_pause(); void* p = memalign(64, n); sim_resume(); /* task objects of the TBB runtime are not subject to injected failures */ if (!p) throw std::bad_alloc(); return p; }
void* allocate(d1::small_object_pool*& pool, std::size_t n, const d1::execution_data&) { return allocate(pool, n); }
void deallocate(d1::small_object_pool&, void* p, std::size_t) { free(p); }
void deallocate(d1::small_object_pool&, void* p, std::size_t, const d1::execution_data&) { free(p); }
void* cache_aligned_allocate(std::size_t n) { void* p = memalign(64, n); if (!p) throw std::bad_alloc(); rt_uncount(p); /* segments of TBB containers: concurrent_vector itself loses one when an allocation fails while it grows */ return p; }
void cache_aligned_deallocate(void* p) { free(p); }
std::size_t cache_line_size() { return 64; }
void* allocate_memory(std::size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void deallocate_memory(void* p) { free(p); }
bool is_tbbmalloc_used() { return false; }
void assertion_failure(const char* loc, int line, const char* ex, const char* com) { fprintf(stderr, "TBB assertion %s:%d %s %s\n", loc, line, ex, com ? com : ""); abort(); }
void throw_exception(d0::exception_id id) {
  switch (id) {
    case d0::exception_id::bad_alloc: throw std::bad_alloc();
    case d0::exception_id::out_of_range: throw std::out_of_range("Index out of requested size range");
    case d0::exception_id::bad_tagged_msg_cast: throw std::runtime_error("Illegal tagged_msg cast");
    case d0::exception_id::nonpositive_step: throw std::invalid_argument("Step must be positive");
    default: throw std::runtime_error("tbb exception");
  }
}
void initialize(d1::task_group_context& c) { task_group_context_impl::init(c); if (!g_cur) return; RtGuard g; Ctx* x = ctx(&c); x->parent = nullptr; x->bound_done = x->cancelled = false; x->ex = nullptr; memset(&x->exvc, 0, sizeof(VC)); memset(&x->cvc, 0, sizeof(VC)); task_group_context_impl::set_cancel(c, 0); }
static void drop_ex(Ctx* x) { if (x->ex) { std::exception_ptr* e = x->ex; x->ex = nullptr; e->~exception_ptr(); } }
void destroy(d1::task_group_context& c) { if (!g_cur) return; RtGuard g; Ctx* x = ctx(&c); drop_ex(x); x->bound_done = false; x->cancelled = false; x->parent = nullptr; }
void reset(d1::task_group_context& c) { RtGuard g; Ctx* x = ctx(&c); drop_ex(x); x->cancelled = false; task_group_context_impl::set_cancel(c, 0); }
bool cancel_group_execution(d1::task_group_context& c) { RtGuard g; rt_yield(); return cancel_ctx(c); }
bool is_group_execution_cancelled(d1::task_group_context& c) { RtGuard g; rt_yield(); return ctx_cancelled(&c); }
void capture_fp_settings(d1::task_group_context&) {}
void initialize(d1::task_arena_base& a) { RtGuard g; int c = task_arena_impl::conc(a); task_arena_impl::set(a, c < 1 ? limit() : c); }
void terminate(d1::task_arena_base&) {}
bool attach(d1::task_arena_base& a) { RtGuard g; task_arena_impl::set(a, limit()); return true; }
void execute(d1::task_arena_base&, d1::delegate_base& d) { rt_yield(); d(); }
void wait(d1::task_arena_base&) {}
int max_concurrency(const d1::task_arena_base* a) { RtGuard g; if (a && task_arena_impl::conc(*a) > 0) return task_arena_impl::conc(*a); return limit(); }
void isolate_within_arena(d1::delegate_base& d, std::intptr_t iso) { TThread* t; intptr_t s; { RtGuard g; t = tt(); s = t->iso; t->iso = iso ? iso : (intptr_t)&d; } try { d(); } catch (...) { t->iso = s; throw; } t->iso = s; }
void observe(d1::task_scheduler_observer&, bool) {}
void create(d1::global_control& g) { if (global_control_impl::param(g) == 0 && g_nlimits < 64) { g_limits[g_nlimits++] = global_control_impl::value(g); } }
void destroy(d1::global_control& g) { if (global_control_impl::param(g) == 0) for (int i = g_nlimits - 1; i >= 0; i--) if (g_limits[i] == global_control_impl::value(g)) { for (int k = i; k + 1 < g_nlimits; k++) g_limits[k] = g_limits[k + 1]; g_nlimits--; break; } }
std::size_t global_control_active_value(int p) { return p == 0 ? (size_t)limit() : p == 1 ? (size_t)(2 << 20) : 0; }
void wait_on_address(void* a, d1::delegate_base& cond, std::uintptr_t) { for (;;) { WA2 w; { RtGuard g; w.w = wa(a); w.gen = w.w->gen; } if (cond()) return; rt_wait(wa_pred, &w); } }
static void notify_addr(void* a) { RtGuard g; wa(a)->gen++; rt_yield(); }
void notify_by_address(void* a, std::uintptr_t) { notify_addr(a); } void notify_by_address_one(void* a) { notify_addr(a); } void notify_by_address_all(void* a) { notify_addr(a); }
void call_itt_notify(int, void*) {} void create_itt_sync(void*, const char*, const char*) {} void itt_make_task_group(d1::itt_domain_enum, void*, unsigned long long, void*, unsigned long long, string_resource_index) {}
void itt_task_begin(d1::itt_domain_enum, void*, unsigned long long, void*, unsigned long long, string_resource_index) {} void itt_task_end(d1::itt_domain_enum) {} void itt_set_sync_name(void*, const char*) {}
void itt_metadata_str_add(d1::itt_domain_enum, void*, unsigned long long, string_resource_index, const char*) {} void itt_metadata_ptr_add(d1::itt_domain_enum, void*, unsigned long long, string_resource_index, void*) {}
void itt_relation_add(d1::itt_domain_enum, void*, unsigned long long, itt_relation, void*, unsigned long long) {} void itt_region_begin(d1::itt_domain_enum, void*, unsigned long long, void*, unsigned long long, string_resource_index) {} void itt_region_end(d1::itt_domain_enum, void*, unsigned long long) {}
unsigned numa_node_count() { return 1; } void fill_numa_indices(int* p) { *p = 0; } int numa_default_concurrency(int) { return limit(); }
unsigned core_type_count(intptr_t) { return 1; } void fill_core_type_indices(int* p, intptr_t) { *p = -1; } int constraints_default_concurrency(const d1::constraints&, intptr_t) { return limit(); } int constraints_threads_per_core(const d1::constraints&, intptr_t) { return 1; }
const char* bad_last_alloc::what() const noexcept { return "bad allocation in previous or concurrent attempt"; }
const char* user_abort::what() const noexcept { return "user abort"; }
const char* missing_wait::what() const noexcept { return "missing wait"; }
}}}
extern "C" const char* TBB_runtime_version() { return "2021.11"; }
extern "C" int TBB_runtime_interface_version() { return 12110; }
