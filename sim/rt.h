// Internal runtime interface shared by the seams (not used by harnesses).
#pragma once
#include "sim.h"
#include <pthread.h>
#include <string.h>
enum { MAXT = 48 };
enum { K_SCHED = 1, K_TEAM = 2, K_CHUNK = 3, K_TASKRUN = 4, K_TASKPICK = 5, K_STEAL = 6, K_VICTIM = 7, K_NOTIFY = 8, K_USER = 20 };
struct VC { uint32_t v[MAXT]; };
struct OTask; struct Team; struct WS;
struct Th {
  int id; int go; int state;  // 0 idle, 1 runnable, 2 waiting
  int role;                    // what the pool thread is doing: 0 none 1 omp 2 tbb 3 user
  pthread_t pt; bool created;
  bool (*pred)(void*); void* parg; uint64_t deadline;
  uint64_t steps, next_evt; uint64_t nchoice;
  uint32_t in_rt, paused, spin;
  int64_t prio;
  VC vc;
  void (*job)(void*); void* jarg; bool job_done; bool reserved; VC donevc;  // reserved: finished but not joined yet
  // OpenMP
  Team* team; int num; OTask* task; uint64_t ws_idx; WS* ws;
  int caller;                  // id of the user-level caller this thread works for
  // TBB
  int slot; void* tbb;
};
extern Th* g_cur; extern bool g_active; extern Th g_th[MAXT]; extern int g_nth;
extern uint64_t g_steps_total, g_now;
void* rt_alloc(size_t n, size_t align = 16);
void rt_uncount(void* p);                               // p no longer counts as a live block of the program
void rt_yield();                                        // sync point: may preempt
void rt_wait(bool (*pred)(void*), void* arg);           // block until pred (evaluated by the scheduler)
void rt_wait_until(bool (*pred)(void*), void* arg, uint64_t deadline);
Th* rt_start(void (*fn)(void*), void* arg, int role);   // start job on an idle pool thread
void rt_acquire(const VC* v);                           // cur joins v
void rt_release(VC* v);                                 // v joins cur; cur epoch++
void rt_sync_acquire(const void* addr);
void rt_sync_release(const void* addr);
void rt_hash(uint64_t v);
[[noreturn]] void rt_fatal(const char* fmt, ...);       // simulator error (not a violation)
void rt_spin();
struct RtGuard { Th* t; RtGuard() : t(g_cur) { if (t) t->in_rt++; } ~RtGuard() { if (t) t->in_rt--; } };
static inline bool rt_on() { return g_active && g_cur && g_cur->in_rt == 0 && g_cur->paused == 0; }
