// Deterministic simulator: public interface used by harnesses and by the seams (OpenMP, TBB, pthread, clock, heap, disk).
// Everything here is C so that no template instantiation is shared with instrumented code.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- workload generation: every value is a pure function of (seed, group, index in group), overridable by a replay file
uint64_t sim_draw(int group, uint64_t lo, uint64_t hi);  // uniform in [lo, hi]; shrinks toward lo
double sim_drawd(int group, double lo, double hi);       // coarse real value (1/65536 steps)
int sim_flip(int group, int percent);                    // 1 with the given probability; shrinks toward 0
int sim_op_enabled(int op);                              // history operations can be dropped by the minimiser
uint64_t sim_rand64(uint64_t stream_seed, uint64_t i);   // stateless mix for bulk data
// ---- scheduler
int sim_choose(int kind, int n);                         // scheduler decision in [0,n), default 0, recorded
int sim_choose_p(int kind, int n, int permille);         // like sim_choose, but non-default only with the given probability
void sim_point(void);                                    // explicit preemption point
int sim_spawn(void (*fn)(void*), void* arg);             // start a simulated caller thread
void sim_join(int tid);
int sim_self(void);
uint64_t sim_thread_starts(void);                        // how often work was handed to another simulated thread so far
void sim_quiesce(void);                                  // let every other simulated thread (TBB pool excepted) finish what it is doing
void sim_pause(void);                                    // no instrumentation / preemption / faults between pause and resume
void sim_resume(void);
// ---- reporting
void sim_violation(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_context(const char* c);                          // names the situation of the run: appended to the kind of any violation ("kind+context")
void sim_discard(const char* why) __attribute__((noreturn));  // run is not meaningful
void sim_probe(int idx, const char* name);              // count a rare condition reached
void sim_fault_fired(int idx, const char* name);        // count an injected fault
void sim_digest(uint64_t v);                            // fold an observable into the run's hash
void sim_digest_bytes(const void* p, size_t n);
void sim_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_set_nontrivial(int v);
int sim_verbose(void);
// ---- configuration of the run
void sim_set_max_workers(int delivered_cap);            // OpenMP: cap on delivered team size (fault), 0 = none
void sim_set_tbb_concurrency(int n);
void sim_set_step_limit(uint64_t steps);
int sim_tbb_live_workers_busy(void);                     // workers currently executing tasks
int sim_tbb_peak_busy(int reset);                        // most workers executing at one moment since the last reset
int sim_omp_active_teams(void);
void sim_omp_unpause(int on);                            // OpenMP regions entered while paused are simulated all the same
int sim_omp_peak_request(void);                          // largest number of threads alive (asked for in teams, or started as plain threads) at any moment since reset
int sim_user_threads(void);                              // plain threads started and not finished
void sim_omp_reset_peak(void);
// ---- allocation faults
void sim_alloc_arm(uint64_t k, int burst);               // the k-th next allocation (0-based) on sim threads fails, and burst-1 following
void sim_alloc_outside_omp(int on);                      // never fail an allocation made inside an OpenMP region
int sim_alloc_disarm(void);                              // returns number of failures injected
uint64_t sim_alloc_eligible(void);                       // allocations so far that an armed failure could have hit
uint64_t sim_alloc_count(void);                          // allocations made so far in this run
uint64_t sim_heap_live_blocks(void);                     // blocks allocated while not paused and still live
uint64_t sim_heap_live_bytes(void);
uint64_t sim_heap_mark(void);                            // sequence number for sim_heap_live_since
int sim_heap_check(const void* p, size_t n);             // 1 if whole range is addressable heap
void sim_alloc_size_limit(uint64_t bytes);               // single allocations above this throw (models bounded memory)
uint64_t sim_alloc_max_request(void);
void sim_heap_audit_on(void);                            // put a checked red zone after every block allocated from now on
void sim_heap_audit(void);                               // report writes into red zones
// ---- clock
uint64_t sim_now_ns(void);
void sim_clock_jump(int64_t ns);                         // wall clock only
void sim_clock_advance(uint64_t ns);
// ---- virtual disk
void sim_fs_put(const char* path, const void* data, size_t n);
size_t sim_fs_get(const char* path, void* out, size_t cap);  // returns size (size_t)-1 if absent
void sim_fs_fault(int kind, uint64_t at, uint64_t arg);   // kinds in simio
void sim_fs_reset(void);
void sim_fs_clear_faults(void);                         // the disk is healthy from now on, files stay
int sim_fs_faults_fired(void);
void sim_fs_mkdir(const char* path, uint64_t seed);      // a directory whose listing order the seed decides (odd: without file types)
int sim_fs_open_dirs(void);
int sim_fs_open_files(void);
size_t sim_fs_durable(const char* path, void* out, size_t cap);

// ---- provided by each harness
extern const char* const harness_props[];                // null-terminated list of property ids the binary serves
void harness_run(const char* prop);                      // one simulated run, executed on the main simulated thread
void harness_init(const char* prop);                     // once per worker process, before forking runs
#ifdef __cplusplus
}
#endif

enum { FS_NONE = 0, FS_READ_ERR = 1, FS_SHORT_READ = 2, FS_EINTR = 3, FS_ENOSPC = 4, FS_SHORT_WRITE = 5, FS_OPEN_ERR = 6, FS_WRITE_ERR = 7, FS_CRASH = 8, FS_READ_EOF = 9, FS_SEEK_ERR = 10, FS_READDIR = 11 };
