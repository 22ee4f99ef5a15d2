// Self-test of the simulator itself (no property): synchronisation primitives a change to the library might start to use must
// work under simulation without being reported.  SELF_BAD=1..3 plants a race, a self-deadlock and a lost wakeup.
#include "common.hpp"
#include <future>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <atomic>
#include <thread>
#include <omp.h>
#include <numeric>
#include <tbb/parallel_for.h>
#include <tbb/spin_mutex.h>
#include <tbb/enumerable_thread_specific.h>
#include <tbb/concurrent_vector.h>
#include <tbb/task_group.h>
#include <tbb/task_arena.h>
#include <tbb/mutex.h>
#include <tbb/parallel_reduce.h>
#include <tbb/blocked_range.h>
extern "C" const char* const harness_props[] = {"SELF", nullptr};
extern "C" void harness_init(const char*) {}
static std::shared_mutex g_sm; static std::mutex g_m; static int g_shared;
static void check(bool ok, const char* w) { if (!ok) sim_violation("selftest", "%s", w); }
extern "C" void harness_run(const char*) {
  int bad = getenv("SELF_BAD") ? atoi(getenv("SELF_BAD")) : 0; int threads = draw_threads(0); sim_set_nontrivial(1);
  std::vector<int> v(2000, 1);
  { auto f = std::async(std::launch::async, [&] { return std::accumulate(v.begin(), v.begin() + 1000, 0); }); int b = std::accumulate(v.begin() + 1000, v.end(), 0); check(f.get() + b == 2000, "async"); }
  { std::promise<int> p; auto f = p.get_future(); std::thread t([&] { p.set_value(7); }); check(f.get() == 7, "promise"); t.join(); }
  { g_shared = 0; int sum = 0; std::vector<std::thread> ts; for (int i = 0; i < 3; i++) ts.emplace_back([&, i] { for (int k = 0; k < 3; k++) if ((k + i) % 3 == 0) { std::unique_lock<std::shared_mutex> l(g_sm); g_shared++; } else { std::shared_lock<std::shared_mutex> l(g_sm); if (g_shared > 100) sum++; } }); for (auto& t : ts) t.join(); check(g_shared == 3, "shared_mutex"); }
  { bool ready = false; std::condition_variable cv; std::thread t([&] { { std::lock_guard<std::mutex> l(g_m); ready = true; } if (bad != 3) cv.notify_one(); }); { std::unique_lock<std::mutex> l(g_m); cv.wait(l, [&] { return ready; }); } t.join(); }
  { std::once_flag o; int n = 0; std::vector<std::thread> ts; for (int i = 0; i < 3; i++) ts.emplace_back([&] { std::call_once(o, [&] { n++; }); }); for (auto& t : ts) t.join(); check(n == 1, "call_once"); }
  { std::atomic_flag f = ATOMIC_FLAG_INIT; int n = 0;
#pragma omp parallel num_threads(threads)
    { for (int i = 0; i < 3; i++) { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); n++; f.clear(std::memory_order_release); } }
    check(n % 3 == 0 && n >= 3, "spin lock"); }
  { std::vector<int> w(300, 0); size_t N = 300;
#pragma omp parallel num_threads(threads)
#pragma omp single
#pragma omp taskloop
    for (size_t i = 0; i < N; i++) w[i]++;
    check(std::accumulate(w.begin(), w.end(), 0) == 300, "taskloop"); }
  { double s = 0; int c = 0;
#pragma omp parallel for num_threads(threads) reduction(+ : s) schedule(guided)
    for (int i = 0; i < 200; i++) { s += i;
#pragma omp atomic
      c++; }
    check(s == 19900 && c == 200, "reduction"); }
  { int n = 0; omp_lock_t l; omp_init_lock(&l);
#pragma omp parallel num_threads(threads)
    {
#pragma omp sections
      {
#pragma omp section
        { omp_set_lock(&l); n++; omp_unset_lock(&l); }
#pragma omp section
        { omp_set_lock(&l); n++; omp_unset_lock(&l); }
      }
#pragma omp barrier
#pragma omp critical
      n += 0;
#pragma omp barrier
#pragma omp for ordered schedule(dynamic)
      for (int i = 0; i < 5; i++) {
#pragma omp ordered
        n++; }
    }
    omp_destroy_lock(&l); check(n == 7, "sections"); }
  { tbb::spin_mutex m; tbb::mutex m2; int n = 0, n2 = 0; tbb::enumerable_thread_specific<int> ets(0); tbb::concurrent_vector<int> cv;
    tbb::parallel_for(0, 100, [&](int i) { { tbb::spin_mutex::scoped_lock l(m); n++; } { tbb::mutex::scoped_lock l(m2); n2++; } ets.local()++; cv.push_back(i); });
    int t = 0; for (int x : ets) t += x; check(n + n2 == 200 && t == 100 && cv.size() == 100, "tbb containers");
    tbb::task_group tg; std::atomic<int> k{0}; for (int i = 0; i < 8; i++) tg.run([&] { k++; }); tg.wait(); check(k == 8, "task_group");
    tbb::task_arena a(threads); int r = a.execute([&] { return tbb::parallel_deterministic_reduce(tbb::blocked_range<int>(0, 100), 0, [](const tbb::blocked_range<int>& b, int x) { for (int i = b.begin(); i < b.end(); i++) x += i; return x; }, std::plus<int>()); }); check(r == 4950, "arena"); }
  static thread_local int tl = 0;
#pragma omp parallel num_threads(threads)
  { tl++; static std::vector<int> once = std::vector<int>(100, 3); check(once[5] == 3, "static init"); }
  if (bad == 1) { int x = 0;
#pragma omp parallel num_threads(4)
    x++; (void)x; }
  if (bad == 2) { std::lock_guard<std::mutex> a(g_m); std::lock_guard<std::mutex> b(g_m); }
}
