#pragma once
#include "../sim/sim.h"
#include "oracle.h"
#include <memory>
#include <vector>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/points/point_cloud.hpp>
struct Pause { Pause() { sim_pause(); } ~Pause() { sim_resume(); } };
struct Cloud { double* p; size_t n; int kind; double scale; };
// sizes biased around the thresholds at which code becomes parallel
static inline size_t draw_size(int g, size_t maxn) {
  switch (sim_draw(g, 0, 9)) {
    case 0: return sim_draw(g, 0, 12);
    case 1: return sim_draw(g, 1, 64);
    case 2: return sim_draw(g, 500, 530);
    case 3: return 1020 + sim_draw(g, 0, 10);
    case 4: return 2044 + sim_draw(g, 0, 10);
    case 5: return sim_draw(g, 64, 512);
    default: return sim_draw(g, 513, maxn);
  }
}
// beyond the range of 16-bit indices; rare, since one such run costs seconds
static inline size_t huge_size(int g) { sim_set_step_limit(40000000000ull); return sim_flip(g, 50) ? sim_draw(g, 65500, 65600) : sim_draw(g, 65600, 140000); }
static inline double draw_scale(int g) { static const double s[] = {1.0, 10.0, 0.05, 100.0, 1.0, 5.0}; return s[sim_draw(g, 0, 5)]; }
static inline Cloud make_cloud(int g, size_t n, int kind, double scale) { Cloud c; c.n = n; c.kind = kind; c.scale = scale; Pause pz; c.p = (double*)malloc(sizeof(double) * 4 * (n + 1)); or_gen_cloud(c.p, n, kind, scale, sim_draw(g, 1, 1000000)); return c; }
static inline Cloud draw_cloud(int g, size_t maxn) { size_t n = draw_size(g, maxn); int k = (int)sim_draw(g, 0, OR_CLOUD_KINDS - 1); return make_cloud(g, n, k, draw_scale(g)); }
static inline std::shared_ptr<small_gicp::PointCloud> to_cloud(const Cloud& c) { Pause pz; auto p = std::make_shared<small_gicp::PointCloud>(); p->resize(c.n); for (size_t i = 0; i < c.n; i++) { for (int d = 0; d < 4; d++) p->points[i][d] = c.p[4 * i + d]; p->normals[i].setConstant(-7.25); p->covs[i].setConstant(-3.5); } return p; }
static inline Eigen::MatrixXd to_mat(const Cloud& c) { Pause pz; Eigen::MatrixXd p(c.n, 3); for (size_t i = 0; i < c.n; i++) for (int d = 0; d < 3; d++) p(i, d) = c.p[4 * i + d]; return p; }
// number of threads requested, plus the delivered-team fault
static inline int draw_threads(int g) { int t = (int)sim_draw(g, 1, 8); if (sim_flip(g, 30)) sim_set_max_workers((int)sim_draw(g, 1, 4)); int c = (int)sim_draw(g, 1, 6); sim_set_tbb_concurrency(c); if (sim_draw(g, 0, 29) == 0) t = (int)sim_draw(g, 9, 20); return t; }
// the thread limit of one call (C17)
struct Guard { int limit, users; uint64_t starts; const char* what;
  Guard(int l, const char* w) : limit(l), what(w) { sim_omp_reset_peak(); starts = sim_thread_starts(); users = sim_user_threads(); }
  void done() {
    int peak = sim_omp_peak_request(); if (peak > limit) sim_violation("thread-limit", "%s with num_threads=%d asked for %d threads at one moment", what, limit, peak);
    if (limit == 1 && sim_thread_starts() != starts) sim_violation("thread-limit", "%s with num_threads=1 handed work to another thread", what);
    if (sim_omp_active_teams()) sim_violation("work-left-behind", "%s: a parallel region is still active after the call", what);
    if (sim_user_threads() > users) sim_violation("work-left-behind", "%s: a thread started by the call is still running after it", what);
  } };
