// C04 local PCA: normals and covariances, every backend
#include "common.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C04", nullptr};
extern "C" void harness_init(const char*) {}
static void run_est(PointCloud& c, int backend, int what, int k, int threads, bool own_tree, const std::shared_ptr<PointCloud>& pc) {
  if (own_tree) {
    if (backend == 0) { what == 0 ? estimate_normals(c, k) : what == 1 ? estimate_covariances(c, k) : estimate_normals_covariances(c, k); }
    else if (backend == 1) { what == 0 ? estimate_normals_omp(c, k, threads) : what == 1 ? estimate_covariances_omp(c, k, threads) : estimate_normals_covariances_omp(c, k, threads); }
    else { what == 0 ? estimate_normals_tbb(c, k) : what == 1 ? estimate_covariances_tbb(c, k) : estimate_normals_covariances_tbb(c, k); }
  } else {
    KdTree<PointCloud> t(pc);
    if (backend == 0) { what == 0 ? estimate_normals(c, t, k) : what == 1 ? estimate_covariances(c, t, k) : estimate_normals_covariances(c, t, k); }
    else if (backend == 1) { what == 0 ? estimate_normals_omp(c, t, k, threads) : what == 1 ? estimate_covariances_omp(c, t, k, threads) : estimate_normals_covariances_omp(c, t, k, threads); }
    else { what == 0 ? estimate_normals_tbb(c, t, k) : what == 1 ? estimate_covariances_tbb(c, t, k) : estimate_normals_covariances_tbb(c, t, k); }
  }
}
extern "C" void harness_run(const char*) {
  int backend = (int)sim_draw(0, 0, 5); backend = backend == 0 ? 0 : backend <= 3 ? 1 : 2;
  int threads = draw_threads(0); int what = (int)sim_draw(0, 0, 2); bool own = sim_draw(0, 0, 1);
  static const int ks[] = {20, 10, 5, 4, 6, 8, 20, 30, 3, 12, 50, 70, 130}; int k = ks[sim_draw(0, 0, 12)];
  size_t n; switch (sim_draw(1, 0, 5)) { case 0: n = sim_draw(1, 0, 8); break; case 1: n = sim_draw(1, 1, 30); break; case 2: n = sim_draw(1, 500, 540); break; default: n = sim_draw(1, 20, 240); } if (sim_flip(1, 3)) { n = sim_draw(1, 540, 2600); sim_probe(5, "large cloud"); }
  bool huge = sim_draw(1, 0, 699) == 0; if (huge) { n = huge_size(1); k = 5 + k % 6; sim_probe(8, "more than 65000 points"); }
  int kind = (int)sim_draw(1, 0, OR_CLOUD_KINDS - 1); Cloud c = make_cloud(1, n, kind, draw_scale(1));
  // a quarter of the clouds sits in map coordinates, where uncentred second moments cancel
  double off[3] = {0, 0, 0}; int where = (int)sim_draw(1, 0, 7); if (where >= 4) { Pause pz; double r = where < 6 ? 5 * c.scale : pow(10.0, sim_drawd(1, 2, 6.7)); for (int d = 0; d < 3; d++) off[d] = sim_drawd(1, -r, r); for (size_t i = 0; i < n; i++) for (int d = 0; d < 3; d++) c.p[4 * i + d] += off[d]; }
  if (where >= 6) sim_probe(4, "map coordinates");
  auto pc = to_cloud(c); int rounds = huge ? 1 : (int)sim_draw(0, 1, 2);
  sim_sample("estimate %s backend=%s threads=%d k=%d own_tree=%d n=%zu cloud=%s", what == 0 ? "normals" : what == 1 ? "covs" : "both", backend == 0 ? "serial" : backend == 1 ? "omp" : "tbb", threads, k, own, n, or_cloud_name(kind));
  sim_set_nontrivial(n >= 5 && k >= 5); if (n < 5 || k < 5) sim_probe(0, "too few neighbours"); if (n > 512) sim_probe(1, "tree built with tasks");
  for (int rd = 0; rd < rounds; rd++) {  // the second round starts from the values of the first one
    if (rd) { k = ks[sim_draw(0, 0, 12)]; what = (int)sim_draw(0, 0, 2); sim_probe(2, "re-estimation on used cloud"); if (n && sim_flip(0, 40)) { Pause pz; int m = (int)sim_draw(3, 0, 2); double f = m == 0 ? -1 : 0.5; for (size_t i = 0; i < n; i++) { double x = c.p[4 * i], y = c.p[4 * i + 1], z = c.p[4 * i + 2]; if (m == 2) { c.p[4 * i] = y; c.p[4 * i + 1] = z; c.p[4 * i + 2] = x; } else { c.p[4 * i] = f * x; c.p[4 * i + 1] = y; c.p[4 * i + 2] = z; } for (int d = 0; d < 3; d++) pc->points[i].data()[d] = c.p[4 * i + d]; } sim_probe(6, "points moved in place between the rounds"); } }
    run_est(*pc, backend, what, k, threads, own, pc);
    if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
    Pause pz;
    if (pc->size() != n || pc->normals.size() != n || pc->covs.size() != n) sim_violation("input-modified", "cloud of %zu points has %zu points, %zu normals, %zu covariances", n, pc->size(), pc->normals.size(), pc->covs.size());
    size_t kk = (size_t)k; size_t* idx = (size_t*)malloc(8 * (kk + 2)); double* sq = (double*)malloc(8 * (kk + 2)); size_t ties = 0;
    for (size_t i = 0; i < n; i++) {
      if (huge && i % 997 && i % 4096 > 1 && i + 3 < n) continue;  // a sample of the points is compared
      const double* q = c.p + 4 * i;
      for (int d = 0; d < 3; d++) if (memcmp(&q[d], &pc->points[i].data()[d], 8)) sim_violation("input-modified", "point %zu was changed", i);
      double N[4], C[16]; for (int d = 0; d < 4; d++) N[d] = pc->normals[i].data()[d]; for (int r = 0; r < 4; r++) for (int s = 0; s < 4; s++) C[r * 4 + s] = pc->covs[i].data()[s * 4 + r];
      if (what != 1) sim_digest_bytes(N, 32); if (what != 0) sim_digest_bytes(C, 128);
      size_t m = or_knn(c.p, n, q, kk + 1, idx, sq); size_t f = m < kk ? m : kk;
      if (f < 5) {
        if (what != 1) for (int d = 0; d < 4; d++) if (N[d] != 0) sim_violation("wrong-normal", "point %zu has only %zu neighbours but normal (%g %g %g %g) instead of zero", i, f, N[0], N[1], N[2], N[3]);
        if (what != 0) for (int r = 0; r < 4; r++) for (int s = 0; s < 4; s++) if (C[r * 4 + s] != (r == s && r < 3 ? 1.0 : 0.0)) sim_violation("wrong-covariance", "point %zu has only %zu neighbours but covariance (%d,%d)=%g is not the identity", i, f, r, s, C[r * 4 + s]);
        continue;
      }
      bool tie = m > kk && sq[kk] - sq[kk - 1] <= 1e-9 * sq[kk] + 1e-300; ties += tie;
      double mu[3] = {0, 0, 0}, A[9] = {0}, w[3], V[9], mag = 0, ext = 0;
      for (size_t j = 0; j < f; j++) for (int d = 0; d < 3; d++) { double x = c.p[4 * idx[j] + d]; mu[d] += x / f; if (fabs(x) > mag) mag = fabs(x); if (fabs(x - q[d]) > ext) ext = fabs(x - q[d]); }
      for (size_t j = 0; j < f; j++) for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) A[r * 3 + s] += (c.p[4 * idx[j] + r] - mu[r]) * (c.p[4 * idx[j] + s] - mu[s]) / f;
      or_eig3(A, w, V); double tol = 1e-6 * w[2] + 1e-12 * ext * ext + 1e-28 * mag * mag + 1e-300;
      if (what != 1) {
        double nn = N[0] * N[0] + N[1] * N[1] + N[2] * N[2];
        if (!(fabs(nn - 1) < 1e-6) || N[3] != 0) sim_violation("wrong-normal", "normal of point %zu is not a unit vector: (%g %g %g %g)", i, N[0], N[1], N[2], N[3]);
        double dp = N[0] * q[0] + N[1] * q[1] + N[2] * q[2]; if (dp > 1e-9 * (mag + 1)) sim_violation("wrong-normal", "normal of point %zu points away from the viewpoint (p.n = %g)", i, dp);
        if (!tie) { double ra = 0; for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) ra += N[r] * A[r * 3 + s] * N[s]; if (!(ra <= w[0] + tol)) sim_violation("wrong-normal", "normal of point %zu has neighbourhood variance %.9g, the least is %.9g (next %.9g; k=%d n=%zu)", i, ra, w[0], w[1], k, n); }
      }
      if (what != 0) {
        double P[9], tr = 0; for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) { P[r * 3 + s] = ((r == s) - C[r * 4 + s]) / 0.999; if (!(fabs(C[r * 4 + s] - C[s * 4 + r]) <= 1e-9)) sim_violation("wrong-covariance", "covariance of point %zu is not symmetric", i); }
        for (int r = 0; r < 4; r++) if (C[r * 4 + 3] != 0 || C[12 + r] != 0) sim_violation("wrong-covariance", "covariance of point %zu has a non-zero homogeneous row or column", i);
        for (int r = 0; r < 3; r++) tr += P[r * 3 + r];
        double worst = fabs(tr - 1); for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) { double x = 0; for (int u = 0; u < 3; u++) x += P[r * 3 + u] * P[u * 3 + s]; x = fabs(x - P[r * 3 + s]); if (!(x <= worst)) worst = x; }
        if (!(worst < 1e-6)) sim_violation("wrong-covariance", "covariance of point %zu is not the regularised form with eigenvalues (1e-3, 1, 1): deviation %g", i, worst);
        if (!tie) { double ra = 0; for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) ra += P[r * 3 + s] * A[r * 3 + s]; if (!(ra <= w[0] + tol)) sim_violation("wrong-covariance", "small axis of the covariance of point %zu has neighbourhood variance %.9g, the least is %.9g (next %.9g; k=%d n=%zu)", i, ra, w[0], w[1], k, n); }
      }
    }
    if (n && ties < n) sim_probe(3, "exact neighbourhood compared"); free(idx); free(sq);
  }
}
