// C17 the thread limit is respected everywhere; complete result with fewer threads; nothing left running
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <cmath>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C17", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
static const char* op_name[] = {"KdTreeBuilderOMP", "UnsafeKdTree", "estimate_normals_omp", "estimate_covariances_omp", "estimate_normals_covariances_omp(tree)", "voxelgrid_sampling_omp", "quick_sort_omp", "merge_sort_omp", "ParallelReductionOMP", "preprocess_points", "preprocess_points(vector)", "align(vector)", "align(cloud)", "align(voxelmap)"};
static uint64_t hash_bytes(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; uint64_t h = n; for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull; return h; }
static uint64_t hash_cloud(const PointCloud& c) { uint64_t h = c.size(); if (c.size()) { h ^= hash_bytes(c.points.data(), 32 * c.points.size()); h = h * 31 + hash_bytes(c.normals.data(), 32 * c.normals.size()); h = h * 31 + hash_bytes(c.covs.data(), 128 * c.covs.size()); } return h; }
static void settled(const char* what, uint64_t before, uint64_t after) { if (before != after) sim_violation("work-left-behind", "%s: the result changed after the call had returned", what); }
template <typename Tree> static void check_tree(const Tree& t, const Cloud& c, const char* what) {
  for (int q = 0; q < 4; q++) { Eigen::Vector4d p; size_t i = c.n ? (q * 7919) % c.n : 0; for (int d = 0; d < 3; d++) p.data()[d] = c.n ? c.p[4 * i + d] : 0; p.data()[3] = 1; size_t idx[8]; double sq[8]; size_t f; { Pause pz; f = t.knn_search(p, 8, idx, sq); const char* e = or_check_knn(c.p, c.n, p.data(), 8, f, idx, sq); if (e) sim_violation("incomplete-result", "%s: %s", what, e); } }
}
// Every distinct point occurs once: normals and covariances may be compared with the serial ones
static bool same_mat(const double* a, const double* b, int n, double tol, bool sign) { double s = 0, d1 = 0, d2 = 0; for (int i = 0; i < n; i++) { s = std::max(s, std::fabs(b[i])); d1 = std::max(d1, std::fabs(a[i] - b[i])); d2 = std::max(d2, std::fabs(a[i] + b[i])); if (std::isnan(a[i]) != std::isnan(b[i])) return false; } return d1 <= tol * (s + 1e-300) || (sign && d2 <= tol * (s + 1e-300)); }
static void check_features(const PointCloud& c, const PointCloud& ref, bool nrm, bool cov, const char* what) {
  Pause pz; for (size_t i = 0; i < c.size(); i++) { if (nrm && !same_mat(c.normals[i].data(), ref.normals[i].data(), 4, 1e-6, true)) sim_violation("incomplete-result", "%s: normal of point %zu of %zu differs from the serial one", what, i, c.size()); if (cov && !same_mat(c.covs[i].data(), ref.covs[i].data(), 16, 1e-6, false)) sim_violation("incomplete-result", "%s: covariance of point %zu of %zu differs from the serial one", what, i, c.size()); }
}
static void check_grid(const PointCloud& out, const Cloud& c, double leaf, const char* what) { Pause pz; size_t m = out.size(); double* o = (double*)malloc(32 * (m + 1)); if (m) memcpy(o, out.points.data(), 32 * m); const char* e = or_check_voxelgrid(c.p, c.n, leaf, o, m, 1000, 0); if (e) sim_violation("incomplete-result", "%s: %s", what, e); free(o); }
extern "C" void harness_run(const char*) {
  int nt = sim_flip(0, 35) ? 1 : sim_flip(0, 25) ? 2 : (int)sim_draw(0, 1, 9); int op = (int)sim_draw(0, 0, 13); if (sim_flip(0, 50)) { int cap = (int)sim_draw(0, 1, 5); sim_set_max_workers(cap); if (cap < nt) sim_probe(1, cap == 1 ? "only one thread delivered" : "fewer threads delivered than asked"); if (cap == 1) sim_probe(2, "a single thread delivered"); } sim_set_tbb_concurrency(3); if (nt == 1) sim_probe(0, "num_threads = 1");
  size_t maxn = op >= 8 ? 300 : op >= 2 && op <= 4 ? 500 : 2600; size_t n = op >= 11 ? sim_draw(1, 60, 200) : op >= 8 ? sim_draw(1, 20, maxn) : draw_size(1, maxn); if (n > maxn) n = maxn; if (op >= 2 && op != 5 && op != 6 && op != 7 && sim_flip(1, 10)) { n = sim_draw(1, op <= 4 ? 500 : 300, 2600); sim_probe(3, "large cloud"); }
  static const int kinds[] = {10, 0, 7, 1}; Cloud c = make_cloud(1, n, kinds[sim_draw(1, 0, 3)], op >= 11 ? 6.0 : 5.0); const char* w = op_name[op];
  sim_sample("%s num_threads=%d n=%zu", w, nt, n); sim_set_nontrivial(n > 1);
  if (op <= 1) {
    int leafsz = (int)sim_draw(0, 1, 20); KdTreeBuilderOMP b(nt); b.max_leaf_size = leafsz;
    if (op == 0) { auto pc = to_cloud(c); Guard g(nt, w); KdTree<PointCloud> t(pc, b); g.done(); uint64_t h1, h2; { Pause pz; h1 = hash_bytes(t.kdtree.indices.data(), 8 * t.kdtree.indices.size()) ^ hash_bytes(t.kdtree.nodes.data(), t.kdtree.nodes.size() * sizeof(t.kdtree.nodes[0])); } sim_quiesce(); { Pause pz; h2 = hash_bytes(t.kdtree.indices.data(), 8 * t.kdtree.indices.size()) ^ hash_bytes(t.kdtree.nodes.data(), t.kdtree.nodes.size() * sizeof(t.kdtree.nodes[0])); } settled(w, h1, h2); check_tree(t, c, w); }
    else { auto pc = to_mat(c); Guard g(nt, w); UnsafeKdTree<Eigen::MatrixXd> t(pc, b); g.done(); sim_quiesce(); check_tree(t, c, w); }
  } else if (op <= 4) {
    auto pc = to_cloud(c); auto ref = to_cloud(c); int k = (int)sim_draw(0, 5, 15); { Pause pz; if (n) { KdTree<PointCloud> t(ref); estimate_normals_covariances(*ref, t, k); } } if (!n) return;
    Guard g(nt, w); if (op == 2) estimate_normals_omp(*pc, k, nt); else if (op == 3) estimate_covariances_omp(*pc, k, nt); else { KdTree<PointCloud> t(pc); estimate_normals_covariances_omp(*pc, t, k, nt); } g.done();
    uint64_t h1, h2; { Pause pz; h1 = hash_cloud(*pc); } sim_quiesce(); { Pause pz; h2 = hash_cloud(*pc); } settled(w, h1, h2); check_features(*pc, *ref, op != 3, op != 2, w);
  } else if (op == 5) { auto pc = to_cloud(c); double leaf = 5.0 * (sim_flip(0, 50) ? 0.0713 : 0.317); Guard g(nt, w); auto out = voxelgrid_sampling_omp(*pc, leaf, nt); g.done(); uint64_t h1, h2; { Pause pz; h1 = hash_cloud(*out); } sim_quiesce(); { Pause pz; h2 = hash_cloud(*out); } settled(w, h1, h2); check_grid(*out, c, leaf, w);
  } else if (op <= 7) {
    std::vector<uint64_t> v, r; { Pause pz; v.resize(n); uint64_t m = sim_draw(0, 1, 1000000); for (size_t i = 0; i < n; i++) v[i] = sim_rand64(m, i) % (m & 1 ? 50 : 1u << 30); r = v; std::sort(r.begin(), r.end()); }
    Guard g(nt, w); if (op == 6) quick_sort_omp(v.begin(), v.end(), std::less<uint64_t>(), nt); else merge_sort_omp(v.begin(), v.end(), std::less<uint64_t>(), nt); g.done();
    { Pause pz; if (v != r) sim_violation("incomplete-result", "%s: %zu elements are not sorted", w, n); } sim_quiesce(); Pause pz; if (v != r) sim_violation("work-left-behind", "%s: the range changed after the call had returned", w);
  } else {
    double xi[6] = {0.01, -0.008, 0.012, 0.05, -0.07, 0.04}, T[16], Ti[16]; or_se3_exp(xi, T); or_mat4_inv_rigid(T, Ti); Cloud s = c; { Pause pz; s.p = (double*)malloc(32 * (n + 1)); for (size_t i = 0; i < n; i++) or_transform(Ti, c.p + 4 * i, s.p + 4 * i); }
    std::vector<Eigen::Vector3d> tv, sv; std::shared_ptr<PointCloud> tgt, src; std::shared_ptr<KdTree<PointCloud>> tree; { Pause pz; for (size_t i = 0; i < n; i++) { tv.emplace_back(c.p[4 * i], c.p[4 * i + 1], c.p[4 * i + 2]); sv.emplace_back(s.p[4 * i], s.p[4 * i + 1], s.p[4 * i + 2]); } tgt = to_cloud(c); src = to_cloud(s); estimate_normals_covariances(*tgt, 10); estimate_normals_covariances(*src, 10); tree = std::make_shared<KdTree<PointCloud>>(tgt); }
    if (op == 8) {
      std::vector<GICPFactor> f1(n), f2(n); DistanceRejector rej; ParallelReductionOMP r; r.num_threads = nt; Eigen::Isometry3d I = Eigen::Isometry3d::Identity();
      Guard g(nt, w); auto [H, b, e] = r.linearize(*tgt, *src, *tree, rej, I, f1); double e2 = r.error(*tgt, *src, I, f1); g.done(); sim_quiesce();
      Pause pz; auto [Hr, br, er] = SerialReduction().linearize(*tgt, *src, *tree, rej, I, f2); if (!(std::fabs(e - er) <= 1e-8 * (er + 1e-9)) || !(std::fabs(e2 - er) <= 1e-8 * (er + 1e-9)) || !same_mat(H.data(), Hr.data(), 36, 1e-8, false)) sim_violation("incomplete-result", "%s: sums differ from the serial ones (error %.9g / %.9g, serial %.9g)", w, e, e2, er);
    } else if (op <= 10) {
      double leaf = 0.0713 * (1 + sim_draw(0, 0, 3)); std::vector<Eigen::Vector4f> v4; { Pause pz; if (op == 10) for (auto& p : tv) v4.emplace_back((float)p.data()[0], (float)p.data()[1], (float)p.data()[2], 1.0f); }
      Guard g(nt, w); auto r = op == 9 ? preprocess_points(*tgt, leaf, 10, nt) : sim_flip(0, 50) ? preprocess_points(tv, leaf, 10, nt) : preprocess_points(v4, leaf, 10, nt); g.done();
      uint64_t h1, h2; { Pause pz; h1 = hash_cloud(*r.first); } sim_quiesce(); Pause pz; h2 = hash_cloud(*r.first); settled(w, h1, h2); if (op == 9) check_grid(*r.first, c, leaf, w);
      Cloud d; d.n = r.first->size(); d.p = (double*)r.first->points.data(); check_tree(*r.second, d, w); PointCloud ref = *r.first; estimate_normals_covariances(ref, 10); check_features(*r.first, ref, true, true, w);
    } else {
      RegistrationSetting st; st.num_threads = nt; st.max_iterations = 5; st.type = op == 13 ? RegistrationSetting::VGICP : (RegistrationSetting::RegistrationType)sim_draw(0, 0, op == 11 ? 3 : 2); st.downsampling_resolution = 0.02; st.voxel_resolution = 1.5; RegistrationResult r(Eigen::Isometry3d::Identity());
      std::shared_ptr<GaussianVoxelMap> vm; if (op == 13) { Pause pz; vm = create_gaussian_voxelmap(*tgt, st.voxel_resolution); }
      Guard g(nt, w); if (op == 11) r = align(tv, sv, Eigen::Isometry3d::Identity(), st); else if (op == 12) r = align(*tgt, *src, *tree, Eigen::Isometry3d::Identity(), st); else r = align(*vm, *src, Eigen::Isometry3d::Identity(), st); g.done(); sim_quiesce();
      // complete: the last linearisation saw every point (inliers equal to those of a serial run of the same length)
      Pause pz; sim_set_max_workers(0); RegistrationSetting s1 = st; s1.num_threads = 1; RegistrationResult q(Eigen::Isometry3d::Identity()); if (op == 11) q = align(tv, sv, Eigen::Isometry3d::Identity(), s1); else if (op == 12) q = align(*tgt, *src, *tree, Eigen::Isometry3d::Identity(), s1); else q = align(*vm, *src, Eigen::Isometry3d::Identity(), s1);
      double A[16], B[16]; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) { A[i * 4 + k] = r.T_target_source.data()[k * 4 + i]; B[i * 4 + k] = q.T_target_source.data()[k * 4 + i]; }
      if (q.num_inliers >= 12 && op != 11) { Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> es(q.H); if (es.eigenvalues()[0] > 1e-6 * es.eigenvalues()[5] && !(or_rot_angle_between(A, B) < 1e-5 && or_trans_between(A, B) < 1e-4)) sim_violation("incomplete-result", "%s: pose with %d threads differs from the single-threaded one", w, nt); }
    }
    free(s.p);
  }
}
