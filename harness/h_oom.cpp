// C09 allocation failure surfaces as an exception or not at all; inputs unchanged, nothing leaked, retry works
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <random>
#include <cmath>
#include <new>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C09", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
using H6 = Eigen::Matrix<double, 6, 6>;
enum { NOPS = 12 };
static const char* op_name[NOPS] = {"KdTree", "UnsafeKdTree", "voxelmap construction", "voxelgrid", "random sampling", "features", "features with tree", "preprocess_points", "align", "align raw points", "sort", "cloud construction"};
static Cloud raw; static std::shared_ptr<PointCloud> pc, tgt, src; static std::shared_ptr<KdTree<PointCloud>> tree; static std::shared_ptr<GaussianVoxelMap> vm; static std::vector<Eigen::Vector3d>* vt; static std::vector<Eigen::Vector3d>* vs;
struct Out { double* v; size_t n, cap; bool ok; double tol; bool signs; };
static void put(Out& o, const double* p, size_t n) { Pause pz; if (o.n + n > o.cap) { o.cap = (o.n + n) * 2 + 64; o.v = (double*)realloc(o.v, 8 * o.cap); } memcpy(o.v + o.n, p, 8 * n); o.n += n; }
static void put1(Out& o, double x) { put(o, &x, 1); }
struct Op { int kind, backend, threads, variant; uint64_t seed; };
template <typename T> static void queries(const T& t, const Op& o, Out& out) { for (int q = 0; q < 6; q++) { Eigen::Vector4d p; for (int d = 0; d < 3; d++) p.data()[d] = ((double)(sim_rand64(o.seed, q * 3 + d) % 1000000) / 1e6 - 0.5) * 12; p.data()[3] = 1; size_t idx[8]; double sq[8]; size_t f = t.knn_search(p, 1 + q, idx, sq); put1(out, f); for (size_t i = 0; i < f; i++) { put1(out, idx[i]); put1(out, sq[i]); } } }
static void cloud(const PointCloud& c, bool feat, Out& out) { put1(out, c.size()); if (c.size()) { put(out, c.points[0].data(), 4 * c.size()); if (feat) { put(out, c.normals[0].data(), 4 * c.size()); put(out, c.covs[0].data(), 16 * c.size()); } } }
static void result(const RegistrationResult& r, Out& out) { { Pause pz; Eigen::SelfAdjointEigenSolver<H6> es(r.H); out.ok = r.num_inliers >= 12 && es.eigenvalues()[0] > 1e-5 * es.eigenvalues()[5]; } put(out, r.T_target_source.data(), 16); out.tol = 1e-5; }
template <typename F, typename R, typename T, typename Tr> static RegistrationResult reg(const T& t, const Tr& tr, int nt) { Registration<F, R> r; if constexpr (std::is_same_v<R, ParallelReductionOMP>) r.reduction.num_threads = nt; r.optimizer.max_iterations = 5; return r.align(t, *src, tr, Eigen::Isometry3d::Identity()); }
template <typename F, typename T, typename Tr> static RegistrationResult regb(const Op& o, const T& t, const Tr& tr) { return o.backend == 0 ? reg<F, SerialReduction>(t, tr, 1) : o.backend == 1 ? reg<F, ParallelReductionOMP>(t, tr, o.threads) : reg<F, ParallelReductionTBB>(t, tr, 1); }
static uint64_t hashb(const void* p, size_t n) { const uint64_t* q = (const uint64_t*)p; uint64_t h = n; for (size_t i = 0; i < n / 8; i++) { h ^= q[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
static uint64_t hashc(const PointCloud& c) { return c.size() ? hashb(c.points.data(), 32 * c.size()) * 7 + hashb(c.normals.data(), 32 * c.size()) * 5 + hashb(c.covs.data(), 128 * c.size()) : 1; }
static uint64_t world() { Pause pz; uint64_t h = hashc(*pc) ^ hashc(*tgt) * 3 ^ hashc(*src) * 5; h ^= hashb(tree->kdtree.indices.data(), 8 * tree->kdtree.indices.size()) ^ hashb(vm->flat_voxels.data(), 0) ^ vm->flat_voxels.size(); for (auto& v : vm->flat_voxels) h = h * 31 + hashb(v->second.mean.data(), 32) + hashb(v->second.cov.data(), 128); if (vt->size()) h ^= hashb(vt->data(), 24 * vt->size()) ^ hashb(vs->data(), 24 * vs->size()); return h; }
static void exec(const Op& o, Out& out) {
  out.ok = true; out.tol = 1e-8; out.signs = false; out.n = 0;
  switch (o.kind) {
    case 0: case 1: { KdTreeBuilder b0; KdTreeBuilderOMP b1(o.threads); KdTreeBuilderTBB b2; b0.max_leaf_size = b1.max_leaf_size = b2.max_leaf_size = 1 + (o.variant & 7) * 3; out.tol = 0;
      if (o.kind == 0) { if (o.backend == 0) { KdTree<PointCloud> t(pc, b0); queries(t, o, out); } else if (o.backend == 1) { KdTree<PointCloud> t(pc, b1); queries(t, o, out); } else { KdTree<PointCloud> t(pc, b2); queries(t, o, out); } }
      else { if (o.backend == 0) { UnsafeKdTree<PointCloud> t(*pc, b0); queries(t, o, out); } else if (o.backend == 1) { UnsafeKdTree<PointCloud> t(*pc, b1); queries(t, o, out); } else { UnsafeKdTree<PointCloud> t(*pc, b2); queries(t, o, out); } } break; }
    case 2: { if (o.variant & 1) { auto m = create_gaussian_voxelmap(*tgt, 0.8 + 0.1 * (o.variant & 7)); queries(*m, o, out); } else { IncrementalVoxelMap<FlatContainerNormalCov> m(1.0); m.set_search_offsets(27); m.insert(*tgt); m.insert(*src); queries(m, o, out); } break; }
    case 3: { double leaf = 0.3 + 0.1 * (o.variant & 7); auto r = o.backend == 0 ? voxelgrid_sampling(*pc, leaf) : o.backend == 1 ? voxelgrid_sampling_omp(*pc, leaf, o.threads) : voxelgrid_sampling_tbb(*pc, leaf); cloud(*r, false, out); break; }
    case 4: { std::mt19937 mt((uint32_t)o.seed); auto r = random_sampling(*pc, 3 + (size_t)o.variant * 20, mt); cloud(*r, false, out); break; }
    case 5: { Pause* z = new Pause; std::unique_ptr<PointCloud> c(new PointCloud(*pc)); delete z; int k = 6 + (o.variant & 7); auto fin = [&] { for (size_t i = 0; i < c->size(); i++) if (memcmp(c->points[i].data(), pc->points[i].data(), 32)) sim_violation("input-modified", "features: point %zu was changed", i); };
      try { if (o.backend == 0) { if (o.variant & 8) estimate_normals(*c, k); else estimate_normals_covariances(*c, k); } else if (o.backend == 1) { if (o.variant & 8) estimate_covariances_omp(*c, k, o.threads); else estimate_normals_covariances_omp(*c, k, o.threads); } else { if (o.variant & 8) estimate_covariances_tbb(*c, k); else estimate_normals_covariances_tbb(*c, k); } } catch (...) { fin(); Pause pz; c.reset(); throw; }
      fin(); cloud(*c, true, out); out.tol = 0; Pause pz; c.reset(); break; }
    case 6: { Pause* z = new Pause; std::unique_ptr<PointCloud> c(new PointCloud(*tgt)); delete z; int k = 6 + (o.variant & 7);
      try { if (o.backend == 0) estimate_normals_covariances(*c, *tree, k); else if (o.backend == 1) estimate_normals_omp(*c, *tree, k, o.threads); else estimate_normals_covariances_tbb(*c, *tree, k); } catch (...) { Pause pz; c.reset(); throw; }
      cloud(*c, true, out); out.tol = 0; Pause pz; c.reset(); break; }
    case 7: { auto r = o.variant & 1 ? preprocess_points(*pc, 0.4 + 0.05 * o.variant, 10, o.backend ? o.threads : 1) : preprocess_points(*vt, 0.4 + 0.05 * o.variant, 10, o.backend ? o.threads : 1); cloud(*r.first, true, out); out.tol = 1e-6; out.signs = true; size_t idx[4]; double sq[4]; put1(out, r.second->knn_search(tgt->points[0], 3, idx, sq)); break; }
    case 8: { RegistrationResult r(Eigen::Isometry3d::Identity()); if (o.variant & 8) { RegistrationSetting s; s.num_threads = o.threads; s.max_iterations = 5; s.type = (RegistrationSetting::RegistrationType)(o.variant & 3); r = s.type == RegistrationSetting::VGICP ? align(*vm, *src, Eigen::Isometry3d::Identity(), s) : align(*tgt, *src, *tree, Eigen::Isometry3d::Identity(), s); } else switch (o.variant & 3) { case 0: r = regb<ICPFactor>(o, *tgt, *tree); break; case 1: r = regb<PointToPlaneICPFactor>(o, *tgt, *tree); break; case 2: r = regb<GICPFactor>(o, *tgt, *tree); break; default: r = regb<GICPFactor>(o, *vm, *vm); } result(r, out); break; }
    case 9: { RegistrationSetting s; s.num_threads = o.backend ? o.threads : 1; s.type = (RegistrationSetting::RegistrationType)(o.variant & 3); s.downsampling_resolution = 0.02; s.max_iterations = 5; s.voxel_resolution = 1.5; result(align(*vt, *vs, Eigen::Isometry3d::Identity(), s), out); break; }
    case 10: { uint64_t* v; size_t n = 900 + o.seed % 700; { Pause pz; v = (uint64_t*)malloc(8 * n); for (size_t i = 0; i < n; i++) v[i] = sim_rand64(o.seed, i) % (o.variant & 1 ? 40 : 1ull << 40); }
      auto fin = [&](bool sorted) { Pause pz; std::vector<uint64_t> w(n); for (size_t i = 0; i < n; i++) w[i] = sim_rand64(o.seed, i) % (o.variant & 1 ? 40 : 1ull << 40); std::sort(w.begin(), w.end()); if (!sorted) std::sort(v, v + n); for (size_t i = 0; i < n; i++) if (v[i] != w[i]) sim_violation(sorted ? "wrong-result" : "input-modified", sorted ? "sort: element %zu wrong" : "sort: after the failed call the range holds other elements (%zu)", i); free(v); };
      try { if (o.backend == 0) quick_sort_omp(v, v + n, std::less<uint64_t>(), o.threads); else if (o.backend == 1) merge_sort_omp(v, v + n, std::less<uint64_t>(), o.threads); else radix_sort_tbb(v, v + n, [](uint64_t x) { return x; }); } catch (...) { fin(false); throw; } fin(true); break; }
    default: { if (o.variant & 1) { PointCloud c(*vt); cloud(c, false, out); } else { PointCloud c(*pc); c.resize(c.size() + 5); c.resize(3); cloud(c, true, out); } break; }
  }
}
static void compare(const Op& o, const Out& a, const Out& b, const char* when) {
  Pause pz; const char* w = op_name[o.kind]; if (a.n != b.n) sim_violation("wrong-result", "%s (backend %d) %s: %zu values, normally %zu", w, o.backend, when, a.n, b.n);
  if (!b.ok) return; for (size_t i = 0; i < a.n; i++) { double x = a.v[i], y = b.v[i]; if (x == y || (x != x && y != y)) continue; if (a.signs && std::fabs(std::fabs(x) - std::fabs(y)) <= a.tol * (1 + std::fabs(y))) continue; if (!(std::fabs(x - y) <= a.tol * (1 + std::fabs(y)))) sim_violation("wrong-result", "%s (backend %d) %s: value %zu is %.17g, normally %.17g", w, o.backend, when, i, x, y); }
}
extern "C" void harness_run(const char*) {
  size_t n = sim_draw(1, 60, 420); bool big = sim_flip(1, 4); if (big) { n = sim_draw(1, 600, 1024); sim_probe(9, "large cloud"); } static const int kinds[] = {10, 0, 7, 1}; raw = make_cloud(1, n, kinds[sim_draw(1, 0, 3)], 6.0); sim_set_tbb_concurrency((int)sim_draw(0, 1, 5)); if (sim_flip(0, 25)) sim_set_max_workers((int)sim_draw(0, 1, 3)); sim_alloc_outside_omp(1);
  { Pause pz; Cloud t = raw; t.n = n < 130 || big ? n : 130; pc = to_cloud(raw); tgt = to_cloud(t); estimate_normals_covariances(*tgt, 10); tree = std::make_shared<KdTree<PointCloud>>(tgt); vm = std::make_shared<GaussianVoxelMap>(1.2); vm->insert(*tgt); src = std::make_shared<PointCloud>(*tgt); for (auto& p : src->points) { p.data()[0] += 0.06; p.data()[1] -= 0.03; } vt = new std::vector<Eigen::Vector3d>; vs = new std::vector<Eigen::Vector3d>; for (auto& p : tgt->points) vt->emplace_back(p.data()[0], p.data()[1], p.data()[2]); for (auto& p : src->points) vs->emplace_back(p.data()[0], p.data()[1], p.data()[2]); }
  uint64_t w0 = world(); int rounds = (int)sim_draw(0, 1, 4); int threw = 0;
  for (int r = 0; r < rounds; r++) {
    int g = 10 + r; Op o; o.kind = (int)sim_draw(g, 0, NOPS - 1); o.backend = (int)sim_draw(g, 0, 2); o.threads = (int)sim_draw(g, 1, 4); o.variant = (int)sim_draw(g, 0, 15); o.seed = sim_draw(g, 1, 1000000); int tries = (int)sim_draw(g, 1, 3); if (!sim_op_enabled(r)) continue;
    if (r == 0) sim_sample("%s backend=%d variant=%d n=%zu rounds=%d", op_name[o.kind], o.backend, o.variant, n, rounds);
    static Out ref, got; uint64_t c0 = sim_alloc_eligible(); exec(o, ref); uint64_t na = sim_alloc_eligible() - c0;
    if (world() != w0) sim_violation("input-modified", "%s changed its input", op_name[o.kind]);
    for (int t = 0; t < tries; t++) {
      uint64_t k = sim_draw(g, 0, na ? na + 1 : 1); int burst = sim_flip(g, 25) ? (int)sim_draw(g, 2, 40) : 1; sim_quiesce(); uint64_t live = sim_heap_live_blocks(); bool ok = true; sim_alloc_arm(k, burst);
      try { exec(o, got); } catch (const std::bad_alloc&) { ok = false; } catch (const std::exception& e) { sim_alloc_disarm(); sim_violation("wrong-exception", "%s: the allocation failure surfaced as %s", op_name[o.kind], e.what()); }
      int fired = sim_alloc_disarm(); sim_quiesce(); if (fired) sim_probe(20 + o.kind, op_name[o.kind]);
      if (!ok && !fired) sim_violation("wrong-exception", "%s threw bad_alloc although no allocation failed", op_name[o.kind]);
      if (sim_heap_live_blocks() != live) sim_violation("leak", "%s (backend %d): %lld blocks left allocated after the %s call", op_name[o.kind], o.backend, (long long)(sim_heap_live_blocks() - live), ok ? "successful" : "failed");
      if (world() != w0) sim_violation("input-modified", "%s (backend %d): an input cloud or an existing structure was changed by the failed call", op_name[o.kind], o.backend);
      if (sim_omp_active_teams()) sim_violation("work-left-behind", "%s: a parallel region is still active after the failed call", op_name[o.kind]);
      if (ok) { compare(o, got, ref, fired ? "with a failed allocation that was not reported" : "without a fault"); if (fired) sim_probe(1, "failure survived with the right result"); } else { threw++; sim_probe(0, "out-of-memory exception"); }
      sim_digest(ok);
    }
    exec(o, got); compare(o, got, ref, "when repeated after the failure"); Pause pz; sim_digest_bytes(ref.v, 8 * (ref.n < 200 ? ref.n : 200));
  }
  sim_set_nontrivial(threw > 0);
}
