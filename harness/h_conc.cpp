// C10 concurrent callers sharing read-only data get what they get when run alone
#include "common.hpp"
#include <iostream>
#include <algorithm>
#include <random>
#include <cmath>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <pcl/console/print.h>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C10", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS); }
using FlatMap = IncrementalVoxelMap<FlatContainerNormalCov>;
using H6 = Eigen::Matrix<double, 6, 6>;
struct Shared_ { Cloud raw; std::shared_ptr<PointCloud> tgt, src, rawpc; std::shared_ptr<KdTree<PointCloud>> tree; std::shared_ptr<UnsafeKdTree<PointCloud>> utree; std::shared_ptr<GaussianVoxelMap> vm; std::shared_ptr<FlatMap> fm; std::shared_ptr<ProjectiveSearch<PointCloud>> proj; pcl::PointCloud<pcl::PointXYZ>::Ptr ptgt; };
static Shared_ sh;
static pcl::PointCloud<pcl::PointXYZ>::Ptr to_pcl(const PointCloud& c) { auto p = pcl::make_shared<pcl::PointCloud<pcl::PointXYZ>>(); p->resize(c.size()); for (size_t i = 0; i < c.size(); i++) { p->points[i].x = (float)c.points[i].data()[0]; p->points[i].y = (float)c.points[i].data()[1]; p->points[i].z = (float)c.points[i].data()[2]; } return p; }
enum { NOPS = 15, MAXOPS = 3, MAXC = 4 };
static const char* op_name[NOPS] = {"tree queries", "voxelmap queries", "flat map queries", "preprocess_points", "features", "align", "voxelgrid", "random sampling", "tree construction", "voxelmap construction", "linearise", "align raw", "PCL align", "sort", "projective search"};
// what one operation returned: values that must match exactly, and values that may differ by summation order
struct Out { std::vector<double> exact, approx; bool ok = true; double tol = 1e-8; bool sign_free = false; };
struct Op { int kind, g, backend, threads, variant; uint64_t seed; Out out, alone; Cloud own; std::shared_ptr<PointCloud> cloud, src; pcl::PointCloud<pcl::PointXYZ>::Ptr psrc; };
struct Caller { int nops; Op op[MAXOPS]; };
static void put(std::vector<double>& v, const double* p, size_t n) { Pause pz; v.insert(v.end(), p, p + n); }
static void put1(std::vector<double>& v, double x) { put(v, &x, 1); }
template <typename M> static void query(const M& m, const Op& o, std::vector<double>& out) {
  for (int q = 0; q < 6; q++) {
    Eigen::Vector4d p; for (int d = 0; d < 3; d++) p.data()[d] = ((double)(sim_rand64(o.seed, q * 3 + d) % 1000000) / 1e6 - 0.5) * 12; p.data()[3] = 1;
    size_t k = 1 + sim_rand64(o.seed, 100 + q) % 12; size_t idx[16]; double sq[16]; size_t f;
    if (q % 3 == 0) { f = traits::nearest_neighbor_search(m, p, idx, sq); } else f = traits::knn_search(m, p, k, idx, sq);
    put1(out, (double)f); for (size_t i = 0; i < f; i++) { put1(out, (double)idx[i]); put1(out, sq[i]); put(out, traits::point(m, idx[i]).data(), 4); }
  }
}
// UnsafeKdTree / KdTree have no traits::point
template <typename T> static void query_tree(const T& t, const Op& o, std::vector<double>& out) {
  for (int q = 0; q < 8; q++) {
    Eigen::Vector4d p; for (int d = 0; d < 3; d++) p.data()[d] = ((double)(sim_rand64(o.seed, q * 3 + d) % 1000000) / 1e6 - 0.5) * 12; p.data()[3] = 1; size_t k = 1 + sim_rand64(o.seed, 100 + q) % 12; size_t idx[16]; double sq[16];
    size_t f = q % 4 == 0 ? t.nearest_neighbor_search(p, idx, sq) : t.knn_search(p, k, idx, sq);
    put1(out, (double)f); for (size_t i = 0; i < f; i++) { put1(out, (double)idx[i]); put1(out, sq[i]); }
  }
}
static void put_cloud(Out& o, const PointCloud& c, bool features) { put1(o.exact, (double)c.size()); if (c.size()) { put(o.approx, c.points[0].data(), 4 * c.size()); if (features) { put(o.approx, c.normals[0].data(), 4 * c.size()); put(o.approx, c.covs[0].data(), 16 * c.size()); } } }
template <typename F, typename R, typename T, typename Tr> static RegistrationResult reg(const T& t, const PointCloud& s, const Tr& tree, int nt, const Eigen::Isometry3d& init) { Registration<F, R> r; if constexpr (std::is_same_v<R, ParallelReductionOMP>) r.reduction.num_threads = nt; r.optimizer.max_iterations = 8; return r.align(t, s, tree, init); }
template <typename F, typename T, typename Tr> static RegistrationResult regb(const Op& o, const T& t, const PointCloud& s, const Tr& tree, const Eigen::Isometry3d& init) { return o.backend == 0 ? reg<F, SerialReduction>(t, s, tree, 1, init) : o.backend == 1 ? reg<F, ParallelReductionOMP>(t, s, tree, o.threads, init) : reg<F, ParallelReductionTBB>(t, s, tree, 1, init); }
static void put_result(Out& o, const RegistrationResult& r) { Pause pz; Eigen::SelfAdjointEigenSolver<H6> es(r.H); o.ok = r.num_inliers >= 12 && es.eigenvalues()[0] > 1e-5 * es.eigenvalues()[5]; put(o.approx, r.T_target_source.data(), 16); }
template <typename F> static void lin(const Op& o, Out& out, const Eigen::Isometry3d& T) {
  std::vector<F> f(sh.src->size()); DistanceRejector rej; rej.max_dist_sq = 1.0; std::tuple<H6, Eigen::Matrix<double, 6, 1>, double> r; double e;
  if (o.backend == 0) { SerialReduction x; r = x.linearize(*sh.tgt, *sh.src, *sh.tree, rej, T, f); e = x.error(*sh.tgt, *sh.src, T, f); } else if (o.backend == 1) { ParallelReductionOMP x; x.num_threads = o.threads; r = x.linearize(*sh.tgt, *sh.src, *sh.tree, rej, T, f); e = x.error(*sh.tgt, *sh.src, T, f); } else { ParallelReductionTBB x; r = x.linearize(*sh.tgt, *sh.src, *sh.tree, rej, T, f); e = x.error(*sh.tgt, *sh.src, T, f); }
  put(out.approx, std::get<0>(r).data(), 36); put1(out.approx, std::get<2>(r)); put1(out.approx, e); for (auto& x : f) put1(out.exact, x.inlier() ? 1 : 0); put(o.backend ? out.approx : out.exact, std::get<1>(r).data(), 6);
}
static void exec(Op& o, Out& out) {
  Eigen::Isometry3d I = Eigen::Isometry3d::Identity();
  switch (o.kind) {
    case 0: if (o.variant & 1) query_tree(*sh.tree, o, out.exact); else query_tree(*sh.utree, o, out.exact); break;
    case 1: query(*sh.vm, o, out.exact); break;
    case 2: query(*sh.fm, o, out.exact); break;
    case 3: { auto r = preprocess_points(*o.cloud, 0.4 + 0.1 * (o.variant & 3), 10, o.backend ? o.threads : 1); put_cloud(out, *r.first, true); out.tol = 1e-6; break; }
    case 4: { PointCloud c = *o.cloud; int k = 8 + (o.variant & 3); if (o.backend == 0) { if (o.variant & 4) estimate_normals(c, k); else estimate_normals_covariances(c, k); } else if (o.backend == 1) { if (o.variant & 4) estimate_covariances_omp(c, k, o.threads); else estimate_normals_covariances_omp(c, k, o.threads); } else { if (o.variant & 4) estimate_normals_tbb(c, k); else estimate_normals_covariances_tbb(c, k); } put(out.exact, c.points[0].data(), 4 * c.size()); put(out.exact, c.normals[0].data(), 4 * c.size()); put(out.exact, c.covs[0].data(), 16 * c.size()); break; }
    case 5: { RegistrationResult r(I); switch (o.variant & 3) { case 0: r = regb<ICPFactor>(o, *sh.tgt, *o.src, *sh.tree, I); break; case 1: r = regb<PointToPlaneICPFactor>(o, *sh.tgt, *o.src, *sh.tree, I); break; case 2: r = regb<GICPFactor>(o, *sh.tgt, *o.src, *sh.tree, I); break; default: r = regb<GICPFactor>(o, *sh.vm, *o.src, *sh.vm, I); } put_result(out, r); out.tol = 1e-5; break; }
    case 6: { double leaf = 0.35 + 0.1 * (o.variant & 3); auto r = o.backend == 0 ? voxelgrid_sampling(*sh.rawpc, leaf) : o.backend == 1 ? voxelgrid_sampling_omp(*sh.rawpc, leaf, o.threads) : voxelgrid_sampling_tbb(*sh.rawpc, leaf); put_cloud(out, *r, false); break; }
    case 7: { std::mt19937 mt((uint32_t)o.seed); auto r = random_sampling(*sh.rawpc, 5 + (size_t)o.variant * 20, mt); put1(out.exact, (double)r->size()); if (r->size()) put(out.exact, r->points[0].data(), 4 * r->size()); break; }
    case 8: { KdTreeBuilder b0; KdTreeBuilderOMP b1(o.threads); KdTreeBuilderTBB b2; int ls = 1 + (o.variant & 7) * 3; b0.max_leaf_size = b1.max_leaf_size = b2.max_leaf_size = ls; if (o.backend == 0) { KdTree<PointCloud> t(sh.rawpc, b0); query_tree(t, o, out.exact); } else if (o.backend == 1) { KdTree<PointCloud> t(sh.rawpc, b1); query_tree(t, o, out.exact); } else { KdTree<PointCloud> t(sh.rawpc, b2); query_tree(t, o, out.exact); } break; }
    case 9: { auto m = create_gaussian_voxelmap(*sh.tgt, 0.9 + 0.2 * (o.variant & 3)); query(*m, o, out.exact); break; }
    case 10: { Eigen::Isometry3d T = I; T.matrix().data()[12] = 0.03 * (o.variant & 3); switch (o.variant % 3) { case 0: lin<ICPFactor>(o, out, T); break; case 1: lin<PointToPlaneICPFactor>(o, out, T); break; default: lin<GICPFactor>(o, out, T); } break; }
    case 12: { RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> r; r.setNumThreads(o.backend ? o.threads : 1); r.setNumNeighborsForCovariance(8 + (o.variant & 3)); r.setMaximumIterations(6); r.setMaxCorrespondenceDistance(1.0); if (o.variant & 4) { r.setRegistrationType("VGICP"); r.setVoxelResolution(1.2); } r.setInputTarget(sh.ptgt); r.setInputSource(o.psrc); pcl::PointCloud<pcl::PointXYZ> al; r.align(al); put_result(out, r.getRegistrationResult()); { Pause pz; for (auto& c : r.getTargetCovariances()) put(out.exact, c.data(), 16); } out.tol = 1e-4; break; }
    case 13: { size_t n = 1 + o.seed % (o.seed % 5 ? 1500 : 4000); std::vector<std::pair<uint64_t, size_t>> v; { Pause pz; v.resize(n); for (size_t i = 0; i < n; i++) v[i] = {sim_rand64(o.seed, i) % (o.variant & 1 ? 50 : 1000000), i}; } auto less = [](const auto& a, const auto& b) { return a.first < b.first; }; if (o.backend == 0) merge_sort_omp(v.begin(), v.end(), less, o.threads); else if (o.backend == 1) quick_sort_omp(v.begin(), v.end(), less, o.threads); else radix_sort_tbb(v.data(), v.data() + n, [](const std::pair<uint64_t, size_t>& p) { return (uint32_t)p.first; }); Pause pz; for (auto& p : v) { out.exact.push_back((double)p.first); if (o.backend == 2) out.exact.push_back((double)p.second); } break; }
    case 14: if (o.variant & 3) query_tree(*sh.proj, o, out.exact); else { auto r = regb<GICPFactor>(o, *sh.tgt, *sh.src, *sh.proj, I); put_result(out, r); out.tol = 1e-5; } break;
    default: { RegistrationSetting s; s.num_threads = o.backend ? o.threads : 1; s.type = (RegistrationSetting::RegistrationType)(o.variant & 3); s.downsampling_resolution = 0.02; s.max_iterations = 6; s.voxel_resolution = 1.5; std::vector<Eigen::Vector3d> a, b; { Pause pz; for (auto& p : sh.tgt->points) a.emplace_back(p.data()[0], p.data()[1], p.data()[2]); for (auto& p : o.src->points) b.emplace_back(p.data()[0], p.data()[1], p.data()[2]); } put_result(out, align(a, b, I, s)); out.tol = 1e-5; }
  }
}
static void caller(void* a) { Caller* c = (Caller*)a; for (int i = 0; i < c->nops; i++) exec(c->op[i], c->op[i].out); }
static void compare(const Op& o, int who) {
  const Out &a = o.out, &b = o.alone; const char* w = op_name[o.kind];
  if (a.exact.size() != b.exact.size() || a.approx.size() != b.approx.size()) sim_violation("caller-interference", "caller %d: %s (backend %d) returned %zu + %zu values, alone %zu + %zu", who, w, o.backend, a.exact.size(), a.approx.size(), b.exact.size(), b.approx.size());
  for (size_t i = 0; i < a.exact.size(); i++) if (memcmp(&a.exact[i], &b.exact[i], 8) && !(a.exact[i] == b.exact[i])) sim_violation("caller-interference", "caller %d: %s (backend %d): value %zu is %.17g, alone %.17g", who, w, o.backend, i, a.exact[i], b.exact[i]);
  if (b.ok) for (size_t i = 0; i < a.approx.size(); i++) { double x = a.approx[i], y = b.approx[i]; if (x == y || (x != x && y != y)) continue; double m = 1; if (o.kind == 10) { m = 0; for (double v : b.approx) m = std::max(m, std::fabs(v)); } if (!(std::fabs(x - y) <= a.tol * m * (1 + std::fabs(y))) && !(o.kind == 3 && std::fabs(std::fabs(x) - std::fabs(y)) <= a.tol * (1 + std::fabs(y)))) sim_violation("caller-interference", "caller %d: %s (backend %d): value %zu is %.17g, alone %.17g", who, w, o.backend, i, x, y); }
}
extern "C" void harness_run(const char*) {
  int nc = 2 + (int)sim_draw(0, 0, 2); size_t n = sim_draw(1, 80, 500); bool big = sim_flip(1, 5); if (big) { n = sim_draw(1, 960, 1024); sim_probe(5, "large cloud"); } static const int kinds[] = {10, 0, 7, 1}; sh.raw = make_cloud(1, n, kinds[sim_draw(1, 0, 3)], 6.0); sim_set_tbb_concurrency((int)sim_draw(0, 2, 5));
  { Pause pz; Cloud t = sh.raw; t.n = n < 160 || big ? n : 160; sh.rawpc = to_cloud(sh.raw); sh.tgt = to_cloud(t); estimate_normals_covariances(*sh.tgt, 10); sh.tree = std::make_shared<KdTree<PointCloud>>(sh.tgt); sh.utree = std::make_shared<UnsafeKdTree<PointCloud>>(*sh.rawpc); sh.vm = std::make_shared<GaussianVoxelMap>(1.1); sh.vm->insert(*sh.tgt); sh.vm->set_search_offsets(7); sh.fm = std::make_shared<FlatMap>(1.0); sh.fm->insert(*sh.tgt); sh.fm->set_search_offsets(27); sh.src = std::make_shared<PointCloud>(*sh.tgt); for (auto& p : sh.src->points) p.data()[0] += 0.05; sh.ptgt = to_pcl(*sh.tgt); sh.proj = std::make_shared<ProjectiveSearch<PointCloud>>(64, 32, sh.tgt); }
  static Caller cl[MAXC]; int tid[MAXC]; if (sim_flip(0, 25)) sim_set_max_workers((int)sim_draw(0, 1, 3)); bool same = sim_flip(0, 30); int samek = (int)sim_draw(0, 0, NOPS - 1);
  char desc[400]; int dl = 0; int id = 0;
  for (int c = 0; c < nc; c++) {
    cl[c].nops = (int)sim_draw(2, 1, MAXOPS); int kept = 0;
    for (int i = 0; i < cl[c].nops; i++) {
      Op& o = cl[c].op[kept]; int g = 10 + c * 8 + i; o.kind = (int)sim_draw(g, 0, NOPS - 1); if (same) o.kind = samek; o.backend = (int)sim_draw(g, 0, 2); o.threads = (int)sim_draw(g, 1, 4); o.variant = (int)sim_draw(g, 0, 15); o.seed = sim_draw(g, 1, 1000000); if (!sim_op_enabled(id++)) continue; kept++;
      if (o.kind == 3 || o.kind == 4) { o.own = make_cloud(g, big ? sim_draw(g, 900, 1024) : sim_draw(g, 20, 220), 0, 5.0); o.cloud = to_cloud(o.own); }
      if (o.kind == 5 || o.kind == 11 || o.kind == 12) { double xi[6], T[16]; for (int d = 0; d < 6; d++) xi[d] = sim_drawd(g, -1, 1) * (d < 3 ? 0.02 : 0.1); or_se3_exp(xi, T); Pause pz; o.src = std::make_shared<PointCloud>(*sh.tgt); size_t m = big ? o.src->size() : 60 + o.seed % 100; if (m < o.src->size()) o.src->resize(m); for (auto& p : o.src->points) { double q[4]; or_transform(T, p.data(), q); memcpy(p.data(), q, 32); } estimate_normals_covariances(*o.src, 10); if (o.kind == 12) o.psrc = to_pcl(*o.src); }
      if (dl < 300) dl += snprintf(desc + dl, sizeof desc - dl, "%s[%d: %s b%d]", i ? "" : " | ", c, op_name[o.kind], o.backend);
    }
    cl[c].nops = kept;
  }
  sim_sample("callers=%d n=%zu%s", nc, n, desc); sim_set_nontrivial(1); if (same) sim_probe(0, "all callers run the same operation");
  int busy = 0; for (int c = 0; c < nc; c++) for (int i = 0; i < cl[c].nops; i++) busy += cl[c].op[i].backend > 0; if (busy > 1) sim_probe(1, "several callers use worker threads");
  for (int c = 0; c < nc; c++) tid[c] = sim_spawn(caller, &cl[c]);
  for (int c = 0; c < nc; c++) sim_join(tid[c]);
  if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the calls");
  sim_quiesce();
  uint64_t h = 0; for (int c = 0; c < nc; c++) for (int i = 0; i < cl[c].nops; i++) { Op& o = cl[c].op[i]; exec(o, o.alone); Pause pz; compare(o, c); for (double x : o.out.exact) { uint64_t u; memcpy(&u, &x, 8); h = h * 31 + u; } sim_probe(10 + o.kind, op_name[o.kind]); }
  sim_digest(h);
  // the shared data is what it was
  Pause pz; for (size_t i = 0; i < n; i++) if (memcmp(sh.rawpc->points[i].data(), sh.raw.p + 4 * i, 24)) sim_violation("input-modified", "shared point %zu was changed", i);
  for (size_t i = 0; i < sh.tgt->size(); i++) if (memcmp(sh.tgt->points[i].data(), sh.raw.p + 4 * i, 24)) sim_violation("input-modified", "shared target point %zu was changed", i);
}
