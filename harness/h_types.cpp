// C01 C02 C04 C05 C06 C07 C16 with point clouds of other types: PCL clouds and a user-defined container reached only through the traits
#include "common.hpp"
#include <cmath>
#include <iostream>
#include <random>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C01", "C02", "C04", "C05", "C06", "C07", "C16", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
// a user's container: one array per coordinate, single precision, attributes packed; nothing of it is reachable but through the traits
struct UserCloud { std::vector<float> x, y, z; std::vector<float> nrm, cov; size_t num = 0; };
namespace small_gicp { namespace traits {
template <> struct Traits<UserCloud> {
  static size_t size(const UserCloud& c) { return c.num; }
  static void resize(UserCloud& c, size_t n) { c.num = n; c.x.resize(n); c.y.resize(n); c.z.resize(n); c.nrm.resize(3 * n); c.cov.resize(6 * n); }
  static bool has_points(const UserCloud& c) { return c.num; }
  static bool has_normals(const UserCloud& c) { return c.num; }
  static bool has_covs(const UserCloud& c) { return c.num; }
  static Eigen::Vector4d point(const UserCloud& c, size_t i) { return Eigen::Vector4d(c.x[i], c.y[i], c.z[i], 1.0); }
  static Eigen::Vector4d normal(const UserCloud& c, size_t i) { return Eigen::Vector4d(c.nrm[3 * i], c.nrm[3 * i + 1], c.nrm[3 * i + 2], 0.0); }
  static Eigen::Matrix4d cov(const UserCloud& c, size_t i) { const float* a = &c.cov[6 * i]; Eigen::Matrix4d m = Eigen::Matrix4d::Zero(); int k = 0; for (int r = 0; r < 3; r++) for (int s = r; s < 3; s++) { m.data()[s * 4 + r] = m.data()[r * 4 + s] = a[k++]; } return m; }
  static void set_point(UserCloud& c, size_t i, const Eigen::Vector4d& p) { c.x[i] = (float)p.data()[0]; c.y[i] = (float)p.data()[1]; c.z[i] = (float)p.data()[2]; }
  static void set_normal(UserCloud& c, size_t i, const Eigen::Vector4d& p) { for (int d = 0; d < 3; d++) c.nrm[3 * i + d] = (float)p.data()[d]; }
  static void set_cov(UserCloud& c, size_t i, const Eigen::Matrix4d& m) { int k = 0; for (int r = 0; r < 3; r++) for (int s = r; s < 3; s++) c.cov[6 * i + k++] = (float)m.data()[s * 4 + r]; }
};
} }
using PclXYZ = pcl::PointCloud<pcl::PointXYZ>; using PclCov = pcl::PointCloud<pcl::PointCovariance>; using PclNC = pcl::PointCloud<pcl::PointNormalCovariance>; using PclN = pcl::PointCloud<pcl::PointNormal>;
template <typename PC> struct Has { static constexpr bool nrm = true, cov = true; }; template <> struct Has<PclXYZ> { static constexpr bool nrm = false, cov = false; }; template <> struct Has<PclCov> { static constexpr bool nrm = false, cov = true; }; template <> struct Has<PclN> { static constexpr bool nrm = true, cov = false; };
template <typename PC> static const char* tname() { return std::is_same<PC, UserCloud>::value ? "user" : std::is_same<PC, PclXYZ>::value ? "pcl-xyz" : std::is_same<PC, PclCov>::value ? "pcl-cov" : std::is_same<PC, PclN>::value ? "pcl-normal" : std::is_same<PC, PclNC>::value ? "pcl-normal-cov" : "PointCloud"; }
// coordinates are made representable in single precision, so that every cloud type holds the same numbers
static Cloud float_cloud(int g, size_t n, int kind, double scale) { Cloud c = make_cloud(g, n, kind, scale); Pause pz; for (size_t i = 0; i < n; i++) for (int d = 0; d < 3; d++) c.p[4 * i + d] = (float)c.p[4 * i + d]; return c; }
template <typename PC> static void fill(PC& pc, const Cloud& c, uint64_t attr) {
  Pause pz; traits::resize(pc, c.n); for (size_t i = 0; i < c.n; i++) {
    traits::set_point(pc, i, Eigen::Vector4d(c.p[4 * i], c.p[4 * i + 1], c.p[4 * i + 2], 1.0)); double v[3], nn = 0; for (int d = 0; d < 3; d++) { v[d] = (double)(sim_rand64(attr, 8 * i + d) >> 11) / 9007199254740992.0 - 0.5; nn += v[d] * v[d]; } nn = std::sqrt(nn) + 1e-9; for (int d = 0; d < 3; d++) v[d] /= nn;
    if constexpr (Has<PC>::nrm) traits::set_normal(pc, i, Eigen::Vector4d(v[0], v[1], v[2], 0.0));
    if constexpr (Has<PC>::cov) { Eigen::Matrix4d C = Eigen::Matrix4d::Zero(); for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) C.data()[s * 4 + r] = (r == s) - 0.999 * v[r] * v[s]; traits::set_cov(pc, i, C); }
  }
}
template <typename PC> static std::shared_ptr<PC> make(const Cloud& c, uint64_t attr) { std::shared_ptr<PC> p; { Pause pz; p = std::make_shared<PC>(); } fill(*p, c, attr); return p; }
// the same numbers as a PointCloud (the type every other harness checks against an independent reference)
template <typename PC> static std::shared_ptr<PointCloud> twin(const PC& pc) { Pause pz; auto o = std::make_shared<PointCloud>(); size_t n = traits::size(pc); o->resize(n); for (size_t i = 0; i < n; i++) { o->points[i] = traits::point(pc, i); if constexpr (Has<PC>::nrm) o->normals[i] = traits::normal(pc, i); if constexpr (Has<PC>::cov) o->covs[i] = traits::cov(pc, i); } return o; }
template <typename PC> static void same_points(const PC& pc, const Cloud& c) { Pause pz; if (traits::size(pc) != c.n) sim_violation("input-modified", "cloud of %zu points has %zu", c.n, traits::size(pc)); for (size_t i = 0; i < c.n; i++) { Eigen::Vector4d p = traits::point(pc, i); for (int d = 0; d < 4; d++) if (p.data()[d] != (d < 3 ? c.p[4 * i + d] : 1.0)) sim_violation("input-modified", "point %zu of the %s cloud was changed", i, tname<PC>()); } }
static void idle() { if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call"); }
static int backend, threads; static double scale;
// ---- C01
template <typename Tree> static void query(const Tree& t, const Cloud& c) {
  std::vector<size_t> idx; std::vector<double> sq; { Pause pz; idx.resize(c.n + 40); sq.resize(c.n + 40); } int nq = (int)sim_draw(5, 3, 10);
  for (int i = 0; i < nq; i++) {
    int g = 100 + i; if (!sim_op_enabled(i)) continue; size_t pi = c.n ? sim_draw(g, 0, c.n - 1) : 0; int kind = (int)sim_draw(g, 0, 2); double q[4] = {0, 0, 0, 1}; for (int d = 0; d < 3; d++) { double b = c.n ? c.p[4 * pi + d] : 0; q[d] = kind == 0 ? b : kind == 1 ? b + sim_drawd(g, -0.1, 0.1) * scale : sim_drawd(g, -3, 3) * scale; }
    static const int ks[] = {1, 2, 5, 10, 20}; size_t k = sim_flip(g, 10) ? c.n + 2 : ks[sim_draw(g, 0, 4)]; size_t f; Eigen::Vector4d Q(q[0], q[1], q[2], 1.0); if (k == 1 && sim_flip(g, 50)) f = traits::nearest_neighbor_search(t, Q, idx.data(), sq.data()); else f = traits::knn_search(t, Q, k, idx.data(), sq.data());
    Pause pz; const char* e = or_check_knn(c.p, c.n, q, k, f, idx.data(), sq.data()); if (e) sim_violation("wrong-neighbours", "%s", e); for (size_t j = 0; j < f && j < 4; j++) { uint64_t u; memcpy(&u, &sq[j], 8); sim_digest(u ^ idx[j]); }
  }
}
template <typename PC> static void c01(const Cloud& c) {
  auto pc = make<PC>(c, 5); int leaf = sim_flip(0, 60) ? 20 : (int)sim_draw(0, 1, 40); bool nrm = sim_flip(0, 30), unsafe = sim_flip(0, 30);
  auto go = [&](auto b) { b.max_leaf_size = leaf; if (unsafe) { UnsafeKdTree<PC> t(*pc, b); idle(); query(t, c); } else if (nrm) { KdTree<PC, NormalProjection> t(pc, b); idle(); query(t, c); } else { KdTree<PC> t(pc, b); idle(); query(t, c); } };
  if (backend == 0) go(KdTreeBuilder()); else if (backend == 1) go(KdTreeBuilderOMP(threads)); else go(KdTreeBuilderTBB()); same_points(*pc, c);
}
// ---- C02
template <typename A, typename B> static void c02(const Cloud& c) {
  auto in = make<A>(c, 5); static const double f[] = {0.05, 0.3, 0.02, 1.0, 0.1}; double leaf = scale * f[sim_draw(0, 0, 4)] * (1.0 + sim_drawd(0, 0.01, 0.3));
  std::shared_ptr<B> out = backend == 0 ? voxelgrid_sampling<A, B>(*in, leaf) : backend == 1 ? voxelgrid_sampling_omp<A, B>(*in, leaf, threads) : voxelgrid_sampling_tbb<A, B>(*in, leaf); idle(); same_points(*in, c);
  Pause pz; size_t m = traits::size(*out); double* o = (double*)malloc(32 * (m + 1)); for (size_t i = 0; i < m; i++) { Eigen::Vector4d p = traits::point(*out, i); for (int d = 0; d < 4; d++) o[4 * i + d] = p.data()[d]; }
  or_set_out_eps(std::is_same<B, PointCloud>::value ? 0 : 3e-7); const char* e = or_check_voxelgrid(c.p, c.n, leaf, o, m, 1000, backend == 0); sim_digest(m); if (e) sim_violation("wrong-downsampling", "%s to %s: %s", tname<A>(), tname<B>(), e); free(o);
}
// ---- C16
template <typename A, typename B> static void c16(const Cloud& c) {
  auto in = make<A>(c, 5); size_t k = sim_flip(0, 20) ? c.n + sim_draw(0, 0, 5) : sim_draw(0, 0, c.n); uint32_t s = (uint32_t)sim_draw(0, 0, 100000); std::mt19937 r1(s), r2(s), r3(s); auto o = random_sampling<A, B>(*in, k, r1); auto o2 = random_sampling<A, B>(*in, k, r2); same_points(*in, c);
  Pause pz; size_t want = k < c.n ? k : c.n; if (traits::size(*o) != want) sim_violation("wrong-sample", "sampled %zu points, expected min(%zu, %zu)", traits::size(*o), k, c.n);
  std::vector<std::array<double, 3>> a, b; for (size_t i = 0; i < c.n; i++) a.push_back({c.p[4 * i], c.p[4 * i + 1], c.p[4 * i + 2]}); for (size_t i = 0; i < want; i++) { Eigen::Vector4d p = traits::point(*o, i), q = traits::point(*o2, i); for (int d = 0; d < 4; d++) if (p.data()[d] != q.data()[d]) sim_violation("irreproducible", "the same random values gave another sample"); b.push_back({p.data()[0], p.data()[1], p.data()[2]}); }
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (!std::includes(a.begin(), a.end(), b.begin(), b.end())) sim_violation("wrong-sample", "a sampled point is not an input point, or is used more often than it occurs"); sim_digest(want);
}
// ---- C04: against the serial estimation on a PointCloud of the same numbers
template <typename PC> static void c04(const Cloud& c) {
  auto pc = make<PC>(c, 5); auto ref = twin(*pc); int k = (int)sim_draw(0, 3, 20); bool own = sim_flip(0, 50); int what = Has<PC>::nrm && Has<PC>::cov ? (int)sim_draw(0, 0, 2) : Has<PC>::nrm ? 0 : 1;
  { Pause pz; KdTree<PointCloud> t(ref); if (what == 0) estimate_normals(*ref, t, k); else if (what == 1) estimate_covariances(*ref, t, k); else estimate_normals_covariances(*ref, t, k); }
#define EST(suffix, ...) do { if constexpr (Has<PC>::nrm) if (what == 0) estimate_normals##suffix(*pc, __VA_ARGS__); if constexpr (Has<PC>::cov) if (what == 1) estimate_covariances##suffix(*pc, __VA_ARGS__); if constexpr (Has<PC>::nrm && Has<PC>::cov) if (what == 2) estimate_normals_covariances##suffix(*pc, __VA_ARGS__); } while (0)
  if (own) { if (backend == 0) EST(, k); else if (backend == 1) EST(_omp, k, threads); else EST(_tbb, k); }
  else { KdTree<PC> t(pc); if (backend == 0) EST(, t, k); else if (backend == 1) EST(_omp, t, k, threads); else EST(_tbb, t, k); }
  idle(); same_points(*pc, c); Pause pz;
  for (size_t i = 0; i < c.n; i++) {
    if constexpr (Has<PC>::nrm) { Eigen::Vector4d a = traits::normal(*pc, i), b = ref->normals[i]; double d1 = 0, d2 = 0; for (int d = 0; d < 4; d++) { d1 = std::max(d1, std::fabs(a.data()[d] - b.data()[d])); d2 = std::max(d2, std::fabs(a.data()[d] + b.data()[d])); } if (!(d1 <= 1e-5) && !(what == 1) && !(d2 <= 1e-5 && std::fabs(b.dot(ref->points[i])) < 1e-6 * (1 + scale))) sim_violation("wrong-normal", "%s: normal of point %zu of %zu is (%g %g %g %g), of the same numbers in a PointCloud (%g %g %g %g)", tname<PC>(), i, c.n, a.data()[0], a.data()[1], a.data()[2], a.data()[3], b.data()[0], b.data()[1], b.data()[2], b.data()[3]); sim_digest_bytes(a.data(), 32); }
    if constexpr (Has<PC>::cov) { Eigen::Matrix4d a = traits::cov(*pc, i), b = ref->covs[i]; for (int q = 0; q < 16; q++) if (!(std::fabs(a.data()[q] - b.data()[q]) <= 1e-5)) sim_violation("wrong-covariance", "%s: covariance (%d,%d) of point %zu of %zu is %g, of the same numbers in a PointCloud %g", tname<PC>(), q % 4, q / 4, i, c.n, a.data()[q], b.data()[q]); sim_digest_bytes(a.data(), 128); }
  }
}
// ---- C05 / C06
template <typename F> struct Needs { static constexpr bool nrm = false, cov = false; }; template <> struct Needs<PointToPlaneICPFactor> { static constexpr bool nrm = true, cov = false; }; template <> struct Needs<GICPFactor> { static constexpr bool nrm = false, cov = true; };
using H6 = Eigen::Matrix<double, 6, 6>; using B6 = Eigen::Matrix<double, 6, 1>;
static void same_system(const std::tuple<H6, B6, double>& a, const std::tuple<H6, B6, double>& r, const char* what) {
  double sh = 0, sb = 0; for (int k = 0; k < 36; k++) sh += std::fabs(std::get<0>(r).data()[k]); for (int k = 0; k < 6; k++) sb += std::fabs(std::get<1>(r).data()[k]); sb += std::sqrt(sh * std::fabs(std::get<2>(r)));
  for (int k = 0; k < 36; k++) if (!(std::fabs(std::get<0>(a).data()[k] - std::get<0>(r).data()[k]) <= 1e-8 * sh)) sim_violation("wrong-sum", "%s: H(%d,%d)=%.12g, of the same numbers in a PointCloud %.12g", what, k % 6, k / 6, std::get<0>(a).data()[k], std::get<0>(r).data()[k]);
  for (int k = 0; k < 6; k++) if (!(std::fabs(std::get<1>(a).data()[k] - std::get<1>(r).data()[k]) <= 1e-8 * sb)) sim_violation("wrong-sum", "%s: b(%d)=%.12g, of the same numbers in a PointCloud %.12g", what, k, std::get<1>(a).data()[k], std::get<1>(r).data()[k]);
  if (!(std::fabs(std::get<2>(a) - std::get<2>(r)) <= 1e-8 * std::fabs(std::get<2>(r)) + 1e-300)) sim_violation("wrong-sum", "%s: error %.12g, of the same numbers in a PointCloud %.12g", what, std::get<2>(a), std::get<2>(r)); sim_digest_bytes(std::get<0>(a).data(), 288);
}
static Eigen::Isometry3d iso(const double* T) { Eigen::Isometry3d o; o.setIdentity(); for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) o.matrix().data()[c * 4 + r] = T[r * 4 + c]; return o; }
template <typename Factor, typename Tgt, typename Src, typename Tree, typename RT, typename RTree> static void linearise(const Tgt& t, const Src& s, const Tree& tree, const RT& rt, const PointCloud& rs, const RTree& rtree) {
  std::vector<Factor> f, g; size_t n = traits::size(s); { Pause pz; f.resize(n); g.resize(n); } double xi[6], T[16]; DistanceRejector rej; rej.max_dist_sq = std::pow(sim_drawd(0, 0.1, 2.0) * scale, 2);
  for (int st = 0, ns = (int)sim_draw(0, 1, 3); st < ns; st++) {
    for (int d = 0; d < 6; d++) xi[d] = sim_drawd(10 + st, -0.05, 0.05) * (d < 3 ? 1 : scale); or_se3_exp(xi, T); Eigen::Isometry3d P = iso(T), P2; for (int d = 3; d < 6; d++) xi[d] *= 1.3; or_se3_exp(xi, T); P2 = iso(T); std::tuple<H6, B6, double> a; double e;
    if (backend == 0) { SerialReduction r; a = r.linearize(t, s, tree, rej, P, f); e = r.error(t, s, P2, f); } else if (backend == 1) { ParallelReductionOMP r; r.num_threads = threads; a = r.linearize(t, s, tree, rej, P, f); e = r.error(t, s, P2, f); } else { ParallelReductionTBB r; a = r.linearize(t, s, tree, rej, P, f); e = r.error(t, s, P2, f); } idle();
    Pause pz; SerialReduction r; auto q = r.linearize(rt, rs, rtree, rej, P, g); size_t inl = 0; for (size_t i = 0; i < n; i++) { if (f[i].inlier() != g[i].inlier() || (f[i].inlier() && f[i].target_index != g[i].target_index)) sim_violation("wrong-state", "point %zu is matched to another target than in PointClouds of the same numbers", i); inl += f[i].inlier(); }
    char w[64]; snprintf(w, sizeof w, "%s onto %s", tname<Src>(), tname<Tgt>()); same_system(a, q, w); double e2 = r.error(rt, rs, P2, g); if (!(std::fabs(e - e2) <= 1e-8 * std::fabs(e2) + 1e-300)) sim_violation("wrong-sum", "%s: error %.12g at another pose, of the same numbers in a PointCloud %.12g", w, e, e2); if (inl) sim_probe(0, "system with inliers");
  }
}
template <typename Tgt, typename Src> static void c05(const Cloud& tc, const Cloud& sc) {
  auto t = make<Tgt>(tc, 5); auto s = make<Src>(sc, 9); auto rt = twin(*t), rs = twin(*s); std::shared_ptr<KdTree<PointCloud>> rtree; { Pause pz; rtree = std::make_shared<KdTree<PointCloud>>(rt); } int fam = (int)sim_draw(0, 0, 3);
  if (fam == 3) { if constexpr (Has<Tgt>::cov && Has<Src>::cov) { double l = scale * sim_drawd(0, 0.2, 0.6); GaussianVoxelMap a(l), b(l); a.insert(*t); { Pause pz; b.insert(*rt); } linearise<GICPFactor>(a, *s, a, b, *rs, b); return; } fam = 0; }
  KdTree<Tgt> tree(t);
  if (fam == 2) { if constexpr (Has<Tgt>::cov && Has<Src>::cov) { linearise<GICPFactor>(*t, *s, tree, *rt, *rs, *rtree); return; } fam = 0; }
  if (fam == 1) { if constexpr (Has<Tgt>::nrm) { linearise<PointToPlaneICPFactor>(*t, *s, tree, *rt, *rs, *rtree); return; } }
  linearise<ICPFactor>(*t, *s, tree, *rt, *rs, *rtree);
}
template <typename Tgt, typename Src> static void c06() {
  static const int kinds[] = {10, 0, 7, 1}; scale = 6.0; size_t n = sim_flip(1, 6) ? sim_draw(1, 300, 2000) : sim_draw(1, 60, 200); Cloud tc = float_cloud(1, n, kinds[sim_draw(1, 0, 3)], scale), sc = tc; double xi[6], T[16], Ti[16]; for (int d = 0; d < 6; d++) xi[d] = sim_drawd(1, -1, 1) * (d < 3 ? 0.02 : 0.12); or_se3_exp(xi, T); or_mat4_inv_rigid(T, Ti);
  { Pause pz; sc.p = (double*)malloc(32 * (n + 1)); for (size_t i = 0; i < n; i++) { or_transform(Ti, tc.p + 4 * i, sc.p + 4 * i); for (int d = 0; d < 3; d++) sc.p[4 * i + d] = (float)sc.p[4 * i + d]; } }
  auto t = make<Tgt>(tc, 5); auto s = make<Src>(sc, 9); { Pause pz; if constexpr (Has<Tgt>::cov) estimate_covariances(*t, 10); if constexpr (Has<Src>::cov) estimate_covariances(*s, 10); if constexpr (Has<Tgt>::nrm) estimate_normals(*t, 10); } auto rt = twin(*t), rs = twin(*s); std::shared_ptr<KdTree<PointCloud>> rtree; { Pause pz; rtree = std::make_shared<KdTree<PointCloud>>(rt); } KdTree<Tgt> tree(t);
  int maxit = sim_flip(0, 30) ? (int)sim_draw(0, 0, 4) : 20; double rej = sim_flip(0, 60) ? 1.0 : sim_drawd(0, 0.05, 1.0);
  auto go = [&](auto fac) { using F = decltype(fac);
    auto set = [&](auto& r) { r.rejector.max_dist_sq = rej * rej; r.optimizer.max_iterations = maxit; }; RegistrationResult a(Eigen::Isometry3d::Identity()); Eigen::Isometry3d I = Eigen::Isometry3d::Identity();
    if (backend == 0) { Registration<F, SerialReduction> r; set(r); a = r.align(*t, *s, tree, I); } else if (backend == 1) { Registration<F, ParallelReductionOMP> r; set(r); r.reduction.num_threads = threads; a = r.align(*t, *s, tree, I); } else { Registration<F, ParallelReductionTBB> r; set(r); a = r.align(*t, *s, tree, I); }
    idle(); Pause pz; Registration<F, SerialReduction> r; set(r); RegistrationResult b = r.align(*rt, *rs, *rtree, I); if (a.iterations > (size_t)maxit) sim_violation("bad-record", "%zu iterations with a limit of %d", a.iterations, maxit);
    if (b.num_inliers < 12) return; Eigen::SelfAdjointEigenSolver<H6> es(b.H); if (es.eigenvalues()[0] <= 1e-6 * es.eigenvalues()[5]) return; double A[16], B[16]; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) { A[i * 4 + k] = a.T_target_source.data()[k * 4 + i]; B[i * 4 + k] = b.T_target_source.data()[k * 4 + i]; } double dr = or_rot_angle_between(A, B), dt = or_trans_between(A, B); sim_probe(1, "pose compared");
    if (!(dr <= 1e-5 && dt <= 1e-4)) sim_violation("schedule-dependent-result", "%s onto %s: pose differs from that of the same numbers in PointClouds by %.3g rad / %.3g m", tname<Src>(), tname<Tgt>(), dr, dt); };
  int fam = (int)sim_draw(0, 0, 2); if (fam == 2) { if constexpr (Has<Tgt>::cov && Has<Src>::cov) go(GICPFactor()); else go(ICPFactor()); } else if (fam == 1) { if constexpr (Has<Tgt>::nrm) go(PointToPlaneICPFactor()); else go(ICPFactor()); } else go(ICPFactor());
  same_points(*t, tc); same_points(*s, sc);
}
// ---- C07: voxel maps fed with other cloud types
template <typename Map, typename PC, bool MN, bool MC> static void c07(const Cloud& c, double leaf) {
  Map a(leaf), b(leaf); a.lru_horizon = b.lru_horizon = sim_draw(0, 1, 3); a.lru_clear_cycle = b.lru_clear_cycle = sim_draw(0, 1, 3); int so = (int)sim_draw(0, 0, 2); if (so) { a.set_search_offsets(so == 1 ? 7 : 27); b.set_search_offsets(so == 1 ? 7 : 27); }
  for (int st = 0, ns = (int)sim_draw(0, 1, 6); st < ns; st++) {
    auto pc = make<PC>(c, 5 + st); auto ref = twin(*pc); double xi[6], T[16]; for (int d = 0; d < 6; d++) xi[d] = sim_drawd(10 + st, -0.5, 0.5) * (d < 3 ? 1 : scale); or_se3_exp(xi, T); Eigen::Isometry3d P = iso(T); a.insert(*pc, P); same_points(*pc, c);
    Pause pz; b.insert(*ref, P); if (a.size() != b.size()) sim_violation("wrong-contents", "%zu voxels from the %s cloud, %zu from the same numbers in a PointCloud", a.size(), tname<PC>(), b.size());
    auto pa = traits::voxel_points(a), pb = traits::voxel_points(b); if (pa.size() != pb.size()) sim_violation("wrong-contents", "%zu voxel points from the %s cloud, %zu from the same numbers in a PointCloud", pa.size(), tname<PC>(), pb.size());
    auto differ = [&](const double* x, const double* y, int n) { for (int i = 0; i < n; i++) if (!(std::fabs(x[i] - y[i]) <= 1e-9 * (1 + std::fabs(y[i])))) return true; return false; };
    for (size_t i = 0; i < pa.size(); i++) if (differ(pa[i].data(), pb[i].data(), 4)) sim_violation("wrong-contents", "voxel point %zu differs from that of the same numbers in a PointCloud", i);
    if constexpr (MC) { auto ca = traits::voxel_covs(a), cb = traits::voxel_covs(b); if (ca.size() != cb.size()) sim_violation("wrong-contents", "%zu voxel covariances, %zu from a PointCloud", ca.size(), cb.size()); for (size_t i = 0; i < ca.size(); i++) if (differ(ca[i].data(), cb[i].data(), 16)) sim_violation("wrong-contents", "voxel covariance %zu differs from that of the same numbers in a PointCloud", i); }
    if constexpr (MN) { auto ca = traits::voxel_normals(a), cb = traits::voxel_normals(b); if (ca.size() != cb.size()) sim_violation("wrong-contents", "%zu voxel normals, %zu from a PointCloud", ca.size(), cb.size()); for (size_t i = 0; i < ca.size(); i++) if (differ(ca[i].data(), cb[i].data(), 4)) sim_violation("wrong-contents", "voxel normal %zu differs from that of the same numbers in a PointCloud", i); }
    for (int q = 0; q < 4 && c.n; q++) { Eigen::Vector4d p = P * traits::point(*ref, (q * 7919) % c.n); size_t ia[6], ib[6]; double da[6], db[6]; size_t fa = a.knn_search(p, 6, ia, da), fb = b.knn_search(p, 6, ib, db); if (fa != fb) sim_violation("wrong-query", "%zu neighbours, %zu in the map of the PointCloud", fa, fb); for (size_t i = 0; i < fa; i++) if (differ(&da[i], &db[i], 1)) sim_violation("wrong-query", "neighbour %zu at squared distance %g, %g in the map of the PointCloud", i, da[i], db[i]); }
    sim_digest(a.size()); if (a.size()) sim_probe(2, "voxels compared");
  }
}
extern "C" void harness_run(const char* prop) {
  backend = (int)sim_draw(0, 0, 4); backend = backend == 0 ? 0 : backend <= 2 ? 1 : 2; threads = draw_threads(0); int p = prop[1] == '1' ? 16 : prop[2] - '0'; int ty = (int)sim_draw(0, 0, 4);
  static const char* bn[] = {"serial", "omp", "tbb"}; scale = 1;
  if (p == 6) { sim_sample("align other cloud types (%d) backend=%s threads=%d", ty, bn[backend], threads); sim_set_nontrivial(1); if (ty == 0) c06<PclNC, PclNC>(); else if (ty == 1) c06<PclCov, UserCloud>(); else if (ty == 2) c06<UserCloud, PclXYZ>(); else if (ty == 3) c06<PclN, PointCloud>(); else c06<PointCloud, PclNC>(); return; }
  scale = draw_scale(1); size_t most = p == 4 ? 700 : p == 5 ? 500 : p == 7 ? 300 : 2600; size_t n = draw_size(1, most < 514 ? 514 : most); if (n > most) n = most; int kind = (int)sim_draw(1, 0, OR_CLOUD_KINDS - 1); Cloud c = float_cloud(1, n, kind, scale);
  sim_sample("%s other cloud types (%d) backend=%s threads=%d n=%zu cloud=%s", prop, ty, bn[backend], threads, n, or_cloud_name(kind)); sim_set_nontrivial(n > 1);
  if (p == 1) { if (ty == 0) c01<PclXYZ>(c); else if (ty <= 2) c01<UserCloud>(c); else c01<PclNC>(c); }
  else if (p == 2) { if (ty == 0) c02<PclXYZ, PclXYZ>(c); else if (ty == 1) c02<PclXYZ, PclCov>(c); else if (ty == 2) c02<UserCloud, UserCloud>(c); else if (ty == 3) c02<PointCloud, PclNC>(c); else c02<PclXYZ, PointCloud>(c); }
  else if (p == 16) { if (ty <= 1) c16<PclXYZ, PclCov>(c); else if (ty <= 3) c16<UserCloud, UserCloud>(c); else c16<PclXYZ, PointCloud>(c); }
  else if (p == 4) { if (ty == 0) c04<PclNC>(c); else if (ty == 1) c04<PclCov>(c); else if (ty == 2) c04<PclN>(c); else c04<UserCloud>(c); }
  else if (p == 5) { size_t m = sim_flip(2, 8) ? 0 : sim_draw(2, 1, 300); Cloud s = float_cloud(2, m, kind, scale); if (ty == 0) c05<PclNC, PclNC>(c, s); else if (ty == 1) c05<PclCov, UserCloud>(c, s); else if (ty == 2) c05<UserCloud, PclNC>(c, s); else if (ty == 3) c05<PclN, PclXYZ>(c, s); else c05<PointCloud, PclCov>(c, s); }
  else if (p == 7) { double leaf = scale * sim_drawd(0, 0.2, 0.7); if (ty == 0) c07<GaussianVoxelMap, PclNC, false, true>(c, leaf); else if (ty == 1) c07<GaussianVoxelMap, UserCloud, false, true>(c, leaf); else if (ty == 2) c07<IncrementalVoxelMap<FlatContainer<true, true>>, UserCloud, true, true>(c, leaf); else if (ty == 3) c07<IncrementalVoxelMap<FlatContainer<true, true>>, PclNC, true, true>(c, leaf); else c07<IncrementalVoxelMap<FlatContainer<>>, PclXYZ, false, false>(c, leaf); }
}
