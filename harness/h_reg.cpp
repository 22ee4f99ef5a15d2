// C06 registration: same result whatever the schedule, self-consistent record, recovers the true motion
#include "common.hpp"
#include <iostream>
#include <cmath>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
using HG = RobustFactor<Huber, GICPFactor>; using CI = RobustFactor<Cauchy, ICPFactor>;
extern "C" const char* const harness_props[] = {"C06", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
using H6 = Eigen::Matrix<double, 6, 6>; using B6 = Eigen::Matrix<double, 6, 1>;
struct Ev { int lin; double T[16], H[36], b[6], e; size_t inl; };
struct Log { std::vector<Ev> ev; };
static void put_T(double* o, const Eigen::Isometry3d& T) { for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) o[r * 4 + c] = T.data()[c * 4 + r]; }
// user-level reduction: forwards to a real one and records what it returned
struct AnyReduction {
  int backend = 0, num_threads = 1; Log* log = nullptr;
  template <typename A, typename B, typename C, typename D, typename F> std::tuple<H6, B6, double> linearize(const A& t, const B& s, const C& tr, const D& rej, const Eigen::Isometry3d& T, std::vector<F>& f) const {
    std::tuple<H6, B6, double> out;
    if (backend == 0) out = SerialReduction().linearize(t, s, tr, rej, T, f); else if (backend == 1) { ParallelReductionOMP r; r.num_threads = num_threads; out = r.linearize(t, s, tr, rej, T, f); } else out = ParallelReductionTBB().linearize(t, s, tr, rej, T, f);
    if (log) { Pause pz; Ev e; e.lin = 1; put_T(e.T, T); memcpy(e.H, std::get<0>(out).data(), 288); memcpy(e.b, std::get<1>(out).data(), 48); e.e = std::get<2>(out); e.inl = 0; for (auto& x : f) e.inl += x.inlier(); log->ev.push_back(e); }
    return out;
  }
  template <typename A, typename B, typename F> double error(const A& t, const B& s, const Eigen::Isometry3d& T, std::vector<F>& f) const {
    double out; if (backend == 0) out = SerialReduction().error(t, s, T, f); else if (backend == 1) { ParallelReductionOMP r; r.num_threads = num_threads; out = r.error(t, s, T, f); } else out = ParallelReductionTBB().error(t, s, T, f);
    if (log) { Pause pz; Ev e; memset(&e, 0, sizeof e); e.lin = 0; put_T(e.T, T); e.e = out; log->ev.push_back(e); }
    return out;
  }
};
// user's general factor: a soft prior pulling the translation towards a point; weight 0 = none
struct PriorFactor {
  double w = 0, c[3] = {0, 0, 0}; bool cone = false;  // cone: an error without derivative at its tip (steps away from it are rejected)
  template <typename A, typename B, typename C> void update_linearized_system(const A&, const B&, const C&, const Eigen::Isometry3d& T, H6* H, B6* b, double* e) const {
    if (w == 0) return; if (cone) { *e += value(T); return; } double R[9], d[3]; for (int r = 0; r < 3; r++) { d[r] = T.data()[12 + r] - c[r]; for (int k = 0; k < 3; k++) R[r * 3 + k] = T.data()[k * 4 + r]; }
    for (int k = 0; k < 3; k++) { H->data()[(3 + k) * 6 + 3 + k] += w; double x = 0; for (int r = 0; r < 3; r++) x += R[r * 3 + k] * d[r]; b->data()[3 + k] += w * x; } *e += value(T);
  }
  double value(const Eigen::Isometry3d& T) const { double s = 0; for (int r = 0; r < 3; r++) { double x = T.data()[12 + r] - c[r]; s += x * x; } return cone ? w * std::sqrt(s) : 0.5 * w * s; }
  template <typename A, typename B> void update_error(const A&, const B&, const Eigen::Isometry3d& T, double* e) const { if (w != 0) *e += value(T); }
};
struct Prob { std::shared_ptr<PointCloud> tgt, src; std::shared_ptr<KdTree<PointCloud>> tree; std::shared_ptr<GaussianVoxelMap> vm; double Ttrue[16]; Eigen::Isometry3d init; int kind; bool well; size_t n; double scale; uint64_t h; };
static uint64_t hash_cloud(const PointCloud& c) { uint64_t h = c.size(); auto add = [&](const void* p, size_t n) { const uint64_t* q = (const uint64_t*)p; for (size_t i = 0; i < n / 8; i++) { h ^= q[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } }; if (c.size()) { add(c.points.data(), 32 * c.points.size()); add(c.normals.data(), 32 * c.normals.size()); add(c.covs.data(), 128 * c.covs.size()); } return h; }
struct Cfg { int backend, threads, max_iter, max_inner; double lambda, rej, reps, teps; PriorFactor prior; double kern = 1.0; };
template <typename F> static void set_factor(F&, const Cfg&) {}
static void set_factor(RobustFactor<Huber, GICPFactor>::Setting& s, const Cfg& c) { s.robust_kernel.c = c.kern; }
static void set_factor(RobustFactor<Cauchy, ICPFactor>::Setting& s, const Cfg& c) { s.robust_kernel.c = c.kern; }
template <typename Opt> static void set_opt(Opt& o, const Cfg& c);
template <> void set_opt(LevenbergMarquardtOptimizer& o, const Cfg& c) { o.max_iterations = c.max_iter; o.max_inner_iterations = c.max_inner; o.init_lambda = c.lambda; }
template <> void set_opt(GaussNewtonOptimizer& o, const Cfg& c) { o.max_iterations = c.max_iter; }
template <typename Factor, typename Opt> using Reg = Registration<Factor, AnyReduction, PriorFactor, DistanceRejector, Opt>;
template <typename Factor, typename Opt> static void setup(Reg<Factor, Opt>& reg, const Cfg& c, int backend, Log* log) { reg.reduction.backend = backend; reg.reduction.num_threads = c.threads; reg.reduction.log = log; reg.general_factor = c.prior; reg.rejector.max_dist_sq = c.rej * c.rej; reg.criteria.rotation_eps = c.reps; reg.criteria.translation_eps = c.teps; set_factor(reg.point_factor, c); set_opt(reg.optimizer, c); }
template <typename Factor, typename Opt, typename Tgt, typename Tree> static RegistrationResult run1(const Tgt& t, const PointCloud& s, const Tree& tree, const Prob& p, const Cfg& c, int backend, Log* log) { Reg<Factor, Opt> reg; setup<Factor, Opt>(reg, c, backend, log); return reg.align(t, s, tree, p.init); }
// the problem constrains the pose well enough for rounding differences to stay small
static bool conditioned(const RegistrationResult& r) { if (r.num_inliers < 12) return false; Eigen::SelfAdjointEigenSolver<H6> es(r.H); return es.eigenvalues()[0] > 1e-6 * es.eigenvalues()[5]; }
static void check_pose_same(const RegistrationResult& a, const RegistrationResult& b, const Prob& p, const char* what) {
  double A[16], B[16]; put_T(A, a.T_target_source); put_T(B, b.T_target_source); double dr = or_rot_angle_between(A, B), dt = or_trans_between(A, B);
  if (!(dr <= 1e-5 && dt <= 1e-5 * (1 + p.scale))) sim_violation("schedule-dependent-result", "%s: pose differs from the serial reference by %.3g rad / %.3g m (iterations %zu vs %zu, inliers %zu vs %zu)", what, dr, dt, a.iterations, b.iterations, a.num_inliers, b.num_inliers);
}
static void check_rigid(const Eigen::Isometry3d& T) { const double* d = T.data(); for (int i = 0; i < 16; i++) if (!std::isfinite(d[i])) sim_violation("bad-result", "the returned pose is not finite"); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double x = 0; for (int k = 0; k < 3; k++) x += d[a * 4 + k] * d[b * 4 + k]; if (!(std::fabs(x - (a == b)) < 1e-6)) sim_violation("bad-result", "the returned pose is not a rigid motion"); } if (d[3] || d[7] || d[11] || d[15] != 1) sim_violation("bad-result", "the returned pose is not a rigid motion"); }
static void check_truth(const RegistrationResult& r, const Prob& p, double rt, double tt) { double A[16]; put_T(A, r.T_target_source); double dr = or_rot_angle_between(A, p.Ttrue), dt = or_trans_between(A, p.Ttrue); sim_probe(3, "true motion checked"); if (!(dr <= rt && dt <= tt)) sim_violation("wrong-motion", "recovered pose is off by %.3g rad / %.3g m (limits %.3g / %.3g; n=%zu, %zu inliers, %zu iterations)", dr, dt, rt, tt, p.n, r.num_inliers, r.iterations); }
template <typename Opt> static void check_record(const RegistrationResult& r, const Prob& p, const Cfg& c, const Log& log, bool lm) {
  size_t nl = 0; const Ev *last = nullptr; for (auto& e : log.ev) if (e.lin) { nl++; last = &e; }
  check_rigid(r.T_target_source);
  if (nl > (size_t)c.max_iter || r.iterations > (size_t)c.max_iter) sim_violation("bad-record", "%zu linearisations / %zu reported iterations with a limit of %d", nl, r.iterations, c.max_iter);
  if (!nl) { if (r.converged || r.num_inliers) sim_violation("bad-record", "no evaluation was made but the record says converged=%d inliers=%zu", (int)r.converged, r.num_inliers); return; }
  if (r.iterations + 1 != nl && r.iterations != nl) sim_violation("bad-record", "%zu iterations reported, %zu made", r.iterations, nl);
  if (r.num_inliers != last->inl) sim_violation("bad-record", "%zu inliers reported, the last evaluation has %zu", r.num_inliers, last->inl);
  if (r.num_inliers > p.n) sim_violation("bad-record", "%zu inliers of %zu points", r.num_inliers, p.n);
  if (lm) { int tr = 0; for (auto& e : log.ev) { tr = e.lin ? 0 : tr + 1; if (tr > c.max_inner) sim_violation("bad-record", "%d trial steps after one linearisation with a limit of %d", tr, c.max_inner); } }
  // linear system of the last linearisation (general factor included)
  H6 H; B6 b; double le = last->e; memcpy(H.data(), last->H, 288); memcpy(b.data(), last->b, 48); Eigen::Isometry3d TL; for (int rr = 0; rr < 4; rr++) for (int cc = 0; cc < 4; cc++) TL.matrix().data()[cc * 4 + rr] = last->T[rr * 4 + cc]; c.prior.update_linearized_system(0, 0, 0, TL, &H, &b, &le);
  auto close = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * (std::fabs(x) + std::fabs(y)) + 1e-300; };
  for (int k = 0; k < 36; k++) if (!close(H.data()[k], r.H.data()[k])) sim_violation("bad-record", "H(%d,%d)=%g of the record is not that of the last linearisation (%g)", k % 6, k / 6, r.H.data()[k], H.data()[k]);
  for (int k = 0; k < 6; k++) if (!close(b.data()[k], r.b.data()[k])) sim_violation("bad-record", "b(%d)=%g of the record is not that of the last linearisation (%g)", k, r.b.data()[k], b.data()[k]);
  // error: of the last linearisation, or of the accepted step evaluated with the same correspondences at the returned pose
  double TF[16]; put_T(TF, r.T_target_source); bool ok = false; double fe = 0; 
  for (const Ev* e = last; e < log.ev.data() + log.ev.size(); e++) { double v = e == last ? le : e->e + c.prior.value(r.T_target_source); bool at = true; for (int k = 0; k < 16; k++) if (std::fabs(e->T[k] - TF[k]) > 1e-12 * (1 + std::fabs(TF[k]))) at = false; if (e == last ? (!lm || at) : at) { fe = v; if (close(v, r.error)) ok = true; } }
  if (!ok) sim_violation("bad-record", "error %.12g of the record is not the error of the returned pose (%.12g)", r.error, fe);
  if (lm && !(r.error <= le * (1 + 1e-12))) sim_violation("bad-record", "error increased from %.12g to %.12g in an accepted step", le, r.error);
  double dr = or_rot_angle_between(last->T, TF), dt = or_trans_between(last->T, TF);
  if (lm && r.converged) { bool stepped = false; for (const Ev* e = last + 1; e < log.ev.data() + log.ev.size(); e++) { bool at = !e->lin; for (int k = 0; k < 16; k++) if (std::fabs(e->T[k] - TF[k]) > 1e-12 * (1 + std::fabs(TF[k]))) at = false; stepped |= at; } if (!stepped) sim_violation("bad-record", "converged reported although every trial step from the last linearisation was rejected"); }
  if (r.converged && !(dr <= c.reps * (1 + 1e-6) + 1e-7 && dt <= c.teps * (1 + 1e-6) + 1e-9)) sim_violation("bad-record", "converged reported but the last step was %.6g rad / %.6g m (limits %.3g / %.3g)", dr, dt, c.reps, c.teps);
  if (!lm && !r.converged && nl < (size_t)c.max_iter) sim_violation("bad-record", "stopped after %zu of %d iterations without converging", nl, c.max_iter);
  sim_digest_bytes(TF, 128); sim_digest(nl);
}
// the last evaluation, made once more with factors that have no past
template <typename Factor, typename Tgt, typename Tree> static void check_fresh(const Tgt& t, const PointCloud& s, const Tree& tree, const Cfg& c, const Log& log, const RegistrationResult& r) {
  const Ev* last = nullptr; for (auto& e : log.ev) if (e.lin) last = &e; if (!last) return;
  typename Factor::Setting fs; set_factor(fs, c); std::vector<Factor> f(traits::size(s), Factor(fs)); DistanceRejector rej; rej.max_dist_sq = c.rej * c.rej; Eigen::Isometry3d T; for (int rr = 0; rr < 4; rr++) for (int cc = 0; cc < 4; cc++) T.matrix().data()[cc * 4 + rr] = last->T[rr * 4 + cc];
  auto [H, b, e] = SerialReduction().linearize(t, s, tree, rej, T, f); size_t inl = 0; for (auto& x : f) inl += x.inlier();
  if (inl != last->inl) sim_violation("bad-record", "the last evaluation has %zu inliers, the same evaluation with fresh factors %zu", last->inl, inl);
  double sh = 0, sb = 0; for (int k = 0; k < 36; k++) sh += std::fabs(H.data()[k]); for (int k = 0; k < 6; k++) sb += std::fabs(b.data()[k]); sb += std::sqrt(sh * std::fabs(e));
  for (int k = 0; k < 36; k++) if (!(std::fabs(H.data()[k] - last->H[k]) <= 1e-8 * sh)) sim_violation("bad-record", "H(%d,%d)=%.10g of the last evaluation, %.10g with fresh factors", k % 6, k / 6, last->H[k], H.data()[k]);
  for (int k = 0; k < 6; k++) if (!(std::fabs(b.data()[k] - last->b[k]) <= 1e-8 * sb)) sim_violation("bad-record", "b(%d)=%.10g of the last evaluation, %.10g with fresh factors", k, last->b[k], b.data()[k]);
  if (!(std::fabs(e - last->e) <= 1e-8 * std::fabs(e) + 1e-300)) sim_violation("bad-record", "error %.12g of the last evaluation, %.12g with fresh factors", last->e, e);
}
static const int GH = 3;
// earlier alignments of the same kind on this thread, with other settings, sizes and initial poses; nothing of them may remain
template <typename Factor, typename Opt, typename Tgt, typename Tree> static void history(Reg<Factor, Opt>& same, const Tgt& t, const PointCloud& s, const Tree& tree, const Prob& p, const Cfg& c) {
  int n = sim_flip(GH, 35) ? (int)sim_draw(GH, 1, 3) : 0; std::vector<Eigen::Vector4d> keep_pts; if (n) { Pause pz; keep_pts = s.points; }
  for (int i = 0; i < n; i++) {
    int g = 50 + i; Cfg c2 = c; c2.max_iter = (int)sim_draw(g, 0, 8); c2.rej = sim_flip(g, 50) ? sim_drawd(g, 0.05, 2.0) : c.rej; c2.kern = sim_drawd(g, 0.05, 4.0); if (sim_flip(g, 50)) c2.prior = PriorFactor(); c2.reps *= sim_flip(g, 30) ? 50 : 1; c2.threads = (int)sim_draw(g, 1, 4); c2.lambda = sim_flip(g, 30) ? 10.0 : c.lambda;
    int keep = (int)sim_draw(g, 0, 4), own = sim_flip(g, 60); double dx = sim_drawd(g, -0.3, 0.3); if (!sim_op_enabled(i)) continue; sim_probe(6, "earlier alignment on the same thread");
    std::shared_ptr<PointCloud> sub; Prob p2 = p; { Pause pz; p2.init.matrix().data()[13] += dx; if (keep) { sub = std::make_shared<PointCloud>(); size_t m = s.size() * keep / 4; sub->resize(m); for (size_t k = 0; k < m; k++) { size_t q = s.size() - 1 - k; sub->points[k] = s.points[q]; sub->normals[k] = s.normals[q]; sub->covs[k] = s.covs[q]; } } }
    bool moved = !sub && &s == p.src.get() && s.size() && sim_flip(g, 50); if (moved) { Pause pz; sim_probe(9, "source points moved in place after an earlier alignment"); for (auto& q : p.src->points) q.data()[0] += dx + 0.2; }
    const PointCloud& src = sub ? *sub : s;
    if (own) run1<Factor, Opt>(t, src, tree, p2, c2, c.backend, nullptr); else { setup<Factor, Opt>(same, c2, c.backend, nullptr); same.align(t, src, tree, p2.init); }
    if (moved) { Pause pz; for (size_t k = 0; k < s.size(); k++) p.src->points[k] = keep_pts[k]; }
  }
}
template <typename Factor, typename Opt, typename Tgt, typename Tree> static void go(const Tgt& t, const PointCloud& s, const Tree& tree, const Prob& p, const Cfg& c, bool lm, int factor) {
  Reg<Factor, Opt> reg; history<Factor, Opt>(reg, t, s, tree, p, c);
  Log log; setup<Factor, Opt>(reg, c, c.backend, &log); RegistrationResult r = reg.align(t, s, tree, p.init);
  if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
  Pause pz; check_record<Opt>(r, p, c, log, lm); check_fresh<Factor>(t, s, tree, c, log, r);
  RegistrationResult ref = run1<Factor, Opt>(t, s, tree, p, c, 0, nullptr);
  if (p.well && conditioned(ref) && !c.prior.cone) { sim_probe(5, "pose compared with the serial reference"); check_pose_same(r, ref, p, "template interface"); if (c.max_iter >= 15 && c.teps <= 1e-3 && c.max_inner >= 8 && c.rej >= 0.5 && c.prior.w == 0 && c.lambda <= 1e-3 && factor <= 2) check_truth(r, p, factor == 1 ? 0.02 : 0.01, factor == 1 ? 0.05 : 0.03); if (r.converged) sim_probe(0, "converged"); }
  if (r.num_inliers == 0) sim_probe(1, "no inliers"); if (nullptr != log.ev.data() && c.prior.w != 0) sim_probe(2, "user's general factor"); if (lm && !r.converged && r.iterations + 1 < (size_t)c.max_iter && log.ev.size()) sim_probe(7, "gave up: every trial step rejected");
}
static Prob make_problem(size_t most) {
  Prob p; int wk = (int)sim_draw(1, 0, 5); static const int kinds[] = {10, 0, 7, 1, 10, -1}; p.kind = kinds[wk]; p.well = wk < 5; if (wk == 5) p.kind = (int)sim_draw(1, 0, OR_CLOUD_KINDS - 1);
  size_t n = p.well ? sim_draw(1, 60, 160) : (size_t)sim_draw(1, 0, 60); if (sim_flip(1, 3)) { n = sim_draw(1, 500, most); sim_probe(8, "large cloud"); } p.n = n; p.scale = p.well ? 6.0 : 3.0; Cloud c = make_cloud(1, n, p.kind, p.scale);
  double xi[6], T[16], Ti[16]; int init = (int)sim_draw(1, 0, 3); double amp = p.well ? 1.0 : 4.0; for (int d = 0; d < 3; d++) xi[d] = sim_drawd(1, -0.02, 0.02) * amp; for (int d = 3; d < 6; d++) xi[d] = sim_drawd(1, -0.12, 0.12) * amp;
  or_se3_exp(xi, T); or_mat4_inv_rigid(T, Ti); memcpy(p.Ttrue, T, 128); Pause pz; Cloud s = c; s.p = (double*)malloc(32 * (n + 1)); for (size_t i = 0; i < n; i++) { or_transform(Ti, c.p + 4 * i, s.p + 4 * i); }
  p.tgt = to_cloud(c); p.src = to_cloud(s); estimate_normals_covariances(*p.tgt, 10); estimate_normals_covariances(*p.src, 10); p.tree = std::make_shared<KdTree<PointCloud>>(p.tgt);
  p.init.setIdentity(); if (init == 2) { double x2[6], I[16]; for (int d = 0; d < 6; d++) x2[d] = xi[d] * (1 + 0.1 * d) * 0.5; or_se3_exp(x2, I); for (int r = 0; r < 4; r++) for (int cc = 0; cc < 4; cc++) p.init.matrix().data()[cc * 4 + r] = I[r * 4 + cc]; } if (init == 3 && !p.well) p.init.matrix().data()[12] = 1000;  // no overlap
  free(c.p); free(s.p); return p;
}
extern "C" void harness_run(const char*) {
  Cfg c; int be = (int)sim_draw(0, 0, 5); c.backend = be == 0 ? 0 : be <= 3 ? 1 : 2; c.threads = draw_threads(0); int factor = (int)sim_draw(0, 0, 5); int mode = (int)sim_draw(0, 0, 9);
  c.max_iter = sim_flip(0, 25) ? (int)sim_draw(0, 0, 4) : 20; c.max_inner = sim_flip(0, 10) ? (int)sim_draw(0, 0, 2) : 10; c.lambda = sim_flip(0, 20) ? 1e-9 : 1e-3; c.rej = sim_flip(0, 25) ? sim_drawd(0, 0.01, 0.4) : 1.0; c.reps = 0.1 * M_PI / 180; c.teps = 1e-3; if (sim_flip(0, 20)) { c.reps *= 100; c.teps *= 100; }
  if (sim_flip(0, 25)) { c.prior.w = sim_drawd(0, 0.1, 50.0); for (int d = 0; d < 3; d++) c.prior.c[d] = sim_drawd(0, -0.3, 0.3); }
  if (factor >= 4) c.kern = sim_drawd(0, 0.05, 4.0);
  Prob p = make_problem(mode == 9 ? 1024 : 2600);  // above 1024 points the parallel voxelgrid may split voxels
  if (c.prior.w != 0 && sim_flip(2, 30)) { c.prior.cone = true; c.prior.w *= (double)(1 << sim_draw(2, 0, 10)); if (sim_flip(2, 70)) for (int d = 0; d < 3; d++) c.prior.c[d] = p.init.matrix().data()[12 + d]; } bool lm = sim_flip(0, 70); double leaf = 1.0 + sim_drawd(0, 0.0, 1.0);
  if (factor == 3) { Pause pz; p.vm = std::make_shared<GaussianVoxelMap>(leaf); p.vm->insert(*p.tgt); if (p.n & 1) p.vm->set_search_offsets(7); }
  uint64_t h1, h2; { Pause pz; h1 = hash_cloud(*p.tgt); h2 = hash_cloud(*p.src); }
  static const char* fn[] = {"icp", "plane", "gicp", "vgicp", "huber-gicp", "cauchy-icp"}; static const char* bn[] = {"serial", "omp", "tbb"};
  sim_sample("register %s %s backend=%s threads=%d mode=%s n=%zu cloud=%s max_iter=%d prior=%g", fn[factor], lm ? "lm" : "gn", bn[c.backend], c.threads, mode < 7 ? "template" : mode < 9 ? "helper" : "helper-raw", p.n, or_cloud_name(p.kind), c.max_iter, c.prior.w);
  sim_set_nontrivial(p.n > 10 && c.max_iter > 0);
  if (mode < 7) {
#define GO(F, TG, TR) do { if (lm) go<F, LevenbergMarquardtOptimizer>(TG, *p.src, TR, p, c, true, factor); else go<F, GaussNewtonOptimizer>(TG, *p.src, TR, p, c, false, factor); } while (0)
    if (factor == 0) GO(ICPFactor, *p.tgt, *p.tree); else if (factor == 1) GO(PointToPlaneICPFactor, *p.tgt, *p.tree); else if (factor == 2) GO(GICPFactor, *p.tgt, *p.tree); else if (factor == 3) GO(GICPFactor, *p.vm, *p.vm); else if (factor == 4) GO(HG, *p.tgt, *p.tree); else GO(CI, *p.tgt, *p.tree);
  } else { factor %= 4; if (factor == 3 && !p.vm) { Pause pz; p.vm = std::make_shared<GaussianVoxelMap>(leaf); p.vm->insert(*p.tgt); }  // the packaged interface against the serial template interface with the same settings
    RegistrationSetting s; s.type = (RegistrationSetting::RegistrationType)factor; s.num_threads = c.threads; s.max_iterations = c.max_iter; s.rotation_eps = c.reps; s.translation_eps = c.teps; s.voxel_resolution = leaf; s.max_correspondence_distance = c.rej;
    Cfg rc = c; rc.prior.w = 0; rc.max_inner = 10; rc.lambda = 1e-3; if (factor == 3 && (p.n & 1)) { Pause pz; p.vm->set_search_offsets(1); }
    RegistrationResult r;
    if (sim_flip(GH, 35)) for (int i = 0, n = (int)sim_draw(GH, 1, 2); i < n; i++) { int g = 50 + i; RegistrationSetting s2 = s; s2.max_iterations = (int)sim_draw(g, 0, 8); s2.max_correspondence_distance = sim_drawd(g, 0.05, 2.0); s2.num_threads = (int)sim_draw(g, 1, 8); if (sim_flip(g, 30)) s2.type = (RegistrationSetting::RegistrationType)sim_draw(g, 0, 2); s2.rotation_eps *= 50; Eigen::Isometry3d I2 = p.init; { Pause pz; I2.matrix().data()[13] += 0.2; } if (!sim_op_enabled(i)) continue; sim_probe(6, "earlier alignment on the same thread"); if (factor == 3) align(*p.vm, *p.src, I2, s2); else align(*p.tgt, *p.src, *p.tree, I2, s2); }
    if (mode < 9) { r = factor == 3 ? align(*p.vm, *p.src, p.init, s) : align(*p.tgt, *p.src, *p.tree, p.init, s); }
    else {
      std::vector<Eigen::Vector3d> tp, sp; static const double rs[] = {0.02, 0.02, 0.2, 0.5, 0.9}; double res = rs[sim_draw(3, 0, 4)]; if (sim_draw(3, 0, 1)) { leaf = sim_drawd(3, 0.25, 2.0); s.voxel_resolution = leaf; } { Pause pz; for (auto& x : p.tgt->points) tp.emplace_back(x.data()[0], x.data()[1], x.data()[2]); for (auto& x : p.src->points) sp.emplace_back(x.data()[0], x.data()[1], x.data()[2]); }
      s.downsampling_resolution = res; r = align(tp, sp, p.init, s); Pause pz;
      auto pt = preprocess_points(PointCloud(tp), res, 10, 1), ps = preprocess_points(PointCloud(sp), res, 10, 1); p.tgt = pt.first; p.tree = pt.second; p.src = ps.first; if (factor == 3) { p.vm = create_gaussian_voxelmap(*p.tgt, leaf); } h1 = hash_cloud(*p.tgt); h2 = hash_cloud(*p.src); p.n = p.src->size();
    }
    if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
    Pause pz; check_rigid(r.T_target_source); if (r.iterations > (size_t)s.max_iterations) sim_violation("bad-record", "%zu iterations with a limit of %d", r.iterations, s.max_iterations); if (r.num_inliers > p.n) sim_violation("bad-record", "%zu inliers of %zu points", r.num_inliers, p.n); sim_probe(4, "packaged interface");
    RegistrationResult ref; if (factor == 0) ref = run1<ICPFactor, LevenbergMarquardtOptimizer>(*p.tgt, *p.src, *p.tree, p, rc, 0, nullptr); else if (factor == 1) ref = run1<PointToPlaneICPFactor, LevenbergMarquardtOptimizer>(*p.tgt, *p.src, *p.tree, p, rc, 0, nullptr); else if (factor == 2) ref = run1<GICPFactor, LevenbergMarquardtOptimizer>(*p.tgt, *p.src, *p.tree, p, rc, 0, nullptr); else ref = run1<GICPFactor, LevenbergMarquardtOptimizer>(*p.vm, *p.src, *p.vm, p, rc, 0, nullptr);
    if (p.well && conditioned(ref)) { check_pose_same(r, ref, p, mode < 9 ? "packaged interface" : "packaged interface on raw points"); if (r.num_inliers != ref.num_inliers) sim_violation("schedule-dependent-result", "packaged interface: %zu inliers, serial reference %zu", r.num_inliers, ref.num_inliers); }
  }
  Pause pz; if (hash_cloud(*p.tgt) != h1 || hash_cloud(*p.src) != h2) sim_violation("input-modified", "the registration changed an input cloud");
}
