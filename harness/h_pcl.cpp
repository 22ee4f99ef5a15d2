// C14 PCL-style registration: result depends only on current inputs and settings, whatever the call history
#include "common.hpp"
#include <iostream>
#include <cmath>
#include <new>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <pcl/console/print.h>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C14", "C06", "C17", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS); }
using P = pcl::PointXYZ; using PC = pcl::PointCloud<P>; using H6 = Eigen::Matrix<double, 6, 6>; using Covs = std::vector<Eigen::Matrix4d>;
struct Reg : RegistrationPCL<P, P> {
  using Base = RegistrationPCL<P, P>; uint64_t k = 0; int burst = 0, fired = 0;  // the fault is confined to small_gicp's own part of align()
  void computeTransformation(PC& o, const Base::Matrix4& g) override {
    if (!burst) { Base::computeTransformation(o, g); return; }
    sim_alloc_outside_omp(1); sim_alloc_arm(k, burst);
    try { Base::computeTransformation(o, g); } catch (...) { fired += sim_alloc_disarm(); burst = 0; throw; }
    fired += sim_alloc_disarm(); burst = 0;
  }
};
struct Model { int src = -1, tgt = -1; std::shared_ptr<Covs> us, ut; int k = 20, threads = 4, maxit = 10; double res = 1.0, corr = 1000.0, reps = 2e-3, teps = 5e-4; bool vg = false; };
static std::vector<PC::Ptr> pool; static std::vector<std::vector<double>> poolpts; static int emptyc;
static std::shared_ptr<Covs> make_covs(size_t n, uint64_t seed) { auto c = std::make_shared<Covs>(n); for (size_t i = 0; i < n; i++) { double a[9]; for (int k = 0; k < 9; k++) a[k] = (double)(sim_rand64(seed, i * 9 + k) % 2001) / 1000.0 - 1.0; Eigen::Matrix4d m = Eigen::Matrix4d::Zero(); for (int r = 0; r < 3; r++) for (int q = 0; q < 3; q++) { double s = r == q ? 0.3 : 0; for (int k = 0; k < 3; k++) s += a[r * 3 + k] * a[q * 3 + k]; m.data()[q * 4 + r] = s * 0.3; } (*c)[i] = m; } return c; }
static void apply_settings(Reg& r, const Model& m) { r.setNumThreads(1); r.setNumNeighborsForCovariance(m.k); r.setVoxelResolution(m.res); r.setRegistrationType(m.vg ? "VGICP" : "GICP"); r.setMaximumIterations(m.maxit); r.setMaxCorrespondenceDistance(m.corr); r.setRotationEpsilon(m.reps); r.setTransformationEpsilon(m.teps); }
static void put_T(double* o, const Eigen::Matrix4f& T) { for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) o[r * 4 + c] = T.data()[c * 4 + r]; }
static bool conditioned(const RegistrationResult& r) { if (r.num_inliers < 12) return false; Eigen::SelfAdjointEigenSolver<H6> es(r.H); return es.eigenvalues()[0] > 1e-6 * es.eigenvalues()[5]; }
static bool same_covs(const Covs& a, const Covs& b, size_t* at) { if (a.size() != b.size()) { *at = 0; return false; } for (size_t i = 0; i < a.size(); i++) { double s = 0; for (int k = 0; k < 16; k++) s = std::max(s, std::fabs(b[i].data()[k])); for (int k = 0; k < 16; k++) if (!(std::fabs(a[i].data()[k] - b[i].data()[k]) <= 1e-9 * (1e-12 + s))) { *at = i; return false; } } return true; }
// the same alignment written out with the library's serial parts on plain clouds: every setting of the object has to have its effect
static RegistrationResult reference(const Model& m, const Eigen::Matrix4f& guess, double eps) {
  auto twin = [&](int cl, const std::shared_ptr<Covs>& u) { auto c = std::make_shared<PointCloud>(); size_t n = poolpts[cl].size() / 4; c->resize(n); for (size_t i = 0; i < n; i++) for (int d = 0; d < 4; d++) c->points[i].data()[d] = poolpts[cl][4 * i + d]; if (u && u->size() == n) c->covs = *u; else { KdTree<PointCloud> t(c); estimate_covariances(*c, t, m.k); } return c; };
  auto t = twin(m.tgt, m.ut), s = twin(m.src, m.us); Registration<GICPFactor, SerialReduction> r; r.rejector.max_dist_sq = m.corr * m.corr; r.criteria.rotation_eps = m.reps * eps; r.criteria.translation_eps = m.teps * eps; r.optimizer.max_iterations = m.maxit; Eigen::Isometry3d G(guess.cast<double>());
  if (!m.vg) { KdTree<PointCloud> tree(t); return r.align(*t, *s, tree, G); } GaussianVoxelMap v(m.res); v.insert(*t); return r.align(v, *s, v, G);
}
static void check_settings(const Model& m, const RegistrationResult& b, const Eigen::Matrix4f& guess, const char* hist) {
  RegistrationResult r = reference(m, guess, 1.0); if (b.iterations > (size_t)m.maxit) sim_violation("bad-record", "%zu iterations with a limit of %d (%s)", b.iterations, m.maxit, hist); if (!conditioned(r)) return; sim_probe(10, "compared with the library's parts");
  if (m.maxit <= 1) { double sh = 0; for (int k = 0; k < 36; k++) sh = std::max(sh, std::fabs(r.H.data()[k])); for (int k = 0; k < 36; k++) if (!(std::fabs(b.H.data()[k] - r.H.data()[k]) <= 1e-7 * sh)) sim_violation("setting-ignored", "H(%d,%d)=%g, of the library's own parts with the same settings %g (%s)", k % 6, k / 6, b.H.data()[k], r.H.data()[k], hist); if (b.num_inliers != r.num_inliers) sim_violation("setting-ignored", "%zu inliers, %zu with the library's own parts and the same settings (%s)", b.num_inliers, r.num_inliers, hist); return; }
  RegistrationResult lo = reference(m, guess, 0.99), hi = reference(m, guess, 1.01); if (lo.iterations != hi.iterations || lo.converged != hi.converged || lo.iterations != r.iterations) return;  // the step criteria are met or missed by a hair
  if (b.iterations != r.iterations || b.converged != r.converged) sim_violation("setting-ignored", "%zu iterations, converged=%d; %zu and %d with the library's own parts and the same settings (%s)", b.iterations, (int)b.converged, r.iterations, (int)r.converged, hist);
  double A[16], B[16]; for (int i = 0; i < 4; i++) for (int c = 0; c < 4; c++) { A[i * 4 + c] = b.T_target_source.matrix().data()[c * 4 + i]; B[i * 4 + c] = r.T_target_source.matrix().data()[c * 4 + i]; } double dt = or_trans_between(A, B), dr = or_rot_angle_between(A, B);
  if (!(dr <= 2e-3 && dt <= 2e-3)) sim_violation("setting-ignored", "pose differs from that of the library's own parts with the same settings by %.3g rad / %.3g m (%s)", dr, dt, hist);
}
// does the fresh object reproduce the answer of the object with a history?
static void check_align(Reg& reg, const Model& m, PC& out, const Eigen::Matrix4f& guess, const char* hist) {
  Pause pz; Reg f; apply_settings(f, m); f.setInputTarget(pool[m.tgt]); f.setInputSource(pool[m.src]); if (m.ut) f.setTargetCovariances(*m.ut); if (m.us) f.setSourceCovariances(*m.us);
  PC fo; f.align(fo, guess); check_settings(m, f.getRegistrationResult(), guess, hist); const RegistrationResult &a = reg.getRegistrationResult(), &b = f.getRegistrationResult(); size_t at;
  if (!same_covs(reg.getTargetCovariances(), f.getTargetCovariances(), &at)) sim_violation("stale-cache", "target covariances differ from those of a fresh object at %zu (%s)", at, hist);
  if (!same_covs(reg.getSourceCovariances(), f.getSourceCovariances(), &at)) sim_violation("stale-cache", "source covariances differ from those of a fresh object at %zu (%s)", at, hist);
  auto rel = [](double x, double y, double tol) { return std::fabs(x - y) <= tol * (std::fabs(x) + std::fabs(y)) + 1e-300; };
  double sh = 0; for (int k = 0; k < 36; k++) sh = std::max(sh, std::fabs(b.H.data()[k]));
  bool cond = conditioned(b); bool first = m.maxit <= 1;
  if (cond || first) {
    double tol = first ? 1e-7 : 1e-3; sim_probe(0, "compared with a fresh object");
    if (first || a.iterations == b.iterations) for (int k = 0; k < 36; k++) if (!(std::fabs(a.H.data()[k] - b.H.data()[k]) <= tol * sh + 1e-300)) sim_violation("stale-cache", "H(%d,%d)=%g, fresh object %g (%s)", k % 6, k / 6, a.H.data()[k], b.H.data()[k], hist);
    if (first && a.num_inliers != b.num_inliers) sim_violation("stale-cache", "%zu inliers, fresh object %zu (%s)", a.num_inliers, b.num_inliers, hist);
  }
  double A[16], B[16]; put_T(A, reg.getFinalTransformation()); put_T(B, f.getFinalTransformation());
  if (cond) { double dt = or_trans_between(A, B), dr = or_rot_angle_between(A, B); if (!(dr <= 2e-3 && dt <= 2e-3)) sim_violation("stale-cache", "pose differs from that of a fresh object by %.3g rad / %.3g m (iterations %zu vs %zu; %s)", dr, dt, a.iterations, b.iterations, hist); }
  if (a.converged != reg.hasConverged()) sim_violation("inconsistent-record", "hasConverged()=%d but the result says %d (%s)", (int)reg.hasConverged(), (int)a.converged, hist);
  if (cond && rel(a.error, b.error, 1e-9) && a.iterations == b.iterations && a.converged != b.converged) sim_violation("stale-cache", "converged=%d, fresh object %d (%s)", (int)a.converged, (int)b.converged, hist);
  for (int k = 0; k < 16; k++) { double x = (float)a.T_target_source.matrix().data()[(k % 4) * 4 + k / 4]; if (x != A[k]) sim_violation("inconsistent-record", "final transformation is not that of the registration result (%s)", hist); }
  for (int k = 0; k < 36; k++) if (reg.getFinalHessian().data()[k] != a.H.data()[k]) sim_violation("inconsistent-record", "final Hessian is not that of the registration result (%s)", hist);
  const auto& sp = poolpts[m.src]; size_t n = sp.size() / 4; if (out.size() != n) sim_violation("inconsistent-record", "aligned output has %zu points, the source %zu (%s)", out.size(), n, hist);
  bool fin = true; for (int k = 0; k < 16; k++) if (!std::isfinite(A[k])) fin = false;
  if (!fin) return;
  std::vector<double> tp(4 * n + 4); for (size_t i = 0; i < n; i++) { or_transform(A, &sp[4 * i], &tp[4 * i]); double s = 1; for (int d = 0; d < 3; d++) s += std::fabs(sp[4 * i + d]) + std::fabs(tp[4 * i + d]); for (int d = 0; d < 3; d++) if (!(std::fabs(out.points[i].data[d] - tp[4 * i + d]) <= 1e-5 * s)) sim_violation("inconsistent-record", "aligned point %zu is not the transformed source point (%s)", i, hist); }
  double far = 0; for (int d = 0; d < 3; d++) far = std::max(far, std::fabs(A[d * 4 + 3])); if (far > 100) return;
  double fs = 0, exp = 0; fs = reg.getFitnessScore(); const auto& tq = poolpts[m.tgt]; for (size_t i = 0; i < n; i++) { size_t id; double sq; or_knn(tq.data(), tq.size() / 4, &tp[4 * i], 1, &id, &sq); exp += sq; } exp /= n;
  if (!(std::fabs(fs - exp) <= 1e-3 * exp + 1e-6)) sim_violation("inconsistent-record", "fitness score %.9g, mean squared distance to the current target %.9g (%s)", fs, exp, hist);
  sim_digest_bytes(A, 128); sim_digest_bytes(&fs, 8); sim_probe(1, "fitness recomputed");
}
static char hist[400]; static void note(const char* f, int a) { size_t l = strlen(hist); if (l < sizeof hist - 20) snprintf(hist + l, 20, f, a); }
extern "C" void harness_run(const char* prop) {
  bool only_settings = prop[2] == '6', threads_only = prop[2] == '7'; int nthr = 4;
  hist[0] = 0; pool.clear(); poolpts.clear(); int nt0 = 4; if (threads_only) { nt0 = (int)sim_draw(2, 1, 8); nthr = nt0; } sim_set_tbb_concurrency(1);
  static const int kinds[] = {10, 0, 7, 1}; int kind = kinds[sim_draw(1, 0, 3)]; size_t base = sim_draw(1, 40, 110); if (sim_flip(1, 2)) { base = sim_draw(1, 500, 1400); sim_probe(9, "large clouds"); } Cloud c = make_cloud(1, base, kind, 6.0); int npool = 4;
  for (int j = 0; j < npool; j++) { double xi[6], T[16]; for (int d = 0; d < 3; d++) xi[d] = sim_drawd(1, -0.03, 0.03); for (int d = 3; d < 6; d++) xi[d] = sim_drawd(1, -0.15, 0.15); size_t n = j == 1 ? base : sim_draw(1, base / 2, base); or_se3_exp(xi, T); Pause pz; auto pc = pcl::make_shared<PC>(); pc->resize(n); std::vector<double> q(4 * n + 4); for (size_t i = 0; i < n; i++) { double t[4]; size_t s = j & 1 ? i : base - 1 - i; or_transform(T, c.p + 4 * s, t); for (int d = 0; d < 3; d++) { pc->points[i].data[d] = (float)t[d]; q[4 * i + d] = pc->points[i].data[d]; } pc->points[i].data[3] = 1; q[4 * i + 3] = 1; } q.resize(4 * n); pool.push_back(pc); poolpts.push_back(q); }
  // clouds that differ although their headers, sizes and end points are the same
  int hdr = (int)sim_draw(5, 0, 3); for (int j = 0; j < npool; j++) { Pause pz; pool[j]->header.stamp = hdr == 0 ? 0 : hdr == 1 ? 1000 + j : 1234; pool[j]->header.seq = hdr == 1 ? j : 7; pool[j]->header.frame_id = hdr ? "lidar" : ""; pool[j]->width = (uint32_t)pool[j]->size(); pool[j]->height = 1; }
  if (sim_flip(5, 25)) { double dx = sim_drawd(5, 0.1, 0.3); int ax = (int)sim_draw(5, 0, 2); Pause pz; auto pc = pcl::make_shared<PC>(*pool[2]); auto q = poolpts[2]; size_t n = pc->size(); for (size_t i = 1; i + 1 < n; i++) { if (i == n / 2) continue; size_t f = ax == 0 ? n - 1 - i : i; for (int d = 0; d < 3; d++) pc->points[i].data[d] = (float)(pool[2]->points[f].data[d] + (d == ax ? dx : 0)); for (int d = 0; d < 3; d++) q[4 * i + d] = pc->points[i].data[d]; } pool[3] = pc; poolpts[3] = q; sim_probe(11, "clouds with the same size, header and end points"); }
  { Pause pz; pool.push_back(pcl::make_shared<PC>()); poolpts.emplace_back(); emptyc = npool; free(c.p); }
  Model m; int nops = only_settings ? (int)sim_draw(2, 1, 5) : (int)sim_draw(2, 4, 16), aligns = 0, faults = 0; auto regp = std::make_shared<Reg>(); Reg& reg = *regp; reg.setNumThreads(nt0);
  m.maxit = sim_flip(2, 40) ? 1 : (int)sim_draw(2, 2, 10); reg.setMaximumIterations(m.maxit); if (sim_flip(2, 50)) { m.corr = sim_drawd(2, 0.5, 3.0); reg.setMaxCorrespondenceDistance(m.corr); } if (sim_flip(2, 60)) { m.vg = true; reg.setRegistrationType("VGICP"); }
  if (only_settings) { m.reps = std::pow(10.0, sim_drawd(2, -5, -0.5)); m.teps = std::pow(10.0, sim_drawd(2, -5, -0.5)); reg.setRotationEpsilon(m.reps); reg.setTransformationEpsilon(m.teps); if (sim_flip(2, 50)) { m.corr = std::pow(10.0, sim_drawd(2, -1, 1)); reg.setMaxCorrespondenceDistance(m.corr); } if (sim_flip(2, 50)) { m.res = sim_drawd(2, 0.4, 2.5); reg.setVoxelResolution(m.res); } if (sim_flip(2, 50)) { m.maxit = (int)sim_draw(2, 1, 30); reg.setMaximumIterations(m.maxit); } }
  if (!sim_flip(2, 15) || only_settings) { m.src = (int)sim_draw(2, 0, npool - 1); m.tgt = (int)sim_draw(2, 0, npool - 1); reg.setInputSource(pool[m.src]); reg.setInputTarget(pool[m.tgt]); note(" src%d", m.src); note(" tgt%d", m.tgt); }
  if (sim_flip(0, 30)) sim_set_max_workers((int)sim_draw(0, 1, 4));
  sim_sample("pcl history of %d operations, clouds of %zu..%zu points (%s), start %s, max_iter=%d", nops, base / 2, base, or_cloud_name(kind), m.vg ? "VGICP" : "GICP", m.maxit);
  for (int op = 0; op < nops + 1; op++) {
    int what = (int)sim_draw(3, 0, 19); int a1 = (int)sim_draw(3, 0, npool - 1); uint64_t k = sim_draw(3, 0, 40); int burst = (int)sim_draw(3, 1, 3); bool fault = sim_flip(3, 12); double x = sim_drawd(3, 0.5, 3.0); int sel = (int)sim_draw(3, 0, 9); Eigen::Matrix4f guess = Eigen::Matrix4f::Identity(); guess.data()[12] = (float)sim_drawd(3, -0.1, 0.1); if (sim_flip(3, 40)) guess.data()[12] = 0;
    if (only_settings) { what = 8 + what % 5; fault = false; } if (threads_only) fault = false; if (!sim_op_enabled(op)) continue; if (op == nops) { what = 19; fault = false; }
    if (what <= 1 || what == 17) {  // source
      int w = what == 17 && sel < 3 ? emptyc : a1; note(" src%d", w); bool threw = false;
      if (fault && w != emptyc) { sim_alloc_outside_omp(1); sim_alloc_arm(k % 8, burst); try { reg.setInputSource(pool[w]); } catch (std::bad_alloc&) { threw = true; } int fd = sim_alloc_disarm(); faults += fd; if (fd) sim_fault_fired(0, "allocation failure in setInputSource"); }
      else { Guard g(nthr, "setInputSource"); reg.setInputSource(pool[w]); if (threads_only) g.done(); }
      if (threw) { note("!", 0); sim_probe(2, "setInputSource failed and was retried"); if (sel & 1) { reg.setInputSource(pool[w]); } else { int o = (w + 1) % npool; reg.setInputSource(pool[o]); reg.setInputSource(pool[w]); } if (m.src != w || !(sel & 1)) m.us.reset(); m.src = w; }
      else if (w != emptyc) { if (m.src != w) m.us.reset(); m.src = w; }
    } else if (what <= 3 || what == 18) {
      int w = what == 18 && sel < 3 ? emptyc : a1; note(" tgt%d", w); bool threw = false;
      if (fault && w != emptyc) { sim_alloc_outside_omp(1); sim_alloc_arm(k % 8, burst); try { reg.setInputTarget(pool[w]); } catch (std::bad_alloc&) { threw = true; } int fd = sim_alloc_disarm(); faults += fd; if (fd) sim_fault_fired(1, "allocation failure in setInputTarget"); }
      else { Guard g(nthr, "setInputTarget"); reg.setInputTarget(pool[w]); if (threads_only) g.done(); }
      if (threw) { note("!", 0); sim_probe(3, "setInputTarget failed and was retried"); if (sel & 1) { reg.setInputTarget(pool[w]); } else { int o = (w + 1) % npool; reg.setInputTarget(pool[o]); reg.setInputTarget(pool[w]); } if (m.tgt != w || !(sel & 1)) m.ut.reset(); m.tgt = w; }
      else if (w != emptyc) { if (m.tgt != w) m.ut.reset(); m.tgt = w; }
    } else if (what == 4 || what == 5) {  // user covariances, sometimes of the wrong number
      bool s = what == 4; int cl = s ? m.src : m.tgt; size_t n = cl < 0 ? 10 : poolpts[cl].size() / 4; bool bad = sel == 0; if (bad) n++; std::shared_ptr<Covs> cv; { Pause pz; cv = make_covs(n, k * 131 + a1); } note(s ? " scov%d" : " tcov%d", bad); if (s) reg.setSourceCovariances(*cv); else reg.setTargetCovariances(*cv); if (cl >= 0 && !bad) (s ? m.us : m.ut) = cv;
    } else if (what == 6) { note(" swap", 0); reg.swapSourceAndTarget(); std::swap(m.src, m.tgt); std::swap(m.us, m.ut); }
    else if (what == 7) { if (sel < 5) { note(" clrS", 0); reg.clearSource(); m.src = -1; m.us.reset(); } else { note(" clrT", 0); reg.clearTarget(); m.tgt = -1; m.ut.reset(); } }
    else if (what == 8) { double r = sel == 0 ? 0.0 : sel == 1 ? -x : x; note(" res%d", (int)(r * 100)); reg.setVoxelResolution(r); m.res = r <= 0 ? 1.0 : r; }
    else if (what == 9) { if (sel == 0) { reg.setRegistrationType("ICP?"); note(" type?", 0); } else { m.vg = sel & 1; reg.setRegistrationType(m.vg ? "VGICP" : "GICP"); note(" vg%d", m.vg); } }
    else if (what == 10) { int t = sel == 0 ? 0 : (int)(k % 6) + 1; note(" thr%d", t); reg.setNumThreads(t); nthr = t < 1 ? 1 : t; }
    else if (what == 11) { int kk = sel == 0 ? 3 : 5 + (int)(k % 16); note(" k%d", kk); if (sel & 1) reg.setNumNeighborsForCovariance(kk); else reg.setCorrespondenceRandomness(kk); m.k = kk < 5 ? 5 : kk; }
    else if (what == 12) { if (sel < 4) { m.corr = x; reg.setMaxCorrespondenceDistance(x); } else if (sel < 7) { m.maxit = 1 + sel % 3; reg.setMaximumIterations(m.maxit); } else { m.reps = 1e-3 * x; m.teps = 1e-3 * x; reg.setRotationEpsilon(m.reps); reg.setTransformationEpsilon(m.teps); } note(" set%d", sel); }
    else {  // align
      note(" align", 0); auto out = pcl::make_shared<PC>(); if (sel == 9 && m.tgt >= 0) { *out = *pool[m.tgt]; }
      if (m.src < 0 || m.tgt < 0) { reg.align(*out, guess); sim_probe(4, "align without an input"); continue; }
      if (fault && sel != 8) { reg.k = k; reg.burst = burst; bool threw = false; try { reg.align(*out, guess); } catch (std::bad_alloc&) { threw = true; } if (reg.fired) { faults += reg.fired; reg.fired = 0; sim_fault_fired(2, "allocation failure in align"); } if (threw) { note("!", 0); sim_probe(5, "align failed and was retried"); if (sel < 4) continue; reg.align(*out, guess); } }
      else { Guard g(nthr, "RegistrationPCL::align"); reg.align(*out, guess); if (threads_only) g.done(); }
      if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after align");
      aligns++; check_align(reg, m, *out, guess, hist);
    }
  }
  sim_set_nontrivial(aligns > 0 && (only_settings || strlen(hist) > 30));
  Pause pz; for (int j = 0; j < npool; j++) for (size_t i = 0; i < pool[j]->size(); i++) for (int d = 0; d < 4; d++) if (pool[j]->points[i].data[d] != poolpts[j][4 * i + d]) sim_violation("input-modified", "an input cloud was changed");
}
