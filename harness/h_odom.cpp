// C11 / C12 odometry engines: one pose per frame, equal to the serial reference on every schedule, independent of other runs.  C17: their thread limit.
#include "common.hpp"
#include <iostream>
#include <functional>
#include <string>
#include <cmath>
#include <new>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/benchmark/benchmark_odom.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C11", "C12", "C17", nullptr};
extern "C" void harness_init(const char*) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
using H6 = Eigen::Matrix<double, 6, 6>; using Traj = std::vector<Eigen::Isometry3d>;
enum { PAIR_GICP, PAIR_VGICP, MODEL_GICP, MODEL_VGICP, PCLREG };
struct Eng { const char* name; int family; int par; };  // par: 0 serial 1 OpenMP 2 TBB 3 pipelined TBB 4 PCL
static const Eng ENG[] = {{"small_gicp", PAIR_GICP, 0}, {"small_gicp_omp", PAIR_GICP, 1}, {"small_gicp_tbb", PAIR_GICP, 2}, {"small_gicp_tbb_flow", PAIR_GICP, 3}, {"small_vgicp_omp", PAIR_VGICP, 1}, {"small_vgicp_tbb", PAIR_VGICP, 2}, {"small_gicp_model_omp", MODEL_GICP, 1}, {"small_gicp_model_tbb", MODEL_GICP, 2}, {"small_vgicp_model_omp", MODEL_VGICP, 1}, {"small_vgicp_model_tbb", MODEL_VGICP, 2}, {"small_gicp_pcl", PCLREG, 4}};
enum { NENG = 11, FLOW = 3, VGICP_OMP = 4, PCLE = 10 };
struct Seq { std::vector<std::vector<double>> f; std::vector<std::vector<double>> truth; bool well, hasempty; int nf; size_t np; };  // truth: 16 numbers, frame -> first frame
struct Ref { Traj t; std::vector<char> ok; };                                                                                    // ok[i]: poses 0..i are well conditioned
static void put_T(double* o, const Eigen::Isometry3d& T) { for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) o[r * 4 + c] = T.data()[c * 4 + r]; }
static bool conditioned(const RegistrationResult& r) { if (r.num_inliers < 12 || !r.converged) return false; Eigen::SelfAdjointEigenSolver<H6> es(r.H); return es.eigenvalues()[0] > 1e-6 * es.eigenvalues()[5]; }
// a room with a floor, two walls and a box seen from a slowly moving sensor; the same surface points in every frame, some of them dropped, or degenerate frames
static Seq make_seq(int g, int nf, bool allowempty, bool tiny) {
  Seq s; s.nf = nf; s.hasempty = false; s.well = !tiny && sim_flip(g, 80); size_t n = tiny ? sim_draw(g, 3, 12) : s.well ? sim_draw(g, 120, 300) : sim_draw(g, 1, 60); if (s.well && sim_flip(g, 4)) { n = sim_draw(g, 900, 1800); sim_probe(9, "large frames"); } s.np = n; uint64_t seed = sim_draw(g, 1, 1000000); double dropp = sim_flip(g, 50) ? 0 : sim_drawd(g, 0.0, 0.2); bool noise = sim_flip(g, 30); int empty = allowempty && sim_flip(g, 12) ? (int)sim_draw(g, 0, nf ? nf - 1 : 0) : -1; Pause pz;
  auto U = [&](uint64_t k, double lo, double hi) { return lo + (hi - lo) * (double)(sim_rand64(seed, k) >> 11) / 9007199254740992.0; };
  std::vector<double> w(3 * n); for (size_t i = 0; i < n; i++) { double a = U(10 * i, -4, 4), b = U(10 * i + 1, -4, 4); double* p = &w[3 * i]; switch (s.well ? (int)(sim_rand64(seed, 10 * i + 2) % 5) : 4) { case 0: case 1: p[0] = a; p[1] = b; p[2] = -1.5; break; case 2: p[0] = 4; p[1] = a; p[2] = 0.4 * b; break; case 3: p[0] = a; p[1] = -4; p[2] = 0.4 * b; break; default: p[0] = a; p[1] = b; p[2] = U(10 * i + 3, -1.5, 1.5); } }
  double T[16], xi[6]; for (int d = 0; d < 16; d++) T[d] = d % 5 == 0; double vel[6]; for (int d = 0; d < 3; d++) vel[d] = U(7777 + d, -0.02, 0.02); for (int d = 3; d < 6; d++) vel[d] = U(7777 + d, -0.12, 0.12);
  for (int f = 0; f < nf; f++) {
    if (f) { double D[16], N[16]; for (int d = 0; d < 6; d++) xi[d] = vel[d] * U(9000 + 10 * f + d, 0.5, 1.2); or_se3_exp(xi, D); or_mat4_mul(T, D, N); memcpy(T, N, 128); }
    s.truth.emplace_back(T, T + 16); double Ti[16]; or_mat4_inv_rigid(T, Ti); std::vector<double> c;
    if (f == empty) { s.hasempty = true; s.well = false; } else for (size_t i = 0; i < n; i++) { if (U(1000000 + (uint64_t)f * 5000 + i, 0, 1) < dropp) continue; double p[4] = {w[3 * i], w[3 * i + 1], w[3 * i + 2], 1}, q[4]; or_transform(Ti, p, q); for (int d = 0; d < 3; d++) { if (noise) q[d] += U(90000000 + ((uint64_t)f * 5000 + i) * 3 + d, -0.004, 0.004); c.push_back(q[d]); } c.push_back(1); }
    s.f.push_back(c);
  }
  return s;
}
static std::vector<PointCloud::Ptr> clouds(const Seq& s) { Pause pz; std::vector<PointCloud::Ptr> v; for (auto& c : s.f) { auto p = std::make_shared<PointCloud>(); p->resize(c.size() / 4); for (size_t i = 0; i < p->size(); i++) { for (int d = 0; d < 4; d++) p->points[i].data()[d] = c[4 * i + d]; p->normals[i].setZero(); p->covs[i].setZero(); } v.push_back(p); } return v; }
static OdometryEstimationParams draw_params(int g) { OdometryEstimationParams p; p.num_threads = draw_threads(g); p.num_neighbors = (int)sim_draw(g, 8, 20); static const double ds[] = {0.25, 0.11, 0.37, 0.5}; p.downsampling_resolution = ds[sim_draw(g, 0, 3)]; static const double vr[] = {1.0, 2.0, 0.7, 1.5}; p.voxel_resolution = vr[sim_draw(g, 0, 3)]; p.max_correspondence_distance = sim_flip(g, 70) ? 1.0 : sim_drawd(g, 0.3, 3.0); return p; }
// the algorithm of each family written with the serial parts of the library, one frame at a time, nothing kept from elsewhere
static Ref reference(const Seq& s, const OdometryEstimationParams& p, int family) {
  Pause pz; Ref r; Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); std::shared_ptr<PointCloud> last; std::shared_ptr<KdTree<PointCloud>> ltree; std::shared_ptr<GaussianVoxelMap> lmap; std::shared_ptr<IncrementalVoxelMap<FlatContainerCov>> imap; bool ok = true; auto in = clouds(s);
  for (size_t i = 0; i < in.size(); i++) {
    auto c = voxelgrid_sampling(*in[i], p.downsampling_resolution); auto tree = std::make_shared<KdTree<PointCloud>>(c); estimate_covariances(*c, *tree, p.num_neighbors); RegistrationResult q(Eigen::Isometry3d::Identity()); bool reg = i > 0;
    if (family == PAIR_GICP || family == PCLREG) { if (i) { Registration<GICPFactor, SerialReduction> g; g.rejector.max_dist_sq = p.max_correspondence_distance * p.max_correspondence_distance; q = g.align(*last, *c, *ltree, Eigen::Isometry3d::Identity()); T = T * q.T_target_source; } last = c; ltree = tree; }
    else if (family == PAIR_VGICP) { auto m = std::make_shared<GaussianVoxelMap>(p.voxel_resolution); m->insert(*c); if (i) { Registration<GICPFactor, SerialReduction> g; g.rejector.max_dist_sq = p.max_correspondence_distance * p.max_correspondence_distance; q = g.align(*lmap, *c, *lmap, Eigen::Isometry3d::Identity()); T = T * q.T_target_source; } lmap = m; }
    else if (family == MODEL_GICP) { if (i) { Registration<GICPFactor, SerialReduction> g; q = g.align(*imap, *c, *imap, T); T = q.T_target_source; imap->insert(*c, T); } else { imap = std::make_shared<IncrementalVoxelMap<FlatContainerCov>>(p.voxel_resolution); imap->insert(*c); } }
    else { if (i) { Registration<GICPFactor, SerialReduction> g; q = g.align(*lmap, *c, *lmap, T); T = q.T_target_source; lmap->insert(*c, T); } else { lmap = std::make_shared<GaussianVoxelMap>(p.voxel_resolution); lmap->insert(*c); } }
    if (reg && !conditioned(q)) ok = false; r.t.push_back(T); r.ok.push_back(ok);
  }
  return r;
}
struct Run { int e; OdometryEstimationParams p; const Seq* s; Traj out; bool threw; uint64_t armk; int armb; int fired; };
static void run_engine(void* a) {
  Run* r = (Run*)a; r->threw = false; r->fired = 0; std::vector<PointCloud::Ptr> in = clouds(*r->s);
  try { auto o = create_odometry(ENG[r->e].name, r->p); if (!o) sim_violation("no-engine", "create_odometry returned nothing for %s", ENG[r->e].name); if (r->armb) { sim_alloc_outside_omp(1); sim_alloc_arm(r->armk, r->armb); } r->out = o->estimate(in); if (r->armb) { r->fired = sim_alloc_disarm(); r->armb = 0; } }
  catch (const std::bad_alloc&) { if (r->armb) r->fired = sim_alloc_disarm(); r->threw = true; if (!r->fired) sim_violation("exception", "%s threw bad_alloc though every allocation succeeded", ENG[r->e].name); }
}
static int g_stop_v; __attribute__((no_sanitize("thread"), noinline)) static int stopped() { return __atomic_load_n(&g_stop_v, __ATOMIC_RELAXED); } __attribute__((no_sanitize("thread"), noinline)) static void set_stop(int v) { __atomic_store_n(&g_stop_v, v, __ATOMIC_RELAXED); }
static void clock_jumper(void* a) { int g = *(int*)a; for (int i = 0; i < 40 && !stopped(); i++) { int64_t j = (int64_t)sim_draw(g, 1, 100000) * 1000000ll * (sim_flip(g, 50) ? -1 : 1); sim_clock_jump(j); sim_fault_fired(30, "clock jump"); for (int k = 0; k < 25 && !stopped(); k++) { sim_clock_advance(20000000); sim_point(); } } }
static double diff(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b, double* dt) { double A[16], B[16]; put_T(A, a); put_T(B, b); *dt = or_trans_between(A, B); return or_rot_angle_between(A, B); }
static void check(const Run& r, const Ref* ref, const char* when, bool flow_again) {
  const char* n = ENG[r.e].name; const Traj& t = r.out; if (t.size() != (size_t)r.s->nf) sim_violation("pose-count", "%s%s: %zu poses for %d frames", n, when, t.size(), r.s->nf);
  for (size_t i = 0; i < t.size(); i++) { const double* d = t[i].data(); for (int k = 0; k < 16; k++) if (!std::isfinite(d[k])) sim_violation("bad-pose", "%s%s: pose %zu is not finite", n, when, i); sim_digest_bytes(d, 128); }
  if (!t.size()) return;
  // motions relative to the first pose are compared, so that a wrong first pose does not hide or feign others
  bool id = true; for (int k = 0; k < 16; k++) if (t[0].data()[k] != (k % 5 == 0 ? 1.0 : 0.0)) id = false;
  bool rel = !id; double tr = ENG[r.e].par == 4 ? 2e-2 : 1e-4, tt = ENG[r.e].par == 4 ? 5e-2 : 5e-4; Eigen::Isometry3d first_inv = t[0].inverse();
  if (ref) for (size_t i = 0; i < t.size(); i++) if (ref->ok[i] && (ENG[r.e].par != 4 || r.s->well)) { double dt, dr = diff(rel ? first_inv * t[i] : t[i], ref->t[i], &dt); sim_probe(1, "pose compared with the serial reference"); if (!(dr <= tr * (i + 1) && dt <= tt * (i + 1))) sim_violation("wrong-pose", "%s%s: pose %zu of %zu differs from the serial reference by %.3g rad / %.3g m", n, when, i, t.size(), dr, dt); }
  if ((ENG[r.e].family == PAIR_GICP || ENG[r.e].family == PCLREG) && r.s->well && ref && ref->ok.back() && r.p.max_correspondence_distance >= 0.5 && r.s->np >= 180 && r.p.downsampling_resolution < 0.3) for (size_t i = 0; i < t.size(); i++) { Eigen::Isometry3d G; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) G.matrix().data()[b * 4 + a] = r.s->truth[i][a * 4 + b]; double dt, dr = diff(rel ? first_inv * t[i] : t[i], G, &dt); if (sim_verbose()) fprintf(stderr, "truth %s %zu: %g %g\n", n, i, dr, dt); if (i == 0) continue; sim_probe(2, "pose compared with the true motion"); double lr = 0.05 + 0.01 * i, lt = 0.2 + 0.05 * i; if (!(dr <= lr && dt <= lt)) sim_violation("wrong-motion", "%s%s: pose %zu is off the true motion by %.3g rad / %.3g m", n, when, i, dr, dt); }
  if (!id) sim_violation("first-pose", "%s%s: the first pose is not identity%s", n, when, flow_again ? " (the engine ran before in this process)" : "");
}
static int draw_engine(int g) { int e = (int)sim_draw(g, 0, NENG + 2); return e >= NENG ? FLOW : e; }
static void left_behind(int e) { if (sim_omp_active_teams()) sim_violation("work-left-behind", "%s: a parallel region is still active after the run", ENG[e].name); sim_quiesce(); if (sim_tbb_live_workers_busy()) sim_violation("work-left-behind", "%s: tasks are still executing after the run", ENG[e].name); }
static void run_c11() {
  int e = draw_engine(0); bool tiny = sim_flip(0, 2); int nf = tiny ? 258 : sim_flip(0, 10) ? (int)sim_draw(0, 0, 1) : (int)sim_draw(0, 2, ENG[e].par == 3 ? 6 : 5); if (tiny && e == PCLE) e = FLOW; Run r; r.e = e; r.armb = 0; r.p = draw_params(1); Seq s = make_seq(2, nf, e != PCLE, tiny); r.s = &s; sim_set_step_limit(s.np > 500 ? 400000000 : 60000000);
  sim_sample("%s threads=%d frames=%d points=%zu %s leaf=%g voxel=%g", ENG[e].name, r.p.num_threads, nf, s.np, s.well ? "room" : s.hasempty ? "with an empty frame" : "sparse", r.p.downsampling_resolution, r.p.voxel_resolution); sim_set_nontrivial(nf > 1);
  int g = 5, jt = -1; set_stop(0); if (sim_flip(0, 25)) jt = sim_spawn(clock_jumper, &g);
  run_engine(&r); left_behind(e); if (jt >= 0) { set_stop(1); sim_join(jt); }
  if (s.hasempty) sim_probe(3, "a frame without points"); if (tiny) sim_probe(4, "more than 256 frames"); if (nf < 2) sim_probe(5, "zero or one frame"); if (e == FLOW && nf > 2) sim_probe(6, "pipelined engine with three or more frames");
  Ref ref = reference(s, r.p, ENG[e].family); Pause pz; check(r, &ref, "", false);
}
static void run_c12() {
  int nh = (int)sim_draw(0, 0, 3), e = draw_engine(0); bool flow_before = false; Seq sp[4]; char h[160] = ""; OdometryEstimationParams pp[4]; sim_set_step_limit(600000000); int g = 5, jt = -1; set_stop(0); Seq s = make_seq(2, (int)sim_draw(0, 2, 4), e != PCLE, false); OdometryEstimationParams p = draw_params(1);
  Run same; same.e = -1; bool clocks = sim_flip(0, 40); if (clocks) jt = sim_spawn(clock_jumper, &g);
  for (int i = 0; i < nh; i++) if (sim_op_enabled(i)) {
    int pe = sim_flip(0, 50) ? e : draw_engine(0); bool repeat = pe == e && sim_flip(0, 25); if (!repeat) sp[i] = make_seq(10 + i, (int)sim_draw(0, 1, 3), pe != PCLE, false); Run q; q.e = pe; q.p = repeat ? p : draw_params(20 + i); q.s = repeat ? &s : &sp[i]; q.armb = 0; if (pe != FLOW && pe != PCLE && !repeat && sim_flip(0, 35)) { q.armk = sim_draw(0, 0, 600); q.armb = (int)sim_draw(0, 1, 3); }
    int armed = q.armb; run_engine(&q); snprintf(h + strlen(h), 160 - strlen(h), " %s%s%s", ENG[pe].name, repeat ? "(same)" : "", q.threw ? "(failed)" : ""); if (q.threw) sim_probe(10, "an earlier run failed"); if (repeat) sim_probe(11, "the same run was made before"); (void)armed; left_behind(pe); if (pe == FLOW && q.s->nf > 0) flow_before = true;
    if (repeat && same.e < 0) same = q;
  }
  Run r; r.e = e; r.p = p; r.s = &s; r.armb = 0; Run nb; int nt = -1; Seq ns; nb.e = -1;
  if (sim_flip(0, 35)) { nb.e = draw_engine(0); if (nb.e == FLOW && (e == FLOW || flow_before)) nb.e = 0; ns = make_seq(15, (int)sim_draw(0, 1, 3), nb.e != PCLE, false); nb.p = draw_params(25); nb.s = &ns; nb.armb = 0; nt = sim_spawn(run_engine, &nb); sim_probe(12, "a neighbouring run at the same time"); }
  bool again = e == FLOW && flow_before; if (again) sim_context("flow-again");
  sim_sample("%s threads=%d frames=%d after:%s%s%s%s", ENG[e].name, p.num_threads, s.nf, h, nt >= 0 ? " beside " : "", nt >= 0 ? ENG[nb.e].name : "", clocks ? " clock jumps" : ""); sim_set_nontrivial(nh > 0 || nt >= 0 || clocks);
  run_engine(&r); if (nt >= 0) sim_join(nt); left_behind(e); if (jt >= 0) { set_stop(1); sim_join(jt); }
  Ref ref = reference(s, p, ENG[e].family); if (nt >= 0) { Ref nref = reference(ns, nb.p, ENG[nb.e].family); Pause pz; check(nb, &nref, " (neighbour)", false); }
  Pause pz; check(r, &ref, " (after other runs)", again);
  if (same.e >= 0 && !again) for (size_t i = 0; i < r.out.size(); i++) { double dt, dr = diff(r.out[i], same.out[i], &dt); if (ENG[e].par == 0 ? memcmp(r.out[i].data(), same.out[i].data(), 128) != 0 : ref.ok[i] && !(dr <= 1e-4 * (i + 1) && dt <= 5e-4 * (i + 1))) sim_violation("not-repeatable", "%s: pose %zu of the repeated run differs by %.3g rad / %.3g m", ENG[e].name, i, dr, dt); }
  if (create_odometry("no such engine", p)) sim_violation("no-engine", "an unknown engine name was accepted");
}
static void run_c17() {
  int e = (int)sim_draw(0, 0, NENG - 1); Run r; r.e = e; r.armb = 0; r.p = draw_params(1); r.p.num_threads = sim_flip(0, 40) ? 1 : (int)sim_draw(0, 1, 8); Seq s = make_seq(2, (int)sim_draw(0, 1, 3), e != PCLE, false); r.s = &s; if (e == VGICP_OMP) sim_context("small_vgicp_omp");
  sim_sample("%s num_threads=%d frames=%d", ENG[e].name, r.p.num_threads, s.nf); sim_set_nontrivial(s.nf > 1);
  sim_omp_reset_peak(); sim_tbb_peak_busy(1); uint64_t st = sim_thread_starts(); run_engine(&r); int peak = sim_omp_peak_request(); int lim = e == 0 ? 1 : r.p.num_threads;
  if (peak > lim) sim_violation("thread-limit", "engine %s with num_threads=%d asked for %d threads at one moment", ENG[e].name, lim, peak); if (lim == 1 && sim_thread_starts() != st) sim_violation("thread-limit", "engine %s with num_threads=1 handed work to another thread", ENG[e].name); left_behind(e);
  int busy = sim_tbb_peak_busy(0); if (busy > lim - 1) sim_violation("thread-limit", "engine %s with num_threads=%d had %d workers executing beside the caller at one moment", ENG[e].name, lim, busy); if (busy) sim_probe(20, "TBB workers took part");
  Ref ref = reference(s, r.p, ENG[e].family); Pause pz; check(r, &ref, "", false);
}
extern "C" void harness_run(const char* p) { if (!strcmp(p, "C11")) run_c11(); else if (!strcmp(p, "C12")) run_c12(); else run_c17(); }
