// C05 reductions: every backend sums every point exactly once
#include "common.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <limits>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C05", nullptr};
extern "C" void harness_init(const char*) {}
using H6 = Eigen::Matrix<double, 6, 6>; using B6 = Eigen::Matrix<double, 6, 1>;
// user-defined factor with integer contributions: the sum is exact in every order
struct IntFactor {
  struct Setting {}; IntFactor(const Setting& = Setting()) : target_index(std::numeric_limits<size_t>::max()), source_index(0) {}
  static uint64_t h(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 1; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
  static long round(const Eigen::Isometry3d& T) { return (long)(T.translation().x() * 16); }
  template <typename A, typename B, typename C, typename D> bool linearize(const A&, const B&, const C&, const Eigen::Isometry3d& T, size_t i, const D&, H6* H, B6* b, double* e) {
    source_index = i; target_index = std::numeric_limits<size_t>::max(); uint64_t r = h(i, round(T)); if (r % 5 == 0) return false; target_index = r % 1000;
    for (int k = 0; k < 36; k++) H->data()[k] = (double)(h(i, k + 7) % 1000); for (int k = 0; k < 6; k++) b->data()[k] = (double)(h(i, k + 50) % 1000) - 500; *e = (double)(r % 4096); return true;
  }
  template <typename A, typename B> double error(const A&, const B&, const Eigen::Isometry3d& T) const { return target_index == std::numeric_limits<size_t>::max() ? 0.0 : (double)(h(source_index, round(T) + 99) % 4096); }
  bool inlier() const { return target_index != std::numeric_limits<size_t>::max(); }
  size_t target_index, source_index;
};
template <typename F> static const F& inner(const F& f) { return f; }
template <typename K, typename F> static const F& inner(const RobustFactor<K, F>& f) { return f.factor; }
template <typename F> struct FI { enum { base = 0, kern = 0 }; };
template <> struct FI<ICPFactor> { enum { base = 1, kern = 0 }; };
template <> struct FI<PointToPlaneICPFactor> { enum { base = 2, kern = 0 }; };
template <> struct FI<GICPFactor> { enum { base = 3, kern = 0 }; };
template <typename F> struct FI<RobustFactor<Huber, F>> { enum { base = FI<F>::base, kern = 1 }; };
template <typename F> struct FI<RobustFactor<Cauchy, F>> { enum { base = FI<F>::base, kern = 2 }; };
struct Sys { double H[36], b[6], e, aH[36], ab[6], ae; size_t inl; };
struct TgtPt { double p[3], n[3], C[9]; };
struct Ctx { const Cloud* sc; const double* scov; double kc; double rej; bool use_rej; bool brute; const Cloud* tc; };
static double weight(int kern, double c, double x) { if (!kern) return 1; x = fabs(x); return kern == 1 ? (x < c ? 1.0 : c / x) : c / (c + x * x); }
static void inv3(const double* A, double* R) { double d = A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]); R[0] = (A[4] * A[8] - A[5] * A[7]) / d; R[1] = (A[2] * A[7] - A[1] * A[8]) / d; R[2] = (A[1] * A[5] - A[2] * A[4]) / d; R[3] = (A[5] * A[6] - A[3] * A[8]) / d; R[4] = (A[0] * A[8] - A[2] * A[6]) / d; R[5] = (A[2] * A[3] - A[0] * A[5]) / d; R[6] = (A[3] * A[7] - A[4] * A[6]) / d; R[7] = (A[1] * A[6] - A[0] * A[7]) / d; R[8] = (A[0] * A[4] - A[1] * A[3]) / d; }
// one point's contribution; M (for distribution-to-distribution) is computed at linearisation and reused by error evaluations
static double point_term(int base, int kern, double kc, const double* T, const double* s, const double* Cs, const TgtPt& t, double* M, bool lin, double* H, double* b) {
  double ts[4], r[3]; or_transform(T, s, ts); for (int d = 0; d < 3; d++) r[d] = t.p[d] - ts[d];
  double J[3][6]; double sk[9] = {0, -s[2], s[1], s[2], 0, -s[0], -s[1], s[0], 0};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { J[i][j] = 0; for (int k = 0; k < 3; k++) J[i][j] += T[i * 4 + k] * sk[k * 3 + j]; J[i][j + 3] = -T[i * 4 + j]; }
  if (base == 2) for (int i = 0; i < 3; i++) { r[i] *= t.n[i]; for (int j = 0; j < 6; j++) J[i][j] *= t.n[i]; }
  if (lin) { if (base == 3) { double S[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { S[i * 3 + j] = t.C[i * 3 + j]; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) S[i * 3 + j] += T[i * 4 + k] * Cs[k * 3 + l] * T[j * 4 + l]; } inv3(S, M); } else for (int k = 0; k < 9; k++) M[k] = k % 4 == 0; }
  double e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e += 0.5 * r[i] * M[i * 3 + j] * r[j];
  double w = weight(kern, kc, sqrt(e));
  if (lin) { for (int a = 0; a < 6; a++) { b[a] = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) b[a] += w * J[i][a] * M[i * 3 + j] * r[j]; for (int c = 0; c < 6; c++) { H[a * 6 + c] = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) H[a * 6 + c] += w * J[i][a] * M[i * 3 + j] * J[j][c]; } } }
  return w * e;
}
static bool g_huge;
static void cmp(const char* what, double got, double want, double mag, double rel) { if (!(fabs(got - want) <= rel * mag + 1e-300)) sim_violation("wrong-sum", "%s = %.17g, the sum over all source points is %.17g (deviation %.3g of the summed magnitude)", what, got, want, fabs(got - want) / (mag + 1e-300)); }
template <typename Target> static TgtPt tgt(const Target& t, size_t i, int base) { TgtPt o; memset(&o, 0, sizeof o); auto p = traits::point(t, i); for (int d = 0; d < 3; d++) o.p[d] = p[d]; if constexpr (std::is_same<Target, PointCloud>::value) for (int d = 0; d < 3; d++) o.n[d] = t.normals[i].data()[d]; if (base == 3) { const Eigen::Matrix4d C = traits::cov(t, i); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) o.C[r * 3 + c] = C.data()[c * 4 + r]; } return o; }
template <typename Factor, typename Target, typename Tree, typename Rej>
static void history(const Target& target, const Tree& tree, const PointCloud& source, const Rej& rej, const typename Factor::Setting& fs, const Ctx& cx, int backend, int threads) {
  size_t n = cx.sc->n; std::vector<Factor> fac(n, Factor(fs)), ser(n, Factor(fs)); constexpr int base = FI<Factor>::base, kern = FI<Factor>::kern; double rel = base == 0 ? 0.0 : 1e-8;
  std::vector<double> M; { Pause pz; M.assign(9 * n + 9, 0.0); }
  int steps = g_huge ? 2 : (int)sim_draw(5, 2, 6); bool linearized = false;
  for (int st = 0; st < steps; st++) {
    int g = 100 + st; if (st && sim_flip(g, 35)) { if (sim_flip(g, 40)) backend = (int)sim_draw(g, 0, 2); threads = (int)sim_draw(g, 1, 9); sim_probe(6, "backend or thread count changed within a history"); } bool lin = !linearized || sim_draw(g, 0, 1); double xi[6], T[16]; int pk = (int)sim_draw(g, 0, 3);
    for (int d = 0; d < 6; d++) xi[d] = pk == 0 ? 0.0 : pk == 1 ? sim_drawd(g, -0.05, 0.05) : pk == 2 ? sim_drawd(g, -1, 1) : sim_drawd(g, -3, 3) * (d < 3 ? 1.0 : 1.0 + cx.sc->scale);
    Eigen::Isometry3d TT; { Pause pz; or_se3_exp(xi, T); TT.setIdentity(); for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) TT.matrix().data()[c * 4 + r] = T[r * 4 + c]; }
    if (lin) {
      linearized = true; std::tuple<H6, B6, double> out;
      if (backend == 0) { SerialReduction red; out = red.linearize(target, source, tree, rej, TT, fac); }
      else if (backend == 1) { ParallelReductionOMP red; red.num_threads = threads; out = red.linearize(target, source, tree, rej, TT, fac); }
      else { ParallelReductionTBB red; out = red.linearize(target, source, tree, rej, TT, fac); }
      if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
      // per-point state of the serial reduction at the same pose
      { Pause pz; SerialReduction red; red.linearize(target, source, tree, rej, TT, ser); }
      Pause pz; Sys s; memset(&s, 0, sizeof s);
      for (size_t i = 0; i < n; i++) {
        const auto &f = inner(fac[i]), &r = inner(ser[i]); 
        if (fac[i].inlier() != ser[i].inlier() || f.target_index != r.target_index) sim_violation("wrong-state", "point %zu: correspondence %zu (inlier %d) differs from the serial reduction's %zu (inlier %d)", i, f.target_index, (int)fac[i].inlier(), r.target_index, (int)ser[i].inlier());
        double ts[4]; or_transform(T, cx.sc->p + 4 * i, ts); 
        if (base && cx.brute) { // the correspondence is a true nearest neighbour accepted by the rejector
          size_t bi; double bd = 0; size_t m = or_knn(cx.tc->p, cx.tc->n, ts, 1, &bi, &bd); bool must = m && (!cx.use_rej || bd <= cx.rej * (1 - 1e-9)), mustnot = !m || (cx.use_rej && bd > cx.rej * (1 + 1e-9));
          if (must && !fac[i].inlier()) sim_violation("wrong-state", "point %zu has a target point at squared distance %g within the limit but is not an inlier", i, bd);
          if (mustnot && fac[i].inlier()) sim_violation("wrong-state", "point %zu is an inlier although its nearest target point (of %zu) is at squared distance %g, limit %g", i, cx.tc->n, bd, cx.rej);
          if (fac[i].inlier()) { if (f.target_index >= cx.tc->n) sim_violation("wrong-state", "point %zu is matched to target %zu of %zu", i, f.target_index, cx.tc->n); double d = 0; for (int k = 0; k < 3; k++) { double x = cx.tc->p[4 * f.target_index + k] - ts[k]; d += x * x; } if (d > bd * (1 + 1e-9) + 1e-18) sim_violation("wrong-state", "point %zu is matched at squared distance %g, nearest is %g", i, d, bd); }
        }
        if (!fac[i].inlier()) continue; s.inl++;
        double H[36], b[6], e;
        if constexpr (base == 0) { H6 h; B6 bb; IntFactor q; q.linearize(0, 0, 0, TT, i, 0, &h, &bb, &e); for (int k = 0; k < 36; k++) H[(k % 6) * 6 + k / 6] = h.data()[k]; for (int k = 0; k < 6; k++) b[k] = bb.data()[k]; }
        else e = point_term(base, kern, cx.kc, T, cx.sc->p + 4 * i, cx.scov + 9 * i, tgt(target, f.target_index, base), &M[9 * i], true, H, b);
        for (int k = 0; k < 36; k++) { s.H[k] += H[k]; s.aH[k] += fabs(H[k]); } for (int k = 0; k < 6; k++) { s.b[k] += b[k]; s.ab[k] += fabs(b[k]); } s.e += e; s.ae += fabs(e);
      }
      double mH = 0, mb = 0; for (int k = 0; k < 36; k++) if (s.aH[k] > mH) mH = s.aH[k]; for (int k = 0; k < 6; k++) if (s.ab[k] > mb) mb = s.ab[k];
      const H6& h = std::get<0>(out); const B6& bb = std::get<1>(out); sim_digest_bytes(h.data(), 288); sim_digest_bytes(bb.data(), 48);
      // entries whose terms cancel exactly may carry rounding of the size of their factors: a small floor relative to the largest entry
      for (int r = 0; r < 6; r++) for (int c = 0; c < 6; c++) { char nm[24]; snprintf(nm, sizeof nm, "H(%d,%d)", r, c); cmp(nm, h.data()[c * 6 + r], s.H[r * 6 + c], s.aH[r * 6 + c] + 1e-4 * mH, rel); }
      for (int r = 0; r < 6; r++) { char nm[24]; snprintf(nm, sizeof nm, "b(%d)", r); cmp(nm, bb.data()[r], s.b[r], s.ab[r] + 1e-4 * mb, rel); }
      cmp("e", std::get<2>(out), s.e, s.ae + 1e-18 * mH, rel);
      if (s.inl) sim_probe(0, "system with inliers"); if (s.inl && s.inl < n) sim_probe(1, "mixed inliers and rejected points");
    } else {
      double out;
      if (backend == 0) { SerialReduction red; out = red.error(target, source, TT, fac); }
      else if (backend == 1) { ParallelReductionOMP red; red.num_threads = threads; out = red.error(target, source, TT, fac); }
      else { ParallelReductionTBB red; out = red.error(target, source, TT, fac); }
      if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
      Pause pz; double e = 0, ae = 0; sim_digest_bytes(&out, 8);
      for (size_t i = 0; i < n; i++) { const auto &f = inner(fac[i]), &r = inner(ser[i]); if (f.target_index != r.target_index) sim_violation("wrong-state", "evaluating the error changed the correspondence of point %zu", i); if (!fac[i].inlier()) continue; double x; if constexpr (base == 0) x = (double)(IntFactor::h(i, IntFactor::round(TT) + 99) % 4096); else x = point_term(base, kern, cx.kc, T, cx.sc->p + 4 * i, cx.scov + 9 * i, tgt(target, f.target_index, base), &M[9 * i], false, nullptr, nullptr); e += x; ae += fabs(x); }
      cmp("error", out, e, ae, rel); sim_probe(2, "error evaluation");
    }
  }
}
static void fill_attr(PointCloud& pc, double* cov, uint64_t seed) {
  Pause pz; for (size_t i = 0; i < pc.size(); i++) {
    double v[3], nn = 0; for (int d = 0; d < 3; d++) { v[d] = (double)(sim_rand64(seed, 8 * i + d) >> 11) / 9007199254740992.0 - 0.5; nn += v[d] * v[d]; } nn = sqrt(nn) + 1e-9; for (int d = 0; d < 3; d++) v[d] /= nn;
    double sc = (sim_rand64(seed, 8 * i + 4) & 3) == 0 ? 0.01 : 1.0;
    pc.normals[i].setZero(); pc.covs[i].setZero(); for (int d = 0; d < 3; d++) pc.normals[i].data()[d] = v[d];
    for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { double x = sc * ((r == c) - 0.999 * v[r] * v[c]); pc.covs[i].data()[c * 4 + r] = x; if (cov) cov[9 * i + r * 3 + c] = x; }
  }
}
template <typename Factor, typename Target, typename Tree>
static void with_rejector(const Target& target, const Tree& tree, const PointCloud& source, const typename Factor::Setting& fs, Ctx& cx, int backend, int threads) {
  if (cx.use_rej) { DistanceRejector r; r.max_dist_sq = cx.rej; history<Factor>(target, tree, source, r, fs, cx, backend, threads); } else { NullRejector r; history<Factor>(target, tree, source, r, fs, cx, backend, threads); }
}
template <typename K, typename F> static typename RobustFactor<K, F>::Setting rs(double c) { typename RobustFactor<K, F>::Setting s; s.robust_kernel.c = c; return s; }
extern "C" void harness_run(const char*) {
  int backend = (int)sim_draw(0, 0, 5); backend = backend == 0 ? 0 : backend <= 3 ? 1 : 2; int threads = draw_threads(0); if (sim_flip(0, 20)) threads = (int)sim_draw(0, 9, 16);
  int family = (int)sim_draw(0, 0, 8);
  size_t n; switch (sim_draw(1, 0, 4)) { case 0: n = sim_draw(1, 0, 10); break; case 1: n = sim_draw(1, 7, 40); break; case 2: n = sim_draw(1, 100, 600); break; default: n = sim_draw(1, 20, 200); } if (sim_flip(1, 4)) { n = sim_draw(1, 600, 3000); sim_probe(9, "large cloud"); }
  g_huge = sim_draw(1, 0, 699) == 0; if (g_huge) { n = huge_size(1); sim_probe(10, "more than 65000 points"); }
  size_t tn = sim_flip(2, 6) ? 0 : sim_draw(2, 1, 300);
  int kind = (int)sim_draw(1, 0, OR_CLOUD_KINDS - 1); double scale = draw_scale(1);
  Cloud sc = make_cloud(1, n, kind, scale), tc = make_cloud(sim_draw(2, 0, 1) ? 1 : 2, tn, kind, scale);
  auto src = to_cloud(sc), tgtc = to_cloud(tc); double* scov; { Pause pz; scov = (double*)calloc(9 * n + 9, 8); } fill_attr(*src, scov, 31 + sim_draw(1, 0, 1000)); fill_attr(*tgtc, nullptr, 77 + sim_draw(2, 0, 1000));
  Ctx cx; cx.sc = &sc; cx.tc = &tc; cx.scov = scov; cx.kc = sim_drawd(0, 0.05, 2.0) * scale; cx.use_rej = sim_flip(0, 70); static const double rj[] = {0.3, 0.05, 1.0, 3.0, 0.0, 1e6}; double rr = rj[sim_draw(0, 0, 5)] * scale; cx.rej = rr * rr; cx.brute = true;
  static const char* fn[] = {"icp", "plane", "gicp", "huber-gicp", "cauchy-plane", "huber-icp", "cauchy-gicp", "vgicp", "user-integer"};
  sim_sample("reduce %s backend=%s threads=%d n=%zu target=%zu reject=%g cloud=%s", fn[family], backend == 0 ? "serial" : backend == 1 ? "omp" : "tbb", threads, n, tn, cx.use_rej ? cx.rej : -1.0, or_cloud_name(kind));
  sim_set_nontrivial(n > 0 && (tn > 0 || family == 8)); if (!n) sim_probe(3, "empty source"); if (!tn) sim_probe(4, "empty target"); if (backend == 1 && (size_t)threads > n) sim_probe(5, "more threads than points");
  if (family == 7) {
    GaussianVoxelMap vm(scale * (1.0 + sim_drawd(2, 0.0, 0.3)) * 0.5); { Pause pz; } if (tn) vm.insert(*tgtc); int so = (int)sim_draw(2, 0, 2); if (so) vm.set_search_offsets(so == 1 ? 7 : 27);
    cx.brute = false; GICPFactor::Setting s; with_rejector<GICPFactor>(vm, vm, *src, s, cx, backend, threads); return;
  }
  if (family == 8) { KdTree<PointCloud> t(tgtc); IntFactor::Setting s; NullRejector r; history<IntFactor>(*tgtc, t, *src, r, s, cx, backend, threads); return; }
  KdTree<PointCloud> t(tgtc);
  switch (family) {
    case 0: { ICPFactor::Setting s; with_rejector<ICPFactor>(*tgtc, t, *src, s, cx, backend, threads); break; }
    case 1: { PointToPlaneICPFactor::Setting s; with_rejector<PointToPlaneICPFactor>(*tgtc, t, *src, s, cx, backend, threads); break; }
    case 2: { GICPFactor::Setting s; with_rejector<GICPFactor>(*tgtc, t, *src, s, cx, backend, threads); break; }
    case 3: with_rejector<RobustFactor<Huber, GICPFactor>>(*tgtc, t, *src, rs<Huber, GICPFactor>(cx.kc), cx, backend, threads); break;
    case 4: with_rejector<RobustFactor<Cauchy, PointToPlaneICPFactor>>(*tgtc, t, *src, rs<Cauchy, PointToPlaneICPFactor>(cx.kc), cx, backend, threads); break;
    case 5: with_rejector<RobustFactor<Huber, ICPFactor>>(*tgtc, t, *src, rs<Huber, ICPFactor>(cx.kc), cx, backend, threads); break;
    case 6: with_rejector<RobustFactor<Cauchy, GICPFactor>>(*tgtc, t, *src, rs<Cauchy, GICPFactor>(cx.kc), cx, backend, threads); break;
  }
}
