// C15 Python module: batch operations equal the single-item ones on every schedule
#include "common.hpp"
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <cmath>
#include <string>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/registration.hpp>
namespace py = pybind11;
extern "C" PyObject* PyInit_small_gicp(void);
extern "C" const char* const harness_props[] = {"C15", "C06", "C17", nullptr};
static py::module_* np_mod; static py::module_* sg;
extern "C" void harness_init(const char*) {
  PyImport_AppendInittab("small_gicp", PyInit_small_gicp);
  PyConfig cfg; PyConfig_InitPythonConfig(&cfg); cfg.use_hash_seed = 1; cfg.hash_seed = 0; cfg.write_bytecode = 0; cfg.site_import = 1; cfg.install_signal_handlers = 0; cfg.user_site_directory = 0; cfg.use_environment = 0; PyConfig_SetString(&cfg, &cfg.program_name, L"/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&cfg); if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); _exit(3); }
  try { np_mod = new py::module_(py::module_::import("numpy")); sg = new py::module_(py::module_::import("small_gicp")); py::module_::import("sys").attr("stderr") = py::module_::import("io").attr("StringIO")(); } catch (std::exception& e) { fprintf(stderr, "python: %s\n", e.what()); _exit(3); }
  PyEval_SaveThread();
}
// every C++ call runs uninstrumented except for its parallel regions
static int nt; static bool threads_only;
struct Live { Guard g; Live() : g(nt, "a Python call") { sim_omp_unpause(1); } ~Live() { sim_omp_unpause(0); if (threads_only) g.done(); } };
struct Cl { std::vector<double> p; size_t n; int kind; };
static Cl get_cloud(size_t n, int kind, double scale) { Cloud c = make_cloud(1, n, kind, scale); Cl o; o.n = n; o.kind = kind; o.p.assign(c.p, c.p + 4 * n); free(c.p); return o; }
// numpy array of a cloud in several memory layouts
static py::object to_np(const Cl& c, int cols, int layout) {
  py::array_t<double> a({(py::ssize_t)c.n, (py::ssize_t)cols}); for (size_t i = 0; i < c.n; i++) for (int d = 0; d < cols; d++) a.mutable_at(i, d) = d < 3 ? c.p[4 * i + d] : 1.0;
  if (layout == 1) return np_mod->attr("asfortranarray")(a);
  if (layout == 2) { py::object big = np_mod->attr("repeat")(a, 2, py::arg("axis") = 0); return big[py::make_tuple(py::slice(py::none(), py::none(), py::int_(2)), py::slice(py::none(), py::none(), py::none()))]; }
  return std::move(a);
}
static std::vector<double> flat(const py::object& o) { py::array_t<double, py::array::c_style | py::array::forcecast> a = py::array_t<double, py::array::c_style | py::array::forcecast>::ensure(o); std::vector<double> v(a.size()); if (a.size()) memcpy(v.data(), a.data(), 8 * a.size()); return v; }
static std::vector<uint64_t> flat_u(const py::object& o) { py::array_t<uint64_t, py::array::c_style | py::array::forcecast> a = py::array_t<uint64_t, py::array::c_style | py::array::forcecast>::ensure(o); if (!a) { PyErr_Clear(); return {}; } std::vector<uint64_t> v(a.size()); if (a.size()) memcpy(v.data(), a.data(), 8 * a.size()); return v; }
struct Held { py::object arr; std::vector<double> val; const char* what; };
static std::vector<Held>* held; static void hold(const py::object& a, const char* what) { held->push_back({a, flat(a), what}); }
static bool eqv(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }
static bool near(const std::vector<double>& a, const std::vector<double>& b, double tol, size_t* at) { if (a.size() != b.size()) { *at = (size_t)-1; return false; } for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(b[i]))) && !(std::isnan(a[i]) && std::isnan(b[i]))) { *at = i; return false; } return true; }
static py::object make_pc(const Cl& c, int layout) { return sg->attr("PointCloud")(to_np(c, layout & 1 ? 4 : 3, layout / 2)); }

static void omp_idle(const char* w) { if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after %s", w); }
static void batch_knn(const Cl& c) {
  int layout = (int)sim_draw(2, 0, 5); bool from_np = sim_flip(2, 50); py::object arr = to_np(c, layout & 1 ? 4 : 3, layout / 2); std::vector<double> before = flat(arr); py::object tree;
  { Live l; tree = from_np ? sg->attr("KdTree")(arr, nt) : sg->attr("KdTree")(sg->attr("PointCloud")(arr), nt); } omp_idle("KdTree");
  size_t m; switch (sim_draw(2, 0, 5)) { case 0: m = 0; break; case 1: m = 1; break; case 2: m = sim_draw(2, 2, 9); break; default: m = sim_draw(2, 10, 80); }
  Cl q; q.n = m; q.p.resize(4 * m + 4); uint64_t qs = sim_draw(2, 1, 1000000); int qk = (int)sim_draw(2, 0, 2);
  for (size_t i = 0; i < m; i++) { size_t s = c.n ? sim_rand64(qs, i * 5) % c.n : 0; for (int d = 0; d < 3; d++) { double r = (double)(sim_rand64(qs, i * 5 + d + 1) >> 11) / 9007199254740992.0 * 2 - 1; q.p[4 * i + d] = qk == 0 && c.n ? c.p[4 * s + d] : qk == 1 && c.n ? c.p[4 * s + d] + 0.1 * r : 20 * r; } q.p[4 * i + 3] = 1; }
  int qlay = (int)sim_draw(2, 0, 5); py::object qa = to_np(q, qlay & 1 ? 4 : 3, qlay / 2); std::vector<double> qbefore = flat(qa);
  int k = (int)sim_draw(2, 1, 12); if (sim_flip(2, 15)) k = (int)c.n + (int)sim_draw(2, 1, 5);
  if (!sim_op_enabled(0)) m = 0;
  { // nearest
    py::object r; { Live l; r = tree.attr("batch_nearest_neighbor_search")(qa, nt); } omp_idle("batch_nearest_neighbor_search");
    py::object i0 = r[py::int_(0)], d0 = r[py::int_(1)]; std::vector<uint64_t> idx = flat_u(i0); std::vector<double> dst = flat(d0);
    if (idx.size() != q.n || dst.size() != q.n) sim_violation("wrong-batch", "nearest-neighbour batch of %zu rows returned %zu indices and %zu distances", q.n, idx.size(), dst.size());
    for (size_t i = 0; i < m; i++) {
      py::array_t<double> pt(3); for (int d = 0; d < 3; d++) pt.mutable_at(d) = q.p[4 * i + d];
      py::tuple s = tree.attr("nearest_neighbor_search")(pt); size_t found = s[0].cast<size_t>(); uint64_t si = s[1].cast<uint64_t>(); double sd = s[2].cast<double>();
      if (idx[i] != si || memcmp(&dst[i], &sd, 8)) sim_violation("wrong-batch", "row %zu of %zu: batch nearest neighbour (%llu, %.17g), single search (%llu, %.17g)", i, q.n, (unsigned long long)idx[i], dst[i], (unsigned long long)si, sd);
      size_t bi = idx[i]; const char* e = or_check_knn(c.p.data(), c.n, &q.p[4 * i], 1, found, &bi, &dst[i]); if (e) sim_violation("wrong-batch", "row %zu: %s", i, e);
    }
    sim_digest_bytes(dst.data(), 8 * dst.size());
  }
  { py::object r; { Live l; r = tree.attr("batch_knn_search")(qa, k, nt); } omp_idle("batch_knn_search");
    py::object i0 = r[py::int_(0)], d0 = r[py::int_(1)]; std::vector<uint64_t> idx = flat_u(i0); std::vector<double> dst = flat(d0); hold(d0, "batch distances"); hold(i0, "batch indices");
    if (idx.size() != q.n * k || dst.size() != q.n * k) sim_violation("wrong-batch", "batch of %zu rows, k=%d returned %zu indices and %zu distances", q.n, k, idx.size(), dst.size());
    if (q.n) { py::tuple sh = d0.attr("shape"); if (sh.size() != 2 || sh[0].cast<size_t>() != q.n || sh[1].cast<int>() != k) sim_violation("wrong-batch", "batch result has the wrong shape"); }
    for (size_t i = 0; i < m; i++) {
      py::array_t<double> pt(3); for (int d = 0; d < 3; d++) pt.mutable_at(d) = q.p[4 * i + d];
      py::tuple s = tree.attr("knn_search")(pt, k); std::vector<uint64_t> si = s[0].cast<std::vector<uint64_t>>(); std::vector<double> sd = s[1].cast<std::vector<double>>();
      if ((int)si.size() != k || (int)sd.size() != k) sim_violation("wrong-batch", "single search with k=%d returned %zu entries", k, si.size());
      for (int j = 0; j < k; j++) if (idx[i * k + j] != si[j] || memcmp(&dst[i * k + j], &sd[j], 8)) sim_violation("wrong-batch", "row %zu slot %d of %zu x %d: batch (%llu, %.17g), single search (%llu, %.17g)", i, j, q.n, k, (unsigned long long)idx[i * k + j], dst[i * k + j], (unsigned long long)si[j], sd[j]);
      size_t nf = c.n < (size_t)k ? c.n : k; std::vector<size_t> bi(k); std::vector<double> bd(k); size_t found = 0; for (int j = 0; j < k; j++) { bi[j] = idx[i * k + j]; bd[j] = dst[i * k + j]; if (bi[j] != (size_t)-1) found++; }
      if (found != nf) sim_violation("wrong-batch", "row %zu: %zu neighbours reported, %zu exist", i, found, nf);
      const char* e = or_check_knn(c.p.data(), c.n, &q.p[4 * i], k, nf, bi.data(), bd.data()); if (e) sim_violation("wrong-batch", "row %zu: %s", i, e);
      for (int j = (int)nf; j < k; j++) if (bi[j] != (size_t)-1 || bd[j] != std::numeric_limits<double>::max()) sim_violation("wrong-batch", "row %zu: unfilled slot %d holds (%zu, %g)", i, j, bi[j], bd[j]);
    }
    if (k > (int)c.n) sim_probe(0, "k larger than the cloud"); if (q.n == 0) sim_probe(1, "empty batch"); if (c.n == 0) sim_probe(2, "empty tree");
    sim_digest_bytes(dst.data(), 8 * dst.size());
  }
  if (!eqv(flat(arr), before) || !eqv(flat(qa), qbefore)) sim_violation("input-modified", "an array passed in was modified");
}
static void preprocess(const Cl& c, double leaf) {
  int layout = (int)sim_draw(2, 0, 5); bool raw = sim_flip(2, 40); py::object arr = to_np(c, layout & 1 ? 4 : 3, layout / 2); std::vector<double> before = flat(arr); py::object pc = sg->attr("PointCloud")(arr); py::object pts0 = pc.attr("points")(); hold(pts0, "points()"); int k = (int)sim_draw(2, 5, 12); int mode = (int)sim_draw(2, 0, 3);
  { std::vector<double> v = flat(pts0); if (v.size() != 4 * c.n) sim_violation("wrong-array", "points() has %zu numbers for %zu points", v.size(), c.n); for (size_t i = 0; i < c.n; i++) for (int d = 0; d < 4; d++) if (v[4 * i + d] != (d < 3 ? c.p[4 * i + d] : 1.0)) sim_violation("wrong-array", "points() row %zu is not the point given", i); }
  if (mode == 0) {  // downsampling
    py::object o; { Live l; o = raw ? sg->attr("voxelgrid_sampling")(arr, leaf, nt) : sg->attr("voxelgrid_sampling")(pc, leaf, nt); } omp_idle("voxelgrid_sampling");
    std::vector<double> v = flat(o.attr("points")()); size_t mm = v.size() / 4; if (mm != o.attr("size")().cast<size_t>()) sim_violation("wrong-array", "points() has %zu rows, size() says %zu", mm, o.attr("size")().cast<size_t>());
    const char* e = or_check_voxelgrid(c.p.data(), c.n, leaf, v.data(), mm, 1000, nt == 1); if (e) sim_violation("wrong-downsampling", "%s", e); sim_digest(mm);
  } else if (mode == 1) {  // attributes with several threads against one thread
    const char* fn[] = {"estimate_normals", "estimate_covariances", "estimate_normals_covariances"}; int f = (int)sim_draw(2, 0, 2); bool own = sim_flip(2, 50); py::object ref = make_pc(c, 0), tree = py::none();
    std::vector<double> n0 = flat(pc.attr("normals")());
    { Live l; if (own) tree = sg->attr("KdTree")(pc, nt); sg->attr(fn[f])(pc, tree, k, nt); } omp_idle(fn[f]);
    sg->attr(fn[f])(ref, py::none(), k, 1); size_t at = 0;
    if (f != 1) { py::object a = pc.attr("normals")(); hold(a, "normals()"); if (!near(flat(a), flat(ref.attr("normals")()), 1e-9, &at)) sim_violation("schedule-dependent-result", "%s: normals with %d threads differ from those with one at %zu", fn[f], nt, at / 4); }
    if (f != 0) { py::object a = pc.attr("covs")(); if (c.n) hold(a, "covs()"); if (!near(flat(a), flat(ref.attr("covs")()), 1e-9, &at)) sim_violation("schedule-dependent-result", "%s: covariances with %d threads differ from those with one at %zu", fn[f], nt, at / 16); for (size_t i = 0; i < c.n && i < 20; i++) { std::vector<double> s = flat(pc.attr("cov")(i)), w = flat(py::object(a[py::int_(i)])); if (!eqv(s, w)) sim_violation("wrong-array", "cov(%zu) differs from covs()[%zu]", i, i); } }
    for (size_t i = 0; i < c.n && i < 20; i++) { std::vector<double> s = flat(pc.attr("point")(i)), nn = flat(pc.attr("normal")(i)); if (s.size() != 4 || s[0] != c.p[4 * i]) sim_violation("wrong-array", "point(%zu) is not the point given", i); std::vector<double> all = flat(pc.attr("normals")()); if (memcmp(nn.data(), &all[4 * i], 32)) sim_violation("wrong-array", "normal(%zu) differs from normals()[%zu]", i, i); }
    if (!eqv(flat(pc.attr("points")()), flat(pts0))) sim_violation("input-modified", "%s changed the points", fn[f]);
    if (sim_flip(2, 50)) { int k2 = k > 8 ? 5 : 12; Live l; sg->attr(fn[f])(pc, tree, k2, nt); sim_probe(5, "attributes estimated again while earlier arrays are held"); } omp_idle(fn[f]);
  } else {  // preprocess_points against its parts
    py::object r; { Live l; r = raw ? sg->attr("preprocess_points")(arr, leaf, k, nt) : sg->attr("preprocess_points")(pc, leaf, k, nt); } omp_idle("preprocess_points"); py::object o = r[py::int_(0)], tree = r[py::int_(1)];
    if (o.is_none()) { if (c.n) sim_violation("wrong-result", "preprocess_points returned None for a cloud of %zu points", c.n); return; }
    py::object pa = o.attr("points")(); hold(pa, "preprocessed points()"); std::vector<double> v = flat(pa); size_t mm = v.size() / 4; const char* e = or_check_voxelgrid(c.p.data(), c.n, leaf, v.data(), mm, 1000, 0); if (e) sim_violation("wrong-downsampling", "preprocess_points: %s", e);
    Cl dc; dc.n = mm; dc.p = v; py::object ref = make_pc(dc, 1); sg->attr("estimate_normals_covariances")(ref, py::none(), k, 1); size_t at = 0;
    if (!near(flat(o.attr("normals")()), flat(ref.attr("normals")()), 1e-9, &at)) sim_violation("schedule-dependent-result", "preprocess_points: normals with %d threads differ from those with one at %zu", nt, at / 4);
    if (!near(flat(o.attr("covs")()), flat(ref.attr("covs")()), 1e-9, &at)) sim_violation("schedule-dependent-result", "preprocess_points: covariances with %d threads differ from those with one at %zu", nt, at / 16);
    for (size_t i = 0; i < mm && i < 12; i++) { py::array_t<double> pt(3); for (int d = 0; d < 3; d++) pt.mutable_at(d) = v[4 * i + d]; py::tuple s = tree.attr("nearest_neighbor_search")(pt); if (s[1].cast<uint64_t>() >= mm || s[2].cast<double>() > 1e-12) sim_violation("wrong-result", "the tree of preprocess_points does not hold the downsampled points"); }
    sim_digest(mm);
  }
  if (!eqv(flat(arr), before)) sim_violation("input-modified", "an array passed in was modified");
}
static void rigid(double* T, double ra, double ta) { double xi[6]; for (int d = 0; d < 3; d++) xi[d] = sim_drawd(1, -ra, ra); for (int d = 3; d < 6; d++) xi[d] = sim_drawd(1, -ta, ta); or_se3_exp(xi, T); }
static py::array_t<double> mat4(const double* T) { py::array_t<double> a({4, 4}); for (int i = 0; i < 16; i++) a.mutable_at(i / 4, i % 4) = T[i]; return a; }
static bool well(const py::object& H, size_t inl) { if (inl < 12) return false; py::object w = np_mod->attr("linalg").attr("eigvalsh")(H); std::vector<double> v = flat(w); return v[0] > 1e-6 * v[5]; }
static void cmp_result(const py::object& a, const py::object& b, const char* what, int maxit) {
  std::vector<double> Ta = flat(a.attr("T_target_source")), Tb = flat(b.attr("T_target_source")), Ha = flat(a.attr("H")), Hb = flat(b.attr("H")), ba = flat(a.attr("b")), bb = flat(b.attr("b")); size_t ia = a.attr("num_inliers").cast<size_t>(), ib = b.attr("num_inliers").cast<size_t>();
  size_t la = a.attr("iterations").cast<size_t>(); if (la > (size_t)maxit) sim_violation("bad-record", "%s: %zu iterations with a limit of %d", what, la, maxit);
  if (maxit == 1) { double s = 0, sb = 0; for (double x : Hb) s = std::max(s, std::fabs(x)); for (double x : bb) sb = std::max(sb, std::fabs(x)); for (int k = 0; k < 36; k++) if (!(std::fabs(Ha[k] - Hb[k]) <= 1e-8 * s + 1e-300)) sim_violation("schedule-dependent-result", "%s: H(%d,%d)=%.12g with %d threads, %.12g with one", what, k / 6, k % 6, Ha[k], nt, Hb[k]); for (int k = 0; k < 6; k++) if (!(std::fabs(ba[k] - bb[k]) <= 1e-7 * (sb + std::sqrt(s)) + 1e-300)) sim_violation("schedule-dependent-result", "%s: b(%d) with %d threads differs from that with one", what, k, nt); if (ia != ib) sim_violation("schedule-dependent-result", "%s: %zu inliers with %d threads, %zu with one", what, ia, nt, ib); }
  if (!well(b.attr("H"), ib)) return; double dt = or_trans_between(Ta.data(), Tb.data()), dr = or_rot_angle_between(Ta.data(), Tb.data()); sim_probe(3, "alignment compared");
  if (!(dt <= 1e-4 && dr <= 1e-4)) sim_violation("schedule-dependent-result", "%s: pose with %d threads differs from that with one by %.3g rad / %.3g m", what, nt, dr, dt);
}
// the same alignment written out with the library's serial parts: every argument has to have its effect
struct Args { int ty; double I[16], corr, reps, teps, res; int maxit; };
static small_gicp::RegistrationResult reference(const py::object& tp, const py::object& sp, const Args& a, double eps) {
  using namespace small_gicp; auto twin = [](const py::object& o) { auto c = std::make_shared<PointCloud>(); std::vector<double> p = flat(o.attr("points")()), n = flat(o.attr("normals")()), v = flat(o.attr("covs")()); size_t m = p.size() / 4; c->resize(m); for (size_t i = 0; i < m; i++) for (int d = 0; d < 4; d++) { c->points[i].data()[d] = p[4 * i + d]; c->normals[i].data()[d] = n[4 * i + d]; for (int e = 0; e < 4; e++) c->covs[i].data()[e * 4 + d] = v[16 * i + 4 * d + e]; } return c; };
  auto t = twin(tp), s = twin(sp); Eigen::Isometry3d G; G.setIdentity(); for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) G.matrix().data()[k * 4 + i] = a.I[i * 4 + k];
  auto go = [&](auto& r, const auto& tgt, const auto& tree) { r.rejector.max_dist_sq = a.corr * a.corr; r.criteria.rotation_eps = a.reps * eps; r.criteria.translation_eps = a.teps * eps; r.optimizer.max_iterations = a.maxit; return r.align(tgt, *s, tree, G); };
  if (a.ty == 3) { GaussianVoxelMap v(a.res); v.insert(*t); Registration<GICPFactor, SerialReduction> r; return go(r, v, v); } KdTree<PointCloud> tree(t);
  if (a.ty == 0) { Registration<ICPFactor, SerialReduction> r; return go(r, *t, tree); } if (a.ty == 1) { Registration<PointToPlaneICPFactor, SerialReduction> r; return go(r, *t, tree); } Registration<GICPFactor, SerialReduction> r; return go(r, *t, tree);
}
static void check_args(const py::object& o, const py::object& tp, const py::object& sp, const Args& a, const char* what) {
  if (tp.attr("size")().cast<size_t>() < 1 || sp.attr("size")().cast<size_t>() < 1) return; auto r = reference(tp, sp, a, 1.0); if (r.num_inliers < 12) return; Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> es(r.H); if (es.eigenvalues()[0] <= 1e-6 * es.eigenvalues()[5]) return; sim_probe(6, "compared with the library's parts");
  size_t it = o.attr("iterations").cast<size_t>(), inl = o.attr("num_inliers").cast<size_t>(); bool cv = o.attr("converged").cast<bool>();
  if (a.maxit <= 1) { std::vector<double> H = flat(o.attr("H")); double sh = 0; for (int k = 0; k < 36; k++) sh = std::max(sh, std::fabs(r.H.data()[k])); for (int k = 0; k < 36; k++) if (!(std::fabs(H[k] - r.H.data()[k]) <= 1e-7 * sh)) sim_violation("setting-ignored", "%s: H(%d,%d)=%g, of the library's own parts with the same arguments %g", what, k / 6, k % 6, H[k], r.H.data()[k]); if (inl != r.num_inliers) sim_violation("setting-ignored", "%s: %zu inliers, %zu with the library's own parts and the same arguments", what, inl, r.num_inliers); return; }
  auto lo = reference(tp, sp, a, 0.99), hi = reference(tp, sp, a, 1.01); if (lo.iterations != hi.iterations || lo.converged != hi.converged || lo.iterations != r.iterations) return;  // the step criteria are met or missed by a hair
  if (it != r.iterations || cv != r.converged) sim_violation("setting-ignored", "%s: %zu iterations, converged=%d; %zu and %d with the library's own parts and the same arguments", what, it, (int)cv, r.iterations, (int)r.converged);
  std::vector<double> A = flat(o.attr("T_target_source")); double B[16]; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) B[i * 4 + k] = r.T_target_source.matrix().data()[k * 4 + i]; double dt = or_trans_between(A.data(), B), dr = or_rot_angle_between(A.data(), B);
  if (!(dt <= 1e-4 && dr <= 1e-4)) sim_violation("setting-ignored", "%s: pose differs from that of the library's own parts with the same arguments by %.3g rad / %.3g m", what, dr, dt);
}
static void alignment(const Cl& c) {
  double T[16], Ti[16], I[16]; rigid(T, 0.03, 0.12); or_mat4_inv_rigid(T, Ti); rigid(I, 0.01, 0.03); Cl s = c; for (size_t i = 0; i < c.n; i++) or_transform(Ti, &c.p[4 * i], &s.p[4 * i]);
  int layout = (int)sim_draw(2, 0, 5); py::object ta = to_np(c, layout & 1 ? 4 : 3, layout / 2), sa = to_np(s, layout & 1 ? 3 : 4, (layout / 2 + 1) % 3); std::vector<double> tb = flat(ta), sb = flat(sa); static const char* types[] = {"ICP", "PLANE_ICP", "GICP", "VGICP"}; int ty = (int)sim_draw(2, 0, 3), form = (int)sim_draw(2, 0, 2); int maxit = sim_flip(2, 40) ? 1 : (int)sim_draw(2, 2, 15); double corr = sim_drawd(2, 0.4, 2.0); py::array_t<double> init = mat4(I);
  using namespace pybind11::literals;
  Args A; A.ty = ty; memcpy(A.I, I, sizeof I); A.corr = corr; A.maxit = maxit; A.res = 1.5; A.reps = 0.1 * M_PI / 180.0; A.teps = 1e-3; py::dict eps; if (sim_flip(2, 60)) { A.reps = std::pow(10.0, sim_drawd(2, -5, -1)); A.teps = std::pow(10.0, sim_drawd(2, -5, -1)); eps["rotation_epsilon"] = A.reps; eps["translation_epsilon"] = A.teps; }
  if (form == 0) {
    static const double rs[] = {0.07, 0.07, 0.25, 0.6}; double ds = c.n <= 1024 ? rs[sim_draw(2, 0, 3)] : 0.07, vr = sim_flip(2, 50) ? 1.5 : sim_drawd(2, 0.3, 2.0); A.res = vr;
    auto call = [&](int t) -> py::object { return sg->attr("align")(ta, sa, "init_T_target_source"_a = init, "registration_type"_a = types[ty], "voxel_resolution"_a = vr, "downsampling_resolution"_a = ds, "max_correspondence_distance"_a = corr, "num_threads"_a = t, "max_iterations"_a = maxit, **eps); };
    py::object r; { Live l; r = call(nt); } omp_idle("align"); py::object one = call(1); cmp_result(r, one, "align(numpy)", maxit == 1 ? 2 : maxit);  // one-thread downsampling may order points differently
    // (above 1024 points parallel downsampling may split voxels, even with one thread) the array form is preprocessing followed by alignment of the preprocessed clouds
    if (c.n <= 1024) { py::tuple tp = sg->attr("preprocess_points")(ta, "downsampling_resolution"_a = ds), sp = sg->attr("preprocess_points")(sa, "downsampling_resolution"_a = ds); py::object ref;
    if (ty == 3) { py::object vm = sg->attr("GaussianVoxelMap")(vr); vm.attr("insert")(tp[0]); ref = sg->attr("align")(vm, sp[0], "init_T_target_source"_a = init, "max_correspondence_distance"_a = corr, "num_threads"_a = 1, "max_iterations"_a = maxit, **eps); }
    else ref = sg->attr("align")(tp[0], sp[0], "target_tree"_a = tp[1], "init_T_target_source"_a = init, "registration_type"_a = types[ty], "max_correspondence_distance"_a = corr, "num_threads"_a = 1, "max_iterations"_a = maxit, **eps);
    cmp_result(one, ref, (std::string("align(numpy, ") + types[ty] + ") against its parts").c_str(), maxit); check_args(one, tp[0], sp[0], A, "align(numpy)"); }
  } else {
    py::object tp = make_pc(c, 0), sp = make_pc(s, 1); sg->attr("estimate_normals_covariances")(tp, py::none(), 10, 1); sg->attr("estimate_normals_covariances")(sp, py::none(), 10, 1);
    if (form == 1) {
      if (ty == 3) ty = 2; py::object tree = sim_flip(2, 50) ? sg->attr("KdTree")(tp, 1) : py::object(py::none());
      auto call = [&](int t) -> py::object { return sg->attr("align")(tp, sp, "target_tree"_a = tree, "init_T_target_source"_a = init, "registration_type"_a = types[ty], "max_correspondence_distance"_a = corr, "num_threads"_a = t, "max_iterations"_a = maxit, **eps); };
      py::object r; { Live l; r = call(nt); } omp_idle("align"); py::object ref = call(1); cmp_result(r, ref, "align(PointCloud)", maxit); A.ty = ty; check_args(ref, tp, sp, A, "align(PointCloud)");
      if (maxit == 1) {  // the batch system is the sum over single points
        static const char* fs[] = {"ICPFactor", "PointToPlaneICPFactor", "GICPFactor"}; py::object f = sg->attr(fs[ty])(), rej = sg->attr("DistanceRejector")(), tr = sg->attr("KdTree")(tp, 1); rej.attr("set_max_distance")(corr); double H[36] = {0}, mx = 0; size_t inl = 0;
        for (size_t i = 0; i < c.n; i++) { py::tuple o = f.attr("linearize")(tp, sp, tr, init, i, rej); if (!o[0].cast<bool>()) continue; inl++; std::vector<double> h = flat(py::object(o[1])); for (int q = 0; q < 36; q++) H[q] += h[q]; }
        std::vector<double> Hr = flat(r.attr("H")); for (int q = 0; q < 36; q++) mx = std::max(mx, std::fabs(H[q])); for (int q = 0; q < 36; q++) if (!(std::fabs(H[q] - Hr[q]) <= 1e-8 * mx + 1e-300)) sim_violation("wrong-batch", "H(%d,%d) of align is %.12g, the sum over single points %.12g", q / 6, q % 6, Hr[q], H[q]);
        if (inl != r.attr("num_inliers").cast<size_t>()) sim_violation("wrong-batch", "%zu inliers in align, %zu of the single points", r.attr("num_inliers").cast<size_t>(), inl); sim_probe(4, "sum over single points");
      }
    } else {
      py::object vm = sg->attr("GaussianVoxelMap")(1.5); vm.attr("insert")(tp); py::object vp = vm.attr("voxel_points")(), vc = vm.attr("voxel_covs")(); hold(vp, "voxel_points()"); hold(vc, "voxel_covs()"); if (flat(vp).size() != 4 * vm.attr("size")().cast<size_t>()) sim_violation("wrong-array", "voxel_points() has the wrong number of rows");
      auto call = [&](int t) -> py::object { return sg->attr("align")(vm, sp, "init_T_target_source"_a = init, "max_correspondence_distance"_a = corr, "num_threads"_a = t, "max_iterations"_a = maxit, **eps); };
      py::object r; { Live l; r = call(nt); } omp_idle("align"); { py::object ref = call(1); cmp_result(r, ref, "align(voxelmap)", maxit); A.ty = 3; check_args(ref, tp, sp, A, "align(voxelmap)"); } vm.attr("insert")(sp);
    }
    if (!eqv(flat(tp.attr("points")()), flat(make_pc(c, 0).attr("points")()))) sim_violation("input-modified", "align changed the target cloud");
  }
  if (!eqv(flat(ta), tb) || !eqv(flat(sa), sb)) sim_violation("input-modified", "an array passed in was modified");
}
extern "C" void harness_run(const char* prop) {
  sim_pause(); PyGILState_Ensure(); held = new std::vector<Held>; nt = draw_threads(0); int what = (int)sim_draw(0, 0, 9); threads_only = prop[2] == '7'; if (prop[2] == '6') what = 7; static const int kinds[] = {10, 0, 7, 1}; int kind = kinds[sim_draw(1, 0, 3)];
  size_t n; switch (sim_draw(1, 0, 7)) { case 0: n = sim_draw(1, 0, 6); break; case 1: n = sim_draw(1, 510, 530); break; case 2: n = sim_draw(1, 7, 60); break; default: n = sim_draw(1, 60, 250); } if (what >= 7) n = sim_draw(1, 60, 140); if (what < 7 ? what < 4 && sim_flip(1, 4) : sim_flip(1, 3)) { n = sim_draw(1, 600, 2200); sim_probe(9, "large cloud"); } if (what >= 4 && what < 7 && sim_flip(1, 15)) n = sim_draw(1, 1024, 2300);
  Cl c = get_cloud(n, kind, 6.0); double leaf = 0.31 * (1 + sim_drawd(1, 0.01, 3.0));
  sim_sample("python %s threads=%d n=%zu cloud=%s", what < 4 ? "batch search" : what < 7 ? "preprocessing" : "alignment", nt, n, or_cloud_name(kind)); sim_set_nontrivial(n > 0);
  try { if (what < 4) batch_knn(c); else if (what < 7) preprocess(c, leaf); else alignment(c); for (auto& h : *held) if (!eqv(flat(h.arr), h.val)) sim_violation("array-changed", "an array returned earlier (%s) changed afterwards", h.what); }
  catch (py::error_already_set& e) { sim_violation("python-exception", "%s", e.what()); }
}
