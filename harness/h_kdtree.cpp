// C01: exact nearest neighbours whatever builder / schedule built the tree
#include "common.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C01", nullptr};
extern "C" void harness_init(const char*) {}
static const int GQ = 10;
static const double* g_off;
// the search with a compile-time number of neighbours, where the tree offers one
template <typename T, int N> auto fixed_knn(const T& t, const Eigen::Vector4d& q, size_t* i, double* d) -> decltype(t.template knn_search<N>(q, i, d)) { return t.template knn_search<N>(q, i, d); }
template <typename T> auto fixed_k_impl(const T& t, const Eigen::Vector4d& q, size_t& k, size_t* i, double* d, size_t& f, int) -> decltype(t.template knn_search<3>(q, i, d), bool()) { switch (k % 4) { case 0: f = fixed_knn<T, 3>(t, q, i, d); k = 3; break; case 1: f = fixed_knn<T, 1>(t, q, i, d); k = 1; break; case 2: f = fixed_knn<T, 7>(t, q, i, d); k = 7; break; default: f = fixed_knn<T, 20>(t, q, i, d); k = 20; } return true; }
template <typename T> bool fixed_k_impl(const T&, const Eigen::Vector4d&, size_t&, size_t*, double*, size_t&, long) { return false; }
template <typename T> static bool fixed_k(const T& t, const Eigen::Vector4d& q, size_t& k, size_t* i, double* d, size_t& f, int draw) { return draw == 0 && fixed_k_impl(t, q, k, i, d, f, 0); }
template <typename Tree>
static void query(const Tree& tree, const Cloud& c) {
  int nq = (int)sim_draw(GQ, 4, 24);
  std::vector<size_t> idx(4096); std::vector<double> sq(4096);
  for (int i = 0; i < nq; i++) {
    if (!sim_op_enabled(i)) continue;
    int g = 100 + i; double q[4] = {0, 0, 0, 1}; int kind = (int)sim_draw(g, 0, 4); size_t pi = c.n ? sim_draw(g, 0, c.n - 1) : 0;
    for (int d = 0; d < 3; d++) { double b = c.n ? c.p[4 * pi + d] : 0.0, o = g_off[d]; q[d] = kind == 0 ? b : kind == 1 ? b + sim_drawd(g, -0.05, 0.05) * c.scale : kind == 2 ? o + sim_drawd(g, -2, 2) * c.scale : kind == 3 ? o + sim_drawd(g, -1000, 1000) * c.scale : b + (double)((int)sim_draw(g, 0, 2) - 1) * 0.125 * c.scale; }
    Eigen::Vector4d Q(q[0], q[1], q[2], 1.0);
    int m = (int)sim_draw(g, 0, 5); size_t k = 1, found = 0;
    for (size_t j = 0; j < 64; j++) { idx[j] = 0xAAAA; sq[j] = -1; }
    if (m == 0) { k = 1; found = tree.nearest_neighbor_search(Q, idx.data(), sq.data()); }
    else { static const int ks[] = {1, 2, 5, 10, 20, 33}; k = m == 5 ? (c.n < 4000 ? c.n + sim_draw(g, 0, 3) : 50) : ks[sim_draw(g, 0, 5)]; if (k < 1) k = 1; if (k > 4000) k = 4000; 
      if (fixed_k(tree, Q, k, idx.data(), sq.data(), found, (int)sim_draw(g, 0, 3))) sim_probe(6, "compile-time k"); else found = traits::knn_search(tree, Q, k, idx.data(), sq.data()); }
    Pause pz; const char* e = or_check_knn(c.p, c.n, q, k, found, idx.data(), sq.data());
    for (size_t j = 0; j < found && j < 8; j++) { uint64_t u; memcpy(&u, &sq[j], 8); sim_digest(u ^ idx[j]); }
    if (e) sim_violation("wrong-neighbours", "%s", e);
  }
}
template <typename Proj, typename PC>
static void build_and_query(int builder, int threads, int leaf, const std::shared_ptr<PC>& pc, const Cloud& c) {
  ProjectionSetting ps; static const int sc[] = {128, 128, 128, 4, 16, 1000}; ps.max_scan_count = sc[sim_draw(5, 0, 5)];
  if (builder == 0) { KdTreeBuilder b; b.max_leaf_size = leaf; b.projection_setting = ps; KdTree<PC, Proj> t(pc, b); query(t, c); }
  else if (builder == 1) { KdTreeBuilderOMP b(threads); b.max_leaf_size = leaf; b.projection_setting = ps; KdTree<PC, Proj> t(pc, b); query(t, c); }
  else { KdTreeBuilderTBB b; b.max_leaf_size = leaf; b.projection_setting = ps; KdTree<PC, Proj> t(pc, b); query(t, c); }
}
template <typename PC>
static void unsafe_build(int builder, int threads, int leaf, const PC& pc, const Cloud& c) {
  if (builder == 0) { KdTreeBuilder b; b.max_leaf_size = leaf; UnsafeKdTree<PC> t(pc, b); query(t, c); }
  else if (builder == 1) { KdTreeBuilderOMP b(threads); b.max_leaf_size = leaf; UnsafeKdTree<PC> t(pc, b); query(t, c); }
  else { KdTreeBuilderTBB b; b.max_leaf_size = leaf; UnsafeKdTree<PC> t(pc, b); query(t, c); }
}
extern "C" void harness_run(const char*) {
  int builder = (int)sim_draw(0, 0, 5); builder = builder == 0 ? 0 : builder <= 3 ? 1 : 2;
  int threads = draw_threads(0);
  static const int leafs[] = {20, 20, 1, 2, 3, 5, 10, 64, 600, 20};
  int leaf = leafs[sim_draw(0, 0, 9)]; int form = (int)sim_draw(0, 0, 3);
  bool huge = sim_draw(0, 0, 499) == 0; Cloud c = huge ? make_cloud(1, huge_size(1), (int)sim_draw(1, 0, OR_CLOUD_KINDS - 1), draw_scale(1)) : draw_cloud(1, 2600); if (huge) sim_probe(5, "more than 65000 points");
  // map coordinates: the same cloud far away from the origin (UTM / ECEF like), where rounding is coarse
  double off[3] = {0, 0, 0}; int offk = (int)sim_draw(0, 0, 15);
  if (offk >= 11) { static const double m[] = {1e3, 1e5, 5e5, 4.5e6, 6.4e6}; for (int d = 0; d < 3; d++) off[d] = sim_drawd(0, -1, 1) * m[offk - 11]; Pause pz; for (size_t i = 0; i < c.n; i++) for (int d = 0; d < 3; d++) c.p[4 * i + d] += off[d]; sim_probe(3, "map coordinates (far from the origin)"); }
  g_off = off;
  sim_sample("builder=%s threads=%d leaf=%d form=%d n=%zu cloud=%s scale=%g offset=%g", builder == 0 ? "serial" : builder == 1 ? "omp" : "tbb", threads, leaf, form, c.n, or_cloud_name(c.kind), c.scale, off[0]);
  sim_set_nontrivial(c.n > 0 && (builder == 0 || c.n > 512 || threads > 1));
  if (c.n > 512 && builder) sim_probe(0, "parallel build with tasks"); if (c.n == 0) sim_probe(1, "empty cloud"); if (leaf < 3) sim_probe(2, "tiny leaves");
  std::shared_ptr<PointCloud> pc; Eigen::MatrixXd mat; if (form == 2) mat = to_mat(c); else pc = to_cloud(c);
  for (int rd = 0; rd < 2; rd++) {
    if (rd) {  // a second tree over the same cloud object, whose points have moved in place
      if (!c.n || !sim_flip(3, 20)) break;
      Pause pz; for (size_t i = 0; i < c.n; i++) { double x = c.p[4 * i], y = c.p[4 * i + 1], z = c.p[4 * i + 2]; c.p[4 * i] = y; c.p[4 * i + 1] = z; c.p[4 * i + 2] = x; for (int d = 0; d < 3; d++) if (form == 2) mat.data()[(size_t)d * c.n + i] = c.p[4 * i + d]; else pc->points[i].data()[d] = c.p[4 * i + d]; }
      double o = off[0]; off[0] = off[1]; off[1] = off[2]; off[2] = o; builder = (int)sim_draw(3, 0, 2); threads = (int)sim_draw(3, 1, 9); sim_probe(4, "points moved in place between two trees");
    }
    if (form == 0) build_and_query<AxisAlignedProjection>(builder, threads, leaf, pc, c);
    else if (form == 1) build_and_query<NormalProjection>(builder, threads, leaf, pc, c);
    else if (form == 2) unsafe_build(builder, threads, leaf, mat, c);
    else unsafe_build(builder, threads, leaf, *pc, c);
  }
}
