// C07 incremental voxel maps against a reference model; C08 allocation failures during insertion
#include "common.hpp"
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <map>
#include <array>
#include <new>
#include <cmath>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C07", "C08", nullptr};
extern "C" void harness_init(const char*) {}
template <typename V> struct KD;
template <bool N, bool C> struct KD<FlatContainer<N, C>> { enum { n = N, c = C, g = 0 }; };
template <> struct KD<GaussianVoxel> { enum { n = 0, c = 1, g = 1 }; };
typedef std::array<long, 3> Key;
struct MP { double p[4], n[4], C[16]; size_t gidx; bool hit; };
struct MV { size_t lru; size_t np; double sum[4], C[16]; std::vector<MP> pts; };
struct Model { double leaf; size_t horizon = 100, cycle = 10, t = 0; int off = 1; double min_sq = 0.01; size_t cap = 10; std::map<Key, MV> v; size_t evicted = 0; };
struct Frame { std::shared_ptr<PointCloud> pc; Eigen::Isometry3d T; double Tm[16]; size_t n; };
static bool key_of(const double* p, double leaf, Key& k) { for (int d = 0; d < 3; d++) { double x = p[d] * (1.0 / leaf); double f = std::floor(x), fr = x - f, tol = 1e-9 * (1 + std::fabs(x)); if (fr < tol || fr > 1 - tol || std::fabs(x) > 1e9) return false; k[d] = (long)f; } return true; }
static void cov_rot(const double* T, const double* C, double* out) { double a[16]; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) { a[r * 4 + c] = 0; for (int k = 0; k < 4; k++) a[r * 4 + c] += T[r * 4 + k] * C[k * 4 + c]; } for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) { out[r * 4 + c] = 0; for (int k = 0; k < 4; k++) out[r * 4 + c] += a[r * 4 + k] * T[c * 4 + k]; } }
static void to_T(const double* T, Eigen::Isometry3d& out) { out.setIdentity(); for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) out.matrix().data()[c * 4 + r] = T[r * 4 + c]; }
// draws a frame; points whose voxel or thinning decision hinges on rounding are left out
static Frame draw_frame(int g, double leaf, const Model* m, bool gauss, int step, size_t maxn) {
  Frame f; Pause pz; size_t n = sim_flip(g, 8) ? 0 : sim_draw(g, 1, maxn); if (maxn >= 120 && sim_flip(g, 1)) { n = sim_draw(g, 500, 1500); sim_probe(9, "large frame"); } int kind = (int)sim_draw(g, 0, OR_CLOUD_KINDS - 1); static const double sf[] = {1.0, 3.0, 0.3, 6.0, 2.0}; double scale = leaf * sf[sim_draw(g, 0, 4)]; if (kind == 6) scale *= 0.05;
  if (maxn > 65000) { n = maxn; kind = 0; scale = leaf * (sim_flip(g, 40) ? 0.04 : 60); if (scale < leaf) sim_probe(12, "tens of thousands of points in one voxel"); }
  Cloud c = make_cloud(g, n, kind, scale); double xi[6] = {0, 0, 0, 0, 0, 0}; int pk = (int)sim_draw(g, 0, 4);
  if (pk >= 1) for (int d = 3; d < 6; d++) xi[d] = sim_drawd(g, -2, 2) * leaf; if (pk >= 2) for (int d = 0; d < 3; d++) xi[d] = sim_drawd(g, -3, 3); if (pk == 3) xi[3] += step * 4 * leaf; if (pk == 4) xi[4] = 100 * leaf * sim_drawd(g, -1, 1);
  or_se3_exp(xi, f.Tm); if (pk == 0 || pk == 1 || pk == 3) if (!xi[0] && !xi[1] && !xi[2]) for (int r = 0; r < 4; r++) for (int cc = 0; cc < 4; cc++) f.Tm[r * 4 + cc] = r == cc ? 1 : (cc == 3 && r < 3 ? xi[3 + r] : 0);
  to_T(f.Tm, f.T); f.pc = std::make_shared<PointCloud>(); uint64_t s = sim_draw(g, 1, 100000); std::vector<std::array<double, 4>> kept; 
  for (size_t i = 0; i < n; i++) {
    double q[4]; or_transform(f.Tm, c.p + 4 * i, q); Key k; if (!key_of(q, leaf, k)) continue;
    if (!gauss && m) { bool amb = false; auto chk = [&](const double* p) { double d = 0; for (int j = 0; j < 3; j++) d += (p[j] - q[j]) * (p[j] - q[j]); if (std::fabs(d - m->min_sq) <= 1e-9 * m->min_sq && m->min_sq > 0) amb = true; }; auto it = m->v.find(k); if (it != m->v.end()) for (auto& p : it->second.pts) chk(p.p); for (auto& p : kept) chk(p.data()); if (amb) continue; }
    kept.push_back({q[0], q[1], q[2], q[3]}); size_t j = f.pc->points.size(); f.pc->resize(j + 1); for (int d = 0; d < 4; d++) f.pc->points[j].data()[d] = c.p[4 * i + d];
    double nv[4], nn = 0; for (int d = 0; d < 3; d++) { nv[d] = (double)(sim_rand64(s, 16 * i + d) >> 40) / 16777216.0 - 0.5; nn += nv[d] * nv[d]; } nn = std::sqrt(nn) + 1e-9; for (int d = 0; d < 3; d++) nv[d] /= nn; nv[3] = 0;
    for (int d = 0; d < 4; d++) f.pc->normals[j].data()[d] = nv[d]; for (int r = 0; r < 4; r++) for (int cc = 0; cc < 4; cc++) f.pc->covs[j].data()[cc * 4 + r] = r < 3 && cc < 3 ? (r == cc) * (1.0 + 0.1 * r) - 0.9 * nv[r] * nv[cc] : 0.0;
  }
  free(c.p); f.n = f.pc->size(); return f;
}
static void model_insert(Model& m, const Frame& f, bool gauss) {
  for (size_t i = 0; i < f.n; i++) {
    double q[4]; or_transform(f.Tm, f.pc->points[i].data(), q); Key k; key_of(q, m.leaf, k); auto it = m.v.find(k);
    if (it == m.v.end()) { MV v; memset(v.sum, 0, 32); memset(v.C, 0, 128); v.np = 0; v.lru = m.t; it = m.v.emplace(k, v).first; }
    MV& v = it->second; v.lru = m.t; double Ci[16], C[16]; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) Ci[r * 4 + c] = f.pc->covs[i].data()[c * 4 + r]; cov_rot(f.Tm, Ci, C);
    if (gauss) { v.np++; for (int d = 0; d < 4; d++) v.sum[d] += q[d]; for (int d = 0; d < 16; d++) v.C[d] += C[d]; continue; }
    bool skip = v.pts.size() >= m.cap; for (auto& p : v.pts) { double d = 0; for (int j = 0; j < 3; j++) d += (p.p[j] - q[j]) * (p.p[j] - q[j]); if (d < m.min_sq) skip = true; }
    if (skip) continue; MP p; memcpy(p.p, q, 32); memcpy(p.C, C, 128); for (int r = 0; r < 4; r++) { p.n[r] = 0; for (int c = 0; c < 4; c++) p.n[r] += f.Tm[r * 4 + c] * f.pc->normals[i].data()[c]; } p.gidx = 0; p.hit = false; v.pts.push_back(p);
  }
  m.t++;
  if (m.t % m.cycle == 0) for (auto it = m.v.begin(); it != m.v.end();) if (it->second.lru + m.horizon < m.t) { it = m.v.erase(it); m.evicted++; } else ++it;
  if (gauss) for (auto& kv : m.v) { MV& v = kv.second; v.pts.resize(1); MP& p = v.pts[0]; for (int d = 0; d < 4; d++) p.p[d] = v.sum[d] / v.np; for (int d = 0; d < 16; d++) p.C[d] = v.C[d] / v.np; memset(p.n, 0, 32); }
}
static bool near(const double* a, const double* b, int n, double tol) { for (int i = 0; i < n; i++) if (!(std::fabs(a[i] - b[i]) <= tol)) return false; return true; }
template <typename V> static void fetch(const IncrementalVoxelMap<V>& map, size_t gi, MP& o) {
  auto p = traits::point(map, gi); for (int d = 0; d < 4; d++) o.p[d] = p.data()[d]; memset(o.n, 0, 32); memset(o.C, 0, 128);
  if constexpr (KD<V>::n) { auto n = traits::normal(map, gi); for (int d = 0; d < 4; d++) o.n[d] = n.data()[d]; }
  if constexpr (KD<V>::c) { Eigen::Matrix4d C = traits::cov(map, gi); for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) o.C[r * 4 + c] = C.data()[c * 4 + r]; }
  o.gidx = gi;
}
template <typename V> static void verify_contents(const IncrementalVoxelMap<V>& map, Model& m) {
  auto idx = traits::point_indices(map); size_t sz = map.size();
  auto vp = traits::voxel_points(map); if (vp.size() != idx.size()) sim_violation("wrong-map", "%zu point indices but %zu voxel points", idx.size(), vp.size());
  for (size_t j = 0; j < idx.size(); j++) if (traits::point(map, idx[j]) != vp[j]) sim_violation("wrong-map", "entry %zu of voxel_points is not the point of index %#zx", j, idx[j]);
  if constexpr (KD<V>::n) { auto vn = traits::voxel_normals(map); if (vn.size() != idx.size()) sim_violation("wrong-map", "%zu point indices but %zu voxel normals", idx.size(), vn.size()); for (size_t j = 0; j < idx.size(); j++) if (traits::normal(map, idx[j]) != vn[j]) sim_violation("wrong-map", "entry %zu of voxel_normals is not the normal of index %#zx", j, idx[j]); }
  if constexpr (KD<V>::c) { auto vc = traits::voxel_covs(map); if (vc.size() != idx.size()) sim_violation("wrong-map", "%zu point indices but %zu voxel covariances", idx.size(), vc.size()); for (size_t j = 0; j < idx.size(); j++) if (traits::cov(map, idx[j]) != vc[j]) sim_violation("wrong-map", "entry %zu of voxel_covs is not the covariance of index %#zx", j, idx[j]); }
  size_t want = 0; { Pause pz; for (auto& kv : m.v) { want += kv.second.pts.size(); for (auto& p : kv.second.pts) p.hit = false; } }
  if (sz != m.v.size()) sim_violation("wrong-map", "map has %zu voxels after insertion %zu, the reference model %zu (%zu evicted so far)", sz, m.t, m.v.size(), m.evicted);
  if (idx.size() != want) sim_violation("wrong-map", "map holds %zu points after insertion %zu, the reference model %zu", idx.size(), m.t, want);
  for (size_t j = 0; j < idx.size(); j++) {
    MP o; fetch(map, idx[j], o); Pause pz; double mag = 0; for (int d = 0; d < 3; d++) mag = std::max(mag, std::fabs(o.p[d])); double tol = 1e-9 * (mag + m.leaf); Key k; for (int d = 0; d < 3; d++) k[d] = (long)std::floor(o.p[d] / m.leaf);
    auto it = m.v.find(k); MP* f = nullptr; if (it != m.v.end()) for (auto& p : it->second.pts) if (!p.hit && near(p.p, o.p, 4, tol) && (!KD<V>::n || near(p.n, o.n, 4, 1e-9)) && (!KD<V>::c || near(p.C, o.C, 16, 1e-9))) { f = &p; break; }
    if (!f) { if (it != m.v.end()) for (auto& p : it->second.pts) if (near(p.p, o.p, 4, tol)) sim_violation("wrong-map", "stored point (%g %g %g) has the right position but is a duplicate or has a wrong normal or covariance", o.p[0], o.p[1], o.p[2]); sim_violation("wrong-map", "stored point (%.9g %.9g %.9g; index %#zx) does not exist in the reference model after insertion %zu", o.p[0], o.p[1], o.p[2], idx[j], m.t); }
    f->hit = true; f->gidx = idx[j]; 
  }
  Pause pz; sim_digest(sz); sim_digest(want);
}
template <typename V> static void queries(const IncrementalVoxelMap<V>& map, const Model& m, int g, int nq) {
  size_t idx[64]; double sq[64];
  for (int i = 0; i < nq; i++) {
    double q[4] = {0, 0, 0, 1}; size_t k; bool nn; Key key;
    { Pause pz; int kind = (int)sim_draw(g, 0, 3); size_t vi = sim_draw(g, 0, 10000); double jit[3]; for (int d = 0; d < 3; d++) jit[d] = sim_drawd(g, -1.3, 1.3); static const int ks[] = {1, 2, 3, 5, 10, 20, 40}; k = ks[sim_draw(g, 0, 6)]; nn = sim_flip(g, 30);
      if (!m.v.empty()) { auto it = m.v.begin(); std::advance(it, vi % m.v.size()); const auto& ps = it->second.pts; if (!ps.empty()) memcpy(q, ps[vi % ps.size()].p, 24); else for (int d = 0; d < 3; d++) q[d] = (it->first[d] + 0.5) * m.leaf; }
      for (int d = 0; d < 3; d++) q[d] += kind == 0 ? 0.0 : kind == 3 ? jit[d] * 30 * m.leaf : jit[d] * m.leaf;
      if (!key_of(q, m.leaf, key)) continue; }
    for (size_t j = 0; j < k; j++) { idx[j] = 0xAAAAAAAAAAAAull; sq[j] = -1; }
    Eigen::Vector4d Q(q[0], q[1], q[2], 1.0); size_t found;
    if (nn) { k = 1; found = traits::nearest_neighbor_search(map, Q, idx, sq); } else found = traits::knn_search(map, Q, k, idx, sq);
    Pause pz; std::vector<double> cp; std::vector<size_t> ci;
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) { int l1 = std::abs(a) + std::abs(b) + std::abs(c); if ((m.off == 1 && l1) || (m.off == 7 && l1 > 1)) continue; auto it = m.v.find(Key{key[0] + a, key[1] + b, key[2] + c}); if (it == m.v.end()) continue; for (auto& p : it->second.pts) { for (int d = 0; d < 4; d++) cp.push_back(p.p[d]); ci.push_back(p.gidx); } }
    size_t loc[64]; for (size_t j = 0; j < found && j < 64; j++) { loc[j] = (size_t)-1; for (size_t x = 0; x < ci.size(); x++) if (ci[x] == idx[j]) loc[j] = x; if (loc[j] == (size_t)-1) sim_violation("wrong-neighbours", "query reports index %#zx which is not a point stored in the searched voxels (search range %d)", idx[j], m.off); uint64_t u; memcpy(&u, &sq[j], 8); sim_digest(u); }
    cp.resize(cp.size() + 4); const char* e = or_check_knn(cp.data(), ci.size(), q, k, found, loc, sq); if (e) sim_violation("wrong-neighbours", "search range %d: %s", m.off, e);
    if (found) sim_probe(0, "query found points"); if (found > 1 && m.off > 1) sim_probe(1, "several voxels searched"); if (!found) sim_probe(2, "query found nothing");
  }
}
// one voxel on its own: sizes, attributes, and exact search among its points only
template <typename V> static void voxel_alone(const IncrementalVoxelMap<V>& map, const Model& m, int g) {
  if (!map.size()) return; size_t vi = sim_draw(g, 0, 1000000) % map.size(); const V& v = map.flat_voxels[vi]->second; size_t n = traits::size(v); size_t idx[64]; double sq[64];
  if (!n || !traits::has_points(v)) sim_violation("wrong-map", "a voxel of the map is empty"); if (traits::has_covs(v) != (bool)KD<V>::c) sim_violation("wrong-map", "has_covs of a voxel of %zu points is wrong", n); if constexpr (!KD<V>::g) if (traits::has_normals(v) != (bool)KD<V>::n) sim_violation("wrong-map", "has_normals of a voxel of %zu points is wrong", n);
  for (int r = 0; r < 2; r++) {
    static const int ks[] = {1, 2, 3, 5, 10, 20}; size_t k = ks[sim_draw(g, 0, 5)]; bool nn = r == 1; double q[4] = {0, 0, 0, 1}; for (int d = 0; d < 3; d++) q[d] = traits::point(v, n / 2)[d] + sim_drawd(g, -0.7, 0.7) * m.leaf; if (nn) k = 1; for (size_t j = 0; j < k; j++) { idx[j] = 0xAAAAAAAAAAAAull; sq[j] = -1; }
    Eigen::Vector4d Q(q[0], q[1], q[2], 1.0); size_t found = nn ? traits::nearest_neighbor_search(v, Q, idx, sq) : traits::knn_search(v, Q, k, idx, sq);
    Pause pz; std::vector<double> cp(4 * n + 4); for (size_t i = 0; i < n; i++) for (int d = 0; d < 4; d++) cp[4 * i + d] = traits::point(v, i).data()[d];
    const char* e = or_check_knn(cp.data(), n, q, k, found, idx, sq); if (e) sim_violation("wrong-neighbours", "search in one voxel of %zu points: %s", n, e);
  }
}
template <typename V> struct Reader { const IncrementalVoxelMap<V>* map; const Model* m; int g, n; static void run(void* a) { Reader* r = (Reader*)a; queries(*r->map, *r->m, r->g, r->n); } };
template <typename V> static void run07(const char* name) {
  static const double lf[] = {1.0, 0.5, 0.25, 2.0}; double leaf = lf[sim_draw(0, 0, 3)]; if (sim_draw(0, 0, 1)) leaf *= 1.0 + sim_drawd(0, 0.01, 0.4);
  Model m; m.leaf = leaf; constexpr bool gauss = KD<V>::g; int ops = (int)sim_draw(0, 4, 24); bool big = gauss && sim_draw(0, 0, 499) == 0, lng = !big && sim_draw(0, 0, 99) == 0; size_t maxn = 120; if (big) { ops = 2; maxn = huge_size(0) + 3000; sim_probe(10, "more than 65000 voxels"); } if (lng) { ops = 280 + ops * 16; maxn = 5; sim_probe(11, "hundreds of insertions"); }
  IncrementalVoxelMap<V> map(leaf); if (sim_flip(0, 60)) { m.horizon = map.lru_horizon = sim_draw(0, 0, 6); m.cycle = map.lru_clear_cycle = sim_draw(0, 1, 5); } else if (lng) { m.horizon = map.lru_horizon = sim_draw(0, 0, 360); m.cycle = map.lru_clear_cycle = sim_draw(0, 1, sim_flip(0, 50) ? 20 : 300); }
  sim_sample("voxelmap %s leaf=%g ops=%d horizon=%zu cycle=%zu", name, leaf, ops, m.horizon, m.cycle); sim_set_nontrivial(1);
  for (int op = 0; op < ops; op++) {
    if (!sim_op_enabled(op)) continue; int g = 100 + (op % 480) * 8; int what = op == 0 ? 0 : (int)sim_draw(g, 0, 9);
    if (what <= 5) {
      Frame f = draw_frame(g + 1, leaf, &m, gauss, op, maxn);
      bool ident; { Pause pz; ident = memcmp(f.Tm, f.T.data(), 8) == 0; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) if (f.Tm[r * 4 + c] != (r == c)) ident = false; model_insert(m, f, gauss); }
      if (ident && (op & 1)) map.insert(*f.pc); else map.insert(*f.pc, f.T);
      if (!f.n) sim_probe(3, "empty frame inserted"); if (m.evicted) sim_probe(4, "voxels evicted");
      verify_contents(map, m); queries(map, m, g + 2, 3); voxel_alone(map, m, g + 7); Pause pz; f.pc.reset();
    } else if (what == 6) {
      int o = (int)sim_draw(g, 0, 3); static const int os[] = {1, 7, 27, 27}; m.off = os[o]; map.set_search_offsets(m.off); sim_probe(5, "search range changed"); queries(map, m, g + 2, 3);
    } else if (what == 7) {
      if (!lng && sim_draw(g, 0, 1)) { m.horizon = map.lru_horizon = sim_draw(g, 0, 8); m.cycle = map.lru_clear_cycle = sim_draw(g, 1, 6); sim_probe(6, "eviction settings changed"); }
      else if constexpr (!gauss) { static const double ms[] = {0.01, 0.05, 0.0, 0.3}; double r = ms[sim_draw(g, 0, 3)] * leaf; m.min_sq = map.voxel_setting.min_sq_dist_in_cell = r * r; m.cap = map.voxel_setting.max_num_points_in_cell = sim_draw(g, 1, 20); if (sim_draw(g, 0, 7) == 0) { m.cap = map.voxel_setting.max_num_points_in_cell = sim_draw(g, 21, 600); m.min_sq = map.voxel_setting.min_sq_dist_in_cell = 0; } sim_probe(7, "cell settings changed"); }
    } else {
      Reader<V> r[4]; int tid[4]; int nr = (int)sim_draw(g, 1, 4); for (int i = 0; i < nr; i++) { r[i].map = &map; r[i].m = &m; r[i].g = g + 3 + i; r[i].n = 4; } if (nr > 1) sim_probe(8, "concurrent readers");
      for (int i = 0; i < nr; i++) tid[i] = sim_spawn(Reader<V>::run, &r[i]); for (int i = 0; i < nr; i++) sim_join(tid[i]);
    }
  }
}
// ---- C08
template <typename V> static void self_check(const IncrementalVoxelMap<V>& map, const std::map<size_t, int>* dummy, double leaf, const char* when) {
  auto idx = traits::point_indices(map); size_t qi[8]; double qs[8];
  for (size_t j = 0; j < idx.size(); j++) {
    MP o; fetch(map, idx[j], o); bool fin = true; for (int d = 0; d < 4; d++) if (!(std::fabs(o.p[d]) < 1e100)) fin = false; for (int d = 0; d < 16; d++) if (!(std::fabs(o.C[d]) < 1e100)) fin = false; if (!fin || std::fabs(o.p[3] - 1) > 1e-6) sim_violation("unsound-map", "%s: stored point %#zx is not a valid point (%g %g %g %g)", when, idx[j], o.p[0], o.p[1], o.p[2], o.p[3]);
    if (idx.size() > 60 && (j % (idx.size() / 60 + 1))) continue;
    Key kk; { Pause pz; if (!key_of(o.p, leaf, kk)) continue; }
    Eigen::Vector4d Q(o.p[0], o.p[1], o.p[2], 1.0); size_t f = traits::knn_search(map, Q, 3, qi, qs); bool hit = false;
    for (size_t a = 0; a < f; a++) { Pause pz; bool in = false; for (size_t b : idx) if (b == qi[a]) in = true; if (!in) sim_violation("unsound-map", "%s: a query reports index %#zx which is not a stored point", when, qi[a]); MP r; fetch(map, qi[a], r); double d = 0; for (int c = 0; c < 3; c++) d += (r.p[c] - o.p[c]) * (r.p[c] - o.p[c]); if (!(std::fabs(d - qs[a]) <= 1e-9 * d + 1e-15)) sim_violation("unsound-map", "%s: a query reports squared distance %g for a point at %g", when, qs[a], d); if (d <= 1e-12) hit = true; }
    if (!hit) sim_violation("unsound-map", "%s: stored point (%g %g %g) is not found by a query at its own position", when, o.p[0], o.p[1], o.p[2]);
  }
}
template <typename V> static void must_find(const IncrementalVoxelMap<V>& map, const Frame& f, double leaf, const char* when) {
  for (size_t i = 0; i < f.n; i += 1 + f.n / 40) { double q[4]; or_transform(f.Tm, f.pc->points[i].data(), q); Eigen::Vector4d Q(q[0], q[1], q[2], 1.0); size_t gi; double sq; size_t n = traits::nearest_neighbor_search(map, Q, &gi, &sq); if (n != 1) sim_violation("lost-points", "%s: nothing found at the position of inserted point %zu", when, i); if (!(sq <= 12 * leaf * leaf)) sim_violation("lost-points", "%s: nearest stored point is implausibly far (%g)", when, sq); }
}
template <typename V> static void run08(const char* name) {
  constexpr bool gauss = KD<V>::g; double leaf = 1.0 + sim_drawd(0, 0.01, 0.4); int ops = (int)sim_draw(0, 2, 10); uint64_t live0 = sim_heap_live_blocks(); bool failed = false;
  {
    IncrementalVoxelMap<V> map(leaf); Model m; m.leaf = leaf; m.horizon = map.lru_horizon = sim_draw(0, 1, 4); m.cycle = map.lru_clear_cycle = sim_draw(0, 1, 4); int off = (int)sim_draw(0, 0, 2); if (off) map.set_search_offsets(off == 1 ? 7 : 27);
    // reference bookkeeping: position -> last insertion that touched the voxel
    std::map<Key, size_t> touched; sim_sample("alloc faults in voxelmap %s ops=%d horizon=%zu cycle=%zu", name, ops, m.horizon, m.cycle); size_t tmin = 0, tmax = 0;  // bounds on the map's insertion clock
    for (int op = 0; op < ops; op++) {
      if (!sim_op_enabled(op)) continue; int g = 100 + op * 4; Frame f = draw_frame(g + 1, leaf, nullptr, true, op, 80);
      int tries = 0, arm = sim_flip(g, 70);
      do {
        std::vector<MP> before; std::map<Key, bool> conc; { Pause pz; auto ix = traits::point_indices(map); for (size_t gi : ix) { MP o; fetch(map, gi, o); before.push_back(o); } for (size_t i = 0; i < f.n; i++) { double q[4]; or_transform(f.Tm, f.pc->points[i].data(), q); Key k; key_of(q, leaf, k); conc[k] = true; } }
        bool thrown = false, fired = false; const char* wrong = nullptr;
        if (arm) { uint64_t k = sim_draw(g, 0, 1ull << sim_draw(g, 0, 9)); int burst = sim_flip(g, 30) ? (int)sim_draw(g, 2, 6) : 1; sim_alloc_arm(k, burst); }
        try { map.insert(*f.pc, f.T); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::length_error&) { wrong = "std::length_error"; } catch (...) { wrong = "unknown"; }
        fired = arm && sim_alloc_disarm() > 0;
        if (wrong) sim_violation("wrong-exception", "insertion threw %s", wrong); if (thrown && !fired) sim_violation("wrong-exception", "bad_alloc without an allocation failure");
        // the eviction clock may or may not have advanced when the failing frame got far enough
        size_t low = tmin; tmax++; if (!thrown) tmin++;
        if (fired) { sim_probe(0, "insertion with a failed allocation"); if (thrown) sim_probe(1, "insertion threw"); failed = true; }
        self_check(map, nullptr, leaf, thrown ? "after a failed insertion" : "after an insertion");
        { Pause pz; auto ix = traits::point_indices(map); std::vector<MP> now; for (size_t gi : ix) { MP o; fetch(map, gi, o); now.push_back(o); }
          for (auto& b : before) { Key k; for (int d = 0; d < 3; d++) k[d] = (long)std::floor(b.p[d] / leaf); if (gauss && conc.count(k)) continue; size_t lru = touched.count(k) ? touched[k] : 0; if (lru + m.horizon < tmax) continue; /* may have been evicted */ bool ok = false; for (auto& o : now) if (near(o.p, b.p, 4, 1e-12) && near(o.C, b.C, 16, 1e-12) && near(o.n, b.n, 4, 1e-12)) { ok = true; break; } if (!ok) sim_violation("lost-points", "point (%g %g %g) stored before the %s insertion is gone or changed", b.p[0], b.p[1], b.p[2], thrown ? "failed" : "successful"); } 
          for (auto& kv : conc) touched[kv.first] = low; }
        if (!thrown) must_find(map, f, leaf, "after an insertion that reported success");
        if (!thrown) break; arm = sim_flip(g, 25); tries++; sim_probe(2, "frame retried");
      } while (tries < 4);
    }
    sim_set_nontrivial(failed);
    { Pause pz; std::map<Key, size_t>().swap(touched); }
  }
  uint64_t live1 = sim_heap_live_blocks(); if (live1 != live0) sim_violation("leak", "%lld blocks still allocated after the map is destroyed", (long long)(live1 - live0));
}
extern "C" void harness_run(const char* prop) {
  bool c8 = !strcmp(prop, "C08"); int kind = (int)sim_draw(0, 0, 5);
  switch (kind) {
    case 0: case 1: c8 ? run08<GaussianVoxel>("gaussian") : run07<GaussianVoxel>("gaussian"); break;
    case 2: c8 ? run08<FlatContainerPoints>("points") : run07<FlatContainerPoints>("points"); break;
    case 3: c8 ? run08<FlatContainerNormal>("normals") : run07<FlatContainerNormal>("normals"); break;
    case 4: c8 ? run08<FlatContainerCov>("covs") : run07<FlatContainerCov>("covs"); break;
    default: c8 ? run08<FlatContainerNormalCov>("normals+covs") : run07<FlatContainerNormalCov>("normals+covs"); break;
  }
}
