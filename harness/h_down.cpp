// C02 voxel-grid downsampling conserves points; C16 random sampling
#include "common.hpp"
#include <limits>
#include <numeric>
#include <algorithm>
#include <random>
#include <atomic>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C02", "C16", nullptr};
extern "C" void harness_init(const char*) {}
template <typename PC> static void check_same_input(const PC& pc, const Cloud& c) {
  Pause pz;
  if (traits::size(pc) != c.n) sim_violation("input-modified", "input cloud resized from %zu to %zu", c.n, (size_t)traits::size(pc));
  for (size_t i = 0; i < c.n; i++) { Eigen::Vector4d p = traits::point(pc, i); for (int d = 0; d < 3; d++) { double x = p[d]; if (memcmp(&x, &c.p[4 * i + d], 8)) sim_violation("input-modified", "input point %zu was changed", i); } }
}
static void check_extra(const PointCloud& in, const Cloud& c) { Pause pz; for (size_t i = 0; i < c.n; i++) if (!(in.normals[i].array() == -7.25).all() || !(in.covs[i].array() == -3.5).all()) sim_violation("input-modified", "attributes of input point %zu were changed", i); }
template <typename PC> static void verify(const PC& out, const Cloud& c, double leaf, int backend) {
  Pause pz; size_t m = traits::size(out); double* o = (double*)malloc(32 * (m + 1));
  for (size_t i = 0; i < m; i++) { Eigen::Vector4d p = traits::point(out, i); for (int d = 0; d < 4; d++) { o[4 * i + d] = p[d]; } }
  const char* e = or_check_voxelgrid(c.p, c.n, leaf, o, m, 1000, backend == 0);
  sim_digest(m); sim_digest_bytes(o, 32 * (m < 64 ? m : 64));
  if (e) sim_violation("wrong-downsampling", "%s", e);
  free(o);
}
// an earlier call on the same cloud object with other content (points moved in place) must have no influence; its result stays as it was
template <typename F, typename PC> static auto after_history(PC& in, const Cloud& c, F&& call) {
  if (!sim_flip(3, 22) || !c.n) return call(in);
  auto pt = [&](size_t i, int d) -> double& { if constexpr (std::is_same<PC, PointCloud>::value) return in.points[i].data()[d]; else return in.data()[(size_t)d * c.n + i]; };
  { Pause pz; int m = (int)sim_draw(3, 0, 2); double sh = sim_drawd(3, -1, 1) * c.scale; for (size_t i = 0; i < c.n; i++) { const double* q = c.p + 4 * i; const double* r = c.p + 4 * ((i + 1) % c.n); for (int d = 0; d < 3; d++) pt(i, d) = m == 0 ? q[d] + sh : m == 1 ? r[(d + 1) % 3] : q[d] * 0.5; } sim_probe(7, "cloud changed in place after an earlier call"); }
  auto first = call(in); uint64_t h1 = 0, h2 = 0; auto hash = [&] { Pause pz; uint64_t h = traits::size(*first); for (size_t i = 0; i < traits::size(*first); i++) { Eigen::Vector4d p = traits::point(*first, i); for (int d = 0; d < 4; d++) { uint64_t u; double x = p.data()[d]; memcpy(&u, &x, 8); h = (h ^ u) * 1099511628211ull; } } return h; };
  h1 = hash(); { Pause pz; for (size_t i = 0; i < c.n; i++) for (int d = 0; d < 3; d++) pt(i, d) = c.p[4 * i + d]; }
  auto out = call(in); h2 = hash(); if (h1 != h2) sim_violation("array-changed", "the cloud returned by an earlier call was changed by a later one");
  return out;
}
static void voxelgrid() {
  int backend = (int)sim_draw(0, 0, 6); backend = backend == 0 ? 0 : backend < 4 ? 1 : 2;
  int threads = draw_threads(0); int form = (int)sim_draw(0, 0, 3);
  size_t n; switch (sim_draw(1, 0, 7)) { case 0: n = sim_draw(1, 0, 5); break; case 1: n = sim_draw(1, 1, 300); break; case 2: n = 1020 + sim_draw(1, 0, 8); break; case 3: n = 2044 + sim_draw(1, 0, 8); break; case 4: n = 3068 + sim_draw(1, 0, 10); break; case 5: n = sim_draw(1, 300, 1500); break; default: n = sim_draw(1, 1025, 6000); }
  if (sim_draw(1, 0, 399) == 0) { n = huge_size(1); sim_probe(8, "more than 65000 points"); }
  int kind = (int)sim_draw(1, 0, OR_CLOUD_KINDS - 1); double scale = draw_scale(1);
  Cloud c = make_cloud(1, n, kind, scale);
  // leaf: random factor (no coincidence of lattice coordinates with voxel faces) or a power of two (exact)
  double leaf; if (sim_draw(0, 0, 4) == 0) { leaf = 1; double want = scale * 0.1; while (leaf > want) leaf *= 0.5; while (leaf < want) leaf *= 2; } else { static const double f[] = {0.05, 0.3, 0.01, 1.0, 3.0, 0.1}; leaf = scale * f[sim_draw(0, 0, 5)] * (1.0 + sim_drawd(0, 0.01, 0.3)); }
  // lattice data: every coordinate a multiple of half a voxel (voxel faces included), far from or around the origin, leaf exactly representable
  bool snap = sim_flip(1, 17);
  if (snap) {
    Pause pz; leaf = 1; double want = scale * 0.2; while (leaf > want) leaf *= 0.5; while (leaf < want) leaf *= 2; double off[3]; int far = (int)sim_draw(1, 0, 3); double mar = (double)sim_draw(1, 0, 9);  // the outermost representable voxels and just beyond them
    for (int d = 0; d < 3; d++) off[d] = far == 0 ? 0 : far == 1 ? (double)((long)sim_draw(1, 0, 2000) - 1000) : far == 2 ? ((d + n) & 1 ? 1048576.0 - mar : -1048576.0 + mar) : (double)((long)sim_draw(1, 0, 2000000) - 1000000);
    for (size_t i = 0; i < n; i++) for (int d = 0; d < 3; d++) { double h = rint(c.p[4 * i + d] / leaf * 2); h = h > 60 ? 60 : h < -60 ? -60 : h; c.p[4 * i + d] = (h * 0.5 + off[d]) * leaf; }
    sim_probe(5, "points exactly on voxel faces"); if (far >= 2) sim_probe(6, "coordinates far from the origin");
  }
  // share of out-of-range points: none, a few, whole blocks, everything
  int oor = (int)sim_draw(2, 0, 7); size_t bad = 0;
  if (oor >= 4 && n) {
    Pause pz; int pct = oor == 4 ? 2 : oor == 5 ? 50 : oor == 6 ? 90 : 100; uint64_t s = sim_draw(2, 1, 100000);
    double lim = 1048576.0 * leaf; 
    for (size_t i = 0; i < n; i++) if ((int)(sim_rand64(s, 4 * i) % 100) < pct) { bad++; int d = sim_rand64(s, 4 * i + 1) % 3; uint64_t w = sim_rand64(s, 4 * i + 2); double v = (w & 8) ? lim * 1.001 : (w & 16) ? lim * 1e4 : (w & 32) ? 1e15 : (w & 64) ? __builtin_inf() : lim * (1.5 + (double)(w >> 40) / 1e7); c.p[4 * i + d] = (w & 1) ? v : -v; }
    sim_fault_fired(10, "out-of-range points"); if (pct == 100) sim_probe(3, "whole cloud out of range");
  }
  sim_sample("voxelgrid backend=%s threads=%d form=%d n=%zu cloud=%s leaf=%g out_of_range=%zu", backend == 0 ? "serial" : backend == 1 ? "omp" : "tbb", threads, form, n, or_cloud_name(kind), leaf, bad);
  sim_set_nontrivial(n > 1); if (n > 1024 && backend) sim_probe(0, "several work blocks"); if (!n) sim_probe(1, "empty cloud"); if (backend && n > 1024 && bad > n / 3) sim_probe(2, "whole blocks out of range");
  if (form == 3) {
    Eigen::MatrixXd in = to_mat(c);  // different input and output types
    std::shared_ptr<PointCloud> out = after_history(in, c, [&](const Eigen::MatrixXd& x) { return backend == 0 ? voxelgrid_sampling<Eigen::MatrixXd, PointCloud>(x, leaf) : backend == 1 ? voxelgrid_sampling_omp<Eigen::MatrixXd, PointCloud>(x, leaf, threads) : voxelgrid_sampling_tbb<Eigen::MatrixXd, PointCloud>(x, leaf); });
    if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
    verify(*out, c, leaf, backend); check_same_input(in, c);
  } else {
    auto in = to_cloud(c);
    auto out = after_history(*in, c, [&](const PointCloud& x) { return backend == 0 ? voxelgrid_sampling(x, leaf) : backend == 1 ? voxelgrid_sampling_omp(x, leaf, threads) : voxelgrid_sampling_tbb(x, leaf); });
    if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after the call");
    verify(*out, c, leaf, backend); check_same_input(*in, c); check_extra(*in, c);
  }
}
// ---- random sampling with an adversarial random source
struct SimRng { using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; } uint64_t seed, i = 0; int mode; uint32_t operator()() { uint64_t r = sim_rand64(seed, i++); switch (mode) { case 1: return (r & 3) ? 0u : (uint32_t)(r >> 8); case 2: return (r & 3) ? 0xffffffffu : (uint32_t)(r >> 8); case 3: return (i & 1) ? 0u : (uint32_t)(r >> 8); case 4: return (uint32_t)((r >> 8) & 0xff); default: return (uint32_t)(r >> 8); } } };
struct SimRng64 { using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t seed, i = 0; int mode; uint64_t operator()() { uint64_t r = sim_rand64(seed, i++); if (mode && (r & 3)) return mode & 1 ? 0 : ~0ull; return sim_rand64(seed + 1, i); } };
struct RJob { Cloud c; std::shared_ptr<PointCloud> in; size_t k; int rng; uint64_t seed; int mode; std::shared_ptr<PointCloud> out; };
static std::shared_ptr<PointCloud> sample(const RJob& j) {
  if (j.rng == 0) { SimRng r; r.seed = j.seed; r.mode = j.mode; return random_sampling(*j.in, j.k, r); }
  if (j.rng == 1) { SimRng64 r; r.seed = j.seed; r.mode = j.mode; return random_sampling(*j.in, j.k, r); }
  if (j.rng == 2) { std::mt19937 r((uint32_t)j.seed); return random_sampling(*j.in, j.k, r); }
  std::mt19937_64 r(j.seed); return random_sampling(*j.in, j.k, r);
}
static int cmp_pt(const void* a, const void* b) { return memcmp(a, b, 32); }
static void rjob(void* a) { RJob* j = (RJob*)a; j->out = sample(*j); }
static void check_sample(const RJob& j) {
  Pause pz; size_t want = j.k < j.c.n ? j.k : j.c.n;
  if (j.out->size() != want) sim_violation("wrong-sample", "sampled %zu points, expected min(%zu, %zu)", j.out->size(), j.k, j.c.n);
  double* a = (double*)malloc(32 * (j.c.n + 1)); double* b = (double*)malloc(32 * (want + 1)); for (size_t i = 0; i < 4 * j.c.n; i++) a[i] = j.c.p[i] + 0.0; for (size_t i = 0; i < want; i++) for (int d = 0; d < 4; d++) b[4 * i + d] = j.out->points[i][d] + 0.0;
  sim_digest_bytes(b, 32 * want); qsort(a, j.c.n, 32, cmp_pt); qsort(b, want, 32, cmp_pt);
  size_t x = 0; for (size_t i = 0; i < want; i++) { while (x < j.c.n && memcmp(a + 4 * x, b + 4 * i, 32) < 0) x++; if (x >= j.c.n || memcmp(a + 4 * x, b + 4 * i, 32)) sim_violation("wrong-sample", "a sampled point is not an input point, or is used more often than it occurs"); x++; }
  free(a); free(b);
  check_same_input(*j.in, j.c); check_extra(*j.in, j.c);
}
static void random_sampling_run() {
  int nj = (int)sim_draw(0, 1, 4); RJob job[4]; int tid[4];
  for (int i = 0; i < nj; i++) { RJob& j = job[i]; bool huge = sim_draw(10 + i, 0, 599) == 0; j.c = huge ? make_cloud(10 + i, huge_size(10 + i), 0, 5.0) : draw_cloud(10 + i, 1500); if (huge) sim_probe(8, "more than 65000 points"); j.in = to_cloud(j.c); int m = (int)sim_draw(20 + i, 0, 5); j.k = m == 0 ? 0 : m == 1 ? j.c.n : m == 2 ? j.c.n + sim_draw(20 + i, 0, 100) : m == 3 && j.c.n ? j.c.n - 1 : sim_draw(20 + i, 0, j.c.n); j.rng = (int)sim_draw(20 + i, 0, 3); j.seed = sim_draw(20 + i, 0, 100000); j.mode = (int)sim_draw(20 + i, 0, 4); if (j.rng < 2 && j.mode) sim_fault_fired(11, "adversarial random source"); }
  // two jobs may share one input cloud (read only)
  if (nj > 1 && sim_flip(0, 40)) { job[1].c = job[0].c; job[1].in = job[0].in; sim_probe(4, "callers share an input"); }
  sim_sample("random sampling callers=%d n=%zu k=%zu rng=%d mode=%d", nj, job[0].c.n, job[0].k, job[0].rng, job[0].mode); sim_set_nontrivial(job[0].c.n > 0);
  for (int i = 0; i < nj; i++) tid[i] = sim_spawn(rjob, &job[i]);
  for (int i = 0; i < nj; i++) sim_join(tid[i]);
  for (int i = 0; i < nj; i++) { check_sample(job[i]); auto again = sample(job[i]); Pause pz; if (again->size() != job[i].out->size()) sim_violation("irreproducible", "same random values gave %zu and then %zu points", job[i].out->size(), again->size()); for (size_t k = 0; k < again->size(); k++) if (memcmp(again->points[k].data(), job[i].out->points[k].data(), 32)) sim_violation("irreproducible", "same random values gave a different point %zu when sampled alone", k); }
}
extern "C" void harness_run(const char* prop) { if (!strcmp(prop, "C16")) random_sampling_run(); else voxelgrid(); }
