#include "oracle.h"
#include "../sim/sim.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char g_msg[1024];
extern "C" char* or_msg(void) { return g_msg; }
#define FAIL(...) do { snprintf(g_msg, sizeof g_msg, __VA_ARGS__); return g_msg; } while (0)
struct R { uint64_t s, i; double u() { return (double)(sim_rand64(s, i++) >> 11) / 9007199254740992.0; } double g() { double a = 0; for (int k = 0; k < 6; k++) a += u(); return (a - 3.0) * 1.41; } uint64_t n(uint64_t k) { return sim_rand64(s, i++) % k; } };
extern "C" const char* or_cloud_name(int k) { static const char* n[] = {"uniform", "clusters", "lattice", "identical", "collinear", "plane", "two-far", "rings", "sorted-x", "dup-heavy", "room"}; return n[k % OR_CLOUD_KINDS]; }
extern "C" void or_gen_cloud(double* o, size_t n, int kind, double sc, uint64_t seed) {
  R r = {seed * 2654435761u + 17, 0};
  double c[8][3]; for (int k = 0; k < 8; k++) for (int d = 0; d < 3; d++) c[k][d] = (r.u() - 0.5) * 4 * sc;
  double dir[3] = {r.u() - 0.5, r.u() - 0.5, r.u() - 0.5};
  for (size_t i = 0; i < n; i++) {
    double* p = o + 4 * i; p[3] = 1.0;
    switch (kind % OR_CLOUD_KINDS) {
      case 0: for (int d = 0; d < 3; d++) p[d] = (r.u() - 0.5) * 2 * sc; break;
      case 1: { int k = r.n(8); for (int d = 0; d < 3; d++) p[d] = c[k][d] + r.g() * 0.1 * sc; break; }
      case 2: for (int d = 0; d < 3; d++) p[d] = (double)((int)r.n(9) - 4) * 0.25 * sc; break;
      case 3: for (int d = 0; d < 3; d++) p[d] = c[0][d]; break;
      case 4: { double t = (r.u() - 0.5) * 4 * sc; for (int d = 0; d < 3; d++) p[d] = dir[d] * t; break; }
      case 5: { double a = (r.u() - 0.5) * 2 * sc, b = (r.u() - 0.5) * 2 * sc; p[0] = a; p[1] = b; p[2] = 0.3 * a - 0.2 * b; break; }
      case 6: { double s = r.n(2) ? 100 * sc : -100 * sc; for (int d = 0; d < 3; d++) p[d] = s + r.g() * sc; break; }
      case 7: { int ring = r.n(16); double a = r.u() * 6.283185307179586, h = (ring - 8) * 0.05; double rad = sc * (1.0 + 0.3 * sin(3 * a)) * (ring % 4 + 1); p[0] = rad * cos(a); p[1] = rad * sin(a); p[2] = rad * h; break; }
      case 8: p[0] = (double)i * sc * 0.01; p[1] = (r.u() - 0.5) * sc; p[2] = (r.u() - 0.5) * sc; break;
      case 9: if (i && r.n(3)) memcpy(p, o + 4 * r.n(i), 32); else for (int d = 0; d < 3; d++) p[d] = (r.u() - 0.5) * 2 * sc; break;
      case 10: { int f = r.n(6); double a = (r.u() - 0.5) * 2 * sc, b = (r.u() - 0.5) * 2 * sc, s = (f & 1) ? sc : -sc; int ax = f >> 1; p[ax] = s * (ax == 0 ? 1.0 : ax == 1 ? 0.8 : 0.5); p[(ax + 1) % 3] = a * 0.9; p[(ax + 2) % 3] = b * 0.7; for (int d = 0; d < 3; d++) p[d] += r.g() * 0.002 * sc; break; }
    }
  }
}
static double d2(const double* a, const double* b) { double x = a[0] - b[0], y = a[1] - b[1], z = a[2] - b[2]; return x * x + y * y + z * z; }
extern "C" const char* or_check_knn(const double* pts, size_t n, const double* q, size_t k, size_t found, const size_t* idx, const double* sq) {
  size_t want = k < n ? k : n;
  if (found != want) FAIL("query returned %zu neighbours, expected min(k=%zu, n=%zu)", found, k, n);
  char* seen = (char*)calloc(n + 1, 1); const char* e = nullptr; double worst = 0;
  // a projected coordinate of magnitude M carries a rounding error of a few ulp(M): no search can order points closer than that
  double M = 0; for (int d = 0; d < 3; d++) M = fmax(M, fabs(q[d])); for (size_t i = 0; i < n; i++) for (int d = 0; d < 3; d++) M = fmax(M, fabs(pts[4 * i + d]));
  const double tau = 32 * 2.3e-16 * M;
  for (size_t i = 0; i < found; i++) {
    if (idx[i] >= n) { snprintf(g_msg, sizeof g_msg, "neighbour %zu has index %zu out of range (n=%zu)", i, idx[i], n); e = g_msg; break; }
    if (seen[idx[i]]) { snprintf(g_msg, sizeof g_msg, "point %zu reported twice", idx[i]); e = g_msg; break; }
    seen[idx[i]] = 1; double d = d2(pts + 4 * idx[i], q);
    if (!(fabs(d - sq[i]) <= 1e-9 * d + 1e-18)) { snprintf(g_msg, sizeof g_msg, "neighbour %zu (point %zu) reported squared distance %.17g, true %.17g", i, idx[i], sq[i], d); e = g_msg; break; }
    if (i && sq[i] < sq[i - 1]) { snprintf(g_msg, sizeof g_msg, "distances not ascending at %zu: %.17g < %.17g", i, sq[i], sq[i - 1]); e = g_msg; break; }
    if (d > worst) worst = d;
  }
  if (!e && found < n) for (size_t i = 0; i < n; i++) if (!seen[i]) { double d = d2(pts + 4 * i, q); if (d < worst - 1e-9 * worst - 2 * tau * sqrt(worst) - 1e-18) { snprintf(g_msg, sizeof g_msg, "point %zu at squared distance %.17g is closer than a reported neighbour at %.17g (k=%zu n=%zu)", i, d, worst, k, n); e = g_msg; break; } }
  free(seen); return e;
}
struct DI { double d; size_t i; };
static int cmp_di(const void* a, const void* b) { const DI *x = (const DI*)a, *y = (const DI*)b; if (x->d != y->d) return x->d < y->d ? -1 : 1; return x->i < y->i ? -1 : x->i > y->i; }
extern "C" size_t or_knn(const double* pts, size_t n, const double* q, size_t k, size_t* idx, double* sq) {
  // selection by a bounded insertion list
  size_t m = 0; DI* l = (DI*)malloc(sizeof(DI) * (k + 1));
  for (size_t i = 0; i < n; i++) { double d = d2(pts + 4 * i, q); if (m == k && d >= l[m - 1].d) continue; size_t j = m < k ? m++ : m - 1; while (j > 0 && l[j - 1].d > d) { l[j] = l[j - 1]; j--; } l[j].d = d; l[j].i = i; }
  for (size_t i = 0; i < m; i++) { idx[i] = l[i].i; sq[i] = l[i].d; }
  free(l); return m;
}
extern "C" void or_eig3(const double* A, double* w, double* V) {
  double a[3][3], v[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[i][j] = A[i * 3 + j];
  for (int it = 0; it < 60; it++) {
    double off = a[0][1] * a[0][1] + a[0][2] * a[0][2] + a[1][2] * a[1][2]; if (off == 0) break;
    for (int p = 0; p < 2; p++) for (int q = p + 1; q < 3; q++) {
      if (a[p][q] == 0) continue; double th = (a[q][q] - a[p][p]) / (2 * a[p][q]); double t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)); double c = 1 / sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < 3; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
      for (int k = 0; k < 3; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
      for (int k = 0; k < 3; k++) { double x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
    }
  }
  int o[3] = {0, 1, 2}; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) if (a[o[j]][o[j]] < a[o[i]][o[i]]) { int t = o[i]; o[i] = o[j]; o[j] = t; }
  for (int c = 0; c < 3; c++) { w[c] = a[o[c]][o[c]]; for (int r = 0; r < 3; r++) V[r * 3 + c] = v[r][o[c]]; }
}
extern "C" void or_se3_exp(const double* xi, double* T) {
  // rotation first (Rodrigues), translation through the left Jacobian; plain Taylor for tiny angles
  double w[3] = {xi[0], xi[1], xi[2]}; double th = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
  double K[9] = {0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0}, K2[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { K2[i * 3 + j] = 0; for (int k = 0; k < 3; k++) K2[i * 3 + j] += K[i * 3 + k] * K[k * 3 + j]; }
  double A, B, C; if (th < 1e-6) { A = 1 - th * th / 6; B = 0.5 - th * th / 24; C = 1.0 / 6 - th * th / 120; } else { A = sin(th) / th; B = (1 - cos(th)) / (th * th); C = (th - sin(th)) / (th * th * th); }
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) T[i * 4 + j] = (i == j) + A * K[i * 3 + j] + B * K2[i * 3 + j]; T[i * 4 + 3] = 0; for (int j = 0; j < 3; j++) T[i * 4 + 3] += ((i == j) + B * K[i * 3 + j] + C * K2[i * 3 + j]) * xi[3 + j]; }
  T[12] = T[13] = T[14] = 0; T[15] = 1;
}
extern "C" void or_mat4_mul(const double* A, const double* B, double* C) { double t[16]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { t[i * 4 + j] = 0; for (int k = 0; k < 4; k++) t[i * 4 + j] += A[i * 4 + k] * B[k * 4 + j]; } memcpy(C, t, sizeof t); }
extern "C" void or_mat4_inv_rigid(const double* T, double* R) { double t[16] = {0}; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) t[i * 4 + j] = T[j * 4 + i]; t[i * 4 + 3] = 0; for (int j = 0; j < 3; j++) t[i * 4 + 3] -= T[j * 4 + i] * T[j * 4 + 3]; } t[15] = 1; memcpy(R, t, sizeof t); }
extern "C" void or_transform(const double* T, const double* p, double* o) { double t[4]; for (int i = 0; i < 4; i++) { t[i] = 0; for (int k = 0; k < 4; k++) t[i] += T[i * 4 + k] * p[k]; } memcpy(o, t, sizeof t); }
extern "C" double or_rot_angle_between(const double* A, const double* B) { double f = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = A[i * 4 + j] - B[i * 4 + j]; f += d * d; } double s = sqrt(f / 8.0); return 2 * asin(s > 1 ? 1 : s); }
extern "C" double or_trans_between(const double* A, const double* B) { double f = 0; for (int i = 0; i < 3; i++) { double d = A[i * 4 + 3] - B[i * 4 + 3]; f += d * d; } return sqrt(f); }
extern "C" int or_voxel_coord(const double* p, double leaf, long* c) {
  double inv = 1.0 / leaf; const double off = 1048576.0, mx = 2097151.0; int ok = 1;
  for (int d = 0; d < 3; d++) { double f = floor(p[d] * inv); c[d] = f < -9e15 ? (long)-9e15 : f > 9e15 ? (long)9e15 : (long)f; if (!(f + off >= 0 && f + off <= mx)) ok = 0; }
  return ok;
}
struct Vox { long c[3]; double s[3]; size_t n; size_t outs; double lo[3], hi[3]; double so[3]; size_t first; };
static double g_out_eps = 0; extern "C" void or_set_out_eps(double e) { g_out_eps = e; }
extern "C" const char* or_check_voxelgrid(const double* in, size_t n, double leaf, const double* out, size_t m, size_t block, int serial) {
  size_t cap = 1; while (cap < 2 * n + 2) cap *= 2; Vox* v = (Vox*)calloc(cap, sizeof(Vox)); size_t nv = 0, valid = 0; const char* e = nullptr;
  auto find = [&](const long* c, bool create) -> Vox* { uint64_t h = ((uint64_t)c[0] * 73856093u) ^ ((uint64_t)c[1] * 19349663u) ^ ((uint64_t)c[2] * 83492791u); h *= 0x9e3779b97f4a7c15ull; h ^= h >> 31; for (size_t k = 0;; k++) { Vox* x = &v[(h + k) & (cap - 1)]; if (x->n && x->c[0] == c[0] && x->c[1] == c[1] && x->c[2] == c[2]) return x; if (!x->n) { if (!create) return nullptr; memcpy(x->c, c, sizeof x->c); return x; } } };
  double mag = 0;
  for (size_t i = 0; i < n; i++) { const double* p = in + 4 * i; long c[3]; if (!or_voxel_coord(p, leaf, c)) continue; valid++; Vox* x = find(c, true); if (!x->n) { nv++; x->first = i; for (int d = 0; d < 3; d++) x->lo[d] = x->hi[d] = p[d]; } x->n++; for (int d = 0; d < 3; d++) { x->s[d] += p[d]; if (p[d] < x->lo[d]) x->lo[d] = p[d]; if (p[d] > x->hi[d]) x->hi[d] = p[d]; if (fabs(p[d]) > mag) mag = fabs(p[d]); } }
  double tol = (g_out_eps > 1e-9 ? g_out_eps : 1e-9) * (mag + leaf);
  if (!e && serial && m != nv) { snprintf(g_msg, sizeof g_msg, "serial result has %zu points for %zu occupied voxels (%zu inputs, %zu in range)", m, nv, n, valid); e = g_msg; }
  if (!e && m < nv) { snprintf(g_msg, sizeof g_msg, "%zu output points for %zu occupied voxels", m, nv); e = g_msg; }
  size_t blocks = n / block + 1;
  if (!e && m > nv + blocks) { snprintf(g_msg, sizeof g_msg, "%zu output points for %zu occupied voxels: more than one extra point per block (%zu blocks, n=%zu)", m, nv, blocks, n); e = g_msg; }
  if (!e && n >= 20 * block && nv >= 20 * blocks && (double)m > 1.1 * (double)nv) { snprintf(g_msg, sizeof g_msg, "%zu output points, more than 10%% above %zu voxels", m, nv); e = g_msg; }
  // assign every output to a voxel: the mean of points of one voxel lies in that voxel up to rounding
  for (size_t i = 0; i < m && !e; i++) {
    const double* p = out + 4 * i; for (int d = 0; d < 4; d++) if (!(p[d] == p[d] && fabs(p[d]) < 1e300)) { snprintf(g_msg, sizeof g_msg, "output point %zu is not finite", i); e = g_msg; }
    if (e) break; if (fabs(p[3] - 1.0) > 1e-9) { snprintf(g_msg, sizeof g_msg, "output point %zu has homogeneous coordinate %.17g", i, p[3]); e = g_msg; break; }
    long c[3]; double q[4] = {p[0], p[1], p[2], 1}; Vox* best = nullptr;
    for (int pass = 0; pass < 27 && !best; pass++) { int k = (pass + 13) % 27; double qq[4] = {q[0] + (k % 3 - 1) * tol, q[1] + (k / 3 % 3 - 1) * tol, q[2] + (k / 9 - 1) * tol, 1}; or_voxel_coord(qq, leaf, c); Vox* x = find(c, false); if (x) { bool in = true; for (int d = 0; d < 3; d++) if (p[d] < x->lo[d] - tol || p[d] > x->hi[d] + tol) in = false; if (in) best = x; } }
    if (!best) { snprintf(g_msg, sizeof g_msg, "output point %zu (%.9g %.9g %.9g) is not a mean of input points of one voxel (leaf %.6g)", i, p[0], p[1], p[2], leaf); e = g_msg; break; }
    best->outs++; for (int d = 0; d < 3; d++) best->so[d] += p[d];
    if (best->outs == 1) best->first = i;
  }
  size_t extra = 0;
  for (size_t i = 0; i < cap && !e; i++) if (v[i].n) {
    Vox* x = &v[i];
    if (!x->outs) { snprintf(g_msg, sizeof g_msg, "voxel (%ld %ld %ld) with %zu points has no output point", x->c[0], x->c[1], x->c[2], x->n); e = g_msg; break; }
    extra += x->outs - 1;
    if (x->outs > x->n) { snprintf(g_msg, sizeof g_msg, "voxel with %zu points has %zu output points", x->n, x->outs); e = g_msg; break; }
    if (x->outs == 1) { for (int d = 0; d < 3; d++) if (fabs(x->so[d] - x->s[d] / x->n) > tol) { snprintf(g_msg, sizeof g_msg, "voxel (%ld %ld %ld) with %zu points: output %.17g is not the mean %.17g of its points", x->c[0], x->c[1], x->c[2], x->n, x->so[d], x->s[d] / x->n); e = g_msg; break; } }
    else if (x->outs == 2) {
      // two partial means over a split n1 + n2 = n: n1*m1 + n2*m2 = sum for some split; m1 from its own output, m2 from the other
      double m1[3], m2[3]; size_t k = 0; for (size_t j = 0; j < m && k < 2; j++) { const double* p = out + 4 * j; bool in = true; for (int d = 0; d < 3; d++) if (p[d] < x->lo[d] - tol || p[d] > x->hi[d] + tol) in = false; if (in) { long c[3]; bool here = true; or_voxel_coord(p, leaf, c); for (int d = 0; d < 3; d++) if (c[d] != x->c[d]) { double edge = c[d] > x->c[d] ? (x->c[d] + 1) * leaf : x->c[d] * leaf; if (fabs(p[d] - edge) > tol) here = false; } if (here) { memcpy(k ? m2 : m1, p, 24); k++; } } }
      if (k == 2) { bool ok = false; for (size_t a = 1; a < x->n && !ok; a++) { ok = true; for (int d = 0; d < 3; d++) if (fabs(a * m1[d] + (x->n - a) * m2[d] - x->s[d]) > tol * (x->n + 4)) ok = false; } if (!ok) { snprintf(g_msg, sizeof g_msg, "voxel (%ld %ld %ld): two partial means cannot account for its %zu points exactly once", x->c[0], x->c[1], x->c[2], x->n); e = g_msg; break; } }
    }
  }
  if (!e && extra + nv != m) { snprintf(g_msg, sizeof g_msg, "output count %zu does not match %zu voxels + %zu splits", m, nv, extra); e = g_msg; }
  free(v); return e;
}
static int cmp_u(const void* a, const void* b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return x < y ? -1 : x > y; }
extern "C" void or_sort_u64(uint64_t* a, size_t n) { qsort(a, n, 8, cmp_u); }
