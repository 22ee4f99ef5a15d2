// C18 the odometry program: a dataset directory becomes one frame per point file in file-name order, and one pose line per frame
#include "common.hpp"
#include <iostream>
#include <string>
#include <algorithm>
#include <cmath>
#include <small_gicp/benchmark/benchmark.hpp>
#include <small_gicp/benchmark/benchmark_odom.hpp>
#define main odometry_main
#include <small_gicp/../../src/benchmark/odometry_benchmark.cpp>
#undef main
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C18", nullptr};
#define NOSAN __attribute__((no_sanitize("thread")))
struct CountBuf : std::streambuf { long n = 0; NOSAN int overflow(int c) override { n++; return c == EOF ? 0 : c; } NOSAN std::streamsize xsputn(const char*, std::streamsize k) override { n += k; return k; } };
static CountBuf g_err;
extern "C" void harness_init(const char*) { std::cerr.rdbuf(&g_err); std::cout.rdbuf(nullptr); }
typedef std::vector<std::vector<Eigen::Vector4f>> Raw;
struct File { std::string name; std::vector<float> f; size_t bytes; bool frame; };   // f: four floats per whole point
struct Data { std::vector<File> files; std::vector<const File*> frames; };            // frames: the point files in file-name order
static const char* DIRP = "/simdisk/d";
static bool is_bin(const std::string& n) { size_t d = n.rfind('.'); return d != std::string::npos && d > 0 && n.substr(d) == ".bin"; }
static void put(Data& d) { for (File& f : d.files) { std::vector<unsigned char> b(f.bytes + 1, 0x33); memcpy(b.data(), f.f.data(), std::min(f.bytes, f.f.size() * 4)); sim_fs_put((std::string(DIRP) + "/" + f.name).c_str(), b.data(), f.bytes); } for (File& f : d.files) if (f.frame) d.frames.push_back(&f); std::sort(d.frames.begin(), d.frames.end(), [](const File* a, const File* b) { return a->name < b->name; }); }
// point files under names of every shape, other files among them
static Data draw_data(int g, int nfr, bool room, uint64_t seed) {
  int style = (int)sim_draw(g, 0, 3), first = (int)sim_draw(g, 0, 120), ndec = sim_flip(g, 50) ? (int)sim_draw(g, 1, 5) : 0, order = (int)sim_draw(g, 0, 1), torn = room ? 0 : sim_flip(g, 30); size_t np[16]; for (int i = 0; i < nfr; i++) np[i] = room ? 0 : draw_size(g, 700);
  Pause pz; Data d; auto R = [&](uint64_t k) { return sim_rand64(seed, k); }; auto U = [&](uint64_t k, double lo, double hi) { return lo + (hi - lo) * (double)(R(k) >> 11) / 9007199254740992.0; };
  auto taken = [&](const std::string& n) { for (auto& f : d.files) if (f.name == n) return true; return false; };
  size_t nw = room ? 150 + R(1) % 120 : 0; std::vector<double> w(3 * nw); for (size_t i = 0; i < nw; i++) { double a = U(100 + 4 * i, -4, 4), b = U(101 + 4 * i, -4, 4); double* p = &w[3 * i]; switch ((int)(R(102 + 4 * i) % 5)) { case 0: case 1: p[0] = a; p[1] = b; p[2] = -1.5; break; case 2: p[0] = 4; p[1] = a; p[2] = 0.4 * b; break; case 3: p[0] = a; p[1] = -4; p[2] = 0.4 * b; break; default: p[0] = a; p[1] = b; p[2] = U(103 + 4 * i, -1.5, 1.5); } }
  for (int i = 0; i < nfr; i++) {
    File f; f.frame = true; char b[64];
    switch (style) { case 0: snprintf(b, 64, "%06d.bin", first + i); break; case 1: snprintf(b, 64, "%d.bin", first + i); break; case 2: snprintf(b, 64, "scan.%d.bin", first + 7 * i); break; default: snprintf(b, 64, "%c%llx%s.bin", "aZ_0m"[R(5000 + i) % 5], (unsigned long long)(R(5100 + i) % 4096), R(5200 + i) % 3 ? "" : "-b"); while (taken(b)) { std::string t = b; t.insert(0, "x"); snprintf(b, 64, "%s", t.c_str()); } }
    f.name = b;
    if (room) for (size_t k = 0; k < nw; k++) { double v[6]; for (int q = 0; q < 3; q++) v[q] = U(7777 + q, -0.012, 0.012) * i; for (int q = 3; q < 6; q++) v[q] = U(7777 + q, -0.08, 0.08) * i; double T[16], Ti[16], p[4] = {w[3 * k], w[3 * k + 1], w[3 * k + 2], 1}, o[4]; or_se3_exp(v, T); or_mat4_inv_rigid(T, Ti); or_transform(Ti, p, o); for (int q = 0; q < 3; q++) f.f.push_back((float)o[q]); f.f.push_back((float)(k % 100) / 100); }
    else for (size_t k = 0; k < 4 * np[i]; k++) f.f.push_back((float)U(1000000 * (i + 1) + k, -50, 50));
    f.bytes = f.f.size() * 4 + (torn ? R(6000 + i) % 16 : 0); d.files.push_back(f);
  }
  static const char* DEC[] = {"times.txt", "000000.bin.bak", "000001.BIN", "calib", ".bin", "poses.binx", "bin", "zz.bin~", "000002.tmp", "a.bin.txt"};
  for (int i = 0; i < ndec; i++) { File f; f.frame = false; f.name = DEC[(R(9000) + 3 * i) % 10]; if (taken(f.name)) continue; size_t n = R(9100 + i) % 40; for (size_t k = 0; k < 4 * n; k++) f.f.push_back((float)U(9200 + k, -5, 5)); f.bytes = 16 * n; d.files.push_back(f); }
  if (order) std::reverse(d.files.begin(), d.files.end()); put(d); return d;
}
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
struct Load { std::string path; size_t maxn; bool release, twice; Raw raw; size_t nraw_after; std::vector<std::shared_ptr<PointCloud>> c1, c2; bool threw; char exc[100]; };
static void do_load(void* a) {
  Load* l = (Load*)a; l->threw = false;
  try {
    KittiDataset k = l->maxn == ~(size_t)0 ? KittiDataset(l->path) : KittiDataset(l->path, l->maxn);
    { Pause pz; l->raw = k.points; }
    l->c1 = k.convert<PointCloud>(l->release); l->nraw_after = k.points.size(); if (l->twice) l->c2 = k.convert<PointCloud>();
  } catch (const std::exception& e) { l->threw = true; Pause pz; snprintf(l->exc, 100, "%s", e.what()); }
}
static void check_cloud(const PointCloud& c, const std::vector<Eigen::Vector4f>& r, size_t i) {
  if (c.points.size() != r.size() || c.normals.size() != r.size() || c.covs.size() != r.size()) sim_violation("bad-conversion", "frame %zu: %zu points became a cloud of %zu", i, r.size(), c.points.size());
  for (size_t k = 0; k < r.size(); k++) for (int d = 0; d < 4; d++) if (c.points[k][d] != (double)r[k][d]) sim_violation("bad-conversion", "frame %zu: coordinate %d of point %zu changed by the conversion", i, d, k);
}
static void run_load() {
  sim_fs_reset(); g_err.n = 0; int nfr = sim_flip(0, 8) ? 0 : (int)sim_draw(0, 1, 12); Data d = draw_data(1, nfr, false, sim_draw(0, 1, 1000000)); sim_fs_mkdir(DIRP, sim_draw(0, 1, 1000000));
  int nj = sim_flip(0, 30) ? (int)sim_draw(0, 2, 3) : 1; Load* job; { Pause pz; job = new Load[3](); }
  for (int i = 0; i < nj; i++) { Load& l = job[i]; bool sl = sim_flip(0, 30), lim = sim_flip(0, 50), rel = sim_flip(0, 50), tw = sim_flip(0, 60); size_t m = lim ? sim_draw(0, 0, nfr + 2) : ~(size_t)0; Pause pz; l.path = std::string(DIRP) + (sl ? "/" : ""); l.maxn = m; l.release = rel; l.twice = tw; }
  bool missing = nj == 1 && sim_flip(0, 5); if (missing) { Pause pz; job[0].path = "/simdisk/nowhere"; }
  int kind = 0; size_t at = 0; if (nj == 1 && sim_flip(0, 50)) { static const int ks[] = {FS_READDIR, FS_OPEN_ERR, FS_SHORT_READ, FS_EINTR, FS_READDIR}; kind = ks[sim_draw(0, 0, 4)]; at = sim_draw(0, 0, d.files.size() + 2); uint64_t arg = kind == FS_SHORT_READ ? sim_draw(0, 1, 600) : kind == FS_EINTR ? sim_draw(0, 0, 3) : 0; sim_fs_fault(kind, kind == FS_SHORT_READ ? 0 : at, arg); }
  sim_sample("dataset: %d frames among %zu files, callers=%d max=%zd fault kind %d at %zu", nfr, d.files.size(), nj, (ssize_t)job[0].maxn, kind, at); sim_set_nontrivial(d.files.size() > 1);
  if (nj == 1) do_load(&job[0]); else { int t[3]; for (int i = 0; i < nj; i++) t[i] = sim_spawn(do_load, &job[i]); for (int i = 0; i < nj; i++) sim_join(t[i]); }
  Pause pz; int fired = sim_fs_faults_fired(); bool listing = missing || (fired && (kind == FS_READDIR || (kind == FS_OPEN_ERR && at == 0)));
  for (int j = 0; j < nj; j++) {
    Load& l = job[j]; if (listing) { if (!l.threw) sim_violation("listing-failure-hidden", "the directory could not be read in full, %zu frames were returned without an error", l.raw.size()); sim_probe(1, "listing failure raised"); continue; }
    if (l.threw) sim_violation("exception", "loading threw '%s' though the directory was readable", l.exc);
    size_t want = std::min(d.frames.size(), l.maxn); if (l.raw.size() != want) sim_violation("frame-count", "%zu frames for %zu point files and a limit of %zd", l.raw.size(), d.frames.size(), (ssize_t)l.maxn);
    for (size_t i = 0; i < want; i++) {
      const File& f = *d.frames[i]; bool lost = fired && kind == FS_OPEN_ERR && at == i + 1; size_t n = lost ? 0 : f.f.size() / 4; if (lost) sim_probe(2, "one frame could not be opened");
      if (lost && !g_err.n) sim_violation("silent-read-failure", "a point file that could not be opened was not reported");
      if (l.raw[i].size() != n) sim_violation("wrong-frame", "frame %zu has %zu points, '%s' holds %zu", i, l.raw[i].size(), f.name.c_str(), n);
      for (size_t k = 0; k < n; k++) for (int q = 0; q < 4; q++) if (bits(l.raw[i][k][q]) != (q == 3 ? 0x3f800000u : bits(f.f[4 * k + q]))) sim_violation("wrong-frame", "frame %zu: coordinate %d of point %zu is not the one in '%s'", i, q, k, f.name.c_str());
      sim_digest(n);
    }
    if (l.c1.size() != want) sim_violation("bad-conversion", "%zu frames were converted into %zu clouds", want, l.c1.size()); for (size_t i = 0; i < want; i++) check_cloud(*l.c1[i], l.raw[i], i);
    if (l.release && l.nraw_after) sim_violation("bad-conversion", "raw points are still held after a releasing conversion"); if (!l.release && l.nraw_after != want) sim_violation("bad-conversion", "a conversion that should keep the raw points dropped frames");
    if (l.twice) { size_t w2 = l.release ? 0 : want; if (l.c2.size() != w2) sim_violation("bad-conversion", "the second conversion gave %zu clouds, not %zu", l.c2.size(), w2); for (size_t i = 0; i < w2; i++) { if (l.c2[i] == l.c1[i]) sim_violation("bad-conversion", "two conversions share a cloud"); check_cloud(*l.c2[i], l.raw[i], i); } }
  }
  if (sim_fs_open_dirs()) sim_violation("leaked-directory", "a directory handle is still open after loading"); if (sim_fs_open_files()) sim_violation("leaked-file", "a file is still open after loading");
  if (!fired && !missing && g_err.n) sim_violation("false-error", "an error was reported though nothing failed"); delete[] job;
}
struct Prog { std::vector<std::string> arg; int rc; bool threw; char exc[100]; };
static void do_prog(void* a) { Prog* p = (Prog*)a; p->threw = false; p->rc = -1; std::vector<char*> v; { Pause pz; for (auto& s : p->arg) v.push_back(&s[0]); v.push_back(nullptr); } try { p->rc = odometry_main((int)p->arg.size(), v.data()); } catch (const std::exception& e) { p->threw = true; Pause pz; snprintf(p->exc, 100, "%s", e.what()); } }
static void run_prog() {
  static const char* ENG[] = {"small_gicp", "small_gicp_omp", "small_gicp_tbb_flow", "small_gicp_tbb"};
  sim_fs_reset(); g_err.n = 0; int nfr = sim_flip(0, 6) ? 0 : (int)sim_draw(0, 1, 5), e = (int)sim_draw(0, 0, 3); uint64_t seed = sim_draw(0, 1, 1000000); Data d = draw_data(1, nfr, true, seed); sim_fs_mkdir(DIRP, sim_draw(0, 1, 1000000)); draw_threads(2);
  OdometryEstimationParams prm; bool set[4]; for (bool& b : set) b = sim_flip(3, 60); if (set[0]) prm.num_threads = (int)sim_draw(3, 1, 6); if (set[1]) prm.num_neighbors = (int)sim_draw(3, 8, 24); static const double ds[] = {0.25, 0.11, 0.4}; if (set[2]) prm.downsampling_resolution = ds[sim_draw(3, 0, 2)]; if (set[3]) prm.voxel_resolution = sim_draw(3, 1, 4) * 0.5;
  int bad = sim_flip(3, 12) ? (int)sim_draw(3, 1, 3) : 0, rot = (int)sim_draw(3, 0, 4); bool eng = e || sim_flip(3, 50), old = sim_flip(3, 25);
  Prog p; { Pause pz; p.arg = {"odometry_benchmark", DIRP, "/simdisk/out"}; std::vector<std::vector<std::string>> o; char b[32]; if (set[0]) o.push_back({"--num_threads", std::to_string(prm.num_threads)}); if (set[1]) o.push_back({"--num_neighbors", std::to_string(prm.num_neighbors)}); snprintf(b, 32, "%g", prm.downsampling_resolution); if (set[2]) o.push_back({"--downsampling_resolution", b}); snprintf(b, 32, "%g", prm.voxel_resolution); if (set[3]) o.push_back({"--voxel_resolution", b}); if (eng) o.push_back({"--engine", bad == 1 ? "no_such_engine" : ENG[e]}); if (bad == 2) o.push_back({"--frobnicate"}); if (!o.empty()) std::rotate(o.begin(), o.begin() + rot % o.size(), o.end()); for (auto& q : o) p.arg.insert(p.arg.end(), q.begin(), q.end()); if (bad == 3) p.arg.resize(2); if (bad == 1 && !eng) bad = 0; if (old) { std::string s(3000, 'z'); sim_fs_put("/simdisk/out", s.data(), s.size()); } }
  int kind = 0; size_t at = 0; if (!bad && sim_flip(4, 45)) { static const int ks[] = {FS_READDIR, FS_OPEN_ERR, FS_SHORT_READ, FS_EINTR, FS_ENOSPC, FS_SHORT_WRITE}; kind = ks[sim_draw(4, 0, 5)]; at = sim_draw(4, 0, d.files.size() + 2); uint64_t arg = kind == FS_SHORT_READ || kind == FS_SHORT_WRITE ? sim_draw(4, 1, 200) : kind == FS_EINTR ? sim_draw(4, 0, 3) : 0; if (kind == FS_ENOSPC) at = sim_draw(4, 0, 120 * (nfr + 1)); sim_fs_fault(kind, kind == FS_SHORT_READ || kind == FS_SHORT_WRITE ? 0 : at, arg); }
  if (sim_flip(4, 20)) sim_clock_jump((int64_t)sim_draw(4, 0, 4000000000ull) - 2000000000ll);
  sim_sample("program: %d frames engine %s threads=%d bad=%d fault kind %d at %zu", nfr, ENG[e], prm.num_threads, bad, kind, at); sim_set_nontrivial(nfr > 1 && !bad); sim_omp_reset_peak();
  do_prog(&p); int peak = sim_omp_peak_request();
  Pause pz; int fired = sim_fs_faults_fired(); static char buf[1 << 14]; size_t n = sim_fs_get("/simdisk/out", buf, sizeof buf - 1); bool none = n == (size_t)-1, keep = old && n == 3000; for (size_t i = 0; keep && i < 3000; i++) keep = buf[i] == 'z';
  if (sim_fs_open_dirs() || sim_fs_open_files()) sim_violation("leaked-file", "a file or directory is still open after the program");
  if (bad) { sim_probe(3, "bad command line"); if (p.threw) sim_violation("exception", "a bad command line ended in '%s'", p.exc); if (bad != 3 && p.rc == 0) sim_violation("bad-usage-accepted", "the program accepted %s", bad == 1 ? "an unknown engine" : "an unknown option"); if (old ? !keep : !none) sim_violation("bad-usage-accepted", "the output file was touched though the command line was refused"); return; }
  if (fired && (kind == FS_READDIR || (kind == FS_OPEN_ERR && at == 0))) { if (!p.threw && p.rc == 0) sim_violation("listing-failure-hidden", "the program succeeded on a directory it could not list"); sim_probe(1, "listing failure raised"); return; }
  if (p.threw) sim_violation("exception", "the program ended in '%s'", p.exc);
  bool outlost = fired && (kind == FS_ENOSPC || (kind == FS_OPEN_ERR && at == (size_t)nfr + 1));
  if (outlost) { sim_context("out-fault"); sim_probe(4, "trajectory not written in full"); if (p.rc == 0 && !g_err.n) sim_violation("silent-write-failure", "the trajectory could not be written in full and the program reported success"); return; }
  if (p.rc) sim_violation("program-failed", "the program returned %d", p.rc);
  if (e == 1 && peak > prm.num_threads) sim_violation("thread-limit", "the program asked for %d threads with --num_threads %d", peak, prm.num_threads);
  int lost = fired && kind == FS_OPEN_ERR && at >= 1 && at <= (size_t)nfr ? (int)at - 1 : -1; if (lost >= 0 && !g_err.n) sim_violation("silent-read-failure", "a point file that could not be opened was not reported");
  if (none || keep) n = 0; buf[n < sizeof buf ? n : sizeof buf - 1] = 0; std::vector<std::string> line; for (char* q = buf; *q;) { char* z = strchr(q, '\n'); if (!z) sim_violation("bad-trajectory", "the last line of the trajectory is torn though nothing failed"); line.emplace_back(q, z - q); q = z + 1; }
  if (line.size() != (size_t)nfr) sim_violation("pose-count", "%zu pose lines for %d frames", line.size(), nfr);
  std::vector<PointCloud::Ptr> in; for (int i = 0; i < nfr; i++) { auto c = std::make_shared<PointCloud>(); const File& f = *d.frames[i]; size_t m = i == lost ? 0 : f.f.size() / 4; c->resize(m); for (size_t k = 0; k < m; k++) c->points[k] = Eigen::Vector4d(f.f[4 * k], f.f[4 * k + 1], f.f[4 * k + 2], 1); in.push_back(c); }
  auto ref = create_odometry("small_gicp", prm)->estimate(in); double tol = e == 0 ? 1.01e-6 : 2e-3;
  for (int i = 0; i < nfr; i++) { double v[12]; int used = 0; const char* s = line[i].c_str(); int k = sscanf(s, "%lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf%n", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10, v + 11, &used); if (k != 12 || s[used]) sim_violation("bad-trajectory", "line %d is not twelve numbers: '%.60s'", i, s);
    if (i == lost) sim_probe(2, "one frame could not be opened"); if (e && lost >= 0 && i >= lost) continue;
    for (int q = 0; q < 12; q++) if (!(std::abs(v[q] - ref[i](q / 4, q % 4)) <= tol * (e ? 1 + i : 1))) sim_violation("bad-trajectory", "%s: pose %d is %.6f at entry %d, the frames of the dataset give %.6f", ENG[e], i, v[q], q, ref[i](q / 4, q % 4)); }
  if (!fired && g_err.n) sim_violation("false-error", "an error was reported though nothing failed"); sim_digest(line.size());
}
extern "C" void harness_run(const char*) { if (sim_flip(0, 55)) run_load(); else run_prog(); }
