// C13 point files: readers return a true prefix under any I/O fault, writers report what they could not write
#include "common.hpp"
#include <sstream>
#include <iostream>
#include <string>
#include <stdexcept>
#include <small_gicp/benchmark/read_points.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C13", nullptr};
#define NOSAN __attribute__((no_sanitize("thread")))
struct CountBuf : std::streambuf { long n = 0; NOSAN int overflow(int c) override { n++; return c == EOF ? 0 : c; } NOSAN std::streamsize xsputn(const char*, std::streamsize k) override { n += k; return k; } };
static CountBuf g_err;
extern "C" void harness_init(const char*) { std::cerr.rdbuf(&g_err); }
typedef std::vector<Eigen::Vector4f> Pts;
struct Job { int what; char path[32]; unsigned char* bytes; size_t nbytes; /* raw file image, or points to write */
  size_t stride, hdr, declared, full; bool wellformed, exact; Pts pts; Pts out; bool threw; char exc[80]; };
static const char* WHAT[] = {"read_points", "write_points", "read_ply"};
static void call(void* a) {
  Job* j = (Job*)a; j->threw = false;
  try {
    if (j->what == 0) j->out = read_points(j->path); else if (j->what == 1) write_points(j->path, j->pts); else j->out = read_ply(j->path);
  } catch (const std::exception& e) { j->threw = true; Pause pz; snprintf(j->exc, 80, "%s", e.what()); }
}
static float rndf(uint64_t s, uint64_t i) { uint64_t r = sim_rand64(s, i); uint32_t b = (uint32_t)(r >> 32); if ((r & 31) == 0) { static const uint32_t sp[] = {0x7fc00001u, 0xffc12345u, 0x7f800000u, 0xff800000u, 0x00000001u, 0x80000000u, 0x7f7fffffu, 0x0a0d0a0du}; b = sp[(r >> 8) & 7]; } else if (!b) b = 1; float f; memcpy(&f, &b, 4); return f; }
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
// signalling NaN payloads may be quieted when a float travels through arithmetic registers; the generator never draws them
static bool same(float a, const unsigned char* p) { uint32_t b; memcpy(&b, p, 4); return bits(a) == b; }
static bool torn0(float a, const unsigned char* p) { uint32_t b = bits(a), m; memcpy(&m, p, 4); for (int k = 0; k < 4; k++) if (b == (k ? m & ((1u << 8 * k) - 1) : 0)) return true; return false; } // a float of which only some leading bytes were read
static void fix_snan(unsigned char* d, size_t nfloat) { for (size_t i = 0; i < nfloat; i++) { uint32_t b; memcpy(&b, d + 4 * i, 4); if ((b & 0x7f800000u) == 0x7f800000u && (b & 0x7fffffu)) b |= 0x400000u; memcpy(d + 4 * i, &b, 4); } }
static size_t draw_n(int g) { switch (sim_draw(g, 0, 5)) { case 0: return sim_draw(g, 0, 4); case 1: return 510 + sim_draw(g, 0, 4); case 2: return 1022 + sim_draw(g, 0, 4); case 3: return sim_draw(g, 1000, 3000); default: return sim_draw(g, 0, 300); } }
static void gen(Job& j, int g, bool plain) {
  Pause pz; size_t n = draw_n(g); uint64_t s = sim_draw(g, 1, 1000000); j.wellformed = true; j.exact = true; j.hdr = 0; j.stride = 4; j.declared = 0;
  if (j.what == 0) {
    size_t tail = sim_flip(g, 35) ? sim_draw(g, 1, 15) : 0; j.nbytes = 16 * n + tail; j.bytes = (unsigned char*)malloc(j.nbytes + 32);
    for (size_t i = 0; i < (j.nbytes + 3) / 4; i++) { float f = rndf(s, i); memcpy(j.bytes + 4 * i, &f, 4); } fix_snan(j.bytes, j.nbytes / 4); j.full = n; j.exact = !tail; if (tail) { sim_fault_fired(40, "torn file"); }
    sim_fs_put(j.path, j.bytes, j.nbytes);
  } else if (j.what == 1) {
    j.pts.resize(n); j.nbytes = 16 * n; j.bytes = (unsigned char*)malloc(j.nbytes + 32); for (size_t i = 0; i < 4 * n; i++) { float f = (i & 3) == 3 ? 1.0f : rndf(s, i); memcpy(j.bytes + 4 * i, &f, 4); } fix_snan(j.bytes, 4 * n); if (n) memcpy((void*)j.pts.data(), j.bytes, j.nbytes); j.full = n;
    if (sim_flip(g, 30)) { unsigned char old[400]; memset(old, 0x5a, 400); sim_fs_put(j.path, old, sim_draw(g, 1, 400)); sim_probe(1, "existing file overwritten"); }
  } else {
    int bad = sim_flip(g, 50) ? (int)sim_draw(g, 1, 14) : 0; size_t np = sim_flip(g, 40) ? 4 : sim_draw(g, 3, 8); if (plain) { bad = 0; np = 4; } std::string h = "ply\nformat binary_little_endian 1.0\n"; const char* up = sim_flip(g, 10) ? "XYZ" : "xyz";
    if (sim_flip(g, 30)) h += "comment element of doubt: property end_header\n"; if (sim_flip(g, 15)) h += "obj_info generated\n";
    char buf[96]; j.declared = n; j.full = n; size_t have = n;
    switch (bad) {
      case 1: have = n ? sim_draw(g, 0, n - 1) : 0; break;                       // fewer records than declared
      case 2: j.declared = n + sim_draw(g, 1, 3); break;
      case 3: j.declared = (size_t)1 << sim_draw(g, 28, 62); sim_fault_fired(41, "huge vertex count"); break;
      default: break;
    }
    snprintf(buf, 96, "element vertex %zu\n", j.declared);
    if (bad == 4) snprintf(buf, 96, "element vertex -%zu\n", n + 1); if (bad == 5) snprintf(buf, 96, "element vertex %s\n", sim_flip(g, 50) ? "lots" : ""); if (bad == 6) snprintf(buf, 96, "element vertex 99999999999999999999999\n"); if (bad == 7) snprintf(buf, 96, "element face %zu\n", n); if (bad == 8) buf[0] = 0;
    if (bad >= 4 && bad <= 8) { j.wellformed = false; j.full = 0; }
    h += buf;
    if (bad == 9) { np = sim_draw(g, 0, 2); j.wellformed = false; j.full = 0; }
    static const char* names[] = {"", "", "", "intensity", "nx", "ny", "nz", "t"};
    int wrong = bad == 10 ? (int)sim_draw(g, 0, np - 1) : -1; if (wrong >= 0) { j.wellformed = false; j.full = 0; }
    for (size_t i = 0; i < np; i++) { if (i < 3) snprintf(buf, 96, "property %s %c\n", (int)i == wrong ? "uchar" : "float", up[i]); else snprintf(buf, 96, "property %s %s\n", (int)i == wrong ? "double" : "float", names[i]); h += buf; }
    if (bad == 11) { h += "element face 0\n"; j.wellformed = false; j.full = 0; }
    if (bad == 12) { j.wellformed = false; j.full = 0; h += "\n"; /* blank line instead of the end of the header */ } else h += bad == 13 ? "end_header\r\n" : "end_header\n";
    if (bad == 13) { j.wellformed = false; j.full = 0; }
    j.stride = np; j.hdr = h.size(); size_t extra = sim_flip(g, 20) ? sim_draw(g, 1, 40) : 0; size_t recb = 4 * np * have; if (bad == 1 && np && sim_flip(g, 60)) extra = sim_draw(g, 0, 4 * np - 1); if (bad == 2 || bad == 3) extra = extra < 4 * np ? extra : 0;
    j.nbytes = j.hdr + recb + extra; if (bad == 12 || bad == 8 || bad == 9) {} j.bytes = (unsigned char*)malloc(j.nbytes + 64); memcpy(j.bytes, h.data(), j.hdr);
    unsigned char* d = (unsigned char*)malloc(recb + extra + 64); for (size_t i = 0; i < (recb + extra + 3) / 4; i++) { float f = rndf(s, i); memcpy(d + 4 * i, &f, 4); } fix_snan(d, (recb + extra) / 4); memcpy(j.bytes + j.hdr, d, recb + extra); free(d);
    if (j.wellformed && have < n) { size_t h2 = (recb + extra) / (4 * np); j.full = h2 < n ? h2 : n; }
    if (bad == 1 || bad == 2 || bad == 3) { j.exact = false; }
    if (bad == 14) { size_t cut = sim_draw(g, 0, j.nbytes); if (cut < j.hdr) { j.wellformed = false; j.full = 0; } else { size_t r = (cut - j.hdr) / (4 * np); if (r < j.full) j.full = r; } j.nbytes = cut; j.exact = false; sim_fault_fired(40, "torn file"); }
    if (bad) sim_fault_fired(42, "malformed or inconsistent header");
    sim_fs_put(j.path, j.bytes, j.nbytes);
  }
}
static void check_prefix(const Job& j, const Pts& out, const unsigned char* data, size_t stride, size_t full, bool clean, const char* what) {
  if (out.size() > full) sim_violation("invented-points", "%s returned %zu points, the file holds %zu", what, out.size(), full);
  for (size_t i = 0; i < out.size(); i++) { const unsigned char* r = data + 4 * stride * i; for (int d = 0; d < 3; d++) if (stride > 4 && !same(out[i][d], r + 4 * d) && (!torn0(out[i][d], r + 4 * d) || (strncmp(what, "read_ply", 8) == 0 && clean && 4 * (i * stride + d + 1) <= 16 * out.size()))) sim_violation("wrong-points", "%s: coordinate %d of point %zu is neither the one in the file nor left unread", what, d, i); else if (!same(out[i][d], r + 4 * d)) sim_violation("invented-points", "%s: coordinate %d of point %zu is not the one in the file", what, d, i); if (bits(out[i][3]) != 0x3f800000u) sim_violation("invented-points", "%s: point %zu is not homogeneous", what, i); }
}
extern "C" void harness_run(const char*) {
  sim_fs_reset(); g_err.n = 0; int nj = sim_flip(0, 30) ? (int)sim_draw(0, 2, 3) : 1; Job* job = nullptr; { Pause pz; job = new Job[3](); }
  size_t tot = 0; for (int i = 0; i < nj; i++) { Job& j = job[i]; j.what = (int)sim_draw(0, 0, 4); j.what = j.what >= 3 ? 2 : j.what; snprintf(j.path, 32, "/simdisk/f%d", i); gen(j, 1 + i, nj > 1); tot += j.nbytes; }
  // read_points, write_points and read_ply have defects that known_findings.txt lists; they show only in these situations, which name the kind
  // of any violation met in them.  Runs with several callers stay outside them.
  const char* ctx = "";
  if (nj > 1 && job[0].what != 1 && sim_flip(0, 40)) { Pause pz; Job& k = job[1]; k = job[0]; sim_probe(2, "callers share a file"); tot = 0; for (int i = 0; i < nj; i++) tot += job[i].nbytes; }
  // fault schedule: none, or one to two kinds placed inside the transfer
  int nf = sim_flip(4, 70) ? (int)sim_draw(4, 1, 2) : 0; if (nj > 1) nf = 0; bool benign = true; const Job& a = job[0]; char fl[64] = "";
  for (int i = 0; i < nf; i++) {
    bool wr = a.what == 1; size_t at = a.nbytes ? sim_draw(4, 0, sim_flip(4, 50) ? a.nbytes : (a.nbytes < 9000 ? a.nbytes : 9000)) : 0; if (sim_flip(4, 25)) at = at / 16 * 16;
    int k; if (wr) { static const int ks[] = {FS_ENOSPC, FS_SHORT_WRITE, FS_EINTR, FS_OPEN_ERR, FS_WRITE_ERR, FS_CRASH}; k = ks[sim_draw(4, 0, 5)]; } else { static const int ks[] = {FS_READ_ERR, FS_SHORT_READ, FS_EINTR, FS_OPEN_ERR, FS_READ_EOF, FS_SEEK_ERR}; k = ks[sim_draw(4, 0, 5)]; }
    uint64_t arg = 0; if (k == FS_SHORT_READ || k == FS_SHORT_WRITE) { at = 0; arg = sim_draw(4, 1, sim_flip(4, 50) ? 16 : 2000); } else if (k == FS_EINTR) { at = sim_draw(4, 0, 4); arg = sim_draw(4, 0, 3); } else if (k == FS_OPEN_ERR) { at = 0; arg = 0; } else if (k == FS_SEEK_ERR) { at = sim_draw(4, 0, 3); arg = sim_flip(4, 30) ? 10 : 0; } else if (k == FS_READ_ERR || k == FS_WRITE_ERR) arg = sim_draw(4, 0, 1);
    sim_fs_fault(k, at, arg); snprintf(fl + strlen(fl), 64 - strlen(fl), " k%d@%zu", k, at);
  }
  if (nj == 1) { if (a.what == 0) ctx = nf ? "rp-fault" : ""; else if (a.what == 1) ctx = nf ? "wp-fault" : ""; else ctx = !a.wellformed ? "ply-header" : !a.exact || nf ? "ply-short" : a.stride != 4 ? "ply-stride" : ""; }
  sim_context(ctx);
  sim_sample("callers=%d %s file=%zu bytes header=%zu faults:%s", nj, WHAT[a.what], a.nbytes, a.hdr, fl); sim_set_nontrivial(tot > 0);
  sim_heap_audit_on(); sim_alloc_size_limit(16 * tot + (1 << 20));
  if (nj == 1) call(&job[0]); else { int t[3]; for (int i = 0; i < nj; i++) t[i] = sim_spawn(call, &job[i]); for (int i = 0; i < nj; i++) sim_join(t[i]); }
  sim_alloc_size_limit(~0ull); sim_heap_audit();
  { Pause pz; int fired = sim_fs_faults_fired(); bool incomplete = false, crashed = strstr(fl, " k8@") != nullptr;
    for (int i = 0; i < nj; i++) {
      Job& j = job[i]; const char* w = WHAT[j.what];
      if (j.threw) sim_violation("exception", "%s threw '%s' out of the call", w, j.exc);
      if (j.what != 1) {
        check_prefix(j, j.out, j.bytes + j.hdr, j.stride, j.full, !fired && j.wellformed && j.exact, w); sim_digest(j.out.size());
        if (!fired && j.wellformed && j.exact && j.out.size() != j.full) sim_violation("lost-points", "%s returned %zu of %zu points though nothing failed", w, j.out.size(), j.full);
        if (fired && j.out.size() && j.out.size() < j.full) sim_probe(3, "partial result returned"); if (fired && j.out.empty() && j.full) sim_probe(4, "empty result after a fault"); if (fired && j.full && j.out.size() == j.full) sim_probe(5, "fault survived, all points");
      } else {
        unsigned char* d = (unsigned char*)malloc(j.nbytes + 4096); size_t n = sim_fs_get(j.path, d, j.nbytes + 4096); bool opened = n != (size_t)-1; 
        bool isold = false; if (opened && n && d[0] == 0x5a) { isold = true; for (size_t q = 0; q < n && q < 400; q++) if (d[q] != 0x5a) isold = false; if (n > 400) isold = false; }
        if (!opened || isold) { n = 0; }
        if (n > j.nbytes || memcmp(d, j.bytes, n)) sim_violation("wrong-file", "the file holds %zu bytes that are not a prefix of the %zu written", n, j.nbytes);
        if (n < j.nbytes || isold || !opened) incomplete = true;
        if (!fired && n != j.nbytes) sim_violation("lost-points", "only %zu of %zu bytes were written though nothing failed", n, j.nbytes);
        sim_digest(n);
        if (crashed && fired) { size_t m = sim_fs_durable(j.path, d, j.nbytes + 4096); if (m != (size_t)-1) { sim_fs_clear_faults(); sim_fs_put("/simdisk/after", d, m); Pts back; sim_resume(); back = read_points("/simdisk/after"); sim_pause(); bool old = m && m <= 400 && d[0] == 0x5a && d[m - 1] == 0x5a; if (!old) check_prefix(j, back, j.bytes, 4, j.full, true, "read_points after the crash"); if (m / 16 != back.size()) sim_violation("lost-points", "read_points returned %zu of %zu durable points after the crash", back.size(), m / 16); sim_probe(6, "file read after a crash"); } }
        else if (n == j.nbytes && !isold) { sim_fs_clear_faults(); sim_fs_put("/simdisk/back", d, n); sim_resume(); Pts back = read_points("/simdisk/back"); sim_pause(); check_prefix(j, back, j.bytes, 4, j.full, true, "round trip"); if (back.size() != j.full) sim_violation("lost-points", "round trip returned %zu of %zu points", back.size(), j.full); }
        free(d);
      }
    }
    bool anyw = false; for (int i = 0; i < nj; i++) anyw |= job[i].what == 1;
    if (incomplete && !g_err.n) sim_violation("silent-write-failure", "a write that did not complete was not reported on the error stream");
    if (anyw && nj == 1 && !fired && g_err.n) sim_violation("false-error", "a complete write was reported as an error");
    if (incomplete) sim_probe(7, "incomplete write");
    for (int i = 0; i < 3; i++) { free(job[i].bytes == job[0].bytes && i ? nullptr : job[i].bytes); } delete[] job;
  }
}
