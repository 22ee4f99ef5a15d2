// C03: parallel sorts
#include "common.hpp"
#include <limits>
#include <algorithm>
#include <functional>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
using namespace small_gicp;
extern "C" const char* const harness_props[] = {"C03", nullptr};
extern "C" void harness_init(const char*) {}
// the natural order of the elements (as of a pair) is not the order asked for in the descending and in the masked sorts
struct El { uint64_t key; uint64_t id; bool operator==(const El& o) const { return key == o.key && id == o.id; } bool operator<(const El& o) const { return key < o.key || (key == o.key && id < o.id); } bool operator>(const El& o) const { return o < *this; } bool operator<=(const El& o) const { return !(o < *this); } bool operator>=(const El& o) const { return !(*this < o); } bool operator!=(const El& o) const { return !(*this == o); } };
static const uint64_t SENT = 0x5E5E5E5E5E5E5E5Eull;
static size_t draw_len(int g) { switch (sim_draw(g, 0, 9)) { case 0: return sim_draw(g, 0, 4); case 1: return sim_draw(g, 1, 300); case 2: return 1020 + sim_draw(g, 0, 10); case 3: return 2044 + sim_draw(g, 0, 10); case 4: return 250 + sim_draw(g, 0, 12); case 5: return sim_draw(g, 1, 16) * 256; case 6: return sim_draw(g, 1024, 9000); default: return sim_draw(g, 300, 3000); } }
static uint64_t gen_key(int kind, uint64_t s, size_t i, size_t n) {
  uint64_t r = sim_rand64(s, i);
  switch (kind) { case 0: return r; case 1: return r % 7; case 2: return 42; case 3: return i; case 4: return n - i; case 5: return r % (n + 1); case 6: return (r & 1) ? ~0ull - (r >> 60) : r >> 60; case 7: return i % 16 == 0 ? r : i; case 8: return (i * 8 < n) ? 5 : r % 1000; default: return (r % 3) << 40 | (r >> 50); }
}
template <typename T> struct Buf { T* base; size_t n; T* first() { return base + 16; } T* last() { return base + 16 + n; } };
static void check(const char* what, El* base, size_t n, const El* orig, uint64_t mask, bool desc, bool stable) {
  Pause pz;
  for (int i = 0; i < 16; i++) if (base[i].key != SENT || base[i].id != SENT || base[16 + n + i].key != SENT || base[16 + n + i].id != SENT) sim_violation("touched-outside", "%s wrote outside the range (n=%zu)", what, n);
  El* a = base + 16; unsigned char* seen = (unsigned char*)calloc(n + 1, 1);
  for (size_t i = 0; i < n; i++) {
    if (a[i].id >= n || seen[a[i].id] || a[i].key != orig[a[i].id].key) sim_violation("not-a-permutation", "%s: element at %zu (id %llu) is duplicated or invented (n=%zu)", what, i, (unsigned long long)a[i].id, n);
    seen[a[i].id] = 1;
    if (i) { uint64_t x = a[i - 1].key & mask, y = a[i].key & mask; if (desc ? x < y : x > y) sim_violation("not-sorted", "%s: elements %zu and %zu out of order (n=%zu)", what, i - 1, i, n); if (stable && x == y && a[i - 1].id > a[i].id) sim_violation("not-stable", "%s: equal keys at %zu and %zu swapped (n=%zu)", what, i - 1, i, n); }
  }
  sim_digest_bytes(a, n * sizeof(El)); free(seen);
}
struct Less { bool operator()(const El& a, const El& b) const { return a.key < b.key; } };
struct Greater { bool operator()(const El& a, const El& b) const { return a.key > b.key; } };
template <typename K, int bits, int tile> static void radix(El* f, El* l, RadixSortBuffers<El>* b) { auto key = [](const El& e) { return (K)e.key; }; RadixSortBuffers<El> own; radix_sort_tbb<El, decltype(key), bits, tile>(f, l, key, b ? *b : own); }
template <typename K> static void radix_default(El* f, El* l, RadixSortBuffers<El>* b) { auto key = [](const El& e) { return (K)e.key; }; if (b) radix_sort_tbb(f, l, key, *b); else radix_sort_tbb(f, l, key); }
// keys chosen while the sort runs so that its pivots are bad (McIlroy's adversary); val[i] is the rank given to element i
static int* adv_val; static int adv_solid, adv_cand;
struct AdvLess { __attribute__((no_sanitize("thread"))) bool operator()(int x, int y) const { int* v = adv_val; if (v[x] < 0 && v[y] < 0) { if (x == adv_cand) v[x] = adv_solid++; else v[y] = adv_solid++; } if (v[x] < 0) { adv_cand = x; return false; } if (v[y] < 0) { adv_cand = y; return true; } return v[x] < v[y]; } };
static void adversary(size_t n, bool merge) {
  int* idx; { Pause pz; idx = (int*)malloc(4 * n + 4); adv_val = (int*)malloc(4 * n + 4); for (size_t i = 0; i < n; i++) { idx[i] = (int)i; adv_val[i] = -1; } adv_solid = 0; adv_cand = 0; }
  if (merge) merge_sort_omp(idx, idx + n, AdvLess(), 1); else quick_sort_omp(idx, idx + n, AdvLess(), 1);
  Pause pz; for (size_t i = 0; i < n; i++) if (adv_val[i] < 0) adv_val[i] = adv_solid++; free(idx);
}
struct Job { int op; };
extern "C" void harness_run(const char*) {
  int calls = (int)sim_draw(0, 1, 3); RadixSortBuffers<El> shared;
  std::shared_ptr<RadixSortBuffers<uint32_t>> plainbuf = std::make_shared<RadixSortBuffers<uint32_t>>();
  for (int call = 0; call < calls; call++) {
    if (!sim_op_enabled(call)) continue;
    int g = 10 + call; int algo = (int)sim_draw(g, 0, 9); int threads = draw_threads(g); bool huge = sim_draw(g, 0, 699) == 0; size_t n = huge ? huge_size(g) : draw_len(g); if (huge) sim_probe(5, "more than 65000 elements"); int kind = (int)sim_draw(g, 0, 9); uint64_t s = sim_draw(g, 1, 1000000);
    bool adv = algo >= 1 && algo < 6 && !huge && sim_draw(g, 0, 99) == 0; if (adv) { n = sim_draw(g, 1500, 5000); kind = 10; adversary(n, algo < 2); sim_probe(6, "keys chosen by an adversary"); }
    El *base, *orig; { Pause pz; base = (El*)malloc(sizeof(El) * (n + 32)); orig = (El*)malloc(sizeof(El) * (n + 1)); for (size_t i = 0; i < n + 32; i++) base[i].key = base[i].id = SENT; for (size_t i = 0; i < n; i++) { base[16 + i].key = orig[i].key = gen_key(kind, s, i, n); base[16 + i].id = orig[i].id = i; } }
    El *f = base + 16, *l = f + n; bool desc = false, stable = false; uint64_t mask = ~0ull; const char* name = "";
    if (adv) { Pause pz; bool de = sim_flip(g, 50); for (size_t i = 0; i < n; i++) { uint64_t k = de ? n - (uint64_t)adv_val[i] : (uint64_t)adv_val[i]; base[16 + i].key = orig[i].key = k; } free(adv_val); desc = de; }
    int variant = (int)sim_draw(g, 0, 4); bool reuse = sim_flip(g, 60);
    sim_set_nontrivial(n > 1);
    if (algo < 2) { name = "merge_sort_omp"; if (!adv) desc = variant == 4; }
    else if (algo < 6) { name = "quick_sort_omp"; if (!adv) desc = variant == 4; }
    else name = "radix_sort_tbb";
    sim_sample("%s n=%zu keys=%d threads=%d variant=%d%s; ", name, n, kind, threads, variant, algo >= 6 && reuse ? " reused-buffers" : "");
    if (n >= 1024) sim_probe(0, "parallel recursion"); 
    if (algo < 2) { if (desc) merge_sort_omp(f, l, Greater(), threads); else merge_sort_omp(f, l, Less(), threads); }
    else if (algo < 6) { if (desc) quick_sort_omp(f, l, Greater(), threads); else quick_sort_omp(f, l, Less(), threads); }
    else {
      stable = true; RadixSortBuffers<El>* b = reuse ? &shared : nullptr; if (reuse && call) sim_probe(1, "scratch buffers reused");
      switch (variant) { case 0: radix_default<uint64_t>(f, l, b); break; case 1: mask = 0xffffffffu; radix_default<uint32_t>(f, l, b); break; case 2: mask = 0xffff; radix<uint16_t, 4, 64>(f, l, b); break; case 3: mask = 0xff; radix<uint8_t, 8, 256>(f, l, b); break; default: mask = 0xffffffffu; radix<uint32_t, 11, 128>(f, l, b); break; }
    }
    if (sim_omp_active_teams()) sim_violation("work-left-behind", "a parallel region is still active after %s", name);
    check(name, base, n, orig, mask, desc, stable);
    { Pause pz; free(base); free(orig); }
  }
}
