// Virtual disk behind fopen / open / read / write / lseek for paths under /simdisk/.  Everything else goes to the real calls.
#include "rt.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
static const char PREFIX[] = "/simdisk/";
struct VFile { char name[64]; unsigned char* d; size_t n, cap, durable; unsigned char* snap; bool live, snapped; };
struct VOpen { bool live; VFile* f; size_t pos; bool wr, app; };
enum { NF = 32, NO = 1024, NFLT = 8 };
static VFile vf[NF]; static VOpen vo[NO];
struct VDir { bool live; int fd, n, pos; char name[NF + 2][64]; struct dirent ent; };
enum { ND = 8 };
static VDir vd[ND]; static char mkd[4][64]; static int nmkd; static uint64_t nlist, list_seed;
struct Flt { int kind; uint64_t at, arg, seen; bool done; }; static Flt flt[NFLT]; static int nflt, nfired; static bool crashed; static uint64_t disk_cap = ~0ull, disk_used;
static const char* fname[] = {"", "read error", "short read", "interrupted call", "disk full", "short write", "open failure", "write error", "crash while writing", "file truncated under the reader", "seek failure", "directory read error"};
static const int FIDX = 20;
static void fired(int k) { nfired++; sim_fault_fired(FIDX + k, fname[k]); rt_hash(0xF5000000ull + k); }
static VFile* find(const char* p, bool create) { for (VFile& f : vf) if (f.live && !strcmp(f.name, p)) return &f; if (!create) return nullptr; for (VFile& f : vf) if (!f.live) { memset(&f, 0, sizeof f); f.live = true; strncpy(f.name, p, 63); return &f; } return nullptr; }
static void grow(VFile* f, size_t n) { if (n <= f->cap) return; size_t c = f->cap ? f->cap : 256; while (c < n) c *= 2; unsigned char* d = (unsigned char*)rt_alloc(c); if (f->n) memcpy(d, f->d, f->n); memset(d + f->n, 0, c - f->n); f->d = d; f->cap = c; }
extern "C" {
void sim_fs_put(const char* path, const void* data, size_t n) { RtGuard g; VFile* f = find(path, true); f->n = 0; grow(f, n); if (n) memcpy(f->d, data, n); f->n = n; }
size_t sim_fs_get(const char* path, void* out, size_t cap) { VFile* f = find(path, false); if (!f) return (size_t)-1; size_t n = f->n < cap ? f->n : cap; if (out && n) memcpy(out, f->d, n); return f->n; }
size_t sim_fs_durable(const char* path, void* out, size_t cap) { VFile* f = find(path, false); if (!f) return (size_t)-1; if (crashed && !f->snapped) return (size_t)-1; size_t m = crashed ? f->durable : f->n, n = m < cap ? m : cap; if (out && n) memcpy(out, crashed ? f->snap : f->d, n); return m; }
void sim_fs_fault(int kind, uint64_t at, uint64_t arg) { if (kind == FS_ENOSPC) disk_cap = at; else if (nflt < NFLT) { Flt f = {kind, at, arg, 0, false}; flt[nflt++] = f; } }
void sim_fs_reset(void) { memset(vf, 0, sizeof vf); memset(vo, 0, sizeof vo); nflt = nfired = 0; crashed = false; disk_cap = ~0ull; disk_used = 0; nmkd = 0; nlist = 0; list_seed = 0; memset(vd, 0, sizeof vd); }
void sim_fs_mkdir(const char* path, uint64_t seed) { if (nmkd < 4) strncpy(mkd[nmkd++], path, 63); list_seed = seed; }
void sim_fs_clear_faults(void) { nflt = 0; crashed = false; disk_cap = ~0ull; }
int sim_fs_faults_fired(void) { return nfired; }
}
static Flt* armed(int kind) { for (int i = 0; i < nflt; i++) if (flt[i].kind == kind && !flt[i].done) return &flt[i]; return nullptr; }
static bool countdown(int kind) { Flt* f = armed(kind); if (!f) return false; if (f->seen++ < f->at) return false; if (f->seen > f->at + f->arg) { f->done = true; } return true; }
static VOpen* vopen(int fd) { return g_active && fd >= 0 && fd < NO && vo[fd].live ? &vo[fd] : nullptr; }
static ssize_t v_read(VOpen* o, void* buf, size_t n) {
  rt_yield(); RtGuard g;
  if (countdown(FS_EINTR)) { fired(FS_EINTR); errno = EINTR; return -1; }
  Flt* e = armed(FS_READ_ERR); size_t end = o->f->n;
  if (Flt* t = armed(FS_READ_EOF)) if (t->at < end) { end = t->at; if (o->pos + n > end) fired(FS_READ_EOF); }
  size_t left = o->pos < end ? end - o->pos : 0, m = n < left ? n : left;
  if (e && o->pos + m > e->at) { if (o->pos >= e->at || e->arg) { fired(FS_READ_ERR); errno = EIO; return -1; } m = e->at - o->pos; }
  if (Flt* s = armed(FS_SHORT_READ)) if (m > s->arg && s->arg) { m = s->arg; fired(FS_SHORT_READ); }
  if (m) { uintptr_t a = (uintptr_t)buf; (void)a; int ok = sim_heap_check(buf, m); if (!ok && sim_heap_check(buf, 1)) { sim_violation("heap-overflow", "a read of %zu bytes was stored past the end of a heap block", m); } memcpy(buf, o->f->d + o->pos, m); o->pos += m; }
  rt_hash(m); return (ssize_t)m;
}
static ssize_t v_write(VOpen* o, const void* buf, size_t n) {
  rt_yield(); RtGuard g;
  if (!o->wr) { errno = EBADF; return -1; }
  if (countdown(FS_EINTR)) { fired(FS_EINTR); errno = EINTR; return -1; }
  Flt* e = armed(FS_WRITE_ERR); size_t m = n;
  if (o->app) o->pos = o->f->n;
  if (e && o->pos + m > e->at) { if (o->pos >= e->at || e->arg) { fired(FS_WRITE_ERR); errno = EIO; return -1; } m = e->at - o->pos; }
  if (Flt* s = armed(FS_SHORT_WRITE)) if (m > s->arg && s->arg) { m = s->arg; fired(FS_SHORT_WRITE); }
  size_t ng = o->pos + m > o->f->n ? o->pos + m - o->f->n : 0;
  if (disk_used + ng > disk_cap) { fired(FS_ENOSPC); size_t room = disk_cap - disk_used; if (ng - room >= m || !room) { errno = ENOSPC; return -1; } m -= ng - room; ng = room; }
  if (m) { grow(o->f, o->pos + m); memcpy(o->f->d + o->pos, buf, m); o->pos += m; if (o->pos > o->f->n) o->f->n = o->pos; disk_used += ng; }
  if (Flt* c = armed(FS_CRASH)) { if (!crashed && o->f->n >= c->at) { crashed = true; fired(FS_CRASH); for (VFile& f : vf) if (f.live) { f.durable = &f == o->f && c->at < f.n ? c->at : f.n; f.snapped = true; f.snap = (unsigned char*)rt_alloc(f.durable + 1); memcpy(f.snap, f.d, f.durable); } } }
  rt_hash(m); return (ssize_t)m;
}
static long v_seek(VOpen* o, long off, int wh) {
  rt_yield(); RtGuard g;
  if (countdown(FS_SEEK_ERR)) { fired(FS_SEEK_ERR); errno = ESPIPE; return -1; }
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->pos : (long)o->f->n; if (b + off < 0) { errno = EINVAL; return -1; }
  o->pos = b + off; return (long)o->pos;
}
static bool mine(const char* p) { return g_active && g_cur && !strncmp(p, PREFIX, sizeof PREFIX - 1); }
static int v_open(int fd, const char* p, bool wr, bool trunc, bool app) { VFile* f = find(p, wr); if (!f) return ENOENT; if (wr && trunc) { disk_used -= f->n < disk_used ? f->n : disk_used; f->n = 0; } VOpen o = {true, f, 0, wr, app}; vo[fd] = o; return 0; }
// directories: a listing is the names directly below the path, in an order the seed decides, with "." and ".." somewhere among them
static VDir* vdir(DIR* d) { for (VDir& v : vd) if ((DIR*)&v == d) return &v; return nullptr; }
static bool isdir(const char* p, size_t n) { while (n && p[n - 1] == '/') n--; for (int i = 0; i < nmkd; i++) if (strlen(mkd[i]) == n && !memcmp(mkd[i], p, n)) return true; return false; }
static VDir* dir_open(const char* p) {
  size_t n = strlen(p); while (n && p[n - 1] == '/') n--;
  VDir* v = nullptr; for (VDir& q : vd) if (!q.live) { v = &q; break; } if (!v) return nullptr;
  memset(v, 0, sizeof *v); v->live = true; v->fd = -1; strcpy(v->name[v->n++], "."); strcpy(v->name[v->n++], "..");
  for (VFile& f : vf) if (f.live && !strncmp(f.name, p, n) && f.name[n] == '/' && !strchr(f.name + n + 1, '/')) strncpy(v->name[v->n++], f.name + n + 1, 63);
  nlist++; for (int i = v->n - 1; i > 0; i--) { int j = (int)(sim_rand64(list_seed, nlist * 64 + i) % (uint64_t)(i + 1)); char t[64]; memcpy(t, v->name[i], 64); memcpy(v->name[i], v->name[j], 64); memcpy(v->name[j], t, 64); }
  return v;
}
static bool open_fault() { if (countdown(FS_OPEN_ERR)) { fired(FS_OPEN_ERR); errno = EMFILE; return true; } return false; }
#define NEXT(n) ((decltype(&n))dlsym(RTLD_NEXT, #n))
extern "C" {
static FILE* fopen_impl(const char* p, const char* mode) {
  static decltype(&fopen) r; if (!r) r = NEXT(fopen);
  if (!mine(p)) return r(p, mode);
  rt_yield(); RtGuard g; if (open_fault()) return nullptr;
  bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'); if (!wr && !find(p, false)) { errno = ENOENT; return nullptr; }
  FILE* f = r("/dev/null", mode); if (!f) return nullptr; v_open(fileno(f), p, wr, strchr(mode, 'w') != nullptr, strchr(mode, 'a') != nullptr); return f;
}
FILE* fopen(const char* p, const char* m) { return fopen_impl(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopen_impl(p, m); }
int fclose(FILE* f) { static decltype(&fclose) r; if (!r) r = NEXT(fclose); if (g_active && g_cur) { int fd = fileno(f); if (VOpen* o = vopen(fd)) { rt_yield(); o->live = false; RtGuard g; return r(f); } } return r(f); }
int open(const char* p, int fl, ...) {
  static int (*r)(const char*, int, ...); if (!r) r = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!mine(p)) return r(p, fl, mode);
  rt_yield(); RtGuard g; if (open_fault()) return -1; bool wr = (fl & O_ACCMODE) != O_RDONLY; if (!find(p, false) && !(fl & O_CREAT)) { errno = ENOENT; return -1; }
  int fd = r("/dev/null", fl & O_ACCMODE, 0); if (fd < 0) return fd; v_open(fd, p, wr || (fl & O_CREAT), fl & O_TRUNC, fl & O_APPEND); vo[fd].wr = wr; return fd;
}
int close(int fd) { static decltype(&close) r; if (!r) r = NEXT(close); if (VOpen* o = vopen(fd)) { rt_yield(); o->live = false; } return r(fd); }
ssize_t read(int fd, void* b, size_t n) { static decltype(&read) r; if (!r) r = NEXT(read); VOpen* o = vopen(fd); return o ? v_read(o, b, n) : r(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { static decltype(&write) r; if (!r) r = NEXT(write); VOpen* o = vopen(fd); return o ? v_write(o, b, n) : r(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { static decltype(&writev) r; if (!r) r = NEXT(writev); VOpen* o = vopen(fd); if (!o) return r(fd, v, c); ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t k = v_write(o, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
off_t lseek(int fd, off_t off, int w) { static decltype(&lseek) r; if (!r) r = NEXT(lseek); VOpen* o = vopen(fd); return o ? v_seek(o, off, w) : r(fd, off, w); }
int stat(const char* p, struct stat* st) { static int (*r)(const char*, struct stat*); if (!r) r = (int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat"); if (!mine(p)) return r(p, st); if (isdir(p, strlen(p))) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; } VFile* f = find(p, false); if (!f) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)f->n; st->st_nlink = 1; st->st_blksize = 4096; return 0; }
int fstat(int fd, struct stat* st) { static int (*r)(int, struct stat*); if (!r) r = (int (*)(int, struct stat*))dlsym(RTLD_NEXT, "fstat"); VOpen* o = vopen(fd); if (!o) return r(fd, st); memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)o->f->n; st->st_nlink = 1; st->st_blksize = 4096; return 0; }
off_t lseek64(int fd, off_t off, int w) { return lseek(fd, off, w); }
int ioctl(int fd, unsigned long q, ...) { static int (*r)(int, unsigned long, ...); if (!r) r = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl"); va_list ap; va_start(ap, q); void* a = va_arg(ap, void*); va_end(ap); if (VOpen* o = vopen(fd)) { if (q == FIONREAD) { *(int*)a = (int)(o->pos < o->f->n ? o->f->n - o->pos : 0); return 0; } errno = ENOTTY; return -1; } return r(fd, q, a); }
static int openat_impl(int dfd, const char* p, int fl, int mode, int two) {
  static int (*r)(int, const char*, int, ...); if (!r) r = (int (*)(int, const char*, int, ...))dlsym(RTLD_NEXT, "openat");
  if (!mine(p)) return r(dfd, p, fl, mode);
  if (!(fl & O_DIRECTORY) && !isdir(p, strlen(p))) return open(p, fl, mode);
  rt_yield(); RtGuard g; if (open_fault()) return -1; if (!isdir(p, strlen(p))) { errno = find(p, false) ? ENOTDIR : ENOENT; return -1; }
  VDir* v = dir_open(p); if (!v) { errno = EMFILE; return -1; } v->fd = r(AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC); return v->fd;
}
int openat(int dfd, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return openat_impl(dfd, p, fl, mode, 0); }
int openat64(int dfd, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return openat_impl(dfd, p, fl, mode, 0); }
int __openat_2(int dfd, const char* p, int fl) { return openat_impl(dfd, p, fl, 0, 1); }
DIR* fdopendir(int fd) { static decltype(&fdopendir) r; if (!r) r = NEXT(fdopendir); if (g_active) for (VDir& v : vd) if (v.live && v.fd == fd) return (DIR*)&v; return r(fd); }
DIR* opendir(const char* p) { static decltype(&opendir) r; if (!r) r = NEXT(opendir); if (!mine(p)) return r(p); int fd = openat_impl(AT_FDCWD, p, O_DIRECTORY, 0, 1); return fd < 0 ? nullptr : fdopendir(fd); }
static struct dirent* v_readdir(VDir* v) {
  rt_yield(); RtGuard g;
  if (countdown(FS_READDIR)) { fired(FS_READDIR); errno = EIO; return nullptr; }
  if (v->pos >= v->n) return nullptr;
  memset(&v->ent, 0, sizeof v->ent); const char* nm = v->name[v->pos++]; strcpy(v->ent.d_name, nm); v->ent.d_ino = v->pos; v->ent.d_reclen = sizeof v->ent; v->ent.d_type = list_seed & 1 ? DT_UNKNOWN : nm[0] == '.' && (!nm[1] || (nm[1] == '.' && !nm[2])) ? DT_DIR : DT_REG; rt_hash(v->pos); return &v->ent;
}
struct dirent* readdir(DIR* d) { static decltype(&readdir) r; if (!r) r = NEXT(readdir); VDir* v = vdir(d); return v ? v_readdir(v) : r(d); }
struct dirent64* readdir64(DIR* d) { static decltype(&readdir64) r; if (!r) r = NEXT(readdir64); VDir* v = vdir(d); return v ? (struct dirent64*)v_readdir(v) : r(d); }
int dirfd(DIR* d) { static decltype(&dirfd) r; if (!r) r = NEXT(dirfd); VDir* v = vdir(d); return v ? v->fd : r(d); }
int closedir(DIR* d) { static decltype(&closedir) r; if (!r) r = NEXT(closedir); VDir* v = vdir(d); if (!v) return r(d); rt_yield(); v->live = false; return close(v->fd); }
int sim_fs_open_dirs(void) { int n = 0; for (VDir& v : vd) n += v.live; return n; }
int sim_fs_open_files(void) { int n = 0; for (VOpen& o : vo) n += o.live; return n; }
}
