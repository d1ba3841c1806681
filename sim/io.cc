// Storage seam.  Files opened by the code under test are served here: C stdio through a cookie stream, libstdc++
// streams through the interposed read/write/writev on their descriptor.  Faults come from the plan only.
#ifndef SIM_ASAN
#include "hooks.h"
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>
#include <cstdio>
using namespace std;
vector<IoRule> g_io; int g_bufsz = 0;
extern "C" char __executable_start, etext;

struct File { char base[64]; int fd; long rpos, wpos; int nread; };
static File g_tab[64];                       // descriptors owned by libstdc++ streams
static map<string, int>& opens() { static map<string, int> m; return m; }
static const char* basen(const char* p) { const char* b = strrchr(p, '/'); return b ? b + 1 : p; }
static const IoRule* rule(const char* base, const char* kind) { for (auto& r : g_io) if (r.path == base && r.kind == kind) return &r; return nullptr; }
static void hit(const char* k) { int s = g_in; g_in = 0; count(string("fault:io-") + k); g_in = s; }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static int open_fault(const char* path) {
  const char* b = basen(path); int s = g_in; g_in = 0; int k = ++opens()[b]; g_in = s;
  const IoRule* r = rule(b, "openerr");
  if (r && k == (int)r->at) { hit("open-error"); return (int)r->arg; }
  return 0;
}
static ssize_t do_read(File* f, char* buf, size_t n, bool eintr_ok) {
  static auto rd = real<ssize_t (*)(int, void*, size_t)>("read");
  f->nread++;
  const IoRule* r;
  if (eintr_ok && (r = rule(f->base, "eintr")) && f->nread % 2 == 1) { hit("eintr"); errno = EINTR; return -1; }
  if ((r = rule(f->base, "eio"))) { long left = (long)r->at - f->rpos; if (left <= 0) { hit("read-error"); errno = EIO; return -1; } if ((long)n > left) n = left; }
  if ((r = rule(f->base, "short")) && n > (size_t)r->at) { hit("short-read"); n = (size_t)max(1.0, r->at); }
  ssize_t k = rd(f->fd, buf, n); if (k > 0) f->rpos += k; return k;
}
static bool g_once;                          // a transient error strikes once in a process
static ssize_t do_write(File* f, const char* buf, size_t n) {
  static auto wr = real<ssize_t (*)(int, const void*, size_t)>("write");
  const IoRule* r; int err = 0; bool tear = false; size_t want = n;
  if ((r = rule(f->base, "enospc")) && f->wpos + (long)n > (long)r->at) { hit("disk-full"); want = max(0L, (long)r->at - f->wpos); err = ENOSPC; }
  else if ((r = rule(f->base, "weio")) && f->wpos + (long)n > (long)r->at) { hit("write-error"); want = max(0L, (long)r->at - f->wpos); err = EIO; }
  else if (!g_once && (r = rule(f->base, "weio1")) && f->wpos + (long)n > (long)r->at) { hit("write-error-once"); g_once = true; want = max(0L, (long)r->at - f->wpos); err = EIO; }
  else if ((r = rule(f->base, "torn")) && f->wpos + (long)n > (long)r->at) { hit("torn-write"); want = max(0L, (long)r->at - f->wpos); tear = true; }
  size_t done = 0;
  while (done < want) { size_t chunk = want - done; if ((r = rule(f->base, "wshort")) && chunk > (size_t)r->at) { hit("short-write"); chunk = (size_t)max(1.0, r->at); } ssize_t k = wr(f->fd, buf + done, chunk); if (k <= 0) return -1; done += k; }
  f->wpos += done;
  if (tear) power_cut();
  if (err) { errno = err; return done ? (ssize_t)done : -1; }
  return done;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read((File*)c, b, n, false); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t k = do_write((File*)c, b, n); return k < 0 ? 0 : k; }
static int ck_seek(void* c, off64_t* o, int w) { File* f = (File*)c; off_t p = lseek(f->fd, *o, w); if (p < 0) return -1; *o = p; f->rpos = p; f->wpos = p; return 0; }
static int ck_close(void* c) { File* f = (File*)c; int rc = close(f->fd); if (rule(f->base, "closeerr")) { hit("close-error"); errno = EIO; rc = -1; } int s = g_in; g_in = 0; delete f; g_in = s; return rc; }

static FILE* do_fopen(const char* path, const char* mode, void* caller) {
  static auto fo = real<FILE* (*)(const char*, const char*)>("fopen");
  if (!g_in) return fo(path, mode);
  int e = open_fault(path); if (e) { errno = e; return nullptr; }
  if ((char*)caller >= &__executable_start && (char*)caller < &etext) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC;
    if (strchr(mode, '+')) fl = (fl & ~(O_RDONLY | O_WRONLY)) | O_RDWR;
    int fd = open(path, fl, 0644); if (fd < 0) return nullptr;
    int s = g_in; g_in = 0; File* f = new File(); g_in = s;
    strncpy(f->base, basen(path), sizeof f->base - 1); f->fd = fd;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* fp = fopencookie(f, mode, io);
    if (fp && g_bufsz > 0) { int q = g_in; g_in = 0; char* buf = new char[g_bufsz]; g_in = q; setvbuf(fp, buf, _IOFBF, g_bufsz); } // another platform's stdio buffer
    return fp;
  }
  FILE* fp = fo(path, mode);
  if (fp) { int fd = fileno(fp); if (fd >= 0 && fd < 64) { File& f = g_tab[fd]; memset(&f, 0, sizeof f); strncpy(f.base, basen(path), sizeof f.base - 1); f.fd = fd; } }
  return fp;
}
extern "C" {
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m, __builtin_return_address(0)); }
ssize_t read(int fd, void* b, size_t n) {
  static auto rd = real<ssize_t (*)(int, void*, size_t)>("read");
  if (!g_in || fd < 0 || fd >= 64 || !g_tab[fd].base[0]) return rd(fd, b, n);
  return do_read(&g_tab[fd], (char*)b, n, true);
}
ssize_t write(int fd, const void* b, size_t n) {
  static auto wr = real<ssize_t (*)(int, const void*, size_t)>("write");
  if (!g_in || fd < 0 || fd >= 64 || !g_tab[fd].base[0]) return wr(fd, b, n);
  return do_write(&g_tab[fd], (const char*)b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto wv = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (!g_in || fd < 0 || fd >= 64 || !g_tab[fd].base[0]) return wv(fd, v, c);
  ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = do_write(&g_tab[fd], (const char*)v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if (k < (ssize_t)v[i].iov_len) break; }
  return t;
}
off64_t lseek64(int fd, off64_t o, int w) {
  static auto ls = real<off64_t (*)(int, off64_t, int)>("lseek64");
  off64_t p = ls(fd, o, w);
  if (g_in && fd >= 0 && fd < 64 && g_tab[fd].base[0] && p >= 0) { g_tab[fd].rpos = p; g_tab[fd].wpos = p; }
  return p;
}
}
#else
#include "hooks.h"
std::vector<IoRule> g_io; int g_bufsz = 0;
#endif
