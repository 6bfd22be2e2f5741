// Interposed libc I/O and clocks. Only files below g_scratch are simulated
// disk, and only in rank images; everything else goes to libc untouched.
#include "rank.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

using namespace sim;
static bool g_fd[4096];
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto r_##name = real<decltype(&::name)>(#name)

static bool mine(const char *p) { return g_rank >= 0 && g_io_on && g_scratch[0] && p && strncmp(p, g_scratch, strlen(g_scratch)) == 0; }
static bool tracked(int fd) { return g_rank >= 0 && g_io_on && fd >= 0 && fd < 4096 && g_fd[fd]; }
// asks the simulator what happens to this disk operation
static Rep io(int kind, size_t n)
{
  Req q{}; q.op = OP_IO; q.a = kind; q.b = (int)n;
  return rpc(q);
}
static bool failed(const Rep &r) { if (r.a == 1) { errno = r.b; return true; } return false; }

extern "C" {
static int do_open(const char *name, int flags, mode_t mode, bool at, int dirfd)
{
  bool m = mine(name);
  if (m) { Rep r = io((flags & (O_WRONLY | O_RDWR | O_CREAT)) ? IO_OPEN : IO_READ, 0); if (failed(r)) return -1; }
  static auto r_openat = real<int (*)(int, const char *, int, ...)>("openat64");
  int fd = r_openat(at ? dirfd : AT_FDCWD, name, flags | O_LARGEFILE, mode);
  if (m && fd >= 0 && fd < 4096) g_fd[fd] = (flags & (O_WRONLY | O_RDWR)) != 0;
  return fd;
}
int open(const char *n, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } return do_open(n, f, m, false, 0); }
int open64(const char *n, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } return do_open(n, f, m, false, 0); }
int creat(const char *n, mode_t m) { return do_open(n, O_CREAT | O_WRONLY | O_TRUNC, m, false, 0); }
int creat64(const char *n, mode_t m) { return do_open(n, O_CREAT | O_WRONLY | O_TRUNC, m, false, 0); }
int __open_2(const char *n, int f) { return do_open(n, f, 0, false, 0); }
int __open64_2(const char *n, int f) { return do_open(n, f, 0, false, 0); }
int close(int fd)
{
  REAL(close);
  if (tracked(fd)) { g_fd[fd] = false; Rep r = io(IO_CLOSE, 0); int e = r_close(fd); if (failed(r)) return -1; return e; }
  return r_close(fd);
}
ssize_t write(int fd, const void *b, size_t n)
{
  REAL(write);
  if (tracked(fd)) { Rep r = io(IO_WRITE, n); if (failed(r)) return -1; if (r.a == 3) n = (size_t)r.b < n ? r.b : n; }
  return r_write(fd, b, n);
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o)
{
  static auto r_pw = real<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite64");
  if (tracked(fd)) { Rep r = io(IO_WRITE, n); if (failed(r)) return -1; if (r.a == 3) n = (size_t)r.b < n ? r.b : n; }
  return r_pw(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
static size_t iovlen(const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len; return n; }
static std::vector<char> flat(const struct iovec *v, int c) { std::vector<char> d; for (int i = 0; i < c; ++i) d.insert(d.end(), (char *)v[i].iov_base, (char *)v[i].iov_base + v[i].iov_len); return d; }
ssize_t writev(int fd, const struct iovec *v, int c)
{
  REAL(writev); REAL(write);
  if (tracked(fd)) {
    size_t n = iovlen(v, c); Rep r = io(IO_WRITE, n); if (failed(r)) return -1;
    if (r.a == 3) { auto d = flat(v, c); return r_write(fd, d.data(), (size_t)r.b < n ? r.b : n); }
  }
  return r_writev(fd, v, c);
}
static ssize_t do_pwritev(int fd, const struct iovec *v, int c, off_t o)
{
  static auto r_pv = real<ssize_t (*)(int, const struct iovec *, int, off_t)>("pwritev64");
  static auto r_pw = real<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite64");
  if (tracked(fd)) {
    size_t n = iovlen(v, c); Rep r = io(IO_WRITE, n); if (failed(r)) return -1;
    if (r.a == 3) { auto d = flat(v, c); return r_pw(fd, d.data(), (size_t)r.b < n ? r.b : n, o); }
  }
  return r_pv(fd, v, c, o);
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return do_pwritev(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off_t o) { return do_pwritev(fd, v, c, o); }
static int do_ftruncate(int fd, off_t n)
{
  static auto r_ft = real<int (*)(int, off_t)>("ftruncate64");
  if (tracked(fd)) { Rep r = io(IO_TRUNC, 0); if (failed(r)) return -1; }
  return r_ft(fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }
int fsync(int fd) { REAL(fsync); if (tracked(fd)) { Rep r = io(IO_SYNC, 0); if (failed(r)) return -1; return 0; } return r_fsync(fd); }
// Locks between ranks are the file layer's own; a parked rank must not block another for real.
static int do_fcntl(int fd, int cmd, void *arg)
{
  static auto r_fc = real<int (*)(int, int, ...)>("fcntl64");
  if (g_rank >= 0 && g_io_on && (cmd == F_SETLK || cmd == F_SETLKW)) return 0;
  return r_fc(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int unlink(const char *p) { REAL(unlink); if (mine(p)) { Rep r = io(IO_UNLINK, 0); if (failed(r)) return -1; } return r_unlink(p); }
int rename(const char *a, const char *b) { REAL(rename); if (mine(b)) { Rep r = io(IO_UNLINK, 0); if (failed(r)) return -1; } return r_rename(a, b); }
// files of the C library's streams: its writes go through here as well
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t k = write((int)(intptr_t)c, b, n); return k < 0 ? 0 : k; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t k = lseek64((int)(intptr_t)c, *o, w); if (k < 0) return -1; *o = k; return 0; }
static FILE *g_ck[4096];     // the stream of a descriptor: C++ streams write to the descriptor of theirs
static int ck_close(void *c) { g_ck[(intptr_t)c] = nullptr; return close((int)(intptr_t)c); }
static FILE *do_fopen(const char *p, const char *m)
{
  static auto r_fo = real<FILE *(*)(const char *, const char *)>("fopen64");
  bool w = m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'));
  if (!mine(p) || !w) return r_fo(p, m);
  int fl = strchr(m, '+') ? O_RDWR : O_WRONLY;
  if (m[0] == 'w') fl |= O_CREAT | O_TRUNC; else if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
  int fd = do_open(p, fl, 0666, false, 0);
  if (fd < 0) return nullptr;
  if (fd >= 4096) { close(fd); errno = EMFILE; return nullptr; }
  return g_ck[fd] = fopencookie((void *)(intptr_t)fd, m, {ck_read, ck_write, ck_seek, ck_close});
}
int fileno(FILE *f)
{
  REAL(fileno);
  for (int i = 0; i < 4096 && g_rank >= 0; ++i) if (g_ck[i] == f) return i;
  return r_fileno(f);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
// ---- clocks
static int64_t simclock() { return g_sh->clock_ns.load() + 1700000000ll * 1000000000ll; }
int clock_gettime(clockid_t c, struct timespec *t)
{
  static auto r_cg = real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  if (g_rank < 0) return r_cg(c, t);
  int64_t n = simclock(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
int gettimeofday(struct timeval *t, void *z)
{
  static auto r_gt = real<int (*)(struct timeval *, void *)>("gettimeofday");
  if (g_rank < 0) return r_gt(t, z);
  int64_t n = simclock(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0;
}
time_t time(time_t *o)
{
  time_t v;
  if (g_rank < 0) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  else v = simclock() / 1000000000;
  if (o) *o = v;
  return v;
}
}
