// Interposed under the circuit generator: faults on the files below FAULT_DIR, at a chosen call or byte.
// FAULT = comma-separated list of
//   ws:N  every write takes at most N bytes      rs:N  every read gives at most N bytes
//   wi:K  the K-th, 2K-th ... write is interrupted   ri:K  likewise for reads
//   wf:B  after B bytes the disk is full         rf:B  after B bytes reading fails
//   wk:B  after B bytes the process is killed
//   re:B  the read that reaches byte B fails as a whole
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static long get(const char *k) {
  const char *s = getenv("FAULT"), *p = s ? strstr(s, k) : 0;
  return p ? atol(p + 3) : -1;
}
static int ours(int fd) {
  const char *d = getenv("FAULT_DIR");
  char l[64], b[PATH_MAX];
  if (!d) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n <= 0) return 0;
  b[n] = 0;
  return !strncmp(b, d, strlen(d));
}
static long wn, wb, rn, rb;
// How many of n bytes to pass on; -1 to fail with errno set.
static long plan(int w, long n) {
  long *cnt = w ? &wn : &rn, at = w ? wb : rb;
  long s = get(w ? "ws:" : "rs:"), i = get(w ? "wi:" : "ri:"), f = get(w ? "wf:" : "rf:"), k = w ? get("wk:") : -1;
  if (n == 0) return 0;
  if (i > 0 && ++*cnt % i == 0) { errno = EINTR; return -1; }
  if (k >= 0 && at >= k) raise(SIGKILL);
  if (f >= 0 && at >= f) { errno = w ? ENOSPC : EIO; return -1; }
  if (!w && get("re:") >= 0 && at + n > get("re:")) { errno = EIO; return -1; }
  if (s > 0 && n > s) n = s;
  if (k >= 0 && at + n > k) n = k - at;
  if (f >= 0 && at + n > f) n = f - at;
  return n;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!ours(fd)) return syscall(SYS_write, fd, b, n);
  long m = plan(1, n);
  if (m < 0) return -1;
  ssize_t r = syscall(SYS_write, fd, b, (size_t)m);
  if (r > 0) wb += r;
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!ours(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  long m = plan(1, n);
  if (m < 0) return -1;
  ssize_t r = syscall(SYS_pwrite64, fd, b, (size_t)m, o);
  if (r > 0) wb += r;
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
  if (!ours(fd)) return syscall(SYS_read, fd, b, n);
  long m = plan(0, n);
  if (m < 0) return -1;
  ssize_t r = syscall(SYS_read, fd, b, (size_t)m);
  if (r > 0) rb += r;
  return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!ours(fd)) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (!ours(fd)) return syscall(SYS_pread64, fd, b, n, o);
  long m = plan(0, n);
  if (m < 0) return -1;
  ssize_t r = syscall(SYS_pread64, fd, b, (size_t)m, o);
  if (r > 0) rb += r;
  return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
// Copies inside the kernel would pass by: without them callers fall back on read and write.
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t n) { errno = ENOSYS; return -1; }
