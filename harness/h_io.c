/* Stand-ins for the calls of the raw-system-call and /dev/urandom back ends.
 * Descriptors and streams of the random devices are real (on /dev/null) so that a leak is a leak. */
#define _GNU_SOURCE
#include "h.h"
#include "h_io.h"
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>
_Thread_local h_iostate io = {.entropy = 256};
ssize_t h_deliver(void *, size_t);
#define NF 64
static _Thread_local struct { int fd, kind; FILE *f; } tab[NF];
static void put(int fd, FILE *f, int kind) { for (int i = 0; i < NF; i++) if (!tab[i].kind) { tab[i].fd = fd; tab[i].f = f; tab[i].kind = kind; io.open++; return; } }
static int kind_fd(int fd) { for (int i = 0; i < NF; i++) if (tab[i].kind && !tab[i].f && tab[i].fd == fd) return i + 1; return 0; }
static int kind_f(FILE *f) { for (int i = 0; i < NF; i++) if (tab[i].kind && tab[i].f == f) return i + 1; return 0; }
void io_reset(void) { for (int i = 0; i < NF; i++) if (tab[i].kind) { if (tab[i].f) __real_fclose(tab[i].f); else __real_close(tab[i].fd); tab[i].kind = 0; } memset(&io, 0, sizeof io); io.entropy = 256; }
/* fault decision for one call */
static int step(int what) {
  unsigned c = io.calls++; io.count[what]++;
  if (io.plan) { int e = io.plan(io.ctx, c, what); if (e) { io.faults++; errno = e; return -1; } }
  return 0;
}
long __wrap_syscall(long nr, ...) {
  va_list a; va_start(a, nr); long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long); va_end(a);
  if (nr == SYS_getrandom) { if (step(IO_GETRANDOM)) return -1; return h_deliver((void *)x[0], (size_t)x[1]); }
  return __real_syscall(nr, x[0], x[1], x[2], x[3], x[4], x[5]);
}
static int dev(const char *p) { return !strcmp(p, "/dev/urandom") ? 1 : !strcmp(p, "/dev/random") ? 2 : !strncmp(p, "/proc/sys/kernel/random/", 24) ? 3 : 0; }
static int do_open(const char *p, int fl, int mode) {
  int k = dev(p); if (!k) return __real_open(p, fl, mode);
  if (step(k == 1 ? IO_OPEN_URANDOM : IO_OPEN_RANDOM)) return -1;
  int fd = __real_open("/dev/null", O_RDONLY, 0); put(fd, NULL, k); return fd;
}
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
  int i = kind_fd(fd); if (!i) return __real_read(fd, b, n);
  if (step(IO_READ)) return -1;
  if (tab[i - 1].kind != 1) io.wrong_dev++;
  return h_deliver(b, n);
}
int __wrap_close(int fd) { int i = kind_fd(fd); if (!i) return __real_close(fd); tab[i - 1].kind = 0; io.open--; int r = __real_close(fd); if (step(IO_CLOSE)) { return -1; } return r; }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (n != 1 || !kind_fd(p[0].fd)) return __real_poll(p, n, t); if (step(IO_POLL)) return -1; io.entropy += io.entropy_step; p[0].revents = p[0].events; return 1; }
int __wrap_ioctl(int fd, unsigned long rq, ...) {
  va_list a; va_start(a, rq); void *x = va_arg(a, void *); va_end(a);
  if (!kind_fd(fd)) return __real_ioctl(fd, rq, x);
  if (step(IO_IOCTL)) return -1;
  if ((uint32_t)rq == 0x80045200u) *(int *)x = io.entropy;
  return 0;
}
static FILE *do_fopen(const char *p, const char *m) {
  int k = dev(p); if (!k) return __real_fopen(p, m);
  if (step(IO_FOPEN)) return NULL;
  FILE *f = __real_fopen("/dev/null", "r"); put(-1, f, k); return f;
}
FILE *__wrap_fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return do_fopen(p, m); }
int __wrap_fclose(FILE *f) { int i = kind_f(f); if (!i) return __real_fclose(f); tab[i - 1].kind = 0; io.open--; int r = __real_fclose(f); if (step(IO_FCLOSE)) return -1; return r; }
static int do_scan(FILE *f, const char *fmt, va_list a) {
  if (!kind_f(f)) return vfscanf(f, fmt, a);
  errno = 0; if (step(IO_FSCANF)) return EOF;
  *va_arg(a, int *) = io.entropy; return 1;
}
int __wrap_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = do_scan(f, fmt, a); va_end(a); return r; }
int __wrap___isoc99_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = do_scan(f, fmt, a); va_end(a); return r; }
int __wrap___isoc23_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = do_scan(f, fmt, a); va_end(a); return r; }
void __wrap_rewind(FILE *f) { if (!kind_f(f)) __real_rewind(f); }
