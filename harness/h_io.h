#ifndef H_IO_H
#define H_IO_H
#include <poll.h>
#include <stdio.h>
#include <sys/types.h>
enum { IO_GETRANDOM, IO_OPEN_URANDOM, IO_OPEN_RANDOM, IO_READ, IO_CLOSE, IO_POLL, IO_IOCTL, IO_FOPEN, IO_FCLOSE, IO_FSCANF, IO_N };
static const char *const io_name[] __attribute__((unused)) = {"getrandom", "open-urandom", "open-random", "read", "close", "poll", "ioctl", "fopen", "fclose", "fscanf"};
typedef struct { unsigned calls, faults, count[IO_N]; int open, entropy, entropy_step, wrong_dev; int (*plan)(void *ctx, unsigned call, int what); void *ctx; } h_iostate;
#if defined(H_BACKEND_syscall) || defined(H_BACKEND_urandom)
#define H_IO 1
extern _Thread_local h_iostate io;
void io_reset(void);
long __real_syscall(long, ...); int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int); int __real_poll(struct pollfd *, nfds_t, int); int __real_ioctl(int, unsigned long, ...);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); void __real_rewind(FILE *);
#endif
#endif
