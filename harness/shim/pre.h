/* Force-included in front of random/randombytes.c only: makes the source see an old C library
 * (no getrandom wrapper) and, with H_NO_SYS_GETRANDOM, a system without the system call,
 * so that its other back ends are compiled.  The calls they make are intercepted (h_io.c). */
#define _GNU_SOURCE
#include <features.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/param.h>
#include <unistd.h>
#undef __GLIBC_MINOR__
#define __GLIBC_MINOR__ 17
#ifdef H_NO_SYS_GETRANDOM
#undef SYS_getrandom
#undef __NR_getrandom
#endif
