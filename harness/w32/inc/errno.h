#ifndef W_ERRNO_H
#define W_ERRNO_H
extern int errno;
#define EPERM 63
#define EINTR 27
#define EIO 29
#define EAGAIN 6
#define ENOMEM 48
#define EFAULT 21
#define EINVAL 28
#define ENOSYS 52
#define ENOTTY 59
#endif
