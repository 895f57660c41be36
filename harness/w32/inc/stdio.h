#ifndef W_STDIO_H
#define W_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct w_file FILE; extern FILE *const stdout, *const stderr; int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int snprintf(char *, size_t, const char *, ...); int puts(const char *); int putchar(int); int fflush(FILE *);
#endif
