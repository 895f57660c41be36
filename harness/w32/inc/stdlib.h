/* minimal C library of the wasm32 build (w32.c) */
#ifndef W_STDLIB_H
#define W_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void free(void *); void *calloc(size_t, size_t); void *realloc(void *, size_t); _Noreturn void abort(void); _Noreturn void exit(int); int abs(int); void *aligned_alloc(size_t, size_t); int posix_memalign(void **, size_t, size_t); int rand(void); void srand(unsigned); void arc4random_buf(void *, size_t);
#define RAND_MAX 0x7fffffff
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#endif
