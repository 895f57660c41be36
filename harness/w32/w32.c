/* The few library functions the wasm32 build needs.  The allocator is a monitor: red zones, quarantine, ledger. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define IMP(n) __attribute__((import_module("env"), import_name(n)))
IMP("fault") _Noreturn void w_fault(const char *what, const char *text, int v);
int errno; struct w_file { int x; }; static struct w_file f1, f2; FILE *const stdout = &f1, *const stderr = &f2;
#define NS __attribute__((no_builtin))
NS void *memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
NS void *memmove(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; if ((uintptr_t)a <= (uintptr_t)b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
NS void *memset(void *d, int c, size_t n) { unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
NS int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; while (n--) { if (*a != *b) return *a < *b ? -1 : 1; a++; b++; } return 0; }
NS void *memchr(const void *x, int c, size_t n) { const unsigned char *a = x; while (n--) { if (*a == (unsigned char)c) return (void *)a; a++; } return NULL; }
NS size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
void explicit_bzero(void *p, size_t n) { volatile unsigned char *q = p; while (n--) *q++ = 0; }
int printf(const char *f, ...) { return 0; } int fprintf(FILE *o, const char *f, ...) { return 0; } int snprintf(char *b, size_t n, const char *f, ...) { if (n) *b = 0; return 0; } int puts(const char *s) { return 0; } int putchar(int c) { return c; } int fflush(FILE *o) { return 0; }
_Noreturn void abort(void) { w_fault("abort", "abort", 0); } _Noreturn void exit(int c) { w_fault("exit", "exit", c); } _Noreturn void w_assert(const char *x, const char *f, int l) { w_fault("assert", x, l); }
int abs(int x) { return x < 0 ? -x : x; }
/* allocator: [hdr 16][red 16][payload][red 16..31]; freed blocks wait in a queue before they are used again */
typedef struct hdr { uint32_t magic, size, cap; struct hdr *next; } hdr;
#define RED 16
extern unsigned char __heap_base; static uintptr_t brk_; static hdr *q_head, *q_tail; static long q_bytes;
__attribute__((used, visibility("default"))) long w_live, w_live_bytes, w_mallocs, w_frees, w_fail_at, w_free_nonzero, w_on, w_mem_end;
static int red_ok(hdr *h) { unsigned char *p = (unsigned char *)(h + 1); for (unsigned i = 0; i < RED; i++) if (p[i] != 0xBB) return 0; p += RED + h->size; for (unsigned i = 0; i < RED; i++) if (p[i] != 0xBB) return 0; return 1; }
NS void *malloc(size_t n) {
  if (w_on) { w_mallocs++; if (w_fail_at && w_mallocs >= w_fail_at) return NULL; } if (n > 0x10000000u) return NULL; uint32_t cap = (uint32_t)((n + 15) & ~15u); hdr *h = NULL;
  if (q_bytes > (1 << 20)) for (hdr **pp = &q_head; *pp; pp = &(*pp)->next) { if ((*pp)->cap == cap) { h = *pp; *pp = h->next; if (q_tail == h) { q_tail = NULL; for (hdr *t = q_head; t; t = t->next) q_tail = t; } q_bytes -= cap; break; } }
  if (!h) { if (!brk_) brk_ = ((uintptr_t)&__heap_base + 15) & ~(uintptr_t)15; uintptr_t need = brk_ + sizeof *h + 2 * RED + cap; while (need > (uintptr_t)__builtin_wasm_memory_size(0) * 65536u) if (__builtin_wasm_memory_grow(0, 16) == (size_t)-1) return NULL; h = (hdr *)brk_; brk_ = need; h->cap = cap; w_mem_end = (long)brk_; }
  h->magic = 0x600DB10Cu; h->size = (uint32_t)n; h->next = NULL; unsigned char *p = (unsigned char *)(h + 1); memset(p, 0xBB, RED); memset(p + RED, 0xCD, cap); memset(p + RED + n, 0xBB, RED); if (w_on) { w_live++; w_live_bytes += (long)n; } return p + RED;
}
NS void free(void *p) {
  if (!p) return; hdr *h = (hdr *)((unsigned char *)p - RED) - 1; if (h->magic == 0xDEADB10Cu) w_fault("double-free", "block freed twice", (int)h->size); if (h->magic != 0x600DB10Cu) w_fault("bad-free", "not a block", (int)(uintptr_t)p); if (!red_ok(h)) w_fault("heap-overflow", "bytes outside an allocated block changed", (int)h->size);
  w_free_nonzero = 0; for (uint32_t i = 0; i < h->size; i++) w_free_nonzero += ((unsigned char *)p)[i] != 0; memset(p, 0xDD, h->size); h->magic = 0xDEADB10Cu; h->next = NULL; if (q_tail) q_tail->next = h; else q_head = h; q_tail = h; q_bytes += h->cap; if (w_on) { w_live--; w_live_bytes -= (long)h->size; w_frees++; }
}
NS void *calloc(size_t a, size_t b) { if (b && a > 0x10000000u / b) return NULL; void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
NS void *realloc(void *p, size_t n) { if (!p) return malloc(n); hdr *h = (hdr *)((unsigned char *)p - RED) - 1; void *q = malloc(n); if (q) { memcpy(q, p, h->size < n ? h->size : n); free(p); } return q; }
void *aligned_alloc(size_t a, size_t n) { return a <= 16 ? malloc(n) : NULL; } int posix_memalign(void **p, size_t a, size_t n) { *p = a <= 16 ? malloc(n) : NULL; return *p ? 0 : 48; }
/* compiler support: 64x64 -> 128 products for the overflow checks */
typedef union { __int128 x; struct { uint64_t lo, hi; } p; } ti;
__int128 __multi3(__int128 a, __int128 b) { ti x = {.x = a}, y = {.x = b}, r; uint64_t m = 0xffffffffu, a0 = x.p.lo & m, a1 = x.p.lo >> 32, b0 = y.p.lo & m, b1 = y.p.lo >> 32, c0 = a0 * b0, t = a1 * b0 + (c0 >> 32), u = a0 * b1 + (t & m); r.p.lo = (u << 32) | (c0 & m); r.p.hi = a1 * b1 + (t >> 32) + (u >> 32) + x.p.hi * y.p.lo + x.p.lo * y.p.hi; return r.x; }
