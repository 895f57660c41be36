#ifndef W_EMSCRIPTEN_H
#define W_EMSCRIPTEN_H
#include <stdint.h>
#define EMSCRIPTEN_KEEPALIVE __attribute__((used, visibility("default")))
__attribute__((import_module("env"), import_name("em_asm"))) int w_em_asm(const char *code, int n, const double *arg);
#define W_1(x) (double)(uintptr_t)(x)
#define W_CNT_(a, b, c, d, e, f, n, ...) n
#define W_CNT(...) W_CNT_(__VA_ARGS__, 6, 5, 4, 3, 2, 1, 0)
#define W_L1(a) W_1(a)
#define W_L2(a, b) W_1(a), W_1(b)
#define W_L3(a, b, c) W_1(a), W_1(b), W_1(c)
#define W_L4(a, b, c, d) W_1(a), W_1(b), W_1(c), W_1(d)
#define W_LN_(n, ...) W_L##n(__VA_ARGS__)
#define W_LN(n, ...) W_LN_(n, __VA_ARGS__)
#define EM_ASM_INT(code, ...) w_em_asm(#code, W_CNT(__VA_ARGS__), (const double[]){W_LN(W_CNT(__VA_ARGS__), __VA_ARGS__)})
#define EM_ASM(code, ...) ((void)EM_ASM_INT(code, __VA_ARGS__))
#endif
