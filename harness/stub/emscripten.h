/* stand-in for the Emscripten header: embedded JavaScript is handed, as text, to a node process (d_plat.c, em.js) */
#include "emscripten/emscripten.h"
int v_em_asm(const char *code, int nargs, const double *args);
#define V_EM_ARGS_(...) (sizeof((double[]){0, ##__VA_ARGS__}) / sizeof(double) - 1)
#define V_EM_D(x) ((double)(uintptr_t)(x))
#define V_EM_0() {0}
#define V_EM_1(a) {V_EM_D(a)}
#define V_EM_2(a, b) {V_EM_D(a), V_EM_D(b)}
#define V_EM_3(a, b, c) {V_EM_D(a), V_EM_D(b), V_EM_D(c)}
#define V_EM_4(a, b, c, d) {V_EM_D(a), V_EM_D(b), V_EM_D(c), V_EM_D(d)}
#define V_EM_PICK(_0, _1, _2, _3, _4, N, ...) V_EM_##N
#define V_EM_ALL(...) V_EM_PICK(_0, ##__VA_ARGS__, 4, 3, 2, 1, 0)(__VA_ARGS__)
#define EM_ASM_INT(code, ...) ({ const double v_a_[] = V_EM_ALL(__VA_ARGS__); v_em_asm(#code, (int)(sizeof v_a_ / sizeof v_a_[0]), v_a_); })
#define EM_ASM(code, ...) ((void)EM_ASM_INT(code, ##__VA_ARGS__))
#define EM_ASM_(code, ...) EM_ASM_INT(code, ##__VA_ARGS__)
