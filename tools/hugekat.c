/* ref/huge_kat.h: what the model signs for messages beyond 2^31 / 2^32 zero bytes.
 *  gcc -O3 -march=native tools/hugekat.c ref/ref_*.c -o /tmp/hugekat && /tmp/hugekat > ref/huge_kat.h */
#define _GNU_SOURCE
#include "../ref/rare.h"
#include <stdio.h>
#include <sys/mman.h>
static uint8_t sk[4064], pk[1408], sig[50000];
static void put(const char *n, const uint8_t *p, size_t l) { printf("static const unsigned char %s[%zu] = {", n, l); for (size_t i = 0; i < l; i++) printf("%d,", p[i]); printf("};\n"); fflush(stdout); }
int main(void) { uint8_t s[160], opt[32], h[32]; rare_keyseed(s, 0); ref_hybrid_keypair(pk, sk, s); memset(opt, 0x5a, 32); size_t n = (1ull << 32) + 77, e = (1ull << 31) + 100; uint8_t *z = mmap(NULL, n + 64, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  printf("/* generated by tools/hugekat.c */\n#define HUGE_N %zuull\n#define HUGE_ED %zuull\n", n, e);
  ref_dil_sign(sig, z, n, sk + 64, NULL, NULL); put("huge_dil", sig, 2420);
  ref_spx_sign(sig, z, n, sk + 3936, opt); put("huge_spx_head", sig, 64); ref_shake256(h, 32, sig, 49856); put("huge_spx_shake", h, 32);
  ref_ed_sign(sig, z, e, sk); put("huge_ed", sig, 64); }
