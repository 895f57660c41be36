/* incremental hashing with given cuts; compiled natively and for wasm32 */
#include "common/fips202.h"
#define G_XOF(f) { f##incctx c, d; f##_inc_init(&c); size_t p = 0; for (unsigned i = 0; i < nc; i++) { f##_inc_absorb(&c, m + p, cut[i]); p += cut[i]; if (i == 1) { f##_inc_ctx_clone(&d, &c); f##_inc_ctx_release(&d); } } f##_inc_absorb(&c, m + p, n - p); f##_inc_finalize(&c); p = 0; for (unsigned i = 0; i < nc && p + cut[i] <= on; i++) { f##_inc_squeeze(o + p, cut[i], &c); p += cut[i]; } f##_inc_squeeze(o + p, on - p, &c); f##_inc_ctx_release(&c); }
#define G_HASH(f) { f##incctx c; f##_inc_init(&c); size_t p = 0; for (unsigned i = 0; i < nc; i++) { f##_inc_absorb(&c, m + p, cut[i]); p += cut[i]; } f##_inc_absorb(&c, m + p, n - p); f##_inc_finalize(o, &c); }
int G_EXPORT g_inc(int kind, unsigned char *o, size_t on, const unsigned char *m, size_t n, const unsigned char *cb, unsigned nc) {
  unsigned short cut[8]; for (unsigned i = 0; i < nc && i < 8; i++) cut[i] = (unsigned short)(cb[2 * i] | cb[2 * i + 1] << 8);
  switch (kind) { case 0: G_XOF(shake128) break; case 1: G_XOF(shake256) break; case 2: G_HASH(sha3_256) break; case 3: G_HASH(sha3_384) break; default: G_HASH(sha3_512) } return kind;
}
int G_EXPORT g_blocks(int kind, unsigned char *o, size_t nb, const unsigned char *m, size_t n) { if (kind) { shake256ctx c; shake256_absorb(&c, m, n); shake256_squeezeblocks(o, nb, &c); shake256_ctx_release(&c); } else { shake128ctx c; shake128_absorb(&c, m, n); shake128_squeezeblocks(o, nb, &c); shake128_ctx_release(&c); } return kind; }
