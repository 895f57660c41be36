/* Corpus of signing and key-generation inputs that reach rare decisions (found by tools/rare.c, listed in rare.txt).
 * An entry is only numbers; the inputs are derived here, the same way in the search tool and in the checks. */
#ifndef RARE_H
#define RARE_H
#include "ref.h"
#include <string.h>
#include <stdint.h>
#define RARE_KEYS 32   /* honest keys; 32..47 are keys 0..15 with an unusual Dilithium t0/s1/s2 */
#define RARE_ALL 48
static inline void rare_bytes(uint8_t *o, size_t n, uint32_t a, uint32_t b, uint32_t c) { uint8_t in[20] = "rare"; for (int i = 0; i < 4; i++) { in[4 + i] = (uint8_t)(a >> 8 * i); in[8 + i] = (uint8_t)(b >> 8 * i); in[12 + i] = (uint8_t)(c >> 8 * i); } ref_shake256(o, n, in, 20); }
static inline void rare_keyseed(uint8_t s[160], uint32_t key) { rare_bytes(s, 160, 1, key % RARE_KEYS, 0); }
static inline void rare_dilseed(uint8_t s[32], uint32_t ctr) { rare_bytes(s, 32, 3, ctr, 0); }
static inline unsigned rare_input(uint8_t m[64], uint8_t nonce[40], uint32_t key, uint32_t ctr) { uint8_t b[105]; rare_bytes(b, 105, 2, key, ctr); memcpy(m, b + 1, 64); memcpy(nonce, b + 65, 40); return 1 + b[0] % 64u; }
/* turn an honest Dilithium secret key into the unusual one */
static inline void rare_odd(uint8_t *dsk, uint32_t key) {
  if (key < RARE_KEYS) return;
  uint8_t r[1024 * 4]; rare_bytes(r, sizeof r, 4, key, 0); uint8_t *t0 = dsk + 128 + 768;
  for (int i = 0; i < 1024; i++) { uint32_t x = r[4 * i] | (uint32_t)r[4 * i + 1] << 8 | (uint32_t)r[4 * i + 2] << 16; int32_t v;
    switch (key % 4) { case 0: v = (x & 1 ? 1 : -1) * (int32_t)(3100 + (x >> 1) % 250); break; case 1: v = (x & 1 ? 1 : -1) * (int32_t)(3500 + (x >> 1) % 250); break; case 2: v = (x & 1 ? 1 : -1) * (int32_t)(3300 + (x >> 1) % 300); break; default: v = x & 1 ? 4096 - (int32_t)(x >> 1 & 1) : -4095; if (i % 3) v /= 8; }
    uint32_t u = (uint32_t)(4096 - v) & 8191; size_t b = (size_t)i * 13; for (int k = 0; k < 13; k++, b++) t0[b >> 3] = (uint8_t)((t0[b >> 3] & ~(1u << (b & 7))) | (((u >> k) & 1) << (b & 7))); }
}
#endif
