/* hostile byte strings: generic mutations, Dilithium hint and response blocks, public keys */
#ifndef HOSTILE_H
#define HOSTILE_H
#include "gen.h"
/* mutation operators on p[0..n) */
static int mutate(u8 *p, size_t n) {
  if (!n) return 0;
  int op = (int)rn(9); size_t a = rn((uint32_t)n), b = a + 1 + rn((uint32_t)(n - a));
  switch (op) {
    case 0: p[a] ^= (u8)(1 << rn(8)); break;
    case 1: memset(p + a, 0, b - a); break;
    case 2: memset(p + a, 0xff, b - a); break;
    case 3: rbytes(p + a, b - a); break;
    case 4: rbytes(p, n); break;
    case 5: memset(p, rn(2) ? 0xff : 0, n); break;
    case 6: memset(p, (int)rn(256), n); break;
    case 7: { size_t c = rn((uint32_t)n), l = b - a; if (c + l > n) l = n - c; if (a + l > n) l = n - a; memmove(p + c, p + a, l); } break;
    case 8: for (int k = 0; k < 1 + (int)rn(16); k++) p[rn((uint32_t)n)] = (u8)(rn(3) == 0 ? 0x80 : rn(2) ? 0xff : rn(256)); break;
  }
  return op;
}
/* hostile Dilithium hint block: 80 positions, 4 counters */
static void hints(u8 *h) {
  switch (rn(12)) {
    case 0: memset(h, 0, 80); for (int i = 0; i < 4; i++) h[80 + i] = (u8)(rn(2) ? 255 : rn(256)); break;
    case 1: for (int i = 0; i < 80; i++) h[i] = (u8)i; h[80] = 20; h[81] = 40; h[82] = 60; h[83] = (u8)(80 + rn(4)); break;
    case 2: for (int i = 0; i < 80; i++) h[i] = (u8)(176 + i); h[80] = h[81] = h[82] = h[83] = 80; break;      /* all 80 in one row */
    case 3: for (int i = 0; i < 80; i++) h[i] = (u8)(176 + i); h[80] = h[81] = h[82] = 0; h[83] = 80; break;
    case 4: rbytes(h, 84); break;
    case 5: memset(h, 255, 84); break;
    case 6: h[80] = (u8)rn(81); h[81] = (u8)rn(256); h[82] = (u8)rn(256); h[83] = (u8)rn(256); break;
    case 7: memset(h, 0, 84); for (int i = 0; i < 4; i++) { h[80 + i] = (u8)(i + 1); h[i] = (u8)(rn(2) ? 255 : rn(256)); } break;
    case 8: case 9: { /* counters beyond 80 with positions that stay ascending while a reader walks over the counters themselves and past the end */
      int row = (int)rn(4), c[4]; if (row == 0) { c[0] = 81 + (int)rn(150); } else { c[0] = 80 - 4 + (int)rn(2); for (int i = 1; i < row; i++) c[i] = c[i - 1] + 1; c[row] = 81 + (int)rn(150); }
      for (int i = row + 1; i < 4; i++) c[i] = c[i - 1] + 1 + (int)rn(5); for (int i = 0; i < 4; i++) h[80 + i] = (u8)(c[i] > 255 ? 255 : c[i]);
      int k = 0; for (int i = 0; i < 4; i++) { int e = c[i] < 80 ? c[i] : 80, base = i == row && e == 80 ? (int)rn((uint32_t)(c[0] - (e - k) + 1)) : (int)rn((uint32_t)(256 - (e - k) + 1)); for (int j = k; j < e; j++) h[j] = (u8)(base + j - k); k = e > k ? e : k; } } break;
    case 10: case 11: { /* well-formed: any row sizes up to 80 in total, ascending positions, zero padding; then possibly one flaw */
      int k = 0, tot = rn(3) ? (int)rn(81) : 80; memset(h, 0, 84); for (int i = 0; i < 4; i++) { int e = i == 3 ? tot : k + (int)rn((uint32_t)(tot - k + 1)), base = (int)rn((uint32_t)(257 - (e - k))); for (int j = k; j < e; j++) h[j] = (u8)(base + j - k); k = e; h[80 + i] = (u8)k; }
      switch (rn(6)) { case 0: if (k < 80) h[k + (int)rn((uint32_t)(80 - k))] = 1; break; case 1: h[83] = (u8)(81 + rn(175)); break; case 2: h[80 + rn(4)] = (u8)rn(256); break; case 3: if (k > 1) { int j = 1 + (int)rn((uint32_t)(k - 1)); h[j] = h[j - 1]; } break; default: break; } } break;
  }
}
/* z block: extremes of the 18-bit encoding */
static void zpart(u8 *z) { switch (rn(5)) { case 0: memset(z, 0, 2304); break; case 1: memset(z, 0xff, 2304); break; case 2: rbytes(z, 2304); break; case 3: for (int i = 0; i < 2304; i++) z[i] = (u8)(i % 9 < 4 ? 0xff : 0); break; default: mutate(z, 2304); } }
static int hostile_dil(u8 *sig) { int c = (int)rn(7); switch (c) { case 0: hints(sig + 2336); break; case 1: zpart(sig + 32); break; case 2: hints(sig + 2336); zpart(sig + 32); break; case 3: mutate(sig, 32); break; case 4: rbytes(sig, DSIG); break; case 5: mutate(sig, DSIG); break; default: rbytes(sig, 32); hints(sig + 2336); } return c; }
static int hostile_pk(u8 *pk) { int c = (int)rn(8); switch (c) { case 0: mutate(pk, 32); break; case 1: mutate(pk + 32, 32); break; case 2: memset(pk + 64, rn(2) ? 0xff : 0, 1280); break; case 3: mutate(pk + 64, 1280); break; case 4: mutate(pk + 1344, 64); break; case 5: rbytes(pk, PKB); break; case 6: memset(pk, (int)rn(256), PKB); break; default: break; } return c; }
/* a Dilithium signature that each stage of verification has to turn away: 0 hint form, 1 response norm, 2 challenge, 3 valid, 4 anything */
static int staged_dil(u8 *sig) { int c = (int)rn(5); switch (c) { case 0: hints(sig + 2336); sig[2336 + 83] = 200; break; case 1: { size_t j = rn(1024), bit = j * 18; for (int q = 0; q < 18; q++, bit++) sig[32 + bit / 8] &= (u8)~(1 << (bit % 8)); } break; case 2: sig[rn(32)] ^= (u8)(1 << rn(8)); break; case 3: break; default: hostile_dil(sig); } return c; }
#endif
