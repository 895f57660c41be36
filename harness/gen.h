/* Input generators that steer the workload towards rare internal states, using the reference model. */
#ifndef GEN_H
#define GEN_H
#include "h.h"
/* score of a Dilithium signing run: higher = rarer */
static inline int dil_rarity(const ref_dil_ev *e) {
  int s = 0;
  if (e->hints == 80) s += 60; else if (e->hints == 79) s += 20; else if (e->hints >= 77) s += 5;
  if (e->rej_hint) s += 40;
  if (e->rej_ct0) s += 40;
  if (e->z_edge_hi || e->z_edge_lo) s += 30;
  if (e->w0_edge_hi || e->w0_edge_lo) s += 25;
  if (e->hint_eq) s += 30;
  if (e->attempts >= 16) s += 20; else if (e->attempts >= 10) s += 5;
  if (e->z_max == (1 << 17) - 79) s += 50;
  return s;
}
static inline void dil_observe(const ref_dil_ev *e) {
  stat_add("dilithium_attempts", e->attempts);
  if (e->hints == 80) stat_add("hints_eq_80", 1);
  if (e->rej_hint) stat_add("rejected_hint_weight", 1);
  if (e->rej_ct0) stat_add("rejected_ct0", 1);
  if (e->z_edge_hi) stat_add("z_exactly_on_bound", 1);
  if (e->z_edge_lo) stat_add("z_just_inside_bound", 1);
  if (e->w0_edge_hi) stat_add("w0_exactly_on_bound", 1);
  if (e->w0_edge_lo) stat_add("w0_just_inside_bound", 1);
  if (e->hint_eq) stat_add("hint_low_part_eq_minus_gamma2", 1);
  set_add("dilithium_hint_weight", "%u", e->hints);
  set_add("dilithium_attempts", "%u", e->attempts);
}
/* choose a nonce for a compact signature: the rarest of k candidates */
static inline void gen_nonce(u8 nonce[40], const u8 *m, unsigned n, const u8 *sk, int k) {
  u8 best[40], sig[DSIG], h[64]; int bs = -1; ref_dil_ev be; memset(&be, 0, sizeof be);
  for (int i = 0; i < k; i++) {
    u8 c[40]; if (i == 0) rpat(c, 40); else rbytes(c, 40);
    ref_dil_ev e; ref_compact_digest(h, c, m, n, sk + 4000);
    ref_dil_opts o = {.max_attempts = 400};
    if (ref_dil_sign(sig, h, 64, sk + 64, &o, &e)) continue;
    int s = dil_rarity(&e); if (s > bs) { bs = s; memcpy(best, c, 40); be = e; }
  }
  if (bs < 0) rbytes(best, 40); else dil_observe(&be);
  memcpy(nonce, best, 40);
}
/* choose a randomiser so that the SPHINCS+ indices hit a class of edge cases */
static inline int gen_optrand(u8 opt[32], const u8 *m, unsigned n, const u8 *spxsk, int cls) {
  uint64_t tree; uint32_t leaf, f[35]; int hit = 0;
  for (int t = 0; t < 6000 && !hit; t++) {
    if (t == 0) rpat(opt, 32); else rbytes(opt, 32);
    ref_spx_indices(&tree, &leaf, f, m, n, spxsk, opt);
    int lo = 0, hi = 0; for (int i = 0; i < 35; i++) { if (f[i] == 0) lo++; if (f[i] == 511) hi++; }
    switch (cls % 8) {
      case 0: hit = 1; break;
      case 1: hit = leaf == 0 && (tree & 0xff) == 0; break;
      case 2: hit = leaf == 15 && (tree & 0xff) == 0xff; break;
      case 3: hit = (tree >> 56) == 0; break;
      case 4: hit = (tree >> 56) == 0xff; break;
      case 5: hit = lo && hi; break;
      case 6: hit = f[34] == 511 || f[34] == 0; break;
      case 7: hit = f[0] == 511 || f[0] == 0; break;
    }
  }
  set_add("sphincs_leaf", "%u", leaf); set_add("sphincs_tree_top", "%u", (unsigned)(tree >> 60)); set_add("sphincs_index_class", "%d%s", cls % 8, hit ? "" : "(missed)");
  return hit;
}
/* an unusual but well-formed Dilithium secret key: t0 scaled so that the signer rejects often (or never needs hints) */
static inline void gen_dil_sk(u8 *dsk, const u8 *good, int cls) {
  memcpy(dsk, good, 2560);
  u8 *t0 = dsk + 128 + 768; /* 1024 coefficients, 13 bits, 4096 - t0 */
  for (int i = 0; i < 1024; i++) {
    int32_t v;
    switch (cls) {
      case 0: v = 0; break;                                    /* never a hint */
      case 1: v = (int)rn(8192) - 4095; break;                 /* ordinary */
      case 2: v = (rn(2) ? 1 : -1) * (3100 + (int)rn(250)); break;
      case 3: v = (rn(2) ? 1 : -1) * (3500 + (int)rn(250)); break; /* many rejections */
      default: v = rn(2) ? 4096 - (int)rn(2) : -4095; v = i % 3 == 0 ? v : v / 8; break;
    }
    uint32_t u = (uint32_t)(4096 - v) & 8191; size_t b = (size_t)i * 13;
    for (int k = 0; k < 13; k++, b++) { t0[b >> 3] = (u8)((t0[b >> 3] & ~(1u << (b & 7))) | (((u >> k) & 1) << (b & 7))); }
  }
  if (cls && rn(3) == 0) { /* extreme s1, s2: all coefficients +-2 */
    u8 *s = dsk + 128; for (int i = 0; i < 2048; i++) { uint32_t u = rn(2) ? 0 : 4; size_t b = (size_t)i * 3; for (int k = 0; k < 3; k++, b++) s[b >> 3] = (u8)((s[b >> 3] & ~(1u << (b & 7))) | (((u >> k) & 1) << (b & 7))); }
  }
}
/* a well-formed key pair with t = 0 (s1 = s2 = t0 = 0): its signatures carry no hints */
static inline void gen_dil_weak(u8 *pk, u8 *sk) {
  memset(pk, 0, 1312); rbytes(pk, 32); memcpy(sk, pk, 32); rbytes(sk + 32, 32); ref_shake256(sk + 64, 64, pk, 1312);
  memset(sk + 128, 0, 2560 - 128); for (int i = 0; i < 2048; i++) { size_t b = (size_t)i * 3 + 1; sk[128 + (b >> 3)] |= (u8)(1u << (b & 7)); }
  for (int i = 0; i < 1024; i++) { size_t b = (size_t)i * 13 + 12; sk[896 + (b >> 3)] |= (u8)(1u << (b & 7)); }
}
#endif
