/* C18 standalone Ed25519, Dilithium2, SPHINCS+ */
#define _GNU_SOURCE
#include "gen.h"
#include "rare_use.h"
#include "../ref/huge_kat.h"
#include <sys/mman.h>
static const size_t edge_len[] = {0, 1, 2, 7, 8, 31, 32, 33, 47, 63, 64, 65, 71, 72, 73, 103, 104, 105, 111, 112, 127, 128, 129, 135, 136, 137, 167, 168, 199, 200, 255, 256, 257, 271, 272, 273, 511, 512, 1023, 1024, 4095, 4096, 4097};
#define NEDGE ((long)(sizeof edge_len / sizeof *edge_len))
static size_t mlen_for(long i, long dense, size_t big) { if (i < dense) return (size_t)i; if (i < dense + NEDGE) return edge_len[i - dense]; return rn(20) ? rn(2000) : rn((uint32_t)big); }
/* an edit of a Dilithium signature that keeps it well-formed where possible */
static void dil_edit(u8 *s, int cls) {
  u8 *h = s + 32 + 4 * 576; /* hints: 80 indices, 4 counters */
  switch (cls) {
    case 0: s[rn(32)] ^= (u8)(1u << rn(8)); break;                                  /* challenge */
    case 1: { unsigned b = rn(4 * 256), bit = 18 * b; s[32 + bit / 8] ^= (u8)(1u << (bit % 8 & 7)); } break; /* a low bit of z */
    case 2: { int n = h[83]; if (n < 1) { h[0] = (u8)rn(256); h[80] = h[81] = h[82] = h[83] = 1; break; } int j = (int)rn((uint32_t)n); h[j] = (u8)(h[j] + 1 - 2 * (int)rn(2)); } break; /* move a hint */
    case 3: { int n = h[83]; if (n > 0 && n <= 80) { h[n - 1] = 0; if (h[82] == n) h[82]--; if (h[81] == n) h[81]--; if (h[80] == n) h[80]--; h[83]--; } } break; /* drop the last hint */
    case 4: { int n = h[83]; if (n < 80) { int lo = n > h[82] ? h[n - 1] : -1; if (lo < 255) { h[n] = (u8)(lo + 1 + (int)rn((uint32_t)(255 - lo))); h[83]++; } } } break; /* add a hint */
    case 5: h[80 + rn(3)]++; break;
    case 6: rbytes(s + 32, 4 * 576); break;                                          /* random z */
    case 7: s[rn(DSIG)] ^= (u8)(1 + rn(255)); break;
    case 8: { u8 t[576]; memcpy(t, s + 32, 576); memcpy(s + 32, s + 32 + 576, 576); memcpy(s + 32 + 576, t, 576); } break;
    case 9: case 10: { int first = (int)rn(4); for (int p = 0; p < 4; p++) { int q = (first + p) % 4, lo = q ? h[79 + q] : 0, hi = h[80 + q]; if (hi > 80 || hi < lo + 2) continue; int j = cls == 9 ? hi - 2 : lo + (int)rn((uint32_t)(hi - lo - 1)); if (cls == 9 && h[hi - 1] != 255 && p < 3) continue; u8 t = h[j]; h[j] = h[j + 1]; h[j + 1] = t; break; } } break; /* two hints swapped, the ones at the end of the range preferred */
    case 11: { int n = h[83]; if (n < 80) h[rn(2) ? n : n + (int)rn((uint32_t)(80 - n))] = (u8)(1 + rn(255)); } break; /* padding */
    case 12: { int q = (int)rn(4), n = h[83], hi = h[80 + q]; if (n < 80 && hi > (q ? h[79 + q] : 0)) { memmove(h + hi, h + hi - 1, (size_t)(n - hi + 1)); for (; q < 4; q++) h[80 + q]++; } } break; /* repeated */
    default: memset(h, 0, 84); break;
  }
}
void drv_C18(void) {
  static u8 w[70000 + DSIG + 70000], o[70000 + DSIG + 70000];
  CASES("sizes", i, 1) { struct { const char *n; size_t got, want; } z[] = {{"secretkeybytes", PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_secretkeybytes(), 128}, {"publickeybytes", PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_publickeybytes(), 64}, {"bytes", PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_bytes(), SSIG}, {"seedbytes", PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seedbytes(), 96}};
    for (int q = 0; q < 4; q++) { ev(1); set_add("size_accessors", "%s", z[q].n); if (z[q].got != z[q].want) VIOL("size", "SPHINCS+ %s returns %zu, not %zu", z[q].n, z[q].got, z[q].want); } }
  CASES("ed25519", i, h_count(900, 30000)) {
    size_t n = mlen_for(i, 300, 60000); const h_key *k = h_getkey((unsigned)i % 12); u8 *sk = gb_dup(G_SK, k->sk, 64), *m = gb(G_MSG, n), *sm = gb(G_SM, n + 64); if (n) rpat(m, n); gb_ro(G_SK); gb_ro(G_MSG); ull l = 77;
    int r = crypto_sign_ed25519(sm, &l, m, n, sk); ref_ed_sign(w, m, n, k->sk); ev(2); if (r || l != n + 64) VIOL("ed-sign", "length %zu: returned %d, length %llu", n, r, l); else if (!eqb(sm, w, 64) || !eqb(sm + 64, m, n)) VIOL("ed-sign", "length %zu: signature differs from RFC 8032", n);
    memcpy(w + 64, m, n); u8 *s2 = gb_dup(G_SM, w, n + 64), *pk = gb_dup(G_PK, k->pk, 32), *mo = gb(G_OUT, n + 64); gb_ro(G_SM); gb_ro(G_PK); l = 99; r = crypto_sign_ed25519_open(mo, &l, s2, n + 64, pk); ev(2); if (r || l != n || !eqb(mo, m, n)) VIOL("ed-open", "length %zu: genuine signature gives %d, length %llu", n, r, l); h_defined(mo, n);
    gb_rw(G_SK); gb_rw(G_MSG); gb_rw(G_PK); gb_rw(G_SM); gb_check("ed25519"); set_add("ed_lengths", "%zu", n < 300 ? n : 300);
    for (int q = 0; q < 6; q++) { memcpy(o, w, n + 64); u8 p2[32]; memcpy(p2, k->pk, 32); size_t ln = n + 64; const char *what; switch (q) { case 0: o[rn(32)] ^= (u8)(1u << rn(8)); what = "R"; break; case 1: o[32 + rn(32)] ^= (u8)(1u << rn(8)); what = "S"; break; case 2: if (!n) continue; o[64 + rn((uint32_t)n)] ^= (u8)(1u << rn(8)); what = "message"; break; case 3: memcpy(p2, h_getkey(((unsigned)i + 1) % 12)->pk, 32); what = "key"; break; case 4: ln -= 1; what = "shortened"; break; default: o[ln++] = 0; what = "extended"; } l = 5; r = crypto_sign_ed25519_open(w + 70000, &l, o, ln, p2); ev(1); if (!r) VIOL("ed-open", "length %zu: accepted with modified %s", n, what); }
    nontriv(h_hash(w, 64));
  }
  CASES("dilithium", i, h_count(2400, 60000)) {
    size_t n = mlen_for(i, 300, 60000); const h_key *k = h_getkey((unsigned)i % 12); u8 dsk[2560]; memcpy(dsk, k->sk + 64, 2560); int odd = i >= 300 && i % 8 == 7 && n < 4000; if (odd) gen_dil_sk(dsk, k->sk + 64, (int)rn(5)); u8 *sk = gb_dup(G_SK, dsk, 2560), *m = gb(G_MSG, n), *sg = gb(G_SM, DSIG); if (n) rpat(m, n); ref_dil_ev e; ref_dil_opts op = {.max_attempts = odd ? 900 : 0};
    if (ref_dil_sign(w, m, n, dsk, &op, &e)) { stat_add("hopeless_keys_skipped", 1); continue; } dil_observe(&e); gb_ro(G_SK); gb_ro(G_MSG); size_t l = 3; int r = dil_sig(sg, &l, m, n, sk); ev(2); if (r || l != DSIG || !eqb(sg, w, DSIG)) VIOL("dil-sign", "length %zu: returned %d, length %zu, %s (%u attempts, odd key %d)", n, r, l, r ? "-" : "signature differs from the algorithm", e.attempts, odd);
    h_defined(sg, DSIG);
    /* combined, separate and shared buffers */
    memcpy(w + DSIG, m, n); u8 *sm = gb(G_A, n + DSIG); l = 3; r = dil_sign(sm, &l, m, n, sk); ev(1); if (r || l != DSIG + n || !eqb(sm, w, DSIG + n)) VIOL("dil-sign", "combined, length %zu: returned %d, length %zu", n, r, l);
    gb_rw(G_SK); gb_rw(G_MSG);
    u8 *sh = gb(G_B, n + DSIG); memcpy(sh, m, n); l = 3; r = dil_sign(sh, &l, sh, n, sk); ev(1); if (r || l != DSIG + n || !eqb(sh, w, DSIG + n)) VIOL("dil-shared-buffer", "signing in place, length %zu: returned %d, length %zu, %s", n, r, l, eqb(sh, w, DSIG + n) ? "right" : "wrong bytes");
    if (odd) { nontriv(h_hash(w, DSIG)); continue; }
    u8 *pk = gb_dup(G_PK, k->pk + 32, 1312); gb_ro(G_PK); r = dil_verify(gb_dup(G_SM, w, DSIG), DSIG, m, n, pk); ev(1); if (r) VIOL("dil-verify", "length %zu: genuine signature gives %d", n, r);
    u8 *sm2 = gb_dup(G_A, w, n + DSIG), *mo = gb(G_OUT, n + DSIG); gb_ro(G_A); l = 3; r = dil_open(mo, &l, sm2, n + DSIG, pk); gb_rw(G_A); ev(1); if (r || l != n || !eqb(mo, m, n)) VIOL("dil-open", "length %zu: genuine signed message gives %d, length %zu", n, r, l);
    l = 3; r = dil_open(sm2, &l, sm2, n + DSIG, pk); ev(1); if (r || l != n || !eqb(sm2, m, n)) VIOL("dil-shared-buffer", "opening in place, length %zu: %d, length %zu", n, r, l);
    gb_rw(G_PK); gb_check("dilithium"); set_add("dil_lengths", "%zu", n < 300 ? n : 300); nontriv(h_hash(w, DSIG));
    /* acceptance = that of the algorithm, on edited signatures, messages, keys and lengths */
    for (int q = 0; q < 10; q++) { memcpy(o, w, DSIG + n); u8 p2[1312]; memcpy(p2, k->pk + 32, 1312); dil_edit(o, (int)rn(14)); if (q == 8) { memcpy(o, w, DSIG); p2[rn(1312)] ^= (u8)(1u << rn(8)); } if (q == 9) { memcpy(o, w, DSIG); if (n) o[DSIG + rn((uint32_t)n)] ^= 1; } int acc = ref_dil_verify(o, o + DSIG, n, p2, 0); r = dil_verify(o, DSIG, o + DSIG, n, p2); ev(1); if ((r == 0) != acc) VIOL("dil-acceptance", "length %zu: the library says %d, the algorithm %s", n, r, acc ? "accepts" : "rejects"); l = 3; r = dil_open(w + 70000, &l, o, n + DSIG, p2); ev(1); if ((r == 0) != acc) VIOL("dil-acceptance", "open, length %zu: the library says %d, the algorithm %s", n, r, acc ? "accepts" : "rejects"); }
    { static const long d[] = {-1, 1, -2420, 2, 64}; size_t bad = (size_t)((long)DSIG + d[rn(5)]); memcpy(o, w, DSIG); memset(o + DSIG, 0, 100); r = dil_verify(o, bad, m, n, k->pk + 32); ev(1); if (!r) VIOL("dil-verify", "signature length %zu accepted", bad); for (int q = 0; q < 4; q++) { size_t sl = rn(DSIG); l = 3; r = dil_open(w + 70000, &l, o, sl, k->pk + 32); ev(1); if (!r) VIOL("dil-open", "signed message of %zu bytes accepted", sl); } }
  }
  /* near misses: made with the secret key so that the last comparison differs in a few bits only */
  CASES("near-ed", i, 256 * h_count(2, 16)) {
    const h_key *k = h_getkey(rn(12)); size_t n = i < 300 ? (size_t)i : rn(5000); u8 *m = gb(G_MSG, n), x[32] = {0}; if (n) rpat(m, n); x[i % 256 / 8] = (u8)(1u << (i % 8));
    for (int t = 0; t < 3; t++) { /* the genuine R, one with a zero byte early, or r chosen small */
      u8 r[32] = {0}; if (t == 2) { r[0] = (u8)(1 + rn(255)); r[rn(16)] = (u8)rn(256); } if (t == 1) { int q; for (q = 0; q < 60; q++) { rbytes(r, 31); r[31] = 0; ref_ed_sign_ex(w, m, n, k->sk, r, NULL, NULL); if (memchr(w, 0, 16)) break; } if (q < 60) stat_add("near_miss_with_zero_byte", 1); }
      ref_ed_sign_ex(w, m, n, k->sk, t ? r : NULL, NULL, x); memcpy(w + 64, m, n); ull l = 5; int a = crypto_sign_ed25519_open(o, &l, w, n + 64, k->pk); ev(1); if (!a) VIOL("ed-near-miss", "length %zu: R off by bit %ld accepted (%d)", n, i % 256, t); nontriv(h_hash(w, 64)); stat_add("near_miss_ed25519", 1); }
  }
  CASES("near-dil", i, 256 * h_count(1, 16) + 32) {
    const h_key *k = h_getkey(rn(12)); size_t n = i < 256 ? (size_t)i % 130 : 1 + rn(64); u8 *m = gb(G_MSG, n), x[32] = {0}, rnd[32]; if (n) rpat(m, n); int z0 = i < 32 ? (int)i : -1, at = (int)(i % 256) / 8; /* the first 32: the challenge has a zero byte before the difference */
    if (z0 >= 0) { int q; if (z0 == 31) z0 = 30; at = z0 + 1 + (int)rn((uint32_t)(31 - z0)); x[at] = (u8)(1 + rn(255)); for (q = 0; q < 1500; q++) { rbytes(rnd, 32); ref_dil_opts op = {.rnd = rnd, .ctxor = x}; ref_dil_sign(w, m, n, k->sk + 64, &op, NULL); if (w[z0] == 0) break; if (z0 > 3 && memchr(w, 0, (size_t)z0 + 1)) break; } if (q < 1500) stat_add("near_miss_with_zero_byte", 1); }
    else { x[at] = (u8)(1u << (i % 8)); ref_dil_opts op = {.ctxor = x}; ref_dil_sign(w, m, n, k->sk + 64, &op, NULL); }
    memcpy(w + DSIG, m, n); size_t l = 3; ev(3); if (!dil_verify(w, DSIG, m, n, k->pk + 32)) VIOL("dil-near-miss", "verify, length %zu: challenge off at byte %d accepted", n, at); if (!dil_open(o, &l, w, DSIG + n, k->pk + 32)) VIOL("dil-near-miss", "open, length %zu: challenge off at byte %d accepted", n, at);
    if (!crypto_verify_dilithium(m, n, w, DSIG, k->pk + 32)) VIOL("dil-near-miss", "crypto_verify_dilithium, length %zu: challenge off at byte %d accepted", n, at); nontriv(h_hash(w, DSIG)); stat_add("near_miss_dilithium", 1);
  }
  CASES("near-spx", i, h_count(64, 512)) {
    size_t n = rn(200); u8 ssk[128], pk[64], sd[96], opt[32], *m = gb(G_MSG, n); if (n) rpat(m, n); rbytes(opt, 32); int at = (int)(i % 32); memcpy(ssk, h_getkey(rn(12))->sk + 3936, 128);
    if (i % 4 == 3) for (int q = 0; q < 200; q++) { rbytes(sd, 96); ref_spx_keypair(pk, ssk, sd); u8 *z = memchr(ssk + 96, 0, 24); if (z) { int zp = (int)(z - ssk) - 96; at = zp + 1 + (int)rn((uint32_t)(31 - zp)); stat_add("near_miss_with_zero_byte", 1); break; } }
    ssk[96 + at] ^= (u8)(1u << rn(8)); memcpy(pk, ssk + 64, 64); ref_spx_sign(w, m, n, ssk, opt); memcpy(w + SSIG, m, n); size_t l = 3; ev(2);
    if (!spx_verify(w, SSIG, m, n, pk)) VIOL("spx-near-miss", "verify, length %zu: root off at byte %d accepted", n, at); if (!spx_open(o, &l, w, SSIG + n, pk)) VIOL("spx-near-miss", "open, length %zu: root off at byte %d accepted", n, at); nontriv(h_hash(w, 64)); stat_add("near_miss_sphincs", 1); set_add("near_spx_bytes", "%d", at);
  }
  /* a key with t = 0 gives valid signatures without any hint: the empty hint block has one encoding too */
  CASES("dil-no-hints", i, h_count(60, 1000)) {
    size_t n = i < 64 ? 1 + (size_t)i : rn(300); u8 pk[1312], sk[2560], *m = gb(G_MSG, n); if (n) rpat(m, n); gen_dil_weak(pk, sk); ref_dil_ev e; ref_dil_sign(w, m, n, sk, NULL, &e); size_t l = 3; int r = dil_sig(o, &l, m, n, sk); ev(2); if (r || l != DSIG || !eqb(o, w, DSIG)) VIOL("dil-sign", "key with t = 0, length %zu: %d, signature differs from the algorithm", n, r);
    r = dil_verify(w, DSIG, m, n, pk); if (r) VIOL("dil-verify", "key with t = 0: genuine signature gives %d", r); u8 *hp = w + 2336; if (e.hints == 0) stat_add("signatures_without_hints", 1);
    for (int q = 0; q < 84; q++) { memcpy(o, w, DSIG); o[2336 + q] = (u8)(rn(2) ? 1 : 1 + rn(255)); int acc = ref_dil_verify(o, m, n, pk, 0); r = dil_verify(o, DSIG, m, n, pk); ev(1); if ((r == 0) != acc) VIOL("dil-acceptance", "hint block byte %d of a signature with %u hints set to %u: %d, the algorithm %s", q, hp[83], o[2336 + q], r, acc ? "accepts" : "rejects"); } nontriv(h_hash(w, DSIG));
  }
  /* hedged signatures of another signer must be accepted, whatever the message length */
  CASES("dil-foreign", i, h_count(240, 8000)) { size_t n = rn(900); const h_key *k = h_getkey((unsigned)i % 12); u8 rnd[32]; rbytes(rnd, 32); u8 *m = gb(G_MSG, n); if (n) rpat(m, n); ref_dil_opts op = {.rnd = rnd, .min_z = i % 4 == 0 ? 131072 - 78 - 3 : 0, .max_attempts = 600}; if (ref_dil_sign(w, m, n, k->sk + 64, &op, NULL)) continue; int r = dil_verify(w, DSIG, m, n, k->pk + 32); ev(1); nontriv(h_hash(w, DSIG)); if (r) VIOL("dil-verify", "valid signature of another signer, length %zu, gives %d", n, r); stat_add("foreign_dilithium", 1); }
  CASES("verify_dilithium", i, h_count(400, 8000)) {
    size_t n = 1 + (size_t)i % 64; const h_key *k = h_getkey((unsigned)i % 12); u8 *m = gb(G_MSG, n); rpat(m, n); ref_dil_sign(w, m, n, k->sk + 64, NULL, NULL); u8 *sg = gb_dup(G_SM, w, DSIG), *pk = gb_dup(G_PK, k->pk + 32, 1312); gb_ro(G_SM); gb_ro(G_PK); gb_ro(G_MSG); int r = crypto_verify_dilithium(m, n, sg, DSIG, pk); ev(1); if (r) VIOL("verify_dilithium", "message length %zu: genuine signature gives %d", n, r); set_add("vd_lengths", "%zu", n);
    for (size_t q = 0; q <= 64; q++) if (q != n) { u8 mm[64] = {0}; memcpy(mm, m, n); r = crypto_verify_dilithium(mm, q, sg, DSIG, pk); ev(1); if (!r) VIOL("verify_dilithium", "message length %zu accepted as %zu", n, q); } gb_rw(G_SM); gb_rw(G_PK); gb_rw(G_MSG);
    for (int q = 0; q < 14; q++) { memcpy(o, w, DSIG); dil_edit(o, q); int acc = ref_dil_verify(o, m, n, k->pk + 32, 0); r = crypto_verify_dilithium(m, n, o, DSIG, k->pk + 32); ev(1); if ((r == 0) != acc) VIOL("verify_dilithium", "edit %d: %d, the algorithm %s", q, r, acc ? "accepts" : "rejects"); }
    memcpy(o, w, DSIG); memset(o + DSIG, 0, 200); static const int d[] = {-2420, -1, 1, 64, 128}; for (int q = 0; q < 5; q++) { r = crypto_verify_dilithium(m, n, o, (ull)(DSIG + d[q]), k->pk + 32); ev(1); if (!r) VIOL("verify_dilithium", "signature length %d accepted", DSIG + d[q]); } nontriv(h_hash(w, DSIG));
  }
  CASES("rare", i, NRARE) {
    const rare_entry *e = &rare_list[i]; const rkey *k = rare_key(e->key); u8 m[64], nonce[40], h[64]; unsigned n = rare_input(m, nonce, e->key, e->ctr); ref_compact_digest(h, nonce, m, n, k->sk + 4000); ref_dil_sign(w, h, 64, k->sk + 64, NULL, NULL); size_t l = 3; int r = dil_sig(o, &l, h, 64, k->sk + 64); ev(1); if (r || l != DSIG || !eqb(o, w, DSIG)) VIOL("dil-sign", "rare input %u/%u (%s): returned %d, signature differs from the algorithm", e->key, e->ctr, e->why, r);
    if (e->key < RARE_KEYS) { r = dil_verify(w, DSIG, h, 64, k->pk + 32); ev(1); if (r) VIOL("dil-verify", "rare input %u/%u (%s): genuine signature gives %d", e->key, e->ctr, e->why, r); for (int q = 0; q < 4; q++) { memcpy(o, w, DSIG); dil_edit(o, 1 + (int)rn(5)); int acc = ref_dil_verify(o, h, 64, k->pk + 32, 0); r = dil_verify(o, DSIG, h, 64, k->pk + 32); ev(1); if ((r == 0) != acc) VIOL("dil-verify", "edited rare input %u/%u: %d, the algorithm %s", e->key, e->ctr, r, acc ? "accepts" : "rejects"); } }
    nontriv(h_hash(w, DSIG)); rare_note(e->why);
  }
  CASES("rare-keys", i, NRAREK) { u8 s[32], pk[1312], sk[2560], wp[1312], ws[2560]; rare_dilseed(s, rare_keys[i].ctr); ref_dil_keypair(wp, ws, s); int r = dil_keypair_seed(pk, sk, s); ev(1); if (r || !eqb(pk, wp, 1312) || !eqb(sk, ws, 2560)) VIOL("dil-keys", "seed %s (%s)", hex(s, 32), rare_keys[i].why); nontriv(h_hash(s, 32)); rare_note(rare_keys[i].why); }
  /* SPHINCS+: signatures byte for byte with scripted randomiser, lengths around the hash blocks */
  CASES("sphincs", i, h_count(96, 1600)) {
    size_t n = i < 8 ? (size_t)i : i < 8 + NEDGE - 1 ? edge_len[(i * 5) % NEDGE] : rn(3000); unsigned key = (unsigned)i % 3; const u8 *ssk = h_getkey(key)->sk + 3936, *spk = h_getkey(key)->pk + 1344; u8 *sk = gb_dup(G_SK, ssk, 128), *m = gb(G_MSG, n), *sg = gb(G_SM, SSIG), opt[32]; if (n) rpat(m, n); if (n && n <= 300) gen_optrand(opt, m, (unsigned)n, ssk, (int)i); else rbytes(opt, 32); ent_script(1, opt, 32); gb_ro(G_SK); gb_ro(G_MSG); size_t l = 3;
    int r = spx_sig(sg, &l, m, n, sk); size_t used = ent.pos; wd_arm(); ref_spx_sign(w, m, n, ssk, opt); ev(2); if (r || l != SSIG || used != 32) VIOL("spx-sign", "length %zu: returned %d, length %zu, drew %zu", n, r, l, used); else if (!eqb(sg, w, SSIG)) { size_t q = 0; while (sg[q] == w[q]) q++; VIOL("spx-sign", "length %zu: signature differs from the algorithm at byte %zu", n, q); } h_defined(sg, SSIG);
    u8 *pk = gb_dup(G_PK, spk, 64); gb_ro(G_PK); u8 *s2 = gb_dup(G_SM, w, SSIG); gb_ro(G_SM); r = spx_verify(s2, SSIG, m, n, pk); ev(1); if (r) VIOL("spx-verify", "length %zu: genuine signature gives %d", n, r); gb_rw(G_SM);
    memcpy(w + SSIG, m, n); u8 *sm = gb(G_A, SSIG + n); if (i % 4 == 0) { ent_script(1, opt, 32); l = 3; r = spx_sign(sm, &l, m, n, sk); ev(1); if (r || l != SSIG + n || !eqb(sm, w, SSIG + n)) VIOL("spx-sign", "combined, length %zu: returned %d, length %zu", n, r, l); }
    memcpy(sm, w, SSIG + n); gb_ro(G_A); u8 *mo = gb(G_OUT, n); l = 3; r = spx_open(mo, &l, sm, SSIG + n, pk); gb_rw(G_A); ev(1); if (r || l != n || !eqb(mo, m, n)) VIOL("spx-open", "length %zu: genuine signed message gives %d, length %zu", n, r, l);
    gb_rw(G_SK); gb_rw(G_MSG); gb_rw(G_PK); gb_check("sphincs"); set_add("spx_lengths", "%zu", n); nontriv(h_hash(w, 64));
    for (int q = 0; q < 5; q++) { memcpy(o, w, SSIG + n); u8 p2[64]; memcpy(p2, spk, 64); size_t ln = n; if (q == 0) o[rn(SSIG)] ^= (u8)(1u << rn(8)); else if (q == 1) { if (n) o[SSIG + rn((uint32_t)n)] ^= (u8)(1u << rn(8)); else o[3] ^= 1; } else if (q == 2) p2[rn(64)] ^= (u8)(1u << rn(8)); else if (q == 3) { if (n) ln--; else o[SSIG + ln++] = 0; } else o[SSIG + ln++] = 0; l = 3; r = spx_open(w + 60000, &l, o, SSIG + ln, p2); ev(1); if (!r) VIOL("spx-open", "length %zu: modified input accepted (%d)", n, q); r = spx_verify(o, SSIG, o + SSIG, ln, p2); ev(1); if (!r) VIOL("spx-verify", "length %zu: modified input accepted (%d)", n, q); }
    { static const long d[] = {-1, 1, -49856, 32}; size_t bad = (size_t)((long)SSIG + d[rn(4)]); memcpy(o, w, SSIG + n); r = spx_verify(o, bad, m, n, spk); ev(1); if (!r) VIOL("spx-verify", "signature length %zu accepted", bad); l = 3; r = spx_open(w + 60000, &l, o, rn(SSIG), spk); ev(1); if (!r) VIOL("spx-open", "short signed message accepted"); }
  }
  /* keys of the components */
  /* many short messages: rare carries of the scalar arithmetic */
  CASES("ed25519-bulk", i, h_count(500, 8000)) { const h_key *k = h_getkey((unsigned)i % H_NKEYS); u8 sd[32], pk[32], sk[64], bm[96], bs[160], bw[160], bo[160]; ull l; if (i & 1) { rpat(sd, 32); ref_ed_keypair(pk, sk, sd); } else { memcpy(pk, k->pk, 32); memcpy(sk, k->sk, 64); }
    for (int q = 0; q < 16; q++) { size_t n = rn(40); rpat(bm, n); l = 0; int r = crypto_sign_ed25519(bs, &l, bm, n, sk); ref_ed_sign(bw, bm, n, sk); memcpy(bw + 64, bm, n); ev(1); if (r || l != n + 64 || !eqb(bs, bw, n + 64)) VIOL("ed-sign", "length %zu: signature differs from RFC 8032 (message %s)", n, hex(bm, n)); if (q % 4 == 0) { l = 9; r = crypto_sign_ed25519_open(bo, &l, bw, n + 64, pk); ev(1); if (r || l != n || !eqb(bo, bm, n)) VIOL("ed-open", "length %zu: genuine signature gives %d", n, r); } }
    stat_add("ed25519_bulk", 16); nontriv(h_hash(bs, 64)); }
  CASES("keys", i, h_count(48, 2000)) { u8 s[96], pk[1312], sk[2560], wp[1312], ws[2560]; rpat(s, 96); crypto_sign_keypair_seed(pk, sk, s); ref_ed_keypair(wp, ws, s); ev(3); if (!eqb(pk, wp, 32) || !eqb(sk, ws, 64)) VIOL("ed-keys", "seed %s", hex(s, 32)); if (dil_keypair_seed(pk, sk, s) || (ref_dil_keypair(wp, ws, s), !eqb(pk, wp, 1312) || !eqb(sk, ws, 2560))) VIOL("dil-keys", "seed %s", hex(s, 32)); if (spx_keypair_seed(pk, sk, s) || (ref_spx_keypair(wp, ws, s), !eqb(pk, wp, 64) || !eqb(sk, ws, 128))) VIOL("spx-keys", "seed %s", hex(s, 96)); nontriv(h_hash(s, 96)); }
  /* message lengths beyond 2^31 and 2^32 (zero pages); the model's signatures are in huge_kat.h */
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_VG)
  CASES("huge", i, h_scale < 0.9 ? 0 : 6) {
    size_t N = i < 4 ? HUGE_N : HUGE_ED; u8 *z = mmap(NULL, N + DSIG, i == 4 || i == 1 ? PROT_READ | PROT_WRITE : PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *out = NULL; if (z == MAP_FAILED) { stat_add("huge_skipped", 1); continue; } madvise(z, N + DSIG, MADV_NOHUGEPAGE);
    const rkey *k = rare_key(0); u8 opt[32], hh[32]; memset(opt, 0x5a, 32); ent_script(1, opt, 32); size_t l = 3; ull ul = 3; int r; wd_long(400);
    if (i >= 4 || i < 2) { out = mmap(NULL, N + DSIG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (out == MAP_FAILED) { munmap(z, N + DSIG); stat_add("huge_skipped", 1); continue; } }
    switch (i) {
      case 0: memset(out + DSIG, 1, 4096); memset(out + N + DSIG - 64, 1, 64); r = dil_sign(out, &l, z, N, k->sk + 64); ev(1); if (r || l != DSIG + N || !eqb(out, huge_dil, DSIG)) VIOL("dil-sign", "length %zu: returned %d, length %zu, signature %s the algorithm's", N, r, l, eqb(out, huge_dil, DSIG) ? "is" : "differs from"); else for (size_t q = DSIG; q < N + DSIG; q += q < 8192 || q > N ? 1 : 4097) if (out[q]) { VIOL("dil-sign", "length %zu: message byte %zu not copied", N, q - DSIG); break; } break;
      case 1: memcpy(z, huge_dil, DSIG); memset(out, 1, 4096); memset(out + N - 64, 1, 64); r = dil_open(out, &l, z, N + DSIG, k->pk + 32); ev(1); if (r || l != N) VIOL("dil-open", "length %zu: genuine signature gives %d, length %zu", N, r, l); else for (size_t q = 0; q < N; q += q < 8192 || q > N - 70 ? 1 : 4097) if (out[q]) { VIOL("dil-open", "length %zu: message byte %zu not copied", N, q); break; } break;
      case 2: r = spx_sig(o, &l, z, N, k->sk + 3936); ref_shake256(hh, 32, o, SSIG); ev(1); if (r || l != SSIG || !eqb(hh, huge_spx_shake, 32)) VIOL("spx-sign", "length %zu: returned %d, signature differs from the algorithm", N, r); break;
      case 3: { /* the model signs the long message: its own head comes from huge_kat.h */ memcpy(o, huge_spx_head, 64); r = spx_sig(w, &l, z, N, k->sk + 3936); wd_long(400); ref_shake256(hh, 32, w, SSIG); if (r || !eqb(hh, huge_spx_shake, 32)) { stat_add("huge_spx_unsigned", 1); break; } r = spx_verify(w, SSIG, z, N, k->pk + 1344); ev(1); if (r) VIOL("spx-verify", "length %zu: genuine signature gives %d", N, r); } break;
      case 4: memcpy(z, huge_ed, 64); r = crypto_sign_ed25519_open(out, &ul, z, N + 64, k->pk); ev(1); if (r || ul != N) VIOL("ed-open", "length %zu: genuine signature gives %d, length %llu", N, r, ul); else for (size_t q = 0; q < N; q += 4096 + 1) if (out[q]) { VIOL("ed-open", "length %zu: message byte %zu wrong", N, q); break; } break;
      default: memset(out + 64, 1, 4096); memset(out + N, 1, 64); r = crypto_sign_ed25519(out, &ul, z, N, k->sk); ev(1); if (r || ul != N + 64 || !eqb(out, huge_ed, 64)) VIOL("ed-sign", "length %zu: returned %d, length %llu, signature %s RFC 8032", N, r, ul, eqb(out, huge_ed, 64) ? "as in" : "differs from"); else if (out[64] || out[N + 63]) VIOL("ed-sign", "length %zu: message not copied", N);
    }
    stat_add("huge_messages", 1); nontriv(N + (uint64_t)i); munmap(z, N + DSIG); if (out) munmap(out, N + DSIG); wd_long(400);
  }
#endif
}
