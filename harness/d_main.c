/* C01 round trip, C08 byte-exactness and interoperability */
#include "gen.h"
#include "rare_use.h"

typedef struct { u8 seed[160], pk[PKB], sk[SKB]; int ok; } lkey;
#define NLK 20
static lkey *libkey(unsigned i) { /* key pairs made by the library itself */
  static lkey *k[NLK]; i %= NLK;
  if (!k[i]) { h_rng sv = R; r_seed(h_seed, 0x6c6b0000 + i); k[i] = calloc(1, sizeof **k); if (i < 10) rbytes(k[i]->seed, 160); else rpat(k[i]->seed, 160);
    u8 s[160]; memcpy(s, k[i]->seed, 160); k[i]->ok = hy_keypair_seed(k[i]->pk, k[i]->sk, s) == 0; R = sv; }
  return k[i];
}
static void mode_roundtrip(int full, const u8 *m, unsigned n, const u8 *pk, const u8 *sk, const char *what) {
  static u8 sm[FULLMAX + 64], out[FULLMAX]; ull sl = 0x1234567890ULL, ml = 0x77777;
  memset(out, 0xEE, sizeof out);
  int r = full ? hy_fsign(sm, &sl, m, n, sk) : hy_csign(sm, &sl, m, n, sk);
  ev(1); if (r) { VIOL("sign-failed", "%s %s sign of %u bytes %s returned %d", what, full ? "full" : "compact", n, hex(m, n), r); return; }
  if (sl != (full ? FULL(n) : COMPACT(n))) { VIOL("sign-length", "%s %s signature of %u-byte message has length %llu", what, full ? "full" : "compact", n, sl); return; }
  r = full ? hy_fopen(out, &ml, sm, sl, pk) : hy_copen(out, &ml, sm, sl, pk);
  ev(1); if (r) VIOL("open-rejects-honest", "%s %s open returned %d for message %s nonce/opt %s", what, full ? "full" : "compact", r, hex(m, n), hex(sm + (full ? 66 + n + DSIG : 2486), 40));
  else { ev(1); if (ml != n || !eqb(out, m, n)) VIOL("open-wrong-message", "%s %s open gave %llu bytes %s, signed %s", what, full ? "full" : "compact", ml, hex(out, ml > 64 ? 64 : ml), hex(m, n)); }
  r = full ? hy_fverify(m, n, sm, sl, pk) : hy_cverify(m, n, sm, sl, pk);
  ev(1); if (r) VIOL("verify-rejects-honest", "%s %s verify returned %d for message %s", what, full ? "full" : "compact", r, hex(m, n));
  set_add(full ? "full_message_lengths" : "compact_message_lengths", "%u", n);
}
void drv_C01(void) {
  u8 m[64], nonce[72];
  CASES("compact", i, h_count(5000, 80000)) {
    unsigned n = 1 + (unsigned)((i / 8) % 64); lkey *k = libkey(rn(NLK)); int c = rpat(m, n);
    if (!k->ok) { VIOL("keygen-failed", "seeded key generation failed for seed %s", hex(k->seed, 160)); continue; }
    gen_nonce(nonce, m, n, k->sk, 6); ent_script(r64(), nonce, 40);
    mode_roundtrip(0, m, n, k->pk, k->sk, "seeded key"); nontriv(h_hash(nonce, 40) ^ h_hash(m, n)); set_add("message_pattern", "%d", c);
    if (i < 8) sample("compact n=%u m=%s nonce=%s", n, hex(m, n), hex(nonce, 40));
  }
  CASES("full", i, h_count(160, 3000)) {
    unsigned n = 1 + (unsigned)((i / 8 + 3 * i) % 64); lkey *k = libkey(rn(NLK)); rpat(m, n); u8 opt[32], sig[DSIG];
    if (!k->ok) continue;
    ref_dil_ev e, be; int bs = -1; u8 bm[64]; /* message with the rarest Dilithium behaviour */
    for (int t = 0; t < 12; t++) { ref_dil_opts o = {.max_attempts = 400}; if (t) rbytes(m, n); if (ref_dil_sign(sig, m, n, k->sk + 64, &o, &e)) continue; if (dil_rarity(&e) > bs) { bs = dil_rarity(&e); memcpy(bm, m, n); be = e; } }
    if (bs >= 0) { memcpy(m, bm, n); dil_observe(&be); }
    gen_optrand(opt, m, n, k->sk + 3936, (int)i); ent_script(r64(), opt, 32);
    mode_roundtrip(1, m, n, k->pk, k->sk, "seeded key"); nontriv(h_hash(opt, 32) ^ h_hash(m, n));
    if (i < 8) sample("full n=%u m=%s optrand=%s", n, hex(m, n), hex(opt, 32));
  }
  /* inputs on which a slightly wrong comparison in Dilithium shows */
  CASES("rare", i, NRARE) {
    const rare_entry *e = &rare_list[i]; if (e->key >= RARE_KEYS) continue; static lkey *rk[RARE_KEYS]; lkey **k = &rk[e->key]; if (!*k) { *k = calloc(1, sizeof **k); rare_keyseed((*k)->seed, e->key); u8 s[160]; memcpy(s, (*k)->seed, 160); (*k)->ok = hy_keypair_seed((*k)->pk, (*k)->sk, s) == 0; }
    if (!(*k)->ok) { VIOL("keygen-failed", "seeded key generation failed for seed %s", hex((*k)->seed, 160)); continue; }
    unsigned n = rare_input(m, nonce, e->key, e->ctr); ent_script(r64(), nonce, 40); mode_roundtrip(0, m, n, (*k)->pk, (*k)->sk, "rare input"); nontriv(h_hash(nonce, 40)); rare_note(e->why);
    if (i % (h_thorough ? 1 : 4) == 0) { u8 h[64], opt[32]; ref_compact_digest(h, nonce, m, n, (*k)->sk + 4000); rbytes(opt, 32); ent_script(r64(), opt, 32); mode_roundtrip(1, h, 64, (*k)->pk, (*k)->sk, "rare input"); }
  }
  CASES("random-key", i, h_count(240, 4000)) {
    static u8 pk[PKB], sk[SKB]; unsigned n = 1 + (unsigned)(i % 64); rpat(m, n);
    int r = hy_keypair(pk, sk); ev(1); if (r) { VIOL("keygen-failed", "random key generation returned %d", r); continue; }
    for (int t = 0; t < 3; t++) mode_roundtrip(0, m, n, pk, sk, "random key");
    if (i % 30 == 0) mode_roundtrip(1, m, n, pk, sk, "random key");
    nontriv(h_hash(pk, PKB));
  }
  CASES("expanded-key", i, h_count(60, 1000)) {
    static u8 pk[PKB], sk[SKB]; u8 s96[96], s160[160]; rpat(s96, 96); unsigned n = 1 + rn(64); rpat(m, n);
    ev(1); if (hy_expand(s96, s160) || hy_keypair_seed(pk, sk, s160)) { VIOL("keygen-failed", "key generation from expanded seed %s failed", hex(s96, 96)); continue; }
    mode_roundtrip(0, m, n, pk, sk, "expanded-seed key"); nontriv(h_hash(pk, PKB));
  }
}

static void cmp(const char *key, const char *what, const u8 *got, const u8 *want, size_t n) {
  ev(1); if (eqb(got, want, n)) return;
  size_t i = 0; while (got[i] == want[i]) i++;
  VIOL(key, "%s differs from the specification first at byte %zu of %zu: got %s want %s", what, i, n, hex(got + i, n - i > 16 ? 16 : n - i), hex(want + i, n - i > 16 ? 16 : n - i));
}
void drv_C08(void) {
  static u8 pk[PKB], sk[SKB], rpk[PKB], rsk[SKB], sm[FULLMAX], rsm[FULLMAX], out[FULLMAX]; u8 seed[160], m[64], nonce[40], opt[32]; ull sl, ml;
  CASES("keygen", i, h_count(500, 8000)) {
    rpat(seed, 160); if (i % 3 == 0) { rpat(seed, 32); rpat(seed + 32, 32); rpat(seed + 64, 96); }
    ref_hybrid_keypair(rpk, rsk, seed); memset(pk, 0, PKB); memset(sk, 0, SKB); int r = hy_keypair_seed(pk, sk, seed);
    ev(1); if (r) VIOL("keygen-failed", "seed %s returned %d", hex(seed, 160), r);
    cmp("pk-bytes", "public key", pk, rpk, PKB); cmp("sk-bytes", "secret key", sk, rsk, SKB); nontriv(h_hash(seed, 160));
    if (i < 8) sample("keygen seed=%s pk=%s", hex(seed, 160), hex(pk, PKB));
  }
  CASES("compact", i, h_count(2600, 40000)) {
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + (unsigned)((i / 8) % 64); rpat(m, n); gen_nonce(nonce, m, n, k->sk, 6);
    ref_compact_sign(rsm, m, n, k->sk, nonce, NULL); ent_script(r64(), nonce, 40); sl = 0; memset(sm, 0, COMPACTMAX);
    int r = hy_csign(sm, &sl, m, n, k->sk); ev(1); if (r) { VIOL("sign-failed", "compact sign returned %d", r); continue; }
    ev(1); if (sl != COMPACT(n)) VIOL("length", "compact signature length %llu for %u-byte message", sl, n);
    cmp("compact-bytes", "compact signature", sm, rsm, COMPACT(n)); nontriv(h_hash(nonce, 40) ^ h_hash(m, n)); set_add("compact_message_lengths", "%u", n);
    if (i < 8) sample("compact n=%u m=%s nonce=%s -> %s", n, hex(m, n), hex(nonce, 40), hex(sm, COMPACT(n)));
  }
  CASES("full", i, h_count(144, 3000)) {
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + (unsigned)((i / 8 + 5 * i) % 64); rpat(m, n); gen_optrand(opt, m, n, k->sk + 3936, (int)i);
    ref_dil_ev e; ref_full_sign(rsm, m, n, k->sk, opt, &e); dil_observe(&e); ent_script(r64(), opt, 32); sl = 0; memset(sm, 0, sizeof sm);
    int r = hy_fsign(sm, &sl, m, n, k->sk); ev(1); if (r) { VIOL("sign-failed", "full sign returned %d", r); continue; }
    ev(1); if (sl != FULL(n)) VIOL("length", "full signature length %llu for %u-byte message", sl, n);
    cmp("full-bytes", "full signature", sm, rsm, FULL(n)); nontriv(h_hash(opt, 32) ^ h_hash(m, n)); set_add("full_message_lengths", "%u", n);
  }
  /* signatures of an independent, hedged signer must be accepted */
  CASES("interop-compact", i, h_count(1500, 30000)) {
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + (unsigned)((i / 8) % 64); rpat(m, n); rpat(nonce, 40); u8 h[64], r1[32], r2[32]; rpat(r1, 32); rbytes(r2, 32); r2[0] |= 1;
    ref_compact_digest(h, nonce, m, n, k->pk + 1344); sm[0] = 1; sm[1] = (u8)n; ref_ed_sign_ex(sm + 2, h, 64, k->sk, r2, NULL, NULL);
    ref_dil_opts o = {.rnd = r1}; ref_dil_ev e;
    if (i % 4 == 1) { o.fz_on = 1; o.fz_poly = (int)rn(4); o.fz_idx = (int)rn(256); int s = rn(2) ? 1 : -1; o.fz_y = s * ((1 << 17) - 79); o.fz_lo = o.fz_hi = (1 << 17) - 79; } /* a z coefficient at the largest allowed value */
    ref_dil_sign(sm + 66, h, 64, k->sk + 64, &o, &e); if (o.fz_on) stat_add("interop_z_max_allowed", 1); set_add("dilithium_hint_weight", "%u", e.hints);
    memcpy(sm + 2486, nonce, 40); memcpy(sm + 2526, m, n); memset(out, 0, 64); ml = 0;
    int r = hy_copen(out, &ml, sm, COMPACT(n), k->pk); ev(2); if (r || ml != n || !eqb(out, m, n)) VIOL("interop-compact", "compact signature of an independent signer: open returned %d, length %llu (z_max %d hints %u)", r, ml, e.z_max, e.hints);
    r = hy_cverify(m, n, sm, COMPACT(n), k->pk); if (r) VIOL("interop-compact", "compact signature of an independent signer: verify returned %d", r);
    nontriv(h_hash(sm, COMPACT(n)));
  }
  CASES("interop-full", i, h_count(48, 1500)) {
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + (unsigned)((7 * i) % 64); rpat(m, n); u8 r1[32], r2[32]; rpat(r1, 32); rbytes(r2, 32); gen_optrand(opt, m, n, k->sk + 3936, (int)i + 3);
    sm[0] = 2; sm[1] = (u8)n; ref_ed_sign_ex(sm + 2, m, n, k->sk, r2, NULL, NULL); memcpy(sm + 66, m, n); ref_dil_opts o = {.rnd = r1};
    ref_dil_sign(sm + 66 + n, m, n, k->sk + 64, &o, NULL); ref_spx_sign(sm + 66 + n + DSIG, m, n, k->sk + 3936, opt); memset(out, 0, 64); ml = 0;
    int r = hy_fopen(out, &ml, sm, FULL(n), k->pk); ev(2); if (r || ml != n || !eqb(out, m, n)) VIOL("interop-full", "full signature of an independent signer: open returned %d, length %llu", r, ml);
    r = hy_fverify(m, n, sm, FULL(n), k->pk); if (r) VIOL("interop-full", "full signature of an independent signer: verify returned %d", r);
    nontriv(h_hash(sm, FULL(n)));
  }
  CASES("rare-keygen", i, NRAREK) {
    rpat(seed, 160); rare_dilseed(seed + 32, rare_keys[i].ctr); ref_hybrid_keypair(rpk, rsk, seed); int r = hy_keypair_seed(pk, sk, seed); ev(1); if (r) VIOL("keygen-failed", "seed %s returned %d", hex(seed, 160), r);
    cmp("pk-bytes", "public key", pk, rpk, PKB); cmp("sk-bytes", "secret key", sk, rsk, SKB); nontriv(h_hash(seed, 160)); rare_note(rare_keys[i].why);
  }
  CASES("rare", i, NRARE) {
    const rare_entry *e = &rare_list[i]; const rkey *k = rare_key(e->key); unsigned n = rare_input(m, nonce, e->key, e->ctr); u8 h[64]; ref_compact_digest(h, nonce, m, n, k->sk + 4000);
    ref_compact_sign(rsm, m, n, k->sk, nonce, NULL); ent_script(r64(), nonce, 40); sl = 0; int r = hy_csign(sm, &sl, m, n, k->sk); ev(1); if (r || sl != COMPACT(n)) VIOL("sign-failed", "compact sign returned %d, length %llu", r, sl); else cmp("compact-bytes", "compact signature", sm, rsm, COMPACT(n));
    if (e->key < RARE_KEYS) { ml = 0; r = hy_copen(out, &ml, rsm, COMPACT(n), k->pk); ev(1); if (r || ml != n || !eqb(out, m, n)) VIOL("interop-compact", "compact signature of the model (rare input %u/%u: %s) gives %d, length %llu", e->key, e->ctr, e->why, r, ml); }
    if (i % (h_thorough ? 1 : 6) == 0) { rbytes(opt, 32); ref_full_sign(rsm, h, 64, k->sk, opt, NULL); ent_script(r64(), opt, 32); sl = 0; r = hy_fsign(sm, &sl, h, 64, k->sk); ev(1); if (r || sl != FULL(64)) VIOL("sign-failed", "full sign returned %d, length %llu", r, sl); else cmp("full-bytes", "full signature", sm, rsm, FULL(64)); }
    nontriv(h_hash(nonce, 40)); rare_note(e->why);
  }
  /* unusual secret keys: many rejections, no hints, extreme coefficients */
  CASES("odd-key", i, h_count(320, 8000)) {
    const h_key *k = h_getkey(rn(12)); memcpy(rsk, k->sk, SKB); int cls = (int)(i % 5); gen_dil_sk(rsk + 64, k->sk + 64, cls); unsigned n = 1 + rn(64); rpat(m, n); u8 h[64], sig[DSIG]; ref_dil_ev e; int ok = 0;
    for (int t = 0; t < 20 && !ok; t++) { rbytes(nonce, 40); ref_compact_digest(h, nonce, m, n, rsk + 4000); ref_dil_opts o = {.max_attempts = 1500}; ok = ref_dil_sign(sig, h, 64, rsk + 64, &o, &e) == 0 && (cls != 3 || e.attempts > 64 || t > 8); }
    if (!ok) { stat_add("odd_key_skipped", 1); continue; }
    set_add("odd_key_attempts_log2", "%d", 31 - __builtin_clz(e.attempts)); set_add("odd_key_hint_weight", "%u", e.hints); stat_add(e.attempts > 64 ? "odd_key_over_64_attempts" : "odd_key_up_to_64_attempts", 1);
    ref_compact_sign(rsm, m, n, rsk, nonce, NULL); ent_script(r64(), nonce, 40); sl = 0;
    int r = hy_csign(sm, &sl, m, n, rsk); ev(1); if (r || sl != COMPACT(n)) { VIOL("sign-failed", "compact sign with unusual key returned %d", r); continue; }
    cmp("odd-key-bytes", "compact signature (unusual Dilithium key)", sm, rsm, COMPACT(n)); nontriv(h_hash(nonce, 40));
  }
}
