/* C06 hostile contents, lengths and chunkings in exact-size buffers; the sanitizers are the oracle, outputs must be initialised */
#include "hostile.h"
static ull *LEN(void) { return (ull *)gb(G_LEN, 8); }
static void seen(const char *what, int c, int r) { set_add("hostile_classes", "%s.%d", what, c); stat_add(r ? "rejected" : "accepted", 1); ev(1); }

void drv_C06(void) {
  static u8 tmp[FULLMAX + 8192]; u8 msg[64], nonce[40], opt[32];
  CASES("compact", i, h_count(2400, 200000)) {
    const h_key *k = h_getkey((unsigned)i); unsigned n = 1 + (unsigned)(i / 4 % 64); rpat(msg, 64); rpat(nonce, 40); ref_compact_sign(tmp, msg, n, k->sk, nonce, NULL);
    u8 pk[PKB]; memcpy(pk, k->pk, PKB); int cls = 20; ull L = COMPACT(n), dl = L;
    /* layout: id, len, ed25519 64, dilithium 2420, nonce 40 (position free), message */
    size_t dpos = 0; { u8 dig[64], ds[DSIG]; ref_compact_digest(dig, nonce, msg, n, k->sk + 4000); ref_dil_sign(ds, dig, 64, k->sk + 64, NULL, NULL); for (size_t q = 2; q + DSIG <= L; q++) if (!memcmp(tmp + q, ds, DSIG)) { dpos = q; break; } }
    switch (i % 6) { case 0: case 1: if (dpos) cls = hostile_dil(tmp + dpos); break; case 2: cls = 30 + hostile_pk(pk); if (rn(2) && dpos) hostile_dil(tmp + dpos); break; case 3: cls = 40 + mutate(tmp + 2, L - 2); break; case 4: cls = 50 + mutate(tmp, L); break; case 5: rbytes(tmp, L); tmp[0] = 1; tmp[1] = (u8)(rn(4) ? n : rn(256)); cls = 60; if (rn(3) == 0) dl = rn((uint32_t)L + 1); break; }
    u8 *sm = gb_dup(G_SM, tmp, dl), *p = gb_dup(G_PK, pk, PKB), *m = gb(G_M, 64), *vm = gb_dup(G_MSG, msg, n); ull *l = LEN(); int r = hy_copen(m, l, sm, dl, p); seen("compact-open", cls, r); if (!r) { h_defined(l, 8); h_defined(m, *l); } r = hy_cverify(vm, n, sm, dl, p); seen("compact-verify", cls, r); gb_check("compact open/verify"); nontriv(h_hash(tmp, dl) + h_hash(pk, PKB));
  }
  CASES("full", i, h_count(60, 6000)) {
    const h_key *k = h_getkey((unsigned)i % 3); unsigned n = 1 + rn(64); const u8 *mm; memcpy(tmp, h_fullsig((unsigned)i % 3, n, &mm), FULL(n)); memcpy(msg, mm, n); u8 pk[PKB]; memcpy(pk, k->pk, PKB); ull L = FULL(n), dl = L; int cls = 9; u8 *dp = tmp + 66 + n, *sp = dp + DSIG;
    switch (i % 7) { case 0: cls = mutate(sp, SSIG); break; case 1: rbytes(sp, SSIG); cls = 10; break; case 2: cls = 20 + hostile_dil(dp); break; case 3: cls = 30 + hostile_pk(pk); break; case 4: cls = 40 + mutate(tmp, L); break; case 5: rbytes(tmp, L); tmp[0] = 2; tmp[1] = (u8)n; cls = 50; break; case 6: dl = rn((uint32_t)L); cls = 60; break; }
    u8 *sm = gb_dup(G_SM, tmp, dl), *p = gb_dup(G_PK, pk, PKB), *m = gb(G_M, 64), *vm = gb_dup(G_MSG, msg, n); ull *l = LEN(); int r = hy_fopen(m, l, sm, dl, p); seen("full-open", cls, r); if (!r) { h_defined(l, 8); h_defined(m, *l); } if (i % 3 == 0) { r = hy_fverify(vm, n, sm, dl, p); seen("full-verify", cls, r); } gb_check("full open/verify"); nontriv(h_hash(tmp, dl) + h_hash(pk, PKB));
  }
  /* declared lengths far below anything valid, in buffers that end exactly there: every length up to 200, then around each field boundary */
  CASES("short", i, 4 * 260) {
    static const unsigned near_[] = {2420, 2486, 2526, 2560, 49856, 52276, 52342, 106}; unsigned q = (unsigned)(i / 4), dl = q <= 200 ? q : near_[(q - 201) % 8] + (q - 201) / 8 % 8 - 4; int mode = (int)(i % 4); const h_key *k = h_getkey(0); const u8 *mm; const u8 *fs = h_fullsig(0, 64, &mm);
    if (mode & 1) memcpy(tmp, fs, FULL(64)); else { rbytes(nonce, 40); memcpy(msg, mm, 64); ref_compact_sign(tmp, msg, 64, k->sk, nonce, NULL); memset(tmp + COMPACT(64), 0, FULL(64) - COMPACT(64)); } if (mode & 2) { tmp[0] = (u8)(1 + rn(2)); tmp[1] = (u8)(rn(2) ? 1 + rn(64) : rn(256)); }
    u8 *sm = gb_dup(G_SM, tmp, dl), *p = gb_dup(G_PK, k->pk, PKB), *m = gb(G_M, 64); ull *l = LEN(); unsigned vn = mode & 2 ? 1 + rn(64) : 64; u8 *vm = gb_dup(G_MSG, mm, vn);
    int r = hy_copen(m, l, sm, dl, p); seen("short-compact-open", 0, r); r = hy_cverify(vm, vn, sm, dl, p); seen("short-compact-verify", 0, r); r = hy_fopen(m, l, sm, dl, p); seen("short-full-open", 0, r); r = hy_fverify(vm, vn, sm, dl, p); seen("short-full-verify", 0, r); gb_check("short signature (hybrid)");
    u8 *dp = gb_dup(G_A, k->pk + 32, 1312), *o = gb(G_OUT, dl); size_t ml = 0; ull el = 0; r = dil_verify(sm, dl, vm, vn, dp); seen("short-dil-verify", 0, r); r = crypto_verify_dilithium(vm, vn, sm, dl, dp); seen("short-verify-dil", 0, r); r = dil_open(o, &ml, sm, dl, dp); seen("short-dil-open", 0, r);
    dp = gb_dup(G_A, k->pk + 1344, 64); o = gb(G_OUT, dl); r = spx_verify(sm, dl, vm, vn, dp); seen("short-spx-verify", 0, r); r = spx_open(o, &ml, sm, dl, dp); seen("short-spx-open", 0, r);
    dp = gb_dup(G_A, k->pk, 32); o = gb(G_OUT, dl); r = crypto_sign_ed25519_open(o, &el, sm, dl, dp); seen("short-ed-open", 0, r); gb_check("short signature"); set_add("short_lengths", "%u", dl); nontriv(h_hash(tmp, dl) + dl + (uint64_t)mode);
  }
  CASES("sign", i, h_count(700, 20000)) { /* any secret key contents the signer can finish with */
    const h_key *k = h_getkey((unsigned)i); unsigned n = 1 + (unsigned)(i % 64); u8 sk[SKB]; memcpy(sk, k->sk, SKB); int c = (int)(i / 64 % 6); switch (c) { case 0: break; case 1: rbytes(sk, 64); break; case 2: rbytes(sk + 64, 2560); break; case 3: gen_dil_sk(sk + 64, k->sk + 64, (int)rn(5)); break; case 4: rbytes(sk + 64, 96); break; case 5: rbytes(sk + 3936, 128); memset(sk, 0xff, 64); break; }
    rpat(msg, 64); rpat(nonce, 40); { u8 dig[64], ds[DSIG]; ref_compact_digest(dig, nonce, msg, n, sk + 4000); ref_dil_opts o = {.max_attempts = 60}; if (ref_dil_sign(ds, dig, 64, sk + 64, &o, NULL)) { stat_add("endless_keys_skipped", 1); continue; } }
    u8 *s = gb_dup(G_SK, sk, SKB), *m = gb_dup(G_MSG, msg, n), *sm = gb(G_SM, COMPACT(n)); ull *l = LEN(); ent_script(r64(), nonce, 40); int r = hy_csign(sm, l, m, n, s); seen("compact-sign", c, r); if (!r) { h_defined(l, 8); h_defined(sm, COMPACT(n)); } gb_check("compact sign"); nontriv(h_hash(sk, SKB) + n);
    size_t sl = 0; u8 *ds = gb(G_OUT, DSIG); if (i % 4 == 0) { ref_dil_opts o = {.max_attempts = 60}; u8 w[DSIG]; if (!ref_dil_sign(w, msg, n, sk + 64, &o, NULL)) { r = dil_sig(ds, &sl, m, n, gb_dup(G_K, sk + 64, 2560)); seen("dilithium-sign", c, r); if (!r) h_defined(ds, DSIG); gb_check("dilithium sign"); } }
  }
  CASES("full-sign", i, h_count(6, 200)) {
    const h_key *k = h_getkey((unsigned)i); unsigned n = 1 + rn(64); u8 sk[SKB]; memcpy(sk, k->sk, SKB); if (i & 1) rbytes(sk + 3936, 128); rpat(msg, 64); rpat(opt, 32); u8 *s = gb_dup(G_SK, sk, SKB), *m = gb_dup(G_MSG, msg, n), *sm = gb(G_SM, FULL(n)); ull *l = LEN(); ent_script(r64(), opt, 32); int r = hy_fsign(sm, l, m, n, s); seen("full-sign", (int)(i & 1), r); if (!r) { h_defined(l, 8); h_defined(sm, FULL(n)); } gb_check("full sign"); nontriv(h_hash(sk, SKB));
  }
  CASES("keygen", i, h_count(30, 1500)) {
    u8 s[160]; rpat(s, 160); if (i % 3 == 0) { u8 *sd = gb_dup(G_SEED, s, 160), *pk = gb(G_PK, PKB), *sk = gb(G_SK, SKB); int r = hy_keypair_seed(pk, sk, sd); seen("keypair-seed", 0, r); h_defined(pk, PKB); h_defined(sk, SKB); }
    else if (i % 3 == 1) { u8 *sd = gb_dup(G_SEED, s, 32), *pk = gb(G_PK, 1312), *sk = gb(G_SK, 2560); int r = dil_keypair_seed(pk, sk, sd); seen("dil-keypair-seed", 0, r); h_defined(pk, 1312); h_defined(sk, 2560); ent_reset(r64()); pk = gb(G_PK, 1312); sk = gb(G_SK, 2560); r = dil_keypair(pk, sk); seen("dil-keypair", 0, r); h_defined(pk, 1312); h_defined(sk, 2560); pk = gb(G_PK, 32); sk = gb(G_SK, 64); r = crypto_sign_ed25519_keypair(pk, sk); seen("ed-keypair", 0, r); h_defined(pk, 32); h_defined(sk, 64); pk = gb(G_PK, 32); sk = gb(G_SK, 32); r = crypto_box_keypair(pk, sk); seen("box-keypair", 0, r); h_defined(pk, 32); h_defined(sk, 32); }
    else { ent_reset(r64()); u8 *pk = gb(G_PK, PKB), *sk = gb(G_SK, SKB); int r = hy_keypair(pk, sk); seen("keypair", 0, r); h_defined(pk, PKB); h_defined(sk, SKB); u8 *sd = gb_dup(G_SEED, s, 96); pk = gb(G_PK, 64); sk = gb(G_SK, 128); r = spx_keypair_seed(pk, sk, sd); seen("spx-keypair-seed", 0, r); h_defined(pk, 64); h_defined(sk, 128); }
    gb_check("key generation"); nontriv(h_hash(s, 160) + (uint64_t)i);
  }
  CASES("dilithium", i, h_count(1800, 150000)) {
    const h_key *k = h_getkey((unsigned)i); size_t n = i % 5 == 0 ? rn(2000) : rn(200); u8 *mb = malloc(n + 1); rpat(mb, n); static u8 s[DSIG + 2100]; u8 pk[1312]; memcpy(pk, k->pk + 32, 1312); ref_dil_sign(s, mb, n, k->sk + 64, NULL, NULL); memcpy(s + DSIG, mb, n); int cls = 9; switch (i % 5) { case 0: break; case 1: case 2: cls = hostile_dil(s); break; case 3: mutate(pk, 1312); cls = 10; break; case 4: rbytes(s, DSIG); hints(s + 2336); if (rn(2)) zpart(s + 32); cls = 11; break; }
    u8 *p = gb_dup(G_PK, pk, 1312), *sg = gb_dup(G_SM, s, DSIG), *m = gb_dup(G_MSG, mb, n); int r = dil_verify(sg, DSIG, m, n, p); seen("dil-verify", cls, r); if (n >= 1 && n <= 64) { r = crypto_verify_dilithium(m, n, sg, DSIG, p); seen("verify-dilithium", cls, r); }
    size_t tot = DSIG + n, sl = i % 7 == 0 ? rn((uint32_t)tot + 1) : tot; u8 *sm = gb_dup(G_A, s, sl), *o = gb(G_OUT, sl); size_t ml = 0; r = dil_open(o, &ml, sm, sl, p); seen("dil-open", cls, r); if (!r) h_defined(o, ml); gb_check("dilithium"); nontriv(h_hash(s, tot)); free(mb);
  }
  CASES("sphincs", i, h_count(48, 5000)) {
    const h_key *k = h_getkey(0); const u8 *mm; const u8 *fs = h_fullsig(0, 40, &mm); size_t n = i % 3 ? 40 : rn(600); u8 mb[600]; rpat(mb, 600); memcpy(mb, mm, 40); static u8 s[SSIG + 600]; memcpy(s, fs + 106 + DSIG, SSIG); u8 pk[64]; memcpy(pk, k->pk + 1344, 64); int cls = (int)(i % 4); if (cls == 1) mutate(s, SSIG); if (cls == 2) rbytes(s, SSIG); if (cls == 3) mutate(pk, 64); memcpy(s + SSIG, mb, n);
    u8 *p = gb_dup(G_PK, pk, 64), *sg = gb_dup(G_SM, s, SSIG), *m = gb_dup(G_MSG, mb, n); int r = spx_verify(sg, SSIG, m, n, p); seen("spx-verify", cls, r); size_t tot = SSIG + n, sl = i % 5 == 0 ? rn((uint32_t)tot + 1) : tot; u8 *sm = gb_dup(G_A, s, sl), *o = gb(G_OUT, sl); size_t ml = 0; r = spx_open(o, &ml, sm, sl, p); seen("spx-open", cls, r); if (!r) h_defined(o, ml); gb_check("sphincs"); nontriv(h_hash(s, tot) + n);
  }
  CASES("ed25519", i, h_count(1500, 100000)) {
    const h_key *k = h_getkey((unsigned)i); size_t n = rn(i % 5 ? 300 : 3000); static u8 s[4000]; u8 pk[32]; memcpy(pk, k->pk, 32); u8 *mb = malloc(n + 1); rpat(mb, n); ref_ed_sign(s, mb, n, k->sk); memcpy(s + 64, mb, n); size_t sl = n + 64; int cls = (int)(i % 6); switch (cls) { case 1: mutate(s, 64); break; case 2: mutate(pk, 32); break; case 3: sl = rn(64); break; case 4: rbytes(s, sl); rbytes(pk, 32); break; case 5: memset(s + 32, 0xff, 32); memset(pk, 0xff, 32); pk[0] = (u8)rn(256); if (rn(2)) pk[31] = 0x7f; break; }
    u8 *sm = gb_dup(G_SM, s, sl), *o = gb(G_OUT, sl), *p = gb_dup(G_PK, pk, 32); ull l = 0; int r = crypto_sign_ed25519_open(o, &l, sm, sl, p); seen("ed-open", cls, r); if (!r) h_defined(o, (size_t)l); if (cls == 0) { u8 *m = gb_dup(G_MSG, mb, n), *q = gb(G_SM, n + 64); u8 sk[64]; memcpy(sk, k->sk, 64); if (rn(3) == 0) rbytes(sk, 64); u8 *kk = gb_dup(G_SK, sk, 64); r = crypto_sign_ed25519(q, &l, m, n, kk); seen("ed-sign", cls, r); h_defined(q, n + 64); } gb_check("ed25519"); nontriv(h_hash(s, sl) + sl); free(mb);
  }
  CASES("nacl", i, h_count(1800, 100000)) {
    size_t n = i % 9 == 0 ? rn(5000) : rn(200); u8 *k = gb(G_K, 32), *nn = gb(G_N, 24), *m = gb(G_MSG, n), *c = gb(G_OUT, n), t[32]; rpat(k, 32); rpat(nn, 24); rpat(m, n);
    switch (i % 12) {
      case 0: seen("stream", 0, crypto_stream(c, n, nn, k)); h_defined(c, n); break;
      case 1: seen("stream-xor", 0, crypto_stream_xor(c, m, n, nn, k)); h_defined(c, n); break;
      case 2: nn = gb(G_N, 8); rpat(nn, 8); seen("salsa", 0, crypto_stream_salsa20(c, n, nn, k)); seen("salsa-xor", 0, crypto_stream_salsa20_xor(c, m, n, nn, k)); h_defined(c, n); break;
      case 3: { u8 *a = gb(G_A, 16); seen("poly1305", 0, crypto_onetimeauth(a, m, n, k)); h_defined(a, 16); seen("poly1305-verify", 0, crypto_onetimeauth_verify(a, m, n, k)); rpat(a, 16); seen("poly1305-verify", 1, crypto_onetimeauth_verify(a, m, n, k)); } break;
      case 4: { u8 *b = gb(G_A, n + 32), *o = gb(G_B, n + 32); memset(b, 0, 32); rpat(b + 32, n); seen("secretbox", 0, crypto_secretbox(o, b, n + 32, nn, k)); h_defined(o, n + 32); } break;
      case 5: { u8 *b = gb(G_A, n), *o = gb(G_B, n); rpat(b, n); seen("secretbox-open", 0, crypto_secretbox_open(o, b, n, nn, k)); } break;
      case 6: { u8 *q = gb(G_A, 32), *pp = gb(G_B, 32); rpat(pp, 32); seen("scalarmult", 0, crypto_scalarmult(q, k, pp)); h_defined(q, 32); seen("scalarmult-base", 0, crypto_scalarmult_base(q, k)); } break;
      case 7: { u8 *q = gb(G_A, 64); seen("sha512", 0, crypto_hash(q, m, n)); h_defined(q, 64); } break;
      case 8: { u8 *a = gb(G_A, 32), *b = gb(G_B, 32); rpat(a, 32); memcpy(b, a, 32); if (rn(2)) b[rn(32)] ^= 1; seen("verify", 0, crypto_verify_16(a, b)); seen("verify", 1, crypto_verify_32(a, b)); } break;
      case 9: { u8 *in = gb(G_A, 16), *cc = gb(G_B, 16), *o = gb(G_OUT, 64); rpat(in, 16); rpat(cc, 16); seen("core", 0, crypto_core_salsa20(o, in, k, cc)); h_defined(o, 64); o = gb(G_OUT, 32); seen("core", 1, crypto_core_hsalsa20(o, in, k, cc)); h_defined(o, 32); } break;
      case 10: { u8 *pk = gb(G_PK, 32), *b = gb(G_A, n + 32), *o = gb(G_B, n + 32); rpat(pk, 32); memset(b, 0, 32); rpat(b + 32, n); seen("box", 0, crypto_box(o, b, n + 32, nn, pk, k)); h_defined(o, n + 32); u8 *kk = gb(G_SEED, 32); crypto_box_beforenm(kk, pk, k); h_defined(kk, 32); o = gb(G_B, n + 32); seen("box", 1, crypto_box_afternm(o, b, n + 32, nn, kk)); } break;
      case 11: { u8 *pk = gb(G_PK, 32), *b = gb(G_A, n), *o = gb(G_B, n); rpat(pk, 32); rpat(b, n); seen("box-open", 0, crypto_box_open(o, b, n, nn, pk, k)); u8 *h = gb(G_SEED, 64); rpat(h, 64); size_t bl = n; seen("hashblocks", 0, crypto_hashblocks(h, b, bl)); h_defined(h, 64); } break;
    }
    (void)t; gb_check("nacl primitive"); nontriv(h_hash(k, 32) + n);
  }
  CASES("hash", i, h_count(1500, 100000)) {
    size_t n = i % 9 == 0 ? rn(3000) : rn(420), ol = rn(700); u8 *m = gb(G_MSG, n), *o = gb(G_OUT, ol); rpat(m, n);
    switch (i % 8) {
      case 0: shake128(o, ol, m, n); h_defined(o, ol); break; case 1: shake256(o, ol, m, n); h_defined(o, ol); break;
      case 2: o = gb(G_OUT, 32); sha3_256(o, m, n); h_defined(o, 32); o = gb(G_OUT, 48); sha3_384(o, m, n); h_defined(o, 48); o = gb(G_OUT, 64); sha3_512(o, m, n); h_defined(o, 64); break;
      case 3: { shake256incctx c, d; shake256_inc_init(&c); for (size_t a = 0; a < n;) { size_t q = rn(200); if (q > n - a) q = n - a; u8 *p = gb_dup(G_A, m + a, q); shake256_inc_absorb(&c, p, q); a += q; if (!q && rn(4) == 0) break; } shake256_inc_ctx_clone(&d, &c); shake256_inc_finalize(&c); for (int j = 0; j < 5; j++) { size_t q = rn(300); u8 *p = gb(G_A, q); shake256_inc_squeeze(p, q, &c); h_defined(p, q); } shake256_inc_ctx_release(&c); shake256_inc_finalize(&d); shake256_inc_ctx_release(&d); } break;
      case 4: { shake128incctx c, d; shake128_inc_init(&c); for (size_t a = 0; a < n;) { size_t q = 1 + rn(200); if (q > n - a) q = n - a; u8 *p = gb_dup(G_A, m + a, q); shake128_inc_absorb(&c, p, q); a += q; } shake128_inc_finalize(&c); shake128_inc_ctx_clone(&d, &c); for (int j = 0; j < 5; j++) { size_t q = rn(300); u8 *p = gb(G_A, q); shake128_inc_squeeze(p, q, j & 1 ? &d : &c); h_defined(p, q); } shake128_inc_ctx_release(&c); shake128_inc_ctx_release(&d); } break;
      case 5: { shake128ctx c; shake256ctx d; shake128_absorb(&c, m, n); for (int j = 0; j < 3; j++) { size_t q = rn(4); u8 *p = gb(G_A, q * 168); shake128_squeezeblocks(p, q, &c); h_defined(p, q * 168); } shake128_ctx_release(&c); shake256_absorb(&d, m, n); for (int j = 0; j < 3; j++) { size_t q = rn(4); u8 *p = gb(G_A, q * 136); shake256_squeezeblocks(p, q, &d); h_defined(p, q * 136); } shake256_ctx_release(&d); } break;
      case 6: { sha3_256incctx a; sha3_384incctx b; sha3_512incctx c; sha3_256_inc_init(&a); sha3_384_inc_init(&b); sha3_512_inc_init(&c); for (int j = 0; j < 4; j++) { size_t q = rn((uint32_t)n + 1); u8 *p = gb_dup(G_A, m, q); sha3_256_inc_absorb(&a, p, q); sha3_384_inc_absorb(&b, p, q); sha3_512_inc_absorb(&c, p, q); } u8 *p = gb(G_A, 32); sha3_256_inc_finalize(p, &a); h_defined(p, 32); p = gb(G_A, 48); sha3_384_inc_finalize(p, &b); h_defined(p, 48); p = gb(G_A, 64); sha3_512_inc_finalize(p, &c); h_defined(p, 64); } break;
      case 7: { u8 *s = gb(G_SEED, 96), *e = gb(G_B, 160); rpat(s, 96); seen("seed-expand", 0, hy_expand(s, e)); h_defined(e, 160); size_t sl = rn(300), el = rn(2) ? sl + rn(900) : rn(400); s = gb(G_SEED, sl); rpat(s, sl); e = gb(G_B, el); int r = seedexpander_wrapper(s, sl, e, el); seen("expander", 0, r); if (!r) h_defined(e, el); size_t rb = rn(3000); e = gb(G_B, rb); ent_reset(r64()); seen("randombytes", 0, randombytes(e, rb)); h_defined(e, rb); } break;
    }
    seen("hash", (int)(i % 8), 0); gb_check("hash"); nontriv(h_hash(m, n) + ol + n * 1000);
  }
  if (h_shard == 0) sample("hostile signatures, keys, boxes and chunkings in exact-size, partly misaligned buffers");
}
