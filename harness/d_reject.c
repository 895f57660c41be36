/* C02 any change rejected, C03 every component necessary, C04 canonical encodings, C20 mode separation */
#include "gen.h"

static u8 SM[FULLMAX + 4096], OUT[FULLMAX];
static int accepted(int full, const u8 *sm, ull sl, const u8 *pk) { ull ml = 0; return (full ? hy_fopen(OUT, &ml, sm, sl, pk) : hy_copen(OUT, &ml, sm, sl, pk)) == 0; }
static const char *mode(int full) { return full ? "full" : "compact"; }
/* both entry points must refuse the signature for message m */
static int must_reject(int full, const u8 *sm, ull sl, const u8 *pk, const u8 *m, unsigned n, const char *key, const char *what) {
  ev(2); int bad = 0;
  if (accepted(full, sm, sl, pk)) { VIOL(key, "%s open accepts: %s", mode(full), what); bad = 1; }
  if (n >= 1 && n <= 64) { int v = full ? hy_fverify(m, n, sm, sl, pk) : hy_cverify(m, n, sm, sl, pk); if (v == 0) { VIOL(key, "%s verify accepts: %s", mode(full), what); bad = 1; } }
  return bad;
}
/* a compact signature made by the reference (deterministic per (key,n,variant)) */
static unsigned mk_compact(u8 *sm, u8 *m, unsigned key, unsigned n, unsigned var) {
  h_rng sv = R; r_seed(h_seed + 77 * key, 0x636f6d00 + n * 1000 + var); u8 nonce[40]; rpat(m, n); rbytes(nonce, 40); ref_compact_sign(sm, m, n, h_getkey(key)->sk, nonce, NULL); R = sv; return COMPACT(n);
}

void drv_C02(void) {
  u8 m[64], m2[64]; char w[256];
  /* every bit of whole compact signatures */
  long nbase = h_count(1, 24);
  for (long b = 0; b < nbase; b++) {
    char sec[32]; snprintf(sec, sizeof sec, "compact-bit-%ld", b);
    h_rng t = R; r_seed(h_seed, 0xb17 + (uint64_t)b); unsigned key = rn(H_NKEYS), n = 1 + rn(64); R = t;
    CASES(sec, i, (long)COMPACT(n) * 8) {
      unsigned sl = mk_compact(SM, m, key, n, 0); if (i < (long)h_nshard) { ev(1); if (!accepted(0, SM, sl, h_getkey(key)->pk)) { VIOL("baseline", "unmodified compact signature refused"); break; } }
      SM[i / 8] ^= (u8)(1u << (i % 8)); snprintf(w, sizeof w, "bit %ld of byte %ld flipped (n=%u key %u)", i % 8, i / 8, n, key);
      ev(1); if (accepted(0, SM, sl, h_getkey(key)->pk)) VIOL("bit-flip-accepted", "compact open accepts: %s", w);
      if (i % 16 == 3) must_reject(0, SM, sl, h_getkey(key)->pk, m, n, "bit-flip-accepted", w);
      stat_add("compact_bit_flips", 1); nontriv(h_hash(SM, sl)); if (i == 1000) sample("%s", w);
    }
  }
  /* for every length: every header, nonce and message byte, plus random bytes of the signature parts */
  CASES("compact-lengths", i, 64 * h_count(1, 16)) {
    unsigned n = 1 + (unsigned)(i % 64), key = rn(H_NKEYS), sl = mk_compact(SM, m, key, n, 1 + (unsigned)(i / 64)); const u8 *pk = h_getkey(key)->pk; memcpy(m2, m, n);
    ev(1); if (!accepted(0, SM, sl, pk)) { VIOL("baseline", "unmodified compact signature (n=%u) refused", n); continue; }
    for (unsigned p = 0; p < sl; p++) {
      if (p >= 2 && p < 2486 && rn(64)) continue;
      u8 o = SM[p]; SM[p] ^= (u8)(1 + rn(255)); snprintf(w, sizeof w, "byte %u of %u changed from %02x to %02x (n=%u)", p, sl, o, SM[p], n);
      must_reject(0, SM, sl, pk, m, n, "change-accepted", w);
      if (p >= 2526) must_reject(0, SM, sl, pk, SM + 2526, n, "change-accepted", w);
      SM[p] = o; stat_add("byte_changes", 1); nontriv(h_hash(w, strlen(w)) + key);
    }
    /* other message handed to verify */
    for (unsigned p = 0; p < n; p++) { m2[p] ^= (u8)(1u << rn(8)); ev(1); if (hy_cverify(m2, n, SM, sl, pk) == 0) VIOL("verify-other-message", "compact verify accepts a message differing at byte %u of %u", p, n); m2[p] = m[p]; }
    u8 big[80]; memset(big, 0, 80); memcpy(big, m, n);
    for (unsigned q = 0; q <= 66; q++) if (q != n) { ev(1); if (hy_cverify(big, q, SM, sl, pk) == 0) VIOL("verify-other-length", "compact verify accepts message length %u for a signature over %u bytes", q, n); }
    ev(1); if (hy_cverify(m, n, SM, sl, pk)) VIOL("verify-vs-open", "open accepts but verify refuses (n=%u)", n);
    set_add("compact_lengths", "%u", n);
  }
  /* public key: every byte, compact */
  CASES("compact-pk", i, PKB * h_count(1, 8)) {
    u8 pk[PKB]; unsigned key = (unsigned)(i / PKB) % H_NKEYS, n = 1 + (unsigned)(i % 64), sl = mk_compact(SM, m, key, n, 2); memcpy(pk, h_getkey(key)->pk, PKB); unsigned p = (unsigned)(i % PKB);
    pk[p] ^= (u8)(1u << rn(8)); snprintf(w, sizeof w, "public key byte %u changed", p); must_reject(0, SM, sl, pk, m, n, "pk-change-accepted", w); stat_add("pk_changes", 1); nontriv(h_hash(pk, PKB));
  }
  CASES("compact-otherkey", i, h_count(200, 3000)) {
    unsigned k1 = rn(H_NKEYS), k2 = rn(H_NKEYS), n = 1 + rn(64), sl = mk_compact(SM, m, k1, n, 3); if (k1 == k2 || eqb(h_getkey(k1)->pk, h_getkey(k2)->pk, PKB)) continue;
    must_reject(0, SM, sl, h_getkey(k2)->pk, m, n, "other-key-accepted", "signature checked under another public key"); nontriv((uint64_t)i + 5);
  }
  /* structural edits: splices, swaps, truncation, extension, compensating changes */
  CASES("compact-structure", i, h_count(3000, 60000)) {
    static u8 S2[COMPACTMAX + 300], B[COMPACTMAX + 300]; unsigned key = rn(6), n = 1 + rn(64), sl = mk_compact(SM, m, key, n, rn(3)); const u8 *pk = h_getkey(key)->pk; ull xl = sl; memcpy(B, SM, sl); u8 mm[64];
    unsigned n2 = rn(3) ? n : 1 + rn(64); mk_compact(S2, mm, rn(3) ? key : key + 1, n2, 5 + rn(2)); int op = (int)rn(12); unsigned a = rn(sl), b = rn(sl), l = 1 + rn(64);
    switch (op) {
      case 0: { u8 t = SM[a]; SM[a] = SM[b]; SM[b] = t; } break;
      case 1: SM[a] += 1; SM[b] -= 1; break;
      case 2: { u8 x = (u8)(1 + rn(255)); SM[a] ^= x; SM[b] ^= x; } break;
      case 3: memcpy(SM + 2, S2 + 2, 64); break;                 /* Ed25519 part of another signature */
      case 4: memcpy(SM + 66, S2 + 66, DSIG); break;             /* Dilithium part */
      case 5: memcpy(SM + 2486, S2 + 2486, 40); break;           /* nonce */
      case 6: memcpy(SM + 2526, S2 + 2526, n < n2 ? n : n2); break; /* message */
      case 7: xl = sl - 1 - rn(8); if (rn(2)) SM[1] = (u8)(n - (sl - xl)); break;
      case 8: { unsigned e = 1 + rn(8); rpat(SM + sl, e); xl = sl + e; if (rn(2)) SM[1] = (u8)(n + e); } break;
      case 9: if (a + l > sl) a = sl - l; memset(SM + a, rn(2) ? 0 : 0xff, l); break;
      case 10: { unsigned sh = 1 + rn(4); memmove(SM + 2 + sh, SM + 2, sl - 2 - sh); } break;
      case 11: { SM[1] = (u8)(n2); memmove(SM + 2526, S2 + 2526, n2); xl = COMPACT(n2); } break;
    }
    if (xl == sl && eqb(SM, B, sl)) { stat_add("identity_edit", 1); continue; }
    snprintf(w, sizeof w, "structural edit %d at %u,%u (n=%u)", op, a, b, n); must_reject(0, SM, xl, pk, SM + 2526, (xl > 2526 && xl <= COMPACTMAX) ? (unsigned)xl - 2526 : n, "edit-accepted", w); set_add("structural_edits", "%d", op); nontriv(h_hash(SM, sl));
  }
  /* a run of equal bytes at the beginning or the end of each field */
  CASES("compact-fields", i, h_count(1400, 20000)) {
    unsigned key = rn(6), n = i % 4 ? 1 + rn(64) : 64, sl = mk_compact(SM, m, key, n, rn(3)); static u8 B[COMPACTMAX]; memcpy(B, SM, sl); const unsigned f[] = {2, 34, 66, 98, 2402, 2482, 2486, 2526, sl}; unsigned j = (unsigned)(i % 8), lo = f[j], hi = f[j + 1], l = rn(3) ? 1 + rn(8) : rn(4) ? 1 + rn(128) : hi - lo; if (l > hi - lo) l = hi - lo; unsigned a = i / 8 % 2 ? lo : hi - l; static const u8 fv[] = {0, 0, 0, 0xff, 0xff, 1, 0x80, 0x7f}; u8 v = i / 16 % 9 == 8 ? (u8)rn(256) : fv[i / 16 % 9]; memset(SM + a, v, l);
    if (eqb(SM, B, sl)) { stat_add("identity_edit", 1); continue; } snprintf(w, sizeof w, "bytes %u..%u set to %02x (n=%u)", a, a + l - 1, v, n); must_reject(0, SM, sl, h_getkey(key)->pk, m, n, "edit-accepted", w); set_add("field_fills", "%u.%d.%02x", j, a == lo, v); nontriv(h_hash(SM, sl));
  }
  /* verify <=> open on arbitrary triples, and both equal the model */
  CASES("compact-iff", i, h_count(1500, 30000)) {
    unsigned key = rn(H_NKEYS), n = 1 + rn(64), sl = mk_compact(SM, m, key, n, rn(4)); memcpy(m2, m, 64); unsigned nv = n; if (rn(3) == 0) SM[rn(sl)] ^= (u8)(1u << rn(8)); if (rn(3) == 0) m2[rn(n)] ^= (u8)(1u << rn(8)); if (rn(4) == 0) nv = 1 + rn(64);
    ull ml = 0; int o = hy_copen(OUT, &ml, SM, sl, h_getkey(key)->pk) == 0, v = hy_cverify(m2, nv, SM, sl, h_getkey(key)->pk) == 0; int want = o && ml == nv && eqb(OUT, m2, nv); int ro = ref_compact_open(NULL, SM, sl, h_getkey(key)->pk) > 0;
    ev(2); if (v != want) VIOL("verify-vs-open", "compact verify says %d, open implies %d", v, want); if (o != ro) VIOL("open-vs-model", "compact open says %d, the model %d", o, ro); set_add("iff_outcomes", "open%d-verify%d", o, v); nontriv(h_hash(SM, sl) ^ h_hash(m2, nv));
  }
  /* full mode */
  CASES("full-headparts", i, 2486 + 64) { /* every byte in front of the SPHINCS+ part (and the message) */
    unsigned key = (unsigned)(h_seed % 3), n = 64; const u8 *mm; const u8 *s = h_fullsig(key, n, &mm); memcpy(SM, s, FULL(n)); const u8 *pk = h_getkey(key)->pk;
    if (i < (long)h_nshard) { ev(1); if (!accepted(1, SM, FULL(n), pk)) { VIOL("baseline", "unmodified full signature refused"); break; } }
    u8 o = SM[i]; SM[i] ^= (u8)(1 + rn(255)); snprintf(w, sizeof w, "byte %ld changed from %02x to %02x", i, o, SM[i]); ev(1); if (accepted(1, SM, FULL(n), pk)) VIOL("change-accepted", "full open accepts: %s", w);
    if (i >= 66 && i < 130) must_reject(1, SM, FULL(n), pk, mm, n, "change-accepted", w); stat_add("full_byte_changes", 1); nontriv(h_hash(w, strlen(w)));
  }
  CASES("full-sphincs", i, 1558 * h_count(2, 32)) { /* every 32-byte node; all 32 bytes in the thorough tier */
    unsigned key = (unsigned)((h_seed + 1) % 3), n = 1 + (unsigned)(h_seed % 64); const u8 *s = h_fullsig(key, n, NULL); memcpy(SM, s, FULL(n)); unsigned node = (unsigned)(i % 1558), off = h_thorough ? (unsigned)(i / 1558) % 32 : (i / 1558 ? 31 : rn(32)), p = 66 + n + DSIG + node * 32 + off;
    SM[p] ^= (u8)(1u << rn(8)); ev(1); if (accepted(1, SM, FULL(n), h_getkey(key)->pk)) VIOL("change-accepted", "full open accepts: SPHINCS+ node %u byte %u changed", node, off); stat_add("sphincs_node_changes", 1); nontriv((uint64_t)p + 1);
  }
  CASES("full-pk", i, PKB) {
    u8 pk[PKB]; unsigned key = (unsigned)((h_seed + 2) % 3), n = 33; const u8 *mm, *s = h_fullsig(key, n, &mm); memcpy(pk, h_getkey(key)->pk, PKB); pk[i] ^= (u8)(1u << rn(8)); ev(1);
    if (accepted(1, s, FULL(n), pk)) VIOL("pk-change-accepted", "full open accepts with public key byte %ld changed", i); stat_add("pk_changes", 1); nontriv(h_hash(pk, PKB));
  }
  CASES("full-lengths", i, 64) {
    unsigned n = 1 + (unsigned)i, key = rn(3); const u8 *mm, *s = h_fullsig(key, n, &mm); memcpy(SM, s, FULL(n)); const u8 *pk = h_getkey(key)->pk; memcpy(m, mm, n); memcpy(m2, m, n);
    ev(1); if (!accepted(1, SM, FULL(n), pk)) { VIOL("baseline", "unmodified full signature (n=%u) refused", n); continue; }
    for (unsigned p = 0; p < n; p++) { u8 o = SM[66 + p]; SM[66 + p] ^= (u8)(1u << rn(8)); snprintf(w, sizeof w, "message byte %u of %u changed", p, n); ev(1); if (accepted(1, SM, FULL(n), pk)) VIOL("change-accepted", "full open accepts: %s", w); SM[66 + p] = o; }
    /* verify with another message: last byte, a random byte, other lengths */
    unsigned ps[3] = {n - 1, 0, rn(n)}; for (int q = 0; q < 3; q++) { m2[ps[q]] ^= (u8)(1u << rn(8)); ev(1); if (hy_fverify(m2, n, SM, FULL(n), pk) == 0) VIOL("verify-other-message", "full verify accepts a message differing at byte %u of %u", ps[q], n); m2[ps[q]] = m[ps[q]]; }
    u8 big[80]; memset(big, 0, 80); memcpy(big, m, n); unsigned qs[4] = {n - 1, n + 1, 1 + rn(64), 64}; for (int q = 0; q < 4; q++) if (qs[q] != n) { ev(1); if (hy_fverify(big, qs[q], SM, FULL(n), pk) == 0) VIOL("verify-other-length", "full verify accepts message length %u for a signature over %u bytes", qs[q], n); }
    ev(1); if (hy_fverify(m, n, SM, FULL(n), pk)) VIOL("verify-vs-open", "full open accepts but verify refuses (n=%u)", n); set_add("full_lengths", "%u", n); nontriv(h_hash(SM, 200));
  }
  CASES("full-verify-bytes", i, 64) { /* verify compares every byte of a 64-byte message */
    unsigned key = (unsigned)(h_seed % 3); const u8 *mm, *s = h_fullsig(key, 64, &mm); memcpy(m2, mm, 64); m2[i] ^= (u8)(1u << rn(8)); ev(1); if (hy_fverify(m2, 64, s, FULL(64), h_getkey(key)->pk) == 0) VIOL("verify-other-message", "full verify accepts a message differing at byte %ld of 64", i); nontriv(h_hash(m2, 64));
  }
  CASES("full-fields", i, h_count(300, 6000)) {
    unsigned key = rn(3), n = i % 4 ? 1 + rn(64) : 64; const u8 *mm, *g = h_fullsig(key, n, &mm); memcpy(SM, g, FULL(n)); unsigned d = 66 + n, q = d + DSIG; const unsigned f[] = {2, 34, 66, d, d + 32, d + 2336, d + 2416, q, q + 32, q + 32 + 35 * 320, FULL(n)}; unsigned j = (unsigned)(i % 10), lo = f[j], hi = f[j + 1], l = rn(3) ? 1 + rn(8) : rn(4) ? 1 + rn(128) : hi - lo; if (l > hi - lo) l = hi - lo; unsigned a = i / 10 % 2 ? lo : hi - l; static const u8 fv[] = {0, 0, 0xff, 1}; u8 v = i / 20 % 5 == 4 ? (u8)rn(256) : fv[i / 20 % 5]; memset(SM + a, v, l);
    if (eqb(SM, g, FULL(n))) { stat_add("identity_edit", 1); continue; } snprintf(w, sizeof w, "bytes %u..%u set to %02x (n=%u)", a, a + l - 1, v, n); ev(1); if (accepted(1, SM, FULL(n), h_getkey(key)->pk)) VIOL("edit-accepted", "full open accepts: %s", w); set_add("full_field_fills", "%u.%d.%02x", j, a == lo, v); nontriv(h_hash(SM, FULL(n)));
  }
  CASES("full-structure", i, h_count(500, 8000)) {
    unsigned key = rn(3), n = 1 + rn(64); static u8 B[FULLMAX + 64]; const u8 *s = h_fullsig(key, n, NULL), *s2 = h_fullsig(rn(2) ? key : (key + 1) % 3, n, NULL), *s3 = h_fullsig(key, n > 1 ? n - 1 : n + 1, NULL); memcpy(SM, s, FULL(n)); memcpy(B, SM, FULL(n)); ull xl = FULL(n); int op = (int)rn(11); unsigned a = rn(FULL(n)), b = rn(FULL(n)), sp = 66 + n + DSIG;
    switch (op) {
      case 0: { u8 t = SM[a]; SM[a] = SM[b]; SM[b] = t; } break;
      case 1: { unsigned x = rn(1558), y = rn(1558); u8 t[32]; memcpy(t, SM + sp + 32 * x, 32); memcpy(SM + sp + 32 * x, SM + sp + 32 * y, 32); memcpy(SM + sp + 32 * y, t, 32); } break;
      case 2: { u8 x = (u8)(1 + rn(255)); SM[a] ^= x; SM[b] ^= x; } break;
      case 3: memcpy(SM + 2, s2 + 2, 64); break;
      case 4: memcpy(SM + 66 + n, s2 + 66 + n, DSIG); break;
      case 5: memcpy(SM + sp, s2 + sp, SSIG); break;
      case 6: memcpy(SM + sp, s3 + 66 + s3[1] + DSIG, SSIG); break;
      case 7: xl -= 1 + rn(4); if (rn(2)) SM[1]--; break;
      case 8: { unsigned e = 1 + rn(4); rpat(SM + xl, e); xl += e; if (rn(2)) SM[1] = (u8)(SM[1] + e); } break;
      case 9: { unsigned l = 32 * (1 + rn(67)); unsigned p = sp + 32 * rn(1400); memset(SM + p, rn(2) ? 0 : 0xff, l); } break;
      case 10: memcpy(SM + 66 + n, s3 + 66 + s3[1], DSIG); break;
    }
    if (xl == FULL(n) && eqb(SM, B, xl)) { stat_add("identity_edit", 1); continue; }
    snprintf(w, sizeof w, "structural edit %d at %u,%u (n=%u)", op, a, b, n); ev(1); if (accepted(1, SM, xl, h_getkey(key)->pk)) VIOL("edit-accepted", "full open accepts: %s", w); set_add("full_structural_edits", "%d", op); nontriv(h_hash(SM + 66, 200) + (uint64_t)i);
  }
}

/* ---------- C03 ---------- */
enum { P_GOOD, P_OTHERKEY, P_OTHERMSG, P_OTHERNONCE, P_OTHERSPX, P_GARBAGE, P_ZERO, P_ONEBYTE, P_NEAR, P_N };
static const char *pn[] = {"valid", "other-key", "other-message", "other-nonce", "other-spx-pk", "garbage", "zero", "digest-one-byte-off", "near-miss"};
static void part_digest(u8 h[64], int kind, const u8 *nonce, const u8 *m, unsigned n, const u8 *spx) {
  u8 x[64]; memcpy(x, m, n); u8 nn[40], sp[64]; memcpy(nn, nonce, 40); memcpy(sp, spx, 64);
  if (kind == P_OTHERMSG) x[rn(n)] ^= (u8)(1u << rn(8));
  if (kind == P_OTHERNONCE) nn[rn(40)] ^= (u8)(1u << rn(8));
  if (kind == P_OTHERSPX) sp[rn(64)] ^= (u8)(1u << rn(8));
  ref_compact_digest(h, nn, x, n, sp); if (kind == P_ONEBYTE) h[rn(64)] ^= (u8)(1u << rn(8));
}
static void make_ed(u8 *sig, int kind, const u8 *h, unsigned hn, const h_key *k, const h_key *o) {
  u8 x[32] = {0}; x[rn(32)] = (u8)(1u << rn(8));
  if (kind == P_GARBAGE) { rbytes(sig, 64); sig[63] &= 0x0f; } else if (kind == P_ZERO) memset(sig, 0, 64);
  else ref_ed_sign_ex(sig, h, hn, kind == P_OTHERKEY ? o->sk : k->sk, NULL, NULL, kind == P_NEAR ? x : NULL);
}
static void make_dil(u8 *sig, int kind, const u8 *h, unsigned hn, const h_key *k, const h_key *o) {
  u8 x[32] = {0}; x[rn(32)] = (u8)(1u << rn(8)); ref_dil_opts op = {.ctxor = kind == P_NEAR ? x : NULL};
  if (kind == P_GARBAGE) { ref_dil_sign(sig, h, hn, o->sk + 64, NULL, NULL); rbytes(sig, 32 + 2304); } else if (kind == P_ZERO) memset(sig, 0, DSIG);
  else ref_dil_sign(sig, h, hn, (kind == P_OTHERKEY ? o->sk : k->sk) + 64, &op, NULL);
}
void drv_C03(void) {
  u8 m[64], h[64];
  CASES("compact-parts", i, 81 * h_count(24, 400)) {
    int ke = (int)(i % 81) / 9, kd = (int)(i % 9); unsigned n = 1 + (unsigned)((i / 81 * 37 + i) % 64); const h_key *k = h_getkey(rn(12)), *o = h_getkey(rn(12)); if (k == o) o = h_getkey((unsigned)(k == h_getkey(0)) ); u8 nonce[40]; rbytes(nonce, 40); rpat(m, n);
    if (rn(ke && kd ? 6 : 2) == 0) { ref_compact_sign(SM, m, n, k->sk, nonce, NULL); if (!accepted(0, SM, COMPACT(n), k->pk) || hy_cverify(m, n, SM, COMPACT(n), k->pk)) VIOL("valid-parts-refused", "compact: genuine signature refused (n=%u)", n); stat_add("genuine_shown_first", 1); ev(2); } /* the genuine one first: nothing it leaves behind may help the forgery */
    SM[0] = 1; SM[1] = (u8)n; memcpy(SM + 2486, nonce, 40); memcpy(SM + 2526, m, n);
    part_digest(h, ke, nonce, m, n, k->pk + 1344); make_ed(SM + 2, ke, h, 64, k, o);
    part_digest(h, kd, nonce, m, n, k->pk + 1344); make_dil(SM + 66, kd, h, 64, k, o);
    int want = ke == P_GOOD && kd == P_GOOD, got = accepted(0, SM, COMPACT(n), k->pk), v = hy_cverify(m, n, SM, COMPACT(n), k->pk) == 0, ro = ref_compact_open(NULL, SM, COMPACT(n), k->pk) > 0;
    ev(3); if (got != want || v != want) VIOL(want ? "valid-parts-refused" : "invalid-part-accepted", "compact: Ed25519 part %s, Dilithium part %s: open %d verify %d (n=%u)", pn[ke], pn[kd], got, v, n);
    if (ro != want) VIOL("model-disagrees", "model says %d for ed %s dil %s", ro, pn[ke], pn[kd]);
    set_add("compact_part_combinations", "%s+%s", pn[ke], pn[kd]); nontriv(h_hash(SM, COMPACT(n))); if (i == 10) sample("compact ed=%s dil=%s n=%u -> open %d", pn[ke], pn[kd], n, got);
  }
  /* a genuine signature is accepted, then the same one with a single part or key part exchanged is offered, several in a row */
  CASES("after-genuine", i, h_count(240, 6000)) {
    unsigned n = i % 2 ? 64 : 1 + (unsigned)(i / 2 % 64); const h_key *k = h_getkey(rn(12)), *o = h_getkey(12 + rn(3)); static u8 G[COMPACTMAX], pk[PKB]; u8 nonce[40]; rbytes(nonce, 40); rpat(m, n); ref_compact_sign(G, m, n, k->sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, k->pk + 1344); if (eqb(k->pk, o->pk, 32)) continue;
    memcpy(SM, G, COMPACT(n)); memcpy(pk, k->pk, PKB); int g1 = accepted(0, SM, COMPACT(n), pk), g2 = !hy_cverify(m, n, SM, COMPACT(n), pk); ev(2); if (!g1 || !g2) VIOL("valid-parts-refused", "compact: genuine signature refused (n=%u)", n); stat_add("genuine_shown_first", 1);
    for (int t = 0; t < 9; t++) {
      memcpy(SM, G, COMPACT(n)); memcpy(pk, k->pk, PKB);
      switch (t) { case 0: make_dil(SM + 66, P_OTHERKEY, h, 64, k, o); break; case 1: make_ed(SM + 2, P_OTHERKEY, h, 64, k, o); break; case 2: SM[66 + rn(DSIG)] ^= (u8)(1u << rn(8)); break; case 3: SM[2 + rn(64)] ^= (u8)(1u << rn(8)); break; case 4: memset(SM + 66, 0, DSIG); break; case 5: memcpy(pk + 32, o->pk + 32, 1312); break; case 6: pk[1344 + rn(64)] ^= (u8)(1u << rn(8)); break; case 7: memcpy(pk, o->pk, 32); break; case 8: memset(SM + 2, 0, 64); break; }
      if (t == 2 && eqb(SM, G, COMPACT(n))) continue; int a = accepted(0, SM, COMPACT(n), pk), v = !hy_cverify(m, n, SM, COMPACT(n), pk); ev(2); if (a || v) VIOL("invalid-part-accepted", "compact, right after the genuine signature was accepted: exchange %d accepted (open %d verify %d, n=%u)", t, a, v, n); set_add("exchanges_after_genuine", "%d", t);
    }
    nontriv(h_hash(G, COMPACT(n)));
  }
  /* final comparisons: a signature whose recomputed value differs from the transmitted one in exactly one bit (only the key owner can make it) */
  CASES("near-ed", i, 256) {
    const h_key *k = h_getkey(rn(12)); unsigned n = 1 + rn(64); u8 x[32] = {0}, nonce[40]; x[i / 8] = (u8)(1u << (i % 8)); rbytes(nonce, 40); rpat(m, n); ref_compact_sign(SM, m, n, k->sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, k->pk + 1344); ref_ed_sign_ex(SM + 2, h, 64, k->sk, NULL, NULL, x);
    ev(1); if (accepted(0, SM, COMPACT(n), k->pk)) VIOL("near-miss-accepted", "Ed25519 R off by bit %ld accepted in compact mode", i); nontriv(h_hash(SM, COMPACT(n))); stat_add("near_miss_ed25519", 1);
  }
  CASES("near-dil", i, 256) {
    const h_key *k = h_getkey(rn(12)); unsigned n = 1 + rn(64); u8 x[32] = {0}, nonce[40]; x[i / 8] = (u8)(1u << (i % 8)); rbytes(nonce, 40); rpat(m, n); ref_compact_sign(SM, m, n, k->sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, k->pk + 1344); ref_dil_opts o = {.ctxor = x}; ref_dil_sign(SM + 66, h, 64, k->sk + 64, &o, NULL);
    ev(1); if (accepted(0, SM, COMPACT(n), k->pk)) VIOL("near-miss-accepted", "Dilithium challenge off by bit %ld accepted in compact mode", i); nontriv(h_hash(SM, COMPACT(n))); stat_add("near_miss_dilithium", 1);
  }
  CASES("near-digest", i, 64 * h_count(4, 32)) { /* parts over a digest that differs in one byte */
    const h_key *k = h_getkey(rn(12)); unsigned n = 1 + rn(64); u8 nonce[40], h2[64]; rbytes(nonce, 40); rpat(m, n); ref_compact_sign(SM, m, n, k->sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, k->pk + 1344); memcpy(h2, h, 64); h2[i % 64] ^= (u8)(1u << rn(8)); int which = (int)(i / 64) % 3 + 1;
    if (which & 1) ref_ed_sign(SM + 2, h2, 64, k->sk); if (which & 2) ref_dil_sign(SM + 66, h2, 64, k->sk + 64, NULL, NULL);
    ev(1); if (accepted(0, SM, COMPACT(n), k->pk)) VIOL("near-miss-accepted", "parts (mask %d) signed over a digest differing at byte %ld accepted", which, i % 64); nontriv(h_hash(SM, COMPACT(n))); stat_add("near_miss_digest", 1);
  }
  CASES("near-input", i, (40 + 64 + 64) * h_count(2, 16)) { /* Ed+Dil both over a digest of an input that differs in one byte of nonce / message / SPHINCS+ key */
    const h_key *k = h_getkey(rn(12)); unsigned p = (unsigned)(i % 168), n = p >= 40 && p < 104 ? p - 40 + 1 + rn(64 - (p - 40)) : 1 + rn(64); u8 nn[40], mm[64], sp[64], nonce[40]; rbytes(nonce, 40); rpat(m, n); memcpy(nn, nonce, 40); memcpy(mm, m, n); memcpy(sp, k->pk + 1344, 64); u8 x = (u8)(1u << rn(8));
    if (p < 40) nn[p] ^= x; else if (p < 104) mm[p - 40] ^= x; else sp[p - 104] ^= x;
    ref_compact_digest(h, nn, mm, n, sp); SM[0] = 1; SM[1] = (u8)n; ref_ed_sign(SM + 2, h, 64, k->sk); ref_dil_sign(SM + 66, h, 64, k->sk + 64, NULL, NULL); memcpy(SM + 2486, nonce, 40); memcpy(SM + 2526, m, n);
    ev(1); if (accepted(0, SM, COMPACT(n), k->pk)) VIOL("unbound-input", "compact accepts signatures over input differing at %s byte %u", p < 40 ? "nonce" : p < 104 ? "message" : "SPHINCS+ key", p < 40 ? p : p < 104 ? p - 40 : p - 104); nontriv(h_hash(SM, COMPACT(n))); stat_add("near_miss_input_bytes", 1);
  }
  /* mixed public keys: each pk part from key A or B, each signature part from A or B */
  CASES("compact-mixed", i, 32 * h_count(6, 100)) {
    const h_key *A = h_getkey(0), *B = h_getkey(1 + rn(10)); unsigned c = (unsigned)i % 32, n = 1 + rn(64); const h_key *pe = c & 1 ? B : A, *pd = c & 2 ? B : A, *ps = c & 4 ? B : A, *se = c & 8 ? B : A, *sd = c & 16 ? B : A; static u8 pk[PKB]; u8 nonce[40]; rbytes(nonce, 40); rpat(m, n);
    memcpy(pk, pe->pk, 32); memcpy(pk + 32, pd->pk + 32, 1312); memcpy(pk + 1344, ps->pk + 1344, 64); ref_compact_digest(h, nonce, m, n, pk + 1344); SM[0] = 1; SM[1] = (u8)n; ref_ed_sign(SM + 2, h, 64, se->sk); ref_dil_sign(SM + 66, h, 64, sd->sk + 64, NULL, NULL); memcpy(SM + 2486, nonce, 40); memcpy(SM + 2526, m, n);
    int want = pe == se && pd == sd, got = accepted(0, SM, COMPACT(n), pk); ev(1); if (got != want) VIOL(want ? "valid-parts-refused" : "invalid-part-accepted", "compact with mixed keys %u: open %d want %d", c, got, want); set_add("mixed_compact", "%u", c); nontriv(h_hash(SM, COMPACT(n)));
  }
  /* full mode: four kinds of every component, all combinations, all lengths */
  CASES("full-parts", i, 64 * h_count(1, 12)) {
    unsigned n = 1 + (unsigned)(i % 64); const h_key *k = h_getkey(rn(12)), *o = h_getkey(12 + rn(3)); static u8 sp[3][SSIG], dl[4][DSIG]; u8 ed[4][64], m2[64], opt[32]; rpat(m, n); memcpy(m2, m, n); m2[rn(n)] ^= (u8)(1u << rn(8)); rbytes(opt, 32);
    if (eqb(k->pk, o->pk, 32)) continue;
    ref_spx_sign(sp[0], m, n, k->sk + 3936, opt); ref_spx_sign(sp[1], m, n, o->sk + 3936, opt); ref_spx_sign(sp[2], m2, n, k->sk + 3936, opt);
    make_ed(ed[0], P_GOOD, m, n, k, o); make_ed(ed[1], P_OTHERKEY, m, n, k, o); make_ed(ed[2], P_GOOD, m2, n, k, o); make_ed(ed[3], P_NEAR, m, n, k, o);
    make_dil(dl[0], P_GOOD, m, n, k, o); make_dil(dl[1], P_OTHERKEY, m, n, k, o); make_dil(dl[2], P_GOOD, m2, n, k, o); make_dil(dl[3], P_NEAR, m, n, k, o);
    for (int e = 0; e < 4; e++) for (int d = 0; d < 4; d++) for (int s = 0; s < 3; s++) {
      if (e && d && s && rn(4)) continue; /* doubly broken combinations are sampled */
      SM[0] = 2; SM[1] = (u8)n; memcpy(SM + 2, ed[e], 64); memcpy(SM + 66, m, n); memcpy(SM + 66 + n, dl[d], DSIG); memcpy(SM + 66 + n + DSIG, sp[s], SSIG);
      int want = !e && !d && !s, got = accepted(1, SM, FULL(n), k->pk); ev(1); if (got != want) VIOL(want ? "valid-parts-refused" : "invalid-part-accepted", "full: ed kind %d, dil kind %d, spx kind %d (0 valid,1 other key,2 other message,3 near miss): open %d (n=%u)", e, d, s, got, n);
      if (want || (e + d + s == 2 && rn(2))) { ev(1); int v = hy_fverify(m, n, SM, FULL(n), k->pk) == 0; if (v != want) VIOL("invalid-part-accepted", "full verify: ed kind %d, dil kind %d, spx kind %d: %d", e, d, s, v); }
      set_add("full_part_combinations", "%d%d%d", e, d, s);
    }
    nontriv(h_hash(m, n) ^ h_hash(opt, 32)); set_add("full_lengths", "%u", n);
  }
  /* full mode, all but one or two parts genuine: near misses and parts over another message, every bit and length */
  CASES("full-near", i, 1024 * h_count(1, 8)) {
    unsigned key = rn(H_FIXED), n = 1 + (unsigned)(i / 8 % 64), t = (unsigned)(i % 8), bit = (unsigned)(i / 8 * 2 + i % 2) % 256; const h_key *k = h_getkey(key); const u8 *mm; memcpy(SM, h_fullsig(key, n, &mm), FULL(n)); memcpy(m, mm, n); u8 m2[64], x[32] = {0}; memcpy(m2, m, n); m2[rn(3) ? rn(n) : n - 1] ^= (u8)(1u << rn(8)); x[bit / 8] = (u8)(1u << (bit % 8)); ref_dil_opts o = {.ctxor = x}; const u8 *vm = m;
    if (rn(4) == 0) { if (!accepted(1, SM, FULL(n), k->pk)) VIOL("valid-parts-refused", "full: genuine signature refused (n=%u)", n); stat_add("genuine_shown_first", 1); ev(1); }
    switch (t) {
      case 0: case 1: ref_ed_sign_ex(SM + 2, m, n, k->sk, NULL, NULL, x); break;
      case 2: case 3: ref_dil_sign(SM + 66 + n, m, n, k->sk + 64, &o, NULL); break;
      case 4: ref_ed_sign(SM + 2, m2, n, k->sk); if (rn(2)) ref_dil_sign(SM + 66 + n, m2, n, k->sk + 64, NULL, NULL); break;
      case 5: ref_dil_sign(SM + 66 + n, m2, n, k->sk + 64, NULL, NULL); break;
      case 6: ref_ed_sign(SM + 2, m2, n, k->sk); ref_dil_sign(SM + 66 + n, m2, n, k->sk + 64, NULL, NULL); memcpy(SM + 66, m2, n); vm = m2; break; /* SPHINCS+ part of another message */
      case 7: { const u8 *m3, *f = h_fullsig(key, n < 64 ? n + 1 : 63, &m3); memcpy(SM + 66 + n + DSIG, f + 66 + f[1] + DSIG, SSIG); } break;
    }
    ev(2); if (accepted(1, SM, FULL(n), k->pk) || hy_fverify(vm, n, SM, FULL(n), k->pk) == 0) VIOL("invalid-part-accepted", "full mode, defect %u (0,1 Ed25519 off by bit %u; 2,3 Dilithium; 4,5 part over another message; 6,7 SPHINCS+ part of another message), n=%u: accepted", t, bit, n); stat_add("near_miss_full", 1); nontriv(h_hash(SM, FULL(n)));
  }
  CASES("near-spx", i, h_thorough ? 256 : 64) { /* SPHINCS+ root comparison, one bit off */
    const h_key *k = h_getkey(rn(12)); unsigned n = 1 + rn(64), bit = h_thorough ? (unsigned)i : (unsigned)(i % 32) * 8 + rn(8); static u8 ssk[128], pk[PKB]; u8 opt[32]; rbytes(opt, 32); rpat(m, n); memcpy(ssk, k->sk + 3936, 128); memcpy(pk, k->pk, PKB); ssk[96 + bit / 8] ^= (u8)(1u << (bit % 8)); pk[1344 + 32 + bit / 8] ^= (u8)(1u << (bit % 8));
    SM[0] = 2; SM[1] = (u8)n; ref_ed_sign(SM + 2, m, n, k->sk); memcpy(SM + 66, m, n); ref_dil_sign(SM + 66 + n, m, n, k->sk + 64, NULL, NULL); ref_spx_sign(SM + 66 + n + DSIG, m, n, ssk, opt);
    ev(2); if (accepted(1, SM, FULL(n), pk)) VIOL("near-miss-accepted", "SPHINCS+ root differing in bit %u accepted in full mode", bit);
    if (spx_verify(SM + 66 + n + DSIG, SSIG, m, n, pk + 1344) == 0) VIOL("near-miss-accepted", "SPHINCS+ root differing in bit %u accepted by the standalone verifier", bit); stat_add("near_miss_sphincs", 1); nontriv(h_hash(SM + 2, 64));
  }
  CASES("full-msg-byte", i, 64 * h_count(3, 3)) { /* one component over a message differing at one byte, the others genuine */
    unsigned key = rn(H_FIXED), which = (unsigned)(i / 64), at = (unsigned)(i % 64), n = at + 1 + (rn(2) ? 0 : rn(64 - at)); const h_key *k = h_getkey(key); const u8 *mm; memcpy(SM, h_fullsig(key, n, &mm), FULL(n)); memcpy(m, mm, n); u8 m2[64], opt[32]; rbytes(opt, 32); memcpy(m2, m, n); m2[at] ^= (u8)(1u << rn(8));
    if (which == 0) ref_ed_sign(SM + 2, m2, n, k->sk); else if (which == 1) ref_dil_sign(SM + 66 + n, m2, n, k->sk + 64, NULL, NULL); else ref_spx_sign(SM + 66 + n + DSIG, m2, n, k->sk + 3936, opt);
    ev(1); if (accepted(1, SM, FULL(n), k->pk)) VIOL("invalid-part-accepted", "full: component %u signed a message differing at byte %u", which, at); nontriv(h_hash(SM + 2, 64)); stat_add("full_message_byte_cases", 1);
  }
}

/* ---------- C04 ---------- */
static const u8 *fullbase(unsigned key, unsigned n, const u8 **m) { return h_fullsig(key, n, m); }
/* try an alternative Ed25519 signature everywhere it could be accepted */
static void ed_alt(const u8 alt[64], const u8 *msg, unsigned n, const h_key *k, const u8 *hybrid, int full, const char *what) {
  static u8 sm[2000], out[2000]; ull ml = 0; memcpy(sm, alt, 64); memcpy(sm + 64, msg, n); memset(out, 0, sizeof out);
  ev(1); if (crypto_sign_ed25519_open(out, &ml, sm, 64 + n, k->pk) == 0) VIOL("ed25519-noncanonical", "Ed25519 open accepts %s", what);
  if (!hybrid) return;
  unsigned hn = hybrid[1]; memcpy(SM, hybrid, full ? FULL(hn) : COMPACT(hn)); memcpy(SM + 2, alt, 64);
  ev(1); if (accepted(full, SM, full ? FULL(hn) : COMPACT(hn), k->pk)) VIOL("hybrid-ed25519-noncanonical", "%s open accepts %s", mode(full), what);
}
static void dil_alt(const u8 *alt, const u8 *msg, unsigned n, const h_key *k, const u8 *hybrid, int full, const char *what) {
  static u8 sm[DSIG + 64], out[DSIG + 64]; size_t ml = 0; memcpy(sm, alt, DSIG); memcpy(sm + DSIG, msg, n);
  ev(3); if (dil_verify(alt, DSIG, msg, n, k->pk + 32) == 0) VIOL("dilithium-noncanonical", "Dilithium verify accepts %s", what);
  if (crypto_verify_dilithium(msg, n, alt, DSIG, k->pk + 32) == 0) VIOL("dilithium-noncanonical", "crypto_verify_dilithium accepts %s", what);
  if (dil_open(out, &ml, sm, DSIG + n, k->pk + 32) == 0) VIOL("dilithium-noncanonical", "Dilithium open accepts %s", what);
  if (!hybrid) return;
  unsigned hn = hybrid[1]; memcpy(SM, hybrid, full ? FULL(hn) : COMPACT(hn)); memcpy(SM + (full ? 66 + hn : 66), alt, DSIG);
  ev(1); if (accepted(full, SM, full ? FULL(hn) : COMPACT(hn), k->pk)) VIOL("hybrid-dilithium-noncanonical", "%s open accepts %s", mode(full), what);
}
void drv_C04(void) {
  u8 m[64], h[64], nonce[40], alt[DSIG]; static u8 base[COMPACTMAX]; char w[200];
  CASES("S+kL", i, h_count(120, 3000)) {
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + (unsigned)(i % 64); rpat(m, n);
    for (int t = 0; t < (i % 3 == 0 ? 400 : 1); t++) { /* every third case: a small S, so that S+L is close to L */
      rbytes(nonce, 40); ref_compact_digest(h, nonce, m, n, k->pk + 1344); ref_ed_sign(base + 2, h, 64, k->sk); if (i % 3 || (base[65] == 0 && base[64] < 0x40)) break; }
    ref_dil_sign(base + 66, h, 64, k->sk + 64, NULL, NULL); base[0] = 1; base[1] = (u8)n; memcpy(base + 2486, nonce, 40); memcpy(base + 2526, m, n); set_add("S_top_byte", "%02x", base[65]);
    ev(1); if (!accepted(0, base, COMPACT(n), k->pk)) { VIOL("baseline", "valid signature refused"); continue; }
    for (int q = 1; q < 16; q++) { memcpy(alt, base + 2, 64); if (!ref_ed_add_L(alt + 32, q)) break; snprintf(w, sizeof w, "S + %d*L (n=%u)", q, n); ed_alt(alt, h, 64, k, base, 0, w); stat_add("S_plus_kL", 1); set_add("k", "%d", q); nontriv(h_hash(alt, 64)); }
    /* the unused top bits of S */
    for (int b = 253; b < 256; b++) { memcpy(alt, base + 2, 64); alt[32 + b / 8] ^= (u8)(1u << (b % 8)); snprintf(w, sizeof w, "S with bit %d set", b); ed_alt(alt, h, 64, k, base, 0, w); }
  }
  CASES("S+kL-full", i, h_count(16, 200)) {
    unsigned key = (unsigned)i % 12, n = 1 + rn(64); const u8 *mm, *f = fullbase(key, n, &mm); const h_key *k = h_getkey(key); ev(1); if (!accepted(1, f, FULL(n), k->pk)) { VIOL("baseline", "valid full signature refused"); continue; }
    for (int q = 1; q < 16; q += 1 + (int)rn(4)) { memcpy(alt, f + 2, 64); if (!ref_ed_add_L(alt + 32, q)) break; snprintf(w, sizeof w, "S + %d*L (n=%u)", q, n); ed_alt(alt, mm, n, k, f, 1, w); stat_add("S_plus_kL", 1); nontriv(h_hash(alt, 64)); }
  }
  /* R = identity (r = 0): the valid encoding and its non-canonical re-encodings, each with a matching S */
  CASES("R-noncanonical", i, h_count(60, 600)) {
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + rn(64); rpat(m, n); rbytes(nonce, 40); ref_compact_digest(h, nonce, m, n, k->pk + 1344); u8 z[32] = {0}, Rf[32]; int c = (int)(i % 4); memset(Rf, 0, 32); Rf[0] = 1;
    if (c == 1) Rf[31] = 0x80; if (c >= 2) { memset(Rf, 0xff, 32); Rf[0] = 0xee; Rf[31] = c == 2 ? 0x7f : 0xff; }
    ref_ed_sign_ex(alt, h, 64, k->sk, z, Rf, NULL); ref_compact_sign(base, m, n, k->sk, nonce, NULL);
    if (c == 0) { ev(1); memcpy(base + 2, alt, 64); if (!accepted(0, base, COMPACT(n), k->pk)) VIOL("baseline", "canonically encoded R = identity refused although the equation holds"); }
    else { snprintf(w, sizeof w, "non-canonical encoding %d of R", c); ed_alt(alt, h, 64, k, base, 0, w); stat_add("R_noncanonical", 1); }
    nontriv(h_hash(alt, 64));
  }
  /* Dilithium hints */
  CASES("hints", i, h_count(400, 8000)) {
    int full = i % 16 == 15; unsigned key = rn(12), n; const h_key *k = h_getkey(key); const u8 *msg, *hyb; unsigned mn;
    if (full) { n = 1 + rn(64); hyb = fullbase(key, n, &msg); mn = n; memcpy(alt, hyb + 66 + n, DSIG); }
    else { n = 1 + rn(64); rpat(m, n); rbytes(nonce, 40); ref_compact_sign(base, m, n, k->sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, k->pk + 1344); hyb = base; msg = h; mn = 64; memcpy(alt, base + 66, DSIG); }
    static u8 org[DSIG]; memcpy(org, alt, DSIG); u8 *hp = alt + 2336, *cnt = hp + 80; unsigned tot = cnt[3]; ev(1); if (dil_verify(alt, DSIG, msg, mn, k->pk + 32)) { VIOL("baseline", "valid Dilithium signature refused"); continue; }
    for (int p = 0; p < 4; p++) { unsigned a = p ? cnt[p - 1] : 0, b = cnt[p]; /* unsorted: every adjacent pair */
      for (unsigned j = a; j + 1 < b; j++) { if (!full && rn(4)) continue; if (full && rn(12)) continue; u8 t = hp[j]; hp[j] = hp[j + 1]; hp[j + 1] = t; snprintf(w, sizeof w, "hint indices %u,%u of polynomial %d swapped", j, j + 1, p); dil_alt(alt, msg, mn, k, hyb, full, w); memcpy(alt, org, DSIG); stat_add("hints_unsorted", 1); nontriv(h_hash(w, strlen(w)) + (uint64_t)i); }
      if (b - a >= 3) { u8 t = hp[a]; memmove(hp + a, hp + a + 1, b - a - 1); hp[b - 1] = t; snprintf(w, sizeof w, "hint indices of polynomial %d rotated", p); dil_alt(alt, msg, mn, k, hyb, full, w); memcpy(alt, org, DSIG); stat_add("hints_unsorted", 1); }
      if (b > a && tot < 80) { unsigned j = rn(3) == 0 ? b - 1 : a + rn(b - a); memmove(hp + j + 1, hp + j, tot - j); for (int q = p; q < 4; q++) cnt[q]++; snprintf(w, sizeof w, "hint index %u of polynomial %d repeated", j, p); dil_alt(alt, msg, mn, k, hyb, full, w); memcpy(alt, org, DSIG); stat_add("hints_repeated", 1); nontriv(h_hash(w, strlen(w)) + (uint64_t)i); }
    }
    for (unsigned j = tot; j < 80; j++) { if (full && rn(8)) continue; if (j != tot && j != 79 && rn(3)) continue; hp[j] = (u8)(1 + rn(255)); snprintf(w, sizeof w, "padding index %u set to %u", j, hp[j]); dil_alt(alt, msg, mn, k, hyb, full, w); memcpy(alt, org, DSIG); stat_add("hints_padding", 1); set_add("padding_positions", "%u", j); nontriv(h_hash(w, strlen(w)) + (uint64_t)i); }
    /* counters: non-monotone, above 80 */
    for (int q = 0; q < 4; q++) { cnt[q] = (u8)(81 + rn(175)); snprintf(w, sizeof w, "hint counter %d = %u", q, cnt[q]); dil_alt(alt, msg, mn, k, hyb, full, w); memcpy(alt, org, DSIG); if (q) { cnt[q] = (u8)rn(cnt[q - 1] ? cnt[q - 1] : 1); if (cnt[q] < cnt[q - 1]) { snprintf(w, sizeof w, "hint counter %d decreases to %u", q, cnt[q]); dil_alt(alt, msg, mn, k, hyb, full, w); } memcpy(alt, org, DSIG); } stat_add("hint_counters", 1); }
  }
  CASES("no-hints", i, h_count(48, 600)) { /* valid signatures with an empty hint block (key with t = 0), every padding byte set */
    static h_key wkk; memcpy(&wkk, h_getkey(rn(12)), sizeof wkk); gen_dil_weak(wkk.pk + 32, wkk.sk + 64); unsigned n = 1 + rn(64); rpat(m, n); rbytes(nonce, 40); ref_compact_sign(base, m, n, wkk.sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, wkk.pk + 1344); memcpy(alt, base + 66, DSIG);
    ev(1); if (!accepted(0, base, COMPACT(n), wkk.pk)) { VIOL("baseline", "valid signature without hints refused"); continue; } if (alt[DSIG - 1]) continue; stat_add("signatures_without_hints", 1);
    for (int q = 0; q < 80; q++) { if (q && q != 79 && rn(3)) continue; alt[2336 + q] = (u8)(rn(2) ? 1 : 1 + rn(255)); snprintf(w, sizeof w, "padding index %d of an empty hint block set to %u", q, alt[2336 + q]); dil_alt(alt, h, 64, &wkk, base, 0, w); alt[2336 + q] = 0; stat_add("hints_padding", 1); nontriv(h_hash(w, strlen(w)) + (uint64_t)i); }
  }
  CASES("hints-last-index", i, h_count(40, 600)) { /* polynomials whose hint list contains index 255 or 0: order and repetition around the ends of the range */
    const h_key *k = h_getkey(rn(12)); unsigned n = 1 + rn(64); rpat(m, n); int ok = 0; for (int t = 0; t < 60 && !ok; t++) { rbytes(nonce, 40); ref_compact_sign(base, m, n, k->sk, nonce, NULL); const u8 *hp = base + 66 + 2336; for (int p = 0; p < 4; p++) { unsigned a = p ? hp[79 + p] : 0, b = hp[80 + p]; if (b > a + 1 && (i & 1 ? hp[b - 1] == 255 : hp[a] == 0)) ok = 1 + p; } }
    if (!ok) continue; ref_compact_digest(h, nonce, m, n, k->pk + 1344); memcpy(alt, base + 66, DSIG); u8 *hp = alt + 2336; int p = ok - 1; unsigned a = p ? hp[79 + p] : 0, b = hp[80 + p], tot = hp[83]; stat_add("hint_lists_with_end_index", 1);
    if (i & 1) { u8 t = hp[b - 1]; memmove(hp + a + 1, hp + a, b - a - 1); hp[a] = t; dil_alt(alt, h, 64, k, base, 0, "index 255 moved to the front"); memcpy(alt, base + 66, DSIG); t = hp[b - 2]; hp[b - 2] = hp[b - 1]; hp[b - 1] = t; dil_alt(alt, h, 64, k, base, 0, "index 255 before its predecessor"); if (b > a + 2) { memcpy(alt, base + 66, DSIG); t = hp[b - 3]; hp[b - 3] = 255; hp[b - 1] = hp[b - 2]; hp[b - 2] = t; dil_alt(alt, h, 64, k, base, 0, "index 255 two places early"); } }
    else { u8 t = hp[a]; memmove(hp + a, hp + a + 1, b - a - 1); hp[b - 1] = t; dil_alt(alt, h, 64, k, base, 0, "index 0 moved to the end"); memcpy(alt, base + 66, DSIG); t = hp[a + 1]; hp[a + 1] = hp[a]; hp[a] = t; dil_alt(alt, h, 64, k, base, 0, "index 0 after its successor"); }
    memcpy(alt, base + 66, DSIG); if (tot < 80) { unsigned j = i & 1 ? b - 1 : a; memmove(hp + j + 1, hp + j, tot - j); for (int q = p; q < 4; q++) hp[80 + q]++; dil_alt(alt, h, 64, k, base, 0, i & 1 ? "index 255 repeated" : "index 0 repeated"); } nontriv(h_hash(base, 200));
  }
  /* z outside the bound: every coefficient, both signs; value on the bound, inside the forbidden zone, at the encoding limit */
  CASES("z-bound", i, 1024 * h_count(2, 24)) {
    const h_key *k = h_getkey(rn(12)); unsigned n = 1 + rn(64); int B = (1 << 17) - 78, kind = (int)rn(5), sg = (i / 1024) % 2 ? -1 : 1; ref_dil_opts o = {.fz_on = 1, .fz_poly = (int)(i % 1024) / 256, .fz_idx = (int)(i % 256)};
    if (kind == 0) { o.fz_lo = o.fz_hi = B; o.fz_y = sg * B; } else if (kind == 1) { o.fz_lo = B; o.fz_hi = B + 3; o.fz_y = sg * (B + 1); } else if (kind == 2) { o.fz_lo = B; o.fz_hi = (1 << 17) - 1; o.fz_y = sg * (B + 39); } else if (kind == 3) { o.fz_lo = (1 << 17) - 4; o.fz_hi = (1 << 17) - 1; o.fz_y = sg * ((1 << 17) - 2); } else { sg = 1; o.fz_lo = o.fz_hi = 1 << 17; o.fz_y = 1 << 17; }
    rpat(m, n); rbytes(nonce, 40); ref_compact_digest(h, nonce, m, n, k->pk + 1344); base[0] = 1; base[1] = (u8)n; ref_ed_sign(base + 2, h, 64, k->sk); memcpy(base + 2486, nonce, 40); memcpy(base + 2526, m, n); ref_dil_ev e;
    u8 rnd[32]; rbytes(rnd, 32); o.rnd = rnd; o.max_attempts = 3000; if (ref_dil_sign(alt, h, 64, k->sk + 64, &o, &e)) { stat_add("z_craft_failed", 1); continue; }
    if (i % 64 == 0) { ev(1); if (!ref_dil_verify(alt, h, 64, k->pk + 32, REF_DIL_NO_Z)) VIOL("model-disagrees", "crafted z signature does not satisfy the equation"); }
    snprintf(w, sizeof w, "z[%d][%d] out of bound (kind %d, sign %d)", o.fz_poly, o.fz_idx, kind, sg); if (i % 8 == 0) dil_alt(alt, h, 64, k, base, 0, w); else { memcpy(SM, base, COMPACT(n)); memcpy(SM + 66, alt, DSIG); ev(1); if (accepted(0, SM, COMPACT(n), k->pk)) VIOL("hybrid-dilithium-noncanonical", "compact open accepts %s", w); }
    stat_add("z_out_of_bound", 1); set_add("z_kind", "%d/%d", kind, sg); set_add("z_coefficient", "%ld", i % 1024); nontriv(h_hash(alt, DSIG));
  }
  CASES("z-bound-full", i, h_count(24, 300)) {
    unsigned key = (unsigned)i % 12, n = 1 + rn(64); const u8 *mm, *f = fullbase(key, n, &mm); const h_key *k = h_getkey(key); int B = (1 << 17) - 78; ref_dil_opts o = {.fz_on = 1, .fz_poly = (int)rn(4), .fz_idx = (int)rn(256), .fz_lo = B, .fz_hi = (1 << 17) - 1, .fz_y = B + (int)rn(50), .max_attempts = 3000}; u8 rnd[32]; rbytes(rnd, 32); o.rnd = rnd; if (ref_dil_sign(alt, mm, n, k->sk + 64, &o, NULL)) continue;
    dil_alt(alt, mm, n, k, f, 1, "z out of bound"); stat_add("z_out_of_bound_full", 1); nontriv(h_hash(alt, DSIG));
  }
}

/* ---------- C20 ---------- */
void drv_C20(void) {
  u8 m[64]; static u8 C[COMPACTMAX], F[FULLMAX + 64]; char w[160];
  CASES("id", i, h_count(128, 2000)) { /* the id byte of what the library makes, and acceptance by exactly one mode */
    const h_key *k = h_getkey(rn(H_NKEYS)); unsigned n = 1 + (unsigned)(i % 64); ull sl = 0; rpat(m, n); int r = hy_csign(C, &sl, m, n, k->sk); ev(2); if (r || C[0] != 1) VIOL("id", "compact signature: return %d id %u", r, C[0]);
    memset(F, 0, sizeof F); memcpy(F, C, COMPACT(n)); if (accepted(1, F, COMPACT(n), k->pk) || accepted(1, F, FULL(n), k->pk)) VIOL("compact-as-full", "compact signature accepted by full open");
    if (i % 16 == 0) { r = hy_fsign(F, &sl, m, n, k->sk); ev(2); if (r || F[0] != 2) VIOL("id", "full signature: return %d id %u", r, F[0]); if (accepted(0, F, FULL(n), k->pk) || accepted(0, F, COMPACT(n), k->pk)) VIOL("full-as-compact-plain", "full signature accepted by compact open"); }
    nontriv(h_hash(C, 100)); set_add("lengths", "%u", n);
  }
  /* compact signature rearranged into a full one: parts over the digest are valid full-mode parts for the message "digest" */
  CASES("compact->full", i, h_count(256, 4000)) {
    unsigned key = rn(12), n = 1 + (unsigned)(i % 64); const h_key *k = h_getkey(key); u8 nonce[40], h[64]; rpat(m, n); rpat(nonce, 40); ref_compact_sign(C, m, n, k->sk, nonce, NULL); ref_compact_digest(h, nonce, m, n, k->pk + 1344);
    const u8 *fm, *f = h_fullsig(key, 64, &fm); int v = (int)(i / 2) % 6; unsigned fn = 64;
    F[0] = 2; F[1] = 64; memcpy(F + 2, C + 2, 64); memcpy(F + 66, h, 64); memcpy(F + 130, C + 66, DSIG); u8 *sp = F + 130 + DSIG;
    if (v == 0) memset(sp, 0, SSIG); else if (v == 1) memcpy(sp, f + 130 + DSIG, SSIG); else if (v == 2) rbytes(sp, SSIG); else if (v == 3) memset(sp, 0xff, SSIG);
    else { fn = n; F[1] = (u8)n; memcpy(F + 66, m, n); memcpy(F + 66 + n, C + 66, DSIG); memset(F + 66 + n + DSIG, v == 4 ? 0 : 0x11, SSIG); }
    snprintf(w, sizeof w, "compact signature rearranged as full, variant %d", v); must_reject(1, F, FULL(fn), k->pk, F + 66, fn, "compact-as-full", w); set_add("compact_to_full_variants", "%d", v); nontriv(h_hash(F, 400));
  }
  CASES("compact-header", i, 256 * h_count(1, 4)) { /* every id byte on an otherwise valid signature */
    unsigned key = rn(12), n = 1 + rn(64); const h_key *k = h_getkey(key); u8 nonce[40]; rpat(m, n); rbytes(nonce, 40); ref_compact_sign(C, m, n, k->sk, nonce, NULL); C[0] = (u8)i; int want = C[0] == 1; ev(2);
    int a = accepted(0, C, COMPACT(n), k->pk); if (a != want) VIOL("id-not-checked", "compact open with id %u: accepted %d", C[0], a); memset(F, 0, sizeof F); memcpy(F, C, COMPACT(n)); if (accepted(1, F, COMPACT(n), k->pk)) VIOL("compact-as-full", "compact signature with id %u accepted by full open", C[0]); set_add("ids", "%u", C[0]); nontriv(h_hash(C, 100));
  }
  CASES("full-header", i, 256) {
    unsigned key = (unsigned)(h_seed % 3); const u8 *fm; unsigned n = 64; const u8 *f = h_fullsig(key, n, &fm); memcpy(F, f, FULL(n)); F[0] = (u8)i; ev(3); int want = i == 2, a = accepted(1, F, FULL(n), h_getkey(key)->pk); if (a != want) VIOL("id-not-checked", "full open with id %ld: accepted %d", i, a);
    if (accepted(0, F, FULL(n), h_getkey(key)->pk) || accepted(0, F, COMPACT(n), h_getkey(key)->pk)) VIOL("full-as-compact-plain", "full signature with id %ld accepted by compact open", i); nontriv((uint64_t)i + 9);
  }
  /* full signature rearranged into a compact one */
  CASES("full->compact", i, h_count(256, 4000)) {
    unsigned key = rn(3), n = 1 + (unsigned)(i % 64); const h_key *k = h_getkey(key); const u8 *fm, *f = h_fullsig(key, n == 64 || i % 2 ? 64 : n, &fm); unsigned fn = f[1]; int v = (int)rn(5); unsigned cn = fn;
    C[0] = 1; C[1] = (u8)fn; memcpy(C + 2, f + 2, 64); memcpy(C + 66, f + 66 + fn, DSIG); memcpy(C + 2526, fm, fn);
    if (v == 0) memset(C + 2486, 0, 40); else if (v == 1) rbytes(C + 2486, 40); else if (v == 2) memcpy(C + 2486, f + 66 + fn + DSIG, 40); else if (v == 3 && fn == 64) { memcpy(C + 2486, fm, 40); cn = 24; C[1] = 24; memcpy(C + 2526, fm + 40, 24); } else { memset(C + 2486, 0xff, 40); }
    must_reject(0, C, COMPACT(cn), k->pk, C + 2526, cn, "full-as-compact-rearranged", "full signature rearranged as compact"); memcpy(F, f, FULL(fn)); F[0] = 1; must_reject(0, F, COMPACT(fn), k->pk, fm, fn, "full-as-compact-plain", "full signature with id 1"); set_add("full_to_compact_variants", "%d", v); nontriv(h_hash(C, 400) + (uint64_t)i);
  }
  /* the digest pre-image: full-mode signature over m' = SHA3-512(nonce,m,spx pk) */
  CASES("digest-preimage", i, h_count(16, 128)) {
    unsigned n = 1 + (unsigned)(i * 5 % 64); const h_key *k = h_getkey(rn(12)); u8 nonce[40], h[64], opt[32]; rpat(m, n); rbytes(nonce, 40); rbytes(opt, 32); ref_compact_digest(h, nonce, m, n, k->pk + 1344); ent_script(r64(), opt, 32); ull sl = 0;
    int r = hy_fsign(F, &sl, h, 64, k->sk); ev(2); if (r) { VIOL("sign", "full sign failed"); continue; }
    C[0] = 1; C[1] = (u8)n; memcpy(C + 2, F + 2, 64); memcpy(C + 66, F + 130, DSIG); memcpy(C + 2486, nonce, 40); memcpy(C + 2526, m, n);
    if (accepted(0, C, COMPACT(n), k->pk)) KNOWNV("full-sig-as-compact", "compact open accepts the parts of a full signature over the digest of (nonce, m, spx pk), n=%u", n);
    nontriv(h_hash(C, 200)); stat_add("digest_preimage_cases", 1);
  }
}
