/* C05 malformed arguments are refused without side effects; C07 calls write exactly their outputs */
#include "gen.h"
static ull *LEN(void) { return (ull *)gb_ptr(G_LEN); }
static void need_lens(void) { gb(G_LEN, 8); }
/* a compact/full reference signature of a given length */
static void valid_sig(int full, unsigned key, unsigned n, u8 *sm, u8 *m) {
  if (full) { const u8 *mm; const u8 *s = h_fullsig(key, n, &mm); memcpy(sm, s, FULL(n)); memcpy(m, mm, n); return; }
  h_rng sv = R; r_seed(h_seed + key, 0xa5a5 + n); u8 nonce[40]; rbytes(m, n); rbytes(nonce, 40); ref_compact_sign(sm, m, n, h_getkey(key)->sk, nonce, NULL); R = sv;
}
static const char *md(int full) { return full ? "full" : "compact"; }
static void refused_open(int full, u8 *m, const u8 *sm, ull sl, const u8 *pk, ull *ml, const char *what) {
  int r = full ? hy_fopen(m, ml, sm, sl, pk) : hy_copen(m, ml, sm, sl, pk); ev(1);
  if (r == 0) VIOL("accepted-malformed", "%s open returns 0: %s", md(full), what);
  if ((m && !gb_untouched(G_M)) || (ml && !gb_untouched(G_LEN))) { VIOL("output-touched", "%s open refused (%d) but wrote to its outputs: %s", md(full), r, what); gb_fill(G_M); gb_fill(G_LEN); }
}
static void refused_verify(int full, const u8 *m, ull n, const u8 *sm, ull sl, const u8 *pk, const char *what) {
  int r = full ? hy_fverify(m, n, sm, sl, pk) : hy_cverify(m, n, sm, sl, pk); ev(1);
  if (r == 0) VIOL("accepted-malformed", "%s verify returns 0: %s", md(full), what);
}
static void refused_sign(int full, u8 *sm, ull *sl, const u8 *m, ull n, const u8 *sk, const char *what) {
  int r = full ? hy_fsign(sm, sl, m, n, sk) : hy_csign(sm, sl, m, n, sk); ev(1);
  if (r == 0) VIOL("accepted-malformed", "%s sign returns 0: %s", md(full), what);
  if ((sm && !gb_untouched(G_SM)) || (sl && !gb_untouched(G_LEN))) { VIOL("output-touched", "%s sign refused (%d) but wrote to its outputs: %s", md(full), r, what); gb_fill(G_SM); gb_fill(G_LEN); }
}
/* lengths that equal v after some truncation or sign confusion */
static unsigned alias(ull *o, ull v) {
  unsigned k = 0; static const int sh[] = {8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 62, 63};
  for (unsigned i = 0; i < 16; i++) { o[k++] = v + (1ULL << sh[i]); o[k++] = v - (1ULL << sh[i]); o[k++] = v | (1ULL << sh[i]); o[k++] = (1ULL << sh[i]); o[k++] = (1ULL << sh[i]) - 1; }
  o[k++] = 0 - v; o[k++] = ~0ULL; o[k++] = ~0ULL - 1; o[k++] = v << 32; o[k++] = (v << 32) | v; o[k++] = v * 0x0101010101010101ULL; o[k++] = 0x8000000000000000ULL | v; o[k++] = 0xffffffff00000000ULL | v; o[k++] = 0x7fffffffffffffffULL; o[k++] = 0xffffffffULL; o[k++] = 0x80000000ULL | v;
  return k;
}
void drv_C05(void) {
  char w[200]; u8 msg[64]; static u8 tmp[FULLMAX + 4096]; ull al[128];
  /* NULL arguments: every non-empty subset, with otherwise valid and with invalid lengths */
  CASES("null", i, 11 * 31) {
    int fn = (int)(i / 31), mask = (int)(i % 31) + 1; const h_key *k = h_getkey(0); int full = fn == 4 || fn == 6 || fn == 8; unsigned n = 1 + rn(64);
    static const int nargs[] = {2, 3, 2, 0, 4, 4, 4, 4, 3, 3, 3}; (void)nargs;
    if (fn == 3) { /* seedexpander_wrapper */ if (mask > 3) continue; u8 *s = gb_dup(G_SEED, k->seed, 64), *o = gb(G_OUT, 128); int r = seedexpander_wrapper(mask & 1 ? NULL : s, 64, mask & 2 ? NULL : o, 128); ev(1); if (r == 0) VIOL("accepted-null", "seedexpander_wrapper with NULL mask %d returned 0", mask); }
    else if (fn == 0) { if (mask > 3) continue; gb(G_PK, PKB); gb(G_SK, SKB); int r = hy_keypair(mask & 1 ? NULL : gb_ptr(G_PK), mask & 2 ? NULL : gb_ptr(G_SK)); ev(1); if (r == 0) VIOL("accepted-null", "keypair with NULL mask %d returned 0", mask); if (!gb_untouched(G_PK) || !gb_untouched(G_SK)) VIOL("output-touched", "keypair with NULL mask %d wrote an output", mask); }
    else if (fn == 1) { if (mask > 7) continue; gb(G_PK, PKB); gb(G_SK, SKB); gb_dup(G_SEED, k->seed, 160); int r = hy_keypair_seed(mask & 1 ? NULL : gb_ptr(G_PK), mask & 2 ? NULL : gb_ptr(G_SK), mask & 4 ? NULL : gb_ptr(G_SEED)); ev(1); if (r == 0) VIOL("accepted-null", "keypair_seed with NULL mask %d returned 0", mask); if (!gb_untouched(G_PK) || !gb_untouched(G_SK)) VIOL("output-touched", "keypair_seed with NULL mask %d wrote an output", mask); }
    else if (fn == 2) { if (mask > 3) continue; gb_dup(G_SEED, k->seed, 96); gb(G_OUT, 160); int r = hy_expand(mask & 1 ? NULL : gb_ptr(G_SEED), mask & 2 ? NULL : gb_ptr(G_OUT)); ev(1); if (r == 0) VIOL("accepted-null", "seed expander with NULL mask %d returned 0", mask); if (!gb_untouched(G_OUT)) VIOL("output-touched", "seed expander with NULL mask %d wrote its output", mask); }
    else if (fn <= 5) { if (mask > 15) continue; rbytes(msg, 64); u8 *m = gb_dup(G_MSG, msg, n), *sk = gb_dup(G_K, k->sk, SKB), *sm = gb(G_SM, full ? FULL(n) : COMPACT(n)); need_lens();
      for (int bad = 0; bad < 4; bad++) { ull mn = bad == 0 ? n : bad == 1 ? 0 : bad == 2 ? 65 : ~0ULL; snprintf(w, sizeof w, "NULL mask %d (sm,smlen,m,sk), mlen %llu", mask, mn); refused_sign(full, mask & 1 ? NULL : sm, mask & 2 ? NULL : LEN(), mask & 4 ? NULL : m, mn, mask & 8 ? NULL : sk, w); } }
    else if (fn <= 7) { if (mask > 15) continue; ull L = full ? FULL(n) : COMPACT(n); valid_sig(full, 0, n, tmp, msg); u8 *sm = gb_dup(G_SM, tmp, L), *pk = gb_dup(G_PK, k->pk, PKB), *m = gb(G_M, 64); need_lens();
      for (int bad = 0; bad < 4; bad++) { ull sl = bad == 0 ? L : bad == 1 ? 0 : bad == 2 ? 1 : ~0ULL; snprintf(w, sizeof w, "NULL mask %d (m,mlen,sm,pk), smlen %llu", mask, sl); refused_open(full, mask & 1 ? NULL : m, mask & 4 ? NULL : sm, sl, mask & 8 ? NULL : pk, mask & 2 ? NULL : LEN(), w); } }
    else if (fn <= 9) { if (mask > 7) continue; ull L = full ? FULL(n) : COMPACT(n); valid_sig(full, 0, n, tmp, msg); u8 *sm = gb_dup(G_SM, tmp, L), *pk = gb_dup(G_PK, k->pk, PKB), *m = gb_dup(G_MSG, msg, n);
      for (int bad = 0; bad < 6; bad++) { ull sl = bad < 3 ? L : bad == 3 ? 0 : bad == 4 ? 1 : ~0ULL, mn = bad % 3 == 0 ? n : bad % 3 == 1 ? 0 : 65; snprintf(w, sizeof w, "NULL mask %d (m,sm,pk), mlen %llu smlen %llu", mask, mn, sl); refused_verify(full, mask & 1 ? NULL : m, mn, mask & 2 ? NULL : sm, sl, mask & 4 ? NULL : pk, w); } }
    else { if (mask > 7) continue; u8 sig[DSIG]; rbytes(msg, n); ref_dil_sign(sig, msg, n, k->sk + 64, NULL, NULL); u8 *s = gb_dup(G_SM, sig, DSIG), *pk = gb_dup(G_PK, k->pk + 32, 1312), *m = gb_dup(G_MSG, msg, n); int r = crypto_verify_dilithium(mask & 1 ? NULL : m, n, mask & 2 ? NULL : s, DSIG, mask & 4 ? NULL : pk); ev(1); if (r == 0) VIOL("accepted-null", "crypto_verify_dilithium with NULL mask %d returned 0", mask); }
    gb_check("call with NULL argument"); stat_add("null_combinations", 1); nontriv((uint64_t)i + 1); set_add("functions_given_null", "%d", fn);
  }
  /* message lengths for sign and verify */
  CASES("sign-mlen", i, 2 * 64) {
    int full = (int)(i & 1); unsigned n = 1 + (unsigned)(i / 2); const h_key *k = h_getkey((unsigned)i); rbytes(msg, 64); u8 *m = gb_dup(G_MSG, msg, 64), *sk = gb_dup(G_K, k->sk, SKB), *sm = gb(G_SM, full ? FULLMAX : COMPACTMAX); need_lens();
    unsigned q = alias(al, n); for (ull v = 65; v < 330 && i < 2; v++) al[0] = v, snprintf(w, sizeof w, "mlen %llu", v), refused_sign(full, sm, LEN(), m, v, sk, w);
    al[0] = 0; al[1] = 65; al[2] = 128; al[3] = 256; al[4] = 257; for (unsigned j = 0; j < q; j++) if (al[j] == 0 || al[j] > 64) { snprintf(w, sizeof w, "mlen %llu", al[j]); refused_sign(full, sm, LEN(), m, al[j], sk, w); stat_add("sign_length_values", 1); nontriv(al[j] * 3 + 1); }
    gb_check("sign"); set_add("aliased_lengths", "%u", n);
  }
  CASES("verify-mlen", i, 2 * 64) {
    int full = (int)(i & 1); unsigned n = 1 + (unsigned)(i / 2); const h_key *k = h_getkey((unsigned)i % 3); ull L = full ? FULL(n) : COMPACT(n); valid_sig(full, (unsigned)i % 3, n, tmp, msg); u8 *sm = gb_dup(G_SM, tmp, L), *pk = gb_dup(G_PK, k->pk, PKB); memset(msg + n, 0, 64 - n); u8 *m = gb_dup(G_MSG, msg, 64);
    unsigned q = alias(al, n); al[0] = 0; al[1] = 65; al[2] = 128; al[3] = 256; for (unsigned j = 0; j < q; j += full && !h_thorough ? 1 + rn(6) : 1) if (al[j] != n) { snprintf(w, sizeof w, "mlen %llu for a signature over %u bytes", al[j], n); refused_verify(full, m, al[j], sm, L, pk, w); nontriv(al[j] * 5 + 1); }
    for (ull v = 0; v <= 130; v++) if (v != n && (!full || v % 16 == n % 16 || v == n + 1 || v + 1 == n || v == 0)) { snprintf(w, sizeof w, "mlen %llu for a signature over %u bytes", v, n); refused_verify(full, m, v, sm, L, pk, w); }
    stat_add("verify_length_cases", 1);
  }
  /* signature lengths: buffers end exactly where the declared length ends */
  CASES("smlen", i, 2 * 64) {
    int full = (int)(i & 1); unsigned n = 1 + (unsigned)(i / 2), key = (unsigned)i % 3;
    const h_key *k = h_getkey(key); ull L = full ? FULL(n) : COMPACT(n), base = full ? 52342 : 2526; valid_sig(full, key, n, tmp, msg); rbytes(tmp + L, 2000); if (rn(2)) memset(tmp + L, 0, 2000); u8 *pk = gb_dup(G_PK, k->pk, PKB), *m = gb(G_M, 64), *vm = gb_dup(G_MSG, msg, n); need_lens();
    for (ull v = base - 4; v <= base + 90; v++) if (v != L) { u8 *sm = gb_dup(G_SM, tmp, v); snprintf(w, sizeof w, "smlen %llu where the header says message length %u (smlen %llu)", v, n, L); refused_open(full, m, sm, v, pk, LEN(), w); refused_verify(full, vm, n, sm, v, pk, w); stat_add("signature_length_values", 1); nontriv(v * 64 + n); }
    unsigned q = alias(al, L); u8 *sm = gb_dup(G_SM, tmp, L + 1024); for (unsigned j = 0; j < q; j++) if (al[j] > L + 1024) { snprintf(w, sizeof w, "smlen %llu where the header implies %llu", al[j], L); refused_open(full, m, sm, al[j], pk, LEN(), w); refused_verify(full, vm, n, sm, al[j], pk, w); stat_add("signature_length_aliases", 1); }
    gb_check("open");
  }
  CASES("smlen-short", i, h_count(2600 + 900, 52500)) { /* every short length */
    int full = i >= 2600 || i % 2; ull v = full ? (i < 2600 ? (ull)i : (ull)(i - 2600) * (h_thorough ? 1 : 58)) : (ull)i; if (v >= (full ? 52343 : 2527)) continue; unsigned n = 1 + rn(64); valid_sig(full, 0, n, tmp, msg); if (rn(4) == 0) rbytes(tmp, FULLMAX);
    u8 *sm = gb_dup(G_SM, tmp, v), *pk = gb_dup(G_PK, h_getkey(0)->pk, PKB), *m = gb(G_M, 64); need_lens(); snprintf(w, sizeof w, "only %llu bytes", v); refused_open(full, m, sm, v, pk, LEN(), w); refused_verify(full, msg, n, sm, v, pk, w); stat_add("short_lengths", 1); nontriv(v * 2 + (ull)full); gb_check("open");
  }
  /* header bytes: all 65536 for a set of lengths */
  CASES("header", i, 2 * 256) {
    int full = (int)(i & 1); int id = (int)(i / 2); unsigned n = 1 + rn(64), key = rn(3); valid_sig(full, key, n, tmp, msg); ull L = full ? FULL(n) : COMPACT(n); u8 *sm = gb_dup(G_SM, tmp, L), *pk = gb_dup(G_PK, h_getkey(key)->pk, PKB), *m = gb(G_M, 64), *vm = gb_dup(G_MSG, msg, n); need_lens(); sm[0] = (u8)id;
    for (int lb = 0; lb < 256; lb++) { if (id == (full ? 2 : 1) && lb == (int)n) continue; sm[1] = (u8)lb; snprintf(w, sizeof w, "header %d,%d with smlen %llu", id, lb, L); refused_open(full, m, sm, L, pk, LEN(), w); refused_verify(full, vm, n, sm, L, pk, w); nontriv((uint64_t)id * 256 + (uint64_t)lb + 70000 * (uint64_t)full); }
    stat_add("headers", 256); gb_check("open");
  }
  CASES("header-lengths", i, 66) { /* right id, every length byte against every signature length (compact) */
    ull v = 2525 + (ull)i; valid_sig(0, 0, 64, tmp, msg); u8 *sm = gb_dup(G_SM, tmp, v), *pk = gb_dup(G_PK, h_getkey(0)->pk, PKB), *m = gb(G_M, 64); need_lens();
    for (int lb = 0; lb < 256; lb++) { if ((ull)lb + 2526 == v && lb >= 1 && lb <= 64) continue; sm[0] = 1; sm[1] = (u8)lb; snprintf(w, sizeof w, "length byte %d, smlen %llu", lb, v); refused_open(0, m, sm, v, pk, LEN(), w); } stat_add("headers", 256);
  }
  CASES("header-lengths-full", i, 66) {
    ull v = 52341 + (ull)i; valid_sig(1, 0, 64, tmp, msg); u8 *sm = gb_dup(G_SM, tmp, v), *pk = gb_dup(G_PK, h_getkey(0)->pk, PKB), *m = gb(G_M, 64); need_lens();
    for (int lb = 0; lb < 256; lb++) { if ((ull)lb + 52342 == v && lb >= 1 && lb <= 64) continue; sm[0] = 2; sm[1] = (u8)lb; snprintf(w, sizeof w, "length byte %d, smlen %llu", lb, v); refused_open(1, m, sm, v, pk, LEN(), w); } stat_add("headers", 256);
  }
  /* standalone components: wrong signature lengths */
  CASES("dilithium-siglen", i, h_count(400, 6000)) {
    const h_key *k = h_getkey(rn(4)); unsigned n = 1 + rn(64); rbytes(msg, n); u8 sig[DSIG]; ref_dil_sign(sig, msg, n, k->sk + 64, NULL, NULL); memcpy(tmp, sig, DSIG); memcpy(tmp + DSIG, msg, n); rbytes(tmp + DSIG + n, 100); u8 *pk = gb_dup(G_PK, k->pk + 32, 1312), *m = gb_dup(G_MSG, msg, n);
    ull v = i < 90 ? (ull)(DSIG - 45 + i) : rn(DSIG); if (v == DSIG) continue; u8 *s = gb_dup(G_SM, tmp, v); ev(2); if (dil_verify(s, v, m, n, pk) == 0) VIOL("accepted-malformed", "Dilithium verify accepts signature length %llu", v); if (crypto_verify_dilithium(m, n, s, v, pk) == 0) VIOL("accepted-malformed", "crypto_verify_dilithium accepts signature length %llu", v);
    s = gb_dup(G_SM, tmp, DSIG); unsigned q = alias(al, DSIG); for (unsigned j = 0; j < q; j++) if (al[j] > DSIG) { ev(2); if (dil_verify(s, al[j], m, n, pk) == 0) VIOL("accepted-malformed", "Dilithium verify accepts signature length %llu", al[j]); if (crypto_verify_dilithium(m, n, s, al[j], pk) == 0) VIOL("accepted-malformed", "crypto_verify_dilithium accepts signature length %llu", al[j]); }
    q = alias(al, n); al[0] = 0; al[1] = 65; for (unsigned j = 0; j < q; j++) if (al[j] == 0 || al[j] > 64) { ev(1); if (crypto_verify_dilithium(m, al[j], s, DSIG, pk) == 0) VIOL("accepted-malformed", "crypto_verify_dilithium accepts message length %llu", al[j]); }
    ull sv = rn(DSIG); size_t ml; u8 *o = gb(G_OUT, sv); s = gb_dup(G_SM, tmp, sv); ev(1); if (dil_open(o, &ml, s, sv, pk) == 0) VIOL("accepted-malformed", "Dilithium open accepts %llu bytes", sv);
    nontriv(v * 7 + sv); stat_add("dilithium_lengths", 1); gb_check("dilithium");
  }
  CASES("sphincs-siglen", i, h_count(300, 6000)) {
    const u8 *mm; unsigned n = 1 + rn(64); const u8 *fs = h_fullsig(0, n, &mm); const u8 *ss = fs + 66 + n + DSIG; memcpy(tmp, ss, SSIG); memcpy(tmp + SSIG, mm, n); u8 *pk = gb_dup(G_PK, h_getkey(0)->pk + 1344, 64), *m = gb_dup(G_MSG, mm, n);
    ull v = i < 90 ? (ull)(SSIG - 45 + i) : rn(SSIG); if (v == SSIG) continue; u8 *s = gb_dup(G_SM, tmp, v); ev(1); if (spx_verify(s, v, m, n, pk) == 0) VIOL("accepted-malformed", "SPHINCS+ verify accepts signature length %llu", v);
    s = gb_dup(G_SM, tmp, SSIG); unsigned q = alias(al, SSIG); for (unsigned j = 0; j < q; j++) if (al[j] > SSIG) { ev(1); if (spx_verify(s, al[j], m, n, pk) == 0) VIOL("accepted-malformed", "SPHINCS+ verify accepts signature length %llu", al[j]); }
    ull sv = rn(SSIG); size_t ml; u8 *o = gb(G_OUT, sv); s = gb_dup(G_SM, tmp, sv); ev(1); if (spx_open(o, &ml, s, sv, pk) == 0) VIOL("accepted-malformed", "SPHINCS+ open accepts %llu bytes", sv);
    nontriv(v * 11 + sv); stat_add("sphincs_lengths", 1); gb_check("sphincs");
  }
  CASES("expander-lengths", i, h_count(600, 4000)) {
    size_t sl = i < 64 ? (size_t)i : 32 + rn(200), ol = i < 64 ? 1 + rn(300) : rn((uint32_t)sl + 1); int bad = sl < 32 || ol <= sl; rbytes(tmp, 512); u8 *s = gb_dup(G_SEED, tmp, sl), *o = gb(G_OUT, ol); int r = seedexpander_wrapper(s, sl, o, ol); ev(1);
    if (bad && r == 0) VIOL("accepted-malformed", "seedexpander_wrapper accepts seed length %zu output length %zu", sl, ol); if (!bad && r) VIOL("refused-valid", "seedexpander_wrapper refuses seed length %zu output length %zu", sl, ol); nontriv(sl * 1000 + ol); stat_add("expander_lengths", 1); gb_check("seed expander");
  }
  CASES("sanity", i, 16) { unsigned n = 1 + (unsigned)i * 4; valid_sig(0, 0, n, tmp, msg); ull ml = 0; u8 o[64]; ev(1); if (hy_copen(o, &ml, tmp, COMPACT(n), h_getkey(0)->pk)) VIOL("baseline", "a valid compact signature is refused (n=%u)", n); if (i % 4 == 0) { n = 3 + 4 * (unsigned)i; valid_sig(1, 0, n, tmp, msg); ev(1); if (hy_fopen(o, &ml, tmp, FULL(n), h_getkey(0)->pk)) VIOL("baseline", "a valid full signature is refused"); } if (!i) sample("valid header %s refused for every other smlen/mlen/id/length byte", hex(tmp, 4)); }
}

/* ------------------------------------------------------------------ C07 */
static u8 snap[G_SLOTS][FULLMAX + 8192];
static void in(int slot, const void *p, size_t n) { gb_dup(slot, p, n); memcpy(snap[slot], p, n); }
static void in_ro(int slot, const void *p, size_t n) { in(slot, p, n); gb_ro(slot); }
static void in_check(int slot, const char *fn, const char *what) { gb_rw(slot); ev(1); if (memcmp(snap[slot], gb_ptr(slot), gb_size(slot))) VIOL("input-modified", "%s changed its %s", fn, what); }
/* an output buffer larger than needed: [0,n) must be written, the rest not */
static u8 shot[FULLMAX + 8192];
static void out_a(int slot, size_t n) { h_defined(gb_ptr(slot), n); memcpy(shot, gb_ptr(slot), n); }
static void out_tail(int slot, size_t n, const char *fn) { /* everything after n is the pattern */
  u8 *p = gb_ptr(slot); size_t tot = gb_size(slot); static u8 keep[FULLMAX + 8192]; memcpy(keep, p, n); gb_fill(slot);
#ifndef H_MSAN
  (void)tot;
#endif
  memcpy(p, keep, n); (void)fn;
}
static int tail_ok(int slot, size_t n) { /* compare the tail with the fill pattern */
  static u8 keep[FULLMAX + 8192]; u8 *p = gb_ptr(slot); size_t tot = gb_size(slot); memcpy(keep, p, tot); gb_fill(slot); int ok = memcmp(keep + n, p + n, tot - n) == 0; memcpy(p, keep, tot); return ok;
}
typedef int (*opfn)(void *c);
/* runs fn twice with different previous contents of the output slot; the first n bytes must be the same both times, the rest untouched */
static int exact_out(const char *name, int slot, size_t bufsz, size_t n, opfn fn, void *c) {
  uint64_t ek = r64(); u8 *p = gb(slot, bufsz); ent_reset(ek); int r = fn(c); ev(1); gb_check(name);
  if (r) { VIOL("call-failed", "%s returned %d", name, r); return r; }
#ifndef H_MSAN
  if (bufsz > n && !tail_ok(slot, n)) VIOL("wrote-past-output", "%s wrote beyond the %zu bytes of its output", name, n);
  memcpy(shot, p, n); for (size_t i = 0; i < bufsz; i++) p[i] = (u8)~p[i]; static u8 pre[FULLMAX + 8192];
  gb(slot, bufsz); p = gb_ptr(slot); for (size_t i = 0; i < n; i++) if (p[i] == shot[i]) p[i] ^= 0x5a; memcpy(pre, p, bufsz); ent_reset(ek); r = fn(c);
  size_t bad = 0, first = 0; for (size_t i = 0; i < n; i++) if (p[i] != shot[i]) { if (!bad) first = i; bad++; }
  ev(1); if (bad) VIOL("output-not-written", "%s leaves %zu of %zu output bytes dependent on the buffer's previous contents, first at %zu", name, bad, n, first);
#else
  h_defined(p, n); (void)out_a; (void)out_tail;
#endif
  stat_add("exact_writes_checked", 1); return 0;
}
typedef struct { ull a, b; size_t s; int full; } actx;
static int o_sign(void *c) { actx *a = c; return a->full ? hy_fsign(gb_ptr(G_SM), (ull *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)) : hy_csign(gb_ptr(G_SM), (ull *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_open(void *c) { actx *a = c; return a->full ? hy_fopen(gb_ptr(G_M), (ull *)gb_ptr(G_LEN), gb_ptr(G_SM), a->b, gb_ptr(G_PK)) : hy_copen(gb_ptr(G_M), (ull *)gb_ptr(G_LEN), gb_ptr(G_SM), a->b, gb_ptr(G_PK)); }
static int o_kps(void *c) { return hy_keypair_seed(gb_ptr(G_PK), gb_ptr(G_SK), gb_ptr(G_SEED)); }
static int o_kp(void *c) { return hy_keypair(gb_ptr(G_PK), gb_ptr(G_SK)); }
static int o_exp(void *c) { return hy_expand(gb_ptr(G_SEED), gb_ptr(G_OUT)); }
static int o_wrap(void *c) { actx *a = c; return seedexpander_wrapper(gb_ptr(G_SEED), a->s, gb_ptr(G_OUT), a->a); }
static int o_dsig(void *c) { actx *a = c; return dil_sig(gb_ptr(G_OUT), (size_t *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_dsign(void *c) { actx *a = c; return dil_sign(gb_ptr(G_OUT), (size_t *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_dopen(void *c) { actx *a = c; return dil_open(gb_ptr(G_OUT), (size_t *)gb_ptr(G_LEN), gb_ptr(G_SM), a->a, gb_ptr(G_PK)); }
static int o_ssig(void *c) { actx *a = c; return spx_sig(gb_ptr(G_OUT), (size_t *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_ssign(void *c) { actx *a = c; return spx_sign(gb_ptr(G_OUT), (size_t *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_sopen(void *c) { actx *a = c; return spx_open(gb_ptr(G_OUT), (size_t *)gb_ptr(G_LEN), gb_ptr(G_SM), a->a, gb_ptr(G_PK)); }
static int o_edsign(void *c) { actx *a = c; return crypto_sign_ed25519(gb_ptr(G_OUT), (ull *)gb_ptr(G_LEN), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_box(void *c) { actx *a = c; return crypto_secretbox(gb_ptr(G_OUT), gb_ptr(G_MSG), a->a, gb_ptr(G_N), gb_ptr(G_K)); }
static int o_boxopen(void *c) { actx *a = c; return crypto_secretbox_open(gb_ptr(G_OUT), gb_ptr(G_MSG), a->a, gb_ptr(G_N), gb_ptr(G_K)); }
static int o_stream(void *c) { actx *a = c; return crypto_stream(gb_ptr(G_OUT), a->a, gb_ptr(G_N), gb_ptr(G_K)); }
static int o_xor(void *c) { actx *a = c; return crypto_stream_xor(gb_ptr(G_OUT), gb_ptr(G_MSG), a->a, gb_ptr(G_N), gb_ptr(G_K)); }
static int o_poly(void *c) { actx *a = c; return crypto_onetimeauth(gb_ptr(G_OUT), gb_ptr(G_MSG), a->a, gb_ptr(G_K)); }
static int o_hash(void *c) { actx *a = c; return crypto_hash(gb_ptr(G_OUT), gb_ptr(G_MSG), a->a); }
static int o_x(void *c) { return crypto_scalarmult(gb_ptr(G_OUT), gb_ptr(G_K), gb_ptr(G_N)); }
static int o_rand(void *c) { actx *a = c; return randombytes(gb_ptr(G_OUT), a->a); }
static int o_fips(void *c) { actx *a = c; u8 *o = gb_ptr(G_OUT), *m = gb_ptr(G_MSG); switch (a->full) { case 0: sha3_256(o, m, a->a); break; case 1: sha3_384(o, m, a->a); break; case 2: sha3_512(o, m, a->a); break; case 3: shake128(o, a->b, m, a->a); break; case 4: shake256(o, a->b, m, a->a); break; } return 0; }
static int failplan(void *c, unsigned call, size_t req, size_t *give) { long *k = c; /* k[0]: bytes to deliver first, k[1]: errno, k[2]: piece */
  if (k[0] <= 0) return (int)k[1]; if ((long)req > k[0]) *give = (size_t)k[0]; if (k[2] && *give > (size_t)k[2]) *give = (size_t)k[2]; k[0] -= (long)*give; return 0; }
void drv_C07(void) {
  u8 msg[64], nonce[40]; static u8 sm[FULLMAX + 64], big[FULLMAX + 8192]; actx a;
  CASES("compact-sign", i, h_count(256, 4000)) {
    unsigned n = 1 + (unsigned)(i % 64); const h_key *k = h_getkey(rn(H_NKEYS)); rpat(msg, n); in_ro(G_MSG, msg, n); in_ro(G_K, k->sk, SKB); gb(G_LEN, 8); a.full = 0; a.a = n;
    if (exact_out("compact sign", G_SM, i & 1 ? COMPACT(n) : COMPACTMAX + 100, COMPACT(n), o_sign, &a) == 0) { ev(1); if (*(ull *)gb_ptr(G_LEN) != COMPACT(n)) VIOL("length-output", "compact sign set length %llu for %u bytes", *(ull *)gb_ptr(G_LEN), n); }
    in_check(G_MSG, "compact sign", "message"); in_check(G_K, "compact sign", "secret key"); nontriv(h_hash(msg, n)); set_add("sign_lengths", "%u", n); if (i < 8) sample("compact sign n=%u buffer %zu", n, gb_size(G_SM));
  }
  CASES("full-sign", i, h_count(16, 400)) {
    unsigned n = 1 + (unsigned)(i * 13 % 64); const h_key *k = h_getkey(rn(H_NKEYS)); rpat(msg, n); in_ro(G_MSG, msg, n); in_ro(G_K, k->sk, SKB); gb(G_LEN, 8); a.full = 1; a.a = n;
    if (exact_out("full sign", G_SM, i & 1 ? FULL(n) : FULLMAX + 100, FULL(n), o_sign, &a) == 0) { ev(1); if (*(ull *)gb_ptr(G_LEN) != FULL(n)) VIOL("length-output", "full sign set length %llu", *(ull *)gb_ptr(G_LEN)); }
    in_check(G_MSG, "full sign", "message"); in_check(G_K, "full sign", "secret key"); nontriv(h_hash(msg, n));
  }
  CASES("open", i, h_count(512, 8000)) {
    int full = i % 4 == 3; unsigned n = 1 + (unsigned)((i / 4) % 64), key = full ? rn(H_FIXED) : rn(H_NKEYS); const h_key *k = h_getkey(key); valid_sig(full, key, n, sm, msg); ull L = full ? FULL(n) : COMPACT(n); in_ro(G_SM, sm, L); in_ro(G_PK, k->pk, PKB); gb(G_LEN, 8); a.full = full; a.b = L;
    if (exact_out(full ? "full open" : "compact open", G_M, i / 256 & 1 ? n : 64 + 40, n, o_open, &a) == 0) { ev(1); if (*(ull *)gb_ptr(G_LEN) != n) VIOL("length-output", "open set length %llu for %u", *(ull *)gb_ptr(G_LEN), n); }
    in_ro(G_MSG, msg, n); int r = full ? hy_fverify(gb_ptr(G_MSG), n, gb_ptr(G_SM), L, gb_ptr(G_PK)) : hy_cverify(gb_ptr(G_MSG), n, gb_ptr(G_SM), L, gb_ptr(G_PK)); ev(1); if (r) VIOL("call-failed", "verify returned %d", r);
    in_check(G_SM, "open/verify", "signature"); in_check(G_PK, "open/verify", "public key"); in_check(G_MSG, "verify", "message"); nontriv(h_hash(sm, L)); set_add("open_lengths", "%d:%u", full, n);
  }
  /* an open that fails, at each stage, leaves message buffer and length alone and does not touch its inputs */
  CASES("failing-open", i, h_count(900, 12000)) {
    int full = i % 3 == 2, st = (int)(i / 3) % 12; unsigned n = 1 + rn(64), key = full ? rn(H_FIXED) : rn(8); const h_key *k = h_getkey(key); valid_sig(full, key, n, sm, msg); ull L = full ? FULL(n) : COMPACT(n), sl = L; u8 pk[PKB]; memcpy(pk, k->pk, PKB); unsigned dil = full ? 66 + n : 66, sp = 66 + n + DSIG;
    switch (st) {
      case 0: sm[0] ^= (u8)(1u << rn(8)); break;
      case 1: sm[1] ^= (u8)(1u << rn(8)); break;
      case 2: sl -= 1 + rn(3); break;
      case 3: sm[2 + rn(64)] ^= (u8)(1u << rn(8)); break;                    /* Ed25519 */
      case 4: sm[dil + rn(32)] ^= (u8)(1u << rn(8)); break;                   /* Dilithium challenge */
      case 5: sm[dil + 32 + rn(2304)] ^= (u8)(1u << rn(8)); break;            /* z */
      case 6: sm[dil + 2336 + rn(84)] ^= (u8)(1u << rn(8)); break;            /* hints */
      case 7: if (full) sm[sp + rn(SSIG)] ^= (u8)(1u << rn(8)); else sm[2486 + rn(40)] ^= (u8)(1u << rn(8)); break;
      case 8: if (full) sm[66 + rn(n)] ^= 1; else sm[2526 + rn(n)] ^= 1; break; /* message */
      case 9: pk[rn(32)] ^= (u8)(1u << rn(8)); break;
      case 10: pk[32 + rn(1312)] ^= (u8)(1u << rn(8)); break;
      case 11: pk[1344 + rn(64)] ^= (u8)(1u << rn(8)); break;
    }
    in_ro(G_SM, sm, sl); in_ro(G_PK, pk, PKB); gb(G_LEN, 8); gb(G_M, 64); ull *ml = (ull *)gb_ptr(G_LEN);
    int r = full ? hy_fopen(gb_ptr(G_M), ml, gb_ptr(G_SM), sl, gb_ptr(G_PK)) : hy_copen(gb_ptr(G_M), ml, gb_ptr(G_SM), sl, gb_ptr(G_PK)); ev(2);
    if (r != 0 && !gb_untouched(G_M)) VIOL("failed-open-wrote-message", "%s open failed with %d (stage %d) but wrote to the message buffer", full ? "full" : "compact", r, st); if (r != 0 && !gb_untouched(G_LEN)) VIOL("failed-open-wrote-length", "%s open failed with %d (stage %d) but wrote the length", full ? "full" : "compact", r, st);
    in_check(G_SM, "failing open", "signature"); in_check(G_PK, "failing open", "public key"); gb_check("failing open"); set_add("failing_open_codes", "%s:%d", full ? "full" : "compact", r); stat_add("failing_opens", r != 0); nontriv(h_hash(sm, sl) ^ h_hash(pk, PKB));
  }
  CASES("failing-sign", i, h_count(240, 3000)) {
    int full = i % 8 == 7; unsigned n = 1 + rn(64); const h_key *k = h_getkey(rn(8)); rpat(msg, n); in_ro(G_MSG, msg, n); in_ro(G_K, k->sk, SKB); gb(G_SM, full ? FULL(n) : COMPACT(n)); gb(G_LEN, 8); long plan[3] = {(long)rn(full ? 32 : 40), EIO, (long)rn(5)}; if (i % 5 == 0) plan[0] = 0; ent_reset(r64()); ent.plan = failplan; ent.ctx = plan;
    int r = full ? hy_fsign(gb_ptr(G_SM), (ull *)gb_ptr(G_LEN), gb_ptr(G_MSG), n, gb_ptr(G_K)) : hy_csign(gb_ptr(G_SM), (ull *)gb_ptr(G_LEN), gb_ptr(G_MSG), n, gb_ptr(G_K)); ev(2); if (ent.fails) stat_add("failing_signs", 1); set_add("failing_sign_codes", "%d:%d", full, r);
    if (r != 0 && (!gb_untouched(G_SM) || !gb_untouched(G_LEN))) VIOL("failed-sign-wrote", "%s sign failed with %d but wrote to its outputs", full ? "full" : "compact", r); in_check(G_MSG, "failing sign", "message"); in_check(G_K, "failing sign", "secret key"); ent_reset(1); nontriv(h_hash(msg, n) + (uint64_t)plan[0]);
  }
  CASES("keygen", i, h_count(64, 2000)) {
    u8 seed[160]; rpat(seed, 160); in(G_SEED, seed, 160); gb(G_SK, SKB); gb(G_PK, PKB); int v = (int)(i % 4);
    if (v == 0) exact_out("keypair_seed (public key)", G_PK, PKB, PKB, o_kps, 0); else if (v == 1) exact_out("keypair_seed (secret key)", G_SK, SKB, SKB, o_kps, 0); else if (v == 2) exact_out("keypair (secret key)", G_SK, SKB, SKB, o_kp, 0); else exact_out("keypair (public key)", G_PK, PKB + 64, PKB, o_kp, 0);
    in_check(G_SEED, "keypair_seed", "seed"); nontriv(h_hash(seed, 160));
  }
  CASES("expand", i, h_count(200, 3000)) {
    rbytes(big, 512); if (i & 1) { in_ro(G_SEED, big, 96); exact_out("seed expander", G_OUT, 160 + (i & 2 ? 0 : 32), 160, o_exp, 0); } else { a.s = 32 + rn(120); a.a = a.s + 1 + rn(300); in_ro(G_SEED, big, a.s); exact_out("seedexpander_wrapper", G_OUT, a.a + (i & 2 ? 0 : 40), a.a, o_wrap, &a); } in_check(G_SEED, "seed expander", "seed"); nontriv((uint64_t)i * 3 + 1);
  }
  CASES("components", i, h_count(320, 6000)) {
    const h_key *k = h_getkey(rn(8)); unsigned n = i < 40 ? (unsigned)i : rn(700); rbytes(big, n); gb(G_LEN, 8); int x = (int)(i % 5); size_t pad = rn(2) ? 0 : 50;
    if (x == 4 && i % 40 != 4) x = 3; if (x == 3 && i % 3) x = (int)rn(3);
    if (x == 0) { in_ro(G_MSG, big, n); in_ro(G_K, k->sk + 64, 2560); a.a = n; exact_out("Dilithium signature", G_OUT, DSIG + pad, DSIG, o_dsig, &a); exact_out("Dilithium sign", G_OUT, DSIG + n + pad, DSIG + n, o_dsign, &a); in_check(G_K, "Dilithium sign", "secret key"); in_check(G_MSG, "Dilithium sign", "message"); ev(1); if (*(ull *)gb_ptr(G_LEN) != DSIG + n) VIOL("length-output", "Dilithium sign length"); }
    else if (x == 1) { static u8 t[4000]; ref_dil_sign(t, big, n, k->sk + 64, NULL, NULL); memcpy(t + DSIG, big, n); in_ro(G_SM, t, DSIG + n); in_ro(G_PK, k->pk + 32, 1312); a.a = DSIG + n; exact_out("Dilithium open", G_OUT, n + pad, n, o_dopen, &a); in_check(G_SM, "Dilithium open", "signed message"); in_check(G_PK, "Dilithium open", "public key"); }
    else if (x == 2) { in_ro(G_MSG, big, n); in_ro(G_K, k->sk, 64); a.a = n; exact_out("Ed25519 sign", G_OUT, 64 + n + pad, 64 + n, o_edsign, &a); in_check(G_K, "Ed25519 sign", "secret key"); in_check(G_MSG, "Ed25519 sign", "message"); }
    else if (x == 3) { const u8 *mm; unsigned q = 1 + rn(64); const u8 *fs = h_fullsig(0, q, &mm); memcpy(big, fs + 66 + q + DSIG, SSIG); memcpy(big + SSIG, mm, q); in_ro(G_SM, big, SSIG + q); in_ro(G_PK, h_getkey(0)->pk + 1344, 64); a.a = SSIG + q; exact_out("SPHINCS+ open", G_OUT, q + pad, q, o_sopen, &a); in_check(G_SM, "SPHINCS+ open", "signed message"); }
    else { in_ro(G_MSG, big, n); in_ro(G_K, k->sk + 3936, 128); a.a = n; if (i % 80 == 4) exact_out("SPHINCS+ signature", G_OUT, SSIG + pad, SSIG, o_ssig, &a); else exact_out("SPHINCS+ sign", G_OUT, SSIG + n + pad, SSIG + n, o_ssign, &a); in_check(G_K, "SPHINCS+ sign", "secret key"); in_check(G_MSG, "SPHINCS+ sign", "message"); }
    nontriv((uint64_t)i * 5 + 2); set_add("component_ops", "%d", x);
  }
  CASES("primitives", i, h_count(900, 12000)) {
    unsigned n = i < 300 ? (unsigned)(i % 300) : rn(2000); rbytes(big, n + 64); u8 kk[32], nn[32]; rpat(kk, 32); rpat(nn, 32); size_t pad = rn(2) ? 0 : 64; a.a = n; int x = (int)rn(9); in_ro(G_K, kk, 32); in_ro(G_N, nn, 32);
    switch (x) {
      case 0: memset(big, 0, 32); a.a = n + 32; in_ro(G_MSG, big, n + 32); exact_out("secretbox", G_OUT, n + 32 + pad, n + 32, o_box, &a); break;
      case 1: { static u8 c[4096], m0[4096]; memset(m0, 0, 32); memcpy(m0 + 32, big, n); ref_secretbox(c, m0, n + 32, nn, kk); a.a = n + 32; in_ro(G_MSG, c, n + 32); exact_out("secretbox_open", G_OUT, n + 32 + pad, n + 32, o_boxopen, &a); } break;
      case 2: in_ro(G_MSG, big, n); exact_out("crypto_stream", G_OUT, n + pad, n, o_stream, &a); break;
      case 3: in_ro(G_MSG, big, n); exact_out("crypto_stream_xor", G_OUT, n + pad, n, o_xor, &a); break;
      case 4: in_ro(G_MSG, big, n); exact_out("crypto_onetimeauth", G_OUT, 16 + pad, 16, o_poly, &a); break;
      case 5: in_ro(G_MSG, big, n); exact_out("crypto_hash", G_OUT, 64 + pad, 64, o_hash, &a); break;
      case 6: in_ro(G_MSG, big, n); exact_out("crypto_scalarmult", G_OUT, 32 + pad, 32, o_x, &a); break;
      case 7: in_ro(G_MSG, big, n); exact_out("randombytes", G_OUT, n + pad, n, o_rand, &a); break;
      case 8: { a.full = (int)rn(5); static const int ol[] = {32, 48, 64}; a.b = rn(500); in_ro(G_MSG, big, n); size_t o = a.full < 3 ? (size_t)ol[a.full] : a.b; exact_out("fips202 function", G_OUT, o + pad, o, o_fips, &a); } break;
    }
    in_check(G_MSG, "primitive", "input"); in_check(G_K, "primitive", "key"); in_check(G_N, "primitive", "nonce/point"); nontriv(h_hash(big, n + 1)); set_add("primitive_ops", "%d", x);
  }
}
