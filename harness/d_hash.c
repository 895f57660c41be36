/* C16 hash layer: every length, every chunking, clones */
#define _GNU_SOURCE
#include "h.h"
#include <sys/mman.h>
#include <unistd.h>
enum { H128, H256, S256, S384, S512, HN };
static const unsigned rate[] = {168, 136, 136, 104, 72}; static const u8 dom[] = {0x1f, 0x1f, 6, 6, 6}; static const unsigned olen[] = {0, 0, 32, 48, 64};
static const char *const nm[] = {"SHAKE128", "SHAKE256", "SHA3-256", "SHA3-384", "SHA3-512"};
static void want(int a, u8 *out, size_t on, const u8 *in, size_t n) { ref_sponge s; ref_sp_init(&s, rate[a], dom[a]); ref_sp_absorb(&s, in, n); ref_sp_squeeze(&s, out, on); }
static void one(int a, u8 *out, size_t on, const u8 *in, size_t n) {
  switch (a) { case H128: shake128(out, on, in, n); break; case H256: shake256(out, on, in, n); break; case S256: sha3_256(out, in, n); break; case S384: sha3_384(out, in, n); break; case S512: sha3_512(out, in, n); break; }
}
/* one type for all five incremental interfaces */
typedef struct { int a; union { shake128incctx h1; shake256incctx h2; sha3_256incctx s2; sha3_384incctx s3; sha3_512incctx s5; } u; int live; } cx;
static void c_init(cx *c, int a) { c->a = a; c->live = 1; switch (a) { case H128: shake128_inc_init(&c->u.h1); break; case H256: shake256_inc_init(&c->u.h2); break; case S256: sha3_256_inc_init(&c->u.s2); break; case S384: sha3_384_inc_init(&c->u.s3); break; case S512: sha3_512_inc_init(&c->u.s5); break; } }
static void c_abs(cx *c, const u8 *p, size_t n) { switch (c->a) { case H128: shake128_inc_absorb(&c->u.h1, p, n); break; case H256: shake256_inc_absorb(&c->u.h2, p, n); break; case S256: sha3_256_inc_absorb(&c->u.s2, p, n); break; case S384: sha3_384_inc_absorb(&c->u.s3, p, n); break; case S512: sha3_512_inc_absorb(&c->u.s5, p, n); break; } }
static void c_clone(cx *d, const cx *c) { d->a = c->a; d->live = 1; switch (c->a) { case H128: shake128_inc_ctx_clone(&d->u.h1, &c->u.h1); break; case H256: shake256_inc_ctx_clone(&d->u.h2, &c->u.h2); break; case S256: sha3_256_inc_ctx_clone(&d->u.s2, &c->u.s2); break; case S384: sha3_384_inc_ctx_clone(&d->u.s3, &c->u.s3); break; case S512: sha3_512_inc_ctx_clone(&d->u.s5, &c->u.s5); break; } }
static void c_rel(cx *c) { if (!c->live) return; c->live = 0; switch (c->a) { case H128: shake128_inc_ctx_release(&c->u.h1); break; case H256: shake256_inc_ctx_release(&c->u.h2); break; case S256: sha3_256_inc_ctx_release(&c->u.s2); break; case S384: sha3_384_inc_ctx_release(&c->u.s3); break; case S512: sha3_512_inc_ctx_release(&c->u.s5); break; } }
static void c_fin(cx *c, u8 *o) { switch (c->a) { case H128: shake128_inc_finalize(&c->u.h1); break; case H256: shake256_inc_finalize(&c->u.h2); break; case S256: sha3_256_inc_finalize(o, &c->u.s2); c->live = 0; break; case S384: sha3_384_inc_finalize(o, &c->u.s3); c->live = 0; break; case S512: sha3_512_inc_finalize(o, &c->u.s5); c->live = 0; break; } }
static void c_sq(cx *c, u8 *o, size_t n) { if (c->a == H128) shake128_inc_squeeze(o, n, &c->u.h1); else shake256_inc_squeeze(o, n, &c->u.h2); }
/* the message for a case, in a guarded buffer (unaligned on purpose: it ends at the page end) */
static u8 *msg(size_t n) { u8 *p = gb(G_MSG, n); if (n) rpat(p, n); return p; }
static void cmp(int a, const char *how, const u8 *got, const u8 *w, size_t on, size_t n, const char *extra) {
  ev(1); h_defined(got, on); if (!eqb(got, w, on)) { size_t k = 0; while (got[k] == w[k]) k++; VIOL("hash-wrong", "%s %s, input length %zu, output length %zu: differs from FIPS 202 at output byte %zu %s", nm[a], how, n, on, k, extra); }
}
static size_t chunk(size_t left, unsigned r, int style) {
  size_t q; switch (style) { case 0: q = 1 + rn(16); break; case 1: q = r; break; case 2: q = r - 1 + rn(3); break; case 3: q = rn(4) ? 0 : 1 + rn(3 * r); break; case 4: q = 1 + rn(5 * r); break; case 5: q = 8; break; default: q = 1; }
  return q > left ? left : q;
}
static const u8 h_iv512[64] = {0x6a,0x09,0xe6,0x67,0xf3,0xbc,0xc9,0x08,0xbb,0x67,0xae,0x85,0x84,0xca,0xa7,0x3b,0x3c,0x6e,0xf3,0x72,0xfe,0x94,0xf8,0x2b,0xa5,0x4f,0xf5,0x3a,0x5f,0x1d,0x36,0xf1,0x51,0x0e,0x52,0x7f,0xad,0xe6,0x82,0xd1,0x9b,0x05,0x68,0x8c,0x2b,0x3e,0x6c,0x1f,0x1f,0x83,0xd9,0xab,0xfb,0x41,0xbd,0x6b,0x5b,0xe0,0xcd,0x19,0x13,0x7e,0x21,0x79};
void drv_C16(void) {
  /* every input length 0..4 blocks+, every function, and SHA-512 */
  CASES("lengths", i, h_count(1400, 12000)) {
    size_t n = i < 1200 ? (size_t)i : i < 1300 ? 1000 + rn(9000) : 4096 * (1 + rn(40)) + rn(9); u8 *m = msg(n); gb_ro(G_MSG);
    for (int a = 0; a < HN; a++) { size_t on = olen[a] ? olen[a] : (i % 4 ? 1 + rn(700) : (size_t)i % 700); u8 *o = gb(G_OUT, on), w[1400]; one(a, o, on, m, n); want(a, w, on, m, n); cmp(a, "one-shot", o, w, on, n, ""); gb_check(nm[a]); set_add("input_lengths_mod_rate", "%s.%zu", nm[a], n % rate[a]); }
    { u8 *o = gb(G_OUT, 64), w[64]; int r = crypto_hash(o, m, n); ref_sha512(w, m, n); ev(1); if (r || !eqb(o, w, 64)) VIOL("hash-wrong", "SHA-512 of %zu bytes: returned %d, value %s", n, r, hex(o, 64)); set_add("sha512_lengths_mod_block", "%zu", n % 128); gb_check("SHA-512"); }
    if (i < 1200) set_add("lengths_0_1199", "%ld", i); nontriv(h_hash(m, n)); gb_rw(G_MSG);
  }
  /* every output length */
  CASES("outputs", i, h_count(1200, 8000)) {
    size_t on = (size_t)i % 1000, n = rn(300); if (i >= 1000) on = 1000 + rn(60000); u8 *m = msg(n); u8 *w = malloc(on + 1);
    for (int a = H128; a <= H256; a++) { u8 *o = gb(G_OUT, on); one(a, o, on, m, n); want(a, w, on, m, n); cmp(a, "one-shot", o, w, on, n, ""); gb_check(nm[a]); if (on < 1000) set_add("output_lengths", "%s.%zu", nm[a], on); }
    free(w); nontriv(h_hash(m, n) + on);
  }
  /* all two-piece cuts of the input around block boundaries */
  CASES("cuts", i, h_count(5 * 90, 5 * 400)) {
    int a = (int)(i % 5); unsigned r = rate[a]; size_t n = i / 5 < 60 ? 2 * r - 20 + (size_t)(i / 5) : rn(3 * r); u8 *m = msg(n), w[300], o[300]; size_t on = olen[a] ? olen[a] : 200; want(a, w, on, m, n);
    for (size_t c = 0; c <= n; c++) { cx x; c_init(&x, a); c_abs(&x, m, c); c_abs(&x, m + c, n - c); c_fin(&x, o); if (!olen[a]) c_sq(&x, o, on); c_rel(&x); ev(1); if (!eqb(o, w, on)) { VIOL("chunking", "%s: %zu bytes cut at %zu give another result", nm[a], n, c); break; } }
    stat_add("two_piece_cuts", (long)n + 1); nontriv(h_hash(m, n));
  }
  /* all two-piece cuts of the output */
  CASES("outcuts", i, h_count(2 * 24, 2 * 200)) {
    int a = (int)(i % 2); unsigned r = rate[a]; size_t n = rn(300), on = 2 * r + rn(2 * r); u8 *m = msg(n), w[1000], o[1000]; want(a, w, on, m, n);
    for (size_t c = 0; c <= on; c++) { cx x; c_init(&x, a); c_abs(&x, m, n); c_fin(&x, o); c_sq(&x, o, c); c_sq(&x, o + c, on - c); c_rel(&x); ev(1); if (!eqb(o, w, on)) { VIOL("chunking", "%s: %zu output bytes cut at %zu give another result", nm[a], on, c); break; } }
    stat_add("output_cuts", (long)on + 1); nontriv(h_hash(m, n) + on);
  }
  /* random chunkings of input and output, with clones taken at random points and interleaved contexts */
  CASES("chunks", i, h_count(4000, 200000)) {
    int a = (int)(i % 5), style = (int)(i / 5 % 7); unsigned r = rate[a]; size_t n = rn(5 * r), on = olen[a] ? olen[a] : 1 + rn(4 * r); u8 *m = msg(n), w[1024], *o = gb(G_OUT, on); want(a, w, on, m, n); char tr[200] = ""; int tl = 0;
    cx x, y; c_init(&x, a); size_t p = 0, at = rn((uint32_t)n + 1); int cl = 0; u8 extra[400]; unsigned en = rn(400); rbytes(extra, en); ref_sponge ys; int k = 0;
    for (;;) {
      if (!cl && p >= at) { c_clone(&y, &x); cl = 1; ref_sp_init(&ys, r, dom[a]); ref_sp_absorb(&ys, m, p); c_abs(&y, extra, en); ref_sp_absorb(&ys, extra, en); }
      if (p == n && k > 0) break; size_t q = chunk(n - p, r, style); c_abs(&x, m + p, q); p += q; if (tl < 150) tl += snprintf(tr + tl, 20, "%zu,", q); if (++k > 3000 && q == 0) { c_abs(&x, m + p, n - p); p = n; }
    }
    if (!cl) { c_clone(&y, &x); ref_sp_init(&ys, r, dom[a]); ref_sp_absorb(&ys, m, n); c_abs(&y, extra, en); ref_sp_absorb(&ys, extra, en); }
    c_fin(&x, o); if (!olen[a]) {
      size_t z = 0; int k2 = 0; cx s2; int have = 0; size_t z2 = 0; size_t cut = rn((uint32_t)on + 1);
      while (z < on) { if (!have && z >= cut) { c_clone(&s2, &x); have = 1; z2 = z; } size_t q = chunk(on - z, r, (style + k2++) % 7); c_sq(&x, o + z, q); z += q; if (k2 > 3000) { c_sq(&x, o + z, on - z); z = on; } }
      if (have) { u8 o2[1024]; c_sq(&s2, o2, on - z2); ev(1); if (!eqb(o2, w + z2, on - z2)) VIOL("clone", "%s: a context cloned while squeezing continues wrongly at byte %zu", nm[a], z2); c_rel(&s2); stat_add("clones_squeezing", 1); }
    }
    cmp(a, "incremental", o, w, on, n, tr); c_rel(&x);
    u8 oy[200], wy[200]; size_t oyn = olen[a] ? olen[a] : 150; c_fin(&y, oy); if (!olen[a]) c_sq(&y, oy, oyn); c_rel(&y); ref_sp_squeeze(&ys, wy, oyn); ev(1); if (!eqb(oy, wy, oyn)) VIOL("clone", "%s: the clone taken after %zu of %zu bytes, fed %u other bytes, gives a wrong result", nm[a], at, n, en);
    stat_add("clones_absorbing", 1); gb_check("incremental"); nontriv(h_hash(tr, strlen(tr)) ^ h_hash(m, n)); set_add("chunk_styles", "%s.%d", nm[a], style); if (i < 3) sample("%s n=%zu chunks %s", nm[a], n, tr);
  }
  /* block interface: absorb, squeezeblocks in any grouping, clones between */
  CASES("blocks", i, h_count(800, 20000)) {
    int a = (int)(i % 2); unsigned r = rate[a]; size_t n = rn(4 * r); u8 *m = msg(n), w[168 * 8], *o = gb(G_OUT, r * 6); want(a, w, 8 * r, m, n); size_t b = 0, c1 = rn(7);
    if (a == H128) { shake128ctx x, y; int h = 0; size_t at = 0; shake128_absorb(&x, m, n); for (;;) { if (!h && b >= c1) { shake128_ctx_clone(&y, &x); h = 1; at = b; } if (b == 6) break; size_t q = rn(3); if (q > 6 - b) q = 6 - b; shake128_squeezeblocks(o + b * r, q, &x); b += q; } u8 t[168]; shake128_squeezeblocks(t, 1, &y); ev(1); if (!eqb(t, w + at * r, r)) VIOL("clone", "SHAKE128 clone after %zu blocks is wrong", at); shake128_ctx_release(&x); shake128_ctx_release(&y); }
    else { shake256ctx x, y; int h = 0; size_t at = 0; shake256_absorb(&x, m, n); for (;;) { if (!h && b >= c1) { shake256_ctx_clone(&y, &x); h = 1; at = b; } if (b == 6) break; size_t q = rn(3); if (q > 6 - b) q = 6 - b; shake256_squeezeblocks(o + b * r, q, &x); b += q; } u8 t[168]; shake256_squeezeblocks(t, 1, &y); ev(1); if (!eqb(t, w + at * r, r)) VIOL("clone", "SHAKE256 clone after %zu blocks is wrong", at); shake256_ctx_release(&x); shake256_ctx_release(&y); }
    cmp(a, "blocks", o, w, 6 * r, n, ""); gb_check("squeezeblocks"); nontriv(h_hash(m, n) + 77);
  }
  /* SHA-512 block function, any grouping of blocks; returns the unprocessed remainder */
  CASES("hashblocks", i, h_count(600, 10000)) {
    size_t n = rn(1500); u8 *m = msg(n), st[64], w[64], tail[256]; memcpy(st, h_iv512, 64); size_t p = 0; int bad = 0;
    while (n - p >= 128) { size_t q = 128 * rn(4) + rn(128); if (q > n - p) q = n - p; int r = crypto_hashblocks(st, m + p, q); if (r != (int)(q % 128)) { VIOL("hashblocks-return", "crypto_hashblocks of %zu bytes returned %d", q, r); bad = 1; break; } p += q - q % 128; }
    if (bad) continue;
    memset(tail, 0, 256); memcpy(tail, m + p, n - p); tail[n - p] = 0x80; size_t tn = n - p < 112 ? 128 : 256; for (int k = 0; k < 8; k++) tail[tn - 1 - k] = (u8)(((uint64_t)n * 8) >> (8 * k)); crypto_hashblocks(st, tail, tn); ref_sha512(w, m, n); ev(1); nontriv(h_hash(m, n) + 5); if (!eqb(st, w, 64)) VIOL("hash-wrong", "SHA-512 by blocks, %zu bytes", n);
  }
  /* more than 65536 blocks and more than 2^24 bytes, in and out, in one call, through every interface */
  CASES("large", i, h_scale < 0.9 ? 4 : 21) {
    size_t N = (1u << 24) + 1000 + rn(3000), SN = h_scale < 0.9 ? 1200000 : N; N = SN; u8 *big = malloc(N + 200), *w = malloc(N + 200), o[64]; const char *how = "one-shot input"; int a = (int)(i < 15 ? i % 5 : i % 2); size_t n = rn(300), on = 0; wd_long(300); u8 *m = msg(n);
    if (i < 15) { rbytes(big, 4096); for (size_t q = 4096; q < N; q++) big[q] = (u8)(big[q - 4096] * 5 + (q >> 12)); on = olen[a] ? olen[a] : 64; want(a, w, on, big, N); n = N;
      if (i < 5) one(a, o, on, big, N); else if (i < 10) { how = "incremental input in one piece"; cx x; c_init(&x, a); c_abs(&x, big, 0); c_abs(&x, big, N); c_fin(&x, o); if (!olen[a]) c_sq(&x, o, on); c_rel(&x); }
      else { how = "incremental input in two pieces"; cx x; c_init(&x, a); c_abs(&x, big, 1 + n % 7); c_abs(&x, big + 1 + n % 7, N - 1 - n % 7); c_fin(&x, o); if (!olen[a]) c_sq(&x, o, on); c_rel(&x); if (a == H128) { shake128ctx y; u8 t[168], v[168]; shake128_absorb(&y, big, N); shake128_squeezeblocks(t, 1, &y); shake128_ctx_release(&y); want(a, v, 168, big, N); cmp(a, "large block-interface input", t, v, 168, N, ""); } if (a == H256) { shake256ctx y; u8 t[136], v[136]; shake256_absorb(&y, big, N); shake256_squeezeblocks(t, 1, &y); shake256_ctx_release(&y); want(a, v, 136, big, N); cmp(a, "large block-interface input", t, v, 136, N, ""); } }
      cmp(a, how, o, w, on, N, ""); if (a == S512 && i < 5) { crypto_hash(o, big, N); ref_sha512(w, big, N); ev(1); if (!eqb(o, w, 64)) VIOL("hash-wrong", "SHA-512 of %zu bytes", N); } }
    else { size_t nb = N / rate[a]; if (i < 17) { how = "one-shot output"; one(a, big, N, m, n); on = N; } else if (i < 19) { how = "incremental output in one piece"; cx x; c_init(&x, a); c_abs(&x, m, n); c_fin(&x, big); c_sq(&x, big, 5); c_sq(&x, big + 5, N - 5); c_rel(&x); on = N; } else { how = "squeezeblocks"; on = nb * rate[a]; if (a == H128) { shake128ctx y; shake128_absorb(&y, m, n); shake128_squeezeblocks(big, nb, &y); shake128_ctx_release(&y); } else { shake256ctx y; shake256_absorb(&y, m, n); shake256_squeezeblocks(big, nb, &y); shake256_ctx_release(&y); } }
      want(a, w, on, m, n); cmp(a, how, big, w, on, n, ""); }
    stat_add("large_calls", 1); nontriv(N + (uint64_t)i); free(big); free(w);
  }
  /* lengths beyond 2^32: the input is 4 GiB of zero pages */
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_VG)
  CASES("huge", i, h_scale < 0.9 ? 0 : h_thorough ? 8 : 4) {
    size_t n = (1ull << 32) + 5 + rn(500); u8 *z = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) { stat_add("huge_skipped", 1); continue; } madvise(z, n, MADV_NOHUGEPAGE); wd_long(400);
    u8 o[64], w[64]; int a = -1;
    switch (i) {
      case 0: a = S512; sha3_512(o, z, n); break;
      case 1: case 4: { a = H256; cx x; c_init(&x, H256); c_abs(&x, (const u8 *)"abc", 3); c_abs(&x, z, n); c_fin(&x, o); c_sq(&x, o, 64); c_rel(&x); } break;
      case 2: case 5: crypto_hash(o, z, n); break;
      case 3: a = H128; shake128(o, 64, z, n); break;
      case 6: a = S256; sha3_256(o, z, n); break;
      default: a = S384; sha3_384(o, z, n); break;
    }
    wd_long(400); size_t on = 64; if (a < 0) ref_sha512(w, z, n); else { ref_sponge s; ref_sp_init(&s, rate[a], dom[a]); if (a == H256) ref_sp_absorb(&s, "abc", 3); ref_sp_absorb(&s, z, n); on = olen[a] ? olen[a] : 64; ref_sp_squeeze(&s, w, on); }
    ev(1); if (!eqb(o, w, on)) VIOL("hash-wrong", "%s of %zu bytes (beyond 2^32) is wrong", a < 0 ? "SHA-512" : nm[a], n); stat_add("huge_inputs", 1); nontriv(n + (uint64_t)i); munmap(z, n);
  }
  /* output beyond 2^32 bytes, into a window mapped again and again */
  CASES("huge-out", i, h_scale < 0.9 ? 0 : 2) {
    size_t win = 16u << 20, n = (1ull << 32) + 5 + rn(5000); u8 *o = win_map(n, win), t[600], w[600]; rbytes(t, 600); size_t tl = rn(600); if (!o) { stat_add("huge_skipped", 1); continue; } wd_long(400); ref_sponge s;
    if (i == 0) { shake256(o, n, t, tl); ref_sp_init(&s, 136, 0x1f); } else { cx x; c_init(&x, H128); c_abs(&x, t, tl); c_fin(&x, o); c_sq(&x, o, n); c_rel(&x); ref_sp_init(&s, 168, 0x1f); }
    wd_long(400); ref_sp_absorb(&s, t, tl); u8 *v = malloc(win); size_t left = n - 512; while (left) { size_t q = left < win ? left : win; ref_sp_squeeze(&s, v, q); left -= q; } ref_sp_squeeze(&s, w, 512); free(v);
    ev(1); if (!eqb(o + n - 512, w, 512)) VIOL("hash-wrong", "%s output of %zu bytes (beyond 2^32): its end is wrong", i ? "SHAKE-128" : "SHAKE-256", n); stat_add("huge_outputs", 1); nontriv(n); win_unmap(o, n, win); wd_arm();
  }
#endif
}
