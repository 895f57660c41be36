/* C17 NaCl primitives against the model; every forgery rejected */
#define _GNU_SOURCE
#include "h.h"
#include "../ref/x_small.h"
#include <sys/mman.h>
static const u8 SIGMA[17] = "expand 32-byte k";
static void point(u8 *p, long i) { /* u-coordinates, edges included */
  static const u8 lo8[32] = {0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00};
  memset(p, 0, 32);
  switch (i % 16) { case 0: break; case 1: p[0] = 1; break; case 2: p[0] = 9; break; case 3: memcpy(p, lo8, 32); break;
    case 4: case 5: memset(p, 0xff, 32); p[0] = (u8)(0xed - 3 + rn(18)); p[31] = 0x7f; break; /* around p, up to 2^255-1 */
    case 6: memset(p, 0xff, 32); p[0] = (u8)rn(256); break; case 7: rbytes(p, 32); p[31] |= 0x80; break; case 8: rpat(p, 32); break; default: rbytes(p, 32); }
}
void drv_C17(void) {
  CASES("x25519", i, h_count(1200, 40000)) {
    u8 *n = gb(G_K, 32), *p = gb(G_A, 32), *q = gb(G_OUT, 32), w[32]; if (i & 1) rbytes(n, 32); else rpat(n, 32); point(p, i / 2); u8 nn[32], pp[32]; memcpy(nn, n, 32); memcpy(pp, p, 32); gb_ro(G_K); gb_ro(G_A);
    int r = crypto_scalarmult(q, n, p); ref_x25519(w, nn, pp); ev(1); if (r || !eqb(q, w, 32)) VIOL("x25519", "scalar %s, point %s: returned %d %s instead of %s", hex(nn, 32), hex(pp, 32), r, hex(q, 32), hex(w, 32)); h_defined(q, 32);
    u8 nine[32] = {9}; q = gb(G_OUT, 32); r = crypto_scalarmult_base(q, n); ref_x25519(w, nn, nine); ev(1); if (r || !eqb(q, w, 32)) VIOL("x25519", "base multiplication by %s is wrong", hex(nn, 32)); gb_rw(G_K); gb_rw(G_A); gb_check("scalarmult"); nontriv(h_hash(nn, 32) ^ h_hash(pp, 32)); set_add("point_classes", "%ld", i / 2 % 16);
  }
  CASES("x25519-small", i, (long)(sizeof X_SMALL / sizeof *X_SMALL)) { /* results below 38 or just below p: a field element with several representations */
    u8 n[32], q[32]; memcpy(n, X_SMALL[i].k, 32); n[0] |= (u8)rn(8); n[31] &= 0x7f; n[31] |= (u8)(rn(2) << 7); memset(q, 0xcd, 32); int r = crypto_scalarmult(q, n, X_SMALL[i].p); ev(1); if (r || !eqb(q, X_SMALL[i].u, 32)) VIOL("x25519", "scalar %s, point %s: returned %d %s instead of %s", hex(n, 32), hex(X_SMALL[i].p, 32), r, hex(q, 32), hex(X_SMALL[i].u, 32)); set_add("small_results", "%d", X_SMALL[i].u[0]); nontriv(h_hash(q, 32) + h_hash(n, 32));
  }
  CASES("agree", i, h_count(200, 6000)) { /* both sides derive the same key */
    u8 a[32], b[32], A[32], B[32], k1[32], k2[32], w[32]; if (crypto_box_keypair(A, a) || crypto_box_keypair(B, b)) { VIOL("keypair", "box key generation failed"); continue; } crypto_box_beforenm(k1, B, a); crypto_box_beforenm(k2, A, b); ref_box_beforenm(w, B, a); ev(2); nontriv(h_hash(k1, 32)); u8 nine[32] = {9}, wp[32]; ref_x25519(wp, a, nine); if (!eqb(A, wp, 32)) VIOL("keypair", "public key is not that of the secret key"); if (!eqb(k1, k2, 32) || !eqb(k1, w, 32)) VIOL("shared-key", "shared keys differ");
  }
  CASES("core", i, h_count(1500, 40000)) {
    u8 in[16], k[32], c[16], o[64], w[64]; rpat(in, 16); rpat(k, 32); if (i & 1) memcpy(c, SIGMA, 16); else rpat(c, 16); crypto_core_salsa20(o, in, k, c); ref_salsa20_core(w, in, k, c); ev(2); if (!eqb(o, w, 64)) VIOL("salsa20-core", "in %s key %s const %s", hex(in, 16), hex(k, 32), hex(c, 16)); crypto_core_hsalsa20(o, in, k, c); ref_hsalsa20(w, in, k, c); if (!eqb(o, w, 32)) VIOL("hsalsa20-core", "in %s key %s const %s", hex(in, 16), hex(k, 32), hex(c, 16)); nontriv(h_hash(k, 32) ^ h_hash(in, 16));
  }
  CASES("stream", i, h_count(900, 12000)) {
    size_t n = i < 600 ? (size_t)i : i < 880 ? rn(5000) : 16384 * 1 + rn(70000); if (i == 899 || (h_thorough && i % 3000 == 2999)) n = (4u << 20) + 65 + rn(4000); u8 *k = gb(G_K, 32), *nn = gb(G_N, 24), *o = gb(G_OUT, n), *m = gb(G_MSG, n), *w = malloc(n + 1); rpat(k, 32); rpat(nn, 24); rpat(m, n); gb_ro(G_K); gb_ro(G_N); gb_ro(G_MSG);
    int r = crypto_stream(o, n, nn, k); ref_xsalsa20_stream(w, n, nn, k); ev(1); if (r || !eqb(o, w, n)) VIOL("xsalsa20", "length %zu: returned %d, stream wrong", n, r);
    o = gb(G_OUT, n); r = crypto_stream_xor(o, m, n, nn, k); ev(1); { int bad = r; for (size_t j = 0; j < n; j++) if (o[j] != (m[j] ^ w[j])) bad = 1; if (bad) VIOL("xsalsa20", "xor, length %zu: wrong", n); }
    o = gb(G_OUT, n); r = crypto_stream_salsa20(o, n, nn, k); ref_salsa20_stream(w, n, nn, k); ev(1); if (r || !eqb(o, w, n)) VIOL("salsa20", "length %zu: wrong", n);
    o = gb(G_OUT, n); r = crypto_stream_salsa20_xor(o, m, n, nn, k); ev(1); { int bad = r; for (size_t j = 0; j < n; j++) if (o[j] != (m[j] ^ w[j])) bad = 1; if (bad) VIOL("salsa20", "xor, length %zu: wrong", n); }
    gb_rw(G_K); gb_rw(G_N); gb_rw(G_MSG); gb_check("stream"); h_defined(o, n); set_add("stream_lengths_mod_block", "%zu", n % 64); if (n > 16384) stat_add("streams_beyond_256_blocks", 1); if (n > (4u << 20)) stat_add("streams_beyond_65536_blocks", 1); nontriv(h_hash(k, 32) + n); free(w);
  }
  CASES("poly1305", i, h_count(2500, 100000)) {
    size_t n; u8 *k = gb(G_K, 32); u8 mm[700]; rpat(k, 32); const char *cls = "random";
    if (i < 300) { n = (size_t)i; rpat(mm, n ? n : 1); } else if (i % 4 == 0) { /* accumulator around the modulus: r = 1, two blocks summing to p + 3 - j */ n = 32; memset(mm, 0xff, 32); memset(k, 0, 16); k[0] = 1; mm[16] = (u8)(0xff - rn(12)); cls = "around-p"; if (rn(2)) { n = 48 + rn(16); memset(mm + 32, 0, 32); mm[32] = (u8)rn(8); } }
    else if (i % 4 == 1) { n = 16 * (1 + rn(20)); memset(mm, 0xff, n); memset(k, 0xff, 16); cls = "all-ones"; mm[rn((uint32_t)n)] ^= (u8)rn(4); } else { n = rn(700); rpat(mm, n ? n : 1); }
    u8 *m = gb_dup(G_MSG, mm, n), *o = gb(G_OUT, 16), w[16]; gb_ro(G_K); gb_ro(G_MSG); int r = crypto_onetimeauth(o, m, n, k); ref_poly1305(w, mm, n, k); ev(2); if (r || !eqb(o, w, 16)) VIOL("poly1305", "%s, length %zu, key %s: %s instead of %s", cls, n, hex(k, 32), hex(o, 16), hex(w, 16));
    if (crypto_onetimeauth_verify(w, m, n, k)) VIOL("poly1305-verify", "right tag refused"); for (int b = 0; b < 128; b += 1 + (int)rn(9)) { u8 t[16]; memcpy(t, w, 16); t[b / 8] ^= (u8)(1u << (b % 8)); ev(1); if (!crypto_onetimeauth_verify(t, m, n, k)) VIOL("poly1305-verify", "tag with bit %d changed accepted", b); }
    gb_rw(G_K); gb_rw(G_MSG); gb_check("onetimeauth"); set_add("poly_classes", "%s.%zu", cls, n % 16); nontriv(h_hash(mm, n) ^ h_hash(k, 32));
  }
  CASES("verify", i, h_count(400, 6000)) { /* equal iff every bit is */
    u8 a[32], b[32]; rpat(a, 32); memcpy(b, a, 32); ev(2); if (crypto_verify_16(a, b) || crypto_verify_32(a, b)) VIOL("verify", "equal strings called different"); if (i < 256) b[i / 8] ^= (u8)(1u << (i % 8)); else { unsigned q = 1 + rn(4); for (unsigned j = 0; j < q; j++) b[rn(32)] ^= (u8)(rn(2) ? 0x80 : 1 + rn(255)); if (eqb(a, b, 32)) b[0] ^= 1; }
    int e16 = eqb(a, b, 16), r16 = crypto_verify_16(a, b), r32 = crypto_verify_32(a, b); ev(2); if ((r16 == 0) != e16 || r32 == 0) VIOL("verify", "strings %s %s compared as %d/%d", hex(a, 32), hex(b, 32), r16, r32); nontriv(h_hash(b, 32));
    /* differences that cancel under xor or addition */ memcpy(b, a, 32); b[3] ^= 0x55; b[9] ^= 0x55; b[19] ^= 0x80; b[29] ^= 0x80; ev(2); if (!crypto_verify_16(a, b) || !crypto_verify_32(a, b)) VIOL("verify", "cancelling differences accepted");
  }
  CASES("secretbox", i, h_count(700, 12000)) {
    size_t d = i < 400 ? (size_t)i : rn(3000); if (i >= 690) d = 16400 + rn(9000); u8 *k = gb(G_K, 32), *n = gb(G_N, 24), *m = gb(G_MSG, d), *c = gb(G_SM, d), *w = malloc(d + 64); rbytes(k, 32); rpat(n, 24); if (d) rpat(m, d); memset(m, 0, d < 32 ? d : 32); gb_ro(G_K); gb_ro(G_N); gb_ro(G_MSG);
    int r = crypto_secretbox(c, m, d, n, k); ev(1);
    if (d < 32) { if (!r) VIOL("box-short", "secretbox accepts %zu bytes", d); r = crypto_secretbox_open(gb(G_OUT, d), c, d, n, k); ev(1); if (!r) VIOL("box-short", "secretbox_open accepts %zu bytes", d); }
    else {
      ref_secretbox(w, m, d, n, k); if (r || !eqb(c, w, d)) VIOL("secretbox", "length %zu: returned %d, ciphertext wrong", d, r); memcpy(c, w, d); gb_ro(G_SM); u8 *o = gb(G_OUT, d); r = crypto_secretbox_open(o, c, d, n, k); ev(1); if (r || !eqb(o, m, d)) VIOL("secretbox-open", "length %zu: genuine box gives %d", d, r); gb_rw(G_SM); h_defined(o, d);
      o = gb(G_OUT, d); r = crypto_box_afternm(o, m, d, n, k); ev(1); if (r || !eqb(o, w, d)) VIOL("box", "afternm, length %zu wrong", d); o = gb(G_OUT, d); r = crypto_box_open_afternm(o, c, d, n, k); ev(1); if (r || !eqb(o, m, d)) VIOL("box-open", "open_afternm, length %zu: %d", d, r);
    }
    gb_rw(G_K); gb_rw(G_N); gb_rw(G_MSG); gb_check("secretbox"); set_add("box_lengths", "%zu", d < 400 ? d : 400); nontriv(h_hash(k, 32) + d); free(w);
  }
  /* forgeries: every bit of tag and ciphertext, nonce, key; truncation, extension; keys of the box */
  CASES("forgery", i, h_count(160, 4000)) {
    size_t body = i < 40 ? (size_t)i : rn(300), d = 32 + body; u8 k[32], n[24]; rbytes(k, 32); rpat(n, 24); u8 *m = calloc(1, d + 32), *c = malloc(d + 64), *o = malloc(d + 64), *x = malloc(d + 64); rpat(m + 32, body ? body : 1); ref_secretbox(c, m, d, n, k); memcpy(x, c, d);
#define REJ(what, ...) do { memset(o, 0xcd, d + 32); int r_ = (__VA_ARGS__); ev(1); if (!r_) VIOL("forgery-accepted", "%s, body %zu", what, body); int un = 1, ze = 1; for (size_t j_ = 0; j_ < d; j_++) { un &= o[j_] == 0xcd; ze &= o[j_] == 0 || o[j_] == 0xcd; } if (!un && !ze) VIOL("forgery-releases", "%s: the refused open wrote data, body %zu", what, body); } while (0)
    size_t bits = (16 + body) * 8; for (size_t b = 0; b < bits; b += body > 40 ? 1 + rn(7) : 1) { x[16 + b / 8] ^= (u8)(1u << (b & 7)); REJ("ciphertext bit", crypto_secretbox_open(o, x, d, n, k)); x[16 + b / 8] ^= (u8)(1u << (b & 7)); stat_add("bit_forgeries", 1); }
    for (int b = 0; b < 192; b += 1 + (int)rn(5)) { n[b / 8] ^= (u8)(1u << (b % 8)); REJ("nonce bit", crypto_secretbox_open(o, x, d, n, k)); n[b / 8] ^= (u8)(1u << (b % 8)); }
    for (int b = 0; b < 256; b += 1 + (int)rn(5)) { k[b / 8] ^= (u8)(1u << (b % 8)); REJ("key bit", crypto_secretbox_open(o, x, d, n, k)); k[b / 8] ^= (u8)(1u << (b % 8)); }
    for (size_t q = 0; q < d; q++) REJ("truncation", crypto_secretbox_open(o, x, q, n, k)); x[d] = 0; REJ("extension", crypto_secretbox_open(o, x, d + 1, n, k)); memset(x + d, 0, 16); REJ("extension", crypto_secretbox_open(o, x, d + 16, n, k)); memset(x, 0, d); REJ("zero", crypto_secretbox_open(o, x, d, n, k)); memcpy(x, c, d);
    if (body >= 32) { u8 t[16]; memcpy(t, x + 32, 16); memcpy(x + 32, x + 48, 16); memcpy(x + 48, t, 16); if (memcmp(x, c, d)) REJ("swapped blocks", crypto_secretbox_open(o, x, d, n, k)); memcpy(x, c, d); }
    free(m); free(c); free(o); free(x); nontriv(h_hash(k, 32));
  }
  CASES("large", i, h_count(10, 40)) { /* beyond 65536 and 2^20 bytes: tag, box, and forgeries anywhere in it */
    size_t body = i % 5 == 0 ? 65536 - 16 + rn(40) : i % 5 == 1 ? 65536 + rn(3000) : i % 5 == 2 ? 131072 + rn(100) : i % 5 == 3 ? 200000 + rn(400) : (1u << 20) + rn(100); if (h_scale < 0.9) body = 65536 + rn(200); size_t d = body + 32; u8 k[32], n[24], *m = calloc(1, d + 16), *c = malloc(d + 16), *w = malloc(d + 16), *o = malloc(d + 16); rbytes(k, 32); rbytes(n, 24); rbytes(m + 32, body); wd_long(300);
    u8 t[16], wt[16]; crypto_onetimeauth(t, m + 32, body, k); ref_poly1305(wt, m + 32, body, k); ev(3); if (!eqb(t, wt, 16)) VIOL("poly1305", "length %zu: wrong tag", body); if (crypto_onetimeauth_verify(wt, m + 32, body, k)) VIOL("poly1305-verify", "length %zu: right tag refused", body);
    ref_secretbox(w, m, d, n, k); if (crypto_secretbox(c, m, d, n, k) || !eqb(c, w, d)) VIOL("secretbox", "length %zu: ciphertext wrong", d); ev(2); if (crypto_secretbox_open(o, w, d, n, k) || !eqb(o, m, d)) VIOL("secretbox-open", "length %zu: genuine box refused or message wrong", d);
    for (int q = 0; q < 12; q++) { size_t at = q == 0 ? d - 1 : q == 1 ? 16 : q == 2 ? 32 + 65536 - 1 : q == 3 ? 32 + 65535 - rn(40) : q == 4 ? 32 + 65536 : q == 5 ? d - 1 - rn(64) : 16 + rn((uint32_t)(d - 16)); if (at >= d) at = d - 1; u8 x = (u8)(1u << rn(8)); w[at] ^= x; ev(2); if (!crypto_secretbox_open(o, w, d, n, k)) VIOL("forgery-accepted", "ciphertext byte %zu of %zu changed", at, d); if (at >= 32 && !crypto_onetimeauth_verify(w + 16, w + 32, body, k)) VIOL("forgery-accepted", "tag accepted"); w[at] ^= x; stat_add("large_forgeries", 1); }
    for (int q = 0; q < 4; q++) { size_t sh = q == 0 ? d - 1 : q == 1 ? d - 16 : q == 2 ? d - 65536 : 32 + 65536; if (sh >= d) continue; ev(1); if (!crypto_secretbox_open(o, w, sh, n, k)) VIOL("forgery-accepted", "box of %zu bytes cut to %zu", d, sh); }
    nontriv(h_hash(k, 32)); stat_add("large_boxes", 1); free(m); free(c); free(w); free(o);
  }
  CASES("box", i, h_count(120, 3000)) {
    size_t body = rn(200), d = 32 + body; u8 a[32], b[32], A[32], B[32], n[24], nine[32] = {9}, sh[32]; rbytes(a, 32); rbytes(b, 32); ref_x25519(A, a, nine); ref_x25519(B, b, nine); rbytes(n, 24); u8 *m = calloc(1, d), *c = malloc(d), *o = malloc(d + 64), *w = malloc(d), *x = o; rpat(m + 32, body ? body : 1 - 0); (void)x;
    ref_box_beforenm(sh, B, a); ref_secretbox(w, m, d, n, sh); int r = crypto_box(c, m, d, n, B, a); ev(2); if (r || !eqb(c, w, d)) VIOL("box", "length %zu: returned %d, ciphertext wrong", d, r); r = crypto_box_open(o, w, d, n, A, b); if (r || !eqb(o, m, d)) VIOL("box-open", "genuine box gives %d", r);
    for (int q = 0; q < 24; q++) { u8 A2[32], b2[32], s2[32]; memcpy(A2, A, 32); memcpy(b2, b, 32); if (q & 1) A2[rn(32)] ^= (u8)(1u << rn(8)); else b2[rn(32)] ^= (u8)(1u << rn(8)); ref_box_beforenm(s2, A2, b2); int same = eqb(s2, sh, 32); memset(o, 0xcd, d); r = crypto_box_open(o, w, d, n, A2, b2); ev(1); if ((r == 0) != same) VIOL("box-key", "opened with a %s key: %d", same ? "equivalent" : "different", r); }
    for (int q = 0; q < 32; q++) { w[16 + rn((uint32_t)(16 + body))] ^= (u8)(1u << rn(8)); if (!memcmp(w, c, d)) continue; REJ("box bit", crypto_box_open(o, w, d, n, A, b)); memcpy(w, c, d); } for (size_t q = 0; q < 32; q++) REJ("short box", crypto_box_open(o, w, q, n, A, b)); for (size_t q = 0; q < 32; q++) { ev(1); if (!crypto_box(o, m, q, n, B, a)) VIOL("box-short", "box accepts %zu bytes", q); }
    free(m); free(c); free(o); free(w); nontriv(h_hash(sh, 32));
  }
  /* beyond 2^32 bytes (and 2^24 blocks): outputs go to a window mapped again and again, inputs are zero pages */
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_VG)
  CASES("huge", i, h_scale < 0.9 ? 0 : 4) {
    size_t win = 16u << 20, N = (1ull << 32) + 100 + rn(4000) + (i == 3 ? 1u << 20 : 0); u8 k[32], n[24], w[4096 + 64], s[32]; rbytes(k, 32); rbytes(n, 24); wd_long(400);
    u8 *z = mmap(NULL, N, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *o = win_map(N, win); if (z == MAP_FAILED || !o) { stat_add("huge_skipped", 1); if (o) win_unmap(o, N, win); if (z != MAP_FAILED) munmap(z, N); wd_arm(); continue; } madvise(z, N, MADV_NOHUGEPAGE);
    ref_hsalsa20(s, n, k, SIGMA); uint64_t b0 = (N - 4096) / 64; for (uint64_t b = b0; b * 64 < N; b++) { u8 in[16]; memcpy(in, n + 16, 8); for (int j = 0; j < 8; j++) in[8 + j] = (u8)(b >> (8 * j)); u8 t[64]; ref_salsa20_core(t, in, s, SIGMA); size_t at = (size_t)(b - b0) * 64, l = N - b * 64 < 64 ? N - b * 64 : 64; memcpy(w + at, t, l); }
    size_t tl = N - b0 * 64; ev(1);
    switch (i) {
      case 0: if (crypto_stream(o, N, n, k) || !eqb(o + b0 * 64, w, tl)) VIOL("xsalsa20", "length %zu (beyond 2^32): the end of the stream is wrong", N); break;
      case 1: { u8 t[16], wt[16]; k[31] &= 0x7f; crypto_onetimeauth(t, z, N, k); wd_long(400); ref_poly1305(wt, z, N, k); if (!eqb(t, wt, 16)) VIOL("poly1305", "length %zu (beyond 2^32): wrong tag", N); } break;
      case 2: { /* a genuine short box in front of 2^32 further bytes */ size_t d = N - (1ull << 32); u8 m[4200] = {0}; munmap(z, N); z = mmap(NULL, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) break; madvise(z, N, MADV_NOHUGEPAGE); rbytes(m + 32, d - 32); ref_secretbox(z, m, d, n, k); if (!crypto_secretbox_open(o, z, N, n, k)) VIOL("forgery-accepted", "a box of %zu bytes followed by 2^32 more is accepted", d); } break;
      default: if (crypto_secretbox(o, z, N, n, k) || !eqb(o + b0 * 64, w, tl)) VIOL("secretbox", "length %zu (beyond 2^32): the end of the ciphertext is wrong", N);
    }
    stat_add("huge_calls", 1); nontriv(N + (uint64_t)i); win_unmap(o, N, win); if (z != MAP_FAILED) munmap(z, N); wd_arm();
  }
#endif
}
