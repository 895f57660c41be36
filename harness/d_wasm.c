/* C19 the exported wrappers against the native functions; contents of a buffer at the moment mem_free releases it */
#include "gen.h"
#include <sys/mman.h>
uint8_t *mem_alloc(size_t); uint64_t *mem_alloc_long_long(size_t); void mem_free(void *, size_t);
int dp_sign_keypair_seed(u8 *, u8 *, u8 *); int dp_sign_keypair(u8 *, u8 *); int dp_sign(u8 *, size_t *, const u8 *, size_t, const u8 *);
int dp_sign_verify(u8 *, size_t, const u8 *, size_t, const u8 *); int dp_sign_seedexpander(const u8 *, u8 *); int dp_randombytes(void *, size_t); int dp_seedexpander_wrapper(const u8 *, size_t, u8 *, size_t);
/* both calls on identical buffers and entropy; all of it must come out identical */
static u8 A[FULLMAX + 8192], B[FULLMAX + 8192];
static void same(const char *fn, int ra, int rb, size_t n, const char *what) {
  ev(1); if (ra != rb) VIOL("wrapper-code", "%s returns %d where the native function returns %d (%s)", fn, ra, rb, what);
  if (!eqb(A, B, n)) { size_t k = 0; while (A[k] == B[k]) k++; VIOL("wrapper-bytes", "%s writes other bytes than the native function, first at offset %zu of its outputs (%s)", fn, k, what); }
  set_add("wrapper_outcomes", "%s:%d", fn, ra); stat_add("wrapper_calls", 1);
}
static void prep(uint64_t k) { memset(A, (int)(k & 255), sizeof A); memset(B, (int)(k & 255), sizeof B); }
static unsigned fa_call; static int fa_errno;
static int fa_plan(void *c, unsigned call, size_t req, size_t *give) { (void)c; if (call >= fa_call) return fa_errno; if (call % 3 == 1) return EINTR; *give = req / 2 + 1; return 0; }
/* free monitor */
static u8 *fr_p; static size_t fr_n, fr_nonzero, fr_other; static int fr_count;
static void on_free(void *p) { if (p == fr_p && p) { fr_count++; for (size_t i = 0; i < fr_n; i++) if (fr_p[i]) { fr_nonzero++; } } else fr_other++; }
void drv_C19(void) {
  CASES("free", i, h_count(2400, 40000)) {
    size_t n = i < 1200 ? (size_t)i : i < 1300 ? (size_t)(i - 1300 + 53000) : i < 1400 ? (size_t)(1 << (i % 17)) + rn(3) : rn(70000); int ll = (int)rn(3) == 0; if (!n) n = rn(2); mem_begin(); mem.on = 0; u8 *p = ll ? (u8 *)mem_alloc_long_long(n) : mem_alloc(n);
    if (!p && n) { VIOL("alloc-null", "allocation of %zu bytes failed", n); continue; } int cls = (int)rn(6);
    if (p) switch (cls) { case 0: memset(p, 0xff, n); break; case 1: rbytes(p, n); break; case 2: for (size_t j = 0; j < n; j++) p[j] = (u8)(j * 7 + 1) ? (u8)(j * 7 + 1) : 1; break; case 3: memset(p, 0, n); if (n) p[n - 1] = 1; break; case 4: memset(p, 0, n); if (n) p[0] = 0x80; break; default: memset(p, 0, n); if (n) p[rn((uint32_t)n)] = 1; }
    if (ll && n >= 8) { *(volatile uint64_t *)p = ~0ULL; if ((uintptr_t)p & 7) VIOL("alloc-alignment", "mem_alloc_long_long returned %p", (void *)p); }
    fr_p = p; fr_n = n; fr_nonzero = fr_other = 0; fr_count = 0; h_free_hook = on_free; mem_free(p, n); h_free_hook = NULL; ev(2);
    if (fr_nonzero) VIOL("freed-unwiped", "mem_free(%zu bytes) released the buffer with %zu non-zero bytes in it", n, fr_nonzero);
    if (p && fr_count != 1) VIOL("not-freed", "mem_free(%zu bytes) released the buffer %d times", n, fr_count);
    set_add("sizes_freed", "%zu", n); stat_add("buffers_freed", 1); nontriv(n * 8 + (uint64_t)cls); if (i % 800 == 5) sample("%zu-byte buffer (content class %d): %zu non-zero bytes at release", n, cls, fr_nonzero);
  }
#ifndef H_ASAN
  CASES("free-null", i, 1) { h_free_hook = NULL; mem_free(NULL, 0); ev(1); }
#endif
  CASES("alloc", i, h_count(200, 3000)) { /* live buffers are distinct and keep their contents */
    u8 *p[16]; size_t n[16]; for (int j = 0; j < 16; j++) { n[j] = 1 + rn(5000); p[j] = j & 1 ? (u8 *)mem_alloc_long_long(n[j]) : mem_alloc(n[j]); memset(p[j], j + 1, n[j]); } for (int j = 0; j < 16; j += 3) { mem_free(p[j], n[j]); p[j] = NULL; }
    for (int j = 0; j < 16; j++) if (p[j]) { ev(1); for (size_t k = 0; k < n[j]; k++) if (p[j][k] != j + 1) { VIOL("alloc-overlap", "a live buffer changed when others were freed"); break; } mem_free(p[j], n[j]); } nontriv(r64());
  }
  CASES("keypair-seed", i, h_count(24, 400)) {
    u8 s[160], s2[160]; if (i & 1) rbytes(s, 160); else rpat(s, 160); memcpy(s2, s, 160); prep((uint64_t)i); ent_reset(5); int ra = dp_sign_keypair_seed(A, A + 2000, s); unsigned ca = ent.calls; ent_reset(5); int rb = hy_keypair_seed(B, B + 2000, s2); same("dp_sign_keypair_seed", ra, rb, sizeof A, "seeded"); if (!eqb(s, s2, 160)) VIOL("wrapper-bytes", "dp_sign_keypair_seed changed the seed"); if (ca != ent.calls) VIOL("wrapper-bytes", "dp_sign_keypair_seed draws randomness"); nontriv(h_hash(s, 160));
  }
  CASES("keypair", i, h_count(24, 400)) {
    uint64_t k = r64(); prep((uint64_t)i); fa_call = i % 3 ? 1000 : rn(3); fa_errno = rn(2) ? EIO : ENOSYS; ent_reset(k); ent.plan = i & 1 ? fa_plan : NULL; int ra = dp_sign_keypair(A, A + 2000); ent_reset(k); ent.plan = i & 1 ? fa_plan : NULL; int rb = hy_keypair(B, B + 2000); ent.plan = NULL; same("dp_sign_keypair", ra, rb, sizeof A, "random"); nontriv(k);
  }
  CASES("null", i, h_count(64, 64)) {
    const h_key *k = h_getkey(0); u8 m[64] = {1, 2, 3}; static u8 sig[COMPACTMAX]; u8 nonce[40] = {7}; ref_compact_sign(sig, m, 9, k->sk, nonce, NULL); int q = (int)(i % 16); u8 sd[160]; memcpy(sd, k->seed, 160);
    prep(3); size_t la = 77; ull lb = 77; ent_reset(1); int ra = dp_sign(q & 1 ? NULL : A, q & 2 ? NULL : &la, q & 4 ? NULL : m, 9, q & 8 ? NULL : k->sk); ent_reset(1); int rb = hy_csign(q & 1 ? NULL : B, q & 2 ? NULL : &lb, q & 4 ? NULL : m, 9, q & 8 ? NULL : k->sk); same("dp_sign", ra, rb, sizeof A, "NULL arguments"); if (la != lb) VIOL("wrapper-bytes", "dp_sign reports length %zu, native %llu", la, lb);
    ra = dp_sign_verify(q & 1 ? NULL : m, 9, q & 2 ? NULL : sig, COMPACT(9), q & 4 ? NULL : k->pk); rb = hy_cverify(q & 1 ? NULL : m, 9, q & 2 ? NULL : sig, COMPACT(9), q & 4 ? NULL : k->pk); same("dp_sign_verify", ra, rb, 0, "NULL arguments");
    if (q) { prep(4); ra = dp_sign_keypair_seed(q & 1 ? NULL : A, q & 2 ? NULL : A + 2000, q & 12 ? NULL : sd); rb = hy_keypair_seed(q & 1 ? NULL : B, q & 2 ? NULL : B + 2000, q & 12 ? NULL : sd); same("dp_sign_keypair_seed", ra, rb, sizeof A, "NULL arguments");
      if (q & 3) { ent_reset(2); ra = dp_sign_keypair(q & 1 ? NULL : A, q & 2 ? NULL : A + 2000); ent_reset(2); rb = hy_keypair(q & 1 ? NULL : B, q & 2 ? NULL : B + 2000); same("dp_sign_keypair", ra, rb, sizeof A, "NULL arguments");
      ra = dp_sign_seedexpander(q & 1 ? NULL : sd, q & 2 ? NULL : A); rb = hy_expand(q & 1 ? NULL : sd, q & 2 ? NULL : B); same("dp_sign_seedexpander", ra, rb, sizeof A, "NULL arguments");
      ra = dp_seedexpander_wrapper(q & 1 ? NULL : sd, 64, q & 2 ? NULL : A, 100); rb = seedexpander_wrapper(q & 1 ? NULL : sd, 64, q & 2 ? NULL : B, 100); same("dp_seedexpander_wrapper", ra, rb, sizeof A, "NULL arguments"); } }
    nontriv((uint64_t)i + 1);
  }
  CASES("sign", i, h_count(700, 12000)) {
    const h_key *k = h_getkey((unsigned)i); u8 m[300]; size_t n = i < 128 ? (size_t)(i % 66) : i % 9 == 0 ? 60 + rn(240) : 1 + rn(64); if (i % 61 == 60) n = ((size_t)1 << (32 + rn(3))) + 1 + rn(64); rpat(m, 300); uint64_t e = r64(); int fault = i % 7 == 3; fa_call = rn(4); fa_errno = EIO; size_t la = 4242; ull lb = 4242; prep((uint64_t)i);
    ent_reset(e); ent.plan = fault ? fa_plan : NULL; int ra = dp_sign(A, &la, m, n, k->sk); ent_reset(e); ent.plan = fault ? fa_plan : NULL; int rb = hy_csign(B, &lb, m, n, k->sk); ent.plan = NULL; same("dp_sign", ra, rb, 4096, "signing"); if (la != lb) VIOL("wrapper-bytes", "dp_sign reports length %zu, native %llu", la, lb); set_add("sign_lengths", "%zu", n); nontriv(h_hash(m, 64) + n);
  }
  CASES("verify", i, h_count(2500, 40000)) {
    const h_key *k = h_getkey((unsigned)i), *k2 = h_getkey((unsigned)i + 1); unsigned n = 1 + (unsigned)(i % 64); u8 m[64], m2[64], nonce[40]; static u8 sig[COMPACTMAX + 64]; rpat(m, 64); rbytes(nonce, 40); memset(sig, 0, sizeof sig); ref_compact_sign(sig, m, n, k->sk, nonce, NULL); size_t ml = n, sl = COMPACT(n); const u8 *pk = k->pk; int c = (int)(i / 64 % 14);
    switch (c) { case 0: case 1: case 2: break; case 3: sig[rn((uint32_t)sl)] ^= (u8)(1 << rn(8)); break; case 4: m[rn(n)] ^= (u8)(1 << rn(8)); break; case 5: pk = k2->pk; break; case 6: ml = n + 1; break; case 7: ml = n - 1; break; case 8: sl--; break; case 9: sl++; break; case 10: ml = n + ((size_t)1 << (8 * (1 + rn(7)))); break; case 11: sl += (size_t)1 << (16 + rn(40)); break; case 12: sig[rn(2)] = (u8)rn(256); break; case 13: ml = rn(2) ? 0 : (size_t)-1; break; }
    memcpy(m2, m, 64); int ra = dp_sign_verify(m, ml, sig, sl, pk); int rb = hy_cverify(m, ml, sig, sl, pk); prep(0); same("dp_sign_verify", ra, rb, 0, c < 3 ? "valid" : "modified"); if (!eqb(m, m2, 64)) VIOL("wrapper-bytes", "dp_sign_verify changed the message"); stat_add(ra ? "rejected_by_both" : "accepted_by_both", 1); set_add("verify_classes", "%d:%d", c, ra); nontriv(h_hash(sig, sl > COMPACTMAX ? COMPACTMAX : sl) + ml);
  }
  CASES("expander", i, h_count(400, 8000)) {
    u8 s[300]; rpat(s, 300); prep((uint64_t)i); int ra = dp_sign_seedexpander(s, A), rb = hy_expand(s, B); same("dp_sign_seedexpander", ra, rb, 400, "96-byte seed"); size_t sl = i < 100 ? (size_t)i : rn(300), ol = i & 1 ? rn(3000) : sl + rn(3); prep((uint64_t)i + 1); ra = dp_seedexpander_wrapper(s, sl, A, ol); rb = seedexpander_wrapper(s, sl, B, ol); same("dp_seedexpander_wrapper", ra, rb, 4096, "lengths"); nontriv(h_hash(s, 300) + ol);
  }
  CASES("random", i, h_count(600, 10000)) {
    size_t n = i < 300 ? (size_t)i : rn(20000); uint64_t e = r64(); int fault = i % 4 == 1; fa_call = rn(5); fa_errno = EIO; prep((uint64_t)i); ent_reset(e); ent.plan = fault ? fa_plan : NULL; int ra = dp_randombytes(A, n); size_t pa = ent.pos; ent_reset(e); ent.plan = fault ? fa_plan : NULL; int rb = randombytes(B, n); ent.plan = NULL; same("dp_randombytes", ra, rb, 24000, "drawing"); if (pa != ent.pos) VIOL("wrapper-bytes", "dp_randombytes draws %zu bytes, native %zu", pa, ent.pos); nontriv(e);
  }
}
