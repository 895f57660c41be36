/* C15 secrets are marked undefined; memcheck reports every branch and address that depends on them */
#include "h.h"
#include <valgrind/memcheck.h>
#define SEC(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define PUB(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
static unsigned long e0; static long n_taint;
static void begin(void) { e0 = VALGRIND_COUNT_ERRORS; }
/* after the call: new reports? is the output tainted (the secret really went through)? */
static void end(const char *op, int r, u8 *out, size_t n) {
  unsigned long e1 = VALGRIND_COUNT_ERRORS; PUB(&r, sizeof r); static u8 vb[70000]; size_t t = 0; if (n) { VALGRIND_GET_VBITS(out, vb, n); for (size_t i = 0; i < n; i++) if (vb[i]) t++; PUB(out, n); }
  ev(1); stat_add("calls", 1); stat_add("tainted_output_bytes", (long)t); set_add("operations", "%s", op); if (t || !n) set_add("operations_with_secret_flow", "%s", op);
  if (e1 != e0) VIOL("secret-dependent", "%s: %lu branch(es) or address(es) depend on secret bytes", op, e1 - e0);
  (void)n_taint;
}
static int t_plan(void *c, unsigned call, size_t req, size_t *give) { (void)c; (void)call; (void)req; (void)give; return 0; }
/* deliberately leaky code: the monitor must notice it */
__attribute__((noinline)) static int leaky(const u8 *p, int n) { for (int i = 0; i < n; i++) if (p[i] & 1) return i; return -1; }
static const u8 tab[256] = {1, 2, 3};
void drv_C15canary(void) { if (!RUNNING_ON_VALGRIND) exit(9); u8 *p = malloc(32); memset(p, 2, 32); p[20] = 1; SEC(p, 32); volatile int r = leaky(p, 32); volatile u8 q = tab[p[3]]; (void)r; (void)q; PUB(p, 32); ev(1); printf("SET canary_reports %lu\n", VALGRIND_COUNT_ERRORS); }
void drv_C15(void) {
  if (!RUNNING_ON_VALGRIND) exit(9);
  u8 *sd = malloc(160), *pk = malloc(PKB), *sk = malloc(SKB), *o = malloc(70000), *m = malloc(70000), k[32], nn[24], p[32]; ull l; h_taint = 0;
  memset(pk, 0, PKB); memset(sk, 0, SKB); memset(o, 0, 70000);
  CASES("ed25519-keygen", i, h_count(16, 600)) { if (i & 1) rbytes(sd, 32); else rpat(sd, 32); nontriv(h_hash(sd, 32)); SEC(sd, 32); begin(); int r = crypto_sign_keypair_seed(pk, sk, sd); PUB(sd, 32); end("ed25519-keypair-seed", r, pk, 32); begin(); end("ed25519-keypair-seed(sk)", r, sk, 64);
    if (i % 4 == 0) { ent_reset(r64()); h_taint = 1; begin(); r = crypto_sign_ed25519_keypair(pk, sk); h_taint = 0; PUB(sk, 64); end("ed25519-keypair", r, pk, 32); ent_reset(r64()); h_taint = 1; begin(); r = crypto_box_keypair(pk, sk); h_taint = 0; PUB(sk, 32); end("box-keypair", r, pk, 32); } }
  CASES("ed25519-sign", i, h_count(24, 800)) { size_t n = i < 8 ? (size_t)i * 40 : rn(600); u8 s2[64]; if (i & 1) rbytes(sd, 32); else rpat(sd, 32); ref_ed_keypair(pk, s2, sd); memcpy(sk, s2, 64); rpat(m, n); nontriv(h_hash(sd, 32) + n); SEC(sk, 32); SEC(m, n); begin(); int r = crypto_sign_ed25519(o, &l, m, n, sk); PUB(sk, 64); PUB(m, n); end("ed25519-sign", r, o, 64 + n); }
  CASES("x25519", i, h_count(24, 800)) { if (i & 1) rbytes(k, 32); else rpat(k, 32); rpat(p, 32); nontriv(h_hash(k, 32)); SEC(k, 32); if (i % 3 == 0) SEC(p, 32); begin(); int r = crypto_scalarmult(o, k, p); PUB(p, 32); end("x25519", r, o, 32); if (i % 4 == 1) { begin(); r = crypto_scalarmult_base(o, k); end("x25519-base", r, o, 32); } if (i % 4 == 2) { begin(); r = crypto_box_beforenm(o, p, k); end("box-beforenm", r, o, 32); } PUB(k, 32); }
  CASES("sphincs-keygen", i, h_count(4, 120)) { rpat(sd, 96); memset(pk, 0, 64); memset(sk, 0, 128); nontriv(h_hash(sd, 96)); SEC(sd, 64); begin(); int r = spx_keypair_seed(pk, sk, sd); PUB(sd, 96); PUB(sk, 128); end("sphincs-keypair-seed", r, pk, 64); }
  CASES("expander", i, h_count(60, 2000)) { rpat(sd, 96); nontriv(h_hash(sd, 96)); SEC(sd, 96); begin(); int r = hy_expand(sd, o); PUB(sd, 96); end("hybrid-seed-expander", r, o, 160);
    size_t sl = 32 + rn(120), ol = sl + 1 + rn(700); rpat(m, sl); SEC(m, sl); begin(); r = seedexpander_wrapper(m, sl, o, ol); end("seedexpander-wrapper", r, o, ol); if (i % 3 == 0) { seedexpander_state st; begin(); seedexpander_init(&st, m, sl); seedexpander(&st, o, 33); seedexpander(&st, o + 33, ol); seedexpander_release(&st); end("seedexpander", 0, o, 33 + ol); } PUB(m, sl); }
  CASES("hash", i, h_count(140, 5000)) { size_t n = rn(500), ol = 1 + rn(500); rpat(m, n); nontriv(h_hash(m, n) + ol); SEC(m, n); begin();
    switch (i % 10) { case 0: shake128(o, ol, m, n); end("shake128", 0, o, ol); break; case 1: shake256(o, ol, m, n); end("shake256", 0, o, ol); break; case 2: sha3_256(o, m, n); end("sha3-256", 0, o, 32); break; case 3: sha3_384(o, m, n); end("sha3-384", 0, o, 48); break; case 4: sha3_512(o, m, n); end("sha3-512", 0, o, 64); break;
      case 5: { shake256incctx c; shake256_inc_init(&c); size_t a = rn((uint32_t)n + 1); shake256_inc_absorb(&c, m, a); shake256_inc_absorb(&c, m + a, n - a); shake256_inc_finalize(&c); shake256_inc_squeeze(o, ol, &c); shake256_inc_squeeze(o + ol, 77, &c); shake256_inc_ctx_release(&c); end("shake256-inc", 0, o, ol + 77); } break;
      case 6: { shake128incctx c; shake128_inc_init(&c); size_t a = rn((uint32_t)n + 1); shake128_inc_absorb(&c, m, a); shake128_inc_absorb(&c, m + a, n - a); shake128_inc_finalize(&c); shake128_inc_squeeze(o, ol, &c); shake128_inc_ctx_release(&c); end("shake128-inc", 0, o, ol); } break;
      case 7: { sha3_512incctx c; sha3_512_inc_init(&c); size_t a = rn((uint32_t)n + 1); sha3_512_inc_absorb(&c, m, a); sha3_512_inc_absorb(&c, m + a, n - a); sha3_512_inc_finalize(o, &c); end("sha3-512-inc", 0, o, 64); sha3_256incctx d; begin(); sha3_256_inc_init(&d); sha3_256_inc_absorb(&d, m, n); sha3_256_inc_finalize(o, &d); end("sha3-256-inc", 0, o, 32); sha3_384incctx e; begin(); sha3_384_inc_init(&e); sha3_384_inc_absorb(&e, m, n); sha3_384_inc_finalize(o, &e); end("sha3-384-inc", 0, o, 48); } break;
      case 8: { shake256ctx c; shake256_absorb(&c, m, n); shake256_squeezeblocks(o, 2, &c); shake256_ctx_release(&c); end("shake256-blocks", 0, o, 272); shake128ctx d; begin(); shake128_absorb(&d, m, n); shake128_squeezeblocks(o, 2, &d); shake128_ctx_release(&d); end("shake128-blocks", 0, o, 336); } break;
      case 9: { int r = crypto_hash(o, m, n); end("sha512", r, o, 64); } break; }
    PUB(m, n); }
  CASES("secretbox", i, h_count(80, 3000)) { size_t n = 32 + rn(i % 8 ? 300 : 2000); rpat(k, 32); rpat(nn, 24); memset(m, 0, 32); rpat(m + 32, n - 32); nontriv(h_hash(k, 32) + n); SEC(k, 32); SEC(m + 32, n - 32); begin();
    switch (i % 5) { case 0: case 1: end("secretbox", crypto_secretbox(o, m, n, nn, k), o, n); break; case 2: end("stream-xor", crypto_stream_xor(o, m, n, nn, k), o, n); begin(); end("stream", crypto_stream(o, n, nn, k), o, n); break; case 3: end("onetimeauth", crypto_onetimeauth(o, m, n, k), o, 16); break; case 4: end("box-afternm", crypto_box_afternm(o, m, n, nn, k), o, n); break; } PUB(k, 32); PUB(m, n); }
  CASES("box", i, h_count(8, 300)) { size_t n = 32 + rn(300); u8 nine[32] = {9}; rbytes(k, 32); ref_x25519(p, k, nine); rpat(k, 32); rpat(nn, 24); memset(m, 0, 32); rpat(m + 32, n - 32); nontriv(h_hash(k, 32) + n); SEC(k, 32); SEC(m + 32, n - 32); begin(); int r = crypto_box(o, m, n, nn, p, k); PUB(k, 32); PUB(m, n); end("box", r, o, n); }
  CASES("verify", i, getenv("H_VARIANT") && strstr(getenv("H_VARIANT"), "-O0") ? 0 : h_count(400, 8000)) { u8 a[32], b[32]; rpat(a, 32); memcpy(b, a, 32); if (i % 4) b[rn(i & 1 ? 32 : 16)] ^= (u8)(1 << rn(8)); if (i % 8 == 1) rbytes(b, 32); nontriv(h_hash(a, 32) ^ (h_hash(b, 32) * 3)); SEC(a, 32); SEC(b, 32); begin(); int r = crypto_verify_16(a, b); end("verify-16", r, NULL, 0); begin(); r = crypto_verify_32(a, b); end("verify-32", r, NULL, 0);
    if (i % 8 == 0) { size_t n = rn(100); rpat(m, n); rpat(k, 32); u8 t[16]; ref_poly1305(t, m, n, k); if (i & 8) t[rn(16)] ^= 1; SEC(t, 16); SEC(k, 32); begin(); r = crypto_onetimeauth_verify(t, m, n, k); PUB(k, 32); end("onetimeauth-verify", r, NULL, 0); } }
  (void)t_plan; sample("secret bytes marked undefined, %lu memcheck reports so far", (unsigned long)VALGRIND_COUNT_ERRORS);
}
