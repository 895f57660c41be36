/* C23 signing and Dilithium key generation: secrets are marked undefined, what the algorithm gives away by design is
   declassified where it arises (link-time interposition of the library's own cross-file calls), everything else that reaches a
   branch or an address is reported by memcheck.  A run in which an interposed point was not met as often as the model says
   (code restructured) is not judged. */
#define _GNU_SOURCE
#include "h.h"
#ifdef H_VG
#include <valgrind/memcheck.h>
#define SEC(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define PUB(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
#define POLYB 1024
#define D_(x) PQCLEAN_DILITHIUM2_CLEAN_##x
#define S_(x) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##x
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define WRAP(x) CAT(__wrap_, x)
#define REAL(x) CAT(__real_, x)
#define DECL(ret, x, args) ret __attribute__((weak)) REAL(x) args; ret WRAP(x) args
static long n_chal, n_norm, n_hint, n_eta, n_mat, n_rand, n_tree; static int in_norm, in_hint, in_mat;
/* the challenge is public */
DECL(void, D_(poly_challenge), (void *c, u8 *seed)) { n_chal++; PUB(seed, 32); REAL(D_(poly_challenge))(c, seed); }
/* whether and where a norm bound is exceeded is public (the sign is not: C23sign) */
#define NORM(f, size) DECL(int, D_(f), (void *v, int32_t B)) { static _Alignas(64) u8 t[4 * POLYB]; if (in_norm) return REAL(D_(f))(v, B); n_norm++; in_norm = 1; memcpy(t, v, size); PUB(t, size); int r = REAL(D_(f))(t, B); in_norm = 0; return r; }
NORM(polyvecl_chknorm, 4 * POLYB) NORM(polyveck_chknorm, 4 * POLYB) NORM(poly_chknorm, POLYB)
/* the hint is public */
#define HINT(f, size) DECL(unsigned, D_(f), (void *h, void *a, void *b)) { static _Alignas(64) u8 t[4 * POLYB], u[4 * POLYB]; if (in_hint) return REAL(D_(f))(h, a, b); n_hint++; in_hint = 1; memcpy(t, a, size); memcpy(u, b, size); PUB(t, size); PUB(u, size); unsigned r = REAL(D_(f))(h, t, u); in_hint = 0; return r; }
HINT(polyveck_make_hint, 4 * POLYB) HINT(poly_make_hint, POLYB)
/* the matrix seed is public */
DECL(void, D_(polyvec_matrix_expand), (void *m, u8 *rho)) { n_mat++; PUB(rho, 32); REAL(D_(polyvec_matrix_expand))(m, rho); }
/* the rejection pattern of the secret sampler is public, the sampled values are not */
DECL(void, D_(poly_uniform_eta), (void *a, u8 *seed, uint16_t nonce)) { u8 s[64]; n_eta++; memcpy(s, seed, 64); PUB(s, 64); REAL(D_(poly_uniform_eta))(a, s, nonce); SEC(a, POLYB); }
/* the message randomiser is part of the signature, the root each layer signs follows from the signature */
DECL(void, S_(gen_message_random), (u8 *R_, void *prf, void *opt, void *m, ull n, void *ctx)) { n_rand++; REAL(S_(gen_message_random))(R_, prf, opt, m, n, ctx); PUB(R_, 32); }
DECL(void, S_(merkle_sign), (u8 *sig, u8 *root, void *ctx, void *wa, void *ta, uint32_t leaf)) { n_tree++; PUB(root, 32); REAL(S_(merkle_sign))(sig, root, ctx, wa, ta, leaf); }

static unsigned long e0;
static void begin(void) { n_chal = n_norm = n_hint = n_eta = n_mat = n_rand = n_tree = 0; e0 = VALGRIND_COUNT_ERRORS; }
static void end(const char *op, int ok, int r, u8 *out, size_t n) {
  unsigned long e1 = VALGRIND_COUNT_ERRORS; PUB(&r, sizeof r); static u8 vb[70000]; size_t t = 0; VALGRIND_GET_VBITS(out, vb, n); for (size_t i = 0; i < n; i++) if (vb[i]) t++; PUB(out, n);
  ev(1); stat_add("calls", 1); stat_add("tainted_output_bytes", (long)t); stat_add("declassifications", n_chal + n_norm + n_hint + n_eta + n_mat + n_rand + n_tree);
  if (!ok) { stat_add("undecided", 1); set_add("undecided_operations", "%s", op); return; }
  set_add("operations", "%s", op); if (t) set_add("operations_with_secret_flow", "%s", op);
  if (e1 != e0) VIOL("secret-dependent", "%s: %lu branch(es) or address(es) depend on secret bytes", op, e1 - e0);
}
static int dil_ok(const ref_dil_ev *e) { long a = e->attempts, b = a - e->rej_z, c = b - e->rej_w0, d = c - e->rej_ct0; return n_chal >= a && n_norm >= a + b + c && n_hint >= d && n_mat >= 1; }
static void sec_dil(u8 *sk) { SEC(sk + 32, 32); SEC(sk + 128, 2560 - 128); }
static void sec_hy(u8 *sk) { SEC(sk, 32); sec_dil(sk + 64); SEC(sk + 3936, 64); }
void drv_C23(void) {
  if (!RUNNING_ON_VALGRIND) exit(9);
  u8 *sd = malloc(160), *pk = malloc(PKB), *sk = malloc(SKB), *o = malloc(60000), *m = malloc(3000), *w = malloc(60000); ull l; size_t sl; ref_dil_ev e; h_taint = 0;
  CASES("dil-keygen", i, h_count(24, 800)) { if (i & 1) rbytes(sd, 32); else rpat(sd, 32); memset(pk, 0, PKB); memset(sk, 0, SKB); nontriv(h_hash(sd, 32)); SEC(sd, 32); begin(); int r = dil_keypair_seed(pk, sk, sd); PUB(sd, 32); int ok = n_eta >= 8 && n_mat >= 1; PUB(sk, 2560); end("dilithium-keypair-seed", ok, r, pk, 1312);
    if (i % 3 == 0) { ent_reset(r64()); h_taint = 1; begin(); r = dil_keypair(pk, sk); h_taint = 0; ok = n_eta >= 8 && n_mat >= 1; end("dilithium-keypair", ok, r, sk, 2560); PUB(pk, 1312); } }
  CASES("dil-sign", i, h_count(40, 1500)) { const h_key *k = h_getkey((unsigned)i % 12); memcpy(sk, k->sk + 64, 2560); if (i % 5 == 4) { rbytes(sk + 32, 32); for (int j = 0; j < 768; j++) sk[128 + j] = 0; /* small secrets at the end of the range */ for (int j = 0; j < 256 * 8; j++) { unsigned b = (unsigned)j * 3, v = rn(5); for (int q = 0; q < 3; q++) sk[128 + (b + (unsigned)q) / 8] |= (u8)(((v >> q) & 1) << ((b + (unsigned)q) & 7)); } }
    size_t n = i < 8 ? (size_t)i * 30 : rn(600); rpat(m, n); ref_dil_opts op = {.max_attempts = 60}; if (ref_dil_sign(w, m, n, sk, &op, &e)) continue; nontriv(h_hash(m, n) ^ h_hash(sk, 2560)); int inplace = i & 1; set_add("rejections", "%u", e.attempts - 1 > 12 ? 12 : e.attempts - 1);
    sec_dil(sk); if (i % 3 == 0) SEC(m, n); begin(); int r; if (!inplace) r = dil_sig(o, &sl, m, n, sk); else { memcpy(o, m, n); r = dil_sign(o, &sl, o, n, sk); } PUB(sk, 2560); PUB(m, n); PUB(&sl, sizeof sl); end(inplace ? "dilithium-sign" : "dilithium-signature", dil_ok(&e), r, o, 2420 + (inplace ? n : 0)); }
  CASES("hybrid-compact", i, h_count(16, 600)) { const h_key *k = h_getkey((unsigned)i % 12); size_t n = i < 4 ? (size_t[]){1, 32, 63, 64}[i] : 1 + rn(64); rpat(m, n); uint64_t key = 0; u8 nonce[40]; /* a draw without too many rejections: valgrind is slow */
    for (int t = 0; t < 6; t++) { u8 hm[168], hh[64]; uint64_t kk = r64(); ent_reset(kk); ent_bytes(nonce, 0, 40); memcpy(hm, nonce, 40); memcpy(hm + 40, m, n); memcpy(hm + 40 + n, k->pk + 1344, 64); ref_sha3(hh, 512, hm, 104 + n); ref_dil_opts op = {.max_attempts = 12}; key = kk; if (!ref_dil_sign(w, hh, 64, k->sk + 64, &op, &e)) break; key = 0; } if (!key) continue;
    memcpy(sk, k->sk, SKB); nontriv(key); sec_hy(sk); ent_reset(key); begin(); int r = hy_csign(o, &l, m, n, sk); PUB(sk, SKB); PUB(&l, sizeof l); end("hybrid-compact-sign", dil_ok(&e), r, o, COMPACT(n)); }
  CASES("sphincs-sign", i, h_count(4, 120)) { const h_key *k = h_getkey((unsigned)i % 12); memcpy(sk, k->sk + 3936, 128); size_t n = i < 2 ? (size_t)i * 64 : rn(300); rpat(m, n); nontriv(h_hash(m, n) ^ r64()); SEC(sk, 64); ent_reset(r64()); h_taint = 1; begin(); int r = spx_sig(o, &sl, m, n, sk); h_taint = 0; PUB(sk, 128); PUB(&sl, sizeof sl); end("sphincs-signature", n_rand >= 1 && n_tree >= 17, r, o, SSIG); }
  CASES("hybrid-full", i, h_count(3, 90)) { const h_key *k = h_getkey((unsigned)i % 12); size_t n = 0; ref_dil_opts op = {.max_attempts = 12}; int okm = 0; for (int t = 0; t < 6 && !okm; t++) { n = 1 + rn(64); rbytes(m, n); okm = !ref_dil_sign(w, m, n, k->sk + 64, &op, &e); } if (!okm) continue;
    memcpy(sk, k->sk, SKB); nontriv(h_hash(m, n)); sec_hy(sk); ent_reset(r64()); begin(); int r = hy_fsign(o, &l, m, n, sk); PUB(sk, SKB); PUB(&l, sizeof l); end("hybrid-full-sign", dil_ok(&e) && n_rand >= 1 && n_tree >= 17, r, o, FULL(n)); }
  CASES("hybrid-keygen", i, h_count(6, 160)) { rpat(sd, 160); memset(pk, 0, PKB); memset(sk, 0, SKB); nontriv(h_hash(sd, 160)); SEC(sd, 128); begin(); int r = hy_keypair_seed(pk, sk, sd); PUB(sd, 160); int ok = n_eta >= 8 && n_mat >= 1; end("hybrid-keypair-seed", ok, r, sk, SKB); PUB(pk, PKB); }
  sample("%lu memcheck reports so far", (unsigned long)VALGRIND_COUNT_ERRORS);
}
__attribute__((noinline)) static int leaky(const int32_t *v, int n) { int c = 0; for (int i = 0; i < n; i++) if (v[i] < 0) { c += 3; __asm__ volatile("" : "+r"(c)); } return c; }
void drv_C23canary(void) { if (!RUNNING_ON_VALGRIND) exit(9); int32_t *p = malloc(4 * 64); memset(p, 2, 256); p[20] = -1; SEC(p, 256); volatile int r = leaky(p, 64); (void)r; PUB(p, 256); ev(1); printf("SET canary_reports %lu\n", VALGRIND_COUNT_ERRORS); }
#else
/* C23sign: the sequence of executed instructions of the norm check, recorded by single-stepping (x86 trap flag), must not depend
   on the signs of the coefficients */
#include <signal.h>
#include <ucontext.h>
int __attribute__((weak)) PQCLEAN_DILITHIUM2_CLEAN_poly_chknorm(const void *a, int32_t B); int __attribute__((weak)) PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm(const void *a, int32_t B); int __attribute__((weak)) PQCLEAN_DILITHIUM2_CLEAN_polyveck_chknorm(const void *a, int32_t B);
static volatile uint64_t tr_h, tr_n; static volatile int tr_on;
static void on_trap(int s, siginfo_t *si, void *uc) { (void)s; (void)si; if (!tr_on) return; greg_t ip = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]; tr_h = (tr_h ^ (uint64_t)ip) * 0x9E3779B97F4A7C15ull; tr_h ^= tr_h >> 29; tr_n++; }
typedef int (*norm_fn)(const void *, int32_t);
__attribute__((noinline)) static int traced(norm_fn f, const void *v, int32_t B, uint64_t *h, uint64_t *n) {
  tr_h = 1; tr_n = 0; tr_on = 1; int r;
  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "cc", "memory");
  r = f(v, B);
  __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "cc", "memory");
  tr_on = 0; *h = tr_h; *n = tr_n; return r;
}
__attribute__((noinline)) static int leaky(const void *v, int32_t B) { const int32_t *a = v; for (int i = 0; i < 256; i++) { if (a[i] < 0) { if (-a[i] >= B) return 1; __asm__ volatile("nop"); } else if (a[i] >= B) return 1; } return 0; }
void drv_C23sign(void) {
  struct sigaction sa = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_NODEFER}; sigaction(SIGTRAP, &sa, NULL);
  static int32_t a[1024] __attribute__((aligned(64))), b[1024] __attribute__((aligned(64)));
  { for (int i = 0; i < 1024; i++) { a[i] = i; b[i] = i & 1 ? -i : i; } uint64_t h1, h2, n1, n2; traced(leaky, a, 5000, &h1, &n1); traced(leaky, b, 5000, &h2, &n2); if (n1 < 300 || h1 == h2) { fprintf(stderr, "single-stepping does not work (%llu steps)\n", (ull)n1); stat_add("trace_monitor_unavailable", 1); return; } stat_add("sign_canary_seen", 1); }
  struct { norm_fn f; int n; const char *s; } fs[] = {{PQCLEAN_DILITHIUM2_CLEAN_poly_chknorm, 256, "poly_chknorm"}, {PQCLEAN_DILITHIUM2_CLEAN_polyvecl_chknorm, 1024, "polyvecl_chknorm"}, {PQCLEAN_DILITHIUM2_CLEAN_polyveck_chknorm, 1024, "polyveck_chknorm"}};
  CASES("sign", i, h_count(160, 8000)) for (int q = 0; q < 3; q++) { if (!fs[q].f) { stat_add("undecided", 1); continue; }
    int32_t B = (int32_t[]){131072 - 78, 95232 - 78, 95232}[rn(3)]; int N = fs[q].n; int cls = (int)rn(4); int bad = i % 3 == 0 ? -1 : (int)rn((uint32_t)N);
    for (int j = 0; j < N; j++) { int32_t v = cls == 0 ? (int32_t)rn((uint32_t)B) : cls == 1 ? B - 1 - (int32_t)rn(4) : cls == 2 ? (int32_t)rn(4) : (int32_t)(rn(3) ? rn((uint32_t)B) : 0); if (j == bad) v = B + (int32_t)(rn(2) ? 0 : rn(4000000 - (uint32_t)B)); a[j] = rn(2) ? -v : v; b[j] = i % 2 ? -a[j] : rn(2) ? -v : v; }
    nontriv(h_hash(a, (size_t)N * 4)); uint64_t h1, h2, n1, n2; int r1 = traced(fs[q].f, a, B, &h1, &n1), r2 = traced(fs[q].f, b, B, &h2, &n2); ev(1); stat_add("instructions_traced", (long)(n1 + n2)); set_add("norm_functions", "%s", fs[q].s); set_add("exit_steps", "%llu", (ull)(n1 / 16));
    if (r1 != r2 || h1 != h2) VIOL("sign-dependent", "%s: coefficients differing in sign only take different instruction sequences (%llu and %llu instructions, results %d and %d)", fs[q].s, (ull)n1, (ull)n2, r1, r2); }
}
#endif
