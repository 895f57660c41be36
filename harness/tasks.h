/* A task is one library call (or short call sequence) fully determined by its number:
 * inputs, random stream and previous buffer contents are derived from it.  task_run returns everything the
 * caller can observe.  Tasks come in families of 4 that share pointers and differ in a single byte. */
#ifndef TASKS_H
#define TASKS_H
#include "hostile.h"
enum { T_KEYSEED, T_KEYRAND, T_EXPAND, T_CSIGN, T_COPEN, T_CVERIFY, T_FSIGN, T_FOPEN, T_FVERIFY, T_DILSIG, T_DILVERIFY, T_DILOPEN, T_VDIL, T_SPXVERIFY, T_EDSIGN, T_EDOPEN, T_EDKEY, T_SHA3, T_SHAKE, T_SHAKEINC, T_SHA3INC, T_SHA512, T_BOX, T_BOXOPEN, T_X25519, T_POLY, T_STREAM, T_RAND, T_WRAP, T_FAILSIGN, T_FAILKEY, T_DILKEY, T_SPXKEY, T_HOSTDIL, T_HOSTOPEN, T_HOSTFULL, T_N };
static const char *const task_name[] = {"keypair_seed", "keypair", "expander", "compact-sign", "compact-open", "compact-verify", "full-sign", "full-open", "full-verify", "dil-sig", "dil-verify", "dil-open", "verify_dilithium", "spx-verify", "ed-sign", "ed-open", "ed-keypair", "sha3", "shake", "shake-inc", "sha3-inc", "sha512", "box", "box-open", "x25519", "poly1305", "stream", "randombytes", "seedexpander", "sign-entropy-failure", "keypair-entropy-failure", "dil-keypair", "spx-keypair", "dil-verify-staged", "compact-open-staged", "full-open-staged"};
typedef struct { int op; unsigned fam, var; } task;
static _Thread_local int t_led;            /* account allocations of the library calls */
static _Thread_local u8 *t_o; static _Thread_local size_t t_n;
#define TOUT (FULLMAX + 8192)
static void t_put(const void *p, size_t n) { memcpy(t_o + t_n, p, n); t_n += n; }
static void t_int(long v) { t_put(&v, sizeof v); }
#define L(x) ({ mem.on = t_led; __typeof__(x) _r = (x); mem.on = 0; _r; })
#define LV(x) do { mem.on = t_led; x; mem.on = 0; } while (0)
typedef struct { u8 pk[PKB], sk[SKB], seed[256], sm[TOUT], m[4200], out[TOUT], k[64], n[32]; } tbuf;
static _Thread_local tbuf *tb;
static int t_fail(void *c, unsigned call, size_t req, size_t *give) { (void)c; (void)req; (void)give; return call ? EIO : (ent.key & 1 ? EIO : (*give = req / 2, 0)); }
/* flip one byte depending on the variant (variant 0: none) */
static void t_var(u8 *p, size_t n, unsigned var) { if (var && n) p[r64() % n] ^= (u8)(1u << rn(8)); }
static unsigned t_nkeys = 6; static _Thread_local int t_stage;
static size_t t_find_dil(const u8 *sm, size_t L, const u8 *m, unsigned n, const u8 *nonce, const h_key *k) { u8 dig[64], ds[DSIG]; ref_compact_digest(dig, nonce, m, n, k->sk + 4000); ref_dil_sign(ds, dig, 64, k->sk + 64, NULL, NULL); for (size_t q = 2; q + DSIG <= L; q++) if (!memcmp(sm + q, ds, DSIG)) return q; return 0; }
/* heavy tasks take part only if allowed */
static int task_heavy(int op) { return op == T_FSIGN; }
static size_t task_run(task t, u8 *out, int dirty) {
  if (!tb) { tb = malloc(sizeof *tb); memset(tb, 0, sizeof *tb); }
  h_rng sv = R; r_seed(h_seed * 31 + t.fam, 0x7a5c0000u + (unsigned)t.op); uint64_t ek = r64(); t_o = out; t_n = 0; long r = 0; ull l = 0;
  const h_key *k = h_getkey((unsigned)r64() % t_nkeys); unsigned n = 1 + rn(64), v = t.var; tbuf *b = tb; { unsigned e = rn(6); if (e < 2) n = e ? 64 : 1; } /* edge lengths are common */
  memset(b->out, dirty, 4200); if (t.op == T_FSIGN) memset(b->out, dirty, sizeof b->out);
  ent_reset(ek + (v == 3)); /* variant 3: same arguments, other random bytes */
  uint64_t vr = R.s; 
#define VARY(p, len) do { h_rng vq_ = R; r_seed(vr, 99 + v); t_var(p, len, v); R = vq_; } while (0)
  switch (t.op) {
    case T_KEYSEED: rbytes(b->seed, 160); VARY(b->seed, 160); memset(b->pk, dirty, PKB); memset(b->sk, dirty, SKB); r = L(hy_keypair_seed(b->pk, b->sk, b->seed)); t_int(r); t_put(b->pk, PKB); t_put(b->sk, SKB); break;
    case T_KEYRAND: r = L(hy_keypair(b->pk, b->sk)); t_int(r); t_put(b->pk, PKB); t_put(b->sk, SKB); break;
    case T_EXPAND: rbytes(b->seed, 96); VARY(b->seed, 96); r = L(hy_expand(b->seed, b->out)); t_int(r); t_put(b->out, 160); break;
    case T_CSIGN: case T_FSIGN: case T_FAILSIGN: memcpy(b->sk, k->sk, SKB); rbytes(b->m, n); if (v == 1) VARY(b->m, n); if (v == 2) { unsigned reg = rn(3); if (reg == 0) VARY(b->sk, 32); else if (reg == 1) VARY(b->sk + 64 + 32, 96); else VARY(b->sk + 3936, 128); }
      if (t.op == T_FAILSIGN) ent.plan = t_fail;
      l = 0; r = t.op == T_FSIGN ? L(hy_fsign(b->out, &l, b->m, n, b->sk)) : L(hy_csign(b->out, &l, b->m, n, b->sk)); t_int(r); if (!r) { t_int((long)l); t_put(b->out, l > FULLMAX ? FULLMAX : l); } break;
    case T_FAILKEY: ent.plan = t_fail; r = L(hy_keypair(b->pk, b->sk)); t_int(r); break;
    case T_COPEN: case T_CVERIFY: { u8 nonce[40]; rbytes(b->m, n); rbytes(nonce, 40); ref_compact_sign(b->sm, b->m, n, k->sk, nonce, NULL); memcpy(b->pk, k->pk, PKB); unsigned reg = rn(4); if (v == 1) VARY(b->sm, COMPACT(n)); if (v == 2 && t.op == T_CVERIFY && reg == 0) VARY(b->m, n); else if (v == 2) VARY(b->pk, PKB); if (v == 3) VARY(b->pk + 1344, 64);
      r = t.op == T_COPEN ? L(hy_copen(b->out, &l, b->sm, COMPACT(n), b->pk)) : L(hy_cverify(b->m, n, b->sm, COMPACT(n), b->pk)); t_int(r); if (!r && t.op == T_COPEN) { t_int((long)l); t_put(b->out, n); } } break;
    case T_FOPEN: case T_FVERIFY: { unsigned key = (unsigned)r64() % H_FIXED, q = rn(5) ? 1 + rn(64) : 64; const u8 *mm; memcpy(b->sm, h_fullsig(key, q, &mm), FULL(q)); memcpy(b->m, b->sm + 66, q); memcpy(b->pk, h_getkey(key)->pk, PKB); if (v == 1) { if (rn(2)) VARY(b->sm, 66 + q + DSIG); else VARY(b->sm + 66 + q + DSIG, SSIG); } if (v == 2) VARY(b->pk, PKB); if (v == 3) VARY(b->pk + 1344, 64);
      r = t.op == T_FOPEN ? L(hy_fopen(b->out, &l, b->sm, FULL(q), b->pk)) : L(hy_fverify(b->m, q, b->sm, FULL(q), b->pk)); t_int(r); if (!r && t.op == T_FOPEN) { t_int((long)l); t_put(b->out, q); } } break;
    case T_DILSIG: { n = rn(400); memcpy(b->sk, k->sk + 64, 2560); rbytes(b->m, n); if (v == 1) VARY(b->m, n); if (v >= 2) VARY(b->sk, 128); size_t s = 0; r = L(dil_sig(b->out, &s, b->m, n, b->sk)); t_int(r); t_int((long)s); t_put(b->out, DSIG); } break;
    case T_DILVERIFY: case T_DILOPEN: case T_VDIL: { if (t.op != T_VDIL) n = rn(400); rbytes(b->m, n); ref_dil_sign(b->sm, b->m, n, k->sk + 64, NULL, NULL); memcpy(b->sm + DSIG, b->m, n); memcpy(b->pk, k->pk + 32, 1312); if (v == 1) VARY(b->sm, DSIG); if (v == 2) VARY(b->pk, 1312); if (v == 3) VARY(b->pk, 32); size_t s = 0;
      r = t.op == T_VDIL ? L(crypto_verify_dilithium(b->m, n, b->sm, DSIG, b->pk)) : t.op == T_DILVERIFY ? L(dil_verify(b->sm, DSIG, b->m, n, b->pk)) : L(dil_open(b->out, &s, b->sm, DSIG + n, b->pk)); t_int(r); if (!r && t.op == T_DILOPEN) { t_int((long)s); t_put(b->out, n); } } break;
    case T_SPXVERIFY: { unsigned key = (unsigned)r64() % H_FIXED, q = rn(5) ? 1 + rn(64) : 64; const u8 *mm, *fs = h_fullsig(key, q, &mm); memcpy(b->sm, fs + 66 + q + DSIG, SSIG); memcpy(b->m, mm, q); memcpy(b->pk, h_getkey(key)->pk + 1344, 64); if (v == 1) VARY(b->sm, SSIG); if (v == 2) VARY(b->pk, 64); if (v == 3) VARY(b->m, q); r = L(spx_verify(b->sm, SSIG, b->m, q, b->pk)); t_int(r); } break;
    case T_EDSIGN: n = rn(300); memcpy(b->sk, k->sk, 64); rbytes(b->m, n); if (v == 1) VARY(b->m, n); if (v >= 2) VARY(b->sk, 32); r = L(crypto_sign_ed25519(b->out, &l, b->m, n, b->sk)); t_int(r); t_int((long)l); t_put(b->out, 64 + n); break;
    case T_EDOPEN: n = rn(300); rbytes(b->m, n); ref_ed_sign(b->sm, b->m, n, k->sk); memcpy(b->sm + 64, b->m, n); memcpy(b->pk, k->pk, 32); if (v == 1) VARY(b->sm, 64); if (v == 2) VARY(b->pk, 31); if (v == 3) VARY(b->sm + 64, n); r = L(crypto_sign_ed25519_open(b->out, &l, b->sm, 64 + n, b->pk)); t_int(r); if (!r) { t_int((long)l); t_put(b->out, n); } break;
    case T_EDKEY: r = L(crypto_sign_ed25519_keypair(b->pk, b->sk)); t_int(r); t_put(b->pk, 32); t_put(b->sk, 64); break;
    case T_DILKEY: r = L(dil_keypair(b->pk, b->sk)); t_int(r); t_put(b->pk, 1312); t_put(b->sk, 2560); break;
    case T_SPXKEY: r = L(spx_keypair(b->pk, b->sk)); t_int(r); t_put(b->pk, 64); t_put(b->sk, 128); break;
    case T_SHA3: n = rn(500); rbytes(b->m, n); VARY(b->m, n); LV(sha3_256(b->out, b->m, n)); t_put(b->out, 32); LV(sha3_384(b->out, b->m, n)); t_put(b->out, 48); LV(sha3_512(b->out, b->m, n)); t_put(b->out, 64); break;
    case T_SHAKE: n = rn(500); rbytes(b->m, n); VARY(b->m, n); l = 1 + rn(400); LV(shake128(b->out, l, b->m, n)); t_put(b->out, l); LV(shake256(b->out, l, b->m, n)); t_put(b->out, l); break;
    case T_SHAKEINC: { n = rn(600); rbytes(b->m, n); VARY(b->m, n); shake256incctx c, c2; LV(shake256_inc_init(&c)); size_t p = 0; while (p < n) { size_t q = 1 + rn(n); if (q > n - p) q = n - p; LV(shake256_inc_absorb(&c, b->m + p, q)); p += q; } LV(shake256_inc_ctx_clone(&c2, &c)); LV(shake256_inc_finalize(&c)); for (int i = 0; i < 3; i++) { size_t q = rn(200); LV(shake256_inc_squeeze(b->out, q, &c)); t_put(b->out, q); } LV(shake256_inc_finalize(&c2)); LV(shake256_inc_squeeze(b->out, 77, &c2)); t_put(b->out, 77); LV(shake256_inc_ctx_release(&c)); LV(shake256_inc_ctx_release(&c2));
      shake128ctx d; LV(shake128_absorb(&d, b->m, n)); LV(shake128_squeezeblocks(b->out, 2, &d)); t_put(b->out, 336); LV(shake128_ctx_release(&d)); } break;
    case T_SHA3INC: { n = rn(600); rbytes(b->m, n); VARY(b->m, n); sha3_512incctx c; LV(sha3_512_inc_init(&c)); size_t p = 0; while (p < n) { size_t q = 1 + rn(n); if (q > n - p) q = n - p; LV(sha3_512_inc_absorb(&c, b->m + p, q)); p += q; } LV(sha3_512_inc_finalize(b->out, &c)); t_put(b->out, 64); } break; /* finalize releases */
    case T_SHA512: n = rn(500); rbytes(b->m, n); VARY(b->m, n); r = L(crypto_hash(b->out, b->m, n)); t_put(b->out, 64); break;
    case T_BOX: case T_BOXOPEN: { n = rn(300); u8 s1[32], s2[32], p1[32], p2[32], nine[32] = {9}, sh[32]; rbytes(s1, 32); rbytes(s2, 32); ref_x25519(p1, s1, nine); ref_x25519(p2, s2, nine); rbytes(b->n, 24); memset(b->m, 0, 32); rbytes(b->m + 32, n); 
      if (t.op == T_BOX) { if (v == 1) VARY(b->m + 32, n); if (v == 2) VARY(s1, 31); if (v == 3) VARY(b->n, 24); r = L(crypto_box(b->out, b->m, n + 32, b->n, p2, s1)); t_int(r); t_put(b->out, n + 32); }
      else { ref_box_beforenm(sh, p2, s1); memset(b->sm, 0, 32); ref_secretbox(b->sm, b->m, n + 32, b->n, sh); if (v == 1) VARY(b->sm + 16, n + 16); if (v == 2) VARY(s2, 31); if (v == 3) VARY(b->n, 24); r = L(crypto_box_open(b->out, b->sm, n + 32, b->n, p1, s2)); t_int(r); if (!r) t_put(b->out, n + 32); } } break;
    case T_X25519: rbytes(b->k, 32); rbytes(b->n, 32); if (v == 1) VARY(b->k, 31); if (v >= 2) VARY(b->n, 31); r = L(crypto_scalarmult(b->out, b->k, b->n)); t_put(b->out, 32); r = L(crypto_scalarmult_base(b->out, b->k)); t_put(b->out, 32); break;
    case T_POLY: n = rn(300); rbytes(b->k, 32); rbytes(b->m, n); if (v == 1) VARY(b->k, 32); if (v >= 2) VARY(b->m, n); r = L(crypto_onetimeauth(b->out, b->m, n, b->k)); t_put(b->out, 16); break;
    case T_STREAM: n = rn(400); rbytes(b->k, 32); rbytes(b->n, 24); VARY(b->k, 32); r = L(crypto_stream(b->out, n, b->n, b->k)); t_put(b->out, n); break;
    case T_RAND: n = rn(300); r = L(randombytes(b->out, n)); t_int(r); t_put(b->out, n); break;
    case T_HOSTDIL: n = rn(300); rbytes(b->m, n); ref_dil_sign(b->sm, b->m, n, k->sk + 64, NULL, NULL); memcpy(b->sm + DSIG, b->m, n); memcpy(b->pk, k->pk + 32, 1312); r_seed(vr, 99 + v); t_stage = staged_dil(b->sm); { size_t s = 0; if (v & 1) r = L(dil_verify(b->sm, DSIG, b->m, n, b->pk)); else r = L(dil_open(b->out, &s, b->sm, DSIG + n, b->pk)); } t_int(r); break;
    case T_HOSTOPEN: { u8 nonce[40]; rbytes(b->m, n); rbytes(nonce, 40); ref_compact_sign(b->sm, b->m, n, k->sk, nonce, NULL); memcpy(b->pk, k->pk, PKB); r_seed(vr, 99 + v); size_t d = t_find_dil(b->sm, COMPACT(n), b->m, n, nonce, k); if (d) t_stage = staged_dil(b->sm + d); r = v & 1 ? L(hy_copen(b->out, &l, b->sm, COMPACT(n), b->pk)) : L(hy_cverify(b->m, n, b->sm, COMPACT(n), b->pk)); t_int(r); } break;
    case T_HOSTFULL: { unsigned key = (unsigned)r64() % H_FIXED, q = rn(5) ? 1 + rn(64) : 64; const u8 *mm; memcpy(b->sm, h_fullsig(key, q, &mm), FULL(q)); memcpy(b->m, b->sm + 66, q); memcpy(b->pk, h_getkey(key)->pk, PKB); r_seed(vr, 99 + v); t_stage = staged_dil(b->sm + 66 + q); if (t_stage == 3) { b->sm[66 + q + DSIG + rn(SSIG)] ^= (u8)(1 << rn(8)); t_stage = 5; } r = v & 1 ? L(hy_fopen(b->out, &l, b->sm, FULL(q), b->pk)) : L(hy_fverify(b->m, q, b->sm, FULL(q), b->pk)); t_int(r); } break;
    case T_WRAP: n = 32 + rn(100); rbytes(b->seed, n); VARY(b->seed, n); l = n + 1 + rn(300); r = L(seedexpander_wrapper(b->seed, n, b->out, l)); t_int(r); t_put(b->out, l); break;
  }
  ent.plan = NULL; R = sv; return t_n;
}
/* baseline results, each computed in its own freshly forked process that did nothing else */
#include <sys/wait.h>
#include <unistd.h>
typedef struct { size_t n; u8 *p; uint64_t h; } tres;
static int task_baseline(task t, tres *o) {
  int fd[2]; if (pipe(fd)) exit(9);
  fflush(stdout); pid_t pid = fork(); if (pid < 0) exit(9);
  if (!pid) { close(fd[0]); u8 *buf = malloc(TOUT * 2); size_t n = task_run(t, buf, 0x11); uint64_t h = h_hash(buf, n); if (write(fd[1], &n, sizeof n) < 0 || write(fd[1], &h, 8) < 0) {} _exit(0); }
  close(fd[1]); size_t n = 0; uint64_t h = 0; int ok = read(fd[0], &n, sizeof n) == sizeof n && read(fd[0], &h, 8) == 8; close(fd[0]); int st; waitpid(pid, &st, 0);
  o->n = n; o->h = h; o->p = NULL; return ok && WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : st ? st : -1;
}
#endif
