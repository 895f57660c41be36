/* C22 results never depend on history; C13 concurrent use; C14 nothing is kept */
#define _GNU_SOURCE
#include "tasks.h"
#include "h_io.h"
#include <dirent.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>

/* ---- zygote: computes baselines in processes in which the library has never run ---- */
static int zq[2], zr[2]; static pid_t zpid;
static void zygote_start(void) {
  for (unsigned i = 0; i < t_nkeys; i++) h_getkey(i);
  for (unsigned k = 0; k < 2; k++) for (unsigned q = 16; q <= 64; q += 16) h_fullsig(k, q, NULL);
  if (pipe(zq) || pipe(zr)) exit(9);
  fflush(stdout); zpid = fork(); if (zpid < 0) exit(9);
  if (!zpid) { close(zq[1]); close(zr[0]); task t; signal(SIGPROF, SIG_IGN); while (read(zq[0], &t, sizeof t) == sizeof t) { tres o; int e = task_baseline(t, &o); uint64_t w[3] = {(uint64_t)(int64_t)e, o.n, o.h}; if (write(zr[1], w, sizeof w) < 0) _exit(1); } _exit(0); }
  close(zq[0]); close(zr[1]);
}
static void zygote_stop(void) { close(zq[1]); int st; waitpid(zpid, &st, 0); }
#define MAXF 64
static struct { int have, ok; uint64_t h; size_t n; } base[T_N][MAXF][4];
static int baseline(task t, uint64_t *h) {
  if (!base[t.op][t.fam][t.var].have) { uint64_t w[3]; if (write(zq[1], &t, sizeof t) < 0 || read(zr[0], w, sizeof w) != sizeof w) { fprintf(stderr, "zygote failed\n"); exit(9); } base[t.op][t.fam][t.var].have = 1; base[t.op][t.fam][t.var].ok = w[0] == 0; base[t.op][t.fam][t.var].n = w[1]; base[t.op][t.fam][t.var].h = w[2]; wd_arm(); if (w[0]) stat_add("baseline_crashed", 1); }
  *h = base[t.op][t.fam][t.var].h; return base[t.op][t.fam][t.var].ok;
}


/* the same few calls over and over in one process: the thousandth result is the first one */
enum { E_CSIGN, E_COPEN, E_CVERIFY, E_CBAD, E_FVERIFY, E_FSIGN, E_KEY, E_EXPAND, E_DILSIG, E_DILVERIFY, E_VDIL, E_DILOPEN, E_SPXKEY, E_EDSIGN, E_EDOPEN, E_SHA3, E_SHAKEINC, E_SHA512, E_X25519, E_BOX, E_STREAM, E_RAND, E_WRAP, E_ARGS, E_N };
static const char *const e_name[] = {"compact-sign", "compact-open", "compact-verify", "compact-open-bad", "full-verify", "full-sign", "keypair", "expander", "dil-sig", "dil-verify", "verify_dilithium", "dil-open", "spx-keypair", "ed-sign", "ed-open", "sha3", "shake-inc", "sha512", "x25519", "secretbox", "stream", "randombytes", "seedexpander", "refused-arguments"};
static const long e_calls[] = {9000, 5000, 5000, 5000, 700, 24, 600, 70000, 12000, 20000, 20000, 20000, 300, 9000, 5000, 70000, 70000, 70000, 3000, 70000, 70000, 140000, 70000, 140000};
typedef struct { u8 m[64], sm[COMPACTMAX], bad[COMPACTMAX], seed[160], dsig[DSIG + 64], ed[128], k[32], n[24], pt[96], ct[96]; const u8 *pk, *sk, *full; unsigned ml, fl; uint64_t ek; } e_in;
static size_t e_run(int op, const e_in *e, u8 *o) {
  ull l = 0; size_t z = 0; long r = 0; size_t n = 0; u8 *p = o + 8; ent_reset(e->ek);
  switch (op) {
    case E_CSIGN: r = hy_csign(p, &l, e->m, e->ml, e->sk); n = COMPACT(e->ml); break;
    case E_COPEN: r = hy_copen(p, &l, e->sm, COMPACT(e->ml), e->pk); n = e->ml; break;
    case E_CVERIFY: r = hy_cverify(e->m, e->ml, e->sm, COMPACT(e->ml), e->pk); break;
    case E_CBAD: r = hy_copen(p, &l, e->bad, COMPACT(e->ml), e->pk); if (r) { r = 1; l = 0; } break;
    case E_FVERIFY: r = hy_fverify(e->full + 66, e->fl, e->full, FULL(e->fl), e->pk); break;
    case E_FSIGN: r = hy_fsign(p, &l, e->m, e->ml, e->sk); n = FULL(e->ml); break;
    case E_KEY: r = e->ek & 1 ? hy_keypair(p, p + PKB) : hy_keypair_seed(p, p + PKB, (u8 *)e->seed); n = PKB + SKB; break;
    case E_EXPAND: r = hy_expand((u8 *)e->seed, p); n = 160; break;
    case E_DILSIG: r = dil_sig(p, &z, e->m, e->ml, e->sk + 64); n = DSIG; break;
    case E_DILVERIFY: r = dil_verify(e->dsig, DSIG, e->m, e->ml, e->pk + 32); break;
    case E_VDIL: r = crypto_verify_dilithium(e->m, e->ml, e->dsig, DSIG, e->pk + 32); break;
    case E_DILOPEN: r = dil_open(p, &z, e->dsig, DSIG + e->ml, e->pk + 32); n = e->ml; break;
    case E_SPXKEY: r = spx_keypair(p, p + 64); n = 192; break;
    case E_EDSIGN: r = crypto_sign_ed25519(p, &l, e->m, e->ml, e->sk); n = 64 + e->ml; break;
    case E_EDOPEN: r = crypto_sign_ed25519_open(p, &l, e->ed, 64 + e->ml, e->pk); n = e->ml; break;
    case E_SHA3: sha3_512(p, e->sm, 600 + e->ml); sha3_256(p + 64, e->sm, e->ml); shake256(p + 96, 50, e->m, e->ml); n = 146; break;
    case E_SHAKEINC: { shake256incctx c, d; shake256_inc_init(&c); shake256_inc_absorb(&c, e->sm, 100 + e->ml); shake256_inc_ctx_clone(&d, &c); shake256_inc_finalize(&c); shake256_inc_squeeze(p, 60, &c); shake256_inc_ctx_release(&c); shake256_inc_finalize(&d); shake256_inc_squeeze(p + 60, 20, &d); shake256_inc_ctx_release(&d); n = 80; } break;
    case E_SHA512: r = crypto_hash(p, e->sm, 100 + e->ml); n = 64; break;
    case E_X25519: r = crypto_scalarmult(p, e->k, e->seed); n = 32; break;
    case E_BOX: r = crypto_secretbox(p, e->pt, 96, e->n, e->k); r = r * 2 + crypto_secretbox_open(p + 96, e->ct, 96, e->n, e->k); n = 192; break;
    case E_STREAM: r = crypto_stream(p, 70, e->n, e->k); r |= crypto_onetimeauth(p + 70, e->sm, 90, e->k); n = 86; break;
    case E_RAND: r = randombytes(p, e->ml); n = e->ml; break;
    case E_WRAP: r = seedexpander_wrapper((u8 *)e->seed, 32, p, 200); n = 200; break;
    case E_ARGS: r = hy_copen(p, &l, NULL, 2600, e->pk) != 0; r = r * 2 + (hy_csign(p, &l, e->m, 65, e->sk) != 0); r = r * 2 + (hy_fopen(p, &l, e->sm, 5000, e->pk) != 0); r = r * 2 + (hy_cverify(e->m, e->ml, e->sm, COMPACT(e->ml) - 1, e->pk) != 0); break;
  }
  memcpy(o, &r, 8); memcpy(o + 8 + n, &l, 8); memcpy(o + 16 + n, &z, 8); return n + 24;
}
static void endurance(void) {
  static u8 out[TOUT * 2]; static e_in in[3]; static const int order[E_N] = {E_CSIGN, E_COPEN, E_CVERIFY, E_CBAD, E_EDOPEN, E_EDSIGN, E_DILVERIFY, E_VDIL, E_DILOPEN, E_DILSIG, E_FVERIFY, E_FSIGN, E_KEY, E_BOX, E_STREAM, E_SHAKEINC, E_SPXKEY, E_SHA3, E_X25519, E_SHA512, E_EXPAND, E_WRAP, E_RAND, E_ARGS};
  CASES("endurance", i, E_N) {
    int op = order[i]; uint64_t want[3]; long N = h_thorough ? (op == E_FSIGN ? 300 : op == E_KEY || op == E_SPXKEY ? 3000 : op == E_FVERIFY ? 6000 : e_calls[op] < 70000 ? 70000 : 400000) : (long)((double)e_calls[op] * (h_scale < 1 ? h_scale : 1)); if (N < 6) N = 6;
    for (int v = 0; v < 3; v++) { e_in *e = &in[v]; const h_key *k = h_getkey((unsigned)v % 2); e->pk = k->pk; e->sk = k->sk; e->ml = 1 + rn(64); e->fl = 16 * (1 + rn(4)); e->full = h_fullsig((unsigned)v % 2, e->fl, NULL); rbytes(e->m, 64); u8 nn[40]; rbytes(nn, 40); memset(e->sm, 0x5c, sizeof e->sm); ref_compact_sign(e->sm, e->m, e->ml, e->sk, nn, NULL); memcpy(e->bad, e->sm, sizeof e->bad); e->bad[v == 0 ? 10 : v == 1 ? 100 : 2530 - 5] ^= 1; rbytes(e->seed, 160); ref_dil_sign(e->dsig, e->m, e->ml, e->sk + 64, NULL, NULL); memcpy(e->dsig + DSIG, e->m, e->ml); ref_ed_sign(e->ed, e->m, e->ml, e->sk); memcpy(e->ed + 64, e->m, e->ml); rbytes(e->k, 32); rbytes(e->n, 24); memset(e->pt, 0, 32); rbytes(e->pt + 32, 64); ref_secretbox(e->ct, e->pt, 96, e->n, e->k); e->ek = r64(); }
    for (int v = 0; v < 3; v++) { size_t n = e_run(op, &in[v], out); want[v] = h_hash(out, n); long r; memcpy(&r, out, 8); if (op < E_ARGS && op != E_CBAD && r) VIOL("baseline", "%s: call failed (%ld)", e_name[op], r); }
    for (long q = 3; q < N; q++) { int v = (int)rn(3); size_t n = e_run(op, &in[v], out); ev(1); if (h_hash(out, n) != want[v]) { long r; memcpy(&r, out, 8); VIOL("history-dependent", "%s: call %ld in one process gives another result (code %ld) than the first one with the same arguments", e_name[op], q + 1, r); break; } if (q % 64 == 0) wd_arm(); }
    stat_add("calls_in_a_row", N); set_add("endurance_ops", "%s", e_name[op]); nontriv(h_hash(e_name[op], strlen(e_name[op])));
  }
}

/* two arguments one bit apart, one after the other, and the first again: a memory of earlier arguments that compares only a part of them is found out */
static void neighbours(void) {
  enum { N_EDPK, N_EDSK, N_EDSEED, N_DILPK, N_DILSK, N_DILSEED, N_SPXPK, N_SPXSK, N_SPXSEED, N_X, N_XP, N_BOXK, N_BOXN, N_BOXM, N_EXP, N_CPK, N_CSIG, N_CSK, N_N };
  static const char *const nm[] = {"Ed25519 public key", "Ed25519 secret key", "Ed25519 seed", "Dilithium public key", "Dilithium secret key", "Dilithium seed", "SPHINCS+ public key", "SPHINCS+ secret key", "SPHINCS+ seed", "X25519 scalar", "X25519 point", "secretbox key", "secretbox nonce", "secretbox message", "expander seed", "compact public key", "compact signature", "compact secret key"};
  static const size_t len[] = {32, 64, 32, 1312, 2560, 32, 64, 128, 96, 32, 32, 32, 24, 96, 96, PKB, 0, SKB}; static const unsigned per[] = {64, 64, 32, 96, 96, 32, 64, 2, 16, 64, 64, 32, 24, 96, 96, 96, 96, 64};
  CASES("neighbours", i, h_count(2 * N_N, 40 * N_N)) {
    int k = (int)(i % N_N); const h_key *K = h_getkey((unsigned)(i / N_N) % t_nkeys); static u8 a[5000], b[5000], o1[SSIG + 200], o2[SSIG + 200], w1[SSIG + 200], w2[SSIG + 200]; size_t L = len[k], n = 0; u8 m[64], nonce[40], rnd[32]; unsigned ml = 1 + rn(64); rbytes(m, 64); rbytes(nonce, 40); rbytes(rnd, 32); size_t z; ull l; if (!L) L = COMPACT(ml);
    static u8 ds[DSIG], es[64 + 64], cs[COMPACTMAX], sp[SSIG]; int verdict = k == N_EDPK || k == N_DILPK || k == N_SPXPK || k == N_CPK || k == N_CSIG;
    switch (k) { case N_EDPK: memcpy(a, K->pk, 32); ref_ed_sign(es, m, ml, K->sk); memcpy(es + 64, m, ml); break; case N_EDSK: memcpy(a, K->sk, 64); break; case N_DILPK: memcpy(a, K->pk + 32, 1312); ref_dil_sign(ds, m, ml, K->sk + 64, NULL, NULL); break; case N_DILSK: memcpy(a, K->sk + 64, 2560); break; case N_SPXPK: memcpy(a, K->pk + 1344, 64); break; case N_SPXSK: memcpy(a, K->sk + 3936, 128); break; case N_CPK: case N_CSIG: ref_compact_sign(cs, m, ml, K->sk, nonce, NULL); memcpy(a, k == N_CPK ? K->pk : cs, L); break; case N_CSK: memcpy(a, K->sk, SKB); break; case N_BOXM: memset(a, 0, 32); rbytes(a + 32, 64); break; default: rpat(a, L); }
    if (k == N_SPXPK) { ref_spx_sign(sp, m, ml, K->sk + 3936, rnd); }
#define DOIT(x, o, W) do { memset(o, 0, 16); long r_ = 0; n = 0; ent_reset(77); switch (k) { \
      case N_EDPK: if (W) { r_ = !ref_ed_verify(es, m, ml, x); } else { u8 t_[192]; r_ = crypto_sign_ed25519_open(t_, &l, es, 64 + ml, x) != 0; } break; \
      case N_EDSK: n = 64; if (W) ref_ed_sign(o + 8, m, ml, x); else { u8 t_[128]; r_ = crypto_sign_ed25519(t_, &l, m, ml, x); memcpy(o + 8, t_, 64); } break; \
      case N_EDSEED: n = 96; if (W) ref_ed_keypair(o + 8, o + 40, x); else r_ = crypto_sign_ed25519_keypair_seed(o + 8, o + 40, x); break; \
      case N_DILPK: r_ = W ? !ref_dil_verify(ds, m, ml, x, 0) : dil_verify(ds, DSIG, m, ml, x) != 0; break; \
      case N_DILSK: n = DSIG; if (W) { ref_dil_opts q_ = {0}; q_.max_attempts = 400; r_ = ref_dil_sign(o + 8, m, ml, x, &q_, NULL); } else r_ = dil_sig(o + 8, &z, m, ml, x); break; \
      case N_DILSEED: n = 1312 + 2560; if (W) ref_dil_keypair(o + 8, o + 8 + 1312, x); else r_ = dil_keypair_seed(o + 8, o + 8 + 1312, x); break; \
      case N_SPXPK: r_ = W ? !ref_spx_verify(sp, m, ml, x) : spx_verify(sp, SSIG, m, ml, x) != 0; break; \
      case N_SPXSK: n = SSIG; if (W) { u8 e_[32]; ent_bytes(e_, 0, 32); ref_spx_sign(o + 8, m, ml, x, e_); } else r_ = spx_sig(o + 8, &z, m, ml, x); break; \
      case N_SPXSEED: n = 192; if (W) ref_spx_keypair(o + 8, o + 72, x); else r_ = spx_keypair_seed(o + 8, o + 72, x); break; \
      case N_X: n = 32; if (W) ref_x25519(o + 8, x, nonce); else r_ = crypto_scalarmult(o + 8, x, nonce); break; \
      case N_XP: n = 32; if (W) ref_x25519(o + 8, nonce, x); else r_ = crypto_scalarmult(o + 8, nonce, x); break; \
      case N_BOXK: case N_BOXN: case N_BOXM: { u8 mm_[96] = {0}; memcpy(mm_ + 32, m, 64); const u8 *pm_ = k == N_BOXM ? x : mm_, *pn_ = k == N_BOXN ? x : nonce, *pk_ = k == N_BOXK ? x : rnd; n = 96; if (W) ref_secretbox(o + 8, pm_, 96, pn_, pk_); else r_ = crypto_secretbox(o + 8, pm_, 96, pn_, pk_); } break; \
      case N_EXP: n = 160; if (W) ref_seed_expand(o + 8, x); else r_ = hy_expand(x, o + 8); break; \
      case N_CPK: if (W) r_ = !ref_compact_open(NULL, cs, COMPACT(ml), x); else { u8 t_[64]; r_ = hy_copen(t_, &l, cs, COMPACT(ml), x) != 0; } break; \
      case N_CSIG: if (W) r_ = !ref_compact_open(NULL, x, COMPACT(ml), K->pk); else { u8 t_[64]; r_ = hy_copen(t_, &l, x, COMPACT(ml), K->pk) != 0; } break; \
      case N_CSK: n = COMPACT(ml); if (W) { u8 e_[40]; ent_bytes(e_, 0, 40); ref_compact_sign(o + 8, m, ml, x, e_, NULL); } else r_ = hy_csign(o + 8, &l, m, ml, x); break; \
      } memcpy(o, &r_, sizeof r_); } while (0)
    if (k == N_EXP) { ref_seed_expand_d1(w1, a); hy_expand(a, o1); if (eqb(o1, w1, 160)) goto twin; } /* the finding about the odd bytes is C10's: compare with a second evaluation instead */
    if (0) { twin: for (unsigned q = 0; q < per[k]; q++) { memcpy(b, a, L); b[q % L] ^= (u8)(1u << rn(8)); ref_seed_expand_d1(w1, a); ref_seed_expand_d1(w2, b); ev(3); if (hy_expand(a, o1) || !eqb(o1, w1, 160) || hy_expand(b, o2) || !eqb(o2, w2, 160) || hy_expand(a, o1) || !eqb(o1, w1, 160)) VIOL("history-dependent", "expander seed differing in byte %u from the previous one", q); stat_add("neighbour_pairs", 1); set_add("neighbour_arguments", "%s", nm[k]); } nontriv(h_hash(a, 96)); continue; }
    DOIT(a, w1, 1); int bad = 0;
    for (unsigned q = 0; q < per[k] && !bad; q++) {
      size_t at = L <= per[k] ? q % L : q < 32 ? q : rn((uint32_t)L); if (k == N_BOXM) at = 32 + q % 64; if (k == N_SPXSK) at = i / N_N % 2 * 64 + q * 32 + rn(32); if (k == N_CSK) { static const size_t st[] = {0, 32, 64, 96, 128, 160, 4000, 4032}; at = st[q % 8] + rn(q % 8 < 6 ? 32 : 32); } u8 bit = (u8)(q % 3 == 0 || at + 1 == L ? 0x80 : 1u << rn(8)); if (k == N_DILSK && at >= 96) at = rn(96); memcpy(b, a, L); b[at] ^= bit;
      DOIT(b, w2, 1); if (k == N_DILSK && *(long *)w2) continue;
      DOIT(a, o1, 0); if (memcmp(o1, w1, 8 + n)) { VIOL("history-dependent", "%s: first call of the pair wrong (or a neighbour called just before)", nm[k]); bad = 1; break; }
      DOIT(b, o2, 0); if (memcmp(o2, w2, 8 + n)) { VIOL("history-dependent", "%s: wrong %s when it differs from the previous call's in byte %zu, bit mask %02x only", nm[k], verdict ? "verdict" : "result", at, bit); bad = 1; }
      if (!bad && q % 2 && !(k == N_SPXSK) && !(k == N_SPXSEED && q % 8 != 1)) { /* something else in between, then the neighbour first and the original after it */
        static u8 e[5000]; memcpy(e, a, L); if (verdict) for (size_t j = k == N_CSIG ? 66 : 0; j < L; j += 16) e[j] ^= 0x5a; else { for (size_t j = 0; j < 8; j++) e[j] ^= 0x5a; if (k == N_CSK) for (size_t j = 64; j < 72; j++) e[j] ^= 0x5a; }
        DOIT(e, o1, 0); DOIT(b, o2, 0); DOIT(a, o1, 0); ev(2); if (memcmp(o2, w2, 8 + n) || memcmp(o1, w1, 8 + n)) { VIOL("history-dependent", "%s: wrong %s right after a call in which it differed in byte %zu, bit mask %02x only", nm[k], verdict ? "verdict" : "result", at, bit); bad = 1; }
      }
      ev(2); stat_add("neighbour_pairs", 1); set_add("neighbour_arguments", "%s", nm[k]);
      if (q % 7 == 0) wd_arm();
    }
    if (!bad) { DOIT(a, o1, 0); ev(1); if (memcmp(o1, w1, 8 + n)) VIOL("history-dependent", "%s: the original gives another result after its neighbours", nm[k]); }
    nontriv(h_hash(a, L < 200 ? L : 200) + (uint64_t)k); wd_arm();
  }
}
void drv_C22(void) {
  zygote_start(); static u8 out[TOUT * 2];
  endurance();
  neighbours();
  CASES("history", i, h_count(64, 2400)) {
    int heavy = i % 16 == 5; task t = {0, 0, 0}, prev = {-1, 0, 0}; unsigned f0 = (unsigned)(i % 16) * 2; int focus = i % 2 ? (int)(i / 2 % T_N) : -1; char trail[400] = "";
    /* hash contexts that stay open across the history */
    shake256incctx lc[3]; ref_sponge lr[3]; for (int j = 0; j < 3; j++) { shake256_inc_init(&lc[j]); ref_sp_init(&lr[j], 136, 0x1f); }
    for (int s = 0; s < 100; s++) {
      if (s && rn(2)) { t.var = rn(4); if (rn(6) == 0) t.fam = f0 + rn(2); }
      else { do t.op = focus >= 0 && rn(2) ? focus : (int)rn(T_N); while (task_heavy(t.op) && (!heavy || rn(3))); t.fam = f0 + rn(2); t.var = rn(4); }
      if (task_heavy(t.op) && !heavy) continue;
      uint64_t h; if (!baseline(t, &h)) continue;
      if (rn(4) == 0) dirty_stack(rn(2) ? -1 : (int)rn(256));
      if (rn(8) == 0) { t_led = 1; } else t_led = 0; /* recycled heap memory with arbitrary contents */
      size_t n = task_run(t, out, (int)rn(256)); ev(1);
      size_t tl = strlen(trail); if (tl > 300) memmove(trail, trail + 120, tl - 119); snprintf(trail + strlen(trail), 60, " %s/%u.%u", task_name[t.op], t.fam, t.var);
      if (h_hash(out, n) != h) { VIOL("history-dependent", "%s (family %u variant %u) gives another result than in a fresh process; history ...%s", task_name[t.op], t.fam, t.var, trail); if (h_nviol > 3) break; }
      if (prev.op >= 0) { set_add("op_pairs", "%s>%s", task_name[prev.op], task_name[t.op]); if (prev.op == t.op && prev.fam == t.fam && prev.var != t.var) stat_add("one_byte_apart_back_to_back", 1); }
      prev = t; set_add("tasks", "%d.%u.%u", t.op, t.fam, t.var); nontriv(h_hash(trail, strlen(trail)));
      int j = (int)rn(3); u8 c[300]; unsigned cn = rn(300); rbytes(c, cn); shake256_inc_absorb(&lc[j], c, cn); ref_sp_absorb(&lr[j], c, cn);
    }
    for (int j = 0; j < 3; j++) { u8 a[200], b[200]; shake256_inc_finalize(&lc[j]); shake256_inc_squeeze(a, 200, &lc[j]); shake256_inc_ctx_release(&lc[j]); ref_sp_squeeze(&lr[j], b, 200); ev(1); if (!eqb(a, b, 200)) VIOL("history-dependent", "a hash context kept open across other calls lost its state; history ...%s", trail); }
    if (i < 8) sample("history tail:%s", trail);
  }
  zygote_stop();
}

/* ------------------------------------------------------------------ C13 */
#define MAXT 24
typedef struct { pthread_t th; int id, n, steps, heavy, mode, nt; uint64_t seed; const task *ts; const uint64_t *hs; long bad, done; char msg[200]; u8 pair[T_N][T_N]; } wk;
static int cur[MAXT]; static pthread_barrier_t bar;
static h_key *gk; static u8 gmsg[64], gsig[COMPACTMAX], gfull[FULLMAX], gs[160], gxp[160]; static unsigned gn, gfn; static u8 gsign[COMPACTMAX];
static void *worker(void *a) {
  wk *w = a; r_seed(w->seed, (uint64_t)w->id); u8 *out = malloc(TOUT * 2); h_rng mine; pthread_barrier_wait(&bar);
  for (int s = 0; s < w->steps; s++) {
    int q = (int)rn((uint32_t)w->nt); task t = w->ts[q]; __atomic_store_n(&cur[w->id], t.op + 1, __ATOMIC_RELAXED);
    for (int j = 0; j < w->n; j++) if (j != w->id) { int o = __atomic_load_n(&cur[j], __ATOMIC_RELAXED); if (o) w->pair[t.op][o - 1] = 1; }
    if (rn(4) == 0) sched_yield();
    mine = R; size_t n = task_run(t, out, (int)rn(256)); R = mine; r64(); w->done++;
    if (h_hash(out, n) != w->hs[q]) { if (!w->bad++) snprintf(w->msg, sizeof w->msg, "%s (family %u variant %u)", task_name[t.op], t.fam, t.var); }
    if (s % 4 == 3) { /* shared read-only arguments */
      ull l = 0; u8 m[64]; w->done++; if (hy_copen(m, &l, gsig, COMPACT(gn), gk->pk) || l != gn || memcmp(m, gmsg, gn)) { if (!w->bad++) snprintf(w->msg, sizeof w->msg, "compact open of a shared signature"); }
      if (hy_cverify(gmsg, gn, gsig, COMPACT(gn), gk->pk)) { if (!w->bad++) snprintf(w->msg, sizeof w->msg, "compact verify of a shared signature"); }
      ent_reset(4242); if (hy_csign(out, &l, gmsg, gn, gk->sk) || l != COMPACT(gn) || memcmp(out, gsign, COMPACT(gn))) { if (!w->bad++) snprintf(w->msg, sizeof w->msg, "compact sign with a shared key"); }
      if (hy_expand(gs, out) || memcmp(out, gxp, 160)) { if (!w->bad++) snprintf(w->msg, sizeof w->msg, "seed expansion of a shared seed"); }
      if (w->mode == 0 && s % 16 == 3 && hy_fverify(gfull + 66, gfn, gfull, FULL(gfn), gk->pk)) { if (!w->bad++) snprintf(w->msg, sizeof w->msg, "full verify of a shared signature"); }
    }
    __atomic_store_n(&cur[w->id], 0, __ATOMIC_RELAXED);
  }
  if (tb) { free(tb); tb = NULL; } free(out); return NULL;
}
static void run_round(long i, int tsan, int nw, int steps, const task *ts, const uint64_t *hs, int nt) {
    static wk w[MAXT]; memset(w, 0, sizeof w); pthread_barrier_init(&bar, NULL, (unsigned)nw);
    for (int j = 0; j < nw; j++) { w[j].id = j; w[j].n = nw; w[j].steps = steps; w[j].seed = r64(); w[j].ts = ts; w[j].hs = hs; w[j].nt = nt; w[j].mode = tsan; if (pthread_create(&w[j].th, NULL, worker, &w[j])) exit(9); }
    for (int j = 0; j < nw; j++) { pthread_join(w[j].th, NULL); wd_arm(); }
    pthread_barrier_destroy(&bar);
    for (int j = 0; j < nw; j++) { ev(w[j].done); stat_add("calls_in_threads", w[j].done); for (int a = 0; a < T_N; a++) for (int b = 0; b < T_N; b++) if (w[j].pair[a][b]) { set_add("concurrent_op_pairs", "%s|%s", task_name[a], task_name[b]); nontriv((uint64_t)a * 1000 + (uint64_t)b + (uint64_t)i * 1000000); }
      if (w[j].bad) VIOL("thread-result", "%ld of %ld calls in thread %d of %d returned something else than alone, first: %s", w[j].bad, w[j].done, j, nw, w[j].msg); }
    set_add("thread_counts", "%d", nw); if (i < 4) sample("%d threads x %d tasks over %d distinct, e.g. %s", nw, w[0].steps, nt, task_name[ts[0].op]);
}
void drv_C13(void) {
#ifdef H_TSAN
  int tsan = 1;
#else
  int tsan = 0;
#endif
  zygote_start(); gk = (h_key *)h_getkey(0); gn = 37; gfn = 48; { r_seed(h_seed, 777); u8 nonce[40]; rbytes(gmsg, 64); rbytes(nonce, 40); ref_compact_sign(gsig, gmsg, gn, gk->sk, nonce, NULL); memcpy(gfull, h_fullsig(0, gfn, NULL), FULL(gfn)); rbytes(gs, 96); }
  CASES("round", i, h_count(48, 1200)) {
    static task ts[64]; static uint64_t hs[64]; int nt = 0, want = 6 + (int)rn(20); int focus = (int)(i % T_N);
    while (nt < want) { task t = {rn(3) == 0 ? focus : (int)rn(T_N), (unsigned)(i % 8) * 2 + rn(2), rn(4)}; if (task_heavy(t.op) && (tsan || i % 6)) { focus = T_CSIGN; continue; } if (tsan && (t.op == T_FOPEN || t.op == T_HOSTFULL || t.op == T_FVERIFY || t.op == T_SPXVERIFY) && rn(4)) { focus = T_CVERIFY; continue; } if (baseline(t, &hs[nt])) ts[nt++] = t; }
    ull l; ent_reset(4242); if (hy_csign(gsign, &l, gmsg, gn, gk->sk) || hy_expand(gs, gxp)) { VIOL("baseline", "single-threaded call failed"); continue; }
    run_round(i, tsan, 3 + (int)rn(tsan ? 6 : 14), tsan ? 10 : 40, ts, hs, nt);
  }
  /* the slowest calls, at the same time as each other */
  CASES("slow", i, h_count(8, 96)) {
    static task ts[64]; static uint64_t hs[64]; int nt = 0; static const int ops[] = {T_FSIGN, T_FSIGN, T_FVERIFY, T_FOPEN, T_KEYSEED, T_SPXVERIFY}; for (int j = 0; j < 6; j++) { task t = {ops[j], (unsigned)(i % 16), (unsigned)(j & 1)}; if (baseline(t, &hs[nt])) ts[nt++] = t; } if (!nt) continue;
    ull l; ent_reset(4242); if (hy_csign(gsign, &l, gmsg, gn, gk->sk) || hy_expand(gs, gxp)) { VIOL("baseline", "single-threaded call failed"); continue; }
    run_round(i, tsan, 3, tsan ? 2 : 6, ts, hs, nt); stat_add("slow_rounds", 1);
  }
  zygote_stop();
}

/* ------------------------------------------------------------------ C14 */
static int count_fds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static long led_n; static const char *led_w;
static void led_end(const char *what) { ev(1); if (mem.live) VIOL("memory-kept", "%s keeps %ld allocation(s), %ld bytes (of %ld made)", what, mem.live, mem.live_bytes, mem.mallocs); led_n += mem.mallocs; led_w = what; }
static long c_fail_after; static int c_errno;
static int c_plan(void *c, unsigned call, size_t req, size_t *give) { (void)c; (void)req; (void)give; if ((long)call >= c_fail_after) return c_errno; if (req > 7) *give = req / 2; return 0; }
void drv_C14(void) {
  static u8 out[TOUT * 2]; int fd0;
  for (unsigned i = 0; i < t_nkeys; i++) h_getkey(i);
#ifdef H_IO
  io_reset();
#endif
  CASES("tasks", i, h_count(1400, 30000)) {
    task t = {(int)(i % T_N), rn(1000), rn(4)}; if (task_heavy(t.op) && i % (T_N * 8) != T_FSIGN) continue; fd0 = count_fds();
    t_led = 1; mem_begin(); mem.on = 0; task_run(t, out, 0x33); t_led = 0; led_end(task_name[t.op]);
    ev(1); int fd1 = count_fds(); if (fd1 != fd0) VIOL("descriptor-kept", "%s: %d open descriptors before, %d after", task_name[t.op], fd0, fd1);
    long code = 0; memcpy(&code, out, sizeof code); set_add("ops_and_outcomes", "%s:%s", task_name[t.op], t.op <= T_FVERIFY || t.op >= T_FAILSIGN ? (code ? "failed" : "ok") : "-"); stat_add("allocations_seen", mem.mallocs); nontriv((uint64_t)t.op * 100000 + t.fam * 4 + t.var); if (i < 8) sample("%s: %ld allocations, peak %ld live, %ld live after", task_name[t.op], mem.mallocs, mem.peak, mem.live);
  }
  /* every stage of verification turning a signature away */
  CASES("rejections", i, h_count(240, 6000)) {
    static const int ops[] = {T_HOSTDIL, T_HOSTOPEN, T_HOSTDIL, T_HOSTOPEN, T_HOSTFULL, T_HOSTDIL, T_HOSTOPEN, T_HOSTDIL}; task t = {ops[i % 8], rn(100000), rn(4)}; fd0 = count_fds();
    t_led = 1; mem_begin(); mem.on = 0; task_run(t, out, 0x33); t_led = 0; led_end(task_name[t.op]); ev(1); int fd1 = count_fds(); if (fd1 != fd0) VIOL("descriptor-kept", "%s: %d open descriptors before, %d after", task_name[t.op], fd0, fd1);
    long code = 0; memcpy(&code, out, sizeof code); set_add("rejection_stages", "%s.%d:%s", task_name[t.op], t_stage, code ? "failed" : "ok"); stat_add("allocations_seen", mem.mallocs); nontriv((uint64_t)i + 11000000);
  }
  /* hash contexts: what init/absorb/clone took is given back by release/finalize, for each type */
  CASES("contexts", i, h_count(200, 3000)) {
    u8 b[600], o[700]; size_t n = rn(600); rbytes(b, n); mem_begin();
    switch (i % 7) {
      case 0: { shake128incctx a, c; shake128_inc_init(&a); shake128_inc_absorb(&a, b, n); shake128_inc_ctx_clone(&c, &a); shake128_inc_finalize(&a); shake128_inc_squeeze(o, 100, &a); shake128_inc_ctx_release(&a); shake128_inc_finalize(&c); shake128_inc_squeeze(o, 10, &c); shake128_inc_ctx_release(&c); } break;
      case 1: { shake256incctx a, c; shake256_inc_init(&a); shake256_inc_absorb(&a, b, n); shake256_inc_ctx_clone(&c, &a); shake256_inc_ctx_release(&a); shake256_inc_finalize(&c); shake256_inc_squeeze(o, 10, &c); shake256_inc_ctx_release(&c); } break;
      case 2: { shake128ctx a, c; shake128_absorb(&a, b, n); shake128_squeezeblocks(o, 1, &a); shake128_ctx_clone(&c, &a); shake128_ctx_release(&a); shake128_ctx_release(&c); } break;
      case 3: { shake256ctx a, c; shake256_absorb(&a, b, n); shake256_ctx_clone(&c, &a); shake256_squeezeblocks(o, 2, &c); shake256_ctx_release(&a); shake256_ctx_release(&c); } break;
      case 4: { sha3_256incctx a, c; sha3_256_inc_init(&a); sha3_256_inc_absorb(&a, b, n); sha3_256_inc_ctx_clone(&c, &a); sha3_256_inc_finalize(o, &a); sha3_256_inc_ctx_release(&c); } break;
      case 5: { sha3_384incctx a, c; sha3_384_inc_init(&a); sha3_384_inc_absorb(&a, b, n); sha3_384_inc_ctx_clone(&c, &a); sha3_384_inc_finalize(o, &a); sha3_384_inc_ctx_release(&c); } break;
      case 6: { sha3_512incctx a, c; sha3_512_inc_init(&a); sha3_512_inc_absorb(&a, b, n); sha3_512_inc_ctx_clone(&c, &a); sha3_512_inc_finalize(o, &a); sha3_512_inc_ctx_release(&c); } break;
    }
    mem_end(); led_end("hash context sequence"); set_add("context_types", "%ld", i % 7); nontriv((uint64_t)i + 7000000); stat_add("allocations_seen", mem.mallocs);
  }
  /* entropy failing at the k-th request of each operation that draws */
  CASES("entropy-failures", i, h_count(120, 2000)) {
    static const int ops[] = {T_KEYRAND, T_CSIGN, T_FSIGN, T_EDKEY, T_DILKEY, T_SPXKEY, T_RAND}; int op = ops[i % 7]; c_fail_after = (long)rn(3); c_errno = rn(2) ? EIO : EPERM; u8 *pk = malloc(PKB), *sk = malloc(SKB), *sm = malloc(FULLMAX); memcpy(sk, h_getkey(0)->sk, SKB); ull l = 0; size_t sl; fd0 = count_fds(); ent.plan = c_plan; int r = 0;
    u8 m[4] = {1, 2, 3, 4}; mem_begin(); switch (op) { case T_KEYRAND: r = hy_keypair(pk, sk); break; case T_CSIGN: r = hy_csign(sm, &l, m, 4, sk); break; case T_FSIGN: r = i & 1 ? hy_fsign(sm, &l, m, 4, sk) : spx_sign(sm, &sl, m, 4, sk + 3936); break; case T_EDKEY: r = crypto_sign_ed25519_keypair(pk, sk); break; case T_DILKEY: r = dil_keypair(pk, sk); break; case T_SPXKEY: r = spx_keypair(pk, sk); break; case T_RAND: r = randombytes(sm, 1000); break; } mem_end(); led_end("operation with failing entropy"); ent.plan = NULL;
    ev(1); int fd1 = count_fds(); if (fd1 != fd0) VIOL("descriptor-kept", "%s with failing entropy: %d open descriptors before, %d after", task_name[op], fd0, fd1); set_add("failing_ops", "%s:%s", task_name[op], r ? "failed" : "ok"); free(pk); free(sk); free(sm); nontriv((uint64_t)i + 8000000);
  }
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_IO)
  /* allocator-level growth: also sees allocation functions the ledger does not intercept */
  CASES("growth", i, h_count(48, 600)) {
    static const int rej[] = {T_COPEN, T_CVERIFY, T_DILVERIFY, T_EDOPEN, T_CSIGN, T_KEYSEED, T_EXPAND, T_SHAKEINC, T_SHA3, T_FAILSIGN, T_FAILKEY, T_BOXOPEN, T_HOSTDIL, T_HOSTOPEN}; task t = {rej[i % 14], 5 + (unsigned)i, rn(4)}; for (int j = 0; j < 3; j++) task_run(t, out, 1);
    size_t a = mallinfo2().uordblks + mallinfo2().hblkhd; int K = t.op == T_KEYSEED ? 6 : 24; for (int j = 0; j < K; j++) task_run(t, out, j); size_t b = mallinfo2().uordblks + mallinfo2().hblkhd; ev(1);
    if (b > a + (size_t)(K - 2) * 16) VIOL("heap-grows", "%d repetitions of %s grow the heap in use from %zu to %zu bytes", K, task_name[t.op], a, b); stat_add("growth_runs", 1); nontriv((uint64_t)i + 9000000);
  }
#endif
#ifdef H_IO
  /* every I/O call of the back end failing in turn: descriptors and streams must be closed on every path */
  CASES("io-faults", i, h_count(400, 6000)) {
    extern int seq_io_plan(void *, unsigned, int); extern long seq_iof[4]; io_reset(); int lowent = (int)(i & 1), proc = (int)(i >> 1 & 1); seq_iof[0] = (i / 4) % 14; { static const int es[] = {EIO, EMFILE, EACCES, EINTR, EAGAIN, ENOMEM}; seq_iof[1] = es[rn(6)]; } seq_iof[2] = rn(2); seq_iof[3] = proc; io.entropy = lowent ? 10 : 256; io.entropy_step = 60; io.plan = seq_io_plan;
    u8 b[64]; fd0 = count_fds(); mem_begin(); int r = randombytes(b, 1 + rn(64)); mem_end(); io.plan = NULL; ev(2); if (io.open) VIOL("descriptor-kept", "randombytes (%s) left %d descriptor(s)/stream(s) open after fault at I/O call %ld (errno %ld, low entropy %d, proc %d)", r ? "failed" : "ok", io.open, seq_iof[0], seq_iof[1], lowent, proc);
    if (mem.live) VIOL("memory-kept", "randombytes keeps %ld allocations after an I/O fault", mem.live); io_reset(); int fd1 = count_fds(); if (fd1 != fd0) VIOL("descriptor-kept", "descriptors %d before, %d after", fd0, fd1); set_add("io_fault_points", "%ld:%d:%d:%s", seq_iof[0], lowent, proc, r ? "failed" : "ok"); nontriv((uint64_t)i + 10000000);
  }
#endif
}
#ifdef H_IO
long seq_iof[4];
int seq_io_plan(void *c, unsigned call, int what) { (void)c; if (what == IO_IOCTL && seq_iof[3]) { if (io.count[IO_IOCTL] == 1) return ENOTTY; } if ((long)call == seq_iof[0] || (seq_iof[2] && (long)call > seq_iof[0] && seq_iof[1] != EINTR && seq_iof[1] != EAGAIN)) { return (int)seq_iof[1]; } return 0; }
#endif
