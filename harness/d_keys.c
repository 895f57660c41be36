/* C09 seeded key generation is a function of the seed; C10 seed expansion; C12 fresh full-length entropy */
#define _GNU_SOURCE
#include "gen.h"
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>

static void seed_gen(u8 *s, long i) {
  if (i == 0) memset(s, 0, 160); else if (i == 1) memset(s, 0xff, 160); else if (i == 2) for (int j = 0; j < 160; j++) s[j] = (u8)j; else if (i % 3) rbytes(s, 160); else rpat(s, 160);
}
/* which parts of the key pair differ: bit 0 Ed25519, 1 Dilithium, 2 SPHINCS+ */
static int parts(const u8 *pk, const u8 *sk, const u8 *pk2, const u8 *sk2) {
  int d = 0;
  if (!eqb(pk, pk2, 32) || !eqb(sk, sk2, 64)) d |= 1;
  if (!eqb(pk + 32, pk2 + 32, 1312) || !eqb(sk + 64, sk2 + 64, 2560 + 1312)) d |= 2;
  if (!eqb(pk + 1344, pk2 + 1344, 64) || !eqb(sk + 3936, sk2 + 3936, 128)) d |= 4;
  return d;
}
void drv_C09(void) {
  /* same seed, different circumstances, every build */
  CASES("repeat", i, h_count(160, 6000)) {
    u8 seed[160]; seed_gen(seed, i); u8 pk0[PKB], sk0[SKB];
    for (int rep = 0; rep < 6; rep++) {
      u8 *s = gb_dup(G_SEED, seed, 160), *pk = gb(G_PK, PKB), *sk = gb(G_SK, SKB); if (rep == 3 || rep == 4) { int c = (int)(i * 2 + rep - 3) & 255; memset(pk, c, PKB); memset(sk, c, SKB); set_add("prefill", "%d", c); } if (rep == 5) { memcpy(pk, pk0, PKB); memcpy(sk, sk0, SKB); if (i & 1) memcpy(sk, seed, 160); } dirty_stack(rep == 0 ? 0 : rep == 1 ? 0xff : -1);
      if (rep == 2) { u8 o[160]; rbytes(o, 160); hy_keypair_seed(pk, sk, o); ent_reset(r64()); if (rn(2)) hy_keypair(pk, sk); memcpy(s, seed, 160); }
      mem_begin(); int r = hy_keypair_seed(pk, sk, s); mem_end(); ev(1);
      if (r) { VIOL("keygen-failed", "seeded key generation returned %d for seed %s", r, hex(seed, 160)); continue; }
      if (rep == 0) { memcpy(pk0, pk, PKB); memcpy(sk0, sk, SKB); XCHK("pk", pk, PKB); XCHK("sk", sk, SKB); }
      else if (parts(pk, sk, pk0, sk0)) VIOL("keygen-not-a-function", "repetition %d of the same seed gives another key pair (parts %d), seed %s", rep, parts(pk, sk, pk0, sk0), hex(seed, 160));
      if (!eqb(s, seed, 160)) VIOL("seed-modified", "key generation changed the seed");
      ev(1); if (!eqb(pk, sk + 32, 32) || !eqb(pk + 32, sk + 2624, 1312) || !eqb(pk + 1344, sk + 4000, 64)) VIOL("sk-embeds-other-pk", "the secret key does not embed the returned public key, seed %s", hex(seed, 160));
    }
    nontriv(h_hash(seed, 160)); if (i < 4) sample("seed %s -> pk %s", hex(seed, 160), hex(pk0, PKB));
  }
  /* every seed byte matters, and only in its own part */
  CASES("byte", i, h_count(480, 16000)) {
    unsigned j = (unsigned)i % 160; h_rng sv = R; r_seed(h_seed, 0xb1735 + (unsigned)(i / 160)); u8 seed[160], seed2[160]; seed_gen(seed, i / 160 + 2); R = sv; memcpy(seed2, seed, 160); seed2[j] ^= (u8)(i < 160 ? 1u << rn(8) : 1 + rn(255));
    u8 pk[PKB], sk[SKB], pk2[PKB], sk2[SKB]; if (hy_keypair_seed(pk, sk, seed) || hy_keypair_seed(pk2, sk2, seed2)) { VIOL("keygen-failed", "seeded key generation failed"); continue; }
    int d = parts(pk, sk, pk2, sk2), own = j < 32 ? 1 : j < 64 ? 2 : 4; ev(1); set_add("seed_bytes", "%u", j); nontriv(h_hash(seed2, 160));
    if (!(d & own)) VIOL("seed-byte-ignored", "seed byte %u does not influence its key part", j);
    if (d & ~own) VIOL("seed-byte-leaks", "seed byte %u changes key parts %d, its own is %d", j, d, own);
    /* the public part too, except SK.prf (96..127), which only the secret key holds */
    if (!(j >= 96 && j < 128)) { ev(1); int pd = j < 32 ? !eqb(pk, pk2, 32) : j < 64 ? !eqb(pk + 32, pk2 + 32, 1312) : !eqb(pk + 1344, pk2 + 1344, 64); if (!pd) VIOL("seed-byte-ignored", "seed byte %u does not influence the public key", j); }
  }
  /* random key generation = seeded generation on the drawn bytes */
  CASES("random", i, h_count(96, 3000)) {
    u8 draw[160], pk[PKB], sk[SKB], pk2[PKB], sk2[SKB]; seed_gen(draw, i); ent_script(r64(), draw, 160); memset(pk, 0x3c, PKB); memset(sk, 0xc3, SKB); int r = hy_keypair(pk, sk); size_t used = ent.pos; ev(2); nontriv(h_hash(draw, 160) + 5);
    if (r || used != 160) { VIOL("random-keygen", "key generation returned %d after drawing %zu bytes", r, used); continue; }
    if (hy_keypair_seed(pk2, sk2, draw) || parts(pk, sk, pk2, sk2)) VIOL("random-keygen", "key pair is not the seeded one of the drawn bytes %s", hex(draw, 160));
    XCHK("rpk", pk, PKB);
  }
}

void drv_C10(void) {
  CASES("expand", i, h_count(4000, 200000)) {
    u8 seed[96], want[160], d1[160]; if (i < 96) { memset(seed, 0, 96); seed[i] = 1; } else if (i < 192) { memset(seed, 0xff, 96); seed[i - 96] = 0xfe; } else rpat(seed, 96);
    u8 *s = gb_dup(G_SEED, seed, 96), *o = gb(G_OUT, 160); if (i & 1) gb_ro(G_SEED); dirty_stack((int)rn(256)); int r = hy_expand(s, o); gb_rw(G_SEED); ev(1);
    ref_seed_expand(want, seed); ref_seed_expand_d1(d1, seed); nontriv(h_hash(seed, 96));
    if (r) { VIOL("expand-failed", "expander returned %d", r); continue; }
    if (eqb(o, want, 160)) { if (!eqb(want, d1, 160)) stat_add("as_documented", 1); else stat_add("odd_bytes_zero", 1); }
    else if (eqb(o, d1, 160)) { KNOWNV("odd-seed-bytes-ignored", "expansion of %s ignores the odd input bytes", hex(seed, 96)); }
    else VIOL("expand-wrong", "expansion of %s is %s instead of %s", hex(seed, 96), hex(o, 160), hex(want, 160));
    h_defined(o, 160); if (i < 192) XCHK("x", o, 160); if (!eqb(s, seed, 96)) VIOL("seed-modified", "the expander changed its input"); gb_check("expander");
  }
  /* sensitivity, stated without the model: each of the even bytes 0..62 reaches Ed25519 and SPHINCS+ parts, bytes 64..95 exactly their output byte */
  CASES("sensitivity", i, h_count(1920, 40000)) {
    u8 a[96], b[96], x[160], y[160]; rpat(a, 96); unsigned j = (unsigned)i % 96; memcpy(b, a, 96); b[j] ^= (u8)(1 + rn(255)); if (hy_expand(a, x) || hy_expand(b, y)) { VIOL("expand-failed", "expander failed"); continue; } ev(1); nontriv(h_hash(b, 96)); set_add("input_bytes", "%u", j);
    int ed = !eqb(x, y, 32), di = !eqb(x + 32, y + 32, 32), sp = !eqb(x + 64, y + 64, 96);
    if (j < 64) { if (!ed && !sp && (j & 1)) { KNOWNV("odd-seed-bytes-ignored", "byte %u does not influence the result", j); continue; } if (!ed || !sp || di) VIOL("expand-sensitivity", "byte %u: Ed25519 %d Dilithium %d SPHINCS+ %d", j, ed, di, sp); }
    else { int exact = 1; for (int k = 0; k < 160; k++) if ((x[k] != y[k]) != (k == (int)j - 32)) exact = 0; if (!exact) VIOL("expand-sensitivity", "Dilithium seed byte %u is not passed through alone", j); }
  }
  /* general expander: every seed length, every output length */
  CASES("general", i, h_count(6000, 120000)) {
    size_t sl, ol; if (i < 1200) { sl = 32 + (size_t)i % 400; ol = sl + 1 + rn(300); } else if (i < 2400) { sl = 32; ol = 33 + (size_t)(i - 1200); } else if (i < 2700) { static const size_t e[] = {135, 136, 137, 271, 272, 273, 407, 408, 409, 143, 144, 134, 128, 264, 127}; sl = e[i % 15]; ol = sl + 1 + rn(600); } else { sl = 32 + rn(600); ol = sl + 1 + rn(rn(8) ? 900 : 70000); }
    u8 *s = gb(G_SEED, sl); rpat(s, sl); u8 *cp = malloc(sl), *w = malloc(ol), *o = gb(G_OUT, ol); memcpy(cp, s, sl); if (i & 1) gb_ro(G_SEED); int r = seedexpander_wrapper(s, sl, o, ol); gb_rw(G_SEED); ref_seedexpander(w, ol, cp, sl); ev(1); nontriv(h_hash(cp, sl) ^ ol);
    if (r) VIOL("expander-refused", "seed length %zu, output length %zu: returned %d", sl, ol, r);
    else if (!eqb(o, w, ol)) { size_t k = 0; while (o[k] == w[k]) k++; VIOL("expander-wrong", "seed length %zu, output length %zu: differs from SHAKE-256(seed,02) at byte %zu", sl, ol, k); }
    if (!eqb(s, cp, sl)) VIOL("seed-modified", "the general expander changed its input");
    h_defined(o, ol); gb_check("seedexpander"); set_add("seed_length_mod_rate", "%zu", sl % 136); set_add("output_length_mod_8", "%zu", ol % 8); set_add("output_length_mod_rate", "%zu", ol % 136); free(cp); free(w);
  }
  /* long seeds and outputs in one call */
  CASES("general-large", i, h_scale < 0.9 ? 2 : h_thorough ? 24 : 8) {
    size_t sl = i % 4 == 0 ? 65536 + rn(400) : i % 4 == 1 ? 32 + rn(100) : i % 4 == 2 ? (1u << 20) + rn(99) : (1u << 24) + 3 + rn(500), ol = i % 4 == 1 ? (1u << 24) + 1 + rn(4000) : sl + 1 + rn(70000); if (h_scale < 0.9) { sl = 65536 + rn(400); ol = sl + 1 + rn(900); } u8 *s = malloc(sl), *o = malloc(ol), *w = malloc(ol); for (size_t j = 0; j < sl; j += 4096) rbytes(s + j, sl - j < 4096 ? sl - j : 4096); memset(o, 0xcd, ol);
    int r = seedexpander_wrapper(s, sl, o, ol); ref_seedexpander(w, ol, s, sl); ev(1); if (r || !eqb(o, w, ol)) VIOL("expander-wrong", "seed length %zu, output length %zu: returned %d, output wrong", sl, ol, r); stat_add("large_expansions", 1); nontriv(h_hash(s, 64) ^ ol); free(s); free(o); free(w); wd_arm();
  }
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_VG)
  CASES("general-huge", i, h_scale < 0.9 ? 0 : 1) { /* output beyond 2^32 bytes, into a window mapped again and again */
    size_t win = 16u << 20, n = (1ull << 32) + 40 + rn(5000), sl = 32 + rn(200); u8 s[232], w[520], *o = win_map(n, win), dm = 2; rbytes(s, sl); if (!o) { stat_add("huge_skipped", 1); continue; } wd_long(400); int r = seedexpander_wrapper(s, sl, o, n); wd_long(400);
    ref_sponge p; ref_sp_init(&p, 136, 0x1f); ref_sp_absorb(&p, s, sl); ref_sp_absorb(&p, &dm, 1); u8 *v = malloc(win); size_t left = n - 512; while (left) { size_t q = left < win ? left : win; ref_sp_squeeze(&p, v, q); left -= q; } ref_sp_squeeze(&p, w, 512); free(v);
    ev(1); if (r || !eqb(o + n - 512, w, 512)) VIOL("expander-wrong", "output length %zu (beyond 2^32): returned %d, its end is wrong", n, r); stat_add("huge_expansions", 1); nontriv(n); win_unmap(o, n, win); wd_arm();
  }
#endif
  /* refused: short seeds, outputs not longer than the seed */
  CASES("refuse", i, h_count(600, 6000)) {
    size_t sl = i % 2 ? rn(32) : 32 + rn(200), ol = i % 2 ? 1 + rn(400) : rn((uint32_t)sl + 1); u8 *s = gb(G_SEED, sl), *o = gb(G_OUT, ol); rbytes(s, sl); int r = seedexpander_wrapper(s, sl, o, ol); ev(2); nontriv((uint64_t)sl << 20 ^ ol);
    if (!r) VIOL("expander-accepts", "seed length %zu, output length %zu accepted", sl, ol); if (!gb_untouched(G_OUT)) VIOL("expander-writes", "refused call wrote output");
  }
  /* the streaming form: init, several squeezes in multiples of 8 bytes (as documented), release; contexts interleaved */
  CASES("stream", i, h_count(800, 20000)) {
    seedexpander_state st[2]; u8 sd[2][300], *w[2], *o[2]; size_t sl[2], pos[2] = {0, 0}; for (int k = 0; k < 2; k++) { sl[k] = rn(300); rpat(sd[k], sl[k]); w[k] = malloc(8192); o[k] = malloc(8192); ref_seedexpander(w[k], 8192, sd[k], sl[k]); seedexpander_init(&st[k], sd[k], sl[k]); }
    for (int s = 0; s < 24; s++) { int k = (int)rn(2); size_t n = 8 * rn(40); if (pos[k] + n > 8192) continue; seedexpander(&st[k], o[k] + pos[k], n); pos[k] += n; }
    for (int k = 0; k < 2; k++) { size_t n = rn(8); if (pos[k] + n <= 8192) { seedexpander(&st[k], o[k] + pos[k], n); pos[k] += n; } seedexpander_release(&st[k]); ev(1); if (!eqb(o[k], w[k], pos[k])) VIOL("expander-wrong", "streaming use differs from SHAKE-256(seed,02)"); nontriv(h_hash(o[k], pos[k] < 64 ? pos[k] : 64)); free(w[k]); free(o[k]); }
  }
}

/* ---- C12 ---- */
static int frag_plan(void *c, unsigned call, size_t req, size_t *give) { uint64_t x = (uint64_t)(uintptr_t)c + call * 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32; if (x % 5 == 0) return EINTR; *give = req > 1 ? 1 + x / 8 % req : req; return 0; }
enum { O_KEY, O_CSIGN, O_FSIGN, O_SPXSIGN, O_ED, O_DIL, O_SPX, O_BOX, O_CN };
static const char *const oname[] = {"hybrid-keypair", "compact-sign", "full-sign", "sphincs-sign", "ed25519-keypair", "dilithium-keypair", "sphincs-keypair", "box-keypair"};
static const size_t oneed[] = {160, 40, 32, 32, 32, 32, 96, 32};
/* run operation; value = everything derived from the draw */
typedef struct { u8 pk[PKB], sk[SKB], sm[FULLMAX]; ull l; int r; } ores;
static void odo(int op, ores *o, const u8 *m, unsigned n, const u8 *sk) {
  size_t l = 0; o->l = 0; memset(o->pk, 0x77, PKB);
  switch (op) {
    case O_KEY: o->r = hy_keypair(o->pk, o->sk); break;
    case O_CSIGN: o->r = hy_csign(o->sm, &o->l, m, n, sk); break;
    case O_FSIGN: o->r = hy_fsign(o->sm, &o->l, m, n, sk); break;
    case O_SPXSIGN: o->r = spx_sig(o->sm, &l, m, n, sk + 3936); break;
    case O_ED: o->r = crypto_sign_ed25519_keypair(o->pk, o->sk); break;
    case O_DIL: o->r = dil_keypair(o->pk, o->sk); break;
    case O_SPX: o->r = spx_keypair(o->pk, o->sk); break;
    case O_BOX: o->r = crypto_box_keypair(o->pk, o->sk); break;
  }
}
/* does the result come from exactly these drawn bytes? */
static int oright(int op, const ores *o, const u8 *d, const u8 *m, unsigned n, const u8 *sk) {
  u8 pk[PKB], s[SKB];
  switch (op) {
    case O_KEY: memcpy(s, d, 160); { u8 s2[SKB]; return !hy_keypair_seed(pk, s2, s) && eqb(pk, o->pk, PKB) && eqb(s2, o->sk, SKB); }
    case O_CSIGN: return eqb(o->sm + 66 + DSIG, d, 40);
    case O_FSIGN: case O_SPXSIGN: { u8 in[32 + 32 + 64], Rr[32]; memcpy(in, sk + 3936 + 32, 32); memcpy(in + 32, d, 32); memcpy(in + 64, m, n); ref_shake256(Rr, 32, in, 64 + n); return eqb(op == O_FSIGN ? o->sm + 66 + n + DSIG : o->sm, Rr, 32); }
    case O_ED: memcpy(s, d, 32); { u8 s2[64]; return !crypto_sign_keypair_seed(pk, s2, s) && eqb(pk, o->pk, 32) && eqb(s2, o->sk, 64); }
    case O_DIL: return !dil_keypair_seed(pk, s, d) && eqb(pk, o->pk, 1312) && eqb(s, o->sk, 2560);
    case O_SPX: return !spx_keypair_seed(pk, s, d) && eqb(pk, o->pk, 64) && eqb(s, o->sk, 128);
    case O_BOX: return eqb(d, o->sk, 32) && !crypto_scalarmult_base(pk, d) && eqb(pk, o->pk, 32);
  }
  return 0;
}
typedef struct { int id; uint64_t seed; int bad[O_CN], n[O_CN]; } thr;
static void *thread_body(void *a) {
  thr *t = a; r_seed(t->seed, (uint64_t)t->id); ent_reset(r64()); ores *o = malloc(sizeof *o); static const int ops[] = {O_CSIGN, O_ED, O_BOX, O_DIL, O_CSIGN, O_SPXSIGN, O_KEY, O_CSIGN};
  u8 m[64]; memset(m, 9, 64);
  for (int i = 0; i < 12; i++) { int op = ops[rn(8)]; if ((op == O_SPXSIGN || op == O_KEY) && rn(3)) op = O_CSIGN; size_t p0 = ent.pos; odo(op, o, m, 16, h_getkey(0)->sk); u8 d[160]; ent_bytes(d, p0, oneed[op]); t->n[op]++; if (o->r || ent.pos - p0 != oneed[op] || !oright(op, o, d, m, 16, h_getkey(0)->sk)) t->bad[op]++; }
  free(o); return NULL;
}
void drv_C12(void) {
  static ores o, o2;
  /* a continuing stream over many calls: call k must use exactly the bytes drawn during call k */
  CASES("sequence", i, h_count(48, 1500)) {
    ent_reset(r64()); int frag = (int)(i % 2); uint64_t fk = r64(); u8 m[64]; unsigned n = 1 + rn(64); rpat(m, n); const h_key *k = h_getkey((unsigned)i % 6); char tr[200] = ""; if (frag) { ent.plan = frag_plan; ent.ctx = (void *)(uintptr_t)fk; }
    for (int s = 0; s < 24; s++) {
      int op = i % 3 == 0 ? O_CSIGN : i % 3 == 1 && rn(2) ? O_CSIGN : (int)rn(O_CN); if ((op == O_FSIGN || op == O_SPXSIGN) && rn(6)) op = O_CSIGN; if ((op == O_KEY || op == O_SPX) && rn(2)) op = O_ED;
      size_t p0 = ent.pos; odo(op, &o, m, n, k->sk); size_t used = ent.pos - p0; u8 d[160]; ent_bytes(d, p0, oneed[op]); ev(2); snprintf(tr + (s % 6) * 16, 24, " %s", oname[op]);
      if (o.r) { VIOL("operation-failed", "%s returned %d (fragmented %d)", oname[op], o.r, frag); break; }
      if (used != oneed[op]) VIOL("draw-length", "%s drew %zu bytes from the operating system, %zu are needed (step %d)", oname[op], used, oneed[op], s);
      else if (!oright(op, &o, d, m, n, k->sk)) VIOL("not-from-this-draw", "%s step %d (fragmented %d): the result is not derived from the %zu bytes delivered during the call", oname[op], s, frag, oneed[op]);
      nontriv(h_hash(d, oneed[op])); set_add("operations", "%s%s", oname[op], frag ? "/fragmented" : ""); stat_add("draws_checked", 1); if (frag) stat_add("interrupted_or_short", (long)(ent.eintr + ent.shorts)), ent.eintr = ent.shorts = 0;
    }
  }
  /* every drawn byte matters */
  CASES("bytes", i, h_count(160 + 40 + 32 + 32 + 32 + 96 + 32 + 64, 9760)) {
    static const int ops[] = {O_KEY, O_CSIGN, O_ED, O_DIL, O_BOX, O_SPX, O_SPXSIGN, O_FSIGN}; long x = i % 488; int op = -1; unsigned j = 0; for (int a = 0; a < 8; a++) { if (x < (long)oneed[ops[a]]) { op = ops[a]; j = (unsigned)x; break; } x -= (long)oneed[ops[a]]; } if (op < 0) { op = O_CSIGN; j = rn(40); }
    u8 d[160], d2[160], m[64]; unsigned n = 1 + rn(64); rpat(m, n); rpat(d, 160); memcpy(d2, d, 160); d2[j] ^= (u8)(1u << rn(8)); const h_key *k = h_getkey((unsigned)i % 4);
    ent_script(5, d, 160); odo(op, &o, m, n, k->sk); ent_script(5, d2, 160); odo(op, &o2, m, n, k->sk); ev(1); set_add("drawn_bytes", "%s.%u", oname[op], j); nontriv(h_hash(d2, 160) ^ (uint64_t)op); if (o.r || o2.r) { VIOL("operation-failed", "%s failed", oname[op]); continue; }
    int same; switch (op) { case O_KEY: same = eqb(o.pk, o2.pk, PKB) && eqb(o.sk, o2.sk, SKB); break; case O_CSIGN: same = eqb(o.sm + 66 + DSIG, o2.sm + 66 + DSIG, 40) || eqb(o.sm + 2, o2.sm + 2, 64) || eqb(o.sm + 66, o2.sm + 66, DSIG); break; case O_FSIGN: same = eqb(o.sm + 66 + n + DSIG, o2.sm + 66 + n + DSIG, 32); break; case O_SPXSIGN: same = eqb(o.sm, o2.sm, 32); break; case O_DIL: same = eqb(o.pk, o2.pk, 1312); break; case O_SPX: same = eqb(o.pk, o2.pk, 64) && eqb(o.sk, o2.sk, 128); break; case O_ED: same = eqb(o.pk, o2.pk, 32); break; default: same = eqb(o.sk, o2.sk, 32); }
    if (same) VIOL("draw-byte-ignored", "%s: byte %u of the draw does not influence the result", oname[op], j);
  }
  /* after a fork the child must not replay the parent's bytes: no pool may survive in the process */
  CASES("fork", i, h_count(24, 400)) {
    static const int ops[] = {O_CSIGN, O_ED, O_DIL, O_CSIGN, O_BOX, O_SPXSIGN}; int op = ops[i % 6]; u8 m[8] = {1, 2, 3}; ent_reset(r64()); for (int q = 0; q < (int)(i % 4); q++) odo(O_CSIGN, &o, m, 8, h_getkey(0)->sk);
    uint64_t ck = r64(); fflush(stdout); pid_t p = fork(); if (!p) { ent_reset(ck); odo(op, &o, m, 8, h_getkey(0)->sk); u8 d[160]; ent_bytes(d, 0, oneed[op]); _exit(o.r || ent.pos != oneed[op] || !oright(op, &o, d, m, 8, h_getkey(0)->sk) ? 3 : 0); }
    int st; waitpid(p, &st, 0); ev(1); nontriv(ck); if (!WIFEXITED(st) || WEXITSTATUS(st)) VIOL("not-from-this-draw", "%s in a forked child does not use the bytes the child drew (status %d)", oname[op], st); stat_add("forks", 1);
  }
  /* threads: each result from the drawing thread's own bytes */
  CASES("threads", i, h_count(16, 300)) {
    thr t[8]; pthread_t id[8]; uint64_t sd = r64(); memset(t, 0, sizeof t); for (int q = 0; q < 8; q++) { t[q].id = q; t[q].seed = sd; if (pthread_create(&id[q], NULL, thread_body, &t[q])) exit(9); }
    for (int q = 0; q < 8; q++) { pthread_join(id[q], NULL); for (int a = 0; a < O_CN; a++) { ev(t[q].n[a]); stat_add("draws_in_threads", t[q].n[a]); if (t[q].bad[a]) VIOL("not-from-this-draw", "%d of %d %s calls in a thread do not use exactly the bytes this thread drew", t[q].bad[a], t[q].n[a], oname[a]); } nontriv(sd + (uint64_t)q); }
  }
  /* long series in one process; cheap test on every call (where the drawn bytes appear as such), full test on every 97th */
  CASES("series", i, O_CN) {
    static const long calls[] = {500, 9000, 20, 24, 5000, 5000, 300, 5000}; static const int order[] = {O_CSIGN, O_FSIGN, O_SPXSIGN, O_KEY, O_ED, O_BOX, O_DIL, O_SPX}; int op = order[i]; long N = (long)((double)calls[op] * (h_thorough ? 8 : h_scale < 1 ? h_scale : 1)); if (N < 4) N = 4; u8 m[64]; unsigned n = 1 + rn(64); rpat(m, n); const h_key *k = h_getkey((unsigned)i % 4); ent_reset(r64());
    for (long q = 0; q < N; q++) {
      size_t p0 = ent.pos; odo(op, &o, m, n, k->sk); size_t used = ent.pos - p0; u8 d[160]; ent_bytes(d, p0, oneed[op]); ev(1); if (o.r) { VIOL("operation-failed", "%s, call %ld: returned %d", oname[op], q + 1, o.r); break; } if (used != oneed[op]) { VIOL("draw-length", "%s, call %ld: drew %zu bytes", oname[op], q + 1, used); break; }
      int ok = 1; switch (op) { case O_CSIGN: ok = eqb(o.sm + 66 + DSIG, d, 40); break; case O_ED: ok = eqb(o.sk, d, 32); break; case O_BOX: ok = eqb(o.sk, d, 32); break; case O_SPX: ok = eqb(o.sk, d, 96); break; } if (ok && (q % 97 == 0 || N < 100)) ok = oright(op, &o, d, m, n, k->sk);
      if (!ok) { VIOL("not-from-this-draw", "%s, call %ld in a row: the result is not derived from the bytes delivered during the call", oname[op], q + 1); break; } if (q % 32 == 0) wd_arm();
    }
    stat_add("calls_in_a_row", N); nontriv(ent.key); set_add("series_ops", "%s", oname[op]);
  }
  /* identical arguments, many times: nothing repeats */
  CASES("repeat", i, h_count(4, 64)) {
    ent_reset(r64()); u8 m[32]; memset(m, 0x42, 32); enum { K = 300 }; static u8 seen[K][40]; static u8 ds[K][32]; const h_key *k = h_getkey(1);
    for (int q = 0; q < K; q++) { odo(O_CSIGN, &o, m, 32, k->sk); if (o.r) break; memcpy(seen[q], o.sm + 66 + DSIG, 40); memcpy(ds[q], o.sm + 2, 32); for (int a = 0; a < q; a++) if (eqb(seen[a], seen[q], 40) || eqb(ds[a], ds[q], 32)) { VIOL("nonce-repeats", "compact signatures %d and %d of the same arguments repeat the nonce or R", a, q); goto out; } ev(q); nontriv(h_hash(seen[q], 40)); }
    out:;
  }
}
