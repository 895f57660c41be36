/* The operations of the library as functions of a flat genome, each with an oracle; explored by comparison-guided
 * steering (steer.c).  Each property runs the operations it speaks about and reports only its own kind of violation. */
#define _GNU_SOURCE
#include "steer.h"
#include "gen.h"
static const char *P; /* the property being checked */
static int is(const char *props) { return strstr(props, P) != NULL; }
#define V(props, ...) do { ev(1); if (is(props)) VIOL(__VA_ARGS__); } while (0)
#define LIBV(e) do { st_rec = !st_mute; mem_begin(); e; mem_end(); st_rec = 0; st_led(#e); } while (0)
void st_led(const char *what) { if (mem.live) V("C14", "leak", "%.60s... keeps %ld blocks (%ld bytes)", what, mem.live, mem.live_bytes); }
/* what the caller can observe, for the comparison of two executions that differ in previous buffer contents */
static uint64_t obs_h; static void obs(const void *p, size_t n) { obs_h = obs_h * 0x100000001b3ULL ^ h_hash(p, n) ^ n; } static void obsi(long v) { obs(&v, sizeof v); }
static int pre_alt; /* second execution: other previous contents */
static u8 *O(int slot, size_t n) { u8 *p = gb(slot, n); for (size_t i = 0; i < n; i++) p[i] = (u8)(G[i % 16] ^ (pre_alt ? 0x5a + i / 16 : 0)); return p; }
static int O_same(int slot) { u8 *p = gb_ptr(slot); size_t n = gb_size(slot); for (size_t i = 0; i < n; i++) if (p[i] != (u8)(G[i % 16] ^ (pre_alt ? 0x5a + i / 16 : 0))) return 0; return 1; }
static const u8 *in_src[G_SLOTS]; static size_t in_n[G_SLOTS]; static u8 *IN(int slot, const void *src, size_t n) { in_src[slot] = src; in_n[slot] = n; return gb_dup(slot, src, n); }
static uint64_t obs_first;
static void done(const char *what) { if (!obs_first) obs_first = obs_h; for (int s = 0; s < G_SLOTS; s++) if (in_src[s]) { if (!eqb(gb_ptr(s), in_src[s], in_n[s])) V("C07", "input-changed", "%s changed one of its inputs (slot %d)", what, s); in_src[s] = NULL; } if (is("C06 C07 C21")) gb_check(what); }
#define GB (G + 16)
static int rej(const char *props, int r, const char *key, const char *what) { obsi(r); if (!r) V(props, key, "%s", what); else ev(1); return r; }

/* ---- keys made from the genome (by the model), the last few kept ---- */
typedef struct { u8 seed[160], pk[PKB], sk[SKB]; int ok; } gk;
static const gk *gkey(const u8 *seed) { static gk c[8]; static unsigned nx; for (int i = 0; i < 8; i++) if (c[i].ok && eqb(c[i].seed, seed, 160)) return &c[i]; gk *k = &c[nx++ % 8]; memcpy(k->seed, seed, 160); ref_hybrid_keypair(k->pk, k->sk, seed); k->ok = 1; return k; }
static const gk *gdil(const u8 *seed) { static gk c[8]; static unsigned nx; for (int i = 0; i < 8; i++) if (c[i].ok && eqb(c[i].seed, seed, 32)) return &c[i]; gk *k = &c[nx++ % 8]; memcpy(k->seed, seed, 32); ref_dil_keypair(k->pk, k->sk, seed); k->ok = 1; return k; }

static void parts(const u8 *pk, const u8 *sk, const u8 *seed) { if (!eqb(sk + 32, pk, 32) || !eqb(sk + 2624, pk + 32, 1312) || !eqb(sk + 4000, pk + 1344, 64)) V("C09", "sk-embeds-pk", "the secret key does not contain the public key, seed %s", hex(seed, 160)); }
static void op_keyseed(long idx, unsigned len) {
  u8 *s = IN(G_SEED, GB, 160), *pk = O(G_PK, PKB), *sk = O(G_SK, SKB); const gk *k = gkey(GB); int r = LIB(hy_keypair_seed(pk, sk, s)); obsi(r); obs(pk, PKB); obs(sk, SKB);
  if (r) V("C01 C08 C09", "keygen-failed", "seeded key generation returned %d for seed %s", r, hex(GB, 160)); else { parts(pk, sk, GB); int same = eqb(pk, k->pk, PKB) && eqb(sk, k->sk, SKB); ev(1);
    if (!same) { V("C08", "key-bytes", "key pair of seed %s is not the specified one", hex(GB, 160));
      if (is("C09") && !pre_alt) { static u8 a[PKB], b[SKB], p0[PKB], s0[SKB]; u8 t[160]; memcpy(p0, pk, PKB); memcpy(s0, sk, SKB); /* unusual seed: does every byte still matter, and only for its own part? */
        for (int i = 0; i < 160 && h_nviol < 8; i++) { memcpy(t, GB, 160); t[i] ^= 0x10; if (hy_keypair_seed(a, b, t)) continue; int e = eqb(a, p0, 32) && eqb(b, s0, 64), d = eqb(a + 32, p0 + 32, 1312) && eqb(b + 64, s0 + 64, 3872), x = eqb(a + 1344, p0 + 1344, 64) && eqb(b + 3936, s0 + 3936, 128); int own = i < 32 ? e : i < 64 ? d : x, oth = (i < 32 || e) && (i >= 32 && i < 64 ? 1 : d) && (i >= 64 || x); if (own) V("C09", "seed-byte-ignored", "byte %d of seed %s does not matter", i, hex(GB, 160)); if (!oth) V("C09", "seed-part-mixed", "byte %d of seed %s changes another component's key", i, hex(GB, 160)); } } } }
  done("keypair_seed");
}
static void op_keyrand(long idx, unsigned len) {
  u8 *pk = O(G_PK, PKB), *sk = O(G_SK, SKB); ent_script(r64(), GB, 160); const gk *k = gkey(GB); int r = LIB(hy_keypair(pk, sk)); obsi(r); obs(pk, PKB); obs(sk, SKB);
  if (r) V("C01 C09", "keygen-failed", "random key generation returned %d", r); else { parts(pk, sk, GB); ev(1); if (!eqb(pk, k->pk, PKB) || !eqb(sk, k->sk, SKB)) V("C09 C12", "random-key", "random key generation on drawn bytes %s is not the key pair of those 160 bytes (%zu bytes drawn)", hex(GB, 160), ent.pos); if (is("C01")) { u8 m[4] = {1, 2, 3, 4}, o[64]; static u8 sm[COMPACTMAX]; ull sl = 0, ml = 0; if (hy_csign(sm, &sl, m, 4, sk) || hy_copen(o, &ml, sm, sl, pk) || ml != 4 || !eqb(o, m, 4)) V("C01", "round-trip", "random key from %s does not sign and open", hex(GB, 160)); } }
  done("keypair");
}
static void op_expand(long idx, unsigned len) {
  u8 *s = IN(G_SEED, GB, 96), *o = O(G_OUT, 160), w[160], w1[160]; int r = LIB(hy_expand(s, o)); obsi(r); obs(o, 160); ref_seed_expand(w, GB); ref_seed_expand_d1(w1, GB); ev(1);
  if (r || (!eqb(o, w, 160) && !eqb(o, w1, 160))) V("C10", "expand", "seed %s: returned %d, output %s", hex(GB, 96), r, hex(o, 160)); done("seed expander");
}
static void op_wrap(long idx, unsigned len) {
  u8 *s = IN(G_SEED, GB, len); size_t on = len + 1 + (size_t)((idx * 37) % 300); u8 *o = O(G_OUT, on), w[800]; int r = LIB(seedexpander_wrapper(s, len, o, on)); obsi(r); obs(o, on); ref_seedexpander(w, on, GB, len); ev(1); if (r || !eqb(o, w, on)) V("C10", "seedexpander", "seed of %u bytes, output of %zu: returned %d, output differs", len, on, r); done("seedexpander");
}
/* a genuine signature made by the library with these inputs: everything promised about it */
static void op_csign(long idx, unsigned n) {
  const gk *k = gkey(GB); const u8 *nonce = GB + 160, *m0 = GB + 200; static u8 w[COMPACTMAX], keep[COMPACTMAX]; u8 o2[64]; u8 *sk = IN(G_SK, k->sk, SKB), *m = IN(G_MSG, m0, n), *sm = O(G_SM, COMPACT(n)); ull sl = 0x4711, ml = 0x815; ent_script(h_seed + 5, nonce, 40);
  int r = LIB(hy_csign(sm, &sl, m, n, sk)); obsi(r); obs(sm, COMPACT(n)); obsi((long)sl); if (r || sl != COMPACT(n)) { V("C01 C08", "sign-failed", "compact sign returned %d, length %llu for %u bytes", r, sl, n); done("compact sign"); return; }
  u8 drawn[200]; size_t dn = ent.pos < 200 ? ent.pos : 200; ent_bytes(drawn, 0, dn); ev(1); if (dn < 40 || !memmem(drawn, dn, sm + 2486, 40)) V("C12", "nonce", "the nonce %s of a compact signature is not among the %zu bytes drawn (%s)", hex(sm + 2486, 40), ent.pos, hex(drawn, dn));
  ref_compact_sign(w, m0, n, k->sk, nonce, NULL); ev(1); if (!eqb(sm, w, COMPACT(n))) V("C08", "compact-bytes", "compact signature of %s with nonce %s is not the specified one", hex(m0, n), hex(nonce, 40));
  memcpy(keep, sm, COMPACT(n)); done("compact sign"); if (pre_alt) return;
  if (is("C01 C08 C02 C06 C07 C12 C14 C22")) { const u8 *g = is("C01") ? keep : w; u8 *sg = IN(G_SM, g, COMPACT(n)), *pk = IN(G_PK, k->pk, PKB), *o = O(G_OUT, 64); r = LIB(hy_copen(o, &ml, sg, COMPACT(n), pk)); ev(2); if (r || ml != n || !eqb(o, m0, n)) V("C01 C08", "open", "compact signature of %s: open returned %d, length %llu", hex(m0, n), r, ml); if (!r) for (size_t i = n; i < 64; i++) if (o[i] != G[i % 16]) { V("C07", "open-writes", "compact open writes beyond the message"); break; }
    u8 *mm = IN(G_MSG, m0, n); r = LIB(hy_cverify(mm, n, sg, COMPACT(n), pk)); if (r) V("C01 C08 C02", "verify", "compact signature of %s: verify returned %d", hex(m0, n), r); done("compact verification");
    if (is("C02")) for (int q = 0; q < 3; q++) { static u8 t[COMPACTMAX]; u8 tm[64], tp[PKB]; memcpy(t, w, COMPACT(n)); memcpy(tm, m0, n); memcpy(tp, k->pk, PKB); const char *what; if (q == 0) { t[rn(COMPACT(n))] ^= (u8)(1 << rn(8)); what = "changed compact signature accepted"; } else if (q == 1) { tm[rn(n)] ^= (u8)(1 << rn(8)); what = "compact signature accepted for another message"; } else { tp[rn(PKB)] ^= (u8)(1 << rn(8)); what = "compact signature accepted under a changed public key"; } if (q != 1) rej("C02", LIB(hy_copen(o2, &ml, t, COMPACT(n), tp)), "accepted", what); rej("C02", LIB(hy_cverify(tm, n, t, COMPACT(n), tp)), "accepted", what); } }
  if (is("C20")) { static u8 t[FULLMAX + 64]; memset(t, 0, sizeof t); memcpy(t, w, COMPACT(n)); const h_key *hk = h_getkey(0); rej("C20", LIB(hy_fopen(o2, &ml, t, COMPACT(n), k->pk)), "cross-mode", "compact signature accepted by the full-mode open"); rej("C20", LIB(hy_fverify(m0, n, t, COMPACT(n), k->pk)), "cross-mode", "compact signature accepted by the full-mode verify"); (void)hk;
    rej("C20", LIB(hy_fopen(o2, &ml, t, FULL(n), k->pk)), "cross-mode", "extended compact signature accepted by the full-mode open"); t[0] = 2; rej("C20", LIB(hy_fopen(o2, &ml, t, FULL(n), k->pk)), "cross-mode", "relabelled compact signature accepted by the full-mode open"); rej("C20", LIB(hy_fverify(m0, n, t, FULL(n), k->pk)), "cross-mode", "relabelled compact signature accepted by the full-mode verify");
    memcpy(t + 2, w + 2, 64); memcpy(t + 66, m0, n); memcpy(t + 66 + n, w + 66, DSIG); t[1] = (u8)n; rej("C20", LIB(hy_fopen(o2, &ml, t, FULL(n), k->pk)), "cross-mode", "rearranged compact signature accepted by the full-mode open"); }
}
static void op_fsign(long idx, unsigned n) {
  const gk *k = gkey(GB); const u8 *opt = GB + 160, *m0 = GB + 192; static u8 w[FULLMAX]; u8 *sk = IN(G_SK, k->sk, SKB), *m = IN(G_MSG, m0, n), *sm = O(G_SM, FULL(n)); ull sl = 0x4711, ml = 0x815; ent_script(h_seed + 5, opt, 32);
  int r = LIB(hy_fsign(sm, &sl, m, n, sk)); obsi(r); obs(sm, FULL(n)); obsi((long)sl); if (r || sl != FULL(n)) { V("C01 C08", "sign-failed", "full sign returned %d, length %llu for %u bytes", r, sl, n); done("full sign"); return; }
  if (is("C08 C12")) { ref_full_sign(w, m0, n, k->sk, opt, NULL); ev(1); if (!eqb(sm, w, FULL(n))) V("C08 C12", "full-bytes", "full signature of %s with randomiser %s is not the specified one", hex(m0, n), hex(opt, 32)); } else memcpy(w, sm, FULL(n));
  done("full sign"); if (pre_alt) return; u8 *sg = IN(G_SM, w, FULL(n)), *pk = IN(G_PK, k->pk, PKB), *o = O(G_OUT, 64); r = LIB(hy_fopen(o, &ml, sg, FULL(n), pk)); ev(2); if (r || ml != n || !eqb(o, m0, n)) V("C01 C08", "open", "full signature of %s: open returned %d, length %llu", hex(m0, n), r, ml);
  u8 *mm = IN(G_MSG, m0, n); r = LIB(hy_fverify(mm, n, sg, FULL(n), pk)); if (r) V("C01 C08 C02", "verify", "full signature of %s: verify returned %d", hex(m0, n), r); done("full verification");
}
/* full verification of the fixed corpus under a steered message is impossible; the message handed to verify is steered */
static void op_wrongmsg(long idx, unsigned n) {
  const h_key *k = h_getkey((unsigned)idx % H_FIXED); const u8 *mm; static u8 c[COMPACTMAX]; u8 nonce[40]; const u8 *f = h_fullsig((unsigned)idx % H_FIXED, n, &mm); memset(nonce, 7, 40); static long ck = -1; static unsigned cn; static uint64_t h0; if (ck != idx || cn != n) { ref_compact_sign(c, mm, n, k->sk, nonce, NULL); ck = idx; cn = n; h0 = h_hash(c, COMPACT(n)); }
  if (eqb(GB, mm, n)) { ev(1); return; } u8 *m = IN(G_MSG, GB, n); rej("C02", LIB(hy_cverify(m, n, c, COMPACT(n), k->pk)), "accepted", "compact signature accepted for another message"); rej("C02", LIB(hy_fverify(m, n, f, FULL(n), k->pk)), "accepted", "full signature accepted for another message"); done("verify");
}
/* a window of a genuine signature or public key is replaced by genome bytes */
#define CWIN 82
#define PWIN 44
static void op_ctamper(long idx, unsigned n) {
  static u8 base[COMPACTMAX], t[COMPACTMAX], tp[PKB]; static long bi = -1; static unsigned bn; u8 m[64]; const h_key *k = h_getkey((unsigned)(idx / 3) % 6); { h_rng sv = R; r_seed(h_seed + (uint64_t)idx, 0xc7a3); u8 nonce[40]; rbytes(m, n); rbytes(nonce, 40); R = sv; if (bi != idx || bn != n) { ref_compact_sign(base, m, n, k->sk, nonce, NULL); bi = idx; bn = n; } }
  memcpy(t, base, COMPACT(n)); memcpy(tp, k->pk, PKB); long w = idx % (CWIN + PWIN); const char *props = "C02", *what; size_t at, wn = 32;
  if (w < CWIN) { at = (size_t)w * 32; if (at >= COMPACT(n)) at = (at % COMPACT(n)); if (at + wn > COMPACT(n)) wn = COMPACT(n) - at; if (at < 2) at = 2, wn = 32; memcpy(t + at, GB, wn); if (at >= 2 && at + wn <= 2486) props = "C02 C03"; what = "compact signature with replaced bytes accepted"; }
  else { at = (size_t)(w - CWIN) * 32; memcpy(tp + at, GB, wn); what = "compact signature accepted under a public key with replaced bytes"; }
  if (eqb(t, base, COMPACT(n)) && eqb(tp, k->pk, PKB)) { ev(1); return; }
  u8 *sg = IN(G_SM, t, COMPACT(n)), *pk = IN(G_PK, tp, PKB), *o = O(G_OUT, 64); ull ml = 0x815; rej(props, LIB(hy_copen(o, &ml, sg, COMPACT(n), pk)), "accepted", what); ev(1); if (!O_same(G_OUT) || ml != 0x815) V("C07", "failed-open-writes", "failing compact open wrote to its outputs (bytes %zu.. of %s replaced)", at, w < CWIN ? "the signature" : "the key"); 
  u8 *mm = IN(G_MSG, m, n); rej(props, LIB(hy_cverify(mm, n, sg, COMPACT(n), pk)), "accepted", what); done("failing compact verification");
}
#define FWIN (78 + 60)
static void op_ftamper(long idx, unsigned n) {
  unsigned key = (unsigned)(idx / 5) % H_FIXED; const h_key *k = h_getkey(key); const u8 *mm, *base = h_fullsig(key, n, &mm); static u8 t[FULLMAX], tp[PKB]; memcpy(t, base, FULL(n)); memcpy(tp, k->pk, PKB); long w = idx % (FWIN + PWIN); const char *props = "C02", *what = "full signature with replaced bytes accepted"; size_t at = 2, wn = 32;
  if (w < FWIN) { if (w < 78) at = 2 + (size_t)w * 32; else { h_rng sv = R; r_seed(h_seed, 0xf7a3 + (uint64_t)idx); at = 66 + n + DSIG + (w == 78 ? 0 : w == 79 ? SSIG - 32 : 32 * (size_t)rn(SSIG / 32)); R = sv; } memcpy(t + at, GB, wn); if (at + wn <= 66 || at >= 66 + n) props = "C02 C03"; }
  else { at = (size_t)(w - FWIN) * 32; memcpy(tp + at, GB, wn); what = "full signature accepted under a public key with replaced bytes"; }
  if (eqb(t, base, FULL(n)) && eqb(tp, k->pk, PKB)) { ev(1); return; }
  u8 *sg = IN(G_SM, t, FULL(n)), *pk = IN(G_PK, tp, PKB), *o = O(G_OUT, 64); ull ml = 0x815; rej(props, LIB(hy_fopen(o, &ml, sg, FULL(n), pk)), "accepted", what); ev(1); if (!O_same(G_OUT) || ml != 0x815) V("C07", "failed-open-writes", "failing full open wrote to its outputs (bytes %zu.. of %s replaced)", at, w < FWIN ? "the signature" : "the key");
  u8 *m = IN(G_MSG, mm, n); rej(props, LIB(hy_fverify(m, n, sg, FULL(n), pk)), "accepted", what); done("failing full verification");
}
/* full signature made compact */
static void op_ftoc(long idx, unsigned n) {
  unsigned key = (unsigned)idx % H_FIXED; const h_key *k = h_getkey(key); const u8 *mm, *f = h_fullsig(key, n, &mm); static u8 t[COMPACTMAX], tf[FULLMAX]; u8 o[64]; ull ml;
  memset(t, 0, sizeof t); t[0] = 1; t[1] = (u8)n; memcpy(t + 2, f + 2, 64); memcpy(t + 66, f + 66 + n, DSIG); memcpy(t + 2486, GB, 40); memcpy(t + 2526, mm, n); rej("C20 C03", LIB(hy_copen(o, &ml, t, COMPACT(n), k->pk)), "cross-mode", "full signature rearranged into a compact one accepted"); rej("C20 C03", LIB(hy_cverify(mm, n, t, COMPACT(n), k->pk)), "cross-mode", "full signature rearranged into a compact one accepted by verify");
  memcpy(tf, f, FULL(n)); rej("C20", LIB(hy_copen(o, &ml, tf, FULL(n), k->pk)), "cross-mode", "full signature accepted by the compact open"); tf[0] = GB[40]; if (tf[0] != 2) { rej("C20 C02", LIB(hy_fopen(o, &ml, tf, FULL(n), k->pk)), "scheme-id", "full signature with another scheme id accepted"); rej("C20 C02", LIB(hy_fverify(mm, n, tf, FULL(n), k->pk)), "scheme-id", "full signature with another scheme id accepted by verify"); }
}
/* ---- lengths and headers as genome bytes ---- */
static uint64_t g64(const u8 *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static void refuse(int r, int slot, ull l, const char *what, uint64_t v) { obsi(r); ev(2); if (!r) V("C05", "not-refused", "%s accepted (value %llu = %#llx)", what, (ull)v, (ull)v); if (slot >= 0 && (!O_same(slot) || l != 0x815)) V("C05 C07", "refusal-writes", "%s: outputs were written (value %llu = %#llx, returned %d)", what, (ull)v, (ull)v, r); }
static void op_args(long idx, unsigned n) {
  const h_key *k = h_getkey((unsigned)(idx / 11) % H_FIXED); const u8 *mm, *f = h_fullsig((unsigned)(idx / 11) % H_FIXED, n, &mm); static u8 c[COMPACTMAX]; static long ck = -1; static unsigned cn; u8 nonce[40]; memset(nonce, 9, 40); if (ck != idx || cn != n) { ref_compact_sign(c, mm, n, k->sk, nonce, NULL); ck = idx; cn = n; }
  uint64_t a = g64(GB); ull l = 0x815; static u8 m64[64]; memset(m64, 0x61, 64); memcpy(m64, mm, n); u8 *m = IN(G_MSG, m64, 64), *pk = IN(G_PK, k->pk, PKB), *o; ent_reset(3);
  switch (idx % 13) {
    case 0: if (a - 1 < 64) break; o = O(G_OUT, COMPACTMAX); refuse(LIB(hy_csign(o, &l, m, a, k->sk)), G_OUT, l, "compact sign, message length", a); break;
    case 1: if (a - 1 < 64) break; o = O(G_OUT, FULLMAX); refuse(LIB(hy_fsign(o, &l, m, a, k->sk)), G_OUT, l, "full sign, message length", a); break;
    case 2: if (a == COMPACT(n)) break; o = O(G_OUT, 64); refuse(LIB(hy_copen(o, &l, IN(G_SM, c, COMPACT(n)), a, pk)), G_OUT, l, "compact open, signature length", a); break;
    case 3: if (a == FULL(n)) break; o = O(G_OUT, 64); refuse(LIB(hy_fopen(o, &l, IN(G_SM, f, FULL(n)), a, pk)), G_OUT, l, "full open, signature length", a); break;
    case 4: if (a == n) break; refuse(LIB(hy_cverify(m, a, IN(G_SM, c, COMPACT(n)), COMPACT(n), pk)), -1, 0, "compact verify, message length", a); break;
    case 5: if (a == COMPACT(n)) break; refuse(LIB(hy_cverify(m, n, IN(G_SM, c, COMPACT(n)), a, pk)), -1, 0, "compact verify, signature length", a); break;
    case 6: if (a == n) break; refuse(LIB(hy_fverify(m, a, IN(G_SM, f, FULL(n)), FULL(n), pk)), -1, 0, "full verify, message length", a); break;
    case 7: if (a == FULL(n)) break; refuse(LIB(hy_fverify(m, n, IN(G_SM, f, FULL(n)), a, pk)), -1, 0, "full verify, signature length", a); break;
    case 8: { u8 *s = IN(G_SM, c, COMPACT(n)); in_src[G_SM] = NULL; s[0] = GB[0]; s[1] = GB[1]; if (eqb(s, c, 2)) break; o = O(G_OUT, 255); refuse(LIB(hy_copen(o, &l, s, COMPACT(n), pk)), G_OUT, l, "compact open, header", s[0] * 256u + s[1]); refuse(LIB(hy_cverify(m, n, s, COMPACT(n), pk)), -1, 0, "compact verify, header", s[0] * 256u + s[1]); } break;
    case 9: { u8 *s = IN(G_SM, f, FULL(n)); in_src[G_SM] = NULL; s[0] = GB[0]; s[1] = GB[1]; if (eqb(s, f, 2)) break; o = O(G_OUT, 255); refuse(LIB(hy_fopen(o, &l, s, FULL(n), pk)), G_OUT, l, "full open, header", s[0] * 256u + s[1]); refuse(LIB(hy_fverify(m, n, s, FULL(n), pk)), -1, 0, "full verify, header", s[0] * 256u + s[1]); } break;
    case 10: { static u8 ds[DSIG]; static long dk = -1; if (dk != idx) { ref_dil_sign(ds, mm, n, k->sk + 64, NULL, NULL); dk = idx; } u8 *s = IN(G_SM, ds, DSIG), *dp = IN(G_PK, k->pk + 32, 1312); uint64_t b = g64(GB + 8); if (a - 1 >= 64) refuse(LIB(crypto_verify_dilithium(m, a, s, DSIG, dp)), -1, 0, "crypto_verify_dilithium, message length", a); if (b != DSIG) { refuse(LIB(crypto_verify_dilithium(m, n, s, b, dp)), -1, 0, "crypto_verify_dilithium, signature length", b); refuse(LIB(dil_verify(s, b, m, n, dp)), -1, 0, "Dilithium verify, signature length", b); } } break;
    case 11: { u8 *s = IN(G_SM, f + 66 + n + DSIG, SSIG), *sp = IN(G_PK, k->pk + 1344, 64); if (a != SSIG) refuse(LIB(spx_verify(s, a, m, n, sp)), -1, 0, "SPHINCS+ verify, signature length", a); } break;
    case 12: { u8 *s = IN(G_SEED, GB, 64); uint64_t b = g64(GB + 8); if (a < 32 || b <= a) { o = O(G_OUT, 400); refuse(LIB(seedexpander_wrapper(s, a, o, b)), G_OUT, 0x815, "seedexpander, lengths", a); } a &= 31; o = O(G_OUT, 400); refuse(LIB(seedexpander_wrapper(s, a, o, 300)), G_OUT, 0x815, "seedexpander, seed length", a); } break;
  }
  done("call with wrong lengths");
}
/* ---- components ---- */
static void op_dil(long idx, unsigned n) {
  const gk *k = gdil(GB); const u8 *m0 = GB + 32; static u8 w[DSIG], sm[DSIG + 512]; u8 *m = IN(G_MSG, m0, n), *sk = IN(G_SK, k->sk, 2560), *sig = O(G_SM, DSIG); size_t sl = 1, ml = 1; int r = LIB(dil_sig(sig, &sl, m, n, sk)); obsi(r); obs(sig, DSIG); ref_dil_sign(w, m0, n, k->sk, NULL, NULL); ev(1); if (r || sl != DSIG || !eqb(sig, w, DSIG)) V("C18", "dil-sign", "Dilithium signature of %u bytes: returned %d, length %zu, or other bytes", n, r, sl); done("Dilithium sign"); if (pre_alt) return;
  u8 *ss = IN(G_SM, w, DSIG), *pk = IN(G_PK, k->pk, 1312); r = LIB(dil_verify(ss, DSIG, m, n, pk)); if (r) V("C18", "dil-verify", "valid Dilithium signature of %u bytes refused (%d)", n, r); u8 *o = O(G_OUT, n); memcpy(sm, w, DSIG); memcpy(sm + DSIG, m0, n); r = LIB(dil_open(o, &ml, sm, DSIG + n, pk)); ev(1); if (r || ml != n || !eqb(o, m0, n)) V("C18", "dil-open", "valid Dilithium signed message of %u bytes: %d, length %zu", n, r, ml); if (n >= 1 && n <= 64) { r = LIB(crypto_verify_dilithium(m, n, ss, DSIG, pk)); if (r) V("C18", "verify_dilithium", "valid Dilithium signature refused (%d)", r); }
  u8 *o2 = O(G_A, DSIG + n); r = LIB(dil_sign(o2, &sl, m, n, k->sk)); ev(1); if (r || sl != DSIG + n || !eqb(o2, w, DSIG) || !eqb(o2 + DSIG, m0, n)) V("C18", "dil-sign", "Dilithium crypto_sign of %u bytes: returned %d or other bytes", n, r); done("Dilithium calls");
}
static void op_dilkey(long idx, unsigned n) { u8 pk0[1312], sk0[2560]; u8 *s = IN(G_SEED, GB, 32), *pk = O(G_PK, 1312), *sk = O(G_SK, 2560); ref_dil_keypair(pk0, sk0, GB); int r = LIB(dil_keypair_seed(pk, sk, s)); ev(1); obs(pk, 1312); obs(sk, 2560); if (r || !eqb(pk, pk0, 1312) || !eqb(sk, sk0, 2560)) V("C18", "dil-key", "Dilithium key pair of seed %s: %d or other bytes", hex(GB, 32), r); done("Dilithium key"); if (pre_alt) return; pk = O(G_PK, 1312); sk = O(G_SK, 2560); ent_script(3, GB, 32); r = LIB(dil_keypair(pk, sk)); ev(1); if (r || !eqb(pk, pk0, 1312) || !eqb(sk, sk0, 2560)) V("C18", "dil-key", "random Dilithium key pair from draw %s: %d or other bytes", hex(GB, 32), r); }
static void op_spxkey(long idx, unsigned n) { u8 pk0[64], sk0[128]; u8 *s = IN(G_SEED, GB, 96), *pk = O(G_PK, 64), *sk = O(G_SK, 128); ref_spx_keypair(pk0, sk0, GB); int r = LIB(spx_keypair_seed(pk, sk, s)); ev(1); obs(pk, 64); obs(sk, 128); if (r || !eqb(pk, pk0, 64) || !eqb(sk, sk0, 128)) V("C18", "spx-key", "SPHINCS+ key pair of seed %s: %d or other bytes", hex(GB, 96), r); done("SPHINCS+ key"); if (pre_alt) return; pk = O(G_PK, 64); sk = O(G_SK, 128); ent_script(3, GB, 96); r = LIB(spx_keypair(pk, sk)); ev(1); if (r || !eqb(pk, pk0, 64) || !eqb(sk, sk0, 128)) V("C18", "spx-key", "random SPHINCS+ key pair from draw %s: %d or other bytes", hex(GB, 96), r); }
static void op_spx(long idx, unsigned n) { static u8 w[SSIG]; const h_key *k = h_getkey((unsigned)idx % H_FIXED); u8 *m = IN(G_MSG, GB + 32, n), *sig = O(G_SM, SSIG); size_t sl = 1; ent_script(3, GB, 32); int r = LIB(spx_sig(sig, &sl, m, n, k->sk + 3936)); obs(sig, SSIG); ref_spx_sign(w, GB + 32, n, k->sk + 3936, GB); ev(1); if (r || sl != SSIG || !eqb(sig, w, SSIG)) V("C18", "spx-sign", "SPHINCS+ signature of %u bytes, randomiser %s: %d or other bytes", n, hex(GB, 32), r); if (!pre_alt) { r = LIB(spx_verify(w, SSIG, m, n, k->pk + 1344)); if (r) V("C18", "spx-verify", "valid SPHINCS+ signature refused (%d)", r); } done("SPHINCS+ sign"); }
static void op_spxtamper(long idx, unsigned n) { unsigned key = (unsigned)idx % H_FIXED; const h_key *k = h_getkey(key); const u8 *mm, *f = h_fullsig(key, n, &mm) + 66 + n + DSIG; static u8 t[SSIG + 64]; memcpy(t, f, SSIG); size_t at; { h_rng sv = R; r_seed(h_seed, 0x5bd3 + (uint64_t)idx); at = idx % 8 == 0 ? 0 : 32 * (size_t)rn(SSIG / 32); R = sv; } memcpy(t + at, GB, 32); if (eqb(t, f, SSIG)) return; u8 *s = IN(G_SM, t, SSIG), *m = IN(G_MSG, mm, n), *pk = IN(G_PK, k->pk + 1344, 64); rej("C18", LIB(spx_verify(s, SSIG, m, n, pk)), "spx-accepts", "SPHINCS+ signature with a replaced node accepted"); done("SPHINCS+ verify"); }
static void op_diltamper(long idx, unsigned n) { static u8 b[DSIG], t[DSIG]; static long bi = -1; static unsigned bn; u8 m[256]; const h_key *k = h_getkey((unsigned)idx % 6); { h_rng sv = R; r_seed(h_seed + (uint64_t)idx, 0xd17); rbytes(m, 256); R = sv; } if (bi != idx || bn != n) { ref_dil_sign(b, m, n, k->sk + 64, NULL, NULL); bi = idx; bn = n; } memcpy(t, b, DSIG); size_t at = (size_t)(idx % 76) * 32; size_t wn = at + 32 > DSIG ? DSIG - at : 32; memcpy(t + at, GB, wn); int ok = ref_dil_verify(t, m, n, k->pk + 32, 0); u8 *s = IN(G_SM, t, DSIG), *mm = IN(G_MSG, m, n), *pk = IN(G_PK, k->pk + 32, 1312); int r = LIB(dil_verify(s, DSIG, mm, n, pk)); ev(1); obsi(r); if ((r == 0) != ok) V("C18 C04", "dil-verdict", "Dilithium verify gives %d for a signature the algorithm %s (bytes %zu.. = %s)", r, ok ? "accepts" : "rejects", at, hex(GB, wn)); if (n >= 1 && n <= 64) { r = LIB(crypto_verify_dilithium(mm, n, s, DSIG, pk)); ev(1); if ((r == 0) != ok) V("C18 C04", "dil-verdict", "crypto_verify_dilithium gives %d for a signature the algorithm %s", r, ok ? "accepts" : "rejects"); } done("Dilithium verify"); }
static void op_ed(long idx, unsigned n) {
  u8 pk0[32], sk0[64], w[64]; ref_ed_keypair(pk0, sk0, GB); const u8 *m0 = GB + 32; u8 *m = IN(G_MSG, m0, n), *sk = IN(G_SK, sk0, 64), *sm = O(G_SM, 64 + n); ull l = 1; int r = LIB(crypto_sign_ed25519(sm, &l, m, n, sk)); obs(sm, 64 + n); ref_ed_sign(w, m0, n, sk0); ev(1); if (r || l != 64 + n || !eqb(sm, w, 64) || !eqb(sm + 64, m0, n)) V("C18", "ed-sign", "Ed25519 signature of %u bytes with seed %s: %d, length %llu or other bytes", n, hex(GB, 32), r, l); done("Ed25519 sign"); if (pre_alt) return;
  static u8 t[1000]; memcpy(t, w, 64); memcpy(t + 64, m0, n); u8 *ss = IN(G_SM, t, 64 + n), *o = O(G_OUT, 64 + n), *pk = IN(G_PK, pk0, 32); r = LIB(crypto_sign_ed25519_open(o, &l, ss, 64 + n, pk)); ev(1); if (r || l != n || !eqb(o, m0, n)) V("C18", "ed-open", "valid Ed25519 signed message of %u bytes: %d, length %llu", n, r, l); done("Ed25519 open"); u8 *p = O(G_PK, 32), *s = O(G_SK, 64); ent_script(3, GB, 32); r = LIB(crypto_sign_ed25519_keypair(p, s)); ev(1); if (r || !eqb(p, pk0, 32) || !eqb(s, sk0, 64)) V("C18", "ed-key", "Ed25519 key pair of %s: %d or other bytes", hex(GB, 32), r); u8 *s2 = IN(G_SEED, GB, 32); p = O(G_PK, 32); s = O(G_SK, 64); r = LIB(crypto_sign_ed25519_keypair_seed(p, s, s2)); ev(1); if (r || !eqb(p, pk0, 32) || !eqb(s, sk0, 64)) V("C18", "ed-key", "Ed25519 key pair of seed %s: %d or other bytes", hex(GB, 32), r); done("Ed25519 key");
}
static void op_edtamper(long idx, unsigned n) { const h_key *k = h_getkey((unsigned)idx % 6); u8 m[256], w[64]; { h_rng sv = R; r_seed(h_seed + (uint64_t)idx, 0xed17); rbytes(m, 256); R = sv; } ref_ed_sign(w, m, n, k->sk); static u8 t[400]; memcpy(t, w, 64); memcpy(t + 64, m, n); if (idx % 3 == 2 && n) memcpy(t + 64, GB, n < 32 ? n : 32); else memcpy(t + idx % 3 * 32, GB, 32); int ok = ref_ed_verify(t, t + 64, n, k->pk); u8 *ss = IN(G_SM, t, 64 + n), *o = O(G_OUT, 64 + n), *pk = IN(G_PK, k->pk, 32); ull l = 1; int r = LIB(crypto_sign_ed25519_open(o, &l, ss, 64 + n, pk)); ev(1); obsi(r); if ((r == 0) != ok) V("C18 C04", "ed-verdict", "Ed25519 open gives %d for a signature the algorithm %s", r, ok ? "accepts" : "rejects"); done("Ed25519 open"); }
/* ---- hashes ---- */
static const unsigned hrate[] = {168, 136, 136, 104, 72}; static const u8 hdom[] = {0x1f, 0x1f, 6, 6, 6}; static const unsigned holen[] = {0, 0, 32, 48, 64}; static const char *const hnm[] = {"SHAKE128", "SHAKE256", "SHA3-256", "SHA3-384", "SHA3-512"};
static void hwant(int a, u8 *out, size_t on, const u8 *in, size_t n) { ref_sponge s; ref_sp_init(&s, hrate[a], hdom[a]); ref_sp_absorb(&s, in, n); ref_sp_squeeze(&s, out, on); }
static void op_hash(long idx, unsigned n) {
  int a = (int)(idx % 6); if (a == 5) { u8 *m = IN(G_MSG, GB, n), *o = O(G_OUT, 64), w[64]; int r = LIB(crypto_hash(o, m, n)); obs(o, 64); ref_sha512(w, GB, n); ev(1); if (r || !eqb(o, w, 64)) V("C16", "hash-wrong", "SHA-512 of %u bytes", n); done("SHA-512"); return; }
  size_t on = holen[a] ? holen[a] : 1 + (size_t)(idx * 53 % 500); u8 *m = IN(G_MSG, GB, n), *o = O(G_OUT, on), w[600]; switch (a) { case 0: LIBV(shake128(o, on, m, n)); break; case 1: LIBV(shake256(o, on, m, n)); break; case 2: LIBV(sha3_256(o, m, n)); break; case 3: LIBV(sha3_384(o, m, n)); break; case 4: LIBV(sha3_512(o, m, n)); break; } obs(o, on); hwant(a, w, on, GB, n); ev(1); if (!eqb(o, w, on)) V("C16", "hash-wrong", "%s of %u bytes, %zu out", hnm[a], n, on); done(hnm[a]);
}
/* pieces cut by genome bytes */
static void op_hashinc(long idx, unsigned n) {
  int a = (int)(idx % 7); const u8 *cut = GB, *in = GB + 16; u8 w[600]; u8 *m = IN(G_MSG, in, n); size_t on = a < 5 && holen[a] ? holen[a] : 300; u8 *o = O(G_OUT, on); size_t p = 0, z = 0; int c = 0, b = a == 5 ? 0 : a == 6 ? 1 : a;
#define ABS(f) do { p = 0; c = 0; while (p < n) { size_t q = c < 8 ? cut[c++] : n - p; if (q > n - p) q = n - p; f(&x, m + p, q); p += q; } } while (0)
#define SQ(f) do { z = 0; c = 8; while (z < on) { size_t q = c < 16 ? cut[c++] : on - z; if (q > on - z) q = on - z; f(o + z, q, &x); z += q; } } while (0)
  st_rec = !st_mute; mem_begin();
  switch (a) {
    case 0: { shake128incctx x; shake128_inc_init(&x); ABS(shake128_inc_absorb); shake128_inc_finalize(&x); SQ(shake128_inc_squeeze); shake128_inc_ctx_release(&x); } break;
    case 1: { shake256incctx x; shake256_inc_init(&x); ABS(shake256_inc_absorb); shake256_inc_finalize(&x); SQ(shake256_inc_squeeze); shake256_inc_ctx_release(&x); } break;
    case 2: { sha3_256incctx x; sha3_256_inc_init(&x); ABS(sha3_256_inc_absorb); sha3_256_inc_finalize(o, &x); } break;
    case 3: { sha3_384incctx x; sha3_384_inc_init(&x); ABS(sha3_384_inc_absorb); sha3_384_inc_finalize(o, &x); } break;
    case 4: { sha3_512incctx x; sha3_512_inc_init(&x); ABS(sha3_512_inc_absorb); sha3_512_inc_finalize(o, &x); } break;
    case 5: { shake128ctx x; u8 t[336]; shake128_absorb(&x, m, n); shake128_squeezeblocks(t, 1, &x); shake128_squeezeblocks(t + 168, 1, &x); memcpy(o, t, on); shake128_ctx_release(&x); } break;
    case 6: { shake256ctx x, y; u8 t[408]; shake256_absorb(&x, m, n); shake256_squeezeblocks(t, 1, &x); shake256_ctx_clone(&y, &x); shake256_squeezeblocks(t + 136, 2, &y); memcpy(o, t, on); shake256_ctx_release(&x); shake256_ctx_release(&y); } break;
  }
  mem_end(); st_rec = 0; st_led(hnm[b]); obs(o, on); hwant(b, w, on, in, n); ev(1); if (!eqb(o, w, on)) V("C16", "chunking", "%s of %u bytes in pieces %s", hnm[b], n, hex(cut, 16)); done(hnm[b]);
}
/* ---- NaCl ---- */
static void op_x25519(long idx, unsigned n) { u8 *k = IN(G_K, GB, 32), *p = IN(G_A, GB + 32, 32), *q = O(G_OUT, 32), w[32], nine[32] = {9}; int r = LIB(crypto_scalarmult(q, k, p)); obs(q, 32); ref_x25519(w, GB, GB + 32); ev(2); if (r || !eqb(q, w, 32)) V("C17", "x25519", "scalar %s, point %s", hex(GB, 32), hex(GB + 32, 32)); q = O(G_OUT, 32); r = LIB(crypto_scalarmult_base(q, k)); ref_x25519(w, GB, nine); if (r || !eqb(q, w, 32)) V("C17", "x25519", "base multiplication by %s", hex(GB, 32)); done("X25519"); }
static void op_core(long idx, unsigned n) { u8 *in = IN(G_N, GB, 16), *k = IN(G_K, GB + 16, 32), *c = IN(G_A, GB + 48, 16), *o = O(G_OUT, 64), w[64]; LIB(crypto_core_salsa20(o, in, k, c)); obs(o, 64); ref_salsa20_core(w, GB, GB + 16, GB + 48); ev(2); if (!eqb(o, w, 64)) V("C17", "salsa20-core", "in %s key %s", hex(GB, 16), hex(GB + 16, 32)); o = O(G_OUT, 32); LIB(crypto_core_hsalsa20(o, in, k, c)); ref_hsalsa20(w, GB, GB + 16, GB + 48); if (!eqb(o, w, 32)) V("C17", "hsalsa20-core", "in %s key %s", hex(GB, 16), hex(GB + 16, 32)); done("core"); }
static void op_vrfy(long idx, unsigned n) { const u8 *a = GB, *b = idx & 1 ? GB + 32 : GB; u8 c[32]; memcpy(c, b, 32); if (!(idx & 1)) c[GB[32] & 31] ^= GB[33]; u8 *x = IN(G_A, a, 32), *y = IN(G_B, c, 32); int r32 = LIB(crypto_verify_32(x, y)), r16 = LIB(crypto_verify_16(x, y)); ev(2); obsi(r32); obsi(r16); if ((r32 == 0) != eqb(a, c, 32) || (r16 == 0) != eqb(a, c, 16)) V("C17", "verify", "%s and %s compared as %d/%d", hex(a, 32), hex(c, 32), r16, r32); done("verify"); }
static void op_poly(long idx, unsigned n) { u8 *k = IN(G_K, GB, 32), *m = IN(G_MSG, GB + 32, n), *o = O(G_OUT, 16), w[16]; int r = LIB(crypto_onetimeauth(o, m, n, k)); obs(o, 16); ref_poly1305(w, GB + 32, n, GB); ev(1); if (r || !eqb(o, w, 16)) V("C17", "poly1305", "length %u key %s", n, hex(GB, 32)); if (LIB(crypto_onetimeauth_verify(w, m, n, k))) V("C17", "poly1305-verify", "right tag refused"); w[rn(16)] ^= (u8)(1 << rn(8)); rej("C17", LIB(crypto_onetimeauth_verify(w, m, n, k)), "poly1305-verify", "wrong tag accepted"); done("onetimeauth"); }
static void op_polytag(long idx, unsigned n) { static u8 m[300]; { h_rng sv = R; r_seed(h_seed, 0x9017 + (uint64_t)idx); rbytes(m, 300); R = sv; } u8 w[16]; ref_poly1305(w, m, n, m + 200); if (eqb(w, GB, 16)) return; u8 *t = IN(G_A, GB, 16); rej("C17", LIB(crypto_onetimeauth_verify(t, m, n, m + 200)), "poly1305-verify", "wrong tag accepted"); done("onetimeauth_verify"); }
static void op_stream(long idx, unsigned n) { u8 *k = IN(G_K, GB, 32), *nn = IN(G_N, GB + 32, 24), *m = IN(G_MSG, GB + 56, n), *o = O(G_OUT, n), w[700]; int r = LIB(crypto_stream(o, n, nn, k)); obs(o, n); ref_xsalsa20_stream(w, n, GB + 32, GB); ev(2); if (r || !eqb(o, w, n)) V("C17", "xsalsa20", "length %u", n); o = O(G_OUT, n); r = LIB(crypto_stream_xor(o, m, n, nn, k)); for (unsigned i = 0; i < n; i++) if (o[i] != (w[i] ^ GB[56 + i])) r = 1; if (r) V("C17", "xsalsa20", "xor, length %u", n); o = O(G_OUT, n); r = LIB(crypto_stream_salsa20(o, n, nn, k)); ref_salsa20_stream(w, n, GB + 32, GB); ev(1); if (r || !eqb(o, w, n)) V("C17", "salsa20", "length %u", n); o = O(G_OUT, n); r = LIB(crypto_stream_salsa20_xor(o, m, n, nn, k)); for (unsigned i = 0; i < n; i++) if (o[i] != (w[i] ^ GB[56 + i])) r = 1; if (r) V("C17", "salsa20", "xor, length %u", n); done("stream"); }
static void op_box(long idx, unsigned n) { /* secretbox and box, both directions */
  static u8 pm[800], w[800], pk[32], k[32]; memset(pm, 0, 32); memcpy(pm + 32, GB + 88, n); size_t d = n + 32; u8 nine[32] = {9}; u8 *kk = IN(G_K, GB, 32), *nn = IN(G_N, GB + 32, 24), *m = IN(G_MSG, pm, d), *c = O(G_SM, d); int r = LIB(crypto_secretbox(c, m, d, nn, kk)); obs(c, d); ref_secretbox(w, pm, d, GB + 32, GB); ev(2); if (r || !eqb(c, w, d)) V("C17", "secretbox", "length %zu: %d or other bytes", d, r); c = IN(G_SM, w, d); u8 *o = O(G_OUT, d); r = LIB(crypto_secretbox_open(o, c, d, nn, kk)); if (r || !eqb(o, pm, d)) V("C17", "secretbox-open", "length %zu: genuine box gives %d", d, r); done("secretbox");
  memcpy(w, gb_ptr(G_SM), d); { u8 t[800]; memcpy(t, w, d); t[16 + rn((uint32_t)d - 16)] ^= (u8)(1 << rn(8)); rej("C17", LIB(crypto_secretbox_open(o, t, d, nn, kk)), "forgery", "changed box opened"); }
  ref_x25519(pk, GB + 56, nine); ref_box_beforenm(k, pk, GB); ref_secretbox(w, pm, d, GB + 32, k); u8 *p = IN(G_PK, pk, 32), *s = IN(G_SK, GB, 32); c = O(G_SM, d); r = LIB(crypto_box(c, m, d, nn, p, s)); ev(2); if (r || !eqb(c, w, d)) V("C17", "box", "length %zu: %d or other bytes", d, r); ref_x25519(pk, GB, nine); p = IN(G_PK, pk, 32); s = IN(G_SK, GB + 56, 32); c = IN(G_SM, w, d); o = O(G_OUT, d); r = LIB(crypto_box_open(o, c, d, nn, p, s)); if (r || !eqb(o, pm, d)) V("C17", "box-open", "length %zu: genuine box gives %d", d, r); done("box");
}
static void op_boxforge(long idx, unsigned n) { static u8 pm[800], w[800], t[800]; u8 k[32], nn[24], k2[32], n2[24]; { h_rng sv = R; r_seed(h_seed, 0xb0f0 + (uint64_t)idx); rbytes(k, 32); rbytes(nn, 24); memset(pm, 0, 32); rbytes(pm + 32, n); R = sv; } size_t d = n + 32; ref_secretbox(w, pm, d, nn, k); memcpy(t, w, d); memcpy(k2, k, 32); memcpy(n2, nn, 24); int a = (int)(idx % 4); if (a == 0) memcpy(t + 16, GB, 16); else if (a == 1) memcpy(t + 32, GB, n); else if (a == 2) memcpy(n2, GB, 24); else memcpy(k2, GB, 32); if (eqb(t, w, d) && eqb(k2, k, 32) && eqb(n2, nn, 24)) return; u8 *c = IN(G_SM, t, d), *o = O(G_OUT, d), *kk = IN(G_K, k2, 32), *nx = IN(G_N, n2, 24); rej("C17", LIB(crypto_secretbox_open(o, c, d, nx, kk)), "forgery", a == 0 ? "box with another tag opened" : a == 1 ? "box with other contents opened" : a == 2 ? "box opened with another nonce" : "box opened with another key"); rej("C17", LIB(crypto_box_open_afternm(o, c, d, nx, kk)), "forgery", "forged box opened by open_afternm"); done("secretbox_open"); }
/* ---- randomness ---- */
static void op_rand(long idx, unsigned n) { u8 *o = O(G_OUT, n), w[800]; ent_script(h_seed + 9, GB, n < 300 ? n : 300); int r = LIB(randombytes(o, n)); obsi(r); obs(o, n); ent_bytes(w, 0, n); ev(1); if (r || !eqb(o, w, n) || ent.pos != n) V("C21", "randombytes", "%u bytes requested: returned %d, drew %zu, bytes %s instead of %s", n, r, ent.pos, hex(o, n), hex(w, n)); done("randombytes"); }
#ifdef ST_WASM
/* ---- exported wrappers against the native functions ---- */
uint8_t *mem_alloc(size_t); uint64_t *mem_alloc_long_long(size_t); void mem_free(void *, size_t);
int dp_sign_keypair_seed(u8 *, u8 *, u8 *); int dp_sign_keypair(u8 *, u8 *); int dp_sign(u8 *, size_t *, const u8 *, size_t, const u8 *); int dp_sign_verify(u8 *, size_t, const u8 *, size_t, const u8 *); int dp_sign_seedexpander(const u8 *, u8 *); int dp_randombytes(void *, size_t); int dp_seedexpander_wrapper(const u8 *, size_t, u8 *, size_t);
static u8 wA[8192], wB[8192];
static void wprep(void) { for (size_t i = 0; i < sizeof wA; i++) wA[i] = wB[i] = G[i % 16]; }
static void wsame(const char *fn, int ra, int rb) { ev(1); if (ra != rb) V("C19", "wrapper-code", "%s returns %d where the native function returns %d", fn, ra, rb); else if (!eqb(wA, wB, sizeof wA)) V("C19", "wrapper-bytes", "%s writes other bytes than the native function", fn); }
static void op_wasm(long idx, unsigned n) {
  const h_key *k = h_getkey((unsigned)(idx / 8) % 6); int ra, rb; wprep();
  switch (idx % 8) {
    case 0: { u8 s[160]; memcpy(s, GB, 160); ra = LIB(dp_sign_keypair_seed(wA, wA + 2000, s)); memcpy(s, GB, 160); rb = hy_keypair_seed(wB, wB + 2000, s); wsame("dp_sign_keypair_seed", ra, rb); } break;
    case 1: ent_script(1, GB, 160); ra = LIB(dp_sign_keypair(wA, wA + 2000)); ent_script(1, GB, 160); rb = hy_keypair(wB, wB + 2000); wsame("dp_sign_keypair", ra, rb); break;
    case 2: { size_t la = 5; ull lb = 5; uint64_t ml = GB[120] & 1 ? n : g64(GB + 112); ent_script(1, GB, 40); ra = LIB(dp_sign(wA, &la, GB + 40, ml, k->sk)); ent_script(1, GB, 40); rb = hy_csign(wB, &lb, GB + 40, ml, k->sk); wsame("dp_sign", ra, rb); ev(1); if (la != lb) V("C19", "wrapper-bytes", "dp_sign reports length %zu, native %llu", la, lb); } break;
    case 3: case 4: { static u8 sg[COMPACTMAX]; u8 m[64]; memcpy(m, GB + 40, 64); ref_compact_sign(sg, m, n, k->sk, GB, NULL); uint64_t ml = n, sl = COMPACT(n); if (idx % 8 == 4) { if (GB[120] & 1) ml = g64(GB + 112); else sl = g64(GB + 112); } else if (GB[120] & 1) sg[GB[112]] ^= GB[113]; ra = LIB(dp_sign_verify(m, ml, sg, sl, k->pk)); rb = hy_cverify(m, ml, sg, sl, k->pk); wsame("dp_sign_verify", ra, rb); } break;
    case 5: ra = LIB(dp_sign_seedexpander(GB, wA)); rb = hy_expand(GB, wB); wsame("dp_sign_seedexpander", ra, rb); break;
    case 6: { uint64_t sl = GB[120] & 1 ? 32 + n : g64(GB + 112) % 200, ol = GB[121] & 1 ? sl + 1 + GB[122] : GB[122]; ra = LIB(dp_seedexpander_wrapper(GB, sl, wA, ol)); rb = seedexpander_wrapper(GB, sl, wB, ol); wsame("dp_seedexpander_wrapper", ra, rb); } break;
    case 7: ent_script(1, GB, 160); ra = LIB(dp_randombytes(wA, n * 4)); ent_script(1, GB, 160); rb = randombytes(wB, n * 4); wsame("dp_randombytes", ra, rb); break;
  }
}
static u8 *fr_p; static size_t fr_n, fr_nz; static int fr_c; static void on_fr(void *p) { if (p == fr_p && p) { fr_c++; for (size_t i = 0; i < fr_n; i++) fr_nz += fr_p[i] != 0; } }
static void op_wfree(long idx, unsigned n) { u8 *p = idx & 1 ? (u8 *)mem_alloc_long_long(n) : mem_alloc(n); if (!p) return; for (unsigned i = 0; i < n; i++) p[i] = GB[i % 600]; fr_p = p; fr_n = n; fr_nz = 0; fr_c = 0; h_free_hook = on_fr; st_rec = !st_mute; mem_free(p, n); st_rec = 0; h_free_hook = NULL; ev(2); if (fr_nz) V("C19", "freed-unwiped", "mem_free(%u bytes) released the buffer with %zu non-zero bytes in it", n, fr_nz); if (fr_c != 1) V("C19", "not-freed", "mem_free(%u bytes) released the buffer %d times", n, fr_c); }
#endif

#define ALLM "C06 C14 "
static const struct { st_op o; long nq, nt; } OPS[] = {
  {{"keyseed", ALLM "C07 C08 C09 C22", 176, 0, 0, op_keyseed, 2}, 8, 64}, {{"keyrand", ALLM "C01 C07 C09 C12 C22", 176, 0, 0, op_keyrand, 2}, 8, 64},
  {{"expand", ALLM "C07 C10 C22", 112, 0, 0, op_expand, 1}, 16, 64}, {{"wrap", ALLM "C07 C10 C22", 16 + 420, 32, 400, op_wrap, 1}, 32, 200},
  {{"csign", ALLM "C01 C02 C07 C08 C12 C20 C22", 280, 1, 64, op_csign, 1, {0, 2526}}, 64, 256}, {{"fsign", "C01 C08 C12", 272, 1, 64, op_fsign, 20, {0, 52342}}, 8, 64},
  {{"wrongmsg", ALLM "C02", 80, 1, 64, op_wrongmsg, 2}, 32, 128}, {{"ctamper", ALLM "C02 C03 C07 C22", 48, 1, 64, op_ctamper, 1, {0, 2526}}, 2 * (CWIN + PWIN), 16 * (CWIN + PWIN)}, {{"ftamper", ALLM "C02 C03 C07 C22", 48, 1, 64, op_ftamper, 4, {0, 52342}}, FWIN + PWIN, 8 * (FWIN + PWIN)},
  {{"ftoc", ALLM "C20 C03 C02", 64, 1, 64, op_ftoc, 4}, 24, 200}, {{"args", ALLM "C05 C07", 16 + 64, 1, 64, op_args, 2, {0, 2526, 52342}}, 13 * 16, 13 * 200},
  {{"dil", ALLM "C07 C18 C22", 16 + 32 + 300, 0, 300, op_dil, 1, {0, 2420}}, 32, 300}, {{"dilkey", ALLM "C07 C18 C22", 48, 0, 0, op_dilkey, 1}, 8, 64}, {{"spxkey", ALLM "C07 C18 C22", 112, 0, 0, op_spxkey, 2}, 8, 64}, {{"spx", "C18", 16 + 32 + 200, 0, 200, op_spx, 20}, 8, 64}, {{"spxtamper", ALLM "C18", 48, 1, 64, op_spxtamper, 3}, 48, 600}, {{"diltamper", ALLM "C18 C04", 48, 0, 200, op_diltamper, 1, {0, 2420}}, 152, 900},
  {{"ed", ALLM "C07 C18 C22", 16 + 32 + 300, 0, 300, op_ed, 2, {0, 64}}, 32, 300}, {{"edtamper", ALLM "C18 C04", 48, 0, 200, op_edtamper, 2, {0, 64}}, 48, 300},
  {{"hash", ALLM "C07 C16 C22", 16 + 700, 0, 700, op_hash, 1, {0, 0, 0, 0}}, 60, 600}, {{"hashinc", ALLM "C07 C16 C22", 16 + 16 + 700, 0, 700, op_hashinc, 1}, 70, 700},
  {{"x25519", ALLM "C07 C17 C22", 80, 0, 0, op_x25519, 2}, 8, 64}, {{"core", ALLM "C07 C17 C22", 80, 0, 0, op_core, 1}, 16, 64}, {{"verify", ALLM "C17 C22", 80, 0, 0, op_vrfy, 1}, 16, 64}, {{"poly", ALLM "C07 C17 C22", 16 + 32 + 200, 0, 200, op_poly, 1}, 32, 300}, {{"polytag", ALLM "C17", 32, 0, 200, op_polytag, 1}, 16, 64}, {{"stream", ALLM "C07 C17 C22", 16 + 56 + 600, 0, 600, op_stream, 1}, 32, 300}, {{"box", ALLM "C07 C17 C22", 16 + 88 + 600, 0, 600, op_box, 3, {0, 32}}, 24, 200}, {{"boxforge", ALLM "C17", 16 + 300, 1, 300, op_boxforge, 1, {0, 32}}, 32, 300},
  {{"rand", ALLM "C07 C21 C22", 16 + 300, 0, 700, op_rand, 1}, 32, 200},
#ifdef ST_WASM
  {{"wasm", "C19", 16 + 160, 1, 64, op_wasm, 2}, 64, 600}, {{"wfree", "C19", 16 + 600, 0, 3000, op_wfree, 1}, 32, 300},
#endif
};
#define NOPS (sizeof OPS / sizeof *OPS)
static void (*real_fn)(long, unsigned);
static void twice(long idx, unsigned len) { /* the same call with other previous output contents gives the same observable result */
  h_rng sv = R; pre_alt = 0; obs_h = 1; obs_first = 0; real_fn(idx, len); uint64_t h = obs_first; R = sv; pre_alt = 1; st_mute = 1; obs_h = 1; obs_first = 0; real_fn(idx, len); pre_alt = 0; st_mute = 0; ev(1); stat_add("other_previous_contents", 1);
  if (h && obs_first && h != obs_first) V("C07 C09 C22", "depends-on-previous-contents", "the result depends on what the output buffers held (first filled with %s)", hex(G, 16));
}
static void steer_all(const char *prop) {
  P = prop;
  for (size_t q = 0; q < NOPS; q++) { if (!is(OPS[q].o.props)) continue; static st_op oo[NOPS]; oo[q] = OPS[q].o; real_fn = oo[q].fn; if (is("C07 C09 C22")) oo[q].fn = twice; const st_op *o = &oo[q];
    long st = is("C06 C07 C14 C22") && OPS[q].nq > 30 ? OPS[q].nq > 100 ? 5 : 3 : 1; /* every property that runs all operations takes fewer of each */
    CASES(o->name, i_, h_count(OPS[q].nq / st, OPS[q].nt / st)) { long i = i_ * st + (long)(h_seed % (uint64_t)st); unsigned len = o->lmin + (unsigned)((uint64_t)i * 2654435761u / 64 % (o->lmax - o->lmin + 1)); st_explore(o, i, len); if (i_ < 1) sample("%s explored by steering", o->name); } }
}
#define DRV(p) void drv_S##p(void) { steer_all(#p); }
DRV(C01) DRV(C02) DRV(C03) DRV(C04) DRV(C05) DRV(C06) DRV(C07) DRV(C08) DRV(C09) DRV(C10) DRV(C12) DRV(C14) DRV(C16) DRV(C17) DRV(C18) DRV(C19) DRV(C20) DRV(C21) DRV(C22)
