/* C25: the library compiled for wasm32 (32-bit size_t, long and pointers), executed in node, against the 64-bit build.
   Every call is made on both sides with the same arguments and random bytes; the other side also watches canaries around
   all arguments, the null page, the heap (red zones, ledger) and the stack. */
#define _GNU_SOURCE
#include "hostile.h"
#include "rare_use.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <unistd.h>
#define G_EXPORT
#include "w32/glue.h"
uint8_t *mem_alloc(size_t); uint64_t *mem_alloc_long_long(size_t); void mem_free(void *, size_t); int dp_sign_keypair_seed(u8 *, u8 *, u8 *); int dp_sign_keypair(u8 *, u8 *); int dp_sign(u8 *, size_t *, const u8 *, size_t, const u8 *); int dp_sign_verify(u8 *, size_t, const u8 *, size_t, const u8 *); int dp_sign_seedexpander(const u8 *, u8 *); int dp_randombytes(void *, size_t); int dp_seedexpander_wrapper(const u8 *, size_t, u8 *, size_t);
static const char *h_variant(void) { const char *v = getenv("H_VARIANT"); return v ? v : ""; }
static FILE *to, *from; static char *ln; static size_t lc; static long maxstack;
static int start(void) {
  int a[2], b[2]; if (pipe(a) || pipe(b)) return -1; signal(SIGPIPE, SIG_IGN); pid_t p = fork(); if (p < 0) return -1;
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); close(a[1]); close(b[0]); execlp("node", "node", getenv("H_W32JS"), getenv("H_WASM"), (char *)NULL); _exit(127); }
  close(a[0]); close(b[1]); to = fdopen(a[1], "w"); from = fdopen(b[0], "r"); return to && from ? 0 : -1;
}
static struct { void *p; size_t n; int k; } out[8]; static int nout; static const char *fn; static int fault; static unsigned off;
static void hexout(const u8 *p, size_t n) { static const char d[] = "0123456789abcdef"; static char b[8192]; while (n) { size_t q = n < 4096 ? n : 4096; for (size_t i = 0; i < q; i++) { b[2 * i] = d[p[i] >> 4]; b[2 * i + 1] = d[p[i] & 15]; } fwrite(b, 1, 2 * q, to); p += q; n -= q; } }
/* begin a call: entropy bytes to send along, number of the draw that fails (0: none) */
static void wb(const char *f, size_t need, int failfrom) { fn = f; nout = 0; fault = failfrom; off = rn(16); fprintf(to, "%s ", f); if (need) { u8 *e = malloc(need); ent_bytes(e, 0, need); hexout(e, need); free(e); } fprintf(to, " %d 0 %u", failfrom, off); }
static void wi(const void *p, size_t n) { if (!p) { fputs(" n:", to); return; } fputs(" i:", to); hexout(p, n); }
static void wo(void *p, size_t n) { if (!p) { fputs(" n:", to); return; } fputs(" o:", to); hexout(p, n); out[nout].p = p; out[nout].k = 'o'; out[nout++].n = n; }
static void wso(size_t *p) { if (!p) { fputs(" n:", to); return; } fputs(" o:", to); hexout((u8 *)p, 4); out[nout].p = p; out[nout].k = 's'; out[nout++].n = 4; }       /* size_t * */
static void wz(size_t v) { fprintf(to, " z:%u", (unsigned)v); }
static void wl(ull v) { fprintf(to, " l:%llu", v); }
static void wend(void) { fputc('\n', to); fflush(to); }
static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* fetch the result and compare with the native one; mode 0 everything, 1 only success or failure, 2 return code only */
static void wr(long r, int mode, const char *what) {
  if (getline(&ln, &lc, from) < 0) exit(9); ev(1); stat_add("wasm_calls", 1);
  if (ln[0] == 'X') { stat_add("not_exported", 1); set_add("missing", "%s", fn); return; }
  char *o = strchr(ln, ';'), *m = strrchr(ln, ';'); *o++ = 0; *m++ = 0; int can = 0, inch = 0, live = 0, draws = 0, nz = 0, low = 0, ml = 0; long st = 0; sscanf(m, "%d %d %d %d %ld %d %d %d", &can, &inch, &live, &draws, &st, &nz, &low, &ml); set_add("functions", "%s", fn);
  if (ln[0] == 'T') { VIOL("wasm-trap", "%s (%s) ends with \"%s\" in the 32-bit build; the 64-bit build returns %ld", fn, what, ln + 2, r); return; }
  long w = atol(ln + 2); if (st > maxstack) maxstack = st; stat_add("wasm_allocations", ml); stat_add("wasm_draws", draws); set_add("outcomes", "%s=%ld", fn, r);
  if (can) VIOL("wasm-outside-write", "%s (%s): %d bytes outside its arguments changed in the 32-bit build", fn, what, can); if (inch) VIOL("wasm-outside-write", "%s (%s): an input changed in the 32-bit build", fn, what); if (low) VIOL("wasm-null-write", "%s (%s): writes through NULL in the 32-bit build", fn, what);
  if (live) VIOL("wasm-leak", "%s (%s): %d blocks not given back in the 32-bit build", fn, what, live);
  if (mode == 1 ? !w != !r : w != (long)(int)r) { VIOL("wasm-code", "%s (%s) returns %ld in the 32-bit build, %ld in the 64-bit build", fn, what, w, r); return; }
  if (mode) return;
  for (int i = 0; i < nout; i++) { const u8 *p = out[i].p; for (size_t j = 0; j < out[i].n; j++, o += 2) if ((u8)(hv(o[0]) << 4 | hv(o[1])) != p[j]) { VIOL("wasm-bytes", "%s (%s): output %d differs between the 32-bit and the 64-bit build, first at byte %zu of %zu", fn, what, i, j, out[i].n); return; } o++; }
}
#define S_(x) #x
#define S(x) S_(x)
static int fa_at; static int fa_plan(void *c, unsigned call, size_t req, size_t *give) { (void)c; if (fa_at && (int)call + 1 >= fa_at) return EIO; *give = req; return 0; }
#define FAULTS(f) do { fa_at = (f); ent.plan = fa_plan; } while (0)
void drv_C25(void) {
  static u8 pk[PKB], sk[SKB], sm[FULLMAX + 64], sm0[FULLMAX + 64], m[6000], o[6000], seed[256]; ull l; size_t s; long r;
  if (!getenv("H_WASM") || system("node --version >/dev/null 2>&1") || start()) { stat_add("node_missing", 1); return; }
  CASES("keys", i, h_count(180, 2500)) {
    int k = (int)(i % 9), f = k >= 5 && i % 4 == 3 ? 1 + (int)rn(2) : 0; rpat(seed, 160); ent_reset(r64()); FAULTS(f); memset(pk, 0x5a, PKB); memset(sk, 0x5a, SKB);
    switch (k) {
      case 0: case 1: wb(S(hy_keypair_seed), 0, 0); wo(pk, PKB); wo(sk, SKB); wi(seed, 160); wend(); r = hy_keypair_seed(pk, sk, seed); break;
      case 2: wb("dp_sign_keypair_seed", 0, 0); wo(pk, PKB); wo(sk, SKB); wi(seed, 160); wend(); r = dp_sign_keypair_seed(pk, sk, seed); break;
      case 3: wb(S(dil_keypair_seed), 0, 0); wo(pk, 1312); wo(sk, 2560); wi(seed, 32); wend(); r = dil_keypair_seed(pk, sk, seed); break;
      case 4: wb(S(spx_keypair_seed), 0, 0); wo(pk, 64); wo(sk, 128); wi(seed, 96); wend(); r = spx_keypair_seed(pk, sk, seed); break;
      case 5: wb(S(hy_keypair), 320, f); wo(pk, PKB); wo(sk, SKB); wend(); r = hy_keypair(pk, sk); break;
      case 6: wb("dp_sign_keypair", 320, f); wo(pk, PKB); wo(sk, SKB); wend(); r = dp_sign_keypair(pk, sk); break;
      case 7: wb(S(dil_keypair), 320, f); wo(pk, 1312); wo(sk, 2560); wend(); r = dil_keypair(pk, sk); break;
      default: if (i & 1) { wb(S(crypto_sign_ed25519_keypair), 320, f); wo(pk, 32); wo(sk, 64); wend(); r = crypto_sign_ed25519_keypair(pk, sk); } else { wb(S(spx_keypair), 320, f); wo(pk, 64); wo(sk, 128); wend(); r = spx_keypair(pk, sk); }
    }
    ent.plan = NULL; wr(r, f ? 1 : 0, f ? "failing entropy" : "key generation"); nontriv(h_hash(seed, 160));
  }
  CASES("sign", i, h_count(800, 12000)) {
    const h_key *k = h_getkey((unsigned)i); int c = (int)(i % 8), f = i % 11 == 10 ? 1 : 0; unsigned n = i % 5 == 4 ? rn(80) : 1 + rn(64); rpat(m, 400); memcpy(sk, k->sk, SKB); if (i % 16 > 11) gen_dil_sk(sk + 64, k->sk + 64, (int)rn(4)); memset(sm, 0xa5, 4000); l = 99; s = 99; ent_reset(r64()); FAULTS(f); ull ln_ = n; if (i % 37 == 36) ln_ = n + (1ull << (32 + rn(32)));
    if (c < 4) { wb(S(hy_csign), 100, f); wo(sm, 2700); wo(&l, 8); wi(m, 64); wl(ln_); wi(sk, SKB); wend(); r = hy_csign(sm, &l, m, ln_, sk); }
    else if (c == 4) { l = 0; wb("dp_sign", 100, f); wo(sm, 2700); wo(&l, 8); wi(m, 64); wz(n); wi(sk, SKB); wend(); r = dp_sign(sm, (size_t *)&l, m, n, sk); }
    else if (c == 5) { n = rn(400); wb(S(dil_sig), 100, 0); wo(sm, DSIG); wso(&s); wi(m, n); wz(n); wi(sk + 64, 2560); wend(); r = dil_sig(sm, &s, m, n, sk + 64); }
    else if (c == 6) { n = rn(400); wb(S(dil_sign), 100, 0); wo(sm, DSIG + n); wso(&s); wi(m, n); wz(n); wi(sk + 64, 2560); wend(); r = dil_sign(sm, &s, m, n, sk + 64); }
    else { n = rn(400); wb(S(crypto_sign_ed25519), 100, 0); wo(sm, 64 + n); wo(&l, 8); wi(m, n); wl(n); wi(sk, 64); wend(); r = crypto_sign_ed25519(sm, &l, m, n, sk); }
    ent.plan = NULL; wr(r, f && c < 5 ? 1 : 0, f ? "failing entropy" : "signing"); set_add("sign_lengths", "%u", n); nontriv(h_hash(m, 400) + n);
  }
  CASES("verify", i, h_count(1800, 30000)) {
    const h_key *k = h_getkey((unsigned)i); int c = (int)(i % 9), mu = (int)(i / 9 % 7); unsigned n = 1 + rn(64); u8 nonce[40]; rpat(m, 400); rbytes(nonce, 40); memcpy(pk, k->pk, PKB); ull ml, sl; l = 77; s = 77; memset(o, 0x33, 500);
    if (c < 5) { ref_compact_sign(sm, m, n, k->sk, nonce, NULL); sl = COMPACT(n); } else if (c < 8) { if (c != 7) n = rn(400); ref_dil_sign(sm, m, n, k->sk + 64, NULL, NULL); memcpy(sm + DSIG, m, n); sl = c == 6 ? DSIG + n : DSIG; } else { n = rn(400); ref_ed_sign(sm, m, n, k->sk); memcpy(sm + 64, m, n); sl = 64 + n; } ml = n;
    switch (mu) { case 0: case 1: break; case 2: sm[rn((uint32_t)sl)] ^= (u8)(1 << rn(8)); break; case 3: if (c >= 5) m[rn(n + 1)] ^= 1; else pk[rn(PKB)] ^= (u8)(1 << rn(8)); break; case 4: if (c < 5) staged_dil(sm + 66); else if (c < 8) staged_dil(sm); else mutate(sm, 64); break; case 5: sl += rn(2) ? (ull)-1 : 1; break; case 6: { ull b = 1ull << (32 + rn(32)); if (rn(2)) sl += b; else ml += b; } break; }
    size_t smb = c < 5 ? 2600 : 64 + DSIG + 400; const u8 *dp = pk + 32;
    switch (c) {
      case 0: case 1: wb(S(hy_cverify), 0, 0); wi(m, 64); wl(ml); wi(sm, smb); wl(sl); wi(pk, PKB); wend(); r = hy_cverify(m, ml, sm, sl, pk); break;
      case 2: case 3: wb(S(hy_copen), 0, 0); wo(o, 64); wo(&l, 8); wi(sm, smb); wl(sl); wi(pk, PKB); wend(); r = hy_copen(o, &l, sm, sl, pk); break;
      case 4: ml &= 0xffffffff; sl &= 0xffffffff; wb("dp_sign_verify", 0, 0); wi(m, 64); wz(ml); wi(sm, smb); wz(sl); wi(pk, PKB); wend(); r = dp_sign_verify(m, ml, sm, sl, pk); break;
      case 5: ml &= 0xffff; sl &= 0xffff; wb(S(dil_verify), 0, 0); wi(sm, smb); wz(sl); wi(m, 400); wz(ml); wi(dp, 1312); wend(); r = dil_verify(sm, sl, m, ml, dp); break;
      case 6: sl &= 0xffff; wb(S(dil_open), 0, 0); wo(o, 500); wso(&s); wi(sm, smb); wz(sl); wi(dp, 1312); wend(); r = dil_open(o, &s, sm, sl, dp); break;
      case 7: wb(S(crypto_verify_dilithium), 0, 0); wi(m, 64); wl(ml); wi(sm, smb); wl(sl); wi(dp, 1312); wend(); r = crypto_verify_dilithium(m, ml, sm, sl, dp); break;
      default: sl &= 0xffff; wb(S(crypto_sign_ed25519_open), 0, 0); wo(o, sl); wo(&l, 8); wi(sm, smb); wl(sl); wi(pk, 32); wend(); r = crypto_sign_ed25519_open(o, &l, sm, sl, pk);
    }
    wr(r, 0, mu < 2 ? "genuine" : mu == 6 ? "64-bit length" : "modified"); set_add("verify_classes", "%d.%d.%s", c, mu, r ? "refused" : "accepted"); stat_add(r ? "refused" : "accepted", 1); nontriv(h_hash(sm, 600) + ml + sl);
  }
  CASES("full-verify", i, h_count(144, 2000)) {
    unsigned key = (unsigned)rn(H_FIXED), n = 1 + rn(64); const u8 *mm; memcpy(sm, h_fullsig(key, n, &mm), FULL(n)); memcpy(m, sm + 66, n); memcpy(pk, h_getkey(key)->pk, PKB); ull sl = FULL(n), ml = n; l = 3; int c = (int)(i % 3), mu = (int)(i / 3 % 6); memset(o, 0x44, 64);
    if (mu == 2) sm[rn((uint32_t)sl)] ^= (u8)(1 << rn(8)); if (mu == 3) sm[66 + n + DSIG + rn(SSIG)] ^= (u8)(1 << rn(8)); if (mu == 4) pk[1344 + rn(64)] ^= 1; if (mu == 5) { ull b = 1ull << (32 + rn(32)); if (rn(2)) sl += b; else ml += b; }
    if (c == 0) { wb(S(hy_fverify), 0, 0); wi(m, 64); wl(ml); wi(sm, FULLMAX); wl(sl); wi(pk, PKB); wend(); r = hy_fverify(m, ml, sm, sl, pk); }
    else if (c == 1) { wb(S(hy_fopen), 0, 0); wo(o, 64); wo(&l, 8); wi(sm, FULLMAX); wl(sl); wi(pk, PKB); wend(); r = hy_fopen(o, &l, sm, sl, pk); }
    else if (i % 2) { static u8 at[SSIG + 64]; memcpy(at, sm + 66 + n + DSIG, SSIG); memcpy(at + SSIG, m, n); s = 3; wb(S(spx_open), 0, 0); wo(o, n); wso(&s); wi(at, SSIG + n); wz(SSIG + n); wi(pk + 1344, 64); wend(); r = spx_open(o, &s, at, SSIG + n, pk + 1344); }
    else { const u8 *sg = sm + 66 + n + DSIG; wb(S(spx_verify), 0, 0); wi(sg, SSIG); wz(SSIG); wi(m, n); wz(n); wi(pk + 1344, 64); wend(); r = spx_verify(sg, SSIG, m, n, pk + 1344); }
    wr(r, 0, mu < 2 ? "genuine" : "modified"); set_add("full_classes", "%d.%d.%s", c, mu, r ? "refused" : "accepted"); nontriv(h_hash(sm, 66) + (uint64_t)i);
  }
  CASES("full-sign", i, h_count(16, 300)) {
    const h_key *k = h_getkey((unsigned)i); unsigned n = 1 + rn(64); rpat(m, 64); l = 5; s = 5; u8 opt[32]; gen_optrand(opt, m, n, k->sk + 3936, (int)i); ent_script(r64(), opt, 32); memset(sm, 0x77, FULLMAX);
    if (i & 1) { wb(S(hy_fsign), 64, 0); wo(sm, FULLMAX); wo(&l, 8); wi(m, 64); wl(n); wi(k->sk, SKB); wend(); r = hy_fsign(sm, &l, m, n, k->sk); } else { wb(S(spx_sig), 64, 0); wo(sm, SSIG); wso(&s); wi(m, n); wz(n); wi(k->sk + 3936, 128); wend(); r = spx_sig(sm, &s, m, n, k->sk + 3936); }
    wr(r, 0, "full signature"); nontriv(h_hash(opt, 32));
  }
  CASES("hash", i, h_count(900, 20000)) {
    int c = (int)(i % 9); size_t n = i < 450 ? (size_t)i : rn(4) ? rn(700) : rn(6000), on = 1 + rn(500); rpat(m, n); memset(o, 0x66, 1000); r = 0; unsigned short cut[8]; unsigned nc = 0; size_t left = n; while (nc < 6 && left) { cut[nc] = (unsigned short)rn((uint32_t)left + 1); left -= cut[nc++]; }
    switch (c) {
      case 0: wb("sha3_256", 0, 0); wo(o, 32); wi(m, n); wz(n); wend(); sha3_256(o, m, n); break; case 1: wb("sha3_384", 0, 0); wo(o, 48); wi(m, n); wz(n); wend(); sha3_384(o, m, n); break; case 2: wb("sha3_512", 0, 0); wo(o, 64); wi(m, n); wz(n); wend(); sha3_512(o, m, n); break;
      case 3: wb("shake128", 0, 0); wo(o, on); wz(on); wi(m, n); wz(n); wend(); shake128(o, on, m, n); break; case 4: wb("shake256", 0, 0); wo(o, on); wz(on); wi(m, n); wz(n); wend(); shake256(o, on, m, n); break;
      case 5: wb(S(crypto_hash), 0, 0); wo(o, 64); wi(m, n); wl(n); wend(); r = crypto_hash(o, m, n); break;
      case 6: { size_t nb = 1 + rn(4); int kd = (int)rn(2); wb("g_blocks", 0, 0); wz((size_t)kd); wo(o, nb * (kd ? 136 : 168)); wz(nb); wi(m, n); wz(n); wend(); r = g_blocks(kd, o, nb, m, n); } break;
      default: { int kd = (int)rn(5); size_t w = kd < 2 ? on : kd == 2 ? 32 : kd == 3 ? 48 : 64; wb("g_inc", 0, 0); wz((size_t)kd); wo(o, w); wz(w); wi(m, n); wz(n); wi(cut, sizeof cut); wz(nc); wend(); r = g_inc(kd, o, w, m, n, (const u8 *)cut, nc); }
    }
    wr(r, 0, "hash"); nontriv(h_hash(m, n) + (uint64_t)c);
  }
  CASES("huge", i, !strcmp(h_variant(), "w32-O2") ? h_thorough ? 3 : 1 : 0) { /* bit counts beyond 32 bits */
    size_t n = ((size_t)1 << 29) + 77; u8 *z = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) { stat_add("huge_unavailable", 1); continue; } wd_long(600); memset(o, 0, 64);
    if (i == 0) { wb(S(crypto_hash), 0, 0); wo(o, 64); fprintf(to, " h:%zu", n); wl(n); wend(); r = crypto_hash(o, z, n); } else if (i == 1) { wb("sha3_512", 0, 0); wo(o, 64); fprintf(to, " h:%zu", n); wz(n); wend(); sha3_512(o, z, n); r = 0; } else { wb(S(crypto_onetimeauth), 0, 0); u8 k[32]; rbytes(k, 32); wo(o, 16); fprintf(to, " h:%zu", n); wl(n); wi(k, 32); wend(); r = crypto_onetimeauth(o, z, n, k); }
    wr(r, 0, "huge input"); munmap(z, n); wd_arm(); nontriv((uint64_t)i + 0x1234567);
  }
  CASES("nacl", i, h_count(700, 14000)) {
    int c = (int)(i % 14); size_t n = i < 200 ? (size_t)i : rn(900); u8 k[32], p[32], nn[24]; rpat(k, 32); rpat(p, 32); rpat(nn, 24); rpat(m, n + 64); memset(m, 0, 32); memset(o, 0x12, n + 96); static u8 c2[6000];
    switch (c) {
      case 0: wb(S(crypto_scalarmult), 0, 0); wo(o, 32); wi(k, 32); wi(p, 32); wend(); r = crypto_scalarmult(o, k, p); break; case 1: wb(S(crypto_scalarmult_base), 0, 0); wo(o, 32); wi(k, 32); wend(); r = crypto_scalarmult_base(o, k); break;
      case 2: wb(S(crypto_stream), 0, 0); wo(o, n); wl(n); wi(nn, 24); wi(k, 32); wend(); r = crypto_stream(o, n, nn, k); break; case 3: wb(S(crypto_stream_xor), 0, 0); wo(o, n); wi(m, n); wl(n); wi(nn, 24); wi(k, 32); wend(); r = crypto_stream_xor(o, m, n, nn, k); break;
      case 4: wb(S(crypto_onetimeauth), 0, 0); wo(o, 16); wi(m + 32, n); wl(n); wi(k, 32); wend(); r = crypto_onetimeauth(o, m + 32, n, k); break; case 5: wb(S(crypto_secretbox), 0, 0); wo(o, n + 32); wi(m, n + 32); wl(n + 32); wi(nn, 24); wi(k, 32); wend(); r = crypto_secretbox(o, m, n + 32, nn, k); break;
      case 6: case 7: ref_secretbox(c2, m, n + 32, nn, k); memset(c2, 0, 16); if (i & 1) c2[16 + rn((uint32_t)n + 16)] ^= (u8)(1 << rn(8)); wb(S(crypto_secretbox_open), 0, 0); wo(o, n + 32); wi(c2, n + 32); wl(n + 32); wi(nn, 24); wi(k, 32); wend(); r = crypto_secretbox_open(o, c2, n + 32, nn, k); break;
      case 10: if (i % 28 < 14) n = 0; wb(S(crypto_secretbox_open), 0, 0); wo(o, 64); wi(m, 64); wl(n % 32); wi(nn, 24); wi(k, 32); wend(); r = crypto_secretbox_open(o, m, n % 32, nn, k); break;
      case 11: wb(S(crypto_core_salsa20), 0, 0); wo(o, 64); wi(nn, 16); wi(k, 32); wi(p, 16); wend(); r = crypto_core_salsa20(o, nn, k, p); break; case 12: wb(S(crypto_core_hsalsa20), 0, 0); wo(o, 32); wi(nn, 16); wi(k, 32); wi(p, 16); wend(); r = crypto_core_hsalsa20(o, nn, k, p); break;
      case 13: { u8 pp[32], sh[32], nine[32] = {9}; ref_x25519(pp, p, nine); ref_box_beforenm(sh, pp, k); ref_secretbox(c2, m, n + 32, nn, sh); memset(c2, 0, 16); if (i & 1) c2[16 + rn((uint32_t)n + 16)] ^= (u8)(1 << rn(8)); wb(S(crypto_box_open), 0, 0); wo(o, n + 32); wi(c2, n + 32); wl(n + 32); wi(nn, 24); wi(pp, 32); wi(k, 32); wend(); r = crypto_box_open(o, c2, n + 32, nn, pp, k); } break;
      case 8: wb(S(crypto_box), 0, 0); wo(o, n + 32); wi(m, n + 32); wl(n + 32); wi(nn, 24); wi(p, 32); wi(k, 32); wend(); r = crypto_box(o, m, n + 32, nn, p, k); break; default: memcpy(c2, k, 32); if (i % 20 < 10) c2[rn(32)] ^= (u8)(1 << rn(8)); wb(S(crypto_verify_32), 0, 0); wi(k, 32); wi(c2, 32); wend(); r = crypto_verify_32(k, c2);
    }
    wr(r, 0, "nacl"); nontriv(h_hash(m, n + 32) + h_hash(k, 32));
  }
  CASES("expand", i, h_count(200, 4000)) {
    rpat(seed, 256); size_t sl = i < 100 ? (size_t)i : rn(256), ol = i & 1 ? sl + rn(700) : rn(300); memset(o, 0x21, 1200);
    switch (i % 4) { case 0: wb(S(hy_expand), 0, 0); wi(seed, 96); wo(o, 160); wend(); r = hy_expand(seed, o); break; case 1: wb("dp_sign_seedexpander", 0, 0); wi(seed, 96); wo(o, 160); wend(); r = dp_sign_seedexpander(seed, o); break; case 2: wb("seedexpander_wrapper", 0, 0); wi(seed, sl); wz(sl); wo(o, ol); wz(ol); wend(); r = seedexpander_wrapper(seed, sl, o, ol); break; default: wb("dp_seedexpander_wrapper", 0, 0); wi(seed, sl); wz(sl); wo(o, ol); wz(ol); wend(); r = dp_seedexpander_wrapper(seed, sl, o, ol); }
    wr(r, 0, "expansion"); nontriv(h_hash(seed, 256) + ol);
  }
  CASES("random", i, h_count(120, 2000)) {
    size_t n = i < 64 ? (size_t)i : rn(5000); int f = i % 5 == 4; ent_reset(r64()); FAULTS(f ? 1 : 0); memset(o, 0x55, n); wb(i & 1 ? "randombytes" : "dp_randombytes", n, f && n ? 1 : 0); wo(o, n); wz(n); wend(); r = i & 1 ? randombytes(o, n) : dp_randombytes(o, n); ent.plan = NULL; wr(r, f && n ? 1 : 0, "drawing"); nontriv(n + r64());
  }
  CASES("null", i, h_count(96, 96)) { /* refused on both sides, nothing written */
    const h_key *k = h_getkey(1); int q = 1 + (int)(i % 15), c = (int)(i / 15); rpat(m, 64); u8 nonce[40] = {4}; ref_compact_sign(sm0, m, 9, k->sk, nonce, NULL); memset(sm, 0x5b, 2700); l = 4; memset(pk, 1, PKB); memset(sk, 2, SKB);
#define NL(b, x) ((q & (b)) ? NULL : (x))
    if (c == 0) { ent_reset(3); wb(S(hy_csign), 100, 0); wo(NL(1, sm), 2700); wo(NL(2, &l), 8); wi(NL(4, m), 64); wl(9); wi(NL(8, k->sk), SKB); wend(); r = hy_csign(NL(1, sm), NL(2, &l), NL(4, m), 9, NL(8, k->sk)); }
    else if (c == 1) { wb(S(hy_copen), 0, 0); wo(NL(1, o), 64); wo(NL(2, &l), 8); wi(NL(4, sm0), 2700); wl(COMPACT(9)); wi(NL(8, k->pk), PKB); wend(); r = hy_copen(NL(1, o), NL(2, &l), NL(4, sm0), COMPACT(9), NL(8, k->pk)); }
    else if (c == 2 && q & 7) { wb(S(hy_cverify), 0, 0); wi(NL(1, m), 64); wl(9); wi(NL(2, sm0), 2700); wl(COMPACT(9)); wi(NL(4, k->pk), PKB); wend(); r = hy_cverify(NL(1, m), 9, NL(2, sm0), COMPACT(9), NL(4, k->pk)); }
    else if (c == 3 && q & 7) { wb(S(hy_keypair_seed), 0, 0); wo(NL(1, pk), PKB); wo(NL(2, sk), SKB); wi(NL(4, seed), 160); wend(); r = hy_keypair_seed(NL(1, pk), NL(2, sk), NL(4, seed)); }
    else if (c == 4) { ent_reset(3); wb(S(hy_fsign), 100, 0); wo(NL(1, sm), 2700); wo(NL(2, &l), 8); wi(NL(4, m), 64); wl(9); wi(NL(8, k->sk), SKB); wend(); r = hy_fsign(NL(1, sm), NL(2, &l), NL(4, m), 9, NL(8, k->sk)); }
    else if (c == 5 && q & 3) { wb(S(hy_expand), 0, 0); wi(NL(1, seed), 96); wo(NL(2, o), 160); wend(); r = hy_expand(NL(1, seed), NL(2, o)); } else continue;
    wr(r, 0, "NULL argument"); nontriv((uint64_t)i + 1);
  }
  CASES("rare", i, NRARE) { /* the corpus of rare decisions */
    if (!h_thorough && i % 8 != (long)(h_seed % 8)) continue; const rare_entry *e = &rare_list[i]; const rkey *k = rare_key(e->key); u8 nonce[40], h[64]; unsigned n = rare_input(m, nonce, e->key, e->ctr); ref_compact_digest(h, nonce, m, n, k->sk + 4000); s = 1; wb(S(dil_sig), 0, 0); wo(sm, DSIG); wso(&s); wi(h, 64); wz(64); wi(k->sk + 64, 2560); wend(); r = dil_sig(sm, &s, h, 64, k->sk + 64); wr(r, 0, "rare decision"); rare_note(e->why); nontriv(h_hash(h, 64));
  }
  set_add("largest_stack_bytes", "%ld", maxstack / 1024 * 1024);
}
