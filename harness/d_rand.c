/* C21 randombytes; C11 faults of the randomness source and of allocation */
#define _GNU_SOURCE
#include "gen.h"
#include "h_io.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef H_IO
#define IOR() io_reset()
#else
#define IOR() ((void)0)
#endif
#if defined(H_BACKEND_syscall)
#define BK "syscall"
#elif defined(H_BACKEND_urandom)
#define BK "urandom"
#else
#define BK "getrandom"
#endif
/* delivery styles of the operating system */
static int style; static uint64_t skey;
/* a burst of interruptions before the n-th delivery */
static struct { unsigned at, len, done, given; int err; size_t frag; } storm;
static const unsigned storm_len[] = {41, 64, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 10000, 32768, 65535, 65536, 70000};
#define NSTORM 19
static int plan_storm(void *c, unsigned call, size_t req, size_t *give) { (void)c; (void)call; if (storm.given >= storm.at && storm.done < storm.len) { storm.done++; return storm.err; } storm.given++; if (storm.frag && req > storm.frag) *give = storm.frag; return 0; }
static void storm_set(long i, size_t need) { memset(&storm, 0, sizeof storm); storm.len = storm_len[i % NSTORM]; storm.err = EINTR; storm.at = (unsigned)rn(4); storm.frag = storm.at || rn(2) ? 1 + need / 5 : 0;
#if defined(H_BACKEND_urandom)
  if (rn(2)) storm.err = EAGAIN;
#endif
}
static int plan_style(void *c, unsigned call, size_t req, size_t *give) {
  (void)c; uint64_t x = skey + call * 0x9e3779b97f4a7c15ULL; x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 29;
  switch (style) {
    case 0: return 0;
    case 1: *give = 1; return 0;
    case 2: if (x % 2) return EINTR; return 0;
    case 3: if (x % 3 == 0) return EINTR; *give = 1 + (x >> 8) % req; return 0;
    case 4: *give = req > 1 ? req - 1 : 1; return 0;
    case 5: *give = req > 256 ? 256 : req; return 0;
    case 6: if (call < 40) return EINTR; return 0;
    case 7: *give = call % 2 ? 1 : req / 2 + 1; return call % 4 == 1 ? EINTR : 0;
#if defined(H_BACKEND_urandom)
    case 8: if (x % 2) return EAGAIN; *give = 1 + (x >> 8) % req; return 0;
#endif
    default: if (x % 16) return EINTR; *give = 1 + (x >> 9) % 7; return 0;
  }
}
void drv_C21(void) {
  CASES("sizes", i, h_count(3000, 60000)) {
    size_t n = i < 1200 ? (size_t)i : i < 2800 ? rn(3000) : i < 2990 ? rn(200000) : (1u << 20) + rn(1000); style = i < 1200 && i % 2 ? (int)(i / 2 % 10) : (int)rn(10); if (style == 1 && n > 100000) style = 3; skey = r64(); IOR(); u8 *b = gb(G_OUT, n), *w = malloc(n + 1);
#if defined(H_BACKEND_urandom)
    if (rn(3) == 0) { io.entropy = (int)rn(200); io.entropy_step = 1 + (int)rn(90); stat_add("waits_for_entropy", 1); }
#endif
    ent_reset(r64()); ent.plan = plan_style; int r = randombytes(b, n); ent.plan = NULL; size_t used = ent.pos; ent_bytes(w, 0, n); ev(2);
    if (r) VIOL("randombytes-failed", "%s: %zu bytes with delivery style %d: returned %d although no read failed for good", BK, n, style, r);
    else if (!eqb(b, w, n)) { size_t k = 0; while (b[k] == w[k]) k++; VIOL("randombytes-wrong", "%s: %zu bytes with delivery style %d: byte %zu is not the next byte the operating system delivered", BK, n, style, k); }
    else if (used != n) VIOL("randombytes-overdraw", "%s: %zu bytes requested, %zu drawn", BK, n, used);
    gb_check("randombytes"); h_defined(b, n); set_add("sizes", "%zu", n); set_add("styles", BK ".%d", style); stat_add("interruptions", (long)ent.eintr); stat_add("short_reads", (long)ent.shorts); nontriv(n * 64 + (uint64_t)style + ent.key); free(w);
  }
  /* around the 33554431-byte limit of the system call */
  CASES("limit", i, h_count(4, 12)) {
    static const size_t sz[] = {33554431, 33554432, 67108862 + 3, 33554430}; size_t n = sz[i % 4]; IOR(); u8 *b = mmap(NULL, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) exit(9); mprotect(b + ((n + 4096) & ~(size_t)4095), 4096, PROT_NONE); u8 *p = b + ((n + 4096) & ~(size_t)4095) - n; style = i >= 4 ? 3 : 0; skey = r64(); if (style == 3) style = 4; ent_reset(r64()); if (style == 4) ent.plan = plan_style, style = 0; int r = randombytes(p, n); ev(2); u8 w[4096]; int bad = 0; for (size_t k = 0; k < n; k += 4096) { size_t q = n - k < 4096 ? n - k : 4096; ent_bytes(w, k, q); if (!eqb(p + k, w, q)) { bad = 1; break; } wd_arm(); }
    if (r || bad || ent.pos != n) VIOL("randombytes-wrong", "%s: %zu bytes: returned %d, drew %zu, %s", BK, n, r, ent.pos, bad ? "wrong bytes" : "right bytes"); munmap(b, n + 8192); stat_add("sizes_at_the_limit", 1); nontriv(n);
  }
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_VG)
  /* more than 2^32 bytes: the buffer is 64 MiB of memory mapped over and over */
  CASES("huge", i, h_scale < 0.9 ? 0 : 1) {
    size_t win = 64u << 20, n = (1ull << 32) + 4096 + rn(4096), maps = n / win + 1; int fd = memfd_create("x", 0); if (fd < 0 || ftruncate(fd, (off_t)win)) exit(9); u8 *b = mmap(NULL, maps * win, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { stat_add("huge_skipped", 1); close(fd); continue; }
    for (size_t k = 0; k < maps; k++) if (mmap(b + k * win, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(9);
    IOR(); ent_reset(r64()); wd_long(200); int r = randombytes(b, n); wd_long(200); size_t used = ent.pos; ev(1); u8 w[8192]; ent_bytes(w, n - 4096, 4096); int tail = eqb(b + n - 4096, w, 4096); if (r || used != n || !tail) VIOL("randombytes-wrong", "%s: %zu bytes (beyond 2^32): returned %d, drew %zu", BK, n, r, used); munmap(b, maps * win); close(fd); stat_add("beyond_4GiB", 1); nontriv(n);
  }
#endif
  CASES("storm", i, h_count(NSTORM * 3, NSTORM * 20)) { size_t n = 1 + rn(400); IOR(); storm_set(i, n); u8 *b = gb(G_OUT, n), w[400]; ent_reset(r64()); ent.plan = plan_storm; int r = randombytes(b, n); ent.plan = NULL; ent_bytes(w, 0, n); ev(1); if (r || !eqb(b, w, n) || ent.pos != n) VIOL("randombytes-wrong", "%s: %zu bytes with %u interruptions in a row (errno %d): returned %d, drew %zu", BK, n, storm.len, storm.err, r, ent.pos); gb_check("randombytes"); set_add("interruptions_in_a_row", "%u", storm.done); nontriv(ent.key); }
  CASES("endurance", i, 8) { IOR(); ent_reset(r64()); size_t at = 0; style = i < 4 ? 0 : 3; skey = r64(); ent.plan = plan_style; long N = h_count(i < 4 ? 70000 : 9000, 400000); for (long q = 0; q < N; q++) { size_t n = 1 + rn(48); u8 b[48], w[48]; int r = randombytes(b, n); ent_bytes(w, at, n); if (r || !eqb(b, w, n) || ent.pos != at + n) { VIOL("randombytes-wrong", "%s: call %ld in a row does not continue the delivered stream (returned %d)", BK, q + 1, r); break; } at += n; if (q % 4096 == 0) wd_arm(); } ev(N); stat_add("calls_in_a_row", N); ent.plan = NULL; nontriv(ent.key); }
  /* consecutive requests continue the stream: no byte is used twice or thrown away */
  CASES("stream", i, h_count(200, 4000)) { IOR(); ent_reset(r64()); style = (int)rn(8); skey = r64(); ent.plan = plan_style; size_t at = 0; for (int q = 0; q < 30; q++) { size_t n = rn(rn(4) ? 64 : 700); u8 b[700], w[700]; int r = randombytes(b, n); ev(1); ent_bytes(w, at, n); if (r || !eqb(b, w, n) || ent.pos != at + n) { VIOL("randombytes-wrong", "%s: request %d of a sequence does not continue the delivered stream", BK, q); break; } at += n; } ent.plan = NULL; nontriv(ent.key); }
}

/* ---- C11 ---- */
enum { F_KEY, F_CSIGN, F_FSIGN, F_SPXSIG, F_SPXSIGN, F_ED, F_DIL, F_SPX, F_BOX, F_RAND, F_NR, F_KEYSEED = F_NR, F_COPEN, F_CVERIFY, F_FVERIFY, F_FOPEN, F_DILSIG, F_DILVERIFY, F_SPXVERIFY, F_EXPAND, F_SHAKE, F_SHAKEINC, F_SHA3INC, F_COPEN_BAD, F_FOPEN_BAD, F_DILVERIFY_BAD, F_SPXVERIFY_BAD, F_WRAP, F_N };
static const char *const fname[] = {"keypair", "compact-sign", "full-sign", "sphincs-signature", "sphincs-sign", "ed25519-keypair", "dilithium-keypair", "sphincs-keypair", "box-keypair", "randombytes", "keypair-seed", "compact-open", "compact-verify", "full-verify", "full-open", "dilithium-signature", "dilithium-verify", "sphincs-verify", "seed-expander", "shake256", "shake256-inc", "sha3-512-inc", "compact-open-bad", "full-open-bad", "dilithium-verify-bad", "sphincs-verify-bad", "seedexpander"};
static const size_t fneed[] = {160, 40, 32, 32, 32, 32, 32, 96, 32, 100};
typedef struct { u8 pk[PKB], sk[SKB], sm[FULLMAX], m[128]; ull l; size_t sl; } fbuf;
static fbuf *fb; static const u8 *f_sk, *f_pk; static u8 f_msg[64], f_csm[COMPACT(40)], f_bad[COMPACT(40)], f_seed[160], f_dsig[DSIG], f_dbad[DSIG]; static const u8 *f_full; static u8 *f_fbad; static unsigned f_n = 40;
static void f_setup(void) {
  fb = malloc(sizeof *fb); r_seed(h_seed, 0xfa017); const h_key *k = h_getkey(0); f_sk = k->sk; f_pk = k->pk; rbytes(f_msg, 64); u8 nonce[40]; rbytes(nonce, 40); ref_compact_sign(f_csm, f_msg, f_n, f_sk, nonce, NULL); memcpy(f_bad, f_csm, sizeof f_bad); f_bad[66 + 5] ^= 1; rbytes(f_seed, 160); ref_dil_sign(f_dsig, f_msg, f_n, f_sk + 64, NULL, NULL); memcpy(f_dbad, f_dsig, DSIG); f_dbad[3] ^= 4; const u8 *mm; f_full = h_fullsig(0, 48, &mm); f_fbad = malloc(FULL(48)); memcpy(f_fbad, f_full, FULL(48)); f_fbad[FULL(48) - 7] ^= 0x10;
}
static int f_run(int op) { /* returns the library's code */
  fbuf *b = fb; memset(b, 0xAB, sizeof *b); b->l = 0xABABABABABABABABull; u8 t[64];
  switch (op) {
    case F_KEY: return hy_keypair(b->pk, b->sk); case F_CSIGN: return hy_csign(b->sm, &b->l, f_msg, f_n, f_sk); case F_FSIGN: return hy_fsign(b->sm, &b->l, f_msg, f_n, f_sk);
    case F_SPXSIG: return spx_sig(b->sm, &b->sl, f_msg, f_n, f_sk + 3936); case F_SPXSIGN: return spx_sign(b->sm, &b->sl, f_msg, f_n, f_sk + 3936);
    case F_ED: return crypto_sign_ed25519_keypair(b->pk, b->sk); case F_DIL: return dil_keypair(b->pk, b->sk); case F_SPX: return spx_keypair(b->pk, b->sk); case F_BOX: return crypto_box_keypair(b->pk, b->sk); case F_RAND: return randombytes(b->pk, 100);
    case F_KEYSEED: memcpy(b->sm, f_seed, 160); return hy_keypair_seed(b->pk, b->sk, b->sm);
    case F_COPEN: return hy_copen(b->m, &b->l, f_csm, COMPACT(f_n), f_pk); case F_CVERIFY: return hy_cverify(f_msg, f_n, f_csm, COMPACT(f_n), f_pk);
    case F_FVERIFY: return hy_fverify(f_full + 66, 48, f_full, FULL(48), f_pk); case F_FOPEN: return hy_fopen(b->m, &b->l, f_full, FULL(48), f_pk);
    case F_DILSIG: return dil_sig(b->sm, &b->sl, f_msg, f_n, f_sk + 64); case F_DILVERIFY: return dil_verify(f_dsig, DSIG, f_msg, f_n, f_pk + 32); case F_SPXVERIFY: return spx_verify(f_full + 66 + 48 + DSIG, SSIG, f_full + 66, 48, f_pk + 1344);
    case F_EXPAND: return hy_expand(f_seed, b->sm); case F_WRAP: return seedexpander_wrapper(f_seed, 96, b->sm, 300);
    case F_SHAKE: shake256(b->sm, 300, f_seed, 160); shake128(b->sm + 300, 300, f_seed, 160); return 0;
    case F_SHAKEINC: { shake256incctx c, d; shake256_inc_init(&c); shake256_inc_absorb(&c, f_seed, 100); shake256_inc_ctx_clone(&d, &c); shake256_inc_finalize(&c); shake256_inc_squeeze(b->sm, 200, &c); shake256_inc_ctx_release(&c); shake256_inc_finalize(&d); shake256_inc_squeeze(b->sm + 200, 50, &d); shake256_inc_ctx_release(&d); shake128incctx e, f; shake128_inc_init(&e); shake128_inc_absorb(&e, f_seed, 90); shake128_inc_ctx_clone(&f, &e); shake128_inc_finalize(&f); shake128_inc_squeeze(b->sm + 250, 60, &f); shake128_inc_ctx_release(&e); shake128_inc_ctx_release(&f); shake128ctx g, h; shake128_absorb(&g, f_seed, 33); shake128_ctx_clone(&h, &g); shake128_squeezeblocks(b->sm + 310, 1, &h); shake128_ctx_release(&g); shake128_ctx_release(&h); shake256ctx p, q; shake256_absorb(&p, f_seed, 33); shake256_ctx_clone(&q, &p); shake256_squeezeblocks(b->sm + 600, 1, &q); shake256_ctx_release(&p); shake256_ctx_release(&q); return 0; }
    case F_SHA3INC: { sha3_512incctx c, d; sha3_512_inc_init(&c); sha3_512_inc_absorb(&c, f_seed, 70); sha3_512_inc_ctx_clone(&d, &c); sha3_512_inc_absorb(&c, f_seed, 70); sha3_512_inc_finalize(b->sm, &c); sha3_512_inc_finalize(b->sm + 64, &d); sha3_256incctx e, f; sha3_256_inc_init(&e); sha3_256_inc_absorb(&e, f_seed, 9); sha3_256_inc_ctx_clone(&f, &e); sha3_256_inc_finalize(b->sm + 128, &e); sha3_256_inc_finalize(b->sm + 160, &f); sha3_384incctx g, h; sha3_384_inc_init(&g); sha3_384_inc_absorb(&g, f_seed, 9); sha3_384_inc_ctx_clone(&h, &g); sha3_384_inc_finalize(b->sm + 192, &g); sha3_384_inc_finalize(b->sm + 240, &h); sha3_512(t, f_seed, 160); memcpy(b->sm + 300, t, 64); return 0; }
    case F_COPEN_BAD: return hy_copen(b->m, &b->l, f_bad, COMPACT(f_n), f_pk); case F_FOPEN_BAD: return hy_fopen(b->m, &b->l, f_fbad, FULL(48), f_pk); case F_DILVERIFY_BAD: return dil_verify(f_dbad, DSIG, f_msg, f_n, f_pk + 32); case F_SPXVERIFY_BAD: return spx_verify(f_fbad + 66 + 48 + DSIG, SSIG, f_fbad + 66, 48, f_pk + 1344);
  }
  return -99;
}
/* is a successful result the right one for the bytes d that were delivered? */
static int f_right(int op, const u8 *d) {
  static u8 pk[PKB], sk[SKB], s[FULLMAX]; fbuf *b = fb;
  switch (op) {
    case F_KEY: ref_hybrid_keypair(pk, sk, d); return eqb(pk, b->pk, PKB) && eqb(sk, b->sk, SKB);
    case F_CSIGN: ref_compact_sign(s, f_msg, f_n, f_sk, d, NULL); return b->l == COMPACT(f_n) && eqb(s, b->sm, COMPACT(f_n));
    case F_FSIGN: ref_full_sign(s, f_msg, f_n, f_sk, d, NULL); return b->l == FULL(f_n) && eqb(s, b->sm, FULL(f_n));
    case F_SPXSIG: ref_spx_sign(s, f_msg, f_n, f_sk + 3936, d); return b->sl == SSIG && eqb(s, b->sm, SSIG);
    case F_SPXSIGN: ref_spx_sign(s, f_msg, f_n, f_sk + 3936, d); return b->sl == SSIG + f_n && eqb(s, b->sm, SSIG) && eqb(b->sm + SSIG, f_msg, f_n);
    case F_ED: ref_ed_keypair(pk, sk, d); return eqb(pk, b->pk, 32) && eqb(sk, b->sk, 64);
    case F_DIL: ref_dil_keypair(pk, sk, d); return eqb(pk, b->pk, 1312) && eqb(sk, b->sk, 2560);
    case F_SPX: ref_spx_keypair(pk, sk, d); return eqb(pk, b->pk, 64) && eqb(sk, b->sk, 128);
    case F_BOX: { u8 nine[32] = {9}; ref_x25519(pk, d, nine); return eqb(d, b->sk, 32) && eqb(pk, b->pk, 32); }
    case F_RAND: return eqb(d, b->pk, 100);
  }
  return 1;
}
static int all_b(const u8 *p, size_t n, int v) { for (size_t i = 0; i < n; i++) if (p[i] != v) return 0; return 1; }
/* entropy fault: deliver `at` bytes, then errno; once (then the source recovers) or for good; with optional fragmentation before */
static struct { size_t at; int err, once, frag, fired; } fp;
static int plan_fault(void *c, unsigned call, size_t req, size_t *give) {
  (void)c; (void)call;
  if (ent.pos >= fp.at && (!fp.once || !fp.fired)) { fp.fired = 1; return fp.err; }
  if (ent.pos < fp.at) { size_t left = fp.at - ent.pos; *give = req < left ? req : left; if (fp.frag && *give > fp.frag) *give = (size_t)fp.frag; }
  return 0;
}
/* child result codes */
enum { X_FAIL = 50, X_RIGHT, X_WRONG, X_OUT, X_NOFAULT };
static int child_entropy(int op) {
  ent.plan = plan_fault; int r = f_run(op); ent.plan = NULL; u8 d[160];
  if (!r) { if (ent.pos < fneed[op]) return X_WRONG; ent_bytes(d, 0, fneed[op]); return f_right(op, d) ? X_RIGHT : X_WRONG; }
  /* hybrid outputs on failure: nothing made from partial entropy may appear */
  if (op == F_KEY && !((all_b(fb->pk, PKB, 0xAB) || all_b(fb->pk, PKB, 0)) && (all_b(fb->sk, SKB, 0xAB) || all_b(fb->sk, SKB, 0)))) return X_OUT;
  if ((op == F_CSIGN || op == F_FSIGN) && !all_b(fb->sm, FULLMAX, 0xAB)) return X_OUT;
  return X_FAIL;
}
/* run in a child: exits are the code under test's own controlled failure */
static int in_child(int (*f)(int), int op, int *sig) {
  fflush(stdout); pid_t p = fork(); if (p < 0) exit(9);
  if (!p) { if (getenv("H_QUIET_CHILD") || 1) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("H_CHILD_ERR")) { /* sanitizer reports stay on stderr */ } } _exit(f(op)); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} *sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static long fail_persist; static int child_malloc(int op) {
  long at = mem.fail_at; ent_reset(4242); mem_begin(); mem.fail_at = at; mem.fail_from = (int)fail_persist; int r = f_run(op); mem_end(); u8 d[160];
  if (r) return X_FAIL;
  if (op >= F_COPEN_BAD && op <= F_SPXVERIFY_BAD) return X_WRONG; /* accepted an invalid signature */
  if (op < F_NR) { if (ent.pos < fneed[op]) return X_WRONG; ent_bytes(d, 0, fneed[op]); return f_right(op, d) ? X_RIGHT : X_WRONG; }
  return X_RIGHT; /* value compared by the caller through the hash pipe */
}
static int hp[2]; static int child_malloc_h(int op) { int x = child_malloc(op); uint64_t h = h_hash(fb, sizeof *fb) + (uint64_t)x; if (x == X_RIGHT && write(hp[1], &h, 8) != 8) return 9; return x; }
void drv_C11(void) {
  f_setup(); static const int errs[] = {EIO, ENOSYS, EPERM, EAGAIN, EFAULT, EINVAL, ENOMEM};
  /* entropy failing for good after exactly k bytes, every k of every operation */
  CASES("entropy", i, h_count(720, 14400)) {
    static int ops[720]; static unsigned short ats[720]; static int nn; if (!nn) for (int op = 0; op < F_NR; op++) for (unsigned a = 0; a < fneed[op] && nn < 720; a++) { ops[nn] = op; ats[nn++] = (unsigned short)a; }
    int op = ops[i % nn]; IOR(); fp.at = ats[i % nn]; fp.once = 0; fp.fired = 0; fp.frag = rn(3) ? 0 : 1 + (int)rn(9); fp.err = errs[rn(i < nn ? 4 : 7)];
#if defined(H_BACKEND_urandom)
    if (fp.err == EAGAIN) fp.err = EIO; /* this back end waits on EAGAIN, as it should */
#endif
    ent_reset(r64()); int sig, x = in_child(child_entropy, op, &sig); ev(1); wd_arm();
    if (sig) VIOL("crash-on-entropy-failure", "%s (%s): signal %d when the source fails after %zu bytes with errno %d", fname[op], BK, sig, fp.at, fp.err);
    else if (x == X_RIGHT || x == X_WRONG) VIOL("success-without-entropy", "%s (%s): returns success although only %zu of %zu bytes were delivered (errno %d)", fname[op], BK, fp.at, fneed[op], fp.err);
    else if (x == X_OUT) VIOL("output-without-entropy", "%s (%s): failed after %zu bytes but left data in its outputs", fname[op], BK, fp.at);
    else if (x != X_FAIL) VIOL("crash-on-entropy-failure", "%s (%s): process ended with status %d", fname[op], BK, x);
    set_add("entropy_fault_points", "%s.%zu", fname[op], fp.at); set_add("errnos", "%d", fp.err); nontriv((uint64_t)op << 32 ^ fp.at << 8 ^ (uint64_t)fp.err);
  }
  /* one failure, then recovery: error or a right result */
  CASES("glitch", i, h_count(200, 4000)) {
    int op = (int)(i % F_NR); if ((op == F_FSIGN || op == F_SPXSIG || op == F_SPXSIGN) && i >= 2 * F_NR && i % 3) op = F_CSIGN; IOR(); fp.at = rn((uint32_t)fneed[op]); fp.once = 1; fp.fired = 0; fp.frag = (int)rn(5); fp.err = errs[rn(7)]; ent_reset(r64()); int sig, x = in_child(child_entropy, op, &sig); ev(1); wd_arm();
    if (sig || x == X_WRONG || x == X_OUT || (x != X_FAIL && x != X_RIGHT)) VIOL(x == X_WRONG ? "success-without-entropy" : x == X_OUT ? "output-without-entropy" : "crash-on-entropy-failure", "%s (%s): one failure (errno %d) after %zu bytes: status %d signal %d", fname[op], BK, fp.err, fp.at, x, sig); set_add("glitch_outcomes", "%s.%s", fname[op], x == X_FAIL ? "error" : "ok"); nontriv(ent.key);
  }
  /* interruptions and short reads are no failures */
  CASES("interrupted", i, h_count(240, 5000)) {
    int op = (int)(i % F_NR); if ((op == F_FSIGN || op == F_SPXSIG || op == F_SPXSIGN) && i >= F_NR && i % 4) op = F_CSIGN; IOR(); style = 1 + (int)(i / F_NR % 9); skey = r64(); ent_reset(r64()); ent.plan = plan_style; int r = f_run(op); ent.plan = NULL; u8 d[160]; ent_bytes(d, 0, fneed[op]); ev(2); wd_arm();
    if (r) VIOL("interruption-is-failure", "%s (%s): returned %d under interruptions/short reads (style %d)", fname[op], BK, r, style); else if (!f_right(op, d)) VIOL("success-without-entropy", "%s (%s): result under interruptions/short reads (style %d) is not that of the delivered bytes", fname[op], BK, style);
    stat_add("interruptions", (long)ent.eintr); stat_add("short_reads", (long)ent.shorts); set_add("interrupted_ops", "%s.%d", fname[op], style); nontriv(ent.key);
  }
  CASES("storm", i, h_count(NSTORM * 3, NSTORM * 30)) {
    int op = (int)(i / 2 % F_NR); if ((op == F_FSIGN || op == F_SPXSIG || op == F_SPXSIGN) && i % 4) op = F_CSIGN; IOR(); storm_set(i, fneed[op]); ent_reset(r64()); ent.plan = plan_storm; int r = f_run(op); ent.plan = NULL; u8 d[160]; ent_bytes(d, 0, fneed[op]); ev(2); wd_arm();
    if (r) VIOL("interruption-is-failure", "%s (%s): returned %d after %u interruptions in a row", fname[op], BK, r, storm.done); else if (!f_right(op, d)) VIOL("success-without-entropy", "%s (%s): result after %u interruptions in a row is not that of the delivered bytes", fname[op], BK, storm.done);
    set_add("interruptions_in_a_row", "%u", storm.done); stat_add("interruptions", (long)storm.done); nontriv(ent.key);
  }
#ifdef H_IO
  /* every call of the back end failing in turn */
  CASES("io", i, h_count(600, 8000)) {
    static const int es[] = {EIO, EMFILE, EACCES, EINTR, EAGAIN, ENOMEM, ENOTTY}; int op = i % 4 == 0 ? F_CSIGN : i % 4 == 1 ? F_ED : i % 4 == 2 ? F_RAND : F_DIL; extern long iox[4]; extern int io_fault_plan(void *, unsigned, int); io_reset(); int low = (int)(i / 4 % 2); iox[0] = i / 8 % 16; iox[1] = es[rn(7)]; iox[2] = rn(2) && iox[1] != EINTR && iox[1] != EAGAIN; iox[3] = rn(2); io.entropy = low ? 10 : 256; io.entropy_step = 60; io.plan = io_fault_plan; ent_reset(r64()); int r = f_run(op); io.plan = NULL; unsigned fl = io.faults; u8 d[160]; ent_bytes(d, 0, fneed[op]); ev(1);
    if (!r && (ent.pos != fneed[op] || !f_right(op, d))) VIOL("success-without-entropy", "%s (%s): I/O call %ld failing with errno %ld (for good %ld): success, %zu of %zu bytes delivered", fname[op], BK, iox[0], iox[1], iox[2], ent.pos, fneed[op]);
    if (r && (op == F_CSIGN) && !all_b(fb->sm, FULLMAX, 0xAB)) VIOL("output-without-entropy", "%s (%s): failed but left data in its outputs", fname[op], BK);
    io_reset(); set_add("io_fault_points", "%s.%ld.%s", BK, iox[0], fl ? (r ? "failed" : "survived") : "unreached"); nontriv(ent.key);
  }
#endif
  /* allocation failure at each point */
  CASES("alloc", i, h_count(2200, 40000)) {
    static long total[F_N]; static uint64_t good[F_N]; int op = (int)(i % F_N); IOR();
    if (!total[op]) { ent_reset(4242); mem_begin(); int r = f_run(op); mem_end(); total[op] = mem.mallocs ? mem.mallocs : -1; good[op] = h_hash(fb, sizeof *fb) + X_RIGHT; (void)r; }
    long N = total[op], k = i / F_N; if (N < 0 || op == F_RAND) { stat_add("operations_without_allocation", i < F_N); continue; } int per = (int)(k & 1); k >>= 1; if (k >= N && k >= 40) k = rn((uint32_t)N); long at = k < 16 ? k + 1 : k < 28 ? N - (k - 16) : 1 + (long)(r64() % (uint64_t)N); if (at > N) at = 1 + (at - 1) % N; if (at < 1) at = 1;
    if (pipe(hp)) exit(9); mem.fail_at = at; fail_persist = per; int sig, x = in_child(child_malloc_h, op, &sig); mem.fail_at = 0; close(hp[1]); uint64_t h = 0; int hav = read(hp[0], &h, 8) == 8; close(hp[0]); ev(1); wd_arm();
    if (sig) VIOL("crash-on-allocation-failure", "%s: signal %d when allocation %ld of %ld fails (for good %d)", fname[op], sig, at, N, per);
    else if (x == X_WRONG || (x == X_RIGHT && (!hav || h != good[op]))) VIOL("success-without-memory", "%s: success with a wrong result when allocation %ld of %ld fails (for good %d)", fname[op], at, N, per);
    set_add("allocation_fault_points", "%s.%ld", fname[op], at); set_add("allocation_outcomes", "%s.%s", fname[op], x == X_FAIL ? "error" : x == X_RIGHT ? "ok" : "exit"); nontriv((uint64_t)op << 40 ^ (uint64_t)at << 1 ^ (uint64_t)per); stat_add("allocation_faults", 1);
  }
}
#ifdef H_IO
long iox[4];
int io_fault_plan(void *c, unsigned call, int what) { (void)c; if (what == IO_IOCTL && iox[3] && io.count[IO_IOCTL] == 1) return ENOTTY; if ((long)call == iox[0] || (iox[2] && (long)call > iox[0])) return (int)iox[1]; return 0; }
#endif
