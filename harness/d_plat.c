/* C24: randombytes as it is compiled for browsers/Node.js (Emscripten), Windows, the BSDs and WASI.  The platform calls are stand-ins
   that deliver a known stream, record where they put it, and fail as planned; the library around it is the real one. */
#define _GNU_SOURCE
#include "h.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <unistd.h>
static size_t huge; static u8 *huge_p;                       /* huge buffers: positions are recorded, the contents are not written */
static struct { u8 *p; size_t n; } iv[256]; static int niv; static long deliveries;
static u8 *cov; static u8 *sh; static u8 *cov_p; static size_t cov_n;
static void note(u8 *p, size_t n) { deliveries++; if (huge) { if (niv < 256) { iv[niv].p = p; iv[niv++].n = n; } } else if (cov_p && p >= cov_p && p + n <= cov_p + cov_n) { memset(cov + (p - cov_p), 1, n); memcpy(sh + (p - cov_p), p, n); } }
static void give(u8 *p, size_t n) { if (!huge) { ent_bytes(p, ent.pos, n); ent.pos += n; } note(p, n); }
static void spoil(u8 *p, size_t n) { if (huge) return; for (size_t i = 0; i < n && i < 64; i++) p[i] = 0xEE; if (cov_p && p >= cov_p && p + n <= cov_p + cov_n) memset(cov + (p - cov_p), 0, n < 64 ? n : 64); }
static size_t reached(u8 *b, size_t n) { size_t at = 0; for (int again = 1; again && at < n;) { again = 0; for (int i = 0; i < niv; i++) if (iv[i].p <= b + at && iv[i].p + iv[i].n > b + at) { at = (size_t)(iv[i].p + iv[i].n - b); again = 1; } } return at > n ? n : at; }

#if defined(H_PLAT_win)
#define PLAT "windows"
#include "stub/win/windows.h"
#include "stub/win/wincrypt.h"
#include "stub/win/bcrypt.h"
static struct { int bc_from, acq, gen_from, rel; unsigned status; int bc_calls, gen_calls, acq_calls, open, bad; HCRYPTPROV h; DWORD err; } w;
DWORD GetLastError(void) { return w.err; } void SetLastError(DWORD e) { w.err = e; } PVOID SecureZeroMemory(PVOID p, SIZE_T n) { return memset(p, 0, n); }
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR p, ULONG n, ULONG fl) {
  int c = ++w.bc_calls; if (h == NULL && fl != BCRYPT_USE_SYSTEM_PREFERRED_RNG) return (NTSTATUS)0xC0000008;
  if (w.bc_from && c >= w.bc_from) { spoil(p, n); return (NTSTATUS)w.status; } give(p, n); return w.bc_from ? 0 : (NTSTATUS)(w.status & 0x7fffffffu);
}
static BOOL acq(HCRYPTPROV *h) { w.acq_calls++; if (w.acq) { w.err = 0x8009001F; return FALSE; } w.h = *h = 0x5150 + (HCRYPTPROV)w.acq_calls; w.open++; return TRUE; }
BOOL CryptAcquireContextA(HCRYPTPROV *h, LPCSTR a, LPCSTR b, DWORD t, DWORD f) { return acq(h); } BOOL CryptAcquireContextW(HCRYPTPROV *h, LPCWSTR a, LPCWSTR b, DWORD t, DWORD f) { return acq(h); }
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *p) { if (h != w.h || w.open != 1) { w.bad++; return FALSE; } int c = ++w.gen_calls; if (w.gen_from && c >= w.gen_from) { spoil(p, n); w.err = 0x57; return FALSE; } give(p, n); return TRUE; }
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD f) { if (h != w.h || w.open != 1) { w.bad++; return FALSE; } w.open--; return !w.rel; }
/* which plan; 0 = healthy */
static const char *setup(unsigned i) {
  static const unsigned st[] = {0xC0000001u, 0x80000005u, 0xC0000008u, 0xC000000Du, 0xFFFFFFFFu, 0x80000000u}; memset(&w, 0, sizeof w); w.status = i & 1 ? 0x40000000u : 0; unsigned k = i % 12;
  if (k < 4) return "healthy"; w.status = st[rn(6)]; w.bc_from = 1 + (k == 11); if (k < 7 || k == 11) return "first-source-fails"; if (k == 7) { w.acq = 1; return "no-provider"; } if (k == 8) { w.gen_from = 1; return "both-fail"; } if (k == 9) { w.rel = 1; return "release-fails"; } w.gen_from = 2; return "second-source-fails-late";
}
static int possible(void) { return !w.bc_from || w.bc_calls < w.bc_from || (!w.acq && (!w.gen_from || w.gen_calls < w.gen_from)); }
static int must(void) { return possible() && !w.rel; }
static void settle(const char *what, const char *pl, int r) { if (w.bad) VIOL("handle-misuse", "%s (%s): provider handle used or released wrongly %d times", what, pl, w.bad); if (w.open && !w.rel) VIOL("handle-leak", "%s (%s, return %d): %d provider handle(s) not released", what, pl, r, w.open); stat_add("handles_seen", w.acq_calls); }
#elif defined(H_PLAT_arc4)
#define PLAT H_PLAT_NAME
void __wrap_arc4random_buf(void *p, size_t n) { give(p, n); }
uint32_t __wrap_arc4random(void) { uint32_t x; int h = huge != 0; huge = 0; ent_bytes((u8 *)&x, ent.pos, 4); ent.pos += 4; huge = h; return x; }
static const char *setup(unsigned i) { return "healthy"; }
static int possible(void) { return 1; } static int must(void) { return 1; } static void settle(const char *what, const char *pl, int r) {}
#elif defined(H_PLAT_em)
#define PLAT "emscripten"
static struct { const char *mode; int healthy, weak, touched, thrown, calls; uint64_t seed; } e; static jmp_buf thrown; static int in_call; static FILE *to, *from; static u8 *served; static size_t nserved, cserved;
static int start(void) {
  if (to) return 0; int a[2], b[2]; if (pipe(a) || pipe(b)) return -1; signal(SIGPIPE, SIG_IGN); pid_t p = fork(); if (p < 0) return -1;
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); close(a[1]); close(b[0]); execlp("node", "node", getenv("H_EMJS"), (char *)NULL); _exit(127); }
  close(a[0]); close(b[1]); to = fdopen(a[1], "w"); from = fdopen(b[0], "r"); return to && from ? 0 : -1;
}
static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static size_t unhex(u8 **o, size_t *cap, const char *s) { size_t n = strcspn(s, "\n") / 2; if (*cap < n + 1) *o = realloc(*o, *cap = n + 1); for (size_t i = 0; i < n; i++) (*o)[i] = (u8)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1])); return n; }
int v_em_asm(const char *code, int na, const double *arg) {
  e.calls++; if (na != 2) { stat_add("unexpected_arguments", 1); exit(9); } u8 *p = (u8 *)(uintptr_t)arg[0]; size_t n = (size_t)arg[1];
  fprintf(to, "%s %llx.%d %zu ", e.mode, (ull)e.seed, e.calls, n); for (const char *c = code; *c; c++) fprintf(to, "%02x", (u8)*c); fputc('\n', to); fflush(to);
  static char *l; static size_t cl; static u8 *hp; static size_t hc; int ret = 0, th = 0; if (getline(&l, &cl, from) < 0) exit(9); if (l[0] == 'T') { th = 1; set_add("thrown", "%.60s", l + 2); } else ret = atoi(l + 2);
  static u8 *part; static size_t pc; if (getline(&l, &cl, from) < 0) exit(9); size_t pn = unhex(&part, &pc, l + 2); if (cserved < nserved + pn + 1) served = realloc(served, cserved = nserved + pn + 4096); if (pn) memcpy(served + nserved, part, pn); nserved += pn;
  if (getline(&l, &cl, from) < 0) exit(9); size_t hn = unhex(&hp, &hc, l + 2); if (hn != n) exit(9); memcpy(p, hp, n); if (getline(&l, &cl, from) < 0) exit(9); int a = 0, b = 0; sscanf(l, "M %d %d", &a, &b); e.weak += a; e.touched += b;
  if (th) { e.thrown = 1; if (in_call) longjmp(thrown, 1); exit(9); } return ret;
}
static const char *setup(unsigned i) {
  static const struct { const char *m; int ok; } t[] = {{"browser", 1}, {"node", 1}, {"node+browser", 1}, {"browser+noreqfn", 1}, {"node+norequire", 0}, {"node+rbthrow", 0}, {"browser+gvthrow", 0}, {"browser+nocrypto", 0}, {"browser+nogv+noreqfn", 0}, {"node+browser+nocrypto", 1}, {"browser+gvlate", -1}, {"noreqfn", 0}};
  memset(&e, 0, sizeof e); unsigned k = i % 12; e.mode = t[k].m; e.healthy = t[k].ok; e.seed = r64(); nserved = 0; if (start()) exit(9); return e.mode;
}
static int possible(void) { return e.healthy != 0; } static int must(void) { return e.healthy == 1; }
static void settle(const char *what, const char *pl, int r) { if (e.touched) VIOL("outside-write", "%s (%s): %d heap bytes outside the buffer changed", what, pl, e.touched); if (e.weak) VIOL("weak-source", "%s (%s): Math.random was used", what, pl); stat_add("javascript_runs", e.calls); if (e.thrown) stat_add("javascript_exceptions", 1); }
#endif
/* call f; an exception thrown by the platform layer ends the call without success */
#if defined(H_PLAT_em)
#define GUARD(x) ({ volatile int r_ = -77; in_call = 1; if (!setjmp(thrown)) r_ = (x); in_call = 0; (int)r_; })
static void stream(u8 *o, size_t n) { memset(o, 0, n); if (nserved >= n) memcpy(o, served, n); }
static size_t drawn(void) { return nserved; }
#else
#define GUARD(x) (x)
static void stream(u8 *o, size_t n) { ent_bytes(o, 0, n); }
static size_t drawn(void) { return ent.pos; }
#endif
void drv_C24(void) {
#if defined(H_PLAT_em)
  if (system("node --version >/dev/null 2>&1")) { stat_add("node_missing", 1); return; }
#endif
  static const size_t edge[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 40, 63, 64, 65, 96, 127, 128, 160, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 200001, 262144};
  CASES("fill", i, h_count(960, 24000)) {
    size_t n = i < 480 ? edge[i / 12 % 40] : rn(4) ? rn(400) : rn(3) ? rn(5000) : 60000 + rn(150000); const char *pl = setup((unsigned)i); ent_reset(r64()); u8 *b = gb(G_OUT, n); cov = calloc(n + 1, 1); sh = calloc(n + 1, 1); cov_p = b; cov_n = n; deliveries = 0;
    u8 *old = malloc(n + 1); memcpy(old, b, n); int r = GUARD(randombytes(b, n)); cov_p = NULL; ev(1); stat_add("deliveries", deliveries); set_add("platform_states", PLAT ".%s.%s", pl, r ? "failed" : "filled"); set_add("lengths", "%zu", n);
    if (!r && n) {
      if (!possible()) VIOL("success-without-entropy", "%s (%s): randombytes(%zu) returned 0", PLAT, pl, n);
#if defined(H_PLAT_em)
      if (nserved < n || memcmp(served, b, n)) VIOL("not-the-source", "%s (%s): randombytes(%zu) returned 0 but the buffer is not what the platform's generator handed out (%zu bytes)", PLAT, pl, n, nserved);
#else
      size_t q = 0; if (ent.pos && !memchr(cov, 0, n)) { if (memcmp(b, sh, n)) VIOL("not-the-source", "%s (%s): randombytes(%zu): delivered bytes were changed", PLAT, pl, n); }
      else { u8 *x = malloc(n); ent_bytes(x, 0, n); if (ent.pos < n || memcmp(x, b, n)) { while (q < n && cov[q]) q++; VIOL("not-the-source", "%s (%s): randombytes(%zu) returned 0 but byte %zu on did not come from the platform's generator", PLAT, pl, n, q); } free(x); }
#endif
    }
    if (r && must()) VIOL("refused", "%s (%s): randombytes(%zu) failed (%d) although the source works", PLAT, pl, n, r);
    settle("randombytes", pl, r); gb_check("randombytes"); free(old); free(cov); free(sh); cov = sh = NULL; nontriv(h_hash(pl, strlen(pl)) ^ n * 0x9E3779B97F4A7C15ull);
    if (i == 5) sample("%s (%s): randombytes(%zu) = %d", PLAT, pl, n, r);
  }
  /* through the library: success means a result made of the delivered bytes, failure leaves nothing */
  CASES("library", i, h_count(96, 2400)) {
    const char *pl = setup((unsigned)i); ent_reset(r64()); int op = (int)(i / 12 % 4); static u8 pk[PKB], sk[SKB], sm[FULLMAX], pk2[PKB], sk2[SKB], sm2[FULLMAX], d[160]; u8 m[64]; ull l = 0; unsigned n = 1 + rn(64); const h_key *k = h_getkey((unsigned)i % 12); rpat(m, 64); memset(pk, 0xAB, PKB); memset(sk, 0xAB, SKB); memset(sm, 0xAB, FULLMAX); size_t need; int r, same = 1;
    if (op == 0) { need = 160; r = GUARD(hy_keypair(pk, sk)); } else if (op == 1) { need = 40; r = GUARD(hy_csign(sm, &l, m, n, k->sk)); } else if (op == 2) { need = 32; r = GUARD(crypto_sign_ed25519_keypair(pk, sk)); } else { need = 32; r = GUARD(dil_keypair(pk, sk)); }
    ev(1); if (!r) {
      if (!possible()) VIOL("success-without-entropy", "%s (%s): operation %d returned 0", PLAT, pl, op); if (drawn() < need) VIOL("success-without-entropy", "%s (%s): operation %d succeeded with %zu bytes of entropy", PLAT, pl, op, drawn());
      stream(d, need); if (op == 0) { ref_hybrid_keypair(pk2, sk2, d); same = eqb(pk, pk2, PKB) && eqb(sk, sk2, SKB); } else if (op == 1) { ref_compact_sign(sm2, m, n, k->sk, d, NULL); same = l == COMPACT(n) && eqb(sm, sm2, COMPACT(n)); } else if (op == 2) { ref_ed_keypair(pk2, sk2, d); same = eqb(pk, pk2, 32) && eqb(sk, sk2, 64); } else { ref_dil_keypair(pk2, sk2, d); same = eqb(pk, pk2, 1312) && eqb(sk, sk2, 2560); }
      if (!same) VIOL("not-the-source", "%s (%s): result of operation %d is not made of the delivered bytes", PLAT, pl, op);
    } else { if (must()) VIOL("refused", "%s (%s): operation %d failed (%d) although the source works", PLAT, pl, op, r); if (op == 1) for (unsigned q = 0; q < FULLMAX; q++) if (sm[q] != 0xAB) { VIOL("output-without-entropy", "%s (%s): failed signing wrote byte %u", PLAT, pl, q); break; } }
    settle("library call", pl, r); set_add("library_states", "%d.%s.%s", op, pl, r ? "failed" : "ok"); nontriv(h_hash(pl, strlen(pl)) + (uint64_t)i);
  }
#if !defined(H_PLAT_em)
  /* more bytes than the platform call takes at once: the same few pages mapped again and again */
  CASES("huge", i, 3) {
    size_t n = ((size_t)1 << 32) + (i == 0 ? 5 : i == 1 ? 0 : ((size_t)1 << 20)), blk = 64u << 20, len = ((n + blk - 1) / blk) * blk; int fd = memfd_create("huge", 0); if (fd < 0 || ftruncate(fd, (off_t)blk)) { stat_add("huge_unavailable", 1); continue; }
    u8 *b = mmap(NULL, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); int bad = b == MAP_FAILED; for (size_t o = 0; !bad && o < len; o += blk) if (mmap(b + o, blk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) bad = 1; close(fd); if (bad) { stat_add("huge_unavailable", 1); continue; }
    const char *pl = setup(i == 2 ? 4 : 0); huge = n; niv = 0; ent_reset(r64()); int r = randombytes(b, n); size_t got = reached(b, n); huge = 0; ev(1); wd_arm(); set_add("huge_states", PLAT ".%s", pl);
    if (!r && got < n) VIOL("not-the-source", "%s (%s): randombytes(%zu) returned 0 but only the first %zu bytes were requested from the platform", PLAT, pl, n, got); if (r && must()) VIOL("refused", "%s (%s): randombytes(%zu) failed (%d)", PLAT, pl, n, r); settle("randombytes", pl, r); munmap(b, len); nontriv(n);
  }
#endif
}
