#define _GNU_SOURCE
#include "h.h"
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <pthread.h>

uint64_t h_seed = 1; int h_thorough; double h_scale = 1; unsigned h_shard, h_nshard = 1; int h_nviol;
static char *state_map; static char cur_case[128] = "-"; static const char *only_case; static const char *h_drv = "?";
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int wd_secs = 120;

long h_count(long q, long t) { double v = (h_thorough ? t : q) * h_scale; return v < 1 ? 1 : (long)v; }

/* ---- rng: splitmix64 ---- */
_Thread_local h_rng R;
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
void r_seed(uint64_t a, uint64_t b) { R.s = mix(a + 0x9e3779b97f4a7c15ULL) ^ mix(b ^ 0xd1b54a32d192ed03ULL); }
uint64_t r64(void) { return mix(R.s += 0x9e3779b97f4a7c15ULL); }
void rbytes(void *p, size_t n) { u8 *o = p; while (n) { uint64_t v = r64(); for (int i = 0; i < 8 && n; i++, n--) { *o++ = (u8)v; v >>= 8; } } }
int rpat(void *p, size_t n) {
  u8 *o = p; int c = (int)rn(20); if (!n) return c;
  switch (c) {
    case 0: memset(o, 0, n); break;
    case 1: memset(o, 0xff, n); break;
    case 2: memset(o, 0, n); o[rn(n)] = (u8)(1u << rn(8)); break;
    case 3: memset(o, 0xff, n); o[rn(n)] ^= (u8)(1u << rn(8)); break;
    case 4: memset(o, (int)rn(256), n); break;
    case 5: for (size_t i = 0; i < n; i++) o[i] = (u8)i; break;
    case 6: rbytes(o, n); memset(o, 0, 1 + rn((uint32_t)n)); break;           /* zero prefix */
    case 7: rbytes(o, n); { size_t k = 1 + rn((uint32_t)n); memset(o + n - k, 0, k); } break; /* zero suffix */
    case 8: for (size_t i = 0; i < n; i++) o[i] = (u8)(32 + rn(95)); break;
    case 9: for (size_t i = 0; i < n; i++) o[i] = rn(2) ? 0xff : 0x00; break;
    case 10: for (size_t i = 0; i < n; i++) o[i] = rn(2) ? 0x80 : 0x7f; break;
    case 11: rbytes(o, n); o[0] = (u8)(1 + rn(2)); if (n > 1) o[1] = (u8)(rn(2) ? n : rn(66)); break; /* looks like a signature header */
    case 12: { size_t k = n > 1 && rn(2) ? (n + 1) / 2 : 1 + rn(8); rbytes(o, k < n ? k : n); for (size_t i = k; i < n; i++) o[i] = o[i - k]; } break; /* periodic, or two equal halves */
    case 13: rbytes(o, n); o[rn((uint32_t)n)] = 0; break;                      /* text cut short by a zero byte */
    case 14: rbytes(o, n); memset(o + rn((uint32_t)n), (int)o[0], 1); o[n - 1] = (u8)(rn(2) ? 0xff : 0x80); break;
    case 15: memset(o, 0, n); o[0] = (u8)(1 + rn(255)); if (rn(2)) o[n - 1] = (u8)(1 + rn(255)); break;
    default: rbytes(o, n);
  }
  return c;
}
uint64_t h_hash(const void *p, size_t n) { const u8 *b = p; uint64_t h = 0xcbf29ce484222325ULL ^ n; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL; return mix(h); }

/* ---- cases ---- */
void wd_arm(void) { if (!wd_secs) return; struct itimerval t = {{0, 0}, {wd_secs, 0}}; setitimer(ITIMER_PROF, &t, NULL); }
u8 *win_map(size_t n, size_t win) {
  size_t len = (n + win - 1) / win * win; int fd = memfd_create("win", 0); if (fd < 0) return NULL;
  u8 *b = ftruncate(fd, (off_t)win) ? MAP_FAILED : mmap(NULL, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { close(fd); return NULL; }
  for (size_t o = 0; o < len; o += win) if (mmap(b + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(b, len); close(fd); return NULL; }
  close(fd); return b;
}
void win_unmap(u8 *p, size_t n, size_t win) { munmap(p, (n + win - 1) / win * win); }
void wd_long(int secs) { if (!wd_secs) return; struct itimerval t = {{0, 0}, {secs, 0}}; setitimer(ITIMER_PROF, &t, NULL); }
static void on_wd(int s) {
  (void)s; char b[256]; int n = snprintf(b, sizeof b, "\nVIOL hang case=%s no progress within %d s of CPU time\n", cur_case, wd_secs);
  if (write(1, b, (size_t)n) < 0) {} _exit(7);
}
int h_case_begin(const char *sec, long idx) {
  if (only_case) { snprintf(cur_case, sizeof cur_case, "%s:%ld", sec, idx); if (strcmp(cur_case, only_case)) return 0; }
  else { if ((unsigned long)idx % h_nshard != h_shard) return 0; snprintf(cur_case, sizeof cur_case, "%s:%ld", sec, idx); }
  if (h_nviol >= 40) return 0;
  if (state_map) memcpy(state_map, cur_case, sizeof cur_case);
  r_seed(h_seed * 1000003ULL + (uint64_t)idx, h_hash(sec, strlen(sec)));
  ent_reset(r64()); wd_arm();
  return 1;
}
const char *h_case(void) { return cur_case; }

/* ---- events ---- */
void VIOL(const char *key, const char *fmt, ...) {
  pthread_mutex_lock(&mu); h_nviol++;
  if (h_nviol <= 60) { va_list a; va_start(a, fmt); printf("VIOL %s case=%s ", key, cur_case); vprintf(fmt, a); printf("\n"); fflush(stdout); va_end(a); }
  pthread_mutex_unlock(&mu);
}
/* a violation that is listed as a known finding: reported, but it does not use up the process's budget of violations */
void KNOWNV(const char *key, const char *fmt, ...) {
  static int n; pthread_mutex_lock(&mu);
  if (n++ < 20) { va_list a; va_start(a, fmt); printf("VIOL %s case=%s ", key, cur_case); vprintf(fmt, a); printf("\n"); fflush(stdout); va_end(a); }
  pthread_mutex_unlock(&mu);
}
static long n_ev;
void ev(long n) { __atomic_add_fetch(&n_ev, n, __ATOMIC_RELAXED); }
static struct { char name[48]; long n; } st[256]; static int nst;
void stat_add(const char *name, long n) {
  pthread_mutex_lock(&mu); int i; for (i = 0; i < nst; i++) if (!strcmp(st[i].name, name)) break;
  if (i == nst && nst < 256) { snprintf(st[nst].name, 48, "%s", name); nst++; }
  if (i < 256) st[i].n += n;
  pthread_mutex_unlock(&mu);
}
typedef struct { uint64_t *t; size_t cap, n; } hset;
static int hs_add(hset *s, uint64_t v) {
  if (!v) v = 1;
  if (s->n * 2 >= s->cap) { size_t nc = s->cap ? s->cap * 2 : 1024; uint64_t *nt = calloc(nc, 8); for (size_t i = 0; i < s->cap; i++) if (s->t[i]) { size_t k = s->t[i] % nc; while (nt[k]) k = (k + 1) % nc; nt[k] = s->t[i]; } free(s->t); s->t = nt; s->cap = nc; }
  size_t k = v % s->cap; while (s->t[k]) { if (s->t[k] == v) return 0; k = (k + 1) % s->cap; } s->t[k] = v; s->n++; return 1;
}
static hset sets, nts;
void set_add(const char *name, const char *fmt, ...) {
  char v[160]; va_list a; va_start(a, fmt); vsnprintf(v, sizeof v, fmt, a); va_end(a);
  pthread_mutex_lock(&mu); int sv = mem.on; mem.on = 0;
  if (hs_add(&sets, h_hash(name, strlen(name)) * 31 ^ h_hash(v, strlen(v)))) printf("SET %s %s\n", name, v);
  mem.on = sv; pthread_mutex_unlock(&mu);
}
void nontriv(uint64_t h) { pthread_mutex_lock(&mu); int sv = mem.on; mem.on = 0; hs_add(&nts, h); mem.on = sv; pthread_mutex_unlock(&mu); }
static int n_sample;
void sample(const char *fmt, ...) {
  if (n_sample >= 3) return;
  n_sample++; va_list a; va_start(a, fmt); printf("SAMPLE [%s] ", cur_case); vprintf(fmt, a); printf("\n"); va_end(a);
}
const char *hex(const void *p, size_t n) {
  static _Thread_local char b[8][160]; static _Thread_local int k; char *o = b[k = (k + 1) & 7]; const u8 *s = p; size_t m = n > 40 ? 40 : n, j = 0;
  for (size_t i = 0; i < m; i++) j += (size_t)sprintf(o + j, "%02x", s[i]);
  if (m < n) sprintf(o + j, "..(%zu)", n); else o[j] = 0;
  if (!n) strcpy(o, "-");
  return o;
}

/* ---- guarded buffers ---- */
#define CAN 64
static struct { u8 *map; size_t maplen; u8 *p; size_t n; u8 pat; int ro; } g[G_SLOTS];
static u8 patb(int slot, size_t i) { return (u8)(0xA5 ^ (slot * 29) ^ (u8)(i * 7) ^ g[slot].pat); }
u8 *gb(int slot, size_t n) {
#if defined(H_ASAN) || defined(H_MSAN)
  if (g[slot].map) free(g[slot].map); static unsigned turn; turn = turn * 1103515245u + 12345u; size_t off = slot == G_LEN || (turn >> 16 & 8) ? 0 : turn >> 16 & 7; /* byte buffers have no alignment */
  g[slot].map = malloc(n + off ? n + off : 1); g[slot].maplen = off; for (size_t i = 0; i < off; i++) g[slot].map[i] = (u8)(0x5C ^ i); g[slot].p = g[slot].map + off; g[slot].n = n;
#else
  gb_rw(slot); size_t need = ((n + CAN + 4095) & ~(size_t)4095);
  if (g[slot].maplen < need + 4096 || !g[slot].map) {
    if (g[slot].map) munmap(g[slot].map, g[slot].maplen);
    g[slot].maplen = need + 4096; g[slot].map = mmap(NULL, g[slot].maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g[slot].map == MAP_FAILED) { perror("mmap"); exit(9); }
    mprotect(g[slot].map + g[slot].maplen - 4096, 4096, PROT_NONE);
  }
  g[slot].p = g[slot].map + g[slot].maplen - 4096 - n; g[slot].n = n;
  for (int i = 1; i <= CAN; i++) g[slot].p[-i] = (u8)(0x5C ^ i);
#endif
  g[slot].pat = (u8)r64(); gb_fill(slot);
  return g[slot].p;
}
void gb_ro(int slot) {
#if !defined(H_ASAN) && !defined(H_MSAN)
  if (g[slot].map) { mprotect(g[slot].map, g[slot].maplen - 4096, PROT_READ); g[slot].ro = 1; }
#endif
}
void gb_rw(int slot) {
#if !defined(H_ASAN) && !defined(H_MSAN)
  if (g[slot].map && g[slot].ro) { mprotect(g[slot].map, g[slot].maplen - 4096, PROT_READ | PROT_WRITE); g[slot].ro = 0; }
#endif
}
void XCHK(const char *name, const void *p, size_t n) { printf("XCHK %s=%s %016llx\n", cur_case, name, (ull)h_hash(p, n)); }
void gb_fill(int slot) {
  for (size_t i = 0; i < g[slot].n; i++) g[slot].p[i] = patb(slot, i);
#ifdef H_MSAN
  __msan_poison(g[slot].p, g[slot].n);
#endif
}
int gb_untouched(int slot) {
#ifdef H_MSAN
  for (size_t i = 0; i < g[slot].n; i++) { if (__msan_test_shadow(g[slot].p + i, 1) != 0) return 0; } return 1;
#else
  for (size_t i = 0; i < g[slot].n; i++) if (g[slot].p[i] != patb(slot, i)) return 0;
  return 1;
#endif
}
size_t gb_size(int slot) { return g[slot].n; }
u8 *gb_ptr(int slot) { return g[slot].p; }
u8 *gb_dup(int slot, const void *src, size_t n) { u8 *p = gb(slot, n); if (n) memcpy(p, src, n); return p; }
void gb_check(const char *what) {
#if !defined(H_ASAN) && !defined(H_MSAN)
  for (int s = 0; s < G_SLOTS; s++) if (g[s].map) for (int i = 1; i <= CAN; i++) if (g[s].p[-i] != (u8)(0x5C ^ i)) { VIOL("underrun", "%s wrote %d bytes before buffer slot %d", what, i, s); g[s].p[-i] = (u8)(0x5C ^ i); }
#else
  for (int s = 0; s < G_SLOTS; s++) if (g[s].map) for (size_t i = 0; i < g[s].maplen; i++) if (g[s].map[i] != (u8)(0x5C ^ i)) { VIOL("underrun", "%s wrote before buffer slot %d", what, s); g[s].map[i] = (u8)(0x5C ^ i); }
#endif
}
void h_defined(const void *p, size_t n) {
#ifdef H_MSAN
  __msan_check_mem_is_initialized((void *)p, n);
#else
  (void)p; (void)n;
#endif
}

/* ---- entropy monitor ---- */
_Thread_local h_ent ent; int h_taint;
#ifdef H_VG
#include <valgrind/memcheck.h>
#endif
void ent_reset(uint64_t key) { memset(&ent, 0, sizeof ent); ent.key = key; }
void ent_script(uint64_t key, const u8 *p, size_t n) { ent_reset(key); ent.script = p; ent.nscript = n; }
void ent_bytes(u8 *out, size_t from, size_t n) {
  for (size_t i = 0; i < n; i++) { size_t q = from + i; if (q < ent.nscript) out[i] = ent.script[q]; else { q -= ent.nscript; out[i] = (u8)(mix(ent.key + (q >> 3) * 0x9e3779b97f4a7c15ULL) >> (8 * (q & 7))); } }
}
static ssize_t deliver(void *buf, size_t n) {
  size_t give = n; unsigned c = ent.calls++;
  if (ent.plan) { int e = ent.plan(ent.ctx, c, n, &give); if (e) { if (e == EINTR) ent.eintr++; else ent.fails++; errno = e; return -1; } }
  if (give > n) give = n;
  if (give < n) ent.shorts++;
  if (give > 0x1ffffff) give = 0x1ffffff; /* kernel limit */
  ent_bytes(buf, ent.pos, give); ent.pos += give;
#ifdef H_VG
  if (h_taint) VALGRIND_MAKE_MEM_UNDEFINED(buf, give);
#endif
  return (ssize_t)give;
}
#ifndef H_NO_ENT
ssize_t getrandom(void *buf, size_t n, unsigned flags) { (void)flags; return deliver(buf, n); }
int getentropy(void *buf, size_t n) { u8 *p = buf; if (n > 256) { errno = EIO; return -1; } while (n) { ssize_t r = deliver(p, n); if (r < 0) { if (errno == EINTR) continue; return -1; } p += r; n -= (size_t)r; } return 0; }
void arc4random_buf(void *buf, size_t n) { u8 *p = buf; while (n) { ssize_t r = deliver(p, n); if (r > 0) { p += r; n -= (size_t)r; } } }
uint32_t arc4random(void) { uint32_t v; arc4random_buf(&v, 4); return v; }
#endif
ssize_t h_deliver(void *buf, size_t n) { return deliver(buf, n); }

/* ---- allocation ledger ---- */
_Thread_local h_mem mem; _Thread_local void (*h_free_hook)(void *);
#ifdef H_WRAP
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define LTAB 4096
static _Thread_local struct { void *p; size_t n; } lt[LTAB];
static void lt_add(void *p, size_t n) { mem.mallocs++; mem.live++; mem.live_bytes += (long)n; if (mem.live > mem.peak) mem.peak = mem.live; for (int i = 0; i < LTAB; i++) if (!lt[i].p) { lt[i].p = p; lt[i].n = n; return; } }
static void lt_del(void *p) { for (int i = 0; i < LTAB; i++) if (lt[i].p == p) { lt[i].p = NULL; mem.live--; mem.live_bytes -= (long)lt[i].n; mem.frees++; return; } }
static int failing(void) { return mem.on && mem.fail_at && (mem.mallocs + 1 == mem.fail_at || (mem.fail_from && mem.mallocs + 1 > mem.fail_at)); }
#if !defined(H_MSAN) && !defined(H_VG)
static _Thread_local u8 junkc; static void junk(void *p, size_t n) { if (p && mem.on) memset(p, junkc += 73, n); } /* recycled heap memory holds arbitrary bytes */
#else
#define junk(p, n) ((void)0)
#endif
void *__wrap_malloc(size_t n) { if (failing()) { mem.mallocs++; errno = ENOMEM; return NULL; } void *p = __real_malloc(n); junk(p, n); if (mem.on && p) lt_add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (failing()) { mem.mallocs++; errno = ENOMEM; return NULL; } void *p = __real_calloc(a, b); if (mem.on && p) lt_add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (failing()) { mem.mallocs++; errno = ENOMEM; return NULL; } if (h_free_hook && q) h_free_hook(q); if (mem.on && q) lt_del(q); void *p = __real_realloc(q, n); if (mem.on && p) lt_add(p, n); return p; }
void __wrap_free(void *p) { if (h_free_hook) h_free_hook(p); if (mem.on && p) lt_del(p); __real_free(p); }
static void lt_reset(void) { memset(lt, 0, sizeof lt); }
#else
static void lt_reset(void) {}
#endif
void mem_begin(void) { memset(&mem, 0, sizeof mem); lt_reset(); mem.on = 1; }
void mem_end(void) { mem.on = 0; }

/* ---- convenience ---- */
const h_key *h_getkey(unsigned i) {
  static _Thread_local h_key *k[H_NKEYS]; i %= H_NKEYS;
  if (!k[i]) { h_rng sv = R; r_seed(i < H_FIXED ? 0x66697865 : h_seed, 0x6b657900 + i); k[i] = malloc(sizeof **k);
    if (i < 12) { k[i]->cls = 99; rbytes(k[i]->seed, 160); } else k[i]->cls = rpat(k[i]->seed, 160);
    ref_hybrid_keypair(k[i]->pk, k[i]->sk, k[i]->seed); R = sv; }
  return k[i];
}
/* full signatures by the first H_FIXED keys come from a file made with the reference model (tools/mkfull.sh), all lengths; others are made when asked for */
static const u8 *fixed_sigs;
static void fixed_open(void) { const char *p = getenv("H_FIXED_SIGS"); FILE *f; if (!p || !*p || !(f = fopen(p, "rb"))) return; size_t n = H_FIXED * (64 * FULL(0) + 64 * 65 / 2); u8 *b = malloc(n); if (fread(b, 1, n, f) == n && fgetc(f) == EOF) fixed_sigs = b; else free(b); fclose(f); }
const u8 *h_fullsig(unsigned key, unsigned n, const u8 **msg) {
  static _Thread_local u8 *c[H_NKEYS][65]; key %= H_NKEYS;
  if (key < H_FIXED && fixed_sigs) { const u8 *s = fixed_sigs + key * (64 * FULL(0) + 64 * 65 / 2) + (n - 1) * FULL(0) + n * (n - 1) / 2; if (msg) *msg = s + 66; return s; }
  if (!c[key][n]) { h_rng sv = R; r_seed(key < H_FIXED ? 0x66697865 : h_seed + key, 0x66756c00 + n); u8 m[64], o[32]; if (key == 1) rpat(m, n); else rbytes(m, n); rbytes(o, 32); c[key][n] = malloc(FULL(n)); ref_full_sign(c[key][n], m, n, h_getkey(key)->sk, o, NULL); R = sv; }
  if (msg) *msg = c[key][n] + 66;
  return c[key][n];
}
__attribute__((noinline)) void dirty_stack(int byte) {
#if !defined(H_MSAN) && !defined(H_ASAN)
  volatile u8 b[200000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (u8)(byte < 0 ? (int)r64() : byte);
#else
  (void)byte;
#endif
}

/* ---- main ---- */
typedef struct { const char *name; void (*fn)(void); } h_driver;
extern const h_driver h_drivers[];
int main(int argc, char **argv) {
  const char *s; h_drv = argc > 1 ? argv[1] : "";
  if ((s = getenv("VERIF_SEED"))) h_seed = strtoull(s, NULL, 10);
  if ((s = getenv("VERIF_TIER"))) h_thorough = !strcmp(s, "thorough");
  if ((s = getenv("H_SCALE"))) h_scale = atof(s);
  if ((s = getenv("H_WD"))) wd_secs = atoi(s);
  for (int i = 2; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--shard")) sscanf(argv[i + 1], "%u/%u", &h_shard, &h_nshard);
    else if (!strcmp(argv[i], "--case")) only_case = argv[i + 1];
    else if (!strcmp(argv[i], "--seed")) h_seed = strtoull(argv[i + 1], NULL, 10);
    else if (!strcmp(argv[i], "--tier")) h_thorough = !strcmp(argv[i + 1], "thorough");
    else if (!strcmp(argv[i], "--state")) { int fd = open(argv[i + 1], O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 4096)) {} state_map = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (state_map == MAP_FAILED) state_map = NULL; }
  }
  static char ob[1 << 16]; setvbuf(stdout, ob, _IOLBF, sizeof ob);
  fixed_open();
  if (wd_secs) signal(SIGPROF, on_wd);
  for (const h_driver *d = h_drivers; d->name; d++) if (!strcmp(d->name, h_drv)) {
    d->fn();
    for (int i = 0; i < nst; i++) printf("STAT %s %ld\n", st[i].name, st[i].n);
    printf("STAT evaluations %ld\nSTAT distinct_nontrivial %zu\nDONE\n", n_ev, nts.n);
    fflush(stdout); return 0;
  }
  fprintf(stderr, "unknown driver %s\n", h_drv); return 9;
}
