#define _GNU_SOURCE
#include "steer.h"
#define OCC 24
#define NE 6000
#define HB 16384
u8 G[GMAX]; int st_rec, st_mute;
typedef struct { uintptr_t pc; uint64_t c; u8 w, kind; unsigned cnt; uint64_t a[OCC], b[OCC]; u8 blob[2][16]; } cent;
typedef struct { int n; cent e[NE]; int hb[HB]; } ctab;
static ctab *cur; static uint8_t *cov, *covall; static uint32_t ncov; static unsigned newcov;
static void rec(uintptr_t pc, unsigned w, uint64_t c, uint64_t v, int kind) {
  uint64_t h = (pc * 0x9e3779b97f4a7c15ULL ^ (kind ? 0 : c * 0xd1b54a32d192ed03ULL)); unsigned k = (unsigned)(h >> 40) % HB; cent *e;
  for (;; k = (k + 1) % HB) { int i = cur->hb[k]; if (!i) { if (cur->n >= NE) return; cur->hb[k] = ++cur->n; e = &cur->e[cur->n - 1]; e->pc = pc; e->c = c; e->w = (u8)w; e->kind = (u8)kind; e->cnt = 0; break; } e = &cur->e[i - 1]; if (e->pc == pc && e->kind == kind && (kind || e->c == c)) break; }
  unsigned q = e->cnt++; if (q < OCC) { e->a[q] = v; e->b[q] = c; }
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define HOOK(n, w, T) void __sanitizer_cov_trace_const_cmp##n(T c, T v) { if (st_rec && cur) rec(PC, w, c, v, 0); } void __sanitizer_cov_trace_cmp##n(T a, T b) { if (st_rec && cur && a != b) rec(PC, w, b, a, 1); }
HOOK(1, 1, uint8_t) HOOK(2, 2, uint16_t) HOOK(4, 4, uint32_t) HOOK(8, 8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { if (!st_rec || !cur) return; unsigned w = (unsigned)(c[1] / 8); for (uint64_t i = 0; i < c[0] && i < 64; i++) rec(PC + i, w, c[2 + i], v, 0); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; uint32_t o = ncov; for (; a < b; a++) *a = ++ncov; cov = realloc(cov, ncov + 1); covall = realloc(covall, ncov + 1); memset(cov + o, 0, ncov + 1 - o); memset(covall + o, 0, ncov + 1 - o); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (st_rec && *g && !cov[*g]) { cov[*g] = 1; if (!covall[*g]) { covall[*g] = 1; newcov++; } } }
/* memory comparisons: the first 16 bytes */
int __real_memcmp(const void *, const void *, size_t);
static int mcmp(const void *a, const void *b, size_t n, uintptr_t pc) {
  if (st_rec && cur && n >= 2) { int sv = st_rec; st_rec = 0; size_t l = n < 16 ? n : 16; rec(pc, (unsigned)l, 0, n, 2); unsigned k; for (k = 0; k < (unsigned)cur->n; k++) if (cur->e[k].pc == pc && cur->e[k].kind == 2) break; if (k < (unsigned)cur->n && cur->e[k].cnt == 1) { memcpy(cur->e[k].blob[0], a, l); memcpy(cur->e[k].blob[1], b, l); } st_rec = sv; }
  return __real_memcmp(a, b, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) { return mcmp(a, b, n, PC); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return mcmp(a, b, n, PC); }

typedef struct { unsigned pos, n; u8 v[16]; } ovr;
typedef struct { uintptr_t pc; unsigned pos, n; u8 val[16]; int fix; uint64_t c; } target;
static ctab *tab[5]; static u8 gs[4][GMAX]; static long st_execs; static unsigned st_cur_budget; static char st_desc[300];
static uint64_t *tried; static size_t ntried, ctried;
static int try_once(uint64_t h) { if (!h) h = 1; if (ntried * 2 >= ctried) { size_t nc = ctried ? ctried * 2 : 4096; uint64_t *t = calloc(nc, 8); for (size_t i = 0; i < ctried; i++) if (tried[i]) { size_t k = tried[i] % nc; while (t[k]) k = (k + 1) % nc; t[k] = tried[i]; } free(tried); tried = t; ctried = nc; } size_t k = h % ctried; while (tried[k]) { if (tried[k] == h) return 0; k = (k + 1) % ctried; } tried[k] = h; ntried++; return 1; }
static void fill(const st_op *o, long idx, unsigned len, int salt, u8 *g) { h_rng sv = R; r_seed(h_seed * 77 + (uint64_t)idx * 4 + (uint64_t)salt, h_hash(o->name, strlen(o->name)) + len); rbytes(g, o->gn); R = sv; }
static unsigned run(const st_op *o, long idx, unsigned len, const u8 *g, const ovr *ov, int nov, ctab *t) {
  memcpy(G, g, o->gn); st_desc[0] = 0; for (int i = 0; i < nov; i++) { memcpy(G + ov[i].pos, ov[i].v, ov[i].n); size_t l = strlen(st_desc); if (l < 240) snprintf(st_desc + l, sizeof st_desc - l, " [%u..%u]=%s", ov[i].pos, ov[i].pos + ov[i].n - 1, hex(ov[i].v, ov[i].n)); }
  t->n = 0; memset(t->hb, 0, sizeof t->hb); cur = t; newcov = 0; memset(cov, 0, ncov + 1); wd_arm(); r_seed(h_seed + (uint64_t)idx, 0x57ee5 + len); int before = h_nviol;
  o->fn(idx, len); cur = NULL; st_execs++; ev(1);
  if (h_nviol > before) printf("NOTE %s: operation %s, index %ld, length %u, steered bytes%s\n", h_case(), o->name, idx, len, nov ? st_desc : " none");
  return newcov;
}
static cent *look(ctab *t, const cent *k) { uint64_t h = (k->pc * 0x9e3779b97f4a7c15ULL ^ (k->kind ? 0 : k->c * 0xd1b54a32d192ed03ULL)); for (unsigned i = (unsigned)(h >> 40) % HB; t->hb[i]; i = (i + 1) % HB) { cent *e = &t->e[t->hb[i] - 1]; if (e->pc == k->pc && e->kind == k->kind && (k->kind || e->c == k->c)) return e; } return NULL; }
static int byteval(uint64_t v, unsigned w) { if (v < 256) return 1; if (w == 4 && (uint32_t)v >= 0xffffff80u) return 1; return w == 8 && v >= 0xffffffffffffff80ULL; }
static int at(const u8 *g, unsigned p, unsigned n, int be, uint64_t v) { for (unsigned i = 0; i < n; i++) if (g[p + (be ? n - 1 - i : i)] != (u8)(v >> (8 * i))) return 0; return 1; }
static void put(target *t, unsigned pos, unsigned n, int be, uint64_t v, const cent *e) { t->pc = e->pc; t->pos = pos; t->n = n; t->c = e->c; for (unsigned i = 0; i < n; i++) t->val[be ? n - 1 - i : i] = (u8)(v >> (8 * i)); }
#define MT 400
/* which genome bytes does a compared value follow? */
static int match(const st_op *o, ctab **T, target *out, const ovr *ov, int nov) {
  int nt = 0;
  for (int i = 0; i < T[0]->n && nt < MT - 4; i++) {
    cent *e0 = &T[0]->e[i], *e1 = look(T[1], e0), *e2 = look(T[2], e0); if (!e1 || !e2) continue;
    if (e0->kind == 2) { unsigned l = e0->w; for (int s = 0; s < 2; s++) for (unsigned p = 0; p + l <= o->gn; p++) if (!__real_memcmp(gs[0] + p, e0->blob[s], l) && !__real_memcmp(gs[1] + p, e1->blob[s], l)) { target *t = &out[nt++]; t->pc = e0->pc; t->pos = p; t->n = l; t->c = 0; memcpy(t->val, e0->blob[!s], l); t->fix = 1; if (nt >= MT - 4) return nt; } continue; }
    unsigned oc = e0->cnt < e1->cnt ? e0->cnt : e1->cnt; if (e2->cnt < oc) oc = e2->cnt; if (oc > OCC) oc = OCC;
    for (unsigned k = 0; k < oc; k++) for (int side = 0; side < (e0->kind ? 2 : 1); side++) {
      uint64_t v0 = side ? e0->b[k] : e0->a[k], v1 = side ? e1->b[k] : e1->a[k], v2 = side ? e2->b[k] : e2->a[k], want = side ? e0->a[k] : e0->kind ? e0->b[k] : e0->c; if (v0 == v1 || v0 == v2 || v1 == v2) continue;
      unsigned W[3], nw = 0; if (byteval(v0, e0->w) && byteval(v1, e0->w) && byteval(v2, e0->w)) W[nw++] = 1; else { if (e0->w >= 2 && v0 < 65536 && v1 < 65536 && v2 < 65536) W[nw++] = 2; else if (e0->w == 2) W[nw++] = 2; else if (e0->w == 4) W[nw++] = 4; else { W[nw++] = 8; if (v0 >> 32 == 0 && v1 >> 32 == 0 && v2 >> 32 == 0) W[nw++] = 4; } }
      for (unsigned q = 0; q < nw; q++) { unsigned n = W[q]; for (unsigned p = 0; p + n <= o->gn; p++) for (int be = 0; be < (n > 1 ? 2 : 1); be++) if (at(gs[0], p, n, be, v0) && at(gs[1], p, n, be, v1) && at(gs[2], p, n, be, v2)) {
        int pinned = 0; for (int z = 0; z < nov; z++) if (p < ov[z].pos + ov[z].n && ov[z].pos < p + n) pinned = 1; if (pinned || nt >= MT - 4) continue;
        static const int d[] = {0, 1, -1}; for (int x = 0; x < 3; x++) { put(&out[nt], p, n, be, want + (uint64_t)(int64_t)d[x], e0); out[nt++].fix = x == 0; } } }
    }
  }
  return nt;
}
static int same_t(const target *a, const target *b) { return a->pos == b->pos && a->n == b->n && !__real_memcmp(a->val, b->val, a->n); }
static void tov(ovr *o, const target *t) { o->pos = t->pos; o->n = t->n; memcpy(o->v, t->val, t->n); }
static long base_left;
static void explore(const st_op *o, long idx, unsigned len, ovr *ov, int nov, int depth) {
  for (int s = 0; s < 3; s++) { fill(o, idx, len, s, gs[s]); for (int z = 0; z < nov; z++) memcpy(gs[s] + ov[z].pos, ov[z].v, ov[z].n); if (base_left-- <= 0) return; run(o, idx, len, gs[s], ov, nov, tab[s]); }
  static target T[5][MT]; target *t = T[depth]; int n = match(o, tab, t, ov, nov), m = 0;
  for (int i = 0; i < n; i++) { int dup = 0; for (int j = 0; j < m && !dup; j++) dup = same_t(&t[i], &t[j]); if (!dup) t[m++] = t[i]; } n = m; stat_add("comparisons_steered", n); u8 g0[GMAX]; memcpy(g0, gs[0], o->gn);
  for (int i = 0; i < n && h_nviol < 8; i++) {
    /* the same decision at the same place needs only a few tries in the whole process */
    int fresh = 0; for (int q = 0; q < 6 && !fresh; q++) fresh = try_once((t[i].pc * 31 + t[i].c) * 1000003 + t[i].pos * 64 + (uint64_t)q * 7919 + t[i].val[0] * 131 + (uint64_t)(uintptr_t)o); if (!fresh) continue;
    if (base_left-- <= 0) return; tov(&ov[nov], &t[i]); unsigned nw = run(o, idx, len, g0, ov, nov + 1, tab[3]); set_add("steered", "%s@%u", o->name, t[i].pos);
    int newkey = nw > 0; if (!newkey) for (int k = 0; k < tab[3]->n && !newkey; k++) if (!look(tab[0], &tab[3]->e[k])) newkey = 1;
    if (newkey && depth < 4 && nov < 8) { stat_add("steered_into_new_code", 1); explore(o, idx, len, ov, nov + 1, depth + 1); for (int s = 0; s < 3; s++) fill(o, idx, len, s, gs[s]); tov(&ov[nov], &t[i]); run(o, idx, len, g0, ov, nov, tab[0]); }
  }
  /* several at once: neighbours in the code, and all of them */
  int f[MT], nf = 0; for (int i = 0; i < n; i++) if (t[i].fix) { int ok = 1; for (int j = 0; j < nf && ok; j++) if (t[f[j]].pos < t[i].pos + t[i].n && t[i].pos < t[f[j]].pos + t[f[j]].n) ok = 0; if (ok) f[nf++] = i; }
  for (int i = 0; i < nf; i++) for (int j = i; j > 0 && t[f[j]].pc < t[f[j - 1]].pc; j--) { int x = f[j]; f[j] = f[j - 1]; f[j - 1] = x; }
  for (int wd = 2; wd <= 4 && nf >= wd; wd++) for (int i = 0; i + wd <= nf && h_nviol < 8; i++) { if (nov + wd > 11) break; uint64_t key = (uint64_t)wd; for (int z = 0; z < wd; z++) { tov(&ov[nov + z], &t[f[i + z]]); key = key * 1000003 + t[f[i + z]].pc * 31 + t[f[i + z]].pos; } if (!try_once(key) || base_left-- <= 0) continue; run(o, idx, len, g0, ov, nov + wd, tab[3]); stat_add("steered_together", 1); }
  if (nf > 4 && nov + nf <= 60 && base_left-- > 0) { for (int z = 0; z < nf; z++) tov(&ov[nov + z], &t[f[z]]); run(o, idx, len, g0, ov, nov + nf, tab[3]); }
}
void st_explore(const st_op *o, long idx, unsigned len) {
  for (int i = 0; i < 5; i++) if (!tab[i]) tab[i] = calloc(1, sizeof **tab); static ovr ov[80]; if (!cov) { cov = calloc(1, 8); covall = calloc(1, 8); }
  unsigned q[24]; int nq = 0; q[nq++] = len; long b0 = h_thorough ? 3000 : 240; if (o->cost > 1) b0 /= o->cost; base_left = b0; long x0 = st_execs;
  for (int i = 0; i < nq && base_left > 0; i++) {
    explore(o, idx, q[i], ov, 0, 0); /* lengths the library compares with */
    for (int k = 0; k < tab[0]->n && nq < 20; k++) { cent *e = &tab[0]->e[k]; if (e->kind || !e->cnt) continue; for (int z = 0; z < 4; z++) { if (z && !o->loff[z]) continue; for (unsigned c = 0; c < (e->cnt < OCC ? e->cnt : OCC); c++) if (e->a[c] == (uint64_t)q[i] + o->loff[z]) { for (int d = -1; d <= 1; d++) { int64_t l = (int64_t)e->c - (int64_t)o->loff[z] + d; if (l < (int64_t)o->lmin || l > (int64_t)o->lmax || nq >= 20) continue; if (try_once((uint64_t)l * 1000003 + (uint64_t)(uintptr_t)o)) { q[nq++] = (unsigned)l; set_add("lengths_steered_to", "%s:%ld", o->name, (long)l); } } break; } } }
  }
  stat_add("steered_executions", st_execs - x0); nontriv(h_hash(o->name, strlen(o->name)) * 31 + (uint64_t)idx * 1000003 + len); set_add("steered_ops", "%s", o->name);
}
