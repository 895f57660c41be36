/* Monitors shared by all drivers.  Only public headers of /repo are used. */
#ifndef H_H
#define H_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ref.h"
#include "hybrid-dilithium-sphincs/hybrid.h"
#include "dilithium2/api.h"
#include "sphincs/api.h"
#include "tweetnacl/tweetnacl.h"
#include "common/fips202.h"
#include "common/shake_prng.h"
#include "random/randombytes.h"

typedef unsigned char u8;
typedef unsigned long long ull;

/* sizes of the documented formats */
#define PKB 1408
#define SKB 4064
#define SEEDB 160
#define COMPACT(n) (2526u + (unsigned)(n))
#define FULL(n) (52342u + (unsigned)(n))
#define FULLMAX 52406
#define COMPACTMAX 2590
#define DSIG 2420
#define SSIG 49856

/* short names */
#define hy_keypair_seed crypto_sign_dilithium_ed25519_sphincs_keypair_seed
#define hy_keypair crypto_sign_dilithium_ed25519_sphincs_keypair
#define hy_expand crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander
#define hy_fsign crypto_sign_dilithium_ed25519_sphincs
#define hy_fopen crypto_sign_dilithium_ed25519_sphincs_open
#define hy_fverify crypto_verify_dilithium_ed25519_sphincs
#define hy_csign crypto_sign_compact_dilithium_ed25519_sphincs
#define hy_copen crypto_sign_compact_dilithium_ed25519_sphincs_open
#define hy_cverify crypto_verify_compact_dilithium_ed25519_sphincs
#define dil_keypair PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair
#define dil_keypair_seed PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed
#define dil_sig PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature
#define dil_sign PQCLEAN_DILITHIUM2_CLEAN_crypto_sign
#define dil_verify PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify
#define dil_open PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open
#define spx_keypair PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair
#define spx_keypair_seed PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair
#define spx_sig PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature
#define spx_sign PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign
#define spx_verify PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify
#define spx_open PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define H_ASAN 1
# endif
# if __has_feature(memory_sanitizer)
#  define H_MSAN 1
#  include <sanitizer/msan_interface.h>
# endif
# if __has_feature(thread_sanitizer)
#  define H_TSAN 1
# endif
#endif

/* ---- run configuration ---- */
extern uint64_t h_seed;      /* VERIF_SEED */
extern int h_thorough;
extern double h_scale;       /* multiplies case counts (sanitizer builds use < 1) */
extern unsigned h_shard, h_nshard;
long h_count(long quick, long thorough);

/* ---- deterministic per-case randomness ---- */
typedef struct { uint64_t s; } h_rng;
extern _Thread_local h_rng R;
void r_seed(uint64_t a, uint64_t b);
uint64_t r64(void);
static inline uint32_t rn(uint32_t n) { return n ? (uint32_t)(r64() % n) : 0; }
void rbytes(void *p, size_t n);
/* bytes from a class of patterns (random, constant, sparse, dense, counter, text); returns the class */
int rpat(void *p, size_t n);
uint64_t h_hash(const void *p, size_t n);

/* ---- cases ---- */
int h_case_begin(const char *sec, long idx);   /* 1 = run this case in this process */
#define CASES(sec, i, n) for (long i = 0, n_##i = (n); i < n_##i; i++) if (h_case_begin(sec, i))
const char *h_case(void);

/* ---- verdict events ---- */
void VIOL(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void KNOWNV(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void ev(long n);                 /* n oracle evaluations */
void stat_add(const char *name, long n);
void set_add(const char *name, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void nontriv(uint64_t h);        /* a distinct non-trivial case */
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *hex(const void *p, size_t n);      /* rotating static buffers, abbreviated */
extern int h_nviol;

/* ---- guarded buffers ---- */
enum { G_PK, G_SK, G_SEED, G_SM, G_M, G_LEN, G_OUT, G_MSG, G_K, G_N, G_A, G_B, G_SLOTS };
u8 *gb(int slot, size_t n);              /* fresh n-byte buffer, old contents of the slot dropped; filled with a pattern */
void gb_check(const char *what);         /* all canaries intact? */
void gb_fill(int slot);                  /* refill with the slot's pattern (uninitialised under MSan) */
int  gb_untouched(int slot);             /* still exactly the pattern? */
size_t gb_size(int slot);
u8  *gb_ptr(int slot);
void gb_ro(int slot); void gb_rw(int slot);  /* write-protect the slot's pages (no-op under ASan/MSan) */
void XCHK(const char *name, const void *p, size_t n); /* value that must be the same in every build */
u8 *gb_dup(int slot, const void *src, size_t n);
void h_defined(const void *p, size_t n); /* under MSan: report if not fully initialised */

/* ---- entropy monitor (per thread) ---- */
typedef struct {
  uint64_t key; const u8 *script; size_t nscript;
  size_t pos;            /* bytes delivered since reset */
  unsigned calls, eintr, shorts, fails;
  /* fault plan: called before each delivery; return 0 = deliver *give bytes, else errno */
  int (*plan)(void *ctx, unsigned call, size_t req, size_t *give); void *ctx;
} h_ent;
extern _Thread_local h_ent ent;
extern int h_taint;            /* valgrind builds: delivered bytes are marked as secret */
void ent_reset(uint64_t key);
void ent_script(uint64_t key, const u8 *p, size_t n);  /* deliver p first */
void ent_bytes(u8 *out, size_t from, size_t n);        /* what was (will be) delivered */

/* ---- allocation ledger (per thread) ---- */
typedef struct { int on; long live, live_bytes, mallocs, frees, peak; long fail_at; /* 1-based malloc index to fail, 0 none */ int fail_from; /* and all later ones */ } h_mem;
extern _Thread_local h_mem mem;
extern _Thread_local void (*h_free_hook)(void *);   /* called before each free */
void mem_begin(void); void mem_end(void);

/* convenience */
typedef struct { u8 seed[160], pk[PKB], sk[SKB]; int cls; } h_key;
const h_key *h_getkey(unsigned i);   /* pool of reference-made key pairs (made on demand), i < H_NKEYS */
#define H_NKEYS 24
#define H_FIXED 3u
const u8 *h_fullsig(unsigned key, unsigned n, const u8 **msg); /* cached reference full signature */
u8 *win_map(size_t n, size_t win); void win_unmap(u8 *p, size_t n, size_t win); /* n bytes of address space backed by one window repeated; NULL if unavailable */
void wd_arm(void); void wd_long(int secs);                   /* restart the CPU watchdog */
void dirty_stack(int byte);
static inline int eqb(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
#endif
