/* Independent reference model of the hybrid-pqc primitives, written from the
 * specifications (FIPS 202, FIPS 180-4, RFC 8032, RFC 7748, the NaCl papers,
 * Dilithium 3.1/ipd parameter set 2, SPHINCS+ r3.1).  Shares no code with
 * /repo.  Plain C so that it can also be built with MSan. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>

/* ---- Keccak ---- */
typedef struct { uint64_t a[25]; unsigned rate, pos; uint8_t dom; int sq; } ref_sponge;
void ref_sp_init(ref_sponge *s, unsigned rate, uint8_t dom);
void ref_sp_absorb(ref_sponge *s, const void *in, size_t n);
void ref_sp_squeeze(ref_sponge *s, void *out, size_t n);
void ref_shake128(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void ref_shake256(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void ref_sha3(uint8_t *out, unsigned bits, const uint8_t *in, size_t inlen);

/* ---- SHA-512 ---- */
void ref_sha512(uint8_t out[64], const uint8_t *in, size_t n);

/* ---- Ed25519 / X25519 ---- */
void ref_ed_keypair(uint8_t pk[32], uint8_t sk[64], const uint8_t seed[32]);
void ref_ed_sign(uint8_t sig[64], const uint8_t *m, size_t n, const uint8_t sk[64]);
/* crafting: r = nonce scalar (NULL: derived), Rforce = R bytes to publish and hash (NULL: r*B), Rxor = xored into R */
void ref_ed_sign_ex(uint8_t sig[64], const uint8_t *m, size_t n, const uint8_t sk[64], const uint8_t *r32, const uint8_t *Rforce, const uint8_t *Rxor);
int  ref_ed_verify(const uint8_t sig[64], const uint8_t *m, size_t n, const uint8_t pk[32]); /* 1 = valid */
void ref_x25519(uint8_t out[32], const uint8_t scalar[32], const uint8_t u[32]);
/* S + k*L as 32 bytes; returns 0 if it does not fit */
int  ref_ed_add_L(uint8_t s[32], int k);

/* ---- NaCl symmetric ---- */
void ref_salsa20_core(uint8_t out[64], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]);
void ref_hsalsa20(uint8_t out[32], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]);
void ref_salsa20_stream(uint8_t *out, size_t n, const uint8_t nonce[8], const uint8_t k[32]);
void ref_xsalsa20_stream(uint8_t *out, size_t n, const uint8_t nonce[24], const uint8_t k[32]);
void ref_poly1305(uint8_t out[16], const uint8_t *m, size_t n, const uint8_t k[32]);
/* NaCl layout: 32 zero bytes prefix in m, 16 zero bytes prefix in c, d = total length */
void ref_secretbox(uint8_t *c, const uint8_t *m, size_t d, const uint8_t n[24], const uint8_t k[32]);
void ref_box_beforenm(uint8_t k[32], const uint8_t pk[32], const uint8_t sk[32]);

/* ---- Dilithium2 ---- */
#define REF_DIL_PK 1312
#define REF_DIL_SK 2560
#define REF_DIL_SIG 2420
typedef struct {
  int max_z;      /* accept z with |z|_inf < max_z; 0 = standard 2^17-78 */
  int min_z;      /* require |z|_inf >= min_z (crafting) */
  int max_attempts; /* 0 = unlimited */
  const uint8_t *rnd; /* 32 bytes for hedged signing; NULL = deterministic */
  int fz_on, fz_poly, fz_idx, fz_y, fz_lo, fz_hi; /* force y[poly][idx]=fz_y and require fz_lo <= |z[poly][idx]| <= fz_hi, every other |z| in bound */
  const uint8_t *ctxor; /* 32 bytes xored into the challenge hash (near-miss crafting) */
} ref_dil_opts;
typedef struct {
  unsigned attempts, rej_z, rej_w0, rej_ct0, rej_hint;
  int z_max;            /* |z|_inf of the signature */
  unsigned hints;       /* weight of the hint */
  unsigned z_edge_hi, z_edge_lo; /* attempts where max |z| is exactly bound / bound-1 */
  unsigned w0_edge_hi, w0_edge_lo;
  unsigned hint_eq;     /* a0 == -gamma2 cases seen */
} ref_dil_ev;
void ref_dil_keypair(uint8_t *pk, uint8_t *sk, const uint8_t seed[32]);
int  ref_dil_sign(uint8_t *sig, const uint8_t *m, size_t n, const uint8_t *sk, const ref_dil_opts *o, ref_dil_ev *ev); /* 0 ok */
/* verification; flags relax single rules (white-box forging checks) */
#define REF_DIL_NO_Z 1
#define REF_DIL_NO_HINTFMT 2
int  ref_dil_verify(const uint8_t *sig, const uint8_t *m, size_t n, const uint8_t *pk, int relax); /* 1 = valid */

/* ---- SPHINCS+-SHAKE-256f-simple ---- */
#define REF_SPX_PK 64
#define REF_SPX_SK 128
#define REF_SPX_SIG 49856
void ref_spx_keypair(uint8_t *pk, uint8_t *sk, const uint8_t seed[96]);
void ref_spx_sign(uint8_t *sig, const uint8_t *m, size_t n, const uint8_t *sk, const uint8_t optrand[32]);
/* the indices a signature will use: tree, leaf, 35 FORS leaves */
void ref_spx_indices(uint64_t *tree, uint32_t *leaf, uint32_t fors[35], const uint8_t *m, size_t n, const uint8_t *sk, const uint8_t optrand[32]);
int  ref_spx_verify(const uint8_t *sig, const uint8_t *m, size_t n, const uint8_t *pk);

/* ---- hybrid ---- */
#define REF_PK 1408
#define REF_SK 4064
#define REF_SEED 160
#define REF_COMPACT_OVERHEAD 2526
#define REF_FULL_OVERHEAD 52342
void ref_hybrid_keypair(uint8_t *pk, uint8_t *sk, const uint8_t seed[160]);
void ref_hybrid_pk_from_sk(uint8_t *pk, const uint8_t *sk);
void ref_compact_digest(uint8_t h[64], const uint8_t nonce[40], const uint8_t *m, size_t n, const uint8_t *spx_pk);
size_t ref_compact_sign(uint8_t *sm, const uint8_t *m, size_t n, const uint8_t *sk, const uint8_t nonce[40], ref_dil_ev *ev);
size_t ref_full_sign(uint8_t *sm, const uint8_t *m, size_t n, const uint8_t *sk, const uint8_t optrand[32], ref_dil_ev *ev);
/* returns message length (1..64) when valid, 0 otherwise; m may be NULL */
int  ref_compact_open(uint8_t *m, const uint8_t *sm, uint64_t smlen, const uint8_t *pk);
int  ref_full_open(uint8_t *m, const uint8_t *sm, uint64_t smlen, const uint8_t *pk);
void ref_seed_expand(uint8_t out[160], const uint8_t seed[96]); /* as documented: all 64 bytes used */
void ref_seed_expand_d1(uint8_t out[160], const uint8_t seed[96]); /* as pinned by the repo's known answer (finding D1) */
void ref_seedexpander(uint8_t *out, size_t outlen, const uint8_t *seed, size_t seedlen);
#endif
