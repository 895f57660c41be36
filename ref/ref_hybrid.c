#include "ref.h"
#include <string.h>
void ref_hybrid_keypair(uint8_t *pk, uint8_t *sk, const uint8_t seed[160]) {
  ref_ed_keypair(pk, sk, seed);
  ref_dil_keypair(pk+32, sk+64, seed+32); memcpy(sk+64+2560, pk+32, 1312);
  ref_spx_keypair(pk+1344, sk+3936, seed+64);
}
void ref_hybrid_pk_from_sk(uint8_t *pk, const uint8_t *sk) { memcpy(pk, sk+32, 32); memcpy(pk+32, sk+2624, 1312); memcpy(pk+1344, sk+4000, 64); }
void ref_compact_digest(uint8_t h[64], const uint8_t nonce[40], const uint8_t *m, size_t n, const uint8_t *sp) {
  uint8_t b[168]; memcpy(b, nonce, 40); memcpy(b+40, m, n); memcpy(b+40+n, sp, 64); ref_sha3(h, 512, b, 104+n);
}
size_t ref_compact_sign(uint8_t *sm, const uint8_t *m, size_t n, const uint8_t *sk, const uint8_t nonce[40], ref_dil_ev *ev) {
  uint8_t h[64]; ref_compact_digest(h, nonce, m, n, sk+4000);
  sm[0]=1; sm[1]=(uint8_t)n; ref_ed_sign(sm+2, h, 64, sk); ref_dil_sign(sm+66, h, 64, sk+64, NULL, ev);
  memcpy(sm+2486, nonce, 40); memcpy(sm+2526, m, n); return 2526+n;
}
size_t ref_full_sign(uint8_t *sm, const uint8_t *m, size_t n, const uint8_t *sk, const uint8_t optrand[32], ref_dil_ev *ev) {
  sm[0]=2; sm[1]=(uint8_t)n; ref_ed_sign(sm+2, m, n, sk); memcpy(sm+66, m, n);
  ref_dil_sign(sm+66+n, m, n, sk+64, NULL, ev); ref_spx_sign(sm+66+n+2420, m, n, sk+3936, optrand); return 52342+n;
}
int ref_compact_open(uint8_t *m, const uint8_t *sm, uint64_t smlen, const uint8_t *pk) {
  if (smlen < 2527 || smlen > 2590 || sm[0] != 1 || sm[1] == 0 || sm[1] > 64 || smlen != 2526u + sm[1]) return 0;
  unsigned n = sm[1]; uint8_t h[64]; ref_compact_digest(h, sm+2486, sm+2526, n, pk+1344);
  if (!ref_ed_verify(sm+2, h, 64, pk) || !ref_dil_verify(sm+66, h, 64, pk+32, 0)) return 0;
  if (m) memcpy(m, sm+2526, n);
  return (int)n;
}
int ref_full_open(uint8_t *m, const uint8_t *sm, uint64_t smlen, const uint8_t *pk) {
  if (smlen < 52343 || smlen > 52406 || sm[0] != 2 || sm[1] == 0 || sm[1] > 64 || smlen != 52342u + sm[1]) return 0;
  unsigned n = sm[1];
  if (!ref_ed_verify(sm+2, sm+66, n, pk) || !ref_dil_verify(sm+66+n, sm+66, n, pk+32, 0) || !ref_spx_verify(sm+2486+n, sm+66, n, pk+1344)) return 0;
  if (m) memcpy(m, sm+66, n);
  return (int)n;
}
void ref_seedexpander(uint8_t *out, size_t outlen, const uint8_t *seed, size_t seedlen) {
  uint8_t d = 2; ref_sponge s; ref_sp_init(&s, 136, 0x1f); ref_sp_absorb(&s, seed, seedlen); ref_sp_absorb(&s, &d, 1); ref_sp_squeeze(&s, out, outlen);
}
void ref_seed_expand(uint8_t out[160], const uint8_t seed[96]) {
  uint8_t t[128]; ref_seedexpander(t, 128, seed, 64); memcpy(out, t, 32); memcpy(out+32, seed+64, 32); memcpy(out+64, t+32, 96);
}
void ref_seed_expand_d1(uint8_t out[160], const uint8_t seed[96]) {
  uint8_t s[96]; memcpy(s, seed, 96); for (int i = 1; i < 64; i += 2) s[i] = 0; ref_seed_expand(out, s);
}
