/* Offline search for the corpus ref/rare.txt: inputs on which a wrong version of one decision of Dilithium
 * (see MUT in ref/ref_dilithium.c) changes the result.
 *   gcc -O3 -march=native -DREF_MUT -pthread tools/rare.c ref/ref_*.c -o /tmp/rare && /tmp/rare THREADS SECONDS > out.txt
 * Lines: S key ctr mutant | V key ctr mutant | K ctr mutant */
#include "../ref/rare.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
extern _Thread_local uint64_t ref_mut_seen[2]; extern _Thread_local int ref_mut_on;
static uint8_t sk[RARE_ALL][4064], pk[RARE_ALL][1408]; static int cap = 10, cnt[3][128], nth; static time_t end; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static long total;
static int room(int t, int b) { return __atomic_load_n(&cnt[t][b], __ATOMIC_RELAXED) < cap; }
static void put(int t, uint32_t key, uint32_t ctr, int b) { pthread_mutex_lock(&mu); if (cnt[t][b]++ < cap) { if (t == 2) printf("K %u %d\n", ctr, b); else printf("%c %u %u %d\n", t ? 'V' : 'S', key, ctr, b); fflush(stdout); } pthread_mutex_unlock(&mu); }
static void *work(void *a) {
  uint32_t id = (uint32_t)(size_t)a; uint8_t m[64], nonce[40], h[64], s[2420], t[2420], p1[1312], p2[1312], k1[2560], k2[2560], seed[32];
  for (uint32_t c = id; time(NULL) < end; c += (uint32_t)nth) {
    if (c % 5 == 4) { rare_dilseed(seed, c); ref_mut_on = -1; ref_mut_seen[0] = ref_mut_seen[1] = 0; ref_dil_keypair(p1, k1, seed); uint64_t w[2] = {ref_mut_seen[0], ref_mut_seen[1]};
      for (int b = 0; b < 128; b++) if (w[b >> 6] >> (b & 63) & 1 && room(2, b)) { ref_mut_on = b; ref_dil_keypair(p2, k2, seed); ref_mut_on = -1; if (memcmp(p1, p2, 1312) || memcmp(k1, k2, 2560)) put(2, 0, c, b); } continue; }
    uint32_t key = c % 5 == 3 ? RARE_KEYS + c / 5 % 16 : c / 5 % RARE_KEYS; unsigned n = rare_input(m, nonce, key, c); ref_compact_digest(h, nonce, m, n, sk[key] + 4000);
    ref_dil_opts o = {.max_attempts = key < RARE_KEYS ? 400 : 800}; ref_mut_on = -1; ref_mut_seen[0] = ref_mut_seen[1] = 0; if (ref_dil_sign(s, h, 64, sk[key] + 64, &o, NULL)) continue; __atomic_fetch_add(&total, 1, __ATOMIC_RELAXED);
    uint64_t w[2] = {ref_mut_seen[0], ref_mut_seen[1]};
    for (int b = 0; b < 128; b++) if (w[b >> 6] >> (b & 63) & 1 && room(0, b)) { ref_mut_on = b; o.max_attempts = 2000; int r = ref_dil_sign(t, h, 64, sk[key] + 64, &o, NULL); ref_mut_on = -1; if (r || memcmp(s, t, 2420)) put(0, key, c, b); }
    if (key < RARE_KEYS) { ref_mut_seen[0] = ref_mut_seen[1] = 0; if (!ref_dil_verify(s, h, 64, pk[key] + 32, 0)) { fprintf(stderr, "own signature rejected\n"); exit(1); } w[0] = ref_mut_seen[0]; w[1] = ref_mut_seen[1]; for (int b = 0; b < 128; b++) if (w[b >> 6] >> (b & 63) & 1 && room(1, b)) { ref_mut_on = b; int r = ref_dil_verify(s, h, 64, pk[key] + 32, 0); ref_mut_on = -1; if (!r) put(1, key, c, b); } }
  }
  return NULL;
}
int main(int ac, char **av) {
  nth = ac > 1 ? atoi(av[1]) : 4; end = time(NULL) + (ac > 2 ? atoi(av[2]) : 60); pthread_t th[64];
  for (uint32_t i = 0; i < RARE_ALL; i++) { uint8_t s[160]; rare_keyseed(s, i); ref_hybrid_keypair(pk[i], sk[i], s); rare_odd(sk[i] + 64, i); }
  for (int i = 0; i < nth; i++) pthread_create(&th[i], NULL, work, (void *)(size_t)i);
  for (int i = 0; i < nth; i++) pthread_join(th[i], NULL);
  fprintf(stderr, "%ld signatures\n", total); for (int t = 0; t < 3; t++) { fprintf(stderr, "%c:", "SVK"[t]); for (int b = 0; b < 128; b++) if (cnt[t][b]) fprintf(stderr, " %d=%d", b, cnt[t][b]); fprintf(stderr, "\n"); }
}
