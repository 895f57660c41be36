/* the rare-decision corpus in the drivers */
#include "../ref/rare.h"
#include "../ref/rare_list.h"
#define NRARE ((long)(sizeof rare_list / sizeof *rare_list))
#define NRAREK ((long)(sizeof rare_keys / sizeof *rare_keys))
typedef struct { u8 seed[160], pk[PKB], sk[SKB]; } rkey;
static inline const rkey *rare_key(unsigned i) { static rkey *k[RARE_ALL]; if (!k[i]) { k[i] = malloc(sizeof **k); rare_keyseed(k[i]->seed, i); ref_hybrid_keypair(k[i]->pk, k[i]->sk, k[i]->seed); rare_odd(k[i]->sk + 64, i); } return k[i]; }
static inline void rare_note(const char *why) { char b[256]; snprintf(b, sizeof b, "%s", why); for (char *p = strtok(b, " "); p; p = strtok(NULL, " ")) set_add("rare_decisions", "%s", p); }
