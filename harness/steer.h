/* Comparison-guided steering: the library is compiled with comparison tracing, the inputs of an operation are one flat
 * byte string ("genome"); a compared value that follows some genome bytes through several random fillings is set to what
 * it is compared with, and the operation is run again under the same oracle, also in combinations and deeper. */
#ifndef STEER_H
#define STEER_H
#include "h.h"
#define GMAX 4096
extern u8 G[GMAX];
typedef struct { const char *name, *props; unsigned gn, lmin, lmax; void (*fn)(long idx, unsigned len); int cost; unsigned loff[4]; } st_op; /* loff: lengths are also compared in these sums */
extern int st_rec, st_mute;
#define LIB(e) ({ st_rec = !st_mute; mem_begin(); __typeof__(e) r_ = (e); mem_end(); st_rec = 0; st_led(#e); r_; })
void st_led(const char *what);
void st_explore(const st_op *o, long idx, unsigned len);
#endif
