#!/bin/sh
# Makes ref/fullsigs.bin: reference full-mode signatures by three fixed keys, every message length. Usage: tools/mkfull.sh [REPO]
set -e
cd "$(dirname "$0")/.."; R=${1:-/repo}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat >$T/m.c <<'X'
#include "h.h"
static void mk(void) { for (unsigned k = 0; k < H_FIXED; k++) for (unsigned n = 1; n <= 64; n++) { FILE *f = fopen(getenv("MK_OUT"), "ab"); fwrite(h_fullsig(k, n, 0), 1, FULL(n), f); fclose(f); } }
typedef struct { const char *name; void (*fn)(void); } h_driver;
const h_driver h_drivers[] = {{"MK", mk}, {0, 0}};
X
clang -O2 -w -Iharness -Iref -I$R $T/m.c harness/h.c ref/*.c $(cd $R && git ls-files '*.c' | grep -v -e detect_ -e tests/ -e wasm/ -e cmake -e _test.c | sed "s|^|$R/|") -o $T/mk -lpthread -lm
H_FIXED_SIGS= H_WD=0 MK_OUT=$T/o $T/mk MK >/dev/null
mv $T/o ref/fullsigs.bin; chmod 644 ref/fullsigs.bin
