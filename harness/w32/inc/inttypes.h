#include <stdint.h>
#define PRIu64 "llu"
#define PRIx64 "llx"
#define PRId64 "lld"
#define PRIu32 "u"
