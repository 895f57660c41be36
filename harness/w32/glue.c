#include <stddef.h>
#include <stdint.h>
#define G_EXPORT __attribute__((used, visibility("default")))
#include "glue.h"
