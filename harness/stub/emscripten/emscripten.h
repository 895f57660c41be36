/* stand-in for the Emscripten header so that wasm/ compiles natively */
#include <stdint.h>
#include <stddef.h>
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
