#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
_Noreturn void w_assert(const char *, const char *, int);
#define assert(x) ((x) ? (void)0 : w_assert(#x, __FILE__, __LINE__))
#endif
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
