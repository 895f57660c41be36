#ifndef V_BCRYPT_H
#define V_BCRYPT_H
#include "windows.h"
typedef void *BCRYPT_ALG_HANDLE;
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 0x00000002
#define BCRYPT_RNG_USE_ENTROPY_IN_BUFFER 0x00000001
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE, PUCHAR, ULONG, ULONG);
#define BCRYPT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#endif
