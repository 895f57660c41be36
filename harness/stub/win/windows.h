/* the part of the Windows API the entropy back end uses, with the widths it has on Windows; the functions are in d_plat.c */
#ifndef V_WINDOWS_H
#define V_WINDOWS_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
typedef int BOOL; typedef uint32_t DWORD, ULONG, UINT; typedef int32_t LONG, NTSTATUS; typedef unsigned char BYTE, UCHAR, *PBYTE, *PUCHAR; typedef uintptr_t HCRYPTPROV; typedef const char *LPCSTR, *LPCTSTR; typedef const void *LPCWSTR; typedef void *PVOID, *LPVOID; typedef size_t SIZE_T;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define MAXDWORD 0xffffffffu
#define ULONG_MAX_WIN 0xffffffffu
DWORD GetLastError(void); void SetLastError(DWORD); PVOID SecureZeroMemory(PVOID, SIZE_T);
#endif
