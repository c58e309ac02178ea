/* what the generated code uses of <windows.h> */
#ifndef MOCK_WINDOWS_H
#define MOCK_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
#define WINAPI
#define CALLBACK
typedef unsigned int DWORD;
typedef unsigned short WORD;
typedef int BOOL;
typedef unsigned int UINT;
typedef void *LPVOID, *HANDLE, *HLOCAL, *PVOID;
typedef const void *LPCVOID;
typedef char CHAR, *LPSTR, *PSTR;
typedef const char *LPCSTR, *PCSTR;
typedef wchar_t WCHAR, *LPWSTR, *PWSTR;
typedef const wchar_t *LPCWSTR, *PCWSTR;
struct HINSTANCE__ { int unused; };
typedef struct HINSTANCE__ *HINSTANCE, *HMODULE;
struct HWND__ { int unused; };
typedef struct HWND__ *HWND;
typedef intptr_t (WINAPI *FARPROC)();
#ifndef TRUE
# define TRUE 1
# define FALSE 0
#endif
#define MAX_PATH 260
#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_GEN_FAILURE 31
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_INVALID_NAME 123
#define ERROR_MOD_NOT_FOUND 126
#define ERROR_PROC_NOT_FOUND 127
#define ERROR_ALREADY_EXISTS 183
#define ERROR_NOT_FOUND 1168
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define FORMAT_MESSAGE_MAX_WIDTH_MASK 0xff
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((WORD)(s)) << 10) | (WORD)(p))
#define MB_OK 0
#define MB_ICONERROR 0x10
#define DONT_RESOLVE_DLL_REFERENCES 1
#define LOAD_LIBRARY_AS_DATAFILE 2
#define LOAD_WITH_ALTERED_SEARCH_PATH 8
#define LOAD_LIBRARY_SEARCH_APPLICATION_DIR 0x200
#define LOAD_LIBRARY_SEARCH_SYSTEM32 0x800
#define LOAD_LIBRARY_SEARCH_DEFAULT_DIRS 0x1000
HMODULE LoadLibraryA(LPCSTR);
HMODULE LoadLibraryW(LPCWSTR);
HMODULE LoadLibraryExA(LPCSTR, HANDLE, DWORD);
HMODULE LoadLibraryExW(LPCWSTR, HANDLE, DWORD);
FARPROC GetProcAddress(HMODULE, LPCSTR);
BOOL FreeLibrary(HMODULE);
DWORD GetModuleFileNameA(HMODULE, LPSTR, DWORD);
DWORD GetModuleFileNameW(HMODULE, LPWSTR, DWORD);
DWORD GetLastError(void);
void SetLastError(DWORD);
DWORD FormatMessageA(DWORD, LPCVOID, DWORD, DWORD, LPSTR, DWORD, void *);
DWORD FormatMessageW(DWORD, LPCVOID, DWORD, DWORD, LPWSTR, DWORD, void *);
HLOCAL LocalFree(HLOCAL);
int MessageBoxA(HWND, LPCSTR, LPCSTR, UINT);
int MessageBoxW(HWND, LPCWSTR, LPCWSTR, UINT);
#ifdef UNICODE
# define LoadLibrary LoadLibraryW
# define LoadLibraryEx LoadLibraryExW
# define GetModuleFileName GetModuleFileNameW
# define FormatMessage FormatMessageW
# define MessageBox MessageBoxW
typedef wchar_t *LPTSTR;
#else
# define LoadLibrary LoadLibraryA
# define LoadLibraryEx LoadLibraryExA
# define GetModuleFileName GetModuleFileNameA
# define FormatMessage FormatMessageA
# define MessageBox MessageBoxA
typedef char *LPTSTR;
#endif
/* Microsoft's C library */
typedef int errno_t_;
#define _TRUNCATE ((size_t)-1)
int mbstowcs_s(size_t *, wchar_t *, size_t, const char *, size_t);
int wcstombs_s(size_t *, char *, size_t, const wchar_t *, size_t);
int _snprintf_s(char *, size_t, size_t, const char *, ...);
int _snwprintf_s(wchar_t *, size_t, size_t, const wchar_t *, ...);
int fprintf_s(FILE *, const char *, ...);
int fwprintf_s(FILE *, const wchar_t *, ...);
char *win_strdup(const char *);
wchar_t *win_wcsdup(const wchar_t *);
#define _strdup win_strdup
#define _wcsdup win_wcsdup
#ifdef __cplusplus
}
extern "C++" template<typename T, size_t N> char (*win_countof(T (&)[N]))[N];
# define _countof(a) sizeof(*win_countof(a))
#else
# define _countof(a) (sizeof(a) / sizeof((a)[0]))
#endif
#endif
