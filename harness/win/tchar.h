#ifndef MOCK_TCHAR_H
#define MOCK_TCHAR_H
#include <windows.h>
#ifdef _UNICODE
typedef wchar_t TCHAR;
# define __T(x) L ## x
# define _tcsstr wcsstr
# define _tcschr wcschr
# define _tcslen wcslen
# define _tcscmp wcscmp
# define _tcsdup _wcsdup
# define _sntprintf_s _snwprintf_s
# define _ftprintf_s fwprintf_s
#else
typedef char TCHAR;
# define __T(x) x
# define _tcsstr strstr
# define _tcschr strchr
# define _tcslen strlen
# define _tcscmp strcmp
# define _tcsdup _strdup
# define _sntprintf_s _snprintf_s
# define _ftprintf_s fprintf_s
#endif
#define _T(x) __T(x)
#define _TEXT(x) __T(x)
#endif
