/* Makes the compiler's target look like Windows.  The standard headers are
 * included first because they belong to the system we really run on. */
#ifdef __cplusplus
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#endif
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#undef __unix__
#undef __unix
#undef unix
#undef __ELF__
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define _WIN32 1
