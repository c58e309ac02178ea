#include "std.h"
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define __linux__ 1
#define __ANDROID__ 1
