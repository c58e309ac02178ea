#include "std.h"
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define __FreeBSD__ 14
