#include "std.h"
#undef __ELF__
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define __APPLE__ 1
#define __MACH__ 1
