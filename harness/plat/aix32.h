#include "std.h"
#undef __ELF__
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define _AIX 1
#undef __LP64__
#undef _LP64
