/* between the machine and the code under test */
#ifndef CAPI_H
#define CAPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { C_WRAP = 1, C_AUTO = 2, C_LAZY = 4, C_DEFLIB = 8, C_WINAPI = 16, C_WINDLFCN = 32, C_FMTFAIL = 64, C_CONVERT = 128, C_AIX = 256, C_DLADDR = 512, C_PROCMAP = 1024, C_DLINFO = 2048 };
struct capi {
    int config, nsym;
    const char *names[4];
    const char *deflib;
    int default_flags;
    size_t buflen;
    int (*load_lib)(void);
    int (*load_lib_and_symbols)(void);
    int (*load_name)(const char *);
    int (*load_name_and_symbols)(const char *);
    int (*load_args)(const char *, int, int);
    int (*is_loaded)(void);
    int (*free_lib)(void);
    void (*force_free)(void);
    int (*autorelease)(void);
    int (*load_all)(void);
    int (*load_symbol)(int);
    int (*load_symbol_name)(const char *);
    int (*all)(void), (*none)(void), (*any)(void);
    const char *(*last_error)(void);
    const char *(*library_path)(void);
    void *(*raw)(int);
    int (*enumval)(int);
    int enum_last;
    long (*call)(int);      /* uses symbol i by its plain name */
};
extern const struct capi the_capi;
#ifdef __cplusplus
}
#endif
#endif
