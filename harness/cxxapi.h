/* between the machine and the generated C++ class; objects live in slots */
#ifndef CXXAPI_H
#define CXXAPI_H
#include <stddef.h>
#include <string>
enum { X_WRAP = 1, X_AUTO = 2, X_LAZY = 4, X_WINAPI = 16, X_WINDLFCN = 32, X_FMTFAIL = 64, X_CONVERT = 128 };
typedef void (*sink_t)(const char *, size_t);
struct cxxapi {
    int config, nsym;
    const char *names[4];
    const char *deflib;
    int default_flags;
    size_t buflen;
    void *storage;
    size_t object_size;
    void (*construct)(int slot);
    void (*construct_name)(int slot, const char *);
    void (*construct_args)(int slot, const char *, int, bool);
    void (*construct_copy)(int slot, int from);
    void (*destroy)(int slot);
    bool (*load)(int slot);
    bool (*load_name)(int slot, const char *);
    bool (*load_args)(int slot, const char *, int, bool);
    bool (*load_lib_and_symbols)(int slot);
    bool (*lib_loaded)();
    int (*flags)(int slot);
    bool (*load_all)(int slot);
    bool (*load_symbol)(int slot, int);
    bool (*load_symbol_name)(int slot, const char *);
    bool (*all)(int slot), (*none)(int slot), (*any)(int slot);
    bool (*free_lib)(int slot, int force);    /* force: 0 free(), 1 free(false), 2 free(true) */
    void (*set_dtor)(int slot, bool);
    bool (*get_dtor)(int slot);
    void (*library_path)(int slot, sink_t);
    void (*filename)(int slot, sink_t);
    void (*error)(int slot, sink_t);
    void *(*raw)(int);
    int (*enumval)(int);
    int enum_last;
    long (*call)(int);
    void (*set_callback)(void (*)(const char *));
    void (*(*get_callback)())(const char *);
};
extern const cxxapi the_cxxapi;
#endif
