#ifndef MINAPI_H
#define MINAPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { R_OK_, R_MSG, R_LIBERR, R_SYMERR, R_OTHER };
struct minapi {
    int cxx, config, nsym;   /* config as in capi.h */
    const char *names[4];
    int (*load)(const char *, void (*)(const char *));   /* R_OK_, or the kind of error; the text is passed to the function */
    void (*free_lib)(void);
    void *(*raw)(int);
    long (*call)(int);
};
extern const struct minapi the_minapi;
#ifdef __cplusplus
}
#endif
#endif
