#ifndef PLUGAPI_H
#define PLUGAPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct plugapi {
    int config, nsym;        /* config as in capi.h */
    const char *names[4];
    int default_flags;
    void *(*load)(const char **, size_t);
    void (*release)(void *);
    size_t (*num)(void *);
    const char *(*filename)(void *, size_t);
    const void *(*rawname)(void *, size_t);
    void *(*handle)(void *, size_t);
    void *(*raw)(void *, size_t, int);
};
extern const struct plugapi the_plugapi;
#ifdef __cplusplus
}
#endif
#endif
