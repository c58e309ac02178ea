/* dlfcn-win32 */
#ifndef MOCK_DLFCN_H
#define MOCK_DLFCN_H
#ifdef __cplusplus
extern "C" {
#endif
#define RTLD_NOW 0
#define RTLD_LAZY 1
#define RTLD_GLOBAL 2
#define RTLD_LOCAL 4
#define RTLD_DEFAULT ((void *)0)
#define RTLD_NEXT ((void *)-1)
typedef struct dl_info { const char *dli_fname; void *dli_fbase; const char *dli_sname; void *dli_saddr; } Dl_info;
void *dlopen(const char *, int);
int dlclose(void *);
void *dlsym(void *, const char *);
char *dlerror(void);
int dladdr(const void *, Dl_info *);
#ifdef __cplusplus
}
#endif
#endif
