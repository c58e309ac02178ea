#ifndef MOCK_SYS_LDR_H
#define MOCK_SYS_LDR_H
/* AIX: information about the loaded modules */
#include <sys/types.h>
struct ld_info {
    unsigned int ldinfo_next;     /* offset of the next entry, 0 at the end */
    unsigned int ldinfo_flags;
    int ldinfo_fd;
    void *ldinfo_textorg;
    unsigned long ldinfo_textsize;
    void *ldinfo_dataorg;
    unsigned long ldinfo_datasize;
    char ldinfo_filename[2];      /* path, null character, archive member, null character */
};
#define L_GETINFO 2
#define L_GETMESSAGES 1
#ifdef __cplusplus
extern "C"
#endif
int loadquery(int flags, void *buf, unsigned int size);
#endif
