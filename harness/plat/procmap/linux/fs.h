/* Linux 6.11: queries of /proc/PID/maps with ioctl() */
#include_next <linux/fs.h>
#ifndef PROCMAP_QUERY
#include <linux/types.h>
enum procmap_query_flags { PROCMAP_QUERY_VMA_READABLE = 1, PROCMAP_QUERY_VMA_WRITABLE = 2, PROCMAP_QUERY_VMA_EXECUTABLE = 4, PROCMAP_QUERY_VMA_SHARED = 8,
    PROCMAP_QUERY_COVERING_OR_NEXT_VMA = 16, PROCMAP_QUERY_FILE_BACKED_VMA = 32 };
struct procmap_query {
    __u64 size; __u64 query_flags; __u64 query_addr;
    __u64 vma_start; __u64 vma_end; __u64 vma_flags; __u64 vma_page_size; __u64 vma_offset; __u64 inode;
    __u32 dev_major; __u32 dev_minor; __u32 vma_name_size; __u32 build_id_size; __u64 vma_name_addr; __u64 build_id_addr;
};
#define PROCMAP_QUERY _IOWR('f', 17, struct procmap_query)
#endif
