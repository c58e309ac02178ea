/* Fork server around the real gendlopen tool.
 *
 * The tool's sources are compiled with -Dmain=gdo_tool_main and linked with
 * this file.  Each request is one complete execution of the tool in a forked
 * child: its own argv, stdin bytes and scratch directory, with stdout/stderr
 * captured.  A request can ask for fault injection: every I/O system call the
 * child makes is trapped with seccomp and counted, and the N-th one (or the
 * N-th written byte) fails.
 *
 * request  (little endian u32 length fields):
 *   u32 flags            1 = has files / wants a directory snapshot
 *   u32 fault_kind fault_n fault_errno timeout_ms (0: default)
 *   u32 argc, argc x string, string stdin
 *   u32 nfiles, nfiles x { u32 kind, string name, string content }
 *       kind 0 file, 1 dir, 2 symlink, 3 fifo, 4 read-only file, 5 no permissions, 6 hard link
 *   u32 nenv, nenv x string        (NAME=value, added to the environment)
 *   u32 stdout_kind      0 memfd, 1 /dev/full, 2 closed, 3 pipe without reader
 *   u32 stdin_kind       0 memfd, 1 closed, 2 directory, 3 pipe (content piped)
 *   string cwd           relative directory inside the scratch directory
 * response:
 *   u32 status (waitpid), u32 timed_out, string out, string err,
 *   u32 nentries, nentries x { u32 kind, string name, string content },
 *   u32 number of counted system calls, string log of the calls
 */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>

int gdo_tool_main(int argc, char **argv);

#ifndef TOOL_TIMEOUT_MS
#define TOOL_TIMEOUT_MS 20000
#endif

/* ------------------------------------------------------------- shared area */
struct shared_t {
    uint32_t calls;
    uint32_t loglen;
    char log[1 << 16];
};
static shared_t *sh;

static uint32_t g_fault_kind, g_fault_n, g_fault_errno;
static uint64_t g_written;

extern "C" long gdo_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
__asm__(
    ".text\n.globl gdo_raw_syscall\n.type gdo_raw_syscall,@function\n"
    "gdo_raw_syscall:\n"
    "  mov %rdi,%rax\n  mov %rsi,%rdi\n  mov %rdx,%rsi\n  mov %rcx,%rdx\n"
    "  mov %r8,%r10\n  mov %r9,%r8\n  mov 8(%rsp),%r9\n"
    "  syscall\n"
    ".globl gdo_raw_syscall_ip\ngdo_raw_syscall_ip:\n"
    "  ret\n");
extern "C" char gdo_raw_syscall_ip[];

#ifdef TOOL_FAKE_TIME
/* the time of day the tool sees: TOOL_TIME in the environment */
static bool fake_now(long long *t)
{
    const char *p = getenv("TOOL_TIME");
    if (!p) return false;
    *t = atoll(p);
    return true;
}

extern "C" time_t time(time_t *out) noexcept
{
    long long t;
    if (!fake_now(&t)) {
        struct timespec ts;
        gdo_raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0, 0, 0, 0);
        t = ts.tv_sec;
    }
    if (out) *out = t;
    return t;
}

extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    long long t;
    if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && fake_now(&t)) {
        ts->tv_sec = t;
        ts->tv_nsec = 0;
        return 0;
    }
    return gdo_raw_syscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0) ? -1 : 0;
}

extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
#endif

enum { F_NONE = 0, F_COUNT = 1, F_FAIL = 2, F_SHORT = 3, F_BYTES = 4, F_FAIL_FROM = 5 };

static const char *nr_name(long nr)
{
    switch (nr) {
    case SYS_read: return "read"; case SYS_readv: return "readv"; case SYS_write: return "write";
    case SYS_writev: return "writev"; case SYS_open: return "open"; case SYS_openat: return "openat";
    case SYS_close: return "close"; case SYS_unlink: return "unlink"; case SYS_unlinkat: return "unlinkat";
    case SYS_rmdir: return "rmdir"; case SYS_mkdir: return "mkdir"; case SYS_mkdirat: return "mkdirat";
    case SYS_rename: return "rename"; case SYS_renameat: return "renameat"; case SYS_renameat2: return "renameat2";
    case SYS_fsync: return "fsync"; case SYS_ftruncate: return "ftruncate";
    case SYS_pread64: return "pread64"; case SYS_pwrite64: return "pwrite64";
    case SYS_lseek: return "lseek"; case SYS_stat: return "stat"; case SYS_lstat: return "lstat";
    case SYS_newfstatat: return "newfstatat"; case SYS_statx: return "statx"; case SYS_fstat: return "fstat";
    }
    return "?";
}

static void logcall(const char *name, long arg, long ret)
{
    char b[80];
    int n = snprintf(b, sizeof b, "%s(%ld)=%ld\n", name, arg, ret);
    if (sh->loglen + n < sizeof sh->log) { memcpy(sh->log + sh->loglen, b, n); sh->loglen += n; }
}

static void on_sigsys(int, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = (ucontext_t *)uc_;
    greg_t *g = uc->uc_mcontext.gregs;
    long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8], f = g[REG_R9];
    long ret;
    bool is_write = (nr == SYS_write || nr == SYS_writev);
    bool is_read = (nr == SYS_read || nr == SYS_readv);
    uint32_t idx = sh->calls;
    /* diagnostics on stderr are not part of the property */
    bool counted = !(is_write && a == 2);

    if (counted) sh->calls++;

    if (counted && ((g_fault_kind == F_FAIL && idx == g_fault_n) || (g_fault_kind == F_FAIL_FROM && idx >= g_fault_n))) {
        if (nr == SYS_close) gdo_raw_syscall(nr, a, b, c, d, e, f);
        ret = -(long)g_fault_errno;
    } else if (counted && g_fault_kind == F_SHORT && idx == g_fault_n && (nr == SYS_write || nr == SYS_read) && c > 1) {
        ret = gdo_raw_syscall(nr, a, b, (c + 1) / 2, d, e, f);
    } else if (counted && g_fault_kind == F_SHORT && idx == g_fault_n && (nr == SYS_writev || nr == SYS_readv) && c > 1) {
        ret = gdo_raw_syscall(nr, a, b, 1, d, e, f);
    } else if (counted && is_write && g_fault_kind == F_BYTES && g_written >= g_fault_n) {
        ret = -(long)g_fault_errno;
    } else if (counted && nr == SYS_write && g_fault_kind == F_BYTES && g_written + c > g_fault_n) {
        ret = gdo_raw_syscall(nr, a, b, g_fault_n - g_written, d, e, f);
    } else {
        ret = gdo_raw_syscall(nr, a, b, c, d, e, f);
    }
    (void)is_read;
    if (counted && is_write && ret > 0) g_written += ret;
    if (counted) logcall(nr_name(nr), (nr == SYS_openat || nr == SYS_unlinkat || nr == SYS_mkdirat) ? 0 : (is_read || is_write || nr == SYS_close ? a : 0), ret);
    g[REG_RAX] = ret;
}

static void install_filter()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, NULL);

    static const int nrs[] = { SYS_read, SYS_readv, SYS_write, SYS_writev, SYS_open, SYS_openat, SYS_close,
        SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_rename, SYS_renameat, SYS_renameat2,
        SYS_fsync, SYS_ftruncate, SYS_pread64, SYS_pwrite64 };
    const unsigned n = sizeof nrs / sizeof *nrs;
    std::vector<sock_filter> p;
    uint64_t ip = (uint64_t)gdo_raw_syscall_ip;
    /* allow calls made from our own trampoline */
    p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)));
    p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3));
    p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4));
    p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1));
    p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    p.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
    for (unsigned i = 0; i < n; i++)
        p.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)nrs[i], (uint8_t)(n - i), 0));
    p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    p.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    struct sock_fprog prog = { (unsigned short)p.size(), p.data() };
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) != 0) {
        _exit(97);
    }
}

/* ------------------------------------------------------------------- wire */
static std::string rd_all;
static bool rdn(void *p, size_t n)
{
    char *c = (char *)p;
    while (n) {
        ssize_t r = read(0, c, n);
        if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; }
        c += r; n -= r;
    }
    return true;
}
static const char *cur, *endp;
static uint32_t g32() { if (cur + 4 > endp) _exit(98); uint32_t v; memcpy(&v, cur, 4); cur += 4; return v; }
static std::string gstr() { uint32_t n = g32(); if (cur + n > endp) _exit(98); std::string s(cur, n); cur += n; return s; }
static void p32(std::string &o, uint32_t v) { o.append((char *)&v, 4); }
static void pstr(std::string &o, const std::string &s) { p32(o, s.size()); o += s; }
static void wrn(const std::string &s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t r = write(1, s.data() + o, s.size() - o);
        if (r < 0) { if (errno == EINTR) continue; _exit(96); }
        o += r;
    }
}

static std::string slurp(int fd)
{
    std::string s;
    struct stat st;
    if (fstat(fd, &st) != 0 || st.st_size <= 0) return s;
    s.resize(st.st_size);
    ssize_t n = pread(fd, &s[0], s.size(), 0);
    s.resize(n < 0 ? 0 : n);
    return s;
}

/* everything below works relative to a directory fd of the scratch directory */
static void rm_tree(int dfd)
{
    int d2 = dup(dfd);
    DIR *d = fdopendir(d2);
    if (!d) { close(d2); return; }
    rewinddir(d);
    while (struct dirent *e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        struct stat st;
        if (fstatat(dfd, e->d_name, &st, AT_SYMLINK_NOFOLLOW) != 0) continue;
        if (S_ISDIR(st.st_mode)) {
            fchmodat(dfd, e->d_name, 0700, 0);
            int s = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
            if (s >= 0) { rm_tree(s); close(s); }
            unlinkat(dfd, e->d_name, AT_REMOVEDIR);
        } else {
            unlinkat(dfd, e->d_name, 0);
        }
    }
    closedir(d);
}

struct ent { uint32_t kind; std::string name, content; };

static void snap(int dfd, const std::string &pfx, std::vector<ent> &out)
{
    int d2 = dup(dfd);
    DIR *d = fdopendir(d2);
    if (!d) { close(d2); return; }
    rewinddir(d);
    while (struct dirent *e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        struct stat st;
        if (fstatat(dfd, e->d_name, &st, AT_SYMLINK_NOFOLLOW) != 0) continue;
        ent x; x.name = pfx + e->d_name;
        if (S_ISDIR(st.st_mode)) {
            x.kind = 1; x.content = std::to_string(st.st_mode & 07777);
            out.push_back(x);
            int s = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
            if (s >= 0) { snap(s, x.name + "/", out); close(s); }
            continue;
        } else if (S_ISLNK(st.st_mode)) {
            char b[4096]; ssize_t n = readlinkat(dfd, e->d_name, b, sizeof b);
            x.kind = 2; x.content.assign(b, n < 0 ? 0 : n);
        } else if (S_ISREG(st.st_mode)) {
            x.kind = 0;
            int f = openat(dfd, e->d_name, O_RDONLY | O_NOFOLLOW);
            if (f >= 0) { x.content = slurp(f); close(f); }
            else if (fchmodat(dfd, e->d_name, 0600, 0) == 0 && (f = openat(dfd, e->d_name, O_RDONLY | O_NOFOLLOW)) >= 0) { x.content = slurp(f); close(f); }
        } else if (S_ISFIFO(st.st_mode)) {
            x.kind = 3;
        } else x.kind = 9;
        out.push_back(x);
    }
    closedir(d);
}

int main(int argc, char **argv)
{
    if (argc < 2) { fprintf(stderr, "usage: toolserver SCRATCHDIR\n"); return 2; }
    const char *scratch = argv[1];
    /* run as an unprivileged user: an escaped write can reach nothing real */
    if (getuid() == 0) {
        if (chown(scratch, 65534, 65534) != 0) {}
        if (setgid(65534) != 0) {}
        if (setuid(65534) != 0) {}
    }
    prctl(PR_SET_DUMPABLE, 1);
    signal(SIGPIPE, SIG_IGN);
    umask(022);
    if (chdir(scratch) != 0) { perror("chdir"); return 2; }
    int base = open(".", O_RDONLY | O_DIRECTORY);
    sh = (shared_t *)mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int fin = memfd_create("in", 0), fout = memfd_create("out", 0), ferr = memfd_create("err", 0);
    sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, NULL);
    std::string req, out;
    uint32_t serial = 0;

    /* let the children share the unwinder's one-time preparations */
    try { throw std::runtime_error("x"); } catch (const std::exception &) {}

    for (;;) {
        uint32_t total;
        if (!rdn(&total, 4)) break;
        req.resize(total);
        if (!rdn(&req[0], total)) break;
        cur = req.data(); endp = cur + total;
        uint32_t nreq = g32();
        out.clear();
        for (uint32_t r = 0; r < nreq; r++) {
            uint32_t flags = g32();
            g_fault_kind = g32(); g_fault_n = g32(); g_fault_errno = g32();
            long limit_ms = g32(); if (!limit_ms) limit_ms = TOOL_TIMEOUT_MS;
            std::vector<std::string> args(g32());
            for (auto &a : args) a = gstr();
            std::string in = gstr();
            std::vector<ent> files(g32());
            for (auto &f : files) { f.kind = g32(); f.name = gstr(); f.content = gstr(); }
            std::vector<std::string> env(g32());
            for (auto &e : env) e = gstr();
            uint32_t ok = g32(), ik = g32();
            std::string cwd = gstr();

            int dfd = -1;
            std::string dn;
            if (flags & 1) {
                dn = "w" + std::to_string(serial++);
                mkdirat(base, dn.c_str(), 0755);
                dfd = openat(base, dn.c_str(), O_RDONLY | O_DIRECTORY);
                for (auto &f : files) {
                    if (f.kind == 1) { mkdirat(dfd, f.name.c_str(), 0755); if (!f.content.empty()) fchmodat(dfd, f.name.c_str(), strtol(f.content.c_str(), NULL, 8), 0); }
                    else if (f.kind == 2) { if (symlinkat(f.content.c_str(), dfd, f.name.c_str())) {} }
                    else if (f.kind == 3) { mkfifoat(dfd, f.name.c_str(), 0644); }
                    else if (f.kind == 6) { if (linkat(dfd, f.content.c_str(), dfd, f.name.c_str(), 0)) {} }
                    else {
                        int fd = openat(dfd, f.name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                        if (fd >= 0) {
                            if (write(fd, f.content.data(), f.content.size()) < 0) {}
                            if (f.kind == 4) fchmod(fd, 0444);
                            if (f.kind == 5) fchmod(fd, 0);
                            close(fd);
                        }
                    }
                }
            }
            if (ftruncate(fin, 0) || ftruncate(fout, 0) || ftruncate(ferr, 0)) {}
            if (!in.empty() && pwrite(fin, in.data(), in.size(), 0) < 0) {}
            lseek(fin, 0, SEEK_SET); lseek(fout, 0, SEEK_SET); lseek(ferr, 0, SEEK_SET);
            sh->calls = 0; sh->loglen = 0;

            std::vector<char *> av;
            /* the absolute name of the scratch directory of this run */
            for (auto &a : args) {
                size_t at = a.find("@CWD@");
                if (at != a.npos) a.replace(at, 5, std::string(scratch) + "/" + dn);
            }
            for (auto &a : args) av.push_back(&a[0]);
            av.push_back(NULL);

            pid_t pid = fork();
            if (pid == 0) {
                sigprocmask(SIG_UNBLOCK, &chld, NULL);
                signal(SIGPIPE, SIG_IGN);
                if (dfd >= 0) { if (fchdir(dfd)) _exit(99); if (!cwd.empty() && chdir(cwd.c_str())) _exit(99); }
                for (auto &e : env) putenv(strdup(e.c_str()));
                tzset();
                switch (ik) {
                case 1: close(0); break;
                case 2: { int f = open(".", O_RDONLY); dup2(f, 0); close(f); break; }
                case 3: { int p[2]; if (pipe(p)) _exit(99); if (fork() == 0) { close(p[0]); size_t o = 0; while (o < in.size()) { ssize_t w = write(p[1], in.data() + o, in.size() - o); if (w <= 0) break; o += w; } _exit(0); } close(p[1]); dup2(p[0], 0); close(p[0]); break; }
                default: dup2(fin, 0);
                }
                switch (ok) {
                case 1: { int f = open("/dev/full", O_WRONLY); dup2(f, 1); close(f); break; }
                case 2: close(1); break;
                case 3: { int p[2]; if (pipe(p)) _exit(99); close(p[0]); dup2(p[1], 1); close(p[1]); break; }
                default: dup2(fout, 1);
                }
                dup2(ferr, 2);
                close(fin); close(fout); close(ferr); if (dfd >= 0) close(dfd); close(base);
                struct rlimit rl = { 0, 0 };
                setrlimit(RLIMIT_CORE, &rl);
                rl.rlim_cur = 64 << 20; rl.rlim_max = 64 << 20;
                signal(SIGXFSZ, SIG_IGN);
                setrlimit(RLIMIT_FSIZE, &rl);
#ifndef TOOL_NO_AS_LIMIT
                rl.rlim_cur = rl.rlim_max = 1u << 30;
                setrlimit(RLIMIT_AS, &rl);
#endif
                if (g_fault_kind) install_filter();
                program_invocation_short_name = program_invocation_name = (char *)"gendlopen";
                exit(gdo_tool_main((int)args.size(), av.data()));
            }
            int status = 0;
            uint32_t timed_out = 0;
            struct timespec ts0, ts1;
            clock_gettime(CLOCK_MONOTONIC, &ts0);
            for (;;) {
                pid_t w = waitpid(pid, &status, WNOHANG);
                if (w == pid) break;
                clock_gettime(CLOCK_MONOTONIC, &ts1);
                long ms = (ts1.tv_sec - ts0.tv_sec) * 1000 + (ts1.tv_nsec - ts0.tv_nsec) / 1000000;
                if (ms > limit_ms) { kill(pid, SIGKILL); waitpid(pid, &status, 0); timed_out = 1; break; }
                struct timespec to = { 0, 200 * 1000000 };
                siginfo_t si;
                sigtimedwait(&chld, &si, &to);
            }
            while (waitpid(-1, NULL, WNOHANG) > 0) {}
            p32(out, status); p32(out, timed_out);
            pstr(out, slurp(fout)); pstr(out, slurp(ferr));
            std::vector<ent> es;
            if (dfd >= 0) {
                snap(dfd, "", es);
                std::sort(es.begin(), es.end(), [](const ent &a, const ent &b) { return a.name < b.name; });
                rm_tree(dfd); close(dfd);
                unlinkat(base, dn.c_str(), AT_REMOVEDIR);
            }
            p32(out, es.size());
            for (auto &e : es) { p32(out, e.kind); pstr(out, e.name); pstr(out, e.content); }
            p32(out, sh->calls);
            pstr(out, std::string(sh->log, sh->loglen));
        }
        std::string hdr; p32(hdr, out.size());
        wrn(hdr); wrn(out);
    }
    return 0;
}
