// File-system fault injection inside the process. A seccomp filter turns every file system call
// into a SIGSYS; the handler performs the call itself, records it, or makes it fail as planned.
// Nothing but the return value of the call is simulated, the files are real.
#pragma once
#include "util.h"
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>

enum Role { R_DEST, R_TEMP, R_OTHER };
struct SysEvent
{
    int nr;
    Role role;
    bool after_truncate; // the destination had already been truncated or written
    bool writes;         // open for writing
    long result;
};
static SysEvent g_events[20000];
static int g_nevents;
static volatile bool g_armed;
static int g_fail_at;        // index of the event that fails, -1: none
static int g_fail_errno;
static int g_fail_mode;      // 0: only that one; 1: it and all later ones of the same class; 2: it transfers less than asked for; 3: no open of the destination succeeds; 4: none for writing does, and reads transfer less than asked for
static bool g_short_reads;   // mode 4
static int g_short_hits;
static bool g_spare_unlink;  // never fail the removal of a file
static char g_made[64][4200]; // names that were created or opened for creation
static int g_nmade;
static int g_fail_hits;
static bool g_truncated;
static char g_dest[4200];
static u8 g_fd_role[1024];   // 0 unknown, 1 dest, 2 temp

static const int TRAPPED[] = {
    SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev, SYS_lseek, SYS_close,
    SYS_fstat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_ftruncate, SYS_truncate, SYS_rename, SYS_renameat, SYS_renameat2,
    SYS_unlink, SYS_unlinkat, SYS_link, SYS_linkat, SYS_fsync, SYS_fdatasync, SYS_fallocate, SYS_copy_file_range, SYS_sendfile,
    SYS_fchmod, SYS_chmod, SYS_fchown, SYS_access, SYS_faccessat, SYS_faccessat2,
    SYS_mkdir, SYS_mkdirat, SYS_mknod, SYS_mknodat, SYS_symlink, SYS_symlinkat};

static const char* sys_name(int nr)
{
    switch (nr)
    {
        case SYS_open: case SYS_openat: case SYS_creat: return "open";
        case SYS_read: case SYS_pread64: case SYS_readv: return "read";
        case SYS_write: case SYS_pwrite64: case SYS_writev: return "write";
        case SYS_lseek: return "seek";
        case SYS_close: return "close";
        case SYS_fstat: case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: return "stat";
        case SYS_ftruncate: case SYS_truncate: return "truncate";
        case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename";
        case SYS_unlink: case SYS_unlinkat: return "unlink";
        case SYS_link: case SYS_linkat: return "link";
        case SYS_fsync: case SYS_fdatasync: return "sync";
        case SYS_copy_file_range: case SYS_sendfile: return "copy";
        default: return "other";
    }
}
static int sys_class(int nr)
{
    const char* n = sys_name(nr);
    return n[0] * 256 + n[1];
}
static const char* role_name(Role r) { return r == R_DEST ? "file" : r == R_TEMP ? "temp" : "other"; }

extern "C" long raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char raw_syscall_end[];
asm(".text\n.globl raw_syscall\n.type raw_syscall,@function\nraw_syscall:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
    "syscall\n.globl raw_syscall_end\nraw_syscall_end:\nret\n.size raw_syscall,.-raw_syscall\n");

static void on_sigsys(int, siginfo_t* si, void* ctx)
{
    ucontext_t* uc = (ucontext_t*) ctx;
    greg_t* g = uc->uc_mcontext.gregs;
    int nr = si->si_syscall;
    long a[6] = {(long) g[REG_RDI], (long) g[REG_RSI], (long) g[REG_RDX], (long) g[REG_R10], (long) g[REG_R8], (long) g[REG_R9]};
    if (!g_armed) { g[REG_RAX] = raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return; }

    const char* path = NULL;
    long fd = -1, flags = 0;
    switch (nr)
    {
        case SYS_open: path = (const char*) a[0]; flags = a[1]; break;
        case SYS_creat: path = (const char*) a[0]; flags = O_WRONLY | O_CREAT | O_TRUNC; break;
        case SYS_openat: path = (const char*) a[1]; flags = a[2]; break;
        case SYS_stat: case SYS_lstat: case SYS_truncate: case SYS_unlink: case SYS_chmod: case SYS_access: case SYS_mkdir: case SYS_mknod: path = (const char*) a[0]; break;
        case SYS_rename: case SYS_link: case SYS_symlink: path = (const char*) a[1]; break;
        case SYS_renameat: case SYS_renameat2: case SYS_linkat: path = (const char*) a[3]; break;
        case SYS_symlinkat: path = (const char*) a[2]; break;
        case SYS_newfstatat: case SYS_statx: path = (const char*) a[1]; if (path == NULL || *path == 0) { path = NULL; fd = a[0]; } break;
        case SYS_unlinkat: case SYS_mkdirat: case SYS_mknodat: case SYS_faccessat: case SYS_faccessat2: path = (const char*) a[1]; break;
        case SYS_copy_file_range: fd = a[2]; break;
        default: fd = a[0];
    }
    const char* made = NULL; // absolute paths and those relative to the current directory
    switch (nr)
    {
        case SYS_open: case SYS_openat: case SYS_creat: if (flags & O_CREAT) made = path; break;
        case SYS_rename: case SYS_link: case SYS_symlink: made = (const char*) a[1]; break;
        case SYS_renameat: case SYS_renameat2: case SYS_linkat: made = (const char*) a[3]; break;
        case SYS_symlinkat: made = (const char*) a[2]; break;
        case SYS_mkdir: case SYS_mknod: made = (const char*) a[0]; break;
        case SYS_mkdirat: case SYS_mknodat: made = (const char*) a[1]; break;
    }
    if (made != NULL && strcmp(made, g_dest) != 0 && g_nmade < 64) { strncpy(g_made[g_nmade], made, 4199); g_nmade++; }
    Role role = R_OTHER;
    if (path != NULL) role = strcmp(path, g_dest) == 0 ? R_DEST : R_TEMP;
    else if (fd >= 0 && fd < 1024) role = g_fd_role[fd] == 1 ? R_DEST : g_fd_role[fd] == 2 ? R_TEMP : R_OTHER;

    int i = g_nevents;
    bool fail_this = false;
    if (role != R_OTHER) // fds the code under test did not open (stderr) are left alone
    {
        if (g_nevents < 20000)
        {
            SysEvent& ev = g_events[g_nevents++];
            ev.nr = nr;
            ev.role = role;
            ev.after_truncate = g_truncated;
            ev.writes = (flags & O_ACCMODE) != O_RDONLY;
        }
        fail_this = g_fail_at == i || (g_fail_mode == 1 && g_fail_at >= 0 && i > g_fail_at && sys_class(g_events[g_fail_at].nr) == sys_class(nr));
    }
    if (g_fail_mode == 3 && role == R_DEST && (strcmp(sys_name(nr), "open") == 0 || nr == SYS_access || nr == SYS_faccessat || nr == SYS_faccessat2)) fail_this = true;
    if (g_fail_mode == 4 && role == R_DEST)
    {
        if (strcmp(sys_name(nr), "open") == 0 && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))) fail_this = true;
        if (nr == SYS_read && a[2] > 1 && g_short_reads) { g_short_hits++; a[2] = 1 + (long) (mix((u64) i) % (u64) (a[2] - 1)); }
    }
    long res;
    if (g_spare_unlink && (nr == SYS_unlink || nr == SYS_unlinkat)) fail_this = false;
    if (fail_this && g_fail_mode == 2)
    {
        fail_this = false;
        if ((nr == SYS_read || nr == SYS_write) && a[2] > 1)
        {
            g_fail_hits++;
            a[2] = (a[2] + 1) / 2;
        }
    }
    if (fail_this)
    {
        g_fail_hits++;
        if (nr == SYS_close) { raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]); if (fd >= 0 && fd < 1024) g_fd_role[fd] = 0; }
        res = -g_fail_errno;
    }
    else res = raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (i < 20000 && role != R_OTHER) g_events[i].result = res;
    if (!fail_this && res >= 0)
    {
        bool opened = nr == SYS_open || nr == SYS_openat || nr == SYS_creat;
        if (opened && res < 1024) g_fd_role[res] = role == R_DEST ? 1 : 2;
        if (opened && role == R_DEST && (flags & O_TRUNC)) g_truncated = true;
        if (role == R_DEST && (nr == SYS_ftruncate || nr == SYS_truncate || nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev || nr == SYS_copy_file_range || nr == SYS_sendfile || nr == SYS_unlink || nr == SYS_unlinkat)) g_truncated = true;
        if (nr == SYS_close && fd >= 0 && fd < 1024) g_fd_role[fd] = 0;
    }
    g[REG_RAX] = res;
}

static void faults_install()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, NULL) != 0) harness_error("sigaction");
    const int n = sizeof TRAPPED / sizeof *TRAPPED;
    static struct sock_filter f[n + 8];
    int k = 0;
    u64 ip = (u64) (uintptr_t) raw_syscall_end;
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32) ip, 0, 2);
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32) (ip >> 32), (u8) (n + 1), 0);
    f[k++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < n; i++) f[k++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32) TRAPPED[i], (u8) (n - i), 0);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog prog = {(unsigned short) k, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0) harness_error("no_new_privs");
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) != 0) harness_error("seccomp");
}
static void faults_arm(const char* dest, int fail_at, int err, int mode)
{
    snprintf(g_dest, sizeof g_dest, "%s", dest);
    memset(g_fd_role, 0, sizeof g_fd_role);
    g_nevents = 0;
    g_fail_at = fail_at;
    g_fail_errno = err;
    g_fail_mode = mode;
    g_fail_hits = g_short_hits = 0;
    g_truncated = false;
    g_nmade = 0;
    g_armed = true;
}
static void faults_disarm() { g_armed = false; }
