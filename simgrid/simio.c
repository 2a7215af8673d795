/*
 * simio: the simulated-disk seam.
 *
 * Loaded with LD_PRELOAD into the interpreter that runs simplegrid.  Every libc
 * file operation on a path below the simulation root passes through here and
 * is given a sequence number, written to a log that survives the death of the
 * process, and, if the plan of the run says so, disturbed: failed with an
 * errno, shortened, made to run out of disk space, lost at close, interrupted
 * by a signal, preceded by an action of an outside process, or made the point
 * at which the whole process is killed.  Nothing here is random: the plan is
 * computed from the seed by the Python side before the run.  Operations on any
 * other path, and all operations while no run is active, go straight through.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXLOG   60000
#define MAXPATH  512
#define PATHLEN  160
#define MAXPLAN  256
#define MAXFD    4096

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_TRUNC, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_OPENDIR, OP_READDIR, OP_STAT, OP_MMAP, OP_FSYNC, OP_DUP, OP_OTHER };

enum { F_ERR = 1, F_SHORT, F_NOSPC, F_CRASH, F_ACTION, F_STICKY, F_LOSE, F_SIGINT };

struct ent { int64_t seq; int32_t type, pathid, flags, fault; int64_t off, len, res; int32_t err, pad; };

struct shared {
    int64_t nops, nlog, npath, crashed, budget_hit, nalloc, alloc_failed;
    int64_t fired[16];
    struct ent log[MAXLOG];
    char path[MAXPATH][PATHLEN];
};

struct plan { int32_t type; int64_t nth; int32_t kind, used; int64_t arg, arg2; };   /* the nth operation of a type (0: of any type) */

static struct shared *S;
static char root[PATH_MAX];
static size_t rootlen;
static int active;
static int64_t op_budget;
static struct plan plan[MAXPLAN];
static int nplan;
static int64_t typecount[32];
static int64_t space_left = -1;
static uint64_t dirseed;
static long tick;
static int stdio_buf = 4096;
static struct { int used; int pathid; int writable; int append; int64_t wrote; int64_t first_off; int sticky; } fdt[MAXFD];
static char action_src[64][PATH_MAX], action_dst[64][PATH_MAX];
static int action_kind[64];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int sticky_path[MAXPATH];

#define REAL(ret, name, args) static ret (*real_##name) args; \
    if (!real_##name) real_##name = (ret (*) args)dlsym(RTLD_NEXT, #name)

/* ---- control interface (ctypes) ---------------------------------------- */

void *simio_shared_new(void)
{
    void *p = mmap(NULL, sizeof(struct shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? NULL : p;
}
void simio_shared_free(void *p) { if (p) munmap(p, sizeof(struct shared)); }
void simio_shared_reset(void *p)
{
    struct shared *s = p;
    s->nops = s->nlog = s->npath = s->crashed = s->budget_hit = s->nalloc = s->alloc_failed = 0;
    memset(s->fired, 0, sizeof s->fired);
}

void simio_begin(void *shared, const char *r, int64_t budget, uint64_t dseed, int sbuf, long now)
{
    S = shared; tick = now;
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    op_budget = budget; dirseed = dseed; stdio_buf = sbuf > 0 ? sbuf : 4096;
    nplan = 0; space_left = -1;
    memset(fdt, 0, sizeof fdt);
    memset(sticky_path, 0, sizeof sticky_path);
    memset(typecount, 0, sizeof typecount);
}
void simio_plan(int type, int64_t nth, int kind, int64_t arg, int64_t arg2)
{
    if (nplan < MAXPLAN) { plan[nplan].type = type; plan[nplan].nth = nth; plan[nplan].kind = kind; plan[nplan].arg = arg;
        plan[nplan].arg2 = arg2; plan[nplan].used = 0; nplan++; }
}
void simio_action(int i, int kind, const char *src, const char *dst)
{
    action_kind[i] = kind;
    strncpy(action_src[i], src, PATH_MAX-1); strncpy(action_dst[i], dst ? dst : "", PATH_MAX-1);
}
void simio_go(void)   { active = 1; }
void simio_stop(void) { active = 0; }
int64_t simio_nalloc(void *p) { return ((struct shared *)p)->nalloc; }
int64_t simio_alloc_failed(void *p) { return ((struct shared *)p)->alloc_failed; }
void simio_space(int64_t n) { space_left = n; }
int64_t simio_nops(void *p) { return ((struct shared *)p)->nops; }
int64_t simio_nlog(void *p) { return ((struct shared *)p)->nlog; }
int64_t simio_crashed(void *p) { return ((struct shared *)p)->crashed; }
int64_t simio_budget_hit(void *p) { return ((struct shared *)p)->budget_hit; }
int64_t simio_fired(void *p, int k) { return ((struct shared *)p)->fired[k]; }
void simio_log(void *p, int64_t i, struct ent *out) { *out = ((struct shared *)p)->log[i]; }
const char *simio_path(void *p, int i) { return ((struct shared *)p)->path[i]; }

/* ---- helpers ------------------------------------------------------------ */

static void full(const char *p, char *out)
{
    if (p[0] == '/') { strncpy(out, p, PATH_MAX-1); out[PATH_MAX-1] = 0; }
    else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
        while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; }
        if (!strcmp(p, ".")) snprintf(out, PATH_MAX, "%s", cwd);
        else snprintf(out, PATH_MAX, "%s/%s", cwd, p);
    }
    /* collapse '//' and '/./' */
    char *w = out; const char *r = out;
    while (*r) {
        if (r[0] == '/' && r[1] == '/') { r++; continue; }
        if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || r[2] == 0)) { r += 2; continue; }
        *w++ = *r++;
    }
    *w = 0;
    if (!out[0]) strcpy(out, "/");
}
static int under(const char *f) { return rootlen && !strncmp(f, root, rootlen) && (f[rootlen] == '/' || !f[rootlen]); }
static int path_id(const char *f)
{
    const char *rel = f[rootlen] ? f + rootlen + 1 : ".";
    for (int i = 0; i < S->npath; i++) if (!strncmp(S->path[i], rel, PATHLEN-1)) return i;
    if (S->npath >= MAXPATH) return MAXPATH-1;
    strncpy(S->path[S->npath], rel, PATHLEN-1);
    return S->npath++;
}
/* is this path of concern?  returns path id or -1 */
static int mine(int dirfd, const char *p)
{
    char f[PATH_MAX];
    if (!active || !p) return -1;
    if (p[0] != '/' && dirfd != AT_FDCWD) return -1;
    full(p, f);
    if (!under(f)) return -1;
    pthread_mutex_lock(&mu);
    int id = path_id(f);
    pthread_mutex_unlock(&mu);
    return id;
}
static int fdmine(int fd) { return active && fd >= 0 && fd < MAXFD && fdt[fd].used; }

static void die(int code) { syscall(SYS_exit_group, code); }

struct op { struct ent *e; int kind; int64_t arg, arg2; };

static void do_action(int i)
{
    if (action_kind[i] == 1) syscall(SYS_rename, action_src[i], action_dst[i]);
    else if (action_kind[i] == 2) syscall(SYS_unlink, action_src[i]);
}

/* start an operation: number it, log it, look up its fault */
static struct op begin(int type, int pathid, int64_t off, int64_t len, int flags)
{
    static struct ent dummy;
    struct op o = { &dummy, 0, 0, 0 };
    pthread_mutex_lock(&mu);
    int64_t seq = S->nops++, nth = typecount[type]++;
    if (S->nlog < MAXLOG) o.e = &S->log[S->nlog++];
    memset(o.e, 0, sizeof *o.e);
    o.e->seq = seq; o.e->type = type; o.e->pathid = pathid; o.e->off = off; o.e->len = len; o.e->flags = flags;
    for (int i = 0; i < nplan; i++) {
        if (plan[i].used) continue;
        if (plan[i].type ? (plan[i].type != type || plan[i].nth != nth) : plan[i].nth != seq) continue;
        plan[i].used = 1;
        if (plan[i].kind == F_NOSPC) { space_left = plan[i].arg; S->fired[F_NOSPC]++; o.e->fault = F_NOSPC; continue; }
        if (plan[i].kind == F_ACTION) { do_action((int)plan[i].arg); S->fired[F_ACTION]++; o.e->fault = F_ACTION; continue; }
        if (plan[i].kind == F_SIGINT) { S->fired[F_SIGINT]++; o.e->fault = F_SIGINT; raise(SIGINT); continue; }
        o.kind = plan[i].kind; o.arg = plan[i].arg; o.arg2 = plan[i].arg2;
        if (o.kind == F_STICKY) sticky_path[pathid] = (int)o.arg;
    }
    if (op_budget && seq > op_budget) { S->budget_hit = 1; die(99); }
    if (!o.kind && sticky_path[pathid] && (type == OP_READ || type == OP_WRITE || type == OP_MMAP))
        { o.kind = F_ERR; o.arg = sticky_path[pathid]; }
    if (o.kind == F_STICKY) o.kind = F_ERR;
    pthread_mutex_unlock(&mu);
    if (o.kind == F_CRASH && type != OP_WRITE) {
        o.e->fault = F_CRASH; S->fired[F_CRASH]++; S->crashed = 1; die(137);
    }
    return o;
}
static int failing(struct op *o)
{
    if (o->kind == F_ERR) {
        o->e->fault = F_ERR; S->fired[F_ERR]++;
        o->e->res = -1; o->e->err = (int)o->arg; errno = (int)o->arg; return 1;
    }
    return 0;
}
static void end(struct op *o, int64_t res) { o->e->res = res; o->e->err = res < 0 ? errno : 0; }

/* ---- raw file operations with faults ------------------------------------ */

static int64_t raw_off(int fd) { return syscall(SYS_lseek, fd, 0, SEEK_CUR); }

static ssize_t sim_read(int fd, void *buf, size_t n, int64_t at)
{
    struct op o = begin(OP_READ, fdt[fd].pathid, at >= 0 ? at : raw_off(fd), n, 0);
    if (failing(&o)) return -1;
    if (o.kind == F_SHORT && n > 1) {
        size_t m = (size_t)o.arg < n ? (size_t)o.arg : n - 1;
        if (m < 1) m = 1;
        if (m < n) { n = m; o.e->fault = F_SHORT; S->fired[F_SHORT]++; }
    }
    ssize_t r = at >= 0 ? syscall(SYS_pread64, fd, buf, n, at) : syscall(SYS_read, fd, buf, n);
    end(&o, r);
    return r;
}
static ssize_t put(int fd, const void *buf, size_t n, int64_t at)
{
    return at >= 0 ? syscall(SYS_pwrite64, fd, buf, n, at) : syscall(SYS_write, fd, buf, n);
}
static ssize_t sim_write(int fd, const void *buf, size_t n, int64_t at)
{
    struct op o = begin(OP_WRITE, fdt[fd].pathid, at >= 0 ? at : raw_off(fd), n, 0);
    if (failing(&o)) return -1;
    if (o.kind == F_CRASH) {
        size_t m = o.arg < 0 ? n : ((size_t)o.arg < n ? (size_t)o.arg : n);
        if (m) put(fd, buf, m, at);
        o.e->fault = F_CRASH; o.e->res = m; S->fired[F_CRASH]++; S->crashed = 1; die(137);
    }
    if (o.kind == F_SHORT && n > 1) {
        size_t m = (size_t)o.arg < n ? (size_t)o.arg : n - 1;
        if (m < 1) m = 1;
        if (m < n) { n = m; o.e->fault = F_SHORT; S->fired[F_SHORT]++; }
    }
    if (space_left >= 0 && n) {
        if (space_left == 0) {
            o.e->fault = F_NOSPC; S->fired[0]++;
            o.e->res = -1; o.e->err = ENOSPC; errno = ENOSPC; return -1;
        }
        if ((int64_t)n > space_left) { n = space_left; o.e->fault = F_NOSPC; }
        space_left -= n;
    }
    ssize_t r = put(fd, buf, n, at);
    if (r > 0) { fdt[fd].wrote += r; }
    end(&o, r);
    return r;
}
static int sim_close(int fd)
{
    struct op o = begin(OP_CLOSE, fdt[fd].pathid, fdt[fd].wrote, 0, fdt[fd].writable);
    int writable = fdt[fd].writable;
    memset(&fdt[fd], 0, sizeof fdt[fd]);
    if (o.kind == F_LOSE && writable) {
        /* write-back failed: the tail of the file never reached the disk */
        struct stat st;
        if (!fstat(fd, &st)) {
            int64_t keep = st.st_size - o.arg2; if (keep < 0) keep = 0;
            if (ftruncate(fd, keep)) {}
        }
        o.e->fault = F_LOSE; S->fired[F_LOSE]++;
        syscall(SYS_close, fd);
        o.e->res = -1; o.e->err = (int)o.arg; errno = (int)o.arg; return -1;
    }
    if (o.kind == F_ERR && writable) {
        o.e->fault = F_ERR; S->fired[F_ERR]++;
        syscall(SYS_close, fd);
        o.e->res = -1; o.e->err = (int)o.arg; errno = (int)o.arg; return -1;
    }
    int r = syscall(SYS_close, fd);
    end(&o, r);
    return r;
}
static void track(int fd, int pathid, int flags)
{
    if (fd >= 0 && fd < MAXFD) {
        memset(&fdt[fd], 0, sizeof fdt[fd]);
        fdt[fd].used = 1; fdt[fd].pathid = pathid;
        fdt[fd].writable = (flags & O_ACCMODE) != O_RDONLY;
        fdt[fd].append = !!(flags & O_APPEND);
    }
}
static int sim_open(int dirfd, const char *p, int flags, mode_t mode, int id)
{
    struct op o = begin(OP_OPEN, id, 0, 0, flags);
    if (failing(&o)) return -1;
    int fd = syscall(SYS_openat, dirfd, p, flags, mode);
    if (fd >= 0) track(fd, id, flags);
    end(&o, fd < 0 ? -1 : 0);
    return fd;
}

/* ---- interposed libc entry points ---------------------------------------- */

static mode_t getmode(int flags, va_list ap) { return (flags & (O_CREAT|__O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }

int open(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    int id = mine(AT_FDCWD, p);
    if (id >= 0) return sim_open(AT_FDCWD, p, flags, m, id);
    return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    int id = mine(AT_FDCWD, p);
    if (id >= 0) return sim_open(AT_FDCWD, p, flags, m, id);
    return syscall(SYS_openat, AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int openat(int d, const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    int id = mine(d, p);
    if (id >= 0) return sim_open(d, p, flags, m, id);
    return syscall(SYS_openat, d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    int id = mine(d, p);
    if (id >= 0) return sim_open(d, p, flags, m, id);
    return syscall(SYS_openat, d, p, flags | O_LARGEFILE, m);
}
int __open64_2(const char *p, int flags) { return open64(p, flags); }
int __open_2(const char *p, int flags) { return open(p, flags); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT|O_WRONLY|O_TRUNC, m); }

ssize_t read(int fd, void *b, size_t n)
{
    if (fdmine(fd)) return sim_read(fd, b, n, -1);
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    if (fdmine(fd)) return sim_read(fd, b, n, o);
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n)
{
    if (fdmine(fd)) return sim_write(fd, b, n, -1);
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    if (fdmine(fd)) return sim_write(fd, b, n, o);
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (fdmine(fd) && c > 0) return sim_read(fd, v[0].iov_base, v[0].iov_len, -1);
    return syscall(SYS_readv, fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fdmine(fd) && c > 0) return sim_write(fd, v[0].iov_base, v[0].iov_len, -1);
    return syscall(SYS_writev, fd, v, c);
}
int close(int fd)
{
    if (fdmine(fd)) return sim_close(fd);
    if (fd >= 0 && fd < MAXFD) fdt[fd].used = 0;
    return syscall(SYS_close, fd);
}
static void copyfd(int a, int b) { if (b >= 0 && b < MAXFD && a >= 0 && a < MAXFD) { fdt[b] = fdt[a]; } }
int dup(int fd)
{
    if (fdmine(fd)) {
        struct op o = begin(OP_DUP, fdt[fd].pathid, 0, 0, 0);
        if (failing(&o)) return -1;
        int r = syscall(SYS_dup, fd); copyfd(fd, r); end(&o, r < 0 ? -1 : 0); return r;
    }
    return syscall(SYS_dup, fd);
}
int dup3(int a, int b, int fl)
{
    int r = syscall(SYS_dup3, a, b, fl);
    if (r >= 0 && r < MAXFD) { if (fdmine(a)) copyfd(a, r); else fdt[r].used = 0; }
    return r;
}
int dup2(int a, int b)
{
    if (a == b) return syscall(SYS_dup2, a, b);
    return dup3(a, b, 0);
}
static int do_fcntl(int fd, int cmd, long arg)
{
    if (fdmine(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
        struct op o = begin(OP_DUP, fdt[fd].pathid, 0, 0, 0);
        if (failing(&o)) return -1;
        int r = syscall(SYS_fcntl, fd, cmd, arg); copyfd(fd, r); end(&o, r < 0 ? -1 : 0); return r;
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

int ftruncate64(int fd, off64_t n)
{
    if (fdmine(fd)) {
        struct op o = begin(OP_TRUNC, fdt[fd].pathid, n, 0, 0);
        if (failing(&o)) return -1;
        int r = syscall(SYS_ftruncate, fd, n); end(&o, r); return r;
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n)
{
    int id = mine(AT_FDCWD, p);
    if (id >= 0) {
        struct op o = begin(OP_TRUNC, id, n, 0, 0);
        if (failing(&o)) return -1;
        int r = syscall(SYS_truncate, p, n); end(&o, r); return r;
    }
    return syscall(SYS_truncate, p, n);
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int fallocate64(int fd, int mode, off64_t a, off64_t l)
{
    if (fdmine(fd)) {
        struct op o = begin(OP_OTHER, fdt[fd].pathid, a, l, 0);
        if (failing(&o)) return -1;
        if (space_left >= 0 && l > space_left) { errno = ENOSPC; end(&o, -1); return -1; }
        int r = syscall(SYS_fallocate, fd, mode, a, l); end(&o, r); return r;
    }
    return syscall(SYS_fallocate, fd, mode, a, l);
}
int fallocate(int fd, int mode, off_t a, off_t l) { return fallocate64(fd, mode, a, l); }
int posix_fallocate64(int fd, off64_t a, off64_t l) { return fallocate64(fd, 0, a, l) ? errno : 0; }
int posix_fallocate(int fd, off_t a, off_t l) { return fallocate64(fd, 0, a, l) ? errno : 0; }

int fsync(int fd)
{
    if (fdmine(fd)) {
        struct op o = begin(OP_FSYNC, fdt[fd].pathid, 0, 0, 0);
        if (failing(&o)) return -1;
        end(&o, 0); return 0;
    }
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd)
{
    if (fdmine(fd)) return fsync(fd);
    return syscall(SYS_fdatasync, fd);
}
int renameat(int a, const char *p, int b, const char *q)
{
    int id = mine(a, p), id2 = mine(b, q);
    if (id >= 0 || id2 >= 0) {
        struct op o = begin(OP_RENAME, id2 >= 0 ? id2 : id, id, 0, 0);
        if (failing(&o)) return -1;
        int r = syscall(SYS_renameat, a, p, b, q); end(&o, r); return r;
    }
    return syscall(SYS_renameat, a, p, b, q);
}
int rename(const char *p, const char *q) { return renameat(AT_FDCWD, p, AT_FDCWD, q); }
int unlinkat(int d, const char *p, int fl)
{
    int id = mine(d, p);
    if (id >= 0) {
        struct op o = begin(OP_UNLINK, id, 0, 0, fl);
        if (failing(&o)) return -1;
        int r = syscall(SYS_unlinkat, d, p, fl); end(&o, r); return r;
    }
    return syscall(SYS_unlinkat, d, p, fl);
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdirat(int d, const char *p, mode_t m)
{
    int id = mine(d, p);
    if (id >= 0) {
        struct op o = begin(OP_MKDIR, id, 0, 0, 0);
        if (failing(&o)) return -1;
        int r = syscall(SYS_mkdirat, d, p, m); end(&o, r); return r;
    }
    return syscall(SYS_mkdirat, d, p, m);
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    if (fdmine(in) || fdmine(out)) { errno = EINVAL; return -1; }   /* callers fall back to read/write */
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    if (fdmine(in) || fdmine(out)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t off)
{
    if (fdmine(fd)) {
        struct op o = begin(OP_MMAP, fdt[fd].pathid, off, n, prot);
        if (failing(&o)) return MAP_FAILED;
        void *p = (void *)syscall(SYS_mmap, a, n, prot, fl, fd, off);
        end(&o, p == MAP_FAILED ? -1 : 0); return p;
    }
    return (void *)syscall(SYS_mmap, a, n, prot, fl, fd, off);
}
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap64(a, n, prot, fl, fd, off); }

/* The clock of the simulated machine advances by a millisecond per file
   operation and a second from one process to the next; its file system stamps
   files with a coarse clock, for which a whole process is one tick.  Stamps that
   are not simulated ones are of files changed by this process (see stamp() in core.py). */
#define EPOCH 1700000000
static void stamp(struct timespec *t)
{
    if (t->tv_sec < EPOCH || t->tv_sec > EPOCH + 1000000) t->tv_sec = EPOCH + tick;
    t->tv_nsec = 0;
}
static int stamped(int r, struct stat64 *b, int ours)
{
    if (r == 0 && ours) {
        stamp(&b->st_mtim);
        b->st_ctim = b->st_atim = b->st_mtim;
    }
    return r;
}

/* (processes with other directory orders have clocks that are off by up to a day) */
int clock_gettime(clockid_t id, struct timespec *t)
{
    if (!active || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return syscall(SYS_clock_gettime, id, t);
    t->tv_sec = EPOCH + tick + (int64_t)(dirseed * 7919 % 86400) + S->nops / 1000;
    t->tv_nsec = S->nops % 1000 * 1000000;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
    struct timespec x;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &x);
    t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p)
{
    struct timespec x;
    clock_gettime(CLOCK_REALTIME, &x);
    if (p) *p = x.tv_sec;
    return x.tv_sec;
}

/* stat on paths: only can fail */
static int statop(int d, const char *p)
{
    int id = mine(d, p);
    if (id >= 0) {
        struct op o = begin(OP_STAT, id, 0, 0, 0);
        if (failing(&o)) return -1;
    }
    return 0;
}
int stat64(const char *p, struct stat64 *b)
{
    if (statop(AT_FDCWD, p)) return -1;
    return stamped(syscall(SYS_newfstatat, AT_FDCWD, p, b, 0), b, mine(AT_FDCWD, p) >= 0);
}
int lstat64(const char *p, struct stat64 *b)
{
    if (statop(AT_FDCWD, p)) return -1;
    return stamped(syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW), b, mine(AT_FDCWD, p) >= 0);
}
int fstatat64(int d, const char *p, struct stat64 *b, int fl)
{
    if (p[0] && statop(d, p)) return -1;
    return stamped(syscall(SYS_newfstatat, d, p, b, fl), b, p[0] ? mine(d, p) >= 0 : fdmine(d));
}
int stat(const char *p, struct stat *b) { return stat64(p, (struct stat64 *)b); }
int lstat(const char *p, struct stat *b) { return lstat64(p, (struct stat64 *)b); }
int fstatat(int d, const char *p, struct stat *b, int fl) { return fstatat64(d, p, (struct stat64 *)b, fl); }

/* fstat: Python sizes its file buffers after st_blksize, so the run's buffer size shows here too */
int fstat64(int fd, struct stat64 *b)
{
    int r = syscall(SYS_newfstatat, fd, "", b, AT_EMPTY_PATH);
    if (r == 0 && fdmine(fd)) b->st_blksize = stdio_buf;
    return stamped(r, b, fdmine(fd));
}
int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *)b); }

/* ---- stdio: numpy's fromfile/tofile use fdopen on a dup'ed descriptor ---- */

extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t);
struct cookie { int fd; FILE *fp; char *buf; };
static struct { FILE *fp; int fd; } cookies[256];

static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct cookie *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t done = 0;                    /* as stdio does: go on after a short write */
    while (done < n) {
        ssize_t r = write(((struct cookie *)c)->fd, b + done, n - done);
        if (r <= 0) break;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w)
{
    off64_t r = lseek64(((struct cookie *)c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r; return 0;
}
static int ck_close(void *c)
{
    struct cookie *k = c;
    for (int i = 0; i < 256; i++) if (cookies[i].fp == k->fp) cookies[i].fp = NULL;
    int r = close(k->fd);
    /* k->buf stays: stdio may still look at it */
    free(k);
    return r;
}
static FILE *cookie_open(int fd, const char *mode)
{
    struct cookie *c = __libc_malloc(sizeof *c);
    c->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *fp = fopencookie(c, mode, io);
    if (!fp) { free(c); return NULL; }
    c->fp = fp;
    /* glibc ignores the size unless it is given the memory as well */
    c->buf = __libc_malloc(stdio_buf);
    if (c->buf) setvbuf(fp, c->buf, _IOFBF, stdio_buf);
    for (int i = 0; i < 256; i++) if (!cookies[i].fp) { cookies[i].fp = fp; cookies[i].fd = fd; break; }
    return fp;
}
FILE *fdopen(int fd, const char *mode)
{
    REAL(FILE *, fdopen, (int, const char *));
    if (fdmine(fd)) return cookie_open(fd, mode);
    return real_fdopen(fd, mode);
}
int fileno(FILE *fp)
{
    REAL(int, fileno, (FILE *));
    for (int i = 0; i < 256; i++) if (cookies[i].fp == fp) return cookies[i].fd;
    return real_fileno(fp);
}
static int modeflags(const char *m)
{
    int plus = !!strchr(m, '+');
    if (m[0] == 'r') return plus ? O_RDWR : O_RDONLY;
    if (m[0] == 'w') return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
}
FILE *fopen64(const char *p, const char *m)
{
    REAL(FILE *, fopen64, (const char *, const char *));
    int id = mine(AT_FDCWD, p);
    if (id >= 0) {
        int fd = sim_open(AT_FDCWD, p, modeflags(m), 0666, id);
        return fd < 0 ? NULL : cookie_open(fd, m);
    }
    return real_fopen64(p, m);
}
FILE *fopen(const char *p, const char *m)
{
    REAL(FILE *, fopen, (const char *, const char *));
    int id = mine(AT_FDCWD, p);
    if (id >= 0) return fopen64(p, m);
    return real_fopen(p, m);
}

/* ---- directories: listed in an order the seed decides -------------------- */

struct simdir { DIR *d; int pathid; int n, i; struct dirent64 **e; };
static struct simdir dirs[64];

static int cmpent(const void *a, const void *b)
{ return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }

static struct dirent64 *(*rreaddir64)(DIR *);

static void load_dir(DIR *d, int id)
{
    if (!rreaddir64) rreaddir64 = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    int slot = -1;
    for (int i = 0; i < 64; i++) if (!dirs[i].d) { slot = i; break; }
    if (slot < 0) return;
    struct simdir *s = &dirs[slot];
    s->d = d; s->pathid = id; s->n = s->i = 0; s->e = NULL;
    struct dirent64 *x;
    while ((x = rreaddir64(d))) {
        s->e = __libc_realloc(s->e, (s->n + 1) * sizeof *s->e);
        s->e[s->n] = __libc_malloc(sizeof *x); memcpy(s->e[s->n], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x); s->n++;
    }
    if (s->n) qsort(s->e, s->n, sizeof *s->e, cmpent);
    if (dirseed) {
        uint64_t r = dirseed * 0x9E3779B97F4A7C15ull + 1;
        for (const char *c = S->path[id]; *c; c++) r = (r ^ (unsigned char)*c) * 0x100000001B3ull;
        for (int i = s->n - 1; i > 0; i--) {
            r ^= r << 13; r ^= r >> 7; r ^= r << 17;
            int j = r % (i + 1);
            struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
        }
    }
}
static struct simdir *find_dir(DIR *d) { for (int i = 0; i < 64; i++) if (dirs[i].d == d && d) return &dirs[i]; return NULL; }

DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, (const char *));
    int id = mine(AT_FDCWD, p);
    if (id < 0) return real_opendir(p);
    struct op o = begin(OP_OPENDIR, id, 0, 0, 0);
    if (failing(&o)) return NULL;
    DIR *d = real_opendir(p);
    if (d) load_dir(d, id);
    end(&o, d ? 0 : -1);
    return d;
}
struct dirent64 *readdir64(DIR *d)
{
    if (!rreaddir64) rreaddir64 = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    struct simdir *s = find_dir(d);
    if (!s) return rreaddir64(d);
    if (active) {
        struct op o = begin(OP_READDIR, s->pathid, s->i, 0, 0);
        if (failing(&o)) return NULL;
        end(&o, 0);
    }
    return s->i < s->n ? s->e[s->i++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d)
{
    REAL(void, rewinddir, (DIR *));
    struct simdir *s = find_dir(d);
    if (s) { s->i = 0; return; }
    real_rewinddir(d);
}
int closedir(DIR *d)
{
    REAL(int, closedir, (DIR *));
    struct simdir *s = find_dir(d);
    if (s) { for (int i = 0; i < s->n; i++) free(s->e[i]); free(s->e); memset(s, 0, sizeof *s); }
    return real_closedir(d);
}

/* ---- allocation failures -------------------------------------------------- */
/* While armed, allocations of the armed thread are counted; the chosen one (and
 * the `alloc_more` following ones) return NULL. */

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int alloc_armed;
static __thread int alloc_mine;
static int64_t alloc_nth, alloc_more, alloc_min;

void simio_alloc_arm(int64_t nth, int64_t more, int64_t min)
{ alloc_nth = nth; alloc_more = more; alloc_min = min; alloc_mine = 1; alloc_armed = 1; }
void simio_alloc_disarm(void) { alloc_armed = 0; }

static int this_alloc_fails(void)
{
    int64_t k = S->nalloc++;
    if (alloc_nth >= 0 && k >= alloc_nth && k <= alloc_nth + alloc_more) { S->alloc_failed++; errno = ENOMEM; return 1; }
    return 0;
}

static int alloc_fails(size_t n)
{ return alloc_armed && alloc_mine && S && alloc_min >= 0 && (int64_t)n >= alloc_min && this_alloc_fails(); }

/* alloc_min < 0: only memory for the data of numpy arrays */
static int np_alloc_fails(void)
{ return alloc_armed && alloc_mine && S && alloc_min < 0 && this_alloc_fails(); }

void *malloc(size_t n) { return alloc_fails(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return alloc_fails(a * b) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return n && alloc_fails(n) ? NULL : __libc_realloc(p, n); }

/* ---- what numpy arrays hold before they are written ------------------------ */

#include <malloc.h>
static int np_poison;

static void *np_malloc(void *ctx, size_t n)
{ (void)ctx; void *p = np_alloc_fails() ? NULL : malloc(n ? n : 1); if (p) memset(p, np_poison, n); return p; }
static void *np_calloc(void *ctx, size_t a, size_t b)
{ (void)ctx; return np_alloc_fails() ? NULL : calloc(a ? a : 1, b ? b : 1); }
static void *np_realloc(void *ctx, void *p, size_t n)
{
    (void)ctx;
    size_t had = p ? malloc_usable_size(p) : 0;
    char *q = np_alloc_fails() ? NULL : realloc(p, n ? n : 1);
    if (q && n > had) memset(q + had, np_poison, n - had);
    return q;
}
static void np_free(void *ctx, void *p, size_t n) { (void)ctx; (void)n; free(p); }

/* PyDataMem_Handler of numpy 1.22 and later */
static struct {
    char name[127]; uint8_t version;
    struct { void *ctx; void *(*m)(void *, size_t), *(*c)(void *, size_t, size_t), *(*r)(void *, void *, size_t);
             void (*f)(void *, void *, size_t); } a;
} np_handler = { "simio", 1, { NULL, np_malloc, np_calloc, np_realloc, np_free } };

void *simio_np_handler(int poison) { np_poison = poison; return &np_handler; }
