/* simos: the operating-system seam of the simulator (LD_PRELOAD).
 *
 * Every file operation whose path lies in one of the simulated roots passes
 * through here.  The simulator arms the seam from Python (ctypes) with a fault
 * plan "at the k-th operation of these kinds on class c do x"; unarmed, calls go straight to
 * libc.  Class 0 = "data" (the library's own modules, YAML, JSON and bytecode
 * cache), class 1 = "user" (the scratch directory with the documents).
 * Nothing here reads a clock or draws randomness: the plan decides everything.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <unistd.h>

enum { OP_OPEN_R = 1, OP_OPEN_W = 2, OP_READ = 4, OP_WRITE = 8, OP_CLOSE = 16, OP_RENAME = 32,
       OP_UNLINK = 64, OP_FSYNC = 128, OP_TRUNC = 256, OP_MKDIR = 512, OP_CHMOD = 1024, OP_LINK = 2048, OP_OPENDIR = 4096 };
enum { A_ERRNO = 1, A_SHORT = 2, A_CRASH_BEFORE = 3, A_CRASH_AFTER = 4, A_TORN = 5, A_STICKY = 6, A_CLOSE_ERR = 7 };

#define MAXFD 4096
#define NCLASS 2
#define MAXFAULT 64
#define MAXLOG 65536
#define MAXROOT 8

static struct { char path[1024]; int cls; } roots[MAXROOT];
static int nroots;
static signed char fdcls[MAXFD];      /* class + 1, 0 = not ours */
static signed char fdwr[MAXFD];
static int armed;
static long opidx[NCLASS];
struct fault { int cls; long k; int action; int err; int mask; long arg; int fired; long seen; };
static struct fault faults[MAXFAULT];
static int nfaults;
static struct { int active; int err; int mask; } sticky[NCLASS];
struct logent { int op; int cls; int res; int fault; };
static struct logent logbuf[MAXLOG];
static int nlog;
static long netcalls;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ---- control interface (called from Python) ---- */
void simos_reset(void) { armed = 0; nfaults = 0; nlog = 0; memset(opidx, 0, sizeof opidx); memset(sticky, 0, sizeof sticky); netcalls = 0; }
void simos_roots_clear(void) { nroots = 0; }
void simos_root(const char *p, int cls) { if (nroots < MAXROOT) { strncpy(roots[nroots].path, p, 1023); roots[nroots++].cls = cls; } }
void simos_fault(int cls, long k, int action, int err, int mask, long arg)
{ if (nfaults < MAXFAULT) { struct fault f = { cls, k, action, err, mask, arg, 0, 0 }; faults[nfaults++] = f; } }
void simos_clear_faults(void) { nfaults = 0; memset(sticky, 0, sizeof sticky); }
int simos_arm(int on) { int o = armed; armed = on; return o; }
long simos_ops(int cls) { return opidx[cls]; }
int simos_fired(int i) { return i < nfaults ? faults[i].fired : 0; }
int simos_nlog(void) { return nlog; }
const struct logent *simos_log(void) { return logbuf; }
int simos_present(void) { return 1; }

/* ---- classification ---- */
static int cls_abs(const char *p)
{
    for (int i = 0; i < nroots; i++) {
        size_t n = strlen(roots[i].path);
        if (!strncmp(p, roots[i].path, n) && (p[n] == '/' || p[n] == 0)) return roots[i].cls;
    }
    return -1;
}
static int cls_path(int dirfd, const char *p)
{
    char buf[4096];
    if (!nroots || !p) return -1;
    if (p[0] == '/') return cls_abs(p);
    if (dirfd == AT_FDCWD) { if (!getcwd(buf, sizeof buf)) return -1; }
    else {
        char l[64]; ssize_t n;
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        n = readlink(l, buf, sizeof buf - 1);
        if (n < 0) return -1;
        buf[n] = 0;
    }
    if (strlen(buf) + strlen(p) + 2 > sizeof buf) return -1;
    strcat(buf, "/"); strcat(buf, p);
    return cls_abs(buf);
}

static int addlog(int op, int cls, int fault)
{ if (nlog < MAXLOG) { logbuf[nlog].op = op; logbuf[nlog].cls = cls; logbuf[nlog].fault = fault; logbuf[nlog].res = 0; return nlog++; } return -1; }
static void setres(int l, long r) { if (l >= 0) logbuf[l].res = (int)r; }

/* returns the fault to apply to this operation, or NULL */
static struct fault stickyf;
static struct fault *gate(int op, int cls, int *lg)
{
    opidx[cls]++;
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (f->cls != cls || f->fired || !(f->mask & op)) continue;
        if (f->seen++ != f->k) continue;    /* the k-th operation it applies to */
        f->fired = 1;
        *lg = addlog(op, cls, f->action);
        if (f->action == A_STICKY) { sticky[cls].active = 1; sticky[cls].err = f->err; sticky[cls].mask = f->mask; }
        return f;
    }
    if (sticky[cls].active && (sticky[cls].mask & op)) {
        stickyf.action = A_STICKY; stickyf.err = sticky[cls].err;
        *lg = addlog(op, cls, A_STICKY);
        return &stickyf;
    }
    *lg = addlog(op, cls, 0);
    return NULL;
}
#define CRASH() _exit(77)

/* ---- open family ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    REAL(int, openat64, int, const char *, int, ...);
    int c = armed ? cls_path(dirfd, path) : -1;
    if (armed && c >= 0 && !(flags & O_DIRECTORY) && (flags & O_PATH) != O_PATH) {
        int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)), lg;
        struct fault *f = gate(w ? OP_OPEN_W : OP_OPEN_R, c, &lg);
        if (f) {
            if (f->action == A_ERRNO || f->action == A_STICKY) { setres(lg, -f->err); errno = f->err; return -1; }
            if (f->action == A_CRASH_BEFORE) CRASH();
        }
        int fd = real_openat64(dirfd, path, flags, mode), e = errno;
        if (f && (f->action == A_CRASH_AFTER || f->action == A_TORN)) CRASH();
        setres(lg, fd < 0 ? -e : 0);
        if (fd >= 0 && fd < MAXFD) { fdcls[fd] = c + 1; fdwr[fd] = w; }
        errno = e;
        return fd;
    }
    int fd = real_openat64(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) fdcls[fd] = 0;
    return fd;
}
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define OURS(fd) (armed && (fd) >= 0 && (fd) < MAXFD && fdcls[fd])

/* ---- data transfer ---- */
#define XFER(OP, CALL, SHORTCALL)                                                        \
    int lg; struct fault *f = gate(OP, fdcls[fd] - 1, &lg);                              \
    if (f) {                                                                             \
        if (f->action == A_ERRNO || f->action == A_STICKY) { setres(lg, -f->err); errno = f->err; return -1; } \
        if (f->action == A_CRASH_BEFORE) CRASH();                                        \
        if ((f->action == A_SHORT || f->action == A_TORN) && n > 1) {                    \
            size_t m = 1 + (size_t)((unsigned long)f->arg % (n - 1));                    \
            ssize_t r = SHORTCALL;                                                       \
            if (f->action == A_TORN) CRASH();                                            \
            setres(lg, r > 0 ? 1 : r); return r;                                         \
        }                                                                                \
        if (f->action == A_TORN) CRASH();                                                \
    }                                                                                    \
    ssize_t r = CALL;                                                                    \
    if (f && f->action == A_CRASH_AFTER) CRASH();                                        \
    setres(lg, r > 0 ? 1 : r);                                                           \
    return r;

ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); if (!OURS(fd)) return real_read(fd, b, n); XFER(OP_READ, real_read(fd, b, n), real_read(fd, b, m)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, int, void *, size_t, off64_t); if (!OURS(fd)) return real_pread64(fd, b, n, o); XFER(OP_READ, real_pread64(fd, b, n, o), real_pread64(fd, b, m, o)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if (!OURS(fd)) return real_write(fd, b, n); XFER(OP_WRITE, real_write(fd, b, n), real_write(fd, b, m)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); if (!OURS(fd)) return real_pwrite64(fd, b, n, o); XFER(OP_WRITE, real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, m, o)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) { REAL(ssize_t, readv, int, const struct iovec *, int); if (!OURS(fd)) return real_readv(fd, v, n); XFER(OP_READ, real_readv(fd, v, n), real_readv(fd, v, 1 + 0 * (int)m)) }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, writev, int, const struct iovec *, int); if (!OURS(fd)) return real_writev(fd, v, n); XFER(OP_WRITE, real_writev(fd, v, n), real_writev(fd, v, 1 + 0 * (int)m)) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (!OURS(fd)) return real_sendfile64(fd, in, o, n); XFER(OP_WRITE, real_sendfile64(fd, in, o, n), real_sendfile64(fd, in, o, m)) }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { return sendfile64(fd, in, o, n); }
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *o, size_t n, unsigned fl) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (!OURS(fd)) return real_copy_file_range(in, io, fd, o, n, fl); XFER(OP_WRITE, real_copy_file_range(in, io, fd, o, n, fl), real_copy_file_range(in, io, fd, o, m, fl)) }

int close(int fd)
{
    REAL(int, close, int);
    if (!OURS(fd)) { if (fd >= 0 && fd < MAXFD) fdcls[fd] = 0; return real_close(fd); }
    int lg; struct fault *f = gate(OP_CLOSE, fdcls[fd] - 1, &lg);
    if (f && f->action == A_CRASH_BEFORE) CRASH();
    fdcls[fd] = 0;
    if (f && f->action == A_CLOSE_ERR && fdwr[fd]) {      /* delayed write-back failed: the tail is lost */
        struct stat st;
        if (!fstat(fd, &st) && st.st_size > 0 && ftruncate(fd, (off_t)((unsigned long)f->arg % (unsigned long)st.st_size))) { }
    }
    int r = real_close(fd);
    if (f && (f->action == A_CRASH_AFTER || f->action == A_TORN)) CRASH();
    if (f && (f->action == A_ERRNO || f->action == A_STICKY || f->action == A_CLOSE_ERR)) { setres(lg, -f->err); errno = f->err; return -1; }
    setres(lg, r);
    return r;
}

/* ---- simple operations ---- */
#define SIMPLE(OP, CLS, CALL)                                                            \
    int c = armed ? (CLS) : -1;                                                          \
    if (c < 0) return CALL;                                                              \
    int lg; struct fault *f = gate(OP, c, &lg);                                          \
    if (f) {                                                                             \
        if (f->action == A_ERRNO || f->action == A_STICKY) { setres(lg, -f->err); errno = f->err; return -1; } \
        if (f->action == A_CRASH_BEFORE || f->action == A_TORN) CRASH();                 \
    }                                                                                    \
    int r = CALL;                                                                        \
    if (f && f->action == A_CRASH_AFTER) CRASH();                                        \
    setres(lg, r);                                                                       \
    return r;
static int max2(int a, int b) { return a > b ? a : b; }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); SIMPLE(OP_RENAME, max2(cls_path(AT_FDCWD, a), cls_path(AT_FDCWD, b)), real_rename(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); SIMPLE(OP_RENAME, max2(cls_path(d, a), cls_path(e, b)), real_renameat(d, a, e, b)) }
int unlink(const char *a) { REAL(int, unlink, const char *); SIMPLE(OP_UNLINK, cls_path(AT_FDCWD, a), real_unlink(a)) }
int unlinkat(int d, const char *a, int fl) { REAL(int, unlinkat, int, const char *, int); SIMPLE(OP_UNLINK, cls_path(d, a), real_unlinkat(d, a, fl)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); SIMPLE(OP_LINK, cls_path(AT_FDCWD, b), real_link(a, b)) }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); SIMPLE(OP_LINK, cls_path(AT_FDCWD, b), real_symlink(a, b)) }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); SIMPLE(OP_MKDIR, cls_path(AT_FDCWD, a), real_mkdir(a, m)) }
int truncate64(const char *a, off64_t n) { REAL(int, truncate64, const char *, off64_t); SIMPLE(OP_TRUNC, cls_path(AT_FDCWD, a), real_truncate64(a, n)) }
int fsync(int fd) { REAL(int, fsync, int); SIMPLE(OP_FSYNC, OURS(fd) ? fdcls[fd] - 1 : -1, real_fsync(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, int); SIMPLE(OP_FSYNC, OURS(fd) ? fdcls[fd] - 1 : -1, real_fdatasync(fd)) }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); SIMPLE(OP_TRUNC, OURS(fd) ? fdcls[fd] - 1 : -1, real_ftruncate64(fd, n)) }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    int c = armed ? cls_path(AT_FDCWD, p) : -1;
    if (c >= 0) {
        int lg; struct fault *f = gate(OP_OPENDIR, c, &lg);
        if (f) {
            if (f->action == A_ERRNO || f->action == A_STICKY) { setres(lg, -f->err); errno = f->err; return NULL; }
            if (f->action != A_SHORT && f->action != A_CLOSE_ERR) CRASH();
        }
    }
    return real_opendir(p);
}

/* ---- stdio, so C libraries reading by FILE* are seen too (counted and failed at open only) ---- */
FILE *fopen64(const char *p, const char *m)
{
    REAL(FILE *, fopen64, const char *, const char *);
    int c = armed ? cls_path(AT_FDCWD, p) : -1;
    if (c >= 0) {
        int lg; struct fault *f = gate(strpbrk(m, "wa+") ? OP_OPEN_W : OP_OPEN_R, c, &lg);
        if (f) {
            if (f->action == A_ERRNO || f->action == A_STICKY) { setres(lg, -f->err); errno = f->err; return NULL; }
            if (f->action == A_CRASH_BEFORE || f->action == A_TORN) CRASH();
        }
    }
    return real_fopen64(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }

/* ---- network: nothing leaves the process while a run is going on ---- */
long simos_netcalls(void) { return netcalls; }
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    REAL(int, connect, int, const struct sockaddr *, socklen_t);
    if (armed && a && a->sa_family != AF_UNIX) { netcalls++; errno = ENETUNREACH; return -1; }
    return real_connect(fd, a, l);
}
