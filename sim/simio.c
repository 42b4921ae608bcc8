/* simio: the I/O seam of the simulator.
 *
 * LD_PRELOADed into the simulation workers. Until sim_arm() is called every
 * call goes straight to libc. Once armed, calls on paths below the registered
 * roots are numbered, logged and, if the plan of the run says so, fail, are
 * shortened, are interrupted, or end the process ("crash").
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPENW, K_OPENR, K_READ, K_WRITE, K_FSYNC, K_CLOSE, K_RENAME, K_UNLINK,
       K_TRUNC, K_MKDIR, K_CHMOD, K_LINK, NKIND };
enum { A_NONE, A_ERRNO, A_CRASH, A_CRASH_AFTER, A_SHORT, A_SIGINT };

#define MAXROOT 4
#define MAXFAULT 16
#define MAXFD 4096

struct fault { uint32_t kinds; int32_t root; int64_t nth; int32_t action; int32_t arg; int32_t sticky;
               int64_t seen; int64_t fired; };

static int armed = 0;
static char roots[MAXROOT][PATH_MAX];
static size_t rootlen[MAXROOT];
static int nroots = 0;
static struct fault faults[MAXFAULT];
static int nfaults = 0;
static int64_t counts[NKIND];
static int64_t total_ops = 0;
static int64_t wchunk = 0, rchunk = 0;
static int handle_of[MAXFD];       /* 0: not tracked */
static int root_of[MAXFD];
static int next_handle = 1;
static int open_handles = 0;
static char *logp = NULL; static int64_t logcap = 0, loglen = 0; static int logover = 0;
static int gate_out = -1, gate_in = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static int (*r_openat)(int, const char*, int, ...);
static ssize_t (*r_read)(int, void*, size_t);
static ssize_t (*r_write)(int, const void*, size_t);
static ssize_t (*r_pread)(int, void*, size_t, off_t);
static ssize_t (*r_pwrite)(int, const void*, size_t, off_t);
static ssize_t (*r_readv)(int, const struct iovec*, int);
static ssize_t (*r_writev)(int, const struct iovec*, int);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_close)(int);
static int (*r_renameat2)(int, const char*, int, const char*, unsigned);
static int (*r_renameat)(int, const char*, int, const char*);
static int (*r_unlinkat)(int, const char*, int);
static int (*r_truncate)(const char*, off_t);
static int (*r_ftruncate)(int, off_t);
static int (*r_mkdirat)(int, const char*, mode_t);
static int (*r_fchmodat)(int, const char*, mode_t, int);
static int (*r_fchmod)(int, mode_t);
static int (*r_linkat)(int, const char*, int, const char*, int);
static int (*r_symlinkat)(const char*, int, const char*);
static ssize_t (*r_sendfile)(int, int, off_t*, size_t);
static ssize_t (*r_cfr)(int, off_t*, int, off_t*, size_t, unsigned);
static int (*r_dup2)(int, int);
static int (*r_dup)(int);

#define R(name) r_##name = dlsym(RTLD_NEXT, #name)
__attribute__((constructor)) static void init(void) {
    if (r_read) return;
    R(openat); R(write); R(pread); R(pwrite); R(readv); R(writev); R(fsync); R(fdatasync);
    R(close); R(renameat2); R(renameat); R(unlinkat); R(truncate); R(ftruncate); R(mkdirat);
    R(fchmodat); R(fchmod); R(linkat); R(symlinkat); R(sendfile); R(dup2); R(dup);
    r_cfr = dlsym(RTLD_NEXT, "copy_file_range");
    R(read);
}

/* ---- control, called through ctypes ---- */
void sim_reset(void) {
    armed = 0; nroots = nfaults = 0; memset(counts, 0, sizeof counts); total_ops = 0;
    wchunk = rchunk = 0; memset(handle_of, 0, sizeof handle_of); next_handle = 1; open_handles = 0;
    logp = NULL; logcap = loglen = 0; logover = 0; gate_in = gate_out = -1;
}
int sim_root(const char *p) {
    if (nroots >= MAXROOT) return -1;
    strncpy(roots[nroots], p, PATH_MAX - 1); rootlen[nroots] = strlen(roots[nroots]);
    return nroots++;
}
int sim_fault(uint32_t kinds, int root, int64_t nth, int action, int arg, int sticky) {
    if (nfaults >= MAXFAULT) return -1;
    struct fault *f = &faults[nfaults];
    f->kinds = kinds; f->root = root; f->nth = nth; f->action = action; f->arg = arg; f->sticky = sticky;
    f->seen = f->fired = 0;
    return nfaults++;
}
int64_t sim_fired(int i) { return i < nfaults ? faults[i].fired : -1; }
void sim_clear_faults(void) { nfaults = 0; }
void sim_chunks(int64_t w, int64_t r) { wchunk = w; rchunk = r; }
void sim_log(char *p, int64_t cap) { logp = p; logcap = cap; loglen = 8; *(int64_t*)p = 8; logover = 0; }
void sim_gate(int out, int in) { gate_out = out; gate_in = in; }
void sim_arm(int on) { armed = on; }
int64_t sim_count(int k) { return k < 0 ? total_ops : counts[k]; }
int sim_open_handles(void) { return open_handles; }
int sim_log_overflow(void) { return logover; }

/* ---- internals ---- */
static void abspath(int dirfd, const char *path, char *out) {
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); return; }
    char base[PATH_MAX]; base[0] = 0;
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else {
        char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(link, base, sizeof base - 1); base[n > 0 ? n : 0] = 0;
    }
    size_t bl = strlen(base);
    if (bl + strlen(path) + 2 >= PATH_MAX) { out[0] = 0; return; }
    memcpy(out, base, bl); out[bl] = '/'; strcpy(out + bl + 1, path);
}
static int root_for(const char *abs) {
    for (int i = 0; i < nroots; i++)
        if (!strncmp(abs, roots[i], rootlen[i]) && (abs[rootlen[i]] == '/' || abs[rootlen[i]] == 0)) {
            /* python sources below a root are not data */
            size_t n = strlen(abs);
            if (n > 3 && !strcmp(abs + n - 3, ".py")) return -1;
            if (n > 4 && !strcmp(abs + n - 4, ".pyc")) return -1;
            return i;
        }
    return -1;
}
static void record(int kind, int ret, int err, int handle, int aux, int64_t off,
                   const void *a, uint32_t na, const void *b, uint32_t nb) {
    if (!logp) return;
    int64_t need = 40 + na + nb;
    if (loglen + need > logcap) { logover = 1; return; }
    char *p = logp + loglen;
    int32_t h[6] = { (int32_t)need, kind, ret, err, handle, aux };
    memcpy(p, h, 24); memcpy(p + 24, &off, 8); memcpy(p + 32, &na, 4); memcpy(p + 36, &nb, 4);
    if (na) memcpy(p + 40, a, na);
    if (nb) memcpy(p + 40 + na, b, nb);
    loglen += need; *(int64_t*)logp = loglen;
}
struct dec { int action, arg; };
static struct dec decide(int kind, int root) {
    struct dec d = { A_NONE, 0 };
    pthread_mutex_lock(&mu);
    counts[kind]++; total_ops++;
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (!(f->kinds & (1u << kind))) continue;
        if (f->root >= 0 && f->root != root) continue;
        int64_t s = f->seen++;
        if (d.action == A_NONE && (s == f->nth || (f->sticky && s > f->nth))) {
            f->fired++; d.action = f->action; d.arg = f->arg;
        }
    }
    pthread_mutex_unlock(&mu);
    if (gate_out >= 0 && kind != K_READ && kind != K_CLOSE) {
        char c = (char)('a' + kind);
        if (r_write(gate_out, &c, 1) != 1 || r_read(gate_in, &c, 1) != 1) _exit(78);
    }
    return d;
}
static void crash(void) { _exit(77); }
#define PRE(kind, root, FAILRET) \
    struct dec d = decide(kind, root); \
    if (d.action == A_CRASH) crash(); \
    if (d.action == A_SIGINT) { kill(getpid(), SIGINT); errno = EINTR; return FAILRET; } \
    if (d.action == A_ERRNO) { record(kind, -1, d.arg, 0, 0, 0, "", 0, NULL, 0); errno = d.arg; return FAILRET; }
#define POST() do { if (d.action == A_CRASH_AFTER) crash(); } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    if (!armed) return r_openat(dirfd, path, flags, mode);
    char abs[PATH_MAX]; abspath(dirfd, path, abs);
    int root = root_for(abs);
    if (root < 0 || (flags & O_DIRECTORY)) return r_openat(dirfd, path, flags, mode);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    PRE(w ? K_OPENW : K_OPENR, root, -1);
    int existed = access(abs, F_OK) == 0;
    int fd = r_openat(dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < MAXFD) {
        pthread_mutex_lock(&mu);
        handle_of[fd] = next_handle++; root_of[fd] = root; open_handles++;
        record(w ? K_OPENW : K_OPENR, 0, 0, handle_of[fd], flags | (existed ? 0 : (1 << 30)), 0, abs, strlen(abs), NULL, 0);
        pthread_mutex_unlock(&mu);
    }
    POST(); errno = e;
    return fd;
}
#define MODEARG(mode) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODEARG(mode); return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODEARG(mode); return do_open(AT_FDCWD, p, flags, mode); }
int openat(int dfd, const char *p, int flags, ...) { MODEARG(mode); return do_open(dfd, p, flags, mode); }
int openat64(int dfd, const char *p, int flags, ...) { MODEARG(mode); return do_open(dfd, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

#define TRACKED(fd) (armed && (fd) >= 0 && (fd) < MAXFD && handle_of[fd])

ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (!TRACKED(fd)) return r_read(fd, buf, n);
    PRE(K_READ, root_of[fd], -1);
    if (d.action == A_SHORT && (size_t)d.arg < n) n = d.arg;
    if (rchunk > 0 && n > (size_t)rchunk) n = rchunk;
    ssize_t r = r_read(fd, buf, n); int e = errno;
    POST(); errno = e;
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) {
    init();
    if (!TRACKED(fd)) return r_pread(fd, buf, n, o);
    PRE(K_READ, root_of[fd], -1);
    if (rchunk > 0 && n > (size_t)rchunk) n = rchunk;
    return r_pread(fd, buf, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    init();
    if (!TRACKED(fd)) return r_readv(fd, v, c);
    PRE(K_READ, root_of[fd], -1);
    return r_readv(fd, v, c);
}
static ssize_t do_write(int fd, const void *buf, size_t n, off_t o, int positioned) {
    PRE(K_WRITE, root_of[fd], -1);
    if (d.action == A_SHORT && (size_t)d.arg < n) n = d.arg > 0 ? d.arg : 1;
    if (wchunk > 0 && n > (size_t)wchunk) n = wchunk;
    off_t at = o;
    if (!positioned) {
        int fl = fcntl(fd, F_GETFL);
        at = lseek(fd, 0, (fl & O_APPEND) ? SEEK_END : SEEK_CUR);
    }
    ssize_t r = positioned ? r_pwrite(fd, buf, n, o) : r_write(fd, buf, n);
    int e = errno;
    pthread_mutex_lock(&mu);
    record(K_WRITE, r < 0 ? -1 : 0, r < 0 ? e : 0, handle_of[fd], 0, at, buf, r > 0 ? r : 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    POST(); errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (!TRACKED(fd)) return r_write(fd, buf, n);
    return do_write(fd, buf, n, 0, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    init();
    if (!TRACKED(fd)) return r_pwrite(fd, buf, n, o);
    return do_write(fd, buf, n, o, 1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return pwrite(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off_t o) { return pread(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    init();
    if (!TRACKED(fd)) return r_writev(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
int fsync(int fd) {
    init();
    if (!TRACKED(fd)) return r_fsync(fd);
    PRE(K_FSYNC, root_of[fd], -1);
    record(K_FSYNC, 0, 0, handle_of[fd], 0, 0, "", 0, NULL, 0);  /* durability is simulated */
    POST();
    return 0;
}
int fdatasync(int fd) { return TRACKED(fd) ? fsync(fd) : (init(), r_fdatasync(fd)); }
int close(int fd) {
    init();
    if (!TRACKED(fd)) { if (fd >= 0 && fd < MAXFD && handle_of[fd]) { handle_of[fd] = 0; open_handles--; } return r_close(fd); }
    int root = root_of[fd];
    struct dec d = decide(K_CLOSE, root);
    if (d.action == A_CRASH) crash();
    pthread_mutex_lock(&mu);
    record(K_CLOSE, 0, 0, handle_of[fd], 0, 0, "", 0, NULL, 0);
    handle_of[fd] = 0; open_handles--;
    pthread_mutex_unlock(&mu);
    int r = r_close(fd);
    POST();
    if (d.action == A_ERRNO) { errno = d.arg; return -1; }
    return r;
}
int dup(int fd) {
    init();
    int n = r_dup(fd);
    if (n >= 0 && n < MAXFD && TRACKED(fd)) { handle_of[n] = handle_of[fd]; root_of[n] = root_of[fd]; open_handles++; }
    return n;
}
static int do_rename(int od, const char *o, int nd, const char *n, unsigned flags) {
    init();
    if (!armed) return flags ? r_renameat2(od, o, nd, n, flags) : r_renameat(od, o, nd, n);
    char ao[PATH_MAX], an[PATH_MAX]; abspath(od, o, ao); abspath(nd, n, an);
    int root = root_for(an); if (root < 0) root = root_for(ao);
    if (root < 0) return flags ? r_renameat2(od, o, nd, n, flags) : r_renameat(od, o, nd, n);
    PRE(K_RENAME, root, -1);
    int r = flags ? r_renameat2(od, o, nd, n, flags) : r_renameat(od, o, nd, n); int e = errno;
    if (r == 0) { pthread_mutex_lock(&mu); record(K_RENAME, 0, 0, 0, 0, 0, ao, strlen(ao), an, strlen(an)); pthread_mutex_unlock(&mu); }
    POST(); errno = e;
    return r;
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { return do_rename(od, o, nd, n, f); }
static int do_unlink(int dfd, const char *p, int flags) {
    init();
    if (!armed) return r_unlinkat(dfd, p, flags);
    char a[PATH_MAX]; abspath(dfd, p, a);
    int root = root_for(a);
    if (root < 0) return r_unlinkat(dfd, p, flags);
    PRE(K_UNLINK, root, -1);
    int r = r_unlinkat(dfd, p, flags); int e = errno;
    if (r == 0) { pthread_mutex_lock(&mu); record(K_UNLINK, 0, 0, 0, flags, 0, a, strlen(a), NULL, 0); pthread_mutex_unlock(&mu); }
    POST(); errno = e;
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int truncate(const char *p, off_t len) {
    init();
    if (!armed) return r_truncate(p, len);
    char a[PATH_MAX]; abspath(AT_FDCWD, p, a);
    int root = root_for(a);
    if (root < 0) return r_truncate(p, len);
    PRE(K_TRUNC, root, -1);
    int r = r_truncate(p, len); int e = errno;
    if (r == 0) { pthread_mutex_lock(&mu); record(K_TRUNC, 0, 0, 0, 0, len, a, strlen(a), NULL, 0); pthread_mutex_unlock(&mu); }
    POST(); errno = e;
    return r;
}
int truncate64(const char *p, off_t len) { return truncate(p, len); }
int ftruncate(int fd, off_t len) {
    init();
    if (!TRACKED(fd)) return r_ftruncate(fd, len);
    PRE(K_TRUNC, root_of[fd], -1);
    int r = r_ftruncate(fd, len); int e = errno;
    if (r == 0) { pthread_mutex_lock(&mu); record(K_TRUNC, 0, 0, handle_of[fd], 1, len, "", 0, NULL, 0); pthread_mutex_unlock(&mu); }
    POST(); errno = e;
    return r;
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
static int do_mkdir(int dfd, const char *p, mode_t m) {
    init();
    if (!armed) return r_mkdirat(dfd, p, m);
    char a[PATH_MAX]; abspath(dfd, p, a);
    int root = root_for(a);
    if (root < 0) return r_mkdirat(dfd, p, m);
    PRE(K_MKDIR, root, -1);
    int r = r_mkdirat(dfd, p, m); int e = errno;
    if (r == 0) { pthread_mutex_lock(&mu); record(K_MKDIR, 0, 0, 0, 0, 0, a, strlen(a), NULL, 0); pthread_mutex_unlock(&mu); }
    POST(); errno = e;
    return r;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }
static int do_chmod(int dfd, const char *p, mode_t m, int flags) {
    init();
    if (!armed) return r_fchmodat(dfd, p, m, flags);
    char a[PATH_MAX]; abspath(dfd, p, a);
    int root = root_for(a);
    if (root < 0) return r_fchmodat(dfd, p, m, flags);
    PRE(K_CHMOD, root, -1);
    int r = r_fchmodat(dfd, p, m, flags); int e = errno;
    POST(); errno = e;
    return r;
}
int chmod(const char *p, mode_t m) { return do_chmod(AT_FDCWD, p, m, 0); }
int fchmodat(int d, const char *p, mode_t m, int f) { return do_chmod(d, p, m, f); }
int fchmod(int fd, mode_t m) {
    init();
    if (!TRACKED(fd)) return r_fchmod(fd, m);
    PRE(K_CHMOD, root_of[fd], -1);
    return r_fchmod(fd, m);
}
static int do_link(int od, const char *o, int nd, const char *n, int flags) {
    init();
    if (!armed) return r_linkat(od, o, nd, n, flags);
    char ao[PATH_MAX], an[PATH_MAX]; abspath(od, o, ao); abspath(nd, n, an);
    int root = root_for(an);
    if (root < 0) return r_linkat(od, o, nd, n, flags);
    PRE(K_LINK, root, -1);
    int r = r_linkat(od, o, nd, n, flags); int e = errno;
    if (r == 0) { pthread_mutex_lock(&mu); record(K_LINK, 0, 0, 0, 0, 0, ao, strlen(ao), an, strlen(an)); pthread_mutex_unlock(&mu); }
    POST(); errno = e;
    return r;
}
int link(const char *o, const char *n) { return do_link(AT_FDCWD, o, AT_FDCWD, n, 0); }
int linkat(int od, const char *o, int nd, const char *n, int f) { return do_link(od, o, nd, n, f); }
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    init();
    if (TRACKED(out) || TRACKED(in)) { errno = EINVAL; return -1; }   /* callers fall back to read and write */
    return r_sendfile(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { return sendfile(out, in, o, n); }
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned f) {
    init();
    if (TRACKED(out) || TRACKED(in) || !r_cfr) { errno = ENOSYS; return -1; }
    return r_cfr(in, oi, out, oo, n, f);
}
