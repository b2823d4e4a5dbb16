// Fault injection for the program under test (LD_PRELOAD).
//
// SHIM_ROOT    only files below this directory count, and standard output
// SHIM_FAULTS  comma separated  <class><index or *>=<action>
//   classes: o open for reading, c open for writing, r read, w write, m mkdir, d opendir, e readdir
//   actions: E<errno> fail, S<n> transfer at most n bytes, Z return 0, K die before, T<n> die after n bytes
//   more classes: n rename and link, u unlink and rmdir
// SHIM_GATE    standard input is a socket: before an operation, a byte is sent there, and the operation goes on when
//              one comes back (of the writes, the 1st, 2nd, 4th, 8th, ... of the program)
// SHIM_LOG     every operation that counts is appended here
// SHIM_NAMES   the names of variables that the program asks for are logged, too
// SHIM_CLOCK   seconds that are added to the time of day
// SHIM_SEED    where "random" numbers start (without: as the system says)
// SHIM_DIRS    order in which directories are listed: 1 reversed, 2 sorted, 3 sorted backwards, 4 rotated;
//              and 8 when the kinds of entries are unknown
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXF 16
static char root[4096];
static size_t rootlen;
static char kind[MAXFD]; // 0 untracked, 'r', 'w'
static char names[MAXFD][512];
static int logfd = -1;
static int log_names;
static struct fault { char cls; long idx; char act; long arg; } faults[MAXF];
static int nfaults;
static long count[128];

static void die(void) {
    syscall(SYS_kill, (long)getpid(), (long)SIGKILL);
    for (;;) pause();
}

static const char *rel(const char *p) {
    if (rootlen && strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || !p[rootlen])) {
        p += rootlen;
        while (*p == '/') p++;
        return *p ? p : ".";
    }
    if (p[0] != '/') return p; // the working directory is the root
    return NULL;
}

static void note(char cls, const char *name, long n) {
    if (logfd < 0) return;
    char b[700];
    int l = snprintf(b, sizeof b, "%c %ld %s\n", cls, n, name);
    if (l > (int)sizeof b) l = sizeof b;
    syscall(SYS_write, (long)logfd, b, (long)l);
}

static int gatefd = -1;

static void gate(char cls, long i) {
    if (gatefd < 0 || cls == 'r' || cls == 'e') return;
    if (cls == 'w' && (i & (i - 1))) return;
    char b = cls;
    long r;
    do r = syscall(SYS_write, (long)gatefd, &b, 1L); while (r < 0 && errno == EINTR);
    if (r == 1) do r = syscall(SYS_read, (long)gatefd, &b, 1L); while (r < 0 && errno == EINTR);
    // nobody is there any more: there is nothing to wait for
    if (r != 1) gatefd = -1;
}

static struct fault *hit(char cls, const char *name, long n) {
    long i = ++count[(int)cls];
    note(cls, name, n);
    gate(cls, i);
    for (int k = 0; k < nfaults; k++)
        if (faults[k].cls == cls && (faults[k].idx == 0 || faults[k].idx == i)) return &faults[k];
    return NULL;
}

__attribute__((constructor)) static void init(void) {
    const char *r = getenv("SHIM_ROOT");
    if (r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); }
    kind[1] = 'w';
    strcpy(names[1], "-");
    const char *l = getenv("SHIM_LOG");
    if (l) {
        int fd = (int)syscall(SYS_openat, (long)AT_FDCWD, l, (long)(O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC), 0644L);
        if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, (long)fd); }
    }
    log_names = getenv("SHIM_NAMES") != NULL;
    const char *f = getenv("SHIM_FAULTS");
    while (f && *f && nfaults < MAXF) {
        struct fault *x = &faults[nfaults++];
        x->cls = *f++;
        if (*f == '*') { x->idx = 0; f++; } else x->idx = strtol(f, (char **)&f, 10);
        if (*f == '=') f++;
        x->act = *f++;
        x->arg = strtol(f, (char **)&f, 10);
        if (*f == ',') f++;
    }
    if (getenv("SHIM_GATE")) {
        gatefd = fcntl(0, F_DUPFD_CLOEXEC, 901);
        int fd = (int)syscall(SYS_openat, (long)AT_FDCWD, "/dev/null", (long)O_RDONLY, 0L);
        if (fd > 0) { syscall(SYS_dup2, (long)fd, 0L); syscall(SYS_close, (long)fd); }
    }
    // a program that does not end
    struct rlimit lim = {25, 26};
    syscall(SYS_prlimit64, 0L, (long)RLIMIT_CPU, &lim, NULL);
    alarm(100);
}

static int do_open(const char *path, int flags, mode_t mode) {
    const char *n = rel(path);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (n) {
        struct fault *x = hit(wr ? 'c' : 'o', n, 0);
        if (x && x->act == 'E') { errno = (int)x->arg; return -1; }
        if (x && x->act == 'K') die();
    }
    int fd = (int)syscall(SYS_openat, (long)AT_FDCWD, path, (long)flags, (long)mode);
    if (fd >= 0 && fd < MAXFD) {
        kind[fd] = 0;
        if (n && !(flags & O_DIRECTORY)) {
            kind[fd] = wr ? 'w' : 'r';
            snprintf(names[fd], sizeof names[fd], "%s", n);
        }
    }
    return fd;
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) {
    MODE
    if (dir == AT_FDCWD) return do_open(path, flags, mode);
    return (int)syscall(SYS_openat, (long)dir, path, (long)flags, (long)mode);
}
int openat64(int dir, const char *path, int flags, ...) {
    MODE
    if (dir == AT_FDCWD) return do_open(path, flags, mode);
    return (int)syscall(SYS_openat, (long)dir, path, (long)flags, (long)mode);
}

int close(int fd) {
    if (fd >= 0 && fd < MAXFD && fd != 1) kind[fd] = 0;
    return (int)syscall(SYS_close, (long)fd);
}

ssize_t read(int fd, void *buf, size_t n) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 'r') {
        struct fault *x = hit('r', names[fd], (long)n);
        if (x) switch (x->act) {
            case 'E': errno = (int)x->arg; return -1;
            case 'S': if ((long)n > x->arg) n = (size_t)x->arg; break;
            case 'K': die();
        }
    }
    return syscall(SYS_read, (long)fd, buf, (long)n);
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 'w' && n > 0) {
        struct fault *x = hit('w', names[fd], (long)n);
        if (x) switch (x->act) {
            case 'E': errno = (int)x->arg; return -1;
            case 'S': if ((long)n > x->arg) n = (size_t)x->arg; break;
            case 'Z': return 0;
            case 'K': die(); break;
            case 'T': if ((long)n > x->arg) n = (size_t)x->arg;
                syscall(SYS_write, (long)fd, buf, (long)n); die();
        }
    }
    return syscall(SYS_write, (long)fd, buf, (long)n);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 'w') {
        // vectored writes are partial writes of their first part that is not empty
        for (int i = 0; i < cnt; i++)
            if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, (long)fd, iov, (long)cnt);
}

ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 'r') {
        for (int i = 0; i < cnt; i++)
            if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
        return 0;
    }
    return syscall(SYS_readv, (long)fd, iov, (long)cnt);
}

int mkdir(const char *path, mode_t mode) {
    const char *n = rel(path);
    if (n) {
        struct fault *x = hit('m', n, 0);
        if (x && x->act == 'E') { errno = (int)x->arg; return -1; }
        if (x && x->act == 'K') die();
    }
    return (int)syscall(SYS_mkdirat, (long)AT_FDCWD, path, (long)mode);
}

// only the first path is looked at
#define SIMPLE(cls, path, call) \
    const char *n = rel(path); \
    if (n) { \
        struct fault *x = hit(cls, n, 0); \
        if (x && x->act == 'E') { errno = (int)x->arg; return -1; } \
        if (x && x->act == 'K') die(); \
    } \
    return (int)(call);

int rename(const char *a, const char *b) { SIMPLE('n', a, syscall(SYS_renameat, (long)AT_FDCWD, a, (long)AT_FDCWD, b)) }
int link(const char *a, const char *b) { SIMPLE('n', a, syscall(SYS_linkat, (long)AT_FDCWD, a, (long)AT_FDCWD, b, 0L)) }
int linkat(int d, const char *a, int e, const char *b, int f) { SIMPLE('n', a, syscall(SYS_linkat, (long)d, a, (long)e, b, (long)f)) }
int unlink(const char *a) { SIMPLE('u', a, syscall(SYS_unlinkat, (long)AT_FDCWD, a, 0L)) }
int rmdir(const char *a) { SIMPLE('u', a, syscall(SYS_unlinkat, (long)AT_FDCWD, a, (long)AT_REMOVEDIR)) }

extern char **environ;

// which variables the program asks for
char *getenv(const char *name) {
    size_t n = strlen(name);
    if (log_names && strncmp(name, "SHIM_", 5) != 0) note('v', name, 0);
    for (char **e = environ; e && *e; e++)
        if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    int r = (int)syscall(SYS_clock_gettime, (long)id, t);
    char *o = r == 0 && id == CLOCK_REALTIME ? getenv("SHIM_CLOCK") : NULL;
    if (o) t->tv_sec += atol(o);
    return r;
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    static unsigned long x;
    char *s = getenv("SHIM_SEED");
    if (!s) return syscall(SYS_getrandom, buf, n, (unsigned long)flags);
    if (!x) x = 0x9E3779B97F4A7C15ul * (unsigned long)(atol(s) + 1);
    for (size_t i = 0; i < n; i++) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((unsigned char *)buf)[i] = (unsigned char)(x >> 24);
    }
    return (ssize_t)n;
}

static char tracked_dir[64][512];
static DIR *dirs[64];
static struct dirent64 *entries[64];
static int nentries[64], next_entry[64];

static int by_name(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}

// all entries of a directory, in the order that is asked for
static void arrange(int i) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    char *m = getenv("SHIM_DIRS");
    long mode = m ? atol(m) : 0;
    entries[i] = NULL;
    if (!mode) return;
    struct dirent64 *l = calloc(8192, sizeof *l), *e, t;
    int n = 0;
    while (n < 8192 && (e = real(dirs[i]))) {
        memcpy(&l[n], e, e->d_reclen < sizeof *l ? e->d_reclen : sizeof *l);
        if (mode & 8) l[n].d_type = DT_UNKNOWN;
        n++;
    }
    if ((mode & 7) == 2 || (mode & 7) == 3) qsort(l, (size_t)n, sizeof *l, by_name);
    if (mode & 1)
        for (int a = 0, b = n - 1; a < b; a++, b--) { t = l[a]; l[a] = l[b]; l[b] = t; }
    if ((mode & 7) == 4 && n > 1) {
        t = l[0];
        memmove(l, l + 1, (size_t)(n - 1) * sizeof *l);
        l[n - 1] = t;
    }
    entries[i] = l;
    nentries[i] = n;
    next_entry[i] = 0;
}

DIR *opendir(const char *path) {
    static DIR *(*real)(const char *);
    if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    const char *n = rel(path);
    if (n) {
        struct fault *x = hit('d', n, 0);
        if (x && x->act == 'E') { errno = (int)x->arg; return NULL; }
        if (x && x->act == 'K') die();
    }
    DIR *d = real(path);
    if (d && n)
        for (int i = 0; i < 64; i++)
            if (!dirs[i]) {
                dirs[i] = d;
                snprintf(tracked_dir[i], sizeof tracked_dir[i], "%s", n);
                arrange(i);
                break;
            }
    return d;
}

int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 64; i++)
        if (dirs[i] == d) {
            dirs[i] = NULL;
            free(entries[i]);
            entries[i] = NULL;
        }
    return real(d);
}

struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    for (int i = 0; i < 64; i++)
        if (dirs[i] == d) {
            struct fault *x = hit('e', tracked_dir[i], 0);
            if (x && x->act == 'E') { errno = (int)x->arg; return NULL; }
            if (x && x->act == 'K') die();
            if (entries[i]) return next_entry[i] < nentries[i] ? &entries[i][next_entry[i]++] : NULL;
        }
    return real(d);
}
