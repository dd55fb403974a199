// Decides, by a plan, how the system calls of a process behave.
//
//   SIM_PLAN   rules separated by ';'
//     n:CLASS:INDEX:ACTION            at the INDEX-th call of that class
//     q:CLASS:PATH:INDEX:ACTION       at the INDEX-th such call on files ending in PATH
//     p:CLASS:PATH:AFTER:ERRNO        each call on files ending in PATH once AFTER bytes have
//                                     passed (a call that would cross that point is cut short)
//     c:CLASS:MAX                     at most MAX bytes per call
//     y:SEED                          directories are listed in a permuted order
//     u:                              directories do not tell the types of their entries
//     h:SEED                          seed of getrandom
//     k:SEED:MAX                      the clocks are virtual and advance by up to MAX microseconds
//                                     when they are read, sometimes by a thousand times that
//     m:FROM:TO                       paths below FROM are looked up below TO
//   CLASS      o open, r read, w write, t stat, d opendir, y readdir, l realpath
//              xN the process dies there, after N bytes of a write, or after the open if N is 1
//   ACTION     sN short, to N bytes; eN fails with errno N; dN delayed N ms; z size is told as 0;
//              Z size is told as too large
//   SIM_SCOPE  only paths below this one (and relative ones) and the standard streams count
//   SIM_LOG    file that gets a line per call: CLASS INDEX RESULT ERRNO WHAT PATH
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAX_RULES 4096
#define MAX_FDS 256
#define MAX_LOGGED 20000

struct rule { char kind, class; long index; char action; long arg, after; char path[256], to[256]; };

static struct rule rules[MAX_RULES];
static int n_rules, log_fd = -1, ready, permute, hide_types;
static uint64_t dir_seed, hash_seed = 1, clock_seed, clock_step, clock_now;
static char scope[256];
static long counts[128];
static char fd_path[MAX_FDS][512];
static long fd_bytes_r[MAX_FDS], fd_bytes_w[MAX_FDS];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_open)(const char *, int, ...);
static int (*real_openat)(int, const char *, int, ...);
static int (*real_close)(int);
static int (*real_statx)(int, const char *, int, unsigned, struct statx *);
static DIR *(*real_opendir)(const char *);
static struct dirent64 *(*real_readdir)(DIR *);
static int (*real_closedir)(DIR *);
static char *(*real_realpath)(const char *, char *);

static void init(void) {
    if (ready) return;
    ready = 1;
    real_read = dlsym(RTLD_NEXT, "read");
    real_write = dlsym(RTLD_NEXT, "write");
    real_open = dlsym(RTLD_NEXT, "open64");
    real_openat = dlsym(RTLD_NEXT, "openat64");
    real_close = dlsym(RTLD_NEXT, "close");
    real_statx = dlsym(RTLD_NEXT, "statx");
    real_opendir = dlsym(RTLD_NEXT, "opendir");
    real_readdir = dlsym(RTLD_NEXT, "readdir64");
    real_closedir = dlsym(RTLD_NEXT, "closedir");
    real_realpath = dlsym(RTLD_NEXT, "realpath");
    strcpy(fd_path[0], "<stdin>");
    strcpy(fd_path[1], "<stdout>");
    strcpy(fd_path[2], "<stderr>");
    const char *s = getenv("SIM_SCOPE");
    snprintf(scope, sizeof scope, "%s", s ? s : "/nowhere");
    const char *l = getenv("SIM_LOG");
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
        log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    const char *p = getenv("SIM_PLAN");
    char *plan = strdup(p ? p : ""), *save = 0;
    for (char *t = strtok_r(plan, ";", &save); t && n_rules < MAX_RULES; t = strtok_r(0, ";", &save)) {
        struct rule *r = &rules[n_rules];
        memset(r, 0, sizeof *r);
        r->kind = t[0];
        switch (t[0]) {
        case 'n':
            if (sscanf(t, "n:%c:%ld:%c%ld", &r->class, &r->index, &r->action, &r->arg) >= 3) n_rules++;
            break;
        case 'q':
            if (sscanf(t, "q:%c:%255[^:]:%ld:%c%ld", &r->class, r->path, &r->index, &r->action, &r->arg) >= 4) n_rules++;
            break;
        case 'p':
            if (sscanf(t, "p:%c:%255[^:]:%ld:%ld", &r->class, r->path, &r->after, &r->arg) == 4) n_rules++;
            break;
        case 'c':
            if (sscanf(t, "c:%c:%ld", &r->class, &r->arg) == 2) n_rules++;
            break;
        case 'm':
            if (sscanf(t, "m:%255[^:]:%255[^:]", r->path, r->to) == 2) n_rules++;
            break;
        case 'y': permute = 1; dir_seed = strtoull(t + 2, 0, 10); break;
        case 'u': hide_types = 1; break;
        case 'k':
            if (sscanf(t, "k:%lu:%lu", &clock_seed, &clock_step) != 2) clock_step = 0;
            break;
        case 'h': hash_seed = strtoull(t + 2, 0, 10); break;
        }
    }
    free(plan);
}

__attribute__((constructor)) static void start(void) { init(); }

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15u;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
    return z ^ (z >> 31);
}

static void note(char class, long index, long result, int err, const char *what, const char *path) {
    if (log_fd < 0) return;
    // diagnostics come in tiny pieces, and sometimes in millions of them
    static long undisturbed;
    if (path == fd_path[2] && !err && undisturbed++ >= MAX_LOGGED) return;
    char line[900];
    int n = snprintf(line, sizeof line, "%c %ld %ld %d %s %s\n", class, index, result, err, what, path);
    syscall(SYS_write, log_fd, line, n < (int)sizeof line ? n : (int)sizeof line);
}

static int in_scope(const char *path) {
    return path && (path[0] != '/' || !strncmp(path, scope, strlen(scope)));
}

static const char *map(const char *path, char *buf, size_t size) {
    for (int i = 0; i < n_rules; i++) {
        size_t n = strlen(rules[i].path);
        if (rules[i].kind == 'm' && path && !strncmp(path, rules[i].path, n) && (path[n] == '/' || !path[n])) {
            snprintf(buf, size, "%s%s", rules[i].to, path + n);
            return buf;
        }
    }
    return path;
}

static int ends(const char *path, const char *suffix) {
    size_t a = strlen(path), b = strlen(suffix);
    return a >= b && !strcmp(path + a - b, suffix);
}

struct verdict { long index; int err; size_t max; char what[32]; char action; long arg; };

static void pause_ms(long ms) {
    struct timespec t = { ms / 1000, ms % 1000 * 1000000 };
    while (nanosleep(&t, &t)) {}
}

// what is to become of a call; `done` bytes have passed already
static struct verdict decide(char class, const char *path, size_t want, long done) {
    struct verdict v = { 0, 0, want, "-", 0 };
    long delay = 0;
    pthread_mutex_lock(&lock);
    v.index = counts[(int)class]++;
    for (int i = 0; i < n_rules; i++) {
        struct rule *r = &rules[i];
        if (r->class != class) continue;
        if (r->kind == 'c' && want > (size_t)r->arg) {
            v.max = r->arg < (long)v.max ? (size_t)r->arg : v.max;
            strcpy(v.what, "chunk");
        }
    }
    for (int i = 0; i < n_rules; i++) {
        struct rule *r = &rules[i];
        if (r->class != class) continue;
        int here = r->kind == 'n' && r->index == v.index;
        // `after` counts the calls that were seen
        if (r->kind == 'q' && ends(path, r->path)) here = r->after++ == r->index;
        if (here) {
            v.action = r->action;
            v.arg = r->arg;
            switch (r->action) {
            case 's':
                if ((size_t)r->arg < v.max) { v.max = r->arg > 0 ? r->arg : 1; strcpy(v.what, "short"); }
                break;
            case 'e': v.err = r->arg; strcpy(v.what, "once"); break;
            case 'd': delay = r->arg; strcpy(v.what, "delay"); break;
            case 'z': case 'Z': strcpy(v.what, "size"); break;
            }
        }
    }
    for (int i = 0; i < n_rules; i++) {
        struct rule *r = &rules[i];
        if (r->class != class || r->kind != 'p' || !ends(path, r->path)) continue;
        if (done >= r->after) { v.err = r->arg; strcpy(v.what, "always"); }
        else if (!v.err && done + (long)v.max > r->after) { v.max = r->after - done; strcpy(v.what, "cut"); }
    }
    pthread_mutex_unlock(&lock);
    if (delay) pause_ms(delay);
    return v;
}

static void die(char class, struct verdict *v, const char *path) {
    note(class, v->index, -1, 0, "crash", path);
    syscall(SYS_kill, getpid(), 9);
    for (;;) pause();
}

static int known(int fd) { return fd >= 0 && fd < MAX_FDS && fd_path[fd][0]; }

ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (!known(fd) || n == 0) return real_read(fd, buf, n);
    struct verdict v = decide('r', fd_path[fd], n, fd_bytes_r[fd]);
    if (v.action == 'x') die('r', &v, fd_path[fd]);
    ssize_t got = -1;
    if (v.err) errno = v.err;
    else got = real_read(fd, buf, v.max);
    int e = got < 0 ? errno : 0;
    if (got > 0) fd_bytes_r[fd] += got;
    note('r', v.index, got, e, v.what, fd_path[fd]);
    if (e) errno = e;
    return got;
}

ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (!known(fd) || n == 0) return real_write(fd, buf, n);
    struct verdict v = decide('w', fd_path[fd], n, fd_bytes_w[fd]);
    if (v.action == 'x') {
        if (v.arg > 0) real_write(fd, buf, v.arg < (long)n ? (size_t)v.arg : n);
        die('w', &v, fd_path[fd]);
    }
    ssize_t got = -1;
    if (v.err) errno = v.err;
    else got = real_write(fd, buf, v.max);
    int e = got < 0 ? errno : 0;
    if (got > 0) fd_bytes_w[fd] += got;
    note('w', v.index, got, e, v.what, fd_path[fd]);
    if (e) errno = e;
    return got;
}

ssize_t writev(int fd, const struct iovec *iov, int count) {
    init();
    if (!known(fd)) return syscall(SYS_writev, fd, iov, count);
    for (int i = 0; i < count; i++)
        if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}

static int opened(int dir, const char *path, int flags, mode_t mode) {
    init();
    char buf[1024];
    const char *p = map(path, buf, sizeof buf);
    if (!in_scope(p)) return real_openat(dir, p, flags, mode);
    struct verdict v = decide('o', p, 1, 1L << 60);
    if (v.action == 'x') {
        if (v.arg > 0) real_openat(dir, p, flags, mode);
        die('o', &v, p);
    }
    int fd = -1;
    if (v.err) errno = v.err;
    else fd = real_openat(dir, p, flags, mode);
    int e = fd < 0 ? errno : 0;
    if (fd >= 0 && fd < MAX_FDS) {
        snprintf(fd_path[fd], sizeof fd_path[fd], "%s", p);
        fd_bytes_r[fd] = fd_bytes_w[fd] = 0;
    }
    char what[40];
    snprintf(what, sizeof what, "%s%s", v.what, (flags & O_ACCMODE) == O_RDONLY ? "" : "/out");
    note('o', v.index, fd, e, what, p);
    if (e) errno = e;
    return fd;
}

int open64(const char *path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t mode = va_arg(a, mode_t);
    va_end(a);
    return opened(AT_FDCWD, path, flags, mode);
}

int open(const char *path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t mode = va_arg(a, mode_t);
    va_end(a);
    return opened(AT_FDCWD, path, flags, mode);
}

int openat64(int dir, const char *path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t mode = va_arg(a, mode_t);
    va_end(a);
    return opened(dir, path, flags, mode);
}

int close(int fd) {
    init();
    if (fd > 2 && fd < MAX_FDS) fd_path[fd][0] = 0;
    return real_close(fd);
}

int statx(int dir, const char *path_, int flags, unsigned mask, struct statx *st_) {
    init();
    // declared to be never null, but the standard library probes with nulls
    const char *volatile path_v = path_;
    struct statx *volatile st_v = st_;
    const char *path = path_v;
    struct statx *st = st_v;
    char buf[1024];
    const char *p = path && path[0] ? map(path, buf, sizeof buf) : path;
    const char *who = p && p[0] ? p : known(dir) ? fd_path[dir] : 0;
    if (!who || (p && p[0] && !in_scope(p))) return real_statx(dir, p, flags, mask, st);
    struct verdict v = decide('t', who, 1, 1L << 60);
    if (v.action == 'x') die('t', &v, who);
    int r = -1;
    if (v.err) errno = v.err;
    else r = real_statx(dir, p, flags, mask, st);
    int e = r < 0 ? errno : 0;
    if (!r && st && v.action == 'z') st->stx_size = 0;
    if (!r && st && v.action == 'Z') st->stx_size = st->stx_size * 3 + 100;
    note('t', v.index, r, e, v.what, who);
    if (e) errno = e;
    return r;
}

char *realpath(const char *path, char *out) {
    init();
    char buf[1024];
    const char *p = map(path, buf, sizeof buf);
    if (!in_scope(p)) return real_realpath(p, out);
    struct verdict v = decide('l', p, 1, 1L << 60);
    if (v.action == 'x') die('l', &v, p);
    char *r = 0;
    if (v.err) errno = v.err;
    else r = real_realpath(p, out);
    int e = r ? 0 : errno;
    note('l', v.index, r ? 0 : -1, e, v.what, p);
    if (e) errno = e;
    return r;
}

// directories

#define MAX_DIRS 64
struct listing { DIR *dir; struct dirent64 *entries; long n, at; int loaded; char path[512]; };
static struct listing dirs[MAX_DIRS];

static struct listing *listing_of(DIR *d) {
    for (int i = 0; i < MAX_DIRS; i++)
        if (dirs[i].dir == d) return &dirs[i];
    return 0;
}

DIR *opendir(const char *path) {
    init();
    char buf[1024];
    const char *p = map(path, buf, sizeof buf);
    if (!in_scope(p)) return real_opendir(p);
    struct verdict v = decide('d', p, 1, 1L << 60);
    DIR *d = 0;
    if (v.err) errno = v.err;
    else d = real_opendir(p);
    int e = d ? 0 : errno;
    note('d', v.index, d ? 0 : -1, e, v.what, p);
    if (d) {
        pthread_mutex_lock(&lock);
        struct listing *l = listing_of(0);
        if (l) {
            l->dir = d;
            l->entries = 0;
            l->n = l->at = l->loaded = 0;
            snprintf(l->path, sizeof l->path, "%s", p);
        }
        pthread_mutex_unlock(&lock);
    }
    if (e) errno = e;
    return d;
}

static int by_name(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}

static void load(struct listing *l) {
    l->loaded = 1;
    struct dirent64 *e;
    while ((e = real_readdir(l->dir))) {
        l->entries = realloc(l->entries, (l->n + 1) * sizeof *e);
        memset(&l->entries[l->n], 0, sizeof *e);
        memcpy(&l->entries[l->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        if (hide_types) l->entries[l->n].d_type = DT_UNKNOWN;
        l->n++;
    }
    // the order is the plan's, never the file system's
    qsort(l->entries, l->n, sizeof *l->entries, by_name);
    if (permute) {
        uint64_t s = dir_seed;
        size_t skip = strncmp(l->path, scope, strlen(scope)) ? 0 : strlen(scope);
        for (const char *c = l->path + skip; *c; c++) s = mix(s ^ (unsigned char)*c);
        for (long i = l->n - 1; i > 0; i--) {
            s = mix(s);
            long j = s % (i + 1);
            struct dirent64 t = l->entries[i];
            l->entries[i] = l->entries[j];
            l->entries[j] = t;
        }
    }
}

struct dirent64 *readdir64(DIR *d) {
    init();
    struct listing *l = d ? listing_of(d) : 0;
    if (!l) return real_readdir(d);
    if (!l->loaded) load(l);
    struct verdict v = decide('y', l->path, 1, 1L << 60);
    struct dirent64 *r = 0;
    if (v.err) errno = v.err;
    else if (l->at < l->n) r = &l->entries[l->at++];
    note('y', v.index, r ? 1 : 0, v.err, v.what, l->path);
    if (v.err) errno = v.err;
    return r;
}

int closedir(DIR *d) {
    init();
    struct listing *l = d ? listing_of(d) : 0;
    if (l) {
        pthread_mutex_lock(&lock);
        free(l->entries);
        memset(l, 0, sizeof *l);
        pthread_mutex_unlock(&lock);
    }
    return real_closedir(d);
}

// what else changes files follows the mapping too

static const char *mapped(const char *path, char *buf, size_t size) {
    init();
    return map(path, buf, size);
}

int mkdir(const char *path, mode_t mode) {
    char buf[1024];
    return syscall(SYS_mkdirat, AT_FDCWD, mapped(path, buf, sizeof buf), mode);
}

int unlink(const char *path) {
    char buf[1024];
    return syscall(SYS_unlinkat, AT_FDCWD, mapped(path, buf, sizeof buf), 0);
}

int rmdir(const char *path) {
    char buf[1024];
    return syscall(SYS_unlinkat, AT_FDCWD, mapped(path, buf, sizeof buf), 0x200);
}

int rename(const char *from, const char *to) {
    char a[1024], b[1024];
    return syscall(SYS_renameat, AT_FDCWD, mapped(from, a, sizeof a), AT_FDCWD, mapped(to, b, sizeof b));
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    static uint64_t calls;
    uint64_t s = mix(hash_seed) + __atomic_fetch_add(&calls, 1, __ATOMIC_SEQ_CST);
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (s = mix(s)) & 255;
    return n;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    init();
    if (!clock_step) return syscall(SYS_clock_gettime, id, t);
    pthread_mutex_lock(&lock);
    clock_seed = mix(clock_seed);
    uint64_t by = (clock_seed >> 8) % (clock_step + 1);
    clock_now += clock_seed % 16 ? by : by * 1000;
    t->tv_sec = 1000 + clock_now / 1000000;
    t->tv_nsec = clock_now % 1000000 * 1000;
    pthread_mutex_unlock(&lock);
    return 0;
}
