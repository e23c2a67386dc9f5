/* LD_PRELOAD seam between the generator process and the operating system. Once enabled, every file operation on an interesting path
 * stops and asks the simulator what happens; changes outside the scratch directory are reported and refused; clocks, random bytes and
 * directory order come from the simulator. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

static int on, cin_ = -1, cout_ = -1;
static char scratch[PATH_MAX], repo[PATH_MAX];
static char *fdpath[1024];
static int fdw[1024];
static uint64_t rng = 0, rng0 = 0, vtime = 0;
static int seeded;

static uint64_t rnd(void) { rng += 0x9E3779B97F4A7C15ull; uint64_t z = rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("BSIM_SEED");
    if (s) { rng = rng0 = strtoull(s, 0, 10); seeded = 1; vtime = (rnd() % 4000000000ull) * 1000000000ull; }
    const char *d = getenv("BSIM_SCRATCH"); if (d) snprintf(scratch, sizeof scratch, "%s", d);
    const char *r = getenv("BSIM_REPO"); if (r) snprintf(repo, sizeof repo, "%s", r);
}

/* called by the host in the forked child */
void bsim_enable(int in, int out, unsigned long long seed) {
    cin_ = in; cout_ = out; rng = rng0 = seed; seeded = 1; vtime = (rnd() % 4000000000ull) * 1000000000ull; on = 1;
    fdpath[1] = strdup("<stdout>"); fdw[1] = 1;
}
void bsim_scratch(const char *d) { snprintf(scratch, sizeof scratch, "%s", d); }

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) {} }
static void raw_write(const char *b, size_t n) { while (n) { long k = syscall(SYS_write, cout_, b, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; die(); } b += k; n -= (size_t)k; } }

/* returns: 0 go on; <0: fail with errno; >0 (in *lim): only so many bytes; *crash: die after that */
static int ask(const char *op, long n, const char *path, long *lim, int *crash) {
    char b[PATH_MAX + 64]; int k = snprintf(b, sizeof b, "C %s %ld %s\n", op, n, path);
    raw_write(b, (size_t)k);
    size_t i = 0;
    for (;;) { char ch; long r = syscall(SYS_read, cin_, &ch, 1); if (r != 1) { if (r < 0 && errno == EINTR) continue; die(); } if (ch == '\n') break; if (i < 60) b[i++] = ch; }
    b[i] = 0;
    if (lim) *lim = -1;
    if (crash) *crash = 0;
    switch (b[0]) {
    case 'k': return 0;
    case 'e': return -atoi(b + 2);
    case 's': if (lim) *lim = atol(b + 2); return 0;
    case 'w': if (lim) *lim = atol(b + 2); if (crash) *crash = 1; return 0;
    case 'x': die();
    case 'i': syscall(SYS_kill, syscall(SYS_getpid), SIGINT); return -EINTR;      /* the user presses ^C: the call is interrupted */
    case 't': syscall(SYS_kill, syscall(SYS_getpid), SIGTERM); return -EINTR;
    }
    return 0;
}

static int under(const char *p, const char *dir) { size_t n = strlen(dir); return n && strncmp(p, dir, n) == 0 && (p[n] == '/' || p[n] == 0); }
static int ends(const char *p, const char *s) { size_t a = strlen(p), b = strlen(s); return a >= b && strcmp(p + a - b, s) == 0; }

/* absolute, without resolving the last component */
static void absolute(int dirfd, const char *p, char *o) {
    char base[PATH_MAX] = "";
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); long r = syscall(SYS_readlink, l, base, sizeof base - 1); base[r > 0 ? r : 0] = 0; }
    }
    char t[2 * PATH_MAX]; snprintf(t, sizeof t, "%s/%s", base, p);
    size_t n = 0; char *save = 0;
    for (char *c = strtok_r(t, "/", &save); c; c = strtok_r(0, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) { while (n && o[n - 1] != '/') n--; if (n) n--; continue; }
        size_t k = strlen(c); if (n + k + 2 > PATH_MAX) break;
        o[n++] = '/'; memcpy(o + n, c, k); n += k;
    }
    if (!n) o[n++] = '/';
    o[n] = 0;
}
/* 0: not interesting; 1: inside the scratch directory; 2: a data file of the generator */
static int kind(const char *a) {
    if (under(a, scratch)) return 1;
    if (under(a, repo) && !strstr(a, "__pycache__") && !ends(a, ".py") && !ends(a, ".pyc") && !ends(a, ".so")) return 2;
    return 0;
}
static int mutating(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
static int harmless(const char *a) { return under(a, "/dev") || under(a, "/proc/self"); }
/* asks about a change of path a; returns 0 or -errno */
static int change(const char *op, const char *a) {
    if (kind(a) != 1) { if (harmless(a)) return 0; char t[64]; snprintf(t, sizeof t, "outside-%s", op); ask(t, 0, a, 0, 0); return -EROFS; }
    return ask(op, 0, a, 0, 0);
}
#define FAIL(e) do { errno = -(e); return -1; } while (0)

static int do_open(int dfd, const char *p, int fl, mode_t m) {
    char a[PATH_MAX]; int k = 0, w = 0;
    if (on) {
        absolute(dfd, p, a); k = kind(a); w = mutating(fl);
        if (w && k != 1 && !harmless(a)) { ask("outside-open", fl, a, 0, 0); FAIL(-EROFS); }
        struct stat st;
        if (k && !(fl & O_DIRECTORY) && !(syscall(SYS_newfstatat, AT_FDCWD, a, &st, 0) == 0 && S_ISDIR(st.st_mode))) { int e = ask(w ? "openw" : "open", fl & O_TRUNC ? 1 : 0, a, 0, 0); if (e) FAIL(e); } else if (!w) k = 0;
    }
    int fd = (int)syscall(SYS_openat, dfd, p, fl, m);
    if (on && k && fd >= 0 && fd < 1024) { free(fdpath[fd]); fdpath[fd] = strdup(a); fdw[fd] = w; }
    return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

static const char *tracked(int fd) { return on && fd >= 0 && fd < 1024 ? fdpath[fd] : 0; }

ssize_t read(int fd, void *b, size_t n) {
    const char *p = tracked(fd); long lim = -1; int crash = 0;
    if (p && fd != 1) { int e = ask("read", (long)n, p, &lim, &crash); if (e) FAIL(e); if (lim >= 0 && (size_t)lim < n) n = (size_t)lim; }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    const char *p = tracked(fd); long lim = -1; int crash = 0;
    if (p) { int e = ask("write", (long)n, p, &lim, &crash); if (e) FAIL(e); if (lim >= 0 && (size_t)lim < n) n = (size_t)lim; }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (crash) die();
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { const char *p = tracked(fd); long lim = -1; if (p) { int e = ask("read", (long)n, p, &lim, 0); if (e) FAIL(e); if (lim >= 0 && (size_t)lim < n) n = (size_t)lim; } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { const char *p = tracked(fd); long lim = -1; int cr = 0; if (p) { int e = ask("write", (long)n, p, &lim, &cr); if (e) FAIL(e); if (lim >= 0 && (size_t)lim < n) n = (size_t)lim; } ssize_t r = syscall(SYS_pwrite64, fd, b, n, o); if (cr) die(); return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (tracked(fd) && c > 0) return write(fd, v[0].iov_base, v[0].iov_len); return syscall(SYS_writev, fd, v, c); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { (void)o; (void)i; (void)off; (void)n; errno = EINVAL; return -1; }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = EXDEV; return -1; }
int close(int fd) {
    const char *p = tracked(fd); int e = 0;
    if (p && fd != 1) { e = ask(fdw[fd] ? "closew" : "close", 0, p, 0, 0); free(fdpath[fd]); fdpath[fd] = 0; }
    int r = (int)syscall(SYS_close, fd);
    if (e) FAIL(e);
    return r;
}
int fsync(int fd) { const char *p = tracked(fd); if (p) { int e = ask("fsync", 0, p, 0, 0); if (e) FAIL(e); } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate64(int fd, off64_t n) { const char *p = tracked(fd); if (p) { int e = ask("truncate", (long)n, p, 0, 0); if (e) FAIL(e); } return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int dup2(int a, int b) { int r = (int)syscall(SYS_dup2, a, b); if (on && r >= 0 && r < 1024 && a != b) { free(fdpath[r]); fdpath[r] = a >= 0 && a < 1024 && fdpath[a] ? strdup(fdpath[a]) : 0; fdw[r] = a < 1024 ? fdw[a] : 0; } return r; }
int dup(int a) { int r = (int)syscall(SYS_dup, a); if (on && r >= 0 && r < 1024 && a < 1024 && fdpath[a]) { fdpath[r] = strdup(fdpath[a]); fdw[r] = fdw[a]; } return r; }

static int do_stat(int dfd, const char *p, struct stat *st, int fl) {
    if (on && p[0]) { char a[PATH_MAX]; absolute(dfd, p, a); if (kind(a)) { int e = ask("stat", 0, a, 0, 0); if (e) FAIL(e); } }
    return (int)syscall(SYS_newfstatat, dfd, p, st, fl);
}
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(d, p, st, fl); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_stat(d, p, (struct stat *)st, fl); }
static int do_fstat(int fd, struct stat *st) { const char *p = tracked(fd); if (p && fd != 1) { int e = ask("fstat", 0, p, 0, 0); if (e) FAIL(e); } return (int)syscall(SYS_fstat, fd, st); }
int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }
int access(const char *p, int m) { if (on) { char a[PATH_MAX]; absolute(AT_FDCWD, p, a); if (kind(a)) { int e = ask("stat", 0, a, 0, 0); if (e) FAIL(e); } } return (int)syscall(SYS_access, p, m); }

#define CH1(name, d, p, call) if (on) { char a[PATH_MAX]; absolute(d, p, a); int e = change(name, a); if (e) FAIL(e); } return (int)(call)
int unlink(const char *p) { CH1("unlink", AT_FDCWD, p, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { CH1("unlink", d, p, syscall(SYS_unlinkat, d, p, f)); }
int rmdir(const char *p) { CH1("rmdir", AT_FDCWD, p, syscall(SYS_rmdir, p)); }
int mkdir(const char *p, mode_t m) { CH1("mkdir", AT_FDCWD, p, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { CH1("mkdir", d, p, syscall(SYS_mkdirat, d, p, m)); }
int truncate64(const char *p, off64_t n) { CH1("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n)); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int chmod(const char *p, mode_t m) { CH1("chmod", AT_FDCWD, p, syscall(SYS_chmod, p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; CH1("chmod", d, p, syscall(SYS_fchmodat, d, p, m)); }
int chown(const char *p, uid_t u, gid_t g) { CH1("chown", AT_FDCWD, p, syscall(SYS_chown, p, u, g)); }
static int ren(int d1, const char *a1, int d2, const char *a2) {
    if (on) { char a[PATH_MAX], b[PATH_MAX]; absolute(d1, a1, a); absolute(d2, a2, b);
        if (kind(a) != 1) { int e = change("rename", a); if (e) FAIL(e); }
        int e = change("rename", b); if (e) FAIL(e); }
    return (int)syscall(SYS_renameat, d1, a1, d2, a2);
}
int rename(const char *a, const char *b) { return ren(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d, const char *a, int e, const char *b) { return ren(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { (void)f; return ren(d, a, e, b); }
int link(const char *a, const char *b) { CH1("link", AT_FDCWD, b, syscall(SYS_link, a, b)); }
int linkat(int d, const char *a, int e_, const char *b, int f) { CH1("link", e_, b, syscall(SYS_linkat, d, a, e_, b, f)); }
int symlink(const char *a, const char *b) { CH1("link", AT_FDCWD, b, syscall(SYS_symlink, a, b)); }

/* time and randomness */
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!seeded) return (int)syscall(SYS_clock_gettime, c, t);
    vtime += 1000 + rnd() % 5000000; t->tv_sec = (time_t)(vtime / 1000000000ull); t->tv_nsec = (long)(vtime % 1000000000ull); return 0;
}
int gettimeofday(struct timeval *t, void *z) { (void)z; struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!seeded) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(rnd() >> 24); return (ssize_t)n; }
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }

/* whose machine it is */
static uint64_t fixed(int k) { uint64_t z = (rng0 + (uint64_t)k) * 0xBF58476D1CE4E5B9ull; return z ^ (z >> 29); }
int gethostname(char *b, size_t n) { if (seeded) snprintf(b, n, "host%u", (unsigned)(fixed(1) % 1000)); else { struct utsname u; if (syscall(SYS_uname, &u) < 0) return -1; snprintf(b, n, "%s", u.nodename); } return 0; }
int uname(struct utsname *u) { int r = (int)syscall(SYS_uname, u); if (r == 0 && seeded) { gethostname(u->nodename, sizeof u->nodename); snprintf(u->release, sizeof u->release, "%u.%u.0", 3 + (unsigned)(fixed(2) % 4), (unsigned)(fixed(3) % 20)); } return r; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { if (!seeded) { long r = syscall(SYS_sched_getaffinity, p, n, m); return r < 0 ? -1 : 0; } memset(m, 0, n); for (unsigned i = 0; i <= fixed(6) % 16 && i < n * 8; i++) CPU_SET_S(i, n, m); return 0; }

/* directory order */
typedef struct { DIR *d; struct dirent64 *e[4096]; int n, i; } Dir;
static Dir dirs[32];
static struct dirent64 *(*real_readdir)(DIR *);
struct dirent64 *readdir64(DIR *d) {
    if (!real_readdir) real_readdir = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    if (!seeded) return real_readdir(d);
    Dir *s = 0;
    for (int i = 0; i < 32; i++) if (dirs[i].d == d) s = &dirs[i];
    if (!s) {
        for (int i = 0; i < 32 && !s; i++) if (!dirs[i].d) s = &dirs[i];
        if (!s) return real_readdir(d);
        s->d = d; s->n = s->i = 0;
        struct dirent64 *e;
        while (s->n < 4096 && (e = real_readdir(d))) { s->e[s->n] = malloc(e->d_reclen); memcpy(s->e[s->n++], e, e->d_reclen); }
        /* a canonical order first, so that only the seed decides */
        for (int i = 1; i < s->n; i++) for (int j = i; j && strcmp(s->e[j - 1]->d_name, s->e[j]->d_name) > 0; j--) { struct dirent64 *t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t; }
        for (int i = s->n - 1; i > 0; i--) { int j = (int)(rnd() % (uint64_t)(i + 1)); struct dirent64 *t = s->e[j]; s->e[j] = s->e[i]; s->e[i] = t; }
    }
    return s->i < s->n ? s->e[s->i++] : 0;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    static int (*real)(DIR *); if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 32; i++) if (dirs[i].d == d) { for (int j = 0; j < dirs[i].n; j++) free(dirs[i].e[j]); dirs[i].d = 0; }
    return real(d);
}
