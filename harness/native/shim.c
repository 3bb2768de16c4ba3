// Replays a counterexample of the symbolic executor against the real, natively compiled code.
//
// The harness intrinsics read their values from the replay file named by VERIF_REPLAY, and the
// file operations below are the same "visible operations" that the executor schedules: they wait
// for their turn in the recorded order, and are killed or fail where the counterexample says so.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
struct kv { char *k; u64 v; struct kv *n; };
#define NB 65536
static struct kv *tab[NB];
struct shared { volatile int nprocs; volatile int ord; volatile u64 clock; volatile int clock_on; volatile int done; };
static struct shared *sh;
static int me, nvis, sched_on, crash_on, fault_on;
static unsigned cur_uid;
static char scratch_dir[256];
struct cnt { char name[64]; u64 n; };
static struct cnt cnts[512];
static int ncnt;

static unsigned hash(const char *s) { unsigned h = 5381; while (*s) h = h * 33 + (unsigned char)*s++; return h % NB; }
static int lookup(const char *k, u64 *v) { for (struct kv *p = tab[hash(k)]; p; p = p->n) if (!strcmp(p->k, k)) { *v = p->v; return 1; } return 0; }
static u64 get(const char *k) { u64 v = 0; lookup(k, &v); return v; }
static u64 *counter(const char *name) {
    for (int i = 0; i < ncnt; i++) if (!strcmp(cnts[i].name, name)) return &cnts[i].n;
    if (ncnt == 512) _exit(96);
    snprintf(cnts[ncnt].name, sizeof cnts[0].name, "%s", name);
    cnts[ncnt].n = 0;
    return &cnts[ncnt++].n;
}
static void result(const char *kind, const char *msg) {
    const char *f = getenv("VERIF_RESULT");
    char line[4096];
    int n = snprintf(line, sizeof line, "%s %s\n", kind, msg);
    int fd = syscall(SYS_openat, AT_FDCWD, f ? f : "/dev/stderr", O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { if (syscall(SYS_write, fd, line, n) < 0) {} close(fd); }
}
static void stop_all(void) { kill(0, SIGKILL); for (;;) pause(); }
__attribute__((constructor)) static void init(void) {
    const char *f = getenv("VERIF_REPLAY");
    if (sh) return;
    sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->nprocs = 1;
    umask(022);
    snprintf(scratch_dir, sizeof scratch_dir, "%s", getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/nonexistent");
    if (!f) return;
    FILE *in = fopen(f, "r");
    if (!in) return;
    char line[4096], name[2048];
    unsigned long long v;
    while (fgets(line, sizeof line, in)) {
        if (line[0] == '#') continue;
        if (sscanf(line, "%2047s %llu", name, &v) == 2) { struct kv *e = malloc(sizeof *e); e->k = strdup(name); e->v = v; unsigned h = hash(name); e->n = tab[h]; tab[h] = e; }
    }
    fclose(in);
}
// ---- intrinsics
static void nm(char *b, const char *name, u64 n) { if (n > 60) n = 60; memcpy(b, name, n); b[n] = 0; }
u64 verif_sym(const char *name, u64 nl, unsigned char *buf, u64 n) {
    char b[64], k[160];
    nm(b, name, nl);
    u64 c = (*counter(b))++;
    for (u64 i = 0; i < n; i++) { snprintf(k, sizeof k, "p%d.%s.%llu.%llu", me, b, (unsigned long long)c, (unsigned long long)i); buf[i] = get(k); }
    return 0;
}
u64 verif_choice(const char *name, u64 nl, u64 n) {
    char b[64], k[160];
    nm(b, name, nl);
    if (n <= 1) return 0;
    u64 c = (*counter(b))++;
    snprintf(k, sizeof k, "p%d.%s.%llu.0", me, b, (unsigned long long)c);
    u64 v = get(k);
    if (n > 256) { snprintf(k, sizeof k, "p%d.%s.%llu.1", me, b, (unsigned long long)c); v |= get(k) << 8; }
    return v;
}
u64 verif_assume(int b) { if (!b) { result("ASSUME", "assumption does not hold"); stop_all(); } return 0; }
u64 verif_assert(int b, const char *msg, u64 n) { if (!b) { char m[2048]; if (n > 2000) n = 2000; memcpy(m, msg, n); m[n] = 0; result("FAIL", m); stop_all(); } return 0; }
u64 verif_reach(const char *m, u64 n) { return 0; }
static char guard[300];
u64 verif_guard(const char *p, u64 n) { char b[300]; if (n > 299) n = 299; memcpy(b, p, n); b[n] = 0; guard[0] = 0; if (n) { char *r = realpath(b, 0); if (r) snprintf(guard, sizeof guard, "%s", r); } return 0; }
// follow the components of a path as far as they exist; what does not exist is taken literally
static void outside(const char *p) {
    if (!guard[0]) return;
    char cur[PATH_MAX + 300], save[300];
    strcpy(save, guard);
    guard[0] = 0;
    if (*p == '/') strcpy(cur, "/"); else if (!getcwd(cur, PATH_MAX)) _exit(95);
    const char *q = p;
    while (*q) {
        while (*q == '/') q++;
        size_t l = strcspn(q, "/");
        if (!l) break;
        if (strlen(cur) + l + 2 > PATH_MAX) break;
        char t[PATH_MAX + 300];
        snprintf(t, sizeof t, "%s/%.*s", cur, (int)l, q);
        q += l;
        char *r = realpath(t, 0);
        if (!r) break;
        strcpy(cur, r); // (a directory, or the last component)
        free(r);
    }
    strcpy(guard, save);
    size_t g = strlen(guard);
    if (strncmp(cur, guard, g) || (cur[g] && cur[g] != '/')) { char m[4400]; snprintf(m, sizeof m, "a path outside the guarded directory is used: %s", p); result("FAIL", m); stop_all(); }
}
u64 verif_sched(u64 on) { sched_on = on != 0; return 0; }
u64 verif_crash(u64 on) { crash_on = on != 0; return 0; }
u64 verif_fault(u64 mask) { fault_on = mask; return 0; }
unsigned char *verif_shared(u64 n) { return mmap(0, n ? n : 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
u64 verif_param(const char *name, u64 nl, u64 def) { char b[64], k[128]; nm(b, name, nl); snprintf(k, sizeof k, "param.%s", b); u64 v = def; lookup(k, &v); return v; }
u64 verif_scratch(char *buf, u64 cap) { u64 n = strlen(scratch_dir); if (n > cap) n = cap; memcpy(buf, scratch_dir, n); return n; }
u64 verif_clock(u64 start) { sh->clock = start; sh->clock_on = 1; return 0; }
// the standard library keeps the arguments that its constructor got
extern void (*__init_array_start[])(int, const char **, char **) __attribute__((visibility("hidden")));
extern void (*__init_array_end[])(int, const char **, char **) __attribute__((visibility("hidden")));
extern char **environ;
u64 verif_args(u64 n, const char **v) { long k = __init_array_end - __init_array_start; for (long i = 0; i < k; i++) __init_array_start[i](n, v, environ); return 0; }
u64 verif_pin(u64 v) { return v; }
u64 verif_note(const char *s, u64 n) { fwrite("note: ", 1, 6, stderr); fwrite(s, 1, n, stderr); fputc('\n', stderr); return 0; }
u64 verif_debug(const char *s, u64 n) { return 0; }
u64 verif_uid(u64 u) { cur_uid = u; return 0; }
static volatile int next_idx;
int verif_fork(void) {
    int idx = __sync_fetch_and_add(&sh->nprocs, 1);
    fflush(stderr);
    int p = fork();
    if (p == 0) { me = idx; nvis = 0; }
    return p;
}
#include "spawn.c"
static u64 tty;
// ---- memory: every block is preceded by where it was really allocated and how much was asked for
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
static u64 live;
static void *take(size_t n, size_t align) {
    if (align < 16) align = 16;
    if (n + align + 16 < n) { errno = ENOMEM; return 0; }
    char *base = __libc_malloc(n + align + 16);
    if (!base) return 0;
    size_t *p = (size_t *)(((size_t)base + 16 + align - 1) & ~(align - 1));
    p[-2] = (size_t)base;
    p[-1] = n;
    __atomic_add_fetch(&live, n, __ATOMIC_RELAXED);
    return p;
}
void *malloc(size_t n) { return take(n, 16); }
void free(void *v) { size_t *p = v; if (!p) return; int e = errno; __atomic_sub_fetch(&live, p[-1], __ATOMIC_RELAXED); __libc_free((void *)p[-2]); errno = e; }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } void *p = take(n, 16); return p ? memset(p, 0, n) : 0; }
void *realloc(void *v, size_t n) { size_t *o = v; if (!o) return malloc(n); if (!n) { free(v); return 0; } void *p = take(n, 16); if (!p) return 0; memcpy(p, v, o[-1] < n ? o[-1] : n); free(v); return p; }
void *reallocarray(void *v, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return realloc(v, n); }
void *memalign(size_t a, size_t n) { return take(n, a); }
void *aligned_alloc(size_t a, size_t n) { return take(n, a); }
void *valloc(size_t n) { return take(n, 4096); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = take(n, a); if (!q) return ENOMEM; *p = q; return 0; }
size_t malloc_usable_size(void *v) { return v ? ((size_t *)v)[-1] : 0; }
u64 verif_heap(void) { return live; }
u64 verif_settle(void) { usleep(60000); return 0; }
u64 verif_tty(u64 m) { tty = m; return 0; }
int isatty(int fd) { if (fd >= 0 && fd < 3 && (tty >> fd & 1)) return 1; errno = ENOTTY; return 0; }
void abort(void) { result("PANIC", "abort"); stop_all(); __builtin_unreachable(); }
uid_t getuid(void) { return cur_uid; }
uid_t geteuid(void) { return cur_uid; }
static const char *uname_of(unsigned u) { switch (u) { case 0: return "root"; case 1: return "daemon"; case 2: return "bin"; case 65534: return "nobody"; } return 0; }
static struct passwd pwbuf;
struct passwd *getpwuid(uid_t u) {
    const char *n = uname_of(u);
    if (!n) return 0;
    pwbuf.pw_name = (char *)n; pwbuf.pw_passwd = pwbuf.pw_gecos = pwbuf.pw_dir = pwbuf.pw_shell = (char *)"x"; pwbuf.pw_uid = pwbuf.pw_gid = u;
    return &pwbuf;
}
int getpwuid_r(uid_t u, struct passwd *pw, char *buf, size_t l, struct passwd **res) {
    struct passwd *p = getpwuid(u);
    *res = 0;
    if (p) { *pw = *p; *res = pw; }
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (id == CLOCK_REALTIME && sh && sh->clock_on) {
        char k[64];
        snprintf(k, sizeof k, "clock.p%d.%llu", me, (unsigned long long)(*counter("clock"))++);
        sh->clock += get(k);
        ts->tv_sec = sh->clock; ts->tv_nsec = 0;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
// ---- visible operations.  kind: 1 = write, 2 = name space or metadata, 4 = read
static int cut, stdio = -1, nstdio, badstd;
static int pre(int kind) {
    cut = 0;
    if (!sched_on) return 0;
    char k[64];
    for (;;) {
        u64 who;
        snprintf(k, sizeof k, "order.%d", sh->ord);
        if (!lookup(k, &who)) break; // beyond the recorded schedule: run freely
        if (who == (u64)me + 1) break;
        usleep(200);
    }
    snprintf(k, sizeof k, "crash.p%d.%d", me, nvis);
    if (crash_on && get(k)) { sh->ord++; syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
    int n = nvis, may = fault_on & (kind == 5 ? 4 : kind);
    if (fault_on & 32) {
        if (stdio < 0) return 0;
        if (may && badstd >> stdio & 1) return kind == 1 ? ENOSPC : EIO;
        n = 1000000 + nstdio++;
    }
    snprintf(k, sizeof k, "fault.p%d.%d", me, n);
    if (may && get(k)) {
        snprintf(k, sizeof k, "denied.p%d.%d", me, n);
        if (fault_on & 64) return EACCES;
        if ((fault_on & 8) && kind != 1 && get(k)) return EACCES;
        snprintf(k, sizeof k, "short.p%d.%d", me, n);
        if ((fault_on & 16) && (kind == 1 || kind == 5) && get(k)) { cut = 1; return 0; }
        if (stdio >= 0) badstd |= 1 << stdio;
        return kind == 1 ? ENOSPC : EIO;
    }
    return 0;
}
static void post(void) { stdio = -1; if (!sched_on) return; nvis++; sh->ord++; }
#define OP(kind, call) do { int e_ = pre(kind); long r_; int s_; if (e_) { r_ = -1; s_ = e_; } else { r_ = (call); s_ = errno; } post(); errno = s_; return r_; } while (0)
static long own(long fd, int flags, int existed) { if (fd >= 0 && cur_uid && (flags & O_CREAT) && !existed) if (fchown(fd, cur_uid, -1)) {} return fd; }
static int exists_at(int d, const char *p) { struct stat st; return syscall(SYS_newfstatat, d, p, &st, AT_SYMLINK_NOFOLLOW) == 0; }
#define KIND(f) (((f) & 3) == 0 ? 4 : 2)
static long rawopen(int d, const char *p, int f, int m) { int ex = exists_at(d, p); return own(syscall(SYS_openat, d, p, f, m), f, ex); }
static int do_openat(int d, const char *p, int f, int m) { outside(p); OP(KIND(f), rawopen(d, p, f, m)); }
#define MODE int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int f, ...) { MODE return do_openat(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return do_openat(AT_FDCWD, p, f | O_LARGEFILE, m); }
int openat(int d, const char *p, int f, ...) { MODE return do_openat(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return do_openat(d, p, f | O_LARGEFILE, m); }
static int isreg(int fd) { struct stat st; return syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode); }
ssize_t write(int fd, const void *b, size_t n) { if (!isreg(fd)) return syscall(SYS_write, fd, b, n); stdio = fd <= 2 ? fd : -1; OP(1, syscall(SYS_write, fd, b, cut && n > 1 ? n / 2 : n)); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (!isreg(fd)) return syscall(SYS_writev, fd, v, n); stdio = fd <= 2 ? fd : -1; OP(1, syscall(SYS_writev, fd, v, n)); }
ssize_t read(int fd, void *b, size_t n) { if (!isreg(fd)) return syscall(SYS_read, fd, b, n); stdio = fd <= 2 ? fd : -1; OP(5, syscall(SYS_read, fd, b, cut && n > 1 ? (n / 2 < 3 ? n / 2 : 3) : n)); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { OP(4, syscall(SYS_pread64, fd, b, n, o)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { OP(4, syscall(SYS_pread64, fd, b, n, o)); }
static int do_stat(int d, const char *p, struct stat *s, int fl) { outside(p); OP(4, syscall(SYS_newfstatat, d, p, s, fl)); }
int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *)s, 0); }
int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *s, int fl) { if (!*p && (fl & AT_EMPTY_PATH)) return syscall(SYS_newfstatat, d, p, s, fl); return do_stat(d, p, s, fl); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *b) {
    const char *volatile vp = p; struct statx *volatile vb = b; // (declared as never null)
    if (!vp || !vb || (!*p && (fl & AT_EMPTY_PATH))) return syscall(SYS_statx, d, p, fl, mask, b);
    outside(p);
    OP(4, syscall(SYS_statx, d, p, fl, mask, b));
}
static long rawmkdir(int d, const char *p, mode_t m) { long r = syscall(SYS_mkdirat, d, p, m); if (r == 0 && cur_uid) if (fchownat(d, p, cur_uid, -1, AT_SYMLINK_NOFOLLOW)) {} return r; }
int mkdir(const char *p, mode_t m) { outside(p); OP(2, rawmkdir(AT_FDCWD, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { outside(p); OP(2, rawmkdir(d, p, m)); }
int unlink(const char *p) { outside(p); OP(2, syscall(SYS_unlink, p)); }
int rmdir(const char *p) { outside(p); OP(2, syscall(SYS_rmdir, p)); }
int unlinkat(int d, const char *p, int f) { outside(p); OP(2, syscall(SYS_unlinkat, d, p, f)); }
int rename(const char *a, const char *b) { outside(a); outside(b); OP(2, syscall(SYS_rename, a, b)); }
int renameat(int d, const char *a, int e, const char *b) { outside(a); outside(b); OP(2, syscall(SYS_renameat, d, a, e, b)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { outside(a); outside(b); OP(2, syscall(SYS_renameat2, d, a, e, b, f)); }
int link(const char *a, const char *b) { outside(a); outside(b); OP(2, syscall(SYS_link, a, b)); }
int linkat(int d, const char *a, int e, const char *b, int f) { outside(a); outside(b); OP(2, syscall(SYS_linkat, d, a, e, b, f)); }
int symlink(const char *a, const char *b) { outside(b); OP(2, syscall(SYS_symlink, a, b)); }
ssize_t readlink(const char *p, char *b, size_t n) { outside(p); OP(4, syscall(SYS_readlink, p, b, n)); }
int chmod(const char *p, mode_t m) { outside(p); OP(2, syscall(SYS_fchmodat, AT_FDCWD, p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { outside(p); OP(2, syscall(SYS_fchmodat, d, p, m)); }
int fchmod(int fd, mode_t m) { OP(2, syscall(SYS_fchmod, fd, m)); }
int access(const char *p, int m) { outside(p); OP(4, syscall(SYS_access, p, m)); }
int faccessat(int d, const char *p, int m, int f) { OP(4, syscall(SYS_faccessat, d, p, m)); }
int ftruncate(int fd, off_t n) { OP(1, syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { OP(1, syscall(SYS_ftruncate, fd, n)); }
int fsync(int fd) { OP(2, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { OP(2, syscall(SYS_fdatasync, fd)); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { OP(2, syscall(SYS_utimensat, d, p, t, f)); }
// the copying shortcuts are not modelled: make the standard library fall back to read and write
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { errno = ENOSYS; return -1; }
static DIR *seen[256];
static int nseen;
static void forget(DIR *d) { for (int i = 0; i < nseen; i++) if (seen[i] == d) seen[i] = seen[--nseen]; }
DIR *opendir(const char *p) {
    static DIR *(*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "fdopendir");
    outside(p);
    int e = pre(4), fd = -1, s = e;
    if (!e) { fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC); s = errno; }
    post();
    errno = s;
    if (fd < 0) return 0;
    DIR *d = real(fd);
    forget(d);
    return d;
}
static int first(DIR *d) { for (int i = 0; i < nseen; i++) if (seen[i] == d) return 0; if (nseen < 256) seen[nseen++] = d; return 1; }
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    if (!first(d)) return real(d);
    int e = pre(4);
    struct dirent64 *r = e ? 0 : real(d);
    int s = e ? e : errno;
    post();
    errno = s;
    return r;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) { static int (*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "closedir"); forget(d); return real(d); }
int main(void) {
    extern int VERIF_ENTRY(void);
    int r = VERIF_ENTRY();
    char m[64];
    snprintf(m, sizeof m, "%d", r);
    result("DONE", m);
    return r;
}
void verif_exit_hook(void) {}
