// Starting another program: instead of executing a file, the new process calls the function which the
// harness has registered.  (Included by the executor's C library and by the replay program.)
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
static int (*on_spawn)(const char *, char *const *);
uint64_t verif_on_spawn(int (*f)(const char *, char *const *)) { on_spawn = f; return 0; }
extern int verif_fork(void);
static void become(const char *file, char *const *argv) {
    signal(SIGPIPE, SIG_DFL); // (Rust's standard library sees to that)
    for (int fd = 3; fd < 64; fd++) { int f = fcntl(fd, F_GETFD); if (f != -1 && (f & FD_CLOEXEC)) close(fd); }
    _exit(on_spawn(file, argv));
}
int execvp(const char *file, char *const *argv) { if (!on_spawn) { errno = ENOENT; return -1; } become(file, argv); return -1; }
int execv(const char *file, char *const *argv) { return execvp(file, argv); }
struct acts { int n; struct { short from, to; } a[16]; };
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *p) { ((struct acts *)p)->n = 0; return 0; }
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *p) { return 0; }
static int act(posix_spawn_file_actions_t *p, int from, int to) {
    struct acts *l = (struct acts *)p;
    if (l->n == 16) return ENOMEM;
    l->a[l->n].from = from; l->a[l->n++].to = to;
    return 0;
}
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *p, int from, int to) { return act(p, from, to); }
int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *p, int fd) { return act(p, fd, -1); }
int posix_spawnattr_init(posix_spawnattr_t *a) { return 0; }
int posix_spawnattr_destroy(posix_spawnattr_t *a) { return 0; }
int posix_spawnattr_setflags(posix_spawnattr_t *a, short f) { return 0; }
int posix_spawnattr_setpgroup(posix_spawnattr_t *a, pid_t p) { return 0; }
int posix_spawnattr_setsigdefault(posix_spawnattr_t *a, const sigset_t *s) { return 0; }
int posix_spawnattr_setsigmask(posix_spawnattr_t *a, const sigset_t *s) { return 0; }
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
    if (!on_spawn) return ENOENT;
    int p = verif_fork();
    if (p < 0) return EAGAIN;
    if (p == 0) {
        const struct acts *l = (const struct acts *)fa;
        for (int i = 0; l && i < l->n; i++) {
            if (l->a[i].to < 0) close(l->a[i].from);
            else if (l->a[i].to == l->a[i].from) fcntl(l->a[i].to, F_SETFD, 0);
            else if (dup2(l->a[i].from, l->a[i].to) < 0) _exit(127);
        }
        become(file, argv);
    }
    *pid = p;
    return 0;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return posix_spawnp(pid, file, fa, at, argv, envp); }
