// The parts of the C library which the vendored C code needs and which are pure enough to be executed
// like any other code.  Everything that touches files, memory or processes is modelled by the executor.
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/types.h>
#include <netdb.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#undef errno
#define errno (*__errno_location())

char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) {
    size_t l = strlen(n);
    for (;; h++) { size_t i = 0; while (i < l && h[i] == n[i]) i++; if (i == l) return (char *)h; if (!*h) return 0; }
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strncasecmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
    return 0;
}
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x - y; if (!x) return 0; }
    return 0;
}
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); memcpy(d, s, n); return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strspn(const char *s, const char *a) { size_t i = 0; while (s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; while (s[i] && !strchr(a, s[i])) i++; return i; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }

static int space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long num(const char *s, char **e, int base, int sgn) {
    const char *p = s;
    int neg = 0, any = 0, over = 0;
    unsigned long v = 0;
    while (space((unsigned char)*p)) p++;
    if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) {
        int c = (unsigned char)*p, d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        any = 1;
        if (v > (~0UL - d) / base) over = 1; else v = v * base + d;
    }
    if (e) *e = (char *)(any ? p : s);
    if (sgn) {
        if (over || v > (neg ? 1UL << 63 : (1UL << 63) - 1)) { errno = ERANGE; return neg ? 1UL << 63 : (1UL << 63) - 1; }
        return neg ? -v : v;
    }
    if (over) { errno = ERANGE; return ~0UL; }
    return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return (long)num(s, e, b, 1); }
long long strtoll(const char *s, char **e, int b) { return (long)num(s, e, b, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return num(s, e, b, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return num(s, e, b, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }

static unsigned short ct[384];
static int tl[384], tu[384];
static const unsigned short *ctp = ct + 128;
static const int *tlp = tl + 128, *tup = tu + 128;
static void tables(void) {
    if (ct[128 + 'A']) return;
    for (int c = 0; c < 256; c++) {
        unsigned short m = 0;
        if (c < 128) {
            int U = c >= 'A' && c <= 'Z', L = c >= 'a' && c <= 'z', D = c >= '0' && c <= '9', X = D || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
            int S = space(c), P = c >= 32 && c < 127, G = c > 32 && c < 127, B = c == ' ' || c == 9, C = c < 32 || c == 127;
            m = (U ? 1 << 8 : 0) | (L ? 1 << 9 : 0) | (U || L ? 1 << 10 : 0) | (D ? 1 << 11 : 0) | (X ? 1 << 12 : 0) | (S ? 1 << 13 : 0) | (P ? 1 << 14 : 0) | (G ? 1 << 15 : 0)
                | (B ? 1 << 0 : 0) | (C ? 1 << 1 : 0) | (G && !(U || L || D) ? 1 << 2 : 0) | (U || L || D ? 1 << 3 : 0);
        }
        tl[128 + c] = low(c); tu[128 + c] = up(c);
        ct[128 + c] = m;
    }
}
const unsigned short **__ctype_b_loc(void) { tables(); return &ctp; }
const int **__ctype_tolower_loc(void) { tables(); return &tlp; }
const int **__ctype_toupper_loc(void) { tables(); return &tup; }
int tolower(int c) { return low(c); }
int toupper(int c) { return up(c); }

struct out { char *b; size_t cap, n; };
static void put(struct out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void fill(struct out *o, char c, long k) { while (k-- > 0) put(o, c); }
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) {
    struct out o = { b, cap, 0 };
    for (; *f; f++) {
        if (*f != '%') { put(&o, *f); continue; }
        int left = 0, zero = 0, plus = 0, alt = 0, lng = 0;
        long width = 0, prec = -1;
        for (f++;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') ; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '.') { prec = 0; f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') ; else break; }
        char tmp[40];
        const char *s = tmp;
        long l = 0;
        unsigned long v;
        int neg = 0, base = 10;
        switch (*f) {
        case '%': put(&o, '%'); continue;
        case 'c': tmp[0] = (char)va_arg(ap, int); l = 1; zero = 0; break;
        case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; l = prec >= 0 ? strnlen(s, prec) : strlen(s); zero = 0; break;
        case 'd': case 'i': { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : x; goto digits; }
        case 'p': lng = 1; alt = 1;
        case 'x': case 'X': base = 16;
        case 'o': if (*f == 'o') base = 8;
        case 'u': v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); plus = 0;
        digits: {
            char *q = tmp + sizeof tmp;
            do { int d = v % base; *--q = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; l++; } while (v);
            while (l < prec) { *--q = '0'; l++; }
            if (zero && !left && prec < 0) { long w = width - (neg || plus ? 1 : 0); while (l < w && l < 36) { *--q = '0'; l++; } }
            if (alt && base == 16) { *--q = 'x'; *--q = '0'; l += 2; }
            if (neg) { *--q = '-'; l++; } else if (plus) { *--q = '+'; l++; }
            s = q;
            zero = 0;
            break;
        }
        default: abort();
        }
        if (!left) fill(&o, ' ', width - l);
        for (long i = 0; i < l; i++) put(&o, s[i]);
        if (left) fill(&o, ' ', width - l);
    }
    if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
    return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { return 0; }
int fprintf(FILE *o, const char *f, ...) { return 0; }
int fputs(const char *s, FILE *f) { return 0; }
int fputc(int c, FILE *f) { return c; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { return n; }
int fflush(FILE *f) { return 0; }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { abort(); }

static long days(long y, unsigned m, unsigned d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    return era * 146097 + (long)(yoe * 365 + yoe / 4 - yoe / 100 + doy) - 719468;
}
struct tm *gmtime_r(const time_t *t, struct tm *o) {
    long s = *t, z = s / 86400, r = s % 86400;
    if (r < 0) { r += 86400; z--; }
    memset(o, 0, sizeof *o);
    o->tm_hour = r / 3600; o->tm_min = r / 60 % 60; o->tm_sec = r % 60;
    o->tm_wday = (int)((z % 7 + 11) % 7);
    long q = z + 719468, era = (q >= 0 ? q : q - 146096) / 146097;
    unsigned doe = (unsigned)(q - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long y = (long)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp + (mp < 10 ? 3 : -9);
    y += m <= 2;
    o->tm_mday = d; o->tm_mon = m - 1; o->tm_year = y - 1900; o->tm_yday = (int)(z - days(y, 1, 1));
    return o;
}
struct tm *localtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); }
time_t mktime(struct tm *t) {
    long m = t->tm_mon, y = t->tm_year + 1900 + m / 12;
    m %= 12;
    if (m < 0) { m += 12; y--; }
    time_t r = (days(y, m + 1, 1) + t->tm_mday - 1) * 86400 + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec;
    gmtime_r(&r, t);
    return r;
}
double difftime(time_t a, time_t b) { return (double)(a - b); }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
char *strerror(int e) { static char b[32]; snprintf(b, sizeof b, "errno %d", e); return b; }

void *mmap(void *a, size_t n, int p, int f, int fd, off_t off) {
    char *m = calloc(1, n ? n : 1);
    size_t got = 0;
    if (f & MAP_ANONYMOUS) return m;
    while (got < n) { ssize_t k = pread(fd, m + got, n - got, off + (off_t)got); if (k <= 0) break; got += k; }
    return m;
}
int munmap(void *a, size_t n) { free(a); return 0; }
int utimes(const char *p, const struct timeval *t) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int pthread_cond_signal(pthread_cond_t *c) { return 0; }
int atexit(void (*f)(void)) { return 0; }
gid_t getgid(void) { return 0; }
gid_t getegid(void) { return 0; }
pid_t getpgid(pid_t p) { return p ? p : getpid(); }
pid_t getsid(pid_t p) { return p ? p : getpid(); }

static int after(const void *a, const void *b, int (*cmp)(const void *, const void *)) { return cmp(a, b) > 0; }
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    char *b = base, *t = malloc(w);
    for (size_t i = 1; i < n; i++) {
        size_t j = i;
        memcpy(t, b + i * w, w);
        while (j && after(b + (j - 1) * w, t, cmp)) { memcpy(b + j * w, b + (j - 1) * w, w); j--; }
        memcpy(b + j * w, t, w);
    }
    free(t);
}

// SHA-1, which libgit2 uses here only to see whether a configuration file has changed.  The digest is a
// cheaper function of the content.
typedef struct { uint64_t n; unsigned char h[20]; } mini_sha1;
void SHA1DCInit(mini_sha1 *c) { c->n = 0; for (int i = 0; i < 20; i++) c->h[i] = 0; }
void SHA1DCSetSafeHash(mini_sha1 *c, int x) {}
void SHA1DCUpdate(mini_sha1 *c, const char *b, size_t n) { for (size_t i = 0; i < n; i++) c->h[c->n++ % 20] ^= b[i]; }
int SHA1DCFinal(unsigned char *out, mini_sha1 *c) { c->h[0] ^= c->n; for (int i = 0; i < 20; i++) out[i] = c->h[i]; return 0; }
const char *gnu_get_libc_version(void) { return "2.39"; }
int sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int sigaddset(sigset_t *s, int n) { return 0; }
#include "../../harness/native/spawn.c"
int usleep(unsigned n) { return 0; }
