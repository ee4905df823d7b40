/* Preloaded into the engine: kills it (SIGKILL) in front of, within or after its n-th change of a
 * file below CUT_DIR, and delays such changes at random (CUT_JITTER: seed) to vary the schedule. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static long cut, seen;
static const char *dir;
static unsigned long jitter;
static int ready;

static void init(void) {
    if (ready) return;
    ready = 1;
    if (getenv("CUT_AT")) cut = atol(getenv("CUT_AT"));
    if (getenv("CUT_JITTER")) jitter = strtoul(getenv("CUT_JITTER"), 0, 10);
    dir = getenv("CUT_DIR");
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static int ours(const char *p) { init(); return dir && p && !strncmp(p, dir, strlen(dir)); }
static int oursfd(int fd) {
    char l[40], b[4096];
    init();
    if (!dir || fd < 3) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n < 0) return 0;
    b[n] = 0;
    return ours(b);
}
static void delay(void) {
    if (!jitter) return;
    unsigned long x = __sync_add_and_fetch(&jitter, 0x9E3779B97F4A7C15ul);
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ul; x ^= x >> 27;
    if (x % 3 == 0) usleep(x / 3 % 900);
}
/* 0: go on, 1: the change is cut in half */
static int point(void) {
    delay();
    if (!cut) return 0;
    long k = __sync_add_and_fetch(&seen, 1);
    if (k < cut) return 0;
    if (k > cut) for (;;) pause(); /* being killed */
    if (cut % 2) return 1;
    die();
    return 0;
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = REAL(write);
    if (oursfd(fd) && point()) { real(fd, b, n / 2); die(); }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = REAL(writev);
    if (oursfd(fd) && point()) { real(fd, v, n / 2); die(); }
    return real(fd, v, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = REAL(pwrite64);
    if (oursfd(fd) && point()) { real(fd, b, n / 2, o); die(); }
    return real(fd, b, n, o);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    static size_t (*real)(const void *, size_t, size_t, FILE *);
    if (!real) real = REAL(fwrite);
    if (oursfd(fileno(f)) && point()) { real(b, s, n / 2, f); fflush(f); die(); }
    return real(b, s, n, f);
}
int fclose(FILE *f) {
    static int (*real)(FILE *);
    if (!real) real = REAL(fclose);
    if (oursfd(fileno(f)) && point()) die();
    return real(f);
}
static FILE *fopen_(const char *name, const char *p, const char *m) {
    FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, name);
    if (ours(p)) {
        if (strchr(m, 'w')) { if (point()) { FILE *f = real(p, m); (void)f; die(); } }
        else delay();
    }
    return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopen_("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen_("fopen64", p, m); }
int unlink(const char *p) {
    static int (*real)(const char *);
    if (!real) real = REAL(unlink);
    if (ours(p) && point()) die();
    return real(p);
}
int rename(const char *a, const char *b) {
    static int (*real)(const char *, const char *);
    if (!real) real = REAL(rename);
    if (ours(b) && point()) { real(a, b); die(); }
    return real(a, b);
}
int mkdir(const char *p, mode_t m) {
    static int (*real)(const char *, mode_t);
    if (!real) real = REAL(mkdir);
    if (ours(p) && point()) { real(p, m); die(); }
    return real(p, m);
}
int fcntl64(int fd, int cmd, ...) {
    static int (*real)(int, int, ...);
    va_list v;
    va_start(v, cmd);
    void *a = va_arg(v, void *);
    va_end(v);
    if (!real) real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl64");
    if (cmd == F_SETLK && oursfd(fd)) delay();
    return real(fd, cmd, a);
}
