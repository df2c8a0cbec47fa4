/*
 * Persistent executor: runs the public drpm API on request, under a
 * controlled environment.  Linked against objects compiled from /repo/src
 * with -Wl,--wrap= so that every file operation and every allocation made by
 * the library is a numbered choice point that the explorer can answer.
 *
 * One request per line on stdin, tab separated; one JSON line per reply.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <locale.h>
#include <rpm/rpmlib.h>
#include <rpm/header.h>
#include <rpm/rpmio.h>
#include <rpm/rpmlog.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <lzlib.h>
#include <zstd.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include "drpm.h"

extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                     void (*)(const volatile void *)) __attribute__((weak));

static long live_count, live_bytes_dummy;
static void on_malloc(const volatile void *p, size_t s) { if (p) live_count++; (void)s; (void)live_bytes_dummy; }
static void on_free(const volatile void *p) { if (p) live_count--; }

/* ------------------------------------------------------------------ */
/* choice points */

static bool active;             /* inside a library call */
static long io_n, al_n;         /* numbered so far in this call */
static struct { long k; char mode; int err; bool persist; } dev[4]; /* 'e' error, 's' short, 'z' end of file */
static int dev_n;
static long al_k;               /* 0 = none */
static long al_k2;
static bool al_persist;
static bool io_fired, al_fired;
static char io_trace[8192];
static long io_trace_len;
static int bad_close;
static bool want_paths;
static char paths[65536];
static size_t paths_len;
static bool prelink_sim;
static size_t read_max;         /* cap on every read() count: 0 = none */

static void note_path(const char *kind, const char *p)
{
    if (!active || !want_paths || p == NULL)
        return;
    int n = snprintf(paths + paths_len, sizeof(paths) - paths_len, "%s\"%s:%s\"", paths_len ? "," : "", kind, p);
    if (n > 0 && paths_len + n < sizeof(paths))
        paths_len += n;
}

#ifdef PAR
#include "par.h"
#define STEP(letter) step(letter, false)
#define TOUCH(p, n, w) access_at(p, n, w)
#else
#define STEP(letter)
#define TOUCH(p, n, w)
#endif

/* returns the deviation to apply at this point, or 0 */
static char point(char letter)
{
    STEP(letter);
    if (!active)
        return 0;
    io_n++;
    if (io_trace_len < (long)sizeof(io_trace) - 1)
        io_trace[io_trace_len++] = letter;
    for (int i = 0; i < dev_n; i++)
        if (io_n == dev[i].k || (dev[i].persist && io_n > dev[i].k)) {
            io_fired = true;
            errno = dev[i].err;
            return dev[i].mode;
        }
    return 0;
}

static bool alloc_point(void)
{
    if (!active)
        return false;
    al_n++;
    if (al_k != 0 && (al_n == al_k || al_n == al_k2 || (al_persist && al_n > al_k))) {
        al_fired = true;
        errno = ENOMEM;
        return true;
    }
    return false;
}

/* memory handed to other libraries, which are not instrumented, must be the caller's from end to end */
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define HAVE_POISON
#endif
#endif
static void whole(const void *p, size_t n, bool w)
{
    TOUCH(p, n, w);
#ifdef HAVE_POISON
    const volatile char *bad;
    if (active && p != NULL && n > 0 && (bad = __asan_region_is_poisoned((void *)p, n)) != NULL)
        (void)*bad; /* reported here */
#else
    (void)p; (void)n;
#endif
}

#define R(name) __real_##name
#define W(name) __wrap_##name

void *R(malloc)(size_t);
void *R(calloc)(size_t, size_t);
void *R(realloc)(void *, size_t);
void *W(malloc)(size_t n) { return alloc_point() ? NULL : R(malloc)(n); }
void *W(calloc)(size_t a, size_t b) { return alloc_point() ? NULL : R(calloc)(a, b); }
void *W(realloc)(void *p, size_t n) { return alloc_point() ? NULL : R(realloc)(p, n); }
char *R(strdup)(const char *);
char *W(strdup)(const char *s) { return alloc_point() ? NULL : R(strdup)(s); }
char *R(strndup)(const char *, size_t);
char *W(strndup)(const char *s, size_t n) { return alloc_point() ? NULL : R(strndup)(s, n); }

/* memory the compression libraries allocate: at creation, and at the first use for those that do it then */
#define POINTER(name, type, args, pass) \
    type R(name) args; \
    type W(name) args { return alloc_point() ? NULL : R(name) pass; }
#define CODED(name, type, args, pass, cond, code) \
    type R(name) args; \
    type W(name) args { return (cond) && alloc_point() ? (code) : R(name) pass; }
#define STREAM(name, type, args, pass, cond, code, in, inlen, out, outlen) \
    type R(name) args; \
    type W(name) args { whole(in, inlen, false); whole(out, outlen, true); return (cond) && alloc_point() ? (code) : R(name) pass; }
POINTER(ZSTD_createCCtx, ZSTD_CCtx *, (void), ())
POINTER(ZSTD_createDCtx, ZSTD_DCtx *, (void), ())
POINTER(LZ_compress_open, struct LZ_Encoder *, (const int d, const int m, const unsigned long long s), (d, m, s))
POINTER(LZ_decompress_open, struct LZ_Decoder *, (void), ())
CODED(deflateInit2_, int, (z_streamp z, int a, int b, int c, int d, int e, const char *v, int n), (z, a, b, c, d, e, v, n), true, Z_MEM_ERROR)
CODED(inflateInit2_, int, (z_streamp z, int a, const char *v, int n), (z, a, v, n), true, Z_MEM_ERROR)
STREAM(inflate, int, (z_streamp z, int f), (z, f), z->total_in == 0, Z_MEM_ERROR,
       z->next_in, z->avail_in, z->next_out, z->avail_out)
CODED(BZ2_bzCompressInit, int, (bz_stream *z, int a, int b, int c), (z, a, b, c), true, BZ_MEM_ERROR)
CODED(BZ2_bzDecompressInit, int, (bz_stream *z, int a, int b), (z, a, b), true, BZ_MEM_ERROR)
STREAM(BZ2_bzDecompress, int, (bz_stream *z), (z), z->total_in_lo32 == 0, BZ_MEM_ERROR,
       z->next_in, z->avail_in, z->next_out, z->avail_out)
CODED(lzma_alone_encoder, lzma_ret, (lzma_stream *z, const lzma_options_lzma *o), (z, o), true, LZMA_MEM_ERROR)
CODED(lzma_easy_encoder, lzma_ret, (lzma_stream *z, uint32_t a, lzma_check c), (z, a, c), true, LZMA_MEM_ERROR)
CODED(lzma_auto_decoder, lzma_ret, (lzma_stream *z, uint64_t a, uint32_t f), (z, a, f), true, LZMA_MEM_ERROR)
STREAM(lzma_code, lzma_ret, (lzma_stream *z, lzma_action a), (z, a), z->total_in == 0, LZMA_MEM_ERROR,
       z->next_in, z->avail_in, z->next_out, z->avail_out)
STREAM(ZSTD_compressStream2, size_t, (ZSTD_CCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i, ZSTD_EndDirective e), (c, o, i, e), true, (size_t)-64,
       (const char *)i->src + i->pos, i->size - i->pos, (char *)o->dst + o->pos, o->size - o->pos)
STREAM(ZSTD_decompressStream, size_t, (ZSTD_DCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i), (c, o, i), true, (size_t)-64,
       (const char *)i->src + i->pos, i->size - i->pos, (char *)o->dst + o->pos, o->size - o->pos)
STREAM(deflate, int, (z_streamp z, int f), (z, f), false, 0,
       z->next_in, z->avail_in, z->next_out, z->avail_out)
STREAM(BZ2_bzCompress, int, (bz_stream *z, int a), (z, a), false, 0,
       z->next_in, z->avail_in, z->next_out, z->avail_out)
STREAM(LZ_compress_write, int, (struct LZ_Encoder *e, const uint8_t *b, const int n), (e, b, n), false, 0, b, n, NULL, 0)
STREAM(LZ_decompress_write, int, (struct LZ_Decoder *e, const uint8_t *b, const int n), (e, b, n), false, 0, b, n, NULL, 0)
STREAM(LZ_compress_read, int, (struct LZ_Encoder *e, uint8_t *b, const int n), (e, b, n), false, 0, NULL, 0, b, n)
STREAM(LZ_decompress_read, int, (struct LZ_Decoder *e, uint8_t *b, const int n), (e, b, n), false, 0, NULL, 0, b, n)
STREAM(MD5_Update, int, (MD5_CTX *c, const void *b, size_t n), (c, b, n), false, 0, b, n, c, sizeof(*c))
STREAM(SHA256_Update, int, (SHA256_CTX *c, const void *b, size_t n), (c, b, n), false, 0, b, n, c, sizeof(*c))

int R(open)(const char *, int, ...);
int W(open)(const char *p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    note_path((fl & (O_WRONLY | O_RDWR)) ? "w" : "r", p);
    if (point('o'))
        return -1;
    return R(open)(p, fl, m);
}
int R(creat)(const char *, mode_t);
int W(creat)(const char *p, mode_t m)
{
    note_path("w", p);
    if (point('c'))
        return -1;
    return R(creat)(p, m);
}
ssize_t R(read)(int, void *, size_t);
ssize_t W(read)(int fd, void *b, size_t n)
{
    TOUCH(b, n, true);
    char d = point('r');
    if (d == 'e') return -1;
    if (d == 'z') return 0;
    if (d == 's') return R(read)(fd, b, n > 1 ? n / 2 : n);
    if (active && read_max && n > read_max) n = read_max;
    return R(read)(fd, b, n);
}
ssize_t R(pread)(int, void *, size_t, off_t);
ssize_t W(pread)(int fd, void *b, size_t n, off_t o)
{
    TOUCH(b, n, true);
    char d = point('R');
    if (d == 'e') return -1;
    if (d == 'z') return 0;
    if (d == 's') return R(pread)(fd, b, n > 1 ? n / 2 : n, o);
    return R(pread)(fd, b, n, o);
}
ssize_t R(write)(int, const void *, size_t);
ssize_t W(write)(int fd, const void *b, size_t n)
{
    TOUCH(b, n, false);
    char d = point('w');
    if (d == 'e' || d == 'z') { errno = ENOSPC; return -1; }
    if (d == 's') return R(write)(fd, b, n / 2);
    return R(write)(fd, b, n);
}
ssize_t R(pwrite)(int, const void *, size_t, off_t);
ssize_t W(pwrite)(int fd, const void *b, size_t n, off_t o)
{
    TOUCH(b, n, false);
    char d = point('W');
    if (d == 'e' || d == 'z') { errno = ENOSPC; return -1; }
    if (d == 's') return R(pwrite)(fd, b, n / 2, o);
    return R(pwrite)(fd, b, n, o);
}
off_t R(lseek)(int, off_t, int);
off_t W(lseek)(int fd, off_t o, int w)
{
    if (point('l')) return (off_t)-1;
    return R(lseek)(fd, o, w);
}
int R(mkstemp)(char *);
int W(mkstemp)(char *t)
{
    if (point('m')) return -1;
    int fd = R(mkstemp)(t);
    note_path("t", t);
    return fd;
}
int R(fstat)(int, struct stat *);
int W(fstat)(int fd, struct stat *st)
{
    if (point('f')) return -1;
    return R(fstat)(fd, st);
}
int R(stat)(const char *, struct stat *);
int W(stat)(const char *p, struct stat *st)
{
    note_path("s", p);
    if (point('s')) return -1;
    if (prelink_sim && strcmp(p, "/usr/sbin/prelink") == 0)
        return R(stat)("/bin/sh", st);
    return R(stat)(p, st);
}
int R(unlink)(const char *);
int W(unlink)(const char *p)
{
    note_path("u", p);
    return R(unlink)(p);
}
FILE *R(fopen)(const char *, const char *);
FILE *W(fopen)(const char *p, const char *m)
{
    note_path(m[0] == 'r' ? "r" : "w", p);
    if (point('O')) return NULL;
    return R(fopen)(p, m);
}
int R(fclose)(FILE *);
int W(fclose)(FILE *f)
{
    char d = active ? point('C') : 0;
    int rc;
    if (d) { /* buffered data is lost and the error reported */
        if ((fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY) {
            fflush(f);
            if (ftruncate(fileno(f), 0)) {}
        }
        R(fclose)(f);
        errno = ENOSPC;
        return EOF;
    }
    rc = R(fclose)(f);
    return rc;
}
/* data that had not reached the disk is lost, as the failing close says */
static void lose(int fd)
{
    struct stat st;
    if (fd >= 0 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && R(fstat)(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0)
        if (ftruncate(fd, st.st_size - 1)) {}
}
int R(close)(int);
int W(close)(int fd)
{
    if (active && fd >= 0 && fcntl(fd, F_GETFD) == -1) /* someone else's by now, in a program with threads */
        bad_close++;
    if (point('k')) {
        lose(fd);
        R(close)(fd);
        errno = EIO;
        return -1;
    }
    return R(close)(fd);
}
int R(Fclose)(FD_t);
int W(Fclose)(FD_t f)
{
    if (point('D')) {
        lose(Fileno(f));
        R(Fclose)(f);
        errno = EIO;
        return -1;
    }
    return R(Fclose)(f);
}
pid_t R(fork)(void);
pid_t W(fork)(void)
{
    if (point('Y')) return -1;
    pid_t p = R(fork)();
#ifdef PAR
    if (p == 0) { me = -1; par_on = false; }
#endif
    return p;
}
/* what the process has set up around the calls */
static bool su_errno, su_eintr, su_zombie, eintr_now;
static pid_t zombie;
pid_t R(waitpid)(pid_t, int *, int);
pid_t W(waitpid)(pid_t p, int *st, int fl)
{
    if (active && eintr_now) {
        eintr_now = false;
        errno = EINTR;
        return -1;
    }
    return R(waitpid)(p, st, fl);
}
/* what a call must leave as it was */
extern char **environ;
static struct around { unsigned long v[8]; } around0;
static const char *around_names[8] = { "handling of signals", "blocked signals", "umask", "working directory", "locale", "environment", "limits", "children" };
static unsigned long mix(unsigned long h, const void *p, size_t n)
{
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211UL;
    return h;
}
static void look_around(struct around *a)
{
    char buf[4096];
    struct sigaction sa;
    struct rlimit rl;
    sigset_t m;
    siginfo_t si = {0};
    mode_t u = umask(022);

    umask(u);
    memset(a, 0, sizeof(*a));
    for (int i = 1; i < 65; i++)
        if (sigaction(i, NULL, &sa) == 0) {
            a->v[0] = mix(a->v[0], &sa.sa_handler, sizeof(sa.sa_handler));
            a->v[0] = mix(a->v[0], &sa.sa_flags, sizeof(sa.sa_flags));
        }
    sigprocmask(SIG_SETMASK, NULL, &m);
    for (int i = 1; i < 65; i++) a->v[1] = a->v[1] * 3 + sigismember(&m, i);
    a->v[2] = u;
    if (getcwd(buf, sizeof(buf)) != NULL) a->v[3] = mix(0, buf, strlen(buf));
    a->v[4] = mix(0, setlocale(LC_ALL, NULL), strlen(setlocale(LC_ALL, NULL)));
    for (char **e = environ; e != NULL && *e != NULL; e++) a->v[5] = mix(a->v[5], *e, strlen(*e) + 1);
    for (int i = 0; i < RLIM_NLIMITS; i++)
        if (getrlimit(i, &rl) == 0) a->v[6] = mix(a->v[6], &rl, sizeof(rl));
    a->v[7] = !su_zombie && (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 || errno != ECHILD);
}
static void enter(void)
{
    look_around(&around0);
    active = true;
    eintr_now = su_eintr;
    if (su_errno) errno = ERANGE;
}
static bool zombie_lost(void)
{
    siginfo_t si = {0};
    return su_zombie && (waitid(P_PID, zombie, &si, WEXITED | WNOHANG | WNOWAIT) != 0 || si.si_pid != zombie);
}
static void surroundings(const char *what)
{
    static char cwd[4096];
    static sigset_t mask0;
    static bool any;
    sigset_t all;

    if (!any) {
        any = true;
        if (getcwd(cwd, sizeof(cwd)) == NULL) abort();
        sigprocmask(SIG_SETMASK, NULL, &mask0);
    }
    if (su_zombie) waitpid(zombie, NULL, 0);
    su_errno = su_eintr = su_zombie = false;
    signal(SIGCHLD, SIG_DFL);
    signal(SIGPIPE, SIG_DFL);
    sigprocmask(SIG_SETMASK, &mask0, NULL);
    umask(022);
    setlocale(LC_ALL, "C");
    if (chdir(cwd) != 0) abort();
    setenv("TMPDIR", "/tmp", 1);
    setenv("TZ", "UTC", 1);
    if (strcmp(what, "chld") == 0) signal(SIGCHLD, SIG_IGN);
    else if (strcmp(what, "interrupted") == 0) su_eintr = true;
    else if (strcmp(what, "child") == 0) {
        su_zombie = true;
        if ((zombie = fork()) == 0) _exit(3);
        siginfo_t si;
        waitid(P_PID, zombie, &si, WEXITED | WNOWAIT);
    } else if (strcmp(what, "umask") == 0) umask(0777 & ~0200);
    else if (strcmp(what, "errno") == 0) su_errno = true;
    else if (strcmp(what, "cwd") == 0) {
        if (mkdir("gone", 0700) != 0 || chdir("gone") != 0 || rmdir("../gone") != 0) abort();
    } else if (strcmp(what, "locale") == 0) { if (!setlocale(LC_ALL, "C.UTF-8")) abort(); }
    else if (strcmp(what, "blocked") == 0) { sigfillset(&all); sigprocmask(SIG_SETMASK, &all, NULL); signal(SIGPIPE, SIG_IGN); }
    else if (strcmp(what, "env") == 0) { setenv("TMPDIR", "/nonexistent", 1); setenv("TZ", "Asia/Kolkata", 1); }
}
FD_t R(Fopen)(const char *, const char *);
FD_t W(Fopen)(const char *p, const char *m)
{
    note_path(m[0] == 'r' ? "r" : "w", p);
    if (point('P')) return NULL;
    return R(Fopen)(p, m);
}
ssize_t R(Fread)(void *, size_t, size_t, FD_t);
ssize_t W(Fread)(void *b, size_t s, size_t n, FD_t f)
{
    whole(b, s * n, true);
    char d = point('F');
    if (d == 'e') return -1;
    if (d == 'z') return 0;
    if (d == 's') return R(Fread)(b, s, n / 2, f);
    return R(Fread)(b, s, n, f);
}
ssize_t R(Fwrite)(const void *, size_t, size_t, FD_t);
ssize_t W(Fwrite)(const void *b, size_t s, size_t n, FD_t f)
{
    whole(b, s * n, false);
    char d = point('G');
    if (d == 'e' || d == 'z') { errno = ENOSPC; return -1; }
    if (d == 's') return R(Fwrite)(b, s, n / 2, f);
    return R(Fwrite)(b, s, n, f);
}
int R(Fseek)(FD_t, off_t, int);
int W(Fseek)(FD_t f, off_t o, int w)
{
    if (point('S')) return -1;
    return R(Fseek)(f, o, w);
}
off_t R(Ftell)(FD_t);
off_t W(Ftell)(FD_t f)
{
    if (point('T')) return -1;
    return R(Ftell)(f);
}
/* librpm itself loses a block when it refuses a header: not the library's to free */
Header R(headerRead)(FD_t, int);
Header W(headerRead)(FD_t f, int magic)
{
    long before = live_count;
    Header h = R(headerRead)(f, magic);
    if (h == NULL && live_count > before) live_count = before;
    return h;
}
Header R(headerImport)(void *, unsigned, int);
Header W(headerImport)(void *b, unsigned n, int fl)
{
    whole(b, n, false);
    long before = live_count;
    Header h = R(headerImport)(b, n, fl);
    if (h == NULL && live_count > before) live_count = before;
    return h;
}
/* rpm's configuration is read once at start; reading it again changes nothing and is slow */
static bool conf_real;
int R(rpmReadConfigFiles)(const char *, const char *);
int W(rpmReadConfigFiles)(const char *a, const char *b) { return conf_real ? R(rpmReadConfigFiles)(a, b) : 0; }

/* stand-in for the prelink program: "prelink -o OUT -u FILE" copies FILE.orig */
int R(execl)(const char *, const char *, ...);
int W(execl)(const char *path, const char *a0, ...)
{
    const char *argv[16] = { a0 };
    int n = 1;
    va_list ap;
    va_start(ap, a0);
    while (n < 15 && (argv[n] = va_arg(ap, const char *)) != NULL) n++;
    va_end(ap);
    if (prelink_sim && strcmp(path, "/usr/sbin/prelink") == 0) {
        const char *out = NULL, *in = NULL;
        for (int i = 1; i < n; i++) {
            if (strcmp(argv[i], "-o") == 0 && i + 1 < n) out = argv[++i];
            else if (strcmp(argv[i], "-u") == 0 && i + 1 < n) in = argv[++i];
        }
        if (out && in) {
            char orig[4096];
            snprintf(orig, sizeof(orig), "%s.orig", in);
            R(execl)("/bin/cp", "cp", orig, out, (char *)NULL);
        }
    }
    _exit(1);
}

/* ------------------------------------------------------------------ */

static int count_fds(void)
{
    int n = 0;
    for (int i = 0; i < 200; i++)
        if (fcntl(i, F_GETFD) != -1)
            n++;
    return n;
}

static const char *arg(char *s)
{
    if (s == NULL || strcmp(s, "@N") == 0)
        return NULL;
    return s;
}

static __thread drpm_make_options *O[2];

static drpm_make_options *obj(char c)
{
    return (c == '0' || c == '1') ? O[c - '0'] : NULL;
}

struct call { const char *old, *new_, *delta; };

/* runs one option token; returns the library's code, or -1000 for a bad token */
static int opt_token(char *t, const struct call *c)
{
    char k = t[0], o = t[1];
    unsigned a = 0, b = 0;
    drpm_make_options **pp = (o == '0' || o == '1') ? &O[o - '0'] : NULL;
    char *eq = strchr(t, '=');
    switch (k) {
    case 'i': return drpm_make_options_init(pp);
    case 'x': return drpm_make_options_destroy(pp);
    case 'd': return drpm_make_options_defaults(obj(o));
    case 'c': return drpm_make_options_copy(obj(o), obj(t[2]));
    case 't': return drpm_make_options_set_type(obj(o), (unsigned short)atoi(eq + 1));
    case 'v': return drpm_make_options_set_version(obj(o), (unsigned short)atoi(eq + 1));
    case 'k': sscanf(eq + 1, "%u,%u", &a, &b); return drpm_make_options_set_delta_comp(obj(o), a, b);
    case 'g': return drpm_make_options_get_delta_comp_from_rpm(obj(o));
    case 'n': return drpm_make_options_forbid_addblk(obj(o));
    case 'b': sscanf(eq + 1, "%u,%u", &a, &b); return drpm_make_options_set_addblk_comp(obj(o), a, b);
    case 's': {
        /* pass a buffer that is scribbled over afterwards: the option must have its own copy */
        const char *v = arg(eq + 1);
        char *tmp = v ? strdup(v) : NULL;
        int rc = drpm_make_options_set_seqfile(obj(o), tmp);
        if (tmp) { memset(tmp, '#', strlen(tmp)); free(tmp); }
        return rc;
    }
    case 'p': {
        char *bar = strchr(eq + 1, '|');
        *bar = 0;
        const char *v1 = arg(eq + 1), *v2 = arg(bar + 1);
        char *t1 = v1 ? strdup(v1) : NULL, *t2 = v2 ? strdup(v2) : NULL;
        int rc = drpm_make_options_add_patches(obj(o), t1, t2);
        *bar = '|';
        if (t1) { memset(t1, '#', strlen(t1)); free(t1); }
        if (t2) { memset(t2, '#', strlen(t2)); free(t2); }
        return rc;
    }
    case 'm': {
        char path[4096];
        if (eq == NULL) return drpm_make(c->old, c->new_, c->delta, obj(o));
        snprintf(path, sizeof(path), "%s%s", c->delta, eq + 1);
        return drpm_make(c->old, c->new_, path, obj(o));
    }
    }
    return -1000;
}

static void js(FILE *f, const char *s)
{
    if (s == NULL) { fputs("null", f); return; }
    fputc('"', f);
    for (; *s; s++) {
        unsigned char ch = *s;
        if (ch == '"' || ch == '\\' || ch < 32 || ch >= 127) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

static void dump_delta(FILE *f, drpm *d)
{
    static const int tags[] = { -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 1000 };
    fputs(",\"get\":{", f);
    for (size_t i = 0; i < sizeof(tags) / sizeof(*tags); i++) {
        unsigned u = 0xABCD;
        unsigned long l = 0xABCD;
        unsigned long long ll = 0xABCD;
        char *s = (char *)f;
        unsigned long *arr = NULL, n = 77;
        enter();
        int r1 = drpm_get_uint(d, tags[i], &u);
        int r2 = drpm_get_ulong(d, tags[i], &l);
        int r3 = drpm_get_ullong(d, tags[i], &ll);
        int r4 = drpm_get_string(d, tags[i], &s);
        int r5 = drpm_get_ulong_array(d, tags[i], &arr, &n);
        active = false;
        fprintf(f, "%s\"%d\":[[%d,%u],[%d,%lu],[%d,%llu],[%d,", i ? "," : "", tags[i], r1, u, r2, l, r3, ll, r4);
        if (r4 == 0) { js(f, s); free(s); } else fputs(s == (char *)f ? "\"untouched\"" : "\"touched\"", f);
        fprintf(f, "],[%d,", r5);
        if (r5 == 0) {
            fputc('[', f);
            for (unsigned long j = 0; j < n; j++) fprintf(f, "%s%lu", j ? "," : "", arr[j]);
            fprintf(f, "]");
            free(arr);
        } else fprintf(f, "null");
        fputs("]]", f);
    }
    unsigned u; unsigned long l; unsigned long long ll; char *s; unsigned long *arr;
    fprintf(f, "},\"nulls\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]",
            drpm_get_uint(NULL, 1, &u), drpm_get_uint(d, 1, NULL),
            drpm_get_ulong(NULL, 1, &l), drpm_get_ulong(d, 1, NULL),
            drpm_get_ullong(NULL, 1, &ll), drpm_get_ullong(d, 1, NULL),
            drpm_get_string(NULL, 0, &s), drpm_get_string(d, 0, NULL),
            drpm_get_ulong_array(NULL, 15, &arr, &l), drpm_get_ulong_array(d, 15, NULL, &l),
            drpm_get_ulong_array(d, 15, &arr, NULL));
}

#ifdef PAR
static drpm_make_options *SHO;  /* options that both use */
static drpm *SHD;               /* delta that both look at */

static void on_malloc_shared(const volatile void *p, size_t n)
{
    on_malloc(p, n);
    if (sh_record && p != NULL && n > 0 && nsh < (int)(sizeof(sh) / sizeof(*sh))) {
        sh_record = false;
        sh[nsh].p = (char *)p;
        sh[nsh].n = n;
        sh[nsh].w = calloc(n, 1);
        nsh++;
        sh_record = true;
    }
}

static int run_cmd(char *cmd, char **txt)
{
    char *f[8] = {0};
    int n = 0, rc = -999;
    for (char *p = cmd; n < 8; ) {
        f[n++] = p;
        p = strchr(p, 2);
        if (!p) break;
        *p++ = 0;
    }
    switch (f[0][0]) {
    case 'M': {
        struct call c = { arg(f[1]), arg(f[2]), arg(f[3]) };
        if (strcmp(f[4], "-") == 0)
            return drpm_make(c.old, c.new_, c.delta, NULL);
        if (strcmp(f[4], "@") == 0)
            return drpm_make(c.old, c.new_, c.delta, SHO);
        char *save, *t;
        int orc = drpm_make_options_init(&O[0]);
        for (t = strtok_r(f[4], ";", &save); t; t = strtok_r(NULL, ";", &save)) {
            int r = opt_token(t, &c);
            if (r != 0) orc = orc ? orc : 100 + r;
        }
        rc = orc ? -orc : drpm_make(c.old, c.new_, c.delta, O[0]);
        drpm_make_options_destroy(&O[0]);
        return rc;
    }
    case 'A': return drpm_apply(arg(f[1]), arg(f[2]), arg(f[3]));
    case 'C': return drpm_check(arg(f[1]), atoi(f[2]));
    case 'S': return drpm_check_sequence(arg(f[1]), arg(f[2]), atoi(f[3]));
    case 'R': case 'H': {
        drpm *d = NULL;
        size_t n = 0;
        FILE *mem;
        if (f[0][0] == 'R') rc = drpm_read(&d, arg(f[1]));
        else { rc = 0; d = SHD; }
        if (rc != 0) return rc;
        mem = open_memstream(txt, &n);
        dump_delta(mem, d);
        fclose(mem);
        return f[0][0] == 'R' ? drpm_destroy(&d) : 0;
    }
    case 'E': {
        size_t n = 0;
        FILE *mem = open_memstream(txt, &n);
        for (int i = -2; i <= 12; i++) { fputc(' ', mem); js(mem, drpm_strerror(i)); }
        fclose(mem);
        return 0;
    }
    case 'X': {         /* options made, set, copied and destroyed */
        struct call c = { arg(f[1]), arg(f[2]), arg(f[3]) };
        size_t n = 0;
        FILE *mem = open_memstream(txt, &n);
        char *save, *t;
        for (t = strtok_r(f[4], ";", &save); t; t = strtok_r(NULL, ";", &save))
            fprintf(mem, "%d ", opt_token(t, &c));
        if (O[0]) drpm_make_options_destroy(&O[0]);
        if (O[1]) drpm_make_options_destroy(&O[1]);
        fclose(mem);
        return 0;
    }
    }
    return rc;
}

static char *par_cmd[2], *par_txt[2];
static int par_rc[2];

static void *par_thread(void *a)
{
    me = (int)(intptr_t)a;
    await();
    par_rc[me] = run_cmd(par_cmd[me], &par_txt[me]);
    finish_thread();
    return NULL;
}

/* W mode schedule shared-options shared-delta command command */
static void par_run(FILE *out, char **f)
{
    pthread_t th[2];
    if (wmap == NULL) {
        wmap = calloc(_end - __data_start, 1);
        wfirst = calloc(_end - __data_start, 1);
        wlist = calloc(_end - __data_start, sizeof(*wlist));
    }
    globals_back();
    nsh = 0;
    sh_record = true;
    if (strcmp(f[3], "-") != 0) {
        struct call c = {0};
        char *save, *t;
        drpm_make_options_init(&O[0]);
        for (t = strtok_r(f[3], ";", &save); t; t = strtok_r(NULL, ";", &save))
            opt_token(t, &c);
        SHO = O[0];
        O[0] = NULL;
    }
    if (strcmp(f[4], "-") != 0)
        drpm_read(&SHD, f[4]);
    sh_record = false;
    par_mode = f[1][0];
    nseg = si = 0; nT = nchoice = 0; segleft = -1;
    if (par_mode == 'C') {
        choice = f[2];
        nchoice = strlen(choice);
        turn = T[nT++] = nchoice > 0 ? choice[0] : '0';
        turn -= '0';
    } else {
        char *save, *t;
        for (t = strtok_r(f[2], ",", &save); t && nseg < 16; t = strtok_r(NULL, ",", &save)) {
            seg[nseg].tid = t[0] - '0';
            seg[nseg].n = atol(t + 2);
            nseg++;
        }
        si = -1;
        done[0] = done[1] = false;
        next_segment();
    }
    long w0 = written;
    for (int i = 0; i < 2; i++) {
        done[i] = false; npt[i] = 0; par_txt[i] = NULL; par_rc[i] = -998;
        par_cmd[i] = f[5 + i];
    }
    par_on = true;
    int t = turn;
    turn = -1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 0; i < 2; i++)
        pthread_create(&th[i], &at, par_thread, (void *)(intptr_t)i);
    pthread_mutex_lock(&pm);
    turn = t;
    pthread_cond_broadcast(&pc);
    pthread_mutex_unlock(&pm);
    for (int i = 0; i < 2; i++)
        pthread_join(th[i], NULL);
    par_on = false;
    fprintf(out, "{\"rc\":0,\"rcs\":[%d,%d],\"n\":[%ld,%ld],\"w\":%ld,\"T\":\"%.*s\",\"txt\":[", par_rc[0], par_rc[1], npt[0], npt[1], written - w0, (int)nT, T);
    for (int i = 0; i < 2; i++) {
        if (i) fputc(',', out);
        js(out, par_txt[i]);
        free(par_txt[i]);
    }
    fprintf(out, "],\"tr\":[");
    for (int i = 0; i < 2; i++) {
        long n = npt[i] < (long)sizeof(ptrace[0]) - 1 ? npt[i] : (long)sizeof(ptrace[0]) - 1;
        fprintf(out, "%s\"%.*s\"", i ? "," : "", (int)n, ptrace[i]);
    }
    fprintf(out, "]}\n");
    fflush(out);
    for (int i = 0; i < nsh; i++)
        free(sh[i].w);
    nsh = 0;
    if (SHO) drpm_make_options_destroy(&SHO);
    if (SHD) drpm_destroy(&SHD);
}
#define ON_MALLOC on_malloc_shared
#else
#define ON_MALLOC on_malloc
#endif

static void reset_faults(void)
{
    dev_n = 0;
    al_k = al_k2 = 0;
    al_persist = false;
}

int main(void)
{
    static char *line;
    static size_t cap;
    ssize_t len;
    FILE *out = fdopen(dup(1), "w");

    dup2(2, 1); /* anything the libraries print goes to the log */
    signal(SIGPIPE, SIG_DFL);
    rpmlogSetMask(RPMLOG_UPTO(RPMLOG_EMERG));
    rpmReadConfigFiles(NULL, NULL);
    if (__sanitizer_install_malloc_and_free_hooks)
        __sanitizer_install_malloc_and_free_hooks(ON_MALLOC, on_free);
    fprintf(out, "{\"ready\":1}\n");
    fflush(out);

    FILE *in = stdin;
    if (getenv("EXEC_LOW_FD")) {    /* leave descriptor 0 to the library */
        in = fdopen(fcntl(0, F_DUPFD, 150), "r");
        close(0);
    }

    while ((len = getline(&line, &cap, in)) > 0) {
        char *f[16] = {0};
        int n = 0;
        int rc = -999;
        int fd0, fd1;
        struct around around1;
        long live0, live1;
        drpm *d = NULL;
        if (line[len - 1] == '\n') line[len - 1] = 0;
        for (char *p = line; n < 16; ) {
            f[n++] = p;
            p = strchr(p, '\t');
            if (!p) break;
            *p++ = 0;
        }
        if (strcmp(f[0], "F") == 0) {           /* F k mode errno persist */
            if (dev_n < 4) {
                dev[dev_n].k = atol(f[1]); dev[dev_n].mode = f[2][0]; dev[dev_n].err = atoi(f[3]); dev[dev_n].persist = atoi(f[4]);
                dev_n++;
            }
            continue;
        }
        if (strcmp(f[0], "L") == 0) {           /* L k persist */
            al_k = atol(f[1]); al_persist = atoi(f[2]);
            continue;
        }
        if (strcmp(f[0], "L2") == 0) { al_k2 = atol(f[1]); continue; }
        if (strcmp(f[0], "P") == 0) { want_paths = atoi(f[1]); continue; }
        if (strcmp(f[0], "K") == 0) { prelink_sim = atoi(f[1]); continue; }
        if (strcmp(f[0], "U") == 0) { surroundings(f[1]); continue; }
        if (strcmp(f[0], "B") == 0) { read_max = atoi(f[1]); continue; }
        if (strcmp(f[0], "Q") == 0) break;

        io_n = al_n = 0; io_fired = al_fired = false; io_trace_len = 0; paths_len = 0; bad_close = 0;
        if (strcmp(f[0], "M") == 0) {           /* M old new delta opts */
            struct call c = { arg(f[1]), arg(f[2]), arg(f[3]) };
            fd0 = count_fds(); live0 = live_count;
            if (strcmp(f[4], "-") == 0) {
                enter();
                rc = drpm_make(c.old, c.new_, c.delta, NULL);
                active = false;
            } else {
                char *save, *t;
                int orc = drpm_make_options_init(&O[0]);
                for (t = strtok_r(f[4], ";", &save); t; t = strtok_r(NULL, ";", &save)) {
                    int r = opt_token(t, &c);
                    if (r != 0) orc = orc ? orc : 100 + r;
                }
                if (orc) rc = -orc;
                else { enter(); rc = drpm_make(c.old, c.new_, c.delta, O[0]); active = false; }
                drpm_make_options_destroy(&O[0]);
            }
        } else if (strcmp(f[0], "A") == 0) {    /* A old delta new */
            fd0 = count_fds(); live0 = live_count;
            enter();
            rc = drpm_apply(arg(f[1]), arg(f[2]), arg(f[3]));
            active = false;
        } else if (strcmp(f[0], "C") == 0) {    /* C delta mode */
            fd0 = count_fds(); live0 = live_count;
            enter();
            rc = drpm_check(arg(f[1]), atoi(f[2]));
            active = false;
        } else if (strcmp(f[0], "S") == 0) {    /* S old seq mode */
            for (char *q = f[2]; *q; q++) if (*q == 1) *q = '\n';
            fd0 = count_fds(); live0 = live_count;
            enter();
            rc = drpm_check_sequence(arg(f[1]), arg(f[2]), atoi(f[3]));
            active = false;
        } else if (strcmp(f[0], "R") == 0 || strcmp(f[0], "RD") == 0) { /* R delta */
            fd0 = count_fds(); live0 = live_count;
            enter();
            rc = drpm_read(&d, arg(f[1]));
            active = false;
            if (rc == 0 && strcmp(f[0], "R") == 0) {
                drpm_destroy(&d);
            } else if (rc == 0) {
                char *txt = NULL;
                size_t txtn = 0;
                FILE *mem = open_memstream(&txt, &txtn);
                dump_delta(mem, d);
                fclose(mem);
                int r = drpm_destroy(&d);
                fd1 = count_fds(); live1 = live_count - 1; /* the text */
                fprintf(out, "{\"dump\":1%s", txt);
                fprintf(out, ",\"destroy\":[%d,%d,%d]", r, d == NULL, drpm_destroy(&d));
                fprintf(out, ",\"rc\":0,\"fd\":%d,\"live\":%ld,\"io\":%ld,\"al\":%ld,\"iof\":%d,\"alf\":%d}\n",
                        fd1 - fd0, live1 - live0, io_n, al_n, io_fired, al_fired);
                free(txt);
                fflush(out);
                reset_faults();
                continue;
            }
        } else if (strcmp(f[0], "RN") == 0) {   /* drpm_read(NULL, path) */
            fd0 = count_fds(); live0 = live_count;
            rc = drpm_read(NULL, arg(f[1]));
        } else if (strcmp(f[0], "X") == 0) {    /* X old new delta tokens: option histories */
            struct call c = { arg(f[1]), arg(f[2]), arg(f[3]) };
            char *save, *t;
            int first = 1;
            fd0 = count_fds(); live0 = live_count;
            fprintf(out, "{\"rcs\":[");
            for (t = strtok_r(f[4], ";", &save); t; t = strtok_r(NULL, ";", &save)) {
                enter();
                int r = opt_token(t, &c);
                active = false;
                fprintf(out, "%s%d", first ? "" : ",", r);
                first = 0;
            }
            if (O[0]) drpm_make_options_destroy(&O[0]);
            if (O[1]) drpm_make_options_destroy(&O[1]);
            fprintf(out, "],\"rc\":0,\"fd\":%d,\"live\":%ld,\"io\":%ld,\"al\":%ld,\"iof\":%d,\"alf\":%d}\n",
                    count_fds() - fd0, live_count - live0, io_n, al_n, io_fired, al_fired);
            fflush(out);
            reset_faults();
            continue;
#ifdef PAR
        } else if (strcmp(f[0], "W") == 0) {
            par_run(out, f);
            reset_faults();
            continue;
#endif
        } else if (strcmp(f[0], "E") == 0) {    /* strerror */
            fprintf(out, "{\"rc\":0,\"s\":[");
            for (int i = -2; i <= 12; i++) { if (i > -2) fputc(',', out); js(out, drpm_strerror(i)); }
            fprintf(out, "]}\n");
            fflush(out);
            continue;
        } else {
            fprintf(out, "{\"bad\":1}\n");
            fflush(out);
            continue;
        }
        fd1 = count_fds(); live1 = live_count;
        io_trace[io_trace_len] = 0;
        paths[paths_len] = 0;
        fprintf(out, "{\"rc\":%d,\"fd\":%d,\"live\":%ld,\"io\":%ld,\"al\":%ld,\"iof\":%d,\"alf\":%d,\"dn\":%d,\"bc\":%d",
                rc, fd1 - fd0, live1 - live0, io_n, al_n, io_fired, al_fired, d == NULL, bad_close);
        if (zombie_lost())
            fprintf(out, ",\"zombie\":1");
        look_around(&around1);
        for (int i = 0; i < 8; i++)
            if (around0.v[i] != around1.v[i]) {
                fprintf(out, ",\"changed\":\"%s\"", around_names[i]);
                break;
            }
        if (want_paths)
            fprintf(out, ",\"trace\":\"%s\",\"paths\":[%s]", io_trace, paths);
        fprintf(out, "}\n");
        fflush(out);
        reset_faults();
    }
    return 0;
}
