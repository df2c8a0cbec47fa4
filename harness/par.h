/*
 * Two calls in two threads under a scheduler of our own: only one thread runs at a time, and it can only be changed at numbered points: before every
 * operation on files, before every call of a function that is not reentrant, and before every access to memory that both can reach and one
 * writes (writable globals of the library, and the objects handed to both).  The latter are found by tracing the library's loads and
 * stores, and the buffers it gives to the C library.
 */
#include <pthread.h>
#include <locale.h>
#include <time.h>

extern char __data_start[], _end[];

static __thread int me = -1;
static bool par_on;
static pthread_mutex_t pm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t pc = PTHREAD_COND_INITIALIZER;
static int turn;
static bool done[2];
static long npt[2];
static char ptrace[2][16384];
static char par_mode;                   /* S segments, C choices at shared accesses */
static struct { int tid; long n; } seg[16];
static int nseg, si;
static long segleft;
static char *choice;
static long nchoice, nT;
static char T[65536];
static unsigned char *wmap;             /* bytes of globals seen written */
static long *wlist, nwlist;
static char *wfirst;                    /* what they were before */
static struct { char *p; size_t n; unsigned char *w; } sh[64];
static int nsh;
static bool sh_record;
static long written;

static void await(void)
{
    pthread_mutex_lock(&pm);
    pthread_cond_broadcast(&pc);
    while (turn != me)
        pthread_cond_wait(&pc, &pm);
    pthread_mutex_unlock(&pm);
}

static void next_segment(void)
{
    for (si++; si < nseg && done[seg[si].tid]; si++);
    if (si < nseg) {
        turn = seg[si].tid;
        segleft = seg[si].n;
    } else {
        turn = done[0] ? 1 : done[1] ? 0 : me < 0 ? 0 : 1 - me;
        segleft = -1;
    }
}

static void step(char letter, bool shared)
{
    if (me < 0 || !par_on)
        return;
    if (npt[me] < (long)sizeof(ptrace[0]) - 1)
        ptrace[me][npt[me]] = letter;
    npt[me]++;
    if (par_mode == 'C') {
        if (!shared || done[1 - me])
            return;
        int next = nT < nchoice ? choice[nT] - '0' : me;
        if (nT < (long)sizeof(T) - 1)
            T[nT++] = '0' + next;
        if (next != me) {
            turn = next;
            await();
        }
        return;
    }
    if (segleft > 0)
        segleft--;
    else if (segleft == 0) {
        next_segment();
        if (turn != me)
            await();
    }
}

static void finish_thread(void)
{
    pthread_mutex_lock(&pm);
    done[me] = true;
    if (par_mode == 'C')
        turn = 1 - me;
    else
        next_segment();
    pthread_cond_broadcast(&pc);
    pthread_mutex_unlock(&pm);
    me = -1;
}

static void __attribute__((no_sanitize("address"))) shared_access(unsigned char *map, size_t off, size_t n, bool w)
{
    bool hot = false;
    for (size_t i = off; i < off + n; i++) {
        if (w && !map[i]) {
            map[i] = 1;
            if (map == wmap)
                wfirst[wlist[nwlist++] = i] = __data_start[i];
            written++;
        }
        hot |= map[i];
    }
    if (hot)
        step(w ? 'G' : 'g', true);
}

/* every run begins with the library's globals as they are in a fresh process */
static void __attribute__((no_sanitize("address"))) globals_back(void)
{
    for (long i = 0; i < nwlist; i++)
        __data_start[wlist[i]] = wfirst[wlist[i]];
}

static void access_at(const void *a, size_t n, bool w)
{
    if (me < 0 || !par_on)
        return;
    const char *p = a;
    size_t off = p - __data_start;
    if (off < (size_t)(_end - __data_start)) {
        shared_access(wmap, off, n > (size_t)(_end - p) ? (size_t)(_end - p) : n, w);
        return;
    }
    for (int i = 0; i < nsh; i++) {
        off = p - sh[i].p;
        if (off < sh[i].n) {
            shared_access(sh[i].w, off, n > sh[i].n - off ? sh[i].n - off : n, w);
            return;
        }
    }
}

#define COV(n) \
    void __sanitizer_cov_load##n(void *p) { access_at(p, n, false); } \
    void __sanitizer_cov_store##n(void *p) { access_at(p, n, true); }
COV(1) COV(2) COV(4) COV(8) COV(16)

/* functions that are not reentrant */
#define NONRE(ret, name, args, pass) \
    ret __real_##name args; \
    ret __wrap_##name args { step('x', true); return __real_##name pass; }
NONRE(char *, strtok, (char *s, const char *d), (s, d))
NONRE(char *, strerror, (int e), (e))
NONRE(struct tm *, localtime, (const time_t *t), (t))
NONRE(struct tm *, gmtime, (const time_t *t), (t))
NONRE(char *, ctime, (const time_t *t), (t))
NONRE(char *, asctime, (const struct tm *t), (t))
NONRE(mode_t, umask, (mode_t m), (m))
NONRE(int, chdir, (const char *p), (p))
NONRE(char *, setlocale, (int c, const char *l), (c, l))
NONRE(int, setenv, (const char *a, const char *b, int o), (a, b, o))
NONRE(int, unsetenv, (const char *a), (a))
NONRE(char *, getenv, (const char *a), (a))
NONRE(char *, tmpnam, (char *a), (a))
NONRE(char *, tempnam, (const char *a, const char *b), (a, b))
NONRE(int, rand, (void), ())
NONRE(long, random, (void), ())

/* functions of the C library that are given buffers */
#define BUF(ret, name, args, pass, w, wn, r, rn) \
    ret __real_##name args; \
    ret __wrap_##name args { if (me >= 0) { access_at(r, rn, false); if (w) access_at(w, wn, true); } return __real_##name pass; }
#define RD2(ret, name, args, pass, a, an, b, bn) \
    ret __real_##name args; \
    ret __wrap_##name args { if (me >= 0) { access_at(a, an, false); if (b) access_at(b, bn, false); } return __real_##name pass; }
#define N ((char *)NULL)
BUF(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n), d, n, s, n)
BUF(void *, memmove, (void *d, const void *s, size_t n), (d, s, n), d, n, s, n)
BUF(void *, memset, (void *d, int c, size_t n), (d, c, n), d, n, d, 0)
BUF(void *, __asan_memcpy, (void *d, const void *s, size_t n), (d, s, n), d, n, s, n)
BUF(void *, __asan_memmove, (void *d, const void *s, size_t n), (d, s, n), d, n, s, n)
BUF(void *, __asan_memset, (void *d, int c, size_t n), (d, c, n), d, n, d, 0)
BUF(char *, strcpy, (char *d, const char *s), (d, s), d, strlen(s) + 1, s, strlen(s) + 1)
BUF(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), d, n, s, 1)
BUF(char *, strcat, (char *d, const char *s), (d, s), d, strlen(d) + strlen(s) + 1, s, strlen(s) + 1)
BUF(char *, strncat, (char *d, const char *s, size_t n), (d, s, n), d, strlen(d) + 1, s, 1)
RD2(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), a, n, b, n)
RD2(size_t, strlen, (const char *a), (a), a, 1, N, 0)
RD2(int, strcmp, (const char *a, const char *b), (a, b), a, 1, b, 1)
RD2(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), a, 1, b, 1)
RD2(char *, strchr, (const char *a, int c), (a, c), a, 1, N, 0)
RD2(char *, strrchr, (const char *a, int c), (a, c), a, 1, N, 0)
RD2(char *, strstr, (const char *a, const char *b), (a, b), a, 1, b, 1)
RD2(size_t, strcspn, (const char *a, const char *b), (a, b), a, 1, b, 1)
RD2(long, strtol, (const char *a, char **e, int b), (a, e, b), a, 1, N, 0)
RD2(int, atoi, (const char *a), (a), a, 1, N, 0)
RD2(int, MD5_Init, (MD5_CTX *c), (c), c, sizeof(*c), N, 0)
RD2(int, SHA256_Init, (SHA256_CTX *c), (c), c, sizeof(*c), N, 0)
BUF(int, MD5_Final, (unsigned char *d, MD5_CTX *c), (d, c), d, MD5_DIGEST_LENGTH, c, sizeof(*c))
BUF(int, SHA256_Final, (unsigned char *d, SHA256_CTX *c), (d, c), d, SHA256_DIGEST_LENGTH, c, sizeof(*c))
#undef N
int __wrap_sprintf(char *d, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    access_at(d, 1, true);
    int r = vsprintf(d, f, ap);
    va_end(ap);
    return r;
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    if (d != NULL) access_at(d, 1, true);
    int r = vsnprintf(d, n, f, ap);
    va_end(ap);
    return r;
}

/* a lock that the other thread holds: it has to go on first */
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    int r;
    if (me < 0 || !par_on)
        return __real_pthread_mutex_lock(m);
    step('x', true);
    while ((r = pthread_mutex_trylock(m)) == EBUSY) {
        if (done[1 - me])
            return __real_pthread_mutex_lock(m);
        turn = 1 - me;
        segleft = -1;
        await();
    }
    return r;
}
