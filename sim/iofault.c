/* LD_PRELOAD layer between the process and the disk.  Only files below a configured prefix are touched.
 * Every operation on them is counted and logged; a plan makes the n-th operation of a class fail, be short,
 * be silently lost, or end the process (crash).  Off until iof_config() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPENW, WRITE, CLOSE, SYNC, RENAME, UNLINK, TRUNC, READ, OPENR, MUT, NCLS };
enum { ERR = 1, SHORT, CRASH_BEFORE, CRASH_PART, CRASH_AFTER, LOSE };
#define MAXFD 1024
#define MAXLOG 8192
#define CRASH_CODE 42

struct plan { int cls, act, err, sticky; int64_t nth; int frac; };
struct ent { int32_t cls, file; int64_t off, len; };
struct shared { int64_t count[NCLS]; int64_t fired[NCLS]; int64_t nlog, nfile; struct ent log[MAXLOG]; char name[64][256]; };

static char prefix[512];
static size_t plen;
static int on;
static struct plan plans[8];
static int nplans, losing;
static unsigned char trk[MAXFD]; /* 1 tracked, 2 opened for writing */
static short fid[MAXFD];
static struct shared *sh;

#define REAL(name) static __typeof__(name) *r_##name; if (!r_##name) r_##name = (__typeof__(name) *) dlsym(RTLD_NEXT, #name)

__attribute__((visibility("default"))) void iof_config(const char *p) {
    if (!sh) sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    nplans = losing = 0;
    on = plen > 0;
}
/* a new plan starts counting from here; the log goes on */
__attribute__((visibility("default"))) void iof_clear(void) { nplans = losing = 0; if (sh) { memset(sh->count, 0, sizeof sh->count); memset(sh->fired, 0, sizeof sh->fired); sh->nlog = 0; } }
__attribute__((visibility("default"))) void iof_plan(int cls, int64_t nth, int act, int err, int frac, int sticky) {
    struct plan p = {cls, act, err, sticky, nth, frac};
    if (nplans < 8) plans[nplans++] = p;
}
__attribute__((visibility("default"))) int64_t iof_count(int cls) { return sh ? sh->count[cls] : 0; }
__attribute__((visibility("default"))) int64_t iof_fired(int cls) { return sh ? sh->fired[cls] : 0; }
__attribute__((visibility("default"))) int64_t iof_nlog(void) { return sh ? sh->nlog : 0; }
__attribute__((visibility("default"))) void iof_entry(int64_t i, int64_t *out) { struct ent *e = &sh->log[i]; out[0] = e->cls; out[1] = e->file; out[2] = e->off; out[3] = e->len; }
__attribute__((visibility("default"))) const char *iof_name(int i) { return sh->name[i]; }
__attribute__((visibility("default"))) int iof_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += trk[i] != 0; return n; }

static int under(const char *p) { return on && p && !strncmp(p, prefix, plen); }
static int file_id(const char *p) {
    for (int i = 0; i < sh->nfile; i++) if (!strncmp(sh->name[i], p + plen, 255)) return i;
    if (sh->nfile >= 64) return 63;
    strncpy(sh->name[sh->nfile], p + plen, 255);
    return sh->nfile++;
}
static void note(int cls, int f, int64_t off, int64_t len) {
    if (sh->nlog < MAXLOG) { struct ent e = {cls, f, off, len}; sh->log[sh->nlog++] = e; }
}
/* counts the operation; returns the plan that applies */
static struct plan *hit(int cls) {
    int mut = cls <= TRUNC;
    sh->count[cls]++;
    if (mut) sh->count[MUT]++;
    for (int i = 0; i < nplans; i++) {
        struct plan *p = &plans[i];
        int64_t n = -1;
        if (p->cls == cls) n = sh->count[cls];
        else if (p->cls == MUT && mut) n = sh->count[MUT];
        if (n < 0) continue;
        if (n == p->nth || (p->sticky && n > p->nth)) {
            /* some actions make no sense for this operation */
            if ((p->act == SHORT) && cls != WRITE && cls != READ) continue;
            sh->fired[p->cls]++;
            if (p->act == CRASH_BEFORE) _exit(CRASH_CODE);
            if (p->act == LOSE) { losing = 1; return 0; }
            return p;
        }
    }
    return 0;
}
static int tracked(int fd) { return on && fd >= 0 && fd < MAXFD && trk[fd]; }

static int do_open(const char *p, int flags, int (*f)(void *), void *a) {
    if (!under(p)) return f(a);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    struct plan *pl = hit(w ? OPENW : OPENR);
    if (pl && pl->act == ERR) { errno = pl->err; return -1; }
    int fd = f(a);
    if (fd >= 0 && fd < MAXFD) {
        trk[fd] = w ? 2 : 1;
        fid[fd] = file_id(p);
        if (w) note(OPENW, fid[fd], (flags & O_TRUNC) ? 1 : 0, 0);
    }
    if (pl && (pl->act == CRASH_AFTER || pl->act == CRASH_PART)) _exit(CRASH_CODE);
    return fd;
}

struct oa { const char *p; int dir, flags; mode_t m; };
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
#define DEF_OPEN(name) \
    static int call_##name(void *v) { struct oa *a = v; REAL(name); return r_##name(a->p, a->flags, a->m); } \
    __attribute__((visibility("default"))) int name(const char *p, int flags, ...) { MODE struct oa a = {p, 0, flags, m}; return do_open(p, flags, call_##name, &a); }
#define DEF_OPENAT(name) \
    static int call_##name(void *v) { struct oa *a = v; REAL(name); return r_##name(a->dir, a->p, a->flags, a->m); } \
    __attribute__((visibility("default"))) int name(int dir, const char *p, int flags, ...) { MODE struct oa a = {p, dir, flags, m}; return do_open(p, flags, call_##name, &a); }
DEF_OPEN(open)
DEF_OPEN(open64)
DEF_OPENAT(openat)
DEF_OPENAT(openat64)

/* one write: returns 1 when the result is in *res, else the number of bytes to write is in *n */
static int pre_write(int fd, int64_t off, size_t *n, ssize_t *res, struct plan **pl) {
    *pl = hit(WRITE);
    if (*pl) {
        if ((*pl)->act == ERR) { errno = (*pl)->err; *res = -1; return 1; }
        if (((*pl)->act == SHORT || (*pl)->act == CRASH_PART) && *n > 1) { size_t k = *n * (*pl)->frac / 256; *n = k ? k : 1; }
    }
    note(WRITE, fid[fd], off, *n);
    return 0;
}
static void post(struct plan *pl) { if (pl && (pl->act == CRASH_PART || pl->act == CRASH_AFTER)) _exit(CRASH_CODE); }

__attribute__((visibility("default"))) ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!tracked(fd)) return r_write(fd, b, n);
    ssize_t res; struct plan *pl;
    int64_t off = lseek(fd, 0, SEEK_CUR);
    if (pre_write(fd, off, &n, &res, &pl)) return res;
    if (losing) { lseek(fd, n, SEEK_CUR); return n; }
    res = r_write(fd, b, n);
    post(pl);
    return res;
}
#define DEF_PWRITE(name, T) \
    __attribute__((visibility("default"))) ssize_t name(int fd, const void *b, size_t n, T off) { \
        REAL(name); if (!tracked(fd)) return r_##name(fd, b, n, off); \
        ssize_t res; struct plan *pl; if (pre_write(fd, off, &n, &res, &pl)) return res; \
        if (losing) return n; \
        res = r_##name(fd, b, n, off); post(pl); return res; }
DEF_PWRITE(pwrite, off_t)
DEF_PWRITE(pwrite64, off64_t)
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!tracked(fd) || c == 0) return r_writev(fd, v, c);
    return write(fd, v[0].iov_base, v[0].iov_len);
}

static int pre_read(size_t *n, ssize_t *res) {
    struct plan *pl = hit(READ);
    if (pl) {
        if (pl->act == ERR) { errno = pl->err; *res = -1; return 1; }
        if (pl->act == SHORT && *n > 1) { size_t k = *n * pl->frac / 256; *n = k ? k : 1; }
    }
    return 0;
}
__attribute__((visibility("default"))) ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    ssize_t res;
    if (tracked(fd) && pre_read(&n, &res)) return res;
    return r_read(fd, b, n);
}
#define DEF_PREAD(name, T) \
    __attribute__((visibility("default"))) ssize_t name(int fd, void *b, size_t n, T off) { \
        REAL(name); ssize_t res; if (tracked(fd) && pre_read(&n, &res)) return res; return r_##name(fd, b, n, off); }
DEF_PREAD(pread, off_t)
DEF_PREAD(pread64, off64_t)

__attribute__((visibility("default"))) int close(int fd) {
    REAL(close);
    if (!tracked(fd)) return r_close(fd);
    int w = trk[fd] == 2;
    trk[fd] = 0;
    struct plan *pl = w ? hit(CLOSE) : 0;
    if (w) note(CLOSE, fid[fd], 0, 0);
    int r = r_close(fd);
    post(pl);
    if (pl && pl->act == ERR) { errno = pl->err; return -1; }
    if (w && losing) { errno = EIO; return -1; }
    return r;
}
static int do_sync(int fd, int (*f)(int)) {
    if (!tracked(fd)) return f(fd);
    struct plan *pl = hit(SYNC);
    if (pl && pl->act == ERR) { errno = pl->err; return -1; }
    if (losing) { errno = EIO; return -1; }
    int r = f(fd);
    if (!r) note(SYNC, fid[fd], 0, 0);
    post(pl);
    return r;
}
__attribute__((visibility("default"))) int fsync(int fd) { REAL(fsync); return do_sync(fd, r_fsync); }
__attribute__((visibility("default"))) int fdatasync(int fd) { REAL(fdatasync); return do_sync(fd, r_fdatasync); }

#define DEF_TRUNC(name, T) \
    __attribute__((visibility("default"))) int name(int fd, T len) { \
        REAL(name); if (!tracked(fd)) return r_##name(fd, len); \
        struct plan *pl = hit(TRUNC); \
        if (pl && pl->act == ERR) { errno = pl->err; return -1; } \
        note(TRUNC, fid[fd], len, 0); \
        int r = r_##name(fd, len); post(pl); return r; }
DEF_TRUNC(ftruncate, off_t)
DEF_TRUNC(ftruncate64, off64_t)

__attribute__((visibility("default"))) int rename(const char *a, const char *b) {
    REAL(rename);
    if (!under(a) && !under(b)) return r_rename(a, b);
    struct plan *pl = hit(RENAME);
    if (pl && pl->act == ERR) { errno = pl->err; return -1; }
    if (under(a) && under(b)) note(RENAME, file_id(a), file_id(b), 0);
    int r = r_rename(a, b);
    post(pl);
    return r;
}
__attribute__((visibility("default"))) int renameat(int da, const char *a, int db, const char *b) {
    REAL(renameat);
    if (!under(a) && !under(b)) return r_renameat(da, a, db, b);
    return rename(a, b);
}
__attribute__((visibility("default"))) int unlink(const char *a) {
    REAL(unlink);
    if (!under(a)) return r_unlink(a);
    struct plan *pl = hit(UNLINK);
    if (pl && pl->act == ERR) { errno = pl->err; return -1; }
    int r = r_unlink(a);
    note(UNLINK, file_id(a), 0, 0);
    post(pl);
    return r;
}
__attribute__((visibility("default"))) int remove(const char *a) {
    REAL(remove);
    return under(a) ? unlink(a) : r_remove(a);
}
__attribute__((visibility("default"))) int unlinkat(int d, const char *a, int fl) {
    REAL(unlinkat);
    if (!under(a) || (fl & AT_REMOVEDIR)) return r_unlinkat(d, a, fl);
    return unlink(a);
}

/* Every allocation starts on a cache line: the rounding of BLAS kernels depends on the alignment of their
 * operands, and the heap layout must not decide a comparison.
 * With VSIM_GUARD=1 every block also lies between two zones that a shadow map marks as forbidden, and freed
 * blocks stay forbidden for a while; the instrumented modules check each of their accesses against the map. */
#include <malloc.h>
#include <stdlib.h>
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern char **environ;
#define LINE 64
#define EXP __attribute__((visibility("default")))
#define MAGIC 0x5ca1ab1e0ddba11ull
#define PRE 512
#define QUAR 1024
struct head { uint64_t magic, size; void *base; uint64_t pad; };
static uint8_t *shadow;
static int guard = -1;
static volatile int qlock;
static void *quar[QUAR];
static unsigned qpos;

static int guard_init(void) {
    int g = 0;
    if (environ)
        for (char **e = environ; *e; e++)
            if (!strncmp(*e, "VSIM_GUARD=", 11)) g = (*e)[11] == '1';
    if (!environ) return 0;
    if (g) {
        void *m = mmap(0, 1ull << 44, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) g = 0;
        else shadow = m;
    }
    return guard = g;
}
#define GUARD (__builtin_expect(guard > 0, 0) || (__builtin_expect(guard < 0, 0) && guard_init()))
EXP void *iof_shadow(void) { return shadow; }

static void mark(char *p, size_t n, uint8_t v) { /* whole granules of 8 bytes */
    memset(shadow + ((uintptr_t) p >> 3), v, (n + 7) >> 3);
}
static void *g_alloc(size_t n) {
    size_t post = 256 + (n < 4096 ? n : 4096);
    size_t body = (n + 7) & ~(size_t) 7;
    if (n > (1ull << 40)) { errno = ENOMEM; return 0; }
    char *b = __libc_memalign(LINE, PRE + body + post);
    if (!b) return 0;
    char *p = b + PRE;
    struct head h = {MAGIC ^ (uintptr_t) p, n, b, 0};
    memcpy(p - sizeof h, &h, sizeof h);
    mark(b, PRE, 0xfa);
    mark(p, body, 0);
    if (n & 7) shadow[(uintptr_t) (p + n) >> 3] = n & 7;
    mark(p + body, post & ~(size_t) 7, 0xfb);
    return p;
}
static struct head *g_head(void *p) {
    if ((uintptr_t) p % LINE) return 0;
    struct head *h = (struct head *) ((char *) p - sizeof *h);
    return h->magic == (MAGIC ^ (uintptr_t) p) ? h : 0;
}
static void g_free(struct head *h, void *p) {
    size_t body = (h->size + 7) & ~(size_t) 7, post = 256 + (h->size < 4096 ? h->size : 4096);
    h->magic = 0;
    mark(p, body, 0xfd);
    if (h->size > (1 << 20)) {
        mark(h->base, PRE + body + post, 0);
        __libc_free(h->base);
        return;
    }
    while (__sync_lock_test_and_set(&qlock, 1)) {}
    void *o = quar[qpos];
    quar[qpos] = p;
    qpos = (qpos + 1) % QUAR;
    __sync_lock_release(&qlock);
    if (o) {
        struct head *q = (struct head *) ((char *) o - sizeof *q);
        size_t ob = (q->size + 7) & ~(size_t) 7, op = 256 + (q->size < 4096 ? q->size : 4096);
        mark(q->base, PRE + ob + op, 0);
        __libc_free(q->base);
    }
}
EXP void *malloc(size_t n) { return GUARD ? g_alloc(n) : __libc_memalign(LINE, n); }
EXP void free(void *p) {
    if (p && GUARD) {
        struct head *h = g_head(p);
        if (h) { g_free(h, p); return; }
    }
    __libc_free(p);
}
EXP void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    void *p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
EXP size_t malloc_usable_size(void *p) {
    if (!p) return 0;
    if (GUARD) { struct head *h = g_head(p); if (h) return h->size; }
    size_t c = *(size_t *) ((char *) p - 8); /* the size field of a libc chunk */
    return (c & ~(size_t) 7) - ((c & 2) ? 16 : 8);
}
EXP void *realloc(void *o, size_t n) {
    if (!o) return malloc(n);
    if (!n) { free(o); return 0; }
    size_t k = malloc_usable_size(o);
    if (n <= k && n > k / 2 && !(GUARD && n != k)) return o;
    void *p = malloc(n);
    if (!p) return 0;
    memcpy(p, o, k < n ? k : n);
    free(o);
    return p;
}

/* The solvers reach the factors through BLAS and LAPACK, which are not instrumented: with VSIM_GUARD=1 the
 * operands of the routines they use are checked before the call.  The arithmetic stays that of the library. */
#include <link.h>
#include <stdio.h>
static void (*on_oob)(uintptr_t, size_t, int, void *);
EXP void iof_on_oob(void (*f)(uintptr_t, size_t, int, void *)) { on_oob = f; }

static void range(const void *p, long n, long inc, size_t size, int w, void *pc) {
    if (n <= 0 || !on_oob) return;
    uintptr_t a = (uintptr_t) p, e;
    if (inc < 0) { inc = -inc; }
    e = a + ((n - 1) * inc + 1) * size;
    if (a >> 47 || e >> 47) return;
    if (inc <= 1) {
        for (uintptr_t x = a >> 3; x <= (e - 1) >> 3; x++)
            if (shadow[x]) {
                uintptr_t s = x << 3, t = s + 8;
                if (s < a) s = a;
                if (t > e) t = e;
                on_oob(s, t - s, w, pc);
            }
    } else
        for (long i = 0; i < n; i++) on_oob(a + i * inc * size, size, w, pc);
}

struct find { const char *sym; void *fn; };
static int find_cb(struct dl_phdr_info *i, size_t sz, void *v) {
    struct find *f = v;
    if (!i->dlpi_name || !strstr(i->dlpi_name, "blas")) return 0;
    void *h = dlopen(i->dlpi_name, RTLD_LAZY | RTLD_NOLOAD);
    if (!h) return 0;
    void *s = dlsym(h, f->sym);
    dlclose(h);
    Dl_info d;
    if (!s || !dladdr(s, &d) || !d.dli_fname || strstr(d.dli_fname, "iofault")) return 0;
    f->fn = s;
    return 1;
}
static void *lib_fn(const char *sym) {
    struct find f = {sym, 0};
    dl_iterate_phdr(find_cb, &f);
    if (!f.fn) f.fn = dlsym(RTLD_NEXT, sym);
    if (!f.fn) { fprintf(stderr, "iofault: %s not found\n", sym); abort(); }
    return f.fn;
}
#define LIB(name) static __typeof__(name) *r_##name; if (!r_##name) r_##name = (__typeof__(name) *) lib_fn(#name)
#define PC __builtin_return_address(0)
#define BLAS(s, T) \
EXP T s##dot_(int *n, T *x, int *ix, T *y, int *iy) { \
    LIB(s##dot_); \
    if (GUARD) { range(x, *n, *ix, sizeof(T), 0, PC); range(y, *n, *iy, sizeof(T), 0, PC); } \
    return r_##s##dot_(n, x, ix, y, iy); } \
EXP void s##axpy_(int *n, T *a, T *x, int *ix, T *y, int *iy) { \
    LIB(s##axpy_); \
    if (GUARD) { range(x, *n, *ix, sizeof(T), 0, PC); range(y, *n, *iy, sizeof(T), 1, PC); } \
    r_##s##axpy_(n, a, x, ix, y, iy); } \
EXP void s##scal_(int *n, T *a, T *x, int *ix) { \
    LIB(s##scal_); \
    if (GUARD) range(x, *n, *ix, sizeof(T), 1, PC); \
    r_##s##scal_(n, a, x, ix); } \
EXP void s##symv_(char *u, int *n, T *a, T *A, int *lda, T *x, int *ix, T *b, T *y, int *iy) { \
    LIB(s##symv_); \
    if (GUARD) { for (long j = 0; j < *n; j++) range(A + j * *lda + (*u == 'L' || *u == 'l' ? j : 0), *u == 'L' || *u == 'l' ? *n - j : j + 1, 1, sizeof(T), 0, PC); \
        range(x, *n, *ix, sizeof(T), 0, PC); range(y, *n, *iy, sizeof(T), 1, PC); } \
    r_##s##symv_(u, n, a, A, lda, x, ix, b, y, iy); } \
EXP void s##posv_(char *u, int *n, int *m, T *A, int *lda, T *b, int *ldb, int *err) { \
    LIB(s##posv_); \
    if (GUARD) { for (long j = 0; j < *n; j++) range(A + j * *lda + (*u == 'L' || *u == 'l' ? j : 0), *u == 'L' || *u == 'l' ? *n - j : j + 1, 1, sizeof(T), 1, PC); \
        for (long j = 0; j < *m; j++) range(b + j * *ldb, *n, 1, sizeof(T), 1, PC); } \
    r_##s##posv_(u, n, m, A, lda, b, ldb, err); }
BLAS(s, float)
BLAS(d, double)
