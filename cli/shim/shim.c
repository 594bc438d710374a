/* Stands between the program and libc: every call the properties depend on gets the
 * outcome the simulator wrote into the script, and is logged. Without a script it
 * passes everything through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NOPS 512
#define NLOG 8192
#define NOUT 8192

enum { PASS = 0, SHORT = 1, FAIL = 2, ZERO = 3 };
enum { C_OPEN = 1, C_STAT, C_SEEK, C_READ, C_WRITE1, C_WRITE2, C_ALLOC, C_CLOCK, C_CLOSE };

typedef struct { uint32_t kind; uint32_t arg; } op_t;
typedef struct { uint32_t n; op_t rest; op_t op[NOPS]; } seq_t; /* rest: once the list is used up */
typedef struct { uint8_t call, fired, pad[2]; int32_t fd; int64_t arg, ret; int32_t err; uint32_t pad2; } log_t;

typedef struct {
  uint64_t magic;
  char path[512];
  seq_t open, stat, seek, read, w1, w2;
  int64_t size;            /* st_size to report, -1: the true one */
  uint64_t alloc_min;      /* 0: never fail */
  uint32_t alloc_skip;     /* let so many such allocations succeed first */
  uint32_t alloc_once;     /* fail only one */
  uint64_t clock_start;
  uint32_t nclock; uint32_t mode; /* mode: the file type stat reports, 0: the true one */
  uint64_t clock[64];      /* time that passes before each clock reading */
  uint64_t io_delay;       /* time that passes at each call on the source */
  int64_t rt_jump;         /* how far the wall clock jumps between readings */
  uint32_t cap;            /* calls after which the program is stopped */
  /* history */
  uint32_t calls;
  uint32_t runaway;
  uint32_t opened;
  uint32_t nlog;
  uint32_t skipped;        /* calls that went as asked and are not in the log */
  uint64_t delivered;
  log_t log[NLOG];
  uint32_t nout[2];
  char out[2][NOUT];
} script_t;

static script_t *S;
static uint32_t i_rt, i_open, i_stat, i_seek, i_read, i_w1, i_w2, i_clock, i_alloc;
static uint64_t now;
static int target = -1;

static long (*sys)(long, ...) = syscall;

__attribute__((constructor)) static void start(void) {
  const char *p = 0;
  extern char **environ;
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, "JSIM_SCRIPT=", 12)) p = *e + 12;
  if (!p) return;
  int fd = sys(SYS_open, p, O_RDWR, 0);
  if (fd < 0) _exit(98);
  void *m = mmap(0, sizeof(script_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  sys(SYS_close, fd);
  if (m == MAP_FAILED) _exit(98);
  script_t *s = m;
  if (s->magic != 0x4a53494d53494d31ull) _exit(98);
  struct rlimit c = { 20, 22 }, z = { 0, 0 };
  setrlimit(RLIMIT_CPU, &c);
  setrlimit(RLIMIT_CORE, &z);
  alarm(60);
  now = s->clock_start;
  S = s;
}

/* a clock that starts at 0 does not live to see 2^62 ns */
static void pass(uint64_t d) {
  uint64_t end = 4000000000000000000ull;
  now = now > end || d > end - now ? end : now + d;
}

static op_t next(seq_t *q, uint32_t *i) {
  if (*i < q->n) return q->op[(*i)++];
  return q->rest;
}

static void rec(int call, int fired, int fd, int64_t arg, int64_t ret, int err) {
  if (call == C_READ && ret > 0) __atomic_fetch_add(&S->delivered, ret, __ATOMIC_SEQ_CST);
  if ((call == C_READ || call == C_CLOCK) && !err && S->nlog >= NLOG / 2) {
    __atomic_fetch_add(&S->skipped, 1, __ATOMIC_SEQ_CST);
  } else {
    uint32_t n = __atomic_fetch_add(&S->nlog, 1, __ATOMIC_SEQ_CST);
    if (n < NLOG) {
      log_t *l = &S->log[n];
      l->call = call; l->fired = fired; l->fd = fd; l->arg = arg; l->ret = ret; l->err = err;
    }
  }
  uint32_t k = __atomic_add_fetch(&S->calls, 1, __ATOMIC_SEQ_CST);
  if (k > S->cap) { S->runaway = 1; _exit(99); }
}

static int is_target(const char *p) { return S && p && !strcmp(p, S->path); }

static int do_open(int dir, const char *p, int flags, int mode) {
  if (!is_target(p)) return sys(SYS_openat, dir, p, flags, mode);
  op_t o = next(&S->open, &i_open);
  pass(S->io_delay);
  if (o.kind == FAIL) { rec(C_OPEN, 1, -1, flags, -1, o.arg); errno = o.arg; return -1; }
  int fd = sys(SYS_openat, dir, p, flags, mode);
  int e = errno;
  if (fd >= 0) { target = fd; S->opened = 1; }
  rec(C_OPEN, 0, fd, flags, fd, fd < 0 ? e : 0);
  errno = e;
  return fd;
}
#define OPEN_BODY(dir) int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(dir, p, fl, m);
int open(const char *p, int fl, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *p, int fl, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char *p, int fl, ...) { OPEN_BODY(d) }
int openat64(int d, const char *p, int fl, ...) { OPEN_BODY(d) }

int close(int fd) {
  if (S && fd == target) { target = -1; rec(C_CLOSE, 0, fd, 0, 0, 0); }
  return sys(SYS_close, fd);
}

static int stat_pre(int fd) {
  op_t o = next(&S->stat, &i_stat);
  pass(S->io_delay);
  if (o.kind == FAIL) { rec(C_STAT, 1, fd, 0, -1, o.arg); errno = o.arg; return 1; }
  rec(C_STAT, S->size >= 0 || S->mode, fd, S->size, 0, 0);
  return 0;
}
static void lie(struct stat *b) {
  if (S->size >= 0) b->st_size = S->size;
  if (S->mode) { b->st_mode = (b->st_mode & ~S_IFMT) | S->mode; }
}
int fstat(int fd, struct stat *b) {
  int t = S && fd == target;
  if (t && stat_pre(fd)) return -1;
  int r = sys(SYS_fstat, fd, b);
  if (!r && t) lie(b);
  return r;
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }
static int by_path(const char *p) { return is_target(p); }
int stat(const char *p, struct stat *b) {
  int t = by_path(p);
  if (t && stat_pre(-1)) return -1;
  int r = sys(SYS_stat, p, b);
  if (!r && t) lie(b);
  return r;
}
int stat64(const char *p, struct stat64 *b) { return stat(p, (struct stat *)b); }
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict b) {
  __asm__("" : "+r"(p), "+r"(b)); /* the header says nonnull; std passes null to probe */
  int t = S && ((p && !*p && d == target && target >= 0) || by_path(p));
  if (t && stat_pre(d)) return -1;
  int r = sys(SYS_statx, d, p, fl, mask, b);
  if (!r && t && S->size >= 0) b->stx_size = S->size;
  if (!r && t && S->mode) b->stx_mode = (b->stx_mode & ~S_IFMT) | S->mode;
  return r;
}
off_t lseek(int fd, off_t o, int w) {
  if (S && fd == target) {
    op_t x = next(&S->seek, &i_seek);
    pass(S->io_delay);
    if (x.kind == FAIL) { rec(C_SEEK, 1, fd, o, -1, x.arg); errno = x.arg; return -1; }
    off_t r = sys(SYS_lseek, fd, o, w);
    int e = errno;
    rec(C_SEEK, 0, fd, o, r, r < 0 ? e : 0);
    errno = e;
    return r;
  }
  return sys(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }

static ssize_t do_read(int fd, void *b, size_t n, int64_t at) {
  if (!(S && fd == target)) return at < 0 ? sys(SYS_read, fd, b, n) : sys(SYS_pread64, fd, b, n, at);
  op_t o = next(&S->read, &i_read);
  pass(S->io_delay);
  size_t m = n;
  int fired = 0;
  if (n > 0) {
    if (o.kind == FAIL) { rec(C_READ, 1, fd, n, -1, o.arg); errno = o.arg; return -1; }
    if (o.kind == ZERO) { rec(C_READ, 1, fd, n, 0, 0); return 0; }
    if (o.kind == SHORT && o.arg > 0 && m > o.arg) { m = o.arg; fired = 1; }
  }
  ssize_t r = at < 0 ? sys(SYS_read, fd, b, m) : sys(SYS_pread64, fd, b, m, at);
  int e = errno;
  if (r < (ssize_t)m) fired = 0;
  rec(C_READ, fired, fd, n, r, r < 0 ? e : 0);
  errno = e;
  return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!(S && fd == target)) return sys(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
  return do_read(fd, 0, 0, -1);
}

static ssize_t do_write(int fd, const void *b, size_t n) {
  if (!S || (fd != 1 && fd != 2)) return sys(SYS_write, fd, b, n);
  int k = fd - 1;
  op_t o = k ? next(&S->w2, &i_w2) : next(&S->w1, &i_w1);
  size_t m = n;
  int fired = 0;
  if (n > 0) {
    if (o.kind == FAIL) { rec(C_WRITE1 + k, 1, fd, n, -1, o.arg); errno = o.arg; return -1; }
    if (o.kind == ZERO) { rec(C_WRITE1 + k, 1, fd, n, 0, 0); return 0; }
    if (o.kind == SHORT && o.arg > 0 && m > o.arg) { m = o.arg; fired = 1; }
  }
  size_t room = S->nout[k] < NOUT ? NOUT - S->nout[k] : 0;
  memcpy(S->out[k] + S->nout[k], b, m < room ? m : room);
  S->nout[k] += m < room ? m : room;
  rec(C_WRITE1 + k, fired, fd, n, m, 0);
  return m;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!S || (fd != 1 && fd != 2)) return sys(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
  return do_write(fd, 0, 0);
}

int clock_gettime(clockid_t c, struct timespec *t) {
  if (!S) return sys(SYS_clock_gettime, c, t);
  uint64_t d = i_clock < S->nclock ? S->clock[i_clock] : 0;
  i_clock++;
  pass(d);
  rec(C_CLOCK, d > 0, c, d, now, 0);
  int64_t v = now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) {
    int64_t j = S->rt_jump % 1000000000000000ll * (int64_t)(i_rt++ % 1000);
    v += 1600000000000000000ll + j;
    if (v < 0) v = 0;
  }
  t->tv_sec = v / 1000000000ll;
  t->tv_nsec = v % 1000000000ll;
  return 0;
}

/* memory: fails only once the source was opened */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static int refuse(size_t n) {
  if (!S || !S->alloc_min || n < S->alloc_min || !S->opened) return 0;
  uint32_t k = i_alloc++;
  if (k < S->alloc_skip) return 0;
  if (S->alloc_once && k > S->alloc_skip) return 0;
  rec(C_ALLOC, 1, -1, n, 0, ENOMEM);
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return refuse(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse(b && a > SIZE_MAX / b ? SIZE_MAX : a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse(n) ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return refuse(n) ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return refuse(n) ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  if (refuse(n)) return ENOMEM;
  void *m = __libc_memalign(a, n);
  if (!m) return ENOMEM;
  *p = m;
  return 0;
}
