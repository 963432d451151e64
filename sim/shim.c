/* Deterministic fault layer, loaded with LD_PRELOAD into the simulated process.
 * It owns: I/O on paths under one scratch prefix, the clocks, sleeping, and the kernel's random bytes.
 * Everything is off until the harness switches it on with the sim_* functions (through ctypes).
 * Python's own file objects, C++ file buffers and os.* calls all pass through these symbols. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_CLOSE = 8, OP_SYNC = 16, OP_RENAME = 32 };
enum { A_ERRNO = 1, A_SHORT = 2, A_EOF = 3, A_TRUNC = 4, A_SWAP = 5, A_KILL = 6, A_STALL = 7, A_EOFAT = 8 };

#define MAXFD 4096
#define MAXRULE 64
#define MAXLOG 65536
struct rule { int op; char sub[256]; long nth, last; int action; long arg; long seen, fired; char aux[512]; };
static struct rule rules[MAXRULE];
static int nrules;
static int fs_on;
static char prefix[1024];
static size_t plen;
static char *fdpath[MAXFD];
static long nop[64];
static uint64_t chop_state; static int chop_max;   /* random short reads/writes */
static long chop_fired, eintr_fired; static int eintr_pct;
static int clock_on; static int64_t clock_ns, clock_step; static long clock_reads, sleeps;
static int rnd_on; static uint64_t rnd_state;

static uint64_t sm(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

#define REAL(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

void sim_fs_begin(const char *p) { nrules = 0; strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); memset(nop, 0, sizeof nop); chop_max = 0; chop_fired = 0; eintr_pct = 0; eintr_fired = 0; fs_on = 1; }
void sim_fs_end(void) { fs_on = 0; }
void sim_fs_resume(void) { fs_on = 1; }
int sim_fs_rule(int op, const char *sub, long nth, long last, int action, long arg, const char *aux) {
  if (nrules >= MAXRULE) return -1;
  struct rule *r = &rules[nrules]; memset(r, 0, sizeof *r);
  r->op = op; strncpy(r->sub, sub, sizeof r->sub - 1); r->nth = nth; r->last = last; r->action = action; r->arg = arg;
  if (aux) strncpy(r->aux, aux, sizeof r->aux - 1);
  return nrules++;
}
long sim_fs_fired(int i) { return i < nrules ? rules[i].fired : -1; }
long sim_fs_ops(int op) { return nop[op & 63]; }
void sim_fs_chop(unsigned long seed, int maxlen, int eintr) { chop_state = seed; chop_max = maxlen; eintr_pct = eintr; }
long sim_fs_chopped(void) { return chop_fired; }
long sim_fs_eintr(void) { return eintr_fired; }
void sim_clock(int on, long ns, long step) { clock_on = on; clock_ns = ns; clock_step = step; }
void sim_clock_jump(long ns) { clock_ns += ns; }
long sim_clock_now(void) { return clock_ns; }
long sim_clock_reads(void) { return clock_reads; }
long sim_sleeps(void) { return sleeps; }
void sim_random(int on, unsigned long seed) { rnd_on = on; rnd_state = seed; }

static struct rule *hit(int op, const char *path) {
  nop[op & 63]++;
  for (int i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if ((r->op & op) && strstr(path, r->sub)) {
      r->seen++;
      if (r->seen >= r->nth && r->seen <= r->last) { r->fired++; return r; }
    }
  }
  return NULL;
}
/* returns 1 when the call must fail with errno set */
static int act(struct rule *r, const char *path) {
  switch (r->action) {
    case A_ERRNO: errno = (int)r->arg; return 1;
    case A_TRUNC: syscall(SYS_truncate, path, r->arg); return 0;
    case A_SWAP: syscall(SYS_renameat2, AT_FDCWD, r->aux, AT_FDCWD, path, 0); return 0;
    case A_KILL: syscall(SYS_exit_group, 137); return 0;
    case A_STALL: clock_ns += r->arg; return 0;
  }
  return 0;
}
static int under(const char *p) { return fs_on && p && strncmp(p, prefix, plen) == 0; }
static void note(int fd, const char *p) { if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); } }
static const char *of(int fd) { return (fs_on && fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL; }

/* absolute spelling without ".", ".." and doubled slashes, so that relative names meet the same rules */
static const char *canon(int dirfd, const char *p, char *buf) {
  char t[4096]; size_t n = 0;
  if (!fs_on || !p || !*p || (p[0] != '/' && dirfd != AT_FDCWD)) return p;
  if (p[0] == '/') { if (strlen(p) >= sizeof t) return p; strcpy(t, p); }
  else { if (syscall(SYS_getcwd, t, sizeof t) < 0 || strlen(t) + strlen(p) + 2 > sizeof t) return p; strcat(t, "/"); strcat(t, p); }
  char *save, *c = strtok_r(t, "/", &save);
  for (; c; c = strtok_r(NULL, "/", &save)) {
    if (!strcmp(c, ".")) continue;
    if (!strcmp(c, "..")) { while (n && buf[n - 1] != '/') n--; if (n) n--; continue; }
    buf[n++] = '/'; strcpy(buf + n, c); n += strlen(c);
  }
  buf[n] = 0;
  return buf;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char cb[4200]; const char *cp = canon(dirfd, path, cb);
  if (under(cp)) {
    struct rule *r = hit(OP_OPEN, cp);
    if (r && act(r, cp)) return -1;
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    note(fd, cp);
    return fd;
  }
  return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define OPENBODY(dirfd) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return do_open(dirfd, path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int dirfd, const char *path, int flags, ...) { OPENBODY(dirfd) }
int openat64(int dirfd, const char *path, int flags, ...) { OPENBODY(dirfd) }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *path, const char *mode, const char *sym) {
  FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, sym);
  char cb[4200]; const char *cp = canon(AT_FDCWD, path, cb);
  if (under(cp)) {
    struct rule *r = hit(OP_OPEN, cp);
    if (r && act(r, cp)) return NULL;
    FILE *f = real(path, mode);
    if (f) note(fileno(f), cp);
    return f;
  }
  return real(path, mode);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }

static int pre_io(int op, int fd, size_t *n) { /* 0 go on, -1 fail, 1 return 0 bytes */
  const char *p = of(fd);
  if (!p) return 0;
  struct rule *r = hit(op, p);
  if (r) {
    if (r->action == A_SHORT) { if ((long)*n > r->arg && r->arg > 0) *n = r->arg; return 0; }
    if (r->action == A_EOF) return 1;
    if (r->action == A_EOFAT) {      /* the file seems to end at byte arg */
      off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
      if (pos >= r->arg) return 1;
      if ((off_t)*n > r->arg - pos) *n = r->arg - pos;
      r->fired--; if (pos + (off_t)*n >= r->arg) r->fired++;
    } else
    if (act(r, p)) return -1;
  }
  if (eintr_pct && (int)(sm(&chop_state) % 100) < eintr_pct) { eintr_fired++; errno = EINTR; return -1; }
  if (chop_max && *n > 1) { size_t k = 1 + sm(&chop_state) % chop_max; if (k < *n) { *n = k; chop_fired++; } }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  int s = pre_io(OP_READ, fd, &n); if (s < 0) return -1; if (s > 0) return 0;
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  int s = pre_io(OP_READ, fd, &n); if (s < 0) return -1; if (s > 0) return 0;
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  size_t n = 1; if (of(fd)) { int s = pre_io(OP_READ, fd, &n); if (s < 0) return -1; if (s > 0) return 0; }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
  int s = pre_io(OP_WRITE, fd, &n); if (s < 0) return -1; if (s > 0) { errno = ENOSPC; return -1; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  size_t n = 1; if (of(fd)) { int s = pre_io(OP_WRITE, fd, &n); if (s) { if (s > 0) errno = ENOSPC; return -1; } }
  return syscall(SYS_writev, fd, v, c);
}
int close(int fd) {
  const char *p = of(fd);
  int fail = 0;
  if (p) { struct rule *r = hit(OP_CLOSE, p); if (r && act(r, p)) fail = errno; }
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
  int rc = syscall(SYS_close, fd);
  if (fail) { errno = fail; return -1; }
  return rc;
}
int fsync(int fd) { const char *p = of(fd); if (p) { struct rule *r = hit(OP_SYNC, p); if (r && act(r, p)) return -1; } return syscall(SYS_fsync, fd); }
int rename(const char *a, const char *b) {
  char cb[4200]; const char *cp = canon(AT_FDCWD, b, cb);
  if (under(cp)) { struct rule *r = hit(OP_RENAME, cp); if (r && act(r, cp)) return -1; }
  return syscall(SYS_rename, a, b);
}

/* ---- clock ---- */
static int64_t tick(void) { clock_reads++; clock_ns += clock_step; return clock_ns; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (clock_on) { int64_t t = tick(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
  return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (clock_on) { int64_t t = tick(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0; }
  return syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *o) {
  time_t t;
  if (clock_on) t = tick() / 1000000000; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  if (o) *o = t;
  return t;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
  if (clock_on) { int64_t t = rq->tv_sec * 1000000000LL + rq->tv_nsec; sleeps++; if (fl & TIMER_ABSTIME) { if (t > clock_ns) clock_ns = t; } else clock_ns += t; return 0; }
  long r = syscall(SYS_clock_nanosleep, id, fl, rq, rm); return r < 0 ? errno : 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (clock_on) { sleeps++; clock_ns += rq->tv_sec * 1000000000LL + rq->tv_nsec; return 0; }
  return syscall(SYS_nanosleep, rq, rm);
}
/* ---- kernel randomness ---- */
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (rnd_on) { unsigned char *c = b; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)sm(&rnd_state); return n; }
  return syscall(SYS_getrandom, b, n, f);
}
int getentropy(void *b, size_t n) { if (rnd_on) { getrandom(b, n, 0); return 0; } return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }
