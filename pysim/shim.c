// LD_PRELOAD library putting the system calls of a simulated process behind the
// simulator: clock, process identifier, random bytes, sleeping, and every call
// that touches the simulated installation. At each of the latter the process
// stops until the scheduler says how it ends: normally, with an error, partly,
// or with the death of the process before, during or after it.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#undef open
#undef open64
#undef stat
#undef lstat

#define MAXP 8
#define BUF 262144
enum { OP_NONE, OP_OPEN, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_CLOSEW, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_STAT,
       OP_SYNC, OP_TRUNC, OP_META, OP_LINK, OP_LOCK, OP_NET, OP_SLEEP, OP_MARK, OP_EXIT };
enum { ACT_GO, ACT_FAIL, ACT_PART, ACT_DIE, ACT_PART_DIE, ACT_DIE_AFTER };

typedef struct {
  sem_t go, back;
  int32_t op, action;
  int64_t arg, aarg;
  int64_t clock_ns, mono_ns;
  uint64_t rng;
  int32_t simpid, dead;
  char path[240];
  int32_t rlen;
  char result[BUF];
} Proc;
typedef struct {
  char root[2][200];
  int32_t nroot;
  Proc p[MAXP];
} Ctl;

static Ctl* C;
static Proc* P;           // set in a simulated process
static uint8_t fds[1024]; // 1 tracked, 2 opened for writing
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
#define REAL(name) static __typeof__(name)* real; if (!real) real = dlsym(RTLD_NEXT, #name)

// ------------------------------------------------ scheduler side (ctypes)
void* shim_ctl(void) {
  if (!C) C = mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return C;
}
void shim_roots(const char* a, const char* b) {
  snprintf(C->root[0], 200, "%s", a);
  snprintf(C->root[1], 200, "%s", b);
  C->nroot = 2;
}
void shim_reset(int k, int64_t clock_ns, uint64_t rng, int pid) {
  Proc* p = &C->p[k];
  sem_init(&p->go, 1, 0);
  sem_init(&p->back, 1, 0);
  p->op = p->action = p->dead = p->rlen = 0;
  p->clock_ns = clock_ns;
  p->mono_ns = 1000000000;
  p->rng = rng;
  p->simpid = pid;
}
// waits for the next event of process k: its operation; -1 dead, -2 no answer
int shim_wait(int k, int pid) {
  Proc* p = &C->p[k];
  for (int i = 0; i < 400; ++i) {
    struct timespec t;
    static int (*cg)(clockid_t, struct timespec*);
    if (!cg) cg = dlsym(RTLD_NEXT, "clock_gettime");
    cg(CLOCK_REALTIME, &t);
    t.tv_nsec += 200000000;
    if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    int r;
    while ((r = sem_timedwait(&p->back, &t)) && errno == EINTR) {}
    if (!r) return p->op;
    siginfo_t si;
    si.si_pid = 0;
    if (!waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid == pid) return -1;
  }
  return -2;
}
int64_t shim_arg(int k) { return C->p[k].arg; }
const char* shim_path(int k) { return C->p[k].path; }
void shim_clock_add(int k, int64_t ns) { C->p[k].clock_ns += ns; }
int64_t shim_clock(int k) { return C->p[k].clock_ns; }
void shim_grant(int k, int action, int64_t arg) {
  Proc* p = &C->p[k];
  p->action = action;
  p->aarg = arg;
  sem_post(&p->go);
}
int shim_result(int k, char* out, int cap) {
  int n = C->p[k].rlen;
  if (n > cap) n = cap;
  memcpy(out, C->p[k].result, (size_t)n);
  return n;
}

// ------------------------------------------------ process side
static void wait_go(Proc* p) { while (sem_wait(&p->go) && errno == EINTR) {} }
static int event(int op, const char* path, int64_t arg) {
  Proc* p = P;
  P = 0;                       // nothing below is simulated
  p->op = op;
  p->arg = arg;
  snprintf(p->path, sizeof p->path, "%s", path ? path : "");
  sem_post(&p->back);
  wait_go(p);
  if (p->action == ACT_DIE) _exit(137);
  P = p;
  return p->action;
}
static void done(int act) { if (act == ACT_DIE_AFTER) _exit(137); }
void shim_enter(int k) { P = &C->p[k]; wait_go(P); }
// called by the harness part of the process (network, marks)
int shim_event(int op, const char* what, int64_t arg, int64_t* out) {
  int a = event(op, what, arg);
  if (out) *out = P->aarg;
  done(a);
  return a;
}
void shim_finish(const char* data, int n) {
  Proc* p = P;
  if (n > BUF) n = BUF;
  memcpy(p->result, data, (size_t)n);
  p->rlen = n;
  event(OP_EXIT, 0, 0);
  _exit(0);
}
static const char* tracked(const char* path) {
  if (!P || !path) return 0;
  for (int i = 0; i < C->nroot; ++i) {
    size_t n = strlen(C->root[i]);
    if (n && !strncmp(path, C->root[i], n)) {
      size_t l = strlen(path);
      if (l > 3 && !strcmp(path + l - 3, ".py")) return 0;
      if (strstr(path, "__pycache__")) return 0;
      const char* rel = path + n;
      if (!*rel || !strcmp(rel, "/pyfes") || !strcmp(rel, "/pyfes/core")) return 0;   // import machinery
      return rel;
    }
  }
  return 0;
}
static int which(const char* path) {
  for (int i = 0; i < C->nroot; ++i)
    if (!strncmp(path, C->root[i], strlen(C->root[i]))) return i;
  return -1;
}
static int is_tracked(int fd) { return P && fd >= 0 && fd < 1024 && fds[fd]; }

static int do_open(const char* path, int flags, int (*call)(void*), void* arg) {
  const char* rel = tracked(path);
  if (!rel) {
    int fd = call(arg);
    if (fd >= 0 && fd < 1024) fds[fd] = 0;
    return fd;
  }
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int a = event(w ? OP_OPENW : OP_OPEN, rel, flags);
  if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }
  int fd = call(arg);
  int e = errno;
  if (fd >= 0 && fd < 1024) fds[fd] = w ? 3 : 1;
  done(a);
  errno = e;
  return fd;
}
struct oa { const char* path; int flags; mode_t mode; int dirfd; };
static int r_open(void* v) { struct oa* o = v; REAL(open); return real(o->path, o->flags, o->mode); }
static int r_openat(void* v) { struct oa* o = v; REAL(openat); return real(o->dirfd, o->path, o->flags, o->mode); }
static mode_t get_mode(int flags, va_list ap) { return flags & (O_CREAT | __O_TMPFILE) ? (mode_t)va_arg(ap, int) : 0; }
#define OPENBODY(pathv, fn, dfd)                                   \
  va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); \
  struct oa o = {pathv, flags, m, dfd};                            \
  return do_open(pathv, flags, fn, &o);
int open(const char* path, int flags, ...) { OPENBODY(path, r_open, 0) }
int open64(const char* path, int flags, ...) { OPENBODY(path, r_open, 0) }
int openat(int d, const char* path, int flags, ...) { OPENBODY(path, r_openat, d) }
int openat64(int d, const char* path, int flags, ...) { OPENBODY(path, r_openat, d) }
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_write(int fd, const void* b, size_t n, off_t off, int pos) {
  REAL(write);
  static __typeof__(pwrite)* rp;
  if (!rp) rp = dlsym(RTLD_NEXT, "pwrite64");
  if (!is_tracked(fd)) return pos ? rp(fd, b, n, off) : real(fd, b, n);
  int a = event(OP_WRITE, 0, (int64_t)n);
  if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }
  if (a == ACT_PART || a == ACT_PART_DIE) { if (P->aarg < (int64_t)n) n = (size_t)P->aarg; }
  ssize_t r = pos ? rp(fd, b, n, off) : real(fd, b, n);
  if (a == ACT_PART_DIE) _exit(137);
  done(a);
  return r;
}
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(writev);
  if (!is_tracked(fd)) return real(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
static ssize_t do_read(int fd, void* b, size_t n, off_t off, int pos) {
  REAL(read);
  static __typeof__(pread)* rp;
  if (!rp) rp = dlsym(RTLD_NEXT, "pread64");
  if (!is_tracked(fd)) return pos ? rp(fd, b, n, off) : real(fd, b, n);
  int a = event(OP_READ, 0, (int64_t)n);
  if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }
  if (a == ACT_PART && P->aarg < (int64_t)n && P->aarg > 0) n = (size_t)P->aarg;
  ssize_t r = pos ? rp(fd, b, n, off) : real(fd, b, n);
  done(a);
  return r;
}
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t sendfile(int out, int in, off_t* o, size_t n) {
  REAL(sendfile);
  if (is_tracked(out)) { errno = EINVAL; return -1; }   // falls back on read and write
  return real(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t* o, size_t n) { return sendfile(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t* i, int out, off64_t* o, size_t n, unsigned f) {
  REAL(copy_file_range);
  if (is_tracked(out)) { errno = EXDEV; return -1; }
  return real(in, i, out, o, n, f);
}
int close(int fd) {
  REAL(close);
  if (!is_tracked(fd)) return real(fd);
  int w = fds[fd] & 2;
  fds[fd] = 0;
  int a = event(w ? OP_CLOSEW : OP_CLOSE, 0, 0);
  int e = (int)P->aarg, r = real(fd);
  done(a);
  if (a == ACT_FAIL) { errno = e; return -1; }
  return r;
}
int dup(int fd) { REAL(dup); int r = real(fd); if (r >= 0 && r < 1024 && fd < 1024) fds[r] = fds[fd]; return r; }
int dup2(int fd, int g) { REAL(dup2); int r = real(fd, g); if (r >= 0 && r < 1024 && fd < 1024) fds[r] = fds[fd]; return r; }

#define SIMPLE(op, path, arg, callexpr)                                  \
  const char* rel = tracked(path);                                       \
  if (!rel) return callexpr;                                             \
  int a = event(op, rel, arg);                                           \
  if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }                \
  int r = callexpr; int e = errno; done(a); errno = e; return r;

int unlink(const char* p) { REAL(unlink); SIMPLE(OP_UNLINK, p, 0, real(p)) }
int unlinkat(int d, const char* p, int f) { REAL(unlinkat); SIMPLE(OP_UNLINK, p, 0, real(d, p, f)) }
int remove(const char* p) { REAL(remove); SIMPLE(OP_UNLINK, p, 0, real(p)) }
int rmdir(const char* p) { REAL(rmdir); SIMPLE(OP_UNLINK, p, 1, real(p)) }
int mkdir(const char* p, mode_t m) { REAL(mkdir); SIMPLE(OP_MKDIR, p, 0, real(p, m)) }
int mkdirat(int d, const char* p, mode_t m) { REAL(mkdirat); SIMPLE(OP_MKDIR, p, 0, real(d, p, m)) }
int chmod(const char* p, mode_t m) { REAL(chmod); SIMPLE(OP_META, p, 0, real(p, m)) }
int truncate(const char* p, off_t n) { REAL(truncate); SIMPLE(OP_TRUNC, p, n, real(p, n)) }
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int symlink(const char* t, const char* p) { REAL(symlink); SIMPLE(OP_LINK, p, 0, real(t, p)) }
int link(const char* t, const char* p) { REAL(link); SIMPLE(OP_LINK, p, 0, real(t, p)) }
int stat(const char* p, struct stat* s) { REAL(stat); SIMPLE(OP_STAT, p, 0, real(p, s)) }
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int lstat(const char* p, struct stat* s) { REAL(lstat); SIMPLE(OP_STAT, p, 0, real(p, s)) }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int fstatat(int d, const char* p, struct stat* s, int f) { REAL(fstatat); SIMPLE(OP_STAT, p, 0, real(d, p, s, f)) }
int fstatat64(int d, const char* p, struct stat64* s, int f) { return fstatat(d, p, (struct stat*)s, f); }
int access(const char* p, int m) { REAL(access); SIMPLE(OP_STAT, p, 0, real(p, m)) }
int faccessat(int d, const char* p, int m, int f) { REAL(faccessat); SIMPLE(OP_STAT, p, 0, real(d, p, m, f)) }
static int do_rename(const char* a0, const char* b0, int (*call)(void*), void* v) {
  const char *ra = tracked(a0), *rb = tracked(b0);
  if (!ra && !rb) return call(v);
  char both[240];
  snprintf(both, sizeof both, "%.110s > %.110s", ra ? ra : a0, rb ? rb : b0);
  int cross = which(a0) != which(b0);
  int a = event(OP_RENAME, both, cross);
  if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }
  int r = call(v), e = errno;
  done(a);
  errno = e;
  return r;
}
struct ra { const char *a, *b; int d, e; unsigned f; };
static int r_rename(void* v) { struct ra* o = v; REAL(rename); return real(o->a, o->b); }
static int r_renameat(void* v) { struct ra* o = v; REAL(renameat); return real(o->d, o->a, o->e, o->b); }
static int r_renameat2(void* v) { struct ra* o = v; REAL(renameat2); return real(o->d, o->a, o->e, o->b, o->f); }
int rename(const char* a, const char* b) { struct ra o = {a, b, 0, 0, 0}; return do_rename(a, b, r_rename, &o); }
int renameat(int d, const char* a, int e, const char* b) { struct ra o = {a, b, d, e, 0}; return do_rename(a, b, r_renameat, &o); }
int renameat2(int d, const char* a, int e, const char* b, unsigned f) { struct ra o = {a, b, d, e, f}; return do_rename(a, b, r_renameat2, &o); }

#define ONFD(op, fd, arg, callexpr)                                      \
  if (!is_tracked(fd)) return callexpr;                                  \
  int a = event(op, 0, arg);                                             \
  if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }                \
  int r = callexpr; int e = errno; done(a); errno = e; return r;
int fsync(int fd) { REAL(fsync); ONFD(OP_SYNC, fd, 0, real(fd)) }
int fdatasync(int fd) { REAL(fdatasync); ONFD(OP_SYNC, fd, 0, real(fd)) }
int ftruncate(int fd, off_t n) { REAL(ftruncate); ONFD(OP_TRUNC, fd, n, real(fd, n)) }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fchmod(int fd, mode_t m) { REAL(fchmod); ONFD(OP_META, fd, 0, real(fd, m)) }
int flock(int fd, int op) {
  REAL(flock);
  if (!is_tracked(fd)) return real(fd, op);
  for (;;) {
    int a = event(OP_LOCK, 0, op);
    if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }
    int r = real(fd, op | LOCK_NB), e = errno;
    done(a);
    errno = e;
    if (!r || e != EWOULDBLOCK || (op & LOCK_NB)) return r;
  }
}
int fcntl64(int fd, int cmd, ...) {
  REAL(fcntl64);
  va_list ap;
  va_start(ap, cmd);
  void* v = va_arg(ap, void*);
  va_end(ap);
  if (P && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
    int r = real(fd, cmd, v);
    if (r >= 0 && r < 1024 && fd < 1024) fds[r] = fds[fd];
    return r;
  }
  if (!is_tracked(fd) || (cmd != F_SETLK && cmd != F_SETLKW)) return real(fd, cmd, v);
  for (;;) {
    int a = event(OP_LOCK, 0, cmd);
    if (a == ACT_FAIL) { errno = (int)P->aarg; return -1; }
    int r = real(fd, F_SETLK, v), e = errno;
    done(a);
    errno = e;
    if (!r || (e != EAGAIN && e != EACCES) || cmd == F_SETLK) return r;
  }
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* v = va_arg(ap, void*);
  va_end(ap);
  return fcntl64(fd, cmd, v);
}

// ------------------------------------------------ clock, identity, randomness
static int64_t now_ns(void) { P->clock_ns += 1000; P->mono_ns += 1000; return P->clock_ns; }
time_t time(time_t* t) {
  REAL(time);
  if (!P) return real(t);
  int64_t n = now_ns();
  time_t r = n / 1000000000 - (n % 1000000000 < 0);
  if (t) *t = r;
  return r;
}
int gettimeofday(struct timeval* tv, void* z) {
  REAL(gettimeofday);
  if (!P) return real(tv, z);
  int64_t n = now_ns(), s = n / 1000000000 - (n % 1000000000 < 0);
  tv->tv_sec = s;
  tv->tv_usec = (n - s * 1000000000) / 1000;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) {
  static int (*real)(clockid_t, struct timespec*);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  if (!P) return real(c, t);
  now_ns();
  int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? P->clock_ns : P->mono_ns;
  int64_t s = n / 1000000000 - (n % 1000000000 < 0);
  t->tv_sec = s;
  t->tv_nsec = n - s * 1000000000;
  return 0;
}
static void sleep_ns(int64_t ns) {
  if (ns < 0) ns = 0;
  P->clock_ns += ns;
  P->mono_ns += ns;
  done(event(OP_SLEEP, 0, ns));
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  REAL(nanosleep);
  if (!P) return real(a, b);
  sleep_ns(a->tv_sec * 1000000000 + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  REAL(clock_nanosleep);
  if (!P) return real(c, f, a, b);
  int64_t t = a->tv_sec * 1000000000 + a->tv_nsec;
  sleep_ns(f ? t - (c == CLOCK_REALTIME ? P->clock_ns : P->mono_ns) : t);
  return 0;
}
unsigned sleep(unsigned s) {
  REAL(sleep);
  if (!P) return real(s);
  sleep_ns(s * 1000000000ll);
  return 0;
}
pid_t getpid(void) {
  REAL(getpid);
  return P ? P->simpid : real();
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
  REAL(getrandom);
  if (!P) return real(b, n, f);
  for (size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = (uint8_t)(P->rng = mix(P->rng));
  return (ssize_t)n;
}
int getentropy(void* b, size_t n) {
  REAL(getentropy);
  if (!P) return real(b, n);
  getrandom(b, n, 0);
  return 0;
}
