// Simulator runtime.
//
// Compiled WITHOUT instrumentation.  Provides: the __tsan_* entry points the
// compiler inserts in the code under test, the --wrap'ed system facilities,
// the malloc family, a cooperative fiber scheduler driven by a recorded choice
// list, and the monitors (data races, addressability, deadlock, step cap).
//
// No STL and no dynamic allocation in here: everything lives in fixed mmaps.
#include "simrt.h"

#include <elf.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define NOINL __attribute__((noinline))

extern "C" {
extern char __data_start, _end, __executable_start, etext;
extern char __libc_single_threaded;
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
pthread_t __real_pthread_self(void);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_sched_yield(void);
void* __real___cxa_allocate_exception(size_t);
void* __real___cxa_allocate_dependent_exception(void);
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
unsigned __real__ZNSt6thread20hardware_concurrencyEv(void);
int __real_get_nprocs(void);
long __real_sysconf(int);
long __real_syscall(long, ...);
}

// ---------------------------------------------------------------- layout
static const uintptr_t ARENA = 0x100000000000ull;      // run arena
static const uintptr_t HEAP_SIZE = 0x60000000ull;      // 1.5 GB of heap
static const uintptr_t STACKS = ARENA + HEAP_SIZE;
static const int MAXT = 120;
static const uintptr_t STACK_SIZE = 512 * 1024;
static const uintptr_t ARENA_SIZE = HEAP_SIZE + (uintptr_t)(MAXT + 1) * STACK_SIZE;
static const uintptr_t DRV_ARENA = 0x200000000000ull;  // supervisor arena
static const uintptr_t DRV_SIZE = 0x100000000ull;
static const uintptr_t RS_BASE = 0x300000000000ull;    // race shadow (4x)
static const uintptr_t AS_BASE = 0x400000000000ull;    // addressability (1/8)
static const uintptr_t GS_BASE = 0x500000000000ull;    // globals race shadow
static const uint64_t MAX_BLOCK = 256ull << 20;        // simulated memory limit

struct SimShared* sim_shared = nullptr;
static bool g_booted = false;
static bool g_in_run = false;
static int g_active = 0;
static uintptr_t g_glo, g_ghi;

static NOINL __attribute__((noreturn)) void die_internal(const char* m) {
  if (sim_shared && g_in_run) {
    sim_shared->status = SIM_STATUS_INTERNAL;
    snprintf(sim_shared->msg, sizeof sim_shared->msg, "%s", m);
    _exit(3);
  }
  (void)!write(2, m, __real_strlen(m));
  (void)!write(2, "\n", 1);
  _exit(3);
}

static void map_fixed(uintptr_t at, uintptr_t size, int prot) {
  void* p = mmap((void*)at, size, prot,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void*)at) {
    const char m[] = "simrt: cannot map an arena\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(3);
  }
}

static void boot_maps() {
  if (g_booted) return;
  g_booted = true;
  map_fixed(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE);
  map_fixed(DRV_ARENA, DRV_SIZE, PROT_READ | PROT_WRITE);
  map_fixed(RS_BASE, ARENA_SIZE * 4, PROT_READ | PROT_WRITE);
  map_fixed(AS_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE);
  g_glo = (uintptr_t)&__data_start & ~7ull;
  g_ghi = ((uintptr_t)&_end + 7) & ~7ull;
  map_fixed(GS_BASE, ((g_ghi - g_glo) * 4 + 4095) & ~4095ull, PROT_READ | PROT_WRITE);
}

// ---------------------------------------------------------------- PRNG
static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
extern "C" uint64_t sim_rng_value(uint64_t x) { return mix64(x); }
struct Rng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); } };
static Rng g_rng[SIM_NLIST];
static Rng g_pol;  // policy only, never recorded

// ---------------------------------------------------------------- event log
static inline void hmix(uint64_t v) {
  sim_shared->hash = mix64(sim_shared->hash ^ v) + 0x632be59bd9b4e019ull;
}
extern "C" void sim_log(uint64_t v) { if (g_in_run) hmix(v); }
extern "C" void sim_trace(const char* fmt, ...) {
  SimShared* s = sim_shared;
  if (!s || !s->trace || s->ntrace + 400 > sizeof s->tracebuf) return;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(s->tracebuf + s->ntrace, 380, fmt, ap);
  va_end(ap);
  if (n > 379) n = 379;
  s->ntrace += (uint32_t)n;
  s->tracebuf[s->ntrace++] = '\n';
  s->tracebuf[s->ntrace] = 0;
}
extern "C" void sim_fault(int k) { if (g_in_run) sim_shared->faults[k]++; }
extern "C" void sim_feature(uint64_t h) {
  if (g_in_run && sim_shared->nfeat < SIM_NFEAT) sim_shared->feat[sim_shared->nfeat++] = mix64(h);
}

extern "C" void sim_violation(const char* sig, const char* msg) {
  SimShared* s = sim_shared;
  if (!g_in_run) die_internal(msg);
  if (s->status == SIM_STATUS_NONE) {
    snprintf(s->sig, sizeof s->sig, "%s", sig);
    snprintf(s->msg, sizeof s->msg, "%s", msg);
    hmix(0x7101a7);
    sim_trace("violation %s", sig);
    s->status = SIM_STATUS_VIOLATION;
  }
  _exit(0);
}
extern "C" void sim_internal(const char* m) { die_internal(m); }

// ---------------------------------------------------------------- choices
static uint32_t list_raw(int list, uint32_t policy_value) {
  SimShared* s = sim_shared;
  uint32_t* l = list == SIM_W ? s->listW : list == SIM_F ? s->listF : s->listS;
  uint32_t cap = list == SIM_W ? SIM_CAP_W : list == SIM_F ? SIM_CAP_F : SIM_CAP_S;
  uint32_t i = s->n[list];
  uint32_t v;
  if (s->replay) {
    v = i < s->replay_len[list] ? l[i] : 0;
    s->n[list] = i + 1;
    hmix(v + ((uint64_t)list << 40));
    return v;
  }
  v = policy_value;
  if (i >= cap) {
    if (list != SIM_S) die_internal("choice list full");
    hmix((uint64_t)list << 40);
    return 0;  // schedule list full: from here on no more preemption
  }
  l[i] = v;
  s->n[list] = i + 1;
  hmix(v + ((uint64_t)list << 40));
  return v;
}

extern "C" uint32_t sim_draw(int list, uint32_t n) {
  if (n <= 1) return 0;
  uint64_t r = g_rng[list].next();
  uint32_t v = list_raw(list, (uint32_t)(((r >> 32) * (uint64_t)n) >> 32));
  return v % n;
}

// ---------------------------------------------------------------- heap
struct Hdr {              // 32 bytes in front of the user block
  uint64_t size;          // requested
  uint32_t cls;           // total block size in 16-byte units
  uint32_t magic;
  Hdr* next;              // free list / quarantine
  uint32_t off;           // user pointer - block start
  uint32_t flags;         // 1: allocated during the active part of a run
};
static const uint32_t M_LIVE = 0x51f3a11e, M_FREE = 0x0ddf4ee5;
struct Heap {
  uintptr_t base, top, end;
  Hdr* bins[1024];        // exact class, 16-byte units
  Hdr* big;               // larger blocks, first fit
  Hdr *qhead, *qtail;
  uint64_t qbytes, qmax;
  bool shadowed;
};
static Heap g_heap[2];    // 0 supervisor, 1 run
static int g_junk = 0;
static uint64_t g_junk_seed = 0;
static uint64_t g_live_blocks, g_live_bytes;
static uint64_t g_alloc_calls, g_af_first, g_af_period, g_af_max, g_af_fired;
static bool g_af_on = false;
static int g_nofault = 0;

static inline uint8_t* as_of(uintptr_t a) { return (uint8_t*)(AS_BASE + ((a - ARENA) >> 3)); }
static inline uint64_t* rs_of(uintptr_t a) { return (uint64_t*)(RS_BASE + ((a - ARENA) >> 3) * 32); }

static void as_set(uintptr_t a, size_t n, uint8_t full) {  // a 8-aligned
  uint8_t* s = as_of(a);
  size_t g = n >> 3;
  if (g) __real_memset(s, full, g);
  if (n & 7) s[g] = full == 8 ? (uint8_t)(n & 7) : full;
}
static void rs_clear(uintptr_t a, size_t n) {
  __real_memset(rs_of(a & ~7ull), 0, ((n + 7 + (a & 7)) >> 3) * 32);
}

static void junk_fill(unsigned char* p, size_t n) {
  if (n > (1u << 20)) n = 1u << 20;
  switch (g_junk) {
    case 0: __real_memset(p, 0xBE, n); return;
    case 1: __real_memset(p, 0, n); return;
    case 2: __real_memset(p, 0xFF, n); return;   // NaN doubles, -1
    case 3: {                                     // plausible doubles
      double d = 1.0 + (double)(g_junk_seed % 1000);
      size_t i = 0;
      for (; i + 8 <= n; i += 8) __real_memcpy(p + i, &d, 8);
      for (; i < n; ++i) p[i] = 0x3f;
      return;
    }
    default: {
      uint64_t x = g_junk_seed ^ (uintptr_t)p;
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; __real_memcpy(p + i, &x, 8); }
      for (; i < n; ++i) p[i] = (unsigned char)(x >> 56);
    }
  }
}

static NOINL void heap_report(const char* what, void* p) {
  char b[200];
  snprintf(b, sizeof b, "%s of %p (heap+0x%lx)", what, p, (unsigned long)((uintptr_t)p - ARENA));
  sim_violation(what, b);
}

static void heap_init() {
  boot_maps();
  if (g_heap[0].base) return;
  g_heap[0].base = g_heap[0].top = DRV_ARENA + 4096;
  g_heap[0].end = DRV_ARENA + DRV_SIZE;
  g_heap[1].base = g_heap[1].top = ARENA + 4096;
  g_heap[1].end = ARENA + HEAP_SIZE;
  g_heap[1].shadowed = true;
  g_heap[1].qmax = 512 << 10;
}

static bool alloc_should_fail(size_t size) {
  if (!g_in_run || !g_active) return false;
  ++sim_shared->allocs;
  if (size > MAX_BLOCK) { sim_shared->faults[FK_OVERSIZE_ALLOC]++; return true; }
  if (!g_af_on || g_nofault) return false;
  ++g_alloc_calls;
  if (g_af_fired >= g_af_max) return false;
  bool f = g_alloc_calls == g_af_first ||
           (g_af_period && g_alloc_calls > g_af_first && (g_alloc_calls - g_af_first) % g_af_period == 0);
  if (f) {
    ++g_af_fired;
    sim_shared->faults[FK_ALLOC_FAILED]++;
    hmix(0xa110cf ^ g_alloc_calls << 20);
    sim_trace("fault: allocation #%llu of %zu bytes fails", (unsigned long long)g_alloc_calls, size);
  }
  return f;
}

static void* heap_alloc(size_t size, size_t align, bool zero) {
  if (!g_heap[0].base) heap_init();
  if (size > ((size_t)1 << 46) || alloc_should_fail(size) || (g_in_run && size > MAX_BLOCK)) {
    errno = ENOMEM;
    return nullptr;
  }
  Heap& h = g_heap[g_in_run ? 1 : 0];
  if (align < 16) align = 16;
  size_t lead = sizeof(Hdr);
  if (align > 16) lead += align;
  size_t total = (lead + size + 16 + 15) & ~(size_t)15;
  uint32_t cls = (uint32_t)(total >> 4);
  Hdr* b = nullptr;
  if (align == 16) {
    if (cls < 1024) {
      b = h.bins[cls];
      if (b) h.bins[cls] = b->next;
    } else {
      for (Hdr** pp = &h.big; *pp; pp = &(*pp)->next)
        if ((*pp)->cls >= cls && (*pp)->cls <= cls + cls / 4) { b = *pp; *pp = b->next; cls = b->cls; break; }
    }
  }
  uintptr_t start;
  if (b) start = (uintptr_t)b - (b->off - sizeof(Hdr));
  else {
    start = h.top;
    if (start + total > h.end) { errno = ENOMEM; return nullptr; }
    h.top += total;
  }
  uintptr_t user = start + sizeof(Hdr);
  if (align > 16) user = (user + align - 1) & ~(uintptr_t)(align - 1);
  Hdr* hd = (Hdr*)(user - sizeof(Hdr));
  hd->size = size;
  hd->cls = cls;
  hd->magic = M_LIVE;
  hd->next = nullptr;
  hd->off = (uint32_t)(user - start);
  hd->flags = 0;
  if (h.shadowed) {
    if (size) as_set(user, size, 8);
    rs_clear(user, size);
    if (zero) __real_memset((void*)user, 0, size);
    else junk_fill((unsigned char*)user, size);
    hd->flags = 1;
    ++g_live_blocks;
    g_live_bytes += size;
  } else if (zero) {
    __real_memset((void*)user, 0, size);
  }
  return (void*)user;
}

static void heap_free(void* p) {
  if (!p) return;
  uintptr_t u = (uintptr_t)p;
  Heap* h;
  if (u >= ARENA && u < ARENA + HEAP_SIZE) h = &g_heap[1];
  else if (u >= DRV_ARENA && u < DRV_ARENA + DRV_SIZE) h = &g_heap[0];
  else {
    if (g_in_run) heap_report("invalid-free", p);
    return;
  }
  Hdr* hd = (Hdr*)(u - sizeof(Hdr));
  if ((u & 15) || hd->magic != M_LIVE) {
    if (g_in_run) heap_report(hd->magic == M_FREE ? "double-free" : "invalid-free", p);
    return;
  }
  hd->magic = M_FREE;
  size_t size = hd->size;
  if (h->shadowed) {
    // memory of the run freed while tearing down outside the run: ignore
    if (!g_in_run) return;
    if (size) as_set(u, size, 0xFD);
    --g_live_blocks;
    g_live_bytes -= size;
    size_t n = size > 4096 ? 4096 : size;
    __real_memset(p, 0xDD, n);
  }
  if (hd->off != sizeof(Hdr)) return;  // over-aligned blocks are not reused
  hd->next = nullptr;
  if (h->qtail) h->qtail->next = hd; else h->qhead = hd;
  h->qtail = hd;
  h->qbytes += (uint64_t)hd->cls << 4;
  while (h->qhead && h->qbytes > h->qmax) {
    Hdr* d = h->qhead;
    h->qhead = d->next;
    if (!h->qhead) h->qtail = nullptr;
    h->qbytes -= (uint64_t)d->cls << 4;
    if (d->cls < 1024) { d->next = h->bins[d->cls]; h->bins[d->cls] = d; }
    else { d->next = h->big; h->big = d; }
  }
}

extern "C" {
void* malloc(size_t n) { return heap_alloc(n, 16, false); }
void free(void* p) { heap_free(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return heap_alloc(n, 16, false);
  void* q = heap_alloc(n, 16, false);
  if (!q) return nullptr;
  Hdr* hd = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  __real_memcpy(q, p, hd->size < n ? hd->size : n);
  heap_free(p);
  return q;
}
void* memalign(size_t a, size_t n) { return heap_alloc(n, a, false); }
void* aligned_alloc(size_t a, size_t n) { return heap_alloc(n, a, false); }
int posix_memalign(void** r, size_t a, size_t n) {
  void* p = heap_alloc(n, a, false);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void* valloc(size_t n) { return heap_alloc(n, 4096, false); }
void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096, false); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
void cfree(void* p) { heap_free(p); }

uint64_t sim_live_blocks(void) { return g_live_blocks; }
uint64_t sim_live_bytes(void) { return g_live_bytes; }
void sim_fail_allocs(uint64_t first, uint64_t period, uint64_t max) {
  g_alloc_calls = 0;
  g_af_first = first;
  g_af_period = period;
  g_af_max = max;
  g_af_fired = 0;
  g_af_on = true;
}
void sim_fail_allocs_off(void) { g_af_on = false; }
uint64_t sim_alloc_calls(void) { return g_alloc_calls; }
uint64_t sim_alloc_failures(void) { return g_af_fired; }
void sim_set_junk(int m) { g_junk = m; g_junk_seed = mix64(sim_shared->seed ^ 0x77); if (m && g_in_run) sim_shared->faults[FK_JUNK_MEMORY]++; }
void sim_set_quarantine(uint64_t b) { g_heap[1].qmax = b; }
}

// ---------------------------------------------------------------- fibers
enum State { S_FREE = 0, S_RUN, S_BLOCK, S_SLEEP, S_DONE };
struct Atexit { void (*fn)(void*); void* obj; };
struct Fiber {
  void* sp;
  State st;
  int tid;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool detached;
  int joiner;               // tid waiting for us, or -1
  const void* wait_on;
  uint64_t wake_ns;
  bool timed_out;
  bool woken;
  int err;
  int prio;
  uint64_t ran;             // g_ops when it last ran or became runnable
  uint32_t vc[MAXT];
  Atexit at[32];
  int nat;
  void* keys[64];
  void* rsan[4];            // result of compare in join, unused
};
static Fiber g_fib[MAXT];
static unsigned char* g_tls_save;  // MAXT copies
static uintptr_t g_tls_lo;
static size_t g_tls_size;
static const void* g_tls_img;
static size_t g_tls_img_size;
static int g_cur = 0, g_maxtid = 0, g_live = 0, g_nrun = 0;
static int64_t g_gap = 1ll << 62;
static uint64_t g_now = 1000000000000ull;
static unsigned g_cores = 4;
static int g_mode = 0;
static uint32_t g_mode_gap = 100;
static int g_shadow_live = 0;  // threads whose end nobody has joined yet, self included
static int g_victim = -1;
static uint32_t g_tf_first = 0, g_tf_count = 0, g_thr_calls = 0;
static uint64_t g_steps_limit = ~0ull;
// Bounded fairness: no policy and no schedule keeps a runnable thread waiting
// for more than FAIR atomic and synchronisation operations of the others, or a
// thread that spins on an atomic would wait for ever.
static const uint64_t FAIR = 10000;
static uint64_t g_ops = 0, g_fair_at = FAIR, g_fair_until = 0;

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry(void);

static int tls_cb(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      const ElfW(Phdr)& p = info->dlpi_phdr[i];
      size_t al = p.p_align ? p.p_align : 1;
      size_t sz = (p.p_memsz + al - 1) & ~(al - 1);
      g_tls_size = sz;
      g_tls_img = (const void*)(info->dlpi_addr + p.p_vaddr);
      g_tls_img_size = p.p_filesz;
      g_tls_lo = (uintptr_t)__builtin_thread_pointer() - sz;
    }
  return 1;  // main program only
}

static inline unsigned char* tls_slot(int tid) { return g_tls_save + (size_t)tid * g_tls_size; }

static NOINL void switch_to(int next) {
  if (next == g_cur) return;
  Fiber* a = &g_fib[g_cur];
  Fiber* b = &g_fib[next];
  a->err = errno;
  a->ran = g_ops;
  if (g_tls_size) {
    __real_memcpy(tls_slot(g_cur), (void*)g_tls_lo, g_tls_size);
    __real_memcpy((void*)g_tls_lo, tls_slot(next), g_tls_size);
  }
  g_cur = next;
  sim_shared->switches++;
  sim_switch(&a->sp, b->sp);
  errno = g_fib[g_cur].err;
}

static NOINL void deadlock() {
  char b[400];
  int n = snprintf(b, sizeof b, "every thread is blocked:");
  for (int i = 0; i <= g_maxtid && n < 350; ++i)
    if (g_fib[i].st == S_BLOCK) n += snprintf(b + n, sizeof b - n, " T%d", i);
  sim_violation("deadlock", b);
}

// Candidates: current first when runnable, then ascending thread numbers.
static int cand(int* c) {
  int n = 0;
  if (g_fib[g_cur].st == S_RUN) c[n++] = g_cur;
  for (int i = 0; i <= g_maxtid; ++i)
    if (i != g_cur && g_fib[i].st == S_RUN) c[n++] = i;
  return n;
}

static uint32_t policy_pick(const int* c, int n, bool forced) {
  switch (g_mode) {
    case 0: return 0;
    case 2: {  // priorities, with random demotion
      if (!forced && g_pol.next() % 8 == 0) g_fib[g_cur].prio = -(int)(g_pol.next() % 1000000);
      int best = 0;
      for (int i = 1; i < n; ++i) if (g_fib[c[i]].prio > g_fib[c[best]].prio) best = i;
      return (uint32_t)best;
    }
    case 3: {  // starve one thread while another can run
      uint32_t p = (uint32_t)(g_pol.next() % n);
      if (c[p] == g_victim && n > 1) { p = (p + 1) % n; sim_shared->faults[FK_STALL]++; }
      return p;
    }
    case 5:  // newest first
      { int best = 0; for (int i = 1; i < n; ++i) if (c[i] > c[best]) best = i; return (uint32_t)best; }
    default: return (uint32_t)(g_pol.next() % n);
  }
}

static uint32_t policy_gap() {
  switch (g_mode) {
    case 0: return 0;
    case 4: return 0;                       // only at sync operations
    default: {
      if (g_mode_gap == 0) return 0;
      // geometric-like: uniform in a random octave around the mean
      uint64_t r = g_pol.next();
      uint32_t g = (uint32_t)(1 + (r % (2 * g_mode_gap)));
      if ((r >> 40) % 16 == 0) g *= 16;
      if ((r >> 44) % 16 == 0) g = 1 + g / 16;
      return g;
    }
  }
}
static void new_gap() {
  uint32_t g = list_raw(SIM_S, sim_shared->replay ? 0 : policy_gap());
  g_gap = g ? (int64_t)g : (1ll << 62);
}

// Chooses among the candidates; consumes one schedule entry when there is a
// choice.
static int pick(bool forced) {
  int c[MAXT];
  int n = cand(c);
  if (n == 0) return -1;
  if (n == 1) return c[0];
  uint32_t v = list_raw(SIM_S, sim_shared->replay ? 0 : policy_pick(c, n, forced));
  int t = c[v % (uint32_t)n];
  if (t != g_cur) {
    uint64_t pcst = ((uint64_t)g_cur << 8 | (uint64_t)t);
    hmix(0x5c4ed ^ pcst << 32 ^ sim_shared->steps);
  }
  return t;
}

static uintptr_t g_last_pc;
static void note_switch(int from, int to) {
  sim_shared->ihash = mix64(sim_shared->ihash ^ ((uint64_t)from << 48) ^ ((uint64_t)to << 40) ^ g_last_pc);
}

static NOINL void fair_check(uintptr_t pc) {
  int who = -1;
  g_fib[g_cur].ran = g_ops;
  for (int i = 0; i <= g_maxtid; ++i)
    if (g_fib[i].st == S_RUN && (who < 0 || g_fib[i].ran < g_fib[who].ran)) who = i;
  if (who < 0 || g_fib[who].ran + FAIR > g_ops) {
    g_fair_at = (who < 0 ? g_ops : g_fib[who].ran) + FAIR;
    return;
  }
  g_fair_at = g_ops + FAIR;
  g_fair_until = g_ops + FAIR;
  if (g_gap < 100000) g_gap = 100000;
  hmix(0xfa12 ^ (uint64_t)who << 32);
  g_last_pc = pc;
  note_switch(g_cur, who);
  if (sim_shared->trace) sim_trace("T%d has waited long: T%d -> T%d", who, g_cur, who);
  switch_to(who);
}
static inline void fair_point(uintptr_t pc) {
  if (++g_ops >= g_fair_at && g_nrun >= 2) fair_check(pc);
}

// Run somebody else because the current fiber cannot continue.
static void reschedule() {
  for (;;) {
    int t = pick(true);
    if (t >= 0) {
      if (t != g_cur) note_switch(g_cur, t);
      sim_trace("T%d blocks -> T%d", g_cur, t);
      switch_to(t);
      return;
    }
    // nobody runnable: let time pass
    uint64_t best = ~0ull;
    int who = -1;
    for (int i = 0; i <= g_maxtid; ++i)
      if (g_fib[i].st == S_SLEEP && g_fib[i].wake_ns < best) { best = g_fib[i].wake_ns; who = i; }
    if (who < 0) deadlock();
    if (best > g_now) { sim_shared->sim_ns += best - g_now; g_now = best; }
    g_fib[who].st = S_RUN;
    g_fib[who].ran = g_ops;
    g_fib[who].timed_out = true;
    ++g_nrun;
  }
}

static NOINL void preempt() {
  if (g_nrun < 2) { g_gap = 1ll << 62; return; }
  int t = pick(false);
  new_gap();
  if (t != g_cur) {
    sim_shared->faults[FK_PREEMPT]++;
    note_switch(g_cur, t);
    if (sim_shared->trace) sim_trace("T%d preempted at %lx -> T%d", g_cur, (unsigned long)g_last_pc, t);
    switch_to(t);
  }
}

// Scheduling point at a synchronisation operation.
static void sync_point(uintptr_t pc) {
  if (!g_in_run) return;
  sim_shared->sync_ops++;
  if (g_active && ++sim_shared->steps > g_steps_limit) sim_violation("hang", "step limit exceeded");
  fair_point(pc);
  if (g_nrun < 2 || !g_active || g_ops < g_fair_until) return;
  g_last_pc = pc;
  int t = pick(false);
  if (t != g_cur) {
    sim_shared->faults[FK_PREEMPT]++;
    note_switch(g_cur, t);
    if (sim_shared->trace) sim_trace("T%d switched at sync op %lx -> T%d", g_cur, (unsigned long)pc, t);
    switch_to(t);
  }
}
// atomics are frequent (reference counts): make a choice only now and then
static inline void atomic_point(uintptr_t pc) {
  if (g_nrun < 2) return;
  if (!g_active) { fair_point(pc); return; }
  g_last_pc = pc;
  if (++sim_shared->steps > g_steps_limit) sim_violation("hang", "step limit exceeded");
  g_gap -= 8;
  if (g_gap <= 0) preempt();
  else fair_point(pc);
}

static void make_runnable(int t) {
  Fiber& f = g_fib[t];
  if (f.st == S_BLOCK || f.st == S_SLEEP) {
    f.st = S_RUN;
    f.ran = g_ops;
    f.timed_out = false;
    ++g_nrun;
    if (g_nrun == 2 && g_gap > (1ll << 40)) new_gap();
  }
}
// Blocks the current fiber on an object; deadline 0: no timeout.
static bool block_on(const void* obj, uint64_t deadline) {
  Fiber& f = g_fib[g_cur];
  f.wait_on = obj;
  f.timed_out = false;
  f.woken = false;
  f.st = deadline ? S_SLEEP : S_BLOCK;
  f.wake_ns = deadline;
  --g_nrun;
  reschedule();
  g_fib[g_cur].wait_on = nullptr;
  return !g_fib[g_cur].timed_out;
}
static void wake(const void* obj, int count) {
  for (int i = 0; i <= g_maxtid && count > 0; ++i)
    if ((g_fib[i].st == S_BLOCK || g_fib[i].st == S_SLEEP) && g_fib[i].wait_on == obj) {
      make_runnable(i);
      g_fib[i].wait_on = nullptr;
      --count;
    }
}

// ---------------------------------------------------------------- sync clocks
struct Sync {
  uintptr_t addr;
  int owner;        // mutex owner, -1 none
  int count;        // recursion / readers
  int once;         // 0 no, 1 running, 2 done
  int64_t value;    // semaphores
  uint32_t vc[MAXT];
};
static const int NSYNC = 1 << 15;
static Sync* g_sync;
static uint32_t g_nsync;

static Sync* sync_get(const void* a, bool create) {
  uint32_t h = (uint32_t)mix64((uintptr_t)a) & (NSYNC - 1);
  for (;;) {
    Sync* s = &g_sync[h];
    if (s->addr == (uintptr_t)a) return s;
    if (!s->addr) {
      if (!create) return nullptr;
      if (++g_nsync > NSYNC * 3 / 4) die_internal("sync table full");
      s->addr = (uintptr_t)a;
      s->owner = -1;
      return s;
    }
    h = (h + 1) & (NSYNC - 1);
  }
}
static inline void vc_join(uint32_t* d, const uint32_t* s) {
  for (int i = 0; i <= g_maxtid; ++i) if (s[i] > d[i]) d[i] = s[i];
}
static void acquire_from(Sync* s) { vc_join(g_fib[g_cur].vc, s->vc); }
static void release_to(Sync* s) {
  vc_join(s->vc, g_fib[g_cur].vc);
  g_fib[g_cur].vc[g_cur]++;
}

// ---------------------------------------------------------------- accesses
// cell: clk 22 | tid 7 | mask 8 | w 1 | a 1 | pc 25
static inline uint64_t mk(uint32_t clk, int tid, unsigned mask, unsigned w, unsigned a, uint32_t pc) {
  return ((uint64_t)(clk & 0x3fffff) << 42) | ((uint64_t)tid << 35) | ((uint64_t)mask << 27) |
         ((uint64_t)w << 26) | ((uint64_t)a << 25) | (pc & 0x1ffffff);
}
static inline uint32_t c_clk(uint64_t c) { return (uint32_t)(c >> 42); }
static inline int c_tid(uint64_t c) { return (int)(c >> 35) & 127; }
static inline unsigned c_mask(uint64_t c) { return (unsigned)(c >> 27) & 255; }
static inline unsigned c_w(uint64_t c) { return (unsigned)(c >> 26) & 1; }
static inline unsigned c_a(uint64_t c) { return (unsigned)(c >> 25) & 1; }

static uintptr_t g_text0;
static NOINL void race_report(uint64_t cell, uintptr_t pc, unsigned w, uintptr_t addr) {
  SimShared* s = sim_shared;
  s->race_pc[0] = g_text0 + (cell & 0x1ffffff);
  s->race_pc[1] = pc;
  char b[300];
  snprintf(b, sizeof b,
           "unordered accesses to the same memory: %s by T%d at 0x%lx and %s by T%d at 0x%lx",
           c_w(cell) ? "write" : "read", c_tid(cell), (unsigned long)s->race_pc[0],
           w ? "write" : "read", g_cur, (unsigned long)pc);
  (void)addr;
  sim_violation("data-race", b);
}

static inline void race_granule(uint64_t* cells, unsigned mask, unsigned w, unsigned a, uintptr_t pc,
                                uintptr_t addr) {
  Fiber& f = g_fib[g_cur];
  uint64_t me = mk(f.vc[g_cur], g_cur, mask, w, a, (uint32_t)(pc - g_text0));
  int slot = -1, empty = -1, dead = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t c = cells[i];
    if (!c) { empty = i; break; }
    int t = c_tid(c);
    if (t == g_cur) {
      if (slot < 0 && (c_mask(c) & ~mask) == 0 && (w || !c_w(c)) && (!a || c_a(c))) slot = i;
      continue;
    }
    if (c_clk(c) <= f.vc[t]) { dead = i; continue; }  // happens before us
    if ((c_mask(c) & mask) && (w || c_w(c)) && !(a && c_a(c))) race_report(c, pc, w, addr);
  }
  if (slot < 0) slot = empty >= 0 ? empty : dead >= 0 ? dead : (int)(sim_shared->steps & 3);
  cells[slot] = me;
}

static NOINL void bad_access(uintptr_t a, size_t n, unsigned w, uintptr_t pc) {
  uint8_t v = *as_of(a);
  // find the first bad granule for the report
  for (size_t i = 0; i < n; ++i) {
    uint8_t t = *as_of(a + i);
    if (t > 8 || ((a + i) & 7) >= t) { v = t; break; }
  }
  sim_shared->race_pc[0] = pc;
  char b[200];
  const char* k = v == 0xFD ? "use-after-free" : "out-of-bounds";
  snprintf(b, sizeof b, "%s: %s of %zu bytes at %p, pc 0x%lx, T%d", k, w ? "write" : "read", n, (void*)a,
           (unsigned long)pc, g_cur);
  char sg[40];
  snprintf(sg, sizeof sg, "%s-%s", k, w ? "write" : "read");
  sim_violation(sg, b);
}

static inline void check_range(uintptr_t a, size_t n, unsigned w, unsigned at, uintptr_t pc) {
  if (a - ARENA < ARENA_SIZE) {
    unsigned off = a & 7;
    if (LIKELY(off + n <= 8)) {
      uint8_t v = *as_of(a);
      if (UNLIKELY(v > 8 || off + n > v)) bad_access(a, n, w, pc);
      if (g_shadow_live > 1) race_granule(rs_of(a), ((1u << n) - 1) << off, w, at, pc, a);
    } else {
      if (UNLIKELY(a + n - ARENA > ARENA_SIZE)) bad_access(a, 1, w, pc);
      uintptr_t p = a, e = a + n;
      while (p < e) {
        unsigned o = p & 7;
        size_t k = 8 - o;
        if (k > e - p) k = e - p;
        uint8_t v = *as_of(p);
        if (UNLIKELY(v > 8 || o + k > v)) bad_access(p, k, w, pc);
        if (g_shadow_live > 1) race_granule(rs_of(p), ((1u << k) - 1) << o, w, at, pc, p);
        p += k;
      }
    }
  } else if (a - g_glo < g_ghi - g_glo) {
    if (g_shadow_live > 1) {
      uintptr_t p = a, e = a + n;
      if (e > g_ghi) e = g_ghi;
      while (p < e) {
        unsigned o = p & 7;
        size_t k = 8 - o;
        if (k > e - p) k = e - p;
        race_granule((uint64_t*)(GS_BASE + ((p - g_glo) >> 3) * 32), ((1u << k) - 1) << o, w, at, pc, p);
        p += k;
      }
    }
  }
}

static inline void access(uintptr_t a, size_t n, unsigned w, uintptr_t pc) {
  if (!g_active) return;
  if (UNLIKELY(++sim_shared->steps > g_steps_limit)) sim_violation("hang", "step limit exceeded");
  check_range(a, n, w, 0, pc);
  if (UNLIKELY(--g_gap <= 0)) { g_last_pc = pc; preempt(); }
}

#define RPC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(N)                                                                        \
  void __tsan_read##N(void* a) { access((uintptr_t)a, N, 0, RPC); }                  \
  void __tsan_write##N(void* a) { access((uintptr_t)a, N, 1, RPC); }                 \
  void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, 0, RPC); }        \
  void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, 1, RPC); }       \
  void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, 0, RPC); }         \
  void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, 1, RPC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) access((uintptr_t)a, n, 0, RPC); }
void __tsan_write_range(void* a, size_t n) { if (n) access((uintptr_t)a, n, 1, RPC); }
// storing the value already there is no write, but counts as a step all the
// same: what was there may be a leftover of the run before
void __tsan_vptr_update(void** p, void* v) { access((uintptr_t)p, 8, *p != v, RPC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, 0, RPC); }

// ---- atomics
static inline void at_pre(volatile void* p, size_t n, unsigned w, uintptr_t pc) {
  if (g_nrun >= 2 && g_in_run) atomic_point(pc);
  if (!g_active) return;
  check_range((uintptr_t)p, n, w, 1, pc);
}
static inline void at_acq(volatile void* p, int mo) {
  if (!g_active || g_shadow_live < 2 || mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) return;
  Sync* s = sync_get((const void*)p, false);
  if (s) acquire_from(s);
}
static inline void at_rel(volatile void* p, int mo, bool store) {
  if (!g_active || g_shadow_live < 2) return;
  if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME) {
    if (store) {  // a relaxed store breaks the release sequence
      Sync* s = sync_get((const void*)p, false);
      if (s) __real_memset(s->vc, 0, sizeof s->vc);
    }
    return;
  }
  Sync* s = sync_get((const void*)p, true);
  if (store) __real_memset(s->vc, 0, sizeof s->vc);
  release_to(s);
}
#define ATOMIC(B, T)                                                                          \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) {                                    \
    at_pre((volatile void*)p, sizeof(T), 0, RPC);                                             \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                               \
    at_acq((volatile void*)p, mo);                                                            \
    return v;                                                                                 \
  }                                                                                           \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) {                                 \
    at_pre(p, sizeof(T), 1, RPC);                                                             \
    at_rel(p, mo, true);                                                                      \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                           \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) {                                 \
    at_pre(p, sizeof(T), 1, RPC);                                                             \
    at_acq(p, mo);                                                                            \
    at_rel(p, mo, false);                                                                     \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                           \
  static bool cas##B(volatile T* p, T* e, T v, int mo, int fmo, uintptr_t pc) {               \
    at_pre(p, sizeof(T), 1, pc);                                                              \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);\
    if (ok) { at_acq(p, mo); at_rel(p, mo, false); } else at_acq(p, fmo);                     \
    return ok;                                                                                \
  }                                                                                           \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    return cas##B(p, e, v, mo, fmo, RPC);                                                     \
  }                                                                                           \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {   \
    return cas##B(p, e, v, mo, fmo, RPC);                                                     \
  }                                                                                           \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {       \
    cas##B(p, &e, v, mo, fmo, RPC);                                                           \
    return e;                                                                                 \
  }                                                                                           \
  RMW(B, T, fetch_add, __atomic_fetch_add) RMW(B, T, fetch_sub, __atomic_fetch_sub)           \
  RMW(B, T, fetch_and, __atomic_fetch_and) RMW(B, T, fetch_or, __atomic_fetch_or)             \
  RMW(B, T, fetch_xor, __atomic_fetch_xor) RMW(B, T, fetch_nand, __atomic_fetch_nand)
#define RMW(B, T, name, op)                                        \
  T __tsan_atomic##B##_##name(volatile T* p, T v, int mo) {        \
    at_pre(p, sizeof(T), 1, RPC);                                  \
    at_acq(p, mo);                                                 \
    at_rel(p, mo, false);                                          \
    return op(p, v, __ATOMIC_SEQ_CST);                             \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
static char g_fence_obj;
void __tsan_atomic_thread_fence(int mo) {
  if (!g_active || g_shadow_live < 2) return;
  if (mo == __ATOMIC_RELAXED) return;
  Sync* s = sync_get(&g_fence_obj, true);
  acquire_from(s);
  release_to(s);
}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- mem* wraps
extern "C" {
static inline void mem_access(const void* p, size_t n, unsigned w, uintptr_t pc) {
  if (n == 0 || !g_active) return;
  access((uintptr_t)p, n, w, pc);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  mem_access(s, n, 0, RPC);
  mem_access(d, n, 1, RPC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  mem_access(s, n, 0, RPC);
  mem_access(d, n, 1, RPC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  mem_access(d, n, 1, RPC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (g_active) {
    mem_access(a, n, 0, RPC);
    mem_access(b, n, 0, RPC);
  }
  return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char* s) {
  size_t n = __real_strlen(s);
  mem_access(s, n + 1, 0, RPC);
  return n;
}
}

// ---------------------------------------------------------------- threads
static void stack_prepare(int tid) {
  uintptr_t lo = STACKS + (uintptr_t)tid * STACK_SIZE;
  // lowest page is a guard
  as_set(lo + 4096, STACK_SIZE - 4096, 8);
}

extern "C" void sim_fiber_main(void);
static void* fiber_sp(int tid) {
  uintptr_t hi = STACKS + (uintptr_t)(tid + 1) * STACK_SIZE;
  // junk in the stack, so that nothing depends on it being zero
  junk_fill((unsigned char*)(hi - 65536), 65536);
  rs_clear(hi - 65536, 65536);
  // after 'ret' rsp is 16-aligned, as the 'call' in sim_entry wants it
  uint64_t* sp = (uint64_t*)(hi - 64);
  *--sp = (uint64_t)(uintptr_t)&sim_entry;   // ret target
  for (int i = 0; i < 6; ++i) *--sp = 0;
  uint32_t* c = (uint32_t*)(--sp);
  c[0] = 0x1f80;
  c[1] = 0x037f;
  return sp;
}

static int fiber_new(void* (*fn)(void*), void* arg) {
  int t = -1;
  for (int i = 0; i < MAXT; ++i) if (g_fib[i].st == S_FREE) { t = i; break; }
  if (t < 0) return -1;
  Fiber& f = g_fib[t];
  uint32_t clk = f.vc[t];
  if (t > g_maxtid) g_maxtid = t;
  f.tid = t;
  f.fn = fn;
  f.arg = arg;
  f.ret = nullptr;
  f.detached = false;
  f.joiner = -1;
  f.wait_on = nullptr;
  f.err = 0;
  f.nat = 0;
  f.prio = (int)(g_pol.next() % 1000000);
  for (auto& k : f.keys) k = nullptr;
  // start clock: everything the parent did happens before
  if (g_live > 0) {
    for (int i = 0; i < MAXT; ++i) f.vc[i] = g_fib[g_cur].vc[i];
    if (clk > f.vc[t]) f.vc[t] = clk;
    g_fib[g_cur].vc[g_cur]++;
  }
  f.vc[t]++;
  stack_prepare(t);
  f.sp = fiber_sp(t);
  if (g_tls_size) {
    unsigned char* s = tls_slot(t);
    __real_memset(s, 0, g_tls_size);
    __real_memcpy(s, g_tls_img, g_tls_img_size);
  }
  f.st = S_RUN;
  f.ran = g_ops;
  ++g_live;
  ++g_shadow_live;
  ++g_nrun;
  return t;
}

static void fiber_reap(int t) { g_fib[t].st = S_FREE; --g_shadow_live; }

static void run_atexit(Fiber& f) {
  while (f.nat > 0) {
    Atexit a = f.at[--f.nat];
    a.fn(a.obj);
  }
}

static NOINL void fiber_exit() __attribute__((noreturn));
static void fiber_exit() {
  int me = g_cur;
  run_atexit(g_fib[me]);
  Fiber& f = g_fib[me];
  hmix(0xe417 ^ (uint64_t)me << 32);
  sim_trace("T%d ends", me);
  f.st = S_DONE;
  --g_live;
  --g_nrun;
  if (f.joiner >= 0) make_runnable(f.joiner);
  // a detached thread's slot is not reused within the run
  reschedule();
  __builtin_unreachable();
}

extern "C" void sim_fiber_main(void) {
  Fiber& f = g_fib[g_cur];
  f.ret = f.fn(f.arg);
  fiber_exit();
}

static const uintptr_t TH = 0x7f0000000000ull;  // fake pthread_t values

extern "C" {
int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!g_in_run) return __real_pthread_create(th, at, fn, arg);
  uint32_t k = g_thr_calls++;
  if (g_active && g_tf_count && k >= g_tf_first && k - g_tf_first < g_tf_count) {
    sim_shared->faults[FK_THREAD_REFUSED]++;
    hmix(0xea6a1 ^ (uint64_t)k << 32);
    sim_trace("fault: thread creation #%u refused (EAGAIN)", k);
    return EAGAIN;
  }
  int t = fiber_new(fn, arg);
  if (t < 0) return EAGAIN;
  sim_shared->threads++;
  int ds = 0;
  if (at && pthread_attr_getdetachstate(at, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) g_fib[t].detached = true;
  *th = (pthread_t)(TH + (uintptr_t)t * 64);
  hmix(0xc4ea7e ^ (uint64_t)t << 32);
  sim_trace("T%d creates T%d", g_cur, t);
  if (g_nrun == 2 && g_gap > (1ll << 40)) new_gap();
  sync_point(RPC);
  return 0;
}
static int tid_of(pthread_t th) {
  uintptr_t v = (uintptr_t)th;
  if (v < TH || (v - TH) % 64) return -1;
  v = (v - TH) / 64;
  return v < (uintptr_t)MAXT ? (int)v : -1;
}
int __wrap_pthread_join(pthread_t th, void** ret) {
  if (!g_in_run) return __real_pthread_join(th, ret);
  int t = tid_of(th);
  if (t < 0 || g_fib[t].st == S_FREE) return ESRCH;
  if (t == g_cur) return EDEADLK;
  if (g_fib[t].detached) return EINVAL;
  sync_point(RPC);
  while (g_fib[t].st != S_DONE) {
    g_fib[t].joiner = g_cur;
    block_on(&g_fib[t], 0);
  }
  vc_join(g_fib[g_cur].vc, g_fib[t].vc);
  if (ret) *ret = g_fib[t].ret;
  hmix(0x101a ^ (uint64_t)t << 32);
  sim_trace("T%d joins T%d", g_cur, t);
  fiber_reap(t);
  return 0;
}
int __wrap_pthread_detach(pthread_t th) {
  if (!g_in_run) return __real_pthread_detach(th);
  int t = tid_of(th);
  if (t < 0 || g_fib[t].st == S_FREE) return ESRCH;
  g_fib[t].detached = true;
  return 0;
}
pthread_t __wrap_pthread_self(void) {
  if (!g_in_run) return __real_pthread_self();
  return (pthread_t)(TH + (uintptr_t)g_cur * 64);
}
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(void) {
  if (!g_in_run) return __real__ZNSt6thread20hardware_concurrencyEv();
  return g_cores;
}
int __wrap_get_nprocs(void) { return g_in_run ? (int)g_cores : __real_get_nprocs(); }
long __wrap_sysconf(int n) {
  if (g_in_run && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return (long)g_cores;
  return __real_sysconf(n);
}
int __wrap_sched_yield(void) {
  if (!g_in_run) return __real_sched_yield();
  sync_point(RPC);
  return 0;
}

// ---- mutex
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_in_run) return __real_pthread_mutex_lock(m);
  sync_point(RPC);
  Sync* s = sync_get(m, true);
  int kind = m->__data.__kind & 3;
  if (s->owner == g_cur) {
    if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { s->count++; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
  }
  while (s->owner >= 0) block_on(m, 0);
  s->owner = g_cur;
  s->count = 1;
  acquire_from(s);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_in_run) return __real_pthread_mutex_trylock(m);
  sync_point(RPC);
  Sync* s = sync_get(m, true);
  if (s->owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { s->count++; return 0; }
  if (s->owner >= 0) return EBUSY;
  s->owner = g_cur;
  s->count = 1;
  acquire_from(s);
  return 0;
}
static uint64_t abs_ns(const struct timespec* ts) { return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  sync_point(RPC);
  Sync* s = sync_get(m, true);
  while (s->owner >= 0)
    if (!block_on(m, abs_ns(ts))) return ETIMEDOUT;
  s->owner = g_cur;
  s->count = 1;
  acquire_from(s);
  return 0;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return __wrap_pthread_mutex_timedlock(m, ts);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_in_run) return __real_pthread_mutex_unlock(m);
  Sync* s = sync_get(m, true);
  if (s->owner == g_cur && --s->count > 0) return 0;
  release_to(s);
  s->owner = -1;
  s->count = 0;
  wake(m, MAXT);
  sync_point(RPC);
  return 0;
}
// ---- condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
  Sync* s = sync_get(m, true);
  int cnt = s->count;
  release_to(s);
  s->owner = -1;
  wake(m, MAXT);
  bool ok = block_on(c, dl);
  while (s->owner >= 0) block_on(m, 0);
  s->owner = g_cur;
  s->count = cnt;
  acquire_from(s);
  return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return cond_wait(c, m, abs_ns(ts));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return cond_wait(c, m, abs_ns(ts));
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!g_in_run) return 0;
  wake(c, 1);
  sync_point(RPC);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_in_run) return 0;
  wake(c, MAXT);
  sync_point(RPC);
  return 0;
}
// ---- rwlock: count > 0 readers, owner >= 0 writer
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!g_in_run) return 0;
  sync_point(RPC);
  Sync* s = sync_get(l, true);
  while (s->owner >= 0) block_on(l, 0);
  s->count++;
  acquire_from(s);
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!g_in_run) return 0;
  Sync* s = sync_get(l, true);
  if (s->owner >= 0) return EBUSY;
  s->count++;
  acquire_from(s);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!g_in_run) return 0;
  sync_point(RPC);
  Sync* s = sync_get(l, true);
  while (s->owner >= 0 || s->count > 0) block_on(l, 0);
  s->owner = g_cur;
  acquire_from(s);
  return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!g_in_run) return 0;
  Sync* s = sync_get(l, true);
  if (s->owner >= 0 || s->count > 0) return EBUSY;
  s->owner = g_cur;
  acquire_from(s);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!g_in_run) return 0;
  Sync* s = sync_get(l, true);
  release_to(s);
  if (s->owner == g_cur) s->owner = -1;
  else if (s->count > 0) s->count--;
  wake(l, MAXT);
  sync_point(RPC);
  return 0;
}
// ---- once, guards
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!g_in_run) return __real_pthread_once(o, fn);
  if (*(volatile int*)o == 2) {
    Sync* s = sync_get(o, false);
    if (s) acquire_from(s);
    return 0;
  }
  sync_point(RPC);
  Sync* s = sync_get(o, true);
  if (s->once == 2 && *(volatile int*)o == 0) s->once = 0;   // a new object where an old one was
  while (s->once == 1) block_on(o, 0);
  if (s->once == 2) { acquire_from(s); return 0; }
  s->once = 1;
  // call_once may throw out of fn
  struct Guard {
    Sync* s; pthread_once_t* o; bool ok;
    ~Guard() { s->once = ok ? 2 : 0; if (ok) *(volatile int*)o = 2; release_to(s); wake(o, MAXT); }
  } g{s, o, false};
  fn();
  g.ok = true;
  return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!g_in_run) return __real___cxa_guard_acquire(g);
  Sync* s = sync_get(g, true);
  if (*(volatile char*)g) { acquire_from(s); return 0; }
  sync_point(RPC);
  while (s->once == 1) block_on(g, 0);
  if (*(volatile char*)g) { acquire_from(s); return 0; }
  s->once = 1;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  if (!g_in_run) { __real___cxa_guard_release(g); return; }
  Sync* s = sync_get(g, true);
  s->once = 2;
  *(volatile char*)g = 1;
  release_to(s);
  wake(g, MAXT);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!g_in_run) { __real___cxa_guard_abort(g); return; }
  Sync* s = sync_get(g, true);
  s->once = 0;
  release_to(s);
  wake(g, MAXT);
}
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  if (!g_in_run) return __real___cxa_thread_atexit(fn, obj, dso);
  Fiber& f = g_fib[g_cur];
  if (f.nat >= 32) die_internal("too many thread_local destructors");
  f.at[f.nat++] = Atexit{fn, obj};
  return 0;
}
// ---- semaphores
int __wrap_sem_init(sem_t* m, int, unsigned v) { sync_get(m, true)->value = v; return 0; }
int __wrap_sem_destroy(sem_t*) { return 0; }
int __wrap_sem_wait(sem_t* m) {
  sync_point(RPC);
  Sync* s = sync_get(m, true);
  while (s->value <= 0) block_on(m, 0);
  s->value--;
  acquire_from(s);
  return 0;
}
int __wrap_sem_trywait(sem_t* m) {
  Sync* s = sync_get(m, true);
  if (s->value <= 0) { errno = EAGAIN; return -1; }
  s->value--;
  acquire_from(s);
  return 0;
}
int __wrap_sem_post(sem_t* m) {
  Sync* s = sync_get(m, true);
  release_to(s);
  s->value++;
  wake(m, 1);
  sync_point(RPC);
  return 0;
}
// ---- barrier
int __wrap_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) {
  Sync* s = sync_get(b, true);
  s->value = n;
  s->count = 0;
  return 0;
}
int __wrap_pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int __wrap_pthread_barrier_wait(pthread_barrier_t* b) {
  sync_point(RPC);
  Sync* s = sync_get(b, true);
  release_to(s);
  if (++s->count >= s->value) {
    s->count = 0;
    wake(b, MAXT);
    acquire_from(s);
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  block_on(b, 0);
  acquire_from(s);
  return 0;
}
// ---- time
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_in_run) return __real_clock_gettime(c, ts);
  g_now += 1000;
  sim_shared->sim_ns += 1000;
  ts->tv_sec = (time_t)(g_now / 1000000000ull);
  ts->tv_nsec = (long)(g_now % 1000000000ull);
  return 0;
}
static int sleep_until(uint64_t t) {
  if (t <= g_now) { sync_point(0); return 0; }
  static char nobody;
  block_on(&nobody, t);
  return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  if (!g_in_run) return __real_nanosleep(a, b);
  return sleep_until(g_now + abs_ns(a));
}
int __wrap_clock_nanosleep(clockid_t, int fl, const struct timespec* a, struct timespec*) {
  if (!g_in_run) return 0;
  return sleep_until((fl & TIMER_ABSTIME) ? abs_ns(a) : g_now + abs_ns(a));
}
int __wrap_usleep(unsigned us) { return sleep_until(g_now + (uint64_t)us * 1000); }
// ---- futex (std::future, std::atomic::wait)
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (!g_in_run || n != SYS_futex) return __real_syscall(n, a, b, c, d, e, f);
  int op = (int)b & FUTEX_CMD_MASK;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    sync_point(RPC);
    if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
    uint64_t dl = 0;
    if (d) dl = op == FUTEX_WAIT ? g_now + abs_ns((struct timespec*)d) : abs_ns((struct timespec*)d);
    if (!block_on((void*)a, dl)) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    wake((void*)a, (int)c > MAXT || (int)c < 0 ? MAXT : (int)c);
    sync_point(RPC);
    return 0;
  }
  die_internal("unexpected futex operation");
}
// ---- thread specific data
static int g_nkeys = 0;
static void (*g_keyd[64])(void*);
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  if (g_nkeys >= 64) return EAGAIN;
  *k = (pthread_key_t)g_nkeys;
  g_keyd[g_nkeys++] = d;
  return 0;
}
int __wrap_pthread_key_delete(pthread_key_t) { return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k) { return k < 64 ? g_fib[g_cur].keys[k] : nullptr; }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) {
  if (k >= 64) return EINVAL;
  g_fib[g_cur].keys[k] = (void*)v;
  return 0;
}
// ---- exception objects are never refused memory (libstdc++ keeps a reserve)
void* __wrap___cxa_allocate_exception(size_t n) {
  ++g_nofault;
  void* p = __real___cxa_allocate_exception(n);
  --g_nofault;
  return p;
}
void* __wrap___cxa_allocate_dependent_exception(void) {
  ++g_nofault;
  void* p = __real___cxa_allocate_dependent_exception();
  --g_nofault;
  return p;
}
}

// ---------------------------------------------------------------- run
static char g_altstack[65536];
static void on_signal(int sig, siginfo_t* si, void*) {
  SimShared* s = sim_shared;
  char sg[60], b[200];
  const char* nm = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE"
                   : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT"
                   : sig == SIGVTALRM ? "hang" : "signal";
  uintptr_t a = (uintptr_t)si->si_addr;
  bool so = sig == SIGSEGV && a >= STACKS && a < STACKS + (uintptr_t)MAXT * STACK_SIZE;
  if (sig == SIGVTALRM) snprintf(sg, sizeof sg, "hang");
  else snprintf(sg, sizeof sg, so ? "crash-stack-overflow" : "crash-%s", nm);
  snprintf(b, sizeof b, "process killed: %s in T%d (address %p)", nm, g_cur, si->si_addr);
  if (s->status == SIM_STATUS_NONE) {
    __builtin_memset(s->sig, 0, sizeof s->sig);
    strncpy(s->sig, sg, sizeof s->sig - 1);
    strncpy(s->msg, b, sizeof s->msg - 1);
    s->status = SIM_STATUS_VIOLATION;
  }
  _exit(0);
}

extern "C" void simrt_boot(void) {
  heap_init();
  g_text0 = (uintptr_t)&__executable_start;
  __libc_single_threaded = 0;
  dl_iterate_phdr(tls_cb, nullptr);
  g_tls_save = (unsigned char*)mmap(nullptr, (g_tls_size + 64) * MAXT, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_sync = (Sync*)mmap(nullptr, sizeof(Sync) * (size_t)NSYNC, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((uintptr_t)&etext - g_text0 > (1u << 25)) die_internal("text segment too large for race cells");
}

static void (*g_fn)(void*);
static void* g_fnarg;
static void* root(void*) {
  g_fn(g_fnarg);
  SimShared* s = sim_shared;
  if (s->status == SIM_STATUS_NONE) s->status = SIM_STATUS_OK;
  _exit(0);
}

extern "C" void simrt_run(void (*fn)(void*), void* arg) {
  SimShared* s = sim_shared;
  stack_t ss = {};
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
  for (int x : sg) sigaction(x, &sa, nullptr);
  struct itimerval tv = {{0, 0}, {20, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  for (int t = 0; t < MAXT; ++t) mprotect((void*)(STACKS + (uintptr_t)t * STACK_SIZE), 4096, PROT_NONE);

  s->status = SIM_STATUS_NONE;
  s->hash = s->ihash = 0x1234567;
  s->steps = s->switches = s->threads = s->allocs = s->sync_ops = s->sim_ns = 0;
  for (auto& x : s->n) x = 0;
  for (auto& x : s->faults) x = 0;
  s->nfeat = s->evals = s->nontrivial = 0;
  s->race_pc[0] = s->race_pc[1] = 0;
  s->sig[0] = s->msg[0] = s->note[0] = 0;
  s->ntrace = 0;
  s->tracebuf[0] = 0;
  for (int i = 0; i < SIM_NLIST; ++i) g_rng[i].s = mix64(s->seed * 4 + (uint64_t)i + 1);
  g_pol.s = mix64(s->seed ^ 0x9b17c3);
  g_steps_limit = s->step_cap ? s->step_cap : 60000000ull;

  g_fn = fn;
  g_fnarg = arg;
  g_in_run = true;
  g_active = 0;
  g_cur = 0;
  g_live = 0;
  g_shadow_live = 0;
  int t = fiber_new(root, nullptr);
  // leave the real stack for good
  Fiber& f = g_fib[t];
  if (g_tls_size) __real_memcpy((void*)g_tls_lo, tls_slot(t), g_tls_size);
  g_cur = t;
  static void* dummy;
  sim_switch(&dummy, f.sp);
  __builtin_unreachable();
}

extern "C" {
void sim_active(int on) {
  g_active += on ? 1 : -1;
}
int sim_is_active(void) { return g_active; }
void sim_set_cores(unsigned n) {
  g_cores = n;
  if (n == 0 || n == 1 || n > 16) sim_shared->faults[FK_CORES_ODD]++;
}
// mode: 0 no preemption, 1 random, 2 priorities, 3 starvation, 4 only at sync
// operations, 5 newest first; gap: mean number of accesses between preemptions
void sim_set_sched(int mode) {
  g_mode = mode % 8;
  g_mode_gap = (uint32_t)(mode / 8);
  g_victim = (int)(g_pol.next() % 8);
  if (g_nrun >= 2) new_gap();
}
void sim_fail_threads(uint32_t first, uint32_t count) {
  g_thr_calls = 0;
  g_tf_first = first;
  g_tf_count = count;
}
uint32_t sim_thread_calls(void) { return g_thr_calls; }
int sim_live_threads(void) { return g_live; }
uint64_t sim_steps(void) { return sim_shared->steps; }
int sim_tid(void) { return g_cur; }
}
