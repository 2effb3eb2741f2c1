// Simulator runtime: C interface used by the harness.
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

enum { SIM_W = 0, SIM_F = 1, SIM_S = 2 };

enum {
  SIM_STATUS_NONE = 0,
  SIM_STATUS_OK = 1,
  SIM_STATUS_VIOLATION = 2,
  SIM_STATUS_INTERNAL = 3
};

// Kinds of fault, for the counters.
enum {
  FK_THREAD_REFUSED = 0,   // pthread_create returned EAGAIN
  FK_ALLOC_FAILED,         // an allocation returned NULL
  FK_WORKER_THROW,         // a worker's model call threw
  FK_CORES_ODD,            // hardware_concurrency reported 0 or an odd count
  FK_STATE_TRUNCATED,      // saved state cut
  FK_STATE_FLIPPED,        // saved state bytes altered
  FK_EPOCH_ODD,            // NaN / huge / backwards date
  FK_POINT_ODD,            // position outside, on land, NaN
  FK_JUNK_MEMORY,          // fresh memory filled with a non-default junk
  FK_PREEMPT,              // preemption at a plain access or sync operation
  FK_STALL,                // a worker was starved while others ran
  FK_OVERSIZE_ALLOC,       // allocation refused because over the memory size
  FK_RESTART,              // model dropped and restored
  FK_COUNT
};

#define SIM_NLIST 3
#define SIM_CAP_W (1u << 16)
#define SIM_CAP_F (1u << 14)
#define SIM_CAP_S (1u << 20)
#define SIM_NFEAT 24

// Memory shared between a run (child process) and its supervisor.
struct SimShared {
  // inputs
  uint64_t seed;          // PRNG seed of the run
  uint32_t replay;        // 0: draw and record, 1: read the lists (0 past end)
  uint32_t replay_len[SIM_NLIST];
  uint64_t step_cap;
  // outputs
  uint32_t status;
  uint32_t n[SIM_NLIST];  // entries used
  char sig[160];          // what kind of violation (stable under replay)
  char msg[6000];
  uint64_t hash;          // event log hash
  uint64_t ihash;         // interleaving hash
  uint64_t steps, switches, threads, allocs, sync_ops;
  uint64_t sim_ns;
  uint64_t faults[FK_COUNT];
  uint64_t feat[SIM_NFEAT];  // scenario feature hashes (states reached)
  uint32_t nfeat;
  uint32_t evals;            // individual checks made by the oracle
  uint32_t nontrivial;       // 1 if the run exercised its property
  uint64_t race_pc[2];
  char note[200];            // one line describing the workload
  uint32_t trace;            // when set, keep a readable event trace
  uint32_t ntrace;
  char tracebuf[1 << 16];
  uint32_t listW[SIM_CAP_W];
  uint32_t listF[SIM_CAP_F];
  uint32_t listS[SIM_CAP_S];
};

extern struct SimShared* sim_shared;

// -- set up (supervisor process)
void simrt_boot(void);                       // once, before anything else
// -- run (child process): executes fn on a fiber and never returns
void simrt_run(void (*fn)(void*), void* arg) __attribute__((noreturn));

// -- choices
uint32_t sim_draw(int list, uint32_t n);     // in [0, n)
uint64_t sim_rng_value(uint64_t x);          // pure hash, no recording

// -- control
void sim_active(int on);                     // instrumentation on/off (nests)
int sim_is_active(void);
void sim_violation(const char* sig, const char* msg) __attribute__((noreturn));
void sim_internal(const char* msg) __attribute__((noreturn));
void sim_log(uint64_t v);                    // add to the event log hash
void sim_trace(const char* fmt, ...);
void sim_fault(int kind);                    // count a fired fault
void sim_feature(uint64_t h);

// -- environment knobs
void sim_set_cores(unsigned n);
void sim_set_sched(int mode);                // see simrt.cpp
void sim_set_junk(int mode);
void sim_set_quarantine(uint64_t bytes);
// thread creation: the calls in [first, first+count) after this one fail
void sim_fail_threads(uint32_t first, uint32_t count);
uint32_t sim_thread_calls(void);
// allocation number first (1-based, counted from this call) fails, then every
// period-th after it (0: just one; 1: all from there on), at most max failures
void sim_fail_allocs(uint64_t first, uint64_t period, uint64_t max);
void sim_fail_allocs_off(void);
uint64_t sim_alloc_calls(void);
uint64_t sim_alloc_failures(void);
// -- observation
uint64_t sim_live_blocks(void);
uint64_t sim_live_bytes(void);
int sim_live_threads(void);                  // fibers not yet ended
uint64_t sim_steps(void);
int sim_tid(void);

#ifdef __cplusplus
}
#endif
