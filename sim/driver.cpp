// Supervisor: seeds, worker processes, determinism gate, minimisation, replay.
//
//   sim run --prop C01 --seed 1 --runs 2000 --secs 60 --workers 8 --out r.json
//           --replay out.replay
//   sim replay FILE [--trace]
//   sim one --prop C01 --seed 1 --index 17 [--trace]
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <string>
#include <unordered_set>
#include <vector>

#include "scen.hpp"

static const Scenario kScenarios[] = {
    {"C01", c01, 0}, {"C02", c02, 0}, {"C03", c03, 0}, {"C04", c04, 0}, {"C05", c05, 0}, {"C06", c06, 0},
    {"C07", c07, 0}, {"C08", c08, 0}, {"C09", c09, 0}, {"C10", c10, 30000000}, {"C11", c11, 0},
    {"C06-fan", c06_known, 0},
};
const Scenario* find_scenario(const char* p) {
  for (auto& s : kScenarios) if (!strcmp(s.prop, p)) return &s;
  return nullptr;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
template <class T>
static T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (T*)p;
}

// Executes one run in a fresh child; the inputs are in sim_shared.
static void execute(const Scenario* sc) {
  SimShared* s = sim_shared;
  s->status = SIM_STATUS_NONE;
  s->step_cap = sc->step_cap;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    if (!s->trace) {
      int fd = open("/dev/null", O_WRONLY);
      if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    }
    simrt_run(sc->fn, nullptr);
  }
  int st = 0;
  double t0 = now();
  for (;;) {
    pid_t r = waitpid(pid, &st, now() - t0 > 0.5 ? WNOHANG : WNOHANG);
    if (r == pid) break;
    if (now() - t0 > 120) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    struct timespec ts = {0, now() - t0 > 0.02 ? 2000000 : 100000};
    nanosleep(&ts, nullptr);
  }
  if (s->status == SIM_STATUS_NONE) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      s->status = SIM_STATUS_INTERNAL;
      snprintf(s->msg, sizeof s->msg, "run killed by the supervisor or for lack of memory");
    } else {
      s->status = SIM_STATUS_VIOLATION;
      snprintf(s->sig, sizeof s->sig, "process-died");
      if (WIFSIGNALED(st)) snprintf(s->msg, sizeof s->msg, "the process died of signal %d", WTERMSIG(st));
      else snprintf(s->msg, sizeof s->msg, "the process ended by itself with status %d", WEXITSTATUS(st));
    }
  }
}

static uint64_t run_seed(uint64_t seed, const char* prop, uint64_t index) {
  uint64_t h = 1469598103934665603ull;
  for (const char* p = prop; *p; ++p) h = (h ^ (uint64_t)(unsigned char)*p) * 1099511628211ull;
  return sim_rng_value(sim_rng_value(seed ^ h) + index);
}
static void start_fresh(uint64_t seed) {
  sim_shared->seed = seed;
  sim_shared->replay = 0;
}

struct Lists { std::vector<uint32_t> l[SIM_NLIST]; };
static Lists take() {
  Lists r;
  SimShared* s = sim_shared;
  const uint32_t* src[] = {s->listW, s->listF, s->listS};
  const uint32_t cap[] = {SIM_CAP_W, SIM_CAP_F, SIM_CAP_S};
  for (int i = 0; i < SIM_NLIST; ++i) {
    uint32_t n = s->n[i] < cap[i] ? s->n[i] : cap[i];
    if (s->replay && n > s->replay_len[i]) n = s->replay_len[i];
    r.l[i].assign(src[i], src[i] + n);
    while (!r.l[i].empty() && r.l[i].back() == 0) r.l[i].pop_back();
  }
  return r;
}
static void put(const Lists& r) {
  SimShared* s = sim_shared;
  uint32_t* dst[] = {s->listW, s->listF, s->listS};
  for (int i = 0; i < SIM_NLIST; ++i) {
    s->replay_len[i] = (uint32_t)r.l[i].size();
    if (!r.l[i].empty()) memcpy(dst[i], r.l[i].data(), r.l[i].size() * 4);
  }
  s->replay = 1;
}

// Does the candidate still show the same violation?
static bool still(const Scenario* sc, const Lists& c, const std::string& sig) {
  put(c);
  execute(sc);
  return sim_shared->status == SIM_STATUS_VIOLATION && sig == sim_shared->sig;
}

static Lists minimise(const Scenario* sc, Lists cur, const std::string& sig, double secs, int* tries) {
  double t0 = now();
  auto budget = [&] { return now() - t0 < secs && *tries < 1500; };
  auto attempt = [&](Lists& c) {
    ++*tries;
    if (!still(sc, c, sig)) return false;
    cur = take();
    return true;
  };
  static const int order[] = {SIM_S, SIM_F, SIM_W};
  for (int round = 0; round < 2 && budget(); ++round) {
    for (int li : order) {
      {  // nothing at all
        Lists c = cur;
        c.l[li].clear();
        if (!cur.l[li].empty() && budget()) attempt(c);
      }
      // cut the end
      for (size_t cut = cur.l[li].size() / 2; cut >= 1 && budget();) {
        if (cut > cur.l[li].size()) { cut = cur.l[li].size() / 2; if (!cut) break; continue; }
        Lists c = cur;
        c.l[li].resize(c.l[li].size() - cut);
        if (!attempt(c)) cut /= 2;
      }
      // zero blocks, then single entries
      size_t block = cur.l[li].size() / 2;
      if (block > 4096) block = 4096;
      for (; block >= 1 && budget(); block /= 2) {
        for (size_t i = 0; i < cur.l[li].size() && budget(); i += block) {
          bool any = false;
          for (size_t k = i; k < i + block && k < cur.l[li].size(); ++k) any |= cur.l[li][k] != 0;
          if (!any) continue;
          Lists c = cur;
          for (size_t k = i; k < i + block && k < c.l[li].size(); ++k) c.l[li][k] = 0;
          attempt(c);
        }
      }
      // smaller values
      if (li != SIM_S)
        for (size_t i = 0; i < cur.l[li].size() && budget(); ++i) {
          uint32_t v = cur.l[li][i];
          if (v < 2) continue;
          for (uint32_t x : {1u, v / 2, v - 1}) {
            if (i >= cur.l[li].size() || x >= cur.l[li][i] || !budget()) break;
            Lists c = cur;
            c.l[li][i] = x;
            if (attempt(c)) break;
          }
        }
    }
  }
  return cur;
}

static std::string esc(const char* s) {
  std::string r;
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

static bool write_replay(const char* path, const char* prop, uint64_t seed, uint64_t index, const Lists& l) {
  FILE* f = fopen(path, "w");
  if (!f) return false;
  fprintf(f, "property %s\nbase-seed %llu index %llu\nrun-seed %llu\nsignature %s\nhash %016llx\nsteps %llu\n", prop,
          (unsigned long long)seed, (unsigned long long)index, (unsigned long long)sim_shared->seed,
          sim_shared->sig, (unsigned long long)sim_shared->hash, (unsigned long long)sim_shared->steps);
  static const char* nm[] = {"workload", "faults", "schedule"};
  for (int i = 0; i < SIM_NLIST; ++i) {
    fprintf(f, "%s %zu", nm[i], l.l[i].size());
    for (uint32_t v : l.l[i]) fprintf(f, " %u", v);
    fprintf(f, "\n");
  }
  fprintf(f, "note %s\nwhat %s\n", esc(sim_shared->note).c_str(), esc(sim_shared->msg).c_str());
  if (sim_shared->trace) fprintf(f, "trace\n%s", sim_shared->tracebuf);
  fclose(f);
  return true;
}

static int do_replay(const char* path, bool trace, bool quiet) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); return 2; }
  char prop[64] = "", sig[200] = "", word[64];
  unsigned long long base, idx, rs = 0, hash = 0, steps = 0;
  Lists l;
  if (fscanf(f, " property %63s", prop) != 1) { fprintf(stderr, "not a replay file\n"); return 2; }
  if (fscanf(f, " base-seed %llu index %llu", &base, &idx) != 2) return 2;
  if (fscanf(f, " run-seed %llu", &rs) != 1) return 2;
  if (fscanf(f, " signature %199s", sig) != 1) return 2;
  if (fscanf(f, " hash %llx", &hash) != 1) return 2;
  if (fscanf(f, " steps %llu", &steps) != 1) return 2;
  for (int i = 0; i < SIM_NLIST; ++i) {
    size_t n;
    if (fscanf(f, " %63s %zu", word, &n) != 2) return 2;
    l.l[i].resize(n);
    for (auto& v : l.l[i]) if (fscanf(f, " %u", &v) != 1) return 2;
  }
  fclose(f);
  const Scenario* sc = find_scenario(prop);
  if (!sc) { fprintf(stderr, "unknown property %s\n", prop); return 2; }
  sim_shared->seed = rs;
  sim_shared->trace = trace;
  put(l);
  execute(sc);
  SimShared* s = sim_shared;
  bool same = s->status == SIM_STATUS_VIOLATION && !strcmp(s->sig, sig) && s->hash == hash && s->steps == steps;
  if (!quiet) {
    if (trace) fputs(s->tracebuf, stdout);
    printf("note: %s\n", s->note);
    if (s->status == SIM_STATUS_VIOLATION) printf("violation of %s: %s\n%s\n", prop, s->sig, s->msg);
    else printf("no violation (status %u %s)\n", s->status, s->msg);
    printf("%s\n", same ? "exact reproduction" : "NOT the recorded execution");
    if (s->race_pc[1] || s->race_pc[0])
      printf("pcs: 0x%llx 0x%llx\n", (unsigned long long)s->race_pc[0], (unsigned long long)s->race_pc[1]);
  }
  return same ? 1 : s->status == SIM_STATUS_VIOLATION ? 4 : 0;
}

struct WorkerOut {
  uint64_t runs, nontrivial, evals, steps, switches, threads, allocs, sync_ops, sim_ns, faulty;
  uint64_t faults[FK_COUNT];
  uint64_t gate_runs, gate_bad, internal;
  uint64_t viol_index;      // ~0: none
  char viol_sig[160];
  char internal_msg[300];
  uint64_t nhash, nfeat;
};
static const size_t kMaxHash = 400000;

static const char* kFault[FK_COUNT] = {
    "thread_creation_refused", "allocation_failed", "worker_throws", "odd_core_count", "state_truncated",
    "state_bytes_altered", "odd_date", "odd_position", "junk_in_fresh_memory", "preemption", "worker_starved",
    "oversize_allocation_refused", "save_drop_restore"};

int main(int argc, char** argv) {
  simrt_boot();
  sim_shared = shared<SimShared>();
  if (argc < 2) return 2;
  std::map<std::string, std::string> opt;
  std::string mode = argv[1];
  std::string file;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0) {
      if (a == "--trace" || a == "--quiet") opt[a] = "1";
      else if (i + 1 < argc) opt[a] = argv[++i];
    } else file = a;
  }
  auto get = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };
  if (mode == "replay") return do_replay(file.c_str(), opt.count("--trace"), opt.count("--quiet"));
  std::string prop = get("--prop", "");
  const Scenario* sc = find_scenario(prop.c_str());
  if (!sc) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 2; }
  uint64_t seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
  if (mode == "one") {
    uint64_t idx = strtoull(get("--index", "0").c_str(), nullptr, 10);
    sim_shared->trace = opt.count("--trace");
    start_fresh(run_seed(seed, prop.c_str(), idx));
    execute(sc);
    SimShared* s = sim_shared;
    if (s->trace) fputs(s->tracebuf, stdout);
    printf("status %u sig %s\nnote %s\nmsg %s\nhash %016llx steps %llu switches %llu threads %llu allocs %llu W %u F %u S %u pcs %llx %llx nontrivial %u evals %u\n",
           s->status, s->sig, s->note, s->msg, (unsigned long long)s->hash, (unsigned long long)s->steps,
           (unsigned long long)s->switches, (unsigned long long)s->threads, (unsigned long long)s->allocs, s->n[0], s->n[1], s->n[2],
           (unsigned long long)s->race_pc[0], (unsigned long long)s->race_pc[1], s->nontrivial, s->evals);
    return s->status == SIM_STATUS_OK ? 0 : 1;
  }
  if (mode != "run") return 2;
  uint64_t runs = strtoull(get("--runs", "1000").c_str(), nullptr, 10);
  double secs = atof(get("--secs", "60").c_str());
  int nw = atoi(get("--workers", "8").c_str());
  uint64_t gate = strtoull(get("--gate", "16").c_str(), nullptr, 10);
  double t0 = now();
  WorkerOut* out = shared<WorkerOut>((size_t)nw);
  uint64_t* hashes = shared<uint64_t>(kMaxHash * 3 * (size_t)nw);
  uint64_t* best = shared<uint64_t>();
  *best = ~0ull;
  SimShared** shs = shared<SimShared*>((size_t)nw);
  for (int w = 0; w < nw; ++w) shs[w] = shared<SimShared>();
  char(*notes)[5][200] = (char(*)[5][200])shared<char>(5 * 200 * (size_t)nw);
  std::vector<pid_t> pids;
  for (int w = 0; w < nw; ++w) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p) { pids.push_back(p); continue; }
    sim_shared = shs[w];
    WorkerOut& o = out[w];
    o.viol_index = ~0ull;
    std::unordered_set<uint64_t> seen, feat, inter;
    int nnotes = 0;
    for (uint64_t i = (uint64_t)w; i < runs; i += (uint64_t)nw) {
      if (now() - t0 > secs || i > __atomic_load_n(best, __ATOMIC_SEQ_CST)) break;
      start_fresh(run_seed(seed, prop.c_str(), i));
      execute(sc);
      SimShared* s = sim_shared;
      if (s->status == SIM_STATUS_INTERNAL) {
        o.internal++;
        snprintf(o.internal_msg, sizeof o.internal_msg, "index %llu: %s", (unsigned long long)i, s->msg);
        break;
      }
      o.runs++;
      o.nontrivial += s->nontrivial;
      o.evals += s->evals;
      o.steps += s->steps;
      o.switches += s->switches;
      o.threads += s->threads;
      o.allocs += s->allocs;
      o.sync_ops += s->sync_ops;
      o.sim_ns += s->sim_ns + s->steps;   // one instruction-level step counts one nanosecond
      bool any = false;
      for (int k = 0; k < FK_COUNT; ++k) { o.faults[k] += s->faults[k]; any |= s->faults[k] > 0 && k != FK_PREEMPT && k != FK_JUNK_MEMORY && k != FK_STALL; }
      o.faulty += any;
      if (s->nontrivial && seen.size() < kMaxHash) seen.insert(s->hash);
      if (s->switches > 2 && inter.size() < kMaxHash) inter.insert(s->ihash);
      for (uint32_t k = 0; k < s->nfeat; ++k) if (feat.size() < kMaxHash) feat.insert(s->feat[k]);
      if (nnotes < 5 && s->nontrivial) snprintf(notes[w][nnotes++], 200, "run %llu: %.180s", (unsigned long long)i, s->note);
      if (s->status == SIM_STATUS_VIOLATION) {
        o.viol_index = i;
        snprintf(o.viol_sig, sizeof o.viol_sig, "%s", s->sig);
        uint64_t b = __atomic_load_n(best, __ATOMIC_SEQ_CST);
        while (i < b && !__atomic_compare_exchange_n(best, &b, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
        break;
      }
      if (gate && (i / (uint64_t)nw) % gate == 0) {
        uint64_t h = s->hash, st = s->steps;
        Lists l = take();
        start_fresh(run_seed(seed, prop.c_str(), i));
        execute(sc);
        o.gate_runs++;
        if (s->hash != h || s->steps != st) { o.gate_bad++; snprintf(o.internal_msg, sizeof o.internal_msg, "run %llu is not repeatable", (unsigned long long)i); }
        // and once more from its recorded choices
        put(l);
        execute(sc);
        if (s->hash != h || s->steps != st) { o.gate_bad++; snprintf(o.internal_msg, sizeof o.internal_msg, "run %llu differs when replayed from its choices: %016llx/%llu instead of %016llx/%llu (status %u, %.60s)", (unsigned long long)i, (unsigned long long)s->hash, (unsigned long long)s->steps, (unsigned long long)h, (unsigned long long)st, s->status, s->msg); }
      }
    }
    size_t n = 0;
    uint64_t* H0 = hashes + kMaxHash * 3 * (size_t)w;
    for (uint64_t x : seen) H0[n++] = x;
    o.nhash = n;
    for (uint64_t x : feat) H0[n++] = x;
    o.nfeat = n;
    for (uint64_t x : inter) H0[n++] = x;
    H0[kMaxHash * 3 - 1] = n;
    _exit(0);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  WorkerOut t;
  memset(&t, 0, sizeof t);
  std::unordered_set<uint64_t> seen, feat, inter;
  int vw = -1;
  std::string internal;
  for (int w = 0; w < nw; ++w) {
    WorkerOut& o = out[w];
    t.runs += o.runs; t.nontrivial += o.nontrivial; t.evals += o.evals; t.steps += o.steps; t.switches += o.switches;
    t.threads += o.threads; t.allocs += o.allocs; t.sync_ops += o.sync_ops; t.sim_ns += o.sim_ns; t.faulty += o.faulty;
    for (int k = 0; k < FK_COUNT; ++k) t.faults[k] += o.faults[k];
    t.gate_runs += o.gate_runs; t.gate_bad += o.gate_bad; t.internal += o.internal;
    if (o.internal_msg[0]) internal = o.internal_msg;
    uint64_t* H0 = hashes + kMaxHash * 3 * (size_t)w;
    uint64_t n = H0[kMaxHash * 3 - 1];
    for (uint64_t i = 0; i < n; ++i) (i < o.nhash ? seen : i < o.nfeat ? feat : inter).insert(H0[i]);
    if (o.viol_index != ~0ull && (vw < 0 || o.viol_index < out[vw].viol_index)) vw = w;
  }
  double wall = now() - t0;
  int rc = 0;
  std::string viol = "null";
  if (vw >= 0) {
    sim_shared = shs[vw];   // holds the violating run
    std::string sig = sim_shared->sig;
    Lists l0 = take();
    int tries = 0;
    std::string first_msg = sim_shared->msg;
    Lists l = l0;
    bool repro = still(sc, l0, sig);
    if (repro) l = minimise(sc, take(), sig, atof(get("--minimise", "25").c_str()), &tries);
    sim_shared->trace = 1;
    put(l);
    execute(sc);
    Lists fin = l;
    std::string path = get("--replay", "/tmp/out.replay");
    std::string tmp = path;
    write_replay(tmp.c_str(), prop.c_str(), seed, out[vw].viol_index, fin);
    // a fresh process must reproduce it from the file alone
    pid_t p = fork();
    if (p == 0) {
      execl("/proc/self/exe", argv[0], "replay", path.c_str(), "--quiet", (char*)nullptr);
      _exit(9);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool verified = WIFEXITED(st) && WEXITSTATUS(st) == 1;
    size_t nz[3];
    for (int i = 0; i < 3; ++i) { nz[i] = 0; for (auto v : fin.l[i]) nz[i] += v != 0; }
    viol = strf("{\"index\": %llu, \"signature\": \"%s\", \"reproduced\": %s, \"verified\": %s, \"tries\": %d, "
                "\"before\": [%zu, %zu, %zu], \"after\": [%zu, %zu, %zu], \"nonzero\": [%zu, %zu, %zu], \"pcs\": [%llu, %llu], ",
                (unsigned long long)out[vw].viol_index, esc(sig.c_str()).c_str(), repro ? "true" : "false",
                verified ? "true" : "false", tries, l0.l[0].size(), l0.l[1].size(), l0.l[2].size(), fin.l[0].size(),
                fin.l[1].size(), fin.l[2].size(), nz[0], nz[1], nz[2], (unsigned long long)sim_shared->race_pc[0],
                (unsigned long long)sim_shared->race_pc[1]);
    viol += "\"note\": \"" + esc(sim_shared->note) + "\", \"message\": \"" + esc(sim_shared->msg) + "\"}";
    rc = 1;
  }
  if (t.internal || t.gate_bad) rc = rc ? rc : 2;
  FILE* f = fopen(get("--out", "/dev/stdout").c_str(), "w");
  if (!f) { perror("out"); return 2; }
  fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"wall\": %.3f, \"runs\": %llu, \"nontrivial\": %llu, \"evals\": %llu,\n",
          prop.c_str(), (unsigned long long)seed, wall, (unsigned long long)t.runs, (unsigned long long)t.nontrivial, (unsigned long long)t.evals);
  fprintf(f, "\"steps\": %llu, \"switches\": %llu, \"threads\": %llu, \"allocations\": %llu, \"sync_ops\": %llu, \"sim_ns\": %llu, \"faulty_runs\": %llu,\n",
          (unsigned long long)t.steps, (unsigned long long)t.switches, (unsigned long long)t.threads, (unsigned long long)t.allocs,
          (unsigned long long)t.sync_ops, (unsigned long long)t.sim_ns, (unsigned long long)t.faulty);
  fprintf(f, "\"distinct_executions\": %zu, \"distinct_interleavings\": %zu, \"distinct_states\": %zu, \"gate_runs\": %llu, \"gate_bad\": %llu,\n\"faults\": {",
          seen.size(), inter.size(), feat.size(), (unsigned long long)t.gate_runs, (unsigned long long)t.gate_bad);
  for (int k = 0; k < FK_COUNT; ++k) fprintf(f, "%s\"%s\": %llu", k ? ", " : "", kFault[k], (unsigned long long)t.faults[k]);
  fprintf(f, "},\n\"samples\": [");
  bool first = true;
  for (int w = 0; w < nw; ++w)
    for (int k = 0; k < 2; ++k)
      if (notes[w][k][0]) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(notes[w][k]).c_str()); first = false; }
  fprintf(f, "],\n\"internal\": \"%s\", \"violation\": %s}\n", esc(internal.c_str()).c_str(), viol.c_str());
  fclose(f);
  return rc;
}
