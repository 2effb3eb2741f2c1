// C01-C04: batches over several workers.
#include <algorithm>
#include <cstring>

#include "scen.hpp"

static void on_terminate() {
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception& x) { what += std::string(": ") + x.what(); }
    catch (...) { what += ": unknown exception"; }
  }
  sim_violation("process-terminated", what.c_str());
}
void install_terminate() { std::set_terminate(on_terminate); }

void draw_schedule() {
  static const int modes[] = {1, 4, 2, 3, 1, 2, 5, 3, 0};
  static const int gaps[] = {2000, 20, 200, 5, 20000, 1};
  int m = modes[W(9)];
  int g = gaps[W(6)];
  sim_set_sched(m + 8 * g);
}
void draw_memory() {
  static const int junk[] = {0, 2, 3, 1, 4};
  sim_set_junk(junk[W(5)]);
  if (chance(4)) sim_set_quarantine(0);   // freed memory is reused at once
}
void draw_cores() {
  static const unsigned c[] = {4, 2, 3, 8, 1, 0, 7, 64};
  sim_set_cores(c[W(8)]);
}
size_t draw_threads() {
  static const size_t c[] = {2, 3, 4, 0, 5, 7, 8, 16, 33, 80};
  return c[W(10)];
}

// ---------------------------------------------------------------- C01
static void c01_model() {
  WorldOpts o;
  o.max_ids = 6;
  World w = make_world(o);
  std::unique_ptr<ModelBox> m = build_model(w.spec);
  size_t n = 2 + W(9);
  Points p = make_points(w, n);
  Batch b = to_batch(p);
  snprintf(sim_shared->note, sizeof sim_shared->note, "predict %zu points, %s", n, describe(w).c_str());
  Pred one;
  // half of the time the workers come first, on objects nobody has used yet
  bool cold = W(2);
  auto alone = [&] {
    Active a;
    one = m->predict(b, w.formulae, 0, w.excluded, 1);
  };
  if (!cold) alone();
  uint32_t rounds = 1 + W(2);
  for (uint32_t k = 0; k < rounds; ++k) {
    size_t t = draw_threads();
    draw_schedule();
    uint64_t th0 = sim_shared->threads;
    Pred many;
    std::string err;
    {
      Active a;
      err = catching([&] { many = m->predict(b, w.formulae, 0, w.excluded, t); });
    }
    ran_check("evaluate_tide");
    if (!err.empty()) fail("raises", "evaluate_tide with %zu workers raised %s", t, err.c_str());
    if (cold && k == 0) {
      const uint64_t th1 = sim_shared->threads;
      alone();
      th0 += sim_shared->threads - th1;
    }
    std::string d = compare_predictions(one, many, &p);
    ++sim_shared->evals;
    if (!d.empty()) fail("differs", "1 worker and %zu workers disagree at %s", t, d.c_str());
    for (Eigen::Index i = 0; i < many.tide.size(); ++i) {
      uint64_t h;
      memcpy(&h, &many.tide[i], 8);
      sim_log(h);
    }
    if (sim_shared->threads - th0 >= 2) sim_shared->nontrivial = 1;
    sim_feature(H(1, w.spec.kind, (sim_shared->threads - th0) * 100 + n));
  }
}

static Eigen::MatrixXcd draw_field(Eigen::Index rows, Eigen::Index cols, uint64_t seed) {
  Eigen::MatrixXcd m(rows, cols);
  for (Eigen::Index j = 0; j < cols; ++j)
    for (Eigen::Index i = 0; i < rows; ++i) {
      uint64_t h = H(seed, (uint64_t)i, (uint64_t)j);
      m(i, j) = cd(((int)(h & 255) - 128) / 8.0, ((int)((h >> 8) & 255) - 128) / 8.0);
    }
  return m;
}

static std::vector<int> draw_table(uint32_t max) {
  std::vector<int> ids;
  if (chance(4)) return ids;   // every constituent
  std::set<int> s;
  uint32_t n = 1 + W(max);
  for (uint32_t i = 0; i < n; ++i) s.insert((int)W(75));
  return std::vector<int>(s.begin(), s.end());
}

static void c01_map() {
  std::vector<int> ids = draw_table(5);
  std::unique_ptr<TableBox> t = make_table(ids);
  size_t nw = t->ids().size();
  // the map has one row per constituent, one column per point
  Eigen::Index cols = 1 + (Eigen::Index)W(9);
  Eigen::MatrixXcd f = draw_field((Eigen::Index)nw, cols, W(1u << 30));
  double epoch = make_epoch(0, 0, 0);
  int fm = (int)W(3);
  snprintf(sim_shared->note, sizeof sim_shared->note, "map of %zd columns over %zu constituents", (ssize_t)cols, nw);
  Eigen::MatrixXd one, many;
  bool cold = W(2);
  auto alone = [&] {
    Active a;
    one = t->mapping(epoch, 27, f, fm, 1);
  };
  if (!cold) alone();
  size_t th = draw_threads();
  draw_schedule();
  std::string err;
  uint64_t th0 = sim_shared->threads;
  {
    Active a;
    err = catching([&] { many = t->mapping(epoch, 27, f, fm, th); });
  }
  ran_check("tide_from_mapping");
  if (!err.empty()) fail("raises", "tide_from_mapping with %zu workers raised %s", th, err.c_str());
  if (cold) {
    const uint64_t th1 = sim_shared->threads;
    alone();
    th0 += sim_shared->threads - th1;
  }
  ++sim_shared->evals;
  if (one.rows() != many.rows() || one.cols() != many.cols()) fail("differs", "shapes differ");
  for (Eigen::Index i = 0; i < one.size(); ++i)
    if (!same(one.data()[i], many.data()[i], 1e-7 * (1 + std::fabs(one.data()[i]))))
      fail("differs", "tide_from_mapping: element %zd is %.17g with 1 worker and %.17g with %zu", (ssize_t)i,
           one.data()[i], many.data()[i], th);
  if (sim_shared->threads - th0 >= 2) sim_shared->nontrivial = 1;
  sim_feature(H(2, nw, (sim_shared->threads - th0) * 100 + (uint64_t)cols));
}

void c01(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  if (W(3) == 2) c01_map(); else c01_model();
}

// ---------------------------------------------------------------- C04
// A scripted model counts how often each position is computed.
void c04(void*) {
  install_terminate();
  draw_memory();
  static const unsigned cores[] = {4, 0, 1, 2, 3, 7, 16, 64};
  unsigned nc = cores[W(8)];
  sim_set_cores(nc);
  uint32_t size = chance(3) ? W(71) : W(12);
  uint32_t threads = chance(3) ? W(81) : W(9);
  draw_schedule();
  bool map = W(4) == 3;
  if (chance(150)) {   // sizes around the limits of narrow integers and of blocks
    static const uint32_t bsz[] = {256, 257, 1000, 1024, 1025, 4096, 4097, 5000};
    static const uint32_t msz[] = {256, 32768, 65535, 65536, 65537, 70000, 4097, 1025};
    size = map ? msz[W(8)] : bsz[W(8)];
    threads = W(6);
    sim_set_sched(1 + 8 * 20000);
  }
  snprintf(sim_shared->note, sizeof sim_shared->note, "%s: %u points, %u workers, %u cores", map ? "map" : "batch",
           size, threads, nc);
  sim_feature(H(4, size * 100 + threads, nc * 2 + map));
  sim_shared->nontrivial = 1;
  uint64_t live0 = sim_live_blocks();
  if (!map) {
    std::vector<int> count(size + 1, 0);
    Script sc;
    sc.value = [&](double lon, double lat) -> cd {
      Quiet q;
      (void)lat;
      if (!(lon >= 0 && lon < (double)size && lon == std::floor(lon)))
        fail("outside-batch", "a position that is not in the batch was computed: %g", lon);
      ++count[(size_t)lon];
      return cd(lon + 1, 0);
    };
    std::unique_ptr<ModelBox> m = make_scripted(&sc, {ref::M2});
    Batch b;
    b.epoch.resize(size); b.lon.resize(size); b.lat.resize(size); b.leap.resize(size);
    for (uint32_t i = 0; i < size; ++i) { b.epoch[i] = 1e9 + i * 7200.0; b.lon[i] = i; b.lat[i] = (i % 60); b.leap[i] = 37; }
    Pred r;
    std::string err;
    {
      Active a;
      err = catching([&] { r = m->predict(b, 1, 0, {}, threads); });
    }
    ran_check("evaluate_tide");
    if (!err.empty()) fail("raises", "evaluate_tide of %u points with %u workers on %u cores raised %s", size, threads, nc, err.c_str());
    if ((uint32_t)r.tide.size() != size || r.quality.size() != size) fail("size", "%u points gave %zd results", size, (ssize_t)r.tide.size());
    ref::Setup s;
    s.model = {ref::M2};
    for (uint32_t i = 0; i < size; ++i) {
      ++sim_shared->evals;
      if (count[i] != 1) fail(count[i] ? "computed-twice" : "not-computed", "point %u of %u computed %d times (%u workers, %u cores)", i, size, count[i], threads, nc);
      ref::Tide x = ref::predict(s, 1, b.epoch[i], 37, b.lat[i], {cd(i + 1.0, 0)}, true);
      if (!same(x.tide, r.tide[i], 1e-7 * x.scale) || !same(x.lp, r.lp[i], 1e-7 * x.scale) || r.quality[i] != 4)
        fail("wrong-slot", "point %u of %u (%u workers): tide %.17g, long period %.17g, quality %d; expected %.17g, %.17g, 4", i, size, threads, r.tide[i], r.lp[i], r.quality[i], x.tide, x.lp);
    }
    if (sc.accelerators_alive) fail("leak", "%d accelerators were not released", sc.accelerators_alive);
  } else {
    std::unique_ptr<TableBox> t = make_table({ref::M2, ref::K1});
    std::vector<int> ids = t->ids();
    Eigen::MatrixXcd f = draw_field(2, size, 77);
    double epoch = 1.1e9;
    Eigen::MatrixXd r;
    std::string err;
    {
      Active a;
      err = catching([&] { r = t->mapping(epoch, 34, f, 1, threads); });
    }
    ran_check("tide_from_mapping");
    if (!err.empty()) fail("raises", "tide_from_mapping of %u points with %u workers on %u cores raised %s", size, threads, nc, err.c_str());
    ref::Angles an = ref::angles(1, epoch, 34);
    ++sim_shared->evals;
    if ((uint32_t)r.rows() != size) fail("size", "%u columns gave %zd rows", size, (ssize_t)r.rows());
    for (uint32_t j = 0; j < size; ++j) {
      double want = 0, got = r.row(j).sum();
      for (int k = 0; k < 2; ++k) want += ref::harmonic(ref::kRefWaves[ids[(size_t)k]], an, f(k, j));
      if (!same(got, want, 1e-6))
        fail("wrong-slot", "map point %u of %u (%u workers): %.17g expected %.17g", j, size, threads, got, want);
    }
  }
  (void)live0;
}
