// C02, C03, C11: failing workers, refused threads, exhausted memory.
#include <algorithm>
#include <cstring>
#include <system_error>
#include <thread>

#include "scen.hpp"

namespace {
struct Boom : std::exception {
  int id;
  std::string text;
  explicit Boom(int i) : id(i), text("worker failure number " + std::to_string(i) + " with a text long enough to be on the heap") {}
  const char* what() const noexcept override { return text.c_str(); }
};
}  // namespace

static Batch plain_batch(uint32_t n) {
  Batch b;
  b.epoch.resize(n); b.lon.resize(n); b.lat.resize(n); b.leap.resize(n);
  for (uint32_t i = 0; i < n; ++i) { b.epoch[i] = 1e9 + i * 5400.0; b.lon[i] = i; b.lat[i] = i % 60; b.leap[i] = 37; }
  return b;
}
static void check_plain(const char* when, const Batch& b, const Pred& r) {
  uint32_t n = (uint32_t)b.epoch.size();
  if ((uint32_t)r.tide.size() != n || r.quality.size() != n) fail("size", "%s: %u points gave %zd results", when, n, (ssize_t)r.tide.size());
  ref::Setup s;
  s.model = {ref::M2};
  for (uint32_t i = 0; i < n; ++i) {
    ++sim_shared->evals;
    ref::Tide x = ref::predict(s, 1, b.epoch[i], 37, b.lat[i], {cd(i + 1.0, 0)}, true);
    if (!same(x.tide, r.tide[i], 1e-7 * x.scale) || !same(x.lp, r.lp[i], 1e-7 * x.scale) || r.quality[i] != 4)
      fail("wrong-result", "%s: point %u of %u: tide %.17g, long period %.17g, quality %d; expected %.17g, %.17g, 4", when, i, n, r.tide[i], r.lp[i], r.quality[i], x.tide, x.lp);
  }
}

// ---------------------------------------------------------------- C02
namespace {
// One caller: its own scripted model, the positions that fail, what was raised.
struct Failing {
  uint32_t n = 0, flavour = 0, badacc = ~0u, made = 0;
  size_t threads = 1;
  bool badacc_all = false, armed = true;
  int next = 0;
  std::vector<int> thrown;
  std::vector<char> bad;
  Script sc;
  std::unique_ptr<ModelBox> m;
  Batch b;
  // outcome of the last call
  int got = 0;
  bool returned = false, refused = false;
  size_t thrown0 = 0;
  std::string odd;
  Pred r;
};
void raise_one(Failing& f, int where) {
  int id;
  {
    Quiet q;
    id = ++f.next;
    f.thrown.push_back(id);
    sim_fault(FK_WORKER_THROW);
    sim_log(H(0xb00, (uint64_t)where));
    sim_trace("fault: T%d throws exception %d at %d", sim_tid(), id, where);
  }
  uint32_t fl = f.flavour == 3 ? (uint32_t)(id % 3) : f.flavour;
  if (fl == 1) throw id;
  if (fl == 2) throw std::runtime_error(std::to_string(id));
  throw Boom(id);
}
void draw_failing(Failing& f, int base) {
  f.n = 1 + W(24);
  f.threads = draw_threads();
  f.bad.assign(f.n, 0);
  uint32_t nb = 1 + Fd(4);
  if (Fd(6) == 5) nb = f.n;                     // everything fails
  for (uint32_t i = 0; i < nb; ++i) f.bad[Fd(f.n)] = 1;
  if (nb == f.n) for (auto& x : f.bad) x = 1;
  f.flavour = Fd(4);                            // 0 exception with text, 1 int, 2 runtime_error, 3 mixed
  f.badacc = Fd(4) == 3 ? Fd(12) : ~0u;         // k-th cache creation fails
  f.badacc_all = f.badacc != ~0u && Fd(3) == 2;
  f.next = base;
  f.sc.value = [&f](double lon, double) -> cd {
    bool b;
    {
      Quiet q;
      b = f.armed && lon >= 0 && lon < f.n && f.bad[(size_t)lon];
    }
    if (b) raise_one(f, (int)lon);
    return cd(lon + 1, 0);
  };
  f.sc.on_accelerator = [&f] {
    bool b;
    {
      Quiet q;
      uint32_t k = f.made++;
      b = f.armed && f.badacc != ~0u && (k == f.badacc || (f.badacc_all && k > f.badacc));
    }
    if (b) raise_one(f, -1);
  };
  f.m = make_scripted(&f.sc, {ref::M2});
  f.b = plain_batch(f.n);
  f.thrown.reserve(4096);
}
void call_failing(Failing& f) {
  f.got = 0;
  f.returned = f.refused = false;
  f.thrown0 = f.thrown.size();
  try {
    f.r = f.m->predict(f.b, 1, 0, {}, f.threads);
    f.returned = true;
  } catch (const Boom& x) {
    f.got = x.id;
    if (x.text.find("number " + std::to_string(x.id) + " ") == std::string::npos) fail("exception-damaged", "the text of the exception is damaged");
  } catch (int x) {
    f.got = x;
  } catch (const std::system_error& x) {
    f.refused = true;
    f.odd = x.what();
  } catch (const std::runtime_error& x) {
    f.got = atoi(x.what());
  } catch (const std::exception& x) {
    fail("other-exception", "an exception no worker raised: %s", x.what());
  }
}
}  // namespace

void c02(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  Failing f[2];
  draw_failing(f[0], 0);
  draw_schedule();
  int callers = chance(5) ? 2 : 1;
  if (callers == 2) draw_failing(f[1], 100000);
  // some threads may be refused while workers fail
  bool refuse = Fd(4) == 3;
  uint32_t rfirst = refuse ? Fd(8) : 0, rcount = refuse ? 1 + Fd(6) : 0;
  if (callers == 2 && rfirst == 0 && refuse) rfirst = 1;   // the second caller itself must start
  snprintf(sim_shared->note, sizeof sim_shared->note, "%u points, %zu workers%s%s%s", f[0].n, f[0].threads,
           f[0].badacc != ~0u ? ", failing cache creation" : "", callers == 2 ? ", two callers" : "", refuse ? ", threads refused" : "");
  // what a first call leaves may be a cache; what further ones still leave is a leak
  bool grew = false;
  for (int round = 0; round < 2 || (grew && round < 8); ++round) {
    uint64_t live0 = sim_live_blocks();
    uint64_t th0 = sim_shared->threads;
    uint64_t fired0 = sim_shared->faults[FK_THREAD_REFUSED];
    sim_fail_threads(rfirst, rcount);
    {
      Active a;
      if (callers == 1) call_failing(f[0]);
      else {
        std::thread t([&] { call_failing(f[1]); });
        call_failing(f[0]);
        t.join();
      }
    }
    sim_fail_threads(0, 0);
    bool fired = sim_shared->faults[FK_THREAD_REFUSED] > fired0;
    ran_check("evaluate_tide with failing workers");
    for (int c = 0; c < callers; ++c) {
      Failing& x = f[c];
      ++sim_shared->evals;
      if (x.returned && x.thrown.size() > x.thrown0) fail("lost-exception", "%zu workers raised but the call returned values", x.thrown.size() - x.thrown0);
      if (x.refused && !fired) fail("other-exception", "an exception no worker raised: %s", x.odd.c_str());
      if (!x.returned && !x.refused) {
        bool known = false;
        for (size_t i = x.thrown0; i < x.thrown.size(); ++i) known |= x.thrown[i] == x.got;
        if (!known) fail("other-exception", "exception %d raised, which no worker of this call raised", x.got);
        if (sim_shared->threads - th0 >= 2) sim_shared->nontrivial = 1;
      }
      if (x.sc.accelerators_alive) fail("leak", "%d caches were not released", x.sc.accelerators_alive);
      if (x.returned) check_plain("no failure", x.b, x.r);
      x.r = Pred();
      x.odd.clear();
      x.odd.shrink_to_fit();
      sim_feature(H(2, x.thrown.size() - x.thrown0, (sim_shared->threads - th0) * 64 + x.n));
    }
    if (round >= 1 && sim_live_blocks() > live0) {
      grew = true;
      if (round >= 4) fail("leak", "%lld memory blocks left after the failing call", (long long)(sim_live_blocks() - live0));
    }
  }
  for (int c = 0; c < callers; ++c) {
    f[c].armed = false;
    Pred r;
    std::string err;
    {
      Active a;
      err = catching([&] { r = f[c].m->predict(f[c].b, 1, 0, {}, f[c].threads); });
    }
    ran_check("evaluate_tide");
    if (!err.empty()) fail("stays-broken", "the cause is gone but the same call raised %s", err.c_str());
    check_plain("after the failure", f[c].b, r);
  }
}

// ---------------------------------------------------------------- C03
void c03(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  bool map = W(4) == 3;
  uint32_t n = 2 + W(24);
  size_t threads = draw_threads();
  draw_schedule();
  uint32_t first = Fd(12), count = 1 + (Fd(3) == 2 ? Fd(60) : Fd(3));
  bool lasting = Fd(4) == 3;  // no further thread for as long as the call lasts
  if (lasting) count = 1u << 30;
  snprintf(sim_shared->note, sizeof sim_shared->note, "%s of %u points, %zu workers, threads %u..%u refused", map ? "map" : "batch",
           n, threads, first, first + count - 1);
  Script sc;
  sc.value = [&](double lon, double) { return cd(lon + 1, 0); };
  std::unique_ptr<ModelBox> m = make_scripted(&sc, {ref::M2});
  std::unique_ptr<TableBox> t = make_table({ref::M2, ref::O1});
  Batch b = plain_batch(n);
  Eigen::MatrixXcd f(2, n);
  for (uint32_t i = 0; i < n; ++i) { f(0, i) = cd(i + 1, 2); f(1, i) = cd(3, i); }
  bool grew = false;
  for (int round = 0, last = 3; round < last; ++round) {
    bool armed = round < last - 1;
    uint64_t live0 = sim_live_blocks(), fired0 = sim_shared->faults[FK_THREAD_REFUSED];
    std::string err;
    {
      Pred r;
      Eigen::MatrixXd mr;
      if (armed) sim_fail_threads(first, count); else sim_fail_threads(0, 0);
      {
        Active a;
        if (map) err = catching([&] { mr = t->mapping(1e9, 37, f, 1, threads); });
        else err = catching([&] { r = m->predict(b, 1, 0, {}, threads); });
      }
      sim_fail_threads(0, 0);
      ran_check("refused threads");
      bool fired = sim_shared->faults[FK_THREAD_REFUSED] > fired0;
      if (fired) sim_shared->nontrivial = 1;
      ++sim_shared->evals;
      if (!err.empty() && !fired) fail(armed ? "raises" : "stays-broken", "no thread was refused but the call raised %s", err.c_str());
      if (err.empty()) {
        if (!map) check_plain(fired ? "threads refused" : "no failure", b, r);
        else {
          ref::Angles an = ref::angles(1, 1e9, 37);
          std::vector<int> ids = t->ids();
          if (mr.rows() != (Eigen::Index)n) fail("size", "map of %u points gave %zd rows", n, (ssize_t)mr.rows());
          for (uint32_t j = 0; j < n; ++j) {
            double want = 0;
            for (int k = 0; k < 2; ++k) want += ref::harmonic(ref::kRefWaves[ids[(size_t)k]], an, f(k, j));
            if (!same(mr.row(j).sum(), want, 1e-6)) fail("wrong-result", "%s: map point %u is %.17g, expected %.17g", fired ? "threads refused" : "no failure", j, mr.row(j).sum(), want);
          }
        }
      }
      sim_feature(H(3, first * 100 + count, (uint64_t)threads * 64 + n));
    }
    err.clear();
    err.shrink_to_fit();
    if (sc.accelerators_alive) fail("leak", "%d caches were not released", sc.accelerators_alive);
    if (round >= 1 && armed && sim_live_blocks() > live0) {
      if (!grew) last += 6;
      grew = true;
      if (round >= 4) fail("leak", "%lld memory blocks left after the call", (long long)(sim_live_blocks() - live0));
    }
  }
}

// ---------------------------------------------------------------- C11
// An operation on shared objects; run() leaves its outcome in the members.
namespace {
struct Op {
  std::string name;
  std::function<void()> run;            // the call under test
  std::function<void()> check;          // its result is right (after success)
  std::function<void()> drop;           // forget the result
};
}  // namespace

static bool same_values(const std::vector<cd>& a, const std::vector<cd>& b) {
  if (a.size() != b.size()) return false;
  return a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(cd)) == 0;
}

void c11(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  if (chance(6)) return c11_shared();
  WorldOpts o;
  o.large = false;
  o.small = true;
  o.max_ids = 4;
  World w = make_world(o);
  std::unique_ptr<ModelBox> m = build_model(w.spec);
  uint32_t kind = W(12);
  Points p = make_points(w, 1 + W(5), false);
  Batch b = to_batch(p);
  size_t threads = W(3) == 2 ? 2 + W(3) : 1;
  if (threads > 1) draw_schedule();
  std::vector<int> ids;
  {
    std::set<int> s;
    uint32_t n = 1 + W(4);
    for (uint32_t i = 0; i < n; ++i) s.insert((int)W(75));
    ids.assign(s.begin(), s.end());
  }
  std::unique_ptr<TableBox> t = make_table(ids);
  size_t nw = ids.size();
  uint64_t cs = W(1u << 30);
  // shared outcome
  Pred pr;
  std::string state;
  std::unique_ptr<ModelBox> made;
  std::unique_ptr<TableBox> tmade;
  Eigen::VectorXd ser;
  Eigen::MatrixXd mat, f, vu;
  Eigen::VectorXcd coef(nw);
  for (size_t i = 0; i < nw; ++i) coef[i] = cd((int)(H(cs, i) & 63) / 8.0 - 4, (int)(H(cs, i, 1) & 63) / 8.0 - 4);
  Eigen::MatrixXcd field(nw, 3);
  for (size_t i = 0; i < nw; ++i) for (int j = 0; j < 3; ++j) field(i, j) = coef[i] * (j + 1.0);
  std::vector<std::pair<int, cd>> got;
  got.reserve(256);
  int quality = -1;
  fes::Accelerator* acc = nullptr;
  std::function<void(fes::Accelerator*)> drop_acc = free_accelerator;
  const std::string state0 = m->getstate();
  const std::vector<double> dump0 = t->dump();
  int newid = (int)W(75);
  bool new_present = false;
  for (int i : w.spec.ids) new_present |= i == newid;
  std::vector<cd> newv(w.spec.nvalues(), cd(1.5, -2.5));
  // a model of its own for the operations that change it
  std::unique_ptr<ModelBox> mut = build_model(w.spec);
  std::vector<std::pair<double, double>> probes;
  Op op;
  auto check_model = [&](const ModelBox& x, const char* what) {
    std::string d;
    if (x.ids() != w.spec.ids) d = "constituents differ";
    else if (x.ocean() != w.spec.ocean) d = "tide type differs";
    else if (x.dynamic() != w.spec.dyn) d = "dynamic list differs";
    else for (size_t k = 0; k < w.spec.ids.size(); ++k) if (!same_values(x.values(w.spec.ids[k]), m->values(w.spec.ids[k]))) d = "values differ";
    if (d.empty()) d = check_prediction(w, p, x.predict(b, w.formulae, 0, w.excluded, 1), 0);
    if (!d.empty()) fail("wrong-result", "%s: %s", what, d.c_str());
  };
  switch (kind) {
    case 0: case 1:
      op = {"predict", [&] { pr = m->predict(b, w.formulae, 0, w.excluded, threads); },
            [&] { std::string d = check_prediction(w, p, pr, 0); if (!d.empty()) fail("wrong-result", "predict returned although memory was refused: %s", d.c_str()); },
            [&] { pr = Pred(); }};
      break;
    case 2:
      op = {"getstate", [&] { state = m->getstate(); },
            [&] { if (state != state0) fail("wrong-result", "getstate returned a state of %zu bytes instead of %zu", state.size(), state0.size()); },
            [&] { state.clear(); state.shrink_to_fit(); }};
      break;
    case 3:
      op = {"setstate", [&] { made = m->restore(state0); }, [&] { check_model(*made, "setstate"); }, [&] { made.reset(); }};
      break;
    case 4:
      op = {"build", [&] { made = build_model(w.spec); }, [&] { check_model(*made, "build"); }, [&] { made.reset(); }};
      break;
    case 5:
      op = {"add_constituent", [&] { mut->add(newid, newv); },
            [&] {
              std::vector<int> want = w.spec.ids;
              if (!new_present) { want.push_back(newid); std::sort(want.begin(), want.end()); }
              if (mut->ids() != want) fail("wrong-result", "add_constituent: constituents differ");
              if (!new_present && !same_values(mut->values(newid), newv)) fail("wrong-result", "add_constituent: values differ");
            },
            [&] { mut = build_model(w.spec); }};
      break;
    case 6: {
      // a cache created before a constituent is added: it must grow
      bool early = W(2);
      if (early) {
        ModelSpec s2 = w.spec;
        s2.ids.clear();
        s2.values.clear();
        mut = build_model(s2, false);
      }
      static bool late;
      late = early;
      op = {"interpolate",
            [&] {
              if (late) {
                // created on the empty model, used on the full one
                struct A { fes::Accelerator* a; ~A() { if (a) free_accelerator(a); } } a{mut->accelerator(w.formulae, 0)};
                for (size_t k = 0; k < w.spec.ids.size(); ++k) mut->add(w.spec.ids[k], w.spec.values[k]);
                quality = mut->interpolate(b.lon[0], b.lat[0], a.a, got);
              } else {
                struct A { fes::Accelerator* a; ~A() { if (a) free_accelerator(a); } } a{m->accelerator(w.formulae, 0)};
                quality = m->interpolate(b.lon[0], b.lat[0], a.a, got);
              }
            },
            [&] {
              std::string d = check_values(w, p.e[0], quality, got, w.spec.ids);
              if (!d.empty()) fail("wrong-result", "interpolate: %s", d.c_str());
            },
            [&] { got.clear(); quality = -1; if (late) mut->clear(); }};
      break;
    }
    case 7:
      op = {"table", [&] { tmade = make_table(ids); },
            [&] { if (tmade->ids() != t->ids()) fail("wrong-result", "the wave table has other constituents"); },
            [&] { tmade.reset(); }};
      break;
    case 8:
      op = {"tide_from_tide_series", [&] { ser = t->series(b.epoch, b.leap, coef, w.formulae); },
            [&] {
              std::vector<int> ti = t->ids();
              if (ser.size() != b.epoch.size()) fail("wrong-result", "series size");
              for (Eigen::Index i = 0; i < ser.size(); ++i) {
                ref::Angles a = ref::angles(w.formulae, b.epoch[i], b.leap[i]);
                double want = 0, sc = 1;
                for (size_t k = 0; k < nw; ++k) { want += ref::harmonic(ref::kRefWaves[ti[k]], a, coef[k]); sc += 3 * std::abs(coef[k]); }
                if (std::fabs(b.epoch[i]) < 2e10 && !same(ser[i], want, sc * 1e-7 * (1 + std::fabs(b.epoch[i]) / 1e9)))
                  fail("wrong-result", "series element %zd is %.17g, expected %.17g", (ssize_t)i, ser[i], want);
              }
            },
            [&] { ser = Eigen::VectorXd(); }};
      break;
    case 9:
      op = {"tide_from_mapping", [&] { mat = t->mapping(b.epoch[0], b.leap[0], field, w.formulae, threads); },
            [&] {
              std::vector<int> ti = t->ids();
              ref::Angles a = ref::angles(w.formulae, b.epoch[0], b.leap[0]);
              if (mat.rows() != 3) fail("wrong-result", "map size");
              for (int j = 0; j < 3; ++j) {
                double want = 0, sc = 1;
                for (size_t k = 0; k < nw; ++k) { want += ref::harmonic(ref::kRefWaves[ti[k]], a, field(k, j)); sc += 3 * std::abs(field(k, j)); }
                if (!same(mat.row(j).sum(), want, sc * 1e-7 * (1 + std::fabs(b.epoch[0]) / 1e9))) fail("wrong-result", "map point %d is %.17g, expected %.17g", j, mat.row(j).sum(), want);
              }
            },
            [&] { mat = Eigen::MatrixXd(); }};
      break;
    case 10:
      op = {"compute_nodal_modulations", [&] { t->modulations(b.epoch, b.leap, w.formulae, f, vu); },
            [&] {
              std::vector<int> ti = t->ids();
              if (f.rows() != (Eigen::Index)nw || f.cols() != b.epoch.size() || vu.rows() != f.rows() || vu.cols() != f.cols()) fail("wrong-result", "modulations size");
              for (Eigen::Index i = 0; i < f.cols(); ++i) {
                ref::Angles a = ref::angles(w.formulae, b.epoch[i], b.leap[i]);
                for (size_t k = 0; k < nw; ++k)
                  if (!same(f(k, i), ref::factor(ref::kRefWaves[ti[k]].nf, a), 1e-6) ||
                      std::fabs(std::remainder(vu(k, i) - ref::vu(ref::kRefWaves[ti[k]], a), 2 * ref::kPi)) > 1e-6 * (1 + std::fabs(b.epoch[i]) / 1e9))
                    fail("wrong-result", "modulation of wave %d differs", ti[k]);
              }
            },
            [&] { f = Eigen::MatrixXd(); vu = Eigen::MatrixXd(); }};
      break;
    default: {
      // analysis of a synthetic series of two constituents
      static Eigen::VectorXd h;
      static Eigen::MatrixXd af, avu;
      static Eigen::VectorXcd z, z0;
      std::unique_ptr<TableBox> at = make_table({ref::M2, ref::K1});
      Eigen::VectorXd e(60);
      fes::Vector<uint16_t> l(60);
      for (int i = 0; i < 60; ++i) { e[i] = 1e9 + i * 10800.0; l[i] = 37; }
      z0.resize(2);
      z0 << cd(1, 2), cd(-0.5, 0.25);
      h = at->series(e, l, z0, 1);
      at->modulations(e, l, 1, af, avu);
      op = {"harmonic_analysis", [&] { z = analyse(h, af, avu); },
            [&] {
              if (z.size() != 2 || std::abs(z[0] - z0[0]) > 1e-6 || std::abs(z[1] - z0[1]) > 1e-6) fail("wrong-result", "analysis does not give the constituents back");
            },
            [&] { z = Eigen::VectorXcd(); }};
    }
  }
  (void)acc;
  // dry run: how many allocations there are, and what the call leaves behind
  sim_fail_allocs(0, 0, 0);
  {
    Active a;
    op.run();
  }
  uint64_t total = sim_alloc_calls();
  sim_fail_allocs_off();
  ran_check(op.name.c_str());
  op.check();
  op.drop();
  if (total == 0) return;
  uint32_t style = Fd(4);   // 0,1: one allocation; 2: all from there on; 3: every k-th
  uint32_t tries = 1 + Fd(4);
  for (uint32_t k = 0; k < tries; ++k) {
    uint64_t first = 1 + Fd(total > 100000 ? 100000 : (uint32_t)total);
    uint64_t period = style == 2 ? 1 : style == 3 ? 2 + Fd(5) : 0;
    snprintf(sim_shared->note, sizeof sim_shared->note, "%s with %zu workers: allocation %llu of %llu fails (then every %llu), %s", op.name.c_str(),
             threads, (unsigned long long)first, (unsigned long long)total, (unsigned long long)period, describe(w).c_str());
    std::string err;
    uint64_t live0 = sim_live_blocks();
    uint64_t mut0 = sim_live_blocks();
    (void)mut0;
    bool threw;
    sim_fail_allocs(first, period, period == 1 ? ~0ull : period ? 50 : 1);
    {
      Active a;
      threw = true;
      try {
        op.run();
        threw = false;
      } catch (const std::exception&) {
      } catch (...) {
        sim_fail_allocs_off();
        fail("odd-exception", "%s raised something that is not an exception object", op.name.c_str());
      }
    }
    uint64_t fired = sim_alloc_failures();
    sim_fail_allocs_off();
    ran_check(op.name.c_str());
    ++sim_shared->evals;
    if (fired) sim_shared->nontrivial = 1;
    sim_feature(H(11, kind * 8 + style, first * 2 + threw + (threads > 1) * 1000000));
    if (threw && !fired) fail("raises", "%s raised although memory was never refused", op.name.c_str());
    if (!threw) op.check();
    // objects involved are unchanged by a failed call
    if (threw && kind == 5) {
      if (mut->ids() != w.spec.ids) fail("object-changed", "a failed add_constituent changed the constituents");
      for (size_t i = 0; i < w.spec.ids.size(); ++i)
        if (!same_values(mut->values(w.spec.ids[i]), m->values(w.spec.ids[i]))) fail("object-changed", "a failed add_constituent changed the values");
      // the cause is gone: the same call must work now
      {
        Active a;
        err = catching([&] { op.run(); });
      }
      if (!err.empty()) fail("stays-broken", "%s: %s", op.name.c_str(), err.c_str());
      op.check();
    }
    op.drop();
    err.clear();
    err.shrink_to_fit();
    if (kind != 5 && kind != 6 && sim_live_blocks() > live0) {
      // it may be a cache: what the same failure still leaves after some more calls is a leak
      for (int more = 0; more < 8; ++more) {
        uint64_t live1 = sim_live_blocks();
        sim_fail_allocs(first, period, period == 1 ? ~0ull : period ? 50 : 1);
        {
          Active a;
          try { op.run(); } catch (...) {}
        }
        sim_fail_allocs_off();
        op.drop();
        if (more >= 3 && sim_live_blocks() > live1)
          fail("leak", "%s: %lld memory blocks more after each call", op.name.c_str(), (long long)(sim_live_blocks() - live1));
      }
    }
    if (m->getstate() != state0) fail("object-changed", "the model changed during %s", op.name.c_str());
    std::vector<double> dump1 = t->dump();
    if (dump1.size() != dump0.size() || memcmp(dump1.data(), dump0.data(), dump0.size() * 8)) fail("object-changed", "the wave table changed during %s", op.name.c_str());
  }
  // with memory available the call gives the correct result
  std::string err;
  {
    Active a;
    err = catching([&] { op.run(); });
  }
  ran_check(op.name.c_str());
  if (!err.empty()) fail("stays-broken", "%s: memory is available again but it raised %s", op.name.c_str(), err.c_str());
  op.check();
  op.drop();
}
