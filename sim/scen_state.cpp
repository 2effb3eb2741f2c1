// C05-C10: sharing, caches, time tolerance, full predictions, saved states.
#include <algorithm>
#include <cstring>
#include <thread>

#include "scen.hpp"

namespace {
struct Acc {
  fes::Accelerator* a;
  explicit Acc(fes::Accelerator* x) : a(x) {}
  Acc(Acc&& o) : a(o.a) { o.a = nullptr; }
  Acc(const Acc&) = delete;
  ~Acc() { if (a) free_accelerator(a); }
};
bool same_bits(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * 8) == 0);
}
std::string diff_matrix(const char* what, const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return strf("%s: shapes differ", what);
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!same(a.data()[i], b.data()[i], 1e-7 * (1 + std::fabs(a.data()[i]))))
      return strf("%s: element %zd is %.17g instead of %.17g", what, (ssize_t)i, b.data()[i], a.data()[i]);
  return "";
}
std::vector<int> draw_ids(uint32_t max) {
  std::set<int> s;
  uint32_t n = 1 + W(max);
  for (uint32_t i = 0; i < n; ++i) s.insert((int)W(75));
  return std::vector<int>(s.begin(), s.end());
}
cd coef_of(uint64_t seed, size_t i, size_t j = 0) {
  uint64_t h = H(seed, i, j);
  return cd(((int)(h & 255) - 128) / 16.0, ((int)((h >> 8) & 255) - 128) / 16.0);
}
}  // namespace

// ---------------------------------------------------------------- C05
namespace {
struct Call {
  int kind = 0, which = 0;     // which of the shared models
  bool failed = false;
  Batch b;
  size_t threads = 1;
  uint64_t cseed = 0;
  int fm = 0;
  std::vector<Query> q;
  // outcome
  Pred p;
  Eigen::MatrixXd m1, m2;
  std::string s;
  std::vector<std::pair<int, cd>> v;
  std::vector<int> quals;
  std::vector<int> i1, i2;
  std::vector<cd> c;
  std::vector<double> d;
  std::string err;
};
void run_call(Call& c, const World& w, const ModelBox* m, const TableBox* t, const std::vector<int>& ids) {
  c.err = catching([&] {
    switch (c.kind) {
      case 0: c.p = m->predict(c.b, w.formulae, 0, w.excluded, c.threads); break;
      case 1: {
        Acc a(m->accelerator(w.formulae, 0));
        std::vector<std::pair<int, cd>> o;
        for (auto& q : c.q) {
          c.quals.push_back(m->interpolate(q.lon, q.lat, a.a, o));
          c.v.insert(c.v.end(), o.begin(), o.end());
        }
        break;
      }
      case 2: c.s = m->getstate(); break;
      case 3:
        c.i1 = m->ids();
        c.i2 = m->dynamic();
        c.c = m->values(w.spec.ids.back());
        c.i1.push_back((int)m->size());
        c.i1.push_back(m->ocean());
        break;
      case 4: {
        Eigen::VectorXcd z(ids.size());
        for (size_t i = 0; i < ids.size(); ++i) z[i] = coef_of(c.cseed, i);
        c.m1 = t->series(c.b.epoch, c.b.leap, z, c.fm);
        break;
      }
      case 5: {
        Eigen::MatrixXcd z(ids.size(), 4);
        for (size_t i = 0; i < ids.size(); ++i) for (size_t j = 0; j < 4; ++j) z(i, j) = coef_of(c.cseed, i, j);
        c.m1 = t->mapping(c.b.epoch[0], c.b.leap[0], z, c.fm, c.threads);
        break;
      }
      case 6: t->modulations(c.b.epoch, c.b.leap, c.fm, c.m1, c.m2); break;
      case 7: c.d = t->dump(); c.i1 = t->ids(); break;
    }
  });
}
std::string compare_calls(const Call& a, const Call& b) {
  if (a.err != b.err) return strf("alone: '%s', with others: '%s'", a.err.c_str(), b.err.c_str());
  std::string d = compare_predictions(a.p, b.p);
  if (!d.empty()) return d;
  d = diff_matrix("result", a.m1, b.m1);
  if (!d.empty()) return d;
  d = diff_matrix("second result", a.m2, b.m2);
  if (!d.empty()) return d;
  if (a.s != b.s) return "saved states differ";
  if (a.i1 != b.i1 || a.i2 != b.i2) return "lists differ";
  if (a.quals != b.quals) return "qualities differ";
  if (a.c.size() != b.c.size() || (a.c.size() && memcmp(a.c.data(), b.c.data(), a.c.size() * sizeof(cd)))) return "values differ";
  if (!same_bits(a.d, b.d)) return "wave properties differ";
  if (a.v.size() != b.v.size()) return "numbers of interpolated values differ";
  for (size_t i = 0; i < a.v.size(); ++i)
    if (a.v[i].first != b.v[i].first || !same(a.v[i].second, b.v[i].second, 1e-8))
      return strf("interpolated value %zu differs", i);
  return "";
}
// another world: on the same geometry, or any
World other_world(const World& w, const WorldOpts& o, bool same_geometry) {
  World x = w;
  if (!same_geometry && !(chance(2) && shift(x))) return make_world(o);
  revalue(x, W(1u << 30));
  x.spec.ocean ^= chance(3);
  return x;
}
const char* kCall[] = {"prediction", "interpolation", "save", "read", "series", "map", "modulations", "table read"};
}  // namespace

void c05(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  WorldOpts o;
  o.small = true;
  o.max_ids = 4;
  World w = make_world(o);
  // sometimes a second model: on the same grid or mesh, or unrelated
  uint32_t second = W(4);   // 0,1 none, 2 same geometry, 3 any
  World w2 = second >= 2 ? other_world(w, o, second == 2) : w;
  const World* wd[2] = {&w, &w2};
  std::unique_ptr<ModelBox> shared_models[2], twins[2];
  shared_models[0] = build_model(w.spec);
  twins[0] = build_model(w.spec);
  if (second >= 2) {
    if (second == 2) {
      for (auto* m : {&shared_models[0], &twins[0]}) {
        std::unique_ptr<ModelBox> s = (*m)->sibling(w2.spec);
        for (size_t k = 0; k < w2.spec.ids.size(); ++k) s->add(w2.spec.ids[k], w2.spec.values[k]);
        if (!w2.spec.dyn.empty()) s->set_dynamic(w2.spec.dyn);
        (m == &twins[0] ? twins : shared_models)[1] = std::move(s);
      }
    } else {
      shared_models[1] = build_model(w2.spec);
      twins[1] = build_model(w2.spec);
    }
  }
  const int nmodels = second >= 2 ? 2 : 1;
  std::vector<int> tid = draw_ids(6);
  std::unique_ptr<TableBox> shared_table = make_table(tid), twin_table = make_table(tid);
  // the properties of the shared waves are not the default ones
  for (size_t i = 0; i < tid.size(); ++i) {
    bool d = H(w.vseed, i) & 1;
    shared_table->touch(tid[i], d, !d, coef_of(7, i));
    twin_table->touch(tid[i], d, !d, coef_of(7, i));
  }
  uint32_t callers = 2 + W(3);
  uint32_t theme = W(4);   // 0 anything, 1 model only, 2 table only, 3 everybody the same
  int common = (int)W(8);
  bool table_threads = W(3) == 2;
  std::vector<std::vector<Call>> plan(callers), alone;
  std::string names;
  for (auto& p : plan) {
    uint32_t n = 1 + W(2);
    for (uint32_t i = 0; i < n; ++i) {
      Call c;
      c.kind = theme == 1 ? (int)W(4) : theme == 2 ? 4 + (int)W(4) : theme == 3 ? common : (int)W(8);
      c.which = nmodels == 2 ? (int)W(2) : 0;
      // (with the same geometry, the positions of the first model are those of the second)
      Points pts = make_points(second == 2 ? w : *wd[c.which], 1 + W(4), false);
      if (second == 2 && !plan[0].empty() && chance(2)) {   // the same positions through both
        pts.q = plan[0][0].q;
        pts.epoch.resize(pts.q.size(), 1e9);
        pts.leap.resize(pts.q.size(), 30);
      }
      c.b = to_batch(pts);
      c.q = pts.q;
      for (Eigen::Index k = 0; k < c.b.epoch.size(); ++k)
        if (!(std::fabs(c.b.epoch[k]) < 2e10)) c.b.epoch[k] = 1e9;
      c.threads = (c.kind == 0 || table_threads) && chance(3) ? 2 : 1;
      c.cseed = W(1u << 20);
      c.fm = (int)W(3);
      names += strf("%s ", kCall[c.kind]);
      p.push_back(c);
    }
    names += "| ";
  }
  alone = plan;
  snprintf(sim_shared->note, sizeof sim_shared->note, "%u callers: %.120s", callers, names.c_str());
  // half of the time the callers meet objects, and a process, nobody has used yet
  const bool cold = W(2);
  auto run_alone = [&] {
    for (auto& p : alone)
      for (auto& c : p) run_call(c, *wd[c.which], twins[c.which].get(), twin_table.get(), tid);
  };
  std::string state0[2];
  int ocean0[2] = {0, 0};
  std::vector<int> dyn0[2], ids0[2];
  std::vector<double> dump0;
  auto look = [&](std::unique_ptr<ModelBox>* m, TableBox* t) {
    for (int k = 0; k < nmodels; ++k) {
      state0[k] = m[k]->getstate();
      ocean0[k] = m[k]->ocean();
      dyn0[k] = m[k]->dynamic();
      ids0[k] = m[k]->ids();
    }
    dump0 = t->dump();
  };
  if (!cold) {
    run_alone();
    look(shared_models, shared_table.get());
  }
  draw_schedule();
  {
    Active a;
    std::vector<std::thread> th;
    th.reserve(callers);
    for (uint32_t i = 0; i < callers; ++i)
      th.emplace_back([&, i] {
        for (auto& c : plan[i]) run_call(c, *wd[c.which], shared_models[c.which].get(), shared_table.get(), tid);
      });
    for (auto& t : th) t.join();
  }
  ran_check("concurrent callers");
  if (cold) {
    look(twins, twin_table.get());   // as the shared ones were
    run_alone();
  }
  sim_shared->nontrivial = 1;
  for (uint32_t i = 0; i < callers; ++i)
    for (size_t k = 0; k < plan[i].size(); ++k) {
      ++sim_shared->evals;
      std::string d = compare_calls(alone[i][k], plan[i][k]);
      if (!d.empty()) fail("interference", "caller %u, %s: %s", i, kCall[plan[i][k].kind], d.c_str());
      sim_feature(H(5, (uint64_t)plan[i][k].kind, callers * 100 + plan[(i + 1) % callers][0].kind));
    }
  for (int k = 0; k < nmodels; ++k)
    if (shared_models[k]->getstate() != state0[k] || shared_models[k]->ocean() != ocean0[k] || shared_models[k]->dynamic() != dyn0[k] || shared_models[k]->ids() != ids0[k])
      fail("object-changed", "the shared model changed");
  if (!same_bits(shared_table->dump(), dump0)) fail("object-changed", "the shared wave table changed");
}

// ---------------------------------------------------------------- C11, several callers
// Like run_call, but without any allocation of its own once the call failed.
static void run_refused(Call& c, const World& w, const ModelBox* m, const TableBox* t, const std::vector<int>& ids) {
  c.failed = true;
  try {
    switch (c.kind) {
      case 0: c.p = m->predict(c.b, w.formulae, 0, w.excluded, c.threads); break;
      case 1: {
        Acc a(m->accelerator(w.formulae, 0));
        std::vector<std::pair<int, cd>> o;
        for (auto& q : c.q) {
          c.quals.push_back(m->interpolate(q.lon, q.lat, a.a, o));
          c.v.insert(c.v.end(), o.begin(), o.end());
        }
        break;
      }
      case 2: c.s = m->getstate(); break;
      case 3: {
        Eigen::VectorXcd z(ids.size());
        for (size_t i = 0; i < ids.size(); ++i) z[i] = coef_of(c.cseed, i);
        c.m1 = t->series(c.b.epoch, c.b.leap, z, c.fm);
        break;
      }
      case 4: {
        Eigen::MatrixXcd z(ids.size(), 4);
        for (size_t i = 0; i < ids.size(); ++i) for (size_t j = 0; j < 4; ++j) z(i, j) = coef_of(c.cseed, i, j);
        c.m1 = t->mapping(c.b.epoch[0], c.b.leap[0], z, c.fm, c.threads);
        break;
      }
      case 5: t->modulations(c.b.epoch, c.b.leap, c.fm, c.m1, c.m2); break;
    }
    c.failed = false;
  } catch (const std::exception&) {
  } catch (...) {
    fail("odd-exception", "raised something that is not an exception object");
  }
}
void c11_shared() {
  WorldOpts o;
  o.large = false;
  o.small = true;
  o.max_ids = 4;
  World w = make_world(o);
  std::unique_ptr<ModelBox> m = build_model(w.spec);
  std::vector<int> tid = draw_ids(5);
  std::unique_ptr<TableBox> t = make_table(tid);
  uint32_t callers = 2 + W(2);
  std::vector<Call> plan(callers);
  std::string names;
  for (auto& c : plan) {
    c.kind = (int)W(6);
    Points pts = make_points(w, 1 + W(4), false);
    c.b = to_batch(pts);
    c.q = pts.q;
    for (Eigen::Index k = 0; k < c.b.epoch.size(); ++k)
      if (!(std::fabs(c.b.epoch[k]) < 2e10)) c.b.epoch[k] = 1e9;
    c.threads = (c.kind == 0 || c.kind == 4) && chance(3) ? 2 : 1;
    c.cseed = W(1u << 20);
    c.fm = (int)W(3);
    static const char* n[] = {"prediction", "interpolation", "save", "series", "map", "modulations"};
    names += n[c.kind];
    names += " ";
  }
  std::vector<Call> alone = plan;
  for (auto& c : alone) run_refused(c, w, m.get(), t.get(), tid);
  for (auto& c : alone) if (c.failed) fail("raises", "%s raised although memory was never refused", names.c_str());
  const std::string state0 = m->getstate();
  const std::vector<double> dump0 = t->dump();
  draw_schedule();
  for (int round = 0; round < 3; ++round) {
    bool armed = round < 2;
    std::vector<Call> now = plan;
    uint64_t first = 1 + Fd(60), period = Fd(3) == 2 ? 2 + Fd(6) : 0;
    {
      std::vector<std::thread> th;
      th.reserve(callers);
      snprintf(sim_shared->note, sizeof sim_shared->note, "%u callers (%.80s): allocation %llu fails (then every %llu), %s", callers, names.c_str(),
               (unsigned long long)first, (unsigned long long)period, describe(w).c_str());
      const uint64_t live0 = sim_live_blocks();
      if (armed) sim_fail_allocs(first, period, period ? 50 : 1); else sim_fail_allocs(0, 0, 0);
      {
        Active a;
        for (uint32_t i = 0; i < callers; ++i) {
          try {
            th.emplace_back([&, i] { run_refused(now[i], w, m.get(), t.get(), tid); });
          } catch (...) {
            now[i].failed = true;   // this caller could not start
          }
        }
        for (auto& x : th) x.join();
      }
      uint64_t fired = sim_alloc_failures();
      sim_fail_allocs_off();
      ran_check("callers short of memory");
      ++sim_shared->evals;
      if (fired) sim_shared->nontrivial = 1;
      for (uint32_t i = 0; i < callers; ++i) {
        if (now[i].failed) {
          if (!fired) fail("raises", "caller %u of (%s) raised although memory was not refused", i, names.c_str());
          continue;
        }
        std::string d = compare_calls(alone[i], now[i]);
        if (!d.empty()) fail("wrong-result", "caller %u of (%s) returned although memory was refused to one of them: %s", i, names.c_str(), d.c_str());
      }
      sim_feature(H(11, 777 + callers, first * 8 + period));
      th.clear();
      std::vector<Call>().swap(now);
      (void)live0;
    }
    if (m->getstate() != state0) fail("object-changed", "the model changed during %s", names.c_str());
    if (!same_bits(t->dump(), dump0)) fail("object-changed", "the wave table changed during %s", names.c_str());
  }
}

// ---------------------------------------------------------------- C06
static Query near_query(const World& w, const std::vector<Query>& past, const Query* last = nullptr) {
  Query same;   // where any model was asked just before
  if (last && chance(4) && place(w, last->lon, last->lat, &same)) return same;
  // half of the time somewhere near a position already asked
  if (!past.empty() && chance(3)) return past[W((uint32_t)past.size())];
  return make_query(w);
}

void c06(void*) {
  install_terminate();
  draw_memory();
  WorldOpts o;
  o.max_ids = 3;
  // one model or two, on the same geometry or not; the values of a model may
  // change between two queries: worlds[k] is what model of[k] held at a time
  std::vector<World> worlds;
  worlds.push_back(make_world(o));
  uint32_t second = W(5);   // ..2 none, 3 same geometry, 4 any
  std::vector<std::unique_ptr<ModelBox>> ms;
  ms.push_back(build_model(worlds[0].spec));
  if (second >= 3) {
    worlds.push_back(other_world(worlds[0], o, second == 3));
    if (second == 3) {
      const ModelSpec& s = worlds[1].spec;
      ms.push_back(ms[0]->sibling(s));
      for (size_t k = 0; k < s.ids.size(); ++k) ms[1]->add(s.ids[k], s.values[k]);
      if (!s.dyn.empty()) ms[1]->set_dynamic(s.dyn);
    } else ms.push_back(build_model(worlds[1].spec));
  }
  const size_t nm = ms.size();
  std::vector<size_t> cur(nm);   // the world of each model
  for (size_t k = 0; k < nm; ++k) cur[k] = k;
  uint32_t nacc = (uint32_t)nm + W(3);
  uint32_t n = 2 + W(40);
  bool threaded = W(6) == 5;
  bool evolving = !threaded && chance(4);
  snprintf(sim_shared->note, sizeof sim_shared->note, "%u queries through %u caches%s%s%s, %s", n, nacc, threaded ? " in threads" : "",
           nm > 1 ? " of two models" : "", evolving ? " while constituents come and go" : "", describe(worlds[0]).c_str());
  std::vector<Query> qs;
  std::vector<int> via;
  std::vector<size_t> wi(n);       // the world each answer comes from
  for (uint32_t i = 0; i < n; ++i) {
    via.push_back((int)W(nacc));
    const World& w = worlds[second == 3 ? 0 : (size_t)via[i] % nm];
    // half of the time somewhere near a position already asked of that model
    std::vector<Query> past;
    for (uint32_t k = 0; k < i; ++k)
      if (second == 3 || (size_t)via[k] % nm == (size_t)via[i] % nm) past.push_back(qs[k]);
    qs.push_back(near_query(w, past, i && nm > 1 ? &qs.back() : nullptr));
    wi[i] = (size_t)via[i] % nm;
  }
  struct Ans { int q; std::vector<std::pair<int, cd>> v; };
  std::vector<Ans> hist(n), fresh(n);
  uint32_t handed = threaded ? W(n) : 0;   // the first ones come from the thread that made the caches
  draw_schedule();
  {
    Active a;
    std::vector<Acc> accs;
    for (uint32_t k = 0; k < nacc; ++k) accs.emplace_back(ms[k % nm]->accelerator(worlds[k % nm].formulae, 0));
    auto ask = [&](uint32_t i) { hist[i].q = ms[(size_t)via[i] % nm]->interpolate(qs[i].lon, qs[i].lat, accs[(size_t)via[i]].a, hist[i].v); };
    auto again = [&](uint32_t i) {
      ModelBox& m = *ms[(size_t)via[i] % nm];
      Acc f(m.accelerator(worlds[wi[i]].formulae, 0));
      fresh[i].q = m.interpolate(qs[i].lon, qs[i].lat, f.a, fresh[i].v);
    };
    if (evolving) {
      for (uint32_t i = 0; i < n; ++i) {
        size_t k = (size_t)via[i] % nm;
        uint32_t ev = W(8);
        if (ev >= 5) {
          Quiet q;
          World x = worlds[cur[k]];
          std::vector<int> ids = x.spec.ids;
          if (ev == 7) ids.clear();           // everything is dropped, other values come
          int fresh_id = (int)W(75);
          if (std::find(ids.begin(), ids.end(), fresh_id) == ids.end()) ids.push_back(fresh_id);
          std::sort(ids.begin(), ids.end());
          x.spec.ids = ids;
          revalue(x, ev == 7 ? W(1u << 30) : x.vseed);
          Active on;
          if (ev == 7) {
            ms[k]->clear();
            for (size_t c = 0; c < x.spec.ids.size(); ++c) ms[k]->add(x.spec.ids[c], x.spec.values[c]);
          } else {
            size_t c = (size_t)(std::find(x.spec.ids.begin(), x.spec.ids.end(), fresh_id) - x.spec.ids.begin());
            ms[k]->add(fresh_id, x.spec.values[c]);
          }
          worlds.push_back(x);
          cur[k] = worlds.size() - 1;
        }
        wi[i] = cur[k];
        ask(i);
        again(i);
      }
    } else {
      for (uint32_t i = 0; i < (threaded ? handed : n); ++i) ask(i);
      if (threaded) {
        std::vector<std::thread> th;
        for (uint32_t k = 0; k < nacc; ++k)
          th.emplace_back([&, k] {
            for (uint32_t i = handed; i < n; ++i) if (via[i] == (int)k) ask(i);
          });
        for (auto& t : th) t.join();
      }
      for (uint32_t i = 0; i < n; ++i) again(i);
    }
  }
  ran_check("interpolation");
  for (uint32_t i = 0; i < n; ++i) {
    const World& w = worlds[wi[i]];
    ++sim_shared->evals;
    if (i) sim_shared->nontrivial = 1;
    const Query& q = qs[i];
    sim_feature(H(6, (uint64_t)w.spec.kind * 8 + (uint64_t)q.kind, i ? (uint64_t)qs[i - 1].kind : 99));
    Expect e = expect(w, q);
    std::string d = check_values(w, e, fresh[i].q, fresh[i].v, w.spec.ids);
    if (!d.empty()) fail("wrong-value", "first query at lon %.17g lat %.17g: %s", q.lon, q.lat, d.c_str());
    d = check_values(w, e, hist[i].q, hist[i].v, w.spec.ids);
    if (!d.empty()) fail("history", "query %u at lon %.17g lat %.17g: %s", i, q.lon, q.lat, d.c_str());
    if (fresh[i].q != hist[i].q || fresh[i].v.size() != hist[i].v.size())
      fail("history", "query %u at lon %.17g lat %.17g: quality %d, a first query gives %d", i, q.lon, q.lat, hist[i].q, fresh[i].q);
    for (size_t k = 0; k < fresh[i].v.size(); ++k) {
      cd x = fresh[i].v[k].second, y = hist[i].v[k].second;
      if (fresh[i].v[k].first != hist[i].v[k].first || !same(x, y, 1e-8))
        fail("history", "query %u at lon %.17g lat %.17g: constituent %d is (%.17g, %.17g), a first query gives (%.17g, %.17g)", i, q.lon, q.lat, fresh[i].v[k].first, y.real(), y.imag(), x.real(), x.imag());
    }
    // (an edge that lies on the equator and crosses the date line is measured
    // the long way round by Boost: such meshes are left out of this check)
    bool crosses = false;
    for (double x : w.spec.vlon) crosses |= std::fabs(std::remainder(x - 180, 360.0)) < 8;
    if (w.spec.hole.empty() && q.kind == kSoft && !crosses && w.spec.ids.size() == fresh[i].v.size() && lgp_degree(w.spec.kind) == 1) {
      // extrapolated from the nearest triangle: between the values of the mesh
      for (size_t k = 0; k < w.spec.ids.size(); ++k) {
        double x = fresh[i].v[k].second.real();
        if (fresh[i].q && !(x >= -33 && x <= 33)) fail("wrong-value", "extrapolation at lon %.17g lat %.17g gives %.17g from values within 32", q.lon, q.lat, x);
      }
    }
    if (w.spec.hole.empty() && hist[i].q == 0)
      for (auto& v : hist[i].v)
        if (!std::isnan(v.second.real()) && !std::isnan(v.second.imag())) fail("history", "query %u: undefined position with a value", i);
  }
}

// A mesh whose central vertex belongs to more than eleven triangles: the known
// finding of C06. Fixed input, no draws.
void c06_known(void*) {
  install_terminate();
  World w;
  ModelSpec& s = w.spec;
  s.kind = kLgp1D;
  s.ids = {ref::M2};
  const int n = 16;
  s.vlon.push_back(10); s.vlat.push_back(10);
  for (int i = 0; i < n; ++i) {
    s.vlon.push_back(10 + std::cos(2 * ref::kPi * i / n));
    s.vlat.push_back(10 + std::sin(2 * ref::kPi * i / n));
  }
  for (int i = 0; i < n; ++i) {
    s.tri.push_back({0, 1 + i, 1 + (i + 1) % n});
    s.codes.push_back({0, 1 + i, 1 + (i + 1) % n, 0, 0, 0});
  }
  s.ncodes = n + 1;
  s.maxd = 0;
  s.values.push_back(std::vector<cd>(n + 1, cd(1, 0)));
  std::unique_ptr<ModelBox> m = build_model(s);
  int missing = 0, dependent = 0;
  std::vector<std::pair<int, cd>> out;
  for (int i = 0; i < n; ++i) {
    double a = 2 * ref::kPi * (i + 0.5) / n;
    double lon = 10 + 0.1 * std::cos(a), lat = 10 + 0.1 * std::sin(a);        // near the hub
    double lon2 = 10 + 0.8 * std::cos(a), lat2 = 10 + 0.8 * std::sin(a);      // same triangle, near the rim
    Acc f(m->accelerator(0, 0)), h(m->accelerator(0, 0));
    int q1 = m->interpolate(lon, lat, f.a, out);
    (void)m->interpolate(lon2, lat2, h.a, out);
    int q2 = m->interpolate(lon, lat, h.a, out);
    missing += q1 == 0;
    dependent += q1 != q2;
  }
  if (dependent || missing)
    fail("fan-vertex", "mesh with a vertex shared by %d triangles: %d of %d positions next to it are not found by a first query, %d answers depend on the previous query",
         n, missing, n, dependent);
}

// ---------------------------------------------------------------- C07
void c07(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  WorldOpts o;
  o.small = true;
  o.max_ids = 4;
  o.dynamic = o.excluded = false;
  World w = make_world(o);
  w.spec.ids = {ref::K1, ref::M2};
  w.spec.values.resize(2);
  w.spec.values[1] = w.spec.values[0];
  {
    // same geometry, two well known constituents
    size_t n = w.spec.nvalues();
    for (int k = 0; k < 2; ++k) {
      w.spec.values[k].assign(n, cd());
      for (size_t j = 0; j < n; ++j) w.spec.values[k][j] = value_of(w, w.spec.ids[k], j);
    }
    for (int k = 0; k < 2; ++k) mask(w.spec, w.spec.ids[k], w.spec.values[k]);
  }
  std::unique_ptr<ModelBox> m = build_model(w.spec);
  // a batch, sometimes several in a row
  uint32_t batches = chance(4) ? 2 + W(2) : 1;
  double last_date = 0;
  for (uint32_t bi = 0; bi < batches; ++bi) {
  static const double tols[] = {600, 3600, 60, 1, 86400, 0};
  static const double odd_tols[] = {0.5, 2.5, 59.9, 1e7, 1e300, INFINITY};
  double tol = chance(5) ? odd_tols[W(6)] : tols[W(6)];
  if (bi && chance(3)) w.formulae = (int)W(3);
  // now and then a long series, through the same few positions
  const bool longish = chance(100) && tol < 1e6;   // (else every date is a candidate)
  uint32_t n = longish ? 1100 + W(1500) : 2 + W(24);
  const uint64_t ls = longish ? W(1u << 30) : 0;
  // dates: drifts of a fraction of the tolerance, repetitions, jumps
  Points p;
  double base = std::floor(4e8 + 2e9 * unit());
  static const double origins[] = {0, 1, -600, 946684800, -2208988800.0};
  if (chance(6)) base = origins[W(5)];               // dates at which something starts
  if (bi && chance(2)) base = last_date;             // where the previous batch ended
  double t = base;
  uint32_t style = W(5);   // 0 forward drift, 1 back and forth, 2 shuffled in a window, 3 jumps, 4 undefined dates mixed in
  double step = tol > 0 ? std::min(tol, 1e8) * (0.05 + 0.9 * unit()) : 30;
  uint32_t leap = chance(5) ? 0 : 27 + W(12);
  bool leap_varies = w.formulae == 2 && chance(4);
  for (uint32_t i = 0; i < n; ++i) {
    if (i >= 40) {   // the rest of a long series: not drawn one by one
      const size_t k = (size_t)(H(ls, i) % 40);
      double u = (double)(H(ls, i, 1) >> 11) / 9007199254740992.0;
      double d = t;
      switch (style) {
        case 0: case 4: t += step * (u < 0.1 ? 10 * u : 0.1 * u); break;
        case 1: t += u < 0.5 ? step : -step; break;
        case 2: t = base + (tol > 0 ? std::min(tol, 1e8) : 600) * 4 * (u - 0.5); break;
        case 3: t = u < 0.3 ? base + 86400.0 * std::floor(u * 10000) : t + step; break;
      }
      p.push(p.q[k], d, p.leap[k], p.e[k]);
      continue;
    }
    Query q = make_query(w, chance(4));
    double now = t;
    switch (style) {
      case 0: t += step; break;
      case 1: t += chance(2) ? step : -step; break;
      case 2: t = base + (tol > 0 ? std::min(tol, 1e8) : 600) * 4 * (unit() - 0.5); break;
      case 3: t = chance(3) ? base + 86400.0 * (double)W(4000) : t + step; break;
      default:
        if (chance(3)) { now = kNan; sim_fault(FK_EPOCH_ODD); }
        else if (chance(6)) { static const double h[] = {INFINITY, -INFINITY, 1e18}; now = h[W(3)]; sim_fault(FK_EPOCH_ODD); }
        else t += chance(3) ? -step : step;
    }
    if (chance(6)) now = p.size() ? p.epoch.back() : now;
    p.push(q, now, leap_varies ? leap + W(3) : leap, expect(w, q));
  }
  size_t threads = W(2) ? draw_threads() : 1;
  if (threads != 1) draw_schedule();
  if (longish) { threads = W(4) ? 1 : 2; sim_set_sched(1 + 8 * 20000); }
  Batch b = to_batch(p);
  snprintf(sim_shared->note, sizeof sim_shared->note, "%u dates style %u, tolerance %g s, step %g s, %zu workers, %s", n, style, tol, step, threads, describe(w).c_str());
  Pred r;
  std::string err;
  {
    Active a;
    err = catching([&] { r = m->predict(b, w.formulae, tol, w.excluded, threads); });
  }
  ran_check("evaluate_tide");
  if (!err.empty()) fail("raises", "evaluate_tide raised %s", err.c_str());
  sim_shared->nontrivial = 1;
  sim_feature(H(7, style * 100 + n, (uint64_t)(std::min(tol, 1e9) * 16) + threads * 1000003));
  std::string d = check_prediction(w, p, r, tol);
  if (!d.empty()) fail("stale", "%s%s", bi ? strf("batch %u: ", bi).c_str() : "", d.c_str());
  for (double x : p.epoch) if (std::fabs(x) < 2e10) last_date = x;
  }
}

// ---------------------------------------------------------------- C08
static void c08_table() {
  std::vector<int> ids;
  if (!chance(3)) ids = draw_ids(12);
  std::unique_ptr<TableBox> t = make_table(ids);
  std::vector<int> ti = t->ids();
  size_t nw = ti.size();
  {
    std::vector<int> a = ti, b = ids;
    if (ids.empty()) for (int i = 0; i < 75; ++i) b.push_back(i);
    std::sort(a.begin(), a.end());
    if (a != b) fail("table", "the table of %zu constituents has %zu others", b.size(), a.size());
  }
  int fm = (int)W(3);
  uint32_t n = W(8) ? 1 + W(12) : 0;
  uint64_t cs = W(1u << 30);
  Eigen::VectorXd e(n);
  fes::Vector<uint16_t> l(n);
  double prev = 1e9;
  for (uint32_t i = 0; i < n; ++i) {
    e[i] = prev = make_epoch(chance(6) ? 7 : -1, prev, 0);
    l[i] = (uint16_t)(18 + W(20));
  }
  Eigen::VectorXcd z(nw);
  for (size_t i = 0; i < nw; ++i) z[i] = coef_of(cs, i);
  uint32_t cols = 1 + W(6);
  Eigen::MatrixXcd zf(nw, cols);
  for (size_t i = 0; i < nw; ++i) for (uint32_t j = 0; j < cols; ++j) zf(i, j) = coef_of(cs, i, j + 1);
  double me = n ? e[0] : 1e9;
  unsigned ml = n ? l[0] : 37;
  size_t threads = W(3) == 2 ? 2 + W(3) : 1;
  draw_schedule();
  snprintf(sim_shared->note, sizeof sim_shared->note, "wave table of %zu constituents, %u dates, map of %u points, formulae %d", nw, n, cols, fm);
  sim_shared->nontrivial = 1;
  std::vector<double> dump0 = t->dump();
  uint32_t rounds = 1 + W(3);
  std::unique_ptr<TableBox> other;
  if (chance(3)) other = make_table(draw_ids(6));
  for (uint32_t k = 0; k < rounds; ++k) {
    if (k && chance(2)) fm = (int)W(3);
    if (k && chance(2)) me = make_epoch(chance(6) ? 7 : -1, me, 0);
    if (other && chance(2)) {   // another table, used in between
      size_t on = other->ids().size();
      Eigen::VectorXcd oz = Eigen::VectorXcd::Constant((Eigen::Index)on, cd(1, -1));
      Eigen::MatrixXcd of = Eigen::MatrixXcd::Constant((Eigen::Index)on, 2, cd(1, -1));
      Eigen::MatrixXd f, vu;
      Active a;
      (void)catching([&] {
        (void)other->series(e, l, oz, (fm + 1) % 3);
        (void)other->mapping(me, ml, of, (fm + 1) % 3, threads);
        other->modulations(e, l, (fm + 1) % 3, f, vu);
      });
    }
    Eigen::VectorXd s;
    Eigen::MatrixXd m, f, vu;
    std::string err;
    {
      Active a;
      err = catching([&] {
        s = t->series(e, l, z, fm);
        m = t->mapping(me, ml, zf, fm, threads);
        t->modulations(e, l, fm, f, vu);
      });
    }
    ran_check("wave table");
    if (!err.empty()) fail("raises", "%s", err.c_str());
    if (s.size() != n || f.cols() != n || f.rows() != (Eigen::Index)nw || vu.cols() != n || vu.rows() != (Eigen::Index)nw || m.rows() != cols)
      fail("size", "shapes differ");
    for (uint32_t i = 0; i < n; ++i) {
      ++sim_shared->evals;
      ref::Angles a = ref::angles(fm, e[i], l[i]);
      double want = 0, sc = 1;
      double far = 1 + std::fabs(e[i]) / 1e9;
      for (size_t c = 0; c < nw; ++c) {
        const ref::RefWave& rw = ref::kRefWaves[ti[c]];
        want += ref::harmonic(rw, a, z[c]);
        sc += 3 * std::abs(z[c]);
        if (!same(f(c, i), ref::factor(rw.nf, a), 1e-7) || !(std::fabs(std::remainder(vu(c, i) - ref::vu(rw, a), 2 * ref::kPi)) < 1e-7 * far))
          fail("modulation", "wave %s at %.17g: factor %.17g, argument %.17g; expected %.17g and %.17g", rw.name, e[i], f(c, i), vu(c, i), ref::factor(rw.nf, a), ref::vu(rw, a));
      }
      if (!same(s[i], want, sc * 1e-8 * far)) fail("series", "date %.17g: %.17g, expected %.17g", e[i], s[i], want);
    }
    ref::Angles a = ref::angles(fm, me, ml);
    for (uint32_t j = 0; j < cols; ++j) {
      ++sim_shared->evals;
      double want = 0, sc = 1;
      for (size_t c = 0; c < nw; ++c) { want += ref::harmonic(ref::kRefWaves[ti[c]], a, zf(c, j)); sc += 3 * std::abs(zf(c, j)); }
      double got = m.row(j).sum();
      if (!same(got, want, sc * 1e-8 * (1 + std::fabs(me) / 1e9))) fail("map", "point %u: %.17g, expected %.17g", j, got, want);
    }
  }
  if (!same_bits(t->dump(), dump0)) fail("table-changed", "the wave table changed");
}

static void c08_model() {
  WorldOpts o;
  o.max_ids = chance(12) ? 100 : 16;
  World w = make_world(o);
  std::unique_ptr<ModelBox> m = build_model(w.spec);
  size_t threads = W(3) == 2 ? 2 + W(3) : 1;
  draw_schedule();
  uint32_t rounds = 1 + W(3);
  sim_shared->nontrivial = 1;
  // sometimes two models in turn
  World worlds[2] = {w, w};
  std::unique_ptr<ModelBox> models[2];
  uint32_t second = W(5);
  if (second >= 3) {
    worlds[1] = other_world(w, o, second == 3);
    models[1] = build_model(worlds[1].spec);
    ++rounds;
  }
  models[0] = std::move(m);
  for (uint32_t k = 0; k < rounds; ++k) {
    const size_t which = second >= 3 ? k % 2 : 0;
    World w = worlds[which];
    ModelBox* m = models[which].get();
    Points p = make_points(w, W(10) ? 1 + W(16) : 0);
    Batch b = to_batch(p);
    snprintf(sim_shared->note, sizeof sim_shared->note, "batch %u of %zu points, %zu workers, %s", k, p.size(), threads, describe(w).c_str());
    World w2 = w;
    if (k && chance(2)) w2.excluded.clear();
    if (k && chance(3)) w2.formulae = (int)W(3);
    Pred r;
    std::string err;
    {
      Active a;
      err = catching([&] { r = m->predict(b, w2.formulae, 0, w2.excluded, threads); });
    }
    ran_check("evaluate_tide");
    if (!err.empty()) fail("raises", "evaluate_tide raised %s", err.c_str());
    std::string d = check_prediction(w2, p, r, 0);
    if (!d.empty()) fail("prediction", "batch %u: %s", k, d.c_str());
    for (auto& q : p.q) sim_feature(H(8, (uint64_t)w.spec.kind * 8 + (uint64_t)q.kind, (uint64_t)w2.formulae));
  }
}

void c08(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  if (W(4) == 3) c08_table(); else c08_model();
}

// ---------------------------------------------------------------- C09
void c09(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  WorldOpts o;
  o.small = true;
  o.max_ids = chance(5) ? 20 : 5;
  World w = make_world(o);
  const bool loaded = chance(3);   // the session starts with all the constituents
  std::unique_ptr<ModelBox> a, b;
  {
    Active act;
    a = build_model(w.spec, loaded);
    b = build_model(w.spec, loaded);
  }
  World cur = w;   // what the model holds now
  if (!loaded) {
    cur.spec.ids.clear();
    cur.spec.values.clear();
  }
  uint32_t steps = 3 + W(10);
  int restarts = 0;
  std::string trail;
  size_t nv = w.spec.nvalues();
  // states kept aside, with what the model held then
  std::vector<std::pair<std::string, World>> kept;
  for (uint32_t s = 0; s < steps; ++s) {
    // save one of the models and go on with it
    if (chance(4)) {
      bool first = chance(3);
      std::string err, st;
      trail += first ? "S0 " : "S ";
      {
        Active act;
        err = catching([&] { st = (first ? a : b)->getstate(); });
      }
      if (!err.empty()) fail("save-raises", "[%s] saving raised %s", trail.c_str(), err.c_str());
      if (kept.size() < 3) kept.emplace_back(st, cur);
    }
    // save, drop and restore
    if (W(2) || (s + 1 == steps && !restarts)) {
      std::string err;
      {
        Active act;
        err = catching([&] {
          std::string st = b->getstate();
          std::unique_ptr<ModelBox> c = b->restore(st);
          b = std::move(c);
        });
      }
      sim_fault(FK_RESTART);
      ++restarts;
      trail += "R ";
      if (!err.empty()) fail("restore-raises", "[%s] restoring an undamaged state raised %s", trail.c_str(), err.c_str());
    }
    uint32_t op = W(8);
    std::string ea, eb;
    switch (op) {
      case 0: case 1: case 2: {   // a constituent, maybe of a wrong size, maybe known already
        int id = chance(4) ? (int)W(75) : w.spec.ids[W((uint32_t)w.spec.ids.size())];
        size_t size = nv;
        uint32_t wrong = chance(3) ? 1 + W(4) : 0;
        if (wrong == 1) size = nv + 1;
        if (wrong == 2) size = nv > 1 ? nv - 1 : 0;
        if (wrong == 3) size = 0;
        if (wrong == 4) size = nv * 2;
        // the values of the world, so that the reference stays known
        std::vector<cd> v(size);
        {
          for (size_t j = 0; j < size; ++j) v[j] = value_of(w, id, j);
          if (size == nv) mask(w.spec, id, v);
        }
        bool by_name = chance(3);
        trail += strf("add(%d,%zu) ", id, size);
        {
          Active act;
          ea = catching([&] { by_name ? a->add(std::string(ref::kRefWaves[id].name), v) : a->add(id, v); });
          eb = catching([&] { by_name ? b->add(std::string(ref::kRefWaves[id].name), v) : b->add(id, v); });
        }
        if (size == nv && !ea.empty()) fail("add-refused", "[%s] a constituent of the right size was refused: %s", trail.c_str(), ea.c_str());
        if (size != nv && ea.empty()) fail("add-accepted", "[%s] a constituent of the wrong size was accepted", trail.c_str());
        if (size == nv && std::find(cur.spec.ids.begin(), cur.spec.ids.end(), id) == cur.spec.ids.end()) {
          size_t k = (size_t)(std::lower_bound(cur.spec.ids.begin(), cur.spec.ids.end(), id) - cur.spec.ids.begin());
          cur.spec.ids.insert(cur.spec.ids.begin() + (long)k, id);
          cur.spec.values.insert(cur.spec.values.begin() + (long)k, v);
        }
        break;
      }
      case 3: {
        std::vector<int> d = chance(3) ? std::vector<int>() : draw_ids(4);
        if (!d.empty() && chance(4)) d.insert(d.begin() + W((uint32_t)d.size() + 1), d[W((uint32_t)d.size())]);   // twice the same
        trail += strf("dynamic(%zu) ", d.size());
        Active act;
        a->set_dynamic(d);
        b->set_dynamic(d);
        cur.spec.dyn = d;
        break;
      }
      case 4:
        if (!chance(2)) goto predict;
        trail += "clear ";
        {
          Active act;
          a->clear();
          b->clear();
        }
        cur.spec.ids.clear();
        cur.spec.values.clear();
        cur.spec.dyn.clear();
        break;
      case 5: case 6:
      predict: {
        Points p = make_points(cur, 1 + W(5));
        Batch bb = to_batch(p);
        Pred ra, rb;
        trail += "predict ";
        {
          Active act;
          ea = catching([&] { ra = a->predict(bb, w.formulae, 0, w.excluded, 1); });
          eb = catching([&] { rb = b->predict(bb, w.formulae, 0, w.excluded, 1); });
        }
        if (ea.empty() && eb.empty()) {
          // quality of an empty grid model is not defined by the data
          std::string d = compare_predictions(ra, rb, &p);
          if (!d.empty()) fail("prediction-differs", "[%s] original and restored model disagree at %s", trail.c_str(), d.c_str());
          if (!cur.spec.ids.empty()) {
            d = check_prediction(cur, p, rb, 0);
            if (!d.empty()) fail("prediction-wrong", "[%s] restored model: %s", trail.c_str(), d.c_str());
          }
        }
        break;
      }
      default: {
        Query q = make_query(w);
        std::vector<std::pair<int, cd>> va, vb;
        int qa = -1, qb = -1;
        trail += "interpolate ";
        {
          Active act;
          ea = catching([&] { Acc x(a->accelerator(w.formulae, 0)); qa = a->interpolate(q.lon, q.lat, x.a, va); });
          eb = catching([&] { Acc x(b->accelerator(w.formulae, 0)); qb = b->interpolate(q.lon, q.lat, x.a, vb); });
        }
        if (qa != qb || va.size() != vb.size()) fail("interpolation-differs", "[%s] quality %d and %d", trail.c_str(), qa, qb);
        for (size_t i = 0; i < va.size(); ++i)
          if (va[i].first != vb[i].first || !same(va[i].second, vb[i].second, 1e-9))
            fail("interpolation-differs", "[%s] constituent %d differs at lon %g lat %g", trail.c_str(), va[i].first, q.lon, q.lat);
      }
    }
    if (ea.empty() != eb.empty()) fail("acceptance-differs", "[%s] original: '%s', restored: '%s'", trail.c_str(), ea.c_str(), eb.c_str());
    // everything one can read
    ++sim_shared->evals;
    for (int z = 0; z < 2; ++z) {
      ModelBox& x = z ? *b : *a;
      const char* who = z ? "restored" : "original";
      if (x.ids() != cur.spec.ids || x.size() != cur.spec.ids.size() || x.empty() != cur.spec.ids.empty())
        fail("constituents-differ", "[%s] the %s model has %zu constituents, expected %zu", trail.c_str(), who, x.ids().size(), cur.spec.ids.size());
      if (x.dynamic() != cur.spec.dyn) fail("dynamic-differs", "[%s] the %s model lists %zu dynamic constituents, expected %zu", trail.c_str(), who, x.dynamic().size(), cur.spec.dyn.size());
      if (x.ocean() != w.spec.ocean) fail("type-differs", "[%s] tide type of the %s model", trail.c_str(), who);
      for (size_t k = 0; k < cur.spec.ids.size(); ++k) {
        std::vector<cd> v = x.values(cur.spec.ids[k]);
        if (v.size() != nv) fail("values-differ", "[%s] size of constituent %d in the %s model", trail.c_str(), cur.spec.ids[k], who);
        for (size_t j = 0; j < nv; ++j)
          if (!same(v[j].real(), cur.spec.values[k][j].real(), 0) || !same(v[j].imag(), cur.spec.values[k][j].imag(), 0))
            fail("values-differ", "[%s] constituent %d in the %s model", trail.c_str(), cur.spec.ids[k], who);
      }
    }
    sim_feature(H(9, op, (uint64_t)w.spec.kind * 64 + (uint64_t)restarts));
  }
  // the states kept aside are still those of their time
  for (auto& k : kept) {
    std::unique_ptr<ModelBox> c;
    std::string err;
    ++restarts;
    sim_fault(FK_RESTART);
    {
      Active act;
      err = catching([&] { c = a->restore(k.first); });
    }
    if (!err.empty()) fail("restore-raises", "[%s] restoring a state kept aside raised %s", trail.c_str(), err.c_str());
    const World& was = k.second;
    ++sim_shared->evals;
    if (c->ids() != was.spec.ids || c->dynamic() != was.spec.dyn || c->ocean() != was.spec.ocean)
      fail("constituents-differ", "[%s] a state kept aside is not that of its time", trail.c_str());
    for (size_t i = 0; i < was.spec.ids.size(); ++i) {
      std::vector<cd> v = c->values(was.spec.ids[i]);
      for (size_t j = 0; j < nv; ++j)
        if (v.size() != nv || !same(v[j].real(), was.spec.values[i][j].real(), 0) || !same(v[j].imag(), was.spec.values[i][j].imag(), 0))
          fail("values-differ", "[%s] constituent %d in a state kept aside", trail.c_str(), was.spec.ids[i]);
    }
    if (was.spec.ids.empty()) continue;
    Points p = make_points(was, 1 + W(3));
    Batch bb = to_batch(p);
    Pred r;
    {
      Active act;
      err = catching([&] { r = c->predict(bb, w.formulae, 0, w.excluded, 1); });
    }
    if (!err.empty()) fail("prediction-differs", "[%s] a model restored from a state kept aside raised %s", trail.c_str(), err.c_str());
    std::string d = check_prediction(was, p, r, 0);
    if (!d.empty()) fail("prediction-wrong", "[%s] a model restored from a state kept aside: %s", trail.c_str(), d.c_str());
  }
  if (restarts) sim_shared->nontrivial = 1;
  snprintf(sim_shared->note, sizeof sim_shared->note, "%d restarts: %.80s %s", restarts, trail.c_str(), describe(w).c_str());
}

// ---------------------------------------------------------------- C10
static void use_model(const World& w, ModelBox& m) {
  // whatever was restored can be queried, predicted with and saved
  Points p = make_points(w, 4, true);
  Batch b = to_batch(p);
  (void)catching([&] { (void)m.predict(b, w.formulae, 0, w.excluded, 1); });
  (void)catching([&] {
    Acc a(m.accelerator(w.formulae, 0));
    std::vector<std::pair<int, cd>> o;
    for (auto& q : p.q) (void)m.interpolate(q.lon, q.lat, a.a, o);
  });
  (void)catching([&] { (void)m.ids(); (void)m.dynamic(); for (int i : m.ids()) (void)m.values(i); });
  (void)catching([&] { m.add(ref::M2, std::vector<cd>(w.spec.nvalues(), cd(1, 1))); });
  std::string s;
  std::string err = catching([&] { s = m.getstate(); });
  if (err.empty()) {
    std::unique_ptr<ModelBox> again;
    std::string e2 = catching([&] { again = m.restore(s); });
    if (again) (void)catching([&] { (void)again->predict(b, w.formulae, 0, w.excluded, 1); });
  }
}

void c10(void*) {
  install_terminate();
  draw_memory();
  draw_cores();
  WorldOpts o;
  o.large = false;
  o.small = !chance(8);
  o.max_ids = 3;
  World w = make_world(o);
  std::unique_ptr<ModelBox> m = build_model(w.spec);
  uint32_t target = W(4);   // 0,1 model, 2.. parts
  int part = -1;
  if (target >= 2) part = (int)(target - 2) % m->parts();
  std::string s0 = part < 0 ? m->getstate() : m->part_state(part);
  std::string s = s0;
  uint32_t style = Fd(13);
  std::string how;
  bool cut = false;
  uint32_t len = (uint32_t)s.size();
  auto put64 = [&](size_t at, uint64_t v, size_t n) { for (size_t i = 0; i < n && at + i < s.size(); ++i) s[at + i] = (char)(v >> (8 * i)); };
  switch (style) {
    case 0: case 1: {   // the end is lost
      uint32_t lost = Fd(2) ? 1 + Fd(len) : 1 + Fd(len < 40 ? len : 40);
      s.resize(len - lost);
      how = strf("the last %u of %u bytes are lost", lost, len);
      cut = true;
      sim_fault(FK_STATE_TRUNCATED);
      break;
    }
    case 2: {           // some bits flip
      uint32_t n = 1 + Fd(4);
      for (uint32_t i = 0; i < n; ++i) { uint32_t at = Fd(len); s[at] = (char)(s[at] ^ (1 << Fd(8))); how += strf("bit of byte %u flipped ", at); }
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    case 3: {           // a field takes an odd value
      uint32_t at = Fd(2) ? Fd(len) : Fd(len < 120 ? len : 120);
      static const uint64_t odd[] = {0, ~0ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 1, 0x100000000ull, 0xffffffffull, 1000000,
                                     0x7ff8000000000000ull, 0x7ff0000000000000ull, 0x7fefffffffffffffull, 0x80000000ull, 1ull << 61, 1ull << 60, (1ull << 62) / 3};
      uint64_t v = odd[Fd(15)];
      size_t n = Fd(2) ? 4 : 8;
      put64(at, v, n);
      how = strf("%zu bytes at %u set to 0x%llx", n, at, (unsigned long long)v);
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    case 4: {           // a block is zero
      uint32_t at = Fd(len), n = 1 + Fd(64);
      for (uint32_t i = at; i < at + n && i < len; ++i) s[i] = 0;
      how = strf("%u bytes at %u are zero", n, at);
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    case 5: {           // a block in the middle is lost
      uint32_t at = Fd(len), n = 1 + Fd(32);
      s.erase(at, n);
      how = strf("%u bytes at %u are missing", n, at);
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    case 6: {           // a count of the format takes a small wrong value
      uint32_t at = Fd(len);
      uint64_t v;
      memcpy(&v, s.data() + (at + 8 <= len ? at : 0), len >= 8 ? 8 : len);
      // look for a plausible 64-bit count from there on
      for (uint32_t k = 0; k + 8 <= len; ++k) {
        uint32_t i = (at + k) % (len - 7);
        memcpy(&v, s.data() + i, 8);
        if (v > 0 && v < 100000) { at = i; break; }
      }
      if (at + 8 > len) at = 0;
      static const int d[] = {1, -1, 2, -2, 3, 100, -100, 1000};
      int dd = d[Fd(8)];
      memcpy(&v, s.data() + at, len >= 8 ? 8 : len);
      put64(at, v + (uint64_t)(int64_t)dd, 8);
      how = strf("count %llu at %u becomes %lld", (unsigned long long)v, at, (long long)(v + (uint64_t)(int64_t)dd));
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    case 8: case 9: {   // mixed with the state of another model
      World w2 = Fd(2) ? make_world(o) : w;
      if (Fd(2)) w2.spec.kind ^= 1;                 // in the other precision
      revalue(w2, W(1u << 30));
      std::unique_ptr<ModelBox> m2 = build_model(w2.spec);
      std::string s2 = part < 0 ? m2->getstate() : m2->part_state((int)Fd((uint32_t)m2->parts()));
      if (part < 0 && Fd(4) == 3) s2 = m2->part_state((int)Fd((uint32_t)m2->parts()));
      uint32_t at = Fd(len), cut2 = (uint32_t)std::min<size_t>(s2.size(), at);
      switch (style == 8 ? 0 : 1 + Fd(3)) {
        case 0: s = s2; how = strf("all %zu bytes are those of (%s)", s2.size(), describe(w2).c_str()); break;
        case 1: s = s.substr(0, at) + s2.substr(cut2); how = strf("from byte %u on, those of (%s)", at, describe(w2).c_str()); break;
        case 2: s = s2.substr(0, cut2) + s.substr(at); how = strf("up to byte %u, those of (%s)", at, describe(w2).c_str()); break;
        default: {
          uint32_t n = 1 + Fd(64);
          for (uint32_t i = at; i < at + n && i < len && i < s2.size(); ++i) s[i] = s2[i];
          how = strf("%u bytes at %u are those of (%s)", n, at, describe(w2).c_str());
        }
      }
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    case 10: case 11: case 12: {  // a part is another one, or its counts and its content disagree consistently
      int k = part < 0 ? (int)Fd((uint32_t)m->parts()) : part;
      std::string p0 = m->part_state(k), p = p0;
      if (style == 10) {          // of another model, or the other part of this one
        World w2 = make_world(o);
        std::unique_ptr<ModelBox> m2 = Fd(4) ? build_model(w2.spec) : build_model(w.spec);
        p = m2->part_state((int)Fd((uint32_t)m2->parts()));
        how = strf("part %d is that of (%s)", k, describe(w2).c_str());
      } else if (style == 11) {   // a count changes together with what it counts
        uint32_t at = Fd((uint32_t)p.size());
        uint64_t v = 0;
        for (uint32_t j = 0; j + 8 <= p.size(); ++j) {
          uint32_t i = (at + j) % (uint32_t)(p.size() - 7);
          memcpy(&v, p.data() + i, 8);
          if (v > 0 && v < 100000) { at = i; break; }
        }
        static const uint32_t es[] = {8, 4, 12, 16, 24, 1};
        uint32_t d = 1 + Fd(Fd(2) ? 12 : 2), e = es[Fd(6)], head = Fd(2) ? 8 : 16;
        bool more = Fd(2) != 0;
        if (at + 8 > p.size()) at = 0;
        memcpy(&v, p.data() + at, 8);
        uint64_t nv = more ? v + d : v - d;
        for (int i = 0; i < 8; ++i) p[at + (size_t)i] = (char)(nv >> (8 * i));
        size_t from = std::min(p.size(), (size_t)at + head);
        if (more) p.insert(from, std::string(d * e, '\0'));
        else p.erase(from, d * e);
        how = strf("part %d: count %llu at %u becomes %lld, and %u bytes at %zu %s", k, (unsigned long long)v, at, (long long)nv, d * e, from, more ? "are added" : "are removed");
      } else {                    // an aligned number takes an odd value
        static const uint64_t odd[] = {0x7ff8000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7fefffffffffffffull, 0, 0x4024000000000000ull, 0x8000000000000000ull, 1};
        uint32_t n = 1 + Fd(3);
        for (uint32_t i = 0; i < n && p.size() >= 8; ++i) {
          uint32_t at = 8 * Fd((uint32_t)p.size() / 8);
          uint64_t v = odd[Fd(8)];
          memcpy(&p[at], &v, 8);
          how += strf("part %d: number at %u set to 0x%llx ", k, at, (unsigned long long)v);
        }
      }
      if (part >= 0) s = p;
      else {
        size_t at = s.find(p0);
        if (at != std::string::npos && at >= 8) {
          uint64_t n;
          memcpy(&n, s.data() + at - 8, 8);
          s.replace(at, p0.size(), p);
          if (n == p0.size()) put64(at - 8, p.size(), 8);
        } else s = p;
      }
      sim_fault(FK_STATE_FLIPPED);
      break;
    }
    default: {          // a block comes from elsewhere
      uint32_t from = Fd(len), to = Fd(len), n = 1 + Fd(64);
      for (uint32_t i = 0; i < n && from + i < len && to + i < len; ++i) s[to + i] = s0[from + i];
      how = strf("%u bytes at %u overwritten by those at %u", n, to, from);
      sim_fault(FK_STATE_FLIPPED);
    }
  }
  sim_shared->nontrivial = 1;
  snprintf(sim_shared->note, sizeof sim_shared->note, "%s of %s: %s", part < 0 ? "state" : part ? "latitude axis state" : is_lgp(w.spec.kind) ? "mesh state" : "longitude axis state", describe(w).c_str(), how.c_str());
  sim_trace("%s", sim_shared->note);
  ++sim_shared->evals;
  sim_feature(H(10, style * 64 + (uint64_t)w.spec.kind * 8 + (uint64_t)(part + 1), how.size()));
  Query q = make_query(w);
  std::string err;
  {
    // the damaged state sits at the end of its own memory: reads past it show
    Active a;
    std::unique_ptr<ModelBox> r;
    if (part < 0) {
      err = catching([&] { r = m->restore(s); });
      if (cut && err.empty()) fail("truncated-accepted", "%s: the state was accepted", how.c_str());
      if (r) use_model(w, *r);
    } else {
      bool accepted = false;
      err = catching([&] { m->restore_part(part, s, q.lon, q.lat, accepted); });
      if (cut && accepted) fail("truncated-accepted", "%s: the state was accepted", how.c_str());
    }
  }
  ran_check("damaged state");
  // the original is not affected
  Points p = make_points(w, 2, false);
  std::string d = check_prediction(w, p, m->predict(to_batch(p), w.formulae, 0, w.excluded, 1), 0);
  if (!d.empty()) fail("original-changed", "%s", d.c_str());
}
