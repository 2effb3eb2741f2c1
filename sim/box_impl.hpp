#pragma once
#include <stdexcept>

#include "box.hpp"
#include "fes/abstract_tidal_model.hpp"
#include "fes/settings.hpp"
#include "fes/tide.hpp"
#include "simrt.h"

// Results take part in the event log, so that two executions of a run must also
// agree on them.
inline void log_bits(const void* p, size_t n) {
  const auto* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i + 8 <= n; i += 8) {
    uint64_t v = 0;
    for (size_t k = 0; k < 8; ++k) v |= static_cast<uint64_t>(c[i + k]) << (8 * k);
    sim_log(v);
  }
  sim_log(n);
}

template <class M, class T>
struct ModelImpl : ModelBox {
  std::shared_ptr<M> m;
  static fes::Vector<std::complex<T>> conv(const std::vector<cd>& v) {
    fes::Vector<std::complex<T>> r(v.size());
    for (size_t i = 0; i < v.size(); ++i) r[i] = std::complex<T>(static_cast<T>(v[i].real()), static_cast<T>(v[i].imag()));
    return r;
  }
  static std::vector<fes::Constituent> cons(const std::vector<int>& d) {
    std::vector<fes::Constituent> r;
    for (int i : d) r.push_back(static_cast<fes::Constituent>(i));
    return r;
  }
  void add(int id, const std::vector<cd>& v) override { m->add_constituent(static_cast<fes::Constituent>(id), conv(v)); }
  void add(const std::string& n, const std::vector<cd>& v) override {
    static_cast<fes::AbstractTidalModel<T>&>(*m).add_constituent(n, conv(v));
  }
  void set_dynamic(const std::vector<int>& d) override { m->dynamic(cons(d)); }
  void clear() override { m->clear(); }
  std::vector<int> dynamic() const override {
    std::vector<int> r;
    for (auto c : const_cast<const M&>(*m).dynamic()) r.push_back(c);
    return r;
  }
  std::vector<int> ids() const override {
    std::vector<int> r;
    for (auto c : m->identifiers()) r.push_back(c);
    return r;
  }
  size_t size() const override { return m->size(); }
  bool empty() const override { return m->empty(); }
  bool ocean() const override { return m->tide_type() == fes::kTide; }
  std::vector<cd> values(int id) const override {
    std::vector<cd> r;
    auto it = m->data().find(static_cast<fes::Constituent>(id));
    if (it == m->data().end()) return r;
    for (Eigen::Index i = 0; i < it->second.size(); ++i)
      r.emplace_back(static_cast<double>(it->second[i].real()), static_cast<double>(it->second[i].imag()));
    return r;
  }
  Pred predict(const Batch& b, int formulae, double tol, const std::vector<int>& excluded,
               size_t threads) const override {
    fes::Settings st(static_cast<fes::angle::Formulae>(formulae), tol, cons(excluded));
    auto r = fes::evaluate_tide<T>(m.get(), b.epoch, b.leap, b.lon, b.lat, st, threads);
    Pred p;
    p.tide = std::move(std::get<0>(r));
    p.lp = std::move(std::get<1>(r));
    const auto& q = std::get<2>(r);
    p.quality.resize(q.size());
    for (Eigen::Index i = 0; i < q.size(); ++i) p.quality[i] = q[i];
    log_bits(p.tide.data(), static_cast<size_t>(p.tide.size()) * 8);
    log_bits(p.lp.data(), static_cast<size_t>(p.lp.size()) * 8);
    for (int i : p.quality) sim_log(static_cast<uint64_t>(i));
    return p;
  }
  fes::Accelerator* accelerator(int formulae, double tol) const override {
    return m->accelerator(static_cast<fes::angle::Formulae>(formulae), tol);
  }
  int interpolate(double lon, double lat, fes::Accelerator* acc,
                  std::vector<std::pair<int, cd>>& out) const override {
    fes::Quality q = fes::kUndefined;
    const auto& r = const_cast<const M&>(*m).interpolate(fes::geometry::Point(lon, lat), q, acc);
    out.clear();
    for (const auto& i : r) {
      out.emplace_back(static_cast<int>(i.first), i.second);
      log_bits(&i.second, sizeof i.second);
    }
    sim_log(static_cast<uint64_t>(q));
    return q;
  }
};
