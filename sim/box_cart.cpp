#include "box_impl.hpp"
#include "fes/tidal_model/cartesian.hpp"

namespace {
Eigen::VectorXd lons(const ModelSpec& s) {
  Eigen::VectorXd v(s.nlon);
  for (int i = 0; i < s.nlon; ++i) {
    double x = s.lon0 + i * s.dlon;
    if (s.wrapped) {
      while (x >= 180) x -= 360;
      while (x < -180) x += 360;
    }
    v[i] = x;
  }
  return v;
}
Eigen::VectorXd lats(const ModelSpec& s) {
  Eigen::VectorXd v(s.nlat);
  for (int i = 0; i < s.nlat; ++i) v[i] = s.lat0 + i * s.dlat;
  return v;
}

template <class T>
struct Cart : ModelImpl<fes::tidal_model::Cartesian<T>, T> {
  using M = fes::tidal_model::Cartesian<T>;
  explicit Cart(const ModelSpec& s) {
    this->m = std::make_shared<M>(fes::Axis(lons(s), 1e-6, s.circular_flag), fes::Axis(lats(s)),
                                  s.ocean ? fes::kTide : fes::kRadial, s.row_major);
  }
  explicit Cart(M&& o) { this->m = std::make_shared<M>(std::move(o)); }
  std::string getstate() const override { return this->m->getstate(); }
  std::unique_ptr<ModelBox> restore(const std::string& s) const override {
    return std::unique_ptr<ModelBox>(new Cart(M::setstate(fes::string_view(s.data(), s.size()))));
  }
  std::unique_ptr<ModelBox> sibling(const ModelSpec& s) const override {
    auto c = std::make_unique<Cart>(s);
    c->m = std::make_shared<M>(this->m->lon(), this->m->lat(), s.ocean ? fes::kTide : fes::kRadial, s.row_major);
    return c;
  }
  int parts() const override { return 2; }
  std::string part_state(int w) const override { return w ? this->m->lat().getstate() : this->m->lon().getstate(); }
  void restore_part(int, const std::string& s, double lon, double lat, bool& accepted) const override {
    auto a = fes::Axis::setstate(fes::string_view(s.data(), s.size()));
    accepted = true;
    for (double x : {lon, lat, a.start(), a.start() + a.step() / 2}) {
      (void)a.find_index(x);
      (void)a.find_index(x, true);
      auto r = a.find_indices(x);
      if (r) {
        // what the library says is an index of the axis must be one
        (void)a(std::get<0>(*r));
        (void)a(std::get<1>(*r));
      }
    }
    (void)a.is_circular();
    const std::string again_s = a.getstate();
    auto again = fes::Axis::setstate(fes::string_view(again_s.data(), again_s.size()));
    (void)(again == a);
  }
};
}  // namespace

std::unique_ptr<ModelBox> make_cartesian(const ModelSpec& s) {
  if (is_float(s.kind)) return std::unique_ptr<ModelBox>(new Cart<float>(s));
  return std::unique_ptr<ModelBox>(new Cart<double>(s));
}
