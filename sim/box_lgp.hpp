#include "box_impl.hpp"
#include "fes/tidal_model/lgp.hpp"

namespace {
template <class M, class T, int N>
struct Lgp : ModelImpl<M, T> {
  explicit Lgp(const ModelSpec& s) {
    build(s, nullptr);
  }
  Lgp(const ModelSpec& s, std::shared_ptr<fes::mesh::Index> index) { build(s, std::move(index)); }
  void build(const ModelSpec& s, std::shared_ptr<fes::mesh::Index> index) {
    Eigen::VectorXd lon(s.vlon.size()), lat(s.vlat.size());
    for (size_t i = 0; i < s.vlon.size(); ++i) { lon[i] = s.vlon[i]; lat[i] = s.vlat[i]; }
    Eigen::Matrix<int32_t, -1, 3> tri(s.tri.size(), 3);
    typename M::codes_t codes(s.tri.size(), 3 * N);
    for (size_t i = 0; i < s.tri.size(); ++i) {
      for (int j = 0; j < 3; ++j) tri(i, j) = s.tri[i][j];
      for (int j = 0; j < 3 * N; ++j) codes(i, j) = s.codes[i][j];
    }
    if (!index) index = std::make_shared<fes::mesh::Index>(lon, lat, tri);
    this->m = std::make_shared<M>(index, codes, s.ocean ? fes::kTide : fes::kRadial, s.maxd);
  }
  explicit Lgp(M&& o) { this->m = std::make_shared<M>(std::move(o)); }
  std::string getstate() const override { return this->m->getstate(); }
  std::unique_ptr<ModelBox> restore(const std::string& s) const override {
    return std::unique_ptr<ModelBox>(new Lgp(M::setstate(fes::string_view(s.data(), s.size()))));
  }
  std::unique_ptr<ModelBox> sibling(const ModelSpec& s) const override {
    return std::unique_ptr<ModelBox>(new Lgp(s, this->m->index()));
  }
  int parts() const override { return 1; }
  std::string part_state(int) const override { return this->m->index()->getstate(); }
  void restore_part(int, const std::string& s, double lon, double lat, bool& accepted) const override {
    auto a = fes::mesh::Index::setstate(fes::string_view(s.data(), s.size()));
    accepted = true;
    auto r = a.search(fes::geometry::Point(lon, lat), 1e6);
    if (r.index >= 0) (void)a.triangles()(r.index, 0);
    (void)a.search(fes::geometry::Point(lon, lat), 0);
    (void)a.n_positions();
    const std::string again_s = a.getstate();
    auto again = fes::mesh::Index::setstate(fes::string_view(again_s.data(), again_s.size()));
    (void)again.n_triangles();
  }
  int search(double lon, double lat) const override {
    return this->m->index()->search(fes::geometry::Point(lon, lat), 0).index;
  }
};
}  // namespace
