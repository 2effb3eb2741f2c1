// C interface over the library of /repo for the Python simulator: what the
// bindings (src/python/core, which need pybind11) give to config.py.
#include <complex>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>

#include "fes/abstract_tidal_model.hpp"
#include "fes/axis.hpp"
#include "fes/constituent.hpp"
#include "fes/mesh/index.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/angle/astronomic.hpp"
#include "fes/tide.hpp"
#include "fes/wave/table.hpp"

static std::string last;

template <typename R, typename F>
static auto guard(R bad, F&& f) -> R {
  last.clear();
  try {
    return f();
  } catch (const std::bad_alloc& e) {
    last = std::string("M") + e.what();
  } catch (const std::out_of_range& e) {
    last = std::string("I") + e.what();
  } catch (const std::invalid_argument& e) {
    last = std::string("V") + e.what();
  } catch (const std::exception& e) {
    last = std::string("R") + e.what();
  }
  return bad;
}

struct Model {
  virtual ~Model() = default;
  virtual void add(const char* name, const double* data, int64_t n) = 0;
  virtual void dynamic(const int* ids, int n) = 0;
  virtual int get_dynamic(int* ids, int cap) = 0;
  virtual int ids(int* out, int cap) = 0;
  virtual int tide_type() = 0;
  virtual void clear() = 0;
  virtual void interpolate(int id, const double* lon, const double* lat, int n, double* out, int8_t* q) = 0;
  virtual void evaluate(const double* epoch, const uint16_t* leap, const double* lon, const double* lat, int n,
                        const fes::Settings& settings, double* tide, double* lp, int8_t* q) = 0;
  fes::Axis lon, lat;
  std::shared_ptr<fes::mesh::Index> index;
};

template <typename T>
struct ModelT : Model {
  std::shared_ptr<fes::AbstractTidalModel<T>> m;
  void add(const char* name, const double* data, int64_t n) override {
    fes::Vector<std::complex<T>> v(n);
    for (int64_t i = 0; i < n; ++i)
      v[i] = std::complex<T>(static_cast<T>(data[2 * i]), static_cast<T>(data[2 * i + 1]));
    m->add_constituent(std::string(name), std::move(v));
  }
  void dynamic(const int* ids, int n) override {
    std::vector<fes::Constituent> d;
    for (int i = 0; i < n; ++i) d.push_back(static_cast<fes::Constituent>(ids[i]));
    m->dynamic(std::move(d));
  }
  template <typename V>
  static int copy(const V& v, int* out, int cap) {
    int n = 0;
    for (auto&& x : v)
      if (n < cap) out[n++] = static_cast<int>(x);
    return n;
  }
  int get_dynamic(int* out, int cap) override { return copy(m->dynamic(), out, cap); }
  int ids(int* out, int cap) override { return copy(m->identifiers(), out, cap); }
  int tide_type() override { return m->tide_type(); }
  void clear() override { m->clear(); }
  void interpolate(int id, const double* x, const double* y, int n, double* out, int8_t* qual) override {
    std::unique_ptr<fes::Accelerator> acc(m->accelerator(fes::angle::Formulae::kSchuremanOrder1, 0.0));
    for (int i = 0; i < n; ++i) {
      auto q = fes::Quality::kUndefined;
      for (auto&& item : m->interpolate({x[i], y[i]}, q, acc.get())) {
        if (static_cast<int>(item.first) != id) continue;
        auto v = item.second;
        out[2 * i] = v.real();
        out[2 * i + 1] = v.imag();
      }
      qual[i] = static_cast<int8_t>(q);
    }
  }
  void evaluate(const double* epoch, const uint16_t* leap, const double* x, const double* y, int n,
                const fes::Settings& settings, double* tide, double* lp, int8_t* qual) override {
    using V = Eigen::VectorXd;
    fes::Vector<uint16_t> l = Eigen::Map<const fes::Vector<uint16_t>>(leap, n);
    V e = Eigen::Map<const V>(epoch, n), a = Eigen::Map<const V>(x, n), b = Eigen::Map<const V>(y, n);
    auto r = fes::evaluate_tide<T>(m.get(), e, l, a, b, settings, 1);
    for (int i = 0; i < n; ++i)
      tide[i] = std::get<0>(r)(i), lp[i] = std::get<1>(r)(i), qual[i] = static_cast<int8_t>(std::get<2>(r)(i));
  }
};

template <typename T, typename L, int N>
static auto make_lgp(std::shared_ptr<fes::mesh::Index> const& index, const int32_t* codes, int rows, int type,
                     double max_distance) -> Model* {
  typename L::codes_t c(rows, N);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < N; ++j) c(i, j) = codes[i * N + j];
  auto r = new ModelT<T>;
  std::unique_ptr<Model> own(r);
  r->m = std::make_shared<L>(index, std::move(c), static_cast<fes::TideType>(type), max_distance);
  r->index = index;
  return own.release();
}

extern "C" {
const char* core_error() { return last.c_str(); }

// constituents
int core_known(char* out, int cap) {
  std::string s;
  for (auto&& x : fes::constituents::known()) s += x + "\n";
  if (static_cast<int>(s.size()) + 1 > cap) return -1;
  memcpy(out, s.c_str(), s.size() + 1);
  return static_cast<int>(s.size());
}
int core_parse(const char* name) {
  return guard(-1, [&] { return static_cast<int>(fes::constituents::parse(name)); });
}
const char* core_name(int id) {
  return guard("", [&] { return fes::constituents::name(static_cast<fes::Constituent>(id)); });
}

// axis
void* core_axis(const double* p, int n, double eps, int circular) {
  return guard(static_cast<void*>(nullptr), [&]() -> void* {
    Eigen::VectorXd v = Eigen::Map<const Eigen::VectorXd>(p, n);
    return new fes::Axis(v, eps, circular != 0);
  });
}
void core_axis_free(void* a) { delete static_cast<fes::Axis*>(a); }
int64_t core_axis_size(void* a) { return static_cast<fes::Axis*>(a)->size(); }
double core_axis_at(void* a, int64_t i) {
  return guard(0.0, [&] { return (*static_cast<fes::Axis*>(a))(i); });
}
double core_axis_get(void* v, int what) {
  auto& a = *static_cast<fes::Axis*>(v);
  switch (what) {
    case 0: return a.start();
    case 1: return a.step();
    case 2: return a.is_ascending();
    case 3: return a.is_circular();
    case 4: return a.end();
    case 5: return a.min_value();
    default: return a.max_value();
  }
}
int64_t core_axis_find(void* a, double v, int bounded) { return static_cast<fes::Axis*>(a)->find_index(v, bounded != 0); }
int core_axis_eq(void* a, void* b) { return *static_cast<fes::Axis*>(a) == *static_cast<fes::Axis*>(b); }

// mesh
void* core_index(const double* lon, int nlon, const double* lat, int nlat, const int32_t* tri, int m) {
  return guard(static_cast<void*>(nullptr), [&]() -> void* {
    Eigen::VectorXd x = Eigen::Map<const Eigen::VectorXd>(lon, nlon), y = Eigen::Map<const Eigen::VectorXd>(lat, nlat);
    Eigen::Matrix<int32_t, -1, 3> t(m, 3);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < 3; ++j) t(i, j) = tri[i * 3 + j];
    return new std::shared_ptr<fes::mesh::Index>(
        std::make_shared<fes::mesh::Index>(std::move(x), std::move(y), std::move(t)));
  });
}
void core_index_free(void* i) { delete static_cast<std::shared_ptr<fes::mesh::Index>*>(i); }
static auto idx(void* i) -> fes::mesh::Index& { return **static_cast<std::shared_ptr<fes::mesh::Index>*>(i); }
int core_index_n(void* i, int what) { return static_cast<int>(what ? idx(i).n_triangles() : idx(i).n_positions()); }
void core_index_get(void* i, double* lon, double* lat, int32_t* tri) {
  auto& x = idx(i);
  for (int k = 0; k < static_cast<int>(x.n_positions()); ++k) lon[k] = x.lon()[k], lat[k] = x.lat()[k];
  for (int k = 0; k < static_cast<int>(x.n_triangles()); ++k)
    for (int j = 0; j < 3; ++j) tri[k * 3 + j] = x.triangles()(k, j);
}

// models
void* core_cartesian(int dbl, void* lon, void* lat, int type, int major) {
  return guard(static_cast<void*>(nullptr), [&]() -> void* {
    auto &x = *static_cast<fes::Axis*>(lon), &y = *static_cast<fes::Axis*>(lat);
    std::unique_ptr<Model> own;
    auto t = static_cast<fes::TideType>(type);
    if (dbl) {
      auto r = new ModelT<double>;
      own.reset(r);
      r->m = std::make_shared<fes::tidal_model::Cartesian<double>>(x, y, t, major != 0);
    } else {
      auto r = new ModelT<float>;
      own.reset(r);
      r->m = std::make_shared<fes::tidal_model::Cartesian<float>>(x, y, t, major != 0);
    }
    own->lon = x;
    own->lat = y;
    return own.release();
  });
}
void* core_lgp(int order, int dbl, void* index, const int32_t* codes, int rows, int type, double max_distance) {
  return guard(static_cast<void*>(nullptr), [&]() -> void* {
    auto& i = *static_cast<std::shared_ptr<fes::mesh::Index>*>(index);
    using namespace fes::tidal_model;
    if (order == 1)
      return dbl ? make_lgp<double, LGP1<double>, 3>(i, codes, rows, type, max_distance)
                 : make_lgp<float, LGP1<float>, 3>(i, codes, rows, type, max_distance);
    return dbl ? make_lgp<double, LGP2<double>, 6>(i, codes, rows, type, max_distance)
               : make_lgp<float, LGP2<float>, 6>(i, codes, rows, type, max_distance);
  });
}
void core_model_free(void* m) { delete static_cast<Model*>(m); }
int core_model_add(void* m, const char* name, const double* data, int64_t n) {
  return guard(-1, [&] { static_cast<Model*>(m)->add(name, data, n); return 0; });
}
void core_model_set_dynamic(void* m, const int* ids, int n) { static_cast<Model*>(m)->dynamic(ids, n); }
int core_model_dynamic(void* m, int* ids, int cap) { return static_cast<Model*>(m)->get_dynamic(ids, cap); }
int core_model_ids(void* m, int* ids, int cap) { return static_cast<Model*>(m)->ids(ids, cap); }
int core_model_tide_type(void* m) { return static_cast<Model*>(m)->tide_type(); }
void core_model_clear(void* m) { static_cast<Model*>(m)->clear(); }
int core_model_interpolate(void* m, int id, const double* lon, const double* lat, int n, double* out, int8_t* q) {
  return guard(-1, [&] { static_cast<Model*>(m)->interpolate(id, lon, lat, n, out, q); return 0; });
}
void* core_model_axis(void* m, int lat) {
  return new fes::Axis(lat ? static_cast<Model*>(m)->lat : static_cast<Model*>(m)->lon);
}
void* core_model_index(void* m) { return new std::shared_ptr<fes::mesh::Index>(static_cast<Model*>(m)->index); }

// prediction
int core_evaluate(void* m, const double* epoch, const uint16_t* leap, const double* lon, const double* lat, int n,
                  int formulae, double tolerance, const int* excluded, int ne, double* tide, double* lp, int8_t* q) {
  return guard(-1, [&] {
    std::vector<fes::Constituent> ex;
    for (int i = 0; i < ne; ++i) ex.push_back(static_cast<fes::Constituent>(excluded[i]));
    static_cast<Model*>(m)->evaluate(epoch, leap, lon, lat, n,
                                     fes::Settings(static_cast<fes::angle::Formulae>(formulae), tolerance, ex), tide, lp, q);
    return 0;
  });
}

// angles
void* core_angle(int formulae) {
  return guard(static_cast<void*>(nullptr), [&]() -> void* {
    return new fes::angle::Astronomic(static_cast<fes::angle::Formulae>(formulae));
  });
}
void core_angle_free(void* a) { delete static_cast<fes::angle::Astronomic*>(a); }
int core_angle_update(void* a, double epoch, int leap) {
  return guard(-1, [&] { static_cast<fes::angle::Astronomic*>(a)->update(epoch, static_cast<uint16_t>(leap)); return 0; });
}
void core_angle_get(void* v, double* o) {
  auto& a = *static_cast<fes::angle::Astronomic*>(v);
  double x[] = {a.t(), a.n(), a.h(), a.s(), a.p1(), a.p(), a.i(), a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
  memcpy(o, x, sizeof x);
}

// wave tables
void* core_table(const char** names, int n) {
  return guard(static_cast<void*>(nullptr), [&]() -> void* {
    return new fes::wave::Table(std::vector<std::string>(names, names + n));
  });
}
static auto tab(void* t) -> fes::wave::Table& { return *static_cast<fes::wave::Table*>(t); }
void core_table_free(void* t) { delete &tab(t); }
int core_table_size(void* t) { return static_cast<int>(tab(t).size()); }
int core_table_ids(void* t, int* out, int cap) {
  int n = 0;
  for (const auto& w : tab(t))
    if (n < cap) out[n++] = static_cast<int>(w->ident());
  return n;
}
double core_wave_get(void* t, int id, int what) {
  return guard(0.0, [&]() -> double {
    auto& w = tab(t)[static_cast<fes::Constituent>(id)];
    if (!w) throw std::invalid_argument("no such wave");
    switch (what) {
      case 0: return w->freq();
      case 1: return w->f();
      case 2: return w->u();
      case 3: return w->v();
      case 4: return w->vu();
      case 5: return w->period();
      default: return w->type();
    }
  });
}
void core_table_corrections(void* t, void* a) { tab(t).compute_nodal_corrections(*static_cast<fes::angle::Astronomic*>(a)); }
int core_table_modulations(void* t, const double* epoch, const uint16_t* leap, int n, int formulae, double* f, double* vu) {
  return guard(-1, [&] {
    fes::Vector<uint16_t> l = Eigen::Map<const fes::Vector<uint16_t>>(leap, n);
    Eigen::VectorXd e = Eigen::Map<const Eigen::VectorXd>(epoch, n);
    auto r = tab(t).compute_nodal_modulations(e, l, static_cast<fes::angle::Formulae>(formulae));
    int rows = static_cast<int>(std::get<0>(r).rows());
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < n; ++j) f[i * n + j] = std::get<0>(r)(i, j), vu[i * n + j] = std::get<1>(r)(i, j);
    return 0;
  });
}
int core_table_series(void* t, const double* epoch, const uint16_t* leap, int n, const double* wave, int nw, int formulae, double* out) {
  return guard(-1, [&] {
    fes::Vector<uint16_t> l = Eigen::Map<const fes::Vector<uint16_t>>(leap, n);
    Eigen::VectorXd e = Eigen::Map<const Eigen::VectorXd>(epoch, n);
    Eigen::VectorXcd w = Eigen::Map<const Eigen::VectorXcd>(reinterpret_cast<const std::complex<double>*>(wave), nw);
    auto r = tab(t).tide_from_tide_series(e, l, w, static_cast<fes::angle::Formulae>(formulae));
    for (int i = 0; i < n; ++i) out[i] = r(i);
    return 0;
  });
}
int core_table_analysis(const double* h, int n, const double* f, const double* vu, int rows, double* out) {
  return guard(-1, [&] {
    Eigen::VectorXd x = Eigen::Map<const Eigen::VectorXd>(h, n);
    Eigen::MatrixXd a(rows, n), b(rows, n);
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < n; ++j) a(i, j) = f[i * n + j], b(i, j) = vu[i * n + j];
    auto r = fes::wave::Table::harmonic_analysis(x, a, b);
    for (int i = 0; i < static_cast<int>(r.size()); ++i) out[2 * i] = r(i).real(), out[2 * i + 1] = r(i).imag();
    return 0;
  });
}
}
