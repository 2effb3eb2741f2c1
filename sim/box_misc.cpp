// Scripted model and wave table.
#include "box_impl.hpp"
#include "fes/wave/table.hpp"

void free_accelerator(fes::Accelerator* a) { delete a; }
std::unique_ptr<ModelBox> build_model(const ModelSpec& s, bool fill) {
  auto m = make_model(s);
  if (fill)
    for (size_t k = 0; k < s.ids.size(); ++k) m->add(s.ids[k], s.values[k]);
  if (!s.dyn.empty()) m->set_dynamic(s.dyn);
  return m;
}

namespace {
struct ScriptedAcc : fes::Accelerator {
  Script* s;
  ScriptedAcc(Script* s, const fes::angle::Formulae& f, double tol, size_t n) : fes::Accelerator(f, tol, n), s(s) {
    __atomic_fetch_add(&s->accelerators_alive, 1, __ATOMIC_SEQ_CST);
    __atomic_fetch_add(&s->accelerators_made, 1, __ATOMIC_SEQ_CST);
  }
  ~ScriptedAcc() override { __atomic_fetch_sub(&s->accelerators_alive, 1, __ATOMIC_SEQ_CST); }
};
struct ScriptedModel : fes::AbstractTidalModel<double> {
  Script* s;
  explicit ScriptedModel(Script* s) : fes::AbstractTidalModel<double>(fes::kTide), s(s) {}
  auto accelerator(const fes::angle::Formulae& f, const double tol) const -> fes::Accelerator* override {
    if (s->on_accelerator) s->on_accelerator();
    return new ScriptedAcc(s, f, tol, data_.size());
  }
  using fes::AbstractTidalModel<double>::add_constituent;
  auto add_constituent(const fes::Constituent id, fes::Vector<std::complex<double>> w) -> void override {
    data_.emplace(id, std::move(w));
  }
  auto interpolate(const fes::geometry::Point& p, fes::Quality& q, fes::Accelerator* acc) const
      -> const fes::ConstituentValues& override {
    acc->clear();
    cd v = s->value(p.lon(), p.lat());
    for (const auto& i : data_) acc->emplace_back(i.first, v);
    q = fes::kInterpolated;
    return acc->values();
  }
};
struct ScriptedBox : ModelImpl<ScriptedModel, double> {
  explicit ScriptedBox(Script* s) { m = std::make_shared<ScriptedModel>(s); }
  std::string getstate() const override { return ""; }
  std::unique_ptr<ModelBox> restore(const std::string&) const override { return nullptr; }
  std::unique_ptr<ModelBox> sibling(const ModelSpec&) const override { return nullptr; }
  int parts() const override { return 0; }
  std::string part_state(int) const override { return ""; }
  void restore_part(int, const std::string&, double, double, bool&) const override {}
};

struct TableImpl : TableBox {
  fes::wave::Table t;
  static std::vector<fes::Constituent> cons(const std::vector<int>& d) {
    std::vector<fes::Constituent> r;
    for (int i : d) r.push_back(static_cast<fes::Constituent>(i));
    return r;
  }
  explicit TableImpl(const std::vector<int>& ids) : t(cons(ids)) {}
  Eigen::VectorXd series(const Eigen::VectorXd& e, const fes::Vector<uint16_t>& l, const Eigen::VectorXcd& w,
                         int f) const override {
    Eigen::VectorXd r = t.tide_from_tide_series(e, l, w, static_cast<fes::angle::Formulae>(f));
    log_bits(r.data(), static_cast<size_t>(r.size()) * 8);
    return r;
  }
  Eigen::MatrixXd mapping(double e, unsigned l, const Eigen::MatrixXcd& w, int f, size_t n) const override {
    Eigen::MatrixXd r = t.tide_from_mapping(e, static_cast<uint16_t>(l), w, static_cast<fes::angle::Formulae>(f), n);
    log_bits(r.data(), static_cast<size_t>(r.size()) * 8);
    return r;
  }
  void modulations(const Eigen::VectorXd& e, const fes::Vector<uint16_t>& l, int fm, Eigen::MatrixXd& f,
                   Eigen::MatrixXd& vu) const override {
    std::tie(f, vu) = t.compute_nodal_modulations(e, l, static_cast<fes::angle::Formulae>(fm));
  }
  std::vector<int> ids() const override {
    std::vector<int> r;
    for (size_t i = 0; i < t.size(); ++i) r.push_back(t[i]->ident());
    return r;
  }
  std::vector<double> dump() const override {
    std::vector<double> r;
    for (size_t i = 0; i < t.size(); ++i) {
      const auto& w = t[i];
      r.push_back(w->ident());
      r.push_back(w->tide().real());
      r.push_back(w->tide().imag());
      r.push_back(w->admittance());
      r.push_back(w->dynamic());
      r.push_back(w->freq());
      r.push_back(w->v());
      r.push_back(w->u());
      r.push_back(w->f());
      r.push_back(w->type());
    }
    return r;
  }
  void touch(int id, bool dynamic, bool admittance, cd tide) override {
    const auto& w = const_cast<const fes::wave::Table&>(t)[static_cast<fes::Constituent>(id)];
    w->dynamic(dynamic);
    w->admittance(admittance);
    w->tide(tide);
  }
};
}  // namespace

std::unique_ptr<ModelBox> make_scripted(Script* s, const std::vector<int>& ids) {
  auto r = std::unique_ptr<ScriptedBox>(new ScriptedBox(s));
  for (int id : ids) r->add(id, std::vector<cd>(1));
  return std::move(r);
}
std::unique_ptr<TableBox> make_table(const std::vector<int>& ids) {
  return std::unique_ptr<TableBox>(new TableImpl(ids));
}
Eigen::VectorXcd analyse(const Eigen::VectorXd& h, const Eigen::MatrixXd& f, const Eigen::MatrixXd& vu) {
  return fes::wave::Table::harmonic_analysis(h, f, vu);
}
