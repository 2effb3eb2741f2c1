#include "box_lgp.hpp"
std::unique_ptr<ModelBox> make_lgp1(const ModelSpec& s) {
  if (is_float(s.kind)) return std::unique_ptr<ModelBox>(new Lgp<fes::tidal_model::LGP1<float>, float, 1>(s));
  return std::unique_ptr<ModelBox>(new Lgp<fes::tidal_model::LGP1<double>, double, 1>(s));
}
