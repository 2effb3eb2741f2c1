#include "box_lgp.hpp"
std::unique_ptr<ModelBox> make_lgp2(const ModelSpec& s) {
  if (is_float(s.kind)) return std::unique_ptr<ModelBox>(new Lgp<fes::tidal_model::LGP2<float>, float, 2>(s));
  return std::unique_ptr<ModelBox>(new Lgp<fes::tidal_model::LGP2<double>, double, 2>(s));
}
