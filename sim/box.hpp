// Type-erased access to the library's models, through its public API only.
#pragma once
#include <array>
#include <complex>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "fes/eigen.hpp"

namespace fes {
class Accelerator;
}

using cd = std::complex<double>;

struct Batch {
  Eigen::VectorXd epoch, lon, lat;
  fes::Vector<uint16_t> leap;
};

struct Pred {
  Eigen::VectorXd tide, lp;
  std::vector<int> quality;
};

enum Kind { kCartD = 0, kCartF, kLgp1D, kLgp1F, kLgp2D, kLgp2F, kNKinds };
inline bool is_lgp(int k) { return k >= kLgp1D; }
inline bool is_float(int k) { return k & 1; }
inline int lgp_degree(int k) { return k >= kLgp2D ? 2 : 1; }

struct ModelSpec {
  int kind = 0;
  bool ocean = true;
  std::vector<int> ids;                 // ascending
  std::vector<int> dyn;
  // grid
  double lon0 = 0, dlon = 1, lat0 = 0, dlat = 1;
  int nlon = 2, nlat = 2;
  bool circular = false;                // the axis covers 360 degrees
  bool circular_flag = false;           // what the constructor is told
  bool wrapped = false;                 // longitudes given in [-180, 180)
  bool row_major = true;
  std::vector<char> land;               // nlon*nlat, undefined nodes
  int hole_id = -1;                     // a constituent undefined elsewhere too
  std::vector<char> hole;               // nlon*nlat, or one per code of a mesh
  bool undef(int id, size_t k) const { return (k < land.size() && land[k]) || holed(id, k); }
  bool holed(int id, size_t k) const { return id == hole_id && k < hole.size() && hole[k]; }
  // mesh
  std::vector<double> vlon, vlat;
  std::vector<std::array<int, 3>> tri;
  std::vector<std::array<int, 6>> codes;
  int ncodes = 0;
  double maxd = 0;
  // values[k]: values of constituent ids[k], in model order
  std::vector<std::vector<cd>> values;
  size_t nvalues() const { return is_lgp(kind) ? (size_t)ncodes : (size_t)nlon * nlat; }
};

struct ModelBox {
  virtual ~ModelBox() = default;
  virtual void add(int id, const std::vector<cd>& v) = 0;
  virtual void add(const std::string& name, const std::vector<cd>& v) = 0;
  virtual void set_dynamic(const std::vector<int>& d) = 0;
  virtual void clear() = 0;
  virtual std::vector<int> dynamic() const = 0;
  virtual std::vector<int> ids() const = 0;
  virtual size_t size() const = 0;
  virtual bool empty() const = 0;
  virtual bool ocean() const = 0;
  virtual std::vector<cd> values(int id) const = 0;
  virtual Pred predict(const Batch& b, int formulae, double tol, const std::vector<int>& excluded,
                       size_t threads) const = 0;
  virtual fes::Accelerator* accelerator(int formulae, double tol) const = 0;
  virtual int interpolate(double lon, double lat, fes::Accelerator* acc,
                          std::vector<std::pair<int, cd>>& out) const = 0;
  virtual std::string getstate() const = 0;
  // a model of the same kind from a saved state
  virtual std::unique_ptr<ModelBox> restore(const std::string& s) const = 0;
  // another model on the same geometry, sharing what models can share
  virtual std::unique_ptr<ModelBox> sibling(const ModelSpec& s) const = 0;
  // mesh index only: state of the parts
  virtual std::string part_state(int which) const = 0;           // 0 lon/index, 1 lat
  virtual void restore_part(int which, const std::string& s, double lon, double lat, bool& accepted) const = 0;
  virtual int parts() const = 0;
  // the triangle found by the mesh index (C05)
  virtual int search(double lon, double lat) const { (void)lon; (void)lat; return -2; }
};

void free_accelerator(fes::Accelerator* a);
std::unique_ptr<ModelBox> make_cartesian(const ModelSpec& s);
std::unique_ptr<ModelBox> make_lgp1(const ModelSpec& s);
std::unique_ptr<ModelBox> make_lgp2(const ModelSpec& s);
inline std::unique_ptr<ModelBox> make_model(const ModelSpec& s) {
  return !is_lgp(s.kind) ? make_cartesian(s) : lgp_degree(s.kind) == 1 ? make_lgp1(s) : make_lgp2(s);
}
// empty model with the same geometry; constituents added when fill
std::unique_ptr<ModelBox> build_model(const ModelSpec& s, bool fill = true);

// A model whose calls are scripted by the harness (the library's own seam).
struct Script {
  // called for each interpolation: index of the call overall, position;
  // returns the value; may throw
  std::function<cd(double lon, double lat)> value;
  std::function<void()> on_accelerator;
  int accelerators_alive = 0;
  int accelerators_made = 0;
};
std::unique_ptr<ModelBox> make_scripted(Script* s, const std::vector<int>& ids);

// -- wave table
struct TableBox {
  virtual ~TableBox() = default;
  virtual Eigen::VectorXd series(const Eigen::VectorXd& epoch, const fes::Vector<uint16_t>& leap,
                                 const Eigen::VectorXcd& w, int formulae) const = 0;
  virtual Eigen::MatrixXd mapping(double epoch, unsigned leap, const Eigen::MatrixXcd& w, int formulae,
                                  size_t threads) const = 0;
  virtual void modulations(const Eigen::VectorXd& epoch, const fes::Vector<uint16_t>& leap, int formulae,
                           Eigen::MatrixXd& f, Eigen::MatrixXd& vu) const = 0;
  virtual std::vector<int> ids() const = 0;      // constituents, in table order
  virtual std::vector<double> dump() const = 0;  // every property of every wave
  virtual void touch(int id, bool dynamic, bool admittance, cd tide) = 0;
};
std::unique_ptr<TableBox> make_table(const std::vector<int>& ids);   // empty: all
Eigen::VectorXcd analyse(const Eigen::VectorXd& h, const Eigen::MatrixXd& f, const Eigen::MatrixXd& vu);
