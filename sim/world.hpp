// Generated models, queries and batches, and what the reference says of them.
#pragma once
#include <cmath>
#include <cstdio>
#include <set>
#include <string>
#include <vector>

#include "box.hpp"
#include "ref.hpp"
#include "simrt.h"

inline uint32_t W(uint32_t n) { return sim_draw(SIM_W, n); }
inline uint32_t Fd(uint32_t n) { return sim_draw(SIM_F, n); }
inline bool chance(uint32_t n) { return n && W(n) == n - 1; }   // false is the simple choice
inline double unit() { return W(1u << 20) / double(1u << 20); }
inline uint64_t H(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
  return sim_rng_value(sim_rng_value(sim_rng_value(a) ^ b) ^ c);
}
constexpr double kNan = std::numeric_limits<double>::quiet_NaN();

struct Active {   // instrumentation on while alive
  Active() { sim_active(1); }
  ~Active() { sim_active(0); }
};
struct Quiet {    // harness code called from instrumented code
  bool on;
  Quiet() : on(sim_is_active() > 0) { if (on) sim_active(0); }
  ~Quiet() { if (on) sim_active(1); }
};

[[noreturn]] void fail(const char* sig, const char* fmt, ...);

struct World {
  ModelSpec spec;
  std::vector<int> excluded;
  int formulae = 0;
  uint64_t vseed = 0;
  int zero = -1;   // a constituent without any tide
};

struct WorldOpts {
  bool lgp = true, cart = true;
  bool small = false;
  bool allow_float = true;
  bool dynamic = true, excluded = true;
  bool large = true;   // a large model now and then
  int max_ids = 12;
};

World make_world(const WorldOpts& o = WorldOpts());
std::string describe(const World& w);
// the same geometry with other values
void revalue(World& w, uint64_t vseed);
// what the generator gives a constituent at a node, or for a code
cd value_of(const World& w, int id, size_t node);
// sets the undefined values of a constituent
void mask(const ModelSpec& s, int id, std::vector<cd>& v);

enum QueryKind { kInside = 0, kNode, kEdge, kOutside, kLand, kOdd, kSoft };
struct Query {
  double lon = 0, lat = 0;
  int kind = kInside;
  bool fuzzy = false;            // on a node, but for rounding errors
};
// The generator knows which positions the property leaves open.
Query make_query(const World& w, bool odd = true);
// The same position asked of another model; false: not clearly inside it.
bool place(const World& w, double lon, double lat, Query* q);
// Moves the grid or mesh by a step or two.
bool shift(World& w);

struct Expect {
  bool checked = true;           // false: nothing is asserted about the value
  bool defined = false;
  std::vector<cd> z;             // per constituent of the model, ascending id
  unsigned qualities = 0;        // bit set of acceptable qualities
};
Expect expect(const World& w, const Query& q);
// same, for a model holding only ids[0..n)
std::string check_values(const World& w, const Expect& e, int quality,
                         const std::vector<std::pair<int, cd>>& got, const std::vector<int>& ids);

struct Points {
  std::vector<Query> q;
  std::vector<double> epoch;
  std::vector<unsigned> leap;
  std::vector<Expect> e;
  size_t size() const { return q.size(); }
  void push(const Query& qq, double t, unsigned l, Expect ee) {
    q.push_back(qq); epoch.push_back(t); leap.push_back(l); e.push_back(std::move(ee));
  }
};
double make_epoch(int style, double previous, double tol);   // style < 0: drawn
Points make_points(const World& w, size_t n, bool odd = true, int epoch_style = -1, double tol = 0);
Batch to_batch(const Points& p);
ref::Setup setup(const World& w);
// "" when the prediction is what the reference says
std::string check_prediction(const World& w, const Points& p, const Pred& r, double tol);
std::string compare_predictions(const Pred& a, const Pred& b, const Points* p = nullptr);

inline bool same(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol;
}
// a complex value with an undefined part is undefined
inline bool same(cd a, cd b, double tol) {
  bool na = std::isnan(a.real()) || std::isnan(a.imag()), nb = std::isnan(b.real()) || std::isnan(b.imag());
  return na || nb ? na == nb : same(a.real(), b.real(), tol) && same(a.imag(), b.imag(), tol);
}
std::string strf(const char* fmt, ...);
