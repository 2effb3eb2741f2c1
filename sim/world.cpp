#include "world.hpp"

#include <algorithm>
#include <cstdarg>
#include <map>

std::string strf(const char* fmt, ...) {
  char b[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
void fail(const char* sig, const char* fmt, ...) {
  char b[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  sim_violation(sig, b);
}

// multiples of 1/8, exact in single precision; models of double precision have
// more digits
cd value_of(const World& w, int id, size_t node) {
  if (id == w.zero) return cd();
  uint64_t h = H(w.vseed, (uint64_t)id, node);
  double fine = w.spec.kind & 1 ? 0 : (double)((h >> 40) & 0x3ff) / (1 << 27);
  return cd(((int)(h & 0x1ff) - 256) / 8.0 + fine, ((int)((h >> 20) & 0x1ff) - 256) / 8.0 - fine);
}

static void make_ids(World& w, const WorldOpts& o) {
  std::set<int> s;
  // admittance needs the main waves; draw from several families
  static const int major[] = {ref::M2, ref::K1, ref::O1, ref::N2, ref::K2, ref::Q1};
  static const int inferred[] = {ref::I2Q1, ref::Sigma1, ref::Rho1, ref::M11, ref::M12, ref::Chi1, ref::Pi1,
                                 ref::Phi1, ref::Theta1, ref::J1, ref::OO1, ref::Eps2, ref::I2N2, ref::Mu2,
                                 ref::Nu2, ref::Lambda2, ref::L2, ref::T2, ref::Eta2};
  static const int longp[] = {ref::Mm, ref::Mf, ref::Mtm, ref::Msqm, ref::Ssa, ref::Sa1, ref::Sta, ref::Mm1,
                              ref::Mf1, ref::A5, 72, ref::Mm2, ref::Mf2, 66};
  int n = 1 + (int)W((uint32_t)o.max_ids);
  for (int i = 0; i < n; ++i) {
    switch (W(4)) {
      case 0: s.insert(major[W(6)]); break;
      case 1: s.insert(inferred[W(19)]); break;
      case 2: s.insert(longp[W(14)]); break;
      default: s.insert((int)W(75));
    }
  }
  w.spec.ids.assign(s.begin(), s.end());
  if (chance(12)) w.zero = w.spec.ids[W((uint32_t)w.spec.ids.size())];
  if (o.dynamic) {
    uint32_t k = W(4);
    if (k == 3) k = 5;
    std::vector<int> d;
    for (uint32_t i = 0; i < k; ++i) {
      int c = chance(3) && !w.spec.ids.empty() ? w.spec.ids[W((uint32_t)w.spec.ids.size())] : (int)W(75);
      if (std::find(d.begin(), d.end(), c) == d.end()) d.push_back(c);
    }
    w.spec.dyn = d;
  }
  if (o.excluded) {
    uint32_t k = W(3);
    for (uint32_t i = 0; i < k; ++i)
      w.excluded.push_back(chance(3) ? (int)W(75) : w.spec.ids[W((uint32_t)w.spec.ids.size())]);
  }
}

static void make_grid(World& w, const WorldOpts& o) {
  ModelSpec& s = w.spec;
  bool circular = chance(2);
  const bool large = o.large && chance(250);
  if (large && s.ids.size() > 3) s.ids.resize(3);
  static const double steps[] = {60, 30, 45, 90, 22.5, 15, 120};
  if (circular) {
    s.circular = true;
    s.circular_flag = true;
    s.dlon = steps[W(o.small ? 4 : 7)];
    if (large) s.dlon = W(2) ? 0.5 : 1;
    s.nlon = (int)(360 / s.dlon + 0.5);
    static const double starts[] = {0, -180, 10, -90, 350, 0.5, -7.5};
    s.lon0 = starts[W(7)];
    // wrapped longitudes start anywhere and are written in [-180, 180)
    s.wrapped = chance(4);
  } else {
    static const double rs[] = {1, 0.5, 2, 10, 0.125, 5, 0.1};
    s.dlon = rs[W(7)];
    s.nlon = 2 + (int)W(6);
    if (large) {
      s.dlon = W(2) ? 0.1 : 0.5;
      s.nlon = 240 + (int)W(100);
    }
    static const double starts[] = {0, -5, 100, -180, 175, 358, -360, 200};
    s.lon0 = starts[W(8)];
    s.circular_flag = chance(3);
    // a flagged axis that does not cover the circle may cross the date line
    s.wrapped = s.circular_flag && chance(2);
  }
  if (chance(4)) {  // descending longitudes
    s.lon0 = s.lon0 + (s.nlon - 1) * s.dlon;
    s.dlon = -s.dlon;
  }
  if (s.wrapped && !s.circular) {   // the axis starts at the longitude written first
    while (s.lon0 >= 180) s.lon0 -= 360;
    while (s.lon0 < -180) s.lon0 += 360;
  }
  if (s.wrapped && s.nlon > 1) {
    // the library tells the direction of an axis from its first two values,
    // so the date line is never crossed between them
    auto wr = [](double x) { while (x >= 180) x -= 360; while (x < -180) x += 360; return x; };
    if ((wr(s.lon0 + s.dlon) > wr(s.lon0)) != (s.dlon > 0)) s.wrapped = false;
  }
  static const double ls[] = {1, 10, 0.25, 20, 0.5};
  s.dlat = ls[W(5)];
  s.nlat = 2 + (int)W(6);
  if (large) {
    s.dlat = 0.5;
    s.nlat = 100 + (int)W(100);
  }
  static const double l0[] = {0, -60, 30, -10, 45, -1};
  s.lat0 = l0[W(6)];
  while (s.lat0 + (s.nlat - 1) * s.dlat > 90) s.lat0 -= s.dlat;
  if (chance(3)) {
    s.lat0 = s.lat0 + (s.nlat - 1) * s.dlat;
    s.dlat = -s.dlat;
  }
  s.row_major = !chance(2);
  s.land.assign((size_t)s.nlon * s.nlat, 0);
  if (chance(2)) {
    uint64_t ls2 = W(1u << 30);
    uint32_t dens = 1 + W(5);
    for (size_t i = 0; i < s.land.size(); ++i) s.land[i] = H(ls2, i) % 8 < dens;
  }
}

// One constituent is undefined where the others are not.
static void make_hole(ModelSpec& s) {
  if (s.ids.empty() || !chance(5)) return;
  s.hole_id = s.ids[W((uint32_t)s.ids.size())];
  uint64_t hs = W(1u << 30);
  uint32_t dens = 1 + W(5);
  s.hole.assign(is_lgp(s.kind) ? (size_t)s.nvalues() : (size_t)s.nlon * s.nlat, 0);
  for (size_t i = 0; i < s.hole.size(); ++i) s.hole[i] = H(hs, i) % 8 < dens;
}

static bool exact_grid(const ModelSpec& s) { return std::fabs(s.dlon * 8 - std::round(s.dlon * 8)) == 0; }

struct MeshGeom {   // rectangular cells, each split in two triangles
  double lon0, lat0, dlon, dlat;
  int nx, ny;       // cells
};
static MeshGeom geom(const ModelSpec& s) { return {s.lon0, s.lat0, s.dlon, s.dlat, s.nlon - 1, s.nlat - 1}; }

static void make_mesh(World& w, const WorldOpts& o) {
  ModelSpec& s = w.spec;
  static const double st[] = {1, 0.5, 2, 0.25, 0.1, 1 / 3.0};   // the last two have no exact vertices
  s.dlon = st[W(6)];
  s.dlat = s.dlon == 2 ? 1 : s.dlon;
  s.nlon = 2 + (int)W(o.small ? 3 : 6);
  s.nlat = 2 + (int)W(o.small ? 3 : 5);
  const bool large = o.large && chance(250);
  if (large) {
    if (s.ids.size() > 3) s.ids.resize(3);
    if (s.dlon > 0.5) s.dlon = s.dlat = 0.5;
    s.nlon = 10 + (int)W(35);
    s.nlat = 10 + (int)W(25);
  }
  static const double c[] = {10, 0, 180, -180, -90, 359, 120};
  static const double l[] = {0, 30, -45, 60, -70, 10};
  s.lon0 = c[W(7)] - s.dlon * (s.nlon / 2);
  s.lat0 = l[W(6)] - s.dlat * (s.nlat / 2);
  bool alternate = chance(3);
  bool swapped = chance(4);
  uint64_t hs = chance(3) ? 1 + W(1u << 30) : 0;     // holes
  bool shuffle = chance(3);
  uint64_t shs = shuffle ? W(1u << 30) : 0;
  for (int j = 0; j < s.nlat; ++j)
    for (int i = 0; i < s.nlon; ++i) {
      double x = s.lon0 + i * s.dlon;
      if (swapped) x = x < 0 ? x + 360 : x;
      s.vlon.push_back(x);
      s.vlat.push_back(s.lat0 + j * s.dlat);
    }
  auto v = [&](int i, int j) { return j * s.nlon + i; };
  // cell (i,j) gives triangles 2k and 2k+1, orientation counterclockwise
  std::vector<std::array<int, 3>> t;
  s.land.assign((size_t)(s.nlon - 1) * (s.nlat - 1), 0);
  for (int j = 0; j + 1 < s.nlat; ++j)
    for (int i = 0; i + 1 < s.nlon; ++i) {
      bool hole = hs && H(hs, (uint64_t)(j * 100 + i)) % 4 == 0 && !(i == 0 && j == 0);
      s.land[(size_t)j * (s.nlon - 1) + i] = hole;
      if (hole) continue;
      int a = v(i, j), b = v(i + 1, j), cc = v(i + 1, j + 1), d = v(i, j + 1);
      if (alternate && ((i + j) & 1)) { t.push_back({a, b, d}); t.push_back({b, cc, d}); }
      else { t.push_back({a, b, cc}); t.push_back({a, cc, d}); }
    }
  if (shuffle) {
    for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[H(shs, i) % i]);
    for (size_t i = 0; i < t.size(); ++i) {
      int r = (int)(H(shs, i, 7) % 3);
      std::rotate(t[i].begin(), t[i].begin() + r, t[i].end());
    }
  }
  s.tri = t;
  s.circular_flag = alternate;   // remembered for the reference
  // codes: one per vertex, and one per edge for the quadratic element
  std::vector<int> vc(s.vlon.size(), -1);
  std::map<std::pair<int, int>, int> edges;
  // the first codes may be used by no triangle
  int n = chance(5) ? 1 + (int)W(3) : 0;
  auto vcode = [&](int i) { if (vc[i] < 0) vc[i] = n++; return vc[i]; };
  auto ecode = [&](int i, int j) {
    if (i > j) std::swap(i, j);
    auto it = edges.find({i, j});
    if (it != edges.end()) return it->second;
    edges[{i, j}] = n++;
    return n - 1;
  };
  for (auto& x : t) {
    std::array<int, 6> cd6{};
    if (lgp_degree(s.kind) == 1) {
      for (int k = 0; k < 3; ++k) cd6[k] = vcode(x[k]);
    } else {
      for (int k = 0; k < 3; ++k) {
        cd6[2 * k] = vcode(x[k]);
        cd6[2 * k + 1] = ecode(x[k], x[(k + 1) % 3]);
      }
    }
    s.codes.push_back(cd6);
  }
  s.ncodes = n;
  static const double md[] = {0, 0, 20000, 100000, 5e5};
  s.maxd = md[W(5)];
}

World make_world(const WorldOpts& o) {
  World w;
  ModelSpec& s = w.spec;
  uint32_t k;
  if (o.cart && o.lgp) k = W(6);
  else if (o.cart) k = W(2);
  else k = 2 + W(4);
  if (!o.allow_float) k &= ~1u;
  s.kind = (int)k;
  s.ocean = !chance(4);
  w.formulae = (int)W(3);
  w.vseed = W(1u << 30);
  make_ids(w, o);
  if (is_lgp(s.kind)) make_mesh(w, o); else make_grid(w, o);
  make_hole(s);
  revalue(w, w.vseed);
  return w;
}

void mask(const ModelSpec& s, int id, std::vector<cd>& v) {
  if (is_lgp(s.kind)) {
    for (size_t j = 0; j < v.size(); ++j) if (s.holed(id, j)) v[j] = cd(kNan, kNan);
    return;
  }
  for (int x = 0; x < s.nlon; ++x)
    for (int y = 0; y < s.nlat; ++y)
      if (s.undef(id, (size_t)x * s.nlat + y))
        v[s.row_major ? (size_t)x * s.nlat + y : (size_t)y * s.nlon + x] = cd(kNan, kNan);
}

void revalue(World& w, uint64_t vseed) {
  ModelSpec& s = w.spec;
  w.vseed = vseed;
  s.values.clear();
  size_t n = s.nvalues();
  for (size_t i = 0; i < s.ids.size(); ++i) {
    std::vector<cd> v(n);
    for (size_t j = 0; j < n; ++j) v[j] = value_of(w, s.ids[i], j);
    mask(s, s.ids[i], v);
    s.values.push_back(v);
  }
}

std::string describe(const World& w) {
  const ModelSpec& s = w.spec;
  static const char* kn[] = {"cartesian/double", "cartesian/float", "lgp1/double", "lgp1/float", "lgp2/double",
                             "lgp2/float"};
  return strf("%s %dx%d lon0=%g dlon=%g lat0=%g dlat=%g%s%s%s ids=%zu dyn=%zu excl=%zu formulae=%d %s maxd=%g",
              kn[s.kind], s.nlon, s.nlat, s.lon0, s.dlon, s.lat0, s.dlat, s.circular ? " circular" : "",
              s.wrapped ? " wrapped" : "", s.row_major ? "" : " colmajor", s.ids.size(), s.dyn.size(),
              w.excluded.size(), w.formulae, s.ocean ? "tide" : "radial", s.maxd);
}

// ---------------------------------------------------------------- queries
static double frac_in() { return 0.05 + 0.9 * (W(1025) / 1024.0); }

Query make_query(const World& w, bool odd) {
  const ModelSpec& s = w.spec;
  Query q;
  uint32_t r = W(16);
  if (!is_lgp(s.kind)) {
    if (odd && r >= 14) {   // undefined coordinates
      q.kind = kOdd;
      static const double bad[] = {kNan, INFINITY, -INFINITY, 1e4};
      double lon = s.lon0 + s.dlon * 0.25, lat = s.lat0 + s.dlat * 0.25;
      uint32_t which = W(3);
      if (which != 1) lon = bad[W(3)];
      if (which != 0) lat = bad[W(4)];
      q.lon = lon;
      q.lat = lat;
      sim_fault(FK_POINT_ODD);
      return q;
    }
    bool outlon = (r == 12 || r == 13) && !s.circular && chance(2);
    bool outlat = (r == 12 || r == 13) && !outlon;
    bool node = (r >= 8 && r < 12) && (s.circular || exact_grid(s));
    double fx, fy;
    int i, j;
    if (s.circular) {
      i = (int)W((uint32_t)s.nlon);
      fx = node && !chance(3) ? 0 : frac_in();
    } else {
      i = (int)W((uint32_t)s.nlon - 1);
      fx = node && !chance(3) ? (chance(3) ? 1 : 0) : frac_in();
    }
    j = (int)W((uint32_t)s.nlat - 1);
    fy = node && !chance(3) ? (chance(3) ? 1 : 0) : frac_in();
    if (outlon) { bool hi = chance(2); i = hi ? s.nlon - 1 : 0; fx = hi ? 0.05 + unit() * 3 : -0.05 - unit() * 3; }
    if (outlat) { bool hi = chance(2); j = hi ? s.nlat - 1 : 0; fy = hi ? 0.05 + unit() * 3 : -0.05 - unit() * 3; }
    q.kind = outlon || outlat ? kOutside : node ? kNode : kInside;
    if (q.kind == kOutside) sim_fault(FK_POINT_ODD);
    q.lon = s.lon0 + (i + fx) * s.dlon;
    q.lat = s.lat0 + (j + fy) * s.dlat;
    if (s.circular) {
      static const int turns[] = {0, 0, 1, -1, 2};
      q.lon += 360.0 * turns[W(5)];
      if (node) {   // the rounding errors around a node
        q.fuzzy = s.wrapped || !exact_grid(s);
        uint32_t ulp = W(4);
        if (ulp >= 2) {
          q.fuzzy = true;
          double step = W(2) ? 1e-14 : 0;
          double dir = ulp == 2 ? -1 : 1;
          q.lon = step > 0 ? q.lon + dir * step : std::nextafter(q.lon, dir * 1e9);
        }
      }
    }
    return q;
  }
  MeshGeom g = geom(s);
  if (odd && r >= 14) {
    q.kind = kOdd;
    static const double bad[] = {kNan, INFINITY, -INFINITY};
    q.lon = s.lon0; q.lat = s.lat0;
    uint32_t which = W(3);
    if (which != 1) q.lon = bad[W(3)];
    if (which != 0) q.lat = bad[W(3)];
    sim_fault(FK_POINT_ODD);
    return q;
  }
  if (r == 12 || r == 13) {   // far outside, or near when extrapolation applies
    sim_fault(FK_POINT_ODD);
    bool near = s.maxd > 0 && chance(2);
    q.kind = near ? kSoft : kOutside;
    double dx = near ? 0.1 + unit() * 0.5 : 20 + unit() * 40;
    bool east = chance(2);
    q.lon = east ? g.lon0 + g.nx * g.dlon + dx : g.lon0 - dx;
    q.lat = g.lat0 + g.dlat * g.ny * unit();
    return q;
  }
  int i = (int)W((uint32_t)g.nx), j = (int)W((uint32_t)g.ny);
  if (s.land[(size_t)j * g.nx + i]) {
    // inside a hole of one cell: far from vertices only when extrapolation is
    // off; otherwise the position is left to extrapolation
    q.kind = s.maxd > 0 ? kSoft : kLand;
    q.lon = g.lon0 + (i + 0.3 + 0.4 * unit()) * g.dlon;
    q.lat = g.lat0 + (j + 0.3 + 0.4 * unit()) * g.dlat;
    sim_fault(FK_POINT_ODD);
    return q;
  }
  if ((r == 10 || r == 11) && exact_grid(s)) {   // a vertex of the cell
    q.kind = kNode;
    q.lon = g.lon0 + (i + (int)W(2)) * g.dlon;
    q.lat = g.lat0 + (j + (int)W(2)) * g.dlat;
  } else {
    // barycentric coordinates with a margin, in one of the two triangles
    double a = 0.08 + unit(), b = 0.08 + unit(), c = 0.08 + unit();
    double m = a + b + c;
    a = 0.08 + 0.76 * a / m; b = 0.08 + 0.76 * b / m; c = 0.08 + 0.76 * c / m;
    bool alt = s.circular_flag && ((i + j) & 1);
    double X[3], Y[3];
    if (!alt) {
      if (chance(2)) { double x[] = {0, 1, 1}, y[] = {0, 0, 1}; std::copy(x, x + 3, X); std::copy(y, y + 3, Y); }
      else { double x[] = {0, 1, 0}, y[] = {0, 1, 1}; std::copy(x, x + 3, X); std::copy(y, y + 3, Y); }
    } else {
      if (chance(2)) { double x[] = {0, 1, 0}, y[] = {0, 0, 1}; std::copy(x, x + 3, X); std::copy(y, y + 3, Y); }
      else { double x[] = {1, 1, 0}, y[] = {0, 1, 1}; std::copy(x, x + 3, X); std::copy(y, y + 3, Y); }
    }
    q.lon = g.lon0 + (i + a * X[0] + b * X[1] + c * X[2]) * g.dlon;
    q.lat = g.lat0 + (j + a * Y[0] + b * Y[1] + c * Y[2]) * g.dlat;
  }
  static const int turns[] = {0, 0, 1, -1};
  q.lon += 360.0 * turns[W(4)];
  return q;
}

static double pmod(double a, double b) {
  double r = std::fmod(a, b);
  return r < 0 ? r + b : r;
}

bool place(const World& w, double lon, double lat, Query* q) {
  const ModelSpec& s = w.spec;
  if (!std::isfinite(lon) || !std::isfinite(lat)) return false;
  auto off = [](double x) { return std::fabs(x - std::round(x)); };
  q->lon = lon;
  q->lat = lat;
  q->kind = kInside;
  q->fuzzy = false;
  if (!is_lgp(s.kind)) {
    double px = (lon - s.lon0) / s.dlon, py = (lat - s.lat0) / s.dlat;
    if (s.circular) px = pmod(px, s.nlon);
    else if (!(px > 0 && px < s.nlon - 1)) return false;
    return py > 0 && py < s.nlat - 1 && off(px) > 1e-3 && off(py) > 1e-3;
  }
  MeshGeom g = geom(s);
  double px = pmod(lon - g.lon0, 360.0) / g.dlon, py = (lat - g.lat0) / g.dlat;
  if (!(px > 0 && px < g.nx && py > 0 && py < g.ny)) return false;
  if (s.land[(size_t)py * g.nx + (size_t)px]) return false;
  double fx = px - std::floor(px), fy = py - std::floor(py);
  return off(px) > 0.05 && off(py) > 0.05 && std::fabs(fx - fy) > 0.05 && std::fabs(fx + fy - 1) > 0.05;
}

bool shift(World& w) {
  ModelSpec& s = w.spec;
  const double d = s.dlon * (1 + W(2));
  ModelSpec x = s;
  x.lon0 += d;
  if (is_lgp(s.kind)) {
    for (double& v : x.vlon) v += v + d > 360 ? d - 360 : d;
  } else if (s.wrapped) return false;   // the longitudes written would be others
  s = x;
  return true;
}

// ---------------------------------------------------------------- reference

Expect expect(const World& w, const Query& q) {
  const ModelSpec& s = w.spec;
  Expect e;
  e.z.assign(s.ids.size(), cd(kNan, kNan));
  auto undefined = [&] { e.defined = false; e.qualities = 1u << 0; return e; };
  if (q.kind == kOdd) return undefined();
  if (!is_lgp(s.kind)) {
    if (q.kind == kOutside) return undefined();
    // position in steps, in the direction of the axis
    double px = (q.lon - s.lon0) / s.dlon;
    if (s.circular) px = pmod(px, s.nlon);
    double py = (q.lat - s.lat0) / s.dlat;
    double rx = std::round(px), ry = std::round(py);
    bool nx = std::fabs(px - rx) < 1e-6, ny = std::fabs(py - ry) < 1e-6;
    // candidate cells (on a node, either neighbour is right)
    std::vector<int> ci, cj;
    std::vector<double> cfx, cfy;
    if (nx) {
      int i = (int)rx;
      if (s.circular) i %= s.nlon;
      if (s.circular || i + 1 < s.nlon) { ci.push_back(i); cfx.push_back(0); }
      if (s.circular || i > 0) { ci.push_back(s.circular ? (i + s.nlon - 1) % s.nlon : i - 1); cfx.push_back(1); }
    } else { ci.push_back((int)std::floor(px)); cfx.push_back(px - std::floor(px)); }
    if (ny) {
      int j = (int)ry;
      if (j + 1 < s.nlat) { cj.push_back(j); cfy.push_back(0); }
      if (j > 0) { cj.push_back(j - 1); cfy.push_back(1); }
    } else { cj.push_back((int)std::floor(py)); cfy.push_back(py - std::floor(py)); }
    e.qualities = 0;
    bool holes = false;
    for (size_t a = 0; a < ci.size(); ++a)
      for (size_t b = 0; b < cj.size(); ++b) {
        int i1 = ci[a], j1 = cj[b];
        int i2 = s.circular ? (i1 + 1) % s.nlon : i1 + 1, j2 = j1 + 1;
        double fx = cfx[a], fy = cfy[b];
        int I[4] = {i1, i1, i2, i2}, J[4] = {j1, j2, j1, j2};
        double G[4] = {(1 - fx) * (1 - fy), (1 - fx) * fy, fx * (1 - fy), fx * fy};
        for (size_t c = 0; c < std::max(s.ids.size(), (size_t)1); ++c) {
          const int id = c < s.ids.size() ? s.ids[c] : -1;
          double sw = 0;
          int n = 0;
          cd acc = 0;
          for (int k = 0; k < 4; ++k) {
            if (s.undef(id, (size_t)I[k] * s.nlat + J[k])) continue;
            sw += G[k];
            ++n;
            if (id >= 0) acc += G[k] * value_of(w, id, s.row_major ? (size_t)I[k] * s.nlat + J[k] : (size_t)J[k] * s.nlon + I[k]);
          }
          // next to an undefined node, the other corners weigh next to nothing
          if (q.fuzzy && sw < 0.999999) e.checked = false;
          if (!(sw > 0)) { e.qualities |= 1u; holes |= id == s.hole_id; continue; }
          // which of the constituents the quality tells of is left open
          e.qualities |= 1u << n;
          e.defined = true;
          if (id >= 0) e.z[c] = acc / sw;
        }
      }
    if (e.qualities & 1u && e.qualities != 1u && !holes) {
      // a node next to both: all its own corners count, so this cannot happen
      e.qualities &= ~1u;
    }
    return e;
  }
  if (q.kind == kOutside || q.kind == kLand) return undefined();
  if (q.kind == kSoft) { e.checked = false; return e; }
  MeshGeom g = geom(s);
  double px = q.lon - g.lon0;
  double span = g.nx * g.dlon;
  px = pmod(px + 1e-9, 360.0) - 1e-9;
  if (px > span + 1) px -= 360;
  px /= g.dlon;
  double py = (q.lat - g.lat0) / g.dlat;
  // any triangle of the mesh that contains the position
  for (size_t t = 0; t < s.tri.size(); ++t) {
    double X[3], Y[3];
    for (int k = 0; k < 3; ++k) { X[k] = s.tri[t][k] % s.nlon; Y[k] = s.tri[t][k] / s.nlon; }
    double d = (X[1] - X[0]) * (Y[2] - Y[0]) - (X[2] - X[0]) * (Y[1] - Y[0]);
    double x = ((Y[2] - Y[0]) * (px - X[0]) - (X[2] - X[0]) * (py - Y[0])) / d;
    double y = ((X[1] - X[0]) * (py - Y[0]) - (Y[1] - Y[0]) * (px - X[0])) / d;
    if (x < -1e-9 || y < -1e-9 || x + y > 1 + 1e-9) continue;
    double l0 = 1 - x - y, l1 = x, l2 = y;
    double beta[6];
    int nb;
    if (lgp_degree(s.kind) == 1) { nb = 3; beta[0] = l0; beta[1] = l1; beta[2] = l2; }
    else {
      nb = 6;
      beta[0] = l0 * (2 * l0 - 1); beta[1] = 4 * l0 * l1; beta[2] = l1 * (2 * l1 - 1);
      beta[3] = 4 * l1 * l2; beta[4] = l2 * (2 * l2 - 1); beta[5] = 4 * l2 * l0;
    }
    for (size_t c = 0; c < s.ids.size(); ++c) {
      cd acc = 0;
      for (int k = 0; k < nb; ++k) acc += beta[k] * (s.holed(s.ids[c], (size_t)s.codes[t][k]) ? cd(kNan, kNan) : value_of(w, s.ids[c], (size_t)s.codes[t][k]));
      e.z[c] = acc;
    }
    if (!s.hole.empty() && q.kind != kInside) e.checked = false;   // an undefined code weighing nothing
    e.defined = true;
    e.qualities = 1u << 4;
    if (q.kind == kNode) e.qualities |= 1u << 1;
    return e;
  }
  if (q.kind == kNode) return undefined();   // a vertex between holes only
  sim_internal("reference cannot place a mesh position");
  return e;
}

std::string check_values(const World& w, const Expect& e, int quality,
                         const std::vector<std::pair<int, cd>>& got, const std::vector<int>& ids) {
  if (got.size() != ids.size())
    return strf("%zu constituents returned, the model has %zu", got.size(), ids.size());
  std::vector<char> seen(ids.size(), 0);
  for (auto& g : got) {
    size_t k = 0;
    for (; k < ids.size(); ++k) if (ids[k] == g.first) break;
    if (k == ids.size()) return strf("constituent %d returned but not in the model", g.first);
    if (seen[k]) return strf("constituent %d returned twice", g.first);
    seen[k] = 1;
    if (!e.checked) continue;
    size_t i = 0;
    for (; i < w.spec.ids.size(); ++i) if (w.spec.ids[i] == g.first) break;
    cd z = e.defined && i < e.z.size() ? e.z[i] : cd(kNan, kNan);
    if (!same(z, g.second, 1e-8))
      return strf("constituent %d: got (%.17g, %.17g), expected (%.17g, %.17g)", g.first, g.second.real(),
                  g.second.imag(), z.real(), z.imag());
  }
  if (e.checked && !(e.qualities >> quality & 1u))
    return strf("quality %d, acceptable set 0x%x", quality, e.qualities);
  if (quality < 0 || quality > 4) return strf("quality %d is not a quality", quality);
  return "";
}

// ---------------------------------------------------------------- batches
double make_epoch(int style, double prev, double tol) {
  double base = 4e8 + 2e9 * unit();
  if (style < 0) style = (int)W(6);
  switch (style) {
    case 0: return std::floor(base);
    case 1: return prev + 600.0 * (1 + W(6));
    case 2: return prev - 3600.0 * (1 + W(24));
    case 3: return prev;
    case 4: return base;
    case 5: return tol > 0 ? prev + tol * (W(5) * 0.25 + 0.1) * (chance(2) ? -1 : 1) : prev + 0.5;
    case 6: sim_fault(FK_EPOCH_ODD); return kNan;
    case 7: { static const double h[] = {0, -2208988800.0, 1e10, -1e10, 9.4e8}; sim_fault(FK_EPOCH_ODD); return h[W(5)]; }
    case 8: { static const double h[] = {INFINITY, -INFINITY, 1e18, std::numeric_limits<double>::max()}; sim_fault(FK_EPOCH_ODD); return h[W(4)]; }
    default: return base;
  }
}

Points make_points(const World& w, size_t n, bool odd, int style, double tol) {
  Points p;
  bool odd_dates = odd && chance(3);
  bool one_place = chance(4);
  bool one_date = style < 0 && chance(4);
  uint32_t trend = W(3);   // 0 any, 1 forward series, 2 shuffled near dates
  double prev = make_epoch(0, 0, tol);
  Query q0 = make_query(w, odd);
  for (size_t i = 0; i < n; ++i) {
    Query q = one_place || (i && chance(5)) ? (p.q.empty() ? q0 : p.q.back()) : make_query(w, odd);
    double t;
    if (one_date) t = prev;
    else if (style >= 0) t = make_epoch(style, prev, tol);
    else if (odd_dates && chance(6)) t = make_epoch(6 + (int)W(3), prev, tol);
    else if (trend == 1) t = make_epoch(1, prev, tol);
    else if (trend == 2) t = make_epoch(chance(2) ? 5 : 3, prev, tol);
    else t = make_epoch(-1, prev, tol);
    if (std::isfinite(t) && std::fabs(t) < 1e11) prev = t;
    unsigned leap = chance(5) ? W(40) : 18 + W(20);
    Expect e = expect(w, q);
    p.push(q, t, leap, e);
  }
  return p;
}

Batch to_batch(const Points& p) {
  Batch b;
  const Eigen::Index n = (Eigen::Index)p.size();
  b.epoch.resize(n); b.lon.resize(n); b.lat.resize(n); b.leap.resize(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    b.epoch[i] = p.epoch[(size_t)i];
    b.lon[i] = p.q[(size_t)i].lon;
    b.lat[i] = p.q[(size_t)i].lat;
    b.leap[i] = (uint16_t)p.leap[(size_t)i];
  }
  return b;
}

ref::Setup setup(const World& w) {
  ref::Setup s;
  s.model = w.spec.ids;
  s.dynamic = w.spec.dyn;
  s.excluded = w.excluded;
  s.ocean = w.spec.ocean;
  return s;
}

// Dates whose angles the reference computes meaningfully.
static bool sane_date(double t) { return std::isfinite(t) && std::fabs(t) <= 2e10; }

std::string check_prediction(const World& w, const Points& p, const Pred& r, double tol) {
  if ((size_t)r.tide.size() != p.size() || (size_t)r.lp.size() != p.size() || r.quality.size() != p.size())
    return strf("%zu points gave %zd tides, %zd long periods and %zu qualities", p.size(), (size_t)r.tide.size(),
                (size_t)r.lp.size(), r.quality.size());
  const ref::Setup s = setup(w);
  for (size_t i = 0; i < p.size(); ++i) {
    const Query& q = p.q[i];
    const Expect& e = p.e[i];
    int qual = r.quality[i];
    double t = r.tide[(Eigen::Index)i], lp = r.lp[(Eigen::Index)i];
    ++sim_shared->evals;
    if (e.checked && (qual < 0 || qual > 31 || !(e.qualities >> qual & 1u)))
      return strf("point %zu (lon %.17g, lat %.17g): quality %d, acceptable set 0x%x", i, q.lon, q.lat, qual, e.qualities);
    if (!e.checked) continue;
    if (std::isnan(p.epoch[i])) {
      if (!std::isnan(t)) return strf("point %zu: the date is undefined but the tide is %.17g", i, t);
      if (!std::isnan(lp) && w.spec.ocean)
        return strf("point %zu: the date is undefined but the long period is %.17g", i, lp);
      continue;
    }
    if (!sane_date(p.epoch[i])) continue;
    bool ok = false;
    std::string why;
    // any date of the batch within the tolerance is a right date
    for (size_t k = i + 1; k-- > 0 && !ok;) {
      if (k != i && (tol <= 0 || !(std::fabs(p.epoch[k] - p.epoch[i]) <= tol))) continue;
      ref::Tide x = ref::predict(s, w.formulae, p.epoch[k], p.leap[k], q.lat, e.z, e.defined && qual != 0);
      double m = 1e-9 * x.scale * (1 + std::fabs(p.epoch[k]) / 1e9) * 10;
      double ml = m + 1e-9 * (1 + std::fabs(p.epoch[k]) / 1e9) * 10;
      if (same(x.tide, t, m) && same(x.lp, lp, ml)) ok = true;
      else if (k == i) why = strf("point %zu (lon %.17g, lat %.17g, date %.17g, leap %u, quality %d): tide %.17g, long period %.17g; expected %.17g and %.17g", i, q.lon, q.lat, p.epoch[i], p.leap[i], qual, t, lp, x.tide, x.lp);
    }
    if (!ok && tol > 0)
      for (size_t k = i + 1; k < p.size() && !ok; ++k) {
        if (!(std::fabs(p.epoch[k] - p.epoch[i]) <= tol)) continue;
        ref::Tide x = ref::predict(s, w.formulae, p.epoch[k], p.leap[k], q.lat, e.z, e.defined && qual != 0);
        double m = 1e-9 * x.scale * (1 + std::fabs(p.epoch[k]) / 1e9) * 10;
        if (same(x.tide, t, m) && same(x.lp, lp, m + 1e-8)) ok = true;
      }
    if (!ok) return why + (tol > 0 ? strf(" (nor any date of the batch within %g s)", tol) : "");
  }
  return "";
}

std::string compare_predictions(const Pred& a, const Pred& b, const Points* p) {
  if (a.tide.size() != b.tide.size() || a.quality.size() != b.quality.size()) return "different sizes";
  for (Eigen::Index i = 0; i < a.tide.size(); ++i) {
    if (p && !(std::isnan(p->epoch[(size_t)i]) || sane_date(p->epoch[(size_t)i]))) continue;
    double m = 1e-7 * (1 + std::fabs(a.tide[i]));
    if (!same(a.tide[i], b.tide[i], m) || !same(a.lp[i], b.lp[i], 1e-7 * (1 + std::fabs(a.lp[i]))) ||
        a.quality[(size_t)i] != b.quality[(size_t)i])
      return strf("point %zd: (%.17g, %.17g, %d) and (%.17g, %.17g, %d)", i, a.tide[i], a.lp[i],
                  a.quality[(size_t)i], b.tide[i], b.lp[i], b.quality[(size_t)i]);
  }
  return "";
}
