// Reference model: what the library promises, written independently of it.
// Only arithmetic, no library header is used here.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include <set>
#include <vector>

namespace ref {

enum NodeFactor {
  F_1, F_O1, F_OO1, F_J1, F_M1, F_M2, F_M3, F_MF, F_MM, F_M22, F_M23, F_M24,
  F_K1, F_K2, F_79, F_L2, F_M2_K2, F_M2_K1, F_M2_O1, F_M22_K1, F_M23_K2, F_141
};

struct RefWave {
  int id;
  const char* name;
  int is_short;
  int inferred;
  int arg[11];
  NodeFactor nf;
};

#include "ref_tables.inc"

constexpr double kPi = 3.14159265358979323846264338327950288;
constexpr double kDeg = kPi / 180.0;

using cd = std::complex<double>;

struct Angles {
  double T, N, h, s, p1, p;             // rad
  double I, xi, nu, x1ra, nup, nus;     // Schureman's auxiliary quantities
};

inline double arcsec(double d, double m, double s) { return d + m / 60.0 + s / 3600.0; }
inline double wrap360(double x) {
  double r = std::fmod(x, 360.0);
  return r < 0 ? r + 360.0 : r;
}

// formulae: 0 Schureman order 1, 1 Schureman order 3, 2 Meeus
inline Angles angles(int formulae, double epoch, unsigned leap) {
  Angles a;
  double N, h, s, p1, p;
  if (formulae != 2) {
    const double t = (epoch / 86400.0 + 25567.5) / 36525.0;
    double c[5][4] = {
        {arcsec(259, 10, 57.12), -(5 * 360 + arcsec(0, 0, 482912.63)), arcsec(0, 0, 7.58), arcsec(0, 0, 0.008)},
        {arcsec(279, 41, 48.04), arcsec(0, 0, 129602768.13), arcsec(0, 0, 1.089), 0},
        {arcsec(270, 26, 14.72), 1336 * 360 + arcsec(0, 0, 1108411.20), arcsec(0, 0, 9.09), arcsec(0, 0, 0.0068)},
        {arcsec(281, 13, 15.0), arcsec(0, 0, 6189.03), arcsec(0, 0, 1.63), arcsec(0, 0, 0.012)},
        {arcsec(334, 19, 40.87), 11 * 360 + arcsec(0, 0, 392515.94), -arcsec(0, 0, 37.24), -arcsec(0, 0, 0.045)}};
    double r[5];
    for (int i = 0; i < 5; ++i) {
      r[i] = c[i][0] + c[i][1] * t;
      if (formulae == 1) r[i] += c[i][2] * t * t + c[i][3] * t * t * t;
    }
    N = r[0]; h = r[1]; s = r[2]; p1 = r[3]; p = r[4];
  } else {
    const double t = (epoch + leap + 32.184 - 946728000.0) / (36525.0 * 86400.0);
    const double t2 = t * t, t3 = t2 * t, t4 = t3 * t;
    N = 125.0445479 - 1934.1362891 * t + 0.0020754 * t2 + t3 / 467441.0 - t4 / 60616000.0;
    s = 218.3164477 + 481267.88123421 * t - 0.0015786 * t2 + t3 / 538841.0 - t4 / 65194000.0;
    const double d = 297.8501921 + 445267.1114034 * t - 0.0018819 * t2 - t3 / 545868.0 + t4 / 113065000.0;
    h = s - d;
    const double g = 357.5291092 + 35999.0502909 * t - 0.0001536 * t2 + t3 / 24490000.0;
    p1 = h - g;
    p = 83.3532465 + 4069.0137287 * t - 0.0103200 * t2 - t3 / 80053.0 + t4 / 18999000.0;
  }
  a.T = (180.0 + 15.0 * (std::fmod(epoch, 86400.0) / 3600.0)) * kDeg;
  a.N = wrap360(N) * kDeg;
  a.h = wrap360(h) * kDeg;
  a.s = wrap360(s) * kDeg;
  a.p1 = wrap360(p1) * kDeg;
  a.p = wrap360(p) * kDeg;
  a.I = std::acos(0.91370 - 0.03569 * std::cos(a.N));
  const double tn = std::tan(a.N / 2);
  const double u1 = std::atan(1.01883 * tn), u2 = std::atan(0.64412 * tn);
  a.xi = a.N - u1 - u2;
  if (a.N > kPi) a.xi -= 2 * kPi;
  a.nu = u1 - u2;
  const double ti = std::tan(a.I / 2), ti2 = ti * ti;
  const double P = a.p - a.xi;
  a.x1ra = std::sqrt(1 - 12 * ti2 * std::cos(2 * P) + 36 * ti2 * ti2);
  const double s2i = std::sin(2 * a.I), si2 = std::sin(a.I) * std::sin(a.I);
  a.nup = std::atan(s2i * std::sin(a.nu) / (s2i * std::cos(a.nu) + 0.3347));
  a.nus = 0.5 * std::atan(si2 * std::sin(2 * a.nu) / (si2 * std::cos(2 * a.nu) + 0.0727));
  return a;
}

inline double factor(NodeFactor k, const Angles& a) {
  const double sI = std::sin(a.I), cI2 = std::cos(a.I / 2), sI2 = std::sin(a.I / 2), s2I = std::sin(2 * a.I);
  const double m2 = std::pow(cI2, 4) / 0.9154;
  const double o1 = sI * cI2 * cI2 / 0.3800;
  const double k1 = std::sqrt(0.8965 * s2I * s2I + 0.6001 * s2I * std::cos(a.nu) + 0.1006);
  const double k2 = std::sqrt(19.0444 * std::pow(sI, 4) + 2.7702 * sI * sI * std::cos(2 * a.nu) + 0.0981);
  switch (k) {
    case F_1: return 1;
    case F_O1: return o1;
    case F_OO1: return sI * sI2 * sI2 / 0.0164;
    case F_J1: return s2I / 0.7214;
    case F_M1: return o1 * std::sqrt(2.310 + 1.435 * std::cos(2 * (a.p - a.xi)));
    case F_M2: return m2;
    case F_M3: return std::pow(cI2, 6) / 0.8758;
    case F_MF: return sI * sI / 0.1578;
    case F_MM: return (2.0 / 3.0 - sI * sI) / 0.5021;
    case F_M22: return m2 * m2;
    case F_M23: return m2 * m2 * m2;
    case F_M24: return m2 * m2 * m2 * m2;
    case F_K1: return k1;
    case F_K2: return k2;
    case F_79: return sI * sI / 0.1565;
    case F_L2: return m2 * a.x1ra;
    case F_M2_K2: return m2 * k2;
    case F_M2_K1: return m2 * k1;
    case F_M2_O1: return m2 * o1;
    case F_M22_K1: return m2 * m2 * k1;
    case F_M23_K2: return m2 * m2 * m2 * k2;
    case F_141: return (sI - 1.25 * sI * sI * sI) / 0.3192;
  }
  return 0;
}

inline double vu(const RefWave& w, const Angles& a) {
  const int* g = w.arg;
  double extra = 0;
  if (w.id == 33) {         // L2: u = 2 xi - 2 nu - R, Schureman (214)
    const double ti = std::tan(a.I / 2), P = a.p - a.xi;
    extra = -std::atan(std::sin(2 * P) / (1 / (6 * ti * ti) - std::cos(2 * P)));
  } else if (w.id == 12) {  // M13: u = -nu - Qa, as the library documents M1
    extra = -kDeg / std::sqrt(2.310 + 1.435 * std::cos(2 * (a.p - a.xi)));
  }
  return extra + g[0] * a.T + g[1] * a.s + g[2] * a.h + g[3] * a.p + g[5] * a.p1 + g[6] * kPi / 2 +
         g[7] * a.xi + g[8] * a.nu + g[9] * a.nup + g[10] * a.nus;
}

// f * (Re cos(V+u) + Im sin(V+u))
inline double harmonic(const RefWave& w, const Angles& a, const cd& z) {
  const double v = vu(w, a);
  return factor(w.nf, a) * (z.real() * std::cos(v) + z.imag() * std::sin(v));
}

enum Id {
  Mm = 0, Mf = 1, Mtm = 2, Msqm = 3, I2Q1 = 4, Sigma1 = 5, Q1 = 6, Rho1 = 7, O1 = 8, M11 = 10, M12 = 11,
  Chi1 = 13, Pi1 = 14, K1 = 17, Phi1 = 19, Theta1 = 20, J1 = 21, OO1 = 22, Eps2 = 24, I2N2 = 25, Mu2 = 26,
  N2 = 28, Nu2 = 29, M2 = 30, Lambda2 = 32, L2 = 33, T2 = 35, K2 = 38, Eta2 = 40, Ssa = 65, Sa1 = 67,
  Sta = 68, Mm1 = 69, Mf1 = 70, A5 = 71, Mm2 = 73, Mf2 = 74
};

// What a prediction knows about the constituents.
struct Setup {
  std::vector<int> model;     // provided by the model
  std::vector<int> dynamic;   // listed as dynamic
  std::vector<int> excluded;
  bool ocean = true;          // ocean tide: equilibrium long-period part added
};

struct Flags {
  bool on[75];       // part of the model
  bool infer[75];    // to be inferred
};
inline Flags flags(const Setup& s) {
  Flags f;
  for (int i = 0; i < 75; ++i) { f.on[i] = false; f.infer[i] = kRefWaves[i].inferred != 0; }
  auto excluded = [&](int id) { for (int e : s.excluded) if (e == id) return true; return false; };
  for (int id : s.model) if (!excluded(id)) { f.on[id] = true; f.infer[id] = false; }
  for (int id : s.dynamic) { f.on[id] = true; f.infer[id] = false; }
  return f;
}

inline double equilibrium(const Flags& f, const Angles& a, double lat) {
  bool off2[106] = {false}, off3[17] = {false};
  auto kill2 = [&](int id, std::initializer_list<int> r) { if (f.on[id]) for (int i : r) off2[i] = true; };
  auto kill3 = [&](int id, std::initializer_list<int> r) { if (f.on[id]) for (int i : r) off3[i] = true; };
  kill2(Mm, {29, 30, 31, 32});
  kill2(Mf, {56, 57, 58, 59});
  kill2(Mtm, {85, 86, 87});
  kill2(Msqm, {98, 99, 100});
  kill2(Ssa, {9, 11, 12});
  kill2(Sa1, {4});
  kill2(Sta, {13});
  kill2(Mm1, {33, 34, 35});
  kill2(Mf1, {53, 54, 55});
  kill2(A5, {44, 45, 46});
  kill3(Mm2, {3, 4, 5, 6});
  kill3(Mf2, {8, 9});
  const double x[5] = {a.s, a.h, a.p, 2 * kPi - a.N, a.p1};
  double h2 = 0, h3 = 0;
  for (int i = 0; i < 106; ++i) {
    if (off2[i]) continue;
    double t = 0;
    for (int j = 0; j < 5; ++j) t += kRefLpe2[i][j] * x[j];
    h2 += kRefLpe2[i][5] * std::cos(t);
  }
  for (int i = 0; i < 17; ++i) {
    if (off3[i]) continue;
    double t = 0;
    for (int j = 0; j < 5; ++j) t += kRefLpe3[i][j] * x[j];
    h3 += kRefLpe3[i][5] * std::sin(t);
  }
  const double y = std::sin(lat * kDeg);
  const double c2 = std::sqrt(5 / (4 * kPi)) * (1.5 * y * y - 0.5) + 0.014432247;
  const double c3 = std::sqrt(7 / (4 * kPi)) * (2.5 * y * y - 1.5) * y - 0.012469818;
  return 100.0 * ((1 - 0.609 + 0.302) * c2 * h2 + (1 - 0.291 + 0.093) * c3 * h3);
}

struct Tide {
  double tide, lp;
  double scale;   // size of the terms, for tolerances
};

// z[i]: value of model.model[i] at the position; defined false: nothing there.
inline Tide predict(const Setup& s, int formulae, double epoch, unsigned leap, double lat,
                    const std::vector<cd>& z, bool defined) {
  const Angles a = angles(formulae, epoch, leap);
  const Flags f = flags(s);
  Tide r;
  r.lp = s.ocean ? equilibrium(f, a, lat) : 0.0;
  r.scale = 1.0;
  if (!defined) {
    r.tide = std::numeric_limits<double>::quiet_NaN();
    return r;
  }
  cd t[75];
  for (auto& v : t) v = 0;
  for (size_t i = 0; i < s.model.size(); ++i) t[s.model[i]] = z[i];
  auto inf = [&](int id, const cd& v) { if (f.infer[id]) t[id] = v; };
  inf(I2Q1, 0.263 * t[Q1] - 0.0252 * t[O1]);
  inf(Sigma1, 0.297 * t[Q1] - 0.0264 * t[O1]);
  inf(Rho1, 0.164 * t[Q1] + 0.0048 * t[O1]);
  inf(M11, 0.0389 * t[O1] + 0.0282 * t[K1]);
  inf(M12, 0.0140 * t[O1] + 0.0101 * t[K1]);
  inf(Chi1, 0.0064 * t[O1] + 0.0060 * t[K1]);
  inf(Pi1, 0.0030 * t[O1] + 0.0171 * t[K1]);
  inf(Phi1, -0.0015 * t[O1] + 0.0152 * t[K1]);
  inf(Theta1, -0.0065 * t[O1] + 0.0155 * t[K1]);
  inf(J1, -0.0389 * t[O1] + 0.0836 * t[K1]);
  inf(OO1, -0.0431 * t[O1] + 0.0613 * t[K1]);
  inf(I2N2, 0.264 * t[N2] - 0.0253 * t[M2]);
  inf(Eps2, 0.53285 * t[I2N2] - 0.03304 * t[N2]);
  inf(Eta2, -0.0034925 * t[M2] + 0.0831707 * t[K2]);
  inf(Mu2, 0.069439968323 * t[K2] + 0.351535557706 * t[N2] - 0.046278307672 * t[M2]);
  inf(Nu2, -0.006104695053 * t[K2] + 0.156878802427 * t[N2] + 0.006755704028 * t[M2]);
  inf(Lambda2, 0.016503557465 * t[K2] - 0.013307812292 * t[N2] + 0.007753383202 * t[M2]);
  inf(L2, 0.077137765667 * t[K2] - 0.051653455134 * t[N2] + 0.027869916824 * t[M2]);
  inf(T2, 0.180480173707 * t[K2] - 0.020101177502 * t[N2] + 0.008331518844 * t[M2]);
  r.tide = 0;
  for (int i = 0; i < 75; ++i) {
    if (!f.on[i] && !f.infer[i]) continue;
    const double v = harmonic(kRefWaves[i], a, t[i]);
    if (std::isfinite(t[i].real()) && std::isfinite(t[i].imag())) r.scale += std::abs(t[i]) * 3;
    if (kRefWaves[i].is_short) r.tide += v; else r.lp += v;
  }
  return r;
}

}  // namespace ref
