// Reference model, independent of the code under test: astronomical angles,
// nodal corrections, equilibrium long-period tide, admittance, interpolation.
// Uses only spec_tables.hpp (frozen) and the published formulae.
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

#include "spec_tables.hpp"

namespace ref {

constexpr double kPi = 3.14159265358979323846;
constexpr double kDeg = kPi / 180;
using cplx = std::complex<double>;

inline double wrap360(long double x) {
  long double r = std::fmod(x, 360.0L);
  if (r < 0) r += 360.0L;
  return static_cast<double>(r);
}
// Distance between two angles (radians), modulo 2 pi.
inline double ang_diff(double a, double b) { return std::abs(std::remainder(a - b, 2 * kPi)); }

struct Angles {
  double T, s, h, p, N, p1;                       // radians
  double I, xi, nu, nup, nus, R, ra;              // radians; ra = 1/Ra
};

enum Form { kO1 = 0, kO3 = 1, kMeeus = 2 };

// Schureman p. 156-168, from the longitude of the node and of the perigee.
inline void node(Angles& a) {
  a.I = std::acos(0.91370 - 0.03569 * std::cos(a.N));
  const double half = std::tan(a.N / 2);
  const double A = std::atan(1.01883 * half), B = std::atan(0.64412 * half);
  a.xi = std::remainder(a.N - A - B, 2 * kPi);
  a.nu = A - B;
  const double t = std::pow(std::tan(a.I / 2), 2);
  const double P = a.p - a.xi;
  a.ra = std::sqrt(1 - 12 * t * std::cos(2 * P) + 36 * t * t);
  a.R = std::atan(std::sin(2 * P) / (1 / (6 * t) - std::cos(2 * P)));
  a.nup = std::atan(std::sin(2 * a.I) * std::sin(a.nu) / (std::sin(2 * a.I) * std::cos(a.nu) + 0.3347));
  const double s2 = std::pow(std::sin(a.I), 2);
  a.nus = std::atan(s2 * std::sin(2 * a.nu) / (s2 * std::cos(2 * a.nu) + 0.0727)) / 2;
}

inline long double arc(long double d, long double m, long double s) { return d + m / 60 + s / 3600; }
inline long double poly(long double x, std::initializer_list<long double> c) {
  long double r = 0, k = 1;
  for (auto v : c) { r += v * k; k *= x; }
  return r;
}

inline Angles angles(Form form, double epoch, unsigned leap) {
  Angles a{};
  long double s, h, p, n, p1;
  if (form == kMeeus) {
    const long double t = (static_cast<long double>(epoch) + leap + 32.184L - 946728000.0L) / (36525.0L * 86400.0L);
    n = poly(t, {125.0445479L, -1934.1362891L, 0.0020754L, 1.0L / 467441, -1.0L / 60616000});
    s = poly(t, {218.3164477L, 481267.88123421L, -0.0015786L, 1.0L / 538841, -1.0L / 65194000});
    const long double d = poly(t, {297.8501921L, 445267.1114034L, -0.0018819L, -1.0L / 545868, 1.0L / 113065000});
    const long double g = poly(t, {357.5291092L, 35999.0502909L, -0.0001536L, 1.0L / 24490000});
    h = s - d;
    p1 = h - g;
    p = poly(t, {83.3532465L, 4069.0137287L, -0.0103200L, -1.0L / 80053, 1.0L / 18999000});
  } else {
    const long double t = (static_cast<long double>(epoch) / 86400 + 25567.5L) / 36525;
    n = poly(t, {arc(259, 10, 57.12L), -(1800 + 482912.63L / 3600)});
    h = poly(t, {arc(279, 41, 48.04L), 129602768.13L / 3600});
    s = poly(t, {arc(270, 26, 14.72L), 480960 + 1108411.20L / 3600});
    p1 = poly(t, {arc(281, 13, 15.0L), 6189.03L / 3600});
    p = poly(t, {arc(334, 19, 40.87L), 3960 + 392515.94L / 3600});
    if (form == kO3) {
      const long double t2 = t * t, t3 = t2 * t;
      n += (7.58L * t2 + 0.008L * t3) / 3600;
      h += 1.089L * t2 / 3600;
      s += (9.09L * t2 + 0.0068L * t3) / 3600;
      p1 += (1.63L * t2 + 0.012L * t3) / 3600;
      p -= (37.24L * t2 + 0.045L * t3) / 3600;
    }
  }
  a.N = wrap360(n) * kDeg;
  a.s = wrap360(s) * kDeg;
  a.h = wrap360(h) * kDeg;
  a.p = wrap360(p) * kDeg;
  a.p1 = wrap360(p1) * kDeg;
  // Hour angle of the mean sun: 15 degrees per hour of the UTC day, from noon.
  const double day = epoch - 86400.0 * std::floor(epoch / 86400.0);
  a.T = std::remainder(180.0 + day / 240.0, 360.0) * kDeg;
  node(a);
  return a;
}

// Node factor f, Schureman p. 25, 36, 41-46.
inline double factor(const std::string& k, const Angles& a) {
  const double I = a.I, sI = std::sin(I), c2 = std::cos(I / 2), s2 = std::sin(I / 2), s2I = std::sin(2 * I);
  const double m2 = std::pow(c2, 4) / 0.9154;
  const double o1 = sI * c2 * c2 / 0.3800;
  const double k1 = std::sqrt(0.8965 * s2I * s2I + 0.6001 * s2I * std::cos(a.nu) + 0.1006);
  const double k2 = std::sqrt(19.0444 * std::pow(sI, 4) + 2.7702 * sI * sI * std::cos(2 * a.nu) + 0.0981);
  if (k == "1") return 1;
  if (k == "mm") return (2.0 / 3 - sI * sI) / 0.5021;
  if (k == "mf") return sI * sI / 0.1578;
  if (k == "o1") return o1;
  if (k == "j1") return s2I / 0.7214;
  if (k == "oo1") return sI * s2 * s2 / 0.0164;
  if (k == "79") return sI * sI / 0.1565;
  if (k == "m1") return o1 * std::sqrt(2.310 + 1.435 * std::cos(2 * (a.p - a.xi)));
  if (k == "141") return (sI - 1.25 * sI * sI * sI) / 0.3192;
  if (k == "k1") return k1;
  if (k == "k2") return k2;
  if (k == "m2") return m2;
  if (k == "m3") return std::pow(c2, 6) / 0.8758;
  if (k == "m22") return m2 * m2;
  if (k == "m23") return m2 * m2 * m2;
  if (k == "m24") return m2 * m2 * m2 * m2;
  if (k == "l2") return m2 * a.ra;
  if (k == "m2_k2") return m2 * k2;
  if (k == "m2_k1") return m2 * k1;
  if (k == "m2_o1") return m2 * o1;
  if (k == "m22_k1") return m2 * m2 * k1;
  if (k == "m22_k2") return m2 * m2 * k2;
  if (k == "m23_k2") return m2 * m2 * m2 * k2;
  abort();
}

struct Nodal { double f, u, v; double vu() const { return v + u; } };

constexpr int k2MK6_id = 59, kM13_id = 12, kL2_id = 33;

// documented: 2MK6 has f(M2)^2 f(K2) (the tree has f(M2)^3 f(K2): known finding).
inline Nodal nodal(int id, const Angles& a, bool documented = false) {
  const Spec& w = kSpec[id];
  Nodal r;
  r.f = factor(documented && id == k2MK6_id ? "m22_k2" : w.f, a);
  r.v = w.a[0] * a.T + w.a[1] * a.s + w.a[2] * a.h + w.a[3] * a.p + w.a[5] * a.p1 + w.a[6] * kPi / 2;
  r.u = w.a[7] * a.xi + w.a[8] * a.nu + w.a[9] * a.nup + w.a[10] * a.nus;
  if (id == kL2_id) r.u -= a.R;
  if (id == kM13_id) r.u -= kDeg / std::sqrt(2.310 + 1.435 * std::cos(2 * (a.p - a.xi)));
  return r;
}

// Speed, degrees per hour.
inline double speed(int id) {
  const double s = (1336.0 * 360 + 307.892) / 36525 / 24, h = (36000 + 0.769) / 36525 / 24,
               p = (3960 + 109.032) / 36525 / 24, n = -(1800 + 134.142) / 36525 / 24, p1 = 1.719 / 36525 / 24;
  const Spec& w = kSpec[id];
  return 15.0 * w.a[0] + s * w.a[1] + h * w.a[2] + p * w.a[3] + n * w.a[4] + p1 * w.a[5];
}

inline int ident(const std::string& name) {
  for (int i = 0; i < 75; ++i) if (name == kSpec[i].name) return i;
  return -1;
}

// Lines of the equilibrium tide removed when a constituent is dynamic.
// pinned: Sa1 keeps lines 3 and 6, and Sta line 14 (known finding, pinned by a test).
inline bool removed2(int row, const std::string& w, bool documented = false) {
  if (kOrder2[row].label != w) return false;
  if (!documented && (row == 3 || row == 6 || row == 14)) return false;
  return true;
}

// Equilibrium tide (cm), `dynamic`: names of the constituents to leave out.
inline double lpe(const Angles& a, double lat, const std::vector<std::string>& dynamic, bool documented = false) {
  const double Np = 2 * kPi - a.N;
  double h20 = 0, h30 = 0;
  for (int i = 0; i < 106; ++i) {
    bool out = false;
    for (auto& w : dynamic) out = out || removed2(i, w, documented);
    if (out) continue;
    const auto& r = kOrder2[i];
    h20 += r.c * std::cos(r.d[0] * a.s + r.d[1] * a.h + r.d[2] * a.p + r.d[3] * Np + r.d[4] * a.p1);
  }
  for (int i = 0; i < 17; ++i) {
    const auto& r = kOrder3[i];
    bool out = false;
    for (auto& w : dynamic) out = out || w == r.label;
    if (out || false) continue;
    h30 += r.c * std::sin(r.d[0] * a.s + r.d[1] * a.h + r.d[2] * a.p + r.d[3] * Np + r.d[4] * a.p1);
  }
  const double z = std::sin(std::remainder(lat, 360.0) * kDeg);
  const double c20 = std::sqrt(5 / (4 * kPi)) * (1.5 * z * z - 0.5) + 0.014432247;
  const double c30 = std::sqrt(7 / (4 * kPi)) * (2.5 * z * z - 1.5) * z - 0.012469818;
  return 100 * (0.693 * c20 * h20 + 0.802 * c30 * h30);
}

// Constituents inferred by admittance. `tide`: complex amplitudes of the 75
// constituents; `inferable[i]`: i is to be inferred.
inline void admittance(std::array<cplx, 75>& t, const std::array<bool, 75>& inferable) {
  static const struct { const char* name; std::vector<std::pair<const char*, double>> from; } rules[] = {
      {"2Q1", {{"Q1", 0.263}, {"O1", -0.0252}}},
      {"Sigma1", {{"Q1", 0.297}, {"O1", -0.0264}}},
      {"Rho1", {{"Q1", 0.164}, {"O1", 0.0048}}},
      {"M11", {{"O1", 0.0389}, {"K1", 0.0282}}},
      {"M12", {{"O1", 0.0140}, {"K1", 0.0101}}},
      {"Chi1", {{"O1", 0.0064}, {"K1", 0.0060}}},
      {"Pi1", {{"O1", 0.0030}, {"K1", 0.0171}}},
      {"Phi1", {{"O1", -0.0015}, {"K1", 0.0152}}},
      {"Theta1", {{"O1", -0.0065}, {"K1", 0.0155}}},
      {"J1", {{"O1", -0.0389}, {"K1", 0.0836}}},
      {"OO1", {{"O1", -0.0431}, {"K1", 0.0613}}},
      {"2N2", {{"N2", 0.264}, {"M2", -0.0253}}},
      {"Eps2", {{"2N2", 0.53285}, {"N2", -0.03304}}},
      {"Eta2", {{"M2", -0.0034925}, {"K2", 0.0831707}}},
      {"Mu2", {{"K2", 0.069439968323}, {"N2", 0.351535557706}, {"M2", -0.046278307672}}},
      {"Nu2", {{"K2", -0.006104695053}, {"N2", 0.156878802427}, {"M2", 0.006755704028}}},
      {"Lambda2", {{"K2", 0.016503557465}, {"N2", -0.013307812292}, {"M2", 0.007753383202}}},
      {"L2", {{"K2", 0.077137765667}, {"N2", -0.051653455134}, {"M2", 0.027869916824}}},
      {"T2", {{"K2", 0.180480173707}, {"N2", -0.020101177502}, {"M2", 0.008331518844}}},
  };
  for (auto& r : rules) {
    const int id = ident(r.name);
    if (!inferable[id]) continue;
    cplx v = 0;
    for (auto& f : r.from) v += f.second * t[ident(f.first)];
    t[id] = v;
  }
}

struct Tide { double h, lp; };

// The prediction: `model` are the values of the model's constituents at the
// point, all of them defined.
inline Tide predict(Form form, double epoch, unsigned leap, double lat, const std::map<int, cplx>& model,
                    const std::vector<int>& excluded, const std::vector<int>& extra_dynamic, bool ocean) {
  const Angles a = angles(form, epoch, leap);
  std::array<bool, 75> dyn{}, adm{};
  std::array<cplx, 75> t{};
  for (int i = 0; i < 75; ++i) adm[i] = kSpec[i].adm;
  for (auto& kv : model) {
    t[kv.first] = kv.second;
    bool ex = false;
    for (int e : excluded) ex = ex || e == kv.first;
    if (!ex) { dyn[kv.first] = true; adm[kv.first] = false; }
  }
  for (int d : extra_dynamic) { dyn[d] = true; adm[d] = false; }
  std::vector<std::string> names;
  for (int i = 0; i < 75; ++i) if (dyn[i]) names.push_back(kSpec[i].name);
  Tide out{0, ocean ? lpe(a, lat, names) : 0};
  admittance(t, adm);
  for (int i = 0; i < 75; ++i) {
    if (!dyn[i] && !adm[i]) continue;
    const Nodal n = nodal(i, a);
    const double x = n.f * (t[i].real() * std::cos(n.vu()) + t[i].imag() * std::sin(n.vu()));
    (kSpec[i].lp ? out.lp : out.h) += x;
  }
  return out;
}

// Bilinear interpolation of a regular grid given as a function of the indices.
// Returns the number of defined corners with weight; value in v.
struct GridAxis { double start, step; int n; bool circular; };
inline bool locate(const GridAxis& ax, double x, int& i, int& j, double& w) {
  // position in steps from the first node, in the direction of the axis
  double pos = (x - ax.start) / ax.step;
  if (ax.circular) {
    pos = std::fmod(pos, ax.n);
    if (pos < 0) pos += ax.n;
    if (pos >= ax.n) pos = 0;
  } else if (!(pos >= -1e-13 && pos <= ax.n - 1 + 1e-13)) {
    return false;
  }
  i = static_cast<int>(std::floor(pos));
  if (i < 0) i = 0;
  if (!ax.circular && i > ax.n - 2) i = ax.n - 2;
  w = pos - i;
  j = ax.circular ? (i + 1) % ax.n : i + 1;
  return true;
}

}  // namespace ref
