// Random tidal models together with an independent evaluation of them.
#pragma once
#include <atomic>
#include <memory>
#include <new>

#include "fes/axis.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"

#include "fesref.hpp"

namespace vf {

constexpr double kNaN = std::numeric_limits<double>::quiet_NaN();
constexpr double kInf = std::numeric_limits<double>::infinity();

// Objects built one after the other, half of them at the same address: what is
// remembered about an object by its address must not be used for the next one.
// (The allocator of the sanitizers never reuses an address at once.)
template <typename T>
struct Slot {
  alignas(T) unsigned char bytes[sizeof(T)];
  std::atomic<bool> busy{false};
};
template <typename T, typename... Args>
std::shared_ptr<T> make_placed(Rng& r, Args&&... args) {
  static Slot<T> slot;
  if (r.chance(.4) || slot.busy.exchange(true)) return std::make_shared<T>(std::forward<Args>(args)...);
  try {
    return std::shared_ptr<T>(new (slot.bytes) T(std::forward<Args>(args)...), [](T* x) {
      x->~T();
      slot.busy = false;
    });
  } catch (...) {
    slot.busy = false;
    throw;
  }
}

// What is expected at a position: values by constituent, and how many corners
// were defined (4: interpolated), or the quality of a finite element model.
struct Expected {
  bool defined = false;
  int n = 0;
  std::map<int, ref::cplx> values;
};

inline std::vector<int> random_model_constituents(Rng& r) {
  switch (r.below(5)) {
    case 0: return {8, 17, 28, 30, 36};                                        // O1 K1 N2 M2 S2
    case 1: return {6, 8, 15, 17, 25, 28, 30, 36, 38};                         // the major ones
    case 2: { auto v = random_subset(r, 75, 1); return v; }                    // all
    case 3: return {int(r.below(75))};
    default: { auto v = random_subset(r, 75, r.unit() * .4); if (v.empty()) v.push_back(30); return v; }
  }
}

// ---------------------------------------------------------------------------
// A regular grid.
struct GridGeometry {
  double lon0, dlon; int nlon; bool circular;
  double lat0, dlat; int nlat;
  bool row_major;
  int wrap;        // 0: longitudes as computed, 1: in [-180, 180), 2: in [0, 360)
  bool dyadic;     // nodes are exact
  bool declared;   // declared as a circle, which it may not be
  double lon(int i) const { return lon0 + i * dlon; }
  double lat(int j) const { return lat0 + j * dlat; }
  std::string text() const {
    return fmt("grid lon0=%.17g dlon=%.17g nlon=%d%s wrap=%d lat0=%.17g dlat=%.17g nlat=%d %s", lon0, dlon, nlon,
               circular ? " circular" : declared ? " regional" : "", wrap, lat0, dlat, nlat, row_major ? "lon-major" : "lat-major");
  }
};

// The grids drawn are those of global atlases: more nodes than 16 bits can number.
static bool kLargeGrids = false, kLongGrids = false;

inline GridGeometry random_grid_geometry(Rng& r, bool dyadic) {
  GridGeometry g{};
  g.dyadic = dyadic;
  g.row_major = r.chance(.5);
  g.circular = r.chance(.6);
  const bool desc_lon = r.chance(.3), desc_lat = r.chance(.4);
  if (g.circular) {
    static const int exact[] = {4, 8, 16, 32, 64, 90, 180, 360, 45, 36, 12, 6, 720, 5};
    g.nlon = dyadic ? exact[r.below(14)] : r.range(3, 90);
    if (dyadic && g.nlon > 100 && r.chance(.7)) g.nlon = 36;
    if (kLargeGrids) g.nlon = r.pick(std::vector<int>{720, 1440, 2160, 999});
    g.dlon = 360.0 / g.nlon;
    g.lon0 = dyadic ? r.range(-720, 1440) * .5 : r.uniform(-360, 720);
    if (r.chance(.3)) g.lon0 = r.chance(.5) ? 0 : -180;
    g.wrap = r.below(3);
    if (g.wrap == 0) g.lon0 = std::fmod(g.lon0, 360);
  } else {
    g.nlon = r.range(2, 24);
    g.dlon = dyadic ? r.range(1, 16) * .125 : r.uniform(.05, 8);
    if (kLargeGrids) { g.nlon = r.range(700, 2500); g.dlon = dyadic ? .125 : r.uniform(.05, .14); }
    const int turn = r.chance(.5) ? 180 : r.chance(.5) ? 360 : 720;
    g.lon0 = dyadic ? r.range(-turn * 8, turn * 8) * .125 : r.uniform(-turn, turn);
  }
  if (desc_lon) { if (!g.circular) g.lon0 += (g.nlon - 1) * g.dlon; g.dlon = -g.dlon; }
  g.nlat = kLargeGrids ? r.range(100, 721) : r.range(2, 20);
  g.dlat = dyadic ? r.range(1, 64) * .125 : r.uniform(.05, 170.0 / (g.nlat - 1));
  if (dyadic) while (g.dlat * (g.nlat - 1) > 180) g.dlat /= 2;
  // Longer than what 15 or 16 bits can number.
  if (kLongGrids) {
    static const int longs[] = {33000, 36000, 43200, 66000, 72000, 80000};
    const int n = longs[r.below(6)];
    if (r.chance(.5)) {
      const double s = desc_lon ? -1 : 1;
      g.nlon = n;
      g.dlon = s * (g.circular ? 360.0 / n : dyadic ? .00390625 : r.uniform(.002, .004));
      g.nlat = r.range(2, 5);
      g.dlat = dyadic ? .125 : r.uniform(.05, 2);
    } else {
      g.nlat = n;
      g.dlat = dyadic ? .001953125 : 180.0 / (n - 1) * r.uniform(.5, 1);
      g.nlon = g.circular ? 4 : r.range(2, 5);
      g.dlon = (desc_lon ? -1 : 1) * (g.circular ? 90.0 : dyadic ? .125 : r.uniform(.05, 2));
    }
  }
  // A region may be declared as a circle, its longitudes in any convention.
  g.declared = g.circular || r.chance(.5);
  if (!g.circular && g.declared && g.nlon > 2) g.wrap = r.below(3);
  if (!g.circular && g.wrap) {
    const double lo = g.wrap == 1 ? -180 : 0;
    while (g.lon0 < lo) g.lon0 += 360;
    while (g.lon0 >= lo + 360) g.lon0 -= 360;
  }
  const double room = 180 - g.dlat * (g.nlat - 1);
  g.lat0 = -90 + (dyadic ? std::floor(r.unit() * room * 8) / 8 : r.unit() * room);
  if (r.chance(.15) && !dyadic) { g.dlat = 180.0 / (g.nlat - 1); g.lat0 = -90; }
  if (desc_lat) { g.lat0 += (g.nlat - 1) * g.dlat; g.dlat = -g.dlat; }
  return g;
}

inline fes::Axis make_lon_axis(const GridGeometry& g) {
  Eigen::VectorXd v(g.nlon);
  for (int i = 0; i < g.nlon; ++i) {
    v(i) = g.lon(i);
    if (g.wrap) {
      const double lo = g.wrap == 1 ? -180 : 0;
      while (v(i) < lo) v(i) += 360;
      while (v(i) >= lo + 360) v(i) -= 360;
    }
  }
  return fes::Axis(v, 1e-6, g.declared);
}
inline fes::Axis make_lat_axis(const GridGeometry& g) {
  Eigen::VectorXd v(g.nlat);
  for (int j = 0; j < g.nlat; ++j) v(j) = g.lat(j);
  return fes::Axis(v);
}

// Position of x in steps from the first node; nan if outside.
inline double grid_position(double x, double start, double step, int n, bool circular) {
  long double pos = (static_cast<long double>(x) - start) / step;
  if (circular) {
    pos = std::fmod(pos, static_cast<long double>(n));
    if (pos < 0) pos += n;
    if (pos >= n) pos = 0;
    return static_cast<double>(pos);
  }
  return static_cast<double>(pos);
}

template <typename T>
struct GridWorld {
  GridGeometry g;
  std::vector<int> ids;
  std::map<int, std::vector<std::complex<T>>> nodes;  // [i * nlat + j]
  std::shared_ptr<fes::tidal_model::Cartesian<T>> model;
  fes::TideType type;

  const std::complex<T>& node(int id, int i, int j) const { return nodes.at(id)[i * g.nlat + j]; }

  GridWorld(Rng& r, const std::vector<int>& constituents, bool dyadic, double masked, bool ocean)
      : g(random_grid_geometry(r, dyadic)), ids(constituents), type(ocean ? fes::kTide : fes::kRadial) {
    model = make_placed<fes::tidal_model::Cartesian<T>>(r, make_lon_axis(g), make_lat_axis(g), type, g.row_major);
    const bool same_mask = r.chance(.5);
    std::vector<bool> mask(g.nlon * g.nlat);
    auto draw = [&] { for (size_t i = 0; i < mask.size(); ++i) mask[i] = masked > 0 && r.chance(masked); };
    draw();
    auto order = ids;
    r.shuffle(order);
    const T nan = std::numeric_limits<T>::quiet_NaN();
    for (int id : order) {
      if (!same_mask) draw();
      auto& v = nodes[id];
      v.resize(g.nlon * g.nlat);
      const int kind = r.below(4);
      const double zeros = r.chance(.7) ? 0 : r.chance(.3) ? 1 : .3;  // nodes which are exactly 0, in part or entirely
      for (size_t k = 0; k < v.size(); ++k) {
        v[k] = std::complex<T>(static_cast<T>(r.gauss() * 50), static_cast<T>(r.gauss() * 50));
        if (zeros > 0 && r.chance(zeros)) v[k] = std::complex<T>(r.chance(.8) ? T(0) : v[k].real(), r.chance(.8) ? T(0) : v[k].imag());
        // Undefined: both parts, or one of them.
        if (mask[k]) v[k] = kind == 0 ? std::complex<T>(nan, v[k].imag()) : kind == 1 ? std::complex<T>(v[k].real(), nan) : std::complex<T>(nan, nan);
      }
      fes::Vector<std::complex<T>> data(v.size());
      for (int i = 0; i < g.nlon; ++i)
        for (int j = 0; j < g.nlat; ++j) data(g.row_major ? i * g.nlat + j : j * g.nlon + i) = node(id, i, j);
      if (r.chance(.5)) model->add_constituent(C(id), std::move(data));
      else static_cast<fes::AbstractTidalModel<T>&>(*model).add_constituent(std::string(ref::kSpec[id].name), std::move(data));
    }
  }

  // The cells a position belongs to: one, or more on the lines of the grid.
  struct Cell { int i1, i2, j1, j2; double wx, wy; };
  std::vector<Cell> cells(double lon, double lat) const {
    std::vector<Cell> out;
    const double px = grid_position(lon, g.lon0, g.dlon, g.nlon, g.circular);
    const double py = grid_position(lat, g.lat0, g.dlat, g.nlat, false);
    auto sides = [](double p, int n, bool circular, std::vector<std::array<double, 3>>& v) {
      if (!(circular || (p >= 0 && p <= n - 1))) return;
      int i = static_cast<int>(std::floor(p));
      const double w = p - i;
      if (circular) {
        v.push_back({double(i % n), double((i + 1) % n), w});
        if (w == 0) v.push_back({double((i + n - 1) % n), double(i % n), 1});
      } else {
        if (i <= n - 2) v.push_back({double(i), double(i + 1), w});
        if (w == 0 && i >= 1) v.push_back({double(i - 1), double(i), 1});
      }
    };
    std::vector<std::array<double, 3>> xs, ys;
    sides(px, g.nlon, g.circular, xs);
    sides(py, g.nlat, false, ys);
    for (auto& x : xs) for (auto& y : ys) out.push_back({int(x[0]), int(x[1]), int(y[0]), int(y[1]), x[2], y[2]});
    return out;
  }

  Expected in_cell(const Cell& c) const {
    Expected e;
    e.n = ids.empty() ? 0 : 4;
    for (int id : ids) {
      std::complex<long double> sum = 0;
      long double weight = 0;
      int n = 0;
      auto add = [&](int i, int j, long double w) {
        const auto z = node(id, i, j);
        if (std::isnan(z.real()) || std::isnan(z.imag())) return;
        sum += std::complex<long double>(z.real(), z.imag()) * w;
        weight += w;
        ++n;
      };
      add(c.i1, c.j1, (1 - static_cast<long double>(c.wx)) * (1 - static_cast<long double>(c.wy)));
      add(c.i1, c.j2, (1 - static_cast<long double>(c.wx)) * c.wy);
      add(c.i2, c.j1, static_cast<long double>(c.wx) * (1 - static_cast<long double>(c.wy)));
      add(c.i2, c.j2, static_cast<long double>(c.wx) * c.wy);
      if (weight == 0) n = 0;
      e.n = std::min(e.n, n);
      e.values[id] = n ? ref::cplx(sum / weight) : ref::cplx(kNaN, kNaN);
    }
    e.defined = e.n > 0;
    return e;
  }

  // A position strictly inside of a cell, as any longitude of this meridian.
  void inside(Rng& r, double& lon, double& lat) const {
    const double px = r.range(0, g.circular ? g.nlon - 1 : g.nlon - 2) + r.uniform(.01, .99);
    const double py = r.range(0, g.nlat - 2) + r.uniform(.01, .99);
    lon = g.lon0 + px * g.dlon;
    lat = g.lat0 + py * g.dlat;
    if (g.circular) lon += 360 * r.range(-2, 2);
  }
  // A node or a line of the grid (for a dyadic grid).
  void on_line(Rng& r, double& lon, double& lat) const {
    const bool x = r.chance(.6), y = !x || r.chance(.5);
    const double px = r.range(0, g.circular ? g.nlon - 1 : (x ? g.nlon - 1 : g.nlon - 2)) + (x ? 0 : r.range(1, 7) * .125);
    const double py = r.range(0, y ? g.nlat - 1 : g.nlat - 2) + (y ? 0 : r.range(1, 7) * .125);
    lon = g.lon0 + px * g.dlon;
    lat = g.lat0 + py * g.dlat;
    if (g.circular) lon += 360 * r.range(-2, 2);
  }
  void outside(Rng& r, double& lon, double& lat) const {
    inside(r, lon, lat);
    const double h = std::abs(g.dlat) * (g.nlat - 1), lo = std::min(g.lat0, g.lat(g.nlat - 1));
    const double d = r.chance(.5) ? r.uniform(.6, 3) * std::abs(g.dlat) : r.chance(.5) ? 1e-3 * std::abs(g.dlat) : 1e6;
    if (g.circular || r.chance(.5)) lat = r.chance(.5) ? lo - d : lo + h + d;
    else {
      const double w = std::abs(g.dlon) * (g.nlon - 1), l = std::min(g.lon0, g.lon(g.nlon - 1));
      const double dl = r.chance(.5) ? r.uniform(.6, 3) * std::abs(g.dlon) : 1e-3 * std::abs(g.dlon);
      lon = r.chance(.5) ? l - dl : l + w + dl;
    }
  }
};

// ---------------------------------------------------------------------------
// A mesh: a lattice of almost equilateral triangles.
// Where the meshes are, if not anywhere: longitude, latitude, size.
static const std::array<double, 3>* kMeshPlace = nullptr;

struct Mesh {
  double lon0, lat0, h, k;    // centre, spacing (degrees of latitude), stretching of the longitudes
  int nx, ny, wrap;
  std::vector<std::array<double, 2>> vertices;  // local longitude (relative to lon0), latitude
  std::vector<std::array<int, 3>> triangles;
  std::string text() const { return fmt("mesh lon0=%.17g lat0=%.17g h=%.17g %dx%d wrap=%d", lon0, lat0, h, nx, ny, wrap); }

  explicit Mesh(Rng& r, int max_side = 9) {
    lon0 = r.chance(.4) ? (r.chance(.5) ? 180 : -180) + r.uniform(-3, 3) : r.chance(.2) ? r.uniform(-3, 3) : r.uniform(-180, 180);
    lat0 = r.uniform(-55, 55);
    h = r.chance(.5) ? r.uniform(.05, .5) : r.uniform(.5, 1.5);
    nx = r.range(2, max_side);
    ny = r.range(2, max_side);
    // More triangles than 16 bits can number.
    if (max_side >= 100) { h = r.uniform(.01, .1); nx = r.range(max_side - 20, max_side); ny = r.range(max_side - 20, max_side); }
    if (kMeshPlace) { lon0 = (*kMeshPlace)[0]; lat0 = (*kMeshPlace)[1]; h = (*kMeshPlace)[2]; }
    wrap = r.below(3);
    k = 1 / std::cos(lat0 * ref::kDeg);
    const double s = std::sqrt(3) / 2;
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i)
        vertices.push_back({(i - (nx - 1) / 2. + (j & 1) * .5 + r.uniform(-.06, .06)) * h * k, lat0 + ((j - (ny - 1) / 2.) * s + r.uniform(-.06, .06)) * h});
    auto id = [&](int i, int j) { return j * nx + i; };
    auto add = [&](int a, int b, int c) {
      std::array<int, 3> t{a, b, c};
      if (r.chance(.3)) std::swap(t[1], t[2]);
      std::rotate(t.begin(), t.begin() + r.below(3), t.end());
      triangles.push_back(t);
    };
    for (int j = 0; j + 1 < ny; ++j)
      for (int i = 0; i + 1 < nx; ++i) {
        if (j & 1) {
          add(id(i, j), id(i + 1, j), id(i + 1, j + 1));
          add(id(i, j), id(i + 1, j + 1), id(i, j + 1));
        } else {
          add(id(i, j), id(i + 1, j), id(i, j + 1));
          add(id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
        }
      }
    r.shuffle(triangles);
  }
  double full_lon(double local) const {
    double x = lon0 + local;
    if (wrap == 1) { while (x < -180) x += 360; while (x >= 180) x -= 360; }
    if (wrap == 2) { while (x < 0) x += 360; while (x >= 360) x -= 360; }
    return x;
  }
  std::shared_ptr<fes::mesh::Index> index() const {
    Eigen::VectorXd lon(vertices.size()), lat(vertices.size());
    Eigen::Matrix<int32_t, -1, 3> t(triangles.size(), 3);
    for (size_t i = 0; i < vertices.size(); ++i) { lon(i) = full_lon(vertices[i][0]); lat(i) = vertices[i][1]; }
    for (size_t i = 0; i < triangles.size(); ++i) for (int j = 0; j < 3; ++j) t(i, j) = triangles[i][j];
    Rng r(static_cast<uint64_t>(std::abs(lon0) * 1e12));
    return make_placed<fes::mesh::Index>(r, lon, lat, t);
  }
  // A point of triangle t, given its barycentric coordinates.
  void at(int t, double b0, double b1, double b2, double& x, double& y) const {
    const auto &a = vertices[triangles[t][0]], &b = vertices[triangles[t][1]], &c = vertices[triangles[t][2]];
    x = a[0] * b0 + b[0] * b1 + c[0] * b2;
    y = a[1] * b0 + b[1] * b1 + c[1] * b2;
  }
  // Barycentric coordinates, at least m each.
  static std::array<double, 3> bary(Rng& r, double m) {
    double a = r.unit(), b = r.unit();
    if (a + b > 1) { a = 1 - a; b = 1 - b; }
    return {m + a * (1 - 3 * m), m + b * (1 - 3 * m), m + (1 - a - b) * (1 - 3 * m)};
  }
};

template <typename T, int N>
struct LgpBase;
template <typename T>
struct LgpBase<T, 1> { using type = fes::tidal_model::LGP1<T>; };
template <typename T>
struct LgpBase<T, 2> { using type = fes::tidal_model::LGP2<T>; };

// A finite element model of degree N.
template <typename T, int N>
struct LgpWorld {
  using Model = typename LgpBase<T, N>::type;
  Mesh m;
  std::vector<int> ids;
  std::vector<std::array<int, N * 3>> codes;
  std::map<int, std::vector<std::complex<T>>> data;
  std::shared_ptr<Model> model;
  fes::TideType type;
  double max_distance;
  int n_codes = 0;

  // smooth: the values of every constituent are those of a polynomial of degree N.
  std::map<int, std::array<ref::cplx, 6>> poly;
  ref::cplx smooth_value(int id, double x, double y) const {
    const auto& p = poly.at(id);
    x /= m.h * m.k;
    y = (y - m.lat0) / m.h;
    ref::cplx v = p[0] + p[1] * x + p[2] * y;
    if (N == 2) v += p[3] * x * x + p[4] * x * y + p[5] * y * y;
    return v;
  }

  LgpWorld(Rng& r, const std::vector<int>& constituents, bool smooth, bool ocean, double max_dist = 0, int max_side = 9, double holes = 0)
      : m(r, max_side), ids(constituents), type(ocean ? fes::kTide : fes::kRadial), max_distance(max_dist) {
    const int nt = m.triangles.size();
    // Nodes of the triangles: 0, 01, 1, 12, 2, 20 for degree 2.
    std::map<std::pair<int, int>, int> node;
    std::vector<std::array<double, 2>> where;
    const bool shared = smooth ? r.chance(.5) : false;
    codes.resize(nt);
    for (int t = 0; t < nt; ++t) {
      const auto& tr = m.triangles[t];
      for (int q = 0; q < N * 3; ++q) {
        std::pair<int, int> key;
        std::array<double, 2> pos;
        if (N == 1 || q % 2 == 0) {
          const int v = tr[N == 1 ? q : q / 2];
          key = {v, v};
          pos = m.vertices[v];
        } else {
          const int a = tr[q / 2], b = tr[(q / 2 + 1) % 3];
          key = {std::min(a, b), std::max(a, b)};
          pos = {(m.vertices[a][0] + m.vertices[b][0]) / 2, (m.vertices[a][1] + m.vertices[b][1]) / 2};
        }
        if (!shared) key = {1000000 + t, q};
        auto it = node.find(key);
        if (it == node.end()) { it = node.emplace(key, where.size()).first; where.push_back(pos); }
        codes[t][q] = it->second;
      }
    }
    // Numbered in any order, some numbers being unused.
    const int gaps = r.below(4);
    std::vector<int> number(where.size() + gaps);
    for (size_t i = 0; i < number.size(); ++i) number[i] = i;
    r.shuffle(number);
    for (auto& c : codes) for (auto& q : c) { q = number[q]; n_codes = std::max(n_codes, q + 1); }
    auto mesh_index = m.index();
    Eigen::Matrix<int, Eigen::Dynamic, N * 3> cm(nt, N * 3);
    for (int t = 0; t < nt; ++t) for (int q = 0; q < N * 3; ++q) cm(t, q) = codes[t][q];
    model = make_placed<Model>(r, mesh_index, cm, type, max_distance);
    auto order = ids;
    r.shuffle(order);
    for (int id : order) {
      for (auto& p : poly[id]) p = ref::cplx(r.gauss() * 20, r.gauss() * 20);
      auto& d = data[id];
      d.assign(n_codes, std::complex<T>(0, 0));
      if (smooth) for (size_t i = 0; i < where.size(); ++i) { if (number[i] < n_codes) d[number[i]] = std::complex<T>(smooth_value(id, where[i][0], where[i][1])); }
      else for (auto& v : d) v = std::complex<T>(static_cast<T>(r.gauss() * 50), static_cast<T>(r.gauss() * 50));
      // Either part may be undefined, or both.
      const T nan = std::numeric_limits<T>::quiet_NaN();
      if (holes > 0)
        for (auto& v : d)
          if (r.chance(holes)) { const int k = r.below(4); v = std::complex<T>(k != 1 ? nan : v.real(), k ? nan : v.imag()); }
      fes::Vector<std::complex<T>> v(n_codes);
      for (int i = 0; i < n_codes; ++i) v(i) = d[i];
      model->add_constituent(C(id), std::move(v));
    }
  }

  // Value of a constituent at a point of a triangle, from the codes.
  ref::cplx value(int id, int t, const std::array<double, 3>& b) const {
    const auto& d = data.at(id);
    auto z = [&](int q) { return ref::cplx(d[codes[t][q]]); };
    if (N == 1) return z(0) * b[0] + z(1) * b[1] + z(2) * b[2];
    ref::cplx v = 0;
    for (int q = 0; q < 3; ++q) v += z((2 * q) % (N * 3)) * (b[q] * (2 * b[q] - 1)) + z((2 * q + 1) % (N * 3)) * (4 * b[q] * b[(q + 1) % 3]);
    return v;
  }
  void inside(Rng& r, double& lon, double& lat, double& x, double& y) const {
    const int t = r.below(m.triangles.size());
    // Away from the edges, which are geodesics and bend away from the straight
    // line: out of the mesh, a point is projected.
    const auto b = Mesh::bary(r, 1e-3 + .5 * m.h * m.k * m.k * ref::kDeg);
    m.at(t, b[0], b[1], b[2], x, y);
    lon = m.full_lon(x);
    if (m.wrap == 0 || r.chance(.3)) lon = m.lon0 + x + 360 * r.range(-1, 1);
    lat = y;
  }
};

}  // namespace vf
