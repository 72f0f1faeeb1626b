// Axes and the bilinear interpolation of gridded models.
#include <thread>

#include "models.hpp"

using namespace vf;
using fes::Axis;

// ---------------------------------------------------------------------------
// C08: axes.
struct AxisCase {
  double start, step;
  int n;
  bool circular;
  Eigen::VectorXd points;
  Axis axis;
  double node(int i) const { return start + i * step; }
  std::string text() const { return fmt("axis start=%.17g step=%.17g n=%d%s", start, step, n, circular ? " circular" : ""); }
};

static AxisCase random_axis(Rng& r, bool dyadic) {
  AxisCase a{};
  a.circular = r.chance(.5);
  if (a.circular) {
    static const int exact[] = {3, 4, 5, 6, 8, 9, 12, 16, 32, 36, 45, 64, 72, 90, 180, 360, 720, 1440};
    a.n = dyadic ? exact[r.below(18)] : r.range(3, 400);
    a.step = 360.0 / a.n;
    a.start = dyadic ? r.range(-1440, 1440) * .25 : r.uniform(-720, 720);
    if (r.chance(.3)) a.start = r.chance(.5) ? 0 : -180;
    if (r.chance(.15)) a.start = r.chance(.5) ? -a.step / 2 : 360 - a.step / 2;
  } else {
    a.n = r.chance(.2) ? 2 : r.chance(.002) ? r.range(30000, 80000) : r.range(2, 200);
    a.step = a.n > 200 ? (dyadic ? .0625 : r.uniform(1e-3, 1)) : dyadic ? r.range(1, 64) * .0625 : std::exp(r.uniform(std::log(1e-3), std::log(100)));
    a.start = dyadic ? r.range(-2000, 2000) * .125 : r.chance(.2) ? 0 : r.uniform(-1000, 1000);
  }
  if (r.chance(.4)) a.step = -a.step;
  a.points.resize(a.n);
  const int wrap = a.circular ? r.below(3) : 0;
  for (int i = 0; i < a.n; ++i) {
    double v = a.node(i);
    if (wrap == 1) { while (v < -180) v += 360; while (v >= 180) v -= 360; }
    if (wrap == 2) { while (v < 0) v += 360; while (v >= 360) v -= 360; }
    a.points(i) = v;
  }
  a.axis = a.circular ? Axis(a.points, 1e-6, true) : r.chance(.5) ? Axis(a.points) : Axis(a.points, 1e-6, false);
  return a;
}

static double angular(double d) { return std::abs(std::remainder(d, 360.0)); }

static void axis_shape(Rng& r, Case& c) {
  const auto a = random_axis(r, r.chance(.4));
  c.note(a.text());
  const Axis& x = a.axis;
  const double tol = 1e-9 * (1 + std::abs(a.start) + std::abs(a.step * a.n));
  c.check(x.size() == a.n, "axis-size", fmt("size %ld", long(x.size())));
  c.check(x.is_circular() == a.circular, "axis-circular", fmt("%d", int(x.is_circular())));
  c.check(x.is_ascending() == (a.step > 0), "axis-ascending", fmt("%d", int(x.is_ascending())));
  c.near(x.step(), a.step, tol, "axis-step", "step");
  c.near(x.start(), a.points(0), tol, "axis-start", "first point");
  for (int i = 0; i < a.n; ++i) {
    const double d = x(i) - a.points(i);
    c.check((a.circular ? angular(d) : std::abs(d)) <= tol, "axis-point", fmt("point %d is %.17g, %.17g given", i, x(i), a.points(i)));
    if (i) c.check(std::abs((x(i) - x(i - 1)) - a.step) <= tol, "axis-monotonic", fmt("step %d", i));
  }
  c.check(bits(x.end()) == bits(x(a.n - 1)), "axis-end", "end");
  c.near(x.min_value(), std::min(x(0), x(a.n - 1)), 0, "axis-min", "min");
  c.near(x.max_value(), std::max(x(0), x(a.n - 1)), 0, "axis-max", "max");
  for (int64_t bad : {int64_t(-1), int64_t(a.n), int64_t(a.n) + 5, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()})
    c.check(thrown([&] { x(bad); }) == "out_of_range", "axis-out-of-range", fmt("index %ld", long(bad)));
  Axis y = x;
  c.check(y == x, "axis-equal", "a copy differs");
  if (!a.circular) {
    Eigen::VectorXd other = a.points.array() + std::abs(a.step) * 3;
    c.check(!(Axis(other) == x), "axis-equal", "a shifted axis is equal");
    other = a.points.reverse();
    c.check(!(Axis(other) == x), "axis-equal", "a reversed axis is equal");
    Eigen::VectorXd longer(a.n + 1);
    for (int i = 0; i <= a.n; ++i) longer(i) = a.node(i);
    c.check(!(Axis(longer) == x), "axis-equal", "a longer axis is equal");
  }
  c.distinct(bits(a.start) ^ mix(bits(a.step)) ^ mix(a.n * 2 + a.circular));
}

static double axis_coordinate(Rng& r, const AxisCase& a, bool dyadic) {
  double v;
  switch (r.below(7)) {
    case 0: v = a.node(r.below(a.n)); break;
    case 1: v = std::nextafter(a.node(r.below(a.n)), r.chance(.5) ? 1e9 : -1e9); break;
    case 2: v = a.node(r.range(-2, a.n + 1)) + a.step * (dyadic ? r.range(0, 8) * .125 : r.unit()); break;
    case 3: v = a.node(0) - std::abs(a.step) * r.unit() * 1e-7; break;
    case 4: v = a.node(a.n - 1) + a.step * r.unit() * (r.chance(.5) ? 1e-7 : 1); break;
    default: v = a.node(0) + a.step * r.uniform(-1, a.n + 1);
  }
  if (a.circular && r.chance(.6)) v += 360 * r.range(-3, 3);
  return v;
}

static void axis_lookup(Rng& r, Case& c) {
  const bool dyadic = r.chance(.5);
  const auto a = random_axis(r, dyadic);
  c.note(a.text());
  const Axis& x = a.axis;
  for (int k = 0; k < 12; ++k) {
    const double v = axis_coordinate(r, a, dyadic);
    // Rounding of the coordinate with respect to the axis.
    const double eps = 1e-12 * (1 + std::abs(v) + std::abs(a.start) + 360) / std::abs(a.step);
    // Its place, counted in steps from the first point.
    long double p = (static_cast<long double>(v) - x(0)) / x.step();
    if (a.circular) { p = std::fmod(p, (long double)a.n); if (p < 0) p += a.n; if (p >= a.n) p = 0; }
    const int n = a.n;
    const bool in = a.circular || (p >= 0 && p <= n - 1);
    const bool doubtful = !a.circular && (std::abs(double(p)) < eps || std::abs(double(p - (n - 1))) < eps) && p != 0 && p != n - 1;
    const auto got = x.find_indices(v);
    const std::string what = fmt("%.17g is at %.17g steps", v, double(p));
    if (!doubtful) c.check(bool(got) == in, "axis-indices-domain", what + (got ? ": found" : ": not found"));
    if (got) {
      const auto i0 = std::get<0>(*got), i1 = std::get<1>(*got);
      bool ok = i0 >= 0 && i0 < n && i1 >= 0 && i1 < n && i0 != i1;
      if (ok) {
        // Neighbours, on both sides of the coordinate.
        bool framed = false;
        for (auto lo : {i0, i1}) {
          const auto hi = lo == i0 ? i1 : i0;
          const bool next = hi == lo + 1 || (a.circular && hi == (lo + 1) % n);
          if (!next) continue;
          long double d = p - lo;
          if (a.circular) { if (d < -eps) d += n; if (d > n - 1 - eps && n > 1 && d > 1 + eps) d -= n; }
          framed = framed || (d >= -eps && d <= 1 + eps);
        }
        ok = framed;
      }
      c.check(ok, "axis-indices", what + fmt(": between %ld and %ld", long(i0), long(i1)));
      c.count("indices.found");
    } else c.count("indices.outside");
    // The closest point.
    for (bool bounded : {false, true}) {
      const auto i = x.find_index(v, bounded);
      const std::string w = what + fmt(": index %ld%s", long(i), bounded ? " bounded" : "");
      c.check(i >= (bounded ? 0 : -1) && i < n, "axis-index-range", w);
      if (i < -1 || i >= n) continue;
      if (a.circular) {
        // Past half a step after the last point, the closest point is the first
        // one: either of them, or none, is accepted.
        const double d = std::min(double(p), double(n - p));
        if (p > n - 1 + .5 - eps || d < eps) c.check(i == -1 || i == n - 1 || i == 0, "axis-index", w);
        else if (p > n - 1 - eps) c.check(i == n - 1 || i == -1 || (i == 0 && bounded), "axis-index", w);
        else c.check(i >= 0 && std::abs(double(p - i)) <= .5 + eps, "axis-index", w);
      } else if (p < -.5 - eps) c.check(i == (bounded ? 0 : -1), "axis-index", w);
      else if (p > n - .5 + eps) c.check(i == (bounded ? n - 1 : -1), "axis-index", w);
      else if (p >= -.5 + eps && p <= n - .5 - eps) c.check(i >= 0 && std::abs(double(p - i)) <= .5 + eps, "axis-index", w);
    }
    c.distinct(bits(v) ^ mix(bits(a.step)) ^ mix(bits(a.start)));
  }
}

// Coordinates which are nowhere, and points which are not an axis.
static void axis_hostile(Rng& r, Case& c) {
  const auto a = random_axis(r, r.chance(.5));
  c.note(a.text());
  const Axis& x = a.axis;
  static const double extreme[] = {kNaN, kInf, -kInf, 1e300, -1e300, 1e19, -1e19, 9.3e18, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), 1e15, -1e15};
  for (double v : extreme) {
    const auto got = x.find_indices(v);
    const bool finite = std::isfinite(v);
    if (!finite || !a.circular) c.check(!got, "axis-hostile-indices", fmt("%g is found", v));
    else if (got) c.check(std::get<0>(*got) >= 0 && std::get<0>(*got) < a.n && std::get<1>(*got) >= 0 && std::get<1>(*got) < a.n, "axis-hostile-indices", fmt("%g", v));
    const auto i = x.find_index(v, false);
    if (!finite || !a.circular) c.check(i == -1, "axis-hostile-index", fmt("%g is at index %ld", v, long(i)));
    const auto j = x.find_index(v, true);
    if (std::isnan(v) || (a.circular && !finite)) c.check(j >= -1 && j < a.n, "axis-hostile-index", fmt("%g is at bounded index %ld", v, long(j)));
    else if (!a.circular) c.check(j == ((v > 0) == (a.step > 0) ? a.n - 1 : 0), "axis-hostile-bounded", fmt("%g is at bounded index %ld", v, long(j)));
    else c.check(j >= 0 && j < a.n, "axis-hostile-bounded", fmt("%g is at bounded index %ld", v, long(j)));
  }
  // One point out of line.
  if (a.n >= 3) {
    Eigen::VectorXd bad = a.points;
    const int i = r.below(a.n);
    bad(i) += (r.chance(.5) ? 1 : -1) * std::abs(a.step) * r.uniform(.01, 3) + (r.chance(.5) ? 1e-3 : -1e-3);
    if (std::abs(bad(i) - a.points(i)) > 1e-4 * std::max(1., std::abs(a.step)) && !(a.circular && angular(bad(i) - a.points(i)) < 1e-3))
      c.check(thrown([&] { Axis(bad, 1e-6, a.circular); }) == "invalid_argument", "axis-uneven", fmt("point %d moved by %g is accepted", i, bad(i) - a.points(i)));
    bad = a.points;
    bad(i) = r.chance(.5) ? kNaN : r.chance(.5) ? kInf : -kInf;
    c.check(thrown([&] { Axis(bad, 1e-6, a.circular); }) == "invalid_argument", "axis-undefined", fmt("point %d is %g", i, bad(i)));
  }
  c.check(thrown([&] { Axis(Eigen::VectorXd(r.below(2))); }) == "invalid_argument", "axis-short", "an axis without a step is accepted");
  c.check(thrown([&] { Axis(Eigen::VectorXd::Constant(r.range(2, 9), r.uniform(-9, 9))); }) == "invalid_argument", "axis-constant", "a constant axis is accepted");
  // A part of the circle is no circle.
  if (a.circular && a.n > 4) {
    Eigen::VectorXd part(a.n - r.range(1, a.n - 3));
    for (int i = 0; i < part.size(); ++i) part(i) = a.node(i);
    const Axis y(part, 1e-6, true);
    c.check(!y.is_circular(), "axis-part", "a part of the circle is circular");
    c.check(y.size() == part.size() && std::abs(y(0) - part(0)) < 1e-9 && std::abs(y.end() - part(part.size() - 1)) < 1e-6, "axis-part", "points");
  }
  c.distinct(r.u64());
}

// ---------------------------------------------------------------------------
// C05: interpolation.
template <typename T>
struct Probe {
  const GridWorld<T>& w;
  std::unique_ptr<fes::Accelerator> acc;
  explicit Probe(const GridWorld<T>& world) : w(world), acc(world.model->accelerator(formulae(0), 0)) {}
  std::map<int, ref::cplx> operator()(double lon, double lat, fes::Quality& q) {
    std::map<int, ref::cplx> m;
    for (auto& kv : w.model->interpolate({lon, lat}, q, acc.get())) m[kv.first] = kv.second;
    return m;
  }
};

template <typename T>
static void bilinear(Rng& r, Case& c) {
  const bool dyadic = r.chance(.5);
  auto ids = kLargeGrids ? std::vector<int>{} : random_subset(r, 75, .04);
  if (ids.empty()) ids.push_back(30);
  GridWorld<T> w(r, ids, dyadic, 0, r.chance(.5));
  c.note(fmt("Cartesian<%s> %s", sizeof(T) == 4 ? "float" : "double", w.g.text().c_str()));
  Probe<T> probe(w);
  const auto& g = w.g;
  for (int k = kLargeGrids ? 500 : 10; k-- > 0;) {
    double lon, lat;
    int kind = r.below(5);
    if (kind == 0 && !dyadic) kind = 1;
    if (kind == 0) w.on_line(r, lon, lat);
    else w.inside(r, lon, lat);
    if (kind == 2) {  // next to a meridian of the grid, by rounding
      lon = g.lon(r.range(0, g.nlon - 1)) + (g.circular ? 360 * r.range(-2, 2) : 0);
      const int ulps = r.range(0, 3);
      for (int u = 0; u < ulps; ++u) lon = std::nextafter(lon, r.chance(.5) ? 1e9 : -1e9);
    }
    if (kind == 3 && g.circular) lon = g.lon(r.chance(.5) ? 0 : g.nlon - 1) + g.dlon * r.uniform(-1, 1) * (r.chance(.5) ? 1e-9 : 1) + 360 * r.range(-2, 2);
    fes::Quality q;
    const auto got = probe(lon, lat, q);
    // By rounding, the position may be on either side of a line.
    const double px = grid_position(lon, g.lon0, g.dlon, g.nlon, g.circular);
    const bool border = !g.circular && (px < 1e-9 || px > g.nlon - 1 - 1e-9);
    auto cells = w.cells(lon, lat);
    if (border && q == fes::kUndefined && kind == 2) { c.count("bilinear.border"); continue; }
    if (cells.empty()) { if (border) { c.count("bilinear.border"); continue; } c.check(false, "harness", "no cell"); continue; }
    c.check(q == fes::kInterpolated, "bilinear-quality", fmt("quality %d at lon=%.17g lat=%.17g", int(q), lon, lat));
    c.check(got.size() == ids.size(), "bilinear-values", fmt("%zu values", got.size()));
    const auto want = w.in_cell(cells[0]);
    for (auto& kv : want.values) {
      auto it = got.find(kv.first);
      if (!c.check(it != got.end(), "bilinear-values", ref::kSpec[kv.first].name)) continue;
      // The rounding of the longitude, in steps, times the differences between the nodes.
      const double tol = 400 * (1e-12 + 2e-13 * (1 + std::abs(lon)) / std::abs(g.dlon) + 1e-13 / std::abs(g.dlat) * 180);
      c.check(std::abs(it->second - kv.second) <= tol, "bilinear-value",
              fmt("%s at lon=%.17g lat=%.17g: (%.17g, %.17g), expected (%.17g, %.17g)", ref::kSpec[kv.first].name, lon, lat, it->second.real(), it->second.imag(), kv.second.real(), kv.second.imag()));
      // Between the values of the corners.
      double lo[2] = {kInf, kInf}, hi[2] = {-kInf, -kInf};
      const auto& cell = cells[0];
      for (int i : {cell.i1, cell.i2}) for (int j : {cell.j1, cell.j2}) {
        const auto z = w.node(kv.first, i, j);
        const double v[2] = {z.real(), z.imag()};
        for (int s = 0; s < 2; ++s) { lo[s] = std::min(lo[s], v[s]); hi[s] = std::max(hi[s], v[s]); }
      }
      const double v[2] = {it->second.real(), it->second.imag()};
      for (int s = 0; s < 2; ++s) c.check(v[s] >= lo[s] - tol && v[s] <= hi[s] + tol, "bilinear-hull", fmt("%s at lon=%.17g lat=%.17g is out of the values of its corners", ref::kSpec[kv.first].name, lon, lat));
    }
    c.count(fmt("bilinear.kind%d", kind));
    c.distinct(bits(lon) ^ mix(bits(lat)));
  }
}

// Cells with undefined nodes, the position as close as wanted to those that are
// defined, or not: only the defined nodes count, whatever their weight.
template <typename T>
static void masked(Rng& r, Case& c) {
  auto ids = kLargeGrids ? std::vector<int>{} : random_subset(r, 75, .03);
  if (ids.empty()) ids.push_back(r.below(75));
  GridWorld<T> w(r, ids, r.chance(.5), r.uniform(.1, .9), r.chance(.5));
  c.note(fmt("Cartesian<%s> %s", sizeof(T) == 4 ? "float" : "double", w.g.text().c_str()));
  Probe<T> probe(w);
  const auto& g = w.g;
  for (int k = kLargeGrids ? 500 : 10; k-- > 0;) {
    auto place = [&](int n) {
      double d = std::exp(r.uniform(std::log(1e-10), std::log(.5)));
      return r.range(0, n) + (r.chance(.5) ? d : 1 - d);
    };
    double lon = g.lon0 + place(g.circular ? g.nlon - 1 : g.nlon - 2) * g.dlon, lat = g.lat0 + place(g.nlat - 2) * g.dlat;
    if (g.circular) lon += 360 * r.range(-2, 2);
    const auto cells = w.cells(lon, lat);
    if (cells.size() != 1) { c.count("masked.line"); continue; }
    const auto& cell = cells[0];
    const double ex = 4e-16 * (360 + std::abs(lon) + std::abs(g.lon0)) / std::abs(g.dlon) + 1e-15 * g.nlon, ey = 4e-16 * (90 + std::abs(g.lat0)) / std::abs(g.dlat) + 1e-15 * g.nlat;
    const double dx = std::min(cell.wx, 1 - cell.wx), dy = std::min(cell.wy, 1 - cell.wy);
    if (dx < 30 * ex || dy < 30 * ey) { c.count("masked.line"); continue; }
    const auto want = w.in_cell(cell);
    fes::Quality q;
    const auto got = probe(lon, lat, q);
    c.check(int(q) == want.n, "masked-quality", fmt("quality %d, %d defined nodes, at lon=%.17g lat=%.17g", int(q), want.n, lon, lat));
    for (auto& kv : want.values) {
      auto it = got.find(kv.first);
      if (!c.check(it != got.end(), "masked-values", ref::kSpec[kv.first].name)) continue;
      if (std::isnan(kv.second.real())) { c.check(std::isnan(it->second.real()), "masked-undefined", fmt("%s is defined without data at lon=%.17g lat=%.17g", ref::kSpec[kv.first].name, lon, lat)); continue; }
      c.check(std::abs(it->second - kv.second) <= 500 * (ex / dx + ey / dy + 1e-12), "masked-value",
              fmt("%s at lon=%.17g lat=%.17g (weights %g %g): (%.17g, %.17g), expected (%.17g, %.17g)", ref::kSpec[kv.first].name, lon, lat, cell.wx, cell.wy, it->second.real(), it->second.imag(), kv.second.real(), kv.second.imag()));
    }
    c.count(fmt("masked.defined%d%s", want.n, dx < 1e-6 || dy < 1e-6 ? ".close" : ""));
    c.distinct(bits(lon) ^ mix(bits(lat)));
  }
}

// The same field on grids laid out otherwise gives the same values.
static void layout(Rng& r, Case& c) {
  GridGeometry g = random_grid_geometry(r, r.chance(.5));
  g.wrap = 0;
  g.row_major = true;
  c.note(g.text());
  std::vector<std::complex<double>> field(g.nlon * g.nlat);
  const bool masked = r.chance(.5);
  for (auto& v : field) v = masked && r.chance(.2) ? std::complex<double>(kNaN, kNaN) : std::complex<double>(r.gauss(), r.gauss());
  struct M { std::shared_ptr<fes::tidal_model::Cartesian<double>> m; std::string how; };
  std::vector<M> models;
  for (int flip = 0; flip < 8; ++flip) {
    const bool fx = flip & 1, fy = flip & 2, row = flip & 4;
    const int rot = g.circular ? r.below(g.nlon) : 0;
    Eigen::VectorXd lon(g.nlon), lat(g.nlat);
    auto ix = [&](int i) { return fx ? g.nlon - 1 - i : i; };
    auto src = [&](int i) { return (ix(i) + rot) % g.nlon; };
    for (int i = 0; i < g.nlon; ++i) lon(i) = g.lon0 + g.dlon * (ix(i) + rot);
    for (int j = 0; j < g.nlat; ++j) lat(j) = g.lat(fy ? g.nlat - 1 - j : j);
    auto m = std::make_shared<fes::tidal_model::Cartesian<double>>(fes::Axis(lon, 1e-6, g.circular), fes::Axis(lat), fes::kTide, row);
    fes::Vector<std::complex<double>> data(g.nlon * g.nlat);
    for (int i = 0; i < g.nlon; ++i)
      for (int j = 0; j < g.nlat; ++j) data(row ? i * g.nlat + j : j * g.nlon + i) = field[src(i) * g.nlat + (fy ? g.nlat - 1 - j : j)];
    m->add_constituent(fes::kM2, std::move(data));
    models.push_back({m, fmt("%s%s%s first=%d", fx ? "reversed longitudes " : "", fy ? "reversed latitudes " : "", row ? "lon-major" : "lat-major", rot)});
  }
  for (int k = 0; k < 12; ++k) {
    double lon = g.lon0 + g.dlon * (r.range(0, g.circular ? g.nlon - 1 : g.nlon - 2) + r.uniform(.001, .999));
    double lat = g.lat0 + g.dlat * (r.range(0, g.nlat - 2) + r.uniform(.001, .999));
    if (r.chance(.1)) lat = g.lat0 - g.dlat * r.uniform(.001, 3);
    std::complex<double> first;
    fes::Quality fq{};
    for (size_t i = 0; i < models.size(); ++i) {
      std::unique_ptr<fes::Accelerator> acc(models[i].m->accelerator(formulae(0), 0));
      fes::Quality q;
      const double l = lon + (g.circular ? 360 * r.range(-2, 2) : 0);
      const auto v = models[i].m->interpolate({l, lat}, q, acc.get()).at(0).second;
      if (i == 0) { first = v; fq = q; continue; }
      const double tol = 1e-9 + 1e-11 / std::abs(g.dlon) + 1e-11 / std::abs(g.dlat);
      const bool same = q == fq && ((std::isnan(v.real()) && std::isnan(first.real())) || std::abs(v - first) < tol * 10);
      c.check(same, "layout", fmt("lon=%.17g lat=%.17g: (%.17g, %.17g) quality %d with %s, (%.17g, %.17g) quality %d otherwise", l, lat, v.real(), v.imag(), int(q), models[i].how.c_str(), first.real(), first.imag(), int(fq)));
    }
    c.count("layout.compared", models.size() - 1);
    c.distinct(bits(lon) ^ mix(bits(lat)));
  }
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  H.run("axis_shape", 20000, 1000000, axis_shape);
  H.run("axis_lookup", 30000, 2000000, axis_lookup);
  H.run("axis_hostile", 10000, 400000, axis_hostile);
  H.run("bilinear", 40000, 1000000, [](Rng& r, Case& c) { r.chance(.7) ? bilinear<double>(r, c) : bilinear<float>(r, c); });
  H.run("masked", 15000, 500000, [](Rng& r, Case& c) { r.chance(.7) ? masked<double>(r, c) : masked<float>(r, c); });
  kLargeGrids = true;
  const auto large = [](Rng& r, Case& c) {
    switch (r.below(4)) {
      case 0: bilinear<double>(r, c); break;
      case 1: bilinear<float>(r, c); break;
      case 2: masked<double>(r, c); break;
      default: masked<float>(r, c);
    }
  };
  H.run("large", 8, 200, large);
  kLongGrids = true;
  H.run("long", 48, 1000, large);
  kLargeGrids = kLongGrids = false;
  H.run("layout", 8000, 200000, layout);
  return H.finish();
}
