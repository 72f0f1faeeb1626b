// Meshes: search of triangles, finite element interpolation, geometry.
#include "models.hpp"

using namespace vf;
using fes::geometry::Point;
using fes::geometry::Triangle;

struct V3 { double x, y, z; };
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator*(V3 a, double k) { return {a.x * k, a.y * k, a.z * k}; }
static double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double norm(V3 a) { return std::sqrt(dot(a, a)); }
static V3 unit(V3 a) { return a * (1 / norm(a)); }

// WGS84.
static V3 ecef(double lon, double lat) {
  const long double a = 6378137.0L, f = 1 / 298.257223563L, e2 = f * (2 - f);
  const long double l = std::fmod((long double)lon, 360.0L) * M_PIl / 180, p = (long double)lat * M_PIl / 180;
  const long double s = std::sin(p), n = a / std::sqrt(1 - e2 * s * s);
  return {double(n * std::cos(p) * std::cos(l)), double(n * std::cos(p) * std::sin(l)), double(n * (1 - e2) * s)};
}
// On the sphere of the geodetic latitudes.
static V3 sphere(double lon, double lat) {
  const double l = lon * ref::kDeg, p = lat * ref::kDeg;
  return {std::cos(p) * std::cos(l), std::cos(p) * std::sin(l), std::sin(p)};
}
static double wrap180(double x) { return std::remainder(x, 360.0); }
static bool same_place(const Point& p, double lon, double lat) { return std::abs(wrap180(p.lon() - lon)) < 1e-9 && std::abs(p.lat() - lat) < 1e-9; }

// ---------------------------------------------------------------------------
// A mesh of the whole Earth: an icosahedron whose faces are split.
struct Globe {
  std::vector<V3> v;
  std::vector<std::array<int, 3>> t;
  std::vector<double> lon, lat;
  Globe(Rng& r, int level) {
    const double g = (1 + std::sqrt(5)) / 2;
    for (int s = 0; s < 4; ++s) {
      const double a = s & 1 ? 1 : -1, b = s & 2 ? g : -g;
      v.push_back({0, a, b}); v.push_back({a, b, 0}); v.push_back({b, 0, a});
    }
    for (int i = 0; i < 12; ++i) for (int j = i + 1; j < 12; ++j) for (int k = j + 1; k < 12; ++k)
      if (norm(v[i] - v[j]) < 2.01 && norm(v[j] - v[k]) < 2.01 && norm(v[i] - v[k]) < 2.01) t.push_back({i, j, k});
    for (auto& p : v) p = unit(p);
    for (int l = 0; l < level; ++l) {
      std::map<std::pair<int, int>, int> mid;
      std::vector<std::array<int, 3>> next;
      auto m = [&](int a, int b) {
        auto key = std::make_pair(std::min(a, b), std::max(a, b));
        auto it = mid.find(key);
        if (it != mid.end()) return it->second;
        v.push_back(unit(v[a] + v[b]));
        return mid[key] = int(v.size()) - 1;
      };
      for (auto& f : t) {
        const int a = m(f[0], f[1]), b = m(f[1], f[2]), c = m(f[2], f[0]);
        next.push_back({f[0], a, c}); next.push_back({f[1], b, a}); next.push_back({f[2], c, b}); next.push_back({a, b, c});
      }
      t = next;
    }
    // Turned at random.
    const V3 ax = unit({r.gauss(), r.gauss(), r.gauss()});
    const double w = r.uniform(0, 2 * M_PI);
    for (auto& p : v) p = p * std::cos(w) + cross(ax, p) * std::sin(w) + ax * (dot(ax, p) * (1 - std::cos(w)));
    for (auto& p : v) {
      double lo = std::atan2(p.y, p.x) / ref::kDeg;
      if (r.chance(.3)) lo += 360;
      lon.push_back(lo);
      lat.push_back(std::asin(std::max(-1., std::min(1., p.z))) / ref::kDeg);
    }
    for (auto& f : t) {
      if (r.chance(.4)) std::swap(f[1], f[2]);
      std::rotate(f.begin(), f.begin() + r.below(3), f.end());
    }
    r.shuffle(t);
  }
  // Coordinates of p in triangle k, as a share of the triangle.
  std::array<double, 3> bary(int k, V3 p) const {
    const V3 a = v[t[k][0]], b = v[t[k][1]], c = v[t[k][2]];
    const double d = dot(a, cross(b, c));
    return {dot(p, cross(b, c)) / d, dot(a, cross(p, c)) / d, dot(a, cross(b, p)) / d};
  }
};

static fes::mesh::Index make_index(const std::vector<double>& lon, const std::vector<double>& lat, const std::vector<std::array<int, 3>>& t) {
  Eigen::VectorXd x(lon.size()), y(lat.size());
  Eigen::Matrix<int32_t, -1, 3> m(t.size(), 3);
  for (size_t i = 0; i < lon.size(); ++i) { x(i) = lon[i]; y(i) = lat[i]; }
  for (size_t i = 0; i < t.size(); ++i) for (int j = 0; j < 3; ++j) m(i, j) = t[i][j];
  return fes::mesh::Index(x, y, m);
}

static bool vertices_match(const fes::mesh::SelectedTriangle& s, const std::array<int, 3>& t, const std::function<std::array<double, 2>(int)>& at) {
  const Point p[3] = {s.triangle.v1(), s.triangle.v2(), s.triangle.v3()};
  for (int i = 0; i < 3; ++i) { auto w = at(t[i]); if (!same_place(p[i], w[0], w[1])) return false; }
  return true;
}

// C07 on the whole Earth.
static void globe(Rng& r, Case& c) {
  const Globe g(r, r.chance(.5) ? 2 : 3);
  const auto placed = make_placed<fes::mesh::Index>(r, make_index(g.lon, g.lat, g.t));
  const auto& index = *placed;
  c.check(index.n_triangles() == g.t.size() && index.n_positions() == g.v.size(), "mesh-size", "sizes");
  c.note(fmt("globe of %zu triangles", g.t.size()));
  // The geodesics of the ellipsoid are not the great circles of the sphere.
  const double margin = g.t.size() < 400 ? 2e-2 : 1e-2;
  for (int k = 0; k < 60; ++k) {
    V3 p = unit({r.gauss(), r.gauss(), r.gauss()});
    if (r.chance(.2)) p = unit({r.gauss() * .05, r.gauss() * .05, r.chance(.5) ? 1. : -1.});     // near a pole
    if (r.chance(.2)) p = unit({-1, r.gauss() * .03, r.gauss()});                                // near the date line
    double lon = std::atan2(p.y, p.x) / ref::kDeg;
    const double lat = std::asin(p.z) / ref::kDeg;
    lon += 360 * r.range(-2, 2);
    int in = -1;
    bool pole = false;
    for (size_t i = 0; i < g.t.size(); ++i) {
      const auto b = g.bary(i, p);
      if (std::min({b[0], b[1], b[2]}) > margin) {
        in = i;
        for (double z : {1., -1.}) { const auto q = g.bary(i, {0, 0, z}); pole = pole || std::min({q[0], q[1], q[2]}) > -2 * margin; }
      }
    }
    if (in < 0) continue;
    // The triangles around a pole are no polygons of the plane of the longitudes and latitudes.
    if (pole) { c.count("globe.pole"); continue; }
    const auto s = index.search(Point(lon, lat), r.chance(.5) ? 0 : 1e5);
    if (s.index >= 0 && s.index != in) {
      bool polar = false;
      for (double z : {1., -1.}) { const auto q = g.bary(s.index, {0, 0, z}); polar = polar || std::min({q[0], q[1], q[2]}) > -2 * margin; }
      if (polar) { c.count("globe.pole"); continue; }
    }
    c.check(s.inside && s.index == in, "globe-search", fmt("lon=%.17g lat=%.17g is in triangle %d, found %d%s", lon, lat, in, s.index, s.inside ? "" : " (outside)"));
    if (s.index == in) {
      c.check(vertices_match(s, g.t[in], [&](int i) { return std::array<double, 2>{g.lon[i], g.lat[i]}; }), "globe-triangle", "not the vertices of the triangle");
      c.check(same_place(s.point, lon, lat), "globe-point", "the point was moved");
    }
    c.count("globe.found");
    c.distinct(bits(lon) ^ mix(bits(lat)));
  }
}

// The vertices inside of a mesh belong to it, whatever the rounding; so do the
// edges, but for a few positions that are on no side of the geodesic.
static void lattice(Rng& r, Case& c) {
  const int nx = r.range(3, 7), ny = r.range(3, 7);
  static const double steps[] = {.0625, .25, .5, 1, 1 / 3., .1, 1 / 12., .7};
  const double d = steps[r.below(8)], lo = r.chance(.5) ? std::floor(r.uniform(-180, 180)) : r.uniform(-180, 180), la = std::floor(r.uniform(-70, 60));
  std::vector<double> lon, lat;
  std::vector<std::array<int, 3>> t;
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { lon.push_back(lo + i * d); lat.push_back(la + j * d); }
  for (int j = 0; j + 1 < ny; ++j) for (int i = 0; i + 1 < nx; ++i) {
    const int a = j * nx + i;
    t.push_back({a, a + 1, a + nx + 1});
    t.push_back({a, a + nx + 1, a + nx});
  }
  const auto placed = make_placed<fes::mesh::Index>(r, make_index(lon, lat, t));
  const auto& index = *placed;
  c.note(fmt("lattice lon=%.17g lat=%.17g step=%.17g %dx%d", lo, la, d, nx, ny));
  for (int k = 0; k < 40; ++k) {
    const int i = r.range(1, nx - 2), j = r.range(1, ny - 2), kind = r.below(4);
    // Along a parallel, the edges are geodesics: those next to the boundary may be out of the mesh.
    if (kind == 2 && (j == 1 || j == ny - 2)) continue;
    const double f = r.unit();
    double x = lo + i * d, y = la + j * d;
    if (kind == 1 || kind == 3) y += f * d;
    if (kind == 2 || kind == 3) x += f * d;
    if (r.chance(.5)) x += 360 * r.range(-1, 1);
    const auto s = index.search(Point(x, y), 0);
    const std::string what = fmt("lon=%.17g lat=%.17g on %s: triangle %d", x, y, kind == 0 ? "a vertex" : kind == 1 ? "a meridian" : kind == 2 ? "a parallel" : "a diagonal", s.index);
    if (kind != 0 && s.index == -1) { c.count("lattice.edge-missed"); continue; }
    if (c.check(s.index >= 0 && s.index < int(t.size()), "lattice-found", what)) {
      const double dist = norm(ecef(s.point.lon(), s.point.lat()) - ecef(x, y));
      // A point on a vertex that no triangle covers is projected, to within 30 cm.
      c.check(dist < .5, "lattice-moved", what + fmt(", moved by %g m", dist));
      bool near = false;
      for (int v : t[s.index]) near = near || (std::abs(wrap180(lon[v] - x)) <= d * 1.001 && std::abs(lat[v] - y) <= d * 1.001);
      c.check(near, "lattice-triangle", what);
    }
    c.count(fmt("lattice.kind%d", kind));
    c.distinct(bits(x) ^ mix(bits(y)));
  }
}

// An undefined or extreme position is not in the mesh, whatever the distance.
static void nowhere(Rng& r, Case& c) {
  Mesh m(r, 5);
  const auto index = m.index();
  c.note(m.text());
  for (int k = 0; k < 12; ++k) {
    const bool x = r.chance(.6);
    const double v = r.pick(std::vector<double>{kNaN, kNaN, kInf, -kInf});
    const Point p(x ? v : m.lon0, !x || r.chance(.2) ? v : m.lat0);
    const double max_distance = r.pick(std::vector<double>{0, 1, 1e7, kInf, kNaN, -1, std::numeric_limits<double>::max()});
    const auto s = index->search(p, max_distance);
    c.check(s.index == -1 && !s.inside, "search-nowhere", fmt("(%g, %g) within %g m is in triangle %d", p.lon(), p.lat(), max_distance, s.index));
    c.distinct(mix(bits(max_distance)) ^ bits(v) ^ x);
  }
}

// Planar coordinates of (x, y) in triangle k of a local mesh.
static std::array<double, 3> planar(const Mesh& m, int k, double x, double y) {
  const auto &a = m.vertices[m.triangles[k][0]], &b = m.vertices[m.triangles[k][1]], &c = m.vertices[m.triangles[k][2]];
  const double d = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]);
  const double u = ((x - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (y - a[1])) / d;
  const double v = ((b[0] - a[0]) * (y - a[1]) - (x - a[0]) * (b[1] - a[1])) / d;
  return {1 - u - v, u, v};
}
static double edge_margin(const Mesh& m) { return 1e-3 + .5 * m.h * m.k * m.k * ref::kDeg; }

// C07 on local meshes with a boundary, unused positions and extrapolation.
static void local_mesh(Rng& r, Case& c, int max_side) {
  Mesh m(r, max_side);
  std::vector<double> lon, lat;
  for (auto& v : m.vertices) { lon.push_back(m.full_lon(v[0])); lat.push_back(v[1]); }
  // Positions used by no triangle.
  for (int i = r.below(4); i > 0; --i) { lon.push_back(m.lon0 + r.uniform(-5, 5)); lat.push_back(r.uniform(-80, 80)); }
  const auto placed = make_placed<fes::mesh::Index>(r, make_index(lon, lat, m.triangles));
  const auto& index = *placed;
  c.note(m.text());
  const double margin = edge_margin(m);
  for (int k = 0; k < 25; ++k) {
    double x = r.uniform(-.5, .5) * (m.nx + 3) * m.h * m.k, y = m.lat0 + r.uniform(-.5, .5) * (m.ny + 3) * m.h;
    const int kind = r.below(5);
    if (kind == 0) { const auto& v = m.vertices[r.below(m.vertices.size())]; x = v[0]; y = v[1]; }
    if (kind == 1) { const auto b = Mesh::bary(r, margin); m.at(r.below(m.triangles.size()), b[0], b[1], b[2], x, y); }
    if (kind == 2) { x *= r.uniform(1, 12); y = m.lat0 + (y - m.lat0) * r.uniform(1, 12); y = std::max(-89., std::min(89., y)); }
    double qlon = m.lon0 + x + (r.chance(.4) ? 360 * r.range(-2, 2) : 0);
    if (kind == 0) qlon = m.full_lon(x);
    int in = -1;
    bool doubtful = false;
    for (size_t i = 0; i < m.triangles.size(); ++i) {
      const auto b = planar(m, i, x, y);
      const double least = std::min({b[0], b[1], b[2]});
      if (least >= margin * .999) in = i;
      else if (least > -margin) doubtful = true;
    }
    // Distance to the nearest vertex used by a triangle.
    double nearest = kInf;
    int vertex = -1;
    for (size_t i = 0; i < m.triangles.size(); ++i)
      for (int v : m.triangles[i]) {
        const double d = norm(ecef(qlon, y) - ecef(lon[v], lat[v]));
        if (d < nearest) { nearest = d; vertex = v; }
      }
    const double max_distance = r.chance(.3) ? 0 : nearest * (r.chance(.5) ? r.uniform(1.001, 3) : r.uniform(0, .999));
    const auto s = index.search(Point(qlon, y), max_distance);
    const std::string what = fmt("lon=%.17g lat=%.17g max_distance=%.17g: triangle %d%s; expected %d, nearest vertex at %.17g m", qlon, y, max_distance, s.index, s.inside ? " inside" : "", in, nearest);
    c.check(s.index >= -1 && s.index < int(m.triangles.size()), "search-range", what);
    if (s.index < -1 || s.index >= int(m.triangles.size())) continue;
    c.check(!s.inside || s.index != -1, "search-inside", what);
    if (s.index >= 0)
      c.check(vertices_match(s, m.triangles[s.index], [&](int i) { return std::array<double, 2>{lon[i], lat[i]}; }), "search-triangle", what);
    if (s.inside) {
      c.check(same_place(s.point, qlon, y), "search-point", "the point was moved; " + what);
      if (s.index >= 0) {
        // Whatever the point, the triangle found does cover it.
        const auto b = planar(m, s.index, x, y);
        c.check(std::min({b[0], b[1], b[2]}) > -margin, "search-covers", what);
      }
    }
    if (in >= 0) {
      c.check(s.inside && s.index == in, "search-found", what);
      c.count("search.inside");
    } else if (doubtful) {
      c.count("search.edge");
    } else {
      c.check(!s.inside, "search-outside", what);
      if (max_distance < nearest * .9995) c.check(s.index == -1, "search-far", what);
      else if (nearest > .02 && max_distance > nearest * 1.0005) {
        if (c.check(s.index != -1, "search-near", what)) {
          // Projected onto the closest triangle, as far as those around the
          // nearest vertex are concerned.
          const V3 q = ecef(qlon, y);
          double best = kInf;
          for (size_t i = 0; i < m.triangles.size(); ++i) {
            const auto& t = m.triangles[i];
            if (t[0] != vertex && t[1] != vertex && t[2] != vertex) continue;
            for (int e = 0; e < 3; ++e) for (int st = 0; st <= 20; ++st) {
              const auto &a = m.vertices[t[e]], &b = m.vertices[t[(e + 1) % 3]];
              const double w = st / 20.;
              best = std::min(best, norm(q - ecef(m.lon0 + a[0] + (b[0] - a[0]) * w, a[1] + (b[1] - a[1]) * w)));
            }
          }
          // The edges sampled are straight in longitude and latitude, not geodesics: tolerance.
          const double got = norm(q - ecef(s.point.lon(), s.point.lat()));
          const double side = m.h * 111e3 * margin;
          c.check(got <= best + side + 1, "search-projection", what + fmt("; projected at %.17g m, lon=%.17g lat=%.17g, a triangle is at %.17g m", got, s.point.lon(), s.point.lat(), best));
          const auto b = planar(m, s.index, wrap180(s.point.lon() - m.lon0), s.point.lat());
          c.check(std::min({b[0], b[1], b[2]}) > -margin, "search-projection-out", what + fmt("; projected out of the triangle, lon=%.17g lat=%.17g", s.point.lon(), s.point.lat()));
          c.count("search.projected");
        }
      } else c.count("search.limit");
    }
    c.distinct(bits(qlon) ^ mix(bits(y)) ^ mix(bits(max_distance)));
  }
}

static void local(Rng& r, Case& c) { local_mesh(r, c, 8); }
// Meshes which follow each other at the same place: nothing of one is left in the next.
static void succession(Rng& r, Case& c, const std::function<void()>& one) {
  const std::array<double, 3> place{r.uniform(-180, 180), r.uniform(-55, 55), r.uniform(.1, 1.5)};
  kMeshPlace = &place;
  for (int k = r.range(2, 5); k > 0; --k) one();
  kMeshPlace = nullptr;
  c.count("mesh.succession");
}
static void large(Rng& r, Case& c) { local_mesh(r, c, 220); }

// C07 on irregular meshes: vertices shared by many triangles, obtuse triangles,
// large triangles next to small ones.
static double cross2(const std::array<double, 2>& a, const std::array<double, 2>& b, const std::array<double, 2>& c) {
  return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
static void irregular(Rng& r, Case& c) {
  std::vector<std::array<double, 2>> v;
  std::vector<std::array<int, 3>> t;
  const int kind = r.below(4);
  if (kind == 3) {
    // A fan of thin triangles and of a few wide ones, which are the largest: the
    // middle of these is far from every vertex.
    v.push_back({0, 0});
    double a = r.uniform(0, 6), end = a + 2 * M_PI;
    const double d = r.uniform(1, 2), part = r.uniform(.6, .99);
    bool wide = true;
    for (int n = 0; a < end - .25; ++n) {
      v.push_back({d * (wide || n == 0 ? 1 : part) * std::cos(a), d * (wide || n == 0 ? 1 : part) * std::sin(a)});
      const bool next = n == 0 || (r.chance(.1) && end - a > 1.5);
      // Both sides of a wide triangle have this length.
      if (next && n > 0) { v.back() = {d * std::cos(a), d * std::sin(a)}; }
      wide = next;
      a += next ? r.uniform(.98, 1.06) : r.uniform(.12, .25);
    }
    const int n = v.size() - 1;
    for (int i = 0; i < n; ++i) t.push_back({0, 1 + i, 1 + (i + 1) % n});
    for (auto& f : t) if (cross2(v[f[0]], v[f[1]], v[f[2]]) <= .02) { c.count("irregular.dropped"); return; }
  } else if (kind == 0) {
    // A fan: every triangle has the same vertex.
    const int n = r.range(5, 40);
    v.push_back({r.uniform(-.2, .2), r.uniform(-.2, .2)});
    for (int i = 0; i < n; ++i) { const double a = 2 * M_PI * (i + r.uniform(-.3, .3)) / n, d = r.uniform(.7, 3); v.push_back({d * std::cos(a), d * std::sin(a)}); }
    for (int i = 0; i < n; ++i) t.push_back({0, 1 + i, 1 + (i + 1) % n});
    // The hub must be seen from all of them.
    for (auto& f : t) if (cross2(v[f[0]], v[f[1]], v[f[2]]) <= .02) { c.count("irregular.dropped"); return; }
  } else {
    // Points moved, and the diagonals exchanged: by the criterion of Delaunay, or at random.
    const int nx = r.range(5, 12), ny = r.range(5, 12);
    const double move = r.uniform(.1, .45), s = std::sqrt(3) / 2, grade = r.chance(.3) ? r.uniform(1, 1.4) : 1;
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        const double x = i + (j & 1) * .5 + r.uniform(-move, move), y = j * s + r.uniform(-move, move);
        v.push_back({(grade > 1 ? (std::pow(grade, x) - 1) / (grade - 1) * .3 : x) - nx / 2., y - ny * s / 2});
      }
    auto id = [&](int i, int j) { return j * nx + i; };
    for (int j = 0; j + 1 < ny; ++j)
      for (int i = 0; i + 1 < nx; ++i) {
        const bool q = j & 1;
        t.push_back({id(i, j), id(i + 1, j), q ? id(i + 1, j + 1) : id(i, j + 1)});
        t.push_back({q ? id(i, j) : id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
      }
    for (auto& f : t) if (cross2(v[f[0]], v[f[1]], v[f[2]]) <= .02) { c.count("irregular.dropped"); return; }
    for (int pass = r.range(1, 12); pass > 0; --pass) {
      std::map<std::pair<int, int>, std::vector<int>> edges;
      for (size_t k = 0; k < t.size(); ++k) for (int q = 0; q < 3; ++q) { const int a = t[k][q], b = t[k][(q + 1) % 3]; edges[{std::min(a, b), std::max(a, b)}].push_back(k); }
      std::set<int> done;
      for (auto& e : edges) {
        if (e.second.size() != 2 || done.count(e.second[0]) || done.count(e.second[1])) continue;
        int a = e.first.first, b = e.first.second, o[2] = {-1, -1};
        for (int q = 0; q < 2; ++q) for (int x : t[e.second[q]]) if (x != a && x != b) o[q] = x;
        if (cross2(v[o[0]], v[o[1]], v[a]) > 0) std::swap(o[0], o[1]);
        if (cross2(v[o[0]], v[o[1]], v[a]) > -.03 || cross2(v[o[0]], v[o[1]], v[b]) < .03) continue;   // not convex, or thin
        if (kind == 1) {
          const auto& d = v[o[1]];
          const double ax = v[a][0] - d[0], ay = v[a][1] - d[1], bx = v[o[0]][0] - d[0], by = v[o[0]][1] - d[1], cx = v[b][0] - d[0], cy = v[b][1] - d[1];
          const double det = (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay);
          if (det * cross2(v[a], v[o[0]], v[b]) <= 1e-9) continue;
        } else if (r.chance(.6)) continue;
        t[e.second[0]] = {o[0], o[1], a};
        t[e.second[1]] = {o[0], o[1], b};
        done.insert(e.second.begin(), e.second.end());
      }
    }
  }
  const double h = r.uniform(.02, .4), lat0 = r.uniform(-55, 55), lon0 = r.chance(.3) ? 180 : r.uniform(-180, 180), k = 1 / std::cos(lat0 * ref::kDeg);
  for (auto& p : v) { p[0] *= h * k; p[1] = lat0 + p[1] * h; }
  std::vector<double> lon, lat;
  std::vector<int> valence(v.size());
  for (auto& p : v) { lon.push_back(lon0 + p[0] + (r.chance(.2) ? 360 : 0)); lat.push_back(p[1]); }
  for (auto& f : t) {
    if (r.chance(.4)) std::swap(f[1], f[2]);
    std::rotate(f.begin(), f.begin() + r.below(3), f.end());
    for (int x : f) ++valence[x];
  }
  r.shuffle(t);
  const auto placed = make_placed<fes::mesh::Index>(r, make_index(lon, lat, t));
  const auto& index = *placed;
  const int most = *std::max_element(valence.begin(), valence.end());
  c.note(fmt("irregular mesh of %zu triangles (up to %d around a vertex) around %.17g %.17g, sides of %g", t.size(), most, lon0, lat0, h));
  std::vector<Triangle> tri;
  for (auto& f : t) tri.emplace_back(Point(wrap180(lon[f[0]]), lat[f[0]]), Point(wrap180(lon[f[1]]), lat[f[1]]), Point(wrap180(lon[f[2]]), lat[f[2]]));
  for (int q = 0; q < 25; ++q) {
    const auto& f = t[r.below(t.size())];
    std::array<double, 3> b = Mesh::bary(r, .01);
    if (r.chance(.2)) b = {1.4 - b[0], b[1] - .2, b[2] - .2};     // around
    else if (r.chance(.3)) {                                        // in the middle
      b = {1 / 3., 1 / 3., 1 / 3.};
      for (int j = 0; j < 3; ++j) if (valence[f[j]] > 11) b[j] += r.uniform(.005, .06);
      const double sum = b[0] + b[1] + b[2];
      for (auto& z : b) z /= sum;
    }
    double x = 0, y = 0;
    for (int j = 0; j < 3; ++j) { x += b[j] * v[f[j]][0]; y += b[j] * v[f[j]][1]; }
    x += lon0 + 360 * r.range(-1, 1);
    const Point p(x, y);
    int in = 0, which = -1;
    for (size_t i = 0; i < t.size(); ++i) if (tri[i].covered_by(p)) { ++in; which = i; }
    const auto s = index.search(p, 0);
    const std::string what = fmt("lon=%.17g lat=%.17g is in %d triangles (%d), found %d", x, y, in, which, s.index);
    if (in) {
      c.check(s.inside && s.index >= 0 && s.index < int(t.size()) && tri[s.index].covered_by(p), "irregular-found", what);
      c.count("irregular.inside");
      if (most > 11) c.count("irregular.crowded");
    } else {
      c.check(!s.inside, "irregular-outside", what);
      c.count("irregular.outside");
    }
    c.distinct(bits(x) ^ mix(bits(y)));
  }
}

// ---------------------------------------------------------------------------
// C06: finite element models.
template <typename T, int N>
static void lgp(Rng& r, Case& c, int max_side) {
  auto ids = max_side >= 100 ? std::vector<int>{17, 30} : random_subset(r, 75, .04);
  if (ids.empty()) ids.push_back(30);
  const bool far = r.chance(.5);
  LgpWorld<T, N> w(r, ids, false, r.chance(.5), far ? 1e7 : 0, max_side);
  c.note(fmt("LGP%d<%s> %s max_distance=%g", N, sizeof(T) == 4 ? "float" : "double", w.m.text().c_str(), w.max_distance));
  const auto& m = w.m;
  const double margin = edge_margin(m);
  const fes::AbstractTidalModel<T>& model = *w.model;
  std::unique_ptr<fes::Accelerator> one(model.accelerator(formulae(0), 0));
  double px = 0, py = 0;
  for (int k = 0; k < 20; ++k) {
    double x, y;
    const int kind = r.below(6);
    const int t = r.below(m.triangles.size());
    std::array<double, 3> b = Mesh::bary(r, margin);
    if (kind == 4) { b = {0, 0, 0}; b[r.below(3)] = 1; }
    m.at(t, b[0], b[1], b[2], x, y);
    if (kind == 5) { x = r.uniform(-1, 1) * (m.nx + 2) * m.h * m.k; y = m.lat0 + r.uniform(-1, 1) * (m.ny + 2) * m.h; y = std::max(-85., std::min(85., y)); }
    if (kind == 3 && k) { x = px + r.gauss() * 1e-3 * m.h; y = py + r.gauss() * 1e-3 * m.h; }   // next to the previous one
    px = x; py = y;
    double lon = kind == 4 ? m.full_lon(x) : m.lon0 + x + 360 * r.range(-1, 1);
    const Point p(lon, y);
    fes::Quality q;
    const fes::ConstituentValues got = model.interpolate(p, q, one.get());
    // As if it were the first position.
    std::unique_ptr<fes::Accelerator> fresh(model.accelerator(formulae(0), 0));
    fes::Quality fq;
    const fes::ConstituentValues alone = model.interpolate(p, fq, fresh.get());
    int in = -1;
    bool doubtful = false;
    for (size_t i = 0; i < m.triangles.size(); ++i) {
      const auto bb = planar(m, i, x, y);
      const double least = std::min({bb[0], bb[1], bb[2]});
      if (least >= margin * .999) in = i;
      else if (least > -margin) doubtful = true;
    }
    const std::string what = fmt("lon=%.17g lat=%.17g quality %d", lon, y, int(q));
    if (!c.check(got.size() == ids.size() && alone.size() == ids.size(), "lgp-size", what)) continue;
    for (size_t i = 0; i < ids.size(); ++i) c.check(int(got[i].first) == ids[i], "lgp-constituents", what);
    // The codes are not shared by the triangles: on a common edge, a position has a value in each.
    if (in >= 0 || !doubtful) {
      bool same = q == fq;
      for (size_t i = 0; i < ids.size(); ++i)
        same = same && ((std::isnan(got[i].second.real()) && std::isnan(alone[i].second.real())) || std::abs(got[i].second - alone[i].second) < 1e-9);
      c.check(same, "lgp-cache", "the value depends on the previous position: " + what);
      c.count("lgp.cache-compared");
    }
    const double vt = 1e-7 * (1 + 1 / m.h);
    if (kind == 4) {
      // On a vertex: the value it has in one of its triangles.
      int vtx = -1;
      for (int i = 0; i < 3; ++i) if (b[i] == 1) vtx = m.triangles[t][i];
      int around = 0;
      for (auto& tr : m.triangles) around += tr[0] == vtx || tr[1] == vtx || tr[2] == vtx;
      // On the boundary of the mesh, the rounding of the longitude may put it outside.
      if (!far && around < 6 && q == fes::kUndefined) { c.count("lgp.vertex-boundary"); continue; }
      c.check(q == fes::kInterpolated || q == fes::kExtrapolated1, "lgp-vertex-quality", what);
      bool any = false;
      for (size_t tt = 0; tt < m.triangles.size() && !any; ++tt)
        for (int i = 0; i < 3 && !any; ++i)
          if (m.triangles[tt][i] == vtx) {
            bool all = true;
            for (size_t d = 0; d < ids.size(); ++d) all = all && std::abs(got[d].second - ref::cplx(w.data[ids[d]][w.codes[tt][i * N]])) < 1e-3 + 2e-2 / m.h;   // a projection is only accurate to 30 cm
            any = all;
          }
      c.check(any, "lgp-vertex", what + fmt(": (%.17g, %.17g) is not the value of vertex %d", got[0].second.real(), got[0].second.imag(), vtx));
      c.count("lgp.vertex");
    } else if (in >= 0) {
      const auto bb = planar(m, in, x, y);
      c.check(q == fes::kInterpolated, "lgp-quality", what);
      for (size_t d = 0; d < ids.size(); ++d) {
        const auto want = w.value(ids[d], in, bb);
        c.check(std::abs(got[d].second - want) < vt * 20, "lgp-value", what + fmt(": %s (%.17g, %.17g), expected (%.17g, %.17g)", ref::kSpec[ids[d]].name, got[d].second.real(), got[d].second.imag(), want.real(), want.imag()));
      }
      c.count("lgp.inside");
    } else if (!doubtful) {
      if (!far) {
        c.check(q == fes::kUndefined, "lgp-outside-quality", what);
        for (auto& kv : got) c.check(std::isnan(kv.second.real()), "lgp-outside-value", what);
        c.count("lgp.undefined");
      } else {
        // The value of the triangle it is projected onto.
        c.check(q != fes::kUndefined && q != fes::kInterpolated, "lgp-extrapolated-quality", what);
        const auto s = w.model->index()->search(p, w.max_distance);
        if (q != fes::kUndefined && c.check(s.index >= 0, "lgp-extrapolated-search", what)) {
          const auto bb = planar(m, s.index, wrap180(s.point.lon() - m.lon0), s.point.lat());
          for (size_t d = 0; d < ids.size(); ++d) {
            const auto want = w.value(ids[d], s.index, bb);
            // On a vertex, almost.
            c.check(std::abs(got[d].second - want) < 1e-3 + vt * 20, "lgp-extrapolated-value", what + fmt(": %s (%.17g, %.17g), expected (%.17g, %.17g) at the projection", ref::kSpec[ids[d]].name, got[d].second.real(), got[d].second.imag(), want.real(), want.imag()));
          }
          c.count(q == fes::kExtrapolated1 ? "lgp.extrapolated-vertex" : "lgp.extrapolated-edge");
        }
      }
    }
    c.distinct(bits(lon) ^ mix(bits(y)) ^ mix(N));
  }
}

// ---------------------------------------------------------------------------
// C20: geometry.
static void geometry(Rng& r, Case& c) {
  double lon = r.uniform(-720, 720), lat = r.uniform(-90, 90);
  if (r.chance(.2)) lat = r.pick(std::vector<double>{-90, 90, 0, 45, -45, 89.999999, -89.999999});
  if (r.chance(.2)) lon = r.pick(std::vector<double>{-180, 180, 0, 90, 270, 360, -90, 359.999999, 45, 135, 225, 315, 540});
  c.note(fmt("lon=%.17g lat=%.17g", lon, lat));
  const auto e = static_cast<fes::geometry::EarthCenteredEarthFixed>(Point(lon, lat));
  const V3 w = ecef(lon, lat);
  // The eccentricity of the code has 10 digits: within 1 mm.
  c.check(std::abs(e.x() - w.x) < 1e-3 && std::abs(e.y() - w.y) < 1e-3 && std::abs(e.z() - w.z) < 1e-3, "ecef",
          fmt("(%.9g, %.9g, %.9g), expected (%.9g, %.9g, %.9g)", e.x(), e.y(), e.z(), w.x, w.y, w.z));
  // A triangle, anywhere, one of its longitudes possibly on the other side of the date line.
  const double h = std::exp(r.uniform(std::log(1e-4), std::log(3.)));
  const double la = r.uniform(-70, 70), lo = r.chance(.3) ? 180 + r.uniform(-1, 1) * h : r.chance(.2) ? r.uniform(-1, 1) * h : r.uniform(-180, 180);
  const double k = 1 / std::cos(la * ref::kDeg), ph = r.uniform(0, 2 * M_PI);
  double x[3], y[3];
  const bool cw = r.chance(.5);
  for (int i = 0; i < 3; ++i) {
    const double a = ph + (cw ? -1 : 1) * (i * 2 * M_PI / 3 + r.uniform(-.3, .3));
    x[i] = lo + h * k * std::cos(a);
    y[i] = la + h * std::sin(a);
  }
  auto any = [&](double v) { return r.chance(.5) ? v : v + 360 * r.range(-1, 1); };
  auto norm180 = [](double v) { while (v < -180) v += 360; while (v >= 180) v -= 360; return v; };
  const Triangle t(Point(norm180(x[0]), y[0]), Point(norm180(x[1]), y[1]), Point(norm180(x[2]), y[2]));
  c.note(fmt("triangle (%.17g %.17g, %.17g %.17g, %.17g %.17g)", x[0], y[0], x[1], y[1], x[2], y[2]));
  for (int i = 0; i < 3; ++i) {
    double u = r.uniform(-.5, 1.5), v = r.uniform(-.5, 1.5);
    if (r.chance(.1)) {
      // Around the opposite meridian, where no triangle is.
      const Point far(any(x[0] + 180 + 3 * h * k * r.uniform(-1, 1)), r.chance(.5) ? y[0] + h * r.uniform(-1, 1) : r.uniform(-90, 90));
      const auto xy = t.reference_right_angled(far);
      c.check(!(std::get<0>(xy) > 1e-6 && std::get<1>(xy) > 1e-6 && std::get<0>(xy) + std::get<1>(xy) < 1 - 1e-6) && !t.covered_by(far), "right-angled-opposite",
              fmt("lon=%.17g lat=%.17g: (%.17g, %.17g)", far.lon(), far.lat(), std::get<0>(xy), std::get<1>(xy)));
      c.count("geometry.opposite");
    }
    const double qx = x[0] + u * (x[1] - x[0]) + v * (x[2] - x[0]), qy = y[0] + u * (y[1] - y[0]) + v * (y[2] - y[0]);
    const Point q(any(qx), qy);
    const auto xy = t.reference_right_angled(q);
    const double tol = 1e-9 + 1e-11 / h;
    c.check(std::abs(std::get<0>(xy) - u) < tol && std::abs(std::get<1>(xy) - v) < tol, "right-angled", fmt("lon=%.17g lat=%.17g: (%.17g, %.17g), expected (%.17g, %.17g)", q.lon(), q.lat(), std::get<0>(xy), std::get<1>(xy), u, v));
    const double least = std::min({u, v, 1 - u - v}), margin = 1e-3 + 3 * h * k * k * ref::kDeg;
    if (std::abs(least) > margin) {
      const bool in = t.covered_by(q);
      c.check(in == (least > 0), "covered", fmt("lon=%.17g lat=%.17g: covered %d, least coordinate %g", q.lon(), q.lat(), int(in), least));
      const double d = t.distance(q);
      if (least > 0) c.check(d < 1e-2, "distance-inside", fmt("lon=%.17g lat=%.17g is at %.17g m", q.lon(), q.lat(), d));
      else {
        // Against the edges, sampled.
        double best = kInf;
        for (int ed = 0; ed < 3; ++ed) for (int s = 0; s <= 400; ++s) {
          const int n = (ed + 1) % 3;
          const double f = s / 400.;
          // On the plane of the middle of the great circle
          const V3 a = ecef(x[ed], y[ed]), b = ecef(x[n], y[n]);
          const V3 mid = a * (1 - f) + b * f;
          const V3 p = mid * ((norm(a) * (1 - f) + norm(b) * f) / norm(mid));
          best = std::min(best, norm(p - ecef(qx, qy)));
        }
        c.check(std::abs(d - best) < best * 2e-3 + h * 111e3 * 5e-3 + .2, "distance", fmt("lon=%.17g lat=%.17g is at %.17g m, expected %.17g", q.lon(), q.lat(), d, best));
        const auto pr = t.project(q);
        const double dp = norm(ecef(pr.lon(), pr.lat()) - ecef(qx, qy));
        c.check(std::abs(dp - best) < best * 2e-3 + h * 111e3 * 5e-3 + .2, "projection", fmt("lon=%.17g lat=%.17g is projected at %.17g m, expected %.17g", q.lon(), q.lat(), dp, best));
      }
      c.count(in ? "geometry.inside" : "geometry.outside");
    }
  }
  for (int i = 0; i < 3; ++i) {
    c.check(t.is_vertex(Point(norm180(x[i]), y[i])) == i, "vertex", fmt("vertex %d", i));
    c.check(t.is_vertex(Point(x[i] + h * k * .1, y[i] + h * .1)) == -1, "vertex", fmt("next to vertex %d", i));
  }
  // Area of a small spherical triangle, within the flattening.
  const double area = std::abs(t.area());
  const V3 a = ecef(x[0], y[0]), b = ecef(x[1], y[1]), d = ecef(x[2], y[2]);
  const double flat = .5 * norm(cross(b - a, d - a));
  c.check(std::abs(area - flat) < flat * .02, "area", fmt("%.17g, expected %.17g", area, flat));
  c.check(t == t, "equal", "a triangle differs from itself");
  c.distinct(bits(lon) ^ mix(bits(lat)) ^ mix(bits(x[0])));
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  H.run("globe", 160, 4000, globe);
  H.run("lattice", 2500, 40000, lattice);
  H.run("nowhere", 2500, 40000, nowhere);
  H.run("local", 4000, 80000, local);
  H.run("large", 3, 40, large);
  H.run("irregular", 2500, 60000, irregular);
  H.run("lgp", 6000, 100000, [](Rng& r, Case& c) {
    switch (r.below(4)) {
      case 0: lgp<double, 1>(r, c, 6); break;
      case 1: lgp<float, 1>(r, c, 6); break;
      case 2: lgp<double, 2>(r, c, 6); break;
      default: lgp<float, 2>(r, c, 6);
    }
  });
  H.run("successive", 500, 10000, [](Rng& r, Case& c) { succession(r, c, [&] { local(r, c); }); });
  H.run("successive-lgp", 500, 10000, [](Rng& r, Case& c) {
    succession(r, c, [&] { r.chance(.5) ? lgp<double, 1>(r, c, 7) : lgp<double, 2>(r, c, 7); });
  });
  H.run("large-lgp", 2, 40, [](Rng& r, Case& c) {
    if (r.chance(.5)) lgp<double, 1>(r, c, 220); else lgp<float, 2>(r, c, 220);
  });
  H.run("geometry", 12000, 200000, geometry);
  return H.finish();
}
