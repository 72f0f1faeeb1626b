// Invalid and extreme arguments of every part of the library.
#include <Eigen/Dense>

#include "models.hpp"

using namespace vf;
using fes::angle::Astronomic;
using fes::geometry::Point;
using fes::geometry::Triangle;
using fes::wave::Table;
using Leap = fes::Vector<uint16_t>;

static double hostile(Rng& r) {
  static const double v[] = {kNaN, kInf, -kInf, 0, -0.0, 1e308, -1e308, 1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-300,
                             9.2233720368547758e18, -9.2233720368547758e18, 1.8446744073709552e19, 4294967296., 2147483648., -2147483649., 1e15, -1e15, 1e22,
                             90, -90, 180, -180, 360, -360, 90.00000000000001, -90.00000000000001, 179.99999999999997, 359.99999999999994, 540, 720, 1e5, -1e5};
  switch (r.below(4)) {
    case 0: { const uint64_t u = r.u64(); double x; std::memcpy(&x, &u, 8); return x; }
    case 1: return r.uniform(-400, 400);
    default: return v[r.below(sizeof v / sizeof *v)];
  }
}

template <typename F>
static void refused(Case& c, const std::string& what, F&& f) {
  bool thrown = false;
  try {
    f();
  } catch (const std::bad_alloc&) {
    c.check(false, "alloc-" + what, "bad_alloc instead of a refusal");
    thrown = true;
  } catch (const std::exception& e) {
    thrown = true;
    c.check(*e.what() != 0, "message-" + what, "no message");
  }
  c.check(thrown, "accepted-" + what, what);
  c.count("refused." + what);
}

// A call that may fail by an exception, but in no other way.
template <typename F>
static bool harmless(Case& c, F&& f) {
  try {
    f();
    c.count("hostile.results");
    return true;
  } catch (const std::exception&) {
    c.count("hostile.exceptions");
    return false;
  }
}

static int other_size(Rng& r, int n) {
  for (;;) {
    const int m = r.chance(.5) ? n + r.range(-2, 2) : r.pick(std::vector<int>{0, 1, 2, 3, 64, 1000, 2 * n});
    if (m >= 0 && m != n) return m;
  }
}

// Names that are no constituents.
static std::string bad_name(Rng& r) {
  std::string s;
  switch (r.below(5)) {
    case 0: s = ref::kSpec[r.below(75)].name + std::string(1, char(r.range(33, 126))); break;
    case 1: s = " " + std::string(ref::kSpec[r.below(75)].name); break;
    case 2: s = ""; break;
    case 3: s = std::string(ref::kSpec[r.below(75)].name) + std::string(1, '\0'); break;
    default: { const int n = r.range(1, 40); for (int i = 0; i < n; ++i) s += char(r.range(1, 255)); }
  }
  auto low = [](std::string t) { for (auto& ch : t) ch = std::tolower(static_cast<unsigned char>(ch)); return t; };
  for (int i = 0; i < 75; ++i) if (low(ref::kSpec[i].name) == low(s)) return "no such wave";
  return s;
}

template <typename M>
static void prediction_sizes(Rng& r, Case& c, M& model, const std::function<void(Rng&, double&, double&)>& where, int64_t data_size) {
  const int n = r.range(1, 12);
  Eigen::VectorXd epoch(n), lon(n), lat(n);
  Leap leap(n);
  for (int i = 0; i < n; ++i) { epoch(i) = random_epoch(r); leap(i) = r.below(40); where(r, lon(i), lat(i)); }
  const fes::Settings settings(formulae(r.below(3)));
  auto run = [&] { return fes::evaluate_tide<typename std::decay<decltype(model.data().begin()->second(0).real())>::type>(&model, epoch, leap, lon, lat, settings, r.below(3)); };
  const auto before = run();
  const auto count = model.size();
  const int bad = other_size(r, n);
  switch (r.below(6)) {
    case 0: refused(c, "tide-epoch", [&] { Eigen::VectorXd x = Eigen::VectorXd::Zero(bad); fes::evaluate_tide(&model, x, leap, lon, lat, settings, 1); }); break;
    case 1: refused(c, "tide-leap", [&] { Leap x = Leap::Zero(bad); fes::evaluate_tide(&model, epoch, x, lon, lat, settings, 1); }); break;
    case 2: refused(c, "tide-lon", [&] { Eigen::VectorXd x = Eigen::VectorXd::Zero(bad); fes::evaluate_tide(&model, epoch, leap, x, lat, settings, 1); }); break;
    case 3: refused(c, "tide-lat", [&] { Eigen::VectorXd x = Eigen::VectorXd::Zero(bad); fes::evaluate_tide(&model, epoch, leap, lon, x, settings, 1); }); break;
    case 4: {
      int id = r.below(75);
      const int m = other_size(r, data_size);
      using V = typename std::decay<decltype(model.data().begin()->second)>::type;
      refused(c, "constituent-size", [&] { model.add_constituent(C(id), V::Zero(m)); });
      break;
    }
    default: {
      using V = typename std::decay<decltype(model.data().begin()->second)>::type;
      using T = typename std::decay<decltype(model.data().begin()->second(0).real())>::type;
      const auto name = bad_name(r);
      refused(c, "constituent-name", [&] { static_cast<fes::AbstractTidalModel<T>&>(model).add_constituent(name, V::Zero(data_size)); });
    }
  }
  const auto after = run();
  c.check(model.size() == count, "refused-but-changed", fmt("%zu constituents, then %zu", count, model.size()));
  for (int i = 0; i < n; ++i)
    c.check(bits(std::get<0>(before)(i)) == bits(std::get<0>(after)(i)) && bits(std::get<1>(before)(i)) == bits(std::get<1>(after)(i)) && std::get<2>(before)(i) == std::get<2>(after)(i),
            "refused-but-changed", fmt("prediction %d", i));
}

static void sizes_model(Rng& r, Case& c) {
  auto ids = random_model_constituents(r);
  if (ids.size() > 12) ids.resize(12);
  if (ids.empty()) ids.push_back(30);
  c.distinct(r.u64());
  if (r.chance(.5)) {
    GridWorld<double> w(r, ids, false, .1, r.chance(.7));
    c.note(w.g.text());
    prediction_sizes(r, c, *w.model, [&](Rng& q, double& x, double& y) { w.inside(q, x, y); }, int64_t(w.g.nlon) * w.g.nlat);
  } else if (r.chance(.5)) {
    LgpWorld<float, 1> w(r, ids, false, r.chance(.7), 0, 5);
    c.note("LGP1 " + w.m.text());
    prediction_sizes(r, c, *w.model, [&](Rng& q, double& x, double& y) { double a, b; w.inside(q, x, y, a, b); }, w.n_codes);
  } else {
    LgpWorld<double, 2> w(r, ids, false, r.chance(.7), 0, 5);
    c.note("LGP2 " + w.m.text());
    prediction_sizes(r, c, *w.model, [&](Rng& q, double& x, double& y) { double a, b; w.inside(q, x, y, a, b); }, w.n_codes);
  }
}

static void sizes_table(Rng& r, Case& c) {
  auto ids = random_subset(r, 75, r.pick(std::vector<double>{.05, .3, 1}));
  if (ids.empty()) ids.push_back(r.below(75));
  std::vector<std::string> names;
  for (int i : ids) names.push_back(ref::kSpec[i].name);
  const Table t(names);
  const int nw = ids.size(), n = r.range(0, 30), bad_n = other_size(r, n), bad_w = other_size(r, nw);
  Eigen::VectorXd epoch(n);
  for (int i = 0; i < n; ++i) epoch(i) = random_epoch(r);
  const Leap leap = Leap::Constant(n, 37);
  const auto form = formulae(r.below(3));
  c.note(fmt("%d constituents, %d dates, wrong sizes %d %d", nw, n, bad_w, bad_n));
  c.distinct(mix(nw) ^ mix(n * 1000 + bad_n) ^ mix(bad_w * 77777));
  refused(c, "series-leap", [&] { t.tide_from_tide_series(epoch, Leap::Zero(bad_n), Eigen::VectorXcd::Zero(nw), form); });
  refused(c, "series-wave", [&] { t.tide_from_tide_series(epoch, leap, Eigen::VectorXcd::Zero(bad_w), form); });
  refused(c, "mapping-wave", [&] { const Eigen::MatrixXcd w = Eigen::MatrixXcd::Zero(bad_w, n); t.tide_from_mapping(0, 0, w, form, r.below(3)); });
  refused(c, "modulations", [&] { t.compute_nodal_modulations(epoch, Leap::Zero(bad_n), form); });
  {
    const int m = r.range(1, 30), w = r.range(1, 8);
    const int bm = other_size(r, m), bw = other_size(r, w);
    const Eigen::VectorXd h = Eigen::VectorXd::Ones(m);
    const Eigen::MatrixXd good = Eigen::MatrixXd::Ones(w, m), rows = Eigen::MatrixXd::Ones(bw, m), cols = Eigen::MatrixXd::Ones(w, bm);
    refused(c, "analysis-rows", [&] { Table::harmonic_analysis(h, good, rows); });
    refused(c, "analysis-rows", [&] { Table::harmonic_analysis(h, rows, good); });
    refused(c, "analysis-cols", [&] { Table::harmonic_analysis(h, good, cols); });
    refused(c, "analysis-cols", [&] { Table::harmonic_analysis(h, cols, good); });
    refused(c, "analysis-level", [&] { Table::harmonic_analysis(h, cols, cols); });
    refused(c, "analysis-level", [&] { Table::harmonic_analysis(Eigen::VectorXd::Ones(bm), good, good); });
  }
  // What is not in the table.
  refused(c, "table-index", [&] { t[size_t(nw) + (r.chance(.5) ? 0 : r.below(1ull << r.range(1, 63)))]; });
  if (nw < 75) {
    int id;
    do id = r.below(75); while (std::find(ids.begin(), ids.end(), id) != ids.end());
    refused(c, "table-absent", [&] { t[C(id)]; });
    c.check(t.find(ref::kSpec[id].name) == nullptr, "table-find-absent", ref::kSpec[id].name);
  }
  const auto name = bad_name(r);
  refused(c, "name", [&] { fes::constituents::parse(name); });
  refused(c, "find-name", [&] { t.find(name); });
}

static void sizes_shape(Rng& r, Case& c) {
  c.distinct(r.u64());
  // Meshes.
  const Mesh m(r, 5);
  const int nv = m.vertices.size(), nt = m.triangles.size();
  Eigen::VectorXd lon(nv), lat(nv);
  Eigen::Matrix<int32_t, -1, 3> t(nt, 3);
  for (int i = 0; i < nv; ++i) { lon(i) = m.full_lon(m.vertices[i][0]); lat(i) = m.vertices[i][1]; }
  for (int i = 0; i < nt; ++i) for (int j = 0; j < 3; ++j) t(i, j) = m.triangles[i][j];
  c.note(m.text());
  auto damaged = t;
  static const int32_t out[] = {-1, INT32_MIN, -2, INT32_MAX, 0x7ffffffe, 1 << 24};
  const int i = r.below(nt), j = r.below(3);
  refused(c, "mesh-sizes", [&] { Eigen::VectorXd x = Eigen::VectorXd::Zero(other_size(r, nv)); fes::mesh::Index(x, lat, t); });
  refused(c, "mesh-sizes", [&] { Eigen::VectorXd x = Eigen::VectorXd::Zero(other_size(r, nv)); fes::mesh::Index(lon, x, t); });
  refused(c, "mesh-empty", [&] { fes::mesh::Index(lon, lat, Eigen::Matrix<int32_t, -1, 3>(0, 3)); });
  damaged(i, j) = r.chance(.4) ? nv + int(r.below(3)) : out[r.below(6)];
  refused(c, "mesh-vertex", [&] { fes::mesh::Index(lon, lat, damaged); });
  // Codes.
  const auto index = std::make_shared<fes::mesh::Index>(lon, lat, t);
  auto codes = [&](auto degree, const char* name) {
    constexpr int N = decltype(degree)::value;
    using Model = typename LgpBase<double, N>::type;
    Eigen::Matrix<int, Eigen::Dynamic, N * 3> good(nt, N * 3);
    for (int a = 0; a < nt; ++a) for (int b = 0; b < N * 3; ++b) good(a, b) = r.below(50);
    const double limit = r.chance(.5) ? 0 : hostile(r);
    refused(c, std::string(name) + "-rows", [&] { Eigen::Matrix<int, Eigen::Dynamic, N * 3> x = Eigen::Matrix<int, Eigen::Dynamic, N * 3>::Zero(other_size(r, nt), N * 3); Model(index, x, fes::kTide, limit); });
    auto neg = good;
    neg(r.below(nt), r.below(N * 3)) = r.pick(std::vector<int>{-1, INT32_MIN, -100});
    refused(c, std::string(name) + "-negative", [&] { Model(index, neg, fes::kTide, limit); });
    // A number of codes which no data can have is refused there, or with the data.
    auto big = good;
    big(r.below(nt), r.below(N * 3)) = INT32_MAX;
    harmless(c, [&] { Model x(index, big, fes::kTide, limit); x.add_constituent(fes::kM2, fes::Vector<std::complex<double>>::Zero(50)); c.check(false, "accepted-codes", "a code out of the data"); });
  };
  codes(std::integral_constant<int, 1>(), "lgp1");
  codes(std::integral_constant<int, 2>(), "lgp2");
  // Grids.
  const GridGeometry g = random_grid_geometry(r, false);
  const auto x = make_lon_axis(g), y = make_lat_axis(g);
  fes::tidal_model::Cartesian<float> model(x, y, fes::kTide, r.chance(.5));
  const int64_t size = int64_t(g.nlon) * g.nlat;
  refused(c, "grid-data", [&] { model.add_constituent(fes::kM2, fes::Vector<std::complex<float>>::Zero(other_size(r, size))); });
  c.check(model.empty(), "refused-but-changed", "grid");
  // Axes.
  const int n = r.range(0, 1);
  refused(c, "axis-short", [&] { fes::Axis(Eigen::VectorXd::Ones(n), 1e-6, r.chance(.5)); });
  refused(c, "axis-constant", [&] { fes::Axis(Eigen::VectorXd::Constant(r.range(2, 9), r.uniform(-200, 200)), 1e-6, r.chance(.5)); });
  {
    Eigen::VectorXd v(r.range(3, 40));
    const double s = r.uniform(.1, 2), o = r.uniform(-90, 90);
    for (int k = 0; k < v.size(); ++k) v(k) = o + k * s;
    const int k = r.below(v.size());
    v(k) = r.chance(.5) ? v(k) + (r.chance(.5) ? 1 : -1) * s * r.uniform(.01, .9) : r.pick(std::vector<double>{kNaN, kInf, -kInf, 1e300});
    refused(c, "axis-irregular", [&] { fes::Axis(v, 1e-6, r.chance(.5)); });
    const auto& axis = r.chance(.5) ? x : y;
    refused(c, "axis-index", [&] { axis(r.chance(.5) ? -1 - int64_t(r.below(1ull << r.below(63))) : axis.size() + int64_t(r.below(1ull << r.below(62)))); });
  }
}

// Extreme positions, dates, tolerances and values of models.
template <typename W>
static void extreme(Rng& r, Case& c, W& w, const std::function<void(Rng&, double&, double&)>& where) {
  const int n = r.range(1, 25);
  Eigen::VectorXd epoch(n), lon(n), lat(n);
  Leap leap(n);
  for (int i = 0; i < n; ++i) {
    where(r, lon(i), lat(i));
    epoch(i) = r.chance(.4) ? hostile(r) : random_epoch(r);
    leap(i) = r.chance(.3) ? r.pick(std::vector<int>{0, 65535, 32768}) : r.below(40);
    if (r.chance(.4)) lon(i) = hostile(r);
    if (r.chance(.4)) lat(i) = hostile(r);
  }
  std::vector<fes::Constituent> excluded;
  for (int id : random_subset(r, 75, .05)) excluded.push_back(C(id));
  const double tolerance = r.chance(.5) ? 0 : hostile(r);
  const fes::Settings settings(formulae(r.below(3)), tolerance, excluded);
  c.note(fmt("%d positions, the first %.17g %.17g at %.17g, tolerance %g", n, lon(0), lat(0), epoch(0), tolerance));
  c.distinct(bits(lon(0)) ^ mix(bits(lat(0))) ^ mix(bits(epoch(0)) + n));
  const size_t threads = r.chance(.1) ? 1000 : r.below(4);
  harmless(c, [&] {
    const auto x = fes::evaluate_tide(w.model.get(), epoch, leap, lon, lat, settings, threads);
    const auto &tide = std::get<0>(x), &lp = std::get<1>(x);
    const auto& q = std::get<2>(x);
    c.check(tide.size() == n && lp.size() == n && q.size() == n, "extreme-size", fmt("%ld", long(tide.size())));
    for (int i = 0; i < n; ++i) {
      const auto text = fmt("%.17g %.17g at %.17g: %g, quality %d", lon(i), lat(i), epoch(i), tide(i), int(q(i)));
      if (!std::isfinite(lon(i)) || !std::isfinite(lat(i))) c.check(q(i) == fes::kUndefined && std::isnan(tide(i)), "extreme-position-defined", text);
      if (q(i) == fes::kUndefined) c.check(std::isnan(tide(i)), "extreme-undefined-tide", text);
      if (std::isnan(epoch(i)) && !w.ids.empty()) c.check(std::isnan(tide(i)), "extreme-date-defined", text);
      c.count("hostile.predictions");
    }
  });
}

template <typename M, typename T>
static void spoil(Rng& r, M& model, int64_t size) {
  for (int id : random_subset(r, 75, .03)) {
    fes::Vector<std::complex<T>> v(size);
    for (int64_t i = 0; i < size; ++i) {
      const double a = hostile(r), b = hostile(r);
      const double lim = std::numeric_limits<T>::max();
      v(i) = std::complex<T>(static_cast<T>(std::isfinite(a) ? std::max(-lim, std::min(lim, a)) : a), static_cast<T>(std::isfinite(b) ? std::max(-lim, std::min(lim, b)) : b));
    }
    model.add_constituent(C(id), std::move(v));
  }
}

static void hostile_model(Rng& r, Case& c) {
  auto ids = random_model_constituents(r);
  if (ids.size() > 8) ids.resize(8);
  const bool ocean = r.chance(.7);
  if (r.chance(.5)) {
    GridWorld<double> w(r, ids, r.chance(.5), .1, ocean);
    if (r.chance(.4)) spoil<decltype(*w.model)&, double>(r, *w.model, int64_t(w.g.nlon) * w.g.nlat);
    c.note(w.g.text());
    extreme(r, c, w, [&](Rng& q, double& x, double& y) { w.inside(q, x, y); });
  } else if (r.chance(.5)) {
    LgpWorld<float, 1> w(r, ids, false, ocean, r.chance(.5) ? 0 : hostile(r), 5);
    if (r.chance(.4)) spoil<decltype(*w.model)&, float>(r, *w.model, w.n_codes);
    c.note("LGP1 " + w.m.text());
    extreme(r, c, w, [&](Rng& q, double& x, double& y) { double a, b; w.inside(q, x, y, a, b); });
  } else {
    LgpWorld<double, 2> w(r, ids, false, ocean, r.chance(.5) ? 0 : hostile(r), 5);
    if (r.chance(.4)) spoil<decltype(*w.model)&, double>(r, *w.model, w.n_codes);
    c.note("LGP2 " + w.m.text());
    extreme(r, c, w, [&](Rng& q, double& x, double& y) { double a, b; w.inside(q, x, y, a, b); });
  }
}

// Extreme dates, coefficients, levels, durations and latitudes.
static void hostile_table(Rng& r, Case& c) {
  auto ids = random_subset(r, 75, r.pick(std::vector<double>{.05, .3, 1}));
  if (ids.empty()) ids.push_back(r.below(75));
  std::vector<std::string> names;
  for (int i : ids) names.push_back(ref::kSpec[i].name);
  const Table t(names);
  const int nw = ids.size(), n = r.range(1, 12);
  const auto form = formulae(r.below(3));
  Eigen::VectorXd epoch(n), h(n);
  Leap leap(n);
  Eigen::VectorXcd wave(nw);
  for (int i = 0; i < n; ++i) { epoch(i) = hostile(r); leap(i) = r.below(65536); h(i) = r.chance(.5) ? r.gauss() : hostile(r); }
  for (int i = 0; i < nw; ++i) wave(i) = ref::cplx(hostile(r), hostile(r));
  c.note(fmt("%d constituents, %d dates, the first %.17g", nw, n, epoch(0)));
  c.distinct(bits(epoch(0)) ^ mix(nw * 1000 + n));
  harmless(c, [&] {
    const auto x = t.tide_from_tide_series(epoch, leap, wave, form);
    c.check(x.size() == n, "series-size", "size");
    for (int i = 0; i < n; ++i) if (std::isnan(epoch(i))) c.check(std::isnan(x(i)), "series-nan-date", fmt("%g", x(i)));
  });
  harmless(c, [&] {
    Eigen::MatrixXcd m(nw, n);
    for (int i = 0; i < n; ++i) m.col(i) = wave;
    const auto x = t.tide_from_mapping(epoch(0), leap(0), m, form, r.below(4));
    c.check(x.rows() == n && x.cols() == nw, "mapping-size", "size");
    if (std::isnan(epoch(0))) for (int k = 0; k < nw; ++k) c.check(std::isnan(x(0, k)), "mapping-nan-date", fmt("%s %g", names[k].c_str(), x(0, k)));
  });
  Eigen::MatrixXd f(nw, n), vu(nw, n);
  harmless(c, [&] { std::tie(f, vu) = t.compute_nodal_modulations(epoch, leap, form); });
  if (r.chance(.5)) for (int k = 0; k < nw; ++k) for (int i = 0; i < n; ++i) { f(k, i) = hostile(r); vu(k, i) = hostile(r); }
  harmless(c, [&] {
    const auto x = Table::harmonic_analysis(h, f, vu);
    c.check(x.size() == nw, "analysis-size", "size");
    for (int i = 0; i < n; ++i) if (std::isnan(h(i))) { for (int k = 0; k < nw; ++k) c.check(std::isnan(x(k).real()) && std::isnan(x(k).imag()), "analysis-undefined", fmt("%g", x(k).real())); break; }
  });
  // Fewer data than unknowns, and none at all.
  harmless(c, [&] { c.check(Table::harmonic_analysis(Eigen::VectorXd(0), Eigen::MatrixXd(nw, 0), Eigen::MatrixXd(nw, 0)).size() == nw, "analysis-size", "no data"); });
  harmless(c, [&] { Table::harmonic_analysis(Eigen::VectorXd::Ones(n), Eigen::MatrixXd(0, n), Eigen::MatrixXd(0, n)); });
  harmless(c, [&] {
    const auto s = Table::select_waves_for_analysis(hostile(r), hostile(r));
    c.check(s.size() <= 75, "select-size", fmt("%zu", s.size()));
  });
  harmless(c, [&] {
    Astronomic a(form, hostile(r), leap(0));
    if (r.chance(.5)) a.update(hostile(r), leap(n - 1));
    Table u;
    u.compute_nodal_corrections(a);
    for (const auto& x : u) { x->tide({hostile(r), hostile(r)}); if (r.chance(.2)) { x->dynamic(true); x->admittance(false); } }
    u.admittance();
    fes::wave::LongPeriodEquilibrium lpe(u);
    for (int i = 0; i < 5; ++i) {
      const double la = hostile(r), v = lpe.lpe_minus_n_waves(a, la);
      c.count("hostile.lpe");
      if (std::isnan(la)) c.check(std::isnan(v), "lpe-nan-latitude", fmt("%g", v));
    }
    for (const auto& x : u) { (void)x->vu(); (void)x->freq(); (void)x->period(); }
  });
}

// Meshes and geometries with extreme coordinates.
static void hostile_mesh(Rng& r, Case& c) {
  const Mesh m(r, 5);
  const int nv = m.vertices.size(), nt = m.triangles.size();
  Eigen::VectorXd lon(nv), lat(nv);
  Eigen::Matrix<int32_t, -1, 3> t(nt, 3);
  const double p = r.pick(std::vector<double>{0, .05, .3, 1});
  for (int i = 0; i < nv; ++i) {
    lon(i) = r.chance(p) ? hostile(r) : m.full_lon(m.vertices[i][0]);
    lat(i) = r.chance(p) ? hostile(r) : m.vertices[i][1];
  }
  for (int i = 0; i < nt; ++i) {
    for (int j = 0; j < 3; ++j) t(i, j) = m.triangles[i][j];
    if (r.chance(.1)) t(i, 1) = t(i, 0);                         // flat
    if (r.chance(.05)) t(i, 1) = t(i, 2) = t(i, 0);
    if (r.chance(.1) && i) t.row(i) = t.row(r.below(i));         // twice
  }
  c.note(m.text() + fmt(" share of extreme vertices %g", p));
  c.distinct(bits(lon(0)) ^ mix(bits(lat(nv - 1))));
  harmless(c, [&] {
    const fes::mesh::Index index(lon, lat, t);
    for (int k = 0; k < 25; ++k) {
      double x = m.lon0 + r.gauss() * m.h * 2, y = m.lat0 + r.gauss() * m.h * 2;
      if (r.chance(.3)) x = hostile(r);
      if (r.chance(.3)) y = hostile(r);
      const double d = r.chance(.5) ? r.uniform(0, 1e6) : hostile(r);
      harmless(c, [&] {
        const auto s = index.search(Point(x, y), d);
        c.count("hostile.searches");
        c.check(s.index >= -1 && s.index < nt, "search-index", fmt("%d of %d triangles", s.index, nt));
        if (!std::isfinite(x) || !std::isfinite(y)) c.check(s.index == -1 && !s.inside, "search-undefined", fmt("%.17g %.17g", x, y));
        c.check(!s.inside || s.index >= 0, "search-inside", "inside of no triangle");
        if (s.index >= 0) (void)s.triangle.reference_right_angled(s.point);
      });
    }
    const std::string bytes = index.getstate();
    const auto back = fes::mesh::Index::setstate(fes::string_view(bytes.data(), bytes.size()));
    c.check(back.n_triangles() == index.n_triangles(), "state", "triangles");
  });
  harmless(c, [&] {
    const Point a(hostile(r), hostile(r)), b(hostile(r), hostile(r)), d(hostile(r), hostile(r)), q(hostile(r), hostile(r));
    (void)static_cast<fes::geometry::EarthCenteredEarthFixed>(a);
    (void)a.is_valid();
    const Triangle tr(a, b, d);
    harmless(c, [&] { (void)tr.reference_right_angled(q); });
    harmless(c, [&] { const int v = tr.is_vertex(q); c.check(v >= -1 && v < 3, "vertex", fmt("%d", v)); });
    if (a.is_valid() && b.is_valid() && d.is_valid() && q.is_valid()) {
      harmless(c, [&] { (void)tr.covered_by(q); });
      harmless(c, [&] { (void)tr.distance(q); });
      harmless(c, [&] { (void)tr.area(); });
    }
    c.count("hostile.triangles");
  });
}

static void hostile_axis(Rng& r, Case& c) {
  Eigen::VectorXd v(r.range(0, 8));
  const double o = hostile(r), s = hostile(r);
  for (int k = 0; k < v.size(); ++k) v(k) = r.chance(.1) ? hostile(r) : o + k * s;
  const bool circle = r.chance(.5);
  const double eps = r.chance(.5) ? 1e-6 : hostile(r);
  c.note(fmt("axis of %ld values from %.17g by %.17g", long(v.size()), o, s));
  c.distinct(bits(o) ^ mix(bits(s)) ^ mix(v.size()));
  harmless(c, [&] {
    const fes::Axis a(v, eps, circle);
    c.check(v.size() > 1 && a.size() == v.size() && v.allFinite(), "axis-accepted", c.text);
    for (int k = 0; k < 30; ++k) {
      const double x = hostile(r);
      const auto i = a.find_index(x, false), b = a.find_index(x, true);
      c.check(i >= -1 && i < a.size() && b >= -1 && b < a.size(), "axis-index", fmt("%ld %ld", long(i), long(b)));
      const auto p = a.find_indices(x);
      if (p) c.check(std::get<0>(*p) >= 0 && std::get<0>(*p) < a.size() && std::get<1>(*p) >= 0 && std::get<1>(*p) < a.size(), "axis-indices", "out of range");
      c.count("hostile.coordinates");
    }
  });
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  H.run("sizes_model", 1500, 50000, sizes_model);
  H.run("sizes_table", 3000, 100000, sizes_table);
  H.run("sizes_shape", 3000, 100000, sizes_shape);
  H.run("hostile_model", 3000, 150000, hostile_model);
  H.run("hostile_table", 4000, 150000, hostile_table);
  H.run("hostile_mesh", 2500, 100000, hostile_mesh);
  H.run("hostile_axis", 10000, 400000, hostile_axis);
  return H.finish();
}
