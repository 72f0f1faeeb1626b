// Serialized states: faithful when intact, harmless when corrupted.
#include "models.hpp"

using namespace vf;

static fes::string_view view(const std::string& s) { return fes::string_view(s.data(), s.size()); }

template <typename T> struct NameOf;
template <> struct NameOf<float> { static const char* s() { return "float"; } };
template <> struct NameOf<double> { static const char* s() { return "double"; } };

static std::vector<fes::Constituent> random_idents(Rng& r, double p) {
  std::vector<fes::Constituent> v;
  for (int i : random_subset(r, 75, p)) v.push_back(C(i));
  r.shuffle(v);
  return v;
}

// The same answer, bit for bit.
template <typename M>
static bool same_answers(Rng& r, const M& a, const M& b, const std::function<void(Rng&, double&, double&)>& where, std::string* why) {
  std::unique_ptr<fes::Accelerator> x(a.accelerator(formulae(0), 0)), y(b.accelerator(formulae(0), 0));
  for (int k = 0; k < 8; ++k) {
    double lon, lat;
    where(r, lon, lat);
    fes::Quality p, q;
    const auto& u = a.interpolate({lon, lat}, p, x.get());
    const auto& v = b.interpolate({lon, lat}, q, y.get());
    bool ok = p == q && u.size() == v.size();
    for (size_t i = 0; ok && i < u.size(); ++i)
      ok = u[i].first == v[i].first && ((std::isnan(u[i].second.real()) && std::isnan(v[i].second.real())) || u[i].second == v[i].second);
    if (!ok) { *why = fmt("lon=%.17g lat=%.17g", lon, lat); return false; }
  }
  return true;
}

template <typename M>
static void compare(Rng& r, Case& c, M& model, const std::function<void(Rng&, double&, double&)>& where, size_t data_size) {
  const std::string state = model.getstate();
  M back = M::setstate(view(state));
  c.check(back.getstate() == state, "state-unstable", "the state of the restored model differs");
  c.check(back.tide_type() == model.tide_type(), "state-type", "type of tide");
  c.check(back.dynamic() == model.dynamic(), "state-dynamic", fmt("%zu dynamic constituents, %zu restored", model.dynamic().size(), back.dynamic().size()));
  c.check(back.identifiers() == model.identifiers() && back.size() == model.size() && back.empty() == model.empty(), "state-identifiers", "constituents");
  for (auto& kv : model.data()) {
    auto it = back.data().find(kv.first);
    bool ok = it != back.data().end() && it->second.size() == kv.second.size();
    ok = ok && std::memcmp(it->second.data(), kv.second.data(), kv.second.size() * sizeof(kv.second(0))) == 0;
    c.check(ok, "state-data", ref::kSpec[kv.first].name);
  }
  std::string why;
  c.check(same_answers(r, model, back, where, &why), "state-interpolation", "at " + why);
  // It is still a model: it takes constituents of the right size only.
  using V = typename std::decay<decltype(model.data().begin()->second)>::type;
  int free_id = -1;
  for (int i = 0; i < 75 && free_id < 0; ++i) if (!model.data().count(C(i))) free_id = i;
  if (free_id >= 0) {
    for (int d : {-1, 1}) {
      if (d < 0 && data_size == 0) continue;
      V bad = V::Zero(data_size + d);
      c.check(thrown([&] { back.add_constituent(C(free_id), bad); }) == "invalid_argument", "state-size-check", fmt("%zu values instead of %zu are accepted", size_t(bad.size()), data_size));
    }
    V good(data_size);
    for (size_t i = 0; i < data_size; ++i) good(i) = {static_cast<typename V::Scalar::value_type>(r.gauss()), static_cast<typename V::Scalar::value_type>(r.gauss())};
    const auto t1 = thrown([&] { back.add_constituent(C(free_id), good); });
    c.check(t1.empty(), "state-add", "a constituent is refused by the restored model: " + t1);
    model.add_constituent(C(free_id), good);
    c.check(same_answers(r, model, back, where, &why), "state-interpolation-added", "at " + why);
    c.check(back.getstate() == model.getstate(), "state-unstable", "after a constituent is added");
  }
  back.dynamic(random_idents(r, .1));
  const std::string second = back.getstate();
  M again = M::setstate(view(second));
  c.check(again.dynamic() == back.dynamic(), "state-dynamic", "second generation");
  // Predictions, with the dynamic constituents taken into account.
  const fes::AbstractTidalModel<typename V::Scalar::value_type>*pa = &back, *pb = &again;
  Eigen::VectorXd e(4), x(4), y(4);
  fes::Vector<uint16_t> l(4);
  for (int i = 0; i < 4; ++i) { where(r, x(i), y(i)); e(i) = next_epoch(r, !i, i ? e(i - 1) : 0); l(i) = r.below(40); }
  const fes::Settings settings(formulae(r.below(3)));
  const auto rc = fes::evaluate_tide(pb, e, l, x, y, settings, 1);
  const auto rd = fes::evaluate_tide(pa, e, l, x, y, settings, 1);
  for (int i = 0; i < 4; ++i) {
    auto eq = [](double p, double q) { return bits(p) == bits(q) || (std::isnan(p) && std::isnan(q)); };
    c.check(eq(std::get<0>(rc)(i), std::get<0>(rd)(i)) && eq(std::get<1>(rc)(i), std::get<1>(rd)(i)) && std::get<2>(rc)(i) == std::get<2>(rd)(i), "state-tide", fmt("lon=%.17g lat=%.17g", x(i), y(i)));
  }
  c.count("state.bytes", state.size());
}

template <typename T>
static void grid_trip(Rng& r, Case& c) {
  auto ids = random_subset(r, 75, .08);
  GridWorld<T> w(r, ids, r.chance(.5), r.chance(.5) ? .2 : 0, r.chance(.5));
  w.model->dynamic(random_idents(r, .1));
  c.note(fmt("Cartesian<%s> %s, %zu constituents", NameOf<T>::s(), w.g.text().c_str(), ids.size()));
  compare(r, c, *w.model, [&](Rng& q, double& lon, double& lat) { q.chance(.2) ? w.outside(q, lon, lat) : w.inside(q, lon, lat); }, w.g.nlon * w.g.nlat);
  const std::string gs = w.model->getstate();
  const auto back = fes::tidal_model::Cartesian<T>::setstate(view(gs));
  c.check(back.lon() == w.model->lon() && back.lat() == w.model->lat(), "state-axes", "axes");
  c.distinct(bits(w.g.lon0) ^ mix(bits(w.g.dlat)) ^ mix(ids.size()));
}

template <typename T, int N>
static void lgp_trip(Rng& r, Case& c) {
  auto ids = random_subset(r, 75, .05);
  LgpWorld<T, N> w(r, ids, false, r.chance(.5), r.chance(.5) ? 0 : r.uniform(1e3, 1e6), 5);
  w.model->dynamic(random_idents(r, .1));
  c.note(fmt("LGP%d<%s> %s, %zu constituents", N, NameOf<T>::s(), w.m.text().c_str(), ids.size()));
  compare(r, c, *w.model, [&](Rng& q, double& lon, double& lat) {
    double x, y;
    w.inside(q, lon, lat, x, y);
    if (q.chance(.3)) { lon = w.m.lon0 + q.uniform(-1, 1) * 20; lat = std::max(-85., std::min(85., w.m.lat0 + q.uniform(-1, 1) * 20)); }
  }, w.n_codes);
  const auto& i = *w.model->index();
  const std::string is = i.getstate();
  const auto back = fes::mesh::Index::setstate(view(is));
  c.check(back.getstate() == i.getstate() && back.lon() == i.lon() && back.lat() == i.lat() && back.triangles() == i.triangles(), "state-index", "index");
  c.distinct(bits(w.m.lon0) ^ mix(ids.size()) ^ mix(N));
}

// The search distance is restored exactly: a position just within it is found, one just further is not.
template <typename T, int N>
static void distance_trip(Rng& r, Case& c) {
  LgpWorld<T, N> w(r, {30}, false, false, 0, 4);
  const auto index = w.model->index();
  Eigen::Matrix<int, Eigen::Dynamic, N * 3> codes(w.codes.size(), N * 3);
  for (size_t t = 0; t < w.codes.size(); ++t) for (int q = 0; q < N * 3; ++q) codes(t, q) = w.codes[t][q];
  for (int k = 0; k < 6; ++k) {
    const double lon = w.m.lon0 + r.uniform(-1, 1) * 20, lat = std::max(-85., std::min(85., w.m.lat0 + r.uniform(-1, 1) * 20));
    if (index->search({lon, lat}, 0).index != -1) continue;
    double d = kInf;
    for (int i = 0; i < index->lon().size(); ++i) {
      const auto a = static_cast<fes::geometry::EarthCenteredEarthFixed>(fes::geometry::Point(lon, lat));
      const auto b = static_cast<fes::geometry::EarthCenteredEarthFixed>(fes::geometry::Point(index->lon()(i), index->lat()(i)));
      d = std::min(d, std::sqrt((a.x() - b.x()) * (a.x() - b.x()) + (a.y() - b.y()) * (a.y() - b.y()) + (a.z() - b.z()) * (a.z() - b.z())));
    }
    if (d < 1e3) continue;
    const double ratio = std::exp(r.uniform(std::log(1e-11), std::log(1e-2)));
    for (int side : {-1, 1}) {
      const double limit = d * (1 + side * ratio);
      typename LgpBase<T, N>::type model(index, codes, fes::kRadial, limit);
      model.add_constituent(C(30), fes::Vector<std::complex<T>>::Constant(w.n_codes, std::complex<T>(3, 4)));
      const auto s = model.getstate();
      const auto back = LgpBase<T, N>::type::setstate(view(s));
      fes::Quality p, q;
      std::unique_ptr<fes::Accelerator> x(model.accelerator(formulae(0), 0)), y(back.accelerator(formulae(0), 0));
      model.interpolate({lon, lat}, p, x.get());
      back.interpolate({lon, lat}, q, y.get());
      c.note(fmt("lon=%.17g lat=%.17g at %.17g m, limit %.17g", lon, lat, d, limit));
      c.check((p != fes::kUndefined) == (side > 0), "state-distance-model", fmt("quality %d", int(p)));
      c.check(p == q, "state-distance", fmt("quality %d, %d restored", int(p), int(q)));
      c.count(side > 0 ? "distance.within" : "distance.further");
      c.distinct(bits(limit));
    }
  }
}

static void axis_trip(Rng& r, Case& c) {
  const auto g = random_grid_geometry(r, r.chance(.5));
  c.note(g.text());
  std::vector<fes::Axis> axes = {make_lon_axis(g), make_lat_axis(g)};
  {
    // A circle within another tolerance, or not.
    const int n = r.range(2, 90);
    const double gap = r.chance(.2) ? 0 : (r.chance(.5) ? 1 : -1) * std::exp(r.uniform(std::log(1e-9), std::log(.5)));
    const double step = (360. + gap) / n * (r.chance(.3) ? -1 : 1), start = r.uniform(-180, 180);
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i) v(i) = start + i * step;
    const double epsilon = std::exp(r.uniform(std::log(1e-12), std::log(1.)));
    axes.emplace_back(v, epsilon, true);
    // The second bound is relative.
    if (std::abs(gap) < epsilon * .5 + 0) c.check(axes.back().is_circular(), "axis-epsilon", fmt("gap %g, tolerance %g", gap, epsilon));
    if (std::abs(gap) > epsilon * 361 * 2 + 1e-9) c.check(!axes.back().is_circular(), "axis-epsilon", fmt("gap %g, tolerance %g", gap, epsilon));
    c.count(axes.back().is_circular() ? "axis.tolerance-circle" : "axis.tolerance-segment");
  }
  for (const auto& a : axes) {
    const auto s = a.getstate();
    const auto b = fes::Axis::setstate(view(s));
    c.check(a == b && b.getstate() == s, "axis-state", "axis");
    c.check(b.size() == a.size() && b.is_circular() == a.is_circular() && b.is_ascending() == a.is_ascending() && bits(b.start()) == bits(a.start()) && bits(b.step()) == bits(a.step()), "axis-state", "properties");
    for (int k = 0; k < 10; ++k) {
      const double v = r.uniform(-400, 800);
      c.check(a.find_index(v) == b.find_index(v) && a.find_index(v, true) == b.find_index(v, true) && a.find_indices(v) == b.find_indices(v), "axis-state-lookup", fmt("%.17g", v));
    }
  }
  c.distinct(bits(g.lon0) ^ mix(bits(g.lat0)));
}

static void index_trip(Rng& r, Case& c) {
  const Mesh m(r, 7);
  const auto a = m.index();
  c.note(m.text());
  const std::string s = a->getstate();
  const auto b = fes::mesh::Index::setstate(view(s));
  c.check(a->lon() == b.lon() && a->lat() == b.lat() && a->triangles() == b.triangles() && a->n_positions() == b.n_positions() && a->n_triangles() == b.n_triangles(), "index-state", "mesh");
  c.check(b.getstate() == s, "index-state-unstable", "saved again");
  for (int k = 0; k < 30; ++k) {
    const fes::geometry::Point p(m.lon0 + r.uniform(-.7, .7) * (m.nx + 1) * m.h * m.k, m.lat0 + r.uniform(-.7, .7) * (m.ny + 1) * m.h);
    const double d = r.chance(.5) ? 0 : r.uniform(0, 3e5);
    const auto x = a->search(p, d), y = b.search(p, d);
    c.check(x.index == y.index && x.inside == y.inside && (x.index < 0 || (bits(x.point.lon()) == bits(y.point.lon()) && bits(x.point.lat()) == bits(y.point.lat()))), "index-state-search",
            fmt("%.17g %.17g within %g: triangle %d, then %d", p.lon(), p.lat(), d, x.index, y.index));
    c.count(x.index < 0 ? "index.nothing" : "index.found");
  }
  c.distinct(bits(m.lon0));
}

// ---------------------------------------------------------------------------
// C10: damaged states. Each one is either refused with an exception, or restores
// an object that works: the sanitizers watch what it does.
static std::string damage(Rng& r, const std::string& s, std::string* how) {
  std::string d = s;
  auto put = [&](size_t at, uint64_t v, size_t n) { for (size_t i = 0; i < n && at + i < d.size(); ++i) d[at + i] = char(v >> (8 * i)); };
  const int times = r.chance(.7) ? 1 : r.range(2, 4);
  for (int k = 0; k < times && !d.empty(); ++k) {
    // Headers come first: they are more interesting than the data.
    const size_t at = r.chance(.6) ? r.below(std::min<size_t>(d.size(), 160)) : r.below(d.size());
    switch (r.below(9)) {
      case 0: d.resize(r.below(d.size() + 1)); *how += fmt("cut to %zu;", d.size()); break;
      case 1: d[at] = char(d[at] ^ (1 << r.below(8))); *how += fmt("bit of %zu;", at); break;
      case 2: d[at] = char(r.u64()); *how += fmt("byte %zu;", at); break;
      case 3: case 4: {
        // One of the sizes or of the numbers.
        static const uint64_t v[] = {0, 1, 2, 3, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x4000000000000000, 0x2000000000000001,
                                     0x7ff8000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x0010000000000000, 0x3ff0000000000000, 0x0fffffffffffffff, 0x1000000000000000};
        const uint64_t x = r.chance(.3) ? r.below(1000) : v[r.below(22)];
        const size_t p = r.chance(.7) ? std::min<size_t>(at / 8 * 8 + (r.chance(.5) ? 1 : r.chance(.5) ? 2 : 0), d.size() - 1) : at;
        put(p, x, r.chance(.8) ? 8 : 4);
        *how += fmt("%zu:=%lx;", p, x);
        break;
      }
      case 5: { const size_t n = 1 + r.below(std::min<size_t>(40, d.size())); d.erase(at, n); *how += fmt("%zu bytes less at %zu;", n, at); break; }
      case 6: { std::string e(1 + r.below(40), 0); for (auto& ch : e) ch = char(r.chance(.5) ? 0 : r.u64()); d.insert(at, e); *how += fmt("%zu bytes more at %zu;", e.size(), at); break; }
      case 7: { const size_t p = r.below(d.size()), n = std::min<size_t>({8, d.size() - p, d.size() - at}); for (size_t i = 0; i < n; ++i) std::swap(d[p + i], d[at + i]); *how += fmt("%zu<->%zu;", at, p); break; }
      default: { for (size_t i = at; i < std::min(d.size(), at + 8); ++i) d[i] = char(r.u64()); *how += fmt("8 bytes of %zu;", at); }
    }
  }
  return d;
}

static void use_axis(const fes::Axis& a) {
  volatile double sink = 0;
  for (double v : {0., -180., 179.9, 359.99, 1e9, -1e300, kNaN, kInf}) {
    const auto i = a.find_index(v, true);
    if (i >= 0 && i < a.size()) sink += a(i);
    const auto p = a.find_indices(v);
    if (p) sink += a(std::get<0>(*p)) + a(std::get<1>(*p));
  }
  sink += a.start() + a.end() + a.min_value() + a.max_value();
  a.getstate();
}

template <typename M, typename T>
static void use_model(Rng& r, const M& m, double lon0, double lat0, double size) {
  const fes::AbstractTidalModel<T>* p = &m;
  const int n = 12;
  Eigen::VectorXd e(n), x(n), y(n);
  fes::Vector<uint16_t> l(n);
  for (int i = 0; i < n; ++i) {
    x(i) = lon0 + r.uniform(-1, 1) * (r.chance(.7) ? size : 400);
    y(i) = std::max(-90., std::min(90., lat0 + r.uniform(-1, 1) * (r.chance(.7) ? size : 90)));
    e(i) = 1e9 + i;
    l(i) = 18;
  }
  fes::evaluate_tide(p, e, l, x, y, fes::Settings(), 1);
  m.getstate();
}

// Whether the object is refused, as it should be, with an exception of the kind documented.
template <typename F>
static void attempt(Case& c, const char* what, F&& f) {
  try {
    f();
    c.count(std::string("damaged.restored.") + what);
  } catch (const std::bad_alloc&) {
    // Nothing in a state this short takes that much memory.
    c.check(false, std::string("damaged-memory-") + what, "the memory asked for is not available");
  } catch (const std::invalid_argument&) {
    c.count(std::string("damaged.refused.") + what);
  } catch (const std::runtime_error&) {
    c.count(std::string("damaged.refused.") + what);
  } catch (const std::exception& e) {
    c.count(std::string("damaged.refused-otherwise.") + what);
  }
}

template <typename T>
static void grid_damage(Rng& r, Case& c) {
  auto ids = random_subset(r, 75, .05);
  GridWorld<T> w(r, ids, r.chance(.5), 0, true);
  w.model->dynamic(random_idents(r, .05));
  const std::string s = w.model->getstate();
  using M = fes::tidal_model::Cartesian<T>;
  for (int k = 0; k < 12; ++k) {
    std::string how;
    std::string d = damage(r, s, &how);
    // Exactly as much memory as there are bytes.
    std::unique_ptr<char[]> exact(new char[d.size()]);
    std::memcpy(exact.get(), d.data(), d.size());
    const fes::string_view v(exact.get(), d.size());
    c.text = fmt("Cartesian<%s> %s, %zu bytes: %s", NameOf<T>::s(), w.g.text().c_str(), s.size(), how.c_str());
    attempt(c, "cartesian", [&] { auto m = M::setstate(v); use_axis(m.lon()); use_axis(m.lat()); use_model<M, T>(r, m, w.g.lon0, w.g.lat0, 20); });
    c.distinct(hash_str(d));
  }
  // Cut anywhere near a border of its parts, it is refused.
  for (int k = 0; k < 30; ++k) {
    const size_t n = r.chance(.5) ? r.below(std::min<size_t>(s.size(), 200)) : s.size() - 1 - r.below(std::min<size_t>(s.size(), 100));
    std::unique_ptr<char[]> exact(new char[n]);
    std::memcpy(exact.get(), s.data(), n);
    const auto t = thrown([&] { M::setstate(fes::string_view(exact.get(), n)); });
    c.text = fmt("Cartesian<%s> %s", NameOf<T>::s(), w.g.text().c_str());
    c.check(!t.empty(), "damaged-cut-cartesian", fmt("%zu of %zu bytes are accepted", n, s.size()));
    c.count("damaged.cut");
  }
}

template <typename T, int N>
static void lgp_damage(Rng& r, Case& c) {
  auto ids = random_subset(r, 75, .03);
  LgpWorld<T, N> w(r, ids, false, true, r.chance(.5) ? 0 : 1e5, 4);
  w.model->dynamic(random_idents(r, .05));
  const std::string s = w.model->getstate();
  using M = typename LgpWorld<T, N>::Model;
  for (int k = 0; k < 12; ++k) {
    std::string how;
    std::string d = damage(r, s, &how);
    std::unique_ptr<char[]> exact(new char[d.size()]);
    std::memcpy(exact.get(), d.data(), d.size());
    const fes::string_view v(exact.get(), d.size());
    c.text = fmt("LGP%d<%s> %s, %zu bytes: %s", N, NameOf<T>::s(), w.m.text().c_str(), s.size(), how.c_str());
    attempt(c, "lgp", [&] { auto m = M::setstate(v); use_model<M, T>(r, m, w.m.lon0, w.m.lat0, w.m.h * 5); });
    c.distinct(hash_str(d));
  }
  for (int k = 0; k < 30; ++k) {
    const size_t n = r.chance(.5) ? r.below(std::min<size_t>(s.size(), 200)) : s.size() - 1 - r.below(std::min<size_t>(s.size(), 100));
    std::unique_ptr<char[]> exact(new char[n]);
    std::memcpy(exact.get(), s.data(), n);
    const auto t = thrown([&] { M::setstate(fes::string_view(exact.get(), n)); });
    c.text = fmt("LGP%d<%s> %s", N, NameOf<T>::s(), w.m.text().c_str());
    c.check(!t.empty(), "damaged-cut-lgp", fmt("%zu of %zu bytes are accepted", n, s.size()));
    c.count("damaged.cut");
  }
}

static void small_damage(Rng& r, Case& c) {
  const auto g = random_grid_geometry(r, r.chance(.5));
  const std::string s = (r.chance(.5) ? make_lon_axis(g) : make_lat_axis(g)).getstate();
  Mesh m(r, 4);
  const std::string ms = m.index()->getstate();
  for (int k = 0; k < 30; ++k) {
    std::string how;
    std::string d = damage(r, s, &how);
    std::unique_ptr<char[]> exact(new char[d.size()]);
    std::memcpy(exact.get(), d.data(), d.size());
    c.text = fmt("axis %s: %s", g.text().c_str(), how.c_str());
    attempt(c, "axis", [&] { use_axis(fes::Axis::setstate(fes::string_view(exact.get(), d.size()))); });
    c.distinct(hash_str(d));
    how.clear();
    d = damage(r, ms, &how);
    std::unique_ptr<char[]> e2(new char[d.size()]);
    std::memcpy(e2.get(), d.data(), d.size());
    c.text = fmt("index %s: %s", m.text().c_str(), how.c_str());
    attempt(c, "index", [&] {
      auto i = fes::mesh::Index::setstate(fes::string_view(e2.get(), d.size()));
      for (int q = 0; q < 5; ++q) i.search({m.lon0 + r.uniform(-1, 1) * 5, m.lat0 + r.uniform(-1, 1) * 5}, 1e5);
      i.getstate();
    });
    c.distinct(hash_str(d));
  }
  for (const auto& t : {s, ms})
    for (size_t n = 0; n < t.size(); n += t.size() > 400 ? 1 + r.below(8) : 1) {
      std::unique_ptr<char[]> exact(new char[n]);
      std::memcpy(exact.get(), t.data(), n);
      const fes::string_view v(exact.get(), n);
      const auto how = t == s ? thrown([&] { fes::Axis::setstate(v); }) : thrown([&] { fes::mesh::Index::setstate(v); });
      c.check(!how.empty(), t == s ? "damaged-cut-axis" : "damaged-cut-index", fmt("%zu of %zu bytes are accepted", n, t.size()));
      c.count("damaged.cut");
    }
}

// The state of one kind of object given to another one, or noise.
static void foreign(Rng& r, Case& c) {
  std::vector<std::string> states{"", std::string(1 + r.below(300), '\0'), std::string(1 + r.below(300), '\xff')};
  std::string noise(r.below(400), 0);
  for (auto& ch : noise) ch = char(r.u64());
  states.push_back(noise);
  GridWorld<double> g(r, {30}, true, 0, true);
  GridWorld<float> gf(r, {8, 30}, true, 0, true);
  LgpWorld<double, 1> l1(r, {30}, false, true, 0, 4);
  LgpWorld<double, 2> l2(r, {30}, false, true, 0, 4);
  LgpWorld<float, 1> lf(r, {30}, false, true, 0, 4);
  for (auto& s : {g.model->getstate(), gf.model->getstate(), l1.model->getstate(), l2.model->getstate(), lf.model->getstate(), g.model->lon().getstate(), l1.m.index()->getstate()}) states.push_back(s);
  for (size_t i = 0; i < states.size(); ++i) {
    const auto& s = states[i];
    std::unique_ptr<char[]> exact(new char[s.size()]);
    std::memcpy(exact.get(), s.data(), s.size());
    const fes::string_view v(exact.get(), s.size());
    c.text = fmt("state %zu of %zu bytes", i, s.size());
    attempt(c, "foreign", [&] { use_axis(fes::Axis::setstate(v)); });
    attempt(c, "foreign", [&] { fes::mesh::Index::setstate(v).search({0, 0}, 1e9); });
    attempt(c, "foreign", [&] { auto m = fes::tidal_model::Cartesian<double>::setstate(v); use_model<decltype(m), double>(r, m, 0, 0, 90); });
    attempt(c, "foreign", [&] { auto m = fes::tidal_model::Cartesian<float>::setstate(v); use_model<decltype(m), float>(r, m, 0, 0, 90); });
    attempt(c, "foreign", [&] { auto m = fes::tidal_model::LGP1<double>::setstate(v); use_model<decltype(m), double>(r, m, 0, 0, 90); });
    attempt(c, "foreign", [&] { auto m = fes::tidal_model::LGP2<double>::setstate(v); use_model<decltype(m), double>(r, m, 0, 0, 90); });
    attempt(c, "foreign", [&] { auto m = fes::tidal_model::LGP2<float>::setstate(v); use_model<decltype(m), float>(r, m, 0, 0, 90); });
    c.distinct(hash_str(s));
  }
}

// C09: objects of several gigabytes (thorough only: 9 GB of memory).
static void huge(Rng& r, Case& c) {
  std::string state;
  if (r.chance(.5)) {
    // A mesh most of whose positions are used by no triangle.
    const int64_t n = 135000000 + r.below(1000000);
    {
      Eigen::VectorXd lon = Eigen::VectorXd::Constant(n, 50), lat = Eigen::VectorXd::Constant(n, 50);
      lon(n - 3) = 0; lat(n - 3) = 0; lon(n - 2) = 1; lat(n - 2) = 0; lon(n - 1) = 0; lat(n - 1) = 1;
      Eigen::Matrix<int32_t, -1, 3> t(1, 3);
      t << n - 3, n - 2, n - 1;
      Eigen::Matrix<int, Eigen::Dynamic, 3> codes(1, 3);
      codes << 0, 1, 2;
      fes::tidal_model::LGP1<double> m(std::make_shared<fes::mesh::Index>(std::move(lon), std::move(lat), std::move(t)), codes, fes::kTide, 0);
      Eigen::VectorXcd v(3);
      v << 1, 2, 3;
      m.add_constituent(C(30), std::move(v));
      state = m.getstate();
    }
    const auto back = fes::tidal_model::LGP1<double>::setstate(view(state));
    c.check(back.index()->n_positions() == size_t(n) && back.size() == 1, "huge-index", "another mesh");
    std::unique_ptr<fes::Accelerator> acc(back.accelerator(formulae(0), 0));
    fes::Quality q;
    const auto& v = static_cast<const fes::AbstractTidalModel<double>&>(back).interpolate({.25, .25}, q, acc.get());
    c.check(q == fes::kInterpolated && v.size() == 1 && std::abs(v[0].second - ref::cplx(1.75)) < 1e-3, "huge-value", fmt("quality %d", int(q)));
  } else {
    const int nx = 20000, ny = 13500 + r.below(100);
    {
      Eigen::VectorXd x(nx), y(ny);
      for (int i = 0; i < nx; ++i) x(i) = i * .0125;
      for (int j = 0; j < ny; ++j) y(j) = j * .0125 - 85;
      fes::tidal_model::Cartesian<float> m(fes::Axis(x), fes::Axis(y), fes::kTide, true);
      fes::Vector<std::complex<float>> v(int64_t(nx) * ny);
      for (int64_t k = 0; k < v.size(); ++k) v(k) = std::complex<float>(k / ny, k % ny);
      m.add_constituent(C(30), std::move(v));
      state = m.getstate();
    }
    const auto back = fes::tidal_model::Cartesian<float>::setstate(view(state));
    state.clear();
    state.shrink_to_fit();
    std::unique_ptr<fes::Accelerator> acc(back.accelerator(formulae(0), 0));
    for (int k = 0; k < 1000; ++k) {
      const double x = r.unit() * (nx - 1) * .999, y = r.unit() * (ny - 1) * .999;
      fes::Quality q;
      const auto& v = static_cast<const fes::AbstractTidalModel<float>&>(back).interpolate({x * .0125, y * .0125 - 85}, q, acc.get());
      c.check(q == fes::kInterpolated && v.size() == 1 && std::abs(v[0].second - ref::cplx(x, y)) < 1e-2, "huge-value", fmt("at (%g, %g): (%g, %g), quality %d", x, y, v[0].second.real(), v[0].second.imag(), int(q)));
    }
  }
  c.count("huge.objects");
  c.distinct(r.u64());
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  H.run("trip_axis", 5000, 80000, axis_trip);
  H.run("trip_index", 1600, 30000, index_trip);
  H.run("trip_grid", 2500, 40000, [](Rng& r, Case& c) { r.chance(.5) ? grid_trip<double>(r, c) : grid_trip<float>(r, c); });
  H.run("trip_lgp", 2500, 40000, [](Rng& r, Case& c) {
    switch (r.below(4)) {
      case 0: lgp_trip<double, 1>(r, c); break;
      case 1: lgp_trip<float, 1>(r, c); break;
      case 2: lgp_trip<double, 2>(r, c); break;
      default: lgp_trip<float, 2>(r, c);
    }
  });
  H.run("trip_distance", 1200, 20000, [](Rng& r, Case& c) {
    switch (r.below(4)) {
      case 0: distance_trip<double, 1>(r, c); break;
      case 1: distance_trip<double, 2>(r, c); break;
      case 2: distance_trip<float, 1>(r, c); break;
      default: distance_trip<float, 2>(r, c);
    }
  });
  H.run("damage_small", 1200, 20000, small_damage);
  H.run("damage_grid", 1500, 30000, [](Rng& r, Case& c) { r.chance(.5) ? grid_damage<double>(r, c) : grid_damage<float>(r, c); });
  H.run("damage_lgp", 2000, 40000, [](Rng& r, Case& c) {
    switch (r.below(4)) {
      case 0: lgp_damage<double, 1>(r, c); break;
      case 1: lgp_damage<float, 1>(r, c); break;
      case 2: lgp_damage<double, 2>(r, c); break;
      default: lgp_damage<float, 2>(r, c);
    }
  });
  H.run("foreign", 300, 4000, foreign);
  H.run("huge", 0, 4, huge);
  return H.finish();
}
