// The prediction itself, from a model to heights.
#include <thread>

#include "models.hpp"

using namespace vf;

using IntVec = fes::Vector<uint16_t>;
using QVec = fes::Vector<fes::Quality>;

struct Batch {
  Eigen::VectorXd epoch, lon, lat;
  IntVec leap;
  explicit Batch(int n) : epoch(n), lon(n), lat(n), leap(n) {}
  int size() const { return epoch.size(); }
};
struct Out {
  Eigen::VectorXd tide, lp;
  QVec q;
};

template <typename T>
Out evaluate(const fes::AbstractTidalModel<T>& model, const Batch& b, const fes::Settings& s, size_t threads) {
  Out o;
  auto t = fes::evaluate_tide(&model, b.epoch, b.leap, b.lon, b.lat, s, threads);
  o.tide = std::get<0>(t);
  o.lp = std::get<1>(t);
  o.q = std::get<2>(t);
  return o;
}

static std::string list(const std::vector<int>& v) {
  std::string s;
  for (int i : v) { if (s.size() > 120) { s += "..."; break; } s += std::string(s.empty() ? "" : ",") + ref::kSpec[i].name; }
  return s;
}
static std::vector<fes::Constituent> idents(const std::vector<int>& v) {
  std::vector<fes::Constituent> r;
  for (int i : v) r.push_back(C(i));
  return r;
}
static size_t random_threads(Rng& r, int n) {
  static const size_t k[] = {0, 2, 3, 4, 7};
  return r.chance(.6) ? 1 : r.chance(.1) ? n : r.chance(.05) ? n + 5 : k[r.below(5)];
}
static double scale_of(const std::map<int, ref::cplx>& v) {
  double s = 1;
  for (auto& kv : v) s += std::abs(kv.second);
  return s;
}

// Compares one result with what is expected there.
static void judge(Case& c, const std::string& kind, int form, double epoch, unsigned leap, double lat, const Expected& e,
                  const std::vector<int>& excluded, const std::vector<int>& extra, bool ocean, double tide, double lp, double rel) {
  const auto want = ref::predict(static_cast<ref::Form>(form), epoch, leap, lat, e.values, excluded, extra, ocean);
  // The angles of the tide move by 3e-5 rad per second: dates are known to 1 us.
  const double tol = rel * scale_of(e.values);
  c.near(tide, want.h, tol, kind + "-tide", "tide");
  c.near(lp, want.lp, tol, kind + "-long-period", "long period tide");
}

enum { kPlain = 0, kLists = 1 };

// C01 (plain) and C25 (lists of excluded and dynamic constituents).
template <typename T>
static void one_grid(Rng& r, Case& c, int mode) {
  const bool ocean = r.chance(.7);
  GridWorld<T> w(r, random_model_constituents(r), r.chance(.3), 0, ocean);
  const int form = r.below(3), n = r.range(1, 6);
  std::vector<int> excluded, extra;
  if (mode == kLists) {
    excluded = random_subset(r, 75, r.chance(.5) ? .1 : .5);
    extra = random_subset(r, 75, r.chance(.5) ? .03 : .3);
    if (r.chance(.2)) excluded = w.ids;
    if (r.chance(.2)) extra.clear();
    if (!excluded.empty() && r.chance(.3)) excluded.push_back(excluded[0]);
    r.shuffle(excluded);
    w.model->dynamic(idents(extra));
  }
  Batch b(n);
  for (int i = 0; i < n; ++i) {
    w.inside(r, b.lon(i), b.lat(i));
    b.epoch(i) = next_epoch(r, !i, i ? b.epoch(i - 1) : 0);
    b.leap(i) = random_leap(r);
  }
  c.note(fmt("Cartesian<%s> %s %s form=%d constituents=%s", sizeof(T) == 4 ? "float" : "double", ocean ? "tide" : "radial", w.g.text().c_str(), form, list(w.ids).c_str()));
  if (mode == kLists) c.note("excluded=" + list(excluded) + " dynamic=" + list(extra));
  c.note(fmt("epoch=%.17g leap=%u lon=%.17g lat=%.17g", b.epoch(0), b.leap(0), b.lon(0), b.lat(0)));
  const auto o = evaluate<T>(*w.model, b, fes::Settings(formulae(form), 0, idents(excluded)), random_threads(r, n));
  for (int i = 0; i < n; ++i) {
    const auto e = w.in_cell(w.cells(b.lon(i), b.lat(i))[0]);
    c.check(o.q(i) == fes::kInterpolated, "grid-quality", fmt("quality %d", int(o.q(i))));
    judge(c, mode ? "lists-grid" : "grid", form, b.epoch(i), b.leap(i), b.lat(i), e, excluded, extra, ocean, o.tide(i), o.lp(i), 2e-9);
    c.distinct(bits(b.epoch(i)) ^ mix(bits(b.lon(i))) ^ mix(excluded.size() * 100 + extra.size()));
  }
  c.count("predictions.grid", n);
  c.count("constituents", w.ids.size() * n);
}

template <typename T, int N>
static void one_lgp(Rng& r, Case& c, int mode) {
  const bool ocean = r.chance(.7);
  LgpWorld<T, N> w(r, random_model_constituents(r), true, ocean, r.chance(.5) ? 0 : 1e6, 7);
  const int form = r.below(3), n = r.range(1, 6);
  std::vector<int> excluded, extra;
  if (mode == kLists) {
    excluded = random_subset(r, 75, .3);
    extra = random_subset(r, 75, .1);
    w.model->dynamic(idents(extra));
  }
  Batch b(n);
  std::vector<double> x(n), y(n);
  for (int i = 0; i < n; ++i) {
    w.inside(r, b.lon(i), b.lat(i), x[i], y[i]);
    b.epoch(i) = next_epoch(r, !i, i ? b.epoch(i - 1) : 0);
    b.leap(i) = random_leap(r);
  }
  c.note(fmt("LGP%d<%s> %s %s form=%d constituents=%s", N, sizeof(T) == 4 ? "float" : "double", ocean ? "tide" : "radial", w.m.text().c_str(), form, list(w.ids).c_str()));
  if (mode == kLists) c.note("excluded=" + list(excluded) + " dynamic=" + list(extra));
  c.note(fmt("epoch=%.17g leap=%u lon=%.17g lat=%.17g", b.epoch(0), b.leap(0), b.lon(0), b.lat(0)));
  const auto o = evaluate<T>(*w.model, b, fes::Settings(formulae(form), 0, idents(excluded)), random_threads(r, n));
  for (int i = 0; i < n; ++i) {
    Expected e;
    for (int id : w.ids) e.values[id] = w.smooth_value(id, x[i], y[i]);
    c.check(o.q(i) == fes::kInterpolated, "lgp-quality", fmt("quality %d at lon=%.17g lat=%.17g", int(o.q(i)), b.lon(i), b.lat(i)));
    if (o.q(i) != fes::kInterpolated) continue;
    judge(c, mode ? "lists-lgp" : "lgp", form, b.epoch(i), b.leap(i), b.lat(i), e, excluded, extra, ocean, o.tide(i), o.lp(i), sizeof(T) == 4 ? 1e-5 : 1e-8);
    c.distinct(bits(b.epoch(i)) ^ mix(bits(b.lon(i))) ^ mix(N));
  }
  c.count("predictions.lgp", n);
  c.count("constituents", w.ids.size() * n);
}

static void any_model(Rng& r, Case& c, int mode) {
  switch (r.below(7)) {
    case 0: one_lgp<double, 1>(r, c, mode); break;
    case 1: one_lgp<float, 1>(r, c, mode); break;
    case 2: one_lgp<double, 2>(r, c, mode); break;
    case 3: one_lgp<float, 2>(r, c, mode); break;
    case 4: one_grid<float>(r, c, mode); break;
    default: one_grid<double>(r, c, mode);
  }
}

// A model, and positions inside, outside and undefined.
template <typename T>
struct AnyWorld {
  std::unique_ptr<GridWorld<T>> grid;
  std::unique_ptr<LgpWorld<T, 1>> l1;
  std::unique_ptr<LgpWorld<T, 2>> l2;
  bool ocean;
  // reach: how far positions are extrapolated from a mesh, in meters.
  AnyWorld(Rng& r, double masked, double reach = 0) : ocean(r.chance(.7)) {
    auto ids = random_model_constituents(r);
    switch (r.below(4)) {
      case 0: l1.reset(new LgpWorld<T, 1>(r, ids, true, ocean, reach, 7)); break;
      case 1: l2.reset(new LgpWorld<T, 2>(r, ids, true, ocean, reach, 7)); break;
      default: grid.reset(new GridWorld<T>(r, ids, false, masked, ocean));
    }
  }
  bool is_grid() const { return grid != nullptr; }
  const fes::AbstractTidalModel<T>& model() const {
    if (grid) return *grid->model;
    if (l1) return *l1->model;
    return *l2->model;
  }
  std::string text() const { return grid ? grid->g.text() : l1 ? "LGP1 " + l1->m.text() : "LGP2 " + l2->m.text(); }
  void inside(Rng& r, double& lon, double& lat) const {
    double x, y;
    if (grid) grid->inside(r, lon, lat);
    else if (l1) l1->inside(r, lon, lat, x, y);
    else l2->inside(r, lon, lat, x, y);
  }
  // Now in a triangle of the mesh, then just beside it: out of the mesh, or in another triangle.
  void around(Rng& r, int& t, double& lon, double& lat) const {
    if (grid) return inside(r, lon, lat);
    const Mesh& m = l1 ? l1->m : l2->m;
    if (t < 0 || r.chance(.25)) t = r.below(m.triangles.size());
    auto b = Mesh::bary(r, .05);
    if (r.chance(.5)) {
      const int q = r.below(3);
      const double out = r.chance(.3) ? r.uniform(-2, -.4) : r.uniform(-.4, -.05), scale = (1 - out) / (1 - b[q]);
      for (int i = 0; i < 3; ++i) b[i] = i == q ? out : b[i] * scale;
    }
    double x;
    m.at(t, b[0], b[1], b[2], x, lat);
    lon = m.full_lon(x);
  }
  void outside(Rng& r, double& lon, double& lat) const {
    if (grid) { grid->outside(r, lon, lat); return; }
    const Mesh& m = l1 ? l1->m : l2->m;
    lon = m.lon0 + r.uniform(-1, 1);
    lat = m.lat0 + (r.chance(.5) ? 1 : -1) * (m.h * m.ny + r.uniform(.1, 10));
  }
};

static bool same(double a, double b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }

// C02: a prediction does not depend on the rest of the batch, nor on the threads.
template <typename T>
static void batch(Rng& r, Case& c, bool huge = false) {
  AnyWorld<T> w(r, .2, !huge && r.chance(.6) ? std::exp(r.uniform(std::log(1e3), std::log(1e6))) : 0);
  int beside = -1;
  const bool along = r.chance(.5);
  // A few batches are large: several blocks for each thread.
  const int form = r.below(3), n = huge ? r.range(65536, 75000) : r.chance(.01) ? r.range(200, 9000) : r.range(2, 40);
  auto excluded = r.chance(.3) ? random_subset(r, 75, .2) : std::vector<int>{};
  const fes::Settings s(formulae(form), 0, idents(excluded));
  Batch b(n);
  const bool one_place = r.chance(.2), one_date = r.chance(.2);
  for (int i = 0; i < n; ++i) {
    if (i && one_place) { b.lon(i) = b.lon(0); b.lat(i) = b.lat(0); }
    else if (r.chance(.15)) w.outside(r, b.lon(i), b.lat(i));
    else if (along) w.around(r, beside, b.lon(i), b.lat(i));
    else w.inside(r, b.lon(i), b.lat(i));
    b.epoch(i) = i && one_date ? b.epoch(0) : next_epoch(r, !i, i ? b.epoch(i - 1) : 0);
    b.leap(i) = r.chance(.5) ? 18 : random_leap(r);
    if (i && std::isnan(b.epoch(i))) b.epoch(i) = random_epoch(r);
    if (r.chance(.06)) (r.chance(.3) ? b.lon : r.chance(.5) ? b.lat : b.epoch)(i) = kNaN;
  }
  c.note(fmt("%s form=%d n=%d", w.text().c_str(), form, n));
  const size_t threads = huge ? r.range(2, 4) : random_threads(r, n);
  const auto base = evaluate<T>(w.model(), b, s, 1);
  auto compare = [&](double t, double l, int q, int i, const char* how) {
    // Positions shared by two triangles may be found in either of them.
    const bool exact = w.is_grid();
    const bool ok = q == base.q(i) &&
                    (exact ? same(t, base.tide(i)) && same(l, base.lp(i))
                           : (same(t, base.tide(i)) || std::abs(t - base.tide(i)) < 1e-3) && (same(l, base.lp(i)) || std::abs(l - base.lp(i)) < 1e-3));
    c.check(ok, std::string("batch-") + how, fmt("%s: item %d (%.17g %.17g %d), in the batch (%.17g %.17g %d)", how, i, t, l, q, base.tide(i), base.lp(i), int(base.q(i))));
    c.count("batch.compared");
    if (!exact && q == fes::kExtrapolated1) c.count("batch.extrapolated");
    if (same(t, base.tide(i)) && same(l, base.lp(i))) c.count("batch.identical");
  };
  const auto multi = evaluate<T>(w.model(), b, s, threads);
  for (int i = 0; i < n; ++i) compare(multi.tide(i), multi.lp(i), multi.q(i), i, "threads");
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  if (r.chance(.3)) std::reverse(perm.begin(), perm.end());
  else r.shuffle(perm);
  Batch p(n);
  for (int i = 0; i < n; ++i) { p.lon(i) = b.lon(perm[i]); p.lat(i) = b.lat(perm[i]); p.epoch(i) = b.epoch(perm[i]); p.leap(i) = b.leap(perm[i]); }
  const auto po = evaluate<T>(w.model(), p, s, random_threads(r, n));
  for (int i = 0; i < n; ++i) compare(po.tide(i), po.lp(i), po.q(i), perm[i], "order");
  for (int k = 0; k < (huge ? 200 : 3); ++k) {
    const int i = k == 0 && huge ? n - 1 : k % 2 && huge ? r.range(32760, n - 1) : r.below(n);
    Batch one(1);
    one.lon(0) = b.lon(i); one.lat(0) = b.lat(i); one.epoch(0) = b.epoch(i); one.leap(0) = b.leap(i);
    const auto oo = evaluate<T>(w.model(), one, s, random_threads(r, 1));
    compare(oo.tide(0), oo.lp(0), oo.q(0), i, "alone");
  }
  c.count(fmt("threads.%zu", threads > 7 ? size_t(99) : threads));
  c.distinct(r.u64());
}

// C03: angles are only reused for dates closer than the tolerance.
template <typename T>
static void tolerance(Rng& r, Case& c) {
  AnyWorld<T> w(r, 0);
  const int form = r.below(3), n = r.range(2, 30);
  double tol = r.chance(.2) ? 0 : r.chance(.3) ? 60 : std::exp(r.uniform(r.chance(.3) ? -7 : 0, std::log(1e5)));
  Batch b(n);
  double t = std::floor(random_epoch(r)) + (r.chance(.5) ? r.unit() : 0);
  const double step = tol > 0 ? tol * r.uniform(.1, 1.6) : 1;
  const bool same_leap = r.chance(.6);
  const int leap = r.chance(.6) ? 18 : r.chance(.5) ? 0 : r.below(65533);
  for (int i = 0; i < n; ++i) {
    w.inside(r, b.lon(i), b.lat(i));
    b.epoch(i) = t;
    switch (r.below(8)) {
      case 0: t -= step; break;
      case 1: t += tol; break;                     // at the tolerance exactly (or nearly)
      case 6: t -= tol + r.uniform(-.1, 1); break;
      case 7: t += tol + r.uniform(-.1, 1); break;
      case 2: t -= tol * r.uniform(.9, 1.1); break;
      default: t += step * r.uniform(.3, 1);
    }
    b.leap(i) = same_leap ? leap : leap + r.below(3);
  }
  if (r.chance(.25)) for (int k = r.range(1, 3); k-- > 0;) b.epoch(r.below(n)) = kNaN;
  c.note(fmt("%s form=%d n=%d tolerance=%.17g first=%.17g", w.text().c_str(), form, n, tol, b.epoch(0)));
  // Tolerances that are no duration: each date then has its own angles; or have no end.
  if (r.chance(.08)) {
    const double odd[] = {kInf, DBL_MAX, 1e308, 1e17, 1e9, -1, -kInf, -1e-9, kNaN, -0.0, 5e-324, 1e-9};
    tol = odd[r.below(12)];
    c.count(std::isnan(tol) || tol <= 0 ? "tolerance.none" : "tolerance.odd");
  }
  const size_t threads = random_threads(r, n);
  const auto got = evaluate<T>(w.model(), b, fes::Settings(formulae(form), tol), threads);
  const fes::Settings exact(formulae(form), 0), none;
  c.check(none.time_tolerance() == 0 && none.astronomic_formulae() == formulae(0) && none.excluded().empty(), "tolerance-default", "the default settings");
  int reused = 0, fresh = 0;
  for (int i = 0; i < n; ++i) {
    if (std::isnan(b.epoch(i))) {
      c.check(std::isnan(got.tide(i)), "tolerance-undefined-date", fmt("item %d has no date, and the tide %.17g", i, got.tide(i)));
      c.count("angles.undefined");
      continue;
    }
    // The dates of the batch whose angles may be in use at this point.
    std::vector<int> cand;
    for (int j = 0; j <= i; ++j)
      if (j == i || (std::abs(b.epoch(j) - b.epoch(i)) <= tol && b.leap(j) == b.leap(i))) cand.push_back(j);
    Batch p(cand.size());
    for (size_t k = 0; k < cand.size(); ++k) { p.lon(k) = b.lon(i); p.lat(k) = b.lat(i); p.epoch(k) = b.epoch(cand[k]); p.leap(k) = b.leap(i); }
    const auto ref = evaluate<T>(w.model(), p, exact, 1);
    bool ok = false;
    int which = -1;
    for (size_t k = cand.size(); k-- > 0 && !ok;) {
      ok = std::abs(got.tide(i) - ref.tide(k)) < 1e-7 && std::abs(got.lp(i) - ref.lp(k)) < 1e-7;
      which = cand[k];
    }
    c.check(ok, "tolerance", fmt("item %d at %.17g: the prediction is that of no date within %g s (%zu threads)", i, b.epoch(i), tol, threads));
    (which == i ? fresh : reused)++;
  }
  c.count("angles.reused", reused);
  c.count("angles.fresh", fresh);
  c.distinct(r.u64());
}

// C04: what is not defined is said not to be; the quality tells how much was.
template <typename T>
static void undefined(Rng& r, Case& c) {
  const bool ocean = r.chance(.7), dyadic = r.chance(.5);
  const double masked = r.chance(.3) ? .05 : r.uniform(.1, .9);
  auto ids = random_model_constituents(r);
  if (ids.size() > 12) ids.resize(12);
  if (r.chance(.03)) ids.clear();
  GridWorld<T> w(r, ids, dyadic, masked, ocean);
  const int form = r.below(3), n = r.range(1, 12);
  Batch b(n);
  std::vector<int> kind(n);
  for (int i = 0; i < n; ++i) {
    kind[i] = r.below(5);
    if (kind[i] == 0) w.outside(r, b.lon(i), b.lat(i));
    else if (kind[i] == 1 && dyadic) w.on_line(r, b.lon(i), b.lat(i));
    else w.inside(r, b.lon(i), b.lat(i));
    if (r.chance(.03)) { (r.chance(.5) ? b.lon : b.lat)(i) = r.chance(.7) ? kNaN : r.chance(.5) ? kInf : -kInf; kind[i] = 2; }
    b.epoch(i) = next_epoch(r, !i, i ? b.epoch(i - 1) : 0);
    b.leap(i) = random_leap(r);
  }
  c.note(fmt("Cartesian %s %s form=%d masked=%.2g constituents=%s lon=%.17g lat=%.17g", ocean ? "tide" : "radial", w.g.text().c_str(), form, masked, list(ids).c_str(), b.lon(0), b.lat(0)));
  const auto o = evaluate<T>(*w.model, b, fes::Settings(formulae(form)), random_threads(r, n));
  std::unique_ptr<fes::Accelerator> acc(w.model->accelerator(formulae(form), 0));
  for (int i = 0; i < n; ++i) {
    std::vector<Expected> may;
    if (std::isfinite(b.lon(i)) && std::isfinite(b.lat(i))) for (auto& cell : w.cells(b.lon(i), b.lat(i))) may.push_back(w.in_cell(cell));
    if (may.empty()) may.push_back(Expected());
    bool ok = false;
    std::string why;
    for (auto& e : may) {
      const double lpe = ocean && std::isfinite(b.lat(i)) ? ref::predict(static_cast<ref::Form>(form), b.epoch(i), b.leap(i), b.lat(i), {}, {}, ids, true).lp : 0;
      if (!e.defined) {
        const bool good = o.q(i) == fes::kUndefined && std::isnan(o.tide(i)) &&
                          (std::isfinite(b.lat(i)) || !ocean ? std::abs(o.lp(i) - lpe) < 1e-6 : true);
        ok = ok || good;
        why += fmt("undefined, long period %.17g;", lpe);
      } else {
        const auto want = ref::predict(static_cast<ref::Form>(form), b.epoch(i), b.leap(i), b.lat(i), e.values, {}, {}, ocean);
        const double tol = 1e-8 * scale_of(e.values);
        const bool good = o.q(i) == e.n && std::abs(o.tide(i) - want.h) <= tol && std::abs(o.lp(i) - want.lp) <= tol;
        ok = ok || good;
        why += fmt("quality %d tide %.17g long period %.17g;", e.n, want.h, want.lp);
      }
    }
    c.check(ok, "undefined-or-masked", fmt("lon=%.17g lat=%.17g: quality %d tide %.17g long period %.17g, expected %s", b.lon(i), b.lat(i), int(o.q(i)), o.tide(i), o.lp(i), why.c_str()));
    c.count(fmt("quality.%d", int(o.q(i))));
    // What the model itself says there.
    fes::Quality q;
    const auto& v = w.model->interpolate({b.lon(i), b.lat(i)}, q, acc.get());
    c.check(q == o.q(i), "model-quality", fmt("%d, and %d for the tide", int(q), int(o.q(i))));
    c.check(v.size() == ids.size(), "model-values", fmt("%zu", v.size()));
    if (may.size() == 1)
      for (auto& kv : v) {
        auto it = may[0].values.find(kv.first);
        const auto want = it == may[0].values.end() ? ref::cplx(kNaN, kNaN) : it->second;
        // An undefined value has no defined real part
        c.check(std::isnan(want.real()) ? std::isnan(kv.second.real()) : std::abs(kv.second - want) < 1e-8 * (1 + std::abs(want)), "model-value",
                fmt("%s: (%.17g, %.17g), expected (%.17g, %.17g)", ref::kSpec[kv.first].name, kv.second.real(), kv.second.imag(), want.real(), want.imag()));
      }
    c.distinct(bits(b.lon(i)) ^ mix(bits(b.lat(i))) ^ mix(o.q(i)));
  }
}

// A model only depends on what it holds, whatever the order in which it was
// built, cleared, declared and used.
template <typename T, typename M>
static void modified_model(Rng& r, Case& c, const M& full, const std::vector<int>& ids, const std::string& text,
                           const std::function<void(double&, double&)>& place) {
  std::map<int, fes::Vector<std::complex<T>>> data;
  for (auto& kv : full.data()) data[kv.first] = kv.second;
  const auto state = full.getstate();
  auto empty = M::setstate(fes::string_view(state.data(), state.size()));
  M& m = empty;
  m.clear();
  c.check(m.empty() && m.size() == 0 && m.identifiers().empty() && m.dynamic().empty(), "modified-clear", "a model that was cleared");
  const int form = r.below(3), n = r.range(1, 12);
  Batch b(n);
  for (int i = 0; i < n; ++i) {
    place(b.lon(i), b.lat(i));
    b.epoch(i) = next_epoch(r, !i, i ? b.epoch(i - 1) : 0);
    b.leap(i) = random_leap(r);
  }
  std::vector<int> dynamic;
  std::set<int> held;
  auto add = [&](int id) {
    if (held.count(id)) return;
    auto v = data.at(id);
    if (r.chance(.5)) m.add_constituent(C(id), std::move(v));
    else static_cast<fes::AbstractTidalModel<T>&>(m).add_constituent(std::string(ref::kSpec[id].name), std::move(v));
    held.insert(id);
  };
  auto declare = [&] { dynamic = random_subset(r, 75, r.chance(.3) ? 0 : r.chance(.5) ? .05 : .3); r.shuffle(dynamic); m.dynamic(idents(dynamic)); };
  auto excluded = r.chance(.4) ? random_subset(r, 75, .2) : std::vector<int>{};
  const fes::Settings settings(formulae(form), 0, idents(excluded));
  std::string log;
  for (int k = r.range(2, 9); k-- > 0;) {
    switch (r.below(5)) {
      case 0: declare(); log += "dynamic,"; break;
      case 1: if (r.chance(.4)) { m.clear(); held.clear(); dynamic.clear(); log += "clear,"; } break;
      case 2: evaluate<T>(m, b, settings, random_threads(r, n)); log += "predict,"; break;
      default: for (int a = r.range(1, 4); a-- > 0;) add(ids[r.below(ids.size())]); log += "add,";
    }
  }
  auto rest = ids;
  r.shuffle(rest);
  const bool before = r.chance(.5);
  if (before) declare();
  for (int id : rest) add(id);
  if (!before) declare();
  c.note(text + fmt(" form=%d constituents=%s dynamic=%s history=%s%s", form, list(ids).c_str(), list(dynamic).c_str(), log.c_str(), before ? "dynamic,add" : "add,dynamic"));
  c.check(idents(dynamic) == m.dynamic(), "modified-dynamic", fmt("%zu dynamic constituents, of %zu", m.dynamic().size(), dynamic.size()));
  c.check(m.size() == ids.size() && m.identifiers() == full.identifiers(), "modified-constituents", fmt("%zu constituents, of %zu", m.size(), ids.size()));
  auto fresh = M::setstate(fes::string_view(state.data(), state.size()));
  fresh.dynamic(idents(dynamic));
  const auto got = evaluate<T>(m, b, settings, random_threads(r, n)), want = evaluate<T>(fresh, b, settings, 1);
  for (int i = 0; i < n; ++i)
    c.check(same(got.tide(i), want.tide(i)) && same(got.lp(i), want.lp(i)) && got.q(i) == want.q(i), "modified-tide",
            fmt("item %d (%.17g %.17g %d), and (%.17g %.17g %d) when built at once", i, got.tide(i), got.lp(i), int(got.q(i)), want.tide(i), want.lp(i), int(want.q(i))));
  c.count("modified.predictions", n);
  c.distinct(r.u64());
}
template <typename T>
static void modified(Rng& r, Case& c) {
  const bool ocean = r.chance(.7);
  const auto ids = random_model_constituents(r);
  double x, y;
  switch (r.below(4)) {
    case 0: {
      LgpWorld<T, 1> w(r, ids, true, ocean, 0, 5);
      modified_model<T, fes::tidal_model::LGP1<T>>(r, c, *w.model, w.ids, "LGP1", [&](double& lon, double& lat) { w.inside(r, lon, lat, x, y); });
      break;
    }
    case 1: {
      LgpWorld<T, 2> w(r, ids, true, ocean, 0, 5);
      modified_model<T, fes::tidal_model::LGP2<T>>(r, c, *w.model, w.ids, "LGP2", [&](double& lon, double& lat) { w.inside(r, lon, lat, x, y); });
      break;
    }
    default: {
      GridWorld<T> w(r, ids, false, r.chance(.5) ? 0 : .2, ocean);
      modified_model<T, fes::tidal_model::Cartesian<T>>(r, c, *w.model, w.ids, w.g.text(), [&](double& lon, double& lat) { r.chance(.1) ? w.outside(r, lon, lat) : w.inside(r, lon, lat); });
    }
  }
}

// C04: the same on a mesh.
template <typename T, int N>
static void undefined_mesh(Rng& r, Case& c) {
  const bool ocean = r.chance(.7);
  auto ids = random_model_constituents(r);
  if (ids.size() > 12) ids.resize(12);
  const double holes = r.chance(.5) ? 0 : r.pick(std::vector<double>{.01, .05, .3, .95});
  LgpWorld<T, N> w(r, ids, false, ocean, r.pick(std::vector<double>{0, 0, 1e4, 1e5, 1e6, 1e7}), 6, holes);
  const auto& m = w.m;
  const int form = r.below(3), n = r.range(1, 12);
  Batch b(n);
  for (int i = 0; i < n; ++i) {
    double x, y;
    const int k = r.below(6);
    if (k == 0) { b.lon(i) = m.lon0 + r.uniform(-1, 1) * (m.nx + 2) * m.h * m.k; b.lat(i) = std::max(-85., std::min(85., m.lat0 + r.uniform(-1, 1) * (m.ny + 2) * m.h)); }
    else if (k == 1) {
      std::array<double, 3> corner = {0, 0, 0};
      corner[r.below(3)] = 1;
      m.at(r.below(m.triangles.size()), corner[0], corner[1], corner[2], x, y);
      b.lon(i) = m.full_lon(x);
      b.lat(i) = y;
    } else w.inside(r, b.lon(i), b.lat(i), x, y);
    if (r.chance(.03)) (r.chance(.5) ? b.lon : b.lat)(i) = r.chance(.7) ? kNaN : r.chance(.5) ? kInf : -kInf;
    b.epoch(i) = next_epoch(r, !i, i ? b.epoch(i - 1) : 0);
    b.leap(i) = random_leap(r);
  }
  c.note(fmt("LGP%d<%s> %s %s form=%d holes=%g max_distance=%g constituents=%s", N, sizeof(T) == 4 ? "float" : "double", ocean ? "tide" : "radial", m.text().c_str(), form, holes, w.max_distance, list(w.ids).c_str()));
  const auto o = evaluate<T>(*w.model, b, fes::Settings(formulae(form)), random_threads(r, n));
  const fes::AbstractTidalModel<T>& model = *w.model;
  std::unique_ptr<fes::Accelerator> acc(model.accelerator(formulae(form), 0));
  const double least = 1e-6;
  for (int i = 0; i < n; ++i) {
    const std::string where = fmt("lon=%.17g lat=%.17g: quality %d tide %.17g long period %.17g", b.lon(i), b.lat(i), int(o.q(i)), o.tide(i), o.lp(i));
    const bool finite = std::isfinite(b.lon(i)) && std::isfinite(b.lat(i));
    // Where the index finds it (the search is judged elsewhere).
    fes::mesh::SelectedTriangle s;
    if (finite) s = w.model->index()->search({b.lon(i), b.lat(i)}, w.max_distance);
    const double lpe = ocean && std::isfinite(b.lat(i)) ? ref::predict(static_cast<ref::Form>(form), b.epoch(i), b.leap(i), b.lat(i), {}, {}, w.ids, true).lp : 0;
    // On a side or a vertex, the position belongs to several triangles, which do not share their values.
    std::vector<std::pair<int, std::array<double, 3>>> may;
    const int vertex = s.index < 0 ? -1 : s.triangle.is_vertex(s.point);
    if (s.index >= 0) {
      for (int t = 0; t < int(m.triangles.size()); ++t) {
        if (t != s.index && !s.inside) continue;
        const auto& tr = m.triangles[t];
        auto corner = [&](int k) { return fes::geometry::Point(m.full_lon(m.vertices[tr[k]][0]), m.vertices[tr[k]][1]); };
        double x, y;
        std::tie(x, y) = t == s.index ? s.triangle.reference_right_angled(s.point) : fes::geometry::Triangle(corner(0), corner(1), corner(2)).reference_right_angled(s.point);
        const std::array<double, 3> bb = {1 - x - y, x, y};
        if (t == s.index || std::min({bb[0], bb[1], bb[2]}) > -least) may.push_back({t, bb});
      }
    }
    bool ok = false, defined = false;
    std::string why;
    for (auto& one : may) {
      Expected e;
      e.defined = true;
      bool edge = false, touching = false;   // a weight may be null; a node of the triangle is undefined
      for (double v : one.second) edge = edge || std::abs(v) < least;
      int corner = -1;
      if (vertex >= 0) for (int k = 0; k < 3; ++k) if (one.second[k] > 1 - least) corner = k;
      for (int id : w.ids) {
        const auto& d = w.data.at(id);
        for (int q = 0; q < N * 3; ++q) {
          const auto& z = d[w.codes[one.first][q]];
          touching = touching || std::isnan(z.real()) || std::isnan(z.imag());
        }
        const ref::cplx v = corner >= 0 ? ref::cplx(d[w.codes[one.first][corner * N]]) : w.value(id, one.first, one.second);
        if (std::isnan(v.real()) || std::isnan(v.imag())) e.defined = false;
        e.values[id] = v;
      }
      if (!e.defined || (edge && corner < 0 && touching)) {
        ok = ok || (o.q(i) == fes::kUndefined && std::isnan(o.tide(i)) && std::abs(o.lp(i) - lpe) < 1e-6);
        why += " undefined;";
      }
      if (e.defined) {
        const auto want = ref::predict(static_cast<ref::Form>(form), b.epoch(i), b.leap(i), b.lat(i), e.values, {}, {}, ocean);
        const double tol = 1e-6 * scale_of(e.values) + (vertex >= 0 || may.size() > 1 ? 1e-3 : 0);
        const bool told = s.inside ? o.q(i) == fes::kInterpolated : o.q(i) >= fes::kExtrapolated1 && o.q(i) <= fes::kExtrapolated3;
        ok = ok || (told && std::abs(o.tide(i) - want.h) <= tol && std::abs(o.lp(i) - want.lp) <= tol);
        why += fmt(" %s, tide %.17g long period %.17g;", s.inside ? "interpolated" : "extrapolated", want.h, want.lp);
        defined = true;
      }
    }
    if (may.empty()) {
      ok = o.q(i) == fes::kUndefined && std::isnan(o.tide(i)) && (std::isfinite(b.lat(i)) || !ocean ? std::abs(o.lp(i) - lpe) < 1e-6 : true);
      why = " undefined";
    }
    c.check(ok, "undefined-mesh", where + ", expected" + why);
    fes::Quality q;
    const auto& v = model.interpolate({b.lon(i), b.lat(i)}, q, acc.get());
    if (may.size() <= 1) c.check(q == o.q(i), "model-quality-mesh", fmt("%d, and %d for the tide", int(q), int(o.q(i))));
    c.check(v.size() == w.ids.size(), "model-values-mesh", fmt("%zu", v.size()));
    c.count(s.index < 0 ? "mesh.nowhere" : !defined ? "mesh.undefined" : s.inside ? vertex >= 0 ? "mesh.inside-vertex" : "mesh.inside" : vertex >= 0 ? "mesh.extrapolated-vertex" : "mesh.extrapolated-edge");
    c.distinct(bits(b.lon(i)) ^ mix(bits(b.epoch(i))));
  }
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  H.run("predict", 6000, 250000, [](Rng& r, Case& c) { any_model(r, c, kPlain); });
  H.run("lists", 5000, 200000, [](Rng& r, Case& c) { any_model(r, c, kLists); });
  // More than a 16-bit index counts.
  H.run("huge", 2, 30, [](Rng& r, Case& c) { batch<double>(r, c, true); c.count("batch.huge"); });
  H.run("batch", 2500, 60000, [](Rng& r, Case& c) { r.chance(.7) ? batch<double>(r, c) : batch<float>(r, c); });
  H.run("tolerance", 2000, 40000, [](Rng& r, Case& c) { r.chance(.7) ? tolerance<double>(r, c) : tolerance<float>(r, c); });
  H.run("undefined", 5000, 150000, [](Rng& r, Case& c) { r.chance(.7) ? undefined<double>(r, c) : undefined<float>(r, c); });
  H.run("undefined-mesh", 4000, 100000, [](Rng& r, Case& c) {
    switch (r.below(4)) {
      case 0: undefined_mesh<double, 1>(r, c); break;
      case 1: undefined_mesh<float, 1>(r, c); break;
      case 2: undefined_mesh<double, 2>(r, c); break;
      default: undefined_mesh<float, 2>(r, c);
    }
  });
  H.run("modified", 2500, 60000, [](Rng& r, Case& c) { r.chance(.7) ? modified<double>(r, c) : modified<float>(r, c); });
  return H.finish();
}
