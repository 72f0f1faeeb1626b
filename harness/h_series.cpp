// Predictions from harmonic coefficients, and harmonic analysis.
#include <Eigen/Dense>
#include <thread>

#include "fesref.hpp"

using namespace vf;
using fes::angle::Astronomic;
using fes::wave::Table;
using Leap = fes::Vector<uint16_t>;
static const char* kForm[] = {"order1", "order3", "meeus"};

static std::vector<int> some_constituents(Rng& r) {
  auto v = random_subset(r, 75, r.pick(std::vector<double>{.05, .2, .6, 1}));
  if (v.empty()) v.push_back(r.below(75));
  return v;
}

static Table make_table(Rng& r, const std::vector<int>& ids) {
  auto order = ids;
  r.shuffle(order);
  std::vector<std::string> names;
  for (int i : order) names.push_back(ref::kSpec[i].name);
  if (ids.size() == 75 && r.chance(.5)) return Table();
  Table t(names);
  if (r.chance(.3)) { Table u(t); t = u; }
  // What a table was used for before is of no consequence.
  if (r.chance(.5)) {
    Astronomic a(formulae(r.below(3)), random_epoch(r), r.below(40));
    t.compute_nodal_corrections(a);
    for (const auto& w : t) w->tide({r.gauss(), r.gauss()});
  }
  return t;
}

// Everything that can be read from the waves of a table.
static std::vector<uint64_t> state_of(const Table& t) {
  std::vector<uint64_t> v;
  for (const auto& w : t) for (double x : {w->f(), w->u(), w->v(), w->tide().real(), w->tide().imag(), w->freq(), double(w->dynamic()), double(w->admittance()), double(w->ident())}) v.push_back(bits(x));
  return v;
}

static bool same_bits(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.size(); ++i) if (bits(a.data()[i]) != bits(b.data()[i])) return false;
  return true;
}

static void series(Harness& H) {
  H.run("series", 3000, 100000, [](Rng& r, Case& c) {
    const auto ids = some_constituents(r);
    const int nw = ids.size();
    const bool many = nw <= 6 && r.chance(.02);   // long series
    const int form = r.below(3), n = many ? r.range(200, 3000) : r.pick(std::vector<int>{0, 1, 2, 5, 20});
    if (many) c.count("series.long");
    Table t = make_table(r, ids);
    const auto before = state_of(t);
    Eigen::VectorXd epoch(n);
    Leap leap(n);
    for (int i = 0; i < n; ++i) { epoch(i) = next_epoch(r, !i, i ? epoch(i - 1) : 0); leap(i) = r.below(45); }
    Eigen::VectorXcd wave(nw);
    for (int i = 0; i < nw; ++i) wave(i) = r.chance(.1) ? ref::cplx(0, 0) : ref::cplx(r.gauss() * 30, r.gauss() * 30);
    c.note(fmt("%d constituents (the first %s), %d dates, %s", nw, ref::kSpec[ids[0]].name, n, kForm[form]));
    if (n) c.note(fmt("epoch=%.17g leap=%u", epoch(0), leap(0)));
    double scale = 1;
    for (int i = 0; i < nw; ++i) scale += std::abs(wave(i)) * 3;
    const auto tide = t.tide_from_tide_series(epoch, leap, wave, formulae(form));
    if (!c.check(tide.size() == n, "series-size", fmt("%ld", long(tide.size())))) return;
    Eigen::MatrixXd f, vu;
    std::tie(f, vu) = t.compute_nodal_modulations(epoch, leap, formulae(form));
    if (!c.check(f.rows() == nw && vu.rows() == nw && f.cols() == n && vu.cols() == n, "modulations-size", fmt("%ld %ld", long(f.rows()), long(f.cols())))) return;
    for (int i = 0; i < n; ++i) {
      const auto a = ref::angles(static_cast<ref::Form>(form), epoch(i), leap(i));
      const Astronomic code(formulae(form), epoch(i), leap(i));
      const auto d = from_code(code);
      double sum = 0, hand = 0;
      for (int k = 0; k < nw; ++k) {
        const auto w = ref::nodal(ids[k], d), x = ref::nodal(ids[k], a);
        c.near(f(k, i), w.f, 1e-9 * (1 + std::abs(w.f)), "modulations-f", ref::kSpec[ids[k]].name);
        c.check(ref::ang_diff(vu(k, i), w.vu()) < 1e-9, "modulations-vu", fmt("%s: %.17g, expected %.17g", ref::kSpec[ids[k]].name, vu(k, i), w.vu()));
        c.check(std::abs(f(k, i) - x.f) < 1e-6 * (1 + x.f) && ref::ang_diff(vu(k, i), x.vu()) < 1e-6, "modulations-angles", fmt("%s: %.17g %.17g, expected %.17g %.17g", ref::kSpec[ids[k]].name, f(k, i), vu(k, i), x.f, x.vu()));
        sum += x.f * (wave(k).real() * std::cos(x.vu()) + wave(k).imag() * std::sin(x.vu()));
        hand += f(k, i) * (wave(k).real() * std::cos(vu(k, i)) + wave(k).imag() * std::sin(vu(k, i)));
      }
      c.near(tide(i), hand, 1e-12 * scale * nw, "series-modulations", "series, and sum with the modulations");
      c.near(tide(i), sum, 1e-6 * scale, "series-sum", "series");
      // Alone.
      const Eigen::VectorXd one = t.tide_from_tide_series(epoch.segment(i, 1), leap.segment(i, 1), wave, formulae(form));
      c.check(bits(one(0)) == bits(tide(i)), "series-history", fmt("date %d: %.17g, alone %.17g", i, tide(i), one(0)));
      const auto m1 = t.compute_nodal_modulations(epoch.segment(i, 1), leap.segment(i, 1), formulae(form));
      c.check(same_bits(std::get<0>(m1), f.col(i)) && same_bits(std::get<1>(m1), vu.col(i)), "modulations-history", fmt("date %d", i));
    }
    // Maps at one of the dates: the waves of each position sum to the same tide.
    if (n) {
      const int i = r.below(n), m = nw <= 10 && r.chance(.03) ? r.range(200, 6000) : r.pick(std::vector<int>{0, 1, 2, 3, 9, 33});
      if (m > 100) c.count("mapping.large");
      Eigen::MatrixXcd map(nw, m);
      for (int j = 0; j < m; ++j) for (int k = 0; k < nw; ++k) map(k, j) = j == 0 ? wave(k) : ref::cplx(r.gauss() * 30, r.gauss() * 30);
      if (m > 1 && r.chance(.3)) map(r.below(nw), m - 1) = ref::cplx(std::numeric_limits<double>::quiet_NaN(), 1);
      // The heap is filled with something else than zeros.
      { std::vector<double> dirt(m * nw + 16, 1e9 + i); asm volatile("" : : "r"(dirt.data()) : "memory"); }
      const size_t threads = r.pick(std::vector<size_t>{0, 1, 1, 2, 3, 8, size_t(m) + 3});
      Eigen::MatrixXd got;
      Eigen::MatrixXcd tr = map.transpose();
      const int layout = r.below(3);
      if (layout == 0) {
        got = t.tide_from_mapping(epoch(i), leap(i), map, formulae(form), threads);
      } else if (layout == 1) {   // seen through the other layout
        Eigen::Map<const Eigen::MatrixXcd, 0, fes::DynamicStride> v(tr.data(), nw, m, fes::DynamicStride(1, m ? m : 1));
        got = t.tide_from_mapping(epoch(i), leap(i), v, formulae(form), threads);
      } else {                    // one value out of two
        Eigen::MatrixXcd wide(2 * nw, m + 1);
        wide.setConstant(ref::cplx(1e30, -1e30));
        for (int j = 0; j < m; ++j) for (int k = 0; k < nw; ++k) wide(2 * k, j) = map(k, j);
        Eigen::Map<const Eigen::MatrixXcd, 0, fes::DynamicStride> v(wide.data(), nw, m, fes::DynamicStride(2 * nw, 2));
        got = t.tide_from_mapping(epoch(i), leap(i), v, formulae(form), threads);
      }
      if (c.check(got.rows() == m && got.cols() == nw, "mapping-size", fmt("%ld x %ld", long(got.rows()), long(got.cols())))) {
        for (int j = 0; j < m; ++j) {
          double sum = 0;
          for (int k = 0; k < nw; ++k) {
            const double want = f(k, i) * (map(k, j).real() * std::cos(vu(k, i)) + map(k, j).imag() * std::sin(vu(k, i)));
            c.near(got(j, k), want, 1e-12 * scale, "mapping-wave", fmt("%s at position %d", ref::kSpec[ids[k]].name, j));
            sum += got(j, k);
          }
          if (j == 0) c.near(sum, tide(i), 1e-12 * scale * nw, "mapping-series", "sum of the map, and series");
        }
        const auto again = t.tide_from_mapping(epoch(i), leap(i), map, formulae(form), r.pick(std::vector<size_t>{1, 2, 5}));
        c.check(same_bits(again, got), "mapping-threads", "another number of threads gives another map");
        c.count("mapping.values", m * nw);
      }
      if (form == 1) {
        c.check(same_bits(t.tide_from_mapping(epoch(i), leap(i), map), t.tide_from_mapping(epoch(i), leap(i), map, formulae(1), 1)), "mapping-default", "the default formulae are not those documented");
        c.check(same_bits(t.tide_from_tide_series(epoch, leap, wave), tide), "series-default", "the default formulae are not those documented");
      }
      c.distinct(bits(epoch(i)) ^ mix(nw * 100 + m));
    }
    // Any order of the dates.
    if (n > 1) {
      std::vector<int> p(n);
      for (int i = 0; i < n; ++i) p[i] = i;
      r.shuffle(p);
      Eigen::VectorXd e2(n);
      Leap l2(n);
      for (int i = 0; i < n; ++i) { e2(i) = epoch(p[i]); l2(i) = leap(p[i]); }
      const auto t2 = t.tide_from_tide_series(e2, l2, wave, formulae(form));
      for (int i = 0; i < n; ++i) c.check(bits(t2(i)) == bits(tide(p[i])), "series-order", fmt("date %d", p[i]));
    }
    c.check(state_of(t) == before, "series-const", "the table is modified");
    c.count("series.dates", n);
    c.count(std::string("series.") + kForm[form]);
  });
}

// More dates or positions than a 16-bit index counts.
static void huge(Harness& H) {
  H.run("huge", 8, 80, [](Rng& r, Case& c) {
    std::vector<int> ids = {r.below(75), r.below(75)};
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    const int nw = ids.size(), form = r.below(3), n = r.range(65530, 80000), m = r.range(65530, 80000);
    std::vector<std::string> names;
    for (int i : ids) names.push_back(ref::kSpec[i].name);
    Table t(names);
    Eigen::VectorXd epoch(n);
    Leap leap(n);
    const double start = random_epoch(r), step = r.pick(std::vector<double>{.5, 60, 3600});
    for (int i = 0; i < n; ++i) { epoch(i) = start + i * step; leap(i) = i > n / 2 ? 18 : 17; }
    Eigen::VectorXcd wave(nw);
    for (int i = 0; i < nw; ++i) wave(i) = ref::cplx(r.gauss() * 30, r.gauss() * 30);
    double scale = 1;
    for (int i = 0; i < nw; ++i) scale += std::abs(wave(i)) * 3;
    c.note(fmt("%s, %d dates from %.17g every %g s, %d positions, %s", names[0].c_str(), n, start, step, m, kForm[form]));
    const auto tide = t.tide_from_tide_series(epoch, leap, wave, formulae(form));
    if (!c.check(tide.size() == n, "series-size", fmt("%ld", long(tide.size())))) return;
    Eigen::MatrixXd f, vu;
    std::tie(f, vu) = t.compute_nodal_modulations(epoch, leap, formulae(form));
    if (!c.check(f.rows() == nw && vu.rows() == nw && f.cols() == n && vu.cols() == n, "modulations-size", fmt("%ld %ld", long(f.rows()), long(f.cols())))) return;
    for (int i = 0; i < n; ++i) {
      double hand = 0;
      for (int k = 0; k < nw; ++k) hand += f(k, i) * (wave(k).real() * std::cos(vu(k, i)) + wave(k).imag() * std::sin(vu(k, i)));
      c.near(tide(i), hand, 1e-12 * scale * nw, "series-modulations", fmt("date %d of %d", i, n));
      if (i % 97 && i < n - 3 && i != 65535 && i != 65536) continue;
      const auto a = ref::angles(static_cast<ref::Form>(form), epoch(i), leap(i));
      for (int k = 0; k < nw; ++k) {
        const auto x = ref::nodal(ids[k], a);
        c.check(std::abs(f(k, i) - x.f) < 1e-6 * (1 + x.f) && ref::ang_diff(vu(k, i), x.vu()) < 1e-6, "modulations-angles", fmt("%s, date %d: %.17g %.17g, expected %.17g %.17g", names[k].c_str(), i, f(k, i), vu(k, i), x.f, x.vu()));
      }
    }
    const int i = r.below(n);
    Eigen::MatrixXcd map(nw, m);
    for (int j = 0; j < m; ++j) for (int k = 0; k < nw; ++k) map(k, j) = ref::cplx(r.gauss() * 30, r.gauss() * 30);
    const auto got = t.tide_from_mapping(epoch(i), leap(i), map, formulae(form), r.pick(std::vector<size_t>{0, 1, 2, 5}));
    if (!c.check(got.rows() == m && got.cols() == nw, "mapping-size", fmt("%ld x %ld", long(got.rows()), long(got.cols())))) return;
    for (int j = 0; j < m; ++j)
      for (int k = 0; k < nw; ++k)
        c.near(got(j, k), f(k, i) * (map(k, j).real() * std::cos(vu(k, i)) + map(k, j).imag() * std::sin(vu(k, i))), 1e-10 * scale, "mapping-wave", fmt("%s at position %d of %d", names[k].c_str(), j, m));
    c.count("huge.dates", n);
    c.count("huge.positions", m);
    c.distinct(bits(start) ^ mix(n));
  });
  H.run("huge_analysis", 4, 40, [](Rng& r, Case& c) {
    const int n = r.range(65530, 80000), form = r.below(3), nw = 2;
    const std::vector<std::string> names = {"M2", "K1"};
    Table t(names);
    Eigen::VectorXd epoch(n);
    Leap leap(n);
    const double start = random_epoch(r);
    for (int i = 0; i < n; ++i) { epoch(i) = start + i * 600.; leap(i) = 18; }
    Eigen::MatrixXd f, vu;
    std::tie(f, vu) = t.compute_nodal_modulations(epoch, leap, formulae(form));
    if (!c.check(f.rows() == nw && f.cols() == n && vu.rows() == nw && vu.cols() == n, "modulations-size", fmt("%ld %ld", long(f.rows()), long(f.cols())))) return;
    const int ids[] = {ref::ident("M2") , ref::ident("K1")};
    Eigen::VectorXcd truth(nw);
    for (int k = 0; k < nw; ++k) truth(k) = ref::cplx(r.gauss() * 10, r.gauss() * 10);
    Eigen::VectorXd h(n);
    for (int i = 0; i < n; ++i) {
      h(i) = 0;
      const auto a = ref::angles(static_cast<ref::Form>(form), epoch(i), leap(i));
      int row[2] = {0, 1};
      if (t[0]->name() != "M2") std::swap(row[0], row[1]);
      for (int k = 0; k < nw; ++k) {
        const auto x = ref::nodal(ids[k], a);
        h(i) += x.f * (truth(row[k]).real() * std::cos(x.vu()) + truth(row[k]).imag() * std::sin(x.vu()));
      }
    }
    c.note(fmt("%d samples from %.17g, %s", n, start, kForm[form]));
    const auto got = Table::harmonic_analysis(h, f, vu);
    if (!c.check(got.size() == nw, "analysis-size", fmt("%ld", long(got.size())))) return;
    for (int k = 0; k < nw; ++k) c.check(std::abs(got(k) - truth(k)) < 1e-4, "analysis-recovery", fmt("%d: (%.17g, %.17g), expected (%.17g, %.17g)", k, got(k).real(), got(k).imag(), truth(k).real(), truth(k).imag()));
    // An impulse anywhere counts.
    for (int q = 0; q < 3; ++q) {
      const int i = q == 0 ? n - 1 : r.below(n);
      Eigen::VectorXd pulse = h;
      pulse(i) += 1e6;
      const auto gp = Table::harmonic_analysis(pulse, f, vu);
      double moved = 0;
      for (int k = 0; k < nw; ++k) moved += std::abs(gp(k) - got(k));
      c.check(moved > 1 && moved < 1e4, "analysis-impulse", fmt("sample %d of %d moves the constituents by %g", i, n, moved));
    }
    c.count("huge.samples", n);
    c.distinct(bits(start) ^ mix(n));
  });
}

// A set of constituents which a series of this duration (hours) separates.
static std::vector<int> separable(Rng& r, double hours, double cycles, int most) {
  std::vector<int> all, out;
  for (int i = 0; i < 75; ++i) all.push_back(i);
  r.shuffle(all);
  for (int i : all) {
    bool ok = ref::speed(i) * hours >= 360 * cycles;
    for (int j : out) ok = ok && std::abs(ref::speed(i) - ref::speed(j)) * hours >= 360 * cycles;
    if (ok && int(out.size()) < most) out.push_back(i);
  }
  std::sort(out.begin(), out.end());
  return out;
}

static void analysis(Harness& H) {
  H.run("analysis", 1200, 30000, [](Rng& r, Case& c) {
    const double days = r.pick(std::vector<double>{3, 15, 35, 200, 400, 2000});
    const auto ids = separable(r, days * 24, r.uniform(1.1, 3), r.pick(std::vector<int>{1, 3, 10, 75}));
    if (ids.empty()) return;
    const int nw = ids.size(), form = r.below(3);
    const bool many = nw <= 8 && r.chance(.12);   // long series
    const int n = many ? int(std::exp(r.uniform(std::log(500), std::log(12000)))) : r.range(6, 20) * nw + 40;
    if (n > 1000) c.count("analysis.long");
    std::vector<std::string> names;
    for (int i : ids) names.push_back(ref::kSpec[i].name);
    Table t(names);
    Eigen::VectorXd epoch(n);
    Leap leap(n);
    const double start = r.uniform(-30 * 365.25, 60 * 365.25) * 86400;
    const int sampling = r.below(3);
    for (int i = 0; i < n; ++i) {
      const double x = sampling == 0 ? double(i) / (n - 1) : sampling == 1 ? r.unit() : (i + r.uniform(-.5, .5) + (i > n / 3 ? n / 6. : 0)) / (n - 1 + n / 6.);
      epoch(i) = start + x * days * 86400;
      leap(i) = 37;
    }
    Eigen::MatrixXd f, vu;
    std::tie(f, vu) = t.compute_nodal_modulations(epoch, leap, formulae(form));
    Eigen::MatrixXd A(n, 2 * nw);
    for (int k = 0; k < nw; ++k)
      for (int i = 0; i < n; ++i) { A(i, 2 * k) = f(k, i) * std::cos(vu(k, i)); A(i, 2 * k + 1) = f(k, i) * std::sin(vu(k, i)); }
    Eigen::VectorXcd truth(nw);
    Eigen::VectorXd x(2 * nw);
    double size = 1;
    for (int k = 0; k < nw; ++k) {
      truth(k) = ref::cplx(r.gauss(), r.gauss()) * std::pow(10, r.uniform(-1, 2));
      x(2 * k) = truth(k).real();
      x(2 * k + 1) = truth(k).imag();
      size += std::abs(truth(k));
    }
    const Eigen::VectorXd h = A * x;
    // Series which do not separate their constituents after all are not judged.
    const Eigen::MatrixXd gram = A.transpose() * A;
    const auto ev = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(gram, Eigen::EigenvaluesOnly).eigenvalues();
    const double cond = ev(0) > 0 ? ev(2 * nw - 1) / ev(0) : 1e300;
    c.note(fmt("%d constituents (the first %s) in %g days, %d samples (%s), %s, start=%.17g, condition %.3g", nw, ref::kSpec[ids[0]].name, days, n,
               sampling == 0 ? "regular" : sampling == 1 ? "random" : "jittered with a gap", kForm[form], start, cond));
    // What separates them is their published frequency, not what the modulations returned tell.
    const bool judge = cond < 1e5;
    Eigen::MatrixXd R;
    if (!judge || (cond < 1e3 && nw * n < 4000)) {
      R.resize(n, 2 * nw);
      for (int i = 0; i < n; ++i) {
        const auto g = ref::angles(static_cast<ref::Form>(form), epoch(i), leap(i));
        for (int k = 0; k < nw; ++k) {
          const auto w = ref::nodal(ids[k], g);
          R(i, 2 * k) = w.f * std::cos(w.vu());
          R(i, 2 * k + 1) = w.f * std::sin(w.vu());
        }
      }
    }
    if (!judge) {
      c.count("analysis.ill-conditioned");
      const Eigen::MatrixXd rg = R.transpose() * R;
      const auto re = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(rg, Eigen::EigenvaluesOnly).eigenvalues();
      const double rc = re(0) > 0 ? re(2 * nw - 1) / re(0) : 1e300;
      c.check(!(rc < 4e4), "analysis-separation", fmt("the modulations do not tell the constituents apart (condition %.3g in place of %.3g)", cond, rc));
      return;
    }
    if (R.size()) {
      const auto gr = Table::harmonic_analysis((R * x).eval(), f, vu);
      for (int k = 0; k < nw && gr.size() == nw; ++k)
        c.check(std::abs(gr(k) - truth(k)) <= size * 1e-5 * std::sqrt(cond), "analysis-reference", fmt("%s: (%.17g, %.17g) instead of (%.17g, %.17g)", names[k].c_str(), gr(k).real(), gr(k).imag(), truth(k).real(), truth(k).imag()));
      c.count("analysis.reference-signals");
    }
    const double tol = size * (1e-11 + 1e-14 * cond * nw);
    const auto got = Table::harmonic_analysis(h, f, vu);
    if (!c.check(got.size() == nw, "analysis-size", fmt("%ld", long(got.size())))) return;
    for (int k = 0; k < nw; ++k)
      c.check(std::abs(got(k) - truth(k)) <= tol, "analysis-recovery", fmt("%s: (%.17g, %.17g), expected (%.17g, %.17g), tolerance %g", names[k].c_str(), got(k).real(), got(k).imag(), truth(k).real(), truth(k).imag(), tol));
    const auto back = t.tide_from_tide_series(epoch, leap, got, formulae(form));
    for (int i = 0; i < n; ++i) c.near(back(i), h(i), 3 * tol * nw, "analysis-prediction", fmt("sample %d", i));
    // With noise: the least squares solution leaves a residual orthogonal to the waves.
    Eigen::VectorXd noise(n);
    for (int i = 0; i < n; ++i) noise(i) = r.gauss() * 10;
    // Spikes, a mean and holes filled with zeros are data like others.
    const int kind = r.below(4);
    double most = 40;
    if (kind == 1) for (int i = r.range(1, 3); i > 0; --i) most = std::max(most, std::abs(noise(r.below(n)) = r.gauss() * std::pow(10, r.uniform(1, 5))));
    if (kind == 2) noise.array() += (most = std::pow(10, r.uniform(1, 4)));
    if (kind == 3) for (int i = r.below(n), m = std::min(n, i + r.range(1, n / 2)); i < m; ++i) noise(i) = -h(i);
    size += most;
    const double wide = size * (1e-11 + 1e-14 * cond * nw);
    const Eigen::VectorXd noisy = h + noise;
    const auto gn = Table::harmonic_analysis(noisy, f, vu);
    Eigen::VectorXd y(2 * nw);
    for (int k = 0; k < nw; ++k) { y(2 * k) = gn(k).real(); y(2 * k + 1) = gn(k).imag(); }
    const Eigen::VectorXd left = A.transpose() * (noisy - A * y);
    const double ntol = size * n * (1e-11 + 1e-15 * cond * nw);
    for (int k = 0; k < 2 * nw; ++k) c.near(left(k), 0, ntol, "analysis-least-squares", fmt("residual along %s", names[k / 2].c_str()));
    // Linear.
    const double a = r.gauss(), b = r.gauss();
    const auto go = Table::harmonic_analysis(noise, f, vu), gl = Table::harmonic_analysis((a * h + b * noise).eval(), f, vu);
    for (int k = 0; k < nw; ++k) c.check(std::abs(gl(k) - (a * got(k) + b * go(k))) <= wide * (1 + std::abs(a) + std::abs(b)) * 50, "analysis-linear", names[k]);
    // Whatever the unit of the data.
    const double unit = std::pow(10, r.range(-12, 12));
    const auto gu = Table::harmonic_analysis((unit * noisy).eval(), f, vu);
    for (int k = 0; k < nw; ++k) c.check(std::abs(gu(k) / unit - gn(k)) <= wide * 50, "analysis-unit", fmt("%s in a unit of %g", names[k].c_str(), unit));
    c.count(fmt("analysis.noise-%d", kind));
    // Any order of the samples, and of the constituents; any layout.
    std::vector<int> p(n), q(nw);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int k = 0; k < nw; ++k) q[k] = k;
    r.shuffle(p);
    r.shuffle(q);
    Eigen::VectorXd h2(n);
    Eigen::Matrix<double, -1, -1, Eigen::RowMajor> f2(nw, n), vu2(nw, n);
    for (int i = 0; i < n; ++i) { h2(i) = noisy(p[i]); for (int k = 0; k < nw; ++k) { f2(k, i) = f(q[k], p[i]); vu2(k, i) = vu(q[k], p[i]) + 2 * ref::kPi * r.range(-1, 1); } }
    Eigen::Map<const Eigen::MatrixXd, 0, fes::DynamicStride> fv(f2.data(), nw, n, fes::DynamicStride(1, n)), vv(vu2.data(), nw, n, fes::DynamicStride(1, n));
    const auto gp = Table::harmonic_analysis(h2, fv, vv);
    for (int k = 0; k < nw; ++k) c.check(std::abs(gp(k) - gn(q[k])) <= wide * 50, "analysis-order", fmt("%s: %.17g %.17g, expected %.17g %.17g", names[q[k]].c_str(), gp(k).real(), gp(k).imag(), gn(q[k]).real(), gn(q[k]).imag()));
    // Undefined data.
    Eigen::VectorXd hole = noisy;
    hole(r.below(n)) = std::numeric_limits<double>::quiet_NaN();
    const auto gh = Table::harmonic_analysis(hole, f, vu);
    bool nan = gh.size() == nw;
    for (Eigen::Index k = 0; k < gh.size(); ++k) nan = nan && std::isnan(gh(k).real()) && std::isnan(gh(k).imag());
    c.check(nan, "analysis-undefined", "undefined data give defined constituents");
    c.count("analysis.constituents", nw);
    c.count(std::string("analysis.sampling-") + (sampling == 0 ? "regular" : sampling == 1 ? "random" : "gap"));
    c.distinct(bits(start) ^ mix(nw) ^ mix(n));
  });
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  series(H);
  huge(H);
  analysis(H);
  return H.finish();
}
