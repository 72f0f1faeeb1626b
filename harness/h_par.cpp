// The parallel loop, and objects shared between threads.
#include <dlfcn.h>
#include <pthread.h>

#include <chrono>
#include <mutex>
#include <system_error>
#include <thread>

#include "fes/detail/thread.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "models.hpp"

using namespace vf;

// ---------------------------------------------------------------------------
// Faults: the n-th thread started from now on cannot be.
static std::atomic<long> g_fail_at{-1};
static std::atomic<long> g_started{0};
static std::atomic<long> g_refused{0};

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static fn next = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_create"));
  const long at = g_fail_at.load();
  if (at >= 0 && g_started.load() >= at) { ++g_refused; return EAGAIN; }
  ++g_started;
  return next(t, a, f, arg);
}

static void pause_some(uint64_t& state, double p) {
  state = mix(state);
  const double u = (state >> 11) * 1.1102230246251565e-16;
  if (u > p) return;
  if (state & 1) std::this_thread::yield();
  else std::this_thread::sleep_for(std::chrono::microseconds(state >> 56));
}

struct Thrown { long start; };

struct Log {
  std::vector<std::atomic<int>> visits;
  std::atomic<int> calls{0}, active{0}, peak{0}, threw{0}, other_thread{0}, bad{0}, ended{0};
  std::thread::id caller = std::this_thread::get_id();
  explicit Log(size_t n) : visits(n) { for (auto& v : visits) v = 0; }
};

static size_t loop_size(Rng& r) {
  if (r.chance(.02)) return r.below(r.chance(.5) ? 5000 : 70000);
  switch (r.below(5)) {
    case 0: return r.below(4);
    case 1: return r.below(20);
    case 2: return r.below(300);
    default: return r.below(40);
  }
}
static size_t loop_threads_any(Rng& r, size_t n) {
  switch (r.below(7)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return n;
    case 3: return n + 1 + r.below(4);
    case 4: return 2;
    case 5: if (r.chance(.05)) return 30 + r.below(270);  // fall through
    default: return 1 + r.below(12);
  }
}
static size_t loop_threads(Rng& r, size_t n) { return std::min<size_t>(loop_threads_any(r, n), 300); }

// C11: every index once, whatever the numbers of indices and threads.
static void once(Rng& r, Case& c) {
  const size_t n = loop_size(r), threads = loop_threads(r, n);
  const double delays = r.chance(.5) ? 0 : .3;
  const uint64_t salt = r.u64();
  c.note(fmt("size=%zu threads=%zu", n, threads));
  Log log(n);
  auto work = [&](const int64_t start, const int64_t end) {
    const int active = ++log.active;
    for (int peak = log.peak; peak < active && !log.peak.compare_exchange_weak(peak, active);) {}
    ++log.calls;
    if (std::this_thread::get_id() != log.caller) ++log.other_thread;
    uint64_t s = salt ^ start;
    pause_some(s, delays);
    if (start < 0 || end > int64_t(n) || start > end) ++log.bad;
    for (int64_t i = std::max<int64_t>(0, start); i < std::min<int64_t>(end, n); ++i) { ++log.visits[i]; if (delays > 0 && i % 8 == 0) pause_some(s, delays); }
    ++log.ended;
    --log.active;
  };
  const long before = g_started;
  fes::detail::parallel_for(work, n, threads);
  const long started = g_started - before;
  c.check(log.active == 0 && log.ended == log.calls, "loop-returns-early", fmt("%d parts still at work", log.active.load()));
  for (size_t i = 0; i < n; ++i) if (!c.check(log.visits[i] == 1, "loop-visits", fmt("index %zu was visited %d times", i, log.visits[i].load()))) break;
  c.check(log.bad == 0, "loop-range", "a part is out of range");
  if (threads == 1) c.check(log.other_thread == 0 && started == 0, "loop-single", "a thread was started while one was allowed");
  if (threads > 0) c.check(size_t(log.peak) <= threads, "loop-parts", fmt("%d parts at once", log.peak.load()));
  // The work is shared: as many parts as threads, of about the same size.
  if (threads > 1 && n > 1) c.check(started >= 1 || log.calls == 1, "loop-share", "no thread was started");
  c.count("loop.indices", n);
  c.count("loop.parts", log.calls);
  c.count("loop.threads-started", started);
  c.distinct(mix(n * 1000 + threads) ^ (delays > 0));
}

// C11: loops over more indices than 32 bits can number: the parts, put end to
// end, are the whole.
static void ranges(Rng& r, Case& c) {
  const int width = r.pick(std::vector<int>{15, 16, 31, 31, 32, 32, 33});
  const size_t n = (size_t(1) << width) + (r.chance(.5) ? r.below(100) : r.below(size_t(1) << width)) - (r.chance(.3) ? 1 + r.below(50) : 0);
  const size_t threads = r.chance(.2) ? 0 : 1 + r.below(r.chance(.8) ? 9 : 100);
  c.note(fmt("size=%zu threads=%zu", n, threads));
  std::mutex m;
  std::vector<std::pair<int64_t, int64_t>> parts;
  auto work = [&](const int64_t start, const int64_t end) {
    std::lock_guard<std::mutex> g(m);
    parts.emplace_back(start, end);
  };
  fes::detail::parallel_for(work, n, threads);
  std::sort(parts.begin(), parts.end());
  int64_t next = 0;
  for (const auto& p : parts) {
    if (!c.check(p.first == next && p.second >= p.first, "loop-ranges", fmt("%ld to %ld follows %ld", long(p.first), long(p.second), long(next)))) return;
    next = p.second;
  }
  c.check(next == int64_t(n), "loop-ranges", fmt("the parts end at %ld", long(next)));
  c.count("loop.large");
  c.distinct(mix(n) ^ threads);
}

// C11: an exception thrown by any part reaches the caller, after all parts ended.
static void throwing(Rng& r, Case& c) {
  const size_t n = 1 + loop_size(r), threads = loop_threads(r, n);
  const double p = r.chance(.3) ? 1 : r.chance(.5) ? .5 : .1;
  const bool together = r.chance(.5);
  const double delays = r.chance(.5) ? 0 : .4;
  const uint64_t salt = r.u64();
  c.note(fmt("size=%zu threads=%zu p=%g%s", n, threads, p, together ? " together" : ""));
  Log log(n);
  std::mutex m;
  std::set<long> threw;
  std::atomic<long> starters{0};
  auto work = [&](const int64_t start, const int64_t end) {
    ++log.active;
    ++log.calls;
    struct Leave { Log& l; ~Leave() { --l.active; ++l.ended; } } leave{log};
    uint64_t s = mix(salt ^ mix(start));
    const bool fails = (s >> 11) * 1.1102230246251565e-16 < p;
    if (together) { ++starters; for (int k = 0; k < 200 && starters < 2; ++k) std::this_thread::yield(); }
    pause_some(s, delays);
    const int64_t stop = fails ? start + (end - start) / 2 : end;
    for (int64_t i = start; i < stop; ++i) ++log.visits[i];
    if (fails) {
      { std::lock_guard<std::mutex> g(m); threw.insert(start); }
      throw Thrown{long(start)};
    }
  };
  long got = -1;
  std::string other;
  try {
    fes::detail::parallel_for(work, n, threads);
  } catch (const Thrown& t) {
    got = t.start;
  } catch (const std::exception& e) {
    other = e.what();
  }
  c.check(other.empty(), "loop-exception-other", other);
  c.check(log.active == 0 && log.ended == log.calls, "loop-exception-early", fmt("%d parts still at work", log.active.load()));
  if (threw.empty()) c.check(got == -1, "loop-exception-invented", "an exception from nowhere");
  else c.check(threw.count(got) == 1, "loop-exception-lost", fmt("%zu parts failed, %ld is what the caller got", threw.size(), got));
  if (threw.empty()) for (auto& v : log.visits) if (!c.check(v == 1, "loop-visits", "an index was not visited")) break;
  for (auto& v : log.visits) if (!c.check(v <= 1, "loop-visits", "an index was visited twice")) break;
  c.count("loop.failed-parts", threw.size());
  if (threw.size() > 1) c.count("loop.failed-together");
  c.distinct(mix(n * 1000 + threads) ^ mix(threw.size()));
}

// C11: a thread cannot be started.
static void unstarted(Rng& r, Case& c) {
  const size_t n = 2 + loop_size(r), threads = 2 + r.below(10);
  const long at = r.below(threads + 1);
  const double delays = r.chance(.5) ? 0 : .4;
  const uint64_t salt = r.u64();
  c.note(fmt("size=%zu threads=%zu, thread %ld cannot be started", n, threads, at));
  Log log(n);
  auto work = [&](const int64_t start, const int64_t end) {
    ++log.active;
    ++log.calls;
    uint64_t s = salt ^ start;
    pause_some(s, delays);
    for (int64_t i = start; i < end; ++i) ++log.visits[i];
    ++log.ended;
    --log.active;
  };
  g_refused = 0;
  g_started = 0;
  g_fail_at = at;
  std::string error;
  bool failed = false;
  try {
    fes::detail::parallel_for(work, n, threads);
  } catch (const std::system_error& e) {
    failed = true;
  } catch (const std::exception& e) {
    failed = true;
    error = e.what();
  }
  g_fail_at = -1;
  c.check(log.active == 0 && log.ended == log.calls, "loop-unstarted-early", fmt("%d parts still at work", log.active.load()));
  c.check(error.empty(), "loop-unstarted-error", error);
  for (auto& v : log.visits) if (!c.check(v <= 1, "loop-visits", "an index was visited twice")) break;
  // Either the caller is told, or the work was done all the same.
  if (!failed) for (auto& v : log.visits) if (!c.check(v == 1, "loop-unstarted-lost", "a part was not done, and nobody was told")) break;
  if (g_refused == 0) c.check(!failed, "loop-unstarted-error", "an error from nowhere");
  c.count(failed ? "loop.start-failures" : "loop.no-failure");
  c.distinct(mix(n * 1000 + threads) ^ mix(at));
}

// A model which fails at some positions.
class Failing : public fes::AbstractTidalModel<double> {
 public:
  double limit;
  explicit Failing(double l) : fes::AbstractTidalModel<double>(fes::kTide), limit(l) {}
  auto accelerator(const fes::angle::Formulae& f, const double t) const -> fes::Accelerator* override { return new fes::Accelerator(f, t, 1); }
  auto add_constituent(const fes::Constituent i, fes::Vector<std::complex<double>> w) -> void override { data_.emplace(i, std::move(w)); }
  auto interpolate(const fes::geometry::Point& p, fes::Quality& q, fes::Accelerator* acc) const -> const fes::ConstituentValues& override {
    if (p.lon() > limit) throw Thrown{long(p.lon() * 1000)};
    acc->clear();
    acc->emplace_back(fes::kM2, {p.lon(), p.lat()});
    q = fes::kInterpolated;
    return acc->values();
  }
};

// C11: through a prediction.
static void prediction(Rng& r, Case& c) {
  const int n = r.range(1, 60);
  Failing model(r.chance(.3) ? 1e9 : r.uniform(0, 1));
  model.add_constituent(fes::kM2, fes::Vector<std::complex<double>>::Zero(1));
  Eigen::VectorXd e(n), x(n), y(n);
  fes::Vector<uint16_t> l(n);
  bool any = false;
  std::set<long> may;
  for (int i = 0; i < n; ++i) {
    e(i) = 1e9 + i * 60; x(i) = r.unit(); y(i) = r.uniform(-90, 90); l(i) = 18;
    if (x(i) > model.limit) { any = true; may.insert(long(x(i) * 1000)); }
  }
  const size_t threads = loop_threads(r, n);
  c.note(fmt("n=%d threads=%zu limit=%g", n, threads, model.limit));
  bool got = false;
  try {
    const fes::AbstractTidalModel<double>* m = &model;
    const auto o = fes::evaluate_tide(m, e, l, x, y, fes::Settings(), threads);
    c.check(std::get<0>(o).size() == n && std::get<0>(o).allFinite(), "prediction-values", "values");
  } catch (const Thrown& t) {
    got = true;
    c.check(may.count(t.start) == 1, "prediction-exception", "an exception from nowhere");
  }
  c.check(got == any, "prediction-exception", any ? "the failure was lost" : "a failure from nowhere");
  c.count(got ? "prediction.failed" : "prediction.done");
  c.distinct(mix(n * 1000 + threads) ^ bits(model.limit));
}

// ---------------------------------------------------------------------------
// C18: constant objects shared between threads.
struct Users {
  std::vector<std::thread> threads;
  std::atomic<int> ready{0};
  int n;
  std::mutex m;
  std::vector<std::string> wrong;
  explicit Users(int k) : n(k) {}
  template <typename F>
  void go(F f) {
    for (int i = 0; i < n; ++i)
      threads.emplace_back([this, f, i] {
        ++ready;
        while (ready < n) std::this_thread::yield();
        try {
          f(i);
        } catch (const std::exception& e) {
          say(std::string("exception ") + e.what());
        }
      });
    for (auto& t : threads) t.join();
  }
  void say(const std::string& s) { std::lock_guard<std::mutex> g(m); wrong.push_back(s); }
};

static bool eq(double a, double b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }

template <typename M, typename T>
static void share_model(Rng& r, Case& c, const M& model, const std::function<void(Rng&, double&, double&)>& where) {
  const int n = r.range(2, 25), k = r.range(2, 6);
  Eigen::VectorXd e(n), x(n), y(n);
  fes::Vector<uint16_t> l(n);
  for (int i = 0; i < n; ++i) { where(r, x(i), y(i)); e(i) = r.chance(.5) && i ? e(i - 1) + 30 : random_epoch(r); l(i) = 18; }
  const fes::AbstractTidalModel<T>* p = &model;
  std::vector<fes::Settings> settings;
  std::vector<size_t> threads;
  std::vector<std::tuple<Eigen::VectorXd, Eigen::VectorXd, fes::Vector<fes::Quality>>> want;
  for (int i = 0; i < k; ++i) {
    std::vector<fes::Constituent> excluded;
    for (int s : random_subset(r, 75, .05)) excluded.push_back(C(s));
    const bool reuse = r.chance(.3);   // then the threads of the batch would matter
    settings.emplace_back(formulae(r.below(3)), reuse ? 60 : 0, excluded);
    threads.push_back(reuse || r.chance(.5) ? 1 : 2 + r.below(3));
    want.push_back(fes::evaluate_tide(p, e, l, x, y, settings.back(), 1));
  }
  const std::string state = model.getstate();
  Users u(k);
  u.go([&](int i) {
    const auto o = fes::evaluate_tide(p, e, l, x, y, settings[i], threads[i]);
    for (int j = 0; j < n; ++j)
      if (!eq(std::get<0>(o)(j), std::get<0>(want[i])(j)) || !eq(std::get<1>(o)(j), std::get<1>(want[i])(j)) || std::get<2>(o)(j) != std::get<2>(want[i])(j)) { u.say(fmt("item %d differs", j)); break; }
    if (i % 2 && model.getstate() != state) u.say("the state changed");
    if (model.identifiers().size() != model.size()) u.say("identifiers");
  });
  for (auto& w : u.wrong) c.check(false, "shared-model", w);
  c.count("shared.users", k);
  c.count("shared.predictions", k * n);
  c.distinct(r.u64());
}

static void shared_model(Rng& r, Case& c) {
  auto ids = random_model_constituents(r);
  switch (r.below(4)) {
    case 0: {
      LgpWorld<double, 1> w(r, ids, false, r.chance(.7), r.chance(.5) ? 0 : 1e5, 5);
      c.note("LGP1 " + w.m.text());
      share_model<typename LgpWorld<double, 1>::Model, double>(r, c, *w.model, [&](Rng& q, double& lon, double& lat) { double a, b; w.inside(q, lon, lat, a, b); });
      break;
    }
    case 1: {
      LgpWorld<float, 2> w(r, ids, false, r.chance(.7), r.chance(.5) ? 0 : 1e5, 5);
      c.note("LGP2 " + w.m.text());
      share_model<typename LgpWorld<float, 2>::Model, float>(r, c, *w.model, [&](Rng& q, double& lon, double& lat) { double a, b; w.inside(q, lon, lat, a, b); });
      break;
    }
    default: {
      GridWorld<double> w(r, ids, false, .1, r.chance(.7));
      c.note("Cartesian " + w.g.text());
      share_model<fes::tidal_model::Cartesian<double>, double>(r, c, *w.model, [&](Rng& q, double& lon, double& lat) { w.inside(q, lon, lat); });
    }
  }
}

// A table of waves is not changed by what is computed with it.
static void shared_table(Rng& r, Case& c) {
  std::vector<std::string> names;
  for (int i : random_subset(r, 75, r.chance(.5) ? 1 : .2)) names.push_back(ref::kSpec[i].name);
  const fes::wave::Table table(names);
  const int n = r.range(1, 12), k = r.range(2, 5), cols = r.range(1, 8);
  Eigen::VectorXd e(n);
  fes::Vector<uint16_t> l(n);
  for (int i = 0; i < n; ++i) { e(i) = next_epoch(r, !i, i ? e(i - 1) : 0); l(i) = i && r.chance(.5) ? l(i - 1) : r.below(40); }
  Eigen::VectorXcd series(table.size());
  Eigen::MatrixXcd map(table.size(), cols);
  for (long i = 0; i < series.size(); ++i) { series(i) = {r.gauss(), r.gauss()}; for (int j = 0; j < cols; ++j) map(i, j) = {r.gauss(), r.gauss()}; }
  c.note(fmt("table of %zu waves", table.size()));
  std::vector<std::array<double, 4>> before;
  for (auto w : table) before.push_back({w->f(), w->vu(), w->tide().real(), w->freq()});
  const auto f = formulae(r.below(3));
  const auto s0 = table.tide_from_tide_series(e, l, series, f);
  const auto m0 = table.tide_from_mapping(e(0), l(0), map, f, 1);
  const auto n0 = table.compute_nodal_modulations(e, l, f);
  const fes::wave::Table full;
  // One analysis, with the modulations shared.
  const int na = 24 + 4 * int(std::get<0>(n0).rows());
  Eigen::VectorXd ea(na), ha(na);
  fes::Vector<uint16_t> la(na);
  for (int i = 0; i < na; ++i) { ea(i) = e(0) + i * 7211.; la(i) = 18; ha(i) = r.gauss(); }
  const auto na0 = table.compute_nodal_modulations(ea, la, f);
  const auto a0 = fes::wave::Table::harmonic_analysis(ha, std::get<0>(na0), std::get<1>(na0));
  const std::vector<double> spans = {86400. * 3, 86400. * 30, 86400. * 365};
  std::vector<std::vector<std::string>> chosen;
  for (double d : spans) chosen.push_back(fes::wave::Table::select_waves_for_analysis(d));
  std::vector<double> lp0;
  for (int i = 0; i < 5; ++i) { fes::wave::LongPeriodEquilibrium lpe(full); lp0.push_back(lpe.lpe_minus_n_waves(fes::angle::Astronomic(f, e(0) + i * 86400, l(0)), 30 + i)); }
  auto alike = [](const Eigen::VectorXcd& x, const Eigen::VectorXcd& y) {
    bool ok = x.size() == y.size();
    for (Eigen::Index i = 0; ok && i < x.size(); ++i) ok = eq(x(i).real(), y(i).real()) && eq(x(i).imag(), y(i).imag());
    return ok;
  };
  Users u(k);
  const uint64_t salt = r.u64();
  u.go([&](int i) {
    Rng q(salt + i);
    for (int rep = 0; rep < 4; ++rep) switch (q.below(9)) {
      case 0: if (table.tide_from_tide_series(e, l, series, f) != s0) u.say("series"); break;
      case 1: if (table.tide_from_mapping(e(0), l(0), map, f, q.below(4)) != m0) u.say("mapping"); break;
      case 2: { auto x = table.compute_nodal_modulations(e, l, f); if (std::get<0>(x) != std::get<0>(n0) || std::get<1>(x) != std::get<1>(n0)) u.say("modulations"); break; }
      case 3: {
        // A copy is another table.
        fes::wave::Table mine(std::vector<std::string>{"M2"});
        if (q.chance(.5)) mine = table;
        else { fes::wave::Table other(table); mine = std::move(other); }
        mine.compute_nodal_corrections(fes::angle::Astronomic(f, e(0), l(0)));
        for (auto w : mine) w->tide({double(i), 1});
        for (auto w : mine) if (w->tide() != std::complex<double>(i, 1)) { u.say("copy"); break; }
        break;
      }
      case 6: if (!alike(fes::wave::Table::harmonic_analysis(ha, std::get<0>(na0), std::get<1>(na0)), a0)) u.say("analysis"); break;
      case 7: {
        const size_t d = q.below(3);
        if (fes::wave::Table::select_waves_for_analysis(spans[d]) != chosen[d]) u.say("selection");
        for (int z = 0; z < 4; ++z) {
          const int id = q.below(75);
          if (fes::constituents::parse(ref::kSpec[id].name) != C(id) || std::string(fes::constituents::name(C(id))) != ref::kSpec[id].name) u.say("name");
          const auto w = table.find(ref::kSpec[id].name);
          if (w && w->ident() != C(id)) u.say("find");
          if (full[C(id)]->ident() != C(id)) u.say("access");
          fes::wave::Table::wave_factory(C(id))->nodal_a(fes::angle::Astronomic(f, e(0), l(0)));
        }
        break;
      }
      case 8: {
        fes::wave::Table own;
        fes::wave::LongPeriodEquilibrium lpe(q.chance(.5) ? own : full);
        const int z = q.below(5);
        if (!eq(lpe.lpe_minus_n_waves(fes::angle::Astronomic(f, e(0) + z * 86400, l(0)), 30 + z), lp0[z])) u.say("equilibrium");
        for (auto w : own) w->tide({1. + i, 2});
        own.admittance();
        if (own[C(30)]->tide() != std::complex<double>(1. + i, 2) && !own[C(30)]->admittance()) u.say("own table");
        break;
      }
      case 4: if (table.constituents().size() != table.size() || fes::wave::Table::select_waves_for_analysis(86400 * 30).empty()) u.say("names"); break;
      default: {
        fes::wave::LongPeriodEquilibrium lpe(full);
        lpe.lpe_minus_n_waves(fes::angle::Astronomic(f, e(0), l(0)), 30);
        if (fes::constituents::known().size() != 75 || fes::constituents::parse("m2") != fes::kM2) u.say("constituents");
      }
    }
  });
  for (auto& w : u.wrong) c.check(false, "shared-table", w);
  size_t i = 0;
  for (auto w : table) {
    const std::array<double, 4> now{w->f(), w->vu(), w->tide().real(), w->freq()};
    bool same = true;
    for (int z = 0; z < 4; ++z) same = same && eq(now[z], before[i][z]);
    c.check(same, "shared-table-changed", w->name());
    ++i;
  }
  c.count("shared.users", k);
  c.distinct(r.u64());
}

static void shared_index(Rng& r, Case& c) {
  Mesh m(r, 6);
  const auto index = m.index();
  c.note(m.text());
  const int n = 12, k = r.range(2, 5);
  std::vector<std::array<double, 2>> p(n);
  std::vector<int> want(n);
  for (int i = 0; i < n; ++i) { p[i] = {m.lon0 + r.uniform(-1, 1) * m.h * 5, m.lat0 + r.uniform(-1, 1) * m.h * 5}; want[i] = index->search({p[i][0], p[i][1]}, 1e5).index; }
  Users u(k);
  const fes::Axis axis(Eigen::VectorXd::LinSpaced(360, -180, 179), 1e-6, true);
  auto place = [](double lon, double lat) { return static_cast<fes::geometry::EarthCenteredEarthFixed>(fes::geometry::Point(lon, lat)); };
  std::vector<int64_t> nodes(n);
  std::vector<std::array<double, 3>> back(n);
  for (int i = 0; i < n; ++i) {
    nodes[i] = axis.find_index(p[i][0], true);
    const auto g = place(p[i][0], p[i][1]);
    back[i] = {g.x(), g.y(), g.z()};
  }
  const std::string state = index->getstate();
  const uint64_t salt = r.u64();
  u.go([&](int who) {
    Rng q(salt + who);
    std::shared_ptr<fes::mesh::Index> own;
    std::unique_ptr<Mesh> mine;
    if (q.chance(.4)) { mine.reset(new Mesh(q, 4)); own = mine->index(); }   // built while the others search
    for (int i = 0; i < n; ++i) {
      if (index->search({p[i][0], p[i][1]}, 1e5).index != want[i]) u.say(fmt("point %d", i));
      if (axis.find_index(p[i][0], true) != nodes[i]) u.say(fmt("axis %d", i));
      const auto g = place(p[i][0], p[i][1]);
      if (!eq(g.x(), back[i][0]) || !eq(g.y(), back[i][1]) || !eq(g.z(), back[i][2])) u.say(fmt("coordinates %d", i));
      if (own) own->search({p[i][0], p[i][1]}, 1e5);
    }
    if (q.chance(.3) && index->getstate() != state) u.say("the state changed");
    if (q.chance(.3)) { const auto again = fes::mesh::Index::setstate(fes::string_view(state.data(), state.size())); if (again.search({p[0][0], p[0][1]}, 1e5).index != want[0]) u.say("restored"); }
  });
  for (auto& w : u.wrong) c.check(false, "shared-index", w);
  c.count("shared.users", k);
  c.distinct(r.u64());
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  H.run("once", 8000, 200000, once);
  H.run("ranges", 2000, 50000, ranges);
  H.run("throwing", 8000, 200000, throwing);
  H.run("unstarted", 4000, 100000, unstarted);
  H.run("prediction", 2000, 50000, prediction);
  H.run("shared_model", 500, 12000, shared_model);
  H.run("shared_table", 500, 12000, shared_table);
  H.run("shared_index", 400, 8000, shared_index);
  return H.finish();
}
