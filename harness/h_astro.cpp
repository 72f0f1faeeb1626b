// Astronomical angles, nodal corrections, admittance, equilibrium tide, names.
#include "fesref.hpp"
#include "fes/wave/long_period_equilibrium.hpp"

using namespace vf;
using fes::angle::Astronomic;
using fes::wave::Table;

static const char* kForm[] = {"order1", "order3", "meeus"};

static void all_values(const Astronomic& a, double* v) {
  double x[] = {a.t(), a.n(), a.h(), a.s(), a.p1(), a.p(), a.i(), a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
  std::memcpy(v, x, sizeof x);
}

static void angles(Harness& H) {
  H.run("angles", 80000, 1500000, [](Rng& r, Case& c) {
    const int form = r.below(3);
    const double epoch = random_epoch(r);
    const uint16_t leap = r.chance(.1) ? r.below(65536) : r.below(45);
    c.note(fmt("%s epoch=%.17g leap=%u", kForm[form], epoch, leap));
    Astronomic a(formulae(form), epoch, leap);
    const auto w = ref::angles(static_cast<ref::Form>(form), epoch, leap);
    const std::string k = kForm[form];
    // Rounding: the moon's longitude grows by 1e-2 rad per hour, and the date
    // is known to within 1 microsecond.
    const double tol = 2e-9;
    auto ang = [&](double got, double want, const char* name, double tl) {
      c.check(ref::ang_diff(got, want) <= tl, "angle-" + k + "-" + name, fmt("%s: got %.17g, expected %.17g", name, got, want));
    };
    ang(a.t(), w.T, "T", tol);
    ang(a.s(), w.s, "s", tol);
    ang(a.h(), w.h, "h", tol);
    ang(a.p(), w.p, "p", tol);
    ang(a.n(), w.N, "N", tol);
    ang(a.p1(), w.p1, "p1", tol);
    const double two_pi = 2 * ref::kPi;
    for (double x : {a.s(), a.h(), a.p(), a.n(), a.p1()})
      c.check(x >= 0 && x <= two_pi, "angle-range", fmt("%.17g is not within a turn", x));
    c.check(std::abs(a.t()) <= ref::kPi + 1e-12, "angle-range-T", fmt("%.17g", a.t()));
    // The derived quantities, from the node and perigee of the code itself.
    const auto d = from_code(a);
    c.near(a.i(), d.I, 1e-12, "derived-I", "I");
    const double tn = 1e-12 + 1e-15 / std::max(1e-12, std::abs(std::cos(d.N / 2)));  // tan(N/2) near its pole
    c.near(std::remainder(a.xi() - d.xi, two_pi), 0, 1e-11 + 0 * tn, "derived-xi", "xi");
    c.near(a.nu(), d.nu, 1e-11, "derived-nu", "nu");
    c.near(a.x1ra(), d.ra, 1e-10, "derived-1/Ra", "1/Ra");
    c.near(a.r(), d.R, 1e-10, "derived-R", "R");
    c.near(a.nuprim(), d.nup, 1e-11, "derived-nu'", "nu'");
    c.near(a.nusec(), d.nus, 1e-11, "derived-nu''", "nu''");
    // History: an object which was used for other dates gives the same values.
    Astronomic b(formulae(form), random_epoch(r), r.below(40));
    for (int i = r.below(3); i > 0; --i) b.update(random_epoch(r), r.below(40));
    if (r.chance(.5)) b.update(r.chance(.2) ? epoch : near_epoch(r, epoch), r.chance(.5) ? leap : r.below(40));
    b.update(epoch, leap);
    double va[13], vb[13];
    all_values(a, va);
    all_values(b, vb);
    c.check(!std::memcmp(va, vb, sizeof va), "angle-history", "the angles depend on the dates computed before");
    if (form != 2) {
      Astronomic e(formulae(form), epoch, leap + 1);
      all_values(e, vb);
      c.check(!std::memcmp(va, vb, sizeof va), "angle-schureman-leap", "Schureman's angles depend on the leap seconds");
    }
    c.distinct(bits(epoch) ^ mix(form * 65536 + leap));
    c.count(std::string("angles.") + kForm[form]);
  });
}

static std::string doodson_of(int ident) {
  std::string out = "......";
  for (int j = 0; j < 6; ++j) {
    const int n = ref::kSpec[ident].a[j] + (j ? 5 : 0);
    out[j] = n == -1 ? '*' : n == 10 ? 'X' : n == 11 ? 'E' : n == 12 ? 'T' : static_cast<char>('0' + n);
  }
  return out;
}

static void nodal(Harness& H) {
  H.run("nodal", 4000, 150000, [](Rng& r, Case& c) {
    const int form = r.below(3);
    const double epoch = random_epoch(r);
    const uint16_t leap = r.below(40);
    c.note(fmt("%s epoch=%.17g leap=%u", kForm[form], epoch, leap));
    Astronomic a(formulae(form), epoch, leap);
    Table full;
    full.compute_nodal_corrections(a);
    const auto d = from_code(a);
    for (int i = 0; i < 75; ++i) {
      const auto& w = full[C(i)];
      const auto n = ref::nodal(i, d);
      const std::string name = ref::kSpec[i].name;
      c.near(w->f(), n.f, 1e-9 * std::max(1.0, std::abs(n.f)), "nodal-f-" + name, "f of " + name);
      c.near(w->u(), n.u, 1e-9, "nodal-u-" + name, "u of " + name);
      c.near(w->v(), n.v, 1e-9, "nodal-v-" + name, "v of " + name);
      c.check(ref::ang_diff(w->vu(), n.vu()) <= 1e-8, "nodal-vu-" + name, fmt("v+u of %s: %.17g, expected %.17g", name.c_str(), w->vu(), n.vu()));
      c.check(std::abs(w->vu()) < 2 * ref::kPi, "nodal-vu-range", fmt("v+u of %s: %.17g", name.c_str(), w->vu()));
      c.check(w->doodson_number() == doodson_of(i), "doodson", w->doodson_number() + ", expected " + doodson_of(i));
      if (i == ref::k2MK6_id) {
        const auto doc = ref::nodal(i, d, true);
        c.near(w->f(), doc.f, 1e-9 * std::max(1.0, doc.f), "nodal-f-2MK6-documented", "f of 2MK6, against f(M2)^2 f(K2)");
      }
    }
    c.count("nodal.constituents", 75);
    // A sparse table, used before for another date, tells the same.
    auto sub = random_subset(r, 75, r.unit());
    if (sub.empty()) sub.push_back(r.below(75));
    std::vector<std::string> names;
    for (int i : sub) names.push_back(ref::kSpec[i].name);
    r.shuffle(names);
    Table sparse(names);
    sparse.compute_nodal_corrections(Astronomic(formulae(r.below(3)), r.chance(.5) ? random_epoch(r) : near_epoch(r, epoch), 0));
    sparse.compute_nodal_corrections(a);
    c.check(sparse.size() == sub.size(), "table-size", fmt("%zu waves asked, %zu in the table", sub.size(), sparse.size()));
    for (int i : sub) {
      const auto &w = sparse[C(i)], &v = full[C(i)];
      c.check(bits(w->f()) == bits(v->f()) && bits(w->u()) == bits(v->u()) && bits(w->v()) == bits(v->v()), "nodal-sparse",
              fmt("%s differs in a partial table", ref::kSpec[i].name));
    }
    c.distinct(bits(epoch) ^ form);
  });
}

static void admittance(Harness& H) {
  H.run("admittance", 8000, 200000, [](Rng& r, Case& c) {
    Table t;
    std::array<ref::cplx, 75> x;
    std::array<bool, 75> inf;
    for (int i = 0; i < 75; ++i) {
      auto& w = t[C(i)];
      c.check(w->admittance() == ref::kSpec[i].adm, std::string("admittance-flag-") + ref::kSpec[i].name, "inferred by default or not");
      x[i] = r.chance(.1) ? ref::cplx(0, 0) : ref::cplx(r.gauss() * 100, r.gauss() * 100);
      w->tide(x[i]);
      if (ref::kSpec[i].adm && r.chance(.4)) {
        w->admittance(false);
        if (r.chance(.8)) w->dynamic(true);
      }
      inf[i] = w->admittance();
    }
    c.note(fmt("M2=(%g,%g)", x[30].real(), x[30].imag()));
    t.admittance();
    if (r.chance(.3)) t.admittance();  // nothing changes
    ref::admittance(x, inf);
    for (int i = 0; i < 75; ++i) {
      const auto v = t[C(i)]->tide();
      c.check(std::abs(v - x[i]) <= (inf[i] ? 1e-11 : 0), std::string("admittance-") + ref::kSpec[i].name,
              fmt("%s: (%.17g,%.17g), expected (%.17g,%.17g)", inf[i] ? "inferred" : "given", v.real(), v.imag(), x[i].real(), x[i].imag()));
      c.check(t[C(i)]->admittance() == inf[i], "admittance-flag-changed", ref::kSpec[i].name);
      c.count(inf[i] ? "admittance.inferred" : "admittance.kept");
    }
    c.distinct(r.u64());
  });
}

static void lpe(Harness& H) {
  H.run("lpe", 10000, 300000, [](Rng& r, Case& c) {
    const int form = r.below(3);
    const double epoch = random_epoch(r);
    const double lat = r.chance(.1) ? (r.chance(.5) ? 90 : -90) : r.chance(.1) ? 0 : r.uniform(-90, 90);
    Astronomic a(formulae(form), epoch, r.below(40));
    auto d = from_code(a);
    std::vector<int> dyn = r.chance(.2) ? std::vector<int>{} : r.chance(.3) ? std::vector<int>{int(r.below(75))} : random_subset(r, 75, r.unit());
    std::vector<std::string> names;
    Table t;
    for (int i : dyn) {
      t[C(i)]->dynamic(true);
      names.push_back(ref::kSpec[i].name);
    }
    c.note(fmt("epoch=%.17g lat=%.17g dynamic=", epoch, lat));
    for (auto& n : names) if (c.text.size() < 400) c.text += n + " ";
    fes::wave::LongPeriodEquilibrium l(t);
    const double got = l.lpe_minus_n_waves(a, lat);
    c.near(got, ref::lpe(d, lat, names), 1e-9, "lpe-value", "equilibrium tide");
    c.check(bits(got) == bits(l.lpe_minus_n_waves(a, lat)), "lpe-repeat", "another value the second time");
    // In several steps: the order does not matter.
    fes::wave::LongPeriodEquilibrium m;
    Table t1, t2;
    for (int i : dyn) (r.chance(.5) ? t1 : t2)[C(i)]->dynamic(true);
    if (r.chance(.5)) m.lpe_minus_n_waves(a, lat);
    m.disable_dynamic_wave(t2);
    m.disable_dynamic_wave(t1);
    m.disable_dynamic_wave(t2);
    c.check(bits(got) == bits(m.lpe_minus_n_waves(a, lat)), "lpe-steps", "disabling in several steps");
    c.count("lpe.dynamic", dyn.size());
    c.distinct(bits(epoch) ^ mix(bits(lat)) ^ mix(dyn.size()));
  });
  // Each constituent alone: the lines that are labelled as its own are removed.
  H.run("lpe_lines", 75, 75 * 40, [](Rng& r, Case& c) {
    const int w = c.index % 75;
    const std::string name = ref::kSpec[w].name;
    const double lat = r.uniform(20, 80);
    Table t;
    t[C(w)]->dynamic(true);
    fes::wave::LongPeriodEquilibrium with, without(t);
    c.note("dynamic=" + name);
    // What disabling the constituent removes, as a function of time, is the sum
    // of its own lines. The lines are told apart by their projection.
    double worst = 0, worst_doc = 0;
    for (int k = 0; k < 60; ++k) {
      Astronomic a(formulae(k % 3), random_epoch(r), 20);
      auto d = from_code(a);
      const double removed = with.lpe_minus_n_waves(a, lat) - without.lpe_minus_n_waves(a, lat);
      worst = std::max(worst, std::abs(removed - (ref::lpe(d, lat, {}) - ref::lpe(d, lat, {name}))));
      worst_doc = std::max(worst_doc, std::abs(removed - (ref::lpe(d, lat, {}, true) - ref::lpe(d, lat, {name}, true))));
    }
    c.check(worst < 1e-9, "lpe-lines-" + name, fmt("other lines than its own are removed or kept, up to %.3g cm", worst));
    if (name == "Sa1" || name == "Sta")
      c.check(worst_doc < 1e-9, "lpe-lines-" + name + "-documented", fmt("lines labelled %s are kept: up to %.3g cm", name.c_str(), worst_doc));
    c.distinct(w);
  });
}

static bool iequal(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (tolower(a[i]) != tolower(b[i])) return false;
  return true;
}

static std::string random_case(Rng& r, std::string s) {
  for (auto& ch : s) ch = r.chance(.5) ? std::toupper(ch) : std::tolower(ch);
  return s;
}

static void names(Harness& H) {
  H.run("names", 75 * 8, 75 * 400, [](Rng& r, Case& c) {
    namespace k = fes::constituents;
    const int i = c.index % 75;
    const auto& s = ref::kSpec[i];
    c.note(s.name);
    const auto known = k::known();
    c.check(known.size() == 75, "known-size", fmt("%zu", known.size()));
    if (known.size() == 75) c.check(known[i] == s.name, "known-order", known[i] + " at the place of " + s.name);
    c.check(std::string(k::name(C(i))) == s.name, "name", k::name(C(i)));
    const auto asked = random_case(r, s.name);
    int got = -1;
    auto e = thrown([&] { got = k::parse(asked); });
    c.check(e.empty() && got == i, "parse", asked + " -> " + std::to_string(got) + " " + e);
    // Anything else is refused.
    std::string other = s.name;
    switch (r.below(6)) {
      case 0: other += static_cast<char>(r.range(1, 255)); break;
      case 1: other.pop_back(); break;
      case 2: other[r.below(other.size())] = static_cast<char>(r.range(0, 255)); break;
      case 3: other = " " + other; break;
      case 4: other.clear(); for (int n = r.below(12); n > 0; --n) other += static_cast<char>(r.range(0, 255)); break;
      default: other = std::string(s.name) + std::string(1, '\0');
    }
    int want = -1;
    for (int j = 0; j < 75; ++j) {
      std::string n = ref::kSpec[j].name;
      if (n.size() == other.size() && std::equal(n.begin(), n.end(), other.begin(), [](unsigned char a, unsigned char b) { return std::tolower(a) == std::tolower(b); })) want = j;
    }
    got = -1;
    e = thrown([&] { got = k::parse(other); });
    c.check(want < 0 ? e == "invalid_argument" : got == want, "parse-other", fmt("'%s' -> %d %s", other.c_str(), got, e.c_str()));
    // Identifiers out of the list.
    const int bad = r.range(75, 255);
    c.check(thrown([&] { k::name(C(bad)); }) == "invalid_argument", "name-unknown", std::to_string(bad));
    c.check(thrown([&] { Table::wave_factory(C(bad)); }) == "invalid_argument", "factory-unknown", std::to_string(bad));
    // The wave of this identifier.
    const auto w = Table::wave_factory(C(i));
    c.check(w->ident() == C(i), "factory-ident", fmt("%d", int(w->ident())));
    c.check(std::string(w->name()) == s.name, "wave-name", w->name());
    c.check((w->type() == fes::Wave::kLongPeriod) == s.lp, "wave-type", s.name);
    c.check(w->admittance() == s.adm && !w->dynamic(), "wave-flags", s.name);
    c.near(w->freq() * 180 / ref::kPi, ref::speed(i), 1e-9, std::string("speed-") + s.name, "speed");
    if (ref::speed(i) != 0) c.near(w->period(), 360 / ref::speed(i), 1e-9 * std::abs(360 / ref::speed(i)), "period", s.name);
    const auto doodson = doodson_of(i);
    c.check(w->doodson_number() == doodson, "doodson", w->doodson_number() + ", expected " + doodson);
    c.distinct(hash_str(asked) ^ mix(hash_str(other)));
  });
  H.run("tables", 2000, 30000, [](Rng& r, Case& c) {
    auto sub = random_subset(r, 75, r.unit());
    if (sub.empty() || r.chance(.1)) sub = r.chance(.5) ? std::vector<int>{int(r.below(75))} : random_subset(r, 75, 1);
    c.note(fmt("%zu constituents, the first %s", sub.size(), ref::kSpec[sub[0]].name));
    auto order = sub;
    r.shuffle(order);
    if (r.chance(.3)) order.push_back(order[0]);
    std::vector<std::string> names;
    std::vector<fes::Constituent> ids;
    for (int i : order) { names.push_back(random_case(r, ref::kSpec[i].name)); ids.push_back(C(i)); }
    Table t = r.chance(.5) ? Table(names) : Table(ids);
    if (r.chance(.3)) { Table u = t; t = u; }
    else if (r.chance(.3)) { Table u(std::move(t)); t = std::move(u); }
    c.check(t.size() == sub.size(), "table-size", fmt("%zu", t.size()));
    size_t n = 0;
    for (const auto& w : t) {
      if (!c.check(n < sub.size() && w && w->ident() == C(sub[n]), "table-iteration", fmt("item %zu", n))) return;
      ++n;
    }
    c.check(n == sub.size(), "table-iteration", fmt("%zu items", n));
    const auto list = t.constituents();
    c.check(list.size() == sub.size(), "table-constituents", fmt("%zu", list.size()));
    for (size_t i = 0; i < sub.size() && i < list.size(); ++i) c.check(list[i] == ref::kSpec[sub[i]].name, "table-constituents", list[i]);
    for (size_t i = 0; i < t.size(); ++i) c.check(t[i]->ident() == C(sub[i]), "table-index", fmt("%zu", i));
    c.check(thrown([&] { t[t.size() + r.below(3)]; }) == "out_of_range", "table-index-out", "past the end");
    const Table& ct = t;
    for (int i = 0; i < 75; ++i) {
      const bool in = std::find(sub.begin(), sub.end(), i) != sub.end();
      const fes::Wave* w = nullptr;
      auto e = thrown([&] { w = ct[C(i)].get(); });
      c.check(in ? e.empty() && w && w->ident() == C(i) : e == "out_of_range", "table-ident", fmt("%s %s", ref::kSpec[i].name, e.c_str()));
      auto f = ct.find(random_case(r, ref::kSpec[i].name));
      c.check(in ? f && f.get() == w : !f, "table-find", ref::kSpec[i].name);
    }
    c.check(thrown([&] { ct.find("nothing"); }) == "invalid_argument", "table-find-unknown", "");
    {
      auto odd = names;
      const std::string bad = r.chance(.5) ? odd[r.below(odd.size())] + r.pick(std::vector<std::string>{"x", " ", "2"}) : r.pick(std::vector<std::string>{"nothing", "", "M", "kM2", "Msf2"});
      bool known = false;
      for (int i = 0; i < 75; ++i) known = known || iequal(bad, ref::kSpec[i].name);
      odd.insert(odd.begin() + r.below(odd.size() + 1), bad);
      if (!known) c.check(thrown([&] { Table u(odd); }) == "invalid_argument", "table-unknown", "a table of '" + bad + "' is accepted");
    }
    // Copies, however they are made, are the same table and share nothing.
    {
      t.compute_nodal_corrections(Astronomic(formulae(r.below(3)), random_epoch(r), 18));
      for (auto w : t) { w->tide({r.gauss(), r.gauss()}); w->dynamic(r.chance(.5)); w->admittance(r.chance(.5)); }
      const int how = r.below(6);
      auto make = [&]() -> Table {
        if (how == 0) return Table(t);
        if (how == 1) { Table u; u = t; return u; }
        if (how == 2) { Table u(std::vector<std::string>{ref::kSpec[r.below(75)].name}); u = t; return u; }
        if (how == 3) { std::vector<Table> v(2, t); v.push_back(v.front()); return v.back(); }
        if (how == 4) { Table u(t), v; v = std::move(u); return v; }
        Table u(t);
        Table& same = u;
        u = same;
        return u;
      };
      Table copy = make();
      bool equal = copy.constituents() == t.constituents() && copy.size() == t.size(), apart = true;
      for (int i = 0; i < 75; ++i) {
        const fes::Wave *x = nullptr, *y = nullptr;
        thrown([&] { x = ct[C(i)].get(); });
        thrown([&] { y = static_cast<const Table&>(copy)[C(i)].get(); });
        if (!x || !y) { equal = equal && !x && !y; continue; }
        apart = apart && x != y;
        equal = equal && x->ident() == y->ident() && x->tide() == y->tide() && bits(x->f()) == bits(y->f()) && bits(x->vu()) == bits(y->vu()) && x->dynamic() == y->dynamic() && x->admittance() == y->admittance();
      }
      for (size_t i = 0; equal && i < t.size(); ++i) equal = copy[i]->ident() == t[i]->ident();
      c.check(equal, "table-copy-equal", fmt("a copy differs (%d)", how));
      auto& w0 = t[C(sub[0])];
      const auto before = copy[C(sub[0])]->tide();
      w0->tide({before.real() + 1, 2});
      w0->dynamic(!copy[C(sub[0])]->dynamic());
      c.check(apart && copy[C(sub[0])]->tide() == before && copy[C(sub[0])]->dynamic() != w0->dynamic(), "table-copy", fmt("a copy shares its waves (%d)", how));
    }
    c.count("tables.waves", sub.size());
    uint64_t h = 0;
    for (int i : order) h = mix(h ^ i);
    c.distinct(h);
  });
  H.run("select", 1000, 20000, [](Rng& r, Case& c) {
    double duration = std::exp(r.uniform(std::log(3600.), std::log(40 * 365.25 * 86400))), f = r.chance(.3) ? 2 : r.uniform(.2, 6);
    const double inf = std::numeric_limits<double>::infinity();
    // Whatever was asked before, with the same duration, factor or product.
    for (int rep = 0; rep < 4; ++rep) {
      if (rep) switch (r.below(5)) {
        case 0: f = r.uniform(.2, 6); break;
        case 1: duration = std::exp(r.uniform(std::log(3600.), std::log(40 * 365.25 * 86400))); break;
        case 2: duration *= 2; f /= 2; break;
        case 3: duration = r.pick(std::vector<double>{0, 1, 1e4, 1e11, 1e15, inf, -1e9}); break;
        default: f = r.pick(std::vector<double>{0, 1, 2, 1e-3, 1e3});
      }
      c.note(fmt("duration=%.17g f=%.17g", duration, f));
      const auto got = Table::select_waves_for_analysis(duration, f);
      std::vector<std::string> want;
      bool edge = false;
      for (int i = 0; i < 75; ++i) {
        const double p = ref::speed(i) != 0 ? 360 / ref::speed(i) : inf;
        const double limit = f * (duration / 3600);
        edge = edge || std::abs(p - limit) < 1e-9 * limit;
        if (p < limit) want.push_back(ref::kSpec[i].name);
      }
      if (!edge) c.check(got == want, "select", fmt("%zu waves, expected %zu (duration %.17g, factor %.17g)", got.size(), want.size(), duration, f));
      if (f == 2 && !edge) c.check(Table::select_waves_for_analysis(duration) == got, "select-default", "the default factor is not 2");
    }
    c.distinct(bits(duration) ^ bits(f));
  });
}

int main(int argc, char** argv) {
  Harness H(argc, argv);
  angles(H);
  nodal(H);
  admittance(H);
  lpe(H);
  names(H);
  return H.finish();
}
