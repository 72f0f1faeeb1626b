// Helpers shared by the harnesses of the tidal part: random dates, conversion
// between the code's types and the reference's.
#pragma once
#include "fes/angle/astronomic.hpp"
#include "fes/constituent.hpp"
#include "fes/wave.hpp"
#include "fes/wave/table.hpp"

#include "common.hpp"
#include "ref.hpp"

namespace vf {

inline fes::angle::Formulae formulae(int i) {
  using F = fes::angle::Formulae;
  return i == 0 ? F::kSchuremanOrder1 : i == 1 ? F::kSchuremanOrder3 : F::kMeeus;
}

// A date: seconds since 1970, mostly within 1800-2200.
// Most counts of leap seconds are those of the table, now or some day.
inline uint16_t random_leap(Rng& r) { return r.chance(.1) ? r.below(65536) : r.below(45); }

inline double random_epoch(Rng& r) {
  const double day = 86400;
  switch (r.below(8)) {
    case 0: return std::floor(r.uniform(-62000, 84000)) * day;                                   // midnight
    case 1: return std::floor(r.uniform(-62000, 84000)) * day + (r.chance(.5) ? 1e-3 : -1e-3);   // around it
    case 2: return std::floor(r.uniform(-62000 * day, 84000 * day));                             // a whole second
    case 3: {                                                                                    // around 1970, or at a reference
      if (r.chance(.6)) return r.uniform(-1 * day, day);
      // 1970, 1900 and 2000 with their noons, 1972, 1980 (GPS), 2038 and the dates around.
      const double at[] = {0, 0, 0, -25567.0 * day, -25567.5 * day, 10957.0 * day, 10957.5 * day, 730.0 * day, 3657.0 * day, 2147483648.0, -2147483648.0, 4294967296.0};
      return at[r.below(12)] + (r.chance(.5) ? 0 : r.chance(.5) ? r.range(-1, 1) : r.uniform(-1e-3, 1e-3));
    }
    case 4: return 43200 + std::floor(r.uniform(-62000, 84000)) * day;                           // noon
    case 5: return r.uniform(12000 * day, 23000 * day);                                          // 2002-2033
    default: return r.uniform(-62000 * day, 84000 * day);
  }
}

// A date close to another one: what is kept from one date to the next must not show.
inline double near_epoch(Rng& r, double epoch) {
  const double step = r.chance(.3) ? r.pick(std::vector<double>{1e-6, 1e-3, 1, 60, 3600, 86400, 86400 * 30}) : std::exp(r.uniform(std::log(1e-3), std::log(1e7)));
  return epoch + (r.chance(.5) ? step : -step);
}

// After this one, if there is one.
inline double next_epoch(Rng& r, bool first, double before) {
  if (first || r.chance(.4)) return random_epoch(r);
  return r.chance(.2) ? before : near_epoch(r, before);
}

inline ref::Angles from_code(const fes::angle::Astronomic& a) {
  ref::Angles r{};
  r.T = a.t(); r.s = a.s(); r.h = a.h(); r.p = a.p(); r.N = a.n(); r.p1 = a.p1();
  ref::node(r);
  return r;
}

inline std::vector<int> random_subset(Rng& r, int n, double p) {
  std::vector<int> v;
  for (int i = 0; i < n; ++i) if (r.chance(p)) v.push_back(i);
  return v;
}

inline fes::Constituent C(int i) { return static_cast<fes::Constituent>(i); }

}  // namespace vf
