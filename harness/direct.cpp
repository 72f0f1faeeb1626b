// What the library computes, asked without its Python bindings: the oracle of
// h_core.py.  Linked with the bindings, called through ctypes.
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"

#define API extern "C" __attribute__((visibility("default")))

namespace {
std::string error;
using Doubles = Eigen::Map<const Eigen::VectorXd>;
using Leaps = Eigen::Map<const Eigen::Matrix<uint16_t, -1, 1>>;

struct Model {
  virtual ~Model() = default;
  virtual void add(int id, const double* re_im, long n) = 0;
  virtual void dynamic(const int* ids, long n) = 0;
  virtual void tide(const double* epoch, const uint16_t* leap, const double* lon, const double* lat, long n, int formulae, double tolerance, const int* excluded, long nx,
                    long threads, double* tide, double* lp, uint8_t* quality) = 0;
  virtual long values(double lon, double lat, int* ids, double* re_im, int* quality) = 0;
};
std::vector<fes::Constituent> idents(const int* ids, long n) {
  std::vector<fes::Constituent> v;
  for (long i = 0; i < n; ++i) v.push_back(static_cast<fes::Constituent>(ids[i]));
  return v;
}
template <typename T> struct ModelOf : Model {
  std::shared_ptr<fes::AbstractTidalModel<T>> m;
  void add(int id, const double* x, long n) override {
    fes::Vector<std::complex<T>> w(n);
    for (long i = 0; i < n; ++i) w[i] = std::complex<T>(static_cast<T>(x[2 * i]), static_cast<T>(x[2 * i + 1]));
    m->add_constituent(static_cast<fes::Constituent>(id), w);
  }
  void dynamic(const int* ids, long n) override { m->dynamic(idents(ids, n)); }
  void tide(const double* epoch, const uint16_t* leap, const double* lon, const double* lat, long n, int formulae, double tolerance, const int* excluded, long nx, long threads,
            double* tide, double* lp, uint8_t* quality) override {
    auto r = fes::evaluate_tide<T>(m.get(), Eigen::VectorXd(Doubles(epoch, n)), Eigen::Matrix<uint16_t, -1, 1>(Leaps(leap, n)), Eigen::VectorXd(Doubles(lon, n)), Eigen::VectorXd(Doubles(lat, n)),
                                   fes::Settings(static_cast<fes::angle::Formulae>(formulae), tolerance, idents(excluded, nx)), static_cast<size_t>(threads));
    for (long i = 0; i < n; ++i) {
      tide[i] = std::get<0>(r)[i];
      lp[i] = std::get<1>(r)[i];
      quality[i] = static_cast<uint8_t>(std::get<2>(r)[i]);
    }
  }
  long values(double lon, double lat, int* ids, double* x, int* quality) override {
    std::unique_ptr<fes::Accelerator> acc(m->accelerator(fes::angle::Formulae::kSchuremanOrder1, 0.0));
    auto q = fes::Quality::kUndefined;
    long n = 0;
    for (const auto& item : m->interpolate(fes::geometry::Point(lon, lat), q, acc.get())) {
      ids[n] = static_cast<int>(item.first);
      x[2 * n] = item.second.real();
      x[2 * n + 1] = item.second.imag();
      ++n;
    }
    *quality = static_cast<int>(q);
    return n;
  }
};
template <typename T> Model* grid(const double* lon, long nlon, double eps, int circular, const double* lat, long nlat, int type, int lon_major) {
  auto r = std::unique_ptr<ModelOf<T>>(new ModelOf<T>());
  r->m = std::make_shared<fes::tidal_model::Cartesian<T>>(fes::Axis(Eigen::VectorXd(Doubles(lon, nlon)), eps, circular != 0), fes::Axis(Eigen::VectorXd(Doubles(lat, nlat))),
                                                          static_cast<fes::TideType>(type), lon_major != 0);
  return r.release();
}
template <typename M, typename T> Model* mesh(const double* lon, const double* lat, long n, const int* triangles, const int* codes, long m, int width, int type, double distance) {
  auto r = std::unique_ptr<ModelOf<T>>(new ModelOf<T>());
  Eigen::Matrix<int32_t, -1, 3> t(m, 3);
  typename M::codes_t c(m, width);
  for (long i = 0; i < m; ++i) {
    for (int j = 0; j < 3; ++j) t(i, j) = triangles[3 * i + j];
    for (int j = 0; j < width; ++j) c(i, j) = codes[width * i + j];
  }
  r->m = std::make_shared<M>(std::make_shared<fes::mesh::Index>(Eigen::VectorXd(Doubles(lon, n)), Eigen::VectorXd(Doubles(lat, n)), t), c, static_cast<fes::TideType>(type), distance);
  return r.release();
}
template <typename F> auto guarded(F f) -> decltype(f()) {
  try {
    return f();
  } catch (const std::exception& e) {
    error = e.what();
    return decltype(f())();
  }
}
}  // namespace

API const char* vf_error() { return error.c_str(); }
API Model* vf_grid(int is_float, const double* lon, long nlon, double eps, int circular, const double* lat, long nlat, int type, int lon_major) {
  return guarded([&]() -> Model* { return is_float ? grid<float>(lon, nlon, eps, circular, lat, nlat, type, lon_major) : grid<double>(lon, nlon, eps, circular, lat, nlat, type, lon_major); });
}
API Model* vf_mesh(int is_float, int degree, const double* lon, const double* lat, long n, const int* triangles, const int* codes, long m, int type, double distance) {
  return guarded([&]() -> Model* {
    using namespace fes::tidal_model;
    return degree == 1 ? (is_float ? mesh<LGP1<float>, float>(lon, lat, n, triangles, codes, m, 3, type, distance) : mesh<LGP1<double>, double>(lon, lat, n, triangles, codes, m, 3, type, distance))
                       : (is_float ? mesh<LGP2<float>, float>(lon, lat, n, triangles, codes, m, 6, type, distance) : mesh<LGP2<double>, double>(lon, lat, n, triangles, codes, m, 6, type, distance));
  });
}
API void vf_free(Model* m) { delete m; }
API int vf_add(Model* m, int id, const double* x, long n) { return guarded([&]() -> int { m->add(id, x, n); return 1; }); }
API int vf_dynamic(Model* m, const int* ids, long n) { return guarded([&]() -> int { m->dynamic(ids, n); return 1; }); }
API int vf_tide(Model* m, const double* epoch, const uint16_t* leap, const double* lon, const double* lat, long n, int formulae, double tolerance, const int* excluded, long nx, long threads,
                double* tide, double* lp, uint8_t* quality) {
  return guarded([&]() -> int { m->tide(epoch, leap, lon, lat, n, formulae, tolerance, excluded, nx, threads, tide, lp, quality); return 1; });
}
API long vf_values(Model* m, double lon, double lat, int* ids, double* x, int* quality) { return guarded([&]() -> long { return m->values(lon, lat, ids, x, quality); }); }

API const char* vf_name(int id) { return fes::constituents::name(static_cast<fes::Constituent>(id)); }
API int vf_parse(const char* n) { return guarded([&]() -> int { return static_cast<int>(fes::constituents::parse(n)) + 1; }) - 1; }

// t, n, h, s, p1, p, i, xi, nu, x1ra, r, nuprim, nusec
API void vf_angles(int formulae, double epoch, int leap, double* out) {
  fes::angle::Astronomic a(static_cast<fes::angle::Formulae>(formulae));
  a.update(epoch, static_cast<uint16_t>(leap));
  const double v[] = {a.t(), a.n(), a.h(), a.s(), a.p1(), a.p(), a.i(), a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
  std::memcpy(out, v, sizeof(v));
}
// The order of the constituents in a table, and for each: f, u, v, vu, freq, period.
API long vf_table(const char* const* names, long n, int formulae, double epoch, int leap, int* ids, double* out) {
  return guarded([&]() -> long {
    fes::wave::Table t(std::vector<std::string>(names, names + n));
    fes::angle::Astronomic a(static_cast<fes::angle::Formulae>(formulae));
    a.update(epoch, static_cast<uint16_t>(leap));
    t.compute_nodal_corrections(a);
    long k = 0;
    for (const auto& w : t) {
      ids[k] = static_cast<int>(w->ident());
      const double v[] = {w->f(), w->u(), w->v(), w->vu(), w->freq(), w->period()};
      std::memcpy(out + 6 * k++, v, sizeof(v));
    }
    return k;
  });
}
// Amplitudes inferred by admittance in a full table from the tides given; lpe at a latitude without the dynamic constituents.
API int vf_admittance(const int* ids, const double* x, long n, double* all) {
  return guarded([&]() -> int {
    fes::wave::Table t;
    for (long i = 0; i < n; ++i) {
      auto w = t[static_cast<fes::Constituent>(ids[i])];
      w->dynamic(true);
      w->admittance(false);
      w->tide(std::complex<double>(x[2 * i], x[2 * i + 1]));
    }
    t.admittance();
    for (size_t i = 0; i < t.size(); ++i) {
      all[2 * i] = t[static_cast<fes::Constituent>(i)]->tide().real();
      all[2 * i + 1] = t[static_cast<fes::Constituent>(i)]->tide().imag();
    }
    return 1;
  });
}
API double vf_lpe(int formulae, double epoch, int leap, double lat, const int* dynamic, long n) {
  fes::wave::Table t;
  for (long i = 0; i < n; ++i) t[static_cast<fes::Constituent>(dynamic[i])]->dynamic(true);
  fes::wave::LongPeriodEquilibrium l;
  l.disable_dynamic_wave(t);
  fes::angle::Astronomic a(static_cast<fes::angle::Formulae>(formulae));
  a.update(epoch, static_cast<uint16_t>(leap));
  return l.lpe_minus_n_waves(a, lat);
}
API int vf_series(const char* const* names, long n, int formulae, const double* epoch, const uint16_t* leap, long m, const double* x, double* tide, double* f, double* vu) {
  return guarded([&]() -> int {
    fes::wave::Table t(std::vector<std::string>(names, names + n));
    Eigen::VectorXd e = Doubles(epoch, m);
    Eigen::Matrix<uint16_t, -1, 1> l = Leaps(leap, m);
    Eigen::VectorXcd w(static_cast<long>(t.size()));
    for (long i = 0; i < w.size(); ++i) w[i] = std::complex<double>(x[2 * i], x[2 * i + 1]);
    Eigen::Map<Eigen::VectorXd>(tide, m) = t.tide_from_tide_series(e, l, w, static_cast<fes::angle::Formulae>(formulae));
    auto r = t.compute_nodal_modulations(e, l, static_cast<fes::angle::Formulae>(formulae));
    Eigen::Map<Eigen::MatrixXd>(f, w.size(), m) = std::get<0>(r);
    Eigen::Map<Eigen::MatrixXd>(vu, w.size(), m) = std::get<1>(r);
    return 1;
  });
}
// All matrices by columns.
API int vf_mapping(const char* const* names, long n, int formulae, double epoch, int leap, const double* x, long rows, long cols, double* out, long size) {
  return guarded([&]() -> int {
    fes::wave::Table t(std::vector<std::string>(names, names + n));
    Eigen::MatrixXcd w(rows, cols);
    for (long i = 0; i < rows * cols; ++i) w.data()[i] = std::complex<double>(x[2 * i], x[2 * i + 1]);
    Eigen::MatrixXd r = t.tide_from_mapping(epoch, static_cast<uint16_t>(leap), w, static_cast<fes::angle::Formulae>(formulae), 1);
    if (r.size() != size) throw std::runtime_error("unexpected size: " + std::to_string(r.rows()) + "x" + std::to_string(r.cols()));
    std::memcpy(out, r.data(), static_cast<size_t>(size) * sizeof(double));
    return 1;
  });
}
API int vf_analysis(const double* h, long m, const double* f, const double* vu, long n, double* x) {
  return guarded([&]() -> int {
    Eigen::VectorXd hh = Doubles(h, m);
    Eigen::MatrixXd ff = Eigen::Map<const Eigen::MatrixXd>(f, n, m), vv = Eigen::Map<const Eigen::MatrixXd>(vu, n, m);
    Eigen::VectorXcd r = fes::wave::Table::harmonic_analysis(hh, ff, vv);
    for (long i = 0; i < n; ++i) {
      x[2 * i] = r[i].real();
      x[2 * i + 1] = r[i].imag();
    }
    return 1;
  });
}
API long vf_select(double duration, double factor, char* out, long size) {
  return guarded([&]() -> long {
    auto v = fes::wave::Table::select_waves_for_analysis(duration, factor);
    std::string s;
    for (const auto& x : v) s += x + ",";
    std::strncpy(out, s.c_str(), static_cast<size_t>(size) - 1);
    return static_cast<long>(v.size());
  });
}
// start, step, end, min, max, size, ascending, circular, then index and indices of each value
API int vf_axis(const double* points, long n, double eps, int circular, const double* at, long m, int bounded, double* head, long* found) {
  return guarded([&]() -> int {
    fes::Axis a(Eigen::VectorXd(Doubles(points, n)), eps, circular != 0);
    const double v[] = {a.start(), a.step(), a.end(), a.min_value(), a.max_value(), static_cast<double>(a.size()), static_cast<double>(a.is_ascending()), static_cast<double>(a.is_circular())};
    std::memcpy(head, v, sizeof(v));
    for (long i = 0; i < m; ++i) {
      found[3 * i] = a.find_index(at[i], bounded != 0);
      auto r = a.find_indices(at[i]);
      found[3 * i + 1] = r ? std::get<0>(*r) : -9;
      found[3 * i + 2] = r ? std::get<1>(*r) : -9;
    }
    return 1;
  });
}
