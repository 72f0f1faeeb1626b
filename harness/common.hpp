// Workload driver shared by every C++ harness: deterministic case generation,
// oracle reporting, and crash attribution.
//
// Protocol on stdout (one record per line, tab separated):
//   @FAIL <key> <section:index> <text>   an oracle was violated
//   @COUNT <name> <n>                    what was observed
//   @SAMPLE <text>                       one actual case
//   @DONE <evaluations>                  the harness ran to its end
// Signatures of distinct, non trivial cases are appended to --sigs FILE.
#pragma once
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf {

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

inline uint64_t bits(double x) {
  uint64_t u;
  std::memcpy(&u, &x, 8);
  return u;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(hi - lo + 1)); }
  double unit() { return (u64() >> 11) * 1.1102230246251565e-16; }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  double gauss() {
    double a = std::max(unit(), 1e-300), b = unit();
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};

// The case being run, for the death callback and the signal handlers.
inline char* current_case() {
  static char buf[256] = "none:0";
  return buf;
}

inline void say_current() {
  const char* c = current_case();
  (void)!write(2, "\n@CRASH_CASE ", 13);
  (void)!write(2, c, strlen(c));
  (void)!write(2, "\n", 1);
}

inline void on_signal(int sig) {
  char buf[64];
  int n = snprintf(buf, sizeof buf, "\n@SIGNAL %d\n", sig);
  (void)!write(2, buf, n);
  say_current();
  signal(sig, SIG_DFL);
  raise(sig);
}

class Harness;

struct Case {
  Harness* h;
  const char* section;
  uint64_t index;
  bool ok = true;
  std::string text;  // description of the inputs, printed with a failure
  void note(const std::string& t) { text += (text.empty() ? "" : "; ") + t; }
  // Reports `key` as violated unless cond; returns cond.
  bool check(bool cond, const std::string& key, const std::string& what);
  bool near(double got, double want, double tol, const std::string& key, const std::string& what);
  // Marks this case as distinct and non trivial under this signature.
  void distinct(uint64_t sig);
  void count(const std::string& name, int64_t n = 1);
  void sample();
};

class Harness {
 public:
  uint64_t seed = 1;
  bool thorough = false;
  Harness(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--seed") seed = std::stoull(next());
      else if (a == "--tier") thorough = next() == "thorough";
      else if (a == "--shard") { auto v = next(); sscanf(v.c_str(), "%lu/%lu", &shard_, &shards_); }
      else if (a == "--sigs") sigs_ = next();
      else if (a == "--only") { auto v = next(); auto p = v.rfind(':'); only_section_ = v.substr(0, p); only_index_ = std::stoll(v.substr(p + 1)); }
      else if (a == "--sections") wanted_ = "," + next() + ",";
      else if (a == "--scale") scale_ = std::stod(next());
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(64); }
    }
#ifdef VF_SAN
    __sanitizer_set_death_callback(say_current);
    signal(SIGFPE, on_signal);
    signal(SIGABRT, on_signal);
#else
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_signal);
#endif
    signal(SIGTERM, on_signal);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  }

  // Runs the cases of a section: quick or thorough many, split over the shards.
  void run(const char* section, uint64_t quick, uint64_t thorough_n,
           const std::function<void(Rng&, Case&)>& body) {
    if (!only_section_.empty() && only_section_ != section) return;
    if (!wanted_.empty() && wanted_.find("," + std::string(section) + ",") == std::string::npos) return;
    const uint64_t n = only_section_.empty()
                           ? static_cast<uint64_t>(std::max<double>(1, (thorough ? thorough_n : quick) * scale_))
                           : only_index_ + 1;
    for (uint64_t ix = only_section_.empty() ? 0 : only_index_; ix < n; ++ix) {
      if (only_section_.empty() && ix % shards_ != shard_) continue;
      snprintf(current_case(), 256, "%s:%lu", section, ix);
      Rng rng(mix(seed) ^ mix(hash_str(section)) ^ mix(ix * 2 + 1));
      Case c{this, section, ix};
      try {
        body(rng, c);
      } catch (const std::exception& e) {
        c.check(false, std::string("unexpected-exception-") + section, e.what());
      } catch (...) {
        c.check(false, std::string("unexpected-exception-") + section, "not a std::exception");
      }
      ++evals_;
      counts_[std::string("cases.") + section]++;
      if (!only_section_.empty()) printf("@CASE %s:%lu %s -> %s\n", section, ix, c.text.c_str(), c.ok ? "ok" : "VIOLATED");
      if (samples_ < 3 && c.ok && !c.text.empty() && sampled_[section] < 1) { sampled_[section]++; ++samples_; c.sample(); }
    }
  }

  void fail(const std::string& key, const std::string& where, const std::string& text) {
    auto& n = fails_[key];
    if (n++ < 5) {
      std::string t = text.substr(0, 3000);
      for (auto& ch : t) if (ch == '\n' || ch == '\t') ch = ' ';
      printf("@FAIL\t%s\t%s\t%s\n", key.c_str(), where.c_str(), t.c_str());
    }
  }
  void count(const std::string& k, int64_t n) { counts_[k] += n; }
  void add_sig(uint64_t s) { if (sigset_.size() < 4000000) sigset_.insert(s); }

  int finish() {
    for (auto& kv : counts_) printf("@COUNT\t%s\t%ld\n", kv.first.c_str(), kv.second);
    for (auto& kv : fails_) printf("@COUNT\tfail.%s\t%lu\n", kv.first.c_str(), kv.second);
    if (!sigs_.empty()) {
      FILE* f = fopen(sigs_.c_str(), "wb");
      if (!f) { fprintf(stderr, "cannot write %s\n", sigs_.c_str()); return 70; }
      for (auto s : sigset_) fwrite(&s, 8, 1, f);
      fclose(f);
    }
    printf("@DONE\t%lu\n", evals_);
    fflush(stdout);
    return 0;
  }

 private:
  uint64_t shard_ = 0, shards_ = 1, evals_ = 0;
  int samples_ = 0;
  double scale_ = 1;
  std::string sigs_, only_section_, wanted_;
  uint64_t only_index_ = 0;
  std::map<std::string, uint64_t> fails_;
  std::map<std::string, int64_t> counts_;
  std::map<std::string, int> sampled_;
  std::unordered_set<uint64_t> sigset_;
};

inline bool Case::check(bool cond, const std::string& key, const std::string& what) {
  if (!cond) {
    ok = false;
    h->fail(key, fmt("%s:%lu", section, index), what + " [" + text + "]");
  }
  return cond;
}
inline bool Case::near(double got, double want, double tol, const std::string& key, const std::string& what) {
  const bool good = (std::isnan(got) && std::isnan(want)) || got == want || std::abs(got - want) <= tol;
  return good ? true : check(false, key, fmt("%s: got %.17g, expected %.17g (tolerance %.3g)", what.c_str(), got, want, tol));
}
inline void Case::distinct(uint64_t sig) { h->add_sig(mix(hash_str(section)) ^ mix(sig)); }
inline void Case::count(const std::string& name, int64_t n) { h->count(name, n); }
inline void Case::sample() {
  std::string t = fmt("%s:%lu ", section, index) + text.substr(0, 600);
  for (auto& ch : t) if (ch == '\n' || ch == '\t') ch = ' ';
  printf("@SAMPLE\t%s\n", t.c_str());
}

// Runs f and returns the kind of exception it ended with: "", "invalid_argument", ...
template <typename F>
std::string thrown(F&& f) {
  try {
    f();
  } catch (const std::invalid_argument&) {
    return "invalid_argument";
  } catch (const std::out_of_range&) {
    return "out_of_range";
  } catch (const std::runtime_error&) {
    return "runtime_error";
  } catch (const std::exception& e) {
    return std::string("exception ") + e.what();
  } catch (...) {
    return "unknown";
  }
  return "";
}

}  // namespace vf
