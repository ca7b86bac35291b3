// Runtime monitor support: workload generation, oracle reporting, event accounting.
//
// A harness registers groups (MON_GROUP). A group is a workload step that is executed for a number
// of iterations; the random stream of an iteration is a function of (seed, group, iteration) only,
// so that every observation can be replayed with --group G --iter I. Oracles report through CHK.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

namespace mon {
using L = long double;

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) {
    h = (h ^ uint64_t((unsigned char)*s)) * 1099511628211ull;
  }
  return h;
}

// ---------------------------------------------------------------- random stream
struct Rng {
  uint64_t s;
  uint64_t input_hash = 0;

  explicit Rng(uint64_t seed)
    : s(seed) {}

  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ull;
    const uint64_t r = mix64(s);
    input_hash = (input_hash ^ r) * 0x100000001b3ull;
    return r;
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  long irange(long lo, long hi) { return lo + long(below(uint64_t(hi - lo + 1))); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit01() { return double(u64() >> 11) * 0x1.0p-53; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit01(); }
  double logreal(double lo, double hi) { // magnitude log-uniform, random sign
    const double m = std::exp(real(std::log(lo), std::log(hi)));
    return below(2) ? m : -m;
  }
  template <typename C> auto& pick(C& c) { return c[below(std::size(c))]; }
  template <typename C> const auto& pick(const C& c) { return c[below(std::size(c))]; }
  template <typename C> void shuffle(C& c) {
    for (size_t i = c.size(); i > 1; --i) {
      std::swap(c[i - 1], c[below(i)]);
    }
  }

  // well behaved numbers: integers, dyadic fractions, uniform and log-uniform reals
  template <typename T> T nice() {
    if constexpr (std::is_same<T, bool>::value) {
      return below(2) != 0;
    } else if constexpr (std::is_integral<T>::value) {
      return std::is_signed<T>::value ? T(irange(-1000, 1000)) : T(irange(0, 1000));
    } else {
      switch (below(8)) {
        case 0:
        case 1:
          return T(irange(-8, 8));
        case 2:
          return T(irange(-64, 64)) / T(4);
        case 3:
          return T(irange(-1000, 1000)) / T(8);
        case 4:
        case 5:
          return T(real(-10, 10));
        case 6:
          return T(real(-1000, 1000));
        default:
          return T(logreal(1e-4, 1e4));
      }
    }
  }
  // moderately scaled coordinates
  template <typename T> T coord(double range = 10.0) {
    switch (below(4)) {
      case 0:
        return T(irange(-long(range), long(range)));
      case 1:
        return T(irange(-long(range) * 4, long(range) * 4)) / T(4);
      default:
        return T(real(-range, range));
    }
  }
  // any value of the type, with emphasis on the extreme ones
  template <typename T> T wild() {
    if constexpr (!std::is_floating_point<T>::value) {
      return nice<T>();
    } else {
      using N = std::numeric_limits<T>;
      switch (below(12)) {
        case 0: {
          const T sp[] = {T(0),           -T(0),         N::infinity(),  -N::infinity(),
                          N::quiet_NaN(), N::max(),      -N::max(),      N::min(),
                          -N::min(),      N::denorm_min(), -N::denorm_min(), N::epsilon(),
                          T(1),           T(-1),         T(0.5),         T(-0.5),
                          T(9223372036854775808.0), T(-9223372036854775808.0), T(4294967296.0),
                          T(2147483648.0), T(-2147483648.0)};
          return pick(sp);
        }
        case 1: { // raw bit pattern
          T v;
          const uint64_t b = u64();
          std::memcpy(&v, &b, sizeof(T));
          return v;
        }
        case 2: { // powers of two and their neighbours
          T v = std::ldexp(T(1), int(irange(-70, 70)));
          const auto k = irange(-2, 2);
          for (long i = 0; i < std::labs(k); ++i) {
            v = std::nextafter(v, k < 0 ? -N::infinity() : N::infinity());
          }
          return below(2) ? v : -v;
        }
        case 3: { // ties and neighbours
          T v = T(irange(-2000, 2000)) + T(0.5);
          const auto k = irange(-1, 1);
          if (k) {
            v = std::nextafter(v, k < 0 ? -N::infinity() : N::infinity());
          }
          return v;
        }
        case 4: { // integers and neighbours
          T v = T(irange(-100000, 100000));
          const auto k = irange(-1, 1);
          if (k) {
            v = std::nextafter(v, k < 0 ? -N::infinity() : N::infinity());
          }
          return v;
        }
        case 5:
          return T(logreal(double(N::min()) * 4, double(N::max()) / 4));
        case 6:
          return T(logreal(1e-20, 1e20));
        default:
          return nice<T>();
      }
    }
  }
  template <typename T> T wild_finite() {
    for (;;) {
      const T v = wild<T>();
      if (std::isfinite(v)) {
        return v;
      }
    }
  }
};

// ---------------------------------------------------------------- monitor state
struct Violation {
  std::string group, key, detail;
  uint64_t iter;
  uint64_t count;
};

struct State {
  std::string property = "?";
  uint64_t seed = 1;
  double scale = 1.0;
  bool oracles = true; // off: drive the workload only (sanitizer runs)
  uint64_t evaluations = 0;
  uint64_t checks = 0;
  uint64_t nontrivial = 0;
  const char* group = "";
  const char* what = ""; // what the iteration is doing, for crash reports
  std::string group_name;
  volatile uint64_t iter = 0;
  std::map<std::string, uint64_t> observed;
  std::map<std::string, Violation> violations;
  std::map<std::string, int> sample_count;
  std::vector<std::string> samples;
  std::vector<uint64_t> seen; // open addressing hash set of input hashes
  uint64_t distinct = 0;
  int crash_fd = 2;
};

inline State& st() {
  static State s;
  return s;
}

inline void remember(uint64_t h) {
  auto& s = st();
  if (s.seen.empty()) {
    s.seen.assign(size_t(1) << 22, 0);
  }
  if (s.distinct >= (uint64_t(1) << 21)) {
    return; // the count is a lower bound from here on
  }
  h |= 1;
  const size_t mask = s.seen.size() - 1;
  size_t i = size_t(mix64(h)) & mask;
  while (s.seen[i]) {
    if (s.seen[i] == h) {
      return;
    }
    i = (i + 1) & mask;
  }
  s.seen[i] = h;
  ++s.distinct;
}

inline void fail(const char* key, const std::string& detail) {
  auto& s = st();
  const auto k = s.group_name + "/" + key;
  auto it = s.violations.find(k);
  if (it == s.violations.end()) {
    s.violations[k] = Violation{s.group_name, key, detail, s.iter, 1};
  } else {
    ++it->second.count;
  }
}

inline bool want_sample(const char*) {
  auto& s = st();
  return s.samples.size() < 40 && s.sample_count[s.group_name] < 1;
}

inline void sample(const char* key, const std::string& detail) {
  auto& s = st();
  ++s.sample_count[s.group_name];
  s.samples.push_back(s.group_name + "/" + key + ": " + detail.substr(0, 400));
}

inline void observe(const char* what) { ++st().observed[st().group_name + ":" + what]; }

#define CHK(cond, key, ...)                                                                        \
  do {                                                                                             \
    ++::mon::st().checks;                                                                          \
    const bool mon_ok_ = static_cast<bool>(cond);                                                  \
    if (!mon_ok_ || (::mon::st().checks % 64 == 1 && ::mon::want_sample(key))) {                   \
      std::ostringstream mon_o_;                                                                   \
      mon_o_.precision(17);                                                                        \
      mon_o_ << __VA_ARGS__;                                                                       \
      if (!mon_ok_) {                                                                              \
        ::mon::fail(key, mon_o_.str());                                                            \
      } else {                                                                                     \
        ::mon::sample(key, mon_o_.str());                                                          \
      }                                                                                            \
    }                                                                                              \
  } while (0)

#define OBS(what) ::mon::observe(what)

// ---------------------------------------------------------------- groups
struct Group {
  const char* name;
  uint64_t iterations;
  void (*fn)(Rng&);
};

inline std::vector<Group>& groups() {
  static std::vector<Group> g;
  return g;
}

struct Reg {
  Reg(const char* n, uint64_t it, void (*fn)(Rng&)) { groups().push_back({n, it, fn}); }
};

#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define MON_GROUP(name, iterations)                                                                \
  static void MON_CAT(mon_group_, name)(::mon::Rng & g);                                           \
  static ::mon::Reg MON_CAT(mon_reg_, name)(#name, iterations, MON_CAT(mon_group_, name));         \
  static void MON_CAT(mon_group_, name)([[maybe_unused]] ::mon::Rng & g)
// groups for a list of instantiations of a function template
#define MON_GROUP_T(name, iterations, ...)                                                         \
  static ::mon::Reg MON_CAT(mon_reg_, MON_CAT(name, __LINE__))(                                    \
    #name "<" #__VA_ARGS__ ">", iterations, name<__VA_ARGS__>);

// ---------------------------------------------------------------- printing
template <typename V> std::string P(const V& v);
template <typename T> inline void print_scalar(std::ostream& o, const T v) { o << v; }

template <typename V, typename = void> struct Printer {
  static void print(std::ostream& o, const V& v) { o << v; }
};
template <typename E> struct Printer<std::vector<E>, void> {
  static void print(std::ostream& o, const std::vector<E>& v) {
    o << "{";
    for (const auto& e : v) {
      Printer<E>::print(o, e);
      o << " ";
    }
    o << "}";
  }
};
template <typename V> std::string P(const V& v) {
  std::ostringstream o;
  o.precision(std::numeric_limits<double>::max_digits10);
  Printer<V>::print(o, v);
  return o.str();
}

// ---------------------------------------------------------------- numeric helpers
template <typename T> constexpr L eps() { return L(std::numeric_limits<T>::epsilon()); }

inline bool both_nan(L a, L b) { return std::isnan(a) && std::isnan(b); }
// |a - b| <= tol, or identical infinities, or both NaN
inline bool near(L a, L b, L tol) {
  if (std::isnan(a) || std::isnan(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  if (std::isinf(a) || std::isinf(b)) {
    return a == b;
  }
  return std::fabs(a - b) <= tol;
}
// equal up to n ulps of the larger magnitude (of type T); tolerates under-/overflow at the border
template <typename T> bool ulps(T a, L b, int n) {
  using N = std::numeric_limits<T>;
  if (std::isnan(a) || std::isnan(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  if (std::isinf(b)) {
    return L(a) == b;
  }
  if (std::isinf(a)) {
    return std::fabs(b) >= L(N::max()) * (1 - n * eps<T>()) && (a > 0) == (b > 0);
  }
  const L m = std::max(std::fabs(L(a)), std::fabs(b));
  return std::fabs(L(a) - b) <= n * (m * eps<T>() + L(N::denorm_min()));
}
// bitwise the same value (NaNs are identified, signed zeros are not distinguished)
template <typename T> bool same(T a, T b) {
  if constexpr (std::is_floating_point<T>::value) {
    return a == b || (std::isnan(a) && std::isnan(b));
  } else {
    return a == b;
  }
}
template <typename T, typename U> bool isfin(const T& v, U n) {
  for (size_t i = 0; i < size_t(n); ++i) {
    if (!std::isfinite(v[i])) {
      return false;
    }
  }
  return true;
}

// ---------------------------------------------------------------- crash and hang reporting
inline void crash_report(const char* kind, int sig) {
  auto& s = st();
  char buf[512];
  const int n = std::snprintf(
    buf, sizeof buf, "MON-%s signal=%d property=%s group=%s iter=%llu seed=%llu %s\n", kind, sig,
    s.property.c_str(), s.group, (unsigned long long)s.iter, (unsigned long long)s.seed, s.what);
  if (n > 0) {
    [[maybe_unused]] auto r = ::write(s.crash_fd, buf, size_t(n));
  }
}
inline void on_signal(int sig) {
  crash_report("CRASH", sig);
  std::signal(sig, SIG_DFL);
  std::raise(sig);
}
struct HangState {
  uint64_t iter = ~0ull;
  const char* group = nullptr;
  int ticks = 0;
};
inline void on_tick(int) { // CPU time, not wall clock
  static HangState h;
  auto& s = st();
  if (h.iter == s.iter && h.group == s.group) {
    if (++h.ticks >= 4) {
      crash_report("HANG", 0);
      ::_exit(4);
    }
  } else {
    h.iter = s.iter;
    h.group = s.group;
    h.ticks = 0;
  }
}
inline void install_handlers(bool watchdog) {
  static char stack[1 << 16];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  ::sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | int(SA_RESETHAND) | SA_NODEFER;
#if !defined(MON_SANITIZED)
  ::sigaction(SIGSEGV, &sa, nullptr);
  ::sigaction(SIGBUS, &sa, nullptr);
  ::sigaction(SIGFPE, &sa, nullptr);
  ::sigaction(SIGILL, &sa, nullptr);
#endif
  ::sigaction(SIGABRT, &sa, nullptr);
  if (watchdog) {
    struct sigaction st_ {};
    st_.sa_handler = on_tick;
    st_.sa_flags = SA_ONSTACK | SA_RESTART;
    ::sigaction(SIGVTALRM, &st_, nullptr);
    itimerval tv{};
    tv.it_interval.tv_sec = 5;
    tv.it_value.tv_sec = 5;
    ::setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  }
}

// ---------------------------------------------------------------- report
inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (const unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

inline void write_report(const char* path) {
  auto& s = st();
  FILE* f = std::fopen(path, "w");
  if (!f) {
    std::perror(path);
    std::exit(5);
  }
  std::fprintf(
    f,
    "{\"property\":%s,\"seed\":%llu,\"evaluations\":%llu,\"checks\":%llu,\"nontrivial\":%llu,"
    "\"distinct\":%llu,\n\"samples\":[",
    jesc(s.property).c_str(), (unsigned long long)s.seed, (unsigned long long)s.evaluations,
    (unsigned long long)s.checks, (unsigned long long)s.nontrivial, (unsigned long long)s.distinct);
  for (size_t i = 0; i < s.samples.size(); ++i) {
    std::fprintf(f, "%s%s", i ? ",\n" : "\n", jesc(s.samples[i]).c_str());
  }
  std::fprintf(f, "],\n\"observed\":{");
  bool first = true;
  for (const auto& [k, v] : s.observed) {
    std::fprintf(f, "%s%s:%llu", first ? "\n" : ",\n", jesc(k).c_str(), (unsigned long long)v);
    first = false;
  }
  std::fprintf(f, "},\n\"violations\":[");
  first = true;
  for (const auto& [k, v] : s.violations) {
    std::fprintf(
      f, "%s{\"group\":%s,\"key\":%s,\"iter\":%llu,\"count\":%llu,\"detail\":%s}",
      first ? "\n" : ",\n", jesc(v.group).c_str(), jesc(v.key).c_str(), (unsigned long long)v.iter,
      (unsigned long long)v.count, jesc(v.detail).c_str());
    first = false;
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
}

inline void run_iteration(const Group& gr, uint64_t iter) {
  auto& s = st();
  s.iter = iter;
  const uint64_t before = s.checks;
  Rng rng(mix64(s.seed * 0x51ed27f5ull + hash_str(gr.name)) ^ mix64(iter + 0x1234567ull));
  gr.fn(rng);
  ++s.evaluations;
  if (s.checks > before) {
    ++s.nontrivial;
    remember(rng.input_hash ^ hash_str(gr.name));
  }
}

// A group is run in stripes so that several processes can share the work.
inline int main_impl(int argc, char** argv, const char* property) {
  auto& s = st();
  s.property = property;
  const char* out = nullptr;
  const char* only = nullptr;
  long long iter = -1;
  uint64_t stripe = 0, stripes = 1;
  for (int i = 1; i < argc; ++i) {
    const auto is = [&](const char* n) { return std::strcmp(argv[i], n) == 0 && i + 1 < argc; };
    if (is("--seed")) s.seed = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--scale")) s.scale = std::atof(argv[++i]);
    else if (is("--out")) out = argv[++i];
    else if (is("--group")) only = argv[++i];
    else if (is("--iter")) iter = std::atoll(argv[++i]);
    else if (is("--stripe")) stripe = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--stripes")) stripes = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--crash-file")) s.crash_fd = ::open(argv[++i], O_CREAT | O_TRUNC | O_WRONLY, 0644);
    else {
      std::fprintf(stderr, "bad argument %s\n", argv[i]);
      return 5;
    }
  }
  install_handlers(true);
  for (const auto& gr : groups()) {
    if (only && std::strcmp(only, gr.name) != 0) {
      continue;
    }
    s.group = gr.name;
    s.group_name = gr.name;
    if (iter >= 0) {
      run_iteration(gr, uint64_t(iter));
      continue;
    }
    const uint64_t n = std::max<uint64_t>(1, uint64_t(double(gr.iterations) * s.scale));
    for (uint64_t i = stripe; i < n; i += stripes) {
      run_iteration(gr, i);
    }
  }
  s.group = "(end)";
  if (out) {
    write_report(out);
  }
  for (const auto& [k, v] : s.violations) {
    std::printf("ORACLE %s iter=%llu count=%llu: %s\n", k.c_str(), (unsigned long long)v.iter,
      (unsigned long long)v.count, v.detail.substr(0, 1000).c_str());
  }
  return s.violations.empty() ? 0 : 1;
}
} // namespace mon

#ifndef MON_NO_MAIN
#define MON_MAIN(property)                                                                         \
  int main(int argc, char** argv) { return ::mon::main_impl(argc, argv, property); }
#else
#define MON_MAIN(property)
#endif
