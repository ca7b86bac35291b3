// C07: polynomial solvers report exactly the real roots
#include "gen.h"

template <size_t N> static void check_shape(const char* key, size_t num, const double* s, const std::string& what, bool& ok) {
  ok = num <= N;
  CHK(num <= N, key, "count " << num << " " << what);
  for (size_t i = 0; i < N; ++i) {
    if (i < num) {
      CHK(std::isfinite(s[i]), "finite results first", "slot " << i << " of " << num << " " << what);
      ok = ok && std::isfinite(s[i]);
    } else {
      CHK(std::isnan(s[i]), "unused slots are nan", "slot " << i << " of " << num << " got " << s[i] << " " << what);
    }
  }
}
// every expected root is reported, and every result is an expected root
static void match(const double* s, size_t num, const std::vector<L>& roots, L tol, const std::string& what) {
  for (const L r : roots) {
    bool hit = false;
    for (size_t i = 0; i < num; ++i) hit = hit || std::fabs(s[i] - r) <= tol;
    CHK(hit, "root is reported", "missing " << r << " of " << what);
  }
  for (size_t i = 0; i < num; ++i) {
    bool hit = false;
    for (const L r : roots) hit = hit || std::fabs(s[i] - r) <= tol;
    CHK(hit, "result is a root", "result " << s[i] << " of " << what);
  }
}
static std::string desc(const std::vector<double>& c, double eps, const double* s, size_t n) {
  std::ostringstream o;
  o.precision(17);
  o << "coefficients ";
  for (const double x : c) o << x << " ";
  o << "eps " << eps << " results ";
  for (size_t i = 0; i < n; ++i) o << s[i] << " ";
  return o.str();
}
// a(x-r1)...(x^2+px+q)...
static std::vector<L> poly(const std::vector<L>& roots, const std::vector<std::pair<L, L>>& quads, L lead) {
  std::vector<L> c{lead}; // highest first
  const auto mul = [&](const std::vector<L>& f) {
    std::vector<L> r(c.size() + f.size() - 1, 0);
    for (size_t i = 0; i < c.size(); ++i)
      for (size_t j = 0; j < f.size(); ++j) r[i + j] += c[i] * f[j];
    c = r;
  };
  for (const L r : roots) mul({1, -r});
  for (const auto& q : quads) mul({1, q.first, q.second});
  return c;
}
static std::vector<double> rounded(const std::vector<L>& c) { return {c.begin(), c.end()}; }
static std::vector<L> distinct(std::vector<L> r) {
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static std::vector<L> simple_roots(Rng& g, size_t n, double range, double sep) {
  for (;;) {
    std::vector<L> r;
    for (size_t i = 0; i < n; ++i) r.push_back(g.below(3) ? L(g.real(-range, range)) : L(g.irange(-long(range), long(range))));
    bool ok = true;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < i; ++j) ok = ok && std::fabs(r[i] - r[j]) >= sep;
    if (ok) return r;
  }
}
// x^2 + px + q without real roots, bounded away from a double root
static std::pair<L, L> irreducible(Rng& g, double range) {
  const L h = g.below(2) ? L(g.irange(-long(range), long(range))) : L(g.real(-range, range)), im = g.real(0.7, range);
  return {-2 * h, h * h + im * im};
}
static double small_lead(Rng& g) {
  static const double l[] = {1, 1, 1, -1, 2, -3, 0.5, 4, 10};
  return g.pick(l);
}
static double lead(Rng& g) {
  return g.chance(1, 4) ? g.logreal(1e-6, 1e6) : small_lead(g);
}

MON_GROUP(quadratic_simple, 60000) {
  const double a = lead(g);
  static const double es[] = {1e-3, 1e-6, 1e-9, 1e-12, 0};
  double e = g.pick(es);
  auto r = simple_roots(g, 2, 50, 0.2);
  const L sc = g.below(2) ? L(1) : lscale(g, -20, 12);
  for (auto& x : r) x *= sc;
  if (sc < 1) e *= double(sc * sc);
  const auto c = rounded(poly(r, {}, a));
  const auto [num, s1, s2] = vm::solve_quadratic(c[0], c[1], c[2], e);
  const double s[] = {s1, s2};
  const auto w = desc(c, e, s, 2);
  bool ok;
  check_shape<2>("count", num, s, w, ok);
  CHK(num == 2, "exact count", w);
  if (ok) match(s, num, r, 1e-8L * sc, w);
}
MON_GROUP(quadratic_none, 30000) {
  const double e = g.below(2) ? 1e-3 : 1e-12;
  const auto q = irreducible(g, 50);
  const auto c = rounded(poly({}, {q}, lead(g)));
  const auto [num, s1, s2] = vm::solve_quadratic(c[0], c[1], c[2], e);
  const double s[] = {s1, s2};
  const auto w = desc(c, e, s, 2);
  bool ok;
  check_shape<2>("count", num, s, w, ok);
  CHK(num == 0, "no real root", w);
}
MON_GROUP(quadratic_double, 30000) {
  static const double es[] = {1e-3, 1e-6, 1e-9};
  const double e = g.pick(es);
  const L r = g.below(2) ? L(g.irange(-50, 50)) : L(g.irange(-400, 400)) / 8;
  const auto c = rounded(poly({r, r}, {}, g.below(2) ? 1 : -2));
  const auto [num, s1, s2] = vm::solve_quadratic(c[0], c[1], c[2], e);
  const double s[] = {s1, s2};
  const auto w = desc(c, e, s, 2);
  bool ok;
  check_shape<2>("count", num, s, w, ok);
  CHK(num == 1, "double root is one result", w);
  if (ok) match(s, num, {r}, 1e-8, w);
}
template <typename T> static void quadratic_float(Rng& g) {
  const auto r = simple_roots(g, 2, 10, 1);
  const auto cl = poly(r, {}, lead(g));
  const auto [num, s1, s2] = vm::solve_quadratic(T(cl[0]), T(cl[1]), T(cl[2]), T(1e-3));
  const double s[] = {double(s1), double(s2)};
  const auto w = desc(rounded(cl), 1e-3, s, 2);
  bool ok;
  check_shape<2>("count", num, s, w, ok);
  CHK(num == 2, "exact count", w);
  if (ok) match(s, num, r, 2e-3, w);
}
MON_GROUP_T(quadratic_float, 20000, float)

MON_GROUP(cubic_simple, 60000) {
  static const double es[] = {1e-9, 1e-12, 1e-12};
  double e = g.pick(es);
  std::vector<L> r;
  std::vector<L> cl;
  const double a = lead(g);
  const L sc = g.below(2) ? L(1) : lscale(g, -6, 8);
  if (sc < 1) e *= double(sc * sc * sc * sc * sc * sc);
  if (g.below(2)) {
    r = simple_roots(g, 3, 10, 0.25);
    for (auto& x : r) x *= sc;
    cl = poly(r, {}, a);
    OBS("three real roots");
  } else {
    r = simple_roots(g, 1, 10, 1);
    for (auto& x : r) x *= sc;
    auto q = irreducible(g, 6);
    q.first *= sc;
    q.second *= sc * sc;
    cl = poly(r, {q}, a);
    OBS("one real root");
  }
  const auto c = rounded(cl);
  const auto [num, s1, s2, s3] = vm::solve_cubic(c[0], c[1], c[2], c[3], e);
  const double s[] = {s1, s2, s3};
  const auto w = desc(c, e, s, 3);
  bool ok;
  check_shape<3>("count", num, s, w, ok);
  CHK(num == r.size(), "exact count", "expected " << r.size() << " " << w);
  if (ok) match(s, num, r, 5e-4L * sc, w);
}
// small integer roots with multiplicities: the discriminant is exact enough to be recognised
MON_GROUP(cubic_multiple, 40000) {
  static const double es[] = {1e-3, 1e-6, 1e-9};
  const double e = g.pick(es);
  std::vector<L> r;
  const L x = L(g.irange(-6, 6)), y = L(g.irange(-6, 6));
  switch (g.below(3)) {
    case 0: r = {x, x, x}; OBS("triple"); break;
    case 1: r = {x, x, y}; OBS("double"); break;
    default: r = {x, y, L(g.irange(-6, 6))}; break;
  }
  const auto c = rounded(poly(r, {}, g.below(2) ? 1 : -2));
  const auto [num, s1, s2, s3] = vm::solve_cubic(c[0], c[1], c[2], c[3], e);
  const double s[] = {s1, s2, s3};
  const auto w = desc(c, e, s, 3);
  bool ok;
  check_shape<3>("count", num, s, w, ok);
  const auto d = distinct(r);
  CHK(num >= d.size(), "at least the distinct roots", w);
  if (ok) match(s, num, d, 1e-3, w);
}
MON_GROUP(quartic_simple, 60000) {
  static const double es[] = {1e-8, 1e-9, 1e-9};
  const double e = g.pick(es);
  std::vector<L> r;
  std::vector<L> cl;
  const double a = lead(g);
  switch (g.below(3)) {
    case 0: r = simple_roots(g, 4, 6, 0.4); cl = poly(r, {}, a); OBS("four real roots"); break;
    case 1: r = simple_roots(g, 2, 6, 0.4); cl = poly(r, {irreducible(g, 5)}, a); OBS("two real roots"); break;
    default: cl = poly({}, {irreducible(g, 5), irreducible(g, 5)}, a); OBS("no real root"); break;
  }
  const auto c = rounded(cl);
  const auto [num, s1, s2, s3, s4] = vm::solve_quartic(c[0], c[1], c[2], c[3], c[4], e);
  const double s[] = {s1, s2, s3, s4};
  const auto w = desc(c, e, s, 4);
  bool ok;
  check_shape<4>("count", num, s, w, ok);
  CHK(num == r.size(), "exact count", "expected " << r.size() << " " << w);
  if (ok) match(s, num, r, 1e-3, w);
}
// biquadratic and otherwise structured polynomials (q == 0, r == 0, symmetric roots)
MON_GROUP(quartic_structured, 60000) {
  static const double es[] = {1e-6, 1e-9, 1e-9};
  const double e = g.pick(es);
  std::vector<L> r;
  std::vector<L> cl;
  const L sh = L(g.irange(-3, 3));
  const L x = L(g.irange(1, 4)), y = x + L(g.irange(1, 3));
  switch (g.below(5)) {
    case 0: r = {sh + x, sh - x, sh + y, sh - y}; cl = poly(r, {}, 1); OBS("symmetric"); break;
    case 1: // (x-s)^2 = -k twice: no roots
      cl = poly({}, {{-2 * sh, sh * sh + x * x}, {-2 * sh, sh * sh + y * y}}, 1);
      OBS("biquadratic without roots");
      break;
    case 2: r = {sh + x, sh - x}; cl = poly(r, {{-2 * sh, sh * sh + y * y}}, 1); OBS("biquadratic with two roots"); break;
    case 3: { // the depressed quartic has the root zero
      const L u = L(g.irange(-3, 3)) * 4, v = L(g.irange(-3, 3)) * 4 + 1;
      r = {u, v};
      const L w = -(u + v) ;
      r.push_back(w);
      r.push_back(0);
      for (auto& q : r) q += sh;
      cl = poly(r, {}, 1);
      OBS("zero root of the depressed quartic");
      break;
    }
    default: {
      for (int i = 0; i < 4; ++i) r.push_back(L(g.irange(-6, 6)));
      cl = poly(r, {}, 1);
      OBS("integer roots with multiplicities");
      break;
    }
  }
  const auto c = rounded(cl);
  const auto [num, s1, s2, s3, s4] = vm::solve_quartic(c[0], c[1], c[2], c[3], c[4], e);
  const double s[] = {s1, s2, s3, s4};
  const auto w = desc(c, e, s, 4);
  bool ok;
  check_shape<4>("count", num, s, w, ok);
  const auto d = distinct(r);
  CHK(num >= d.size(), "at least the distinct roots", w);
  if (d.empty()) CHK(num == 0, "no real root", w);
  if (ok) match(s, num, d, 2e-3, w);
}
// number of sign changes on a grid: each proves a real root
static size_t sign_changes(const std::vector<double>& c) {
  size_t changes = 0;
  L prev = 0;
  for (int i = -2000; i <= 2000; ++i) {
    const L x = L(i) / 20 + 0.0123L;
    L v = 0;
    for (const double k : c) v = v * x + k;
    if (i > -2000 && (v > 0) != (prev > 0)) ++changes;
    prev = v;
  }
  return changes;
}
// backward error: the result is a root of a slightly perturbed polynomial
static bool small_residual(const std::vector<double>& c, double x, L tol) {
  L v = 0, mag = 0;
  for (const double k : c) {
    v = v * x + k;
    mag = mag * (std::fabs(L(x)) + 1) + std::fabs(L(k));
  }
  return std::fabs(v) <= tol * mag;
}
// arbitrary coefficients: whatever is reported is a root, and a sign change needs a root
MON_GROUP(residual, 40000) {
  std::vector<double> c;
  const int deg = int(g.irange(2, 3));
  const double f = g.chance(1, 4) ? g.logreal(1e-6, 1e6) : 1;
  for (int i = 0; i <= deg; ++i) c.push_back(f * (i ? g.coord<double>(8) : small_lead(g)));
  double s[3];
  size_t num = 0, n = size_t(deg);
  const double e = 1e-10;
  if (deg == 2) std::tie(num, s[0], s[1]) = vm::solve_quadratic(c[0], c[1], c[2], e);
  else std::tie(num, s[0], s[1], s[2]) = vm::solve_cubic(c[0], c[1], c[2], c[3], e);
  const auto w = desc(c, e, s, n);
  bool ok;
  if (deg == 2) check_shape<2>("count", num, s, w, ok);
  else check_shape<3>("count", num, s, w, ok);
  if (!ok) return;
  if (deg == 3) CHK(num >= 1, "a cubic has a real root", w);
  for (size_t i = 0; i < num; ++i) CHK(small_residual(c, s[i], 1e-4L), "residual", "result " << s[i] << " " << w);
  CHK(num >= sign_changes(c), "a sign change needs a root", "sign changes " << sign_changes(c) << " " << w);
}
// Ferrari's method loses accuracy for rare coefficients; a correct solver is accurate for almost all
MON_GROUP(quartic_typical, 3000) {
  size_t good = 0, total = 25;
  std::string bad;
  for (size_t k = 0; k < total; ++k) {
    std::vector<double> c;
    const double f = g.chance(1, 4) ? g.logreal(1e-6, 1e6) : 1;
    for (int i = 0; i <= 4; ++i) c.push_back(f * (i ? g.coord<double>(8) : small_lead(g)));
    double s[4];
    size_t num = 0;
    std::tie(num, s[0], s[1], s[2], s[3]) = vm::solve_quartic(c[0], c[1], c[2], c[3], c[4], 1e-9);
    bool ok;
    const auto w = desc(c, 1e-9, s, 4);
    check_shape<4>("count", num, s, w, ok);
    if (!ok) continue;
    ok = num >= sign_changes(c);
    for (size_t i = 0; i < num; ++i) ok = ok && small_residual(c, s[i], 1e-8L);
    if (ok) ++good;
    else bad = w;
  }
  CHK(good >= 20, "most quartics are solved accurately", "only " << good << " of " << total << ", e.g. " << bad);
  if (good == total) OBS("all accurate");
}
MON_GROUP(cubic_typical, 3000) {
  size_t good = 0, total = 25;
  std::string bad;
  for (size_t k = 0; k < total; ++k) {
    const auto r = g.below(2) ? simple_roots(g, 3, 10, 0.25) : simple_roots(g, 1, 10, 0.25);
    const auto c = rounded(poly(r, r.size() == 1 ? std::vector<std::pair<L, L>>{irreducible(g, 6)} : std::vector<std::pair<L, L>>{}, lead(g)));
    double s[3];
    size_t num = 0;
    std::tie(num, s[0], s[1], s[2]) = vm::solve_cubic(c[0], c[1], c[2], c[3], 1e-10);
    bool ok = num == r.size();
    for (const L x : r) {
      bool hit = false;
      for (size_t i = 0; i < std::min<size_t>(num, 3); ++i) hit = hit || std::fabs(s[i] - x) < 1e-8L;
      ok = ok && hit;
    }
    if (ok) ++good;
    else bad = desc(c, 1e-10, s, 3);
  }
  CHK(good >= 20, "most cubics are solved accurately", "only " << good << " of " << total << ", e.g. " << bad);
}
// roots far from the origin compared to their distances, in batches
MON_GROUP(far_roots, 6000) {
  const size_t deg = size_t(g.irange(2, 4)), total = 25;
  size_t good = 0;
  std::string bad;
  for (size_t k = 0; k < total; ++k) {
    auto r = simple_roots(g, deg, 4, 1);
    const L sh = g.below(2) ? L(g.irange(-100, 100)) : L(g.real(-100, 100));
    for (auto& x : r) x += sh;
    const auto c = rounded(poly(r, {}, small_lead(g)));
    double s[4] = {};
    size_t num = 0;
    const double e = deg == 2 ? 1e-9 : 1e-6;
    if (deg == 2) std::tie(num, s[0], s[1]) = vm::solve_quadratic(c[0], c[1], c[2], e);
    else if (deg == 3) std::tie(num, s[0], s[1], s[2]) = vm::solve_cubic(c[0], c[1], c[2], c[3], e);
    else std::tie(num, s[0], s[1], s[2], s[3]) = vm::solve_quartic(c[0], c[1], c[2], c[3], c[4], e);
    bool ok = num == deg;
    for (const L x : r) {
      bool hit = false;
      for (size_t i = 0; i < std::min(num, deg); ++i) hit = hit || std::fabs(s[i] - x) < 5e-3L;
      ok = ok && hit;
    }
    if (ok) ++good;
    else bad = desc(c, e, s, deg);
  }
  CHK(good >= 20, "most polynomials with distant roots are solved accurately", "only " << good << " of " << total << ", e.g. " << bad);
  if (deg == 4) OBS("quartics");
  if (good == total) OBS("all accurate");
}
// single precision, in batches
MON_GROUP(float_typical, 3000) {
  size_t good3 = 0, good4 = 0, total = 25;
  std::string bad;
  for (size_t k = 0; k < total; ++k) {
    const bool full = g.below(2);
    auto r = simple_roots(g, full ? 3 : 1, 5, 1);
    std::vector<std::pair<L, L>> q;
    if (!full) q.push_back(irreducible(g, 4));
    const double a = g.below(2) ? 1 : -2;
    auto c = poly(r, q, a);
    {
      const auto [num, x, y, z] = vm::solve_cubic(float(c[0]), float(c[1]), float(c[2]), float(c[3]), 1e-4f);
      const double s[] = {x, y, z};
      bool ok;
      const auto w = desc(rounded(c), 1e-4, s, 3);
      check_shape<3>("count", num, s, w, ok);
      ok = ok && num == r.size();
      for (const L e : r) {
        bool hit = false;
        for (size_t i = 0; i < std::min<size_t>(num, 3); ++i) hit = hit || std::fabs(s[i] - e) < 1e-2L;
        ok = ok && hit;
      }
      good3 += ok;
      if (!ok) bad = w;
    }
    r = simple_roots(g, full ? 4 : 2, 4, 1);
    c = poly(r, q, a);
    {
      const auto [num, x, y, z, u] = vm::solve_quartic(float(c[0]), float(c[1]), float(c[2]), float(c[3]), float(c[4]), 1e-3f);
      const double s[] = {x, y, z, u};
      bool ok;
      const auto w = desc(rounded(c), 1e-3, s, 4);
      check_shape<4>("count", num, s, w, ok);
      ok = ok && num == r.size();
      for (const L e : r) {
        bool hit = false;
        for (size_t i = 0; i < std::min<size_t>(num, 4); ++i) hit = hit || std::fabs(s[i] - e) < 5e-2L;
        ok = ok && hit;
      }
      good4 += ok;
      if (!ok) bad = w;
    }
  }
  CHK(good3 >= 20, "most cubics are solved accurately", "only " << good3 << " of " << total << ", e.g. " << bad);
  CHK(good4 >= 18, "most quartics are solved accurately", "only " << good4 << " of " << total << ", e.g. " << bad);
  if (good4 >= 20) OBS("quartics mostly accurate");
}

MON_MAIN("C07")
