// C26: tolerance wrappers compare within, and only within, their tolerance
#include "gen.h"

#include <vecmath/line_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/vec_io.h>

using vm::approx;
using vm::vec;
using namespace mon;

// difference of the pair relative to the tolerance: all numbers are small dyadic fractions, so that
// a difference of exactly the tolerance is represented exactly
template <typename T> struct Diff {
  T tol;
  bool within, scaled = false;
  std::vector<T> a, b;
};
template <typename T> static Diff<T> diff(Rng& g, size_t n) {
  Diff<T> d;
  d.tol = g.chance(1, 8) ? T(0) : T(1) / T(1 << g.irange(0, 8));
  d.within = true;
  const unsigned mode = unsigned(g.below(3));
  const size_t odd = g.below(n);
  for (size_t i = 0; i < n; ++i) {
    const T x = T(g.irange(-64, 64)) / T(4);
    const T in[] = {T(0), T(0.5), T(-0.5), T(1), T(-1), T(0.875)}, out[] = {T(1.125), T(-1.125), T(2), T(-2), T(100), T(-100)};
    T f = mode == 0 ? g.pick(in) : mode == 1 ? (i == odd ? g.pick(out) : g.pick(in)) : (g.below(5) ? g.pick(in) : g.pick(out));
    T delta = f * d.tol;
    if (d.tol == T(0) && std::fabs(f) > T(1)) delta = f;
    d.a.push_back(x);
    d.b.push_back(x + delta);
    if (std::fabs(delta) > d.tol) d.within = false;
  }
  if (g.chance(1, 4)) { // all of it at another scale
    const T f = T(lscale(g, -40, 40));
    d.tol *= f;
    for (auto& x : d.a) x *= f;
    for (auto& x : d.b) x *= f;
    d.scaled = true;
  }
  return d;
}
template <typename T> static std::string show(const Diff<T>& d) { return P(d.a) + P(d.b) + " tolerance " + P(d.tol); }

template <typename T> static void numbers(Rng& g) {
  const auto d = diff<T>(g, 1);
  const T x = d.a[0], y = d.b[0];
  const approx<T> ax(x, d.tol), ay(y, d.tol);
  const bool w = d.within;
  const auto s = show(d);
  CHK((ax == y) == w && (y == ax) == w && (ay == x) == w && (x == ay) == w, "equality", s);
  CHK((ax != y) == !w && (y != ax) == !w && (ay != x) == !w && (x != ay) == !w, "inequality", s);
  const bool less = !w && x < y, greater = !w && x > y;
  CHK((ax < y) == less && (x < ay) == less, "less", s);
  CHK((ax > y) == greater && (x > ay) == greater, "greater", s);
  CHK((y > ax) == less && (ay > x) == less, "greater, exchanged", s);
  CHK((y < ax) == greater && (ay < x) == greater, "less, exchanged", s);
  CHK((ax <= y) == (less || w) && (x <= ay) == (less || w), "less or equal", s);
  CHK((ax >= y) == (greater || w) && (x >= ay) == (greater || w), "greater or equal", s);
  CHK((y >= ax) == (less || w) && (ay >= x) == (less || w), "greater or equal, exchanged", s);
  CHK((y <= ax) == (greater || w) && (ay <= x) == (greater || w), "less or equal, exchanged", s);
  OBS(w ? (x == y ? "equal" : "within") : less ? "less" : "greater");
  std::ostringstream o, p;
  o << ax;
  p << x;
  CHK(o.str() == p.str(), "printed as the wrapped number", o.str());
  // default tolerance
  const T z = g.nice<T>();
  if (std::fabs(z) < T(100)) {
    const T dd = T(vm::constants<T>::almost_zero());
    const approx<T> az(z);
    CHK(az == z && z == az, "itself", P(z));
    CHK(az == T(z + dd * T(0.5)) && az == T(z - dd * T(0.5)) && T(z + dd * T(0.5)) == az, "within the default tolerance", P(z));
    CHK(az != T(z + dd * T(2)) && az != T(z - dd * T(2)) && az < T(z + dd * T(2)) && az > T(z - dd * T(2)), "outside the default tolerance", P(z));
  }
}
MON_GROUP_T(numbers, 60000, float)
MON_GROUP_T(numbers, 60000, double)

// arbitrary reals, away from the border of the tolerance
template <typename T> static void wide(Rng& g) {
  const T x = g.wild<T>(), e = std::fabs(T(g.logreal(1e-8, 1e4)));
  const T y = g.below(2) ? g.wild<T>() : T(x + e * T(g.real(-3, 3)));
  if (!std::isfinite(x) || !std::isfinite(y)) {
    if (std::isnan(x) || std::isnan(y)) {
      const approx<T> a(x, e);
      CHK(!(a == y) && !(y == a) && (a != y) && (y != a), "not-a-number is equal to nothing", x << " " << y);
      CHK(!(a < y) && !(a > y) && !(a <= y) && !(a >= y) && !(y < a) && !(y > a) && !(y <= a) && !(y >= a), "not-a-number is not ordered", x << " " << y);
    }
    return;
  }
  const L d = std::fabs(L(x) - L(y));
  const L noise = 8 * eps<T>() * std::max({std::fabs(L(x)), std::fabs(L(y)), L(e)});
  if (std::fabs(d - L(e)) <= noise) return;
  const bool w = d < L(e);
  const approx<T> a(x, e);
  CHK((a == y) == w && (y == a) == w && (a != y) == !w && (y != a) == !w, "equality", x << " " << y << " tolerance " << e);
  CHK((a < y) == (!w && x < y) && (y > a) == (!w && x < y) && (a >= y) == (w || x > y) && (y <= a) == (w || x > y), "order", x << " " << y << " tolerance " << e);
  CHK((a > y) == (!w && x > y) && (y < a) == (!w && x > y) && (a <= y) == (w || x < y) && (y >= a) == (w || x < y), "order", x << " " << y << " tolerance " << e);
  OBS(w ? "within" : "outside");
}
MON_GROUP_T(wide, 60000, float)
MON_GROUP_T(wide, 60000, double)

template <typename T, size_t S> static void vectors(Rng& g) {
  const auto d = diff<T>(g, S);
  vec<T, S> a, b;
  for (size_t i = 0; i < S; ++i) {
    a.v[i] = d.a[i];
    b.v[i] = d.b[i];
  }
  using A = approx<vec<T, S>>;
  const A x(a, d.tol), y(b, d.tol);
  const bool w = d.within;
  const auto s = show(d);
  CHK((x == b) == w && (b == x) == w && (y == a) == w && (a == y) == w, "vector equality", s);
  CHK((x != b) == !w && (b != x) == !w && (y != a) == !w && (a != y) == !w, "vector inequality", s);
  // ordered by the first component when that is clearly outside or clearly inside the tolerance
  const T delta = std::fabs(d.a[0] - d.b[0]);
  if (delta != d.tol) {
    const bool less = delta > d.tol && d.a[0] < d.b[0], greater = delta > d.tol && d.a[0] > d.b[0];
    CHK((x < b) == less && (a < y) == less && (b > x) == less && (y > a) == less, "vector less", s);
    CHK((x > b) == greater && (a > y) == greater && (b < x) == greater && (y < a) == greater, "vector greater", s);
    CHK((x <= b) == !greater && (a <= y) == !greater && (b >= x) == !greater && (y >= a) == !greater, "vector less or equal", s);
    CHK((x >= b) == !less && (a >= y) == !less && (b <= x) == !less && (y <= a) == !less, "vector greater or equal", s);
  }
  { // a vector that differs by the tolerance everywhere is equal
    vec<T, S> lo, hi;
    for (size_t i = 0; i < S; ++i) {
      lo.v[i] = d.a[i] - d.tol;
      hi.v[i] = d.a[i] + d.tol;
    }
    for (const auto& e : {lo, hi}) {
      CHK(x == e && e == x && !(x < e) && !(e < x) && !(x > e) && !(e > x), "vector at the border is neither less nor greater", P(e) << s);
      CHK(x <= e && e <= x && x >= e && e >= x, "vector at the border is equal", P(e) << s);
    }
  }
  const A def(a);
  vec<T, S> close = a, far = a;
  const size_t k = g.below(S);
  close.v[k] += vm::constants<T>::almost_zero() * T(g.below(2) ? 0.5 : -0.5);
  far.v[k] += vm::constants<T>::almost_zero() * T(g.below(2) ? 2 : -2);
  if (!d.scaled) CHK(def == a && def == close && close == def && def != far && far != def, "vector, default tolerance", P(a) << P(close) << P(far));
  std::ostringstream o, p;
  o << x;
  p << a;
  CHK(o.str() == p.str(), "printed as the wrapped vector", o.str());
  OBS(w ? "within" : "outside");
}
MON_GROUP_T(vectors, 20000, float, 3)
MON_GROUP_T(vectors, 20000, double, 3)
MON_GROUP_T(vectors, 10000, double, 1)
MON_GROUP_T(vectors, 10000, float, 2)
MON_GROUP_T(vectors, 10000, double, 4)
MON_GROUP_T(vectors, 5000, float, 1)
MON_GROUP_T(vectors, 5000, double, 2)
MON_GROUP_T(vectors, 5000, float, 4)
MON_GROUP_T(vectors, 5000, double, 6)
MON_GROUP_T(vectors, 5000, double, 9)

template <typename T, size_t R, size_t C> static void matrices(Rng& g) {
  const auto d = diff<T>(g, R * C);
  vm::mat<T, R, C> a, b;
  for (size_t i = 0; i < R * C; ++i) {
    a.v[i / R].v[i % R] = d.a[i];
    b.v[i / R].v[i % R] = d.b[i];
  }
  using A = approx<vm::mat<T, R, C>>;
  const A x(a, d.tol), y(b, d.tol);
  const bool w = d.within;
  CHK((x == b) == w && (b == x) == w && (y == a) == w && (a == y) == w, "matrix equality", show(d));
  CHK((x != b) == !w && (b != x) == !w && (y != a) == !w && (a != y) == !w, "matrix inequality", show(d));
  const A def(a);
  auto close = a, far = a;
  const size_t c = g.below(C), r = g.below(R);
  close.v[c].v[r] += vm::constants<T>::almost_zero() * T(0.5);
  far.v[c].v[r] -= vm::constants<T>::almost_zero() * T(2);
  if (!d.scaled) CHK(def == a && def == close && close == def && def != far && far != def, "matrix, default tolerance", P(a));
  std::ostringstream o, p;
  o << x;
  p << a;
  CHK(o.str() == p.str(), "printed as the wrapped matrix", o.str());
  OBS(w ? "within" : "outside");
}
MON_GROUP_T(matrices, 10000, double, 4, 4)
MON_GROUP_T(matrices, 10000, float, 2, 3)
MON_GROUP_T(matrices, 10000, double, 3, 2)
MON_GROUP_T(matrices, 10000, double, 2, 2)
MON_GROUP_T(matrices, 5000, float, 4, 4)
MON_GROUP_T(matrices, 5000, double, 1, 1)
MON_GROUP_T(matrices, 5000, double, 5, 5)
MON_GROUP_T(matrices, 5000, double, 2, 6)

template <typename T, size_t S> static void lines(Rng& g) {
  const auto d = diff<T>(g, 2 * S);
  vm::line<T, S> a, b;
  for (size_t i = 0; i < S; ++i) {
    a.point.v[i] = d.a[i];
    b.point.v[i] = d.b[i];
    a.direction.v[i] = d.a[S + i];
    b.direction.v[i] = d.b[S + i];
  }
  using A = approx<vm::line<T, S>>;
  const A x(a, d.tol), y(b, d.tol);
  const bool w = d.within;
  CHK((x == b) == w && (b == x) == w && (y == a) == w && (a == y) == w, "line equality", show(d));
  const A def(a);
  auto close = a, far = a;
  (g.below(2) ? close.point : close.direction).v[g.below(S)] += vm::constants<T>::almost_zero() * T(0.5);
  (g.below(2) ? far.point : far.direction).v[g.below(S)] += vm::constants<T>::almost_zero() * T(2);
  if (!d.scaled) CHK(def == a && def == close && close == def && !(def == far) && !(far == def), "line, default tolerance", P(a) << P(close) << P(far));
  std::ostringstream o, p;
  o << x;
  p << a;
  CHK(o.str() == p.str(), "printed as the wrapped line", o.str());
  OBS(w ? "within" : "outside");
}
MON_GROUP_T(lines, 15000, double, 3)
MON_GROUP_T(lines, 15000, float, 3)
MON_GROUP_T(lines, 8000, double, 2)
MON_GROUP_T(lines, 4000, float, 2)
MON_GROUP_T(lines, 4000, double, 4)
MON_GROUP_T(lines, 4000, double, 5)

template <typename T> static void lists(Rng& g) {
  const size_t n = g.chance(1, 30) ? g.below(100) : g.below(6);
  const auto d = diff<T>(g, n ? n : 1);
  std::vector<T> a(d.a.begin(), d.a.begin() + long(n));
  std::vector<approx<T>> b;
  b.reserve(n + 1);
  for (size_t i = 0; i < n; ++i) b.emplace_back(d.b[i], d.tol);
  const bool w = n == 0 || d.within;
  CHK((a == b) == w && (b == a) == w && (a != b) == !w && (b != a) == !w, "list equality", show(d) << " length " << n);
  // every element has its own tolerance
  if (n) {
    std::vector<approx<T>> own;
    own.reserve(n);
    bool all = true;
    for (size_t i = 0; i < n; ++i) {
      const T t = g.below(2) ? d.tol : d.tol * T(4);
      own.emplace_back(d.b[i], t);
      all = all && std::fabs(d.a[i] - d.b[i]) <= t;
    }
    CHK((a == own) == all && (own == a) == all && (a != own) == !all && (own != a) == !all, "list with several tolerances", show(d));
  }
  auto longer = a;
  longer.push_back(T(0));
  CHK(!(longer == b) && !(b == longer) && longer != b && b != longer, "list lengths", show(d) << " length " << n);
  if (n) {
    auto shorter = a;
    shorter.pop_back();
    CHK(!(shorter == b) && !(b == shorter) && shorter != b && b != shorter, "list lengths", show(d) << " length " << n);
  }
  OBS(n == 0 ? "empty" : w ? "within" : "outside");
}
MON_GROUP_T(lists, 20000, double)
MON_GROUP_T(lists, 20000, float)

MON_MAIN("C26")
