// C04: comparison is a consistent total order, equality is exact or bounded by the tolerance
#include "gen.h"

#include <list>
#include <set>

using vm::vec;
using namespace mon;

// ---------------------------------------------------------------- reference order
template <typename T> static int rcmp(T a, T b) {
  if (a != a || b != b) return (b != b) ? ((a != a) ? 0 : -1) : 1;
  return a < b ? -1 : a > b ? 1 : 0;
}
template <typename T, size_t S> static int rcmp(const vec<T, S>& a, const vec<T, S>& b) {
  for (size_t i = 0; i < S; ++i)
    if (const int c = rcmp(a.v[i], b.v[i])) return c;
  return 0;
}
template <typename V> static int rcmp_list(const std::vector<V>& a, const std::vector<V>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (const int c = rcmp(a[i], b[i])) return c;
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
static int sgn(int x) { return (x > 0) - (x < 0); }

// values that agree in many components, with every kind of special value
template <typename T> static T pool(Rng& g) {
  if constexpr (std::is_floating_point<T>::value) {
    using N = std::numeric_limits<T>;
    const T sp[] = {T(0), -T(0), T(1), T(-1), T(1), T(2), N::infinity(), -N::infinity(), N::quiet_NaN(), N::max(), -N::max(), N::denorm_min(), T(1) + N::epsilon()};
    return g.chance(4, 5) ? g.pick(sp) : g.wild<T>();
  } else if constexpr (std::is_same<T, bool>::value) {
    return g.below(2) != 0;
  } else {
    const T sp[] = {T(0), T(1), T(2), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
    return g.chance(3, 4) ? g.pick(sp) : g.nice<T>();
  }
}
template <typename T, size_t S> static vec<T, S> pvec(Rng& g) {
  vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = pool<T>(g);
  return r;
}
template <typename T, size_t S> static vec<T, S> mutate(Rng& g, vec<T, S> v) {
  if (g.chance(2, 3)) {
    T& x = v.v[g.below(S)];
    if (std::is_floating_point<T>::value && g.chance(1, 4)) x = T(std::nextafter(x, g.below(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest())); // differ in the last bit
    else x = pool<T>(g);
  }
  return v;
}

#define ORDER_OPS(a, b, c, key, text)                                                               \
  CHK((((a) == (b)) == ((c) == 0)) && (((a) != (b)) == ((c) != 0)), key " equality operators", text); \
  CHK((((a) < (b)) == ((c) < 0)) && (((a) <= (b)) == ((c) <= 0)), key " less operators", text);      \
  CHK((((a) > (b)) == ((c) > 0)) && (((a) >= (b)) == ((c) >= 0)), key " greater operators", text);

template <typename T, size_t S> static void vectors(Rng& g) {
  const auto a = pvec<T, S>(g), b = g.chance(3, 4) ? mutate(g, a) : pvec<T, S>(g), c = mutate(g, b);
  const auto text = P(a) + P(b) + P(c);
  const int want = rcmp(a, b);
  const int ab = vm::compare(a, b), ba = vm::compare(b, a), bc = vm::compare(b, c), ac = vm::compare(a, c);
  CHK(sgn(ab) == want, "lexicographic comparison", text << " got " << ab);
  CHK(sgn(ab) == -sgn(ba), "antisymmetric", text << " got " << ab << " " << ba);
  CHK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive", text);
  CHK(!(ab < 0 && bc <= 0) || ac < 0, "transitive, strict", text);
  CHK(!(ab == 0) || sgn(ac) == sgn(bc), "equal values are interchangeable", text);
  CHK(ab == sgn(ab) && ba == sgn(ba), "the result is -1, 0 or 1", text << " got " << ab << " " << ba);
  CHK(vm::compare(a, a) == 0 && a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a), "reflexive", text);
  ORDER_OPS(a, b, want, "vector", text)
  OBS(want == 0 ? "equal" : want < 0 ? "less" : "greater");
  bool nan = false;
  for (size_t i = 0; i < S; ++i) nan = nan || a.v[i] != a.v[i] || b.v[i] != b.v[i];
  if (nan) OBS("not-a-number");
}
MON_GROUP_T(vectors, 20000, float, 1)
MON_GROUP_T(vectors, 20000, float, 2)
MON_GROUP_T(vectors, 40000, float, 3)
MON_GROUP_T(vectors, 40000, double, 3)
MON_GROUP_T(vectors, 20000, double, 4)
MON_GROUP_T(vectors, 10000, double, 9)
MON_GROUP_T(vectors, 10000, bool, 3)
MON_GROUP_T(vectors, 10000, size_t, 3)
MON_GROUP_T(vectors, 20000, int, 3)
MON_GROUP_T(vectors, 10000, unsigned, 2)
MON_GROUP_T(vectors, 10000, long, 4)
MON_GROUP_T(vectors, 5000, double, 2)
MON_GROUP_T(vectors, 5000, double, 1)
MON_GROUP_T(vectors, 5000, float, 4)
MON_GROUP_T(vectors, 5000, double, 5)
MON_GROUP_T(vectors, 5000, float, 7)
MON_GROUP_T(vectors, 5000, double, 12)
MON_GROUP_T(vectors, 5000, int, 2)
MON_GROUP_T(vectors, 5000, int, 1)
MON_GROUP_T(vectors, 5000, long, 3)

// sorting and ordered containers rely on the order
template <typename T, size_t S> static void sorting(Rng& g) {
  std::vector<vec<T, S>> v;
  const size_t n = g.below(24);
  for (size_t i = 0; i < n; ++i) v.push_back(i && g.below(2) ? mutate(g, v[g.below(i)]) : pvec<T, S>(g));
  auto s = v;
  std::stable_sort(s.begin(), s.end());
  bool ok = s.size() == n;
  for (size_t i = 1; ok && i < n; ++i) ok = rcmp(s[i - 1], s[i]) <= 0;
  CHK(ok, "sorted", P(v) << " got " << P(s));
  const std::set<vec<T, S>> set(v.begin(), v.end());
  size_t distinct = 0;
  for (size_t i = 0; i < n; ++i) {
    bool dup = false;
    for (size_t j = 0; j < i; ++j) dup = dup || rcmp(v[i], v[j]) == 0;
    distinct += !dup;
  }
  CHK(set.size() == distinct, "set of distinct values", P(v) << " got " << set.size());
  for (const auto& x : v) CHK(set.count(x) == 1, "found again", P(v) << P(x));
}
MON_GROUP_T(sorting, 5000, float, 2)
MON_GROUP_T(sorting, 5000, double, 3)
MON_GROUP_T(sorting, 2500, double, 4)
MON_GROUP_T(sorting, 2500, float, 1)
MON_GROUP_T(sorting, 2500, double, 6)

template <typename T, size_t S> static void segments(Rng& g) {
  const auto mk = [](const vec<T, S>& a, const vec<T, S>& b) { return vm::segment<T, S>(a, b); };
  const auto p = pvec<T, S>(g), q = pvec<T, S>(g);
  const auto a = mk(p, q);
  const auto b = g.chance(3, 4) ? mk(mutate(g, p), mutate(g, q)) : mk(pvec<T, S>(g), pvec<T, S>(g));
  const auto c = mk(mutate(g, b.start()), mutate(g, b.end()));
  const auto text = P(a) + P(b) + P(c);
  const auto ref = [](const vm::segment<T, S>& x, const vm::segment<T, S>& y) {
    if (const int s = rcmp(x.start(), y.start())) return s;
    return rcmp(x.end(), y.end());
  };
  const int want = ref(a, b);
  CHK(sgn(vm::compare(a, b)) == want, "segment comparison", text << " got " << vm::compare(a, b));
  CHK(sgn(vm::compare(b, a)) == -want, "segment comparison, reversed", text);
  CHK(!(vm::compare(a, b) <= 0 && vm::compare(b, c) <= 0) || vm::compare(a, c) <= 0, "segments transitive", text);
  ORDER_OPS(a, b, want, "segment", text)
  OBS(want == 0 ? "equal" : "different");
}
MON_GROUP_T(segments, 20000, float, 2)
MON_GROUP_T(segments, 20000, double, 3)
MON_GROUP_T(segments, 10000, float, 3)
MON_GROUP_T(segments, 10000, double, 2)
MON_GROUP_T(segments, 10000, double, 4)
MON_GROUP_T(segments, 10000, double, 1)

template <typename T, size_t S> static std::vector<vec<T, S>> vlist(Rng& g) {
  std::vector<vec<T, S>> v;
  const size_t n = g.chance(1, 8) ? g.below(40) : g.below(5);
  for (size_t i = 0; i < n; ++i) v.push_back(pvec<T, S>(g));
  return v;
}
template <typename T, size_t S> static std::vector<vec<T, S>> mutate(Rng& g, std::vector<vec<T, S>> v) {
  switch (g.below(5)) {
    case 0:
      if (!v.empty()) v.pop_back();
      break;
    case 1: v.push_back(pvec<T, S>(g)); break;
    case 2: break;
    default:
      if (!v.empty()) {
        auto& x = v[g.below(v.size())];
        x = mutate(g, x);
      }
  }
  return v;
}
template <typename T, size_t S> static void sequences(Rng& g) {
  const auto a = vlist<T, S>(g), b = mutate(g, a), c = mutate(g, b);
  const auto text = P(a) + P(b) + P(c);
  const auto cmp = [](const auto& x, const auto& y) { return vm::compare(std::begin(x), std::end(x), std::begin(y), std::end(y), T(0)); };
  const int want = rcmp_list(a, b);
  CHK(sgn(cmp(a, b)) == want, "sequence comparison", text << " got " << cmp(a, b));
  CHK(sgn(cmp(b, a)) == -want, "sequence comparison, reversed", text);
  CHK(!(cmp(a, b) <= 0 && cmp(b, c) <= 0) || cmp(a, c) <= 0, "sequences transitive", text);
  const std::list<vec<T, S>> lb(b.begin(), b.end());
  CHK(sgn(cmp(a, lb)) == want, "sequences in different containers", text);
  // polygons compare by their stored vertices
  const vm::polygon<T, S> p(a), q(b), r(c);
  const int pw = rcmp_list(p.vertices(), q.vertices());
  CHK(cmp(a, b) == sgn(cmp(a, b)) && vm::compare(p, q) == sgn(vm::compare(p, q)), "the result is -1, 0 or 1", text);
  CHK(sgn(vm::compare(p, q)) == pw, "polygon comparison", text << " got " << vm::compare(p, q));
  CHK(sgn(vm::compare(q, p)) == -pw, "polygon comparison, reversed", text);
  CHK(!(vm::compare(p, q) <= 0 && vm::compare(q, r) <= 0) || vm::compare(p, r) <= 0, "polygons transitive", text);
  ORDER_OPS(p, q, pw, "polygon", text)
  OBS(a.size() == b.size() ? (want ? "same length" : "equal") : "different length");
}
MON_GROUP_T(sequences, 20000, float, 2)
MON_GROUP_T(sequences, 20000, double, 3)
MON_GROUP_T(sequences, 10000, float, 3)
MON_GROUP_T(sequences, 10000, double, 1)
MON_GROUP_T(sequences, 10000, double, 5)
MON_GROUP_T(sequences, 10000, double, 2)

template <typename T, size_t R, size_t C> static void matrices(Rng& g) {
  vm::mat<T, R, C> a, b;
  for (size_t c = 0; c < C; ++c) a.v[c] = pvec<T, R>(g);
  b = a;
  const bool change = g.chance(3, 4);
  if (change) b.v[g.below(C)].v[g.below(R)] = pool<T>(g);
  bool eq = true;
  for (size_t c = 0; c < C; ++c) eq = eq && rcmp(a.v[c], b.v[c]) == 0;
  const int ab = vm::compare(a, b), ba = vm::compare(b, a);
  const auto text = P(a) + P(b);
  CHK((ab == 0) == eq && sgn(ab) == -sgn(ba), "matrix comparison", text << " got " << ab << " " << ba);
  CHK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "matrix equality", text);
  CHK((vm::is_equal(a, b, T(0))) == eq, "matrix equality without tolerance", text);
}
MON_GROUP_T(matrices, 10000, double, 4, 4)
MON_GROUP_T(matrices, 10000, float, 2, 3)
MON_GROUP_T(matrices, 10000, double, 3, 2)
MON_GROUP_T(matrices, 5000, float, 4, 4)
MON_GROUP_T(matrices, 5000, double, 1, 1)
MON_GROUP_T(matrices, 5000, double, 5, 5)
MON_GROUP_T(matrices, 5000, float, 3, 3)
MON_GROUP_T(matrices, 5000, double, 2, 6)

// ---------------------------------------------------------------- tolerance and exact equality
// A value is flattened to numbers; the copy differs in every number by a multiple of the tolerance.
// All numbers involved are small dyadic fractions, so "exactly at the tolerance" is decidable.
template <typename T> struct Pair {
  std::vector<T> a, b;
  T tol, sc = T(1);
  bool within, exact;
};
template <typename T> static Pair<T> pair_of(Rng& g, size_t n) {
  Pair<T> p;
  p.tol = T(1) / T(1 << g.irange(0, 7));
  p.within = true;
  p.exact = true;
  const unsigned mode = unsigned(g.below(4)); // 0: equal, 1: all within, 2: one outside, 3: anything
  const size_t odd = g.below(n);
  for (size_t i = 0; i < n; ++i) {
    const T x = T(g.irange(-64, 64)) / T(8);
    T d = 0;
    const T inside[] = {T(0), T(0.5), T(1), T(-0.5), T(-1), T(0.25)};
    const T outside[] = {T(1.125), T(-1.125), T(1.5), T(-1.5), T(2), T(-2), T(64), T(-64)};
    if (mode == 1 || (mode == 2 && i != odd)) d = g.pick(inside) * p.tol;
    if (mode == 2 && i == odd) d = g.pick(outside) * p.tol;
    if (mode == 3) d = (g.below(4) ? g.pick(inside) : g.pick(outside)) * p.tol;
    p.a.push_back(x);
    p.b.push_back(x + d);
    if (std::fabs(d) > p.tol) p.within = false;
    if (d != 0) p.exact = false;
  }
  if (g.below(2)) { // the same at another order of magnitude; powers of two keep everything exact
    p.sc = T(lscale(g, -60, 40));
    for (auto& x : p.a) x *= p.sc;
    for (auto& x : p.b) x *= p.sc;
    p.tol *= p.sc;
  }
  return p;
}
template <typename T, size_t S> static vec<T, S> take(const std::vector<T>& v, size_t at) {
  vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = v[at + i];
  return r;
}
template <typename T> static std::string show(const Pair<T>& p) { return P(p.a) + P(p.b) + " tolerance " + P(p.tol); }

template <typename T, size_t S> static void tolerance(Rng& g) {
  {
    const auto p = pair_of<T>(g, S);
    const auto a = take<T, S>(p.a, 0), b = take<T, S>(p.b, 0);
    CHK(vm::is_equal(a, b, p.tol) == p.within && vm::is_equal(b, a, p.tol) == p.within, "vector", show(p));
    CHK((a == b) == p.exact && (b == a) == p.exact && (a != b) == !p.exact, "vector, exact", show(p));
    const int c = vm::compare(a, b, p.tol), d = vm::compare(b, a, p.tol);
    int want = 0;
    for (size_t i = 0; i < S && !want; ++i)
      if (std::fabs(L(p.a[i]) - L(p.b[i])) > L(p.tol)) want = p.a[i] < p.b[i] ? -1 : 1;
    CHK(sgn(c) == want && sgn(d) == -want, "vector comparison", show(p) << " got " << c << " " << d);
    OBS(p.exact ? "equal" : p.within ? "within" : "outside");
    const auto z = take<T, S>(p.a, 0);
    bool zero = true;
    for (size_t i = 0; i < S; ++i) zero = zero && std::fabs(z.v[i]) <= p.tol;
    CHK(vm::is_zero(z, p.tol) == zero, "zero vector", show(p));
    const T small = p.tol * T(g.irange(-2, 2));
    vec<T, S> zz = vec<T, S>::zero();
    zz.v[g.below(S)] = small;
    CHK(vm::is_zero(zz, p.tol) == (std::fabs(small) <= p.tol), "zero vector up to one component", P(zz) << " " << p.tol);
  }
  {
    const auto p = pair_of<T>(g, 2 * S);
    const vm::ray<T, S> a(take<T, S>(p.a, 0), take<T, S>(p.a, S)), b(take<T, S>(p.b, 0), take<T, S>(p.b, S));
    CHK(vm::is_equal(a, b, p.tol) == p.within && vm::is_equal(b, a, p.tol) == p.within, "ray", show(p));
    CHK((a == b) == p.exact && (a != b) == !p.exact && (b == a) == p.exact, "ray, exact", show(p));
    const vm::line<T, S> la(take<T, S>(p.a, 0), take<T, S>(p.a, S)), lb(take<T, S>(p.b, 0), take<T, S>(p.b, S));
    CHK(vm::is_equal(la, lb, p.tol) == p.within && vm::is_equal(lb, la, p.tol) == p.within, "line", show(p));
  }
  {
    // keep the corners ordered: the second half is well above the first
    auto p = pair_of<T>(g, 2 * S);
    for (size_t i = S; i < 2 * S; ++i) {
      p.a[i] += p.sc * T(256);
      p.b[i] += p.sc * T(256);
    }
    const vm::bbox<T, S> a(take<T, S>(p.a, 0), take<T, S>(p.a, S)), b(take<T, S>(p.b, 0), take<T, S>(p.b, S));
    CHK(vm::is_equal(a, b, p.tol) == p.within && vm::is_equal(b, a, p.tol) == p.within, "box", show(p));
    CHK((a == b) == p.exact && (a != b) == !p.exact && (b == a) == p.exact, "box, exact", show(p));
    const vm::segment<T, S> sa(take<T, S>(p.a, 0), take<T, S>(p.a, S)), sb(take<T, S>(p.b, 0), take<T, S>(p.b, S));
    CHK(vm::is_equal(sa, sb, p.tol) == p.within && vm::is_equal(sb, sa, p.tol) == p.within, "segment", show(p));
    CHK((sa == sb) == p.exact && (sa != sb) == !p.exact, "segment, exact", show(p));
    const int c = vm::compare(sa, sb, p.tol);
    CHK((c == 0) == p.within && sgn(vm::compare(sb, sa, p.tol)) == -sgn(c), "segment comparison", show(p) << " got " << c);
  }
  {
    const auto p = pair_of<T>(g, S + 1);
    const vm::plane<T, S> a(p.a[S], take<T, S>(p.a, 0)), b(p.b[S], take<T, S>(p.b, 0));
    CHK(vm::is_equal(a, b, p.tol) == p.within && vm::is_equal(b, a, p.tol) == p.within, "plane", show(p));
    CHK((a == b) == p.exact && (a != b) == !p.exact && (b == a) == p.exact, "plane, exact", show(p));
  }
  {
    // polygons: spread the vertices so that the first one stays the smallest
    const size_t n = size_t(g.chance(1, 6) ? g.irange(1, 24) : g.irange(1, 5));
    auto p = pair_of<T>(g, n * S);
    std::vector<vec<T, S>> va, vb;
    for (size_t k = 0; k < n; ++k) {
      p.a[k * S] += p.sc * T(256) * T(k);
      p.b[k * S] += p.sc * T(256) * T(k);
      va.push_back(take<T, S>(p.a, k * S));
      vb.push_back(take<T, S>(p.b, k * S));
    }
    const vm::polygon<T, S> a(va), b(vb);
    CHK(vm::isEqual(a, b, p.tol) == p.within && vm::isEqual(b, a, p.tol) == p.within, "polygon", show(p));
    CHK((a == b) == p.exact && (a != b) == !p.exact, "polygon, exact", show(p));
    CHK((vm::compareUnoriented(a, b, p.tol) == 0) == p.within && (vm::compareUnoriented(b, a, p.tol) == 0) == p.within, "unoriented polygon", show(p));
    CHK((vm::compareUnoriented(a, b.invert(), p.tol) == 0) == p.within && (vm::compareUnoriented(b.invert(), a, p.tol) == 0) == p.within, "unoriented polygon, reversed", show(p));
    const auto c = vm::compare(va.begin(), va.end(), vb.begin(), vb.end(), p.tol);
    CHK((c == 0) == p.within, "sequence with tolerance", show(p));
    vb.pop_back();
    CHK(sgn(vm::compare(va.begin(), va.end(), vb.begin(), vb.end(), p.tol)) == -sgn(vm::compare(vb.begin(), vb.end(), va.begin(), va.end(), p.tol)), "lengths differ, both orders", show(p));
    for (size_t cut = 0; cut < va.size(); ++cut) { // a part compares less than the whole
      CHK(vm::compare(va.begin(), va.begin() + long(cut), va.begin(), va.end(), p.tol) < 0 && vm::compare(va.begin(), va.end(), va.begin(), va.begin() + long(cut), p.tol) > 0, "beginning of a list", cut << show(p));
      if (cut >= 2 && g.below(4)) break;
    }
    CHK(vm::compare(va.begin(), va.end(), vb.begin(), vb.end(), p.tol) != 0 && !vm::isEqual(a, vm::polygon<T, S>(vb), p.tol), "lengths differ", show(p));
  }
}
MON_GROUP_T(tolerance, 20000, float, 3)
MON_GROUP_T(tolerance, 20000, double, 3)
MON_GROUP_T(tolerance, 10000, double, 2)
MON_GROUP_T(tolerance, 10000, float, 2)
MON_GROUP_T(tolerance, 5000, double, 1)
MON_GROUP_T(tolerance, 5000, float, 4)
MON_GROUP_T(tolerance, 5000, double, 6)
MON_GROUP_T(tolerance, 5000, double, 9)

template <typename T> static void tolerance_other(Rng& g) {
  {
    const auto p = pair_of<T>(g, 6);
    vm::mat<T, 2, 3> a, b;
    for (size_t i = 0; i < 6; ++i) {
      a.v[i % 3].v[i / 3] = p.a[i];
      b.v[i % 3].v[i / 3] = p.b[i];
    }
    CHK(vm::is_equal(a, b, p.tol) == p.within && vm::is_equal(b, a, p.tol) == p.within, "matrix", show(p));
    CHK((vm::compare(a, b, p.tol) == 0) == p.within, "matrix comparison", show(p));
    vm::mat<T, 2, 3> z = vm::mat<T, 2, 3>::zero();
    const T s = p.tol * T(g.irange(-2, 2));
    z.v[g.below(3)].v[g.below(2)] = s;
    CHK(vm::is_zero(z, p.tol) == (std::fabs(s) <= p.tol), "zero matrix", P(z) << " " << p.tol);
  }
  {
    const auto p = pair_of<T>(g, 1);
    CHK(vm::is_equal(p.a[0], p.b[0], p.tol) == p.within && vm::is_equal(p.b[0], p.a[0], p.tol) == p.within, "number", show(p));
    CHK(vm::is_zero(p.b[0] - p.a[0], p.tol) == p.within, "zero number", show(p));
    const T n = std::numeric_limits<T>::quiet_NaN();
    CHK(!vm::is_equal(n, p.a[0], p.tol) && !vm::is_equal(p.a[0], n, p.tol) && !vm::is_zero(n, p.tol), "not-a-number equals no number", show(p));
  }
  {
    auto p = pair_of<T>(g, 4);
    // positive real parts: no identification of a quaternion with one of opposite real part
    p.a[0] += p.sc * T(512);
    p.b[0] += p.sc * T(512);
    vm::quat<T> a, b;
    a.r = p.a[0];
    b.r = p.b[0];
    a.v = take<T, 3>(p.a, 1);
    b.v = take<T, 3>(p.b, 1);
    CHK(vm::is_equal(a, b, p.tol) == p.within && vm::is_equal(b, a, p.tol) == p.within, "quaternion", show(p));
    CHK((a == b) == p.exact && (a != b) == !p.exact, "quaternion, exact", show(p));
  }
}
MON_GROUP_T(tolerance_other, 20000, float)
MON_GROUP_T(tolerance_other, 20000, double)

// ranking of not-a-number with a tolerance: never equal to a number
template <typename T, size_t S> static void nan_tolerance(Rng& g) {
  const auto a = pvec<T, S>(g), b = mutate(g, a);
  const T e = T(g.irange(0, 4)) / T(8);
  int want = 0;
  bool unclear = false;
  for (size_t i = 0; i < S && !want; ++i) {
    const T x = a.v[i], y = b.v[i];
    if (x != x || y != y) want = rcmp(x, y);
    else if (std::isinf(x) || std::isinf(y)) want = rcmp(x, y);
    else {
      const L d = L(x) - L(y);
      if (std::fabs(std::fabs(d) - L(e)) <= 4 * eps<T>() * std::max({L(std::fabs(x)), L(std::fabs(y)), L(e)}) && d != 0) unclear = true;
      if (std::fabs(d) > L(e)) want = d < 0 ? -1 : 1;
    }
  }
  if (unclear) return;
  CHK(sgn(vm::compare(a, b, e)) == want && sgn(vm::compare(b, a, e)) == -want, "comparison with tolerance", P(a) << P(b) << e << " got " << vm::compare(a, b, e));
  CHK(vm::is_equal(a, b, e) == (want == 0), "equality with tolerance", P(a) << P(b) << e);
}
MON_GROUP_T(nan_tolerance, 20000, float, 3)
MON_GROUP_T(nan_tolerance, 20000, double, 3)
MON_GROUP_T(nan_tolerance, 10000, float, 1)
MON_GROUP_T(nan_tolerance, 10000, double, 2)
MON_GROUP_T(nan_tolerance, 10000, double, 5)

MON_MAIN("C04")
