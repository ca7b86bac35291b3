// C09: vector products, lengths, directions, angles and component selection
#include "gen.h"

#include <list>

template <typename T, size_t S> static void products(Rng& g) {
  auto a = g.chance(1, 3) ? ivec<T, S>(g, 30) : nvec<T, S>(g);
  auto b = g.chance(1, 3) ? ivec<T, S>(g, 30) : nvec<T, S>(g);
  if (g.chance(1, 5)) { // nearly equal
    b = a;
    const size_t i = g.below(S);
    if (b[i] != T(0)) b[i] = std::nextafter(b[i], g.below(2) ? T(1e9) : T(-1e9));
  }
  if (g.chance(1, 3)) { // any order of magnitude whose squares are normal numbers
    const int lim = std::is_same<T, float>::value ? 24 : 400;
    const T f = T(lscale(g, -lim, lim));
    for (size_t i = 0; i < S; ++i) {
      a[i] *= f;
      b[i] *= f;
    }
    OBS("scaled");
  }
  const auto la = lv(a), lb = lv(b);
  const L tol = 4 * S * eps<T>();
  CHK(near(vm::dot(a, b), ldot(la, lb), tol * labsdot(la, lb)), "dot", P(a) << P(b) << " got " << vm::dot(a, b));
  CHK(near(vm::squared_length(a), ldot(la, la), tol * ldot(la, la)), "squared_length", P(a));
  CHK(near(vm::length(a), llen(la), tol * llen(la)), "length", P(a) << " got " << vm::length(a));
  CHK(near(vm::length_c(a), llen(la), tol * llen(la)), "length_c", P(a) << " got " << vm::length_c(a));
  const L scale = llen(la) + llen(lb);
  CHK(near(vm::distance(a, b), ldist(la, lb), 4 * tol * scale), "distance", P(a) << P(b));
  CHK(near(vm::distance_c(a, b), ldist(la, lb), 4 * tol * scale), "distance_c", P(a) << P(b));
  CHK(near(vm::squared_distance(a, b), ldot(la - lb, la - lb), 4 * tol * scale * scale), "squared_distance", P(a) << P(b));
  CHK(vm::squared_distance(a, a) == T(0) && vm::distance(a, a) == T(0), "distance to self", P(a));
  CHK(vm::distance(a, b) == vm::distance(b, a), "distance symmetric", P(a) << P(b));
  if (llen(la) > 0) {
    for (const auto& n : {vm::normalize(a), vm::normalize_c(a)}) {
      const auto e = lnorm(la);
      for (size_t i = 0; i < S; ++i) CHK(near(n[i], e[i], 4 * tol), "normalize", P(a) << " got " << P(n));
      const T ue = T(32 * S * eps<T>());
      CHK(vm::is_unit(n, ue) && vm::is_unit_c(n, ue), "normalized is unit", P(n));
    }
  }
  // is_unit with tolerance, away from its boundary
  const T e = g.below(2) ? T(g.real(1e-3, 0.5)) : T(std::fabs(g.logreal(1e4 * double(eps<T>()), 0.5)));
  const auto u = uvec<T, S>(g);
  const T f = T(1) + T(g.real(-1, 1)) * T(2) * e;
  const auto su = u * f;
  const L d = std::fabs(llen(lv(su)) - 1);
  if (std::fabs(d - L(e)) > 32 * S * eps<T>()) {
    CHK(vm::is_unit(su, e) == (d <= L(e)), "is_unit", P(su) << " eps " << e);
    CHK(vm::is_unit_c(su, e) == (d <= L(e)), "is_unit_c", P(su) << " eps " << e);
    OBS(d <= L(e) ? "unit" : "not unit");
  }
}
MON_GROUP_T(products, 15000, float, 2)
MON_GROUP_T(products, 15000, float, 3)
MON_GROUP_T(products, 15000, double, 1)
MON_GROUP_T(products, 15000, double, 3)
MON_GROUP_T(products, 15000, double, 4)
MON_GROUP_T(products, 15000, double, 6)
MON_GROUP_T(products, 8000, double, 2)
MON_GROUP_T(products, 8000, float, 4)
MON_GROUP_T(products, 8000, float, 1)
MON_GROUP_T(products, 4000, float, 5)
MON_GROUP_T(products, 4000, double, 8)
MON_GROUP_T(products, 4000, double, 9)
MON_GROUP_T(products, 4000, double, 12)

template <typename T, size_t S> static void exact_products(Rng& g) {
  const auto a = ivec<T, S>(g, 300), b = ivec<T, S>(g, 300);
  long d = 0, q = 0;
  for (size_t i = 0; i < S; ++i) {
    d += long(a[i]) * long(b[i]);
    q += long(a[i]) * long(a[i]);
  }
  CHK(vm::dot(a, b) == T(d), "dot", P(a) << P(b));
  CHK(vm::squared_length(a) == T(q), "squared_length", P(a));
}
MON_GROUP_T(exact_products, 10000, int, 3)
MON_GROUP_T(exact_products, 10000, long, 4)
MON_GROUP_T(exact_products, 10000, float, 3)
MON_GROUP_T(exact_products, 10000, double, 5)
MON_GROUP_T(exact_products, 5000, int, 2)
MON_GROUP_T(exact_products, 5000, double, 2)
MON_GROUP_T(exact_products, 5000, double, 9)
MON_GROUP_T(exact_products, 5000, long, 8)

template <typename T> static void cross_product(Rng& g) {
  auto a = g.below(2) ? ivec<T, 3>(g, 60) : nvec<T, 3>(g), b = g.below(2) ? ivec<T, 3>(g, 60) : nvec<T, 3>(g);
  const int lim = std::is_same<T, float>::value ? 24 : 400;
  const T fa = g.chance(1, 3) ? T(lscale(g, -lim, lim)) : T(1), fb = g.chance(1, 3) ? T(lscale(g, -lim, lim)) : T(1);
  for (size_t i = 0; i < 3; ++i) {
    a[i] *= fa;
    b[i] *= fb;
  }
  const auto la = lv(a), lb = lv(b), e = lcross(la, lb);
  const auto c = vm::cross(a, b);
  for (size_t i = 0; i < 3; ++i) {
    const size_t j = (i + 1) % 3, k = (i + 2) % 3;
    CHK(near(c[i], e[i], 4 * eps<T>() * (std::fabs(la[j] * lb[k]) + std::fabs(la[k] * lb[j]))), "cross", P(a) << P(b) << " got " << P(c));
  }
}
MON_GROUP_T(cross_product, 40000, float)
MON_GROUP_T(cross_product, 40000, double)

// rank selection
template <typename T, size_t S> static void ranks(Rng& g) {
  vec<T, S> v;
  const bool wild = g.chance(1, 3);
  for (size_t i = 0; i < S; ++i) {
    v[i] = g.below(2) ? T(g.irange(-3, 3)) : g.nice<T>();
    if constexpr (std::is_floating_point<T>::value) {
      if (wild && g.below(2)) v[i] = g.chance(1, 8) ? std::copysign(std::numeric_limits<T>::infinity(), T(g.irange(-1, 0)) + T(0.5)) : g.wild_finite<T>();
      if (i && g.chance(1, 4)) v[i] = std::nextafter(g.below(2) ? v[g.below(i)] : -v[g.below(i)], T(g.irange(-2, 2)));
    } else if (wild) {
      v[i] = T(g.u64());
      if (v[i] == std::numeric_limits<T>::min()) v[i] = T(0); // has no absolute value
    }
  }
  const auto ab = [](T x) { return x < T(0) ? T(-x) : x; };
  std::array<T, S> s, as;
  for (size_t i = 0; i < S; ++i) {
    s[i] = v[i];
    as[i] = ab(v[i]);
  }
  std::sort(s.begin(), s.end(), std::greater<T>());
  std::sort(as.begin(), as.end(), std::greater<T>());
  bool ties = false;
  for (size_t i = 1; i < S; ++i) ties = ties || as[i] == as[i - 1];
  if (ties) OBS("ties");
  std::set<size_t> idx, aidx;
  for (size_t k = 0; k < S; ++k) {
    const size_t f = vm::find_max_component(v, k), fa = vm::find_abs_max_component(v, k);
    CHK(f < S && v[f] == s[k], "find_max_component", "rank " << k << " of " << P(v) << " got " << f);
    CHK(fa < S && ab(v[fa]) == as[k], "find_abs_max_component", "rank " << k << " of " << P(v) << " got " << fa);
    idx.insert(f);
    aidx.insert(fa);
    CHK(vm::get_max_component(v, k) == s[k], "get_max_component", "rank " << k << " of " << P(v) << " got " << vm::get_max_component(v, k));
    const T ga = vm::get_abs_max_component(v, k);
    bool in = false;
    for (size_t i = 0; i < S; ++i) in = in || v[i] == ga;
    CHK(in && ab(ga) == as[k], "get_abs_max_component", "rank " << k << " of " << P(v) << " got " << ga);
    if constexpr (std::is_signed<T>::value) {
      const auto ax = vm::get_abs_max_component_axis(v, k);
      size_t nz = 0, at = 0;
      for (size_t i = 0; i < S; ++i)
        if (ax[i] != T(0)) {
          ++nz;
          at = i;
        }
      CHK(nz == 1 && (ax[at] == T(1) || ax[at] == T(-1)) && ab(v[at]) == as[k] && (v[at] < T(0)) == (ax[at] < T(0)), "get_abs_max_component_axis", "rank " << k << " of " << P(v) << " got " << P(ax));
    }
  }
  CHK(idx.size() == S && aidx.size() == S, "ranks select every component once", P(v));
  CHK(vm::find_max_component(v) == vm::find_max_component(v, 0) && vm::get_max_component(v) == s[0], "default rank", P(v));
  CHK(vm::find_abs_max_component(v) == vm::find_abs_max_component(v, 0) && ab(vm::get_abs_max_component(v)) == as[0], "default rank by magnitude", P(v));
  if constexpr (std::is_signed<T>::value) CHK((vm::get_abs_max_component_axis(v) == vm::get_abs_max_component_axis(v, 0)), "default rank of the axis", P(v));
}
MON_GROUP_T(ranks, 15000, float, 2)
MON_GROUP_T(ranks, 25000, double, 3)
MON_GROUP_T(ranks, 15000, double, 4)
MON_GROUP_T(ranks, 10000, float, 6)
MON_GROUP_T(ranks, 10000, int, 3)
MON_GROUP_T(ranks, 10000, double, 9)
MON_GROUP_T(ranks, 10000, float, 3)
MON_GROUP_T(ranks, 10000, double, 2)
MON_GROUP_T(ranks, 10000, double, 1)
MON_GROUP_T(ranks, 10000, long, 4)
MON_GROUP_T(ranks, 5000, float, 4)
MON_GROUP_T(ranks, 5000, double, 5)
MON_GROUP_T(ranks, 5000, double, 7)
MON_GROUP_T(ranks, 5000, int, 8)
MON_GROUP_T(ranks, 5000, double, 12)

template <typename T> static void swizzling(Rng& g) {
  const auto v = wfvec<T, 3>(g);
  for (size_t axis = 0; axis < 3; ++axis) {
    const auto s = vm::swizzle(v, axis), u = vm::unswizzle(v, axis);
    // the selected axis becomes the third one and the frame stays right handed
    CHK(s[2] == v[axis] && s[0] == v[(axis + 1) % 3] && s[1] == v[(axis + 2) % 3], "swizzle", "axis " << axis << " of " << P(v) << " got " << P(s));
    CHK(u[axis] == v[2] && u[(axis + 1) % 3] == v[0] && u[(axis + 2) % 3] == v[1], "unswizzle", "axis " << axis << " of " << P(v) << " got " << P(u));
    const auto r1 = vm::unswizzle(s, axis), r2 = vm::swizzle(u, axis);
    CHK(r1 == v && r2 == v, "cancel", "axis " << axis << " of " << P(v));
  }
}
MON_GROUP_T(swizzling, 20000, float)
MON_GROUP_T(swizzling, 20000, double)

template <typename T, size_t S> static void averages(Rng& g) {
  const size_t n = 1 + (g.chance(1, 50) ? g.below(1000) : g.below(12));
  const T sc = g.chance(1, 3) ? T(lscale(g, -60, 60)) : T(1);
  std::vector<vec<T, S>> l;
  LV<S> sum{}, mag{};
  for (size_t i = 0; i < n; ++i) {
    l.push_back(nvec<T, S>(g));
    for (size_t k = 0; k < S; ++k) l[i][k] *= sc;
    if (i && g.chance(1, 8)) l[i] = l[g.below(i)];
    for (size_t k = 0; k < S; ++k) {
      sum[k] += l[i][k];
      mag[k] += std::fabs(L(l[i][k]));
    }
  }
  const auto a = vm::average(l.begin(), l.end());
  std::list<std::pair<int, vec<T, S>>> pl;
  for (const auto& x : l) pl.push_back({1, x});
  const auto b = vm::average(pl.begin(), pl.end(), [](const std::pair<int, vec<T, S>>& p) { return p.second; });
  for (size_t k = 0; k < S; ++k) {
    const L tol = L(2 * n + 2) * eps<T>() * mag[k] / n;
    CHK(near(a[k], sum[k] / n, tol), "average", P(l) << " got " << P(a));
    CHK(near(b[k], sum[k] / n, tol), "average with getter", P(l) << " got " << P(b));
  }
}
MON_GROUP_T(averages, 10000, float, 2)
MON_GROUP_T(averages, 10000, double, 3)
MON_GROUP_T(averages, 5000, float, 3)
MON_GROUP_T(averages, 5000, double, 1)
MON_GROUP_T(averages, 5000, double, 4)
MON_GROUP_T(averages, 2500, float, 1)
MON_GROUP_T(averages, 2500, double, 2)
MON_GROUP_T(averages, 2500, float, 4)
MON_GROUP_T(averages, 2500, double, 6)
MON_GROUP_T(averages, 2500, double, 9)

template <typename T> static void measured_angle(Rng& g) {
  const L pi = 3.14159265358979323846264338327950288L;
  const L3 up = ldir<3>(g), axis = lperp(g, up);
  L t;
  switch (g.below(3)) {
    case 0: t = L(g.irange(0, 15)) * pi / 8; break;
    case 1: t = L(g.real(0, 6.28)); break;
    default: t = L(g.irange(0, 3)) * pi / 2 + L(g.real(-0.05, 0.05)); break;
  }
  const L3 v = lrot(up, t, axis);
  // only the direction of the rotation axis matters
  const auto tv = tov<T>(v), ta = tov<T>(axis), tu = tov<T>(g.chance(1, 3) ? up * lscale(g, -16, 16) : up);
  const L m = vm::measure_angle(tv, ta, tu);
  CHK(m >= 0 && m <= L(vm::constants<T>::two_pi()), "range", P(tv) << P(ta) << P(tu) << " got " << m);
  // acos loses half the digits at 0 and pi; the turn sense is undefined there
  L d = std::fmod(std::fabs(m - t), 2 * pi);
  d = std::min(d, 2 * pi - d);
  const L s = std::fabs(std::sin(t));
  const L tol = s > 0.01L ? 64 * eps<T>() / s : 16 * std::sqrt(eps<T>());
  CHK(d <= tol, "angle", "v=" << P(tv) << " axis=" << P(ta) << " up=" << P(tu) << " expected " << t << " got " << m);
  if (t > pi) OBS("more than half a turn");
}
MON_GROUP_T(measured_angle, 40000, float)
MON_GROUP_T(measured_angle, 40000, double)

template <typename T, size_t S> static void colinearity(Rng& g) {
  // exactly colinear integer points, and points clearly off the line
  const auto a = ivec<T, S>(g, 8);
  auto d = ivec<T, S>(g, 4);
  if (llen(lv(d)) == 0) d[0] = T(1);
  const T i = T(g.irange(-6, 6)), j = T(g.irange(-6, 6));
  const auto b = a + d * i, c = a + d * j;
  CHK(vm::is_colinear(a, b, c), "colinear", P(a) << P(b) << P(c));
  if (std::is_same<T, double>::value) {
    const T f = T(lscale(g, -30, 30));
    CHK(vm::is_colinear(a * f, b * f, c * f, T(0)), "colinear, exact", P(a) << P(b) << P(c) << " scaled by " << f);
  }
  if (std::is_same<T, double>::value) { // far apart: the sums of products are still exact integers
    const auto p = a + d * T(g.irange(-700, 700)), q = a + d * T(g.irange(-700, 700)) + ivec<T, S>(g, 2);
    long pp = 0, qq = 0, pq = 0;
    for (size_t k = 0; k < S; ++k) {
      const long x = long(p[k] - a[k]), y = long(q[k] - a[k]);
      pp += x * x;
      qq += y * y;
      pq += x * y;
    }
    CHK(vm::is_colinear(a, p, q) == (pp * qq == pq * pq) && vm::is_colinear(a, q, p) == (pp * qq == pq * pq), "is_colinear far apart", P(a) << P(p) << P(q));
  }
  auto e = ivec<T, S>(g, 5);
  const auto c2 = c + e;
  long ab = 0, ac = 0, abac = 0;
  for (size_t k = 0; k < S; ++k) {
    const long x = long(b[k] - a[k]), y = long(c2[k] - a[k]);
    ab += x * x;
    ac += y * y;
    abac += x * y;
  }
  const bool col = ab * ac == abac * abac; // integers: else at least 1
  CHK(vm::is_colinear(a, b, c2) == col, "is_colinear", P(a) << P(b) << P(c2));
  CHK(vm::is_colinear(b, a, c2) == col && vm::is_colinear(c2, b, a) == col, "is_colinear symmetric", P(a) << P(b) << P(c2));
  OBS(col ? "colinear" : "not colinear");
  // parallelism depends on directions only
  if (ab && ac) {
    const auto u = b - a, w = c2 - a;
    const L cosv = std::fabs(ldot(lv(u), lv(w))) / (llen(lv(u)) * llen(lv(w)));
    const bool par = 1 - cosv <= 0.00001L;
    if (std::fabs(1 - cosv - 0.00001L) > 3e-6L) {
      const T f = g.below(2) ? T(g.logreal(0.01, 100)) : T(g.logreal(1e-12, 1e12));
      CHK(vm::is_parallel(u, w) == par && vm::is_parallel_c(u, w) == par, "is_parallel", P(u) << P(w));
      CHK(vm::is_parallel(u * f, w) == par && vm::is_parallel(w, -u) == par, "is_parallel scaled", P(u) << P(w) << " f=" << f);
    }
    const T ee = T(0.3);
    if (std::fabs(1 - cosv - 0.3L) > 1e-4L)
      CHK(vm::is_parallel(u, w, ee) == (1 - cosv <= 0.3L) && vm::is_parallel_c(u, w, ee) == (1 - cosv <= 0.3L), "is_parallel eps", P(u) << P(w));
  }
}
MON_GROUP_T(colinearity, 20000, float, 3)
MON_GROUP_T(colinearity, 20000, double, 2)
MON_GROUP_T(colinearity, 20000, double, 3)
MON_GROUP_T(colinearity, 10000, float, 2)
MON_GROUP_T(colinearity, 10000, double, 4)
MON_GROUP_T(colinearity, 10000, double, 6)

template <typename T, size_t S> static void betweenness(Rng& g) {
  auto a = ivec<T, S>(g, 8);
  auto d = ivec<T, S>(g, 4);
  if (llen(lv(d)) == 0) d[S - 1] = T(1);
  if (g.below(2)) { // any size, exactly representable
    const T f = T(lscale(g, -20, 20));
    a = a * f;
    d = d * f;
  }
  const long n = g.chance(1, 16) ? 0 : std::is_same<T, double>::value && g.chance(1, 4) ? g.irange(1, 4000) : g.irange(1, 6), k = g.below(2) ? g.irange(-4, 10) : n + g.irange(-3, 3);
  const auto e = a + d * T(n), p = a + d * T(k);
  const bool in = k >= 0 && k <= n;
  CHK(vm::is_between(p, a, e) == in, "is_between", P(p) << " in " << P(a) << P(e));
  CHK(vm::is_between(p, e, a) == in, "is_between swapped", P(p) << " in " << P(e) << P(a));
  CHK(vm::is_between_c(p, a, e) == in, "is_between_c", P(p) << " in " << P(a) << P(e));
  OBS(k == 0 || k == n ? "end point" : in ? "inside" : "outside");
}
MON_GROUP_T(betweenness, 20000, float, 2)
MON_GROUP_T(betweenness, 20000, double, 3)
MON_GROUP_T(betweenness, 10000, float, 3)
MON_GROUP_T(betweenness, 10000, double, 2)
MON_GROUP_T(betweenness, 5000, double, 1)
MON_GROUP_T(betweenness, 5000, float, 4)
MON_GROUP_T(betweenness, 5000, double, 6)

// a vector is zero if and only if no component exceeds the tolerance
template <typename T, size_t S> static void zero_test(Rng& g) {
  const T e = g.chance(1, 8) ? T(0) : T(g.irange(1, 12)) * T(lscale(g, -40, 40));
  vec<T, S> v;
  bool zero = true;
  for (size_t i = 0; i < S; ++i) {
    switch (g.below(4)) {
      case 0: v.v[i] = T(0); break;
      case 1: v.v[i] = e * T(g.irange(-16, 16)) / T(16); break;
      case 2: v.v[i] = g.below(2) ? e : -e; break;
      default: v.v[i] = g.chance(1, S) ? std::nextafter(e, T(g.irange(0, 1)) * T(2) * e + T(1)) * T(g.below(2) ? 1 : -1) : -e; break;
    }
    if (g.chance(1, 8 * S)) v.v[i] = e * T(g.real(-3, 3));
    if (g.chance(1, 50 * S)) v.v[i] = g.wild<T>();
    zero = zero && std::fabs(v.v[i]) <= e;
  }
  CHK(vm::is_zero(v, e) == zero, "is_zero", P(v) << " tolerance " << e);
  CHK(vm::is_zero(-v, e) == zero, "is_zero of the opposite", P(v) << " tolerance " << e);
  OBS(zero ? "zero" : "not zero");
  // along an axis the length of a vector is exact: tolerance reached exactly, and missed by one step
  const size_t ax = g.below(S);
  const T t = T(g.irange(0, 64)) / T(128), d = g.below(2) ? t : -t;
  vec<T, S> u;
  for (size_t i = 0; i < S; ++i) u.v[i] = T(0);
  u.v[ax] = (T(1) + d) * T(g.below(2) ? 1 : -1);
  CHK(vm::is_unit(u, t) && vm::is_unit_c(u, t + T(8) * std::numeric_limits<T>::epsilon()), "is_unit at the tolerance", P(u) << " tolerance " << t);
  if (t > T(0)) CHK(!vm::is_unit(u, t * T(0.99)) && !vm::is_unit_c(u, t * T(0.99)), "is_unit past the tolerance", P(u) << " tolerance " << t);
}
MON_GROUP_T(zero_test, 20000, float, 1)
MON_GROUP_T(zero_test, 20000, float, 2)
MON_GROUP_T(zero_test, 20000, double, 2)
MON_GROUP_T(zero_test, 20000, float, 3)
MON_GROUP_T(zero_test, 20000, double, 3)
MON_GROUP_T(zero_test, 10000, double, 4)
MON_GROUP_T(zero_test, 10000, float, 4)
MON_GROUP_T(zero_test, 10000, double, 7)
MON_GROUP_T(zero_test, 5000, double, 12)

MON_MAIN("C09")
