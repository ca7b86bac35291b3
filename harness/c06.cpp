// C06: selection, clamping, interpolation, index and angle arithmetic on numbers
#include "gen.h"

template <typename T, size_t N, typename F, size_t... I>
static T apply_(F f, const std::array<T, N>& a, std::index_sequence<I...>) {
  return f(a[I]...);
}
template <typename T, size_t N, typename F> static T apply(F f, const std::array<T, N>& a) {
  return apply_(f, a, std::make_index_sequence<N>());
}
template <typename T> static T draw(Rng& g) {
  if constexpr (std::is_integral<T>::value) {
    return std::is_signed<T>::value ? T(g.irange(-6, 6)) : T(g.irange(0, 12));
  } else {
    switch (g.below(4)) {
      case 0: return T(g.irange(-4, 4));
      case 1: return T(g.irange(-8, 8)) / T(2);
      case 2: return g.nice<T>();
      default: {
        T v = g.wild<T>();
        return v != v ? T(3) : v;
      }
    }
  }
}

template <typename T, size_t N> static void selection(Rng& g) {
  std::array<T, N> a;
  for (auto& x : a) x = draw<T>(g);
  T mn = a[0], mx = a[0], amn = a[0], amx = a[0];
  const auto ab = [](T x) { return x < T(0) ? T(-x) : x; };
  for (const T x : a) {
    if (x < mn) mn = x;
    if (x > mx) mx = x;
    if (ab(x) < ab(amn)) amn = x;
    if (ab(x) > ab(amx)) amx = x;
  }
  std::ostringstream o;
  o.precision(17);
  for (const T x : a) o << x << " ";
  const auto in = [&](T r) {
    for (const T x : a)
      if (x == r) return true;
    return false;
  };
  CHK(apply([](auto... x) { return vm::min(x...); }, a) == mn, "min", o.str());
  CHK(apply([](auto... x) { return vm::max(x...); }, a) == mx, "max", o.str());
  const T r1 = apply([](auto... x) { return vm::abs_min(x...); }, a);
  const T r2 = apply([](auto... x) { return vm::abs_max(x...); }, a);
  CHK(in(r1) && ab(r1) == ab(amn), "abs_min", o.str() << " got " << r1);
  CHK(in(r2) && ab(r2) == ab(amx), "abs_max", o.str() << " got " << r2);
}
#define SEL(T)                                                                                     \
  MON_GROUP_T(selection, 20000, T, 1)                                                              \
  MON_GROUP_T(selection, 20000, T, 2)                                                              \
  MON_GROUP_T(selection, 20000, T, 3)
MON_GROUP_T(selection, 5000, float, 1)
MON_GROUP_T(selection, 20000, float, 2)
MON_GROUP_T(selection, 20000, float, 3)
MON_GROUP_T(selection, 20000, double, 2)
MON_GROUP_T(selection, 20000, double, 3)
MON_GROUP_T(selection, 20000, double, 4)
MON_GROUP_T(selection, 20000, double, 5)
MON_GROUP_T(selection, 20000, double, 7)
MON_GROUP_T(selection, 20000, int, 2)
MON_GROUP_T(selection, 20000, int, 4)
MON_GROUP_T(selection, 20000, size_t, 3)
MON_GROUP_T(selection, 2500, float, 6)
MON_GROUP_T(selection, 2500, double, 9)
MON_GROUP_T(selection, 2500, long, 5)
MON_GROUP_T(selection, 2500, unsigned, 3)
MON_GROUP_T(selection, 2500, size_t, 6)

template <typename T, size_t N> static void safe_selection(Rng& g) {
  std::array<T, N> a;
  for (auto& x : a) x = g.chance(1, 3) ? std::numeric_limits<T>::quiet_NaN() : draw<T>(g);
  bool any = false;
  T mn = 0, mx = 0;
  size_t nans = 0;
  for (const T x : a) {
    if (x != x) { ++nans; continue; }
    if (!any || x < mn) mn = x;
    if (!any || x > mx) mx = x;
    any = true;
  }
  std::ostringstream o;
  o.precision(17);
  for (const T x : a) o << x << " ";
  const T r1 = apply([](auto... x) { return vm::safe_min(x...); }, a);
  const T r2 = apply([](auto... x) { return vm::safe_max(x...); }, a);
  if (!any) {
    OBS("all nan");
    CHK(r1 != r1 && r2 != r2, "all nan", o.str() << " got " << r1 << " " << r2);
  } else {
    if (nans) OBS("some nan");
    CHK(r1 == mn, "safe_min", o.str() << " got " << r1);
    CHK(r2 == mx, "safe_max", o.str() << " got " << r2);
  }
}
MON_GROUP_T(safe_selection, 4000, float, 1)
MON_GROUP_T(safe_selection, 20000, float, 2)
MON_GROUP_T(safe_selection, 20000, double, 3)
MON_GROUP_T(safe_selection, 20000, double, 4)
MON_GROUP_T(safe_selection, 20000, double, 6)
MON_GROUP_T(safe_selection, 2000, float, 5)
MON_GROUP_T(safe_selection, 2000, double, 8)

template <typename T> static void elementary(Rng& g) {
  const T v = draw<T>(g), e = draw<T>(g);
  T lo = draw<T>(g), hi = draw<T>(g);
  if constexpr (std::is_signed<T>::value || std::is_floating_point<T>::value) {
    CHK(vm::abs(v) == (v < T(0) ? T(-v) : v), "abs", "v=" << v);
    CHK(vm::sign(v) == (v < T(0) ? T(-1) : v > T(0) ? T(1) : T(0)), "sign", "v=" << v);
  }
  CHK(vm::step(e, v) == (v < e ? T(0) : T(1)), "step", "e=" << e << " v=" << v);
  CHK(vm::contains(v, lo, hi) == (v >= std::min(lo, hi) && v <= std::max(lo, hi)), "contains",
    "v=" << v << " in " << lo << " " << hi << " got " << vm::contains(v, lo, hi));
  if (hi < lo) std::swap(lo, hi);
  const T c = vm::clamp(v, lo, hi);
  CHK(c == (v < lo ? lo : v > hi ? hi : v), "clamp", "v=" << v << " lo=" << lo << " hi=" << hi << " got " << c);
  CHK(vm::clamp(v) == (v < T(0) ? T(0) : v > T(1) ? T(1) : v), "clamp default", "v=" << v << " got " << vm::clamp(v));
  if (v < lo) OBS("below");
  else if (v > hi) OBS("above");
  else OBS("inside");
}
MON_GROUP_T(elementary, 40000, float)
MON_GROUP_T(elementary, 40000, double)
MON_GROUP_T(elementary, 20000, int)
MON_GROUP_T(elementary, 20000, long)
MON_GROUP_T(elementary, 20000, size_t)

template <typename T> static void predicates(Rng& g) {
  const T v = g.wild<T>();
  CHK(vm::is_nan(v) == bool(std::isnan(v)), "is_nan", v);
  CHK(vm::is_inf(v) == bool(std::isinf(v)), "is_inf", v);
  CHK(std::isnan(vm::nan<T>()), "nan", vm::nan<T>());
  const T a = T(g.irange(-40, 40)) / T(16), b = T(g.irange(-40, 40)) / T(16), e = T(g.irange(0, 20)) / T(16);
  CHK(vm::is_equal(a, b, e) == (std::fabs(a - b) <= e), "is_equal", a << " " << b << " eps " << e);
  CHK(vm::is_zero(a, e) == (std::fabs(a) <= e), "is_zero", a << " eps " << e);
  if (std::fabs(a - b) == e) OBS("difference equals epsilon");
  CHK(!vm::is_zero(std::numeric_limits<T>::quiet_NaN(), e) && !vm::is_equal(std::numeric_limits<T>::quiet_NaN(), b, e), "nan is not equal", e);
  CHK(vm::abs_difference(a, b) == std::fabs(std::fabs(a) - std::fabs(b)), "abs_difference", a << " " << b);
  if (std::isfinite(v)) {
    const T n = vm::nextgreater(v);
    CHK(n > v && n == std::nextafter(v, std::numeric_limits<T>::infinity()), "nextgreater", v << " got " << n);
  }
}
MON_GROUP_T(predicates, 60000, float)
MON_GROUP_T(predicates, 60000, double)

MON_GROUP(unsigned_difference, 4000) {
  const size_t a = g.below(g.below(2) ? 20 : ~0ull), b = g.below(g.below(2) ? 20 : ~0ull);
  CHK(vm::abs_difference(a, b) == (a > b ? a - b : b - a), "abs_difference", a << " " << b);
  CHK(vm::abs_difference(b, a) == (a > b ? a - b : b - a), "abs_difference sym", a << " " << b);
}

template <typename T> static void interpolation(Rng& g) {
  const T a = g.nice<T>(), b = g.nice<T>();
  // dyadic factors: the result is exact up to the roundings of two products and a sum
  const T f = g.below(2) ? T(g.irange(0, 16)) / T(16) : T(g.real(-2, 3));
  const L e = (1 - L(f)) * a + L(f) * b;
  const L tol = 8 * eps<T>() * (std::fabs(L(a)) + std::fabs(L(b))) * (1 + std::fabs(L(f)));
  CHK(near(vm::mix(a, b, f), e, tol), "mix", a << " " << b << " f=" << f << " got " << vm::mix(a, b, f));
  const L etol = 4 * eps<T>() * (std::fabs(L(a)) + std::fabs(L(b)));
  CHK(near(vm::mix(a, b, T(0)), a, etol) && near(vm::mix(a, b, T(1)), b, etol), "mix ends", a << " " << b);
  const T ia = T(g.irange(-1000, 1000)), ib = T(g.irange(-1000, 1000));
  CHK(vm::mix(ia, ib, T(0)) == ia && vm::mix(ia, ib, T(1)) == ib, "mix ends, exact", ia << " " << ib);
  T e0 = g.nice<T>(), e1 = g.nice<T>();
  if (std::fabs(e1 - e0) < T(1e-3)) e1 = e0 + T(1);
  const T v = g.below(2) ? e0 + (e1 - e0) * T(g.real(-0.5, 1.5)) : g.nice<T>();
  L t = (L(v) - e0) / (L(e1) - e0);
  const L terr = 8 * eps<T>() * (std::fabs(L(v)) + std::fabs(L(e0)) + std::fabs(L(e1))) / std::fabs(L(e1) - e0) + 8 * eps<T>();
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  const T r = vm::smoothstep(e0, e1, v);
  CHK(near(r, t * t * (3 - 2 * t), 2 * terr), "smoothstep", "e0=" << e0 << " e1=" << e1 << " v=" << v << " got " << r);
  CHK(vm::smoothstep(e0, e1, e0) == T(0) && near(vm::smoothstep(e0, e1, e1), 1, 8 * eps<T>()), "smoothstep ends", e0 << " " << e1);
  // far outside
  const T w = std::fabs(e1 - e0);
  const T below = e0 + (e1 > e0 ? -w : w), above = e1 + (e1 > e0 ? w : -w);
  CHK(vm::smoothstep(e0, e1, below) == T(0) && vm::smoothstep(e0, e1, above) == T(1), "smoothstep outside", e0 << " " << e1);
}
MON_GROUP_T(interpolation, 60000, float)
MON_GROUP_T(interpolation, 60000, double)

template <typename T, typename U> static void cyclic(Rng& g) {
  long n = g.below(2) ? g.irange(1, 12) : g.irange(1, 1000);
  if (g.chance(1, 8)) n = sizeof(T) == 8 && sizeof(U) == 8 ? g.irange(1, 1l << 50) : g.irange(1, 300000000);
  const bool narrow = sizeof(T) < 4;
  const long most = std::min<long>(sizeof(T) == 8 ? 1l << 52 : long(std::numeric_limits<T>::max()), sizeof(U) == 8 ? 1l << 52 : long(std::numeric_limits<U>::max()));
  if (narrow) n = g.chance(1, 3) ? most - g.irange(0, 3) : g.chance(1, 2) ? g.irange(1, 12) : g.irange(1, most);
  const long i = g.chance(1, 6) ? n - 1 : g.irange(0, n - 1);
  const long s = narrow ? g.irange(0, long(std::numeric_limits<T>::max()))
                        : n < 100000000 && g.chance(1, 4) ? g.irange(0, 5 * n) : g.irange(0, n);
  const T ti = T(i), ts = T(s);
  const U un = U(n);
  const T sc = vm::succ(ti, un, ts), pr = vm::pred(ti, un, ts);
  CHK(long(sc) == (i + s) % n, "succ", "i=" << i << " n=" << n << " stride=" << s << " got " << sc);
  CHK(long(pr) == (((i - s) % n) + n) % n, "pred", "i=" << i << " n=" << n << " stride=" << s << " got " << pr);
  CHK(vm::pred(sc, un, ts) == ti && vm::succ(pr, un, ts) == ti, "inverse", "i=" << i << " n=" << n << " stride=" << s);
  CHK(long(vm::succ(ti, un)) == (i + 1) % n && long(vm::pred(ti, un)) == (i + n - 1) % n, "default stride", "i=" << i << " n=" << n);
  if (s > n) OBS("stride larger than count");
  if (s == n) OBS("stride equals count");
}
MON_GROUP_T(cyclic, 40000, size_t, size_t)
MON_GROUP_T(cyclic, 20000, unsigned char, int)
MON_GROUP_T(cyclic, 20000, signed char, int)
MON_GROUP_T(cyclic, 20000, unsigned char, size_t)
MON_GROUP_T(cyclic, 20000, unsigned short, unsigned short)
MON_GROUP_T(cyclic, 20000, short, size_t)
MON_GROUP_T(cyclic, 20000, int, int)
MON_GROUP_T(cyclic, 20000, unsigned, size_t)
MON_GROUP_T(cyclic, 20000, long, long)
MON_GROUP_T(cyclic, 40000, int, size_t)
MON_GROUP_T(cyclic, 40000, long, int)
MON_GROUP_T(cyclic, 20000, unsigned, int)
MON_GROUP_T(cyclic, 20000, size_t, int)

MON_GROUP(signed_difference, 4000) {
  const int a = int(g.irange(-2000, 2000)), b = g.below(4) ? int(g.irange(-2000, 2000)) : -a;
  CHK(vm::abs_difference(a, b) == std::abs(std::abs(a) - std::abs(b)), "abs_difference", a << " " << b);
}

template <typename T> static void angles(Rng& g) {
  const L pi = 3.14159265358979323846264338327950288L;
  const bool f = std::is_same<T, float>::value;
  T d;
  switch (g.below(5)) {
    case 0: d = T(g.irange(-40, 40)) * T(90); break;
    case 1: {
      d = T(g.irange(-6, 6)) * T(360);
      d = std::nextafter(d, g.below(2) ? T(1e9) : T(-1e9));
      OBS("next to a whole turn");
      break;
    }
    case 2: d = T(g.logreal(f ? 1e-30 : 1e-200, 1)); OBS("tiny"); break;
    case 3: d = T(g.logreal(1, f ? 1e5 : 1e12)); break;
    default: d = T(g.real(-1000, 1000)); break;
  }
  CHK(near(vm::to_radians(d), L(d) * pi / 180, 8 * eps<T>() * std::fabs(L(d) * pi / 180) + std::numeric_limits<T>::denorm_min() * 2), "to_radians", d);
  CHK(near(vm::to_degrees(d), L(d) * 180 / pi, 8 * eps<T>() * std::fabs(L(d) * 180 / pi) + 64 * L(std::numeric_limits<T>::denorm_min())), "to_degrees", d);
  const T n = vm::normalize_degrees(d);
  CHK(n >= T(0) && n < T(360), "degrees range", "d=" << d << " got " << n);
  L k = std::round((L(d) - n) / 360);
  CHK(std::fabs((L(d) - n) - k * 360) <= 4 * eps<T>() * (std::fabs(L(d)) + 360), "degrees turns", "d=" << d << " got " << n);
  const T n2 = vm::normalize_degrees(n);
  CHK(n2 == n, "degrees idempotent", "d=" << d << " got " << n << " then " << n2);
  if (d >= T(0) && d < T(360)) CHK(n == d, "degrees unchanged", "d=" << d << " got " << n);
  T r = d;
  const T two = vm::constants<T>::two_pi();
  if (g.chance(1, 3)) {
    r = T(g.irange(-6, 6)) * two;
    const auto w = g.below(3);
    if (w) r = std::nextafter(r, w == 1 ? T(1e9) : T(-1e9));
  }
  const T m = vm::normalize_radians(r);
  CHK(m >= T(0) && m < two, "radians range", "r=" << r << " got " << m);
  k = std::round((L(r) - m) / L(two));
  CHK(std::fabs((L(r) - m) - k * L(two)) <= 4 * eps<T>() * (std::fabs(L(r)) + L(two)), "radians turns", "r=" << r << " got " << m);
  CHK(vm::normalize_radians(m) == m, "radians idempotent", "r=" << r << " got " << m);
  if (r >= T(0) && r < two) CHK(m == r, "radians unchanged", "r=" << r << " got " << m);
}
// the forms for vectors: each component on its own
template <typename T, size_t S> static void vectors(Rng& g) {
  using V = vm::vec<T, S>;
  const auto dv = [&] {
    V v;
    for (size_t i = 0; i < S; ++i) v[i] = g.below(2) ? T(g.irange(-6, 6)) : T(g.real(-9, 9));
    return v;
  };
  const V a = dv(), b = dv(), c = dv(), d = dv();
  const auto each = [&](const char* what, const V& r, auto ref) {
    for (size_t i = 0; i < S; ++i) {
      const L e = ref(i);
      CHK(near(L(r[i]), e, 64 * eps<T>() * (1 + std::fabs(e))), what, P(a) << P(b) << P(c) << P(d) << " component " << i << " got " << r[i] << " expected " << e);
    }
  };
  const auto l = [](T x) { return L(x); };
  each("minimum", vm::min(a, b), [&](size_t i) { return std::min(l(a[i]), l(b[i])); });
  each("maximum", vm::max(a, b), [&](size_t i) { return std::max(l(a[i]), l(b[i])); });
  each("minimum of four", vm::min(a, b, c, d), [&](size_t i) { return std::min({l(a[i]), l(b[i]), l(c[i]), l(d[i])}); });
  each("maximum of four", vm::max(a, b, c, d), [&](size_t i) { return std::max({l(a[i]), l(b[i]), l(c[i]), l(d[i])}); });
  const auto absv = [](V v) {
    for (size_t i = 0; i < S; ++i) v[i] = std::fabs(v[i]);
    return v;
  };
  each("smallest magnitude", absv(vm::abs_min(a, b, c, d)), [&](size_t i) { return std::min({std::fabs(l(a[i])), std::fabs(l(b[i])), std::fabs(l(c[i])), std::fabs(l(d[i]))}); });
  each("largest magnitude", absv(vm::abs_max(a, b, c, d)), [&](size_t i) { return std::max({std::fabs(l(a[i])), std::fabs(l(b[i])), std::fabs(l(c[i])), std::fabs(l(d[i]))}); });
  V lo = a, hi = b;
  for (size_t i = 0; i < S; ++i)
    if (lo[i] > hi[i]) std::swap(lo[i], hi[i]);
  each("clamp", vm::clamp(c, lo, hi), [&](size_t i) { return std::max(l(lo[i]), std::min(l(hi[i]), l(c[i]))); });
  each("absolute value", vm::abs(a), [&](size_t i) { return std::fabs(l(a[i])); });
  each("sign", vm::sign(a), [&](size_t i) { return L((a[i] > 0) - (a[i] < 0)); });
  each("step", vm::step(a, c), [&](size_t i) { return L(c[i] < a[i] ? 0 : 1); });
  for (size_t i = 0; i < S; ++i) hi[i] = lo[i] + T(1) + std::fabs(b[i]); // not degenerate
  each("smooth step", vm::smoothstep(lo, hi, c), [&](size_t i) {
    const L t = std::max(L(0), std::min(L(1), (l(c[i]) - l(lo[i])) / (l(hi[i]) - l(lo[i]))));
    return t * t * (3 - 2 * t);
  });
  const V m = vm::mix(a, b, c);
  for (size_t i = 0; i < S; ++i) {
    const L e = (1 - l(c[i])) * l(a[i]) + l(c[i]) * l(b[i]);
    CHK(near(L(m[i]), e, 16 * eps<T>() * (1 + std::fabs(l(c[i]))) * (1 + std::fabs(l(a[i])) + std::fabs(l(b[i])))), "mix", P(a) << P(b) << P(c) << " component " << i << " got " << m[i] << " expected " << e);
  }
}
MON_GROUP_T(vectors, 10000, float, 3)
MON_GROUP_T(vectors, 10000, double, 2)
MON_GROUP_T(vectors, 10000, double, 4)
MON_GROUP_T(vectors, 5000, double, 1)
MON_GROUP_T(vectors, 5000, float, 7)

MON_GROUP_T(angles, 100000, float)
MON_GROUP_T(angles, 100000, double)

// huge and non finite angles still terminate and stay in the interval (or are not a number)
template <typename T> static void angles_extreme(Rng& g) {
  const T d = g.wild<T>();
  const T n = vm::normalize_degrees(d), m = vm::normalize_radians(d);
  if (std::isfinite(d) && std::fabs(d) < T(1) / std::numeric_limits<T>::epsilon()) {
    CHK(n >= T(0) && n < T(360), "degrees range", "d=" << d << " got " << n);
    CHK(m >= T(0) && m < vm::constants<T>::two_pi(), "radians range", "d=" << d << " got " << m);
  } else {
    CHK(true, "terminates", d << " " << n << " " << m);
    OBS("beyond the precision");
  }
}
MON_GROUP_T(angles_extreme, 60000, float)
MON_GROUP_T(angles_extreme, 60000, double)

template <typename T> static void square_root(Rng& g) {
  T v = g.wild<T>();
  if (std::isfinite(v) && g.chance(3, 4)) v = std::fabs(v);
  const T r = vm::sqrt(v);
  if (v < T(0)) {
    CHK(std::isnan(r), "negative", v << " got " << r);
    CHK(std::isnan(vm::sqrt_c(v)), "negative c", v << " got " << vm::sqrt_c(v));
    return;
  }
  CHK(same<T>(r, std::sqrt(v)) || ulps<T>(r, std::sqrt(L(v)), 1), "sqrt", v << " got " << r);
  const T c = vm::sqrt_c(v);
  if (v == T(0) || (v >= std::numeric_limits<T>::min() && v < std::numeric_limits<T>::infinity())) {
    CHK(ulps<T>(c, std::sqrt(L(v)), 4), "sqrt_c", v << " got " << c);
  } else if (!std::isfinite(v)) {
    CHK(same<T>(c, v), "sqrt_c non finite", v << " got " << c);
  }
  const T i = T(g.irange(0, 2000));
  CHK(vm::sqrt(i * i) == i && vm::sqrt_c(i * i) == i, "squares", i << " " << vm::sqrt_c(i * i));
}
MON_GROUP_T(square_root, 20000, float)
MON_GROUP_T(square_root, 20000, double)

template <typename T> static void constants_(Rng& g) {
  using C = vm::constants<T>;
  const L pi = 3.14159265358979323846264338327950288L, e = 2.71828182845904523536L;
  CHK(ulps<T>(C::pi(), pi, 1) && ulps<T>(C::two_pi(), 2 * pi, 1) && ulps<T>(C::half_pi(), pi / 2, 1) &&
        ulps<T>(C::quarter_pi(), pi / 4, 1) && ulps<T>(C::three_half_pi(), 3 * pi / 2, 2) && ulps<T>(C::e(), e, 1),
    "values", C::pi() << " " << C::e());
  CHK(C::almost_zero() == T(0.001) && C::point_status_epsilon() == T(0.0001) && C::correct_epsilon() == T(0.001) &&
        C::colinear_epsilon() == T(0.00001) && C::angle_epsilon() == T(0.00000001),
    "tolerances", C::almost_zero());
}
MON_GROUP_T(constants_, 1, float)
MON_GROUP_T(constants_, 1, double)

MON_MAIN("C06")
