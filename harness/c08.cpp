// C08: vectors: construction, conversion and componentwise arithmetic
#include "gen.h"

#include <deque>
#include <list>

// any value of the type: integers over their whole range, floating point numbers of any magnitude
template <typename T> static T value(Rng& g) {
  if constexpr (std::is_same<T, bool>::value) {
    return g.below(2) != 0;
  } else if constexpr (std::is_integral<T>::value) {
    using N = std::numeric_limits<T>;
    const T sp[] = {N::min(), N::max(), T(N::max() - 1), T(N::max() / 2), T(0), T(1), T(N::min() + 1)};
    switch (g.below(4)) {
      case 0: return g.pick(sp);
      case 1: return T(g.u64());
      default: return g.nice<T>();
    }
  } else {
    return g.below(2) ? g.nice<T>() : g.wild_finite<T>();
  }
}
template <typename T, size_t S> static vec<T, S> values(Rng& g) {
  vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = value<T>(g);
  return r;
}
// integer values whose sums and products stay in range
template <typename T> static T operand(Rng& g) {
  if constexpr (std::is_integral<T>::value && !std::is_signed<T>::value) {
    return value<T>(g); // unsigned arithmetic wraps around
  } else if constexpr (std::is_integral<T>::value) {
    const T m = T(1) << (sizeof(T) * 4 - 2);
    return g.below(2) ? g.nice<T>() : T(g.irange(-long(m), long(m)));
  } else {
    return g.chance(1, 3) ? g.wild<T>() : g.nice<T>();
  }
}
template <typename T, size_t S> static vec<T, S> operands(Rng& g) {
  vec<T, S> r;
  const bool mixed = g.below(2);
  const bool wild = g.chance(1, 3);
  for (size_t i = 0; i < S; ++i) r.v[i] = mixed ? operand<T>(g) : wild && std::is_floating_point<T>::value ? g.wild<T>() : g.nice<T>();
  return r;
}

template <typename T, size_t S, typename A, size_t... I>
static vec<T, S> from_args(const std::array<A, S>& a, std::index_sequence<I...>) {
  return vec<T, S>(a[I]...);
}
template <typename T, size_t S, typename A, size_t... I>
static vec<T, S> from_prefix(const vec<T, S - sizeof...(I)>& p, const std::array<A, S>& a, std::index_sequence<I...>) {
  return vec<T, S>(p, a[I + S - sizeof...(I)]...);
}

template <size_t N, typename T, size_t S> static void slices_of(const vec<T, S>& v) {
  for (size_t k = 0; k + N <= S; ++k) {
    const auto s = vm::slice<N>(v, k);
    for (size_t i = 0; i < N; ++i) CHK(s[i] == v[i + k], "slice", "length " << N << " offset " << k << " of " << P(v) << " -> " << P(s));
  }
}
template <size_t S, typename T, size_t... I> static void slices(const vec<T, S>& v, std::index_sequence<I...>) {
  (slices_of<I + 1>(v), ...);
}

template <typename T, size_t S> static void construction(Rng& g) {
  std::array<T, S> a;
  for (auto& x : a) x = value<T>(g);
  std::ostringstream o;
  for (const auto x : a) o << x << " ";
  const auto is = [&](const char* key, const vec<T, S>& v) {
    for (size_t i = 0; i < S; ++i) CHK(v[i] == T(a[i]), key, "component " << i << " of " << P(v) << " expected " << o.str());
  };
  const vec<T, S> z;
  for (size_t i = 0; i < S; ++i) CHK(z[i] == T(0), "default is zero", P(z));
  const vec<T, S> v = from_args<T, S>(a, std::make_index_sequence<S>());
  is("arguments", v);
  std::array<double, S> da;
  for (size_t i = 0; i < S; ++i) da[i] = std::is_same<T, bool>::value ? double(g.below(2)) : std::is_integral<T>::value ? double(g.irange(std::is_signed<T>::value ? -99 : 0, 99)) : double(T(g.nice<double>()));
  const vec<T, S> vd = from_args<T, S>(da, std::make_index_sequence<S>());
  for (size_t i = 0; i < S; ++i) CHK(vd[i] == static_cast<T>(da[i]), "arguments of another type", "component " << i << " of " << P(vd));
  const vec<T, S> w = v;
  is("copy", w);
  vec<T, S> u;
  u = v;
  is("assignment", u);
  vec<T, S> m;
  for (size_t i = 0; i < S; ++i) m[i] = T(a[i]);
  is("element write", m);
  // named accessors
  CHK(v.x() == T(a[0]), "x", P(v));
  if constexpr (S >= 2) {
    CHK(v.y() == T(a[1]), "y", P(v));
    const auto xy = v.xy();
    CHK(xy[0] == T(a[0]) && xy[1] == T(a[1]), "xy", P(v) << " " << P(xy));
  }
  if constexpr (S >= 3) {
    CHK(v.z() == T(a[2]), "z", P(v));
    const auto xz = v.xz();
    const auto yz = v.yz();
    const auto xyz = v.xyz();
    CHK(xz[0] == T(a[0]) && xz[1] == T(a[2]), "xz", P(v) << " " << P(xz));
    CHK(yz[0] == T(a[1]) && yz[1] == T(a[2]), "yz", P(v) << " " << P(yz));
    CHK(xyz[0] == T(a[0]) && xyz[1] == T(a[1]) && xyz[2] == T(a[2]), "xyz", P(v) << " " << P(xyz));
  }
  if constexpr (S >= 4) {
    CHK(v.w() == T(a[3]), "w", P(v));
    const auto q = v.xyzw();
    CHK(q[0] == T(a[0]) && q[1] == T(a[1]) && q[2] == T(a[2]) && q[3] == T(a[3]), "xyzw", P(v) << " " << P(q));
  }
  // extension of a shorter vector
  if constexpr (S >= 2) {
    vec<T, S - 1> p;
    for (size_t i = 0; i < S - 1; ++i) p[i] = T(a[i]);
    is("extend by 1", from_prefix<T, S>(p, a, std::make_index_sequence<1>()));
  }
  if constexpr (S >= 3) {
    vec<T, S - 2> p;
    for (size_t i = 0; i < S - 2; ++i) p[i] = T(a[i]);
    is("extend by 2", from_prefix<T, S>(p, a, std::make_index_sequence<2>()));
  }
  // conversion between sizes: common prefix, rest zero
  const vec<T, S + 2> longer(v);
  for (size_t i = 0; i < S + 2; ++i) CHK(longer[i] == (i < S ? T(a[i]) : T(0)), "convert longer", P(v) << " -> " << P(longer));
  if constexpr (S >= 2) {
    const vec<T, S - 1> shorter(v);
    for (size_t i = 0; i < S - 1; ++i) CHK(shorter[i] == T(a[i]), "convert shorter", P(v) << " -> " << P(shorter));
    const auto sl0 = vm::slice<S - 1>(v, 0);
    const auto sl1 = vm::slice<S - 1>(v, 1);
    for (size_t i = 0; i < S - 1; ++i) {
      CHK(sl0[i] == T(a[i]), "slice 0", P(v) << " -> " << P(sl0));
      CHK(sl1[i] == T(a[i + 1]), "slice 1", P(v) << " -> " << P(sl1));
    }
  }
  slices<S>(v, std::make_index_sequence<S>());
  const auto sl = vm::slice<S>(v, 0);
  is("slice all", sl);
  for (size_t k = 0; k < S; ++k) CHK(vm::slice<1>(v, k)[0] == T(a[k]), "slice single", "offset " << k << " of " << P(v));
  // filled and axis vectors
  const auto f = vec<T, S>::fill(T(a[0]));
  for (size_t i = 0; i < S; ++i) CHK(f[i] == T(a[0]), "fill", P(f));
  const size_t k = g.below(S);
  const auto ax = vec<T, S>::axis(k);
  for (size_t i = 0; i < S; ++i) CHK(ax[i] == (i == k ? T(1) : T(0)), "axis", k << " " << P(ax));
  const auto ze = vec<T, S>::zero();
  const auto on = vec<T, S>::one();
  for (size_t i = 0; i < S; ++i) CHK(ze[i] == T(0) && on[i] == T(1), "zero and one", P(ze) << P(on));
  CHK((vec<T, S>::pos_x() == vec<T, S>::axis(0)), "pos_x", "");
  if constexpr (S >= 2) CHK((vec<T, S>::pos_y() == vec<T, S>::axis(1)), "pos_y", "");
  if constexpr (S >= 3) CHK((vec<T, S>::pos_z() == vec<T, S>::axis(2)), "pos_z", "");
  if constexpr (std::is_signed<T>::value) {
    for (size_t i = 0; i < S; ++i) {
      CHK((vec<T, S>::neg_x()[i] == (i == 0 ? T(-1) : T(0))), "neg_x", P(vec<T, S>::neg_x()));
      if constexpr (S >= 2) CHK((vec<T, S>::neg_y()[i] == (i == 1 ? T(-1) : T(0))), "neg_y", P(vec<T, S>::neg_y()));
      if constexpr (S >= 3) CHK((vec<T, S>::neg_z()[i] == (i == 2 ? T(-1) : T(0))), "neg_z", P(vec<T, S>::neg_z()));
    }
  }
  const auto mn = vec<T, S>::min();
  const auto mx = vec<T, S>::max();
  for (size_t i = 0; i < S; ++i) CHK(mn[i] == std::numeric_limits<T>::min() && mx[i] == std::numeric_limits<T>::max(), "min and max", P(mn) << P(mx));
  if constexpr (std::is_floating_point<T>::value) {
    const auto na = vec<T, S>::nan();
    for (size_t i = 0; i < S; ++i) CHK(std::isnan(na[i]), "nan", P(na));
  }
}
#define CONS(T)                                                                                    \
  MON_GROUP_T(construction, 4000, T)
MON_GROUP_T(construction, 4000, float, 1)
MON_GROUP_T(construction, 4000, float, 2)
MON_GROUP_T(construction, 6000, float, 3)
MON_GROUP_T(construction, 6000, float, 4)
MON_GROUP_T(construction, 4000, double, 1)
MON_GROUP_T(construction, 4000, double, 2)
MON_GROUP_T(construction, 6000, double, 3)
MON_GROUP_T(construction, 6000, double, 4)
MON_GROUP_T(construction, 6000, double, 5)
MON_GROUP_T(construction, 6000, double, 9)
MON_GROUP_T(construction, 4000, int, 3)
MON_GROUP_T(construction, 4000, int, 4)
MON_GROUP_T(construction, 4000, long, 2)
MON_GROUP_T(construction, 4000, size_t, 3)
MON_GROUP_T(construction, 4000, size_t, 2)
MON_GROUP_T(construction, 4000, long, 4)
MON_GROUP_T(construction, 4000, unsigned char, 4)
MON_GROUP_T(construction, 4000, int, 2)
MON_GROUP_T(construction, 2000, bool, 3)
MON_GROUP_T(construction, 1000, float, 6)
MON_GROUP_T(construction, 1000, double, 8)
MON_GROUP_T(construction, 1000, double, 12)
MON_GROUP_T(construction, 1000, int, 7)
MON_GROUP_T(construction, 1000, float, 9)

// values that the target type can represent the integral part of
template <typename T, typename U> static U convertible(Rng& g) {
  if constexpr (std::is_floating_point<T>::value && std::is_floating_point<U>::value) {
    const U v = g.below(2) ? g.nice<U>() : g.wild_finite<U>();
    return std::fabs(L(v)) <= L(std::numeric_limits<T>::max()) ? v : U(1);
  } else if constexpr (std::is_floating_point<T>::value) {
    return value<U>(g);
  } else {
    const L lo = L(std::numeric_limits<T>::min()), hi = L(std::numeric_limits<T>::max());
    for (;;) {
      const U v = std::is_floating_point<U>::value && g.below(2) ? U(g.logreal(1e-3, 1e20)) : value<U>(g);
      if (L(v) > lo - 1 && L(v) < hi + 1) return v;
    }
  }
}
template <typename T, typename U, size_t S> static void conversion(Rng& g) {
  vec<U, S> u;
  for (size_t i = 0; i < S; ++i) u[i] = convertible<T, U>(g);
  const vec<T, S> t(u);
  for (size_t i = 0; i < S; ++i) CHK(t[i] == static_cast<T>(u[i]), "convert", P(u) << " -> " << P(t));
  const T last = value<T>(g);
  const vec<T, S + 1> e(u, last);
  for (size_t i = 0; i < S; ++i) CHK(e[i] == static_cast<T>(u[i]), "convert and extend", P(u) << " -> " << P(e));
  CHK(e[S] == last, "convert and extend last", P(u) << " -> " << P(e));
  const vec<T, S + 3> l(u);
  for (size_t i = 0; i < S + 3; ++i) CHK(l[i] == (i < S ? static_cast<T>(u[i]) : T(0)), "convert to a longer vector", P(u) << " -> " << P(l));
  if constexpr (S >= 2) {
    const vec<T, S - 1> h(u);
    for (size_t i = 0; i < S - 1; ++i) CHK(h[i] == static_cast<T>(u[i]), "convert to a shorter vector", P(u) << " -> " << P(h));
  }
}
MON_GROUP_T(conversion, 4000, float, double, 3)
MON_GROUP_T(conversion, 4000, double, float, 3)
MON_GROUP_T(conversion, 4000, int, double, 2)
MON_GROUP_T(conversion, 4000, size_t, float, 4)
MON_GROUP_T(conversion, 4000, double, int, 4)
MON_GROUP_T(conversion, 4000, long, size_t, 3)
MON_GROUP_T(conversion, 4000, long, double, 3)
MON_GROUP_T(conversion, 4000, int, float, 2)
MON_GROUP_T(conversion, 4000, long, int, 4)
MON_GROUP_T(conversion, 4000, int, long, 3)
MON_GROUP_T(conversion, 4000, double, long, 2)
MON_GROUP_T(conversion, 4000, float, size_t, 3)
MON_GROUP_T(conversion, 4000, double, double, 5)
MON_GROUP_T(conversion, 2000, float, double, 6)
MON_GROUP_T(conversion, 2000, double, float, 9)
MON_GROUP_T(conversion, 2000, float, float, 4)

// partial and excess initialiser lists
MON_GROUP(initializer_lists, 4000) {
  const double a = g.nice<double>(), b = g.nice<double>(), c = g.nice<double>(), d = g.nice<double>(), e = g.nice<double>();
  const vec<double, 4> v2{a, b};
  CHK(v2[0] == a && v2[1] == b && v2[2] == 0 && v2[3] == 0, "short list", P(v2));
  const vec<double, 4> v4{a, b, c, d};
  CHK(v4[0] == a && v4[1] == b && v4[2] == c && v4[3] == d, "full list", P(v4));
  const vec<double, 4> v5({a, b, c, d, e});
  CHK(v5[0] == a && v5[1] == b && v5[2] == c && v5[3] == d, "long list", P(v5));
}

// IEEE componentwise: result i is the scalar operation on component i (compared as values)
template <typename T, size_t S> static void arithmetic(Rng& g) {
  const bool fl = std::is_floating_point<T>::value;
  const auto a = operands<T, S>(g), b = operands<T, S>(g), c = operands<T, S>(g);
  const T s = operand<T>(g);
  const auto ck = [&](const char* key, const vec<T, S>& got, auto ref) {
    for (size_t i = 0; i < S; ++i) {
      const T r = ref(i);
      bool ok = same<T>(got[i], r);
      if constexpr (std::is_floating_point<T>::value) ok = ok || ulps<T>(got[i], L(r), 2);
      CHK(ok, key, "component " << i << " of " << P(a) << ", " << P(b) << ", " << P(c) << " s=" << s << " got " << P(got) << " expected " << r);
    }
  };
  const auto scl = [](auto x) { return T(x); };
  ck("+v", +a, [&](size_t i) { return a[i]; });
  if constexpr (std::is_signed<T>::value) ck("-v", -a, [&](size_t i) { return scl(-a[i]); });
  ck("a+b", a + b, [&](size_t i) { return scl(a[i] + b[i]); });
  ck("a-b", a - b, [&](size_t i) { return scl(a[i] - b[i]); });
  ck("a*b", a * b, [&](size_t i) { return scl(a[i] * b[i]); });
  ck("a*s", a * s, [&](size_t i) { return scl(a[i] * s); });
  ck("s*a", s * a, [&](size_t i) { return scl(s * a[i]); });
  bool nz = s != T(0), bz = true;
  for (size_t i = 0; i < S; ++i) bz = bz && b[i] != T(0);
  if (fl || bz) {
    ck("a/b", a / b, [&](size_t i) { return scl(a[i] / b[i]); });
    ck("s/b", s / b, [&](size_t i) { return scl(s / b[i]); });
  }
  if (fl || nz) ck("a/s", a / s, [&](size_t i) { return scl(a[i] / s); });
}
MON_GROUP_T(arithmetic, 15000, float, 1)
MON_GROUP_T(arithmetic, 15000, float, 3)
MON_GROUP_T(arithmetic, 15000, double, 2)
MON_GROUP_T(arithmetic, 15000, double, 3)
MON_GROUP_T(arithmetic, 15000, double, 4)
MON_GROUP_T(arithmetic, 15000, double, 7)
MON_GROUP_T(arithmetic, 15000, int, 3)
MON_GROUP_T(arithmetic, 10000, long, 4)
MON_GROUP_T(arithmetic, 10000, int, 2)
MON_GROUP_T(arithmetic, 10000, size_t, 3)
MON_GROUP_T(arithmetic, 10000, unsigned, 2)
MON_GROUP_T(arithmetic, 10000, float, 4)
MON_GROUP_T(arithmetic, 10000, float, 2)
MON_GROUP_T(arithmetic, 5000, double, 1)
MON_GROUP_T(arithmetic, 5000, float, 5)
MON_GROUP_T(arithmetic, 5000, double, 9)
MON_GROUP_T(arithmetic, 5000, double, 12)
MON_GROUP_T(arithmetic, 5000, int, 6)
MON_GROUP_T(arithmetic, 5000, long, 8)
MON_GROUP_T(arithmetic, 5000, float, 8)
MON_GROUP_T(arithmetic, 5000, float, 10)

template <typename T, size_t S> static void selection(Rng& g) {
  const auto comp = [&] {
    vec<T, S> v;
    for (size_t i = 0; i < S; ++i) {
      v[i] = g.below(2) ? T(g.irange(std::is_signed<T>::value ? -5 : 0, 5)) : g.below(2) ? g.nice<T>() : value<T>(g);
      if constexpr (std::is_integral<T>::value && std::is_signed<T>::value) {
        if (v[i] == std::numeric_limits<T>::min()) v[i] = T(7); // has no absolute value
      }
      if (std::is_floating_point<T>::value && g.chance(1, 16)) v[i] = g.below(2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    }
    return v;
  };
  auto a = comp(), b = comp(), c = comp(), d = comp();
  for (size_t i = 0; i < S; ++i) { // nearly equal candidates
    if (std::is_floating_point<T>::value && g.chance(1, 4)) b[i] = T(std::nextafter(g.below(2) ? a[i] : -a[i], T(0)));
    if (g.chance(1, 6)) c[i] = b[i];
  }
  const vec<T, S> f5 = comp(), f6 = comp();
  const auto ab = [](T x) { return x < T(0) ? T(-x) : x; };
  const auto ck = [&](const char* key, const vec<T, S>& got, auto ok) {
    for (size_t i = 0; i < S; ++i) CHK(ok(i, got[i]), key, "component " << i << " of " << P(a) << ", " << P(b) << ", " << P(c) << ", " << P(d) << " got " << P(got));
  };
  ck("min 2", vm::min(a, b), [&](size_t i, T r) { return r == std::min(a[i], b[i]); });
  ck("max 2", vm::max(a, b), [&](size_t i, T r) { return r == std::max(a[i], b[i]); });
  ck("min 3", vm::min(a, b, c), [&](size_t i, T r) { return r == std::min({a[i], b[i], c[i]}); });
  ck("max 3", vm::max(a, b, c), [&](size_t i, T r) { return r == std::max({a[i], b[i], c[i]}); });
  ck("min 4", vm::min(a, b, c, d), [&](size_t i, T r) { return r == std::min({a[i], b[i], c[i], d[i]}); });
  ck("max 4", vm::max(a, b, c, d), [&](size_t i, T r) { return r == std::max({a[i], b[i], c[i], d[i]}); });
  const auto amin = [&](std::initializer_list<T> l, T r) {
    bool in = false;
    T m = *l.begin();
    for (const T x : l) {
      in = in || x == r;
      if (ab(x) < ab(m)) m = x;
    }
    return in && ab(r) == ab(m);
  };
  const auto amax = [&](std::initializer_list<T> l, T r) {
    bool in = false;
    T m = *l.begin();
    for (const T x : l) {
      in = in || x == r;
      if (ab(x) > ab(m)) m = x;
    }
    return in && ab(r) == ab(m);
  };
  ck("abs_min 2", vm::abs_min(a, b), [&](size_t i, T r) { return amin({a[i], b[i]}, r); });
  ck("abs_max 2", vm::abs_max(a, b), [&](size_t i, T r) { return amax({a[i], b[i]}, r); });
  ck("abs_min 3", vm::abs_min(a, b, c), [&](size_t i, T r) { return amin({a[i], b[i], c[i]}, r); });
  ck("abs_max 3", vm::abs_max(a, b, c), [&](size_t i, T r) { return amax({a[i], b[i], c[i]}, r); });
  ck("min 6", vm::min(a, b, c, d, f5, f6), [&](size_t i, T r) { return r == std::min({a[i], b[i], c[i], d[i], f5[i], f6[i]}); });
  ck("max 6", vm::max(a, b, c, d, f5, f6), [&](size_t i, T r) { return r == std::max({a[i], b[i], c[i], d[i], f5[i], f6[i]}); });
  ck("abs_min 6", vm::abs_min(a, b, c, d, f5, f6), [&](size_t i, T r) { return amin({a[i], b[i], c[i], d[i], f5[i], f6[i]}, r); });
  ck("abs_max 6", vm::abs_max(a, b, c, d, f5, f6), [&](size_t i, T r) { return amax({a[i], b[i], c[i], d[i], f5[i], f6[i]}, r); });
  ck("abs_min 4", vm::abs_min(a, b, c, d), [&](size_t i, T r) { return amin({a[i], b[i], c[i], d[i]}, r); });
  ck("abs_max 4", vm::abs_max(a, b, c, d), [&](size_t i, T r) { return amax({a[i], b[i], c[i], d[i]}, r); });
  ck("abs", vm::abs(a), [&](size_t i, T r) { return r == ab(a[i]); });
  ck("sign", vm::sign(a), [&](size_t i, T r) { return r == (a[i] < T(0) ? T(-1) : a[i] > T(0) ? T(1) : T(0)); });
  ck("step", vm::step(a, b), [&](size_t i, T r) { return r == (b[i] < a[i] ? T(0) : T(1)); });
  vec<T, S> lo, hi;
  for (size_t i = 0; i < S; ++i) {
    lo[i] = std::min(b[i], c[i]);
    hi[i] = std::max(b[i], c[i]);
  }
  ck("clamp", vm::clamp(a, lo, hi), [&](size_t i, T r) { return r == (a[i] < lo[i] ? lo[i] : a[i] > hi[i] ? hi[i] : a[i]); });
}
MON_GROUP_T(selection, 15000, float, 2)
MON_GROUP_T(selection, 15000, double, 3)
MON_GROUP_T(selection, 15000, double, 4)
MON_GROUP_T(selection, 15000, int, 3)
MON_GROUP_T(selection, 8000, double, 6)
MON_GROUP_T(selection, 8000, float, 1)
MON_GROUP_T(selection, 8000, float, 3)
MON_GROUP_T(selection, 8000, long, 2)
MON_GROUP_T(selection, 8000, long, 4)
MON_GROUP_T(selection, 4000, double, 2)
MON_GROUP_T(selection, 4000, float, 5)
MON_GROUP_T(selection, 4000, double, 9)
MON_GROUP_T(selection, 4000, int, 8)
MON_GROUP_T(selection, 4000, double, 12)

template <typename T, size_t S> static void interpolation(Rng& g) {
  const auto a = nvec<T, S>(g), b = nvec<T, S>(g);
  vec<T, S> f, e0, e1;
  for (size_t i = 0; i < S; ++i) {
    f[i] = g.below(3) ? T(g.real(-1, 2)) : T(g.irange(0, 1));
    e0[i] = g.nice<T>();
    e1[i] = e0[i] + T(g.logreal(0.1, 10));
  }
  const auto m = vm::mix(a, b, f);
  const auto s = vm::smoothstep(e0, e1, a);
  for (size_t i = 0; i < S; ++i) {
    const L e = (1 - L(f[i])) * a[i] + L(f[i]) * b[i];
    CHK(near(m[i], e, 16 * eps<T>() * (std::fabs(L(a[i])) + std::fabs(L(b[i]))) * (1 + std::fabs(L(f[i])))), "mix", "component " << i << " of " << P(a) << P(b) << P(f) << " got " << P(m));
    CHK(near(s[i], vm::smoothstep(e0[i], e1[i], a[i]), 64 * eps<T>()), "smoothstep", "component " << i << " got " << P(s));
  }
}
MON_GROUP_T(interpolation, 15000, float, 3)
MON_GROUP_T(interpolation, 15000, double, 2)
MON_GROUP_T(interpolation, 15000, double, 4)
MON_GROUP_T(interpolation, 7500, float, 2)
MON_GROUP_T(interpolation, 7500, double, 3)
MON_GROUP_T(interpolation, 7500, float, 1)
MON_GROUP_T(interpolation, 7500, double, 6)
MON_GROUP_T(interpolation, 7500, double, 9)

template <typename T, size_t S> static void predicates(Rng& g) {
  vec<T, S> v;
  bool nanv = false, zero = true;
  const T sc = g.below(2) ? T(1) : T(lscale(g, -60, 60));
  const T e = sc * T(g.irange(0, 6)) / T(8);
  for (size_t i = 0; i < S; ++i) {
    v[i] = g.chance(1, 6) ? std::numeric_limits<T>::quiet_NaN() : g.below(3) ? sc * T(g.irange(-6, 6)) / T(8) : T(0);
    if (g.chance(1, 6)) v[i] = std::nextafter(g.below(2) ? e : -e, g.below(2) ? T(1) : T(-1));
    if (g.chance(1, 24)) v[i] = g.wild<T>();
    nanv = nanv || v[i] != v[i];
    zero = zero && std::fabs(v[i]) <= e;
  }
  CHK(vm::is_nan(v) == nanv, "is_nan", P(v));
  CHK(vm::is_zero(v, e) == zero, "is_zero", P(v) << " eps " << e);
  // integral within a tolerance that no component is close to, at any magnitude
  if (!nanv) {
    vec<T, S> q;
    const T step[] = {T(0), T(0.25), T(-0.25), T(0.375), T(-0.375)}, tol[] = {T(0), T(0.3125), T(0.4375)};
    const T it = g.pick(tol);
    bool integral = true;
    for (size_t i = 0; i < S; ++i) {
      q[i] = T(std::trunc((g.below(2) ? 1 : -1) * g.logreal(0.5, 5e5))) + (g.below(3) ? T(0) : g.pick(step));
      if (g.chance(1, 12)) q[i] = T(std::trunc((g.below(2) ? 1 : -1) * g.logreal(1e6, 1e18)));
      integral = integral && std::fabs(q[i] - std::nearbyint(q[i])) <= it;
    }
    CHK(vm::is_integral(q, it) == integral, "is_integral", P(q) << " tolerance " << it);
    if (integral) OBS("integral");
  }
  if (zero) OBS("zero");
  if (nanv) OBS("nan");
}
MON_GROUP_T(predicates, 20000, float, 1)
MON_GROUP_T(predicates, 20000, float, 3)
MON_GROUP_T(predicates, 20000, double, 2)
MON_GROUP_T(predicates, 20000, double, 4)
MON_GROUP_T(predicates, 10000, float, 2)
MON_GROUP_T(predicates, 10000, double, 3)
MON_GROUP_T(predicates, 10000, float, 4)
MON_GROUP_T(predicates, 10000, float, 6)
MON_GROUP_T(predicates, 10000, double, 9)

template <typename T, size_t S> static void homogeneous(Rng& g) {
  const auto v = nvec<T, S>(g);
  const auto h = vm::to_homogeneous_coords(v);
  for (size_t i = 0; i < S; ++i) CHK(h[i] == v[i], "to_homogeneous", P(v) << " -> " << P(h));
  CHK(h[S] == T(1), "to_homogeneous weight", P(v) << " -> " << P(h));
  const auto back = vm::to_cartesian_coords(h);
  for (size_t i = 0; i < S; ++i) CHK(back[i] == v[i], "round trip", P(v) << " -> " << P(back));
  auto w = nvec<T, S + 1>(g);
  if (g.chance(1, 4))
    for (size_t i = 0; i < S; ++i) w[i] = T(g.logreal(1e-9, 1e9));
  w[S] = g.chance(1, 4) ? T(g.logreal(1e-9, 1e9)) : g.below(2) ? std::ldexp(T(1), int(g.irange(-4, 4))) : T(g.logreal(1e-2, 1e2));
  const auto c = vm::to_cartesian_coords(w);
  for (size_t i = 0; i < S; ++i) CHK(ulps<T>(c[i], L(w[i]) / L(w[S]), 4), "to_cartesian", P(w) << " -> " << P(c));
}
MON_GROUP_T(homogeneous, 15000, float, 3)
MON_GROUP_T(homogeneous, 15000, double, 2)
MON_GROUP_T(homogeneous, 15000, double, 3)
MON_GROUP_T(homogeneous, 8000, float, 1)
MON_GROUP_T(homogeneous, 8000, double, 5)
MON_GROUP_T(homogeneous, 4000, float, 2)
MON_GROUP_T(homogeneous, 4000, double, 4)
MON_GROUP_T(homogeneous, 4000, float, 6)
MON_GROUP_T(homogeneous, 4000, double, 8)

template <typename T, size_t S> static void collections(Rng& g) {
  std::vector<vec<T, S>> l;
  const size_t n = g.below(2) ? g.below(4) : g.chance(1, 16) ? g.below(300) : g.below(40);
  for (size_t i = 0; i < n; ++i) l.push_back(i && g.chance(1, 8) ? l[g.below(i)] : nvec<T, S>(g));
  const auto o = nvec<T, S>(g);
  const T fs[] = {T(0), T(1), T(-1), T(0.5)};
  const T f = g.below(4) ? g.nice<T>() : g.pick(fs);
  const auto ck = [&](const char* key, const auto& r, auto ref) {
    CHK(r.size() == l.size(), key, "length " << r.size() << " of " << l.size());
    for (size_t i = 0; i < std::min(r.size(), l.size()); ++i)
      for (size_t k = 0; k < S; ++k) CHK(r[i][k] == ref(l[i][k], k), key, "element " << i << " component " << k << " of " << P(l) << " offset " << P(o) << " factor " << f);
  };
  ck("list + v", l + o, [&](T x, size_t k) { return x + o[k]; });
  ck("v + list", o + l, [&](T x, size_t k) { return x + o[k]; });
  ck("list * s", l * f, [&](T x, size_t) { return x * f; });
  ck("s * list", f * l, [&](T x, size_t) { return x * f; });
  const auto arrays = [&](auto ar) {
    for (auto& x : ar) x = nvec<T, S>(g);
    l.assign(ar.begin(), ar.end());
    ck("array + v", ar + o, [&](T x, size_t k) { return x + o[k]; });
    ck("v + array", o + ar, [&](T x, size_t k) { return x + o[k]; });
    ck("array * s", ar * f, [&](T x, size_t) { return x * f; });
    ck("s * array", f * ar, [&](T x, size_t) { return x * f; });
  };
  switch (g.below(10)) {
    case 0: arrays(std::array<vec<T, S>, 1>{}); break;
    case 1: arrays(std::array<vec<T, S>, 2>{}); break;
    case 2: arrays(std::array<vec<T, S>, 4>{}); break;
    case 3: arrays(std::array<vec<T, S>, 7>{}); break;
    case 4: arrays(std::array<vec<T, S>, 8>{}); break;
    case 5: arrays(std::array<vec<T, S>, 9>{}); break;
    case 6: arrays(std::array<vec<T, S>, 17>{}); break;
    case 7: arrays(std::array<vec<T, S>, 35>{}); break;
    default: arrays(std::array<vec<T, S>, 5>{}); break;
  }
  // vertex extraction preserves order
  std::vector<vec<T, S>> out;
  vec<T, S>::get_vertices(l.begin(), l.end(), std::back_inserter(out));
  ck("get_vertices", out, [&](T x, size_t) { return x; });
  std::vector<vec<T, S>> pre(l.size() + 1, vec<T, S>::fill(T(5))); // into existing elements
  vec<T, S>::get_vertices(l.begin(), l.end(), pre.begin());
  CHK((pre.back() == vec<T, S>::fill(T(5))), "get_vertices writes one element per vertex", P(pre));
  pre.pop_back();
  ck("get_vertices", pre, [&](T x, size_t) { return x; });
  if (n == 0) OBS("empty list");
}
MON_GROUP_T(collections, 4000, float, 2)
MON_GROUP_T(collections, 4000, float, 3)
MON_GROUP_T(collections, 4000, double, 3)
MON_GROUP_T(collections, 4000, double, 4)
MON_GROUP_T(collections, 2000, float, 1)
MON_GROUP_T(collections, 2000, float, 4)
MON_GROUP_T(collections, 2000, double, 2)
MON_GROUP_T(collections, 2000, double, 6)
MON_GROUP_T(collections, 2000, double, 9)

// the named types denote the documented component type and dimension
MON_GROUP(aliases, 1) {
  CHK((std::is_same<vm::vec1f, vec<float, 1>>::value), "vec1f", "");
  CHK((std::is_same<vm::vec1d, vec<double, 1>>::value), "vec1d", "");
  CHK((std::is_same<vm::vec1i, vec<int, 1>>::value), "vec1i", "");
  CHK((std::is_same<vm::vec1l, vec<long, 1>>::value), "vec1l", "");
  CHK((std::is_same<vm::vec1s, vec<size_t, 1>>::value), "vec1s", "");
  CHK((std::is_same<vm::vec1b, vec<bool, 1>>::value), "vec1b", "");
  CHK((std::is_same<vm::vec2f, vec<float, 2>>::value), "vec2f", "");
  CHK((std::is_same<vm::vec2d, vec<double, 2>>::value), "vec2d", "");
  CHK((std::is_same<vm::vec2i, vec<int, 2>>::value), "vec2i", "");
  CHK((std::is_same<vm::vec2l, vec<long, 2>>::value), "vec2l", "");
  CHK((std::is_same<vm::vec2s, vec<size_t, 2>>::value), "vec2s", "");
  CHK((std::is_same<vm::vec2b, vec<bool, 2>>::value), "vec2b", "");
  CHK((std::is_same<vm::vec3f, vec<float, 3>>::value), "vec3f", "");
  CHK((std::is_same<vm::vec3d, vec<double, 3>>::value), "vec3d", "");
  CHK((std::is_same<vm::vec3i, vec<int, 3>>::value), "vec3i", "");
  CHK((std::is_same<vm::vec3l, vec<long, 3>>::value), "vec3l", "");
  CHK((std::is_same<vm::vec3s, vec<size_t, 3>>::value), "vec3s", "");
  CHK((std::is_same<vm::vec3b, vec<bool, 3>>::value), "vec3b", "");
  CHK((std::is_same<vm::vec4f, vec<float, 4>>::value), "vec4f", "");
  CHK((std::is_same<vm::vec4d, vec<double, 4>>::value), "vec4d", "");
  CHK((std::is_same<vm::vec4i, vec<int, 4>>::value), "vec4i", "");
  CHK((std::is_same<vm::vec4l, vec<long, 4>>::value), "vec4l", "");
  CHK((std::is_same<vm::vec4s, vec<size_t, 4>>::value), "vec4s", "");
  CHK((std::is_same<vm::vec4b, vec<bool, 4>>::value), "vec4b", "");
}

MON_MAIN("C08")
