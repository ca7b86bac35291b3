// C05: rounding, truncation and snapping of numbers
#include "gen.h"

// exact neighbours on the grid k*g for dyadic grids, evaluated without overflow in long double
template <typename T> static void integer_rounding(Rng& g) {
  const T v = g.wild_finite<T>();
  CHK(vm::trunc(v) == std::trunc(v), "trunc", "v=" << v << " got " << vm::trunc(v));
  CHK(vm::floor(v) == std::floor(v), "floor", "v=" << v << " got " << vm::floor(v));
  CHK(vm::ceil(v) == std::ceil(v), "ceil", "v=" << v << " got " << vm::ceil(v));
  CHK(vm::round(v) == std::round(v), "round", "v=" << v << " got " << vm::round(v));
  CHK(vm::fract(v) == v - std::trunc(v), "fract", "v=" << v << " got " << vm::fract(v));
  const T up = v < 0 ? std::floor(v) : std::ceil(v);
  CHK(vm::round_up(v) == up, "round_up", "v=" << v << " got " << vm::round_up(v));
  CHK(vm::round_down(v) == std::trunc(v), "round_down", "v=" << v << " got " << vm::round_down(v));
  for (const T r : {vm::trunc(v), vm::floor(v), vm::ceil(v), vm::round(v)}) {
    CHK(vm::trunc(r) == r && vm::floor(r) == r && vm::ceil(r) == r && vm::round(r) == r &&
          vm::round_up(r) == r && vm::round_down(r) == r && vm::fract(r) == T(0),
      "idempotent", "v=" << v << " r=" << r);
  }
  if (std::fabs(v) >= T(1) / std::numeric_limits<T>::epsilon()) OBS("huge");
  if (std::fabs(v) < T(1)) OBS("fraction");
  if (v - std::trunc(v) == T(0.5) || v - std::trunc(v) == T(-0.5)) OBS("tie");
}
MON_GROUP_T(integer_rounding, 300000, float)
MON_GROUP_T(integer_rounding, 300000, double)

template <typename T> static void trunc_integer(Rng& g) {
  const T v = T(g.irange(-2000000, 2000000));
  CHK(vm::trunc(v) == v, "trunc", "v=" << v);
}
MON_GROUP_T(trunc_integer, 2000, int)
MON_GROUP_T(trunc_integer, 2000, long)

// remainder: exact when the quotient is not rounded across an integer
template <typename T> static void remainder_exact(Rng& g) {
  const T unit = std::ldexp(T(1), int(g.irange(-6, 6)));
  const long lim = 2000;
  const T x = unit * T(g.irange(-lim, lim));
  long d = 0;
  while (d == 0) d = g.irange(-lim, lim);
  const T y = unit * T(d);
  CHK(vm::mod(x, y) == std::fmod(x, y), "mod", "x=" << x << " y=" << y << " got " << vm::mod(x, y));
}
MON_GROUP_T(remainder_exact, 60000, float)
MON_GROUP_T(remainder_exact, 60000, double)

template <typename T> static void remainder_real(Rng& g) {
  T x = T(g.logreal(1e-3, 1e4));
  const T y = T(g.logreal(1e-2, 1e3));
  if (g.below(3) == 0) { // close to a multiple
    x = y * (T(g.irange(-9, 9)) + T(g.logreal(std::max(1e-9, 64 * double(eps<T>())), 1e-2)));
  }
  const T r = vm::mod(x, y);
  const L e = std::fmod(L(x), L(y));
  const L tol = 4 * eps<T>() * (std::fabs(L(x)) + std::fabs(L(y)));
  // the quotient may be rounded to the neighbouring integer
  const bool ok = near(r, e, tol) ||
                  (std::fabs(e) <= tol && near(r, e - std::fabs(L(y)), tol)) ||
                  near(std::fabs(L(r)), std::fabs(L(y)), tol) && std::fabs(e) <= tol ||
                  (std::fabs(std::fabs(e) - std::fabs(L(y))) <= tol && std::fabs(L(r)) <= tol);
  CHK(ok, "mod", "x=" << x << " y=" << y << " got " << r << " expected " << e);
}
MON_GROUP_T(remainder_real, 60000, float)
MON_GROUP_T(remainder_real, 60000, double)

// dyadic grids: the quotient is exact, so is the expected neighbour
template <typename T> static void snap_dyadic(Rng& g) {
  const T grid = std::ldexp(T(1), g.chance(1, 4) ? int(g.irange(-30, 30)) : int(g.irange(-8, 8)));
  T v;
  switch (g.below(5)) {
    case 4:
      do v = g.wild_finite<T>();
      while (v != T(0) && (std::fabs(v) < T(1e-25) || std::fabs(v) > T(1e25)));
      OBS("any magnitude");
      break;
    case 0: v = grid * T(g.irange(-4000, 4000)); OBS("on grid"); break;
    case 1: v = grid * (T(g.irange(-4000, 4000)) + T(0.5)); OBS("tie"); break;
    case 2: {
      v = grid * (T(g.irange(-4000, 4000)) + (g.below(2) ? T(0.5) : T(0)));
      v = std::nextafter(v, g.below(2) ? T(1e30) : T(-1e30));
      OBS("next to grid or tie");
      break;
    }
    default: v = T(g.logreal(1e-6, 1e6)); break;
  }
  const T q = v / grid; // exact
  const T en = grid * std::round(q), eu = grid * (q < 0 ? std::floor(q) : std::ceil(q)),
          ed = grid * std::trunc(q);
  CHK(vm::snap(v, grid) == en, "snap", "v=" << v << " grid=" << grid << " got " << vm::snap(v, grid));
  CHK(vm::snapUp(v, grid) == eu, "snapUp", "v=" << v << " grid=" << grid << " got " << vm::snapUp(v, grid));
  CHK(vm::snapDown(v, grid) == ed, "snapDown", "v=" << v << " grid=" << grid << " got " << vm::snapDown(v, grid));
  for (const T r : {en, eu, ed}) {
    CHK(vm::snap(r, grid) == r && vm::snapUp(r, grid) == r && vm::snapDown(r, grid) == r,
      "idempotent", "v=" << v << " grid=" << grid << " r=" << r);
  }
  // the nearest grid point does not depend on the sign of the grid size (ties go away from zero)
  CHK(vm::snap(v, -grid) == en, "snap negative grid", "v=" << v << " grid=" << -grid << " got " << vm::snap(v, -grid));
}
MON_GROUP_T(snap_dyadic, 100000, float)
MON_GROUP_T(snap_dyadic, 100000, double)

template <typename T> static void snap_real(Rng& g) {
  static const double grids[] = {0.1, 0.3, 1, 3, 5, 7, 10, 1.0 / 3.0, 12, 15, 22.5, 100};
  const T grid = g.below(2) ? T(g.pick(grids)) : T(std::fabs(g.logreal(1e-2, 1e3)));
  const T v = g.chance(1, 3) ? grid * T(g.irange(-2000, 2000)) : T(g.logreal(1e-3, 1e4));
  const L lg = grid, tol = 8 * eps<T>() * (std::fabs(L(v)) + lg);
  const auto on_grid = [&](L r) { return std::fabs(r - lg * std::round(r / lg)) <= tol; };
  const T n = vm::snap(v, grid), u = vm::snapUp(v, grid), d = vm::snapDown(v, grid);
  const L sv = std::copysign(L(1), L(v));
  CHK(on_grid(n) && std::fabs(L(n) - v) <= lg / 2 + tol, "snap", "v=" << v << " grid=" << grid << " got " << n);
  CHK(on_grid(u) && (L(u) - v) * sv >= -tol && (L(u) - v) * sv <= lg + tol, "snapUp",
    "v=" << v << " grid=" << grid << " got " << u);
  CHK(on_grid(d) && (L(v) - d) * sv >= -tol && (L(v) - d) * sv <= lg + tol && L(d) * sv >= -tol, "snapDown",
    "v=" << v << " grid=" << grid << " got " << d);
  // strictly between two grid points the three results are the two neighbours
  const L q = L(v) / lg;
  const L f = std::fabs(q - std::trunc(q));
  const L slack = tol / lg;
  if (slack > 0.05L) {
    OBS("grid too fine for the precision of the value");
    return;
  }
  if (f > slack && f < 1 - slack) {
    OBS("between");
    CHK(near(d, lg * std::trunc(q), tol), "snapDown between", "v=" << v << " grid=" << grid << " got " << d);
    CHK(near(u, lg * (std::trunc(q) + sv), tol), "snapUp between", "v=" << v << " grid=" << grid << " got " << u);
  } else {
    OBS("on grid");
    const L k = std::round(q);
    CHK(near(n, lg * k, tol), "snap on grid", "v=" << v << " grid=" << grid << " got " << n);
  }
  CHK(vm::snap(n, grid) == n, "snap idempotent", "v=" << v << " grid=" << grid << " got " << vm::snap(n, grid));
  CHK(near(vm::snap(u, grid), u, tol) && near(vm::snap(d, grid), d, tol), "snap keeps snapped",
    "v=" << v << " grid=" << grid);
}
MON_GROUP_T(snap_real, 100000, float)
MON_GROUP_T(snap_real, 100000, double)

// whole multiples of a whole grid are on the grid, exactly
template <typename T> static void snap_whole(Rng& g) {
  const T grid = T(g.irange(1, g.below(2) ? 30 : 1000)) * (g.chance(1, 4) ? std::ldexp(T(1), int(g.irange(-20, 20))) : T(1));
  const T v = grid * T(g.irange(-16000, 16000)); // less than 24 bits
  CHK(vm::snap(v, grid) == v && vm::snapUp(v, grid) == v && vm::snapDown(v, grid) == v, "on the grid",
    "v=" << v << " grid=" << grid << " got " << vm::snap(v, grid) << " " << vm::snapUp(v, grid) << " " << vm::snapDown(v, grid));
  CHK(vm::mod(v, grid) == T(0), "no remainder", "v=" << v << " grid=" << grid << " got " << vm::mod(v, grid));
}
MON_GROUP_T(snap_whole, 100000, float)
MON_GROUP_T(snap_whole, 100000, double)

template <typename T> static void correct_number(Rng& g) {
  const size_t dec = size_t(g.irange(0, std::is_same<T, float>::value ? 3 : 8));
  L m = 1;
  for (size_t i = 0; i < dec; ++i) m *= 10;
  static const double epss[] = {0.001, 0.01, 0.1, 1e-5, 0.5, 1.0};
  const T e = T(g.pick(epss));
  T v;
  switch (g.below(3)) {
    case 0: v = T((L(g.irange(-5000, 5000))) / m + L(g.real(-2, 2)) * L(e)); break;
    case 1: v = T(g.irange(-5000, 5000) / m); break;
    default: v = T(g.below(2) ? g.real(-100, 100) : g.logreal(1e-8, std::is_same<T, float>::value ? 5e3 : 1e7)); break;
  }
  const bool def = g.chance(1, 3);
  const L le = def ? L(T(0.001)) : L(e);
  const T r = def ? vm::correct(v, dec) : vm::correct(v, dec, e);
  const L s = std::round(L(v) * m) / m;
  const L tol = 8 * eps<T>() * (std::fabs(L(v)) + 1 / m);
  const L dist = std::fabs(L(v) - s);
  if (std::fabs(std::fabs(L(v) * m - std::trunc(L(v) * m)) - 0.5L) <= tol * m * 4) {
    CHK(r == v || std::fabs(std::fabs(L(r) - L(v)) - 0.5L / m) <= 6 * tol, "tie", "v=" << v << " dec=" << dec << " eps=" << L(le) << " got " << r);
  } else if (dist < le - tol) {
    OBS("corrected");
    CHK(near(r, s, tol), "corrected", "v=" << v << " dec=" << dec << " eps=" << L(le) << " got " << r << " expected " << s);
  } else if (dist > le + tol) {
    OBS("kept");
    CHK(r == v, "kept", "v=" << v << " dec=" << dec << " eps=" << L(le) << " got " << r);
  } else {
    CHK(r == v || near(r, s, tol), "boundary", "v=" << v << " dec=" << dec << " eps=" << L(le) << " got " << r);
  }
  { // a distance of exactly the tolerance is not less than the tolerance
    const T b = T(g.irange(-900, 900)), d = std::ldexp(T(1), -int(g.irange(2, 12)));
    const T at = g.below(2) ? b + d : b - d;
    CHK(vm::correct(at, 0, d) == at, "kept at exactly the tolerance", "v=" << at << " eps=" << d << " got " << vm::correct(at, 0, d));
    CHK(vm::correct(at, 0, d * T(1.25)) == b, "corrected just inside the tolerance", "v=" << at << " eps=" << d * T(1.25) << " got " << vm::correct(at, 0, d * T(1.25)));
  }
  if (dec == 0 && def) {
    CHK(vm::correct(v) == r, "default decimals", "v=" << v);
  }
}
MON_GROUP_T(correct_number, 100000, float)
MON_GROUP_T(correct_number, 100000, double)

// vector forms: component i is the scalar form applied to component i and its own grid
template <typename T, size_t S> static void vector_forms(Rng& g) {
  vec<T, S> v, grid, y;
  for (size_t i = 0; i < S; ++i) {
    v[i] = g.chance(1, 3) ? g.wild_finite<T>() : g.nice<T>();
    grid[i] = g.below(2) ? T(g.irange(1, 32)) : T(std::fabs(g.logreal(1e-2, 1e2)));
    y[i] = T(g.logreal(1e-2, 1e2));
    if (!(std::fabs(v[i]) < T(1e30))) v[i] = T(1e12);
  }
  const auto cmp = [&](const char* key, const vec<T, S>& got, auto ref) {
    for (size_t i = 0; i < S; ++i) {
      CHK(same<T>(got[i], ref(i)), key, "component " << i << " of v=" << P(v) << " grid=" << P(grid) << " got " << P(got) << " expected " << ref(i));
    }
  };
  cmp("trunc", vm::trunc(v), [&](size_t i) { return std::trunc(v[i]); });
  cmp("floor", vm::floor(v), [&](size_t i) { return std::floor(v[i]); });
  cmp("ceil", vm::ceil(v), [&](size_t i) { return std::ceil(v[i]); });
  cmp("round", vm::round(v), [&](size_t i) { return std::round(v[i]); });
  cmp("fract", vm::fract(v), [&](size_t i) { return vm::fract(v[i]); });
  cmp("mod", vm::mod(v, y), [&](size_t i) { return vm::mod(v[i], y[i]); });
  cmp("snap", vm::snap(v, grid), [&](size_t i) { return vm::snap(v[i], grid[i]); });
  cmp("snapUp", vm::snapUp(v, grid), [&](size_t i) { return vm::snapUp(v[i], grid[i]); });
  cmp("snapDown", vm::snapDown(v, grid), [&](size_t i) { return vm::snapDown(v[i], grid[i]); });
  const size_t dec = g.below(4);
  const T e = T(g.real(1e-4, 0.6));
  vec<T, S> c;
  for (size_t i = 0; i < S; ++i) c[i] = T(g.irange(-300, 300)) / T(100) + T(g.real(-0.01, 0.01));
  const auto got = vm::correct(c, dec, e);
  for (size_t i = 0; i < S; ++i) {
    CHK(got[i] == vm::correct(c[i], dec, e), "correct", "component " << i << " of " << P(c) << " dec=" << dec << " eps=" << e << " got " << P(got));
  }
  // a predicate built on rounding
  bool allint = true;
  for (size_t i = 0; i < S; ++i) allint = allint && v[i] == std::trunc(v[i]);
  CHK(vm::is_integral(v) == allint, "is_integral", P(v));
  const T ie = T(g.irange(0, 8)) / T(16);
  vec<T, S> q;
  bool within = true;
  for (size_t i = 0; i < S; ++i) {
    q[i] = g.below(3) ? T(g.irange(-50, 50)) + T(g.irange(-2, 2)) / T(16) : T(g.irange(-800, 800)) / T(16);
    within = within && std::fabs(q[i] - std::round(q[i])) <= ie;
  }
  CHK(vm::is_integral(q, ie) == within, "is_integral eps", P(q) << " eps=" << ie);
  if (within) OBS("integral within eps");
}
MON_GROUP_T(vector_forms, 15000, float, 1)
MON_GROUP_T(vector_forms, 15000, float, 2)
MON_GROUP_T(vector_forms, 15000, double, 3)
MON_GROUP_T(vector_forms, 15000, double, 4)
MON_GROUP_T(vector_forms, 10000, double, 6)
MON_GROUP_T(vector_forms, 5000, float, 3)
MON_GROUP_T(vector_forms, 5000, float, 4)
MON_GROUP_T(vector_forms, 5000, double, 1)
MON_GROUP_T(vector_forms, 5000, double, 2)
MON_GROUP_T(vector_forms, 5000, float, 5)
MON_GROUP_T(vector_forms, 5000, double, 9)

MON_MAIN("C05")
