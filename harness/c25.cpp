// C25: Bezier surface evaluation
#include "gen.h"

using vm::vec;
using namespace mon;

template <typename T, size_t C> using Grid = std::array<std::array<vec<T, C>, 3>, 3>;

template <typename T, size_t C> static Grid<T, C> grid(Rng& g) {
  Grid<T, C> r;
  const double range = g.chance(1, 8) ? 1000 : 10;
  for (auto& row : r)
    for (auto& p : row) p = g.below(3) ? cvec<T, C>(g, range) : ivec<T, C>(g, 8);
  if (g.chance(1, 6)) // all but one point at the origin: a single basis function
  {
    const size_t i = g.below(3), j = g.below(3);
    const auto keep = r[i][j];
    for (auto& row : r)
      for (auto& p : row) p = vec<T, C>::zero();
    r[i][j] = keep;
  } else if (g.chance(1, 6)) { // some points coincide
    for (int k = 0; k < 4; ++k) r[g.below(3)][g.below(3)] = r[g.below(3)][g.below(3)];
  } else if (g.chance(1, 6)) { // far from the origin
    const auto off = ivec<T, C>(g, 8);
    for (auto& row : r)
      for (auto& p : row) p = p + off * T(1024);
  }
  if (g.chance(1, 3)) {
    const T f = T(lscale(g, -40, 40));
    for (auto& row : r)
      for (auto& p : row) p = p * f;
  }
  return r;
}
template <typename T, size_t C> static std::string show(const Grid<T, C>& c) {
  std::string s;
  for (const auto& row : c)
    for (const auto& p : row) s += P(p);
  return s;
}
static L bern(int i, L x) { return i == 0 ? (1 - x) * (1 - x) : i == 1 ? 2 * x * (1 - x) : x * x; }

// de Casteljau in both directions; the first parameter runs along the inner index
template <typename T, size_t C> static LV<C> reference(const Grid<T, C>& c, L u, L v) {
  LV<C> rows[3];
  for (size_t i = 0; i < 3; ++i) {
    const LV<C> a = lv(c[i][0]) * (1 - u) + lv(c[i][1]) * u, b = lv(c[i][1]) * (1 - u) + lv(c[i][2]) * u;
    rows[i] = a * (1 - u) + b * u;
  }
  const LV<C> a = rows[0] * (1 - v) + rows[1] * v, b = rows[1] * (1 - v) + rows[2] * v;
  return a * (1 - v) + b * v;
}
template <typename T, size_t C> static L size_of(const Grid<T, C>& c) {
  L r = 0;
  for (const auto& row : c)
    for (const auto& p : row) r = std::max(r, lmax(lv(p)));
  return r;
}

template <typename T, size_t C> static void surface(Rng& g) {
  const auto c = grid<T, C>(g);
  const auto param = [&]() -> T {
    switch (g.below(8)) {
      case 0: return T(0);
      case 1: return T(1);
      case 2: return T(0.5);
      case 3: return T(g.irange(0, 16)) / T(16);
      case 4: {
        const T d = T(std::fabs(g.logreal(1e-9, 0.1)));
        return g.below(2) ? d : T(1) - d;
      }
      default: return T(g.real(0, 1));
    }
  };
  const T u = param(), v = param();
  const auto got = vm::evaluate_quadratic_bezier_surface(c, u, v);
  const L tol = 60 * eps<T>() * size_of(c);
  const auto where = show(c) + " u " + P(u) + " v " + P(v) + " got " + P(got);
  const auto want = reference(c, L(u), L(v));
  CHK(lmax(lv(got) - want) <= tol, "tensor product of Bernstein polynomials", where << " expected " << P(want));
  LV<C> sum{};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) sum = sum + lv(c[size_t(i)][size_t(j)]) * (bern(i, L(v)) * bern(j, L(u)));
  CHK(lmax(lv(got) - sum) <= tol, "weighted sum of control points", where);
  // inside the bounding box of the control points
  for (size_t k = 0; k < C; ++k) {
    L lo = L(c[0][0].v[k]), hi = lo;
    for (const auto& row : c)
      for (const auto& p : row) {
        lo = std::min(lo, L(p.v[k]));
        hi = std::max(hi, L(p.v[k]));
      }
    CHK(L(got.v[k]) >= lo - tol && L(got.v[k]) <= hi + tol, "inside the bounding box of the control points", where);
  }
  // corners
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) {
      const auto corner = vm::evaluate_quadratic_bezier_surface(c, T(j), T(i));
      CHK(lmax(lv(corner) - lv(c[size_t(2 * i)][size_t(2 * j)])) <= tol, "corner", show(c) << " u " << j << " v " << i << " got " << P(corner));
    }
  // symmetries of the control grid
  Grid<T, C> t, fu, fv;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) {
      t[j][i] = c[i][j];
      fu[i][2 - j] = c[i][j];
      fv[2 - i][j] = c[i][j];
    }
  CHK(lmax(lv(vm::evaluate_quadratic_bezier_surface(t, v, u)) - lv(got)) <= 2 * tol, "transposed grid", where);
  CHK(lmax(lv(vm::evaluate_quadratic_bezier_surface(fu, T(1) - u, v)) - want) <= 4 * tol, "reversed first parameter", where);
  CHK(lmax(lv(vm::evaluate_quadratic_bezier_surface(fv, u, T(1) - v)) - want) <= 4 * tol, "reversed second parameter", where);
  // affine invariance
  L A[C][C], off[C];
  for (size_t i = 0; i < C; ++i) {
    off[i] = L(g.irange(-8, 8)) * size_of(c);
    for (size_t j = 0; j < C; ++j) A[i][j] = L(g.irange(-3, 3));
  }
  const auto app = [&](const LV<C>& p) {
    LV<C> r{};
    for (size_t i = 0; i < C; ++i) {
      r[i] = off[i];
      for (size_t j = 0; j < C; ++j) r[i] += A[i][j] * p[j];
    }
    return r;
  };
  Grid<T, C> m;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) m[i][j] = tov<T>(app(lv(c[i][j])));
  CHK(lmax(lv(vm::evaluate_quadratic_bezier_surface(m, u, v)) - app(lv(got))) <= 30 * tol + 60 * eps<T>() * 8 * size_of(c), "affine invariance", where);
  OBS((u == T(0) || u == T(1) || v == T(0) || v == T(1)) ? "on the border" : "interior");
}
// the polynomials extend beyond the surface
template <typename T, size_t C> static void beyond(Rng& g) {
  const auto c = grid<T, C>(g);
  const T u = g.below(3) ? T(g.real(-4, 5)) : T(g.irange(-8, 8)), v = g.below(3) ? T(g.real(-4, 5)) : T(g.irange(-8, 8));
  const auto w = [](L x) { return (1 + 2 * std::fabs(x)) * (1 + 2 * std::fabs(x)); };
  const auto got = vm::evaluate_quadratic_bezier_surface(c, u, v);
  const auto want = reference(c, L(u), L(v));
  CHK(lmax(lv(got) - want) <= 60 * eps<T>() * size_of(c) * w(L(u)) * w(L(v)), "tensor product of Bernstein polynomials", show(c) << " u " << u << " v " << v << " got " << P(got) << " expected " << P(want));
}
MON_GROUP_T(beyond, 10000, float, 3)
MON_GROUP_T(beyond, 10000, double, 3)
MON_GROUP_T(beyond, 5000, double, 2)
MON_GROUP_T(beyond, 5000, double, 4)
MON_GROUP_T(surface, 20000, float, 3)
MON_GROUP_T(surface, 20000, double, 3)
MON_GROUP_T(surface, 8000, double, 1)
MON_GROUP_T(surface, 8000, float, 2)
MON_GROUP_T(surface, 8000, double, 5)
MON_GROUP_T(surface, 4000, float, 1)
MON_GROUP_T(surface, 4000, double, 2)
MON_GROUP_T(surface, 4000, float, 4)
MON_GROUP_T(surface, 4000, double, 4)
MON_GROUP_T(surface, 4000, double, 7)

// constant grids and grids that are linear in the parameters
template <typename T> static void special(Rng& g) {
  const auto p = ivec<T, 3>(g, 8), du = ivec<T, 3>(g, 8), dv = ivec<T, 3>(g, 8), dd = ivec<T, 3>(g, 8);
  Grid<T, 3> c;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) c[i][j] = tov<T>(lv(p) + lv(du) * L(j) + lv(dv) * L(i) + lv(dd) * L(i * j));
  const T u = T(g.irange(0, 8)) / T(8), v = T(g.irange(0, 8)) / T(8);
  const auto got = vm::evaluate_quadratic_bezier_surface(c, u, v);
  const L3 want = lv(p) + lv(du) * (2 * L(u)) + lv(dv) * (2 * L(v)) + lv(dd) * (4 * L(u) * L(v));
  CHK(lmax(lv(got) - want) <= 2000 * eps<T>(), "bilinear grid", show(c) << " u " << u << " v " << v << " got " << P(got));
}
MON_GROUP_T(special, 10000, float)
MON_GROUP_T(special, 10000, double)

MON_MAIN("C25")
