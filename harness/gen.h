// Generators for the value types of the library and independent long double vector arithmetic.
#pragma once
#include "mon.h"

#include <vecmath/forward.h>

#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/bezier_surface.h>
#include <vecmath/convex_hull.h>
#include <vecmath/distance.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/polygon.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>

namespace mon {
template <typename T, size_t S> struct Printer<vm::vec<T, S>, void> {
  static void print(std::ostream& o, const vm::vec<T, S>& v) {
    o << "(";
    for (size_t i = 0; i < S; ++i) o << (i ? " " : "") << v.v[i];
    o << ")";
  }
};
template <typename T, size_t R, size_t C> struct Printer<vm::mat<T, R, C>, void> {
  static void print(std::ostream& o, const vm::mat<T, R, C>& m) {
    o << "[";
    for (size_t r = 0; r < R; ++r) {
      for (size_t c = 0; c < C; ++c) o << (c ? " " : "") << m.v[c].v[r];
      o << (r + 1 < R ? "; " : "");
    }
    o << "]";
  }
};
template <typename T, size_t S> struct Printer<vm::ray<T, S>, void> {
  static void print(std::ostream& o, const vm::ray<T, S>& r) { o << "ray{" << P(r.origin) << " -> " << P(r.direction) << "}"; }
};
template <typename T, size_t S> struct Printer<vm::line<T, S>, void> {
  static void print(std::ostream& o, const vm::line<T, S>& r) { o << "line{" << P(r.point) << " -> " << P(r.direction) << "}"; }
};
template <typename T, size_t S> struct Printer<vm::segment<T, S>, void> {
  static void print(std::ostream& o, const vm::segment<T, S>& r) { o << "segment{" << P(r.start()) << " .. " << P(r.end()) << "}"; }
};
template <typename T, size_t S> struct Printer<vm::plane<T, S>, void> {
  static void print(std::ostream& o, const vm::plane<T, S>& r) { o << "plane{n " << P(r.normal) << " d " << r.distance << "}"; }
};
template <typename T, size_t S> struct Printer<vm::bbox<T, S>, void> {
  static void print(std::ostream& o, const vm::bbox<T, S>& r) { o << "bbox{" << P(r.min) << " .. " << P(r.max) << "}"; }
};
template <typename T> struct Printer<vm::quat<T>, void> {
  static void print(std::ostream& o, const vm::quat<T>& r) { o << "quat{" << r.r << ", " << P(r.v) << "}"; }
};
template <typename T, size_t S> struct Printer<vm::polygon<T, S>, void> {
  static void print(std::ostream& o, const vm::polygon<T, S>& r) { o << "polygon" << P(r.vertices()); }
};
template <size_t S> using LV = std::array<L, S>;
using L3 = LV<3>;

template <size_t S> struct Printer<std::array<L, S>, void> {
  static void print(std::ostream& o, const std::array<L, S>& v) {
    o << "(";
    for (size_t i = 0; i < S; ++i) o << (i ? " " : "") << v[i];
    o << ")";
  }
};
template <typename T, size_t S> LV<S> lv(const vm::vec<T, S>& v) {
  LV<S> r{};
  for (size_t i = 0; i < S; ++i) {
    r[i] = L(v.v[i]);
  }
  return r;
}
template <typename T, size_t S> vm::vec<T, S> tov(const LV<S>& v) {
  vm::vec<T, S> r;
  for (size_t i = 0; i < S; ++i) {
    r.v[i] = T(v[i]);
  }
  return r;
}
template <size_t S> LV<S> operator+(const LV<S>& a, const LV<S>& b) {
  LV<S> r{};
  for (size_t i = 0; i < S; ++i) r[i] = a[i] + b[i];
  return r;
}
template <size_t S> LV<S> operator-(const LV<S>& a, const LV<S>& b) {
  LV<S> r{};
  for (size_t i = 0; i < S; ++i) r[i] = a[i] - b[i];
  return r;
}
template <size_t S> LV<S> operator*(const LV<S>& a, L f) {
  LV<S> r{};
  for (size_t i = 0; i < S; ++i) r[i] = a[i] * f;
  return r;
}
template <size_t S> L ldot(const LV<S>& a, const LV<S>& b) {
  L r = 0;
  for (size_t i = 0; i < S; ++i) r += a[i] * b[i];
  return r;
}
template <size_t S> L labsdot(const LV<S>& a, const LV<S>& b) {
  L r = 0;
  for (size_t i = 0; i < S; ++i) r += std::fabs(a[i] * b[i]);
  return r;
}
inline L3 lcross(const L3& a, const L3& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
template <size_t S> L llen(const LV<S>& a) { return std::sqrt(ldot(a, a)); }
template <size_t S> LV<S> lnorm(const LV<S>& a) { return a * (1 / llen(a)); }
template <size_t S> L lmax(const LV<S>& a) {
  L r = 0;
  for (size_t i = 0; i < S; ++i) r = std::max(r, std::fabs(a[i]));
  return r;
}
template <size_t S> L ldist(const LV<S>& a, const LV<S>& b) { return llen(a - b); }

template <typename T, size_t S> vm::vec<T, S> nvec(Rng& g) {
  vm::vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = g.nice<T>();
  return r;
}
template <typename T, size_t S> vm::vec<T, S> wvec(Rng& g) {
  vm::vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = g.wild<T>();
  return r;
}
template <typename T, size_t S> vm::vec<T, S> wfvec(Rng& g) {
  vm::vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = g.wild_finite<T>();
  return r;
}
template <typename T, size_t S> vm::vec<T, S> cvec(Rng& g, double range = 10.0) {
  vm::vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = g.coord<T>(range);
  return r;
}
template <typename T, size_t S> vm::vec<T, S> ivec(Rng& g, long range = 8) {
  vm::vec<T, S> r;
  for (size_t i = 0; i < S; ++i) r.v[i] = T(g.irange(-range, range));
  return r;
}
// unit vectors: axes, signed diagonals, small integer directions, uniform
template <size_t S> LV<S> ldir(Rng& g) {
  for (;;) {
    LV<S> r{};
    switch (g.below(7)) {
      case 6: { // close to an axis or to a coordinate plane: tiny components
        const size_t k = g.below(S);
        for (size_t i = 0; i < S; ++i) {
          if (i == k) r[i] = g.below(2) ? 1 : -1;
          else if (g.chance(1, 4)) r[i] = 0;
          else if (g.chance(1, 4)) r[i] = L(g.real(-1, 1));
          else r[i] = L(g.logreal(1e-12, 0.1));
        }
        break;
      }
      case 0:
        r[g.below(S)] = g.below(2) ? 1 : -1;
        break;
      case 1:
        for (size_t i = 0; i < S; ++i) r[i] = L(g.irange(-1, 1));
        break;
      case 2:
        for (size_t i = 0; i < S; ++i) r[i] = L(g.irange(-4, 4));
        break;
      default:
        for (size_t i = 0; i < S; ++i) r[i] = L(g.real(-1, 1));
        break;
    }
    if (llen(r) > 0.1L) {
      return lnorm(r);
    }
  }
}
template <typename T, size_t S> vm::vec<T, S> uvec(Rng& g) { return tov<T>(ldir<S>(g)); }
// a power of two; scaling with it is exact
inline L lscale(Rng& g, int lo, int hi) { return std::ldexp(L(1), int(g.irange(lo, hi))); }
// unit vector orthogonal to n
inline L3 lperp(Rng& g, const L3& n) {
  for (;;) {
    const L3 d = ldir<3>(g);
    const L3 p = d - n * (ldot(d, n) / ldot(n, n));
    if (llen(p) > 0.3L) {
      return lnorm(p);
    }
  }
}
template <typename T, size_t R, size_t C> vm::mat<T, R, C> nmat(Rng& g) {
  vm::mat<T, R, C> m;
  for (size_t c = 0; c < C; ++c) m.v[c] = nvec<T, R>(g);
  return m;
}
template <typename T, size_t R, size_t C> vm::mat<T, R, C> imat(Rng& g, long range = 8) {
  vm::mat<T, R, C> m;
  for (size_t c = 0; c < C; ++c) m.v[c] = ivec<T, R>(g, range);
  return m;
}

// matrices as plain rows x cols long double arrays
template <size_t R, size_t C> using LM = std::array<std::array<L, C>, R>;
template <typename T, size_t R, size_t C> LM<R, C> lm(const vm::mat<T, R, C>& m) {
  LM<R, C> r{};
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j) r[i][j] = L(m.v[j].v[i]);
  return r;
}
template <typename T, size_t R, size_t C> vm::mat<T, R, C> tom(const LM<R, C>& m) {
  vm::mat<T, R, C> r;
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j) r.v[j].v[i] = T(m[i][j]);
  return r;
}
template <size_t R, size_t K, size_t C> LM<R, C> lmul(const LM<R, K>& a, const LM<K, C>& b) {
  LM<R, C> r{};
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j)
      for (size_t k = 0; k < K; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
template <size_t R, size_t C> LV<R> lapp(const LM<R, C>& a, const LV<C>& v) {
  LV<R> r{};
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j) r[i] += a[i][j] * v[j];
  return r;
}
// affine image of a point / linear image of a direction
inline L3 lpoint(const LM<4, 4>& a, const L3& v) {
  const LV<4> h = lapp<4, 4>(a, {v[0], v[1], v[2], 1});
  return {h[0] / h[3], h[1] / h[3], h[2] / h[3]};
}
inline L3 llin(const LM<4, 4>& a, const L3& v) {
  const LV<4> h = lapp<4, 4>(a, {v[0], v[1], v[2], 0});
  return {h[0], h[1], h[2]};
}
// The same transformation in other homogeneous coordinates: exact, and w is not 1.
template <typename T, size_t S> vm::mat<T, S, S> homogeneous_twin(Rng& g, const vm::mat<T, S, S>& m) {
  const T f[] = {T(2), T(0.5), T(4), T(0.125)};
  vm::mat<T, S, S> r = m;
  if (g.below(4) == 0) {
    const T k = g.pick(f);
    for (size_t c = 0; c < S; ++c)
      for (size_t i = 0; i < S; ++i) r.v[c].v[i] *= k;
  }
  return r;
}
inline L3 lrot(const L3& axis, L angle, const L3& p) { // Rodrigues
  const L c = std::cos(angle), s = std::sin(angle);
  return p * c + lcross(axis, p) * s + axis * (ldot(axis, p) * (1 - c));
}
template <size_t N> L ldet(const LM<N, N>& m) { // Gaussian elimination with full row pivoting
  LM<N, N> a = m;
  L d = 1;
  for (size_t k = 0; k < N; ++k) {
    size_t p = k;
    for (size_t i = k; i < N; ++i)
      if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    if (a[p][k] == 0) return 0;
    if (p != k) {
      std::swap(a[p], a[k]);
      d = -d;
    }
    d *= a[k][k];
    for (size_t i = k + 1; i < N; ++i) {
      const L f = a[i][k] / a[k][k];
      for (size_t j = k; j < N; ++j) a[i][j] -= f * a[k][j];
    }
  }
  return d;
}
template <size_t N> bool linv(const LM<N, N>& m, LM<N, N>& out) {
  LM<N, N> a = m;
  out = {};
  for (size_t i = 0; i < N; ++i) out[i][i] = 1;
  for (size_t k = 0; k < N; ++k) {
    size_t p = k;
    for (size_t i = k; i < N; ++i)
      if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    if (a[p][k] == 0) return false;
    std::swap(a[p], a[k]);
    std::swap(out[p], out[k]);
    const L f = 1 / a[k][k];
    for (size_t j = 0; j < N; ++j) {
      a[k][j] *= f;
      out[k][j] *= f;
    }
    for (size_t i = 0; i < N; ++i) {
      if (i == k) continue;
      const L h = a[i][k];
      for (size_t j = 0; j < N; ++j) {
        a[i][j] -= h * a[k][j];
        out[i][j] -= h * out[k][j];
      }
    }
  }
  return true;
}
template <size_t N> L lnorm_inf(const LM<N, N>& m) {
  L r = 0;
  for (size_t i = 0; i < N; ++i) {
    L s = 0;
    for (size_t j = 0; j < N; ++j) s += std::fabs(m[i][j]);
    r = std::max(r, s);
  }
  return r;
}
// random affine map with a well conditioned linear part; kind: 0 translation .. 5 general
inline LM<4, 4> laffine(Rng& g, bool allow_reflection = true) {
  for (;;) {
    LM<4, 4> m{};
    for (size_t i = 0; i < 4; ++i) m[i][i] = 1;
    switch (g.below(6)) {
      case 0:
        break;
      case 1:
        for (size_t i = 0; i < 3; ++i) m[i][i] = L(g.irange(1, 4)) * (g.below(2) ? 1 : -1);
        break;
      case 2: { // signed permutation
        size_t p[3] = {0, 1, 2};
        for (size_t i = 3; i > 1; --i) std::swap(p[i - 1], p[g.below(i)]);
        for (size_t i = 0; i < 3; ++i) m[i][i] = 0;
        for (size_t i = 0; i < 3; ++i) m[i][p[i]] = g.below(2) ? 1 : -1;
        break;
      }
      case 3: { // rotation
        const L3 a = ldir<3>(g);
        const L t = L(g.real(-7, 7));
        for (size_t j = 0; j < 3; ++j) {
          L3 e{};
          e[j] = 1;
          const L3 c = lrot(a, t, e);
          for (size_t i = 0; i < 3; ++i) m[i][j] = c[i];
        }
        break;
      }
      case 4: // shear
        m[g.below(3)][g.below(3)] += L(g.irange(-3, 3)) / 2;
        break;
      default:
        for (size_t i = 0; i < 3; ++i)
          for (size_t j = 0; j < 3; ++j) m[i][j] = L(g.coord<double>(3));
        break;
    }
    if (g.chance(3, 4)) {
      for (size_t i = 0; i < 3; ++i) m[i][3] = L(g.coord<double>(10));
    }
    if (g.chance(1, 8)) { // uniformly smaller or larger
      const L f = std::ldexp(L(1), int(g.irange(-7, 7)));
      for (size_t i = 0; i < 3; ++i)
        for (size_t j = 0; j < 3; ++j) m[i][j] *= f;
    }
    const L d = ldet<4>(m);
    LM<4, 4> inv;
    if (d == 0 || !linv<4>(m, inv)) continue;
    if (!allow_reflection && d < 0) continue;
    if (lnorm_inf<4>(m) * lnorm_inf<4>(inv) > 20000) continue;
    return m;
  }
}
// round the entries to T so that the reference uses the same numbers as the code under test
template <typename T, size_t R, size_t C> LM<R, C> round_to(const LM<R, C>& m) {
  return lm(tom<T, R, C>(m));
}
} // namespace mon

using namespace mon;
using vm::vec;
