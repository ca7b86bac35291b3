// C14: rotations by matrix, quaternion and Euler angles
#include "gen.h"

using vm::mat;
using vm::quat;

static const L pi = 3.14159265358979323846264338327950288L;

static bool close(const L3& a, const L3& b, L tol) {
  for (size_t i = 0; i < 3; ++i)
    if (!near(a[i], b[i], tol)) return false;
  return true;
}
static L angle(Rng& g) {
  switch (g.below(6)) {
    case 5: return L(g.logreal(1e-9, 1e5));
    case 0: return L(g.irange(-8, 8)) * pi / 2;
    case 1: return L(g.irange(-24, 24)) * pi / 12;
    case 2: return L(g.real(-1e-3, 1e-3));
    case 3: return pi + L(g.real(-1e-3, 1e-3));
    default: return L(g.real(-7, 7));
  }
}
template <typename T> static void rigid(const mat<T, 4, 4>& m, L tol, const char* what) {
  const auto M = lm(m);
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) {
      L d = 0;
      for (size_t k = 0; k < 3; ++k) d += M[k][i] * M[k][j];
      CHK(near(d, i == j ? 1 : 0, tol), "orthogonal", what << " " << P(m));
    }
  CHK(near(ldet<4>(M), 1, tol), "keeps handedness", what << " " << P(m));
  CHK(M[0][3] == 0 && M[1][3] == 0 && M[2][3] == 0 && M[3][0] == 0 && M[3][1] == 0 && M[3][2] == 0 && M[3][3] == 1, "linear part only", what << " " << P(m));
}
template <typename T> static void axis_angle(Rng& g) {
  const auto ax = uvec<T, 3>(g);
  const T an = T(angle(g));
  const L3 la = lv(ax);
  auto p = g.below(2) ? ivec<T, 3>(g, 9) : cvec<T, 3>(g, 10);
  if (g.chance(1, 3)) p = p * T(lscale(g, -30, 30));
  const L tol = 40 * eps<T>(), ptol = tol * llen(lv(p));
  const L3 e = lrot(la, L(an), lv(p));
  const quat<T> q(ax, an);
  const auto m = vm::rotation_matrix(ax, an);
  const auto mq = vm::rotation_matrix(q);
  CHK(close(lv(q * p), e, ptol), "quaternion rotates counter-clockwise", P(ax) << " " << an << " " << P(p) << " expected " << P(e) << " got " << P(q * p));
  CHK(close(lv(m * p), e, ptol), "matrix rotates counter-clockwise", P(ax) << " " << an << " " << P(p) << " expected " << P(e) << " got " << P(m * p));
  CHK(close(lv(mq * p), e, ptol), "matrix of quaternion", P(ax) << " " << an << " " << P(p) << " expected " << P(e) << " got " << P(mq * p));
  CHK(close(lv(q * ax), la, tol) && close(lv(m * ax), la, tol), "axis is fixed", P(ax) << " " << an);
  CHK(close(lv(q.conjugate() * (q * p)), lv(p), 4 * ptol), "conjugate inverts", P(q) << P(p));
  CHK(q.conjugate().r == q.r && q.conjugate().v == -q.v, "conjugate", P(q));
  rigid(m, tol, "axis and angle");
  rigid(mq, tol, "quaternion");
  // axis and angle are recovered away from the identity
  const L t = std::fabs(L(an)), half = std::sin(t / 2);
  if (t < 2 * pi && half > 0.005L) {
    CHK(near(q.angle(), t, 50 * eps<T>() / half), "angle of quaternion", P(ax) << " " << an << " got " << q.angle());
    CHK(close(lv(q.axis()), la * (an < T(0) ? -1 : 1), 50 * eps<T>() / (half * half)), "axis of quaternion", P(ax) << " " << an << " got " << P(q.axis()));
    OBS("recovered");
  }
}
MON_GROUP_T(axis_angle, 30000, float)
MON_GROUP_T(axis_angle, 30000, double)

template <typename T> static void composition(Rng& g) {
  const auto a1 = uvec<T, 3>(g), a2 = uvec<T, 3>(g);
  const T t1 = T(angle(g)), t2 = T(angle(g));
  auto p = cvec<T, 3>(g, 10);
  if (g.chance(1, 3)) p = p * T(lscale(g, -30, 30));
  const quat<T> q1(a1, t1), q2(a2, t2);
  const L tol = 80 * eps<T>() * llen(lv(p));
  const L3 e = lrot(lv(a1), t1, lrot(lv(a2), t2, lv(p)));
  CHK(close(lv((q1 * q2) * p), e, tol), "quaternion product applies the right factor first", P(q1) << P(q2) << P(p) << " expected " << P(e) << " got " << P((q1 * q2) * p));
  CHK(close(lv((vm::rotation_matrix(a1, t1) * vm::rotation_matrix(a2, t2)) * p), e, tol), "matrix product", P(q1) << P(q2) << P(p));
  CHK(close(lv(vm::rotation_matrix(q1 * q2) * p), e, tol), "matrix of product", P(q1) << P(q2) << P(p));
  const auto c = (q1 * q2).conjugate(), d = q2.conjugate() * q1.conjugate();
  CHK(near(c.r, d.r, 40 * eps<T>()) && close(lv(c.v), lv(d.v), 40 * eps<T>()), "conjugate of product", P(q1) << P(q2));
  // angle and axis of the composed rotation, also if it is almost the identity or half a turn
  {
    auto q = q1 * q2;
    if (g.below(2)) q = q1 * quat<T>(a1, (g.below(2) ? T(pi) : T(0)) - t1 + (g.below(2) ? T(0) : T(g.logreal(1e-9, 0.1))));
    const L v = llen(lv(q.v)), an = 2 * std::atan2(v, L(q.r));
    const L got = q.angle(), noise = 60 * eps<T>();
    CHK(std::fabs(got - an) <= noise / std::max(v, std::sqrt(noise)), "angle of product", P(q1) << P(q2) << " product " << P(q) << " expected " << an << " got " << got);
    if (v > 0.01L) CHK(close(lv(q.axis()), lv(q.v) * (1 / v), noise / (v * v)), "axis of product", P(q) << " got " << P(q.axis()));
    OBS(L(q.r) > 1 || L(q.r) < -1 ? "real part beyond one" : "real part below one");
  }
  // the product by definition, on arbitrary quaternions
  const T s1 = g.chance(1, 3) ? T(lscale(g, -20, 20)) : T(1), s2 = g.chance(1, 3) ? T(lscale(g, -20, 20)) : T(1);
  const quat<T> x(s1 * g.nice<T>(), nvec<T, 3>(g) * s1), y(s2 * g.nice<T>(), nvec<T, 3>(g) * s2);
  const auto z = x * y;
  const L xm = std::fabs(L(x.r)) + llen(lv(x.v)), ym = std::fabs(L(y.r)) + llen(lv(y.v));
  CHK(near(z.r, L(x.r) * y.r - ldot(lv(x.v), lv(y.v)), 20 * eps<T>() * xm * ym), "real part of product", P(x) << P(y) << P(z));
  CHK(close(lv(z.v), lv(y.v) * L(x.r) + lv(x.v) * L(y.r) + lcross(lv(x.v), lv(y.v)), 20 * eps<T>() * xm * ym), "imaginary part of product", P(x) << P(y) << P(z));
  const auto px = +x;
  CHK(px.r == x.r && px.v == x.v, "unary plus", P(x));
  const T f = g.nice<T>();
  const auto xf = x * f, fx = f * x;
  CHK(near(xf.r, L(x.r) * f, 4 * eps<T>() * xm * std::fabs(L(f))) && close(lv(xf.v), lv(x.v) * L(f), 4 * eps<T>() * xm * std::fabs(L(f))), "quaternion times scalar", P(x) << " * " << f << " = " << P(xf));
  CHK(near(fx.r, L(x.r) * f, 4 * eps<T>() * xm * std::fabs(L(f))) && close(lv(fx.v), lv(x.v) * L(f), 4 * eps<T>() * xm * std::fabs(L(f))), "scalar times quaternion", P(x) << " * " << f << " = " << P(fx));
  const quat<double> dx(x);
  CHK(dx.r == double(x.r) && (dx.v == vec<double, 3>(x.v)), "conversion", P(x));
  const quat<T> zq;
  CHK(zq.r == T(0) && (zq.v == vec<T, 3>::zero()), "default quaternion", P(zq));
}
MON_GROUP_T(composition, 30000, float)
MON_GROUP_T(composition, 30000, double)

// Equality, as far as both operands have the same sign in every component or clearly different
// components.
template <typename T> static void equality(Rng& g) {
  const quat<T> x(g.nice<T>(), nvec<T, 3>(g));
  CHK(x == x && !(x != x) && vm::is_equal(x, x, T(0)), "equal to itself", P(x));
  quat<T> y = x;
  const size_t k = g.below(4);
  y.r = T(g.irange(1, 50));
  y.v = ivec<T, 3>(g, 50);
  auto z = y;
  const T d = T(g.irange(1, 40)) / T(8);
  (k == 3 ? z.r : z.v[k]) += d;
  CHK(!(y == z) && y != z && !(z == y) && z != y, "different component", P(y) << P(z));
  const quat<T> nz(-z.r, z.v), rz(-z.r, -z.v);
  CHK(!(y == nz) && y != nz && !(nz == y) && nz != y && !(y == rz) && y != rz && !(rz == y) && rz != y, "different component, other sign", P(y) << P(nz));
  CHK(vm::is_equal(y, z, d) && vm::is_equal(z, y, d), "equal within epsilon", P(y) << P(z) << " " << d);
  CHK(!vm::is_equal(y, z, d * T(0.99)) && !vm::is_equal(z, y, d * T(0.99)), "different beyond epsilon", P(y) << P(z) << " " << d);
}
MON_GROUP_T(equality, 15000, float)
MON_GROUP_T(equality, 15000, double)

// Known finding, see known_findings.txt: fixed inputs.
MON_GROUP(equality_known, 1) {
  using Q = quat<double>;
  using V = vec<double, 3>;
  const Q q(0.5, V(0.5, 0.5, 0.5)), opposite(-0.5, V(-0.5, -0.5, -0.5)), inverse(-0.5, V(0.5, 0.5, 0.5));
  // q and its negation denote the same rotation, q and (-r, v) denote inverse rotations
  const bool same_rotation = q == opposite && vm::is_equal(q, opposite, 0.0) && !(q == inverse) && !vm::is_equal(q, inverse, 0.0);
  CHK(same_rotation, "negated quaternion", P(q) << " == " << P(opposite) << " is " << (q == opposite) << ", == " << P(inverse) << " is " << (q == inverse));
}

template <typename T> static void between(Rng& g) {
  L3 f = ldir<3>(g), t = ldir<3>(g);
  const unsigned kind = unsigned(g.below(6));
  if (kind == 0) t = f;
  if (kind == 1) t = f * -1;
  if (kind == 2) t = lrot(lperp(g, f), L(g.real(0.08, 0.3)), f);      // close to the same
  if (kind == 3) t = lrot(lperp(g, f), pi - L(g.real(0.08, 0.3)), f); // close to opposite
  const auto tf = tov<T>(f), tt = tov<T>(t);
  const L c = ldot(lv(tf), lv(tt));
  // within a thousandth of +-1 the directions count as equal or opposite
  if (kind > 1 && std::fabs(std::fabs(c) - 0.999L) < 2e-4L) return;
  if (kind > 1 && std::fabs(c) > 0.999L) return;
  const quat<T> q(tf, tt);
  const auto m = vm::rotation_matrix(tf, tt);
  const L s = std::sqrt(std::max(L(0), 1 - c * c));
  const L tol = kind <= 1 ? 60 * eps<T>() : 100 * eps<T>() / s;
  CHK(close(lv(q * tf), t, tol), "maps from onto to", P(tf) << P(tt) << " got " << P(q * tf));
  CHK(close(lv(m * tf), t, tol), "matrix maps from onto to", P(tf) << P(tt) << " got " << P(m * tf));
  rigid(m, 100 * eps<T>() * (1 + 1 / std::max(s, L(0.04))), "from to");
  // the axis is orthogonal to both: the shortest turn
  if (kind > 1) {
    const L3 ax = lnorm(lcross(lv(tf), lv(tt)));
    CHK(close(lv(q * tov<T>(ax)), ax, 200 * eps<T>() / s), "turns in the plane of the directions", P(tf) << P(tt));
  }
  OBS(kind == 0 ? "same" : kind == 1 ? "opposite" : kind == 2 ? "close" : kind == 3 ? "nearly opposite" : "general");
}
MON_GROUP_T(between, 40000, float)
MON_GROUP_T(between, 40000, double)

template <typename T> static void euler(Rng& g) {
  const T roll = T(angle(g)), yaw = T(angle(g));
  T pitch;
  switch (g.below(4)) {
    case 0: pitch = T((g.below(2) ? 1 : -1) * pi / 2); break;
    case 1: pitch = T((g.below(2) ? 1 : -1) * pi / 2 + L(g.logreal(1e-9, 1e-1))); break;
    default: pitch = T(angle(g)); break;
  }
  const auto m = vm::rotation_matrix(roll, pitch, yaw);
  auto p = cvec<T, 3>(g, 10);
  if (g.chance(1, 3)) p = p * T(lscale(g, -30, 30));
  const L3 e = lrot({0, 0, 1}, yaw, lrot({0, 1, 0}, pitch, lrot({1, 0, 0}, roll, lv(p))));
  CHK(close(lv(m * p), e, 60 * eps<T>() * llen(lv(p))), "roll, then pitch, then yaw", roll << " " << pitch << " " << yaw << " " << P(p) << " expected " << P(e) << " got " << P(m * p));
  rigid(m, 60 * eps<T>(), "euler");
  const auto a = vm::rotation_matrix_to_euler_angles(m);
  const auto r = vm::rotation_matrix(a[0], a[1], a[2]);
  const L ct = std::sqrt(L(m[0][0]) * m[0][0] + L(m[0][1]) * m[0][1]);
  // close to gimbal lock half the digits are lost
  const L tol = std::min(60 * eps<T>() / ct, 6 * std::sqrt(eps<T>())) + 60 * eps<T>();
  for (size_t c = 0; c < 3; ++c) CHK(close(lv(vec<T, 3>(r[c][0], r[c][1], r[c][2])), lv(vec<T, 3>(m[c][0], m[c][1], m[c][2])), tol), "rebuilt from its angles", roll << " " << pitch << " " << yaw << " angles " << P(a) << " " << P(m) << " rebuilt " << P(r));
  OBS(ct < 1e-8L ? "gimbal lock" : ct < 1e-2L ? "near gimbal lock" : "regular");
}
MON_GROUP_T(euler, 40000, float)
MON_GROUP_T(euler, 40000, double)

// angles of rotation matrices that come from elsewhere: axis and angle, quaternions, the exact 24
template <typename T> static void euler_of_any(Rng& g) {
  mat<T, 4, 4> m;
  switch (g.below(3)) {
    case 0: m = vm::rotation_matrix(uvec<T, 3>(g), T(angle(g))); break;
    case 1: m = vm::rotation_matrix(quat<T>(uvec<T, 3>(g), T(angle(g)))); break;
    default: {
      size_t pm[3] = {0, 1, 2};
      for (size_t i = 3; i > 1; --i) std::swap(pm[i - 1], pm[g.below(i)]);
      auto M = lm(mat<T, 4, 4>::zero());
      M[3][3] = 1;
      for (size_t i = 0; i < 3; ++i) M[i][pm[i]] = g.below(2) ? 1 : -1;
      if (ldet<4>(M) < 0)
        for (size_t j = 0; j < 3; ++j) M[2][j] = -M[2][j];
      m = tom<T, 4, 4>(M);
    }
  }
  const auto a = vm::rotation_matrix_to_euler_angles(m);
  const auto r = vm::rotation_matrix(a[0], a[1], a[2]);
  const L ct = std::sqrt(L(m[0][0]) * m[0][0] + L(m[0][1]) * m[0][1]);
  const L tol = std::min(100 * eps<T>() / ct, 8 * std::sqrt(eps<T>())) + 100 * eps<T>();
  for (size_t c = 0; c < 3; ++c) CHK(close(lv(vec<T, 3>(r[c][0], r[c][1], r[c][2])), lv(vec<T, 3>(m[c][0], m[c][1], m[c][2])), tol), "rebuilt from its angles", P(m) << " angles " << P(a) << " rebuilt " << P(r));
}
MON_GROUP_T(euler_of_any, 30000, float)
MON_GROUP_T(euler_of_any, 30000, double)

MON_MAIN("C14")
