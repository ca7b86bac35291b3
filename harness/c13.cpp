// C13: projection and view matrices
#include "gen.h"

using vm::mat;

// image with perspective division, from the elements of the matrix
template <typename T> static L3 image(const mat<T, 4, 4>& m, const L3& p) { return lpoint(lm(m), p); }
static bool close(const L3& a, const L3& b, L tol) {
  for (size_t i = 0; i < 3; ++i)
    if (!near(a[i], b[i], tol)) return false;
  return true;
}
template <typename T> static void perspective(Rng& g) {
  const T fov = g.below(2) ? T(g.irange(1, 175)) : T(g.real(1, 175));
  const T sc = g.chance(1, 3) ? T(lscale(g, -12, 12)) : T(1);
  const T n = sc * T(g.real(0.1, 10)), f = n + sc * (g.chance(1, 4) ? T(g.real(0.1, 10)) : T(g.real(1, 2000)));
  const int w = int(g.chance(1, 6) ? g.irange(1, 16) : g.irange(16, 4000)), h = int(g.chance(1, 6) ? g.irange(1, 16) : g.irange(16, 4000));
  const auto m = vm::perspective_matrix(fov, n, f, w, h);
  const L pi = 3.14159265358979323846264338327950288L;
  const L v = std::tan(L(fov) * pi / 180 / 2) * 0.75L * n, u = v * w / h;
  const L tol = (fov > 150 ? 300 : 100) * eps<T>() * (1 + L(f) / L(n) * 0.01L + L(n) / (L(f) - L(n)));
  for (int sx = -1; sx <= 1; ++sx)
    for (int sy = -1; sy <= 1; ++sy) {
      const L3 c1{sx * u, sy * v, -L(n)}, c2 = c1 * (L(f) / n);
      CHK(close(image(m, c1), {L(sx), L(sy), -1}, tol), "near corners", "fov " << fov << " near " << n << " far " << f << " " << w << "x" << h << " corner " << P(c1) << " got " << P(image(m, c1)));
      CHK(close(image(m, c2), {L(sx), L(sy), 1}, tol * (1 + f / n)), "far corners", "fov " << fov << " near " << n << " far " << f << " " << w << "x" << h << " corner " << P(c2) << " got " << P(image(m, c2)));
    }
  // a point in the volume: cube coordinates and order of depth
  const L d1 = L(g.real(n, f)), d2 = L(g.real(n, f));
  const L a = L(g.real(-1, 1)), b = L(g.real(-1, 1));
  const auto q1 = image(m, {a * u * d1 / n, b * v * d1 / n, -d1}), q2 = image(m, {a * u * d2 / n, b * v * d2 / n, -d2});
  CHK(near(q1[0], a, tol) && near(q1[1], b, tol), "lines through the eye become parallel", P(q1));
  if (std::fabs(d1 - d2) > 0.01L * (d1 + d2) && std::fabs(q1[2] - q2[2]) > 100 * eps<T>()) CHK((d1 < d2) == (q1[2] < q2[2]), "depth order", d1 << " " << d2 << " " << q1[2] << " " << q2[2]);
  const L z = (L(f) + n) / (L(f) - n) - 2 * L(f) * n / ((L(f) - n) * d1);
  CHK(near(q1[2], z, tol * (1 + f / d1)), "depth", "near " << n << " far " << f << " at " << d1 << " got " << q1[2]);
  // the actual operation of the library
  const auto p = vec<T, 3>(T(a * u * d1 / n), T(b * v * d1 / n), T(-d1));
  CHK(close(lv(m * p), q1, 100 * eps<T>() * (10 + f / n + 10 * n / (f - n))), "applied to a point", P(p) << " got " << P(m * p) << " expected " << P(q1));
}
MON_GROUP_T(perspective, 20000, float)
MON_GROUP_T(perspective, 20000, double)

template <typename T> static void ortho(Rng& g) {
  const T sc = g.chance(1, 2) ? T(lscale(g, -16, 16)) : T(1);
  const auto co = [&]() { return sc * (g.below(2) ? T(g.irange(-400, 400)) : T(g.real(-400, 400))); };
  const T scz = g.chance(1, 2) ? T(lscale(g, -16, 16)) : T(1);
  const T n = scz * T(g.real(-50, 50)), f = n + scz * T(g.real(1, 2000));
  const T l = co(), b = co();
  T r = l + sc * T(g.real(1, 800)), t = b + sc * T(g.real(1, 800));
  if (g.chance(1, 4)) r = l - sc * T(g.real(1, 800)); // mirrored viewports are legal, too
  if (g.chance(1, 4)) t = b - sc * T(g.real(1, 800));
  const auto m = vm::ortho_matrix(n, f, l, t, r, b);
  const L mag = (std::fabs(L(l)) + std::fabs(L(r))) / std::fabs(L(r) - l) + (std::fabs(L(t)) + std::fabs(L(b))) / std::fabs(L(t) - b) + (std::fabs(L(n)) + std::fabs(L(f))) / (L(f) - n);
  const L tol = 50 * eps<T>() * (1 + mag * mag);
  for (int k = 0; k < 8; ++k) {
    const L3 c{k & 1 ? L(r) : L(l), k & 2 ? L(t) : L(b), k & 4 ? -L(f) : -L(n)};
    const L3 e{k & 1 ? 1.0L : -1.0L, k & 2 ? 1.0L : -1.0L, k & 4 ? 1.0L : -1.0L};
    CHK(close(image(m, c), e, tol), "corners", "near " << n << " far " << f << " l " << l << " t " << t << " r " << r << " b " << b << " corner " << P(c) << " got " << P(image(m, c)));
  }
  const L fx = L(g.unit01()), fy = L(g.unit01()), fz = L(g.unit01());
  const L3 p{L(l) + fx * (L(r) - l), L(b) + fy * (L(t) - b), -(L(n) + fz * (L(f) - n))};
  CHK(close(image(m, p), {2 * fx - 1, 2 * fy - 1, 2 * fz - 1}, tol), "interior", P(p) << " got " << P(image(m, p)));
}
MON_GROUP_T(ortho, 20000, float)
MON_GROUP_T(ortho, 20000, double)

template <typename T> static void view(Rng& g) {
  const L3 f = ldir<3>(g), u = lperp(g, f), s = lcross(f, u);
  const auto m = vm::view_matrix(tov<T>(f), tov<T>(u));
  const L tol = 30 * eps<T>();
  CHK(close(image(m, s), {1, 0, 0}, tol), "right becomes x", P(f) << P(u) << " got " << P(image(m, s)));
  CHK(close(image(m, u), {0, 1, 0}, tol), "up becomes y", P(f) << P(u) << " got " << P(image(m, u)));
  CHK(close(image(m, f), {0, 0, -1}, tol), "forward becomes -z", P(f) << P(u) << " got " << P(image(m, f)));
  CHK(close(image(m, {0, 0, 0}), {0, 0, 0}, 0), "eye stays in the origin", P(f) << P(u));
  const auto p = cvec<T, 3>(g, 50);
  const L3 e{ldot(lv(p), s), ldot(lv(p), u), -ldot(lv(p), f)};
  CHK(close(lv(m * p), e, tol * 4 * (1 + lmax(lv(p)))), "camera coordinates", P(f) << P(u) << P(p) << " got " << P(m * p) << " expected " << P(e));
}
MON_GROUP_T(view, 30000, float)
MON_GROUP_T(view, 30000, double)

template <typename T> static void projection(Rng& g) {
  const L3 n = lv(uvec<T, 3>(g));
  L3 dir = n;
  const bool oblique = g.chance(2, 3);
  if (oblique) do dir = lv(uvec<T, 3>(g));
    while (std::fabs(ldot(dir, n)) < 0.02L);
  const L along = std::fabs(ldot(dir, n));
  const L sc = g.chance(1, 2) ? lscale(g, -12, 12) : 1;
  const T d = T(sc) * (g.below(2) ? T(g.irange(-20, 20)) : T(g.real(-20, 20)));
  const auto m = oblique ? vm::plane_projection_matrix(d, tov<T>(n), tov<T>(dir)) : vm::plane_projection_matrix(d, tov<T>(n));
  const L tol = 2e4L * eps<T>() * 10 * sc / (along > 0.2L ? 1 : along * along);
  const L3 o = n * L(d);
  const L3 x = lperp(g, n), y = lcross(n, x);
  const auto point = [&]() { return o + x * (sc * L(g.real(-20, 20))) + y * (sc * L(g.real(-20, 20))); };
  const L3 p = point(), q = point();
  const L h = sc * L(g.real(-20, 20));
  const L3 mp = image(m, p), mq = image(m, q), mh = image(m, p + dir * h);
  CHK(close(image(m, o), {0, 0, 0}, tol), "anchor becomes origin", "d " << d << " n " << P(n) << " dir " << P(dir) << " got " << P(image(m, o)));
  CHK(near(mp[2], 0, tol), "points of the plane have third coordinate zero", "d " << d << " n " << P(n) << " dir " << P(dir) << " p " << P(p) << " got " << P(mp));
  CHK(near(ldist(mp, mq), ldist(p, q), tol), "distances in the plane", "d " << d << " n " << P(n) << " dir " << P(dir) << " " << ldist(p, q) << " got " << ldist(mp, mq));
  CHK(close(mh, {mp[0], mp[1], mp[2] + h}, tol), "moving along the direction", "d " << d << " n " << P(n) << " dir " << P(dir) << " h " << h << " from " << P(mp) << " to " << P(mh));
  const auto r = tov<T>(p + dir * h);
  CHK(close(lv(m * r), mh, tol), "applied to a point", P(r) << " got " << P(m * r) << " expected " << P(mh));
  OBS(oblique ? "oblique" : "perpendicular");
}
MON_GROUP_T(projection, 20000, float)
MON_GROUP_T(projection, 20000, double)

MON_MAIN("C13")
