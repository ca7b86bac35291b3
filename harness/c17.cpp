// C17: planes
#include "gen.h"

#include <list>

using vm::plane;
using vm::plane_status;

static bool close(const L3& a, const L3& b, L tol) {
  for (size_t i = 0; i < 3; ++i)
    if (!near(a[i], b[i], tol)) return false;
  return true;
}
template <typename T, size_t S> static L sd(const plane<T, S>& p, const LV<S>& q) { return ldot(lv(p.normal), q) - L(p.distance); }

template <typename T, size_t S> static void basics(Rng& g) {
  const auto n = uvec<T, S>(g);
  const T d = g.below(2) ? T(g.irange(-50, 50)) : g.coord<T>(50);
  const plane<T, S> p(d, n);
  CHK(p.distance == d && p.normal == n, "distance and normal", P(p));
  const auto q = g.below(2) ? ivec<T, S>(g, 30) : cvec<T, S>(g, 30);
  const L mag = 1 + std::fabs(L(d)) + llen(lv(q)), tol = 20 * eps<T>() * mag;
  // the unit length of the normal is only as good as T
  CHK(near(sd(p, lv(p.anchor())), 0, 4 * tol), "anchor is on the plane", P(p) << P(p.anchor()));
  CHK(near(llen(lv(p.anchor())), std::fabs(L(d)), 4 * tol), "anchor is closest to the origin", P(p) << P(p.anchor()));
  const plane<T, S> a(q, n);
  CHK(near(sd(a, lv(q)), 0, tol) && a.normal == n, "plane through a point", P(q) << P(n) << " got " << P(a));
  CHK(near(p.point_distance(q), sd(p, lv(q)), tol), "point distance", P(p) << P(q) << " got " << p.point_distance(q));
  // status with explicit and default tolerance
  const T e = g.below(2) ? T(g.real(0.001, 5)) : T(0.0001);
  const auto st = [&](const vec<T, S>& x, const T ee, const plane_status got) {
    const L s = sd(p, lv(x));
    if (std::fabs(std::fabs(s) - L(ee)) <= tol * 4) return;
    const auto ex = s > L(ee) ? plane_status::above : s < -L(ee) ? plane_status::below : plane_status::inside;
    CHK(got == ex, "point status", P(p) << P(x) << " eps " << ee << " signed distance " << s << " got " << int(got));
    OBS(ex == plane_status::above ? "above" : ex == plane_status::below ? "below" : "inside");
  };
  st(q, e, p.point_status(q, e));
  st(q, T(0.0001), p.point_status(q));
  LV<S> lq = lv(q);
  lq = lq - lv(n) * sd(p, lq) + lv(n) * L(g.pick(std::array<double, 7>{0, 0.00005, -0.00005, 0.0003, -0.0003, 1, -1}));
  const auto q2 = tov<T>(lq);
  st(q2, T(0.0001), p.point_status(q2));
  st(q2, e, p.point_status(q2, e));
  { // exactly at the tolerance, and without any
    const size_t ax = g.below(S);
    const T sg = g.below(2) ? T(1) : T(-1), dist = T(g.irange(-20, 20)), te = T(g.irange(0, 3)) / T(4);
    const plane<T, S> u(dist, vec<T, S>::axis(ax) * sg);
    auto x = ivec<T, S>(g, 30);
    const T off = T(g.irange(-4, 4)) / T(4);
    x[ax] = sg * (dist + off);
    const auto ex = off > te ? plane_status::above : off < -te ? plane_status::below : plane_status::inside;
    CHK(u.point_status(x, te) == ex, "point status at the tolerance", P(u) << P(x) << " eps " << te << " signed distance " << off);
  }
  // flipping
  const auto f = p.flip();
  CHK(f.distance == -p.distance && f.normal == -p.normal && f.flip() == p, "flip", P(p) << P(f));
  CHK(f.point_distance(q) == -p.point_distance(q), "flipped distance", P(p) << P(q));
  // coordinates from the others
  for (size_t ax = 0; ax < S; ++ax) {
    vec<T, S - 1> r;
    LV<S> full{};
    size_t k = 0;
    for (size_t i = 0; i < S; ++i)
      if (i != ax) {
        r[k++] = q[i];
        full[i] = q[i];
      }
    const auto at = vm::axis::type(ax);
    const T v = p.at(r, at);
    T w = v;
    if (ax == 0) w = p.xAt(r);
    if constexpr (S > 1)
      if (ax == 1) w = p.yAt(r);
    if constexpr (S > 2)
      if (ax == 2) w = p.zAt(r);
    CHK(w == v, "named coordinate", P(p) << P(r) << " axis " << ax);
    if (n[ax] == T(0)) {
      CHK(v == T(0), "no coordinate on a parallel plane", P(p) << P(r));
      OBS("parallel to axis");
    } else {
      full[ax] = v;
      if (std::fabs(L(n[ax])) < 0.01L) OBS("nearly parallel to axis");
      CHK(near(sd(p, full), 0, 4 * tol), "coordinate gives a point of the plane", P(p) << P(r) << " axis " << ax << " got " << v);
    }
  }
  // equality
  CHK(p == p && !(p != p) && vm::is_equal(p, p, T(0)), "equal to itself", P(p));
  plane<T, S> x(T(g.irange(-50, 50)), ivec<T, S>(g, 5)), y = x;
  const T dl = T(g.irange(1, 20)) / T(8);
  const size_t k = g.below(S + 1);
  (k == S ? y.distance : y.normal[k]) += dl;
  CHK(x != y && !(x == y) && vm::is_equal(x, y, dl) && vm::is_equal(y, x, dl) && !vm::is_equal(x, y, dl * T(0.99)), "equality with tolerance", P(x) << P(y) << dl);
  const plane<double, S> dp(p);
  const plane<float, S> fp(p);
  CHK(dp.distance == double(d) && (dp.normal == vec<double, S>(n)) && fp.distance == float(d) && (fp.normal == vec<float, S>(n)), "conversion", P(p));
}
MON_GROUP_T(basics, 20000, float, 2)
MON_GROUP_T(basics, 20000, double, 2)
MON_GROUP_T(basics, 30000, float, 3)
MON_GROUP_T(basics, 30000, double, 3)
MON_GROUP_T(basics, 10000, float, 4)
MON_GROUP_T(basics, 10000, double, 4)
MON_GROUP_T(basics, 10000, double, 5)
MON_GROUP_T(basics, 10000, double, 7)

template <typename T> static void points(Rng& g) {
  vec<T, 3> p[3];
  const bool ints = g.chance(2, 3);
  for (auto& x : p) x = ints ? ivec<T, 3>(g, g.below(2) ? 2 : 60) : cvec<T, 3>(g, 20);
  if (ints && g.chance(1, 3)) { // colinear or coinciding
    const auto d = ivec<T, 3>(g, 4);
    p[1] = p[0] + d * T(g.irange(-3, 3));
    p[2] = p[0] + d * T(g.irange(-3, 3));
  }
  const L3 a = lv(p[0]), b = lv(p[1]), c = lv(p[2]);
  const L3 n = lcross(c - a, b - a);
  const L sn = llen(n) / (llen(b - a) * llen(c - a));
  const auto [ok, pl] = vm::from_points(p[0], p[1], p[2]);
  const auto [ok2, no] = vm::plane_normal(p[0], p[1], p[2]);
  CHK(ok == ok2, "normal and plane agree", P(p[0]) << P(p[1]) << P(p[2]));
  if (ints && llen(n) == 0) {
    CHK(!ok, "colinear points have no plane", P(p[0]) << P(p[1]) << P(p[2]) << " got " << P(pl));
    CHK((no == vec<T, 3>::zero()), "no normal", P(no));
    OBS("colinear");
  }
  if (llen(n) > 0 && sn > 1e-3L) {
    CHK(ok, "plane exists", P(p[0]) << P(p[1]) << P(p[2]));
    const L tol = 100 * eps<T>() / sn;
    const L mag = 1 + lmax(a) + lmax(b) + lmax(c);
    CHK(close(lv(pl.normal), lnorm(n), tol * mag / std::max(L(1), std::min(llen(b - a), llen(c - a)))), "orientation", P(p[0]) << P(p[1]) << P(p[2]) << " expected " << P(lnorm(n)) << " got " << P(pl));
    CHK(pl.normal == no, "plane_normal", P(pl) << P(no));
    for (const auto& x : p) CHK(std::fabs(sd(pl, lv(x))) <= tol * mag * 4, "contains its points", P(pl) << P(x) << " distance " << sd(pl, lv(x)));
    OBS("plane");
    // explicit threshold on the sine of the angle
    const T e = T(g.real(0.01, 0.99));
    if (std::fabs(sn - L(e)) > 1e-4L) CHK(std::get<0>(vm::plane_normal(p[0], p[1], p[2], e)) == (sn >= L(e)), "threshold", "sine " << sn << " eps " << e);
  }
  { // the same triangle in another size: powers of two are exact
    const int k = sizeof(T) == 4 ? 16 : 100;
    const T s = T(lscale(g, -k, k));
    const auto [oks, pls] = vm::from_points(p[0] * s, p[1] * s, p[2] * s);
    if ((ints && llen(n) == 0) || (llen(n) > 0 && sn > 1e-3L)) {
      CHK(oks == ok, "plane in another size", P(p[0]) << P(p[1]) << P(p[2]) << " scaled by " << s);
      CHK(!ok || (close(lv(pls.normal), lv(pl.normal), 8 * eps<T>()) && near(pls.distance, pl.distance * s, 8 * eps<T>() * L(s) * (std::fabs(L(pl.distance)) + lmax(a)))), "same plane in another size", P(pl) << P(pls) << " scaled by " << s);
      OBS("scaled");
    }
  }
  // ranges: the first three elements count
  std::vector<vec<T, 3>> v{p[0], p[1], p[2]};
  for (size_t i = g.below(4); i > 0; --i) v.push_back(ivec<T, 3>(g, 50));
  const auto [ok3, pl3] = vm::from_points(v.begin(), v.end());
  CHK(ok3 == ok && (!ok || (pl3.normal == pl.normal && pl3.distance == pl.distance)), "from a range", P(v) << P(pl) << P(pl3));
  std::list<std::pair<char, vec<T, 3>>> l;
  for (const auto& x : v) l.push_back({'x', x});
  const auto [ok4, pl4] = vm::from_points(l.begin(), l.end(), [](const std::pair<char, vec<T, 3>>& e) { return e.second; });
  CHK(ok4 == ok && (!ok || (pl4.normal == pl.normal && pl4.distance == pl.distance)), "from a range with getter", P(v) << P(pl) << P(pl4));
  for (size_t k = 0; k < 3; ++k) CHK(!std::get<0>(vm::from_points(v.begin(), v.begin() + long(k))), "too few points", k);
}
MON_GROUP_T(points, 40000, float)
MON_GROUP_T(points, 40000, double)

template <typename T> static void projection(Rng& g) {
  const auto n = uvec<T, 3>(g);
  const T f = g.below(3) ? T(1) : T(lscale(g, -20, 20)), h = g.below(3) ? f : T(lscale(g, -20, 20));
  const plane<T, 3> p((g.below(2) ? T(g.irange(-20, 20)) : g.coord<T>(20)) * h, n);
  const auto q = (g.below(2) ? ivec<T, 3>(g, 20) : cvec<T, 3>(g, 20)) * f;
  const L3 lq = lv(q), ln = lv(n);
  const L tol = 100 * eps<T>() * (std::fabs(L(p.distance)) + llen(lq)), vtol = 100 * eps<T>() * llen(lq);
  const L3 e = lq - ln * sd(p, lq);
  const auto r = p.project_point(q);
  CHK(close(lv(r), e, tol), "perpendicular projection", P(p) << P(q) << " expected " << P(e) << " got " << P(r));
  CHK(close(lv(p.project_point(r)), lv(r), tol), "projecting again", P(p) << P(r));
  L3 d;
  const bool par = g.chance(1, 8);
  if (par) d = lperp(g, ln);
  else do d = ldir<3>(g);
    while (std::fabs(ldot(d, ln)) < 0.002L);
  const auto td = tov<T>(d);
  const L c = ldot(lv(td), ln);
  const auto o = p.project_point(q, td), ov = p.project_vector(q, td);
  if (par) {
    CHK(vm::is_nan(o) && std::isnan(o[0]) && std::isnan(o[1]) && std::isnan(o[2]), "no projection along a parallel direction", P(p) << P(q) << P(td) << " got " << P(o));
    CHK(std::isnan(ov[0]) && std::isnan(ov[1]) && std::isnan(ov[2]), "no vector projection along a parallel direction", P(p) << P(q) << P(td) << " got " << P(ov));
    OBS("parallel");
  } else {
    const L3 eo = lq - lv(td) * (sd(p, lq) / c);
    CHK(close(lv(o), eo, tol / std::fabs(c) * (1 + 0.1L / std::fabs(c))), "projection along a direction", P(p) << P(q) << P(td) << " expected " << P(eo) << " got " << P(o));
    const L3 ev = lq - lv(td) * (ldot(ln, lq) / c);
    CHK(close(lv(ov), ev, vtol / std::fabs(c) * (1 + 0.1L / std::fabs(c))), "vector projection along a direction", P(p) << P(q) << P(td) << " expected " << P(ev) << " got " << P(ov));
    OBS("oblique");
  }
  const auto pv = p.project_vector(q);
  CHK(close(lv(pv), lq - ln * ldot(ln, lq), vtol), "vector projection", P(p) << P(q) << " got " << P(pv));
}
MON_GROUP_T(projection, 40000, float)
MON_GROUP_T(projection, 40000, double)

template <typename T> static void transformation(Rng& g) {
  const L3 ln = lv(uvec<T, 3>(g));
  const plane<T, 3> p(g.below(2) ? T(g.irange(-20, 20)) : g.coord<T>(20), tov<T>(ln));
  const auto m = tom<T, 4, 4>(laffine(g));
  const auto A = lm(m);
  LM<4, 4> inv;
  linv<4>(A, inv);
  const L k = lnorm_inf<4>(A) * lnorm_inf<4>(inv);
  const auto mh = homogeneous_twin(g, m);
  const auto t = p.transform(mh), tc = p.transform_c(mh);
  CHK(near(llen(lv(t.normal)), 1, 20 * eps<T>()) && near(llen(lv(tc.normal)), 1, 20 * eps<T>()), "unit normal", P(t));
  const L3 x = lperp(g, ln), y = lcross(ln, x), o = ln * L(p.distance);
  for (int i = 0; i < 4; ++i) {
    const L3 q = o + x * L(g.real(-10, 10)) + y * L(g.real(-10, 10));
    const L tol = 2000 * eps<T>() * k * (1 + llen(q)) * (1 + lnorm_inf<4>(A));
    const L3 iq = lpoint(A, q);
    CHK(std::fabs(sd(t, iq)) <= tol, "image of a plane contains the images of its points", P(p) << P(m) << " point " << P(q) << " image " << P(iq) << " got " << P(t) << " distance " << sd(t, iq));
    CHK(std::fabs(sd(tc, iq)) <= tol, "image of a plane (constexpr)", P(p) << P(m) << " got " << P(tc));
    const L h = 1 + L(g.real(0, 5));
    const L s1 = sd(t, lpoint(A, q + ln * h)), s2 = sd(t, lpoint(A, q - ln * h));
    if (tol < 1e-3L * h / lnorm_inf<4>(inv)) {
      CHK(s1 > 0 && s2 < 0, "front stays in front", P(p) << P(m) << " got " << P(t) << " " << s1 << " " << s2);
    }
  }
  OBS(ldet<4>(A) < 0 ? "reflecting" : "orientation preserving");
}
MON_GROUP_T(transformation, 20000, float)
MON_GROUP_T(transformation, 30000, double)

template <typename T> static void special(Rng& g) {
  {
    using U = std::conditional_t<std::is_same_v<T, float>, double, float>;
    const vm::plane<T, 3> z, p(g.coord<T>(20), uvec<T, 3>(g));
    CHK(z.distance == T(0) && (z.normal == vec<T, 3>(0, 0, 0)), "default plane is zero", P(z));
    vm::plane<T, 3> c(p), a;
    a = c;
    const vm::plane<T, 3> m(std::move(c));
    CHK(a == p && m == p && a.distance == p.distance && a.normal == p.normal && m.normal == p.normal && m.distance == p.distance, "copied plane", P(p) << P(a));
    const vm::plane<U, 3> u(p);
    CHK(u.distance == U(p.distance) && u.normal[0] == U(p.normal[0]) && u.normal[1] == U(p.normal[1]) && u.normal[2] == U(p.normal[2]), "converted plane", P(p) << P(u));
  }
  const auto q = cvec<T, 3>(g, 20);
  auto d = g.below(2) ? ivec<T, 3>(g, 5) : cvec<T, 3>(g, 20);
  if (llen(lv(d)) < 0.1L) d[g.below(3)] = T(-2);
  if (g.below(2)) d = d * T(lscale(g, sizeof(T) == 4 ? -30 : -400, sizeof(T) == 4 ? 30 : 400));
  if (g.below(4) == 0) d = tov<T>(lnorm(lv(d)) * (1 + L(g.logreal(1e-9, 0.02)))); // almost of unit length
  const L tol = 40 * eps<T>() * (1 + llen(lv(q)));
  const auto h = vm::horizontal_plane(q);
  CHK((h.normal == vec<T, 3>(0, 0, 1)) && near(h.distance, q[2], tol), "horizontal plane", P(q) << P(h));
  const auto o = vm::orthogonal_plane(q, d);
  CHK(close(lv(o.normal), lnorm(lv(d)), 20 * eps<T>()) && std::fabs(sd(o, lv(q))) <= tol, "orthogonal plane", P(q) << P(d) << P(o));
  const auto a = vm::aligned_orthogonal_plane(q, d);
  size_t ax = 3, nz = 0;
  for (size_t i = 0; i < 3; ++i)
    if (a.normal[i] != T(0)) {
      ax = i;
      ++nz;
    }
  CHK(nz == 1 && std::fabs(a.normal[ax]) == T(1) && std::fabs(L(d[ax])) == lmax(lv(d)) && (d[ax] > T(0)) == (a.normal[ax] > T(0)), "aligned orthogonal plane", P(q) << P(d) << P(a));
  CHK(std::fabs(sd(a, lv(q))) <= tol, "aligned plane through the point", P(q) << P(d) << P(a));
}
MON_GROUP_T(special, 20000, float)
MON_GROUP_T(special, 20000, double)

MON_MAIN("C17")
