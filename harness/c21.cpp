// C21: ray intersections with boxes, spheres and tori; intersecting planes
#include "gen.h"

using vm::bbox;
using vm::line;
using vm::plane;
using vm::ray;
using vm::vec;
using namespace mon;

template <typename T> static bool is_none(T x) { return std::isnan(x); }

// ---------------------------------------------------------------- boxes
template <typename T, size_t S> static void box(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -20, 20);
  vec<T, S> lo, hi;
  for (size_t i = 0; i < S; ++i) {
    const T a = (g.below(2) ? T(g.irange(-12, 12)) : g.coord<T>(12)) * T(f);
    const T w = (g.below(2) ? T(g.irange(1, 12)) : g.chance(1, 8) ? T(std::fabs(g.logreal(0.01, 1000))) : T(g.real(0.5, 12))) * T(f);
    lo[i] = a;
    hi[i] = a + w;
  }
  const bbox<T, S> b(lo, hi);
  vec<T, S> o;
  const bool start_inside = g.chance(1, 4), centre = start_inside && g.chance(1, 4);
  for (size_t i = 0; i < S; ++i) {
    if (centre) o[i] = (lo[i] + hi[i]) / T(2);
    else if (start_inside) o[i] = lo[i] + (hi[i] - lo[i]) * T(g.real(0.05, 0.95));
    else if (g.chance(1, 8)) o[i] = (g.below(2) ? lo[i] : hi[i]) + (hi[i] - lo[i]) * T(g.logreal(1e3 * double(eps<T>()), 0.1)); // close to a face
    else switch (g.below(4)) {
      case 0: o[i] = T(g.irange(-30, 30)) * T(f); break;
      case 1: o[i] = lo[i] + (hi[i] - lo[i]) * T(g.real(0.05, 0.95)); break;
      default: o[i] = g.coord<T>(30) * T(f); break;
    }
  }
  // aim into the box, just past it, or anywhere
  LV<S> dir;
  switch (g.below(5)) {
    case 0: dir = ldir<S>(g) * f; break;
    case 1: { // away from a point of the box
      LV<S> t{};
      for (size_t i = 0; i < S; ++i) t[i] = L(lo[i]) + (L(hi[i]) - L(lo[i])) * L(g.real(0, 1));
      dir = lv(o) - t;
      break;
    }
    case 2: { // just past a face
      LV<S> t{};
      for (size_t i = 0; i < S; ++i) t[i] = L(lo[i]) + (L(hi[i]) - L(lo[i])) * L(g.real(0, 1));
      const size_t k = g.below(S);
      t[k] = g.below(2) ? L(hi[k]) + f * L(g.logreal(1e-3, 0.5)) : L(lo[k]) + f * L(g.logreal(1e-3, 0.5));
      dir = t - lv(o);
      break;
    }
    default: {
      LV<S> t{};
      for (size_t i = 0; i < S; ++i) t[i] = L(lo[i]) + (L(hi[i]) - L(lo[i])) * L(g.real(0, 1));
      dir = t - lv(o);
      break;
    }
  }
  if (llen(dir) < 0.1L * f) return;
  if (g.chance(1, 3)) { // make some components exactly zero
    for (size_t i = 0; i < S; ++i)
      if (g.below(2)) dir[i] = 0;
    if (llen(dir) < 0.1L * f) return;
  }
  const ray<T, S> r(o, tov<T>(lnorm(dir)));
  // slab oracle; rays through edges or corners and origins on the surface are not judged
  const L scale = f + lmax(lv(o)) + lmax(lv(lo)) + lmax(lv(hi)), edge = 60 * eps<T>() * scale;
  bool inside = true;
  L enter = -1e30L, leave = 1e30L;
  size_t ei = S, li = S;
  for (size_t i = 0; i < S; ++i) {
    const L oi = L(r.origin[i]), di = L(r.direction[i]);
    if (di != 0 && (std::fabs(oi - L(lo[i])) < 1e-5L * f || std::fabs(oi - L(hi[i])) < 1e-5L * f)) return;
    if (oi < L(lo[i]) || oi > L(hi[i])) inside = false;
    if (di == 0) continue;
    const L t1 = (L(lo[i]) - oi) / di, t2 = (L(hi[i]) - oi) / di;
    if (std::min(t1, t2) > enter) {
      enter = std::min(t1, t2);
      ei = i;
    }
    if (std::max(t1, t2) < leave) {
      leave = std::max(t1, t2);
      li = i;
    }
  }
  const L want = inside ? leave : enter;
  const size_t face = inside ? li : ei;
  // where the ray meets the plane of the face: clearly on the face, clearly beside it, or close to its outline
  bool beside = false, close = false;
  for (size_t i = 0; i < S; ++i) {
    if (i == face) continue;
    const L c = L(r.origin[i]) + want * L(r.direction[i]);
    const L margin = std::min(c - L(lo[i]), L(hi[i]) - c);
    const L e = L(r.direction[i]) == 0 ? 0 : edge + 8 * eps<T>() * std::fabs(want * L(r.direction[i]));
    if (margin < -e) beside = true;
    else if (margin < e) close = true;
  }
  const T got = vm::intersect_ray_bbox(r, b);
  const auto where = P(r) + P(b);
  if (beside || want < 0) {
    CHK(is_none(got), "missed box", where << " enter " << enter << " leave " << leave << " got " << got);
    OBS(beside ? "miss" : "behind");
  } else if (close) {
    OBS("through an edge, not judged");
  } else {
    CHK(near(got, want, 20 * eps<T>() * want), "hit parameter", where << " expected " << want << " got " << got);
    OBS(inside ? "from inside" : "hit");
  }
}
MON_GROUP_T(box, 40000, float, 3)
MON_GROUP_T(box, 40000, double, 3)
MON_GROUP_T(box, 20000, double, 2)
MON_GROUP_T(box, 20000, float, 2)
MON_GROUP_T(box, 10000, double, 1)
MON_GROUP_T(box, 5000, float, 1)
MON_GROUP_T(box, 5000, double, 4)
MON_GROUP_T(box, 5000, float, 4)
MON_GROUP_T(box, 5000, double, 5)
MON_GROUP_T(box, 5000, double, 6)

// axis parallel rays on an integer grid: all quantities are exact, faces are closed
template <typename T> static void box_exact(Rng& g) {
  vec<T, 3> lo, hi;
  for (size_t i = 0; i < 3; ++i) {
    const long a = g.irange(-6, 6);
    lo[i] = T(a);
    hi[i] = T(a + g.irange(g.chance(1, 10) ? 0 : 1, 6));
  }
  const size_t k = g.below(3);
  vec<T, 3> o = ivec<T, 3>(g, 14), d = vec<T, 3>::zero();
  for (size_t i = 0; i < 3; ++i)
    if (i != k && g.chance(3, 4)) o[i] = T(g.irange(long(lo[i]) - 1, long(hi[i]) + 1));
  if (o[k] == lo[k] || o[k] == hi[k]) return;
  const T f = g.below(3) ? T(1) : T(lscale(g, -20, 20));
  lo = lo * f;
  hi = hi * f;
  o = o * f;
  const bbox<T, 3> b(lo, hi);
  const bool pos = g.below(2) != 0;
  d[k] = T(pos ? 1 : -1);
  if (g.below(4) == 0) {
    for (size_t i = 0; i < 3; ++i)
      if (i != k) d[i] = -T(0);
  }
  bool beside = false, sliding = false;
  for (size_t i = 0; i < 3; ++i) {
    if (i == k) continue;
    if (o[i] < lo[i] || o[i] > hi[i]) beside = true;
    if (o[i] == lo[i] || o[i] == hi[i]) sliding = true;
  }
  const ray<T, 3> r(o, d);
  const T got = vm::intersect_ray_bbox(r, b);
  const L a = pos ? L(lo[k]) - L(o[k]) : L(o[k]) - L(hi[k]);
  const L z = pos ? L(hi[k]) - L(o[k]) : L(o[k]) - L(lo[k]);
  if (beside || z < 0) {
    CHK(is_none(got), "missed", P(r) << P(b) << " got " << got);
    OBS(beside ? "beside" : "behind");
  } else {
    CHK(L(got) == (a >= 0 ? a : z), "hit", P(r) << P(b) << " got " << got);
    OBS(sliding ? "sliding along a face" : "interior");
  }
}
MON_GROUP_T(box_exact, 60000, float)
MON_GROUP_T(box_exact, 60000, double)

// ---------------------------------------------------------------- spheres
template <typename T, size_t S> static void sphere(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -20, 20);
  const auto c = (g.below(2) ? ivec<T, S>(g, 10) : cvec<T, S>(g, 10)) * T(f);
  const T rad = (g.below(2) ? T(g.irange(1, 16)) : T(g.real(0.5, 16))) * T(f);
  const L R = L(rad);
  vec<T, S> o;
  if (g.chance(1, 3)) o = tov<T>(lv(c) + ldir<S>(g) * (R * L(g.real(0, 0.999))));
  else if (g.chance(1, 12)) o = c;
  else if (g.chance(1, 3)) o = tov<T>(lv(c) + ldir<S>(g) * (R * (1 + L(g.below(2) ? 1 : -1) * L(std::fabs(g.logreal(200 * double(eps<T>()), 0.1)))))); // close to the surface
  else o = tov<T>(lv(c) + ldir<S>(g) * (R * L(g.chance(1, 4) ? g.real(5, 60) : g.real(1.001, 5))));
  LV<S> t = lv(c);
  LV<S> off = ldir<S>(g);
  t = t + off * (R * L(g.real(0, 1.6)));
  LV<S> dir = t - lv(o);
  if (llen(dir) < 0.05L * R) return;
  if (g.chance(1, 3)) dir = dir * -1;
  if (g.chance(1, 6)) dir = ldir<S>(g);
  const ray<T, S> r(o, tov<T>(lnorm(dir)));
  const LV<S> d = lnorm(lv(r.direction)), q = lv(r.origin) - lv(c);
  const L b = ldot(q, d), h2 = ldot(q, q) - b * b;
  const L disc = R * R - h2, big = ldot(q, q) + R * R + lmax(lv(c)) * (llen(q) + R);
  if (std::fabs(disc) < 50 * eps<T>() * big) return; // grazing
  const T got = vm::intersect_ray_sphere(r, c, rad);
  const auto where = P(r) + " centre " + P(c) + " radius " + P(rad);
  if (disc < 0) {
    CHK(is_none(got), "missed sphere", where << " got " << got);
    OBS("miss");
    return;
  }
  const L s = std::sqrt(disc), t0 = -b - s, t1 = -b + s;
  const L tol = 40 * eps<T>() * (big / s + llen(q) + R);
  if (t1 < -tol) {
    CHK(is_none(got), "sphere behind", where << " got " << got);
    OBS("behind");
  } else if (t0 > tol || (t0 < -tol && t1 > tol)) {
    const L want = t0 > 0 ? t0 : t1;
    CHK(near(got, want, tol), "sphere parameter", where << " expected " << want << " got " << got);
    OBS(t0 > 0 ? "hit" : "from inside");
  }
}
MON_GROUP_T(sphere, 60000, float, 3)
MON_GROUP_T(sphere, 60000, double, 3)
MON_GROUP_T(sphere, 20000, double, 2)
MON_GROUP_T(sphere, 10000, float, 2)
MON_GROUP_T(sphere, 10000, double, 4)
MON_GROUP_T(sphere, 10000, double, 1)
MON_GROUP_T(sphere, 10000, double, 5)

// ---------------------------------------------------------------- tori
// The signed distance to the surface is sampled along the whole carrying line and its sign changes
// are refined by bisection; rays that graze the surface or start near it are not judged.
struct TorusCase {
  bool judged = false;
  L want = NAN;
  int roots = 0;
};
template <typename T> static TorusCase torus_truth(const ray<T, 3>& r, const vec<T, 3>& pos, L M, L m) {
  TorusCase res;
  const L3 O = lv(r.origin) - lv(pos), D = lnorm(lv(r.direction));
  const auto sd = [&](L t) {
    const L3 p = O + D * t;
    const L q = std::sqrt(p[0] * p[0] + p[1] * p[1]) - M;
    return std::sqrt(q * q + p[2] * p[2]) - m;
  };
  const L mid = -ldot(O, D);
  const L lo = mid - (M + m) * 1.3L, hi = mid + (M + m) * 1.3L;
  const int N = 240;
  std::vector<L> roots;
  L pt = lo, pv = sd(lo), ppv = pv;
  for (int i = 1; i <= N; ++i) {
    const L t = lo + (hi - lo) * i / N, v = sd(t);
    if ((v < 0) != (pv < 0)) {
      L x = pt, y = t;
      for (int j = 0; j < 70; ++j) {
        const L z = (x + y) / 2;
        ((sd(z) < 0) == (pv < 0) ? x : y) = z;
      }
      roots.push_back((x + y) / 2);
    } else if (
      (ppv < 0) == (pv < 0) && std::fabs(pv) <= std::fabs(v) && std::fabs(pv) <= std::fabs(ppv) &&
      std::fabs(pv) < 0.06L * m) {
      return res; // comes close without crossing
    }
    ppv = pv;
    pv = v;
    pt = t;
  }
  for (const L x : roots) {
    if (std::fabs(x) < 0.08L * m) return res;
    if (x > 0 && !(res.want <= x)) res.want = x;
    const L h = 1e-4L * m;
    if (std::fabs(sd(x + h) - sd(x - h)) / (2 * h) < 0.25L) return res;
  }
  res.roots = int(roots.size());
  res.judged = true;
  return res;
}
template <typename T> struct TorusRay {
  ray<T, 3> r;
  vec<T, 3> pos;
  T M, m;
};
template <typename T> static bool torus_ray(Rng& g, TorusRay<T>& c) {
  c.M = (g.below(2) ? T(g.irange(8, 40)) : T(g.real(8, 40))) * (g.chance(1, 4) ? T(lscale(g, 0, 5)) : T(1));
  c.m = c.M * T(g.real(0.15, 0.7));
  const L M = L(c.M), m = L(c.m);
  c.pos = g.below(2) ? ivec<T, 3>(g, 20) : cvec<T, 3>(g, 20);
  const auto tube = [&](L rr) {
    const L a = L(g.real(0, 6.2832)), b = L(g.real(0, 6.2832));
    return L3{(M + rr * std::cos(b)) * std::cos(a), (M + rr * std::cos(b)) * std::sin(a), rr * std::sin(b)} + lv(c.pos);
  };
  const L3 o = g.chance(1, 4) ? tube(m * L(g.real(0, 0.9))) : lv(c.pos) + ldir<3>(g) * (M * L(g.real(0, 3)));
  const L3 t = tube(m * L(g.real(0, 1.6)));
  if (ldist(o, t) < 0.1L * m) return false;
  L3 d = lnorm(t - o);
  if (g.chance(1, 6)) d = d * -1;
  if (g.chance(1, 8)) d = ldir<3>(g);
  c.r = ray<T, 3>(tov<T>(o), tov<T>(d));
  return true;
}
static void torus(Rng& g) {
  TorusRay<double> c;
  if (!torus_ray(g, c)) return;
  const auto truth = torus_truth(c.r, c.pos, L(c.M), L(c.m));
  if (!truth.judged) return;
  const double got = vm::intersect_ray_torus(c.r, c.pos, c.M, c.m);
  const auto where = P(c.r) + " torus at " + P(c.pos) + " radii " + P(c.M) + " " + P(c.m);
  if (std::isnan(truth.want)) {
    CHK(is_none(got), "missed torus", where << " got " << got);
    OBS(truth.roots ? "behind" : "miss");
  } else {
    CHK(!is_none(got) && near(got, truth.want, 0.008L * L(c.M)), "torus parameter",
      where << " expected " << truth.want << " got " << got << " roots " << truth.roots);
    OBS(truth.roots == 4 ? "four crossings" : "two crossings");
  }
}
static ::mon::Reg mon_reg_torus("torus", 20000, torus);
// the quartic loses some accuracy, and in single precision some hits, to rounding, so a whole batch is judged as well
template <typename T> static void torus_batch(Rng& g) {
  int judged = 0, good = 0, wrong_none = 0;
  const L accuracy = sizeof(T) == 4 ? 2e-3L : 1e-6L;
  for (int i = 0; i < 600 && judged < 150; ++i) {
    TorusRay<T> c;
    if (!torus_ray(g, c)) continue;
    const auto truth = torus_truth(c.r, c.pos, L(c.M), L(c.m));
    if (!truth.judged) continue;
    const T got = vm::intersect_ray_torus(c.r, c.pos, c.M, c.m);
    if (std::isnan(truth.want)) {
      if (!is_none(got)) ++wrong_none;
      continue;
    }
    ++judged;
    if (!is_none(got) && near(got, truth.want, accuracy * L(c.M))) ++good;
  }
  if (judged < 60) return;
  CHK(good * 10 >= judged * 9, "most torus hits are accurate", good << " of " << judged << " hits accurate");
  CHK(wrong_none * 50 <= judged, "hits reported for rays that miss", wrong_none << " besides " << judged);
}
MON_GROUP_T(torus_batch, 60, float)
MON_GROUP_T(torus_batch, 40, double)

// ---------------------------------------------------------------- two planes
template <typename T> static void planes(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -20, 20);
  const auto mk = [&]() { return plane<T, 3>((g.below(2) ? T(g.irange(-20, 20)) : g.coord<T>(20)) * T(f), uvec<T, 3>(g)); };
  const auto p = mk();
  auto q = mk();
  const unsigned k = unsigned(g.below(8));
  if (k == 0) q.normal = p.normal;
  if (k == 1) q.normal = -p.normal;
  if (k == 2) { // at a small angle
    const L al = L(g.logreal(1e-5, 0.1));
    const L3 n = lnorm(lv(p.normal));
    q.normal = tov<T>((n * std::cos(al) + lperp(g, n) * std::sin(al)) * (g.below(2) ? 1 : -1));
  }
  const auto l = vm::intersect_plane_plane(p, q);
  const auto where = P(p) + P(q) + " got " + P(l);
  if (k < 2) {
    CHK((l.point == vec<T, 3>::zero() && l.direction == vec<T, 3>::zero()), "parallel planes have no line", where);
    OBS("parallel");
    return;
  }
  const L3 n1 = lv(p.normal), n2 = lv(q.normal), x = lcross(n1, n2);
  const L s = llen(x);
  const L blur = 1e-5L + 20 * eps<T>() / s;
  if (s < 0.001L - blur) {
    CHK((l.point == vec<T, 3>::zero() && l.direction == vec<T, 3>::zero()), "almost parallel planes have no line", where);
    OBS("almost parallel");
  }
  if (s < 0.001L + blur) return;
  const L size = f + std::fabs(L(p.distance)) + std::fabs(L(q.distance));
  const L tol = 500 * eps<T>() * size / (s * s);
  CHK(isfin(l.point, 3) && isfin(l.direction, 3), "finite line", where);
  CHK(std::fabs(ldot(n1, lv(l.point)) - L(p.distance)) <= tol, "point on the first plane", where);
  CHK(std::fabs(ldot(n2, lv(l.point)) - L(q.distance)) <= tol, "point on the second plane", where);
  CHK(std::fabs(llen(lv(l.direction)) - 1) <= 50 * eps<T>(), "unit direction", where);
  CHK(std::fabs(ldot(n1, lv(l.direction))) <= 100 * eps<T>() / s && std::fabs(ldot(n2, lv(l.direction))) <= 100 * eps<T>() / s,
    "direction in both planes", where);
  OBS("line");
}
MON_GROUP_T(planes, 40000, float)
MON_GROUP_T(planes, 60000, double)

MON_MAIN("C21")
