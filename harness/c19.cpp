// C19: distances between rays, segments, lines and points
#include "gen.h"

using vm::line;
using vm::ray;
using vm::segment;

static const L inf = std::numeric_limits<L>::infinity();

// A part of a line: o + t d, lo <= t <= hi, with unit direction d.
template <size_t S> struct Part {
  LV<S> o, d;
  L lo, hi;
  LV<S> at(L t) const { return o + d * t; }
  L clamp(L t) const { return std::min(std::max(t, lo), hi); }
};
template <size_t S> static L point_min(const Part<S>& a, const LV<S>& p) { return ldist(a.at(a.clamp(ldot(p - a.o, a.d))), p); }
// The minimum over all pairs of points: in the interior of both or at an end of one.
template <size_t S> static L min_distance(const Part<S>& a, const Part<S>& b) {
  L m = inf;
  const auto cand = [&](L s) { m = std::min(m, point_min(b, a.at(s))); };
  const auto candb = [&](L t) { m = std::min(m, point_min(a, b.at(t))); };
  if (std::isfinite(a.lo)) cand(a.lo);
  if (std::isfinite(a.hi)) cand(a.hi);
  if (std::isfinite(b.lo)) candb(b.lo);
  if (std::isfinite(b.hi)) candb(b.hi);
  const LV<S> w = a.o - b.o;
  const L c = ldot(a.d, b.d), D = ldot(a.d, a.d) * ldot(b.d, b.d) - c * c;
  if (D > 1e-17L) {
    const L s = (c * ldot(b.d, w) - ldot(a.d, w) * ldot(b.d, b.d)) / D;
    if (s >= a.lo && s <= a.hi) cand(s);
  } else {
    cand(a.clamp(0));
  }
  return m;
}
template <typename T, size_t S> static Part<S> part(const ray<T, S>& r) { return {lv(r.origin), lnorm(lv(r.direction)), 0, inf}; }
template <typename T, size_t S> static Part<S> part(const line<T, S>& r) { return {lv(r.point), lnorm(lv(r.direction)), -inf, inf}; }
template <typename T, size_t S> static Part<S> part(const segment<T, S>& s) {
  const L len = ldist(lv(s.start()), lv(s.end()));
  return {lv(s.start()), len > 0 ? lnorm(lv(s.end()) - lv(s.start())) : LV<S>{}, 0, len};
}
template <typename T, size_t S> static vec<T, S> pt(Rng& g, double r = 10) { return g.below(2) ? ivec<T, S>(g, long(r)) : cvec<T, S>(g, r); }
// directions that are exactly representable unit vectors half of the time
template <typename T, size_t S> static vec<T, S> dir(Rng& g) {
  if (g.below(2)) return uvec<T, S>(g);
  vec<T, S> d;
  d[g.below(S)] = g.below(2) ? T(1) : T(-1);
  return d;
}

template <typename T, size_t S, typename O> static void judge_point(const O& o, const vec<T, S>& p, L f, const char* what) {
  const auto a = part(o);
  const L mag = f + llen(a.o) + llen(lv(p)), tol = 60 * eps<T>() * mag;
  const L e = point_min<S>(a, lv(p));
  const auto d2 = vm::squared_distance(o, p);
  const auto d1 = vm::distance(o, p);
  CHK(near(d1.distance, e, tol + (e < f ? 4 * std::sqrt(eps<T>()) * mag * (e < tol * 100 ? 0.02L : 0) : 0)), "distance", what << P(o) << P(p) << " expected " << e << " got " << d1.distance);
  CHK(near(d2.distance, e * e, tol * (2 * e + tol)), "squared distance", what << P(o) << P(p) << " expected " << e * e << " got " << d2.distance);
  CHK(d1.position == d2.position, "same position", what << d1.position << " " << d2.position);
  CHK(d1.position >= a.lo && L(d1.position) <= a.hi + tol, "position is on the object", what << P(o) << P(p) << " got " << d1.position);
  CHK(near(ldist(a.at(d1.position), lv(p)), e, 2 * tol), "distance is attained at the position", what << P(o) << P(p) << " position " << d1.position);
}
template <typename T, size_t S> static void to_point(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -20, 20);
  const ray<T, S> r(pt<T, S>(g) * T(f), dir<T, S>(g));
  auto p = pt<T, S>(g) * T(f);
  if (g.chance(1, 4)) p = tov<T>(lv(r.origin) + lv(r.direction) * L(g.irange(-3, 3)) * f);
  judge_point<T, S>(r, p, f, "ray ");
  auto b = pt<T, S>(g) * T(f);
  const auto a = pt<T, S>(g) * T(f);
  if (g.chance(1, 8)) b = a;
  else if (g.chance(1, 8)) b = tov<T>(lv(a) + ldir<S>(g) * (f * L(g.logreal(2e-3, 1)))); // short
  const segment<T, S> s(a, b);
  if (g.chance(1, 3)) p = tov<T>(lv(a) + (lv(b) - lv(a)) * (L(g.irange(-2, 4)) / 2));
  if (ldist(lv(a), lv(b)) == 0 || ldist(lv(a), lv(b)) > 1e-3L * f) judge_point<T, S>(s, p, f, "segment ");
  if (ldist(lv(a), lv(b)) == 0) OBS("degenerate segment");
  const L t = ldot(lv(p) - lv(r.origin), lv(r.direction));
  OBS(t < 0 ? "behind" : "in front");
}
MON_GROUP_T(to_point, 20000, float, 2)
MON_GROUP_T(to_point, 30000, float, 3)
MON_GROUP_T(to_point, 30000, double, 3)
MON_GROUP_T(to_point, 10000, double, 2)
MON_GROUP_T(to_point, 10000, double, 4)
MON_GROUP_T(to_point, 5000, float, 4)
MON_GROUP_T(to_point, 5000, double, 5)

template <typename T, size_t S, typename A, typename B> static void judge(const A& x, const B& y, bool parallel, L D, L f, const char* what) {
  const auto a = part(x), b = part(y);
  const L mag = 2 * f + llen(a.o) + llen(b.o) + (std::isfinite(b.hi) ? b.hi : 0);
  const L e = min_distance<S>(a, b);
  // error of the parameters, and of squared distances
  const L k = parallel ? 1 : 1 / D;
  const L ptol = 400 * eps<T>() * mag * k * (parallel ? 1 : mag / f), tol2 = ptol * (2 * e + ptol) + 60 * eps<T>() * mag * mag;
  const auto d2 = vm::squared_distance(x, y);
  const auto d1 = vm::distance(x, y);
  CHK(d2.distance >= T(0) && near(d2.distance, e * e, tol2), "squared distance is the minimum", what << P(x) << P(y) << " expected " << e * e << " got " << d2.distance << " tol " << tol2);
  CHK(near(L(d1.distance) * d1.distance, d2.distance, 8 * eps<T>() * (L(d2.distance))) , "plain distance is the root", what << P(x) << P(y) << " " << d1.distance << " " << d2.distance);
  CHK(d1.position1 == d2.position1 && d1.position2 == d2.position2 && d1.parallel == d2.parallel, "plain and squared forms agree", what << P(x) << P(y));
  CHK(d2.parallel == parallel, "parallel", what << P(x) << P(y) << " expected " << parallel);
  CHK(L(d2.position1) >= a.lo && L(d2.position1) <= a.hi + ptol, "first position is on its object", what << P(x) << P(y) << " got " << d2.position1);
  CHK(L(d2.position2) >= b.lo - (std::isfinite(b.hi) ? ptol : 0) && L(d2.position2) <= b.hi + ptol, "second position is on its object", what << P(x) << P(y) << " got " << d2.position2);
  const L at = ldist(a.at(a.clamp(d2.position1)), b.at(b.clamp(d2.position2)));
  CHK(near(at * at, e * e, 2 * tol2 + 4 * ptol * (e + ptol)), "distance is attained at the positions", what << P(x) << P(y) << " minimum " << e << " at positions " << d2.position1 << " " << d2.position2 << " distance " << at);
  OBS(parallel ? "parallel" : e < 1e-3L * f ? "touching" : "apart");
  const bool i1 = L(d2.position1) > 0, i2 = L(d2.position2) > 0 && L(d2.position2) < b.hi;
  OBS(i1 ? i2 ? "interior-interior" : "interior-end" : i2 ? "end-interior" : "end-end");
  // colinearity is parallelism at a distance of at most a threshold
  for (const auto& r : {d1, d2}) {
    for (const T m : {T(0.5 * f), T(0), r.distance, std::nextafter(r.distance, T(0)), r.distance * T(2), vm::constants<T>::almost_zero()}) {
      CHK(r.is_colinear(m) == (r.parallel && r.distance <= m), "colinear within a distance", what << P(x) << P(y) << r.distance << " " << m);
    }
    CHK(r.is_colinear() == (r.parallel && r.distance <= vm::constants<T>::almost_zero()), "colinear", what << P(x) << P(y) << r.distance);
  }
}
// A ray and a segment at any angle: where they count as parallel, the distance is off by at most the extent of the
// segment across the ray.
template <typename T, size_t S> static void judge_segment(const ray<T, S>& r, const segment<T, S>& s, L SD, L noise, L f) {
  const auto a = part(r), b = part(s);
  const L mag = 2 * f + llen(a.o) + llen(b.o) + b.hi;
  const L e = min_distance<S>(a, b);
  const auto d = vm::distance(r, s);
  const L across = std::sqrt(std::max(L(0), SD) + (SD < 2 * noise ? noise : 0));
  const L tol = 200 * eps<T>() * mag + (d.parallel ? across * 1.01L : 20 * eps<T>() * mag * b.hi / across);
  const L at = ldist(a.at(d.position1), b.at(d.position2));
  CHK(L(d.position1) >= 0, "position is on the ray", P(r) << P(s) << " got " << d.position1);
  CHK(L(d.position2) >= -tol && L(d.position2) <= b.hi + tol, "position is on the segment", P(r) << P(s) << " got " << d.position2);
  CHK(near(d.distance, at, 100 * eps<T>() * mag + (d.parallel ? across : 0)), "distance is attained at the positions", P(r) << P(s) << " at positions " << d.position1 << " " << d.position2 << " distance " << at << " got " << d.distance);
  CHK(near(d.distance, e, tol), "distance is the minimum up to the parallelism tolerance", P(r) << P(s) << " expected " << e << " got " << d.distance << " tol " << tol);
  if (SD > 1.01e-3L + noise) CHK(!d.parallel, "not parallel", P(r) << P(s) << SD);
  if (SD + noise / 4 < 0.99e-3L) CHK(d.parallel, "parallel", P(r) << P(s) << SD);
  OBS(d.parallel ? "counts as parallel" : SD < 1e-3L * b.hi * b.hi ? "almost parallel" : "crossing");
}
template <typename T, size_t S> static void narrow(Rng& g) { // segments at small angles to the ray, of any length
  const L f = g.below(3) ? L(1) : lscale(g, -6, 12);
  const ray<T, S> r(pt<T, S>(g) * T(f), dir<T, S>(g));
  const LV<S> rd = lnorm(lv(r.direction));
  auto x = ldir<S>(g);
  x = x - rd * ldot(x, rd);
  const L len = f * std::fabs(L(g.logreal(0.01, 100))), al = L(g.logreal(1e-8, 1));
  const LV<S> d = rd * std::cos(al) + x * std::sin(al);
  const LV<S> o = lv(r.origin) + rd * (f * L(g.real(-100, 100))) + x * (g.below(3) ? f * L(g.real(-5, 5)) : 0);
  const LV<S> p = o - d * (len * L(g.unit01()));
  const segment<T, S> s(tov<T>(p), tov<T>(p + d * len));
  const LV<S> u = lv(s.end()) - lv(s.start());
  const L uu = ldot(u, u), uv = ldot(u, lv(r.direction)), SD = uu * ldot(lv(r.direction), lv(r.direction)) - uv * uv;
  judge_segment<T, S>(r, s, SD, 16 * eps<T>() * uu, f);
}
MON_GROUP_T(narrow, 30000, float, 2)
MON_GROUP_T(narrow, 30000, float, 3)
MON_GROUP_T(narrow, 30000, double, 3)
MON_GROUP_T(narrow, 15000, double, 2)
MON_GROUP_T(narrow, 15000, double, 4)
MON_GROUP_T(narrow, 15000, float, 4)
template <typename T, size_t S> static void pairs(Rng& g) {
  const bool par = g.chance(1, 3);
  const L f = g.below(3) ? L(1) : lscale(g, -20, 20);
  const ray<T, S> r(pt<T, S>(g) * T(f), dir<T, S>(g));
  const LV<S> rd = lv(r.direction);
  // the other object: unrelated, or placed relative to the ray
  const auto place = [&]() -> vec<T, S> {
    switch (g.below(4)) {
      case 0: return tov<T>(lv(r.origin) + rd * (f * L(g.irange(-6, 6))));
      case 1: {
        auto x = ldir<S>(g);
        x = x - rd * ldot(x, rd);
        return tov<T>(lv(r.origin) + rd * (f * L(g.irange(-6, 6))) + x * (f * L(g.irange(0, 5))));
      }
      default: return pt<T, S>(g) * T(f);
    }
  };
  const auto o = place();
  vec<T, S> d = par ? (g.below(2) ? r.direction : -r.direction) : dir<T, S>(g);
  const L c = ldot(lv(d), rd), D = 1 - c * c;
  if (par || D > 0.01L) {
    judge<T, S>(r, ray<T, S>(o, d), par, D, f, "rays ");
    judge<T, S>(r, line<T, S>(o, d), par, D, f, "ray and line ");
  }
  // segments
  vec<T, S> a = o, b;
  if (par) {
    const L len = f * L(g.irange(0, 6));
    b = tov<T>(lv(a) + rd * len * (g.below(2) ? 1 : -1));
    // the segment is only as parallel as rounding allows
  } else if (g.chance(1, 10)) {
    b = a;
  } else {
    b = place();
  }
  const segment<T, S> s(a, b);
  const LV<S> u = lv(s.end()) - lv(s.start());
  const L uu = ldot(u, u), uv = ldot(u, rd), SD = uu - uv * uv;
  const bool spar = par || uu == 0;
  // the threshold between the two cases is absolute
  const L noise = 16 * eps<T>() * uu;
  if (spar ? SD < 1e-4L && noise < 1e-3L : SD > std::max(L(1), f * f) * 0.01L && SD / uu > 0.01L) judge<T, S>(r, s, spar, SD / (uu > 0 ? uu : 1), f, "ray and segment ");
  judge_segment<T, S>(r, s, SD, noise, f);
}
MON_GROUP_T(pairs, 30000, float, 2)
MON_GROUP_T(pairs, 40000, float, 3)
MON_GROUP_T(pairs, 30000, double, 2)
MON_GROUP_T(pairs, 80000, double, 3)
MON_GROUP_T(pairs, 15000, float, 4)
MON_GROUP_T(pairs, 15000, double, 4)
MON_GROUP_T(pairs, 15000, double, 5)

// parallel within the tolerance: the squared sine of the angle is at most almost_zero
template <typename T, size_t S> static void threshold(Rng& g) {
  const ray<T, S> r(pt<T, S>(g), uvec<T, S>(g));
  const LV<S> rd = lnorm(lv(r.direction));
  auto x = ldir<S>(g);
  x = x - rd * ldot(x, rd);
  if (llen(x) < 0.1L) return;
  x = lnorm(x);
  const L a = std::fabs(L(g.logreal(1e-3, 0.3)));
  const LV<S> ld = (rd * std::cos(a) + x * std::sin(a)) * (g.below(2) ? 1 : -1);
  const auto d = tov<T>(ld);
  const L c = ldot(lv(d), lv(r.direction)), D = ldot(lv(d), lv(d)) * ldot(lv(r.direction), lv(r.direction)) - c * c;
  const auto o = pt<T, S>(g);
  if (std::fabs(D - 0.001L) > 1e-5L) {
    const bool e = D < 0.001L;
    CHK(vm::squared_distance(r, ray<T, S>(o, d)).parallel == e && vm::distance(r, ray<T, S>(o, d)).parallel == e, "rays are parallel within tolerance", P(r) << P(o) << P(d) << D);
    CHK(vm::squared_distance(r, line<T, S>(o, d)).parallel == e && vm::distance(r, line<T, S>(o, d)).parallel == e, "ray and line are parallel within tolerance", P(r) << P(o) << P(d) << D);
    OBS(e ? "within" : "beyond");
  }
  const L len = std::fabs(L(g.logreal(0.3, 30)));
  const segment<T, S> s(o, tov<T>(lv(o) + ld * len));
  const LV<S> u = lv(s.end()) - lv(s.start());
  const L uv = ldot(u, lv(r.direction)), SD = ldot(u, u) * ldot(lv(r.direction), lv(r.direction)) - uv * uv;
  if (std::fabs(SD - 0.001L) > 1e-5L + 40 * eps<T>() * ldot(u, u)) {
    const bool e = SD < 0.001L;
    CHK(vm::squared_distance(r, s).parallel == e && vm::distance(r, s).parallel == e, "ray and segment are parallel within tolerance", P(r) << P(s) << SD);
    OBS(e ? "within" : "beyond");
  }
}
template <typename T> static void colinear(Rng& g) {
  const T z = vm::constants<T>::almost_zero();
  const T ds[] = {z, std::nextafter(z, T(0)), std::nextafter(z, T(1)), z * T(2), z / T(2), z * T(5), T(0), T(1)};
  const T d = g.below(4) ? g.pick(ds) : T(g.logreal(1e-6, 1));
  const auto a = vm::line_distance<T>::Parallel(T(1), d, T(2)), b = vm::line_distance<T>::NonParallel(T(1), d, T(2));
  CHK(a.parallel && a.position1 == T(1) && a.distance == d && a.position2 == T(2), "parallel result", d);
  CHK(!b.parallel && b.position1 == T(1) && b.distance == d && b.position2 == T(2), "other result", d);
  CHK(a.is_colinear() == (d <= z) && !b.is_colinear(), "colinear by default", d);
  const T m = g.below(2) ? g.pick(ds) : T(g.logreal(1e-6, 1));
  CHK(a.is_colinear(m) == (d <= m) && !b.is_colinear(m), "colinear within", d << " " << m);
}
MON_GROUP_T(colinear, 2000, float)
MON_GROUP_T(colinear, 2000, double)
MON_GROUP_T(threshold, 10000, float, 3)
MON_GROUP_T(threshold, 10000, double, 3)
MON_GROUP_T(threshold, 5000, double, 2)
MON_GROUP_T(threshold, 2500, float, 2)
MON_GROUP_T(threshold, 2500, double, 4)

MON_MAIN("C19")
