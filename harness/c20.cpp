// C20: line and ray intersections with planes, triangles and polygons
#include "gen.h"

#include <list>

using vm::line;
using vm::plane;
using vm::ray;

template <typename T> static bool is_none(T x) { return std::isnan(x); }

template <typename T> static void planes(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -12, 16);
  const plane<T, 3> p((g.below(2) ? T(g.irange(-20, 20)) : g.coord<T>(20)) * T(f), uvec<T, 3>(g));
  const L3 n = lv(p.normal);
  auto o = (g.below(2) ? ivec<T, 3>(g, 20) : cvec<T, 3>(g, 20)) * T(f);
  if (g.chance(1, 4)) o = tov<T>(lv(o) + n * (L(p.distance) - ldot(n, lv(o)) + f * L(g.logreal(1e-5, 1)))); // close to the plane
  const bool small = g.chance(1, 6); // almost parallel
  const L3 across = lperp(g, lnorm(n));
  const L al = L(g.logreal(1e-5, 0.1));
  const auto d = small ? tov<T>(across * std::cos(al) + lnorm(n) * std::sin(al)) : g.chance(1, 6) ? tov<T>(across) : uvec<T, 3>(g);
  const L c = ldot(lv(d), n);
  if (std::fabs(std::fabs(c) - 0.001L) < 1e-6L) return;
  const bool par = std::fabs(c) < 0.001L;
  const ray<T, 3> r(o, d);
  const line<T, 3> l(o, d);
  const T a = vm::intersect_ray_plane(r, p), b = vm::intersect_line_plane(l, p);
  if (par) {
    CHK(is_none(a), "parallel ray", P(r) << P(p) << " got " << a);
    CHK(is_none(b), "parallel line", P(l) << P(p) << " got " << b);
    OBS("parallel");
    return;
  }
  const L s = (L(p.distance) - ldot(n, lv(o))) / c;
  const L tol = 100 * eps<T>() * (f + llen(lv(o)) + std::fabs(L(p.distance)) + 0.1L * std::fabs(s)) / std::fabs(c);
  CHK(near(b, s, tol), "line and plane", P(l) << P(p) << " expected " << s << " got " << b);
  if (s > tol) {
    CHK(near(a, s, tol), "ray and plane", P(r) << P(p) << " expected " << s << " got " << a);
    OBS("hit");
  } else if (s < -0.0011L - tol) {
    CHK(is_none(a), "plane behind the ray", P(r) << P(p) << " at " << s << " got " << a);
    OBS("behind");
  }
}
MON_GROUP_T(planes, 60000, float)
MON_GROUP_T(planes, 60000, double)

template <typename T> static void triangles(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -20, 14);
  vec<T, 3> p[3];
  for (auto& x : p) x = (g.below(2) ? ivec<T, 3>(g, 8) : cvec<T, 3>(g, 8)) * T(f);
  if (g.chance(1, 6)) { // far from the origin
    const auto off = ivec<T, 3>(g, 100) * T(f);
    for (auto& x : p) x = x + off;
  }
  const L3 p1 = lv(p[0]), e1 = lv(p[1]) - p1, e2 = lv(p[2]) - p1, nn = lcross(e1, e2);
  const L area = llen(nn);
  // aim at a point given by its barycentric coordinates
  L u, v;
  switch (g.below(3)) {
    case 0: { // inside
      u = L(g.real(0.01, 0.98));
      v = L(g.real(0.01, 0.99 - double(u)));
      break;
    }
    case 1: // beyond one of the edges
      u = L(g.real(-1.5, 1.5));
      v = L(g.real(-1.5, 1.5));
      break;
    default: // close to an edge, on either side
      u = L(g.real(-0.1, 1.1));
      v = g.below(2) ? L(g.real(-0.1, 0.1)) : 1 - u + L(g.real(-0.1, 0.1));
      if (g.below(2)) std::swap(u, v);
      break;
  }
  const L3 target = p1 + e1 * u + e2 * v;
  auto o = (g.below(2) ? ivec<T, 3>(g, 20) : cvec<T, 3>(g, 20)) * T(f);
  if (g.chance(1, 4)) o = tov<T>(target + ldir<3>(g) * (f * L(g.logreal(1e-4, 1)))); // close to the triangle
  const L dist = ldist(target, lv(o));
  if (dist < 1e-5L * f || dist > 1e3L * f) return;
  const bool away = g.chance(1, 5);
  const auto d = tov<T>(lnorm(target - lv(o)) * (away ? -1 : 1));
  const ray<T, 3> r(o, d);
  const T got = vm::intersect_ray_triangle(r, p[0], p[1], p[2]);
  const L a = ldot(lcross(lv(d), e2), e1);
  if (area < 1e-3L * f * f) {
    if (area == 0 && 40 * eps<T>() * llen(e1) * llen(e2) < 1e-3L * std::min(L(1), lmax(e1) * lmax(e2))) CHK(is_none(got), "degenerate triangle", P(r) << P(p[0]) << P(p[1]) << P(p[2]) << " got " << got);
    return;
  }
  if (std::fabs(a) < 1.1e-3L * std::min(L(1), llen(e1) * llen(e2)) || std::fabs(a) / area < 1e-3L) return;
  // the actual intersection of the rounded ray
  const L t = -ldot(nn, lv(o) - p1) / ldot(nn, lv(d));
  const L3 q = lv(o) + lv(d) * t - p1;
  const L d11 = ldot(e1, e1), d12 = ldot(e1, e2), d22 = ldot(e2, e2), den = d11 * d22 - d12 * d12;
  const L bu = (d22 * ldot(q, e1) - d12 * ldot(q, e2)) / den, bv = (d11 * ldot(q, e2) - d12 * ldot(q, e1)) / den;
  const L margin = std::min(std::min(bu, bv), 1 - bu - bv);
  const L tol = 500 * eps<T>() * (f + llen(p1) + llen(e1) + llen(e2) + llen(lv(o))) * (f + dist) / std::fabs(a) * (llen(e1) + llen(e2) + f);
  if (std::fabs(margin) < std::max(L(1e-4), tol / f) || std::fabs(t) < 2 * tol || tol > 0.05L * f) return;
  const bool hit = margin > 0 && t > 0;
  if (hit) CHK(near(got, t, tol), "ray hits the triangle", P(r) << P(p[0]) << P(p[1]) << P(p[2]) << " expected " << t << " got " << got << " barycentric " << bu << " " << bv);
  else CHK(is_none(got), "ray misses the triangle", P(r) << P(p[0]) << P(p[1]) << P(p[2]) << " got " << got << " barycentric " << bu << " " << bv << " at " << t);
  OBS(hit ? "hit" : t < 0 ? "behind" : "miss");
}
MON_GROUP_T(triangles, 100000, float)
MON_GROUP_T(triangles, 100000, double)

// ---------------------------------------------------------------- polygons
struct P2 {
  long x, y;
};
static long cr(const P2& a, const P2& b, const P2& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool on_seg(const P2& a, const P2& b, const P2& p) {
  return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static bool cross_seg(const P2& a, const P2& b, const P2& c, const P2& d) {
  const auto sg = [](long v) { return (v > 0) - (v < 0); };
  const int s1 = sg(cr(a, b, c)), s2 = sg(cr(a, b, d)), s3 = sg(cr(c, d, a)), s4 = sg(cr(c, d, b));
  if (s1 * s2 < 0 && s3 * s4 < 0) return true;
  return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
static bool simple_polygon(const std::vector<P2>& v) {
  const size_t n = v.size();
  for (size_t i = 0; i < n; ++i) {
    const auto &a = v[i], &b = v[(i + 1) % n], &c = v[(i + 2) % n];
    if ((a.x == b.x && a.y == b.y) || (cr(a, b, c) == 0 && (on_seg(a, b, c) || on_seg(b, c, a)))) return false;
    for (size_t j = i + 2; j < n; ++j) {
      if (i == 0 && j == n - 1) continue;
      if (cross_seg(a, b, v[j], v[(j + 1) % n])) return false;
    }
  }
  return true;
}
// exact even-odd test: 1 inside, 0 outside, 2 boundary
static int where(const std::vector<P2>& v, const P2& p) {
  bool in = false;
  for (size_t i = 0, n = v.size(); i < n; ++i) {
    const auto &a = v[i], &b = v[(i + 1) % n];
    if (on_seg(a, b, p)) return 2;
    if ((a.y > p.y) != (b.y > p.y)) {
      // x coordinate of the crossing compared with p.x without division
      const long num = (p.y - a.y) * (b.x - a.x) + a.x * (b.y - a.y), den = b.y - a.y;
      if (den > 0 ? num > p.x * den : num < p.x * den) in = !in;
    }
  }
  return in;
}
// simple polygons with even coordinates so that odd points avoid the vertices
static std::vector<P2> make_polygon(Rng& g) {
  for (;;) {
    std::vector<P2> v;
    const unsigned kind = unsigned(g.below(5));
    const long s = 2 * g.irange(1, 5);
    if (kind == 0) { // triangle or quadrangle
      for (size_t i = 0, n = 3 + g.below(2); i < n; ++i) v.push_back({2 * g.irange(-s, s), 2 * g.irange(-s, s)});
    } else if (kind == 1) { // rectangle, possibly with extra points on its sides
      const long a = 2 * g.irange(1, 5), b = 2 * g.irange(1, 5);
      v = {{-a, -b}, {a, -b}, {a, b}, {-a, b}};
      if (g.below(2)) v.insert(v.begin() + 1, P2{0, -b});
      if (g.below(2)) v.push_back({-a, 0});
    } else if (kind == 2) { // star shaped around the origin
      const size_t n = 3 + g.below(8);
      std::vector<double> an;
      for (size_t i = 0; i < n; ++i) an.push_back(g.real(0, 6.28318));
      std::sort(an.begin(), an.end());
      for (const double t : an) {
        const double r = g.real(3, 10);
        v.push_back({2 * std::lround(r * std::cos(t)), 2 * std::lround(r * std::sin(t))});
      }
    } else if (kind == 3) { // comb: many vertices share coordinates
      const long t = g.irange(1, 4);
      v.push_back({0, 0});
      for (long i = 0; i < t; ++i) {
        const long top = 2 * g.irange(2, 6), bot = 2 * g.irange(0, 1) + 2;
        v.push_back({4 * i, i == 0 ? top : top});
        v.push_back({4 * i + 2, top});
        v.push_back({4 * i + 2, bot});
        if (i + 1 < t) v.push_back({4 * i + 4, bot});
      }
      v.push_back({4 * t - 2, 0});
      // remove repeated points
      std::vector<P2> w;
      for (const auto& p : v)
        if (w.empty() || w.back().x != p.x || w.back().y != p.y) w.push_back(p);
      v = w;
    } else { // random simple polygon
      for (size_t i = 0, n = 4 + g.below(4); i < n; ++i) v.push_back({2 * g.irange(-5, 5), 2 * g.irange(-5, 5)});
    }
    if (v.size() < 3 || !simple_polygon(v)) continue;
    if (g.below(2)) std::reverse(v.begin(), v.end());
    std::rotate(v.begin(), v.begin() + long(g.below(v.size())), v.end());
    return v;
  }
}
struct Frame {
  long o[3], e1[3], e2[3];
  long n[3];
};
static Frame make_frame(Rng& g) {
  for (;;) {
    Frame f{};
    if (g.below(2)) { // axis plane, either orientation
      const size_t a = g.below(3);
      f.e1[(a + 1) % 3] = g.below(2) ? 1 : -1;
      f.e2[(a + 2) % 3] = g.below(2) ? 1 : -1;
      if (g.below(2)) std::swap(f.e1, f.e2);
    } else {
      for (int i = 0; i < 3; ++i) {
        f.e1[i] = g.irange(-2, 2);
        f.e2[i] = g.irange(-2, 2);
      }
    }
    for (int i = 0; i < 3; ++i) f.o[i] = g.irange(-9, 9);
    for (int i = 0; i < 3; ++i) f.n[i] = f.e1[(i + 1) % 3] * f.e2[(i + 2) % 3] - f.e1[(i + 2) % 3] * f.e2[(i + 1) % 3];
    if (f.n[0] || f.n[1] || f.n[2]) return f;
  }
}
template <typename T> static vec<T, 3> lift(const Frame& f, const P2& p, L sc) {
  vec<T, 3> r;
  for (size_t i = 0; i < 3; ++i) r[i] = T(L(f.o[i] + p.x * f.e1[i] + p.y * f.e2[i]) * sc);
  return r;
}
template <typename T> static void polygons(Rng& g) {
  const auto v = make_polygon(g);
  auto f = make_frame(g);
  // larger and smaller grids, still coarse compared with the tolerance; positions far from the origin
  const L sc = g.below(3) ? L(1) : sizeof(T) == 4 ? lscale(g, 0, 12) : lscale(g, -2, 16);
  if (g.chance(1, 6))
    for (auto& o : f.o) o += g.irange(-1000, 1000);
  std::vector<vec<T, 3>> vs;
  for (const auto& p : v) vs.push_back(lift<T>(f, p, sc));
  P2 q;
  switch (g.below(4)) {
    case 0: q = {2 * g.irange(-11, 11) + 1, 2 * g.irange(-11, 11) + 1}; break;
    case 1: q = {g.irange(-12, 12), g.irange(-12, 12)}; break;
    case 2: { // on the height of a vertex
      const auto& a = v[g.below(v.size())];
      q = g.below(2) ? P2{g.irange(-22, 22), a.y} : P2{a.x, g.irange(-22, 22)};
      break;
    }
    default: { // on the boundary, if the middle is a grid point
      const size_t i = g.below(v.size());
      const auto &a = v[i], &b = v[(i + 1) % v.size()];
      q = g.chance(1, 4) ? a : P2{(a.x + b.x) / 2, (a.y + b.y) / 2};
      break;
    }
  }
  const int w = where(v, q);
  if (w == 2 && sizeof(T) == 4 && sc > 4) return; // rounding exceeds the tolerance that makes the boundary inside
  const auto p = lift<T>(f, q, sc);
  const vec<T, 3> n(T(f.n[0]), T(f.n[1]), T(f.n[2]));
  const auto say = [&]() { return P(vs) + P(p) + " normal " + P(n) + (w == 1 ? " inside" : w == 0 ? " outside" : " boundary"); };
  // a horizontal gap of less than a thousandth counts as boundary; the grid is far coarser
  const bool expect = w != 0;
  OBS(w == 1 ? "inside" : w == 0 ? "outside" : "boundary");
  const auto un = tov<T>(lnorm(lv(n)));
  CHK(vm::polygon_contains_point(p, n, vs.begin(), vs.end()) == expect, "point in polygon with normal", say());
  CHK(vm::polygon_contains_point(p, -un, vs.begin(), vs.end()) == expect, "point in polygon with opposite normal", say());
  for (size_t ax = 0; ax < 3; ++ax) // any axis that does not flatten the polygon
    if (f.n[ax] != 0) CHK(vm::polygon_contains_point(p, vm::axis::type(ax), vs.begin(), vs.end()) == expect, "point in polygon along an axis", "axis " << ax << " " << say());
  if (cr(v[0], v[1], v[2]) != 0) CHK(vm::polygon_contains_point(p, vs.begin(), vs.end()) == expect, "point in polygon", say());
  // independent of start and winding
  auto ws = vs;
  std::rotate(ws.begin(), ws.begin() + long(g.below(ws.size())), ws.end());
  CHK(vm::polygon_contains_point(p, n, ws.begin(), ws.end()) == expect, "other start vertex", say());
  std::reverse(ws.begin(), ws.end());
  CHK(vm::polygon_contains_point(p, n, ws.begin(), ws.end()) == expect, "other winding", say());
  std::list<std::pair<int, vec<T, 3>>> ls;
  for (const auto& x : vs) ls.push_back({0, x});
  CHK(vm::polygon_contains_point(p, n, ls.begin(), ls.end(), [](const auto& e) { return e.second; }) == expect, "with getter", say());
  if (cr(v[0], v[1], v[2]) != 0) CHK(vm::polygon_contains_point(p, ls.begin(), ls.end(), [](const std::pair<int, vec<T, 3>>& e) { return e.second; }) == expect, "without normal, with getter", say());

  // rays through the point
  if (w == 2) return;
  const L3 lp = lv(p);
  L3 d;
  do d = ldir<3>(g);
  while (std::fabs(ldot(d, lnorm(lv(n)))) < 0.1L);
  const L t = g.chance(1, 4) ? std::fabs(L(g.logreal(2e-3, 1))) * sc : L(g.irange(1, 20)) * sc;
  const bool away = g.chance(1, 5);
  const ray<T, 3> r(tov<T>(lp - d * t), tov<T>(d * (away ? -1 : 1)));
  const plane<T, 3> pl(p, un);
  // the ray is rounded: keep away from the boundary by more than that
  if constexpr (sizeof(T) == 4) {
    for (const P2& x : {P2{q.x + 1, q.y}, P2{q.x - 1, q.y}, P2{q.x, q.y + 1}, P2{q.x, q.y - 1}})
      if (where(v, x) != w) return;
  }
  const L tol = 4000 * eps<T>() * (sc + t + llen(lp));
  if (tol > 0.02L * sc || t < (away ? 0.0012L : 0) + 2 * tol) return; // a plane is met up to a thousandth behind the origin
  const T a = vm::intersect_ray_polygon(r, pl, vs.begin(), vs.end());
  const T b = vm::intersect_ray_polygon(r, pl, ls.begin(), ls.end(), [](const auto& e) { return e.second; });
  const bool hit = w == 1 && !away;
  const auto ok = [&](T x) { return hit ? near(x, t, tol) : is_none(x); };
  CHK(ok(a), "ray and polygon", P(r) << " plane " << P(pl) << " " << say() << " expected " << (hit ? t : L(NAN)) << " got " << a);
  CHK(ok(b), "ray and polygon with getter", P(r) << " plane " << P(pl) << " " << say() << " got " << b);
  if (cr(v[0], v[1], v[2]) != 0) {
    const T c = vm::intersect_ray_polygon(r, vs.begin(), vs.end());
    CHK(ok(c), "ray and polygon without plane", P(r) << " " << say() << " expected " << (hit ? t : L(NAN)) << " got " << c);
    const T e = vm::intersect_ray_polygon(r, ls.begin(), ls.end(), [](const std::pair<int, vec<T, 3>>& x) { return x.second; });
    CHK(ok(e), "ray and polygon without plane, with getter", P(r) << " " << say() << " got " << e);
  }
  OBS(hit ? "ray hits" : "ray misses");
}
MON_GROUP_T(polygons, 60000, float)
MON_GROUP_T(polygons, 100000, double)

// star shaped polygons with any coordinates in any plane
template <typename T> static void generic(Rng& g) {
  const L f = g.below(3) ? L(1) : lscale(g, -2, 14);
  const size_t n = g.chance(1, 10) ? 3 + g.below(100) : 3 + g.below(12);
  const L3 ln = ldir<3>(g), e1 = lperp(g, ln), e2 = lcross(ln, e1);
  const L3 o = lv(cvec<T, 3>(g, g.chance(1, 6) ? 1000 : 10)) * f;
  std::vector<L> an;
  for (size_t i = 0; i < n; ++i) an.push_back(L(g.real(0, 6.283185307179586)));
  std::sort(an.begin(), an.end());
  std::vector<vec<T, 3>> vs;
  std::vector<LV<2>> v2;
  const bool round = g.chance(1, 3); // convex: on a circle
  for (const L a : an) {
    const L r = f * (round ? 8 : L(g.real(2, 10)));
    vs.push_back(tov<T>(o + e1 * (r * std::cos(a)) + e2 * (r * std::sin(a))));
  }
  if (g.below(2)) std::reverse(vs.begin(), vs.end());
  std::rotate(vs.begin(), vs.begin() + long(g.below(n)), vs.end());
  for (const auto& v : vs) v2.push_back({ldot(lv(v) - o, e1), ldot(lv(v) - o, e2)});
  L3 t;
  switch (g.below(5)) {
    case 0: t = o + e1 * (f * L(g.real(-11, 11))) + e2 * (f * L(g.real(-11, 11))); break;
    case 1: { // near an edge
      const size_t i = g.below(n);
      const L k = L(g.unit01()), h = f * L(g.real(-0.5, 0.5)), h2 = f * L(g.real(-0.5, 0.5));
      const auto &a = v2[i], &b = v2[(i + 1) % n];
      t = o + e1 * (a[0] + (b[0] - a[0]) * k + h) + e2 * (a[1] + (b[1] - a[1]) * k + h2);
      break;
    }
    case 2: { // just beside an edge or a vertex
      const size_t i = g.below(n);
      const L k = g.below(3) ? L(g.unit01()) : L(g.below(2));
      const auto &a = v2[i], &b = v2[(i + 1) % n];
      t = o + e1 * (a[0] + (b[0] - a[0]) * k + L(g.logreal(1e-3, 0.05))) + e2 * (a[1] + (b[1] - a[1]) * k + L(g.logreal(1e-3, 0.05)));
      break;
    }
    case 3: { // just outside of the tolerance at an edge
      const size_t i = g.below(n);
      const auto &a = v2[i], &b = v2[(i + 1) % n];
      const LV<2> ab = b - a;
      const L k = L(g.unit01()), len = llen(ab), h = len > 0 ? L(g.real(0.0008, 0.004)) * (g.below(2) ? 1 : -1) / len : 0;
      t = o + e1 * (a[0] + ab[0] * k - ab[1] * h) + e2 * (a[1] + ab[1] * k + ab[0] * h);
      break;
    }
    default: { // level with a vertex
      const auto& a = v2[g.below(n)];
      t = o + e1 * (g.below(2) ? a[0] : f * L(g.real(-11, 11))) + e2 * a[1];
      break;
    }
  }
  const auto p = tov<T>(t);
  const LV<2> q{ldot(lv(p) - o, e1), ldot(lv(p) - o, e2)};
  bool in = false;
  for (size_t i = 0; i < n; ++i) {
    const auto &a = v2[i], &b = v2[(i + 1) % n];
    const LV<2> ab = b - a;
    if ((a[1] > q[1]) != (b[1] > q[1]) && (q[1] - a[1]) / ab[1] * ab[0] + a[0] > q[0]) in = !in;
  }
  const L noise = 40 * eps<T>() * (llen(o) + 20 * f);
  // the tolerance of a thousandth applies in the projection along an axis, which shrinks distances
  std::array<L, 3> pm{0, 0, 0};
  L seen = 1e30L;
  for (size_t ax = 0; ax < 3; ++ax) {
    if (std::fabs(ln[ax]) < 0.3L) continue;
    const size_t x = (ax + 1) % 3, y = (ax + 2) % 3;
    L m = 1e30L;
    for (size_t i = 0; i < n; ++i) {
      const LV<2> a{L(vs[i][x]), L(vs[i][y])}, b{L(vs[(i + 1) % n][x]), L(vs[(i + 1) % n][y])};
      const LV<2> ab = b - a, aq = LV<2>{L(p[x]), L(p[y])} - a;
      const L len2 = ldot(ab, ab), k = len2 > 0 ? std::min(L(1), std::max(L(0), ldot(aq, ab) / len2)) : 0;
      m = std::min(m, ldist(LV<2>{L(p[x]), L(p[y])}, a + ab * k));
      m = std::min(m, std::max(std::fabs(aq[0]), std::fabs(aq[1]))); // corners are compared by component
    }
    pm[ax] = m - 10 * noise;
    if (std::fabs(ln[ax]) > lmax(ln) - 0.001L) seen = std::min(seen, pm[ax]);
  }
  if (seen < 0.00102L) return;
  if (seen < 0.002L) OBS("just outside of the tolerance");
  OBS(in ? "inside" : "outside");
  const auto un = tov<T>(ln);
  const auto say = [&]() { return P(vs) + P(p) + " normal " + P(un) + (in ? " inside" : " outside"); };
  CHK(vm::polygon_contains_point(p, un, vs.begin(), vs.end()) == in, "point in polygon with normal", say());
  CHK(vm::polygon_contains_point(p, -un, vs.begin(), vs.end()) == in, "point in polygon with opposite normal", say());
  for (size_t ax = 0; ax < 3; ++ax)
    if (pm[ax] > 0.00102L) CHK(vm::polygon_contains_point(p, vm::axis::type(ax), vs.begin(), vs.end()) == in, "point in polygon along an axis", "axis " << ax << say());
  // the first corner must be well defined for the variants that compute the normal
  const L3 c = lcross(lv(vs[1]) - lv(vs[0]), lv(vs[2]) - lv(vs[0]));
  const bool corner = llen(c) > 0.2L * llen(lv(vs[1]) - lv(vs[0])) * llen(lv(vs[2]) - lv(vs[0])) && llen(c) > 0.1L * f * f && noise < 1e-4L * f;
  if (corner) CHK(vm::polygon_contains_point(p, vs.begin(), vs.end()) == in, "point in polygon", say());
  L3 d;
  do d = ldir<3>(g);
  while (std::fabs(ldot(d, ln)) < 0.2L);
  const L dist = f * (g.chance(1, 4) ? std::fabs(L(g.logreal(1e-3, 1))) : L(g.real(1, 20)));
  const bool away = g.chance(1, 5);
  const ray<T, 3> r(tov<T>(lv(p) - d * dist), tov<T>(d * (away ? -1 : 1)));
  const plane<T, 3> pl(vs[g.below(n)], un);
  const L tol = 40 * noise + 200 * eps<T>() * dist;
  if (seen < 0.00102L + 2 * tol || dist < (away ? 0.0012L : 0) + 25 * tol) return;
  const bool hit = in && !away;
  const auto ok = [&](T x) { return hit ? near(x, dist, tol) : is_none(x); };
  const T a = vm::intersect_ray_polygon(r, pl, vs.begin(), vs.end());
  CHK(ok(a), "ray and polygon", P(r) << " plane " << P(pl) << " " << say() << " expected " << (hit ? dist : L(NAN)) << " got " << a);
  if (corner && seen > 0.00102L + 20 * tol) {
    const T b = vm::intersect_ray_polygon(r, vs.begin(), vs.end());
    CHK(hit ? near(b, dist, 20 * tol) : is_none(b), "ray and polygon without plane", P(r) << " " << say() << " expected " << (hit ? dist : L(NAN)) << " got " << b);
  }
  OBS(hit ? "ray hits" : "ray misses");
}
MON_GROUP_T(generic, 40000, float)
MON_GROUP_T(generic, 60000, double)

MON_MAIN("C20")
