// C18: lines, rays and segments
#include "gen.h"

using vm::line;
using vm::plane_status;
using vm::ray;
using vm::segment;

template <size_t S> static bool close(const LV<S>& a, const LV<S>& b, L tol) {
  for (size_t i = 0; i < S; ++i)
    if (!near(a[i], b[i], tol)) return false;
  return true;
}
// a scale for all lengths; the tolerances scale with it
static L unit(Rng& g, int lo = -20, int hi = 20) { return g.below(3) ? L(1) : lscale(g, lo, hi); }
template <typename T, size_t S> static vec<T, S> anyp(Rng& g, double r, L f) { return (g.below(2) ? ivec<T, S>(g, long(r)) : cvec<T, S>(g, r)) * T(f); }
// points on and projections to anything with origin and unit direction
template <typename AL, typename T, size_t S> static void carrier(Rng& g, const AL& al, const vec<T, S>& o, const LV<S>& d, L f, const char* what) {
  const auto q = anyp<T, S>(g, 20, f);
  const T t = (g.below(2) ? T(g.irange(-20, 20)) : g.coord<T>(20)) * T(f);
  const L mag = f + llen(lv(o)) + llen(lv(q)) + std::fabs(L(t)), tol = 30 * eps<T>() * mag;
  CHK(al.get_origin() == o, "origin", what);
  CHK(close<S>(lv(al.get_direction()), d, 8 * eps<T>()), "direction", what << P(al.get_direction()) << P(d));
  CHK(close<S>(lv(vm::point_at_distance(al, t)), lv(o) + d * L(t), tol), "point at distance", what << P(al) << t << " got " << P(vm::point_at_distance(al, t)));
  const L s = ldot(lv(q) - lv(o), d);
  CHK(near(vm::distance_to_projected_point(al, q), s, tol), "distance to projected point", what << P(al) << P(q) << " expected " << s << " got " << vm::distance_to_projected_point(al, q));
  CHK(close<S>(lv(vm::project_point(al, q)), lv(o) + d * s, 2 * tol), "projected point", what << P(al) << P(q) << " got " << P(vm::project_point(al, q)));
}
template <typename T, size_t S> static void carriers(Rng& g) {
  const L f = unit(g);
  const auto o = anyp<T, S>(g, 20, f);
  const auto d = uvec<T, S>(g);
  carrier<line<T, S>, T, S>(g, line<T, S>(o, d), o, lv(d), f, "line ");
  carrier<ray<T, S>, T, S>(g, ray<T, S>(o, d), o, lv(d), f, "ray ");
  vec<T, S> e = o;
  while (ldist(lv(e), lv(o)) < 0.5L * f) e = anyp<T, S>(g, 20, f);
  const segment<T, S> s(o, e);
  carrier<segment<T, S>, T, S>(g, s, s.start(), lnorm(lv(s.end()) - lv(s.start())), f, "segment ");
}
MON_GROUP_T(carriers, 15000, float, 2)
MON_GROUP_T(carriers, 20000, float, 3)
MON_GROUP_T(carriers, 20000, double, 3)
MON_GROUP_T(carriers, 5000, double, 2)
MON_GROUP_T(carriers, 5000, double, 4)
MON_GROUP_T(carriers, 2500, float, 4)
MON_GROUP_T(carriers, 2500, double, 5)
MON_GROUP_T(carriers, 2500, double, 1)

template <typename T, size_t S> static void lines(Rng& g) {
  const L f = unit(g);
  const auto o = anyp<T, S>(g, 20, f);
  const auto d = uvec<T, S>(g);
  const line<T, S> l(o, d);
  CHK(l.point == o && l.direction == d, "constructor", P(l));
  const auto c = l.make_canonical();
  const L mag = f + llen(lv(o)), tol = 60 * eps<T>() * mag;
  const LV<S> ld = lv(d), foot = lv(o) - ld * ldot(lv(o), ld);
  CHK(close<S>(lv(c.point), foot, tol), "canonical point is closest to the origin", P(l) << " expected " << P(foot) << " got " << P(c));
  CHK(c.direction == d || c.direction == -d, "canonical direction is the same up to sign", P(l) << P(c));
  size_t k = 0;
  while (k < S && c.direction[k] == T(0)) ++k;
  CHK(k < S && c.direction[k] > T(0), "first component of the canonical direction is positive", P(l) << P(c));
  // another representation of the same line
  const T t = T(g.irange(-9, 9)) * T(f);
  const line<T, S> r(tov<T>(lv(o) + ld * L(t)), g.below(2) ? d : -d);
  const auto rc = r.make_canonical();
  CHK(rc.direction == c.direction && close<S>(lv(rc.point), lv(c.point), 2 * tol + 600 * eps<T>() * f), "canonical form depends on the line only", P(l) << P(r) << " gives " << P(c) << P(rc));
  // exact arithmetic: axis parallel lines through integer points
  vec<T, S> ax;
  const size_t a = g.below(S);
  ax[a] = T(1);
  const auto io = ivec<T, S>(g, 50) * T(f);
  const line<T, S> x(io, g.below(2) ? ax : -ax), y(io + ax * T(g.irange(-50, 50)) * T(f), g.below(2) ? ax : -ax);
  CHK(x == y && !(x != y) && y == x, "representations of the same line are equal", P(x) << P(y));
  auto z = y;
  const size_t b = g.below(S);
  z.point[b] += T(f);
  CHK((x == z) == (b == a) && (x != z) == (b != a), "moved line", P(x) << P(z));
  if (S > 1) {
    auto w = y;
    w.direction = vec<T, S>::axis((a + 1) % S);
    CHK(x != w && !(x == w), "other direction", P(x) << P(w));
  }
  // tolerance compares point and direction
  line<T, S> u(ivec<T, S>(g, 20) * T(f), ivec<T, S>(g, 3) * T(f)), v = u;
  const T dl = T(g.irange(1, 20)) / T(8) * T(f);
  (g.below(2) ? v.point[b] : v.direction[b]) += dl;
  CHK(vm::is_equal(u, v, dl) && vm::is_equal(v, u, dl) && !vm::is_equal(u, v, dl * T(0.99)) && vm::is_equal(u, u, T(0)), "is_equal", P(u) << P(v) << dl);
  const line<double, S> cd(l);
  const line<float, S> cf(l);
  CHK((cd.point == vec<double, S>(o) && cd.direction == vec<double, S>(d) && cf.point == vec<float, S>(o) && cf.direction == vec<float, S>(d)), "conversion", P(l));
}
MON_GROUP_T(lines, 20000, float, 2)
MON_GROUP_T(lines, 20000, float, 3)
MON_GROUP_T(lines, 20000, double, 3)
MON_GROUP_T(lines, 5000, double, 2)
MON_GROUP_T(lines, 2500, float, 4)
MON_GROUP_T(lines, 2500, double, 4)
MON_GROUP_T(lines, 2500, double, 5)

template <typename T> static void transforms(Rng& g) {
  const L f = unit(g);
  const auto o = cvec<T, 3>(g, 20) * T(f), e = cvec<T, 3>(g, 20) * T(f);
  const auto d = uvec<T, 3>(g);
  auto am = laffine(g);
  const L h = g.below(3) ? L(1) : lscale(g, -12, 12); // a matrix that scales as well
  for (size_t i = 0; i < 3; ++i) {
    am[i][3] *= f * h;
    for (size_t j = 0; j < 3; ++j) am[i][j] *= h;
  }
  const auto m = tom<T, 4, 4>(am);
  const auto A = lm(m);
  const L3 eo = lpoint(A, lv(o)), ed = lnorm(llin(A, lv(d))), ee = lpoint(A, lv(e));
  L n = 0;
  for (size_t i = 0; i < 3; ++i) n = std::max(n, std::fabs(A[i][0]) + std::fabs(A[i][1]) + std::fabs(A[i][2]));
  const L tr = std::max({std::fabs(A[0][3]), std::fabs(A[1][3]), std::fabs(A[2][3])});
  const L tol = 40 * eps<T>() * (tr + n * (f + llen(lv(o)) + llen(lv(e)))), dt = 60 * eps<T>() * n / llen(llin(A, lv(d)));
  const auto mh = homogeneous_twin(g, m);
  const auto l1 = line<T, 3>(o, d).transform(mh), l2 = line<T, 3>(o, d).transform_c(mh);
  const auto r1 = ray<T, 3>(o, d).transform(mh), r2 = ray<T, 3>(o, d).transform_c(mh);
  for (const auto& l : {l1, l2}) CHK(close<3>(lv(l.point), eo, tol) && close<3>(lv(l.direction), ed, dt), "transformed line", P(line<T, 3>(o, d)) << P(m) << " expected " << P(eo) << P(ed) << " got " << P(l));
  for (const auto& r : {r1, r2}) CHK(close<3>(lv(r.origin), eo, tol) && close<3>(lv(r.direction), ed, dt), "transformed ray", P(ray<T, 3>(o, d)) << P(m) << " expected " << P(eo) << P(ed) << " got " << P(r));
  const segment<T, 3> s(o, e);
  const auto t = s.transform(mh);
  const bool ord = close<3>(lv(t.start()), eo, tol) && close<3>(lv(t.end()), ee, tol), rev = close<3>(lv(t.start()), ee, tol) && close<3>(lv(t.end()), eo, tol);
  CHK(ord || rev, "transformed segment", P(s) << P(m) << " expected " << P(eo) << P(ee) << " got " << P(t));
  CHK(t.start() <= t.end(), "transformed segment is ordered", P(s) << P(m) << " got " << P(t));
}
MON_GROUP_T(transforms, 20000, float)
MON_GROUP_T(transforms, 20000, double)

template <typename T, size_t S> static void rays(Rng& g) {
  const auto o = cvec<T, S>(g, 20) * T(unit(g, 0, 12));
  const auto d = uvec<T, S>(g);
  const ray<T, S> r(o, d);
  CHK(r.origin == o && r.direction == d, "constructor", P(r));
  auto q = g.below(2) ? cvec<T, S>(g, 20) : tov<T>(lv(o) + lv(d) * L(g.pick(std::array<double, 7>{0, 0.00005, -0.00005, 0.0002, -0.0002, 3, -3})));
  if (g.below(2)) { // sideways: stays on the same side
    auto x = ldir<S>(g);
    x = x - lv(d) * ldot(x, lv(d));
    q = tov<T>(lv(q) + x * L(g.real(-20, 20)));
  }
  const L s = ldot(lv(q) - lv(o), lv(d)), tol = 40 * eps<T>() * (L(0.0001L) + llen(lv(q) - lv(o)));
  if (std::fabs(std::fabs(s) - 0.0001L) > tol) {
    const auto e = s > 0.0001L ? plane_status::above : s < -0.0001L ? plane_status::below : plane_status::inside;
    CHK(r.point_status(q) == e, "point status", P(r) << P(q) << " projected distance " << s);
    OBS(e == plane_status::above ? "above" : e == plane_status::below ? "below" : "inside");
  }
  CHK(r == r && !(r != r), "equal to itself", P(r));
  const L f = unit(g);
  ray<T, S> u(ivec<T, S>(g, 20) * T(f), ivec<T, S>(g, 3) * T(f)), v = u;
  const T dl = T(g.irange(1, 20)) / T(8) * T(f);
  const size_t b = g.below(S);
  (g.below(2) ? v.origin[b] : v.direction[b]) += dl;
  CHK(u != v && !(u == v) && vm::is_equal(u, v, dl) && vm::is_equal(v, u, dl) && !vm::is_equal(u, v, dl * T(0.99)), "equality", P(u) << P(v) << dl);
  const ray<double, S> cd(r);
  const ray<float, S> cf(r);
  CHK((cd.origin == vec<double, S>(o) && cd.direction == vec<double, S>(d) && cf.origin == vec<float, S>(o) && cf.direction == vec<float, S>(d)), "conversion", P(r));
}
MON_GROUP_T(rays, 20000, float, 2)
MON_GROUP_T(rays, 25000, float, 3)
MON_GROUP_T(rays, 25000, double, 3)
MON_GROUP_T(rays, 5000, double, 2)
MON_GROUP_T(rays, 2500, float, 4)
MON_GROUP_T(rays, 2500, double, 4)
MON_GROUP_T(rays, 2500, double, 5)

template <typename T, size_t S> static void segments(Rng& g) {
  auto p = g.below(3) ? ivec<T, S>(g, 3) : wfvec<T, S>(g), q = g.below(3) ? ivec<T, S>(g, 3) : wfvec<T, S>(g);
  if (g.chance(1, 3))
    for (size_t i = 0, n = g.below(S); i < n; ++i) q[i] = p[i]; // shared leading components
  const segment<T, S> s(p, q), r(q, p);
  const auto less = [](const vec<T, S>& a, const vec<T, S>& b) { return std::lexicographical_compare(a.v, a.v + S, b.v, b.v + S); };
  const auto lo = less(q, p) ? q : p, hi = less(q, p) ? p : q;
  CHK(s.start() == lo && s.end() == hi, "end points in order", P(p) << P(q) << " got " << P(s));
  CHK(r.start() == lo && r.end() == hi && r == s && !(r != s), "independent of the order given", P(p) << P(q) << " got " << P(r));
  CHK(s.get_origin() == s.start(), "origin", P(s));
  // narrowing may merge leading components and thereby change the order
  const segment<float, S> f(s);
  CHK(f.start() <= f.end(), "converted segment is ordered", P(s) << " got " << P(f));
  const vec<float, S> fl(lo), fh(hi);
  CHK((f.start() == fl && f.end() == fh) || (f.start() == fh && f.end() == fl), "converted segment has the converted end points", P(s) << P(f));
  const segment<double, S> w(s);
  CHK(w.start() <= w.end() && (w.start() == vec<double, S>(lo)) && (w.end() == vec<double, S>(hi)), "widened", P(s) << P(w));
  // measures
  const L un = unit(g);
  const auto a = anyp<T, S>(g, 20, un);
  auto b = anyp<T, S>(g, 20, un);
  if (g.below(4) == 0) b = tov<T>(lv(a) + ldir<S>(g) * (un * L(g.logreal(1e-4, 1)))); // short and far away
  const segment<T, S> m(a, b);
  const L len = ldist(lv(a), lv(b)), tol = 20 * eps<T>() * (llen(lv(a)) + llen(lv(b)));
  CHK(near(m.length(), len, 20 * eps<T>() * len) && near(m.length_c(), len, 20 * eps<T>() * len), "length", P(m) << " got " << m.length());
  CHK(near(m.squared_length(), len * len, 20 * eps<T>() * len * len), "squared length", P(m) << " got " << m.squared_length());
  CHK(close<S>(lv(m.center()), (lv(a) + lv(b)) * 0.5L, tol), "center", P(m) << P(m.center()));
  if (len > 0) CHK(close<S>(lv(m.direction()), lnorm(lv(m.end()) - lv(m.start())), 20 * eps<T>()), "direction", P(m) << P(m.direction()));
  const auto d = ivec<T, S>(g, 50) * T(un);
  const segment<T, S> is(ivec<T, S>(g, 50) * T(un), ivec<T, S>(g, 50) * T(un));
  const auto t1 = is.translate(d), t2 = vm::translate(is, d);
  CHK(t1.start() == is.start() + d && t1.end() == is.end() + d && t2 == t1, "translation", P(is) << P(d) << P(t1) << P(t2));
  std::vector<segment<T, S>> list;
  for (size_t i = g.below(4); i > 0; --i) list.push_back(segment<T, S>(ivec<T, S>(g, 9), ivec<T, S>(g, 9)));
  std::vector<vec<T, S>> vs;
  segment<T, S>::get_vertices(list.begin(), list.end(), std::back_inserter(vs));
  CHK(vs.size() == 2 * list.size(), "number of vertices", vs.size());
  std::vector<vec<T, S>> pre(2 * list.size()); // into existing elements
  segment<T, S>::get_vertices(list.begin(), list.end(), pre.begin());
  CHK(pre == vs, "vertices written through a plain iterator", P(list) << P(pre));
  if (vs.size() == 2 * list.size())
    for (size_t i = 0; i < list.size(); ++i) CHK(vs[2 * i] == list[i].start() && vs[2 * i + 1] == list[i].end(), "vertices in order", i << P(list) << P(vs));
}
MON_GROUP_T(segments, 15000, float, 2)
MON_GROUP_T(segments, 20000, double, 2)
MON_GROUP_T(segments, 20000, float, 3)
MON_GROUP_T(segments, 25000, double, 3)
MON_GROUP_T(segments, 7500, double, 1)
MON_GROUP_T(segments, 7500, float, 4)
MON_GROUP_T(segments, 7500, double, 4)
MON_GROUP_T(segments, 7500, double, 5)

// images that are rounded: end points may merge in leading components and change their order
template <typename T, size_t S> static void rounded(Rng& g) {
  const auto less = [](const vec<T, S>& a, const vec<T, S>& b) { return std::lexicographical_compare(a.v, a.v + S, b.v, b.v + S); };
  auto p = ivec<T, S>(g, 3), q = ivec<T, S>(g, 3);
  for (size_t k = 0; k < S; ++k) {
    if (g.below(2)) q.v[k] = p.v[k];
    if (k == 0 || g.below(2)) q.v[k] += T(g.irange(-4, 4)) * std::ldexp(T(1), -int(g.irange(10, 20)));
  }
  const segment<T, S> s(p, q);
  auto off = ivec<T, S>(g, 9);
  for (size_t k = 0; k < S; ++k)
    if (g.below(2)) off.v[k] = T(g.irange(-7, 7)) * std::ldexp(T(1), std::numeric_limits<T>::digits - int(g.irange(2, 14)));
  vec<T, S> a, b;
  for (size_t k = 0; k < S; ++k) {
    volatile T x = s.start().v[k] + off.v[k], y = s.end().v[k] + off.v[k];
    a.v[k] = x;
    b.v[k] = y;
  }
  if (less(b, a)) {
    std::swap(a, b);
    OBS("order changed by rounding");
  }
  const auto same = [](const vec<T, S>& x, const vec<T, S>& y) { return std::equal(x.v, x.v + S, y.v); };
  const auto t1 = s.translate(off), t2 = vm::translate(s, off);
  CHK(same(t1.start(), a) && same(t1.end(), b), "translate with rounding", P(s) << P(off) << " got " << P(t1));
  CHK(same(t2.start(), a) && same(t2.end(), b) && t1 == t2 && (t1 == segment<T, S>(b, a)), "free translate with rounding", P(s) << P(off) << " got " << P(t2));
  auto m = vm::mat<T, S + 1, S + 1>::identity();
  for (size_t r = 0; r < S; ++r) {
    for (size_t c = 0; c < S; ++c) m.v[c].v[r] = g.below(3) ? T(r == c) : T(g.real(-3, 3));
    m.v[S].v[r] = off.v[r];
  }
  const auto t = s.transform(m);
  const auto u = vm::translate(s, -off);
  CHK(!less(t.end(), t.start()), "transformed segment is ordered", P(s) << P(m) << " got " << P(t));
  CHK(!less(u.end(), u.start()), "translated segment is ordered", P(s) << P(off) << " got " << P(u));
}
MON_GROUP_T(rounded, 10000, float, 2)
MON_GROUP_T(rounded, 10000, double, 2)
MON_GROUP_T(rounded, 10000, double, 3)
MON_GROUP_T(rounded, 10000, float, 3)
MON_GROUP_T(rounded, 5000, double, 4)

// default, converted, copied and moved objects
template <typename T, size_t S> static void values(Rng& g) {
  using U = std::conditional_t<std::is_same_v<T, float>, double, float>;
  const vec<T, S> z;
  const line<T, S> l0;
  const ray<T, S> r0;
  CHK(l0.point == z && l0.direction == z && r0.origin == z && r0.direction == z, "default values are zero", P(l0) << P(r0));
  const auto o = anyp<T, S>(g, 20, 1);
  const auto d = uvec<T, S>(g);
  const line<T, S> l(o, d);
  const ray<T, S> r(o, d);
  line<T, S> l1(l), l2, l3;
  ray<T, S> r1(r), r2, r3;
  l2 = l1;
  l3 = std::move(l1);
  r2 = r1;
  r3 = std::move(r1);
  const line<T, S> l4(std::move(l3));
  const ray<T, S> r4(std::move(r3));
  CHK(l2.point == o && l2.direction == d && l4.point == o && l4.direction == d && l2 == l4 && !(l2 != l4), "copied line", P(l2) << P(l4));
  CHK(r2.origin == o && r2.direction == d && r4.origin == o && r4.direction == d && r2 == r4 && !(r2 != r4), "copied ray", P(r2) << P(r4));
  const line<U, S> lu(l);
  const ray<U, S> ru(r);
  for (size_t i = 0; i < S; ++i) {
    CHK(lu.point[i] == U(o[i]) && lu.direction[i] == U(d[i]), "converted line", P(l));
    CHK(ru.origin[i] == U(o[i]) && ru.direction[i] == U(d[i]), "converted ray", P(r));
  }
  auto e = o;
  e[g.below(S)] += T(1);
  const ray<T, S> rp(e, d), rq(o, -d);
  CHK(rp != r && rq != r && !(rp == r) && !(rq == r), "rays differ in a component", P(r) << P(rp) << P(rq));
}
MON_GROUP_T(values, 5000, float, 2)
MON_GROUP_T(values, 5000, float, 3)
MON_GROUP_T(values, 5000, double, 3)
MON_GROUP_T(values, 5000, double, 4)
MON_GROUP_T(values, 2500, double, 2)
MON_GROUP_T(values, 2500, double, 5)
MON_GROUP_T(values, 2500, float, 4)

template <typename T, size_t S> static void containment(Rng& g) {
  const L f = unit(g, -12, 20);
  auto a = anyp<T, S>(g, 10, f), b = anyp<T, S>(g, 10, f);
  if (g.chance(1, 10)) b = a + ivec<T, S>(g, 1) * T(f * L(g.logreal(1e-3, 0.3))); // short
  if (g.chance(1, 8)) b = a;
  const segment<T, S> s(a, b);
  const LV<S> ls = lv(s.start()), le = lv(s.end());
  const L len = ldist(ls, le);
  const LV<S> d = len > 0 ? lnorm(le - ls) : LV<S>{};
  // points around the segment, its ends and its extension
  const T md = g.pick(std::array<T, 4>{T(0.01), T(0.1), T(1), T(3)}) * T(f);
  L along;
  switch (g.below(5)) {
    case 0: along = 0; break;
    case 1: along = len; break;
    case 2: along = -L(md) * L(g.real(0, 2)); break;
    case 3: along = len + L(md) * L(g.real(0, 2)); break;
    default: along = len * L(g.unit01()); break;
  }
  auto side = ldir<S>(g);
  side = side - d * ldot(side, d);
  const auto q = tov<T>(ls + d * along + side * (L(md) * L(g.real(0, 2))));
  const L t = std::min(std::max(L(0), ldot(lv(q) - ls, d)), len);
  const L dist = ldist(lv(q), ls + d * t);
  const L tol = 100 * eps<T>() * (f + llen(ls) + llen(le));
  if (std::fabs(dist - L(md)) > tol + 1e-5L * f) {
    CHK(s.contains(q, md) == (dist <= L(md)), "contains exactly the points within the distance", P(s) << P(q) << " max " << md << " distance " << dist);
    OBS(dist <= L(md) ? "contained" : "not contained");
    if (len == 0) OBS("degenerate");
  }
  { // exactly at the distance, and at none
    const size_t ax = g.below(S), bx = (ax + 1 + g.below(S - 1)) % S;
    const auto o = ivec<T, S>(g, 20);
    const T ln = T(g.irange(0, 3)) * T(4), md2 = T(g.irange(0, 4)) / T(2);
    const segment<T, S> u(o, o + vec<T, S>::axis(ax) * ln);
    const T off = T(g.irange(-6, 6)) / T(2);
    const auto y = o + vec<T, S>::axis(ax) * (T(g.irange(0, 4)) * ln / T(4)) + vec<T, S>::axis(bx) * off;
    const auto z = o + vec<T, S>::axis(ax) * (ln + std::fabs(off));
    const bool in = std::fabs(off) <= md2;
    CHK(u.contains(y, md2) == in && u.contains(z, md2) == in, "contains points at exactly the distance", P(u) << P(y) << P(z) << " max " << md2 << " distance " << off);
  }
  CHK(s.contains(s.start(), T(0.01 * f)) && s.contains(s.end(), T(0.01 * f)) && s.contains(s.center(), T(0.01 * f)), "contains its ends and center", P(s));
}
MON_GROUP_T(containment, 20000, float, 2)
MON_GROUP_T(containment, 20000, float, 3)
MON_GROUP_T(containment, 30000, double, 3)
MON_GROUP_T(containment, 5000, double, 2)
MON_GROUP_T(containment, 2500, float, 4)
MON_GROUP_T(containment, 2500, double, 4)
MON_GROUP_T(containment, 2500, double, 5)

MON_MAIN("C18")
