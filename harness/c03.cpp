// C03: compile-time evaluation agrees with run-time evaluation.
//
// A family is a constexpr function that draws arguments from a generator and tabulates the results of
// operations. The compiler evaluates it for the seed C03_SEED, the program evaluates it again for the
// same seed at run time, and the monitor compares the tables. The groups at the end compare the
// compile-time twins (suffix _c) with the run-time operations on random arguments.
#include "gen.h"

#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/distance.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>

#include <array>

#ifndef C03_SEED
#define C03_SEED 1
#endif

using namespace mon;
using vm::mat;
using vm::vec;

namespace {
constexpr size_t Cap = 3000;
template <typename T> struct Tab {
  T v[Cap] = {};
  size_t n = 0;
  constexpr void put(T x) {
    if (n < Cap) v[n++] = x;
  }
  constexpr void put(bool x) { put(T(x)); }
  constexpr void put(int x) { put(T(x)); }
  constexpr void put(size_t x) { put(T(x)); }
  template <size_t S> constexpr void put(const vec<T, S>& x) {
    for (size_t i = 0; i < S; ++i) put(x[i]);
  }
  template <size_t R, size_t C> constexpr void put(const mat<T, R, C>& x) {
    for (size_t i = 0; i < C; ++i) put(x[i]);
  }
  constexpr void put(const vm::bbox<T, 3>& b) {
    put(b.min);
    put(b.max);
  }
  constexpr void put(const vm::line_distance<T>& d) {
    put(d.parallel);
    put(d.distance);
    put(d.position1);
    put(d.position2);
  }
};
struct Gen {
  uint64_t s;
  constexpr uint64_t u() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  constexpr uint64_t below(uint64_t n) { return u() % n; }
  template <typename T> constexpr T num() {
    switch (below(4)) {
      case 0: return T(int(below(17)) - 8);
      case 1: return T(int(below(129)) - 64) / T(8);
      case 2: return T(int(below(2001)) - 1000) / T(7);
      default: return T(int(below(200001)) - 100000) / T(3);
    }
  }
  template <typename T> constexpr T pos() {
    const T v = num<T>();
    return v < T(0) ? -v : v == T(0) ? T(1) : v;
  }
  template <typename T, size_t S> constexpr vec<T, S> v() {
    vec<T, S> r;
    for (size_t i = 0; i < S; ++i) r[i] = num<T>();
    return r;
  }
  template <typename T> constexpr vec<T, 3> pv() {
    vec<T, 3> r;
    for (size_t i = 0; i < 3; ++i) r[i] = pos<T>();
    return r;
  }
  template <typename T> constexpr T small() { return T(int(below(65)) - 32) / T(8); }
  template <typename T, size_t S> constexpr vec<T, S> sv() {
    vec<T, S> r;
    for (size_t i = 0; i < S; ++i) r[i] = small<T>();
    return r;
  }
  // a unit vector
  template <typename T> constexpr vec<T, 3> dir() {
    auto d = sv<T, 3>();
    if (vm::squared_length(d) < T(0.5)) d = vec<T, 3>(T(0), T(0), T(below(2) ? 1 : -1));
    return vm::normalize_c(d);
  }
  template <typename T, size_t S> constexpr mat<T, S, S> m() {
    mat<T, S, S> r;
    for (size_t c = 0; c < S; ++c)
      for (size_t k = 0; k < S; ++k) r[c][k] = below(4) ? small<T>() : T(0);
    return r;
  }
  template <typename T> constexpr vm::bbox<T, 3> box() {
    const auto a = v<T, 3>(), b = v<T, 3>();
    return vm::bbox<T, 3>(vm::min(a, b), vm::max(a, b));
  }
  template <typename T> constexpr vm::bbox<T, 3> sbox() {
    const auto a = sv<T, 3>(), b = sv<T, 3>();
    return vm::bbox<T, 3>(vm::min(a, b), vm::max(a, b));
  }
};

template <typename T> constexpr Tab<T> scalars(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 40; ++i) {
    const T a = g.num<T>(), b = g.num<T>(), c = g.num<T>();
    const T p = g.pos<T>();
    o.put(vm::is_nan(a));
    o.put(vm::is_inf(a));
    o.put(vm::abs(a));
    o.put(vm::min(a, b, c));
    o.put(vm::max(a, b, c));
    o.put(vm::abs_min(a, b, c));
    o.put(vm::abs_max(a, b, c));
    o.put(vm::safe_min(a, vm::nan<T>(), c));
    o.put(vm::safe_max(a, vm::nan<T>(), c));
    o.put(vm::abs_difference(a, b));
    o.put(vm::clamp(a, vm::min(b, c), vm::max(b, c)));
    o.put(vm::sign(a));
    o.put(vm::step(a, b));
    o.put(vm::smoothstep(b, b + p, a));
    o.put(vm::mix(a, b, c));
    o.put(vm::is_equal(a, b, p));
    o.put(vm::is_zero(a, p));
    o.put(vm::contains(a, b, c));
    o.put(vm::to_radians(a));
    o.put(vm::to_degrees(a));
    o.put(vm::normalize_radians(a));
    o.put(vm::normalize_degrees(a));
    const size_t n = 1 + g.below(9), k = g.below(n), st = g.below(20);
    o.put(vm::succ(k, n, st));
    o.put(vm::pred(k, n, st));
  }
  return o;
}
template <typename T> constexpr Tab<T> rounding(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 60; ++i) {
    const T a = g.num<T>(), b = g.num<T>();
    const T p = g.pos<T>();
    o.put(vm::trunc(a));
    o.put(vm::mod(a, b == T(0) ? T(1) : b));
    o.put(vm::floor(a));
    o.put(vm::ceil(a));
    o.put(vm::fract(a));
    o.put(vm::round(a));
    o.put(vm::round_up(a));
    o.put(vm::round_down(a));
    o.put(vm::snap(a, p));
    o.put(vm::snapUp(a, p));
    o.put(vm::snapDown(a, p));
    o.put(vm::correct(a));
    o.put(vm::sqrt_c(p));
  }
  return o;
}
template <typename T> constexpr Tab<T> vectors(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 16; ++i) {
    const auto a = g.v<T, 3>(), b = g.v<T, 3>(), c = g.v<T, 3>();
    const T f = g.pos<T>();
    o.put(-a);
    o.put(a + b);
    o.put(a - b);
    o.put(a * b);
    o.put(a * f);
    o.put(f * a);
    o.put(a / f);
    o.put(vm::min(a, b, c));
    o.put(vm::max(a, b, c));
    o.put(vm::abs_min(a, b, c));
    o.put(vm::abs_max(a, b, c));
    o.put(vm::clamp(a, vm::min(b, c), vm::max(b, c)));
    o.put(vm::abs(a));
    o.put(vm::sign(a));
    o.put(vm::step(a, b));
    o.put(vm::mix(a, b, c));
    o.put(vm::dot(a, b));
    o.put(vm::cross(a, b));
    o.put(vm::squared_length(a));
    o.put(vm::length_c(a));
    o.put(vm::squared_distance(a, b));
    o.put(vm::compare(a, b));
    o.put(a == b);
    o.put(a != b);
    o.put(a < b);
    o.put(a >= b);
    o.put(vm::is_equal(a, b, f));
    o.put(vm::is_zero(a, f));
    o.put(vm::is_integral(a, T(0)));
    for (size_t k = 0; k < 3; ++k) {
      o.put(vm::find_max_component(a, k));
      o.put(vm::find_abs_max_component(a, k));
      o.put(vm::get_max_component(a, k));
      o.put(vm::get_abs_max_component(a, k));
      o.put(vm::get_abs_max_component_axis(a, k));
      o.put(vm::swizzle(a, k));
      o.put(vm::unswizzle(a, k));
    }
  }
  return o;
}
template <typename T> constexpr Tab<T> vectors2(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 24; ++i) {
    const auto a = g.v<T, 4>(), b = g.v<T, 4>();
    const T p0 = g.pos<T>(), p1 = g.pos<T>(), p2 = g.pos<T>();
    const auto p = vec<T, 3>(p0, p1, p2);
    const auto x = g.v<T, 3>();
    o.put(vm::fract(x));
    o.put(vm::floor(x));
    o.put(vm::ceil(x));
    o.put(vm::trunc(x));
    o.put(vm::round(x));
    o.put(vm::snap(x, p));
    o.put(vm::snapUp(x, p));
    o.put(vm::snapDown(x, p));
    o.put(vm::correct(x));
    o.put(vm::slice<2>(a, 1));
    o.put(a.xy());
    o.put(a.xyz());
    o.put(a + b);
    for (size_t k = 0; k < 4; ++k) {
      o.put(vm::find_abs_max_component(a, k));
      o.put(vm::find_max_component(b, k));
    }
    o.put(vm::to_homogeneous_coords(x));
    o.put(vm::to_cartesian_coords(vec<T, 4>(x, g.pos<T>())));
    o.put(vm::normalize_c(p));
    o.put(vm::is_unit_c(vm::normalize_c(p), T(0.001)));
    o.put(vm::is_colinear(x, x + p, x + p * T(2)));
  }
  return o;
}
template <typename T> constexpr Tab<T> matrices(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 6; ++i) {
    const auto a = g.m<T, 4>(), b = g.m<T, 4>();
    const auto v = g.sv<T, 4>();
    const auto w = g.sv<T, 3>();
    o.put(a + b);
    o.put(a - b);
    o.put(a * b);
    o.put(a * g.small<T>());
    o.put(a * v);
    o.put(v * a);
    o.put(vm::transpose(a));
    const size_t mr = g.below(4), mc = g.below(4);
    o.put(vm::extract_minor(a, mr, mc));
    o.put(vm::compute_determinant(a));
    o.put(vm::compute_adjugate(a));
    const size_t sr = g.below(2), sc = g.below(2);
    o.put(vm::slice<3, 3>(a, sr, sc));
    o.put(vm::strip_translation(a));
    o.put(vm::compute_determinant(g.m<T, 3>()));
    o.put(vm::compute_determinant(g.m<T, 2>()));
    const auto inv = vm::invert(a);
    o.put(std::get<0>(inv));
    if (std::get<0>(inv)) o.put(std::get<1>(inv));
    const auto inv3 = vm::invert(g.m<T, 3>());
    o.put(std::get<0>(inv3));
    if (std::get<0>(inv3)) o.put(std::get<1>(inv3));
    o.put(vm::translation_matrix(w));
    o.put(vm::scaling_matrix(w));
    o.put(vm::shear_matrix(w[0], w[1], w[2], v[0], v[1], v[2]));
  }
  return o;
}
template <typename T> constexpr Tab<T> boxes(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 24; ++i) {
    const auto a = g.sbox<T>(), b = g.sbox<T>();
    const auto p = g.sv<T, 3>();
    o.put(a.is_valid());
    o.put(a.is_empty());
    o.put(a.center());
    o.put(a.size());
    o.put(a.volume());
    o.put(a.contains(p));
    o.put(a.contains(b));
    o.put(a.encloses(b));
    o.put(a.intersects(b));
    o.put(a.constrain(p));
    o.put(a.expand(T(1)));
    o.put(a.translate(p));
    o.put(vm::merge(a, b));
    o.put(vm::merge(a, p));
    o.put(vm::intersect(a, b));
    o.put(a == b);
    o.put(vm::is_equal(a, b, T(1)));
    o.put(vm::intersect_ray_bbox(vm::ray<T, 3>(p, g.dir<T>()), a));
  }
  return o;
}
template <typename T> constexpr Tab<T> planes(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 24; ++i) {
    const auto anchor = g.sv<T, 3>();
    const auto normal = g.dir<T>();
    const vm::plane<T, 3> p(anchor, normal);
    const auto x = g.sv<T, 3>();
    const auto d = g.dir<T>();
    o.put(p.anchor());
    o.put(p.point_distance(x));
    o.put(int(p.point_status(x)));
    o.put(p.flip().normal);
    o.put(p.project_point(x));
    o.put(p.project_vector(x));
    if (vm::abs(vm::dot(d, p.normal)) > T(0.1)) {
      o.put(p.project_point(x, d));
      o.put(p.project_vector(x, d));
    }
    o.put(p.at(vm::slice<2>(x, 0), vm::find_abs_max_component(p.normal)));
    o.put(vm::intersect_ray_plane(vm::ray<T, 3>(x, d), p));
    o.put(vm::intersect_line_plane(vm::line<T, 3>(x, d), p));
    const auto t1 = g.sv<T, 3>(), t2 = g.sv<T, 3>(), t3 = g.sv<T, 3>();
    o.put(vm::intersect_ray_triangle(vm::ray<T, 3>(x, d), t1, t2, t3));
    const auto q = p.transform_c(vm::translation_matrix(x));
    o.put(q.distance);
    o.put(q.normal);
  }
  return o;
}
template <typename T> constexpr Tab<T> lines(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 20; ++i) {
    const auto o1 = g.sv<T, 3>(), o2 = g.sv<T, 3>(), o3 = g.sv<T, 3>();
    const auto d1 = g.dir<T>(), d2 = g.dir<T>(), d3 = g.dir<T>();
    const vm::line<T, 3> l(o1, d1);
    const vm::ray<T, 3> r(o2, d2), q(o3, d3);
    const auto x = g.sv<T, 3>(), y = g.sv<T, 3>();
    const vm::segment<T, 3> s(x, y);
    o.put(vm::point_at_distance(l, T(3)));
    o.put(vm::project_point(l, x));
    o.put(vm::distance_to_projected_point(l, x));
    o.put(l.make_canonical().point);
    o.put(l.make_canonical().direction);
    o.put(int(r.point_status(x)));
    o.put(s.start());
    o.put(s.end());
    o.put(s.center());
    o.put(s.squared_length());
    o.put(s.length_c());
    o.put(s.translate(y).start());
    o.put(vm::squared_distance(r, x).distance);
    o.put(vm::squared_distance(r, x).position);
    o.put(vm::squared_distance(r, q));
    o.put(vm::squared_distance(r, l));
    const auto m = vm::translation_matrix(y);
    o.put(l.transform_c(m).point);
    o.put(l.transform_c(m).direction);
    o.put(r.transform_c(m).origin);
    o.put(r.transform_c(m).direction);
  }
  return o;
}
template <typename T> constexpr Tab<T> quats(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 40; ++i) {
    const T r1 = g.small<T>(), r2 = g.small<T>();
    const auto v1 = g.sv<T, 3>(), v2 = g.sv<T, 3>();
    const vm::quat<T> a(r1, v1), b(r2, v2);
    const auto p = a * b;
    o.put(p.r);
    o.put(p.v);
    o.put((-a).v);
    o.put(a.conjugate().v);
    o.put((a * T(3)).r);
    o.put(a == b);
  }
  return o;
}

// the remaining operations of the headers that the compiler can evaluate
template <typename T> constexpr Tab<T> arrays(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 8; ++i) {
    const std::array<vec<T, 3>, 3> a{{g.sv<T, 3>(), g.sv<T, 3>(), g.sv<T, 3>()}};
    const std::array<vec<T, 4>, 2> b{{g.sv<T, 4>(), g.sv<T, 4>()}};
    const auto v = g.sv<T, 3>();
    const T f = g.num<T>();
    const auto m = g.m<T, 4>();
    const auto am = vm::translation_matrix(v) * vm::scaling_matrix(g.pv<T>());
    for (const auto& x : a + v) o.put(x);
    for (const auto& x : v + a) o.put(x);
    for (const auto& x : a * f) o.put(x);
    for (const auto& x : f * a) o.put(x);
    for (const auto& x : m * b) o.put(x);
    for (const auto& x : b * m) o.put(x);
    for (const auto& x : am * a) o.put(x);
    for (const auto& x : a * vm::transpose(am)) o.put(x);
    o.put(am * a[0]);
    o.put(a[0] * vm::transpose(am));
    o.put(vm::average(a.data(), a.data() + a.size()));
    o.put(vm::compare<T>(a.data(), a.data() + 3, a.data(), a.data() + 2));
    o.put(vm::compare<T>(a.data(), a.data() + 2, a.data() + 1, a.data() + 3, T(0.5)));
    vec<T, 3> pts[3];
    vec<T, 3>::get_vertices(a.data(), a.data() + 3, pts);
    o.put(pts[2]);
    const auto axis = size_t(g.below(3));
    o.put(vm::polygon_contains_point(v, vm::axis::type(axis), a.data(), a.data() + 3));
    const auto n = vm::cross(a[1] - a[0], a[2] - a[0]);
    if (vm::squared_length(n) > T(0)) {
      const vm::plane<T, 3> p(a[0], vm::normalize_c(n));
      const auto in = (a[0] + a[1] + a[2]) / T(3);
      const auto d = g.dir<T>();
      o.put(vm::polygon_contains_point(in, p.normal, a.data(), a.data() + 3));
      o.put(vm::intersect_ray_polygon(vm::ray<T, 3>(in + p.normal * T(3), -p.normal), p, a.data(), a.data() + 3));
      o.put(vm::intersect_ray_polygon(vm::ray<T, 3>(v, d), p, a.data(), a.data() + 3));
    }
  }
  return o;
}
template <typename T> constexpr Tab<T> approxes(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 24; ++i) {
    const T a = g.num<T>(), b = a + g.small<T>(), e = g.pos<T>();
    const vm::approx<T> x(a, e), y(a);
    o.put(b == x); o.put(x == b); o.put(b != x); o.put(x != b);
    o.put(b < x); o.put(x < b); o.put(b <= x); o.put(x <= b);
    o.put(b > x); o.put(x > b); o.put(b >= x); o.put(x >= b);
    o.put(b == y);
    const auto u = g.sv<T, 3>(), w = u + g.sv<T, 3>() / T(8);
    const vm::approx<vec<T, 3>> p(u, T(1)), q(u);
    o.put(w == p); o.put(p == w); o.put(w != p); o.put(p != w);
    o.put(w < p); o.put(p < w); o.put(w <= p); o.put(p <= w);
    o.put(w > p); o.put(p > w); o.put(w >= p); o.put(p >= w);
    o.put(w == q);
    const auto m = g.m<T, 2>(), k = m + g.m<T, 2>() * T(0.1);
    const vm::approx<mat<T, 2, 2>> z(m, T(0.3)), zz(m);
    o.put(k == z); o.put(z == k); o.put(k != z); o.put(z != k); o.put(k == zz);
    const vm::line<T, 3> l(u, g.dir<T>()), h(u + l.direction, l.direction);
    const vm::approx<vm::line<T, 3>> al(l, T(0.1)), all(l);
    o.put(h == al); o.put(al == h); o.put(h == all);
  }
  return o;
}
template <typename T> constexpr Tab<T> boxes2(uint64_t seed) {
  using box = vm::bbox<T, 3>;
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 10; ++i) {
    const auto a = g.sbox<T>(), b = g.sbox<T>();
    const auto p = g.sv<T, 3>();
    o.put(box());
    o.put(box(T(-2), g.pos<T>()));
    o.put(box(g.pos<T>()));
    o.put(box::is_valid(p, a.min));
    o.put(a != b);
    box broken;
    broken.min = a.max;
    broken.max = b.min;
    o.put(broken.is_valid());
    o.put(vm::repair(broken));
    typename box::builder bd;
    o.put(bd.initialized());
    bd.add(p);
    bd.add(a);
    const vec<T, 3> pts[3] = {b.min, b.max, p * T(2)};
    bd.add(pts, pts + 3);
    o.put(bd.initialized());
    o.put(bd.bounds());
    o.put(box::merge_all(pts, pts + 3));
    const typename box::Corner mi = box::Corner::min, ma = box::Corner::max;
    const typename box::Corner cs[3] = {g.below(2) ? mi : ma, g.below(2) ? mi : ma, g.below(2) ? mi : ma};
    o.put(a.corner(cs));
    o.put(a.corner(cs[2], cs[0], cs[1]));
    for (const auto r : a.relative_position(p)) o.put(int(r));
    o.put(a.transform(vm::translation_matrix(p) * vm::scaling_matrix(b.size())));
    for (const auto& x : a.vertices()) o.put(x);
    vec<T, 3> sum;
    a.for_each_vertex([&](const vec<T, 3>& x) { sum = sum + vm::abs(x) * x; });
    a.for_each_edge([&](const vec<T, 3>& x, const vec<T, 3>& y) { sum = sum + x * y; });
    a.for_each_face([&](const vec<T, 3>& x, const vec<T, 3>& y, const vec<T, 3>& z, const vec<T, 3>& w, const vec<T, 3>& n) { sum = sum + (x * y - z * w) * n; });
    o.put(sum);
    if (!a.is_empty()) {
      o.put(vm::scale_bbox_matrix(a, b));
      o.put(vm::scale_bbox_matrix_with_anchor(a, b.size(), p));
      const size_t k = size_t(g.below(3));
      o.put(vm::shear_bbox_matrix(a, vec<T, 3>::axis(k), vec<T, 3>::axis((k + 1) % 3) * g.small<T>()));
    }
    const vm::bbox<T, 2> c(vec<T, 2>(a.min[0], a.min[1]), vec<T, 2>(a.max[0], a.max[1]));
    o.put(c.center());
    o.put(c.volume());
    o.put(vm::merge(c, vec<T, 2>(p[0], p[1])).size());
    const vm::bbox<double, 3> cd(a);
    o.put(T(cd.max[2]));
  }
  return o;
}
template <typename T> constexpr Tab<T> matrices2(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  using m4 = mat<T, 4, 4>;
  o.put(m4()); o.put(m4::identity()); o.put(m4::zero()); o.put(m4::fill(T(3)));
  o.put(m4::rot_90_x_cw()); o.put(m4::rot_90_y_cw()); o.put(m4::rot_90_z_cw());
  o.put(m4::rot_90_x_ccw()); o.put(m4::rot_90_y_ccw()); o.put(m4::rot_90_z_ccw());
  o.put(m4::rot_180_x()); o.put(m4::rot_180_y()); o.put(m4::rot_180_z());
  o.put(m4::mirror_x()); o.put(m4::mirror_y()); o.put(m4::mirror_z());
  for (size_t k = 0; k < 3; ++k) o.put(vm::mirror_matrix<T>(vm::axis::type(k)));
  o.put(mat<T, 2, 3>(1, 2, 3, 4, 5, 6));
  o.put(mat<T, 2, 2>{T(1), T(2), T(3), T(4)});
  o.put(mat<T, 2, 2>(mat<double, 2, 2>(5, 6, 7, 8)));
  for (int i = 0; i < 5; ++i) {
    const auto a = g.m<T, 4>(), b = g.m<T, 4>();
    const auto c = g.m<T, 5>();
    o.put(+a); o.put(-a);
    o.put(g.small<T>() * a);
    o.put(a / g.pos<T>());
    o.put(a == b); o.put(a != b); o.put(vm::is_equal(a, b, T(4)));
    const size_t si = g.below(4), sj = g.below(4);
    o.put(vm::set(a, si, sj, T(9)));
    o.put(vm::compute_determinant(c));
    const mat<T, 1, 1> one{g.pos<T>()};
    o.put(vm::compute_determinant(one));
    const auto inv2 = vm::invert(g.m<T, 2>());
    o.put(std::get<0>(inv2));
    if (std::get<0>(inv2)) o.put(std::get<1>(inv2));
    const auto sol = vm::lup_solve(a, g.sv<T, 4>());
    o.put(std::get<0>(sol));
    if (std::get<0>(sol)) o.put(std::get<1>(sol));
    mat<T, 2, 3> n;
    for (size_t k = 0; k < 3; ++k) n[k] = g.sv<T, 2>();
    o.put(vm::transpose(n));
    o.put(n * g.sv<T, 3>());
    o.put(g.sv<T, 2>() * n);
    o.put(n * vm::transpose(n));
    const size_t e0 = g.below(2), e1 = g.below(3), l0 = g.below(2), l1 = g.below(2);
    o.put(vm::extract_minor(n, e0, e1));
    o.put(vm::slice<1, 2>(n, l0, l1));
    o.put(vm::translation_matrix(a));
    o.put(vm::translation_matrix(g.sv<T, 2>()));
    o.put(vm::ortho_matrix(T(1), T(1) + g.pos<T>(), T(-3), T(4), T(5), T(-6)));
    vm::quat<T> q(T(0), g.dir<T>());
    o.put(vm::rotation_matrix(q));
  }
  return o;
}
template <typename T> constexpr Tab<T> vectors3(uint64_t seed) {
  using v3 = vec<T, 3>;
  Gen g{seed};
  Tab<T> o;
  o.put(v3::pos_x()); o.put(v3::pos_y()); o.put(v3::pos_z());
  o.put(v3::neg_x()); o.put(v3::neg_y()); o.put(v3::neg_z());
  o.put(v3::zero()); o.put(v3::one()); o.put(v3::min()); o.put(v3::max()); o.put(v3::fill(T(7)));
  o.put(v3::nan()); o.put(v3::axis(1));
  using C = vm::constants<T>;
  o.put(C::almost_zero()); o.put(C::point_status_epsilon()); o.put(C::correct_epsilon()); o.put(C::colinear_epsilon());
  o.put(C::angle_epsilon()); o.put(C::pi()); o.put(C::two_pi()); o.put(C::half_pi()); o.put(C::quarter_pi());
  o.put(C::three_half_pi()); o.put(C::e());
  for (int i = 0; i < 12; ++i) {
    const auto a = g.v<T, 3>(), b = g.v<T, 3>(), p = g.pv<T>();
    const auto c = g.sv<T, 5>();
    o.put(+a);
    o.put(a / p);
    o.put(T(3) / p);
    o.put(vm::mod(a, p));
    o.put(vm::smoothstep(a, a + p, b));
    o.put(a <= b); o.put(a > b); o.put(a == a); o.put(a >= a);
    o.put(vm::compare(a, b, T(1)));
    o.put(vm::is_nan(a));
    o.put(vm::correct(a, 2));
    o.put(vm::correct(a[0], 3, T(0.01)));
    o.put(vm::round(vec<T, 2>(a[0], b[1])));
    o.put(a.x()); o.put(a.y()); o.put(a.z()); o.put(c.w());
    o.put(a.xz()); o.put(a.yz()); o.put(c.xyzw());
    o.put(vec<T, 4>(a, 2)); o.put(vec<T, 2>(a)); o.put(vec<T, 5>(vec<T, 2>(a), T(1), 2, 3.0));
    o.put(vm::distance_c(a, b));
    o.put(vm::is_parallel_c(a, a * T(2)));
    o.put(vm::is_parallel_c(a + p, b));
    const auto sa = g.sv<T, 3>(), sp = g.sv<T, 3>() + vec<T, 3>::fill(T(9));
    o.put(vm::is_between_c(sa, sa - sp, sa + sp));
    o.put(vm::is_between_c(sa - sp, sa, sa + sp));
    o.put(vm::normalize_c(c + vec<T, 5>::fill(T(9))));
    o.put(vm::find_max_component(c, 4));
    o.put(vm::get_abs_max_component(c, 3));
    o.put(vm::clamp(a[0]));
    o.put(vm::nan<T>());
    o.put(vm::identity{}(a));
    const vec<int, 2> n(int(g.below(9)) + 1, -3);
    o.put(int((n * 2)[0]));
    o.put(int(vm::dot(n, n)));
    o.put(int(vm::max(n, vec<int, 2>::fill(2))[1]));
    o.put(size_t(vm::succ(7u - unsigned(g.below(3)), 8u, 5u)));
    o.put(size_t(vm::pred(unsigned(g.below(3)), 8u, 5u)));
  }
  return o;
}
template <typename T> constexpr Tab<T> shapes(uint64_t seed) {
  Gen g{seed};
  Tab<T> o;
  for (int i = 0; i < 16; ++i) {
    const auto a = g.sv<T, 3>(), b = g.sv<T, 3>();
    const auto d = g.dir<T>(), e = g.dir<T>();
    const vm::plane<T, 3> p(g.small<T>(), d), dp;
    const vec<T, 2> ab(a[0], b[1]);
    if (vm::abs(d[0]) > T(0.01)) o.put(p.xAt(ab));
    if (vm::abs(d[1]) > T(0.01)) o.put(p.yAt(ab));
    if (vm::abs(d[2]) > T(0.01)) o.put(p.zAt(ab));
    o.put(dp.distance);
    o.put(p == dp); o.put(p != p); o.put(vm::is_equal(p, dp, T(1)));
    o.put(vm::plane<double, 3>(p).distance == double(p.distance));
    o.put(vm::horizontal_plane(a).distance); o.put(vm::horizontal_plane(a).normal);
    const auto h = vm::aligned_orthogonal_plane(a, d);
    o.put(h.distance); o.put(h.normal);
    o.put(int(p.point_status(a, T(1))));
    const vm::line<T, 3> l(a, d), dl;
    o.put(dl.point); o.put(l.get_origin()); o.put(l.get_direction());
    o.put(l == dl); o.put(l != l); o.put(vm::is_equal(l, vm::line<T, 3>(a + d, d), T(0.1)));
    o.put(vm::line<double, 3>(l).point == vec<double, 3>(a));
    const vm::ray<T, 3> r(b, e), dr;
    o.put(dr.origin); o.put(r.get_origin()); o.put(r.get_direction());
    o.put(r == dr); o.put(r != r); o.put(vm::is_equal(r, dr, T(1)));
    o.put(vm::ray<double, 3>(r).origin == vec<double, 3>(b));
    const vm::segment<T, 3> s(a, b), t(b, b + d);
    o.put(s.get_origin());
    const auto st = s.transform(vm::translation_matrix(d));
    o.put(st.start()); o.put(st.end());
    o.put(vm::translate(s, d).end());
    o.put(vm::compare(s, t)); o.put(vm::compare(s, t, T(2)));
    o.put(s == t); o.put(s != t); o.put(s < t); o.put(s <= t); o.put(s > t); o.put(s >= t);
    o.put(vm::is_equal(s, t, T(5)));
    o.put(vm::segment<double, 3>(s).start() == vec<double, 3>(s.start()));
    o.put(vm::squared_distance(r, vm::ray<T, 3>(a, e)));
    o.put(vm::squared_distance(r, vm::line<T, 3>(a, e)).is_colinear());
    o.put(vm::squared_distance(r, vm::line<T, 3>(b + e, e)).is_colinear(T(0.5)));
    o.put(vm::line_distance<T>::Parallel(T(1), T(2), T(3)));
    o.put(vm::line_distance<T>::NonParallel(T(1), T(2), T(3)));
    o.put(vm::point_at_distance(r, T(2))); o.put(vm::project_point(r, a)); o.put(vm::distance_to_projected_point(r, a));
    const vm::quat<T> q(T(0), d), w(g.small<T>(), a), dq;
    o.put(dq.r); o.put(q * b); o.put((+w).v); o.put((T(2) * w).v);
    o.put(vm::is_equal(q, w, T(1))); o.put(q != w);
    o.put(T(vm::quat<double>(w).r));
  }
  return o;
}

template <typename T> void compare(const char* what, const Tab<T>& ct, const Tab<T>& rt) {
  CHK(ct.n == rt.n, "length of the table", what << " " << ct.n << " " << rt.n);
  for (size_t i = 0; i < std::min(ct.n, rt.n); ++i) {
    // a last bit of leeway for compilers that contract or reassociate at run time
    CHK(ulps<T>(rt.v[i], L(ct.v[i]), 4), "compile time and run time differ", what << " entry " << i << ": " << ct.v[i] << " at compile time, " << rt.v[i] << " at run time");
  }
  OBS(what);
}

#ifdef C03_NO_TABLES
#define FAMILY(f)
#else
#define FAMILY(f)                                                                                  \
  template <typename T> void run_##f(Rng&) {                                                       \
    static constexpr auto ct = f<T>(C03_SEED);                                                     \
    volatile uint64_t seed = C03_SEED;                                                             \
    const auto rt = f<T>(seed);                                                                    \
    compare(#f, ct, rt);                                                                           \
  }                                                                                                \
  static Reg reg_d_##f("table " #f "<double>", 1, run_##f<double>);                                \
  static Reg reg_f_##f("table " #f "<float>", 1, run_##f<float>);
#endif
FAMILY(scalars)
FAMILY(rounding)
FAMILY(vectors)
FAMILY(vectors2)
FAMILY(matrices)
FAMILY(boxes)
FAMILY(planes)
FAMILY(lines)
FAMILY(quats)
FAMILY(arrays)
FAMILY(approxes)
FAMILY(boxes2)
FAMILY(matrices2)
FAMILY(vectors3)
FAMILY(shapes)

// ---------------------------------------------------------------- twins
template <typename T> void sqrt_twin(Rng& g) {
  const T v = g.wild<T>();
  const T c = vm::sqrt_c(v), r = vm::sqrt(v);
  if (std::isnan(v) || std::isinf(v) || v < T(0)) {
    CHK(same<T>(c, r), "sqrt_c special", v << " " << c << " " << r);
  } else {
    CHK(ulps<T>(c, L(r), 4), "sqrt_c", v << " " << c << " " << r);
  }
}
MON_GROUP_T(sqrt_twin, 200000, double)
MON_GROUP_T(sqrt_twin, 200000, float)

template <typename T, size_t S> vec<T, S> scaled(Rng& g) {
  vec<T, S> v;
  const double m = std::fabs(g.logreal(std::is_same<T, float>::value ? 1e-15 : 1e-100, std::is_same<T, float>::value ? 1e15 : 1e100));
  for (size_t i = 0; i < S; ++i) v[i] = g.below(5) == 0 ? T(0) : T(m * g.real(-1, 1));
  return v;
}
template <typename T, size_t S> void vec_twins(Rng& g) {
  const auto a = g.below(2) ? scaled<T, S>(g) : nvec<T, S>(g);
  auto b = g.below(2) ? scaled<T, S>(g) : nvec<T, S>(g);
  if (g.below(4) == 0) b = a * T(g.irange(-3, 3)) + nvec<T, S>(g) * T(1e-3);
  CHK(ulps<T>(vm::length_c(a), L(vm::length(a)), 4), "length_c", P(a) << vm::length_c(a) << " " << vm::length(a));
  CHK(ulps<T>(vm::distance_c(a, b), L(vm::distance(a, b)), 4), "distance_c", P(a) << P(b) << vm::distance_c(a, b) << " " << vm::distance(a, b));
  if (vm::squared_length(a) > T(0)) {
    const auto n = vm::normalize(a), nc = vm::normalize_c(a);
    for (size_t i = 0; i < S; ++i) CHK(ulps<T>(nc[i], L(n[i]), 8), "normalize_c", P(a) << P(n) << P(nc));
    // the predicates may differ when the decision is within rounding of the limit
    const T eps = T(g.pick(std::array<double, 4>{1e-1, 1e-2, 1e-3, 0.3}));
    const L len = std::fabs(L(vm::length(a)) - 1);
    if (std::fabs(len - L(eps)) > 1e-4L * (1 + L(vm::length(a)))) {
      CHK(vm::is_unit_c(a, eps) == vm::is_unit(a, eps), "is_unit_c", P(a) << eps);
    }
    const auto u = uvec<T, S>(g);
    const vec<T, S> x = u * (T(1) + eps * T(g.real(-2, 2)));
    if (std::fabs(std::fabs(L(vm::length(x)) - 1) - L(eps)) > 1e-4L) {
      CHK(vm::is_unit_c(x, eps) == vm::is_unit(x, eps), "is_unit_c near", P(x) << eps);
      OBS("is_unit near the limit");
    }
    if (vm::squared_length(b) > T(0)) {
      const L cosv = L(vm::dot(n, vm::normalize(b)));
      const T ee = T(g.pick(std::array<double, 3>{1e-3, 1e-2, 0.3}));
      if (std::fabs((1 - std::fabs(cosv)) - L(ee)) > 1e-4L) {
        CHK(vm::is_parallel_c(a, b, ee) == vm::is_parallel(a, b, ee), "is_parallel_c", P(a) << P(b) << ee);
        if (1 - std::fabs(cosv) < L(ee)) OBS("parallel");
      }
    }
  }
}
MON_GROUP_T(vec_twins, 60000, double, 3)
MON_GROUP_T(vec_twins, 30000, float, 3)
MON_GROUP_T(vec_twins, 20000, double, 2)
MON_GROUP_T(vec_twins, 20000, double, 1)
MON_GROUP_T(vec_twins, 20000, float, 4)
MON_GROUP_T(vec_twins, 10000, float, 2)
MON_GROUP_T(vec_twins, 10000, float, 1)
MON_GROUP_T(vec_twins, 10000, double, 4)
MON_GROUP_T(vec_twins, 10000, double, 6)
MON_GROUP_T(vec_twins, 10000, float, 7)

template <typename T, size_t S> void between_twins(Rng& g) {
  // points on the carrying line at a multiple of 1/8: both decide alike except at the ends
  auto a = ivec<T, S>(g, 20);
  auto d = ivec<T, S>(g, 6);
  if (vm::squared_length(d) == T(0)) d[0] = T(1);
  if (g.below(3) == 0) { // any size, exactly scaled
    const T f = std::ldexp(T(1), std::is_same<T, float>::value ? -int(g.irange(0, 40)) : -int(g.irange(0, 300)));
    a = a * f;
    d = d * f;
  }
  const long k = g.irange(-8, 16);
  if (k == 0 || k == 8) return;
  const auto e = a + d * T(8);
  const auto p = a + d * T(k);
  CHK(vm::is_between_c(p, a, e) == vm::is_between(p, a, e), "is_between_c", P(p) << P(a) << P(e));
  OBS(k > 0 && k < 8 ? "inside" : "outside");
}
MON_GROUP_T(between_twins, 30000, double, 3)
MON_GROUP_T(between_twins, 30000, float, 3)
MON_GROUP_T(between_twins, 20000, double, 2)
MON_GROUP_T(between_twins, 10000, float, 2)
MON_GROUP_T(between_twins, 10000, double, 1)
MON_GROUP_T(between_twins, 10000, double, 5)

template <typename T> void transform_twins(Rng& g) {
  // an invertible affine transformation that is not too flat
  mat<T, 4, 4> m;
  for (;;) {
    for (size_t c = 0; c < 3; ++c)
      for (size_t r = 0; r < 3; ++r) m[c][r] = g.coord<T>(4.0);
    for (size_t r = 0; r < 3; ++r) m[3][r] = g.coord<T>(20.0);
    m[3][3] = T(1);
    const auto det = vm::compute_determinant(m);
    if (std::fabs(double(det)) > 2.0) break;
  }
  const auto o = nvec<T, 3>(g), d = uvec<T, 3>(g);
  const L tol = 1e4L * eps<T>();
  const auto nearv = [&](const vec<T, 3>& x, const vec<T, 3>& y, L t) {
    for (size_t i = 0; i < 3; ++i)
      if (!near(x[i], y[i], t)) return false;
    return true;
  };
  const vm::line<T, 3> l(o, d);
  const auto l1 = l.transform(m), l2 = l.transform_c(m);
  const L sc = 1 + L(vm::length(l1.point)) + L(vm::length(o)) * 20;
  CHK(nearv(l1.point, l2.point, tol * sc) && nearv(l1.direction, l2.direction, tol), "line transform_c", P(l1) << P(l2));
  const vm::ray<T, 3> r(o, d);
  const auto r1 = r.transform(m), r2 = r.transform_c(m);
  CHK(nearv(r1.origin, r2.origin, tol * sc) && nearv(r1.direction, r2.direction, tol), "ray transform_c", P(r1) << P(r2));
  const vm::plane<T, 3> p(o, d);
  const auto p1 = p.transform(m), p2 = p.transform_c(m);
  const L cond = 300;
  CHK(near(p1.distance, p2.distance, tol * sc * cond) && nearv(p1.normal, p2.normal, tol * cond), "plane transform_c", P(p1) << P(p2));
  const vm::segment<T, 3> s(o, o + d * T(g.real(0, 9)));
  CHK(ulps<T>(s.length_c(), L(s.length()), 4), "segment length_c", P(s) << s.length_c() << " " << s.length());
}
MON_GROUP_T(transform_twins, 40000, double)
MON_GROUP_T(transform_twins, 20000, float)
} // namespace
MON_MAIN("C03")
