// Table of the public operations of the library: each entry draws its arguments from a source, calls
// one operation and appends the results to a digest. Used by the sanitizer (C01) and the purity and
// thread monitors (C02), which do not judge the values, only how they come about.
#pragma once
#include "gen.h"

#include <vecmath/bbox_io.h>
#include <vecmath/line_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray_io.h>
#include <vecmath/vec_io.h>

#include <list>
#include <memory>
#include <optional>
#include <string_view>
#include <tuple>

namespace ops {
using mon::Rng;
using vm::mat;
using vm::vec;

// ---------------------------------------------------------------- digests
struct Out {
  uint64_t h = 0x12345;
  uint64_t values = 0;
  bool mutated = false;
  bool longer = false; // the arguments include long lists
  bool contract = false;
  void word(uint64_t w) {
    h = mon::mix64(h ^ w) * 0x9e3779b97f4a7c15ull + 1;
    ++values;
  }
};
inline void put(Out& o, bool v) { o.word(v); }
template <typename T> std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value> put(Out& o, T v) { o.word(uint64_t(v)); }
template <typename T> std::enable_if_t<std::is_floating_point<T>::value> put(Out& o, T v) {
  if (v != v) {
    o.word(0x7ff8dead);
    return;
  }
  uint64_t w = 0;
  std::memcpy(&w, &v, sizeof(T));
  o.word(w);
}
inline void put(Out& o, const std::string& s) {
  o.word(s.size());
  for (const char c : s) o.word(uint64_t((unsigned char)c));
}
template <typename T, size_t S> void put(Out& o, const vec<T, S>& v) {
  for (size_t i = 0; i < S; ++i) put(o, v.v[i]);
}
template <typename T, size_t R, size_t C> void put(Out& o, const mat<T, R, C>& m) {
  for (size_t c = 0; c < C; ++c) put(o, m.v[c]);
}
template <typename T> void put(Out& o, const vm::quat<T>& q) {
  put(o, q.r);
  put(o, q.v);
}
template <typename T, size_t S> void put(Out& o, const vm::plane<T, S>& p) {
  put(o, p.distance);
  put(o, p.normal);
}
template <typename T, size_t S> void put(Out& o, const vm::line<T, S>& p) {
  put(o, p.point);
  put(o, p.direction);
}
template <typename T, size_t S> void put(Out& o, const vm::ray<T, S>& p) {
  put(o, p.origin);
  put(o, p.direction);
}
template <typename T, size_t S> void put(Out& o, const vm::segment<T, S>& p) {
  put(o, p.start());
  put(o, p.end());
}
template <typename T, size_t S> void put(Out& o, const vm::bbox<T, S>& p) {
  put(o, p.min);
  put(o, p.max);
}
template <typename T> void put(Out& o, const vm::point_distance<T>& p) {
  put(o, p.position);
  put(o, p.distance);
}
template <typename T> void put(Out& o, const vm::line_distance<T>& p) {
  put(o, p.parallel);
  put(o, p.position1);
  put(o, p.distance);
  put(o, p.position2);
}
template <typename T> void put(Out& o, const std::vector<T>& v);
template <typename T, size_t N> void put(Out& o, const std::array<T, N>& v) {
  for (const auto& x : v) put(o, x);
}
template <typename T, size_t S> void put(Out& o, const vm::polygon<T, S>& p) { put(o, p.vertices()); }
template <typename T> void put(Out& o, const std::optional<T>& v) {
  put(o, v.has_value());
  if (v) put(o, *v);
}
template <typename... A> void put(Out& o, const std::tuple<A...>& t) {
  std::apply([&](const auto&... x) { (put(o, x), ...); }, t);
}
template <typename T> void put(Out& o, const std::vector<T>& v) {
  o.word(v.size());
  for (const auto& x : v) put(o, x);
}
template <typename... A> uint64_t digest(const A&... a) {
  Out o;
  (put(o, a), ...);
  return o.h;
}

// ---------------------------------------------------------------- arguments
// objects shared by all threads; const after construction
struct Shared {
  std::vector<std::vector<vec<double, 3>>> points3d;
  std::vector<std::vector<vec<float, 3>>> points3f;
  std::vector<vm::polygon<double, 3>> polys;
  std::vector<std::string> texts;
  std::vector<vec<double, 3>> vecs;
  std::vector<mat<double, 4, 4>> mats;
  std::vector<vm::quat<double>> quats;
  std::vector<vm::bbox<double, 3>> boxes;
  std::vector<vm::plane<double, 3>> planes;
  std::vector<vm::line<double, 3>> lines;
  std::vector<vm::ray<double, 3>> rays;
  std::vector<vm::segment<double, 3>> segments;
};
struct Src {
  Rng g;
  int mode; // 0: ordinary numbers, 1: few distinct numbers, 2: any value of the type, 3: long lists
  bool long_ = false; // a long list was drawn
  const Shared* shared;
  int flip; // index + 100 * style: the draw that is replaced by another value (0), moved a little (1) or by
            // the least possible amount (2), or negated (3): arguments that differ in one component only
  int drawn = 0;
  Rng g2;
  Src(uint64_t seed, int m, const Shared* sh, int f = -1)
    : g(seed)
    , mode(m)
    , shared(sh)
    , flip(f)
    , g2(seed ^ 0x5a5a5a) {}
  bool flipped() { return flip >= 0 && drawn++ == flip % 100; }
  template <typename T> T num() {
    const T r = num_from<T>(g);
    if (flipped()) {
      if constexpr (std::is_floating_point<T>::value) {
        if (flip / 100 == 1) return r + T(std::pow(10.0, double(g2.irange(-9, -2)))) * T(g2.below(2) ? 1 : -1);
        if (flip / 100 == 2) return std::nextafter(r, g2.below(2) ? T(1e30) : T(-1e30));
        if (flip / 100 == 3) return -r;
      }
      T q = r;
      for (int i = 0; i < 20 && (q == r || q != q); ++i) q = num_from<T>(g2);
      return q;
    }
    return r;
  }
  template <typename T> T num_from(Rng& g) {
    if constexpr (std::is_integral<T>::value) {
      return T(g.irange(0, 7));
    } else {
      if (mode == 2) return g.wild<T>();
      if (mode == 1) {
        const T few[] = {T(0), T(1), T(-1), T(2), T(0.5), T(1), T(3), T(-2)};
        return g.pick(few);
      }
      return g.nice<T>();
    }
  }
  template <typename T, size_t S> vec<T, S> v() {
    vec<T, S> r;
    for (size_t i = 0; i < S; ++i) r.v[i] = num<T>();
    return r;
  }
  template <typename T, size_t S> vec<T, S> pos() {
    auto r = v<T, S>();
    for (size_t i = 0; i < S; ++i) r.v[i] = r.v[i] < T(0) ? -r.v[i] : r.v[i] == T(0) ? T(1) : r.v[i];
    return r;
  }
  template <typename T, size_t S> vec<T, S> u() {
    if (mode == 2 && g.below(2)) return v<T, S>();
    auto r = mon::uvec<T, S>(g);
    if (flipped()) {
      if (flip / 100 == 0) return mon::uvec<T, S>(g2);
      if (flip / 100 == 3) {
        for (size_t i = 0; i < S; ++i) r.v[i] = -r.v[i];
        return r;
      }
      auto l = mon::lv(r);
      l[g2.below(S)] += flip / 100 == 1 ? std::pow(10.0L, mon::L(g2.irange(-9, -2))) : mon::eps<T>();
      return mon::tov<T>(mon::lnorm(l));
    }
    return r;
  }
  template <typename T, size_t R, size_t C> mat<T, R, C> m() {
    mat<T, R, C> r;
    for (size_t c = 0; c < C; ++c) r.v[c] = v<T, R>();
    if constexpr (R == C) {
      if (g.below(3) == 0) {
        for (size_t c = 0; c < C; ++c)
          for (size_t k = 0; k < R; ++k) r.v[c].v[k] = T(c == k);
        r.v[g.below(C)].v[g.below(R)] = num<T>();
      }
    }
    return r;
  }
  template <typename T, size_t S> vm::bbox<T, S> box() {
    vm::bbox<T, S> b;
    const auto p = v<T, S>(), q = v<T, S>();
    for (size_t i = 0; i < S; ++i) {
      b.min.v[i] = p.v[i] < q.v[i] ? p.v[i] : q.v[i];
      b.max.v[i] = p.v[i] < q.v[i] ? q.v[i] : p.v[i];
    }
    return b;
  }
  template <typename T, size_t S> vm::ray<T, S> ray() { return vm::ray<T, S>(v<T, S>(), u<T, S>()); }
  template <typename T, size_t S> vm::line<T, S> line() { return vm::line<T, S>(v<T, S>(), u<T, S>()); }
  template <typename T, size_t S> vm::segment<T, S> seg() { return vm::segment<T, S>(v<T, S>(), v<T, S>()); }
  template <typename T, size_t S> vm::plane<T, S> plane() { return vm::plane<T, S>(num<T>(), u<T, S>()); }
  template <typename T> vm::quat<T> quat() {
    vm::quat<T> q;
    q.r = num<T>();
    q.v = v<T, 3>();
    return q;
  }
  size_t length(size_t lo, size_t hi) {
    if (mode != 3 || hi <= lo) return size_t(g.irange(long(lo), long(hi)));
    long_ = true;
    return hi + size_t(std::fabs(g.logreal(1, 800)));
  }
  template <typename T, size_t S> std::vector<vec<T, S>> list(size_t lo, size_t hi) {
    std::vector<vec<T, S>> r;
    const size_t n = length(lo, hi);
    r.reserve(n); // exact size: the sanitizer sees every access behind the last element
    for (size_t i = 0; i < n; ++i) r.push_back(v<T, S>());
    return r;
  }
  // finite coplanar points, on a small integer grid
  template <typename T> std::vector<vec<T, 3>> flat(size_t lo, size_t hi) {
    std::vector<vec<T, 3>> r;
    const size_t n = length(lo, hi);
    r.reserve(n);
    const bool bow = mode == 3 && g.below(4) != 0; // every point is a corner
    const long most = sizeof(T) == 4 ? 40 : 1000;
    const auto o = mon::ivec<T, 3>(g, 8), a = mon::ivec<T, 3>(g, 2), b = mon::ivec<T, 3>(g, 2);
    for (size_t i = 0; i < n; ++i) {
      T s = T(g.irange(-4, 4));
      T t = T(g.irange(-4, 4));
      if (bow) {
        const long k = g.below(8) ? long(i) / 2 % most : g.irange(0, most);
        s = T(i % 2 ? k : -k);
        t = s * s;
      }
      if (flipped()) s = T(g2.irange(-4, 4));
      vec<T, 3> p;
      for (size_t k = 0; k < 3; ++k) p.v[k] = o.v[k] + s * a.v[k] + t * b.v[k];
      r.push_back(p);
    }
    return r;
  }
  size_t below(size_t n) {
    const size_t r = g.below(n);
    return flipped() ? g2.below(n) : r;
  }
  std::string text() {
    static const char* const parts[] = {"1", "-2.5", "3e2", " ", " ", "(", ")", "\t", ",", ";", ".5", "nan", "inf", "-", "e", "+7", "0x1", "99999999999999999999", "1e999", "\n", "abc", "-0"};
    std::string s;
    const size_t n = mode == 3 ? length(0, 24) : g.below(24);
    for (size_t i = 0; i < n; ++i) {
      const char* p = g.pick(parts);
      s += flipped() ? g2.pick(parts) : p;
      if (g.below(2)) s += " ";
    }
    return s;
  }
};
// text in a heap block without terminator
struct Block {
  std::unique_ptr<char[]> mem;
  size_t n;
  explicit Block(const std::string& s)
    : mem(new char[s.empty() ? 1 : s.size()])
    , n(s.size()) {
    std::memcpy(mem.get(), s.data(), n);
  }
  std::string_view view() const { return std::string_view(mem.get(), n); }
};
inline void put(Out& o, const Block& b) { put(o, std::string(b.view())); }

// ---------------------------------------------------------------- the table
struct Op {
  std::string name;
  void (*fn)(Src&, Out&);
};
struct Table {
  std::vector<Op> ops;
  std::string suffix;
  void add(const char* n, void (*fn)(Src&, Out&)) { ops.push_back({std::string(n) + suffix, fn}); }
};

#define OPS_ARGS1(A) const auto a = A;
#define OP0(N, E) t.add(N, [](Src& s, Out& o) { (void)s; put(o, (E)); });
#define OP1(N, A, E)                                                                               \
  t.add(N, [](Src& s, Out& o) {                                                                    \
    const auto a = A;                                                                              \
    const auto h = digest(a);                                                                      \
    put(o, (E));                                                                                   \
    o.mutated = o.mutated || h != digest(a);                                                       \
  });
#define OP2(N, A, B, E)                                                                            \
  t.add(N, [](Src& s, Out& o) {                                                                    \
    const auto a = A;                                                                              \
    const auto b = B;                                                                              \
    const auto h = digest(a, b);                                                                   \
    put(o, (E));                                                                                   \
    o.mutated = o.mutated || h != digest(a, b);                                                    \
  });
#define OP3(N, A, B, C, E)                                                                         \
  t.add(N, [](Src& s, Out& o) {                                                                    \
    const auto a = A;                                                                              \
    const auto b = B;                                                                              \
    const auto c = C;                                                                              \
    const auto h = digest(a, b, c);                                                                \
    put(o, (E));                                                                                   \
    o.mutated = o.mutated || h != digest(a, b, c);                                                 \
  });
#define OP4(N, A, B, C, D, E)                                                                      \
  t.add(N, [](Src& s, Out& o) {                                                                    \
    const auto a = A;                                                                              \
    const auto b = B;                                                                              \
    const auto c = C;                                                                              \
    const auto d = D;                                                                              \
    const auto h = digest(a, b, c, d);                                                             \
    put(o, (E));                                                                                   \
    o.mutated = o.mutated || h != digest(a, b, c, d);                                              \
  });

#define NUM s.template num<T>()
#define VEC (s.template v<T, S>())
#define V3 (s.template v<T, 3>())
#define U3 (s.template u<T, 3>())
#define M4 (s.template m<T, 4, 4>())
#define LIST3 (s.template list<T, 3>(0, 9))

template <typename T> void scalar_ops(Table& t) {
  OP1("is_nan", NUM, vm::is_nan(a))
  OP1("is_inf", NUM, vm::is_inf(a))
  OP1("abs", NUM, vm::abs(a))
  OP3("min", NUM, NUM, NUM, std::make_tuple(vm::min(a, b), vm::min(a, b, c), vm::min(a, b, c, a)))
  OP3("max", NUM, NUM, NUM, std::make_tuple(vm::max(a, b), vm::max(a, b, c), vm::max(a, b, c, a)))
  OP3("abs_min", NUM, NUM, NUM, std::make_tuple(vm::abs_min(a, b), vm::abs_min(a, b, c)))
  OP3("abs_max", NUM, NUM, NUM, std::make_tuple(vm::abs_max(a, b), vm::abs_max(a, b, c)))
  OP3("safe_min", NUM, NUM, NUM, std::make_tuple(vm::safe_min(a), vm::safe_min(a, b), vm::safe_min(a, b, c)))
  OP3("safe_max", NUM, NUM, NUM, std::make_tuple(vm::safe_max(a), vm::safe_max(a, b), vm::safe_max(a, b, c)))
  OP2("abs_difference", NUM, NUM, vm::abs_difference(a, b))
  OP3("clamp", NUM, NUM, NUM, std::make_tuple(vm::clamp(a), vm::clamp(a, b, c)))
  OP1("sign", NUM, vm::sign(a))
  OP2("step", NUM, NUM, vm::step(a, b))
  OP3("smoothstep", NUM, NUM, NUM, vm::smoothstep(a, b, c))
  OP1("trunc", NUM, vm::trunc(a))
  OP2("mod", NUM, NUM, vm::mod(a, b))
  OP1("floor", NUM, vm::floor(a))
  OP1("ceil", NUM, vm::ceil(a))
  OP3("mix", NUM, NUM, NUM, vm::mix(a, b, c))
  OP1("fract", NUM, vm::fract(a))
  OP1("round", NUM, vm::round(a))
  OP1("round_up", NUM, vm::round_up(a))
  OP1("round_down", NUM, vm::round_down(a))
  OP2("snap", NUM, NUM, vm::snap(a, b))
  OP2("snapUp", NUM, (s.template pos<T, 1>()), vm::snapUp(a, b.v[0]))
  OP2("snapDown", NUM, (s.template pos<T, 1>()), vm::snapDown(a, b.v[0]))
  OP2("correct", NUM, s.below(8), std::make_tuple(vm::correct(a), vm::correct(a, b)))
  OP3("is_equal", NUM, NUM, NUM, vm::is_equal(a, b, c))
  OP2("is_zero", NUM, NUM, vm::is_zero(a, b))
  OP3("contains", NUM, NUM, NUM, vm::contains(a, b, c))
  OP1("to_radians", NUM, vm::to_radians(a))
  OP1("to_degrees", NUM, vm::to_degrees(a))
  OP1("normalize_radians", NUM, vm::normalize_radians(a))
  OP1("normalize_degrees", NUM, vm::normalize_degrees(a))
  OP1("nextgreater", NUM, vm::nextgreater(a))
  OP1("sqrt", NUM, vm::sqrt(a))
  OP1("sqrt_c", NUM, vm::sqrt_c(a))
  OP4("solve_quadratic", NUM, NUM, NUM, NUM, vm::solve_quadratic(a == T(0) ? T(1) : a, b, c, vm::abs(d)))
  OP4("solve_cubic", NUM, NUM, NUM, NUM, vm::solve_cubic(a == T(0) ? T(1) : a, b, c, d, T(1e-4)))
  OP4("solve_quartic", NUM, NUM, NUM, V3, vm::solve_quartic(a == T(0) ? T(1) : a, b, c, d.v[0], d.v[1], T(1e-4)))
  OP0("nan", vm::nan<T>())
}
template <typename T, size_t S> void int_ops(Table& t) {
  OP3("arithmetic", VEC, VEC, VEC, std::make_tuple(a + b, a * b, vm::min(a, b, c), vm::max(a, b, c), vm::dot(a, b), vm::compare(a, b), a == b, a < b))
  OP2("division", VEC, (s.template pos<T, S>()), std::make_tuple(a / b, a / b.v[0], a * b.v[0], b.v[0] * a))
  OP3("scalar", NUM, NUM, NUM, std::make_tuple(vm::abs_difference(a, b), vm::min(a, b, c), vm::max(a, b, c), vm::clamp(a, b, c), vm::contains(a, b, c)))
  OP1("convert", VEC, std::make_tuple(vec<double, S>(a), vec<long, S>(a), vec<float, S>(a), vec<T, S + 1>(a, T(1))))
  OP1("parse", Block("7 " + std::to_string(s.below(1000)) + " 12 4"), (vm::parse<T, S>(a.view())))
}
template <typename T, size_t R, size_t C> void rect_ops(Table& t) {
#define MRC (s.template m<T, R, C>())
  OP2("arithmetic", MRC, MRC, std::make_tuple(+a, -a, a + b, a - b, vm::compare(a, b), a == b, a * vm::transpose(b), vm::transpose(a) * b))
  OP3("apply", MRC, (s.template v<T, C>()), (s.template v<T, R>()), std::make_tuple(a * b, c * a))
  OP3("lists", MRC, (s.template list<T, C>(0, 7)), (s.template list<T, R>(0, 7)), std::make_tuple(a * b, b.empty() ? b : b, c * a))
  OP3("minor", MRC, s.below(R), s.below(C), std::make_tuple(vm::extract_minor(a, b, c), vm::slice<R - 1, C - 1>(a, 1, 0), vm::set(a, b, c, T(7))))
  OP1("parse", Block(s.text() + s.text()), (vm::parse<T, R, C>(a.view())))
  OP1("print", MRC, ([](const auto& x) {
    std::ostringstream str;
    str << x;
    return str.str();
  }(a)))
}
inline void index_ops(Table& t) {
  OP3("succ", s.below(9), s.below(9) + 1, s.below(20), vm::succ(a % b, b, c))
  OP3("pred", s.below(9), s.below(9) + 1, s.below(20), vm::pred(a % b, b, c))
  OP3("succ int", int(s.below(9)), int(s.below(9)) + 1, int(s.below(20)), vm::succ(a % b, b, c))
  OP3("pred int", int(s.below(9)), int(s.below(9)) + 1, int(s.below(20)), vm::pred(a % b, b, c))
}

template <typename T, size_t S> void vec_ops(Table& t) {
  OP2("compare", VEC, VEC, std::make_tuple(vm::compare(a, b), a == b, a != b, a < b, a <= b, a > b, a >= b))
  OP3("is_equal", VEC, VEC, NUM, std::make_tuple(vm::is_equal(a, b, c), vm::compare(a, b, c)))
  OP1("axes", VEC, std::make_tuple(vec<T, S>::zero(), vec<T, S>::one(), vec<T, S>::fill(a.v[0]), vec<T, S>::nan(), vec<T, S>::axis(S - 1)))
  OP2("fill", NUM, s.below(S), std::make_tuple(vec<T, S>::fill(a), vec<T, S>::axis(b)))
  OP1("convert", VEC, std::make_tuple(vec<float, S>(a), vec<double, S>(a), vec<T, S + 1>(a), vec<T, S + 1>(a, T(1))))
  OP2("find_max_component", VEC, s.below(S), std::make_tuple(vm::find_max_component(a, b), vm::get_max_component(a, b)))
  OP2("find_abs_max_component", VEC, s.below(S), std::make_tuple(vm::find_abs_max_component(a, b), vm::get_abs_max_component(a, b), vm::get_abs_max_component_axis(a, b)))
  OP2("arithmetic", VEC, VEC, std::make_tuple(+a, -a, a + b, a - b, a * b, a / b))
  OP2("scale", VEC, NUM, std::make_tuple(a * b, b * a, a / b, b / a))
  OP3("min", VEC, VEC, VEC, std::make_tuple(vm::min(a, b), vm::min(a, b, c), vm::max(a, b), vm::max(a, b, c)))
  OP3("abs_min", VEC, VEC, VEC, std::make_tuple(vm::abs_min(a, b), vm::abs_min(a, b, c), vm::abs_max(a, b), vm::abs_max(a, b, c)))
  OP3("clamp", VEC, VEC, VEC, vm::clamp(a, b, c))
  OP2("abs", VEC, VEC, std::make_tuple(vm::abs(a), vm::sign(a), vm::step(a, b)))
  OP3("smoothstep", VEC, VEC, VEC, std::make_tuple(vm::smoothstep(a, b, c), vm::mix(a, b, c)))
  OP2("dot", VEC, VEC, vm::dot(a, b))
  OP1("length", VEC, std::make_tuple(vm::squared_length(a), vm::length(a)))
  OP1("length_c", VEC, vm::length_c(a))
  OP1("normalize", VEC, vm::normalize(a))
  OP1("normalize_c", VEC, vm::normalize_c(a))
  OP2("is_unit", VEC, NUM, std::make_tuple(vm::is_unit(a, b), vm::is_zero(a, b), vm::is_nan(a), vm::is_integral(a, b)))
  OP2("fract", VEC, VEC, std::make_tuple(vm::fract(a), vm::mod(a, b)))
  OP2("distance", VEC, VEC, std::make_tuple(vm::distance(a, b), vm::squared_distance(a, b)))
  OP2("distance_c", VEC, VEC, vm::distance_c(a, b))
  OP1("homogeneous", VEC, vm::to_homogeneous_coords(a))
  OP3("is_colinear", VEC, VEC, VEC, vm::is_colinear(a, b, c))
  OP2("is_parallel", VEC, VEC, std::make_tuple(vm::is_parallel(a, b), vm::is_parallel_c(a, b)))
  OP1("rounding", VEC, std::make_tuple(vm::floor(a), vm::ceil(a), vm::trunc(a), vm::round(a)))
  OP2("snap", VEC, (s.template pos<T, S>()), std::make_tuple(vm::snap(a, b), vm::snapUp(a, b), vm::snapDown(a, b)))
  OP2("correct", VEC, s.below(6), std::make_tuple(vm::correct(a), vm::correct(a, b)))
  OP2("is_between", VEC, VEC, vm::is_between(a, a, b))
  OP1("average", (s.template list<T, S>(1, 9)), vm::average(a.begin(), a.end()))
  OP2("compare sequences", (s.template list<T, S>(0, 5)), (s.template list<T, S>(0, 5)), vm::compare(a.begin(), a.end(), b.begin(), b.end(), T(0)))
  OP2("list arithmetic", (s.template list<T, S>(0, 9)), VEC, std::make_tuple(a + b, b + a, a * b.v[0], b.v[0] * a))
  OP1("print", VEC, ([](const auto& x) {
    std::ostringstream str;
    str << x;
    return str.str();
  }(a)))
  OP1("parse", Block(s.text()), (vm::parse<T, S>(a.view())))
  OP1("parse_all", Block(s.text()), ([](const auto& x) {
    std::vector<vec<T, S>> r;
    vm::parse_all<T, S>(x.view(), std::back_inserter(r));
    return r;
  }(a)))
}
template <typename T> void vec3_ops(Table& t) {
  OP0("default objects compare", std::make_tuple(vm::line<T, 3>() == vm::line<T, 3>(), vm::line<T, 2>().make_canonical(), vm::ray<T, 3>() == vm::ray<T, 3>(), vm::plane<T, 3>() == vm::plane<T, 3>(), vm::segment<T, 3>() < vm::segment<T, 3>(), vm::bbox<T, 3>() == vm::bbox<T, 3>(), vm::polygon<T, 3>() == vm::polygon<T, 3>(), vm::quat<T>() == vm::quat<T>(), vm::polygon<T, 3>().invert(), vm::compareUnoriented(vm::polygon<T, 3>(), vm::polygon<T, 3>()), vm::bbox<T, 3>().vertices(), vm::segment<T, 3>().contains(vec<T, 3>(), T(1))))
  OP0("default objects", std::make_tuple(vec<T, 1>(), vec<T, 3>(), vec<T, 4>(), mat<T, 4, 4>(), mat<T, 2, 3>(), vm::quat<T>(), vm::plane<T, 3>(), vm::line<T, 3>(), vm::ray<T, 3>(), vm::segment<T, 3>(), vm::bbox<T, 3>(), vm::polygon<T, 3>()))
  OP2("cross", V3, V3, vm::cross(a, b))
  OP1("selectors", (s.template v<T, 4>()), std::make_tuple(a.x(), a.y(), a.z(), a.w(), a.xy(), a.xz(), a.yz(), a.xyz(), a.xyzw()))
  OP0("constants", std::make_tuple(vec<T, 3>::pos_x(), vec<T, 3>::pos_y(), vec<T, 3>::pos_z(), vec<T, 3>::neg_x(), vec<T, 3>::neg_y(), vec<T, 3>::neg_z()))
  OP1("shared nan", V3, vm::safe_max(a.v[0], vm::nan<T>(), a.v[1], a.v[2]))
  OP2("swizzle", V3, s.below(3), std::make_tuple(vm::swizzle(a, b), vm::unswizzle(a, b)))
  OP3("measure_angle", V3, V3, V3, vm::measure_angle(a, b, c))
  OP1("slice", (s.template v<T, 4>()), std::make_tuple(vm::slice<2>(a, 0), vm::slice<3>(a, 1), vm::slice<1>(a, 3), a.xy(), a.xyz(), vm::to_cartesian_coords(a)))
  OP3("construct", NUM, NUM, NUM, std::make_tuple(vec<T, 3>(a, b, c), vec<T, 4>(vec<T, 3>(a, b, c), a), vec<T, 2>(a, b)))
}

template <typename T, size_t S> void mat_ops(Table& t) {
#define MS (s.template m<T, S, S>())
  OP2("arithmetic", MS, MS, std::make_tuple(+a, -a, a + b, a - b, a * b))
  OP2("scale", MS, NUM, std::make_tuple(a * b, b * a, a / b))
  OP2("apply", MS, VEC, std::make_tuple(a * b, b * a))
  OP2("apply affine", MS, (s.template v<T, S - 1>()), std::make_tuple(a * b, b * a))
  OP3("compare", MS, MS, NUM, std::make_tuple(vm::compare(a, b), vm::is_equal(a, b, c), vm::is_zero(a, c), a == b, a != b))
  OP4("set", MS, s.below(S), s.below(S), NUM, vm::set(a, b, c, d))
  OP1("transpose", MS, vm::transpose(a))
  OP3("minor", MS, s.below(S), s.below(S), vm::extract_minor(a, b, c))
  OP1("slice", MS, (vm::slice<S - 1, S - 1>(a, 1, 1)))
  OP1("determinant", MS, vm::compute_determinant(a))
  OP1("adjugate", MS, vm::compute_adjugate(a))
  OP2("lup_solve", MS, VEC, vm::lup_solve(a, b))
  OP1("invert", MS, vm::invert(a))
  OP2("lists", MS, (s.template list<T, S>(0, 7)), std::make_tuple(a * b, b * a))
  OP2("affine lists", MS, (s.template list<T, S - 1>(0, 7)), std::make_tuple(a * b, b * a))
  OP1("strip_translation", MS, std::make_tuple(vm::strip_translation(a), vm::translation_matrix(a)))
  OP1("print", MS, ([](const auto& x) {
    std::ostringstream str;
    str << x;
    return str.str();
  }(a)))
  OP1("parse", Block(s.text() + s.text() + s.text()), (vm::parse<T, S, S>(a.view())))
  OP0("constants", std::make_tuple(mat<T, S, S>::identity(), mat<T, S, S>::zero()))
}
template <typename T> void mat_ext_ops(Table& t) {
  OP3("perspective", NUM, NUM, NUM, vm::perspective_matrix(a, b, c, 640, 480))
  OP4("ortho", NUM, NUM, V3, NUM, vm::ortho_matrix(a, b, c.v[0], c.v[1], c.v[2], d))
  OP2("view", V3, V3, vm::view_matrix(a, b))
  OP3("rotation euler", NUM, NUM, NUM, vm::rotation_matrix(a, b, c))
  OP1("to euler", M4, vm::rotation_matrix_to_euler_angles(a))
  OP2("rotation axis", U3, NUM, vm::rotation_matrix(a, b))
  OP1("rotation quat", s.template quat<T>(), vm::rotation_matrix(a))
  OP2("rotation from to", U3, U3, vm::rotation_matrix(a, b))
  OP1("translation", V3, std::make_tuple(vm::translation_matrix(a), vm::scaling_matrix(a)))
  OP1("mirror", s.below(3), vm::mirror_matrix<T>(a))
  OP4("coordinate system", U3, U3, U3, V3, vm::coordinate_system_matrix(a, b, c, d))
  OP2("plane projection", NUM, U3, vm::plane_projection_matrix(a, b))
  OP3("plane projection along", NUM, U3, U3, vm::plane_projection_matrix(a, b, c))
  OP2("shear", V3, V3, vm::shear_matrix(a.v[0], a.v[1], a.v[2], b.v[0], b.v[1], b.v[2]))
  OP2("scale_bbox", (s.template box<T, 3>()), (s.template box<T, 3>()), vm::scale_bbox_matrix(a, b))
  OP3("scale_bbox anchor", (s.template box<T, 3>()), V3, V3, vm::scale_bbox_matrix_with_anchor(a, b, c))
  OP0("rotation constants", std::make_tuple(mat<T, 4, 4>::rot_90_x_cw(), mat<T, 4, 4>::rot_90_y_ccw(), mat<T, 4, 4>::rot_180_z(), mat<T, 4, 4>::mirror_x(),
    mat<T, 4, 4>::rot_90_x_ccw(), mat<T, 4, 4>::rot_90_y_cw(), mat<T, 4, 4>::rot_90_z_cw(), mat<T, 4, 4>::rot_90_z_ccw(), mat<T, 4, 4>::rot_180_x(), mat<T, 4, 4>::rot_180_y(), mat<T, 4, 4>::mirror_y(), mat<T, 4, 4>::mirror_z()))
  if constexpr (std::is_same<T, double>::value) {
    OP3("shear_bbox", (s.template box<T, 3>()), s.below(6), V3, vm::shear_bbox_matrix(a, b < 3 ? vec<T, 3>::axis(b) : -vec<T, 3>::axis(b - 3), c))
    OP4("points_transformation", (s.template m<T, 3, 3>()), V3, (s.template m<T, 3, 3>()), V3,
      std::make_tuple(vm::points_transformation_matrix(a.v[0], a.v[1], a.v[2], c.v[0], c.v[1], c.v[2]), vm::points_transformation_matrix(a.v[0], a.v[1], a.v[2], b, c.v[0], c.v[1], c.v[2], d)))
  }
  OP2("quat", s.template quat<T>(), s.template quat<T>(), std::make_tuple(+a, -a, a * b, a * a.r, a.r * b, a.conjugate(), a == b, a != b, vm::is_equal(a, b, T(0.01))))
  OP2("quat rotate", s.template quat<T>(), V3, a * b)
  OP2("quat axis", U3, NUM, vm::quat<T>(a, b))
  OP2("quat from to", U3, U3, vm::quat<T>(a, b))
  OP1("quat query", s.template quat<T>(), std::make_tuple(a.angle(), a.axis()))
}

template <typename T, size_t S> void geo_ops(Table& t) {
#define BOX (s.template box<T, S>())
#define RAY (s.template ray<T, S>())
#define LINE (s.template line<T, S>())
#define SEG (s.template seg<T, S>())
#define PLANE (s.template plane<T, S>())
#define MH (s.template m<T, S + 1, S + 1>())
  OP2("bbox query", BOX, VEC, std::make_tuple(a.is_empty(), a.center(), a.size(), a.volume(), a.contains(b), a.constrain(b), a.relative_position(b)))
  OP3("bbox tolerance", BOX, VEC, NUM, std::make_tuple(vm::is_equal(a, a, c), a.contains(b)))
  OP2("bbox pairs", BOX, BOX, std::make_tuple(a.contains(b), a.encloses(b), a.intersects(b), vm::merge(a, b), vm::intersect(a, b), a == b, a != b))
  OP2("bbox edit", BOX, VEC, std::make_tuple(a.translate(b), a.expand(b.v[0]), vm::merge(a, b)))
  OP1("bbox repair", BOX, vm::repair(a))
  OP1("bbox merge_all", (s.template list<T, S>(1, 9)), (vm::bbox<T, S>::merge_all(a.begin(), a.end())))
  OP1("bbox builder", (s.template list<T, S>(1, 9)), ([](const auto& l) {
    typename vm::bbox<T, S>::builder b;
    b.add(l.begin(), l.end());
    b.add(l[0]);
    return b.bounds();
  }(a)))
  OP2("ray", RAY, VEC, std::make_tuple(vm::point_at_distance(a, b.v[0]), vm::project_point(a, b), vm::distance_to_projected_point(a, b), a.point_status(b)))
  OP2("ray pairs", RAY, RAY, std::make_tuple(a == b, a != b, vm::is_equal(a, b, T(0.1))))
  OP2("ray transform", RAY, MH, std::make_tuple(a.transform(b), a.transform_c(b)))
  OP2("line", LINE, VEC, std::make_tuple(vm::point_at_distance(a, b.v[0]), vm::project_point(a, b), a.make_canonical()))
  OP2("line pairs", LINE, LINE, std::make_tuple(a == b, a != b, vm::is_equal(a, b, T(0.1))))
  OP2("line transform", LINE, MH, std::make_tuple(a.transform(b), a.transform_c(b)))
  OP2("segment", SEG, VEC, std::make_tuple(a.length(), a.squared_length(), a.center(), a.direction(), a.contains(b, T(0.1)), a.translate(b), vm::point_at_distance(a, b.v[0])))
  OP2("segment pairs", SEG, SEG, std::make_tuple(vm::compare(a, b), a == b, a != b, a < b, a <= b, a > b, a >= b, vm::is_equal(a, b, T(0.1))))
  OP2("segment transform", SEG, MH, a.transform(b))
  OP2("distance ray point", RAY, VEC, std::make_tuple(vm::squared_distance(a, b), vm::distance(a, b)))
  OP2("distance segment point", SEG, VEC, std::make_tuple(vm::squared_distance(a, b), vm::distance(a, b)))
  OP2("distance ray segment", RAY, SEG, std::make_tuple(vm::squared_distance(a, b), vm::distance(a, b)))
  OP2("distance ray ray", RAY, RAY, std::make_tuple(vm::squared_distance(a, b), vm::distance(a, b)))
  OP2("distance ray line", RAY, LINE, std::make_tuple(vm::squared_distance(a, b), vm::distance(a, b)))
  OP2("ray bbox", RAY, BOX, vm::intersect_ray_bbox(a, b))
  OP3("ray sphere", RAY, VEC, NUM, vm::intersect_ray_sphere(a, b, c))
  OP2("plane query", PLANE, VEC, std::make_tuple(a.anchor(), a.point_distance(b), a.point_status(b), a.flip(), a.project_point(b), a.project_vector(b)))
  OP3("plane along", PLANE, VEC, (s.template u<T, S>()), std::make_tuple(a.project_point(b, c), a.project_vector(b, c)))
  OP3("plane at", PLANE, (s.template v<T, S - 1>()), s.below(S), a.at(b, c))
  OP2("plane pairs", PLANE, PLANE, std::make_tuple(a == b, a != b, vm::is_equal(a, b, T(0.1))))
  OP2("polygon", (s.template list<T, S>(0, 7)), VEC, ([](const auto& l, const auto& v) {
    const vm::polygon<T, S> p(l);
    return std::make_tuple(p.vertices(), p.invert(), p.translate(v), p.hasVertex(v), p.vertexCount(), vm::polygon<float, S>(p));
  }(a, b)))
  OP2("polygon pairs", (s.template list<T, S>(0, 5)), (s.template list<T, S>(0, 5)), ([](const auto& l, const auto& m) {
    const vm::polygon<T, S> p(l), q(m);
    return std::make_tuple(vm::compare(p, q), vm::compareUnoriented(p, q), p == q, p < q, vm::isEqual(p, q, T(0.1)), vm::compareUnoriented(p, p.invert()));
  }(a, b)))
  OP2("polygon transform", (s.template list<T, S>(0, 5)), MH, ([](const auto& l, const auto& m) { return vm::polygon<T, S>(l).transform(m); }(a, b)))
  OP1("polygon center", (s.template list<T, S>(1, 5)), ([](const auto& l) { return vm::polygon<T, S>(l).center(); }(a)))
  OP4("print", BOX, RAY, LINE, PLANE, ([](const auto& w, const auto& x, const auto& y, const auto& z) {
    std::ostringstream str;
    str << w << x << y << z;
    return str.str();
  }(a, b, c, d)))
#define CMP(x, y) x == y, x != y, x < y, x <= y, x > y, x >= y
  OP3("approx", VEC, VEC, NUM, ([](const auto& v, const auto& w, const T e) {
    using V = vm::approx<vec<T, S>>;
    using N = vm::approx<T>;
    const V x(v), y(w, vm::abs(e));
    const N n(v.v[0]), m(w.v[0], vm::abs(e));
    std::ostringstream str;
    str << x << y << n << m;
    return std::make_tuple(std::make_tuple(CMP(x, w), CMP(v, y)), std::make_tuple(CMP(n, w.v[0]), CMP(v.v[0], m)), str.str());
  }(a, b, c)))
  OP3("approx objects", MH, LINE, NUM, ([](const auto& m, const auto& l, const T e) {
    using M = vm::approx<mat<T, S + 1, S + 1>>;
    using X = vm::approx<vm::line<T, S>>;
    auto m2 = m;
    m2.v[0].v[0] += e;
    auto l2 = l;
    l2.point.v[0] += e;
    const M x(m), y(m, vm::abs(e));
    const X p(l), q(l, vm::abs(e));
    std::ostringstream str;
    str << x << p;
    return std::make_tuple(x == m2, m2 == x, x != m2, m2 != x, y == m2, m2 == y, p == l2, l2 == p, q == l2, l2 == q, str.str());
  }(a, b, c)))
  OP2("approx lists", (s.template list<T, 1>(0, 5)), (s.template list<T, 1>(0, 5)), ([](const auto& l, const auto& m) {
    std::vector<T> x;
    std::vector<vm::approx<T>> y;
    for (const auto& v : l) x.push_back(v.v[0]);
    for (const auto& v : m) y.emplace_back(v.v[0], T(1));
    x.shrink_to_fit();
    y.shrink_to_fit();
    return std::make_tuple(x == y, y == x, x != y, y != x);
  }(a, b)))
  OP3("parallel objects", RAY, VEC, NUM, ([](const auto& r, const auto& v, const T n) {
    const auto e = vm::point_at_distance(r, n);
    const vm::segment<T, S> sg(v, v + (e - r.origin)), dg(v, v);
    const vm::ray<T, S> same(v, r.direction), opposite(v, -r.direction);
    const auto d = vm::squared_distance(r, sg);
    return std::make_tuple(d, d.is_colinear(), d.is_colinear(T(1)), vm::distance(r, dg), vm::distance(dg, r.origin), vm::distance(r, same), vm::distance(r, opposite), vm::distance(r, vm::line<T, S>(v, r.direction)), dg.contains(v, T(0.1)), dg.length(), dg.direction());
  }(a, b, c)))
  OP3("compile time forms", SEG, VEC, NUM, std::make_tuple(a.length_c(), vm::is_unit_c(b, vm::abs(c)), vm::is_between_c(a.center(), a.start(), a.end())))
  OP2("polygon iteration", (s.template list<T, S>(0, 6)), VEC, ([](const auto& l, const auto& v) {
    const vm::polygon<T, S> p(l);
    std::vector<vec<T, S>> r(p.begin(), p.end());
    r.insert(r.end(), p.rbegin(), p.rend());
    r.shrink_to_fit();
    return std::make_tuple(r, vm::polygon<double, S>(p), p.translate(v));
  }(a, b)))
  OP2("polygon order", (s.template list<T, S>(0, 5)), (s.template list<T, S>(0, 5)), ([](const auto& l, const auto& m) {
    const vm::polygon<T, S> p(l), q(m);
    return std::make_tuple(CMP(p, q), CMP(p, p), vm::compare(p, q, T(1)), vm::compareUnoriented(p, q, T(1)));
  }(a, b)))
}
template <typename T> void geo3_ops(Table& t) {
#define BOX3 (s.template box<T, 3>())
#define RAY3 (s.template ray<T, 3>())
#define PLANE3 (s.template plane<T, 3>())
  OP1("bbox vertices", BOX3, ([](const auto& x) {
    Out n;
    x.for_each_vertex([&](const auto& v) { put(n, v); });
    x.for_each_edge([&](const auto& v, const auto& w) { put(n, std::make_tuple(v, w)); });
    x.for_each_face([&](const auto& v0, const auto& v1, const auto& v2, const auto& v3, const auto& nn) { put(n, std::make_tuple(v0, v1, v2, v3, nn)); });
    return std::make_tuple(n.h, x.vertices());
  }(a)))
  OP2("bbox transform", BOX3, M4, a.transform(b))
  OP2("bbox corner", BOX3, s.below(8), a.corner((b & 1) ? vm::bbox<T, 3>::Corner::min : vm::bbox<T, 3>::Corner::max, (b & 2) ? vm::bbox<T, 3>::Corner::min : vm::bbox<T, 3>::Corner::max, (b & 4) ? vm::bbox<T, 3>::Corner::min : vm::bbox<T, 3>::Corner::max))
  OP2("ray plane", RAY3, PLANE3, vm::intersect_ray_plane(a, b))
  OP2("line plane", (s.template line<T, 3>()), PLANE3, vm::intersect_line_plane(a, b))
  OP4("ray triangle", RAY3, V3, V3, V3, vm::intersect_ray_triangle(a, b, c, d))
  OP3("ray polygon", RAY3, PLANE3, (s.template list<T, 3>(3, 8)), vm::intersect_ray_polygon(a, b, c.begin(), c.end()))
  OP2("ray polygon from points", RAY3, (s.template flat<T>(3, 8)), ([](const auto& r, const auto& l) {
    const auto p = vm::from_points(l.begin(), l.end());
    return std::get<0>(p) ? vm::intersect_ray_polygon(r, l.begin(), l.end()) : vm::nan<T>();
  }(a, b)))
  OP3("polygon_contains_point", V3, s.below(3), (s.template list<T, 3>(3, 8)), std::make_tuple(vm::polygon_contains_point(a, b, c.begin(), c.end()), vm::polygon_contains_point(a, a, c.begin(), c.end())))
  OP4("ray torus", RAY3, V3, NUM, NUM, vm::intersect_ray_torus(a, b, c, d))
  OP2("plane plane", PLANE3, PLANE3, vm::intersect_plane_plane(a, b))
  OP3("from_points", V3, V3, V3, std::make_tuple(vm::plane_normal(a, b, c), vm::from_points(a, b, c)))
  OP1("from_points range", (s.template list<T, 3>(0, 4)), vm::from_points(a.begin(), a.end()))
  OP2("plane factories", V3, V3, std::make_tuple(vm::horizontal_plane(a), vm::orthogonal_plane(a, b), vm::aligned_orthogonal_plane(a, b)))
  OP2("plane xyz", PLANE3, (s.template v<T, 2>()), std::make_tuple(a.xAt(b), a.yAt(b), a.zAt(b)))
  OP2("plane transform", PLANE3, M4, std::make_tuple(a.transform(b), a.transform_c(b)))
  OP1("convex_hull", s.template flat<T>(0, 14), vm::convex_hull(a))
  OP3("bezier", (s.template list<T, 3>(9, 9)), NUM, NUM, ([](const auto& l, T u, T v) {
    std::array<std::array<vec<T, 3>, 3>, 3> c;
    for (size_t i = 0; i < 9; ++i) c[i / 3][i % 3] = l[i];
    return vm::evaluate_quadratic_bezier_surface(c, u, v);
  }(a, b, c)))
  OP1("segment vertices", (s.template list<T, 3>(2, 6)), ([](const auto& l) {
    std::vector<vm::segment<T, 3>> sg;
    for (size_t i = 1; i < l.size(); ++i) sg.emplace_back(l[i - 1], l[i]);
    std::vector<vec<T, 3>> r;
    vm::segment<T, 3>::get_vertices(sg.begin(), sg.end(), std::back_inserter(r));
    return r;
  }(a)))
}
// operations on objects shared between threads
inline void shared_ops(Table& t) {
  t.add("shared convex_hull", [](Src& s, Out& o) {
    const auto& p = s.shared->points3d[s.below(s.shared->points3d.size())];
    const auto h = digest(p);
    put(o, vm::convex_hull(p));
    o.mutated = o.mutated || h != digest(p);
  });
  t.add("shared convex_hull float", [](Src& s, Out& o) { put(o, vm::convex_hull(s.shared->points3f[s.below(s.shared->points3f.size())])); });
  t.add("shared polygon", [](Src& s, Out& o) {
    const auto& p = s.shared->polys[s.below(s.shared->polys.size())];
    const auto& q = s.shared->polys[s.below(s.shared->polys.size())];
    put(o, std::make_tuple(p.vertices(), p.invert(), p.vertexCount(), vm::compareUnoriented(p, q), vm::compare(p, q), p == q));
    if (p.vertexCount()) put(o, std::make_tuple(p.center(), p.hasVertex(q.vertexCount() ? *q.begin() : *p.begin())));
  });
  // every const member and every operation with a const argument may be called on a shared object
  t.add("shared objects", [](Src& s, Out& o) {
    const auto pick = [&](const auto& l) -> const auto& { return l[s.below(l.size())]; };
    const auto& sh = *s.shared;
    const auto &v = pick(sh.vecs), &w = pick(sh.vecs);
    const auto& m = pick(sh.mats);
    const auto& q = pick(sh.quats);
    const auto &b = pick(sh.boxes), &c = pick(sh.boxes);
    const auto &p = pick(sh.planes), &p2 = pick(sh.planes);
    const auto &l = pick(sh.lines), &l2 = pick(sh.lines);
    const auto &r = pick(sh.rays), &r2 = pick(sh.rays);
    const auto &g = pick(sh.segments), &g2 = pick(sh.segments);
    const auto& f = pick(sh.polys);
    put(o, std::make_tuple(vm::length(v), vm::normalize(v), vm::dot(v, w), v == w, vm::compare(v, w), m * v, v * m, vm::find_abs_max_component(v)));
    put(o, std::make_tuple(vm::invert(m), vm::transpose(m), vm::compute_determinant(m), vm::compute_adjugate(m), m == pick(sh.mats), m * pick(sh.mats)));
    put(o, std::make_tuple(q.angle(), q.axis(), q.conjugate(), q * v, q * pick(sh.quats), vm::rotation_matrix(q)));
    put(o, std::make_tuple(b.center(), b.size(), b.volume(), b.is_empty(), b.is_valid(), b.contains(v), b.contains(c), b.encloses(c), b.intersects(c), b.constrain(v)));
    put(o, std::make_tuple(b.expand(1.0), b.translate(v), b.vertices(), b.transform(vm::translation_matrix(v)), b == c, vm::merge(b, c), vm::merge(b, v), vm::intersect(b, c)));
    put(o, std::make_tuple(p.anchor(), p.point_distance(v), int(p.point_status(v)), p.flip(), p.transform(m), p.project_point(v), p.project_vector(v), p.xAt(vec<double, 2>(1.0, 2.0)), p == p2, vm::intersect_plane_plane(p, p2)));
    put(o, std::make_tuple(l.get_origin(), l.get_direction(), l.make_canonical(), l.transform(m), l == l2, vm::project_point(l, v), vm::point_at_distance(l, 2.0), vm::intersect_line_plane(l, p)));
    put(o, std::make_tuple(r.get_origin(), r.get_direction(), int(r.point_status(v)), r.transform(m), r == r2, vm::distance(r, v), vm::distance(r, r2), vm::distance(r, l), vm::distance(r, g), vm::intersect_ray_plane(r, p), vm::intersect_ray_bbox(r, b)));
    put(o, std::make_tuple(g.length(), g.squared_length(), g.length_c(), g.direction(), g.center(), g.get_origin(), g.get_direction(), g.contains(v, 1.0), g.transform(m), g.translate(v), g == g2, vm::compare(g, g2), vm::distance(g, v)));
    put(o, std::make_tuple(f.transform(m), f.translate(v), f == pick(sh.polys), std::vector<vec<double, 3>>(f.begin(), f.end()), std::vector<vec<double, 3>>(f.rbegin(), f.rend())));
    std::ostringstream str;
    str << v << m << b << p << l << r;
    put(o, str.str());
  });
  t.add("shared text", [](Src& s, Out& o) {
    const auto& x = s.shared->texts[s.below(s.shared->texts.size())];
    put(o, vm::parse<double, 3>(x));
    std::vector<vec<float, 2>> r;
    vm::parse_all<float, 2>(x, std::back_inserter(r));
    put(o, r);
    put(o, vm::parse<double, 2, 2>(x));
  });
  t.add("shared bounds", [](Src& s, Out& o) {
    const auto& p = s.shared->points3d[s.below(s.shared->points3d.size())];
    if (p.empty()) return;
    const auto b = vm::bbox<double, 3>::merge_all(p.begin(), p.end());
    put(o, b);
    put(o, vm::average(p.begin(), p.end()));
    put(o, vm::from_points(p.begin(), p.end()));
    put(o, mat<double, 4, 4>::rot_90_x_cw() * p);
    put(o, p + vec<double, 3>::one());
  });
}

// OPS_PART selects a part of the table, so that the parts can be compiled in parallel
#ifndef OPS_PART
#define OPS_PART 0
#endif
#define OPS_HAS(n) (OPS_PART == 0 || OPS_PART == n)
inline Table make_table() {
  Table t;
#if OPS_HAS(1)
  t.suffix = "<float>";
  scalar_ops<float>(t);
  vec3_ops<float>(t);
  mat_ext_ops<float>(t);
  t.suffix = "<double>";
  scalar_ops<double>(t);
  vec3_ops<double>(t);
  mat_ext_ops<double>(t);
  t.suffix = "";
  index_ops(t);
  t.suffix = "<int,3>";
  int_ops<int, 3>(t);
  t.suffix = "<size_t,2>";
  int_ops<size_t, 2>(t);
#endif
#if OPS_HAS(2)
  t.suffix = "<float>";
  geo3_ops<float>(t);
  t.suffix = "<double>";
  geo3_ops<double>(t);
  t.suffix = "";
  shared_ops(t);
#endif
#if OPS_HAS(3)
  t.suffix = " vec<float,3>";
  vec_ops<float, 3>(t);
  t.suffix = " vec<double,1>";
  vec_ops<double, 1>(t);
  t.suffix = " vec<double,2>";
  vec_ops<double, 2>(t);
#endif
#if OPS_HAS(4)
  t.suffix = " vec<double,3>";
  vec_ops<double, 3>(t);
  t.suffix = " vec<double,4>";
  vec_ops<double, 4>(t);
#endif
#if OPS_HAS(5)
  t.suffix = " mat<float,3>";
  mat_ops<float, 3>(t);
  t.suffix = " mat<double,2>";
  mat_ops<double, 2>(t);
  t.suffix = " mat<double,2,3>";
  rect_ops<double, 2, 3>(t);
  t.suffix = " mat<float,4,2>";
  rect_ops<float, 4, 2>(t);
#endif
#if OPS_HAS(6)
  t.suffix = " mat<double,4>";
  mat_ops<double, 4>(t);
  t.suffix = " mat<double,5>";
  mat_ops<double, 5>(t);
#endif
#if OPS_HAS(7)
  t.suffix = " <float,3>";
  geo_ops<float, 3>(t);
#endif
#if OPS_HAS(8)
  t.suffix = " <double,2>";
  geo_ops<double, 2>(t);
  t.suffix = " <double,3>";
  geo_ops<double, 3>(t);
#endif
  return t;
}
// Executes one operation; a violated contract is part of the result.
inline Out execute(const Op& op, uint64_t seed, int mode, const Shared* sh, int flip = -1) {
  Src src(seed, mode, sh, flip);
  Out out;
#ifdef OPS_SHIM_ASSERT
  try {
    op.fn(src, out);
  } catch (const ContractViolation&) {
    out.h = 0xc0;
    out.values = 0;
    out.contract = true;
  }
#else
  op.fn(src, out);
#endif
  out.longer = src.long_;
  return out;
}
inline Shared make_shared_objects(uint64_t seed) {
  Shared sh;
  Src s(seed, 0, nullptr);
  for (int i = 0; i < 24; ++i) {
    sh.points3d.push_back(s.flat<double>(0, 14));
    sh.points3f.push_back(s.flat<float>(0, 14));
    sh.polys.emplace_back(s.list<double, 3>(0, 6));
    sh.texts.push_back(s.text() + " 1 2 3 4 5 6");
  }
  for (int i = 0; i < 16; ++i) {
    sh.vecs.push_back(s.v<double, 3>());
    sh.mats.push_back(s.m<double, 4, 4>());
    sh.quats.push_back(s.quat<double>());
    sh.boxes.push_back(s.box<double, 3>());
    sh.planes.push_back(s.plane<double, 3>());
    sh.lines.emplace_back(s.v<double, 3>(), s.v<double, 3>());
    sh.rays.emplace_back(s.v<double, 3>(), s.v<double, 3>());
    sh.segments.emplace_back(s.v<double, 3>(), s.v<double, 3>());
  }
  sh.polys.push_back(sh.polys[0].invert());
  return sh;
}
} // namespace ops
