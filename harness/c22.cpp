// C22: polygons keep a canonical vertex cycle
#include "gen.h"

#include <iterator>
#include <list>

using vm::polygon;
using vm::vec;
using namespace mon;

template <typename T, size_t S> using Verts = std::vector<vec<T, S>>;

template <typename T, size_t S> static bool raw_less(const vec<T, S>& a, const vec<T, S>& b) {
  for (size_t i = 0; i < S; ++i)
    if (a.v[i] != b.v[i]) return a.v[i] < b.v[i];
  return false;
}
template <typename T, size_t S> static bool raw_eq(const vec<T, S>& a, const vec<T, S>& b) {
  for (size_t i = 0; i < S; ++i)
    if (!(a.v[i] == b.v[i])) return false;
  return true;
}
template <typename T, size_t S> static bool raw_eq(const Verts<T, S>& a, const Verts<T, S>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!raw_eq(a[i], b[i])) return false;
  return true;
}
// the canonical form, from the definition
template <typename T, size_t S> static Verts<T, S> canon(const Verts<T, S>& v) {
  if (v.empty()) return v;
  size_t k = 0;
  for (size_t i = 1; i < v.size(); ++i)
    if (raw_less(v[i], v[k])) k = i;
  Verts<T, S> r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(v[(k + i) % v.size()]);
  return r;
}
template <typename T, size_t S> static Verts<T, S> rotated(const Verts<T, S>& v, size_t k) {
  Verts<T, S> r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(v[(k + i) % v.size()]);
  return r;
}
template <typename T, size_t S> static Verts<T, S> distinct_vertices(Rng& g, size_t n) {
  Verts<T, S> r;
  const long range = g.below(2) ? 2 : n > 100 ? 30 : 6; // small ranges: many shared coordinates
  const T f = g.below(3) ? T(1) : T(lscale(g, -20, 20));
  for (int guard = 0; r.size() < n && guard < 2000; ++guard) {
    auto c = g.chance(1, 5) ? cvec<T, S>(g, 4) : ivec<T, S>(g, range);
    c = c * f;
    if (g.chance(1, 40)) c[g.below(S)] = T(g.logreal(1e-30, 1e30));
    bool dup = false;
    for (const auto& x : r) dup = dup || raw_eq(x, c);
    if (!dup) r.push_back(c);
  }
  return r;
}

template <typename T, size_t S> static void cycles(Rng& g) {
  auto v = distinct_vertices<T, S>(g, g.chance(1, 200) ? 100 + g.below(200) : g.chance(1, 30) ? 9 + g.below(40) : g.below(9));
  const size_t n = v.size();
  const auto want = canon(v);
  const polygon<T, S> p(v);
  const auto where = P(v);
  CHK(raw_eq(p.vertices(), want), "canonical form", where << " got " << P(p.vertices()));
  CHK(p.vertexCount() == n, "vertex count", where);
  CHK((raw_eq(Verts<T, S>(p.begin(), p.end()), want)), "iteration", where);
  {
    auto reversed = want;
    std::reverse(reversed.begin(), reversed.end());
    CHK((raw_eq(Verts<T, S>(p.rbegin(), p.rend()), reversed)), "reverse iteration", where);
  }
  for (size_t k = 0; k < n; k += 1 + (n > 100 ? g.below(n / 4) : 0)) {
    auto rv = rotated(v, k);
    const polygon<T, S> q(rv);
    CHK(raw_eq(q.vertices(), want) && p == q && !(p != q), "rotations of the cycle are equal", where << " by " << k << " got " << P(q.vertices()));
    auto moved = rotated(v, k);
    const polygon<T, S> q2(std::move(moved));
    CHK(raw_eq(q2.vertices(), want), "construction by moving", where << " by " << k);
    auto roomy = rotated(v, k);
    if (g.below(2)) roomy.shrink_to_fit();
    else roomy.reserve(n + g.below(4 * n + 8));
    if (g.chance(1, 4)) { // a list that was used before
      roomy.insert(roomy.end(), g.below(20), vec<T, S>());
      roomy.resize(n);
    }
    const polygon<T, S> q3(std::move(roomy));
    CHK(raw_eq(q3.vertices(), want) && q3 == p, "construction by moving a list with spare room", where << " by " << k);
    CHK(vm::compareUnoriented(p, q) == 0, "unoriented comparison of a rotation", where << " by " << k);
    // the other direction
    auto back = rotated(v, k);
    std::reverse(back.begin(), back.end());
    const polygon<T, S> b(back);
    CHK(vm::compareUnoriented(p, b) == 0 && vm::compareUnoriented(b, p) == 0, "unoriented comparison of the reversed cycle", where << " by " << k);
    CHK((p == b) == (n < 3), "reversal is a different polygon", where << " by " << k);
    CHK(raw_eq(p.invert().vertices(), b.vertices()), "inverse", where << " got " << P(p.invert().vertices()));
  }
  const auto inv = p.invert();
  CHK(raw_eq(inv.invert().vertices(), want), "inverting twice", where);
  auto back = v;
  std::reverse(back.begin(), back.end());
  CHK(raw_eq(inv.vertices(), canon(back)), "inverse is the reversed cycle", where << " got " << P(inv.vertices()));
  CHK(raw_eq(p.vertices(), want), "operations leave the polygon alone", where);

  // queries
  for (const auto& x : v) CHK(p.hasVertex(x), "has its vertices", where << P(x));
  const auto other = ivec<T, S>(g, 3);
  bool in = false;
  for (const auto& x : v) in = in || raw_eq(x, other);
  CHK(p.hasVertex(other) == in, "has vertex", where << P(other));
  if (n) {
    LV<S> c{};
    L size = 0;
    for (const auto& x : v) {
      c = c + lv(x);
      size = std::max(size, lmax(lv(x)));
    }
    c = c * (1 / L(n));
    CHK(lmax(lv(p.center()) - c) <= (20 + n) * eps<T>() * size, "center", where << " got " << P(p.center()));
  }
  // copies, assignments, moves
  polygon<T, S> copy(p), assigned;
  assigned = p;
  CHK(raw_eq(copy.vertices(), want) && raw_eq(assigned.vertices(), want), "copies", where);
  const polygon<T, S> taken(std::move(copy));
  CHK(raw_eq(taken.vertices(), want), "moved", where);
  OBS(n == 0 ? "empty" : n == 1 ? "one vertex" : n == 2 ? "two vertices" : "proper");
}
MON_GROUP_T(cycles, 6000, float, 2)
MON_GROUP_T(cycles, 6000, float, 3)
MON_GROUP_T(cycles, 6000, double, 3)
MON_GROUP_T(cycles, 3000, double, 2)
MON_GROUP_T(cycles, 1500, double, 1)
MON_GROUP_T(cycles, 1500, double, 4)
MON_GROUP_T(cycles, 1500, double, 5)

MON_GROUP(initializer_lists, 4000) {
  const auto v = distinct_vertices<double, 3>(g, 4);
  if (v.size() < 4) return;
  const polygon<double, 3> a{v[0], v[1], v[2]}, b{v[1], v[2], v[0]}, c{v[2], v[0], v[1]}, d{v[0], v[2], v[1]};
  CHK(a == b && b == c && a != d && vm::compareUnoriented(a, d) == 0, "initializer lists", P(v));
  const polygon<double, 3> e{v[3], v[0], v[1], v[2]};
  CHK((raw_eq(e.vertices(), canon(Verts<double, 3>{v[3], v[0], v[1], v[2]}))), "initializer list of four", P(v));
}

// vertex lists with repeated vertices: still a rotation of the input that starts with a smallest one
template <typename T, size_t S> static void repeated(Rng& g) {
  Verts<T, S> v;
  const size_t n = g.below(10);
  for (size_t i = 0; i < n; ++i) v.push_back(ivec<T, S>(g, 1));
  const polygon<T, S> p(v);
  bool ok = v.empty();
  for (size_t k = 0; k < n && !ok; ++k) ok = raw_eq(rotated(v, k), p.vertices());
  CHK(ok, "vertices are a rotation of the input", P(v) << " got " << P(p.vertices()));
  for (const auto& x : p.vertices()) CHK(!raw_less(x, p.vertices()[0]), "starts with a smallest vertex", P(v) << " got " << P(p.vertices()));
  const polygon<T, S> copy(p);
  CHK(p == copy && !(p != copy) && p == p && !(p != p), "a polygon equals itself and its copy", P(v));
  CHK(vm::compareUnoriented(p, p) == 0 && vm::compareUnoriented(p, copy) == 0, "a polygon compares equal to itself and its copy", P(v));
}
MON_GROUP_T(repeated, 10000, double, 3)
MON_GROUP_T(repeated, 10000, float, 2)
MON_GROUP_T(repeated, 5000, double, 2)
MON_GROUP_T(repeated, 5000, float, 3)
MON_GROUP_T(repeated, 5000, double, 4)

// maps that reorder the vertices, on exact numbers
template <typename T, size_t S> static void mapped(Rng& g) {
  auto v = distinct_vertices<T, S>(g, size_t(g.irange(0, 8)));
  for (auto& x : v)
    for (size_t i = 0; i < S; ++i) x.v[i] = std::fabs(x.v[i]) < T(1000) ? std::floor(x.v[i] * 4) / 4 : T(g.irange(-9, 9));
  const polygon<T, S> p(v);
  const auto off = ivec<T, S>(g, 20);
  Verts<T, S> moved;
  for (const auto& x : v) moved.push_back(tov<T>(lv(x) + lv(off)));
  CHK(raw_eq(p.translate(off).vertices(), canon(moved)), "translate", P(v) << P(off) << " got " << P(p.translate(off).vertices()));
  // integer affine transformation
  vm::mat<T, S + 1, S + 1> m = vm::mat<T, S + 1, S + 1>::identity();
  for (size_t c = 0; c < S; ++c)
    for (size_t r = 0; r < S; ++r) m.v[c].v[r] = T(g.irange(-3, 3));
  for (size_t r = 0; r < S; ++r) m.v[S].v[r] = T(g.irange(-9, 9));
  Verts<T, S> img;
  for (const auto& x : v) {
    vec<T, S> y;
    for (size_t r = 0; r < S; ++r) {
      L s = L(m.v[S].v[r]);
      for (size_t c = 0; c < S; ++c) s += L(m.v[c].v[r]) * L(x.v[c]);
      y.v[r] = T(s);
    }
    img.push_back(y);
  }
  const auto t = p.transform(homogeneous_twin(g, m));
  bool dup = false;
  for (size_t i = 0; i < img.size(); ++i)
    for (size_t j = 0; j < i; ++j) dup = dup || raw_eq(img[i], img[j]);
  if (!dup) {
    CHK(raw_eq(t.vertices(), canon(img)), "transform", P(v) << P(m) << " got " << P(t.vertices()));
    const auto cimg = canon(img);
    OBS(v.empty() || raw_eq(rotated(canon(v), 0), canon(v)) ? "transformed" : "transformed");
    if (!v.empty()) {
      // did the image of the smallest vertex stay the smallest?
      size_t k = 0;
      for (size_t i = 1; i < v.size(); ++i)
        if (raw_less(v[i], v[k])) k = i;
      OBS(raw_eq(img[k], cimg[0]) ? "first vertex kept" : "first vertex changed");
    }
  }
}
MON_GROUP_T(mapped, 12000, float, 2)
MON_GROUP_T(mapped, 12000, double, 3)
MON_GROUP_T(mapped, 12000, float, 3)
MON_GROUP_T(mapped, 6000, double, 2)
MON_GROUP_T(mapped, 6000, double, 4)
MON_GROUP_T(mapped, 6000, float, 4)

// images that are rounded: another vertex may become the smallest one, also by a translation
template <typename T, size_t S> static void rounded(Rng& g) {
  const size_t n = size_t(g.irange(1, 7));
  Verts<T, S> v;
  for (size_t i = 0; i < n; ++i) {
    vec<T, S> x;
    for (size_t k = 0; k < S; ++k) x.v[k] = T(g.irange(-3, 3)) + (k == 0 || g.below(2) ? T(g.irange(-4, 4)) * std::ldexp(T(1), -int(g.irange(10, 20))) : T(0));
    v.push_back(x);
  }
  const polygon<T, S> p(v);
  auto off = ivec<T, S>(g, 9);
  for (size_t k = 0; k < S; ++k)
    if (g.below(2)) off.v[k] = T(g.irange(-7, 7)) * std::ldexp(T(1), std::numeric_limits<T>::digits - int(g.irange(2, 14)));
  const auto q = p.translate(off);
  const auto first_is_least = [](const polygon<T, S>& x) {
    for (const auto& y : x.vertices())
      if (raw_less(y, x.vertices().front())) return false;
    return true;
  };
  CHK(q.vertexCount() == n && first_is_least(q), "translated polygon starts with its smallest vertex", P(v) << P(off) << " got " << P(q.vertices()));
  Verts<T, S> moved;
  for (const auto& x : v) {
    vec<T, S> y;
    for (size_t k = 0; k < S; ++k) {
      volatile T sum = x.v[k] + off.v[k];
      y.v[k] = sum;
    }
    moved.push_back(y);
  }
  bool dup = false;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j) dup = dup || raw_eq(moved[i], moved[j]);
  if (!dup) CHK(raw_eq(q.vertices(), canon(moved)), "translate with rounding", P(v) << P(off) << " got " << P(q.vertices()));
  auto m = vm::mat<T, S + 1, S + 1>::identity();
  for (size_t r = 0; r < S; ++r) {
    for (size_t c = 0; c < S; ++c) m.v[c].v[r] = g.below(3) ? T(r == c) : T(g.real(-3, 3));
    m.v[S].v[r] = off.v[r];
  }
  const auto t = p.transform(homogeneous_twin(g, m));
  CHK(t.vertexCount() == n && first_is_least(t), "transformed polygon starts with its smallest vertex", P(v) << P(m) << " got " << P(t.vertices()));
  CHK(first_is_least(p.invert()) && first_is_least(p), "starts with its smallest vertex", P(v));
  const polygon<float, S> f(p);
  bool least = true;
  for (const auto& y : f.vertices()) least = least && !raw_less(y, f.vertices().front());
  CHK(least, "converted polygon starts with its smallest vertex", P(v));
  OBS(!raw_eq(q.vertices().front(), tov<T>(lv(p.vertices().front()) + lv(off))) ? "another vertex became the smallest" : dup ? "vertices coincide" : "same order");
}
MON_GROUP_T(rounded, 8000, float, 2)
MON_GROUP_T(rounded, 8000, double, 2)
MON_GROUP_T(rounded, 8000, double, 3)
MON_GROUP_T(rounded, 8000, float, 3)

// conversion between precisions can merge coordinates and thereby change which vertex is smallest
MON_GROUP(conversion, 20000) {
  Verts<double, 3> v;
  const size_t n = size_t(g.irange(0, 7));
  for (size_t i = 0; i < n; ++i) {
    auto x = ivec<double, 3>(g, 3);
    if (g.below(2)) x[0] += g.real(-1, 1) * 1e-9;
    if (g.below(3) == 0) x[1] += g.real(-1, 1) * 1e-9;
    v.push_back(x);
  }
  const polygon<double, 3> p(v);
  const polygon<float, 3> f(p);
  Verts<float, 3> w;
  for (const auto& x : p.vertices()) w.push_back(vec<float, 3>(float(x.v[0]), float(x.v[1]), float(x.v[2])));
  bool ok = w.empty() && f.vertexCount() == 0;
  for (size_t k = 0; k < n && !ok; ++k) ok = raw_eq(rotated(w, k), f.vertices());
  CHK(ok, "conversion keeps the cycle", P(v) << " got " << P(f.vertices()));
  for (const auto& x : f.vertices()) CHK(!raw_less(x, f.vertices()[0]), "converted polygon starts with a smallest vertex", P(v) << " got " << P(f.vertices()));
  const polygon<double, 3> back(f);
  Verts<double, 3> wd;
  for (const auto& x : f.vertices()) wd.push_back(vec<double, 3>(x.v[0], x.v[1], x.v[2]));
  CHK(raw_eq(back.vertices(), wd), "widening conversion", P(v) << " got " << P(back.vertices()));
}

// unoriented comparison of unrelated polygons, antisymmetry
template <typename T, size_t S> static void unoriented(Rng& g) {
  auto v = distinct_vertices<T, S>(g, size_t(g.irange(0, 6)));
  Verts<T, S> w;
  switch (g.below(4)) {
    case 0:
      w = distinct_vertices<T, S>(g, size_t(g.irange(0, 6)));
      break;
    case 1: // the same vertices in another order
      w = v;
      g.shuffle(w);
      break;
    case 2: // one vertex differs, in either direction
      w = rotated(v, v.empty() ? 0 : g.below(v.size()));
      if (g.below(2)) std::reverse(w.begin(), w.end());
      if (!w.empty()) w[g.below(w.size())] = ivec<T, S>(g, 8);
      break;
    default: // two neighbours exchanged
      w = rotated(v, v.empty() ? 0 : g.below(v.size()));
      if (g.below(2)) std::reverse(w.begin(), w.end());
      if (w.size() > 1) {
        const size_t i = g.below(w.size());
        std::swap(w[i], w[(i + 1) % w.size()]);
      }
      break;
  }
  for (size_t i = 0; i < w.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (raw_eq(w[i], w[j])) return;
  const polygon<T, S> p(v), q(w);
  bool same_cycle = v.size() == w.size() && v.empty();
  auto rev = w;
  std::reverse(rev.begin(), rev.end());
  if (v.size() == w.size())
    for (size_t k = 0; k < w.size(); ++k) same_cycle = same_cycle || raw_eq(rotated(w, k), v) || raw_eq(rotated(rev, k), v);
  const int a = vm::compareUnoriented(p, q), b = vm::compareUnoriented(q, p);
  CHK((a == 0) == same_cycle, "zero exactly for the same cycle", P(v) << " and " << P(w) << " got " << a);
  CHK((a > 0) == (b < 0) && (a == 0) == (b == 0), "antisymmetry", P(v) << " and " << P(w) << " got " << a << " and " << b);
  OBS(same_cycle ? "same" : "different");
  // with a tolerance: perturb the vertices by less than it
  if (g.below(4) == 0 && !w.empty()) {
    const T e = T(0.01);
    auto x = v;
    for (auto& y : x)
      for (size_t i = 0; i < S; ++i) y.v[i] = std::fabs(y.v[i]) < T(1000) ? std::floor(y.v[i]) : T(g.irange(-9, 9)); // integers differ by one or more
    for (size_t i = 0; i < x.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (raw_eq(x[i], x[j])) return;
    auto z = canon(x);
    if (g.below(2) && z.size() > 1) std::reverse(z.begin() + 1, z.end());
    // move the first vertex down in its first coordinate so that it stays the first
    for (size_t k = 0; k < z.size(); ++k)
      for (size_t i = 0; i < S; ++i) z[k].v[i] += k == 0 ? (i == 0 ? T(-0.005) : T(0)) : T(g.real(-0.004, 0.004));
    const polygon<T, S> px(x), pz(z);
    CHK(vm::compareUnoriented(px, pz, e) == 0, "within the tolerance", P(x) << P(z));
    CHK(x.empty() || vm::compareUnoriented(px, pz, T(0.001)) != 0, "outside the tolerance", P(x) << P(z));
    OBS("tolerance");
  }
}
MON_GROUP_T(unoriented, 30000, double, 3)
MON_GROUP_T(unoriented, 30000, float, 2)
MON_GROUP_T(unoriented, 15000, double, 2)
MON_GROUP_T(unoriented, 15000, float, 3)
MON_GROUP_T(unoriented, 15000, double, 4)

MON_GROUP(get_vertices, 5000) {
  std::vector<polygon<double, 3>> ps;
  Verts<double, 3> want;
  const size_t n = g.below(5);
  for (size_t i = 0; i < n; ++i) {
    ps.emplace_back(distinct_vertices<double, 3>(g, g.below(6)));
    for (const auto& x : ps.back().vertices()) want.push_back(x);
  }
  Verts<double, 3> got;
  polygon<double, 3>::get_vertices(ps.begin(), ps.end(), std::back_inserter(got));
  CHK(raw_eq(got, want), "vertices of several polygons in order", P(want) << " got " << P(got));
  Verts<double, 3> pre(want.size()); // into existing elements
  polygon<double, 3>::get_vertices(ps.begin(), ps.end(), pre.begin());
  CHK(raw_eq(pre, want), "vertices written through a plain iterator", P(want) << " got " << P(pre));
}

MON_MAIN("C22")
