// C23: convex hull of coplanar points
#include "gen.h"

using vm::vec;
using namespace mon;

// Points of the workload are o + a * e1 + b * e2 with integers a, b and integer vectors, so that the
// exact hull can be computed from the (a, b) pairs in integer arithmetic, independently of the
// plane the points lie in.
struct Pt {
  long a, b;
};
static long cr(const Pt& o, const Pt& p, const Pt& q) { return (p.a - o.a) * (q.b - o.b) - (p.b - o.b) * (q.a - o.a); }
static bool operator<(const Pt& x, const Pt& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; }
static bool operator==(const Pt& x, const Pt& y) { return x.a == y.a && x.b == y.b; }

// strict corners of the hull, monotone chain
static std::vector<Pt> corners_of(std::vector<Pt> p) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  if (p.size() < 3) return {};
  std::vector<Pt> h;
  for (int pass = 0; pass < 2; ++pass) {
    const size_t base = h.size();
    for (const auto& x : p) {
      while (h.size() >= base + 2 && cr(h[h.size() - 2], h.back(), x) <= 0) h.pop_back();
      h.push_back(x);
    }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  if (h.size() < 3) return {};
  return h;
}

template <typename T> struct Frame {
  long o[3], e1[3], e2[3];
  T scale = T(1); // a power of two: as exact as without
  vec<T, 3> map(const Pt& p) const {
    return vec<T, 3>(
      T(o[0] + p.a * e1[0] + p.b * e2[0]) * scale, T(o[1] + p.a * e1[1] + p.b * e2[1]) * scale,
      T(o[2] + p.a * e1[2] + p.b * e2[2]) * scale);
  }
};
// whether the spread of the points is so large that the tolerance for colinear points (1e-5 for the
// squared area) does not matter, whatever point comes first
template <typename T> static bool beyond_tolerance(const std::vector<vec<T, 3>>& in) {
  for (const auto& p : in) {
    L far = -1, best = 0;
    L3 d{};
    for (const auto& q : in)
      if (llen(lv(q) - lv(p)) > far) {
        d = lv(q) - lv(p);
        far = llen(d);
      }
    for (const auto& q : in) {
      const L a = llen(lcross(d, lv(q) - lv(p)));
      best = std::max(best, a * a);
    }
    // other points may be as far away; the area with these is at least half as large
    if (best < 1e-3L) return false;
  }
  return true;
}
template <typename T> static Frame<T> frame(Rng& g) {
  for (;;) {
    Frame<T> f{};
    if (g.below(2)) { // axis plane
      const size_t i = g.below(3), j = (i + 1 + g.below(2)) % 3;
      f.e1[i] = g.below(2) ? 1 : -1;
      f.e2[j] = g.below(2) ? 1 : -1;
    } else {
      for (size_t i = 0; i < 3; ++i) {
        f.e1[i] = g.irange(-2, 2);
        f.e2[i] = g.irange(-2, 2);
      }
    }
    const long c0 = f.e1[1] * f.e2[2] - f.e1[2] * f.e2[1], c1 = f.e1[2] * f.e2[0] - f.e1[0] * f.e2[2],
               c2 = f.e1[0] * f.e2[1] - f.e1[1] * f.e2[0];
    if (!c0 && !c1 && !c2) continue;
    for (size_t i = 0; i < 3; ++i) f.o[i] = g.irange(-20, 20);
    return f;
  }
}

static std::vector<Pt> cloud(Rng& g, long range) {
  std::vector<Pt> p;
  const auto rnd = [&] { return Pt{g.irange(-range, range), g.irange(-range, range)}; };
  switch (g.below(8)) {
    case 0: { // small sets
      const size_t n = g.below(5);
      for (size_t i = 0; i < n; ++i) p.push_back(rnd());
      break;
    }
    case 1: { // dense grid sample: many colinear runs and duplicates
      const size_t n = size_t(g.irange(3, 24));
      for (size_t i = 0; i < n; ++i) p.push_back(Pt{g.irange(-2, 2), g.irange(-2, 2)});
      break;
    }
    case 2: { // colinear only
      const Pt d{g.irange(-2, 2), g.irange(-2, 2)}, s = rnd();
      const size_t n = g.below(8);
      const long k = range / 4;
      for (size_t i = 0; i < n; ++i) {
        const long t = g.irange(-k, k);
        p.push_back(Pt{s.a / 2 + t * d.a, s.b / 2 + t * d.b});
      }
      break;
    }
    case 3: { // full rectangle outline
      const long w = g.irange(1, 7), h = g.irange(1, 7);
      for (long a = 0; a <= w; ++a) {
        p.push_back(Pt{a, 0});
        p.push_back(Pt{a, h});
      }
      for (long b = 0; b <= h; ++b) {
        p.push_back(Pt{0, b});
        p.push_back(Pt{w, b});
      }
      for (auto& x : p) {
        x.a -= 3;
        x.b -= 3;
      }
      break;
    }
    case 4: { // convex position: points of a parabola, mirrored at times
      for (long a = -4; a <= 4; ++a)
        if (g.below(3)) p.push_back(Pt{a, a * a / 2 - (range > 8 ? 4 : 8) + (a * a) % 2});
      if (g.below(2))
        for (auto& x : p) std::swap(x.a, x.b);
      break;
    }
    case 5: { // clusters: short edges next to long ones
      const size_t n = size_t(g.irange(2, 5));
      for (size_t i = 0; i < n; ++i) {
        const Pt c = rnd();
        for (size_t k = size_t(g.irange(1, 7)); k > 0; --k) p.push_back(Pt{c.a + g.irange(-3, 3), c.b + g.irange(-3, 3)});
      }
      break;
    }
    default: {
      const size_t n = g.chance(1, 60) ? size_t(g.irange(100, 400)) : size_t(g.irange(3, 40));
      for (size_t i = 0; i < n; ++i) p.push_back(rnd());
      break;
    }
  }
  // duplicates
  const size_t n = p.size();
  if (n && g.below(2))
    for (size_t i = g.below(4); i > 0; --i) p.push_back(p[g.below(n)]);
  g.shuffle(p);
  if (n && g.chance(1, 8)) { // any order: sorted, or the same point many times over at the front or anywhere else
    if (g.below(2)) std::sort(p.begin(), p.end());
    if (g.below(2)) std::reverse(p.begin(), p.end());
    const size_t at = g.below(2) ? 0 : g.below(p.size() + 1), which = g.below(p.size());
    const Pt x = p[which];
    if (g.below(2)) p.insert(p.begin() + long(at), size_t(g.irange(1, 70)), x);
  }
  return p;
}

template <typename T> static std::vector<vec<T, 3>> cyc(std::vector<vec<T, 3>> v) {
  if (v.empty()) return v;
  size_t k = 0;
  const auto less = [](const vec<T, 3>& a, const vec<T, 3>& b) {
    for (size_t i = 0; i < 3; ++i)
      if (a.v[i] != b.v[i]) return a.v[i] < b.v[i];
    return false;
  };
  for (size_t i = 1; i < v.size(); ++i)
    if (less(v[i], v[k])) k = i;
  std::rotate(v.begin(), v.begin() + long(k), v.end());
  return v;
}
template <typename T> static bool same_list(const std::vector<vec<T, 3>>& a, const std::vector<vec<T, 3>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < 3; ++j)
      if (a[i].v[j] != b[i].v[j]) return false;
  return true;
}

template <typename T> static void exact(Rng& g) {
  const bool large = sizeof(T) == 8 && g.chance(1, 3);
  const auto pts = cloud(g, large ? 2000 : 6);
  auto f = frame<T>(g);
  if (g.below(2)) f.scale = T(std::ldexp(1.0, g.chance(1, 4) ? int(g.irange(1, 20)) : -int(g.irange(1, 12))));
  std::vector<vec<T, 3>> in;
  for (const auto& p : pts) in.push_back(f.map(p));
  if (f.scale < T(1) && !corners_of(pts).empty() && !beyond_tolerance(in)) {
    OBS("colinear within the tolerance, not judged");
    return;
  }
  const auto before = in;
  const auto out = vm::convex_hull(in);
  const auto where = P(in) + " hull " + P(out);
  CHK(same_list(in, before), "input unchanged", where);
  const auto corner = corners_of(pts);
  if (corner.empty()) {
    CHK(out.empty(), "no hull of fewer than three non-colinear points", where);
    OBS(pts.size() < 3 ? "few points" : "colinear");
    return;
  }
  OBS("hull");
  // back to the integer coordinates
  std::vector<Pt> h;
  for (const auto& v : out) {
    bool found = false;
    for (size_t i = 0; i < in.size() && !found; ++i)
      if (same_list<T>({in[i]}, {v})) {
        h.push_back(pts[i]);
        found = true;
      }
    CHK(found, "hull vertices are input points", where);
    if (!found) return;
  }
  CHK(h.size() >= 3, "hull has at least three vertices", where);
  if (h.size() < 3) return;
  // one winding, no vertex twice, every input point on the inner side of every edge
  long area2 = 0;
  for (size_t i = 0; i < h.size(); ++i) area2 += cr(Pt{0, 0}, h[i], h[(i + 1) % h.size()]);
  CHK(area2 != 0, "hull has an area", where);
  const long s = area2 < 0 ? -1 : 1;
  bool convex = true, contains = true, distinct = true;
  for (size_t i = 0; i < h.size(); ++i) {
    const Pt &a = h[i], &b = h[(i + 1) % h.size()], &c = h[(i + 2) % h.size()];
    if (a == b) distinct = false;
    if (s * cr(a, b, c) < 0) convex = false;
    for (const auto& p : pts)
      if (s * cr(a, b, p) < 0) contains = false;
    for (size_t j = 0; j < i; ++j)
      if (h[j] == a) distinct = false;
  }
  CHK(distinct, "no vertex twice", where);
  CHK(convex, "convex and consistently wound", where);
  CHK(contains, "contains every point", where);
  // corners all there
  bool all = true;
  for (const auto& c : corner) {
    bool found = false;
    for (const auto& x : h) found = found || x == c;
    all = all && found;
  }
  CHK(all, "every corner of the true hull is reported", where);
  // no interior point
  bool interior = false;
  for (const auto& x : h) {
    bool strict = true;
    for (size_t i = 0; i < corner.size(); ++i)
      if (cr(corner[i], corner[(i + 1) % corner.size()], x) <= 0) strict = false;
    interior = interior || strict;
  }
  CHK(!interior, "no interior point is reported", where);
  if (h.size() > corner.size()) OBS("with points on edges");

  // order and multiplicity
  for (int k = 0; k < 3; ++k) {
    auto in2 = in;
    for (size_t d = g.below(4); d > 0; --d) in2.push_back(in[g.below(in.size())]);
    g.shuffle(in2);
    if (k == 2) std::sort(in2.begin(), in2.end(), [](const auto& a, const auto& b) { return std::lexicographical_compare(a.v, a.v + 3, b.v, b.v + 3); });
    const auto out2 = vm::convex_hull(in2);
    CHK(same_list(cyc(out), cyc(out2)), "independent of order and multiplicity", where << " reordered " << P(in2) << " hull " << P(out2));
  }
  // idempotent
  const auto again = vm::convex_hull(out);
  bool idem = true;
  for (const auto& c : corner) {
    bool found = false;
    const auto v = f.map(c);
    for (const auto& x : again) found = found || same_list<T>({x}, {v});
    idem = idem && found;
  }
  CHK(idem && again.size() <= out.size(), "hull of the hull", where << " again " << P(again));
}
MON_GROUP_T(exact, 30000, double)
MON_GROUP_T(exact, 30000, float)

// arbitrary real points on an arbitrary plane: judged with a margin
template <typename T> static void reals(Rng& g) {
  const L3 n = ldir<3>(g), u = lperp(g, n), w = lcross(n, u), o = lv(cvec<T, 3>(g, 50));
  const size_t k = size_t(g.irange(4, sizeof(T) == 8 ? 30 : 14));
  std::vector<vec<T, 3>> in;
  std::vector<std::array<L, 2>> ab;
  for (size_t i = 0; i < k; ++i) {
    const L a = L(g.real(-50, 50)), b = L(g.real(-50, 50));
    in.push_back(tov<T>(o + u * a + w * b));
    ab.push_back({a, b});
  }
  const L margin = sizeof(T) == 8 ? 1e-6L : 0.05L;
  const auto side = [&](const std::array<L, 2>& p, const std::array<L, 2>& q, const std::array<L, 2>& x) {
    const L dx = q[0] - p[0], dy = q[1] - p[1];
    return (dx * (x[1] - p[1]) - dy * (x[0] - p[0])) / std::sqrt(dx * dx + dy * dy);
  };
  // skip clouds with nearly coinciding or nearly colinear points
  for (size_t i = 0; i < k; ++i)
    for (size_t j = i + 1; j < k; ++j) {
      if (std::hypot(ab[i][0] - ab[j][0], ab[i][1] - ab[j][1]) < 1) return;
      for (size_t m = j + 1; m < k; ++m)
        if (std::fabs(side(ab[i], ab[j], ab[m])) < 4 * margin) {
          OBS("nearly colinear, not judged");
          return;
        }
    }
  const auto out = vm::convex_hull(in);
  const auto where = P(in) + " hull " + P(out);
  std::vector<size_t> idx;
  for (const auto& v : out) {
    size_t f = k;
    for (size_t i = 0; i < k; ++i)
      if (same_list<T>({in[i]}, {v})) f = i;
    CHK(f < k, "hull vertices are input points", where);
    if (f == k) return;
    idx.push_back(f);
  }
  // a point is a corner iff some line through it leaves all others on one side
  std::set<size_t> corner;
  for (size_t i = 0; i < k; ++i)
    for (size_t j = 0; j < k; ++j) {
      if (i == j) continue;
      bool edge = true;
      for (size_t m = 0; m < k && edge; ++m)
        if (m != i && m != j && side(ab[i], ab[j], ab[m]) < 0) edge = false;
      if (edge) {
        corner.insert(i);
        corner.insert(j);
      }
    }
  CHK(std::set<size_t>(idx.begin(), idx.end()) == corner && idx.size() == corner.size(), "exactly the corners are reported", where);
  if (idx.size() != corner.size()) return;
  int pos = 0, neg = 0;
  for (size_t i = 0; i < idx.size(); ++i) {
    const L s = side(ab[idx[i]], ab[idx[(i + 1) % idx.size()]], ab[idx[(i + 2) % idx.size()]]);
    ++(s > 0 ? pos : neg);
  }
  CHK(pos == 0 || neg == 0, "convex and consistently wound", where);
  OBS("judged");
}
MON_GROUP_T(reals, 8000, double)
MON_GROUP_T(reals, 4000, float)

MON_MAIN("C23")
