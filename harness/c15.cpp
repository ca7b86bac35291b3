// C15: bounding boxes as sets
#include "gen.h"

#include <list>

using vm::bbox;

// boxes with corners on a small grid: touching, nested, degenerate and disjoint ones are all likely
template <typename T, size_t S> static bbox<T, S> gbox(Rng& g, long n = 4) {
  vec<T, S> lo, hi;
  for (size_t i = 0; i < S; ++i) {
    long a = g.irange(0, n), b = g.irange(0, n);
    if (a > b) std::swap(a, b);
    lo[i] = T(a - 2);
    hi[i] = T(b - 2);
  }
  return bbox<T, S>(lo, hi);
}
template <typename T, size_t S> static bbox<T, S> wbox(Rng& g) {
  vec<T, S> lo, hi;
  for (size_t i = 0; i < S; ++i) {
    T a = g.wild_finite<T>(), b = g.chance(1, 5) ? a : g.wild_finite<T>();
    if (a > b) std::swap(a, b);
    lo[i] = a;
    hi[i] = b;
  }
  return bbox<T, S>(lo, hi);
}
template <typename T, size_t S> static bool in(const bbox<T, S>& b, const vec<T, S>& p) {
  for (size_t i = 0; i < S; ++i)
    if (!(b.min[i] <= p[i] && p[i] <= b.max[i])) return false;
  return true;
}
// a value equal to, next to or between interesting coordinates
template <typename T> static T around(Rng& g, T a, T b) {
  using N = std::numeric_limits<T>;
  switch (g.below(6)) {
    case 0: return a;
    case 1: return b;
    case 2: return std::nextafter(a, N::lowest());
    case 3: return std::nextafter(b, N::max());
    case 4: return a / T(2) + b / T(2);
    default: return g.wild_finite<T>();
  }
}
template <typename T, size_t S> static vec<T, S> probe(Rng& g, const bbox<T, S>& b) {
  vec<T, S> p;
  if (g.chance(2, 3)) { // inside in all but possibly one dimension
    for (size_t i = 0; i < S; ++i) p[i] = g.below(2) ? b.min[i] : g.below(2) ? b.max[i] : b.min[i] / T(2) + b.max[i] / T(2);
    if (g.below(2)) {
      const size_t k = g.below(S);
      p[k] = around<T>(g, b.min[k], b.max[k]);
    }
  } else {
    for (size_t i = 0; i < S; ++i) p[i] = around<T>(g, b.min[i], b.max[i]);
  }
  return p;
}

template <typename T, size_t S> static void laws(Rng& g, const bbox<T, S>& a, const bbox<T, S>& b, const vec<T, S>& p) {
  bool overlap = true, cont = true, encl = true;
  for (size_t i = 0; i < S; ++i) {
    overlap = overlap && std::max(a.min[i], b.min[i]) <= std::min(a.max[i], b.max[i]);
    cont = cont && a.min[i] <= b.min[i] && b.max[i] <= a.max[i];
    encl = encl && a.min[i] < b.min[i] && b.max[i] < a.max[i];
  }
  CHK(a.contains(p) == in(a, p), "contains point", P(a) << P(p));
  CHK(a.contains(b) == cont, "contains box", P(a) << P(b));
  CHK(a.encloses(b) == encl, "encloses box", P(a) << P(b));
  CHK(a.intersects(b) == overlap && b.intersects(a) == overlap, "intersects", P(a) << P(b));
  OBS(encl ? "enclosed" : cont ? "contained" : overlap ? "overlapping" : "disjoint");
  // intersection
  const auto x = vm::intersect(a, b);
  CHK(x.is_valid(), "intersection is valid", P(a) << P(b) << P(x));
  if (overlap) {
    for (size_t i = 0; i < S; ++i) CHK(x.min[i] == std::max(a.min[i], b.min[i]) && x.max[i] == std::min(a.max[i], b.max[i]), "intersection", P(a) << P(b) << " got " << P(x));
    CHK(x.contains(p) == (in(a, p) && in(b, p)), "intersection has the common points", P(a) << P(b) << P(p) << P(x));
  } else {
    CHK((x.min == vec<T, S>::zero() && x.max == vec<T, S>::zero()), "empty intersection", P(a) << P(b) << P(x));
  }
  // merge
  const auto m = vm::merge(a, b);
  CHK(m.is_valid() && m.contains(a) && m.contains(b), "merge contains both", P(a) << P(b) << P(m));
  for (size_t i = 0; i < S; ++i) CHK(m.min[i] == std::min(a.min[i], b.min[i]) && m.max[i] == std::max(a.max[i], b.max[i]), "merge is smallest", P(a) << P(b) << " got " << P(m));
  CHK(vm::merge(b, a) == m, "merge commutes", P(a) << P(b));
  const auto mp = vm::merge(a, p);
  for (size_t i = 0; i < S; ++i) CHK(mp.min[i] == std::min(a.min[i], p[i]) && mp.max[i] == std::max(a.max[i], p[i]), "merge with point", P(a) << P(p) << " got " << P(mp));
  // nearest point
  const auto c = a.constrain(p);
  CHK(in(a, c), "constrained point is in the box", P(a) << P(p) << P(c));
  for (size_t i = 0; i < S; ++i) {
    const T e = p[i] < a.min[i] ? a.min[i] : p[i] > a.max[i] ? a.max[i] : p[i];
    CHK(c[i] == e, "constrain", P(a) << P(p) << " got " << P(c));
  }
  CHK(a.constrain(c) == c, "constrain again", P(a) << P(c));
  // equality
  CHK((a == b) == (a.min == b.min && a.max == b.max) && (a != b) == !(a == b), "equality", P(a) << P(b));
  CHK(a == a && !(a != a), "equal to itself", P(a));
  bool valid = true, empty = false;
  for (size_t i = 0; i < S; ++i) {
    valid = valid && b.min[i] <= a.max[i];
    empty = empty || a.min[i] == a.max[i];
  }
  CHK((bbox<T, S>::is_valid(b.min, a.max) == valid), "is_valid", P(b.min) << P(a.max));
  CHK(a.is_empty() == empty, "is_empty", P(a));
}
template <typename T, size_t S> static void grid(Rng& g) {
  const auto a = gbox<T, S>(g), b = gbox<T, S>(g);
  const auto p = ivec<T, S>(g, 4) / T(g.irange(1, 2));
  laws<T, S>(g, a, b, p);
  // pointwise over the whole half grid: the definitions of the tests
  bool any = false, all_b_in_a = true;
  const size_t side = 9 + 2;
  size_t total = 1;
  for (size_t i = 0; i < S; ++i) total *= side;
  for (size_t k = 0; k < total; ++k) {
    vec<T, S> q;
    size_t r = k;
    for (size_t i = 0; i < S; ++i) {
      q[i] = T(long(r % side)) / T(2) - T(2.5);
      r /= side;
    }
    const bool ia = a.contains(q), ib = b.contains(q);
    any = any || (ia && ib);
    if (ib && !ia) all_b_in_a = false;
  }
  CHK(a.intersects(b) == any, "boxes overlap when they share a point", P(a) << P(b));
  CHK(a.contains(b) == all_b_in_a, "contains box when it contains its points", P(a) << P(b));
}
MON_GROUP_T(grid, 20000, double, 1)
MON_GROUP_T(grid, 20000, float, 2)
MON_GROUP_T(grid, 6000, double, 3)
MON_GROUP_T(grid, 3000, double, 2)
MON_GROUP_T(grid, 3000, float, 3)
MON_GROUP_T(grid, 3000, float, 1)

template <typename T, size_t S> static void any_values(Rng& g) {
  const auto a = wbox<T, S>(g);
  auto b = wbox<T, S>(g);
  if (g.below(2)) { // a variation of a
    for (size_t i = 0; i < S; ++i) {
      T x = around<T>(g, a.min[i], a.max[i]), y = around<T>(g, a.min[i], a.max[i]);
      if (x > y) std::swap(x, y);
      b.min[i] = x;
      b.max[i] = y;
    }
  }
  laws<T, S>(g, a, b, probe<T, S>(g, a));
}
MON_GROUP_T(any_values, 20000, float, 1)
MON_GROUP_T(any_values, 20000, double, 2)
MON_GROUP_T(any_values, 30000, float, 3)
MON_GROUP_T(any_values, 30000, double, 3)
MON_GROUP_T(any_values, 10000, double, 4)
MON_GROUP_T(any_values, 10000, double, 1)
MON_GROUP_T(any_values, 10000, float, 2)
MON_GROUP_T(any_values, 10000, float, 4)
MON_GROUP_T(any_values, 5000, double, 5)
MON_GROUP_T(any_values, 2500, float, 5)
MON_GROUP_T(any_values, 2500, double, 6)
MON_GROUP_T(any_values, 2500, double, 8)

template <typename T, size_t S> static void tolerance(Rng& g) {
  auto a = gbox<T, S>(g);
  const T f = g.below(2) ? T(1) : T(lscale(g, -20, 20));
  a.min = a.min * f;
  a.max = a.max * f;
  auto b = a;
  const T d = T(g.irange(1, 30)) / T(8) * f;
  const size_t k = g.below(S);
  if (g.below(2)) b.min[k] -= d;
  else b.max[k] += d;
  CHK(a != b && !(a == b), "different corner", P(a) << P(b));
  CHK(vm::is_equal(a, b, d) && vm::is_equal(b, a, d), "equal within epsilon", P(a) << P(b) << d);
  CHK(vm::is_equal(a, a, T(0)) && vm::is_equal(a, b, d * T(g.irange(2, 1000))), "equal within a larger epsilon", P(a) << P(b) << d);
  CHK(!vm::is_equal(a, b, T(0)) && !vm::is_equal(a, b, d / T(2)), "different without tolerance", P(a) << P(b) << d);
  auto w = b; // both corners differ: the larger difference decides
  const T e = T(g.irange(1, 60)) / T(8) * f;
  const size_t j = g.below(S);
  if (w.max[k] == a.max[k]) w.max[j] += e;
  else w.min[j] -= e;
  CHK(vm::is_equal(a, w, std::max(d, e)) && vm::is_equal(w, a, std::max(d, e)), "equal within the larger difference", P(a) << P(w));
  CHK(d == e || (!vm::is_equal(a, w, std::min(d, e)) && !vm::is_equal(w, a, std::min(d, e))), "different beyond the smaller difference", P(a) << P(w));
  CHK(!vm::is_equal(a, b, d * T(0.99)) && !vm::is_equal(b, a, d * T(0.99)), "different beyond epsilon", P(a) << P(b) << d);
}
MON_GROUP_T(tolerance, 10000, float, 2)
MON_GROUP_T(tolerance, 10000, double, 3)
MON_GROUP_T(tolerance, 5000, float, 1)
MON_GROUP_T(tolerance, 5000, float, 4)
MON_GROUP_T(tolerance, 2500, double, 1)
MON_GROUP_T(tolerance, 2500, double, 2)
MON_GROUP_T(tolerance, 2500, float, 3)
MON_GROUP_T(tolerance, 2500, double, 5)
MON_GROUP_T(tolerance, 2500, double, 6)

// every build history gives the merge of everything that was added
template <typename T, size_t S> static void building(Rng& g) {
  struct Item {
    bool box;
    bbox<T, S> b;
  };
  const size_t n = g.chance(1, 20) ? 1 + g.below(200) : 1 + g.below(8);
  const T f = g.below(2) ? T(1) : T(lscale(g, -30, 30));
  std::vector<Item> items;
  for (size_t i = 0; i < n; ++i) {
    Item it;
    it.box = g.below(2);
    it.b = g.below(2) ? gbox<T, S>(g) : wbox<T, S>(g);
    it.b.min = it.b.min * f;
    it.b.max = it.b.max * f;
    if (!it.box) it.b.max = it.b.min;
    items.push_back(it);
  }
  vec<T, S> lo = items[0].b.min, hi = items[0].b.max;
  for (const auto& it : items)
    for (size_t i = 0; i < S; ++i) {
      lo[i] = std::min(lo[i], it.b.min[i]);
      hi[i] = std::max(hi[i], it.b.max[i]);
    }
  typename bbox<T, S>::builder empty;
  CHK(!empty.initialized(), "new builder is not initialized", "");
  CHK((empty.bounds() == bbox<T, S>()), "bounds of an empty builder", P(empty.bounds()));
  for (int round = 0; round < 2; ++round) {
    typename bbox<T, S>::builder bd;
    vec<T, S> rlo = items[0].b.min, rhi = items[0].b.max;
    for (size_t i = 0; i < n; ++i) {
      for (size_t k = 0; k < S; ++k) {
        rlo[k] = std::min(rlo[k], items[i].b.min[k]);
        rhi[k] = std::max(rhi[k], items[i].b.max[k]);
      }
      if (g.chance(1, 8)) { // a copy goes on from the same state and leaves the original alone
        auto other = bd;
        other.add(gbox<T, S>(g, 40));
        const auto copy = bd;
        bd = copy;
      }
      if (items[i].box) {
        bd.add(items[i].b);
      } else if (g.below(2)) {
        bd.add(items[i].b.min);
      } else {
        std::list<std::pair<int, vec<T, S>>> l{{1, items[i].b.min}};
        bd.add(l.begin(), l.end(), [](const auto& e) { return e.second; });
      }
      if (g.chance(1, 4) && i + 1 < n) { // the corners of the next few items as one range
        const size_t end = i + 1 + size_t(g.below(uint64_t(std::min<size_t>(n - i, 5))));
        std::vector<vec<T, S>> run;
        for (size_t j = i + 1; j < end; ++j) {
          run.push_back(items[j].b.min);
          run.push_back(items[j].b.max);
          for (size_t k = 0; k < S; ++k) {
            rlo[k] = std::min(rlo[k], items[j].b.min[k]);
            rhi[k] = std::max(rhi[k], items[j].b.max[k]);
          }
        }
        g.shuffle(run);
        if (g.below(2)) {
          bd.add(run.begin(), run.end());
        } else {
          std::list<std::pair<int, vec<T, S>>> l;
          for (const auto& p : run) l.emplace_back(0, p);
          bd.add(l.begin(), l.end(), [](const auto& e) { return e.second; });
        }
        if (end > i + 1) OBS("range added to a box");
      }
      if (g.chance(1, 4)) {
        std::vector<vec<T, S>> none;
        bd.add(none.begin(), none.end());
      }
      CHK(bd.bounds().min == rlo && bd.bounds().max == rhi, "built box is the merge of the items so far", "expected " << P(rlo) << P(rhi) << " got " << P(bd.bounds()));
      CHK(bd.initialized() && bd.bounds().is_valid() && bd.bounds().contains(items[i].b), "box grows with every item", P(bd.bounds()) << P(items[i].b));
    }
    CHK(bd.bounds().min == lo && bd.bounds().max == hi, "built box is the merge of all items", "expected " << P(lo) << P(hi) << " got " << P(bd.bounds()));
    g.shuffle(items);
  }
  std::vector<vec<T, S>> pts;
  for (const auto& it : items) {
    pts.push_back(it.b.min);
    pts.push_back(it.b.max);
  }
  g.shuffle(pts);
  typename bbox<T, S>::builder bd;
  bd.add(pts.begin(), pts.end());
  CHK(bd.bounds().min == lo && bd.bounds().max == hi, "built from a range", P(pts) << P(bd.bounds()));
  const auto ma = bbox<T, S>::merge_all(pts.begin(), pts.end());
  CHK(ma.min == lo && ma.max == hi, "merge_all", P(pts) << P(ma));
  std::list<std::pair<vec<T, S>, int>> pl;
  for (const auto& q : pts) pl.push_back({q, 0});
  const auto mg = bbox<T, S>::merge_all(pl.begin(), pl.end(), [](const auto& e) { return e.first; });
  CHK(mg.min == lo && mg.max == hi, "merge_all with getter", P(pts) << P(mg));
}
MON_GROUP_T(building, 8000, double, 1)
MON_GROUP_T(building, 8000, float, 2)
MON_GROUP_T(building, 15000, double, 3)
MON_GROUP_T(building, 8000, float, 3)
MON_GROUP_T(building, 4000, float, 4)
MON_GROUP_T(building, 2000, double, 2)
MON_GROUP_T(building, 2000, double, 4)
MON_GROUP_T(building, 2000, double, 5)
MON_GROUP_T(building, 2000, float, 6)

template <typename T, size_t S> static void construction(Rng& g) {
  T a = g.wild_finite<T>(), b = g.wild_finite<T>();
  if (a > b) std::swap(a, b);
  const bbox<T, S> r(a, b), s(std::fabs(b)), d;
  for (size_t i = 0; i < S; ++i) {
    CHK(r.min[i] == a && r.max[i] == b, "from two numbers", a << " " << b << P(r));
    CHK(s.min[i] == -std::fabs(b) && s.max[i] == std::fabs(b), "from one number", b << P(s));
    CHK(d.min[i] == T(0) && d.max[i] == T(0), "default", P(d));
  }
  const auto w = wbox<T, S>(g);
  const bbox<double, S> c(w);
  const bbox<float, S> f(w);
  for (size_t i = 0; i < S; ++i) CHK(c.min[i] == double(w.min[i]) && c.max[i] == double(w.max[i]) && f.min[i] == float(w.min[i]) && f.max[i] == float(w.max[i]), "converted", P(w) << P(c) << P(f));
  CHK(w.is_valid() && c.is_valid() && f.is_valid(), "valid", P(w));
}
MON_GROUP_T(construction, 8000, float, 3)
MON_GROUP_T(construction, 8000, double, 2)
MON_GROUP_T(construction, 4000, float, 1)
MON_GROUP_T(construction, 4000, double, 3)
MON_GROUP_T(construction, 4000, float, 4)
MON_GROUP_T(construction, 4000, double, 5)

MON_MAIN("C15")
