// C16: bounding box geometry
#include "gen.h"

using vm::bbox;

// dyadic corners: all sums and differences are exact
template <typename T, size_t S> static bbox<T, S> dbox(Rng& g, bool flat = true) {
  vec<T, S> lo, hi;
  for (size_t i = 0; i < S; ++i) {
    lo[i] = T(g.irange(-400, 400)) / T(8);
    hi[i] = lo[i] + (flat && g.chance(1, 10) ? T(0) : T(g.irange(1, 400)) / T(8));
  }
  return bbox<T, S>(lo, hi);
}
template <typename T, size_t S> static bbox<T, S> rbox(Rng& g) {
  vec<T, S> lo, hi;
  for (size_t i = 0; i < S; ++i) {
    T a = g.nice<T>(), b = g.nice<T>();
    if (a > b) std::swap(a, b);
    lo[i] = a;
    hi[i] = b;
  }
  return bbox<T, S>(lo, hi);
}
template <typename T, size_t S> static bbox<T, S> scaled(const bbox<T, S>& b, T f) { return bbox<T, S>(b.min * f, b.max * f); }
template <typename T, size_t S> static void measures(Rng& g) {
  const T sc = g.below(2) ? T(1) : T(lscale(g, -18, 18));
  const auto b = scaled(g.below(2) ? dbox<T, S>(g) : rbox<T, S>(g), sc);
  const auto s = b.size(), c = b.center();
  L v = 1;
  for (size_t i = 0; i < S; ++i) {
    const L m = std::fabs(L(b.min[i])) + std::fabs(L(b.max[i]));
    CHK(near(s[i], L(b.max[i]) - b.min[i], 2 * eps<T>() * m), "size", P(b) << " got " << P(s));
    CHK(near(c[i], (L(b.max[i]) + b.min[i]) / 2, 2 * eps<T>() * m), "center", P(b) << " got " << P(c));
    v *= L(s[i]);
  }
  if (std::fabs(v) < L(std::numeric_limits<T>::max()) / 16) CHK(near(b.volume(), v, 4 * S * eps<T>() * std::fabs(v)), "volume", P(b) << " expected " << v << " got " << b.volume());
  const auto d = scaled(dbox<T, S>(g, false), sc);
  L dv = 1;
  for (size_t i = 0; i < S; ++i) dv *= L(d.max[i]) - d.min[i];
  if (dv < L(std::numeric_limits<T>::max()) / 16) CHK(near(d.volume(), dv, 4 * S * eps<T>() * dv), "volume", P(d) << " expected " << dv << " got " << d.volume());
  // expansion and translation
  const T f = T(g.irange(0, 100)) / T(4) * sc;
  const auto e = d.expand(f);
  const auto o = vec<T, S>(ivec<T, S>(g, 300)) / T(8) * sc;
  const auto t = d.translate(o);
  for (size_t i = 0; i < S; ++i) {
    CHK(e.min[i] == d.min[i] - f && e.max[i] == d.max[i] + f, "expand", P(d) << f << " got " << P(e));
    CHK(t.min[i] == d.min[i] + o[i] && t.max[i] == d.max[i] + o[i], "translate", P(d) << P(o) << " got " << P(t));
  }
  CHK(e.expand(-f) == d, "shrinking again", P(d) << f);
  CHK(t.translate(-o) == d, "translating back", P(d) << P(o));
  { // as far inwards as the smallest extent allows
    T h = d.max[0] - d.min[0];
    for (size_t i = 1; i < S; ++i) h = std::min(h, d.max[i] - d.min[i]);
    h = h / T(2);
    const auto n = d.expand(-h);
    CHK(n.is_valid() && d.contains(n), "shrunk box", P(d) << h << P(n));
    for (size_t i = 0; i < S; ++i) CHK(n.min[i] == d.min[i] + h && n.max[i] == d.max[i] - h, "shrinking", P(d) << h << P(n));
  }
  { // all magnitudes: one rounding per coordinate
    bbox<T, S> w;
    vec<T, S> o2;
    for (size_t i = 0; i < S; ++i) {
      T x = g.wild_finite<T>() / T(4), y = g.wild_finite<T>() / T(4);
      if (x > y) std::swap(x, y);
      w.min[i] = x;
      w.max[i] = y;
      o2[i] = g.wild_finite<T>() / T(4);
    }
    const T q = std::fabs(g.wild_finite<T>() / T(4));
    const auto ws = w.size(), wc = w.center();
    const auto we = w.expand(q), wt = w.translate(o2);
    for (size_t i = 0; i < S; ++i) {
      CHK(ws[i] == w.max[i] - w.min[i], "size", P(w) << " got " << P(ws));
      const L ce = (L(w.max[i]) + w.min[i]) / 2;
      CHK(near(wc[i], ce, 2 * eps<T>() * (std::fabs(L(w.max[i])) + std::fabs(L(w.min[i]))) + std::numeric_limits<T>::min()), "center", P(w) << " got " << P(wc));
      CHK(we.min[i] == w.min[i] - q && we.max[i] == w.max[i] + q, "expand", P(w) << q << " got " << P(we));
      CHK(wt.min[i] == w.min[i] + o2[i] && wt.max[i] == w.max[i] + o2[i], "translate", P(w) << P(o2) << " got " << P(wt));
    }
    using N = std::numeric_limits<T>;
    using B = bbox<T, S>;
    vec<T, S> p;
    for (size_t i = 0; i < S; ++i) switch (g.below(7)) {
        case 0: p[i] = w.min[i]; break;
        case 1: p[i] = w.max[i]; break;
        case 2: p[i] = std::nextafter(w.min[i], N::lowest()); break;
        case 3: p[i] = std::nextafter(w.max[i], N::max()); break;
        case 4: p[i] = std::nextafter(w.min[i], N::max()); break;
        case 5: p[i] = std::nextafter(w.max[i], N::lowest()); break;
        default: p[i] = g.wild_finite<T>(); break;
      }
    const auto rp = w.relative_position(p);
    for (size_t i = 0; i < S; ++i) CHK(rp[i] == (p[i] < w.min[i] ? B::Range::less : p[i] > w.max[i] ? B::Range::greater : B::Range::within), "relative position", P(w) << P(p));
    typename B::Corner cs[S];
    for (size_t i = 0; i < S; ++i) cs[i] = g.below(2) ? B::Corner::max : B::Corner::min;
    const auto c = w.corner(cs);
    for (size_t i = 0; i < S; ++i) CHK(c[i] == (cs[i] == B::Corner::max ? w.max[i] : w.min[i]), "corner", P(w) << P(c));
  }
  // repair
  bbox<T, S> bad;
  for (size_t i = 0; i < S; ++i) {
    bad.min[i] = g.wild_finite<T>();
    bad.max[i] = g.wild_finite<T>();
  }
  const auto r = vm::repair(bad);
  CHK(r.is_valid(), "repaired box is valid", P(r));
  for (size_t i = 0; i < S; ++i) CHK(r.min[i] == std::min(bad.min[i], bad.max[i]) && r.max[i] == std::max(bad.min[i], bad.max[i]), "repair orders the corners", P(bad) << " got " << P(r));
  CHK(vm::repair(d) == d, "repair of a valid box", P(d));
  // corner and relative position
  using B = bbox<T, S>;
  typename B::Corner cs[S];
  vec<T, S> p;
  for (size_t i = 0; i < S; ++i) {
    const bool mx = g.below(2);
    cs[i] = mx ? B::Corner::max : B::Corner::min;
    p[i] = mx ? d.max[i] : d.min[i];
  }
  CHK(d.corner(cs) == p, "corner", P(d) << " expected " << P(p) << " got " << P(d.corner(cs)));
  vec<T, S> q;
  std::array<typename B::Range, S> er{};
  for (size_t i = 0; i < S; ++i) {
    switch (g.below(5)) {
      case 0: q[i] = d.min[i] - sc / T(16); er[i] = B::Range::less; break;
      case 1: q[i] = d.max[i] + sc / T(16); er[i] = B::Range::greater; break;
      case 2: q[i] = d.min[i]; er[i] = B::Range::within; break;
      case 3: q[i] = d.max[i]; er[i] = B::Range::within; break;
      default: q[i] = (d.min[i] + d.max[i]) / T(2); er[i] = B::Range::within; break;
    }
  }
  CHK((d.relative_position(q) == er), "relative position", P(d) << P(q));
}
MON_GROUP_T(measures, 15000, double, 1)
MON_GROUP_T(measures, 15000, float, 2)
MON_GROUP_T(measures, 15000, float, 3)
MON_GROUP_T(measures, 20000, double, 3)
MON_GROUP_T(measures, 10000, double, 4)
MON_GROUP_T(measures, 5000, double, 2)
MON_GROUP_T(measures, 5000, float, 1)
MON_GROUP_T(measures, 5000, float, 4)
MON_GROUP_T(measures, 2500, double, 5)
MON_GROUP_T(measures, 2500, float, 5)
MON_GROUP_T(measures, 2500, double, 6)
MON_GROUP_T(measures, 2500, double, 8)

template <typename T> static unsigned corner_id(const bbox<T, 3>& b, const vec<T, 3>& p, L tol) {
  unsigned id = 0;
  for (size_t i = 0; i < 3; ++i) {
    const bool lo = near(p[i], b.min[i], tol), hi = near(p[i], b.max[i], tol);
    if (lo == hi) return 8;
    if (hi) id |= 1u << i;
  }
  return id;
}
template <typename T> static void enumeration(Rng& g) {
  const bool exact = g.below(2);
  bbox<T, 3> b;
  const T sc = g.below(2) ? T(1) : T(lscale(g, -30, 30));
  if (exact) {
    b = dbox<T, 3>(g, false);
  } else {
    do b = rbox<T, 3>(g);
    while (!(b.max[0] - b.min[0] > T(0.01) && b.max[1] - b.min[1] > T(0.01) && b.max[2] - b.min[2] > T(0.01)) || lmax(lv(b.size())) > 1e4L);
  }
  L tol = exact ? 0 : 8 * eps<T>() * (lmax(lv(b.min)) + lmax(lv(b.max)));
  if (!exact && tol > 0.001L) return;
  b = scaled(b, sc);
  tol *= sc;
  using V = vec<T, 3>;
  // vertices
  std::map<unsigned, int> seen;
  const auto vs = b.vertices();
  size_t nv = 0;
  b.for_each_vertex([&](const V& v) {
    ++seen[corner_id(b, v, tol)];
    if (nv < 8) CHK(vs[nv] == v, "vertices() follows for_each_vertex", P(b) << nv);
    ++nv;
  });
  CHK(nv == 8 && seen.size() == 8 && !seen.count(8), "vertices are the eight corners", P(b) << " visited " << nv << " distinct " << seen.size());
  // edges
  std::set<std::pair<unsigned, unsigned>> edges;
  size_t ne = 0;
  b.for_each_edge([&](const V& s, const V& e) {
    ++ne;
    unsigned i = corner_id(b, s, tol), j = corner_id(b, e, tol);
    CHK(i < 8 && j < 8, "edges end in corners", P(b) << P(s) << P(e));
    const unsigned x = i ^ j;
    CHK(x == 1 || x == 2 || x == 4, "edges join neighbouring corners", P(b) << P(s) << P(e));
    edges.insert({std::min(i, j), std::max(i, j)});
  });
  CHK(ne == 12 && edges.size() == 12, "every edge once", P(b) << " visited " << ne << " distinct " << edges.size());
  // faces
  std::set<std::array<int, 3>> normals;
  size_t nf = 0;
  b.for_each_face([&](const V& p0, const V& p1, const V& p2, const V& p3, const V& n) {
    ++nf;
    const V p[4] = {p0, p1, p2, p3};
    size_t ax = 3;
    for (size_t i = 0; i < 3; ++i)
      if (n[i] == T(1) || n[i] == T(-1)) ax = i;
    CHK(ax < 3 && n[(ax + 1) % 3] == T(0) && n[(ax + 2) % 3] == T(0), "normal is an axis", P(n));
    if (ax >= 3) return;
    normals.insert({int(n[0]), int(n[1]), int(n[2])});
    std::set<unsigned> ids;
    for (int i = 0; i < 4; ++i) {
      const unsigned id = corner_id(b, p[i], tol);
      ids.insert(id);
      CHK(id < 8 && (id >> ax & 1) == (n[ax] > T(0) ? 1u : 0u), "face lies on its side of the box", P(b) << " normal " << P(n) << " vertex " << P(p[i]));
      const unsigned x = id ^ corner_id(b, p[(i + 1) % 4], tol);
      CHK(x == 1 || x == 2 || x == 4, "face vertices follow the outline", P(b) << " normal " << P(n));
    }
    CHK(ids.size() == 4, "face has four corners", P(b) << " normal " << P(n));
    // all faces have the same winding relative to the outward normal: clockwise seen from outside
    const L3 c = lcross(lv(p1) - lv(p0), lv(p2) - lv(p1));
    CHK(ldot(c, lv(n)) < 0, "winding", P(b) << " normal " << P(n) << " vertices " << P(p0) << P(p1) << P(p2) << P(p3));
  });
  CHK(nf == 6 && normals.size() == 6, "every face once", P(b) << " visited " << nf << " distinct " << normals.size());
  using B = bbox<T, 3>;
  for (unsigned k = 0; k < 8; ++k) {
    const auto c = [&](unsigned i) { return k >> i & 1 ? B::Corner::max : B::Corner::min; };
    CHK(corner_id(b, b.corner(c(0), c(1), c(2)), 0) == k, "corner selector", k << P(b) << P(b.corner(c(0), c(1), c(2))));
  }
}
MON_GROUP_T(enumeration, 10000, float)
MON_GROUP_T(enumeration, 10000, double)

// boxes without extent in some dimensions: the corners are still visited, as often as they coincide
template <typename T> static void flat(Rng& g) {
  auto b = scaled(dbox<T, 3>(g, false), g.below(2) ? T(1) : T(lscale(g, -30, 30)));
  const unsigned k = 1 + unsigned(g.below(7));
  for (size_t i = 0; i < 3; ++i)
    if (k >> i & 1) b.max[i] = b.min[i];
  using V = vec<T, 3>;
  using A = std::array<T, 3>;
  const auto key = [](const V& v) { return A{v[0], v[1], v[2]}; };
  std::map<A, int> expected, got, vgot;
  std::map<std::pair<A, A>, int> eexp, egot;
  for (unsigned c = 0; c < 8; ++c) {
    V p;
    for (size_t i = 0; i < 3; ++i) p[i] = c >> i & 1 ? b.max[i] : b.min[i];
    ++expected[key(p)];
    for (size_t i = 0; i < 3; ++i) {
      if (c >> i & 1) continue;
      V q = p;
      q[i] = b.max[i];
      ++eexp[{std::min(key(p), key(q)), std::max(key(p), key(q))}];
    }
  }
  b.for_each_vertex([&](const V& v) { ++got[key(v)]; });
  for (const auto& v : b.vertices()) ++vgot[key(v)];
  CHK(got == expected && vgot == expected, "corners of a flat box", P(b));
  b.for_each_edge([&](const V& s, const V& e) { ++egot[{std::min(key(s), key(e)), std::max(key(s), key(e))}]; });
  CHK(egot == eexp, "edges of a flat box", P(b));
  std::map<A, int> normals, fgot;
  b.for_each_face([&](const V& p0, const V& p1, const V& p2, const V& p3, const V& n) {
    ++normals[key(n)];
    for (const auto& p : {p0, p1, p2, p3}) {
      ++fgot[key(p)];
      for (size_t i = 0; i < 3; ++i)
        if (n[i] != T(0)) CHK(p[i] == (n[i] > T(0) ? b.max[i] : b.min[i]), "face of a flat box lies on its side", P(b) << P(n) << P(p));
    }
  });
  for (auto& e : expected) e.second *= 3;
  CHK(normals.size() == 6 && fgot == expected, "faces of a flat box", P(b));
}
MON_GROUP_T(flat, 4000, float)
MON_GROUP_T(flat, 4000, double)

template <typename T> static void transformation(Rng& g) {
  const L sc = g.below(2) ? L(1) : lscale(g, -20, 20);
  const auto b = scaled(dbox<T, 3>(g), T(sc));
  auto am = laffine(g);
  for (size_t i = 0; i < 3; ++i) am[i][3] *= sc;
  // a projection as well, the box staying on one side
  const bool projective = g.chance(1, 6);
  if (projective) {
    L far = 0;
    for (size_t i = 0; i < 3; ++i) far = std::max({far, std::fabs(L(b.min[i])), std::fabs(L(b.max[i]))});
    for (size_t i = 0; i < 3 && far > 0; ++i) am[3][i] = L(g.real(-0.2, 0.2)) / far;
  }
  const auto m = tom<T, 4, 4>(am);
  const auto A = lm(m);
  const auto r = b.transform(homogeneous_twin(g, m));
  L3 lo{1e30L, 1e30L, 1e30L}, hi{-1e30L, -1e30L, -1e30L};
  L mag = 0, tr = std::max({std::fabs(A[0][3]), std::fabs(A[1][3]), std::fabs(A[2][3])});
  L lin = 0;
  for (size_t i = 0; i < 3; ++i) lin = std::max(lin, std::fabs(A[i][0]) + std::fabs(A[i][1]) + std::fabs(A[i][2]));
  for (unsigned k = 0; k < 8; ++k) {
    L3 p;
    for (size_t i = 0; i < 3; ++i) p[i] = k >> i & 1 ? b.max[i] : b.min[i];
    const L3 q = lpoint(A, p);
    for (size_t i = 0; i < 3; ++i) {
      lo[i] = std::min(lo[i], q[i]);
      hi[i] = std::max(hi[i], q[i]);
    }
    mag = std::max(mag, (projective ? 10 : 1) * (lmax(p) * lin + tr));
  }
  OBS(projective ? "projective" : "affine");
  CHK(r.is_valid(), "transformed box is valid", P(r));
  for (size_t i = 0; i < 3; ++i) {
    CHK(near(r.min[i], lo[i], 20 * eps<T>() * mag), "transformed minimum", P(b) << P(m) << " expected " << P(lo) << P(hi) << " got " << P(r));
    CHK(near(r.max[i], hi[i], 20 * eps<T>() * mag), "transformed maximum", P(b) << P(m) << " expected " << P(lo) << P(hi) << " got " << P(r));
  }
}
MON_GROUP_T(transformation, 30000, float)
MON_GROUP_T(transformation, 30000, double)

MON_MAIN("C16")
