// C12: affine transformation matrices
#include "gen.h"

using vm::bbox;
using vm::mat;

template <typename T> static bool close(const vec<T, 3>& a, const L3& b, L tol) {
  for (size_t i = 0; i < 3; ++i)
    if (!near(a[i], b[i], tol)) return false;
  return true;
}
template <typename T, size_t S> static void translate_scale(Rng& g) {
  auto d = g.below(2) ? ivec<T, S>(g, 50) : nvec<T, S>(g), p = g.below(2) ? ivec<T, S>(g, 50) : nvec<T, S>(g);
  if (g.chance(1, 3)) d = d * T(lscale(g, -40, 40));
  if (g.chance(1, 3)) p = p * T(lscale(g, -40, 40));
  const auto t = vm::translation_matrix(d);
  const auto tp = t * p;
  const auto f = g.below(2) ? ivec<T, S>(g, 5) : nvec<T, S>(g);
  const auto s = vm::scaling_matrix(f);
  const auto sp = s * p;
  for (size_t i = 0; i < S; ++i) {
    CHK(near(tp[i], L(p[i]) + L(d[i]), 8 * eps<T>() * (std::fabs(L(p[i])) + std::fabs(L(d[i])))), "translation", P(d) << P(p) << " got " << P(tp));
    CHK(near(sp[i], L(p[i]) * L(f[i]), 8 * eps<T>() * std::fabs(L(p[i]) * L(f[i]))), "scaling", P(f) << P(p) << " got " << P(sp));
  }
  const auto wd = wfvec<T, S>(g), wf = wfvec<T, S>(g);
  const auto wt = vm::translation_matrix(wd), ws = vm::scaling_matrix(wf);
  for (size_t c = 0; c <= S; ++c)
    for (size_t r = 0; r <= S; ++r) {
      CHK(wt[c][r] == (c == S && r < S ? wd[r] : r == c ? T(1) : T(0)), "translation matrix, any numbers", P(wd) << " got " << P(wt));
      CHK(ws[c][r] == (r == c && r < S ? wf[r] : r == c ? T(1) : T(0)), "scaling matrix, any numbers", P(wf) << " got " << P(ws));
    }
  for (size_t c = 0; c <= S; ++c)
    for (size_t r = 0; r <= S; ++r) {
      const T id = r == c ? T(1) : T(0);
      CHK(t[c][r] == (c == S && r < S ? d[r] : id), "translation matrix", P(t));
      CHK(s[c][r] == (r == c && r < S ? f[r] : id), "scaling matrix", P(s));
    }
  // moving there and back, and composing, on integers
  const auto a = ivec<T, S>(g, 50), b = ivec<T, S>(g, 50);
  CHK((vm::translation_matrix(a) * vm::translation_matrix(b) == vm::translation_matrix(a + b)), "translations compose", P(a) << P(b));
  CHK((vm::translation_matrix(a) * vm::translation_matrix(-a) == mat<T, S + 1, S + 1>::identity()), "translations invert", P(a));
  CHK((vm::scaling_matrix(a) * vm::scaling_matrix(b) == vm::scaling_matrix(a * b)), "scalings compose", P(a) << P(b));
  // extracting and stripping the translation
  auto m = nmat<T, S + 1, S + 1>(g);
  const bool affine = g.below(2) != 0; // otherwise with a perspective row
  if (affine) {
    for (size_t c = 0; c < S; ++c) m[c][S] = T(0);
    m[S][S] = T(1);
  }
  const auto ext = vm::translation_matrix(m);
  const auto str = vm::strip_translation(m);
  for (size_t c = 0; c <= S; ++c)
    for (size_t r = 0; r <= S; ++r) {
      const bool tr = c == S && r < S;
      CHK(ext[c][r] == (tr ? m[c][r] : r == c ? T(1) : T(0)), "extracted translation", P(m) << " got " << P(ext));
      CHK(str[c][r] == (tr ? T(0) : m[c][r]), "stripped translation", P(m) << " got " << P(str));
    }
  if (affine) CHK((ext * str == m), "translation after the rest", P(m) << P(ext) << P(str));
}
MON_GROUP_T(translate_scale, 15000, float, 2)
MON_GROUP_T(translate_scale, 15000, double, 2)
MON_GROUP_T(translate_scale, 15000, float, 3)
MON_GROUP_T(translate_scale, 15000, double, 3)
MON_GROUP_T(translate_scale, 7500, double, 1)
MON_GROUP_T(translate_scale, 7500, float, 4)
MON_GROUP_T(translate_scale, 7500, double, 5)

template <typename T> static void mirror(Rng& g) {
  const auto p = g.below(2) ? ivec<T, 3>(g, 50) : wfvec<T, 3>(g);
  const vm::axis::type ax[] = {vm::axis::x, vm::axis::y, vm::axis::z};
  for (size_t k = 0; k < 3; ++k) {
    const auto m = vm::mirror_matrix<T>(ax[k]);
    auto e = p;
    e[k] = -e[k];
    CHK(m * p == e, "mirrors one axis", k << P(p) << " got " << P(m * p));
    CHK((m * m == mat<T, 4, 4>::identity()), "mirroring twice", k);
  }
  const auto other = vm::axis::type(3 + g.below(9));
  CHK((vm::mirror_matrix<T>(other) == mat<T, 4, 4>::identity()), "mirrors nothing along any other axis", other);
}
MON_GROUP_T(mirror, 5000, float)
MON_GROUP_T(mirror, 5000, double)

template <typename T> static void shear(Rng& g) {
  T f[6];
  for (auto& x : f) x = g.chance(1, 3) ? T(0) : g.nice<T>();
  auto p = nvec<T, 3>(g);
  if (g.chance(1, 3)) p = p * T(lscale(g, -40, 40));
  const auto m = vm::shear_matrix(f[0], f[1], f[2], f[3], f[4], f[5]);
  const auto q = m * p;
  // Sab adds to b in proportion to a
  const L x = p[0], y = p[1], z = p[2];
  const L e[3] = {x + f[2] * y + f[4] * z, y + f[0] * x + f[5] * z, z + f[1] * x + f[3] * y};
  const L mag[3] = {std::fabs(x) + std::fabs(f[2] * y) + std::fabs(f[4] * z), std::fabs(y) + std::fabs(f[0] * x) + std::fabs(f[5] * z), std::fabs(z) + std::fabs(f[1] * x) + std::fabs(f[3] * y)};
  for (size_t i = 0; i < 3; ++i) CHK(near(q[i], e[i], 16 * eps<T>() * mag[i]), "shear", P(p) << " by " << f[0] << "," << f[1] << "," << f[2] << "," << f[3] << "," << f[4] << "," << f[5] << " got " << P(q));
}
MON_GROUP_T(shear, 20000, float)
MON_GROUP_T(shear, 20000, double)

template <typename T> static void coordinate_system(Rng& g) {
  LM<4, 4> A;
  for (;;) {
    A = laffine(g);
    A = round_to<T, 4, 4>(A);
    LM<4, 4> lin = A, li;
    for (size_t i = 0; i < 3; ++i) lin[i][3] = 0;
    L n = 0;
    for (size_t i = 0; i < 3; ++i)
      for (size_t j = 0; j < 3; ++j) n = std::max(n, std::fabs(lin[i][j]));
    lin[3][3] = n;
    if (linv<4>(lin, li) && lnorm_inf<4>(lin) * lnorm_inf<4>(li) < 200) break;
  }
  const auto col = [&](size_t j) { return L3{A[0][j], A[1][j], A[2][j]}; };
  const L3 x = col(0), y = col(1), z = col(2), o = col(3);
  const auto m = vm::coordinate_system_matrix(tov<T>(x), tov<T>(y), tov<T>(z), tov<T>(o));
  const auto p = cvec<T, 3>(g, 10);
  LM<4, 4> inv;
  linv<4>(A, inv);
  const L tol = 2000 * eps<T>() * lnorm_inf<4>(A) * lnorm_inf<4>(inv) * (lmax(lv(p)) + lmax(o) + 1) * (1 + lnorm_inf<4>(inv));
  CHK(close(m * p, lpoint(inv, lv(p)), tol), "coordinates", "p=" << P(p) << " axes " << P(x) << P(y) << P(z) << " origin " << P(o) << " got " << P(m * p) << " expected " << P(lpoint(inv, lv(p))));
  CHK(close(m * tov<T>(o), {0, 0, 0}, tol), "origin", P(o) << " got " << P(m * tov<T>(o)));
  CHK(close(m * tov<T>(o + x), {1, 0, 0}, tol), "x axis", P(x));
  CHK(close(m * tov<T>(o + y), {0, 1, 0}, tol), "y axis", P(y));
  CHK(close(m * tov<T>(o + z), {0, 0, 1}, tol), "z axis", P(z));
}
MON_GROUP_T(coordinate_system, 12000, float)
MON_GROUP_T(coordinate_system, 12000, double)

template <typename T> static bbox<T, 3> rbox(Rng& g, T f = T(1)) {
  vec<T, 3> lo, hi;
  for (size_t i = 0; i < 3; ++i) {
    lo[i] = g.below(2) ? T(g.irange(-20, 20)) : T(g.real(-20, 20));
    hi[i] = lo[i] + (g.below(2) ? T(g.irange(1, 12)) : T(g.real(0.5, 12)));
  }
  return bbox<T, 3>(lo * f, hi * f);
}
template <typename T> static void scale_box(Rng& g) {
  const T fa = g.chance(1, 3) ? T(lscale(g, -20, 20)) : T(1);
  const bool related = g.chance(1, 4);
  const T fb = related ? fa : g.chance(1, 3) ? T(lscale(g, -20, 20)) : T(1);
  const auto a = rbox<T>(g, fa);
  auto b = rbox<T>(g, fb);
  if (related) // boxes that have sizes and faces in common
    for (size_t i = 0; i < 3; ++i) {
      const unsigned how = g.below(6);
      const T size = how < 4 ? a.max[i] - a.min[i] : b.max[i] - b.min[i];
      if (how == 0 || how == 1 || how == 4) b.min[i] = a.min[i];
      b.max[i] = how == 0 || how == 1 ? a.max[i] : b.min[i] + size;
    }
  const auto m = vm::scale_bbox_matrix(a, b);
  const L tol = 4000 * eps<T>() * 30 * fb;
  for (unsigned k = 0; k < 9; ++k) {
    L3 p, e;
    vec<T, 3> tp;
    for (size_t i = 0; i < 3; ++i) {
      tp[i] = k < 8 ? (k >> i & 1 ? a.max[i] : a.min[i]) : T(g.real(a.min[i], a.max[i]));
      p[i] = tp[i];
      e[i] = b.min[i] + (p[i] - a.min[i]) * (L(b.max[i]) - b.min[i]) / (L(a.max[i]) - a.min[i]);
    }
    CHK(close(m * tp, e, tol), "box to box", P(a) << P(b) << P(tp) << " expected " << P(e) << " got " << P(m * tp));
  }
  // scaling about an anchor
  vec<T, 3> size, anchor;
  for (size_t i = 0; i < 3; ++i) {
    size[i] = g.chance(1, 5) ? a.max[i] - a.min[i] : T(g.real(-12, 12)) * fb;
    anchor[i] = g.pick(std::array<T, 4>{a.min[i], a.max[i], (a.min[i] + a.max[i]) / T(2), T(g.real(-20, 20)) * fa});
  }
  const auto w = vm::scale_bbox_matrix_with_anchor(a, size, anchor);
  const L wt = 4000 * eps<T>() * 30 * std::max(fa, fb);
  CHK(close(w * anchor, lv(anchor), wt), "anchor is fixed", P(a) << P(size) << P(anchor) << " got " << P(w * anchor));
  const auto p = cvec<T, 3>(g, 20) * fa;
  L3 e;
  for (size_t i = 0; i < 3; ++i) {
    const L f = L(size[i]) / (L(a.max[i]) - a.min[i]);
    e[i] = anchor[i] + (L(p[i]) - anchor[i]) * f;
  }
  CHK(close(w * p, e, wt), "scaled about the anchor", P(a) << P(size) << P(anchor) << P(p) << " expected " << P(e) << " got " << P(w * p));
}
MON_GROUP_T(scale_box, 15000, float)
MON_GROUP_T(scale_box, 15000, double)

template <typename T> static void shear_box(Rng& g) {
  const T sc = g.chance(1, 2) ? T(lscale(g, -20, 20)) : T(1);
  const auto a = rbox<T>(g, sc);
  const size_t ax = g.below(3);
  const bool pos = g.below(2);
  vec<T, 3> side;
  side[ax] = pos ? T(1) : T(-1);
  const auto d = (g.below(2) ? ivec<T, 3>(g, 9) : cvec<T, 3>(g, 9)) * sc;
  const auto m = vm::shear_bbox_matrix(a, side, d);
  const L size = L(a.max[ax]) - a.min[ax];
  for (unsigned k = 0; k < 10; ++k) {
    vec<T, 3> p;
    for (size_t i = 0; i < 3; ++i) p[i] = k < 8 ? (k >> i & 1 ? a.max[i] : a.min[i]) : T(g.real(-25, 25)) * sc;
    // fraction of the way from the fixed side to the moved side
    const L f = pos ? (L(p[ax]) - a.min[ax]) / size : (a.max[ax] - L(p[ax])) / size;
    L3 e = lv(p);
    for (size_t i = 0; i < 3; ++i)
      if (i != ax) e[i] += f * d[i];
    const L tol = 2000 * eps<T>() * (40 * sc + 100 * lmax(lv(d)));
    CHK(close(m * p, e, tol), "sheared box", P(a) << " side " << P(side) << " by " << P(d) << " point " << P(p) << " expected " << P(e) << " got " << P(m * p));
  }
  OBS(pos ? "positive side" : "negative side");
}
MON_GROUP_T(shear_box, 20000, double)
MON_GROUP_T(shear_box, 10000, float)

// point triples and quadruples
template <typename T> static void point_maps(Rng& g) {
  // non-degenerate triangles
  L3 in[4], out[4];
  const auto tri = [&](L3* t) {
    for (;;) {
      for (int i = 0; i < 4; ++i) t[i] = lv(g.below(2) ? ivec<T, 3>(g, 6) : cvec<T, 3>(g, 6));
      const L3 n = lcross(t[1] - t[0], t[2] - t[0]);
      if (llen(n) > 2 && std::fabs(ldot(n, t[3] - t[0])) > 2) return;
    }
  };
  tri(in);
  tri(out);
  L fi = g.below(2) ? lscale(g, -10, 10) : 1, fo = g.below(2) ? lscale(g, -10, 10) : 1;
  if (g.chance(1, 3)) {   // some of the points stay where they are, or take each other's places
    const size_t how = g.below(16), swapped = 1 + g.below(3);
    for (int k = 0; k < 20; ++k) {
      L3 t[4] = {out[0], out[1], out[2], out[3]};
      for (size_t i = 0; i < 4; ++i)
        if (how >> i & 1) t[i] = in[i];
      if (how == 0) t[0] = in[swapped], t[swapped] = in[0];
      const L3 n = lcross(t[1] - t[0], t[2] - t[0]);
      if (llen(n) > 2 && std::fabs(ldot(n, t[3] - t[0])) > 2) {
        for (int i = 0; i < 4; ++i) out[i] = t[i];
        fo = fi;
        OBS("points that stay");
        break;
      }
      tri(out);
    }
  }
  for (auto& x : in) x = x * fi;
  for (auto& x : out) x = x * fo;
  vec<T, 3> a[4], b[4];
  for (int i = 0; i < 4; ++i) {
    a[i] = tov<T>(in[i]);
    b[i] = tov<T>(out[i]);
  }
  // the plain form adds a unit normal: the solution mixes lengths of size fi and 1
  const L tol = (std::is_same<T, float>::value ? 2e-4L : 1e-9L) * 200 * fo, tol3 = tol * std::max(fi, 1 / fi) * std::max(fo, 1 / fo) * 10;
  const auto m3 = vm::points_transformation_matrix(a[0], a[1], a[2], b[0], b[1], b[2]);
  const auto m4 = vm::points_transformation_matrix(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
  for (int i = 0; i < 3; ++i) CHK(close(m3 * a[i], out[i], tol3), "maps three points", P(a[0]) << P(a[1]) << P(a[2]) << " to " << P(b[0]) << P(b[1]) << P(b[2]) << " point " << i << " got " << P(m3 * a[i]));
  for (int i = 0; i < 4; ++i) CHK(close(m4 * a[i], out[i], tol), "maps four points", i << " expected " << P(b[i]) << " got " << P(m4 * a[i]));
  const L3 ni = lnorm(lcross(in[1] - in[0], in[2] - in[0])), no = lnorm(lcross(out[1] - out[0], out[2] - out[0]));
  const L h = L(g.real(-5, 5));
  CHK(close(m3 * tov<T>(in[0] + ni * h), out[0] + no * h, tol3 * std::max(L(1), 1 / fo)), "heights above the triangle are kept", P(a[0]) << P(a[1]) << P(a[2]) << " h=" << h << " got " << P(m3 * tov<T>(in[0] + ni * h)));
  for (const auto& m : {m3, m4}) CHK(m[0][3] == 0 && m[1][3] == 0 && m[2][3] == 0 && m[3][3] == 1, "affine", P(m));
  // coinciding points have no solution
  if (g.chance(1, 8)) {
    const size_t dup = 1 + g.below(2);
    const auto n = dup == 1 ? vm::points_transformation_matrix(a[0], a[0], a[2], a[3], b[0], b[1], b[2], b[3]) : vm::points_transformation_matrix(a[0], a[1], a[0], a[3], b[0], b[1], b[2], b[3]);
    bool all = true;
    for (size_t c = 0; c < 4; ++c)
      for (size_t r = 0; r < 4; ++r) all = all && std::isnan(n[c][r]);
    CHK(all, "no solution is not-a-number", dup << " " << P(a[0]) << P(n));
    OBS("degenerate");
  }
}
MON_GROUP_T(point_maps, 20000, double)
MON_GROUP_T(point_maps, 20000, float)

MON_MAIN("C12")
