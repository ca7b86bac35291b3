// C10: matrix algebra
#include "gen.h"

using vm::mat;

template <size_t R, size_t C> using IM = std::array<std::array<long, C>, R>;
template <typename T, size_t R, size_t C> static IM<R, C> im(const mat<T, R, C>& m) {
  IM<R, C> r{};
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j) r[i][j] = long(m.v[j].v[i]);
  return r;
}
template <size_t R, size_t K, size_t C> static IM<R, C> imul(const IM<R, K>& a, const IM<K, C>& b) {
  IM<R, C> r{};
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j)
      for (size_t k = 0; k < K; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
// determinant as signed sum over permutations
template <size_t S> static long idet(const IM<S, S>& m) {
  std::array<size_t, S> p;
  for (size_t i = 0; i < S; ++i) p[i] = i;
  long d = 0;
  do {
    long t = 1;
    int inv = 0;
    for (size_t i = 0; i < S; ++i) {
      t *= m[i][p[i]];
      for (size_t j = i + 1; j < S; ++j) inv += p[i] > p[j];
    }
    d += inv % 2 ? -t : t;
  } while (std::next_permutation(p.begin(), p.end()));
  return d;
}
// integer matrices with and without structure that could invite special treatment
template <typename T, size_t R, size_t C> static mat<T, R, C> smat(Rng& g, long range) {
  mat<T, R, C> m;
  const auto rnd = [&] { return T(g.irange(-range, range)); };
  const unsigned kind = unsigned(g.below(10));
  size_t p[R];
  for (size_t i = 0; i < R; ++i) p[i] = i;
  for (size_t i = R; i > 1; --i) std::swap(p[i - 1], p[g.below(i)]);
  for (size_t c = 0; c < C; ++c)
    for (size_t r = 0; r < R; ++r) {
      T& x = m.v[c].v[r];
      switch (kind) {
        case 0: x = r == c ? T(1) : T(0); break;                                    // identity, changed below
        case 1: x = r == c ? rnd() : T(0); break;                                   // diagonal
        case 2: x = r == c ? T(1) : r <= c && c + 1 == C ? rnd() : T(0); break;      // translation
        case 3: x = r + 1 == R ? T(c + 1 == C) : rnd(); break;                      // affine
        case 4: x = r > c ? T(0) : rnd(); break;                                    // triangular
        case 5: x = r < c ? T(0) : rnd(); break;                                    // triangular
        case 6: x = c < R && p[c] == r ? (g.below(2) ? T(1) : T(-1)) : T(0); break; // signed permutation
        case 7: x = g.chance(1, 3) ? rnd() : T(0); break;                           // sparse
        default: x = rnd(); break;
      }
    }
  if (kind <= 3 || kind == 6) { // nearly of that kind
    const size_t n = g.below(3);
    for (size_t i = 0; i < n; ++i) m.v[g.below(C)].v[g.below(R)] = rnd();
  }
  return m;
}
template <typename T, size_t R, size_t C> static bool eq(const mat<T, R, C>& m, const IM<R, C>& e) {
  return im(m) == e;
}
template <typename T, size_t R, size_t C, size_t... I>
static mat<T, R, C> ctor(const std::array<T, R * C>& a, std::index_sequence<I...>) {
  return mat<T, R, C>(a[I]...);
}
template <typename T, size_t R, size_t C, size_t... I>
static mat<T, R, C> list_ctor(const std::array<T, R * C>& a, std::index_sequence<I...>) {
  return mat<T, R, C>{std::initializer_list<T>{a[I]...}};
}

template <typename T, size_t R, size_t C> static void layout(Rng& g) {
  std::array<T, R * C> a;
  for (auto& x : a) x = g.wild_finite<T>();
  const auto seq = std::make_index_sequence<R * C>();
  const auto m = ctor<T, R, C>(a, seq);
  const auto l = list_ctor<T, R, C>(a, seq);
  for (size_t r = 0; r < R; ++r)
    for (size_t c = 0; c < C; ++c) {
      CHK(m[c][r] == a[r * C + c], "constructor is row by row, access column then row", P(m));
      CHK(l[c][r] == a[r * C + c], "list constructor is row by row", P(l));
    }
  const mat<T, R, C> id;
  const auto id2 = mat<T, R, C>::identity();
  const auto ze = mat<T, R, C>::zero();
  const auto fi = mat<T, R, C>::fill(a[0]);
  const size_t rr = g.below(R), cc = g.below(C);
  const T nv = g.nice<T>();
  const auto se = vm::set(m, rr, cc, nv);
  for (size_t r = 0; r < R; ++r)
    for (size_t c = 0; c < C; ++c) {
      CHK(id[c][r] == (r == c ? T(1) : T(0)), "default is identity", P(id));
      CHK(id2[c][r] == (r == c ? T(1) : T(0)), "identity", P(id2));
      CHK(ze[c][r] == T(0), "zero", P(ze));
      CHK(fi[c][r] == a[0], "fill", P(fi));
      CHK(se[c][r] == (r == rr && c == cc ? nv : m[c][r]), "set", P(m) << " " << rr << "," << cc << " " << nv << " got " << P(se));
    }
  auto cp = m;
  cp[cc][rr] = nv;
  CHK(cp == se, "element assignment", P(cp) << P(se));
  auto as = mat<T, R, C>::zero();
  as = m;
  CHK(as == m && !(as != m), "assignment", P(as) << P(m));
  const mat<double, R, C> dm(m);
  const mat<float, R, C> fm(m);
  for (size_t r = 0; r < R; ++r)
    for (size_t c = 0; c < C; ++c) {
      CHK(dm[c][r] == double(m[c][r]) && same(fm[c][r], float(m[c][r])), "converting constructor", P(m) << P(dm) << P(fm));
    }
}
MON_GROUP_T(layout, 4000, double, 1, 1)
MON_GROUP_T(layout, 4000, double, 2, 2)
MON_GROUP_T(layout, 4000, float, 3, 3)
MON_GROUP_T(layout, 4000, double, 4, 4)
MON_GROUP_T(layout, 4000, float, 4, 4)
MON_GROUP_T(layout, 4000, double, 2, 3)
MON_GROUP_T(layout, 4000, float, 3, 2)
MON_GROUP_T(layout, 4000, double, 4, 2)
MON_GROUP_T(layout, 4000, double, 1, 4)
MON_GROUP_T(layout, 2000, double, 6, 6)
MON_GROUP_T(layout, 2000, int, 3, 3)
MON_GROUP_T(layout, 2000, float, 2, 4)
MON_GROUP_T(layout, 1000, double, 5, 5)
MON_GROUP_T(layout, 1000, double, 7, 3)
MON_GROUP_T(layout, 1000, double, 9, 9)
MON_GROUP_T(layout, 1000, float, 2, 8)

template <typename T, size_t R, size_t C> static void elementwise(Rng& g) {
  auto a = nmat<T, R, C>(g), b = nmat<T, R, C>(g);
  if (g.chance(1, 3))
    for (size_t c = 0; c < C; ++c) {
      a[c] = wfvec<T, R>(g);
      b[c] = wfvec<T, R>(g);
    }
  const T fs[] = {T(0), T(1), T(-1), T(2)};
  const T f = g.below(4) ? g.nice<T>() : g.pick(fs);
  const auto s = a + b, d = a - b, n = -a, p = +a, m1 = a * f, m2 = f * a;
  for (size_t c = 0; c < C; ++c)
    for (size_t r = 0; r < R; ++r) {
      CHK(s[c][r] == T(a[c][r] + b[c][r]), "sum", P(a) << P(b));
      CHK(d[c][r] == T(a[c][r] - b[c][r]), "difference", P(a) << P(b));
      CHK(n[c][r] == -a[c][r] && p[c][r] == a[c][r], "sign", P(a));
      CHK(m1[c][r] == T(a[c][r] * f) && m2[c][r] == T(a[c][r] * f), "scaling", P(a) << f);
    }
  if (f != T(0)) {
    const auto q = a / f;
    for (size_t c = 0; c < C; ++c)
      for (size_t r = 0; r < R; ++r) CHK(ulps<T>(q[c][r], L(a[c][r]) / L(f), 2), "quotient", P(a) << f << " got " << P(q));
    // a divisor whose reciprocal is out of range
    const T t = f * std::numeric_limits<T>::denorm_min() * T(64);
    if (f == std::trunc(f) && std::fabs(f) >= T(1)) {
      const auto small = a * t, ratio = small / t;
      for (size_t c = 0; c < C; ++c)
        for (size_t r = 0; r < R; ++r) CHK(ulps<T>(ratio[c][r], L(small[c][r]) / L(t), 2), "quotient of tiny numbers", P(small) << t << " got " << P(ratio));
    }
  }
  // equality notices every element
  auto e = a;
  const size_t cc = g.below(C), rr = g.below(R);
  const T dl = T(g.irange(1, 100)) / T(16);
  e[cc][rr] = T(g.irange(-100, 100));
  auto h = e;
  h[cc][rr] += dl;
  CHK(e == e && !(e != e), "equal to itself", P(e));
  CHK(!(e == h) && e != h, "element difference", P(e) << P(h));
  CHK(vm::is_equal(e, h, T(dl)) && vm::is_equal(h, e, T(dl)) && !vm::is_equal(e, h, T(dl) * T(0.99)) && !vm::is_equal(h, e, T(dl) * T(0.99)), "is_equal", P(e) << P(h));
  CHK(vm::compare(e, h) == -vm::compare(h, e) && vm::compare(e, h) != 0 && vm::compare(e, e) == 0, "compare", P(e) << P(h));
  CHK(vm::compare(e, h) < 0, "compare sign", P(e) << P(h));
  auto z = mat<T, R, C>::zero();
  z[cc][rr] = g.below(2) ? dl : -dl;
  CHK(vm::is_zero(z, dl) && !vm::is_zero(z, dl * T(0.99)), "is_zero", P(z));
}
MON_GROUP_T(elementwise, 5000, double, 2, 2)
MON_GROUP_T(elementwise, 5000, float, 3, 3)
MON_GROUP_T(elementwise, 5000, double, 4, 4)
MON_GROUP_T(elementwise, 5000, double, 2, 3)
MON_GROUP_T(elementwise, 5000, float, 4, 3)
MON_GROUP_T(elementwise, 3000, double, 5, 5)
MON_GROUP_T(elementwise, 3000, double, 1, 3)
MON_GROUP_T(elementwise, 3000, float, 2, 2)
MON_GROUP_T(elementwise, 3000, float, 4, 4)
MON_GROUP_T(elementwise, 1500, double, 6, 6)
MON_GROUP_T(elementwise, 1500, double, 3, 7)
MON_GROUP_T(elementwise, 1500, float, 9, 2)

template <typename T, size_t R, size_t K, size_t C> static void product(Rng& g) {
  const auto a = smat<T, R, K>(g, 20);
  const auto b = smat<T, K, C>(g, 20);
  const auto m = a * b;
  const IM<R, C> e = imul<R, K, C>(im(a), im(b));
  CHK(eq(m, e), "product", P(a) << P(b) << " got " << P(m));
  if constexpr (std::is_floating_point<T>::value) { // exact at every order of magnitude
    const int lim = sizeof(T) == 4 ? 50 : 400;
    const T fa = T(lscale(g, -lim, lim)), fb = T(lscale(g, -lim, lim));
    CHK((a * fa) * (b * fb) == m * (fa * fb), "product of scaled matrices", P(a) << P(b) << " scaled by " << fa << ", " << fb << " got " << P((a * fa) * (b * fb)));
    auto at = mat<T, R, K>(a);
    auto bt = mat<T, K, C>(b);
    at = nmat<T, R, K>(g);
    bt = nmat<T, K, C>(g);
    const auto mt = at * bt;
    for (size_t r = 0; r < R; ++r)
      for (size_t c = 0; c < C; ++c) {
        L e = 0, mag = 0;
        for (size_t k = 0; k < K; ++k) {
          e += L(at[k][r]) * L(bt[c][k]);
          mag += std::fabs(L(at[k][r]) * L(bt[c][k]));
        }
        CHK(near(mt[c][r], e, 2 * K * eps<T>() * mag), "product of real matrices", P(at) << P(bt) << " got " << P(mt));
      }
  }
  // transposition of any shape
  const auto ta = vm::transpose(a);
  static_assert(std::is_same<std::decay_t<decltype(ta)>, mat<T, K, R>>::value, "");
  for (size_t r = 0; r < R; ++r)
    for (size_t k = 0; k < K; ++k) CHK(ta[r][k] == a[k][r], "transpose", P(a) << " got " << P(ta));
  CHK((vm::transpose(m) == vm::transpose(b) * ta), "transpose of product", P(a) << P(b));
  CHK((vm::transpose(ta) == a), "transpose twice", P(a));
  // columns and rows
  const auto v = ivec<T, C>(g, 20);
  const auto mv = m * v;
  const auto bv = b * v;
  CHK((a * bv == mv), "associates with application to a column vector", P(a) << P(b) << P(v));
  for (size_t r = 0; r < R; ++r) {
    long x = 0;
    for (size_t c = 0; c < C; ++c) x += e[r][c] * long(v[c]);
    CHK(mv[r] == T(x), "matrix times vector", P(m) << P(v) << " got " << P(mv));
  }
  const auto w = ivec<T, R>(g, 20);
  const auto wm = w * m;
  CHK(((w * a) * b == wm), "associates with application to a row vector", P(a) << P(b) << P(w));
  for (size_t c = 0; c < C; ++c) {
    long x = 0;
    for (size_t r = 0; r < R; ++r) x += e[r][c] * long(w[r]);
    CHK(wm[c] == T(x), "vector times matrix", P(w) << P(m) << " got " << P(wm));
  }
}
MON_GROUP_T(product, 6000, double, 1, 1, 1)
MON_GROUP_T(product, 8000, double, 2, 2, 2)
MON_GROUP_T(product, 8000, float, 3, 3, 3)
MON_GROUP_T(product, 8000, double, 4, 4, 4)
MON_GROUP_T(product, 5000, double, 2, 3, 4)
MON_GROUP_T(product, 5000, double, 4, 3, 2)
MON_GROUP_T(product, 5000, float, 3, 1, 4)
MON_GROUP_T(product, 5000, double, 4, 4, 3)
MON_GROUP_T(product, 3000, double, 5, 5, 5)
MON_GROUP_T(product, 3000, float, 4, 4, 4)
MON_GROUP_T(product, 3000, float, 2, 4, 3)
MON_GROUP_T(product, 3000, double, 1, 4, 1)
MON_GROUP_T(product, 3000, double, 3, 3, 3)
MON_GROUP_T(product, 3000, int, 3, 3, 3)
MON_GROUP_T(product, 3000, long, 2, 3, 4)
MON_GROUP_T(product, 1500, double, 6, 6, 6)
MON_GROUP_T(product, 1500, double, 5, 2, 7)
MON_GROUP_T(product, 1500, float, 1, 6, 2)
MON_GROUP_T(product, 1500, double, 8, 8, 8)

template <typename T, size_t S, size_t... I> static void zero_outs(size_t k, const mat<T, S, S>& e, std::index_sequence<I...>) {
  const mat<T, S, S> all[] = {mat<T, S, S>::template zero_out<I>()...};
  CHK(all[k] == e, "zero_out", k << " got " << P(all[k]));
}
template <typename T, size_t S> static void square(Rng& g) {
  const auto a = smat<T, S, S>(g, 5), b = smat<T, S, S>(g, 5), c = smat<T, S, S>(g, 5);
  CHK(((a * b) * c == a * (b * c)), "associative", P(a) << P(b) << P(c));
  CHK((a * (b + c) == a * b + a * c && (a + b) * c == a * c + b * c), "distributive", P(a) << P(b) << P(c));
  CHK((a * mat<T, S, S>::identity() == a && mat<T, S, S>::identity() * a == a), "identity", P(a));
  const auto t = vm::transpose(a);
  for (size_t i = 0; i < S; ++i)
    for (size_t j = 0; j < S; ++j) CHK(t[i][j] == a[j][i], "transpose", P(a) << P(t));
  CHK((vm::transpose(a * b) == vm::transpose(b) * t), "transpose of product", P(a) << P(b));
  const auto v = ivec<T, S>(g, 9);
  CHK((v * a == t * v), "row vector product is product with transpose", P(v) << P(a));
  const size_t k = g.below(S);
  mat<T, S, S> zo;
  zo[k][k] = T(0);
  zero_outs<T, S>(k, zo, std::make_index_sequence<S>());
  // determinant
  const long da = idet<S>(im(a)), db = idet<S>(im(b));
  CHK(L(vm::compute_determinant(a)) == L(da), "determinant", P(a) << " expected " << da << " got " << vm::compute_determinant(a));
  CHK(L(vm::compute_determinant(t)) == L(da), "determinant of transpose", P(a));
  if constexpr (sizeof(T) == 8 || S <= 3) {
    CHK(L(vm::compute_determinant(a * b)) == L(da) * L(db), "determinant of product", P(a) << P(b));
  }
  if constexpr (S <= 4) { // exact at every order of magnitude
    const T f = T(lscale(g, sizeof(T) == 4 ? -20 : -100, sizeof(T) == 4 ? 20 : 100));
    T fs = T(1);
    for (size_t i = 0; i < S; ++i) fs *= f;
    CHK(L(vm::compute_determinant(a * f)) == L(da) * L(fs), "determinant of a scaled matrix", P(a) << " scaled by " << f);
    if constexpr (S >= 2) CHK((vm::compute_adjugate(a * f) == vm::compute_adjugate(a) * (fs / f)), "adjugate of a scaled matrix", P(a) << " scaled by " << f);
  }
  OBS(da == 0 ? "singular" : da < 0 ? "negative determinant" : "positive determinant");
  if constexpr (S >= 2) {
    // minors
    for (size_t r = 0; r < S; ++r)
      for (size_t cc = 0; cc < S; ++cc) {
        const auto m = vm::extract_minor(a, r, cc);
        for (size_t i = 0; i + 1 < S; ++i)
          for (size_t j = 0; j + 1 < S; ++j)
            CHK(m[j][i] == a[j + (j >= cc)][i + (i >= r)], "minor", "row " << r << " col " << cc << " of " << P(a) << " got " << P(m));
        const auto adj = vm::compute_adjugate(a);
        const long cof = idet<S - 1>(im(m)) * ((r + cc) % 2 ? -1 : 1);
        CHK(L(adj[r][cc]) == L(cof), "adjugate is the transposed cofactor matrix", P(a) << " got " << P(adj));
      }
    const auto p = a * vm::compute_adjugate(a);
    CHK((p == mat<T, S, S>::identity() * T(da)), "Laplace expansion", P(a) << P(p));
  }
}
MON_GROUP_T(square, 3000, double, 1)
MON_GROUP_T(square, 10000, double, 2)
MON_GROUP_T(square, 10000, double, 3)
MON_GROUP_T(square, 5000, float, 3)
MON_GROUP_T(square, 6000, double, 4)
MON_GROUP_T(square, 6000, float, 4)
MON_GROUP_T(square, 800, double, 5)
MON_GROUP_T(square, 400, float, 2)
MON_GROUP_T(square, 400, double, 6)
MON_GROUP_T(square, 400, float, 5)

// determinants of large sparse and permuted matrices
template <size_t S> static void sparse_det(Rng& g) {
  auto a = mat<double, S, S>::zero();
  for (size_t c = 0; c < S; ++c)
    for (size_t r = 0; r < S; ++r)
      if (g.chance(2, 5)) a[c][r] = double(g.irange(-3, 3));
  const long d = idet<S>(im(a));
  CHK(vm::compute_determinant(a) == double(d), "determinant", P(a) << " expected " << d << " got " << vm::compute_determinant(a));
  OBS(d ? "nonzero" : "zero");
}
MON_GROUP_T(sparse_det, 4000, 4)
MON_GROUP_T(sparse_det, 1500, 5)
MON_GROUP_T(sparse_det, 300, 6)

template <typename T, size_t R, size_t C, size_t RR, size_t RC> static void slices(Rng& g) {
  const auto a = imat<T, R, C>(g, 100);
  for (size_t r = 0; r + RR <= R; ++r)
    for (size_t c = 0; c + RC <= C; ++c) {
      const auto s = vm::slice<RR, RC>(a, r, c);
      for (size_t i = 0; i < RR; ++i)
        for (size_t j = 0; j < RC; ++j)
          CHK(s[j][i] == a[c + j][r + i], "slice", "at " << r << "," << c << " of " << P(a) << " got " << P(s));
    }
}
MON_GROUP_T(slices, 2000, double, 4, 4, 2, 2)
MON_GROUP_T(slices, 2000, double, 4, 4, 3, 2)
MON_GROUP_T(slices, 2000, float, 4, 4, 1, 3)
MON_GROUP_T(slices, 2000, double, 4, 3, 2, 3)
MON_GROUP_T(slices, 2000, double, 3, 3, 3, 3)
MON_GROUP_T(slices, 2000, double, 2, 4, 2, 3)
MON_GROUP_T(slices, 2000, float, 1, 5, 1, 4)
MON_GROUP_T(slices, 2000, double, 5, 2, 4, 1)
MON_GROUP_T(slices, 2000, double, 5, 5, 3, 3)
MON_GROUP_T(slices, 1000, double, 7, 7, 5, 6)
MON_GROUP_T(slices, 1000, double, 8, 6, 2, 4)

// minors of matrices of any shape
template <typename T, size_t R, size_t C> static void minors(Rng& g) {
  auto a = nmat<T, R, C>(g);
  for (size_t c = 0; c < C; ++c) a[c] = wfvec<T, R>(g);
  const size_t rr = g.below(R), cc = g.below(C);
  const auto m = vm::extract_minor(a, rr, cc);
  for (size_t i = 0; i + 1 < R; ++i)
    for (size_t j = 0; j + 1 < C; ++j) CHK(m[j][i] == a[j + (j >= cc)][i + (i >= rr)], "minor", "row " << rr << " col " << cc << " of " << P(a) << " got " << P(m));
}
MON_GROUP_T(minors, 3000, double, 3, 4)
MON_GROUP_T(minors, 3000, float, 5, 2)
MON_GROUP_T(minors, 3000, double, 2, 2)
MON_GROUP_T(minors, 3000, double, 6, 6)
MON_GROUP_T(minors, 1500, double, 4, 4)
MON_GROUP_T(minors, 1500, double, 5, 5)
MON_GROUP_T(minors, 1500, double, 7, 7)
MON_GROUP_T(minors, 1500, double, 2, 7)

// collections and matrices of any shape
template <typename T, size_t R, size_t C> static void rectangular_lists(Rng& g) {
  const auto m = smat<T, R, C>(g, 20);
  const size_t n = g.below(6);
  std::vector<vec<T, C>> cl;
  std::vector<vec<T, R>> rl;
  std::array<vec<T, C>, 3> ca;
  std::array<vec<T, R>, 3> ra;
  for (size_t i = 0; i < n; ++i) {
    cl.push_back(ivec<T, C>(g, 20));
    rl.push_back(ivec<T, R>(g, 20));
  }
  for (auto& x : ca) x = ivec<T, C>(g, 20);
  for (auto& x : ra) x = ivec<T, R>(g, 20);
  const auto mc = [&](const vec<T, C>& v) {
    vec<T, R> e;
    for (size_t r = 0; r < R; ++r)
      for (size_t c = 0; c < C; ++c) e.v[r] += m.v[c].v[r] * v.v[c];
    return e;
  };
  const auto rm = [&](const vec<T, R>& v) {
    vec<T, C> e;
    for (size_t c = 0; c < C; ++c)
      for (size_t r = 0; r < R; ++r) e.v[c] += m.v[c].v[r] * v.v[r];
    return e;
  };
  const std::vector<vec<T, R>> l1 = m * cl;
  const std::vector<vec<T, C>> l2 = rl * m;
  const std::array<vec<T, R>, 3> a1 = m * ca;
  const std::array<vec<T, C>, 3> a2 = ra * m;
  CHK(l1.size() == n && l2.size() == n, "length", l1.size() << " " << l2.size() << " of " << n);
  for (size_t i = 0; i < n && l1.size() == n && l2.size() == n; ++i) {
    CHK(l1[i] == mc(cl[i]), "rectangular matrix times list", i << " " << P(m) << P(cl) << " got " << P(l1));
    CHK(l2[i] == rm(rl[i]), "list times rectangular matrix", i << " " << P(m) << P(rl) << " got " << P(l2));
  }
  for (size_t i = 0; i < 3; ++i) {
    CHK(a1[i] == mc(ca[i]), "rectangular matrix times array", i << " " << P(m));
    CHK(a2[i] == rm(ra[i]), "array times rectangular matrix", i << " " << P(m));
  }
}
MON_GROUP_T(rectangular_lists, 3000, double, 2, 4)
MON_GROUP_T(rectangular_lists, 3000, float, 4, 2)
MON_GROUP_T(rectangular_lists, 3000, double, 3, 5)
MON_GROUP_T(rectangular_lists, 3000, double, 4, 4)
MON_GROUP_T(rectangular_lists, 1500, double, 5, 3)
MON_GROUP_T(rectangular_lists, 1500, double, 6, 6)
MON_GROUP_T(rectangular_lists, 1500, float, 3, 3)

// collections, plain and homogeneous
template <typename T, size_t S> static void lists(Rng& g) {
  auto m = g.below(2) ? nmat<T, S, S>(g) : smat<T, S, S>(g, 20);
  if (g.chance(1, 4)) m[g.below(S)][g.below(S)] = T(g.logreal(1e-12, 1e6));
  const size_t n = g.chance(1, 20) ? g.below(200) : g.below(9);
  std::vector<vec<T, S>> l;
  for (size_t i = 0; i < n; ++i) l.push_back(nvec<T, S>(g));
  std::vector<vec<T, S - 1>> h;
  for (size_t i = 0; i < n; ++i) h.push_back(nvec<T, S - 1>(g));
  const auto ml = m * l, lm_ = l * m;
  const auto mh = m * h, hm = h * m;
  CHK(ml.size() == n && lm_.size() == n && mh.size() == n && hm.size() == n, "length of list", n);
  const auto M = lm(m);
  if (ml.size() == n && lm_.size() == n && mh.size() == n && hm.size() == n)
    for (size_t i = 0; i < n; ++i) {
      LV<S> hv{};
      for (size_t k = 0; k + 1 < S; ++k) hv[k] = h[i][k];
      hv[S - 1] = 1;
      std::array<L, S> e1{}, e2{}, e3{}, e4{}, s1{}, s2{}, s3{}, s4{};
      for (size_t a = 0; a < S; ++a)
        for (size_t b = 0; b < S; ++b) {
          const auto acc = [](L& e, L& s, L x) { e += x; s += std::fabs(x); };
          acc(e1[a], s1[a], M[a][b] * l[i][b]);
          acc(e2[a], s2[a], M[b][a] * l[i][b]);
          acc(e3[a], s3[a], M[a][b] * hv[b]);
          acc(e4[a], s4[a], M[b][a] * hv[b]);
        }
      const L tol = 4 * S * eps<T>();
      for (size_t a = 0; a < S; ++a) {
        CHK(near(ml[i][a], e1[a], tol * s1[a]), "matrix times list", i << " " << P(m) << P(l) << " got " << P(ml));
        CHK(near(lm_[i][a], e2[a], tol * s2[a]), "list times matrix", i << " " << P(m) << P(l) << " got " << P(lm_));
      }
      for (size_t a = 0; a + 1 < S; ++a) {
        const L w3 = e3[S - 1], w4 = e4[S - 1];
        if (std::fabs(w3) > 1e-2L * s3[S - 1] && std::fabs(w3) > 1e-6L) {
          const L t = 1000 * tol * (s3[a] + std::fabs(e3[a])) / std::fabs(w3);
          CHK(near(mh[i][a], e3[a] / w3, t), "matrix times list of points", i << " " << P(m) << P(h) << " got " << P(mh));
          CHK(near((m * h[i])[a], e3[a] / w3, t), "matrix times point", i << " " << P(m) << P(h));
        }
        if (std::fabs(w4) > 1e-2L * s4[S - 1] && std::fabs(w4) > 1e-6L) {
          const L t = 1000 * tol * (s4[a] + std::fabs(e4[a])) / std::fabs(w4);
          CHK(near(hm[i][a], e4[a] / w4, t), "list of points times matrix", i << " " << P(m) << P(h) << " got " << P(hm));
          CHK(near((h[i] * m)[a], e4[a] / w4, t), "point times matrix", i << " " << P(m) << P(h));
        }
      }
    }
  const std::array<vec<T, S>, 3> al{nvec<T, S>(g), nvec<T, S>(g), nvec<T, S>(g)};
  const std::array<vec<T, S - 1>, 2> ah{nvec<T, S - 1>(g), nvec<T, S - 1>(g)};
  const auto r1 = m * al, r2 = al * m;
  const auto r3 = m * ah, r4 = ah * m;
  const auto sv = [](const auto& x, const auto& y) {
    for (size_t i = 0; i < std::decay_t<decltype(x)>::size; ++i)
      if (!same(x[i], y[i])) return false;
    return true;
  };
  for (size_t i = 0; i < 3; ++i) CHK((sv(r1[i], m * al[i]) && sv(r2[i], al[i] * m)), "array of vectors", i << P(m));
  for (size_t i = 0; i < 2; ++i) CHK((sv(r3[i], m * ah[i]) && sv(r4[i], ah[i] * m)), "array of points", i << P(m));
}
MON_GROUP_T(lists, 4000, double, 4)
MON_GROUP_T(lists, 4000, float, 4)
MON_GROUP_T(lists, 4000, double, 3)
MON_GROUP_T(lists, 4000, float, 2)
MON_GROUP_T(lists, 2000, double, 2)
MON_GROUP_T(lists, 2000, float, 3)
MON_GROUP_T(lists, 2000, double, 5)
MON_GROUP_T(lists, 2000, double, 6)

// arrays of any length
template <typename T, size_t S, size_t N> static void arrays(Rng& g) {
  const auto m = smat<T, S, S>(g, 20);
  auto w = smat<T, S, S>(g, 20); // an affine map, and its transpose for rows
  for (size_t c = 0; c < S; ++c) w.v[c].v[S - 1] = T(c + 1 == S);
  std::array<vec<T, S>, N> a;
  std::array<vec<T, S - 1>, N> h;
  for (auto& x : a) x = ivec<T, S>(g, 20);
  for (auto& x : h) x = ivec<T, S - 1>(g, 20);
  const std::array<vec<T, S>, N> r1 = m * a, r2 = a * m;
  const std::array<vec<T, S - 1>, N> r3 = w * h, r4 = h * vm::transpose(w);
  for (size_t i = 0; i < N; ++i) {
    vec<T, S> e1, e2;
    vec<T, S - 1> e3;
    for (size_t r = 0; r < S; ++r)
      for (size_t c = 0; c < S; ++c) {
        e1.v[r] += m.v[c].v[r] * a[i].v[c];
        e2.v[c] += m.v[c].v[r] * a[i].v[r];
        if (r + 1 < S) e3.v[r] += w.v[c].v[r] * (c + 1 < S ? h[i].v[c] : T(1));
      }
    CHK(r1[i] == e1, "matrix times array", "element " << i << " of " << N << P(m));
    CHK(r2[i] == e2, "array times matrix", "element " << i << " of " << N << P(m));
    CHK(r3[i] == e3, "matrix times array of points", "element " << i << " of " << N << P(w));
    CHK(r4[i] == e3, "array of points times matrix", "element " << i << " of " << N << P(w));
  }
}
MON_GROUP_T(arrays, 300, double, 4, 1)
MON_GROUP_T(arrays, 300, double, 4, 4)
MON_GROUP_T(arrays, 300, float, 4, 5)
MON_GROUP_T(arrays, 300, double, 3, 6)
MON_GROUP_T(arrays, 300, double, 4, 7)
MON_GROUP_T(arrays, 300, double, 4, 8)
MON_GROUP_T(arrays, 300, float, 3, 9)
MON_GROUP_T(arrays, 300, double, 4, 11)
MON_GROUP_T(arrays, 300, double, 2, 15)
MON_GROUP_T(arrays, 300, double, 4, 17)
MON_GROUP_T(arrays, 300, double, 4, 33)
MON_GROUP_T(arrays, 300, double, 3, 70)

// the predefined rotations and mirrors, as maps of points
template <typename T> static void constants_(Rng& g) {
  const auto p = ivec<T, 3>(g, 50);
  using M = mat<T, 4, 4>;
  using V = vec<T, 3>;
  const auto ck = [&](const char* n, const M& m, const V& e) {
    CHK(m * p == e, "predefined matrix", n << " " << P(p) << " expected " << P(e) << " got " << P(m * p));
    CHK(m[0][3] == 0 && m[1][3] == 0 && m[2][3] == 0 && m[3][3] == 1 && m[3][0] == 0 && m[3][1] == 0 && m[3][2] == 0, "affine part", n);
  };
  const T x = p[0], y = p[1], z = p[2];
  ck("rot_90_x_ccw", M::rot_90_x_ccw(), V(x, -z, y));
  ck("rot_90_x_cw", M::rot_90_x_cw(), V(x, z, -y));
  ck("rot_90_y_ccw", M::rot_90_y_ccw(), V(z, y, -x));
  ck("rot_90_y_cw", M::rot_90_y_cw(), V(-z, y, x));
  ck("rot_90_z_ccw", M::rot_90_z_ccw(), V(-y, x, z));
  ck("rot_90_z_cw", M::rot_90_z_cw(), V(y, -x, z));
  ck("rot_180_x", M::rot_180_x(), V(x, -y, -z));
  ck("rot_180_y", M::rot_180_y(), V(-x, y, -z));
  ck("rot_180_z", M::rot_180_z(), V(-x, -y, z));
  ck("mirror_x", M::mirror_x(), V(-x, y, z));
  ck("mirror_y", M::mirror_y(), V(x, -y, z));
  ck("mirror_z", M::mirror_z(), V(x, y, -z));
}
MON_GROUP_T(constants_, 2000, float)
MON_GROUP_T(constants_, 2000, double)

MON_MAIN("C10")
