// C11: linear system solving and matrix inversion
#include "gen.h"

using vm::mat;

template <size_t S> static L cond(const LM<S, S>& m) {
  LM<S, S> inv;
  if (!linv<S>(m, inv)) return std::numeric_limits<L>::infinity();
  return lnorm_inf<S>(m) * lnorm_inf<S>(inv);
}
// Backward stability: with partial pivoting the residual is bounded by a multiple of the precision
// times |A||x|, whatever the conditioning. The growth factor 2^(S-1) is allowed for.
template <typename T, size_t S> static L residual_bound(const LM<S, S>& A, const LV<S>& x, const LV<S>& b) {
  return L(1 << S) * 32 * S * eps<T>() * (lnorm_inf<S>(A) * lmax(x) + lmax(b)) + std::numeric_limits<T>::min() * 1000;
}
template <typename T, size_t S> static void judge(const char* kind, const mat<T, S, S>& m, const vec<T, S>& b, bool must_succeed, bool must_fail) {
  const auto A = lm(m);
  const auto [ok, x] = vm::lup_solve(m, b);
  const auto [iok, inv] = vm::invert(m);
  CHK(ok == iok, "solve and invert agree on solvability", kind << " " << P(m));
  if (must_fail) {
    CHK(!ok, "singular system is reported", kind << " " << P(m) << " got " << P(x));
    CHK(!iok, "singular matrix is reported", kind << " " << P(m) << " got " << P(inv));
  }
  if (must_succeed) {
    CHK(ok, "solvable system is solved", kind << " " << P(m));
    CHK(iok, "invertible matrix is inverted", kind << " " << P(m));
  }
  OBS(ok ? "solved" : "reported singular");
  if (ok && isfin(x, S)) {
    const auto X = lv(x), B = lv(b);
    const auto r = lapp<S, S>(A, X) - B;
    CHK((lmax(r) <= residual_bound<T, S>(A, X, B)), "residual of solution", kind << " " << P(m) << " b=" << P(b) << " x=" << P(x) << " residual " << lmax(r));
  }
  if (must_succeed) CHK(isfin(x, S), "finite solution", kind << " " << P(m) << P(b) << P(x));
  if (iok) {
    for (size_t c = 0; c < S; ++c) {
      if (!isfin(inv[c], S)) {
        CHK(!must_succeed, "finite inverse", kind << " " << P(m) << P(inv));
        continue;
      }
      LV<S> e{};
      e[c] = 1;
      const auto X = lv(inv[c]);
      const auto r = lapp<S, S>(A, X) - e;
      CHK((lmax(r) <= residual_bound<T, S>(A, X, e)), "residual of inverse", kind << " " << P(m) << " column " << c << " of " << P(inv) << " residual " << lmax(r));
    }
    if (must_succeed) {
      LM<S, S> li;
      linv<S>(A, li);
      const L tol = L(1 << S) * 32 * S * eps<T>() * cond<S>(A) * lnorm_inf<S>(li);
      const auto I = lm(inv);
      for (size_t i = 0; i < S; ++i)
        for (size_t j = 0; j < S; ++j)
          CHK(near(I[i][j], li[i][j], tol), "inverse", kind << " " << P(m) << " element " << i << "," << j << " expected " << li[i][j] << " got " << I[i][j]);
    }
  }
}
template <typename T, size_t S> static void solve(Rng& g) {
  mat<T, S, S> m = mat<T, S, S>::zero();
  const char* kind = "";
  bool singular = false;
  switch (g.below(9)) {
    case 0: kind = "integer"; m = imat<T, S, S>(g, 3); break;
    case 1: kind = "real"; for (size_t c = 0; c < S; ++c) m[c] = cvec<T, S>(g, 3); break;
    case 2: { // signed permutation with noise: needs row exchanges
      kind = "permuted";
      std::array<size_t, S> p;
      for (size_t i = 0; i < S; ++i) p[i] = i;
      g.shuffle(p);
      for (size_t i = 0; i < S; ++i) m[i][p[i]] = T(g.irange(1, 5)) * (g.below(2) ? T(1) : T(-1));
      if (g.below(2))
        for (size_t c = 0; c < S; ++c)
          for (size_t r = 0; r < S; ++r) m[c][r] += T(g.real(-0.01, 0.01));
      break;
    }
    case 3: { // tiny leading pivots: useless without exchanging rows
      kind = "tiny pivots";
      m = imat<T, S, S>(g, 4);
      for (size_t i = 0; i < S; ++i)
        if (g.below(2)) m[i][i] = T(g.logreal(1e-14, 1e-8));
      break;
    }
    case 4: { // sparse
      kind = "sparse";
      for (size_t c = 0; c < S; ++c)
        for (size_t r = 0; r < S; ++r)
          if (g.chance(1, 2)) m[c][r] = T(g.irange(-4, 4)) / T(2);
      break;
    }
    case 5: { // triangular with row permutation
      kind = "triangular";
      const bool up = g.below(2);
      for (size_t c = 0; c < S; ++c)
        for (size_t r = 0; r < S; ++r)
          if (r == c) m[c][r] = T(g.irange(1, 3)) * (g.below(2) ? T(1) : T(-1));
          else if (up == (r < c)) m[c][r] = T(g.real(-1, 1));
      break;
    }
    case 6: {
      kind = "scaled";
      const T f = T(g.logreal(1e-3, 1e3));
      for (size_t c = 0; c < S; ++c) m[c] = cvec<T, S>(g, 3) * f;
      break;
    }
    case 7: { // zero row or column
      kind = "zero row or column";
      singular = true;
      for (size_t c = 0; c < S; ++c) m[c] = g.below(2) ? ivec<T, S>(g, 9) : nvec<T, S>(g);
      const size_t k = g.below(S);
      if (g.below(2)) m[k] = vec<T, S>::zero();
      else
        for (size_t c = 0; c < S; ++c) m[c][k] = T(0);
      break;
    }
    default: { // equal rows: elimination treats them alike, so that one vanishes exactly
      kind = "repeated row";
      for (size_t c = 0; c < S; ++c) m[c] = g.below(2) ? ivec<T, S>(g, 9) : nvec<T, S>(g);
      if constexpr (S > 1) {
        singular = true;
        const size_t k = g.below(S), l = (k + 1 + g.below(S - 1)) % S;
        for (size_t c = 0; c < S; ++c) m[c][k] = m[c][l];
      }
      break;
    }
  }
  if (g.chance(1, 4)) { // another order of magnitude, exactly
    const T f = T(lscale(g, -24, sizeof(T) == 4 ? 24 : 60));
    for (size_t c = 0; c < S; ++c) m[c] = m[c] * f;
  }
  vec<T, S> b;
  switch (g.below(3)) {
    case 0: b = ivec<T, S>(g, 9); break;
    case 1: b = cvec<T, S>(g, 10); break;
    default: b = vec<T, S>::axis(g.below(S)) * T(g.irange(-3, 3)); break;
  }
  if (g.chance(1, 4)) b = b * T(lscale(g, -24, 24));
  const L k = cond<S>(lm(m));
  const L lim = sizeof(T) == 4 ? 1e3L : 1e8L;
  // no pivot can come close to the absolute threshold below which a pivot counts as zero
  const bool well = !singular && k <= lim && lnorm_inf<S>(lm(m)) / (k * S * L(1 << S)) > 1e-14L;
  if (well) OBS("well conditioned");
  if (singular) OBS("singular");
  judge<T, S>(kind, m, b, well, singular);
}
MON_GROUP_T(solve, 10000, double, 1)
MON_GROUP_T(solve, 30000, double, 2)
MON_GROUP_T(solve, 30000, float, 2)
MON_GROUP_T(solve, 30000, double, 3)
MON_GROUP_T(solve, 20000, float, 3)
MON_GROUP_T(solve, 30000, double, 4)
MON_GROUP_T(solve, 20000, float, 4)
MON_GROUP_T(solve, 10000, double, 5)
MON_GROUP_T(solve, 3000, double, 9)
MON_GROUP_T(solve, 1500, double, 6)
MON_GROUP_T(solve, 1500, double, 7)
MON_GROUP_T(solve, 1500, double, 8)
MON_GROUP_T(solve, 1500, double, 10)
MON_GROUP_T(solve, 1500, double, 12)
MON_GROUP_T(solve, 1500, float, 5)

// all zero patterns of 3x3: solvability is decided by the pattern for generic entries
static void patterns(Rng& g) {
  const unsigned pat = unsigned(g.below(512));
  mat<double, 3, 3> m = mat<double, 3, 3>::zero();
  for (size_t i = 0; i < 9; ++i)
    if (pat >> i & 1) m[i % 3][i / 3] = double(g.irange(1, 6)) * (g.below(2) ? 1 : -1);
  const long a = long(m[0][0]), b = long(m[1][0]), c = long(m[2][0]), d = long(m[0][1]), e = long(m[1][1]), f = long(m[2][1]), h = long(m[0][2]), i = long(m[1][2]), j = long(m[2][2]);
  const long det = a * (e * j - f * i) - b * (d * j - f * h) + c * (d * i - e * h);
  bool zero_line = false; // a zero row or column stays exactly zero
  for (size_t k = 0; k < 3; ++k) {
    zero_line = zero_line || (m[k][0] == 0 && m[k][1] == 0 && m[k][2] == 0);
    zero_line = zero_line || (m[0][k] == 0 && m[1][k] == 0 && m[2][k] == 0);
  }
  const vec<double, 3> rhs = ivec<double, 3>(g, 9);
  judge<double, 3>("pattern", m, rhs, det != 0, zero_line);
}
static ::mon::Reg mon_reg_patterns("patterns", 30000, patterns);

// solving recovers a chosen solution; inverting twice gives the matrix
template <typename T, size_t S> static void recover(Rng& g) {
  mat<T, S, S> m;
  for (;;) {
    m = imat<T, S, S>(g, 6);
    if (cond<S>(lm(m)) < 1e3L) break;
  }
  const auto x = ivec<T, S>(g, 9);
  const auto b = m * x; // exact
  const auto [ok, y] = vm::lup_solve(m, b);
  CHK(ok, "solvable", P(m));
  const L tol = L(1 << S) * 64 * S * eps<T>() * cond<S>(lm(m)) * (lmax(lv(x)) + 1);
  for (size_t i = 0; i < S; ++i) CHK(near(y[i], x[i], tol), "recovers the solution", P(m) << P(x) << " got " << P(y));
  const auto [o1, i1] = vm::invert(m);
  const auto [o2, i2] = vm::invert(i1);
  CHK(o1 && o2, "invertible", P(m));
  const L t2 = 50 * tol * cond<S>(lm(m));
  for (size_t c = 0; c < S; ++c)
    for (size_t r = 0; r < S; ++r) CHK(near(i2[c][r], m[c][r], t2), "double inverse", P(m) << " got " << P(i2));
}
MON_GROUP_T(recover, 8000, double, 2)
MON_GROUP_T(recover, 8000, float, 3)
MON_GROUP_T(recover, 8000, double, 3)
MON_GROUP_T(recover, 8000, double, 4)
MON_GROUP_T(recover, 2000, double, 6)
MON_GROUP_T(recover, 1000, double, 1)
MON_GROUP_T(recover, 1000, double, 5)
MON_GROUP_T(recover, 1000, double, 7)
MON_GROUP_T(recover, 1000, double, 9)
MON_GROUP_T(recover, 1000, double, 10)
MON_GROUP_T(recover, 1000, double, 12)

MON_MAIN("C11")
