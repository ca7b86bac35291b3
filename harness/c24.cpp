// C24: text input and output
#include "gen.h"

#include <stdexcept>

#include <vecmath/bbox_io.h>
#include <vecmath/line_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray_io.h>
#include <vecmath/vec_io.h>

#include <iomanip>
#include <iterator>
#include <list>
#include <memory>
#include <string_view>

using vm::mat;
using vm::vec;
using namespace mon;

// ---------------------------------------------------------------- text generation
static std::string number(Rng& g) {
  char b[64];
  if (g.chance(1, 12)) { // unusual, but parseable
    const auto digits = [&](long n) {
      std::string r;
      for (long i = 0; i < n; ++i) r += char('0' + g.below(10));
      return r;
    };
    const std::string sign = g.below(3) ? "" : g.below(2) ? "-" : "+";
    switch (g.below(8)) {
      case 0: return sign + digits(g.irange(1, 9)) + "." + digits(g.irange(10, 400));
      case 1: return sign + std::string(size_t(g.irange(1, 300)), '0') + digits(g.irange(1, 20));
      case 2: return sign + digits(g.irange(10, 38));
      case 3: std::snprintf(b, sizeof b, "%.17ge%ld", g.real(-10, 10), g.irange(-330, 310)); return b;
      case 4: return sign + (g.below(2) ? "inf" : g.below(2) ? "INF" : "infinity");
      case 5: return g.below(2) ? "nan" : "-nan";
      case 6: std::snprintf(b, sizeof b, "%a", g.real(-1000, 1000)); return b;
      default: return sign + "0." + std::string(size_t(g.irange(20, 300)), '0') + digits(3) + "e" + std::to_string(g.irange(0, 320));
    }
  }
  switch (g.below(9)) {
    case 0: std::snprintf(b, sizeof b, "%ld", g.irange(-100, 100)); break;
    case 1: std::snprintf(b, sizeof b, "%.3f", g.real(-1000, 1000)); break;
    case 2: std::snprintf(b, sizeof b, "%.17g", g.real(-1, 1)); break;
    case 3: std::snprintf(b, sizeof b, "%.6e", g.logreal(1e-20, 1e20)); break;
    case 4: std::snprintf(b, sizeof b, "+%ld", g.irange(0, 99)); break;
    case 5: std::snprintf(b, sizeof b, ".%ld", g.irange(1, 9999)); break;
    case 6: std::snprintf(b, sizeof b, "%ld.", g.irange(-99, 99)); break;
    case 7: std::snprintf(b, sizeof b, "%ldE%ld", g.irange(-9, 9), g.irange(-5, 5)); break;
    default: std::snprintf(b, sizeof b, "%ld.%ld", g.irange(-9, 9), g.irange(0, 9999999)); break;
  }
  return b;
}
static std::string integer(Rng& g) {
  char b[32];
  static const long limits[] = {2147483647, -2147483647 - 1, 2147483646, 65536, 16777217, -16777217, 0, 123456789};
  std::snprintf(b, sizeof b, "%ld", g.below(4) ? g.irange(-30000, 30000) : g.pick(limits));
  return b;
}
static std::string blanks(Rng& g, bool may_be_empty) {
  static const char* one[] = {" ", " ", " ", "\t", "\n", "\r", "(", ")"};
  std::string r;
  const long n = g.chance(3, 4) ? (may_be_empty ? 0 : 1) : g.irange(may_be_empty ? 0 : 1, g.chance(1, 20) ? 300 : 5);
  for (long i = 0; i < n; ++i) r += one[g.below(8)];
  return r;
}
template <typename T> static T value_of(const std::string& s) { return T(std::strtod(s.c_str(), nullptr)); }

// a view into a heap block of exactly the size of the text, or with something behind or before it
struct Buffer {
  std::unique_ptr<char[]> mem;
  std::string_view view;
  Buffer(const std::string& text, const std::string& before, const std::string& after) {
    const size_t n = before.size() + text.size() + after.size();
    mem.reset(new char[n ? n : 1]);
    std::memcpy(mem.get(), before.data(), before.size());
    std::memcpy(mem.get() + before.size(), text.data(), text.size());
    std::memcpy(mem.get() + before.size() + text.size(), after.data(), after.size());
    view = std::string_view(mem.get() + before.size(), text.size());
  }
};
static const char* const tails[] = {"", "7", "5 6 7 8 9 1 2 3 4 5 6 7 8", ".5", "e3", "E-2", "0", " 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17", "x", "\0", ")", ",", "99999999"};

static std::string show(const std::string& s) {
  std::string r = "\"";
  for (const char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else r += c;
  }
  return r + "\"";
}

template <typename T, size_t S> static bool eqv(const vec<T, S>& a, const std::vector<T>& b, size_t at = 0) {
  for (size_t i = 0; i < S; ++i)
    if (!same(a.v[i], b[at + i])) return false;
  return true;
}

template <typename T, size_t S> static void vectors(Rng& g) {
  const bool ints = std::is_integral<T>::value;
  const long have = g.chance(2, 3) ? long(S) : g.irange(0, long(S) + 2);
  std::string text = blanks(g, true);
  if (g.chance(1, 400)) text += std::string(size_t(g.irange(200, 140000)), g.below(2) ? ' ' : '\t');
  std::vector<T> vals;
  for (long i = 0; i < have; ++i) {
    if (i) text += blanks(g, false);
    const auto t = ints ? integer(g) : number(g);
    text += t;
    vals.push_back(value_of<T>(t));
  }
  if (g.below(2)) text += blanks(g, true);
  bool first = true, got_value = false;
  for (int k = 0; k < 3; ++k) {
    const Buffer b(text, k == 1 ? "3" : "", k == 0 ? "" : g.pick(tails));
    const auto r = vm::parse<T, S>(b.view);
    if (have >= long(S)) {
      CHK(r.has_value(), "enough components", show(text) << (k ? " inside a larger buffer" : ""));
      if (r) CHK((eqv<T, S>(*r, vals)), "parsed numbers in order", show(text) << (k ? " inside a larger buffer" : "") << " got " << P(*r));
    } else {
      CHK(!r.has_value(), "too few components", show(text) << (k ? " inside a larger buffer" : "") << " got " << P(r ? *r : vec<T, S>()));
    }
    if (first) got_value = r.has_value();
    CHK(r.has_value() == got_value, "depends on the given characters only", show(text));
    first = false;
  }
  OBS(have < long(S) ? "too few" : have == long(S) ? "exact" : "extra");
}
MON_GROUP_T(vectors, 15000, float, 3)
MON_GROUP_T(vectors, 15000, double, 3)
MON_GROUP_T(vectors, 6000, double, 1)
MON_GROUP_T(vectors, 6000, double, 2)
MON_GROUP_T(vectors, 6000, float, 4)
MON_GROUP_T(vectors, 6000, int, 3)
MON_GROUP_T(vectors, 6000, long, 2)
MON_GROUP_T(vectors, 3000, float, 1)
MON_GROUP_T(vectors, 3000, float, 2)
MON_GROUP_T(vectors, 3000, double, 4)
MON_GROUP_T(vectors, 3000, double, 5)
MON_GROUP_T(vectors, 3000, double, 9)
MON_GROUP_T(vectors, 3000, float, 6)

template <typename T, size_t R, size_t C> static void matrices(Rng& g) {
  const long need = long(R * C);
  const long have = g.chance(2, 3) ? need : g.irange(0, need + 3);
  std::string text = blanks(g, true);
  std::vector<T> vals;
  for (long i = 0; i < have; ++i) {
    if (i) text += blanks(g, false);
    const auto t = number(g);
    text += t;
    vals.push_back(value_of<T>(t));
  }
  if (g.below(2)) text += blanks(g, true);
  for (int k = 0; k < 2; ++k) {
    const Buffer b(text, k == 1 ? "3" : "", k == 0 ? "" : g.pick(tails));
    const auto r = vm::parse<T, R, C>(b.view);
    if (have < need) {
      CHK(!r.has_value(), "too few components", show(text) << (k ? " inside a larger buffer" : ""));
      continue;
    }
    CHK(r.has_value(), "enough components", show(text) << (k ? " inside a larger buffer" : ""));
    if (!r) continue;
    bool ok = true;
    for (size_t i = 0; i < R; ++i)
      for (size_t j = 0; j < C; ++j) ok = ok && same(r->v[j].v[i], vals[i * C + j]);
    CHK(ok, "numbers are read row by row", show(text) << (k ? " inside a larger buffer" : "") << " got " << P(*r));
  }
  OBS(have < need ? "too few" : "enough");
}
MON_GROUP_T(matrices, 6000, double, 4, 4)
MON_GROUP_T(matrices, 6000, float, 4, 4)
MON_GROUP_T(matrices, 6000, double, 2, 3)
MON_GROUP_T(matrices, 6000, double, 3, 2)
MON_GROUP_T(matrices, 3000, float, 1, 3)
MON_GROUP_T(matrices, 3000, float, 3, 1)
MON_GROUP_T(matrices, 3000, double, 3, 3)
MON_GROUP_T(matrices, 2000, double, 1, 1)
MON_GROUP_T(matrices, 1000, float, 2, 2)
MON_GROUP_T(matrices, 1000, double, 5, 5)
MON_GROUP_T(matrices, 1000, double, 2, 6)
MON_GROUP_T(matrices, 1000, float, 7, 2)

// lists: complete vectors separated by blanks, commas or semicolons; an incomplete last one is dropped
// keeps what is written to it, and stops a parser that never ends
template <typename V> struct Limited {
  std::vector<V>* out;
  size_t most;
  Limited& operator=(const V& v) {
    if (out->size() >= most) throw std::length_error("more elements than the text can have");
    out->push_back(v);
    return *this;
  }
  Limited& operator*() { return *this; }
  Limited& operator++() { return *this; }
  Limited operator++(int) { return *this; }
};
template <typename T, size_t S> static void lists(Rng& g) {
  static const char* seps[] = {" ", ", ", "; ", ",", ";", " , ", "\n", "\t", " ;; ", ",\n", "\r\n", "   "};
  const size_t n = g.chance(1, 1500) ? 6000 + g.below(30000) / S : g.chance(1, 60) ? g.below(400) : g.below(7);
  const bool parens = g.below(2) != 0;
  // the grammar has no blank between a number and a closing parenthesis that is followed by a comma
  // or semicolon, so "1 2 3 )" is only separated by blanks
  const bool inner_blank = parens && g.below(3) == 0;
  const auto ws = [&] { return std::string(g.chance(1, 6) ? "\t" : g.chance(1, 6) ? "  " : g.chance(1, 12) ? "\r" : g.chance(1, 12) ? "\n" : " "); };
  std::string text;
  std::vector<std::vector<T>> vals;
  if (g.chance(1, 6)) text += " ";
  for (size_t i = 0; i < n; ++i) {
    if (i) {
      std::string s = seps[g.below(std::size(seps))];
      if (g.below(3) == 0) { // any mix of separators
        s.clear();
        for (long k = g.irange(1, 4); k > 0; --k) s += " \t\n\r,;"[g.below(6)];
      }
      if (inner_blank) s = std::string(1, " \t\n\r"[g.below(4)]);
      // without parentheses, a comma or semicolon must be followed by a blank to end the number
      if (!parens && s.find_first_of(" \t\n\r") == std::string::npos) s += " ";
      text += s;
    }
    vals.emplace_back();
    if (parens) text += g.below(2) ? "( " : "(";
    for (size_t j = 0; j < S; ++j) {
      if (j) text += ws();
      const auto t = number(g);
      text += t;
      vals.back().push_back(value_of<T>(t));
    }
    if (parens) text += inner_blank ? " )" : ")";
  }
  const bool partial = S > 1 && n > 0 && g.chance(1, 4);
  if (partial) {
    text += inner_blank || g.below(2) ? " " : ", ";
    const long k = g.irange(1, long(S) - 1);
    for (long j = 0; j < k; ++j) text += (j ? " " : "") + number(g);
  } else if (g.chance(1, 4)) {
    text += n == 0 || inner_blank || g.below(2) ? " " : "; ";
  }
  for (int k = 0; k < 2; ++k) {
    const Buffer b(text, "", k == 0 ? "" : g.pick(tails));
    std::vector<vec<T, S>> out;
    bool ends = true;
    if (k == 0) {
      try {
        vm::parse_all<T, S>(b.view, Limited<vec<T, S>>{&out, text.size() + 1});
      } catch (const std::length_error&) {
        ends = false;
      }
    } else if (text.size() < 10000) {
      vm::parse_all<T, S>(b.view, std::back_inserter(out));
    } else {
      break;
    }
    bool ok = ends && out.size() == n;
    for (size_t i = 0; ok && i < n; ++i) ok = eqv<T, S>(out[i], vals[i]);
    CHK(ok, "list elements in order", show(text) << (k ? " inside a larger buffer" : "") << " expected " << n << " got " << P(out));
  }
  OBS(text.size() > 65536 ? "more than 64 KiB" : partial ? "incomplete tail" : n == 0 ? "empty" : "list");
}
MON_GROUP_T(lists, 15000, double, 3)
MON_GROUP_T(lists, 8000, float, 3)
MON_GROUP_T(lists, 5000, float, 2)
MON_GROUP_T(lists, 5000, double, 1)
MON_GROUP_T(lists, 3000, double, 4)
MON_GROUP_T(lists, 1500, float, 1)
MON_GROUP_T(lists, 1500, double, 2)
MON_GROUP_T(lists, 1500, float, 4)
MON_GROUP_T(lists, 1500, double, 5)
MON_GROUP_T(lists, 1500, double, 7)

// ---------------------------------------------------------------- printing
static std::string fmt(double v, int precision, bool fixed) {
  char b[512];
  std::snprintf(b, sizeof b, fixed ? "%.*f" : "%.*g", precision, v);
  return b;
}
static std::string fmt(long v, int, bool) { return std::to_string(v); }
template <typename T> static auto wide(T v) {
  if constexpr (std::is_integral<T>::value) return long(v);
  else return double(v);
}
template <typename T> static T printable(Rng& g) {
  if constexpr (std::is_integral<T>::value) return T(g.irange(-100000, 100000));
  else return g.chance(1, 8) ? T(g.wild_finite<float>()) : g.nice<T>();
}
template <typename T, size_t S> static std::string text_of(const vec<T, S>& v, int p, bool f) {
  std::string r;
  for (size_t i = 0; i < S; ++i) r += (i ? " " : "") + fmt(wide(v.v[i]), p, f);
  return r;
}
template <typename T, size_t S> static vec<T, S> pvec(Rng& g) {
  vec<T, S> v;
  for (size_t i = 0; i < S; ++i) v.v[i] = printable<T>(g);
  return v;
}
template <typename V> static std::string put(const V& v, int precision, bool fixed) {
  std::ostringstream o;
  o << std::setprecision(precision);
  if (fixed) o << std::fixed;
  o << v;
  return o.str();
}
// numbers of a text, ignoring everything that is not part of a number token
static std::vector<std::string> numbers_in(const std::string& s) {
  std::vector<std::string> r;
  std::string cur;
  for (size_t i = 0; i <= s.size(); ++i) {
    const char c = i < s.size() ? s[i] : ' ';
    if (std::strchr("0123456789+-.", c) != nullptr && c) cur += c;
    else if (!cur.empty() && (c == 'e' || c == 'E')) cur += c;
    else if (!cur.empty()) {
      r.push_back(cur);
      cur.clear();
    }
  }
  return r;
}

template <typename T, size_t S> static void print_vec(Rng& g) {
  const auto v = pvec<T, S>(g);
  const int p = g.chance(1, 3) ? 6 : int(g.irange(1, 17));
  const bool fixed = g.chance(1, 5);
  const auto s = put(v, p, fixed), want = text_of(v, p, fixed);
  CHK(s == want, "components in order at the stream's precision", show(s) << " expected " << show(want));
  const auto back = vm::parse<T, S>(std::string_view(s));
  bool ok = back.has_value();
  for (size_t i = 0; ok && i < S; ++i) ok = same(back->v[i], value_of<T>(fmt(wide(v.v[i]), p, fixed)));
  CHK(ok, "printed vector parses back", show(s));
  if (!std::is_integral<T>::value) {
    const auto full = put(v, std::numeric_limits<T>::max_digits10, false);
    const auto exact = vm::parse<T, S>(std::string_view(full));
    ok = exact.has_value();
    for (size_t i = 0; ok && i < S; ++i) ok = same(exact->v[i], v.v[i]);
    CHK(ok, "full precision round trip", show(full));
  }
}
MON_GROUP_T(print_vec, 8000, float, 3)
MON_GROUP_T(print_vec, 8000, double, 3)
MON_GROUP_T(print_vec, 3000, double, 1)
MON_GROUP_T(print_vec, 3000, double, 4)
MON_GROUP_T(print_vec, 3000, float, 2)
MON_GROUP_T(print_vec, 3000, int, 3)
MON_GROUP_T(print_vec, 1500, double, 2)
MON_GROUP_T(print_vec, 1500, float, 1)
MON_GROUP_T(print_vec, 1500, double, 6)
MON_GROUP_T(print_vec, 1500, double, 9)

template <typename T, size_t R, size_t C> static void print_mat(Rng& g) {
  mat<T, R, C> m;
  for (size_t c = 0; c < C; ++c) m.v[c] = pvec<T, R>(g);
  const int p = g.chance(1, 3) ? 6 : int(g.irange(1, 17));
  const auto s = put(m, p, false);
  std::vector<std::string> want;
  for (size_t r = 0; r < R; ++r)
    for (size_t c = 0; c < C; ++c) want.push_back(fmt(double(m.v[c].v[r]), p, false));
  std::istringstream is(s);
  std::vector<std::string> got{std::istream_iterator<std::string>(is), std::istream_iterator<std::string>()};
  CHK(got == want, "components row by row", show(s) << " for " << P(m));
  const auto back = vm::parse<T, R, C>(std::string_view(s));
  bool ok = back.has_value();
  for (size_t r = 0; ok && r < R; ++r)
    for (size_t c = 0; ok && c < C; ++c) ok = same(back->v[c].v[r], value_of<T>(want[r * C + c]));
  CHK(ok, "printed matrix parses back", show(s));
  const auto full = put(m, std::numeric_limits<T>::max_digits10, false);
  const auto exact = vm::parse<T, R, C>(std::string_view(full));
  ok = exact.has_value();
  for (size_t r = 0; ok && r < R; ++r)
    for (size_t c = 0; ok && c < C; ++c) ok = same(exact->v[c].v[r], m.v[c].v[r]);
  CHK(ok, "full precision round trip", show(full));
}
MON_GROUP_T(print_mat, 5000, double, 4, 4)
MON_GROUP_T(print_mat, 5000, float, 3, 3)
MON_GROUP_T(print_mat, 5000, float, 2, 3)
MON_GROUP_T(print_mat, 5000, double, 3, 2)
MON_GROUP_T(print_mat, 2000, double, 1, 4)
MON_GROUP_T(print_mat, 2000, double, 4, 1)
MON_GROUP_T(print_mat, 1000, double, 1, 1)
MON_GROUP_T(print_mat, 1000, double, 5, 5)
MON_GROUP_T(print_mat, 1000, double, 2, 6)
MON_GROUP_T(print_mat, 1000, float, 7, 2)

// the composite types: exact text and the numbers in it
template <typename T, size_t S> static void print_composites(Rng& g) {
  const int p = g.chance(1, 3) ? 6 : int(g.irange(1, 17));
  const auto a = pvec<T, S>(g), b = pvec<T, S>(g);
  const T d = printable<T>(g);
  const auto expect = [&](const std::string& s, const std::vector<T>& vals, const std::string& exact, const char* key) {
    std::vector<std::string> want;
    for (const T v : vals) want.push_back(fmt(double(v), p, false));
    CHK(numbers_in(s) == want, key, show(s));
    CHK(s == exact, key, show(s) << " expected " << show(exact));
  };
  const auto all = [](std::initializer_list<vec<T, S>> l) {
    std::vector<T> r;
    for (const auto& v : l)
      for (size_t i = 0; i < S; ++i) r.push_back(v.v[i]);
    return r;
  };
  const auto ta = text_of(a, p, false), tb = text_of(b, p, false);
  {
    vm::bbox<T, S> x;
    x.min = a;
    x.max = b;
    expect(put(x, p, false), all({a, b}), "{ min: (" + ta + "), max: (" + tb + ") }", "bbox");
  }
  {
    vm::line<T, S> x;
    x.point = a;
    x.direction = b;
    expect(put(x, p, false), all({a, b}), "{ point: (" + ta + "), direction: (" + tb + ") }", "line");
  }
  {
    vm::ray<T, S> x;
    x.origin = a;
    x.direction = b;
    expect(put(x, p, false), all({a, b}), "{ origin: (" + ta + "), direction: (" + tb + ") }", "ray");
  }
  {
    vm::plane<T, S> x;
    x.normal = a;
    x.distance = d;
    auto vals = all({a});
    vals.push_back(d);
    expect(put(x, p, false), vals, "{ normal: (" + ta + "), distance: " + fmt(double(d), p, false) + " }", "plane");
  }
}
MON_GROUP_T(print_composites, 8000, double, 3)
MON_GROUP_T(print_composites, 8000, float, 3)
MON_GROUP_T(print_composites, 3000, double, 2)
MON_GROUP_T(print_composites, 1500, float, 2)
MON_GROUP_T(print_composites, 1500, double, 4)
MON_GROUP_T(print_composites, 1500, double, 1)

// values that are no numbers print and parse like any other
template <typename T, size_t S> static void specials(Rng& g) {
  using N = std::numeric_limits<T>;
  vec<T, S> v;
  std::string want;
  for (size_t i = 0; i < S; ++i) {
    const T sp[] = {N::infinity(), -N::infinity(), N::quiet_NaN(), T(0), -T(0), N::max(), N::lowest(), N::min(), N::denorm_min(), T(1), T(1e6), T(1e5), T(123456), T(0.0001), T(0.00001)};
    v.v[i] = g.pick(sp);
    want += (i ? " " : "") + fmt(double(v.v[i]), N::max_digits10, false);
  }
  const auto s = put(v, N::max_digits10, false);
  CHK(s == want, "special components", show(s) << " expected " << show(want));
  const auto back = vm::parse<T, S>(std::string_view(s));
  bool ok = back.has_value();
  for (size_t i = 0; ok && i < S; ++i) ok = same(back->v[i], v.v[i]);
  CHK(ok, "special components parse back", show(s));
  mat<T, S, 1> m;
  m.v[0] = v;
  const auto sm = put(m, N::max_digits10, false);
  CHK(sm == want, "special components of a matrix", show(sm) << " expected " << show(want));
  const auto mback = vm::parse<T, S, 1>(std::string_view(sm));
  ok = mback.has_value();
  for (size_t i = 0; ok && i < S; ++i) ok = same(mback->v[0].v[i], v.v[i]);
  CHK(ok, "special components of a matrix parse back", show(sm));
}
MON_GROUP_T(specials, 4000, float, 3)
MON_GROUP_T(specials, 4000, double, 3)

// printing honours and leaves alone the format of the stream
MON_GROUP(stream_format, 4000) {
  std::ostringstream o, w;
  for (std::ostream* s : {static_cast<std::ostream*>(&o), static_cast<std::ostream*>(&w)}) s->flags(std::ios::dec | std::ios::skipws);
  if (g.below(2)) o << std::showpos, w << std::showpos;
  if (g.below(3) == 0) o << std::uppercase, w << std::uppercase;
  if (g.below(3) == 0) o << std::showpoint, w << std::showpoint;
  switch (g.below(4)) {
    case 0: o << std::scientific, w << std::scientific; break;
    case 1: o << std::fixed, w << std::fixed; break;
    case 2: o << std::hexfloat, w << std::hexfloat; break;
    default: break;
  }
  const int p = int(g.irange(0, 25));
  o.precision(p);
  w.precision(p);
  const auto a = pvec<double, 3>(g), b = pvec<double, 3>(g);
  const auto m = nmat<double, 2, 3>(g);
  const auto vecs = [&](const vec<double, 3>& v) { w << v.v[0] << " " << v.v[1] << " " << v.v[2]; };
  const auto flags = o.flags();
  o << a << "|" << m << "|";
  vecs(a);
  w << "|";
  for (size_t r = 0; r < 2; ++r)
    for (size_t c = 0; c < 3; ++c) w << (r || c ? " " : "") << m.v[c].v[r];
  w << "|";
  vm::line<double, 3> l;
  l.point = a;
  l.direction = b;
  vm::ray<double, 3> y;
  y.origin = b;
  y.direction = a;
  vm::plane<double, 3> n;
  n.normal = b;
  n.distance = a.v[0];
  vm::bbox<double, 3> x;
  x.min = a;
  x.max = b;
  o << l << y << n << x;
  w << "{ point: (", vecs(a), w << "), direction: (", vecs(b), w << ") }";
  w << "{ origin: (", vecs(b), w << "), direction: (", vecs(a), w << ") }";
  w << "{ normal: (", vecs(b), w << "), distance: " << a.v[0] << " }";
  w << "{ min: (", vecs(a), w << "), max: (", vecs(b), w << ") }";
  CHK(o.str() == w.str(), "the format of the stream is honoured", o.str() << " expected " << w.str());
  CHK(o.flags() == flags && o.precision() == p && o.width() == 0 && o.fill() == ' ' && o.good(), "the format of the stream is left alone", "");
}

// the same for integral components, whose base is a format
MON_GROUP(stream_format_integral, 2000) {
  std::ostringstream o, w;
  const auto both = [&](auto f) { f(o), f(w); };
  switch (g.below(3)) {
    case 0: both([](std::ostream& s) { s << std::hex; }); break;
    case 1: both([](std::ostream& s) { s << std::oct; }); break;
    default: break;
  }
  if (g.below(2)) both([](std::ostream& s) { s << std::showbase; });
  if (g.below(2)) both([](std::ostream& s) { s << std::uppercase; });
  if (g.below(2)) both([](std::ostream& s) { s << std::showpos; });
  const auto flags = o.flags();
  vec<int, 3> a, b;
  vec<long, 5> c;
  for (size_t i = 0; i < 3; ++i) a.v[i] = int(g.irange(-1000, 1000)), b.v[i] = int(g.irange(0, 100000));
  for (size_t i = 0; i < 5; ++i) c.v[i] = g.irange(-1000000, 1000000);
  const auto put_all = [&](const auto& v) {
    for (size_t i = 0; i < sizeof v.v / sizeof v.v[0]; ++i) w << (i ? " " : "") << v.v[i];
  };
  o << a << "|" << c;
  put_all(a), w << "|", put_all(c);
  vm::bbox<int, 3> x;
  x.min = a;
  x.max = b;
  o << x;
  w << "{ min: (", put_all(a), w << "), max: (", put_all(b), w << ") }";
  CHK(o.str() == w.str(), "the base of the stream is honoured", o.str() << " expected " << w.str());
  CHK(o.flags() == flags && o.width() == 0 && o.good(), "the base of the stream is left alone", "");
}

// a stream carries on after the value, failed and formatted state included
MON_GROUP(stream_protocol, 3000) {
  std::ostringstream o;
  const auto a = pvec<double, 3>(g);
  const auto m = nmat<double, 2, 2>(g);
  std::ostream& r = (o << a << "|" << m << "|" << a);
  CHK(&r == &o, "returns the stream", "");
  std::ostringstream w;
  const auto one = put(a, 6, false), two = put(m, 6, false);
  CHK(o.str() == one + "|" + two + "|" + one, "consecutive insertions", o.str());
}

MON_MAIN("C24")
