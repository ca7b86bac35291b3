// C01: the workload for the sanitizers and for memcheck. Every public operation of ops.h with ordinary,
// colliding and hostile values; the sanitizers are the oracle. Results are consumed so that memcheck
// sees whether they were initialised.
#include "ops.h"

#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) 0
#endif

namespace {
const ops::Table& table() {
  static const auto t = ops::make_table();
  return t;
}
const ops::Shared& shared() {
  static const auto s = ops::make_shared_objects(7);
  return s;
}
void run(mon::Rng& g, int mode) {
  const auto& t = table();
  auto& st = mon::st();
  const auto& op = t.ops[st.iter % t.ops.size()];
  st.what = op.name.c_str();
  auto out = ops::execute(op, g.u64(), mode, &shared());
  const bool undefined = VALGRIND_CHECK_MEM_IS_DEFINED(&out.h, sizeof out.h) != 0;
  if (out.contract) {
    OBS("arguments outside the contract");
  } else {
    CHK(!undefined, "uninitialised result", op.name);
    CHK(!out.mutated, "input modified", op.name);
    if (st.iter < t.ops.size()) OBS(op.name.c_str());
  }
  st.what = "";
}
void ordinary(mon::Rng& g) { run(g, 0); }
void colliding(mon::Rng& g) { run(g, 1); }
void hostile(mon::Rng& g) { run(g, 2); }
// operations that take lists or text, with long ones
void lengthy(mon::Rng& g) {
  static const auto takes = [] {
    std::vector<size_t> r;
    for (size_t i = 0; i < table().ops.size(); ++i)
      if (ops::execute(table().ops[i], 1, 3, &shared()).longer) r.push_back(i);
    return r;
  }();
  if (takes.empty()) return;
  const auto& op = table().ops[takes[g.below(takes.size())]];
  mon::st().what = op.name.c_str();
  auto out = ops::execute(op, g.u64(), 3, &shared());
  const bool undefined = VALGRIND_CHECK_MEM_IS_DEFINED(&out.h, sizeof out.h) != 0;
  if (out.contract) {
    OBS("arguments outside the contract");
  } else {
    CHK(!undefined, "uninitialised result", op.name);
    CHK(!out.mutated, "input modified", op.name);
    OBS("long lists");
  }
  mon::st().what = "";
}
mon::Reg r3("long lists", 600, lengthy);
mon::Reg r0("ordinary", 20000, ordinary);
mon::Reg r1("colliding", 20000, colliding);
mon::Reg r2("hostile", 40000, hostile);

// ---- hull and polygon code with real-valued, nearly degenerate input (indices depend on the values)
template <typename T> std::vector<vm::vec<T, 3>> nearly(mon::Rng& g) {
  std::vector<vm::vec<T, 3>> pts;
  const size_t n = g.below(24);
  const auto o = mon::ivec<T, 3>(g, 8);
  auto a = mon::uvec<T, 3>(g), b = mon::uvec<T, 3>(g);
  if (g.below(4) == 0) b = a; // a line
  const double jitter = g.below(3) == 0 ? 0.0 : g.below(2) ? 1e-15 : 1e-9;
  for (size_t i = 0; i < n; ++i) {
    if (!pts.empty() && g.below(4) == 0) {
      pts.push_back(pts[g.below(pts.size())]);
      continue;
    }
    T s, t;
    switch (g.below(3)) {
      case 0: s = T(g.irange(-3, 3)); t = T(g.irange(-3, 3)); break;
      case 1: s = T(g.real(-4, 4)); t = s * T(g.irange(-1, 1)); break;
      default: s = T(g.real(-4, 4)); t = T(g.real(-4, 4)); break;
    }
    vm::vec<T, 3> p;
    for (size_t k = 0; k < 3; ++k) p.v[k] = o.v[k] + s * a.v[k] + t * b.v[k] + T(g.real(-1, 1) * jitter);
    pts.push_back(p);
  }
  pts.shrink_to_fit();
  return pts;
}
template <typename T> void hulls(mon::Rng& g) {
  const auto pts = nearly<T>(g);
  try {
    const auto h = vm::convex_hull(pts);
    CHK(h.size() <= pts.size(), "hull larger than the input", h.size() << " of " << pts.size());
    const vm::polygon<T, 3> p(h), q(pts);
    ops::Out o;
    ops::put(o, std::make_tuple(vm::compareUnoriented(p, q), vm::compare(p, q), p.invert(), q.invert()));
    if (h.size() >= 3) {
      const auto pl = vm::from_points(h.begin(), h.end());
      if (std::get<0>(pl)) ops::put(o, vm::intersect_ray_polygon(vm::ray<T, 3>(mon::ivec<T, 3>(g, 8), mon::uvec<T, 3>(g)), std::get<1>(pl), h.begin(), h.end()));
    }
    OBS(h.empty() ? "no hull" : "hull");
    CHK(o.h != 0, "digest", o.h);
  } catch (const ops::ContractViolation&) {
    OBS("arguments outside the contract");
  }
}
// ---- text in exact-size blocks and in the middle of larger blocks
void texts(mon::Rng& g) {
  ops::Src s(g.u64(), 0, nullptr);
  std::string x;
  const size_t n = g.below(7);
  for (size_t i = 0; i < n; ++i) {
    std::ostringstream str;
    str.precision(int(g.irange(1, 17)));
    str << g.wild<double>();
    x += str.str() + (g.below(5) ? " " : g.below(2) ? "" : s.text());
  }
  if (g.below(2)) x = s.text() + x;
  if (g.below(8) == 0) x += std::string(g.below(400), "1234567890. ,;()"[g.below(16)]);
  const ops::Block exact(x);
  auto both = [&](std::string_view v) {
    ops::Out o;
    ops::put(o, std::make_tuple(vm::parse<double, 3>(v), vm::parse<float, 2>(v)));
    std::vector<vm::vec<double, 2>> l;
    vm::parse_all<double, 2>(v, std::back_inserter(l));
    ops::put(o, l);
    ops::put(o, vm::parse<double, 2, 2>(v));
    return o.h;
  };
  const auto h = both(exact.view());
  CHK(h == both(std::string_view(x)), "depends on the memory behind the text", x);
  if (!x.empty()) {
    const ops::Block cut(x.substr(0, g.below(x.size())));
    both(cut.view());
  }
}
mon::Reg h1("hulls<double>", 4000, hulls<double>);
mon::Reg h2("hulls<float>", 4000, hulls<float>);
mon::Reg t1("texts", 8000, texts);
} // namespace
MON_MAIN("C01")
