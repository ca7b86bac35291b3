// C01: operations on very long lists, built without optimization and run with a small stack. The amount of
// stack an operation needs must not grow with its input.
#include "gen.h"

#include <vecmath/bbox.h>
#include <vecmath/bezier_surface.h>
#include <vecmath/convex_hull.h>
#include <vecmath/intersection.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/polygon.h>
#include <vecmath/segment.h>
#include <vecmath/vec.h>
#include <vecmath/vec_io.h>

#include <sstream>

using namespace mon;
using vm::vec;

namespace {
using V = vec<double, 3>;
V place(double s, double t, size_t axis) {
  V r(0, 0, 0);
  r[(axis + 1) % 3] = s;
  r[(axis + 2) % 3] = t;
  r[axis] = 3;
  return r;
}
bool closeto(const L3& a, const L3& b, L tol) { return ldist(a, b) <= tol; }
// a chain of left turns that one further point hides, or whose points are all corners
void hull(Rng& g) {
  const size_t n = 30000 + g.below(30000), axis = g.below(3);
  const bool hidden = g.below(3) != 0;
  const double up = g.below(2) ? 1 : -1;
  std::vector<V> p;
  p.push_back(place(0, 0, axis));
  for (size_t i = 0; i < n; ++i) {
    const double t = double(i);
    p.push_back(place(1e12 - t * t, up * (1e9 + t), axis));
  }
  if (hidden) p.push_back(place(1e13, up * 1e13, axis));
  if (g.below(2)) g.shuffle(p);
  const auto h = vm::convex_hull(p);
  CHK(hidden ? h.size() < 10 : h.size() > n / 2, "hull of many points", p.size() << " points, hull of " << h.size());
  OBS(hidden ? "long chain removed" : "long hull");
}
Reg r1("deep hull", 24, hull);

void lists(Rng& g) {
  const size_t n = 30000 + g.below(30000);
  std::vector<V> p;
  std::vector<vm::segment<double, 3>> sg;
  for (size_t i = 0; i < n; ++i) {
    const double a = 6.283185307179586 * double(i) / double(n);
    p.push_back(V(1000 * std::cos(a), 1000 * std::sin(a), 5));
    if (i) sg.emplace_back(p[i - 1], p[i]);
  }
  const V o(0, 0, 5), up(0, 0, 1);
  CHK(vm::polygon_contains_point(o, up, p.begin(), p.end()), "point in a long polygon", n);
  const auto d = vm::intersect_ray_polygon(vm::ray<double, 3>(V(1, 2, 25), V(0, 0, -1)), vm::plane<double, 3>(o, up), p.begin(), p.end());
  CHK(near(d, 20.0L, 1e-9L), "ray and long polygon", d);
  const auto b = vm::bbox<double, 3>::merge_all(p.begin(), p.end());
  CHK(near(b.max[0], 1000, 1e-9L) && near(b.min[1], -1000, 1e-3L), "bounds of a long list", P(b));
  vm::bbox<double, 3>::builder bb;
  bb.add(p.begin(), p.end());
  CHK(bb.bounds() == b, "bounds of a long list, builder", P(b));
  CHK(closeto(lv(vm::average(p.begin(), p.end())), L3{0, 0, 5}, 1e-6L), "average of a long list", P(vm::average(p.begin(), p.end())));
  const vm::polygon<double, 3> f(p), f2(f.invert());
  CHK(f.vertexCount() == n && f2.vertexCount() == n && vm::compareUnoriented(f, f) == 0 && vm::compare(f, f) == 0, "long polygons", n);
  CHK(closeto(lv(f.center()), L3{0, 0, 5}, 1e-6L) && f.hasVertex(p[n / 2]), "center of a long polygon", n);
  const auto m = vm::translation_matrix(V(1, 2, 3));
  const auto ft = f.transform(m), fl = f.translate(V(1, 2, 3));
  CHK(vm::compare(ft, fl, 1e-9) == 0, "moved long polygons", n);
  const auto mp = m * p, pp = p + V(1, 2, 3);
  CHK(mp.size() == n && pp.size() == n && vm::compare(mp.begin(), mp.end(), pp.begin(), pp.end(), 1e-9) == 0, "long lists", n);
  std::vector<V> vs;
  vm::segment<double, 3>::get_vertices(sg.begin(), sg.end(), std::back_inserter(vs));
  CHK(vs.size() == 2 * (n - 1), "vertices of many segments", vs.size());
  std::string text;
  for (size_t i = 0; i < n; ++i) text += i % 2 ? "(1 2 3) " : "4 5 6 ";
  vs.clear();
  vm::parse_all<double, 3>(text, std::back_inserter(vs));
  CHK(vs.size() == n && vs[1] == V(1, 2, 3) && vs[n - n % 2 - 2] == V(4, 5, 6), "long text", vs.size() << " of " << n);
  const auto one = vm::parse<double, 3>(std::string(n, ' ') + "1 2 3");
  CHK(bool(one), "text with many blanks", n);
  const auto none = vm::parse<double, 3>(std::string(n, '('));
  CHK(!none, "text with many brackets", n);
  const auto pl = vm::from_points(p.begin(), p.end());
  CHK(std::get<0>(pl), "plane of a long list", n);
  OBS("long lists");
}
Reg r2("long lists", 24, lists);
} // namespace
MON_MAIN("C01")
