#include <vecmath/abstract_line.h>
#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/bezier_surface.h>
#include <vecmath/constants.h>
#include <vecmath/constexpr_util.h>
#include <vecmath/convex_hull.h>
#include <vecmath/distance.h>
#include <vecmath/forward.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/polygon.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/util.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <vecmath/vec_io.h>

int main() {}
