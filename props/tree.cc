// geometry predicates, tree cells and node summaries
#include "hydro.h"
static constexpr size_t D = gdimension;
using geo = flecsi::topology::tree_geometry<double, D>;
X double t_distance2(point_t & a, point_t & b) { return geo::distance2(a, b); }
X bool t_within_distance2(point_t & a, point_t & b, double r) { return geo::within_distance2(a, b, r); }
X bool t_within(point_t & a, point_t & b, double r, double r2) { return geo::within(a, b, r, r2); }
X bool t_within1(point_t & a, point_t & b, double r) { return geo::within(a, b, r); }
X bool t_within_square(point_t & a, point_t & b, double r, double r2) { return geo::within_square(a, b, r, r2); }
X bool t_within_box(point_t & lo, point_t & hi, point_t & x, double r) { return geo::within_box(lo, hi, x, r); }
X bool t_box_box(point_t & a, point_t & b, point_t & c, point_t & d) { return geo::intersects_box_box(a, b, c, d); }
X bool t_sphere_sphere(point_t & a, double r, point_t & b, double s) { return geo::intersects_sphere_sphere(a, r, b, s); }
X bool t_sphere_box(point_t & lo, point_t & hi, point_t & c, double r) { return geo::intersects_sphere_box(lo, hi, c, r); }
X bool t_mac(point_t & a, double ra, point_t & b, double rb, double angle) { return geo::mac(a, ra, b, rb, angle); }
X bool t_box_mac(point_t & src, point_t & snk, point_t & lo, point_t & hi, double angle) { return geo::box_MAC(src, snk, lo, hi, angle); }
using VB = std::vector<body *>;
using VN = std::vector<node *>;
X void t_cofm(node & c, VB & e, VN & n) { physics::compute_cofm(&c, e, n); }
#include "bodyget.h"
#include "nodeget.h"
