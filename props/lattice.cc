// particle lattices
#include "hydro.h"
#include "lattice.h"
#include "testkern.h"
#include <string.h>
namespace pl = particle_lattice;
X int w_in1(double x, double a, double b, int dom) { return pl::in_domain_1d(x, a, b, dom); }
X int w_in2(double x, double y, const point_t & a, const point_t & b, int dom) {
#if EXT_GDIMENSION >= 2
  return pl::in_domain_2d(x, y, a, b, dom);
#else
  return 0;
#endif
}
X int w_in3(double x, double y, double z, const point_t & a, const point_t & b, int dom) {
#if EXT_GDIMENSION >= 3
  return pl::in_domain_3d(x, y, z, a, b, dom);
#else
  return 0;
#endif
}
X int64_t w_shell(int k) { return pl::npart_icosahedral_shell(k); }
X int64_t w_ball(int k) { return pl::npart_icosahedral_sphere(k); }
X int64_t w_count(int lat, int dom, const point_t & a, const point_t & b, double sep, int64_t id) {
  param::_lattice_type = lat;
  pl::select();
  return pl::count(lat, dom, a, b, sep, id);
}
X int64_t w_fill(int lat, int dom, const point_t & a, const point_t & b, double sep, int64_t id, double * x, double * y, double * z) {
  param::_lattice_type = lat;
  pl::select();
  return pl::generate(lat, dom, a, b, sep, id, x, y, z);
}
