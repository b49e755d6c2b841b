// range and largest smoothing length of all particles
#include "hydro.h"
#include <numeric>
#include <fstream>
#include "bodies_system.h"
#include "bodyget.h"
#include "testkern.h"
using sys_t = body_system<double, gdimension>;
X void w_range(sys_t & s, const std::vector<body> & b, std::array<point_t, 2> & r) { s.mpi_compute_range(b, r); }
X size_t t_where() { return reinterpret_cast<size_t>(&reinterpret_cast<sys_t *>(4096)->getLocalbodies()) - 4096; }
// s: storage of a system; only its particles matter
X double t_hmax(sys_t & s, std::vector<body> & b) {
  s.getLocalbodies().swap(b);
  double r = s.getSmoothinglength();
  s.getLocalbodies().swap(b);
  return r;
}
