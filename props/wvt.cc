#include <fstream>
#include <sstream>
#include "hydro.h"
#include "density_profiles.h"
#include "wvt.h"
#include "bodyget.h"
#include "testkern.h"
using VB = std::vector<body *>;
X void w_density(body & b, VB & n) { wvt::compute_density(b, n); }
X void w_arth(body & b, VB & n) { wvt::wvt_acceleration_arth(b, n); }
X void w_diehl(body & b, VB & n) { wvt::wvt_acceleration_diehl(b, n); }
X void w_lengths(std::vector<body> & bs) { wvt::compute_smoothinglength_wvt(bs); }
X bool w_converged(std::vector<body> & bs) { wvt::check_convergence_wvt(bs); return wvt_basic::wvt_converged; }
X void w_move(body & b) { wvt::wvt_displacement(b); }
X void w_profile(body & b) { wvt::wvt_set_density(b); }
X void w_spherical(double * o, double * x) {
  point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i];
  p = wvt::cartesian_to_spherical(p);
  for(size_t i = 0; i < gdimension; ++i) o[i] = p[i];
}
X void w_cartesian(double * o, double * x) {
  point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i];
  p = wvt::spherical_to_cartesian(p);
  for(size_t i = 0; i < gdimension; ++i) o[i] = p[i];
}
X void w_round(double * o, double * x) {
  point_t p; for(size_t i = 0; i < gdimension; ++i) p[i] = x[i];
  p = wvt::spherical_to_cartesian(wvt::cartesian_to_spherical(p));
  for(size_t i = 0; i < gdimension; ++i) o[i] = p[i];
}
X void w_tangential(double * o, double * x, double * a) {
  point_t p, q; for(size_t i = 0; i < gdimension; ++i) { p[i] = x[i]; q[i] = a[i]; }
  p = wvt::remove_radial_acc(p, q);
  for(size_t i = 0; i < gdimension; ++i) o[i] = p[i];
}
// 0: none, 1: reflective, 2: frozen
X void t_boundary(int k) { strcpy(param::_wvt_boundary, k == 1 ? "reflective" : k == 2 ? "frozen" : "none"); }
X int w_select(int k) {
  strcpy(param::_wvt_method, k == 0 ? "Diehl" : "Arth");
  wvt::select();
  return wvt::wvt_acceleration == wvt::wvt_acceleration_diehl ? 0 : wvt::wvt_acceleration == wvt::wvt_acceleration_arth ? 1 : 2;
}
static double t_prof(const double r) { return 1. / (1. + r * r); }
X void t_profile() { density_profiles::spherical_density_profile = t_prof; }
