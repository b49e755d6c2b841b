// spherical density profiles, reached through the selector
#include <vector>
// keep the interval search a function of its own (called by contract)
namespace density_profiles { __attribute__((noinline)) int get_interval_index(const double, const std::vector<double> &); }
#include "hydro.h"
#include "density_profiles.h"
#include <string.h>
#define R(n, s) \
  static void sel_##n(double q) { strcpy(param::_density_profile, s); param::_mesa_rim_width = q; density_profiles::select(); } \
  X double w_rho_##n(double r, double q) { sel_##n(q); return density_profiles::spherical_density_profile(r); } \
  X double w_mass_##n(double r, double q) { sel_##n(q); return density_profiles::spherical_mass_profile(r); } \
  X double w_slope_##n(double r, double q) { sel_##n(q); return density_profiles::spherical_drho_dr(r); }
R(constant, "constant") R(parabolic, "parabolic") R(mesa, "mesa")
X int w_interval(double x, const std::vector<double> & xp) { return density_profiles::get_interval_index(x, xp); }
X double w_interp(double x, const std::vector<double> & xp, const std::vector<double> & yp) {
  return density_profiles::cubic_interp(x, xp, yp);
}
// read a table back through the selector
X void w_file(const char * name, double r, double * o) {
  strcpy(param::_density_profile, "from file"); strcpy(param::_input_density_file, name);
  density_profiles::select();
  o[0] = density_profiles::spherical_density_profile(r); o[1] = density_profiles::spherical_mass_profile(r); o[2] = density_profiles::spherical_drho_dr(r);
}
