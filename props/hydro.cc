#include "hydro.h"
#include "bodyget.h"
#include "testkern.h"
using VB = std::vector<body *>;
X void w_density(body & b, VB & n) { physics::compute_density(b, n); }
X void w_acceleration(body & b, VB & n) { physics::compute_acceleration(b, n); }
X void w_dudt(body & b, VB & n) { physics::compute_dudt(b, n); }
X void w_dedt(body & b, VB & n) { physics::compute_dedt(b, n); }
X void w_divv(body & b, VB & n) { physics::compute_divv(b, n); }
X void w_signalspeed(body & b, VB & n) { physics::compute_signalspeed(b, n); }
X double w_mu(double h, double * v, double * x) {
  point_t a, c;
  for(size_t i = 0; i < gdimension; ++i) { a[i] = v[i]; c[i] = x[i]; }
  return viscosity::mu(h, a, c);
}
X double w_visc_constant(double a, double r, double c, double m) { return viscosity::viscosity_function<param::visc_constant>(a, r, c, m); }
X double w_visc_cullen(double a, double r, double c, double m) { return viscosity::viscosity_function<param::visc_cullen>(a, r, c, m); }
X void w_select() { kernels::select(); viscosity::select(); }
X void w_smooth(std::vector<body> & bs) { physics::compute_smoothinglength(bs); }
X void w_smooth1(body & b) { std::vector<body> v(1, b); physics::compute_smoothinglength(v); b = v[0]; }
X void w_total_energy(body & b) { physics::set_total_energy(b); }
X void w_recover(body & b) { physics::set_total_energy(b); physics::recover_internal_energy(b); }
X void w_recover2(body & b) { physics::recover_internal_energy(b); physics::set_total_energy(b); }
X void w_drag(body & b) { physics::add_drag_acceleration(b); physics::add_drag_dudt(b); physics::add_drag_dedt(b); }
X void w_repulsion(body & b, VB & n) { physics::add_short_range_repulsion(b, n); }
X void w_rates(body & b, VB & n) { physics::compute_acceleration(b, n); physics::compute_dudt(b, n); }
X void w_compute_dt(body & b) { physics::compute_dt(b); }
X void w_alpha(body & b, VB & n) { viscosity::compute_alpha(b, n); }
X void w_init_alpha(body & b) { viscosity::initialize_alpha(b); }
X double w_xi(body & b, VB & n) { return viscosity::compute_xi(b, n); }
X double w_visc_sel(int k, double a, double r, double c, double m) {
  param::_sph_viscosity = k ? param::visc_cullen : param::visc_constant; viscosity::select();
  return viscosity::sph_artificial_viscosity(a, r, c, m);
}
X void w_smooth_avg(std::vector<body> & bs, int64_t n) { physics::compute_average_smoothinglength(bs, n); }
X void w_dps(body & b, VB & n) { physics::compute_density_pressure_soundspeed(b, n); }
X double w_mu_swap(double h, double * v, double * x) {
  point_t a, c;
  for(size_t i = 0; i < gdimension; ++i) { a[i] = -v[i]; c[i] = -x[i]; }
  return viscosity::mu(h, a, c);
}
X double w_artificial(double r, double c, double m) { return viscosity::artificial_viscosity(r, c, m); }
X void w_adaptive(std::vector<body> & bs) { physics::set_adaptive_timestep(bs); }
X void w_advance() { physics::advance_time(); }
X int w_terminate() { return physics::termination_criteria(); }
X void w_select_visc() { viscosity::select(); }
