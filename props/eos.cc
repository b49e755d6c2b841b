// equations of state, reached through the selected pointers
#include "hydro.h"
#include "bodyget.h"
#define EOS(k) \
  X void w_init_##k(body & b) { param::_eos_type = param::eos_##k; eos::select(); eos::init(b); } \
  X void w_pressure_##k(body & b) { param::_eos_type = param::eos_##k; eos::select(); eos::compute_pressure(b); } \
  X void w_soundspeed_##k(body & b) { param::_eos_type = param::eos_##k; eos::select(); eos::compute_soundspeed(b); } \
  X void w_energy_##k(body & b) { param::_eos_type = param::eos_##k; eos::select(); eos::compute_internal_energy(b); }
EOS(polytropic) EOS(ideal) EOS(wd) EOS(ppt) EOS(no_eos)
X double w_K(double rho, double P) { return eos::eos_t<param::eos_polytropic>::adiabatic_given_rhoP(rho, P); }
X void w_adia_ideal(body & b) { eos::eos_t<param::eos_ideal>::compute_adiabatic(b); }
X double w_wd_P(double rho, double ye) { return eos::eos_t<param::eos_wd>::pressure_given_rhoYe(rho, ye); }
X double w_wd_c(double rho, double ye) { return eos::eos_t<param::eos_wd>::soundspeed_given_rhoYe(rho, ye); }
// pressure and sound speed half a step ahead
X void w_ahead_u(body & b) { param::_eos_type = param::eos_ideal; eos::select(); physics::recompute_pressure_soundspeed(b); }
X void w_ahead_e(body & b) { param::_eos_type = param::eos_ideal; eos::select(); physics::recompute_pressure_soundspeed_thermokinetic(b); }
