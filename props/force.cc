// external forces: each acceleration with its potential
#include "hydro.h"
#include "eforce.h"
#include "bodyget.h"
using namespace external_force;
#define F(n, a, p) \
  X void w_a_##n(body & b, double * o) { point_t r = a(b); for(size_t i = 0; i < gdimension; ++i) o[i] = r[i]; } \
  X double w_p_##n(body & b) { return p(b.coordinates()); }
F(wall_x, acceleration_square_well<0>, potential_square_well<0>)
#if EXT_GDIMENSION > 1
F(wall_y, acceleration_square_well<1>, potential_square_well<1>)
F(airfoil, acceleration_airfoil, potential_airfoil)
F(orbit, acceleration_orbit, potential_orbit)
#endif
#if EXT_GDIMENSION > 2
F(wall_z, acceleration_square_well<2>, potential_square_well<2>)
#endif
F(spherical_wall, acceleration_spherical_wall, potential_spherical_wall)
F(gravity, acceleration_gravity, potential_gravity)
X void w_a_poison(body & b, double * o) { for(size_t i = 0; i < gdimension; ++i) o[i] = 0; }
X double w_p_poison(body & b) { return potential_poison(b.coordinates()); }
F(support, acceleration_spherical_density_support, potential_spherical_density_support)
X void w_drag(double * v, double * o) {
  point_t p;
  for(size_t i = 0; i < gdimension; ++i) p[i] = v[i];
  point_t r = acceleration_drag(p);
  for(size_t i = 0; i < gdimension; ++i) o[i] = r[i];
}
static double t_rho(const double x) { return 2. - .25 * x * x; }
static double t_drho(const double x) { return -.5 * x; }
X void t_profile() { density_profiles::spherical_density_profile = t_rho; density_profiles::spherical_drho_dr = t_drho; }
// total force of a selection, and the sum over its named parts
X void w_select_force(const char * s, double * x, double * o) {
  body b; point_t p;
  for(size_t i = 0; i < gdimension; ++i) p[i] = x[i];
  b.set_coordinates(p);
  for(int i = 0; i < 8; ++i) o[i] = 0;
  param::_box_length = .7; param::_box_width = .9; param::_box_height = 1.1; param::_extforce_wall_steepness = 2; param::_extforce_wall_powerindex = 3;
  param::_sphere_radius = .8; param::_gravity_acceleration_constant = 1.5; param::_zero_potential_poison_value = .25;
  external_force::select(s);
  point_t a = external_force::acceleration(b);
  for(size_t i = 0; i < gdimension; ++i) o[i] = a[i];
  o[3] = external_force::potential(p);
  std::string t(s), w;
  for(auto & c : t) c = tolower(c);
  t += ',';
  auto add = [&](acceleration_t f, potential_t q) {
    if(f) { point_t r = f(b); for(size_t i = 0; i < gdimension; ++i) o[4 + i] += r[i]; }
    if(q) o[7] += q(p);
  };
  for(char c : t) {
    if(c != ',') { w += c; continue; }
    if(w == "spherical wall") add(acceleration_spherical_wall, potential_spherical_wall);
    else if(w == "gravity") add(acceleration_gravity, potential_gravity);
    else if(w == "poison") add(nullptr, potential_poison);
    else if(w.substr(0, 6) == "walls:") {
      for(char d : w.substr(6)) {
        if(d == 'x') add(acceleration_square_well<0>, potential_square_well<0>);
#if EXT_GDIMENSION > 1
        if(d == 'y') add(acceleration_square_well<1>, potential_square_well<1>);
#endif
#if EXT_GDIMENSION > 2
        if(d == 'z') add(acceleration_square_well<2>, potential_square_well<2>);
#endif
      }
    }
#if EXT_GDIMENSION > 1
    else if(w == "airfoil") add(acceleration_airfoil, potential_airfoil);
    else if(w == "orbit") add(acceleration_orbit, potential_orbit);
#endif
    w.clear();
  }
}
