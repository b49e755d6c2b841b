#include "hydro.h"
#include "bodyget.h"
#include "testkern.h"
using VB = std::vector<body *>;
static void put(double * o, const point_t & p) { for(size_t i = 0; i < gdimension; ++i) o[i] = p[i]; }
// a sees b and b sees a
#define BOTH(F) { VB na(1, &b), nb(1, &a); F(a, na); F(b, nb); }
X void w_pair(body & a, body & b, double * o) {
  BOTH(physics::compute_acceleration)
  put(o, a.getAcceleration()); put(o + gdimension, b.getAcceleration());
}
X void w_pair_repulsion(body & a, body & b, double * o) {
  a.setAcceleration(point_t{}); b.setAcceleration(point_t{});
  BOTH(physics::add_short_range_repulsion)
  put(o, a.getAcceleration()); put(o + gdimension, b.getAcceleration());
}
X void w_pair_energy(body & a, body & b, double * o) {
  BOTH(physics::compute_acceleration) BOTH(physics::compute_dudt)
  put(o, a.getAcceleration()); put(o + gdimension, b.getAcceleration());
  o[2 * gdimension] = a.getDudt(); o[2 * gdimension + 1] = b.getDudt();
}
X void w_pair_dedt(body & a, body & b, double * o) {
  BOTH(physics::compute_dedt)
  o[0] = a.getDedt(); o[1] = b.getDedt();
}
// a with itself as its only neighbour
X void w_self(body & a, double * o) {
  VB n(1, &a);
  physics::compute_acceleration(a, n); physics::compute_dudt(a, n);
  put(o, a.getAcceleration()); o[gdimension] = a.getDudt();
}
// a vector of one particle, without allocation
struct one {
  body * slot; body ** raw[3];
  one() { raw[0] = &slot; raw[1] = raw[2] = &slot + 1; }
  VB & v() { return *reinterpret_cast<VB *>(raw); }
};
// whole neighbour list against the sum of one-neighbour calls
X void w_additive(body & a, VB & n, double * o) {
  physics::compute_acceleration(a, n);
  put(o, a.getAcceleration());
  physics::compute_dudt(a, n);
  o[2 * gdimension] = a.getDudt();
  one u; double s[gdimension] = {}, e = 0;
  for(size_t b = 0; b < n.size(); ++b) {
    u.slot = n[b];
    physics::compute_acceleration(a, u.v());
    physics::compute_dudt(a, u.v());
    for(size_t i = 0; i < gdimension; ++i) s[i] += a.getAcceleration()[i];
    e += a.getDudt();
  }
  for(size_t i = 0; i < gdimension; ++i) o[gdimension + i] = s[i];
  o[2 * gdimension + 1] = e;
}
X void w_additive_rep(body & a, VB & n, double * o) {
  a.setAcceleration(point_t{});
  physics::add_short_range_repulsion(a, n);
  put(o, a.getAcceleration());
  one u; double s[gdimension] = {};
  for(size_t b = 0; b < n.size(); ++b) {
    u.slot = n[b];
    a.setAcceleration(point_t{});
    physics::add_short_range_repulsion(a, u.v());
    for(size_t i = 0; i < gdimension; ++i) s[i] += a.getAcceleration()[i];
  }
  for(size_t i = 0; i < gdimension; ++i) o[gdimension + i] = s[i];
}
// both energy equations for the same neighbours: dedt, dudt + v.(a - a_ext) + v.g
X void w_energy_rates(body & a, VB & n, double * o) {
  physics::compute_dedt(a, n);
  const point_t g = a.getGAcceleration(), v = a.getVelocity();
  o[0] = a.getDedt();
  physics::compute_acceleration(a, n); physics::compute_dudt(a, n);
  const point_t acc = a.getAcceleration() - external_force::acceleration(a);
  o[1] = a.getDudt() + flecsi::dot(v, acc) + flecsi::dot(v, g);
}
X void w_pair_dudt(body & a, body & b, double * o) {
  BOTH(physics::compute_dudt)
  o[0] = a.getDudt(); o[1] = b.getDudt();
}
X void w_drag(body & b, double * o) {
  const point_t v = b.getVelocity(), a0 = b.getAcceleration();
  const double u0 = b.getDudt(), e0 = b.getDedt();
  physics::add_drag_acceleration(b); physics::add_drag_dudt(b); physics::add_drag_dedt(b);
  o[0] = flecsi::dot(v, b.getAcceleration() - a0);
  o[1] = b.getDudt() - u0; o[2] = b.getDedt() - e0;
}
// viscous heating alone: no pressure, half-step velocity equal to the velocity
X void w_heat(body & a, body & b, double * o) {
  a.setPressure(0); b.setPressure(0);
  a.setVelocityhalf(a.getVelocity()); b.setVelocityhalf(b.getVelocity());
  BOTH(physics::compute_dudt)
  o[0] = a.getDudt(); o[1] = b.getDudt();
}
