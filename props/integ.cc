// leapfrog steps
#include "hydro.h"
#include "integration.h"
#include "bodyget.h"
using namespace integration;
X void w_kick_v(body & b) { leapfrog_kick_v(b); }
X void w_kick_u(body & b) { leapfrog_kick_u(b); }
X void w_kick_e(body & b) { leapfrog_kick_e(b); }
X void w_drift(body & b) { leapfrog_drift(b); }
X void w_dadt(body & b) { dadt_integration(b); }
X void w_save(body & b) { save_velocityhalf(b); }
static void turn(body & b, body & r, double u, double e, double a) {
  b.setAcceleration(r.getAcceleration()); b.setGAcceleration(r.getGAcceleration());
  b.setDudt(r.getDudt()); b.setDedt(r.getDedt());
}
// kick with the rates of s, drift, kick with the rates of r
static void step(body & b, body & s, body & r) {
  turn(b, s, 0, 0, 0);
  leapfrog_kick_v(b); leapfrog_kick_u(b); leapfrog_kick_e(b);
  leapfrog_drift(b);
  turn(b, r, 0, 0, 0);
  leapfrog_kick_v(b); leapfrog_kick_u(b); leapfrog_kick_e(b);
}
X void w_step(body & b, body & s, body & r) { step(b, s, r); }
X void w_there_and_back(body & b, body & s, body & r) {
  step(b, s, r);
  physics::dt = -physics::dt;
  step(b, r, s);
  physics::dt = -physics::dt;
}
