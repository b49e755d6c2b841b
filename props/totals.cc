// reported totals and statistics
#include "hydro.h"
#include <numeric>
#include <fstream>
#include "bodies_system.h"
#include "analysis.h"
#include "diagnostic.h"
#include "bodyget.h"
#include "testkern.h"
using V = std::vector<body>;
namespace an = analysis;
namespace dg = diagnostic;
X double w_mass(V & b) { an::compute_total_mass(b); return an::total_mass; }
X double w_energy(V & b) { an::compute_total_energy(b); return an::total_energy; }
X double w_ekin(V & b) { an::compute_total_kinetic_energy(b); return an::total_kinetic_energy; }
X double w_eint(V & b) { an::compute_total_internal_energy(b); return an::total_internal_energy; }
X double w_egrav(V & b) { an::compute_total_gravitational_energy(b); return an::total_gravitational_energy; }
X void w_mom(V & b, double * o) { an::compute_total_momentum(b); for(size_t i = 0; i < gdimension; ++i) o[i] = an::linear_momentum[i]; }
X void w_ang(V & b, double * o) { an::compute_total_ang_mom(b); for(size_t i = 0; i < gdimension; ++i) o[i] = an::total_ang_mom[i]; }
X void w_hstat(V & b, int64_t n, double * o) { dg::compute_smoothinglength_stats(b, n); o[0] = dg::h_min; o[1] = dg::h_max; o[2] = dg::h_average; }
X void w_vstat(V & b, int64_t n, double * o) { dg::compute_velocity_stats(b, n); o[0] = dg::V_min; o[1] = dg::V_max; o[2] = dg::V_average; }
X void w_nstat(V & b, int64_t n, uint64_t * o) { dg::compute_neighbors_stats(b, n); o[0] = dg::N_min; o[1] = dg::N_max; o[2] = dg::N_average; }
X void w_start() { an::set_initial_time_iteration(); }
