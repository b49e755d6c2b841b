// displacement and convergence of the relaxation. usage: wvtrun SEED0 NCASES relax
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <random>
#include <climits>
#include "density_profiles.h"
#include "wvt.h"
#include "wholerun.h"

static double len(const point_t & p) {
  double s = 0;
  for(int d = 0; d < D; ++d)
    s += p[d] * p[d];
  return std::sqrt(s);
}
static void near(double got, double want, double scale, const char * what, long id) {
  CHK(std::abs(got - want) <= 1e-9 * (std::abs(want) + scale), "%s of particle %ld is %.15g, should be %.15g", what, id, got, want);
}
static int one(uint64_t seed) {
  std::mt19937_64 g(seed * 104729 + 3);
  int n = std::max<int>(size_, 3 + g() % 40);
  double R = .5 + 2 * uni(g), S = R * (.8 + .4 * uni(g)), mu = std::pow(10., -4 + 5 * uni(g));
  param::_wvt_radius = R;
  param::_sphere_radius = S;
  param::_wvt_mu = mu;
  param::_wvt_ngb = 5 + g() % 200;
  param::_wvt_h_ngb = g() % 2;
  param::_sph_eta = 1.2 + uni(g);
  param::_rho_initial = .1 + 3 * uni(g);
  param::_final_iteration = 10;
  param::_wvt_cool_down = 1 + g() % 20;
  kernels::kernel_width = 2. + g() % 2;
  physics::iteration = g() % 32;
  int kind = g() % 3;
  density_profiles::spherical_density_profile =
    kind == 0   ? +[](const double) { return .7; }
    : kind == 1 ? +[](const double x) { return 2. / (1. + x * x); }
                : +[](const double x) { return x < .97 ? 1. - x * x : 0.; };
  const char * bc[] = {"none", "reflective", "Frozen"};
  strcpy(param::_wvt_boundary, bc[g() % 3]);
  what_ = text("seed %lu, %d particles, iteration %ld", (unsigned long)seed, n, (long)physics::iteration);
  // names of the methods, in any case
  strcpy(param::_wvt_method, g() % 2 ? "Diehl" : "ARTH");
  bool diehl = param::_wvt_method[0] == 'D';
  wvt::select();
  CHK(wvt::wvt_acceleration == (diehl ? wvt::wvt_acceleration_diehl : wvt::wvt_acceleration_arth), "another method than %s was selected", param::_wvt_method);
  std::vector<body> all;
  for(int i = 0; i < n; ++i) {
    body b = random_body(g, i);
    point_t p, a;
    do
      for(int d = 0; d < D; ++d)
        p[d] = R * (2 * uni(g) - 1);
    while(len(p) >= R || len(p) < 1e-3);
    double s = std::pow(10., -4 + 6 * uni(g)) * R / mu;
    for(int d = 0; d < D; ++d)
      a[d] = s * (2 * uni(g) - 1);
    b.set_coordinates(p);
    b.setAcceleration(a);
    b.set_radius(.1 + .2 * uni(g));
    all.push_back(b);
  }
  // convergence: fewer than so many percent of all particles move by more than 1/1000 of their separation
  {
    int lo = n / size_ * rank_ + std::min(rank_, n % size_), hi = n / size_ * (rank_ + 1) + std::min(rank_ + 1, n % size_);
    std::vector<body> mine(all.begin() + lo, all.begin() + hi);
    double sc = std::pow(10., -6 * uni(g));
    for(auto * v : {&mine, &all})
      for(auto & b : *v)
        b.setAcceleration(sc * b.getAcceleration());
    int far = 0;
    for(auto & b : all)
      far += mu * len(b.getAcceleration()) > .001 * std::pow(1. / param::_wvt_ngb, 1. / D) * b.radius();
    std::vector<body> before = mine;
    int pc[] = {0, far, far + 1, n};
    param::_wvt_convergence_point = 100. * (pc[g() % 4] + .3) / n;
    wvt_basic::wvt_converged = false;
    wvt::check_convergence_wvt(mine);
    bool want = far * 100. / n < param::_wvt_convergence_point;
    CHK(wvt_basic::wvt_converged == want, "%d of %d particles move noticeably, limit %g percent: converged %d", far, n,
      (double)param::_wvt_convergence_point, (int)wvt_basic::wvt_converged);
    for(size_t i = 0; i < mine.size(); ++i)
      same(mine[i], before[i], "before the convergence check");
  }
  for(auto & b : all) {
    body was = b;
    double m = mu;
    if(physics::iteration > 10)
      m = std::max(0., .1 * mu * (1. - (physics::iteration - 10.) / param::_wvt_cool_down));
    point_t x = was.coordinates(), a = was.getAcceleration(), y = x + m * a;
    bool edge = false;
    auto watch = [&] { edge |= std::abs(len(y) / R - 1.01) < 1e-9 || std::abs(len(y) / R - 1.) < 1e-9; };
    watch();
    while(len(y) > 1.01 * R && m > 1e-10) {
      m /= 2;
      y = x + m * a;
      watch();
    }
    if(len(y) >= R) {
      double f = (2 * R - len(y)) / len(y);
      y = f * y;
    }
    double r = len(y), rho = param::_rho_initial / density_profiles::spherical_density_profile(0) * density_profiles::spherical_density_profile(r / S);
    edge |= std::abs(r / S - .97) < 1e-9;
    double V = D == 2 ? M_PI : 4. * M_PI / 3., h = param::_sph_eta * kernels::kernel_width * std::pow(b.mass() / rho, 1. / D);
    if(param::_wvt_h_ngb)
      h = std::pow(param::_wvt_ngb * b.mass() / (V * rho), 1. / D);
    if(rho == 0)
      h = S;
    wvt::wvt_displacement(b);
    if(edge)
      continue;
    CHK(len(b.coordinates()) <= R * (1 + 1e-12), "particle %ld left the sphere: %.15g radii from the centre", (long)b.id(), len(b.coordinates()) / R);
    for(int d = 0; d < D; ++d)
      near(b.coordinates()[d], y[d], R, "position", b.id());
    near(b.getDensity(), rho, 1e-3, "density", b.id());
    near(b.radius(), h, 0, "smoothing length", b.id());
    b.set_coordinates(x);
    b.setDensity(was.getDensity());
    b.set_radius(was.radius());
    same(b, was, "before the displacement");
  }
  return 1;
}
int main(int argc, char ** argv) {
  return run_all(argc, argv, [](uint64_t s, const std::string &) { return one(s); });
}
