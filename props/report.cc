// lines of the report files. usage: report SEED0 NCASES report
#include "hydro.h"
#include <numeric>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <random>
#include <unordered_set>
#include <climits>
#include <hdf5.h>
#include <dirent.h>
#include <libgen.h>
#include <unistd.h>
#define private public
#include "bodies_system.h"
#undef private
#include "analysis.h"
#include "diagnostic.h"
#include "wholerun.h"

static int lines[2] = {0, 0};
// numbers of the last line, number of lines that are no comments
static std::vector<double> last(const char * file, int & n) {
  std::ifstream f(file);
  std::string l, x;
  n = 0;
  while(std::getline(f, l))
    if(l.size() && l[0] != '#') {
      ++n;
      x = l;
    }
  std::vector<double> v;
  std::istringstream s(x);
  for(double d; s >> d;)
    v.push_back(d);
  return v;
}
static void near(double got, double want, double scale, const char * what) {
  CHK(std::abs(got - want) <= 1e-10 * (std::abs(want) + scale), "%s reported as %.12g, is %.12g", what, got, want);
}
static int one(uint64_t seed) {
  std::mt19937_64 g(seed * 7919 + 13);
  int n = std::max<int>(3 * size_, 3 + g() % 40);
  what_ = text("seed %lu, %d particles", (unsigned long)seed, n);
  std::vector<body> all;
  for(int i = 0; i < n; ++i) {
    body b = random_body(g, i);
    point_t p;
    for(int d = 0; d < D; ++d)
      p[d] = uni(g) - .5;
    b.set_coordinates(p);
    b.set_radius(.1 + .2 * uni(g));
    b.setNeighbors(g() % 3000);
    all.push_back(b);
  }
  body_system<double, D> bs;
  int lo = n / size_ * rank_ + std::min(rank_, n % size_), hi = n / size_ * (rank_ + 1) + std::min(rank_ + 1, n % size_);
  bs.getLocalbodies().assign(all.begin() + lo, all.begin() + hi);
  bs.totalnbodies_ = n;
  bs.update_iteration();
  param::_thermokinetic_formulation = g() % 2;
  param::_enable_fmm = g() % 2;
  param::_evolve_internal_energy = g() % 2;
  for(int step = 0; step < 6; ++step) {
    physics::iteration = g() % 30;
    physics::totaltime = .25 * (g() % 20);
    physics::dt = .01 * (1 + g() % 9);
    static const int evs[] = {-1, 0, 1, 2, 5, 1};
    param::_out_scalar_every = evs[g() % 6];
    param::_out_diagnostic_every = evs[g() % 6];
    param::_out_scalar_dt = g() % 2 ? -1. : .5;
    physics::t_scalar_output = .25 * (g() % 20);
    bool due = param::_out_scalar_dt > 0 ? physics::totaltime >= physics::t_scalar_output
                                         : param::_out_scalar_every > 0 && physics::iteration % param::_out_scalar_every == 0;
    bool dgn = param::_out_diagnostic_every > 0 && physics::iteration % param::_out_diagnostic_every == 0;
    analysis::scalar_output(bs, rank_);
    diagnostic::output(bs, rank_);
    lines[0] += due;
    lines[1] += dgn;
    if(rank_)
      continue;
    int k;
    auto v = last("scalar_reductions.dat", k);
    CHK(k == lines[0], "%d lines of totals written, %d were due", k, lines[0]);
    if(due) {
      double m = 0, ek = 0, ei = 0, eg = 0, et = 0, sm = 0, se = 0, mx[3] = {0, 0, 0}, J[3] = {0, 0, 0}, sp = 0, sj = 0, c[3] = {0, 0, 0}, mt = 0;
      for(auto & b : all) {
        double w = b.mass();
        mt += w;
        point_t x = b.coordinates(), u = b.getVelocity();
        for(int d = 0; d < D; ++d)
          c[d] += w * x[d];
        if(b.getType() != NORMAL)
          continue;
        double u2 = 0, px[3] = {0, 0, 0}, pu[3] = {0, 0, 0};
        for(int d = 0; d < D; ++d) {
          u2 += u[d] * u[d];
          px[d] = x[d];
          pu[d] = u[d];
          mx[d] += w * u[d];
          sp += std::abs(w * u[d]);
        }
        for(int d = 0; d < 3; ++d) {
          double a = w * px[(d + 1) % 3] * pu[(d + 2) % 3], e = w * px[(d + 2) % 3] * pu[(d + 1) % 3];
          J[d] += a - e;
          sj += std::abs(a) + std::abs(e);
        }
        m += w;
        ek += .5 * w * u2;
        ei += w * b.getInternalenergy();
        eg += .5 * w * b.getGPotential();
        double e = param::_thermokinetic_formulation ? w * b.getTotalenergy() : w * (.5 * u2 + b.getInternalenergy());
        if(param::_enable_fmm)
          e += .5 * w * b.getGPotential();
        et += e;
        se += std::abs(e) + w * (.5 * u2 + std::abs(b.getInternalenergy()) + std::abs(b.getGPotential()));
      }
      CHK((int)v.size() == 7 + D + (D == 2 ? 1 : D == 3 ? 6 : 0), "%d columns in the line of totals", (int)v.size());
      near(v[0], physics::iteration, 0, "iteration");
      near(v[1], physics::totaltime, 1, "time");
      near(v[2], physics::dt, 0, "time step");
      near(v[3], m, 0, "total mass");
      near(v[4], et, se, "total energy");
      near(v[5], ek, 0, "kinetic energy");
      bool grav = param::_enable_fmm && !param::_evolve_internal_energy;
      if(D == 3 || !grav)
        near(v[6], grav ? eg : ei, se, grav ? "gravitational energy" : "internal energy");
      for(int d = 0; d < D; ++d)
        near(v[7 + d], mx[d], sp, "momentum");
      if(D == 2)
        near(v[9], J[2], sj, "angular momentum");
      if(D == 3)
        for(int d = 0; d < 3; ++d) {
          near(v[10 + d], J[d], sj, "angular momentum");
          near(v[13 + d], c[d] / mt, 1, "centre of mass");
        }
    }
    v = last("diagnostic.dat", k);
    CHK(k == lines[1], "%d lines of statistics written, %d were due", k, lines[1]);
    if(dgn) {
      double h0 = 1e300, h1 = 0, hs = 0, v0 = 1e300, v1 = 0, vs = 0;
      uint64_t n0 = -1, n1 = 0, ns = 0;
      for(auto & b : all) {
        double u = 0;
        for(int d = 0; d < D; ++d)
          u += b.getVelocity()[d] * b.getVelocity()[d];
        u = std::sqrt(u);
        h0 = std::min(h0, b.radius());
        h1 = std::max(h1, b.radius());
        hs += b.radius();
        v0 = std::min(v0, u);
        v1 = std::max(v1, u);
        vs += u;
        n0 = std::min<uint64_t>(n0, b.getNeighbors());
        n1 = std::max<uint64_t>(n1, b.getNeighbors());
        ns += b.getNeighbors();
      }
      CHK(v.size() == 14, "%d columns in the line of statistics", (int)v.size());
      near(v[0], physics::iteration, 0, "iteration");
      near(v[1], physics::totaltime, 1, "time");
      near(v[2], h0, 0, "smallest smoothing length");
      near(v[3], h1, 0, "largest smoothing length");
      near(v[4], hs / n, 0, "average smoothing length");
      near(v[5], n0, 0, "smallest number of neighbours");
      near(v[6], n1, 0, "largest number of neighbours");
      near(v[7], ns / n, 0, "average number of neighbours");
      near(v[10], v0, 0, "smallest speed");
      near(v[11], v1, 0, "largest speed");
      near(v[12], vs / n, 0, "average speed");
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  return 1;
}
int main(int argc, char ** argv) {
  return run_all(argc, argv, [](uint64_t s, const std::string &) { return one(s); });
}
