// whole simulations: the driver against a reference that evaluates the same
// physics functions stage by stage with brute-force neighbour lists.
// usage: drive SEED0 NCASES MODE (in a scratch directory)
#include "hydro.h"
#include <climits>
#include <dirent.h>
#include <fstream>
#include <hdf5.h>
#include <iomanip>
#include <libgen.h>
#include <numeric>
#include <random>
#include <sstream>
#include <unordered_set>
#include "wholerun.h"
#ifdef NEWTONIAN
#include "drivers/newtonian/main_driver.cc"
#else
#include "drivers/hydro/main_driver.cc"
#endif

using std::string;
struct Conf {
  bool adaptive, cullen, evolve, thermo, varh, unih, fmm;
  int steps, relax, passes, first;
  double dt, eta, L;
  string kernel, eos, force;
};
static Conf conf;

struct State {
  double time, dt;
  std::vector<body> b;
};
static bool odd_; // the case leaves the states the physics admits

// the reference -------------------------------------------------------------
static std::vector<body> B;
template<class F>
static void each(F f) {
  for(auto & b : B)
    f(b);
}
template<class F>
static void near(F f) {
  // all neighbours as they were before the stage
  std::vector<body> old = B;
  std::vector<body *> nb;
  for(size_t i = 0; i < B.size(); ++i) {
    nb.clear();
    for(size_t j = 0; j < B.size(); ++j)
      if(dist(old[i].coordinates(), old[j].coordinates()) <= std::max(old[i].radius(), old[j].radius()))
        nb.push_back(j == i ? &B[i] : &old[j]);
    f(B[i], nb);
  }
}
static double R_dt, R_time, R_next;
static int64_t R_iter;
static void globals() {
  physics::dt = R_dt;
  physics::totaltime = R_time;
  physics::iteration = R_iter;
}
static bool sound() {
  for(auto & b : B) {
    double e = b.getTotalenergy() - .5 * dot(b.getVelocity(), b.getVelocity()) - external_force::potential(b.coordinates());
    double u = b.getInternalenergy(), r = b.getDensity(), p = b.getPressure(), s = dist(b.coordinates(), b.getAcceleration());
    double huge = 1e100;
    bool ok = u > 0 && u < huge && r >= 0 && r < huge && p >= 0 && p < huge && s < huge;
    if(conf.evolve && conf.thermo)
      ok = ok && e > 1e-3 * u;
    if(!ok)
      odd_ = true;
  }
  return !odd_;
}
static void choose_dt() {
  if(!sound())
    return;
  each(physics::compute_dt);
  double m = 1e24;
  for(auto & b : B)
    m = std::min(m, b.getDt());
  if(m < R_dt)
    R_dt = std::min(m, .5 * R_dt);
  if(m > 2 * R_dt)
    R_dt *= 2;
  R_next = R_time + R_dt;
  R_dt = R_next - R_time;
  globals();
}
static void gravity() {
#ifdef NEWTONIAN
  if(!conf.fmm)
    return;
  double G = param::gravitational_constant;
  std::vector<body> old = B;
  for(size_t i = 0; i < B.size(); ++i) {
    point_t a = old[i].getGAcceleration();
    double p = old[i].getGPotential();
    for(size_t j = 0; j < B.size(); ++j)
      if(j != i) {
        double r = dist(old[i].coordinates(), old[j].coordinates());
        a += -G * old[j].mass() / (r * r * r) * (old[i].coordinates() - old[j].coordinates());
        p += -G * old[j].mass() / r;
      }
    B[i].setGAcceleration(a);
    B[i].setGPotential(p);
  }
#endif
}
static void state_of_gas() {
  near(physics::compute_density);
  if(!sound())
    return;
  if(conf.evolve && conf.thermo)
    each(physics::recover_internal_energy);
  each([](body & b) {
    eos::compute_pressure(b);
    eos::compute_soundspeed(b);
  });
  near(physics::compute_signalspeed);
  if(conf.cullen)
    near(physics::compute_divv);
}
static void forces() {
  near(physics::compute_acceleration);
  gravity();
  if(R_iter < conf.relax) {
    each(physics::add_drag_acceleration);
    near(physics::add_short_range_repulsion);
  }
}
static void heating() {
  if(!conf.evolve)
    return;
  for(int m = 0; m < conf.passes; ++m) {
    if(!sound())
      return;
    if(conf.thermo) {
      near(physics::compute_dedt);
      if(R_iter < conf.relax)
        each(physics::add_drag_dedt);
      each(physics::recompute_pressure_soundspeed_thermokinetic);
    }
    else {
      near(physics::compute_dudt);
      if(R_iter < conf.relax)
        each(physics::add_drag_dudt);
      each(physics::recompute_pressure_soundspeed);
    }
  }
}
static void step() {
  globals();
  if(R_iter == conf.first) {
    each(eos::init);
    if(conf.thermo)
      each(physics::set_total_energy);
    if(conf.cullen)
      each([](body & b) { b.setAlpha(0.); });
    state_of_gas();
    each([](body & b) { b.setVelocityhalf(b.getVelocity()); });
    if(conf.cullen)
      near(viscosity::compute_alpha);
    forces();
#ifdef NEWTONIAN
    if(conf.thermo)
      each(physics::set_total_energy);
#endif
    if(conf.adaptive)
      choose_dt();
    heating();
  }
  else {
    each([](body & b) {
      if(conf.evolve && conf.thermo)
        b.setTotalenergy(b.getTotalenergy() + .5 * R_dt * b.getDedt());
      if(conf.evolve && !conf.thermo)
        b.setInternalenergy(b.getInternalenergy() + .5 * R_dt * b.getDudt());
      b.setVelocity(b.getVelocity() + .5 * R_dt * (b.getAcceleration() + b.getGAcceleration()));
      b.setVelocityhalf(b.getVelocity());
      b.set_coordinates(b.coordinates() + R_dt * b.getVelocity());
    });
    state_of_gas();
    if(conf.cullen)
      near(viscosity::compute_alpha);
    forces();
    each([](body & b) { b.setVelocity(b.getVelocity() + .5 * R_dt * (b.getAcceleration() + b.getGAcceleration())); });
    heating();
    each([](body & b) {
      if(conf.evolve && conf.thermo)
        b.setTotalenergy(b.getTotalenergy() + .5 * R_dt * b.getDedt());
      if(conf.evolve && !conf.thermo)
        b.setInternalenergy(b.getInternalenergy() + .5 * R_dt * b.getDudt());
    });
  }
  if(conf.varh || conf.unih) {
    double sum = 0;
    for(auto & b : B) {
      b.set_radius(std::pow(b.mass() / b.getDensity(), 1. / D) * conf.eta * kernels::kernel_width);
      sum += b.radius();
    }
    if(!conf.varh)
      for(auto & b : B)
        b.set_radius(sum / B.size());
  }
}

// snapshots -------------------------------------------------------------------
static std::vector<double> column(hid_t g, const char * name) {
  hid_t d = H5Dopen(g, name, H5P_DEFAULT);
  CHK(d >= 0, "data set %s is missing", name);
  hid_t s = H5Dget_space(d);
  std::vector<double> v(H5Sget_simple_extent_npoints(s));
  CHK(H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "data set %s cannot be read", name);
  H5Sclose(s);
  H5Dclose(d);
  return v;
}
static double attribute(hid_t g, const char * name) {
  hid_t a = H5Aopen(g, name, H5P_DEFAULT);
  CHK(a >= 0, "attribute %s is missing", name);
  double v;
  H5Aread(a, H5T_NATIVE_DOUBLE, &v);
  H5Aclose(a);
  return v;
}
static void compare(hid_t file, int step) {
  string name = text("/Step#%d", step);
  CHK(H5Lexists(file, name.c_str(), H5P_DEFAULT) > 0, "no snapshot of iteration %ld", (long)R_iter);
  hid_t g = H5Gopen(file, name.c_str(), H5P_DEFAULT);
  auto close = [&](const char * what, int id, double got, double want, double scale) {
    CHK(std::fabs(got - want) <= 2e-7 * (std::fabs(want) + scale), "%s of particle %d after iteration %ld is %.15g, should be %.15g", what, id, (long)R_iter, got, want);
  };
  CHK(attribute(g, "iteration") == R_iter, "iteration %g recorded, should be %ld", attribute(g, "iteration"), (long)R_iter);
  CHK(std::fabs(attribute(g, "time") - R_time) <= 1e-7 * (R_time + R_dt), "time %.15g recorded, should be %.15g", attribute(g, "time"), R_time);
  CHK(std::fabs(attribute(g, "timestep") - R_dt) <= 1e-7 * R_dt, "time step %.15g recorded for iteration %ld, should be %.15g", attribute(g, "timestep"), (long)R_iter, R_dt);
  auto id = column(g, "id");
  CHK(id.size() == B.size(), "%zu particles, should be %zu", id.size(), B.size());
  std::vector<int> seen(B.size(), 0);
  for(double i : id)
    CHK(i >= 0 && i < B.size() && !seen[(int)i]++, "particle %g lost or doubled", i);
  static const char * const names[] = {"x", "y", "z", "vx", "vy", "vz", "ax", "ay", "az", "h", "rho", "u", "P", "m", "alpha", "type", "divergenceV", "dDivVdt", "xi", "gradV", "traceSS"};
  for(int f : {10, 16, 17, 19, 20, 18, 14, 12, 11, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15}) {
    if(f < 9 && f % 3 >= D)
      continue;
    if((f == 14 || f > 15) && !conf.cullen)
      continue;
    auto want = [&](body & b) {
      switch(f / 3) {
      case 0: return b.coordinates()[f];
      case 1: return b.getVelocity()[f - 3];
      case 2: return (b.getAcceleration() + b.getGAcceleration())[f - 6];
      }
      return f == 9 ? b.radius() : f == 10 ? b.getDensity() : f == 11 ? b.getInternalenergy() : f == 12 ? b.getPressure() : f == 13 ? b.mass() : f == 14 ? b.getAlpha() : f == 15 ? (double)b.getType() : f == 16 ? b.getDivergenceV() : f == 17 ? b.getDdivvdt() : f == 18 ? b.getXi() : f == 19 ? b.getGradV() : b.getTraceSS();
    };
    double scale = 0;
    for(auto & b : B)
      scale = std::max(scale, std::fabs(want(b)));
    if(f == 20) {
      for(auto & b : B)
        scale = std::max(scale, std::fabs(b.getDivergenceV() * b.getDivergenceV()));
    }
    auto v = column(g, names[f]);
    CHK(v.size() == B.size(), "%zu values of %s", v.size(), names[f]);
    for(size_t i = 0; i < v.size(); ++i)
      close(names[f], (int)id[i], v[i], want(B[(int)id[i]]), f == 14 ? 1e-2 + scale : scale);
  }
  H5Gclose(g);
}

static int one(uint64_t seed, string mode) {
  std::mt19937_64 g(seed * 977 + 13);
  auto flag = [&] { return g() % 2 == 0; };
  conf = Conf{};
  conf.adaptive = flag();
  conf.cullen = flag();
  conf.evolve = g() % 4 != 0;
  conf.thermo = flag();
  conf.passes = 1 + g() % 2;
  int hh = g() % 3;
  // with lengths that differ, a walk may also list particles beyond the reach of the
  // kernel; the signal speed takes them in, nothing else does
  conf.varh = hh == 1 && !conf.cullen && !conf.adaptive;
  conf.unih = hh == 2;
  conf.relax = g() % 3 == 0 ? 1 + g() % 3 : 0;
  conf.steps = 4 + g() % 3;
  conf.first = g() % 4 ? 0 : 1 + g() % 3;
  double t0 = conf.first ? uni(g) : 0.;
  static const char * const ks[] = {"cubic spline", "wendland c2", "wendland c4", "Wendland C6", "quintic spline"};
  conf.kernel = ks[g() % 5];
  conf.eos = g() % 3 ? "ideal_fluid" : "polytropic";
  conf.force = g() % 3 == 0 ? "gravity" : "none";
  if(D == 1 && conf.force == "gravity")
    conf.force = "none";
#ifdef NEWTONIAN
  conf.fmm = D == 3 && g() % 3 != 0;
#endif
  int n = (D == 1 ? 24 : D == 2 ? 60 : 120) + g() % 20;
  conf.L = std::pow(10., 2 * uni(g) - 1);
  double sep = conf.L * std::pow(1. / n, 1. / D), cs = std::pow(10., 2 * uni(g) - 1), rho0 = std::pow(10., 2 * uni(g) - 1);
  conf.eta = 1.3 + .3 * uni(g);
  conf.dt = .05 * sep / cs * (conf.adaptive ? std::pow(4., 2 * uni(g) - 1) : .5 + uni(g));
  double gam = 1.4 + .3 * uni(g);
  what_ = text("simulation, seed %lu, %d particles, %s%s%s%s%s%s%s passes %d, relaxation %d, kernel %s, eos %s, force %s, first iteration %d", seed, n, conf.adaptive ? "adaptive step, " : "",
    conf.cullen ? "adaptive viscosity, " : "", conf.evolve ? "energy evolved, " : "", conf.thermo ? "total energy, " : "", conf.varh ? "variable lengths, " : "",
    conf.unih ? "common length updated, " : "", conf.fmm ? "gravity, " : "", conf.passes, conf.relax, conf.kernel.c_str(), conf.eos.c_str(), conf.force.c_str(), conf.first);
  // initial state: a jittered lattice
  std::vector<body> init;
  int side = std::ceil(std::pow((double)n, 1. / D) - 1e-9);
  double h0 = 2. * conf.eta * sep;
  for(int i = 0; i < n; ++i) {
    body b = body();
    point_t x, v;
    int k = i;
    for(int d = 0; d < D; ++d) {
      x[d] = conf.L * ((k % side + .5 + .3 * (uni(g) - .5)) / side - .5);
      v[d] = .5 * cs * (uni(g) - .5) - .3 * cs * x[d] / conf.L;
      k /= side;
    }
    b.set_coordinates(x);
    b.setVelocity(v);
    double m = rho0 * std::pow(sep, D) * (.8 + .4 * uni(g));
    b.set_mass(m);
    b.set_radius(h0 * (conf.varh ? .95 + .1 * uni(g) : 1.));
    b.set_id(i);
    b.setDensity(rho0);
    double u = cs * cs / (gam * (gam - 1)) * (.7 + .6 * uni(g));
    b.setInternalenergy(u);
    b.setPressure((gam - 1) * rho0 * u);
    b.setType(NORMAL);
    init.push_back(b);
  }
  // files
  string in = text("in%lu", seed), out = text("out%lu", seed), par = text("case%lu.par", seed);
  if(rank_ == 0) {
    std::ofstream f(par);
    f << std::setprecision(17) << "# a case\n\n initial_iteration = " << conf.first << "\nfinal_iteration = " << conf.first + conf.steps << "\ninitial_dt = " << (conf.first ? 3. : 1.) * conf.dt << "   # first step\nadaptive_timestep = " << (conf.adaptive ? "yes" : "no")
      << "\n\ttimestep_cfl_factor = 0.25\nsph_eta = " << conf.eta << "\nsph_kernel = \"" << conf.kernel << "\"\nsph_update_uniform_h = " << (conf.unih ? "yes" : "no")
      << "\nsph_variable_h = " << (conf.varh ? "yes" : "no") << "\ninitial_data_prefix = \"" << in << "\"\noutput_h5data_prefix = '" << out
      << "'\nout_screen_every = 0\nout_scalar_every = 0\nout_diagnostic_every = 0\nout_h5data_every = 1\nout_h5data_separate_iterations = no\neos_type = \"" << conf.eos
      << "\"\npoly_gamma = " << gam << "\nsph_viscosity = " << (conf.cullen ? "cullen" : "constant") << "\nsph_viscosity_alpha = 1.1\nsph_viscosity_beta = 2.1\nrelaxation_steps = " << conf.relax
      << "\nrelaxation_beta = " << .1 * cs / sep << "\nrelaxation_repulsion_radius = 0.6\nrelaxation_repulsion_gamma = " << .01 * cs * cs / (rho0 * std::pow(sep, D)) * sep
      << "\nevolve_internal_energy = " << (conf.evolve ? "yes" : "no") << "\nthermokinetic_formulation = " << (conf.thermo ? "yes" : "no") << "\nexternal_force_type = \"" << conf.force
      << "\"\ngravity_acceleration_constant = " << .1 * cs * cs / conf.L << "\nzero_potential_poison_value = " << -.1 * cs * cs << "\npressure_updates_number = " << conf.passes << "\nenable_fmm = " << (conf.fmm ? "yes" : "no")
      << "\nfmm_macangle = 0.0\ngravitational_constant = " << .1 * cs * cs * sep / (rho0 * std::pow(sep, D)) / n << "\n";
  }
  MPI_Barrier(MPI_COMM_WORLD);
  {
    int lo = (int64_t)n * rank_ / size_, hi = (int64_t)n * (rank_ + 1) / size_;
    std::vector<body> mine(init.begin() + lo, init.begin() + hi);
    physics::totaltime = t0 *= conf.dt;
    physics::dt = conf.dt;
    param::_out_h5data_separate_iterations = false;
    io::output_step = 0;
    io::outputDataHDF5(mine, in.c_str(), conf.first, t0);
  }
  MPI_Barrier(MPI_COMM_WORLD);
  // what should come out
  param::mpi_read_params(par.c_str());
  set_derived_params();
  std::vector<State> ref;
  odd_ = false;
  B = init;
  R_dt = conf.dt;
  R_time = t0;
  for(R_iter = conf.first; R_iter <= conf.first + conf.steps && !odd_; ++R_iter) {
    step();
    if(!sound())
      break;
    ref.push_back({R_time, R_dt, B});
    if(conf.adaptive) {
      choose_dt();
      R_time = R_next;
    }
    else
      R_time += R_dt;
  }
  if(!odd_) {
    char none[] = "";
    flecsi::execution::mpi_init_task(rank_ ? none : par.c_str());
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if(rank_ == 0 && !odd_) {
    hid_t file = H5Fopen((out + ".h5part").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    CHK(file >= 0, "no output file");
    for(int k = 0; k <= conf.steps; ++k) {
      R_iter = conf.first + k;
      B = ref[k].b;
      R_time = ref[k].time;
      R_dt = ref[k].dt;
      compare(file, k);
    }
    CHK(H5Lexists(file, text("/Step#%d", conf.steps + 1).c_str(), H5P_DEFAULT) <= 0, "the simulation goes on after its last iteration");
    H5Fclose(file);
    remove((out + ".h5part").c_str());
  }
  if(rank_ == 0) {
    remove((in + ".h5part").c_str());
    remove(par.c_str());
  }
  MPI_Barrier(MPI_COMM_WORLD);
  return !odd_;
}

int main(int argc, char ** argv) {
  return run_all(argc, argv, one);
}
